#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the table below."""
import json, os, sys
os.chdir(os.path.join(os.path.dirname(os.path.abspath(__file__)), '..'))
props = [json.loads(l) for l in open('properties.jsonl')]
EX = "stateless model checking of the real code: exhaustive exploration of schedules, timer firings and environment faults of the instrumented implementation within stated bounds"
EN = "explicit-state enumeration of operation sequences or inputs on the real code against a reference model"
tech = {}
notes = {}
for p in props:
    i = p['id']
    tech[i] = {'C': EN + ", plus schedule exploration of concurrent codec use",
               'S': EN + ", plus schedule exploration with linearizability and race checking",
               'E': EX, 'N': EX, 'T': EX, 'V': EX}[i[0]]
    notes[i] = {'C': "the implementation is executed on every input of a stated finite family; the oracle is an independent table of the protocol",
                'S': "every operation sequence up to a stated depth over small keys, and every schedule of small concurrent programs up to a stated preemption bound",
                'E': "the implementation runs against a model AMQP broker under a controlled scheduler and virtual clock; bounds per scenario are in the evidence",
                'N': "the implementation runs against a model AMQP client library with injected faults under a controlled scheduler and virtual clock; bounds per scenario are in the evidence",
                'T': "the real command's main runs against a model broker and HTTP layer under a controlled scheduler and virtual clock; bounds per scenario are in the evidence",
                'V': "the real Run method runs against fake Kubernetes, port-forward and HTTP layers with every combination of step failures; bounds are in the evidence"}[i[0]]
claimed = set(sys.argv[1:]) or None
if claimed is None:
    claimed = set(open('tools/claimed.txt').read().split())
na = {l.split(None, 1)[0]: l.split(None, 1)[1].strip() for l in open('tools/not_applicable.txt') if l.strip()} if os.path.exists('tools/not_applicable.txt') else {}
m = {"version": 1, "setup_cmd": "./check setup",
     "checks": [{"property": p['id'], "quick_cmd": "./check %s quick" % p['id'], "thorough_cmd": "./check %s thorough" % p['id'],
                 "technique": tech[p['id']], "level": "model_checking", "level_note": notes[p['id']]} for p in props if p['id'] in claimed],
     "not_applicable": [{"property": p['id'], "reason": na.get(p['id'], "check under construction")} for p in props if p['id'] not in claimed]}
json.dump(m, open('MANIFEST.json', 'w'), indent=1)
