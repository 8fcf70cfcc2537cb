import json,subprocess,sys
# usage: addfixed.py  (reads lines "PROP|subject fragment|what" from stdin)
log=subprocess.run(['git','-C','/repo','log','--format=%h %s'],capture_output=True,text=True).stdout.splitlines()
p='/verif/known_findings.json'
d=json.load(open(p))
have={f['status'] for f in d['findings']}
for l in sys.stdin:
    l=l.strip()
    if not l: continue
    prop,frag,what=l.split('|')
    m=[x.split()[0] for x in log if frag in x]
    assert len(m)==1,(frag,m)
    s=f'fixed: property={prop} {m[0]} {what}'
    if s not in have: d['findings'].append({'status':s})
json.dump(d,open(p,'w'),indent=1); open(p,'a').write('\n')
