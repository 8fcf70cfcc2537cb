package main

import (
	"encoding/json"
	"fmt"
	"os"
	"reflect"
	"sort"
	"strings"
	"time"

	"github.com/Azure/go-amqp"
	"github.com/c-kruse/vanflow"
	tool "github.com/c-kruse/vanflow/cmd/vanflow-tool"

	"vmc/vs"
)

const outName = "stdout"

// startLog runs the command with its output in a file.
func startLog() *proc {
	amqp.Vmc().Deaf = true
	f, err := os.Create(outName)
	if err != nil {
		vs.Fail("harness", "%v", err)
	}
	os.Stdout = f
	return runTo(tool.VmcMain)
}

type line struct {
	To      string `json:"to"`
	Subject string `json:"subject"`
	V       string `json:"v"`
	Now     string `json:"now"`
	ID      string `json:"id"`
	Data    []struct {
		Type string          `json:"type"`
		Data json.RawMessage `json:"data"`
	} `json:"data"`
}

// printed parses the output: one JSON text per line.
func printed() []string {
	os.Stdout.Close()
	b, err := os.ReadFile(outName)
	if err != nil {
		vs.Fail("harness", "%v", err)
	}
	var out []string
	for _, l := range strings.Split(strings.TrimSuffix(string(b), "\n"), "\n") {
		if l == "" {
			continue
		}
		var x line
		if err := json.Unmarshal([]byte(l), &x); err != nil {
			vs.Fail("assert", "output line %q: %v", l, err)
		}
		s := x.Subject + " " + x.To
		switch x.Subject {
		case "HEARTBEAT":
			s += fmt.Sprintf(" %s v%s %s", x.ID, x.V, x.Now)
		case "RECORD":
			for _, d := range x.Data {
				var t vanflow.Record
				for _, r := range types {
					if strings.HasSuffix(d.Type, "."+reflect.TypeOf(r).Name()) {
						t = r
					}
				}
				if t == nil {
					vs.Fail("assert", "output line %q: unknown type %q", l, d.Type)
				}
				p := reflect.New(reflect.TypeOf(t))
				if err := json.Unmarshal(d.Data, p.Interface()); err != nil {
					vs.Fail("assert", "output line %q: %v", l, err)
				}
				s += " [" + typeName(t) + " " + text(attrs(p.Interface())) + "]"
			}
		default:
			vs.Fail("assert", "output line %q", l)
		}
		out = append(out, s)
	}
	return out
}

func recLine(s src, rs ...vanflow.Record) string {
	l := "RECORD " + s.addrOf(rs[0])
	for _, r := range rs {
		l += " [" + typeName(r) + " " + text(attrs(r)) + "]"
	}
	return l
}

func hbLine(s src, now uint64) string {
	a := s.addr()
	if s.typ == "CONTROLLER" {
		a += ".heartbeats"
	}
	return fmt.Sprintf("HEARTBEAT %s %s v%d %d", a, s.id, s.version, now)
}

type logFlags struct{ heart, recs, flush, flows, logs bool }

// logged: what two sources send, through all kinds of addresses, is printed
// once, the messages at an address in order.
func logged(f logFlags, conc bool) func() {
	return func() {
		p := startLog()
		b := amqp.Vmc()
		b.WaitReceivers("mc/sfe.all", 1)
		want := map[string][]string{} // by address
		total := 0
		give := func(s src, rs ...vanflow.Record) {
			a := s.addrOf(rs[0])
			if f.recs && (a == s.addr() || strings.HasSuffix(a, ".flows") && f.flows || strings.HasSuffix(a, ".logs") && f.logs) {
				want[a] = append(want[a], recLine(s, rs...))
				total++
			}
			s.send(rs...)
		}
		nows := []uint64{1, 0, 1<<63 - 1, 1 << 63, 1<<64 - 1}
		hb := func(s src) {
			now := nows[0]
			nows = append(nows[1:], now)
			if f.heart {
				l := hbLine(s, now)
				want[strings.Fields(l)[1]] = append(want[strings.Fields(l)[1]], l)
				total++
			}
			s.heartbeatAt(now)
		}
		ready := func(s src) {
			vs.Quiesce()
			t := vs.Elapsed()
			s.beacon()
			b.WaitReceivers(s.addr(), 1)
			if f.flows {
				b.WaitReceivers(s.addr()+".flows", 1)
			}
			if f.logs {
				b.WaitReceivers(s.addr()+".logs", 1)
			}
			if s.typ == "CONTROLLER" {
				b.WaitReceivers(s.addr()+".heartbeats", 1)
			}
			vs.Assert(vs.Elapsed()-t < sec, "%s is listened to only %v after it was discovered", s.id, vs.Elapsed()-t)
			if f.flush {
				time.Sleep(100 * ms)
			}
		}
		traffic := func(s src) {
			if conc {
				give(s, fill(vanflow.SiteRecord{}, "x", "a", every))
				give(s, fill(vanflow.FlowRecord{}, "y", "a", none))
				hb(s)
				return
			}
			for i, t := range types {
				give(s, fill(t, fmt.Sprint(i), "a", every))
				if i%3 == 0 {
					hb(s)
				}
			}
			for i := 0; i < 2; i++ { // messages that are exactly alike
				now := nows[0]
				hb(s)
				nows = append([]uint64{now}, nows[:len(nows)-1]...)
				give(s, fill(vanflow.LinkRecord{}, "again", "a", every))
			}
			give(s, fill(types[0], "p", "a", none), fill(types[1], "q", "b", every), fill(types[0], "p", "a", every))
			if f.recs { // a message without records
				want[s.addr()] = append(want[s.addr()], "RECORD "+s.addr())
				total++
			}
			s.sendTo(s.addr())
			give(s, vanflow.SiteRecord{BaseRecord: vanflow.BaseRecord{ID: "late", EndTime: &vanflow.Time{Time: time.UnixMicro(1<<63 - 1)}}})
		}
		flushes := func(s src, when string) {
			n := 0
			for _, x := range b.Sent {
				if x.Addr == s.direct() {
					n++
				}
			}
			vs.Assert((n > 0) == f.flush && n <= 1, "%d flush requests sent to %s %s", n, s.id, when)
		}
		for i, s := range []src{r1, c1} {
			ready(s)
			if i == 1 && !conc {
				time.Sleep(8 * sec)
				vs.Quiesce()
				flushes(s, "while it was silent")
			}
			traffic(s)
		}
		time.Sleep(8 * sec)
		vs.Quiesce()
		for _, s := range []src{r1, c1} {
			flushes(s, "in all")
		}
		p.interrupt("")
		got := printed()
		by := map[string][]string{}
		for _, l := range got {
			a := strings.Fields(l)[1]
			by[a] = append(by[a], l)
		}
		vs.Assert(len(got) == total, "%d messages printed, %d received", len(got), total)
		for a, w := range want {
			g := by[a]
			// the handlers of one listener run one after the other
			vs.Assert(fmt.Sprint(g) == fmt.Sprint(w), "printed for %s: %v\nreceived: %v", a, g, w)
		}
	}
}

// flood: more messages than the command buffers, while it is interrupted.
func flood() { flooded(vs.Choose(2)) }

// blocked: nobody reads the output for a while.
func blocked() { flooded(2) }

func flooded(mode int) {
	p := startLog()
	discover(r1)
	time.Sleep(100 * ms)
	var want []string
	n := 120
	if mode == 2 {
		vs.StdoutBlock(true)
	}
	for i := 0; i < n; i++ {
		r := fill(vanflow.LinkRecord{}, fmt.Sprint(i), "a", none)
		want = append(want, recLine(r1, r))
		r1.send(r)
	}
	if mode != 1 {
		time.Sleep(100 * ms)
		vs.Quiesce()
		if mode == 2 {
			time.Sleep(5 * sec)
			r := fill(vanflow.LinkRecord{}, "last", "a", none)
			want = append(want, recLine(r1, r))
			r1.send(r)
			vs.Quiesce()
			vs.StdoutBlock(false)
			time.Sleep(sec)
			vs.Quiesce()
		}
		p.interrupt("")
		got := printed()
		vs.Assert(strings.Join(got, "\n") == strings.Join(want, "\n"), "%d messages printed, %d received", len(got), n)
		return
	}
	p.interrupt("")
	got := printed()
	vs.Assert(len(got) <= n && strings.Join(got, "\n") == strings.Join(want[:len(got)], "\n"), "printed before the interrupt: %v", got)
}

// logComeAndGo: sources that fall silent leave nothing behind.
func logComeAndGo() {
	p := startLog()
	b := amqp.Vmc()
	var want []string
	for i := 0; i < 3; i++ {
		discover(c1)
		time.Sleep(100 * ms)
		r := fill(vanflow.LinkRecord{}, fmt.Sprint(i), "a", every)
		want = append(want, recLine(c1, r))
		c1.send(r)
		time.Sleep(sec)
		vs.Quiesce()
		time.Sleep(2 * time.Minute)
		vs.Quiesce()
		vs.Assert(len(b.OpenConns()) <= 1 && b.Receivers(c1.addr()) == 0, "%d connections without a source", len(b.OpenConns()))
	}
	p.interrupt("")
	got := printed()
	sort.Strings(got)
	sort.Strings(want)
	vs.Assert(strings.Join(got, "\n") == strings.Join(want, "\n"), "printed %v, received %v", got, want)
}
