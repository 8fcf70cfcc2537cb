// Command conform runs all conformance scripts on the broker model and writes
// their logs.
package main

import (
	"encoding/json"
	"fmt"
	"os"
	"sort"
	"strings"

	"github.com/Azure/go-amqp"

	"vmc/vs"
)

type fake struct {
	b *amqp.VmcBroker
	f map[string]string
}

var fateOf = map[string]amqp.Fate{"": amqp.FateOK, "err": amqp.FateErr, "hang": amqp.FateHang, "kill": amqp.FateKill, "killafter": amqp.FateKillAfter, "hangafter": amqp.FateHangAfter, "detach": amqp.FateDetach}

func (e *fake) take(k string) amqp.Fate {
	f := e.f[k]
	delete(e.f, k)
	return fateOf[f]
}

func newFake() *fake {
	e := &fake{b: amqp.Vmc(), f: map[string]string{}}
	e.b.Deaf = true
	e.b.OnDial = func(int, string, *amqp.ConnOptions) amqp.Fate { return e.take("dial") }
	e.b.OnSession = func(*amqp.Conn) amqp.Fate { return e.take("session") }
	e.b.OnAttach = func(*amqp.Conn, string, string) amqp.Fate { return e.take("attach") }
	e.b.OnSend = func(*amqp.Sender, *amqp.Message) amqp.Fate { return e.take("send") }
	e.b.NoCredit = func(string) bool { return e.f["credit"] != "" }
	return e
}

func (e *fake) url() string                    { return "amqp://127.0.0.1:5672" }
func (e *fake) fate(k, f string)               { e.f[k] = f }
func (e *fake) settle()                        { vs.Quiesce() }
func (e *fake) push(a string, m *amqp.Message) { e.b.Push(a, m) }

func (e *fake) event(x string) {
	switch x {
	case "kill":
		for _, c := range e.b.OpenConns() {
			e.b.Kill(c, "killed")
		}
	case "end":
		for _, c := range e.b.OpenConns() {
			for _, s := range c.VmcSessions() {
				if s.VmcOpen() {
					e.b.KillSession(s, "ended")
				}
			}
		}
	case "detr", "dets":
		for _, l := range e.b.Links() {
			if l.Open && (l.Kind == "receiver") == (x == "detr") {
				if l.Recv != nil {
					e.b.Detach(l.Recv, "detached")
				} else {
					e.b.Detach(l.Send, "detached")
				}
			}
		}
	}
}

func (e *fake) state() string {
	var ls []string
	for _, l := range e.b.OpenLinks() {
		f := strings.Fields(l)
		ls = append(ls, f[0]+" "+f[1])
	}
	sort.Strings(ls)
	return fmt.Sprint(len(e.b.OpenConns()), ls, len(e.b.Sent))
}

func main() {
	out := map[string][]string{}
	for _, s := range scripts(os.Getenv("DEEP") != "") {
		if !sensible(s) {
			continue
		}
		var log []string
		v := vs.RunOnce(func() { log = run(newFake(), s) })
		if v != nil {
			log = append(log, "VIOLATION "+v.Kind+" "+v.Msg)
		}
		out[strings.Join(s, " ")] = log
	}
	b, _ := json.Marshal(out)
	if err := os.WriteFile(os.Getenv("OUT"), b, 0o644); err != nil {
		panic(err)
	}
}
