package main

import (
	"context"
	"fmt"
	"strings"
	"time"

	"github.com/Azure/go-amqp"
	"github.com/c-kruse/vanflow/session"
	"github.com/cenkalti/backoff/v4"

	"vmc/vs"
)

// resume: a receiver and a sender work through every pattern of faults at the
// given operations, up to a budget.
func resume(budget int, f fates, maxKills int) func() {
	return func() {
		kills := maxKills
		w := newWorld(budget, f)
		w.start()
		r := w.consume("r", 3, true)
		s := w.produce("s", 3, 4*sec)
		for i := 0; i < 3; i++ {
			w.b.Push("r", text("in-%d", i))
			if kills > 0 {
				k := vs.Choose(4)
				if k > 0 {
					kills--
					if k == 2 {
						vs.Quiesce()
					}
					if k < 3 {
						w.kill()
					} else {
						for _, l := range w.b.Links() {
							if l.Open && l.Recv != nil {
								w.b.Detach(l.Recv, "detached by the environment")
								w.faults = append(w.faults, "receiver detached")
							}
						}
					}
				}
			}
			time.Sleep(700 * ms)
		}
		w.heal()
		time.Sleep(60 * sec)
		vs.Quiesce()
		w.b.Push("r", text("probe"))
		time.Sleep(sec)
		vs.Quiesce()
		r.o.TouchR()
		vs.Assert(len(r.got) > 0 && r.got[len(r.got)-1] == "probe", "%s: the receiver did not resume, got %v (receivers attached: %d)", w.what(), r.got, w.b.Receivers("r"))
		seen := map[string]bool{}
		for _, g := range r.got {
			vs.Assert(!seen[g], "%s: Next returned %s twice: %v", w.what(), g, r.got)
			seen[g] = true
		}
		w.deliveries("r", r.got, true)
		vs.Assert(s.done.IsSet(), "%s: the sender did not resume: %d of 3 messages sent", w.what(), s.ok)
		s.o.TouchR()
		vs.Assert(len(w.b.OpenConns()) == 1, "%s: %d connections are open", w.what(), len(w.b.OpenConns()))
		for _, l := range w.b.Links() {
			switch l.Kind {
			case "receiver":
				vs.Assert(l.Addr == "r" && l.Credit == 3, "%s: a receiver was attached at %s with credit %d", w.what(), l.Addr, l.Credit)
			default:
				vs.Assert(l.Addr == "s", "%s: a sender was attached at %s", w.what(), l.Addr)
			}
		}
		vs.Outcome("%s dials %d", w.what(), w.b.Dials)
		w.stop()
		vs.Assert(r.done.IsSet(), "%s: Next is still pending after its context ended", w.what())
	}
}

// heal ends all faults, also those that keep operations hanging: the broker's
// keepalives find the connection dead.
func (w *world) heal() {
	w.budget = 0
	for _, f := range w.faults {
		if strings.Contains(f, "hang") {
			w.b.Heal()
			return
		}
	}
}

// many links share the fate of their session.
func manyLinks(n int) func() {
	return func() {
		w := newWorld(0, nil)
		w.start()
		var rs []*rx
		var ss []*tx
		for i := 0; i < n; i++ {
			rs = append(rs, w.consume(fmt.Sprint("r", i), i+1, i%2 == 0))
			ss = append(ss, w.sender(fmt.Sprint("s", i)))
		}
		for round := 0; round < 2; round++ {
			time.Sleep(5 * sec)
			for i := range rs {
				w.b.Push(fmt.Sprint("r", i), text("%d-%d", round, i))
			}
			for _, s := range ss {
				s := s
				vs.GoHarness("send", func() { s.send(w.ctx) })
			}
			if vs.Choose(2) == 1 {
				vs.Quiesce()
			}
			w.kill()
		}
		time.Sleep(30 * sec)
		for i := range rs {
			w.b.Push(fmt.Sprint("r", i), text("probe %d", i))
		}
		vs.Quiesce()
		for i, r := range rs {
			r.o.TouchR()
			vs.Assert(len(r.got) > 0 && r.got[len(r.got)-1] == fmt.Sprintf("probe %d", i), "receiver %d of %d did not resume: %v", i, n, r.got)
			w.deliveries(r.addr, r.got, true)
		}
		for i, s := range ss {
			s := s
			ctx, cancel := context.WithTimeout(bg, sec)
			err := s.send(ctx)
			for k := 0; k < 2 && err != nil; k++ { // the first may find the old session lost
				vs.Assert(ctx.Err() == nil, "sender %d of %d did not resume", i, n)
				err = s.send(ctx)
			}
			cancel()
			vs.Assert(err == nil, "sender %d of %d did not resume: %v", i, n, err)
		}
		vs.Assert(w.b.Dials == 3, "two failures of the session, shared by %d links, led to %d connection attempts", 2*n, w.b.Dials)
		for _, l := range w.b.Links() {
			if l.Recv != nil {
				vs.Assert(fmt.Sprint("r", l.Credit-1) == l.Addr, "receiver at %s has credit %d", l.Addr, l.Credit)
			}
		}
		w.stop()
	}
}

// shared: several goroutines take deliveries from, and send with, one link
// while sessions fail.
func sharedLink(accept, instant bool) func() {
	return func() {
		w := newWorld(0, nil)
		if instant {
			w.cfg.BackOff = &backoff.ZeroBackOff{}
		}
		w.start()
		r := w.c.NewReceiver("r", session.ReceiverOptions{Credit: 2})
		var o vs.Obj
		var got []string
		for i := 0; i < 2; i++ {
			vs.GoHarness(fmt.Sprint("consumer", i), func() {
				for {
					m, err := r.Next(w.ctx)
					if err != nil {
						vs.Assert(w.ctx.Err() != nil, "Next failed: %v", err)
						return
					}
					o.Write("got")
					got = append(got, fmt.Sprint(m.Value))
					if accept {
						r.Accept(w.ctx, m)
					}
				}
			})
		}
		snd := w.sender("s")
		for i := 0; i < 2; i++ {
			body := fmt.Sprint("m", i)
			vs.GoHarness(fmt.Sprint("producer", i), func() {
				err := snd.s.Send(w.ctx, text("%s", body))
				n := w.onWire(body)
				vs.Assert(err == nil && n == 1 || err != nil && n <= 1, "Send returned %v, message on the wire %d times", err, n)
			})
		}
		if vs.Choose(2) == 1 {
			vs.Quiesce() // connected, the messages sent, both consumers waiting
		}
		for i := 0; i < 2; i++ {
			w.b.Push("r", text("in-%d", i))
		}
		w.kill()
		time.Sleep(20 * sec)
		limit := 2
		if !accept {
			// credit is never returned, it limits what a link delivers
			limit = 1
		}
		for i := 0; i < limit; i++ {
			w.b.Push("r", text("late-%d", i))
		}
		time.Sleep(20 * sec)
		vs.Quiesce()
		o.TouchR()
		w.deliveries("r", got, accept)
		if accept {
			n := 0
			for _, g := range got {
				if strings.HasPrefix(g, "late") {
					n++
				}
			}
			vs.Assert(n == limit, "%d of %d later messages received: %v", n, limit, got)
		}
		var fin vs.Obj
		var err error
		ended := false
		vs.GoHarness("last", func() {
			e := snd.s.Send(w.ctx, text("last"))
			if e != nil && w.ctx.Err() == nil { // finds the session before lost
				e = snd.s.Send(w.ctx, text("last"))
			}
			fin.Write("last")
			err, ended = e, true
		})
		time.Sleep(20 * sec)
		vs.Quiesce()
		fin.TouchR()
		vs.Assert(ended && err == nil, "the sender did not resume (Send ended: %v, %v)", ended, err)
		vs.Assert(w.b.Dials <= 2, "one failure led to %d connections", w.b.Dials)
		w.stop()
	}
}

var (
	transport = fates{
		"dial":    {amqp.FateErr, amqp.FateHang},
		"session": {amqp.FateErr, amqp.FateKill, amqp.FateHang},
		"attach":  {amqp.FateErr, amqp.FateKill, amqp.FateHang},
	}
	traffic = fates{
		"send":   {amqp.FateErr, amqp.FateHang, amqp.FateKill, amqp.FateKillAfter, amqp.FateHangAfter, amqp.FateDetach},
		"accept": {amqp.FateErr, amqp.FateHang, amqp.FateKill, amqp.FateKillAfter, amqp.FateDetach},
	}
	anything = fates{}
)

func init() {
	for _, f := range []fates{transport, traffic} {
		for k, v := range f {
			anything[k] = v
		}
	}
}
