package main

import (
	"context"
	"fmt"
	"time"

	"github.com/Azure/go-amqp"
	"github.com/c-kruse/vanflow/session"

	"vmc/vs"
)

// restarts: every sequence of operations, most of which must leave the session
// alone, and of losses of the connection.
func restarts(length int) func() {
	return func() {
		w := newWorld(0, nil)
		var attach, accept, clos, send amqp.Fate
		nocredit := false
		w.b.OnAttach = func(*amqp.Conn, string, string) amqp.Fate { return attach }
		w.b.OnAccept = func(*amqp.Receiver, *amqp.Message) amqp.Fate { return accept }
		w.b.OnClose = func(*amqp.Conn, string, string) amqp.Fate { return clos }
		w.b.OnSend = func(*amqp.Sender, *amqp.Message) amqp.Fate { return send }
		w.b.NoCredit = func(string) bool { return nocredit }
		w.start()
		lost := 0
		shared := w.c.NewReceiver("r", session.ReceiverOptions{Credit: 50})
		idle := w.c.NewReceiver("i", session.ReceiverOptions{Credit: 50})
		snd := w.c.NewSender("s", session.SenderOptions{})
		idles := w.c.NewSender("t", session.SenderOptions{})
		var last *amqp.Message
		n := 0
		exact := func() {
			vs.Assert(w.b.Dials == 1+lost, "%s: %d sessions were lost while in use, %d connections were made", w.what(), lost, w.b.Dials)
		}
		recv := func(r session.Receiver, addr string) {
			n++
			w.b.Push(addr, text("%s-%d", addr, n))
			ctx, cancel := context.WithTimeout(bg, 10*sec)
			m, err := r.Next(ctx)
			cancel()
			vs.Assert(err == nil, "%s: cannot receive: %v", w.what(), err)
			if addr == "r" {
				last = m
			}
			exact()
		}
		use := func(s session.Sender) {
			ctx, cancel := context.WithTimeout(bg, 10*sec)
			err := s.Send(ctx, text("x"))
			for i := 0; i < 2 && err != nil; i++ {
				err = s.Send(ctx, text("x"))
			}
			cancel()
			vs.Assert(err == nil, "%s: cannot send: %v", w.what(), err)
			exact()
		}
		recv(shared, "r")
		recv(idle, "i")
		use(snd)
		use(idles)
		type action struct {
			name string
			do   func()
		}
		timeout := func(f func(context.Context) error) {
			ctx, cancel := context.WithTimeout(bg, 100*ms)
			vs.Assert(f(ctx) != nil, "%s: an operation that cannot succeed succeeded", w.what())
			cancel()
		}
		concurrently := func(f func(context.Context) error, end func(cancel func())) {
			ctx, cancel := context.WithCancel(bg)
			var done vs.Event
			vs.GoHarness("operation", func() {
				vs.Assert(f(ctx) != nil, "%s: an operation that cannot succeed succeeded", w.what())
				done.Set()
			})
			vs.Quiesce()
			end(cancel)
			vs.Quiesce()
			vs.Assert(done.IsSet(), "%s: the operation did not end", w.what())
			cancel()
		}
		with := func(v *amqp.Fate, f amqp.Fate, do func()) func() {
			return func() {
				*v = f
				do()
				*v = amqp.FateOK
			}
		}
		nocred := func(do func()) func() {
			return func() { nocredit = true; do(); nocredit = false }
		}
		next := func(ctx context.Context) error { _, err := shared.Next(ctx); return err }
		push := func(ctx context.Context) error { return snd.Send(ctx, text("y")) }
		newRcv := func() session.Receiver { return w.c.NewReceiver("n", session.ReceiverOptions{}) }
		cancelIt := func(cancel func()) { cancel() }
		actions := []action{
			{"receive timeout", func() { timeout(next) }},
			{"receive cancelled", func() { concurrently(next, cancelIt) }},
			{"send timeout", nocred(func() { timeout(push) })},
			{"send cancelled", nocred(func() { concurrently(push, cancelIt) })},
			{"unacknowledged send timeout", with(&send, amqp.FateHangAfter, func() { timeout(push) })},
			{"attach timeout", with(&attach, amqp.FateHang, func() {
				timeout(func(ctx context.Context) error { _, err := newRcv().Next(ctx); return err })
			})},
			{"close while attaching", with(&attach, amqp.FateHang, func() {
				r := newRcv()
				concurrently(func(ctx context.Context) error { _, err := r.Next(ctx); return err }, func(func()) { r.Close(bg) })
			})},
			{"close while receiving", func() {
				r := newRcv()
				concurrently(func(ctx context.Context) error { _, err := r.Next(ctx); return err }, func(func()) { r.Close(bg) })
			}},
			{"unconfirmed close while receiving", with(&clos, amqp.FateHang, func() {
				r := newRcv()
				concurrently(func(ctx context.Context) error { _, err := r.Next(ctx); return err }, func(func()) {
					ctx, cancel := context.WithTimeout(bg, 100*ms)
					r.Close(ctx)
					cancel()
				})
			})},
			{"close while sending", nocred(func() {
				s := w.c.NewSender("n", session.SenderOptions{})
				concurrently(func(ctx context.Context) error { return s.Send(ctx, text("z")) }, func(func()) { s.Close(bg) })
			})},
			{"use after close", func() {
				r, s := newRcv(), w.c.NewSender("n", session.SenderOptions{})
				r.Close(bg)
				s.Close(bg)
				_, err := r.Next(bg)
				vs.Assert(err != nil, "Next on a closed link succeeded")
				vs.Assert(r.Accept(bg, last) != nil, "Accept on a closed link succeeded")
				vs.Assert(s.Send(bg, text("z")) != nil, "Send on a closed link succeeded")
			}},
			{"settlement fails", with(&accept, amqp.FateErr, func() { shared.Accept(bg, last) })},
			{"settlement timeout", with(&accept, amqp.FateHang, func() {
				ctx, cancel := context.WithTimeout(bg, 100*ms)
				shared.Accept(ctx, last)
				cancel()
			})},
			{"settle", func() { shared.Accept(bg, last) }},
			{"receive", func() { recv(shared, "r") }},
			{"send", func() { use(snd) }},
			{"idle receiver", func() { recv(idle, "i") }},
			{"idle sender", func() { use(idles) }},
			{"loss", func() {
				if c := w.current(); c != nil {
					lost++
					w.b.Kill(c, "broken by the environment")
				}
			}},
			{"loss while receiving", func() {
				c := w.current()
				if c == nil {
					return
				}
				lost++
				ctx, cancel := context.WithTimeout(bg, 5*sec)
				var done vs.Event
				vs.GoHarness("operation", func() { shared.Next(ctx); done.Set() })
				vs.Quiesce()
				if c.VmcOpen() {
					w.b.Kill(c, "broken by the environment")
				}
				done.Wait()
				cancel()
				exact()
			}},
		}
		for i := 0; i < length; i++ {
			a := actions[vs.Choose(len(actions))]
			w.faults = append(w.faults, a.name)
			a.do()
			if vs.Choose(2) == 1 {
				w.faults = append(w.faults, "pause")
				time.Sleep(10 * sec)
			}
			vs.Quiesce()
			vs.Assert(w.b.Dials <= 1+lost, "%s: %d sessions were lost, %d connections were made", w.what(), lost, w.b.Dials)
			vs.Assert(len(w.b.OpenConns()) <= 1, "%s: %d connections are open", w.what(), len(w.b.OpenConns()))
		}
		// reports about earlier sessions
		use(idles)
		recv(idle, "i")
		recv(shared, "r")
		use(snd)
		time.Sleep(20 * sec)
		exact()
		w.stop()
	}
}

// lateReports: links that notice the loss of a session while, or after, it is
// replaced.
func lateReports(links, losses int) func() {
	return func() {
		w := newWorld(0, nil)
		w.start()
		var ss []session.Sender
		for i := 0; i < links; i++ {
			s := w.c.NewSender(fmt.Sprint("s", i), session.SenderOptions{})
			vs.Assert(s.Send(bg, text("first")) == nil, "cannot send")
			ss = append(ss, s)
		}
		lost := losses
		for k := 0; k < lost; k++ {
			w.kill()
			for i, s := range ss {
				s, wait := s, time.Duration(i)*[]time.Duration{0, 130 * ms, 300 * ms, sec}[vs.Choose(4)]
				vs.GoHarness("sender", func() {
					time.Sleep(wait)
					s.Send(bg, text("late"))
				})
			}
			time.Sleep(20 * sec)
		}
		for _, s := range ss {
			vs.Assert(s.Send(bg, text("last")) == nil, "a sender does not work after its session was replaced")
		}
		vs.Assert(w.b.Dials == 1+lost, "%d lost sessions led to %d connections", lost, w.b.Dials)
		w.stop()
	}
}

// detached: failures of links lead to at most one new session each.
func detached(links int) func() {
	return func() {
		w := newWorld(0, nil)
		w.start()
		var rs []*rx
		for i := 0; i < links; i++ {
			rs = append(rs, w.consume(fmt.Sprint("r", i), 1, true))
		}
		time.Sleep(sec)
		fails := 0
		for k := 0; k < 2; k++ {
			if i := vs.Choose(links + 1); i < links {
				for _, l := range w.b.Links() {
					if l.Open && l.Addr == fmt.Sprint("r", i) {
						w.b.Detach(l.Recv, "detached by the environment")
						fails++
					}
				}
			}
			if vs.Choose(2) == 1 {
				time.Sleep(20 * sec)
			}
		}
		time.Sleep(20 * sec)
		for _, r := range rs {
			w.b.Push(r.addr, text("probe"))
		}
		vs.Quiesce()
		for _, r := range rs {
			r.o.TouchR()
			vs.Assert(len(r.got) == 1, "receiver %s got %v after %d links were detached", r.addr, r.got, fails)
		}
		vs.Assert(w.b.Dials <= 1+fails, "%d detached links led to %d connections", fails, w.b.Dials)
		w.stop()
	}
}
