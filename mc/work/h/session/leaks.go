package main

import (
	"context"
	"errors"
	"fmt"
	"time"

	"github.com/Azure/go-amqp"
	"github.com/c-kruse/vanflow/session"
	"github.com/cenkalti/backoff/v4"

	"vmc/vs"
)

// script is a backoff policy that follows a list of delays and then gives up.
type script struct {
	o      vs.Obj
	delays []time.Duration
	n      int
	resets int
}

func (s *script) NextBackOff() time.Duration {
	s.o.Write("backoff")
	if s.n >= len(s.delays) {
		return backoff.Stop
	}
	s.n++
	return s.delays[s.n-1]
}

func (s *script) Reset() { s.o.Write("backoff"); s.n = 0; s.resets++ }

// opened: whatever fails while connecting and whenever the container is
// stopped, nothing remains.
func opened(budget int, giveup bool) func() {
	return func() {
		w := newWorld(budget, fates{
			"dial":    {amqp.FateErr, amqp.FateHang},
			"session": {amqp.FateErr, amqp.FateKill, amqp.FateHang},
			"attach":  {amqp.FateErr, amqp.FateKill, amqp.FateHang},
			"close":   {amqp.FateErr, amqp.FateHang},
		})
		if giveup {
			w.cfg.BackOff = &script{delays: []time.Duration{sec}}
		}
		w.start()
		links := vs.Choose(2) == 1
		if links {
			w.consume("r", 1, true)
			s := w.sender("s")
			vs.GoHarness("producer", func() {
				for w.ctx.Err() == nil {
					s.send(w.ctx)
					time.Sleep(3 * sec)
				}
			})
		}
		for i := 0; i < 3; i++ {
			time.Sleep(900 * ms)
			vs.Quiesce()
			open := len(w.b.OpenConns())
			if n := len(w.b.Conns); n > 0 && len(w.b.Conns[n-1].VmcSessions()) == 0 && w.b.Conns[n-1].VmcOpen() {
				open-- // being established
			}
			vs.Assert(open <= 1, "%s: %d connections are open at a settled moment", w.what(), open)
			switch vs.Choose(3) {
			case 1:
				w.kill()
			case 2:
				if giveup {
					time.Sleep(time.Minute)
					continue
				}
				w.cancel()
				vs.Quiesce()
				w.heal()
				vs.Quiesce()
				time.Sleep(time.Minute)
				vs.Quiesce()
				w.clean("after the context of the container was cancelled")
				return
			}
		}
		if giveup {
			// failures enough
			for i := 0; i < 3; i++ {
				w.kill()
				time.Sleep(20 * sec)
				vs.Quiesce()
			}
			if links || w.b.Dials > 1 {
				vs.Outcome("%s %d", w.what(), w.b.Dials)
			}
		}
		w.stop()
	}
}

// gaveUp: the policy gives up after n attempts.
func gaveUp(n int) func() {
	return func() {
		w := newWorld(0, nil)
		kinds := []string{}
		attempt := 0
		fail := make([]int, n+1)
		for i := range fail {
			fail[i] = vs.Choose(3)
			kinds = append(kinds, []string{"dial", "session", "use"}[fail[i]])
		}
		w.b.OnDial = func(int, string, *amqp.ConnOptions) amqp.Fate {
			attempt++
			if attempt <= len(fail) && fail[attempt-1] == 0 {
				return amqp.FateErr
			}
			return amqp.FateOK
		}
		w.b.OnSession = func(*amqp.Conn) amqp.Fate {
			if attempt <= len(fail) && fail[attempt-1] == 1 {
				return amqp.FateErr
			}
			return amqp.FateOK
		}
		var delays []time.Duration
		for i := 0; i < n; i++ {
			delays = append(delays, sec)
		}
		w.cfg.BackOff = &script{delays: delays}
		c := session.NewContainer("amqp://broker", w.cfg)
		var final []error
		c.OnSessionError(func(err error) {
			var r session.RetryableError
			if !errors.As(err, &r) {
				final = append(final, err)
			}
		})
		c.Start(w.ctx)
		w.c = c
		r := w.c.NewReceiver("r", session.ReceiverOptions{})
		vs.GoHarness("consumer", func() { r.Next(w.ctx) })
		for i := 0; i <= n; i++ {
			vs.Quiesce()
			if fail[i] == 2 {
				vs.Assert(w.kill(), "%v: attempt %d left no connection", kinds, i)
			}
			vs.Quiesce()
			time.Sleep(sec + 10*ms)
		}
		vs.Quiesce()
		vs.Assert(attempt == n+1, "%v: %d attempts, want %d", kinds, attempt, n+1)
		vs.Assert(len(final) == 1, "%v: the final error was reported %d times", kinds, len(final))
		vs.Assert(len(w.b.OpenConns()) == 0, "%v: a connection is open after the container gave up", kinds)
		vs.Assert(len(w.b.OpenLinks()) == 0, "%v: links are open after the container gave up", kinds)
		time.Sleep(time.Minute)
		vs.Assert(attempt == n+1, "%v: further attempts after the container gave up", kinds)
		w.cancel()
		vs.Quiesce()
		vs.Assert(len(final) == 1, "%v: the final error was reported %d times", kinds, len(final))
		w.clean("after the container gave up")
	}
}

// closeRace: a link is closed while operations create and use it.
func closeRace(op string, slow bool) func() {
	return func() {
		w := newWorld(0, nil)
		if slow {
			w.b.OnAttach = func(*amqp.Conn, string, string) amqp.Fate {
				time.Sleep(100 * ms)
				return amqp.FateOK
			}
		}
		w.start()
		if vs.Choose(2) == 1 {
			vs.Quiesce()
		}
		r := w.c.NewReceiver("r", session.ReceiverOptions{})
		s := w.c.NewSender("s", session.SenderOptions{})
		var done vs.Event
		w.b.Push("r", text("m"))
		vs.GoHarness("operation", func() {
			switch op {
			case "next":
				for {
					if m, err := r.Next(bg); err != nil {
						break
					} else {
						r.Accept(bg, m)
					}
				}
			case "send":
				for i := 0; i < 3; i++ {
					s.Send(bg, text("m"))
				}
			case "pair":
				var other vs.Event
				vs.GoHarness("other", func() {
					s.Send(bg, text("n"))
					r.Next(bg)
					other.Set()
				})
				s.Send(bg, text("m"))
				r.Next(bg)
				other.Wait()
			case "both":
				ctx, cancel := context.WithTimeout(bg, 50*ms)
				r.Next(ctx)
				s.Send(ctx, text("m"))
				cancel()
				r.Next(bg)
			}
			done.Set()
		})
		if slow {
			time.Sleep([]time.Duration{0, 50 * ms, 100 * ms}[vs.Choose(3)])
		}
		if op == "pair" {
			time.Sleep([]time.Duration{0, sec}[vs.Choose(2)])
			for _, a := range []string{"r", "s"} {
				n := 0
				for _, l := range w.b.Links() {
					if l.Open && l.Addr == a {
						n++
					}
				}
				vs.Assert(n <= 1, "%d links are open for one link at %s", n, a)
			}
		}
		vs.Assert(okOrClosed(r.Close(bg)), "closing a receiver failed")
		vs.Assert(okOrClosed(s.Close(bg)), "closing a sender failed")
		if vs.Choose(2) == 1 {
			r.Close(bg)
			s.Close(bg)
		}
		time.Sleep(sec)
		vs.Quiesce()
		vs.Assert(done.IsSet(), "an operation is still pending after its link was closed")
		if l := w.b.OpenLinks(); len(l) > 0 {
			vs.Fail("assert", "links %v are open although they were closed", l)
		}
		vs.Assert(w.b.Dials == 1, "%d connections", w.b.Dials)
		w.stop()
	}
}

func okOrClosed(err error) bool { return err == nil }

// lossThenClose: the link is closed around the time its session is replaced.
func lossThenClose() {
	w := newWorld(0, nil)
	w.start()
	r := w.c.NewReceiver("r", session.ReceiverOptions{})
	x := w.c.NewReceiver("x", session.ReceiverOptions{})
	var done vs.Event
	vs.GoHarness("consumer", func() {
		for {
			if _, err := r.Next(bg); err != nil {
				break
			}
		}
		done.Set()
	})
	vs.GoHarness("other", func() { x.Next(w.ctx) })
	vs.Quiesce()
	w.kill()
	time.Sleep([]time.Duration{0, 100 * ms, 125 * ms, 250 * ms, 375 * ms, sec}[vs.Choose(6)])
	r.Close(bg)
	time.Sleep(20 * sec)
	vs.Quiesce()
	vs.Assert(done.IsSet(), "Next is still pending after its link was closed")
	vs.Assert(w.b.Receivers("r") == 0, "the broker link is open after the receiver was closed")
	vs.Assert(w.b.Receivers("x") == 1, "the other receiver is not attached")
	vs.Assert(len(w.b.OpenConns()) == 1, "%d connections", len(w.b.OpenConns()))
	w.stop()
}

var _ = fmt.Sprint
