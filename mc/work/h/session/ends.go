package main

import (
	"context"
	"fmt"
	"time"

	"github.com/Azure/go-amqp"
	"github.com/c-kruse/vanflow/session"

	"vmc/vs"
)

var states = []string{"unstarted", "dialling", "beginning", "attaching", "idle", "unconfirmed", "refused", "stopped", "gaveup", "lost", "detaching"}

var ops = []string{"next", "accept", "send", "closercv", "closesnd"}

var endings = []string{"cancel", "deadline", "close", "close-unconfirmed", "before"}

// enter brings the container into a state in which operations cannot succeed;
// it returns the links to use and a message to settle.
func (w *world) enter(state string) (r session.Receiver, s session.Sender, m *amqp.Message) {
	b := w.b
	b.OnDial = func(n int, _ string, _ *amqp.ConnOptions) amqp.Fate {
		switch {
		case state == "dialling":
			return amqp.FateHang
		case state == "refused", state == "gaveup":
			return amqp.FateErr
		}
		return amqp.FateOK
	}
	b.OnSession = func(*amqp.Conn) amqp.Fate {
		if state == "beginning" {
			return amqp.FateHang
		}
		return amqp.FateOK
	}
	hang := false
	b.OnAttach = func(*amqp.Conn, string, string) amqp.Fate {
		if state == "attaching" && hang {
			return amqp.FateHang
		}
		return amqp.FateOK
	}
	b.OnSend = func(*amqp.Sender, *amqp.Message) amqp.Fate {
		if state == "unconfirmed" && hang {
			return amqp.FateHangAfter
		}
		return amqp.FateOK
	}
	b.OnAccept = func(*amqp.Receiver, *amqp.Message) amqp.Fate {
		if hang {
			return amqp.FateHang
		}
		return amqp.FateOK
	}
	b.OnClose = func(*amqp.Conn, string, string) amqp.Fate {
		if hang && state == "detaching" {
			return amqp.FateHang
		}
		return amqp.FateOK
	}
	b.NoCredit = func(string) bool { return hang && state != "unconfirmed" }
	if state == "gaveup" {
		w.cfg.BackOff = &script{}
	}
	w.c = session.NewContainer("amqp://broker", w.cfg)
	r = w.c.NewReceiver("r", session.ReceiverOptions{Credit: 10})
	s = w.c.NewSender("s", session.SenderOptions{})
	m = text("foreign")
	if state == "unstarted" {
		return
	}
	w.c.Start(w.ctx)
	vs.Quiesce()
	switch state {
	case "idle", "unconfirmed", "stopped", "lost", "detaching":
		b.Push("r", text("one"))
		msg, err := r.Next(bg)
		vs.Assert(err == nil, "cannot receive: %v", err)
		m = msg
		vs.Assert(s.Send(bg, text("two")) == nil, "cannot send")
	}
	hang = true
	switch state {
	case "stopped":
		w.cancel()
		vs.Quiesce()
	case "lost":
		// and nothing to connect to any more
		state = "refused"
		w.kill()
		vs.Quiesce()
	}
	time.Sleep(sec)
	return
}

// ends: every operation in every state ends when asked to.
func ends(state string) func() {
	return func() {
		w := newWorld(0, nil)
		r, s, m := w.enter(state)
		op := ops[vs.Choose(len(ops))]
		ending := endings[vs.Choose(len(endings))]
		what := fmt.Sprintf("%s in state %s ended by %s", op, state, ending)
		if op == "accept" && m.Value == "foreign" {
			m = nil
		}
		ctx, cancel := context.WithCancel(bg)
		switch ending {
		case "deadline":
			ctx, cancel = context.WithTimeout(bg, sec)
		case "before":
			cancel()
		}
		switch state {
		case "unstarted", "dialling", "beginning", "attaching", "refused", "gaveup":
			if vs.Choose(2) == 1 {
				// another operation on the link is waiting already
				what += " behind another"
				vs.GoHarness("other next", func() { r.Next(w.ctx) })
				vs.GoHarness("other send", func() { s.Send(w.ctx, text("other")) })
				vs.Quiesce()
			}
		}
		var done vs.Event
		start := vs.Elapsed()
		var took time.Duration
		var err error
		vs.GoHarness("operation", func() {
			switch op {
			case "next":
				_, err = r.Next(ctx)
			case "accept":
				if m == nil {
					// attaching is what takes time
					_, err = r.Next(ctx)
				} else {
					err = r.Accept(ctx, m)
				}
			case "send":
				err = s.Send(ctx, text("x"))
			case "closercv":
				err = r.Close(ctx)
			case "closesnd":
				err = s.Close(ctx)
			}
			took = vs.Elapsed() - start
			done.Set()
		})
		limit := sec + eps
		closeBoth := func(unconfirmed bool) {
			if unconfirmed {
				w.b.OnClose = func(*amqp.Conn, string, string) amqp.Fate { return amqp.FateHang }
			}
			cctx, ccancel := context.WithTimeout(bg, 2*sec)
			var closed vs.Event
			t := vs.Elapsed()
			vs.GoHarness("close", func() {
				r.Close(cctx)
				s.Close(cctx)
				closed.Set()
			})
			closed.Wait()
			vs.Assert(vs.Elapsed()-t <= 2*sec+eps, "%s: Close outlived its context", what)
			ccancel()
		}
		switch ending {
		case "cancel":
			time.Sleep(sec)
			cancel()
		case "close":
			time.Sleep(sec)
			closeBoth(false)
			if op == "send" && state == "detaching" {
				limit += 2 * sec
			}
		case "close-unconfirmed":
			time.Sleep(sec)
			closeBoth(true)
			if op == "send" {
				// the receiver is closed first
				limit += 2 * sec
			}
		case "before":
			limit = eps
		}
		if ending != "close" && ending != "close-unconfirmed" {
			time.Sleep(limit)
		}
		vs.Quiesce()
		if !done.IsSet() && (op == "closercv" || op == "closesnd") && state == "detaching" && (ending == "close" || ending == "close-unconfirmed") {
			// its own context is not done
			cancel()
			vs.Quiesce()
			vs.Assert(done.IsSet(), "%s: still pending", what)
			w.stopAfterHang()
			return
		}
		vs.Assert(done.IsSet(), "%s: still pending", what)
		vs.Assert(took <= limit, "%s: took %v", what, took)
		switch op {
		case "next", "send":
			vs.Assert(err != nil, "%s: reported as success", what)
		}
		vs.Outcome("%s: %v", what, took > 0)
		// closing is final
		if vs.Choose(2) == 1 {
			cctx, ccancel := context.WithTimeout(bg, sec)
			r.Close(cctx)
			s.Close(cctx)
			ccancel()
			t := vs.Elapsed()
			_, e1 := r.Next(bg)
			e2 := s.Send(bg, text("x"))
			var e3 error = fmt.Errorf("")
			if m != nil && m.Value != "foreign" {
				e3 = r.Accept(bg, m)
			}
			vs.Assert(e1 != nil && e2 != nil && e3 != nil, "%s: operations on a closed link succeeded: %v %v %v", what, e1, e2, e3)
			vs.Assert(vs.Elapsed()-t <= eps, "%s: operations on a closed link took %v", what, vs.Elapsed()-t)
		}
		cancel()
		w.stopAfterHang()
	}
}

func (w *world) stopAfterHang() {
	w.cancel()
	vs.Quiesce()
	w.b.Heal()
	time.Sleep(time.Minute)
	vs.Quiesce()
	if a := vs.Alive(); len(a) > 0 {
		vs.Fail("assert", "goroutines %v are still there after everything was cancelled", a)
	}
}

// crowd: many links report errors at once.
func crowd(n int) func() {
	return func() {
		w := newWorld(0, nil)
		w.start()
		var ended []*vs.Event
		for i := 0; i < n; i++ {
			r := w.c.NewReceiver(fmt.Sprint("r", i), session.ReceiverOptions{})
			s := w.c.NewSender(fmt.Sprint("s", i), session.SenderOptions{})
			e := &vs.Event{}
			ended = append(ended, e)
			vs.GoHarness("consumer", func() {
				for {
					if _, err := r.Next(w.ctx); err != nil {
						break
					}
				}
				e.Set()
			})
			vs.GoHarness("producer", func() {
				for w.ctx.Err() == nil {
					s.Send(w.ctx, text("x"))
					time.Sleep(5 * sec)
				}
			})
		}
		for k := 0; k < 3; k++ {
			time.Sleep(7 * sec)
			w.kill()
		}
		if n > 4 {
			// stopping so many is a matter of too many random selections
			time.Sleep(20 * sec)
			vs.Assert(w.b.Dials == 4, "3 lost sessions led to %d connections", w.b.Dials)
			for i := range ended {
				vs.Assert(w.b.Push(fmt.Sprint("r", i), text("x")) == 1, "link %d has not come back", i)
			}
			return
		}
		refuse := vs.Choose(2) == 1
		if refuse {
			w.b.OnDial = func(int, string, *amqp.ConnOptions) amqp.Fate { return amqp.FateErr }
		}
		time.Sleep(20 * sec)
		w.cancel()
		vs.Quiesce()
		time.Sleep(6 * sec)
		vs.Quiesce()
		for i, e := range ended {
			vs.Assert(e.IsSet(), "Next of link %d is pending after its context was cancelled", i)
		}
		w.clean("after everything was cancelled")
	}
}

// races: one link and one container used from several goroutines.
func races(kind int) func() {
	return func() {
		w := newWorld(0, nil)
		c := session.NewContainer("amqp://broker", session.ContainerConfig{})
		w.c = c
		var o vs.Obj
		count := 0
		handler := func(error) { o.Write("handler"); count++ }
		c.OnSessionError(handler)
		c.Start(w.ctx)
		r := c.NewReceiver("r", session.ReceiverOptions{Credit: 5})
		s := c.NewSender("s", session.SenderOptions{})
		w.b.Push("r", text("1"))
		w.b.Push("r", text("2"))
		do := map[string]func(){
			"next+accept": func() {
				ctx, cancel := context.WithTimeout(w.ctx, 3*sec)
				m, err := r.Next(ctx)
				if err == nil {
					r.Accept(ctx, m)
				}
				cancel()
			},
			"send": func() {
				ctx, cancel := context.WithTimeout(w.ctx, 3*sec)
				s.Send(ctx, text("x"))
				cancel()
			},
			"close": func() { r.Close(bg); s.Close(bg) },
			"kill":  func() { vs.Yield(); w.kill() },
			"register": func() {
				c.OnSessionError(func(err error) { handler(err); c.OnSessionError(handler) })
			},
			"create": func() {
				ctx, cancel := context.WithTimeout(w.ctx, 3*sec)
				c.NewSender("t", session.SenderOptions{}).Send(ctx, text("y"))
				cancel()
			},
			"cancel": func() { w.cancel() },
		}
		for _, n := range [][]string{
			{"next+accept", "next+accept", "kill"},
			{"send", "send", "close"},
			{"next+accept", "close", "kill"},
			{"send", "kill", "register"},
			{"create", "kill", "cancel"},
			{"next+accept", "send", "cancel"},
			{"close", "close", "next+accept"},
		}[kind] {
			vs.GoHarness(n, do[n])
		}
		if vs.Choose(2) == 1 {
			vs.Quiesce()
			w.kill()
		}
		time.Sleep(10 * sec)
		w.stop()
	}
}

// settleLater: a message received before a session is lost is settled after.
func settleLater() {
	w := newWorld(0, nil)
	w.start()
	r := w.c.NewReceiver("r", session.ReceiverOptions{Credit: 5})
	var ms []*amqp.Message
	for i := 0; i < 2; i++ {
		w.b.Push("r", text("%d", i))
		m, err := r.Next(bg)
		vs.Assert(err == nil, "cannot receive: %v", err)
		ms = append(ms, m)
	}
	w.kill()
	switch vs.Choose(4) {
	case 1:
		vs.GoHarness("consumer", func() { r.Next(w.ctx) })
		vs.Quiesce()
		time.Sleep(5 * sec)
	case 2:
		vs.GoHarness("consumer", func() { r.Next(w.ctx) })
	case 3:
		r.Close(bg)
	}
	for _, m := range ms {
		m := m
		var done vs.Event
		ctx, cancel := context.WithTimeout(bg, 20*sec)
		vs.GoHarness("settle", func() {
			err := r.Accept(ctx, m)
			vs.Assert(err != nil, "a message of a lost session was settled")
			done.Set()
		})
		done.Wait()
		cancel()
	}
	time.Sleep(5 * sec)
	vs.Assert(len(w.b.Accepted) == 0, "settled")
	vs.Assert(w.b.Dials <= 2, "%d connections after one loss", w.b.Dials)
	w.stop()
}

// queued: sends on one link without credit; the client library passes them on
// one after the other.
func queued() {
	w := newWorld(0, nil)
	w.start()
	s := w.c.NewSender("s", session.SenderOptions{})
	w.b.Receivers("s")
	vs.Assert(s.Send(bg, text("first")) == nil, "cannot send")
	credit := false
	var o vs.Obj
	w.b.NoCredit = func(string) bool { o.Touch(); return !credit }
	n := 2
	var ends [2]context.CancelFunc
	var done [2]vs.Event
	var errs [2]error
	for i := 0; i < n; i++ {
		i := i
		ctx, cancel := context.WithCancel(w.ctx)
		ends[i] = cancel
		vs.GoHarness("send", func() {
			errs[i] = s.Send(ctx, text("%d", i))
			done[i].Set()
		})
	}
	if vs.Choose(2) == 1 {
		vs.Quiesce()
	}
	what := vs.Choose(6)
	switch what {
	case 0, 1: // either order
		ends[what]()
		ends[1-what]()
	case 2:
		w.kill()
	case 3:
		s.Close(bg)
	case 4:
		w.cancel()
	case 5:
		ends[0]()
		s.Close(bg)
	}
	vs.Quiesce()
	if what == 2 {
		// sends that had not begun wait for credit on the next session
		time.Sleep(10 * sec)
		ends[0]()
		ends[1]()
		vs.Quiesce()
	}
	for i := range done {
		vs.Assert(done[i].IsSet(), "send %d is still pending (%d)", i, what)
		vs.Assert(errs[i] != nil, "send %d without credit succeeded (%d)", i, what)
	}
	vs.Assert(len(w.b.Sent) == 1, "%d messages sent", len(w.b.Sent))
	w.stop()
}

// doneFirst: operations that are over before they begin do not keep a link
// from being of use afterwards.
func doneFirst() {
	w := newWorld(0, nil)
	w.start()
	late := vs.Choose(2) == 1
	mk := func() (session.Receiver, session.Sender) {
		return w.c.NewReceiver("r", session.ReceiverOptions{Credit: 10}), w.c.NewSender("s", session.SenderOptions{})
	}
	var r session.Receiver
	var s session.Sender
	if late { // created once connected
		vs.Quiesce()
		r, s = mk()
	} else {
		r, s = mk()
		if vs.Choose(2) == 1 {
			vs.Quiesce()
		}
	}
	ctx, cancel := context.WithCancel(bg)
	if vs.Choose(2) == 1 {
		ctx, cancel = context.WithDeadline(bg, vs.Now().Add(-sec))
	}
	cancel()
	n := 1 + vs.Choose(2)
	for i := 0; i < n; i++ {
		_, err := r.Next(ctx)
		vs.Assert(err != nil, "Next with a context that is done succeeds although there is no message")
		s.Send(ctx, text("early")) // may be sent all the same
	}
	var sent, got vs.Event
	vs.GoHarness("send", func() {
		if s.Send(bg, text("later")) == nil {
			sent.Set()
		}
	})
	vs.GoHarness("next", func() {
		m, err := r.Next(bg)
		if err == nil && m != nil {
			got.Set()
		}
	})
	vs.Quiesce()
	w.b.Push("r", text("one"))
	time.Sleep(10 * sec)
	vs.Quiesce()
	vs.Assert(sent.IsSet(), "%d operations whose context was done, then a message cannot be sent", n)
	vs.Assert(got.IsSet(), "%d operations whose context was done, then a message is not received", n)
	r.Close(bg)
	s.Close(bg)
	w.stop()
}
