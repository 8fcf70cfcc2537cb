package main

import (
	"context"
	"fmt"
	"strings"
	"time"

	"github.com/c-kruse/vanflow/session"

	"vmc/vs"
)

type mrcv struct {
	r    session.Receiver
	addr string
	o    vs.Obj
	got  []string
	ctx  context.Context
	stop context.CancelFunc
	done vs.Event
}

func (m *mrcv) run(slow time.Duration) {
	m.ctx, m.stop = context.WithCancel(bg)
	vs.GoHarness("receiver "+m.addr, func() {
		for {
			if slow > 0 {
				time.Sleep(slow)
			}
			msg, err := m.r.Next(m.ctx)
			if err != nil {
				break
			}
			m.o.Write("got")
			m.got = append(m.got, fmt.Sprint(msg.Value))
			vs.Assert(m.r.Accept(m.ctx, msg) == nil, "cannot accept")
		}
		m.done.Set()
	})
}

// routed: senders and receivers of two addresses, concurrently.
func routed(credit int) func() {
	return func() {
		f := session.NewMockContainerFactory()
		a, b := f.Create(), f.Create()
		a.Start(bg)
		b.OnSessionError(func(error) {})
		var rs []*mrcv
		for _, x := range []string{"a", "a", "b"} {
			m := &mrcv{r: b.NewReceiver(x, session.ReceiverOptions{Credit: credit}), addr: x}
			rs = append(rs, m)
			m.run(0)
		}
		var left vs.Obj
		n := 0
		snd := func(name, addr string, count int) {
			s := a.NewSender(addr, session.SenderOptions{})
			vs.GoHarness("sender "+name, func() {
				for i := 0; i < count; i++ {
					vs.Assert(s.Send(bg, text("%s%d", name, i)) == nil, "cannot send")
				}
				left.Write("sender done")
				n++
			})
		}
		snd("x", "a", 2)
		snd("y", "a", 1)
		snd("z", "b", 1)
		time.Sleep(sec)
		vs.Quiesce()
		left.TouchR()
		vs.Assert(n == 3, "a send is still waiting although all receivers receive")
		for _, m := range rs {
			m.o.TouchR()
			got := " " + strings.Join(m.got, " ")
			if m.addr == "b" {
				vs.Assert(got == " z0", "receiver of b got %v", m.got)
				continue
			}
			vs.Assert(len(m.got) == 3 && strings.Contains(got, " y0"), "receiver of a got %v", m.got)
			i, j := strings.Index(got, " x0"), strings.Index(got, " x1")
			vs.Assert(i >= 0 && j > i, "receiver of a got %v, sent x0 x1 in that order", m.got)
		}
		for _, m := range rs {
			m.stop()
		}
		vs.Quiesce()
		for _, m := range rs {
			vs.Assert(m.done.IsSet(), "Next is pending after its context ended")
		}
	}
}

// closing: links are closed, and contexts end, during sends.
func mockClosing() {
	router := session.NewMockRouter()
	a, b := session.NewMockContainer(router), session.NewMockContainer(router)
	stay := &mrcv{r: b.NewReceiver("a", session.ReceiverOptions{Credit: 1}), addr: "a"}
	gone := &mrcv{r: b.NewReceiver("a", session.ReceiverOptions{Credit: 1}), addr: "a"}
	if vs.Choose(2) == 1 {
		stay, gone = gone, stay
	}
	last := &mrcv{r: b.NewReceiver("a", session.ReceiverOptions{Credit: 1}), addr: "a"}
	stay.run(0)
	last.run(0)
	how := vs.Choose(5)
	if how == 1 {
		gone.run(0)
	}
	s := a.NewSender("a", session.SenderOptions{})
	ctx, cancel := context.WithCancel(bg)
	if how == 4 {
		ctx, cancel = context.WithTimeout(bg, 2*sec)
	}
	sent := []string{}
	errs := 0
	var o vs.Obj
	var done vs.Event
	vs.GoHarness("sender", func() {
		for i := 0; i < 3; i++ {
			err := s.Send(ctx, text("%d", i))
			o.Write("sent")
			if err == nil {
				sent = append(sent, fmt.Sprint(i))
			} else {
				errs++
			}
		}
		done.Set()
	})
	var closed vs.Event
	vs.GoHarness("closer", func() {
		switch how {
		case 0, 1: // the receiver that does not receive
			gone.r.Close(bg)
			if vs.Choose(2) == 1 {
				gone.r.Close(bg)
			}
		case 2: // the sender
			s.Close(bg)
			s.Close(bg)
		case 3:
			cancel()
		}
		closed.Set()
	})
	time.Sleep(3 * sec)
	vs.Quiesce()
	what := fmt.Sprintf("case %d", how)
	vs.Assert(done.IsSet(), "%s: a send waits forever", what)
	vs.Assert(closed.IsSet(), "%s: a close waits forever", what)
	o.TouchR()
	for _, m := range []*mrcv{stay, last} {
		m.o.TouchR()
		got := strings.Join(m.got, " ")
		if how < 2 {
			vs.Assert(errs == 0 && got == "0 1 2", "%s: an open receiver got %q, %d sends failed", what, got, errs)
		}
		for _, x := range sent {
			vs.Assert(strings.Contains(got, x), "%s: %s was sent, an open receiver got %q", what, x, got)
		}
		for i := 1; i < len(m.got); i++ {
			vs.Assert(m.got[i-1] < m.got[i], "%s: received out of order or twice: %q", what, got)
		}
	}
	if how < 2 {
		_, err := gone.r.Next(canceledSoon())
		for i := 0; i < 4 && err == nil; i++ {
			_, err = gone.r.Next(canceledSoon())
		}
		vs.Assert(err != nil, "%s: a closed receiver keeps receiving", what)
	}
	cancel()
	stay.stop()
	last.stop()
	if gone.stop != nil {
		gone.stop()
	}
	vs.Quiesce()
}

func canceledSoon() context.Context {
	ctx, cancel := context.WithTimeout(bg, sec)
	_ = cancel
	return ctx
}

// firstSubscriber: sends to an address without receivers wait for one.
func firstSubscriber() {
	router := session.NewMockRouter()
	a, b := session.NewMockContainer(router), session.NewMockContainer(router)
	type res struct {
		err  error
		done vs.Event
		at   time.Duration
	}
	start := func(addr, body string, ctx context.Context, s session.Sender) *res {
		r := &res{}
		vs.GoHarness("send "+body, func() {
			r.err = s.Send(ctx, text("%s", body))
			r.at = vs.Elapsed()
			r.done.Set()
		})
		return r
	}
	s := a.NewSender("a", session.SenderOptions{})
	ctx, cancel := context.WithTimeout(bg, 2*sec)
	short := start("a", "short", ctx, a.NewSender("a", session.SenderOptions{}))
	shut := a.NewSender("a", session.SenderOptions{})
	closing := start("a", "closing", bg, shut)
	long := start("a", "long", bg, s)
	never := start("n", "never", bg, a.NewSender("n", session.SenderOptions{}))
	_ = never
	when := []time.Duration{0, sec, 3 * sec}[vs.Choose(3)]
	if when > 0 {
		time.Sleep(when)
		vs.Quiesce()
		vs.Assert(!long.done.IsSet(), "a send without a subscriber returned %v", long.err)
	}
	if when == 3*sec {
		vs.Assert(short.done.IsSet() && short.err != nil && near(short.at, 2*sec), "a send without a subscriber outlived its context")
		shut.Close(bg)
		vs.Quiesce()
		vs.Assert(closing.done.IsSet() && closing.err != nil, "a send of a closed sender waits forever")
	}
	m := &mrcv{r: b.NewReceiver("a", session.ReceiverOptions{}), addr: "a"}
	m.run(0)
	other := &mrcv{r: b.NewReceiver("b", session.ReceiverOptions{}), addr: "b"}
	other.run(0)
	time.Sleep(4 * sec)
	vs.Quiesce()
	m.o.TouchR()
	want := map[string]bool{"long": true}
	if when < 3*sec {
		want["short"], want["closing"] = true, true
	}
	for _, g := range m.got {
		vs.Assert(want[g], "received %v", m.got)
		delete(want, g)
	}
	vs.Assert(len(want) == 0, "first subscriber after %v received only %v", when, m.got)
	vs.Assert(long.done.IsSet() && long.err == nil, "the send is still waiting or failed")
	vs.Assert(!never.done.IsSet(), "a send nobody receives returned")
	vs.Assert(len(other.got) == 0, "a receiver of another address received %v", other.got)
	cancel()
	m.stop()
	other.stop()
	vs.Quiesce()
}

// subscribing: a receiver subscribes while messages are sent; from its first
// message on it misses none.
func subscribing() {
	router := session.NewMockRouter()
	a, b := session.NewMockContainer(router), session.NewMockContainer(router)
	first := &mrcv{r: b.NewReceiver("a", session.ReceiverOptions{Credit: 1}), addr: "a"}
	first.run(0)
	s := a.NewSender("a", session.SenderOptions{})
	var o vs.Obj
	sent, before := 0, 0
	vs.GoHarness("sender", func() {
		for i := 0; i < 4; i++ {
			vs.Assert(s.Send(bg, text("%d", i)) == nil, "cannot send")
			o.Write("sent")
			sent++
		}
	})
	m := &mrcv{addr: "a"}
	vs.GoHarness("subscriber", func() {
		m.r = b.NewReceiver("a", session.ReceiverOptions{Credit: 1})
		o.TouchR()
		before = sent
		m.run(0)
	})
	time.Sleep(sec)
	vs.Quiesce()
	m.o.TouchR()
	o.TouchR()
	first.o.TouchR()
	vs.Assert(sent == 4 && strings.Join(first.got, "") == "0123", "sent %d messages, received %v", sent, first.got)
	got := strings.Join(m.got, "")
	vs.Assert(strings.HasSuffix("0123", got), "a new receiver got %q: some message twice, out of order or missing", got)
	// it was subscribed throughout every send that started after it returned
	vs.Assert(len(got) >= 4-before-1, "subscribed after %d sends, got only %q", before, got)
	first.stop()
	m.stop()
	vs.Quiesce()
}

// interrupted: a Next that ends with its context takes no message away.
func interrupted(mock bool) func() {
	return func() {
		var r session.Receiver
		var w *world
		if mock {
			c := session.NewMockContainerFactory().Create()
			r = c.NewReceiver("r", session.ReceiverOptions{})
			s := c.NewSender("r", session.SenderOptions{})
			vs.GoHarness("sender", func() {
				for i := 0; i < 2; i++ {
					vs.Assert(s.Send(bg, text("m%d", i)) == nil, "cannot send")
				}
			})
		} else {
			w = newWorld(0, nil)
			w.start()
			r = w.c.NewReceiver("r", session.ReceiverOptions{Credit: 10})
			vs.GoHarness("router", func() {
				w.b.WaitReceivers("r", 1)
				w.b.Push("r", text("first"))
			})
			m, err := r.Next(bg)
			vs.Assert(err == nil && m.Value == "first", "first message: %v %v", m, err)
			vs.GoHarness("router", func() {
				w.b.Push("r", text("m0"))
				w.b.Push("r", text("m1"))
			})
		}
		// where the first contexts end: during, before, with a deadline, not at all
		how := vs.Choose(4)
		var got []string
		for k := 0; len(got) < 2 && k < 6; k++ {
			ctx, cancel := context.WithCancel(bg)
			if k < 2 {
				switch how {
				case 0:
					go cancel()
				case 1:
					cancel()
				case 2:
					ctx, cancel = context.WithTimeout(bg, 0)
				}
			}
			m, err := r.Next(ctx)
			if err == nil {
				got = append(got, fmt.Sprint(m.Value))
			} else {
				vs.Assert(ctx.Err() != nil, "Next fails: %v", err)
				vs.Assert(m == nil, "Next returns a message and the error %v", err)
			}
			cancel()
		}
		vs.Assert(strings.Join(got, " ") == "m0 m1", "received %v, sent m0 m1; the contexts of two Next ended (%d)", got, how)
		r.Close(bg)
		if w != nil {
			w.stop()
			w.clean("after all")
		}
	}
}
