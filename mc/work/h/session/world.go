package main

import (
	"context"
	"fmt"
	"sort"
	"strings"
	"time"

	"github.com/Azure/go-amqp"
	"github.com/c-kruse/vanflow/session"

	"vmc/vs"
)

var bg = context.Background()

const (
	ms  = time.Millisecond
	sec = time.Second
	eps = time.Millisecond
)

func text(f string, a ...any) *amqp.Message { return &amqp.Message{Value: fmt.Sprintf(f, a...)} }

// world is a broker whose faults are enumerated up to a budget, and a
// container connected to it.
type world struct {
	b      *amqp.VmcBroker
	budget int
	faults []string
	fails  int // connection attempts that failed
	cfg    session.ContainerConfig
	c      session.Container
	ctx    context.Context
	cancel context.CancelFunc
	// slow is a time after which a hanging operation is ended by the broker
	// losing the connection (there are keepalives)
}

// pick decides the fate of an operation: none of the fates while the budget is
// used up.
func (w *world) pick(what string, fates ...amqp.Fate) amqp.Fate {
	if w.budget <= 0 || len(fates) == 0 {
		return amqp.FateOK
	}
	i := vs.Choose(len(fates) + 1)
	if i == 0 {
		return amqp.FateOK
	}
	w.budget--
	w.faults = append(w.faults, what+" "+fates[i-1].String())
	return fates[i-1]
}

type fates map[string][]amqp.Fate

func newWorld(budget int, f fates) *world {
	w := &world{b: amqp.Vmc(), budget: budget}
	b := w.b
	b.Deaf = true
	b.OnDial = func(n int, addr string, o *amqp.ConnOptions) amqp.Fate { return w.pick("dial", f["dial"]...) }
	b.OnSession = func(c *amqp.Conn) amqp.Fate { return w.pick("session", f["session"]...) }
	b.OnAttach = func(c *amqp.Conn, kind, addr string) amqp.Fate {
		return w.pick("attach "+addr, f["attach"]...)
	}
	b.OnSend = func(s *amqp.Sender, m *amqp.Message) amqp.Fate { return w.pick("send", f["send"]...) }
	b.OnAccept = func(r *amqp.Receiver, m *amqp.Message) amqp.Fate { return w.pick("accept", f["accept"]...) }
	b.OnClose = func(c *amqp.Conn, kind, addr string) amqp.Fate { return w.pick("close "+kind, f["close"]...) }
	w.ctx, w.cancel = context.WithCancel(bg)
	return w
}

func (w *world) start() {
	w.c = session.NewContainer("amqp://broker", w.cfg)
	w.c.Start(w.ctx)
}

func (w *world) what() string { return "[" + strings.Join(w.faults, ", ") + "]" }

// current is the open connection.
func (w *world) current() *amqp.Conn {
	o := w.b.OpenConns()
	if len(o) == 0 {
		return nil
	}
	return o[len(o)-1]
}

// kill breaks the open connection, if any.
func (w *world) kill() bool {
	c := w.current()
	if c == nil {
		return false
	}
	w.b.Kill(c, "broken by the environment")
	w.faults = append(w.faults, fmt.Sprintf("connection %d lost", c.N))
	return true
}

// stop cancels the container and checks that it leaves nothing behind.
func (w *world) stop() {
	w.cancel()
	vs.Quiesce()
	time.Sleep(2 * time.Minute)
	vs.Quiesce()
	w.clean("after the context of the container was cancelled")
}

func (w *world) clean(when string) {
	if o := w.b.OpenConns(); len(o) > 0 {
		vs.Fail("assert", "%s: connection %d is open %s", w.what(), o[0].N, when)
	}
	if l := w.b.OpenLinks(); len(l) > 0 {
		vs.Fail("assert", "%s: %v open %s", w.what(), l, when)
	}
	if a := vs.Alive(); len(a) > 0 {
		vs.Fail("assert", "%s: goroutines %v are still there %s", w.what(), a, when)
	}
}

// deliveries checks that what Next returned, per address, is exactly what the
// client library handed over, and that links that stayed healthy delivered
// everything.
func (w *world) deliveries(addr string, got []string, drained bool) {
	var taken []string
	for _, l := range w.b.Links() {
		if l.Recv == nil || l.Addr != addr {
			continue
		}
		r := l.Recv
		for i, v := range r.Taken {
			taken = append(taken, fmt.Sprint(v))
			if fmt.Sprint(r.Routed[i]) != fmt.Sprint(v) {
				vs.Fail("assert", "%s: harness: link order", w.what())
			}
		}
		if drained && l.Open && len(r.Taken) != len(r.Routed) {
			vs.Fail("assert", "%s: a healthy link at %s still holds %v", w.what(), addr, r.Routed[len(r.Taken):])
		}
	}
	a, b := append([]string(nil), taken...), append([]string(nil), got...)
	sort.Strings(a)
	sort.Strings(b)
	vs.Assert(strings.Join(a, " ") == strings.Join(b, " "), "%s: Next returned %v, the links at %s delivered %v", w.what(), got, addr, taken)
}

// onWire counts the messages with a body that reached the broker.
func (w *world) onWire(body string) int {
	n := 0
	for _, l := range [][]*amqp.VmcSent{w.b.Sent, w.b.Rejected} {
		for _, s := range l {
			if fmt.Sprint(s.Msg.Value) == body {
				n++
			}
		}
	}
	return n
}

type rx struct {
	w    *world
	addr string
	r    session.Receiver
	o    vs.Obj
	got  []string
	done *vs.Event
}

// consume calls Next until the context ends.
func (w *world) consume(addr string, credit int, accept bool) *rx {
	x := &rx{w: w, addr: addr, r: w.c.NewReceiver(addr, session.ReceiverOptions{Credit: credit}), done: &vs.Event{}}
	vs.GoHarness("consumer "+addr, func() {
		for {
			m, err := x.r.Next(w.ctx)
			if err != nil {
				vs.Assert(w.ctx.Err() != nil, "%s: Next at %s failed although neither its context nor its link ended: %v", w.what(), addr, err)
				vs.Assert(m == nil, "%s: Next returned a message and an error", w.what())
				break
			}
			vs.Assert(m != nil, "%s: Next at %s returned neither a message nor an error", w.what(), addr)
			x.o.Write("got")
			x.got = append(x.got, fmt.Sprint(m.Value))
			if accept {
				x.r.Accept(w.ctx, m)
			}
		}
		x.done.Set()
	})
	return x
}

type tx struct {
	w    *world
	addr string
	s    session.Sender
	o    vs.Obj
	n    int
	ok   int
	done *vs.Event
}

// send one message under a fresh body and checks what reached the wire.
func (x *tx) send(ctx context.Context) error {
	x.o.Write("send")
	x.n++
	body := fmt.Sprintf("%s-%d", x.addr, x.n)
	err := x.s.Send(ctx, text("%s", body))
	x.o.Write("sent")
	n := x.w.onWire(body)
	if err == nil {
		vs.Assert(n == 1, "%s: a successful Send put its message on the wire %d times", x.w.what(), n)
		x.ok++
	} else {
		vs.Assert(n <= 1, "%s: a failed Send put its message on the wire %d times (%v)", x.w.what(), n, err)
	}
	return err
}

func (w *world) sender(addr string) *tx {
	return &tx{w: w, addr: addr, s: w.c.NewSender(addr, session.SenderOptions{}), done: &vs.Event{}}
}

// produce sends until n sends succeeded, each send given up after a while.
func (w *world) produce(addr string, n int, each time.Duration) *tx {
	x := w.sender(addr)
	vs.GoHarness("producer "+addr, func() {
		for x.ok < n && w.ctx.Err() == nil {
			ctx, cancel := context.WithTimeout(w.ctx, each)
			err := x.send(ctx)
			cancel()
			if err != nil {
				time.Sleep(100 * ms)
			}
		}
		x.done.Set()
	})
	return x
}
