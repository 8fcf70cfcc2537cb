package main

import (
	"context"
	"errors"
	"fmt"
	"strings"
	"time"

	"github.com/Azure/go-amqp"
	"github.com/c-kruse/vanflow"
	"github.com/c-kruse/vanflow/session"

	"vmc/vs"
)

// fnet is the network seen by the code under test: a session.Container whose
// every answer is decided by the scenario. Messages sent to an address reach
// every receiver opened there before.
type fnet struct {
	o    vs.Obj
	rcvs []*frcv
	snds []*fsnd
	sent []*fsent
	// onSend decides the fate of the nth (from 0) send to an address.
	onSend func(addr string, n int, m *amqp.Message) fate
	// onAccept may refuse to settle a message.
	onAccept func(r *frcv, m *amqp.Message) error
	nsend    map[string]int
	sink     map[string]bool // addresses nobody reads: just log
}

type fate struct {
	err   error
	block bool          // until the context or sender is done
	slow  time.Duration // takes this long
	until *vs.Event     // takes until the event is set
}

type fsent struct {
	addr  string
	msg   *amqp.Message
	at    time.Duration // start
	end   time.Duration
	done  bool
	err   error
	order int
}

type item struct {
	m   *amqp.Message
	err error
}

type frcv struct {
	n        *fnet
	o        vs.Obj
	addr     string
	opts     session.ReceiverOptions
	q        []item
	closed   bool
	closedAt time.Duration
	handed   []*amqp.Message
	accepted []*amqp.Message
}

type fsnd struct {
	n      *fnet
	addr   string
	closed bool
	done   chan struct{}
}

func newNet() *fnet { return &fnet{nsend: map[string]int{}, sink: map[string]bool{}} }

func (n *fnet) Start(context.Context)      {}
func (n *fnet) OnSessionError(func(error)) {}
func (n *fnet) NewReceiver(addr string, o session.ReceiverOptions) session.Receiver {
	n.o.Write("new receiver")
	r := &frcv{n: n, addr: addr, opts: o}
	n.rcvs = append(n.rcvs, r)
	return r
}
func (n *fnet) NewSender(addr string, _ session.SenderOptions) session.Sender {
	n.o.Write("new sender")
	s := &fsnd{n: n, addr: addr, done: make(chan struct{})}
	n.snds = append(n.snds, s)
	return s
}

func clone(m *amqp.Message) *amqp.Message {
	c := *m
	return &c
}

// push puts a message (or receive error) on every open receiver of addr.
func (n *fnet) push(addr string, it item) {
	n.o.Write("push")
	n.deliver(addr, it)
}

func (n *fnet) deliver(addr string, it item) {
	for _, r := range n.rcvs {
		if r.addr == addr && !r.closed {
			r.o.Touch()
			c := it
			if c.m != nil {
				c.m = clone(c.m)
			}
			r.q = append(r.q, c)
		}
	}
}

// open waits for k open receivers at addr.
func (n *fnet) open(addr string, k int) {
	vs.WaitUntil("receivers at "+addr, &n.o, func() bool { return len(n.at(addr)) >= k })
}

func (n *fnet) at(addr string) (out []*frcv) {
	for _, r := range n.rcvs {
		if r.addr == addr && !r.closed {
			out = append(out, r)
		}
	}
	return out
}

var errLinkClosed = errors.New("link closed")

func (r *frcv) Next(ctx context.Context) (*amqp.Message, error) {
	if !vs.WaitChan("next", &r.o, ctx.Done(), func() bool { return r.closed || len(r.q) > 0 }) {
		return nil, ctx.Err()
	}
	if r.closed {
		return nil, errLinkClosed
	}
	it := r.q[0]
	r.q = r.q[1:]
	if it.err != nil {
		return nil, it.err
	}
	r.handed = append(r.handed, it.m)
	return it.m, nil
}

func (r *frcv) Accept(ctx context.Context, m *amqp.Message) error {
	r.o.Write("accept")
	if m == nil {
		vs.Fail("assert", "a nil message was acknowledged on %s", r.addr)
		return nil
	}
	if r.n.onAccept != nil {
		if err := r.n.onAccept(r, m); err != nil {
			return err
		}
	}
	r.accepted = append(r.accepted, m)
	return nil
}

func (r *frcv) Close(context.Context) error {
	r.n.o.Write("close receiver")
	r.o.Touch()
	if !r.closed {
		r.closed, r.closedAt = true, vs.Elapsed()
	}
	return nil
}

func (s *fsnd) Send(ctx context.Context, m *amqp.Message) error {
	n := s.n
	n.o.Write("send")
	e := &fsent{addr: s.addr, msg: clone(m), at: vs.Elapsed(), order: len(n.sent)}
	n.sent = append(n.sent, e)
	if s.closed {
		return e.finish(errLinkClosed)
	}
	if err := ctx.Err(); err != nil {
		return e.finish(err)
	}
	var f fate
	if n.onSend != nil {
		k := n.nsend[s.addr]
		n.nsend[s.addr]++
		f = n.onSend(s.addr, k, m)
	}
	switch {
	case f.err != nil:
		return e.finish(f.err)
	case f.block:
		select {
		case <-ctx.Done():
			return e.finish(ctx.Err())
		case <-s.done:
			return e.finish(errLinkClosed)
		}
	case f.until != nil:
		if !f.until.WaitOr(ctx.Done()) {
			return e.finish(ctx.Err())
		}
	case f.slow > 0:
		t := time.NewTimer(f.slow)
		defer t.Stop()
		select {
		case <-t.C:
		case <-ctx.Done():
			return e.finish(ctx.Err())
		case <-s.done:
			return e.finish(errLinkClosed)
		}
	}
	if f.slow > 0 || f.until != nil {
		n.o.Write("sent")
	}
	n.deliver(s.addr, item{m: m})
	return e.finish(nil)
}

func (e *fsent) finish(err error) error {
	e.done, e.err, e.end = true, err, vs.Elapsed()
	return err
}

func (s *fsnd) Close(context.Context) error {
	s.n.o.Write("close sender")
	if !s.closed {
		s.closed = true
		vs.CloseNow(s.done)
	}
	return nil
}

// leaks lists the links still open.
func (n *fnet) leaks() string {
	var out []string
	for _, r := range n.rcvs {
		if !r.closed {
			out = append(out, "receiver "+r.addr)
		}
	}
	for _, s := range n.snds {
		if !s.closed {
			out = append(out, "sender "+s.addr)
		}
	}
	return strings.Join(out, ", ")
}

// okSent lists the messages that went out to addr.
func (n *fnet) okSent(addr string) (out []*fsent) {
	for _, e := range n.sent {
		if e.addr == addr && e.done && e.err == nil {
			out = append(out, e)
		}
	}
	return out
}

func (n *fnet) attempts(addr string) (out []*fsent) {
	for _, e := range n.sent {
		if e.addr == addr {
			out = append(out, e)
		}
	}
	return out
}

func subject(m *amqp.Message) string {
	if m == nil || m.Properties == nil || m.Properties.Subject == nil {
		return "?"
	}
	return *m.Properties.Subject
}

func to(m *amqp.Message) string {
	if m == nil || m.Properties == nil || m.Properties.To == nil {
		return "?"
	}
	return *m.Properties.To
}

// messages

func beacon(id, addr string, v uint32) *amqp.Message {
	return vanflow.BeaconMessage{Version: v, SourceType: "T" + id, Address: addr, Direct: addr + "-d", Identity: id}.Encode()
}

func heartbeat(id string, n uint64) *amqp.Message {
	return vanflow.HeartbeatMessage{Identity: id, Version: 1, Now: n}.Encode()
}

func flush(addr string) *amqp.Message {
	var f vanflow.FlushMessage
	f.To = addr
	return f.Encode()
}

func record(ids ...string) *amqp.Message {
	var r vanflow.RecordMessage
	for _, id := range ids {
		r.Records = append(r.Records, vanflow.SiteRecord{BaseRecord: vanflow.NewBase(id)})
	}
	m, err := r.Encode()
	if err != nil {
		panic(err)
	}
	return m
}

func str(s string) *string { return &s }

// junk messages that no reader of vanflow messages can use
var junk = []func() *amqp.Message{
	func() *amqp.Message { return &amqp.Message{} },
	func() *amqp.Message { return &amqp.Message{Properties: &amqp.MessageProperties{}} },
	func() *amqp.Message { return &amqp.Message{Properties: &amqp.MessageProperties{Subject: str("NOPE")}} },
	func() *amqp.Message {
		return &amqp.Message{Properties: &amqp.MessageProperties{Subject: str("RECORD")}, Value: "x"}
	},
	func() *amqp.Message {
		m := record("ok")
		m.Value = append(m.Value.([]any), map[any]any{uint32(0): uint32(99)})
		return m
	},
}

func recIDs(m vanflow.RecordMessage) string {
	var l []string
	for _, r := range m.Records {
		l = append(l, r.Identity())
	}
	return strings.Join(l, "+")
}

func dur(d time.Duration) string { return fmt.Sprint(d) }

var sessOpts = session.ReceiverOptions{Credit: 10}
