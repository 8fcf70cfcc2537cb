package main

import (
	"context"
	"errors"
	"fmt"
	"strings"
	"time"

	"github.com/Azure/go-amqp"
	"github.com/c-kruse/vanflow"
	"github.com/c-kruse/vanflow/eventsource"

	"vmc/vs"
)

var src = eventsource.Info{ID: "s", Address: "x", Direct: "x-d", Version: 1, Type: "CONTROLLER"}

func hbTag(m vanflow.HeartbeatMessage) string {
	return fmt.Sprintf("hb %s %d", m.Identity, m.Now)
}
func recTag(m vanflow.RecordMessage) string { return "rec " + recIDs(m) }

type callLog struct {
	o     vs.Obj
	calls []string
}

func (l *callLog) add(s string) {
	l.o.Write("handler called")
	l.calls = append(l.calls, s)
}

// count of calls of handler h with tag t
func (l *callLog) of(h string) (out []string) {
	for _, c := range l.calls {
		if strings.HasPrefix(c, h+":") {
			out = append(out, c[len(h)+1:])
		}
	}
	return
}

// handlers registers named handlers; names starting with R get records, the
// others heartbeats.
func (l *callLog) handle(c *eventsource.Client, name string) {
	if name[0] == 'R' {
		c.OnRecord(func(m vanflow.RecordMessage) { l.add(name + ":" + recTag(m)) })
	} else {
		c.OnHeartbeat(func(m vanflow.HeartbeatMessage) { l.add(name + ":" + hbTag(m)) })
	}
}

type cmsg struct {
	name   string
	mk     func() *amqp.Message
	rec    string // handed to record handlers as
	hb     string // handed to heartbeat handlers as
	err    error  // a receive error instead
	reject bool
}

func clientAlphabet() []cmsg {
	l := []cmsg{
		{name: "hb", mk: func() *amqp.Message { return heartbeat("s", 5) }, hb: "hb s 5"},
		{name: "rec", mk: func() *amqp.Message { return record("r1") }, rec: "rec r1"},
		{name: "recs", mk: func() *amqp.Message { return record("r2", "r3") }, rec: "rec r2+r3"},
		{name: "norec", mk: func() *amqp.Message { m := record("r"); m.Value = []any{}; return m }, rec: "rec "},
		{name: "beacon", mk: func() *amqp.Message { return beacon("s", "x", 1) }},
		{name: "flush", mk: func() *amqp.Message { return flush("x") }},
		{name: "receive error", err: errors.Join(errors.New("receive failed"), context.Canceled, context.DeadlineExceeded)},
		{name: "refused hb", mk: func() *amqp.Message { return heartbeat("s", 6) }, hb: "hb s 6", reject: true},
		{name: "refused junk", mk: junk[0], reject: true},
	}
	for i, j := range junk {
		l = append(l, cmsg{name: fmt.Sprint("junk", i), mk: j})
	}
	return l
}

// deliveries: every sequence of messages and errors on one listener.
func deliveries(length int, handlers ...string) func() {
	return func() {
		alpha := clientAlphabet()
		n := newNet()
		reject := map[string]bool{}
		n.onAccept = func(r *frcv, m *amqp.Message) error {
			if reject[""] {
				return errors.New("cannot settle")
			}
			return nil
		}
		c := eventsource.NewClient(n, eventsource.ClientOptions{Source: src})
		l := &callLog{}
		for _, h := range handlers {
			l.handle(c, h)
		}
		vs.Assert(c.Listen(bg, eventsource.FromSourceAddress()) == nil, "cannot listen")
		n.open("x", 1)
		var want, names []string
		acks, handed := 0, 0
		for k := 0; k < length; k++ {
			b := alpha[vs.Choose(len(alpha))]
			names = append(names, b.name)
			reject[""] = b.reject
			it := item{err: b.err}
			if b.err == nil {
				it.m = b.mk()
				handed++
				if !b.reject {
					acks++
				}
			}
			n.push("x", it)
			vs.Quiesce()
			var exp []string
			for _, h := range handlers {
				if h[0] == 'R' && b.rec != "" {
					exp = append(exp, h+":"+b.rec)
				}
				if h[0] == 'H' && b.hb != "" {
					exp = append(exp, h+":"+b.hb)
				}
			}
			if !b.reject || len(l.calls) > len(want) {
				want = append(want, exp...)
			}
			vs.Assert(strings.Join(l.calls, ", ") == strings.Join(want, ", "), "after %v: calls %v, want %v", names, l.calls, want)
			r := n.rcvs[0]
			vs.Assert(len(r.handed) == handed && len(r.accepted) == acks && len(r.q) == 0, "after %v: took %d messages of %d, acknowledged %d of %d", names, len(r.handed), handed, len(r.accepted), acks)
		}
		c.Close()
		vs.Assert(n.leaks() == "", "left open after Close: %s", n.leaks())
	}
}

// listeners: several listeners at once, each with its own order.
func listeners() {
	n := newNet()
	c := eventsource.NewClient(n, eventsource.ClientOptions{Source: src})
	l := &callLog{}
	for _, h := range []string{"R1", "H1", "R2"} {
		l.handle(c, h)
	}
	provs := []struct {
		p    eventsource.ListenerConfigProvider
		addr string
	}{{eventsource.FromSourceAddress(), "x"}, {eventsource.FromSourceAddressFlows(), "x.flows"}, {eventsource.FromSourceAddressLogs(), "x.logs"}, {eventsource.FromSourceAddressHeartbeats(), "x.heartbeats"}}
	i := vs.Choose(4)
	j := (i + 1 + vs.Choose(3)) % 4
	for _, p := range []int{i, j} {
		vs.Assert(c.Listen(bg, provs[p].p) == nil, "cannot listen")
		n.open(provs[p].addr, 1)
	}
	msgs := [][]*amqp.Message{{record("a1"), heartbeat("a", 2), record("a3")}, {heartbeat("b", 1), record("b2"), junk[0](), record("b4")}}
	done := make(chan struct{})
	for k, p := range []int{i, j} {
		go func() {
			for _, m := range msgs[k] {
				n.push(provs[p].addr, item{m: m})
			}
			done <- struct{}{}
		}()
	}
	<-done
	<-done
	vs.Quiesce()
	per := func(h, who string) string {
		var out []string
		for _, t := range l.of(h) {
			if strings.Contains(t, " "+who) {
				out = append(out, t)
			}
		}
		return strings.Join(out, ", ")
	}
	for _, h := range []string{"R1", "R2"} {
		vs.Assert(per(h, "a") == "rec a1, rec a3" && per(h, "b") == "rec b2, rec b4", "handler %s called with %v", h, l.of(h))
	}
	vs.Assert(per("H1", "a") == "hb a 2" && per("H1", "b") == "hb b 1", "handler H1 called with %v", l.of("H1"))
	for _, m := range []string{"rec a1", "rec a3", "rec b2", "rec b4"} {
		vs.Assert(pos(l.calls, "R1:"+m) < pos(l.calls, "R2:"+m), "%s: handlers not called in registration order: %v", m, l.calls)
	}
	for _, r := range n.rcvs {
		vs.Assert(len(r.accepted) == len(r.handed) && len(r.q) == 0, "not everything acknowledged on %s", r.addr)
	}
	vs.Outcome("%v", l.calls)
	c.Close()
}

func pos(l []string, s string) int {
	for i, x := range l {
		if x == s {
			return i
		}
	}
	return -1
}

// registering handlers while messages arrive.
func registering() {
	n := newNet()
	c := eventsource.NewClient(n, eventsource.ClientOptions{Source: src})
	l := &callLog{}
	l.handle(c, "R0")
	vs.Assert(c.Listen(bg, eventsource.FromSourceAddress()) == nil, "cannot listen")
	n.open("x", 1)
	done := make(chan struct{})
	from := map[string]int{} // calls of R0 seen before and messages pushed by the time it is registered
	pushed := 0
	upto := map[string]int{}
	two := vs.Choose(2) == 1
	reg := func(name string) {
		l.o.Write("register")
		from[name] = len(l.of("R0"))
		l.handle(c, name)
		n.o.Write("registered")
		upto[name] = pushed
		done <- struct{}{}
	}
	go reg("R1")
	k := 2
	if two {
		go reg("R2")
		k++
	}
	go func() {
		for i := 1; i <= 3; i++ {
			n.push("x", item{m: record(fmt.Sprint(i))})
			pushed = i
		}
		done <- struct{}{}
	}()
	for ; k > 0; k-- {
		<-done
	}
	vs.Quiesce()
	vs.Assert(strings.Join(l.of("R0"), ",") == "rec 1,rec 2,rec 3", "handler R0 called with %v", l.of("R0"))
	for name := range from {
		got := l.of(name)
		first := 3 - len(got) // messages missed
		for i, t := range got {
			vs.Assert(t == fmt.Sprintf("rec %d", first+i+1), "handler %s registered during delivery called with %v", name, got)
		}
		// what R0 had before registration started is not delivered again, except
		// the message in progress; what arrived afterwards is
		vs.Assert(first >= from[name]-1, "handler %s called with %v although R0 had seen %d messages before it was registered", name, got, from[name])
		vs.Assert(first <= upto[name], "handler %s called with %v although only %d messages had arrived when it was registered", name, got, upto[name])
	}
	c.Close()
}

// slowHandler: messages wait for a busy handler and are all delivered.
func slowHandler() {
	n := newNet()
	c := eventsource.NewClient(n, eventsource.ClientOptions{Source: src})
	l := &callLog{}
	c.OnRecord(func(m vanflow.RecordMessage) { time.Sleep(time.Second); l.add("R1:" + recTag(m)) })
	l.handle(c, "R2")
	l.handle(c, "H1")
	vs.Assert(c.Listen(bg, eventsource.FromSourceAddress()) == nil, "cannot listen")
	n.open("x", 1)
	want := ""
	for i := 0; i < 300; i++ {
		n.push("x", item{m: record(fmt.Sprint(i))})
		want += fmt.Sprintf("rec %d,", i)
	}
	time.Sleep(302 * time.Second)
	for _, h := range []string{"R1", "R2"} {
		vs.Assert(strings.Join(l.of(h), ",")+"," == want, "handler %s called with %v", h, l.of(h))
	}
	c.Close()
}

// E06

// closing: Close against everything else a client can be doing.
func closing(first int) func() {
	return func() {
		n := newNet()
		c := eventsource.NewClient(n, eventsource.ClientOptions{Source: src})
		var o vs.Obj
		running, closed := 0, false
		gate := &vs.Event{}
		hold := false
		enter := func() {
			o.Write("handler enters")
			if closed {
				vs.Fail("assert", "a handler is called after Close returned")
			}
			running++
			if hold {
				gate.Wait()
			}
			o.Write("handler leaves")
			running--
		}
		c.OnRecord(func(vanflow.RecordMessage) { enter() })
		c.OnHeartbeat(func(vanflow.HeartbeatMessage) { enter() })
		ctx, cancel := context.WithCancel(bg)
		nl := 1 + first%2
		for i := 0; i < nl; i++ {
			vs.Assert(c.Listen([]context.Context{ctx, bg}[i], []eventsource.ListenerConfigProvider{eventsource.FromSourceAddress(), eventsource.FromSourceAddressFlows()}[i]) == nil, "cannot listen")
		}
		if first&2 != 0 { // the handler is busy when Close is called
			hold = true
			n.open("x", 1)
			n.push("x", item{m: record("r")})
			vs.Quiesce()
		}
		doClose := func() {
			before := len(n.rcvs)
			_ = before
			c.Close()
			o.Write("closed")
			closed = true
			if running > 0 {
				vs.Fail("assert", "Close returned while a handler is running")
			}
		}
		var late error
		var lated bool
		ops := []func(){
			doClose,
			func() { late = c.Listen(bg, eventsource.FromSourceAddressLogs()); lated = late == nil },
			func() { c.OnRecord(func(vanflow.RecordMessage) {}); c.OnHeartbeat(func(vanflow.HeartbeatMessage) {}) },
			func() { n.push("x", item{m: record("r2")}); n.push("x.flows", item{m: heartbeat("s", 1)}) },
			cancel,
			func() { n.push("x", item{err: errors.New("receive failed")}) },
		}
		done := make(chan struct{})
		k := 2
		go func() { doClose(); done <- struct{}{} }()
		a := vs.Choose(len(ops))
		go func() { ops[a](); done <- struct{}{} }()
		if b := vs.Choose(4); b > 0 {
			k++
			go func() { ops[[]int{0, 0, 3, 1}[b]](); done <- struct{}{} }()
		}
		if hold {
			go func() { gate.Set() }()
		}
		for ; k > 0; k-- {
			<-done
		}
		vs.Quiesce()
		_ = lated
		for _, r := range n.rcvs {
			vs.Assert(r.closed, "receiver %s still open after Close returned", r.addr)
		}
		for _, a := range []string{"x", "x.flows", "x.logs"} {
			n.push(a, item{m: record("after")})
		}
		doClose()
		vs.Quiesce()
		cancel()
		if l := vs.Alive(); len(l) > 0 {
			vs.Fail("assert", "goroutines left after Close: %v", l)
		}
	}
}

// listenerDone checks, at the moment Close returns, that the listeners started
// before have stopped.
func closeStops() {
	n := newNet()
	c := eventsource.NewClient(n, eventsource.ClientOptions{Source: src})
	k := vs.Choose(4)
	provs := []eventsource.ListenerConfigProvider{eventsource.FromSourceAddress(), eventsource.FromSourceAddressFlows(), eventsource.FromSourceAddressLogs()}
	for i := 0; i < k; i++ {
		vs.Assert(c.Listen(bg, provs[i]) == nil, "cannot listen")
	}
	if vs.Choose(2) == 1 {
		vs.Quiesce()
	}
	closers := 1 + vs.Choose(3)
	done := make(chan struct{})
	for i := 0; i < closers; i++ {
		go func() {
			c.Close()
			n.o.TouchR()
			// a listener that never opened its receiver has nothing to close
			if l := n.leaks(); l != "" {
				vs.Fail("assert", "Close returned with open %s", l)
			}
			done <- struct{}{}
		}()
	}
	for i := 0; i < closers; i++ {
		<-done
	}
	cnt := len(n.rcvs)
	vs.Quiesce()
	vs.Assert(len(n.rcvs) == cnt, "a listener opened a receiver after Close returned")
	if l := vs.Alive(); len(l) > 0 {
		vs.Fail("assert", "goroutines left after Close: %v", l)
	}
}

// listenerContext: a listener ends with its own context, the others go on.
func listenerContext() {
	n := newNet()
	c := eventsource.NewClient(n, eventsource.ClientOptions{Source: src})
	l := &callLog{}
	l.handle(c, "R1")
	ctx, cancel := context.WithCancel(bg)
	ends := vs.Choose(3)
	switch ends {
	case 1:
		cancel()
	case 2:
		cancel()
		ctx, cancel = context.WithTimeout(bg, time.Second)
	}
	vs.Assert(c.Listen(ctx, eventsource.FromSourceAddress()) == nil, "cannot listen")
	vs.Assert(c.Listen(bg, eventsource.FromSourceAddressFlows()) == nil, "cannot listen")
	go n.push("x", item{m: record("1")})
	if ends < 2 {
		cancel()
	}
	time.Sleep(2 * time.Second)
	cancel()
	n.push("x", item{m: record("2")})
	n.push("x.flows", item{m: record("3")})
	vs.Quiesce()
	got := l.of("R1")
	vs.Assert(pos(got, "rec 2") < 0, "a listener delivered after its context was cancelled: %v", got)
	vs.Assert(pos(got, "rec 3") >= 0, "a listener stopped with another's context: %v", got)
	for _, r := range n.rcvs {
		vs.Assert(r.closed == (r.addr == "x"), "receiver %s: closed %v", r.addr, r.closed)
	}
	c.Close()
	vs.Assert(n.leaks() == "", "left open: %s", n.leaks())
}

// failures: however many receives, accepts or decodings fail, in a row or not,
// the messages that come are delivered.
func failures() {
	n := newNet()
	c := eventsource.NewClient(n, eventsource.ClientOptions{Source: src})
	l := &callLog{}
	l.handle(c, "R1")
	vs.Assert(c.Listen(bg, eventsource.FromSourceAddress()) == nil, "cannot listen")
	n.open("x", 1)
	kind, each := vs.Choose(2), []int{1, 40, 300}[vs.Choose(3)]
	sent := 0
	for i := 0; i < 600; i++ {
		if kind == 0 {
			n.push("x", item{err: errors.New("receive failed")})
		} else {
			n.push("x", item{m: &amqp.Message{}})
		}
		if i%each == each-1 {
			sent++
			n.push("x", item{m: record(fmt.Sprint(sent))})
			vs.Quiesce()
		}
	}
	vs.Quiesce()
	got := l.of("R1")
	vs.Assert(len(got) == sent, "%d of %d messages were delivered between 600 failures", len(got), sent)
	c.Close()
}

// heldClose: a handler that takes minutes is waited for.
func heldClose() {
	n := newNet()
	c := eventsource.NewClient(n, eventsource.ClientOptions{Source: src})
	var o vs.Obj
	in := false
	hold := []time.Duration{0, 3 * time.Second, 9 * time.Minute}[vs.Choose(3)]
	busy := func() {
		o.Write("handler")
		in = true
		time.Sleep(hold)
		o.Write("handled")
		in = false
	}
	if vs.Choose(2) == 0 {
		c.OnRecord(func(vanflow.RecordMessage) { busy() })
	} else {
		c.OnHeartbeat(func(vanflow.HeartbeatMessage) { busy() })
	}
	vs.Assert(c.Listen(bg, eventsource.FromSourceAddress()) == nil, "cannot listen")
	n.open("x", 1)
	n.push("x", item{m: record("1")})
	n.push("x", item{m: heartbeat("s", 5)})
	if vs.Choose(2) == 1 {
		time.Sleep(time.Second)
	}
	c.Close()
	o.TouchR()
	vs.Assert(!in, "Close returned while a handler runs")
	vs.Assert(n.leaks() == "", "Close returned with open %s", n.leaks())
	vs.Quiesce()
	vs.Assert(!in, "a handler runs after Close returned")
}

// busyClose: handlers that use the client while it is being closed.
func busyClose() {
	n := newNet()
	c := eventsource.NewClient(n, eventsource.ClientOptions{Source: src})
	var o vs.Obj
	calls, closed := 0, false
	act := vs.Choose(4)
	c.OnRecord(func(vanflow.RecordMessage) {
		o.Write("handler")
		if closed {
			vs.Fail("assert", "a handler is called after Close returned")
		}
		if calls++; calls > 1 {
			return
		}
		switch act {
		case 0:
			c.OnRecord(func(vanflow.RecordMessage) {})
		case 1:
			c.OnHeartbeat(func(vanflow.HeartbeatMessage) {})
		case 2:
			c.Listen(bg, eventsource.FromSourceAddressLogs())
		case 3:
			c.SendFlush(bg)
		}
	})
	vs.Assert(c.Listen(bg, eventsource.FromSourceAddress()) == nil, "cannot listen")
	n.open("x", 1)
	go n.push("x", item{m: record("1")})
	done := make(chan struct{})
	for i := 0; i < 2; i++ {
		go func() {
			c.Close()
			o.Write("closed")
			closed = true
			done <- struct{}{}
		}()
	}
	<-done
	<-done
	vs.Quiesce()
	n.push("x", item{m: record("2")})
	n.push("x.logs", item{m: record("2")})
	vs.Quiesce()
	vs.Assert(n.leaks() == "", "left open: %s", n.leaks())
	if l := vs.Alive(); len(l) > 0 {
		vs.Fail("assert", "goroutines left after Close: %v", l)
	}
}

// E07

func flushes(n *fnet) []*fsent {
	var out []*fsent
	for _, e := range n.sent {
		out = append(out, e)
		vs.Assert(e.addr == src.Direct && subject(e.msg) == "FLUSH" && to(e.msg) == src.Direct, "sent %s to %s (%s)", subject(e.msg), e.addr, to(e.msg))
	}
	return out
}

// firstMessage: arrivals over one or two listeners and concurrent.
func firstMessage(two bool) func() {
	return func() {
		n := newNet()
		c := eventsource.NewClient(n, eventsource.ClientOptions{Source: src})
		var ret vs.Event
		var err error
		listenFirst := vs.Choose(2) == 0
		listen := func() {
			vs.Assert(c.Listen(bg, eventsource.FromSourceAddress()) == nil, "cannot listen")
			if two {
				vs.Assert(c.Listen(bg, eventsource.FromSourceAddressFlows()) == nil, "cannot listen")
			}
		}
		if listenFirst {
			listen()
		}
		go func() { err = eventsource.FlushOnFirstMessage(bg, c); ret.Set() }()
		if !listenFirst {
			listen()
		}
		n.open("x", 1)
		if two {
			n.open("x.flows", 1)
		}
		vs.Quiesce()
		vs.Assert(len(n.sent) == 0 && !ret.IsSet(), "a flush was sent before any message arrived")
		for _, j := range []func() *amqp.Message{func() *amqp.Message { return beacon("s", "x", 1) }, func() *amqp.Message { return flush("x") }, junk[0], junk[3]} {
			n.push("x", item{m: j()})
		}
		time.Sleep(time.Minute)
		vs.Assert(len(n.sent) == 0 && !ret.IsSet(), "a flush was sent before a heartbeat or record arrived")
		msgs := []func() *amqp.Message{func() *amqp.Message { return heartbeat("s", 1) }, func() *amqp.Message { return record("r") }}
		k1, k2 := vs.Choose(2), vs.Choose(2)
		done := make(chan struct{})
		go func() { n.push("x", item{m: msgs[k1]()}); n.push("x", item{m: msgs[k2]()}); done <- struct{}{} }()
		go func() {
			if two {
				n.push("x.flows", item{m: msgs[k2]()})
				n.push("x.flows", item{m: msgs[k1]()})
			}
			done <- struct{}{}
		}()
		<-done
		<-done
		vs.Quiesce()
		vs.Assert(ret.IsSet() && err == nil, "FlushOnFirstMessage returned: %v, error %v", ret.IsSet(), err)
		vs.Assert(len(flushes(n)) == 1, "%d flushes sent", len(n.sent))
		for _, m := range msgs {
			n.push("x", item{m: m()})
		}
		time.Sleep(time.Minute)
		vs.Assert(len(n.sent) == 1, "%d flushes sent", len(n.sent))
		for _, r := range n.rcvs {
			vs.Assert(len(r.q) == 0, "messages no longer taken")
		}
		c.Close()
		vs.Assert(n.leaks() == "", "left open: %s", n.leaks())
	}
}

// firstMessageLate: a flush request that is held up for long is sent in the
// end.
func firstMessageLate() {
	n := newNet()
	c := eventsource.NewClient(n, eventsource.ClientOptions{Source: src})
	hold := []time.Duration{time.Minute, 10 * time.Minute, time.Hour}[vs.Choose(3)]
	n.onSend = func(addr string, k int, m *amqp.Message) fate { return fate{slow: hold} }
	vs.Assert(c.Listen(bg, eventsource.FromSourceAddress()) == nil, "cannot listen")
	n.open("x", 1)
	var ret vs.Event
	var err error
	go func() { err = eventsource.FlushOnFirstMessage(bg, c); ret.Set() }()
	time.Sleep([]time.Duration{time.Second, time.Hour}[vs.Choose(2)])
	vs.Assert(!ret.IsSet() && len(n.sent) == 0, "no message, but returned: %v, %v", ret.IsSet(), err)
	n.push("x", item{m: heartbeat("s", 1)})
	time.Sleep(hold + time.Second)
	vs.Quiesce()
	vs.Assert(ret.IsSet() && err == nil && len(flushes(n)) == 1, "sending takes %v: returned %v, error %v, %d flushes sent", hold, ret.IsSet(), err, len(flushes(n)))
	c.Close()
	vs.Assert(n.leaks() == "", "left open: %s", n.leaks())
}

// firstMessageCtx: the context against the first message and the send.
func firstMessageCtx() {
	n := newNet()
	c := eventsource.NewClient(n, eventsource.ClientOptions{Source: src})
	boom := errors.New("boom")
	f := []fate{{}, {err: boom}, {block: true}, {slow: 2 * time.Second}}[vs.Choose(4)]
	n.onSend = func(addr string, k int, m *amqp.Message) fate { return f }
	vs.Assert(c.Listen(bg, eventsource.FromSourceAddress()) == nil, "cannot listen")
	n.open("x", 1)
	ctx, cancel := context.WithCancel(bg)
	want := context.Canceled
	endFirst := vs.Choose(3)
	mk := func() *amqp.Message { return heartbeat("s", 1) }
	if vs.Choose(2) == 1 {
		mk = func() *amqp.Message { return record("r") }
	}
	if endFirst == 0 {
		if vs.Choose(2) == 0 {
			cancel()
		} else {
			ctx, cancel = context.WithTimeout(bg, time.Second)
			want = context.DeadlineExceeded
			time.Sleep(time.Second)
			vs.Quiesce()
		}
	}
	var ret vs.Event
	var err error
	if endFirst == 0 && vs.Choose(2) == 1 {
		// messages arrive while the ended wait starts
		go n.push("x", item{m: mk()})
	}
	go func() { err = eventsource.FlushOnFirstMessage(ctx, c); ret.Set() }()
	vs.Quiesce()
	switch endFirst {
	case 0:
		vs.Assert(ret.IsSet() && errors.Is(err, want) && len(n.sent) == 0, "context ended before: returned %v %v, %d flushes", ret.IsSet(), err, len(n.sent))
	case 1: // ends while waiting, messages afterwards
		vs.Assert(!ret.IsSet(), "returned before anything happened: %v", err)
		cancel()
		vs.Quiesce()
		vs.Assert(ret.IsSet() && errors.Is(err, want) && len(n.sent) == 0, "context ended while waiting: returned %v %v, %d flushes", ret.IsSet(), err, len(n.sent))
		n.push("x", item{m: mk()})
		n.push("x", item{m: mk()})
	case 2: // a message, then the end of the context
		n.push("x", item{m: mk()})
		vs.Quiesce()
		vs.Assert(len(flushes(n)) == 1, "%d flushes sent", len(n.sent))
		switch {
		case f.err != nil:
			vs.Assert(ret.IsSet() && errors.Is(err, boom), "send failed: returned %v %v", ret.IsSet(), err)
		case f.block:
			vs.Assert(!ret.IsSet(), "returned before the send completed")
			cancel()
			vs.Quiesce()
			vs.Assert(ret.IsSet() && errors.Is(err, want), "context ended while sending: returned %v %v", ret.IsSet(), err)
		case f.slow > 0:
			vs.Assert(!ret.IsSet(), "returned before the send completed")
			time.Sleep(3 * time.Second)
			vs.Assert(ret.IsSet() && err == nil, "returned %v %v", ret.IsSet(), err)
		default:
			vs.Assert(ret.IsSet() && err == nil, "returned %v %v", ret.IsSet(), err)
		}
		cancel()
	}
	k := len(n.sent)
	n.push("x", item{m: mk()})
	time.Sleep(time.Minute)
	vs.Assert(len(n.sent) == k, "another flush was sent")
	for _, r := range n.rcvs {
		vs.Assert(len(r.q) == 0 && len(r.accepted) == len(r.handed), "messages no longer taken")
	}
	c.Close()
	vs.Assert(n.leaks() == "", "left open: %s", n.leaks())
	if l := vs.Alive(); len(l) > 0 {
		vs.Fail("assert", "goroutines left: %v", l)
	}
}

// firstMessageRace: the context ends while messages arrive.
func firstMessageRace() {
	n := newNet()
	c := eventsource.NewClient(n, eventsource.ClientOptions{Source: src})
	vs.Assert(c.Listen(bg, eventsource.FromSourceAddress()) == nil, "cannot listen")
	n.open("x", 1)
	ctx, cancel := context.WithCancel(bg)
	var ret vs.Event
	var err error
	go func() { err = eventsource.FlushOnFirstMessage(ctx, c); ret.Set() }()
	go func() { n.push("x", item{m: heartbeat("s", 1)}); n.push("x", item{m: record("r")}) }()
	go cancel()
	vs.Quiesce()
	vs.Assert(ret.IsSet(), "FlushOnFirstMessage did not return")
	vs.Assert(len(flushes(n)) <= 1, "%d flushes sent", len(n.sent))
	if err == nil {
		vs.Assert(len(n.sent) == 1, "no error and %d flushes sent", len(n.sent))
	} else {
		vs.Assert(errors.Is(err, context.Canceled), "error %v", err)
		vs.Assert(len(n.okSent(src.Direct)) == 0, "error %v although the flush was sent", err)
	}
	n.push("x", item{m: record("r")})
	vs.Quiesce()
	c.Close()
	vs.Assert(n.leaks() == "", "left open: %s", n.leaks())
}
