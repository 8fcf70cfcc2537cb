package main

import (
	"context"
	"errors"
	"fmt"
	"strings"
	"time"

	"github.com/Azure/go-amqp"
)

// A script is a sequence of client operations and broker events. It is run
// with the client library and a broker (conform/real) and with the model
// (fakeamqp); the two logs must be equal.
//
// Client operations:
//
//	dial, session, recv, recv9 (credit 9), recvq (queue), man (manual credit),
//	send (sender), sendq, tx (send), txq, rx (receive), pf (prefetched),
//	credit, ack, rel, cr cs cS cC (close receiver, sender, session,
//	connection)
//
// "&op" starts an operation without a deadline, "join" waits for it, "cancel"
// cancels it and waits. Broker events: "!kill", "!end" (session), "!detr",
// "!dets" (links), "push", "pushq", "F:kind:fate" (fate of the next operation).
type env interface {
	url() string
	fate(kind, fate string)
	event(e string)
	push(addr string, m *amqp.Message)
	settle()
	state() string
}

const opTime = 150 * time.Millisecond

func class(err error) string {
	if err == nil {
		return "ok"
	}
	var out []string
	if errors.Is(err, context.Canceled) {
		out = append(out, "cancelled")
	}
	if errors.Is(err, context.DeadlineExceeded) {
		out = append(out, "deadline")
	}
	var c *amqp.ConnError
	if errors.As(err, &c) {
		out = append(out, "conn")
	}
	var s *amqp.SessionError
	if errors.As(err, &s) {
		out = append(out, "session")
	}
	var l *amqp.LinkError
	if errors.As(err, &l) {
		x := "link"
		if l.RemoteErr != nil {
			x += "+remote"
		}
		out = append(out, x)
	}
	var a *amqp.Error
	if errors.As(err, &a) {
		x := "error"
		if a.Condition == amqp.ErrCondTransferLimitExceeded {
			x += " credit"
		}
		out = append(out, x)
	}
	if len(out) == 0 {
		return "other"
	}
	return strings.Join(out, ",")
}

type client struct {
	e    env
	conn *amqp.Conn
	sess *amqp.Session
	rcv  *amqp.Receiver
	snd  *amqp.Sender
	msg  *amqp.Message
	n    int
}

func run(e env, script []string) []string {
	var out []string
	c := &client{e: e}
	var pend chan string
	var stop context.CancelFunc
	var stops []context.CancelFunc
	for _, op := range script {
		res := ""
		switch {
		case strings.HasPrefix(op, "F:"):
			p := strings.Split(op, ":")
			e.fate(p[1], p[2])
			continue
		case op[0] == '!':
			e.event(op[1:])
			e.settle()
		case op == "push" || op == "pushq":
			c.n++
			e.push(map[string]string{"push": "mc/a", "pushq": "q"}[op], &amqp.Message{Value: fmt.Sprint("m", c.n)})
			e.settle()
		case op[0] == '&':
			ctx, cancel := context.WithCancel(context.Background())
			ch := make(chan string, 1)
			pend, stop = ch, cancel
			stops = append(stops, cancel)
			o, cl := op[1:], c
			go func() { ch <- cl.op(ctx, o) }()
			e.settle()
		case op == "join":
			res = await(pend, "pending")
		case op == "cancel":
			stop()
			res = await(pend, "stuck")
		default:
			ctx, cancel := context.WithTimeout(context.Background(), opTime)
			res = c.op(ctx, op)
			cancel()
			e.settle()
		}
		out = append(out, fmt.Sprintf("%s=%s [%s]", op, res, e.state()))
	}
	for _, f := range stops {
		f()
	}
	return out
}

func await(ch chan string, none string) string {
	t := time.NewTimer(opTime)
	defer t.Stop()
	select {
	case r := <-ch:
		return r
	case <-t.C:
		return none
	}
}

func (c *client) op(ctx context.Context, op string) string {
	if c.conn == nil && op != "dial" || c.sess == nil && op != "dial" && op != "session" {
		return "-"
	}
	switch op {
	case "dial":
		n, err := amqp.Dial(ctx, c.e.url(), nil)
		if err == nil {
			c.conn = n
		}
		if err != nil && !errors.Is(err, context.DeadlineExceeded) && !errors.Is(err, context.Canceled) {
			return "failed" // the class of dial errors is of no consequence
		}
		return class(err)
	case "session":
		s, err := c.conn.NewSession(ctx, nil)
		if err == nil {
			c.sess = s
		}
		return class(err)
	case "recv", "recv9", "recvq", "man":
		o := &amqp.ReceiverOptions{Credit: map[string]int32{"recv": 1, "recv9": 9, "recvq": 1, "man": -1}[op]}
		a := "mc/a"
		if op == "recvq" {
			a = "q"
		}
		r, err := c.sess.NewReceiver(ctx, a, o)
		if err == nil {
			c.rcv = r
		}
		return class(err)
	case "send", "sendq":
		a := "mc/a"
		if op == "sendq" {
			a = "q"
		}
		s, err := c.sess.NewSender(ctx, a, nil)
		if err == nil {
			c.snd = s
		}
		return class(err)
	case "cS":
		return class(c.sess.Close(ctx))
	case "cC":
		return class(c.conn.Close())
	case "tx", "cs":
		if c.snd == nil {
			return "-"
		}
		if op == "cs" {
			return class(c.snd.Close(ctx))
		}
		c.n++
		return class(c.snd.Send(ctx, &amqp.Message{Value: fmt.Sprint("m", c.n)}, nil))
	}
	if c.rcv == nil {
		return "-"
	}
	switch op {
	case "rx":
		m, err := c.rcv.Receive(ctx, nil)
		if err != nil {
			return class(err)
		}
		c.msg = m
		return fmt.Sprint("ok ", m.Value)
	case "pf":
		m := c.rcv.Prefetched()
		if m == nil {
			return "none"
		}
		c.msg = m
		return fmt.Sprint("ok ", m.Value)
	case "credit":
		return class(c.rcv.IssueCredit(1))
	case "cr":
		return class(c.rcv.Close(ctx))
	case "ack", "rel":
		if c.msg == nil {
			return "-"
		}
		if op == "ack" {
			return class(c.rcv.AcceptMessage(ctx, c.msg))
		}
		return class(c.rcv.ReleaseMessage(ctx, c.msg))
	}
	panic(op)
}

// scripts enumerates all scripts: a prefix, then every sequence of n
// operations of an alphabet.
func scripts(deep bool) [][]string {
	var out [][]string
	n := 2
	if deep {
		n = 3
	}
	fill := func(pre []string, n int, alpha []string) {
		var rec func(s []string, k int)
		rec = func(s []string, k int) {
			if k == 0 {
				out = append(out, append([]string(nil), s...))
				return
			}
			for _, a := range alpha {
				rec(append(s[:len(s):len(s)], strings.Fields(a)...), k-1)
			}
		}
		rec(pre, n)
	}
	up := []string{"dial", "session"}
	// establishing
	fill(nil, n, []string{"dial", "F:dial:err dial", "F:dial:hang dial", "session", "F:session:err session", "F:session:kill session", "F:session:hang session",
		"recv", "F:attach:err recv", "F:attach:kill recv", "F:attach:hang recv", "F:attach:err send", "F:attach:hang send", "F:attach:kill send", "cS", "cC", "!kill", "!end"})
	fill(up, n, []string{"session", "recv", "F:attach:err recv", "F:attach:kill recv", "F:attach:hang recv", "send", "F:attach:err send", "F:attach:hang send", "F:attach:kill send", "cS", "cC", "!kill", "!end", "cr", "cs", "tx", "rx"})
	// traffic
	for _, r := range []string{"recv", "recv9"} {
		fill(append(up, r, "send"), n, []string{"tx", "rx", "pf", "ack", "rel", "push", "F:send:err tx", "F:send:kill tx", "F:send:killafter tx", "F:send:hangafter tx", "F:send:detach tx",
			"cr", "cs", "cS", "cC", "!kill", "!end", "!detr", "!dets"})
	}
	fill(append(up, "recvq", "sendq"), n, []string{"tx", "rx", "ack", "pushq", "cr", "recvq", "!kill", "F:send:killafter tx", "dial", "session", "sendq"})
	fill(append(up, "man", "send"), n, []string{"tx", "rx", "pf", "ack", "push", "credit", "credit credit", "cr", "!detr"})
	// more in flight than credit
	fill(append(up, "recv", "push", "push", "push"), n, []string{"rx", "pf", "ack", "rel", "push", "cr", "!detr", "!kill", "recv"})
	// operations in progress
	for _, b := range []string{"&rx", "F:send:hangafter &tx", "F:attach:hang &recv", "F:attach:hang &send", "F:session:hang &session"} {
		fill(append(append(up, "recv", "send"), strings.Fields(b)...), 2, []string{"join", "cancel", "!kill", "!end", "!detr", "!dets", "cr", "cs", "cS", "cC", "push", "tx"})
	}
	// no credit
	fill(append(up, "recv", "F:credit:none", "send"), 2, []string{"tx", "cs", "cS", "cC", "!kill", "!dets"})
	fill(append(up, "recv", "F:credit:none", "send", "&tx"), 2, []string{"join", "cancel", "!kill", "!end", "!dets", "cs", "cS", "cC"})
	// a send waits for the one before it that has no credit, whatever its deadline
	fill(append(up, "recv", "F:credit:none", "send", "&tx", "&tx"), 2, []string{"join", "cancel", "!kill", "!end", "!dets", "cs"})
	return out
}

// skip scripts that wait for or cancel what is not in progress.
func sensible(s []string) bool {
	p := false
	for _, o := range s {
		if o[0] == '&' {
			p = true
		}
		if o == "join" || o == "cancel" {
			if !p {
				return false
			}
			if o == "cancel" {
				p = false
			}
		}
	}
	return true
}
