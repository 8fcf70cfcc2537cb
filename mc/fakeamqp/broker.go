package amqp

import (
	"context"
	"fmt"
	"strings"

	"vmc/vs"
)

// Fate of an operation, decided by the driver.
type Fate int

const (
	FateOK        Fate = iota
	FateErr            // the operation fails, nothing else is affected
	FateHang           // no answer until the context ends or the connection dies
	FateKill           // the connection dies before the operation takes effect
	FateKillAfter      // the operation takes effect, then the connection dies
	FateHangAfter      // the operation takes effect but no confirmation arrives
	FateDetach         // the peer detaches the link before the operation takes effect
)

func (f Fate) String() string {
	return [...]string{"ok", "err", "hang", "kill", "killafter", "hangafter", "detach"}[f]
}

// VmcSent is a message that reached the broker.
type VmcSent struct {
	Addr   string
	Msg    *Message
	Sender *Sender
	Conn   *Conn
	At     int64 // virtual time
	N      int   // number of receivers it was routed to
}

// VmcBroker is the virtual broker of one execution.
type VmcBroker struct {
	o     vs.Obj
	addrs map[string]*vaddr

	OnDial    func(n int, addr string, o *ConnOptions) Fate
	OnSession func(c *Conn) Fate
	OnAttach  func(c *Conn, kind, addr string) Fate // kind: "receiver" or "sender"
	OnSend    func(s *Sender, m *Message) Fate
	OnAccept  func(r *Receiver, m *Message) Fate
	OnClose   func(c *Conn, kind, addr string) Fate // kind also "session"
	NoCredit  func(addr string) bool                // senders to addr get no credit
	Deaf      bool                                  // nobody needs to listen for credit

	Conns    []*Conn
	Dials    int
	DialLog  []VmcDial
	Sent     []*VmcSent
	Rejected []*VmcSent // transferred, but rejected
	Accepted []*Message
	Taken    []any // bodies of the messages the program received, in order
	Settled  int
	Released int
	Events   []string
	links    int
	healed   int
	delivery uint32
}

// VmcDial is one connection attempt.
type VmcDial struct {
	Addr string
	Opts ConnOptions
	SASL []string
	At   int64
	Fate Fate
}

type vaddr struct {
	name string
	o    vs.Obj
	rcv  []*Receiver
	q    [][]byte // anycast messages waiting for a receiver
	rr   int
}

// Vmc returns the broker of the current execution.
func Vmc() *VmcBroker {
	return vs.Local("broker", func() any { return &VmcBroker{addrs: map[string]*vaddr{}} }).(*VmcBroker)
}

func (b *VmcBroker) addr(n string) *vaddr {
	a := b.addrs[n]
	if a == nil {
		a = &vaddr{name: n}
		b.addrs[n] = a
	}
	return a
}

func (b *VmcBroker) event(f string, args ...any) {
	b.Events = append(b.Events, fmt.Sprintf(f, args...))
	vs.Log("broker: "+f, args...)
}

func multicast(addr string) bool { return strings.HasPrefix(addr, "mc/") }

// push routes an encoded message to the receivers at a; it returns their
// number.
func (b *VmcBroker) push(a *vaddr, enc []byte) int {
	if len(a.rcv) == 0 {
		return 0
	}
	rs := a.rcv
	if !multicast(a.name) {
		rs = rs[a.rr%len(rs):][:1]
		a.rr++
	}
	for _, r := range rs {
		m := &Message{}
		if err := m.UnmarshalBinary(enc); err != nil {
			vs.Fail("harness", "broker cannot decode what it carries: %v", err)
		}
		b.delivery++
		m.deliveryID = b.delivery
		m.rcv = r
		r.l.o.Touch()
		r.pending = append(r.pending, m)
		r.Routed = append(r.Routed, m.Value)
		r.pump()
	}
	return len(rs)
}

// Push makes a message from elsewhere in the network arrive at addr. Without a
// receiver it is dropped (multicast) or kept.
func (b *VmcBroker) Push(addr string, m *Message) int {
	enc, err := m.MarshalBinary()
	if err != nil {
		vs.Fail("harness", "push: %v", err)
	}
	a := b.addr(addr)
	a.o.Write("push " + addr)
	n := b.push(a, enc)
	if n == 0 && !multicast(addr) {
		a.q = append(a.q, enc)
	}
	return n
}

// Receivers is the number of receivers attached at addr.
func (b *VmcBroker) Receivers(addr string) int { return len(b.addr(addr).rcv) }

// WaitReceivers waits for n receivers at addr.
func (b *VmcBroker) WaitReceivers(addr string, n int) {
	a := b.addr(addr)
	vs.WaitUntil("receivers at "+addr, &a.o, func() bool { return len(a.rcv) >= n })
}

// OpenConns are the connections that are still open.
func (b *VmcBroker) OpenConns() []*Conn {
	var out []*Conn
	for _, c := range b.Conns {
		if c.open {
			out = append(out, c)
		}
	}
	return out
}

// OpenLinks describes the links that are attached at the broker.
func (b *VmcBroker) OpenLinks() []string {
	var out []string
	for _, c := range b.Conns {
		for _, s := range c.sessions {
			for _, l := range s.links {
				if l.open && !l.detaching {
					out = append(out, fmt.Sprintf("%s %s (connection %d)", l.kind, l.address, c.N))
				}
			}
		}
	}
	return out
}

// Kill breaks a connection.
func (b *VmcBroker) Kill(c *Conn, why string) {
	c.o.Write("connection lost")
	b.kill(c, why)
}

// Heal ends everything that hangs: pending dials and open connections fail.
func (b *VmcBroker) Heal() {
	b.o.Write("heal")
	b.healed++
	for _, c := range b.Conns {
		if c.open {
			b.Kill(c, "no keepalive from the peer")
		}
	}
}

func (b *VmcBroker) kill(c *Conn, why string) {
	c.o.Touch()
	if !c.open {
		return
	}
	b.event("connection %d lost: %s", c.N, why)
	c.Lost = true
	c.end(&ConnError{inner: fmt.Errorf("%s", why)})
}

func (c *Conn) end(err error) {
	if !c.open {
		return
	}
	c.open = false
	c.err = err
	for _, s := range c.sessions {
		s.end(err)
	}
}

func (s *Session) end(err error) {
	if !s.open {
		return
	}
	s.open = false
	s.err = err
	for _, l := range s.links {
		l.end(err)
	}
}

func (l *link) end(err error) {
	if !l.open {
		return
	}
	l.unroute()
	l.o.Touch()
	l.open = false
	l.err = err
}

// unroute stops routing messages to a receiver.
func (l *link) unroute() {
	a := Vmc().addr(l.address)
	a.o.Touch()
	if l.r != nil {
		for i, r := range a.rcv {
			if r == l.r {
				a.rcv = append(a.rcv[:i:i], a.rcv[i+1:]...)
				break
			}
		}
	}
}

// KillSession ends a session from the peer's side.
func (b *VmcBroker) KillSession(s *Session, why string) {
	s.conn.o.Write("session ended by peer")
	b.event("session of connection %d ended: %s", s.conn.N, why)
	s.end(&SessionError{RemoteErr: &Error{Condition: ErrCondInternalError, Description: why}})
}

// Detach detaches a link from the peer's side.
func (b *VmcBroker) Detach(l interface{ vmcLink() *link }, why string) {
	k := l.vmcLink()
	k.session.conn.o.Write("detach by peer")
	b.detach(k, why)
}

func (b *VmcBroker) detach(k *link, why string) {
	if k.open {
		b.event("%s %s detached: %s", k.kind, k.address, why)
	}
	k.end(&LinkError{RemoteErr: &Error{Condition: ErrCondDetachForced, Description: why}})
}

// VmcLink describes an attached link.
type VmcLink struct {
	Kind, Addr string
	Conn       *Conn
	Credit     int // receivers: granted link credit, -1 manual
	Open       bool
	Recv       *Receiver
	Send       *Sender
}

// Links of all connections in attach order.
func (b *VmcBroker) Links() []VmcLink {
	var out []VmcLink
	for _, c := range b.Conns {
		for _, s := range c.sessions {
			for _, l := range s.links {
				v := VmcLink{Kind: l.kind, Addr: l.address, Conn: c, Open: l.open, Recv: l.r, Send: l.s}
				if l.r != nil {
					v.Credit = l.r.credit
				}
				out = append(out, v)
			}
		}
	}
	return out
}

// ctxErr is the context's error as a read of its state.
func ctxDone(ctx context.Context) bool { return vs.IsClosed(ctx.Done()) }

// hang waits for the context or the end of the connection.
func hang(ctx context.Context, what string, o *vs.Obj, dead func() bool) bool {
	return vs.WaitChan(what, o, ctx.Done(), dead)
}
