package amqp

import (
	"context"
	"crypto/tls"
	"errors"
	"fmt"
	"net"
	"net/url"
	"time"

	"vmc/vs"
	"vmc/vsync"
)

// ConnOptions contains the optional settings for configuring an AMQP connection.
type ConnOptions struct {
	ContainerID  string
	HostName     string
	IdleTimeout  time.Duration
	MaxFrameSize uint32
	MaxSessions  uint16
	Properties   map[string]any
	SASLType     SASLType
	TLSConfig    *tls.Config
	WriteTimeout time.Duration
}

// SASLType represents a SASL configuration to use during authentication.
type SASLType func(c *Conn) error

func sasl(n string) SASLType {
	return func(c *Conn) error { c.SASL = append(c.SASL, n); return nil }
}

// SASLTypePlain enables SASL PLAIN.
func SASLTypePlain(username, password string) SASLType { return sasl("PLAIN " + username) }

// SASLTypeAnonymous enables SASL ANONYMOUS.
func SASLTypeAnonymous() SASLType { return sasl("ANONYMOUS") }

// SASLTypeExternal enables SASL EXTERNAL.
func SASLTypeExternal(resp string) SASLType { return sasl("EXTERNAL " + resp) }

// SASLTypeXOAUTH2 enables SASL XOAUTH2.
func SASLTypeXOAUTH2(username, bearer string, saslMaxFrameSizeOverride uint32) SASLType {
	return sasl("XOAUTH2 " + username)
}

// Conn is an AMQP connection.
type Conn struct {
	N      int
	Addr   string
	Opts   ConnOptions
	SASL   []string
	Lost   bool // ended by the environment
	Closed bool // closed by the program
	OpenAt int64

	o        vs.Obj
	open     bool
	err      error
	sessions []*Session
}

// VmcOpen reports whether the connection is open.
func (c *Conn) VmcOpen() bool { return c.open }

// VmcSessions are the sessions created on the connection.
func (c *Conn) VmcSessions() []*Session { return c.sessions }

// VmcOpen reports whether the session is open.
func (s *Session) VmcOpen() bool { return s.open }

// NewConn is not available in the model.
func NewConn(ctx context.Context, conn net.Conn, opts *ConnOptions) (*Conn, error) {
	return nil, errors.New("amqp model: NewConn is not modelled")
}

// Dial connects to an AMQP broker.
func Dial(ctx context.Context, addr string, opts *ConnOptions) (*Conn, error) {
	b := Vmc()
	b.o.Write("dial")
	b.Dials++
	n := b.Dials
	u, err := url.Parse(addr)
	if err != nil {
		return nil, err
	}
	switch u.Scheme {
	case "", "amqp", "amqps", "amqp+ssl":
	default:
		return nil, fmt.Errorf("unsupported scheme %q", u.Scheme)
	}
	c := &Conn{N: n, Addr: addr}
	if opts != nil {
		c.Opts = *opts
	}
	if u.User != nil {
		pass, _ := u.User.Password()
		c.Opts.SASLType = SASLTypePlain(u.User.Username(), pass)
	}
	if c.Opts.MaxFrameSize > 0 && c.Opts.MaxFrameSize < 512 {
		return nil, fmt.Errorf("invalid MaxFrameSize value %d", c.Opts.MaxFrameSize)
	}
	if c.Opts.SASLType != nil {
		if err := c.Opts.SASLType(c); err != nil {
			return nil, err
		}
	}
	if c.Opts.TLSConfig != nil {
		c.Opts.TLSConfig = c.Opts.TLSConfig.Clone()
	}
	switch u.Scheme {
	case "amqp", "", "amqps", "amqp+ssl":
	default:
		return nil, fmt.Errorf("unsupported scheme %q", u.Scheme)
	}
	f := FateOK
	if b.OnDial != nil {
		f = b.OnDial(n, addr, &c.Opts)
	}
	b.DialLog = append(b.DialLog, VmcDial{Addr: addr, Opts: c.Opts, SASL: c.SASL, At: int64(vs.Elapsed()), Fate: f})
	b.event("dial %d: %s", n, f)
	if ctxDone(ctx) {
		return nil, fmt.Errorf("dial tcp: %w", ctx.Err())
	}
	switch f {
	case FateErr, FateKill, FateDetach:
		return nil, fmt.Errorf("dial tcp: connection refused (%d)", n)
	case FateHang:
		h := b.healed
		if hang(ctx, "dial", &b.o, func() bool { return b.healed > h }) {
			return nil, fmt.Errorf("dial tcp: i/o timeout (%d)", n)
		}
		return nil, fmt.Errorf("dial tcp: %w", ctx.Err())
	}
	c.open = true
	c.OpenAt = int64(vs.Elapsed())
	b.Conns = append(b.Conns, c)
	return c, nil
}

// Close closes the connection.
func (c *Conn) Close() error {
	c.o.Write("conn close")
	b := Vmc()
	if !c.Closed && c.open {
		b.event("connection %d closed", c.N)
	}
	c.Closed = true
	if c.open {
		c.end(&ConnError{})
		return nil
	}
	var ce *ConnError
	if errors.As(c.err, &ce) && ce.RemoteErr == nil && ce.inner == nil {
		return nil
	}
	return c.err
}

// SessionOptions contains the optional settings for configuring an AMQP session.
type SessionOptions struct {
	MaxLinks uint32
}

// Session is an AMQP session.
type Session struct {
	conn    *Conn
	open    bool
	err     error
	links   []*link
	Closed  bool
	closing error
}

// VmcConn is the session's connection.
func (s *Session) VmcConn() *Conn { return s.conn }

// NewSession starts a new session on the connection.
func (c *Conn) NewSession(ctx context.Context, opts *SessionOptions) (*Session, error) {
	b := Vmc()
	c.o.Write("new session")
	if !c.open {
		return nil, c.err
	}
	f := FateOK
	if b.OnSession != nil {
		f = b.OnSession(c)
	}
	if f != FateOK {
		b.event("session on connection %d: %s", c.N, f)
	}
	if ctxDone(ctx) {
		return nil, ctx.Err()
	}
	switch f {
	case FateKill, FateKillAfter:
		b.kill(c, "connection reset during begin")
		return nil, c.err
	case FateHang, FateHangAfter:
		if hang(ctx, "new session", &c.o, func() bool { return !c.open }) {
			return nil, c.err
		}
		return nil, ctx.Err()
	}
	s := &Session{conn: c, open: true}
	c.sessions = append(c.sessions, s)
	if f == FateErr || f == FateDetach {
		// the peer ends the session as soon as it has begun
		s.end(&SessionError{RemoteErr: &Error{Condition: ErrCondResourceLimitExceeded, Description: "no session"}})
	}
	return s, nil
}

// Close closes the session.
func (s *Session) Close(ctx context.Context) error {
	b := Vmc()
	s.conn.o.Write("session close")
	if s.Closed {
		return s.closing
	}
	s.Closed = true
	if !s.open {
		s.closing = s.err
		return s.err
	}
	f := FateOK
	if b.OnClose != nil {
		f = b.OnClose(s.conn, "session", "")
	}
	s.end(&SessionError{})
	return s.conn.closing(ctx, f, func(err error) { s.closing = err })
}

// closing waits for the peer to confirm a close.
func (c *Conn) closing(ctx context.Context, f Fate, set func(error)) error {
	b := Vmc()
	if ctxDone(ctx) {
		set(ctx.Err())
		return ctx.Err()
	}
	switch f {
	case FateKill, FateKillAfter:
		b.kill(c, "connection reset during close")
		set(c.err)
		return c.err
	case FateErr, FateDetach:
		err := &LinkError{RemoteErr: &Error{Condition: ErrCondInternalError, Description: "close failed"}}
		set(err)
		return err
	case FateHang, FateHangAfter:
		if hang(ctx, "close", &c.o, func() bool { return !c.open }) {
			set(c.err)
			return c.err
		}
		set(ctx.Err())
		return ctx.Err()
	}
	return nil
}

type link struct {
	o       vs.Obj
	session *Session
	kind    string
	address string
	name    string
	open    bool
	err     error
	closed  bool
	// detaching: the program has closed the link, the peer has not confirmed
	detaching bool
	cerr      error
	r         *Receiver
	s         *Sender
}

func (s *Session) attach(ctx context.Context, kind, addr string) (*link, error) {
	b := Vmc()
	c := s.conn
	a := b.addr(addr)
	c.o.Write("attach " + kind + " " + addr)
	if !s.open {
		return nil, s.err
	}
	f := FateOK
	if b.OnAttach != nil {
		f = b.OnAttach(c, kind, addr)
	}
	if f != FateOK {
		b.event("attach %s %s on connection %d: %s", kind, addr, c.N, f)
	}
	if ctxDone(ctx) {
		return nil, ctx.Err()
	}
	switch f {
	case FateErr, FateDetach:
		return nil, &Error{Condition: ErrCondNotFound, Description: "no link"}
	case FateKill, FateKillAfter:
		b.kill(c, "connection reset during attach")
		return nil, s.err
	case FateHang, FateHangAfter:
		if hang(ctx, "attach", &c.o, func() bool { return !s.open }) {
			return nil, s.err
		}
		return nil, ctx.Err()
	}
	b.links++
	l := &link{session: s, kind: kind, address: addr, name: fmt.Sprintf("link-%d", b.links), open: true}
	s.links = append(s.links, l)
	a.o.Touch()
	return l, nil
}

func (l *link) close(ctx context.Context) error {
	b := Vmc()
	l.o.Write("close " + l.kind)
	if l.closed {
		var le *LinkError
		if errors.As(l.cerr, &le) && le.RemoteErr == nil && le.inner == nil {
			return nil
		}
		return l.cerr
	}
	l.closed = true
	if !l.open {
		l.cerr = l.err
		return l.err
	}
	f := FateOK
	if b.OnClose != nil {
		f = b.OnClose(l.session.conn, l.kind, l.address)
	}
	if f == FateHang {
		// until the peer confirms, pending operations are not ended
		l.unroute()
		l.detaching = true
		b.event("%s %s closing", l.kind, l.address)
		if vs.WaitChan("close "+l.kind, &l.o, ctx.Done(), func() bool { return !l.open }) {
			l.cerr = l.err
			return l.err
		}
		l.cerr = &LinkError{inner: ctx.Err()}
		return ctx.Err()
	}
	l.end(&LinkError{})
	b.event("%s %s closed", l.kind, l.address)
	return l.session.conn.closing(ctx, f, func(err error) { l.cerr = &LinkError{inner: err} })
}

// Receiver receives messages on a single AMQP link.
type Receiver struct {
	l         *link
	credit    int // -1: manual
	issued    int
	pending   []*Message // at the broker
	q         []*Message // prefetched
	unsettled int
	Received  int
	Routed    []any // bodies of the messages routed to it
	Taken     []any // bodies of the messages the program received
}

func (r *Receiver) vmcLink() *link { return r.l }
func (s *Sender) vmcLink() *link   { return s.l }

// pump moves messages to the client while it has credit.
func (r *Receiver) pump() {
	for len(r.pending) > 0 {
		if r.credit >= 0 {
			if len(r.q)+r.unsettled >= r.credit {
				return
			}
		} else {
			if r.issued <= 0 {
				return
			}
			r.issued--
		}
		r.q = append(r.q, r.pending[0])
		r.pending = append([]*Message(nil), r.pending[1:]...)
	}
}

// NewReceiver opens a new receiver link on the session.
func (s *Session) NewReceiver(ctx context.Context, source string, opts *ReceiverOptions) (*Receiver, error) {
	l, err := s.attach(ctx, "receiver", source)
	if err != nil {
		return nil, err
	}
	r := &Receiver{l: l, credit: 1}
	if opts != nil {
		if opts.Credit > 0 {
			r.credit = int(opts.Credit)
		} else if opts.Credit < 0 {
			r.credit = -1
		}
	}
	l.r = r
	b := Vmc()
	a := b.addr(source)
	a.rcv = append(a.rcv, r)
	q := a.q
	a.q = nil
	for _, enc := range q {
		b.push(a, enc)
	}
	return r, nil
}

// IssueCredit adds credits to be requested in the next flow request.
func (r *Receiver) IssueCredit(credit uint32) error {
	r.l.o.Write("issue credit")
	if r.credit >= 0 {
		return errors.New("issueCredit can only be used with receiver links using manual credit management")
	}
	r.issued += int(credit)
	r.pump()
	return nil
}

func (r *Receiver) take() *Message {
	if len(r.q) == 0 {
		return nil
	}
	m := r.q[0]
	r.q = append([]*Message(nil), r.q[1:]...)
	r.unsettled++
	r.Received++
	r.Taken = append(r.Taken, m.Value)
	b := Vmc()
	b.Taken = append(b.Taken, m.Value)
	return m
}

// Prefetched returns the next prefetched message.
func (r *Receiver) Prefetched() *Message {
	r.l.o.Write("prefetched")
	return r.take()
}

// ReceiveOptions contains any optional values for the Receiver.Receive method.
type ReceiveOptions struct{}

// Receive returns the next message from the sender.
func (r *Receiver) Receive(ctx context.Context, opts *ReceiveOptions) (*Message, error) {
	l := r.l
	l.o.Touch()
	if m := r.take(); m != nil {
		return m, nil
	}
	if !vs.WaitChan("receive "+l.address, &l.o, ctx.Done(), func() bool { return len(r.q) > 0 || !l.open }) {
		return nil, ctx.Err()
	}
	if m := r.take(); m != nil {
		return m, nil
	}
	return nil, l.err
}

func (r *Receiver) settle(ctx context.Context, msg *Message, accepted bool) error {
	if msg.settled {
		return nil
	}
	b := Vmc()
	l := r.l
	l.o.Write("settle " + l.address)
	f := FateOK
	if !l.open {
		return l.err
	}
	if l.detaching {
		f = FateHang
	} else if b.OnAccept != nil {
		f = b.OnAccept(r, msg)
	}
	if f != FateOK {
		b.event("settle at %s: %s", l.address, f)
	}
	if err := ctx.Err(); err == context.DeadlineExceeded {
		return err
	}
	switch f {
	case FateErr:
		return errors.New("write failed")
	case FateDetach:
		b.detach(l, "detached during settlement")
		return l.err
	case FateKill:
		b.kill(l.session.conn, "connection reset during settlement")
		return l.err
	case FateHang:
		if hang(ctx, "settle", &l.o, func() bool { return !l.open }) {
			return l.err
		}
		return ctx.Err()
	}
	msg.settled = true
	r.unsettled--
	r.pump()
	b.Settled++
	if accepted {
		b.Accepted = append(b.Accepted, msg)
	} else {
		b.Released++
	}
	switch f {
	case FateKillAfter:
		b.kill(l.session.conn, "connection reset after settlement")
		return l.err
	}
	return nil
}

// AcceptMessage notifies the server that the message has been accepted.
func (r *Receiver) AcceptMessage(ctx context.Context, msg *Message) error {
	return msg.rcv.settle(ctx, msg, true)
}

// RejectMessage notifies the server that the message is invalid.
func (r *Receiver) RejectMessage(ctx context.Context, msg *Message, e *Error) error {
	return msg.rcv.settle(ctx, msg, false)
}

// ReleaseMessage releases the message back to the server.
func (r *Receiver) ReleaseMessage(ctx context.Context, msg *Message) error {
	return msg.rcv.settle(ctx, msg, false)
}

// ModifyMessageOptions contains the optional parameters to ModifyMessage.
type ModifyMessageOptions struct {
	DeliveryFailed    bool
	UndeliverableHere bool
	Annotations       Annotations
}

// ModifyMessage modifies the message.
func (r *Receiver) ModifyMessage(ctx context.Context, msg *Message, options *ModifyMessageOptions) error {
	return msg.rcv.settle(ctx, msg, false)
}

// Address returns the link's address.
func (r *Receiver) Address() string { return r.l.address }

// LinkName returns the link's name.
func (r *Receiver) LinkName() string { return r.l.name }

// LinkSourceFilterValue retrieves the specified link source filter value.
func (r *Receiver) LinkSourceFilterValue(name string) any { return nil }

// Close closes the link.
func (r *Receiver) Close(ctx context.Context) error { return r.l.close(ctx) }

// Sender sends messages on a single AMQP link.
type Sender struct {
	l  *link
	mu vsync.Mutex // held while waiting for credit
}

// NewSender opens a new sender link on the session.
func (s *Session) NewSender(ctx context.Context, target string, opts *SenderOptions) (*Sender, error) {
	l, err := s.attach(ctx, "sender", target)
	if err != nil {
		return nil, err
	}
	l.s = &Sender{l: l}
	return l.s, nil
}

// SendOptions contains any optional values for the Sender.Send method.
type SendOptions struct {
	Settled bool
}

// Address returns the link's address.
func (s *Sender) Address() string { return s.l.address }

// LinkName returns the link's name.
func (s *Sender) LinkName() string { return s.l.name }

// MaxMessageSize is the maximum size of a single message.
func (s *Sender) MaxMessageSize() uint64 { return 0 }

// Close closes the link.
func (s *Sender) Close(ctx context.Context) error { return s.l.close(ctx) }

// Send sends a message.
func (s *Sender) Send(ctx context.Context, msg *Message, opts *SendOptions) error {
	b := Vmc()
	l := s.l
	a := b.addr(l.address)
	enc, err := msg.MarshalBinary()
	if err != nil {
		return err
	}
	l.o.Touch()
	if !l.open {
		return l.err
	}
	s.mu.Lock()
	locked := true
	unlock := func() {
		if locked {
			locked = false
			s.mu.Unlock()
		}
	}
	defer unlock()
	if !l.open {
		return l.err
	}
	f := FateOK
	if l.detaching {
		f = FateHang
	} else if b.OnSend != nil {
		f = b.OnSend(s, msg)
	}
	if f != FateOK {
		b.event("send to %s: %s", l.address, f)
	}
	blocked := f == FateHang || b.NoCredit != nil && b.NoCredit(l.address)
	if !vs.WaitChan("send "+l.address, &a.o, ctx.Done(), func() bool { return !l.open || !blocked && (b.Deaf || len(a.rcv) > 0) }) {
		return &Error{Condition: ErrCondTransferLimitExceeded, Description: "credit limit exceeded for sending link " + l.name}
	}
	unlock()
	if !l.open {
		return l.err
	}
	switch f {
	case FateDetach:
		b.detach(l, "detached during send")
		return l.err
	case FateKill:
		b.kill(l.session.conn, "connection reset during send")
		return l.err
	}
	dec := &Message{}
	if err := dec.UnmarshalBinary(enc); err != nil {
		vs.Fail("harness", "broker cannot decode a sent message: %v", err)
	}
	if f == FateErr {
		b.Rejected = append(b.Rejected, &VmcSent{Addr: l.address, Msg: dec, Sender: s, Conn: l.session.conn, At: int64(vs.Elapsed())})
		return &Error{Condition: ErrCondInternalError, Description: "rejected"}
	}
	n := b.push(a, enc)
	b.Sent = append(b.Sent, &VmcSent{Addr: l.address, Msg: dec, Sender: s, Conn: l.session.conn, At: int64(vs.Elapsed()), N: n})
	switch f {
	case FateKillAfter:
		b.kill(l.session.conn, "connection reset before the acknowledgement")
		return l.err
	case FateHangAfter:
		if hang(ctx, "send acknowledgement", &l.o, func() bool { return !l.open }) {
			return l.err
		}
		return ctx.Err()
	}
	return nil
}
