// Package mini is a small AMQP 1.0 broker: a router that multicasts messages
// to addresses starting with "mc/" and queues the others, with faults on
// demand. It exists to run the real client library.
package mini

import (
	"bufio"
	"encoding/binary"
	"fmt"
	"io"
	"net"
	"sort"
	"strings"
	"sync"
)

// Broker on a local port.
type Broker struct {
	Addr string // amqp://127.0.0.1:port

	// Fates of operations: "", "err", "hang", "kill", "killafter",
	// "hangafter", "detach", "nocredit".
	OnOpen   func(n int) string
	OnBegin  func() string
	OnAttach func(kind, addr string) string
	OnSend   func(addr string, payload []byte) string

	mu    sync.Mutex
	ln    net.Listener
	conns map[*bconn]bool
	queue map[string][][]byte
	n     int
	Sent  []Sent
	Opens []string // container ids
	// Settled counts the deliveries settled by receivers
	Settled int
}

// Sent is a message that reached the broker.
type Sent struct {
	Addr    string
	Payload []byte
}

type bconn struct {
	b     *Broker
	c     net.Conn
	wmu   sync.Mutex
	sess  map[uint16]*bsess
	other map[uint16]bool
	gone  bool
}

type bsess struct {
	c     *bconn
	ch    uint16
	links map[uint32]*blink
	nextD uint32
	out   uint32
	mute  bool
}

type blink struct {
	s        *bsess
	handle   uint32
	name     string
	addr     string
	recv     bool // the client receives
	credit   uint32
	count    uint32
	backlog  [][]byte
	buf      []byte
	inflight []uint32
}

// New broker.
func New() *Broker {
	ln, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		panic(err)
	}
	b := &Broker{ln: ln, Addr: "amqp://" + ln.Addr().String(), conns: map[*bconn]bool{}, queue: map[string][][]byte{}}
	go func() {
		for {
			c, err := ln.Accept()
			if err != nil {
				return
			}
			go b.serve(c)
		}
	}()
	return b
}

// Close the broker.
func (b *Broker) Close() {
	b.ln.Close()
	b.Kill()
}

// Kill all connections.
func (b *Broker) Kill() {
	b.mu.Lock()
	defer b.mu.Unlock()
	for c := range b.conns {
		c.kill()
	}
}

// Conns open.
func (b *Broker) Conns() int {
	b.mu.Lock()
	defer b.mu.Unlock()
	return len(b.conns)
}

// Links open, "receiver addr" or "sender addr".
func (b *Broker) Links() []string {
	b.mu.Lock()
	defer b.mu.Unlock()
	out := []string{}
	for c := range b.conns {
		for _, s := range c.sess {
			for _, l := range s.links {
				k := "sender "
				if l.recv {
					k = "receiver "
				}
				out = append(out, k+l.addr)
			}
		}
	}
	sort.Strings(out)
	return out
}

// Messages that reached the broker for an address.
func (b *Broker) Messages(addr string) [][]byte {
	b.mu.Lock()
	defer b.mu.Unlock()
	var out [][]byte
	for _, s := range b.Sent {
		if s.Addr == addr {
			out = append(out, s.Payload)
		}
	}
	return out
}

// Push a message as if another client had sent it.
func (b *Broker) Push(addr string, payload []byte) {
	b.mu.Lock()
	defer b.mu.Unlock()
	b.route(addr, payload)
}

// Detach all links of an address with an error.
func (b *Broker) Detach(addr string) {
	b.mu.Lock()
	defer b.mu.Unlock()
	for c := range b.conns {
		for _, s := range c.sess {
			for h, l := range s.links {
				if l.addr == addr {
					delete(s.links, h)
					c.send(s.ch, perf(0x16, uint(l.handle), true, amqpError("amqp:link:detach-forced", "detached by the broker")))
				}
			}
		}
	}
}

// DetachKind detaches all links that receive (or all that send).
func (b *Broker) DetachKind(recv bool) {
	b.mu.Lock()
	defer b.mu.Unlock()
	for c := range b.conns {
		for _, s := range c.sess {
			for h, l := range s.links {
				if l.recv == recv {
					delete(s.links, h)
					c.send(s.ch, perf(0x16, uint(l.handle), true, amqpError("amqp:link:detach-forced", "detached by the broker")))
				}
			}
		}
	}
}

// NSent is the number of messages that reached the broker.
func (b *Broker) NSent() int {
	b.mu.Lock()
	defer b.mu.Unlock()
	return len(b.Sent)
}

// EndSessions ends all sessions with an error.
func (b *Broker) EndSessions() {
	b.mu.Lock()
	defer b.mu.Unlock()
	for c := range b.conns {
		for ch, s := range c.sess {
			delete(c.sess, ch)
			c.send(s.ch, perf(0x17, amqpError("amqp:resource-deleted", "ended by the broker")))
		}
	}
}

func (c *bconn) kill() {
	c.gone = true
	delete(c.b.conns, c)
	c.c.Close()
}

func (b *Broker) route(addr string, p []byte) {
	var ls []*blink
	for c := range b.conns {
		for _, s := range c.sess {
			for _, l := range s.links {
				if l.recv && l.addr == addr {
					ls = append(ls, l)
				}
			}
		}
	}
	if strings.HasPrefix(addr, "mc/") {
		for _, l := range ls {
			l.backlog = append(l.backlog, p)
			l.pump()
		}
		return
	}
	for _, l := range ls {
		if l.credit > 0 {
			l.backlog = append(l.backlog, p)
			l.pump()
			return
		}
	}
	b.queue[addr] = append(b.queue[addr], p)
}

func (l *blink) pump() {
	b := l.s.c.b
	for l.credit > 0 {
		var p []byte
		if len(l.backlog) > 0 {
			p, l.backlog = l.backlog[0], l.backlog[1:]
		} else if q := b.queue[l.addr]; len(q) > 0 && !strings.HasPrefix(l.addr, "mc/") {
			p, b.queue[l.addr] = q[0], q[1:]
		} else {
			return
		}
		l.credit--
		l.count++
		id := l.s.nextD
		l.s.nextD++
		tag := make([]byte, 4)
		binary.BigEndian.PutUint32(tag, id)
		body := perf(0x14, uint(l.handle), uint(id), tag, uint(0), false, false)
		l.s.c.send(l.s.ch, append(body, p...))
	}
}

func (c *bconn) send(ch uint16, body []byte) {
	f := make([]byte, 8, 8+len(body))
	binary.BigEndian.PutUint32(f, uint32(8+len(body)))
	f[4] = 2
	binary.BigEndian.PutUint16(f[6:], ch)
	c.wmu.Lock()
	defer c.wmu.Unlock()
	c.c.Write(append(f, body...))
}

func (b *Broker) serve(nc net.Conn) {
	c := &bconn{b: b, c: nc, sess: map[uint16]*bsess{}}
	b.mu.Lock()
	b.conns[c] = true
	b.mu.Unlock()
	defer func() {
		b.mu.Lock()
		if !c.gone {
			c.kill()
		}
		b.mu.Unlock()
	}()
	r := bufio.NewReader(nc)
	var h [8]byte
	if _, err := io.ReadFull(r, h[:]); err != nil {
		return
	}
	nc.Write(h[:])
	for {
		if _, err := io.ReadFull(r, h[:]); err != nil {
			return
		}
		n := binary.BigEndian.Uint32(h[:])
		body := make([]byte, n-8)
		if _, err := io.ReadFull(r, body); err != nil {
			return
		}
		body = body[int(h[4]-2)*4:]
		ch := binary.BigEndian.Uint16(h[6:])
		if len(body) == 0 {
			continue
		}
		d := &dec{b: body}
		v, _ := d.value().(*described)
		if v == nil {
			return
		}
		f, _ := v.value.([]any)
		get := func(i int) any {
			if i < len(f) {
				return f[i]
			}
			return nil
		}
		b.mu.Lock()
		ok := c.handle(ch, v.code, get, d.b[d.i:])
		b.mu.Unlock()
		if !ok {
			return
		}
	}
}

func num(v any) uint64 {
	switch v := v.(type) {
	case uint64:
		return v
	case int64:
		return uint64(v)
	}
	return 0
}

func (c *bconn) handle(ch uint16, code uint64, get func(int) any, payload []byte) bool {
	b := c.b
	if c.gone {
		return false
	}
	s := c.sess[ch]
	switch code {
	case 0x10: // open
		b.n++
		id, _ := get(0).(string)
		b.Opens = append(b.Opens, id)
		f := ""
		if b.OnOpen != nil {
			f = b.OnOpen(b.n)
		}
		switch f {
		case "":
			c.send(ch, perf(0x10, "mini", nil, uint(65536), ushort(100)))
		case "hang":
		case "err":
			c.send(ch, perf(0x10, "mini"))
			c.send(ch, perf(0x18, amqpError("amqp:not-allowed", "no")))
		default:
			c.kill()
			return false
		}
	case 0x11: // begin
		f := ""
		if b.OnBegin != nil {
			f = b.OnBegin()
		}
		switch f {
		case "hang":
			return true
		case "kill":
			c.kill()
			return false
		}
		s = &bsess{c: c, ch: ch, links: map[uint32]*blink{}}
		c.sess[ch] = s
		c.send(ch, perf(0x11, ushort(ch), uint(0), uint(1<<20), uint(1<<20), uint(1<<20)))
		if f == "err" {
			delete(c.sess, ch)
			c.send(ch, perf(0x17, amqpError("amqp:not-allowed", "no")))
		}
	case 0x12: // attach
		if s == nil {
			return true
		}
		name, _ := get(0).(string)
		l := &blink{s: s, name: name, handle: uint32(num(get(1))), recv: get(2) == true}
		term := get(6)
		kind := "sender"
		if l.recv {
			term, kind = get(5), "receiver"
		}
		if t, ok := term.(*described); ok {
			if tl, ok := t.value.([]any); ok && len(tl) > 0 {
				l.addr, _ = tl[0].(string)
			}
		}
		f := ""
		if b.OnAttach != nil {
			f = b.OnAttach(kind, l.addr)
		}
		switch f {
		case "hang":
			return true
		case "kill":
			c.kill()
			return false
		case "err":
			// refused: attach without a terminus, then detach
			c.send(ch, perf(0x12, name, uint(l.handle), !l.recv, nil, nil, nil, nil))
			c.send(ch, perf(0x16, uint(l.handle), true, amqpError("amqp:not-found", "no")))
			return true
		}
		s.links[l.handle] = l
		src, dst := terminus(0x28, l.addr), terminus(0x29, l.addr)
		if l.recv {
			c.send(ch, perf(0x12, name, uint(l.handle), false, nil, nil, src, dst, nil, nil, uint(0)))
		} else {
			c.send(ch, perf(0x12, name, uint(l.handle), true, nil, nil, src, dst))
			if f != "nocredit" {
				c.send(ch, perf(0x13, uint(0), uint(1<<20), uint(0), uint(1<<20), uint(l.handle), uint(0), uint(1<<20)))
			}
		}
	case 0x13: // flow
		if s == nil || get(4) == nil {
			return true
		}
		if l := s.links[uint32(num(get(4)))]; l != nil && l.recv {
			l.credit = uint32(num(get(5))) + uint32(num(get(6))) - l.count
			drain := get(8) == true
			l.pump()
			if drain && l.credit > 0 {
				l.count += l.credit
				l.credit = 0
				c.send(ch, perf(0x13, uint(0), uint(1<<20), uint(0), uint(1<<20), uint(l.handle), uint(l.count), uint(0), uint(0), true))
			}
		}
	case 0x14: // transfer
		if s == nil {
			return true
		}
		l := s.links[uint32(num(get(0)))]
		if l == nil {
			return true
		}
		l.buf = append(l.buf, payload...)
		if get(5) == true { // more
			return true
		}
		p := l.buf
		l.buf = nil
		f := ""
		if b.OnSend != nil {
			f = b.OnSend(l.addr, p)
		}
		switch f {
		case "hang":
			return true
		case "kill":
			c.kill()
			return false
		case "detach":
			delete(s.links, l.handle)
			c.send(ch, perf(0x16, uint(l.handle), true, amqpError("amqp:link:detach-forced", "no")))
			return true
		case "err":
			c.send(ch, perf(0x15, true, uint(num(get(1))), uint(num(get(1))), true, rejected()))
			return true
		}
		b.Sent = append(b.Sent, Sent{l.addr, p})
		b.route(l.addr, p)
		switch f {
		case "killafter":
			c.kill()
			return false
		case "hangafter":
			return true
		}
		if get(4) != true { // unsettled
			c.send(ch, perf(0x15, true, uint(num(get(1))), uint(num(get(1))), true, accepted()))
		}
	case 0x15: // disposition
		if s != nil && get(0) == true {
			first, last := num(get(1)), num(get(1))
			if get(2) != nil {
				last = num(get(2))
			}
			b.Settled += int(last - first + 1)
			if get(3) != true {
				c.send(ch, perf(0x15, false, uint(first), uint(last), true, accepted()))
			}
		}
	case 0x16: // detach
		if s != nil {
			if l := s.links[uint32(num(get(0)))]; l != nil {
				delete(s.links, l.handle)
				c.send(ch, perf(0x16, uint(l.handle), true))
			}
		}
	case 0x17: // end
		if s != nil {
			delete(c.sess, ch)
			c.send(ch, perf(0x17))
		}
	case 0x18: // close
		c.send(ch, perf(0x18))
		c.kill()
		return false
	default:
		fmt.Printf("mini: performative %#x\n", code)
	}
	return true
}

// ---- encoding

type uint uint32
type ushort uint16
type raw []byte

func enc(v any) []byte {
	switch v := v.(type) {
	case nil:
		return []byte{0x40}
	case bool:
		if v {
			return []byte{0x41}
		}
		return []byte{0x42}
	case uint:
		return binary.BigEndian.AppendUint32([]byte{0x70}, uint32(v))
	case ushort:
		return binary.BigEndian.AppendUint16([]byte{0x60}, uint16(v))
	case string:
		return append(binary.BigEndian.AppendUint32([]byte{0xb1}, uint32(len(v))), v...)
	case []byte:
		return append(binary.BigEndian.AppendUint32([]byte{0xb0}, uint32(len(v))), v...)
	case raw:
		return v
	}
	panic(fmt.Sprintf("%T", v))
}

func list(vs ...any) []byte {
	var b []byte
	for _, v := range vs {
		b = append(b, enc(v)...)
	}
	out := binary.BigEndian.AppendUint32([]byte{0xd0}, uint32(len(b)+4))
	out = binary.BigEndian.AppendUint32(out, uint32(len(vs)))
	return append(out, b...)
}

func perf(code byte, vs ...any) []byte { return append([]byte{0, 0x53, code}, list(vs...)...) }

func amqpError(cond, desc string) raw {
	sym := append(binary.BigEndian.AppendUint32([]byte{0xb3}, uint32(len(cond))), cond...)
	return perf(0x1d, raw(sym), desc)
}

func terminus(code byte, addr string) raw { return perf(code, addr) }
func accepted() raw                       { return perf(0x24) }
func rejected() raw                       { return perf(0x25, amqpError("amqp:not-allowed", "no")) }

// ---- decoding

type described struct {
	code  uint64
	value any
}

type dec struct {
	b []byte
	i int
}

func (d *dec) n(k int) []byte {
	b := d.b[d.i : d.i+k]
	d.i += k
	return b
}

func (d *dec) u(k int) uint64 {
	var v uint64
	for _, x := range d.n(k) {
		v = v<<8 | uint64(x)
	}
	return v
}

func (d *dec) value() any {
	c := d.n(1)[0]
	switch c {
	case 0x00:
		code := d.value()
		v := d.value()
		return &described{num(code), v}
	case 0x40:
		return nil
	case 0x41:
		return true
	case 0x42:
		return false
	case 0x43, 0x44:
		return uint64(0)
	case 0x45:
		return []any{}
	case 0x56:
		return d.n(1)[0] == 1
	case 0x50, 0x52, 0x53:
		return d.u(1)
	case 0x51, 0x54, 0x55:
		return int64(int8(d.u(1)))
	case 0x60:
		return d.u(2)
	case 0x61:
		return int64(int16(d.u(2)))
	case 0x70, 0x72, 0x73, 0x74:
		return d.u(4)
	case 0x71:
		return int64(int32(d.u(4)))
	case 0x80, 0x82, 0x83, 0x84, 0x81:
		return d.u(8)
	case 0x94, 0x98:
		return d.n(16)
	case 0xa0:
		return d.n(int(d.u(1)))
	case 0xb0:
		return d.n(int(d.u(4)))
	case 0xa1, 0xa3:
		return string(d.n(int(d.u(1))))
	case 0xb1, 0xb3:
		return string(d.n(int(d.u(4))))
	case 0xc0, 0xc1, 0xd0, 0xd1:
		w := 1
		if c&0x10 != 0 {
			w = 4
		}
		d.u(w)
		n := int(d.u(w))
		out := []any{}
		for i := 0; i < n; i++ {
			out = append(out, d.value())
		}
		return out
	case 0xe0, 0xf0:
		w := 1
		if c == 0xf0 {
			w = 4
		}
		sz := int(d.u(w))
		d.n(sz)
		return nil
	}
	panic(fmt.Sprintf("mini: type %#x", c))
}
