package vs

import (
	"fmt"
	"unsafe"
)

// chanS is the modelled state of a channel. The program's own channel value is
// only used as an identity: nothing is ever sent through it.
type chanS struct {
	obj
	cap    int
	buf    []any
	slots  []vclock // happens-before per buffer slot
	sidx   int
	ridx   int
	closed bool
	clvc   vclock
	timer  *vtimer
	name   string
}

func chanPtr[T any](ch <-chan T) unsafe.Pointer { return *(*unsafe.Pointer)(unsafe.Pointer(&ch)) }

func (e *exec) chanOf(p unsafe.Pointer, capacity int) *chanS {
	c := e.chans[p]
	if c == nil {
		c = &chanS{cap: capacity}
		c.name = fmt.Sprintf("chan#%d", len(e.chans))
		e.chans[p] = c
	}
	return c
}

func (e *exec) initObj(g *G, o *obj) {
	if !o.ini {
		o.ini = true
		if o.h == 0 {
			o.h = mix(g.last, 0xab5eed)
		}
	}
}

// partners lists goroutines that announced the opposite operation on c and
// may be waiting for it; when some have certainly been waiting, the first of
// them.
func (e *exec) partners(c *chanS, wantSend bool, self *G) []*G {
	var out []*G
	first := e.qepoch
	for _, o := range e.gs {
		if o == self || o.done || o.completed || o.en == nil {
			continue
		}
		for i := range o.waits {
			if o.waits[i].c == c && o.waits[i].send == wantSend {
				// two operations only meet if one of them has been waiting
				if self.nowait && o.stateReady() {
					break
				}
				out = append(out, o)
				if o.parked < first {
					first = o.parked
				}
				break
			}
		}
	}
	if first < e.qepoch {
		k := 0
		for _, o := range out {
			if o.parked == first {
				out[k] = o
				k++
			}
		}
		out = out[:k]
	}
	return out
}

func (e *exec) hasPartner(c *chanS, wantSend bool, self *G) bool {
	for _, o := range e.gs {
		if o == self || o.done || o.completed || o.en == nil {
			continue
		}
		for i := range o.waits {
			if o.waits[i].c == c && o.waits[i].send == wantSend {
				if self.nowait && o.stateReady() {
					break
				}
				return true
			}
		}
	}
	return false
}

func (c *chanS) ready(send bool) bool {
	if send {
		return c.closed || len(c.buf) < c.cap
	}
	return c.closed || len(c.buf) > 0
}

// stateReady: the announced operation does not have to wait for anybody.
func (g *G) stateReady() bool {
	for i := range g.waits {
		if g.waits[i].c.ready(g.waits[i].send) {
			return true
		}
	}
	return false
}

// waiting lists the goroutines that have certainly been waiting at c, longest
// first: an operation on c is handed to them directly.
func (e *exec) waiting(c *chanS, send bool, self *G) []*G {
	out, first := e.allWaiting(c, send, self)
	k := 0
	for _, o := range out {
		if o.parked == first {
			out[k] = o
			k++
		}
	}
	return out[:k]
}

func (e *exec) allWaiting(c *chanS, send bool, self *G) ([]*G, int) {
	var out []*G
	first := e.qepoch
	for _, o := range e.gs {
		if o == self || o.done || o.completed || o.en == nil || o.parked >= e.qepoch {
			continue
		}
		for i := range o.waits {
			if o.waits[i].c == c && o.waits[i].send == send {
				if !o.stateReady() {
					out = append(out, o)
					if o.parked < first {
						first = o.parked
					}
				}
				break
			}
		}
	}
	return out, first
}

func (g *G) waitIdx(c *chanS, send bool) int {
	for i := range g.waits {
		if g.waits[i].c == c && g.waits[i].send == send {
			return i
		}
	}
	return 0
}

func (e *exec) sendReady(c *chanS, g *G) bool {
	return c.closed || len(c.buf) < c.cap || (c.cap == 0 && e.hasPartner(c, false, g))
}

func (e *exec) recvReady(c *chanS, g *G) bool {
	return len(c.buf) > 0 || c.closed || (c.cap == 0 && e.hasPartner(c, true, g))
}

func (c *chanS) slot(i int) *vclock {
	if c.slots == nil {
		c.slots = make([]vclock, c.cap)
	}
	return &c.slots[i%c.cap]
}

func (e *exec) doSend(g *G, c *chanS, v any) {
	e.initObj(g, &c.obj)
	if c.closed {
		panic("send on closed channel")
	}
	if len(c.buf) < c.cap {
		var p *G
		if len(c.buf) == 0 {
			if ws := e.waiting(c, false, g); len(ws) > 0 {
				p = ws[0]
				if len(ws) > 1 {
					p = ws[chooseSel(len(ws))]
				}
			}
		}
		e.event(g, &c.obj, kSend)
		s := c.slot(c.sidx)
		if p != nil {
			c.sidx++
			c.ridx++
			g.acquire(*s)
			*s = g.release(nil)
			p.acquire(*s)
			p.complete(e, p.waitIdx(c, false), v, true)
			e.setLast(p, mix3(p.last, g.last, kRendez))
			if g.lam >= p.lam {
				p.lam = g.lam + 1
			}
			return
		}
		c.sidx++
		g.acquire(*s)
		*s = g.release(nil)
		c.buf = append(c.buf, v)
		return
	}
	ps := e.partners(c, false, g)
	p := ps[0]
	if len(ps) > 1 {
		p = ps[chooseSel(len(ps))]
	}
	idx := 0
	for i := range p.waits {
		if p.waits[i].c == c && !p.waits[i].send {
			idx = i
			break
		}
	}
	p.complete(e, idx, v, true)
	e.rendezvous(g, p, c)
}

func (e *exec) rendezvous(g, p *G, c *chanS) {
	e.event(g, &c.obj, kRendez)
	e.setLast(p, mix3(p.last, g.last, kRendez))
	if g.lam > p.lam {
		p.lam = g.lam
	}
	p.lam++
	j := g.vc.join(p.vc)
	g.vc = j.tick(g.num)
	p.vc = j.tick(p.num)
}

func (g *G) complete(e *exec, idx int, v any, ok bool) {
	g.completed = true
	g.selIdx = idx
	g.recvVal = v
	g.recvOK = ok
	g.en = alwaysEnabled
}

func (e *exec) doRecv(g *G, c *chanS) (any, bool) {
	e.initObj(g, &c.obj)
	if len(c.buf) > 0 {
		var p *G
		if len(c.buf) == c.cap {
			if ws := e.waiting(c, true, g); len(ws) > 0 {
				p = ws[0]
				if len(ws) > 1 {
					p = ws[chooseSel(len(ws))]
				}
			}
		}
		e.event(g, &c.obj, kRecv)
		v := c.buf[0]
		c.buf = append([]any(nil), c.buf[1:]...)
		s := c.slot(c.ridx)
		c.ridx++
		g.acquire(*s)
		*s = g.release(nil)
		if p != nil {
			i := p.waitIdx(c, true)
			c.buf = append(c.buf, p.waits[i].val)
			s := c.slot(c.sidx)
			c.sidx++
			p.acquire(*s)
			*s = p.release(nil)
			p.complete(e, i, nil, false)
			e.setLast(p, mix3(p.last, g.last, kRendez))
			if g.lam >= p.lam {
				p.lam = g.lam + 1
			}
		}
		return v, true
	}
	if c.closed {
		e.eventR(g, &c.obj, kRecv)
		g.acquire(c.clvc)
		return nil, false
	}
	ps := e.partners(c, true, g)
	p := ps[0]
	if len(ps) > 1 {
		p = ps[chooseSel(len(ps))]
	}
	idx := 0
	for i := range p.waits {
		if p.waits[i].c == c && p.waits[i].send {
			idx = i
			break
		}
	}
	v := p.waits[idx].val
	p.complete(e, idx, nil, false)
	e.rendezvous(g, p, c)
	return v, true
}

func as[T any](v any) T {
	t, _ := v.(T)
	return t
}

func blockForever(e *exec, what string) {
	e.point(what, "nil channel", func() bool { return false })
}

// SendTo returns the function sending on ch.
func SendTo[T any](ch chan<- T) func(T) {
	return func(v T) {
		e := ex
		if e == nil {
			ch <- v
			return
		}
		if e.dead {
			panicExit()
			return
		}
		if ch == nil {
			blockForever(e, "send")
		}
		g := e.cur
		c := e.chanOf(*(*unsafe.Pointer)(unsafe.Pointer(&ch)), cap(ch))
		g.waits = append(g.waits[:0], waitCase{c, true, v})
		g.completed = false
		e.point("send", c.name, func() bool { return g.completed || e.sendReady(c, g) })
		g.waits = g.waits[:0]
		if g.completed {
			g.completed = false
			return
		}
		e.doSend(g, c, v)
	}
}

func recv(p unsafe.Pointer, capacity int) (any, bool) {
	e := ex
	if p == nil {
		blockForever(e, "receive")
	}
	g := e.cur
	c := e.chanOf(p, capacity)
	g.waits = append(g.waits[:0], waitCase{c, false, nil})
	g.completed = false
	e.point("receive", c.name, func() bool { return g.completed || e.recvReady(c, g) })
	g.waits = g.waits[:0]
	if g.completed {
		g.completed = false
		v := g.recvVal
		g.recvVal = nil
		return v, g.recvOK
	}
	return e.doRecv(g, c)
}

// Recv is <-ch.
func Recv[T any](ch <-chan T) T {
	if e := ex; e == nil {
		return <-ch
	} else if e.dead {
		panicExit()
	}
	v, _ := recv(chanPtr(ch), cap(ch))
	return as[T](v)
}

// Recv2 is v, ok := <-ch.
func Recv2[T any](ch <-chan T) (T, bool) {
	if e := ex; e == nil {
		v, ok := <-ch
		return v, ok
	} else if e.dead {
		panicExit()
	}
	v, ok := recv(chanPtr(ch), cap(ch))
	return as[T](v), ok
}

// Close is close(ch).
func Close[T any](ch chan<- T) {
	e := ex
	if e == nil {
		close(ch)
		return
	}
	if e.dead {
		return
	}
	if ch == nil {
		panic("close of nil channel")
	}
	c := e.chanOf(*(*unsafe.Pointer)(unsafe.Pointer(&ch)), cap(ch))
	g := e.point("close", c.name, alwaysEnabled)
	e.closeChan(g, c)
}

func (e *exec) closeChan(g *G, c *chanS) {
	e.initObj(g, &c.obj)
	if c.closed {
		panic("close of closed channel")
	}
	ws, _ := e.allWaiting(c, false, g)
	e.event(g, &c.obj, kClose)
	c.closed = true
	c.clvc = g.release(nil)
	e.wakeClosed(g, c, ws)
	// blocked senders panic when they run, blocked receivers see it closed
}

// wakeClosed completes the receivers that have been waiting.
func (e *exec) wakeClosed(g *G, c *chanS, ws []*G) {
	for _, p := range ws {
		p.acquire(c.clvc)
		p.complete(e, p.waitIdx(c, false), nil, false)
		e.setLast(p, mix3(p.last, g.last, kRendez))
		if g.lam >= p.lam {
			p.lam = g.lam + 1
		}
	}
}

// Len is len(ch).
func Len[T any](ch <-chan T) int {
	e := ex
	if e == nil || e.dead || ch == nil {
		return len(ch)
	}
	c := e.chanOf(chanPtr(ch), cap(ch))
	g := e.point("len", c.name, alwaysEnabled)
	e.initObj(g, &c.obj)
	e.eventR(g, &c.obj, kLen)
	return len(c.buf)
}

// Case is one communication clause of a select statement.
type Case interface{ sel() *selCase }

type selCase struct {
	p    unsafe.Pointer
	cap  int
	send bool
	val  any
	rv   any
	ok   bool
	nat  func() // used outside executions
}

// RecvC is a receive clause.
type RecvC[T any] struct{ c selCase }

func (r *RecvC[T]) sel() *selCase { return &r.c }

// Val is the received value.
func (r *RecvC[T]) Val() T { return as[T](r.c.rv) }

// Val2 is the received value and whether the channel was open.
func (r *RecvC[T]) Val2() (T, bool) { return as[T](r.c.rv), r.c.ok }

// RecvCase makes a receive clause.
func RecvCase[T any](ch <-chan T) *RecvC[T] {
	return &RecvC[T]{selCase{p: chanPtr(ch), cap: cap(ch)}}
}

// SendC is a send clause.
type SendC struct{ c selCase }

func (s *SendC) sel() *selCase { return &s.c }

// SendCase makes a send clause.
func SendCase[T any](ch chan<- T) func(T) *SendC {
	return func(v T) *SendC {
		return &SendC{selCase{p: *(*unsafe.Pointer)(unsafe.Pointer(&ch)), cap: cap(ch), send: true, val: v}}
	}
}

// Select executes a select statement and returns the index of the chosen
// clause, -1 for default.
func Select(hasDefault bool, cases ...Case) int {
	e := ex
	if e == nil {
		panic("vs: select outside an execution")
	}
	if e.dead {
		panicExit()
	}
	g := e.cur
	cs := make([]*selCase, len(cases))
	st := make([]*chanS, len(cases))
	g.waits = g.waits[:0]
	g.completed = false
	widx := make([]int, 0, len(cases))
	for i, c := range cases {
		cs[i] = c.sel()
		if cs[i].p == nil {
			continue
		}
		st[i] = e.chanOf(cs[i].p, cs[i].cap)
		if !hasDefault {
			g.waits = append(g.waits, waitCase{st[i], cs[i].send, cs[i].val})
			widx = append(widx, i)
		}
	}
	ready := func(i int) bool {
		if st[i] == nil {
			return false
		}
		if cs[i].send {
			return e.sendReady(st[i], g)
		}
		return e.recvReady(st[i], g)
	}
	name := "select"
	if e.ctl.tracing || e.ctl.verbose {
		name = "select("
		for i := range cs {
			if st[i] == nil {
				name += " nil"
			} else {
				name += " " + st[i].name
			}
		}
		name += ")"
	}
	e.point(name, "", func() bool {
		if hasDefault || g.completed {
			return true
		}
		for i := range cs {
			if ready(i) {
				return true
			}
		}
		return false
	})
	g.waits = g.waits[:0]
	if g.completed {
		g.completed = false
		i := widx[g.selIdx]
		if !cs[i].send {
			cs[i].rv, cs[i].ok = g.recvVal, g.recvOK
			g.recvVal = nil
		}
		return i
	}
	// an operation that need not wait cannot meet another such
	g.nowait = hasDefault
	for i := range cs {
		if st[i] != nil && st[i].ready(cs[i].send) {
			g.nowait = true
		}
	}
	defer func() { g.nowait = false }()
	var alts []int
	soft := true // every ready case needs a partner that may not have arrived yet
	for i := range cs {
		if ready(i) {
			alts = append(alts, i)
			if !e.softReady(st[i], cs[i].send, g) {
				soft = false
			}
		}
	}
	if hasDefault && (len(alts) == 0 || soft) {
		alts = append(alts, -1)
	}
	k := alts[0]
	if len(alts) > 1 {
		k = alts[chooseSel(len(alts))]
	}
	if k < 0 {
		// observed that none of the channels was ready
		for i := range cs {
			if st[i] != nil {
				e.initObj(g, &st[i].obj)
				e.eventR(g, &st[i].obj, kDefault)
			}
		}
		return -1
	}
	if hasDefault || len(cs) > 1 {
		e.eventLocal(g, kSel, uint64(k))
	}
	if cs[k].send {
		e.doSend(g, st[k], cs[k].val)
	} else {
		cs[k].rv, cs[k].ok = e.doRecv(g, st[k])
	}
	return k
}

// softReady: ready only because of a partner that has announced its operation
// but may not have reached the channel yet.
func (e *exec) softReady(c *chanS, send bool, self *G) bool {
	if c.closed || c.cap > 0 {
		return false
	}
	for _, o := range e.partners(c, !send, self) {
		if o.parked < e.qepoch {
			return false
		}
	}
	return true
}
