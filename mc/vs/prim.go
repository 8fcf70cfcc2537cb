package vs

import (
	"fmt"
	"runtime"
	"sort"
	"time"
	"unsafe"
)

func panicExit() { runtime.Goexit() }

// Base is the virtual time origin.
var Base = time.Unix(1700000000, 0).UTC()

// ---- objects that survive executions: state is reset per execution

// Mutex models sync.Mutex.
type Mutex struct {
	ep     int64
	o      obj
	locked bool
	holder int
}

func (m *Mutex) reset(e *exec) {
	if m.ep != epoch {
		*m = Mutex{ep: epoch}
	}
}

func (m *Mutex) Lock() {
	e := ex
	if e == nil {
		return
	}
	if e.dead {
		if m.locked && m.ep == epoch {
			panicExit()
		}
		return
	}
	m.reset(e)
	g := e.point("lock", "mutex", func() bool { return !m.locked })
	e.initObj(g, &m.o)
	e.event(g, &m.o, kLock)
	m.locked = true
	m.holder = g.num
	g.acquire(m.o.vc)
}

func (m *Mutex) TryLock() bool {
	e := ex
	if e == nil || e.dead {
		return true
	}
	m.reset(e)
	g := e.point("trylock", "mutex", alwaysEnabled)
	e.initObj(g, &m.o)
	if m.locked {
		e.event(g, &m.o, kTry)
		return false
	}
	e.event(g, &m.o, kLock)
	m.locked = true
	m.holder = g.num
	g.acquire(m.o.vc)
	return true
}

func (m *Mutex) Unlock() {
	e := ex
	if e == nil || e.dead {
		return
	}
	m.reset(e)
	if !m.locked {
		Fail("panic", "fatal error: sync: unlock of unlocked mutex")
	}
	g := e.cur
	e.event(g, &m.o, kUnlock)
	m.locked = false
	m.o.vc = g.release(nil)
}

// RWMutex models sync.RWMutex including the preference of waiting writers.
type RWMutex struct {
	ep      int64
	o       obj
	rvc     vclock // released by readers
	readers int
	pending bool // a writer waits for readers to leave
	writer  bool
}

func (m *RWMutex) reset(e *exec) {
	if m.ep != epoch {
		*m = RWMutex{ep: epoch}
	}
}

func (m *RWMutex) Lock() {
	e := ex
	if e == nil {
		return
	}
	if e.dead {
		return
	}
	m.reset(e)
	g := e.point("lock", "rwmutex", func() bool { return !m.writer && !m.pending })
	e.initObj(g, &m.o)
	if m.readers > 0 {
		e.event(g, &m.o, kWLock1)
		m.pending = true
		e.point("lock", "rwmutex (waiting for readers)", func() bool { return m.readers == 0 })
		m.pending = false
	}
	e.event(g, &m.o, kWLock2)
	m.writer = true
	g.acquire(m.o.vc)
	g.acquire(m.rvc)
}

func (m *RWMutex) TryLock() bool {
	e := ex
	if e == nil || e.dead {
		return true
	}
	m.reset(e)
	g := e.point("trylock", "rwmutex", alwaysEnabled)
	e.initObj(g, &m.o)
	e.event(g, &m.o, kTry)
	if m.writer || m.pending || m.readers > 0 {
		return false
	}
	m.writer = true
	g.acquire(m.o.vc)
	g.acquire(m.rvc)
	return true
}

func (m *RWMutex) Unlock() {
	e := ex
	if e == nil || e.dead {
		return
	}
	m.reset(e)
	if !m.writer {
		Fail("panic", "fatal error: sync: Unlock of unlocked RWMutex")
	}
	g := e.cur
	e.event(g, &m.o, kUnlock)
	m.writer = false
	m.o.vc = g.release(nil)
	m.rvc = nil
}

func (m *RWMutex) RLock() {
	e := ex
	if e == nil || e.dead {
		return
	}
	m.reset(e)
	g := e.point("rlock", "rwmutex", func() bool { return !m.writer && !m.pending })
	e.initObj(g, &m.o)
	e.eventR(g, &m.o, kRLock)
	m.readers++
	g.acquire(m.o.vc)
}

// RLocker is sync.RWMutex's RLocker.
func (m *RWMutex) RLocker() interface {
	Lock()
	Unlock()
} {
	return (*rlocker)(m)
}

type rlocker RWMutex

func (r *rlocker) Lock()   { (*RWMutex)(r).RLock() }
func (r *rlocker) Unlock() { (*RWMutex)(r).RUnlock() }

func (m *RWMutex) TryRLock() bool {
	e := ex
	if e == nil || e.dead {
		return true
	}
	m.reset(e)
	g := e.point("tryrlock", "rwmutex", alwaysEnabled)
	e.initObj(g, &m.o)
	e.event(g, &m.o, kTry)
	if m.writer || m.pending {
		return false
	}
	m.readers++
	g.acquire(m.o.vc)
	return true
}

func (m *RWMutex) RUnlock() {
	e := ex
	if e == nil || e.dead {
		return
	}
	m.reset(e)
	if m.readers <= 0 {
		Fail("panic", "fatal error: sync: RUnlock of unlocked RWMutex")
	}
	g := e.cur
	e.eventR(g, &m.o, kRUnlock)
	m.readers--
	m.rvc = g.release(m.rvc)
}

// WaitGroup models sync.WaitGroup.
type WaitGroup struct {
	ep int64
	o  obj
	n  int
	w  int
}

func (w *WaitGroup) reset() {
	if w.ep != epoch {
		*w = WaitGroup{ep: epoch}
	}
}

func (w *WaitGroup) Add(d int) {
	e := ex
	if e == nil || e.dead {
		return
	}
	w.reset()
	g := e.cur
	if d > 0 {
		g = e.point("wg.add", "", alwaysEnabled)
	}
	e.initObj(g, &w.o)
	e.event(g, &w.o, kWgAdd)
	if d > 0 && w.n == 0 && w.w > 0 {
		Fail("panic", "sync: WaitGroup misuse: Add called concurrently with Wait")
	}
	w.n += d
	if w.n < 0 {
		panic("sync: negative WaitGroup counter")
	}
	if d < 0 {
		w.o.vc = g.release(w.o.vc)
	}
}

func (w *WaitGroup) Done() { w.Add(-1) }

func (w *WaitGroup) Wait() {
	e := ex
	if e == nil || e.dead {
		return
	}
	w.reset()
	g := e.point("wg.wait", "", func() bool { return w.n == 0 })
	e.initObj(g, &w.o)
	e.event(g, &w.o, kWgWait)
	g.acquire(w.o.vc)
}

func (w *WaitGroup) Go(f func()) {
	w.Add(1)
	Go(func() {
		defer w.Done()
		f()
	})
}

// Once models sync.Once.
type Once struct {
	ep   int64
	m    Mutex
	o    obj
	done bool
}

func (o *Once) Do(f func()) {
	e := ex
	if e == nil {
		if !o.done {
			o.done = true
			f()
		}
		return
	}
	if e.dead {
		return
	}
	if o.ep != epoch {
		*o = Once{ep: epoch, done: o.done && o.ep == 0}
	}
	g := e.point("once", "", alwaysEnabled)
	e.initObj(g, &o.o)
	if o.done {
		e.eventR(g, &o.o, kAtomicR)
		g.acquire(o.o.vc)
		return
	}
	e.eventR(g, &o.o, kAtomicR)
	o.m.Lock()
	defer o.m.Unlock()
	if !o.done {
		defer func() {
			if ex != nil && !ex.dead {
				g := ex.cur
				ex.event(g, &o.o, kAtomicW)
				o.done = true
				o.o.vc = g.release(nil)
			}
		}()
		f()
	}
}

// Cond models sync.Cond.
type Cond struct {
	L interface {
		Lock()
		Unlock()
	}
	ep   int64
	o    obj
	seq  int
	wait []*condW
}
type condW struct {
	g  *G
	ok bool
}

func (c *Cond) reset() {
	if c.ep != epoch {
		l := c.L
		*c = Cond{ep: epoch, L: l}
	}
}

func (c *Cond) Wait() {
	e := ex
	if e == nil || e.dead {
		panicExit()
	}
	c.reset()
	g := e.cur
	e.initObj(g, &c.o)
	e.event(g, &c.o, kCond)
	w := &condW{g: g}
	c.wait = append(c.wait, w)
	c.L.Unlock()
	e.point("cond.wait", "", func() bool { return w.ok })
	e.event(g, &c.o, kCond)
	g.acquire(c.o.vc)
	c.L.Lock()
}

func (c *Cond) Signal() {
	e := ex
	if e == nil || e.dead {
		return
	}
	c.reset()
	g := e.point("cond.signal", "", alwaysEnabled)
	e.initObj(g, &c.o)
	e.event(g, &c.o, kCond)
	c.o.vc = g.release(c.o.vc)
	for i, w := range c.wait {
		w.ok = true
		c.wait = append(c.wait[:i:i], c.wait[i+1:]...)
		break
	}
}

func (c *Cond) Broadcast() {
	e := ex
	if e == nil || e.dead {
		return
	}
	c.reset()
	g := e.point("cond.broadcast", "", alwaysEnabled)
	e.initObj(g, &c.o)
	e.event(g, &c.o, kCond)
	c.o.vc = g.release(c.o.vc)
	for _, w := range c.wait {
		w.ok = true
	}
	c.wait = nil
}

// Atom is the scheduling and ordering state of one atomic variable. Its value
// survives executions like any other memory.
type Atom struct {
	ep int64
	o  obj
}

// Load announces an atomic read.
func (a *Atom) Load() {
	e := ex
	if e == nil || e.dead {
		return
	}
	if a.ep != epoch {
		*a = Atom{ep: epoch}
	}
	g := e.point("atomic load", "", alwaysEnabled)
	e.initObj(g, &a.o)
	e.eventR(g, &a.o, kAtomicR)
	g.acquire(a.o.vc)
}

// Store announces an atomic write or read-modify-write.
func (a *Atom) Store() {
	e := ex
	if e == nil || e.dead {
		return
	}
	if a.ep != epoch {
		*a = Atom{ep: epoch}
	}
	g := e.point("atomic store", "", alwaysEnabled)
	e.initObj(g, &a.o)
	e.event(g, &a.o, kAtomicW)
	g.acquire(a.o.vc)
	a.o.vc = g.release(a.o.vc)
}

// AtomFor is the state of an atomic variable accessed by address.
func AtomFor(p unsafe.Pointer) *Atom {
	e := ex
	if e == nil || e.dead {
		return &Atom{}
	}
	m := Local("atoms", func() any { return map[unsafe.Pointer]*Atom{} }).(map[unsafe.Pointer]*Atom)
	a := m[p]
	if a == nil {
		a = &Atom{}
		m[p] = a
	}
	return a
}

// ---- time

type vtimer struct {
	o      obj
	id     uint64
	when   int64
	seq    int
	period int64
	active bool
	vc     vclock
	c      *chanS // nil for functions
	fn     func() // AfterFunc or context deadline (run by the clock when inline)
	inline bool
	name   string
}

// Now is the virtual time.
func Now() time.Time {
	e := ex
	if e == nil {
		return Base
	}
	g := e.cur
	if !e.dead {
		if e.ctl.cfg.ClockDev > 0 {
			e.point("now", "", alwaysEnabled)
		}
		e.eventR(g, &e.clock, kNow)
	}
	return Base.Add(time.Duration(e.now + g.lam))
}

// Elapsed is the virtual time since the start of the execution, without the
// sub-microsecond ordering component.
func Elapsed() time.Duration {
	if ex == nil {
		return 0
	}
	return time.Duration(ex.now)
}

// Step is the current global step number; it orders observations of one
// execution.
func Step() int {
	if ex == nil {
		return 0
	}
	return ex.steps
}

func (e *exec) arm(t *vtimer, d int64) {
	if d < 0 {
		d = 0
	}
	g := e.cur
	// arming reads the clock
	e.eventR(g, &e.clock, kTimer)
	if t.id == 0 {
		t.id = mix(g.last, 0x71e3)
		t.o.h = t.id
	}
	e.event(g, &t.o, kTimer)
	t.vc = g.release(nil)
	t.when = e.now + d
	e.tseq++
	t.seq = e.tseq
	if !t.active {
		t.active = true
		e.timers = append(e.timers, t)
	}
}

func (e *exec) disarm(t *vtimer) bool {
	if !t.active {
		return false
	}
	t.active = false
	for i, x := range e.timers {
		if x == t {
			e.timers = append(e.timers[:i:i], e.timers[i+1:]...)
			break
		}
	}
	return true
}

// VTimer is a virtual timer.
type VTimer struct{ t vtimer }

// NewChanTimer arms a timer delivering to ch.
func NewChanTimer(ch chan time.Time, d, period time.Duration) *VTimer {
	v := &VTimer{}
	v.t.period = int64(period)
	e := ex
	if e == nil || e.dead {
		return v
	}
	v.t.c = e.chanOf(*(*unsafe.Pointer)(unsafe.Pointer(&ch)), 1)
	v.t.name = "timer"
	if e.ctl.cfg.ClockDev > 0 {
		e.point("timer", "", alwaysEnabled)
	}
	e.arm(&v.t, int64(d))
	return v
}

// NewFuncTimer runs fn when it fires: in its own goroutine, or inside the
// clock step when inline (fn must then not block).
func NewFuncTimer(d time.Duration, inline bool, fn func()) *VTimer {
	v := &VTimer{}
	v.t.fn = fn
	v.t.inline = inline
	v.t.name = "timer func"
	e := ex
	if e == nil || e.dead {
		return v
	}
	if e.ctl.cfg.ClockDev > 0 && !inline {
		e.point("timer", "", alwaysEnabled)
	}
	e.arm(&v.t, int64(d))
	return v
}

// Stop is time.Timer.Stop (Go 1.23 semantics: a fired but unreceived value is
// discarded and counts as stopped).
func (v *VTimer) Stop() bool {
	e := ex
	if e == nil || e.dead {
		return false
	}
	g := e.point("timer stop", "", alwaysEnabled)
	e.event(g, &v.t.o, kTimer)
	was := e.disarm(&v.t)
	if c := v.t.c; c != nil && len(c.buf) > 0 {
		e.event(g, &c.obj, kRecv)
		c.buf = nil
		c.ridx = c.sidx
		was = true
	}
	return was
}

// Discard disarms the timer as part of a larger atomic step.
func (v *VTimer) Discard() {
	if e := ex; e != nil && !e.dead {
		e.disarm(&v.t)
	}
}

// Reset is time.Timer.Reset.
func (v *VTimer) Reset(d time.Duration, period time.Duration) bool {
	e := ex
	if e == nil || e.dead {
		return false
	}
	was := v.Stop()
	v.t.period = int64(period)
	e.arm(&v.t, int64(d))
	return was
}

func (e *exec) timerDueWithin() bool { return len(e.timers) > 0 }

// advance lets the clock fire one of the earliest timers. It returns false
// when the execution is over.
func (e *exec) advance(cur *G, early bool) bool {
	if len(e.timers) == 0 {
		e.deadlock(cur)
		return false
	}
	var due []*vtimer
	min := e.timers[0].when
	for _, t := range e.timers {
		if t.when < min {
			min = t.when
		}
	}
	for _, t := range e.timers {
		if t.when == min {
			due = append(due, t)
		}
	}
	sort.SliceStable(due, func(i, j int) bool { return due[i].seq < due[j].seq })
	if min > e.ctl.cfg.MaxTime {
		e.atHorizon(cur)
		return false
	}
	k := 0
	if len(due) > 1 && e.ctl.cfg.TimerOrder {
		i, ok := e.choose(len(due), nil, mix3(e.fp, 0xc10c, uint64(min)))
		if !ok {
			return false
		}
		k = i
	}
	t := due[k]
	if min > e.now {
		e.now = min
	}
	if !early {
		e.qepoch++ // nothing can run: what is announced is waiting
	}
	e.sinceT = 0
	cg := e.clockG
	e.event(cg, &e.clock, kFire)
	e.event(cg, &t.o, kFire)
	e.setLast(cg, mix(cg.last, t.id))
	if e.ctl.tracing {
		e.trace = append(e.trace, fmt.Sprintf("clock -> %.3fs: %s fires", float64(e.now)/1e9, t.name))
	}
	if t.period > 0 {
		t.when += t.period
		e.tseq++
		t.seq = e.tseq
	} else {
		e.disarm(t)
	}
	if t.c != nil {
		if len(t.c.buf) < t.c.cap {
			if !t.c.ini {
				t.c.ini = true
				t.c.h = mix(t.id, 5)
			}
			e.event(cg, &t.c.obj, kSend)
			s := t.c.slot(t.c.sidx)
			t.c.sidx++
			*s = s.join(t.vc)
			t.c.buf = append(t.c.buf, Base.Add(time.Duration(e.now+cg.lam)))
		}
		return true
	}
	if t.inline {
		save := e.cur
		e.cur = cg
		cg.vc = t.vc.copy()
		t.fn()
		e.cur = save
		return true
	}
	g := newG(e, nil, "AfterFunc")
	g.id = mix3(cg.last, t.id, 9)
	e.fp -= mix(1, 1)
	g.last = mix(cg.last, kStart)
	g.lam = cg.lam
	g.vc = t.vc.copy().tick(g.num)
	e.fp += mix(g.id, g.last)
	startG(e, g, t.fn)
	return true
}

func (e *exec) deadlock(cur *G) {
	m := e.gs[0]
	v := &Violation{Kind: "deadlock", Msg: fmt.Sprintf("deadlock: the driver waits forever at %s %s and nothing can run", m.what, m.obj)}
	e.fail(v)
}

func (e *exec) atHorizon(cur *G) {
	m := e.gs[0]
	e.fail(&Violation{Kind: "stuck", Msg: fmt.Sprintf("the driver is still waiting at %s %s after %v of virtual time", m.what, m.obj, time.Duration(e.ctl.cfg.MaxTime))})
}

// CtxLocked performs f as one atomic visible step of the current goroutine on
// shared object o (used for contexts).
type Obj struct {
	ep int64
	o  obj
}

func (o *Obj) reset() {
	if o.ep != epoch {
		*o = Obj{ep: epoch}
	}
}

// Read is a visible read-like step on o.
func (o *Obj) Read(what string) {
	e := ex
	if e == nil || e.dead {
		return
	}
	o.reset()
	g := e.point(what, "", alwaysEnabled)
	e.initObj(g, &o.o)
	e.eventR(g, &o.o, kCtx)
	g.acquire(o.o.vc)
}

// Write is a visible write-like step on o.
func (o *Obj) Write(what string) {
	e := ex
	if e == nil || e.dead {
		return
	}
	o.reset()
	g := e.point(what, "", alwaysEnabled)
	o.touch(e, g)
}

// Touch is a write-like event without a scheduling point.
func (o *Obj) Touch() {
	e := ex
	if e == nil || e.dead {
		return
	}
	o.reset()
	o.touch(e, e.cur)
}

// TouchR is a read-like event without a scheduling point.
func (o *Obj) TouchR() {
	e := ex
	if e == nil || e.dead {
		return
	}
	o.reset()
	e.initObj(e.cur, &o.o)
	e.eventR(e.cur, &o.o, kCtx)
	e.cur.acquire(o.o.vc)
}

func (o *Obj) touch(e *exec, g *G) {
	e.initObj(g, &o.o)
	e.event(g, &o.o, kCtx)
	g.acquire(o.o.vc)
	if g == e.clockG {
		o.o.vc = o.o.vc.join(g.vc)
		return
	}
	o.o.vc = g.release(o.o.vc)
}

// CloseNow closes a channel without a scheduling point (part of a larger
// atomic step).
func CloseNow[T any](ch chan T) {
	e := ex
	if e == nil {
		close(ch)
		return
	}
	if e.dead {
		return
	}
	c := e.chanOf(*(*unsafe.Pointer)(unsafe.Pointer(&ch)), cap(ch))
	g := e.cur
	e.initObj(g, &c.obj)
	if c.closed {
		return
	}
	ws, _ := e.allWaiting(c, false, g)
	e.event(g, &c.obj, kClose)
	c.closed = true
	if g == e.clockG {
		c.clvc = g.vc.copy()
	} else {
		c.clvc = g.release(nil)
	}
	e.wakeClosed(g, c, ws)
}

// WaitUntil blocks the calling driver goroutine until cond holds. cond is
// evaluated between steps and must not have side effects; o orders the wait
// after the updates announced on it.
func WaitUntil(what string, o *Obj, cond func() bool) {
	e := ex
	if e == nil {
		return
	}
	if e.dead {
		panicExit()
	}
	o.reset()
	g := e.point(what, "", cond)
	o.touch(e, g)
}

// WaitChan blocks the calling goroutine, in one step, until cond holds (true)
// or done is closed (false). When both hold either result is explored. cond is
// evaluated between steps and must not have side effects; o orders the result
// after the updates announced on it.
func WaitChan(what string, o *Obj, done <-chan struct{}, cond func() bool) bool {
	e := ex
	if e == nil {
		return true
	}
	if e.dead {
		panicExit()
	}
	o.reset()
	var c *chanS
	if done != nil {
		c = e.chanOf(chanPtr(done), cap(done))
	}
	closed := func() bool { return c != nil && c.closed }
	g := e.point(what, "", func() bool { return closed() || cond() })
	ok := cond()
	if ok && closed() {
		ok = chooseSel(2) == 0
	}
	if ok {
		o.touch(e, g)
		return true
	}
	e.initObj(g, &c.obj)
	e.eventR(g, &c.obj, kRecv)
	g.acquire(c.clvc)
	return false
}

// IsClosed reports whether ch is closed, as a read of ch without a scheduling
// point.
func IsClosed(ch <-chan struct{}) bool {
	e := ex
	if e == nil || e.dead || ch == nil {
		return false
	}
	c := e.chanOf(chanPtr(ch), cap(ch))
	e.initObj(e.cur, &c.obj)
	e.eventR(e.cur, &c.obj, kLen)
	if c.closed {
		e.cur.acquire(c.clvc)
	}
	return c.closed
}

// Event is a one-shot condition of the driver.
type Event struct {
	o   Obj
	set bool
}

// Set fires the event.
func (v *Event) Set() {
	v.o.Write("event")
	v.set = true
}

// Wait blocks until the event fired.
func (v *Event) Wait() { WaitUntil("event", &v.o, func() bool { return v.set }) }

// WaitOr waits for the event or the end of done, and reports which.
func (v *Event) WaitOr(done <-chan struct{}) bool {
	return WaitChan("event", &v.o, done, func() bool { return v.set })
}

// IsSet reports whether it fired (use after Quiesce).
func (v *Event) IsSet() bool { return v.set }

type exitState struct {
	ev   Event
	o    Obj
	code int
	set  bool
}

func exitOf() *exitState {
	return Local("os.Exit", func() any { return &exitState{} }).(*exitState)
}

// Exit is os.Exit: the calling goroutine stops for good and the driver can see
// the exit code.
func Exit(code int) {
	e := ex
	if e == nil || e.dead {
		panicExit()
	}
	s := exitOf()
	s.o.Write("os.Exit")
	if !s.set {
		s.set, s.code = true, code
		s.ev.Set()
	}
	e.point("exited", "", func() bool { return false })
}

// ExitOf replaces os.Exit.
func ExitOf(func(int)) func(int) { return Exit }

// ExitEvent is set by Exit.
func ExitEvent() *Event { return &exitOf().ev }

// Exited returns the exit code given to Exit.
func Exited() (int, bool) { s := exitOf(); return s.code, s.set }
