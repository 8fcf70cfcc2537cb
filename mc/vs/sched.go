// Package vs is a stateless model checker runtime for Go code whose
// synchronisation has been redirected to it by the instrumenter (../instr).
//
// Exactly one goroutine of the checked program runs at a time. Before every
// visible operation (lock acquisition, channel operation, atomic access, ...)
// the running goroutine asks the scheduler which goroutine continues; every
// such decision is a recorded choice, so an execution is a function of its
// choice sequence and can be replayed, and the explorer (explore.go)
// enumerates choice sequences.
package vs

import (
	"fmt"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"unsafe"
)

// G is one goroutine of the checked program.
type G struct {
	num    int    // creation order in this execution
	id     uint64 // schedule independent identity
	name   string
	wake   chan struct{}
	last   uint64 // hash of the last event (covers everything it depends on)
	nowait bool   // executing an operation that need not wait
	mark   uint64 // last when it was resumed
	lam    int64  // lamport time
	vc     vclock
	spawn  uint64

	en     func() bool // enabledness of the announced operation
	what   string
	obj    string
	idle   bool // only runs when nothing else can
	low    bool // runs when no other can
	parked int  // quiescence epoch at which the operation was announced

	waits     []waitCase // announced channel cases
	completed bool       // a partner completed the announced channel operation
	selIdx    int
	recvVal   any
	recvOK    bool

	done    bool
	started bool
	harness bool
}

type waitCase struct {
	c    *chanS
	send bool
	val  any
}

type endReason int

const (
	endRunning endReason = iota
	endDone
	endViolation
	endPruned
	endHorizon
)

// exec is one execution.
type exec struct {
	gs   []*G
	cur  *G
	dead bool

	ctl      *explorer
	finished chan struct{}
	killed   chan struct{}
	reason   endReason
	viol     *Violation

	fp        uint64 // sum over goroutines of mix(id,last)
	steps     int
	ticks     int
	moreTicks int
	runlen    int // consecutive steps of cur
	sinceT    int // steps since the clock moved or something idle ran
	qepoch    int
	choices   []int
	points    []cpoint
	used      cost

	now    int64 // virtual ns since base
	timers []*vtimer
	tseq   int

	chans   map[unsafe.Pointer]*chanS
	cells   map[unsafe.Pointer]*cell
	clock   obj
	clockG  *G
	outcome []string
	trace   []string
	onEnd   []func()
	local   map[string]any
}

type cost struct{ p, c int16 }

type cpoint struct {
	n     int
	base  cost   // used before this point
	costs []cost // nil: all free
	key   uint64
}

var ex *exec // current execution, nil outside

// epoch distinguishes executions for objects that outlive one.
var epoch int64

// Violation describes a failed execution.
type Violation struct {
	Kind   string   `json:"kind"`
	Msg    string   `json:"msg"`
	Detail string   `json:"detail,omitempty"`
	Trace  []string `json:"trace,omitempty"`
}

func mix(a, b uint64) uint64 {
	x := a ^ (b+0x9e3779b97f4a7c15)*0xbf58476d1ce4e5b9
	x ^= x >> 30
	x *= 0xbf58476d1ce4e5b9
	x ^= x >> 27
	x *= 0x94d049bb133111eb
	x ^= x >> 31
	return x
}

func mix3(a, b, c uint64) uint64 { return mix(mix(a, b), c) }

func hashString(s string) uint64 {
	h := uint64(14695981039346656037)
	for i := 0; i < len(s); i++ {
		h ^= uint64(s[i])
		h *= 1099511628211
	}
	return h
}

// obj is the dependency state of a shared object.
type obj struct {
	h   uint64 // last write-like event
	rh  uint64 // accumulated read-like events since
	lam int64  // lamport time of the last write-like event
	rl  int64  // largest lamport time of the read-like events since
	vc  vclock
	id  uint64
	ini bool
}

func (e *exec) setLast(g *G, h uint64) {
	e.fp -= mix(g.id, g.last)
	g.last = h
	e.fp += mix(g.id, h)
}

// event records a write-like event of g on o.
func (e *exec) event(g *G, o *obj, kind uint64) {
	h := mix(mix3(g.last, o.h, o.rh), kind)
	o.rh = 0
	o.h = h
	if o.lam > g.lam {
		g.lam = o.lam
	}
	if o.rl > g.lam {
		g.lam = o.rl
	}
	g.lam++
	o.lam, o.rl = g.lam, 0
	e.setLast(g, h)
}

// eventR records a read-like event (commutes with other read-like events).
func (e *exec) eventR(g *G, o *obj, kind uint64) {
	h := mix(mix(g.last, o.h), kind)
	o.rh += h
	if o.lam > g.lam {
		g.lam = o.lam
	}
	g.lam++
	if g.lam > o.rl {
		o.rl = g.lam
	}
	e.setLast(g, h)
}

// eventLocal records an event without a shared object (data choices etc.).
func (e *exec) eventLocal(g *G, kind, data uint64) {
	g.lam++
	e.setLast(g, mix3(g.last, kind, data))
}

const (
	kLock uint64 = iota + 1
	kUnlock
	kRLock
	kRUnlock
	kWLock1
	kWLock2
	kTry
	kSend
	kRecv
	kClose
	kRendez
	kSel
	kDefault
	kLen
	kAtomicR
	kAtomicW
	kWgAdd
	kWgWait
	kSpawn
	kStart
	kEnd
	kChoose
	kQuiesce
	kFire
	kNow
	kTimer
	kCtx
	kCond
	kYield
	kResume
)

func newG(e *exec, parent *G, name string) *G {
	g := &G{num: len(e.gs), name: name, wake: make(chan struct{}, 1)}
	if parent != nil {
		parent.spawn++
		g.id = mix3(parent.id, parent.spawn, 77)
		e.eventLocal(parent, kSpawn, parent.spawn)
		g.last = mix(parent.last, kStart)
		g.lam = parent.lam
		g.vc = parent.vc.copy()
		if parent.num >= 0 {
			parent.vc = parent.vc.tick(parent.num)
		}
		g.harness = parent.harness
	} else {
		g.id = 1
		g.last = 1
	}
	g.vc = g.vc.tick(g.num)
	e.fp += mix(g.id, g.last)
	g.mark = g.last
	e.gs = append(e.gs, g)
	return g
}

// Go runs fn as a goroutine of the checked program.
func Go(fn func()) {
	e := ex
	if e == nil {
		go fn()
		return
	}
	if e.dead {
		return
	}
	g := newG(e, e.cur, callerName())
	g.harness = false
	startG(e, g, fn)
}

// GoHarness is like Go for goroutines of the driver; they are not counted as
// leaked.
func GoHarness(name string, fn func()) {
	e := ex
	if e == nil || e.dead {
		return
	}
	g := newG(e, e.cur, name)
	g.harness = true
	startG(e, g, fn)
}

func callerName() string {
	var pcs [1]uintptr
	if runtime.Callers(3, pcs[:]) == 0 {
		return "?"
	}
	f, _ := runtime.CallersFrames(pcs[:]).Next()
	n := f.Function
	if i := strings.LastIndexByte(n, '/'); i >= 0 {
		n = n[i+1:]
	}
	return n
}

func startG(e *exec, g *G, fn func()) {
	g.en = alwaysEnabled
	g.what = "start"
	go func() {
		<-g.wake
		defer func() {
			if e.dead {
				recover() // panics while unwinding a killed goroutine mean nothing
				g.done = true
				e.killed <- struct{}{}
				return
			}
			if r := recover(); r != nil {
				msg := fmt.Sprintf("panic: %v", r)
				stack := trimStack(debug.Stack())
				g.done = true
				e.fail(&Violation{Kind: "panic", Msg: msg, Detail: "goroutine " + g.name + "\n" + stack})
				return
			}
			e.endG(g)
		}()
		if e.dead {
			return
		}
		g.en = nil
		fn()
	}()
}

func trimStack(b []byte) string {
	lines := strings.Split(string(b), "\n")
	var out []string
	for i := 0; i+1 < len(lines); i++ {
		l := lines[i]
		if strings.HasPrefix(l, "vmc/vs.") || strings.HasPrefix(l, "runtime") || strings.HasPrefix(l, "panic(") || strings.HasPrefix(l, "goroutine ") {
			if strings.HasPrefix(lines[i+1], "\t") {
				i++
			}
			continue
		}
		out = append(out, l)
	}
	if len(out) > 30 {
		out = out[:30]
	}
	return strings.Join(out, "\n")
}

// endG is called by a goroutine whose function returned (or called Goexit).
func (e *exec) endG(g *G) {
	e.eventLocal(g, kEnd, 0)
	g.done = true
	if g.num == 0 {
		e.finish(endDone)
		return
	}
	next := e.pick(nil)
	if next == nil { // execution ended in pick
		return
	}
	e.cur = next
	e.runlen = 0
	next.wake <- struct{}{}
	// this goroutine is gone; killed is not awaited for it because done is set
	// before the execution ends
}

func (e *exec) finish(r endReason) {
	if e.reason != endRunning {
		return
	}
	e.reason = r
	e.finished <- struct{}{}
}

func (e *exec) fail(v *Violation) {
	if e.reason != endRunning {
		return
	}
	v.Trace = append([]string(nil), e.trace...)
	v.Detail += e.describe()
	e.viol = v
	e.finish(endViolation)
}

func (e *exec) describe() string {
	var b strings.Builder
	fmt.Fprintf(&b, "\nvirtual time %.3fs, %d steps; goroutines:\n", float64(e.now)/1e9, e.steps)
	for _, g := range e.gs {
		if g.done {
			continue
		}
		st := g.what
		if g.en == nil {
			st = "running"
		}
		fmt.Fprintf(&b, "  g%d %s: %s %s\n", g.num, g.name, st, g.obj)
	}
	return b.String()
}

// park is called by a goroutine when the execution is over: it never returns.
func (e *exec) park(g *G) {
	<-g.wake
	runtime.Goexit()
}

func alwaysEnabled() bool { return true }

// point announces an operation of the current goroutine and returns when the
// scheduler lets it execute it.
func (e *exec) point(what, objd string, en func() bool) *G {
	g := e.cur
	if g.last == g.mark {
		// nothing recorded since it was resumed: it has moved all the same
		e.setLast(g, mix3(g.last, kResume, 1))
	}
	g.en = en
	g.what = what
	g.obj = objd
	g.parked = e.qepoch
	e.steps++
	e.sinceT++
	e.runlen++
	e.ticks = 0
	if e.steps > e.ctl.cfg.MaxSteps {
		e.fail(&Violation{Kind: "livelock", Msg: fmt.Sprintf("no end after %d steps", e.steps)})
		e.park(g)
	}
	if e.sinceT > e.ctl.cfg.SpinLimit {
		e.fail(&Violation{Kind: "spin", Msg: fmt.Sprintf("%d steps without blocking or time passing: the program is busy looping", e.sinceT), Detail: "last step by " + g.name})
		e.park(g)
	}
	next := e.pick(g)
	if next == nil {
		e.park(g)
	}
	if next != g {
		e.cur = next
		e.runlen = 0
		next.wake <- struct{}{}
		<-g.wake
		if e.dead {
			runtime.Goexit()
		}
	}
	g.en = nil
	g.idle = false
	g.mark = g.last
	if e.ctl.tracing {
		e.trace = append(e.trace, fmt.Sprintf("g%d %s: %s %s", g.num, g.name, what, objd))
	}
	return g
}

const fairRun = 400

// pick chooses the goroutine to run next. cur is the running goroutine (nil if
// it ended). It returns nil when the execution is over.
func (e *exec) pick(cur *G) *G {
	for {
		var buf [24]*G
		list := buf[:0]
		curEn := false
		if cur != nil && !cur.idle && cur.en() {
			curEn = true
			list = append(list, cur)
		}
		start := 0
		if cur != nil {
			start = cur.num + 1
		} else if e.cur != nil {
			start = e.cur.num + 1
		}
		n := len(e.gs)
		var idle *G
		var lows []*G
		if cur != nil && cur.low && curEn {
			list, lows = list[:0], append(lows, cur)
		}
		for k := 0; k < n; k++ {
			i := k
			if e.ctl.cfg.Delay { // round robin order from the current one
				i = (start + k) % n
			}
			g := e.gs[i]
			if g.done {
				continue
			}
			if g.idle {
				if idle == nil && g.en() {
					idle = g
				}
				continue
			}
			if g == cur {
				continue
			}
			if g.en != nil && g.en() {
				if g.low {
					lows = append(lows, g)
				} else {
					list = append(list, g)
				}
			}
		}
		slower := len(lows) > 0 && len(list) > 0
		if len(list) == 0 {
			list, lows = append(list, lows...), nil
		}
		if len(list) == 0 {
			if idle != nil {
				return idle
			}
			if !e.advance(nil, false) {
				return nil
			}
			continue
		}
		if curEn && e.runlen > fairRun && len(list)+len(lows) > 1 {
			// fairness: a goroutine that keeps running is moved to the back
			list = append(append(append([]*G{}, list[1:]...), lows...), cur)
			curEn = false
			e.runlen = 0
		}
		nalt := len(list)
		demote := false
		if e.ctl.cfg.Slow {
			// the first goes on, or is slower than all others from now on
			demote = (nalt > 1 || slower) && !list[0].low
			nalt = 1
			if demote {
				nalt = 2
			}
		}
		clk := false
		if e.ctl.cfg.ClockDev > 0 && len(e.timers) > 0 && e.used.c < int16(e.ctl.clockBound) && e.timerDueWithin() {
			clk = true
			nalt++
		}
		if nalt == 1 {
			return list[0]
		}
		var cbuf [25]cost
		costs := cbuf[:0]
		for i := 0; i < nalt; i++ {
			if clk && i == nalt-1 {
				break
			}
			c := cost{}
			if i > 0 {
				if demote {
					c.p = 1
				} else if e.ctl.cfg.Delay {
					c.p = int16(i)
				} else if curEn {
					c.p = 1
				}
			}
			costs = append(costs, c)
		}
		if clk {
			costs = append(costs, cost{c: 1})
		}
		curID := uint64(0)
		if curEn {
			curID = cur.id
		} else if e.ctl.cfg.Delay {
			curID = uint64(start)
		}
		i, ok := e.choose(nalt, costs, mix(e.fp, curID))
		if !ok {
			return nil
		}
		if clk && i == nalt-1 {
			if !e.advance(cur, true) {
				return nil
			}
			continue
		}
		if demote && i == 1 {
			list[0].low = true
			e.fp += mix(list[0].id, 0x510)
			if e.ctl.tracing {
				e.trace = append(e.trace, fmt.Sprintf("g%d %s: slower than the others from now on", list[0].num, list[0].name))
			}
			continue
		}
		return list[i]
	}
}

// choose makes one recorded choice. ok is false when the execution was pruned.
func (e *exec) choose(n int, costs []cost, key uint64) (int, bool) {
	i, pruned := e.ctl.next(e, n, costs, key)
	if pruned {
		e.finish(endPruned)
		return 0, false
	}
	return i, true
}

// Choose returns every value in [0,n) over the explored executions.
func Choose(n int) int {
	e := ex
	if e == nil || e.dead || n <= 1 {
		return 0
	}
	g := e.cur
	i, ok := e.choose(n, nil, mix3(e.fp, g.id, 0xc0ffee))
	if !ok {
		e.park(g)
	}
	e.eventLocal(g, kChoose, uint64(i))
	if e.ctl.tracing {
		e.trace = append(e.trace, fmt.Sprintf("g%d %s: choose %d of %d", g.num, g.name, i, n))
	}
	return i
}

// chooseSel is Choose for what the runtime decides at a channel operation.
func chooseSel(n int) int {
	e := ex
	if e == nil || e.dead || n <= 1 {
		return 0
	}
	if !e.ctl.cfg.SelDev {
		return Choose(n)
	}
	g := e.cur
	costs := make([]cost, n)
	for i := 1; i < n; i++ {
		costs[i].p = 1
	}
	i, ok := e.choose(n, costs, mix3(e.fp, g.id, 0x5e1))
	if !ok {
		e.park(g)
	}
	e.eventLocal(g, kChoose, uint64(i))
	if i > 0 && e.ctl.tracing {
		e.trace = append(e.trace, fmt.Sprintf("g%d %s: ready case %d of %d", g.num, g.name, i, n))
	}
	return i
}

// ChooseFault returns 0 at no cost and i>0 at the cost of one deviation from
// the fault-free environment (counted with the clock deviations).
func ChooseFault(n int) int {
	e := ex
	if e == nil || e.dead || n <= 1 {
		return 0
	}
	g := e.cur
	costs := make([]cost, n)
	for i := 1; i < n; i++ {
		costs[i].c = 1
	}
	i, ok := e.choose(n, costs, mix3(e.fp, g.id, 0xfa017))
	if !ok {
		e.park(g)
	}
	e.eventLocal(g, kChoose, uint64(i))
	if i > 0 && e.ctl.tracing {
		e.trace = append(e.trace, fmt.Sprintf("g%d %s: environment fault %d of %d", g.num, g.name, i, n))
	}
	return i
}

// Tick bounds code between two scheduling points.
func Tick() {
	e := ex
	if e == nil {
		return
	}
	e.ticks++
	if e.ticks > 300000+e.moreTicks && !e.dead {
		e.ticks = 0
		if e.reason == endRunning {
			e.fail(&Violation{Kind: "hang", Msg: "unbounded computation without synchronisation (endless loop or recursion)", Detail: trimStack(debug.Stack())})
			e.park(e.cur)
		}
	}
	if e.dead && e.ticks > 2000000 {
		runtime.Goexit()
	}
}

// AllowTicks raises the bound on computation without synchronisation, for
// large inputs.
func AllowTicks(n int) {
	if ex != nil {
		ex.moreTicks = n
	}
}

// ResetTicks restarts the bound on computation without synchronisation.
func ResetTicks() {
	if ex != nil {
		ex.ticks = 0
	}
}

// Fail reports a violation of the property being checked.
func Fail(kind, format string, args ...any) {
	e := ex
	if e == nil {
		panic(fmt.Sprintf(format, args...))
	}
	if e.dead {
		runtime.Goexit()
	}
	e.fail(&Violation{Kind: kind, Msg: fmt.Sprintf(format, args...)})
	e.park(e.cur)
}

// Assert fails the execution when cond is false.
func Assert(cond bool, format string, args ...any) {
	if !cond {
		Fail("assert", format, args...)
	}
}

// Outcome records an observation; distinct outcomes are counted to show that
// the explored executions really differ.
func Outcome(format string, args ...any) {
	if ex != nil && !ex.dead {
		ex.outcome = append(ex.outcome, fmt.Sprintf(format, args...))
	}
}

// Log adds a line to the trace of a replayed execution.
func Log(format string, args ...any) {
	if ex != nil && !ex.dead && ex.ctl.tracing {
		ex.trace = append(ex.trace, fmt.Sprintf("-- "+format, args...))
	}
}

// Quiesce waits until no other goroutine can run without time passing.
func Quiesce() {
	e := ex
	if e == nil {
		return
	}
	if e.dead {
		runtime.Goexit()
	}
	g := e.cur
	g.idle = true
	e.point("quiesce", "", alwaysEnabled)
	e.qepoch++
	e.sinceT = 0
	// depends on everything
	h := mix3(g.last, e.fp, kQuiesce)
	for _, o := range e.gs {
		if o != g {
			g.vc = g.vc.join(o.vc)
			if o.lam > g.lam {
				g.lam = o.lam
			}
		}
	}
	g.lam++
	e.setLast(g, h)
}

// Yield is a scheduling point without effect.
func Yield() {
	e := ex
	if e == nil || e.dead {
		return
	}
	g := e.point("yield", "", alwaysEnabled)
	e.eventLocal(g, kYield, 0)
}

// Alive lists the goroutines of the checked program (not of the driver) that
// have not ended.
func Alive() []string {
	e := ex
	var out []string
	if e == nil {
		return nil
	}
	for _, g := range e.gs {
		if !g.done && !g.harness && g.num != 0 {
			out = append(out, fmt.Sprintf("%s (%s %s)", g.name, g.what, g.obj))
		}
	}
	sort.Strings(out)
	return out
}

// Active reports whether the code runs under the explorer.
func Active() bool { return ex != nil && !ex.dead }

// Dead reports that the current execution is being torn down.
func Dead() bool { return ex != nil && ex.dead }

// Local returns per execution storage of the virtual environment.
func Local(key string, mk func() any) any {
	e := ex
	if e == nil {
		return mk()
	}
	v, ok := e.local[key]
	if !ok {
		v = mk()
		e.local[key] = v
	}
	return v
}

// Epoch numbers the executions of this process.
func Epoch() int64 { return epoch }

// Rand64 is a deterministic pseudo random number, a function of the history of
// the calling goroutine.
func Rand64() uint64 {
	e := ex
	if e == nil {
		return 4
	}
	g := e.cur
	if !e.dead {
		e.eventLocal(g, kChoose, 0x4a4d)
	}
	return mix(g.last, 0x4a4d)
}

// OnEnd registers a check to run when main has returned.
func OnEnd(fn func()) { ex.onEnd = append(ex.onEnd, fn) }
