package main

import (
	"context"
	"errors"
	"fmt"
	"os"
	"sort"
	"strings"
	"time"

	"github.com/Azure/go-amqp"
	"github.com/c-kruse/vanflow"
	"github.com/c-kruse/vanflow/eventsource"

	"vmc/vs"
)

var deep = os.Getenv("VMC_TIER") == "thorough"

var bg = context.Background()

func face(i eventsource.Info) string {
	return fmt.Sprintf("%s %s v%d %s %s", i.ID, i.Address, i.Version, i.Type, i.Direct)
}

func info(id, addr string, v int) eventsource.Info {
	return eventsource.Info{ID: id, Address: addr, Direct: addr + "-d", Version: v, Type: "T" + id}
}

type dev struct {
	kind string // D or F
	id   string
	info string
}

// dworld is a running discovery with recorded notifications.
type dworld struct {
	n      *fnet
	d      *eventsource.Discovery
	o      vs.Obj
	events []dev
	cancel context.CancelFunc
	ret    vs.Event
	err    error
	// hooks run inside the handlers
	onD, onF func(i eventsource.Info)
}

const beaconAddr = "mc/sfe.all"

func newDworld() *dworld {
	w := &dworld{n: newNet()}
	w.d = eventsource.NewDiscovery(w.n, eventsource.DiscoveryOptions{})
	return w
}

func (w *dworld) run() {
	ctx, cancel := context.WithCancel(bg)
	w.cancel = cancel
	go func() {
		w.err = w.d.Run(ctx, eventsource.DiscoveryHandlers{
			Discovered: func(i eventsource.Info) {
				w.o.Write("discovered")
				w.events = append(w.events, dev{"D", i.ID, face(i)})
				if w.onD != nil {
					w.onD(i)
				}
			},
			Forgotten: func(i eventsource.Info) {
				w.o.Write("forgotten")
				w.events = append(w.events, dev{"F", i.ID, face(i)})
				if w.onF != nil {
					w.onF(i)
				}
			},
		})
		w.ret.Set()
	}()
	w.n.open(beaconAddr, 1)
}

func (w *dworld) beacon(id, addr string) { w.n.push(beaconAddr, item{m: beacon(id, addr, 7)}) }

// operations on a discovery and their effect on the model: a map from id to
// the announced information
type dmodel map[string]string

type dop struct {
	name string
	run  func(w *dworld) string
	// mod applies the operation and returns its result and notifications
	mod    func(m dmodel) (string, []dev)
	beacon bool
}

func beaconFace(id, addr string) string {
	return face(eventsource.Info{ID: id, Address: addr, Direct: addr + "-d", Version: 7, Type: "T" + id})
}

func opBeacon(id, addr string) dop {
	return dop{"Beacon(" + id + "," + addr + ")", func(w *dworld) string { w.beacon(id, addr); return "" }, func(m dmodel) (string, []dev) {
		if _, ok := m[id]; ok {
			return "", nil
		}
		m[id] = beaconFace(id, addr)
		return "", []dev{{"D", id, m[id]}}
	}, true}
}

func opAdd(id, addr string) dop {
	return dop{"Add(" + id + "," + addr + ")", func(w *dworld) string { return fmt.Sprint(w.d.Add(info(id, addr, 3))) }, func(m dmodel) (string, []dev) {
		if _, ok := m[id]; ok {
			return "false", nil
		}
		m[id] = face(info(id, addr, 3))
		return "true", []dev{{"D", id, m[id]}}
	}, false}
}

func opForget(id string) dop {
	return dop{"Forget(" + id + ")", func(w *dworld) string { return fmt.Sprint(w.d.Forget(id)) }, func(m dmodel) (string, []dev) {
		f, ok := m[id]
		if !ok {
			return "false", nil
		}
		delete(m, id)
		return "true", []dev{{"F", id, f}}
	}, false}
}

func opGet(id string) dop {
	return dop{"Get(" + id + ")", func(w *dworld) string {
		i, ok := w.d.Get(id)
		if !ok {
			return "none"
		}
		return face(i)
	}, func(m dmodel) (string, []dev) {
		if f, ok := m[id]; ok {
			return f, nil
		}
		return "none", nil
	}, false}
}

func listOf(w *dworld) string {
	var l []string
	for _, i := range w.d.List() {
		l = append(l, face(i))
	}
	sort.Strings(l)
	return strings.Join(l, "|")
}

func opList() dop {
	return dop{"List", listOf, func(m dmodel) (string, []dev) {
		var l []string
		for _, f := range m {
			l = append(l, f)
		}
		sort.Strings(l)
		return strings.Join(l, "|"), nil
	}, false}
}

type dcall struct {
	op       dop
	inv, ret int
	res      string
}

type dhist struct {
	o   vs.Obj
	n   int
	ops []*dcall
}

func (h *dhist) do(w *dworld, op dop) {
	if op.beacon { // takes effect on the wire in one step
		op.run(w)
		h.o.Touch()
		h.n++
		h.ops = append(h.ops, &dcall{op: op, inv: h.n, ret: 1 << 30})
		return
	}
	h.o.Write("invoke " + op.name)
	h.n++
	c := &dcall{op: op, inv: h.n, ret: 1 << 30}
	h.ops = append(h.ops, c)
	c.res = op.run(w)
	h.o.Write("return " + op.name)
	h.n++
	c.ret = h.n
}

// explain searches an order of the operations that gives their results and the
// notifications of every source.
func (h *dhist) explain(init dmodel, events []dev) bool {
	per := map[string][]dev{}
	for _, e := range events {
		per[e.id] = append(per[e.id], e)
	}
	used := make([]bool, len(h.ops))
	pos := map[string]int{}
	var rec func(m dmodel, left int) bool
	rec = func(m dmodel, left int) bool {
		if left == 0 {
			for id, l := range per {
				if pos[id] != len(l) {
					return false
				}
			}
			return true
		}
	next:
		for i, o := range h.ops {
			if used[i] {
				continue
			}
			for j, q := range h.ops {
				if !used[j] && j != i && (q.ret < o.inv || o.op.beacon && q.op.beacon && q.inv < o.inv) {
					continue next
				}
			}
			c := dmodel{}
			for k, v := range m {
				c[k] = v
			}
			res, ev := o.op.mod(c)
			if res != o.res {
				continue
			}
			ok := true
			for _, e := range ev {
				p := pos[e.id]
				if p >= len(per[e.id]) || per[e.id][p] != e {
					ok = false
				}
			}
			if !ok {
				continue
			}
			for _, e := range ev {
				pos[e.id]++
			}
			used[i] = true
			if rec(c, left-1) {
				return true
			}
			used[i] = false
			for _, e := range ev {
				pos[e.id]--
			}
		}
		return false
	}
	return rec(init, len(h.ops))
}

func (h *dhist) String() string {
	var l []string
	for _, o := range h.ops {
		r := fmt.Sprint(o.ret)
		if o.ret == 1<<30 {
			r = "-"
		}
		l = append(l, fmt.Sprintf("[%d,%s] %s = %s", o.inv, r, o.op.name, o.res))
	}
	return strings.Join(l, "; ")
}

// transitions runs the programs concurrently on a discovery that knows the
// given sources and checks results and notifications.
func transitions(known []string, progs ...[]dop) { transitionsIn(nil, 0, known, progs...) }

// transitionsIn has a setup besides, and looks at the outcome after settle.
func transitionsIn(setup func(w *dworld), settle time.Duration, known []string, progs ...[]dop) {
	w := newDworld()
	m := dmodel{}
	var ev []dev
	for _, id := range known {
		w.d.Add(info(id, "k", 3))
		m[id] = face(info(id, "k", 3))
		ev = append(ev, dev{"D", id, m[id]})
	}
	w.run()
	if len(known) > 0 {
		vs.Quiesce()
	}
	if setup != nil {
		setup(w)
	}
	h := &dhist{}
	done := make(chan struct{})
	for _, p := range progs {
		go func() {
			for _, o := range p {
				h.do(w, o)
			}
			done <- struct{}{}
		}()
	}
	for range progs {
		<-done
	}
	if settle > 0 {
		time.Sleep(settle)
	}
	vs.Quiesce()
	h.do(w, opList())
	for _, e := range ev {
		if len(w.events) == 0 || w.events[0] != e {
			vs.Fail("assert", "expected first the notification %v of a source added before Run: %v", e, w.events)
		}
		w.events = w.events[1:]
	}
	if !h.explain(m, w.events) {
		vs.Fail("assert", "no order of the calls explains results and notifications: %v; notifications %v", h, w.events)
	}
	vs.Outcome("%v %v", h, w.events)
}

// opHeartbeat and opSleep have no effect on what is known.
func opHeartbeat(id, addr string) dop {
	return dop{"Heartbeat(" + id + ")", func(w *dworld) string { w.n.push(addr, item{m: heartbeat(id, 1)}); return "" }, func(m dmodel) (string, []dev) { return "", nil }, true}
}

func opSleep(d time.Duration) dop {
	return dop{fmt.Sprint("Sleep ", d), func(w *dworld) string { time.Sleep(d); return "" }, func(m dmodel) (string, []dev) { return "", nil }, false}
}

// watchedTransitions: sources come and go while a watch keeps updating one.
func watchedTransitions() {
	setup := func(w *dworld) {
		c := eventsource.NewClient(w.n, eventsource.ClientOptions{Source: info("a", "k", 3)})
		vs.Assert(c.Listen(bg, eventsource.FromSourceAddress()) == nil, "cannot listen")
		w.n.open("k", 1)
		vs.Assert(w.d.NewWatchClient(bg, eventsource.WatchConfig{Client: c, ID: "a", DiscoveryUpdateInterval: time.Second}) == nil, "cannot watch")
	}
	half := 500 * time.Millisecond
	transitionsIn(setup, 3*time.Second, []string{"a"},
		[]dop{pickd(opSleep(half), opSleep(2*half)), opHeartbeat("a", "k"), pickd(opSleep(half), opForget("a"), opBeacon("a", "b2")), opGet("a")},
		[]dop{pickd(opSleep(half), opSleep(2*half)), opForget("a"), pickd(opSleep(2*half), opAdd("a", "x2"), opBeacon("a", "b1"), opForget("a"))})
}

// promptly waits for something that should not take time.
func promptly(e *vs.Event, what string) {
	t := vs.Elapsed()
	e.Wait()
	vs.Assert(vs.Elapsed()-t <= eps, "%s only after %v", what, vs.Elapsed()-t)
}

func pickd(l ...dop) dop { return l[vs.Choose(len(l))] }

func e01(kind string, known ...string) func() {
	return func() {
		switch kind {
		case "two":
			a := []dop{opAdd("a", "x"), opForget("a"), opBeacon("a", "bx"), opGet("a")}
			b := []dop{opAdd("a", "y"), opForget("a"), opBeacon("a", "by"), opList()}
			transitions(known, []dop{pickd(a...), pickd(a[:3]...)}, []dop{pickd(b[:3]...), pickd(b...)})
		case "three":
			transitions(known,
				[]dop{pickd(opAdd("a", "x"), opForget("a"), opBeacon("a", "bx"))},
				[]dop{pickd(opAdd("a", "y"), opForget("a"), opAdd("b", "y"))},
				[]dop{pickd(opForget("a"), opBeacon("b", "bz"), opBeacon("a", "bz"), opForget("b"))})
		case "flap": // one source coming and going while another does
			transitions(known,
				[]dop{opAdd("a", "x"), opForget("a"), opAdd("a", "x2"), opForget("a")},
				[]dop{pickd(opBeacon("a", "b1"), opForget("a"), opBeacon("b", "b1")), pickd(opBeacon("a", "b2"), opForget("a"), opAdd("b", "y"))})
		}
	}
}

// E02

// busyHandlers: everything keeps working while the notification handlers are
// blocked, and all notifications arrive once they return.
func busyHandlers(n int) func() {
	return func() {
		w := newDworld()
		gate := &vs.Event{}
		blockOn := vs.Choose(2)
		hold := func(i eventsource.Info) { gate.Wait() }
		if blockOn == 0 {
			w.onD = hold
		} else {
			w.onF = hold
		}
		early := vs.Choose(2) == 0 // some before Run
		want := []dev{}
		add := func(id string) {
			vs.Assert(w.d.Add(info(id, "x", 3)), "Add(%s) of an unknown source is false", id)
			want = append(want, dev{"D", id, face(info(id, "x", 3))})
		}
		forget := func(id string) {
			vs.Assert(w.d.Forget(id), "Forget(%s) of a known source is false", id)
			want = append(want, dev{"F", id, face(info(id, "x", 3))})
		}
		if early {
			for i := 0; i < n/2; i++ {
				add(fmt.Sprintf("e%d", i))
			}
			forget("e0")
		}
		w.run()
		for i := 0; i < n; i++ {
			add(fmt.Sprintf("s%d", i))
		}
		for i := 0; i < n; i += 2 {
			forget(fmt.Sprintf("s%d", i))
		}
		vs.Quiesce()
		for i := 0; i < n; i++ {
			w.beacon(fmt.Sprintf("b%d", i), "bx")
			want = append(want, dev{"D", fmt.Sprintf("b%d", i), beaconFace(fmt.Sprintf("b%d", i), "bx")})
		}
		time.Sleep(time.Second)
		for _, r := range w.n.rcvs {
			vs.Assert(len(r.accepted) == n, "%d of %d beacons acknowledged while a handler is busy", len(r.accepted), n)
		}
		known := len(w.d.List())
		exp := n + n/2
		if early {
			exp += n/2 - 1
		}
		vs.Assert(known == exp, "%d sources known while a handler is busy, want %d", known, exp)
		_, ok := w.d.Get(fmt.Sprintf("b%d", n-1))
		vs.Assert(ok, "beacons not effective while a handler is busy")
		if vs.Choose(2) == 0 {
			gate.Set()
			time.Sleep(time.Second)
			checkEvents(w.events, want)
			w.cancel()
		} else {
			w.cancel()
			promptly(&w.ret, "Run returned after it was cancelled")
			gate.Set()
		}
		time.Sleep(time.Second)
		vs.Assert(w.ret.IsSet(), "Run did not return after its context was cancelled")
		afterStop(w)
	}
}

func afterStop(w *dworld) {
	w.d.Add(info("late", "x", 3))
	w.d.Get("late")
	w.d.List()
	w.d.Forget("late")
	w.d.Forget("late")
	for i := 0; i < 40; i++ {
		w.d.Add(info(fmt.Sprintf("late%d", i), "x", 3))
	}
	for i := 0; i < 40; i++ {
		w.d.Forget(fmt.Sprintf("late%d", i))
	}
	vs.Quiesce()
	if l := w.n.leaks(); l != "" {
		vs.Fail("assert", "after Run returned: still open: %s", l)
	}
	if l := vs.Alive(); len(l) > 0 {
		vs.Fail("assert", "after Run returned: goroutines left: %v", l)
	}
}

func checkEvents(got, want []dev) {
	per := func(l []dev) map[string]string {
		m := map[string]string{}
		for _, e := range l {
			m[e.id] += fmt.Sprintf("%s[%s] ", e.kind, e.info)
		}
		return m
	}
	g, w := per(got), per(want)
	for id := range w {
		vs.Assert(g[id] == w[id], "notifications of %s: %q, want %q", id, g[id], w[id])
	}
	for id := range g {
		vs.Assert(g[id] == w[id], "notifications of %s: %q, want %q", id, g[id], w[id])
	}
}

// slowHandlers take virtual time for every notification.
func slowHandlers() {
	w := newDworld()
	pause := func(eventsource.Info) { time.Sleep(20 * time.Millisecond) }
	w.onD, w.onF = pause, pause
	w.run()
	t0 := vs.Elapsed()
	var want []dev
	for i := 0; i < 70; i++ {
		id := fmt.Sprintf("s%d", i)
		w.d.Add(info(id, "x", 3))
		want = append(want, dev{"D", id, face(info(id, "x", 3))})
		if i%3 == 0 {
			w.d.Forget(id)
			want = append(want, dev{"F", id, face(info(id, "x", 3))})
		}
		w.beacon("b"+id, "bx")
		want = append(want, dev{"D", "b" + id, beaconFace("b"+id, "bx")})
	}
	vs.Quiesce()
	vs.Assert(vs.Elapsed() == t0, "calls waited %v for slow handlers", vs.Elapsed()-t0)
	vs.Assert(len(w.n.rcvs[0].accepted) == 70, "beacons waited for slow handlers")
	time.Sleep(time.Minute)
	checkEvents(w.events, want)
	w.cancel()
	w.ret.Wait()
	w.onD, w.onF = nil, nil
	time.Sleep(time.Second)
	afterStop(w)
}

// reentrant handlers call every method of the discovery.
func reentrant() {
	w := newDworld()
	calls := 0
	kinds := [3]int{vs.Choose(6), vs.Choose(6), 0}
	act := func(k int, i eventsource.Info) {
		if calls++; calls > 8 {
			return
		}
		switch k {
		case 0:
			w.d.Get(i.ID)
			w.d.List()
		case 1:
			w.d.Forget(i.ID)
		case 2:
			w.d.Add(info(i.ID, "again", 3))
		case 3:
			w.d.Add(info("other", "o", 3))
		case 4:
			for j := 0; j < 40; j++ {
				w.d.Add(info(fmt.Sprintf("m%d", j), "o", 3))
			}
			calls += 10
		case 5:
			c := eventsource.NewClient(w.n, eventsource.ClientOptions{Source: i})
			w.d.NewWatchClient(bg, eventsource.WatchConfig{Client: c, ID: i.ID, Timeout: time.Second})
		}
	}
	w.onD = func(i eventsource.Info) { act(kinds[0], i) }
	w.onF = func(i eventsource.Info) { act(kinds[1], i) }
	w.run()
	done := make(chan struct{})
	go func() {
		w.d.Add(info("a", "x", 3))
		w.d.Forget("a")
		close(done)
	}()
	w.beacon("a", "bx")
	w.beacon("b", "bx")
	<-done
	time.Sleep(time.Second / 2)
	w.d.List()
	w.beacon("c", "bx")
	time.Sleep(10 * time.Second)
	vs.Assert(len(w.n.rcvs[0].accepted) == 3, "beacons no longer acknowledged")
	state := map[string]int{}
	for _, e := range w.events {
		if e.kind == "D" {
			state[e.id]++
		} else {
			state[e.id]--
		}
		vs.Assert(state[e.id] == 0 || state[e.id] == 1, "notifications of %s do not alternate: %v", e.id, w.events)
	}
	for _, i := range w.d.List() {
		vs.Assert(state[i.ID] == 1, "%s is known, notifications %v", i.ID, w.events)
		delete(state, i.ID)
	}
	for id, n := range state {
		vs.Assert(n == 0, "%s is unknown, notifications %v", id, w.events)
	}
	w.cancel()
	w.ret.Wait()
	w.onD, w.onF = nil, nil
	time.Sleep(10 * time.Second)
	afterStop(w)
}

// stopAnytime cancels Run in the middle of everything.
func stopAnytime() {
	w := newDworld()
	slow := vs.Choose(3)
	gate := &vs.Event{}
	w.onD = func(i eventsource.Info) {
		switch slow {
		case 1:
			time.Sleep(time.Second)
		case 2:
			gate.Wait()
		}
	}
	w.run()
	go func() {
		w.d.Add(info("a", "x", 3))
		w.d.Forget("a")
	}()
	w.beacon("b", "x")
	if vs.Choose(2) == 1 {
		w.beacon("c", "x")
	}
	w.cancel()
	promptly(&w.ret, "Run returned after it was cancelled")
	gate.Set()
	time.Sleep(2 * time.Second)
	vs.Assert(errors.Is(w.err, context.Canceled), "Run returned %v", w.err)
	afterStop(w)
}

// rerun: what one Run leaves pending when it is cancelled, the next delivers.
func rerun() {
	w := newDworld()
	gate := &vs.Event{}
	w.onD = func(i eventsource.Info) {
		if i.ID == "a" {
			gate.Wait()
		}
	}
	w.run()
	if vs.Choose(2) == 0 {
		vs.Quiesce()
	}
	want := []dev{
		{"D", "a", face(info("a", "x", 3))}, {"D", "b", face(info("b", "x", 3))},
		{"F", "a", face(info("a", "x", 3))}, {"D", "c", beaconFace("c", "bx")},
	}
	w.d.Add(info("a", "x", 3))
	w.d.Add(info("b", "x", 3))
	settled := vs.Choose(2) == 0
	if settled {
		gate.Set()
	}
	w.cancel()
	promptly(&w.ret, "Run returned after it was cancelled")
	if settled {
		vs.Quiesce()
	}
	w.d.Forget("a")
	w.o.TouchR()
	late := len(w.events) == 0 // the first Run was cancelled before it could notify
	if late {
		gate.Set()
	}
	w.ret = vs.Event{}
	w.run()
	w.beacon("c", "bx")
	time.Sleep(time.Second)
	// the handler of the first Run may be busy: the second is not held up
	w.o.TouchR()
	vs.Assert(len(w.events) == len(want), "notified of %v by two Runs, want %v", w.events, want)
	gate.Set()
	vs.Quiesce()
	if settled {
		checkEvents(w.events, want)
	} else {
		seen := map[string]int{}
		for _, e := range w.events {
			seen[e.kind+e.id]++
		}
		for _, e := range want {
			vs.Assert(seen[e.kind+e.id] == 1, "notified of %v by two Runs, want each of %v once", w.events, want)
		}
	}
	w.cancel()
	promptly(&w.ret, "Run returned after it was cancelled")
	vs.Quiesce()
	afterStop(w)
}

// E03

type bmsg struct {
	name   string
	mk     func() *amqp.Message
	id     string // source named by it
	face   string
	reject bool // acknowledging it fails
}

func beaconAlphabet() []bmsg {
	b := func(id, addr string, v uint32) bmsg {
		return bmsg{name: fmt.Sprintf("beacon %s %s v%d", id, addr, v), mk: func() *amqp.Message { return beacon(id, addr, v) }, id: id,
			face: face(eventsource.Info{ID: id, Address: addr, Direct: addr + "-d", Version: int(v), Type: "T" + id})}
	}
	refused := b("z", "z", 1)
	refused.name, refused.reject = "refused beacon", true
	l := []bmsg{
		b("a", "x", 1), b("a", "y", 2), b("b", "x", 4000000001),
		{name: "heartbeat", mk: func() *amqp.Message { return heartbeat("a", 3) }},
		{name: "flush", mk: func() *amqp.Message { return flush("x-d") }},
		{name: "record", mk: func() *amqp.Message { return record("a") }},
		refused,
		{name: "refused junk", mk: junk[0], reject: true},
	}
	for i, j := range junk {
		l = append(l, bmsg{name: fmt.Sprint("junk", i), mk: j})
	}
	// beacons that leave things out, as announced by other versions
	part := func(name, id string, left ...string) bmsg {
		in := eventsource.Info{ID: id, Address: "p", Direct: "p-d", Version: 5, Type: "P"}
		for _, l := range left {
			switch l {
			case "address":
				in.Address = ""
			case "direct":
				in.Direct = ""
			case "sourceType":
				in.Type = ""
			case "v":
				in.Version = 0
			}
		}
		return bmsg{name: name, id: id, face: face(in), mk: func() *amqp.Message {
			m := vanflow.BeaconMessage{Version: 5, SourceType: "P", Address: "p", Direct: "p-d", Identity: id}.Encode()
			for _, l := range left {
				if name[0] == 'e' {
					m.ApplicationProperties[l] = map[string]any{"v": uint32(0)}[l]
					if l != "v" {
						m.ApplicationProperties[l] = ""
					}
				} else {
					delete(m.ApplicationProperties, l)
				}
			}
			return m
		}}
	}
	l = append(l, part("beacon a without address", "a", "address"), part("empty beacon a", "a", "v", "address", "direct", "sourceType"),
		part("beacon a without type and version", "a", "sourceType", "v"), part("beacon b without direct address", "b", "direct"))
	// a subject that is no beacon on a message that otherwise looks like one
	l = append(l, bmsg{name: "not a beacon", mk: func() *amqp.Message {
		m := beacon("a", "evil", 9)
		m.Properties.Subject = str("beacon")
		return m
	}}, bmsg{name: "beacon without subject", mk: func() *amqp.Message {
		m := beacon("c", "evil", 9)
		m.Properties.Subject = nil
		return m
	}}, bmsg{name: "beacon of nobody", mk: func() *amqp.Message {
		return &amqp.Message{Properties: &amqp.MessageProperties{Subject: str("BEACON")}}
	}})
	return l
}

// beacons: every sequence of messages on the beacon address.
func beacons(length int, custom bool) func() {
	return func() {
		alpha := beaconAlphabet()
		n := newNet()
		addr := beaconAddr
		opts := eventsource.DiscoveryOptions{}
		if custom {
			addr = "mc/other.beacons"
			opts.BeaconAddress = addr
		}
		var reject bool
		n.onAccept = func(r *frcv, m *amqp.Message) error {
			if reject {
				return errors.New("cannot settle")
			}
			return nil
		}
		w := &dworld{n: n, d: eventsource.NewDiscovery(n, opts)}
		var events []dev
		ctx, cancel := context.WithCancel(bg)
		go func() {
			w.err = w.d.Run(ctx, eventsource.DiscoveryHandlers{Discovered: func(i eventsource.Info) {
				events = append(events, dev{"D", i.ID, face(i)})
			}})
			w.ret.Set()
		}()
		n.open(addr, 1)
		model := map[string]string{}
		seen := map[string]time.Time{}
		var names []string
		acks := 0
		check := func() {
			got := map[string]eventsource.Info{}
			for _, i := range w.d.List() {
				_, dup := got[i.ID]
				vs.Assert(!dup, "source listed twice after %v", names)
				got[i.ID] = i
			}
			vs.Assert(len(got) == len(model), "after %v: knows %v, want %v", names, got, model)
			for id, f := range model {
				i, ok := got[id]
				vs.Assert(ok && face(i) == f, "after %v: knows %q as %q, want %q", names, id, face(i), f)
				vs.Assert(!i.LastSeen.Before(seen[id]) && i.LastSeen.Sub(seen[id]) < time.Millisecond, "after %v: %s last seen %v, want %v", names, id, i.LastSeen, seen[id])
				j, ok := w.d.Get(id)
				vs.Assert(ok && j == i, "after %v: Get(%s) = %v, List has %v", names, id, j, i)
			}
		}
		for k := 0; k < length; k++ {
			b := alpha[vs.Choose(len(alpha))]
			names = append(names, b.name)
			reject = b.reject
			n.push(addr, item{m: b.mk()})
			if !b.reject {
				acks++
			}
			now := vs.Now()
			vs.Quiesce()
			if b.id != "" {
				if _, ok := model[b.id]; !ok {
					model[b.id] = b.face
				}
				seen[b.id] = now
			}
			check()
			r := n.rcvs[0]
			vs.Assert(len(r.accepted) == acks && len(r.q) == 0, "after %v: %d messages acknowledged of %d, %d waiting", names, len(r.accepted), acks, len(r.q))
			vs.Assert(!w.ret.IsSet(), "Run stopped after %v: %v", names, w.err)
			time.Sleep([]time.Duration{10 * time.Millisecond, time.Second, 2 * time.Millisecond}[k%3])
			check()
		}
		nd := 0
		for _, e := range events {
			nd++
			vs.Assert(model[e.id] == e.info, "after %v: discovered %v", names, e)
		}
		vs.Assert(nd == len(model), "after %v: %d sources discovered, want %d", names, nd, len(model))
		cancel()
		promptly(&w.ret, "Run returned after it was cancelled")
		vs.Quiesce()
		vs.Assert(n.leaks() == "", "left open: %s", n.leaks())
		vs.Outcome("%v", model)
	}
}

// lastSeenMonotone: last-seen times never go back, whoever updates them.
func lastSeenMonotone() {
	w := newDworld()
	w.run()
	w.beacon("a", "x")
	vs.Quiesce()
	i, _ := w.d.Get("a")
	c := eventsource.NewClient(w.n, eventsource.ClientOptions{Source: i})
	ctx, cancel := context.WithCancel(bg)
	vs.Assert(w.d.NewWatchClient(ctx, eventsource.WatchConfig{Client: c, ID: "a", Timeout: 5 * time.Second, DiscoveryUpdateInterval: time.Second}) == nil, "cannot watch a known source")
	vs.Assert(c.Listen(ctx, eventsource.FromSourceAddress()) == nil, "cannot listen")
	w.n.open("x", 1)
	phase := vs.Choose(4)
	done := make(chan struct{})
	go func() {
		time.Sleep(900 * time.Millisecond)
		if phase >= 2 {
			// all at once, with the update
			time.Sleep(100 * time.Millisecond)
			if phase == 2 {
				w.beacon("a", "x")
			}
			for i := 0; i < 5-phase; i++ {
				w.n.push("x", item{m: heartbeat("a", 1)})
			}
			if phase == 3 {
				w.beacon("a", "x")
			}
			close(done)
			return
		}
		w.n.push("x", item{m: heartbeat("a", 1)})
		if phase == 0 {
			time.Sleep(50 * time.Millisecond)
			w.beacon("a", "x")
		} else {
			time.Sleep(100 * time.Millisecond)
			w.beacon("a", "x")
		}
		time.Sleep(900 * time.Millisecond)
		w.n.push("x", item{m: record("r")})
		w.beacon("a", "x")
		close(done)
	}()
	var last time.Time
	for k := 0; k < 12; k++ {
		i, ok := w.d.Get("a")
		vs.Assert(ok, "source lost")
		vs.Assert(!i.LastSeen.Before(last), "last seen went back from %v to %v", last, i.LastSeen)
		last = i.LastSeen
		time.Sleep(250 * time.Millisecond)
	}
	<-done
	cancel()
	w.cancel()
	w.ret.Wait()
}

// lastSeenClock: a beacon and messages on a watch whose periodic update is due
// while the beacon is being handled.
func lastSeenClock() {
	w := newDworld()
	w.run()
	w.beacon("a", "x")
	vs.Quiesce()
	i, _ := w.d.Get("a")
	c := eventsource.NewClient(w.n, eventsource.ClientOptions{Source: i})
	ctx, cancel := context.WithCancel(bg)
	vs.Assert(w.d.NewWatchClient(ctx, eventsource.WatchConfig{Client: c, ID: "a"}) == nil, "cannot watch a known source")
	vs.Assert(c.Listen(ctx, eventsource.FromSourceAddress()) == nil, "cannot listen")
	w.n.open("x", 1)
	time.Sleep(time.Second)
	vs.Quiesce()
	w.beacon("a", "x")
	for i := 0; i < 3; i++ {
		w.n.push("x", item{m: heartbeat("a", 1)})
	}
	var last time.Time
	read := make(chan time.Time)
	go func() {
		i, _ := w.d.Get("a")
		read <- i.LastSeen
	}()
	last = <-read
	for k := 0; k < 3; k++ {
		vs.Quiesce()
		i, ok := w.d.Get("a")
		vs.Assert(ok, "source lost")
		vs.Assert(!i.LastSeen.Before(last), "last seen went back from %v to %v", last, i.LastSeen)
		last = i.LastSeen
		time.Sleep(time.Second)
	}
	cancel()
	w.cancel()
	w.ret.Wait()
}

// addKnown: adding a source that is known already changes nothing, whatever is
// known of it.
func addKnown() {
	w := newDworld()
	w.run()
	first := []eventsource.Info{{ID: "a"}, {ID: "a", Address: "x"}, {ID: "a", Version: 2, Type: "T"}, info("a", "x", 3)}[vs.Choose(4)]
	byBeacon := vs.Choose(2) == 0
	if byBeacon {
		w.n.push(beaconAddr, item{m: vanflow.BeaconMessage{Version: uint32(first.Version), SourceType: first.Type, Address: first.Address, Direct: first.Direct, Identity: first.ID}.Encode()})
		vs.Quiesce()
	} else {
		vs.Assert(w.d.Add(first), "Add of an unknown source is false")
	}
	is := func(when string) {
		i, ok := w.d.Get("a")
		l := w.d.List()
		vs.Assert(ok && face(i) == face(first) && len(l) == 1 && l[0] == i, "%s: known as %v and %v, want %v", when, i, l, first)
	}
	is("at first")
	for _, again := range []eventsource.Info{info("a", "y", 9), {ID: "a"}, info("a", "x", 3)} {
		vs.Assert(!w.d.Add(again), "Add of a known source is true")
		is("after another Add")
	}
	vs.Quiesce()
	vs.Assert(w.d.Forget("a") && !w.d.Forget("a"), "Forget of a known source is false or true twice")
	vs.Quiesce()
	checkEvents(w.events, []dev{{"D", "a", face(first)}, {"F", "a", face(first)}})
	w.cancel()
	w.ret.Wait()
}
