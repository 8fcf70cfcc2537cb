package main

import (
	"fmt"
	"os"
	"sort"
	"strings"

	vanflow "github.com/c-kruse/vanflow"
	"github.com/c-kruse/vanflow/store"

	"vmc/vs"
)

// cop is an operation of a concurrent program together with its effect on the
// reference model; results are compared as strings.
type cop struct {
	name string
	run  func(w *cworld) string
	mod  func(m *model) string
}

type cworld struct {
	s    store.Interface
	tags map[string]string
	gens map[string]int
}

func okErr(err error) string {
	if err != nil {
		return "err"
	}
	return "ok"
}

func dumpList(l []store.Entry) string {
	var out []string
	for _, x := range l {
		out = append(out, x.Record.Identity()+":"+dumpEnt(x).String())
	}
	sort.Strings(out)
	return strings.Join(out, "|")
}

func modelList(m *model, in func(ent) bool) string {
	var out []string
	for k, v := range m.m {
		if in(v) {
			out = append(out, k+":"+v.String())
		}
	}
	sort.Strings(out)
	return strings.Join(out, "|")
}

// uval is an entry with a value of its own.
func uval(k string, v int, uniq string) store.Entry {
	e := value(k, v)
	switch r := e.Record.(type) {
	case *vanflow.SiteRecord:
		r.Version = &uniq
	case vanflow.SiteRecord:
		r.Version = &uniq
		e.Record = r
	}
	return e
}

func cAdd(k string, v int, u string) cop {
	return cop{"Add(" + k + ")", func(w *cworld) string { return okErr(w.s.Add(bg, uval(k, v, u))) }, func(m *model) string {
		if _, ok := m.m[k]; ok {
			return "err"
		}
		m.set(k, dumpEnt(uval(k, v, u)))
		return "ok"
	}}
}

func cUpd(k string, v int, u string) cop {
	return cop{"Update(" + k + ")", func(w *cworld) string { return okErr(w.s.Update(bg, uval(k, v, u))) }, func(m *model) string {
		m.set(k, dumpEnt(uval(k, v, u)))
		return "ok"
	}}
}

// cCond updates with the ETag read in the initial state.
func cCond(k string, v int, u string, w0 *cworld) cop {
	return cop{"CondUpdate(" + k + ")", func(w *cworld) string {
		return okErr(w.s.Update(store.WithIfMatch(bg, w.tags[k]), uval(k, v, u)))
	}, func(m *model) string {
		if g, ok := m.gen[k]; !ok || g != w0.gens[k] {
			return "err"
		}
		m.set(k, dumpEnt(uval(k, v, u)))
		return "ok"
	}}
}

func cAcc(k string, p int, u string) cop {
	mk := func() (store.SourceRef, vanflow.Record) {
		s, r := partial(k, p)
		if x, ok := r.(*vanflow.SiteRecord); ok && u != "" {
			x.Version = &u
		}
		return s, r
	}
	return cop{fmt.Sprintf("Accumulate(%s,p%d)", k, p), func(w *cworld) string { return okErr(w.s.Accumulate(mk())) }, func(m *model) string {
		s, r := mk()
		m.accumulate(k, s, dumpRec(r), r.GetTypeMeta())
		return "ok"
	}}
}

func cDel(k string) cop {
	return cop{"Delete(" + k + ")", func(w *cworld) string { return okErr(w.s.Delete(bg, value(k, 0))) }, func(m *model) string {
		delete(m.m, k)
		delete(m.gen, k)
		return "ok"
	}}
}

func cReplace(set map[string]int) cop {
	mk := func() []store.Entry {
		var l []store.Entry
		for _, k := range keyNames {
			if v, ok := set[k]; ok {
				l = append(l, value(k, v))
			}
		}
		return l
	}
	return cop{fmt.Sprint("Replace", set), func(w *cworld) string { return okErr(w.s.Replace(bg, mk())) }, func(m *model) string {
		m.m, m.gen = map[string]ent{}, map[string]int{}
		for _, x := range mk() {
			m.set(x.Record.Identity(), dumpEnt(x))
		}
		return "ok"
	}}
}

func cGet(k string) cop {
	return cop{"Get(" + k + ")", func(w *cworld) string {
		g, err := w.s.Get(bg, value(k, 0))
		if err != nil || !g.Found {
			return fmt.Sprint("none ", err)
		}
		return dumpEnt(g.Entry).String()
	}, func(m *model) string {
		if x, ok := m.m[k]; ok {
			return x.String()
		}
		return "none <nil>"
	}}
}

func cList(sel *store.Selector) cop {
	return cop{"List", func(w *cworld) string {
		g, err := w.s.List(bg, sel)
		return fmt.Sprint(dumpList(g.Entries), err)
	}, func(m *model) string {
		return fmt.Sprint(modelList(m, func(ent) bool { return true }), nil)
	}}
}

func siteOf(e ent) string {
	if v, ok := splitAttrs(e.ann)[siteKey]; ok {
		return v
	}
	return "unknown"
}

func cIndex(v int) cop {
	ex := value("a", v)
	b := siteOf(dumpEnt(ex))
	return cop{"Index(site " + b + ")", func(w *cworld) string {
		g, err := w.s.Index(bg, store.IndexBySite, ex, nil)
		return fmt.Sprint(dumpList(g.Entries), err)
	}, func(m *model) string {
		return fmt.Sprint(modelList(m, func(e ent) bool { return siteOf(e) == b }), nil)
	}}
}

func cVals() cop {
	return cop{"IndexValues(site)", func(w *cworld) string {
		l, err := w.s.IndexValues(bg, store.IndexBySite)
		sort.Strings(l)
		return fmt.Sprint(l, err)
	}, func(m *model) string {
		set := map[string]bool{}
		for _, e := range m.m {
			set[siteOf(e)] = true
		}
		l := []string{}
		for k := range set {
			l = append(l, k)
		}
		sort.Strings(l)
		return fmt.Sprint(l, nil)
	}}
}

type hop struct {
	op       cop
	inv, ret int
	res      string
}

// history records invocations and responses in the order they happen.
type history struct {
	o   vs.Obj
	n   int
	ops []*hop
}

func (h *history) do(w *cworld, c cop) {
	h.o.Write("invoke " + c.name)
	h.n++
	p := &hop{op: c, inv: h.n}
	h.ops = append(h.ops, p)
	p.res = c.run(w)
	h.o.Write("return " + c.name)
	h.n++
	p.ret = h.n
}

// linearizable searches an order of the operations that explains the results.
func (h *history) linearizable(init *model) bool {
	n := len(h.ops)
	used := make([]bool, n)
	var rec func(m *model, left int) bool
	rec = func(m *model, left int) bool {
		if left == 0 {
			return true
		}
		for i, o := range h.ops {
			if used[i] {
				continue
			}
			first := true
			for j, q := range h.ops {
				if !used[j] && j != i && q.ret < o.inv {
					first = false
				}
			}
			if !first {
				continue
			}
			c := m.clone()
			if o.op.mod(c) != o.res {
				continue
			}
			used[i] = true
			if rec(c, left-1) {
				return true
			}
			used[i] = false
		}
		return false
	}
	return rec(init, n)
}

func (h *history) String() string {
	var l []string
	for _, o := range h.ops {
		l = append(l, fmt.Sprintf("[%d,%d] %s = %s", o.inv, o.ret, o.op.name, o.res))
	}
	return strings.Join(l, "; ")
}

// inits are the initial states of concurrent programs.
func startState(i int, ev store.EventHandlerFuncs) (*cworld, *model) {
	w := &cworld{s: store.NewDefaultCachingStore(store.CacheConfig{EventHandlers: ev}), tags: map[string]string{}, gens: map[string]int{}}
	m := newModel()
	put := func(k string, v int) {
		x := value(k, v)
		w.s.Replace(bg, append(currentEntries(w.s), x))
		m.set(k, dumpEnt(x))
	}
	switch i {
	case 1:
		put("a", 0)
	case 2:
		put("a", 1)
		put("b", 0)
	}
	for _, k := range keyNames {
		g, _ := w.s.Get(bg, value(k, 0))
		w.tags[k] = g.ETag
		if gen, ok := m.gen[k]; ok {
			w.gens[k] = gen
		} else {
			w.gens[k] = -1
		}
	}
	return w, m
}

func currentEntries(s store.Interface) []store.Entry {
	l, _ := s.List(bg, nil)
	return l.Entries
}

// run executes the programs concurrently and checks linearizability, with a
// final look at everything.
func runPrograms(w *cworld, m *model, progs ...[]cop) *history {
	h := &history{}
	done := make(chan struct{})
	for _, p := range progs {
		go func() {
			for _, o := range p {
				h.do(w, o)
			}
			done <- struct{}{}
		}()
	}
	for range progs {
		<-done
	}
	for _, o := range []cop{cList(nil), cIndex(0), cIndex(1), cVals()} {
		h.do(w, o)
	}
	if !h.linearizable(m) {
		vs.Fail("assert", "not linearizable from %v: %v", m.key(), h)
	}
	var l []string
	for _, o := range h.ops {
		l = append(l, o.res)
	}
	vs.Outcome("%d", hash(strings.Join(l, "#")))
	return h
}

func hash(s string) (h uint32) {
	for i := 0; i < len(s); i++ {
		h = h*31 + uint32(s[i])
	}
	return
}

func pick(l []cop) cop { return l[vs.Choose(len(l))] }

// deep selects the full set of programs.
var deep = os.Getenv("VMC_TIER") == "thorough"

// some returns the operations used in the quick tier.
func some(l []cop, idx ...int) []cop {
	if deep {
		return l
	}
	var out []cop
	for _, i := range idx {
		out = append(out, l[i])
	}
	return out
}

func mutators(u string, w *cworld) []cop {
	return []cop{cAdd("a", 0, u), cAdd("b", 1, u), cUpd("a", 1, u), cUpd("a", 2, u), cCond("a", 3, u, w), cAcc("a", 0, u), cAcc("a", 1, ""), cAcc("b", 3, ""), cDel("a"), cReplace(map[string]int{"b": 2}), cReplace(map[string]int{"a": 2, "b": 1})}
}

func readers() []cop {
	return []cop{cGet("a"), cList(nil), cList(&store.Selector{Limit: 10, Ordering: store.Descending}), cIndex(0), cIndex(1), cVals()}
}

func conc(kind string, start int) func() {
	return func() {
		w, m := startState(start, store.EventHandlerFuncs{})
		switch kind {
		case "mut-mutread": // one mutation against a mutation followed by a read
			runPrograms(w, m, []cop{pick(mutators("x", w))}, []cop{pick(mutators("y", w)), pick(readers())})
		case "mut-reads": // two reads against a mutation and a read
			runPrograms(w, m, []cop{pick(some(mutators("x", w), 3, 5, 8, 10)), pick(some(mutators("y", w), 0, 1, 6, 9))}, []cop{pick(some(readers(), 0, 1, 4, 5)), pick(some(readers(), 0, 2, 3))})
		case "three":
			a := []cop{cAdd("a", 0, "x"), cUpd("a", 1, "x"), cAcc("a", 1, "x"), cDel("a"), cCond("a", 2, "x", w)}
			b := []cop{cAdd("a", 1, "y"), cUpd("a", 2, "y"), cAcc("a", 0, "y"), cDel("a"), cCond("a", 3, "y", w)}
			c := []cop{cAdd("a", 2, "z"), cAcc("a", 4, ""), cReplace(map[string]int{"b": 1}), cGet("a"), cCond("a", 1, "z", w)}
			runPrograms(w, m, []cop{pick(some(a, 0, 1, 2, 3))}, []cop{pick(some(b, 0, 2, 3, 4))}, []cop{pick(some(c, 1, 2))})
		}
	}
}

// condRace: several conditional updates from one read.
func condRace(start int) func() {
	return func() { condRaceFrom(start) }
}

func condRaceFrom(start int) {
	w, m := startState(start, store.EventHandlerFuncs{})
	other := []cop{cGet("a"), cUpd("b", 1, "o"), cAcc("a", 2, ""), cAcc("a", 1, ""), cDel("a"), cUpd("a", 1, "o"), cReplace(map[string]int{"a": 0}), cReplace(nil)}
	var re []cop
	if vs.Choose(2) == 1 {
		re = []cop{cDel("a"), cAdd("a", 0, "re")}
	} else {
		re = []cop{pick(other)}
	}
	h := runPrograms(w, m, []cop{cCond("a", 1, "x", w)}, []cop{cCond("a", 2, "y", w)}, re)
	n := 0
	for _, o := range h.ops {
		if strings.HasPrefix(o.op.name, "Cond") && o.res == "ok" {
			n++
		}
	}
	vs.Assert(n <= 1, "%d conditional updates from the same read succeeded: %v", n, h)
}

// reentrant: event handlers call back into the store.
func reentrant(start int) func() {
	return func() { reentrantFrom(start) }
}

func reentrantFrom(start int) {
	var s store.Interface
	calls := 0
	again := func() {
		calls++
		if calls > 6 {
			return
		}
		s.Get(bg, value("a", 0))
		s.List(bg, nil)
		s.IndexValues(bg, store.IndexBySource)
		_, r := partial("b", calls%2)
		s.Accumulate(srcs[0], r)
		s.Index(bg, store.IndexBySite, value("a", 0), nil)
	}
	w, _ := startState(start, store.EventHandlerFuncs{
		OnAdd:    func(store.Entry) { again() },
		OnChange: func(_, _ store.Entry) { again() },
		OnDelete: func(store.Entry) { again(); s.Delete(bg, value("b", 0)) },
	})
	s = w.s
	calls = 0
	done := make(chan bool)
	for i := 0; i < 2; i++ {
		o := pick(mutators(fmt.Sprint("u", i), w)[:9])
		go func() { o.run(w); done <- true }()
	}
	<-done
	<-done
	vs.Outcome("%d", calls)
}

// chains: the events of concurrent writers connect to one chain per key.
func chains(three bool, start int) func() {
	return func() {
		var evs []event
		var o vs.Obj
		rec := func(e event) {
			o.Write("event")
			evs = append(evs, e)
		}
		w, m := startState(start, store.EventHandlerFuncs{
			OnAdd:    func(x store.Entry) { rec(event{"add", ent{}, dumpEnt(x)}) },
			OnChange: func(p, x store.Entry) { rec(event{"change", dumpEnt(p), dumpEnt(x)}) },
			OnDelete: func(x store.Entry) { rec(event{"delete", dumpEnt(x), ent{}}) },
		})
		evs = nil
		start := m.m["a"]
		ops := func(u string) []cop {
			return []cop{cAdd("a", 0, u), cUpd("a", 1, u), cCond("a", 2, u, w), cAcc("a", 0, u), cAcc("a", 2, ""), cDel("a")}
		}
		if three {
			runPrograms(w, m, []cop{pick(some(ops("x"), 0, 1, 3, 5))}, []cop{pick(some(ops("y"), 1, 2, 3, 4, 5))}, []cop{pick(some(ops("z"), 3, 5))})
		} else {
			runPrograms(w, m, []cop{pick(ops("x")), pick(ops("z"))}, []cop{pick(ops("y")), cAcc("a", 1, "")})
		}
		var end ent
		if g, _ := w.s.Get(bg, value("a", 0)); g.Found {
			end = dumpEnt(g.Entry)
		}
		for _, e := range evs {
			if (e.prev == ent{}) != (e.kind == "add") || (e.curr == ent{}) != (e.kind == "delete") {
				vs.Fail("assert", "event %v", e)
			}
		}
		used := make([]bool, len(evs))
		var walk func(at ent, left int) bool
		walk = func(at ent, left int) bool {
			if left == 0 {
				return at == end
			}
			for i, e := range evs {
				if !used[i] && e.prev == at {
					used[i] = true
					if walk(e.curr, left-1) {
						return true
					}
					used[i] = false
				}
			}
			return false
		}
		if !walk(start, len(evs)) {
			vs.Fail("assert", "the events %v do not connect %v to %v", evs, start, end)
		}
	}
}
