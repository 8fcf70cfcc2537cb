package main

import (
	"fmt"
	"sort"
	"strings"
	"time"

	vanflow "github.com/c-kruse/vanflow"
	"github.com/c-kruse/vanflow/store"

	"vmc/hx"
	"vmc/vs"
)

// op is one operation of a sequence.
type op struct {
	kind string
	k    string
	v    int
	set  []int // replace: value variant per key index, -1 absent
	flow bool
	tag  int // conditional update: index of the observed ETag, -1 the newest, -2 garbage
}

func (o op) String() string {
	switch o.kind {
	case "replace":
		return fmt.Sprintf("Replace%v.%d", o.set, o.v)
	case "cond":
		return fmt.Sprintf("CondUpdate(%s,v%d,etag%d)", o.k, o.v, o.tag)
	case "acc":
		f := ""
		if o.flow {
			f = "flow"
		}
		return fmt.Sprintf("Accumulate(%s,%sp%d)", o.k, f, o.v)
	}
	return fmt.Sprintf("%s(%s,v%d)", o.kind, o.k, o.v)
}

var keyNames = []string{"a", "b"}

type event struct {
	kind       string
	prev, curr ent
}

type seen struct {
	what string
	rec  vanflow.Record
	was  rec
}

type tagT struct {
	key string
	gen int
	tag string
}

// world runs one sequence.
type world struct {
	e      *hx.E
	prop   string
	c      conf
	s      store.Interface
	m      *model
	events []event
	seen   []seen
	tags   []tagT
	last   map[string]string // last ETag read per key
	lastG  map[string]int
	upd    map[string]time.Time
	prefix string
}

func newWorld(e *hx.E, prop string, c conf) *world {
	w := &world{e: e, prop: prop, c: c, m: newModel(), last: map[string]string{}, lastG: map[string]int{}, upd: map[string]time.Time{}}
	cfg := c.cfg
	h := store.EventHandlerFuncs{
		OnAdd: func(x store.Entry) {
			w.keep("OnAdd", x)
			w.events = append(w.events, event{"add", ent{}, dumpEnt(x)})
			w.scribble(x)
		},
		OnChange: func(p, x store.Entry) {
			w.keep("OnChange prev", p)
			w.keep("OnChange", x)
			w.events = append(w.events, event{"change", dumpEnt(p), dumpEnt(x)})
			w.scribble(p)
			w.scribble(x)
		},
		OnDelete: func(x store.Entry) {
			w.keep("OnDelete", x)
			w.events = append(w.events, event{"delete", dumpEnt(x), ent{}})
			w.scribble(x)
		},
	}
	if c.without != "" {
		if strings.Contains(c.without, "add") {
			h.OnAdd = nil
		}
		if strings.Contains(c.without, "change") {
			h.OnChange = nil
		}
		if strings.Contains(c.without, "delete") {
			h.OnDelete = nil
		}
	}
	cfg.EventHandlers = h
	w.s = store.NewDefaultCachingStore(cfg)
	if c.cfg.Key != nil {
		w.prefix = "k/"
	}
	return w
}

func (w *world) is(props ...string) bool {
	for _, p := range props {
		if p == w.prop {
			return true
		}
	}
	return false
}

// scribble is a caller that goes on using the annotations of an entry.
func (w *world) scribble(x store.Entry) {
	if a := x.Meta.Annotations; a != nil && w.is("S01", "S05") {
		a[siteKey], a["note"] = "scribbled", "scribbled"
	}
}

func (w *world) keep(what string, x store.Entry) {
	if w.is("S03") {
		w.seen = append(w.seen, seen{what, x.Record, dumpRec(x.Record)})
	}
}

// step performs o and checks its immediate result; false means that o makes no
// sense here.
func (w *world) step(o op) bool {
	e := w.e
	e.Transitions++
	before := w.m.clone()
	w.events = w.events[:0]
	t0 := vs.Now()
	var err error
	var p string
	wantErr := false
	touched := ""
	bad := o.k == "bad"
	switch o.kind {
	case "add":
		x := value(o.k, o.v)
		d := dumpEnt(x)
		p = hx.Try(func() { err = w.s.Add(bg, x) })
		w.scribble(x)
		if _, ok := w.m.m[o.k]; ok || bad {
			wantErr = true
		} else {
			w.m.set(o.k, d)
			touched = o.k
		}
	case "update":
		x := value(o.k, o.v)
		d := dumpEnt(x)
		p = hx.Try(func() { err = w.s.Update(bg, x) })
		w.scribble(x)
		if bad {
			wantErr = true
		} else {
			w.m.set(o.k, d)
			touched = o.k
		}
	case "rmw": // read, modify, write
		g, gerr := w.s.Get(bg, value(o.k, 0))
		if gerr != nil || !g.Found {
			return false
		}
		x := g.Entry
		if x.Meta.Annotations == nil {
			x.Meta.Annotations = map[string]string{}
		}
		if x.Meta.Annotations[siteKey] = fmt.Sprint("m", o.v); o.v > 1 {
			delete(x.Meta.Annotations, siteKey)
		}
		d := dumpEnt(x)
		p = hx.Try(func() { err = w.s.Update(bg, x) })
		w.scribble(x)
		w.m.set(o.k, d)
		touched = o.k
	case "cond":
		x := value(o.k, o.v)
		d := dumpEnt(x)
		tag, gen := "", -1
		if o.tag >= 0 {
			n := 0
			found := false
			for _, t := range w.tags {
				if t.key == o.k {
					if n == o.tag {
						tag, gen, found = t.tag, t.gen, true
						break
					}
					n++
				}
			}
			if !found {
				return false
			}
		} else {
			tag = []string{"", "garbage!", "AAAA"}[-o.tag-2]
		}
		p = hx.Try(func() { err = w.s.Update(store.WithIfMatch(bg, tag), x) })
		if _, ok := w.m.m[o.k]; ok && gen == w.m.gen[o.k] {
			w.m.set(o.k, d)
			touched = o.k
		} else {
			wantErr = true
		}
	case "acc":
		src, r := partial(o.k, o.v)
		if o.flow {
			src, r = flowPartial(o.k, o.v)
		}
		d, tm := dumpRec(r), r.GetTypeMeta()
		p = hx.Try(func() { err = w.s.Accumulate(src, r) })
		if cur, ok := w.m.m[o.k]; ok && cur.r.typ != d.typ {
			wantErr = true // records of different types cannot be merged
		} else if bad {
			wantErr = true
		} else if w.m.accumulate(o.k, src, d, tm) {
			touched = o.k
		}
		if g := dumpRec(r); g != d && w.is("S03") {
			e.Fail("the accumulated record itself was changed to %v", g)
		}
	case "alien":
		if _, ok := w.m.m[o.k]; !ok {
			return false
		}
		p = hx.Try(func() { err = w.s.Accumulate(srcs[0], alien{o.k}) })
		wantErr = true
	case "delete":
		x := value(o.k, o.v)
		p = hx.Try(func() { err = w.s.Delete(bg, x) })
		if bad {
			wantErr = true
		} else {
			delete(w.m.m, o.k)
			delete(w.m.gen, o.k)
			w.m.n++
		}
	case "replace":
		var l []store.Entry
		nm := newModel()
		nm.n = w.m.n
		for i, v := range o.set {
			if v >= 0 {
				x := value(keyNames[i], v)
				l = append(l, x)
				nm.set(keyNames[i], dumpEnt(x))
			}
		}
		if o.v == 1 { // same key twice: the store holds one entry for it
			x := value(keyNames[0], 0)
			l = append(l, value(keyNames[0], 2), x)
			nm.set(keyNames[0], dumpEnt(x))
		}
		if o.v == 2 { // with the entries it holds, as they are read
			nm = w.m.clone()
			for _, k := range keyNames {
				if g, _ := w.s.Get(bg, value(k, 0)); g.Found {
					l = append(l, g.Entry)
					nm.set(k, w.m.m[k])
				}
			}
		}
		if bad {
			l = append(l, value("bad", 0))
			wantErr = true
			nm = w.m
		}
		p = hx.Try(func() { err = w.s.Replace(bg, l) })
		for _, x := range l {
			w.scribble(x)
		}
		w.m = nm
	}
	if p != "" {
		e.Fail("%v panics: %s", o, p)
	}
	if wantErr && err == nil {
		e.Fail("%v succeeds, expected an error", o)
	}
	if !wantErr && err != nil {
		e.Fail("%v fails: %v", o, err)
	}
	t1 := vs.Now()
	if touched != "" && w.is("S01", "S03") {
		g, _ := w.s.Get(bg, value(touched, 0))
		if u := g.Meta.UpdatedAt; u.Before(t0) || u.After(t1) {
			e.Fail("after %v the update time is %v, not between %v and %v", o, u, t0, t1)
		}
		w.upd[touched] = g.Meta.UpdatedAt
	} else if o.kind == "acc" && w.is("S03") {
		if g, _ := w.s.Get(bg, value(o.k, 0)); g.Found && !w.upd[o.k].IsZero() && !g.Meta.UpdatedAt.Equal(w.upd[o.k]) {
			e.Fail("%v brought nothing new but changed the update time", o)
		}
	} else if o.kind == "replace" {
		w.upd = map[string]time.Time{}
	}
	if w.is("S05") || w.is("S03") && (o.kind == "acc" || o.kind == "alien") {
		w.checkEvents(o, before)
	}
	for _, k := range keyNames { // observe ETags
		w.observeTag(k)
	}
	if w.is("S03") {
		for _, s := range w.seen {
			if g := dumpRec(s.rec); g != s.was {
				e.Fail("%v changed a record handed out earlier by %s from %v to %v", o, s.what, s.was, g)
			}
		}
		for _, k := range keyNames {
			if g, err := w.s.Get(bg, value(k, 0)); err == nil && g.Found {
				w.keep("Get", g.Entry)
			}
		}
	}
	return true
}

func (w *world) observeTag(k string) {
	g, err := w.s.Get(bg, value(k, 0))
	if err != nil {
		w.e.Fail("Get(%s) fails: %v", k, err)
	}
	if !g.Found {
		return
	}
	w.scribble(g.Entry)
	gen := w.m.gen[k]
	if w.is("S02") {
		for _, t := range w.tags {
			if t.key == k && (t.tag == g.ETag) != (t.gen == gen) {
				if t.gen == gen {
					w.e.Fail("the ETag of %s changed although the entry did not", k)
				}
				w.e.Fail("reads of %s return the same ETag before and after it changed", k)
			}
		}
	}
	if w.lastG[k] != gen {
		w.lastG[k] = gen
		w.tags = append(w.tags, tagT{k, gen, g.ETag})
	}
}

func (w *world) checkEvents(o op, before *model) {
	var want []event
	if o.kind != "replace" {
		for _, k := range append([]string{}, keyNames...) {
			p, okp := before.m[k]
			c, okc := w.m.m[k]
			switch {
			case okp && okc && before.gen[k] != w.m.gen[k]:
				want = append(want, event{"change", p, c})
			case okp && !okc:
				want = append(want, event{"delete", p, ent{}})
			case !okp && okc:
				want = append(want, event{"add", ent{}, c})
			}
		}
	}
	all := want
	want = nil
	for _, x := range all {
		if !strings.Contains(w.c.without, x.kind) {
			want = append(want, x)
		}
	}
	if fmt.Sprint(want) != fmt.Sprint(w.events) {
		w.e.Fail("%v raised events %v, expected %v", o, w.events, want)
	}
}

// observe compares everything readable with the model.
func (w *world) observe() {
	e := w.e
	if w.c.cfg.Key == nil && w.is("S01", "S05") { // entries without a record
		var err error
		w.events = nil
		for i, f := range []func(){
			func() { err = w.s.Add(bg, store.Entry{}) },
			func() { err = w.s.Update(bg, store.Entry{}) },
			func() { err = w.s.Accumulate(srcs[0], nil) },
			func() { err = w.s.Delete(bg, store.Entry{}) },
			func() { err = w.s.Replace(bg, []store.Entry{value("a", 0), {}}) },
			func() { _, err = w.s.Get(bg, store.Entry{}) },
		} {
			what := []string{"Add", "Update", "Accumulate", "Delete", "Replace", "Get"}[i]
			if p := hx.Try(f); p != "" {
				e.Fail("%s of an entry without a record panics: %s", what, p)
			}
			if err == nil {
				e.Fail("%s of an entry without a record succeeds", what)
			}
		}
		if len(w.events) > 0 {
			e.Fail("entries without a record raised %v", w.events)
		}
	}
	for _, k := range keyNames {
		g, err := w.s.Get(bg, value(k, 3))
		if err != nil {
			e.Fail("Get(%s) fails: %v", k, err)
		}
		want, ok := w.m.m[k]
		if g.Found != ok {
			e.Fail("Get(%s) found=%v, expected %v", k, g.Found, ok)
		}
		if ok {
			if d := dumpEnt(g.Entry); d != want {
				e.Fail("Get(%s) returns %v, expected %v", k, d, want)
			}
		}
	}
	if !w.is("S01") {
		return
	}
	set, err := w.s.List(bg, nil)
	if err != nil {
		e.Fail("List fails: %v", err)
	}
	w.same("List", set.Entries, w.m.m)
	for name, fn := range w.c.indexers {
		buckets := map[string]map[string]ent{}
		for k, x := range w.m.m {
			for _, b := range fn(x) {
				if buckets[b] == nil {
					buckets[b] = map[string]ent{}
				}
				buckets[b][k] = x
			}
		}
		vals, err := w.s.IndexValues(bg, name)
		if err != nil {
			e.Fail("IndexValues(%s) fails: %v", name, err)
		}
		var want []string
		for b := range buckets {
			want = append(want, b)
		}
		sort.Strings(want)
		got := append([]string{}, vals...)
		sort.Strings(got)
		if strings.Join(want, "\x00") != strings.Join(got, "\x00") || len(want) != len(got) {
			e.Fail("IndexValues(%s) is %q, expected %q", name, got, want)
		}
		for v := 0; v < 4; v++ {
			ex := value("a", v)
			exp := map[string]ent{}
			for _, b := range fn(dumpEnt(ex)) {
				for k, x := range buckets[b] {
					exp[k] = x
				}
			}
			set, err := w.s.Index(bg, name, ex, nil)
			if err != nil {
				e.Fail("Index(%s) fails: %v", name, err)
			}
			w.same(fmt.Sprintf("Index(%s, v%d)", name, v), set.Entries, exp)
		}
		for k, x := range w.m.m { // by current value
			g, _ := w.s.Get(bg, value(k, 0))
			exp := map[string]ent{}
			for _, b := range fn(x) {
				for k, x := range buckets[b] {
					exp[k] = x
				}
			}
			set, _ := w.s.Index(bg, name, g.Entry, nil)
			w.same(fmt.Sprintf("Index(%s, entry %s)", name, k), set.Entries, exp)
		}
	}
	if _, err := w.s.Index(bg, "no such index", value("a", 0), nil); err == nil {
		e.Fail("Index on an unknown index succeeds")
	}
}

func (w *world) same(what string, l []store.Entry, want map[string]ent) {
	got := map[string]ent{}
	for _, x := range l {
		k := x.Record.Identity()
		if _, dup := got[k]; dup {
			w.e.Fail("%s returns %s twice", what, k)
		}
		got[k] = dumpEnt(x)
		w.scribble(x)
	}
	for k, x := range want {
		if g, ok := got[k]; !ok {
			w.e.Fail("%s lacks %s (%v)", what, k, x)
		} else if g != x {
			w.e.Fail("%s returns %v, expected %v", what, g, x)
		}
	}
	for k := range got {
		if _, ok := want[k]; !ok {
			w.e.Fail("%s contains %s, which does not belong there", what, k)
		}
	}
}

func (w *world) alphabet(variant int) []op {
	var l []op
	two := keyNames
	switch variant {
	case 1: // S01
		for _, k := range two {
			l = append(l, op{kind: "add", k: k, v: 0}, op{kind: "add", k: k, v: 1}, op{kind: "update", k: k, v: 0}, op{kind: "update", k: k, v: 1}, op{kind: "update", k: k, v: 2}, op{kind: "update", k: k, v: 3},
				op{kind: "acc", k: k, v: 0}, op{kind: "acc", k: k, v: 1}, op{kind: "acc", k: k, v: 3}, op{kind: "delete", k: k}, op{kind: "rmw", k: k, v: 0})
		}
		l = append(l, op{kind: "replace", set: []int{-1, -1}}, op{kind: "replace", set: []int{0, -1}}, op{kind: "replace", set: []int{1, 2}}, op{kind: "replace", set: []int{-1, 3}, v: 1}, op{kind: "rmw", k: "a", v: 1}, op{kind: "rmw", k: "a", v: 2})
		if w.c.badKey {
			l = append(l, op{kind: "add", k: "bad"}, op{kind: "update", k: "bad"}, op{kind: "acc", k: "bad"}, op{kind: "delete", k: "bad"}, op{kind: "replace", k: "bad", set: []int{2, -1}})
		}
	case 2: // S02: one key
		k := "a"
		l = append(l, op{kind: "add", k: k, v: 0}, op{kind: "update", k: k, v: 0}, op{kind: "update", k: k, v: 1}, op{kind: "acc", k: k, v: 0}, op{kind: "acc", k: k, v: 2}, op{kind: "delete", k: k},
			op{kind: "replace", set: []int{-1, -1}}, op{kind: "replace", set: []int{0, -1}}, op{kind: "replace", v: 2}, op{kind: "alien", k: k})
		for t := -4; t < 5; t++ {
			if t != -1 {
				l = append(l, op{kind: "cond", k: k, v: 1, tag: t})
			}
		}
	case 3: // S03: site records on one key, with a neighbour
		k := "a"
		for p := 0; p < 7; p++ {
			l = append(l, op{kind: "acc", k: k, v: p})
		}
		l = append(l, op{kind: "acc", k: "b", v: 0}, op{kind: "add", k: k, v: 1}, op{kind: "update", k: k, v: 0}, op{kind: "update", k: k, v: 1}, op{kind: "delete", k: k}, op{kind: "alien", k: k}, op{kind: "acc", k: k, v: 3, flow: true}, op{kind: "replace", set: []int{1, -1}}, op{kind: "replace", v: 2})
		if w.c.badKey {
			l = append(l, op{kind: "acc", k: "bad"})
		}
	case 4: // S03: flow records
		for p := 0; p < 6; p++ {
			l = append(l, op{kind: "acc", k: "a", v: p, flow: true})
		}
		l = append(l, op{kind: "acc", k: "b", v: 1, flow: true}, op{kind: "delete", k: "a"}, op{kind: "alien", k: "a"}, op{kind: "acc", k: "a", v: 1}, op{kind: "update", k: "a", v: 0})
	case 5: // S05
		k := "a"
		l = append(l, op{kind: "add", k: k, v: 0}, op{kind: "add", k: k, v: 1}, op{kind: "update", k: k, v: 0}, op{kind: "update", k: k, v: 1}, op{kind: "acc", k: k, v: 0}, op{kind: "acc", k: k, v: 1}, op{kind: "acc", k: k, v: 2}, op{kind: "acc", k: k, v: 3}, op{kind: "delete", k: k},
			op{kind: "cond", k: k, v: 2, tag: 0}, op{kind: "cond", k: k, v: 2, tag: 1}, op{kind: "cond", k: k, v: 2, tag: -2},
			op{kind: "acc", k: "b", v: 0}, op{kind: "add", k: "b", v: 1}, op{kind: "delete", k: "b"}, op{kind: "replace", set: []int{-1, -1}}, op{kind: "replace", set: []int{1, 0}}, op{kind: "alien", k: k})
		l = append(l, op{kind: "acc", k: k, v: 1, flow: true}, op{kind: "rmw", k: k, v: 0})
		if w.c.badKey {
			l = append(l, op{kind: "add", k: "bad"}, op{kind: "update", k: "bad"}, op{kind: "acc", k: "bad"}, op{kind: "delete", k: "bad"})
		}
	}
	return l
}

// sequences runs every operation sequence up to depth d over the alphabet, the
// first operation restricted to one residue class so that several workers can
// share the work.
func sequences(prop string, variant int, quick, deep int, part, parts int, ci int) func(e *hx.E) {
	return func(e *hx.E) {
		d := quick
		if e.Deep {
			d = deep
		}
		c := confs(ci)
		al := (&world{c: c}).alphabet(variant)
		states := map[string]bool{}
		seq := make([]op, 0, d)
		var rec func()
		rec = func() {
			if len(seq) > 0 {
				cur := append([]op(nil), seq...)
				e.Input(func() string { return fmt.Sprint(c.name, " store, ", cur) })
				w := newWorld(e, prop, c)
				for _, o := range seq {
					if !w.step(o) {
						return
					}
				}
				w.observe()
				states[w.m.key()] = true
			}
			if len(seq) == d || e.Over() {
				return
			}
			for i, o := range al {
				if len(seq) == 0 && i%parts != part {
					continue
				}
				seq = append(seq, o)
				rec()
				seq = seq[:len(seq)-1]
			}
		}
		rec()
		e.States = len(states)
		e.Sample("all sequences of up to %d of %d operations (first operation class %d of %d), e.g. %v", d, len(al), part, parts, al[len(al)-1])
	}
}

func addSeq() {
	add := func(name, prop string, variant, quick, deep, parts int, cis ...int) {
		for _, ci := range cis {
			for p := 0; p < parts; p++ {
				hx.Add(&hx.S{Name: fmt.Sprintf("%s/c%d/%d", name, ci, p), Props: []string{prop}, Enum: sequences(prop, variant, quick, deep, p, parts, ci), Sec: 25, DeepS: 250})
			}
		}
	}
	add("seq-collection", "S01", 1, 4, 5, 6, 0)
	add("seq-collection", "S01", 1, 3, 4, 4, 1)
	add("seq-etag", "S02", 2, 5, 6, 6, 0)
	add("seq-merge", "S03", 3, 4, 5, 4, 0, 1)
	add("seq-merge-flow", "S03", 4, 5, 6, 2, 0)
	add("seq-events", "S05", 5, 4, 5, 4, 0, 1)
	add("seq-events", "S05", 5, 3, 4, 1, 2, 3, 4, 5, 6, 7, 8)
}
