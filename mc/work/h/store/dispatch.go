package main

import (
	"context"
	"errors"
	"fmt"
	"strings"

	vanflow "github.com/c-kruse/vanflow"
	"github.com/c-kruse/vanflow/store"

	"vmc/hx"
	"vmc/vs"
)

type call struct {
	store int
	src   store.SourceRef
	rec   vanflow.Record
}

// fakeStore records what is accumulated.
type fakeStore struct {
	store.Interface
	n    int
	log  *[]call
	fail map[string]bool
}

func (f *fakeStore) Accumulate(s store.SourceRef, r vanflow.Record) error {
	*f.log = append(*f.log, call{f.n, s, r})
	if f.fail[r.Identity()] {
		return errors.New("rejected")
	}
	return nil
}

var recordPool = []func(id string) vanflow.Record{
	func(id string) vanflow.Record { return &vanflow.SiteRecord{BaseRecord: vanflow.NewBase(id)} },
	func(id string) vanflow.Record { return vanflow.SiteRecord{BaseRecord: vanflow.NewBase(id)} },
	func(id string) vanflow.Record { return &vanflow.RouterRecord{BaseRecord: vanflow.NewBase(id)} },
	func(id string) vanflow.Record { return vanflow.FlowRecord{BaseRecord: vanflow.NewBase(id)} },
	func(id string) vanflow.Record { return alien{id} },
}

var typeOf = []int{0, 0, 1, 2, 3}

func protos(t int) vanflow.Record {
	return []vanflow.Record{vanflow.SiteRecord{}, &vanflow.RouterRecord{}, vanflow.FlowRecord{}, alien{}}[t]
}

// dispatchEnum: every assignment of stores to types, message and rejection.
func dispatchEnum(e *hx.E) {
	maxLen := 3
	if e.Deep {
		maxLen = 4
	}
	// registration: per type no store, store 0 or store 1; afterwards one more
	// registration that must not matter to the existing dispatcher
	for reg := 0; reg < 3*3*3*3; reg++ {
		for late := 0; late < 5; late++ {
			for n := 0; n <= maxLen; n++ {
				total := 1
				for i := 0; i < n; i++ {
					total *= len(recordPool)
				}
				for code := 0; code < total; code++ {
					for fail := 0; fail < 1<<n; fail++ {
						if e.Over() {
							return
						}
						if !e.Deep && n == 3 && fail != 0 && fail != 1 && fail != 2 {
							continue
						}
						dispatchOne(e, reg, late, n, code, fail, func(i int) string { return fmt.Sprint("r", i) })
						if n < 3 || late == 0 && fail == 0 {
							dispatchOne(e, reg, late, n, code, fail, func(int) string { return "" })
							dispatchOne(e, reg, late, n, code, fail, func(int) string { return "same" })
						}
					}
				}
			}
		}
		e.States++
	}
	e.Sample("81 registrations, 5 later registrations, messages of up to %d of %d records, every set of rejected records, distinct, equal and empty identities, two sources", maxLen, len(recordPool))
}

func dispatchOne(e *hx.E, reg, late, n, code, fail int, name func(int) string) {
	e.Transitions++
	e.Input(func() string {
		return fmt.Sprintf("registration %d late %d records %d/%d rejecting %b identities like %q", reg, late, n, code, fail, name(0))
	})
	var log []call
	st := []*fakeStore{{n: 0, log: &log}, {n: 1, log: &log}}
	var d store.DispatchRegistry
	assigned := map[int]int{}
	for t, r := 0, reg; t < 4; t, r = t+1, r/3 {
		if k := r % 3; k > 0 {
			d.RegisterStore(protos(t), st[k-1])
			assigned[t] = k - 1
		}
	}
	d1 := d.NewDispatcher(srcs[0])
	after := map[int]int{}
	for t, k := range assigned {
		after[t] = k
	}
	if late < 4 {
		d.RegisterStore(protos(late), st[0])
		after[late] = 0
	}
	d2 := d.NewDispatcher(srcs[1])
	msg := vanflow.RecordMessage{}
	rejected := map[string]bool{}
	var types []int
	for i, c := 0, code; i < n; i, c = i+1, c/len(recordPool) {
		id := name(i)
		msg.Records = append(msg.Records, recordPool[c%len(recordPool)](id))
		types = append(types, typeOf[c%len(recordPool)])
		if fail>>i&1 == 1 {
			rejected[id] = true
		}
	}
	st[0].fail, st[1].fail = rejected, rejected
	for di, dd := range []store.Dispatcher{d1, d2, d1} {
		reg := assigned
		src := srcs[0]
		if di == 1 {
			reg, src = after, srcs[1]
		}
		log = log[:0]
		if p := hx.Try(func() { dd.Dispatch(msg) }); p != "" {
			e.Fail("Dispatch panics: %s", p)
		}
		k := 0
		for i, r := range msg.Records {
			s, ok := reg[types[i]]
			if !ok {
				continue
			}
			if k >= len(log) || log[k].store != s || log[k].src != src || log[k].rec != r {
				e.Fail("dispatcher %d: record %d should go to store %d as %v; calls %v", di, i, s, src, log)
			}
			k++
		}
		if k != len(log) {
			e.Fail("dispatcher %d: %d calls, expected %d", di, len(log), k)
		}
	}
}

// kind is a record of a type made up by the test.
type kind struct {
	meta vanflow.TypeMeta
	id   string
}

func (k kind) Identity() string              { return k.id }
func (k kind) GetTypeMeta() vanflow.TypeMeta { return k.meta }

// dispatchKinds: types that share the name or the API version are different
// types.
func dispatchKinds(e *hx.E) {
	metas := []vanflow.TypeMeta{{APIVersion: "v1", Type: "Site"}, {APIVersion: "v2", Type: "Site"}, {APIVersion: "v1", Type: "Router"}, {APIVersion: "", Type: "Site"}, vanflow.SiteRecord{}.GetTypeMeta()}
	total := 1
	for range metas {
		total *= 4
	}
	for reg := 0; reg < total; reg++ {
		if e.Over() {
			return
		}
		e.States++
		var log []call
		var d store.DispatchRegistry
		assigned := map[vanflow.TypeMeta]int{}
		for i, r := 0, reg; i < len(metas); i, r = i+1, r/4 {
			if k := r % 4; k > 0 {
				d.RegisterStore(kind{meta: metas[i]}, &fakeStore{n: k, log: &log})
				assigned[metas[i]] = k
			}
		}
		e.Input(func() string { return fmt.Sprint("registered ", assigned) })
		dd := d.NewDispatcher(srcs[0])
		for a := range metas {
			for b := range metas {
				e.Transitions++
				log = log[:0]
				msg := vanflow.RecordMessage{Records: []vanflow.Record{kind{metas[a], "1"}, kind{metas[b], "2"}}}
				if p := hx.Try(func() { dd.Dispatch(msg) }); p != "" {
					e.Fail("Dispatch panics: %s", p)
				}
				var want, got string
				for _, r := range msg.Records {
					if k := assigned[r.GetTypeMeta()]; k > 0 {
						want += fmt.Sprintf("%s to %d; ", r.Identity(), k)
					}
				}
				for _, c := range log {
					got += fmt.Sprintf("%s to %d; ", c.rec.Identity(), c.store)
				}
				if got != want {
					e.Fail("records of the types %v and %v: dispatched %s want %s", metas[a], metas[b], got, want)
				}
			}
		}
	}
	e.Sample("%d registrations of up to 3 stores for %d types that share name or API version, every two records", total, len(metas))
}

// dispatchReal: dispatchers of two sources work concurrently into real stores
// while further stores are registered.
func dispatchReal() {
	sites := store.NewDefaultCachingStore(store.CacheConfig{})
	routers := store.NewDefaultCachingStore(store.CacheConfig{})
	var d store.DispatchRegistry
	d.RegisterStore(vanflow.SiteRecord{}, sites)
	d.RegisterStore(vanflow.RouterRecord{}, routers)
	d0, d1 := d.NewDispatcher(srcs[0]), d.NewDispatcher(srcs[1])
	done := make(chan bool)
	send := func(dd store.Dispatcher, who string) {
		dd.Dispatch(vanflow.RecordMessage{Records: []vanflow.Record{
			&vanflow.SiteRecord{BaseRecord: vanflow.NewBase(who), Name: ptr(who)},
			alien{who},
			&vanflow.FlowRecord{BaseRecord: vanflow.NewBase(who)},
			&vanflow.RouterRecord{BaseRecord: vanflow.NewBase(who), Mode: ptr("m")},
			&vanflow.SiteRecord{BaseRecord: vanflow.NewBase(who), Location: ptr(who)},
		}})
		done <- true
	}
	go send(d0, "0")
	go send(d1, "1")
	d.RegisterStore(vanflow.FlowRecord{}, sites)
	<-done
	<-done
	for i := 0; i < 2; i++ {
		id := fmt.Sprint(i)
		g, _ := sites.Get(bg, store.Entry{Record: vanflow.SiteRecord{BaseRecord: vanflow.NewBase(id)}})
		if !g.Found || g.Meta.Source != srcs[i] || dumpRec(g.Record).attrs != "ID="+id+";Location=s:"+id+";Name=s:"+id {
			vs.Fail("assert", "site of source %d: %v %v", i, g.Found, dumpEnt(g.Entry))
		}
		g, _ = routers.Get(bg, store.Entry{Record: vanflow.RouterRecord{BaseRecord: vanflow.NewBase(id)}})
		if !g.Found || g.Meta.Source != srcs[i] {
			vs.Fail("assert", "router of source %d: %v", i, g)
		}
	}
	l, _ := sites.List(context.Background(), nil)
	vs.Assert(len(l.Entries) == 2, "%d sites", len(l.Entries))
	vs.Outcome("%s", strings.Repeat("x", len(l.Entries)))
}

func main() {
	addSeq()
	hx.Add(&hx.S{Name: "custom", Props: []string{"S03"}, Enum: customRecords, Sec: 15, DeepS: 300})
	hx.Add(&hx.S{Name: "identities", Props: []string{"S01"}, Enum: oddKeys, Sec: 15, DeepS: 300})
	hx.Add(&hx.S{Name: "keys", Props: []string{"S03"}, Enum: keysEnum, Sec: 15, DeepS: 300})
	hx.Add(&hx.S{Name: "selectors", Props: []string{"S06"}, Enum: selectors, Sec: 25, DeepS: 300})
	hx.Add(&hx.S{Name: "selectors-keyed", Props: []string{"S06"}, Enum: keyedSelectors, Sec: 20, DeepS: 300})
	hx.Add(&hx.S{Name: "selectors-large", Props: []string{"S06"}, Enum: largeSelectors, Sec: 25, DeepS: 300})
	hx.Add(&hx.S{Name: "dispatch", Props: []string{"S07"}, Enum: dispatchEnum, Sec: 25, DeepS: 300})
	hx.Add(&hx.S{Name: "dispatch-kinds", Props: []string{"S07"}, Enum: dispatchKinds, Sec: 10, DeepS: 60})
	q := func(p ...int) vs.Config { return vs.Config{Preempt: p} }
	hx.Add(&hx.S{Name: "dispatch-concurrent", Props: []string{"S07"}, Quick: q(0, 1, 2), Deep: q(0, 1, 2, 3, 4), Body: dispatchReal, Sec: 15, DeepS: 120})
	for st := 0; st < 3; st++ {
		n := fmt.Sprint("/", st)
		for _, k := range []string{"mut-mutread", "mut-reads", "three"} {
			hx.Add(&hx.S{Name: "linearizable/" + k + n, Props: []string{"S04"}, Quick: q(0, 1), Deep: q(0, 1, 2, 3, 4), Body: conc(k, st), Sec: 12, DeepS: 200})
		}
		hx.Add(&hx.S{Name: "reentrant" + n, Props: []string{"S04", "S05"}, Quick: q(0, 1), Body: reentrant(st), Sec: 8, DeepS: 200})
		if st > 0 {
			hx.Add(&hx.S{Name: "conditional-race" + n, Props: []string{"S02", "S04"}, Quick: q(0, 1), Deep: q(0, 1, 2, 3, 4), Body: condRace(st), Sec: 12, DeepS: 200})
		}
		if st < 2 {
			hx.Add(&hx.S{Name: "chains-2" + n, Props: []string{"S03", "S05"}, Quick: q(0, 1), Deep: q(0, 1, 2, 3), Body: chains(false, st), Sec: 15, DeepS: 200})
			hx.Add(&hx.S{Name: "chains-3" + n, Props: []string{"S05"}, Quick: q(0, 1), Deep: q(0, 1, 2, 3), Body: chains(true, st), Sec: 15, DeepS: 200})
		}
	}
	hx.Main()
}
