package main

import (
	"fmt"
	"reflect"
	"sort"
	"strings"
	"time"

	vanflow "github.com/c-kruse/vanflow"
	"github.com/c-kruse/vanflow/eventsource"
	"github.com/c-kruse/vanflow/store"

	"vmc/vs"
)

// recordTypes are all types of records.
var recordTypes = []vanflow.Record{
	vanflow.SiteRecord{}, vanflow.RouterRecord{}, vanflow.LinkRecord{}, vanflow.ControllerRecord{}, vanflow.ListenerRecord{},
	vanflow.ConnectorRecord{}, vanflow.FlowRecord{}, vanflow.ProcessRecord{}, vanflow.ImageRecord{}, vanflow.IngressRecord{},
	vanflow.EgressRecord{}, vanflow.CollectorRecord{}, vanflow.ProcessGroupRecord{}, vanflow.HostRecord{}, vanflow.LogRecord{},
}

// eachAttr calls fn for every attribute of a record but the identity.
func eachAttr(v reflect.Value, fn func(i int, name string, f reflect.Value)) int {
	n := 0
	var walk func(v reflect.Value)
	walk = func(v reflect.Value) {
		for i := 0; i < v.NumField(); i++ {
			f, t := v.Field(i), v.Type().Field(i)
			switch {
			case f.Kind() == reflect.Struct:
				walk(f)
			case f.Kind() == reflect.Pointer:
				fn(n, t.Name, f)
				n++
			}
		}
	}
	walk(v)
	return n
}

// filled makes a record of the type of r; value chooses what attribute i is
// set to: 0 leaves it unset.
func filled(r vanflow.Record, id string, value func(i int) int) vanflow.Record {
	v := reflect.New(reflect.TypeOf(r)).Elem()
	v.FieldByName("BaseRecord").Set(reflect.ValueOf(vanflow.NewBase(id)))
	eachAttr(v, func(i int, name string, f reflect.Value) {
		k := value(i)
		if k == 0 {
			return
		}
		switch p := f.Addr().Interface().(type) {
		case **string:
			s := [...]string{"", "value of " + name, "Value of " + name, "value of " + name + "\x00é", strings.Repeat("0123456789abcde\n", 4100) + "A", strings.Repeat("0123456789abcde\n", 4100) + "B"}[k-1]
			*p = &s
		case **uint64:
			u := [...]uint64{0, 7, 8, 1 << 32, 1<<64 - 1, 1<<64 - 2}[k-1]
			*p = &u
		case **vanflow.Time:
			*p = &vanflow.Time{Time: time.UnixMicro([...]int64{0, 1700000000000000, 1700000000000001, 1, 1 << 40, 1<<40 + 1}[k-1])}
		default:
			vs.Fail("harness", "attribute of type %s", f.Type())
		}
	})
	return v.Interface().(vanflow.Record)
}

const valueClasses = 6

// whole is a record with all that is set.
func whole(r vanflow.Record) string {
	v := reflect.Indirect(reflect.ValueOf(r))
	out := []string{fmt.Sprintf("%s %q", v.Type().Name(), r.Identity())}
	eachAttr(v, func(_ int, name string, f reflect.Value) {
		if f.IsNil() {
			return
		}
		switch x := f.Interface().(type) {
		case *string:
			if len(*x) > 60 {
				out = append(out, fmt.Sprintf("%s=%d bytes ending in %q", name, len(*x), (*x)[len(*x)-4:]))
				return
			}
			out = append(out, fmt.Sprintf("%s=%q", name, *x))
		case *uint64:
			out = append(out, fmt.Sprint(name, "=", *x))
		case *vanflow.Time:
			out = append(out, fmt.Sprint(name, "=", x.UnixMicro(), "us"))
		}
	})
	return strings.Join(out, " ")
}

// sentWhole lists all records sent.
func sentWhole(w *mworld) (l []string) {
	w.n.o.TouchR()
	for _, e := range w.n.attempts(src.Address) {
		if subject(e.msg) != "RECORD" {
			continue
		}
		d, err := vanflow.Decode(e.msg)
		if err != nil {
			vs.Fail("assert", "sent a record message that cannot be decoded: %v", err)
			continue
		}
		for _, r := range d.(vanflow.RecordMessage).Records {
			l = append(l, whole(r))
		}
	}
	return
}

// updateContent: an update of any attribute of any type of record, from any
// value to any other, is sent: that attribute and nothing else.
func updateContent() {
	vs.AllowTicks(3_000_000)
	proto := recordTypes[vs.Choose(len(recordTypes))]
	from, to := vs.Choose(valueClasses+1), 1+vs.Choose(valueClasses)
	batch := vs.Choose(2)
	n := newNet()
	cfg := eventsource.ManagerConfig{HeartbeatInterval: time.Hour, BeaconInterval: time.Hour}
	if batch == 1 {
		cfg.UpdateBatchSize, cfg.UpdateBufferTime = 5, time.Second
	}
	w := newMworld(n, cfg)
	w.run()
	attrs := eachAttr(reflect.New(reflect.TypeOf(proto)).Elem(), func(int, string, reflect.Value) {})
	var want []string
	for i := 0; i < attrs; i++ {
		id := fmt.Sprint("r", i)
		// the other attributes are all set, all alike
		prev := filled(proto, id, func(j int) int {
			if j == i {
				return from
			}
			return 2 + j%2
		})
		curr := filled(proto, id, func(j int) int {
			if j == i {
				return to
			}
			return 2 + j%2
		})
		if from != to {
			want = append(want, whole(filled(proto, id, func(j int) int {
				if j == i {
					return to
				}
				return 0
			})))
		}
		w.m.PublishUpdate(eventsource.RecordUpdate{Prev: prev, Curr: curr})
	}
	time.Sleep(20 * time.Second)
	vs.Quiesce()
	got := sentWhole(w)
	vs.Assert(strings.Join(got, "; ") == strings.Join(want, "; "), "updates of each attribute of %T: sent [%s], want [%s]", proto, strings.Join(got, "; "), strings.Join(want, "; "))
	w.stop()
}

// answerContent: whatever is in the store is sent, as it is.
func answerContent() {
	vs.AllowTicks(3_000_000)
	proto := recordTypes[vs.Choose(len(recordTypes))]
	s := store.NewDefaultCachingStore(store.CacheConfig{})
	attrs := eachAttr(reflect.New(reflect.TypeOf(proto)).Elem(), func(int, string, reflect.Value) {})
	var want []string
	add := func(value func(i int) int) {
		r := filled(proto, fmt.Sprint("r", len(want)), value)
		want = append(want, whole(r))
		s.Add(bg, store.Entry{Record: r, TypeMeta: r.GetTypeMeta()})
	}
	add(func(int) int { return 0 })
	for k := 1; k <= valueClasses; k++ {
		add(func(int) int { return k })                                // start and end are the same
		add(func(i int) int { return (k+i)%valueClasses + 1 })         // end after start
		add(func(i int) int { return (k+5*attrs-i)%valueClasses + 1 }) // end before start
	}
	for i := 0; i < attrs; i++ {
		add(func(j int) int {
			if i == j {
				return 2
			}
			return 0
		})
	}
	n := newNet()
	w := newMworld(n, eventsource.ManagerConfig{HeartbeatInterval: time.Hour, BeaconInterval: time.Hour, Stores: []store.Interface{s}, FlushBatchSize: vs.Choose(3) * 4})
	w.run()
	n.push(src.Direct, item{m: flush(src.Direct)})
	time.Sleep(20 * time.Second)
	vs.Quiesce()
	got := map[string]bool{}
	for _, x := range sentWhole(w) {
		got[x] = true
	}
	missing := []string{}
	for _, x := range want {
		if !got[x] {
			missing = append(missing, x)
		}
		delete(got, x)
	}
	extra := []string{}
	for x := range got {
		extra = append(extra, x)
	}
	sort.Strings(extra)
	vs.Assert(len(missing)+len(extra) == 0, "flush answer of %T records: missing %v, not in the store %v", proto, missing, extra)
	w.stop()
}
