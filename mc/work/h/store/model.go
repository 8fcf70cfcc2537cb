// Command store checks the record store (S01-S07).
package main

import (
	"context"
	"errors"
	"fmt"
	"reflect"
	"sort"
	"strings"
	"time"

	vanflow "github.com/c-kruse/vanflow"
	"github.com/c-kruse/vanflow/store"
)

var bg = context.Background()

func ptr[T any](v T) *T { return &v }

// rec is the content of a record: its type and attributes.
type rec struct {
	typ   string
	attrs string // sorted "Name=value;" list
}

func dumpRec(r vanflow.Record) rec {
	if r == nil {
		return rec{typ: "<nil>"}
	}
	v := reflect.ValueOf(r)
	if v.Kind() == reflect.Pointer {
		if v.IsNil() {
			return rec{typ: "<nil>"}
		}
		v = v.Elem()
	}
	return rec{v.Type().Name(), joinAttrs(attrsOf(v))}
}

func attrsOf(v reflect.Value) map[string]string {
	m := map[string]string{}
	var walk func(v reflect.Value)
	walk = func(v reflect.Value) {
		t := v.Type()
		for i := 0; i < t.NumField(); i++ {
			f := v.Field(i)
			if t.Field(i).Anonymous && f.Kind() == reflect.Struct {
				walk(f)
				continue
			}
			switch x := f.Interface().(type) {
			case string:
				m[t.Field(i).Name] = x
			case *string:
				if x != nil {
					m[t.Field(i).Name] = "s:" + *x
				}
			case *uint64:
				if x != nil {
					m[t.Field(i).Name] = fmt.Sprint("u:", *x)
				}
			case *vanflow.Time:
				if x != nil {
					m[t.Field(i).Name] = fmt.Sprint("t:", x.UnixMicro())
				}
			}
		}
	}
	walk(v)
	return m
}

func joinAttrs(m map[string]string) string {
	var l []string
	for k, v := range m {
		l = append(l, k+"="+v)
	}
	sort.Strings(l)
	return strings.Join(l, ";")
}

func splitAttrs(s string) map[string]string {
	m := map[string]string{}
	for _, p := range strings.Split(s, ";") {
		if k, v, ok := strings.Cut(p, "="); ok {
			m[k] = v
		}
	}
	return m
}

// ent is the content of an entry without its update time.
type ent struct {
	r   rec
	tm  vanflow.TypeMeta
	src store.SourceRef
	ann string
}

func dumpEnt(e store.Entry) ent {
	var l []string
	for k, v := range e.Meta.Annotations {
		l = append(l, k+"="+v)
	}
	sort.Strings(l)
	return ent{dumpRec(e.Record), e.TypeMeta, e.Meta.Source, strings.Join(l, ";")}
}

func (e ent) String() string {
	return fmt.Sprintf("%s{%s} tm=%s src=%s ann=%s", e.r.typ, e.r.attrs, e.tm.Type, e.src.Name, e.ann)
}

// model is the reference: a plain map.
type model struct {
	m   map[string]ent
	gen map[string]int // identifies the change that produced the entry
	n   int
}

func newModel() *model { return &model{m: map[string]ent{}, gen: map[string]int{}} }

func (m *model) clone() *model {
	c := newModel()
	for k, v := range m.m {
		c.m[k] = v
	}
	for k, v := range m.gen {
		c.gen[k] = v
	}
	c.n = m.n
	return c
}

func (m *model) set(k string, e ent) {
	m.n++
	m.m[k] = e
	m.gen[k] = m.n
}

func (m *model) key() string {
	var l []string
	for k, v := range m.m {
		l = append(l, k+":"+v.String())
	}
	sort.Strings(l)
	return strings.Join(l, "|")
}

// merge applies a partial record.
func (m *model) accumulate(k string, src store.SourceRef, r rec, tm vanflow.TypeMeta) (changed bool) {
	cur, ok := m.m[k]
	if !ok {
		m.set(k, ent{r: r, tm: tm, src: src})
		return true
	}
	a, b := splitAttrs(cur.r.attrs), splitAttrs(r.attrs)
	for k, v := range b {
		if a[k] != v {
			a[k] = v
			changed = true
		}
	}
	if !changed {
		return false
	}
	cur.r.attrs = joinAttrs(a)
	m.set(k, cur)
	return true
}

var srcs = []store.SourceRef{{APIVersion: "v1", Type: "T", Name: "s0"}, {APIVersion: "v1", Type: "T", Name: "s1"}}

const siteKey = "skupper.io/flow/site-id"

// value makes entry variant v of key k.
func value(k string, v int) store.Entry {
	e := store.Entry{Meta: store.Metadata{Source: srcs[0]}}
	switch v % 4 {
	case 0:
		e.Record = &vanflow.SiteRecord{BaseRecord: vanflow.NewBase(k), Name: ptr("n0")}
		e.Meta.Source = store.SourceRef{} // of nobody
	case 1:
		e.Record = vanflow.SiteRecord{BaseRecord: vanflow.NewBase(k, time.UnixMicro(5)), Name: ptr("n1"), Location: ptr("l1")}
		e.Meta.Source = srcs[1]
		e.Meta.Annotations = map[string]string{siteKey: "x"}
		e.TypeMeta = vanflow.SiteRecord{}.GetTypeMeta()
	case 2:
		e.Record = &vanflow.SiteRecord{BaseRecord: vanflow.NewBase(k)}
		e.Meta.Annotations = map[string]string{siteKey: "y", "note": "z"}
	case 3:
		e.Record = &vanflow.SiteRecord{BaseRecord: vanflow.NewBase(k), Name: ptr(""), Provider: ptr("p")}
		e.Meta.Source = srcs[1]
	}
	return e
}

// partial makes partial record p of key k.
func partial(k string, p int) (store.SourceRef, vanflow.Record) {
	r := &vanflow.SiteRecord{BaseRecord: vanflow.NewBase(k)}
	s := srcs[p%2]
	switch p {
	case 0:
		r.Name = ptr("pa")
	case 1:
		r.Location = ptr("pl")
		r.EndTime = &vanflow.Time{Time: time.UnixMicro(9)}
	case 2: // only the identity
	case 3:
		r.Name = ptr("")
	case 4:
		r.Name = ptr("pa")
		r.Platform = ptr("q")
		return s, *r
	case 5:
		r.StartTime = &vanflow.Time{Time: time.UnixMicro(0)}
		r.Policy = ptr("pl")
	case 6:
		r.Name = ptr("n0")
		r.EndTime = &vanflow.Time{Time: time.UnixMicro(10)}
	}
	return s, r
}

// flow partials, for attributes of number type
func flowPartial(k string, p int) (store.SourceRef, vanflow.Record) {
	r := &vanflow.FlowRecord{BaseRecord: vanflow.NewBase(k)}
	s := srcs[p%2]
	switch p {
	case 0:
		r.Octets = ptr(uint64(0))
	case 1:
		r.Octets = ptr(uint64(7))
		r.SourceHost = ptr("h")
	case 2:
		r.OctetRate = ptr(uint64(1) << 63)
		r.StartTime = &vanflow.Time{Time: time.UnixMicro(1)}
	case 3:
		r.Counterflow = ptr("c")
		r.EndTime = &vanflow.Time{Time: time.UnixMicro(2)}
		r.Octets = ptr(uint64(7))
	case 4:
		r.SourceHost = ptr("")
		r.Latency = ptr(uint64(0))
		return s, *r
	case 5:
	}
	return s, r
}

type alien struct{ id string }

func (a alien) Identity() string              { return a.id }
func (a alien) GetTypeMeta() vanflow.TypeMeta { return vanflow.TypeMeta{Type: "alien"} }

// config variants
type conf struct {
	name     string
	cfg      store.CacheConfig
	indexers map[string]func(ent) []string
	badKey   bool
	without  string // kinds of events nobody handles
}

var errBad = errors.New("bad key")

func confs(i int) conf {
	site := func(e ent) []string {
		if v, ok := splitAttrs(e.ann)[siteKey]; ok {
			return []string{v}
		}
		return []string{"unknown"}
	}
	switch i {
	case 0:
		return conf{name: "default", indexers: map[string]func(ent) []string{
			store.IndexBySource: func(e ent) []string { return []string{e.src.String()} },
			store.IndexBySite:   site,
		}}
	case 2, 3, 4, 5, 6, 7, 8: // every other subset of handlers
		c := confs(0)
		for j, k := range []string{"add", "change", "delete"} {
			if (i-1)>>j&1 == 1 {
				c.without += k + " "
			}
		}
		c.name += " without handlers for " + c.without
		return c
	default:
		multi := func(name, loc *string) []string {
			out := []string{"all", "all"}
			if name != nil {
				out = append(out, *name)
			}
			if loc != nil {
				out = append(out, "loc:"+*loc, *loc)
			}
			return out
		}
		c := conf{name: "custom", badKey: true}
		c.cfg.Key = func(e store.Entry) (string, error) {
			if e.Record.Identity() == "bad" {
				return "", errBad
			}
			return "k/" + e.Record.Identity(), nil
		}
		c.cfg.Indexers = map[string]store.CacheIndexer{
			"multi": func(e store.Entry) []string {
				switch r := e.Record.(type) {
				case *vanflow.SiteRecord:
					return multi(r.Name, r.Location)
				case vanflow.SiteRecord:
					return multi(r.Name, r.Location)
				}
				return nil
			},
			"named": func(e store.Entry) []string {
				if n := attrOf(e, "Name"); n != nil {
					return []string{*n}
				}
				return nil
			},
			"none": func(store.Entry) []string { return nil },
		}
		c.indexers = map[string]func(ent) []string{
			"multi": func(e ent) []string {
				if e.r.typ != "SiteRecord" {
					return nil
				}
				a := splitAttrs(e.r.attrs)
				var n, l *string
				if v, ok := a["Name"]; ok {
					n = ptr(v[2:])
				}
				if v, ok := a["Location"]; ok {
					l = ptr(v[2:])
				}
				return multi(n, l)
			},
			"named": func(e ent) []string {
				if v, ok := splitAttrs(e.r.attrs)["Name"]; ok {
					return []string{v[2:]}
				}
				return nil
			},
			"none": func(ent) []string { return nil },
		}
		return c
	}
}

func attrOf(e store.Entry, n string) *string {
	if v, ok := splitAttrs(dumpRec(e.Record).attrs)[n]; ok {
		return ptr(v[2:])
	}
	return nil
}
