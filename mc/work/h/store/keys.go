package main

import (
	"context"
	"fmt"
	"sort"
	"strings"

	vanflow "github.com/c-kruse/vanflow"
	"github.com/c-kruse/vanflow/store"

	"vmc/hx"
	"vmc/vs"
)

// keysEnum: stores whose key function uses more than the identity of the
// record keep apart what their keys keep apart, and merge nothing else.
func keysEnum(e *hx.E) {
	depth := 3
	if e.Deep {
		depth = 4
	}
	keys := []struct {
		name string
		f    store.KeyFunc
	}{
		{"type", func(o store.Entry) (string, error) { return o.TypeMeta.String() + "/" + o.Record.Identity(), nil }},
		{"source", func(o store.Entry) (string, error) { return o.Meta.Source.String() + "/" + o.Record.Identity(), nil }},
		{"all", func(o store.Entry) (string, error) {
			return o.Meta.Source.String() + "/" + o.TypeMeta.String() + "/" + o.Record.Identity(), nil
		}},
	}
	type op struct {
		src store.SourceRef
		typ string
		id  string
		att int
	}
	var ops []op
	for _, s := range []string{"a", "b"} {
		for _, t := range []string{"Site", "Router"} {
			for att := 0; att < 2; att++ {
				ops = append(ops, op{store.SourceRef{APIVersion: "1", Type: "T", Name: s}, t, "x", att})
			}
		}
	}
	rec := func(o op, v string) vanflow.Record {
		if o.typ == "Site" {
			r := vanflow.SiteRecord{BaseRecord: vanflow.NewBase(o.id)}
			if o.att == 0 {
				r.Name = &v
			} else {
				r.Policy = &v
			}
			return r
		}
		r := &vanflow.RouterRecord{BaseRecord: vanflow.NewBase(o.id)}
		if o.att == 0 {
			r.Name = &v
		} else {
			r.Mode = &v
		}
		return r
	}
	ctx := context.Background()
	// no record is refused, whatever the key function makes of it
	for n := 0; n < 3; n++ {
		st := store.NewDefaultCachingStore(store.CacheConfig{Key: func(o store.Entry) (string, error) {
			if o.Record == nil || n == 2 {
				return o.Meta.Source.Name, nil
			}
			return o.Record.Identity(), nil
		}})
		e.Execs++
		src := store.SourceRef{Name: "s"}
		want := 0
		if n > 0 {
			if err := st.Accumulate(src, rec(ops[0], "v")); err != nil {
				e.Fail("accumulate: %v", err)
			}
			want++
		}
		if p := hx.Try(func() {
			if err := st.Accumulate(src, nil); err == nil {
				e.Fail("accumulating no record is not refused")
			}
		}); p != "" {
			e.Fail("accumulating no record panics: %s", p)
		}
		l, err := st.List(ctx, nil)
		if err != nil || len(l.Entries) != want || want > 0 && (l.Entries[0].Record == nil || l.Entries[0].Record.Identity() != "x") {
			e.Fail("after accumulating no record the store holds %v, %v", l.Entries, err)
		}
	}
	for _, k := range keys {
		seq := make([]int, depth)
		for {
			e.Execs++
			st := store.NewDefaultCachingStore(store.CacheConfig{Key: k.f})
			model := map[string]map[int]string{}
			head := map[string]string{}
			var hist []string
			for i, n := range seq {
				o, v := ops[n], fmt.Sprint(i)
				r := rec(o, v)
				hist = append(hist, fmt.Sprintf("%s %s attribute %d=%s from %s", o.typ, o.id, o.att, v, o.src.Name))
				en := store.Entry{Meta: store.Metadata{Source: o.src}, TypeMeta: r.GetTypeMeta(), Record: r}
				key, _ := k.f(en)
				err := st.Accumulate(o.src, r)
				if h := head[key]; h != "" && !strings.HasPrefix(h, o.typ) {
					if err == nil {
						e.Fail("key by %s: %v: records of different types were merged", k.name, hist)
					}
					continue
				}
				if err != nil {
					e.Fail("key by %s: %v: %v", k.name, hist, err)
				}
				e.Transitions++
				if model[key] == nil {
					model[key] = map[int]string{}
					head[key] = o.typ + " " + o.id + " " + o.src.Name
				}
				model[key][o.att] = v
				// what was accumulated is found under the key of its entry
				got, err := st.Get(ctx, en)
				if err != nil || !got.Found {
					e.Fail("key by %s: after %v the entry is not found: %v", k.name, hist, err)
				}
			}
			{
				var want, have []string
				for key, a := range model {
					want = append(want, fmt.Sprintf("%s %v", head[key], a))
				}
				l, err := st.List(ctx, nil)
				if err != nil {
					e.Fail("list: %v", err)
				}
				for _, x := range l.Entries {
					a := map[int]string{}
					typ := "Site"
					put := func(n int, p *string) {
						if p != nil {
							a[n] = *p
						}
					}
					switch r := x.Record.(type) {
					case vanflow.SiteRecord:
						put(0, r.Name)
						put(1, r.Policy)
					case *vanflow.SiteRecord:
						put(0, r.Name)
						put(1, r.Policy)
					case vanflow.RouterRecord:
						typ = "Router"
						put(0, r.Name)
						put(1, r.Mode)
					case *vanflow.RouterRecord:
						typ = "Router"
						put(0, r.Name)
						put(1, r.Mode)
					}
					if x.TypeMeta != x.Record.GetTypeMeta() {
						e.Fail("key by %s: after %v an entry of type %v holds a %T", k.name, hist, x.TypeMeta, x.Record)
					}
					have = append(have, fmt.Sprintf("%s %s %s %v", typ, x.Record.Identity(), x.Meta.Source.Name, a))
				}
				sort.Strings(want)
				sort.Strings(have)
				if strings.Join(have, "; ") != strings.Join(want, "; ") {
					e.Fail("key by %s: after %v the store holds %v, want %v", k.name, hist, have, want)
				}
			}
			e.States++
			vs.ResetTicks()
			i := depth - 1
			for i >= 0 {
				if seq[i]++; seq[i] < len(ops) {
					break
				}
				seq[i] = 0
				i--
			}
			if i < 0 {
				break
			}
		}
	}
}

// oddKeys: the store keeps entries of every identity apart, whatever it is.
func oddKeys(e *hx.E) {
	ctx := context.Background()
	ids := []string{"", " ", "a", "a ", "A", "a/", "\x00", "/", "\xff", "%", "*", strings.Repeat("x", 300), strings.Repeat("x", 299) + "y"}
	en := func(id, v string) store.Entry {
		return store.Entry{Record: vanflow.SiteRecord{BaseRecord: vanflow.NewBase(id), Name: &v}}
	}
	check := func(st store.Interface, m map[string]string, hist []string) {
		for _, id := range ids {
			g, err := st.Get(ctx, en(id, ""))
			v, ok := m[id]
			if err != nil || g.Found != ok {
				e.Fail("after %q: Get(%q) found=%v, %v, want found=%v", hist, id, g.Found, err, ok)
			}
			if ok && (g.Entry.Record.Identity() != id || siteName(g.Entry.Record) != v) {
				e.Fail("after %q: Get(%q) returns record %q named %q, want %q", hist, id, g.Entry.Record.Identity(), siteName(g.Entry.Record), v)
			}
		}
		l, err := st.List(ctx, nil)
		if err != nil || len(l.Entries) != len(m) {
			e.Fail("after %q: %d entries listed, %v, want %d", hist, len(l.Entries), err, len(m))
		}
		e.States++
		vs.ResetTicks()
	}
	kinds := []string{"add", "update", "accumulate", "replace", "replace-all"}
	for _, k1 := range kinds {
		for _, a := range ids {
			for _, k2 := range append(kinds, "delete") {
				for _, b := range ids {
					if k1 == "accumulate" && a == "" || k2 == "accumulate" && b == "" {
						continue // such records have no encoding
					}
					e.Execs++
					st := store.NewDefaultCachingStore(store.CacheConfig{})
					m := map[string]string{}
					var hist []string
					for i, o := range [][2]string{{k1, a}, {k2, b}} {
						kind, id, v := o[0], o[1], fmt.Sprint(i)
						hist = append(hist, kind+" "+id)
						var err error
						_, had := m[id]
						wantErr := false
						switch kind {
						case "add":
							wantErr = had
							err = st.Add(ctx, en(id, v))
							if !had {
								m[id] = v
							}
						case "update":
							err = st.Update(ctx, en(id, v))
							m[id] = v
						case "accumulate":
							err = st.Accumulate(store.SourceRef{}, en(id, v).Record)
							m[id] = v
						case "replace":
							err = st.Replace(ctx, []store.Entry{en(id, v)})
							m = map[string]string{id: v}
						case "replace-all":
							var l []store.Entry
							m = map[string]string{}
							for _, x := range ids {
								l = append(l, en(x, v))
								m[x] = v
							}
							err = st.Replace(ctx, l)
						case "delete":
							err = st.Delete(ctx, en(id, ""))
							if !had && err != nil {
								err = nil
							}
							delete(m, id)
						}
						if (err != nil) != wantErr {
							e.Fail("%q: error %v", hist, err)
						}
						e.Transitions++
					}
					check(st, m, hist)
				}
			}
		}
	}
}

func siteName(r vanflow.Record) string {
	switch x := r.(type) {
	case vanflow.SiteRecord:
		if x.Name != nil {
			return *x.Name
		}
	case *vanflow.SiteRecord:
		if x.Name != nil {
			return *x.Name
		}
	}
	return "<none>"
}
