package main

import (
	"bytes"
	"encoding/base64"
	"encoding/binary"
	"fmt"
	"math"
	"sort"

	vanflow "github.com/c-kruse/vanflow"
	"github.com/c-kruse/vanflow/store"

	"vmc/hx"
	"vmc/vs"
)

func forged(off int32) string {
	var b bytes.Buffer
	binary.Write(&b, binary.LittleEndian, struct {
		N int64
		O int32
	}{1, off})
	return base64.StdEncoding.EncodeToString(b.Bytes())
}

func selectors(e *hx.E) {
	sizes := []int{0, 1, 2, 3, 4, 5, 7, 12, 13, 33}
	if e.Deep {
		sizes = append(sizes, 6, 8, 9, 10, 11, 20, 64, 120)
	}
	for _, n := range sizes {
		for variant := 0; variant < 4; variant++ {
			s := store.NewDefaultCachingStore(store.CacheConfig{})
			var keys []string
			for i := 0; i < n; i++ {
				id := fmt.Sprint((i*7 + 3) % (n + 5)) // lexical order differs from numeric order
				if variant&1 == 1 {
					id = fmt.Sprint(n-i, "-x")
				}
				for {
					if g, _ := s.Get(bg, value(id, 0)); !g.Found {
						break
					}
					id += "'"
				}
				x := value(id, 0)
				if variant&2 != 0 && i%3 == 0 {
					x.Meta.Source = srcs[1]
				}
				if err := s.Add(bg, x); err != nil {
					e.Fail("Add: %v", err)
				}
			}
			all, _ := s.List(bg, nil)
			for _, x := range all.Entries {
				keys = append(keys, x.Record.Identity())
			}
			sort.Strings(keys)
			list := func(sel *store.Selector) (store.Set, error) { return s.List(bg, sel) }
			index := func(sel *store.Selector) (store.Set, error) {
				return s.Index(bg, store.IndexBySource, store.Entry{Meta: store.Metadata{Source: srcs[0]}, Record: &vanflow.SiteRecord{}}, sel)
			}
			var in0 []string
			for _, k := range keys {
				if g, _ := s.Get(bg, value(k, 0)); g.Meta.Source == srcs[0] {
					in0 = append(in0, k)
				}
			}
			paging(e, fmt.Sprintf("List of %d/%d", n, variant), keys, list)
			paging(e, fmt.Sprintf("Index of %d/%d", n, variant), in0, index)
			e.States++
		}
	}
	e.Sample("collections of %v entries, every limit and offset, both orders, forged and mutated tokens", sizes)
}

// keyedSelectors: stores whose key is not the identity: several entries of one
// identity, and an order of keys that is not that of identities.
func keyedSelectors(e *hx.E) {
	sizes := []int{0, 1, 2, 3, 5, 8}
	if e.Deep {
		sizes = append(sizes, 4, 6, 7, 13, 33)
	}
	for _, n := range sizes {
		for variant := 0; variant < 2; variant++ {
			key := func(x store.Entry) string {
				if variant == 0 {
					return x.Meta.Source.String() + "/" + x.TypeMeta.Type + "/" + x.Record.Identity()
				}
				id := []byte(x.Record.Identity())
				for i := range id {
					id[i] = 255 - id[i]
				}
				return string(id) + x.Meta.Source.String() + x.TypeMeta.Type
			}
			s := store.NewDefaultCachingStore(store.CacheConfig{Key: func(x store.Entry) (string, error) { return key(x), nil }})
			var keys, in0 []string
			for i := 0; i < n; i++ {
				x := store.Entry{Record: &vanflow.SiteRecord{BaseRecord: vanflow.NewBase(fmt.Sprint(i / 4))}}
				if i%2 == 1 {
					x.Record = &vanflow.LinkRecord{BaseRecord: vanflow.NewBase(fmt.Sprint(i / 4))}
				}
				x.TypeMeta = x.Record.GetTypeMeta()
				x.Meta.Source = srcs[i/2%2]
				if err := s.Add(bg, x); err != nil {
					e.Fail("Add: %v", err)
				}
				keys = append(keys, key(x))
				if x.Meta.Source == srcs[0] {
					in0 = append(in0, key(x))
				}
			}
			sort.Strings(keys)
			sort.Strings(in0)
			pagingBy(e, fmt.Sprintf("List of %d keyed %d", n, variant), keys, func(sel *store.Selector) (store.Set, error) { return s.List(bg, sel) }, key)
			pagingBy(e, fmt.Sprintf("Index of %d keyed %d", n, variant), in0, func(sel *store.Selector) (store.Set, error) {
				return s.Index(bg, store.IndexBySource, store.Entry{Meta: store.Metadata{Source: srcs[0]}, Record: &vanflow.SiteRecord{}}, sel)
			}, key)
			e.States++
		}
	}
	e.Sample("collections of %v entries keyed by several attributes, every limit and offset, both orders, forged and mutated tokens", sizes)
}

func rev(l []string) []string {
	out := append([]string{}, l...)
	for i, j := 0, len(out)-1; i < j; i, j = i+1, j-1 {
		out[i], out[j] = out[j], out[i]
	}
	return out
}

func paging(e *hx.E, what string, asc []string, get func(*store.Selector) (store.Set, error)) {
	pagingBy(e, what, asc, get, func(x store.Entry) string { return x.Record.Identity() })
}

func pagingBy(e *hx.E, what string, asc []string, get func(*store.Selector) (store.Set, error), key func(store.Entry) string) {
	n := len(asc)
	call := func(sel store.Selector) (keys []string, cont string, err error) {
		e.Transitions++
		c := sel
		var set store.Set
		if p := hx.Try(func() { set, err = get(&c) }); p != "" {
			e.Fail("%s panics: %s", what, p)
		}
		if c != sel {
			e.Fail("%s modified the selector to %+v", what, c)
		}
		if err != nil {
			return nil, "", err
		}
		for _, x := range set.Entries {
			keys = append(keys, key(x))
		}
		if sel.Limit > 0 && len(keys) > sel.Limit {
			e.Fail("%s returns a page of %d", what, len(keys))
		}
		return keys, set.Continue, nil
	}
	limits := []int{0, 1, 2, 3, 5, n - 1, n, n + 1, 100000, math.MaxInt64}
	offs := []int{0, 1, 2, n - 1, n, n + 1, math.MaxInt32, math.MaxInt64}
	if n <= 7 {
		for i := 3; i < 7; i++ {
			limits, offs = append(limits, i), append(offs, i)
		}
	}
	var tokens []string
	for _, ord := range []store.Ordering{store.Ascending, store.Descending} {
		full := asc
		if ord == store.Descending {
			full = rev(asc)
		}
		for _, lim := range limits {
			for _, off := range offs {
				if lim < 0 || off < 0 {
					continue
				}
				for keep := 0; keep < 2; keep++ {
					if e.Over() {
						return
					}
					sel := store.Selector{Limit: lim, Offset: off, Ordering: ord}
					e.Input(func() string { return fmt.Sprintf("%s limit %d offset %d order %d", what, lim, off, ord) })
					var want []string
					if off < n {
						want = full[off:]
					}
					var got []string
					for page := 0; ; page++ {
						keys, cont, err := call(sel)
						if err != nil {
							e.Fail("%s fails: %v", what, err)
						}
						got = append(got, keys...)
						if cont == "" {
							break
						}
						if lim <= 0 {
							e.Fail("%s returns a continue token without a limit", what)
						}
						if len(tokens) < 4 {
							tokens = append(tokens, cont)
						}
						if page > n+2 || len(got) > n+2 {
							e.Fail("%s never ends paging: %v", what, got)
						}
						sel.Continue = cont
						if keep == 0 {
							sel.Offset = 0
						}
					}
					if fmt.Sprint(got) != fmt.Sprint(want) {
						e.Fail("%s pages to %v, expected %v", what, got, want)
					}
				}
			}
		}
	}
	// arbitrary selectors: a result or an error
	odd := []string{"", "x", "====", "AAAA", "AAAAAAAAAAAAAAAA", "AAAAAAAAAAAAAAAAAAAAAAAA", "not base64 ü", forged(0), forged(1), forged(int32(n)), forged(-1), forged(math.MinInt32), forged(math.MaxInt32), forged(int32(n) + 1)}
	for _, t := range tokens {
		b, err := base64.StdEncoding.DecodeString(t)
		if err != nil {
			b = []byte(t)
		}
		for i := range b {
			for bit := 0; bit < 8; bit++ {
				c := append([]byte{}, b...)
				c[i] ^= 1 << bit
				odd = append(odd, base64.StdEncoding.EncodeToString(c))
			}
			odd = append(odd, base64.StdEncoding.EncodeToString(b[:i]))
		}
		for i := range t {
			odd = append(odd, t[:i], t[i:], t[:i]+"\x00"+t[i:])
		}
	}
	for _, tok := range odd {
		for _, lim := range []int{0, 1, 2, n + 1, -1, math.MinInt64, math.MaxInt64} {
			for _, off := range []int{0, 1, n, -1, -n - 1, math.MinInt64, math.MaxInt64} {
				if tok != "" && off != 0 && off != -1 {
					continue
				}
				for _, ord := range []store.Ordering{store.Ascending, store.Descending, 2, -1} {
					if e.Over() {
						return
					}
					e.Input(func() string { return fmt.Sprintf("%s limit %d offset %d order %d token %q", what, lim, off, ord, tok) })
					keys, _, err := call(store.Selector{Limit: lim, Offset: off, Ordering: ord, Continue: tok})
					if err != nil {
						continue
					}
					// whatever part it is, it is in order and free of duplicates
					for i := 1; i < len(keys); i++ {
						if ord == store.Ascending && keys[i-1] >= keys[i] || ord == store.Descending && keys[i-1] <= keys[i] {
							e.Fail("%s returns %v", what, keys)
						}
					}
				}
			}
		}
	}
}

// largeSelectors pages through collections beyond the limits of small
// integer types.
func largeSelectors(e *hx.E) {
	vs.AllowTicks(200_000_000)
	type c struct {
		n            int
		limits, offs []int
	}
	cases := []c{
		{300, []int{1, 7, 100, 127, 128, 255, 256, 299}, []int{0, 1, 120, 127, 128, 254, 255, 256}},
		{70000, []int{16384, 32768, 69999}, []int{0, 32767, 65535}},
	}
	if e.Deep {
		cases = append(cases, c{1000, []int{1, 3, 64, 127, 128, 129, 255, 256, 257, 511, 512}, []int{0, 1, 127, 128, 255, 256, 511, 512, 999}},
			c{140000, []int{4096, 16384, 32767, 32768, 65535, 65536, 139999}, []int{0, 32767, 32768, 65535, 65536, 131072}})
	}
	for _, k := range cases {
		s := store.NewDefaultCachingStore(store.CacheConfig{})
		asc := make([]string, k.n)
		ent := make([]store.Entry, k.n)
		for i := range ent {
			asc[i] = fmt.Sprintf("%06d", i)
			ent[k.n-1-i] = value(asc[i], 0)
		}
		if err := s.Replace(bg, ent); err != nil {
			e.Fail("Replace of %d entries: %v", k.n, err)
		}
		for _, ord := range []store.Ordering{store.Ascending, store.Descending} {
			full := asc
			if ord == store.Descending {
				full = rev(asc)
			}
			for _, lim := range k.limits {
				for _, off := range k.offs {
					if e.Over() {
						return
					}
					e.Input(func() string { return fmt.Sprintf("%d entries, limit %d offset %d order %d", k.n, lim, off, ord) })
					sel := store.Selector{Limit: lim, Offset: off, Ordering: ord}
					at := off
					for {
						e.Transitions++
						set, err := s.List(bg, &sel)
						if err != nil {
							e.Fail("%d entries, limit %d, offset %d, order %d: after %d entries: %v", k.n, lim, off, ord, at-off, err)
						}
						if len(set.Entries) > lim {
							e.Fail("page of %d entries, limit %d", len(set.Entries), lim)
						}
						for _, x := range set.Entries {
							if at >= k.n || x.Record.Identity() != full[at] {
								e.Fail("%d entries, limit %d, offset %d, order %d: entry %d is %s", k.n, lim, off, ord, at, x.Record.Identity())
							}
							at++
						}
						if set.Continue == "" {
							break
						}
						if len(set.Entries) == 0 {
							e.Fail("%d entries, limit %d, offset %d, order %d: an empty page at %d continues", k.n, lim, off, ord, at)
						}
						sel.Continue = set.Continue
					}
					if at != k.n && off < k.n {
						e.Fail("%d entries, limit %d, offset %d, order %d: paging ends after %d", k.n, lim, off, ord, at)
					}
				}
			}
		}
		e.States++
	}
	e.Sample("collections of up to %d entries paged with limits and offsets around powers of two", cases[len(cases)-1].n)
}
