package main

import (
	"fmt"
	"reflect"

	vanflow "github.com/c-kruse/vanflow"
	"github.com/c-kruse/vanflow/encoding"
	"github.com/c-kruse/vanflow/store"

	"vmc/hx"
	"vmc/vs"
)

// tags is an attribute that encodes itself, to a list.
type tags []string

func (t tags) EncodeRecordAttribute() (any, error) {
	if t == nil {
		return nil, encoding.ErrAttributeNotSet
	}
	return []string(t), nil
}

func (t *tags) DecodeRecordAttribute(a any) error {
	l, ok := a.([]string)
	if !ok {
		return fmt.Errorf("no tags: %T", a)
	}
	*t = append(tags{}, l...)
	return nil
}

// gadget is a record type of an application.
type gadget struct {
	Kind int32   `vflow:"98,required"`
	Key  string  `vflow:"99,required"`
	Tags tags    `vflow:"100"`
	Size *uint64 `vflow:"101"`
}

func (g gadget) Identity() string { return g.Key }
func (g gadget) GetTypeMeta() vanflow.TypeMeta {
	return vanflow.TypeMeta{APIVersion: "vmc", Type: "Gadget"}
}

func init() { encoding.MustRegisterRecord(9001, gadget{}) }

func (g gadget) text() string {
	s := "unset"
	if g.Size != nil {
		s = fmt.Sprint(*g.Size)
	}
	return fmt.Sprintf("%s/%d tags %#v size %s", g.Key, g.Kind, g.Tags, s)
}

// customRecords: every sequence of partial records of an application's type.
func customRecords(e *hx.E) {
	var parts []gadget
	for _, t := range []tags{nil, {}, {"a"}, {"a", "b"}} {
		for _, s := range []*uint64{nil, ptr(uint64(0)), ptr(uint64(5))} {
			parts = append(parts, gadget{1, "x", t, s})
		}
	}
	parts = append(parts, gadget{2, "x", nil, nil}, gadget{1, "y", tags{"b"}, nil}, gadget{0, "x", tags{"z"}, nil})
	depth := 3
	if e.Deep {
		depth = 4
	}
	seq := make([]int, depth)
	for !e.Over() {
		e.Execs++
		var events []string
		st := store.NewDefaultCachingStore(store.CacheConfig{EventHandlers: store.EventHandlerFuncs{
			OnAdd:    func(x store.Entry) { events = append(events, "add") },
			OnChange: func(p, x store.Entry) { events = append(events, "change") },
		}})
		model := map[string]gadget{}
		e.Input(func() string {
			s := ""
			for _, n := range seq {
				s += parts[n].text() + "; "
			}
			return s
		})
		for i, n := range seq {
			e.Transitions++
			p := parts[n]
			var r vanflow.Record = p
			if i%2 == 1 {
				r = &p
			}
			cur, had := model[p.Key]
			if !had && p.Kind == 0 {
				break // adding a record that cannot be encoded is no merge
			}
			next, want := cur, ""
			wantErr := false
			switch {
			case !had:
				next, want = p, "add"
			case p.Kind == 0:
				wantErr = true
			default:
				next.Kind = p.Kind
				if p.Tags != nil {
					next.Tags = p.Tags
				}
				if p.Size != nil {
					next.Size = p.Size
				}
				if next.text() != cur.text() {
					want = "change"
				}
			}
			events = nil
			var err error
			if s := hx.Try(func() { err = st.Accumulate(srcs[0], r) }); s != "" {
				e.Fail("accumulating %s panics: %s", p.text(), s)
			}
			if (err != nil) != wantErr {
				e.Fail("accumulating %s: error %v", p.text(), err)
			}
			if got := fmt.Sprint(events); got != fmt.Sprint([]string{want}) && !(want == "" && len(events) == 0) {
				e.Fail("accumulating %s raised %v, want %q", p.text(), events, want)
			}
			model[p.Key] = next
			got, err := st.Get(bg, store.Entry{Record: p})
			if err != nil || !got.Found {
				e.Fail("not found: %v", err)
			}
			g, ok := reflect.Indirect(reflect.ValueOf(got.Record)).Interface().(gadget)
			if !ok || g.text() != next.text() {
				e.Fail("after accumulating %s the record is %+v, want %s", p.text(), got.Record, next.text())
			}
		}
		e.States++
		vs.ResetTicks()
		i := depth - 1
		for i >= 0 {
			if seq[i]++; seq[i] < len(parts) {
				break
			}
			seq[i] = 0
			i--
		}
		if i < 0 {
			break
		}
	}
	e.Sample("all sequences of %d of %d partial records of an application's type", depth, len(parts))
}
