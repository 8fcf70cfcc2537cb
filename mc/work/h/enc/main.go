package main

import (
	"fmt"
	"math"
	"reflect"
	"time"

	amqp "github.com/Azure/go-amqp"
	vanflow "github.com/c-kruse/vanflow"
	"github.com/c-kruse/vanflow/encoding"

	"vmc/hx"
	"vmc/vs"
)

func trunc(v []val) []val {
	out := append([]val(nil), v...)
	for i := range out {
		if t, ok := out[i].(time.Time); ok {
			if t.IsZero() {
				out[i] = nil
				continue
			}
			out[i] = t.Truncate(time.Microsecond)
		}
	}
	return out
}

// checkEncode checks one record both passed by value and by pointer.
func checkEncode(e *hx.E, t *recT, vals []val, wire bool) {
	e.Input(func() string { return t.show(vals) })
	p := t.build(vals)
	want, refuse, loose := t.expect(vals)
	for _, arg := range []any{p.Interface(), p.Elem().Interface()} {
		var got encoding.RecordAttributeSet
		var err error
		if s := hx.Try(func() { got, err = encoding.Encode(arg) }); s != "" {
			e.Fail("Encode(%T) panics: %s", arg, s)
		}
		e.Transitions++
		if refuse {
			if err == nil {
				e.Fail("Encode(%T) accepts a record that must be refused and returns {%s}", arg, showMap(got))
			}
			continue
		}
		if err != nil {
			if len(loose) > 0 {
				continue
			}
			e.Fail("Encode(%T) fails: %v", arg, err)
		}
		if !reflect.DeepEqual(map[any]any(got), want) {
			e.Fail("Encode(%T) returns {%s}, expected {%s}", arg, showMap(got), showMap(want))
		}
		if now := t.read(p); !sameVals(now, vals) && !sameVals(trunc(now), trunc(vals)) {
			e.Fail("Encode(%T) changed the record to %s", arg, t.show(now))
		}
		in := got
		if wire {
			in = overWire(e, got)
		}
		var back any
		if s := hx.Try(func() { back, err = encoding.Decode(in) }); s != "" {
			e.Fail("Decode of the encoded record panics: %s", s)
		}
		if err != nil {
			e.Fail("Decode of the encoded record fails: %v", err)
		}
		bv := reflect.ValueOf(back)
		if reflect.Indirect(bv).Type() != t.t {
			e.Fail("decodes to a %T", back)
		}
		if g, w := t.read(bv), trunc(vals); !sameVals(g, w) {
			e.Fail("decodes to %s", t.show(g))
		}
	}
}

func overWire(e *hx.E, set map[any]any) map[any]any {
	m := &amqp.Message{Value: []any{set}}
	b, err := m.MarshalBinary()
	if err != nil {
		e.Fail("cannot be marshalled: %v", err)
	}
	var n amqp.Message
	if err := n.UnmarshalBinary(b); err != nil {
		e.Fail("cannot be unmarshalled: %v", err)
	}
	l, _ := n.Value.([]any)
	if len(l) != 1 {
		e.Fail("wire value is %T of %d", n.Value, len(l))
	}
	out, ok := l[0].(map[any]any)
	if !ok {
		e.Fail("wire element is %T", l[0])
	}
	return out
}

func encodeEnum(e *hx.E) {
	for _, t := range recs {
		e.States++
		n := len(t.fields)
		base := make([]val, n)
		base[0] = "id"
		// every subset of the optional fields
		limit := 1 << (n - 1)
		if !e.Deep && limit > 1<<12 {
			limit = 1 << 12
		}
		for m := 0; m < limit && !e.Over(); m++ {
			vals := append([]val(nil), base...)
			for i := 1; i < n; i++ {
				if m>>(i-1)&1 == 1 {
					vals[i] = classes(t.fields[i].k, i)[0]
				}
			}
			checkEncode(e, t, vals, m%64 == 0)
		}
		// every subset of up to 10 optional fields explicitly set to zero
		zero := func(i int) val {
			switch t.fields[i].k {
			case kS:
				return ""
			case kU:
				return uint64(0)
			}
			return epoch
		}
		k := n - 1
		if k > 11 {
			k = 11
		}
		for m := 0; m < 1<<k && !e.Over(); m++ {
			vals := append([]val(nil), base...)
			for i := 1; i <= k; i++ {
				if m>>(i-1)&1 == 1 {
					vals[n-i] = zero(n - i)
				}
			}
			checkEncode(e, t, vals, false)
		}
		// every class of every field, and of every pair of fields, with the
		// others unset or set
		for _, full := range []bool{false, true} {
			ctx := append([]val(nil), base...)
			if full {
				for i := 1; i < n; i++ {
					ctx[i] = classes(t.fields[i].k, i)[0]
				}
			}
			for i := 0; i < n; i++ {
				ci := append([]val{nil}, classes(t.fields[i].k, i)...)
				for _, a := range ci {
					vals := append([]val(nil), ctx...)
					vals[i] = a
					checkEncode(e, t, vals, true)
					for j := i + 1; j < n; j++ {
						for bi, b := range append([]val{nil}, classes(t.fields[j].k, j)...) {
							if e.Over() {
								return
							}
							if !e.Deep && bi > 5 {
								break
							}
							w := append([]val(nil), vals...)
							w[j] = b
							checkEncode(e, t, w, false)
						}
					}
				}
			}
		}
		e.Sample("%s: subsets of %d optional attributes, %d fields by value class pairs", t.t.Name(), n-1, n)
	}
	// what is not a registered record
	type other struct{ X int }
	var np *vanflow.SiteRecord
	for _, x := range []any{nil, other{}, &other{}, 3, "x", np, map[any]any{}, (*other)(nil), []int(nil)} {
		e.Input(func() string { return fmt.Sprintf("%T(%v)", x, x) })
		var err error
		var m map[any]any
		if s := hx.Try(func() { m, err = encoding.Encode(x) }); s != "" {
			e.Fail("Encode panics: %s", s)
		}
		if err == nil {
			e.Fail("Encode accepts it: %v", m)
		}
	}
}

// sequences of encodings and decodings do not influence one another
func seqEnum(e *hx.E) {
	type item struct {
		t    *recT
		vals []val
		set  map[any]any
	}
	var items []item
	for _, t := range recs {
		n := len(t.fields)
		for v := 0; v < 3; v++ {
			vals := make([]val, n)
			vals[0] = fmt.Sprintf("i%d", v)
			for i := 1; i < n; i++ {
				if v == 1 || v == 2 && i%2 == 0 {
					vals[i] = classes(t.fields[i].k, i+v)[0]
				}
			}
			set, _, _ := t.expect(vals)
			items = append(items, item{t, vals, set})
		}
	}
	bad := []map[any]any{{}, {uint32(0): uint32(0)}, {uint32(0): uint32(6), uint32(1): "x", uint32(2): 5}, {uint32(0): uint32(99)}}
	for i := range items {
		for j := range items {
			if e.Over() {
				return
			}
			a, b := items[i], items[j]
			e.Input(func() string { return a.t.show(a.vals) + " then " + b.t.show(b.vals) })
			e.Transitions++
			cp := func(m map[any]any) map[any]any {
				o := map[any]any{}
				for k, v := range m {
					o[k] = v
				}
				return o
			}
			in := cp(a.set)
			ra, err1 := encoding.Decode(in)
			if j%5 == 0 {
				encoding.Decode(cp(bad[(i+j)%len(bad)]))
			}
			rb, err2 := encoding.Decode(cp(b.set))
			if err1 != nil || err2 != nil {
				e.Fail("decode fails: %v %v", err1, err2)
			}
			if !reflect.DeepEqual(in, a.set) {
				e.Fail("decoding changed the attribute map to {%s}", showMap(in))
			}
			if g := a.t.read(reflect.ValueOf(ra)); !sameVals(g, trunc(a.vals)) {
				e.Fail("first record became %s", a.t.show(g))
			}
			if g := b.t.read(reflect.ValueOf(rb)); !sameVals(g, trunc(b.vals)) {
				e.Fail("second record is %s", b.t.show(g))
			}
			sa, err1 := encoding.Encode(ra)
			sb, err2 := encoding.Encode(rb)
			if err1 != nil || err2 != nil {
				e.Fail("encode fails: %v %v", err1, err2)
			}
			if !reflect.DeepEqual(map[any]any(sa), a.set) || !reflect.DeepEqual(map[any]any(sb), b.set) {
				e.Fail("encodings are {%s} and {%s}", showMap(sa), showMap(sb))
			}
			sb[uint32(77)] = 1
			sc, _ := encoding.Encode(ra)
			if !reflect.DeepEqual(map[any]any(sc), a.set) {
				e.Fail("third encoding is {%s}", showMap(sc))
			}
		}
	}
}

var universe = []any{
	nil, true, int8(1), int16(1), int32(1), int64(1), uint8(1), uint16(1), uint32(1), uint32(0), uint64(0), uint64(7), uint64(math.MaxInt64), uint64(math.MaxInt64) + 1, uint64(math.MaxUint64), uint64(1 << 32), uint64(1<<32 | 6), int64(1 << 32), int64(-1),
	float32(1), float64(1), "", "txt", []byte("x"), []any{}, []any{"x"}, map[any]any{}, map[any]any{uint32(0): uint32(0)}, map[string]any{"a": 1}, amqp.UUID{1}, time.Unix(5, 0), 'x', int(3), uint(3), []string{"a"}, struct{}{}, new(string), new(uint64), (*string)(nil), vanflow.Time{}, func() {},
	// of another type, though it looks the same
	definedString("s"), definedUint(7), definedCode(0), time.Duration(7),
}

type (
	definedString string
	definedUint   uint64
	definedCode   uint32
)

// checkDecode decodes one attribute map and compares with the table.
func checkDecode(e *hx.E, set map[any]any) {
	e.Input(func() string { return "{" + showMap(set) + "}" })
	e.Transitions++
	var t *recT
	ok := false
	if c, isU := set[uint32(0)].(uint32); isU {
		for _, x := range recs {
			if x.code == c {
				t, ok = x, true
			}
		}
	}
	var want []val
	if ok {
		want = make([]val, len(t.fields))
		for i, f := range t.fields {
			v, present := set[f.code]
			if !present {
				if f.k == kI {
					ok = false
				}
				continue
			}
			switch f.k {
			case kI, kS:
				s, is := v.(string)
				if !is {
					ok = false
				}
				want[i] = s
			case kU:
				u, is := v.(uint64)
				if !is {
					ok = false
				}
				want[i] = u
			case kT:
				u, is := v.(uint64)
				if !is || u > math.MaxInt64 {
					ok = false
				}
				want[i] = time.UnixMicro(int64(u))
			}
		}
	}
	var rec any
	var err error
	if s := hx.Try(func() { rec, err = encoding.Decode(set) }); s != "" {
		e.Fail("Decode panics: %s", s)
	}
	if !ok {
		if err == nil {
			e.Fail("Decode accepts it and returns %T", rec)
		}
		return
	}
	if err != nil {
		e.Fail("Decode fails: %v", err)
	}
	rv := reflect.ValueOf(rec)
	if rv.Kind() != reflect.Pointer || rv.Elem().Type() != t.t {
		e.Fail("Decode returns %T, not *%s", rec, t.t)
	}
	if g := t.read(rv); !sameVals(g, want) {
		e.Fail("Decode returns %s, expected %s", t.show(g), t.show(want))
	}
}

func decodeEnum(e *hx.E) {
	checkDecode(e, nil)
	checkDecode(e, map[any]any{})
	for _, v := range universe { // the type attribute
		checkDecode(e, map[any]any{uint32(0): v, uint32(1): "x"})
		checkDecode(e, map[any]any{v2key(v): uint32(0), uint32(1): "x"})
	}
	for c := uint32(0); c < 40; c++ {
		checkDecode(e, map[any]any{uint32(0): c, uint32(1): "x"})
		checkDecode(e, map[any]any{uint32(0): c})
		checkDecode(e, map[any]any{uint64(0): c, uint32(1): "x"})
		checkDecode(e, map[any]any{int(0): c, "0": c, uint32(1): "x"})
	}
	checkDecode(e, map[any]any{uint32(0): uint32(math.MaxUint32), uint32(1): "x"})
	for _, t := range recs {
		e.States++
		base := map[any]any{uint32(0): t.code, uint32(1): "id"}
		full := map[any]any{uint32(0): t.code}
		for i, f := range t.fields {
			switch f.k {
			case kI, kS:
				full[f.code] = fmt.Sprint("v", i)
			default:
				full[f.code] = uint64(100 + i)
			}
		}
		with := func(m map[any]any, kv ...any) map[any]any {
			o := map[any]any{}
			for k, v := range m {
				o[k] = v
			}
			for i := 0; i < len(kv); i += 2 {
				o[kv[i]] = kv[i+1]
			}
			return o
		}
		without := func(m map[any]any, k any) map[any]any {
			o := with(m)
			delete(o, k)
			return o
		}
		for _, ctx := range []map[any]any{base, full} {
			checkDecode(e, ctx)
			// every code from 1 to 80 with every value
			for c := uint32(1); c <= 80; c++ {
				for _, v := range universe {
					checkDecode(e, with(ctx, c, v))
				}
				checkDecode(e, without(ctx, c))
			}
			// keys that only look like codes
			for _, f := range t.fields {
				for _, k := range []any{uint64(f.code), int(f.code), uint8(f.code), int32(f.code), fmt.Sprint(f.code), f.name, float64(f.code), nil, true} {
					for _, v := range []any{nil, "q", uint64(9), 1} {
						checkDecode(e, with(ctx, k, v))
						checkDecode(e, without(with(ctx, k, v), f.code))
					}
				}
			}
			// pairs of fields
			for i, f := range t.fields {
				for j := i + 1; j < len(t.fields); j++ {
					g := t.fields[j]
					for ai, a := range universe {
						for bi, b := range universe {
							if e.Over() {
								return
							}
							if !e.Deep && (ai+bi)%3 == 1 {
								continue
							}
							checkDecode(e, with(ctx, f.code, a, g.code, b))
						}
					}
				}
			}
		}
		e.Sample("%s: codes 1..80 by %d values, pairs of fields by values, look-alike keys", t.t.Name(), len(universe))
	}
}

func v2key(v any) any {
	if v == nil || !reflect.TypeOf(v).Comparable() {
		return "k"
	}
	return v
}

func main() {
	hx.Add(&hx.S{Name: "encode", Props: []string{"C01"}, Enum: encodeEnum, Sec: 12, DeepS: 400})
	hx.Add(&hx.S{Name: "sequences", Props: []string{"C01", "C02"}, Enum: seqEnum, Sec: 8})
	hx.Add(&hx.S{Name: "decode", Props: []string{"C02"}, Enum: decodeEnum, Sec: 14, DeepS: 400})
	hx.Add(&hx.S{Name: "custom", Props: []string{"C01", "C02"}, Enum: customEnum, Sec: 8, DeepS: 200})
	hx.Add(&hx.S{Name: "registry", Props: []string{"C01", "C02"}, Quick: vs.Config{Preempt: hx.P(0, 1, 2)}, Body: registry})
	hx.Add(&hx.S{Name: "messages", Props: []string{"C03"}, Enum: messageEnum, Sec: 10, DeepS: 200})
	hx.Add(&hx.S{Name: "malformed", Props: []string{"C03"}, Enum: malformedEnum, Sec: 10, DeepS: 200})
	hx.Add(&hx.S{Name: "concurrent", Props: []string{"C01", "C02", "C03"}, Quick: vs.Config{Preempt: hx.P(0, 1, 2)}, Body: concurrent})
	hx.Main()
}

// concurrent use of the codec is free of races and interference
func concurrent() {
	shared := &vanflow.RouterRecord{BaseRecord: vanflow.NewBase("r", time.UnixMicro(7))}
	name := "n"
	shared.Name = &name
	set := map[any]any{uint32(0): uint32(1), uint32(1): "r", uint32(3): uint64(7), uint32(30): "n"}
	done := make(chan string, 3)
	go func() {
		m, err := encoding.Encode(shared)
		if err != nil || !reflect.DeepEqual(map[any]any(m), set) {
			done <- fmt.Sprintf("encode: %v %v", m, err)
			return
		}
		done <- ""
	}()
	go func() {
		x, err := encoding.Decode(set)
		if err != nil || !reflect.DeepEqual(x, shared) {
			done <- fmt.Sprintf("decode: %v %v", x, err)
			return
		}
		done <- ""
	}()
	go func() {
		m, err := vanflow.RecordMessage{MessageProps: vanflow.MessageProps{To: "a"}, Records: []vanflow.Record{shared, *shared}}.Encode()
		if err != nil {
			done <- err.Error()
			return
		}
		x, err := vanflow.Decode(m)
		rm, _ := x.(vanflow.RecordMessage)
		if err != nil || len(rm.Records) != 2 || !reflect.DeepEqual(rm.Records[0], shared) || !reflect.DeepEqual(rm.Records[1], shared) {
			done <- fmt.Sprintf("message: %v %v", x, err)
			return
		}
		done <- ""
	}()
	for i := 0; i < 3; i++ {
		if s := <-done; s != "" {
			vs.Fail("assert", "%s", s)
		}
	}
}
