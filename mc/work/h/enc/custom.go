package main

import (
	"fmt"
	"math"
	"reflect"
	"strings"

	"github.com/c-kruse/vanflow/encoding"

	"vmc/hx"
	"vmc/vs"
)

// Record types an application defines and registers itself, with every kind
// of field the package supports.

type level int // encodes itself

func (l level) EncodeRecordAttribute() (any, error) {
	switch {
	case l == 0:
		return nil, encoding.ErrAttributeNotSet
	case l < 0:
		return nil, fmt.Errorf("negative level")
	}
	return uint32(l), nil
}

func (l *level) DecodeRecordAttribute(a any) error {
	u, ok := a.(uint32)
	if !ok || u == 0 {
		return fmt.Errorf("no level: %v", a)
	}
	*l = level(u)
	return nil
}

type words struct{ list []string } // encodes itself

func (w words) EncodeRecordAttribute() (any, error) {
	if w.list == nil {
		return nil, encoding.ErrAttributeNotSet
	}
	return strings.Join(w.list, ","), nil
}

func (w *words) DecodeRecordAttribute(a any) error {
	s, ok := a.(string)
	if !ok {
		return fmt.Errorf("no words: %v", a)
	}
	w.list = strings.Split(s, ",")
	return nil
}

type mood int // encodes itself, nil when there is nothing to encode

func (m mood) EncodeRecordAttribute() (any, error) {
	if m == 0 {
		return nil, nil
	}
	return int64(m), nil
}

func (m *mood) DecodeRecordAttribute(a any) error {
	i, ok := a.(int64)
	if !ok {
		return fmt.Errorf("no mood: %v", a)
	}
	*m = mood(i)
	return nil
}

type inner struct{ cusSmall } // a record within a record

func (r inner) EncodeRecordAttribute() (any, error) { return encoding.Encode(r.cusSmall) }

func (r *inner) DecodeRecordAttribute(a any) error {
	m, ok := a.(map[any]any)
	if !ok {
		return fmt.Errorf("no record: %v", a)
	}
	x, err := encoding.Decode(m)
	if err != nil {
		return err
	}
	s, ok := x.(*cusSmall)
	if !ok {
		return fmt.Errorf("no small record: %T", x)
	}
	r.cusSmall = *s
	return nil
}

type (
	zone  string // defined types of the supported kinds
	count uint64
	delta int64
	port  uint32
	shift int32
)

type cusSmall struct {
	A string `vflow:"1,required"`
}

type cusNest struct {
	A zone   `vflow:"1,required"`
	I inner  `vflow:"2,required"`
	P *inner `vflow:"3"`
}

type cusNamed struct {
	Z  zone   `vflow:"1,required"`
	C  count  `vflow:"2"`
	D  delta  `vflow:"3"`
	P  port   `vflow:"4"`
	S  shift  `vflow:"5"`
	PZ *zone  `vflow:"6"`
	PC *count `vflow:"7"`
	PD *delta `vflow:"8"`
	PP *port  `vflow:"9"`
	PS *shift `vflow:"10"`
}

type cusMood struct {
	A mood  `vflow:"1,required"`
	B mood  `vflow:"2"`
	C *mood `vflow:"3,required"`
	D *mood `vflow:"4"`
}

type cusAddr struct {
	Host string  `vflow:"201"`
	Port *uint32 `vflow:"202"`
}

type cusPlace struct {
	Zone string `vflow:"200"`
	cusAddr
	Level level `vflow:"203"`
}

type cusAll struct {
	Note string
	Key  uint64 `vflow:"100,required"`
	S    string `vflow:"101"`
	U    uint64 `vflow:"102"`
	hid  string
	I    int64   `vflow:"103"`
	W    uint32  `vflow:"104"`
	J    int32   `vflow:"105"`
	PS   *string `vflow:"106"`
	PU   *uint64 `vflow:"107"`
	PI   *int64  `vflow:"108"`
	cusPlace
	PW *uint32 `vflow:"109"`
	PJ *int32  `vflow:"110"`
	L  level   `vflow:"111"`
	PL *level  `vflow:"112"`
	Ws words   `vflow:"4294967295"`
	PV *words  `vflow:"114"`
}

type cusReq struct { // all required
	A string  `vflow:"1,required"`
	B *string `vflow:"2,required"`
	C int32   `vflow:"3,required"`
	D level   `vflow:"4,required"`
	E *level  `vflow:"5,required"`
	F *uint64 `vflow:"6,required"`
}

type cusNone struct{ X string }

const (
	codeAll  = 0x80000001
	codeReq  = math.MaxUint32 - 1
	codeNone = 77

	codeNamed = 78
	codeMood  = 79
	codeSmall = 80
	codeNest  = 81
)

func init() {
	encoding.MustRegisterRecord(codeAll, &cusAll{})
	encoding.MustRegisterRecord(codeReq, cusReq{})
	encoding.MustRegisterRecord(codeNone, cusNone{})
	encoding.MustRegisterRecord(codeNamed, cusNamed{})
	encoding.MustRegisterRecord(codeMood, &cusMood{})
	encoding.MustRegisterRecord(codeSmall, cusSmall{})
	encoding.MustRegisterRecord(codeNest, cusNest{})
}

type cusVal struct {
	set  func(v reflect.Value) // nil leaves the field alone
	wire any                   // nil: no attribute
	bad  bool                  // cannot be encoded
	text string
}

type cusField struct {
	path     string
	code     uint32
	required bool
	vals     []cusVal
	wrong    []any // attribute values that must be refused
}

func cusValues(t reflect.Type) []cusVal {
	put := func(x any) func(reflect.Value) {
		return func(v reflect.Value) { v.Set(reflect.ValueOf(x).Convert(v.Type())) }
	}
	ptr := func(x any) func(reflect.Value) {
		return func(v reflect.Value) {
			p := reflect.New(v.Type().Elem())
			p.Elem().Set(reflect.ValueOf(x).Convert(v.Type().Elem()))
			v.Set(p)
		}
	}
	out := []cusVal{{text: "unset"}}
	raw := func(isPtr bool, xs ...any) {
		for _, x := range xs {
			z := reflect.ValueOf(x).IsZero()
			if isPtr {
				out = append(out, cusVal{set: ptr(x), wire: x, text: fmt.Sprintf("&%v", x)})
			} else if z {
				continue // the same as unset
			} else {
				out = append(out, cusVal{set: put(x), wire: x, text: fmt.Sprint(x)})
			}
		}
	}
	e, isPtr := t, false
	if t.Kind() == reflect.Pointer {
		e, isPtr = t.Elem(), true
	}
	switch e {
	case reflect.TypeOf(level(0)):
		for _, l := range []level{1, 9, -1, 0} {
			w := cusVal{set: put(l), wire: uint32(l), text: fmt.Sprint(l)}
			if isPtr {
				w.set = ptr(l)
			}
			if l == 0 {
				w.wire = nil
			}
			if l < 0 {
				w.wire, w.bad = nil, true
			}
			out = append(out, w)
		}
		return out
	case reflect.TypeOf(mood(0)):
		for _, l := range []mood{1, -7, 0} {
			w := cusVal{set: put(l), wire: int64(l), text: fmt.Sprint(l)}
			if isPtr {
				w.set = ptr(l)
			}
			if l == 0 {
				w.wire = nil
			}
			out = append(out, w)
		}
		return out
	case reflect.TypeOf(inner{}):
		if !isPtr {
			out[0].bad = true // lacks the identity
		}
		for _, l := range []string{"a", ""} {
			w := cusVal{set: put(inner{cusSmall{l}}), wire: map[any]any{uint32(0): uint32(codeSmall), uint32(1): l}, text: "{" + l + "}"}
			if isPtr {
				w.set = ptr(inner{cusSmall{l}})
			}
			if l == "" {
				w.wire, w.bad = nil, true
			}
			out = append(out, w)
		}
		return out
	case reflect.TypeOf(words{}):
		for _, l := range [][]string{{"a"}, {"a", "b"}, {""}} {
			w := cusVal{set: put(words{l}), wire: strings.Join(l, ","), text: fmt.Sprint(l)}
			if isPtr {
				w.set = ptr(words{l})
			}
			out = append(out, w)
		}
		return out
	}
	switch e.Kind() {
	case reflect.String:
		raw(isPtr, "s", "", "\x00ü", strings.Repeat("q", 300))
	case reflect.Uint64:
		raw(isPtr, uint64(5), uint64(0), uint64(math.MaxUint64), uint64(1<<32))
	case reflect.Int64:
		raw(isPtr, int64(-5), int64(0), int64(math.MaxInt64), int64(math.MinInt64))
	case reflect.Uint32:
		raw(isPtr, uint32(5), uint32(0), uint32(math.MaxUint32))
	case reflect.Int32:
		raw(isPtr, int32(-5), int32(0), int32(math.MaxInt32), int32(math.MinInt32))
	}
	return out
}

// cusTable pairs the fields of a type with the codes written down here.
func cusTable(t reflect.Type, spec string) []cusField {
	var out []cusField
	for _, s := range strings.Fields(spec) {
		var f cusField
		p := strings.Split(s, ":")
		f.path = p[0]
		fmt.Sscan(p[1], &f.code)
		f.required = len(p) > 2
		sf, ok := t.FieldByName(f.path)
		if !ok {
			panic(f.path)
		}
		f.vals = cusValues(sf.Type)
		var wk reflect.Type
		for _, v := range f.vals {
			if v.wire != nil {
				wk = reflect.TypeOf(v.wire)
			}
		}
		for _, w := range universe {
			if w == nil || reflect.TypeOf(w) != wk {
				f.wrong = append(f.wrong, w)
			}
		}
		out = append(out, f)
	}
	return out
}

func cusCheck(e *hx.E, code uint32, t reflect.Type, fields []cusField, pick []int) {
	mk := func() reflect.Value {
		p := reflect.New(t)
		for i, f := range fields {
			if set := f.vals[pick[i]].set; set != nil {
				set(p.Elem().FieldByName(f.path))
			}
		}
		return p
	}
	e.Input(func() string {
		var l []string
		for i, f := range fields {
			if pick[i] > 0 {
				l = append(l, f.path+":"+f.vals[pick[i]].text)
			}
		}
		return t.Name() + "{" + strings.Join(l, " ") + "}"
	})
	e.Transitions++
	want := map[any]any{uint32(0): code}
	refuse := false
	ref := reflect.New(t) // what decoding yields
	for i, f := range fields {
		v := f.vals[pick[i]]
		switch {
		case v.bad:
			refuse = true
		case v.wire == nil:
			refuse = refuse || f.required
		default:
			want[f.code] = v.wire
			v.set(ref.Elem().FieldByName(f.path))
		}
	}
	p := mk()
	for _, arg := range []any{p.Interface(), p.Elem().Interface()} {
		var got encoding.RecordAttributeSet
		var err error
		if s := hx.Try(func() { got, err = encoding.Encode(arg) }); s != "" {
			e.Fail("Encode(%T) panics: %s", arg, s)
		}
		if refuse {
			if err == nil {
				e.Fail("Encode(%T) accepts a record that must be refused and returns {%s}", arg, showMap(got))
			}
			continue
		}
		if err != nil {
			e.Fail("Encode(%T) fails: %v", arg, err)
		}
		if !reflect.DeepEqual(map[any]any(got), want) {
			e.Fail("Encode(%T) returns {%s}, expected {%s}", arg, showMap(got), showMap(want))
		}
		if !reflect.DeepEqual(p.Interface(), mk().Interface()) {
			e.Fail("Encode(%T) changed the record", arg)
		}
		for _, in := range []map[any]any{got, overWire(e, got)} {
			var back any
			if s := hx.Try(func() { back, err = encoding.Decode(in) }); s != "" {
				e.Fail("Decode of the encoded record panics: %s", s)
			}
			if err != nil {
				e.Fail("Decode of the encoded record fails: %v", err)
			}
			if !reflect.DeepEqual(back, ref.Interface()) {
				e.Fail("decodes to %T %+v, expected %+v", back, back, ref.Interface())
			}
		}
	}
	if refuse {
		// the same map without what was refused must not decode when a
		// required attribute is missing
		for i, f := range fields {
			if f.required && fields[i].vals[pick[i]].wire == nil {
				var err error
				if s := hx.Try(func() { _, err = encoding.Decode(want) }); s != "" {
					e.Fail("Decode panics: %s", s)
				}
				if err == nil {
					e.Fail("Decode accepts {%s} without the required attribute %d", showMap(want), f.code)
				}
			}
		}
		return
	}
	// one wrong attribute
	if !e.Deep && e.Transitions%23 != 0 {
		return
	}
	for _, f := range fields {
		for _, w := range f.wrong {
			m := map[any]any{f.code: w, uint32(5000): w}
			for k, v := range want {
				if k != any(f.code) {
					m[k] = v
				}
			}
			var err error
			if s := hx.Try(func() { _, err = encoding.Decode(m) }); s != "" {
				e.Fail("Decode of {%s} panics: %s", showMap(m), s)
			}
			if err == nil {
				e.Fail("Decode accepts {%s}", showMap(m))
			}
		}
	}
}

func customEnum(e *hx.E) {
	for _, c := range []struct {
		code uint32
		t    reflect.Type
		spec string
	}{
		{codeReq, reflect.TypeOf(cusReq{}), "A:1:r B:2:r C:3:r D:4:r E:5:r F:6:r"},
		{codeNone, reflect.TypeOf(cusNone{}), ""},
		{codeMood, reflect.TypeOf(cusMood{}), "A:1:r B:2 C:3:r D:4"},
		{codeNest, reflect.TypeOf(cusNest{}), "A:1:r I:2:r P:3"},
		{codeNamed, reflect.TypeOf(cusNamed{}), "Z:1:r C:2 D:3 P:4 S:5 PZ:6 PC:7 PD:8 PP:9 PS:10"},
		{codeAll, reflect.TypeOf(cusAll{}), "Key:100:r S:101 U:102 I:103 W:104 J:105 PS:106 PU:107 PI:108 PW:109 PJ:110 L:111 PL:112 Ws:4294967295 PV:114 Zone:200 Host:201 Port:202 Level:203"},
	} {
		e.States++
		fields := cusTable(c.t, c.spec)
		n := len(fields)
		pick := make([]int, n)
		if n == 0 {
			cusCheck(e, c.code, c.t, fields, pick)
			continue
		}
		if n <= 6 { // the whole product
			for !e.Over() {
				cusCheck(e, c.code, c.t, fields, pick)
				i := 0
				for ; i < n; i++ {
					pick[i]++
					if pick[i] < len(fields[i].vals) && (e.Deep || pick[i] < 3) {
						break
					}
					pick[i] = 0
				}
				if i == n {
					break
				}
			}
			e.Sample("%s: the product of all field values", c.t.Name())
			continue
		}
		for _, full := range []int{0, 1} {
			for i := range pick {
				pick[i] = full
			}
			pick[0] = 1
			for i := range fields {
				pi := pick[i]
				for a := range fields[i].vals {
					pick[i] = a
					for j := i + 1; j < n; j++ {
						pj := pick[j]
						for b := range fields[j].vals {
							if e.Over() {
								return
							}
							pick[j] = b
							cusCheck(e, c.code, c.t, fields, pick)
						}
						pick[j] = pj
					}
				}
				pick[i] = pi
			}
		}
		e.Sample("%s: all pairs of field values with the others unset and set", c.t.Name())
	}
}

type cusDup struct {
	A string `vflow:"1"`
	B string `vflow:"1"`
}
type cusDupEmb struct {
	cusAddr
	B string `vflow:"201"`
}
type cusFloat struct {
	A float64 `vflow:"1"`
}
type cusPtrBool struct {
	A *bool `vflow:"1"`
}
type cusSlice struct {
	A []byte `vflow:"1"`
}
type cusStruct struct {
	A cusAddr `vflow:"1"`
}
type cusTag struct {
	A string `vflow:"x"`
}
type cusNeg struct {
	A string `vflow:"-1"`
}
type cusBig struct {
	A string `vflow:"4294967296"`
}
type cusOpt struct {
	A string `vflow:"1,mandatory"`
}
type cusZero struct {
	A uint32 `vflow:"0"`
}
type cusZeroEmb struct {
	cusZero
	B string `vflow:"1"`
}
type cusOther struct {
	A string `vflow:"1,required"`
}

// registration refuses what cannot work and leaves the registry as it was,
// also while records are being encoded and decoded
func registry() {

	done := make(chan string, 3)
	go func() {
		in := cusNest{"z", inner{cusSmall{"x"}}, nil}
		m, err := encoding.Encode(in)
		if err != nil {
			done <- err.Error()
			return
		}
		out, err := encoding.Decode(m)
		if err != nil || !reflect.DeepEqual(out, &in) {
			done <- fmt.Sprintf("%v %v", out, err)
			return
		}
		done <- ""
	}()
	go func() {
		for i, x := range []any{cusDup{}, cusDupEmb{}, cusFloat{}, cusPtrBool{}, cusSlice{}, cusStruct{}, cusTag{}, cusNeg{}, cusBig{}, cusOpt{}, cusZero{}, &cusZeroEmb{}, 7, "x", &[]string{}} {
			c := uint32(2000 + i)
			if s := hx.Try(func() { encoding.MustRegisterRecord(c, x) }); s == "" {
				done <- fmt.Sprintf("registering %T does not panic", x)
				return
			}
			if _, err := encoding.Decode(map[any]any{uint32(0): c, uint32(1): "a"}); err == nil {
				done <- fmt.Sprintf("the refused %T is registered", x)
				return
			}
		}
		for _, c := range []uint32{0, 14, codeAll, codeNone} {
			if s := hx.Try(func() { encoding.MustRegisterRecord(c, cusOther{}) }); s == "" {
				done <- fmt.Sprintf("registering a second type for %d does not panic", c)
				return
			}
		}
		if _, err := encoding.Encode(cusOther{A: "a"}); err == nil {
			done <- "a refused type is registered"
			return
		}
		for _, x := range []any{cusNone{}, &cusNone{}, cusReq{}} {
			if s := hx.Try(func() { encoding.MustRegisterRecord(3000, x) }); s == "" {
				done <- fmt.Sprintf("registering %T twice does not panic", x)
				return
			}
			if _, err := encoding.Decode(map[any]any{uint32(0): uint32(3000)}); err == nil {
				done <- "a refused code is registered"
				return
			}
		}
		done <- ""
	}()
	go func() {
		s := "v"
		for i := 0; i < 2; i++ {
			in := cusReq{"a", &s, 3, 4, new(level), new(uint64)}
			*in.E = 5
			m, err := encoding.Encode(in)
			if err != nil {
				done <- err.Error()
				return
			}
			out, err := encoding.Decode(m)
			if err != nil || !reflect.DeepEqual(out, &in) {
				done <- fmt.Sprintf("%v %v", out, err)
				return
			}
		}
		done <- ""
	}()
	for i := 0; i < 3; i++ {
		if s := <-done; s != "" {
			vs.Fail("assert", "%s", s)
		}
	}
	vs.Outcome("ok")
}
