package main

import (
	"fmt"
	"math"
	"reflect"
	"time"

	amqp "github.com/Azure/go-amqp"
	vanflow "github.com/c-kruse/vanflow"

	"vmc/hx"
)

func ptr[T any](v T) *T { return &v }

func viaWire(e *hx.E, m *amqp.Message) *amqp.Message {
	b, err := m.MarshalBinary()
	if err != nil {
		e.Fail("message cannot be marshalled: %v", err)
	}
	var n amqp.Message
	if err := n.UnmarshalBinary(b); err != nil {
		e.Fail("message cannot be unmarshalled: %v", err)
	}
	return &n
}

func decode(e *hx.E, m *amqp.Message) (x any, err error) {
	e.Transitions++
	if s := hx.Try(func() { x, err = vanflow.Decode(m) }); s != "" {
		e.Fail("Decode panics: %s", s)
	}
	return
}

func str(p *string) string {
	if p == nil {
		return "<nil>"
	}
	return *p
}

func checkProps(e *hx.E, m *amqp.Message, to, subject string, reply *string, app map[string]any) {
	if m.Properties == nil || str(m.Properties.To) != to || str(m.Properties.Subject) != subject {
		e.Fail("encoded properties %+v, expected to %q subject %q", m.Properties, to, subject)
	}
	if reply != nil && str(m.Properties.ReplyTo) != *reply {
		e.Fail("encoded reply-to %q, expected %q", str(m.Properties.ReplyTo), *reply)
	}
	if app != nil && !reflect.DeepEqual(m.ApplicationProperties, app) {
		e.Fail("encoded application properties %#v, expected %#v", m.ApplicationProperties, app)
	}
}

func messageEnum(e *hx.E) {
	strs := []string{"", "a", "mc/sfe.x", "ü\x00", string(make([]byte, 300))}
	u32 := []uint32{0, 1, 255, 256, math.MaxUint32}
	u64 := []uint64{0, 1, 255, 256, math.MaxUint32 + 1, math.MaxUint64}
	both := func(m *amqp.Message, want any) {
		for i := 0; i < 2; i++ {
			x, err := decode(e, m)
			if err != nil {
				e.Fail("Decode fails: %v", err)
			}
			if !reflect.DeepEqual(x, want) {
				e.Fail("decodes to %#v, expected %#v", x, want)
			}
			m = viaWire(e, m)
		}
	}
	for _, v := range u32 {
		for _, a := range strs {
			for _, b := range strs {
				for _, c := range strs {
					for _, d := range strs {
						bm := vanflow.BeaconMessage{Version: v, SourceType: a, Address: b, Direct: c, Identity: d}
						e.Input(func() string { return fmt.Sprintf("%#v", bm) })
						m := bm.Encode()
						checkProps(e, m, "mc/sfe.all", "BEACON", nil, map[string]any{"v": v, "sourceType": a, "address": b, "direct": c, "id": d})
						w := bm
						w.To, w.Subject = "mc/sfe.all", "BEACON"
						both(m, w)
					}
				}
			}
		}
		e.States++
		for _, id := range strs {
			for _, now := range u64 {
				hm := vanflow.HeartbeatMessage{Version: v, Identity: id, Now: now}
				e.Input(func() string { return fmt.Sprintf("%#v", hm) })
				m := hm.Encode()
				checkProps(e, m, "mc/sfe."+id, "HEARTBEAT", nil, map[string]any{"v": v, "now": now, "id": id})
				w := hm
				w.To, w.Subject = "mc/sfe."+id, "HEARTBEAT"
				both(m, w)
			}
		}
	}
	for _, a := range strs {
		for _, b := range strs {
			fm := vanflow.FlushMessage{MessageProps: vanflow.MessageProps{To: a, ReplyTo: b}}
			e.Input(func() string { return fmt.Sprintf("%#v", fm) })
			m := fm.Encode()
			checkProps(e, m, a, "FLUSH", &b, nil)
			w := fm
			w.Subject = "FLUSH"
			both(m, w)
		}
	}
	// record messages: every sequence of up to three of a pool of records
	type item struct {
		t    *recT
		vals []val
		rec  vanflow.Record
	}
	var pool []item
	for _, t := range recs {
		n := len(t.fields)
		for v := 0; v < 2; v++ {
			vals := make([]val, n)
			vals[0] = fmt.Sprintf("%d-%d", t.code, v)
			for i := 1; i < n; i++ {
				if v == 1 {
					vals[i] = classes(t.fields[i].k, i)[0]
				}
			}
			p := t.build(vals)
			x := p.Interface()
			if v == 0 {
				x = p.Elem().Interface()
			}
			rec, ok := x.(vanflow.Record)
			if !ok {
				e.Input(func() string { return t.t.Name() })
				e.Fail("%T is a registered record but not a Record: messages cannot carry it", x)
			}
			pool = append(pool, item{t, vals, rec})
		}
	}
	check := func(to string, its []item) {
		e.Input(func() string {
			s := "records"
			for _, it := range its {
				s += " " + it.t.show(it.vals)
			}
			return s
		})
		rm := vanflow.RecordMessage{MessageProps: vanflow.MessageProps{To: to}}
		for _, it := range its {
			rm.Records = append(rm.Records, it.rec)
		}
		m, err := rm.Encode()
		if err != nil {
			e.Fail("Encode fails: %v", err)
		}
		checkProps(e, m, to, "RECORD", nil, nil)
		l, ok := m.Value.([]any)
		if !ok || len(l) != len(its) {
			e.Fail("encoded value is %T of %d elements, expected %d", m.Value, len(l), len(its))
		}
		for i, it := range its {
			want, _, _ := it.t.expect(it.vals)
			if g, ok := l[i].(map[any]any); !ok || !reflect.DeepEqual(g, want) {
				e.Fail("element %d is %v, expected {%s}", i, l[i], showMap(want))
			}
		}
		for w := 0; w < 2; w++ {
			x, err := decode(e, m)
			if err != nil {
				e.Fail("Decode fails: %v", err)
			}
			got, ok := x.(vanflow.RecordMessage)
			if !ok || got.To != to || got.Subject != "RECORD" || len(got.Records) != len(its) {
				e.Fail("decodes to %#v", x)
			}
			for i, it := range its {
				rv := reflect.ValueOf(got.Records[i])
				if reflect.Indirect(rv).Type() != it.t.t || !sameVals(it.t.read(rv), trunc(it.vals)) {
					e.Fail("record %d decodes to %#v", i, got.Records[i])
				}
				if got.Records[i].Identity() != it.vals[0] {
					e.Fail("record %d has identity %q", i, got.Records[i].Identity())
				}
				if tm := got.Records[i].GetTypeMeta(); tm.Type != it.t.t.Name() || tm.APIVersion != "flow/v1" || tm != it.rec.GetTypeMeta() {
					e.Fail("record %d has type %v", i, tm)
				}
			}
			m = viaWire(e, m)
		}
	}
	for _, to := range strs {
		check(to, nil)
	}
	for _, a := range pool {
		check("x", []item{a})
		for _, b := range pool {
			check("x", []item{a, b})
			for k, c := range pool {
				if e.Over() {
					return
				}
				if e.Deep || k%7 == 0 {
					check("x", []item{a, b, c})
				}
			}
		}
	}
	for _, n := range []int{10, 100, 1000} {
		var l []item
		for i := 0; i < n; i++ {
			l = append(l, pool[i*7%len(pool)])
		}
		check("x", l)
	}
	e.Sample("beacons, heartbeats and flushes over %d strings, record lists up to 3 of %d records and up to 1000 long", len(strs), len(pool))
	// a record that cannot be encoded is refused at every position
	good := []vanflow.Record{vanflow.SiteRecord{BaseRecord: vanflow.NewBase("a")}, &vanflow.LinkRecord{BaseRecord: vanflow.NewBase("b")}}
	past := time.Unix(-5, 0)
	bad := []vanflow.Record{vanflow.SiteRecord{BaseRecord: vanflow.NewBase("p", past)}, &vanflow.LinkRecord{BaseRecord: vanflow.NewBase("q", time.Unix(3, 0), past), Name: ptr("n")}, vanflow.RouterRecord{Name: ptr("nobody")}, nil, vanflow.SiteRecord{}, &vanflow.FlowRecord{}, (*vanflow.SiteRecord)(nil), foreign{}, &foreign{}}
	for _, b := range bad {
		for pos := 0; pos < 3; pos++ {
			var l []vanflow.Record
			l = append(l, good[:pos]...)
			l = append(l, b)
			l = append(l, good[pos:]...)
			e.Input(func() string { return fmt.Sprintf("bad record %T %v at %d", b, b == nil, pos) })
			var err error
			if s := hx.Try(func() { _, err = vanflow.RecordMessage{Records: l}.Encode() }); s != "" {
				e.Fail("Encode panics: %s", s)
			}
			if err == nil {
				e.Fail("Encode accepts the message")
			}
		}
	}
}

type foreign struct{}

func (foreign) Identity() string              { return "f" }
func (foreign) GetTypeMeta() vanflow.TypeMeta { return vanflow.TypeMeta{Type: "foreign"} }

func malformedEnum(e *hx.E) {
	subjects := []*string{nil, ptr(""), ptr("BEACON"), ptr("HEARTBEAT"), ptr("FLUSH"), ptr("RECORD"), ptr("beacon"), ptr("Record"), ptr("RECORD "), ptr("FLUSHX"), ptr("BEACO"), ptr("LOG")}
	kinds := map[string]string{"BEACON": "vanflow.BeaconMessage", "HEARTBEAT": "vanflow.HeartbeatMessage", "FLUSH": "vanflow.FlushMessage", "RECORD": "vanflow.RecordMessage"}
	judge := func(m *amqp.Message, validRecord bool) any {
		x, err := decode(e, m)
		sub := ""
		if m != nil && m.Properties != nil && m.Properties.Subject != nil {
			sub = *m.Properties.Subject
		}
		k, known := kinds[sub]
		if !known {
			if err == nil {
				e.Fail("Decode accepts subject %q and returns %T", sub, x)
			}
			return nil
		}
		if sub == "RECORD" && !validRecord {
			if err == nil {
				e.Fail("Decode accepts the record message and returns %#v", x)
			}
			return nil
		}
		if err != nil {
			if sub == "RECORD" {
				e.Fail("Decode refuses a valid record message: %v", err)
			}
			return nil
		}
		if g := fmt.Sprintf("%T", x); g != k {
			e.Fail("Decode returns a %s for subject %s", g, sub)
		}
		return x
	}
	judge(nil, false)
	judge(&amqp.Message{}, false)
	vals := append([]any{}, universe...)
	for _, s := range subjects {
		e.States++
		for pm := 0; pm < 16; pm++ {
			for _, v := range vals {
				if pm > 1 && v != nil {
					continue
				}
				for am := 0; am < 3; am++ {
					m := &amqp.Message{Properties: &amqp.MessageProperties{Subject: s}, Value: v}
					if pm&1 != 0 {
						m.Properties.To = ptr("to")
					}
					if pm&2 != 0 {
						m.Properties.ReplyTo = ptr("rt")
					}
					if pm&4 != 0 {
						m.Properties.MessageID = "x"
						m.Properties.UserID = []byte{1}
					}
					if pm&8 != 0 {
						m.Data = [][]byte{[]byte("d")}
					}
					switch am {
					case 1:
						m.ApplicationProperties = map[string]any{}
					case 2:
						m.ApplicationProperties = map[string]any{"": nil, "v": "x"}
					}
					e.Input(func() string { return fmt.Sprintf("subject %s props %d value %T", str(s), pm, v) })
					_, isList := v.([]any)
					judge(m, isList && len(v.([]any)) == 0)
				}
			}
		}
	}
	// application properties of every type under every key
	keys := []string{"v", "sourceType", "address", "direct", "id", "now", "", "other"}
	for _, s := range []string{"BEACON", "HEARTBEAT"} {
		for _, k1 := range keys {
			for _, v1 := range vals {
				for _, k2 := range keys {
					for vi, v2 := range vals {
						if e.Over() {
							return
						}
						if !e.Deep && vi%3 != 0 {
							continue
						}
						app := map[string]any{"v": uint32(5), "sourceType": "st", "address": "ad", "direct": "di", "id": "identity", "now": uint64(77)}
						app[k1] = v1
						app[k2] = v2
						m := &amqp.Message{Properties: &amqp.MessageProperties{Subject: ptr(s), To: ptr("t")}, ApplicationProperties: app}
						e.Input(func() string { return fmt.Sprintf("%s %#v", s, app) })
						switch x := judge(m, false).(type) {
						case vanflow.BeaconMessage:
							v, _ := app["v"].(uint32)
							g := func(k string) string { s, _ := app[k].(string); return s }
							want := vanflow.BeaconMessage{MessageProps: vanflow.MessageProps{To: "t", Subject: s}, Version: v, SourceType: g("sourceType"), Address: g("address"), Direct: g("direct"), Identity: g("id")}
							if x != want {
								e.Fail("decodes to %#v", x)
							}
						case vanflow.HeartbeatMessage:
							v, _ := app["v"].(uint32)
							id, _ := app["id"].(string)
							now, _ := app["now"].(uint64)
							want := vanflow.HeartbeatMessage{MessageProps: vanflow.MessageProps{To: "t", Subject: s}, Version: v, Identity: id, Now: now}
							if x != want {
								e.Fail("decodes to %#v", x)
							}
						}
					}
				}
			}
		}
	}
	// record lists with one bad element at each position
	good := func(i int) any { return map[any]any{uint32(0): uint32(i % 15), uint32(1): fmt.Sprint("r", i)} }
	bads := append([]any{}, vals...)
	bads = append(bads, map[any]any{uint32(0): uint32(0)}, map[any]any{uint32(1): "x"}, map[any]any{uint32(0): uint32(15), uint32(1): "x"},
		map[any]any{uint32(0): uint32(1), uint32(1): nil}, map[any]any{uint32(0): uint32(1), uint32(1): "x", uint32(2): 3}, map[uint32]any{0: uint32(0), 1: "x"}, map[string]any{"1": "x"},
		map[any]any{uint32(0): uint32(6), uint32(1): "x", uint32(23): "y"}, map[any]any{uint32(0): uint32(6), uint32(1): "x", uint32(3): nil}, []any{good(0)})
	for n := 1; n <= 4; n++ {
		for pos := -1; pos < n; pos++ {
			for _, b := range bads {
				var l []any
				for i := 0; i < n; i++ {
					if i == pos {
						l = append(l, b)
					} else {
						l = append(l, good(i+n))
					}
				}
				e.Input(func() string { return fmt.Sprintf("record list of %d with %T %v at %d", n, b, showAny(b), pos) })
				x := judge(&amqp.Message{Properties: &amqp.MessageProperties{Subject: ptr("RECORD")}, Value: l}, pos < 0)
				if rm, ok := x.(vanflow.RecordMessage); ok && len(rm.Records) != n {
					e.Fail("%d records decoded, expected %d", len(rm.Records), n)
				}
				if pos < 0 {
					break
				}
			}
		}
	}
	e.Sample("%d subjects by values and property sets, application properties pairwise over %d values, record lists with %d kinds of bad element at each position", len(subjects), len(vals), len(bads))
}

func showAny(b any) string {
	if m, ok := b.(map[any]any); ok {
		return "{" + showMap(m) + "}"
	}
	if b == nil || reflect.TypeOf(b).Kind() == reflect.Func {
		return ""
	}
	return fmt.Sprint(b)
}
