// Command enc checks the wire encoding of records and messages (C01-C03)
// against a table of the protocol written independently of the code.
package main

import (
	"fmt"
	"math"
	"reflect"
	"sort"
	"strings"
	"time"

	vanflow "github.com/c-kruse/vanflow"
)

type kind int

const (
	kS kind = iota // string, optional
	kU             // uint64, optional
	kT             // time, optional
	kI             // identity: required string
)

type fieldT struct {
	name string
	code uint32
	k    kind
}

type recT struct {
	code   uint32
	t      reflect.Type
	fields []fieldT
}

func r(code uint32, proto any, spec string) *recT {
	x := &recT{code: code, t: reflect.TypeOf(proto)}
	x.fields = []fieldT{{"ID", 1, kI}, {"StartTime", 3, kT}, {"EndTime", 4, kT}}
	for _, f := range strings.Fields(spec) {
		p := strings.Split(f, ":")
		var c uint32
		fmt.Sscan(p[1], &c)
		k := kS
		if p[2] == "u" {
			k = kU
		}
		x.fields = append(x.fields, fieldT{p[0], c, k})
	}
	return x
}

const hostPort = "Parent:2:s DestHost:15:s Protocol:16:s DestPort:18:s Address:19:s FlowCountL4:40:u FlowCountL7:41:u FlowRateL4:42:u FlowRateL7:43:u"

var recs = []*recT{
	r(0, vanflow.SiteRecord{}, "Location:9:s Provider:10:s Platform:11:s Namespace:12:s Name:30:s Version:52:s Policy:53:s"),
	r(1, vanflow.RouterRecord{}, "Parent:2:s Namespace:12:s Mode:13:s ImageName:20:s ImageVersion:21:s Hostname:22:s Name:30:s BuildVersion:32:s"),
	r(2, vanflow.LinkRecord{}, "Parent:2:s Mode:13:s Name:30:s LinkCost:33:u Direction:34:s"),
	r(3, vanflow.ControllerRecord{}, "Parent:2:s ImageName:20:s ImageVersion:21:s Hostname:22:s Name:30:s BuildVersion:32:s"),
	r(4, vanflow.ListenerRecord{}, hostPort),
	r(5, vanflow.ConnectorRecord{}, hostPort),
	r(6, vanflow.FlowRecord{}, "Parent:2:s Counterflow:5:s SourceHost:14:s SourcePort:17:s Octets:23:u Latency:24:u Reason:29:s Trace:31:s OctetRate:35:u OctetsOut:36:u OctetsUnacked:37:u WindowClosures:38:u WindowSize:39:u Method:27:s Result:28:s"),
	r(7, vanflow.ProcessRecord{}, "Parent:2:s Mode:13:s SourceHost:14:s ImageName:20:s ImageVersion:21:s Hostname:22:s Name:30:s Group:46:s"),
	r(8, vanflow.ImageRecord{}, ""),
	r(9, vanflow.IngressRecord{}, ""),
	r(10, vanflow.EgressRecord{}, ""),
	r(11, vanflow.CollectorRecord{}, ""),
	r(12, vanflow.ProcessGroupRecord{}, ""),
	r(13, vanflow.HostRecord{}, "Provider:10:s Name:30:s"),
	r(14, vanflow.LogRecord{}, "LogSeverity:48:u LogText:49:s SourceFile:50:s SourceLine:51:u"),
}

// val is a field value: nil (unset), string, uint64, time.Time.
type val any

// build makes the record with the given values (one per table field).
func (t *recT) build(vals []val) reflect.Value {
	p := reflect.New(t.t)
	for i, f := range t.fields {
		if vals[i] == nil {
			continue
		}
		fv := p.Elem().FieldByName(f.name)
		switch v := vals[i].(type) {
		case string:
			if f.k == kI {
				fv.SetString(v)
			} else {
				fv.Set(reflect.ValueOf(&v))
			}
		case uint64:
			fv.Set(reflect.ValueOf(&v))
		case time.Time:
			fv.Set(reflect.ValueOf(&vanflow.Time{Time: v}))
		}
	}
	return p
}

// expect is the attribute map of the record; nil when it must be refused;
// either reports that both refusing and omitting the attribute are fine.
func (t *recT) expect(vals []val) (m map[any]any, refuse bool, loose map[uint32]bool) {
	m = map[any]any{uint32(0): t.code}
	for i, f := range t.fields {
		switch v := vals[i].(type) {
		case nil:
			if f.k == kI {
				refuse = true
			}
		case string:
			if f.k == kI && v == "" {
				refuse = true
			}
			m[f.code] = v
		case uint64:
			m[f.code] = v
		case time.Time:
			if v.IsZero() { // the zero time stands for an unset time
				if loose == nil {
					loose = map[uint32]bool{}
				}
				loose[f.code] = true
				continue
			}
			u, ok := micros(v)
			if !ok {
				refuse = true
			}
			m[f.code] = u
		}
	}
	return
}

func micros(v time.Time) (uint64, bool) {
	s := v.Unix()
	if s < 0 || s > math.MaxInt64/1000000 {
		return 0, false
	}
	u := uint64(s)*1000000 + uint64(v.Nanosecond())/1000
	return u, u <= math.MaxInt64
}

// read extracts the values of a record in table order.
func (t *recT) read(p reflect.Value) []val {
	out := make([]val, len(t.fields))
	e := reflect.Indirect(p)
	for i, f := range t.fields {
		fv := e.FieldByName(f.name)
		switch f.k {
		case kI:
			out[i] = fv.String()
		default:
			if fv.IsNil() {
				continue
			}
			switch x := fv.Interface().(type) {
			case *string:
				out[i] = *x
			case *uint64:
				out[i] = *x
			case *vanflow.Time:
				out[i] = x.Time
			}
		}
	}
	return out
}

func sameVal(a, b val) bool {
	ta, ok1 := a.(time.Time)
	tb, ok2 := b.(time.Time)
	if ok1 && ok2 {
		return ta.Equal(tb)
	}
	if ok1 != ok2 {
		return false
	}
	return a == b
}

func sameVals(a, b []val) bool {
	for i := range a {
		if !sameVal(a[i], b[i]) {
			return false
		}
	}
	return len(a) == len(b)
}

func (t *recT) show(vals []val) string {
	var b strings.Builder
	fmt.Fprintf(&b, "%s{", t.t.Name())
	for i, f := range t.fields {
		switch v := vals[i].(type) {
		case nil:
		case string:
			if len(v) > 20 {
				fmt.Fprintf(&b, "%s:(%d bytes) ", f.name, len(v))
			} else {
				fmt.Fprintf(&b, "%s:%q ", f.name, v)
			}
		default:
			fmt.Fprintf(&b, "%s:%v ", f.name, v)
		}
	}
	return b.String() + "}"
}

func showMap(m map[any]any) string {
	var l []string
	for k, v := range m {
		s := fmt.Sprintf("%v", v)
		if len(s) > 40 {
			s = s[:40] + "..."
		}
		l = append(l, fmt.Sprintf("%T(%v):%T(%s)", k, k, v, s))
	}
	sort.Strings(l)
	return strings.Join(l, ", ")
}

var epoch = time.Unix(0, 0).UTC()

// classes are the value classes of a field, the first being "set, ordinary".
func classes(k kind, i int) []val {
	switch k {
	case kI:
		return []val{fmt.Sprintf("id%d", i), "", "\x00", "ü/é:1", strings.Repeat("x", 300)}
	case kS:
		return []val{fmt.Sprintf("s%d", i), "", " ", "ünï\x00", strings.Repeat("y", 256), strings.Repeat("z", 70000)}
	case kU:
		return []val{uint64(1000 + i), uint64(0), uint64(1), uint64(255), uint64(256), uint64(math.MaxUint32), uint64(math.MaxUint32) + 1, uint64(math.MaxInt64), uint64(math.MaxUint64)}
	}
	return []val{time.UnixMicro(1700000000123456 + int64(i)), epoch, epoch.Add(time.Microsecond), epoch.Add(1999 * time.Nanosecond), time.UnixMicro(math.MaxInt64), epoch.Add(-time.Microsecond), epoch.Add(-time.Nanosecond), time.Time{}, time.Date(300000, 1, 1, 0, 0, 0, 0, time.UTC), time.Date(600000, 1, 1, 0, 0, 0, 0, time.UTC), time.UnixMicro(1700000000999999).In(time.FixedZone("x", 3600))}
}
