package main

import (
	"context"
	"encoding/json"
	"fmt"
	"io"
	"os"
	"reflect"
	"sort"
	"strings"
	"time"

	"github.com/Azure/go-amqp"
	"github.com/c-kruse/vanflow"
	"github.com/c-kruse/vanflow/store"

	"vmc/vhttp"
	"vmc/vs"
	"vmc/vsignal"
)

var bg = context.Background()

const (
	ms  = time.Millisecond
	sec = time.Second
)

// types are the record types the tool deals with.
var types = []vanflow.Record{
	vanflow.SiteRecord{}, vanflow.LinkRecord{}, vanflow.RouterRecord{}, vanflow.ListenerRecord{},
	vanflow.ConnectorRecord{}, vanflow.ProcessRecord{}, vanflow.FlowRecord{}, vanflow.LogRecord{},
}

func typeName(r vanflow.Record) string { return r.GetTypeMeta().String() }

// fill makes a record of the type of r with the given identity; set decides
// which of its attributes (by position) are set.
func fill(r vanflow.Record, id, salt string, set func(i int) bool) vanflow.Record {
	v := reflect.New(reflect.TypeOf(r)).Elem()
	n := 0
	var walk func(v reflect.Value)
	walk = func(v reflect.Value) {
		for i := 0; i < v.NumField(); i++ {
			f := v.Field(i)
			if f.Kind() == reflect.Struct {
				walk(f)
				continue
			}
			if v.Type().Field(i).Name == "ID" && f.Kind() == reflect.String {
				f.SetString(id)
				continue
			}
			n++
			if !set(n - 1) {
				continue
			}
			switch p := f.Addr().Interface().(type) {
			case **string:
				s := fmt.Sprintf("%s %s \"%d\" é<&>\n", salt, v.Type().Field(i).Name, n)
				*p = &s
			case **uint64:
				u := uint64(1)<<63 + uint64(n)*1001 + uint64(len(salt))
				*p = &u
			case **vanflow.Time:
				*p = &vanflow.Time{Time: time.UnixMicro(1700000000000000 + int64(n)*1000001 + int64(len(salt)))}
			default:
				vs.Fail("harness", "attribute of type %s", f.Type())
			}
		}
	}
	walk(v)
	return v.Interface().(vanflow.Record)
}

func every(int) bool { return true }
func none(int) bool  { return false }

// attrs is a canonical text of the attributes that are set.
func attrs(r any) map[string]string {
	out := map[string]string{}
	v := reflect.Indirect(reflect.ValueOf(r))
	if v.Kind() != reflect.Struct {
		out["?"] = fmt.Sprintf("%T", r)
		return out
	}
	var walk func(v reflect.Value)
	walk = func(v reflect.Value) {
		for i := 0; i < v.NumField(); i++ {
			f, n := v.Field(i), v.Type().Field(i).Name
			switch x := f.Interface().(type) {
			case *string:
				if x != nil {
					out[n] = fmt.Sprintf("%q", *x)
				}
			case *uint64:
				if x != nil {
					out[n] = fmt.Sprint(*x)
				}
			case *vanflow.Time:
				if x != nil {
					out[n] = fmt.Sprint(x.UnixMicro(), "us")
				}
			case string:
				out[n] = x
			default:
				if f.Kind() == reflect.Struct {
					walk(f)
				} else {
					out[n] = fmt.Sprintf("%v", x)
				}
			}
		}
	}
	walk(v)
	return out
}

func text(m map[string]string) string {
	var l []string
	for k, v := range m {
		l = append(l, k+"="+v)
	}
	sort.Strings(l)
	return strings.Join(l, " ")
}

func rec(r any) vanflow.Record {
	if x, ok := r.(vanflow.Record); ok {
		return x
	}
	vs.Fail("assert", "not a record: %T", r)
	return nil
}

// src is an event source of the network, played by the scenario.
type src struct {
	id, typ string
	version uint32
}

func (s src) addr() string   { return "mc/sfe." + s.id }
func (s src) direct() string { return "sfe." + s.id }
func (s src) ref() store.SourceRef {
	return store.SourceRef{APIVersion: fmt.Sprint(s.version), Type: s.typ, Name: s.id}
}

func (s src) beacon() {
	m := vanflow.BeaconMessage{Version: s.version, SourceType: s.typ, Address: s.addr(), Direct: s.direct(), Identity: s.id}
	amqp.Vmc().Push("mc/sfe.all", m.Encode())
}

func (s src) heartbeat() { s.heartbeatAt(1) }

func (s src) heartbeatAt(now uint64) {
	a := s.addr()
	if s.typ == "CONTROLLER" {
		a += ".heartbeats"
	}
	m := vanflow.HeartbeatMessage{Identity: s.id, Version: s.version, Now: now}.Encode()
	m.Properties.To = &a
	amqp.Vmc().Push(a, m)
}

// addrOf is the address of the source at which records of the type arrive.
func (s src) addrOf(r any) string {
	switch reflect.Indirect(reflect.ValueOf(r)).Interface().(type) {
	case vanflow.FlowRecord:
		return s.addr() + ".flows"
	case vanflow.LogRecord:
		return s.addr() + ".logs"
	}
	return s.addr()
}

// send sends the records in one message.
func (s src) send(rs ...vanflow.Record) {
	a := s.addrOf(rs[0])
	s.sendTo(a, rs...)
}

func (s src) sendTo(a string, rs ...vanflow.Record) {
	m := vanflow.RecordMessage{MessageProps: vanflow.MessageProps{To: a}}
	for _, r := range rs {
		m.Records = append(m.Records, r)
	}
	msg, err := m.Encode()
	if err != nil {
		vs.Fail("harness", "encode: %v", err)
	}
	amqp.Vmc().Push(a, msg)
}

// proc is a running command of the tool.
type proc struct {
	ended vs.Event
	at    time.Duration
}

func run(main func()) *proc {
	if f, err := os.OpenFile(os.DevNull, os.O_WRONLY, 0); err == nil {
		os.Stdout = f
	}
	return runTo(main)
}

func runTo(main func()) *proc {
	p := &proc{}
	go func() {
		main()
		p.at = vs.Elapsed()
		p.ended.Set()
	}()
	vsignal.VmcWait()
	return p
}

// interrupt stops the command, which has to return promptly.
func (p *proc) interrupt(port string) {
	t0 := vs.Elapsed()
	if !vsignal.VmcSend(os.Interrupt) {
		vs.Fail("assert", "nothing listens for the interrupt")
	}
	time.Sleep(3 * sec)
	vs.Quiesce()
	if !p.ended.IsSet() {
		vs.Fail("assert", "still running %v after the interrupt; goroutines %v", vs.Elapsed()-t0, vs.Alive())
	}
	if port != "" && vhttp.VmcListening(port) {
		vs.Fail("assert", "still listening after the interrupt")
	}
}

// reply of a request.
type reply struct {
	*vhttp.VmcResponse
	what string
}

func short(s string) string {
	if len(s) > 600 {
		return s[:600] + "..."
	}
	return s
}

// do issues a request, which has to be answered within ten seconds.
func do(port, method, target, body string) *reply {
	var b io.Reader
	if method != "GET" {
		b = strings.NewReader(body)
	}
	return doBody(port, method, target, short(body), b)
}

func doBody(port, method, target, show string, b io.Reader) *reply {
	r := &reply{what: method + " " + target}
	if method != "GET" {
		r.what += " " + show
	}
	ch := make(chan *vhttp.VmcResponse, 1)
	go func() { ch <- vhttp.VmcDo(bg, port, method, target, b) }()
	select {
	case x := <-ch:
		r.VmcResponse = x
	case <-time.After(10 * sec):
		vs.Fail("assert", "%s: no response", r.what)
	}
	if r.Err != nil {
		vs.Fail("assert", "%s: %v", r.what, r.Err)
	}
	if r.Panic != "" {
		vs.Fail("assert", "%s: the handler crashed: %s", r.what, r.Panic)
	}
	return r
}

// entry of a listing.
type entry struct {
	Meta     store.Metadata
	TypeMeta vanflow.TypeMeta
	Record   json.RawMessage
}

// data parses a listing.
func (r *reply) data() []entry {
	var x struct {
		Data  []entry `json:"data"`
		Error string  `json:"error"`
	}
	if err := json.Unmarshal([]byte(r.Body), &x); err != nil {
		vs.Fail("assert", "%s: %v: %s", r.what, err, short(r.Body))
	}
	if r.Code != 200 || x.Error != "" {
		vs.Fail("assert", "%s: %d %s", r.what, r.Code, x.Error)
	}
	return x.Data
}

// listing is the records of a listing by type and identity.
func (r *reply) listing() map[string]string {
	out := map[string]string{}
	for _, e := range r.data() {
		var t vanflow.Record
		for _, x := range types {
			if x.GetTypeMeta() == e.TypeMeta {
				t = x
			}
		}
		if t == nil {
			vs.Fail("assert", "%s: entry of unknown type %v", r.what, e.TypeMeta)
		}
		p := reflect.New(reflect.TypeOf(t))
		if err := json.Unmarshal(e.Record, p.Interface()); err != nil {
			vs.Fail("assert", "%s: record %s: %v", r.what, e.Record, err)
		}
		k := e.TypeMeta.String() + " " + p.Interface().(vanflow.Record).Identity()
		if _, dup := out[k]; dup {
			vs.Fail("assert", "%s: %s is listed twice", r.what, k)
		}
		out[k] = e.Meta.Source.String() + " " + text(attrs(p.Interface()))
	}
	return out
}

// state is what a collector should show.
type state struct {
	recs map[string]map[string]string
	src  map[string]string
	typ  map[string]string
}

func newState() *state {
	return &state{map[string]map[string]string{}, map[string]string{}, map[string]string{}}
}

func (m *state) got(s src, r vanflow.Record) {
	k := typeName(r) + " " + r.Identity()
	if m.recs[k] == nil {
		m.recs[k] = map[string]string{}
	}
	for n, v := range attrs(r) {
		m.recs[k][n] = v
	}
	m.src[k] = s.ref().String()
	m.typ[k] = typeName(r)
}

func (m *state) want(typ string) map[string]string {
	out := map[string]string{}
	for k, a := range m.recs {
		if typ == "" || m.typ[k] == typ {
			out[k] = m.src[k] + " " + text(a)
		}
	}
	return out
}

func same(got, want map[string]string) string {
	for k, v := range want {
		if g, ok := got[k]; !ok {
			return fmt.Sprintf("%s is missing", k)
		} else if g != v {
			return fmt.Sprintf("%s is %s, want %s", k, g, v)
		}
	}
	for k := range got {
		if _, ok := want[k]; !ok {
			return fmt.Sprintf("%s should not be there", k)
		}
	}
	return ""
}

// sources parses a listing of sources.
func (r *reply) sources() []string {
	var out []string
	for _, e := range r.data() {
		out = append(out, e.Meta.Source.String())
	}
	sort.Strings(out)
	return out
}
