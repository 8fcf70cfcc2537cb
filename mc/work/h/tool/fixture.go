package main

import (
	"encoding/json"
	"fmt"
	"io"
	"reflect"
	"sort"
	"strings"
	"time"

	"github.com/Azure/go-amqp"
	"github.com/c-kruse/vanflow"
	tool "github.com/c-kruse/vanflow/cmd/vanflow-tool"
	tool2 "github.com/c-kruse/vanflow/cmd/vanflow-tool-b"
	"github.com/c-kruse/vanflow/store"

	"vmc/vhttp"
	"vmc/vs"
)

const fixture = ":9080"

// capture is a record document and what it should make the fixture announce.
type capture struct {
	name  string
	doc   string
	recs  map[string][]vanflow.Record // by source
	typ   map[string]string
	pairs []string          // server and client flow identities
	also  map[string]string // another type the source was captured with
}

func newCapture(name string) *capture {
	return &capture{name: name, recs: map[string][]vanflow.Record{}, typ: map[string]string{}}
}

func (c *capture) add(s src, rs ...vanflow.Record) *capture {
	c.recs[s.id] = append(c.recs[s.id], rs...)
	c.typ[s.id] = s.typ
	return c
}

// item is an entry of a document.
func item(s src, r vanflow.Record) json.RawMessage {
	b, err := json.Marshal(store.Entry{Meta: store.Metadata{Source: s.ref()}, TypeMeta: r.GetTypeMeta(), Record: r})
	if err != nil {
		vs.Fail("harness", "%v", err)
	}
	return b
}

// odd is an entry with the given record text.
func odd(s src, tm vanflow.TypeMeta, rec string) json.RawMessage {
	b, _ := json.Marshal(struct {
		Meta     store.Metadata
		TypeMeta vanflow.TypeMeta
		Record   json.RawMessage `json:",omitempty"`
	}{store.Metadata{Source: s.ref()}, tm, json.RawMessage(rec)})
	return b
}

func document(items ...json.RawMessage) string {
	b, _ := json.Marshal(map[string]any{"data": items})
	return string(b)
}

// build makes the document; the records come in the given order of sources.
func (c *capture) build(ss ...src) *capture {
	var items []json.RawMessage
	for _, s := range ss {
		for _, r := range c.recs[s.id] {
			items = append(items, item(s, r))
		}
	}
	c.doc = document(items...)
	return c
}

func startFixture(main func()) *proc {
	amqp.Vmc().Deaf = true
	p := run(main)
	vhttp.VmcWaitListen(fixture)
	return p
}

func status() string {
	r := do(fixture, "GET", "/", "")
	var x struct{ Status, Error string }
	if err := json.Unmarshal([]byte(r.Body), &x); err != nil || r.Code != 200 || x.Error != "" {
		vs.Fail("assert", "status: %d %s", r.Code, r.Body)
	}
	return x.Status
}

// announced looks at what the fixture sends for a while and asks every source
// for its records.
func announced(what string, want *capture) {
	b := amqp.Vmc()
	n := len(b.Sent)
	time.Sleep(25 * sec)
	vs.Quiesce()
	ids := map[string]vanflow.BeaconMessage{}
	hearts := map[string]int{}
	beats := map[string]string{}
	for _, s := range b.Sent[n:] {
		x, err := vanflow.Decode(s.Msg)
		if err != nil {
			vs.Fail("assert", "%s: message at %s: %v", what, s.Addr, err)
		}
		switch m := x.(type) {
		case vanflow.BeaconMessage:
			vs.Assert(s.Addr == "mc/sfe.all", "%s: beacon at %s", what, s.Addr)
			ids[m.Identity] = m
		case vanflow.HeartbeatMessage:
			hearts[m.Identity]++
			beats[m.Identity] = s.Addr
		default:
			vs.Fail("assert", "%s: %T at %s unasked", what, x, s.Addr)
		}
	}
	var got, exp []string
	for id, m := range ids {
		got = append(got, id+" "+m.SourceType)
	}
	for id := range want.recs {
		t := want.typ[id]
		if a, ok := want.also[id]; ok && ids[id].SourceType == a {
			t = a
		}
		exp = append(exp, id+" "+t)
		vs.Assert(hearts[id] > 0, "%s: no heartbeats of %s", what, id)
	}
	sort.Strings(got)
	sort.Strings(exp)
	vs.Assert(strings.Join(got, ",") == strings.Join(exp, ","), "%s: sources [%s] announced, [%s] captured", what, strings.Join(got, ","), strings.Join(exp, ","))
	for id := range hearts {
		vs.Assert(ids[id].Identity == id, "%s: heartbeats of %s", what, id)
		a := ids[id].Address
		if ids[id].SourceType == "CONTROLLER" {
			a += ".heartbeats"
		}
		vs.Assert(beats[id] == a, "%s: heartbeats of %s at %s, collectors listen at %s", what, id, beats[id], a)
	}
	vs.Assert(len(b.OpenConns()) <= len(ids)+1, "%s: %d connections open with %d sources", what, len(b.OpenConns()), len(ids))
	for _, id := range exp {
		id = strings.Fields(id)[0]
		bm := ids[id]
		n := len(b.Sent)
		if r := b.Receivers(bm.Direct); r != 1 {
			vs.Fail("assert", "%s: %d receivers at %s", what, r, bm.Direct)
		}
		b.Push(bm.Direct, vanflow.FlushMessage{MessageProps: vanflow.MessageProps{To: bm.Direct}}.Encode())
		time.Sleep(4 * sec)
		vs.Quiesce()
		have := map[string]string{}
		for _, s := range b.Sent[n:] {
			x, _ := vanflow.Decode(s.Msg)
			m, ok := x.(vanflow.RecordMessage)
			if !ok {
				continue
			}
			vs.Assert(s.Addr == bm.Address || strings.HasPrefix(s.Addr, bm.Address+"."), "%s: records at %s after a flush of %s", what, s.Addr, id)
			for _, r := range m.Records {
				k := typeName(rec(r)) + " " + rec(r).Identity()
				if have[k] != "" {
					vs.Fail("assert", "%s: %s twice after a flush", what, k)
				}
				have[k] = text(attrs(r))
			}
		}
		need := map[string]string{}
		for _, r := range want.recs[id] {
			need[typeName(r)+" "+r.Identity()] = text(attrs(r))
		}
		if df := same(have, need); df != "" {
			vs.Fail("assert", "%s: flush of %s: %s", what, id, df)
		}
	}
}

// accept posts a document that is fine.
func accept(c *capture) {
	r := do(fixture, "POST", "/", c.doc)
	var x struct{ Error string }
	if err := json.Unmarshal([]byte(r.Body), &x); err != nil || r.Code != 200 || x.Error != "" {
		vs.Fail("assert", "fixture %s refused: %d %s", c.name, r.Code, r.Body)
	}
}

func refuse(name, doc string) {
	r := do(fixture, "POST", "/", doc)
	var x struct{ Error string }
	err := json.Unmarshal([]byte(r.Body), &x)
	vs.Assert(err == nil && r.Code >= 400 && r.Code < 600 && x.Error != "", "malformed fixture %s: status %d %s", name, r.Code, r.Body)
}

// replay: what the collecting server shows makes the fixture impersonate the
// sources.
func replay() {
	p := startServe()
	discover(r1, c1)
	time.Sleep(100 * ms)
	c := newCapture("captured")
	give := func(s src, rs ...vanflow.Record) {
		c.add(s, rs...)
		s.send(rs...)
	}
	t := types[vs.Choose(len(types))]
	u := types[vs.Choose(len(types))]
	even := func(i int) bool { return i%2 == 0 }
	switch vs.Choose(5) {
	case 4:
		give(r1, fill(t, "x", strings.Repeat("long ", 3000), every))
		give(c1, fill(u, "y", strings.Repeat("long ", 300), even), fill(u, "z", "b", every))
	case 3:
		give(c1, fill(t, "x", "a", every))
	case 0:
		give(r1, fill(t, "x", "a", every))
		give(c1, fill(u, "y", "b", even))
	case 1:
		give(r1, fill(t, "x", "a", none))
		give(r1, fill(u, "y", "b", every))
	case 2:
		for _, t := range types {
			give(c1, fill(t, "x", "a"+typeName(t), every))
		}
		give(r1, fill(t, "y", "b", every), fill(t, "z", "b", every))
	}
	time.Sleep(100 * ms)
	vs.Quiesce()
	doc := do(serve, "GET", "/", "").Body
	p.interrupt(serve)
	time.Sleep(30 * sec)
	vs.Quiesce()
	if len(amqp.Vmc().OpenConns()) > 0 {
		vs.Fail("assert", "connections open after the server ended")
	}
	p = startFixture(tool2.VmcMain)
	c.doc = doc
	accept(c)
	time.Sleep(5 * sec)
	vs.Assert(status() == "running", "status %q after a fixture was posted", status())
	announced("replay", c)
	p.interrupt(fixture)
}

// versions: a source comes back with another version while records are being
// collected; it is one source to the fixture.
func versions() {
	p := startServe()
	s := []src{r1, c1}[vs.Choose(2)]
	c := newCapture("versions")
	give := func(s src, rs ...vanflow.Record) {
		c.add(s, rs...)
		s.send(rs...)
	}
	discover(s)
	give(s, fill(vanflow.SiteRecord{}, "x", "a", every))
	if vs.Choose(2) == 1 {
		give(s, fill(vanflow.FlowRecord{}, "x", "a", every))
	}
	time.Sleep(2 * time.Minute)
	for i := 0; i < 1+vs.Choose(2); i++ {
		s.version++
		discover(s)
		give(s, fill(vanflow.SiteRecord{}, fmt.Sprint("y", i), "b", every))
		time.Sleep(2 * time.Minute)
	}
	vs.Quiesce()
	doc := do(serve, "GET", "/", "").Body
	p.interrupt(serve)
	time.Sleep(30 * sec)
	p = startFixture(tool2.VmcMain)
	c.doc = doc
	accept(c)
	time.Sleep(5 * sec)
	announced("versions", c)
	p.interrupt(fixture)
}

// sourceTypes: sources of whatever type are impersonated.
func sourceTypes() {
	p := startFixture(tool.VmcMain)
	all := []string{"ROUTER", "CONTROLLER", "SITE", "", "controller", "CONTROLLER2"}
	c := newCapture("types")
	var ss []src
	a := vs.Choose(len(all))
	for i, t := range []string{all[a], all[(a+1)%len(all)]} {
		s := src{fmt.Sprint("s", i), t, 1}
		c.add(s, fill(vanflow.SiteRecord{}, fmt.Sprint("a", i), "a", every))
		ss = append(ss, s)
	}
	c.build(ss...)
	accept(c)
	time.Sleep(5 * sec)
	announced(fmt.Sprintf("types %q", []string{ss[0].typ, ss[1].typ}), c)
	p.interrupt(fixture)
}

// twoTypes: a source that was captured with several types is one source.
func twoTypes() {
	p := startFixture(tool.VmcMain)
	c := newCapture("two types")
	a, b := src{"s", "ROUTER", 1}, src{"s", "CONTROLLER", uint32(1 + vs.Choose(2))}
	other := src{"t", "CONTROLLER", 1}
	recs := []vanflow.Record{fill(vanflow.SiteRecord{}, "x", "a", every), fill(vanflow.LinkRecord{}, "y", "b", every), fill(vanflow.ProcessRecord{}, "z", "a", every)}
	c.also = map[string]string{"s": "ROUTER"}
	var items []string
	for i, s := range [][]src{{a, b, other}, {b, a, b}, {a, b, a}, {other, b, a}}[vs.Choose(4)] {
		c.add(s, recs[i])
		items = append(items, string(item(s, recs[i])))
	}
	c.typ["s"] = "CONTROLLER"
	c.doc = `{"data":[` + strings.Join(items, ",") + `]}`
	accept(c)
	time.Sleep(5 * sec)
	announced("a source of two types", c)
	p.interrupt(fixture)
}

// unusable: entries that cannot be used are skipped, wherever they are.
func unusable() {
	p := startFixture(tool.VmcMain)
	site := vanflow.SiteRecord{}.GetTypeMeta()
	a, b := fill(vanflow.SiteRecord{}, "a", "a", every), fill(vanflow.ProcessRecord{}, "b", "b", every)
	x := src{"other", "ROUTER", 1}
	bad := map[string]json.RawMessage{
		"unknown type":       odd(r1, vanflow.TypeMeta{APIVersion: "flow/v1", Type: "NoRecord"}, `{"ID":"n"}`),
		"other version":      odd(r1, vanflow.TypeMeta{APIVersion: "flow/v9", Type: "SiteRecord"}, `{"ID":"n"}`),
		"no type":            odd(r1, vanflow.TypeMeta{}, `{"ID":"n"}`),
		"no record":          odd(r1, site, ""),
		"null record":        odd(r1, site, "null"),
		"number":             odd(r1, site, "5"),
		"string":             odd(r1, site, `"x"`),
		"list":               odd(r1, site, `[{"ID":"n"}]`),
		"wrong attribute":    odd(r1, site, `{"ID":"n","Name":5}`),
		"wrong identity":     odd(r1, site, `{"ID":5}`),
		"no identity":        odd(r1, site, `{"Name":"x"}`),
		"empty":              odd(r1, site, `{}`),
		"wrong time":         odd(r1, site, `{"ID":"n","StartTime":"never"}`),
		"of another source":  odd(x, site, `{"ID":5}`),
		"null of another":    odd(x, site, `null`),
		"unknown of another": odd(x, vanflow.TypeMeta{}, `{}`),
	}
	var names []string
	for n := range bad {
		names = append(names, n)
	}
	sort.Strings(names)
	n := names[vs.Choose(len(names))]
	good := []json.RawMessage{item(r1, a), item(c1, b)}
	i := vs.Choose(4)
	var items []json.RawMessage
	c := newCapture(n)
	if i < 3 {
		items = append(append(append(items, good[:i]...), bad[n]), good[i:]...)
		c.add(r1, a).add(c1, b)
	} else {
		items = []json.RawMessage{bad[n]}
	}
	c.doc = document(items...)
	accept(c)
	time.Sleep(5 * sec)
	vs.Assert(status() == "running", "status %q after a fixture was posted", status())
	announced(n, c)
	p.interrupt(fixture)
}

// malformed: a request that is no document changes nothing.
func malformed() {
	p := startFixture(tool.VmcMain)
	before := status()
	c := newCapture("none")
	if vs.Choose(2) == 1 {
		c = newCapture("good").add(r1, fill(vanflow.SiteRecord{}, "a", "a", every)).build(r1)
		accept(c)
		time.Sleep(5 * sec)
		before = status()
	}
	good := newCapture("good").add(c1, fill(vanflow.SiteRecord{}, "c", "a", every)).build(c1).doc
	docs := []string{"", " ", "{", "nope", "[]", `"x"`, "5", `{"data":5}`, `{"data":{}}`, `{"data":[5]}`, `{"data":[{"Meta":5}]}`, `{"data":[{"TypeMeta":"x"}]}`,
		`{"data":[{"Meta":{"Source":[]}}]}`, good[:len(good)-1], good[:len(good)/2], "\x00" + good}
	d := docs[vs.Choose(len(docs))]
	refuse(short(d), d)
	time.Sleep(5 * sec)
	vs.Assert(status() == before, "status %q became %q through a malformed request", before, status())
	announced("after malformed "+short(d), c)
	p.interrupt(fixture)
}

// brokenBody is a request body that stops in the middle.
type brokenBody struct{ s string }

func (b *brokenBody) Read(p []byte) (int, error) {
	if b.s == "" {
		return 0, io.ErrUnexpectedEOF
	}
	n := copy(p, b.s)
	b.s = b.s[n:]
	return n, nil
}

// slowBody never ends before it is released.
type slowBody struct {
	s   string
	end *vs.Event
}

func (b *slowBody) Read(p []byte) (int, error) {
	if b.s == "" {
		b.end.Wait()
		return 0, io.ErrUnexpectedEOF
	}
	n := copy(p, b.s)
	b.s = b.s[n:]
	return n, nil
}

func flow(id, counter string) vanflow.Record {
	f := fill(vanflow.FlowRecord{}, id, "f"+id, every).(vanflow.FlowRecord)
	f.Counterflow = nil
	f.EndTime = nil
	if counter != "" {
		f.Counterflow = &counter
	}
	return f
}

var c2 = src{"c2", "CONTROLLER", 1}

// ended is a flow that has ended, bare one of which little is known.
func ended(id, counter string) vanflow.Record {
	f := flow(id, counter).(vanflow.FlowRecord)
	f.EndTime = &vanflow.Time{Time: f.StartTime.Add(time.Second)}
	return f
}

func bare(id, counter string) vanflow.Record {
	f := vanflow.FlowRecord{BaseRecord: vanflow.BaseRecord{ID: id}}
	if counter != "" {
		f.Counterflow = &counter
	}
	return f
}

// captures of the request sequences.
func caseCapture(k string) *capture {
	switch k {
	case "A": // a flow pair within one source
		c := newCapture(k).add(r1, flow("srv", "cli"), flow("cli", ""), fill(vanflow.SiteRecord{}, "s", "a", every)).build(r1)
		c.pairs = []string{"srv cli"}
		return c
	case "B": // a flow pair over two sources
		c := newCapture(k).add(r1, ended("srv", "cli")).add(c1, ended("cli", "")).build(r1, c1)
		c.pairs = []string{"srv cli"}
		return c
	case "C": // counterflows that are not there
		return newCapture(k).add(r1, flow("srv", "gone"), flow("srv2", "alsogone")).add(c2, flow("lone", "")).build(r1, c2)
	case "D": // a flow that is its own counterflow, flows that name each other
		c := newCapture(k).add(c2, flow("me", "me"), bare("x", "y"), ended("y", "x")).build(c2)
		c.pairs = []string{"me me", "x y", "y x"}
		return c
	case "E":
		return newCapture(k).build()
	}
	return nil
}

// requests of the sequences, besides the fixtures.
var requests = []string{"status", "flows", "bad", "replay", "replay0", "negative", "garbage", "huge", "cut", "slow", "unread"}

type session struct {
	cur    *capture
	posted bool
	resent int
	slow   []*vs.Event
	hist   []string
}

func (s *session) flows() (pairs []string, resent int) {
	r := do(fixture, "GET", "/flows", "")
	return parseFlows(r)
}

func parseFlows(r *reply) (pairs []string, resent int) {
	var x struct {
		FlowPairs []struct {
			Server, Client struct{ Record vanflow.FlowRecord }
		}
		Resent int `json:"fixtureFlowsResent"`
	}
	if err := json.Unmarshal([]byte(r.Body), &x); err != nil || r.Code != 200 {
		vs.Fail("assert", "%s: %d %v %s", r.what, r.Code, err, short(r.Body))
	}
	for _, p := range x.FlowPairs {
		pairs = append(pairs, p.Server.Record.ID+" "+p.Client.Record.ID)
	}
	sort.Strings(pairs)
	return pairs, x.Resent
}

// request issues one request. settled: nothing is going on.
func (s *session) request(k string, settled bool) {
	s.hist = append(s.hist, k)
	what := strings.Join(s.hist, ", ")
	if c := caseCapture(k); c != nil {
		accept(c)
		s.cur, s.posted = c, true
		return
	}
	var pairs []string
	if s.cur != nil {
		pairs = s.cur.pairs
	}
	replay := func(n int) {
		r := do(fixture, "POST", "/flows", fmt.Sprintf(`{"flows":%d,"duration":1}`, n))
		got, _ := parseFlows(r)
		if settled {
			vs.Assert(fmt.Sprint(got) == fmt.Sprint(pairs), "%s: flow pairs %v, want %v", what, got, pairs)
		}
		s.resent += n * len(got)
	}
	switch k {
	case "status":
		st := status()
		if settled {
			vs.Assert((st == "running") == s.posted, "%s: status %q", what, st)
		}
	case "flows":
		got, n := s.flows()
		if settled {
			vs.Assert(fmt.Sprint(got) == fmt.Sprint(pairs), "%s: flow pairs %v, want %v", what, got, pairs)
			vs.Assert(n == s.resent, "%s: %d flows resent, want %d", what, n, s.resent)
		}
	case "bad":
		refuse("half a document", `{"data":[{"Meta":{"Source":{"Name":"z"}`)
	case "replay":
		replay(2)
	case "replay0":
		replay(0)
	case "negative", "garbage", "huge":
		body := map[string]string{"negative": `{"flows":-1,"duration":1}`, "garbage": `{"flows":"many"`, "huge": `{"flows":9000000000000000000,"duration":-5}`}[k]
		r := do(fixture, "POST", "/flows", body)
		vs.Assert(r.Code >= 400, "%s: status %d", what, r.Code)
	case "cut":
		r := doBody(fixture, "POST", []string{"/", "/flows"}[len(s.hist)%2], "cut off", &brokenBody{`{"flows":1,"data":[`})
		vs.Assert(r.Code >= 400, "%s: status %d", what, r.Code)
	case "slow":
		e := &vs.Event{}
		s.slow = append(s.slow, e)
		for _, path := range []string{"/", "/flows"} {
			go vhttp.VmcDo(bg, fixture, "POST", path, &slowBody{`{"flows":1,`, e})
		}
		vs.Quiesce()
	case "unread": // clients that do not read the response
		e := &vs.Event{}
		s.slow = append(s.slow, e)
		for _, m := range []string{"GET", "POST"} {
			for _, path := range []string{"/", "/flows"} {
				go vhttp.VmcDo(vhttp.VmcStall(bg, e), fixture, m, path, strings.NewReader("["))
			}
		}
		vs.Quiesce()
	}
}

func (s *session) settle() {
	time.Sleep(8 * sec)
	vs.Quiesce()
}

func (s *session) end(p *proc, what string) {
	s.settle()
	what += strings.Join(s.hist, ", ")
	st := status()
	vs.Assert((st == "running") == s.posted, "%s: status %q", what, st)
	cur := s.cur
	if cur == nil {
		cur = newCapture("none")
	}
	got, n := s.flows()
	vs.Assert(fmt.Sprint(got) == fmt.Sprint(cur.pairs), "%s: flow pairs %v, want %v", what, got, cur.pairs)
	vs.Assert(n == s.resent, "%s: %d flows resent, want %d", what, n, s.resent)
	announced(what, cur)
	for _, e := range s.slow {
		e.Set()
	}
	vs.Quiesce()
	p.interrupt(fixture)
}

// sequences: every sequence of requests.
func sequences(n int, first ...string) func() {
	return func() {
		p := startFixture(tool.VmcMain)
		s := &session{}
		all := append([]string{"A", "B", "C", "D", "E"}, requests...)
		wait := vs.Choose(2) == 1
		for _, k := range first {
			s.request(k, true)
			s.settle()
		}
		for i := 0; i < n; i++ {
			s.request(all[vs.Choose(len(all))], wait || i == 0)
			if wait {
				s.settle()
			}
		}
		s.end(p, fmt.Sprintf("wait %v: ", wait))
	}
}

// beating lists the sources that send heartbeats.
func beating() []string {
	b := amqp.Vmc()
	n := len(b.Sent)
	time.Sleep(5 * sec)
	vs.Quiesce()
	have := map[string]bool{}
	for _, s := range b.Sent[n:] {
		if x, _ := vanflow.Decode(s.Msg); x != nil {
			if h, ok := x.(vanflow.HeartbeatMessage); ok {
				have[h.Identity] = true
			}
		}
	}
	var out []string
	for id := range have {
		out = append(out, id)
	}
	sort.Strings(out)
	return out
}

func (c *capture) ids() []string {
	var out []string
	for id := range c.recs {
		out = append(out, id)
	}
	sort.Strings(out)
	return out
}

// concurrent: two requests at once.
func concurrent(first string) func() {
	return func() {
		p := startFixture(tool.VmcMain)
		s := &session{}
		if first != "" {
			s.request(first, true)
			s.settle()
		}
		base := s.resent
		ks := []string{"A", "B", "bad", "replay", "flows", "status"}
		a, b := ks[vs.Choose(len(ks))], ks[vs.Choose(len(ks))]
		if a > b { // the order of issue is a matter of the schedule
			a, b = b, a
		}
		ss := []*session{{cur: s.cur, posted: s.posted}, {cur: s.cur, posted: s.posted}}
		done := make(chan bool, 2)
		for i, k := range []string{a, b} {
			x := ss[i]
			go func() { x.request(k, false); done <- true }()
		}
		<-done
		<-done
		s.settle()
		s.resent = base + ss[0].resent + ss[1].resent
		s.hist = append(s.hist, a+" with "+b)
		s.posted = s.posted || ss[0].posted || ss[1].posted
		for i, k := range []string{a, b} {
			if caseCapture(k) == nil {
				continue
			}
			s.cur = ss[i].cur
			if fmt.Sprint(beating()) == fmt.Sprint(s.cur.ids()) {
				break // of two fixtures, either is the last
			}
		}
		s.end(p, "")
	}
}

// flowReplay: what a replay publishes.
func flowReplay(counts, durs []int, more int) func() {
	return func() { flowReplays(counts, durs, more) }
}

func flowReplays(counts, durs []int, more int) {
	p := startFixture(tool.VmcMain)
	b := amqp.Vmc()
	s := &session{}
	k := []string{"A", "B", "D"}[vs.Choose(3)]
	s.request(k, true)
	s.settle()
	n0 := len(b.Sent)
	n := counts[vs.Choose(len(counts))]
	dur := durs[vs.Choose(len(durs))]
	again := vs.Choose(1 + more)
	for i := 0; i <= again; i++ {
		do(fixture, "POST", "/flows", fmt.Sprintf(`{"flows":%d,"duration":%d}`, n, dur))
	}
	time.Sleep(time.Duration(dur)*sec + 5*sec)
	vs.Quiesce()
	what := fmt.Sprintf("fixture %s, %d times %d flows in %d seconds", k, again+1, n, dur)
	type fl struct {
		src  string
		at   map[string]string
		from time.Time
		to   time.Time
	}
	flows := map[string]*fl{}
	for _, x := range b.Sent[n0:] {
		m, err := vanflow.Decode(x.Msg)
		if err != nil {
			vs.Fail("assert", "%s: %v", what, err)
		}
		rm, ok := m.(vanflow.RecordMessage)
		if !ok {
			continue
		}
		for _, r := range rm.Records {
			f, ok := reflect.Indirect(reflect.ValueOf(r)).Interface().(vanflow.FlowRecord)
			vs.Assert(ok, "%s: %T published", what, r)
			g := flows[f.ID]
			if g == nil {
				g = &fl{src: x.Addr, at: map[string]string{}}
				flows[f.ID] = g
			}
			vs.Assert(g.src == x.Addr, "%s: flow %s published by two sources", what, f.ID)
			for a, v := range attrs(f) {
				g.at[a] = v
			}
			if f.StartTime != nil {
				g.from = f.StartTime.Time
			}
			if f.EndTime != nil {
				g.to = f.EndTime.Time
			}
		}
	}
	cap := caseCapture(k)
	per := n * (again + 1)
	srv := 0
	named := map[string]bool{}
	old := map[string]bool{"srv": true, "cli": true, "me": true, "x": true, "y": true}
	for id, f := range flows {
		vs.Assert(!old[id], "%s: the captured flow %s published again", what, id)
		vs.Assert(f.at["StartTime"] != "", "%s: flow %s has no start time: %v", what, id, f.at)
		vs.Assert(f.at["EndTime"] != "", "%s: flow %s does not end: %v", what, id, f.at)
		vs.Assert(!f.to.Before(f.from) && (dur == 0 || f.to.After(f.from)), "%s: flow %s from %v to %v", what, id, f.from, f.to)
		if f.at["Counterflow"] != "" {
			srv++
			cid := strings.Trim(f.at["Counterflow"], `"`)
			c := flows[cid]
			vs.Assert(!named[cid] && flows[cid] != f, "%s: flow %s has counterflow %s like another one, or itself", what, id, cid)
			named[cid] = true
			vs.Assert(c != nil, "%s: flow %s has counterflow %s, which was not published", what, id, f.at["Counterflow"])
		}
	}
	vs.Assert(len(flows) == 2*per*len(cap.pairs) && srv == per*len(cap.pairs), "%s: %d flows published, %d of them with a counterflow, for %d pairs", what, len(flows), srv, len(cap.pairs))
	s.resent = per * len(cap.pairs)
	s.end(p, what+": ")
}

// endFixture: an interrupt at any point ends the fixture.
func endFixture() {
	b := amqp.Vmc()
	b.Deaf = true
	p := run(tool.VmcMain)
	k := vs.Choose(7)
	s := &session{}
	unread := &vs.Event{}
	answered := k != 5
	if k > 0 {
		vhttp.VmcWaitListen(fixture)
	}
	switch k {
	case 2:
		s.request("B", false)
	case 3:
		s.request("B", false)
		time.Sleep(10 * sec)
	case 4:
		s.request("B", false)
		time.Sleep(10 * sec)
		s.request("replay", false)
		time.Sleep(300 * ms)
		s.request("A", false)
	case 5: // a request that waits for the reconfiguration
		s.request("B", false)
		go func() {
			r := vhttp.VmcDo(bg, fixture, "POST", "/", strings.NewReader(caseCapture("A").doc))
			answered = r.Panic == ""
		}()
		vs.Quiesce()
	case 6: // clients that do not read the response
		s.request("B", true)
		s.settle()
		for _, path := range []string{"/", "/flows"} {
			go vhttp.VmcDo(vhttp.VmcStall(bg, unread), fixture, "GET", path, nil)
		}
		vs.Quiesce()
	}
	p.interrupt(fixture)
	unread.Set()
	vs.Assert(answered, "case %d: a request got no response when the server was shut down", k)
	time.Sleep(3 * time.Minute)
	vs.Quiesce()
	if o := b.OpenConns(); len(o) > 0 {
		vs.Fail("assert", "case %d: connection %d is open after the command ended", k, o[0].N)
	}
	if a := vs.Alive(); len(a) > 0 {
		vs.Fail("assert", "case %d: goroutines %v after the command ended", k, a)
	}
}

// counts: replays that end together are all counted.
func counts() {
	p := startFixture(tool.VmcMain)
	ask := func(method, path, body string) *reply {
		r := vhttp.VmcDo(bg, fixture, method, path, strings.NewReader(body))
		if r.Err != nil || r.Panic != "" || r.Code != 200 {
			vs.Fail("assert", "%s %s: %d %v %s", method, path, r.Code, r.Err, r.Panic)
		}
		return &reply{r, method + " " + path}
	}
	ask("POST", "/", caseCapture("A").doc)
	running := func() bool { return strings.Contains(ask("GET", "/", "").Body, `"running"`) }
	for i := 0; i < 3 && !running(); i++ { // timers may go off early
		time.Sleep(600 * ms)
	}
	want := 0
	// a fixture may be posted in whose place nothing is there yet when the
	// replays end
	b := amqp.Vmc()
	replaced := vs.Choose(3)
	for i := 0; i < 2; i++ {
		got, _ := parseFlows(ask("POST", "/flows", `{"flows":1,"duration":1}`))
		want += len(got)
	}
	if replaced > 0 {
		time.Sleep(400 * ms)
		if replaced == 2 {
			b.OnDial = func(int, string, *amqp.ConnOptions) amqp.Fate { return amqp.FateErr }
		}
		ask("POST", "/", caseCapture("B").doc)
	}
	n := -1
	for i := 0; i < 3 && n != want; i++ {
		time.Sleep(1100 * ms)
		vs.Quiesce()
		_, n = parseFlows(ask("GET", "/flows", ""))
	}
	vs.Assert(n == want && want == 2, "%d flows resent, want %d", n, want)
	p.interrupt(fixture)
}

// stopped: nothing of a fixture is left when another has taken its place.
func stopped() {
	p := startFixture(tool.VmcMain)
	b := amqp.Vmc()
	put := func(k string) []string {
		do(fixture, "POST", "/", caseCapture(k).doc)
		time.Sleep(20 * sec)
		vs.Quiesce()
		return vs.Alive()
	}
	base := put("E")
	conns := len(b.OpenConns())
	ks := []string{"A", "B", "C", "D"}
	for n := 1 + vs.Choose(2); n > 0; n-- {
		k := ks[vs.Choose(len(ks))]
		put(k)
		if vs.Choose(2) == 1 {
			do(fixture, "POST", "/flows", `{"flows":2,"duration":5}`)
			time.Sleep(sec)
		}
	}
	left := put("E")
	vs.Assert(len(left) <= len(base), "left of fixtures that were replaced: %v, at first %v", left, base)
	vs.Assert(len(b.OpenConns()) <= conns, "%d connections left of fixtures that were replaced", len(b.OpenConns())-conns)
	p.interrupt(fixture)
}

// turnsRunning: what the status says is so.
func turnsRunning() {
	p := startFixture(tool.VmcMain)
	b := amqp.Vmc()
	c := caseCapture([]string{"A", "B", "C", "D"}[vs.Choose(4)])
	accept(c)
	for i := 0; status() != "running"; i++ {
		vs.Assert(i < 200, "fixture %s: not running after %v", c.name, 50*ms*time.Duration(i))
		time.Sleep(50 * ms)
	}
	pairs, _ := parseFlows(do(fixture, "GET", "/flows", ""))
	vs.Assert(fmt.Sprint(pairs) == fmt.Sprint(c.pairs), "fixture %s is running with flow pairs %v, want %v", c.name, pairs, c.pairs)
	time.Sleep(50 * ms)
	vs.Quiesce()
	for _, id := range c.ids() {
		n := 0
		for _, s := range b.Sent {
			if m, err := vanflow.Decode(s.Msg); err == nil {
				if x, ok := m.(vanflow.BeaconMessage); ok && x.Identity == id {
					n++
				}
			}
		}
		vs.Assert(n > 0, "fixture %s is running, %s was not announced", c.name, id)
	}
	p.interrupt(fixture)
}
