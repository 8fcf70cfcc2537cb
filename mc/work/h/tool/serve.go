package main

import (
	"fmt"
	"sort"
	"strings"
	"time"

	"github.com/Azure/go-amqp"
	"github.com/c-kruse/vanflow"
	tool "github.com/c-kruse/vanflow/cmd/vanflow-tool"

	"vmc/vhttp"
	"vmc/vs"
)

const serve = ":9090"

var (
	r1 = src{"r1", "ROUTER", 1}
	c1 = src{"c1", "CONTROLLER", 3}
)

// discover makes the sources known and waits until their records are listened
// for.
func discover(ss ...src) {
	b := amqp.Vmc()
	b.WaitReceivers("mc/sfe.all", 1)
	for _, s := range ss {
		s.beacon()
	}
	for _, s := range ss {
		b.WaitReceivers(s.addr(), 1)
		b.WaitReceivers(s.addr()+".flows", 1)
		b.WaitReceivers(s.addr()+".logs", 1)
		if s.typ == "CONTROLLER" {
			b.WaitReceivers(s.addr()+".heartbeats", 1)
		}
	}
}

func startServe() *proc {
	amqp.Vmc().Deaf = true
	p := run(tool.VmcMain)
	vhttp.VmcWaitListen(serve)
	return p
}

// shown checks every listing.
func shown(m *state, what string, ss ...src) {
	if d := same(do(serve, "GET", "/", "").listing(), m.want("")); d != "" {
		vs.Fail("assert", "%s: listing: %s", what, d)
	}
	for _, t := range types {
		if d := same(do(serve, "GET", "/"+typeName(t)+"/", "").listing(), m.want(typeName(t))); d != "" {
			vs.Fail("assert", "%s: listing of %s: %s", what, typeName(t), d)
		}
	}
	srcs(what, ss...)
}

func srcs(what string, ss ...src) {
	var want []string
	for _, s := range ss {
		want = append(want, s.ref().String())
	}
	sort.Strings(want)
	got := do(serve, "GET", "/sources/", "").sources()
	vs.Assert(strings.Join(got, ",") == strings.Join(want, ","), "%s: sources %v listed, %v known", what, got, want)
}

func notFound(paths ...string) {
	for _, p := range paths {
		r := do(serve, "GET", p, "")
		vs.Assert(r.Code == 404, "GET %s: status %d", p, r.Code)
	}
}

// records: every type, with all, some or no attributes, whole or in parts, next
// to records of other types with the same identity.
func records() {
	p := startServe()
	discover(r1, c1)
	time.Sleep(100 * ms)
	m := newState()
	give := func(s src, rs ...vanflow.Record) {
		for _, r := range rs {
			m.got(s, r)
		}
		s.send(rs...)
	}
	t := types[vs.Choose(len(types))]
	even := func(i int) bool { return i%2 == 0 }
	odd := func(i int) bool { return i%2 == 1 }
	what := typeName(t)
	switch vs.Choose(7) {
	case 0:
		give(r1, fill(t, "x", "a", every))
	case 1:
		give(r1, fill(t, "x", "a", none))
	case 2:
		what += " in parts"
		give(r1, fill(t, "x", "a", even))
		give(r1, fill(t, "x", "b", odd))
	case 3:
		what += " changed"
		give(r1, fill(t, "x", "a", every))
		give(r1, fill(t, "x", "bb", even))
	case 4:
		what += " two in one message"
		give(r1, fill(t, "x", "a", every), fill(t, "y", "b", odd))
	case 5:
		what += " and others with the same identity"
		for _, o := range types {
			give(r1, fill(o, "x", "a"+typeName(o), every))
		}
		give(r1, fill(t, "x", "bb", odd))
		for _, o := range types {
			give(r1, fill(o, "x", "c", func(i int) bool { return i == 3 }))
		}
	case 6:
		what += " of two sources"
		give(r1, fill(t, "x", "a", every))
		give(c1, fill(t, "y", "b", every))
	}
	time.Sleep(100 * ms)
	vs.Quiesce()
	shown(m, what, r1, c1)
	notFound("/nope", "/flow/v1/ImageRecord/", "/flow")
	p.interrupt(serve)
}

// values: attribute values at the limits of what a source can send.
func values() {
	p := startServe()
	discover(r1)
	time.Sleep(100 * ms)
	m := newState()
	v := []string{"", " ", "\x00", "null", "\"", "\u2028", strings.Repeat("x", 3000)}
	n := []uint64{0, 1, 1<<53 + 1, 1<<63 - 1, 1<<64 - 1}
	d := []int64{0, 1, 1700000000123456, 253402300799999999, 253402300800000000, 1<<63 - 1}
	at := func(us int64) *vanflow.Time { return &vanflow.Time{Time: time.UnixMicro(us)} }
	for i, s := range v {
		m.give(r1, vanflow.SiteRecord{BaseRecord: vanflow.BaseRecord{ID: fmt.Sprint("s", i)}, Name: &s})
	}
	for i, u := range n {
		m.give(r1, vanflow.LinkRecord{BaseRecord: vanflow.BaseRecord{ID: fmt.Sprint("l", i)}, LinkCost: &u})
	}
	for i, us := range d {
		m.give(r1, vanflow.SiteRecord{BaseRecord: vanflow.BaseRecord{ID: fmt.Sprint("t", i), StartTime: at(us), EndTime: at(us)}})
	}
	time.Sleep(100 * ms)
	vs.Quiesce()
	shown(m, "values", r1)
	p.interrupt(serve)
}

// identities: records are told apart whatever their identities look like.
func identities() {
	p := startServe()
	discover(r1)
	time.Sleep(100 * ms)
	m := newState()
	for _, id := range []string{strings.Repeat("i", 200), strings.Repeat("i", 201), strings.Repeat("ab", 20), "a/b", "SiteRecord/a", "flow/v1/SiteRecord/a", " ", "a:b", "\n", "é", "A", "a", "%61", "123e4567-e89b-12d3-a456-426614174000"} {
		for _, t := range types {
			m.give(r1, fill(t, id, "z"+typeName(t), func(i int) bool { return i == 2 }))
		}
	}
	time.Sleep(100 * ms)
	vs.Quiesce()
	shown(m, "identities", r1)
	p.interrupt(serve)
}

func (m *state) give(s src, r vanflow.Record) {
	m.got(s, r)
	s.send(r)
}

// unread: clients that do not read their responses keep nothing from going on.
func unread() {
	p := startServe()
	m := newState()
	e := &vs.Event{}
	stall := func() {
		for _, path := range []string{"/", "/sources/", "/flow/v1/SiteRecord/", "/nowhere"} {
			go vhttp.VmcDo(vhttp.VmcStall(bg, e), serve, "GET", path, nil)
		}
		vs.Quiesce()
	}
	k := vs.Choose(3)
	if k == 0 {
		stall()
	}
	discover(r1)
	if k == 1 {
		stall()
	}
	a := fill(vanflow.SiteRecord{}, "s", "a", every)
	m.got(r1, a)
	r1.send(a)
	if k == 2 {
		time.Sleep(sec)
		stall()
	}
	discover(c1)
	b := fill(vanflow.FlowRecord{}, "f", "b", every)
	m.got(c1, b)
	c1.send(b)
	time.Sleep(sec)
	vs.Quiesce()
	shown(m, fmt.Sprintf("case %d, with clients that do not read", k), r1, c1)
	e.Set()
	vs.Quiesce()
	p.interrupt(serve)
}

// busy: requests while sources appear and records arrive.
func busy() {
	p := startServe()
	m := newState()
	done := make(chan bool, 2)
	for _, s := range []src{r1, c1} {
		a, b := fill(vanflow.SiteRecord{}, "s"+s.id, "a", every), fill(vanflow.FlowRecord{}, "f"+s.id, "b", every)
		m.got(s, a)
		m.got(s, b)
		go func() {
			discover(s)
			s.send(a)
			s.send(b)
			done <- true
		}()
	}
	full := m.want("")
	part := map[string]bool{}
	for _, path := range []string{"/", "/flow/v1/SiteRecord/", "/"} {
		for k, v := range do(serve, "GET", path, "").listing() {
			vs.Assert(full[k] == v, "GET %s while records arrive shows %s as %s", path, k, v)
			if path == "/" {
				part[k] = true
			}
		}
		do(serve, "GET", "/sources/", "").sources()
	}
	<-done
	<-done
	time.Sleep(sec)
	vs.Quiesce()
	vs.Outcome("%d", len(part))
	shown(m, "after the traffic", r1, c1)
	p.interrupt(serve)
}

// flushes: every source that is discovered is asked for its records, once, at
// its first message or after five seconds.
func flushes() {
	p := startServe()
	b := amqp.Vmc()
	b.WaitReceivers("mc/sfe.all", 1)
	vs.Quiesce()
	at := vs.Elapsed()
	discover(r1)
	vs.Assert(vs.Elapsed()-at < sec, "the source is listened to only %v after it was discovered", vs.Elapsed()-at)
	early := vs.Choose(3)
	switch early {
	case 1:
		time.Sleep(sec)
		r1.heartbeat()
	case 2:
		time.Sleep(sec)
		r1.send(fill(vanflow.SiteRecord{}, "s", "a", every))
		r1.heartbeat()
		r1.heartbeat()
	}
	t0 := vs.Elapsed()
	time.Sleep(8 * sec)
	vs.Quiesce()
	n := 0
	for _, s := range b.Sent {
		if s.Addr != r1.direct() {
			continue
		}
		x, err := vanflow.Decode(s.Msg)
		if _, ok := x.(vanflow.FlushMessage); !ok {
			vs.Fail("assert", "%T %v sent to the source", x, err)
		}
		n++
		if early > 0 {
			vs.Assert(time.Duration(s.At) <= t0+100*ms, "flush sent at %v, first message at %v", time.Duration(s.At), t0)
		}
	}
	vs.Assert(n == 1, "%d flush requests sent to a discovered source", n)
	p.interrupt(serve)
}

// comeAndGo: a source falls silent, is forgotten, and comes back.
func comeAndGo() {
	p := startServe()
	b := amqp.Vmc()
	b.WaitReceivers("mc/sfe.all", 1)
	vs.Quiesce()
	idle := len(b.OpenConns())
	m := newState()
	discover(c1)
	time.Sleep(100 * ms)
	one := -1
	for i := 0; i < 3; i++ {
		m.give(c1, fill(vanflow.SiteRecord{}, fmt.Sprint("s", i), "a", every))
		time.Sleep(100 * ms)
		vs.Quiesce()
		shown(m, "known", c1)
		if one < 0 {
			one = len(b.OpenConns())
		}
		vs.Assert(len(b.OpenConns()) == one, "%d connections with one source, %d the first time", len(b.OpenConns()), one)
		// heartbeats keep it known
		for k := 0; k < 4; k++ {
			time.Sleep(20 * sec)
			c1.heartbeat()
		}
		time.Sleep(100 * ms)
		vs.Quiesce()
		srcs("heartbeats go on", c1)
		time.Sleep(2 * time.Minute)
		vs.Quiesce()
		shown(m, "forgotten")
		vs.Assert(len(b.OpenConns()) == idle, "%d connections without a known source", len(b.OpenConns()))
		vs.Assert(b.Receivers(c1.addr()) == 0, "still listening to a forgotten source")
		discover(c1)
		time.Sleep(100 * ms)
	}
	p.interrupt(serve)
}

// beacons: a source of which nothing but beacons is heard is forgotten and
// discovered again, and not missing in between for long.
func beacons() {
	p := startServe()
	discover(c1)
	every := []time.Duration{200 * ms, 3 * sec}[vs.Choose(2)]
	m := newState()
	time.Sleep(100 * ms)
	seen := vs.Elapsed()
	next := seen + sec
	for vs.Elapsed() < 75*sec {
		time.Sleep(every)
		c1.beacon()
		if vs.Elapsed() < next {
			continue
		}
		next = vs.Elapsed() + 2*sec
		vs.Quiesce()
		l := do(serve, "GET", "/sources/", "").sources()
		vs.Assert(len(l) < 2, "sources %v", l)
		if len(l) > 0 {
			seen = vs.Elapsed()
		}
		vs.Assert(vs.Elapsed()-seen < 10*sec, "a source that sends beacons is not listed for %v", vs.Elapsed()-seen)
	}
	time.Sleep(5 * sec)
	vs.Quiesce()
	c1.beacon()
	discover(c1)
	time.Sleep(100 * ms)
	m.give(c1, fill(vanflow.SiteRecord{}, "s", "a", func(int) bool { return true }))
	time.Sleep(3 * sec)
	vs.Quiesce()
	shown(m, "after beacons only", c1)
	p.interrupt(serve)
}

// lost: the connections break; what arrives after they are back is shown.
func lost() {
	p := startServe()
	b := amqp.Vmc()
	m := newState()
	discover(r1)
	time.Sleep(100 * ms)
	m.give(r1, fill(vanflow.SiteRecord{}, "s", "a", func(i int) bool { return i != 2 }))
	time.Sleep(100 * ms)
	vs.Quiesce()
	cs := b.OpenConns()
	k := vs.Choose(len(cs) + 1)
	for i, c := range cs {
		if i == k || k == len(cs) {
			b.Kill(c, "broken by the environment")
		}
	}
	if vs.Choose(2) == 1 {
		c1.beacon() // perhaps lost
	}
	time.Sleep(10 * sec)
	vs.Quiesce()
	discover(r1, c1)
	m.give(r1, fill(vanflow.SiteRecord{}, "s", "bb", func(i int) bool { return i == 2 }))
	m.give(c1, fill(vanflow.ProcessRecord{}, "p", "bb", every))
	time.Sleep(100 * ms)
	vs.Quiesce()
	shown(m, "after a reconnect", r1, c1)
	p.interrupt(serve)
}

// shutdown: an interrupt at any point ends the server.
func shutdown() {
	b := amqp.Vmc()
	b.Deaf = true
	p := run(tool.VmcMain)
	k := vs.Choose(8)
	unread := &vs.Event{}
	switch k {
	case 0:
	case 1:
		vhttp.VmcWaitListen(serve)
	case 2:
		vhttp.VmcWaitListen(serve)
		discover(r1)
	case 3:
		discover(r1)
		r1.send(fill(vanflow.SiteRecord{}, "s", "a", every))
	case 4:
		vhttp.VmcWaitListen(serve)
		go func() { vhttp.VmcDo(bg, serve, "GET", "/", nil) }()
	case 5:
		b.OnDial = func(int, string, *amqp.ConnOptions) amqp.Fate { return amqp.FateErr }
		time.Sleep(5 * sec)
	case 6:
		discover(r1, c1)
		time.Sleep(7 * sec)
	case 7: // clients that do not read the response
		vhttp.VmcWaitListen(serve)
		for _, path := range []string{"/", "/sources/", "/flow/v1/SiteRecord/", "/nowhere"} {
			go vhttp.VmcDo(vhttp.VmcStall(bg, unread), serve, "GET", path, nil)
		}
		vs.Quiesce()
	}
	p.interrupt(serve)
	unread.Set()
	time.Sleep(3 * time.Minute)
	vs.Quiesce()
	if o := b.OpenConns(); len(o) > 0 {
		vs.Fail("assert", "case %d: connection %d is open after the command ended", k, o[0].N)
	}
	if a := vs.Alive(); len(a) > 0 {
		vs.Fail("assert", "case %d: goroutines %v after the command ended", k, a)
	}
}

// without: record types that are not included are not served.
func without() {
	p := startServe()
	b := amqp.Vmc()
	m := newState()
	b.WaitReceivers("mc/sfe.all", 1)
	r1.beacon()
	b.WaitReceivers(r1.addr(), 1)
	time.Sleep(100 * ms)
	vs.Assert(b.Receivers(r1.addr()+".flows") == 0 && b.Receivers(r1.addr()+".logs") == 0, "listening for excluded records")
	m.give(r1, fill(vanflow.SiteRecord{}, "s", "a", every))
	r1.sendTo(r1.addr(), fill(vanflow.FlowRecord{}, "f", "a", every), fill(vanflow.LogRecord{}, "g", "a", every))
	m.give(r1, fill(vanflow.LinkRecord{}, "k", "a", every))
	time.Sleep(100 * ms)
	vs.Quiesce()
	if d := same(do(serve, "GET", "/", "").listing(), m.want("")); d != "" {
		vs.Fail("assert", "listing: %s", d)
	}
	notFound("/flow/v1/FlowRecord/", "/flow/v1/LogRecord/")
	p.interrupt(serve)
}

// withoutOne: the other kind of records is served.
func withoutOne(r vanflow.Record, suffix string) func() {
	return func() {
		p := startServe()
		b := amqp.Vmc()
		m := newState()
		b.WaitReceivers("mc/sfe.all", 1)
		s := []src{r1, c1}[vs.Choose(2)]
		s.beacon()
		b.WaitReceivers(s.addr(), 1)
		b.WaitReceivers(s.addr()+suffix, 1)
		time.Sleep(100 * ms)
		for _, x := range []string{".flows", ".logs"} {
			vs.Assert(x == suffix || b.Receivers(s.addr()+x) == 0, "listening for excluded records at %s", x)
		}
		m.give(s, fill(vanflow.SiteRecord{}, "s", "a", every))
		m.give(s, fill(r, "f", "a", every))
		time.Sleep(100 * ms)
		vs.Quiesce()
		if d := same(do(serve, "GET", "/", "").listing(), m.want("")); d != "" {
			vs.Fail("assert", "listing: %s", d)
		}
		if d := same(do(serve, "GET", "/"+typeName(r)+"/", "").listing(), m.want(typeName(r))); d != "" {
			vs.Fail("assert", "listing: %s", d)
		}
		srcs("one kind excluded", s)
		p.interrupt(serve)
	}
}

// waiting: records are there when the server starts to receive.
func waiting() {
	b := amqp.Vmc()
	b.Deaf = true
	m := newState()
	ss := []src{r1, c1}[:1+vs.Choose(2)]
	k := vs.Choose(3)
	for _, s := range ss {
		go func() {
			for _, r := range []vanflow.Record{fill(vanflow.SiteRecord{}, "s"+s.id, "a", every), fill(vanflow.FlowRecord{}, "f"+s.id, "a", every), fill(vanflow.LogRecord{}, "l"+s.id, "a", every)} {
				b.WaitReceivers(s.addrOf(r), 1)
				s.send(r)
			}
		}()
		for _, r := range []vanflow.Record{fill(vanflow.SiteRecord{}, "s"+s.id, "a", every), fill(vanflow.FlowRecord{}, "f"+s.id, "a", every), fill(vanflow.LogRecord{}, "l"+s.id, "a", every)} {
			m.got(s, r)
		}
	}
	p := run(tool.VmcMain)
	b.WaitReceivers("mc/sfe.all", 1)
	for _, s := range ss {
		s.beacon()
		if k == 1 {
			s.beacon()
		}
		if k == 2 {
			time.Sleep(sec)
		}
	}
	time.Sleep(sec)
	vs.Quiesce()
	shown(m, "records there at the start", ss...)
	p.interrupt(serve)
}

// large: many records are shown like few.
func large(n int) func() {
	return func() {
		vs.AllowTicks(2000)
		p := startServe()
		discover(r1)
		time.Sleep(100 * ms)
		m := newState()
		var rs []vanflow.Record
		for i := 0; i < n; i++ {
			t := types[i%2*7]
			rs = append(rs, fill(t, fmt.Sprint("id", i), "a", func(i int) bool { return i == 0 }))
		}
		for len(rs) > 0 {
			var part []vanflow.Record
			for _, r := range rs[:min(len(rs), 100)] {
				m.got(r1, r)
				part = append(part, r)
			}
			r1.sendTo(r1.addr(), part...)
			rs = rs[len(part):]
		}
		time.Sleep(10 * sec)
		vs.Quiesce()
		if d := same(do(serve, "GET", "/", "").listing(), m.want("")); d != "" {
			vs.Fail("assert", "%d records: listing: %s", n, d)
		}
		for _, t := range types {
			if d := same(do(serve, "GET", "/"+typeName(t)+"/", "").listing(), m.want(typeName(t))); d != "" {
				vs.Fail("assert", "%d records: listing of %s: %s", n, typeName(t), d)
			}
		}
		p.interrupt(serve)
	}
}
