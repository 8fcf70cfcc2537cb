package main

import (
	"context"
	"errors"
	"fmt"
	"sort"
	"strings"
	"time"

	"github.com/Azure/go-amqp"
	"github.com/c-kruse/vanflow"
	"github.com/c-kruse/vanflow/encoding"
	"github.com/c-kruse/vanflow/eventsource"
	"github.com/c-kruse/vanflow/store"

	"vmc/vs"
)

// site builds a record; "-" leaves an attribute unset.
func site(id, name, version string) vanflow.SiteRecord {
	r := vanflow.SiteRecord{BaseRecord: vanflow.NewBase(id)}
	if name != "-" {
		r.Name = &name
	}
	if version != "-" {
		r.Version = &version
	}
	return r
}

// attrs of a record as sent: what is set, by name.
func attrs(r vanflow.Record) string {
	var s vanflow.SiteRecord
	switch x := r.(type) {
	case vanflow.SiteRecord:
		s = x
	case *vanflow.SiteRecord:
		s = *x
	case gadget:
		return x.text()
	case *gadget:
		return x.text()
	default:
		return fmt.Sprintf("%T %s", r, r.Identity())
	}
	out := s.ID
	add := func(n string, v *string) {
		if v != nil {
			out += fmt.Sprintf(" %s=%q", n, *v)
		}
	}
	add("location", s.Location)
	add("provider", s.Provider)
	add("platform", s.Platform)
	add("namespace", s.Namespace)
	add("name", s.Name)
	add("version", s.Version)
	add("policy", s.Policy)
	if s.StartTime != nil {
		out += fmt.Sprint(" start=", s.StartTime.UnixMicro())
	}
	if s.EndTime != nil {
		out += fmt.Sprint(" end=", s.EndTime.UnixMicro())
	}
	return out
}

// alien is a record of an unregistered type.
type alien struct{ id string }

func (a alien) Identity() string { return a.id }
func (a alien) GetTypeMeta() vanflow.TypeMeta {
	return vanflow.TypeMeta{APIVersion: "x", Type: "alien"}
}

// tags is an attribute that encodes itself, to a list.
type tags []string

func (t tags) EncodeRecordAttribute() (any, error) {
	if t == nil {
		return nil, encoding.ErrAttributeNotSet
	}
	return []string(t), nil
}

func (t *tags) DecodeRecordAttribute(a any) error {
	l, ok := a.([]string)
	if !ok {
		return fmt.Errorf("no tags: %T", a)
	}
	*t = append(tags{}, l...)
	return nil
}

// gadget is a record type of an application that requires two attributes.
type gadget struct {
	Kind int32   `vflow:"98,required"`
	Key  string  `vflow:"99,required"`
	Tags tags    `vflow:"100"`
	Size *uint64 `vflow:"101"`
}

func (g gadget) Identity() string { return g.Key }
func (g gadget) GetTypeMeta() vanflow.TypeMeta {
	return vanflow.TypeMeta{APIVersion: "vmc", Type: "Gadget"}
}

func (g gadget) text() string {
	out := fmt.Sprintf("%s kind=%d", g.Key, g.Kind)
	if g.Tags != nil {
		out += fmt.Sprintf(" tags=%v", g.Tags)
	}
	if g.Size != nil {
		out += fmt.Sprintf(" size=%d", *g.Size)
	}
	return out
}

func init() { encoding.MustRegisterRecord(9001, gadget{}) }

type mworld struct {
	n      *fnet
	m      *eventsource.Manager
	cancel context.CancelFunc
	ret    vs.Event
}

func newMworld(n *fnet, cfg eventsource.ManagerConfig) *mworld {
	cfg.Source = src
	w := &mworld{n: n}
	w.m = eventsource.NewManager(n, cfg)
	return w
}

func (w *mworld) run() {
	ctx, cancel := context.WithCancel(bg)
	w.cancel = cancel
	go func() { w.m.Run(ctx); w.ret.Set() }()
	w.n.open(src.Direct, 1)
}

// stop ends the event source and checks that nothing is left of it.
func (w *mworld) stop() {
	w.cancel()
	promptly(&w.ret, "Run returned after it was cancelled")
	vs.Quiesce()
	if l := vs.Alive(); len(l) > 0 {
		vs.Fail("assert", "goroutines left after the event source stopped: %v", l)
	}
	if l := w.n.leaks(); l != "" {
		vs.Fail("assert", "left open after the event source stopped: %s", l)
	}
}

// out is one record message sent by the event source.
type out struct {
	at, end time.Duration
	order   int
	recs    []string
	err     error
	done    bool
}

// records lists the record messages sent to the source address, in order.
func (w *mworld) records() (l []out) {
	w.n.o.TouchR()
	for _, e := range w.n.attempts(src.Address) {
		if subject(e.msg) != "RECORD" {
			continue
		}
		d, err := vanflow.Decode(e.msg)
		if err != nil {
			vs.Fail("assert", "sent a record message that cannot be decoded: %v", err)
			continue
		}
		o := out{at: e.at, end: e.end, order: e.order, err: e.err, done: e.done}
		for _, r := range d.(vanflow.RecordMessage).Records {
			o.recs = append(o.recs, attrs(r))
		}
		l = append(l, o)
	}
	return
}

// E08

type upd struct {
	name string
	mk   func() eventsource.RecordUpdate
	want string // as sent, what may be left out in brackets; "" for nothing
}

func alphaUpdates() []upd {
	u := func(name string, prev, curr vanflow.Record, want string) upd {
		return upd{name, func() eventsource.RecordUpdate { return eventsource.RecordUpdate{Prev: prev, Curr: curr} }, want}
	}
	t1, t2 := vanflow.Time{Time: time.UnixMicro(1000)}, vanflow.Time{Time: time.UnixMicro(2000)}
	st := func(s, e *vanflow.Time) *vanflow.SiteRecord {
		r := site("a", "n", "-")
		r.StartTime, r.EndTime = s, e
		return &r
	}
	a1, a2 := site("a", "n", "1"), site("a", "n", "2")
	ptr := func(r vanflow.SiteRecord) *vanflow.SiteRecord { return &r }
	n0, n5 := uint64(0), uint64(5)
	return []upd{
		u("new", nil, site("a", "n", "1"), `a name="n" version="1"`),
		u("new with empty value", nil, site("b", "", "-"), `b name=""`),
		u("change", a1, a2, `a version="2"`),
		u("to empty", a1, site("a", "", "1"), `a name=""`),
		u("added", site("a", "n", "-"), a1, `a version="1"`),
		u("added empty", site("a", "n", "-"), site("a", "n", ""), `a version=""`),
		u("ended", st(&t1, nil), st(&t1, &t2), "a end=2000"),
		u("same", a1, site("a", "n", "1"), ""),
		u("same pointer", &a1, ptr(site("a", "n", "1")), ""),
		u("value to pointer", a1, ptr(a2), `a version="2"`),
		u("all changed", a1, site("a", "x", "9"), `a name="x" version="9"`),
		u("no identity", nil, site("", "n", "1"), ""),
		u("identity lost", a1, site("", "n", "2"), ""),
		u("unknown type", nil, alien{"z"}, ""),
		u("unknown types", alien{"z"}, alien{"z"}, ""),
		u("nothing", nil, nil, ""),
		u("now nothing", a1, nil, ""),
		u("bad time", nil, st(&vanflow.Time{Time: time.UnixMicro(-5)}, nil), ""),
		u("new gadget", nil, gadget{1, "g", tags{"a"}, nil}, "g kind=1 tags=[a]"),
		u("gadget grows", gadget{1, "g", tags{"a"}, nil}, &gadget{1, "g", tags{"a"}, &n5}, "g kind=1[ tags=[a]] size=5"),
		u("gadget shrinks", &gadget{1, "g", tags{"a", "b"}, &n5}, gadget{1, "g", tags{"a"}, &n0}, "g kind=1 tags=[a] size=0"),
		u("gadget tagged", gadget{1, "g", tags{"a"}, &n5}, gadget{1, "g", tags{"b"}, &n5}, "g kind=1 tags=[b][ size=5]"),
		u("same gadget", gadget{1, "g", tags{"a"}, &n5}, gadget{1, "g", tags{"a"}, &n5}, ""),
		u("no gadget", gadget{1, "g", nil, nil}, gadget{0, "g", tags{"a"}, nil}, ""),
		u("only identity", nil, vanflow.SiteRecord{BaseRecord: vanflow.NewBase("c")}, "c"),
	}
}

type bufCfg struct {
	size int
	buf  time.Duration
}

// wait is how long an update may be held back.
func (b bufCfg) wait() time.Duration { return max(b.buf, 0) }

// limit is the largest batch of the configuration.
func (b bufCfg) limit() int {
	if b.size > 1 && b.buf > 0 {
		return b.size
	}
	return 1
}

// matches whether got is want, with or without what want has in brackets
// after a space.
func matches(got, want string) bool {
	a, rest, ok := strings.Cut(want, "[ ")
	if !ok {
		return got == want
	}
	i := strings.LastIndex(rest, "]")
	if j := strings.Index(rest, "]] "); j >= 0 {
		i = j + 1
	}
	return matches(got, a+" "+rest[:i]+rest[i+1:]) || matches(got, a+rest[i+1:])
}

func checkRecords(w *mworld, limit int, want []string, what any) {
	var got []string
	for _, o := range w.records() {
		vs.Assert(len(o.recs) <= limit, "%v: message of %d records, at most %d allowed", what, len(o.recs), limit)
		vs.Assert(len(o.recs) > 0, "%v: message without records", what)
		got = append(got, o.recs...)
	}
	same := len(got) == len(want)
	for i := range got {
		same = same && matches(got[i], want[i])
	}
	vs.Assert(same, "%v: sent [%s], want [%s]", what, strings.Join(got, "; "), strings.Join(want, "; "))
}

// updates: every sequence of updates, published in bursts or one by one.
func updates(length int, cfg bufCfg) func() {
	return func() {
		alpha := alphaUpdates()
		n := newNet()
		w := newMworld(n, eventsource.ManagerConfig{HeartbeatInterval: time.Hour, BeaconInterval: time.Hour, UpdateBufferTime: cfg.buf, UpdateBatchSize: cfg.size})
		w.run()
		burst := vs.Choose(3)
		var want, names []string
		for k := 0; k < length; k++ {
			u := alpha[vs.Choose(len(alpha))]
			names = append(names, u.name)
			before := len(want)
			at := vs.Elapsed()
			w.m.PublishUpdate(u.mk())
			if u.want != "" {
				want = append(want, u.want)
			}
			if burst == 1 || burst == 2 && k == 0 { // wait until it must be out
				time.Sleep(cfg.wait() + eps)
				vs.Quiesce()
				checkRecords(w, cfg.limit(), want, names)
				if l := w.records(); len(want) > before {
					last := l[len(l)-1]
					vs.Assert(last.at >= at && last.at-at <= cfg.wait()+eps, "%v: sent %v after publication", names, last.at-at)
				}
			}
		}
		time.Sleep(cfg.wait() + eps)
		vs.Quiesce()
		checkRecords(w, cfg.limit(), want, names)
		w.stop()
	}
}

// mixed: the order of different kinds of updates of several records within
// the batches they are sent in.
func mixed(length int, cfg bufCfg) func() {
	return func() {
		n := newNet()
		w := newMworld(n, eventsource.ManagerConfig{HeartbeatInterval: time.Hour, BeaconInterval: time.Hour, UpdateBufferTime: cfg.buf, UpdateBatchSize: cfg.size})
		w.run()
		t := vanflow.Time{Time: time.UnixMicro(2000)}
		var want, names []string
		for k := 0; k < length; k++ {
			// identities in no particular order
			id := fmt.Sprint("r", (k*5+3)%7)
			prev, curr := site(id, "n", "1"), site(id, "n", "2")
			u, out := eventsource.RecordUpdate{Prev: prev, Curr: curr}, fmt.Sprintf("%s version=%q", id, "2")
			switch vs.Choose(6) {
			case 1:
				u, out = eventsource.RecordUpdate{Curr: curr}, fmt.Sprintf("%s name=%q version=%q", id, "n", "2")
			case 2:
				prev.EndTime, curr.EndTime = nil, &t
				u, out = eventsource.RecordUpdate{Prev: prev, Curr: curr}, fmt.Sprintf("%s version=%q end=2000", id, "2")
			case 3:
				u, out = eventsource.RecordUpdate{Prev: prev, Curr: prev}, ""
			case 4:
				u, out = eventsource.RecordUpdate{Curr: alien{id}}, ""
			case 5:
				u, out = eventsource.RecordUpdate{Curr: gadget{1, id, tags{"a"}, nil}}, id+" kind=1 tags=[a]"
			}
			names = append(names, out)
			if out != "" {
				want = append(want, out)
			}
			w.m.PublishUpdate(u)
		}
		time.Sleep(time.Duration(length)*cfg.wait() + eps)
		vs.Quiesce()
		checkRecords(w, cfg.limit(), want, names)
		w.stop()
	}
}

// fullBatch: a full batch does not wait, a partial one waits at most the
// buffering time counted from its first update.
func fullBatch() {
	n := newNet()
	size := 2 + vs.Choose(2)
	buf := time.Second
	w := newMworld(n, eventsource.ManagerConfig{HeartbeatInterval: time.Hour, BeaconInterval: time.Hour, UpdateBufferTime: buf, UpdateBatchSize: size})
	w.run()
	var want []string
	var pub []time.Duration
	for k := 0; k < 5; k++ {
		time.Sleep([]time.Duration{0, 400 * time.Millisecond, 700 * time.Millisecond}[vs.Choose(3)])
		id := fmt.Sprint("r", k)
		pub = append(pub, vs.Elapsed())
		w.m.PublishUpdate(eventsource.RecordUpdate{Curr: site(id, "-", "-")})
		want = append(want, id)
	}
	time.Sleep(buf + eps)
	vs.Quiesce()
	checkRecords(w, size, want, pub)
	i := 0
	for _, o := range w.records() {
		for range o.recs {
			vs.Assert(o.at-pub[i] <= buf+eps, "update %d sent %v after publication", i, o.at-pub[i])
			i++
		}
	}
	w.stop()
}

// publishers: concurrent publishers, each in its own order, with fast, slow
// and failing sends.
func publishers(cfg bufCfg) func() {
	return func() {
		n := newNet()
		mode := vs.Choose(3)
		fails := 0
		n.onSend = func(addr string, k int, m *amqp.Message) fate {
			if addr != src.Address || subject(m) != "RECORD" {
				return fate{}
			}
			switch mode {
			case 1:
				return fate{slow: 100 * time.Millisecond}
			case 2:
				if k == 0 {
					fails++
					return fate{err: errors.New("send failed")}
				}
			}
			return fate{}
		}
		w := newMworld(n, eventsource.ManagerConfig{HeartbeatInterval: time.Hour, BeaconInterval: time.Hour, UpdateBufferTime: cfg.buf, UpdateBatchSize: cfg.size})
		w.run()
		done := make(chan struct{})
		for _, p := range []string{"p", "q"} {
			go func() {
				prev := site(p, "-", "0")
				for i := 1; i <= 3; i++ {
					cur := site(p, "-", fmt.Sprint(i))
					w.m.PublishUpdate(eventsource.RecordUpdate{Prev: prev, Curr: cur})
					prev = cur
					if i == 2 {
						time.Sleep(150 * time.Millisecond)
					}
				}
				done <- struct{}{}
			}()
		}
		<-done
		<-done
		time.Sleep(10 * time.Second)
		per := map[string][]string{}
		lost := 0
		for i, o := range w.records() {
			vs.Assert(len(o.recs) <= cfg.limit(), "message of %d records, at most %d allowed", len(o.recs), cfg.limit())
			if o.err != nil {
				vs.Assert(i == 0, "message %d failed", i)
				lost += len(o.recs)
			}
			for _, r := range o.recs {
				per[r[:1]] = append(per[r[:1]], r)
			}
		}
		for _, p := range []string{"p", "q"} {
			want := fmt.Sprintf(`%s version="1"; %s version="2"; %s version="3"`, p, p, p)
			vs.Assert(strings.Join(per[p], "; ") == want, "publisher %s: sent %v", p, per[p])
		}
		w.stop()
	}
}

// manyUpdates: far more updates than any queue holds, to a slow peer.
func manyUpdates(cfg bufCfg, total int) func() {
	return func() {
		n := newNet()
		n.onSend = func(addr string, k int, m *amqp.Message) fate {
			if addr == src.Address {
				return fate{slow: time.Millisecond}
			}
			return fate{}
		}
		w := newMworld(n, eventsource.ManagerConfig{HeartbeatInterval: time.Hour, BeaconInterval: time.Hour, UpdateBufferTime: cfg.buf, UpdateBatchSize: cfg.size})
		w.run()
		var want []string
		for i := 0; i < total; i++ {
			id := fmt.Sprint("r", i)
			w.m.PublishUpdate(eventsource.RecordUpdate{Curr: site(id, "-", "-")})
			want = append(want, id)
		}
		time.Sleep(time.Minute)
		checkRecords(w, cfg.limit(), want, "")
		w.stop()
	}
}

// merged: a subscriber that accumulates what it receives has the published
// state, with a flush and its answer mixed in.
func merged() {
	n := newNet()
	stor := store.NewDefaultCachingStore(store.CacheConfig{})
	w := newMworld(n, eventsource.ManagerConfig{HeartbeatInterval: time.Hour, BeaconInterval: time.Hour, Stores: []store.Interface{stor}, UpdateBufferTime: time.Second, UpdateBatchSize: 2})
	w.run()
	sub := store.NewDefaultCachingStore(store.CacheConfig{})
	rcv := n.NewReceiver(src.Address, sessOpts)
	ctx, cancel := context.WithCancel(bg)
	go func() {
		for {
			m, err := rcv.Next(ctx)
			if err != nil {
				return
			}
			rcv.Accept(ctx, m)
			d, err := vanflow.Decode(m)
			if err != nil {
				continue
			}
			if r, ok := d.(vanflow.RecordMessage); ok {
				for _, x := range r.Records {
					sub.Accumulate(store.SourceRef{Name: "s"}, x)
				}
			}
		}
	}()
	states := []vanflow.SiteRecord{site("a", "n", "-"), site("a", "n", "1"), site("a", "", "1"), site("a", "", "2"), site("a", "m", "2")}
	go func() {
		var prev vanflow.Record
		for i, s := range states {
			e := store.Entry{Record: s}
			if i == 0 {
				stor.Add(bg, e)
			} else {
				stor.Update(bg, e)
			}
			w.m.PublishUpdate(eventsource.RecordUpdate{Prev: prev, Curr: s})
			prev = s
			if i == 2 {
				time.Sleep(200 * time.Millisecond)
			}
		}
	}()
	if vs.Choose(2) == 1 {
		time.Sleep(100 * time.Millisecond)
	}
	n.push(src.Direct, item{m: flush(src.Direct)})
	time.Sleep(10 * time.Second)
	l, err := sub.List(bg, nil)
	vs.Assert(err == nil && len(l.Entries) == 1 && attrs(l.Entries[0].Record) == attrs(states[len(states)-1]), "the subscriber has %v, published %s", l.Entries, attrs(states[len(states)-1]))
	cancel()
	rcv.Close(bg)
	w.stop()
}

// E09

// lister is a store that may fail to list.
type lister struct {
	store.Interface
	fails  int           // this many times; -1 always
	slow   time.Duration // listing takes this long
	broken bool
	calls  int
}

func (l *lister) List(ctx context.Context, s *store.Selector) (store.Set, error) {
	l.calls++
	if l.slow > 0 {
		t := time.NewTimer(l.slow)
		defer t.Stop()
		select {
		case <-t.C:
		case <-ctx.Done():
			return store.Set{}, ctx.Err()
		}
	}
	if l.fails != 0 {
		if l.fails > 0 {
			l.fails--
		}
		return store.Set{}, errors.New("store unavailable")
	}
	return l.Interface.List(ctx, s)
}

func fill(s store.Interface, ids ...string) {
	for _, id := range ids {
		s.Add(bg, store.Entry{Record: site(id, "n-"+id, "-")})
	}
}

func wantRec(id string) string { return fmt.Sprintf("%s name=%q", id, "n-"+id) }

// answered checks that the records sent from message index i on contain all
// of ids.
func answered(w *mworld, from int, limit int, what any, ids ...string) {
	got := map[string]int{}
	for _, o := range w.records()[from:] {
		vs.Assert(limit <= 0 || len(o.recs) <= limit, "%v: message of %d records, batch size %d", what, len(o.recs), limit)
		for _, r := range o.recs {
			got[r]++
		}
	}
	for _, id := range ids {
		vs.Assert(got[wantRec(id)] > 0, "%v: record %s is missing from the answer %v", what, id, got)
	}
}

// flushed: configurations of stores, sizes and delays; each kind of message.
func flushed() {
	n := newNet()
	mem := func() store.Interface { return store.NewDefaultCachingStore(store.CacheConfig{}) }
	var stores []store.Interface
	var ids []string
	total := 0
	for i, k := 0, vs.Choose(4); i < k; i++ {
		s := mem()
		sizes := []int{0, 1, 3}
		for j, m := 0, sizes[vs.Choose(3)]; j < m; j++ {
			id := fmt.Sprintf("s%d-%d", i, j)
			fill(s, id)
			ids = append(ids, id)
			total++
		}
		stores = append(stores, s)
	}
	batch := []int{0, 1, 2, -3}[vs.Choose(4)]
	delay := []time.Duration{0, 500 * time.Millisecond, -time.Second}[vs.Choose(3)]
	w := newMworld(n, eventsource.ManagerConfig{HeartbeatInterval: time.Hour, BeaconInterval: time.Hour, Stores: stores, FlushBatchSize: batch, FlushDelay: delay})
	w.run()
	time.Sleep(time.Second)
	vs.Assert(len(w.records()) == 0, "records sent without a request")
	at := vs.Elapsed()
	n.push(src.Direct, item{m: flush(src.Direct)})
	delay = max(delay, 0)
	time.Sleep(delay + eps)
	vs.Quiesce()
	what := fmt.Sprintf("%d stores, batch %d, delay %v", len(stores), batch, delay)
	answered(w, 0, batch, what, ids...)
	cnt := 0
	for _, o := range w.records() {
		vs.Assert(o.at-at >= delay, "%s: answered %v after the request", what, o.at-at)
		cnt += len(o.recs)
	}
	vs.Assert(cnt == total, "%s: %d records sent, stores have %d", what, cnt, total)
	k := len(w.records())
	time.Sleep(time.Minute)
	vs.Assert(len(w.records()) == k, "%s: answered again without a request", what)
	n.push(src.Direct, item{m: flush(src.Direct)})
	time.Sleep(delay + eps)
	vs.Quiesce()
	answered(w, k, batch, what, ids...)
	w.stop()
}

// requests: which messages are answered, and how requests are combined.
func requests(length int) func() {
	return func() {
		n := newNet()
		s := store.NewDefaultCachingStore(store.CacheConfig{})
		fill(s, "a", "b", "c")
		delay := []time.Duration{0, time.Second}[vs.Choose(2)]
		slow := []time.Duration{0, 300 * time.Millisecond}[vs.Choose(2)]
		n.onSend = func(addr string, k int, m *amqp.Message) fate {
			if addr == src.Address && slow > 0 {
				return fate{slow: slow}
			}
			return fate{}
		}
		reject := false
		n.onAccept = func(r *frcv, m *amqp.Message) error {
			if reject {
				return errors.New("cannot settle")
			}
			return nil
		}
		w := newMworld(n, eventsource.ManagerConfig{HeartbeatInterval: time.Hour, BeaconInterval: time.Hour, Stores: []store.Interface{s}, FlushBatchSize: 2, FlushDelay: delay})
		w.run()
		kinds := []string{"flush", "junk", "heartbeat", "record", "error", "beacon", "refused flush", "nosubject"}
		var names []string
		var asked []time.Duration
		for k := 0; k < length; k++ {
			kind := kinds[vs.Choose(len(kinds))]
			gap := []time.Duration{0, 400 * time.Millisecond, 5 * time.Second}[vs.Choose(3)]
			names = append(names, fmt.Sprint(kind, "+", gap))
			var it item
			reject = kind == "refused flush"
			switch kind {
			case "flush", "refused flush":
				it.m = flush(src.Direct)
				asked = append(asked, vs.Elapsed())
			case "junk":
				it.m = junk[2]()
			case "nosubject":
				it.m = junk[vs.Choose(2)]()
			case "heartbeat":
				it.m = heartbeat("s", 1)
			case "record":
				it.m = record("r")
			case "beacon":
				it.m = beacon("s", "x", 1)
			case "error":
				it.err = errors.New("receive failed")
			}
			n.push(src.Direct, it)
			time.Sleep(gap)
			vs.Quiesce()
			vs.Assert(!w.ret.IsSet(), "%v: stopped", names)
		}
		time.Sleep(10 * time.Second)
		checkAnswers(w, names, delay, slow, asked)
		for _, r := range n.rcvs {
			if r.addr == src.Direct {
				vs.Assert(len(r.q) == 0, "%v: messages no longer taken", names)
			}
		}
		w.stop()
	}
}

// checkAnswers: answers are groups of messages holding a, b and c; every
// request has one that begins no earlier than the delay after it, the requests
// within the delay share one.
func checkAnswers(w *mworld, what any, delay, slow time.Duration, asked []time.Duration) {
	recs := w.records()
	vs.Assert(len(recs)%2 == 0, "%v: %d messages are no whole number of answers", what, len(recs))
	var begin []time.Duration
	for i := 0; i+1 < len(recs); i += 2 {
		l := append(append([]string{}, recs[i].recs...), recs[i+1].recs...)
		sort.Strings(l)
		vs.Assert(len(recs[i].recs) <= 2 && strings.Join(l, ",") == strings.Join([]string{wantRec("a"), wantRec("b"), wantRec("c")}, ","), "%v: answer %v", what, l)
		begin = append(begin, recs[i].at)
	}
	vs.Assert(len(begin) <= len(asked), "%v: %d answers to %d requests", what, len(begin), len(asked))
	// each answer is that of the earliest request not yet answered
	i := 0
	for _, b := range begin {
		vs.Assert(i < len(asked), "%v: an answer at %v nobody asked for (requests at %v)", what, b, asked)
		vs.Assert(b-asked[i] >= delay, "%v: answered at %v the request of %v", what, b, asked[i])
		// what came in during the delay is answered with it; coinciding with its
		// end either way is right
		first := asked[i]
		i++
		if delay == 0 {
			continue
		}
		for i < len(asked) && asked[i] < b && asked[i]-first < delay-eps {
			i++
		}
	}
	for ; i < len(asked); i++ {
		// requests while an answer was being put together may share the next one
		n := 0
		for _, b := range begin {
			if b >= asked[i] && b-asked[i] >= delay {
				n++
			}
		}
		vs.Assert(n > 0, "%v: the request of %v got no answer (answers at %v, delay %v)", what, asked[i], begin, delay)
	}
}

// deleting: the store changes while it is being flushed.
func deleting(batch int) func() {
	return func() {
		n := newNet()
		s := store.NewDefaultCachingStore(store.CacheConfig{})
		fill(s, "a", "b", "c", "d")
		other := store.NewDefaultCachingStore(store.CacheConfig{})
		fill(other, "o")
		slow := vs.Choose(2) == 1
		if slow {
			n.onSend = func(addr string, k int, m *amqp.Message) fate {
				if addr == src.Address {
					return fate{slow: 100 * time.Millisecond}
				}
				return fate{}
			}
		}
		w := newMworld(n, eventsource.ManagerConfig{HeartbeatInterval: time.Hour, BeaconInterval: time.Hour, Stores: []store.Interface{s, other}, FlushBatchSize: batch})
		w.run()
		n.push(src.Direct, item{m: flush(src.Direct)})
		stay := "abcdo"
		switch vs.Choose(5) {
		case 0:
			s.Delete(bg, store.Entry{Record: site("a", "-", "-")})
			stay = "bcdo"
		case 1:
			s.Delete(bg, store.Entry{Record: site("b", "-", "-")})
			s.Delete(bg, store.Entry{Record: site("c", "-", "-")})
			stay = "ado"
		case 2:
			fill(s, "0", "1")
		case 3:
			fill(s, "0")
			s.Delete(bg, store.Entry{Record: site("a", "-", "-")})
			stay = "bcdo"
		case 4:
			s.Replace(bg, []store.Entry{{Record: site("c", "n-c", "-")}, {Record: site("d", "n-d", "-")}})
			stay = "cdo"
		}
		time.Sleep(5 * time.Second)
		answered(w, 0, batch, "concurrent changes", strings.Split(stay, "")...)
		w.stop()
	}
}

// unservable: stores and records that cannot be served.
func unservable() {
	n := newNet()
	mem := func(ids ...string) store.Interface {
		s := store.NewDefaultCachingStore(store.CacheConfig{})
		fill(s, ids...)
		return s
	}
	bad := &lister{Interface: mem("bad"), fails: []int{1, 2, -1}[vs.Choose(3)]}
	a, b := mem("a1", "a2"), mem("b1")
	pos := vs.Choose(3)
	stores := []store.Interface{a, b}
	stores = append(stores[:pos:pos], append([]store.Interface{bad}, stores[pos:]...)...)
	batch := vs.Choose(3)
	odd := vs.Choose(4)
	switch odd {
	case 1: // a record that cannot be encoded
		r := site("a15", "-", "-")
		r.StartTime = &vanflow.Time{Time: time.UnixMicro(-5)}
		a.Add(bg, store.Entry{Record: r})
	case 2:
		a.Add(bg, store.Entry{Record: alien{"a15"}})
	case 3: // at both ends
		a.Add(bg, store.Entry{Record: alien{"a0"}})
		a.Add(bg, store.Entry{Record: alien{"a3"}})
	}
	w := newMworld(n, eventsource.ManagerConfig{HeartbeatInterval: time.Hour, BeaconInterval: time.Hour, Stores: stores, FlushBatchSize: batch})
	w.run()
	n.push(src.Direct, item{m: flush(src.Direct)})
	time.Sleep(time.Second)
	answered(w, 0, batch, fmt.Sprintf("store %d failing, odd record %d", pos, odd), "a1", "a2", "b1")
	k := len(w.records())
	n.push(src.Direct, item{m: flush(src.Direct)})
	time.Sleep(time.Second)
	answered(w, k, batch, fmt.Sprintf("second answer, store %d failing, odd record %d", pos, odd), "a1", "a2", "b1")
	n.push(src.Direct, item{m: flush(src.Direct)})
	time.Sleep(time.Second)
	if bad.fails == 0 {
		answered(w, k, batch, "recovered store", "bad")
	}
	w.stop()
}

// burst: more requests than any queue holds, while answering slowly.
func burst() {
	n := newNet()
	s := store.NewDefaultCachingStore(store.CacheConfig{})
	fill(s, "a", "b", "c")
	late := vs.Choose(2) == 1
	delay := []time.Duration{0, time.Second}[vs.Choose(2)]
	n.onSend = func(addr string, k int, m *amqp.Message) fate {
		if addr == src.Address {
			return fate{slow: 200 * time.Millisecond}
		}
		return fate{}
	}
	w := newMworld(n, eventsource.ManagerConfig{HeartbeatInterval: time.Hour, BeaconInterval: time.Hour, Stores: []store.Interface{s}, FlushBatchSize: 1, FlushDelay: delay})
	w.run()
	first := vs.Elapsed()
	for i := 0; i < 40; i++ {
		n.push(src.Direct, item{m: flush(src.Direct)})
	}
	if late {
		time.Sleep(delay + 300*time.Millisecond)
		fill(s, "late")
	}
	// the last request comes when everything is in the stores
	at := len(w.records())
	n.push(src.Direct, item{m: flush(src.Direct)})
	time.Sleep(5 * time.Minute)
	ids := []string{"a", "b", "c"}
	if late {
		ids = append(ids, "late")
	}
	answered(w, at, 1, "after a burst of requests", ids...)
	if l := w.records(); l[0].at-first < delay {
		vs.Fail("assert", "a burst of requests is answered after %v, delay %v", l[0].at-first, delay)
	}
	w.stop()
}

// shrinking is a store that loses records right after having been listed.
type shrinking struct {
	store.Interface
	drop map[int][]string // by number of the listing
	n    int
}

func (l *shrinking) List(ctx context.Context, s *store.Selector) (store.Set, error) {
	set, err := l.Interface.List(ctx, s)
	for _, id := range l.drop[l.n] {
		l.Interface.Delete(ctx, store.Entry{Record: site(id, "-", "-")})
	}
	l.n++
	return set, err
}

// listings: deletions at any point between the listings of an answer.
func listings(batch int) func() {
	return func() {
		n := newNet()
		s := store.NewDefaultCachingStore(store.CacheConfig{})
		all := "abcdef"
		fill(s, strings.Split(all, "")...)
		sh := &shrinking{Interface: s, drop: map[int][]string{}}
		stay := all
		for i, k := 0, vs.Choose(3); i < k; i++ {
			id := string(all[vs.Choose(4)])
			at := vs.Choose(3)
			sh.drop[at] = append(sh.drop[at], id)
			stay = strings.ReplaceAll(stay, id, "")
		}
		w := newMworld(n, eventsource.ManagerConfig{HeartbeatInterval: time.Hour, BeaconInterval: time.Hour, Stores: []store.Interface{sh}, FlushBatchSize: batch})
		w.run()
		n.push(src.Direct, item{m: flush(src.Direct)})
		time.Sleep(5 * time.Second)
		answered(w, 0, batch, fmt.Sprintf("deletions %v", sh.drop), strings.Split(stay, "")...)
		w.stop()
	}
}

// paging is a store that hands out pages of its own size, whatever it is asked
// for, and may fail to list one of them.
type paging struct {
	store.Interface
	ids   []string
	size  int
	fail  int // this page fails, -1 for none
	pages int
	max   int // pages that may be asked for, 50 when 0
}

func (p *paging) List(ctx context.Context, s *store.Selector) (set store.Set, err error) {
	at := 0
	if s != nil && s.Continue != "" {
		if _, err := fmt.Sscanf(s.Continue, "page%d", &at); err != nil {
			return set, err
		}
	}
	p.pages++
	vs.Assert(p.pages < max(50, p.max), "listed %d pages of a store of %d records", p.pages, len(p.ids))
	if at == p.fail {
		return set, errors.New("page unavailable")
	}
	for i := at * p.size; i < len(p.ids) && i < (at+1)*p.size; i++ {
		set.Entries = append(set.Entries, store.Entry{Record: site(p.ids[i], "n-"+p.ids[i], "-")})
	}
	if (at+1)*p.size < len(p.ids) {
		set.Continue = fmt.Sprint("page", at+1)
	}
	return set, nil
}

// pages: stores that decide about the size of their pages themselves.
func pages() {
	n := newNet()
	p := &paging{size: 1 + vs.Choose(3), fail: vs.Choose(4) - 1}
	for i, k := 0, vs.Choose(6); i < k; i++ {
		p.ids = append(p.ids, fmt.Sprint("p", i))
	}
	a, b := store.NewDefaultCachingStore(store.CacheConfig{}), store.NewDefaultCachingStore(store.CacheConfig{})
	fill(a, "a1", "a2", "a3")
	fill(b, "b1")
	batch := []int{0, 1, 2, 5}[vs.Choose(4)]
	w := newMworld(n, eventsource.ManagerConfig{HeartbeatInterval: time.Hour, BeaconInterval: time.Hour, Stores: []store.Interface{a, p, b}, FlushBatchSize: batch})
	w.run()
	for i := 0; i < 3; i++ {
		if i == 2 {
			p.fail = -1
		}
		p.pages = 0
		k := len(w.records())
		n.push(src.Direct, item{m: flush(src.Direct)})
		time.Sleep(time.Second)
		ids := []string{"a1", "a2", "a3", "b1"}
		if p.fail < 0 || p.fail*p.size >= len(p.ids) && p.fail > 0 {
			ids = append(ids, p.ids...)
		}
		answered(w, k, batch, fmt.Sprintf("answer %d with %d records in pages of %d, page %d failing, batch %d", i, len(p.ids), p.size, p.fail, batch), ids...)
	}
	w.stop()
}

// twins: records of different types that share an identity are all sent.
func twins() {
	n := newNet()
	mk := func() store.Interface { return store.NewDefaultCachingStore(store.CacheConfig{}) }
	stores := []store.Interface{&listing{Interface: mk(), recs: []vanflow.Record{
		site("a", "n", "1"), &vanflow.RouterRecord{BaseRecord: vanflow.NewBase("a")}, gadget{1, "a", nil, nil},
		&vanflow.RouterRecord{BaseRecord: vanflow.NewBase("b")}, site("b", "n", "-")}}}
	// the same record held by two stores may be sent once or twice
	other := &listing{Interface: mk(), recs: []vanflow.Record{gadget{2, "b", nil, nil}, site("c", "n", "-")}}
	switch vs.Choose(3) {
	case 1:
		stores = append(stores, other)
	case 2:
		stores = append([]store.Interface{mk(), other}, stores...)
	}
	batch := []int{0, 1, 2, 5}[vs.Choose(4)]
	w := newMworld(n, eventsource.ManagerConfig{HeartbeatInterval: time.Hour, BeaconInterval: time.Hour, Stores: stores, FlushBatchSize: batch})
	w.run()
	n.push(src.Direct, item{m: flush(src.Direct)})
	time.Sleep(time.Second)
	got := map[string]int{}
	for _, o := range w.records() {
		vs.Assert(batch == 0 || len(o.recs) <= batch, "message of %d records, batch size %d", len(o.recs), batch)
		for _, r := range o.recs {
			got[strings.Replace(r, "*", "", 1)]++
		}
	}
	for _, st := range stores {
		if l, ok := st.(*listing); ok {
			for _, r := range l.recs {
				vs.Assert(got[strings.Replace(attrs(r), "*", "", 1)] > 0, "%d stores, batch %d: the record %s is missing from the answer %v", len(stores), batch, attrs(r), got)
			}
		}
	}
	w.stop()
}

// listing is a store with the given records.
type listing struct {
	store.Interface
	recs []vanflow.Record
}

func (l *listing) List(ctx context.Context, s *store.Selector) (set store.Set, err error) {
	for _, r := range l.recs {
		set.Entries = append(set.Entries, store.Entry{Record: r})
	}
	return set, nil
}

// flushMany: a large store.
func flushMany(batch int) func() {
	return func() {
		vs.AllowTicks(100000)
		n := newNet()
		s := store.NewDefaultCachingStore(store.CacheConfig{})
		var ids []string
		for i := 0; i < 1100; i++ {
			ids = append(ids, fmt.Sprint("m", i))
		}
		fill(s, ids...)
		small := store.NewDefaultCachingStore(store.CacheConfig{})
		fill(small, "x")
		w := newMworld(n, eventsource.ManagerConfig{HeartbeatInterval: time.Hour, BeaconInterval: time.Hour, Stores: []store.Interface{s, small}, FlushBatchSize: batch})
		w.run()
		n.push(src.Direct, item{m: flush(src.Direct)})
		time.Sleep(time.Second)
		answered(w, 0, batch, fmt.Sprint("large store, batch ", batch), append(ids, "x")...)
		w.stop()
	}
}

// heldUp: a record message that takes long to be sent is neither given up nor
// overtaken.
func heldUp() {
	n := newNet()
	slow := []time.Duration{3 * time.Second, 61 * time.Second, 20 * time.Minute}[vs.Choose(3)]
	which := vs.Choose(2)
	sends := 0
	n.onSend = func(addr string, k int, m *amqp.Message) fate {
		if addr == src.Address && subject(m) == "RECORD" {
			sends++
			if sends-1 == which {
				return fate{slow: slow}
			}
		}
		return fate{}
	}
	cfg := []bufCfg{{}, {size: 2, buf: time.Second}}[vs.Choose(2)]
	s := store.NewDefaultCachingStore(store.CacheConfig{})
	fill(s, "s1", "s2")
	w := newMworld(n, eventsource.ManagerConfig{HeartbeatInterval: time.Hour, BeaconInterval: time.Hour, UpdateBufferTime: cfg.buf, UpdateBatchSize: cfg.size, Stores: []store.Interface{s}, FlushBatchSize: 1})
	w.run()
	var want []string
	if vs.Choose(2) == 1 {
		n.push(src.Direct, item{m: flush(src.Direct)})
		vs.Quiesce()
		want = append(want, wantRec("s1"), wantRec("s2"))
	}
	for i := 0; i < 4; i++ {
		id := fmt.Sprint("u", i)
		w.m.PublishUpdate(eventsource.RecordUpdate{Curr: site(id, "-", "-")})
		want = append(want, id)
		if i == 1 {
			time.Sleep(2 * time.Second)
		}
	}
	time.Sleep(slow + time.Minute)
	var got []string
	for _, o := range w.records() {
		vs.Assert(o.done && o.err == nil, "a message of %v that takes %v to be sent was given up after %v: %v", o.recs, slow, o.end-o.at, o.err)
		got = append(got, o.recs...)
	}
	if len(want) > 4 { // the records of the store in any order
		sort.Strings(got[:min(2, len(got))])
	}
	vs.Assert(strings.Join(got, ", ") == strings.Join(want, ", "), "sent %v, want %v", got, want)
	w.stop()
}

// E10

type aliveCfg struct {
	beacon, heart time.Duration
	alt           bool
}

func (a aliveCfg) intervals() (b, h, min time.Duration) {
	b, h = a.beacon, a.heart
	if b <= 0 {
		b = 10 * time.Second
	}
	if h <= 0 {
		h = 2 * time.Second
	}
	min = h
	if b < h {
		min = b
	}
	return
}

func (a aliveCfg) addr() string {
	if a.alt {
		return src.Address + ".heartbeats"
	}
	return src.Address
}

// keepalives runs an event source whose beacons and heartbeats meet the given
// fates.
func keepalives(cfg aliveCfg, kinds ...string) func() {
	return func() {
		n := newNet()
		b, h, min := cfg.intervals()
		fates := map[string]func(k int) fate{
			"ok":      func(int) fate { return fate{} },
			"blocked": func(int) fate { return fate{block: true} },
			"error":   func(int) fate { return fate{err: errors.New("send failed")} },
			"slow":    func(int) fate { return fate{slow: min * 3 / 4} },
			"tooslow": func(int) fate { return fate{slow: min * 5 / 4} },
			"late":    func(k int) fate { return fate{block: k < 5} },
			"lapse":   func(k int) fate { return fate{block: k >= 2 && k < 5} },
			"errfirst": func(k int) fate {
				if k == 0 {
					return fate{err: errors.New("send failed")}
				}
				return fate{}
			},
		}
		kb, kh := kinds[vs.Choose(len(kinds))], kinds[vs.Choose(len(kinds))]
		n.onSend = func(addr string, k int, m *amqp.Message) fate {
			if addr == beaconAddr {
				return fates[kb](k)
			}
			return fates[kh](k)
		}
		w := newMworld(n, eventsource.ManagerConfig{HeartbeatInterval: cfg.heart, BeaconInterval: cfg.beacon, UseAlternateHeartbeatAddress: cfg.alt})
		start := vs.Elapsed()
		startNow := vs.Now()
		w.run()
		horizon := 6 * b
		if 12*h > horizon {
			horizon = 12 * h
		}
		time.Sleep(horizon)
		vs.Assert(!w.ret.IsSet(), "stopped by itself")
		n.o.TouchR()
		what := fmt.Sprintf("beacons %s every %v, heartbeats %s every %v", kb, b, kh, h)
		for _, e := range n.sent {
			switch e.addr {
			case beaconAddr:
				d, err := vanflow.Decode(e.msg)
				m, ok := d.(vanflow.BeaconMessage)
				vs.Assert(err == nil && ok && m.Identity == src.ID && int(m.Version) == src.Version && m.SourceType == src.Type && m.Address == src.Address && m.Direct == src.Direct && m.To == beaconAddr, "beacon sent: %+v", d)
			case cfg.addr():
				d, err := vanflow.Decode(e.msg)
				m, ok := d.(vanflow.HeartbeatMessage)
				vs.Assert(err == nil && ok && m.Identity == src.ID && int(m.Version) == src.Version, "heartbeat sent: %+v", d)
				now := startNow.Add(e.at - start).UnixMicro()
				vs.Assert(int64(m.Now) <= now+1 && int64(m.Now) >= now-1000, "heartbeat of %v carries time %v", now, m.Now)
			default:
				vs.Fail("assert", "sent %s to %s", subject(e.msg), e.addr)
			}
			if e.done {
				vs.Assert(e.end-e.at <= min+eps, "%s: a send to %s was given up only after %v", what, e.addr, e.end-e.at)
			} else {
				vs.Assert(vs.Elapsed()-e.at <= min+eps, "%s: a send to %s is still going after %v", what, e.addr, vs.Elapsed()-e.at)
			}
		}
		check := func(name string, l []*fsent, every, first time.Duration) {
			prev := start
			lim := first + eps
			for _, e := range l {
				vs.Assert(e.at-prev <= lim, "%s: %s: nothing sent from %v to %v", what, name, prev-start, e.at-start)
				prev, lim = e.at, every+eps
			}
			vs.Assert(vs.Elapsed()-prev <= lim, "%s: %s: nothing sent from %v on", what, name, prev-start)
			for i, e := range l {
				vs.Assert(i <= int((e.at-start+eps)/every), "%s: %d %s in %v", what, i+1, name, e.at-start)
			}
			vs.Assert(len(l) <= int(horizon/every)+1, "%s: %d %s in %v", what, len(l), name, horizon)
		}
		n.o.TouchR()
		check("beacons", n.attempts(beaconAddr), b, 0)
		check("heartbeats", n.attempts(cfg.addr()), h, h)
		if kb == "ok" {
			vs.Assert(n.attempts(beaconAddr)[0].at-start <= eps, "%s: first beacon after %v", what, n.attempts(beaconAddr)[0].at-start)
		}
		if kb == "ok" && kh == "ok" {
			for i, e := range n.attempts(beaconAddr) {
				dt := e.at - start - time.Duration(i)*b
				vs.Assert(dt >= -eps && dt <= eps, "%s: beacon %d after %v", what, i, e.at-start)
			}
			for i, e := range n.attempts(cfg.addr()) {
				dt := e.at - start - time.Duration(i+1)*h
				vs.Assert(dt >= -eps && dt <= eps, "%s: heartbeat %d after %v", what, i, e.at-start)
			}
		}
		w.stop()
	}
}

// E11

// cancelAnytime cancels an event source in every kind of situation.
func cancelAnytime(kind string) func() {
	return func() {
		n := newNet()
		s := store.NewDefaultCachingStore(store.CacheConfig{})
		fill(s, "a", "b", "c")
		st := &lister{Interface: s}
		cfg := eventsource.ManagerConfig{Stores: []store.Interface{st}, FlushBatchSize: 1, HeartbeatInterval: 2 * time.Second, BeaconInterval: 5 * time.Second}
		f := fate{}
		switch kind {
		case "blocked":
			f = fate{block: true}
		case "failing":
			f = fate{err: errors.New("send failed")}
		case "slowstore":
			st.slow = time.Second
		case "badstore":
			st.fails = -1
		case "batching":
			cfg.UpdateBatchSize, cfg.UpdateBufferTime = 10, 5*time.Second
		case "delay":
			cfg.FlushDelay = 5 * time.Second
		case "full": // more than all queues hold
			f = fate{block: true}
			for i := 0; i < 300; i++ {
				fill(s, fmt.Sprint("r", i))
			}
		}
		n.onSend = func(addr string, k int, m *amqp.Message) fate { return f }
		w := newMworld(n, cfg)
		ctx, cancel := context.WithCancel(bg)
		if kind == "deadline" {
			cancel()
			ctx, cancel = context.WithTimeout(bg, 2500*time.Millisecond)
		}
		w.cancel = cancel
		go func() { w.m.Run(ctx); w.ret.Set() }()
		pubs := 0
		done := make(chan struct{})
		switch vs.Choose(4) {
		case 0: // nothing going on
			close(done)
		case 1:
			w.n.open(src.Direct, 1)
			n.push(src.Direct, item{m: flush(src.Direct)})
			if kind == "full" {
				for i := 0; i < 20; i++ {
					n.push(src.Direct, item{m: flush(src.Direct)})
				}
			}
			close(done)
		case 2:
			pubs = 3
			go func() {
				for i := 0; i < pubs; i++ {
					w.m.PublishUpdate(eventsource.RecordUpdate{Curr: site(fmt.Sprint("r", i), "-", "-")})
				}
				close(done)
			}()
		case 3:
			w.n.open(src.Direct, 1)
			n.push(src.Direct, item{err: errors.New("receive failed")})
			n.push(src.Direct, item{err: context.Canceled})
			n.push(src.Direct, item{err: fmt.Errorf("receive: %w", context.DeadlineExceeded)})
			n.push(src.Direct, item{m: flush(src.Direct)})
			go func() {
				w.m.PublishUpdate(eventsource.RecordUpdate{Curr: site("r", "-", "-")})
				close(done)
			}()
		}
		switch vs.Choose(3) {
		case 1:
			vs.Quiesce()
		case 2:
			time.Sleep(2500 * time.Millisecond)
		}
		if kind == "deadline" {
			time.Sleep(2501*time.Millisecond - vs.Elapsed())
		} else {
			cancel()
		}
		promptly(&w.ret, "Run returned after it was cancelled")
		<-done
		vs.Quiesce()
		cancel()
		k := len(n.sent)
		if l := vs.Alive(); len(l) > 0 {
			vs.Fail("assert", "goroutines left after the event source stopped: %v", l)
		}
		if l := n.leaks(); l != "" {
			vs.Fail("assert", "left open after the event source stopped: %s", l)
		}
		time.Sleep(time.Minute)
		vs.Assert(len(n.sent) == k, "sent after it stopped")
	}
}

// publishAfter: publishers are not left waiting for an event source that has
// stopped or is stopping.
func publishAfter() {
	n := newNet()
	mode := vs.Choose(2)
	if mode == 1 {
		n.onSend = func(addr string, k int, m *amqp.Message) fate { return fate{block: true} }
	}
	w := newMworld(n, eventsource.ManagerConfig{})
	w.run()
	done := make(chan struct{})
	go func() {
		for i := 0; i < 1200; i++ {
			w.m.PublishUpdate(eventsource.RecordUpdate{Curr: site("r", "-", "-")})
		}
		close(done)
	}()
	if vs.Choose(2) == 1 {
		vs.Quiesce()
	}
	w.cancel()
	promptly(&w.ret, "Run returned after it was cancelled")
	<-done
	after := 3
	if mode == 1 {
		after = 300
	}
	for i := 0; i < after; i++ {
		w.m.PublishUpdate(eventsource.RecordUpdate{Curr: site("r", "-", "-")})
	}
	w.stop()
}

// publishRace: several publishers fill the queue of an event source that stops
// right away.
func publishRace() {
	n := newNet()
	w := newMworld(n, eventsource.ManagerConfig{})
	ctx, cancel := context.WithCancel(bg)
	cancel()
	w.cancel = cancel
	var done [2]vs.Event
	for i := range done {
		d := &done[i]
		go func() {
			for i := 0; i < 300; i++ {
				w.m.PublishUpdate(eventsource.RecordUpdate{Curr: site("r", "-", "-")})
			}
			d.Set()
		}()
	}
	if vs.Choose(2) == 1 {
		vs.Quiesce()
	}
	go func() { w.m.Run(ctx); w.ret.Set() }()
	w.stop()
	vs.Assert(done[0].IsSet() && done[1].IsSet(), "publishers left waiting after the event source stopped: %v %v", done[0].IsSet(), done[1].IsSet())
}

// storm: whatever goes wrong, it neither stops nor spins.
func storm() {
	n := newNet()
	w := newMworld(n, eventsource.ManagerConfig{HeartbeatInterval: time.Second, BeaconInterval: 2 * time.Second, Stores: []store.Interface{&lister{fails: -1}}})
	bad := vs.Choose(2) == 0
	n.onSend = func(addr string, k int, m *amqp.Message) fate {
		if bad {
			return fate{err: errors.New("send failed")}
		}
		return fate{block: true}
	}
	w.run()
	for i := 0; i < 10; i++ {
		n.push(src.Direct, item{err: []error{errors.New("receive failed"), context.Canceled, context.DeadlineExceeded}[i%3]})
		n.push(src.Direct, item{m: junk[i%len(junk)]()})
		n.push(src.Direct, item{m: flush(src.Direct)})
		w.m.PublishUpdate(eventsource.RecordUpdate{})
		w.m.PublishUpdate(eventsource.RecordUpdate{Curr: alien{"x"}})
		if i%3 == 0 {
			time.Sleep(time.Second)
		}
	}
	k := len(n.attempts(beaconAddr))
	time.Sleep(10 * time.Second)
	vs.Assert(!w.ret.IsSet(), "stopped by itself")
	vs.Assert(len(n.attempts(beaconAddr)) > k, "no more beacons")
	w.stop()
}

// healed: sends fail for long, then succeed again.
func healed() {
	n := newNet()
	fails := []int{3, 12}[vs.Choose(2)]
	a := store.NewDefaultCachingStore(store.CacheConfig{})
	fill(a, "a")
	good := map[string]bool{}
	n.onSend = func(addr string, k int, m *amqp.Message) fate {
		if k < fails {
			return fate{err: []error{errors.New("send failed"), context.DeadlineExceeded, context.Canceled}[k%3]}
		}
		good[addr] = true
		return fate{}
	}
	w := newMworld(n, eventsource.ManagerConfig{HeartbeatInterval: time.Second, BeaconInterval: time.Second, UseAlternateHeartbeatAddress: true, Stores: []store.Interface{a}})
	w.run()
	for i := 0; i < fails; i++ {
		w.m.PublishUpdate(eventsource.RecordUpdate{Curr: site(fmt.Sprint("s", i), "-", "-")})
	}
	for i := 0; i < 20; i++ {
		n.push(src.Direct, item{err: errors.New("receive failed")})
	}
	time.Sleep(time.Duration(fails+3) * time.Second)
	vs.Assert(!w.ret.IsSet(), "stopped by itself")
	vs.Assert(good[beaconAddr] && good[src.Address+".heartbeats"], "no beacons or heartbeats any more after failed sends: %v", good)
	j := len(n.attempts(src.Address))
	vs.Assert(j == fails, "%d sends of %d updates", j, fails)
	for i := 0; i < 3; i++ {
		w.m.PublishUpdate(eventsource.RecordUpdate{Curr: site(fmt.Sprint("h", i), "-", "-")})
	}
	vs.Quiesce()
	n.push(src.Direct, item{m: flush(src.Direct)})
	time.Sleep(time.Second)
	vs.Quiesce()
	n.o.Touch()
	var got []string
	for _, e := range n.attempts(src.Address)[j:] {
		if subject(e.msg) == "RECORD" {
			d, _ := vanflow.Decode(e.msg)
			for _, r := range d.(vanflow.RecordMessage).Records {
				got = append(got, r.Identity())
			}
		}
	}
	vs.Assert(strings.Join(got, " ") == "h0 h1 h2 a", "sent %v once sends succeed again, want h0 h1 h2 a", got)
	w.stop()
}

// dueBatch: updates that are published as the buffering time of a batch ends
// are in that batch or in the next.
func dueBatch() {
	n := newNet()
	buf := time.Second
	size := 2 + vs.Choose(3)
	w := newMworld(n, eventsource.ManagerConfig{HeartbeatInterval: 20 * time.Second, BeaconInterval: 30 * time.Second, UpdateBufferTime: buf, UpdateBatchSize: size})
	w.run()
	var want []string
	pub := func(id string) {
		w.m.PublishUpdate(eventsource.RecordUpdate{Curr: site(id, "-", "-")})
		want = append(want, id)
	}
	pub("a")
	vs.Quiesce()
	for _, id := range []string{"b", "c", "d"} {
		pub(id)
	}
	for i := 0; i < 4; i++ { // timers may be early
		time.Sleep(10 * time.Second)
		vs.Quiesce()
	}
	checkRecords(w, size, want, size)
	w.cancel()
	w.ret.Wait()
}

// hooked is a store that tells when it is listed.
type hooked struct {
	store.Interface
	hook func()
}

func (h *hooked) List(ctx context.Context, s *store.Selector) (store.Set, error) {
	h.hook()
	return h.Interface.List(ctx, s)
}

// another request arrives while one of several stores is being listed.
func another() {
	n := newNet()
	at := vs.Choose(3)
	k, listed := -1, 0
	var stores []store.Interface
	var ids []string
	for i := 0; i < 3; i++ {
		s := store.NewDefaultCachingStore(store.CacheConfig{})
		l := []string{fmt.Sprintf("r%d-0", i), fmt.Sprintf("r%d-1", i)}
		fill(s, l...)
		ids = append(ids, l...)
		stores = append(stores, &hooked{s, func() {
			if listed++; listed == at+1 {
				time.Sleep(10 * time.Millisecond)
				n.push(src.Direct, item{m: flush(src.Direct)})
				time.Sleep(10 * time.Millisecond)
			}
		}})
	}
	delay := []time.Duration{0, time.Second}[vs.Choose(2)]
	batch := vs.Choose(3)
	n.onSend = func(addr string, j int, m *amqp.Message) fate {
		if addr == src.Address && subject(m) == "RECORD" && listed <= at+1 {
			k = j // sent before or with the listing during which the request came
		}
		return fate{}
	}
	w := newMworld(n, eventsource.ManagerConfig{HeartbeatInterval: time.Hour, BeaconInterval: time.Hour, Stores: stores, FlushBatchSize: batch, FlushDelay: delay})
	w.run()
	n.push(src.Direct, item{m: flush(src.Direct)})
	time.Sleep(10 * time.Second)
	vs.Quiesce()
	what := fmt.Sprintf("request during the listing of store %d, delay %v, batch %d", at, delay, batch)
	answered(w, 0, batch, what, ids...)
	answered(w, k+1, batch, what+": answer of its own", ids[:2*at]...)
	got := map[string]int{}
	for _, o := range w.records() {
		for _, r := range o.recs {
			got[r]++
		}
	}
	for _, id := range ids[2*(at+1):] {
		vs.Assert(got[wantRec(id)] > 0, "%s: %s is missing", what, id)
	}
	w.stop()
}

// manyPages: a store that is listed in many pages.
func manyPages() {
	vs.AllowTicks(100000)
	n := newNet()
	p := &paging{size: []int{7, 1, 100}[vs.Choose(3)], fail: -1, max: 1300}
	for i := 0; i < 1200; i++ {
		p.ids = append(p.ids, fmt.Sprint("p", i))
	}
	w := newMworld(n, eventsource.ManagerConfig{HeartbeatInterval: time.Hour, BeaconInterval: time.Hour, Stores: []store.Interface{p}, FlushBatchSize: 10})
	w.run()
	n.push(src.Direct, item{m: flush(src.Direct)})
	time.Sleep(time.Second)
	answered(w, 0, 10, fmt.Sprint("pages of ", p.size), p.ids...)
	w.stop()
}
