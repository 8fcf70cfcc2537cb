package main

import (
	"context"
	"errors"
	"fmt"
	"sort"
	"strings"
	"time"

	"github.com/c-kruse/vanflow"
	"github.com/c-kruse/vanflow/eventsource"
	"github.com/c-kruse/vanflow/session"
	"github.com/c-kruse/vanflow/store"

	"vmc/vs"
)

// source is an event source with its stores.
type source struct {
	info   eventsource.Info
	stor   store.Interface
	m      *eventsource.Manager
	cur    map[string]vanflow.SiteRecord
	cancel context.CancelFunc
	ret    *vs.Event
}

func newSource(id string) *source {
	return &source{
		info: eventsource.Info{ID: id, Version: 1, Type: "CONTROLLER", Address: "mc/sfe." + id, Direct: "sfe." + id},
		stor: store.NewDefaultCachingStore(store.CacheConfig{}),
		cur:  map[string]vanflow.SiteRecord{},
	}
}

// set changes the stored record, and publishes the change when running.
func (s *source) set(r vanflow.SiteRecord) {
	id := r.ID
	prev, ok := s.cur[id]
	s.cur[id] = r
	s.stor.Update(bg, store.Entry{Record: r})
	if s.m != nil {
		u := eventsource.RecordUpdate{Curr: r}
		if ok {
			u.Prev = prev
		}
		s.m.PublishUpdate(u)
	}
}

func (s *source) start(c session.Container, cfg eventsource.ManagerConfig) {
	cfg.Source, cfg.Stores = s.info, []store.Interface{s.stor}
	ctx, cancel := context.WithCancel(bg)
	c.Start(ctx)
	s.m = eventsource.NewManager(c, cfg)
	s.cancel = cancel
	ret := &vs.Event{}
	s.ret = ret
	m := s.m
	go func() { m.Run(ctx); ret.Set() }()
}

func (s *source) stop() {
	s.cancel()
	s.ret.Wait()
	s.m = nil
}

func (s *source) want() string {
	var l []string
	for _, r := range s.cur {
		l = append(l, s.info.ID+": "+attrs(r))
	}
	sort.Strings(l)
	return strings.Join(l, "; ")
}

// collector gathers the records of all sources the way the documentation and
// the collecting tool do.
type collector struct {
	stor   store.Interface
	d      *eventsource.Discovery
	cancel context.CancelFunc
	ret    vs.Event
	o      vs.Obj
	events map[string]string
}

func startCollector(factory func() session.Container, timeout time.Duration) *collector {
	w := &collector{stor: store.NewDefaultCachingStore(store.CacheConfig{}), events: map[string]string{}}
	reg := &store.DispatchRegistry{}
	reg.RegisterStore(vanflow.SiteRecord{}, w.stor)
	ctx, cancel := context.WithCancel(bg)
	w.cancel = cancel
	c := factory()
	c.Start(ctx)
	w.d = eventsource.NewDiscovery(c, eventsource.DiscoveryOptions{})
	go func() {
		w.d.Run(ctx, eventsource.DiscoveryHandlers{
			Discovered: func(i eventsource.Info) {
				w.o.Write("discovered")
				w.events[i.ID] += "D"
				client := eventsource.NewClient(c, eventsource.ClientOptions{Source: i})
				if err := w.d.NewWatchClient(ctx, eventsource.WatchConfig{Client: client, ID: i.ID, Timeout: timeout}); err != nil {
					vs.Fail("assert", "cannot watch a discovered source: %v", err)
				}
				dispatcher := reg.NewDispatcher(store.SourceRef{APIVersion: fmt.Sprint(i.Version), Type: i.Type, Name: i.ID})
				client.OnRecord(dispatcher.Dispatch)
				client.Listen(ctx, eventsource.FromSourceAddress())
				go func() {
					flushCtx, cancel := context.WithTimeout(ctx, 5*time.Second)
					defer cancel()
					err := eventsource.FlushOnFirstMessage(flushCtx, client)
					if err != nil && errors.Is(err, flushCtx.Err()) {
						client.SendFlush(ctx)
					}
				}()
			},
			Forgotten: func(i eventsource.Info) {
				w.o.Write("forgotten")
				w.events[i.ID] += "F"
			},
		})
		w.ret.Set()
	}()
	return w
}

func (w *collector) have(name string) string {
	l, err := w.stor.List(bg, nil)
	vs.Assert(err == nil, "cannot list: %v", err)
	var out []string
	for _, e := range l.Entries {
		if name == "" || e.Meta.Source.Name == name {
			out = append(out, e.Meta.Source.Name+": "+attrs(e.Record))
		}
	}
	sort.Strings(out)
	return strings.Join(out, "; ")
}

func containers(kind string) func() session.Container {
	if kind == "mock" {
		r := session.NewMockRouter()
		return func() session.Container { return session.NewMockContainer(r) }
	}
	f := session.NewContainerFactory("amqp://broker", session.ContainerConfig{})
	return f.Create
}

// converge: two sources and a collector in every start-up order, with updates
// all along.
func converge(kind string) func() {
	return func() {
		mk := containers(kind)
		cfg := eventsource.ManagerConfig{HeartbeatInterval: time.Second, BeaconInterval: 3 * time.Second}
		switch vs.Choose(3) {
		case 1:
			cfg.FlushDelay, cfg.FlushBatchSize = 500*time.Millisecond, 1
		case 2:
			cfg.UpdateBatchSize, cfg.UpdateBufferTime = 3, 700*time.Millisecond
		}
		a, b := newSource("a"), newSource("b")
		a.set(site("a1", "n", "0"))
		a.set(site("a2", "n", "-"))
		b.set(site("b1", "n", "0"))
		var w *collector
		order := []string{"cab", "acb", "abc"}[vs.Choose(3)]
		gap := []time.Duration{0, 1500 * time.Millisecond}[vs.Choose(2)]
		for _, x := range order {
			switch x {
			case 'a':
				a.start(mk(), cfg)
				a.set(site("a1", "n", "1"))
			case 'b':
				b.start(mk(), cfg)
			case 'c':
				w = startCollector(mk, 10*time.Second)
			}
			time.Sleep(gap)
		}
		done := make(chan struct{})
		go func() {
			for i := 2; i < 5; i++ {
				a.set(site("a1", "", fmt.Sprint(i)))
				b.set(site("b2", "x", fmt.Sprint(i)))
				time.Sleep(600 * time.Millisecond)
			}
			a.set(site("a3", "late", "-"))
			close(done)
		}()
		<-done
		time.Sleep(25 * time.Second)
		vs.Quiesce()
		what := fmt.Sprintf("%s order %s gap %v", kind, order, gap)
		vs.Assert(w.have("a") == a.want(), "%s: collected [%s], source has [%s]", what, w.have("a"), a.want())
		vs.Assert(w.have("b") == b.want(), "%s: collected [%s], source has [%s]", what, w.have("b"), b.want())
		vs.Assert(len(w.d.List()) == 2 && w.events["a"] == "D" && w.events["b"] == "D", "%s: notifications %v", what, w.events)
		a.stop()
		b.stop()
		w.cancel()
		w.ret.Wait()
		time.Sleep(time.Minute)
		if l := vs.Alive(); len(l) > 0 {
			vs.Fail("assert", "%s: goroutines left when all has stopped: %v", what, l)
		}
	}
}

// comeback: a source stops, is forgotten, and comes back changed.
func comeback(kind string) func() {
	return func() {
		mk := containers(kind)
		cfg := eventsource.ManagerConfig{HeartbeatInterval: time.Second, BeaconInterval: 2 * time.Second}
		a, b := newSource("a"), newSource("b")
		a.set(site("a1", "n", "0"))
		b.set(site("b1", "n", "0"))
		w := startCollector(mk, 5*time.Second)
		a.start(mk(), cfg)
		b.start(mk(), cfg)
		time.Sleep([]time.Duration{6 * time.Second, 500 * time.Millisecond}[vs.Choose(2)])
		a.stop()
		a.set(site("a1", "n", "1"))
		a.set(site("a2", "new", "-"))
		b.set(site("b1", "", "3"))
		away := []time.Duration{20 * time.Second, 2 * time.Second, 5 * time.Second}[vs.Choose(3)]
		time.Sleep(away)
		if away > 15*time.Second {
			_, ok := w.d.Get("a")
			vs.Assert(!ok && w.events["a"] == "DF", "a source silent for %v with timeout 5s is known: %v, notifications %v", away, ok, w.events)
			_, ok = w.d.Get("b")
			vs.Assert(ok && w.events["b"] == "D", "the other source is known: %v, notifications %v", ok, w.events)
			if kind == "mock" && vs.Choose(2) == 1 {
				a.info.Address, a.info.Direct = "mc/sfe.a-moved", "sfe.a-moved"
			}
		}
		a.start(mk(), cfg)
		a.set(site("a1", "n", "2"))
		time.Sleep(30 * time.Second)
		vs.Quiesce()
		_, ok := w.d.Get("a")
		vs.Assert(ok, "the source that came back is unknown: %v", w.events)
		if away > 15*time.Second {
			i, _ := w.d.Get("a")
			vs.Assert(i.Address == a.info.Address && i.Direct == a.info.Direct, "the source came back at %s, known at %s", a.info.Address, i.Address)
			vs.Assert(w.events["a"] == "DFD", "notifications %v", w.events)
			vs.Assert(w.have("a") == a.want(), "away for %v: collected [%s], source has [%s]", away, w.have("a"), a.want())
		}
		vs.Assert(w.have("b") == b.want(), "collected [%s], source has [%s]", w.have("b"), b.want())
		a.stop()
		b.stop()
		w.cancel()
		w.ret.Wait()
		time.Sleep(time.Minute)
		if l := vs.Alive(); len(l) > 0 {
			vs.Fail("assert", "goroutines left when all has stopped: %v", l)
		}
	}
}
