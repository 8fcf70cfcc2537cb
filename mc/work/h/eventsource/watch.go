package main

import (
	"context"
	"time"

	"github.com/Azure/go-amqp"
	"github.com/c-kruse/vanflow/eventsource"

	"vmc/vs"
)

type watchCfg struct {
	timeout, grace, interval time.Duration
}

// eps is the tolerance of time limits that coincide with a timer.
const eps = time.Millisecond

type watchWorld struct {
	*dworld
	c        *eventsource.Client
	cfg      watchCfg
	interval time.Duration
	start    time.Duration
	forgot   time.Duration
	forgotN  int
}

func newWatchWorld(cfg watchCfg, ctx context.Context) *watchWorld {
	w := &watchWorld{dworld: newDworld(), cfg: cfg, forgot: -1}
	w.onF = func(i eventsource.Info) { w.forgot = vs.Elapsed(); w.forgotN++ }
	w.run()
	w.d.Add(src)
	w.c = eventsource.NewClient(w.n, eventsource.ClientOptions{Source: src})
	vs.Assert(w.c.Listen(bg, eventsource.FromSourceAddress()) == nil, "cannot listen")
	w.n.open("x", 1)
	w.interval = cfg.interval
	if w.interval <= 0 {
		w.interval = time.Second
	}
	w.start = vs.Elapsed()
	err := w.d.NewWatchClient(ctx, eventsource.WatchConfig{Client: w.c, ID: src.ID, Timeout: cfg.timeout, GracePeriod: cfg.grace, DiscoveryUpdateInterval: cfg.interval})
	vs.Assert(err == nil, "cannot watch a known source: %v", err)
	return w
}

func (w *watchWorld) known() bool { _, ok := w.d.Get(src.ID); return ok }

func (w *watchWorld) stop() {
	w.c.Close()
	w.cancel()
	w.ret.Wait()
}

// silence: arrivals with every combination of gaps, then silence.
func silence(cfg watchCfg, msgs int) func() {
	return func() {
		ctx, cancel := context.WithCancel(bg)
		w := newWatchWorld(cfg, ctx)
		T := cfg.timeout
		// gaps below the timeout; the first may use the grace period
		frac := []time.Duration{T / 10, T / 2, T * 9 / 10}
		last := w.start
		n := vs.Choose(msgs + 1)
		// the time a heartbeat carries is that of the source's clock
		clock := []uint64{1, uint64(vs.Now().Add(time.Hour).UnixMicro())}[n%2]
		mk := []func() *amqp.Message{func() *amqp.Message { return heartbeat("s", clock) }, func() *amqp.Message { return record("r") }, func() *amqp.Message { return record() }}
		for i := 0; i < n; i++ {
			gap := frac[vs.Choose(len(frac))]
			if i == 0 && cfg.grace > 0 {
				gap = []time.Duration{T / 10, cfg.grace, cfg.grace + T*9/10}[vs.Choose(3)]
			}
			time.Sleep(gap)
			vs.Assert(w.known(), "forgotten after %v although messages kept arriving within %v (+%v)", vs.Elapsed()-w.start, T, cfg.grace)
			w.n.push("x", item{m: mk[(i+n)%3]()})
			last = vs.Elapsed()
		}
		silent := T
		if n == 0 {
			silent += cfg.grace
		}
		// it is noticed at the next update or when the timer fires, if that
		// comes first
		limit := silent + eps
		if n > 0 {
			limit += min(w.interval, T+cfg.grace)
		}
		time.Sleep(limit + time.Second)
		vs.Assert(w.forgotN == 1 && !w.known(), "silent for %v with timeout %v: forgotten %d times, known %v", vs.Elapsed()-last, T, w.forgotN, w.known())
		vs.Assert(w.forgot-last >= silent, "forgotten after %v of silence, timeout %v", w.forgot-last, silent)
		vs.Assert(w.forgot-last <= limit, "forgotten only after %v of silence, timeout %v", w.forgot-last, silent)
		r := w.n.rcvs[1]
		vs.Assert(r.closed, "the watched client is not closed after its source was forgotten")
		// the watch is over: it does not touch a source that comes back
		w.d.Add(src)
		time.Sleep(2*limit + time.Second)
		vs.Assert(w.forgotN == 1 && w.known(), "an ended watch forgot the source again")
		cancel()
		w.stop()
		vs.Quiesce()
		if l := vs.Alive(); len(l) > 0 {
			vs.Fail("assert", "goroutines left: %v", l)
		}
	}
}

// activity: last-seen follows the messages; nothing is ever forgotten while
// they keep arriving or without a timeout.
func activity(cfg watchCfg) func() {
	return func() {
		ctx, cancel := context.WithCancel(bg)
		w := newWatchWorld(cfg, ctx)
		gap := cfg.timeout * 9 / 10
		if gap == 0 {
			gap = []time.Duration{2 * time.Second, 40 * time.Second}[vs.Choose(2)]
		} else if vs.Choose(2) == 1 {
			gap = cfg.timeout / 3
		}
		beacons := vs.Choose(2) == 1
		clock := uint64(1)
		if gap > cfg.timeout/2 {
			clock = uint64(vs.Now().Add(time.Hour).UnixMicro())
		}
		time.Sleep(gap)
		for i := 0; i < 8; i++ {
			if i%2 == 0 {
				w.n.push("x", item{m: heartbeat("s", clock)})
			} else {
				w.n.push("x", item{m: record([]string{"r"}[:i/2%2]...)})
			}
			at := vs.Now()
			if beacons {
				w.beacon("s", "x")
			}
			vs.Quiesce()
			if w.interval+eps <= gap {
				time.Sleep(w.interval + eps)
				vs.Quiesce()
				i, ok := w.d.Get(src.ID)
				vs.Assert(ok && !i.LastSeen.Before(at), "a message of %v is not reflected in last seen %v one update interval (%v) later", at, i.LastSeen, w.interval)
				time.Sleep(gap - w.interval - eps)
			} else {
				time.Sleep(gap)
			}
			vs.Assert(w.known() && w.forgotN == 0, "forgotten while messages keep arriving every %v, timeout %v", gap, cfg.timeout)
			vs.Assert(!w.n.rcvs[1].closed, "client closed while the watch runs")
		}
		if cfg.timeout == 0 {
			time.Sleep(3 * time.Minute)
			vs.Assert(w.known() && w.forgotN == 0, "forgotten without a timeout")
		}
		cancel()
		vs.Quiesce()
		vs.Assert(w.known() && w.forgotN == 0, "forgotten because the watch was cancelled")
		vs.Assert(w.n.rcvs[1].closed, "the client is not closed when the watch ends")
		time.Sleep(time.Minute)
		vs.Assert(w.known() && w.forgotN == 0, "forgotten by a cancelled watch")
		w.stop()
		vs.Quiesce()
		if l := vs.Alive(); len(l) > 0 {
			vs.Fail("assert", "goroutines left: %v", l)
		}
	}
}

// early: a message that arrives as the watch starts counts.
func early() {
	ctx, cancel := context.WithCancel(bg)
	w := &watchWorld{dworld: newDworld(), forgot: -1}
	w.onF = func(i eventsource.Info) { w.forgot = vs.Elapsed(); w.forgotN++ }
	w.run()
	w.d.Add(src)
	w.c = eventsource.NewClient(w.n, eventsource.ClientOptions{Source: src})
	vs.Assert(w.c.Listen(bg, eventsource.FromSourceAddress()) == nil, "cannot listen")
	w.n.open("x", 1)
	T := 3 * time.Second
	if vs.Choose(2) == 0 {
		T = 0
	}
	time.Sleep(time.Second)
	vs.Assert(w.d.NewWatchClient(ctx, eventsource.WatchConfig{Client: w.c, ID: src.ID, Timeout: T}) == nil, "cannot watch")
	if vs.Choose(2) == 0 { // just after a beacon
		w.beacon("s", "x")
		vs.Quiesce()
		time.Sleep(5 * time.Millisecond)
	}
	at := vs.Now()
	w.n.push("x", item{m: heartbeat("s", 1)})
	time.Sleep(time.Second + eps)
	vs.Quiesce()
	i, ok := w.d.Get(src.ID)
	vs.Assert(ok && !i.LastSeen.Before(at), "a message of %v is not reflected in last seen %v one update interval later", at, i.LastSeen)
	cancel()
	w.stop()
}

// unknown sources cannot be watched; several watches do not disturb each other
func watches() {
	w := newDworld()
	w.run()
	c := eventsource.NewClient(w.n, eventsource.ClientOptions{Source: src})
	vs.Assert(w.d.NewWatchClient(bg, eventsource.WatchConfig{Client: c, ID: "nobody", Timeout: time.Second}) != nil, "watching an unknown source succeeds")
	time.Sleep(5 * time.Second)
	forgot := map[string]int{}
	w.onF = func(i eventsource.Info) { forgot[i.ID]++ }
	ids := []string{"a", "b", "c"}
	var cl []*eventsource.Client
	for i, id := range ids {
		s := info(id, "x"+id, 1)
		w.d.Add(s)
		c := eventsource.NewClient(w.n, eventsource.ClientOptions{Source: s})
		cl = append(cl, c)
		vs.Assert(c.Listen(bg, eventsource.FromSourceAddress()) == nil, "cannot listen")
		vs.Assert(w.d.NewWatchClient(bg, eventsource.WatchConfig{Client: c, ID: id, Timeout: time.Duration(i+1) * time.Second}) == nil, "cannot watch")
	}
	alive := vs.Choose(4)
	for k := 0; k < 20; k++ {
		time.Sleep(500 * time.Millisecond)
		if alive < 3 {
			w.n.push("x"+ids[alive], item{m: heartbeat(ids[alive], 1)})
		}
	}
	for i, id := range ids {
		_, ok := w.d.Get(id)
		vs.Assert(ok == (i == alive) && forgot[id] == map[bool]int{false: 1, true: 0}[i == alive], "source %s: known %v, forgotten %d times; source %d is alive", id, ok, forgot[id], alive)
		vs.Assert(w.n.at("x"+id) == nil == (i != alive), "client of %s closed: %v", id, w.n.at("x"+id) == nil)
	}
	for _, c := range cl {
		c.Close()
	}
	w.cancel()
}

// announced: a source whose beacons go on while it sends nothing else is
// forgotten by its watch, and known again from its next beacon.
func announced(cfg watchCfg) func() {
	return func() {
		ctx, cancel := context.WithCancel(bg)
		w := newWatchWorld(cfg, ctx)
		T := cfg.timeout
		last, silent := w.start, T+cfg.grace
		if vs.Choose(2) == 0 {
			time.Sleep(T / 2)
			w.n.push("x", item{m: heartbeat("s", 1)})
			last, silent = vs.Elapsed(), T
		}
		limit := silent + eps + min(w.interval, T+cfg.grace)
		every := []time.Duration{T / 3, T * 4 / 5}[vs.Choose(2)]
		for vs.Elapsed()-last < limit+every {
			time.Sleep(every)
			w.beacon("s", "x")
			vs.Quiesce()
		}
		vs.Assert(w.forgotN == 1 && w.forgot-last >= silent && w.forgot-last <= limit, "silent but for beacons since %v, timeout %v: forgotten %d times, at %v", last, silent, w.forgotN, w.forgot)
		vs.Assert(w.known(), "not known from a beacon after it was forgotten")
		vs.Assert(w.n.rcvs[1].closed, "the watched client is not closed after its source was forgotten")
		cancel()
		w.stop()
	}
}
