package main

import (
	"context"
	"time"

	"github.com/c-kruse/vanflow/eventsource"

	"vmc/vs"
)

// operations: every sequence of calls, beacons and activity of a watched
// source up to a depth, with handlers that return or not, gives the results
// and notifications of the model, without any call waiting.
func operations(depth int) func() {
	return func() {
		w := newDworld()
		gate := &vs.Event{}
		if vs.Choose(2) == 1 {
			hold := func(eventsource.Info) { gate.Wait() }
			w.onD, w.onF = hold, hold
		}
		m := dmodel{}
		var want []dev
		w.run()
		ctx, cancel := context.WithCancel(bg)
		listening := false
		watch := dop{"Watch(a)", func(w *dworld) string {
			c := eventsource.NewClient(w.n, eventsource.ClientOptions{Source: info("a", "k", 3)})
			if !listening {
				listening = true
				vs.Assert(c.Listen(ctx, eventsource.FromSourceAddress()) == nil, "cannot listen")
				w.n.open("k", 1)
			}
			if w.d.NewWatchClient(ctx, eventsource.WatchConfig{Client: c, ID: "a", DiscoveryUpdateInterval: time.Second}) != nil {
				c.Close()
				listening = false
				return "unknown"
			}
			return "watching"
		}, func(m dmodel) (string, []dev) {
			if _, ok := m["a"]; ok {
				return "watching", nil
			}
			return "unknown", nil
		}, false}
		active := dop{"activity of a", func(w *dworld) string {
			if listening {
				w.n.push("k", item{m: heartbeat("a", 1)})
			}
			time.Sleep(1500 * time.Millisecond)
			return ""
		}, func(dmodel) (string, []dev) { return "", nil }, false}
		ops := []dop{watch, active, opForget("a"), opAdd("a", "k"), opBeacon("a", "k"), opForget("b"), opAdd("b", "y"), opGet("a")}
		var hist []string
		for i := 0; i < depth; i++ {
			o := ops[vs.Choose(len(ops))]
			hist = append(hist, o.name)
			t0 := vs.Elapsed()
			got := o.run(w)
			vs.Quiesce()
			if o.name != active.name {
				vs.Assert(vs.Elapsed() == t0, "%v: the last call waited %v", hist, vs.Elapsed()-t0)
			}
			res, ev := o.mod(m)
			want = append(want, ev...)
			vs.Assert(got == res, "%v: the last call gives %s, expected %s", hist, got, res)
			res, _ = opList().mod(m)
			vs.Assert(listOf(w) == res, "%v: known %s, expected %s", hist, listOf(w), res)
		}
		gate.Set()
		vs.Quiesce()
		checkEvents(w.events, want)
		w.onD, w.onF = nil, nil
		cancel()
		w.cancel()
		promptly(&w.ret, "Run returned after it was cancelled")
		afterStop(w)
	}
}
