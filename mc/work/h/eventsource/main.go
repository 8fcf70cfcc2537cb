// Command eventsource checks the properties E01 to E12.
package main

import (
	"fmt"
	"time"

	"vmc/hx"
	"vmc/vs"
)

// d bounds the number of deviations from a deterministic schedule.
func d(n ...int) vs.Config { return vs.Config{Preempt: n, Delay: true} }

func pr(p ...string) []string { return p }

func c(n ...int) vs.Config { return vs.Config{Preempt: n} }

func main() {
	hx.Heavy = []string{"e11/publish", "e12/", "e09/requests", "e08/updates"}
	// E01
	for _, known := range [][]string{nil, {"a"}} {
		name := fmt.Sprintf("known%d", len(known))
		hx.Add(&hx.S{Name: "e01/two-" + name, Props: pr("E01"), Quick: c(0, 1), Sec: 18, DeepS: 500, Body: e01("two", known...)})
		hx.Add(&hx.S{Name: "e01/three-" + name, Props: pr("E01"), Quick: c(0, 1, 2), Sec: 18, DeepS: 500, Body: e01("three", known...)})
		hx.Add(&hx.S{Name: "e01/flap-" + name, Props: pr("E01"), Quick: c(0, 1, 2), Sec: 18, DeepS: 500, Body: e01("flap", known...)})
	}
	hx.Add(&hx.S{Name: "e01/watched", Props: pr("E01"), Quick: c(0, 1), Deep: vs.Config{Preempt: []int{0, 1, 2}, TimerOrder: true}, Body: watchedTransitions, Sec: 18, DeepS: 500})
	hx.Add(&hx.S{Name: "e01/add-known", Props: pr("E01"), Quick: c(0, 1), Body: addKnown, Sec: 8, DeepS: 100})
	// E02
	hx.Add(&hx.S{Name: "e02/busy", Props: pr("E02", "E01"), Quick: c(0, 1), Body: busyHandlers(4), Sec: 15, DeepS: 300})
	hx.Add(&hx.S{Name: "e02/busy-many", Props: pr("E02", "E01"), Quick: vs.Config{Preempt: []int{0}, Delay: true, SpinLimit: 400000, MaxSteps: 800000}, Body: busyHandlers(1500), Sec: 15, DeepS: 300})
	hx.Add(&hx.S{Name: "e02/operations", Props: pr("E02"), Quick: d(0), Deep: d(0, 1), Body: operations(4), Sec: 15, DeepS: 300})
	hx.Add(&hx.S{Name: "e02/operations-5", Props: pr("E02"), NoQ: true, Quick: d(0), Body: operations(5), DeepS: 300})
	hx.Add(&hx.S{Name: "e02/slow", Props: pr("E02", "E01"), Quick: c(0), Body: slowHandlers, Sec: 15})
	hx.Add(&hx.S{Name: "e02/reentrant", Props: pr("E02", "E01"), Quick: c(0, 1), Body: reentrant, Sec: 18, DeepS: 500})
	hx.Add(&hx.S{Name: "e02/rerun", Props: pr("E02", "E01"), Quick: c(0, 1, 2), Body: rerun, Sec: 15, DeepS: 300})
	hx.Add(&hx.S{Name: "e02/stop", Props: pr("E02"), Quick: c(0, 1, 2), Body: stopAnytime, Sec: 18, DeepS: 500})
	// E03
	hx.Add(&hx.S{Name: "e03/messages", Props: pr("E03"), Quick: c(0), Deep: c(0, 1), Body: beacons(3, false), Sec: 18, DeepS: 600})
	hx.Add(&hx.S{Name: "e03/messages-4", Props: pr("E03"), NoQ: true, Quick: c(0), Body: beacons(4, false), DeepS: 600})
	hx.Add(&hx.S{Name: "e03/address", Props: pr("E03"), Quick: c(0, 1), Body: beacons(2, true), Sec: 15, DeepS: 300})
	hx.Add(&hx.S{Name: "e03/lastclock", Props: pr("E03"), Quick: vs.Config{Preempt: []int{0, 1}, ClockDev: 1}, Deep: vs.Config{Preempt: []int{0, 1, 2}, ClockDev: 2}, Body: lastSeenClock, Sec: 15, DeepS: 300})
	hx.Add(&hx.S{Name: "e03/lastseen", Props: pr("E03"), Quick: vs.Config{Preempt: []int{0, 1}, TimerOrder: true}, Deep: vs.Config{Preempt: []int{0, 1, 2}, TimerOrder: true}, Body: lastSeenMonotone, Sec: 18, DeepS: 500})
	// E04
	s := time.Second
	for i, cfg := range []watchCfg{{timeout: 3 * s}, {timeout: 10 * s, grace: 5 * s, interval: 4 * s}, {timeout: s, interval: 5 * s}, {timeout: 2 * s, grace: s, interval: s / 2}, {timeout: s / 2, interval: s / 2}} {
		hx.Add(&hx.S{Name: fmt.Sprint("e04/silence", i), Props: pr("E04"), Quick: vs.Config{Preempt: []int{0, 1}, TimerOrder: true}, Deep: vs.Config{Preempt: []int{0, 1, 2}, TimerOrder: true}, Body: silence(cfg, 2), Sec: 18, DeepS: 400})
		hx.Add(&hx.S{Name: fmt.Sprint("e04/silence-long", i), Props: pr("E04"), NoQ: true, Quick: vs.Config{Preempt: []int{0, 1}, TimerOrder: true}, Body: silence(cfg, 5), DeepS: 400})
	}
	for i, cfg := range []watchCfg{{}, {timeout: 3 * s}, {timeout: s, interval: 5 * s}, {timeout: 4 * s, grace: 2 * s, interval: s / 2}, {grace: 2 * s, interval: 3 * s}, {timeout: 100 * time.Millisecond}, {timeout: s, interval: s / 10}} {
		hx.Add(&hx.S{Name: fmt.Sprint("e04/activity", i), Props: pr("E04"), Quick: vs.Config{Preempt: []int{0, 1, 2}, Delay: true, SelDev: true, TimerOrder: cfg.timeout > 0 && i < 6}, Deep: vs.Config{Preempt: []int{0, 1, 2}, TimerOrder: i < 6}, Body: activity(cfg), Sec: 15, DeepS: 400})
	}
	for i, cfg := range []watchCfg{{timeout: 3 * s}, {timeout: 2 * s, grace: s, interval: s / 2}} {
		hx.Add(&hx.S{Name: fmt.Sprint("e04/announced", i), Props: pr("E04"), Quick: d(0, 1), Deep: c(0, 1), Body: announced(cfg), Sec: 8, DeepS: 200})
	}
	hx.Add(&hx.S{Name: "e04/early", Props: pr("E04"), Quick: c(0, 1, 2), Body: early, Sec: 12, DeepS: 300})
	hx.Add(&hx.S{Name: "e04/several", Props: pr("E04"), Quick: vs.Config{Preempt: []int{0, 1, 2, 3}, Delay: true, SelDev: true}, Deep: vs.Config{Preempt: []int{0, 1}, TimerOrder: true}, Body: watches, Sec: 12, DeepS: 300})
	// E05
	hx.Add(&hx.S{Name: "e05/messages", Props: pr("E05"), Quick: c(0), Deep: c(0, 1), Body: deliveries(3, "R1", "H1", "H2", "R2"), Sec: 18, DeepS: 500})
	hx.Add(&hx.S{Name: "e05/messages-4", Props: pr("E05"), NoQ: true, Quick: c(0), Body: deliveries(4, "R1", "H1", "H2", "R2"), DeepS: 500})
	hx.Add(&hx.S{Name: "e05/nohandler", Props: pr("E05"), Quick: c(0), Body: deliveries(2, "H1"), Sec: 5})
	hx.Add(&hx.S{Name: "e05/listeners", Props: pr("E05"), Quick: c(0, 1, 2), Body: listeners, Sec: 18, DeepS: 500})
	hx.Add(&hx.S{Name: "e05/registering", Props: pr("E05"), Quick: c(0, 1, 2), Body: registering, Sec: 18, DeepS: 500})
	hx.Add(&hx.S{Name: "e05/failures", Props: pr("E05"), Quick: vs.Config{Preempt: []int{0}, Delay: true, SpinLimit: 400000, MaxSteps: 800000}, Body: failures, Sec: 10})
	hx.Add(&hx.S{Name: "e05/slow", Props: pr("E05"), Quick: c(0), Body: slowHandler, Sec: 10})
	// E06
	for i := 0; i < 4; i++ {
		hx.Add(&hx.S{Name: fmt.Sprint("e06/closing", i), Props: pr("E06"), NoQ: i%2 == 1, Quick: c(0, 1), Body: closing(i), Sec: 18, DeepS: 600})
		hx.Add(&hx.S{Name: fmt.Sprint("e06/closing-delays", i), Props: pr("E06"), Quick: vs.Config{Preempt: []int{0, 1, 2, 3, 4}, Delay: true, SelDev: true}, Body: closing(i), Sec: 15, DeepS: 300})
	}
	hx.Add(&hx.S{Name: "e06/stops", Props: pr("E06"), Quick: c(0, 1, 2), Body: closeStops, Sec: 18, DeepS: 400})
	hx.Add(&hx.S{Name: "e06/context", Props: pr("E06"), Quick: c(0, 1, 2), Body: listenerContext, Sec: 18, DeepS: 400})
	hx.Add(&hx.S{Name: "e06/held", Props: pr("E06"), Quick: c(0, 1), Body: heldClose, Sec: 8, DeepS: 60})
	hx.Add(&hx.S{Name: "e06/busy", Props: pr("E06"), Quick: c(0, 1, 2), Body: busyClose, Sec: 18, DeepS: 400})
	// E07
	for _, two := range []bool{false, true} {
		hx.Add(&hx.S{Name: fmt.Sprint("e07/first-two-", two), Props: pr("E07"), Quick: c(0, 1), Body: firstMessage(two), Sec: 18, DeepS: 400})
	}
	hx.Add(&hx.S{Name: "e07/context", Props: pr("E07"), Quick: c(0, 1), Body: firstMessageCtx, Sec: 18, DeepS: 400})
	hx.Add(&hx.S{Name: "e07/heldup", Props: pr("E07"), Quick: vs.Config{Preempt: []int{0, 1}, MaxTime: int64(4 * time.Hour)}, Body: firstMessageLate, Sec: 10, DeepS: 200})
	hx.Add(&hx.S{Name: "e07/race", Props: pr("E07"), Quick: c(0, 1, 2), Body: firstMessageRace, Sec: 18, DeepS: 400})
	// E08
	for i, b := range []bufCfg{{}, {size: 2, buf: s}, {size: 3, buf: s}, {size: 5}, {size: -2, buf: s}, {size: 3, buf: -s}} {
		few := d(0, 1)
		if i > 3 {
			few = d(0)
		}
		hx.Add(&hx.S{Name: fmt.Sprint("e08/updates", i), Props: pr("E08"), Quick: few, Deep: d(0, 1, 2), Body: updates(2, b), Sec: 15, DeepS: 400})
		hx.Add(&hx.S{Name: fmt.Sprint("e08/updates3-", i), Props: pr("E08"), NoQ: true, Quick: d(0, 1), Body: updates(3, b), DeepS: 400})
		hx.Add(&hx.S{Name: fmt.Sprint("e08/publishers", i), Props: pr("E08"), Quick: d(0, 1, 2), Body: publishers(b), Sec: 15, DeepS: 400})
		hx.Add(&hx.S{Name: fmt.Sprint("e08/many", i), Props: pr("E08"), Quick: vs.Config{Preempt: []int{0}, Delay: true, SpinLimit: 200000, MaxSteps: 400000}, Body: manyUpdates(b, 700), Sec: 10})
	}
	for i, b := range []bufCfg{{size: 4, buf: s}, {size: 3, buf: s}, {}} {
		hx.Add(&hx.S{Name: fmt.Sprint("e08/mixed", i), Props: pr("E08"), Quick: d(0), Body: mixed(4, b), Sec: 10})
		hx.Add(&hx.S{Name: fmt.Sprint("e08/mixed6-", i), Props: pr("E08"), NoQ: true, Quick: d(0), Body: mixed(6, b), DeepS: 300})
	}
	hx.Add(&hx.S{Name: "e08/batches", Props: pr("E08"), Quick: vs.Config{Preempt: []int{0, 1}, Delay: true, TimerOrder: true}, Deep: vs.Config{Preempt: []int{0, 1, 2}, Delay: true, TimerOrder: true}, Body: fullBatch, Sec: 12, DeepS: 300})
	hx.Add(&hx.S{Name: "e08/content", Props: pr("E08"), Quick: vs.Config{Preempt: []int{0}, Delay: true, SpinLimit: 400000, MaxSteps: 800000}, Body: updateContent, Sec: 15, DeepS: 120})
	hx.Add(&hx.S{Name: "e08/due", Props: pr("E08"), Quick: vs.Config{Preempt: []int{0, 1}, ClockDev: 1, Delay: true, SelDev: true, MaxTime: int64(4 * time.Hour)}, Deep: vs.Config{Preempt: []int{0, 1, 2}, ClockDev: 2, Delay: true, SelDev: true, MaxTime: int64(4 * time.Hour)}, Body: dueBatch, Sec: 10, DeepS: 200})
	hx.Add(&hx.S{Name: "e08/merged", Props: pr("E08", "E09"), Quick: d(0, 1), Body: merged, Sec: 15, DeepS: 400})
	hx.Add(&hx.S{Name: "e08/large", Props: pr("E08"), Quick: vs.Config{Preempt: []int{0}, Delay: true, SpinLimit: 400000, MaxSteps: 800000}, Body: manyUpdates(bufCfg{size: 2000, buf: s}, 1500), Sec: 10})
	hx.Add(&hx.S{Name: "e08/heldup", Props: pr("E08", "E09"), Quick: vs.Config{Preempt: []int{0, 1}, Delay: true, MaxTime: int64(time.Hour)}, Body: heldUp, Sec: 10, DeepS: 200})
	// E09
	hx.Add(&hx.S{Name: "e09/stores", Props: pr("E09"), Quick: d(0, 1), Deep: d(0, 1, 2), Body: flushed, Sec: 15, DeepS: 400})
	hx.Add(&hx.S{Name: "e09/twins", Props: pr("E09"), Quick: d(0), Deep: d(0, 1, 2), Body: twins, Sec: 10, DeepS: 100})
	hx.Add(&hx.S{Name: "e09/requests", Props: pr("E09"), Quick: d(0, 1), Deep: d(0, 1, 2), Body: requests(2), Sec: 15, DeepS: 400})
	hx.Add(&hx.S{Name: "e09/requests-3", Props: pr("E09"), NoQ: true, Quick: d(0, 1), Body: requests(3), DeepS: 500})
	for _, b := range []int{0, 1, 2} {
		hx.Add(&hx.S{Name: fmt.Sprint("e09/listings-batch", b), Props: pr("E09"), Quick: d(0), Deep: d(0, 1), Body: listings(b), Sec: 10, DeepS: 200})
		hx.Add(&hx.S{Name: fmt.Sprint("e09/changes-batch", b), Props: pr("E09"), Quick: d(0, 1, 2), Body: deleting(b), Sec: 15, DeepS: 400})
	}
	hx.Add(&hx.S{Name: "e09/unservable", Props: pr("E09"), Quick: d(0, 1), Deep: d(0, 1, 2), Body: unservable, Sec: 15, DeepS: 300})
	hx.Add(&hx.S{Name: "e09/paging", Props: pr("E09"), Quick: d(0), Deep: d(0, 1), Body: pages, Sec: 15, DeepS: 300})
	for _, b := range []int{0, 10, 1000, 2000} {
		hx.Add(&hx.S{Name: fmt.Sprint("e09/large", b), Props: pr("E09"), Quick: vs.Config{Preempt: []int{0}, Delay: true, SpinLimit: 400000, MaxSteps: 800000}, Body: flushMany(b), Sec: 10})
	}
	hx.Add(&hx.S{Name: "e09/content", Props: pr("E09"), Quick: vs.Config{Preempt: []int{0}, Delay: true, SpinLimit: 400000, MaxSteps: 800000}, Body: answerContent, Sec: 10, DeepS: 60})
	hx.Add(&hx.S{Name: "e09/another", Props: pr("E09"), Quick: d(0, 1), Deep: d(0, 1, 2), Body: another, Sec: 10, DeepS: 200})
	hx.Add(&hx.S{Name: "e09/many-pages", Props: pr("E09"), Quick: vs.Config{Preempt: []int{0}, Delay: true, SpinLimit: 400000, MaxSteps: 800000}, Body: manyPages, Sec: 10})
	hx.Add(&hx.S{Name: "e09/burst", Props: pr("E09"), Quick: d(0, 1), Body: burst, Sec: 15, DeepS: 300})
	// E10
	all := []string{"ok", "blocked", "error", "slow", "tooslow", "late", "lapse", "errfirst"}
	for i, a := range []aliveCfg{{}, {beacon: 3 * s, heart: 5 * s}, {beacon: 6 * s, heart: 2 * s, alt: true}, {beacon: 2 * s, heart: 2 * s}, {beacon: -1, heart: 7 * s}} {
		hx.Add(&hx.S{Name: fmt.Sprint("e10/keepalives", i), Props: pr("E10"), Quick: d(0, 1), Deep: d(0, 1, 2, 3), Body: keepalives(a, all...), Sec: 15, DeepS: 300})
		hx.Add(&hx.S{Name: fmt.Sprint("e10/order", i), Props: pr("E10"), NoQ: true, Quick: vs.Config{Preempt: []int{0, 1}, Delay: true, TimerOrder: true}, Body: keepalives(a, "ok"), DeepS: 300})
	}
	// E11
	for _, k := range []string{"idle", "blocked", "failing", "slowstore", "badstore", "batching", "delay", "deadline"} {
		hx.Add(&hx.S{Name: "e11/cancel-" + k, Props: pr("E11"), Quick: d(0, 1, 2), Body: cancelAnytime(k), Sec: 18, DeepS: 500})
	}
	hx.Add(&hx.S{Name: "e11/cancel-full", Props: pr("E11"), Quick: vs.Config{Preempt: []int{0}, Delay: true, SpinLimit: 200000, MaxSteps: 400000}, Body: cancelAnytime("full"), Sec: 15, DeepS: 200})
	hx.Add(&hx.S{Name: "e11/publish", Props: pr("E11"), Quick: vs.Config{Preempt: []int{0, 1}, Delay: true, SelDev: true, SpinLimit: 200000, MaxSteps: 400000}, Body: publishAfter, Sec: 12})
	hx.Add(&hx.S{Name: "e11/publish-race", Props: pr("E11"), Quick: vs.Config{Preempt: []int{0, 1}, Delay: true, SelDev: true, SpinLimit: 200000, MaxSteps: 400000}, Body: publishRace, Sec: 12, DeepS: 100})
	hx.Add(&hx.S{Name: "e11/healed", Props: pr("E11", "E08"), Quick: d(0, 1), Body: healed, Sec: 10, DeepS: 100})
	hx.Add(&hx.S{Name: "e11/storm", Props: pr("E11", "E10"), Quick: d(0, 1), Body: storm, Sec: 15, DeepS: 300})
	// E12
	for _, k := range []string{"mock", "session"} {
		big := vs.Config{Preempt: []int{0, 1}, Delay: true, MaxSteps: 200000, SpinLimit: 50000}
		deepc := vs.Config{Preempt: []int{0, 1, 2}, Delay: true, MaxSteps: 200000, SpinLimit: 50000}
		hx.Add(&hx.S{Name: "e12/converge-" + k, Props: pr("E12"), Quick: big, Deep: deepc, Body: converge(k), Sec: 18, DeepS: 600})
		hx.Add(&hx.S{Name: "e12/comeback-" + k, Props: pr("E12"), Quick: big, Deep: deepc, Body: comeback(k), Sec: 18, DeepS: 600})
	}
	hx.Main()
}
