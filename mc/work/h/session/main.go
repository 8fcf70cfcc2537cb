// Command session checks the properties N01 to N07.
package main

import (
	"fmt"
	"time"

	"vmc/hx"
	"vmc/vs"
)

func d(n ...int) vs.Config { return vs.Config{Preempt: n, Delay: true} }

func c(n ...int) vs.Config { return vs.Config{Preempt: n} }

func pr(p ...string) []string { return p }

func main() {
	hx.Heavy = []string{"n05/policy", "n03/opened"}
	// N01
	hx.Add(&hx.S{Name: "n01/transport", Props: pr("N01"), Quick: d(0, 1), Body: resume(2, transport, 0), Sec: 15, DeepS: 400})
	hx.Add(&hx.S{Name: "n01/transport-loss", Props: pr("N01"), Quick: d(0, 1), Body: resume(1, transport, 1), Sec: 15, DeepS: 400})
	hx.Add(&hx.S{Name: "n01/traffic", Props: pr("N01"), Quick: d(0, 1), Body: resume(2, traffic, 0), Sec: 15, DeepS: 400})
	hx.Add(&hx.S{Name: "n01/mixed-one", Props: pr("N01"), Quick: d(0, 1), Body: resume(1, anything, 1), Sec: 15, DeepS: 300})
	hx.Add(&hx.S{Name: "n01/mixed", Props: pr("N01"), Quick: d(0), Deep: d(0, 1), Body: resume(2, anything, 1), Sec: 15, DeepS: 600})
	hx.Add(&hx.S{Name: "n01/losses", Props: pr("N01"), Quick: d(0, 1, 2), Body: resume(0, nil, 3), Sec: 15, DeepS: 400})
	hx.Add(&hx.S{Name: "n01/many", Props: pr("N01", "N02"), Quick: d(0, 1), Body: manyLinks(3), Sec: 15, DeepS: 400})
	hx.Add(&hx.S{Name: "n01/patience", Props: pr("N01", "N04"), Quick: vs.Config{Preempt: []int{0}, Delay: true, MaxTime: int64(20 * time.Hour), MaxSteps: 400000, SpinLimit: 200000}, Body: patience, Sec: 10})
	for _, a := range []bool{false, true} {
		n := map[bool]string{false: "n01/shared", true: "n01/shared-accept"}[a]
		hx.Add(&hx.S{Name: n, Props: pr("N01"), Quick: d(0, 1, 2), Body: sharedLink(a, false), Sec: 15, DeepS: 400})
		hx.Add(&hx.S{Name: n + "-instant", Props: pr("N01", "N02"), Quick: vs.Config{Preempt: []int{0, 1}, ClockDev: 1, Delay: true}, Deep: vs.Config{Preempt: []int{0, 1, 2}, ClockDev: 1, Delay: true}, Body: sharedLink(a, true), Sec: 15, DeepS: 400})
	}
	// N02
	hx.Add(&hx.S{Name: "n02/sequences", Props: pr("N02", "N04"), Quick: d(0, 1), Body: restarts(2), Sec: 15, DeepS: 500})
	hx.Add(&hx.S{Name: "n02/sequences-3", Props: pr("N02"), NoQ: true, Quick: d(0), Body: restarts(3), DeepS: 700})
	hx.Add(&hx.S{Name: "n02/late", Props: pr("N02"), Quick: d(0, 1, 2), Deep: d(0, 1, 2, 3), Body: lateReports(3, 1), Sec: 15, DeepS: 400})
	hx.Add(&hx.S{Name: "n02/late-twice", Props: pr("N02"), Quick: d(0, 1, 2), Deep: d(0, 1, 2, 3), Body: lateReports(2, 2), Sec: 15, DeepS: 400})
	hx.Add(&hx.S{Name: "n02/detached", Props: pr("N02", "N01"), Quick: d(0, 1), Deep: d(0, 1, 2), Body: detached(3), Sec: 15, DeepS: 400})
	// N03
	hx.Add(&hx.S{Name: "n03/opened", Props: pr("N03"), Quick: d(0, 1), Deep: d(0, 1, 2), Body: opened(2, false), Sec: 15, DeepS: 500})
	hx.Add(&hx.S{Name: "n03/opened-giveup", Props: pr("N03"), Quick: d(0), Deep: d(0, 1), Body: opened(2, true), Sec: 15, DeepS: 500})
	hx.Add(&hx.S{Name: "n03/gaveup", Props: pr("N03", "N05"), Quick: d(0, 1, 2), Deep: d(0, 1, 2, 3), Body: gaveUp(2), Sec: 15, DeepS: 400})
	for _, op := range []string{"next", "send", "both", "pair"} {
		hx.Add(&hx.S{Name: "n03/close-" + op, Props: pr("N03", "N04"), Quick: c(0, 1, 2), Deep: c(0, 1, 2, 3), Body: closeRace(op, false), Sec: 12, DeepS: 400})
		hx.Add(&hx.S{Name: "n03/close-slow-" + op, Props: pr("N03", "N04"), Quick: c(0, 1, 2), Deep: c(0, 1, 2, 3), Body: closeRace(op, true), Sec: 12, DeepS: 400})
	}
	hx.Add(&hx.S{Name: "n03/loss-close", Props: pr("N03"), Quick: c(0, 1), Deep: c(0, 1, 2), Body: lossThenClose, Sec: 12, DeepS: 400})
	// N04
	for _, st := range states {
		hx.Add(&hx.S{Name: "n04/ends-" + st, Props: pr("N04"), Quick: d(0, 1, 2), Deep: d(0, 1, 2, 3), Body: ends(st), Sec: 10, DeepS: 300})
	}
	hx.Add(&hx.S{Name: "n04/crowd", Props: pr("N04"), Quick: vs.Config{Preempt: []int{0}, Delay: true, SpinLimit: 200000, MaxSteps: 400000}, Body: crowd(30), Sec: 10})
	hx.Add(&hx.S{Name: "n04/crowd-few", Props: pr("N04", "N02"), Quick: d(0, 1), Deep: d(0, 1, 2), Body: crowd(3), Sec: 12, DeepS: 300})
	for i := 0; i < 7; i++ {
		hx.Add(&hx.S{Name: fmt.Sprint("n04/races", i), Props: pr("N04"), Quick: c(0, 1, 2), Deep: c(0, 1, 2, 3), Body: races(i), Sec: 12, DeepS: 400})
	}
	hx.Add(&hx.S{Name: "n04/done-first", Props: pr("N04", "N01"), Quick: d(0, 1), Deep: d(0, 1, 2), Body: doneFirst, Sec: 10, DeepS: 200})
	hx.Add(&hx.S{Name: "n04/settle", Props: pr("N04", "N02"), Quick: c(0, 1, 2), Deep: c(0, 1, 2, 3), Body: settleLater, Sec: 10, DeepS: 300})
	hx.Add(&hx.S{Name: "n04/queued", Props: pr("N04"), Quick: c(0, 1, 2), Deep: c(0, 1, 2, 3), Body: queued, Sec: 12, DeepS: 300})
	// N05
	for i, cb := range []bool{false, true} {
		hx.Add(&hx.S{Name: fmt.Sprint("n05/policy", i), Props: pr("N05"), Quick: d(0, 1), Deep: d(0, 1, 2), Body: policy(4, cb), Sec: 15, DeepS: 400})
		hx.Add(&hx.S{Name: fmt.Sprint("n05/policy-short", i), Props: pr("N05"), Quick: d(0, 1, 2), Deep: d(0, 1, 2, 3), Body: policy(2, cb), Sec: 12, DeepS: 400})
		hx.Add(&hx.S{Name: fmt.Sprint("n05/policy-long", i), Props: pr("N05"), NoQ: true, Quick: d(0), Body: policy(6, cb), DeepS: 400})
		hx.Add(&hx.S{Name: fmt.Sprint("n05/exponential", i), Props: pr("N05", "N06"), Quick: d(0, 1), Deep: d(0, 1, 2), Body: exponential(cb), Sec: 10, DeepS: 200})
	}
	for i, cb := range []bool{false, true} {
		hx.Add(&hx.S{Name: fmt.Sprint("n05/outage", i), Props: pr("N05", "N01"), Quick: vs.Config{Preempt: []int{0}, Delay: true, MaxTime: int64(8 * time.Hour), MaxSteps: 400000, SpinLimit: 200000}, Body: outage(cb), Sec: 10})
	}
	hx.Add(&hx.S{Name: "n05/lateok", Props: pr("N05"), Quick: vs.Config{Preempt: []int{0, 1, 2}, ClockDev: 1}, Deep: vs.Config{Preempt: []int{0, 1, 2, 3}, ClockDev: 2}, Body: lateOK, Sec: 12, DeepS: 300})
	hx.Add(&hx.S{Name: "n05/instantly", Props: pr("N05"), Quick: d(0, 1, 2), Deep: d(0, 1, 2, 3), Body: instantly, Sec: 10, DeepS: 200})
	hx.Add(&hx.S{Name: "n05/cancelled", Props: pr("N05", "N03"), Quick: d(0, 1, 2), Deep: d(0, 1, 2, 3), Body: cancelled, Sec: 12, DeepS: 400})
	// N06
	hx.Add(&hx.S{Name: "n06/container", Props: pr("N06"), Quick: d(0, 1), Deep: d(0, 1, 2), Body: configured(false), Sec: 12, DeepS: 300})
	hx.Add(&hx.S{Name: "n06/factory", Props: pr("N06"), Quick: d(0, 1), Deep: d(0, 1, 2), Body: configured(true), Sec: 12, DeepS: 300})
	hx.Add(&hx.S{Name: "n06/independent", Props: pr("N06"), Quick: d(0, 1, 2), Deep: d(0, 1, 2, 3), Body: independent, Sec: 12, DeepS: 300})
	// N07
	for _, cr := range []int{0, 1} {
		hx.Add(&hx.S{Name: fmt.Sprint("n07/routed", cr), Props: pr("N07"), Quick: c(0, 1), Deep: c(0, 1, 2), Body: routed(cr), Sec: 12, DeepS: 400})
	}
	hx.Add(&hx.S{Name: "n07/closing", Props: pr("N07"), Quick: c(0, 1), Deep: c(0, 1, 2), Body: mockClosing, Sec: 15, DeepS: 400})
	hx.Add(&hx.S{Name: "n07/first", Props: pr("N07"), Quick: c(0, 1), Deep: c(0, 1, 2), Body: firstSubscriber, Sec: 12, DeepS: 400})
	hx.Add(&hx.S{Name: "n07/interrupted", Props: pr("N07"), Quick: vs.Config{Preempt: []int{0, 1, 2}, SelDev: true}, Body: interrupted(true), Sec: 10, DeepS: 200})
	hx.Add(&hx.S{Name: "n01/interrupted", Props: pr("N01"), Quick: vs.Config{Preempt: []int{0, 1, 2}, Delay: true, SelDev: true}, Deep: vs.Config{Preempt: []int{0, 1}, SelDev: true}, Body: interrupted(false), Sec: 10, DeepS: 200})
	hx.Add(&hx.S{Name: "n07/subscribing", Props: pr("N07"), Quick: c(0, 1, 2), Body: subscribing, Sec: 15, DeepS: 400})
	hx.Main()
}
