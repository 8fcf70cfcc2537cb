// The vancap harness runs the capture command against a cluster that answers
// in every way it may.
package main

import (
	"fmt"

	"vmc/hx"
	"vmc/vs"
)

func cfg(dev int, p ...int) vs.Config {
	return vs.Config{Preempt: p, ClockDev: dev, Delay: true, SelDev: true, MaxTime: int64(40 * 60 * sec), MaxSteps: 200000}
}

func main() {
	v1 := []string{"V01"}
	v2 := []string{"V02"}
	both := []string{"V01", "V02"}
	add := func(name string, props []string, q, d vs.Config, o setup, sec, deep float64) {
		hx.Add(&hx.S{Name: name, Props: props, Quick: q, Deep: d, Body: capture(o), Sec: sec, DeepS: deep})
	}
	for n := 1; n <= 6; n++ {
		q := cfg(0, 0)
		hx.Add(&hx.S{Name: fmt.Sprint("faults", n), Props: both, Quick: q, Deep: q, NoQ: n == 3 || n == 4 || n == 5, Body: capture(setup{faults: n}), Sec: 18, DeepS: 500})
	}
	add("schedules", both, cfg(0, 0, 1, 2, 3), cfg(0, 0, 1, 2, 3, 4, 5), setup{faults: 1}, 18, 500)
	add("schedules2", both, cfg(0, 0, 1, 2), cfg(0, 0, 1, 2, 3, 4), setup{faults: 2}, 18, 500)
	add("clock", both, cfg(1, 0, 1), cfg(3, 0, 1), setup{faults: 1, clock: true}, 18, 500)
	add("foreign", v1, cfg(0, 0), cfg(1, 0, 1), setup{foreign: true, faults: 2}, 10, 200)
	add("interrupted", v1, cfg(0, 0, 1, 2, 3), cfg(0, 0, 1, 2, 3, 4), setup{interrupt: true, faults: 1}, 18, 500)
	add("never-ready", v1, cfg(0, 0), cfg(0, 0), setup{never: true, faults: 2}, 10, 200)
	add("files", v1, cfg(0, 0), cfg(0, 0, 1), setup{files: true, faults: 2}, 10, 200)
	add("hosts", v2, cfg(0, 0), cfg(0, 0), setup{hosts: true, faults: 1}, 10, 200)
	add("pods", v2, cfg(0, 0), cfg(0, 0), setup{pods: true, faults: 1}, 10, 200)
	add("durations", v2, cfg(0, 0), cfg(0, 0, 1), setup{durations: true, faults: 1}, 10, 200)
	hx.Add(&hx.S{Name: "main", Argv: "-tag t1 -duration 5s out.json", Props: both, Quick: cfg(0, 0, 1), Deep: cfg(0, 0, 1, 2), Body: capture(setup{main: true, faults: 2}), Sec: 10, DeepS: 200})
	hx.Add(&hx.S{Name: "main-unusable", Argv: "-duration 5s out.json", Props: both, Quick: cfg(0, 0), Body: unusable, Sec: 10, DeepS: 200})
	for i, a := range []string{"", "out.json other.json", "-duration 5parsecs out.json"} {
		hx.Add(&hx.S{Name: fmt.Sprint("main-args", i), Argv: a, Props: v1, Quick: cfg(0, 0), Body: badArgs, Sec: 10, DeepS: 200})
	}
	hx.Main()
}
