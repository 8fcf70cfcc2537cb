// Command tool checks the properties T01 to T05.
package main

import (
	"fmt"
	"time"

	"github.com/c-kruse/vanflow"

	"vmc/hx"
	"vmc/vs"
)

// d bounds the number of deviations from a deterministic schedule.
func d(n ...int) vs.Config {
	return vs.Config{Preempt: n, Delay: true, SelDev: true, SpinLimit: 60000, MaxSteps: 300000}
}

func long(n ...int) vs.Config {
	c := d(n...)
	c.MaxTime = int64(time.Hour)
	return c
}

// dev allows one timer to go off while there is something to do.
func dev(n ...int) vs.Config {
	c := d(n...)
	c.ClockDev = 1
	return c
}

func pr(p ...string) []string { return p }

func main() {
	hx.Heavy = []string{"t01/replay", "t01/versions", "t01/unusable", "t02/sequences", "t02/counts", "t02/concurrent-", "t03/records", "t04/flood"}
	hx.Add(&hx.S{Name: "t03/records", Argv: "serve", Props: pr("T03"), Quick: d(0, 1), Deep: d(0, 1, 2), Body: records, Sec: 13, DeepS: 300})
	hx.Add(&hx.S{Name: "t03/values", Argv: "serve", Props: pr("T03"), Quick: d(0, 1), Deep: d(0, 1, 2), Body: values, Sec: 13, DeepS: 300})
	hx.Add(&hx.S{Name: "t03/identities", Argv: "serve", Props: pr("T03"), Quick: d(0), Deep: d(0, 1), Body: identities, Sec: 13, DeepS: 300})
	hx.Add(&hx.S{Name: "t03/busy", Argv: "serve", Props: pr("T03"), Quick: d(0, 1), Deep: d(0, 1, 2), Body: busy, Sec: 13, DeepS: 600})
	hx.Add(&hx.S{Name: "t03/large", Argv: "serve", Props: pr("T03"), Quick: vs.Config{Preempt: []int{0}, Delay: true, SpinLimit: 2000000, MaxSteps: 4000000}, Body: large(1100), Sec: 10, DeepS: 60})
	hx.Add(&hx.S{Name: "t03/unread", Argv: "serve", Props: pr("T03"), Quick: d(0, 1), Deep: d(0, 1, 2), Body: unread, Sec: 10, DeepS: 200})
	hx.Add(&hx.S{Name: "t03/flush", Argv: "serve", Props: pr("T03"), Quick: d(0, 1), Deep: d(0, 1, 2), Body: flushes, Sec: 13, DeepS: 300})
	hx.Add(&hx.S{Name: "t03/comeandgo", Argv: "serve", Props: pr("T03"), Quick: long(0, 1), Deep: long(0, 1, 2), Body: comeAndGo, Sec: 13, DeepS: 300})
	hx.Add(&hx.S{Name: "t03/beacons", Argv: "serve", Props: pr("T03"), Quick: long(0), Deep: long(0, 1), Body: beacons, Sec: 13, DeepS: 300})
	hx.Add(&hx.S{Name: "t03/lost", Argv: "serve", Props: pr("T03"), Quick: d(0, 1), Deep: d(0, 1), Body: lost, Sec: 13, DeepS: 300})
	hx.Add(&hx.S{Name: "t03/shutdown", Argv: "serve", Props: pr("T03"), Quick: d(0, 1), Deep: d(0, 1, 2), Body: shutdown, Sec: 13, DeepS: 300})
	hx.Add(&hx.S{Name: "t03/without", Argv: "-include-flow-records=false -include-log-records=false serve", Props: pr("T03"), Quick: d(0, 1), Deep: d(0, 1, 2), Body: without, Sec: 10, DeepS: 100})
	hx.Add(&hx.S{Name: "t03/without-flows", Argv: "-include-flow-records=false serve", Props: pr("T03"), Quick: d(0, 1), Deep: d(0, 1, 2), Body: withoutOne(vanflow.LogRecord{}, ".logs"), Sec: 10, DeepS: 100})
	hx.Add(&hx.S{Name: "t03/without-logs", Argv: "-include-log-records=false serve", Props: pr("T03"), Quick: d(0, 1), Deep: d(0, 1, 2), Body: withoutOne(vanflow.FlowRecord{}, ".flows"), Sec: 10, DeepS: 100})
	hx.Add(&hx.S{Name: "t03/waiting", Argv: "serve", Props: pr("T03"), Quick: d(0, 1), Deep: d(0, 1, 2), Body: waiting, Sec: 10, DeepS: 200})
	hx.Add(&hx.S{Name: "t01/versions", Argv: "serve|fixture", Props: pr("T01"), Quick: d(0), Deep: d(0, 1, 2), Body: versions, Sec: 10, DeepS: 200})
	hx.Add(&hx.S{Name: "t01/types", Argv: "fixture", Props: pr("T01"), Quick: d(0, 1), Deep: d(0, 1, 2), Body: sourceTypes, Sec: 10, DeepS: 200})
	hx.Add(&hx.S{Name: "t01/two-types", Argv: "fixture", Props: pr("T01"), Quick: d(0), Deep: d(0, 1), Body: twoTypes, Sec: 10, DeepS: 200})
	hx.Add(&hx.S{Name: "t01/replay", Argv: "serve|fixture", Props: pr("T01"), Quick: d(0, 1), Deep: d(0, 1, 2), Body: replay, Sec: 18, DeepS: 400})
	hx.Add(&hx.S{Name: "t01/unusable", Argv: "fixture", Props: pr("T01"), Quick: d(0, 1), Deep: d(0, 1, 2), Body: unusable, Sec: 15, DeepS: 300})
	hx.Add(&hx.S{Name: "t01/malformed", Argv: "fixture", Props: pr("T01"), Quick: d(0, 1), Deep: d(0, 1, 2), Body: malformed, Sec: 15, DeepS: 300})
	hx.Add(&hx.S{Name: "t02/sequences", Argv: "fixture", Props: pr("T02"), Quick: d(0, 1), Body: sequences(2), Sec: 11, DeepS: 400})
	for _, k := range []string{"A", "B", "D"} {
		hx.Add(&hx.S{Name: "t02/sequences-" + k, Argv: "fixture", Props: pr("T02"), Quick: d(0, 1), Body: sequences(2, k), Sec: 11, DeepS: 400})
		hx.Add(&hx.S{Name: "t02/concurrent-" + k, Argv: "fixture", Props: pr("T02"), Quick: d(0, 1), Body: concurrent(k), Sec: 11, DeepS: 400})
	}
	hx.Add(&hx.S{Name: "t02/sequences-3", Argv: "fixture", Props: pr("T02"), NoQ: true, Quick: d(0, 1), Body: sequences(3), DeepS: 500})
	hx.Add(&hx.S{Name: "t02/concurrent", Argv: "fixture", Props: pr("T02"), Quick: d(0, 1), Body: concurrent(""), Sec: 11, DeepS: 400})
	hx.Add(&hx.S{Name: "t02/flows", Argv: "fixture", Props: pr("T02"), Quick: d(0), Deep: d(0, 1), Body: flowReplay([]int{1, 3, 12}, []int{0, 1, 2}, 1), Sec: 11, DeepS: 400})
	hx.Add(&hx.S{Name: "t02/flow", Argv: "fixture", Props: pr("T02"), Quick: d(0, 1), Deep: d(0, 1, 2), Body: flowReplay([]int{2}, []int{1}, 0), Sec: 11, DeepS: 400})
	hx.Add(&hx.S{Name: "t02/stopped", Argv: "fixture", Props: pr("T02"), Quick: long(0), Deep: long(0, 1), Body: stopped, Sec: 8, DeepS: 100})
	hx.Add(&hx.S{Name: "t02/counts", Argv: "fixture", Props: pr("T02"), Quick: dev(0, 1), Deep: dev(0, 1, 2), Body: counts, Sec: 11, DeepS: 300})
	hx.Add(&hx.S{Name: "t02/running", Argv: "fixture", Props: pr("T02"), Quick: d(0, 1), Deep: d(0, 1, 2), Body: turnsRunning, Sec: 11, DeepS: 300})
	hx.Add(&hx.S{Name: "t02/shutdown", Argv: "fixture", Props: pr("T02"), Quick: d(0, 1), Body: endFixture, Sec: 11, DeepS: 300})
	all := logFlags{recs: true, flows: true, logs: true}
	for i, f := range []struct {
		argv string
		f    logFlags
	}{
		{"log", all},
		{"-enable-heartbeats log", logFlags{true, true, false, true, true}},
		{"-enable-heartbeats -enable-records=false -flush-on-discover log", logFlags{true, false, true, true, true}},
		{"-flush-on-discover -include-flow-records=false log", logFlags{false, true, true, false, true}},
		{"-enable-heartbeats -include-log-records=false log", logFlags{true, true, false, true, false}},
	} {
		hx.Add(&hx.S{Name: fmt.Sprint("t04/messages", i), Argv: f.argv, Props: pr("T04"), Quick: d(0, 1), Deep: d(0, 1, 2), Body: logged(f.f, false), Sec: 13, DeepS: 300})
		hx.Add(&hx.S{Name: fmt.Sprint("t04/schedules", i), Argv: f.argv, Props: pr("T04"), Quick: d(0, 1), Deep: d(0, 1, 2), Body: logged(f.f, true), Sec: 13, DeepS: 300})
	}
	hx.Add(&hx.S{Name: "t04/flood", Argv: "log", Props: pr("T04"), Quick: d(0, 1), Deep: d(0, 1, 2), Body: flood, Sec: 13, DeepS: 300})
	hx.Add(&hx.S{Name: "t04/blocked", Argv: "log", Props: pr("T04"), Quick: d(0), Deep: d(0, 1), Body: blocked, Sec: 13, DeepS: 300})
	hx.Add(&hx.S{Name: "t04/comeandgo", Argv: "log", Props: pr("T04"), Quick: long(0, 1), Deep: long(0, 1, 2), Body: logComeAndGo, Sec: 13, DeepS: 300})
	for i, a := range []string{"nonsense", "", "log serve", "-server amqp://x:1", "-server http://router.local:80 log", "-server router.local:5671 serve", "-server amqp://router.local:port fixture", "-server=router.local log"} {
		hx.Add(&hx.S{Name: fmt.Sprint("t05/refused", i), Argv: a, Props: pr("T05"), Quick: d(0, 1), Deep: d(0, 1, 2), Body: refused, Sec: 5, DeepS: 60})
	}
	hx.Add(&hx.S{Name: "t05/server-log", Argv: "-server amqp://somewhere.else:1234 log", Props: pr("T05"), Quick: d(0, 1), Deep: d(0, 1, 2), Body: server("amqp://somewhere.else:1234"), Sec: 5, DeepS: 60})
	hx.Add(&hx.S{Name: "t05/server-serve", Argv: "-server=amqps://somewhere.else:1234 serve", Props: pr("T05"), Quick: d(0, 1), Deep: d(0, 1, 2), Body: server("amqps://somewhere.else:1234"), Sec: 5, DeepS: 60})
	hx.Add(&hx.S{Name: "t05/server-fixture", Argv: "-server amqp://somewhere.else:1234 fixture", Props: pr("T05"), Quick: d(0, 1), Deep: d(0, 1, 2), Body: fixtureDials("amqp://somewhere.else:1234"), Sec: 5, DeepS: 60})
	for i, a := range []string{"amqp://:5671", "amqp+ssl://host", "//host:5671"} {
		hx.Add(&hx.S{Name: fmt.Sprint("t05/usable", i), Argv: "-server " + a + " log", Props: pr("T05"), Quick: d(0), Deep: d(0, 1), Body: server(a), Sec: 5, DeepS: 60})
	}
	for _, c := range []string{"log", "serve"} {
		hx.Add(&hx.S{Name: "t05/messaging-" + c, Argv: "-messaging-config connect.json " + c, Props: pr("T05"), Quick: d(0, 1), Deep: d(0, 1, 2), Body: messaging, Sec: 10, DeepS: 100})
	}
	for _, c := range []string{"log", "serve", "fixture"} {
		hx.Add(&hx.S{Name: "t05/givenup-" + c, Argv: c, Props: pr("T05"), Quick: long(0, 1), Deep: long(0, 1, 2), Body: givenUp(c), Sec: 8, DeepS: 100})
	}
	hx.Add(&hx.S{Name: "t05/flags", Argv: "-server amqps://r:5671 -ca ca.crt -cert tls.crt -key tls.key log", Props: pr("T05"), Quick: d(0, 1), Deep: d(0, 1, 2), Body: flagsTLS(true), Sec: 10, DeepS: 100})
	hx.Add(&hx.S{Name: "t05/flags-unverified", Argv: "-server amqps://r:5671 -tls-verify=false -ca ca.crt -cert tls.crt -key tls.key serve", Props: pr("T05"), Quick: d(0, 1), Deep: d(0, 1, 2), Body: flagsTLS(false), Sec: 10, DeepS: 100})
	hx.Add(&hx.S{Name: "t05/flags-over", Argv: "-messaging-config connect.json -ca ca.crt log", Props: pr("T05"), Quick: d(0, 1), Deep: d(0, 1, 2), Body: flagsOver(true), Sec: 8, DeepS: 60})
	hx.Add(&hx.S{Name: "t05/flags-over-unverified", Argv: "-tls-verify=false -ca=ca.crt -messaging-config=connect.json serve", Props: pr("T05"), Quick: d(0, 1), Deep: d(0, 1, 2), Body: flagsOver(false), Sec: 8, DeepS: 60})
	hx.Add(&hx.S{Name: "t05/flags-ca", Argv: "-server amqps://r:5671 -ca ca.crt log", Props: pr("T05"), Quick: d(0, 1), Deep: d(0, 1, 2), Body: flagsCA, Sec: 8, DeepS: 60})
	hx.Add(&hx.S{Name: "t05/flags-no-ca", Argv: "-server amqps://r:5671 -cert tls.crt -key tls.key log", Props: pr("T05"), Quick: d(0, 1), Deep: d(0, 1, 2), Body: flagsNoCA, Sec: 8, DeepS: 60})
	for i, a := range []string{"-messaging-config connect.json -cert tls.crt serve", "-messaging-config connect.json -ca ca.crt -cert tls.crt log"} {
		hx.Add(&hx.S{Name: fmt.Sprint("t05/flags-no-key", i), Argv: a, Props: pr("T05"), Quick: d(0, 1), Deep: d(0, 1, 2), Body: flagsNoKey, Sec: 8, DeepS: 60})
	}
	hx.Main()
}
