// Package hx is the frame of the harness binaries: scenarios register
// themselves, the driver (cmd/vmc) lists, explores and replays them, one
// process per scenario, told what to do by environment variables because the
// checked program may parse the command line.
package hx

import (
	"encoding/json"
	"fmt"
	"io"
	"log"
	"log/slog"
	"os"
	"strconv"
	"strings"
	"time"

	"vmc/vs"
)

// S is one scenario.
type S struct {
	Name  string
	Props []string  // properties it decides
	Quick vs.Config // bounds of the quick tier
	Deep  vs.Config // bounds of the thorough tier; zero: as Quick
	NoQ   bool      // thorough tier only
	Sec   float64   // time budget in the quick tier (default 5)
	DeepS float64   // time budget in the thorough tier (default 60)
	Argv  string    // command line of the checked program, \x1f separated
	Body  func()    // explored over all schedules and choices
	Enum  func(*E)  // explicit enumeration inside one execution
}

var all []*S

// Heavy are prefixes of the names of scenarios that are explored with slow
// goroutines in the thorough tier only.
var Heavy []string

// Add registers a scenario.
func Add(s *S) {
	if s.Deep.Preempt == nil && s.Body != nil {
		d := s.Quick
		if len(d.Preempt) > 0 && d.Preempt[len(d.Preempt)-1] >= 0 {
			d.Preempt = append(append([]int(nil), d.Preempt...), d.Preempt[len(d.Preempt)-1]+1)
		}
		s.Deep = d
	}
	if s.Sec == 0 {
		s.Sec = 5
	}
	if s.DeepS == 0 {
		s.DeepS = 60
	}
	all = append(all, s)
	q := s.Quick
	if s.Body == nil || !q.Delay || q.Slow || s.NoQ || q.Preempt[len(q.Preempt)-1] == 0 {
		return
	}
	// the same with goroutines that are slower than all others
	t := *s
	t.Name += "~slow"
	t.Quick.Slow, t.Quick.SelDev, t.Quick.Preempt = true, true, []int{0, 1}
	t.Deep = t.Quick
	t.Deep.Preempt = []int{0, 1, 2}
	for _, h := range Heavy {
		if strings.HasPrefix(s.Name, h) {
			t.NoQ = true
		}
	}
	all = append(all, &t)
}

// Info about a scenario for the driver.
type Info struct {
	Name  string
	Props []string
	NoQ   bool
	Sec   float64
	DeepS float64
	Argv  string
}

// Out is what a worker reports.
type Out struct {
	Scenario string
	Kind     string // "explore" or "enum"
	Result   *vs.Result
	Samples  []string
	Trace    []string
	Err      string
}

// E is an explicit enumeration.
type E struct {
	Deep        bool
	States      int
	Transitions int64
	Execs       int
	deadline    time.Time
	capped      bool
	samples     []string
	cur         func() string
	part, parts int
	n           int
}

// Over reports that time is up; the enumeration is then not exhaustive.
func (e *E) Over() bool {
	e.n++
	if e.n&63 == 0 && time.Now().After(e.deadline) {
		e.capped = true
	}
	return e.capped
}

// Cap marks the enumeration as incomplete.
func (e *E) Cap() { e.capped = true }

// Sample keeps a few examples of what was covered.
func (e *E) Sample(f string, a ...any) {
	if len(e.samples) < 12 {
		e.samples = append(e.samples, fmt.Sprintf(f, a...))
	}
}

// Input describes the input being checked, for reports.
func (e *E) Input(f func() string) { e.cur = f; e.Execs++; vs.ResetTicks() }

// Fail reports a violation for the current input.
func (e *E) Fail(f string, a ...any) {
	vs.Fail("assert", "%s", fmt.Sprintf(f, a...))
}

// Try runs f and returns its panic, if any, as an error text.
func Try(f func()) (p string) {
	defer func() {
		if vs.Dead() {
			return
		}
		if r := recover(); r != nil {
			p = fmt.Sprint(r)
		}
	}()
	f()
	return ""
}

// Main runs the binary.
func Main() {
	slog.SetDefault(slog.New(slog.NewTextHandler(io.Discard, &slog.HandlerOptions{Level: slog.LevelError + 100})))
	log.SetOutput(io.Discard)
	switch os.Getenv("VMC_MODE") {
	case "list":
		var l []Info
		for _, s := range all {
			l = append(l, Info{s.Name, s.Props, s.NoQ, s.Sec, s.DeepS, s.Argv})
		}
		write(l)
	case "run":
		run(os.Getenv("VMC_SCEN"), false)
	case "replay":
		run(os.Getenv("VMC_SCEN"), true)
	default:
		fmt.Fprintln(os.Stderr, "not meant to be run by hand; see /verif/check")
		for _, s := range all {
			fmt.Fprintln(os.Stderr, s.Name, s.Props)
		}
		os.Exit(3)
	}
}

func write(v any) {
	b, err := json.Marshal(v)
	if err != nil {
		panic(err)
	}
	p := os.Getenv("VMC_OUT")
	if p == "" {
		os.Stdout.Write(append(b, '\n'))
		return
	}
	if err := os.WriteFile(p+".tmp", b, 0o644); err != nil {
		panic(err)
	}
	os.Rename(p+".tmp", p)
}

func run(name string, replay bool) {
	var s *S
	for _, x := range all {
		if x.Name == name {
			s = x
		}
	}
	if s == nil {
		write(Out{Scenario: name, Err: "no such scenario"})
		return
	}
	deep := os.Getenv("VMC_TIER") == "thorough"
	secs, _ := strconv.ParseFloat(os.Getenv("VMC_SECS"), 64)
	if secs == 0 {
		secs = 10
	}
	deadline := time.Now().Add(time.Duration(secs * float64(time.Second)))
	out := Out{Scenario: name}
	if s.Enum != nil {
		out.Kind = "enum"
		t0 := time.Now()
		e := &E{Deep: deep, deadline: deadline}
		v := vs.RunOnce(func() { s.Enum(e) })
		if v != nil && e.cur != nil {
			v.Msg += "; input: " + e.cur()
		}
		out.Result = &vs.Result{Execs: e.Execs, Steps: e.Transitions, States: e.States, Exhaustive: !e.capped && v == nil, Violation: v, Wall: time.Since(t0).Seconds()}
		out.Samples = e.samples
		write(out)
		return
	}
	out.Kind = "explore"
	cfg := s.Quick
	if deep {
		cfg = s.Deep
	}
	if replay {
		var choices []int
		for _, f := range strings.Split(os.Getenv("VMC_CHOICES"), ",") {
			if f != "" {
				n, _ := strconv.Atoi(f)
				choices = append(choices, n)
			}
		}
		v, tr := vs.Replay(cfg, s.Body, choices, true)
		out.Result = &vs.Result{Violation: v}
		out.Trace = tr
		write(out)
		return
	}
	out.Result = vs.Explore(cfg, s.Body, deadline)
	n := 0
	for k := range out.Result.Outcomes {
		if n++; n > 6 {
			break
		}
		out.Samples = append(out.Samples, k)
	}
	out.Result.Outcomes = nil
	write(out)
}

// P is a list of preemption bounds.
func P(n ...int) []int { return n }
