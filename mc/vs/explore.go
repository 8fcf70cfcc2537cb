package vs

import (
	"fmt"
	"runtime"
	"runtime/debug"
	"sort"
	"time"
	"unsafe"
)

// Config bounds one scenario.
type Config struct {
	Preempt    []int // preemption (or delay) bounds to iterate; -1 is unbounded
	ClockDev   int   // bound on deviations of clock and environment
	Delay      bool  // delay bounding instead of preemption bounding
	Slow       bool  // with Delay: a deviation makes a goroutine slower than all others for good
	SelDev     bool  // choices of a select or among waiting partners beyond the first count as deviations
	TimerOrder bool  // enumerate the order of timers with equal deadlines
	MaxSteps   int
	SpinLimit  int
	MaxTime    int64 // virtual horizon in ns
	MaxExecs   int
	NoRace     bool
	NoCache    bool
	Desc       bool // map iteration in descending order
	MapPerm    bool // enumerate map iteration orders (up to 4 keys)
}

// Result of exploring one scenario.
type Result struct {
	Execs       int            `json:"executions"`
	Steps       int64          `json:"transitions"`
	States      int            `json:"states"`
	Pruned      int            `json:"pruned"`
	Diverged    int            `json:"diverged"`
	MaxDepth    int            `json:"max_depth"`
	Completed   []string       `json:"bounds_completed"`
	Exhaustive  bool           `json:"exhaustive"`
	Outcomes    map[string]int `json:"outcomes,omitempty"`
	NumOutcomes int            `json:"distinct_outcomes"`
	Violation   *Violation     `json:"violation,omitempty"`
	Choices     []int          `json:"choices,omitempty"`
	Bound       string         `json:"bound,omitempty"`
	Wall        float64        `json:"wall_s"`
	Replays     int            `json:"replays_checked"`
}

type explorer struct {
	cfg        Config
	bound      int
	clockBound int
	visited    map[uint64][]cost
	nvisit     int
	prefix     []int
	tracing    bool
	verbose    bool
	replay     bool
	diverged   int
	last       *exec
}

const maxVisited = 6_000_000

func (x *explorer) next(e *exec, n int, costs []cost, key uint64) (int, bool) {
	pos := len(e.choices)
	ch := 0
	if pos < len(x.prefix) {
		ch = x.prefix[pos]
		if ch >= n {
			ch = n - 1
			x.diverged++
		}
	} else if !x.replay && !x.cfg.NoCache {
		if x.seen(key, e.used) {
			return 0, true
		}
	}
	cp := cpoint{n: n, base: e.used, key: key}
	if costs != nil {
		nonzero := false
		for _, c := range costs {
			if c.p != 0 || c.c != 0 {
				nonzero = true
			}
		}
		if nonzero {
			cp.costs = append([]cost(nil), costs...)
			e.used.p += costs[ch].p
			e.used.c += costs[ch].c
		}
	}
	e.choices = append(e.choices, ch)
	e.points = append(e.points, cp)
	return ch, false
}

func (x *explorer) seen(key uint64, used cost) bool {
	l := x.visited[key]
	for _, u := range l {
		if u.p <= used.p && u.c <= used.c {
			return true
		}
	}
	if len(l) == 0 {
		if x.nvisit >= maxVisited {
			return false
		}
		x.nvisit++
	}
	keep := make([]cost, 0, 1)
	for _, u := range l {
		if !(used.p <= u.p && used.c <= u.c) {
			keep = append(keep, u)
		}
	}
	x.visited[key] = append(keep, used)
	return false
}

func (x *explorer) run(body func()) *exec {
	epoch++
	e := &exec{ctl: x, finished: make(chan struct{}, 1), killed: make(chan struct{}, 1),
		chans: map[unsafe.Pointer]*chanS{}, cells: map[unsafe.Pointer]*cell{}, local: map[string]any{}}
	e.clock.ini = true
	e.clock.h = 0xc10c4
	ex = e
	mapDesc = x.cfg.Desc
	g := newG(e, nil, "main")
	g.harness = true
	e.clockG = &G{num: -1, id: 2, name: "clock"}
	e.fp += mix(2, 0)
	e.cur = g
	startG(e, g, body)
	g.wake <- struct{}{}
	<-e.finished
	if e.reason == endDone {
		// main has returned: nothing else runs any more
	}
	e.dead = true
	for i := 0; i < len(e.gs); i++ {
		o := e.gs[i]
		if o.done {
			continue
		}
		e.cur = o
		e.ticks = 0
		e.moreTicks = 0
		o.wake <- struct{}{}
		<-e.killed
	}
	ex = nil
	x.last = e
	return e
}

// Explore enumerates the executions of body within the bounds of cfg.
func Explore(cfg Config, body func(), deadline time.Time) *Result {
	if cfg.MaxSteps == 0 {
		cfg.MaxSteps = 30000
	}
	if cfg.SpinLimit == 0 {
		cfg.SpinLimit = 6000
	}
	if cfg.MaxTime == 0 {
		cfg.MaxTime = int64(10 * time.Minute)
	}
	if cfg.MaxExecs == 0 {
		cfg.MaxExecs = 1 << 60
	}
	if len(cfg.Preempt) == 0 {
		cfg.Preempt = []int{-1}
	}
	t0 := time.Now()
	res := &Result{Outcomes: map[string]int{}, Exhaustive: true}
	x := &explorer{cfg: cfg}
	defer func() {
		res.Wall = time.Since(t0).Seconds()
		res.Diverged = x.diverged
		res.NumOutcomes = len(res.Outcomes)
		if x.diverged > 0 {
			res.Exhaustive = false
		}
	}()
	type level struct{ p, c int }
	var levels []level
	for _, p := range cfg.Preempt {
		if p < 0 {
			p = 1 << 14
		}
		if len(levels) == 0 && cfg.ClockDev > 0 {
			for c := 0; c < cfg.ClockDev; c++ {
				levels = append(levels, level{p, c})
			}
		}
		levels = append(levels, level{p, cfg.ClockDev})
	}
	for _, lv := range levels {
		x.bound, x.clockBound = lv.p, lv.c
		x.visited = map[uint64][]cost{}
		x.nvisit = 0
		x.prefix = nil
		complete := true
		within := func(u cost) bool { return int(u.p) <= lv.p && int(u.c) <= lv.c }
		for {
			e := x.run(body)
			res.Execs++
			res.Steps += int64(e.steps)
			if e.steps > res.MaxDepth {
				res.MaxDepth = e.steps
			}
			switch e.reason {
			case endPruned:
				res.Pruned++
			case endDone:
				sort.Strings(e.outcome)
				k := fmt.Sprint(e.outcome)
				if len(k) > 160 {
					k = fmt.Sprintf("%s...#%x", k[:140], hashString(k))
				}
				if len(res.Outcomes) < 5000 || res.Outcomes[k] > 0 {
					res.Outcomes[k]++
				}
			case endViolation:
				res.Violation = e.viol
				res.Choices = append([]int(nil), e.choices...)
				res.Bound = bname(lv.p, lv.c, cfg)
				res.Exhaustive = false
				if res.States < x.nvisit {
					res.States = x.nvisit
				}
				x.visited = nil
				return res
			}
			// backtrack
			pre := x.prefix
			choices, points := e.choices, e.points
			i := len(choices) - 1
			found := false
			for ; i >= 0 && !found; i-- {
				p := points[i]
				for alt := choices[i] + 1; alt < p.n; alt++ {
					u := p.base
					if p.costs != nil {
						u.p += p.costs[alt].p
						u.c += p.costs[alt].c
					}
					if within(u) {
						pre = append(append([]int(nil), choices[:i]...), alt)
						found = true
						break
					}
				}
			}
			if !found {
				break
			}
			x.prefix = pre
			if res.Execs >= cfg.MaxExecs || (res.Execs&15 == 0 && time.Now().After(deadline)) {
				complete = false
				break
			}
		}
		if x.nvisit > res.States {
			res.States = x.nvisit
		}
		if !complete || x.nvisit >= maxVisited {
			if !complete {
				res.Exhaustive = false
				break
			}
		}
		res.Completed = append(res.Completed, bname(lv.p, lv.c, cfg))
	}
	x.visited = nil
	// determinism: the last execution replayed must behave identically
	if x.last != nil && x.last.reason == endDone && x.diverged == 0 {
		first := x.last
		x.prefix, x.replay = first.choices, true
		again := x.run(body)
		res.Replays++
		if again.reason != first.reason || again.fp != first.fp || again.steps != first.steps {
			x.diverged++
		}
	}
	return res
}

func bname(p, c int, cfg Config) string {
	k := "preemptions"
	if cfg.Delay {
		k = "delays"
	}
	if cfg.Slow {
		k = "slowed goroutines"
	}
	s := fmt.Sprintf("%s<=%d", k, p)
	if p >= 1<<14 {
		s = k + "<=inf"
	}
	if cfg.ClockDev > 0 {
		s += fmt.Sprintf(",deviations<=%d", c)
	}
	return s
}

// Replay runs one execution and returns its violation and trace.
func Replay(cfg Config, body func(), choices []int, tracing bool) (*Violation, []string) {
	if cfg.MaxSteps == 0 {
		cfg.MaxSteps = 30000
	}
	if cfg.SpinLimit == 0 {
		cfg.SpinLimit = 6000
	}
	if cfg.MaxTime == 0 {
		cfg.MaxTime = int64(10 * time.Minute)
	}
	x := &explorer{cfg: cfg, bound: 1 << 14, clockBound: cfg.ClockDev, replay: true, tracing: tracing, verbose: true, prefix: choices}
	e := x.run(body)
	return e.viol, e.trace
}

func init() {
	runtime.GOMAXPROCS(1)
	debug.SetGCPercent(400)
}

// RunOnce runs body in a single execution without limits (used to enumerate
// sequential behaviours under the deadlock and panic detection of the
// runtime).
func RunOnce(body func()) *Violation {
	x := &explorer{cfg: Config{MaxSteps: 1 << 62, SpinLimit: 1 << 62, MaxTime: 1 << 62, NoRace: true, NoCache: true}, bound: 1 << 14, replay: true}
	return x.run(body).viol
}
