// Command vmc checks properties of the repository by model checking its
// instrumented code.
//
//	vmc check <property> quick|thorough
//	vmc replay <file>
//	vmc setup
package main

import (
	"encoding/json"
	"errors"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"

	"vmc/build"
	"vmc/hx"
	"vmc/vs"
)

var verif = "/verif"
var repo = "/repo"

// area is a harness binary and the properties it decides.
type area struct {
	name         string
	props        []string
	tool, vancap bool
}

var areas = []area{
	{name: "enc", props: []string{"C01", "C02", "C03"}},
	{name: "store", props: []string{"S01", "S02", "S03", "S04", "S05", "S06", "S07"}},
	{name: "eventsource", props: []string{"E01", "E02", "E03", "E04", "E05", "E06", "E07", "E08", "E09", "E10", "E11", "E12"}},
	{name: "session", props: []string{"N01", "N02", "N03", "N04", "N05", "N06", "N07"}},
	{name: "tool", props: []string{"T01", "T02", "T03", "T04", "T05"}, tool: true},
	{name: "vancap", props: []string{"V01", "V02"}, vancap: true},
}

func areaOf(prop string) *area {
	for i := range areas {
		for _, p := range areas[i].props {
			if p == prop {
				return &areas[i]
			}
		}
	}
	return nil
}

func main() {
	if v := os.Getenv("VERIF_DIR"); v != "" {
		verif = v
	}
	if v := os.Getenv("VERIF_REPO"); v != "" {
		repo = v
	}
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: vmc check|replay|setup|build ...")
		os.Exit(2)
	}
	switch os.Args[1] {
	case "check":
		tier := "quick"
		if len(os.Args) > 3 {
			tier = os.Args[3]
		}
		os.Exit(check(os.Args[2], tier))
	case "replay":
		os.Exit(replay(os.Args[2]))
	case "setup":
		for _, a := range areas {
			if len(os.Args) > 2 && os.Args[2] != a.name {
				continue
			}
			w, _ := os.MkdirTemp("", "vmc")
			t0 := time.Now()
			_, err := build1(&a, w, true)
			fmt.Printf("build %s: %.1fs %v\n", a.name, time.Since(t0).Seconds(), err)
			os.RemoveAll(w)
		}
	case "build":
		a := areaByName(os.Args[2])
		if _, err := build1(a, os.Args[3], len(os.Args) < 5); err != nil {
			fmt.Println(err)
			os.Exit(1)
		}
	}
}

func areaByName(n string) *area {
	for i := range areas {
		if areas[i].name == n {
			return &areas[i]
		}
	}
	return &area{name: n}
}

func build1(a *area, work string, mem bool) (string, error) {
	return build.Build(build.Options{Repo: repo, MC: filepath.Join(verif, "mc"), Work: work, Harness: a.name, Mem: mem, Tool: a.tool, Vancap: a.vancap})
}

// build2 falls back to instrumentation without memory accesses.
func build2(a *area, work string) (bin string, mem bool, err error) {
	bin, err = build1(a, work, true)
	if err == nil {
		return bin, true, nil
	}
	if errors.Is(err, build.ErrRepo) {
		return "", false, err
	}
	first := err
	bin, err = build1(a, work, false)
	if err != nil {
		err = fmt.Errorf("%v\n(and with memory instrumentation: %v)", err, first)
	} else {
		fmt.Fprintf(os.Stderr, "note: memory instrumentation failed, race detection is off: %v\n", first)
	}
	return bin, false, err
}

func worker(bin, dir string, timeout time.Duration, env map[string]string, argv string) (*hx.Out, []byte, error) {
	out := filepath.Join(dir, fmt.Sprintf("out-%d", time.Now().UnixNano())+env["VMC_SCEN"])
	out = filepath.Join(dir, strings.Map(func(r rune) rune {
		if r == '/' || r == ' ' {
			return '_'
		}
		return r
	}, filepath.Base(out)))
	errf := out + ".err"
	ef, err := os.Create(errf)
	if err != nil {
		return nil, nil, err
	}
	defer os.Remove(errf)
	defer os.Remove(out)
	scratch := out + ".d"
	os.MkdirAll(scratch, 0o755)
	defer os.RemoveAll(scratch)
	c := exec.Command(bin)
	c.Dir = scratch
	c.Stderr = ef
	c.Env = append(os.Environ(), "VMC_OUT="+out, "VMC_ARGV="+argv, "VMC_SCRATCH="+scratch, "GOTRACEBACK=single", "GOMAXPROCS=1", "GOMEMLIMIT=2500MiB")
	for k, v := range env {
		c.Env = append(c.Env, k+"="+v)
	}
	c.SysProcAttr = &syscall.SysProcAttr{Setpgid: true, Pdeathsig: syscall.SIGKILL}
	if err := c.Start(); err != nil {
		ef.Close()
		return nil, nil, err
	}
	t := time.AfterFunc(timeout, func() { syscall.Kill(-c.Process.Pid, syscall.SIGKILL) })
	werr := c.Wait()
	timedOut := !t.Stop()
	ef.Close()
	b, rerr := os.ReadFile(out)
	eb, _ := os.ReadFile(errf)
	if len(eb) > 6000 {
		eb = append(eb[:4000:4000], eb[len(eb)-2000:]...)
	}
	if rerr != nil {
		if timedOut {
			return nil, eb, errTimeout
		}
		return nil, eb, fmt.Errorf("worker died: %v", werr)
	}
	o := &hx.Out{}
	if err := json.Unmarshal(b, o); err != nil {
		return nil, eb, err
	}
	return o, eb, nil
}

var errTimeout = errors.New("worker timed out")

func list(bin, dir string) ([]hx.Info, error) {
	out := filepath.Join(dir, "list.json")
	c := exec.Command(bin)
	c.Env = append(os.Environ(), "VMC_MODE=list", "VMC_OUT="+out, "VMC_ARGV=vanflow-tool")
	c.Dir = dir
	if b, err := c.CombinedOutput(); err != nil {
		return nil, fmt.Errorf("list: %v %s", err, b)
	}
	b, err := os.ReadFile(out)
	if err != nil {
		return nil, err
	}
	var l []hx.Info
	return l, json.Unmarshal(b, &l)
}

type known struct {
	Property string `json:"property"`
	Scenario string `json:"scenario"`
	Kind     string `json:"kind"`
	Match    string `json:"match"`
	What     string `json:"what"`
	Status   string `json:"status"` // "open"; entries "fixed: ..." suppress nothing
}

func knownFindings() []known {
	b, err := os.ReadFile(filepath.Join(verif, "known_findings.json"))
	if err != nil {
		return nil
	}
	var f struct {
		Findings []known `json:"findings"`
	}
	if err := json.Unmarshal(b, &f); err != nil {
		fmt.Fprintln(os.Stderr, "known_findings.json:", err)
	}
	return f.Findings
}

func (k known) matches(prop, scen string, v *vs.Violation) bool {
	return k.Status == "open" && k.Property == prop && k.Scenario == scen && (k.Kind == "" || k.Kind == v.Kind) && k.Match != "" && strings.Contains(v.Msg, k.Match)
}

type result struct {
	info  hx.Info
	out   *hx.Out
	err   error
	note  string
	viol  *vs.Violation
	known *known
}

func check(prop, tier string) int {
	t0 := time.Now()
	a := areaOf(prop)
	if a == nil {
		fmt.Fprintln(os.Stderr, "unknown property", prop)
		return 2
	}
	work, err := os.MkdirTemp("", "vmc-"+prop+"-")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	defer os.RemoveAll(work)
	bin, mem, err := build2(a, work)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	built := time.Since(t0)
	infos, err := list(bin, work)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	var todo []hx.Info
	only := os.Getenv("VMC_ONLY")
	for _, i := range infos {
		use := false
		for _, p := range i.Props {
			use = use || p == prop
		}
		if !use || i.NoQ && tier == "quick" || only != "" && !strings.Contains(i.Name, only) {
			continue
		}
		todo = append(todo, i)
	}
	if len(todo) == 0 {
		fmt.Fprintln(os.Stderr, "no scenarios for", prop)
		return 2
	}
	secs := func(i hx.Info) float64 {
		if tier == "thorough" {
			return i.DeepS
		}
		return i.Sec
	}
	sort.SliceStable(todo, func(x, y int) bool { return secs(todo[x]) > secs(todo[y]) })
	limit := 240 * time.Second // hard limit for starting scenarios in the quick tier
	if tier == "thorough" {
		limit = 780 * time.Second
	}
	ks := knownFindings()
	results := make([]*result, len(todo))
	var mu sync.Mutex
	var wg sync.WaitGroup
	next := 0
	stop := false
	nw := 8
	if s := os.Getenv("VMC_WORKERS"); s != "" {
		nw, _ = strconv.Atoi(s)
	}
	for w := 0; w < nw; w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for {
				mu.Lock()
				if stop || next >= len(todo) {
					mu.Unlock()
					return
				}
				n := next
				next++
				mu.Unlock()
				i := todo[n]
				r := &result{info: i}
				results[n] = r
				left := limit - time.Since(t0)
				if left < 2*time.Second {
					r.note = "skipped: out of time"
					continue
				}
				s := secs(i)
				if s > left.Seconds() {
					s = left.Seconds()
				}
				runScenario(r, bin, work, tier, s)
				if r.viol != nil {
					for k := range ks {
						if ks[k].matches(prop, i.Name, r.viol) {
							r.known = &ks[k]
						}
					}
					if r.known == nil {
						mu.Lock()
						stop = true
						mu.Unlock()
					}
				}
			}
		}()
	}
	wg.Wait()
	// report
	code := 0
	ex := true
	var states, trans int64
	execs := 0
	var samples []any
	var scen []any
	for _, r := range results {
		if r == nil {
			ex = false
			continue
		}
		m := map[string]any{"scenario": r.info.Name}
		if r.note != "" {
			m["note"] = r.note
			ex = false
		}
		if r.out != nil && r.out.Result != nil {
			res := r.out.Result
			states += int64(res.States)
			trans += res.Steps
			execs += res.Execs
			if !res.Exhaustive && r.known == nil {
				ex = false
			}
			m["kind"], m["executions"], m["states"], m["transitions"], m["exhaustive"], m["wall_s"] = r.out.Kind, res.Execs, res.States, res.Steps, res.Exhaustive, res.Wall
			if r.out.Kind == "explore" {
				m["bounds_completed"], m["distinct_outcomes"], m["pruned"], m["max_depth"], m["diverged"] = res.Completed, res.NumOutcomes, res.Pruned, res.MaxDepth, res.Diverged
			}
			for k, s := range r.out.Samples {
				if k < 3 && len(samples) < 40 {
					samples = append(samples, r.info.Name+": "+s)
				}
			}
			if os.Getenv("VMC_V") != "" {
				fmt.Printf("%-40s %s execs=%d states=%d steps=%d outcomes=%d exh=%v pruned=%d depth=%d div=%d %.1fs %v %s\n", r.info.Name, r.out.Kind, res.Execs, res.States, res.Steps, res.NumOutcomes, res.Exhaustive, res.Pruned, res.MaxDepth, res.Diverged, res.Wall, res.Completed, r.note)
			}
		} else if os.Getenv("VMC_V") != "" {
			fmt.Printf("%-40s %v %s\n", r.info.Name, r.err, r.note)
		}
		scen = append(scen, m)
		if r.viol != nil {
			if r.known != nil {
				fmt.Printf("KNOWN-FINDING: property=%s %s\n", prop, r.known.What)
				continue
			}
			p := writeReplay(prop, tier, r)
			if code == 0 {
				fmt.Printf("VIOLATION property=%s replay=%s\n", prop, p)
				fmt.Printf("scenario %s: %s: %s\n%s\n", r.info.Name, r.viol.Kind, r.viol.Msg, r.viol.Detail)
			}
			code = 1
		}
	}
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	if len(samples) == 0 {
		samples = append(samples, "no executions")
	}
	evidence := map[string]any{
		"property": prop, "tier": tier, "seed": seed, "level": "model_checking",
		"coverage": map[string]any{
			"states": states, "transitions": trans, "traces_validated_against_impl": execs, "samples": samples,
			"exhaustive": ex, "executions": execs, "race_detection": mem, "scenarios": scen, "build_s": built.Seconds(),
		},
		"wall_s": time.Since(t0).Seconds(),
	}
	b, _ := json.MarshalIndent(evidence, "", " ")
	os.MkdirAll(filepath.Join(verif, "evidence"), 0o755)
	if err := os.WriteFile(filepath.Join(verif, "evidence", prop+".json"), b, 0o644); err != nil {
		fmt.Fprintln(os.Stderr, err)
	}
	if code == 0 {
		fmt.Printf("%s %s: held on everything explored: %d scenarios, %d executions, %d states, %d transitions, exhaustive within bounds: %v, %.1fs (build %.1fs)\n", prop, tier, len(todo), execs, states, trans, ex, time.Since(t0).Seconds(), built.Seconds())
	}
	return code
}

// runScenario explores one scenario and confirms a violation by replaying it.
func runScenario(r *result, bin, work, tier string, secs float64) {
	env := map[string]string{"VMC_MODE": "run", "VMC_SCEN": r.info.Name, "VMC_TIER": tier, "VMC_SECS": fmt.Sprint(secs)}
	slack := 45 * time.Second
	run := func() (*hx.Out, []byte, error) {
		return worker(bin, work, time.Duration(secs*float64(time.Second))+slack, env, r.info.Argv)
	}
	o, eb, err := run()
	r.out, r.err = o, err
	if err != nil {
		if err == errTimeout {
			r.note = "worker exceeded its time without a verdict"
			return
		}
		// a crash of the whole process: believed only if it is reproducible
		// and came out of the checked code
		for k := 0; k < 3; k++ {
			_, eb2, err2 := run()
			if err2 == nil || err2 == errTimeout || firstLine(eb2) != firstLine(eb) {
				r.note = "worker died once: " + firstLine(eb)
				return
			}
		}
		l := firstLine(eb)
		if strings.Contains(string(eb), "c-kruse/vanflow") && (strings.HasPrefix(l, "fatal error: stack overflow") || strings.HasPrefix(l, "runtime: goroutine stack exceeds") || strings.HasPrefix(l, "fatal error: concurrent map")) {
			r.viol = &vs.Violation{Kind: "crash", Msg: l, Detail: string(eb)}
		} else {
			r.note = "worker died: " + l
		}
		return
	}
	if o.Err != "" {
		r.note = o.Err
		return
	}
	v := o.Result.Violation
	if v == nil {
		return
	}
	if v.Kind == "harness" {
		r.note = "harness: " + v.Msg
		o.Result.Exhaustive = false
		return
	}
	// confirm
	for k := 0; k < 5; k++ {
		var v2 *vs.Violation
		if o.Kind == "enum" {
			if k >= 1 { // the enumeration is deterministic; once more is enough
				break
			}
			o2, _, err := run()
			if err != nil {
				r.note = fmt.Sprintf("unconfirmed violation (%v): %s", err, v.Msg)
				return
			}
			v2 = o2.Result.Violation
		} else {
			e2 := map[string]string{"VMC_MODE": "replay", "VMC_SCEN": r.info.Name, "VMC_TIER": tier, "VMC_CHOICES": joinInts(o.Result.Choices)}
			o2, _, err := worker(bin, work, 60*time.Second, e2, r.info.Argv)
			if err != nil {
				r.note = fmt.Sprintf("unconfirmed violation (%v): %s", err, v.Msg)
				return
			}
			v2 = o2.Result.Violation
			if len(o2.Trace) > 0 {
				v.Trace = o2.Trace
			}
		}
		if v2 == nil || v2.Kind != v.Kind {
			r.note = "unconfirmed violation (not reproducible): " + v.Msg
			o.Result.Exhaustive = false
			return
		}
	}
	r.viol = v
}

func firstLine(b []byte) string {
	s := string(b)
	if i := strings.IndexByte(s, '\n'); i >= 0 {
		s = s[:i]
	}
	return s
}

func joinInts(l []int) string {
	var b strings.Builder
	for i, n := range l {
		if i > 0 {
			b.WriteByte(',')
		}
		b.WriteString(strconv.Itoa(n))
	}
	return b.String()
}

type replayFile struct {
	Property  string        `json:"property"`
	Area      string        `json:"area"`
	Scenario  string        `json:"scenario"`
	Tier      string        `json:"tier"`
	Kind      string        `json:"kind"`
	Choices   []int         `json:"choices"`
	Bound     string        `json:"bound"`
	Violation *vs.Violation `json:"violation"`
}

func writeReplay(prop, tier string, r *result) string {
	dir := filepath.Join(verif, "replays")
	os.MkdirAll(dir, 0o755)
	p := filepath.Join(dir, prop+"-"+strings.NewReplacer("/", "_", " ", "_").Replace(r.info.Name)+".json")
	f := replayFile{Property: prop, Area: areaOf(prop).name, Scenario: r.info.Name, Tier: tier, Violation: r.viol}
	if r.out != nil {
		f.Kind = r.out.Kind
		f.Choices, f.Bound = r.out.Result.Choices, r.out.Result.Bound
	}
	b, _ := json.MarshalIndent(f, "", " ")
	os.WriteFile(p, b, 0o644)
	return p
}

func replay(file string) int {
	b, err := os.ReadFile(file)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	var f replayFile
	if err := json.Unmarshal(b, &f); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	work, _ := os.MkdirTemp("", "vmc-replay-")
	defer os.RemoveAll(work)
	a := areaByName(f.Area)
	bin, _, err := build2(a, work)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	infos, _ := list(bin, work)
	argv := ""
	for _, i := range infos {
		if i.Name == f.Scenario {
			argv = i.Argv
		}
	}
	env := map[string]string{"VMC_MODE": "replay", "VMC_SCEN": f.Scenario, "VMC_TIER": f.Tier, "VMC_CHOICES": joinInts(f.Choices)}
	if f.Kind == "enum" {
		env["VMC_MODE"], env["VMC_SECS"] = "run", "60"
	}
	o, eb, err := worker(bin, work, 120*time.Second, env, argv)
	if err != nil {
		fmt.Println(err, string(eb))
		return 2
	}
	for _, l := range o.Trace {
		fmt.Println(l)
	}
	if v := o.Result.Violation; v != nil {
		fmt.Printf("VIOLATION property=%s replay=%s\n%s: %s\n%s\n", f.Property, file, v.Kind, v.Msg, v.Detail)
		return 1
	}
	fmt.Println("no violation")
	return 0
}
