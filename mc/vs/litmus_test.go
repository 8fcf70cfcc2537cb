package vs_test

// The explorer against an independent interpreter of Go's semantics: for every
// small program of a family the set of outcomes that the explorer finds must
// be the set of outcomes of the interpreter, and pruning must not change the
// set at any bound.

import (
	"fmt"
	"os"
	"sort"
	"strings"
	"testing"
	"time"

	"vmc/vs"
	"vmc/vtime"
)

// ops: "s0"/"s1" send on the unbuffered/buffered channel, "r0"/"r1" receive,
// "S0"/"S1" send or default, "R0"/"R1" receive or default, "c0"/"c1" close,
// "x" receive from either, "y" send to either, "l"/"u" lock, unlock, "w"
// write own number to a variable, "g" read it, "z"/"Z" sleep 1/2.
var allOps = []string{"s0", "s1", "r0", "r1", "S0", "S1", "R0", "R1", "c0", "c1", "x", "y", "l", "w", "g", "z", "Z"}

// ---- on the explorer

func body(prog [][]string) func() {
	return func() {
		c := [2]chan int{make(chan int), make(chan int, 1)}
		var mu vs.Mutex
		var rw vs.RWMutex
		var o vs.Obj
		v := 0
		rec := make([]string, len(prog))
		for i, ops := range prog {
			vs.Go(func() {
				defer func() {
					if r := recover(); r != nil {
						rec[i] += "!"
					}
				}()
				for k, op := range ops {
					n := 10*(i+1) + k
					switch op {
					case "s0", "s1":
						vs.SendTo(c[op[1]-'0'])(n)
						rec[i] += "s "
					case "r0", "r1":
						rec[i] += fmt.Sprint(vs.Recv(c[op[1]-'0']), " ")
					case "S0", "S1":
						if vs.Select(true, vs.SendCase(c[op[1]-'0'])(n)) == 0 {
							rec[i] += "s "
						} else {
							rec[i] += "d "
						}
					case "R0", "R1":
						rc := vs.RecvCase(c[op[1]-'0'])
						if vs.Select(true, rc) == 0 {
							rec[i] += fmt.Sprint(rc.Val(), " ")
						} else {
							rec[i] += "d "
						}
					case "c0", "c1":
						vs.Close(c[op[1]-'0'])
						rec[i] += "c "
					case "x":
						a, b := vs.RecvCase(c[0]), vs.RecvCase(c[1])
						if vs.Select(false, a, b) == 0 {
							rec[i] += fmt.Sprint("a", a.Val(), " ")
						} else {
							rec[i] += fmt.Sprint("b", b.Val(), " ")
						}
					case "y":
						rec[i] += fmt.Sprint("y", vs.Select(false, vs.SendCase(c[0])(n), vs.SendCase(c[1])(n)), " ")
					case "l":
						mu.Lock()
						rec[i] += "l "
					case "u":
						mu.Unlock()
						rec[i] += "u "
					case "L":
						rw.Lock()
						rec[i] += "L "
					case "U":
						rw.Unlock()
					case "q":
						rw.RLock()
						rec[i] += "q "
					case "Q":
						rw.RUnlock()
					case "w":
						o.Write("v")
						v = n
					case "g":
						o.Read("v")
						rec[i] += fmt.Sprint("v", v, " ")
					case "z", "Z":
						vtime.Sleep(map[string]time.Duration{"z": time.Second, "Z": 2 * time.Second}[op] + time.Duration(i)*time.Millisecond)
						rec[i] += fmt.Sprint("@", int(vs.Elapsed()/time.Millisecond), " ")
					}
				}
				rec[i] += "."
			})
		}
		vs.Quiesce()
		vtime.Sleep(time.Minute)
		vs.Quiesce()
		vs.Outcome("%s v%d", strings.Join(rec, "|"), v)
	}
}

// ---- reference

type waiter struct {
	g    int
	n    int // value sent
	kind byte
}

type ref struct {
	prog [][]string
	pc   []int
	st   []byte // 'r'unnable, 'b'locked, 'z' sleeping, 'e'nded
	wake []int
	rec  []string
	buf  []int
	shut [2]bool
	rq   [2][]waiter
	sq   [2][]waiter
	held bool
	v    int
	now  int
	// read-write lock
	writer  int // 0: none
	readers int
	waitR   []int
	waitW   bool // the writer waits for readers
}

func (s *ref) clone() *ref {
	t := *s
	t.pc = append([]int(nil), s.pc...)
	t.st = append([]byte(nil), s.st...)
	t.wake = append([]int(nil), s.wake...)
	t.rec = append([]string(nil), s.rec...)
	t.buf = append([]int(nil), s.buf...)
	t.waitR = append([]int(nil), s.waitR...)
	for i := range s.rq {
		t.rq[i] = append([]waiter(nil), s.rq[i]...)
		t.sq[i] = append([]waiter(nil), s.sq[i]...)
	}
	return &t
}

func (s *ref) next(g int, rec string) {
	s.rec[g] += rec
	s.pc[g]++
	s.st[g] = 'r'
	for i := range s.rq {
		s.rq[i] = without(s.rq[i], g)
		s.sq[i] = without(s.sq[i], g)
	}
	if s.pc[g] == len(s.prog[g]) {
		s.rec[g] += "."
		s.st[g] = 'e'
	}
}

func without(q []waiter, g int) []waiter {
	var out []waiter
	for _, w := range q {
		if w.g != g {
			out = append(out, w)
		}
	}
	return out
}

func (s *ref) die(g int) {
	s.next(g, "")
	s.rec[g] = strings.TrimSuffix(s.rec[g], ".") + "!"
	s.st[g] = 'e'
}

func got(w waiter, c, v int) string {
	if w.kind == 'x' {
		return fmt.Sprint(string("ab"[c]), v, " ")
	}
	return fmt.Sprint(v, " ")
}

func sent(w waiter, c int) string {
	if w.kind == 'y' {
		return fmt.Sprint("y", c, " ")
	}
	return "s "
}

// send on channel c if that is possible at once.
func (s *ref) send(c int, w waiter) bool {
	if s.shut[c] {
		s.die(w.g)
		return true
	}
	if len(s.rq[c]) > 0 {
		r := s.rq[c][0]
		s.next(r.g, got(r, c, w.n))
		s.next(w.g, sent(w, c))
		return true
	}
	if c == 1 && len(s.buf) == 0 {
		s.buf = append(s.buf, w.n)
		s.next(w.g, sent(w, c))
		return true
	}
	return false
}

func (s *ref) recv(c int, w waiter) bool {
	if c == 1 && len(s.buf) > 0 {
		v := s.buf[0]
		s.buf = nil
		s.next(w.g, got(w, c, v))
		if len(s.sq[1]) > 0 {
			q := s.sq[1][0]
			s.buf = []int{q.n}
			s.next(q.g, sent(q, c))
		}
		return true
	}
	if len(s.sq[c]) > 0 {
		q := s.sq[c][0]
		s.next(w.g, got(w, c, q.n))
		s.next(q.g, sent(q, c))
		return true
	}
	if s.shut[c] {
		s.next(w.g, got(w, c, 0))
		return true
	}
	return false
}

// step runs goroutine g; several states where a select chooses.
func (s *ref) step(g int) []*ref {
	op := s.prog[g][s.pc[g]]
	w := waiter{g: g, n: 10*(g+1) + s.pc[g], kind: op[0]}
	c := 0
	if len(op) > 1 {
		c = int(op[1] - '0')
	}
	t := s.clone()
	switch op[0] {
	case 's':
		if !t.send(c, w) {
			t.sq[c] = append(t.sq[c], w)
			t.st[g] = 'b'
		}
	case 'r':
		if !t.recv(c, w) {
			t.rq[c] = append(t.rq[c], w)
			t.st[g] = 'b'
		}
	case 'S':
		if !t.send(c, w) {
			t.next(g, "d ")
		}
	case 'R':
		if !t.recv(c, w) {
			t.next(g, "d ")
		}
	case 'c':
		if t.shut[c] {
			t.die(g)
			break
		}
		t.shut[c] = true
		for _, q := range t.rq[c] {
			t.next(q.g, got(q, c, 0))
		}
		for _, q := range t.sq[c] {
			t.die(q.g)
		}
		t.next(g, "c ")
	case 'x', 'y':
		var out []*ref
		for c := 0; c < 2; c++ {
			u := s.clone()
			if op == "x" && u.recv(c, w) || op == "y" && u.send(c, w) {
				out = append(out, u)
			}
		}
		if out != nil {
			return out
		}
		t.st[g] = 'b'
		for c := 0; c < 2; c++ {
			if op == "x" {
				t.rq[c] = append(t.rq[c], w)
			} else {
				t.sq[c] = append(t.sq[c], w)
			}
		}
	case 'l':
		if t.held {
			return nil
		}
		t.held = true
		t.next(g, "l ")
	case 'u':
		t.held = false
		t.next(g, "u ")
	case 'L':
		if t.writer != 0 {
			return nil
		}
		t.writer = g + 1
		if t.readers > 0 {
			t.waitW = true
			t.st[g] = 'b'
		} else {
			t.next(g, "L ")
		}
	case 'U':
		t.writer = 0
		for _, r := range t.waitR {
			t.readers++
			t.next(r, "q ")
		}
		t.waitR = nil
		t.next(g, "")
	case 'q':
		if t.writer != 0 {
			t.waitR = append(t.waitR, g)
			t.st[g] = 'b'
		} else {
			t.readers++
			t.next(g, "q ")
		}
	case 'Q':
		t.readers--
		if t.readers == 0 && t.waitW {
			t.waitW = false
			t.next(t.writer-1, "L ")
		}
		t.next(g, "")
	case 'w':
		t.v = w.n
		t.next(g, "")
	case 'g':
		t.next(g, fmt.Sprint("v", t.v, " "))
	case 'z', 'Z':
		t.st[g] = 'z'
		t.wake[g] = t.now + 1000 + g
		if op == "Z" {
			t.wake[g] += 1000
		}
	}
	return []*ref{t}
}

func reference(prog [][]string) []string {
	n := len(prog)
	s := &ref{prog: prog, pc: make([]int, n), st: []byte(strings.Repeat("r", n)), wake: make([]int, n), rec: make([]string, n)}
	seen := map[string]bool{}
	out := map[string]bool{}
	var walk func(s *ref)
	walk = func(s *ref) {
		k := fmt.Sprintf("%v", *s)
		if seen[k] {
			return
		}
		seen[k] = true
		moved := false
		for g := range s.pc {
			if s.st[g] == 'r' {
				for _, t := range s.step(g) {
					moved = true
					walk(t)
				}
			}
		}
		if moved {
			return
		}
		// nothing can run: time passes
		min := 0
		for g := range s.st {
			if s.st[g] == 'z' && (min == 0 || s.wake[g] < min) {
				min = s.wake[g]
			}
		}
		if min == 0 {
			out[fmt.Sprintf("[%s v%d]", strings.Join(s.rec, "|"), s.v)] = true
			return
		}
		t := s.clone()
		t.now = min
		for g := range t.st {
			if t.st[g] == 'z' && t.wake[g] == min {
				t.next(g, fmt.Sprint("@", min, " "))
			}
		}
		walk(t)
	}
	walk(s)
	return keys(out)
}

func keys[V any](m map[string]V) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

func outcomes(t *testing.T, cfg vs.Config, prog [][]string) ([]string, int) {
	r := vs.Explore(cfg, body(prog), time.Now().Add(time.Minute))
	if r.Violation != nil || !r.Exhaustive {
		t.Fatalf("%v: %+v exhaustive %v diverged %d", prog, r.Violation, r.Exhaustive, r.Diverged)
	}
	return keys(r.Outcomes), r.Execs
}

func families(yield func(prog [][]string)) {
	// two goroutines of two operations each
	for _, a := range allOps {
		for _, b := range allOps {
			for _, c := range allOps {
				for _, d := range allOps {
					p := [][]string{{a, b}, {c, d}}
					if a+b <= c+d {
						yield(p)
					}
				}
			}
		}
	}
	// three goroutines, fewer operations
	for _, ops := range [][]string{{"s0", "r0", "S0", "c0"}, {"s1", "r1", "R1", "c1"}, {"l", "w", "g"}, {"x", "s0", "s1"}, {"y", "r0", "r1"}, {"z", "R0", "s0", "S0"}, {"x", "y"}} {
		var two [][]string
		for _, a := range ops {
			two = append(two, []string{a})
			for _, b := range ops {
				two = append(two, []string{a, b})
			}
		}
		for i, a := range two {
			for j := i; j < len(two); j++ {
				for k := j; k < len(two); k++ {
					yield([][]string{a, two[j], two[k]})
				}
			}
		}
	}
	// read-write lock
	rws := []string{"L w U", "q g Q", "L g U q g Q", "q q g Q Q", "L w U L w U", "q g Q L w U", "q L g U Q", "q s0 Q", "L r0 U", "g z g", "w"}
	for i, a := range rws {
		for j, b := range rws[i:] {
			yield([][]string{strings.Fields(a), strings.Fields(b)})
			for _, c := range rws[i+j:] {
				yield([][]string{strings.Fields(a), strings.Fields(b), strings.Fields(c)})
			}
		}
	}
	// critical sections
	for _, a := range []string{"w", "g", "s1", "r1", "z"} {
		for _, b := range []string{"w", "g", "s1", "r1", "z"} {
			for _, c := range []string{"w", "g", "z"} {
				yield([][]string{{"l", a, "u"}, {"l", b, "u"}, {"l", c, "u", "g"}})
			}
		}
	}
}

func shard(t *testing.T, f func(prog [][]string)) {
	var i, n, of int
	fmt.Sscanf(os.Getenv("SHARD"), "%d/%d", &n, &of)
	families(func(p [][]string) {
		i++
		if of == 0 && i%37 == 0 || of > 0 && i%of == n {
			f(p)
		}
	})
}

func TestOutcomes(t *testing.T) {
	progs, execs, outs := 0, 0, 0
	shard(t, func(p [][]string) {
		want := reference(p)
		got, n := outcomes(t, vs.Config{}, p)
		progs++
		execs += n
		outs += len(want)
		if fmt.Sprint(want) != fmt.Sprint(got) {
			t.Errorf("%v:\n want %v\n got  %v", p, want, got)
		}
	})
	t.Logf("%d programs, %d executions, %d outcomes", progs, execs, outs)
}

func TestPruning(t *testing.T) {
	progs, with, without := 0, 0, 0
	shard(t, func(p [][]string) {
		progs++
		for _, c := range []vs.Config{{Preempt: []int{0}}, {Preempt: []int{1}}, {Preempt: []int{0}, Delay: true}, {Preempt: []int{1}, Delay: true}, {Preempt: []int{2}, Delay: true, SelDev: true}, {Preempt: []int{1}, Delay: true, Slow: true}, {Preempt: []int{2}, Delay: true, Slow: true}} {
			a, n := outcomes(t, c, p)
			c.NoCache = true
			b, m := outcomes(t, c, p)
			with += n
			without += m
			if fmt.Sprint(a) != fmt.Sprint(b) {
				t.Errorf("%v %+v:\n with cache %v\n without    %v", p, c, a, b)
			}
		}
	})
	t.Logf("%d programs, %d executions with the cache, %d without", progs, with, without)
}
