// Command smoke tests the runtime and the instrumenter themselves.
package main

import (
	"context"
	"errors"
	"fmt"
	"sync"
	"sync/atomic"
	"time"

	"vmc/hx"
	"vmc/vs"
)

type box struct {
	mu sync.Mutex
	n  int
	m  map[string]int
}

func main() {
	c := func(n ...int) vs.Config { return vs.Config{Preempt: n} }
	hx.Add(&hx.S{Name: "ok/locked-counter", Quick: c(-1), Body: func() {
		var b box
		var wg sync.WaitGroup
		for i := 0; i < 3; i++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				b.mu.Lock()
				defer b.mu.Unlock()
				b.n++
			}()
		}
		wg.Wait()
		vs.Assert(b.n == 3, "n=%d", b.n)
	}})
	hx.Add(&hx.S{Name: "bad/race", Quick: c(0, 1, 2), Body: func() {
		var b box
		var wg sync.WaitGroup
		wg.Add(2)
		for i := 0; i < 2; i++ {
			go func() { defer wg.Done(); b.n++ }()
		}
		wg.Wait()
	}})
	hx.Add(&hx.S{Name: "bad/maprace", Quick: c(0, 1, 2), Body: func() {
		b := box{m: map[string]int{}}
		done := make(chan struct{})
		go func() { b.m["x"] = 1; close(done) }()
		_ = b.m["y"]
		<-done
	}})
	hx.Add(&hx.S{Name: "bad/lost-update", Quick: c(0, 1, 2), Body: func() {
		var n atomic.Int64
		var wg sync.WaitGroup
		wg.Add(2)
		for i := 0; i < 2; i++ {
			go func() { defer wg.Done(); v := n.Load(); n.Store(v + 1) }()
		}
		wg.Wait()
		vs.Assert(n.Load() == 2, "lost update")
	}})
	hx.Add(&hx.S{Name: "bad/deadlock", Quick: c(0, 1, 2), Body: func() {
		var a, b sync.Mutex
		var wg sync.WaitGroup
		wg.Add(2)
		go func() { defer wg.Done(); a.Lock(); b.Lock(); b.Unlock(); a.Unlock() }()
		go func() { defer wg.Done(); b.Lock(); a.Lock(); a.Unlock(); b.Unlock() }()
		wg.Wait()
	}})
	hx.Add(&hx.S{Name: "bad/nilmap", Quick: c(0), Body: func() {
		done := make(chan int)
		go func() {
			var p *box
			p.n = 2
			close(done)
		}()
		<-done
	}})
	hx.Add(&hx.S{Name: "bad/spin", Quick: c(0), Body: func() {
		ctx, cancel := context.WithCancel(context.Background())
		cancel()
		for {
			select {
			case <-ctx.Done():
			}
		}
	}})
	hx.Add(&hx.S{Name: "bad/loop", Quick: c(0), Body: func() {
		i := 0
		for {
			i++
		}
	}})
	hx.Add(&hx.S{Name: "bad/recursion", Quick: c(0), Body: func() {
		var f func(int) int
		f = func(i int) int { return f(i+1) + 1 }
		f(0)
	}})
	hx.Add(&hx.S{Name: "ok/timers", Quick: vs.Config{Preempt: []int{0, 1}, ClockDev: 1}, Body: func() {
		ctx, cancel := context.WithTimeout(context.Background(), 3*time.Second)
		defer cancel()
		tk := time.NewTicker(time.Second)
		n := 0
		for {
			select {
			case <-tk.C:
				n++
				continue
			case <-ctx.Done():
			}
			break
		}
		tk.Stop()
		vs.Assert(errors.Is(ctx.Err(), context.DeadlineExceeded), "err %v", ctx.Err())
		vs.Outcome("n=%d", n)
		vs.Assert(n <= 4, "n=%d", n)
	}})
	hx.Add(&hx.S{Name: "ok/pipeline", Quick: c(0, 1, 2), Body: func() {
		ch := make(chan int)
		res := make(chan int, 1)
		go func() {
			defer close(ch)
			for i := range 4 {
				ch <- i
			}
		}()
		go func() {
			s := 0
			for v := range ch {
				s += v
			}
			res <- s
		}()
		vs.Assert(<-res == 6, "sum")
		vs.Quiesce()
		vs.Assert(len(vs.Alive()) == 0, "%v", vs.Alive())
	}})
	hx.Add(&hx.S{Name: "ok/rendezvous-select", Quick: c(-1), Body: func() {
		a, b := make(chan int), make(chan int)
		go func() { a <- 1 }()
		go func() { b <- 2 }()
		got := 0
		for i := 0; i < 2; i++ {
			select {
			case v := <-a:
				got += v
			case v, ok := <-b:
				vs.Assert(ok, "closed")
				got += v
			}
			vs.Outcome("%d:%d", i, got)
		}
		vs.Assert(got == 3, "got %d", got)
	}})
	hx.Add(&hx.S{Name: "ok/maprange", Quick: vs.Config{Preempt: []int{0}, MapPerm: true}, Body: func() {
		m := map[string]int{"a": 1, "b": 2, "c": 3}
		s := ""
		for k, v := range m {
			s += fmt.Sprint(k, v)
			if k == "a" {
				delete(m, "b")
			}
		}
		vs.Outcome("%s", s)
	}})
	hx.Add(&hx.S{Name: "ok/rw", Quick: c(0, 1, 2), Body: func() {
		var mu sync.RWMutex
		m := map[int]int{}
		var wg sync.WaitGroup
		for i := 0; i < 3; i++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				if i == 0 {
					mu.Lock()
					m[1]++
					mu.Unlock()
					return
				}
				mu.RLock()
				_ = m[1]
				mu.RUnlock()
			}()
		}
		wg.Wait()
	}})
	hx.Add(&hx.S{Name: "ok/ctxtree", Quick: c(0, 1, 2), Body: func() {
		ctx, cancel := context.WithCancelCause(context.Background())
		c2, cancel2 := context.WithTimeout(context.WithValue(ctx, "k", 1), time.Hour)
		defer cancel2()
		var once sync.Once
		done := make(chan struct{})
		stop := context.AfterFunc(c2, func() { once.Do(func() { close(done) }) })
		go cancel(errors.New("x"))
		<-done
		_ = stop()
		vs.Assert(context.Cause(c2).Error() == "x" && c2.Value("k") == 1, "cause")
	}})
	hx.Add(&hx.S{Name: "ok/enum", Enum: func(e *hx.E) {
		for i := 0; i < 100; i++ {
			e.Input(func() string { return fmt.Sprint(i) })
			if p := hx.Try(func() { panic(i) }); p != fmt.Sprint(i) {
				e.Fail("p %q", p)
			}
		}
	}})
	hx.Main()
}
