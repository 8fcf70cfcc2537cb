// Command real runs all conformance scripts with the client library and
// compares the logs with those of the model.
package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"sort"
	"strings"
	"sync"
	"time"

	"github.com/Azure/go-amqp"

	"conform/mini"
)

type real struct {
	b  *mini.Broker
	mu sync.Mutex
	f  map[string]string
}

func newReal() *real {
	e := &real{b: mini.New(), f: map[string]string{}}
	take := func(k string) string {
		e.mu.Lock()
		defer e.mu.Unlock()
		f := e.f[k]
		delete(e.f, k)
		return f
	}
	e.b.OnOpen = func(int) string {
		if f := take("dial"); f != "err" {
			return f
		}
		return "kill"
	}
	e.b.OnBegin = func() string { return take("session") }
	e.b.OnAttach = func(kind, _ string) string {
		e.mu.Lock()
		c := e.f["credit"]
		e.mu.Unlock()
		if c != "" && kind == "sender" {
			return "nocredit"
		}
		return take("attach")
	}
	e.b.OnSend = func(string, []byte) string { return take("send") }
	return e
}

func (e *real) url() string { return e.b.Addr }
func (e *real) fate(k, f string) {
	e.mu.Lock()
	e.f[k] = f
	e.mu.Unlock()
}
func (e *real) settle() { time.Sleep(*pause) }
func (e *real) push(a string, m *amqp.Message) {
	b, err := m.MarshalBinary()
	if err != nil {
		panic(err)
	}
	e.b.Push(a, b)
}
func (e *real) event(x string) {
	switch x {
	case "kill":
		e.b.Kill()
	case "end":
		e.b.EndSessions()
	case "detr":
		e.b.DetachKind(true)
	case "dets":
		e.b.DetachKind(false)
	}
}
func (e *real) state() string { return fmt.Sprint(e.b.Conns(), e.b.Links(), e.b.NSent()) }

var pause = flag.Duration("pause", 25*time.Millisecond, "time for things to settle")

func main() {
	par := flag.Int("par", 64, "scripts at once")
	only := flag.String("only", "", "this script")
	flag.Parse()
	var want map[string][]string
	b, err := os.ReadFile(flag.Arg(0))
	if err != nil || json.Unmarshal(b, &want) != nil {
		fmt.Println("usage: real LOGS", err)
		os.Exit(2)
	}
	var names []string
	for k := range want {
		if *only == "" || k == *only {
			names = append(names, k)
		}
	}
	sort.Strings(names)
	one := func(n string) []string {
		e := newReal()
		defer e.b.Close()
		return run(e, strings.Fields(n))
	}
	var mu sync.Mutex
	steps, bad := 0, []string{}
	diff := map[string]string{}
	sem := make(chan bool, *par)
	var wg sync.WaitGroup
	for _, n := range names {
		wg.Add(1)
		sem <- true
		go func() {
			defer wg.Done()
			got := one(n)
			<-sem
			mu.Lock()
			defer mu.Unlock()
			steps += len(got)
			if d := compare(want[n], got); d != "" {
				bad = append(bad, n)
			}
		}()
	}
	wg.Wait()
	// again, alone and slower: differences that remain are real
	*pause *= 3
	for _, n := range bad {
		wg.Add(1)
		sem2 <- true
		go func() {
			defer wg.Done()
			got := one(n)
			<-sem2
			if d := compare(want[n], got); d != "" {
				mu.Lock()
				diff[n] = d
				mu.Unlock()
			}
		}()
	}
	wg.Wait()
	var ks []string
	for k := range diff {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		fmt.Printf("DIFFERENT %s\n%s\n", k, diff[k])
	}
	fmt.Printf("%d scripts, %d steps, %d differ (%d repeated)\n", len(names), steps, len(diff), len(bad))
	if len(diff) > 0 {
		os.Exit(1)
	}
}

var sem2 = make(chan bool, 8)

func compare(model, real []string) string {
	for i := range model {
		if i >= len(real) || model[i] != real[i] {
			r := "-"
			if i < len(real) {
				r = real[i]
			}
			return fmt.Sprintf("  step %d: model %s\n          real  %s", i, model[i], r)
		}
	}
	return ""
}
