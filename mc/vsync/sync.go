// Package vsync replaces package sync in the checked program.
package vsync

import (
	"vmc/vs"
)

type (
	Mutex     = vs.Mutex
	RWMutex   = vs.RWMutex
	WaitGroup = vs.WaitGroup
	Once      = vs.Once
	Cond      = vs.Cond
)

// NewCond is sync.NewCond.
func NewCond(l Locker) *Cond { return &Cond{L: l} }

// OnceFunc is sync.OnceFunc.
func OnceFunc(f func()) func() {
	var o Once
	var p any
	var valid bool
	return func() {
		o.Do(func() {
			defer func() {
				p = recover()
				if !valid {
					panic(p)
				}
			}()
			f()
			f = nil
			valid = true
		})
		if !valid && vs.Active() {
			panic(p)
		}
	}
}

// OnceValue is sync.OnceValue.
func OnceValue[T any](f func() T) func() T {
	var r T
	g := OnceFunc(func() { r = f() })
	return func() T { g(); return r }
}

// OnceValues is sync.OnceValues.
func OnceValues[A, B any](f func() (A, B)) func() (A, B) {
	var a A
	var b B
	g := OnceFunc(func() { a, b = f() })
	return func() (A, B) { g(); return a, b }
}

// Map models sync.Map: every method is one atomic visible step, Range visits a
// snapshot in key order.
type Map struct {
	ep int64
	o  vs.Obj
	m  map[any]any
}

func (m *Map) rd(what string) {
	m.o.Read("sync.Map " + what)
	m.fresh()
}
func (m *Map) wr(what string) {
	m.o.Write("sync.Map " + what)
	m.fresh()
}
func (m *Map) fresh() {
	if m.m == nil {
		m.m = map[any]any{}
		m.ep = vs.Epoch()
	}
}

func (m *Map) Load(k any) (any, bool) {
	m.rd("Load")
	v, ok := m.m[k]
	return v, ok
}
func (m *Map) Store(k, v any) {
	m.wr("Store")
	m.m[k] = v
}
func (m *Map) Clear() {
	m.wr("Clear")
	m.m = map[any]any{}
}
func (m *Map) LoadOrStore(k, v any) (any, bool) {
	m.wr("LoadOrStore")
	if a, ok := m.m[k]; ok {
		return a, true
	}
	m.m[k] = v
	return v, false
}
func (m *Map) LoadAndDelete(k any) (any, bool) {
	m.wr("LoadAndDelete")
	v, ok := m.m[k]
	delete(m.m, k)
	return v, ok
}
func (m *Map) Delete(k any) {
	m.wr("Delete")
	delete(m.m, k)
}
func (m *Map) Swap(k, v any) (any, bool) {
	m.wr("Swap")
	p, ok := m.m[k]
	m.m[k] = v
	return p, ok
}
func (m *Map) CompareAndSwap(k, o, n any) bool {
	m.wr("CompareAndSwap")
	if c, ok := m.m[k]; !ok || c != o {
		return false
	}
	m.m[k] = n
	return true
}
func (m *Map) CompareAndDelete(k, o any) bool {
	m.wr("CompareAndDelete")
	if c, ok := m.m[k]; !ok || c != o {
		return false
	}
	delete(m.m, k)
	return true
}
func (m *Map) Range(f func(k, v any) bool) {
	m.rd("Range")
	snap := make(map[any]any, len(m.m))
	for k, v := range m.m {
		snap[k] = v
	}
	for _, k := range vs.MapKeys(snap) {
		if !f(k, snap[k]) {
			return
		}
	}
}

// Pool models sync.Pool as a LIFO list of this execution.
type Pool struct {
	New func() any
	ep  int64
	o   vs.Obj
	l   []any
}

func (p *Pool) reset() {
	if p.ep != vs.Epoch() {
		p.ep, p.l = vs.Epoch(), nil
	}
}
func (p *Pool) Get() any {
	p.o.Write("pool get")
	p.reset()
	if n := len(p.l); n > 0 {
		v := p.l[n-1]
		p.l = p.l[:n-1]
		return v
	}
	if p.New != nil {
		return p.New()
	}
	return nil
}
func (p *Pool) Put(x any) {
	if x == nil {
		return
	}
	p.o.Write("pool put")
	p.reset()
	p.l = append(p.l, x)
}
