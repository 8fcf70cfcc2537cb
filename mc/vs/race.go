package vs

import (
	"fmt"
	"unsafe"
)

// vclock is a vector clock over goroutine numbers. Values are immutable once
// shared, except through tick which copies.
type vclock []uint32

func (v vclock) get(i int) uint32 {
	if i < len(v) {
		return v[i]
	}
	return 0
}

func (v vclock) copy() vclock { return append(vclock(nil), v...) }

func (v vclock) tick(i int) vclock {
	n := len(v)
	if i >= n {
		n = i + 1
	}
	w := make(vclock, n)
	copy(w, v)
	w[i]++
	return w
}

// join returns the least upper bound; it does not modify v or o.
func (v vclock) join(o vclock) vclock {
	le := true
	for i := range o {
		if o[i] > v.get(i) {
			le = false
			break
		}
	}
	if le {
		return v
	}
	n := len(v)
	if len(o) > n {
		n = len(o)
	}
	w := make(vclock, n)
	copy(w, v)
	for i, x := range o {
		if x > w[i] {
			w[i] = x
		}
	}
	return w
}

// acquire makes g happen after everything released into v.
func (g *G) acquire(v vclock) { g.vc = g.vc.join(v) }

// release publishes g's past and starts a new interval of g.
func (g *G) release(v vclock) vclock {
	w := v.join(g.vc)
	g.vc = g.vc.tick(g.num)
	return w
}

// cell is the access history of one memory word (or map). Accesses conflict
// only when their byte masks overlap.
type cell struct {
	wg    int32
	wclk  uint32
	wsite int32
	wmask uint8
	rmask uint8
	hasW  bool
	hasR  bool
	rg    int32
	rclk  uint32
	rsite int32
	more  []raccess
}

type raccess struct {
	g    int32
	clk  uint32
	site int32
	mask uint8
}

func siteName(i int32) string {
	if s, ok := sites[i]; ok {
		return s
	}
	return fmt.Sprintf("site %d", i)
}

func (e *exec) access(p unsafe.Pointer, site int32, mask uint8, write bool) {
	g := e.cur
	c := e.cells[p]
	if c == nil {
		c = &cell{}
		e.cells[p] = c
	}
	clk := g.vc.get(g.num)
	if c.hasW && int(c.wg) != g.num && c.wmask&mask != 0 && c.wclk > g.vc.get(int(c.wg)) {
		e.race(g, site, write, int(c.wg), c.wsite, true)
	}
	if write {
		if c.hasR {
			if int(c.rg) != g.num && c.rmask&mask != 0 && c.rclk > g.vc.get(int(c.rg)) {
				e.race(g, site, true, int(c.rg), c.rsite, false)
			}
			for _, r := range c.more {
				if int(r.g) != g.num && r.mask&mask != 0 && r.clk > g.vc.get(int(r.g)) {
					e.race(g, site, true, int(r.g), r.site, false)
				}
			}
		}
		c.hasW, c.wg, c.wclk, c.wsite, c.wmask = true, int32(g.num), clk, site, mask
		c.hasR, c.more = false, c.more[:0]
		return
	}
	if !c.hasR || (int(c.rg) == g.num && c.rmask&mask == c.rmask) || (c.rclk <= g.vc.get(int(c.rg)) && int(c.rg) != g.num) {
		c.hasR, c.rg, c.rclk, c.rsite, c.rmask = true, int32(g.num), clk, site, mask
		return
	}
	for i := range c.more {
		if int(c.more[i].g) == g.num && c.more[i].mask&mask == c.more[i].mask {
			c.more[i] = raccess{int32(g.num), clk, site, mask}
			return
		}
	}
	c.more = append(c.more, raccess{int32(g.num), clk, site, mask})
}

func (e *exec) race(g *G, site int32, write bool, og int, osite int32, owrite bool) {
	if e.reason != endRunning || e.ctl.cfg.NoRace {
		return
	}
	kind := func(w bool) string {
		if w {
			return "write"
		}
		return "read"
	}
	e.fail(&Violation{Kind: "race", Msg: fmt.Sprintf("data race: %s at %s and earlier %s at %s", kind(write), siteName(site), kind(owrite), siteName(osite)),
		Detail: fmt.Sprintf("goroutines %s and %s", g.name, e.gs[og].name)})
	e.park(g)
}

func (e *exec) accessN(p unsafe.Pointer, n uintptr, site int32, write bool) {
	if n == 0 {
		return
	}
	if n > 256 {
		n = 256
	}
	off := uintptr(p) & 7
	q := unsafe.Add(p, -int(off))
	if off+n <= 8 {
		e.access(q, site, uint8((1<<n-1)<<off), write)
		return
	}
	if off != 0 {
		k := 8 - off
		e.access(q, site, uint8((1<<k-1)<<off), write)
		q = unsafe.Add(q, 8)
		n -= k
	}
	for n >= 8 {
		e.access(q, site, 0xff, write)
		q = unsafe.Add(q, 8)
		n -= 8
	}
	if n > 0 {
		e.access(q, site, uint8(1<<n-1), write)
	}
}

func racing() *exec {
	e := ex
	if e == nil || e.dead {
		return nil
	}
	e.ticks++
	if len(e.gs) < 2 || e.reason != endRunning {
		return nil
	}
	return e
}

// Rd records a read of *p.
func Rd[T any](p *T, site int32) *T {
	if p != nil {
		if e := racing(); e != nil {
			e.accessN(unsafe.Pointer(p), unsafe.Sizeof(*p), site, false)
		}
	}
	return p
}

// Wr records a write of *p.
func Wr[T any](p *T, site int32) *T {
	if p != nil {
		if e := racing(); e != nil {
			e.accessN(unsafe.Pointer(p), unsafe.Sizeof(*p), site, true)
		}
	}
	return p
}

// W records a write of *p as a statement.
func W[T any](p *T, site int32) { Wr(p, site) }

// MapR records a read of a map.
func MapR[M ~map[K]V, K comparable, V any](m M, site int32) M {
	if m != nil {
		if e := racing(); e != nil {
			e.access(*(*unsafe.Pointer)(unsafe.Pointer(&m)), site, 0xff, false)
		}
	}
	return m
}

// MapW records a modification of a map.
func MapW[M ~map[K]V, K comparable, V any](m M, site int32) M {
	if m != nil {
		if e := racing(); e != nil {
			e.access(*(*unsafe.Pointer)(unsafe.Pointer(&m)), site, 0xff, true)
		}
	}
	return m
}

// RegSites names instrumentation sites.
func RegSites(m map[int32]string) {
	for k, v := range m {
		sites[k] = v
	}
}

var sites = map[int32]string{}

// WT is W in an expression.
func WT[T any](p *T, site int32) bool { Wr(p, site); return true }

// RdEl records the read of element i of s by a range loop.
func RdEl[S ~[]T, T any](s S, i int, site int32) {
	if i < len(s) {
		Rd(&s[i], site)
	}
}

// ZeroC is the zero value of a channel's element type.
func ZeroC[T any](<-chan T) (z T) { return }

// ZeroV is the zero value of a map's element type.
func ZeroV[M ~map[K]V, K comparable, V any](M) (z V) { return }
