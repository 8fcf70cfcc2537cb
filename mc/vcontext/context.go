// Package vcontext replaces package context in the checked program.
package vcontext

import (
	"context"
	"errors"
	"fmt"
	"time"

	"vmc/vs"
)

type keyT struct{}

var key keyT

// cancelCtx is a cancellable context. Cancelling a tree of contexts is one
// atomic visible step.
type cancelCtx struct {
	context.Context
	o        vs.Obj
	done     chan struct{}
	err      error
	cause    error
	children []*child
	deadline time.Time
	hasDL    bool
	timer    *vs.VTimer
	parent   *cancelCtx
	self     *child
}

type child struct {
	c *cancelCtx
	f func() // AfterFunc
}

func (c *cancelCtx) Done() <-chan struct{} { return c.done }

func (c *cancelCtx) Err() error {
	c.o.Read("ctx.Err")
	return c.err
}

func (c *cancelCtx) Deadline() (time.Time, bool) {
	if c.hasDL {
		return c.deadline, true
	}
	return c.Context.Deadline()
}

func (c *cancelCtx) Value(k any) any {
	if k == any(key) {
		return c
	}
	return c.Context.Value(k)
}

func (c *cancelCtx) String() string { return fmt.Sprintf("%v.WithCancel", c.Context) }

func find(parent context.Context) *cancelCtx {
	p, _ := parent.Value(key).(*cancelCtx)
	if p == nil || parent.Done() != (<-chan struct{})(p.done) {
		return nil
	}
	return p
}

func newCtx(parent context.Context) *cancelCtx {
	if parent == nil {
		panic("cannot create context from nil parent")
	}
	c := &cancelCtx{Context: parent, done: make(chan struct{})}
	c.o.Touch()
	if parent.Done() == nil {
		return c
	}
	if p := find(parent); p != nil {
		p.o.TouchR()
		if p.err != nil {
			c.cancelLocked(p.err, p.cause)
			return c
		}
		c.parent = p
		c.self = &child{c: c}
		p.children = append(p.children, c.self)
		return c
	}
	// foreign parent
	vs.Go(func() {
		ca, cb := vs.RecvCase(parent.Done()), vs.RecvCase((<-chan struct{})(c.done))
		if vs.Select(false, ca, cb) == 0 {
			c.cancel(parent.Err(), context.Cause(parent))
		}
	})
	return c
}

// cancelLocked cancels the tree below c; the caller made the step visible.
func (c *cancelCtx) cancelLocked(err, cause error) {
	if c.err != nil {
		return
	}
	if cause == nil {
		cause = err
	}
	c.err, c.cause = err, cause
	c.o.Touch()
	vs.CloseNow(c.done)
	ch := c.children
	c.children = nil
	for _, k := range ch {
		if k.f != nil {
			f := k.f
			k.f = nil
			vs.Go(f)
			continue
		}
		if k.c != nil {
			k.c.cancelLocked(err, cause)
		}
	}
	if c.timer != nil {
		c.timer.Discard()
	}
	c.detach()
}

func (c *cancelCtx) detach() {
	p := c.parent
	if p == nil || p.children == nil {
		return
	}
	for i, k := range p.children {
		if k == c.self {
			p.children = append(p.children[:i:i], p.children[i+1:]...)
			break
		}
	}
}

func (c *cancelCtx) cancel(err, cause error) {
	if vs.Dead() {
		return
	}
	c.o.Write("ctx cancel")
	c.cancelLocked(err, cause)
}

func WithCancel(parent context.Context) (context.Context, context.CancelFunc) {
	c := newCtx(parent)
	return c, func() { c.cancel(context.Canceled, nil) }
}

func WithCancelCause(parent context.Context) (context.Context, context.CancelCauseFunc) {
	c := newCtx(parent)
	return c, func(cause error) { c.cancel(context.Canceled, cause) }
}

func WithDeadline(parent context.Context, d time.Time) (context.Context, context.CancelFunc) {
	return WithDeadlineCause(parent, d, nil)
}

func WithTimeout(parent context.Context, d time.Duration) (context.Context, context.CancelFunc) {
	return withTimeout(parent, d, vs.Now().Add(d), nil)
}

func WithTimeoutCause(parent context.Context, d time.Duration, cause error) (context.Context, context.CancelFunc) {
	return withTimeout(parent, d, vs.Now().Add(d), cause)
}

func WithDeadlineCause(parent context.Context, d time.Time, cause error) (context.Context, context.CancelFunc) {
	return withTimeout(parent, d.Sub(vs.Now()), d, cause)
}

func withTimeout(parent context.Context, d time.Duration, at time.Time, cause error) (context.Context, context.CancelFunc) {
	c := newCtx(parent)
	if cur, ok := parent.Deadline(); ok && cur.Before(at) {
		return c, func() { c.cancel(context.Canceled, nil) }
	}
	c.deadline, c.hasDL = at, true
	if d <= 0 {
		c.cancel(context.DeadlineExceeded, cause)
		return c, func() { c.cancel(context.Canceled, nil) }
	}
	if c.err == nil {
		c.timer = vs.NewFuncTimer(d, true, func() { c.cancelLocked(context.DeadlineExceeded, cause) })
	}
	return c, func() { c.cancel(context.Canceled, nil) }
}

func Cause(ctx context.Context) error {
	if c, ok := ctx.Value(key).(*cancelCtx); ok {
		c.o.Read("ctx.Cause")
		if c.err == nil {
			return nil
		}
		return c.cause
	}
	return ctx.Err()
}

// AfterFunc is context.AfterFunc.
func AfterFunc(ctx context.Context, f func()) (stop func() bool) {
	if ctx.Done() == nil {
		return func() bool { return false }
	}
	p := find(ctx)
	k := &child{f: f}
	if p == nil {
		st := make(chan struct{})
		var o vs.Obj
		decided := false
		vs.Go(func() {
			a, b := vs.RecvCase(ctx.Done()), vs.RecvCase((<-chan struct{})(st))
			if vs.Select(false, a, b) == 0 {
				o.Write("AfterFunc")
				if !decided {
					decided = true
					vs.Go(f)
				}
			}
		})
		return func() bool {
			o.Write("AfterFunc stop")
			if decided {
				return false
			}
			decided = true
			vs.CloseNow(st)
			return true
		}
	}
	p.o.Write("AfterFunc")
	if p.err != nil {
		vs.Go(f)
		return func() bool { return false }
	}
	p.children = append(p.children, k)
	return func() bool {
		p.o.Write("AfterFunc stop")
		if k.f == nil {
			return false
		}
		k.f = nil
		return true
	}
}

type withoutCancel struct{ c context.Context }

func (withoutCancel) Deadline() (time.Time, bool) { return time.Time{}, false }
func (withoutCancel) Done() <-chan struct{}       { return nil }
func (withoutCancel) Err() error                  { return nil }
func (w withoutCancel) Value(k any) any {
	if k == any(key) {
		return nil
	}
	return w.c.Value(k)
}
func (withoutCancel) String() string { return "context.WithoutCancel" }

// WithoutCancel is context.WithoutCancel.
func WithoutCancel(parent context.Context) context.Context {
	if parent == nil {
		panic("cannot create context from nil parent")
	}
	return withoutCancel{parent}
}

var _ = errors.New
