// Package vsignal replaces os/signal: the driver sends the signals.
package vsignal

import (
	stdcontext "context"
	"os"

	"vmc/vcontext"
	"vmc/vs"
)

type sub struct {
	sigs   []os.Signal
	cancel func()
	ch     chan<- os.Signal
	o      vs.Obj
}

type state struct {
	o    vs.Obj
	subs []*sub
}

func world() *state { return vs.Local("vsignal", func() any { return &state{} }).(*state) }

func (s *sub) wants(sig os.Signal) bool {
	if len(s.sigs) == 0 {
		return true
	}
	for _, x := range s.sigs {
		if x == sig {
			return true
		}
	}
	return false
}

// NotifyContext is signal.NotifyContext.
func NotifyContext(parent stdcontext.Context, sigs ...os.Signal) (stdcontext.Context, stdcontext.CancelFunc) {
	ctx, cancel := vcontext.WithCancel(parent)
	w := world()
	w.o.Write("notify")
	s := &sub{sigs: sigs, cancel: cancel}
	w.subs = append(w.subs, s)
	return ctx, func() { drop(s); cancel() }
}

func drop(s *sub) {
	w := world()
	for i, x := range w.subs {
		if x == s {
			w.subs = append(w.subs[:i:i], w.subs[i+1:]...)
		}
	}
}

// Notify is signal.Notify.
func Notify(c chan<- os.Signal, sigs ...os.Signal) {
	w := world()
	w.o.Write("notify")
	w.subs = append(w.subs, &sub{sigs: sigs, ch: c})
}

// Stop is signal.Stop.
func Stop(c chan<- os.Signal) {
	w := world()
	w.o.Write("notify")
	var keep []*sub
	for _, s := range w.subs {
		if s.ch != c || c == nil {
			keep = append(keep, s)
		}
	}
	w.subs = keep
}

// Ignore does nothing.
func Ignore(...os.Signal) {}

// Reset does nothing.
func Reset(...os.Signal) {}

// VmcSend delivers a signal; it reports whether anything was listening.
func VmcSend(sig os.Signal) bool {
	w := world()
	w.o.Write("signal")
	any := false
	for _, s := range append([]*sub(nil), w.subs...) {
		if !s.wants(sig) {
			continue
		}
		any = true
		if s.cancel != nil {
			s.cancel()
		} else {
			c := vs.SendCase(s.ch)(sig)
			vs.Select(true, c)
		}
	}
	return any
}

// VmcWait waits until something listens for signals.
func VmcWait() {
	w := world()
	vs.WaitUntil("signal handler", &w.o, func() bool { return len(w.subs) > 0 })
}
