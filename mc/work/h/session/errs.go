package main

import (
	"context"
	"errors"
	"fmt"
	"time"

	"github.com/Azure/go-amqp"
	"github.com/c-kruse/vanflow/session"
	"github.com/cenkalti/backoff/v4"

	"vmc/vs"
)

type report struct {
	at    time.Duration
	retry time.Duration
	final bool
}

type reports struct {
	o vs.Obj
	l []report
}

func (r *reports) handle(err error) {
	r.o.Write("error handler")
	x := report{at: vs.Elapsed(), final: true}
	var e session.RetryableError
	if errors.As(err, &e) {
		x.final, x.retry = false, e.Retry()
	}
	r.l = append(r.l, x)
}

func (r *reports) String() string {
	s := ""
	for _, x := range r.l {
		if x.final {
			s += fmt.Sprintf("final@%v ", x.at.Round(ms))
		} else {
			s += fmt.Sprintf("%v@%v ", x.retry, x.at.Round(ms))
		}
	}
	return s
}

func near(a, b time.Duration) bool { return a-b <= eps && b-a <= eps }

// policy: every sequence of outcomes of connection attempts, against a policy
// with distinct delays, in which sessions that prove usable start over.
func policy(length int, callback bool) func() {
	return func() {
		w := newWorld(0, nil)
		delays := []time.Duration{300 * ms, 500 * ms, 700 * ms, ms, 900 * ms}[:length-1]
		pol := &script{delays: delays}
		w.cfg.BackOff = pol
		c := session.NewContainer("amqp://broker", w.cfg)
		w.c = c
		reps := []*reports{{}, {}}
		for i, r := range reps {
			r := r
			if i == 0 && callback {
				n := 0
				c.OnSessionError(func(err error) {
					r.handle(err)
					// free to call back
					n++
					if n == 1 {
						c.OnSessionError(func(error) {})
					}
					c.NewReceiver("cb", session.ReceiverOptions{}).Close(bg)
					c.NewSender("cb", session.SenderOptions{})
				})
				continue
			}
			c.OnSessionError(r.handle)
		}
		dialAt := []time.Duration{}
		plan := ""
		next := 0 // index into delays
		var kind int
		kinds := []string{"dial fails", "begin fails", "lost unused", "lost after sending", "lost after settling", "dial fails late"}
		const dialTime = 200 * ms
		w.b.OnDial = func(int, string, *amqp.ConnOptions) amqp.Fate {
			dialAt = append(dialAt, vs.Elapsed())
			kind = vs.Choose(len(kinds))
			plan += kinds[kind] + ", "
			switch kind {
			case 0:
				return amqp.FateErr
			case 5:
				time.Sleep(dialTime)
				return amqp.FateErr
			}
			return amqp.FateOK
		}
		w.b.OnSession = func(*amqp.Conn) amqp.Fate {
			if kind == 1 {
				return amqp.FateErr
			}
			return amqp.FateOK
		}
		s := c.NewSender("s", session.SenderOptions{})
		r := c.NewReceiver("r", session.ReceiverOptions{Credit: 10})
		x := c.NewReceiver("x", session.ReceiverOptions{Credit: 10})
		c.Start(w.ctx)
		// the only link that notices losses
		vs.GoHarness("watch", func() {
			for w.ctx.Err() == nil {
				x.Next(w.ctx)
			}
		})
		failAt := time.Duration(0)
		attempts := 0
		var wantRetry []time.Duration
		for {
			attempts++
			vs.Quiesce()
			vs.Assert(len(dialAt) == attempts, "%s: %d attempts were made, want %d; reports %v", plan, len(dialAt), attempts, reps[1])
			if attempts > 1 {
				vs.Assert(near(dialAt[attempts-1]-failAt, wantRetry[attempts-2]), "%s: attempt %d was made %v after the failure before it, the policy said %v", plan, attempts, dialAt[attempts-1]-failAt, wantRetry[attempts-2])
			}
			switch kind {
			case 0, 1:
				failAt = vs.Elapsed()
			case 5:
				time.Sleep(dialTime)
				vs.Quiesce()
				failAt = vs.Elapsed()
			case 2, 3, 4:
				time.Sleep(150 * ms)
				ctx, cancel := context.WithTimeout(bg, sec)
				if kind == 3 {
					err := s.Send(ctx, text("m"))
					if err != nil { // finds the session before lost
						err = s.Send(ctx, text("m"))
					}
					vs.Assert(err == nil, "%s: cannot send: %v", plan, err)
					next = 0
				}
				if kind == 4 {
					w.b.Push("r", text("m"))
					m, err := r.Next(ctx)
					vs.Assert(err == nil, "%s: cannot receive: %v", plan, err)
					err = r.Accept(ctx, m)
					vs.Assert(err == nil, "%s: cannot settle: %v", plan, err)
					next = 0
				}
				cancel()
				vs.Quiesce()
				vs.Assert(w.kill(), "%s: no connection", plan)
				failAt = vs.Elapsed()
				vs.Quiesce()
			}
			if next >= len(delays) || attempts > length {
				break
			}
			wantRetry = append(wantRetry, delays[next])
			next++
			for i, rep := range reps {
				rep.o.TouchR()
				vs.Assert(len(rep.l) == attempts, "%s: handler %d was called %d times: %s, want %d", plan, i, len(rep.l), rep, attempts)
				l := rep.l[attempts-1]
				vs.Assert(!l.final && l.retry == delays[next-1] && near(l.at, failAt), "%s: handler %d: %s, want a delay of %v at %v", plan, i, rep, delays[next-1], failAt)
			}
			time.Sleep(delays[next-1])
		}
		vs.Quiesce()
		if attempts > length {
			// the sequence ends with a retry pending: cancelled, not failed
			w.cancel()
			vs.Quiesce()
			time.Sleep(time.Minute)
			vs.Assert(len(reps[0].l) == attempts && len(reps[1].l) == attempts, "%s: cancellation was reported: %s", plan, reps[0])
			vs.Assert(len(dialAt) == attempts, "%s: attempts after cancellation", plan)
			w.clean("after cancellation")
			return
		}
		for i, rep := range reps {
			rep.o.TouchR()
			vs.Assert(len(rep.l) == attempts, "%s: handler %d was called %d times: %s, want %d", plan, i, len(rep.l), rep, attempts)
			l := rep.l[attempts-1]
			vs.Assert(l.final && near(l.at, failAt), "%s: handler %d: %s, want a final report", plan, i, rep)
		}
		time.Sleep(time.Minute)
		vs.Quiesce()
		vs.Assert(len(dialAt) == attempts, "%s: %d attempts although the policy had given up after %d", plan, len(dialAt), attempts)
		vs.Assert(len(reps[0].l) == attempts && len(reps[1].l) == attempts, "%s: reports after the final one: %s", plan, reps[1])
		w.cancel()
		vs.Quiesce()
		vs.Assert(len(reps[0].l) == attempts, "%s: reports after the final one: %s", plan, reps[1])
		w.clean("after the container gave up")
	}
}

// instantly: a policy without delays.
func instantly() {
	w := newWorld(0, nil)
	fails := vs.Choose(4)
	begin := vs.Choose(2) == 1
	giveup := vs.Choose(2) == 1
	if giveup {
		w.cfg.BackOff = &script{delays: []time.Duration{0, 0, 0}}
	} else {
		w.cfg.BackOff = &backoff.ZeroBackOff{}
	}
	n := 0
	refuse := func() amqp.Fate {
		if n <= fails {
			return amqp.FateErr
		}
		return amqp.FateOK
	}
	w.b.OnDial = func(int, string, *amqp.ConnOptions) amqp.Fate {
		n++
		if begin {
			return amqp.FateOK
		}
		return refuse()
	}
	w.b.OnSession = func(*amqp.Conn) amqp.Fate {
		if begin {
			return refuse()
		}
		return amqp.FateOK
	}
	c := session.NewContainer("amqp://broker", w.cfg)
	w.c = c
	rep := &reports{}
	c.OnSessionError(rep.handle)
	r := c.NewReceiver("r", session.ReceiverOptions{Credit: 10})
	c.Start(w.ctx)
	vs.GoHarness("watch", func() {
		for w.ctx.Err() == nil {
			r.Next(w.ctx)
		}
	})
	vs.Quiesce()
	time.Sleep(eps)
	vs.Quiesce()
	what := fmt.Sprintf("%d failures, then a loss", fails)
	want := fails
	check := func() {
		rep.o.TouchR()
		vs.Assert(len(rep.l) == want, "%s: %d reports: %s, want %d", what, len(rep.l), rep, want)
		for i, l := range rep.l {
			vs.Assert(l.final == (giveup && i == 3) && l.retry == 0, "%s: reports %s", what, rep)
		}
		vs.Assert(n == want+1 || giveup && want == 4 && n == 4, "%s: %d attempts after %d failures", what, n, want)
	}
	check()
	vs.Assert(w.kill(), "%s: no connection", what)
	vs.Quiesce()
	time.Sleep(eps)
	vs.Quiesce()
	want++
	check()
	w.stop()
	check()
}

// cancelled: whenever the container is cancelled, that is no failure.
func cancelled() {
	w := newWorld(2, fates{"dial": {amqp.FateErr, amqp.FateHang}, "session": {amqp.FateErr, amqp.FateHang}})
	w.cfg.BackOff = &script{delays: []time.Duration{300 * ms, 300 * ms, 300 * ms, 300 * ms}}
	c := session.NewContainer("amqp://broker", w.cfg)
	w.c = c
	rep := &reports{}
	var at time.Duration = -1
	c.OnSessionError(func(err error) {
		rep.handle(err)
		var e session.RetryableError
		vs.Assert(errors.As(err, &e), "%s: final error %v although the policy has not given up", w.what(), err)
	})
	c.Start(w.ctx)
	use := vs.Choose(2) == 1
	if use {
		w.consume("r", 1, true)
	}
	lose := use && vs.Choose(2) == 1
	if lose {
		time.Sleep(100 * ms)
		w.kill()
		vs.Yield()
	}
	time.Sleep([]time.Duration{0, 200 * ms, 300 * ms, 400 * ms, sec}[vs.Choose(5)])
	at = vs.Elapsed()
	w.cancel()
	n := 0
	for _, f := range w.faults {
		if f == "dial err" || f == "session err" || f == "connection 1 lost" || f == "connection 2 lost" {
			n++
		}
	}
	vs.Quiesce()
	time.Sleep(time.Minute)
	vs.Quiesce()
	rep.o.TouchR()
	vs.Assert(len(rep.l) <= n, "%s, cancelled at %v: %d failures reported: %s", w.what(), at, len(rep.l), rep)
	for _, x := range rep.l {
		vs.Assert(x.at <= at+eps, "%s: a failure was reported after cancellation", w.what())
	}
	w.clean("after cancellation")
}

// exponential: the library's own policies, by default and as configured.
func exponential(configured bool) func() {
	return func() {
		w := newWorld(0, nil)
		first, max := 250*ms, 30*sec
		if configured {
			b := backoff.NewExponentialBackOff()
			b.InitialInterval, b.MaxInterval, b.MaxElapsedTime = 100*ms, 400*ms, 0
			w.cfg.BackOff = b
			first, max = b.InitialInterval, b.MaxInterval
		}
		f := session.NewContainerFactory("amqp://broker", w.cfg)
		c := f.Create()
		w.c = c
		rep := &reports{}
		c.OnSessionError(rep.handle)
		ok := vs.Choose(3) // after so many attempts one works
		fails := 0
		var dials []time.Duration
		w.b.OnDial = func(n int, _ string, _ *amqp.ConnOptions) amqp.Fate {
			dials = append(dials, vs.Elapsed())
			if n == 3+ok {
				return amqp.FateOK
			}
			fails++
			return amqp.FateErr
		}
		s := c.NewSender("s", session.SenderOptions{})
		c.Start(w.ctx)
		vs.Assert(s.Send(bg, text("x")) == nil, "cannot send")
		n := len(rep.l)
		vs.Assert(n == fails && n == 2+ok, "%d failures, %d reports", fails, n)
		w.kill()
		s.Send(bg, text("y"))
		time.Sleep(200 * sec)
		rep.o.TouchR()
		cur := first
		for i, x := range rep.l {
			if i == n { // proven usable
				cur = first
			}
			vs.Assert(!x.final, "a policy without limit gave up")
			vs.Assert(x.retry >= cur/2-ms && x.retry <= cur*3/2+ms, "report %d (%d before the session that worked): delay %v, want %v up to 50%% off", i, n, x.retry, cur)
			j := i + 1
			if i >= n {
				j = i + 1 // the session that worked failed at report n
			}
			vs.Assert(j < len(dials) || i == len(rep.l)-1, "no attempt after report %d", i)
			if j < len(dials) {
				vs.Assert(near(dials[j]-x.at, x.retry), "attempt %v after report %d, announced %v", dials[j]-x.at, i, x.retry)
			}
			if cur = cur * 3 / 2; cur > max {
				cur = max
			}
		}
		w.stop()
	}
}

// outage: without a limit, a policy never gives up, however long it takes.
func outage(configured bool) func() {
	return func() {
		w := newWorld(0, nil)
		if configured {
			b := backoff.NewExponentialBackOff()
			b.InitialInterval, b.MaxInterval, b.MaxElapsedTime = sec, 5*time.Minute, 0
			w.cfg.BackOff = b
		}
		var c session.Container
		if vs.Choose(2) == 1 {
			c = session.NewContainerFactory("amqp://broker", w.cfg).Create()
		} else {
			c = session.NewContainer("amqp://broker", w.cfg)
		}
		w.c = c
		rep := &reports{}
		c.OnSessionError(rep.handle)
		hours := []int{0, 1, 6}[vs.Choose(3)]
		until := time.Duration(hours)*time.Hour + 20*time.Minute
		var last time.Duration
		w.b.OnDial = func(int, string, *amqp.ConnOptions) amqp.Fate {
			last = vs.Elapsed()
			if last < until {
				return amqp.FateErr
			}
			return amqp.FateOK
		}
		r := w.consume("r", 3, true)
		c.Start(w.ctx)
		time.Sleep(until - sec)
		vs.Quiesce()
		limit := 46 * sec
		if configured {
			limit = 451 * sec
		}
		vs.Assert(vs.Elapsed()-last <= limit, "the broker is out of reach for %v: no attempt in the last %v", until, vs.Elapsed()-last)
		time.Sleep(limit + sec)
		vs.Quiesce()
		w.b.Push("r", text("probe"))
		vs.Quiesce()
		r.o.TouchR()
		vs.Assert(len(r.got) == 1, "the broker was out of reach for %v: the receiver did not resume, last attempt at %v", until, last)
		rep.o.TouchR()
		for _, x := range rep.l {
			vs.Assert(!x.final, "a policy without limit gave up at %v", x.at)
		}
		w.stop()
	}
}

// lateOK: an operation that learns late that it has succeeded on an earlier
// session takes nothing away from the current one.
func lateOK() {
	w := newWorld(0, nil)
	w.cfg.BackOff = &script{delays: []time.Duration{0}}
	w.c = session.NewContainer("amqp://broker", w.cfg)
	rep := &reports{}
	ctx, cancel := context.WithCancel(bg)
	defer cancel()
	w.c.OnSessionError(func(err error) {
		rep.handle(err)
		if e := session.RetryableError(nil); !errors.As(err, &e) {
			cancel()
		}
	})
	w.c.Start(w.ctx)
	a, b := w.c.NewSender("a", session.SenderOptions{}), w.c.NewSender("b", session.SenderOptions{})
	send := func(n int) {
		for b.Send(ctx, text("b%d", n)) != nil {
			rep.o.TouchR()
			vs.Assert(ctx.Err() == nil, "no session although each was used before it was lost: %s", rep)
		}
	}
	send(1)
	vs.GoHarness("other", func() { a.Send(bg, text("a")) })
	for n := 2; n < 4; n++ {
		if n == 2 {
			vs.Yield()
		}
		vs.Assert(w.kill(), "no connection")
		send(n)
	}
	w.stop()
	rep.o.TouchR()
	for _, l := range rep.l {
		vs.Assert(!l.final, "the policy was not started over although each session was used: %s", rep)
	}
}

// patience: one pending Next lives through any number of failures of the same
// kind and through hours without a message; so do the links.
func patience() {
	w := newWorld(0, nil)
	kind := vs.Choose(4)
	idle := []time.Duration{0, 3 * time.Hour}[vs.Choose(2)]
	const count = 25
	name := []string{"connecting", "opening a session", "attaching", "receiving"}[kind]
	failing := 0
	fail := func(k int) func() amqp.Fate {
		return func() amqp.Fate {
			if kind == k && failing > 0 {
				failing--
				return amqp.FateErr
			}
			return amqp.FateOK
		}
	}
	dial, sess, att := fail(0), fail(1), fail(2)
	w.b.OnDial = func(int, string, *amqp.ConnOptions) amqp.Fate { return dial() }
	w.b.OnSession = func(*amqp.Conn) amqp.Fate { return sess() }
	w.b.OnAttach = func(_ *amqp.Conn, k, _ string) amqp.Fate {
		if k != "receiver" {
			return amqp.FateOK
		}
		return att()
	}
	w.start()
	r := w.consume("r", 3, false)
	snd := w.sender("s")
	time.Sleep(sec)
	vs.Quiesce()
	want := 0
	check := func(when string) {
		time.Sleep(idle)
		vs.Quiesce()
		w.b.Push("r", text("probe"))
		vs.Quiesce()
		want++
		r.o.TouchR()
		vs.Assert(len(r.got) == want, "%s, %v idle: %d of %d messages were received", when, idle, len(r.got), want)
		err := snd.send(bg)
		if err != nil { // finds the session before lost
			time.Sleep(time.Minute)
			err = snd.send(bg)
		}
		vs.Assert(err == nil, "%s, %v idle: cannot send: %v", when, idle, err)
	}
	check("at first")
	if kind < 3 {
		failing = count
		w.kill()
		time.Sleep(count * 46 * sec)
		vs.Quiesce()
		vs.Assert(failing == 0, "%s fails: only %d attempts were made", name, count-failing)
	} else {
		for i := 0; i < count; i++ {
			w.kill()
			time.Sleep(46 * sec)
			vs.Quiesce()
		}
	}
	time.Sleep(46 * sec)
	check(fmt.Sprintf("after %s failed %d times", name, count))
	w.stop()
}
