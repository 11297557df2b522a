// Package c29 compares recorded times with a clock, mostly a virtual one.
package c29

import (
	"context"
	"errors"
	"fmt"
	"io"
	"math"
	"math/big"
	"math/bits"
	"math/rand"
	"os"
	"runtime"
	"strings"
	"sync"
	"sync/atomic"
	"testing"
	"time"

	"github.com/spacemonkeygo/monkit/v3"
	"github.com/spacemonkeygo/monkit/v3/collect"
	"github.com/spacemonkeygo/monkit/v3/monotime"

	"verifh/vh"
)

// slow is an error that takes its time to be named.
type slow struct{ d time.Duration }

func (s *slow) Error() string { return "slow" }

// slowSelf does that itself.
type slowSelf struct{ d time.Duration }

func (s *slowSelf) Error() string        { return "slow" }
func (s *slowSelf) Name() (string, bool) { time.Sleep(s.d); return "SlowSelf", true }

func init() {
	monkit.AddErrorNameHandler(func(err error) (string, bool) {
		if s, ok := err.(*slow); ok {
			time.Sleep(s.d)
			return "Slow", true
		}
		return "", false
	})
}

// model is what a distribution should say.
type model struct {
	n              int64
	sum            time.Duration
	high, low, rec time.Duration
}

func (m *model) add(d time.Duration) {
	if m.n == 0 || d > m.high {
		m.high = d
	}
	if m.n == 0 || d < m.low {
		m.low = d
	}
	m.n++
	m.sum += d
	m.rec = d
}

func (m *model) String() string {
	return fmt.Sprintf("%d (sum %d, high %d, low %d, recent %d)", m.n, m.sum, m.high, m.low, m.rec)
}

func compare(c *vh.C, what string, d *monkit.DurationDist, m *model) {
	got := model{d.Count, d.Sum, d.High, d.Low, d.Recent}
	if got != *m {
		c.Fatalf("%s are %v, should be %v", what, &got, m)
	}
	if m.n == 0 {
		return
	}
	if avg := d.FullAverage(); math.Abs(float64(avg)-float64(m.sum)/float64(m.n)) > 1+1e-6*math.Abs(float64(avg)) {
		c.Fatalf("the average of %s is %d, should be %d", what, avg, m.sum/time.Duration(m.n))
	}
	for _, q := range []float64{0, .5, 1} {
		if v := d.Query(q); v < m.low-m.low>>20 || v > m.high+m.high>>20 {
			c.Fatalf("quantile %v of %s is %d, not in %v", q, what, v, m)
		}
	}
}

type kind int

const (
	task kind = iota
	remote
	reset
	observe
	timer
	unnamed
	kinds
)

func (k kind) String() string {
	return []string{"Task", "RemoteTrace", "ResetTrace", "Observe", "Timer", "unnamed Task"}[k]
}

// open is something that was started.
type open struct {
	k       kind
	f       *fn
	at      time.Time
	exit    func(*error)
	rt      *monkit.RunningTimer
	span    *monkit.Span
	ctx     context.Context
	stopped bool
}

type fn struct {
	f          *monkit.Func
	t          *monkit.Timer
	key        string
	good, bad  model
	timerModel model
}

func (f *fn) check(c *vh.C) {
	if f.t != nil {
		compare(c, "the timer's times", f.t.Values(), &f.timerModel)
		n, sum := -1.0, -1.0
		f.t.Stats(func(k monkit.SeriesKey, field string, v float64) {
			switch field {
			case "count":
				n = v
			case "sum":
				sum = v
			}
		})
		if n != float64(f.timerModel.n) || f.timerModel.n > 0 && math.Abs(sum-f.timerModel.sum.Seconds()) > 1e-9*(1+sum) {
			c.Fatalf("the timer reports %v, %v instead of %v", n, sum, &f.timerModel)
		}
	}
	if f.f != nil {
		compare(c, "success times of "+f.f.FullName(), f.f.SuccessTimes(), &f.good)
		compare(c, "failure times of "+f.f.FullName(), f.f.FailureTimes(), &f.bad)
	}
}

// watcher sleeps on notifications and keeps the finish times.
type watcher struct {
	mtx           sync.Mutex
	start, finish time.Duration
	last          map[*monkit.Span]time.Time
}

func (o *watcher) Start(s *monkit.Span) { time.Sleep(o.start) }
func (o *watcher) Finish(s *monkit.Span, err error, panicked bool, at time.Time) {
	o.mtx.Lock()
	o.last[s] = at
	o.mtx.Unlock()
	time.Sleep(o.finish)
}

func someTime(r *rand.Rand) time.Duration {
	switch r.Intn(8) {
	case 0:
		return 0
	case 1:
		return 1
	case 2:
		return time.Duration(r.Intn(1000))
	case 3:
		return time.Duration(r.Intn(1e6))
	case 4:
		if r.Intn(8) == 0 {
			return time.Duration(r.Int63n(int64(40 * time.Hour)))
		}
		return time.Duration(r.Int63n(int64(time.Hour)))
	default:
		return time.Duration(r.Int63n(int64(2 * time.Second)))
	}
}

var someErr = errors.New("some")

var errs = []error{someErr, context.Canceled, context.DeadlineExceeded, io.EOF, io.ErrUnexpectedEOF, os.ErrNotExist,
	fmt.Errorf("wrapped: %w", context.Canceled)}

// timeline is the life of one goroutine.
type timeline struct {
	c     *vh.C
	r     *rand.Rand
	reg   *monkit.Registry
	fns   []*fn
	open  []*open
	t0    time.Time // of the clock
	b0    time.Time // and of the library's clock then
	obs   *watcher
	trace *monkit.Trace
	sleep time.Duration // of trace watchers
	done  []func()      // what ends contexts
}

// unnamedTask has one task per timeline, named after this function.
func (l *timeline) unnamedTask(ctx *context.Context, t monkit.Task) func(*error) {
	return t(ctx)
}

// when says what the library's clock should say at some time.
func (l *timeline) when(at time.Time) time.Time { return l.b0.Add(at.Sub(l.t0)) }

func (l *timeline) same(what string, got, want time.Time) {
	if d := got.Sub(want); d != 0 {
		l.c.Fatalf("%s is off by %v", what, d)
	}
	if d := got.UnixNano() - want.UnixNano(); d != 0 {
		l.c.Fatalf("%s (wall) is off by %v", what, time.Duration(d))
	}
}

func (l *timeline) start() {
	r := l.r
	o := &open{k: kind(r.Intn(int(kinds))), f: l.fns[r.Intn(len(l.fns))]}
	if (o.k == timer) != (o.f.t != nil) {
		return
	}
	if (o.k == unnamed) != (o.f.key == "unnamed") {
		return
	}
	ctx := context.Background()
	if len(l.open) > 0 && r.Intn(3) > 0 {
		if p := l.open[r.Intn(len(l.open))]; p.ctx != nil {
			ctx = p.ctx
		}
	}
	if r.Intn(4) == 0 {
		// this call may run longer than its context lasts
		var cancel func()
		if r.Intn(3) == 0 {
			ctx, cancel = context.WithCancel(ctx)
		} else {
			ctx, cancel = context.WithTimeout(ctx, someTime(r))
		}
		l.done = append(l.done, cancel)
		if r.Intn(4) == 0 {
			cancel()
		}
	}
	l.obs.start, l.obs.finish, l.sleep = 0, 0, 0
	if r.Intn(4) == 0 {
		l.obs.start = someTime(r)
		l.sleep = someTime(r)
	}
	o.at = time.Now()
	switch o.k {
	case task:
		o.exit = o.f.f.Task(&ctx, 1)
	case unnamed:
		o.exit = o.f.f.Task(&ctx)
	case remote:
		o.exit = o.f.f.RemoteTrace(&ctx, 3, l.trace)
	case reset:
		o.exit = o.f.f.ResetTrace(&ctx)
	case observe:
		o.exit = o.f.f.Observe()
	case timer:
		o.rt = o.f.t.Start()
	}
	if o.k != observe && o.k != timer {
		o.ctx = ctx
		o.span = monkit.SpanFromCtx(ctx)
		l.same("the span's start", o.span.Start(), l.when(o.at))
	}
	l.c.Logf("%v starts %v", o.k, o.at.Sub(l.t0))
	l.c.SigN(uint64(o.k) + 1)
	l.open = append(l.open, o)
}

func (l *timeline) look() {
	l.same("the clock", monotime.Now(), l.when(time.Now()))
	for _, o := range l.open {
		want := time.Since(o.at)
		if o.span != nil {
			if d := o.span.Duration(); d != want {
				l.c.Fatalf("a span that runs for %v says %v", want, d)
			}
		}
		if o.rt != nil {
			if d := o.rt.Elapsed(); d != want {
				l.c.Fatalf("a timer that runs for %v says %v", want, d)
			}
		}
	}
	l.c.Events(1 + len(l.open))
}

func (l *timeline) stop() {
	if len(l.open) == 0 {
		return
	}
	r := l.r
	i := len(l.open) - 1
	if r.Intn(3) == 0 {
		i = r.Intn(len(l.open))
	}
	o := l.open[i]
	if r.Intn(4) == 0 {
		l.obs.finish = someTime(r)
	} else {
		l.obs.finish = 0
	}
	now := time.Now()
	d := now.Sub(o.at)
	if o.k == timer {
		if got := o.rt.Stop(); got != d {
			l.c.Fatalf("a timer that ran for %v says %v when stopped", d, got)
		}
		if !o.stopped {
			o.f.timerModel.add(d)
		}
		o.stopped = true
		if r.Intn(3) > 0 {
			l.open = append(l.open[:i], l.open[i+1:]...)
		}
		l.c.Logf("Timer stops after %v", d)
		return
	}
	l.open = append(l.open[:i], l.open[i+1:]...)
	how := r.Intn(8)
	l.c.Logf("%v ends after %v, %d", o.k, d, how)
	l.c.SigN(uint64(how) + 100)
	var err error
	bad := true
	switch how {
	case 0:
		o.exit(nil)
		bad = false
	case 1, 2:
		o.exit(&err)
		bad = false
	case 3:
		err = errs[r.Intn(len(errs))]
		if o.ctx != nil && o.ctx.Err() != nil && r.Intn(2) == 0 {
			err = o.ctx.Err()
		}
		o.exit(&err)
	case 4:
		err = &slow{someTime(r)}
		o.exit(&err)
	case 5:
		err = &slowSelf{someTime(r)}
		o.exit(&err)
	case 6:
		if r.Intn(2) == 0 {
			err = someErr
		}
		_, p := vh.Catch(func() { defer o.exit(&err); panic("boom") })
		if !p {
			l.c.Fatalf("the panic got lost")
		}
	case 7:
		// the goroutine ends without a panic
		done := make(chan struct{})
		go func() {
			defer close(done)
			defer o.exit(&err)
			runtime.Goexit()
		}()
		<-done
		bad = false
	}
	if bad {
		o.f.bad.add(d)
	} else {
		o.f.good.add(d)
	}
	if o.span != nil {
		l.obs.mtx.Lock()
		at, ok := l.obs.last[o.span]
		l.obs.mtx.Unlock()
		if ok {
			l.same("the finish time", at, l.when(now))
			if got := at.Sub(o.span.Start()); got != d {
				l.c.Fatalf("start and finish are %v apart, not %v", got, d)
			}
		} else if o.span.Trace() == l.trace {
			l.c.Fatalf("no finish was observed")
		}
		if r.Intn(4) == 0 {
			// observers never come back to it
			delete(l.obs.last, o.span)
		}
	}
}

func timelines(c *vh.C) {
	n := 1 + c.Rng.Intn(4)
	start := make(chan struct{})
	var ends atomic.Int64
	for g := 0; g < n; g++ {
		l := &timeline{c: c, r: rand.New(rand.NewSource(c.Rng.Int63())), reg: monkit.NewRegistry()}
		sc := l.reg.ScopeNamed("s")
		for i := 0; i < 2; i++ {
			l.fns = append(l.fns, &fn{f: sc.FuncNamed(fmt.Sprint("f", i))}, &fn{t: sc.Timer(fmt.Sprint("t", i))})
		}
		l.fns = append(l.fns, &fn{f: sc.Func(), key: "unnamed"})
		l.obs = &watcher{last: map[*monkit.Span]time.Time{}}
		l.trace = monkit.NewTrace(3)
		l.trace.ObserveSpans(l.obs)
		l.reg.ObserveTraces(func(t *monkit.Trace) {
			time.Sleep(l.sleep)
			if t != l.trace {
				t.ObserveSpans(l.obs)
			}
		})
		c.Go(func() {
			<-start
			l.t0, l.b0 = time.Now(), monotime.Now()
			for i := 10 + l.r.Intn(40); i > 0; i-- {
				switch l.r.Intn(5) {
				case 0, 1:
					l.start()
				case 2:
					time.Sleep(someTime(l.r))
				case 3:
					l.stop()
				case 4:
					l.look()
				}
			}
			for len(l.open) > 0 {
				l.stop()
				time.Sleep(someTime(l.r) / 4)
			}
			for _, cancel := range l.done {
				cancel()
			}
			for _, f := range l.fns {
				f.check(c)
			}
			ends.Add(1)
		})
	}
	close(start)
	c.Wait()
	if !c.Failed() && ends.Load() != int64(n) {
		c.Failf("a timeline didn't end")
	}
}

// together has several goroutines share functions and timers.
func together(c *vh.C) {
	reg := monkit.NewRegistry()
	sc := reg.ScopeNamed("s")
	f, tm := sc.FuncNamed("f"), sc.Timer("t")
	var mtx sync.Mutex
	var good, bad, times model
	n := 2 + c.Rng.Intn(8)
	for g := 0; g < n; g++ {
		seed := c.Rng.Int63()
		c.Go(func() {
			r := rand.New(rand.NewSource(seed))
			for i := 0; i < 10; i++ {
				d := someTime(r)
				time.Sleep(someTime(r) / 8)
				switch k := r.Intn(4); k {
				case 0:
					t := tm.Start()
					time.Sleep(d)
					if got := t.Stop(); got != d {
						c.Fatalf("a timer that ran for %v says %v", d, got)
					}
					mtx.Lock()
					times.add(d)
					mtx.Unlock()
				default:
					ctx := context.Background()
					var exit func(*error)
					if r.Intn(3) == 0 {
						exit = f.Observe()
					} else {
						exit = f.Task(&ctx)
					}
					time.Sleep(d)
					m := &good
					var err error
					if k == 1 {
						err, m = someErr, &bad
					}
					exit(&err)
					mtx.Lock()
					m.add(d)
					mtx.Unlock()
				}
				c.SigN(uint64(d))
			}
		})
	}
	c.Wait()
	if c.Failed() {
		return
	}
	for _, x := range []struct {
		d *monkit.DurationDist
		m model
	}{{f.SuccessTimes(), good}, {f.FailureTimes(), bad}, {tm.Values(), times}} {
		x.m.rec = x.d.Recent // whichever came last
		compare(c, "times of all", x.d, &x.m)
	}
	c.Events(10 * n)
}

// collected checks the times in collections.
func collected(c *vh.C) {
	r := c.Rng
	sc := monkit.NewRegistry().ScopeNamed("s")
	type truth struct{ start, end time.Time }
	want := map[*monkit.Span]*truth{}
	t0, b0 := time.Now(), monotime.Now()
	ctx := context.Background()
	defer sc.FuncNamed("root").Task(&ctx)(nil)
	var rec func(ctx context.Context, depth int)
	rec = func(ctx context.Context, depth int) {
		for i := r.Intn(4); i > 0; i-- {
			time.Sleep(someTime(r) / 16)
			ctx := ctx
			tr := &truth{start: time.Now()}
			exit := sc.FuncNamed(fmt.Sprint("f", r.Intn(3))).Task(&ctx)
			want[monkit.SpanFromCtx(ctx)] = tr
			time.Sleep(someTime(r) / 16)
			if depth > 0 {
				rec(ctx, depth-1)
			}
			tr.end = time.Now()
			exit(nil)
		}
	}
	spans := collect.CollectSpans(ctx, func(ctx context.Context) { rec(ctx, 2) })
	n := 0
	for _, s := range spans {
		w := want[s.Span]
		if w == nil {
			continue
		}
		n++
		if d := s.Span.Start().Sub(b0) - w.start.Sub(t0); d != 0 {
			c.Fatalf("a collected start is off by %v", d)
		}
		if d := s.Finish.Sub(b0) - w.end.Sub(t0); d != 0 {
			c.Fatalf("a collected finish is off by %v", d)
		}
	}
	if n != len(want) {
		c.Fatalf("%d of %d spans were collected", n, len(want))
	}
	c.Events(n)
	c.Sig(n, len(spans), time.Since(t0))
}

// brackets measures real calls from inside and outside.
func brackets(c *vh.C) {
	sc := monkit.NewRegistry().ScopeNamed("s")
	n := 1 + c.Rng.Intn(8)
	shared := sc.FuncNamed("shared")
	var inner, outer, apart, count atomic.Int64
	var turn atomic.Int64
	if wallSkew != nil {
		stop := make(chan struct{})
		seed := c.Rng.Int63()
		skewed := make(chan struct{})
		go func() {
			defer close(skewed)
			r := rand.New(rand.NewSource(seed))
			for {
				select {
				case <-stop:
					atomic.StoreInt64(wallSkew, 0)
					return
				default:
					x := r.Int63n(400000) - 200000
					atomic.StoreInt64(wallSkew, x)
					turn.Add(1)
					time.Sleep(time.Duration(r.Intn(20)) * time.Microsecond)
				}
			}
		}()
		defer func() { close(stop); <-skewed }()
	}
	obs := &watcher{last: map[*monkit.Span]time.Time{}}
	for g := 0; g < n; g++ {
		seed := c.Rng.Int63()
		c.Go(func() {
			r := rand.New(rand.NewSource(seed))
			tr := monkit.NewTrace(1)
			tr.ObserveSpans(obs)
			for i := 0; i < 12; i++ {
				f := sc.FuncNamed(fmt.Sprint("f", seed, i))
				tm := sc.Timer(fmt.Sprint("t", seed, i))
				var err error
				if r.Intn(2) == 0 {
					err = someErr
				}
				x0 := time.Now()
				t := tm.Start()
				x1 := time.Now()
				ctx := context.Background()
				exit := f.RemoteTrace(&ctx, 3, tr)
				outside := monkit.SpanFromCtx(ctx)
				exit2 := shared.Task(&ctx)
				x2 := time.Now()
				switch r.Intn(4) {
				case 0:
					time.Sleep(time.Duration(r.Intn(200)) * time.Microsecond)
				case 1:
					runtime.Gosched()
				case 2:
					for j := r.Intn(100000); j > 0; j-- {
						_ = j
					}
				}
				s := monkit.SpanFromCtx(ctx)
				y0 := time.Now()
				dur := s.Duration()
				y1 := time.Now()
				if dur < y0.Sub(x2) || dur > y1.Sub(x1) {
					c.Failf("a span ran for %v to %v but says %v", y0.Sub(x2), y1.Sub(x1), dur)
				}
				x3 := time.Now()
				exit2(nil)
				exit(&err)
				x4 := time.Now()
				stopped := t.Stop()
				x5 := time.Now()
				got := f.SuccessTimes()
				if err != nil {
					got = f.FailureTimes()
				}
				if got.Count != 1 || got.Recent < x3.Sub(x2) || got.Recent > x4.Sub(x1) {
					c.Failf("a call of %v to %v is recorded as %v (%d)", x3.Sub(x2), x4.Sub(x1), got.Recent, got.Count)
				}
				if stopped < x4.Sub(x1) || stopped > x5.Sub(x0) {
					c.Failf("a timer ran for %v to %v but says %v", x4.Sub(x1), x5.Sub(x0), stopped)
				}
				if v := tm.Values(); v.Count != 1 || v.Recent != stopped {
					c.Failf("a timer said %v but recorded %v", stopped, v.Recent)
				}
				root := monkit.SpanFromCtx(ctx)
				obs.mtx.Lock()
				at, outAt := obs.last[root], obs.last[outside]
				obs.mtx.Unlock()
				d := at.Sub(root.Start())
				if d < x3.Sub(x2) || d > x4.Sub(x1) || at.UnixNano()-root.Start().UnixNano() != int64(d) {
					c.Failf("a span of %v to %v started and finished %v apart (%d)", x3.Sub(x2), x4.Sub(x1), d, at.UnixNano()-root.Start().UnixNano())
				}
				if out := outAt.Sub(outside.Start()); out != got.Recent {
					c.Failf("a span started and finished %v apart, but its call is recorded as %v", out, got.Recent)
				}
				apart.Add(int64(d))
				inner.Add(int64(x3.Sub(x2)))
				outer.Add(int64(x4.Sub(x1)))
				count.Add(1)
			}
		})
	}
	c.Wait()
	if c.Failed() {
		return
	}
	st := shared.SuccessTimes()
	if st.Count != count.Load() || int64(st.Sum) < inner.Load() || int64(st.Sum) > outer.Load() {
		c.Failf("%d calls of %v to %v are recorded as %d of %v", count.Load(), time.Duration(inner.Load()), time.Duration(outer.Load()), st.Count, st.Sum)
	}
	if int64(st.Sum) != apart.Load() {
		c.Failf("spans started and finished %v apart in all, but their calls are recorded as %v", time.Duration(apart.Load()), st.Sum)
	}
	c.Note("jumps of the wall clock", turn.Load())
	c.Events(int(count.Load()) * 4)
	c.Sig(st.Sum)
}

// clock reads the library's clock from many goroutines.
func clock(c *vh.C) {
	var last atomic.Pointer[time.Time]
	first := monotime.Now()
	last.Store(&first)
	n := 2 + c.Rng.Intn(7)
	for g := 0; g < n; g++ {
		c.Go(func() {
			var prev time.Time
			for i := 0; i < 200; i++ {
				if wallSkew != nil && i%7 == 0 {
					atomic.StoreInt64(wallSkew, int64(i*n-700))
				}
				m := last.Load()
				a := time.Now()
				t := monotime.Now()
				b := time.Now()
				if t.Before(*m) || t.UnixNano() < m.UnixNano() || t.Sub(*m) < 0 {
					c.Fatalf("time went back by %v", m.Sub(t))
				}
				if i > 0 && (t.Before(prev) || t.UnixNano() < prev.UnixNano()) {
					c.Fatalf("time went back by %v", prev.Sub(t))
				}
				lo, hi := a.Sub(first), b.Sub(first)
				if d := t.Sub(first); d < lo || d > hi {
					c.Fatalf("%v passed, not %v to %v", d, lo, hi)
				}
				prev = t
				last.CompareAndSwap(m, &t)
				c.SigN(uint64(t.UnixNano()))
			}
			c.Events(200)
		})
	}
	c.Wait()
	if wallSkew != nil {
		atomic.StoreInt64(wallSkew, 0)
	}
	if s := first.String(); !strings.Contains(s, " m=") {
		c.Note("without monotonic reading", 1)
	}
}

// windows makes the performance counter jump and checks what the clock of the
// Windows build and the times recorded with it make of it.
func windows(c *vh.C) {
	r := c.Rng
	ns := func(ticks int64) *big.Int {
		x := new(big.Int).Mul(big.NewInt(ticks), big.NewInt(1e9))
		return x.Div(x, big.NewInt(winFreq))
	}
	close := func(what string, got time.Duration, ticks int64) {
		d := new(big.Int).Sub(ns(ticks), big.NewInt(int64(got)))
		if !d.IsInt64() || d.Int64() < -3 || d.Int64() > 3 {
			c.Failf("%s: %d ticks at %d per second are %v, want %v ns", what, ticks, winFreq, got, ns(ticks))
		}
		c.Events(1)
	}
	atomic.StoreInt64(winCounter, 1234567890123+r.Int63n(winFreq*3600))
	reg := monkit.NewRegistry()
	f := reg.ScopeNamed("s").FuncNamed("f")
	first, sum := monotime.Now(), int64(0)
	last := first
	for i := 0; i < 20; i++ {
		// from a tick to about a year
		ticks := r.Int63n(1 + int64(math.Exp(r.Float64()*math.Log(float64(winFreq)*3e7))))
		ctx := context.Background()
		before := atomic.LoadInt64(winCounter)
		exit := f.Task(&ctx)
		s := monkit.SpanFromCtx(ctx)
		atomic.AddInt64(winCounter, ticks)
		if r.Intn(3) == 0 {
			err := errors.New("e")
			exit(&err)
			close("failure time", f.FailureTimes().Recent, ticks)
		} else {
			exit(nil)
			close("success time", f.SuccessTimes().Recent, ticks)
		}
		close("span start", s.Start().Sub(first), sum)
		sum += ticks
		now := monotime.Now()
		if now.Before(last) {
			c.Failf("the clock went back from %v to %v when the counter went from %d to %d", last, now, before, before+ticks)
		}
		last = now
		close("clock", now.Sub(first), sum)
		c.Logf("%d ticks, %v", ticks, now.Sub(first))
		c.Sig(bits.Len64(uint64(ticks)), bits.Len64(uint64(sum)))
	}
}

func TestCheck(t *testing.T) {
	if vh.Phase("skew") && wallSkew == nil {
		h := vh.New(t, "C29")
		h.Note("no patched clock", 1)
		h.Finish()
		return
	}
	if strings.HasPrefix(os.Getenv("VH_PHASE"), "win") {
		h := vh.New(t, "C29")
		if winCounter == nil {
			h.Note("no clock of the Windows build", 1)
		} else {
			h.Serial("windows clock", h.N(300), windows)
		}
		h.Finish()
		return
	}
	if vh.Phase("real") || vh.Phase("skew") {
		h := vh.New(t, "C29")
		h.Conc("brackets", h.N(500), brackets)
		h.Conc("clock", h.N(200), clock)
		h.Finish()
		return
	}
	vh.Bubble(t, "C29", func(h *vh.H) {
		h.ConcPar("timelines", h.N(3000), timelines)
		h.Conc("together", h.N(300), together)
		h.Seq("collected", h.N(1000), collected)
	})
}
