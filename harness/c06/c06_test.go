package c06

import (
	"context"
	"fmt"
	"math/rand"
	"runtime"
	"sync"
	"sync/atomic"
	"testing"
	"time"

	"github.com/spacemonkeygo/monkit/v3"
	"github.com/spacemonkeygo/monkit/v3/collect"

	"verifh/vh"
	"verifh/wm"
)

func TestCheck(t *testing.T) {
	vh.Main(t, "C06", func(h *vh.H) {
		h.Seq("big", h.N(12), big)
		h.Seq("sequential model", h.N(1500), model)
		h.Seq("registering in a watcher", h.N(300), window)
		h.Conc("watchers", h.N(150), watchers)
		h.Conc("cancel storm", h.N(300), storm)
		h.Conc("all traces", h.N(200), allTraces)
	})
}

func model(c *vh.C) {
	w := wm.New(c, wm.Checks{Events: true, Observers: c.Idx%2 == 0, Watchers: true})
	n := 30 + c.Rng.Intn(80)
	for i := 0; i < n; i++ {
		w.Step()
	}
	w.Drain()
}

var clock int64

func tick() int64 { return atomic.AddInt64(&clock, 1) }

const never = int64(1) << 62

type counts struct {
	mu               sync.Mutex
	starts, finishes map[*monkit.Span]int
}

func newCounts() *counts {
	return &counts{starts: map[*monkit.Span]int{}, finishes: map[*monkit.Span]int{}}
}
func (o *counts) Start(s *monkit.Span) {
	o.mu.Lock()
	o.starts[s]++
	o.mu.Unlock()
	runtime.Gosched()
}
func (o *counts) Finish(s *monkit.Span, err error, panicked bool, finish time.Time) {
	o.mu.Lock()
	o.finishes[s]++
	o.mu.Unlock()
	runtime.Gosched()
}

// window registers watchers and observers at the very moment a trace begins:
// from the callback of another watcher.
func window(c *vh.C) {
	r := c.Rng
	reg := monkit.NewRegistry()
	f := reg.ScopeNamed("s").FuncNamed("f")
	type all struct {
		o      *counts
		cancel func()
	}
	var alls []all
	budget := 1 + r.Intn(3)
	reg.ObserveTraces(func(t *monkit.Trace) {
		if budget > 0 {
			budget--
			o := newCounts()
			alls = append(alls, all{o, collect.ObserveAllTraces(reg, o)})
		}
	})
	other := r.Intn(2) == 0
	if other {
		reg.ObserveTraces(func(t *monkit.Trace) {})
	}
	for i := 0; i < 5; i++ {
		ctx := context.Background()
		var e func(*error)
		k := r.Intn(3)
		c.SigN(uint64(k + 10*len(alls)))
		switch k {
		case 0:
			e = f.Task(&ctx)
		case 1:
			e = f.ResetTrace(&ctx)
		case 2:
			e = f.RemoteTrace(&ctx, 4, monkit.NewTrace(5))
		}
		s := monkit.SpanFromCtx(ctx)
		ctx2 := ctx
		e2 := f.Task(&ctx2)
		s2 := monkit.SpanFromCtx(ctx2)
		e2(nil)
		e(nil)
		for j, a := range alls {
			c.Events(4)
			if a.o.starts[s] != 1 || a.o.finishes[s] != 1 || a.o.starts[s2] != 1 || a.o.finishes[s2] != 1 {
				c.Failf("observer %d, registered while trace began or before, got %d starts and %d finishes of its first span and %d and %d of the next", j,
					a.o.starts[s], a.o.finishes[s], a.o.starts[s2], a.o.finishes[s2])
			}
		}
	}
	for _, a := range alls {
		a.cancel()
	}
	ctx := context.Background()
	f.Task(&ctx)(nil)
	for _, a := range alls {
		if a.o.starts[monkit.SpanFromCtx(ctx)] != 0 {
			c.Failf("told after cancel")
		}
	}
	c.Logf("%d registered in callbacks", len(alls))
}

type watcher struct {
	idx                                  int
	regCall, regRet, cancelCall, cancRet int64
	mu                                   sync.Mutex
	got                                  map[*monkit.Trace]int
	obs                                  *counts
}

type tr struct {
	t         *monkit.Trace
	root      *monkit.Span
	call, ret int64
}

// watchers begins traces while watchers come and go.
func watchers(c *vh.C) {
	r := c.Rng
	reg := monkit.NewRegistry()
	f := reg.ScopeNamed("s").FuncNamed("f")
	var mu sync.Mutex
	var traces []*tr
	var ws []*watcher
	gate := make(chan struct{})
	for g := 1 + r.Intn(4); g > 0; g-- {
		r := rand.New(rand.NewSource(r.Int63()))
		c.Go(func() {
			<-gate
			base := context.Background()
			defer f.Task(&base)(nil)
			for k := 0; k < 15; k++ {
				t := &tr{}
				ctx := context.Background()
				if r.Intn(2) == 0 {
					ctx = base
				}
				t.call = tick()
				var e func(*error)
				switch r.Intn(4) {
				case 0:
					e = f.ResetTrace(&ctx)
				case 1:
					e = f.RemoteTrace(&ctx, 1, monkit.NewTrace(monkit.NewId()))
				case 2:
					ctx = monkit.ResetContextSpan(ctx)
					e = f.Task(&ctx)
				case 3:
					ctx = context.Background()
					e = f.Task(&ctx)
				}
				t.ret = tick()
				t.root = monkit.SpanFromCtx(ctx)
				t.t = t.root.Trace()
				// not a new trace
				f.Task(&ctx)(nil)
				e(nil)
				mu.Lock()
				traces = append(traces, t)
				mu.Unlock()
			}
		})
	}
	for g := 1 + r.Intn(4); g > 0; g-- {
		r := rand.New(rand.NewSource(r.Int63()))
		c.Go(func() {
			<-gate
			var mine []*watcher
			var cancels []func()
			for k := 0; k < 12; k++ {
				if len(mine) > 0 && r.Intn(2) == 0 {
					i := r.Intn(len(mine))
					w := mine[i]
					first := w.cancelCall == 0
					if first {
						w.cancelCall = tick()
					}
					cancels[i]()
					if first {
						w.cancRet = tick()
					}
				} else {
					w := &watcher{got: map[*monkit.Trace]int{}}
					if r.Intn(2) == 0 {
						w.obs = newCounts()
					}
					w.regCall = tick()
					cancel := reg.ObserveTraces(func(t *monkit.Trace) {
						w.mu.Lock()
						w.got[t]++
						w.mu.Unlock()
						runtime.Gosched()
						if w.obs != nil {
							t.ObserveSpans(w.obs)
						}
					})
					w.regRet = tick()
					mine, cancels = append(mine, w), append(cancels, cancel)
					mu.Lock()
					w.idx = len(ws)
					ws = append(ws, w)
					mu.Unlock()
				}
				runtime.Gosched()
			}
		})
	}
	close(gate)
	c.Wait()
	for _, w := range ws {
		if w.cancelCall == 0 {
			w.cancelCall, w.cancRet = never, never
		}
		for _, t := range traces {
			n := w.got[t.t]
			c.Events(n)
			c.SigN(uint64(n))
			switch {
			case t.call > w.regRet && t.ret < w.cancelCall:
				if n != 1 {
					c.Failf("watcher %d was registered throughout but told %d times of a new trace", w.idx, n)
				}
			case t.call > w.cancRet || t.ret < w.regCall:
				if n != 0 {
					c.Failf("watcher %d was not registered but told %d times of a new trace", w.idx, n)
				}
			default:
				if n > 1 {
					c.Failf("watcher %d was told %d times of a new trace", w.idx, n)
				}
			}
			if w.obs != nil && n == 1 {
				if s := w.obs.starts[t.root]; s != 1 {
					c.Failf("an observer installed by watcher %d got %d starts of the trace's first span", w.idx, s)
				}
			}
		}
	}
	c.Logf("%d traces, %d watchers", len(traces), len(ws))
}

// storm registers and cancels many watchers at the same moment.
func storm(c *vh.C) {
	r := c.Rng
	reg := monkit.NewRegistry()
	f := reg.ScopeNamed("s").FuncNamed("f")
	type w struct {
		idx    int
		n      int32
		cancel func()
	}
	var live, dead []*w
	n := 0
	add := func() *w {
		x := &w{idx: n}
		return x
	}
	for round := 0; round < 3; round++ {
		gate := make(chan struct{})
		var keep []*w
		var mu sync.Mutex
		for _, x := range live {
			if r.Intn(2) == 0 {
				keep = append(keep, x)
				continue
			}
			x := x
			dead = append(dead, x)
			for k := 1 + r.Intn(2); k > 0; k-- {
				c.Go(func() { <-gate; x.cancel() })
			}
		}
		for i := r.Intn(6); i > 0; i-- {
			n++
			x := add()
			c.Go(func() {
				<-gate
				x.cancel = reg.ObserveTraces(func(t *monkit.Trace) { atomic.AddInt32(&x.n, 1) })
				mu.Lock()
				keep = append(keep, x)
				mu.Unlock()
			})
		}
		if r.Intn(2) == 0 {
			c.Go(func() { <-gate; ctx := context.Background(); f.Task(&ctx)(nil) })
		}
		close(gate)
		c.Wait()
		live = keep
		for _, x := range append(live[:len(live):len(live)], dead...) {
			atomic.StoreInt32(&x.n, 0)
		}
		ctx := context.Background()
		f.Task(&ctx)(nil)
		for _, x := range live {
			if x.n != 1 {
				c.Failf("watcher %d is registered but was told %d times", x.idx, x.n)
			}
		}
		for _, x := range dead {
			if x.n != 0 {
				c.Failf("watcher %d is cancelled but was told %d times", x.idx, x.n)
			}
		}
		c.Events(len(live) + len(dead))
		c.Sig(len(live), len(dead))
	}
	c.Logf("%d watchers", n)
}

type sp struct {
	s                                    *monkit.Span
	trace                                *monkit.Trace
	root                                 bool
	startCall, startRet, finCall, finRet int64
}

type allObs struct {
	*counts
	regCall, regRet, cancelCall, cancRet int64
}

// allTraces observes all traces while traces and spans begin and end.
func allTraces(c *vh.C) {
	r := c.Rng
	reg := monkit.NewRegistry()
	f := reg.ScopeNamed("s").FuncNamed("f")
	var mu sync.Mutex
	var spans []*sp
	var os []*allObs
	gate := make(chan struct{})
	var tree func(r *rand.Rand, ctx context.Context, d int)
	tree = func(r *rand.Rand, ctx context.Context, d int) {
		x := &sp{root: monkit.SpanFromCtx(ctx) == nil, startCall: tick()}
		var e func(*error)
		if k := r.Intn(5); k == 0 {
			x.root = true
			e = f.ResetTrace(&ctx)
		} else if k == 1 {
			x.root = true
			e = f.RemoteTrace(&ctx, 1, monkit.NewTrace(monkit.NewId()))
		} else {
			e = f.Task(&ctx)
		}
		x.startRet = tick()
		x.s = monkit.SpanFromCtx(ctx)
		x.trace = x.s.Trace()
		for k := r.Intn(4); k > 0 && d > 0; k-- {
			if r.Intn(4) == 0 {
				r2 := rand.New(rand.NewSource(r.Int63()))
				c.Go(func() { tree(r2, ctx, d-1) })
			} else {
				tree(r, ctx, d-1)
			}
		}
		runtime.Gosched()
		x.finCall = tick()
		e(nil)
		x.finRet = tick()
		mu.Lock()
		spans = append(spans, x)
		mu.Unlock()
	}
	for g := 1 + r.Intn(4); g > 0; g-- {
		r := rand.New(rand.NewSource(r.Int63()))
		c.Go(func() {
			<-gate
			for k := 0; k < 6; k++ {
				tree(r, context.Background(), 2)
			}
		})
	}
	for g := 1 + r.Intn(3); g > 0; g-- {
		r := rand.New(rand.NewSource(r.Int63()))
		c.Go(func() {
			<-gate
			for k := 0; k < 4; k++ {
				o := &allObs{counts: newCounts()}
				o.regCall = tick()
				cancel := collect.ObserveAllTraces(reg, o)
				o.regRet = tick()
				mu.Lock()
				os = append(os, o)
				mu.Unlock()
				if r.Intn(4) == 0 {
					o.cancelCall, o.cancRet = never, never
					continue
				}
				for i := r.Intn(40); i > 0; i-- {
					runtime.Gosched()
				}
				o.cancelCall = tick()
				cancel()
				if r.Intn(3) == 0 {
					cancel()
				}
				o.cancRet = tick()
			}
		})
	}
	close(gate)
	c.Wait()
	must := 0
	for oi, o := range os {
		// traces that the observer must be on: with a span that lives through
		// the registration, or that begin during or after it and live on
		on := map[*monkit.Trace]bool{}
		for _, x := range spans {
			if x.startRet < o.regCall && x.finCall > o.regRet {
				on[x.trace] = true
			}
			if x.root && x.startRet > o.regCall && x.finCall > o.regRet {
				on[x.trace] = true
			}
		}
		for _, x := range spans {
			check := func(what string, n int, call, ret int64) {
				c.Events(n)
				c.SigN(uint64(n))
				switch {
				case on[x.trace] && call > o.regRet && ret < o.cancelCall:
					must++
					if n != 1 {
						c.Failf("observer %d got %d %s of a span (root %v) in a trace it must observe", oi, n, what, x.root)
					}
				case ret < o.regCall || call > o.cancRet:
					if n != 0 {
						c.Failf("observer %d got %d %s of a span although not registered", oi, n, what)
					}
				default:
					if n > 1 {
						c.Failf("observer %d got %d %s of one span", oi, n, what)
					}
				}
			}
			check("starts", o.starts[x.s], x.startCall, x.startRet)
			check("finishes", o.finishes[x.s], x.finCall, x.finRet)
		}
	}
	c.Note("notifications required", int64(must))
	c.Logf("%d spans, %d observers, %d notifications required", len(spans), len(os), must)
	_ = fmt.Sprint
}
