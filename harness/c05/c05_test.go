package c05

import (
	"context"
	"errors"
	"fmt"
	"math/rand"
	"runtime"
	"sync"
	"sync/atomic"
	"testing"
	"time"

	"github.com/spacemonkeygo/monkit/v3"

	"verifh/vh"
	"verifh/wm"
)

func TestCheck(t *testing.T) {
	vh.Main(t, "C05", func(h *vh.H) {
		h.Seq("big", h.N(12), big)
		h.Seq("sequential model", h.N(1500), model)
		h.Seq("twice", h.N(300), twice)
		h.Conc("churn", h.N(150), churn)
		h.Conc("cancel storm", h.N(400), storm)
	})
}

func model(c *vh.C) {
	w := wm.New(c, wm.Checks{Events: true, Ordered: true, Observers: true, Reuse: true})
	n := 30 + c.Rng.Intn(80)
	for i := 0; i < n; i++ {
		w.Step()
	}
	w.Drain()
}

type counting struct{ starts, finishes int }

func (o *counting) Start(s *monkit.Span) { o.starts++ }
func (o *counting) Finish(s *monkit.Span, err error, panicked bool, finish time.Time) {
	o.finishes++
}

// twice registers the same observer several times: each registration counts
// and is cancelled on its own, once.
func twice(c *vh.C) {
	r := c.Rng
	reg := monkit.NewRegistry()
	f := reg.ScopeNamed("s").FuncNamed("f")
	root := context.Background()
	defer f.Task(&root)(nil)
	trace := monkit.SpanFromCtx(root).Trace()
	obs := []*counting{{}, {}}
	regs := []int{0, 0}
	type rg struct {
		cancel func()
		who    int
		gone   bool
	}
	var all []*rg
	for i := 0; i < 25; i++ {
		switch k := r.Intn(4); {
		case k == 0 && len(all) < 8:
			who := r.Intn(2)
			all = append(all, &rg{cancel: trace.ObserveSpans(obs[who]), who: who})
			regs[who]++
			c.SigN(uint64(who))
		case k == 1 && len(all) > 0:
			j := r.Intn(len(all))
			x := all[j]
			x.cancel()
			if !x.gone {
				x.gone = true
				regs[x.who]--
			}
			c.SigN(uint64(10 + j))
		default:
			before := []counting{*obs[0], *obs[1]}
			ctx := root
			f.Task(&ctx)(nil)
			c.Events(2)
			for w := range obs {
				if d := obs[w].starts - before[w].starts; d != regs[w] {
					c.Fatalf("observer %d registered %d times got %d starts", w, regs[w], d)
				}
				if d := obs[w].finishes - before[w].finishes; d != regs[w] {
					c.Fatalf("observer %d registered %d times got %d finishes", w, regs[w], d)
				}
			}
		}
	}
	c.Logf("%d registrations", len(all))
}

var clock int64

func tick() int64 { return atomic.AddInt64(&clock, 1) }

type span struct {
	s                                    *monkit.Span
	idx                                  int
	startCall, startRet, finCall, finRet int64
	err                                  error
	panicked                             bool
	ctx                                  context.Context
	before, after                        time.Time
}

type note struct {
	at       int64
	ctx      context.Context
	err      error
	panicked bool
	finish   time.Time
}

type obsKey struct{ o *obs }

// obs records what it is told.
type obs struct {
	idx                                  int
	wrap                                 bool
	regCall, regRet, cancelCall, cancRet int64
	mu                                   sync.Mutex
	starts, finishes                     map[*monkit.Span][]note
}

func newObs(i int, wrap bool) *obs {
	return &obs{idx: i, wrap: wrap, starts: map[*monkit.Span][]note{}, finishes: map[*monkit.Span][]note{}}
}

func (o *obs) Start(ctx context.Context, s *monkit.Span) context.Context {
	o.mu.Lock()
	o.starts[s] = append(o.starts[s], note{at: tick(), ctx: ctx})
	o.mu.Unlock()
	runtime.Gosched()
	if o.wrap {
		return context.WithValue(ctx, obsKey{o}, s)
	}
	return ctx
}

func (o *obs) Finish(ctx context.Context, s *monkit.Span, err error, panicked bool, finish time.Time) {
	o.mu.Lock()
	o.finishes[s] = append(o.finishes[s], note{at: tick(), ctx: ctx, err: err, panicked: panicked, finish: finish})
	o.mu.Unlock()
	runtime.Gosched()
}

const never = int64(1) << 62

// churn starts and finishes spans of a few traces while observers come and go.
func churn(c *vh.C) {
	r := c.Rng
	reg := monkit.NewRegistry()
	f := reg.ScopeNamed("s").FuncNamed("f")
	nt := 1 + r.Intn(2)
	roots := make([]context.Context, nt)
	for i := range roots {
		roots[i] = context.Background()
		defer f.Task(&roots[i])(nil)
	}
	var mu sync.Mutex
	spans := make([][]*span, nt)
	obss := make([][]*obs, nt)
	var nobs int32
	gate := make(chan struct{})
	for g := 1 + r.Intn(4); g > 0; g-- {
		r := rand.New(rand.NewSource(r.Int63()))
		c.Go(func() {
			<-gate
			for k := 0; k < 12; k++ {
				ti := r.Intn(nt)
				var open []*span
				var exits []func(*error)
				ctx := roots[ti]
				for d := r.Intn(3); d >= 0; d-- {
					sp := &span{}
					sp.startCall = tick()
					e := f.Task(&ctx)
					sp.startRet = tick()
					sp.s, sp.ctx = monkit.SpanFromCtx(ctx), ctx
					open, exits = append(open, sp), append(exits, e)
				}
				for i := len(open) - 1; i >= 0; i-- {
					sp := open[i]
					var err error
					if r.Intn(2) == 0 {
						err = fmt.Errorf("error %d", r.Int())
					}
					sp.err, sp.panicked = err, r.Intn(3) == 0
					vh.Catch(func() {
						sp.before = time.Now()
						sp.finCall = tick()
						defer exits[i](&err)
						if sp.panicked {
							panic("x")
						}
					})
					sp.finRet = tick()
					sp.after = time.Now()
				}
				mu.Lock()
				spans[ti] = append(spans[ti], open...)
				mu.Unlock()
			}
		})
	}
	for g := 1 + r.Intn(4); g > 0; g-- {
		r := rand.New(rand.NewSource(r.Int63()))
		c.Go(func() {
			<-gate
			var mine []*obs
			var cancels []func()
			for k := 0; k < 10; k++ {
				if len(mine) > 0 && r.Intn(2) == 0 {
					i := r.Intn(len(mine))
					o := mine[i]
					first := o.cancelCall == 0
					if first {
						o.cancelCall = tick()
					}
					cancels[i]()
					if first {
						o.cancRet = tick()
					}
				} else {
					ti := r.Intn(nt)
					o := newObs(int(atomic.AddInt32(&nobs, 1)), r.Intn(2) == 0)
					o.regCall = tick()
					cancel := monkit.SpanFromCtx(roots[ti]).Trace().ObserveSpansCtx(o)
					o.regRet = tick()
					mine, cancels = append(mine, o), append(cancels, cancel)
					mu.Lock()
					obss[ti] = append(obss[ti], o)
					mu.Unlock()
				}
				runtime.Gosched()
			}
		})
	}
	close(gate)
	c.Wait()
	for ti := range spans {
		known := map[*monkit.Span]bool{monkit.SpanFromCtx(roots[ti]): true}
		for _, sp := range spans[ti] {
			known[sp.s] = true
			c.SigN(uint64(sp.startCall - sp.finRet))
		}
		for _, o := range obss[ti] {
			if o.cancelCall == 0 {
				o.cancelCall, o.cancRet = never, never
			}
			for s := range o.starts {
				if !known[s] {
					c.Failf("observer %d got the start of a span of another trace", o.idx)
				}
			}
			for s := range o.finishes {
				if !known[s] {
					c.Failf("observer %d got the finish of a span of another trace", o.idx)
				}
			}
			for _, sp := range spans[ti] {
				st, fi := o.starts[sp.s], o.finishes[sp.s]
				c.Events(len(st) + len(fi))
				c.SigN(uint64(len(st)*2 + len(fi)))
				count(c, fmt.Sprintf("starts of a span by observer %d", o.idx), len(st), o, sp.startCall, sp.startRet)
				count(c, fmt.Sprintf("finishes of a span by observer %d", o.idx), len(fi), o, sp.finCall, sp.finRet)
				for _, n := range st {
					if n.at < sp.startCall || n.at > sp.startRet {
						c.Failf("start notification outside of the start")
					}
					if o.wrap && sp.ctx.Value(obsKey{o}) != sp.s {
						c.Failf("the monitored code's context lacks what observer %d returned", o.idx)
					}
				}
				for _, n := range fi {
					if n.at < sp.finCall || n.at > sp.finRet {
						c.Failf("finish notification outside of the finish")
					}
					if n.err != sp.err || n.panicked != sp.panicked {
						c.Failf("finish notification has error %v panicked %v, want %v %v", n.err, n.panicked, sp.err, sp.panicked)
					}
					if n.finish.Before(sp.before) || n.finish.After(sp.after) {
						c.Failf("finish time %v not within [%v, %v]", n.finish, sp.before, sp.after)
					}
					if n.ctx != sp.ctx {
						c.Failf("finish notification has another context than the monitored code")
					}
				}
			}
		}
		// most recently registered first
		for _, a := range obss[ti] {
			for _, b := range obss[ti] {
				if a.regRet >= b.regCall {
					continue
				}
				for s, bn := range b.starts {
					if an := a.starts[s]; len(an) == 1 && len(bn) == 1 {
						if an[0].at < bn[0].at {
							c.Failf("start told to observer %d before the later registered %d", a.idx, b.idx)
						}
						if b.wrap && an[0].ctx.Value(obsKey{b}) != s {
							c.Failf("observer %d was not given the context that %d returned", a.idx, b.idx)
						}
					}
				}
				for s, bn := range b.finishes {
					if an := a.finishes[s]; len(an) == 1 && len(bn) == 1 && an[0].at < bn[0].at {
						c.Failf("finish told to observer %d before the later registered %d", a.idx, b.idx)
					}
				}
			}
		}
	}
	c.Logf("%d observers", nobs)
}

func count(c *vh.C, what string, n int, o *obs, call, ret int64) {
	switch {
	case call > o.regRet && ret < o.cancelCall:
		if n != 1 {
			c.Failf("%d %s that was registered throughout, want 1", n, what)
		}
	case ret < o.regCall:
		if n != 0 {
			c.Failf("%d %s that was registered later", n, what)
		}
	case call > o.cancRet:
		if n != 0 {
			c.Failf("%d %s that was cancelled before", n, what)
		}
	default:
		if n > 1 {
			c.Failf("%d %s", n, what)
		}
	}
}

// storm cancels and registers many observers of one trace at the same moment.
func storm(c *vh.C) {
	r := c.Rng
	reg := monkit.NewRegistry()
	f := reg.ScopeNamed("s").FuncNamed("f")
	root := context.Background()
	defer f.Task(&root)(nil)
	trace := monkit.SpanFromCtx(root).Trace()
	type rg struct {
		o      *obs
		cancel func()
	}
	var live []rg
	var dead []*obs
	n := 0
	for round := 0; round < 3; round++ {
		for i := r.Intn(9); i > 0; i-- {
			n++
			o := newObs(n, r.Intn(3) == 0)
			live = append(live, rg{o, trace.ObserveSpansCtx(o)})
		}
		gate := make(chan struct{})
		var keep []rg
		var mu sync.Mutex
		for _, x := range live {
			if r.Intn(5) < 2 {
				keep = append(keep, x)
				continue
			}
			x := x
			dead = append(dead, x.o)
			c.SigN(uint64(x.o.idx))
			for k := 1 + r.Intn(2); k > 0; k-- {
				c.Go(func() { <-gate; x.cancel() })
			}
		}
		for i := r.Intn(4); i > 0; i-- {
			n++
			o := newObs(n, r.Intn(3) == 0)
			c.Go(func() {
				<-gate
				cancel := trace.ObserveSpansCtx(o)
				mu.Lock()
				keep = append(keep, rg{o, cancel})
				mu.Unlock()
			})
		}
		if r.Intn(2) == 0 {
			c.Go(func() {
				<-gate
				ctx := root
				f.Task(&ctx)(nil)
			})
		}
		close(gate)
		c.Wait()
		live = keep
		ctx := root
		err := errors.New("e")
		e := f.Task(&ctx)
		s := monkit.SpanFromCtx(ctx)
		e(&err)
		c.Events(len(live))
		for _, x := range live {
			if a, b := len(x.o.starts[s]), len(x.o.finishes[s]); a != 1 || b != 1 {
				c.Failf("observer %d is registered but got %d starts and %d finishes", x.o.idx, a, b)
			} else if x.o.finishes[s][0].err != err {
				c.Failf("wrong error")
			}
		}
		for _, o := range dead {
			if a, b := len(o.starts[s]), len(o.finishes[s]); a != 0 || b != 0 {
				c.Failf("observer %d is cancelled but got %d starts and %d finishes", o.idx, a, b)
			}
		}
	}
	c.Logf("%d observers, %d cancelled", n, len(dead))
}
