package c04

import (
	"context"
	"math/rand"
	"runtime"
	"sync"
	"sync/atomic"
	"testing"

	"github.com/spacemonkeygo/monkit/v3"

	"verifh/vh"
	"verifh/wm"
)

func TestCheck(t *testing.T) {
	vh.Main(t, "C04", func(h *vh.H) {
		h.Seq("big", h.N(12), big)
		h.Seq("sequential model", h.N(1200), model)
		h.Conc("concurrent model", h.N(120), stress)
		h.Conc("handshake", h.N(250), handshake)
		h.Conc("walks", h.N(30), walks)
		h.Conc("handover", h.N(40), handover)
		h.Conc("siblings", h.N(60), siblings)
		h.Serial("default registry", 20, defaultRegistry)
	})
}

func model(c *vh.C) {
	w := wm.New(c, wm.Checks{Live: true, Observers: c.Idx%5 == 0, Reuse: true})
	n := 20 + c.Rng.Intn(80)
	for i := 0; i < n; i++ {
		w.Step()
	}
	w.Drain()
}

func stress(c *vh.C) {
	s := wm.NewStress(c, wm.Checks{Live: true})
	s.Run(2+c.Rng.Intn(7), 5+c.Rng.Intn(25), 1+c.Rng.Intn(4), 25)
	c.Logf("%v", s)
	c.Note("quiescent inspections", s.Inspections)
}

// handshake lets a parent, its children and new children start and finish at
// the same moment, and compares the views afterwards.
func handshake(c *vh.C) {
	s := wm.NewStress(c, wm.Checks{Live: true})
	rounds := 4
	var open []*wm.SpanM
	for round := 0; round < rounds && !c.Failed(); round++ {
		r := c.Rng
		if len(open) == 0 || r.Intn(2) == 0 {
			open = append(open, s.Begin(r, nil))
		}
		parent := open[r.Intn(len(open))]
		for k := r.Intn(3); k > 0; k-- {
			open = append(open, s.Begin(r, parent))
		}
		var wg sync.WaitGroup
		gate := make(chan struct{})
		var mu sync.Mutex
		left := []*wm.SpanM{}
		for _, m := range open {
			m := m
			r2 := rand.New(rand.NewSource(r.Int63()))
			if r.Intn(4) == 0 {
				left = append(left, m)
				continue
			}
			wg.Add(1)
			c.Go(func() {
				defer wg.Done()
				<-gate
				s.End(r2, m)
			})
		}
		for k := r.Intn(4); k > 0; k-- {
			p := open[r.Intn(len(open))]
			r2 := rand.New(rand.NewSource(r.Int63()))
			wg.Add(1)
			c.Go(func() {
				defer wg.Done()
				<-gate
				m := s.Begin(r2, p)
				if m != nil && r2.Intn(3) == 0 {
					s.End(r2, m)
					return
				}
				mu.Lock()
				left = append(left, m)
				mu.Unlock()
			})
		}
		close(gate)
		wg.Wait()
		open = left
		s.Inspect()
	}
	for _, m := range open {
		s.End(c.Rng, m)
	}
	s.Inspect()
	c.Logf("%v", s)
}

// walks checks that spans that stay are seen by every walk while others come
// and go around them.
func walks(c *vh.C) {
	r := c.Rng
	reg := monkit.NewRegistry()
	fn := func(r *rand.Rand) *monkit.Func {
		return reg.ScopeNamed([]string{"s", "s-x", "s.f", "s0"}[r.Intn(4)]).FuncNamed([]string{"f0", "f", "f0.x", "f-1"}[r.Intn(4)])
	}
	type stay struct {
		ctx      context.Context
		s        *monkit.Span
		kids     map[*monkit.Span]bool
		orphaned bool
	}
	var stays []*stay
	var exits []func(*error)
	for i := 2 + r.Intn(10); i > 0; i-- {
		x := &stay{ctx: context.Background(), kids: map[*monkit.Span]bool{}}
		var p *stay
		switch {
		case len(stays) > 0 && r.Intn(4) != 0:
			p = stays[r.Intn(len(stays))]
			x.ctx = p.ctx
		case r.Intn(3) == 0:
			// one whose parent is gone
			e := fn(r).Task(&x.ctx)
			e(nil)
			x.orphaned = true
		}
		exits = append(exits, fn(r).Task(&x.ctx))
		x.s = monkit.SpanFromCtx(x.ctx)
		stays = append(stays, x)
		if p != nil {
			p.kids[x.s] = true
		}
	}
	var stop int32
	var wg, cw sync.WaitGroup
	n := 2 + r.Intn(4)
	for g := 0; g < n; g++ {
		r := rand.New(rand.NewSource(r.Int63()))
		cw.Add(1)
		c.Go(func() {
			defer cw.Done()
			for i := 0; atomic.LoadInt32(&stop) == 0; i++ {
				ctx := context.Background()
				if r.Intn(3) != 0 {
					ctx = stays[r.Intn(len(stays))].ctx
				}
				var es []func(*error)
				for d := r.Intn(3); d >= 0; d-- {
					es = append(es, fn(r).Task(&ctx))
				}
				r.Shuffle(len(es), func(i, j int) { es[i], es[j] = es[j], es[i] })
				for _, e := range es {
					e(nil)
				}
				runtime.Gosched()
			}
		})
	}
	for g := 0; g < 2; g++ {
		g := g
		wg.Add(1)
		c.Go(func() {
			defer wg.Done()
			for i := 0; i < 25 && !c.Failed(); i++ {
				got := map[*monkit.Span]int{}
				reg.AllSpans(func(s *monkit.Span) { got[s]++ })
				roots := map[*monkit.Span]int{}
				reg.RootSpans(func(s *monkit.Span) { roots[s]++ })
				for j, x := range stays {
					if got[x.s] == 0 {
						c.Failf("walk %d of %d misses span %d of %d that stays", i, g, j, len(stays))
					}
					isRoot := true
					for _, y := range stays {
						if y.kids[x.s] {
							isRoot = false
						}
					}
					want := 0
					if isRoot {
						want = 1
					}
					if roots[x.s] != want {
						c.Failf("root view %d of %d has span %d (orphaned %v) %d times, want %d", i, g, j, x.orphaned, roots[x.s], want)
					}
					kids := map[*monkit.Span]int{}
					x.s.Children(func(s *monkit.Span) { kids[s]++ })
					for k := range x.kids {
						if kids[k] != 1 {
							c.Failf("children view has a staying child %d times", kids[k])
						}
					}
					if x.s.Orphaned() != x.orphaned {
						c.Failf("orphaned = %v", x.s.Orphaned())
					}
				}
				c.Events(len(stays) + len(got))
				runtime.Gosched()
			}
		})
	}
	wg.Wait()
	atomic.StoreInt32(&stop, 1)
	cw.Wait()
	count := 0
	reg.AllSpans(func(*monkit.Span) { count++ })
	if count != len(stays) {
		c.Failf("%d spans remain, want %d", count, len(stays))
	}
	for _, e := range exits {
		e(nil)
	}
	reg.AllSpans(func(s *monkit.Span) { c.Failf("a finished span remains: %v", s.Orphaned()) })
	c.Sig(len(stays), n, c.Idx)
	c.Logf("%d staying spans, %d goroutines of others", len(stays), n)
}

// handover finishes a span of the root view that has many live children while
// others look: no child is ever out of sight.
func handover(c *vh.C) {
	r := c.Rng
	reg := monkit.NewRegistry()
	s := reg.ScopeNamed("s")
	pf, cf := s.FuncNamed("p"), s.FuncNamed("c")
	ctx := context.Background()
	orphan := r.Intn(2) == 0
	if orphan {
		e := s.FuncNamed("pp").Task(&ctx)
		defer e(nil)
		p := ctx
		e2 := s.FuncNamed("pp").Task(&p)
		e3 := pf.Task(&p)
		e2(nil)
		finish(c, r, reg, cf, p, e3)
		return
	}
	finish(c, r, reg, cf, ctx, pf.Task(&ctx))
}

func finish(c *vh.C, r *rand.Rand, reg *monkit.Registry, cf *monkit.Func, pctx context.Context, pexit func(*error)) {
	n := []int{1, 2, 10, 300, 3000}[r.Intn(5)]
	p := monkit.SpanFromCtx(pctx)
	exits := make([]func(*error), n)
	kids := map[*monkit.Span]bool{}
	for i := range exits {
		ctx := pctx
		exits[i] = cf.Task(&ctx)
		kids[monkit.SpanFromCtx(ctx)] = true
	}
	var over int32
	var looks, between int64
	all := r.Intn(3) == 0
	var wg sync.WaitGroup
	for g := 0; g < 3; g++ {
		wg.Add(1)
		c.Go(func() {
			defer wg.Done()
			for last := false; !last && !c.Failed(); {
				last = atomic.LoadInt32(&over) != 0
				seen, parent := map[*monkit.Span]bool{}, false
				cb := func(s *monkit.Span) {
					if s == p {
						parent = true
					}
					if kids[s] {
						seen[s] = true
					}
				}
				if all {
					reg.AllSpans(cb)
					parent = false
				} else {
					reg.RootSpans(cb)
				}
				if !parent && len(seen) != n {
					c.Failf("%d of %d live children are out of sight while their parent finishes", n-len(seen), n)
				}
				atomic.AddInt64(&looks, 1)
				if atomic.LoadInt32(&over) == 0 && len(seen) > 0 && !all {
					atomic.AddInt64(&between, 1)
				}
				runtime.Gosched()
			}
		})
	}
	for i := 0; i < 10000 && atomic.LoadInt64(&looks) < 3 && !c.Failed(); i++ {
		runtime.Gosched()
	}
	pexit(nil)
	atomic.StoreInt32(&over, 1)
	wg.Wait()
	for _, e := range exits {
		e(nil)
	}
	c.Events(int(looks))
	c.Note("views taken while a parent was handing over its children", between)
	c.Sig(n, all, c.Idx)
	c.Logf("%d children, %d views, %d of them between", n, looks, between)
}

// siblings starts and finishes children of one span from many goroutines.
func siblings(c *vh.C) {
	reg := monkit.NewRegistry()
	f := reg.ScopeNamed("s").FuncNamed("f")
	root := context.Background()
	exit := f.Task(&root)
	s := monkit.SpanFromCtx(root)
	for round := 0; round < 4; round++ {
		n := 2 + c.Rng.Intn(8)
		kids := make([]*monkit.Span, n)
		kexit := make([]func(*error), n)
		keep := make([]bool, n)
		gate := make(chan struct{})
		for g := 0; g < n; g++ {
			g := g
			keep[g] = c.Rng.Intn(2) == 0
			c.Go(func() {
				<-gate
				for i := 0; i < 3; i++ {
					ctx := root
					f.Task(&ctx)(nil)
				}
				ctx := root
				e := f.Task(&ctx)
				kids[g] = monkit.SpanFromCtx(ctx)
				if keep[g] {
					kexit[g] = e
				} else {
					e(nil)
				}
			})
		}
		close(gate)
		c.Wait()
		want := map[*monkit.Span]bool{}
		for g := range kids {
			if keep[g] {
				want[kids[g]] = true
			}
		}
		got := map[*monkit.Span]bool{}
		s.Children(func(x *monkit.Span) {
			if got[x] || !want[x] {
				c.Failf("child listed that is finished or listed already (again: %v)", got[x])
			}
			got[x] = true
		})
		if len(got) != len(want) {
			c.Failf("%d children listed, want %d", len(got), len(want))
		}
		gate = make(chan struct{})
		for g := range kids {
			if keep[g] {
				e := kexit[g]
				g2 := gate
				c.Go(func() { <-g2; e(nil) })
			}
		}
		close(gate)
		c.Wait()
		s.Children(func(x *monkit.Span) { c.Failf("finished child listed") })
		c.Events(n)
		c.Sig(keep)
	}
	exit(nil)
	reg.AllSpans(func(*monkit.Span) { c.Failf("finished span listed") })
	c.Logf("4 rounds")
}

// defaultRegistry: the package's own functions show the default registry.
func defaultRegistry(c *vh.C) {
	f := monkit.ScopeNamed("c04").FuncNamed(vh.Nasty(c.Rng))
	other := monkit.NewRegistry().ScopeNamed("c04").FuncNamed("f")
	live := map[*monkit.Span]bool{}
	check := func() {
		got := map[*monkit.Span]bool{}
		monkit.RootSpans(func(s *monkit.Span) {
			if got[s] {
				c.Failf("a root span is listed twice")
			}
			got[s] = true
		})
		all := map[*monkit.Span]bool{}
		monkit.Default.RootSpans(func(s *monkit.Span) { all[s] = true })
		for s := range live {
			if !got[s] || !all[s] {
				c.Failf("a live root span of the default registry is not listed")
			}
		}
		for s := range got {
			if !live[s] {
				c.Failf("a root span is listed that is not one of the default registry")
			}
		}
		c.Events(len(got))
	}
	var exits []func(*error)
	for i := 1 + c.Rng.Intn(5); i > 0; i-- {
		ctx, octx := context.Background(), context.Background()
		exits = append(exits, f.Task(&ctx))
		live[monkit.SpanFromCtx(ctx)] = true
		defer other.Task(&octx)(nil)
		// a child is not a root
		defer f.Task(&ctx)(nil)
		check()
	}
	for _, e := range exits {
		e(nil)
	}
	live = map[*monkit.Span]bool{}
	n := 0
	monkit.RootSpans(func(s *monkit.Span) {
		n++
		if !s.Orphaned() {
			c.Failf("a root span that is not an orphan is left over")
		}
	})
	if n != len(exits) {
		c.Failf("%d orphans, want %d", n, len(exits))
	}
	c.SigN(uint64(c.Idx))
	c.Logf("%d spans", len(exits))
}
