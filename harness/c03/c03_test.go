package c03

import (
	"context"
	"fmt"
	"math/rand"
	"runtime"
	"strings"
	"sync"
	"sync/atomic"
	"testing"
	"time"

	"github.com/spacemonkeygo/monkit/v3"

	"verifh/vh"
	"verifh/wm"
)

func TestCheck(t *testing.T) {
	vh.Main(t, "C03", func(h *vh.H) {
		h.Seq("big", h.N(12), big)
		h.Seq("sequential model", h.N(1200), model)
		h.Conc("concurrent model", h.N(100), stress)
		h.Seq("contexts", h.N(2000), contexts)
		h.Seq("no contexts", h.N(200), noContexts)
		h.Seq("arguments", h.N(3000), arguments)
		h.Conc("ids", h.N(4), ids)
		h.Conc("span count", h.N(60), spanCount)
		h.Conc("fan out", h.N(60), fanOut)
	})
}

func model(c *vh.C) {
	w := wm.New(c, wm.Checks{Tree: true, Observers: c.Idx%2 == 0, Watchers: c.Idx%4 == 0, Reuse: c.Idx%4 != 0})
	n := 20 + c.Rng.Intn(60)
	for i := 0; i < n; i++ {
		w.Step()
	}
	w.Drain()
}

func stress(c *vh.C) {
	s := wm.NewStress(c, wm.Checks{Tree: true})
	s.Run(2+c.Rng.Intn(7), 5+c.Rng.Intn(25), c.Rng.Intn(5), 12)
	c.Logf("%v", s)
	c.Note("quiescent inspections", s.Inspections)
}

type key int

// contexts checks what spans a chain of derived contexts carries.
func contexts(c *vh.C) {
	r := c.Rng
	reg := monkit.NewRegistry()
	type node struct {
		ctx  context.Context
		span *monkit.Span // what it carries
	}
	nodes := []node{{context.Background(), nil}}
	for i := 0; i < 15; i++ {
		from := nodes[r.Intn(len(nodes))]
		n := from
		k := r.Intn(8)
		c.SigN(uint64(k))
		switch k {
		case 0:
			n.ctx = context.WithValue(from.ctx, key(r.Intn(3)), 1)
		case 1:
			ctx, cancel := context.WithCancel(from.ctx)
			defer cancel()
			n.ctx = ctx
		case 2:
			n.ctx = context.WithoutCancel(from.ctx)
		case 3:
			n.ctx, n.span = monkit.ResetContextSpan(from.ctx), nil
		default:
			ctx := from.ctx
			f := reg.ScopeNamed("s").FuncNamed(fmt.Sprint("f", r.Intn(3)))
			var exit func(*error)
			var trace *monkit.Trace
			switch k {
			case 4:
				exit = f.ResetTrace(&ctx)
			case 5:
				trace = monkit.NewTrace(r.Int63())
				exit = f.RemoteTrace(&ctx, -5, trace)
			default:
				exit = f.Task(&ctx)
			}
			if r.Intn(2) == 0 {
				exit(nil)
			} else {
				defer exit(nil)
			}
			s := monkit.SpanFromCtx(ctx)
			if s == nil {
				c.Fatalf("no span in the context")
			}
			if s.Func() != f {
				c.Failf("wrong function")
			}
			pid, ok := s.ParentId()
			switch {
			case k == 4:
				if ok {
					c.Failf("reset: has a parent")
				}
				for _, m := range nodes {
					if m.span != nil && m.span.Trace() == s.Trace() {
						c.Failf("reset: the trace is not fresh")
					}
				}
			case k == 5:
				if !ok || pid != -5 || s.Trace() != trace {
					c.Failf("remote: parent %d,%v, right trace %v", pid, ok, s.Trace() == trace)
				}
			case from.span == nil:
				if ok {
					c.Failf("root has a parent")
				}
			default:
				if !ok || pid != from.span.Id() || s.Trace() != from.span.Trace() {
					c.Failf("parent %d,%v want %d; same trace %v", pid, ok, from.span.Id(), s.Trace() == from.span.Trace())
				}
			}
			n = node{ctx, s}
		}
		nodes = append(nodes, n)
		for j, m := range nodes {
			if got := monkit.SpanFromCtx(m.ctx); got != m.span {
				c.Fatalf("context %d carries span %v, want %v", j, got != nil, m.span != nil)
			}
			c.Events(1)
		}
	}
	c.Logf("%d contexts", len(nodes))
}

// noContexts starts spans without a context, or with a nil one: all of them
// are roots with nothing in common, whichever way they are made.
func noContexts(c *vh.C) {
	r := c.Rng
	reg := monkit.NewRegistry()
	sc := reg.ScopeNamed("s")
	f := sc.FuncNamed("f")
	task := sc.Task()
	known := map[*monkit.Span]bool{}
	traces := map[*monkit.Trace]bool{}
	type open struct {
		exit func(*error)
		s    *monkit.Span
	}
	var opens []open
	for i := 0; i < 10+r.Intn(20); i++ {
		if len(opens) > 0 && r.Intn(3) == 0 {
			k := r.Intn(len(opens))
			opens[k].exit(nil)
			delete(known, opens[k].s)
			opens = append(opens[:k], opens[k+1:]...)
		}
		var nilCtx context.Context
		var p *context.Context
		how := r.Intn(3)
		switch how {
		case 1:
			p = &nilCtx
		case 2:
			bg := context.Background()
			p = &bg
		}
		var exit func(*error)
		var trace *monkit.Trace
		k := r.Intn(6)
		pid := r.Int63()
		switch k {
		case 0:
			exit = task(p, i)
		case 1:
			exit = sc.TaskNamed("f")(p, i)
		case 2:
			exit = f.Task(p, i)
		case 3:
			exit = f.ResetTrace(p, i)
		case 4:
			exit = f.RemoteTrace(p, pid, nil, i)
		case 5:
			trace = monkit.NewTrace(r.Int63())
			exit = f.RemoteTrace(p, pid, trace, i)
		}
		var s *monkit.Span
		reg.RootSpans(func(x *monkit.Span) {
			if !known[x] {
				if s != nil {
					c.Fatalf("two new roots at once")
				}
				s = x
			}
		})
		if s == nil {
			c.Fatalf("way %d: the span is not a root", k)
		}
		n := 0
		reg.AllSpans(func(x *monkit.Span) {
			n++
			if x != s && !known[x] {
				c.Fatalf("another span appeared")
			}
		})
		known[s] = true
		if n != len(known) {
			c.Fatalf("%d spans, want %d", n, len(known))
		}
		id, ok := s.ParentId()
		if ok != (k >= 4) || (ok && id != pid) {
			c.Fatalf("way %d: parent id %d, %v", k, id, ok)
		}
		if traces[s.Trace()] || (trace != nil && s.Trace() != trace) {
			c.Fatalf("way %d: wrong trace", k)
		}
		traces[s.Trace()] = true
		if a := s.Args(); len(a) != 1 || a[0] != fmt.Sprint(i) {
			c.Fatalf("way %d: args %q", k, a)
		}
		if p != nil && (*p == nil || monkit.SpanFromCtx(*p) != s) {
			c.Fatalf("way %d: the context does not carry the span", k)
		}
		if monkit.SpanFromCtx(context.Background()) != nil {
			c.Fatalf("the background context carries a span")
		}
		opens = append(opens, open{exit, s})
		c.Sig(k, how, len(opens))
		c.Events(1)
	}
	for _, o := range opens {
		o.exit(nil)
	}
	reg.AllSpans(func(*monkit.Span) { c.Fatalf("a span is left over") })
}

type pt struct{ A, B int }

func arguments(c *vh.C) {
	r := c.Rng
	reg := monkit.NewRegistry()
	f := reg.ScopeNamed("s").FuncNamed("f")
	one := func() (interface{}, string) {
		switch r.Intn(9) {
		case 0:
			s := vh.Nasty(r)
			return s, fmt.Sprintf("%q", s)
		case 1:
			b := []byte(vh.Nasty(r))
			return b, fmt.Sprintf("[]uint8(0x%x)", b)
		case 2:
			t := time.Unix(r.Int63n(1<<33), r.Int63n(1e9)).UTC()
			return t, "time.Time(" + t.Format(time.RFC3339Nano) + ")"
		case 3:
			return nil, "<nil>"
		case 4:
			v := vh.Int64(r)
			return v, fmt.Sprint(v)
		case 5:
			v := pt{r.Intn(5), r.Intn(5)}
			return v, fmt.Sprintf("%#v", v)
		case 6:
			v := map[string]int{"a": r.Intn(9)}
			return v, fmt.Sprintf("%#v", v)
		case 7:
			return r.Intn(2) == 0, ""
		default:
			v := r.NormFloat64()
			return v, fmt.Sprintf("%#v", v)
		}
	}
	n := r.Intn(7)
	var args []interface{}
	var want []string
	for i := 0; i < n; i++ {
		a, w := one()
		if b, ok := a.(bool); ok {
			w = fmt.Sprint(b)
		}
		if r.Intn(6) == 0 {
			var list []interface{}
			var ws []string
			for j := r.Intn(4); j > 0; j-- {
				a, w := one()
				if b, ok := a.(bool); ok {
					w = fmt.Sprint(b)
				}
				list, ws = append(list, a), append(ws, w)
			}
			a, w = list, "{"+strings.Join(ws, ", ")+"}"
		}
		args, want = append(args, a), append(want, w)
	}
	ctx := context.Background()
	var exit func(*error)
	switch r.Intn(4) {
	case 0:
		exit = f.ResetTrace(&ctx, args...)
	case 1:
		exit = f.RemoteTrace(&ctx, 1, monkit.NewTrace(2), args...)
	case 2:
		exit = f.Scope().Task()(&ctx, args...)
	default:
		exit = f.Task(&ctx, args...)
	}
	s := monkit.SpanFromCtx(ctx)
	check := func(when string) {
		got := s.Args()
		if fmt.Sprintf("%q", got) != fmt.Sprintf("%q", want) {
			c.Failf("%s: args %q, want %q", when, got, want)
		}
		if len(got) > 0 {
			got[0] = "changed" // a private copy
		}
	}
	check("running")
	check("running, again")
	exit(nil)
	check("finished")
	c.Events(n)
	c.Sig(want)
	c.Logf("%q", want)
}

func ids(c *vh.C) {
	const each = 30000
	n := 8
	out := make([][]int64, n)
	for g := 0; g < n; g++ {
		g := g
		c.Go(func() {
			l := make([]int64, each)
			for i := range l {
				l[i] = monkit.NewId()
			}
			out[g] = l
		})
	}
	c.Wait()
	seen := make(map[int64]bool, n*each)
	for _, l := range out {
		for _, id := range l {
			if id < 0 {
				c.Fatalf("negative id %d", id)
			}
			if seen[id] {
				c.Fatalf("id %d repeats", id)
			}
			seen[id] = true
		}
	}
	c.Events(n * each)
	c.Sig(c.Idx)
	c.Logf("%d ids", n*each)
}

// spanCount reads the count all the time, from before to after.
func spanCount(c *vh.C) {
	r := c.Rng
	reg := monkit.NewRegistry()
	f := reg.ScopeNamed("s").FuncNamed("f")
	root := context.Background()
	var exitRoot func(*error)
	var trace *monkit.Trace
	if r.Intn(2) == 0 {
		exitRoot = f.Task(&root)
		trace = monkit.SpanFromCtx(root).Trace()
	} else {
		trace = monkit.NewTrace(7)
		if trace.Spans() != 0 {
			c.Failf("an unused trace has %d spans", trace.Spans())
		}
		exitRoot = f.RemoteTrace(&root, 9, trace)
	}
	n := 1 + r.Intn(8)
	var definitely, possibly int64 = 1, 1 // unfinished spans for sure, at most
	var stop int32
	var rd sync.WaitGroup
	rd.Add(1)
	c.Go(func() {
		defer rd.Done()
		for atomic.LoadInt32(&stop) == 0 {
			got := trace.Spans()
			if got < 1 || got > int64(n*3+1) {
				c.Failf("count %d with at most %d spans", got, n*3+1)
				return
			}
			c.Events(1)
			runtime.Gosched()
		}
	})
	var wg sync.WaitGroup
	for g := 0; g < n; g++ {
		r := rand.New(rand.NewSource(r.Int63()))
		wg.Add(1)
		c.Go(func() {
			defer wg.Done()
			for i := 0; i < 60; i++ {
				ctx := root
				var exits []func(*error)
				for d := r.Intn(3); d >= 0; d-- {
					atomic.AddInt64(&possibly, 1)
					exits = append(exits, f.Task(&ctx))
					atomic.AddInt64(&definitely, 1)
				}
				r.Shuffle(len(exits), func(i, j int) { exits[i], exits[j] = exits[j], exits[i] })
				for _, e := range exits {
					atomic.AddInt64(&definitely, -1)
					e(nil)
					atomic.AddInt64(&possibly, -1)
				}
			}
		})
	}
	wg.Wait()
	atomic.StoreInt32(&stop, 1)
	rd.Wait()
	if got := trace.Spans(); got != 1 {
		c.Failf("%d spans with one unfinished", got)
	}
	exitRoot(nil)
	if got := trace.Spans(); got != 0 {
		c.Failf("%d spans with none unfinished", got)
	}
	c.Sig(n, c.Idx)
	c.Logf("%d goroutines", n)
}

// fanOut starts many children of one span at once.
func fanOut(c *vh.C) {
	reg := monkit.NewRegistry()
	f := reg.ScopeNamed("s").FuncNamed("f")
	root := context.Background()
	exit := f.Task(&root)
	s := monkit.SpanFromCtx(root)
	n := 2 + c.Rng.Intn(10)
	var mu sync.Mutex
	seen := map[int64]bool{s.Id(): true, s.Trace().Id(): true, f.Id(): true}
	begin := make(chan struct{})
	var early int32
	for g := 0; g < n; g++ {
		c.Go(func() {
			<-begin
			for i := 0; i < 40; i++ {
				ctx := context.WithValue(root, key(1), i)
				e := f.Task(&ctx, i)
				x := monkit.SpanFromCtx(ctx)
				pid, ok := x.ParentId()
				if !ok || pid != s.Id() || x.Trace() != s.Trace() || x.Args()[0] != fmt.Sprint(i) {
					c.Failf("child: parent %d %v, same trace %v, args %v want %d", pid, ok, x.Trace() == s.Trace(), x.Args(), i)
				}
				mu.Lock()
				if seen[x.Id()] || x.Id() < 0 {
					c.Failf("id %d repeats", x.Id())
				}
				seen[x.Id()] = true
				mu.Unlock()
				e(nil)
				if i == 20 && atomic.AddInt32(&early, 1) == 1 {
					exit(nil) // children of a finished span are children all the same
				}
			}
		})
	}
	close(begin)
	c.Wait()
	if s.Trace().Spans() != 0 {
		c.Failf("%d spans left", s.Trace().Spans())
	}
	c.Events(n * 40)
	c.Sig(n, c.Idx)
	c.Logf("%d goroutines", n)
}
