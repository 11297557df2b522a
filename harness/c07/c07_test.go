package c07

import (
	"context"
	"errors"
	"fmt"
	"math/rand"
	"runtime"
	"strings"
	"sync"
	"sync/atomic"
	"testing"
	"time"

	"github.com/spacemonkeygo/monkit/v3"
	"github.com/spacemonkeygo/monkit/v3/collect"

	"verifh/vh"
)

func TestCheck(t *testing.T) {
	vh.Main(t, "C07", func(h *vh.H) {
		h.Seq("big", h.N(12), big)
		h.Seq("collector", h.N(2500), sequential)
		h.Seq("matchers at work", h.N(300), atWork)
		h.Seq("find nothing", 3, findNothing)
		h.Seq("around work", h.N(1500), aroundWork)
		h.Conc("watch", h.N(120), watch)
		h.Conc("work in parallel", h.N(80), parallelWork)
		h.Conc("stop", h.N(200), stop)
		h.Conc("cancel", h.N(80), cancelled)
		h.Conc("find", h.N(80), find)
	})
}

var clock int64

func tick() int64 { return atomic.AddInt64(&clock, 1) }

// rec is what really happened to a span.
type rec struct {
	s                                    *monkit.Span
	parent                               *rec
	kids                                 []*rec
	idx                                  int
	startCall, startRet, finCall, finRet int64 // finRet 0: not finished
	err                                  error
	panicked                             bool
	finish                               time.Time
	before, after                        time.Time
	ctx                                  context.Context
	exit                                 func(*error)
	match                                bool
}

type world struct {
	c     *vh.C
	reg   *monkit.Registry
	mu    sync.Mutex
	recs  []*rec
	bySpn map[*monkit.Span]*rec
}

func newWorld(c *vh.C) *world {
	return &world{c: c, reg: monkit.NewRegistry(), bySpn: map[*monkit.Span]*rec{}}
}

func (w *world) start(r *rand.Rand, ctx context.Context, parent *rec, name string) *rec {
	f := w.reg.ScopeNamed("s").FuncNamed(name)
	x := &rec{ctx: ctx, parent: parent}
	x.startCall = tick()
	k := r.Intn(14)
	if parent == nil && k > 11 {
		k = 11
	}
	switch k {
	case 13:
		// another trace that has the same id
		x.exit, x.parent = f.RemoteTrace(&x.ctx, parent.s.Id(), monkit.NewTrace(parent.s.Trace().Id())), nil
	case 12:
		// the call came back to the same process
		x.exit = f.RemoteTrace(&x.ctx, parent.s.Id(), parent.s.Trace())
	case 0:
		x.exit, x.parent = f.ResetTrace(&x.ctx), nil
	case 1:
		x.exit, x.parent = f.RemoteTrace(&x.ctx, r.Int63(), monkit.NewTrace(monkit.NewId())), nil
	default:
		x.exit = f.Task(&x.ctx)
	}
	x.startRet = tick()
	x.s = monkit.SpanFromCtx(x.ctx)
	x.match = strings.HasPrefix(name, "match")
	w.mu.Lock()
	x.idx = len(w.recs)
	w.recs = append(w.recs, x)
	w.bySpn[x.s] = x
	if x.parent != nil {
		x.parent.kids = append(x.parent.kids, x)
	}
	w.mu.Unlock()
	return x
}

var someErrs = []error{nil, errors.New("a"), context.Canceled, fmt.Errorf("w: %w", context.Canceled)}

func (w *world) finish(r *rand.Rand, x *rec) {
	err := someErrs[r.Intn(len(someErrs))]
	x.err = err
	x.panicked = r.Intn(4) == 0
	x.before = time.Now()
	x.finCall = tick()
	vh.Catch(func() {
		defer x.exit(&err)
		if x.panicked {
			panic(1)
		}
	})
	at := tick()
	x.after = time.Now()
	w.mu.Lock()
	x.finRet = at
	w.mu.Unlock()
}

// check compares a result with what happened. Spans whose finish overlaps the
// root's may be in it or not.
func (w *world) check(what string, spans []*collect.FinishedSpan) { w.checkFrom(what, 0, spans) }

// checkFrom: what finished before from cannot be in it.
func (w *world) checkFrom(what string, from int64, spans []*collect.FinishedSpan) {
	w.mu.Lock()
	defer w.mu.Unlock()
	c := w.c
	if len(spans) == 0 {
		c.Failf("%s: no spans", what)
		return
	}
	root := w.bySpn[spans[0].Span]
	if root == nil {
		c.Failf("%s: first span is unknown", what)
		return
	}
	at := map[*rec]int{}
	for i, fs := range spans {
		c.Events(1)
		x := w.bySpn[fs.Span]
		if x == nil {
			c.Failf("%s: unknown span", what)
			return
		}
		if _, dup := at[x]; dup {
			c.Failf("%s: span%d twice", what, x.idx)
		}
		at[x] = i
		if i > 0 {
			if x.parent == nil {
				c.Failf("%s: span%d is a root", what, x.idx)
			} else if _, ok := at[x.parent]; !ok {
				c.Failf("%s: span%d comes without or before its parent span%d", what, x.idx, x.parent.idx)
			}
			if x.finCall == 0 || x.finCall > root.finRet && root.finRet != 0 {
				c.Failf("%s: span%d finished after the matched span", what, x.idx)
			}
		}
		if x.finRet != 0 && x.finRet < from {
			c.Failf("%s: span%d finished before the collection began", what, x.idx)
		}
		if fs.Err != x.err || fs.Panicked != x.panicked {
			c.Failf("%s: span%d has error %v panicked %v, want %v %v", what, x.idx, fs.Err, fs.Panicked, x.err, x.panicked)
		}
		if fs.Finish.Before(x.before) || x.finRet != 0 && fs.Finish.After(x.after) {
			c.Failf("%s: span%d finish %v not within [%v, %v]", what, x.idx, fs.Finish, x.before, x.after)
		}
	}
	var walk func(x *rec)
	walk = func(x *rec) {
		for _, k := range x.kids {
			if k.finRet != 0 && k.finCall > from && k.finRet < root.finCall {
				if _, ok := at[k]; !ok {
					c.Failf("%s: span%d under span%d is missing", what, k.idx, x.idx)
				}
				walk(k)
			}
		}
	}
	walk(root)

	// sorted by start time they are the same spans
	sorted := append([]*collect.FinishedSpan(nil), spans...)
	rand.New(rand.NewSource(int64(len(spans)))).Shuffle(len(sorted), func(i, j int) { sorted[i], sorted[j] = sorted[j], sorted[i] })
	collect.StartTimeSorter(sorted).Sort()
	left := map[*collect.FinishedSpan]bool{}
	for _, fs := range spans {
		left[fs] = true
	}
	for i, fs := range sorted {
		if !left[fs] {
			c.Failf("%s: sorting by start time changed what spans there are", what)
		}
		delete(left, fs)
		if i > 0 && fs.Span.Start().Before(sorted[i-1].Span.Start()) {
			c.Failf("%s: sorted by start time, a span comes after one that started later", what)
		}
	}
}

func matcher(s *monkit.Span) bool { return strings.HasPrefix(s.Func().ShortName(), "match") }

// sequential runs random histories in which several collectors are installed.
func sequential(c *vh.C) {
	r := c.Rng
	w := newWorld(c)
	type col struct {
		col    *collect.SpanCollector
		cancel func()
		root   *rec // first match after registration
		ended  bool // root finished
		stop   bool // stopped before that
		from   int
		forced int64
		none   bool // has no matcher
	}
	var cols []*col
	var live []*rec
	check := func(x *col, i int) {
		done := false
		select {
		case <-x.col.Done():
			done = true
		default:
		}
		if done != (x.ended || x.stop) {
			c.Fatalf("collector %d: done is %v (ended %v, stopped %v)", i, done, x.ended, x.stop)
		}
		spans := x.col.Spans()
		if !x.ended {
			if len(spans) != 0 {
				c.Failf("collector %d: %d spans before its end", i, len(spans))
			}
			return
		}
		if len(spans) == 0 || spans[0].Span != x.root.s {
			c.Failf("collector %d: the first span is not span%d, the first that matched", i, x.root.idx)
			return
		}
		w.checkFrom(fmt.Sprintf("collector %d", i), x.forced, spans)
	}
	n := 30 + r.Intn(60)
	for i := 0; i < n; i++ {
		k := r.Intn(20)
		c.SigN(uint64(k))
		switch {
		case k == 0 && len(cols) < 5:
			x := &col{from: len(w.recs)}
			if x.none = r.Intn(3) == 0; x.none {
				x.col = collect.NewSpanCollector(nil)
			} else {
				x.col = collect.NewSpanCollector(matcher)
			}
			x.cancel = collect.ObserveAllTraces(w.reg, x.col)
			cols = append(cols, x)
			c.Logf("collector %d", len(cols)-1)
		case k == 1 && len(cols) > 0:
			x := cols[r.Intn(len(cols))]
			x.col.Stop()
			if !x.ended {
				x.stop = true
			}
			c.Logf("stop a collector")
		case k == 2 && len(cols) > 0 && len(live) > 0:
			x, on := cols[r.Intn(len(cols))], live[r.Intn(len(live))]
			from := tick()
			x.col.ForceStart(on.s)
			if x.root == nil && !x.stop {
				x.root, x.forced = on, from
			}
			c.Logf("start a collector on span%d", on.idx)
		case k < 10 && len(live) < 12 || len(live) == 0:
			ctx := context.Background()
			var p *rec
			if len(live) > 0 && r.Intn(6) != 0 {
				p = live[r.Intn(len(live))]
			} else if len(w.recs) > 0 && r.Intn(4) == 0 {
				p = w.recs[r.Intn(len(w.recs))]
				// a trace in which nothing was unfinished when a collector
				// came is not observed by it
				for _, x := range cols {
					_ = x
					if p.s.Trace().Spans() == 0 {
						p = nil
						break
					}
				}
			}
			if p != nil {
				ctx = p.ctx
			}
			name := fmt.Sprint("f", r.Intn(3))
			if r.Intn(4) == 0 {
				name = fmt.Sprint("match", r.Intn(2))
			}
			x := w.start(r, ctx, p, name)
			live = append(live, x)
			c.Logf("start span%d %s under %v", x.idx, name, p != nil)
			for _, cl := range cols {
				if x.match && cl.root == nil && !cl.stop && !cl.none {
					cl.root = x
				}
			}
		default:
			j := r.Intn(len(live))
			x := live[j]
			live = append(live[:j], live[j+1:]...)
			w.finish(r, x)
			c.Logf("finish span%d", x.idx)
			for _, cl := range cols {
				if cl.root == x && !cl.stop {
					cl.ended = true
				}
			}
		}
		for i, x := range cols {
			check(x, i)
		}
		if c.Failed() {
			return
		}
	}
	for _, x := range cols {
		x.cancel()
	}
}

// aroundWork uses CollectSpans with random work.
func aroundWork(c *vh.C) {
	r := c.Rng
	w := newWorld(c)
	ctx := context.Background()
	if r.Intn(8) == 0 {
		runs := 0
		spans := collect.CollectSpans(ctx, func(got context.Context) {
			runs++
			if got != ctx {
				c.Failf("another context")
			}
		})
		if runs != 1 || spans != nil {
			c.Failf("without a span: work ran %d times, %d spans", runs, len(spans))
		}
		c.Sig("no span")
		c.Events(1)
		return
	}
	outer := w.start(rand.New(rand.NewSource(3)), ctx, nil, "outer")
	var before []*rec
	for i := r.Intn(3); i > 0; i-- {
		before = append(before, w.start(r, outer.ctx, outer, "before"))
	}
	runs := 0
	var root *rec
	var live []*rec
	boom := r.Intn(6) == 0
	var spans []*collect.FinishedSpan
	val, panicked := vh.Catch(func() {
		spans = collect.CollectSpans(outer.ctx, func(ctx context.Context) {
			runs++
			s := monkit.SpanFromCtx(ctx)
			if s == nil || s == outer.s || s.Trace() != outer.s.Trace() || s.Func().ShortName() != "outer-TRACED" {
				c.Failf("the work's context does not carry a span for the work")
			}
			if id, ok := s.ParentId(); !ok || id != outer.s.Id() {
				c.Failf("the work's span is not a child of the current one")
			}
			root = &rec{s: s, parent: outer, idx: len(w.recs), ctx: ctx, before: time.Now()}
			w.recs = append(w.recs, root)
			w.bySpn[s] = root
			for i := r.Intn(20); i > 0; i-- {
				k := r.Intn(8)
				c.SigN(uint64(k))
				switch {
				case k < 4 || len(live) == 0:
					p := root
					if len(live) > 0 && r.Intn(2) == 0 {
						p = live[r.Intn(len(live))]
					} else if r.Intn(5) == 0 {
						p = outer
					}
					live = append(live, w.start(r, p.ctx, p, fmt.Sprint("f", r.Intn(2))))
				case k == 4 && len(before) > 0:
					w.finish(r, before[0])
					before = before[1:]
				default:
					j := r.Intn(len(live))
					w.finish(r, live[j])
					live = append(live[:j], live[j+1:]...)
				}
			}
			root.finCall = tick()
			if boom {
				panic("work panics")
			}
		})
	})
	root.finRet = tick()
	root.after = time.Now()
	if runs != 1 {
		c.Failf("work ran %d times", runs)
	}
	if panicked != boom || boom && val != "work panics" {
		c.Failf("panicked %v with %v", panicked, val)
	}
	if !boom {
		if len(spans) == 0 || spans[0].Span != root.s {
			c.Fatalf("the first of %d spans is not the work's", len(spans))
		}
		w.check("around work", spans)
	}
	// what comes later does not change the result
	n := len(spans)
	for _, x := range live {
		w.finish(r, x)
	}
	if len(spans) != n {
		c.Failf("result changed")
	}
	w.finish(r, outer)
	c.Logf("%d spans collected", n)
}

// settle waits until the watcher sees spans of new traces and of all given
// contexts' traces.
func settle(c *vh.C, reg *monkit.Registry, seen func(*monkit.Span) bool, ctxs ...context.Context) {
	f := reg.ScopeNamed("probe").FuncNamed("probe")
	for _, base := range append([]context.Context{context.Background()}, ctxs...) {
		for i := 0; ; i++ {
			ctx := base
			e := f.Task(&ctx)
			s := monkit.SpanFromCtx(ctx)
			e(nil)
			if seen(s) {
				break
			}
			runtime.Gosched()
			if i > 1000 {
				time.Sleep(time.Millisecond)
			}
			if i > 30000 {
				c.Fatalf("a watch never sees new spans")
			}
		}
	}
}

type probes struct {
	mu   sync.Mutex
	seen map[*monkit.Span]bool
}

func (p *probes) note(s *monkit.Span) bool {
	if s.Func().ShortName() == "probe" {
		p.mu.Lock()
		p.seen[s] = true
		p.mu.Unlock()
		return true
	}
	return false
}
func (p *probes) has(s *monkit.Span) bool {
	p.mu.Lock()
	defer p.mu.Unlock()
	return p.seen[s]
}

// tree runs a random tree of calls, some of them asynchronous.
func (w *world) tree(r *rand.Rand, ctx context.Context, parent *rec, d int, p int) {
	name := fmt.Sprint("f", r.Intn(3))
	if r.Intn(p) == 0 {
		name = fmt.Sprint("match", r.Intn(2))
	}
	x := w.start(r, ctx, parent, name)
	for k := r.Intn(4); k > 0 && d > 0; k-- {
		if r.Intn(3) == 0 {
			r2 := rand.New(rand.NewSource(r.Int63()))
			w.c.Go(func() { w.tree(r2, x.ctx, x, d-1, p) })
		} else {
			w.tree(r, x.ctx, x, d-1, p)
		}
	}
	runtime.Gosched()
	w.finish(r, x)
}

// watch runs WatchForSpans next to concurrent traces.
func watch(c *vh.C) {
	r := c.Rng
	w := newWorld(c)
	nw := 1 + r.Intn(3)
	type result struct {
		spans []*collect.FinishedSpan
		err   error
		calls int64
		from  int64
	}
	results := make([]*result, nw)
	var dones []chan struct{}
	var ended int32
	for i := 0; i < nw; i++ {
		res := &result{}
		results[i] = res
		pr := &probes{seen: map[*monkit.Span]bool{}}
		done := make(chan struct{})
		dones = append(dones, done)
		var returned int32
		c.Go(func() {
			defer close(done)
			res.spans, res.err = collect.WatchForSpans(context.Background(), w.reg, func(s *monkit.Span) bool {
				if atomic.LoadInt32(&returned) != 0 {
					atomic.AddInt64(&res.calls, 1)
				}
				if pr.note(s) {
					return false
				}
				return matcher(s)
			})
			atomic.StoreInt32(&returned, 1)
			atomic.AddInt32(&ended, 1)
		})
		settle(c, w.reg, pr.has)
		res.from = tick()
	}
	for g := 1 + r.Intn(4); g > 0; g-- {
		r2 := rand.New(rand.NewSource(r.Int63()))
		c.Go(func() {
			for k := 0; k < 4; k++ {
				w.tree(r2, context.Background(), nil, 3, 5)
			}
		})
	}
	// make sure there is a match in the end
	for i := 0; atomic.LoadInt32(&ended) < int32(nw); i++ {
		w.tree(r, context.Background(), nil, 2, 1)
		runtime.Gosched()
		if i > 2000 {
			time.Sleep(10 * time.Millisecond)
		}
		if i > 4000 {
			c.Fatalf("a watch never ends although spans match")
		}
	}
	for _, d := range dones {
		vh.Await(c, d, "WatchForSpans returns after a match finished")
	}
	c.Wait()
	for i, res := range results {
		if res.err != nil {
			c.Failf("watch %d: %v", i, res.err)
			continue
		}
		w.check(fmt.Sprintf("watch %d", i), res.spans)
		root := w.bySpn[res.spans[0].Span]
		if root == nil {
			continue
		}
		if !root.match {
			c.Failf("watch %d: span%d does not match", i, root.idx)
		}
		for _, x := range w.recs {
			if x.match && x.startCall > res.from && x.startRet < root.startCall {
				c.Failf("watch %d: span%d matched before span%d", i, x.idx, root.idx)
			}
		}
		c.Sig(len(res.spans))
		c.Logf("watch %d: %d spans", i, len(res.spans))
	}
	c.Sig(len(w.recs))
}

// parallelWork collects around work in several goroutines of one trace.
func parallelWork(c *vh.C) {
	r := c.Rng
	w := newWorld(c)
	outer := w.start(rand.New(rand.NewSource(3)), context.Background(), nil, "outer")
	n := 1 + r.Intn(4)
	for g := 0; g < n; g++ {
		g := g
		r := rand.New(rand.NewSource(r.Int63()))
		c.Go(func() {
			p := outer
			if r.Intn(2) == 0 {
				p = w.start(rand.New(rand.NewSource(3)), outer.ctx, outer, "inner")
				defer w.finish(r, p)
			}
			var root *rec
			runs := 0
			spans := collect.CollectSpans(p.ctx, func(ctx context.Context) {
				runs++
				root = &rec{s: monkit.SpanFromCtx(ctx), parent: p, ctx: ctx, before: time.Now()}
				w.mu.Lock()
				root.idx = len(w.recs)
				w.recs = append(w.recs, root)
				w.bySpn[root.s] = root
				p.kids = append(p.kids, root)
				w.mu.Unlock()
				for k := r.Intn(4); k > 0; k-- {
					w.tree(r, ctx, root, 2, 4)
				}
				at := tick()
				w.mu.Lock()
				root.finCall = at
				w.mu.Unlock()
			})
			at := tick()
			w.mu.Lock()
			root.after = time.Now()
			root.finRet = at
			w.mu.Unlock()
			if runs != 1 {
				c.Failf("work ran %d times", runs)
			}
			if len(spans) == 0 || spans[0].Span != root.s {
				c.Failf("the first of %d spans is not the work's", len(spans))
				return
			}
			w.mu.Lock()
			c.SigN(uint64(len(spans)))
			w.mu.Unlock()
			w.check(fmt.Sprintf("work %d", g), spans)
		})
	}
	c.Wait()
	w.finish(r, outer)
	if outer.s.Trace().Spans() != 0 {
		c.Failf("%d spans unfinished", outer.s.Trace().Spans())
	}
	c.Logf("%d in parallel, %d spans", n, len(w.recs))
}

// stop stops a collector from several goroutines while its root finishes.
func stop(c *vh.C) {
	r := c.Rng
	w := newWorld(c)
	col := collect.NewSpanCollector(matcher)
	var cancel func()
	force := r.Intn(3) == 0
	top := w.start(rand.New(rand.NewSource(3)), context.Background(), nil, "top")
	if force {
		col = collect.NewSpanCollector(nil)
	}
	cancel = collect.ObserveAllTraces(w.reg, col)
	root := w.start(rand.New(rand.NewSource(3)), top.ctx, top, "match")
	if force {
		col.ForceStart(root.s)
	}
	kid := w.start(rand.New(rand.NewSource(3)), root.ctx, root, "kid")
	w.finish(r, kid)
	gate := make(chan struct{})
	ns := r.Intn(4)
	for i := 0; i < ns; i++ {
		c.Go(func() { <-gate; col.Stop() })
	}
	c.Go(func() { <-gate; w.finish(rand.New(rand.NewSource(4)), root) })
	if r.Intn(2) == 0 {
		c.Go(func() { <-gate; cancel() })
		ns += 10
	}
	if r.Intn(2) == 0 {
		c.Go(func() {
			<-gate
			x := w.start(rand.New(rand.NewSource(5)), root.ctx, root, "match2")
			w.finish(rand.New(rand.NewSource(5)), x)
		})
	}
	close(gate)
	c.Wait()
	if ns == 0 {
		vh.Await(c, col.Done(), "done fires when the matched span has finished")
	}
	spans := col.Spans()
	if ns == 0 && len(spans) == 0 {
		c.Failf("no spans although nothing stopped the collection")
	}
	if len(spans) > 0 {
		w.check("stopped", spans)
		if spans[0].Span != root.s {
			c.Failf("wrong first span")
		}
	}
	col.Stop()
	col.Stop()
	vh.Await(c, col.Done(), "done fires after stop")
	cancel()
	w.finish(r, top)
	c.Sig(ns, force, len(spans))
	c.Events(1)
	c.Logf("%d stops, %d spans", ns, len(spans))
}

// cancelled ends watches and finds through their context.
func cancelled(c *vh.C) {
	r := c.Rng
	w := newWorld(c)
	early := r.Intn(3) == 0
	kind := r.Intn(2)
	ctx, cancel := context.WithCancel(context.Background())
	want := context.Canceled
	if r.Intn(3) == 0 {
		early = true
		ctx, cancel = context.WithDeadline(context.Background(), time.Now().Add(-time.Second))
		want = context.DeadlineExceeded
	}
	if early {
		cancel()
	}
	pr := &probes{seen: map[*monkit.Span]bool{}}
	var calls int64
	done := make(chan struct{})
	begun := w.start(rand.New(rand.NewSource(3)), context.Background(), nil, "match0")
	c.Go(func() {
		defer close(done)
		m := func(s *monkit.Span) bool {
			atomic.AddInt64(&calls, 1)
			pr.note(s)
			return matcher(s) && kind == 0
		}
		if kind == 0 {
			spans, err := collect.WatchForSpans(ctx, w.reg, m)
			if err != want || len(spans) != 0 {
				c.Failf("watch returned %d spans and %v, want %v", len(spans), err, want)
			}
		} else {
			collect.FindSpan(ctx, w.reg, m)
		}
	})
	var open *rec
	if !early {
		settle(c, w.reg, pr.has, begun.ctx)
		// matched but not finished
		if r.Intn(2) == 0 {
			open = w.start(rand.New(rand.NewSource(3)), begun.ctx, begun, "match1")
		}
		select {
		case <-done:
			c.Failf("ended before it was cancelled")
		default:
		}
		cancel()
	}
	vh.Await(c, done, "a cancelled watch or find returns")
	n := atomic.LoadInt64(&calls)
	x := w.start(r, begun.ctx, begun, "match2")
	w.finish(r, x)
	if atomic.LoadInt64(&calls) != n {
		c.Failf("the matcher is called after the end")
	}
	if open != nil {
		w.finish(r, open)
	}
	w.finish(r, begun)
	c.Sig(early, kind, open != nil, want)
	c.Events(1)
	c.Logf("kind %d early %v", kind, early)
}

func find(c *vh.C) {
	r := c.Rng
	w := newWorld(c)
	if r.Intn(10) == 0 {
		collect.FindSpan(context.Background(), w.reg, nil)
		c.Sig("nil")
		return
	}
	pr := &probes{seen: map[*monkit.Span]bool{}}
	var found int64
	var calls int64
	done := make(chan struct{})
	begun := w.start(rand.New(rand.NewSource(3)), context.Background(), nil, "match0")
	c.Go(func() {
		defer close(done)
		collect.FindSpan(context.Background(), w.reg, func(s *monkit.Span) bool {
			atomic.AddInt64(&calls, 1)
			pr.note(s)
			if matcher(s) {
				atomic.AddInt64(&found, 1)
				return true
			}
			return false
		})
	})
	settle(c, w.reg, pr.has, begun.ctx)
	for i := r.Intn(5); i > 0; i-- {
		w.finish(r, w.start(r, begun.ctx, begun, "other"))
	}
	select {
	case <-done:
		c.Failf("ended without a match")
	default:
	}
	n := 1 + r.Intn(4)
	for g := 0; g < n; g++ {
		r := rand.New(rand.NewSource(r.Int63()))
		sub := r.Intn(2) == 0
		c.Go(func() {
			if sub {
				w.finish(r, w.start(r, begun.ctx, begun, "match1"))
			} else {
				w.finish(r, w.start(r, context.Background(), nil, "match2"))
			}
		})
	}
	vh.Await(c, done, "find returns after a match started")
	c.Wait()
	if atomic.LoadInt64(&found) == 0 {
		c.Failf("ended without a match")
	}
	before := atomic.LoadInt64(&calls)
	w.finish(r, w.start(r, begun.ctx, begun, "match2"))
	if atomic.LoadInt64(&calls) != before {
		c.Failf("the matcher is called after the end")
	}
	w.finish(r, begun)
	c.Sig(n, found)
	c.Events(int(before))
	c.Logf("%d matching starts, matcher called %d times", n, before)
}

// findNothing: without a matcher there is nothing to wait for.
func findNothing(c *vh.C) {
	reg := monkit.NewRegistry()
	ctx := context.Background()
	if c.Idx > 0 {
		defer reg.ScopeNamed("s").FuncNamed("f").Task(&ctx)(nil)
	}
	done := make(chan struct{})
	go func() {
		defer close(done)
		collect.FindSpan(context.Background(), reg, nil)
	}()
	vh.Await(c, done, "finding without a matcher returns")
	reg.ScopeNamed("s").FuncNamed("f").Task(&ctx)(nil)
	c.SigN(uint64(c.Idx))
	c.Events(1)
}

// atWork has matchers that stop the collector, start it on another span or
// start spans that match themselves. The span for which the first answer came
// is collected, unless it was stopped before.
func atWork(c *vh.C) {
	r := c.Rng
	w := newWorld(c)
	top := w.start(rand.New(rand.NewSource(3)), context.Background(), nil, "top")
	other := w.start(rand.New(rand.NewSource(3)), top.ctx, top, "other")
	kind, depth := r.Intn(4), 1+r.Intn(3)
	early := r.Intn(2) == 0
	var col *collect.SpanCollector
	var first *rec
	var inner []*rec
	stopped, asked := false, 0
	col = collect.NewSpanCollector(func(s *monkit.Span) bool {
		if !strings.HasPrefix(s.Func().ShortName(), "match") {
			return false
		}
		asked++
		switch {
		case kind == 0 && asked == 1:
			col.Stop()
			stopped = true
		case kind == 1 && asked == 1:
			col.ForceStart(other.s)
			first = other
		case kind == 2 && asked <= depth:
			x := w.start(rand.New(rand.NewSource(3)), top.ctx, top, "match inner")
			if first == nil {
				first = x
			}
			if early {
				w.finish(r, x)
			} else {
				inner = append(inner, x)
			}
		}
		return true
	})
	cancel := top.s.Trace().ObserveSpans(col)
	s1 := w.start(rand.New(rand.NewSource(3)), top.ctx, top, "match")
	if first == nil {
		first = s1
	}
	kid := w.start(rand.New(rand.NewSource(3)), first.ctx, first, "kid")
	w.finish(r, kid)
	look := func(ended bool) {
		done := false
		select {
		case <-col.Done():
			done = true
		default:
		}
		spans := col.Spans()
		if done != (ended || stopped) {
			c.Fatalf("kind %d, depth %d, early %v: done is %v (stopped %v, first match finished %v)", kind, depth, early, done, stopped, ended)
		}
		if stopped || !ended {
			if len(spans) != 0 {
				c.Fatalf("kind %d: %d spans (stopped %v, first match finished %v)", kind, len(spans), stopped, ended)
			}
			return
		}
		if len(spans) == 0 || spans[0].Span != first.s {
			c.Fatalf("kind %d, depth %d, early %v: the first span is not that of the first match", kind, depth, early)
		}
		w.check("at work", spans)
	}
	finished := kind == 2 && early
	look(finished)
	rest := append(inner, s1, other)
	r.Shuffle(len(rest), func(i, j int) { rest[i], rest[j] = rest[j], rest[i] })
	for _, x := range rest {
		w.finish(r, x)
		finished = finished || x == first
		look(finished)
	}
	col.Stop()
	col.Stop()
	stopped = stopped || !finished
	look(finished)
	cancel()
	w.finish(r, top)
	c.Sig(kind, depth, early, len(inner), asked)
	c.Events(1 + len(rest))
	c.SigN(uint64(len(w.recs)))
	c.Logf("kind %d depth %d early %v", kind, depth, early)
}
