// Package c30 asks the garbage collector what the library still holds on to.
package c30

import (
	"bytes"
	"context"
	"errors"
	"fmt"
	"io"
	"math/rand"
	"net/http"
	"net/http/httptest"
	"net/url"
	"runtime"
	"runtime/debug"
	"sync"
	"sync/atomic"
	"testing"
	"time"
	"weak"

	"github.com/spacemonkeygo/monkit/v3"
	"github.com/spacemonkeygo/monkit/v3/collect"
	mhttp "github.com/spacemonkeygo/monkit/v3/http"
	"github.com/spacemonkeygo/monkit/v3/present"

	"verifh/vh"
)

// payload is something worth noticing when it stays.
type payload struct {
	name string
	big  [64]int64
}

// tracked is something that should go away.
type tracked struct {
	what  string
	alive func() bool
}

func track[T any](what string, p *T) tracked {
	w := weak.Make(p)
	return tracked{what, func() bool { return w.Value() != nil }}
}

// gone waits for the collector to free things and gives what stayed.
func gone(list []tracked) (left []string) {
	for try := 0; try < 8; try++ {
		runtime.GC()
		left = nil
		for _, t := range list {
			if t.alive() {
				left = append(left, t.what)
			}
		}
		if len(left) == 0 {
			return nil
		}
		if try > 1 {
			time.Sleep(time.Duration(try*try) * 5 * time.Millisecond)
		}
	}
	return left
}

// node is a span and what is known about it.
type node struct {
	id       int
	finished bool
	parent   *node
	kids     []*node
	exit     func(*error)
	ctx      context.Context
	things   []tracked
	trace    *traceInfo
	reported bool
}

func (n *node) over() bool {
	if !n.finished {
		return false
	}
	for _, k := range n.kids {
		if !k.over() {
			return false
		}
	}
	return true
}

type traceInfo struct {
	nodes  []*node
	things []tracked
	seen   bool
}

func (t *traceInfo) over() bool {
	for _, n := range t.nodes {
		if !n.over() {
			return false
		}
	}
	return true
}

type observer struct {
	pay *payload
	n   atomic.Int64
}

func (o *observer) Start(s *monkit.Span) { o.n.Add(1) }
func (o *observer) Finish(s *monkit.Span, err error, panicked bool, at time.Time) {
	o.n.Add(1)
}

type observerCtx struct{ pay *payload }

type ctxKey struct{}

func (o *observerCtx) Start(ctx context.Context, s *monkit.Span) context.Context {
	return context.WithValue(ctx, ctxKey{}, 3)
}
func (o *observerCtx) Finish(ctx context.Context, s *monkit.Span, err error, panicked bool, at time.Time) {
}

type sub struct {
	cancel func()
	things []tracked
}

// life is a history in a registry that lives on.
type life struct {
	c      *vh.C
	r      *rand.Rand
	reg    *monkit.Registry
	scope  *monkit.Scope
	nodes  []*node
	open   []*node
	traces map[*monkit.Trace]*traceInfo // only of open nodes
	all    []*traceInfo
	subs   []*sub
	dead   []tracked // must go
	total  int
}

func newLife(c *vh.C, r *rand.Rand, reg *monkit.Registry) *life {
	return &life{c: c, r: r, reg: reg, scope: reg.ScopeNamed(fmt.Sprint("s", r.Intn(3))),
		traces: map[*monkit.Trace]*traceInfo{}}
}

// step runs f in a goroutine of its own, whose stack goes away.
func step(f func()) {
	done := make(chan struct{})
	go func() {
		defer close(done)
		f()
	}()
	<-done
}

func (l *life) start() {
	r := l.r
	l.total++
	n := &node{id: l.total}
	ctx := context.Background()
	if len(l.open) > 0 && r.Intn(4) > 0 {
		n.parent = l.open[r.Intn(len(l.open))]
		ctx = n.parent.ctx
		if r.Intn(4) == 0 {
			ctx = context.WithValue(ctx, "k", 1)
		}
	}
	arg := &payload{name: "arg"}
	f := l.scope.FuncNamed(fmt.Sprint("f", r.Intn(4)))
	k := r.Intn(6)
	switch k {
	case 0:
		n.exit = f.ResetTrace(&ctx, arg, 3)
	case 1:
		n.exit = f.RemoteTrace(&ctx, 4, monkit.NewTrace(monkit.NewId()), arg)
	default:
		n.exit = f.Task(&ctx, "x", arg)
	}
	l.c.Logf("%d starts under %v", n.id, n.parent)
	s := monkit.SpanFromCtx(ctx)
	if r.Intn(3) == 0 {
		s.Annotate("k", "v")
		_ = s.Args()
	}
	n.ctx = ctx
	tr := l.traces[s.Trace()]
	if tr == nil {
		tr = &traceInfo{}
		tr.things = append(tr.things, track("a trace", s.Trace()))
		if r.Intn(2) == 0 {
			p := &payload{name: "in trace"}
			s.Trace().Set(fmt.Sprint(l.total), p)
			tr.things = append(tr.things, track("a value of a trace", p))
		}
		l.traces[s.Trace()] = tr
		l.all = append(l.all, tr)
	}
	n.trace = tr
	tr.nodes = append(tr.nodes, n)
	n.things = []tracked{track(fmt.Sprintf("span %d", n.id), s), track(fmt.Sprintf("the argument of span %d", n.id), arg)}
	if n.parent != nil {
		n.parent.kids = append(n.parent.kids, n)
	}
	l.nodes = append(l.nodes, n)
	l.open = append(l.open, n)
	l.c.SigN(uint64(k) + 1)
}

func (l *life) finish(i int) {
	n := l.open[i]
	l.open = append(l.open[:i], l.open[i+1:]...)
	var err error
	how := l.r.Intn(4)
	switch how {
	case 0:
		n.exit(nil)
	case 1:
		p := &payload{name: "error"}
		err = fmt.Errorf("error %w", &payErr{p})
		l.dead = append(l.dead, track("an error", p))
		n.exit(&err)
	case 2:
		p := &payload{name: "panic"}
		l.dead = append(l.dead, track("a panic value", p))
		vh.Catch(func() { defer n.exit(&err); panic(p) })
	case 3:
		n.exit(&err)
	}
	l.c.Logf("%d finishes", n.id)
	l.c.SigN(uint64(how) + 10)
	n.exit, n.ctx, n.finished = nil, nil, true
	if len(l.open) == 0 {
		l.traces = map[*monkit.Trace]*traceInfo{}
	}
	alive := map[*traceInfo]bool{}
	for _, o := range l.open {
		alive[o.trace] = true
	}
	for t, info := range l.traces {
		if !alive[info] {
			delete(l.traces, t)
		}
	}
}

type payErr struct{ p *payload }

func (p *payErr) Error() string { return "pay" }

func (l *life) someSpan() *monkit.Span {
	if len(l.open) == 0 {
		return nil
	}
	return monkit.SpanFromCtx(l.open[l.r.Intn(len(l.open))].ctx)
}

func (l *life) subscribe() {
	s := l.someSpan()
	r := l.r
	b := &sub{}
	k := r.Intn(6)
	pay := &payload{name: "subscription"}
	b.things = append(b.things, track(fmt.Sprintf("subscription of kind %d", k), pay))
	switch {
	case k == 0 && s != nil:
		b.cancel = s.Trace().ObserveSpans(&observer{pay: pay})
	case k == 1 && s != nil:
		b.cancel = s.Trace().ObserveSpansCtx(&observerCtx{pay: pay})
	case k == 2:
		b.cancel = l.reg.ObserveTraces(func(*monkit.Trace) { _ = pay.name })
	case k == 3:
		b.cancel = collect.ObserveAllTraces(l.reg, &observer{pay: pay})
	case k == 4:
		col := collect.NewSpanCollector(func(s *monkit.Span) bool { return pay.name == "" || r == nil })
		cancel := collect.ObserveAllTraces(l.reg, col)
		b.cancel = func() { cancel(); col.Stop() }
	case k == 5 && s != nil:
		col := collect.NewSpanCollector(func(s *monkit.Span) bool { return pay.name != "" })
		cancel := s.Trace().ObserveSpans(col)
		b.things = append(b.things, track("a collector", col))
		b.cancel = func() { cancel(); _ = col.Spans(); col.Stop() }
	default:
		return
	}
	l.c.Logf("subscription of kind %d", k)
	l.c.SigN(uint64(k) + 20)
	l.subs = append(l.subs, b)
}

func (l *life) cancel(i int) {
	b := l.subs[i]
	l.subs = append(l.subs[:i], l.subs[i+1:]...)
	b.cancel()
	if l.r.Intn(3) == 0 {
		b.cancel()
	}
	l.dead = append(l.dead, b.things...)
	b.cancel, b.things = nil, nil
	l.c.Logf("a subscription ends")
}

// episode does something that begins and ends.
func (l *life) episode() {
	r := l.r
	s := l.someSpan()
	k := r.Intn(8)
	l.c.Logf("episode %d", k)
	l.c.SigN(uint64(k) + 40)
	ctx := context.Background()
	if s != nil {
		ctx = s
	}
	inner := func(ctx context.Context) {
		for i := 1 + r.Intn(3); i > 0; i-- {
			p := &payload{name: "arg"}
			c := ctx
			x := l.scope.FuncNamed("inner").Task(&c, p)
			l.dead = append(l.dead, track("an argument in an episode", p), track("a span in an episode", monkit.SpanFromCtx(c)))
			if r.Intn(2) == 0 {
				c2 := c
				x2 := l.scope.FuncNamed("deeper").Task(&c2)
				l.dead = append(l.dead, track("a deeper span in an episode", monkit.SpanFromCtx(c2)))
				if r.Intn(2) == 0 {
					x(nil)
					x2(nil)
					continue
				}
				x2(nil)
			}
			x(nil)
		}
	}
	switch k {
	case 0:
		var spans []*collect.FinishedSpan
		vh.Catch(func() {
			spans = collect.CollectSpans(ctx, func(ctx context.Context) {
				inner(ctx)
				if r.Intn(3) == 0 {
					panic("stop collecting")
				}
			})
		})
		for _, fs := range spans {
			l.dead = append(l.dead, track("a collected span", fs))
		}
		_ = present.SpansToJSON(io.Discard, spans)
		_ = present.SpansToSVG(io.Discard, spans)
	case 1, 2:
		wctx, stop := context.WithCancel(context.Background())
		pay := &payload{name: "matcher"}
		l.dead = append(l.dead, track("a matcher", pay))
		done := make(chan struct{})
		go func() {
			defer close(done)
			m := func(s *monkit.Span) bool { return pay.name == "" || s.Func().ShortName() == "inner" }
			if k == 1 {
				spans, _ := collect.WatchForSpans(wctx, l.reg, m)
				for _, fs := range spans {
					_ = fs.Span.Id()
				}
			} else {
				collect.FindSpan(wctx, l.reg, m)
			}
		}()
		if r.Intn(2) == 0 {
			runtime.Gosched()
			time.Sleep(50 * time.Microsecond)
		}
		inner(ctx)
		stop()
		<-done
	case 3:
		l.scope.FuncNamed("inner")
		f, _, err := present.FromRequest(l.reg, "/trace/"+[]string{"json", "svg", "remote"}[r.Intn(3)], url.Values{"regex": {`inner`}})
		if err != nil {
			l.c.Fatalf("%v", err)
		}
		done := make(chan struct{})
		buf := &bytes.Buffer{}
		l.dead = append(l.dead, track("a query's writer", buf))
		go func() { defer close(done); _ = f(buf) }()
		for over := false; !over; {
			select {
			case <-done:
				over = true
			default:
				inner(ctx)
			}
			if len(l.dead) > 3000 {
				l.dead = l.dead[len(l.dead)-1500:]
			}
		}
	case 4:
		l.reg.AllSpans(func(s *monkit.Span) { _ = s.Args() })
		_ = present.SpansText(l.reg, io.Discard)
		_ = present.SpansJSON(l.reg, io.Discard)
		_ = present.SpansDot(l.reg, io.Discard)
		_ = present.FuncsText(l.reg, io.Discard)
		_ = present.StatsJSON(l.reg, io.Discard)
		l.reg.Stats(func(monkit.SeriesKey, string, float64) {})
	case 5:
		pay := &payload{name: "body"}
		h := mhttp.TraceHandler(http.HandlerFunc(func(w http.ResponseWriter, q *http.Request) {
			inner(q.Context())
			w.WriteHeader(200 + r.Intn(300))
			_ = pay.name
			if r.Intn(4) == 0 {
				panic(http.ErrAbortHandler)
			}
		}), l.scope)
		q := httptest.NewRequest("GET", "/", nil)
		if r.Intn(2) == 0 {
			id := monkit.NewId()
			mhttp.TraceInfo{TraceId: &id, ParentId: &id, Sampled: true}.SetHeader(q.Header)
		}
		rec := httptest.NewRecorder()
		l.dead = append(l.dead, track("a handler", pay), track("a request", q), track("a response", rec))
		vh.Catch(func() { h.ServeHTTP(rec, q) })
	case 6:
		if s == nil {
			return
		}
		q := httptest.NewRequest("GET", "http://x/", nil)
		rec := httptest.NewRecorder()
		l.dead = append(l.dead, track("an outgoing request", q), track("an outgoing response", rec))
		vh.Catch(func() {
			_, _ = mhttp.TraceRequest(ctx, l.scope, client(func(q *http.Request) (*http.Response, error) {
				inner(q.Context())
				switch r.Intn(5) {
				case 0, 1:
					return nil, errors.New("x")
				case 2:
					panic("no connection")
				}
				return rec.Result(), nil
			}), q)
		})
	case 7:
		t := l.scope.Timer("t").Start()
		l.dead = append(l.dead, track("a running timer", t))
		if r.Intn(2) == 0 {
			t.Stop()
		}
		task := l.scope.Task()
		c := ctx
		task(&c)(nil)
		x := l.scope.FuncNamed("obs").Observe()
		x(nil)
	}
}

type client func(*http.Request) (*http.Response, error)

func (f client) Do(r *http.Request) (*http.Response, error) { return f(r) }

// due gives what should have gone by now.
func (l *life) due() []tracked {
	out := l.dead
	l.dead = nil
	if len(l.subs) > 0 {
		// they may hold on to whatever they saw
		l.dead = out
		return nil
	}
	for _, n := range l.nodes {
		if !n.reported && n.over() {
			n.reported = true
			out = append(out, n.things...)
			n.things = nil
		}
	}
	for _, t := range l.all {
		if !t.seen && t.over() {
			t.seen = true
			out = append(out, t.things...)
			t.things = nil
		}
	}
	return out
}

func (l *life) random() {
	r := l.r
	switch k := r.Intn(12); {
	case k < 4:
		if len(l.open) < 12 {
			l.start()
		}
	case k < 7:
		if len(l.open) > 0 {
			l.finish(r.Intn(len(l.open)))
		}
	case k < 9:
		if len(l.subs) < 3 {
			l.subscribe()
		}
	case k < 11:
		if len(l.subs) > 0 {
			l.cancel(r.Intn(len(l.subs)))
		}
	default:
		l.episode()
	}
}

func (l *life) check(c *vh.C, when string) {
	due := l.due()
	if left := gone(due); len(left) > 0 {
		c.Fatalf("%s, still held: %d of %d: %q", when, len(left), len(due), left[:min(len(left), 12)])
	}
	c.Events(len(due))
	c.Note("objects seen freed", int64(len(due)))
}

func counts(c *vh.C, reg *monkit.Registry, want int, when string) {
	n := 0
	reg.AllSpans(func(*monkit.Span) { n++ })
	if n != want {
		c.Fatalf("%s: %d spans are listed, not %d", when, n, want)
	}
}

// history is one goroutine's, with checks in between.
func history(c *vh.C) {
	g0 := runtime.NumGoroutine()
	l := newLife(c, c.Rng, monkit.NewRegistry())
	var keep context.Context = context.Background()
	var keepExit func(*error)
	step(func() { keepExit = l.scope.FuncNamed("long").Task(&keep) })
	for round := 1 + c.Rng.Intn(3); round > 0; round-- {
		for i := 5 + c.Rng.Intn(25); i > 0; i-- {
			step(l.random)
		}
		if c.Rng.Intn(2) == 0 {
			for len(l.subs) > 0 {
				step(func() { l.cancel(0) })
			}
		}
		l.check(c, "in between")
	}
	step(func() {
		for len(l.subs) > 0 {
			l.cancel(0)
		}
		for len(l.open) > 0 {
			l.finish(l.r.Intn(len(l.open)))
		}
	})
	counts(c, l.reg, 1, "at the end")
	l.check(c, "at the end")
	goroutines(c, g0)
	keepExit(nil)
	runtime.KeepAlive(l.reg)
}

func goroutines(c *vh.C, g0 int) {
	for i := 0; ; i++ {
		n := runtime.NumGoroutine()
		if n <= g0 {
			return
		}
		if i == 200 {
			buf := make([]byte, 1<<16)
			c.Fatalf("%d goroutines, there were %d\n%s", n, g0, buf[:runtime.Stack(buf, true)])
		}
		time.Sleep(time.Duration(i) * time.Millisecond)
	}
}

// racing has goroutines share the spans of a long trace.
func racing(c *vh.C) {
	g0 := runtime.NumGoroutine()
	reg := monkit.NewRegistry()
	sc := reg.ScopeNamed("s")
	root := context.Background()
	exit := sc.FuncNamed("root").Task(&root)
	var mtx sync.Mutex
	var list []tracked
	add := func(t ...tracked) {
		mtx.Lock()
		list = append(list, t...)
		mtx.Unlock()
	}
	lives := make([]*life, 2+c.Rng.Intn(3))
	for g := range lives {
		g := g
		l := newLife(c, rand.New(rand.NewSource(c.Rng.Int63())), reg)
		lives[g] = l
		c.Go(func() {
			for i := 0; i < 12; i++ {
				switch l.r.Intn(4) {
				case 0:
					// a child that outlives its parent, finished elsewhere
					ctx := root
					x := sc.FuncNamed("p").Task(&ctx, "y")
					p := &payload{}
					cctx := ctx
					cx := sc.FuncNamed("c").Task(&cctx, p)
					add(track("a parent", monkit.SpanFromCtx(ctx)), track("a child", monkit.SpanFromCtx(cctx)), track("its argument", p))
					done := make(chan struct{})
					go func() { defer close(done); cx(nil) }()
					x(nil)
					<-done
				case 1:
					ctx := root
					o := &observer{pay: &payload{}}
					cancel := monkit.SpanFromCtx(root).Trace().ObserveSpans(o)
					add(track("an observer", o))
					sc.FuncNamed("o").Task(&ctx)(nil)
					cancel()
				case 2:
					p := &payload{}
					add(track("a watcher", p))
					reg.ObserveTraces(func(*monkit.Trace) { _ = p.name })()
				case 3:
					l.random()
				}
			}
			for len(l.subs) > 0 {
				l.cancel(0)
			}
			for len(l.open) > 0 {
				l.finish(l.r.Intn(len(l.open)))
			}
		})
	}
	c.Wait()
	if c.Failed() {
		return
	}
	for _, l := range lives {
		list = append(list, l.due()...)
	}
	counts(c, reg, 1, "at the end")
	if left := gone(list); len(left) > 0 {
		c.Fatalf("still held: %d of %d: %q", len(left), len(list), left[:min(len(left), 12)])
	}
	c.Events(len(list))
	c.Note("objects seen freed", int64(len(list)))
	exit(nil)
	goroutines(c, g0)
	runtime.KeepAlive(reg)
}

// growth does something often and counts objects.
var growers = []struct {
	name string
	do   func(reg *monkit.Registry, sc *monkit.Scope, root context.Context)
}{
	{"roots", func(reg *monkit.Registry, sc *monkit.Scope, root context.Context) {
		ctx := context.Background()
		sc.FuncNamed("f").Task(&ctx, 1, "a")(nil)
	}},
	{"children", func(reg *monkit.Registry, sc *monkit.Scope, root context.Context) {
		ctx := root
		sc.FuncNamed("f").Task(&ctx, 1, "a")(nil)
	}},
	{"children while a collector waits", func(reg *monkit.Registry, sc *monkit.Scope, root context.Context) {
		t := monkit.SpanFromCtx(root).Trace()
		if t.Get("waiting") == nil {
			col := collect.NewSpanCollector(func(s *monkit.Span) bool { return false })
			t.Set("waiting", col)
			t.ObserveSpans(col)
		}
		for i := 0; i < 10; i++ {
			ctx := root
			sc.FuncNamed("f").Task(&ctx, i)(nil)
		}
	}},
	{"orphans", func(reg *monkit.Registry, sc *monkit.Scope, root context.Context) {
		ctx := root
		x := sc.FuncNamed("f").Task(&ctx)
		y := sc.FuncNamed("g").Task(&ctx)
		z := sc.FuncNamed("h").Task(&ctx)
		x(nil)
		z(nil)
		y(nil)
	}},
	{"two at once", func(reg *monkit.Registry, sc *monkit.Scope, root context.Context) {
		a, b := root, root
		x := sc.FuncNamed("f").Task(&a)
		y := sc.FuncNamed("f").Task(&b)
		x(nil)
		y(nil)
	}},
	{"errors and panics", func(reg *monkit.Registry, sc *monkit.Scope, root context.Context) {
		err := errors.New("x")
		ctx := root
		sc.FuncNamed("f").Task(&ctx)(&err)
		vh.Catch(func() { defer sc.FuncNamed("f").Task(&ctx)(&err); panic(3) })
	}},
	{"observers", func(reg *monkit.Registry, sc *monkit.Scope, root context.Context) {
		tr := monkit.SpanFromCtx(root).Trace()
		a := tr.ObserveSpans(&observer{})
		b := tr.ObserveSpansCtx(&observerCtx{})
		d := tr.ObserveSpans(&observer{})
		b()
		a()
		d()
	}},
	{"watchers", func(reg *monkit.Registry, sc *monkit.Scope, root context.Context) {
		a := reg.ObserveTraces(func(*monkit.Trace) {})
		b := reg.ObserveTraces(func(*monkit.Trace) {})
		a()
		b()
	}},
	{"all traces", func(reg *monkit.Registry, sc *monkit.Scope, root context.Context) {
		collect.ObserveAllTraces(reg, &observer{})()
	}},
	{"collections", func(reg *monkit.Registry, sc *monkit.Scope, root context.Context) {
		collect.CollectSpans(root, func(ctx context.Context) { sc.FuncNamed("f").Task(&ctx)(nil) })
	}},
	{"finds", func(reg *monkit.Registry, sc *monkit.Scope, root context.Context) {
		ctx, cancel := context.WithCancel(context.Background())
		cancel()
		collect.FindSpan(ctx, reg, func(*monkit.Span) bool { return false })
		collect.WatchForSpans(ctx, reg, func(*monkit.Span) bool { return false })
	}},
	{"values", func(reg *monkit.Registry, sc *monkit.Scope, root context.Context) {
		sc.Counter("c").Inc(1)
		sc.IntVal("i").Observe(3)
		sc.FloatVal("f").Observe(3)
		sc.BoolVal("b").Observe(true)
		sc.DurationVal("d").Observe(3)
		sc.StructVal("s").Observe(struct{ A int }{3})
		sc.Timer("t").Start().Stop()
		sc.Meter("m").Mark(1)
		sc.Event("e")
		sc.Gauge("g", func() float64 { return 1 })
		sc.DiffMeter("dm", sc.Meter("m"), sc.Meter("m2"))
	}},
	{"tagged", func(reg *monkit.Registry, sc *monkit.Scope, root context.Context) {
		sc.Counter("c", monkit.NewSeriesTag("a", "b"), monkit.NewSeriesTag("c", "d")).Inc(1)
		ctx := root
		sc.TaskNamed("t", monkit.NewSeriesTag("a", "b"))(&ctx)(nil)
		reg.ScopeNamed("other").FuncNamed("x").Observe()(nil)
	}},
	{"readouts", func(reg *monkit.Registry, sc *monkit.Scope, root context.Context) {
		reg.WithTransformers(delta).Stats(func(monkit.SeriesKey, string, float64) {})
		_ = present.StatsText(reg, io.Discard)
		_ = present.FuncsJSON(reg, io.Discard)
		_ = present.SpansText(reg, io.Discard)
		_ = monkit.Collect(reg)
	}},
	{"middleware", func(reg *monkit.Registry, sc *monkit.Scope, root context.Context) {
		h := mhttp.TraceHandler(http.HandlerFunc(func(w http.ResponseWriter, q *http.Request) { w.WriteHeader(204) }), sc)
		h.ServeHTTP(httptest.NewRecorder(), httptest.NewRequest("GET", "/", nil))
	}},
	{"traces with values", func(reg *monkit.Registry, sc *monkit.Scope, root context.Context) {
		tr := monkit.NewTrace(3)
		tr.Set("a", "b")
		ctx := root
		sc.FuncNamed("f").RemoteTrace(&ctx, 1, tr)(nil)
		sc.FuncNamed("f").ResetTrace(&ctx)(nil)
		monkit.SpanFromCtx(root).Trace().Set("a", "c")
	}},
	{"a chain of resets", func(reg *monkit.Registry, sc *monkit.Scope, root context.Context) {
		// each trace starts in the last one's context
		x := sc.FuncNamed("f").ResetTrace(&chain)
		x(nil)
	}},
	{"a chain of remote traces", func(reg *monkit.Registry, sc *monkit.Scope, root context.Context) {
		x := sc.FuncNamed("f").RemoteTrace(&chain, 5, monkit.NewTrace(7), 1, "a")
		y := sc.FuncNamed("g").Task(&chain, "b")
		y(nil)
		x(nil)
		sc.FuncNamed("h").RemoteTrace(&chain, 0, nil)(nil)
	}},
	{"a chain of tasks out of one trace into others", func(reg *monkit.Registry, sc *monkit.Scope, root context.Context) {
		ctx := root
		x := sc.FuncNamed("f").Task(&ctx)
		y := sc.FuncNamed("g").ResetTrace(&ctx)
		z := sc.FuncNamed("h").Task(&ctx)
		x(nil)
		z(nil)
		y(nil)
	}},
	{"unnamed tasks", func(reg *monkit.Registry, sc *monkit.Scope, root context.Context) {
		ctx := root
		defer sc.Task()(&ctx)(nil)
	}},
}

var delta = monkit.NewDeltaTransformer()

var chain = context.Background()

func growth(c *vh.C) {
	chain = context.Background()
	g := growers[c.Idx%len(growers)]
	reg := monkit.NewRegistry()
	sc := reg.ScopeNamed("s")
	root := context.Background()
	exit := sc.FuncNamed("root").Task(&root)
	// what there is one of per process may be started now
	step(func() { g.do(reg, sc, root) })
	g0 := runtime.NumGoroutine()
	const k = 400
	objects := func() int64 {
		runtime.GC()
		runtime.GC()
		var ms runtime.MemStats
		runtime.ReadMemStats(&ms)
		return int64(ms.HeapObjects)
	}
	burst := func() {
		step(func() {
			for i := 0; i < k; i++ {
				g.do(reg, sc, root)
			}
		})
	}
	burst()
	for try := 0; ; try++ {
		a := objects()
		burst()
		b := objects()
		c.Logf("%s: %d objects became %d", g.name, a, b)
		if b-a < k/2 {
			c.Sig(g.name, try)
			break
		}
		if try == 5 {
			c.Fatalf("%s: %d more objects each time after %d", g.name, b-a, k)
		}
		time.Sleep(10 * time.Millisecond)
	}
	c.Events(2 * k)
	counts(c, reg, 1, g.name)
	goroutines(c, g0)
	exit(nil)
	runtime.KeepAlive(reg)
}

func TestCheck(t *testing.T) {
	debug.SetGCPercent(400)
	h := vh.New(t, "C30")
	h.Serial("history", h.N(1000), history)
	h.Serial("growth", max(3*len(growers), h.N(1)), growth)
	h.Conc("racing", h.N(1000), racing)
	h.Finish()
}
