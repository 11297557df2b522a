// Package c25 calls the library from everything the library calls.
package c25

import (
	"bytes"
	"context"
	"errors"
	"fmt"
	"io"
	"math/rand"
	"net/http"
	"net/http/httptest"
	"net/url"
	"sort"
	"sync"
	"sync/atomic"
	"testing"
	"time"

	"github.com/spacemonkeygo/monkit/v3"
	"github.com/spacemonkeygo/monkit/v3/collect"
	mhttp "github.com/spacemonkeygo/monkit/v3/http"
	"github.com/spacemonkeygo/monkit/v3/present"

	"verifh/ops"
	"verifh/vh"
)

// boom is what callbacks panic with.
type boom struct{}

// hook is what a callback does. It does it only once (but counts all times),
// and not when its own doing gets it called again.
type hook struct {
	w    *ops.World
	r    *rand.Rand
	n    atomic.Int64
	busy atomic.Bool
	acts atomic.Int64
	max  int64
	skip int64
	do   func()
	// cancel is the callback's own registration, when it has one
	cancel func()
}

func (h *hook) call() {
	n := h.n.Add(1)
	if n <= h.skip || !h.busy.CompareAndSwap(false, true) {
		return
	}
	defer h.busy.Store(false)
	if h.acts.Add(1) > h.max {
		return
	}
	h.do()
}

// err is an error that has things done when it's named or printed.
type hookErr struct {
	h     *hook
	where string
}

func (e *hookErr) Error() string {
	if e.where == "text" {
		e.h.call()
	}
	return "hook error"
}

func (e *hookErr) Name() (string, bool) {
	if e.where == "name" {
		e.h.call()
	}
	return "Hooked", true
}

func init() {
	monkit.AddErrorNameHandler(func(err error) (string, bool) {
		if e, ok := err.(*hookErr); ok && e.where == "handler" {
			e.h.call()
			return "Handled", true
		}
		return "", false
	})
}

// arg is an argument that has things done when it's formatted.
type arg struct{ h *hook }

func (a arg) GoString() string { a.h.call(); return "arg" }
func (a arg) String() string   { a.h.call(); return "arg" }

type observer struct{ start, finish *hook }

func (o observer) Start(s *monkit.Span) {
	if o.start != nil {
		o.start.call()
	}
}
func (o observer) Finish(s *monkit.Span, err error, panicked bool, at time.Time) {
	if o.finish != nil {
		o.finish.call()
	}
}

type observerCtx struct{ start, finish *hook }

func (o observerCtx) Start(ctx context.Context, s *monkit.Span) context.Context {
	if o.start != nil {
		o.start.call()
	}
	return ctx
}
func (o observerCtx) Finish(ctx context.Context, s *monkit.Span, err error, panicked bool, at time.Time) {
	if o.finish != nil {
		o.finish.call()
	}
}

// valCtx is a context with code in it.
type valCtx struct {
	context.Context
	h *hook
}

func (v valCtx) Value(k interface{}) interface{} { v.h.call(); return v.Context.Value(k) }

type source struct{ h *hook }

func (s source) Stats(cb func(key monkit.SeriesKey, field string, val float64)) {
	cb(monkit.NewSeriesKey("user"), "a", 1)
	s.h.call()
	cb(monkit.NewSeriesKey("user"), "b", 2)
}

type writer struct {
	bytes.Buffer
	h *hook
}

func (w *writer) Write(p []byte) (int, error) { w.h.call(); return w.Buffer.Write(p) }

type transformer struct{ h *hook }

func (t transformer) Transform(cb func(monkit.SeriesKey, string, float64)) func(monkit.SeriesKey, string, float64) {
	t.h.call()
	return cb
}

func stat(h *hook) func(monkit.SeriesKey, string, float64) {
	return func(k monkit.SeriesKey, f string, v float64) { _ = k.String(); h.call() }
}

// call calls the shared function under the shared span, with an error maybe.
func call(w *ops.World, err error, args ...interface{}) {
	ctx := w.Root
	w.Calls.Add(1)
	defer w.Fn.Task(&ctx, args...)(&err)
}

// fill makes sources for readouts to read.
func fill(w *ops.World) {
	w.Scope.Counter("c").Inc(1)
	w.Scope.IntVal("i").Observe(3)
	w.Scope.FloatVal("f").Observe(3)
	w.Scope.BoolVal("b").Observe(true)
	w.Scope.DurationVal("d").Observe(3)
	w.Scope.StructVal("s").Observe(&ops.T1{A: 2})
	w.Scope.Timer("t").Start().Stop()
	w.Scope.Meter("m").Mark(1)
	w.Scope.Event("e")
	w.Scope.DiffMeter("dm", w.Scope.Meter("m"), w.Scope.Meter("m2"))
	w.Scope.Gauge("g", func() float64 { return 1 })
	w.Scope.Chain(w.Source)
	ctx := context.Background()
	w.Scope.TaskNamed("filled", monkit.NewSeriesTag("k", "v"))(&ctx)(nil)
	call(w, errors.New("x"))
}

// site is a place at which the library calls user code.
type site struct {
	name string
	// drive gets h called. Before that it may set h.cancel.
	drive func(w *ops.World, h *hook)
}

func live(w *ops.World, h *hook, f func()) {
	ctx := w.Root
	exit := w.Scope.FuncNamed("witharg").Task(&ctx, arg{h}, 3)
	defer exit(nil)
	f()
}

func spans(w *ops.World, h *hook) []*collect.FinishedSpan {
	return collect.CollectSpans(w.Root, func(ctx context.Context) {
		var err error = &hookErr{h, "text"}
		defer w.Scope.FuncNamed("collected").Task(&ctx, arg{h})(&err)
		call(w, &hookErr{h, "text"})
	})
}

func watching(w *ops.World, f func(ctx context.Context)) (wait func()) {
	ctx, cancel := context.WithCancel(context.Background())
	done := make(chan interface{}, 1)
	go func() {
		rec, p := vh.Catch(func() { f(ctx) })
		if !p {
			rec = nil
		}
		done <- rec
	}()
	return func() {
		cancel()
		if rec := vh.Await(w.C, done, "end of a cancelled watch"); rec != nil {
			panic(rec)
		}
	}
}

var sites = []site{
	{"registry stat callback", func(w *ops.World, h *hook) { w.Reg.Stats(stat(h)) }},
	{"scope stat callback", func(w *ops.World, h *hook) { w.Scope.Stats(stat(h)) }},
	{"func stat callback", func(w *ops.World, h *hook) { w.Fn.Stats(stat(h)) }},
	{"counter stat callback", func(w *ops.World, h *hook) { w.Scope.Counter("c").Stats(stat(h)) }},
	{"int stat callback", func(w *ops.World, h *hook) { w.Scope.IntVal("i").Stats(stat(h)) }},
	{"float stat callback", func(w *ops.World, h *hook) { w.Scope.FloatVal("f").Stats(stat(h)) }},
	{"bool stat callback", func(w *ops.World, h *hook) { w.Scope.BoolVal("b").Stats(stat(h)) }},
	{"duration stat callback", func(w *ops.World, h *hook) { w.Scope.DurationVal("d").Stats(stat(h)) }},
	{"struct stat callback", func(w *ops.World, h *hook) { w.Scope.StructVal("s").Stats(stat(h)) }},
	{"timer stat callback", func(w *ops.World, h *hook) { w.Scope.Timer("t").Stats(stat(h)) }},
	{"meter stat callback", func(w *ops.World, h *hook) { w.Scope.Meter("m").Stats(stat(h)) }},
	{"diff meter stat callback", func(w *ops.World, h *hook) {
		monkit.NewDiffMeter(monkit.NewSeriesKey("x"), w.Scope.Meter("m"), w.Scope.Meter("m2")).Stats(stat(h))
	}},
	{"distribution stat callback", func(w *ops.World, h *hook) {
		d := monkit.NewIntDist(monkit.NewSeriesKey("x"))
		d.Insert(3)
		d.Stats(stat(h))
	}},
	{"transformed stat callback", func(w *ops.World, h *hook) { w.TReg.Stats(stat(h)) }},
	{"transformed source callback", func(w *ops.World, h *hook) {
		monkit.TransformStatSource(w.Scope, w.Delta, transformer{h}).Stats(stat(h))
	}},
	{"transformer", func(w *ops.World, h *hook) {
		w.Reg.WithTransformers(transformer{h}, w.Delta).Stats(stat(h))
	}},
	{"gauge", func(w *ops.World, h *hook) {
		w.Scope.Gauge("hooked", func() float64 { h.call(); return 3 })
		w.Reg.Stats(func(monkit.SeriesKey, string, float64) {})
	}},
	{"gauge in scope readout", func(w *ops.World, h *hook) {
		w.Scope.Gauge("hooked", func() float64 { h.call(); return 3 })
		w.Scope.Stats(func(monkit.SeriesKey, string, float64) {})
	}},
	{"chained source", func(w *ops.World, h *hook) {
		w.Scope.Chain(source{h})
		_ = monkit.Collect(w.Reg)
	}},
	{"stats presenter's writer", func(w *ops.World, h *hook) { _ = present.StatsText(w.Reg, &writer{h: h}) }},
	{"stats JSON writer", func(w *ops.World, h *hook) { _ = present.StatsJSON(w.Reg, &writer{h: h}) }},
	{"funcs writers", func(w *ops.World, h *hook) {
		_ = present.FuncsText(w.Reg, &writer{h: h})
		_ = present.FuncsJSON(w.Reg, &writer{h: h})
		_ = present.FuncsDot(w.Reg, &writer{h: h})
	}},
	{"span writers", func(w *ops.World, h *hook) {
		_ = present.SpansText(w.Reg, &writer{h: h})
		_ = present.SpansJSON(w.Reg, &writer{h: h})
		_ = present.SpansDot(w.Reg, &writer{h: h})
	}},
	{"collected span writers", func(w *ops.World, h *hook) {
		s := collect.CollectSpans(w.Root, func(ctx context.Context) { call(w, nil) })
		_ = present.SpansToJSON(&writer{h: h}, s)
		_ = present.SpansToSVG(&writer{h: h}, s)
	}},
	{"trace watcher", func(w *ops.World, h *hook) {
		h.cancel = w.Reg.ObserveTraces(func(t *monkit.Trace) { h.call() })
		w.Later(h.cancel)
		ctx := context.Background()
		w.FnTask(&ctx)(nil)
	}},
	{"one of trace watchers", func(w *ops.World, h *hook) {
		w.Later(w.Reg.ObserveTraces(func(t *monkit.Trace) {}))
		h.cancel = w.Reg.ObserveTraces(func(t *monkit.Trace) { h.call(); t.ObserveSpans(observer{start: h}) })
		w.Later(h.cancel)
		w.Later(w.Reg.ObserveTraces(func(t *monkit.Trace) {}))
		ctx := context.Background()
		w.FnTask(&ctx)(nil)
	}},
	{"observer start", func(w *ops.World, h *hook) {
		h.cancel = w.Trace.ObserveSpans(observer{start: h})
		w.Later(h.cancel)
		call(w, nil)
	}},
	{"observer finish", func(w *ops.World, h *hook) {
		h.cancel = w.Trace.ObserveSpans(observer{finish: h})
		w.Later(h.cancel)
		call(w, nil)
	}},
	{"one of observers start", func(w *ops.World, h *hook) {
		w.Later(w.Trace.ObserveSpans(observer{}))
		h.cancel = w.Trace.ObserveSpansCtx(observerCtx{start: h})
		w.Later(h.cancel)
		w.Later(w.Trace.ObserveSpans(observer{}))
		call(w, nil)
	}},
	{"one of observers finish", func(w *ops.World, h *hook) {
		w.Later(w.Trace.ObserveSpansCtx(observerCtx{}))
		h.cancel = w.Trace.ObserveSpansCtx(observerCtx{finish: h})
		w.Later(h.cancel)
		w.Later(w.Trace.ObserveSpans(observer{}))
		call(w, io.EOF)
	}},
	{"observer of all traces", func(w *ops.World, h *hook) {
		h.cancel = collect.ObserveAllTraces(w.Reg, observer{h, h})
		w.Later(h.cancel)
		call(w, nil)
		ctx := context.Background()
		w.FnTask(&ctx)(nil)
	}},
	{"collector's matcher", func(w *ops.World, h *hook) {
		col := collect.NewSpanCollector(func(s *monkit.Span) bool { h.call(); return true })
		h.cancel = col.Stop
		defer w.Trace.ObserveSpans(col)()
		call(w, nil)
		_ = col.Spans()
	}},
	{"watch matcher", func(w *ops.World, h *hook) {
		wait := watching(w, func(ctx context.Context) {
			collect.WatchForSpans(ctx, w.Reg, func(s *monkit.Span) bool { h.call(); return s.Func() == w.Fn })
		})
		rec, p := vh.Catch(func() {
			for i := 0; i < 10 || h.n.Load() == 0; i++ {
				call(w, nil)
			}
		})
		wait()
		if p {
			panic(rec)
		}
	}},
	{"find matcher", func(w *ops.World, h *hook) {
		wait := watching(w, func(ctx context.Context) {
			collect.FindSpan(ctx, w.Reg, func(s *monkit.Span) bool { h.call(); return s.Func() == w.Fn })
		})
		rec, p := vh.Catch(func() {
			for i := 0; i < 10 || h.n.Load() == 0; i++ {
				call(w, nil)
			}
		})
		wait()
		if p {
			panic(rec)
		}
	}},
	{"collected work", func(w *ops.World, h *hook) {
		collect.CollectSpans(w.Root, func(ctx context.Context) { h.call() })
	}},
	{"error name handler", func(w *ops.World, h *hook) {
		call(w, &hookErr{h, "handler"})
	}},
	{"error name handler on Observe", func(w *ops.World, h *hook) {
		var err error = &hookErr{h, "handler"}
		w.Calls.Add(1)
		w.Fn.Observe()(&err)
	}},
	{"self-naming error", func(w *ops.World, h *hook) { call(w, &hookErr{h, "name"}) }},
	{"error text", func(w *ops.World, h *hook) {
		s := spans(w, h)
		_ = present.SpansToJSON(io.Discard, s)
		_ = present.SpansToSVG(io.Discard, s)
	}},
	{"Funcs", func(w *ops.World, h *hook) {
		w.Reg.Funcs(func(*monkit.Func) { h.call() })
		w.Scope.Funcs(func(*monkit.Func) { h.call() })
	}},
	{"Scope.Funcs", func(w *ops.World, h *hook) { w.Scope.Funcs(func(*monkit.Func) { h.call() }) }},
	{"Scopes", func(w *ops.World, h *hook) { w.Reg.Scopes(func(*monkit.Scope) { h.call() }) }},
	{"RootSpans", func(w *ops.World, h *hook) { w.Reg.RootSpans(func(*monkit.Span) { h.call() }) }},
	{"AllSpans", func(w *ops.World, h *hook) { w.Reg.AllSpans(func(*monkit.Span) { h.call() }) }},
	{"Children", func(w *ops.World, h *hook) {
		live(w, h, func() { w.Span.Children(func(*monkit.Span) { h.call() }) })
	}},
	{"Parents", func(w *ops.World, h *hook) {
		call(w, nil)
		ctx := w.Root
		defer w.Scope.FuncNamed("mid").Task(&ctx)(nil)
		w.FnTask(&ctx)(nil)
		w.Fn.Parents(func(*monkit.Func) { h.call() })
	}},
	{"arguments", func(w *ops.World, h *hook) {
		live(w, h, func() { w.Reg.AllSpans(func(s *monkit.Span) { _ = s.Args() }) })
	}},
	{"arguments in span texts", func(w *ops.World, h *hook) {
		live(w, h, func() { _ = present.SpansText(w.Reg, io.Discard) })
	}},
	{"arguments in span JSON", func(w *ops.World, h *hook) {
		live(w, h, func() { _ = present.SpansJSON(w.Reg, io.Discard) })
	}},
	{"arguments in span graphs", func(w *ops.World, h *hook) {
		live(w, h, func() { _ = present.SpansDot(w.Reg, io.Discard) })
	}},
	{"arguments at the start and end", func(w *ops.World, h *hook) {
		defer w.Trace.ObserveSpans(argObserver{})()
		call(w, nil, arg{h})
	}},
	{"context", func(w *ops.World, h *hook) {
		var ctx context.Context = valCtx{w.Root, h}
		w.FnTask(&ctx)(nil)
		_ = monkit.SpanFromCtx(ctx)
	}},
	{"context of a trace", func(w *ops.World, h *hook) {
		var ctx context.Context = valCtx{context.Background(), h}
		defer w.Scope.FuncNamed("hasctx").RemoteTrace(&ctx, 3, w.Trace)(nil)
		_ = monkit.SpanFromCtx(ctx)
		_ = ctx.Value("x")
		w.FnTask(&ctx)(nil)
		_ = monkit.ResetContextSpan(ctx).Value("y")
	}},
	{"trace query matcher and writer", func(w *ops.World, h *hook) {
		f, _, err := present.FromRequest(w.Reg, "/trace/json", url.Values{"regex": {`shared\.fn`}})
		if err != nil {
			w.C.Fatalf("%v", err)
		}
		done := make(chan interface{}, 1)
		go func() {
			rec, p := vh.Catch(func() { _ = f(&writer{h: h}) })
			if !p {
				rec = nil
			}
			done <- rec
		}()
		for {
			select {
			case rec := <-done:
				if rec != nil {
					panic(rec)
				}
				return
			default:
				call(w, &hookErr{h, "text"}, arg{h})
			}
		}
	}},
	{"sampling callback", func(w *ops.World, h *hook) {
		w.Trace.Set(present.SampledCBKey, func(t *monkit.Trace) { h.call() })
		f, _, err := present.FromRequest(w.Reg, "/trace/remote", url.Values{"regex": {`shared\.fn`}})
		if err != nil {
			w.C.Fatalf("%v", err)
		}
		done := make(chan interface{}, 1)
		go func() {
			rec, p := vh.Catch(func() { _ = f(io.Discard) })
			if !p {
				rec = nil
			}
			done <- rec
		}()
		var rec interface{}
		for {
			select {
			case r := <-done:
				if r != nil {
					rec = r
				}
				if rec != nil {
					panic(rec)
				}
				return
			default:
				if r, p := vh.Catch(func() { call(w, nil) }); p {
					rec = r
				}
			}
		}
	}},
	{"HTTP handler", func(w *ops.World, h *hook) {
		hd := mhttp.TraceHandler(http.HandlerFunc(func(wr http.ResponseWriter, q *http.Request) {
			h.call()
			wr.WriteHeader(201)
			h.call()
		}), w.Scope, "k")
		hd.ServeHTTP(respWriter{httptest.NewRecorder(), h}, httptest.NewRequest("GET", "/x", nil))
	}},
	{"HTTP client", func(w *ops.World, h *hook) {
		_, _ = mhttp.TraceRequest(w.Root, w.Scope, client(func(q *http.Request) (*http.Response, error) {
			h.call()
			return nil, &hookErr{h, "name"}
		}), httptest.NewRequest("GET", "http://h/x", nil))
	}},
	{"debug endpoint response", func(w *ops.World, h *hook) {
		for _, p := range []string{"/ps", "/funcs/json", "/stats", "/nope"} {
			w.Dbg.ServeHTTP(respWriter{httptest.NewRecorder(), h}, httptest.NewRequest("GET", p, nil))
		}
	}},
	{"monitored code", func(w *ops.World, h *hook) {
		ctx := w.Root
		defer w.FnTask(&ctx)(nil)
		h.call()
	}},
}

type client func(*http.Request) (*http.Response, error)

func (f client) Do(r *http.Request) (*http.Response, error) { return f(r) }

type respWriter struct {
	*httptest.ResponseRecorder
	h *hook
}

func (r respWriter) Header() http.Header         { r.h.call(); return r.ResponseRecorder.Header() }
func (r respWriter) WriteHeader(n int)           { r.h.call(); r.ResponseRecorder.WriteHeader(n) }
func (r respWriter) Write(p []byte) (int, error) { r.h.call(); return r.ResponseRecorder.Write(p) }

type argObserver struct{}

func (argObserver) Start(s *monkit.Span) { _ = s.Args() }
func (argObserver) Finish(s *monkit.Span, err error, panicked bool, at time.Time) {
	_ = s.Args()
}

// within runs f and fails the case when it doesn't return. It gives f's panic,
// which must be one of the callbacks'.
func within(c *vh.C, what string, f func()) (panicked bool) {
	type res struct {
		rec interface{}
		p   bool
	}
	done := make(chan res, 1)
	go func() {
		rec, p := vh.Catch(f)
		done <- res{rec, p}
	}()
	r := vh.Await(c, done, what)
	if r.p {
		if _, ok := r.rec.(boom); !ok {
			c.Fatalf("%s panicked: %v", what, r.rec)
		}
	}
	return r.p
}

func series(w *ops.World) []string {
	var out []string
	seen := map[string]bool{}
	w.Reg.Stats(func(k monkit.SeriesKey, f string, v float64) {
		s := k.WithField(f)
		if !seen[s] {
			seen[s] = true
			out = append(out, s)
		}
	})
	sort.Strings(out)
	return out
}

func missing(before, after []string) []string {
	have := map[string]bool{}
	for _, s := range after {
		have[s] = true
	}
	var out []string
	for _, s := range before {
		if !have[s] {
			out = append(out, s)
		}
	}
	return out
}

// battery uses everything and checks the essentials.
func battery(c *vh.C, w *ops.World, r *rand.Rand, full bool) {
	if full {
		for _, o := range ops.Menu {
			o := o
			if within(c, "afterwards, "+o.Name, func() { o.Do(w, r) }) {
				c.Failf("afterwards, %s panicked like the callback", o.Name)
			}
			c.Events(1)
		}
	} else {
		for i := 0; i < 6; i++ {
			o := ops.Menu[r.Intn(len(ops.Menu))]
			if within(c, "afterwards, "+o.Name, func() { o.Do(w, r) }) {
				c.Failf("afterwards, %s panicked like the callback", o.Name)
			}
			c.Events(1)
		}
	}
	within(c, "afterwards, the essentials", func() {
		f := w.Scope.FuncNamed("after")
		starts, finishes := &hook{max: 0}, &hook{max: 0}
		cancel := w.Trace.ObserveSpansCtx(observerCtx{starts, finishes})
		traces := &hook{max: 0}
		cancelT := w.Reg.ObserveTraces(func(*monkit.Trace) { traces.call() })
		ctx := w.Root
		exit := f.Task(&ctx)
		s := monkit.SpanFromCtx(ctx)
		seen := 0
		w.Span.Children(func(x *monkit.Span) {
			if x == s {
				seen++
			}
		})
		all := 0
		w.Reg.AllSpans(func(x *monkit.Span) {
			if x == s {
				all++
			}
		})
		err := error(io.EOF)
		exit(&err)
		rctx := context.Background()
		f.Task(&rctx)(nil)
		cancel()
		cancelT()
		if f.Success() != 1 || f.Errors()["EOF"] != 1 || f.Current() != 0 || seen != 1 || all != 1 ||
			starts.n.Load() != 1 || finishes.n.Load() != 1 || traces.n.Load() != 1 {
			c.Failf("afterwards a call was counted %d, %v, %d; listed %d, %d; observed %d, %d; traces %d",
				f.Success(), f.Errors(), f.Current(), seen, all, starts.n.Load(), finishes.n.Load(), traces.n.Load())
		}
		w.Scope.Counter("after").Inc(2)
		n := 0.0
		w.Reg.Stats(func(k monkit.SeriesKey, f string, v float64) {
			if k.Measurement == "after" && f == "value" {
				n = v
			}
		})
		if n != 2 {
			c.Failf("afterwards a new counter is reported as %v", n)
		}
	})
}

// run has one kind of callback do one thing.
func run(c *vh.C, st site, what string, o ops.Op, full bool) {
	w := ops.NewWorld(c)
	r := c.Rng
	fill(w)
	before := series(w)
	h := &hook{w: w, r: rand.New(rand.NewSource(r.Int63())), max: int64(1 + r.Intn(3))}
	if r.Intn(3) == 0 {
		h.skip = int64(r.Intn(4))
	}
	did := false
	// a span that outlives its parent may be there, and end meanwhile
	end, within1 := func() {}, r.Intn(2) == 0
	if r.Intn(3) == 0 {
		ctx := context.Background()
		first := w.Scope.FuncNamed("outlived").Task(&ctx)
		last := w.Scope.FuncNamed("outliving").Task(&ctx)
		first(nil)
		var once sync.Once
		end = func() { once.Do(func() { last(nil) }) }
		c.Note("orphans alive", 1)
	}
	h.do = func() {
		did = true
		if within1 {
			end()
		}
		switch what {
		case "op":
			o.Do(w, h.r)
		case "op elsewhere":
			done := make(chan struct{})
			go func() {
				defer close(done)
				o.Do(w, h.r)
			}()
			<-done
		case "cancel":
			if h.cancel != nil {
				h.cancel()
				h.cancel()
			}
		case "cancel elsewhere":
			if h.cancel != nil {
				done := make(chan struct{})
				go func() { defer close(done); h.cancel() }()
				<-done
			}
		case "panic":
			panic(boom{})
		case "op and panic":
			o.Do(w, h.r)
			panic(boom{})
		}
	}
	label := fmt.Sprintf("%s: %s (%s)", st.name, what, o.Name)
	c.Logf("%s, up to %d times after %d", label, h.max, h.skip)
	panicked := within(c, label, func() { st.drive(w, h) })
	if !did && h.skip == 0 {
		c.Fatalf("%s: the callback was never called", label)
	}
	if did {
		c.Note("acted", 1)
		if panicked {
			c.Note("panics passed on", 1)
		}
		c.Sig(st.name, what, o.Name)
	}
	c.Events(int(h.n.Load()))
	if panicked && what != "panic" && what != "op and panic" {
		c.Failf("%s panicked without reason", label)
	}
	h.max = 0 // inert from here on
	within(c, label+", ending what's left", end)
	battery(c, w, r, full)
	within(c, "the last readout", func() {
		after := series(w)
		if m := missing(before, after); len(m) > 0 {
			c.Failf("%s: later readouts lack %q", label, m)
		}
	})
	within(c, "cancelling everything", func() { w.Close() })
	if w.Fn.Current() < 0 {
		c.Failf("%s: %d calls current", label, w.Fn.Current())
	}
	if what != "panic" && what != "op and panic" {
		if w.Fn.Current() != 0 {
			c.Failf("%s: %d calls current at the end", label, w.Fn.Current())
		}
		live := 0
		w.Reg.AllSpans(func(*monkit.Span) { live++ })
		if live != 0 {
			c.Failf("%s: %d spans live at the end", label, live)
		}
	}
}

// nested tries every operation in every callback.
func nested(c *vh.C) {
	i := c.Idx
	st := sites[i%len(sites)]
	o := ops.Menu[(i/len(sites))%len(ops.Menu)]
	what := "op"
	if c.Rng.Intn(3) == 0 {
		what = "op elsewhere"
	}
	run(c, st, what, o, c.Rng.Intn(20) == 0)
}

// other has callbacks panic or cancel themselves.
func other(c *vh.C) {
	st := sites[c.Idx%len(sites)]
	what := []string{"panic", "cancel", "panic", "cancel elsewhere", "op and panic"}[(c.Idx/len(sites))%5]
	run(c, st, what, ops.Menu[c.Rng.Intn(len(ops.Menu))], true)
}

// concurrent has several callbacks do things at once on the same objects.
func concurrent(c *vh.C) {
	w := ops.NewWorld(c)
	fill(w)
	type job struct {
		st site
		h  *hook
	}
	var jobs []job
	for i := 2 + c.Rng.Intn(3); i > 0; i-- {
		h := &hook{w: w, r: rand.New(rand.NewSource(c.Rng.Int63())), max: 2}
		o := ops.Menu[c.Rng.Intn(len(ops.Menu))]
		st := sites[c.Rng.Intn(len(sites))]
		if st.name == "gauge" || st.name == "chained source" || st.name == "gauge in scope readout" {
			// called by others' readouts too, at any time
			h.max = 1
		}
		h.do = func() { o.Do(w, h.r) }
		jobs = append(jobs, job{st, h})
		c.Logf("%s: %s", st.name, o.Name)
		c.Sig(st.name, o.Name)
	}
	start := make(chan struct{})
	done := make(chan struct{}, len(jobs))
	for _, j := range jobs {
		j := j
		c.Go(func() {
			defer func() { done <- struct{}{} }()
			<-start
			j.st.drive(w, j.h)
			c.Events(int(j.h.n.Load()))
		})
	}
	close(start)
	for range jobs {
		vh.Await(c, done, "all callbacks at once")
	}
	c.Wait()
	if c.Failed() {
		return
	}
	within(c, "cancelling everything", func() { w.Close() })
	if w.Fn.Current() != 0 {
		c.Failf("%d calls current at the end", w.Fn.Current())
	}
}

func TestCheck(t *testing.T) {
	h := vh.New(t, "C25")
	h.Seq("nested", max(h.N(2*len(sites)*len(ops.Menu)/3), len(sites)*len(ops.Menu)), nested)
	h.Seq("other", h.N(len(sites)*10), other)
	h.Conc("concurrent", h.N(600), concurrent)
	h.Finish()
}
