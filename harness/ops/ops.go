// Package ops is a Menu of things one can do with the thread-safe API, on
// objects that are shared by those who do them.
package ops

import (
	"bytes"
	"context"
	"errors"
	"fmt"
	"io"
	"math/rand"
	"net/http"
	"net/http/httptest"
	"net/url"
	"runtime"
	"sync"
	"sync/atomic"
	"time"

	"github.com/spacemonkeygo/monkit/v3"
	"github.com/spacemonkeygo/monkit/v3/collect"
	"github.com/spacemonkeygo/monkit/v3/environment"
	mhttp "github.com/spacemonkeygo/monkit/v3/http"
	"github.com/spacemonkeygo/monkit/v3/monotime"
	"github.com/spacemonkeygo/monkit/v3/present"

	"verifh/vh"
)

type T1 struct {
	A int64
	B float64
	C struct{ D bool }
}

// World is what all who do things share.
type World struct {
	C      *vh.C
	Reg    *monkit.Registry
	Scope  *monkit.Scope
	Fn     *monkit.Func
	Task   monkit.Task
	Trace  *monkit.Trace
	Root   context.Context // a live span for all
	rootX  func(*error)
	Span   *monkit.Span
	Tags   *monkit.TagSet
	Key    monkit.SeriesKey
	Delta  *monkit.DeltaTransformer
	TReg   *monkit.Registry
	Col    *collect.SpanCollector
	Srv    http.Handler
	Dbg    http.Handler
	Timer  *monkit.Timer
	val    *monkit.StructVal
	Source monkit.StatSource

	// freed at the end
	mtx     sync.Mutex
	cancels []func()

	Counter *monkit.Counter
	Counted atomic.Int64
	Calls   atomic.Int64
}

// NewWorld makes one.
func NewWorld(c *vh.C) *World {
	w := &World{C: c, Reg: monkit.NewRegistry()}
	w.Scope = w.Reg.ScopeNamed("shared")
	w.Fn = w.Scope.FuncNamed("fn")
	w.Task = w.Scope.TaskNamed("task")
	w.Trace = monkit.NewTrace(monkit.NewId())
	ctx := context.Background()
	w.rootX = w.Scope.FuncNamed("root").RemoteTrace(&ctx, 12, w.Trace, "arg", 3)
	w.Root = ctx
	w.Span = monkit.SpanFromCtx(ctx)
	w.Tags = new(monkit.TagSet).Set("b", "2").Set("a", "1")
	w.Key = monkit.NewSeriesKey("m").WithTag("x", "y").WithTag("c", "d")
	w.Delta = monkit.NewDeltaTransformer()
	w.TReg = w.Reg.WithTransformers(w.Delta)
	w.Col = collect.NewSpanCollector(func(s *monkit.Span) bool { return false })
	w.Timer = monkit.NewTimer(monkit.NewSeriesKey("timer"))
	w.val = monkit.NewStructVal(monkit.NewSeriesKey("sv"))
	w.Counter = w.Scope.Counter("conserved")
	w.Srv = mhttp.TraceHandler(http.HandlerFunc(func(wr http.ResponseWriter, q *http.Request) {
		ctx := q.Context()
		defer w.FnTask(&ctx)(nil)
		io.WriteString(wr, "x")
		if f, ok := wr.(http.Flusher); ok {
			f.Flush()
		}
	}), w.Scope, "k")
	w.Dbg = present.HTTP(w.Reg)
	w.Source = monkit.StatSourceFromStruct(monkit.NewSeriesKey("struct"), &T1{A: 3})
	return w
}

// FnTask calls the counted function.
func (w *World) FnTask(ctx *context.Context, args ...interface{}) func(*error) {
	w.Calls.Add(1)
	return w.Fn.Task(ctx, args...)
}

// Close ends what is left.
func (w *World) Close() {
	w.mtx.Lock()
	cs := w.cancels
	w.cancels = nil
	w.mtx.Unlock()
	for _, f := range cs {
		f()
	}
	w.rootX(nil)
}

// Later does f on Close.
func (w *World) Later(f func()) {
	w.mtx.Lock()
	w.cancels = append(w.cancels, f)
	w.mtx.Unlock()
}

type obs struct{}

func (obs) Start(s *monkit.Span)                                          { _ = s.Args() }
func (obs) Finish(s *monkit.Span, err error, panicked bool, at time.Time) { _ = s.Annotations() }

type obsCtx struct{}

type k1 struct{}

func (obsCtx) Start(ctx context.Context, s *monkit.Span) context.Context {
	return context.WithValue(ctx, k1{}, s)
}
func (obsCtx) Finish(ctx context.Context, s *monkit.Span, err error, panicked bool, at time.Time) {
	_ = ctx.Value(k1{})
}

var someErr = errors.New("some")

type selfNamed struct{}

func (selfNamed) Error() string        { return "self" }
func (selfNamed) Name() (string, bool) { return "Self", true }

var handlers atomic.Int64

func read(s monkit.StatSource) {
	s.Stats(func(key monkit.SeriesKey, field string, val float64) {
		_ = key.String()
		_ = key.WithField(field)
		_ = key.Tags.All()
	})
}

func name(r *rand.Rand) string { return fmt.Sprint("n", r.Intn(3)) }

func tags(r *rand.Rand) []monkit.SeriesTag {
	if r.Intn(2) == 0 {
		return nil
	}
	return []monkit.SeriesTag{monkit.NewSeriesTag("t", fmt.Sprint(r.Intn(2)))}
}

func work(w *World, ctx context.Context, r *rand.Rand, depth int) {
	var err error
	func() {
		defer func() {
			if rec := recover(); rec != nil && rec != "boom" {
				panic(rec)
			}
		}()
		defer w.FnTask(&ctx, depth, "x")(&err)
		s := monkit.SpanFromCtx(ctx)
		s.Annotate("k", "v")
		for i := r.Intn(3); i > 0 && depth > 0; i-- {
			work(w, ctx, r, depth-1)
		}
		switch r.Intn(6) {
		case 0:
			err = someErr
		case 1:
			err = selfNamed{}
		case 2:
			panic("boom")
		}
	}()
}

// Op is something one can do.
type Op struct {
	Name string
	Do   func(w *World, r *rand.Rand)
}

// Menu is all there is to do.
var Menu = []Op{
	{"call tree", func(w *World, r *rand.Rand) { work(w, context.Background(), r, 2) }},
	{"call under shared span", func(w *World, r *rand.Rand) { work(w, w.Root, r, 1) }},
	{"orphan child", func(w *World, r *rand.Rand) {
		ctx := w.Root
		exit := w.FnTask(&ctx)
		cctx := ctx
		x := w.Scope.FuncNamed("kid").Task(&cctx)
		done := make(chan struct{})
		go func() { defer close(done); x(nil) }()
		exit(nil)
		<-done
	}},
	{"shared Task", func(w *World, r *rand.Rand) {
		ctx := w.Root
		defer w.Task(&ctx)(nil)
	}},
	{"fresh TaskNamed", func(w *World, r *rand.Rand) {
		ctx := context.Background()
		defer w.Scope.TaskNamed(name(r), tags(r)...)(&ctx, 1)(nil)
	}},
	{"ResetTrace", func(w *World, r *rand.Rand) {
		ctx := w.Root
		defer w.Scope.FuncNamed(name(r)).ResetTrace(&ctx)(nil)
		_ = monkit.ResetContextSpan(ctx)
	}},
	{"RemoteTrace shared", func(w *World, r *rand.Rand) {
		ctx := context.Background()
		defer w.Scope.FuncNamed(name(r)).RemoteTrace(&ctx, 1, w.Trace)(nil)
	}},
	{"FuncStats Observe", func(w *World, r *rand.Rand) {
		err := error(someErr)
		w.Scope.FuncNamed(name(r)).Observe()(&err)
	}},
	{"FuncStats read", func(w *World, r *rand.Rand) {
		f := w.Fn
		_ = f.Success() + f.Panics() + f.Current() + f.Highwater() + f.Id()
		_ = f.Errors()
		_ = f.SuccessTimes().FullAverage()
		_ = f.FailureTimes().Query(.5)
		read(f)
		f.Parents(func(p *monkit.Func) {
			if p != nil {
				_ = p.FullName()
			}
		})
	}},
	{"FuncStats Reset", func(w *World, r *rand.Rand) { w.Scope.FuncNamed(name(r)).Reset() }},
	{"ObserveSpans", func(w *World, r *rand.Rand) {
		c := w.Trace.ObserveSpans(obs{})
		if r.Intn(2) == 0 {
			c()
		} else {
			w.Later(c)
		}
	}},
	{"ObserveSpansCtx", func(w *World, r *rand.Rand) {
		c := w.Trace.ObserveSpansCtx(obsCtx{})
		if r.Intn(2) == 0 {
			go c()
		}
		c()
	}},
	{"ObserveTraces", func(w *World, r *rand.Rand) {
		c := w.Reg.ObserveTraces(func(t *monkit.Trace) { t.ObserveSpans(obs{}) })
		if r.Intn(3) != 0 {
			c()
		} else {
			w.Later(c)
		}
	}},
	{"ObserveAllTraces", func(w *World, r *rand.Rand) { collect.ObserveAllTraces(w.Reg, obs{})() }},
	{"CollectSpans", func(w *World, r *rand.Rand) {
		collect.CollectSpans(w.Root, func(ctx context.Context) { work(w, ctx, r, 1) })
	}},
	{"WatchForSpans", func(w *World, r *rand.Rand) {
		ctx, cancel := context.WithCancel(context.Background())
		done := make(chan struct{})
		go func() {
			defer close(done)
			spans, _ := collect.WatchForSpans(ctx, w.Reg, func(s *monkit.Span) bool { return s.Func() == w.Fn })
			_ = present.SpansToJSON(io.Discard, spans)
			_ = present.SpansToSVG(io.Discard, spans)
		}()
		work(w, w.Root, r, 1)
		cancel()
		<-done
	}},
	{"FindSpan", func(w *World, r *rand.Rand) {
		ctx, cancel := context.WithCancel(context.Background())
		done := make(chan struct{})
		go func() {
			defer close(done)
			collect.FindSpan(ctx, w.Reg, func(s *monkit.Span) bool { return s.Func() == w.Fn })
		}()
		work(w, w.Root, r, 0)
		cancel()
		<-done
	}},
	{"SpanCollector shared", func(w *World, r *rand.Rand) {
		c := w.Trace.ObserveSpans(w.Col)
		ctx := w.Root
		exit := w.FnTask(&ctx)
		w.Col.ForceStart(monkit.SpanFromCtx(ctx))
		exit(nil)
		_ = w.Col.Spans()
		if r.Intn(3) == 0 {
			w.Col.Stop()
		}
		c()
	}},
	{"trace query", func(w *World, r *rand.Rand) {
		f, _, err := present.FromRequest(w.Reg, "/trace/"+[]string{"json", "svg", "remote"}[r.Intn(3)], url.Values{"regex": {`shared\.fn`}})
		if err != nil {
			w.C.Failf("%v", err)
			return
		}
		done := make(chan struct{})
		var buf bytes.Buffer
		go func() {
			defer close(done)
			if err := f(&buf); err != nil {
				w.C.Failf("%v", err)
			}
		}()
		for {
			select {
			case <-done:
				return
			default:
				ctx := w.Root
				w.FnTask(&ctx)(nil)
				runtime.Gosched()
			}
		}
	}},
	{"remote query with callback", func(w *World, r *rand.Rand) {
		w.Trace.Set(present.SampledCBKey, func(t *monkit.Trace) { t.Set("cb", true) })
		_, _, _ = present.FromRequest(w.Reg, "/trace/remote", url.Values{"regex": {"."}})
	}},
	{"Trace Set Get", func(w *World, r *rand.Rand) {
		w.Trace.Set(name(r), r.Intn(5))
		_ = w.Trace.Get(name(r))
		for k := range w.Trace.GetAll() {
			_ = k
		}
		_ = w.Trace.Spans() + w.Trace.Id()
	}},
	{"Span methods", func(w *World, r *rand.Rand) {
		w.Span.Annotate(name(r), name(r))
		for _, a := range w.Span.Annotations() {
			_ = a.Name
		}
		_ = w.Span.String()
		_ = w.Span.Args()
		_ = w.Span.Duration()
		_ = w.Span.Orphaned()
		_ = w.Span.Value(k1{})
		_, _ = w.Span.ParentId()
		w.Span.Children(func(s *monkit.Span) { _ = s.Start(); _ = s.Func() })
	}},
	{"AllSpans RootSpans", func(w *World, r *rand.Rand) {
		w.Reg.AllSpans(func(s *monkit.Span) { _ = s.Annotations(); _ = s.Args(); _ = s.Orphaned() })
		w.Reg.RootSpans(func(s *monkit.Span) { s.Children(func(s *monkit.Span) { _ = s.Id() }) })
	}},
	{"Funcs Scopes", func(w *World, r *rand.Rand) {
		w.Reg.Funcs(func(f *monkit.Func) { _ = f.FullName(); _ = f.ShortName() })
		w.Reg.Scopes(func(s *monkit.Scope) { s.Funcs(func(f *monkit.Func) { _ = f.Scope().Name() }) })
	}},
	{"new scopes", func(w *World, r *rand.Rand) {
		s := w.Reg.ScopeNamed(name(r))
		s.Counter(name(r)).Inc(1)
		if w.Reg.Package().Name() == "" {
			w.C.Failf("no name")
		}
	}},
	{"Counter", func(w *World, r *rand.Rand) {
		c := w.Scope.Counter("c"+name(r), tags(r)...)
		c.Inc(1)
		c.Dec(2)
		c.Set(3)
		_ = c.High() + c.Low() + c.Current()
		if r.Intn(4) == 0 {
			c.Reset()
		}
		read(c)
	}},
	{"Counter conserved", func(w *World, r *rand.Rand) {
		d := int64(r.Intn(100) - 50)
		w.Counted.Add(d)
		w.Counter.Inc(d)
	}},
	{"IntVal", func(w *World, r *rand.Rand) {
		v := w.Scope.IntVal("i"+name(r), tags(r)...)
		v.Observe(int64(r.Intn(9)))
		_ = v.Quantile(.5)
		read(v)
	}},
	{"FloatVal", func(w *World, r *rand.Rand) {
		v := w.Scope.FloatVal("f"+name(r), tags(r)...)
		v.Observe(r.Float64())
		_ = v.Quantile(.9)
		read(v)
	}},
	{"BoolVal", func(w *World, r *rand.Rand) {
		v := w.Scope.BoolValf("b%d", r.Intn(2))
		v.Observe(r.Intn(2) == 0)
		read(v)
	}},
	{"DurationVal", func(w *World, r *rand.Rand) {
		v := w.Scope.DurationVal("d"+name(r), tags(r)...)
		v.Observe(time.Duration(r.Intn(1000)))
		_ = v.Quantile(.1)
		read(v)
	}},
	{"StructVal", func(w *World, r *rand.Rand) {
		v := w.Scope.StructVal("s"+name(r), tags(r)...)
		v.Observe(&T1{A: 1})
		v.Observe(T1{A: int64(r.Intn(4))})
		read(v)
		w.val.Observe(T1{B: 2})
		read(w.val)
	}},
	{"Timer", func(w *World, r *rand.Rand) {
		v := w.Scope.Timer("t"+name(r), tags(r)...)
		x := v.Start()
		_ = x.Elapsed()
		x.Stop()
		_ = v.Values().Query(.5)
		read(v)
		w.Timer.Start().Stop()
		read(w.Timer)
	}},
	{"RunningTimer shared", func(w *World, r *rand.Rand) {
		x := w.Timer.Start()
		done := make(chan struct{})
		go func() { defer close(done); x.Stop(); _ = x.Elapsed() }()
		x.Stop()
		_ = x.Elapsed()
		<-done
	}},
	{"Meter", func(w *World, r *rand.Rand) {
		m := w.Scope.Meter("m"+name(r), tags(r)...)
		m.Mark(1)
		m.Mark64(5)
		_ = m.Rate() + m.Total()
		if r.Intn(4) == 0 {
			m.SetTotal(4)
			m.Reset(3)
		}
		read(m)
		w.Scope.Event("e"+name(r), tags(r)...)
	}},
	{"DiffMeter", func(w *World, r *rand.Rand) {
		w.Scope.DiffMeter("dm"+name(r), w.Scope.Meter("mn0"), w.Scope.Meter("mn1"))
		d := monkit.NewDiffMeter(monkit.NewSeriesKey("x"), w.Scope.Meter("mn0"), w.Scope.Meter("mn1"))
		read(d)
	}},
	{"Gauge", func(w *World, r *rand.Rand) {
		x := r.Float64()
		w.Scope.Gauge("g"+name(r), func() float64 { return x })
	}},
	{"Chain", func(w *World, r *rand.Rand) {
		if r.Intn(4) == 0 {
			w.Scope.Chain(w.Source)
		}
		read(w.Source)
	}},
	{"same name other kind", func(w *World, r *rand.Rand) {
		vh.Catch(func() { w.Scope.Counter("x" + name(r)).Inc(1) })
		vh.Catch(func() { w.Scope.IntVal("x" + name(r)).Observe(1) })
		vh.Catch(func() { w.Scope.Timer("x" + name(r)).Start().Stop() })
	}},
	{"registry Stats", func(w *World, r *rand.Rand) { read(w.Reg) }},
	{"scope Stats", func(w *World, r *rand.Rand) { read(w.Scope) }},
	{"Collect", func(w *World, r *rand.Rand) { _ = monkit.Collect(w.Reg) }},
	{"transformed Stats", func(w *World, r *rand.Rand) {
		read(w.TReg)
		read(monkit.TransformStatSource(w.Scope, w.Delta))
		read(w.Reg.WithTransformers(w.Delta, w.Delta))
	}},
	{"SpansText", func(w *World, r *rand.Rand) { _ = present.SpansText(w.Reg, io.Discard) }},
	{"SpansDot", func(w *World, r *rand.Rand) { _ = present.SpansDot(w.Reg, io.Discard) }},
	{"SpansJSON", func(w *World, r *rand.Rand) { _ = present.SpansJSON(w.Reg, io.Discard) }},
	{"FuncsText", func(w *World, r *rand.Rand) { _ = present.FuncsText(w.Reg, io.Discard) }},
	{"FuncsDot", func(w *World, r *rand.Rand) { _ = present.FuncsDot(w.Reg, io.Discard) }},
	{"FuncsJSON", func(w *World, r *rand.Rand) { _ = present.FuncsJSON(w.Reg, io.Discard) }},
	{"StatsText", func(w *World, r *rand.Rand) { _ = present.StatsText(w.Reg, io.Discard) }},
	{"StatsJSON", func(w *World, r *rand.Rand) { _ = present.StatsJSON(w.Reg, io.Discard) }},
	{"debug endpoint", func(w *World, r *rand.Rand) {
		p := []string{"/", "/ps/json", "/funcs", "/stats", "/nope", "/trace/svg"}[r.Intn(6)]
		w.Dbg.ServeHTTP(httptest.NewRecorder(), httptest.NewRequest("GET", p, nil))
	}},
	{"middleware", func(w *World, r *rand.Rand) {
		q := httptest.NewRequest("GET", "/x", nil)
		if r.Intn(2) == 0 {
			id := w.Trace.Id()
			mhttp.TraceInfo{TraceId: &id, ParentId: &id, Sampled: r.Intn(2) == 0, Baggage: map[string]string{"k": "v"}}.SetHeader(q.Header)
		}
		w.Srv.ServeHTTP(httptest.NewRecorder(), q)
	}},
	{"TraceRequest", func(w *World, r *rand.Rand) {
		q := httptest.NewRequest("GET", "http://h/x", nil)
		_, _ = mhttp.TraceRequest(w.Root, w.Scope, client(func(q *http.Request) (*http.Response, error) {
			rec := httptest.NewRecorder()
			w.Srv.ServeHTTP(rec, q)
			return rec.Result(), nil
		}), q)
		_ = mhttp.TraceInfoFromSpan(w.Span)
	}},
	{"TagSet", func(w *World, r *rand.Rand) {
		_ = w.Tags.String()
		_ = w.Tags.Set(name(r), "x").String()
		_ = w.Tags.SetAll(map[string]string{"q": "r"}).All()
		_ = w.Tags.SetTags(monkit.NewSeriesTag("s", "t")).Len()
		_ = w.Tags.Get("a")
		_ = w.Tags.All()
	}},
	{"SeriesKey", func(w *World, r *rand.Rand) {
		_ = w.Key.String()
		_ = w.Key.WithField("f")
		_ = w.Key.WithTag("z", name(r)).String()
		_ = w.Key.WithTags(monkit.NewSeriesTag("s", "t")).WithField("g")
	}},
	{"environment", func(w *World, r *rand.Rand) {
		switch r.Intn(12) {
		case 0:
			read(environment.Process())
		case 1:
			read(environment.OS())
		case 2:
			read(environment.Proc())
		case 3:
			read(environment.Rusage())
		case 4:
			read(sharedRuntime)
		}
	}},
	{"register environment", func(w *World, r *rand.Rand) {
		if r.Intn(20) == 0 {
			reg := monkit.NewRegistry()
			environment.Register(reg)
			read(reg)
		}
	}},
	{"error names", func(w *World, r *rand.Rand) {
		if handlers.Add(1) < 40 {
			monkit.AddErrorNameHandler(func(err error) (string, bool) { return "", false })
		}
		var err error = someErr
		w.Scope.FuncNamed(name(r)).Observe()(&err)
	}},
	{"default registry", func(w *World, r *rand.Rand) {
		s := monkit.ScopeNamed(name(r))
		s.Counter("n").Inc(1)
		monkit.Scopes(func(*monkit.Scope) {})
		monkit.Funcs(func(*monkit.Func) {})
		monkit.RootSpans(func(*monkit.Span) {})
		monkit.Stats(func(monkit.SeriesKey, string, float64) {})
		_ = monkit.Package()
	}},
	{"ids", func(w *World, r *rand.Rand) { _ = monkit.NewId(); _ = monotime.Now() }},
	{"unnamed task", func(w *World, r *rand.Rand) {
		ctx := w.Root
		defer sharedTask(&ctx)(nil)
		_ = w.Scope.Func()
	}},
	{"first use of tasks", func(w *World, r *rand.Rand) {
		t := w.Scope.Task()
		done := make(chan struct{})
		go func() {
			defer close(done)
			ctx := w.Root
			t(&ctx)(nil)
		}()
		ctx := w.Root
		t(&ctx)(nil)
		_ = t.Func().FullName()
		<-done
	}},
}

var (
	sharedRuntime = environment.Runtime()
	sharedTask    = monkit.NewRegistry().ScopeNamed("tasks").Task()
)

type client func(*http.Request) (*http.Response, error)

func (f client) Do(r *http.Request) (*http.Response, error) { return f(r) }
