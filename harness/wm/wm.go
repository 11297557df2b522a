// Package wm drives spans of one registry in arbitrary order next to a
// sequential reference model of everything that can be observed about them.
package wm

import (
	"context"
	"errors"
	"fmt"
	"io"
	"math/rand"
	"sort"
	"strings"
	"time"

	"github.com/spacemonkeygo/monkit/v3"
	"github.com/spacemonkeygo/monkit/v3/collect"

	"verifh/vh"
)

// Checks selects what is compared after the operations.
type Checks struct {
	Counts, Tree, Live, Parents, Events, Ordered bool
	// Observers and Watchers enable the respective operations.
	Observers, Watchers bool
	// Reuse enables remote roots in traces that are live already.
	Reuse bool
	// Resets enables resetting function statistics.
	Resets  bool
	MaxLive int
}

// FuncM models a function.
type FuncM struct {
	Tags          []monkit.SeriesTag
	F             *monkit.Func
	Reg           *monkit.Registry // its own
	Name          string
	Current, High int64
	Succ, Panics  int64
	Errs          map[string]int64
	Parents       map[*FuncM]bool // nil is the entry
}

// TraceM models a trace.
type TraceM struct {
	T    *monkit.Trace
	Live int64
	Obs  []*ObsM // most recent first
	Idx  int
}

// SpanM models a span.
type SpanM struct {
	S        *monkit.Span
	F        *FuncM
	Parent   *SpanM
	Remote   *int64
	Trace    *TraceM
	Ctx      context.Context
	Exit     func(*error)
	Done     bool
	Orphaned bool
	Kids     map[*SpanM]bool
	Args     []interface{}
	Before   time.Time
	After    time.Time
	Idx      int
	CtxVals  map[int]bool // observers that put a value in the context
	NilCtx   bool
}

type obsVal struct{ obs int }

// ObsM is an observer and its model.
type ObsM struct {
	W      *World
	Idx    int
	Ctx    bool // installed as context observer
	Wrap   bool // returns a derived context
	Cancel func()
	Gone   bool
	All    *AllM
	By     *WatchM
}

// AllM models an ObserveAllTraces registration.
type AllM struct {
	Obs    *ObsM
	Cancel func()
	Gone   bool
}

// WatchM models a trace watcher.
type WatchM struct {
	Idx     int
	Install bool
	Cancel  func()
	Gone    bool
}

// Event is what an observer or watcher was told.
type Event struct {
	Kind     string // start, finish, trace
	Who      int
	Span     *monkit.Span
	Trace    *monkit.Trace
	Err      error
	Panicked bool
}

func (e Event) String() string {
	s := ""
	if e.Span != nil {
		s = fmt.Sprintf("span#%d", e.Span.Id()&0xffff)
	}
	return fmt.Sprintf("%s(who=%d %s err=%v panicked=%v)", e.Kind, e.Who, s, e.Err, e.Panicked)
}

// World is one registry with its model.
type World struct {
	C      *vh.C
	K      Checks
	Reg    *monkit.Registry
	Other  *monkit.Registry // of some functions; nil if there's none
	Funcs  []*FuncM
	Traces []*TraceM
	Spans  []*SpanM
	Live   []*SpanM
	Watch  []*WatchM
	Alls   []*AllM
	ids    map[int64]string
	obs    []*ObsM

	events   []Event
	finishes []time.Time
	nObs     int
	plain    []plainCall
	bySpan   map[*monkit.Span]*SpanM
	pending  *TraceM
}

type plainCall struct {
	f    *FuncM
	exit func(*error)
}

type ctxKey string

// New makes a world with some functions.
func New(c *vh.C, k Checks) *World {
	w := &World{C: c, K: k, Reg: monkit.NewRegistry(), ids: map[int64]string{}, bySpan: map[*monkit.Span]*SpanM{}}
	if w.K.MaxLive == 0 {
		w.K.MaxLive = 3 + c.Rng.Intn(12)
	}
	if !k.Watchers && c.Rng.Intn(3) == 0 {
		// functions of two registries call each other
		w.Other = monkit.NewRegistry()
		c.Note("worlds of two registries", 1)
	}
	nf := 1 + c.Rng.Intn(5)
	for i := 0; i < nf; i++ {
		// names for which the order of the full names is not that of the parts
		reg := w.Reg
		if w.Other != nil && c.Rng.Intn(3) == 0 {
			reg = w.Other
		}
		scope := reg.ScopeNamed([]string{"pkg", "pkg-x", "pkg.f", "pkg0"}[c.Rng.Intn(4)])
		name := []string{"f", "f0", "f-1", "g", "f0.x", "a"}[i%6] + strings.Repeat("_", i/6)
		var tags []monkit.SeriesTag
		if i > 0 && c.Rng.Intn(3) == 0 {
			// one that differs from another only in its tags, or in what is
			// scope and what is name
			om := w.Funcs[c.Rng.Intn(i)]
			o := om.F
			reg = om.Reg
			scope, name = o.Scope(), o.ShortName()
			switch dot := strings.Index(name, "."); {
			case dot > 0 && c.Rng.Intn(2) == 0:
				scope, name = reg.ScopeNamed(scope.Name()+"."+name[:dot]), name[dot+1:]
				tags = append(tags, monkit.NewSeriesTag("split", fmt.Sprint(i)))
			default:
				tags = append(tags, monkit.NewSeriesTag("k", fmt.Sprint(i)))
			}
		}
		f := scope.FuncNamed(name, tags...)
		w.Funcs = append(w.Funcs, &FuncM{F: f, Reg: reg, Tags: tags, Name: scope.Name() + "." + name,
			Errs: map[string]int64{}, Parents: map[*FuncM]bool{}})
		w.id(f.Id(), "function")
	}
	return w
}

func (w *World) id(id int64, what string) {
	if !w.K.Tree {
		return
	}
	if id < 0 {
		w.C.Failf("%s id %d is negative", what, id)
	}
	if old, ok := w.ids[id]; ok {
		w.C.Failf("%s id %d was already used for a %s", what, id, old)
	}
	w.ids[id] = what
}

// Errors used as outcomes, with the names they must be counted under.
var outcomes = []struct {
	err  error
	name string
}{
	{errors.New("plain"), "System Error"},
	{io.EOF, "EOF"},
	{io.ErrUnexpectedEOF, "Unexpected EOF Error"},
	{context.Canceled, "Canceled"},
	{context.DeadlineExceeded, "Timeout"},
	{&named{"self"}, "self"},
	{&named{""}, "System Error"},
	{&handled{""}, ""},
	{&handled{"handled"}, "handled"},
	{&handled{"EOF"}, "EOF"},
}

// handled has a name that only the error name handler below knows.
type handled struct{ n string }

func (h *handled) Error() string { return "handled " + h.n }

func init() {
	monkit.AddErrorNameHandler(func(err error) (string, bool) {
		if h, ok := err.(*handled); ok {
			return h.n, true
		}
		return "", false
	})
}

type named struct{ n string }

func (n *named) Error() string        { return "named " + n.n }
func (n *named) Name() (string, bool) { return n.n, n.n != "" }

// --- observers

func (o *ObsM) start(s *monkit.Span) {
	o.W.events = append(o.W.events, Event{Kind: "start", Who: o.Idx, Span: s, Trace: s.Trace()})
}
func (o *ObsM) finish(s *monkit.Span, err error, panicked bool, at time.Time) {
	o.W.events = append(o.W.events, Event{Kind: "finish", Who: o.Idx, Span: s, Trace: s.Trace(), Err: err, Panicked: panicked})
	o.W.finishes = append(o.W.finishes, at)
}

type plainObs struct{ o *ObsM }

func (p plainObs) Start(s *monkit.Span) { p.o.start(s) }
func (p plainObs) Finish(s *monkit.Span, err error, panicked bool, at time.Time) {
	p.o.finish(s, err, panicked, at)
}

type ctxObs struct{ o *ObsM }

func (p ctxObs) Start(ctx context.Context, s *monkit.Span) context.Context {
	w := p.o.W
	if w.K.Ordered {
		if monkit.SpanFromCtx(ctx) != s {
			w.C.Failf("observer %d: the context given to its start does not carry the span", p.o.Idx)
		}
		// the observers before this one have added their values, later ones not
		before := true
		for _, x := range w.expectObs(s.Trace()) {
			if x == p.o {
				before = false
			}
			has := ctx.Value(obsVal{x.Idx}) == s
			if x.Ctx && x.Wrap && has != before {
				w.C.Failf("observer %d: the context given to its start has the value of observer %d for this span: %v, want %v", p.o.Idx, x.Idx, has, before)
			}
		}
	}
	p.o.start(s)
	if p.o.Wrap {
		return context.WithValue(ctx, obsVal{p.o.Idx}, s)
	}
	return ctx
}

func (p ctxObs) Finish(ctx context.Context, s *monkit.Span, err error, panicked bool, at time.Time) {
	w := p.o.W
	if w.K.Ordered {
		if m := w.bySpan[s]; m != nil && !m.NilCtx {
			if ctx != m.Ctx {
				w.C.Failf("observer %d: finish got a context different from the one the monitored code got", p.o.Idx)
			}
		}
	}
	p.o.finish(s, err, panicked, at)
}

func (w *World) expectObs(t *monkit.Trace) []*ObsM {
	for _, tm := range w.Traces {
		if tm.T == t {
			return tm.Obs
		}
	}
	return nil
}

func (w *World) newObs() *ObsM {
	o := &ObsM{W: w, Idx: w.nObs, Ctx: w.C.Rng.Intn(2) == 0, Wrap: w.C.Rng.Intn(2) == 0}
	w.nObs++
	return o
}

func (o *ObsM) install(t *monkit.Trace) {
	if o.Ctx {
		o.Cancel = t.ObserveSpansCtx(ctxObs{o})
	} else {
		o.Cancel = t.ObserveSpans(plainObs{o})
	}
}

// --- operations

// Step does one random operation and compares.
func (w *World) Step() {
	r := w.C.Rng
	for {
		switch k := r.Intn(100); {
		case k < 42:
			if len(w.Live) >= w.K.MaxLive {
				continue
			}
			w.start()
		case k < 78:
			if len(w.Live) == 0 {
				continue
			}
			w.finish(w.Live[r.Intn(len(w.Live))])
		case k < 83:
			if !w.K.Counts {
				continue
			}
			w.plainCall()
		case k < 85:
			if !w.K.Resets {
				continue
			}
			w.reset()
		case k < 93:
			if !w.K.Observers {
				continue
			}
			w.observerOp()
		default:
			if !w.K.Watchers {
				continue
			}
			w.watcherOp()
		}
		break
	}
	w.C.Events(1)
	w.Compare()
}

// Drain finishes everything.
func (w *World) Drain() {
	for len(w.Live) > 0 && !w.C.Failed() {
		w.finish(w.Live[w.C.Rng.Intn(len(w.Live))])
		w.Compare()
	}
	for len(w.plain) > 0 && !w.C.Failed() {
		w.endPlain(len(w.plain) - 1)
		w.Compare()
	}
}

func (w *World) pickCtx() (ctx context.Context, parent *SpanM, desc string, nilPtr bool) {
	r := w.C.Rng
	var base *SpanM
	if len(w.Live) > 0 && r.Intn(5) != 0 {
		base = w.Live[r.Intn(len(w.Live))]
	} else if len(w.Spans) > 0 && r.Intn(3) == 0 {
		base = w.Spans[r.Intn(len(w.Spans))] // possibly finished
	}
	if base != nil && base.NilCtx {
		base = nil
	}
	if base == nil {
		switch r.Intn(5) {
		case 0:
			return nil, nil, "nil ctx", false
		case 1:
			return nil, nil, "nil ptr", true
		case 2:
			ctx, cancel := context.WithCancel(context.WithValue(context.Background(), ctxKey("x"), 1))
			cancel()
			return ctx, nil, "cancelled background", false
		default:
			return context.Background(), nil, "background", false
		}
	}
	ctx, parent, desc = base.Ctx, base, fmt.Sprintf("span%d", base.Idx)
	for r.Intn(3) == 0 {
		switch r.Intn(4) {
		case 0:
			ctx, desc = context.WithValue(ctx, ctxKey("y"), r.Intn(100)), desc+"+value"
		case 1:
			c2, cancel := context.WithCancel(ctx)
			if r.Intn(2) == 0 {
				cancel()
			}
			_ = cancel
			ctx, desc = c2, desc+"+cancel"
		case 2:
			c2, cancel := context.WithTimeout(ctx, time.Hour)
			_ = cancel
			ctx, desc = c2, desc+"+timeout"
		case 3:
			if r.Intn(2) == 0 {
				ctx, parent, desc = monkit.ResetContextSpan(ctx), nil, desc+"+resetspan"
			}
		}
	}
	return ctx, parent, desc, false
}

func (w *World) newTrace(t *monkit.Trace, own bool) *TraceM {
	tm := &TraceM{T: t, Idx: len(w.Traces)}
	w.Traces = append(w.Traces, tm)
	if own {
		w.id(t.Id(), "trace")
	}
	return tm
}

func (w *World) start() {
	r := w.C.Rng
	f := w.Funcs[r.Intn(len(w.Funcs))]
	ctx, parent, desc, nilPtr := w.pickCtx()
	var args []interface{}
	for r.Intn(3) == 0 {
		args = append(args, r.Intn(1000))
	}
	m := &SpanM{F: f, Kids: map[*SpanM]bool{}, Args: args, Idx: len(w.Spans), CtxVals: map[int]bool{}, NilCtx: nilPtr}
	given := ctx
	pctx := &ctx
	if nilPtr {
		pctx = nil
	}

	method := "task"
	var supplied *monkit.Trace
	var reuse *TraceM
	var remote int64
	switch k := r.Intn(20); {
	case k < 14:
	case k < 17:
		method = "reset"
	default:
		method = "remote"
		remote = vh.Int64(r)
		if r.Intn(5) == 0 {
			// no trace given: that of the context, or a fresh one
		} else if w.K.Reuse && len(w.Traces) > 0 && r.Intn(3) == 0 {
			reuse = w.Traces[r.Intn(len(w.Traces))]
			supplied = reuse.T
		} else {
			// not colliding with what NewId produces, apart from by chance
			supplied = monkit.NewTrace(vh.Int64(r))
		}
	}
	freshTrace := method != "task" || parent == nil
	if reuse != nil || (method == "remote" && supplied == nil && parent != nil) {
		freshTrace = false
	}

	// what must be observed
	var want []Event
	var tm *TraceM
	w.events, w.finishes = nil, nil
	if freshTrace {
		if supplied != nil {
			tm = w.newTrace(supplied, false)
		} else {
			tm = &TraceM{Idx: len(w.Traces)}
		}
	} else if reuse != nil {
		tm = reuse
	} else {
		tm = parent.Trace
	}

	// watchers that install observers need to know the trace's model
	w.pending = tm
	m.Before = time.Now()
	var exit func(*error)
	switch method {
	case "task":
		if r.Intn(3) == 0 {
			exit = f.F.Scope().TaskNamed(f.F.ShortName(), f.Tags...)(pctx, args...)
		} else {
			exit = f.F.Task(pctx, args...)
		}
	case "reset":
		exit = f.F.ResetTrace(pctx, args...)
	case "remote":
		exit = f.F.RemoteTrace(pctx, remote, supplied, args...)
	}
	m.After = time.Now()
	w.pending = nil
	m.Exit = exit
	m.Ctx = ctx

	var s *monkit.Span
	if nilPtr {
		// only visible in the root view
		f.Reg.RootSpans(func(x *monkit.Span) {
			if w.bySpan[x] == nil {
				s = x
			}
		})
		if given != nil {
			w.C.Failf("a nil context pointer led to a context being set")
		}
	} else {
		s = monkit.SpanFromCtx(ctx)
	}
	if s == nil {
		w.C.Fatalf("no span after %s from %s", method, desc)
	}
	m.S = s
	w.C.Logf("%s %s from %s = span%d", method, f.Name, desc, m.Idx)
	w.C.SigN(uint64(len(desc))<<8 + uint64(len(method)) + uint64(m.Idx)<<20)
	if freshTrace && supplied == nil {
		tm.T = s.Trace()
		w.Traces = append(w.Traces, tm)
		w.id(tm.T.Id(), "trace")
		for _, other := range w.Traces[:len(w.Traces)-1] {
			if other.T == tm.T && w.K.Tree {
				w.C.Failf("span%d from %s by %s is in an existing trace instead of a fresh one", m.Idx, desc, method)
			}
		}
	}
	m.Trace = tm
	switch method {
	case "task":
		m.Parent = parent
	case "remote":
		m.Remote = &remote
	}
	w.id(s.Id(), "span")
	w.bySpan[s] = m

	// model
	if m.Parent != nil {
		f.Parents[m.Parent.F] = true
		m.Parent.Kids[m] = true
		m.Orphaned = m.Parent.Done
	} else {
		f.Parents[nil] = true
	}
	f.Current++
	if f.Current > f.High {
		f.High = f.Current
	}
	tm.Live++
	w.Spans = append(w.Spans, m)
	w.Live = append(w.Live, m)

	if freshTrace {
		for _, wt := range w.Watch {
			if !wt.Gone {
				want = append(want, Event{Kind: "trace", Who: wt.Idx, Trace: tm.T})
			}
		}
		for _, all := range w.Alls {
			if !all.Gone {
				tm.Obs = append([]*ObsM{all.Obs}, tm.Obs...)
			}
		}
	}
	for _, o := range tm.Obs {
		want = append(want, Event{Kind: "start", Who: o.Idx, Span: s, Trace: tm.T})
	}
	w.compareEvents(want, fmt.Sprintf("starting span%d", m.Idx))

	if w.K.Tree {
		if s.Trace() != tm.T {
			w.C.Failf("span%d is in the wrong trace", m.Idx)
		}
		if s.Func() != f.F {
			w.C.Failf("span%d has the wrong function", m.Idx)
		}
		if supplied != nil && s.Trace() != supplied {
			w.C.Failf("span%d is not in the supplied trace", m.Idx)
		}
		if s.Start().Before(m.Before) || s.Start().After(m.After) {
			w.C.Failf("span%d start %v not within [%v, %v]", m.Idx, s.Start(), m.Before, m.After)
		}
	}
	if w.K.Ordered && !nilPtr {
		for _, o := range tm.Obs {
			if o.Ctx && o.Wrap && ctx.Value(obsVal{o.Idx}) != s {
				w.C.Failf("span%d: the monitored code's context lacks what observer %d returned", m.Idx, o.Idx)
			}
		}
	}
}

type panicVal struct{ n int }

func (w *World) outcome() (err error, name string, panicked bool, val interface{}, nilErr bool) {
	return outcome(w.C.Rng)
}

func outcome(r *rand.Rand) (err error, name string, panicked bool, val interface{}, nilErr bool) {
	switch k := r.Intn(10); {
	case k < 4:
		return nil, "", false, nil, false
	case k < 5:
		return nil, "", false, nil, true
	case k < 8:
		o := outcomes[r.Intn(len(outcomes))]
		return o.err, o.name, false, nil, false
	default:
		var err error
		if r.Intn(2) == 0 {
			err = outcomes[r.Intn(len(outcomes))].err
		}
		return err, "", true, &panicVal{r.Int()}, r.Intn(3) == 0
	}
}

func callExit(exit func(*error), err *error, panicked bool, val interface{}) (rec interface{}) {
	defer func() { rec = recover() }()
	defer exit(err)
	if panicked {
		panic(val)
	}
	return nil
}

func (f *FuncM) end(err error, name string, panicked bool) {
	f.Current--
	switch {
	case panicked:
		f.Panics++
	case err != nil:
		f.Errs[name]++
	default:
		f.Succ++
	}
}

func (w *World) finish(m *SpanM) {
	err, name, panicked, val, nilErr := w.outcome()
	perr := &err
	if nilErr {
		perr = nil
		err = nil
	}
	orig := err
	w.events, w.finishes = nil, nil
	before := time.Now()
	rec := callExit(m.Exit, perr, panicked, val)
	after := time.Now()
	if panicked != (rec != nil) || (panicked && rec != val) {
		w.C.Failf("finishing span%d: panic value %v came out as %v", m.Idx, val, rec)
	}
	if perr != nil && *perr != orig {
		w.C.Failf("finishing span%d changed the error %v to %v", m.Idx, orig, *perr)
	}
	w.C.Logf("finish span%d err=%v panicked=%v", m.Idx, orig, panicked)
	w.C.SigN(uint64(m.Idx)<<8 + 1)

	m.Done = true
	m.F.end(orig, name, panicked)
	m.Trace.Live--
	for k := range m.Kids {
		if !k.Done {
			k.Orphaned = true
		}
	}
	if m.Parent != nil {
		delete(m.Parent.Kids, m)
	}
	for i, x := range w.Live {
		if x == m {
			w.Live = append(w.Live[:i], w.Live[i+1:]...)
			break
		}
	}
	var want []Event
	for _, o := range m.Trace.Obs {
		want = append(want, Event{Kind: "finish", Who: o.Idx, Span: m.S, Trace: m.Trace.T, Err: orig, Panicked: panicked})
	}
	w.compareEvents(want, fmt.Sprintf("finishing span%d", m.Idx))
	if w.K.Events {
		for i, at := range w.finishes {
			if at.Before(before) || at.After(after) {
				w.C.Failf("finish time of span%d is %v, not within [%v, %v]", m.Idx, at, before, after)
			}
			if i > 0 && !at.Equal(w.finishes[0]) {
				w.C.Failf("observers got different finish times for span%d", m.Idx)
			}
		}
	}
}

func (w *World) plainCall() {
	if len(w.plain) > 0 && w.C.Rng.Intn(2) == 0 {
		w.endPlain(w.C.Rng.Intn(len(w.plain)))
		return
	}
	f := w.Funcs[w.C.Rng.Intn(len(w.Funcs))]
	exit := f.F.Observe()
	f.Parents[nil] = true
	f.Current++
	if f.Current > f.High {
		f.High = f.Current
	}
	w.plain = append(w.plain, plainCall{f, exit})
	w.C.Logf("observe %s", f.Name)
}

func (w *World) endPlain(i int) {
	p := w.plain[i]
	w.plain = append(w.plain[:i], w.plain[i+1:]...)
	err, name, panicked, val, nilErr := w.outcome()
	perr := &err
	if nilErr {
		perr = nil
		err = nil
	}
	rec := callExit(p.exit, perr, panicked, val)
	if panicked != (rec != nil) || (panicked && rec != val) {
		w.C.Failf("observed call: panic value %v came out as %v", val, rec)
	}
	p.f.end(err, name, panicked)
	w.C.Logf("observe %s ends err=%v panicked=%v", p.f.Name, err, panicked)
}

func (w *World) reset() {
	f := w.Funcs[w.C.Rng.Intn(len(w.Funcs))]
	if f.Current != 0 {
		return
	}
	f.F.Reset()
	f.High, f.Succ, f.Panics, f.Errs = 0, 0, 0, map[string]int64{}
	w.C.Logf("reset %s", f.Name)
}

func (w *World) observerOp() {
	r := w.C.Rng
	if len(w.obs) > 0 && r.Intn(5) < 2 {
		o := w.obs[r.Intn(len(w.obs))] // cancelling again is fine as well
		o.Cancel()
		w.C.Logf("cancel observer %d", o.Idx)
		w.C.SigN(uint64(o.Idx)<<8 + 3)
		w.dropObs(o)
		return
	}
	if len(w.Traces) == 0 {
		return
	}
	var tm *TraceM
	if len(w.Live) > 0 && r.Intn(8) != 0 {
		tm = w.Live[r.Intn(len(w.Live))].Trace
	} else {
		tm = w.Traces[r.Intn(len(w.Traces))]
	}
	o := w.newObs()
	o.install(tm.T)
	tm.Obs = append([]*ObsM{o}, tm.Obs...)
	w.obs = append(w.obs, o)
	w.C.Logf("observer %d (ctx=%v wrap=%v) on trace%d", o.Idx, o.Ctx, o.Wrap, tm.Idx)
	w.C.SigN(uint64(o.Idx)<<8 + 2)
}

func (w *World) dropObs(o *ObsM) {
	o.Gone = true
	for _, tm := range w.Traces {
		for i := 0; i < len(tm.Obs); i++ {
			if tm.Obs[i] == o {
				tm.Obs = append(append([]*ObsM(nil), tm.Obs[:i]...), tm.Obs[i+1:]...)
				i--
			}
		}
	}
}

func (w *World) watcherOp() {
	r := w.C.Rng
	switch r.Intn(4) {
	case 0:
		wt := &WatchM{Idx: 1000 + len(w.Watch), Install: r.Intn(2) == 0}
		w.Watch = append(w.Watch, wt)
		wt.Cancel = w.Reg.ObserveTraces(func(t *monkit.Trace) {
			w.events = append(w.events, Event{Kind: "trace", Who: wt.Idx, Trace: t})
			if wt.Install && w.pending != nil {
				o := w.newObs()
				o.By = wt
				o.install(t)
				w.pending.Obs = append([]*ObsM{o}, w.pending.Obs...)
				w.obs = append(w.obs, o)
			}
		})
		w.C.Logf("watcher %d install=%v", wt.Idx, wt.Install)
	case 1:
		if len(w.Watch) > 0 {
			wt := w.Watch[r.Intn(len(w.Watch))]
			wt.Cancel()
			wt.Gone = true
			w.C.Logf("cancel watcher %d", wt.Idx)
		}
	case 2:
		all := &AllM{Obs: w.newObs()}
		all.Obs.Ctx, all.Obs.Wrap, all.Obs.All = false, false, all
		all.Cancel = collect.ObserveAllTraces(w.Reg, plainObs{all.Obs})
		w.Alls = append(w.Alls, all)
		seen := map[*TraceM]bool{}
		for _, m := range w.Live {
			if !seen[m.Trace] {
				seen[m.Trace] = true
				m.Trace.Obs = append([]*ObsM{all.Obs}, m.Trace.Obs...)
			}
		}
		w.C.Logf("observe all traces %d (%d live)", all.Obs.Idx, len(seen))
	case 3:
		if len(w.Alls) > 0 {
			all := w.Alls[r.Intn(len(w.Alls))]
			all.Cancel()
			all.Gone = true
			w.dropObs(all.Obs)
			w.C.Logf("cancel observe all %d", all.Obs.Idx)
		}
	}
	w.C.SigN(uint64(len(w.Watch))<<8 + uint64(len(w.Alls))<<16 + 5)
}

// --- comparing

func (w *World) compareEvents(want []Event, what string) {
	if !w.K.Events {
		return
	}
	got := w.events
	w.C.Events(len(got))
	if !w.K.Ordered {
		got, want = sorted(got), sorted(want)
	}
	ok := len(got) == len(want)
	for i := 0; ok && i < len(got); i++ {
		ok = got[i] == want[i]
	}
	if !ok {
		w.C.Fatalf("%s: notifications\n got %v\nwant %v", what, got, want)
	}
}

func sorted(es []Event) []Event {
	es = append([]Event(nil), es...)
	sort.SliceStable(es, func(i, j int) bool {
		if es[i].Kind != es[j].Kind {
			return es[i].Kind < es[j].Kind
		}
		return es[i].Who < es[j].Who
	})
	return es
}

// Compare compares everything that is selected.
func (w *World) Compare() {
	c := w.C
	if w.K.Counts {
		for _, f := range w.Funcs {
			CompareCounts(c, f)
		}
	}
	if w.K.Tree {
		for _, tm := range w.Traces {
			if tm.T != nil && tm.T.Spans() != tm.Live {
				c.Failf("trace%d counts %d spans, want %d", tm.Idx, tm.T.Spans(), tm.Live)
			}
		}
		for _, m := range w.Spans {
			id, ok := m.S.ParentId()
			switch {
			case m.Remote != nil:
				if !ok || id != *m.Remote {
					c.Failf("span%d has parent id %d,%v, want remote %d", m.Idx, id, ok, *m.Remote)
				}
			case m.Parent != nil:
				if !ok || id != m.Parent.S.Id() {
					c.Failf("span%d has parent id %d,%v, want that of span%d", m.Idx, id, ok, m.Parent.Idx)
				}
			default:
				if ok {
					c.Failf("span%d has a parent id %d, want none", m.Idx, id)
				}
			}
			args := m.S.Args()
			if len(args) != len(m.Args) {
				c.Failf("span%d has %d args, want %d", m.Idx, len(args), len(m.Args))
			} else {
				for i, a := range m.Args {
					if args[i] != fmt.Sprintf("%#v", a) {
						c.Failf("span%d arg %d is %q, want %#v", m.Idx, i, args[i], a)
					}
				}
			}
		}
	}
	if w.K.Live {
		w.compareLive()
	}
	if w.K.Parents {
		for _, f := range w.Funcs {
			w.compareParents(f)
		}
	}
	if c.Failed() {
		c.Fatalf("case stopped")
	}
}

func (w *World) name(s *monkit.Span) string {
	if m := w.bySpan[s]; m != nil {
		return fmt.Sprintf("span%d", m.Idx)
	}
	return fmt.Sprintf("unknown span %p", s)
}

func (w *World) compareSet(what string, sorted bool, walk func(func(*monkit.Span)), want map[*monkit.Span]bool) {
	got := map[*monkit.Span]int{}
	var bad []string
	var last *monkit.Span
	walk(func(s *monkit.Span) {
		got[s]++
		if sorted && last != nil {
			a, b := last.Func().FullName(), s.Func().FullName()
			if a > b || (a == b && last.Id() > s.Id()) {
				bad = append(bad, fmt.Sprintf("%s (%s %d) comes after %s (%s %d)", w.name(s), b, s.Id(), w.name(last), a, last.Id()))
			}
		}
		last = s
	})
	for s, n := range got {
		if n != 1 {
			bad = append(bad, fmt.Sprintf("%s %d times", w.name(s), n))
		}
		if !want[s] {
			bad = append(bad, w.name(s)+" must not be there")
		}
	}
	for s := range want {
		if got[s] == 0 {
			bad = append(bad, w.name(s)+" is missing")
		}
	}
	if len(bad) > 0 {
		sort.Strings(bad)
		w.C.Failf("%s: %s", what, strings.Join(bad, ", "))
	}
}

func (w *World) compareLive() {
	for _, m := range w.Live {
		if m.S.Orphaned() != (m.Parent != nil && m.Parent.Done) {
			w.C.Failf("span%d orphaned = %v", m.Idx, m.S.Orphaned())
		}
	}
	w.compareViews(w.Reg)
	if w.Other != nil {
		w.compareViews(w.Other)
	}
	for _, m := range w.Spans {
		kids := map[*monkit.Span]bool{}
		for k := range m.Kids {
			kids[k.S] = true
		}
		w.compareSet(fmt.Sprintf("children of span%d (done=%v)", m.Idx, m.Done), true, m.S.Children, kids)
	}
}

// compareViews compares what one registry shows: roots of its own functions and
// what is below them, whosever functions those are.
func (w *World) compareViews(reg *monkit.Registry) {
	all, roots := map[*monkit.Span]bool{}, map[*monkit.Span]bool{}
	var below func(m *SpanM)
	below = func(m *SpanM) {
		all[m.S] = true
		for k := range m.Kids {
			below(k)
		}
	}
	for _, m := range w.Live {
		if m.F.Reg == reg && (m.Parent == nil || m.Parent.Done) {
			roots[m.S] = true
			below(m)
		}
	}
	w.compareSet("all spans", false, reg.AllSpans, all)
	w.compareSet("root spans", true, reg.RootSpans, roots)
	var walked, listed []string
	reg.AllSpans(func(s *monkit.Span) { listed = append(listed, w.name(s)) })
	var walk func(s *monkit.Span)
	walk = func(s *monkit.Span) {
		walked = append(walked, w.name(s))
		s.Children(walk)
	}
	reg.RootSpans(walk)
	if fmt.Sprint(walked) != fmt.Sprint(listed) {
		w.C.Failf("all spans are listed as %v, the roots and their children are %v", listed, walked)
	}
}

func (w *World) compareParents(f *FuncM) {
	got := map[*monkit.Func]int{}
	f.F.Parents(func(p *monkit.Func) { got[p]++ })
	want := map[*monkit.Func]bool{}
	for p := range f.Parents {
		if p == nil {
			want[nil] = true
		} else {
			want[p.F] = true
		}
	}
	nm := func(p *monkit.Func) string {
		if p == nil {
			return "entry"
		}
		return p.FullName()
	}
	for p, n := range got {
		if n != 1 {
			w.C.Failf("%s lists parent %s %d times", f.Name, nm(p), n)
		}
		if !want[p] {
			w.C.Failf("%s lists parent %s that never called it", f.Name, nm(p))
		}
	}
	for p := range want {
		if got[p] == 0 {
			w.C.Failf("%s lacks parent %s", f.Name, nm(p))
		}
	}
}

// CompareCounts compares all readings of a function's statistics with the
// model; nothing may be running concurrently.
func CompareCounts(c *vh.C, f *FuncM) {
	bad := func(what string, got, want int64) {
		if got != want {
			c.Failf("%s: %s is %d, want %d", f.Name, what, got, want)
		}
	}
	errs := int64(0)
	got := f.F.Errors()
	for name, n := range f.Errs {
		errs += n
		if got[name] != n {
			c.Failf("%s: error %q counted %d times, want %d", f.Name, name, got[name], n)
		}
	}
	for name, n := range got {
		if f.Errs[name] == 0 && n != 0 {
			c.Failf("%s: error %q counted %d times, want 0", f.Name, name, n)
		}
	}
	bad("current", f.F.Current(), f.Current)
	bad("highwater", f.F.Highwater(), f.High)
	bad("success", f.F.Success(), f.Succ)
	bad("panics", f.F.Panics(), f.Panics)
	bad("success times", f.F.SuccessTimes().Count, f.Succ)
	bad("failure times", f.F.FailureTimes().Count, errs+f.Panics)
	want := map[string]float64{
		"function current": float64(f.Current), "function highwater": float64(f.High),
		"function successes": float64(f.Succ), "function errors": float64(errs),
		"function panics": float64(f.Panics), "function failures": float64(errs + f.Panics),
		"function total":               float64(f.Succ + errs + f.Panics),
		"function_times success count": float64(f.Succ),
		"function_times failure count": float64(errs + f.Panics),
	}
	for name, n := range f.Errs {
		if n != 0 {
			want["function error "+name+" count"] = float64(n)
		}
	}
	seen := map[string]float64{}
	f.F.Stats(func(key monkit.SeriesKey, field string, val float64) {
		id := key.Measurement
		if k := key.Tags.Get("kind"); k != "" {
			id += " " + k
		}
		if e, ok := key.Tags.All()["error_name"]; ok {
			id += " error " + e
		}
		id += " " + field
		if _, dup := seen[id]; dup {
			c.Failf("%s: stat %q reported twice", f.Name, id)
		}
		seen[id] = val
	})
	for id, v := range want {
		if got, ok := seen[id]; !ok || got != v {
			c.Failf("%s: stat %q is %v (present %v), want %v", f.Name, id, got, ok, v)
		}
	}
	for id, v := range seen {
		if strings.Contains(id, " error ") && want[id] != v {
			c.Failf("%s: stat %q is %v, want %v", f.Name, id, v, want[id])
		}
	}
}
