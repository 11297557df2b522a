package wm

import (
	"context"
	"fmt"
	"math/rand"
	"runtime"
	"sync"
	"sync/atomic"
	"time"

	"github.com/spacemonkeygo/monkit/v3"

	"verifh/vh"
)

// Stress starts and finishes spans from many goroutines at once. The model is
// kept next to it; a gate makes it possible to stop all starting and
// finishing for a moment, in which the model must match exactly.
type Stress struct {
	*World
	gate  sync.RWMutex
	mu    sync.Mutex
	bound map[*FuncM]*bounds
	async int64
	left  int64

	Inspections int64
}

type bounds struct {
	inner, outer       int64
	maxInner, maxOuter int64
}

func maxTo(addr *int64, v int64) {
	for {
		old := atomic.LoadInt64(addr)
		if v <= old || atomic.CompareAndSwapInt64(addr, old, v) {
			return
		}
	}
}

// NewStress makes a registry with functions to stress.
func NewStress(c *vh.C, k Checks) *Stress {
	s := &Stress{World: New(c, k), bound: map[*FuncM]*bounds{}}
	for _, f := range s.Funcs {
		s.bound[f] = &bounds{}
	}
	return s
}

// Run runs n goroutines that do about ops calls each, while inspect
// inspections happen; afterwards everything is compared once more.
func (s *Stress) Run(n, ops, depth, inspect int) {
	seeds := make([]int64, n)
	for i := range seeds {
		seeds[i] = s.C.Rng.Int63()
	}
	s.left = int64(n * ops)
	var wg sync.WaitGroup
	begin := make(chan struct{})
	for i := 0; i < n; i++ {
		r := rand.New(rand.NewSource(seeds[i]))
		wg.Add(1)
		s.C.Go(func() {
			defer wg.Done()
			<-begin
			for j := 0; j < ops && !s.C.Failed(); j++ {
				s.tree(r, nil, depth)
			}
		})
	}
	var iw sync.WaitGroup
	iw.Add(1)
	done := make(chan struct{})
	s.C.Go(func() {
		defer iw.Done()
		<-begin
		for i := 0; i < inspect && !s.C.Failed(); i++ {
			select {
			case <-done:
				return
			default:
			}
			s.Inspect()
			for j := 0; j < 20; j++ {
				runtime.Gosched()
			}
		}
	})
	close(begin)
	wg.Wait()
	close(done)
	iw.Wait()
	s.C.Wait()
	s.Inspect()
}

// Inspect stops everything and compares.
func (s *Stress) Inspect() {
	s.gate.Lock()
	defer s.gate.Unlock()
	s.Inspections++
	for f, b := range s.bound {
		high := f.F.Highwater()
		if s.K.Counts {
			if high < atomic.LoadInt64(&b.maxInner) || high > atomic.LoadInt64(&b.maxOuter) {
				s.C.Failf("%s: highwater is %d, but between %d and %d calls were in progress at once", f.Name, high, b.maxInner, b.maxOuter)
			}
		}
		f.High = high
	}
	s.Compare()
}

// tree does one call and what it calls. The parent is what ctx carries.
func (s *Stress) tree(r *rand.Rand, parent *SpanM, depth int) {
	if s.C.Failed() || atomic.AddInt64(&s.left, -1) < 0 {
		return
	}
	m := s.Begin(r, parent)
	if m == nil {
		return
	}
	for r.Intn(3) == 0 {
		runtime.Gosched()
	}
	if depth > 0 {
		for k := r.Intn(3); k > 0; k-- {
			switch {
			case r.Intn(4) == 0 && atomic.LoadInt64(&s.async) < 12:
				// may outlive its parent
				r2 := rand.New(rand.NewSource(r.Int63()))
				atomic.AddInt64(&s.async, 1)
				s.C.Go(func() {
					defer atomic.AddInt64(&s.async, -1)
					for r2.Intn(3) != 0 {
						runtime.Gosched()
					}
					s.tree(r2, m, depth-1)
				})
			case r.Intn(8) == 0:
				// a child that finishes at the same time as its parent
				ch := s.Begin(r, m)
				if ch == nil {
					break
				}
				r2 := rand.New(rand.NewSource(r.Int63()))
				s.C.Go(func() { s.End(r2, ch) })
			default:
				s.tree(r, m, depth-1)
			}
		}
	}
	s.End(r, m)
}

func (s *Stress) Begin(r *rand.Rand, parent *SpanM) *SpanM {
	f := s.Funcs[r.Intn(len(s.Funcs))]
	b := s.bound[f]
	var ctx context.Context = context.Background()
	if parent != nil {
		ctx = parent.Ctx
	}
	if r.Intn(6) == 0 {
		ctx = context.WithValue(ctx, ctxKey("v"), r.Intn(9))
	}
	var args []interface{}
	if r.Intn(3) == 0 {
		args = append(args, r.Intn(1000))
	}
	m := &SpanM{F: f, Kids: map[*SpanM]bool{}, Args: args, Ctx: ctx}
	method := r.Intn(12)
	var remote int64
	var supplied *monkit.Trace
	var want *TraceM
	if method == 10 {
		remote, supplied = vh.Int64(r), monkit.NewTrace(vh.Int64(r))
	}
	if method < 10 && parent != nil {
		m.Parent = parent
		want = parent.Trace
	}

	s.gate.RLock()
	defer s.gate.RUnlock()
	maxTo(&b.maxOuter, atomic.AddInt64(&b.outer, 1))
	m.Before = time.Now()
	switch method {
	case 10:
		m.Remote = &remote
		m.Exit = f.F.RemoteTrace(&m.Ctx, remote, supplied, args...)
	case 11:
		m.Exit = f.F.ResetTrace(&m.Ctx, args...)
	default:
		m.Exit = f.F.Task(&m.Ctx, args...)
	}
	m.After = time.Now()
	maxTo(&b.maxInner, atomic.AddInt64(&b.inner, 1))
	m.S = monkit.SpanFromCtx(m.Ctx)

	s.mu.Lock()
	defer s.mu.Unlock()
	m.Idx = len(s.Spans)
	if m.S == nil || m.S == monkit.SpanFromCtx(ctx) {
		s.C.Failf("span%d: no new span in the context", m.Idx)
		return nil
	}
	s.C.Events(1)
	s.C.SigN(uint64(m.Idx)<<20 + uint64(f.F.Id()&3)<<4)
	if want == nil {
		want = &TraceM{T: m.S.Trace(), Idx: len(s.Traces)}
		s.Traces = append(s.Traces, want)
		if supplied == nil {
			s.id(want.T.Id(), "trace")
		} else if supplied != want.T {
			s.C.Failf("span%d is not in the supplied trace", m.Idx)
		}
	} else if m.S.Trace() != want.T {
		s.C.Failf("span%d is in the wrong trace", m.Idx)
	}
	if m.S.Func() != f.F {
		s.C.Failf("span%d has the wrong function", m.Idx)
	}
	if s.K.Tree && (m.S.Start().Before(m.Before) || m.S.Start().After(m.After)) {
		s.C.Failf("span%d start %v not within [%v, %v]", m.Idx, m.S.Start(), m.Before, m.After)
	}
	m.Trace = want
	s.id(m.S.Id(), "span")
	s.bySpan[m.S] = m
	if m.Parent != nil {
		f.Parents[m.Parent.F] = true
		m.Parent.Kids[m] = true
	} else {
		f.Parents[nil] = true
	}
	f.Current++
	want.Live++
	s.Spans = append(s.Spans, m)
	s.Live = append(s.Live, m)
	return m
}

func (s *Stress) End(r *rand.Rand, m *SpanM) {
	b := s.bound[m.F]
	err, name, panicked, val, nilErr := outcome(r)
	perr := &err
	if nilErr {
		perr, err = nil, nil
	}
	orig := err
	s.gate.RLock()
	defer s.gate.RUnlock()
	atomic.AddInt64(&b.inner, -1)
	rec := callExit(m.Exit, perr, panicked, val)
	atomic.AddInt64(&b.outer, -1)

	s.mu.Lock()
	defer s.mu.Unlock()
	s.C.Events(1)
	s.C.SigN(uint64(m.Idx)<<20 + 1)
	if panicked != (rec != nil) || (panicked && rec != val) {
		s.C.Failf("finishing span%d: panic value %v came out as %v", m.Idx, val, rec)
	}
	m.Done = true
	m.F.end(orig, name, panicked)
	m.Trace.Live--
	if m.Parent != nil {
		delete(m.Parent.Kids, m)
	}
	for i, x := range s.Live {
		if x == m {
			s.Live[i] = s.Live[len(s.Live)-1]
			s.Live = s.Live[:len(s.Live)-1]
			break
		}
	}
}

// String describes the size of what was done.
func (s *Stress) String() string {
	return fmt.Sprintf("%d spans in %d traces, %d inspections", len(s.Spans), len(s.Traces), s.Inspections)
}
