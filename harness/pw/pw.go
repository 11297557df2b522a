// Package pw makes registries full of hostile names, calls, live and finished
// spans, and knows what renderings of them have to say. Meant to be used with
// virtual time, so that all times are known exactly.
package pw

import (
	"context"
	"encoding/hex"
	"errors"
	"fmt"
	"io"
	"math"
	"math/rand"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"time"

	"github.com/spacemonkeygo/monkit/v3"
	"github.com/spacemonkeygo/monkit/v3/collect"

	"verifh/vh"
)

// Fn is a function with what happened to it.
type Fn struct {
	F           *monkit.Func
	Scope, Name string
	Parents     map[*Fn]bool // nil means entry
	Current     int64
	High        int64
	Panics      int64
	Errs        map[string]int64
	Ok, Fail    []time.Duration
}

// Full is the full name.
func (f *Fn) Full() string { return f.Scope + "." + f.Name }

// Errors adds up the errors.
func (f *Fn) Errors() (n int64) {
	for _, x := range f.Errs {
		n += x
	}
	return n
}

// Sp is a span with what is known about it.
type Sp struct {
	S        *monkit.Span
	F        *Fn
	Idx      int
	Args     []interface{}
	Anns     []monkit.Annotation
	Parent   *Sp
	Remote   *int64
	Trace    *monkit.Trace
	Start    time.Time
	Done     bool
	Orphaned bool
	Kids     map[*Sp]bool

	Err      error
	Panicked bool
	Finish   time.Time

	ctx  context.Context
	exit func(*error)
}

// W is the world.
type W struct {
	NoSleep bool // for real time
	Long    bool // long texts as well
	C       *vh.C
	R       *rand.Rand
	Reg     *monkit.Registry
	Fns     []*Fn
	Spans   []*Sp
	Live    []*Sp
	ByID    map[int64]*Sp
}

// Self is an error that names itself.
type Self struct{ N, Text string }

func (e *Self) Error() string        { return e.Text }
func (e *Self) Name() (string, bool) { return e.N, true }

// Wrapped is an error of the kind the SVG rendering looks into.
type Wrapped struct{ In error }

func (e *Wrapped) Error() string     { return fmt.Sprintf("wrapped %v", e.In) }
func (e *Wrapped) WrappedErr() error { return e.In }

type argT struct {
	A int
	B string
	C *argT
}

type goStr string

func (g goStr) GoString() string { return "go<" + string(g) + ">" }

type panicStr struct{}

func (panicStr) GoString() string { panic("no\"<string>") }

// Arg makes an argument.
func Arg(r *rand.Rand) interface{} {
	switch r.Intn(18) {
	case 0:
		return nil
	case 1:
		return vh.Int64(r)
	case 2:
		return []byte(vh.Nasty(r))
	case 3:
		return []interface{}{1, vh.Nasty(r), []byte{1}, nil, 2.5}
	case 4:
		return time.Unix(int64(r.Intn(1<<30)), int64(r.Intn(1000000000))).UTC()
	case 5:
		return []float64{math.NaN(), math.Inf(1), 0, -1.5}[r.Intn(4)]
	case 6:
		return &argT{A: 3, B: vh.Nasty(r)}
	case 7:
		return argT{A: r.Intn(9), B: vh.Nasty(r)}
	case 8:
		return map[string]int{vh.Nasty(r): 2}
	case 9:
		return errors.New(vh.Nasty(r))
	case 10:
		return goStr(vh.Nasty(r))
	case 11:
		return panicStr{}
	case 12:
		return []string{vh.Nasty(r), vh.Nasty(r)}
	case 13:
		return r.Intn(2) == 0
	default:
		return vh.Nasty(r)
	}
}

// Dur makes a duration.
func Dur(r *rand.Rand) time.Duration {
	switch r.Intn(8) {
	case 0, 1:
		return 0
	case 2:
		return time.Duration(1 + r.Intn(10))
	case 3:
		return time.Duration(r.Intn(1000000))
	case 4:
		return time.Duration(r.Intn(1000)) * time.Millisecond
	case 5:
		return time.Duration(r.Intn(100)) * time.Second
	default:
		return time.Duration(r.Intn(2000000000))
	}
}

func outcome(r *rand.Rand) (err error, name string, panicked bool) {
	switch r.Intn(10) {
	case 0:
		return errors.New(vh.Nasty(r)), "System Error", false
	case 1:
		e := &Self{vh.Nasty(r), vh.Nasty(r)}
		return e, e.N, false
	case 2:
		return context.Canceled, "Canceled", false
	case 3:
		return context.DeadlineExceeded, "Timeout", false
	case 4:
		in := []error{context.Canceled, io.EOF, nil, &Wrapped{context.Canceled}, &Wrapped{nil}}[r.Intn(5)]
		return &Wrapped{in}, "System Error", false
	case 5:
		return nil, "", true
	case 6:
		// what the error is doesn't matter then
		return []error{io.EOF, context.Canceled, &Wrapped{context.Canceled}, errors.New(vh.Nasty(r))}[r.Intn(4)], "", true
	default:
		return nil, "", false
	}
}

// New makes a registry with some functions.
func New(c *vh.C, nfuncs int) *W { return make1(c, nfuncs, false) }

// NewLong is like New with some long texts.
func NewLong(c *vh.C, nfuncs int) *W { return make1(c, nfuncs, true) }

// text is any text, maybe a long one.
func (w *W) text() string {
	if w.Long && w.R.Intn(6) == 0 {
		return vh.Long(w.R, 12000)
	}
	return vh.Nasty(w.R)
}

func make1(c *vh.C, nfuncs int, long bool) *W {
	w := &W{C: c, R: c.Rng, Reg: monkit.NewRegistry(), ByID: map[int64]*Sp{}, Long: long}
	seen := map[string]bool{}
	scopes := []string{w.text(), w.text(), "pkg/x"}
	for i := 0; i < nfuncs; i++ {
		sn, name := scopes[w.R.Intn(len(scopes))], w.text()
		if nfuncs > 50 {
			name += fmt.Sprint(i)
		}
		var tags []monkit.SeriesTag
		if w.R.Intn(3) == 0 {
			tags = append(tags, monkit.NewSeriesTag("t", vh.Nasty(w.R)))
		}
		key := fmt.Sprintf("%q %q %q", sn, name, tags)
		if seen[key] {
			continue
		}
		seen[key] = true
		w.Fns = append(w.Fns, &Fn{F: w.Reg.ScopeNamed(sn).FuncNamed(name, tags...), Scope: sn, Name: name,
			Parents: map[*Fn]bool{}, Errs: map[string]int64{}})
	}
	if len(w.Fns) == 0 {
		w.Fns = append(w.Fns, &Fn{F: w.Reg.ScopeNamed("s").FuncNamed("f"), Scope: "s", Name: "f",
			Parents: map[*Fn]bool{}, Errs: map[string]int64{}})
	}
	return w
}

// Sleep lets virtual time pass.
func (w *W) Sleep() {
	if w.NoSleep {
		return
	}
	if d := Dur(w.R); d > 0 {
		time.Sleep(d)
	}
}

// Start begins a call.
func (w *W) Start(parent *Sp) *Sp {
	r := w.R
	f := w.Fns[r.Intn(len(w.Fns))]
	s := &Sp{F: f, Idx: len(w.Spans), Kids: map[*Sp]bool{}}
	for n := r.Intn(4); n > 0; n-- {
		s.Args = append(s.Args, Arg(r))
	}
	if w.Long && r.Intn(2) == 0 {
		s.Args = append(s.Args, w.text(), w.text())
		if r.Intn(8) == 0 {
			for n := vh.Many(r, 300); n > 0; n-- {
				s.Args = append(s.Args, r.Intn(100))
			}
		}
	}
	ctx := context.Background()
	if parent != nil {
		ctx = parent.ctx
	}
	s.Start = time.Now()
	k := r.Intn(12)
	switch {
	case k == 0:
		s.exit = f.F.ResetTrace(&ctx, s.Args...)
		parent = nil
	case k == 1:
		// a remote parent that is not there, or one that happens to be in this process
		id := vh.Int64(r)
		if r.Intn(4) == 0 {
			id = 0
		} else if len(w.Spans) > 0 && r.Intn(2) == 0 {
			id = w.Spans[r.Intn(len(w.Spans))].S.Id()
		} else if r.Intn(2) == 0 {
			// the id this or one of the next spans will get (every other id is the
			// same distance apart): what claims to be the parent is the span
			// itself or a descendant
			x := [2]int64{1: monkit.NewId()}
			first := x[1]
			x[0], x[1] = x[1], monkit.NewId()
			x[0], x[1] = x[1], monkit.NewId()
			step := uint64(x[1] - first)
			for n := 1 + r.Intn(3); n > 0; n-- {
				x[0], x[1] = x[1], int64((uint64(x[0])+step)&^(1<<63))
			}
			id = x[1]
		}
		s.Remote = &id
		t := monkit.NewTrace(vh.Int64(r))
		if len(w.Spans) > 0 && r.Intn(2) == 0 {
			t = w.Spans[r.Intn(len(w.Spans))].Trace
		}
		s.exit = f.F.RemoteTrace(&ctx, id, t, s.Args...)
		parent = nil
	default:
		s.exit = f.F.Task(&ctx, s.Args...)
	}
	s.ctx = ctx
	s.S = monkit.SpanFromCtx(ctx)
	s.Trace = s.S.Trace()
	s.Parent = parent
	if parent != nil {
		parent.Kids[s] = true
		s.Orphaned = parent.Done
		f.Parents[parent.F] = true
	} else {
		f.Parents[nil] = true
	}
	f.Current++
	if f.Current > f.High {
		f.High = f.Current
	}
	more := 0
	if w.Long && r.Intn(20) == 0 {
		more = vh.Many(r, 300)
	}
	for ; r.Intn(3) == 0 || more > 0; more-- {
		a := monkit.Annotation{Name: w.text(), Value: w.text()}
		s.S.Annotate(a.Name, a.Value)
		s.Anns = append(s.Anns, a)
	}
	w.Spans = append(w.Spans, s)
	w.Live = append(w.Live, s)
	w.ByID[s.S.Id()] = s
	w.C.Logf("start %d %q parent %v args %d anns %d", s.Idx, f.Full(), parent != nil, len(s.Args), len(s.Anns))
	w.C.SigN(uint64(k)<<8 + uint64(len(s.Args)))
	w.C.Events(1)
	return s
}

// End ends a call.
func (w *W) End(s *Sp) {
	err, name, panicked := outcome(w.R)
	orig := err
	s.Err, s.Panicked, s.Finish, s.Done = err, panicked, time.Now(), true
	vh.Catch(func() {
		defer s.exit(&err)
		if panicked {
			panic("p")
		}
	})
	f := s.F
	f.Current--
	d := s.Finish.Sub(s.Start)
	switch {
	case panicked:
		f.Panics++
		f.Fail = append(f.Fail, d)
	case orig != nil:
		f.Errs[name]++
		f.Fail = append(f.Fail, d)
	default:
		f.Ok = append(f.Ok, d)
	}
	for k := range s.Kids {
		if !k.Done {
			k.Orphaned = true
		}
	}
	if s.Parent != nil {
		delete(s.Parent.Kids, s)
	}
	for i, x := range w.Live {
		if x == s {
			w.Live = append(w.Live[:i], w.Live[i+1:]...)
			break
		}
	}
	w.C.Logf("end %d err %v panicked %v", s.Idx, orig, panicked)
	w.C.SigN(uint64(s.Idx)<<8 + 255)
	w.C.Events(1)
}

// Play does n random steps.
func (w *W) Play(n int) {
	for i := 0; i < n; i++ {
		if n < 100 || i%16 == 0 {
			w.Sleep()
		}
		if len(w.Live) > 0 && w.R.Intn(5) < 2 {
			w.End(w.Live[w.R.Intn(len(w.Live))])
			continue
		}
		var p *Sp
		if len(w.Live) > 0 && w.R.Intn(4) != 0 {
			p = w.Live[w.R.Intn(len(w.Live))]
		} else if len(w.Spans) > 0 && w.R.Intn(4) == 0 {
			p = w.Spans[w.R.Intn(len(w.Spans))]
		}
		w.Start(p)
	}
}

// Drain ends all.
func (w *W) Drain() {
	for len(w.Live) > 0 {
		w.End(w.Live[len(w.Live)-1])
	}
}

// Roots are the live spans without live local parent.
func (w *W) Roots() map[*Sp]bool {
	m := map[*Sp]bool{}
	for _, s := range w.Live {
		if s.Parent == nil || s.Parent.Done {
			m[s] = true
		}
	}
	return m
}

// Finished returns finished spans as a collection would.
func (w *W) Finished() (out []*collect.FinishedSpan, sps []*Sp) {
	for _, s := range w.Spans {
		if s.Done {
			out = append(out, &collect.FinishedSpan{Span: s.S, Err: s.Err, Panicked: s.Panicked, Finish: s.Finish})
			sps = append(sps, s)
		}
	}
	return out, sps
}

// Pick returns some of the finished spans, in some order.
func (w *W) Pick() (out []*collect.FinishedSpan, sps []*Sp) {
	all, m := w.Finished()
	idx := w.R.Perm(len(all))
	n := len(all)
	switch w.R.Intn(4) {
	case 0:
		n = w.R.Intn(n + 1)
	case 1:
		sort.Ints(idx)
	}
	for _, i := range idx[:n] {
		out, sps = append(out, all[i]), append(sps, m[i])
	}
	return out, sps
}

// Quantile is the linear interpolation quantile.
func Quantile(ds []time.Duration, q float64) float64 {
	if len(ds) == 0 {
		return 0
	}
	s := append([]time.Duration(nil), ds...)
	sort.Slice(s, func(i, j int) bool { return s[i] < s[j] })
	x := q * float64(len(s)-1)
	i := int(x)
	if i >= len(s)-1 {
		return float64(s[len(s)-1])
	}
	return float64(s[i]) + (x-float64(i))*float64(s[i+1]-s[i])
}

// Avg is the average.
func Avg(ds []time.Duration) float64 {
	if len(ds) == 0 {
		return 0
	}
	var sum time.Duration
	for _, d := range ds {
		sum += d
	}
	return float64(sum) / float64(len(ds))
}

// Near tells whether a equals b up to float32 precision and truncation.
func Near(a, b float64) bool {
	return math.Abs(a-b) <= 2+1e-5*math.Max(math.Abs(a), math.Abs(b))
}

// --- writers that fail

// FailWriter fails at the given write or byte.
type FailWriter struct {
	AtWrite, AtByte int  // -1: never
	Then            bool // later writes succeed
	Err             error
	Writes, Bytes   int
	Failed          bool
	After           int // writes after the failure
	Data            []byte
}

// Later is what writes after the failure return.
var Later = errors.New("later error")

func (f *FailWriter) Write(p []byte) (int, error) {
	f.Writes++
	if f.Failed {
		f.After++
		if f.Then {
			f.Data = append(f.Data, p...)
			return len(p), nil
		}
		return 0, Later
	}
	if f.AtWrite >= 0 && f.Writes-1 == f.AtWrite {
		f.Failed = true
		return 0, f.Err
	}
	if f.AtByte >= 0 && f.Bytes+len(p) > f.AtByte {
		n := f.AtByte - f.Bytes
		f.Bytes += n
		f.Data = append(f.Data, p[:n]...)
		f.Failed = true
		return n, f.Err
	}
	f.Bytes += len(p)
	f.Data = append(f.Data, p...)
	return len(p), nil
}

// Faults runs render with writers that fail at every (or many) points and
// checks that the writer's error is returned.
func Faults(c *vh.C, what string, render func(w io.Writer) error, max int) {
	ok := &FailWriter{AtWrite: -1, AtByte: -1}
	if err := render(ok); err != nil {
		c.Failf("%s: error %v although all writes succeed", what, err)
		return
	}
	type pt struct {
		w, b int
	}
	var pts []pt
	for i := 0; i < ok.Writes; i++ {
		pts = append(pts, pt{i, -1})
	}
	if len(pts) > max {
		c.Rng.Shuffle(len(pts), func(i, j int) { pts[i], pts[j] = pts[j], pts[i] })
		pts = pts[:max]
	}
	for i := 0; i < 4 && ok.Bytes > 0; i++ {
		pts = append(pts, pt{-1, c.Rng.Intn(ok.Bytes)})
	}
	for _, p := range pts {
		for _, then := range []bool{false, true} {
			e := errors.New("the writer's error")
			fw := &FailWriter{AtWrite: p.w, AtByte: p.b, Then: then, Err: e}
			var err error
			if rec, panicked := vh.Catch(func() { err = render(fw) }); panicked {
				c.Failf("%s: panic %v when write %d / byte %d fails", what, rec, p.w, p.b)
				return
			}
			c.Events(1)
			c.Note("failed writes injected", 1)
			if fw.Failed && err != e {
				c.Failf("%s: write %d of %d / byte %d of %d failed with %q (later writes succeed: %v), rendering returned %v",
					what, p.w, ok.Writes, p.b, ok.Bytes, e, then, err)
				return
			}
		}
	}
}

func argText(a interface{}, top bool) string {
	switch a := a.(type) {
	case string:
		return strconv.Quote(a)
	case []byte:
		return "[]uint8(0x" + hex.EncodeToString(a) + ")"
	case time.Time:
		return "time.Time(" + a.Format(time.RFC3339Nano) + ")"
	case []interface{}:
		if top {
			var p []string
			for _, x := range a {
				p = append(p, argText(x, false))
			}
			return "{" + strings.Join(p, ", ") + "}"
		}
	}
	return fmt.Sprintf("%#v", a)
}

// ArgTexts is how the span reports its arguments.
func (s *Sp) ArgTexts() (out []string) {
	for _, a := range s.Args {
		out = append(out, argText(a, true))
	}
	return out
}

// Rendering is something that always says the same (up to order).
type Rendering struct {
	What string
	F    func(w io.Writer) error
	// Check looks at a text, nil compares with the first one.
	Check func(text string)
}

// Sorted is the text's pieces, whatever the order they came in.
func Sorted(s string) string {
	p := strings.FieldsFunc(s, func(r rune) bool { return strings.ContainsRune("\n,[]{} \\", r) })
	sort.Strings(p)
	return strings.Join(p, "\n")
}

type yieldWriter struct {
	strings.Builder
	left int
}

func (y *yieldWriter) Write(p []byte) (int, error) {
	if y.left--; y.left < 0 {
		return 0, Later
	}
	runtime.Gosched()
	return y.Builder.Write(p)
}

// Together renders all of rs over and over at once. Every result must be what
// it is alone, also if others fail.
func Together(c *vh.C, rs []Rendering) {
	base := make([]string, len(rs))
	writes := make([]int, len(rs))
	for i, r := range rs {
		ok := &FailWriter{AtWrite: -1, AtByte: -1}
		if err := r.F(ok); err != nil {
			c.Fatalf("%s returned %v", r.What, err)
		}
		base[i], writes[i] = string(ok.Data), ok.Writes
	}
	n := 4 + c.Rng.Intn(8)
	gate := make(chan struct{})
	for g := 0; g < n; g++ {
		rnd := rand.New(rand.NewSource(c.Rng.Int63()))
		c.Go(func() {
			<-gate
			for k := 0; k < 8 && !c.Failed(); k++ {
				i := rnd.Intn(len(rs))
				r := rs[i]
				y := &yieldWriter{left: writes[i] + 100}
				fails := rnd.Intn(6) == 0 && writes[i] > 0
				if fails {
					y.left = rnd.Intn(writes[i])
				}
				err := r.F(y)
				c.Events(1)
				c.SigN(uint64(g*100 + i))
				if fails {
					// a writer may be called less often than before
					if err != nil && err != Later {
						c.Failf("%s returned %v", r.What, err)
					}
					continue
				}
				text := y.String()
				switch {
				case err != nil:
					c.Failf("%s returned %v", r.What, err)
				case r.Check != nil:
					r.Check(text)
				case text != base[i] && Sorted(text) != Sorted(base[i]):
					c.Failf("%s while others are rendered:\n%.1500q\nalone:\n%.1500q", r.What, text, base[i])
				}
			}
		})
	}
	close(gate)
	c.Wait()
}
