package c02

import (
	"bytes"
	"context"
	"errors"
	"fmt"
	"io"
	"math"
	"math/rand"
	"net"
	"reflect"
	"runtime"
	"strings"
	"sync"
	"syscall"
	"testing"
	"time"
	"unsafe"

	"github.com/spacemonkeygo/monkit/v3"
	"github.com/spacemonkeygo/monkit/v3/collect"

	"verifh/vh"
)

func TestCheck(t *testing.T) {
	vh.Main(t, "C02", func(h *vh.H) {
		h.Seq("results", h.N(6000), results)
		h.Seq("contexts", h.N(3000), contexts)
		h.Seq("nil arguments", h.N(500), nils)
		h.Seq("deferred panics", h.N(1500), deferred)
		h.Seq("goexit", h.N(200), goexit)
		h.Conc("cancellation", h.N(60), cancellation)
		h.Conc("concurrent", h.N(40), concurrent)
	})
}

// same tells whether two interface values are the same, without comparing
// what can't be compared.
func same(a, b interface{}) bool {
	return *(*[2]uintptr)(unsafe.Pointer(&a)) == *(*[2]uintptr)(unsafe.Pointer(&b)) ||
		(reflect.TypeOf(a) == reflect.TypeOf(b) && a != nil && reflect.TypeOf(a).Comparable() && a == b)
}

func sameErr(a, b error) bool {
	return *(*[2]uintptr)(unsafe.Pointer(&a)) == *(*[2]uintptr)(unsafe.Pointer(&b))
}

type sliceErr []string

func (e sliceErr) Error() string { return strings.Join(e, "") }

type structErr struct {
	a int
	b func()
}

func (e structErr) Error() string { return "struct" }

type nilErr struct{}

func (e *nilErr) Error() string { return "typed nil" }

type isErr struct{}

func (isErr) Error() string        { return "is" }
func (isErr) Is(error) bool        { return true }
func (isErr) Name() (string, bool) { return "is", true }

func someErr(r *rand.Rand) error {
	switch r.Intn(14) {
	case 0, 1, 2:
		return nil
	case 3:
		return errors.New(vh.Nasty(r))
	case 4:
		return sliceErr{"a", "b"}
	case 5:
		return structErr{1, func() {}}
	case 6:
		return (*nilErr)(nil)
	case 7:
		return fmt.Errorf("wrap %w", io.EOF)
	case 8:
		return io.EOF
	case 9:
		return syscall.Errno(r.Intn(100))
	case 10:
		return &net.OpError{Op: "x", Err: io.EOF}
	case 11:
		return isErr{}
	case 12:
		return context.Canceled
	default:
		return errors.Join(io.EOF, errors.New("x"))
	}
}

type bigVal struct {
	a [20]int
	s []int
}

// somePanic panics or doesn't; want is what must arrive, nil if anything of
// the given kind.
func somePanic(r *rand.Rand) (do func(), kind string, want interface{}) {
	var v interface{}
	switch r.Intn(22) {
	case 0:
		v = "text"
	case 1:
		v = errors.New("err")
	case 2:
		v = r.Int()
	case 3:
		v = []int{1, 2, 3}
	case 4:
		v = map[string]int{"a": 1}
	case 5:
		v = func() {}
	case 6:
		v = bigVal{s: []int{1}}
	case 7:
		v = math.NaN()
	case 8:
		v = (*int)(nil)
	case 9:
		v = new(int)
	case 10:
		v = struct{}{}
	case 11:
		v = error(nil)
		return func() { panic(v) }, "nil", nil
	case 12:
		return func() { var m map[int]int; m[1]++ }, "runtime", nil
	case 13:
		return func() { var p *bigVal; p.a[3] = 1 }, "runtime", nil
	case 14:
		return func() { s := []int{1}; i := 5; s[i%6]++ }, "runtime", nil
	case 15:
		return func() { var x interface{} = 1; _ = x.(string) }, "runtime", nil
	case 16:
		return func() { a, b := 1, 0; _ = a / b }, "runtime", nil
	default:
		return func() {}, "none", nil
	}
	return func() { panic(v) }, "value", v
}

type nopObs struct{ log *[]string }

func (nopObs) Start(s *monkit.Span)                                          {}
func (nopObs) Finish(s *monkit.Span, err error, panicked bool, at time.Time) {}

type wrapKey struct{ n int }

type wrapObs struct{ n int }

func (w wrapObs) Start(ctx context.Context, s *monkit.Span) context.Context {
	return context.WithValue(ctx, wrapKey{w.n}, s)
}
func (w wrapObs) Finish(ctx context.Context, s *monkit.Span, err error, panicked bool, at time.Time) {
}

// world makes a registry with some observers.
func world(c *vh.C) (*monkit.Registry, *monkit.Func) {
	reg := monkit.NewRegistry()
	r := c.Rng
	for i := r.Intn(3); i > 0; i-- {
		switch r.Intn(4) {
		case 0:
			reg.ObserveTraces(func(t *monkit.Trace) { t.ObserveSpans(nopObs{}) })
		case 1:
			n := i
			reg.ObserveTraces(func(t *monkit.Trace) { t.ObserveSpansCtx(wrapObs{n}) })
		case 2:
			collect.ObserveAllTraces(reg, nopObs{})
		case 3:
			col := collect.NewSpanCollector(func(*monkit.Span) bool { return true })
			collect.ObserveAllTraces(reg, col)
		}
	}
	return reg, reg.ScopeNamed("s").FuncNamed("f")
}

// enter starts a monitored call in one of the possible ways.
func enter(r *rand.Rand, f *monkit.Func, ctx *context.Context, args ...interface{}) (func(*error), string) {
	switch r.Intn(8) {
	case 0:
		return f.ResetTrace(ctx, args...), "reset"
	case 1:
		return f.RemoteTrace(ctx, r.Int63(), monkit.NewTrace(monkit.NewId()), args...), "remote"
	case 2:
		return f.Scope().TaskNamed("named")(ctx, args...), "named"
	case 3:
		return f.Scope().Task()(ctx, args...), "task"
	case 4:
		return f.Observe(), "observe"
	default:
		return f.Task(ctx, args...), "func"
	}
}

func results(c *vh.C) {
	_, f := world(c)
	r := c.Rng
	depth := 1 + r.Intn(4)
	type obs struct {
		err      error
		normal   bool
		panicVal interface{}
	}
	want := someErr(r)
	do, kind, val := somePanic(r)
	argument := []byte("abc")
	arglist := []interface{}{1, argument, "x"}
	var how []string
	var firstPanic interface{}
	var call func(ctx context.Context, d int) (n int, err error)
	call = func(ctx context.Context, d int) (n int, err error) {
		before := someErr(r)
		err = before
		// observes what leaves the monitored part below
		defer func() {
			if rec := recover(); rec != nil {
				if !sameErr(err, before) {
					c.Failf("the result of a panicking function changed from %T to %T at depth %d", before, err, d)
				}
				if firstPanic == nil {
					firstPanic = rec
				}
				if !same(rec, firstPanic) {
					c.Failf("panic value changed from %T %p to %T %p at depth %d", firstPanic, firstPanic, rec, rec, d)
				}
				panic(rec)
			}
		}()
		exit, name := enter(r, f, &ctx, arglist...)
		how = append(how, name)
		if r.Intn(6) == 0 {
			defer exit(nil)
		} else {
			defer exit(&err)
		}
		if d > 0 {
			return call(ctx, d-1)
		}
		defer func() {
			// seen before any monitoring, so this is the original
			if rec := recover(); rec != nil {
				firstPanic = rec
				panic(rec)
			}
		}()
		do()
		return 42, want
	}
	var n int
	var got error
	var rec interface{}
	normal := false
	func() {
		defer func() { rec = recover() }()
		n, got = call(context.Background(), depth)
		normal = true
	}()
	c.Sig(how, kind, fmt.Sprintf("%T", want), fmt.Sprintf("%T", val))
	c.Events(depth + 1)
	c.Logf("%v %s err %T", how, kind, want)
	switch kind {
	case "none":
		if !normal {
			c.Fatalf("panicked with %v", rec)
		}
		if n != 42 || !sameErr(got, want) {
			c.Failf("returned %d, %T %v; want 42, %T %v", n, got, got, want, want)
		}
	case "value":
		if normal || !same(rec, val) {
			c.Failf("panic value %T %v arrived as %T %v (normal return %v)", val, val, rec, rec, normal)
		}
	case "nil":
		if _, ok := rec.(*runtime.PanicNilError); normal || !ok || !same(rec, firstPanic) {
			c.Failf("panic(nil) arrived as %T", rec)
		}
	case "runtime":
		if _, ok := rec.(runtime.Error); normal || !ok || !same(rec, firstPanic) {
			c.Failf("runtime error arrived as %T %v (normal return %v)", rec, rec, normal)
		}
	}
	if len(arglist) != 3 || arglist[0] != 1 || !bytes.Equal(argument, []byte("abc")) || arglist[2] != "x" {
		c.Failf("arguments changed: %v", arglist)
	}
}

type key struct{ n int }
type strKey string

// customCtx is a context of a type that monkit knows nothing about.
type customCtx struct {
	context.Context
	extra interface{}
}

func (c customCtx) Value(k interface{}) interface{} {
	if k == "custom" {
		return c.extra
	}
	return c.Context.Value(k)
}

func contexts(c *vh.C) {
	_, f := world(c)
	r := c.Rng
	ctx := context.Background()
	var keys []interface{}
	var cancels []func()
	build := func(n int) {
		for i := 0; i < n; i++ {
			switch r.Intn(9) {
			case 0, 1:
				k := interface{}(key{r.Intn(6)})
				switch r.Intn(4) {
				case 0:
					k = strKey(fmt.Sprint(r.Intn(3)))
				case 1:
					k = r.Intn(3)
				case 2:
					// same type and value as an unexported key of the library would print
					k = "0"
				}
				ctx = context.WithValue(ctx, k, r.Int())
				keys = append(keys, k)
			case 2:
				c2, cancel := context.WithCancel(ctx)
				ctx = c2
				cancels = append(cancels, cancel)
			case 3:
				c2, cancel := context.WithCancelCause(ctx)
				ctx = c2
				err := errors.New("cause")
				cancels = append(cancels, func() { cancel(err) })
			case 4:
				c2, cancel := context.WithDeadline(ctx, time.Now().Add(time.Duration(1+r.Intn(1000))*time.Hour))
				ctx = c2
				cancels = append(cancels, cancel)
			case 5:
				c2, cancel := context.WithDeadline(ctx, time.Now().Add(-time.Hour))
				ctx = c2
				cancels = append(cancels, cancel)
			case 6:
				ctx = customCtx{ctx, r.Int()}
				keys = append(keys, "custom")
			case 7:
				ctx = context.WithoutCancel(ctx)
			case 8:
				ctx = monkit.ResetContextSpan(ctx)
			}
		}
	}
	check := func(what string, outer, inner context.Context) {
		c.Events(1)
		for _, k := range append(keys, key{99}, "nokey") {
			if g, w := inner.Value(k), outer.Value(k); g != w {
				c.Failf("%s: value of %v is %v, want %v", what, k, g, w)
			}
		}
		gd, gok := inner.Deadline()
		wd, wok := outer.Deadline()
		if gok != wok || !gd.Equal(wd) {
			c.Failf("%s: deadline is %v,%v, want %v,%v", what, gd, gok, wd, wok)
		}
		if g, w := inner.Err(), outer.Err(); g != w {
			c.Failf("%s: error is %v, want %v", what, g, w)
		}
		if g, w := context.Cause(inner), context.Cause(outer); g != w {
			c.Failf("%s: cause is %v, want %v", what, g, w)
		}
		closed := func(ctx context.Context) bool {
			select {
			case <-ctx.Done():
				return true
			default:
				return false
			}
		}
		if g, w := closed(inner), closed(outer); g != w {
			c.Failf("%s: done is %v, want %v", what, g, w)
		}
	}
	type level struct {
		what         string
		outer, inner context.Context
	}
	var levels []level
	var walk func(d int)
	walk = func(d int) {
		build(r.Intn(4))
		outer := ctx
		exit, name := enter(r, f, &ctx)
		if r.Intn(3) == 0 {
			// the rest happens with the context of a finished call
			exit(nil)
			c.Note("contexts of finished calls", 1)
		} else {
			defer exit(nil)
		}
		l := level{fmt.Sprint(name, d), outer, ctx}
		levels = append(levels, l)
		c.Sig(name, len(keys), len(cancels))
		if ctx == nil {
			c.Fatalf("%s: context became nil", l.what)
		}
		check(l.what, outer, ctx)
		if name != "observe" && ctx == outer {
			c.Failf("%s: context did not change", l.what)
		}
		_ = fmt.Sprint(ctx)
		if d > 0 {
			walk(d - 1)
		}
		if len(cancels) > 0 && r.Intn(2) == 0 {
			i := r.Intn(len(cancels))
			cancels[i]()
			for _, l := range levels {
				check(l.what+" after cancel", l.outer, l.inner)
			}
		}
	}
	walk(r.Intn(5))
	for _, cancel := range cancels {
		cancel()
	}
	for _, l := range levels {
		check(l.what+" at the end", l.outer, l.inner)
	}
	c.Logf("%d levels, %d values, %d cancels", len(levels), len(keys), len(cancels))
}

func nils(c *vh.C) {
	reg, f := world(c)
	r := c.Rng
	for i := 0; i < 6; i++ {
		var ctx context.Context
		pctx := &ctx
		nilPtr := r.Intn(2) == 0
		if nilPtr {
			pctx = nil
		}
		nilErr := r.Intn(2) == 0
		doPanic := r.Intn(3) == 0
		err := someErr(r)
		orig := err
		val := new(int)
		var name string
		rec, panicked := vh.Catch(func() {
			var exit func(*error)
			exit, name = enter(r, f, pctx)
			n := 0
			reg.RootSpans(func(s *monkit.Span) { n++ })
			if name != "observe" && n != 1 {
				c.Failf("%s with nil pointer %v: %d root spans during the call", name, nilPtr, n)
			}
			if !nilPtr && name != "observe" && (ctx == nil || monkit.SpanFromCtx(ctx) == nil) {
				c.Failf("%s: a nil context was not replaced by one with the span", name)
			}
			if nilErr {
				defer exit(nil)
			} else {
				defer exit(&err)
			}
			if doPanic {
				panic(val)
			}
		})
		c.Sig(name, nilPtr, nilErr, doPanic)
		c.Events(1)
		if panicked != doPanic || (doPanic && rec != val) {
			c.Failf("%s (nil pointer %v, nil error pointer %v): panicked %v with %v, want %v", name, nilPtr, nilErr, panicked, rec, doPanic)
		}
		if !sameErr(err, orig) {
			c.Failf("%s: error changed from %v to %v", name, orig, err)
		}
		if nilPtr && ctx != nil {
			c.Failf("%s: a nil context pointer changed a context", name)
		}
	}
	c.Logf("nil context, context pointer and error pointer")
}

// deferred mixes monitored calls with panics in deferred functions, recovers
// and replaced panics, and compares with the same code unmonitored.
func deferred(c *vh.C) {
	_, f := world(c)
	seed := c.Rng.Int63()
	run := func(monitored bool) (trace []string) {
		r := rand.New(rand.NewSource(seed))
		how := rand.New(rand.NewSource(seed + 1))
		log := func(format string, args ...interface{}) { trace = append(trace, fmt.Sprintf(format, args...)) }
		var call func(ctx context.Context, d int) error
		call = func(ctx context.Context, d int) (err error) {
			if r.Intn(3) == 0 {
				defer func() {
					rec := recover()
					log("%d recovered %v", d, rec)
					if rec != nil && r.Intn(2) == 0 {
						panic(fmt.Sprint("again ", rec))
					}
				}()
			}
			if r.Intn(3) == 0 {
				defer func() { log("%d deferred err %v", d, err) }()
			}
			if monitored {
				exit, _ := enter(how, f, &ctx)
				defer exit(&err)
			}
			if r.Intn(4) == 0 {
				defer func() {
					log("%d panics in defer", d)
					panic(fmt.Sprint("defer ", d))
				}()
			}
			if r.Intn(4) == 0 {
				defer func() {
					if err == nil {
						err = fmt.Errorf("set in defer %d", d)
					}
				}()
			}
			if r.Intn(4) == 0 {
				defer func() { log("%d inner recovered %v", d, recover()) }()
			}
			for i := r.Intn(3); i > 0 && d > 0; i-- {
				if err := call(ctx, d-1); err != nil {
					log("%d got %v", d, err)
					if r.Intn(2) == 0 {
						return fmt.Errorf("%d: %w", d, err)
					}
				}
			}
			switch r.Intn(4) {
			case 0:
				panic(fmt.Sprint("body ", d))
			case 1:
				return fmt.Errorf("error %d", d)
			}
			return nil
		}
		func() {
			defer func() { log("top recovered %v", recover()) }()
			log("top got %v", call(context.Background(), 4))
		}()
		return trace
	}
	want, got := run(false), run(true)
	c.Events(len(got))
	c.Sig(want)
	c.Logf("%q", want)
	if !reflect.DeepEqual(want, got) {
		c.Failf("monitored code behaves differently\n got %q\nwant %q", got, want)
	}
}

func goexit(c *vh.C) {
	_, f := world(c)
	seed := c.Rng.Int63()
	run := func(monitored bool) []string {
		r := rand.New(rand.NewSource(seed))
		how := rand.New(rand.NewSource(seed + 1))
		var trace []string
		done := make(chan struct{})
		go func() {
			defer close(done)
			var call func(ctx context.Context, d int) error
			call = func(ctx context.Context, d int) (err error) {
				defer func() { trace = append(trace, fmt.Sprintf("leave %d %v", d, err)) }()
				if monitored {
					exit, _ := enter(how, f, &ctx)
					defer exit(&err)
				}
				if d == 0 {
					runtime.Goexit()
				}
				err = call(ctx, d-1)
				trace = append(trace, "not reached")
				return err
			}
			_ = call(context.Background(), r.Intn(4))
			trace = append(trace, "not reached")
		}()
		vh.Await(c, done, "the goroutine that called Goexit ends")
		return trace
	}
	want, got := run(false), run(true)
	c.Sig(want)
	c.Events(len(got))
	c.Logf("%q", got)
	if !reflect.DeepEqual(want, got) {
		c.Failf("monitored code behaves differently on Goexit\n got %q\nwant %q", got, want)
	}
}

// cancellation waits inside monitored calls for what cancels from outside.
func cancellation(c *vh.C) {
	_, f := world(c)
	r := c.Rng
	base, cancel := context.WithCancelCause(context.Background())
	cause := errors.New("the cause")
	n := 1 + r.Intn(5)
	ready := make(chan struct{}, n)
	for i := 0; i < n; i++ {
		r := rand.New(rand.NewSource(r.Int63()))
		c.Go(func() {
			ctx := base
			for d := r.Intn(4); d >= 0; d-- {
				exit, name := enter(r, f, &ctx)
				early := r.Intn(3) == 0
				if early {
					// what follows outlives this call
					exit(nil)
				} else {
					defer exit(nil)
				}
				c.Sig(name, early)
				if r.Intn(3) == 0 {
					c2, cancel := context.WithCancel(ctx)
					defer cancel()
					ctx = c2
				}
			}
			if ctx.Err() != nil {
				c.Failf("cancelled too early: %v", ctx.Err())
			}
			ready <- struct{}{}
			vh.Await(c, ctx.Done(), "the monitored function's context is cancelled with its parent")
			if ctx.Err() != context.Canceled || context.Cause(ctx) != cause {
				c.Failf("error %v cause %v after cancel", ctx.Err(), context.Cause(ctx))
			}
			c.Events(1)
		})
	}
	for i := 0; i < n; i++ {
		<-ready
	}
	cancel(cause)
	c.Wait()
	c.Logf("%d waiting calls", n)
}

// concurrent checks results from many goroutines at once, with observers
// coming and going.
func concurrent(c *vh.C) {
	reg, f := world(c)
	n := 2 + c.Rng.Intn(5)
	var wg sync.WaitGroup
	for g := 0; g < n; g++ {
		r := rand.New(rand.NewSource(c.Rng.Int63()))
		wg.Add(1)
		c.Go(func() {
			defer wg.Done()
			for i := 0; i < 30; i++ {
				if r.Intn(5) == 0 {
					cancel := reg.ObserveTraces(func(t *monkit.Trace) { t.ObserveSpansCtx(wrapObs{7}) })
					defer cancel()
				}
				want := &nilErr{}
				val := new(int)
				boom := r.Intn(2) == 0
				var err error
				rec, panicked := vh.Catch(func() {
					err = func() (err error) {
						ctx := context.WithValue(context.Background(), key{1}, val)
						exit, _ := enter(r, f, &ctx)
						defer exit(&err)
						if ctx.Value(key{1}) != val {
							c.Failf("value lost")
						}
						if boom {
							panic(val)
						}
						return want
					}()
				})
				if boom && (!panicked || rec != val) || !boom && (panicked || err != want) {
					c.Failf("panicked %v with %v, returned %v", panicked, rec, err)
				}
				c.Events(1)
			}
		})
	}
	wg.Wait()
	c.Sig(n, c.Idx)
	c.Logf("%d goroutines", n)
}
