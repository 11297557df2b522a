// Package env records what functions were named, for generated code.
package env

import (
	"context"
	"runtime"
	"strings"
	"sync"

	"github.com/spacemonkeygo/monkit/v3"
)

// Env is where generated code runs.
type Env struct {
	Reg *monkit.Registry
	S   *monkit.Scope

	mtx    sync.Mutex
	shared map[int]*Shared
	Out    []Result
	Depth  int
}

// Shared is a task that several functions use.
type Shared struct {
	Task  monkit.Task
	First string
	fn    *monkit.Func
}

// Result is one name that was given.
type Result struct {
	Form string
	Got  string
	Want string
	Lit  string // without the package, when that's known
	Pkg  bool
	Full string
	Sc   string
}

// New makes one.
func New(scope string) *Env {
	e := &Env{Reg: monkit.NewRegistry(), shared: map[int]*Shared{}}
	e.S = e.Reg.ScopeNamed(scope)
	return e
}

// Here is the full name of the function that calls it.
//
//go:noinline
func Here() string {
	var pcs [8]uintptr
	n := runtime.Callers(1, pcs[:])
	frames := runtime.CallersFrames(pcs[:n])
	frames.Next() // Here itself
	f, _ := frames.Next()
	return f.Function
}

// Shared gives the task number k.
func (e *Env) Shared(k int) *Shared {
	e.mtx.Lock()
	defer e.mtx.Unlock()
	s := e.shared[k]
	if s == nil {
		s = &Shared{Task: e.S.Task()}
		e.shared[k] = s
	}
	return s
}

func (e *Env) add(r Result) {
	e.mtx.Lock()
	e.Out = append(e.Out, r)
	e.mtx.Unlock()
}

// Func records a function's name.
func (e *Env) Func(form string, f *monkit.Func, here, lit string) {
	e.add(Result{Form: form, Got: f.ShortName(), Want: here, Lit: lit, Full: f.FullName(), Sc: f.Scope().Name()})
}

// Span records the name of a span's function.
func (e *Env) Span(form string, ctx context.Context, here, lit string) {
	e.Func(form, monkit.SpanFromCtx(ctx).Func(), here, lit)
}

// Use records the name of a shared task.
func (e *Env) Use(form string, s *Shared, ctx context.Context, here, lit string) {
	f := monkit.SpanFromCtx(ctx).Func()
	e.mtx.Lock()
	if s.First == "" {
		s.First, s.fn = here, f
	} else {
		lit = ""
	}
	same := s.fn == f && s.Task.Func() == f
	first := s.First
	e.mtx.Unlock()
	if !same {
		e.add(Result{Form: form + " again", Got: f.ShortName(), Want: "another function than at first", Full: f.FullName(), Sc: f.Scope().Name()})
		return
	}
	e.Func(form, f, first, lit)
}

// Package records a scope's name.
func (e *Env) Package(form string, s *monkit.Scope, here string) {
	e.add(Result{Form: form, Got: s.Name(), Want: here, Pkg: true})
}

// Split separates the package and the function in a full name.
func Split(full string) (pkg, fn string) {
	i := strings.LastIndexByte(full[:end(full)], '/')
	j := strings.IndexByte(full[i+1:], '.')
	return full[:i+1+j], full[i+1+j+1:]
}

// end is where type arguments begin, which may contain anything.
func end(s string) int {
	if i := strings.IndexByte(s, '['); i >= 0 {
		return i
	}
	return len(s)
}
