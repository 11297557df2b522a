// Package c31 compares names with those of the functions that asked for them.
package c31

import (
	"context"
	"fmt"
	"strings"
	"sync"
	"testing"

	"github.com/spacemonkeygo/monkit/v3"

	"verifh/c31/env"
	"verifh/vh"
)

type pkg struct {
	path    string
	entries []func(e *env.Env)
}

// generated is filled by code that each run of the check writes anew.
var generated []pkg

var scopeNames = []string{"s", "github.com/x/y", "", "with.dots", "sp ace", "Ünï"}

// unescape undoes what the linker does to the dots of a package's last
// path element, once or, in functions inlined into functions, several times.
func unescape(pkg string) string {
	for strings.Contains(pkg, "%25") {
		pkg = strings.ReplaceAll(pkg, "%25", "%")
	}
	return strings.ReplaceAll(pkg, "%2e", ".")
}

func check(c *vh.C, path string, e *env.Env) {
	for _, r := range e.Out {
		gotPkg, want := env.Split(r.Want)
		if r.Pkg {
			c.Logf("%s in %s: %s", r.Form, r.Want, r.Got)
			if r.Got != gotPkg && r.Got != path {
				c.Fatalf("%s in %s gives the scope %q", r.Form, r.Want, r.Got)
			}
			c.Sig(r.Form, r.Got)
			continue
		}
		c.Logf("%s in %s: %s", r.Form, r.Want, r.Got)
		if path != "" && unescape(gotPkg) != path && !strings.HasPrefix(r.Want, "another") {
			c.Fatalf("the harness is confused: %s is not in %s", r.Want, path)
		}
		if r.Got != want {
			c.Fatalf("%s in %s is named %q, not %q", r.Form, r.Want, r.Got, want)
		}
		if r.Lit != "" && r.Got != r.Lit {
			c.Fatalf("%s in %s is named %q, not %q", r.Form, r.Want, r.Got, r.Lit)
		}
		if r.Full != r.Sc+"."+r.Got {
			c.Fatalf("%s of scope %q has the full name %q", r.Got, r.Sc, r.Full)
		}
		c.Sig(r.Form, want)
	}
	c.Events(len(e.Out))
}

// shapes runs generated functions.
func shapes(c *vh.C) {
	p := generated[c.Idx%len(generated)]
	e := env.New(scopeNames[c.Rng.Intn(len(scopeNames))])
	order := c.Rng.Perm(len(p.entries))
	if c.Rng.Intn(2) == 0 {
		order = order[:1+c.Rng.Intn(len(order))]
	}
	for _, i := range order {
		e.Depth = 0
		p.entries[i](e)
	}
	check(c, p.path, e)
}

// functions for the rest

type impl struct{ n int }

//go:noinline
func useA(ctx *context.Context, t monkit.Task) func(*error) { return t(ctx) }
func useB(ctx *context.Context, t monkit.Task) func(*error) { return t(ctx, 1) }
func (i *impl) useC(ctx *context.Context, t monkit.Task) func(*error) {
	return t(ctx)
}
func (i impl) useD(ctx *context.Context, t monkit.Task) func(*error) { return t(ctx) }
func useE[T any](ctx *context.Context, t monkit.Task, x T) func(*error) {
	return t(ctx, x)
}

var useF = func(ctx *context.Context, t monkit.Task) func(*error) { return t(ctx) }

var users = []struct {
	name string
	f    func(ctx *context.Context, t monkit.Task) func(*error)
}{
	{"useA", useA},
	{"useB", useB},
	{"(*impl).useC", (&impl{}).useC},
	{"impl.useD", impl{}.useD},
	{"useE[...]", func(ctx *context.Context, t monkit.Task) func(*error) { return useE(ctx, t, 3) }},
	{"useE[...]", func(ctx *context.Context, t monkit.Task) func(*error) { return useE(ctx, t, "x") }},
	{"init.func", useF},
}

func named(got, want string) bool {
	return got == want || want == "init.func" && (strings.HasPrefix(got, "init.func") || strings.HasPrefix(got, "glob..func"))
}

// first has several functions use the same tasks, at once or in turn.
func first(c *vh.C) {
	r := c.Rng
	reg := monkit.NewRegistry()
	sc := reg.ScopeNamed(scopeNames[r.Intn(len(scopeNames))])
	var tags []monkit.SeriesTag
	if r.Intn(3) == 0 {
		tags = append(tags, monkit.NewSeriesTag("k", "v"))
	}
	t := sc.Task(tags...)
	n := 2 + r.Intn(6)
	racing := r.Intn(3) > 0
	var mtx sync.Mutex
	var fns []*monkit.Func
	var names []string
	possible := map[string]bool{}
	start := make(chan struct{})
	for g := 0; g < n; g++ {
		u := users[r.Intn(len(users))]
		do := func() {
			ctx := context.Background()
			x := u.f(&ctx, t)
			f := monkit.SpanFromCtx(ctx).Func()
			x(nil)
			mtx.Lock()
			fns = append(fns, f)
			names = append(names, u.name)
			possible[u.name] = true
			mtx.Unlock()
			if t.Func() != f {
				c.Failf("the task's function changed")
			}
		}
		if racing {
			c.Go(func() { <-start; do() })
		} else {
			do()
		}
	}
	close(start)
	c.Wait()
	if c.Failed() {
		return
	}
	for _, f := range fns {
		if f != fns[0] {
			c.Fatalf("one task counts in %s and %s", f.FullName(), fns[0].FullName())
		}
	}
	got := fns[0].ShortName()
	c.Logf("used by %v: named %s", names, got)
	ok := false
	for name := range possible {
		if named(got, name) && (racing || named(got, names[0])) {
			ok = true
		}
	}
	if !ok {
		c.Fatalf("a task used by %v (in parallel: %v) is named %s", names, racing, got)
	}
	if fns[0].FullName() != sc.Name()+"."+got {
		c.Fatalf("the full name of %s in %s is %s", got, sc.Name(), fns[0].FullName())
	}
	if sc.FuncNamed(got, tags...) != fns[0] {
		c.Fatalf("the function named %s is another one", got)
	}
	if fns[0].Success() != int64(n) {
		c.Fatalf("%d uses are counted as %d", n, fns[0].Success())
	}
	if other := sc.Task(tags...); true {
		ctx := context.Background()
		x := useA(&ctx, other)
		x(nil)
		if f := monkit.SpanFromCtx(ctx).Func(); f.ShortName() != "useA" || (f == fns[0]) != (got == "useA") {
			c.Fatalf("another task used by useA is named %s", f.ShortName())
		}
	}
	c.Events(n)
	c.Sig(n, got, racing)
}

// given checks names that users chose.
func given(c *vh.C) {
	r := c.Rng
	reg := monkit.NewRegistry()
	sname, fname := vh.Nasty(r), vh.Nasty(r)
	sc := reg.ScopeNamed(sname)
	f := sc.FuncNamed(fname)
	if sc.Name() != sname || f.ShortName() != fname || f.FullName() != sname+"."+fname || f.Scope() != sc {
		c.Fatalf("%q of %q is named %q, %q", fname, sname, f.ShortName(), f.FullName())
	}
	if reg.ScopeNamed(sname) != sc || sc.FuncNamed(fname) != f {
		c.Fatalf("%q of %q is another one when asked for again", fname, sname)
	}
	t := sc.TaskNamed(fname)
	ctx := context.Background()
	t(&ctx)(nil)
	if t.Func() != f || monkit.SpanFromCtx(ctx).Func() != f {
		c.Fatalf("a task named %q has another function", fname)
	}
	c.Events(3)
	c.Sig(sname, fname)
}

// own checks this package's own scope, and wrappers around Package.
var own = monkit.Package()
var ownByFunc = func() *monkit.Scope { return monkit.Package() }()

func wrapped() *monkit.Scope                                  { return monkit.Package() }
func wrappedTwice() *monkit.Scope                             { return wrapped() }
func wrappedGeneric[T any](T) *monkit.Scope                   { return monkit.Package() }
func (*impl) wrappedMethod() *monkit.Scope                    { return monkit.Package() }
func (impl) wrappedRegistry(r *monkit.Registry) *monkit.Scope { return r.Package() }

func packages(c *vh.C) {
	const want = "verifh/c31"
	reg := monkit.NewRegistry()
	for i, s := range []*monkit.Scope{own, ownByFunc, wrapped(), wrappedTwice(), wrappedGeneric(3), wrappedGeneric("x"), (&impl{}).wrappedMethod(),
		impl{}.wrappedRegistry(reg), reg.Package(), monkit.Default.Package(), monkit.ScopeNamed(want)} {
		if s.Name() != want {
			c.Fatalf("package scope %d is named %q", i, s.Name())
		}
	}
	var wg sync.WaitGroup
	for i := 0; i < 8; i++ {
		i := i
		wg.Add(1)
		go func() {
			defer wg.Done()
			defer func() {
				if s := monkit.Package(); s != own {
					c.Failf("%d: the package scope is %q", i, s.Name())
				}
			}()
			if s := monkit.Package(); s != own {
				c.Failf("%d: the package scope is %q", i, s.Name())
			}
		}()
	}
	wg.Wait()
	c.Events(27)
	c.Sig("packages", fmt.Sprint(c.Idx%2))
}

func TestCheck(t *testing.T) {
	h := vh.New(t, "C31")
	if len(generated) == 0 {
		t.Fatal("nothing generated")
	}
	h.Seq("shapes", max(10*len(generated), h.N(20*len(generated))), shapes)
	h.ConcPar("first", h.N(1500), first)
	h.Seq("given", h.N(1000), given)
	h.Seq("packages", h.N(20), packages)
	h.Finish()
}
