package c12

import (
	"context"
	"fmt"
	"math/rand"
	"strings"
	"sync"
	"testing"
	"time"

	"github.com/spacemonkeygo/monkit/v3"

	"verifh/src"
	"verifh/vh"
)

type ident struct {
	fn   bool
	name string
	tags string
}

func identity(kind, name string, tags []monkit.SeriesTag) ident {
	return ident{kind == "func", name, fmt.Sprintf("%q", tags)}
}

type entry struct {
	kind string
	obj  interface{}
}

func registries(c *vh.C) []*monkit.Registry {
	r := monkit.NewRegistry()
	id := monkit.CallbackTransformerFunc(func(f func(monkit.SeriesKey, string, float64)) func(monkit.SeriesKey, string, float64) { return f })
	return []*monkit.Registry{r, r.WithTransformers(id), r.WithTransformers(), r.WithTransformers(id).WithTransformers(id)}
}

// sequential compares with a map from kind, name and tags to objects.
func sequential(c *vh.C) {
	regs := registries(c)
	scopes := map[string]*monkit.Scope{}
	model := map[string]map[ident]entry{}
	seen := map[interface{}]string{} // every object stands for one thing only
	gauges := map[string]map[string]float64{}
	var scopeNames []string
	for i := 0; i < 1+c.Rng.Intn(4); i++ {
		scopeNames = append(scopeNames, src.Word(c.Rng))
	}
	words := make([]string, 2+c.Rng.Intn(8))
	for i := range words {
		words[i] = src.Word(c.Rng)
	}
	word := func(r *rand.Rand) string { return words[r.Intn(len(words))] }
	n := 30 + c.Rng.Intn(80)
	for i := 0; i < n; i++ {
		sn := scopeNames[c.Rng.Intn(len(scopeNames))]
		s := regs[c.Rng.Intn(len(regs))].ScopeNamed(sn)
		c.Events(1)
		if s.Name() != sn {
			c.Fatalf("scope asked for as %q is named %q", sn, s.Name())
		}
		if old := scopes[sn]; old != nil && old != s {
			c.Fatalf("asking for scope %q again gave another one", sn)
		}
		for n2, o := range scopes {
			if n2 != sn && o == s {
				c.Fatalf("scopes %q and %q are the same", n2, sn)
			}
		}
		scopes[sn] = s
		if model[sn] == nil {
			model[sn] = map[ident]entry{}
			gauges[sn] = map[string]float64{}
		}
		kind := src.Kinds[c.Rng.Intn(len(src.Kinds))]
		name := word(c.Rng)
		tags := src.Tags(c.Rng, word)
		if kind == "gauge" {
			tags = nil
		}
		// the caller's slice is its own
		given := append([]monkit.SeriesTag(nil), tags...)
		id := identity(kind, name, tags)
		e, exists := model[sn][id]
		c.Sig(sn, kind, name, id.tags)
		c.Logf("scope %q: %s %q %s", sn, kind, name, id.tags)
		var obj interface{}
		gval := float64(i)
		rec, panicked := vh.Catch(func() {
			if kind == "gauge" {
				s.Gauge(name, func() float64 { return gval })
				return
			}
			obj = src.Get(s, kind, name, given, c.Rng)
		})
		for k := range given {
			given[k] = monkit.NewSeriesTag("overwritten", "x")
		}
		if exists && e.kind != kind {
			if !panicked {
				c.Fatalf("asking for %s %q %s did not panic although it is a %s", kind, name, id.tags, e.kind)
			}
			if msg := fmt.Sprint(rec); !strings.Contains(msg, name) {
				c.Fatalf("the panic of asking for %q as something else doesn't name it: %s", name, msg)
			}
			continue
		}
		if panicked {
			c.Fatalf("asking for %s %q %s panicked: %v", kind, name, id.tags, rec)
		}
		if kind == "gauge" {
			gauges[sn][name] = gval
		}
		if !exists {
			if obj != nil {
				what := fmt.Sprintf("scope %q %s %q %s", sn, kind, name, id.tags)
				if other := seen[obj]; other != "" {
					c.Fatalf("%s is the same object as %s", what, other)
				}
				seen[obj] = what
			}
			model[sn][id] = entry{kind, obj}
		} else if e.obj != obj {
			c.Fatalf("asking for %s %q %s again gave another object", kind, name, id.tags)
		}
	}
	// all of it is still there, and gauges are the latest
	for sn, m := range model {
		s := scopes[sn]
		got := map[string][]float64{}
		for _, st := range src.Read(s) {
			if st.Field == "value" && st.Key.Tags.Len() == 1 {
				got[st.Key.Measurement] = append(got[st.Key.Measurement], st.Val)
			}
		}
		for g, v := range gauges[sn] {
			if len(got[g]) != 1 || got[g][0] != v {
				c.Fatalf("scope %q: gauge %q reports %v, should be %v", sn, g, got[g], v)
			}
		}
		for id, e := range m {
			if e.obj == nil {
				continue
			}
			if f, ok := e.obj.(*monkit.Func); ok {
				if f.Scope() != s {
					c.Fatalf("function %q is in scope %q", id.name, f.Scope().Name())
				}
			}
		}
	}
}

// racing: goroutines ask for the same sources for the first time at once.
func racing(c *vh.C) {
	regs := registries(c)
	g := 3 + c.Rng.Intn(6)
	type ask struct {
		scope, kind, name string
		tags              []monkit.SeriesTag
	}
	words := []string{src.Word(c.Rng), src.Word(c.Rng), "x"}
	word := func(r *rand.Rand) string { return words[r.Intn(len(words))] }
	asks := make([]ask, 2+c.Rng.Intn(8))
	for i := range asks {
		asks[i] = ask{scope: word(c.Rng), kind: src.Kinds[c.Rng.Intn(len(src.Kinds)-1)], name: word(c.Rng), tags: src.Tags(c.Rng, word)}
		if i > 0 && c.Rng.Intn(3) == 0 {
			k := asks[i].kind
			asks[i] = asks[i-1] // a conflict unless it is the same kind
			asks[i].kind = k
		}
	}
	type result struct {
		obj      interface{}
		scope    *monkit.Scope
		panicked bool
		rec      interface{}
	}
	results := make([][]result, g)
	perms := make([][]int, g)
	for i := range perms {
		perms[i] = c.Rng.Perm(len(asks))
		if c.Rng.Intn(2) == 0 && i > 0 {
			perms[i] = perms[0]
		}
	}
	var start sync.WaitGroup
	start.Add(1)
	for i := 0; i < g; i++ {
		i := i
		results[i] = make([]result, len(asks))
		reg := regs[c.Rng.Intn(len(regs))]
		c.Go(func() {
			start.Wait()
			for _, k := range perms[i] {
				a, r := asks[k], &results[i][k]
				r.scope = reg.ScopeNamed(a.scope)
				r.rec, r.panicked = vh.Catch(func() {
					r.obj = src.Get(r.scope, a.kind, a.name, a.tags, nil)
					// using it is safe right away
					switch o := r.obj.(type) {
					case *monkit.Func:
						ctx := context.Background()
						o.Task(&ctx)(nil)
					case *monkit.Meter:
						o.Mark(1)
					case *monkit.IntVal:
						o.Observe(1)
					case *monkit.Counter:
						o.Inc(1)
					}
				})
			}
		})
	}
	start.Done()
	c.Wait()
	type place struct {
		scope string
		id    ident
	}
	byPlace := map[place][]int{}
	for k, a := range asks {
		p := place{a.scope, identity(a.kind, a.name, a.tags)}
		byPlace[p] = append(byPlace[p], k)
	}
	scopeOf := map[string]*monkit.Scope{}
	objs := map[interface{}]place{}
	sig := []interface{}{}
	for p, ks := range byPlace {
		won := ""
		var obj interface{}
		uses := 0
		for _, k := range ks {
			for i := 0; i < g; i++ {
				r := results[i][k]
				c.Events(1)
				if old := scopeOf[p.scope]; old != nil && old != r.scope {
					c.Fatalf("asking for scope %q gave different objects", p.scope)
				}
				scopeOf[p.scope] = r.scope
				if r.panicked {
					continue
				}
				if won != "" && won != asks[k].kind {
					c.Fatalf("%q is both a %s and a %s", p.id.name, won, asks[k].kind)
				}
				if won != "" && obj != r.obj {
					c.Fatalf("asking for %s %q %s gave different objects", won, p.id.name, p.id.tags)
				}
				won, obj = asks[k].kind, r.obj
				uses++
			}
		}
		if won == "" {
			c.Fatalf("nobody got %q", p.id.name)
		}
		sig = append(sig, won)
		for _, k := range ks {
			for i := 0; i < g; i++ {
				if r := results[i][k]; r.panicked && asks[k].kind == won {
					c.Fatalf("asking for %s %q panicked: %v", won, p.id.name, r.rec)
				}
			}
		}
		if obj != nil {
			if q, ok := objs[obj]; ok {
				c.Fatalf("%v and %v are the same object", p, q)
			}
			objs[obj] = p
			total := -1.0
			switch o := obj.(type) {
			case *monkit.Func:
				total = float64(o.Success())
			case *monkit.Meter:
				total = o.Total()
			case *monkit.Counter:
				total = float64(o.Current())
			}
			if total >= 0 && total != float64(uses) {
				c.Fatalf("%s %q was used %d times but has %v", won, p.id.name, uses, total)
			}
		}
		// and the scope is still usable
		a := asks[ks[0]]
		if got := src.Get(scopeOf[p.scope], won, a.name, a.tags, nil); got != obj {
			c.Fatalf("asking for %s %q later gave another object", won, p.id.name)
		}
	}
	if len(scopeOf) > 1 {
		seen := map[*monkit.Scope]string{}
		for n, s := range scopeOf {
			if o, ok := seen[s]; ok {
				c.Fatalf("scopes %q and %q are the same", n, o)
			}
			seen[s] = n
		}
	}
	c.Sig(asks, perms, len(sig))
}

// usable: after a conflict panics, every kind of use of the scope still works
// (the watchdog notices if it doesn't).
func usable(c *vh.C) {
	reg := monkit.NewRegistry()
	s := reg.ScopeNamed("s")
	for i, first := range src.Kinds {
		for j, second := range src.Kinds {
			if first == second || first == "func" || second == "func" {
				continue
			}
			name := fmt.Sprintf("n%d.%d", i, j)
			src.Get(s, first, name, nil, nil)
			if _, p := vh.Catch(func() { src.Get(s, second, name, nil, nil) }); !p {
				c.Fatalf("asking for %s as %s did not panic", first, second)
			}
			done := make(chan struct{})
			go func() {
				defer close(done)
				src.Get(s, first, name, nil, nil)
				src.Get(s, "counter", "c"+name, nil, nil)
				s.Gauge("g", func() float64 { return 1 })
				s.Chain(monkit.StatSourceFunc(func(func(monkit.SeriesKey, string, float64)) {}))
				src.Read(s)
				s.Funcs(func(*monkit.Func) {})
				reg.Stats(func(monkit.SeriesKey, string, float64) {})
			}()
			vh.Await(c, done, fmt.Sprintf("using the scope after asking for a %s as %s", first, second))
			c.Events(1)
			c.Sig(first, second)
		}
	}
}

// gaugeRace: a gauge that is replaced while others read shows one of its
// values, and the last one in the end.
func gaugeRace(c *vh.C) {
	s := monkit.NewRegistry().ScopeNamed("s")
	s.Gauge("g", func() float64 { return 0 })
	n := 20
	var wg sync.WaitGroup
	stop := make(chan struct{})
	wg.Add(1)
	go func() {
		defer wg.Done()
		last := 0.0
		for {
			select {
			case <-stop:
				return
			default:
			}
			st := src.Read(s)
			if len(st) != 1 || st[0].Val < last || st[0].Val > float64(n) {
				c.Failf("gauge reports %v after %v", st, last)
				return
			}
			last = st[0].Val
			c.Events(1)
		}
	}()
	for i := 1; i <= n; i++ {
		v := float64(i)
		s.Gauge("g", func() float64 { return v })
		if st := src.Read(s); len(st) != 1 || st[0].Val != v {
			c.Failf("gauge registered again reports %v, should be %v", st, v)
		}
	}
	close(stop)
	wg.Wait()
	c.SigN(uint64(c.Idx))
}

// tagLists asks for very many similar names and tag lists, which have to be
// told apart however the library represents them.
func tagLists(c *vh.C) {
	s := monkit.NewRegistry().ScopeNamed("s")
	alphabet := []string{",12a", "1,", "=,a", `\,=a`, ":a", "\x00a1", "0123456789,", "a\xff", "af:,unc"}[c.Idx%9]
	word := func(n int) string {
		b := make([]byte, c.Rng.Intn(n))
		for i := range b {
			b[i] = alphabet[c.Rng.Intn(len(alphabet))]
		}
		return string(b)
	}
	type key struct {
		fn   bool
		name string
		k, v [3]string
		n    int
	}
	byKey := map[key]interface{}{}
	byObj := map[interface{}]key{}
	for i := 0; i < 4000; i++ {
		var k key
		k.fn = c.Rng.Intn(3) == 0
		k.name = word(3)
		k.n = c.Rng.Intn(4)
		var tags []monkit.SeriesTag
		for j := 0; j < k.n; j++ {
			k.k[j], k.v[j] = word(5), word(7)
			if j > 0 && k.k[j] <= k.k[j-1] {
				k.k[j], k.v[j], k.n = "", "", j
				break
			}
			tags = append(tags, monkit.NewSeriesTag(k.k[j], k.v[j]))
		}
		var obj interface{}
		if k.fn {
			obj = s.FuncNamed(k.name, tags...)
		} else {
			obj = s.Counter(k.name, tags...)
		}
		c.Events(1)
		if old, ok := byKey[k]; ok && old != obj {
			c.Fatalf("asking for %+q again gave another object", k)
		}
		if other, ok := byObj[obj]; ok && other != k {
			c.Fatalf("%+q and %+q are the same object", k, other)
		}
		byKey[k], byObj[obj] = obj, k
	}
	c.SigN(uint64(c.Idx))
	c.Note("distinct sources told apart", int64(len(byObj)))
}

func taskOf(m *monkit.Scope, tags []monkit.SeriesTag) monkit.Task { return m.Task(tags...) }

func useTask(t monkit.Task, ctx *context.Context) { t(ctx, 1, "x")(nil) }

// taskFuncs: the function of a task is the one that its spans have, and asking
// for it is not a call.
func taskFuncs(c *vh.C) {
	reg := monkit.NewRegistry()
	s := reg.ScopeNamed(vh.Nasty(c.Rng))
	word := func(r *rand.Rand) string { return vh.Nasty(r) }
	spans := 0
	reg.ObserveTraces(func(t *monkit.Trace) { t.ObserveSpans(counting{&spans}) })
	tags := src.Tags(c.Rng, word)
	name := vh.Nasty(c.Rng)
	named := s.FuncNamed(name, tags...)
	var anon *monkit.Func
	tasks := map[string]monkit.Task{
		"TaskNamed":        s.TaskNamed(name, tags...),
		"Func.Task":        named.Task,
		"Func.ResetTrace":  named.ResetTrace,
		"Task of TaskFunc": s.TaskNamed(name, tags...).Func().Task,
		"Scope.Task":       taskOf(s, tags),
	}
	order := []string{"TaskNamed", "Func.Task", "Func.ResetTrace", "Task of TaskFunc", "Scope.Task"}
	uses := map[*monkit.Func]int64{}
	total := 0
	for i := 0; i < 25; i++ {
		k := order[c.Rng.Intn(len(order))]
		t := tasks[k]
		c.Sig(k, i)
		if c.Rng.Intn(2) == 0 || (k == "Scope.Task" && anon == nil) {
			ctx := context.Background()
			c.Events(1)
			useTask(t, &ctx)
			f := monkit.SpanFromCtx(ctx).Func()
			if k == "Scope.Task" {
				if anon == nil {
					anon = f
				}
				if f != anon || f == named {
					c.Fatalf("%s: its span's function is %v", k, f)
				}
			} else if f != named {
				c.Fatalf("%s: its span's function is %v", k, f)
			}
			uses[f]++
			total++
		}
		want := named
		if k == "Scope.Task" {
			want = anon
		}
		if got := t.Func(); got != want {
			c.Fatalf("%s: Func() = %p, its spans have %p", k, got, want)
		}
		for f, n := range uses {
			if f.Success() != n || f.Current() != 0 {
				c.Fatalf("%s: %d calls counted, %d current, made %d", k, f.Success(), f.Current(), n)
			}
		}
		if spans != total {
			c.Fatalf("%d spans seen, %d made", spans, total)
		}
	}
	// something else with that signature is not a task
	ran := 0
	for _, f := range []func(*context.Context, ...interface{}) func(*error){
		func(ctx *context.Context, args ...interface{}) func(*error) { ran++; return nil },
		func(ctx *context.Context, args ...interface{}) func(*error) { ran++; return func(*error) {} },
		func(ctx *context.Context, args ...interface{}) func(*error) { return named.Task(nil) },
	} {
		if _, panicked := vh.Catch(func() { monkit.Task(f).Func() }); !panicked {
			c.Fatalf("asking a function that isn't a task for its Func did not panic")
		}
	}
}

type counting struct{ n *int }

func (o counting) Start(*monkit.Span)                          { *o.n++ }
func (o counting) Finish(*monkit.Span, error, bool, time.Time) {}

func TestCheck(t *testing.T) {
	vh.Main(t, "C12", func(h *vh.H) {
		h.Seq("big", h.N(16), big)
		h.Seq("sequential", h.N(1500), sequential)
		h.Seq("after conflicts", 1, usable)
		h.Seq("tag lists", h.N(60), tagLists)
		h.Seq("functions of tasks", h.N(300), taskFuncs)
		h.Conc("racing", h.N(500), racing)
		h.Conc("gauges", h.N(30), gaugeRace)
	})
}
