package c13

import (
	"fmt"
	"math/rand"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"testing"

	"github.com/spacemonkeygo/monkit/v3"

	"verifh/src"
	"verifh/vh"
)

var kinds = append(append([]string(nil), src.Kinds...), "chain", "chain")

func word(r *rand.Rand) string {
	for {
		w := src.Word(r)
		switch w {
		case "function", "function_times", "scope", "name", "kind", "error_name", "sub":
			continue
		}
		return w
	}
}

type world struct {
	c      *vh.C
	reg    *monkit.Registry
	scopes map[string]*monkit.Scope
	srcs   []*src.Source
	taken  map[string]bool
}

func (w *world) scope(name string) *monkit.Scope {
	s := w.reg.ScopeNamed(name)
	w.scopes[name] = s
	return s
}

// compare checks one readout of the given scopes.
func (w *world) compare(got []src.Stat, only string, all bool) {
	c := w.c
	// the values by series; only chained sources can have some in common
	want := map[string][]float64{}
	for _, s := range w.srcs {
		if !all && s.Scope != only {
			continue
		}
		for _, e := range s.Expect() {
			want[e.ID(s.Scope)] = append(want[e.ID(s.Scope)], e.Val)
		}
	}
	lastScope := ""
	done := map[string]bool{}
	for i, st := range got {
		c.Events(1)
		id := st.ID()
		sc := st.Key.Tags.Get("scope")
		if i > 0 && sc != lastScope {
			if done[sc] || sc < lastScope {
				c.Fatalf("stats of scope %q come after those of scope %q", sc, lastScope)
			}
			done[lastScope] = true
		}
		lastScope = sc
		vals, ok := want[id]
		if !ok {
			c.Fatalf("reported but not expected: %s = %v", id, st.Val)
		}
		found := false
		for k, v := range vals {
			if src.IsAny(v) || src.Same(v, st.Val) {
				want[id] = append(append([]float64(nil), vals[:k]...), vals[k+1:]...)
				found = true
				break
			}
		}
		if !found {
			if len(vals) == 0 {
				c.Fatalf("reported once too often: %s", id)
			}
			c.Fatalf("%s is %v, should be %v", id, st.Val, vals)
		}
	}
	for id, left := range want {
		if len(left) > 0 {
			c.Fatalf("not reported: %s = %v", id, left)
		}
	}
}

func (w *world) checkAll() {
	c := w.c
	got := src.Read(w.reg)
	w.compare(got, "", true)
	for n, s := range w.scopes {
		w.compare(src.Read(s), n, false)
	}
	// as a map
	col := monkit.Collect(w.reg)
	text := map[string][]float64{}
	ids := map[string]bool{}
	plain := true
	for _, st := range got {
		t := st.Key.WithField(st.Field)
		text[t] = append(text[t], st.Val)
		ids[st.ID()] = true
		if strings.Contains(t, `\\`) || strings.Contains(st.ID(), `\\`) {
			plain = false
		}
	}
	if plain && len(text) != len(ids) {
		c.Fatalf("%d series have only %d different texts", len(ids), len(text))
	}
	if len(col) != len(text) {
		c.Fatalf("collected %d entries of %d stats", len(col), len(text))
	}
	for k, vals := range text {
		g, ok := col[k]
		for _, v := range vals {
			ok = ok && (len(vals) > 1 || src.Same(g, v) || strings.HasSuffix(k, " rate"))
		}
		if ok && len(vals) > 1 {
			ok = false
			for _, v := range vals {
				ok = ok || src.Same(g, v)
			}
		}
		if !ok {
			c.Fatalf("collected %q as %v, should be %v", k, g, vals)
		}
	}
	// enumerations
	var names []string
	w.reg.Scopes(func(s *monkit.Scope) {
		names = append(names, s.Name())
		if w.scopes[s.Name()] != s {
			c.Fatalf("scope %q is another object", s.Name())
		}
	})
	if !sort.StringsAreSorted(names) || len(names) != len(w.scopes) {
		c.Fatalf("scopes listed %q, there are %d", names, len(w.scopes))
	}
	for i := range names {
		if i > 0 && names[i] == names[i-1] {
			c.Fatalf("scope %q listed twice", names[i])
		}
	}
	wantF := map[string]int{}
	for _, s := range w.srcs {
		if s.Kind == "func" {
			wantF[s.Scope]++
		}
	}
	seen := map[*monkit.Func]bool{}
	total := 0
	w.reg.Funcs(func(f *monkit.Func) {
		if seen[f] {
			c.Fatalf("function %s listed twice", f.FullName())
		}
		seen[f] = true
		total++
	})
	sum := 0
	for n, s := range w.scopes {
		k := 0
		sn := map[*monkit.Func]bool{}
		s.Funcs(func(f *monkit.Func) {
			k++
			if !seen[f] || sn[f] || f.Scope() != s {
				c.Fatalf("function %s listed wrongly in scope %q", f.FullName(), n)
			}
			sn[f] = true
		})
		if k != wantF[n] {
			c.Fatalf("scope %q lists %d functions of %d", n, k, wantF[n])
		}
		sum += k
	}
	if sum != total {
		c.Fatalf("registry lists %d functions of %d", total, sum)
	}
}

// chain chains one of the library's own sources, maybe several times, maybe
// one whose series another source reports as well.
func (w *world) chain(s *monkit.Scope, name string) {
	r := w.c.Rng
	cn := monkit.NewCounter(monkit.NewSeriesKey(name))
	bv := monkit.NewBoolVal(monkit.NewSeriesKey(name))
	var n, trues float64
	both := monkit.StatSourceFunc(func(cb func(monkit.SeriesKey, string, float64)) {
		bv.Stats(cb)
		bv.Stats(cb)
	})
	cn.Set(0)
	var hi float64
	for i := 1 + r.Intn(2); i > 0; i-- {
		o := &src.Source{Kind: "chain", Scope: s.Name(), Update: func(r *rand.Rand) { cn.Inc(2); n += 2; hi = n }}
		switch r.Intn(3) {
		case 0:
			s.Chain(cn)
			o.Expect = func() []src.Exp {
				return []src.Exp{{name, nil, "high", hi}, {name, nil, "low", 0}, {name, nil, "value", n}}
			}
		case 1:
			s.Chain(both)
			o.Update = func(r *rand.Rand) { bv.Observe(true); trues++ }
			o.Expect = func() (es []src.Exp) {
				for i := 0; i < 2; i++ {
					rec := 0.
					if trues > 0 {
						rec = 1
					}
					es = append(es, src.Exp{name, nil, "disposition", trues}, src.Exp{name, nil, "false", 0},
						src.Exp{name, nil, "recent", rec}, src.Exp{name, nil, "true", trues})
				}
				return es
			}
		default:
			// a scope of another registry: its stats get this scope's name
			other := monkit.NewRegistry().ScopeNamed("other")
			other.Gauge(name, func() float64 { return n })
			if r.Intn(2) == 0 {
				s.Chain(other)
			} else {
				o2 := monkit.NewRegistry()
				o2.ScopeNamed("x").Chain(other)
				s.Chain(o2)
			}
			o.Expect = func() []src.Exp { return []src.Exp{{name, nil, "value", n}} }
		}
		w.srcs = append(w.srcs, o)
	}
}

func sequential(c *vh.C) {
	w := &world{c: c, reg: monkit.NewRegistry(), scopes: map[string]*monkit.Scope{}, taken: map[string]bool{}}
	var scopes []string
	for i := 0; i < 1+c.Rng.Intn(5); i++ {
		scopes = append(scopes, src.Word(c.Rng))
	}
	w.checkAll()
	steps := 10 + c.Rng.Intn(50)
	for i := 0; i < steps; i++ {
		switch x := c.Rng.Intn(10); {
		case x < 5 || len(w.srcs) == 0:
			sn := scopes[c.Rng.Intn(len(scopes))]
			s := w.scope(sn)
			kind := kinds[c.Rng.Intn(len(kinds))]
			name := word(c.Rng)
			tags := src.Tags(c.Rng, word)
			if kind == "gauge" || kind == "chain" {
				tags = nil
			}
			id := fmt.Sprintf("%q %v %q %q", sn, kind == "func", name, tags)
			if w.taken[id] && kind != "chain" {
				continue
			}
			w.taken[id] = true
			if kind == "chain" && c.Rng.Intn(3) == 0 {
				w.chain(s, name)
			} else {
				w.srcs = append(w.srcs, src.Make(s, kind, name, tags, c.Rng))
			}
			c.Sig(sn, kind, name)
			c.Logf("scope %q: new %s %q %q", sn, kind, name, tags)
		case x < 8:
			w.srcs[c.Rng.Intn(len(w.srcs))].Update(c.Rng)
		default:
			w.checkAll()
		}
	}
	w.checkAll()
}

// many sources of one kind, so that nothing depends on small maps
func many(c *vh.C) {
	w := &world{c: c, reg: monkit.NewRegistry(), scopes: map[string]*monkit.Scope{}, taken: map[string]bool{}}
	n := 200 + c.Rng.Intn(800)
	ns := 1 + c.Rng.Intn(60)
	for i := 0; i < n; i++ {
		kind := kinds[(i+c.Idx)%len(kinds)]
		s := src.Make(w.scope(fmt.Sprint("scope", c.Rng.Intn(ns))), kind, fmt.Sprint("n", i), nil, c.Rng)
		s.Update(c.Rng)
		w.srcs = append(w.srcs, s)
	}
	w.checkAll()
	c.Sig(n, ns, c.Idx)
}

type reg struct {
	id         string
	call, ret  int64
	inc        func()
	begun, end int64 // increments
	idx        int
	calls      []int64 // logical times of increments
	rets       []int64
}

// racing: registrations and updates race with readouts.
func racing(c *vh.C) {
	r := monkit.NewRegistry()
	var clock int64
	tick := func() int64 { return atomic.AddInt64(&clock, 1) }
	g := 2 + c.Rng.Intn(4)
	per := 5 + c.Rng.Intn(20)
	lists := make([][]*reg, g)
	var writers sync.WaitGroup
	nscopes := 1 + c.Rng.Intn(6)
	for i := 0; i < g; i++ {
		i := i
		rng := rand.New(rand.NewSource(c.Rng.Int63()))
		for k := 0; k < per; k++ {
			lists[i] = append(lists[i], &reg{idx: i*1000 + k})
		}
		writers.Add(1)
		go func() {
			defer writers.Done()
			for k, e := range lists[i] {
				sn := fmt.Sprint("s", rng.Intn(nscopes))
				name := fmt.Sprintf("n%d.%d", i, k)
				kind := rng.Intn(4)
				e.call = tick()
				s := r.ScopeNamed(sn)
				tags := map[string]string{"scope": sn}
				switch kind {
				case 0:
					m := s.Meter(name)
					e.id, e.inc = src.ID(name, tags, "total"), func() { m.Mark(1) }
				case 1:
					m := s.Counter(name, monkit.NewSeriesTag("t", "v"))
					tags["t"] = "v"
					e.id, e.inc = src.ID(name, tags, "value"), func() { m.Inc(1) }
				case 2:
					var n int64
					s.Gauge(name, func() float64 { return float64(atomic.LoadInt64(&n)) })
					e.id, e.inc = src.ID(name, tags, "value"), func() { atomic.AddInt64(&n, 1) }
				default:
					var n int64
					s.Chain(monkit.StatSourceFunc(func(cb func(monkit.SeriesKey, string, float64)) {
						cb(monkit.NewSeriesKey(name), "chained", float64(atomic.LoadInt64(&n)))
					}))
					e.id, e.inc = src.ID(name, tags, "chained"), func() { atomic.AddInt64(&n, 1) }
				}
				e.ret = tick()
				for x := rng.Intn(4); x > 0; x-- {
					p := lists[i][rng.Intn(k+1)]
					t := tick()
					p.inc()
					p.calls = append(p.calls, t)
					p.rets = append(p.rets, tick())
				}
			}
		}()
	}
	type readout struct {
		call, ret int64
		stats     map[string]float64
		dup       string
		order     string
		scopes    []string
		sret      int64
	}
	var stop int32
	outs := make([][]readout, 2)
	var readers sync.WaitGroup
	one := func(i int) {
		ro := readout{call: tick(), stats: map[string]float64{}}
		last := ""
		r.Stats(func(k monkit.SeriesKey, f string, v float64) {
			id := src.ID(k.Measurement, k.Tags.All(), f)
			if _, ok := ro.stats[id]; ok {
				ro.dup = id
			}
			ro.stats[id] = v
			if s := k.Tags.Get("scope"); s < last {
				ro.order = s + " after " + last
			} else {
				last = s
			}
		})
		ro.ret = tick()
		r.Scopes(func(s *monkit.Scope) { ro.scopes = append(ro.scopes, s.Name()) })
		outs[i] = append(outs[i], ro)
	}
	for i := range outs {
		i := i
		readers.Add(1)
		go func() {
			defer readers.Done()
			for atomic.LoadInt32(&stop) == 0 && len(outs[i]) < 300 {
				one(i)
			}
		}()
	}
	writers.Wait()
	atomic.StoreInt32(&stop, 1)
	readers.Wait()
	one(0)
	var all []*reg
	for _, l := range lists {
		all = append(all, l...)
	}
	partial := 0
	for _, os := range outs {
		for _, ro := range os {
			if ro.dup != "" {
				c.Fatalf("reported twice: %s", ro.dup)
			}
			if ro.order != "" {
				c.Fatalf("stats of scope %s", ro.order)
			}
			if !sort.StringsAreSorted(ro.scopes) {
				c.Fatalf("scopes in order %q", ro.scopes)
			}
			for i := range ro.scopes {
				if i > 0 && ro.scopes[i] == ro.scopes[i-1] {
					c.Fatalf("scope listed twice: %q", ro.scopes)
				}
			}
			got := 0
			for _, e := range all {
				c.Events(1)
				v, ok := ro.stats[e.id]
				if !ok && e.ret < ro.call {
					c.Fatalf("registered before the readout began but not reported: %s", e.id)
				}
				if ok && e.call > ro.ret {
					c.Fatalf("reported before it was registered: %s", e.id)
				}
				if !ok {
					continue
				}
				got++
				var lo, hi float64
				for k := range e.calls {
					if e.rets[k] < ro.call {
						lo++
					}
					if e.calls[k] < ro.ret {
						hi++
					}
				}
				if v < lo || v > hi {
					c.Fatalf("%s is %v, should be between %v and %v", e.id, v, lo, hi)
				}
			}
			if got < len(all) {
				partial++
			}
		}
	}
	c.Note("readouts_during_registration", int64(partial))
	c.Sig(g, per, len(outs[0]), len(outs[1]), partial, clock)
}

// funcs: functions registered while they are listed.
func funcs(c *vh.C) {
	r := monkit.NewRegistry()
	var reg int64
	var byIdx [200]*monkit.Func
	n := 20 + c.Rng.Intn(180)
	var wg sync.WaitGroup
	wg.Add(1)
	go func() {
		defer wg.Done()
		for i := 0; i < n; i++ {
			byIdx[i] = r.ScopeNamed(fmt.Sprint("s", i%7)).FuncNamed(fmt.Sprint("f", i))
			atomic.StoreInt64(&reg, int64(i+1))
		}
	}()
	sig := uint64(n)
	for {
		lo := int(atomic.LoadInt64(&reg))
		seen := map[*monkit.Func]bool{}
		r.Funcs(func(f *monkit.Func) {
			if seen[f] {
				c.Failf("function %s listed twice", f.FullName())
			}
			seen[f] = true
		})
		for i := 0; i < lo; i++ {
			if !seen[byIdx[i]] {
				c.Failf("function %d of %d registered ones is not listed", i, lo)
				break
			}
		}
		sig = sig*31 + uint64(len(seen))
		c.Events(len(seen))
		if lo == n || c.Failed() {
			break
		}
	}
	wg.Wait()
	c.SigN(sig)
}

// defaults: the package level functions are those of the default registry.
func defaults(c *vh.C) {
	name := fmt.Sprintf("default scope %d", c.Idx)
	s := monkit.ScopeNamed(name)
	if s != monkit.Default.ScopeNamed(name) {
		c.Failf("monkit.ScopeNamed gives another scope")
	}
	src.Make(s, "counter", "c", nil, c.Rng).Update(c.Rng)
	f := s.FuncNamed("f")
	key := func(stats []src.Stat) (out []string) {
		for _, st := range stats {
			out = append(out, st.ID())
		}
		sort.Strings(out)
		return out
	}
	a := key(src.Read(monkit.StatSourceFunc(monkit.Stats)))
	b := key(src.Read(monkit.Default))
	if fmt.Sprint(a) != fmt.Sprint(b) || !strings.Contains(fmt.Sprint(a), fmt.Sprintf("%q", name)) {
		c.Failf("monkit.Stats reports %q, the default registry %q", a, b)
	}
	nf, ns := 0, 0
	monkit.Funcs(func(g *monkit.Func) {
		if g == f {
			nf++
		}
	})
	monkit.Scopes(func(g *monkit.Scope) {
		if g == s {
			ns++
		}
	})
	if nf != 1 || ns != 1 {
		c.Failf("function listed %d times, scope %d times", nf, ns)
	}
	c.Events(len(a))
	c.Sig(len(a))
}

func TestCheck(t *testing.T) {
	vh.Main(t, "C13", func(h *vh.H) {
		h.Seq("big", h.N(10), big)
		h.Seq("sequential", h.N(500), sequential)
		h.Seq("many", h.N(12), many)
		h.Serial("defaults", h.N(5), defaults)
		h.Conc("racing", h.N(60), racing)
		h.Conc("functions", h.N(60), funcs)
	})
}
