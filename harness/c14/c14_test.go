package c14

import (
	"fmt"
	"math"
	"math/rand"
	"sort"
	"strings"
	"sync"
	"testing"

	"github.com/spacemonkeygo/monkit/v3"

	"verifh/src"
	"verifh/vh"
)

type cbf = func(monkit.SeriesKey, string, float64)

// tr is a transformer with a number; what it does depends on the number.
type tr struct {
	id    int
	style int
	state *int
}

const (
	mark   = iota // appends its number to the field
	tag           // adds a tag
	drop          // drops what a rule says
	double        // passes on twice
	state         // counts what it sees
	local         // counts what it sees in each readout
	styles
)

func (t tr) apply(in []src.Stat) (out []src.Stat) {
	for _, s := range in {
		switch t.style {
		case mark:
			s.Field += fmt.Sprintf("/%d", t.id)
			out = append(out, s)
		case tag:
			s.Key = s.Key.WithTag(fmt.Sprintf("t%d", t.id), s.Field)
			out = append(out, s)
		case drop:
			if len(s.Field)%3 != t.id%3 {
				out = append(out, s)
			}
		case double:
			out = append(out, s)
			s.Field += "'"
			out = append(out, s)
		case state, local:
			*t.state++
			s.Field += fmt.Sprintf("#%d", *t.state)
			out = append(out, s)
		}
	}
	return out
}

func (t tr) transform(cb cbf) cbf {
	if t.style == local {
		t.state = new(int)
	}
	return func(k monkit.SeriesKey, f string, v float64) {
		for _, s := range t.apply([]src.Stat{{Key: k, Field: f, Val: v}}) {
			cb(s.Key, s.Field, s.Val)
		}
	}
}

type trObj struct{ t tr }

func (o trObj) Transform(cb cbf) cbf { return o.t.transform(cb) }

func make1(r *rand.Rand, id int) (real monkit.CallbackTransformer, model tr) {
	style := r.Intn(styles)
	real0, model := tr{id, style, new(int)}, tr{id, style, new(int)}
	if r.Intn(2) == 0 {
		return monkit.CallbackTransformerFunc(real0.transform), model
	}
	return trObj{real0}, model
}

func expect(in []src.Stat, ts []tr) []src.Stat {
	// one stat at a time: states count in that order
	var out []src.Stat
	for _, t := range ts {
		if t.style == local {
			*t.state = 0
		}
	}
	for _, s := range in {
		cur := []src.Stat{s}
		cur = passAll(cur, ts)
		out = append(out, cur...)
	}
	return out
}

// passAll sends stats through the last transformer first, each result going
// all the way before the next one.
func passAll(in []src.Stat, ts []tr) (out []src.Stat) {
	if len(ts) == 0 {
		return in
	}
	last := ts[len(ts)-1]
	for _, s := range in {
		// results of one transformer go on one by one, but a transformer's own
		// work is done before
		for _, n := range last.apply([]src.Stat{s}) {
			out = append(out, passAll([]src.Stat{n}, ts[:len(ts)-1])...)
		}
	}
	return out
}

func show(l []src.Stat) string {
	var b strings.Builder
	for _, s := range l {
		fmt.Fprintf(&b, "%s=%v\n", s.ID(), s.Val)
	}
	return b.String()
}

func sorted(l []src.Stat) string {
	x := strings.Split(show(l), "\n")
	sort.Strings(x)
	return strings.Join(x, "\n")
}

// fixed is a source with fixed stats in fixed order.
func fixed(r *rand.Rand) monkit.StatSourceFunc {
	var l []src.Stat
	for i := 0; i < 1+r.Intn(6); i++ {
		k := monkit.NewSeriesKey(src.Word(r))
		if r.Intn(2) == 0 {
			k = k.WithTag("a", src.Word(r))
		}
		l = append(l, src.Stat{Key: k, Field: src.Word(r) + "total"[:5*r.Intn(2)], Val: float64(r.Intn(100))})
	}
	return func(cb func(monkit.SeriesKey, string, float64)) {
		for _, s := range l {
			cb(s.Key, s.Field, s.Val)
		}
	}
}

func compose(c *vh.C) {
	base := monkit.NewRegistry()
	type copyR struct {
		r  *monkit.Registry
		ts []tr
	}
	all := []*copyR{{r: base}}
	id := 0
	nsrc := 0
	add := func() {
		// through any copy
		r := all[c.Rng.Intn(len(all))].r
		// one source per scope, so that the order is known
		r.ScopeNamed(fmt.Sprintf("s%02d", nsrc)).Chain(fixed(c.Rng))
		nsrc++
	}
	add()
	check := func() {
		var plain []src.Stat
		base.Scopes(func(s *monkit.Scope) { plain = append(plain, src.Read(s)...) })
		for i, cr := range all {
			got := src.Read(cr.r)
			want := expect(plain, cr.ts)
			c.Events(len(got))
			if show(got) != show(want) {
				c.Fatalf("copy %d with %d transformers %+v reports\n%s should be\n%s", i, len(cr.ts), cr.ts, show(got), show(want))
			}
			n := 0
			cr.r.Scopes(func(*monkit.Scope) { n++ })
			if n != nsrc {
				c.Fatalf("copy %d has %d scopes of %d", i, n, nsrc)
			}
		}
	}
	for i := 0; i < 4+c.Rng.Intn(15); i++ {
		switch c.Rng.Intn(5) {
		case 0:
			add()
		case 1:
			check()
		default:
			from := all[c.Rng.Intn(len(all))]
			n := c.Rng.Intn(3)
			// room behind the slice, and the slice is used again afterwards
			reals := make([]monkit.CallbackTransformer, 0, 8)
			ts := append([]tr(nil), from.ts...)
			for k := 0; k < n; k++ {
				a, b := make1(c.Rng, id)
				id++
				reals = append(reals, a)
				ts = append(ts, b)
				c.Sig(b.style)
			}
			// states are shared along the chain of copies: they count in real
			// objects, so give every chain its own
			nr := from.r.WithTransformers(reals...)
			for k := range reals {
				reals[k] = monkit.CallbackTransformerFunc(func(cb cbf) cbf {
					return func(monkit.SeriesKey, string, float64) {}
				})
			}
			all = append(all, &copyR{nr, ts})
			c.Logf("copy %d of one with %d transformers, %d more", len(all)-1, len(from.ts), n)
		}
	}
	check()
	check()
	c.Sig(len(all), nsrc)
}

func source(c *vh.C) {
	var reals []monkit.CallbackTransformer
	var ts []tr
	for k := c.Rng.Intn(5); k > 0; k-- {
		a, b := make1(c.Rng, k)
		reals = append(reals, a)
		ts = append(ts, b)
		c.Sig(b.style, k)
	}
	f := fixed(c.Rng)
	s := monkit.TransformStatSource(f, reals...)
	for i := 0; i < 3; i++ {
		got, want := src.Read(s), expect(src.Read(f), ts)
		c.Events(len(got))
		if show(got) != show(want) {
			c.Fatalf("transformed source with %+v reports\n%s should be\n%s", ts, show(got), show(want))
		}
		c.Sig(show(want))
	}
	c.Logf("%d transformers", len(ts))
}

func noBackslash(r *rand.Rand) string {
	for {
		if w := src.Word(r); !strings.Contains(w, `\`) {
			return w
		}
	}
}

// deltas feeds series directly.
func deltas(c *vh.C) {
	n := 1 + c.Rng.Intn(3)
	dts := make([]*monkit.DeltaTransformer, n)
	last := make([]map[string]float64, n)
	for i := range dts {
		dts[i] = monkit.NewDeltaTransformer()
		last[i] = map[string]float64{}
	}
	keys := make([]monkit.SeriesKey, 1+c.Rng.Intn(8))
	for i := range keys {
		keys[i] = monkit.NewSeriesKey(noBackslash(c.Rng))
		for _, t := range src.Tags(c.Rng, noBackslash) {
			keys[i] = keys[i].WithTags(t)
		}
	}
	// and series that look a lot like those
	for _, k := range keys[:len(keys):len(keys)] {
		all := k.Tags.All()
		if len(all) == 0 || c.Rng.Intn(2) == 0 {
			continue
		}
		m := k.Measurement
		var rest []monkit.SeriesTag
		left := c.Rng.Intn(len(all))
		names := make([]string, 0, len(all))
		for t := range all {
			names = append(names, t)
		}
		sort.Strings(names)
		for i, t := range names {
			if i >= left {
				rest = append(rest, monkit.NewSeriesTag(t, all[t]))
				continue
			}
			m += "," + t + "=" + all[t]
		}
		keys = append(keys, monkit.NewSeriesKey(m).WithTags(rest...))
		if len(rest) > 0 {
			keys = append(keys, monkit.NewSeriesKey(k.Measurement).WithTag(names[0], all[names[0]]+","+strings.Join(names[1:], ",")))
		}
	}
	fields := []string{"total", "total", "total", "delta", "rate", "Total", "total ", "subtotal", "", "totals", "count"}
	var got []src.Stat
	cb := func(k monkit.SeriesKey, f string, v float64) { got = append(got, src.Stat{Key: k, Field: f, Val: v}) }
	var cbs []cbf
	for i := range dts {
		cbs = append(cbs, dts[i].Transform(cb))
	}
	for i := 0; i < 20+c.Rng.Intn(100); i++ {
		d := c.Rng.Intn(n)
		k, f := keys[c.Rng.Intn(len(keys))], fields[c.Rng.Intn(len(fields))]
		v := float64(c.Rng.Intn(1000) - 300)
		if c.Rng.Intn(20) == 0 {
			v = []float64{math.Inf(1), 1e18, -1e18, 0, math.NaN()}[c.Rng.Intn(5)]
		}
		got = nil
		fn := cbs[d]
		if c.Rng.Intn(3) == 0 {
			fn = dts[d].Transform(cb) // a new readout
		}
		fn(k, f, v)
		want := []src.Stat{{Key: k, Field: f, Val: v}}
		if f == "total" {
			id := src.Stat{Key: k}.ID()
			if l, ok := last[d][id]; ok {
				want = append(want, src.Stat{Key: k, Field: "delta", Val: v - l})
			}
			last[d][id] = v
		}
		c.Events(1)
		if show(got) != show(want) {
			c.Fatalf("step %d: transformer %d passes on\n%s should be\n%s", i, d, show(got), show(want))
		}
		c.Sig(d, f, v)
		c.Logf("%d: %s=%v", d, want[0].ID(), v)
	}
}

// real uses delta transformers on registries with real sources.
func real(c *vh.C) {
	reg := monkit.NewRegistry()
	d1, d2 := monkit.NewDeltaTransformer(), monkit.NewDeltaTransformer()
	r1, r2 := reg.WithTransformers(d1), reg.WithTransformers(d2)
	tr3 := monkit.TransformStatSource(reg, monkit.NewDeltaTransformer())
	var srcs []*src.Source
	type out struct {
		s    monkit.StatSource
		last map[string]float64
	}
	outs := []*out{{r1, map[string]float64{}}, {r2, map[string]float64{}}, {tr3, map[string]float64{}}}
	for i := 0; i < 10+c.Rng.Intn(30); i++ {
		switch c.Rng.Intn(4) {
		case 0:
			kind := []string{"func", "meter", "diffmeter", "counter", "bool"}[c.Rng.Intn(5)]
			s := src.Make(reg.ScopeNamed(fmt.Sprint("s", c.Rng.Intn(3))), kind, fmt.Sprint("n", i), nil, c.Rng)
			srcs = append(srcs, s)
			c.Sig(kind)
		case 1, 2:
			for k := 0; k < 5 && len(srcs) > 0; k++ {
				srcs[c.Rng.Intn(len(srcs))].Update(c.Rng)
			}
		default:
			plain := map[string]float64{}
			for _, s := range src.Read(reg) {
				plain[s.ID()] = s.Val
			}
			o := outs[c.Rng.Intn(len(outs))]
			got := src.Read(o.s)
			count := 0
			for k, s := range got {
				c.Events(1)
				if s.Field == "delta" {
					id := src.ID(s.Key.Measurement, s.Key.Tags.All(), "total")
					old, ok := o.last[id]
					if !ok || k == 0 || got[k-1].ID() != id || s.Val != plain[id]-old {
						c.Fatalf("delta of %s is %v, total went from %v to %v", id, s.Val, old, plain[id])
					}
					continue
				}
				count++
				v, ok := plain[s.ID()]
				if !ok || (!src.Same(v, s.Val) && s.Field != "rate") {
					c.Fatalf("%s is %v, should be %v", s.ID(), s.Val, v)
				}
				if s.Field == "total" {
					_, again := o.last[s.ID()]
					follows := k+1 < len(got) && got[k+1].Field == "delta" && src.ID(got[k+1].Key.Measurement, got[k+1].Key.Tags.All(), "total") == s.ID()
					if again != follows {
						c.Fatalf("total of %s with delta: %v, should be %v", s.ID(), follows, again)
					}
				}
			}
			if count != len(plain) {
				c.Fatalf("%d stats passed on of %d", count, len(plain))
			}
			for id, v := range plain {
				if strings.HasSuffix(id, ` "total"`) {
					o.last[id] = v
				}
			}
			c.Sig(count)
		}
	}
	c.Logf("%d sources", len(srcs))
}

// concurrent: one delta transformer used by several readouts at once.
func concurrent(c *vh.C) {
	dt := monkit.NewDeltaTransformer()
	g := 2 + c.Rng.Intn(5)
	nk := 1 + c.Rng.Intn(3)
	per := 5 + c.Rng.Intn(30)
	type obs struct {
		total  float64
		delta  float64
		has    bool
		broken string
	}
	res := make([][][]obs, g)
	var start sync.WaitGroup
	start.Add(1)
	for i := 0; i < g; i++ {
		i := i
		res[i] = make([][]obs, nk)
		r := rand.New(rand.NewSource(c.Rng.Int63()))
		c.Go(func() {
			start.Wait()
			var cur *obs
			cb := dt.Transform(func(k monkit.SeriesKey, f string, v float64) {
				switch {
				case f == "total" && !cur.has:
					if v != cur.total {
						cur.broken = "total changed"
					}
				case f == "delta" && !cur.has:
					cur.has, cur.delta = true, v
				default:
					cur.broken = "unexpected " + f
				}
			})
			for j := 0; j < per; j++ {
				k := r.Intn(nk)
				cur = &obs{total: float64(r.Intn(10000))}
				cb(monkit.NewSeriesKey(fmt.Sprint("k", k)), "total", cur.total)
				res[i][k] = append(res[i][k], *cur)
			}
		})
	}
	start.Done()
	c.Wait()
	for k := 0; k < nk; k++ {
		firsts := 0
		var first, sum float64
		any := false
		for i := range res {
			for _, o := range res[i][k] {
				any = true
				c.Events(1)
				if o.broken != "" {
					c.Fatalf("%s", o.broken)
				}
				if !o.has {
					firsts++
					first = o.total
				} else {
					sum += o.delta
				}
			}
		}
		if !any {
			continue
		}
		if firsts != 1 {
			c.Fatalf("%d readouts of one series had no delta, should be one", firsts)
		}
		var final float64
		dt.Transform(func(_ monkit.SeriesKey, f string, v float64) {
			if f == "delta" {
				final = v
			}
		})(monkit.NewSeriesKey(fmt.Sprint("k", k)), "total", 123456)
		if first+sum+final != 123456 {
			c.Fatalf("first total %v plus deltas %v is not the final total 123456", first, sum+final)
		}
		c.Sig(first, sum)
	}
	c.Sig(g, per)
}

// readouts of transformed registries at the same time don't mix
func parallel(c *vh.C) {
	reg := monkit.NewRegistry()
	var srcs []*src.Source
	for i := 0; i < 10; i++ {
		s := src.Make(reg.ScopeNamed(fmt.Sprint("s", i%3)), []string{"counter", "bool", "gauge", "struct"}[i%4], fmt.Sprint("n", i), nil, c.Rng)
		s.Update(c.Rng)
		srcs = append(srcs, s)
	}
	plain := src.Read(reg)
	var regs []*monkit.Registry
	var tss [][]tr
	cur, ts := reg, []tr(nil)
	for i := 0; i < 5; i++ {
		t := tr{i, c.Rng.Intn(state), nil}
		cur = cur.WithTransformers(monkit.CallbackTransformerFunc(t.transform))
		ts = append(append([]tr(nil), ts...), t)
		regs, tss = append(regs, cur), append(tss, ts)
		c.Sig(t.style)
	}
	for i := range regs {
		i := i
		want := sorted(expect(plain, tss[i]))
		c.Go(func() {
			for k := 0; k < 10; k++ {
				if got := sorted(src.Read(regs[i])); got != want {
					c.Failf("readout through %+v gives\n%s should be\n%s", tss[i], got, want)
					return
				}
				regs[i].WithTransformers(monkit.NewDeltaTransformer())
				c.Events(1)
			}
		})
	}
	c.Wait()
}

func TestCheck(t *testing.T) {
	vh.Main(t, "C14", func(h *vh.H) {
		h.Seq("big", h.N(10), big)
		h.Seq("registries", h.N(800), compose)
		h.Seq("sources", h.N(1500), source)
		h.Seq("deltas", h.N(1500), deltas)
		h.Seq("deltas of a registry", h.N(300), real)
		h.Conc("concurrent deltas", h.N(300), concurrent)
		h.Conc("concurrent readouts", h.N(60), parallel)
	})
}
