package c09

import (
	"fmt"
	"math"
	"math/rand"
	"sync"
	"sync/atomic"
	"testing"
	"time"

	"github.com/anishathalye/porcupine"
	"github.com/spacemonkeygo/monkit/v3"

	"verifh/vh"
)

// snap is a stats readout in terms of what was observed.
type snap struct {
	count, sum, min, max, recent float64
	bad                          string
}

func read(s monkit.StatSource) (r snap) {
	n := map[string]int{}
	m := map[string]float64{}
	s.Stats(func(k monkit.SeriesKey, field string, val float64) {
		n[field]++
		m[field] = val
	})
	need := []string{"count"}
	if m["count"] != 0 {
		need = append(need, "sum", "min", "max", "recent")
	}
	for _, f := range need {
		if n[f] == 0 {
			r.bad = fmt.Sprintf("field %s is missing: %v", f, m)
			return r
		}
	}
	for f, k := range n {
		if k != 1 {
			r.bad = fmt.Sprintf("field %s reported %d times", f, k)
			return r
		}
	}
	return snap{count: m["count"], sum: m["sum"], min: m["min"], max: m["max"], recent: m["recent"]}
}

// feq allows for another way to convert durations to seconds.
func feq(a, b float64) bool {
	return a == b || (math.IsNaN(a) && math.IsNaN(b)) || math.Abs(a-b) <= 1e-15*math.Abs(a)
}

func (s snap) eq(o snap) bool {
	return s.bad == "" && o.bad == "" && feq(s.count, o.count) && feq(s.sum, o.sum) && feq(s.min, o.min) && feq(s.max, o.max) && feq(s.recent, o.recent)
}

// kind wraps one sort of value; T is what it observes.
type kind[T int64 | float64 | time.Duration] struct {
	name    string
	mk      func(c *vh.C) (monkit.StatSource, func(T))
	mkDist  func() dist[T]
	val     func(r *rand.Rand) T
	toFloat func(T) float64
}

type dist[T any] struct {
	src    monkit.StatSource
	insert func(T)
	fields func() (count int64, sum, low, high, recent, avg T)
	reset  func()
	copy   func() dist[T]
}

type ref[T int64 | float64 | time.Duration] struct {
	count                  int64
	sum, low, high, recent T
	first                  T
}

func (r *ref[T]) add(v T) {
	if r.count == 0 {
		r.first = v
	}
	if r.count == 0 || v < r.low {
		r.low = v
	}
	if r.count == 0 || v > r.high {
		r.high = v
	}
	r.count++
	r.sum += v
	r.recent = v
}

// unordered tells that the first value was NaN, so that what is lowest and
// highest is undefined.
func (r *ref[T]) unordered() bool { return r.first != r.first }

func same[T int64 | float64 | time.Duration](a, b T) bool { return a == b || a != a && b != b }

func (r *ref[T]) snap(f func(T) float64) snap {
	return snap{count: float64(r.count), sum: f(r.sum), min: f(r.low), max: f(r.high), recent: f(r.recent)}
}

func smallInt(r *rand.Rand) int64 {
	switch r.Intn(6) {
	case 0:
		return []int64{0, 1, -1, 1 << 40, -(1 << 40), 1<<53 + 1, 1 << 55, -(1 << 55), 1<<24 + 1, math.MaxInt32, math.MinInt32}[r.Intn(11)]
	case 1:
		return int64(r.Intn(5))
	default:
		return int64(r.Intn(4000)) - 2000
	}
}

func intDist(d *monkit.IntDist) dist[int64] {
	return dist[int64]{src: d, insert: d.Insert,
		fields: func() (int64, int64, int64, int64, int64, int64) {
			return d.Count, d.Sum, d.Low, d.High, d.Recent, d.FullAverage()
		},
		reset: d.Reset, copy: func() dist[int64] { return intDist(d.Copy()) }}
}

func floatDist(d *monkit.FloatDist) dist[float64] {
	return dist[float64]{src: d, insert: d.Insert,
		fields: func() (int64, float64, float64, float64, float64, float64) {
			return d.Count, d.Sum, d.Low, d.High, d.Recent, d.FullAverage()
		},
		reset: d.Reset, copy: func() dist[float64] { return floatDist(d.Copy()) }}
}

func durDist(d *monkit.DurationDist) dist[time.Duration] {
	return dist[time.Duration]{src: d, insert: d.Insert,
		fields: func() (int64, time.Duration, time.Duration, time.Duration, time.Duration, time.Duration) {
			return d.Count, d.Sum, d.Low, d.High, d.Recent, d.FullAverage()
		},
		reset: d.Reset, copy: func() dist[time.Duration] { return durDist(d.Copy()) }}
}

var key = monkit.NewSeriesKey("m").WithTag("name", "x")

func scope() *monkit.Scope { return monkit.NewRegistry().ScopeNamed("s") }

var ints = kind[int64]{
	name: "int",
	mk: func(c *vh.C) (monkit.StatSource, func(int64)) {
		if c.Rng.Intn(2) == 0 {
			v := monkit.NewIntVal(key)
			return v, v.Observe
		}
		v := scope().IntVal("v")
		return v, v.Observe
	},
	mkDist:  func() dist[int64] { return intDist(monkit.NewIntDist(key)) },
	val:     smallInt,
	toFloat: func(v int64) float64 { return float64(v) },
}

var floats = kind[float64]{
	name: "float",
	mk: func(c *vh.C) (monkit.StatSource, func(float64)) {
		if c.Rng.Intn(2) == 0 {
			v := monkit.NewFloatVal(key)
			return v, v.Observe
		}
		v := scope().FloatVal("v")
		return v, v.Observe
	},
	mkDist: func() dist[float64] { return floatDist(monkit.NewFloatDist(key)) },
	val: func(r *rand.Rand) float64 {
		switch r.Intn(10) {
		case 0:
			return []float64{0, math.Copysign(0, -1), math.MaxFloat64, -math.MaxFloat64, math.SmallestNonzeroFloat64,
				math.Inf(1), math.Inf(-1), 1e300, 0.1, 1e-300, math.MaxFloat32 * 2, math.NaN()}[r.Intn(12)]
		case 1:
			return r.NormFloat64() * math.Pow(10, float64(r.Intn(30)-15))
		default:
			return float64(smallInt(r)) / 8
		}
	},
	toFloat: func(v float64) float64 { return v },
}

var durs = kind[time.Duration]{
	name: "duration",
	mk: func(c *vh.C) (monkit.StatSource, func(time.Duration)) {
		if c.Rng.Intn(2) == 0 {
			v := monkit.NewDurationVal(key)
			return v, v.Observe
		}
		v := scope().DurationVal("v")
		return v, v.Observe
	},
	mkDist:  func() dist[time.Duration] { return durDist(monkit.NewDurationDist(key)) },
	val:     func(r *rand.Rand) time.Duration { return time.Duration(smallInt(r)) * time.Duration(1+r.Intn(40)) },
	toFloat: func(v time.Duration) float64 { return v.Seconds() },
}

func count(r *rand.Rand) int {
	switch r.Intn(4) {
	case 0:
		return r.Intn(5)
	case 1:
		return 60 + r.Intn(10)
	case 2:
		return 1000 + r.Intn(300)
	default:
		return r.Intn(200)
	}
}

func seqVal[T int64 | float64 | time.Duration](k kind[T]) func(c *vh.C) {
	return func(c *vh.C) {
		src, obs := k.mk(c)
		var m ref[T]
		check := func() {
			c.Events(1)
			got, want := read(src), m.snap(k.toFloat)
			if m.count == 0 {
				want = snap{}
			}
			if m.unordered() {
				want.min, want.max = got.min, got.max
			}
			if !got.eq(want) {
				c.Fatalf("after %d observations the stats are %+v, should be %+v", m.count, got, want)
			}
		}
		check()
		n := count(c.Rng)
		every := 1 + c.Rng.Intn(20)
		for i := 0; i < n; i++ {
			v := k.val(c.Rng)
			if i < 30 {
				c.Logf("observe %v", v)
			}
			obs(v)
			m.add(v)
			if i%every == 0 {
				check()
			}
		}
		check()
		c.Sig(k.name, n, m)
	}
}

func seqDist[T int64 | float64 | time.Duration](k kind[T]) func(c *vh.C) {
	type pair struct {
		d dist[T]
		m ref[T]
	}
	return func(c *vh.C) {
		ps := []*pair{{d: k.mkDist()}}
		check := func(p *pair) {
			c.Events(1)
			n, sum, low, high, recent, avg := p.d.fields()
			if n != p.m.count || !same(sum, p.m.sum) || (!p.m.unordered() && (low != p.m.low || high != p.m.high)) || !same(recent, p.m.recent) {
				c.Fatalf("count %v sum %v low %v high %v recent %v, should be %+v", n, sum, low, high, recent, p.m)
			}
			var wantAvg T
			if p.m.count > 0 {
				wantAvg = p.m.sum / T(p.m.count)
			}
			if avg == avg && avg != wantAvg {
				c.Fatalf("full average is %v, should be %v", avg, wantAvg)
			}
			want := p.m.snap(k.toFloat)
			if p.m.count == 0 {
				want = snap{}
			}
			got := read(p.d.src)
			if p.m.unordered() {
				want.min, want.max = got.min, got.max
			}
			if !got.eq(want) {
				c.Fatalf("stats are %+v, should be %+v", got, want)
			}
		}
		n := count(c.Rng)
		for i := 0; i < n; i++ {
			p := ps[c.Rng.Intn(len(ps))]
			switch x := c.Rng.Intn(60); {
			case x == 0:
				p.d.reset()
				p.m = ref[T]{}
				c.Logf("reset")
			case x == 1 && len(ps) < 5:
				q := &pair{d: p.d.copy(), m: p.m}
				ps = append(ps, q)
				c.Logf("copy")
			case x < 8:
				check(p)
			default:
				v := k.val(c.Rng)
				p.d.insert(v)
				p.m.add(v)
				c.Logf("insert %v", v)
			}
		}
		for _, p := range ps {
			check(p)
			c.Sig(k.name, p.m)
		}
	}
}

type vop struct {
	read bool
	v    float64
}

type vstate struct{ count, sum, min, max, recent float64 }

var vmodel = porcupine.Model{
	Init: func() interface{} { return vstate{} },
	Step: func(st, in, out interface{}) (bool, interface{}) {
		s, o := st.(vstate), in.(vop)
		if o.read {
			g := out.(snap)
			return g.bad == "" && g.count == s.count && g.sum == s.sum && g.min == s.min && g.max == s.max && g.recent == s.recent, s
		}
		if s.count == 0 || o.v < s.min {
			s.min = o.v
		}
		if s.count == 0 || o.v > s.max {
			s.max = o.v
		}
		s.count++
		s.sum += o.v
		s.recent = o.v
		return true, s
	},
}

// anyVal makes one of the value types, observing whole numbers.
func anyVal(c *vh.C) (string, monkit.StatSource, func(float64)) {
	switch c.Rng.Intn(3) {
	case 0:
		s, f := ints.mk(c)
		return "int", s, func(v float64) { f(int64(v)) }
	case 1:
		s, f := floats.mk(c)
		return "float", s, func(v float64) { f(v) }
	default:
		s, f := durs.mk(c)
		return "duration", s, func(v float64) { f(time.Duration(v) * time.Second) }
	}
}

func linear(c *vh.C) {
	name, src, obs := anyVal(c)
	g, per := 2+c.Rng.Intn(3), 3+c.Rng.Intn(5)
	ops := make([][]vop, g)
	for i := range ops {
		for j := 0; j < per; j++ {
			o := vop{v: float64(c.Rng.Intn(200) - 80)}
			if i == 0 || c.Rng.Intn(4) == 0 {
				o = vop{read: true}
			}
			ops[i] = append(ops[i], o)
		}
	}
	var clock int64
	hist := make([][]porcupine.Operation, g)
	var start sync.WaitGroup
	start.Add(1)
	for i := 0; i < g; i++ {
		i := i
		c.Go(func() {
			start.Wait()
			for _, o := range ops[i] {
				call := atomic.AddInt64(&clock, 1)
				var r snap
				if o.read {
					r = read(src)
				} else {
					obs(o.v)
				}
				ret := atomic.AddInt64(&clock, 1)
				hist[i] = append(hist[i], porcupine.Operation{ClientId: i, Input: o, Call: call, Output: r, Return: ret})
			}
		})
	}
	start.Done()
	c.Wait()
	var all []porcupine.Operation
	order := make([]int, clock+1)
	for _, h := range hist {
		all = append(all, h...)
		for _, o := range h {
			order[o.Call], order[o.Return] = o.ClientId+1, -o.ClientId-1
			if r := o.Output.(snap); r.bad != "" {
				c.Fatalf("%s", r.bad)
			}
		}
	}
	end := atomic.AddInt64(&clock, 1)
	all = append(all, porcupine.Operation{ClientId: g, Input: vop{read: true}, Call: end, Output: read(src), Return: end + 1})
	c.Sig(name, order)
	c.Events(len(all))
	switch porcupine.CheckOperationsTimeout(vmodel, all, 20e9) {
	case porcupine.Illegal:
		for _, o := range all {
			c.Logf("client %d [%d,%d] %+v = %+v", o.ClientId, o.Call, o.Return, o.Input, o.Output)
		}
		c.Failf("%s value: no order of the observations explains the stats that were read", name)
	case porcupine.Unknown:
		c.Note("histories_undecided", 1)
	default:
		c.Note("histories_linearizable", 1)
	}
	if c.Idx < 1 {
		for _, o := range all {
			c.Logf("client %d [%d,%d] %+v = %+v", o.ClientId, o.Call, o.Return, o.Input, o.Output)
		}
	}
}

// totals: many observers and readers; conservation at the end, and snapshots
// bounded by what had been observed for sure and what could have been.
func totals(c *vh.C) {
	name, src, obs := anyVal(c)
	g := 3 + c.Rng.Intn(6)
	per := 50 + c.Rng.Intn(150)
	var begun, ended int64 // number of observations
	var wg sync.WaitGroup
	stop := make(chan struct{})
	var mu sync.Mutex
	var bads []string
	fail := func(f string, a ...interface{}) {
		mu.Lock()
		bads = append(bads, fmt.Sprintf(f, a...))
		mu.Unlock()
	}
	// all observations are multiples of 7 and 1 mod 1, with sum = 3*count
	konst := c.Rng.Intn(2) == 0
	var rd sync.WaitGroup
	for i := 0; i < 2; i++ {
		rd.Add(1)
		go func() {
			defer rd.Done()
			last := 0.0
			for {
				select {
				case <-stop:
					return
				default:
				}
				lo := atomic.LoadInt64(&ended)
				s := read(src)
				hi := atomic.LoadInt64(&begun)
				c.Events(1)
				if s.bad != "" {
					fail("%s", s.bad)
					return
				}
				if s.count < float64(lo) || s.count > float64(hi) {
					fail("count %v with %d observations finished before and %d begun after the readout", s.count, lo, hi)
				}
				if s.count < last {
					fail("count went from %v to %v", last, s.count)
				}
				last = s.count
				if s.count > 0 && !(s.min <= s.recent && s.recent <= s.max) {
					fail("min %v recent %v max %v", s.min, s.recent, s.max)
				}
				if konst && s.sum != 3*s.count {
					fail("sum %v of %v observations of 3", s.sum, s.count)
				}
				if s.sum < s.min*s.count || s.sum > s.max*s.count {
					fail("sum %v of %v values between %v and %v", s.sum, s.count, s.min, s.max)
				}
			}
		}()
	}
	total := make([]float64, g)
	lows, highs := make([]float64, g), make([]float64, g)
	lasts := make([]float64, g)
	for i := 0; i < g; i++ {
		i := i
		r := rand.New(rand.NewSource(c.Rng.Int63()))
		wg.Add(1)
		go func() {
			defer wg.Done()
			for k := 0; k < per; k++ {
				v := float64(3)
				if !konst {
					v = float64(r.Intn(100000) - 30000)
				}
				if k == 0 || v < lows[i] {
					lows[i] = v
				}
				if k == 0 || v > highs[i] {
					highs[i] = v
				}
				total[i] += v
				lasts[i] = v
				atomic.AddInt64(&begun, 1)
				obs(v)
				atomic.AddInt64(&ended, 1)
			}
		}()
	}
	wg.Wait()
	close(stop)
	rd.Wait()
	for _, b := range bads {
		c.Failf("%s value: %s", name, b)
	}
	s := read(src)
	want := snap{count: float64(g * per), min: math.Inf(1), max: math.Inf(-1)}
	recentOK := false
	for i := range total {
		want.sum += total[i]
		want.min, want.max = math.Min(want.min, lows[i]), math.Max(want.max, highs[i])
		recentOK = recentOK || lasts[i] == s.recent
	}
	want.recent = s.recent
	if !s.eq(want) {
		c.Failf("%s value: stats are %+v after concurrent observations of %+v", name, s, want)
	}
	if !recentOK {
		c.Failf("%s value: recent value %v is nobody's last observation %v", name, s.recent, lasts)
	}
	c.Events(g * per)
	c.Sig(name, g, per, s.recent, konst)
}

func seqBool(c *vh.C) {
	v := monkit.NewBoolVal(key)
	if c.Rng.Intn(2) == 0 {
		v = scope().BoolVal("b")
	}
	var tr, fa, rec float64
	n := c.Rng.Intn(40)
	bias := c.Rng.Intn(10)
	check := func() {
		m, k := map[string]float64{}, 0
		v.Stats(func(_ monkit.SeriesKey, f string, val float64) { m[f] = val; k++ })
		if k != 4 || m["true"] != tr || m["false"] != fa || m["disposition"] != tr-fa || m["recent"] != rec || len(m) != 4 {
			c.Fatalf("stats %v after %v trues, %v falses, latest %v", m, tr, fa, rec)
		}
		c.Events(1)
	}
	check()
	for i := 0; i < n; i++ {
		b := c.Rng.Intn(10) < bias
		v.Observe(b)
		if b {
			tr++
			rec = 1
		} else {
			fa++
			rec = 0
		}
		c.Logf("observe %v", b)
		c.Sig(b)
		check()
	}
}

type bop struct {
	val       bool
	call, ret int64
}

func concBool(c *vh.C) {
	v := monkit.NewBoolVal(key)
	g := 2 + c.Rng.Intn(5)
	per := 5 + c.Rng.Intn(40)
	var clock int64
	ops := make([][]bop, g)
	for i := range ops {
		ops[i] = make([]bop, per)
		for j := range ops[i] {
			ops[i][j].val = c.Rng.Intn(2) == 0
		}
	}
	type rd struct {
		m         map[string]float64
		call, ret int64
	}
	reads := make([][]rd, 2)
	var stop int32
	var wg, rwg sync.WaitGroup
	one := func(i int) {
		m := map[string]float64{}
		call := atomic.AddInt64(&clock, 1)
		v.Stats(func(_ monkit.SeriesKey, f string, val float64) { m[f] = val })
		reads[i] = append(reads[i], rd{m, call, atomic.AddInt64(&clock, 1)})
	}
	for i := range reads {
		i := i
		rwg.Add(1)
		go func() {
			defer rwg.Done()
			for len(reads[i]) < 200 && atomic.LoadInt32(&stop) == 0 {
				one(i)
			}
		}()
	}
	for i := range ops {
		i := i
		wg.Add(1)
		go func() {
			defer wg.Done()
			for j := range ops[i] {
				o := &ops[i][j]
				o.call = atomic.AddInt64(&clock, 1)
				v.Observe(o.val)
				o.ret = atomic.AddInt64(&clock, 1)
			}
		}()
	}
	wg.Wait()
	atomic.StoreInt32(&stop, 1)
	rwg.Wait()
	one(0)
	var all []bop
	for _, l := range ops {
		all = append(all, l...)
	}
	for _, rs := range reads {
		for _, r := range rs {
			c.Events(1)
			var lo, hi [2]float64
			for _, o := range all {
				k := 0
				if o.val {
					k = 1
				}
				if o.ret < r.call {
					lo[k]++
				}
				if o.call < r.ret {
					hi[k]++
				}
			}
			if t, f := r.m["true"], r.m["false"]; t < lo[1] || t > hi[1] || f < lo[0] || f > hi[0] || r.m["disposition"] != t-f {
				c.Failf("stats %v with between %v and %v observed", r.m, lo, hi)
				return
			}
			// the latest value is one that could be the latest
			want := r.m["recent"] == 1
			if r.m["recent"] != 0 && r.m["recent"] != 1 {
				c.Failf("recent is %v", r.m["recent"])
				return
			}
			latest := int64(0) // latest start among observations finished before the readout
			for _, o := range all {
				if o.ret < r.call && o.call > latest {
					latest = o.call
				}
			}
			ok := latest == 0 && !want
			for _, o := range all {
				if o.val == want && o.call < r.ret && o.ret > latest {
					ok = true
					break
				}
			}
			if !ok {
				c.Failf("recent is %v although no such value can be the latest", want)
				return
			}
		}
	}
	c.Sig(g, per, len(reads[0]), len(reads[1]), clock)
}

// timers: every timer is stopped by several goroutines at once.
func timers(c *vh.C) {
	var tm *monkit.Timer
	if c.Rng.Intn(2) == 0 {
		tm = monkit.NewTimer(key)
	} else {
		tm = scope().Timer("t")
	}
	n := 1 + c.Rng.Intn(6)
	stops := make([][]time.Duration, n)
	elapsed := make([]time.Duration, n)
	readers := c.Rng.Intn(2)
	for i := range stops {
		stops[i] = make([]time.Duration, 1+c.Rng.Intn(5))
	}
	var prevCount int64
	concurrentTimers := c.Rng.Intn(2) == 0
	sig := uint64(n)
	if !concurrentTimers {
		// one timer after the other, so that each one's contribution shows
		for i := range stops {
			before := tm.Values()
			rt := tm.Start()
			if e := rt.Elapsed(); e < 0 {
				c.Failf("elapsed is %v", e)
			} else {
				elapsed[i] = e
			}
			var wg sync.WaitGroup
			for j := range stops[i] {
				j := j
				wg.Add(1)
				go func() { defer wg.Done(); stops[i][j] = rt.Stop() }()
			}
			wg.Wait()
			if c.Rng.Intn(2) == 0 {
				if e := rt.Stop(); e < elapsed[i] {
					c.Failf("stopping again gave %v after %v had elapsed", e, elapsed[i])
				}
			}
			v := tm.Values()
			if v.Count != before.Count+1 {
				c.Fatalf("a timer stopped %d times made %d samples", len(stops[i]), v.Count-before.Count)
			}
			found := -1
			for j, s := range stops[i] {
				if s == v.Recent {
					found = j
				}
				if s < elapsed[i] {
					c.Failf("stop returned %v after %v had elapsed", s, elapsed[i])
				}
			}
			if found < 0 {
				c.Fatalf("recorded %v, the stops returned %v", v.Recent, stops[i])
			}
			if v.Sum != before.Sum+v.Recent {
				c.Fatalf("sum went from %v to %v with a sample of %v", before.Sum, v.Sum, v.Recent)
			}
			sig = sig*31 + uint64(found)
			c.Logf("stops returned %v, recorded %v", stops[i], v.Recent)
			c.Events(len(stops[i]))
		}
		c.SigN(sig)
		return
	}
	stop := make(chan struct{})
	var rw sync.WaitGroup
	for i := 0; i < readers; i++ {
		rw.Add(1)
		go func() {
			defer rw.Done()
			for {
				select {
				case <-stop:
					return
				default:
				}
				v := tm.Values()
				if v.Count < prevCount || v.Count > int64(n) {
					c.Failf("count is %d of %d timers, was %d", v.Count, n, prevCount)
				}
				prevCount = v.Count
				if v.Count > 0 && (v.Low > v.Recent || v.Recent > v.High || v.Sum < v.Low*time.Duration(v.Count) || v.Sum > v.High*time.Duration(v.Count)) {
					c.Failf("inconsistent values %d %v %v %v %v", v.Count, v.Sum, v.Low, v.High, v.Recent)
				}
				c.Events(1)
			}
		}()
	}
	var wg sync.WaitGroup
	for i := range stops {
		rt := tm.Start()
		for j := range stops[i] {
			i, j := i, j
			wg.Add(1)
			go func() { defer wg.Done(); stops[i][j] = rt.Stop() }()
			c.Events(1)
		}
	}
	wg.Wait()
	close(stop)
	rw.Wait()
	v := tm.Values()
	if v.Count != int64(n) {
		c.Fatalf("%d timers stopped %v made %d samples", n, stops, v.Count)
	}
	var lo, hi time.Duration
	single := true
	for _, s := range stops {
		l, h := s[0], s[0]
		for _, x := range s {
			if x < l {
				l = x
			}
			if x > h {
				h = x
			}
		}
		lo += l
		hi += h
		single = single && len(s) == 1
	}
	if v.Sum < lo || v.Sum > hi {
		c.Fatalf("sum is %v of timers that returned %v", v.Sum, stops)
	}
	got := read(tm)
	if got.bad != "" || got.count != float64(n) || got.sum != v.Sum.Seconds() || got.min != v.Low.Seconds() || got.max != v.High.Seconds() || got.recent != v.Recent.Seconds() {
		c.Fatalf("stats %+v but values %d %v %v %v %v", got, v.Count, v.Sum, v.Low, v.High, v.Recent)
	}
	c.Sig(n, len(stops[0]), readers, v.Recent == stops[0][0])
}

// snapshots reads what functions, values and timers have collected, and looks
// at it later.
func snapshots(c *vh.C) {
	r := c.Rng
	sc := monkit.NewRegistry().ScopeNamed("s")
	f, fs := sc.FuncNamed("f"), monkit.NewFuncStats(monkit.NewSeriesKey("fs"))
	tm := sc.Timer("t")
	type snapshot struct {
		what string
		d    *monkit.DurationDist
		was  string
	}
	var snaps []snapshot
	type names struct {
		m   map[string]int64
		was string
	}
	var maps []names
	text := func(d *monkit.DurationDist) string {
		s := fmt.Sprint(d.Count, d.Sum, d.Low, d.High, d.Recent, d.FullAverage(), d.ReservoirAverage())
		for _, q := range monkit.ObservedQuantiles {
			s += fmt.Sprint(" ", d.Query(q))
		}
		d.Stats(func(_ monkit.SeriesKey, field string, val float64) { s += fmt.Sprint(" ", field, val) })
		return s
	}
	counts := map[string]int64{}
	for i := 5 + r.Intn(100); i > 0; i-- {
		switch r.Intn(8) {
		case 0, 1:
			for what, d := range map[string]*monkit.DurationDist{"f ok": f.SuccessTimes(), "f bad": f.FailureTimes(), "fs ok": fs.SuccessTimes(), "fs bad": fs.FailureTimes(), "t": tm.Values()} {
				if d.Count != counts[what] {
					c.Fatalf("%s: %d counted of %d", what, d.Count, counts[what])
				}
				snaps = append(snaps, snapshot{what, d, text(d)})
			}
			for _, m := range []map[string]int64{f.Errors(), fs.Errors()} {
				maps = append(maps, names{m, fmt.Sprint(m)})
			}
		case 2:
			// readers may do with theirs what they like
			if len(snaps) > 0 {
				s := &snaps[r.Intn(len(snaps))]
				if r.Intn(3) == 0 {
					s.d.Reset()
				}
				for k := r.Intn(80); k > 0; k-- {
					s.d.Insert(time.Duration(r.Int63n(1e12)))
				}
				s.was = text(s.d)
				m := &maps[r.Intn(len(maps))]
				m.m["mine"] = 7
				m.was = fmt.Sprint(m.m)
			}
		case 3:
			// neither of these resets the timer
			if r.Intn(2) == 0 {
				f.Reset()
				counts["f ok"], counts["f bad"] = 0, 0
			} else {
				fs.Reset()
				counts["fs ok"], counts["fs bad"] = 0, 0
			}
		default:
			err := vh.NewErr(r)
			for k := 1 + r.Intn(80)*r.Intn(2); k > 0; k-- {
				switch r.Intn(5) {
				case 0:
					f.Observe()(nil)
					counts["f ok"]++
				case 1:
					f.Observe()(&err)
					counts["f bad"]++
				case 2:
					fs.Observe()(nil)
					counts["fs ok"]++
				case 3:
					vh.Catch(func() { defer fs.Observe()(nil); panic("x") })
					counts["fs bad"]++
				case 4:
					tm.Start().Stop()
					counts["t"]++
				}
			}
		}
		for _, s := range snaps {
			if now := text(s.d); now != s.was {
				c.Fatalf("what was read of %s has become\n%s and was\n%s", s.what, now, s.was)
			}
		}
		for _, m := range maps {
			if fmt.Sprint(m.m) != m.was {
				c.Fatalf("errors that were read have become %v and were %s", m.m, m.was)
			}
			for k := range m.m {
				if k == "mine" && f.Errors()[k]+fs.Errors()[k] != 0 {
					c.Fatalf("writing to the errors that were read writes to the function's")
				}
			}
		}
		if len(snaps) > 20 {
			snaps, maps = snaps[10:], maps[len(maps)-4:]
		}
		c.Events(1)
	}
	c.Sig(fmt.Sprint(counts))
}

func TestCheck(t *testing.T) {
	vh.Main(t, "C09", func(h *vh.H) {
		h.Seq("big", h.N(12), big)
		h.Seq("int values", h.N(400), seqVal(ints))
		h.Seq("float values", h.N(400), seqVal(floats))
		h.Seq("duration values", h.N(400), seqVal(durs))
		h.Seq("int distributions", h.N(400), seqDist(ints))
		h.Seq("float distributions", h.N(400), seqDist(floats))
		h.Seq("duration distributions", h.N(400), seqDist(durs))
		h.Seq("bool values", h.N(800), seqBool)
		h.Seq("snapshots", h.N(150), snapshots)
		h.Conc("linearizable", h.N(900), linear)
		h.Conc("totals", h.N(40), totals)
		h.Conc("bools", h.N(120), concBool)
		h.Conc("timers", h.N(400), timers)
	})
}
