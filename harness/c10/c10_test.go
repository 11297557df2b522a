package c10

import (
	"fmt"
	"math"
	"math/rand"
	"sort"
	"sync"
	"testing"
	"time"

	"github.com/spacemonkeygo/monkit/v3"

	"verifh/vh"
)

const size = 64

var key = monkit.NewSeriesKey("m")

// D is a distribution of any kind, seen through float64.
type D struct {
	kind     string
	insert   func(float64)
	query    func(q float64) float64
	avg      func() float64
	low      func() float64
	high     func() float64
	reset    func()
	copy     func() D
	stats    func() map[string]float64
	discrete bool    // truncates to whole numbers
	unit     float64 // of the stats
}

func collect(s monkit.StatSource) map[string]float64 {
	m := map[string]float64{}
	s.Stats(func(_ monkit.SeriesKey, f string, v float64) { m[f] = v })
	return m
}

func wrapInt(d *monkit.IntDist) D {
	return D{kind: "int", discrete: true, unit: 1,
		insert: func(v float64) { d.Insert(int64(v)) },
		query:  func(q float64) float64 { return float64(d.Query(q)) },
		avg:    func() float64 { return float64(d.ReservoirAverage()) },
		low:    func() float64 { return float64(d.Low) }, high: func() float64 { return float64(d.High) },
		reset: d.Reset, copy: func() D { return wrapInt(d.Copy()) },
		stats: func() map[string]float64 { return collect(d) }}
}

func wrapFloat(d *monkit.FloatDist) D {
	return D{kind: "float", unit: 1,
		insert: func(v float64) { d.Insert(v) },
		query:  func(q float64) float64 { return d.Query(q) },
		avg:    func() float64 { return d.ReservoirAverage() },
		low:    func() float64 { return d.Low }, high: func() float64 { return d.High },
		reset: d.Reset, copy: func() D { return wrapFloat(d.Copy()) },
		stats: func() map[string]float64 { return collect(d) }}
}

func wrapDur(d *monkit.DurationDist) D {
	return D{kind: "duration", discrete: true, unit: 1e9,
		insert: func(v float64) { d.Insert(time.Duration(v)) },
		query:  func(q float64) float64 { return float64(d.Query(q)) },
		avg:    func() float64 { return float64(d.ReservoirAverage()) },
		low:    func() float64 { return float64(d.Low) }, high: func() float64 { return float64(d.High) },
		reset: d.Reset, copy: func() D { return wrapDur(d.Copy()) },
		stats: func() map[string]float64 { return collect(d) }}
}

func makers() []func() D {
	return []func() D{
		func() D { return wrapInt(monkit.NewIntDist(key)) },
		func() D { return wrapFloat(monkit.NewFloatDist(key)) },
		func() D { return wrapDur(monkit.NewDurationDist(key)) },
	}
}

func newDist(r *rand.Rand) D { return makers()[r.Intn(3)]() }

// interp is the exact quantile and how far off it may be.
func interp(vals []float64, q float64, discrete bool) (want, tol float64) {
	s := append([]float64(nil), vals...)
	sort.Float64s(s)
	if len(s) == 0 {
		return 0, 0
	}
	x := q * float64(len(s)-1)
	i := int(x)
	if i >= len(s)-1 {
		i = len(s) - 1
		want = s[i]
		tol = math.Abs(want) * 0x1p-22
	} else {
		want = s[i] + (x-float64(i))*(s[i+1]-s[i])
		tol = math.Max(math.Abs(s[i]), math.Abs(s[i+1]))*0x1p-22 + (s[i+1]-s[i])*1e-9
		if x == float64(i) {
			want = s[i]
		}
	}
	if math.Abs(s[i]) > math.MaxFloat32 || i+1 < len(s) && math.Abs(s[i+1]) > math.MaxFloat32 && x > float64(i) {
		// not known to more than that the value is huge
		return 0, math.Inf(1)
	}
	tol += 1e-44 // smallest float32
	if discrete {
		tol += 1
	}
	return want, tol
}

var quants = []float64{0, 1e-9, .01, .1, .25, 1. / 3, .5, .75, .9, .95, .99, .999999, 1}

func genVals(r *rand.Rand, n int, discrete bool) []float64 {
	style := r.Intn(10)
	base := float64(r.Intn(2000000) - 1000000)
	out := make([]float64, n)
	for i := range out {
		var v float64
		switch style {
		case 0:
			v = float64(r.Intn(100))
		case 1:
			v = float64(i) * 1000
		case 2:
			v = -float64(i) * 1000
		case 3:
			v = base
		case 4:
			v = math.Pow(2, r.Float64()*60)
			if r.Intn(2) == 0 {
				v = -v
			}
		case 5:
			v = float64(r.Intn(2)) * 1e6
		case 6:
			if discrete {
				v = float64(r.Int63n(1<<62)) * float64(1-2*r.Intn(2))
			} else {
				v = r.NormFloat64() * math.Pow(10, float64(r.Intn(60)-30))
			}
		case 7:
			v = r.NormFloat64() * 1e6
		case 8:
			if discrete {
				v = math.Trunc(r.NormFloat64() * 1e3)
			} else {
				// a float32 cannot hold all of them
				v = []float64{1e300, -1e300, 1e39, -1e39, math.MaxFloat64, -math.MaxFloat64, 1, 2, 0, -1e30}[(r.Intn(10)+int(base)&3)%10]
			}
		default:
			if discrete {
				v = float64(r.Intn(5)-2) * (1 << 61)
			} else {
				v = []float64{math.MaxFloat32, -math.MaxFloat32, math.SmallestNonzeroFloat32, 0, 1, -1}[r.Intn(6)]
			}
		}
		if discrete {
			v = math.Trunc(v)
		}
		out[i] = v
	}
	return out
}

// quantiles checks what holds for any contents.
func sane(c *vh.C, d D, vals []float64) {
	lo, hi := math.Inf(1), math.Inf(-1)
	for _, v := range vals {
		lo, hi = math.Min(lo, v), math.Max(hi, v)
	}
	if len(vals) == 0 {
		lo, hi = 0, 0
	}
	prev := math.Inf(-1)
	qs := append([]float64(nil), quants...)
	for i := 0; i < 20; i++ {
		qs = append(qs, c.Rng.Float64())
	}
	sort.Float64s(qs)
	for _, q := range qs {
		v := d.query(q)
		c.Events(1)
		if math.IsNaN(v) || v < lo || v > hi {
			c.Fatalf("%s: quantile %v is %v, outside of the observed range %v to %v of %d values", d.kind, q, v, lo, hi, len(vals))
		}
		if v < prev {
			c.Fatalf("%s: quantile %v is %v, lower than %v for a lower quantile (%d values)", d.kind, q, v, prev, len(vals))
		}
		prev = v
	}
	for i, q := range []float64{-1e-9, -1, math.Inf(-1), 1 + 1e-9, 2, 1e300, math.Inf(1)} {
		if v, w := d.query(q), d.query(map[bool]float64{true: 0, false: 1}[i < 3]); v != w {
			c.Fatalf("%s: quantile %v is %v, the extreme is %v", d.kind, q, v, w)
		}
	}
	st := d.stats()
	if avg := d.avg(); math.IsNaN(avg) || avg < lo || avg > hi {
		c.Fatalf("%s: average of the sample is %v, outside of the observed range %v to %v of %d values", d.kind, avg, lo, hi, len(vals))
	}
	if avg := d.avg(); len(vals) == 0 && avg != 0 || len(vals) > 0 && st["ravg"] != avg/d.unit && math.Abs(st["ravg"]-avg/d.unit) > math.Abs(avg)*1e-12 {
		c.Fatalf("%s: average %v, %v in the stats, of %d values", d.kind, avg, st["ravg"], len(vals))
	}
	if len(vals) == 0 {
		if len(st) != 1 {
			c.Fatalf("%s: empty distribution reports %v", d.kind, st)
		}
		if st["count"] != 0 {
			c.Fatalf("%s: empty distribution reports %v", d.kind, st)
		}
		for f, v := range st {
			if f != "count" && v != 0 {
				c.Fatalf("%s: empty distribution reports %s %v", d.kind, f, v)
			}
		}
		return
	}
	for f, q := range map[string]float64{"rmin": 0, "r10": .1, "r50": .5, "r90": .9, "r99": .99, "rmax": 1} {
		v, ok := st[f]
		w := d.query(q) / d.unit
		if !ok || math.Abs(v-w) > math.Abs(w)*1e-12 {
			c.Fatalf("%s: %s is %v, quantile %v is %v", d.kind, f, v, q, w)
		}
	}
}

// exact checks up to 64 values.
func exact(c *vh.C, d D, vals []float64) {
	qs := append([]float64(nil), quants...)
	for i := 0; i < 10; i++ {
		qs = append(qs, c.Rng.Float64())
	}
	for i := range vals {
		if len(vals) > 1 {
			qs = append(qs, float64(i)/float64(len(vals)-1))
		}
	}
	for _, q := range qs {
		want, tol := interp(vals, q, d.discrete)
		got := d.query(q)
		c.Events(1)
		if !(math.Abs(got-want) <= tol) {
			c.Fatalf("%s: quantile %v of %v is %v, should be %v", d.kind, q, vals, got, want)
		}
	}
	if len(vals) == 0 {
		return
	}
	average(c, d, vals)
}

// average compares with the average of the retained values.
func average(c *vh.C, d D, kept []float64) {
	var sum, max float64
	for _, v := range kept {
		if math.Abs(v) > math.MaxFloat32 {
			return
		}
		sum += v / float64(len(kept))
		max = math.Max(max, math.Abs(v))
	}
	tol := max*0x1p-22 + 1e-44
	if d.discrete {
		tol++
	}
	if got := d.avg(); !(math.Abs(got-sum) <= tol) {
		c.Fatalf("%s: average of the sample %v is reported as %v, should be %v", d.kind, kept, got, sum)
	}
}

func small(c *vh.C) {
	type pair struct {
		d    D
		vals []float64
	}
	d := newDist(c.Rng)
	c.Sig(d.kind)
	ps := []*pair{{d: d}}
	check := func(p *pair) {
		if len(p.vals) <= size {
			exact(c, p.d, p.vals)
		}
		sane(c, p.d, p.vals)
	}
	pool := genVals(c.Rng, 150, d.discrete)
	next := 0
	steps := 1 + c.Rng.Intn(40)
	for i := 0; i < steps; i++ {
		p := ps[c.Rng.Intn(len(ps))]
		switch x := c.Rng.Intn(12); {
		case x == 0:
			p.d.reset()
			p.vals = nil
			c.Logf("reset")
		case x == 1 && len(ps) < 5:
			q := &pair{d: p.d.copy(), vals: append([]float64(nil), p.vals...)}
			ps = append(ps, q)
			c.Logf("copy")
		case x < 6:
			check(p)
			c.Logf("read %d values", len(p.vals))
		default:
			n := 1 + c.Rng.Intn(8)
			if x == 11 {
				n = 30 + c.Rng.Intn(40)
			}
			for k := 0; k < n; k++ {
				v := pool[next%len(pool)]
				next++
				p.d.insert(v)
				p.vals = append(p.vals, v)
			}
			c.Logf("insert %d values", n)
		}
		c.Sig(i, len(p.vals))
	}
	for _, p := range ps {
		check(p)
		c.Sig(fmt.Sprint(p.vals))
	}
}

// retained reads the 64 retained values, which have to be whole numbers well
// within float32 precision.
func retained(d D) []float64 {
	out := make([]float64, size)
	for i := range out {
		out[i] = math.Round(d.query(float64(i) / (size - 1)))
	}
	return out
}

// perm is a bijection of the insertion index to the inserted value.
type perm struct {
	n     int
	style int
	to    []int
	from  []int
}

func newPerm(r *rand.Rand, n int) *perm {
	p := &perm{n: n, style: r.Intn(4), to: make([]int, n), from: make([]int, n)}
	switch p.style {
	case 0: // ascending
		for i := range p.to {
			p.to[i] = i
		}
	case 1: // descending
		for i := range p.to {
			p.to[i] = n - 1 - i
		}
	case 2: // alternating extremes
		for i := range p.to {
			if i%2 == 0 {
				p.to[i] = i / 2
			} else {
				p.to[i] = n - 1 - i/2
			}
		}
	default:
		copy(p.to, r.Perm(n))
	}
	for i, v := range p.to {
		p.from[v] = i
	}
	return p
}

// large checks that more than 64 values leave 64 retained real observations,
// each at most once, that copies don't share anything, and that reading
// changes nothing.
func large(c *vh.C) {
	d := newDist(c.Rng)
	n := size + 1 + c.Rng.Intn(3000)
	p := newPerm(c.Rng, n)
	scale := 4.0
	every := 1 + c.Rng.Intn(400)
	look := func(d D, upto int) []float64 {
		got := retained(d)
		c.Events(size)
		for i, v := range got {
			x := int(math.Round(v / scale))
			if math.Abs(v-float64(x)*scale) > 1.01 || x < 0 || x >= n || p.from[x] >= upto {
				c.Fatalf("%s: retained value %v was never observed", d.kind, v)
			}
			if i > 0 && math.Round(v/scale) == math.Round(got[i-1]/scale) {
				c.Fatalf("%s: observation %v is retained twice: %v", d.kind, v, got)
			}
		}
		if d.query(0) != got[0] || d.query(1) != got[size-1] {
			c.Fatalf("%s: quantiles 0 and 1 are %v and %v, retained are %v", d.kind, d.query(0), d.query(1), got)
		}
		var mean float64
		for _, v := range got {
			mean += v / size
		}
		if math.Abs(d.avg()-mean) > 2.1 {
			c.Fatalf("%s: average of the sample %v is reported as %v, should be %v", d.kind, got, d.avg(), mean)
		}
		return got
	}
	same := func(a, b []float64) bool {
		for i := range a {
			if math.Abs(a[i]-b[i]) > 1.01 {
				return false
			}
		}
		return true
	}
	for i := 0; i < n; i++ {
		d.insert(float64(p.to[i]) * scale)
		if i >= size && i%every == 0 {
			before := look(d, i+1)
			cp := d.copy()
			if got := look(cp, i+1); !same(before, got) {
				c.Fatalf("%s: a copy has %v, the original %v", d.kind, got, before)
			}
			// the copy goes its own way
			for k := 0; k < 300; k++ {
				cp.insert(-1e6)
			}
			if c.Rng.Intn(2) == 0 {
				cp.reset()
			}
			if got := look(d, i+1); !same(before, got) {
				c.Fatalf("%s: changing a copy changed the original from %v to %v", d.kind, before, got)
			}
			cp = d.copy()
			bc := retained(cp)
			tmp := d
			// the original goes on in another case: reset of the original must
			// leave the copy alone
			if c.Rng.Intn(8) == 0 {
				tmp.reset()
				if tmp.query(.5) != 0 {
					c.Fatalf("%s: median is %v after a reset", d.kind, tmp.query(.5))
				}
				for k := 0; k < 10; k++ {
					tmp.insert(-5000)
				}
				if got := retained(cp); !same(bc, got) {
					c.Fatalf("%s: changing the original changed a copy", d.kind)
				}
				if tmp.query(0) != -5000 || tmp.query(1) != -5000 {
					c.Fatalf("%s: values from before a reset show up: %v %v", d.kind, tmp.query(0), tmp.query(1))
				}
				d = cp
			}
		}
	}
	last := look(d, n)
	c.Sig(d.kind, n, p.style, every, last)
	c.Logf("%s after %d values in style %d: %v", d.kind, n, p.style, last)
}

// fair is a statistical test: it counts which of the inserted values are
// retained over many distributions.
func fair(window int64, n, dists int, reads int) func(c *vh.C) {
	return func(c *vh.C) {
		old := monkit.Window
		monkit.Window = window
		defer func() { monkit.Window = old }()
		const bins = 8
		var age, rank [bins]float64
		var recent float64 // retained among the most recent window
		eff := int64(n)
		if window > 0 && window < eff {
			eff = window
		}
		mk := makers()
		styles := map[int][2]float64{}
		for k := 0; k < dists; k++ {
			d := mk[k%3]()
			p := newPerm(c.Rng, n)
			for i := 0; i < n; i++ {
				d.insert(float64(p.to[i]) * 4)
				if reads > 0 && i%reads == 0 {
					d.query(.5)
					if i%(7*reads) == 0 {
						d.stats()
						d.copy()
					}
				}
			}
			for _, v := range retained(d) {
				x := int(math.Round(v / 4))
				if x < 0 || x >= n {
					c.Fatalf("retained %v was never observed", v)
				}
				i := p.from[x]
				age[i*bins/n]++
				rank[x*bins/n]++
				if int64(n-i) <= eff {
					recent++
					s := styles[p.style]
					s[0]++
					styles[p.style] = s
				}
			}
			s := styles[p.style]
			s[1]++
			styles[p.style] = s
			c.Events(n)
			c.Beat()
		}
		c.Sig(age, rank)
		// what the documented algorithm gives: the i-th value is admitted with
		// probability 64/min(i, window) and each later admission evicts a
		// given one with probability 1/64.
		pr := make([]float64, n)
		surv := 1.0
		for i := n; i >= 1; i-- {
			w := float64(i)
			if window > 0 && w > float64(window) {
				w = float64(window)
			}
			admit := size / w
			if i <= size {
				pr[i-1] = surv
				continue
			}
			pr[i-1] = admit * surv
			surv *= 1 - 1/w
		}
		test := func(what string, got float64, sel func(i int) bool, twoSided bool) {
			var mean, varc float64
			for i, q := range pr {
				if sel(i) {
					mean += q
					varc += q * (1 - q)
				}
			}
			mean *= float64(dists)
			sd := math.Sqrt(varc*float64(dists)) + 1
			z := (got - mean) / sd
			c.NoteMax(fmt.Sprintf("max_abs_z_x100"), int64(math.Abs(z)*100))
			c.Logf("%s: retained %v, expected %.1f +- %.1f", what, got, mean, sd)
			if z < -8 || (twoSided && z > 8) {
				c.Failf("window %d, %d values, reading every %d: %s: %v retained, expected %.1f with standard deviation %.1f", window, n, reads, what, got, mean, sd)
			}
		}
		test("among the most recent window", recent, func(i int) bool { return int64(n-i) <= eff }, true)
		for b := 0; b < bins; b++ {
			test(fmt.Sprintf("age bin %d of %d", b, bins), age[b], func(i int) bool { return i*bins/n == b }, true)
		}
		// by magnitude: with random and mirrored orders all ranks are alike
		// only for the random order, so compare the styles with each other
		for st, s := range styles {
			if s[1] < 10 {
				continue
			}
			var mean, varc float64
			for i, q := range pr {
				if int64(n-i) <= eff {
					mean += q
					varc += q * (1 - q)
				}
			}
			z := (s[0] - mean*s[1]) / (math.Sqrt(varc*s[1]) + 1)
			c.Logf("style %d: %v of %v", st, s[0], mean*s[1])
			if math.Abs(z) > 8 {
				c.Failf("window %d, reading every %d: values inserted in order style %d: %v recent ones retained, expected %.1f", window, reads, st, s[0], mean*s[1])
			}
		}
	}
}

// magnitude inserts random values while reading all the time; which magnitudes
// are retained has to mirror what was inserted.
func magnitude(c *vh.C) {
	const bins = 8
	const dists = 120
	n := 300 + c.Rng.Intn(1200)
	var rank [bins]float64
	mk := makers()
	for k := 0; k < dists; k++ {
		d := mk[k%3]()
		vals := c.Rng.Perm(n)
		for i, v := range vals {
			d.insert(float64(v) * 4)
			switch c.Idx % 3 {
			case 0:
				d.query(.9)
			case 1:
				if i%5 == 0 {
					d.stats()
				}
			}
		}
		for _, v := range retained(d) {
			x := int(math.Round(v / 4))
			if x < 0 || x >= n {
				c.Fatalf("retained %v was never observed", v)
			}
			rank[x*bins/n]++
		}
		c.Events(n)
		c.Beat()
	}
	c.Sig(rank)
	mean := float64(dists*size) / bins
	sd := math.Sqrt(mean)
	for b, got := range rank {
		if math.Abs(got-mean)/sd > 8 {
			c.Failf("%d values read in style %d: %v retained of magnitude bin %d of %d, expected %.1f with standard deviation %.1f: %v", n, c.Idx%3, got, b, bins, mean, sd, rank)
		}
	}
	c.Logf("%d values: retained by magnitude %v, expected %.1f each", n, rank, mean)
}

// admitted counts admissions one by one far into the life of a distribution.
func admitted(c *vh.C) {
	mk := makers()
	d := mk[c.Rng.Intn(3)]()
	warm := []int{1100, 5000, 40000}[c.Rng.Intn(3)]
	for i := 0; i < warm; i++ {
		d.insert(float64(c.Rng.Intn(1000)))
	}
	const n = 40000
	got := 0
	for i := 0; i < n; i++ {
		// larger than all so far half of the time, smaller otherwise
		v := float64(2000 + i)
		q := 1.0
		if i%2 == 1 {
			v, q = -v, 0
		}
		d.insert(v)
		if d.query(q) == v {
			got++
		}
		if i%1000 == 0 {
			c.Beat()
		}
	}
	mean := float64(n) * size / 1024
	sd := math.Sqrt(mean * (1 - size/1024.))
	z := (float64(got) - mean) / sd
	c.Events(n)
	c.Sig(d.kind, warm, got)
	c.Logf("%s: %d of %d admitted after %d, expected %.0f", d.kind, got, n, warm, mean)
	if z < -8 {
		c.Failf("%s: of %d values inserted after %d others, %d were admitted, expected at least %.0f", d.kind, n, warm, got, mean)
	}
}

// alike mixes values of several sorts (ever higher and ever lower ones, zeros,
// long runs of one value, others); each sort is retained as often as it occurs.
func alike(c *vh.C) {
	const sorts = 5
	const dists = 100
	n := 2000 + c.Rng.Intn(2000)
	var got, mean, varc [sorts]float64
	pr := make([]float64, n)
	surv := 1.0
	for i := n; i >= 1; i-- {
		if i <= size {
			pr[i-1] = surv
			continue
		}
		w := math.Min(float64(i), float64(monkit.Window))
		pr[i-1] = size / w * surv
		surv *= 1 - 1/w
	}
	mk := makers()
	long := 1 + c.Rng.Intn(300)
	for k := 0; k < dists; k++ {
		d := mk[k%3]()
		sort, left := 0, 0
		run := 0.0
		for i := 0; i < n; i++ {
			if left == 0 {
				sort = c.Rng.Intn(sorts)
				left = 1
				if sort == 3 {
					left = 1 + c.Rng.Intn(long)
					run = float64(7e6 + 4*c.Rng.Intn(20))
				}
			}
			left--
			v := 0.0
			switch sort {
			case 0:
				v = float64(8e6 + 4*i)
			case 1:
				v = float64(-8e6 - 4*i)
			case 3:
				v = run
			case 4:
				v = float64(4 + 4*c.Rng.Intn(1e6))
			}
			d.insert(v)
			mean[sort] += pr[i]
			varc[sort] += pr[i] * (1 - pr[i])
			if c.Idx%2 == 0 && i%9 == 0 {
				d.query(.5)
			}
		}
		for _, v := range retained(d) {
			switch {
			case v == 0:
				got[2]++
			case v < 0:
				got[1]++
			case v >= 8e6:
				got[0]++
			case v >= 7e6:
				got[3]++
			default:
				got[4]++
			}
		}
		c.Events(n)
		c.Beat()
	}
	c.Sig(got)
	for i := range got {
		z := (got[i] - mean[i]) / (math.Sqrt(varc[i]) + 1)
		c.NoteMax("max_abs_z_x100", int64(math.Abs(z)*100))
		if math.Abs(z) > 8 {
			c.Failf("%d values, runs of up to %d: %v retained of sort %d, expected %.1f: %v of %.1f", n, long, got[i], i, mean[i], got, mean)
		}
	}
	c.Logf("%d values, runs of up to %d: %v retained by sort, expected %.1f", n, long, got, mean)
}

// vals uses the thread-safe values while others observe.
func vals(c *vh.C) {
	var obs func(float64)
	var quant func(float64) float64
	var src monkit.StatSource
	kind := c.Rng.Intn(3)
	discrete := true
	switch kind {
	case 0:
		v := monkit.NewIntVal(key)
		src, obs, quant = v, func(f float64) { v.Observe(int64(f)) }, func(q float64) float64 { return float64(v.Quantile(q)) }
	case 1:
		v := monkit.NewFloatVal(key)
		discrete = false
		src, obs, quant = v, v.Observe, v.Quantile
	default:
		v := monkit.NewDurationVal(key)
		src, obs, quant = v, func(f float64) { v.Observe(time.Duration(f)) }, func(q float64) float64 { return float64(v.Quantile(q)) }
	}
	g := 2 + c.Rng.Intn(4)
	per := 1 + c.Rng.Intn(size/g)
	if c.Rng.Intn(3) == 0 {
		per = 100 + c.Rng.Intn(200)
	}
	all := genVals(c.Rng, g*per, discrete)
	lo, hi := math.Inf(1), math.Inf(-1)
	for _, v := range all {
		lo, hi = math.Min(lo, v), math.Max(hi, v)
	}
	lo0, hi0 := math.Min(lo, 0), math.Max(hi, 0) // it may still be empty
	done := make(chan struct{})
	var rw sync.WaitGroup
	for i := 0; i < 2; i++ {
		i := i
		r := rand.New(rand.NewSource(c.Rng.Int63()))
		rw.Add(1)
		go func() {
			defer rw.Done()
			for k := 0; ; k++ {
				select {
				case <-done:
					return
				default:
				}
				if (k+i)%2 == 0 {
					v := quant(r.Float64())
					if math.IsNaN(v) || v < lo0 || v > hi0 {
						c.Failf("quantile %v outside of %v to %v", v, lo0, hi0)
						return
					}
				} else {
					st := collect(src)
					prev := math.Inf(-1)
					if st["count"] == 0 {
						continue
					}
					for _, f := range []string{"min", "rmin", "r10", "r50", "r90", "r99", "rmax", "max"} {
						if st[f] < prev {
							c.Failf("stats out of order: %v", st)
							return
						}
						prev = st[f]
					}
				}
				c.Events(1)
			}
		}()
	}
	var wg sync.WaitGroup
	for i := 0; i < g; i++ {
		mine := all[i*per : (i+1)*per]
		wg.Add(1)
		go func() {
			defer wg.Done()
			for _, v := range mine {
				obs(v)
			}
		}()
	}
	wg.Wait()
	close(done)
	rw.Wait()
	if g*per <= size {
		for _, q := range quants {
			want, tol := interp(all, q, discrete)
			if got := quant(q); !(math.Abs(got-want) <= tol) {
				c.Fatalf("quantile %v of %v is %v, should be %v", q, all, got, want)
			}
		}
	}
	if quant(0) < lo || quant(1) > hi {
		c.Failf("extremes are %v and %v, observed %v and %v", quant(0), quant(1), lo, hi)
	}
	c.Sig(kind, g, per, fmt.Sprint(all))
}

func TestCheck(t *testing.T) {
	vh.Main(t, "C10", func(h *vh.H) {
		h.Seq("up to 64 values", h.N(3000), small)
		h.Seq("more than 64 values", h.N(250), large)
		h.Conc("values", h.N(150), vals)
		h.Seq("magnitudes", h.N(9), magnitude)
		h.Seq("alike", h.N(12), alike)
		h.Seq("admissions", h.N(16), admitted)
		h.Serial("default window", h.N(1), fair(monkit.Window, 3000, 150, 0))
		h.Serial("default window, read", h.N(1), fair(monkit.Window, 3000, 150, 3))
		h.Serial("before the window", h.N(1), fair(monkit.Window, 900, 200, 11))
		h.Serial("small window", h.N(1), fair(128, 1000, 150, 5))
		h.Serial("smallest window", h.N(1), fair(64, 500, 100, 2))
		h.Serial("large window", h.N(1), fair(4096, 9000, 60, 50))
		h.Serial("no window", h.N(1), fair(0, 4000, 150, 7))
	})
}
