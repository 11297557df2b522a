// Package src makes sources of all kinds in scopes and knows what they should
// report.
package src

import (
	"context"
	"errors"
	"fmt"
	"math"
	"math/rand"
	"sort"
	"strings"
	"sync/atomic"
	"time"

	"github.com/spacemonkeygo/monkit/v3"

	"verifh/vh"
)

// Kinds of sources that are identified by name and tags.
var Kinds = []string{"func", "meter", "diffmeter", "int", "float", "bool", "struct", "duration", "timer", "counter", "gauge"}

// Tags makes tags with distinct keys in sorted order (the library documents
// that another order is another source).
func Tags(r *rand.Rand, word func(*rand.Rand) string) (tags []monkit.SeriesTag) {
	m := map[string]string{}
	for n := r.Intn(4); n > 0; n-- {
		// the library itself sets the scope tag
		if k := word(r); k != "scope" {
			m[k] = word(r)
		}
	}
	var keys []string
	for k := range m {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	for _, k := range keys {
		tags = append(tags, monkit.NewSeriesTag(k, m[k]))
	}
	return tags
}

// Get asks for a source and returns the object (nil for those that don't
// return one). It panics if the library does.
func Get(s *monkit.Scope, kind, name string, tags []monkit.SeriesTag, r *rand.Rand) interface{} {
	f := r != nil && r.Intn(3) == 0 && len(tags) == 0
	switch kind {
	case "func":
		if f {
			return s.TaskNamed(name, tags...).Func()
		}
		return s.FuncNamed(name, tags...)
	case "meter":
		if f {
			s.Event(name, tags...)
		}
		return s.Meter(name, tags...)
	case "diffmeter":
		s.DiffMeter(name, dm1, dm2, tags...)
		return nil
	case "int":
		if f {
			t, args := format(name, r)
			return s.IntValf(t, args...)
		}
		return s.IntVal(name, tags...)
	case "float":
		if f {
			t, args := format(name, r)
			return s.FloatValf(t, args...)
		}
		return s.FloatVal(name, tags...)
	case "bool":
		if f {
			t, args := format(name, r)
			return s.BoolValf(t, args...)
		}
		return s.BoolVal(name, tags...)
	case "struct":
		return s.StructVal(name, tags...)
	case "duration":
		return s.DurationVal(name, tags...)
	case "timer":
		return s.Timer(name, tags...)
	case "counter":
		return s.Counter(name, tags...)
	case "gauge":
		s.Gauge(name, func() float64 { return 42 })
		return nil
	}
	panic(kind)
}

// format makes a template and arguments that give the name.
func format(name string, r *rand.Rand) (string, []interface{}) {
	quote := func(s string) string { return strings.ReplaceAll(s, "%", "%%") }
	switch r.Intn(4) {
	case 0:
		return quote(name), nil
	case 1:
		n := 0
		if len(name) > 0 {
			n = r.Intn(len(name))
		}
		return quote(name[:n]) + "%v", []interface{}{name[n:]}
	case 2:
		if i := strings.LastIndexByte(name, '7'); i >= 0 {
			return quote(name[:i]) + "%d" + quote(name[i+1:]), []interface{}{7}
		}
	}
	return "%s", []interface{}{name}
}

var (
	dm1 = monkit.NewMeter(monkit.NewSeriesKey("dm1"))
	dm2 = monkit.NewMeter(monkit.NewSeriesKey("dm2"))
)

// Stat is one reported stat.
type Stat struct {
	Key   monkit.SeriesKey
	Field string
	Val   float64
}

// ID is the identity of the series and field, without the text rendering of
// the library.
func ID(measurement string, tags map[string]string, field string) string {
	var ks []string
	for k := range tags {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	s := fmt.Sprintf("%q", measurement)
	for _, k := range ks {
		s += fmt.Sprintf(",%q=%q", k, tags[k])
	}
	return s + fmt.Sprintf(" %q", field)
}

// ID of a stat.
func (s Stat) ID() string { return ID(s.Key.Measurement, s.Key.Tags.All(), s.Field) }

// Read reads all stats in order.
func Read(s monkit.StatSource) (out []Stat) {
	s.Stats(func(key monkit.SeriesKey, field string, val float64) {
		out = append(out, Stat{key, field, val})
	})
	return out
}

// Same compares values.
func Same(a, b float64) bool { return a == b || (math.IsNaN(a) && math.IsNaN(b)) }

// Exp is one expected stat.
type Exp struct {
	Meas  string
	Tags  map[string]string
	Field string
	Val   float64
}

// ID is its identity within a scope.
func (e Exp) ID(scope string) string {
	t := map[string]string{}
	for k, v := range e.Tags {
		t[k] = v
	}
	t["scope"] = scope
	return ID(e.Meas, t, e.Field)
}

// Source is a source with what it should report.
type Source struct {
	Kind  string
	Name  string
	Tags  []monkit.SeriesTag
	Scope string

	// Update changes it. Not for concurrent use unless Atomic.
	Update func(r *rand.Rand)
	// Expect lists what the source should report (without the scope tag); a
	// NaN that is AnyVal means any value.
	Expect func() []Exp
}

// AnyVal marks values that depend on the time.
var AnyVal = math.Float64frombits(0x7ff8dead00000001)

// IsAny tells whether any value will do.
func IsAny(f float64) bool { return math.Float64bits(f) == math.Float64bits(AnyVal) }

func tagMap(tags []monkit.SeriesTag) map[string]string {
	m := map[string]string{}
	for _, t := range tags {
		m[t.Key] = t.Val
	}
	return m
}

type inner struct{ X, Y int }

// S is what struct values observe.
type S struct {
	A     int
	B     float64
	C     bool
	In    inner
	Skip  string
	Ign   int `monkit:"ignore"`
	Pt    *inner
	small int8
}

func structFields(s *S) map[string]float64 {
	b2f := map[bool]float64{true: 1}
	m := map[string]float64{"A": float64(s.A), "B": s.B, "C": b2f[s.C], "In.X": float64(s.In.X), "In.Y": float64(s.In.Y), "small": float64(s.small)}
	if s.Pt != nil {
		m["Pt.X"], m["Pt.Y"] = float64(s.Pt.X), float64(s.Pt.Y)
	}
	return m
}

type distM struct {
	count                       int64
	sum, low, high, recent, div float64
}

func (d *distM) add(v float64) {
	if d.count == 0 || v < d.low {
		d.low = v
	}
	if d.count == 0 || v > d.high {
		d.high = v
	}
	d.count++
	d.sum += v
	d.recent = v
}

func (d *distM) fields(set func(field string, val float64)) {
	set("count", float64(d.count))
	if d.count > 0 {
		set("sum", d.sum/d.div)
		set("min", d.low/d.div)
		set("max", d.high/d.div)
		set("recent", d.recent/d.div)
		for _, f := range []string{"rmin", "ravg", "r10", "r50", "r90", "r99", "rmax"} {
			set(f, AnyVal)
		}
	}
}

// Make registers a source of the given kind in the scope. The name must be new.
func Make(s *monkit.Scope, kind, name string, tags []monkit.SeriesTag, r *rand.Rand) *Source {
	src := &Source{Kind: kind, Name: name, Tags: tags, Scope: s.Name()}
	if kind == "gauge" || kind == "chain" {
		src.Tags = nil
	}
	meas, tm := name, tagMap(src.Tags)
	res := func(fill func(set func(field string, val float64))) func() []Exp {
		return func() (m []Exp) {
			fill(func(field string, val float64) { m = append(m, Exp{meas, tm, field, val}) })
			return m
		}
	}
	switch kind {
	case "func":
		f := s.FuncNamed(name, tags...)
		meas = "function"
		tm = map[string]string{"name": name}
		for _, t := range tags {
			tm[t.Key] = t.Val
		}
		var succ, panics int64
		errs := map[string]int64{}
		e := errors.New("x")
		src.Update = func(r *rand.Rand) {
			ctx := context.Background()
			switch r.Intn(4) {
			case 0:
				var err error = e
				f.Task(&ctx)(&err)
				errs["System Error"]++
			case 1:
				func() {
					defer func() { recover() }()
					defer f.Task(&ctx)(nil)
					panic(1)
				}()
				panics++
			default:
				f.Task(&ctx)(nil)
				succ++
			}
		}
		src.Expect = func() (m []Exp) {
			set := func(field string, val float64) { m = append(m, Exp{meas, tm, field, val}) }
			var ec int64
			for n, c := range errs {
				ec += c
				t2 := map[string]string{}
				for k, v := range tm {
					t2[k] = v
				}
				t2["error_name"] = n
				m = append(m, Exp{meas, t2, "count", float64(c)})
			}
			set("current", 0)
			hw := 0.0
			if succ+ec+panics > 0 {
				hw = 1
			}
			set("highwater", hw)
			set("successes", float64(succ))
			set("errors", float64(ec))
			set("panics", float64(panics))
			set("failures", float64(ec+panics))
			set("total", float64(succ+ec+panics))
			for kind, n := range map[string]int64{"success_times": succ, "failure_times": ec + panics} {
				meas2 := "function_times"
				t2 := map[string]string{}
				for k, v := range tm {
					t2[k] = v
				}
				t2["kind"] = map[string]string{"success_times": "success", "failure_times": "failure"}[kind]
				m = append(m, Exp{meas2, t2, "count", float64(n)})
				if n > 0 {
					for _, f := range []string{"sum", "min", "max", "recent", "rmin", "ravg", "r10", "r50", "r90", "r99", "rmax"} {
						m = append(m, Exp{meas2, t2, f, AnyVal})
					}
				}
			}
			return m
		}
	case "meter":
		m := s.Meter(name, tags...)
		var total int64
		src.Update = func(r *rand.Rand) {
			n := r.Intn(100)
			total += int64(n)
			m.Mark(n)
		}
		src.Expect = res(func(set func(string, float64)) {
			set("rate", AnyVal)
			set("total", float64(total))
		})
	case "diffmeter":
		m1, m2 := monkit.NewMeter(monkit.NewSeriesKey("a")), monkit.NewMeter(monkit.NewSeriesKey("b"))
		s.DiffMeter(name, m1, m2, tags...)
		var total int64
		src.Update = func(r *rand.Rand) {
			n := r.Intn(100)
			if r.Intn(2) == 0 {
				total += int64(n)
				m1.Mark(n)
			} else {
				total -= int64(n)
				m2.Mark(n)
			}
		}
		src.Expect = res(func(set func(string, float64)) {
			set("rate", AnyVal)
			set("total", float64(total))
		})
	case "int":
		v := s.IntVal(name, tags...)
		d := &distM{div: 1}
		src.Update = func(r *rand.Rand) { x := int64(r.Intn(100)); v.Observe(x); d.add(float64(x)) }
		src.Expect = res(d.fields)
	case "float":
		v := s.FloatVal(name, tags...)
		d := &distM{div: 1}
		src.Update = func(r *rand.Rand) { x := float64(r.Intn(100)); v.Observe(x); d.add(x) }
		src.Expect = res(d.fields)
	case "duration":
		v := s.DurationVal(name, tags...)
		d := &distM{div: 1}
		src.Update = func(r *rand.Rand) {
			x := r.Intn(100)
			v.Observe(time.Duration(x) * time.Second)
			d.add(float64(x))
		}
		src.Expect = res(d.fields)
	case "timer":
		t := s.Timer(name, tags...)
		n := 0
		src.Update = func(r *rand.Rand) { t.Start().Stop(); n++ }
		src.Expect = res(func(set func(string, float64)) {
			set("count", float64(n))
			if n > 0 {
				for _, f := range []string{"sum", "min", "max", "recent", "rmin", "ravg", "r10", "r50", "r90", "r99", "rmax"} {
					set(f, AnyVal)
				}
			}
		})
	case "bool":
		v := s.BoolVal(name, tags...)
		var tr, fa, rec float64
		src.Update = func(r *rand.Rand) {
			if r.Intn(2) == 0 {
				v.Observe(true)
				tr++
				rec = 1
			} else {
				v.Observe(false)
				fa++
				rec = 0
			}
		}
		src.Expect = res(func(set func(string, float64)) {
			set("disposition", tr-fa)
			set("false", fa)
			set("true", tr)
			set("recent", rec)
		})
	case "struct":
		v := s.StructVal(name, tags...)
		var cur *S
		src.Update = func(r *rand.Rand) {
			if cur != nil && r.Intn(3) == 0 {
				cur.A++ // read at readout time
				return
			}
			cur = &S{A: r.Intn(100), B: r.Float64(), C: r.Intn(2) == 0, In: inner{r.Intn(10), 3}, small: int8(r.Intn(100))}
			if r.Intn(2) == 0 {
				cur.Pt = &inner{1, r.Intn(10)}
			}
			v.Observe(cur)
		}
		src.Expect = res(func(set func(string, float64)) {
			if cur != nil {
				for f, x := range structFields(cur) {
					set(f, x)
				}
			}
		})
	case "counter":
		v := s.Counter(name, tags...)
		var val, lo, hi int64
		used := false
		src.Update = func(r *rand.Rand) {
			x := int64(r.Intn(100) - 50)
			v.Inc(x)
			val += x
			if !used || val < lo {
				lo = val
			}
			if !used || val > hi {
				hi = val
			}
			used = true
		}
		src.Expect = res(func(set func(string, float64)) {
			set("value", float64(val))
			if used {
				set("low", float64(lo))
				set("high", float64(hi))
			} else {
				set("low", math.NaN())
				set("high", math.NaN())
			}
		})
	case "gauge":
		val := new(uint64)
		get := func() float64 { return float64(atomic.LoadUint64(val)) }
		s.Gauge(name, get)
		src.Update = func(r *rand.Rand) {
			if r.Intn(2) == 0 {
				atomic.AddUint64(val, 1)
				return
			}
			val2 := new(uint64)
			*val2 = uint64(r.Intn(1000))
			val = val2
			s.Gauge(name, func() float64 { return float64(atomic.LoadUint64(val2)) })
		}
		src.Expect = res(func(set func(string, float64)) { set("value", float64(atomic.LoadUint64(val))) })
	case "chain":
		var a, b float64
		s.Chain(monkit.StatSourceFunc(func(cb func(monkit.SeriesKey, string, float64)) {
			k := monkit.NewSeriesKey(name)
			cb(k, "a", a)
			cb(k.WithTag("sub", "1"), "b", b)
		}))
		src.Update = func(r *rand.Rand) { a++; b = r.Float64() }
		src.Expect = func() []Exp {
			return []Exp{{name, nil, "a", a}, {name, map[string]string{"sub": "1"}, "b", b}}
		}
	default:
		panic(kind)
	}
	return src
}

// Word makes names: nasty, but few enough to meet again.
func Word(r *rand.Rand) string {
	if r.Intn(3) == 0 {
		return []string{"a", "b", "ab", "a,b", "a=b", "", "func:a", "afunc:", "name", ",a=b", "a,a=b", "b,a=b", "scope", "1", "11", "1,1,", "100%", "%d", "%%", "%7"}[r.Intn(20)]
	}
	return vh.Nasty(r)
}
