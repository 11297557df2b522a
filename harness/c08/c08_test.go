package c08

import (
	"fmt"
	"math"
	"sync"
	"sync/atomic"
	"testing"

	"github.com/anishathalye/porcupine"
	"github.com/spacemonkeygo/monkit/v3"

	"verifh/vh"
)

type op struct {
	kind string
	arg  int64
}

type res struct {
	a, b, c int64
	nan     bool // stats reported no extremes
	bad     string
}

type state struct {
	val, low, high int64
	nonempty       bool
}

func (s state) set(v int64) state {
	if !s.nonempty || v < s.low {
		s.low = v
	}
	if !s.nonempty || v > s.high {
		s.high = v
	}
	s.val, s.nonempty = v, true
	return s
}

func (s state) apply(o op) (state, res) {
	switch o.kind {
	case "set":
		return s.set(o.arg), res{a: s.val}
	case "inc":
		n := s.set(s.val + o.arg)
		return n, res{a: n.val}
	case "dec":
		n := s.set(s.val - o.arg)
		return n, res{a: n.val}
	case "cur":
		return s, res{a: s.val}
	case "high":
		return s, res{a: s.high}
	case "low":
		return s, res{a: s.low}
	case "reset":
		return state{}, res{a: s.val, b: s.low, c: s.high}
	case "stats":
		if !s.nonempty {
			return s, res{a: s.val, nan: true}
		}
		return s, res{a: s.val, b: s.low, c: s.high}
	}
	panic(o.kind)
}

// same compares results; stats went through float64.
func same(o op, want, got res) bool {
	if got.bad != "" || want.nan != got.nan {
		return false
	}
	if o.kind == "stats" {
		return float64(want.a) == float64(got.a) && float64(want.b) == float64(got.b) && float64(want.c) == float64(got.c)
	}
	return want == got
}

var key = monkit.NewSeriesKey("counter").WithTag("name", "x")

// stats reads the triple; each field has to be there exactly once.
func stats(c *monkit.Counter, exact func(f float64) int64) (r res) {
	n := map[string]int{}
	m := map[string]float64{}
	c.Stats(func(k monkit.SeriesKey, field string, val float64) {
		n[field]++
		m[field] = val
	})
	if len(n) != 3 || n["high"] != 1 || n["low"] != 1 || n["value"] != 1 {
		return res{bad: fmt.Sprint("stats fields ", n)}
	}
	if math.IsNaN(m["high"]) != math.IsNaN(m["low"]) || math.IsNaN(m["value"]) {
		return res{bad: fmt.Sprint("stats values ", m)}
	}
	if math.IsNaN(m["high"]) {
		return res{a: exact(m["value"]), nan: true}
	}
	if !(m["low"] <= m["value"] && m["value"] <= m["high"]) {
		return res{bad: fmt.Sprintf("stats without low <= value <= high: %v", m)}
	}
	return res{a: exact(m["value"]), b: exact(m["low"]), c: exact(m["high"])}
}

func do(c *monkit.Counter, o op) (r res) {
	switch o.kind {
	case "set":
		r.a = c.Set(o.arg)
	case "inc":
		r.a = c.Inc(o.arg)
	case "dec":
		r.a = c.Dec(o.arg)
	case "cur":
		r.a = c.Current()
	case "high":
		r.a = c.High()
	case "low":
		r.a = c.Low()
	case "reset":
		r.a, r.b, r.c = c.Reset()
	case "stats":
		r = stats(c, func(f float64) int64 { return int64(f) })
	}
	return r
}

var kinds = []string{"set", "inc", "inc", "dec", "dec", "cur", "high", "low", "reset", "stats", "stats"}

func newCounter(c *vh.C) *monkit.Counter {
	switch c.Rng.Intn(2) {
	case 0:
		return monkit.NewCounter(key)
	default:
		return monkit.NewRegistry().ScopeNamed("s").Counter(fmt.Sprint("c", c.Idx))
	}
}

func sequential(c *vh.C) {
	ctr := newCounter(c)
	var s state
	for i, n := 0, 1+c.Rng.Intn(60); i < n; i++ {
		o := op{kind: kinds[c.Rng.Intn(len(kinds))], arg: vh.Int64(c.Rng)}
		if c.Rng.Intn(6) > 0 && o.kind == "reset" {
			o.kind = "stats"
		}
		c.Sig(o.kind, o.arg)
		var got, want res
		if o.kind == "stats" {
			// compare as floats: the numbers may need more than 53 bits
			m := map[string]float64{}
			bad := ""
			ctr.Stats(func(k monkit.SeriesKey, field string, val float64) {
				if _, ok := m[field]; ok {
					bad = "field reported twice: " + field
				}
				m[field] = val
			})
			eq := func(field string, v float64) {
				f, ok := m[field]
				if !ok || (f != v && !(math.IsNaN(f) && math.IsNaN(v))) {
					bad = fmt.Sprintf("%s is %v, should be %v", field, f, v)
				}
			}
			eq("value", float64(s.val))
			if s.nonempty {
				eq("low", float64(s.low))
				eq("high", float64(s.high))
			} else {
				eq("low", math.NaN())
				eq("high", math.NaN())
			}
			if len(m) != 3 {
				bad = fmt.Sprintf("stats are %v", m)
			}
			if bad != "" {
				c.Fatalf("step %d: stats of counter %+v: %s", i, s, bad)
			}
			c.Logf("stats %v", m)
		} else {
			got = do(ctr, o)
			s, want = s.apply(o)
			if !same(o, want, got) {
				c.Fatalf("step %d: %s(%d) returned %+v, should be %+v", i, o.kind, o.arg, got, want)
			}
			c.Logf("%s(%d)=%d,%d,%d", o.kind, o.arg, got.a, got.b, got.c)
		}
		c.Events(1)
	}
	if g := []int64{ctr.Current(), ctr.Low(), ctr.High()}; g[0] != s.val || g[1] != s.low || g[2] != s.high {
		c.Failf("current, low and high are %v, should be %+v", g, s)
	}
}

var model = porcupine.Model{
	Init: func() interface{} { return state{} },
	Step: func(st, in, out interface{}) (bool, interface{}) {
		o := in.(op)
		n, want := st.(state).apply(o)
		return same(o, want, out.(res)), n
	},
}

// linear records histories of concurrent operations and searches for an
// order that explains them.
func linear(c *vh.C) {
	ctr := newCounter(c)
	g := 2 + c.Rng.Intn(4)
	per := 4 + c.Rng.Intn(7)
	focus := c.Rng.Intn(6)
	ops := make([][]op, g)
	for i := range ops {
		for j := 0; j < per; j++ {
			ks := kinds
			switch focus {
			case 0: // two sided updates against reads
				ks = []string{"inc", "dec", "stats", "high", "low"}
			case 1: // resets against updates
				ks = []string{"inc", "set", "reset", "reset", "stats"}
			case 2:
				ks = []string{"set", "set", "stats", "cur"}
			case 3:
				ks = []string{"inc", "reset", "high", "cur", "low"}
			}
			ops[i] = append(ops[i], op{kind: ks[c.Rng.Intn(len(ks))], arg: int64(c.Rng.Intn(21)) - 7})
		}
	}
	if c.Rng.Intn(2) == 0 {
		ctr.Set(3)
		ops[0][0] = op{kind: "set", arg: 5}
		ctr.Reset()
	}
	var clock int64
	hist := make([][]porcupine.Operation, g)
	var start sync.WaitGroup
	start.Add(1)
	for i := 0; i < g; i++ {
		i := i
		c.Go(func() {
			start.Wait()
			for _, o := range ops[i] {
				call := atomic.AddInt64(&clock, 1)
				r := do(ctr, o)
				ret := atomic.AddInt64(&clock, 1)
				hist[i] = append(hist[i], porcupine.Operation{ClientId: i, Input: o, Call: call, Output: r, Return: ret})
			}
		})
	}
	start.Done()
	c.Wait()
	var all []porcupine.Operation
	order := make([]int, clock+1)
	for _, h := range hist {
		all = append(all, h...)
		for _, o := range h {
			order[o.Call], order[o.Return] = o.ClientId+1, -o.ClientId-1
		}
	}
	c.Sig(order, focus)
	c.Events(len(all))
	for _, o := range all {
		if r := o.Output.(res); r.bad != "" {
			c.Fatalf("%s", r.bad)
		}
	}
	// the end is part of the history
	end := atomic.AddInt64(&clock, 1)
	for _, k := range []string{"cur", "high", "low", "stats"} {
		o := op{kind: k}
		all = append(all, porcupine.Operation{ClientId: g, Input: o, Call: end, Output: do(ctr, o), Return: end + 1})
		end += 2
	}
	switch porcupine.CheckOperationsTimeout(model, all, 20e9) {
	case porcupine.Illegal:
		for _, o := range all {
			c.Logf("client %d [%d,%d] %s(%d) = %+v", o.ClientId, o.Call, o.Return, o.Input.(op).kind, o.Input.(op).arg, o.Output)
		}
		c.Failf("no order of the operations explains the results of %d concurrent operations", len(all))
	case porcupine.Unknown:
		c.Note("histories_undecided", 1)
	default:
		c.Note("histories_linearizable", 1)
	}
	if c.Idx < 1 {
		for _, o := range all {
			c.Logf("client %d [%d,%d] %s(%d) = %+v", o.ClientId, o.Call, o.Return, o.Input.(op).kind, o.Input.(op).arg, o.Output)
		}
	}
}

// totals checks conservation over many more operations than can be searched.
func totals(c *vh.C) {
	ctr := newCounter(c)
	g := 4 + c.Rng.Intn(5)
	var sum, drained int64
	var wg sync.WaitGroup
	resets := c.Rng.Intn(2) == 0
	seeds := make([]int64, g)
	for i := range seeds {
		seeds[i] = c.Rng.Int63()
	}
	var badMu sync.Mutex
	var bads []string
	fail := func(f string, a ...interface{}) {
		badMu.Lock()
		bads = append(bads, fmt.Sprintf(f, a...))
		badMu.Unlock()
	}
	seen := make([]map[int64]int, g)
	for i := 0; i < g; i++ {
		i := i
		wg.Add(1)
		go func() {
			defer wg.Done()
			x := uint64(seeds[i])
			seen[i] = map[int64]int{}
			for k := 0; k < 200; k++ {
				x ^= x << 13
				x ^= x >> 7
				x ^= x << 17
				switch {
				case resets && x%16 == 0:
					v, l, h := ctr.Reset()
					atomic.AddInt64(&drained, v)
					if l > v || v > h {
						fail("reset returned value %d, low %d, high %d", v, l, h)
					}
				case x%16 == 1:
					if r := stats(ctr, func(f float64) int64 { return int64(f) }); r.bad != "" {
						fail("%s", r.bad)
					}
				default:
					d := int64(1)
					if resets && x%3 == 0 {
						d = -1
					}
					v := ctr.Inc(d)
					atomic.AddInt64(&sum, d)
					if !resets {
						seen[i][v]++
					}
				}
			}
		}()
	}
	wg.Wait()
	c.Events(g * 200)
	c.SigN(uint64(sum*1000 + drained))
	for _, b := range bads {
		c.Failf("%s", b)
	}
	if got := ctr.Current() + drained; got != sum {
		c.Failf("increments of %d in total left %d", sum, got)
	}
	if !resets {
		all := map[int64]int{}
		for _, m := range seen {
			for v, n := range m {
				all[v] += n
			}
		}
		for v := int64(1); v <= sum; v++ {
			if all[v] != 1 {
				c.Failf("value %d was returned %d times by %d unit increments", v, all[v], sum)
				break
			}
		}
		if ctr.High() != sum || ctr.Low() != 1 {
			c.Failf("high is %d and low %d after counting from 1 to %d", ctr.High(), ctr.Low(), sum)
		}
	}
}

func TestCheck(t *testing.T) {
	h := vh.New(t, "C08")
	h.Seq("big", h.N(8), big)
	h.Seq("sequential", h.N(4000), sequential)
	h.Conc("linearizable", h.N(1200), linear)
	h.Conc("totals", h.N(40), totals)
	h.Finish()
}
