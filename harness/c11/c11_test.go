package c11

import (
	"fmt"
	"math"
	"math/rand"
	"runtime"
	"sync"
	"sync/atomic"
	"testing"
	"time"

	"github.com/spacemonkeygo/monkit/v3"

	"verifh/vh"
)

const (
	keep = 24
	tick = 10 * time.Minute
)

var (
	key = monkit.NewSeriesKey("meter")
	t0  time.Time // when the first meter was made; ticks come every 10 minutes from there
)

type bucket struct {
	count int64
	start time.Time
}

// ref is the model of a meter.
type ref struct {
	base   int64 // initial or reset total plus what left the window
	b      [keep]bucket
	last   time.Time // ticks up to here are applied
	marked int64
}

func newRef(now time.Time) *ref {
	r := &ref{last: now}
	for i := range r.b {
		r.b[i].start = now
	}
	return r
}

func (r *ref) advance(now time.Time) {
	k := int64(r.last.Sub(t0)/tick) + 1
	for {
		at := t0.Add(time.Duration(k) * tick)
		if at.After(now) {
			break
		}
		if r.b[keep-1].count != 0 {
			r.base += r.b[0].count
			copy(r.b[:], r.b[1:])
			r.b[keep-1] = bucket{start: at}
		}
		k++
	}
	r.last = now
}

func (r *ref) stats(now time.Time) (rate float64, total int64) {
	r.advance(now)
	var sum int64
	for _, b := range r.b {
		sum += b.count
	}
	d := now.Sub(r.b[0].start).Seconds()
	if d > 0 {
		rate = float64(sum) / d
	}
	return rate, r.base + sum
}

func close64(a, b float64) bool {
	return a == b || math.Abs(a-b) <= 1e-9*math.Max(math.Abs(a), math.Abs(b))
}

func readStats(s monkit.StatSource) (rate, total float64, bad string) {
	n := map[string]int{}
	m := map[string]float64{}
	s.Stats(func(_ monkit.SeriesKey, f string, v float64) { n[f]++; m[f] = v })
	if len(n) != 2 || n["rate"] != 1 || n["total"] != 1 {
		return 0, 0, fmt.Sprint("stats fields ", n)
	}
	return m["rate"], m["total"], ""
}

// offTick sleeps so that the time afterwards is not exactly that of a tick.
func offTick(d time.Duration) {
	if (time.Since(t0)+d)%tick == 0 {
		d++
	}
	time.Sleep(d)
}

// apart changes the amount such that the sum of the current interval is not
// zero: whether something was marked in it would be a matter of taste.
func apart(r *ref, a int64) int64 {
	r.advance(time.Now())
	if r.b[keep-1].count+a == 0 {
		a++
	}
	return a
}

// someTotal is often one of many that are close but too large for a float64.
func someTotal(r *rand.Rand) int64 {
	if r.Intn(2) == 0 {
		return 1<<60 + int64(r.Intn(2000)) - 1000
	}
	return vh.Int64(r) / (1 << 12)
}

func sequential(c *vh.C) {
	type meter struct {
		m     *monkit.Meter
		r     *ref
		clean bool // nothing marked yet
	}
	var ms []*meter
	type diff struct {
		d    monkit.StatSource
		a, b int
	}
	var ds []diff
	sc := monkit.NewRegistry().ScopeNamed("s")
	mk := func() {
		var m *monkit.Meter
		if c.Rng.Intn(2) == 0 {
			m = monkit.NewMeter(key)
		} else {
			m = sc.Meter(fmt.Sprint("m", len(ms)))
		}
		ms = append(ms, &meter{m: m, r: newRef(time.Now()), clean: true})
	}
	offTick(time.Duration(c.Rng.Int63n(int64(tick))))
	mk()
	slow := c.Rng.Intn(3)                 // how time passes
	sign := c.Rng.Intn(4) * c.Rng.Intn(2) // how many marks are corrections
	check := func() {
		now := time.Now()
		for i, m := range ms {
			rate, total := m.r.stats(now)
			if g := m.m.Total(); g != float64(total) {
				c.Fatalf("total of meter %d is %v, should be %v", i, g, total)
			}
			if g := m.m.Rate(); !close64(g, rate) {
				c.Fatalf("rate of meter %d is %v, should be %v; window %+v at %v", i, g, rate, m.r.b, now)
			}
			gr, gt, bad := readStats(m.m)
			if bad != "" || !close64(gr, rate) || gt != float64(total) {
				c.Fatalf("stats of meter %d are rate %v total %v, should be %v and %v %s", i, gr, gt, rate, total, bad)
			}
			c.Events(3)
		}
		for _, d := range ds {
			r1, t1 := ms[d.a].r.stats(now)
			r2, t2 := ms[d.b].r.stats(now)
			gr, gt, bad := readStats(d.d)
			// the difference of close numbers is less precise
			if bad != "" || math.Abs(gr-(r1-r2)) > 1e-9*math.Max(math.Abs(r1), math.Abs(r2)) || gt != float64(t1-t2) {
				c.Fatalf("difference of meters %d and %d is rate %v total %v, should be %v and %v %s", d.a, d.b, gr, gt, r1-r2, t1-t2, bad)
			}
			c.Events(1)
		}
	}
	n := 20 + c.Rng.Intn(120)
	for i := 0; i < n; i++ {
		m := ms[c.Rng.Intn(len(ms))]
		switch x := c.Rng.Intn(20); {
		case x < 8:
			var a int64
			switch c.Rng.Intn(8) {
			case 0:
				a = []int64{1 << 40, math.MaxInt32, 1 << 20}[c.Rng.Intn(3)]
			case 1:
				a = -int64(c.Rng.Intn(40))
			default:
				a = int64(c.Rng.Intn(20)) + 1
			}
			if c.Rng.Intn(4) < sign {
				a = -a
			}
			a = apart(m.r, a)
			m.r.advance(time.Now())
			m.r.b[keep-1].count += a
			m.clean = false
			if c.Rng.Intn(2) == 0 && int64(int(a)) == a {
				m.m.Mark(int(a))
			} else {
				m.m.Mark64(a)
			}
			c.Logf("mark %d", a)
			c.Sig("m", a)
		case x < 15:
			var d time.Duration
			switch slow {
			case 0:
				d = time.Duration(c.Rng.Int63n(int64(tick)))
			case 1:
				d = tick + time.Duration(c.Rng.Int63n(int64(time.Minute)))
			default:
				d = time.Duration(c.Rng.Int63n(int64(90 * time.Minute)))
			}
			offTick(d)
			c.Logf("sleep %v", d)
			c.Sig("s", int64(d))
		case x == 15 && c.Rng.Intn(3) == 0:
			v := someTotal(c.Rng)
			m.m.Reset(v)
			m.r = newRef(time.Now())
			m.r.base = v
			m.clean = true
			c.Logf("reset %d", v)
		case x == 16 && m.clean:
			v := someTotal(c.Rng)
			m.m.SetTotal(v)
			m.r.base = v
			c.Logf("set total %d", v)
		case x == 17 && len(ms) < 4:
			mk()
			c.Logf("new meter")
		case x == 18 && len(ds) < 3:
			a, b := c.Rng.Intn(len(ms)), c.Rng.Intn(len(ms))
			var d monkit.StatSource
			if c.Rng.Intn(2) == 0 {
				d = monkit.NewDiffMeter(key, ms[a].m, ms[b].m)
			} else {
				own := monkit.NewRegistry().ScopeNamed("d")
				own.DiffMeter("d", ms[a].m, ms[b].m)
				d = own
			}
			ds = append(ds, diff{d, a, b})
			c.Logf("difference of %d and %d", a, b)
		default:
			check()
		}
	}
	check()
}

// long keeps marking for longer than the window.
func long(c *vh.C) {
	offTick(time.Duration(c.Rng.Int63n(int64(tick))))
	m := monkit.NewMeter(key)
	r := newRef(time.Now())
	skip := 1 + c.Rng.Intn(4)
	sign := c.Rng.Intn(7) * c.Rng.Intn(2)
	for i := 0; i < 80; i++ {
		a := int64(1) << uint(c.Rng.Intn(20))
		if c.Rng.Intn(6) < sign {
			a = -a
		}
		a = apart(r, a)
		if c.Rng.Intn(skip) == 0 {
			m.Mark64(a)
			r.b[keep-1].count += a
			c.Sig(i, a)
		}
		offTick(time.Duration(float64(tick) * (0.2 + c.Rng.Float64()*1.5)))
		rate, total := r.stats(time.Now())
		if g := m.Total(); g != float64(total) {
			c.Fatalf("step %d: total is %v, should be %v", i, g, total)
		}
		if g := m.Rate(); !close64(g, rate) {
			c.Fatalf("step %d: rate is %v, should be %v", i, g, rate)
		}
		c.Events(2)
	}
	rate, total := r.stats(time.Now())
	c.Logf("after 80 steps: rate %v total %d, of which %d left the window", rate, total, r.base)
}

// concurrent marks across ticks, many exactly at the ticks.
func concurrent(c *vh.C) {
	offTick(time.Duration(c.Rng.Int63n(int64(tick))))
	m := monkit.NewMeter(key)
	init := int64(c.Rng.Intn(1000))
	m.SetTotal(init)
	m2 := monkit.NewMeter(key)
	dm := monkit.NewDiffMeter(key, m, m2)
	g := 2 + c.Rng.Intn(5)
	per := 5 + c.Rng.Intn(40)
	var begun, ended int64
	var mu sync.Mutex
	var bads []string
	fail := func(f string, a ...interface{}) {
		mu.Lock()
		bads = append(bads, fmt.Sprintf(f, a...))
		mu.Unlock()
	}
	var wg, rw sync.WaitGroup
	stop := int32(0)
	for i := 0; i < 2; i++ {
		rw.Add(1)
		r := rand.New(rand.NewSource(c.Rng.Int63()))
		go func() {
			defer rw.Done()
			last := 0.0
			for atomic.LoadInt32(&stop) == 0 {
				lo := atomic.LoadInt64(&ended)
				rate, t, bad := readStats(m)
				hi := atomic.LoadInt64(&begun)
				if bad != "" {
					fail("%s", bad)
				}
				if t < float64(lo+init) || t > float64(hi+init) {
					fail("total is %v between %d and %d", t, lo+init, hi+init)
				}
				if t < last {
					fail("total went from %v to %v", last, t)
				}
				if rate < 0 || math.IsNaN(rate) {
					fail("rate is %v", rate)
				}
				last = t
				if _, _, bad := readStats(dm); bad != "" {
					fail("%s", bad)
				}
				c.Events(1)
				if r.Intn(3) > 0 {
					d := tick - time.Since(t0)%tick
					if r.Intn(2) == 0 {
						d = time.Duration(r.Int63n(int64(tick)))
					}
					time.Sleep(d)
				}
			}
		}()
	}
	for i := 0; i < g; i++ {
		wg.Add(1)
		r := rand.New(rand.NewSource(c.Rng.Int63()))
		go func() {
			defer wg.Done()
			for k := 0; k < per; k++ {
				a := int64(r.Intn(100) + 1)
				atomic.AddInt64(&begun, a)
				if r.Intn(2) == 0 {
					m.Mark(int(a))
				} else {
					m.Mark64(a)
				}
				atomic.AddInt64(&ended, a)
				m2.Mark(1)
				if r.Intn(3) > 0 {
					// to the very moment of the next tick
					time.Sleep(tick - time.Since(t0)%tick)
				}
			}
		}()
	}
	wg.Wait()
	atomic.StoreInt32(&stop, 1)
	rw.Wait()
	for _, b := range bads {
		c.Failf("%s", b)
	}
	if g := m.Total(); g != float64(init+ended) {
		c.Failf("total is %v after marking %d from %d", g, ended, init)
	}
	if _, t, _ := readStats(dm); t != float64(init+ended)-m2.Total() {
		c.Failf("difference total is %v, should be %v", t, float64(init+ended)-m2.Total())
	}
	// nothing is lost later either
	before := m.Total()
	offTick(5 * time.Hour)
	if g := m.Total(); g != before {
		c.Failf("total went from %v to %v in 5 hours without marks", before, g)
	}
	c.Sig(g, per, ended)
	c.Events(g * per)
}

// resets: a reset concurrent with marks loses or keeps each mark as a whole.
func resets(c *vh.C) {
	m := monkit.NewMeter(key)
	offTick(time.Duration(c.Rng.Int63n(int64(tick))))
	const unit = 1000003
	for round := 0; round < 5; round++ {
		m.Reset(0)
		var wg sync.WaitGroup
		g, per := 2+c.Rng.Intn(4), 1+c.Rng.Intn(20)
		for i := 0; i < g; i++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				for k := 0; k < per; k++ {
					m.Mark(unit)
				}
			}()
		}
		wg.Add(1)
		go func() { defer wg.Done(); m.Reset(7) }()
		wg.Wait()
		t := int64(m.Total())
		if t < 7 || (t-7)%unit != 0 || (t-7)/unit > int64(g*per) {
			c.Fatalf("total is %d after %d marks of %d and a reset to 7", t, g*per, unit)
		}
		c.SigN(uint64((t - 7) / unit))
		c.Events(g * per)
		m.Mark(1)
		if int64(m.Total()) != t+1 {
			c.Fatalf("total went from %d to %v by a mark of 1", t, m.Total())
		}
	}
}

// events: an event is a mark of one of the meter with its name and tags.
func events(c *vh.C) {
	s := monkit.NewRegistry().ScopeNamed("s")
	word := func(r *rand.Rand) string { return []string{"a", "b", "a,b", ""}[r.Intn(4)] }
	type ev struct {
		name string
		tags []monkit.SeriesTag
	}
	pool := make([]ev, 2+c.Rng.Intn(4))
	for i := range pool {
		pool[i].name = word(c.Rng)
		for _, k := range []string{"k", "l"} {
			if c.Rng.Intn(2) == 0 {
				pool[i].tags = append(pool[i].tags, monkit.NewSeriesTag(k, word(c.Rng)))
			}
		}
	}
	want := map[*monkit.Meter]int64{}
	g := 1 + c.Rng.Intn(4)
	gate := make(chan struct{})
	var all []ev
	for i := 0; i < g; i++ {
		var mine []ev
		for k := 1 + c.Rng.Intn(20); k > 0; k-- {
			e := pool[c.Rng.Intn(len(pool))]
			mine = append(mine, e)
			if c.Idx%2 == 0 {
				// the meter exists before
				want[s.Meter(e.name, e.tags...)]++
			}
		}
		c.Sig(i, mine)
		c.Events(len(mine))
		c.Go(func() {
			<-gate
			for _, e := range mine {
				s.Event(e.name, e.tags...)
			}
		})
		all = append(all, mine...)
	}
	close(gate)
	c.Wait()
	for _, e := range all {
		if c.Idx%2 != 0 {
			want[s.Meter(e.name, e.tags...)]++
		}
	}
	for m, n := range want {
		if m.Total() != float64(n) {
			c.Fatalf("a meter with %d events has total %v", n, m.Total())
		}
	}
	n := 0
	s.Stats(func(key monkit.SeriesKey, field string, val float64) {
		if field == "total" {
			n++
		}
	})
	if n != len(want) {
		c.Fatalf("%d meters, want %d", n, len(want))
	}
}

func TestCheck(t *testing.T) {
	if vh.Phase("real") {
		real(t)
		return
	}
	vh.Bubble(t, "C11", func(h *vh.H) {
		t0 = time.Now()
		monkit.NewMeter(key)
		time.Sleep(1)
		h.ConcPar("concurrent", h.N(150), concurrent)
		h.Conc("resets", h.N(100), resets)
		h.Seq("sequential", h.N(400), sequential)
		h.Conc("events", h.N(300), events)
		h.Seq("long", h.N(150), long)
		h.Conc("made at a tick", h.N(60), atTick)
		h.Seq("big", h.N(6), big)
	})
}

// atTick makes meters at the very instant of a tick. All of their windows have
// to advance later.
func atTick(c *vh.C) {
	type meter struct {
		m *monkit.Meter
		r *ref
	}
	g, per := 2+c.Rng.Intn(6), 5+c.Rng.Intn(20)
	all := make([][]meter, g)
	var wg sync.WaitGroup
	for i := range all {
		i := i
		wg.Add(1)
		go func() {
			defer wg.Done()
			time.Sleep(tick - time.Since(t0)%tick)
			for k := 0; k < per; k++ {
				all[i] = append(all[i], meter{monkit.NewMeter(key), newRef(time.Now())})
				c.Events(1)
				runtime.Gosched()
			}
		}()
	}
	wg.Wait()
	first := int64(1000 + c.Rng.Intn(1000))
	rounds := 20 + c.Rng.Intn(20)
	for round := 0; round < rounds; round++ {
		if round == 0 {
			time.Sleep(1)
		} else {
			offTick(tick + time.Duration(c.Rng.Intn(1000)))
		}
		for _, ms := range all {
			for _, m := range ms {
				a := int64(1)
				if round == 0 {
					a = first
				}
				m.r.advance(time.Now())
				m.r.b[keep-1].count += a
				m.m.Mark64(a)
			}
		}
	}
	now := time.Now()
	for i, ms := range all {
		for k, m := range ms {
			rate, total := m.r.stats(now)
			if g, t := m.m.Rate(), m.m.Total(); !close64(g, rate) || t != float64(total) {
				c.Fatalf("meter %d of goroutine %d, made at a tick: rate %v, should be %v; total %v, should be %v", k, i, g, rate, t, total)
			}
		}
	}
	c.Sig(g, per, first, rounds)
}

// real needs time that passes by itself.
func real(t *testing.T) {
	h := vh.New(t, "C11")
	h.Conc("one instant", h.N(300), func(c *vh.C) {
		m := monkit.NewMeter(key)
		m.Mark64(1 << 45)
		d := monkit.NewDiffMeter(key, m, m)
		for i := 0; i < 20; i++ {
			rate, total, bad := readStats(d)
			if rate != 0 || total != 0 || bad != "" {
				c.Fatalf("difference of a meter with itself is rate %v total %v %s", rate, total, bad)
			}
			c.Events(1)
		}
		c.SigN(uint64(c.Idx))
	})
	h.Conc("rates", h.N(100), func(c *vh.C) {
		a := time.Now()
		m := monkit.NewMeter(key)
		b := time.Now()
		amount := int64(c.Rng.Intn(1e6) + 1)
		m.Mark64(amount)
		for i := 0; i < 5; i++ {
			time.Sleep(time.Duration(c.Rng.Intn(200)) * time.Microsecond)
			x := time.Now()
			rate := m.Rate()
			y := time.Now()
			lo, hi := float64(amount)/(y.Sub(a).Seconds()), float64(amount)/(x.Sub(b).Seconds())
			if rate < lo*(1-1e-9) || rate > hi*(1+1e-9) {
				c.Fatalf("rate is %v, should be between %v and %v", rate, lo, hi)
			}
			c.Events(1)
		}
		c.Sig(amount)
	})
	h.Finish()
}
