package c09

import (
	"time"

	"github.com/spacemonkeygo/monkit/v3"

	"verifh/vh"
)

// many makes very many observations of one value and one distribution.
func many[T int64 | float64 | time.Duration](c *vh.C, k kind[T]) {
	r := c.Rng
	src, obs := k.mk(c)
	d := k.mkDist()
	var m ref[T]
	n := vh.Many(r, 300000)
	var vals []T
	for i := 0; i < 1000; i++ {
		// sums have to be exact
		vals = append(vals, T(r.Intn(2000)-1000))
	}
	rare := n - 1 - r.Intn(n/2)
	for i := 0; i < n; i++ {
		v := vals[r.Intn(len(vals))]
		if i == rare { // late extremes count as well
			v = T(r.Intn(2)*20000 - 10000)
		}
		obs(v)
		d.insert(v)
		m.add(v)
		if i%20000 == 0 || i == n-1 {
			want := m.snap(k.toFloat)
			for what, g := range map[string]snap{"value": read(src), "distribution": read(d.src)} {
				if !g.eq(want) {
					c.Fatalf("after %d observations the stats of the %s %s are %+v, should be %+v", m.count, k.name, what, g, want)
				}
			}
			if cnt, sum, low, high, recent, _ := d.fields(); cnt != m.count || sum != m.sum || low != m.low || high != m.high || recent != m.recent {
				c.Fatalf("after %d observations %v %v %v %v %v, should be %+v", m.count, cnt, sum, low, high, recent, m)
			}
		}
	}
	c.Events(2 * n)
	c.Sig(k.name, n, m)
}

func big(c *vh.C) {
	switch c.Idx % 4 {
	case 0:
		many(c, ints)
	case 1:
		many(c, floats)
	case 2:
		many(c, durs)
	case 3:
		r := c.Rng
		b := monkit.NewBoolVal(key)
		n := vh.Many(r, 300000)
		var t, f float64
		for i := 0; i < n; i++ {
			v := r.Intn(3) == 0
			b.Observe(v)
			if v {
				t++
			} else {
				f++
			}
			if i%20000 == 0 || i == n-1 {
				got := map[string]float64{}
				b.Stats(func(_ monkit.SeriesKey, field string, val float64) { got[field] = val })
				rec := 0.0
				if v {
					rec = 1
				}
				if got["true"] != t || got["false"] != f || got["disposition"] != t-f || got["recent"] != rec {
					c.Fatalf("after %v true and %v false the stats are %v", t, f, got)
				}
			}
		}
		c.Events(n)
		c.Sig("bool", t, f)
	}
}
