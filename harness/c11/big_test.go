package c11

import (
	"time"

	"github.com/spacemonkeygo/monkit/v3"

	"verifh/vh"
)

// big has very many meters at once, or very many marks between ticks.
func big(c *vh.C) {
	r := c.Rng
	offTick(time.Duration(r.Int63n(int64(tick))))
	type meter struct {
		m *monkit.Meter
		r *ref
	}
	n, marks := vh.Many(r, 3000), 1
	if c.Idx%2 == 1 {
		n, marks = 2, 10000
	}
	if c.Idx == 0 {
		n = 3000
	}
	var ms []meter
	for i := 0; i < n; i++ {
		ms = append(ms, meter{monkit.NewMeter(key), newRef(time.Now())})
	}
	base := int64(r.Intn(1000))
	for round := 0; round < keep+5; round++ {
		for i, m := range ms {
			m.r.advance(time.Now())
			for k := 0; k < marks; k++ {
				// no two rounds and meters alike
				a := base + int64(round+1)*int64(i+k+1)
				m.m.Mark64(a)
				m.r.b[keep-1].count += a
			}
		}
		offTick(tick + time.Duration(r.Intn(1000)))
		if round%7 != 0 && round != keep+4 {
			continue
		}
		now := time.Now()
		for i, m := range ms {
			rate, total := m.r.stats(now)
			if g, t := m.m.Rate(), m.m.Total(); !close64(g, rate) || t != float64(total) {
				c.Fatalf("meter %d of %d, round %d: rate %v, should be %v; total %v, should be %v", i, n, round, g, rate, t, total)
			}
			c.Events(2)
		}
	}
	c.SigN(uint64(n))
	c.Note("most meters at once", int64(n))
}
