package c14

import (
	"fmt"

	"github.com/spacemonkeygo/monkit/v3"

	"verifh/src"
	"verifh/vh"
)

// big has very many transformers, or very many series for a few of them.
func big(c *vh.C) {
	r := c.Rng
	if c.Idx%2 == 0 {
		reg := monkit.NewRegistry()
		one := fixed(r)
		reg.ScopeNamed("s").Chain(one)
		n := vh.Many(r, 1000)
		var cur *monkit.Registry = reg
		var list []monkit.CallbackTransformer
		for i := 0; i < n; i++ {
			i := i
			t := monkit.CallbackTransformerFunc(func(cb func(monkit.SeriesKey, string, float64)) func(monkit.SeriesKey, string, float64) {
				return func(k monkit.SeriesKey, f string, v float64) { cb(k, fmt.Sprintf("%.100000s/%d", f, i), v) }
			})
			list = append(list, t)
			cur = cur.WithTransformers(t)
		}
		for what, s := range map[string]monkit.StatSource{
			"one after the other": cur, "all at once": reg.WithTransformers(list...), "as a source": monkit.TransformStatSource(reg, list...)} {
			want := src.Read(reg)
			for i := len(list) - 1; i >= 0; i-- {
				for k := range want {
					want[k].Field += fmt.Sprintf("/%d", i)
				}
			}
			got := src.Read(s)
			c.Events(n)
			if show(got) != show(want) {
				c.Fatalf("%d transformers, %s: %.300s should be %.300s", n, what, show(got), show(want))
			}
		}
		c.SigN(uint64(n))
		return
	}
	// very many series
	n := vh.Many(r, 10000)
	var got []src.Stat
	dt := monkit.NewDeltaTransformer()
	cb := dt.Transform(func(k monkit.SeriesKey, f string, v float64) { got = append(got, src.Stat{Key: k, Field: f, Val: v}) })
	long := ""
	if r.Intn(2) == 0 {
		long = vh.Long(r, 3000)
		n = n%500 + 1
	}
	keys := make([]monkit.SeriesKey, n)
	vals := make([]float64, n)
	for i := range keys {
		keys[i] = monkit.NewSeriesKey(fmt.Sprint(long, "m", i/3)).WithTag("t", fmt.Sprint(long, i%3))
	}
	for round := 0; round < 3; round++ {
		for _, i := range r.Perm(n) {
			v := float64(r.Intn(1000))
			got = nil
			cb(keys[i], "total", v)
			c.Events(1)
			want := 1
			if round > 0 {
				want = 2
			}
			if len(got) != want || got[0].Val != v || round > 0 && (got[1].Field != "delta" || got[1].Val != v-vals[i]) {
				c.Fatalf("round %d, series %d of %d: passes on %.300s after %v", round, i, n, show(got), vals[i])
			}
			vals[i] = v
		}
	}
	c.SigN(uint64(n))
}
