package c08

import "verifh/vh"

// big does very many operations on one counter.
func big(c *vh.C) {
	r := c.Rng
	ctr := newCounter(c)
	var s state
	n := vh.Many(r, 300000)
	drift := int64(r.Intn(5) - 2)
	kinds := []string{"inc", "dec", "set", "inc"}[:1+r.Intn(4)]
	for i := 0; i < n; i++ {
		o := op{kind: kinds[r.Intn(len(kinds))], arg: int64(r.Intn(9)-4) + drift}
		var want res
		s, want = s.apply(o)
		if got := do(ctr, o); !same(o, want, got) {
			c.Fatalf("operation %d of %d: %s(%d) returned %+v, should be %+v", i, n, o.kind, o.arg, got, want)
		}
		if i%1000 == 999 || i == n-1 {
			for _, k := range []string{"cur", "high", "low", "stats"} {
				o := op{kind: k}
				if _, want := s.apply(o); !same(o, want, do(ctr, o)) {
					c.Fatalf("after %d operations %s is %+v, should be %+v", i+1, k, do(ctr, o), want)
				}
			}
		}
	}
	c.Events(n)
	c.SigN(uint64(n))
}
