package c01

import (
	"context"
	"fmt"

	"github.com/spacemonkeygo/monkit/v3"

	"verifh/vh"
)

type namedErr string

func (e namedErr) Error() string        { return string(e) }
func (e namedErr) Name() (string, bool) { return string(e), true }

// big has functions that fail in very many ways, very many calls in progress
// at once, and very many functions.
func big(c *vh.C) {
	r := c.Rng
	s := monkit.NewRegistry().ScopeNamed("s")
	f := s.FuncNamed("f")
	names, deep := vh.Many(r, 3000), vh.Many(r, 5000)
	want := map[string]int64{}
	ctx := context.Background()
	var ends []func(*error)
	for i := 0; i < deep; i++ {
		x := ctx
		ends = append(ends, f.Task(&x))
		if r.Intn(3) != 0 {
			ctx = x
		}
		if f.Current() != int64(i+1) || f.Highwater() != int64(i+1) {
			c.Fatalf("%d calls in progress: current %d, highwater %d", i+1, f.Current(), f.Highwater())
		}
	}
	ok, total := int64(0), int64(deep)
	for i, end := range ends {
		if i%5 == 0 {
			ok++
			end(nil)
			continue
		}
		n := fmt.Sprint("error ", i%names)
		var err error = namedErr(n)
		want[n]++
		end(&err)
	}
	for i := 0; i < names; i++ {
		n := fmt.Sprint("error ", i)
		var err error = namedErr(n)
		want[n]++
		total++
		f.Task(nil)(&err)
	}
	got := f.Errors()
	if len(got) != len(want) || f.Success() != ok || f.Panics() != 0 || f.Current() != 0 || f.Highwater() != int64(deep) {
		c.Fatalf("%d error names, want %d; %d successes, want %d; %d panics; current %d; highwater %d, want %d", len(got), len(want),
			f.Success(), ok, f.Panics(), f.Current(), f.Highwater(), deep)
	}
	counts := int64(0)
	f.Stats(func(key monkit.SeriesKey, field string, v float64) {
		switch n := key.Tags.Get("error_name"); {
		case n != "":
			if field != "count" || v != float64(want[n]) {
				c.Failf("%s of %q is %v, want %d", field, n, v, want[n])
			}
			counts++
		case field == "errors" || field == "failures":
			if v != float64(total-ok) {
				c.Failf("%d %s, want %v", int(v), field, total-ok)
			}
		case field == "total" && v != float64(total):
			c.Failf("total %v, want %d", v, total)
		}
	})
	if counts != int64(len(want)) {
		c.Failf("the stats have %d error names, want %d", counts, len(want))
	}
	for n, k := range want {
		if got[n] != k {
			c.Fatalf("%d errors %q, want %d", got[n], n, k)
		}
	}
	// and very many functions
	nf := vh.Many(r, 3000)
	for k := 0; k < 2; k++ {
		for i := 0; i < nf; i++ {
			s.FuncNamed(fmt.Sprint("g", i)).Task(nil)(nil)
		}
	}
	for i := 0; i < nf; i++ {
		if g := s.FuncNamed(fmt.Sprint("g", i)); g.Success() != 2 || g.Highwater() != 1 || g.Current() != 0 {
			c.Fatalf("function %d of %d: %d successes", i, nf, g.Success())
		}
	}
	c.SigN(uint64(names)<<32 | uint64(deep))
	c.Events(int(total) + 2*nf)
}
