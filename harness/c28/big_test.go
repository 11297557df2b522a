package c28

import (
	"context"
	"fmt"

	"github.com/spacemonkeygo/monkit/v3"

	"verifh/vh"
)

// big has functions with very many callers, and very many functions.
func big(c *vh.C) {
	r := c.Rng
	reg := monkit.NewRegistry()
	n := vh.Many(r, 5000)
	var targets []*monkit.Func
	for i := 0; i < 3; i++ {
		targets = append(targets, reg.ScopeNamed("t").FuncNamed(fmt.Sprint("target", i)))
	}
	want := make([]map[*monkit.Func]bool, len(targets))
	for i := range want {
		want[i] = map[*monkit.Func]bool{}
	}
	for i := 0; i < n; i++ {
		p := caller(reg, i)
		ctx := context.Background()
		exit := p.Task(&ctx)
		k := r.Intn(len(targets))
		if r.Intn(n) < 3 {
			p, ctx = nil, context.Background()
		}
		for x := 1 + r.Intn(2); x > 0; x-- {
			inner := ctx
			targets[k].Task(&inner)(nil)
		}
		want[k][p] = true
		exit(nil)
		c.Events(1)
	}
	for i, f := range targets {
		got := parents(c, f)
		if len(got) != len(want[i]) {
			c.Failf("%s has %d parents, want %d", name(f), len(got), len(want[i]))
		}
		for p := range want[i] {
			if !got[p] {
				c.Failf("%s lacks parent %s", name(f), name(p))
				break
			}
		}
	}
	c.SigN(uint64(n))
	c.Note("calls from many callers", int64(n))
}
