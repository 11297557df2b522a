package c03

import (
	"context"

	"github.com/spacemonkeygo/monkit/v3"

	"verifh/vh"
)

// big has very deep and very wide call trees, and contexts that were derived
// very often.
func big(c *vh.C) {
	r := c.Rng
	f := monkit.NewRegistry().ScopeNamed("s").FuncNamed("f")
	type node struct {
		s   *monkit.Span
		ctx context.Context
		end func(*error)
	}
	n := vh.Many(r, 5000)
	wide := r.Intn(2) == 0
	type key int
	start := func(p *node) *node {
		x := &node{ctx: context.Background()}
		if p != nil {
			x.ctx = p.ctx
		}
		for k := r.Intn(3) * r.Intn(40); k > 0; k-- {
			x.ctx = context.WithValue(x.ctx, key(k), k)
		}
		x.end = f.Task(&x.ctx)
		x.s = monkit.SpanFromCtx(x.ctx)
		return x
	}
	root := start(nil)
	all := []*node{root}
	ids := map[int64]bool{root.s.Id(): true}
	for len(all) < n {
		p := all[len(all)-1]
		if wide {
			p = all[r.Intn(1+len(all)/50)]
		}
		x := start(p)
		if id, ok := x.s.ParentId(); !ok || id != p.s.Id() {
			c.Fatalf("span %d of %d has parent %d (%v), want %d", len(all), n, id, ok, p.s.Id())
		}
		if x.s.Trace() != root.s.Trace() {
			c.Fatalf("span %d of %d is in another trace", len(all), n)
		}
		if ids[x.s.Id()] || x.s.Id() < 0 {
			c.Fatalf("span %d of %d has id %d", len(all), n, x.s.Id())
		}
		ids[x.s.Id()] = true
		all = append(all, x)
		if k := root.s.Trace().Spans(); k != int64(len(all)) {
			c.Fatalf("the trace has %d unfinished spans, want %d", k, len(all))
		}
	}
	r.Shuffle(len(all), func(i, j int) { all[i], all[j] = all[j], all[i] })
	for i, x := range all {
		x.end(nil)
		if k := root.s.Trace().Spans(); k != int64(len(all)-i-1) {
			c.Fatalf("the trace has %d unfinished spans, want %d", k, len(all)-i-1)
		}
	}
	// very many arguments
	args := make([]interface{}, vh.Many(r, 2000))
	for i := range args {
		args[i] = i
	}
	ctx := context.Background()
	end := f.Task(&ctx, args...)
	if got := monkit.SpanFromCtx(ctx).Args(); len(got) != len(args) {
		c.Failf("%d arguments, want %d", len(got), len(args))
	}
	end(nil)
	c.SigN(uint64(n)<<1 | uint64(len(ids)&1))
	c.Events(2 * n)
}
