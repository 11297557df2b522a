package c07

import (
	"context"
	"math/rand"

	"github.com/spacemonkeygo/monkit/v3"
	"github.com/spacemonkeygo/monkit/v3/collect"

	"verifh/vh"
)

// big collects very deep and very wide subtrees.
func big(c *vh.C) {
	r := c.Rng
	w := newWorld(c)
	n := vh.Many(r, 4000)
	deep := r.Intn(2) == 0
	plain := func() *rand.Rand { return rand.New(rand.NewSource(3)) }
	var spans []*collect.FinishedSpan
	tree := func(root *rec) {
		all := []*rec{root}
		for len(all) < n {
			p := all[len(all)-1]
			if !deep {
				p = all[r.Intn(1+len(all)/20)]
			}
			all = append(all, w.start(plain(), p.ctx, p, "f"))
		}
		for i := len(all) - 1; i > 0; i-- {
			w.finish(r, all[i])
		}
	}
	if r.Intn(2) == 0 {
		col := collect.NewSpanCollector(matcher)
		defer collect.ObserveAllTraces(w.reg, col)()
		root := w.start(plain(), context.Background(), nil, "match")
		tree(root)
		w.finish(r, root)
		spans = col.Spans()
	} else {
		top := w.start(plain(), context.Background(), nil, "top")
		spans = collect.CollectSpans(top.ctx, func(ctx context.Context) {
			x := &rec{ctx: ctx, s: monkit.SpanFromCtx(ctx)}
			w.mu.Lock()
			w.bySpn[x.s] = x
			w.mu.Unlock()
			tree(x)
		})
		w.finish(r, top)
	}
	if len(spans) != n {
		c.Fatalf("%d spans, want %d", len(spans), n)
	}
	at := map[int64]bool{}
	for i, s := range spans {
		if id, ok := s.Span.ParentId(); i > 0 && (!ok || !at[id]) {
			c.Fatalf("span %d comes before its parent", i)
		}
		if at[s.Span.Id()] {
			c.Fatalf("span %d comes twice", i)
		}
		at[s.Span.Id()] = true
		if x := w.bySpn[s.Span]; x == nil || i > 0 && (s.Err != x.err || s.Panicked != x.panicked) {
			c.Fatalf("span %d has error %v, panicked %v", i, s.Err, s.Panicked)
		}
	}
	c.SigN(uint64(n)<<1 | uint64(len(spans)&1))
	c.Events(n)
}
