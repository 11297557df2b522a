package c04

import (
	"context"
	"fmt"
	"sort"

	"github.com/spacemonkeygo/monkit/v3"

	"verifh/vh"
)

// big has very deep chains, very many children and very many roots.
func big(c *vh.C) {
	r := c.Rng
	reg := monkit.NewRegistry()
	type node struct {
		p      *node
		s      *monkit.Span
		ctx    context.Context
		end    func(*error)
		done   bool
		isRoot bool
	}
	fs := []*monkit.Func{reg.ScopeNamed("b").FuncNamed("f"), reg.ScopeNamed("a").FuncNamed("f"), reg.ScopeNamed("a").FuncNamed("g")}
	n := vh.Many(r, 4000)
	kind := c.Idx % 3 // deep, wide, many roots
	var all []*node
	for len(all) < n {
		x := &node{ctx: context.Background()}
		if k := len(all); k > 0 {
			switch kind {
			case 0:
				x.p = all[k-1]
			case 1:
				x.p = all[r.Intn(1+k/100)]
			case 2:
				if r.Intn(10) == 0 {
					x.p = all[r.Intn(k)]
				}
			}
		}
		if x.p != nil {
			x.ctx = x.p.ctx
		}
		x.end = fs[r.Intn(3)].Task(&x.ctx)
		x.s = monkit.SpanFromCtx(x.ctx)
		all = append(all, x)
	}
	sorted := func(l []*monkit.Span) []*monkit.Span {
		sort.Slice(l, func(i, j int) bool {
			a, b := l[i].Func().FullName(), l[j].Func().FullName()
			return a < b || a == b && l[i].Id() < l[j].Id()
		})
		return l
	}
	look := func() {
		live, roots, kids := map[*monkit.Span]int{}, []*monkit.Span{}, map[*monkit.Span][]*monkit.Span{}
		for _, x := range all {
			if x.done {
				continue
			}
			live[x.s] = 0
			if x.p == nil || x.p.done {
				roots = append(roots, x.s)
			}
			if x.p != nil {
				kids[x.p.s] = append(kids[x.p.s], x.s)
			}
		}
		same := func(what string, got, want []*monkit.Span) {
			if len(got) != len(want) {
				c.Fatalf("%s: %d spans, want %d", what, len(got), len(want))
			}
			for i := range got {
				if got[i] != want[i] {
					c.Fatalf("%s: span %d of %d is the wrong one", what, i, len(got))
				}
			}
		}
		var got []*monkit.Span
		reg.RootSpans(func(s *monkit.Span) { got = append(got, s) })
		same("roots", got, sorted(roots))
		for _, x := range all {
			if k := kids[x.s]; len(k) > 10 || r.Intn(20) == 0 {
				got = nil
				x.s.Children(func(s *monkit.Span) { got = append(got, s) })
				same("children", got, sorted(k))
			}
			if !x.done && x.s.Orphaned() != (x.p != nil && x.p.done) {
				c.Fatalf("orphaned: %v", x.s.Orphaned())
			}
		}
		seen := 0
		reg.AllSpans(func(s *monkit.Span) {
			k, ok := live[s]
			if !ok || k != 0 {
				c.Fatalf("all spans: visited a span %d times before, it is live: %v", k, ok)
			}
			live[s]++
			seen++
		})
		if seen != len(live) {
			c.Fatalf("all spans: visited %d, %d are live", seen, len(live))
		}
		c.Events(seen)
	}
	look()
	order := r.Perm(n)
	for i, k := range order {
		all[k].done = true
		all[k].end(nil)
		if i == n/4 || i == n/2 || i == n-10 || i == n-1 {
			look()
		}
	}
	c.Sig(fmt.Sprint(kind, n))
}
