package c13

import (
	"fmt"

	"github.com/spacemonkeygo/monkit/v3"

	"verifh/src"
	"verifh/vh"
)

// big reads scopes of very many sources, or very many scopes.
func big(c *vh.C) {
	r := c.Rng
	w := &world{c: c, reg: monkit.NewRegistry(), scopes: map[string]*monkit.Scope{}, taken: map[string]bool{}}
	n, ns := vh.Many(r, 6000), 1+r.Intn(3)
	switch {
	case c.Idx == 0:
		n, ns = 5000, 1
	case c.Idx%2 == 1:
		n, ns = 0, vh.Many(r, 1500)
		if r.Intn(2) == 0 {
			n = vh.Many(r, 300)
		}
	}
	only := -1
	if c.Idx > 0 && r.Intn(2) == 0 {
		only = r.Intn(len(kinds))
	}
	for i := 0; i < ns; i++ {
		w.scope(fmt.Sprint("scope", i))
	}
	for i := 0; i < n; i++ {
		k := kinds[i%len(kinds)]
		if only >= 0 {
			k = kinds[only]
		}
		name := fmt.Sprint("n", i)
		if i == n/2 {
			name += vh.Long(r, 20000)
		}
		s := src.Make(w.scope(fmt.Sprint("scope", r.Intn(ns))), k, name, nil, r)
		s.Update(r)
		w.srcs = append(w.srcs, s)
	}
	if ns < 10 {
		w.checkAll()
	} else {
		w.compare(src.Read(w.reg), "", true)
		last := ""
		k := 0
		w.reg.Scopes(func(s *monkit.Scope) {
			if k > 0 && s.Name() <= last {
				c.Fatalf("scope %q comes after %q", s.Name(), last)
			}
			if w.scopes[s.Name()] != s {
				c.Fatalf("scope %q is another object", s.Name())
			}
			last = s.Name()
			k++
		})
		if k != ns {
			c.Fatalf("%d scopes listed of %d", k, ns)
		}
		fs := map[*monkit.Func]bool{}
		w.reg.Funcs(func(f *monkit.Func) {
			if fs[f] {
				c.Fatalf("function %s listed twice", f.FullName())
			}
			fs[f] = true
		})
		want := 0
		for _, s := range w.srcs {
			if s.Kind == "func" {
				want++
			}
		}
		if len(fs) != want {
			c.Fatalf("%d functions listed of %d", len(fs), want)
		}
	}
	c.Sig(n, ns, only)
	c.Note("most sources and scopes", int64(n+ns))
}
