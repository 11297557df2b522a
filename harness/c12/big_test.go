package c12

import (
	"fmt"

	"github.com/spacemonkeygo/monkit/v3"

	"verifh/src"
	"verifh/vh"
)

// big asks twice for many scopes, for many sources of a scope, for sources with
// many tags, and for ones with long names, keys and values that differ little.
func big(c *vh.C) {
	r := c.Rng
	reg := monkit.NewRegistry()
	kind := func(i int) string { return src.Kinds[i%(len(src.Kinds)-1)] } // no gauges
	type q struct {
		scope, kind, name string
		tags              []monkit.SeriesTag
	}
	var asks []q
	switch c.Idx % 4 {
	case 0: // scopes
		n := vh.Many(r, 5000)
		for i := 0; i < n; i++ {
			asks = append(asks, q{fmt.Sprint("s", i), kind(i), "x", nil})
		}
	case 1: // sources
		n := vh.Many(r, 5000)
		k := r.Intn(100)
		for i := 0; i < n; i++ {
			a := q{"s", kind(i*k + k), fmt.Sprint("n", i/2), nil}
			if i%2 == 1 {
				a.tags = []monkit.SeriesTag{monkit.NewSeriesTag("k", "v")}
			}
			asks = append(asks, a)
		}
	case 2: // tags; each one differs in one of them
		n := vh.Many(r, 200)
		for i := -1; i < n; i++ {
			a := q{"s", kind(r.Intn(100)), "x", nil}
			for j := 0; j < n; j++ {
				v := "v"
				if i == j {
					v = "w"
				}
				a.tags = append(a.tags, monkit.NewSeriesTag(fmt.Sprintf("k%03d", j), v))
			}
			asks = append(asks, a)
		}
		for i := 1; i < n; i++ { // and fewer of them
			asks = append(asks, q{"s", kind(r.Intn(100)), "x", asks[0].tags[:i]})
		}
	case 3: // long texts
		base := vh.Long(r, 20000)
		for i := 0; i < 12; i++ {
			b := []byte(base)
			switch i {
			case 0:
			case 1:
				b = append(b, 'x')
			case 2:
				b = append([]byte{'x'}, b...)
			case 3:
				b[len(b)-1]++
			default:
				b[r.Intn(len(b))]++
			}
			t := string(b)
			for k := 0; k < 4; k++ {
				a := q{"s", kind(r.Intn(100)), "x", nil}
				switch k {
				case 0:
					a.scope = t
				case 1:
					a.name = t
				case 2:
					a.tags = []monkit.SeriesTag{monkit.NewSeriesTag(t, "v")}
				case 3:
					a.tags = []monkit.SeriesTag{monkit.NewSeriesTag("k", t)}
				}
				asks = append(asks, a)
			}
		}
	}
	model := map[string]interface{}{}
	kinds := map[string]string{}
	objs := map[interface{}]string{}
	scopes := map[string]*monkit.Scope{}
	for round := 0; round < 2; round++ {
		for _, a := range asks {
			id := fmt.Sprintf("%q %q %q", a.scope, a.name, a.tags)
			fid := fmt.Sprint(a.kind == "func", id)
			s := reg.ScopeNamed(a.scope)
			c.Events(1)
			if old := scopes[a.scope]; s.Name() != a.scope || old != nil && old != s {
				c.Fatalf("asking for scope %.60q gave %.60q, the same as before: %v", a.scope, s.Name(), old == s)
			}
			scopes[a.scope] = s
			k := a.kind
			if was := kinds[fid]; was != "" {
				k = was
			}
			kinds[fid] = k
			obj := src.Get(s, k, a.name, append([]monkit.SeriesTag(nil), a.tags...), r)
			if obj == nil { // a DiffMeter
				continue
			}
			if old, ok := model[fid]; ok && old != obj {
				c.Fatalf("asking for %s %.300s again gave another object", k, id)
			}
			if other, ok := objs[obj]; ok && other != fid {
				c.Fatalf("%.300s and %.300s are the same %s", fid, other, k)
			}
			model[fid], objs[obj] = obj, fid
		}
	}
	c.SigN(uint64(c.Idx)<<32 | uint64(len(asks)))
	c.Note("sources told apart in large numbers", int64(len(objs)))
}
