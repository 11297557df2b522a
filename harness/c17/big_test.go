package c17

import (
	"fmt"

	"github.com/spacemonkeygo/monkit/v3"

	"verifh/vh"
)

// big has very many and very long values and annotations.
func big(c *vh.C) {
	r := c.Rng
	n := vh.Many(r, 6000)
	c.SigN(uint64(n)<<1 | uint64(c.Idx&1))
	text := func(i int) string {
		if r.Intn(n) < 3 {
			return vh.Long(r, 30000)
		}
		return fmt.Sprint("x", i)
	}
	if c.Idx%2 == 0 {
		t := getTrace(c)
		model := map[interface{}]interface{}{}
		var keys []interface{}
		for i := 0; i < n; i++ {
			k, v := interface{}(i), interface{}(i)
			if r.Intn(2) == 0 {
				k, v = text(i), text(i)
			}
			t.Set(k, v)
			model[k] = v
			keys = append(keys, k)
			if j := keys[r.Intn(len(keys))]; t.Get(j) != model[j] {
				c.Fatalf("value of %.60v is %.60v, should be %.60v", j, t.Get(j), model[j])
			}
		}
		for _, k := range keys {
			if t.Get(k) != model[k] {
				c.Fatalf("value of %.60v is %.60v, should be %.60v", k, t.Get(k), model[k])
			}
		}
		if all := t.GetAll(); !sameMap(all, model) {
			c.Fatalf("all %d values of %d are others", len(all), len(model))
		}
		c.Events(n)
		return
	}
	s, exit := newSpan(c)
	var model []monkit.Annotation
	for i := 0; i < n; i++ {
		a := monkit.Annotation{Name: text(i), Value: text(i)}
		s.Annotate(a.Name, a.Value)
		model = append(model, a)
		if i%100 == 99 && r.Intn(5) == 0 {
			if got := s.Annotations(); !eqAnn(got, model) {
				c.Fatalf("%d annotations are not the %d made", len(got), len(model))
			}
		}
	}
	if r.Intn(2) == 0 {
		exit(nil)
	}
	if got := s.Annotations(); !eqAnn(got, model) {
		c.Fatalf("%d annotations are not the %d made", len(got), len(model))
	}
	c.Events(n)
}
