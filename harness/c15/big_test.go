package c15

import (
	"fmt"
	"strings"

	"github.com/spacemonkeygo/monkit/v3"

	"verifh/vh"
)

// big makes keys of many tags and of long texts.
func big(c *vh.C) {
	r := c.Rng
	text := func() string {
		switch r.Intn(3) {
		case 0:
			return vh.Long(r, 20000)
		case 1:
			return strings.Repeat(",= x"[r.Intn(4):][:1], vh.Many(r, 20000))
		}
		return strings.Repeat("x", vh.Many(r, 20000)) + ", ="
	}
	e := &keyM{meas: word(r), m: map[string]string{}}
	if c.Idx%2 == 1 {
		e.meas = text()
	}
	e.k = monkit.NewSeriesKey(e.meas)
	n := 1 + r.Intn(3)
	if c.Idx%2 == 0 {
		n = vh.Many(r, 400)
	}
	var keys []string
	var tags []monkit.SeriesTag
	for i := 0; i < n; i++ {
		k, v := fmt.Sprint("k", r.Intn(2*n)), word(r)
		if c.Idx%2 == 1 {
			if r.Intn(2) == 0 {
				k = text()
			}
			if r.Intn(2) == 0 {
				v = text()
			}
		}
		keys = append(keys, k)
		tags = append(tags, monkit.NewSeriesTag(k, v))
	}
	half := tags
	if r.Intn(2) == 0 {
		half = tags[:r.Intn(n+1)]
	}
	e.k = e.k.WithTags(half...)
	for i, t := range tags {
		if i >= len(half) {
			e.k = e.k.WithTag(t.Key, t.Val)
		}
		e.m[t.Key] = t.Val
	}
	words := append(keys, "k", "")
	checkKey(c, e, words)
	more := &keyM{e.k.WithTag("other", "x"), e.meas, clone(e.m)}
	more.m["other"] = "x"
	checkKey(c, more, words)
	// one that differs in the last place only is another key
	for _, t := range tags {
		o := e.k.WithTag(t.Key, e.m[t.Key]+"!")
		if o.String() == e.k.String() || o.WithField("f") == e.k.WithField("f") {
			c.Fatalf("keys with different values of tag %.80q have the same text", t.Key)
		}
	}
	checkKey(c, e, words)
	c.Sig(c.Idx, n, len(e.k.String()))
}
