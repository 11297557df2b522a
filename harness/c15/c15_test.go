package c15

import (
	"fmt"
	"math/rand"
	"sort"
	"strings"
	"testing"

	"github.com/spacemonkeygo/monkit/v3"

	"verifh/src"
	"verifh/vh"
)

// word is nasty; sometimes without backslash.
func word(r *rand.Rand) string {
	switch r.Intn(4) {
	case 0:
		n := r.Intn(4)
		b := make([]byte, n)
		for i := range b {
			b[i] = ",= ab\\\n"[r.Intn(7)]
		}
		return string(b)
	case 1:
		return string("abcxyz"[r.Intn(6)])
	default:
		return src.Word(r)
	}
}

func escape(s, what string) string {
	var b strings.Builder
	for i := 0; i < len(s); i++ {
		if strings.IndexByte(what, s[i]) >= 0 {
			b.WriteByte('\\')
		}
		b.WriteByte(s[i])
	}
	return b.String()
}

func tagText(m map[string]string) string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	var parts []string
	for _, k := range ks {
		parts = append(parts, escape(k, ",= ")+"="+escape(m[k], ",= "))
	}
	return strings.Join(parts, ",")
}

func keyText(meas string, m map[string]string) string {
	t := escape(meas, ", ")
	if len(m) > 0 {
		t += "," + tagText(m)
	}
	return t
}

// parse reads back the text of a key with a field.
func parse(text string) (meas string, tags map[string]string, field string, ok bool) {
	i := 0
	token := func(stop string) string {
		var b strings.Builder
		for i < len(text) && strings.IndexByte(stop, text[i]) < 0 {
			if text[i] == '\\' && i+1 < len(text) {
				i++
			}
			b.WriteByte(text[i])
			i++
		}
		return b.String()
	}
	tags = map[string]string{}
	meas = token(", ")
	for i < len(text) && text[i] == ',' {
		i++
		k := token("=")
		if i >= len(text) {
			return "", nil, "", false
		}
		i++
		v := token(", ")
		if _, dup := tags[k]; dup {
			return "", nil, "", false
		}
		tags[k] = v
	}
	if i >= len(text) || text[i] != ' ' {
		return "", nil, "", false
	}
	i++
	field = token(", =")
	return meas, tags, field, i == len(text)
}

type keyM struct {
	k    monkit.SeriesKey
	meas string
	m    map[string]string
}

func clone(m map[string]string) map[string]string {
	n := make(map[string]string, len(m))
	for k, v := range m {
		n[k] = v
	}
	return n
}

func checkKey(c *vh.C, e *keyM, words []string) {
	c.Events(1)
	t := e.k.Tags
	if e.k.Measurement != e.meas {
		c.Fatalf("measurement is %q, should be %q", e.k.Measurement, e.meas)
	}
	if t.Len() != len(e.m) {
		c.Fatalf("tag set has %d tags, should be %q", t.Len(), e.m)
	}
	all := t.All()
	if len(all) != len(e.m) {
		c.Fatalf("all tags are %q, should be %q", all, e.m)
	}
	for k, v := range e.m {
		if t.Get(k) != v || all[k] != v {
			c.Fatalf("tag %q is %q and %q, should be %q", k, t.Get(k), all[k], v)
		}
	}
	for _, w := range words {
		if t.Get(w) != e.m[w] {
			c.Fatalf("tag %q is %q, should be %q", w, t.Get(w), e.m[w])
		}
	}
	if got, want := t.String(), tagText(e.m); got != want {
		c.Fatalf("text of tags is %q, should be %q", got, want)
	}
	if got, want := e.k.String(), keyText(e.meas, e.m); got != want {
		c.Fatalf("text of key is %q, should be %q", got, want)
	}
}

func parts(e *keyM, field string) []string {
	l := []string{e.meas, field}
	for k, v := range e.m {
		l = append(l, k, v)
	}
	return l
}

func derive(c *vh.C) {
	words := make([]string, 3+c.Rng.Intn(8))
	for i := range words {
		words[i] = word(c.Rng)
	}
	w := func() string { return words[c.Rng.Intn(len(words))] }
	all := []*keyM{{k: monkit.NewSeriesKey("m"), meas: "m", m: map[string]string{}}}
	var mutable []func()
	texts := map[string]string{}
	n := 5 + c.Rng.Intn(40)
	for i := 0; i < n; i++ {
		from := all[c.Rng.Intn(len(all))]
		e := &keyM{meas: from.meas, m: clone(from.m)}
		op := c.Rng.Intn(7)
		switch op {
		case 0:
			e.meas = w()
			e.m = map[string]string{}
			e.k = monkit.NewSeriesKey(e.meas)
		case 1:
			k, v := w(), w()
			e.m[k] = v
			e.k = from.k.WithTag(k, v)
		case 2:
			tags := make([]monkit.SeriesTag, 0, 10)
			for k := c.Rng.Intn(4); k > 0; k-- {
				t := monkit.NewSeriesTag(w(), w())
				tags = append(tags, t)
				e.m[t.Key] = t.Val
			}
			e.k = from.k.WithTags(tags...)
			mutable = append(mutable, func() {
				for k := range tags {
					tags[k].Val = "changed"
				}
			})
		case 3:
			kvs := map[string]string{}
			for k := c.Rng.Intn(4); k > 0; k-- {
				kvs[w()] = w()
			}
			for k, v := range kvs {
				e.m[k] = v
			}
			e.k = from.k
			e.k.Tags = from.k.Tags.SetAll(kvs)
			mutable = append(mutable, func() {
				for k := range kvs {
					kvs[k] = "changed"
				}
				kvs["new"] = "x"
			})
		case 4:
			k, v := w(), w()
			e.m[k] = v
			e.k = from.k
			e.k.Tags = from.k.Tags.Set(k, v)
		case 5:
			e.k = from.k
			e.k.Tags = from.k.Tags.SetAll(nil)
		default:
			// nothing but a rendering in between
			_ = from.k.Tags.String()
			_ = from.k.WithField(w())
			continue
		}
		c.Sig(op, e.meas, tagText(e.m))
		c.Logf("op %d: %q %q", op, e.meas, e.m)
		if c.Rng.Intn(2) == 0 {
			checkKey(c, e, words)
		}
		all = append(all, e)
	}
	for _, f := range mutable {
		f()
	}
	for _, e := range all {
		checkKey(c, e, words)
		field := w()
		text := e.k.WithField(field)
		if want := keyText(e.meas, e.m) + " " + escape(field, ",= "); text != want {
			c.Fatalf("text with field is %q, should be %q", text, want)
		}
		if strings.Contains(strings.Join(parts(e, field), ""), `\`) {
			continue
		}
		meas, tags, f, ok := parse(text)
		if !ok || meas != e.meas || f != field || tagText(tags) != tagText(e.m) {
			c.Fatalf("text %q of %q %q %q parses as %q %q %q", text, e.meas, e.m, field, meas, tags, f)
		}
		id := src.ID(e.meas, e.m, field)
		if other, ok := texts[text]; ok && other != id {
			c.Fatalf("%s and %s have the same text %q", other, id, text)
		}
		texts[text] = id
	}
}

// nilSet: the nil tag set is the empty one.
func nilSet(c *vh.C) {
	var t *monkit.TagSet
	if t.Len() != 0 || t.Get("x") != "" || t.String() != "" || len(t.All()) != 0 {
		c.Failf("nil tag set is not empty")
	}
	for _, n := range []*monkit.TagSet{t.Set("a", "b"), t.SetAll(map[string]string{"a": "b"}), t.SetTags(monkit.NewSeriesTag("a", "b")),
		(&monkit.TagSet{}).Set("a", "b")} {
		if n.Len() != 1 || n.Get("a") != "b" || n.String() != "a=b" {
			c.Failf("tag set derived from nil is %q", n.String())
		}
	}
	var e monkit.TagSet
	if e.Len() != 0 || e.Get("x") != "" || e.String() != "" || len(e.All()) != 0 {
		c.Failf("zero tag set is not empty")
	}
	for _, n := range []*monkit.TagSet{t.SetAll(nil), t.SetTags()} {
		if n.Len() != 0 || n.String() != "" {
			c.Failf("empty tag set is %q", n.String())
		}
		k := monkit.SeriesKey{Measurement: "m", Tags: n}
		if k.String() != "m" || k.WithField("f") != "m f" {
			c.Failf("key with empty tags is %q", k.WithField("f"))
		}
	}
	c.Events(8)
	c.SigN(1)
}

// shared: goroutines render and derive from the same sets.
func shared(c *vh.C) {
	root := &keyM{k: monkit.NewSeriesKey("m,1"), meas: "m,1", m: map[string]string{}}
	keys := []*keyM{root}
	for i := 0; i < 4; i++ {
		f := keys[c.Rng.Intn(len(keys))]
		e := &keyM{meas: f.meas, m: clone(f.m)}
		k, v := word(c.Rng), word(c.Rng)
		e.m[k] = v
		e.k = f.k.WithTag(k, v)
		keys = append(keys, e)
	}
	g := 2 + c.Rng.Intn(4)
	for i := 0; i < g; i++ {
		r := rand.New(rand.NewSource(c.Rng.Int63()))
		c.Go(func() {
			for k := 0; k < 12; k++ {
				e := keys[r.Intn(len(keys))]
				switch r.Intn(4) {
				case 0:
					if got, want := e.k.Tags.String(), tagText(e.m); got != want {
						c.Fatalf("text of tags is %q, should be %q", got, want)
					}
				case 1:
					if got, want := e.k.WithField("f"), keyText(e.meas, e.m)+" f"; got != want {
						c.Fatalf("text is %q, should be %q", got, want)
					}
				case 2:
					a, b := word(r), word(r)
					m := clone(e.m)
					m[a] = b
					if got, want := e.k.WithTag(a, b).String(), keyText(e.meas, m); got != want {
						c.Fatalf("text of derived key is %q, should be %q", got, want)
					}
				default:
					for kk, v := range e.m {
						if e.k.Tags.Get(kk) != v {
							c.Fatalf("tag %q is %q, should be %q", kk, e.k.Tags.Get(kk), v)
						}
					}
				}
				c.Events(1)
			}
		})
	}
	c.Wait()
	for _, e := range keys {
		checkKey(c, e, nil)
	}
	c.Sig(g, fmt.Sprint(keys[1].m, keys[2].m, keys[3].m, keys[4].m))
}

func TestCheck(t *testing.T) {
	h := vh.New(t, "C15")
	h.Seq("big", h.N(16), big)
	h.Seq("derived", h.N(6000), derive)
	h.Seq("nil", 1, nilSet)
	h.Conc("shared", h.N(500), shared)
	h.Finish()
}
