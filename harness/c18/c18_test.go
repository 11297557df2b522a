package c18

import (
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"io"
	"math"
	"sort"
	"strconv"
	"strings"
	"sync/atomic"
	"testing"
	"time"

	"github.com/spacemonkeygo/monkit/v3"
	"github.com/spacemonkeygo/monkit/v3/collect"
	"github.com/spacemonkeygo/monkit/v3/present"

	"verifh/pw"
	"verifh/src"
	"verifh/vh"
)

type obj = map[string]interface{}

// parse parses a list of JSON values.
func parse(c *vh.C, what string, data []byte) (out []interface{}) {
	d := json.NewDecoder(bytes.NewReader(data))
	d.UseNumber()
	var v interface{}
	if err := d.Decode(&v); err != nil {
		c.Fatalf("%s is not valid JSON: %v\n%.2000s", what, err, data)
	}
	if !json.Valid(data) {
		c.Fatalf("%s is not one valid JSON document\n%.2000s", what, data)
	}
	list, ok := v.([]interface{})
	if !ok {
		c.Fatalf("%s is a %T, not a JSON array", what, v)
	}
	return list
}

// trip is what a string looks like after having been JSON.
func trip(s string) string {
	data, _ := json.Marshal(s)
	var out string
	_ = json.Unmarshal(data, &out)
	return out
}

func num(n int64) json.Number { return json.Number(strconv.FormatInt(n, 10)) }

func get(v interface{}, path ...string) interface{} {
	for _, p := range path {
		m, ok := v.(obj)
		if !ok {
			return nil
		}
		x, ok := m[p]
		if !ok {
			return missing
		}
		v = x
	}
	return v
}

type missingT struct{}

var missing = missingT{}

func eq(c *vh.C, what string, got, want interface{}) {
	g, w := fmt.Sprintf("%#v", got), fmt.Sprintf("%#v", want)
	if g != w {
		c.Failf("%s is %.300s, want %.300s", what, g, w)
	}
}

func strs(ss []string) []interface{} {
	out := []interface{}{}
	for _, s := range ss {
		out = append(out, trip(s))
	}
	return out
}

func anns(as []monkit.Annotation) []interface{} {
	out := []interface{}{}
	for _, a := range as {
		out = append(out, []interface{}{trip(a.Name), trip(a.Value)})
	}
	return out
}

func common(c *vh.C, what string, e interface{}, s *pw.Sp) {
	eq(c, what+".id", get(e, "id"), num(s.S.Id()))
	switch {
	case s.Remote != nil:
		eq(c, what+".parent_id", get(e, "parent_id"), num(*s.Remote))
	case s.Parent != nil:
		eq(c, what+".parent_id", get(e, "parent_id"), num(s.Parent.S.Id()))
	default:
		if p := get(e, "parent_id"); p != missing && p != nil {
			c.Failf("%s.parent_id is %v, want none", what, p)
		}
	}
	eq(c, what+".func.package", get(e, "func", "package"), trip(s.F.Scope))
	eq(c, what+".func.name", get(e, "func", "name"), trip(s.F.Name))
	eq(c, what+".trace.id", get(e, "trace", "id"), num(s.Trace.Id()))
	eq(c, what+".start", get(e, "start"), num(s.Start.UnixNano()))
	eq(c, what+".orphaned", get(e, "orphaned"), s.Orphaned)
	// arguments are quoted once more, or not
	var quoted []string
	for _, a := range s.ArgTexts() {
		quoted = append(quoted, fmt.Sprintf("%#v", a))
	}
	args := get(e, "args")
	if fmt.Sprint(args) != fmt.Sprint(strs(s.ArgTexts())) {
		eq(c, what+".args", args, strs(quoted))
	}
	eq(c, what+".annotations", get(e, "annotations"), anns(s.Anns))
}

func idOf(c *vh.C, what string, e interface{}) int64 {
	n, ok := get(e, "id").(json.Number)
	if !ok {
		c.Fatalf("%s: element without id: %v", what, e)
	}
	id, err := n.Int64()
	if err != nil {
		c.Fatalf("%s: id %v", what, n)
	}
	return id
}

func render(c *vh.C, what string, f func(w io.Writer) error) []byte {
	var buf bytes.Buffer
	if err := f(&buf); err != nil {
		c.Fatalf("%s returned %v", what, err)
	}
	return buf.Bytes()
}

func checkLive(c *vh.C, w *pw.W) {
	f := func(o io.Writer) error { return present.SpansJSON(w.Reg, o) }
	list := parse(c, "SpansJSON", render(c, "SpansJSON", f))
	now := time.Now()
	seen := map[int64]bool{}
	for _, e := range list {
		id := idOf(c, "SpansJSON", e)
		s := w.ByID[id]
		if s == nil || s.Done || seen[id] {
			c.Failf("SpansJSON lists span %d: known=%v again=%v", id, s != nil, seen[id])
			continue
		}
		seen[id] = true
		what := fmt.Sprintf("SpansJSON span %d", s.Idx)
		common(c, what, e, s)
		eq(c, what+".elapsed", get(e, "elapsed"), num(now.Sub(s.Start).Nanoseconds()))
	}
	if len(seen) != len(w.Live) {
		c.Failf("SpansJSON lists %d of %d live spans", len(seen), len(w.Live))
	}
	c.Events(len(list))
	if c.Rng.Intn(4) == 0 {
		pw.Faults(c, "SpansJSON", f, 10)
	}
}

func checkFinished(c *vh.C, w *pw.W) {
	list, sps := w.Pick()
	f := func(o io.Writer) error { return present.SpansToJSON(o, list) }
	got := parse(c, "SpansToJSON", render(c, "SpansToJSON", f))
	if len(got) != len(sps) {
		c.Fatalf("SpansToJSON has %d elements for %d spans", len(got), len(sps))
	}
	for i, s := range sps {
		what := fmt.Sprintf("SpansToJSON element %d (span %d)", i, s.Idx)
		common(c, what, got[i], s)
		eq(c, what+".finish", get(got[i], "finish"), num(s.Finish.UnixNano()))
		eq(c, what+".panicked", get(got[i], "panicked"), s.Panicked)
		text := ""
		if s.Err != nil {
			text = trip(s.Err.Error())
		}
		eq(c, what+".err", get(got[i], "err"), text)
	}
	c.Events(len(got))
	if c.Rng.Intn(4) == 0 {
		pw.Faults(c, "SpansToJSON", f, 10)
	}
}

func checkDist(c *vh.C, what string, e interface{}, ds []time.Duration) {
	near := func(name string, want float64) {
		n, ok := get(e, name).(json.Number)
		x, err := n.Float64()
		if !ok || err != nil || !pw.Near(x, want) {
			c.Failf("%s.%s is %v, want %v", what, name, get(e, name), want)
		}
	}
	var lo, hi, recent time.Duration
	for i, d := range ds {
		if i == 0 || d < lo {
			lo = d
		}
		if i == 0 || d > hi {
			hi = d
		}
		recent = d
	}
	near("average", pw.Avg(ds))
	near("full_average", pw.Avg(ds))
	if len(ds) <= 64 {
		near("reservoir_average", pw.Avg(ds))
	}
	eq(c, what+".max", get(e, "max"), num(int64(hi)))
	eq(c, what+".min", get(e, "min"), num(int64(lo)))
	eq(c, what+".recent", get(e, "recent"), num(int64(recent)))
	qs, ok := get(e, "quantiles").(obj)
	if !ok || len(qs) != len(monkit.ObservedQuantiles) {
		c.Failf("%s.quantiles is %v", what, get(e, "quantiles"))
		return
	}
	for _, q := range monkit.ObservedQuantiles {
		name := fmt.Sprintf("%.02f", q)
		n, ok := qs[name].(json.Number)
		x, err := n.Float64()
		want := pw.Quantile(ds, q)
		if !ok || err != nil || (len(ds) <= 64 && !pw.Near(x, want)) {
			c.Failf("%s quantile %s is %v, want %v", what, name, qs[name], want)
		}
	}
}

func checkFuncs(c *vh.C, w *pw.W) {
	f := func(o io.Writer) error { return present.FuncsJSON(w.Reg, o) }
	list := parse(c, "FuncsJSON", render(c, "FuncsJSON", f))
	byID := map[int64]*pw.Fn{}
	for _, fn := range w.Fns {
		byID[fn.F.Id()] = fn
	}
	seen := map[int64]bool{}
	for _, e := range list {
		id := idOf(c, "FuncsJSON", e)
		fn := byID[id]
		if fn == nil || seen[id] {
			c.Failf("FuncsJSON lists function %d: known=%v again=%v", id, fn != nil, seen[id])
			continue
		}
		seen[id] = true
		what := fmt.Sprintf("FuncsJSON %q", fn.Full())
		eq(c, what+".package", get(e, "package"), trip(fn.Scope))
		eq(c, what+".name", get(e, "name"), trip(fn.Name))
		eq(c, what+".current", get(e, "current"), num(fn.Current))
		eq(c, what+".highwater", get(e, "highwater"), num(fn.High))
		eq(c, what+".success", get(e, "success"), num(int64(len(fn.Ok))))
		eq(c, what+".panics", get(e, "panics"), num(fn.Panics))
		eq(c, what+".entry", get(e, "entry"), fn.Parents[nil])
		var want, have []string
		for p := range fn.Parents {
			if p != nil {
				want = append(want, fmt.Sprint(p.F.Id()))
			}
		}
		if l, ok := get(e, "parent_ids").([]interface{}); ok {
			for _, x := range l {
				have = append(have, fmt.Sprint(x))
			}
		}
		sort.Strings(want)
		sort.Strings(have)
		eq(c, what+".parent_ids", strings.Join(have, " "), strings.Join(want, " "))
		// names that become the same in JSON are left alone
		errs := map[string]int64{}
		clash := false
		for n, k := range fn.Errs {
			if _, ok := errs[trip(n)]; ok {
				clash = true
			}
			errs[trip(n)] += k
		}
		if m, ok := get(e, "errors").(obj); !ok {
			c.Failf("%s.errors is %v", what, get(e, "errors"))
		} else if !clash {
			if len(m) != len(errs) {
				c.Failf("%s.errors is %v, want %v", what, m, errs)
			}
			for n, k := range errs {
				eq(c, fmt.Sprintf("%s.errors[%q]", what, n), m[n], num(k))
			}
		}
		checkDist(c, what+".success_times", get(e, "success_times"), fn.Ok)
		checkDist(c, what+".failure_times", get(e, "failure_times"), fn.Fail)
	}
	if len(seen) != len(w.Fns) {
		c.Failf("FuncsJSON lists %d of %d functions", len(seen), len(w.Fns))
	}
	c.Events(len(list))
	if c.Rng.Intn(4) == 0 {
		pw.Faults(c, "FuncsJSON", f, 10)
	}
}

func world(c *vh.C) {
	w := pw.New(c, 1+c.Rng.Intn(5))
	for k := 0; k < 2; k++ {
		w.Play(5 + c.Rng.Intn(25))
		checkLive(c, w)
		checkFuncs(c, w)
		checkFinished(c, w)
		if c.Failed() {
			return
		}
	}
	w.Drain()
	checkLive(c, w)
	checkFinished(c, w)
}

var specials = []float64{math.NaN(), math.Inf(1), math.Inf(-1), math.MaxFloat64, -math.MaxFloat64, math.SmallestNonzeroFloat64,
	0, 1e21, 1e-7, 1.5, -2, 1 << 53, 0.1, 123456789.123}

func stats(c *vh.C) {
	r := c.Rng
	reg := monkit.NewRegistry()
	var srcs []*src.Source
	used := map[string]bool{}
	for i := r.Intn(8); i > 0; i-- {
		sn, name, kind := src.Word(r), vh.Nasty(r), src.Kinds[r.Intn(len(src.Kinds))]
		if used[sn+"\x00"+name] {
			continue
		}
		used[sn+"\x00"+name] = true
		srcs = append(srcs, src.Make(reg.ScopeNamed(sn), kind, name, src.Tags(r, vh.Nasty), r))
		c.Sig(kind, name)
	}
	for i := r.Intn(3); i > 0; i-- {
		name, field, val := vh.Nasty(r), vh.Nasty(r), specials[r.Intn(len(specials))]
		c.Sig(name, field, val)
		tag := vh.Nasty(r)
		reg.ScopeNamed(vh.Nasty(r)).Chain(monkit.StatSourceFunc(func(cb func(monkit.SeriesKey, string, float64)) {
			cb(monkit.NewSeriesKey(name).WithTag(tag, tag), field, val)
			cb(monkit.NewSeriesKey(name), field, val)
		}))
	}
	for _, s := range srcs {
		for k := r.Intn(4); k > 0; k-- {
			s.Update(r)
		}
	}
	desc := func(meas string, tags map[string]string, field string, val float64) string {
		var t interface{}
		data, _ := json.Marshal(tags)
		_ = json.Unmarshal(data, &t)
		v := fmt.Sprintf("%v", val)
		if math.IsNaN(val) || math.IsInf(val, 0) {
			v = "none"
		}
		if t == nil {
			t = map[string]interface{}{}
		}
		return fmt.Sprintf("%q %q %q %v", trip(meas), t, trip(field), v)
	}
	want := map[string]int{}
	n := 0
	for _, s := range src.Read(reg) {
		want[desc(s.Key.Measurement, s.Key.Tags.All(), s.Field, s.Val)]++
		n++
	}
	f := func(o io.Writer) error { return present.StatsJSON(reg, o) }
	list := parse(c, "StatsJSON", render(c, "StatsJSON", f))
	if len(list) != n {
		c.Failf("StatsJSON has %d elements for %d stats", len(list), n)
	}
	for _, e := range list {
		l, ok := e.([]interface{})
		if !ok || len(l) != 4 {
			c.Fatalf("StatsJSON element %v", e)
		}
		meas, ok1 := l[0].(string)
		field, ok2 := l[2].(string)
		tags, ok3 := l[1].(obj)
		if l[1] == nil {
			tags, ok3 = obj{}, true
		}
		v := "none"
		if num, ok := l[3].(json.Number); ok {
			x, err := num.Float64()
			if err != nil {
				c.Fatalf("StatsJSON value %v", num)
			}
			v = fmt.Sprintf("%v", x)
		} else if l[3] != nil {
			c.Fatalf("StatsJSON value %#v", l[3])
		}
		if !ok1 || !ok2 || !ok3 {
			c.Fatalf("StatsJSON element %v", e)
		}
		k := fmt.Sprintf("%q %q %q %v", meas, map[string]interface{}(tags), field, v)
		if want[k] == 0 {
			c.Failf("StatsJSON says %s, which is not (or no longer) expected", k)
			break
		}
		want[k]--
	}
	c.Events(len(list))
	if c.Rng.Intn(4) == 0 {
		pw.Faults(c, "StatsJSON", f, 10)
	}
}

// racing renders while functions run: every document must be valid, and what
// stays must be in it.
func racing(c *vh.C) {
	w := pw.New(c, 4)
	w.Play(12)
	var stop int32
	for g := 0; g < 3; g++ {
		g := g
		c.Go(func() {
			for k := 0; k < 400 && atomic.LoadInt32(&stop) == 0; k++ {
				ctx := context.Background()
				if g == 1 && len(w.Live) > 0 {
					ctx = monkit.SpanFromCtx(w.Live[0].S)
				}
				exit := w.Fns[k%len(w.Fns)].F.Task(&ctx, "churn", k)
				monkit.SpanFromCtx(ctx).Annotate("a\"", "\n")
				w.Fns[(k+1)%len(w.Fns)].F.Task(&ctx, g)(nil)
				var err error
				if k%3 == 0 {
					err = &pw.Self{N: "<\"", Text: "x"}
				}
				exit(&err)
			}
		})
	}
	stay := map[int64]bool{}
	for _, s := range w.Live {
		ok := true
		for p := s.Parent; p != nil; p = p.Parent {
			ok = ok && !p.Done
		}
		if ok {
			stay[s.S.Id()] = true
		}
	}
	for k := 0; k < 4; k++ {
		list := parse(c, "SpansJSON", render(c, "SpansJSON", func(o io.Writer) error { return present.SpansJSON(w.Reg, o) }))
		seen := map[int64]int{}
		for _, e := range list {
			seen[idOf(c, "SpansJSON", e)]++
		}
		for id := range stay {
			if seen[id] != 1 {
				c.Failf("SpansJSON during other calls lists staying span %d %d times", id, seen[id])
			}
		}
		c.SigN(uint64(len(list)))
		fl := parse(c, "FuncsJSON", render(c, "FuncsJSON", func(o io.Writer) error { return present.FuncsJSON(w.Reg, o) }))
		if len(fl) != len(w.Fns) {
			c.Failf("FuncsJSON during calls lists %d functions, want %d", len(fl), len(w.Fns))
		}
		sl := parse(c, "StatsJSON", render(c, "StatsJSON", func(o io.Writer) error { return present.StatsJSON(w.Reg, o) }))
		c.SigN(uint64(len(sl)))
		c.Events(len(list) + len(fl) + len(sl))
	}
	atomic.StoreInt32(&stop, 1)
	c.Wait()
}

// collected renders what a real collection returned.
func collected(c *vh.C) {
	w := pw.New(c, 3)
	fn := w.Fns[0].F
	ctx := context.Background()
	exit := fn.Task(&ctx)
	var ids []int64
	spans := collect.CollectSpans(ctx, func(ctx context.Context) {
		ids = append(ids, monkit.SpanFromCtx(ctx).Id())
		for i := c.Rng.Intn(6); i > 0; i-- {
			cctx := ctx
			e := fn.Task(&cctx, pw.Arg(c.Rng))
			ids = append(ids, monkit.SpanFromCtx(cctx).Id())
			var err error
			e(&err)
		}
	})
	exit(nil)
	list := parse(c, "SpansToJSON", render(c, "SpansToJSON", func(o io.Writer) error { return present.SpansToJSON(o, spans) }))
	if len(list) != len(ids) {
		c.Fatalf("%d elements for %d collected spans", len(list), len(ids))
	}
	for i := range list {
		if got := idOf(c, "SpansToJSON", list[i]); got != ids[i] {
			c.Failf("element %d has id %d, want %d", i, got, ids[i])
		}
	}
	c.SigN(uint64(len(ids)))
	c.Events(len(ids))
}

// together renders several worlds at the same time.
func together(c *vh.C) {
	var rs []pw.Rendering
	for i := 0; i < 2; i++ {
		w := pw.New(c, 1+c.Rng.Intn(3))
		w.Play(5 + c.Rng.Intn(15))
		for name, f := range map[string]func(*monkit.Registry, io.Writer) error{
			"SpansJSON": present.SpansJSON, "FuncsJSON": present.FuncsJSON, "StatsJSON": present.StatsJSON} {
			f := f
			rs = append(rs, pw.Rendering{What: name, F: func(o io.Writer) error { return f(w.Reg, o) }})
		}
		for k := 0; k < 2; k++ {
			list, _ := w.Pick()
			rs = append(rs, pw.Rendering{What: "SpansToJSON", F: func(o io.Writer) error { return present.SpansToJSON(o, list) }})
		}
	}
	pw.Together(c, rs)
}

func TestCheck(t *testing.T) {
	vh.Bubble(t, "C18", func(h *vh.H) {
		h.Seq("big", h.N(9), big)
		h.Seq("world", h.N(150), world)
		h.Seq("stats", h.N(600), stats)
		h.Seq("collected", h.N(100), collected)
		h.Conc("racing", h.N(40), racing)
		h.Conc("together", h.N(40), together)
	})
}
