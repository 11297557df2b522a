package c17

import (
	"context"
	"encoding/json"
	"fmt"
	"math/rand"
	"sync"
	"sync/atomic"
	"testing"

	"github.com/anishathalye/porcupine"
	"github.com/spacemonkeygo/monkit/v3"

	"verifh/vh"
)

type kt struct{ a, b string }

var ptrKey = new(int)

func keyPool() []interface{} {
	return []interface{}{"a", "b", "", 1, int64(1), 1.0, kt{"a", "b"}, kt{"a", "c"}, ptrKey, new(int), nil, true, [2]int{1, 2}, struct{}{}}
}

func getTrace(c *vh.C) *monkit.Trace {
	if c.Rng.Intn(2) == 0 {
		return monkit.NewTrace(5)
	}
	ctx := context.Background()
	f := monkit.NewRegistry().ScopeNamed("s").FuncNamed("f")
	exit := f.Task(&ctx)
	if c.Rng.Intn(2) == 0 {
		defer exit(nil)
	}
	return monkit.SpanFromCtx(ctx).Trace()
}

func sameMap(a, b map[interface{}]interface{}) bool {
	if len(a) != len(b) {
		return false
	}
	for k, v := range a {
		if w, ok := b[k]; !ok || w != v {
			return false
		}
	}
	return true
}

func sequential(c *vh.C) {
	t := getTrace(c)
	other := getTrace(c)
	other.Set("a", "other's")
	model := map[interface{}]interface{}{}
	keys := keyPool()
	c.Rng.Shuffle(len(keys), func(i, j int) { keys[i], keys[j] = keys[j], keys[i] })
	keys = keys[:1+c.Rng.Intn(len(keys))]
	type snap struct{ got, want map[interface{}]interface{} }
	var snaps []snap
	for i := 0; i < 5+c.Rng.Intn(40); i++ {
		k := keys[c.Rng.Intn(len(keys))]
		c.Events(1)
		switch x := c.Rng.Intn(8); x {
		case 0, 1, 2:
			v := []interface{}{i, fmt.Sprint("v", i), nil, &i, kt{"x", fmt.Sprint(i)}}[c.Rng.Intn(5)]
			if c.Rng.Intn(2) == 0 {
				// different values that look alike
				alike := [][]interface{}{
					{1, int64(1), "1", 1.0, json.Number("1"), &kt{"1", ""}, &kt{"1", ""}},
					{true, "true"}, {nil, "<nil>"}, {kt{"", ""}, "{ }", struct{}{}, "{}"},
				}[c.Rng.Intn(4)]
				v = alike[c.Rng.Intn(len(alike))]
			}
			t.Set(k, v)
			model[k] = v
			c.Sig("set", fmt.Sprint(k), i)
			c.Logf("set %v to %v", k, v)
		case 3, 4, 5:
			if got := t.Get(k); got != model[k] {
				c.Fatalf("value of %v is %v, should be %v", k, got, model[k])
			}
		default:
			got := t.GetAll()
			if !sameMap(got, model) {
				c.Fatalf("all values are %v, should be %v", got, model)
			}
			want := map[interface{}]interface{}{}
			for k, v := range model {
				want[k] = v
			}
			if x == 7 {
				// it is the caller's
				for k := range got {
					got[k] = "changed"
					want[k] = "changed"
					break
				}
				if got != nil {
					got["added"] = 1
					want["added"] = 1
				}
			}
			snaps = append(snaps, snap{got, want})
			c.Sig(x)
		}
		for _, s := range snaps {
			if !sameMap(s.got, s.want) {
				c.Fatalf("a map returned earlier changed from %v to %v", s.want, s.got)
			}
		}
	}
	for _, k := range keys {
		if t.Get(k) != model[k] {
			c.Fatalf("value of %v is %v, should be %v", k, t.Get(k), model[k])
		}
	}
	if other.Get("a") != "other's" || len(other.GetAll()) != 1 {
		c.Fatalf("another trace has %v", other.GetAll())
	}
}

type reg struct {
	write bool
	val   interface{}
}

var regModel = porcupine.Model{
	Init: func() interface{} { return interface{}(nil) },
	Step: func(st, in, out interface{}) (bool, interface{}) {
		o := in.(reg)
		if o.write {
			return true, o.val
		}
		return out == st, st
	},
}

func linear(c *vh.C) {
	t := getTrace(c)
	keys := []interface{}{"a", 1, kt{"x", "y"}}[:1+c.Rng.Intn(3)]
	g := 2 + c.Rng.Intn(4)
	per := 4 + c.Rng.Intn(8)
	var clock int64
	hist := make([]map[interface{}][]porcupine.Operation, g)
	var start sync.WaitGroup
	start.Add(1)
	order := make([][]int64, g)
	for i := 0; i < g; i++ {
		i := i
		r := rand.New(rand.NewSource(c.Rng.Int63()))
		hist[i] = map[interface{}][]porcupine.Operation{}
		c.Go(func() {
			start.Wait()
			for j := 0; j < per; j++ {
				k := keys[r.Intn(len(keys))]
				add := func(k interface{}, call, ret int64, in reg, out interface{}) {
					hist[i][k] = append(hist[i][k], porcupine.Operation{ClientId: i, Input: in, Call: call, Output: out, Return: ret})
				}
				call := atomic.AddInt64(&clock, 1)
				switch r.Intn(4) {
				case 0, 1:
					v := i*1000 + j
					t.Set(k, v)
					add(k, call, atomic.AddInt64(&clock, 1), reg{write: true, val: v}, nil)
				case 2:
					v := t.Get(k)
					add(k, call, atomic.AddInt64(&clock, 1), reg{}, v)
				default:
					m := t.GetAll()
					ret := atomic.AddInt64(&clock, 1)
					for _, k := range keys {
						add(k, call, ret, reg{}, m[k])
					}
				}
				order[i] = append(order[i], call)
			}
		})
	}
	start.Done()
	c.Wait()
	c.Sig(order)
	for _, k := range keys {
		var all []porcupine.Operation
		for i := range hist {
			all = append(all, hist[i][k]...)
		}
		end := atomic.AddInt64(&clock, 1)
		all = append(all, porcupine.Operation{ClientId: g, Input: reg{}, Call: end, Output: t.Get(k), Return: atomic.AddInt64(&clock, 1)})
		c.Events(len(all))
		switch porcupine.CheckOperationsTimeout(regModel, all, 20e9) {
		case porcupine.Illegal:
			for _, o := range all {
				c.Logf("client %d [%d,%d] %+v = %v", o.ClientId, o.Call, o.Return, o.Input, o.Output)
			}
			c.Failf("no order of sets and gets of key %v explains the values read", k)
		case porcupine.Unknown:
			c.Note("histories_undecided", 1)
		default:
			c.Note("histories_linearizable", 1)
		}
		if c.Idx < 1 {
			for _, o := range all {
				c.Logf("client %d [%d,%d] %+v = %v", o.ClientId, o.Call, o.Return, o.Input, o.Output)
			}
		}
	}
}

// mapStress: many keys set for the first time at once; none is lost and copies
// are private.
func mapStress(c *vh.C) {
	t := getTrace(c)
	g := 3 + c.Rng.Intn(5)
	per := 20 + c.Rng.Intn(60)
	for i := 0; i < g; i++ {
		i := i
		c.Go(func() {
			for j := 0; j < per; j++ {
				k := kt{fmt.Sprint(i), fmt.Sprint(j)}
				t.Set(k, j)
				if got := t.Get(k); got != j {
					c.Fatalf("value of %v is %v right after setting it to %v", k, got, j)
				}
				if j%10 == 0 {
					m := t.GetAll()
					for x := 0; x <= j; x++ {
						if m[kt{fmt.Sprint(i), fmt.Sprint(x)}] != x {
							c.Fatalf("all values lack one that was set before")
						}
					}
					for k := range m {
						m[k] = nil
					}
				}
				c.Events(1)
			}
		})
	}
	c.Wait()
	// set again, and read meanwhile
	for i := 0; i < g; i++ {
		i := i
		r := rand.New(rand.NewSource(c.Rng.Int63()))
		c.Go(func() {
			for j := 0; j < per; j++ {
				k := kt{fmt.Sprint(i), fmt.Sprint(j)}
				t.Set(k, j+1000)
				t.Set(k, j)
				if j%10 != 0 {
					continue
				}
				m := t.GetAll()
				if len(m) != g*per {
					c.Fatalf("%d values of %d while they are set again", len(m), g*per)
				}
				for x := 0; x < per; x++ {
					o := r.Intn(g)
					v, ok := m[kt{fmt.Sprint(o), fmt.Sprint(x)}].(int)
					if !ok || v != x && v != x+1000 || o == i && v != x {
						c.Fatalf("value %d of goroutine %d is %v", x, o, m[kt{fmt.Sprint(o), fmt.Sprint(x)}])
					}
				}
			}
		})
	}
	c.Wait()
	m := t.GetAll()
	if len(m) != g*per {
		c.Failf("%d values of %d", len(m), g*per)
	}
	for i := 0; i < g; i++ {
		for j := 0; j < per; j++ {
			if m[kt{fmt.Sprint(i), fmt.Sprint(j)}] != j {
				c.Failf("value %d of goroutine %d is lost", j, i)
				return
			}
		}
	}
	c.Sig(g, per)
}

func newSpan(c *vh.C) (s *monkit.Span, exit func(*error)) {
	ctx := context.Background()
	f := monkit.NewRegistry().ScopeNamed("s").FuncNamed("f")
	exit = f.Task(&ctx)
	return monkit.SpanFromCtx(ctx), exit
}

func eqAnn(a, b []monkit.Annotation) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func annSeq(c *vh.C) {
	s, exit := newSpan(c)
	other, exit2 := newSpan(c)
	defer exit2(nil)
	var model []monkit.Annotation
	type snap struct{ got, want []monkit.Annotation }
	var snaps []snap
	n := c.Rng.Intn(40)
	end := c.Rng.Intn(60)
	for i := 0; i < n; i++ {
		if i == end {
			exit(nil)
		}
		c.Events(1)
		switch c.Rng.Intn(3) {
		case 0, 1:
			a := monkit.Annotation{Name: vh.Nasty(c.Rng), Value: vh.Nasty(c.Rng)}
			if c.Rng.Intn(4) == 0 && len(model) > 0 {
				a = model[c.Rng.Intn(len(model))] // the same again
			}
			s.Annotate(a.Name, a.Value)
			model = append(model, a)
			c.Logf("annotate %q=%q", a.Name, a.Value)
			c.Sig(a.Name, a.Value)
		default:
			got := s.Annotations()
			if !eqAnn(got, model) {
				c.Fatalf("annotations are %q, should be %q", got, model)
			}
			want := append([]monkit.Annotation(nil), model...)
			if len(got) > 0 && c.Rng.Intn(2) == 0 {
				k := c.Rng.Intn(len(got))
				got[k].Value = "changed"
				want[k].Value = "changed"
			}
			if c.Rng.Intn(2) == 0 {
				got = append(got, monkit.Annotation{Name: "appended"})
				want = append(want, monkit.Annotation{Name: "appended"})
			}
			snaps = append(snaps, snap{got, want})
		}
		for _, s := range snaps {
			if !eqAnn(s.got, s.want) {
				c.Fatalf("annotations returned earlier changed from %q to %q", s.want, s.got)
			}
		}
	}
	if end >= n {
		exit(nil)
	}
	if got := s.Annotations(); !eqAnn(got, model) {
		c.Fatalf("annotations are %q, should be %q", got, model)
	}
	if got := other.Annotations(); len(got) != 0 {
		c.Fatalf("another span has annotations %q", got)
	}
}

func annConc(c *vh.C) {
	s, exit := newSpan(c)
	g := 2 + c.Rng.Intn(5)
	per := 3 + c.Rng.Intn(30)
	var clock int64
	rets := make([][]int64, g)
	calls := make([][]int64, g)
	type rd struct {
		call, ret int64
		l         []monkit.Annotation
		orig      []monkit.Annotation
	}
	reads := make([][]rd, 2)
	var stop int32
	var rw, ww sync.WaitGroup
	one := func(i int, spoil bool) {
		r := rd{call: atomic.AddInt64(&clock, 1)}
		r.l = s.Annotations()
		r.ret = atomic.AddInt64(&clock, 1)
		r.orig = append([]monkit.Annotation(nil), r.l...)
		if spoil && len(r.l) > 0 {
			// private: doing this must not hurt anybody
			r.l[0].Name = "spoiled"
			r.l = append(r.l, monkit.Annotation{Name: "more"})
		}
		reads[i] = append(reads[i], r)
	}
	for i := range reads {
		i := i
		rw.Add(1)
		go func() {
			defer rw.Done()
			for atomic.LoadInt32(&stop) == 0 && len(reads[i]) < 100 {
				one(i, i == 0)
			}
		}()
	}
	for i := 0; i < g; i++ {
		i := i
		ww.Add(1)
		go func() {
			defer ww.Done()
			for j := 0; j < per; j++ {
				calls[i] = append(calls[i], atomic.AddInt64(&clock, 1))
				s.Annotate(fmt.Sprint(i), fmt.Sprint(j))
				rets[i] = append(rets[i], atomic.AddInt64(&clock, 1))
			}
		}()
	}
	if c.Rng.Intn(2) == 0 {
		exit(nil)
	}
	ww.Wait()
	atomic.StoreInt32(&stop, 1)
	rw.Wait()
	final := s.Annotations()
	if len(final) != g*per {
		c.Fatalf("%d annotations of %d", len(final), g*per)
	}
	pos := make([][]int, g)
	next := make([]int, g)
	for i := range pos {
		pos[i] = make([]int, per)
	}
	sig := uint64(g)
	for k, a := range final {
		var i, j int
		if _, err := fmt.Sscanf(a.Name+" "+a.Value, "%d %d", &i, &j); err != nil || i >= g || j != next[i] {
			c.Fatalf("annotation %d is %+v, goroutine's next is %v", k, a, next)
		}
		pos[i][j] = k
		next[i]++
		sig = sig*31 + uint64(i)
	}
	c.SigN(sig)
	for _, rs := range reads {
		for _, r := range rs {
			c.Events(1)
			if len(r.orig) > len(final) || !eqAnn(r.orig, final[:len(r.orig)]) {
				c.Fatalf("annotations read %v are not a prefix of %v", r.orig, final)
			}
			for i := range calls {
				for j := range calls[i] {
					if rets[i][j] < r.call && pos[i][j] >= len(r.orig) {
						c.Fatalf("an annotation made before is not in the list read")
					}
					if calls[i][j] > r.ret && pos[i][j] < len(r.orig) {
						c.Fatalf("an annotation made later is in the list read")
					}
				}
			}
		}
	}
}

func TestCheck(t *testing.T) {
	vh.Main(t, "C17", func(h *vh.H) {
		h.Seq("big", h.N(12), big)
		h.Seq("values", h.N(1500), sequential)
		h.Conc("values linearizable", h.N(800), linear)
		h.Conc("many values", h.N(30), mapStress)
		h.Seq("annotations", h.N(1500), annSeq)
		h.Conc("annotations concurrently", h.N(150), annConc)
	})
}
