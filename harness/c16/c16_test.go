package c16

import (
	"fmt"
	"math"
	"math/rand"
	"reflect"
	"sync"
	"sync/atomic"
	"testing"
	"time"
	"unsafe"

	"github.com/spacemonkeygo/monkit/v3"

	"verifh/src"
	"verifh/vh"
)

type (
	myInt   int16
	myBool  bool
	myFloat float32
	myStr   string
	myUint  uint64
	namedT  struct{ P, Q int }
	noField struct{}
)

type exp struct {
	field string
	val   float64
}

var key = monkit.NewSeriesKey("meas").WithTag("t", "v")

func b2f(b bool) float64 {
	if b {
		return 1
	}
	return 0
}

// leaf makes a type, a value of it, and what it should be reported as.
func leaf(r *rand.Rand) (v interface{}, val float64, reported bool) {
	i := vh.Int64(r)
	f := r.NormFloat64() * 1e6
	b := r.Intn(2) == 0
	switch r.Intn(33) {
	case 0:
		return int(i), float64(int(i)), true
	case 1:
		return int8(i), float64(int8(i)), true
	case 2:
		return int16(i), float64(int16(i)), true
	case 3:
		return int32(i), float64(int32(i)), true
	case 4:
		return i, float64(i), true
	case 5:
		return uint(i), float64(uint(i)), true
	case 6:
		return uint8(i), float64(uint8(i)), true
	case 7:
		return uint16(i), float64(uint16(i)), true
	case 8:
		return uint32(i), float64(uint32(i)), true
	case 9:
		return uint64(i), float64(uint64(i)), true
	case 10:
		return uintptr(i), float64(uintptr(i)), true
	case 11:
		return float32(f), float64(float32(f)), true
	case 12:
		return []float64{f, math.NaN(), math.Inf(1), 0, math.Copysign(0, -1), math.MaxFloat64}[i&1], f, i&1 == 0 || false
	case 13, 14:
		return b, b2f(b), true
	case 15:
		return myInt(i), float64(myInt(i)), true
	case 16:
		return myBool(b), b2f(b), true
	case 17:
		return myFloat(f), float64(myFloat(f)), true
	case 18:
		return myUint(i), float64(myUint(i)), true
	case 19:
		return time.Duration(i), float64(i), true
	case 20:
		return vh.Nasty(r), 0, false
	case 21:
		return myStr("12"), 0, false
	case 22:
		return []int{1, 2}, 0, false
	case 23:
		return map[string]int{"a": 1}, 0, false
	case 24:
		return [3]float64{1, 2, 3}, 0, false
	case 25:
		return func() float64 { return 1 }, 0, false
	case 26:
		return make(chan int), 0, false
	case 27:
		return complex(1, 0), 0, false
	case 28:
		return unsafe.Pointer(&key), 0, false
	case 29:
		return complex64(2), 0, false
	case 30:
		return []byte("12"), 0, false
	case 31:
		return [2]namedT{}, 0, false
	default:
		return time.Weekday(3), 3, true
	}
}

var (
	anyType = reflect.TypeOf((*interface{})(nil)).Elem()
	errType = reflect.TypeOf((*error)(nil)).Elem()
)

// gen makes a random struct value with what it should report.
func gen(r *rand.Rand, depth int) (reflect.Value, []exp) {
	n := r.Intn(6)
	var fields []reflect.StructField
	var vals []reflect.Value
	var want []exp
	for i := 0; i < n; i++ {
		name := fmt.Sprintf("F%d", i)
		ignored := false
		tag := ""
		switch r.Intn(10) {
		case 0:
			tag, ignored = `monkit:"ignore"`, true
		case 1:
			tag, ignored = `json:"x" monkit:"foo,ignore"`, true
		case 2:
			tag, ignored = `monkit:"ignore,bar"`, true
		case 3:
			tag = `monkit:"ignored,noignore"`
		case 4:
			tag = `json:"ignore"`
		}
		var v reflect.Value
		var w []exp
		switch x := r.Intn(10); {
		case x < 6:
			l, val, rep := leaf(r)
			v = reflect.ValueOf(l)
			if f, ok := l.(float64); ok {
				val, rep = f, true
			}
			if rep {
				w = []exp{{name, val}}
			}
		case x < 9 && depth > 0:
			nv, nw := gen(r, depth-1)
			v = nv
			if r.Intn(5) == 0 {
				t := namedT{r.Intn(10), r.Intn(10)}
				v = reflect.ValueOf(t)
				nw = []exp{{"P", float64(t.P)}, {"Q", float64(t.Q)}}
			}
			for _, e := range nw {
				w = append(w, exp{name + "." + e.field, e.val})
			}
		default:
			// interfaces are not looked into
			v = reflect.New(anyType).Elem()
			switch r.Intn(4) {
			case 0:
				v.Set(reflect.ValueOf(5))
			case 1:
				v.Set(reflect.ValueOf(namedT{1, 2}))
			case 2:
				v = reflect.New(errType).Elem()
			}
		}
		// pointer chains, some of them with an end that is nil
		for k := []int{0, 0, 0, 1, 1, 2, 3}[r.Intn(7)]; k > 0; k-- {
			p := reflect.New(v.Type())
			p.Elem().Set(v)
			if r.Intn(4) == 0 {
				p = reflect.Zero(p.Type())
				w = nil
			}
			v = p
		}
		if !ignored {
			want = append(want, w...)
		}
		fields = append(fields, reflect.StructField{Name: name, Type: v.Type(), Tag: reflect.StructTag(tag)})
		vals = append(vals, v)
	}
	s := reflect.New(reflect.StructOf(fields)).Elem()
	for i, v := range vals {
		s.Field(i).Set(v)
	}
	return s, want
}

func readExp(s monkit.StatSource) (out []exp, bad string) {
	s.Stats(func(k monkit.SeriesKey, f string, v float64) {
		if k.String() != key.String() {
			bad = k.String()
		}
		out = append(out, exp{f, v})
	})
	return out, bad
}

func same(a, b []exp) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i].field != b[i].field || !src.Same(a[i].val, b[i].val) {
			return false
		}
	}
	return true
}

func check(c *vh.C, what string, s func() monkit.StatSource, want []exp) {
	var got []exp
	var bad string
	c.Events(1 + len(want))
	if rec, p := vh.Catch(func() { got, bad = readExp(s()) }); p {
		c.Fatalf("%s: panicked: %v", what, rec)
	}
	if bad != "" {
		c.Fatalf("%s: reported for series %q", what, bad)
	}
	if !same(got, want) {
		c.Fatalf("%s: reports %v, should be %v", what, got, want)
	}
}

func random(c *vh.C) {
	v, want := gen(c.Rng, 3)
	data := v
	nilEnd := false
	for k := c.Rng.Intn(4); k > 0; k-- {
		p := reflect.New(data.Type())
		p.Elem().Set(data)
		if c.Rng.Intn(12) == 0 {
			p = reflect.Zero(p.Type())
			nilEnd = true
		}
		data = p
	}
	if nilEnd {
		want = nil
	}
	what := fmt.Sprintf("%v", data.Type())
	c.Sig(what, want)
	c.Logf("%s: %v", what, want)
	check(c, what, func() monkit.StatSource { return monkit.StatSourceFromStruct(key, data.Interface()) }, want)
	sv := monkit.NewStructVal(key)
	check(c, "struct value before it observed anything", func() monkit.StatSource { return sv }, nil)
	sv.Observe(data.Interface())
	check(c, "struct value of "+what, func() monkit.StatSource { return sv }, want)
	// it stays the same struct on every readout
	check(c, "struct value of "+what, func() monkit.StatSource { return sv }, want)
}

type hidden struct {
	X int
	y int
}

type Embedded struct{ E1, E2 int }

type unexp struct {
	A  int
	b  int
	c  bool
	d  float32
	h  hidden  // not exported, not looked into
	hp *hidden // likewise
	Sh hidden  // looked into, with its unexported field
	s  string
	Embedded
	hidden2
	*Ptr
	Iface interface{}
	Time  time.Duration
	_     int
}

type (
	celsius float64
	level   uint8
	onOff   bool
	label   string
	span    time.Duration
	list    []int
)

// named has fields of named types, none of which is exported.
type named struct {
	c   celsius
	l   level
	o   onOff
	t   label
	d   time.Duration
	s   span
	pc  *celsius
	ppl **level
	po  *onOff
	ls  list
	e   error
	w   time.Weekday
	u   uintptr
	Pub celsius
	celsius
	*level
	onOff
}

type hidden2 struct{ Z int }

type Ptr struct{ W int }

// fixedTypes have what cannot be made by reflection.
func fixedTypes(c *vh.C) {
	u := unexp{A: 1, b: 2, c: true, d: 3, h: hidden{4, 5}, hp: &hidden{6, 7}, Sh: hidden{8, 9}, s: "x", Embedded: Embedded{10, 11},
		hidden2: hidden2{12}, Iface: 13, Time: 14}
	base := []exp{{"A", 1}, {"b", 2}, {"c", 1}, {"d", 3}, {"Sh.X", 8}, {"Sh.y", 9}, {"Embedded.E1", 10}, {"Embedded.E2", 11}}
	tail := []exp{{"Time", 14}, {"_", 0}}
	check(c, "unexported fields", func() monkit.StatSource { return monkit.StatSourceFromStruct(key, u) }, append(append([]exp(nil), base...), tail...))
	u.Ptr = &Ptr{15}
	full := append(append(append([]exp(nil), base...), exp{"Ptr.W", 15}), tail...)
	for _, d := range []interface{}{u, &u} {
		check(c, "unexported fields", func() monkit.StatSource { return monkit.StatSourceFromStruct(key, d) }, full)
	}
	ce, le, oo := celsius(7), level(8), onOff(true)
	pl := &le
	n := named{c: 1, l: 2, o: true, t: "x", d: 3, s: 4, ls: list{1}, w: time.Friday, u: 5, Pub: 6, celsius: 9}
	want := []exp{{"c", 1}, {"l", 2}, {"o", 1}, {"d", 3}, {"s", 4}, {"w", 5}, {"u", 5}, {"Pub", 6}, {"celsius", 9}, {"onOff", 0}}
	check(c, "named unexported fields", func() monkit.StatSource { return monkit.StatSourceFromStruct(key, n) }, want)
	n.pc, n.ppl, n.po, n.level, n.onOff = &ce, &pl, &oo, &le, true
	want = []exp{{"c", 1}, {"l", 2}, {"o", 1}, {"d", 3}, {"s", 4}, {"pc", 7}, {"ppl", 8}, {"po", 1}, {"w", 5}, {"u", 5}, {"Pub", 6}, {"celsius", 9}, {"level", 8}, {"onOff", 1}}
	for _, d := range []interface{}{n, &n} {
		check(c, "named unexported fields", func() monkit.StatSource { return monkit.StatSourceFromStruct(key, d) }, want)
	}
	var nilU *unexp
	var nilErr error
	pp := &nilU
	i := 5
	ip := &i
	for _, d := range []interface{}{nil, nilU, pp, &pp, nilErr, 5, ip, &ip, "x", 1.5, true, []int{1}, []unexp{u}, map[string]int{"a": 1}, [2]unexp{},
		func() {}, make(chan int), struct{}{}, &struct{}{}, noField{}, unsafe.Pointer(ip), uintptr(4), complex(1, 1), (*int)(nil), (**unexp)(nil),
		struct{ X interface{} }{X: u}, struct{ X *unexp }{}, struct{ X **unexp }{X: pp}, struct{ X []unexp }{}, (func())(nil), (map[int]int)(nil), []interface{}{1}} {
		d := d
		check(c, fmt.Sprintf("%T", d), func() monkit.StatSource { return monkit.StatSourceFromStruct(key, d) }, nil)
		sv := monkit.NewStructVal(key)
		sv.Observe(u)
		sv.Observe(d)
		check(c, fmt.Sprintf("struct value of %T", d), func() monkit.StatSource { return sv }, nil)
		c.Sig(fmt.Sprintf("%T", d))
	}
}

// types that contain themselves
type (
	node struct {
		V    int
		Next *node
	}
	tree struct {
		L, R **tree
		V    float32
		Skip *tree `monkit:"ignore"`
		N    *node
		hidd *tree
	}
	ping struct {
		A uint8
		P *pong
		*ping
	}
	pong struct {
		Q struct{ P **ping }
		B bool
		*node
	}
)

func under(name string, es []exp) (out []exp) {
	for _, e := range es {
		out = append(out, exp{name + "." + e.field, e.val})
	}
	return out
}

// recursive: structs of types that contain themselves, of which some parts
// appear more than once.
func recursive(c *vh.C) {
	var nodes []*node
	nodeExp := map[*node][]exp{nil: nil}
	for i, n := 0, c.Rng.Intn(6); i < n; i++ {
		x := &node{V: c.Rng.Intn(1000)}
		if len(nodes) > 0 && c.Rng.Intn(5) > 0 {
			x.Next = nodes[c.Rng.Intn(len(nodes))]
		}
		nodes = append(nodes, x)
		nodeExp[x] = append([]exp{{"V", float64(x.V)}}, under("Next", nodeExp[x.Next])...)
	}
	someNode := func() *node {
		if len(nodes) == 0 || c.Rng.Intn(3) == 0 {
			return nil
		}
		return nodes[c.Rng.Intn(len(nodes))]
	}
	var trees []*tree
	treeExp := map[*tree][]exp{nil: nil}
	someTree := func() *tree {
		if len(trees) == 0 || c.Rng.Intn(4) == 0 {
			return nil
		}
		return trees[c.Rng.Intn(len(trees))]
	}
	for i, n := 0, c.Rng.Intn(5); i < n; i++ {
		l, r := someTree(), someTree()
		x := &tree{L: &l, R: &r, V: float32(c.Rng.Intn(100)), Skip: someTree(), N: someNode(), hidd: someTree()}
		if l == nil && c.Rng.Intn(2) == 0 {
			x.L = nil
		}
		es := append(append(append(under("L", treeExp[l]), under("R", treeExp[r])...), exp{"V", float64(x.V)}), under("N", nodeExp[x.N])...)
		if len(es) > 400 {
			continue
		}
		trees = append(trees, x)
		treeExp[x] = es
	}
	var pings []*ping
	pingExp := map[*ping][]exp{nil: nil}
	for i, n := 0, c.Rng.Intn(5); i < n; i++ {
		x := &ping{A: uint8(c.Rng.Intn(256))}
		es := []exp{{"A", float64(x.A)}}
		if c.Rng.Intn(4) > 0 {
			x.P = &pong{B: c.Rng.Intn(2) == 0, node: someNode()}
			var q *ping
			if len(pings) > 0 {
				q = pings[c.Rng.Intn(len(pings))]
				x.P.Q.P = &q
			}
			es = append(append(es, under("P.Q.P", pingExp[q])...), exp{"P.B", b2f(x.P.B)})
		}
		if len(pings) > 0 {
			x.ping = pings[len(pings)-1]
		}
		pings = append(pings, x)
		pingExp[x] = es
	}
	try := func(what string, data interface{}, want []exp) {
		c.Sig(what, want)
		check(c, what, func() monkit.StatSource { return monkit.StatSourceFromStruct(key, data) }, want)
		sv := monkit.NewStructVal(key)
		sv.Observe(data)
		check(c, "struct value of "+what, func() monkit.StatSource { return sv }, want)
	}
	for _, x := range nodes {
		try("a list", *x, nodeExp[x])
		try("a list", x, nodeExp[x])
	}
	for _, x := range trees {
		try("a tree", x, treeExp[x])
	}
	for _, x := range pings {
		try("structs that refer to each other", x, pingExp[x])
	}
}

// latest: what was observed last is reported, with its contents at readout.
func latest(c *vh.C) {
	sv := monkit.NewRegistry().ScopeNamed("s").StructVal("x")
	type S struct {
		A int
		P *namedT
	}
	var ptr *S
	var want []exp
	for i := 0; i < 30; i++ {
		switch c.Rng.Intn(6) {
		case 0:
			ptr = &S{A: i}
			sv.Observe(ptr)
			want = []exp{{"A", float64(i)}}
		case 1:
			s := S{A: i, P: &namedT{i, 2}}
			sv.Observe(s)
			s.A = -1 // its own copy
			ptr = nil
			want = []exp{{"A", float64(i)}, {"P.P", float64(i)}, {"P.Q", 2}}
		case 2:
			pp := &ptr
			ptr = &S{A: i}
			sv.Observe(pp)
			want = []exp{{"A", float64(i)}}
		case 3:
			sv.Observe(nil)
			ptr, want = nil, nil
		default:
			if ptr != nil {
				ptr.A = 100 + i
				ptr.P = &namedT{i, i}
				want = []exp{{"A", float64(100 + i)}, {"P.P", float64(i)}, {"P.Q", float64(i)}}
			}
		}
		var got []exp
		sv.Stats(func(k monkit.SeriesKey, f string, v float64) { got = append(got, exp{f, v}) })
		c.Events(1)
		if !same(got, want) {
			c.Fatalf("step %d: reports %v, should be %v", i, got, want)
		}
		c.Sig(fmt.Sprint(want))
	}
}

// concurrent observes from several goroutines; a readout is of one struct that
// can be the latest.
func concurrent(c *vh.C) {
	sv := monkit.NewStructVal(key)
	type S struct{ G, K, Same int }
	var clock int64
	g := 2 + c.Rng.Intn(4)
	per := 5 + c.Rng.Intn(20)
	type op struct {
		g, k      int
		call, ret int64
	}
	ops := make([][]op, g)
	type rd struct {
		call, ret int64
		e         []exp
	}
	var reads []rd
	var wg sync.WaitGroup
	for i := 0; i < g; i++ {
		i := i
		wg.Add(1)
		go func() {
			defer wg.Done()
			for k := 0; k < per; k++ {
				o := op{g: i, k: k, call: atomic.AddInt64(&clock, 1)}
				sv.Observe(&S{i, k, i*1000 + k})
				o.ret = atomic.AddInt64(&clock, 1)
				ops[i] = append(ops[i], o)
			}
		}()
	}
	for k := 0; k < 30; k++ {
		r := rd{call: atomic.AddInt64(&clock, 1)}
		r.e, _ = readExp(sv)
		r.ret = atomic.AddInt64(&clock, 1)
		reads = append(reads, r)
	}
	wg.Wait()
	r := rd{call: atomic.AddInt64(&clock, 1)}
	r.e, _ = readExp(sv)
	r.ret = atomic.AddInt64(&clock, 1)
	reads = append(reads, r)
	for _, r := range reads {
		c.Events(1)
		latest := int64(0)
		for _, l := range ops {
			for _, o := range l {
				if o.ret < r.call && o.call > latest {
					latest = o.call
				}
			}
		}
		if len(r.e) == 0 {
			if latest > 0 {
				c.Fatalf("reports nothing after an observation")
			}
			continue
		}
		if len(r.e) != 3 || r.e[2].val != r.e[0].val*1000+r.e[1].val {
			c.Fatalf("reports %v", r.e)
		}
		o := ops[int(r.e[0].val)][int(r.e[1].val)]
		if o.call > r.ret || o.ret < latest {
			c.Fatalf("reports observation %+v in a readout from %d to %d although a later one began at %d", o, r.call, r.ret, latest)
		}
	}
	c.Sig(g, per, clock, fmt.Sprint(reads[len(reads)-1].e))
}

func TestCheck(t *testing.T) {
	h := vh.New(t, "C16")
	h.Seq("big", h.N(30), big)
	h.Seq("random", h.N(5000), random)
	h.Seq("fixed", 1, fixedTypes)
	h.Seq("recursive", h.N(300), recursive)
	h.Seq("latest", h.N(200), latest)
	h.Conc("concurrent", h.N(100), concurrent)
	h.Finish()
}
