package c16

import (
	"fmt"
	"reflect"

	"github.com/spacemonkeygo/monkit/v3"

	"verifh/vh"
)

// big has structs of very many fields, nested very deep, linked very often or
// behind very many pointers.
func big(c *vh.C) {
	r := c.Rng
	var v reflect.Value
	var want []exp
	what := ""
	switch c.Idx % 5 {
	case 0:
		what = "many fields"
		var fields []reflect.StructField
		n := vh.Many(r, 2000)
		for i := 0; i < n; i++ {
			t := reflect.TypeOf([]interface{}{int(0), false, 1.5, namedT{}, uint8(0)}[r.Intn(5)])
			fields = append(fields, reflect.StructField{Name: fmt.Sprint("F", i), Type: t})
		}
		v = reflect.New(reflect.StructOf(fields)).Elem()
		for i, f := range fields {
			k := r.Intn(100)
			switch f.Type.Kind() {
			case reflect.Int:
				v.Field(i).SetInt(int64(k))
			case reflect.Bool:
				v.Field(i).SetBool(k&1 == 1)
				k &= 1
			case reflect.Float64:
				v.Field(i).SetFloat(float64(k))
			case reflect.Uint8:
				v.Field(i).SetUint(uint64(k))
			default:
				v.Field(i).Set(reflect.ValueOf(namedT{k, k + 1}))
				want = append(want, exp{f.Name + ".P", float64(k)}, exp{f.Name + ".Q", float64(k + 1)})
				continue
			}
			want = append(want, exp{f.Name, float64(k)})
		}
	case 1:
		what = "deep structs"
		v, want = reflect.ValueOf(namedT{1, 2}), []exp{{"P", 1}, {"Q", 2}}
		for n := 10 + r.Intn(90); n > 0; n-- {
			if r.Intn(3) == 0 {
				p := reflect.New(v.Type())
				p.Elem().Set(v)
				v = p
			}
			s := reflect.New(reflect.StructOf([]reflect.StructField{{Name: "In", Type: v.Type()}, {Name: "N", Type: reflect.TypeOf(0)}})).Elem()
			s.Field(0).Set(v)
			s.Field(1).SetInt(int64(n))
			v, want = s, append(under("In", want), exp{"N", float64(n)})
		}
	case 2, 3:
		what = "many pointers"
		v, want = reflect.ValueOf(namedT{1, 2}), []exp{{"P", 1}, {"Q", 2}}
		if c.Idx%5 == 3 {
			what = "a field behind many pointers"
			v, want = reflect.ValueOf(5), []exp{{"F", 5}}
		}
		for n := 5 + r.Intn(150); n > 0; n-- {
			p := reflect.New(v.Type())
			p.Elem().Set(v)
			v = p
		}
		if c.Idx%5 == 3 {
			s := reflect.New(reflect.StructOf([]reflect.StructField{{Name: "F", Type: v.Type()}})).Elem()
			s.Field(0).Set(v)
			v = s
		}
	case 4:
		what = "a long list"
		n := 50 + r.Intn(500)
		var head *node
		field := "V"
		for i := n - 1; i >= 0; i-- {
			head = &node{i, head}
		}
		for i := 0; i < n; i++ {
			want = append(want, exp{field, float64(i)})
			field = "Next." + field
		}
		v = reflect.ValueOf(head)
	}
	c.Sig(what, len(want), fmt.Sprint(want[len(want)-1].field, want[0]))
	check(c, what, func() monkit.StatSource { return monkit.StatSourceFromStruct(key, v.Interface()) }, want)
	sv := monkit.NewStructVal(key)
	sv.Observe(v.Interface())
	check(c, "struct value with "+what, func() monkit.StatSource { return sv }, want)
}
