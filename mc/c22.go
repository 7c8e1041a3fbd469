package main

import (
	"fmt"
	"math"
	"reflect"

	reflectparser "github.com/katydid/katydid/parser/reflect"
)

func init() { register("C22", runC22) }

// reflRef is what a Go value denotes: the non-nil fields of structures in order, the elements of slices, scalars.
func reflRef(v reflect.Value) []*wnode {
	if v.Kind() == reflect.Ptr {
		v = v.Elem()
	}
	var o vals
	switch v.Kind() {
	case reflect.Struct:
		var ns []*wnode
		for i := 0; i < v.NumField(); i++ {
			f := v.Field(i)
			if (f.Kind() == reflect.Ptr || f.Kind() == reflect.Slice) && f.IsNil() {
				continue
			}
			n := fieldNode(v.Type().Field(i).Name)
			n.kids = reflRef(f)
			ns = append(ns, n)
		}
		return ns
	case reflect.Slice:
		if v.Type().Elem().Kind() == reflect.Uint8 {
			o.y, o.hasY = v.Bytes(), true
			break
		}
		var ns []*wnode
		for i := 0; i < v.Len(); i++ {
			n := indexNode(i)
			n.kids = reflRef(v.Index(i))
			ns = append(ns, n)
		}
		return ns
	case reflect.Float32, reflect.Float64:
		d := v.Float()
		o.d = &d
	case reflect.Int32, reflect.Int64:
		i := v.Int()
		o.i = &i
	case reflect.Uint32, reflect.Uint64:
		u := v.Uint()
		o.u = &u
	case reflect.Bool:
		b := v.Bool()
		o.b = &b
	case reflect.String:
		s := v.String()
		o.s = &s
	}
	return []*wnode{leafNode(o.sig())}
}

type (
	namedInt  int64
	namedStr  string
	namedByte []byte
	mixedCase struct {
		A      int64
		hidden string
		B      *bool
		c      []int64
	}
	embedding struct {
		mixedCase
		Emb2
		*Emb3
		Z namedStr
	}
	Emb2  struct{ X, Y float32 }
	Emb3  struct{ A []namedInt }
	recur struct {
		V    *uint32
		Next *recur
		Kids []*recur
		Flat []recur
	}
	small struct { // kinds the parser does not know: presented without a value, but without a crash
		A int8
		B uint8
		C int
		D [2]byte
		E map[string]int64
		F interface{}
		G complex128
		H **int64
		I []int8
		J []interface{}
		K uintptr
	}
)

// scalarValues: every scalar kind with boundary values.
func reflScalars() []reflect.Value {
	var out []reflect.Value
	for _, x := range []interface{}{
		int64(0), int64(-1), int64(math.MaxInt64), int64(math.MinInt64), int32(0), int32(math.MinInt32), int32(math.MaxInt32),
		uint64(0), uint64(math.MaxUint64), uint32(7), uint32(math.MaxUint32), 0.0, -1.5, math.Inf(1), math.MaxFloat64, math.NaN(), float32(0.1), float32(-2),
		true, false, "", "a\x00é", []byte{}, []byte("xy"), namedInt(-3), namedStr("n"), namedByte("b"),
	} {
		out = append(out, reflect.ValueOf(x))
	}
	return out
}

func ptrTo(v reflect.Value) reflect.Value {
	p := reflect.New(v.Type())
	p.Elem().Set(v)
	return p
}

func sliceOf(t reflect.Type, vs ...reflect.Value) reflect.Value {
	s := reflect.MakeSlice(reflect.SliceOf(t), 0, len(vs))
	return reflect.Append(s, vs...)
}

// structWith builds a structure with the given exported field values (an invalid value stands for a nil pointer).
func structWith(vs ...reflect.Value) reflect.Value {
	var fs []reflect.StructField
	for i, v := range vs {
		fs = append(fs, reflect.StructField{Name: fmt.Sprintf("F%d", i), Type: v.Type()})
	}
	s := reflect.New(reflect.StructOf(fs)).Elem()
	for i, v := range vs {
		s.Field(i).Set(v)
	}
	return s
}

// wrapped: every way to hold a value in a field.
func wrapped(v reflect.Value) []reflect.Value {
	t := v.Type()
	pt := reflect.PtrTo(t)
	out := []reflect.Value{
		v, ptrTo(v), reflect.Zero(pt),
		reflect.Zero(reflect.SliceOf(t)), sliceOf(t), sliceOf(t, v), sliceOf(t, v, v, v),
		sliceOf(pt), sliceOf(pt, ptrTo(v)), sliceOf(pt, reflect.Zero(pt)), sliceOf(pt, ptrTo(v), reflect.Zero(pt), ptrTo(v)),
		ptrTo(sliceOf(t, v, v)), ptrTo(reflect.Zero(reflect.SliceOf(t))),
		sliceOf(reflect.SliceOf(t), sliceOf(t, v), reflect.Zero(reflect.SliceOf(t)), sliceOf(t), sliceOf(t, v, v)),
	}
	return out
}

// namesakes: different types that have the same name, since each is declared in a function of its own,
// on their own and together in one value.
func namesakes() []reflect.Value {
	one := func() []reflect.Value {
		type item struct {
			A int64
			B *string
		}
		s := "s"
		return []reflect.Value{reflect.ValueOf(item{1, nil}), reflect.ValueOf(item{2, &s}), reflect.ValueOf([]item{{}, {3, &s}})}
	}()
	two := func() []reflect.Value {
		type item struct {
			C *string
			D int64
		}
		s := "t"
		return []reflect.Value{reflect.ValueOf(item{nil, 4}), reflect.ValueOf(item{&s, 5}), reflect.ValueOf([]*item{nil, {&s, 6}})}
	}()
	three := func() []reflect.Value {
		type item struct {
			B *item
			A []item
		}
		return []reflect.Value{reflect.ValueOf(item{}), reflect.ValueOf(&item{A: []item{{}, {B: &item{}}}}), reflect.ValueOf(item{B: &item{A: []item{}}})}
	}()
	four := func() []reflect.Value {
		type item string
		return []reflect.Value{reflect.ValueOf(item("u")), reflect.ValueOf([]item{"v"})}
	}()
	groups := [][]reflect.Value{one, two, three, four}
	var out []reflect.Value
	for _, g := range groups {
		out = append(out, g...)
		for _, h := range groups {
			for _, a := range g {
				for _, b := range h {
					pb := b
					if b.Kind() != reflect.Ptr {
						pb = ptrTo(b)
					}
					out = append(out, structWith(a, b), structWith(structWith(a), pb), structWith(sliceOf(a.Type(), a, a), sliceOf(b.Type(), b)))
				}
			}
		}
	}
	return out
}

// reflValues enumerates the values to walk.
func reflValues(thorough bool) []reflect.Value {
	var out []reflect.Value
	scalars := reflScalars()
	var holders []reflect.Value
	for _, s := range scalars {
		holders = append(holders, wrapped(s)...)
	}
	out = append(out, scalars...)
	out = append(out, structWith())
	var few []reflect.Value
	for i, h := range holders {
		s := structWith(h)
		out = append(out, s, ptrTo(s), h)
		if i%9 == 0 || i < 14 {
			few = append(few, h)
		}
	}
	for _, a := range holders {
		for _, b := range few {
			out = append(out, structWith(a, b), ptrTo(structWith(b, a)))
		}
	}
	for _, a := range few {
		for _, b := range few {
			inner := structWith(a, b)
			for _, h := range wrapped(inner) {
				out = append(out, structWith(h), structWith(b, h, a))
				if thorough {
					for _, c := range few {
						out = append(out, structWith(c, h), structWith(ptrTo(structWith(h, c)), c))
					}
				}
			}
		}
	}
	b := true
	n := uint32(9)
	leaf := &recur{V: &n}
	rs := []*recur{nil, {}, leaf, {Next: leaf}, {Kids: []*recur{leaf, nil, {}}, Flat: []recur{{}, *leaf}}}
	for _, x := range rs {
		for _, y := range rs {
			for _, z := range rs {
				r := recur{Next: x, Kids: []*recur{y, z}, V: &n}
				if z != nil {
					r.Flat = []recur{*z}
				}
				out = append(out, reflect.ValueOf(r), reflect.ValueOf(&r))
			}
		}
	}
	out = append(out,
		reflect.ValueOf(mixedCase{A: 1, hidden: "h", B: &b, c: []int64{4}}), reflect.ValueOf(&mixedCase{}),
		reflect.ValueOf(embedding{mixedCase: mixedCase{hidden: "x"}, Emb3: &Emb3{A: []namedInt{1, 2}}, Z: "z"}), reflect.ValueOf(embedding{}))
	out = append(out, namesakes()...)
	pp := new(int64)
	out = append(out, reflect.ValueOf(small{}), reflect.ValueOf(&small{A: 1, B: 2, C: 3, E: map[string]int64{"a": 1}, F: int64(1), H: &pp, I: []int8{1, 2}, J: []interface{}{1, "a", nil}, K: 5}))
	return out
}

func runC22(r *Run) {
	long := 300
	if r.Thorough {
		long = 1025
	}
	longPresented(r, "reflect", long)
	values := reflValues(r.Thorough)
	parsers := make([]reflectparser.ReflectParser, 64)
	r.Par(len(values), func(w, i int) {
		v := values[i]
		if parsers[w] == nil {
			parsers[w] = reflectparser.NewReflectParser()
		}
		p := parsers[w]
		r.mark(w, func() string { return fmt.Sprintf("%#v", v) })
		want := reflRef(v)
		n := countNodes(want)
		got, err := fullWalk(p, func() error { p.Init(v); return nil }, 4*n+16)
		r.States.Add(1)
		r.Traces.Add(1)
		r.Transitions.Add(int64(n))
		d := ""
		if err != nil {
			d = err.Error()
			parsers[w] = nil
		} else {
			d = firstDiff(want, got, "root")
		}
		if d != "" {
			r.Violation(fmt.Sprintf("%s %+v", v.Type(), v), fmt.Sprintf("Go value %#v of type %s: %s\n  expected %s\n  got      %s", v, v.Type(), d, nodesString(want), nodesString(got)), fmt.Sprintf("%#v", v))
		}
		if k := i + 1; k&(k-1) == 0 {
			r.Sample("%s = %+v", v.Type(), v)
		}
	})
	r.Bound("%d Go values: every scalar kind held in 14 ways (value, pointer, nil, slices, slices of pointers and nils, slices of slices), all pairs of fields over a subset, nested structures held in the same ways, recursive and embedded types, different types of one name, kinds without a value", len(values))
}
