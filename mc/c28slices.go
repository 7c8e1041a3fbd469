package main

import (
	"fmt"
	"reflect"

	"github.com/katydid/katydid/relapse/ast"
	"github.com/katydid/katydid/relapse/combinator"
	"github.com/katydid/katydid/relapse/types"
)

// Builders that take a list are called with a slice of the caller, which is a window of a longer array: the
// builder may not change the array, and builds from it what it builds from a slice of its own, whichever builders
// were called with the same slice before.

type sliceOp struct {
	name string
	min  int
	f    func(s interface{}) fmt.Stringer
}

func sliceOps(r *Run, kind string, elems interface{}, ops []sliceOp, most int) {
	all := reflect.ValueOf(elems)
	n := 0
	call := func(op sliceOp, s reflect.Value) (out fmt.Stringer, err error) {
		err = guard(func() error { out = op.f(s.Interface()); _ = out.String(); return nil })
		return
	}
	fresh := func(v reflect.Value) reflect.Value {
		c := reflect.MakeSlice(all.Type(), v.Len(), v.Len())
		reflect.Copy(c, v)
		return c
	}
	for l := 0; l <= most; l++ {
		for off := 0; off < 2; off++ {
			for spare := 0; spare <= 3; spare++ {
				window := all.Slice(off, off+l)
				want := make([]string, len(ops))
				skip := make([]bool, len(ops))
				for i, op := range ops {
					if skip[i] = l < op.min; skip[i] {
						continue
					}
					p, err := call(op, fresh(window))
					if err != nil {
						r.Violation(fmt.Sprintf("slices | %s of %d | %v", op.name, l, err), fmt.Sprintf("%s of %d %s fails: %v", op.name, l, kind, err), op.name)
						skip[i] = true
						continue
					}
					want[i] = p.String()
				}
				for i := range ops {
					for j := range ops {
						if skip[i] || skip[j] {
							continue
						}
						back := fresh(all)
						s := back.Slice3(off, off+l, off+l+spare)
						var first, second fmt.Stringer
						err := guard(func() error {
							var err error
							if first, err = call(ops[i], s); err != nil {
								return err
							}
							one := first.String()
							if second, err = call(ops[j], s); err != nil {
								return err
							}
							for k := 0; k < all.Len(); k++ {
								a, b := back.Index(k), all.Index(k)
								same := a.Kind() == reflect.Ptr && a.Pointer() == b.Pointer() || a.Kind() != reflect.Ptr && reflect.DeepEqual(a.Interface(), b.Interface())
								if !same {
									return fmt.Errorf("element %d of the caller's array (%d long, window %d to %d) is changed", k, all.Len(), off, off+l)
								}
							}
							if one != want[i] || first.String() != want[i] {
								return fmt.Errorf("%s builds %s, and %s later, from a slice of its own %s", ops[i].name, one, first, want[i])
							}
							if second.String() != want[j] {
								return fmt.Errorf("%s builds %s, from a slice of its own %s", ops[j].name, second, want[j])
							}
							return nil
						})
						n++
						if err != nil {
							what := fmt.Sprintf("%s, then %s, with the same %d %s in a window with %d more behind it", ops[i].name, ops[j].name, l, kind, spare)
							r.Violation("slices | "+what, what+": "+err.Error(), what)
							return
						}
					}
				}
			}
		}
	}
	r.States.Add(int64(n))
	r.Traces.Add(int64(n))
	r.Transitions.Add(2 * int64(n))
	r.Bound("every pair of %d builders called with one slice of up to %d %s of the caller, 8 windows: %d pairs", len(ops), most, kind, n)
}

func checkC28Slices(r *Run) {
	most := 5
	if r.Thorough {
		most = 12
	}
	var pats []*ast.Pattern
	for i := 0; i < most+8; i++ {
		pats = append(pats, combinator.In(fmt.Sprintf("p%d", i), combinator.Any()))
	}
	po := func(name string, min int, f func(ps []*ast.Pattern) *ast.Pattern) sliceOp {
		return sliceOp{name, min, func(s interface{}) fmt.Stringer { return f(s.([]*ast.Pattern)) }}
	}
	x := combinator.In("x", combinator.Any())
	sliceOps(r, "patterns", pats, []sliceOp{
		po("InPath", 0, func(ps []*ast.Pattern) *ast.Pattern { return combinator.InPath("a", x, ps...) }),
		po("InAnyPath", 0, func(ps []*ast.Pattern) *ast.Pattern { return combinator.InAnyPath(x, ps...) }),
		po("In", 0, func(ps []*ast.Pattern) *ast.Pattern { return combinator.In("a", x, ps...) }),
		po("Elem", 0, func(ps []*ast.Pattern) *ast.Pattern { return combinator.Elem(1, x, ps...) }),
		po("InAny", 0, func(ps []*ast.Pattern) *ast.Pattern { return combinator.InAny(x, ps...) }),
		po("InAnyExcept", 0, func(ps []*ast.Pattern) *ast.Pattern { return combinator.InAnyExcept("a", x, ps...) }),
		po("InAnyOf", 0, func(ps []*ast.Pattern) *ast.Pattern { return combinator.InAnyOf([]string{"a", "b"}, x, ps...) }),
		po("InOrder", 0, func(ps []*ast.Pattern) *ast.Pattern { return combinator.InOrder(x, ps...) }),
		po("InAnyOrder", 0, func(ps []*ast.Pattern) *ast.Pattern { return combinator.InAnyOrder(x, ps...) }),
		po("InOrder of the first and the rest", 1, func(ps []*ast.Pattern) *ast.Pattern { return combinator.InOrder(ps[0], ps[1:]...) }),
		po("InAnyOrder of the first and the rest", 1, func(ps []*ast.Pattern) *ast.Pattern { return combinator.InAnyOrder(ps[0], ps[1:]...) }),
		po("AllOf", 1, func(ps []*ast.Pattern) *ast.Pattern { return combinator.AllOf(ps...) }),
		po("AnyOf", 1, func(ps []*ast.Pattern) *ast.Pattern { return combinator.AnyOf(ps...) }),
		po("NewConcat", 1, func(ps []*ast.Pattern) *ast.Pattern { return ast.NewConcat(ps...) }),
		po("NewOr", 1, func(ps []*ast.Pattern) *ast.Pattern { return ast.NewOr(ps...) }),
		po("NewAnd", 1, func(ps []*ast.Pattern) *ast.Pattern { return ast.NewAnd(ps...) }),
		po("NewInterleave", 1, func(ps []*ast.Pattern) *ast.Pattern { return ast.NewInterleave(ps...) }),
	}, most)
	var names []string
	var nes []*ast.NameExpr
	var es []*ast.Expr
	var is []int64
	var us []uint64
	var ds []float64
	var bs []bool
	var ys [][]byte
	for i := 0; i < most+8; i++ {
		names = append(names, fmt.Sprintf("n%d", i))
		nes = append(nes, ast.NewStringName(fmt.Sprintf("n%d", i)))
		es = append(es, ast.NewIntConst(int64(i+10)))
		is = append(is, int64(i+10))
		us = append(us, uint64(i+10))
		ds = append(ds, float64(i)+0.5)
		bs = append(bs, i%3 == 0)
		ys = append(ys, []byte{byte(i), byte(i + 1)})
	}
	sliceOps(r, "names", names, []sliceOp{
		{"InAnyOf", 2, func(s interface{}) fmt.Stringer { return combinator.InAnyOf(s.([]string), x) }},
		{"InAnyOf with children", 2, func(s interface{}) fmt.Stringer { return combinator.InAnyOf(s.([]string), x, x) }},
		{"StringsConst", 0, func(s interface{}) fmt.Stringer { return combinator.StringsConst(s.([]string)) }},
	}, most)
	sliceOps(r, "name expressions", nes, []sliceOp{
		{"NewNameChoice", 1, func(s interface{}) fmt.Stringer { return ast.NewNameChoice(s.([]*ast.NameExpr)...) }},
		{"NewNameChoice in a node", 1, func(s interface{}) fmt.Stringer {
			return ast.NewTreeNode(ast.NewAnyNameExcept(ast.NewNameChoice(s.([]*ast.NameExpr)...)), x)
		}},
	}, most)
	eo := func(name string, f func(es []*ast.Expr) *ast.Expr) sliceOp {
		return sliceOp{name, 0, func(s interface{}) fmt.Stringer { return f(s.([]*ast.Expr)) }}
	}
	sliceOps(r, "expressions", es, []sliceOp{
		eo("NewFunction", func(es []*ast.Expr) *ast.Expr { return ast.NewFunction("f", es...) }),
		eo("NewNestedFunction", func(es []*ast.Expr) *ast.Expr { return ast.NewNestedFunction("f", es...) }),
		eo("NewList", func(es []*ast.Expr) *ast.Expr { return ast.NewList(types.LIST_INT, es...) }),
		eo("NewDoubleList", func(es []*ast.Expr) *ast.Expr { return ast.NewDoubleList(es...) }),
		eo("NewIntList", func(es []*ast.Expr) *ast.Expr { return ast.NewIntList(es...) }),
		eo("NewUintList", func(es []*ast.Expr) *ast.Expr { return ast.NewUintList(es...) }),
		eo("NewBoolList", func(es []*ast.Expr) *ast.Expr { return ast.NewBoolList(es...) }),
		eo("NewStringList", func(es []*ast.Expr) *ast.Expr { return ast.NewStringList(es...) }),
		eo("NewBytesList", func(es []*ast.Expr) *ast.Expr { return ast.NewBytesList(es...) }),
	}, most)
	list := func(kind string, elems interface{}, f func(s interface{}) *ast.Expr) {
		sliceOps(r, kind, elems, []sliceOp{{"list of " + kind, 0, func(s interface{}) fmt.Stringer { return f(s) }}}, most)
	}
	list("ints", is, func(s interface{}) *ast.Expr { return combinator.IntsConst(s.([]int64)) })
	list("uints", us, func(s interface{}) *ast.Expr { return combinator.UintsConst(s.([]uint64)) })
	list("doubles", ds, func(s interface{}) *ast.Expr { return combinator.DoublesConst(s.([]float64)) })
	list("bools", bs, func(s interface{}) *ast.Expr { return combinator.BoolsConst(s.([]bool)) })
	list("bytes", ys, func(s interface{}) *ast.Expr { return combinator.ListOfBytesConst(s.([][]byte)) })
	sliceOps(r, "characters", []byte("abcdefghijklmnopqrstuvwxyz"), []sliceOp{
		{"BytesConst", 0, func(s interface{}) fmt.Stringer { return combinator.BytesConst(s.([]byte)) }},
		{"NewBytesName", 0, func(s interface{}) fmt.Stringer { return ast.NewBytesName(s.([]byte)) }},
	}, most)
}
