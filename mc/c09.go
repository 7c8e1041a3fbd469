package main

import (
	"fmt"

	"github.com/katydid/katydid/relapse"
	"github.com/katydid/katydid/relapse/compose"
)

func init() {
	register("C09", func(r *Run) {
		r.Assume("oracle: an independent typed evaluator (fexpr.go); inside the boolean operators an error of an operand counts as false, so a false composition with a failing operand may also be reported as an error")
		r.Assume("a negative index counts from the end of the list")
		labels := flabels()
		all := append(append([]*Label{}, labels...), fextremeLabels()...)
		level := 0
		if r.Thorough {
			level = 1
		}
		names, groups := boolSpace(level)
		for k, name := range names {
			ls := labels
			if name == "boundary values" || name == "boolean functions of constants, variables and lists" {
				ls = all
			}
			g := groups[k]
			r.Par(len(g), func(w, i int) { checkFunc(r, w, g[i], ls) })
			r.Bound("%s: %d functions x %d values, compiled and validated", name, len(g), len(ls))
		}

		// the builtin operators are the functions with the current value as an argument
		type bi struct {
			text string
			f    *fx
		}
		var bs []bi
		syms := []struct{ sym, fn string }{{"==", "eq"}, {"!=", "ne"}, {"<", "lt"}, {">", "gt"}, {"<=", "le"}, {">=", "ge"}, {"~=", "regex"}, {"*=", "contains"}, {"^=", "hasPrefix"}, {"$=", "hasSuffix"}, {"::", "type"}}
		var es []*fx
		for t := tD; t <= tY; t++ {
			es = append(es, fterms(t)...)
			es = append(es, fextremes(t)...)
			es = append(es, flists(t)...)
			es = append(es, fcall("elem", flists(t)[3], fconst("2", vI(2))), fcall("elem", flists(t)[0], fconst("2", vI(2))), fcall("range", flists(t)[3], fconst("1", vI(1)), fconst("3", vI(3))))
		}
		es = append(es, fcall("toLower", fconst(`"B"`, vS("B"))), fcall("length", fvar(tS)), fcall("not", fvar(tB)), fconst(`"^a"`, vS("^a")), fconst(`"("`, vS("(")))
		for _, s := range syms {
			for _, e := range es {
				var f *fx
				single := e.t
				if single.isList() {
					single = single.single()
				}
				switch s.fn {
				case "regex":
					f = fcall("regex", e, fvar(tS))
				case "type":
					f = fcall("type", e)
				default:
					f = fcall(s.fn, fvar(single), e)
				}
				bs = append(bs, bi{s.sym + " " + e.text, f})
			}
		}
		r.Par(len(bs), func(w, i int) { checkText(r, w, bs[i].text, bs[i].f, all) })
		r.Bound("%d builtin operators x %d values", len(bs), len(all))

		longFuncSweep(r, map[bool]int{false: 20, true: 130}[r.Thorough], func(w int, f *fx, ls []*Label) { checkFunc(r, w, f, ls) })

		letterSweep(r, func(w int, f *fx, ls []*Label) { checkFunc(r, w, f, ls) })

		// print is the identity, now is later than the past
		var ps []*fx
		for _, f := range allCalls(func(s fsig) bool { return s.name == "print" }, fpool) {
			ps = append(ps, observe(f)...)
		}
		r.Par(len(ps), func(w, i int) { checkFunc(r, w, ps[i], labels) })
		r.Bound("print: %d functions", len(ps))

		// ill-typed expressions are reported
		var ill []*fx
		maxArgs := 2
		if r.Thorough {
			maxArgs = 3
		}
		illTyped(maxArgs, func(x *fx) { ill = append(ill, x, fcall("not", x), fcall("eq", x, fvar(tI)), flistOf(x)) })
		for _, s := range fsigs {
			if len(s.in) == 3 && !r.Thorough { // range with every third argument
				for t := tD; t <= tLY; t++ {
					var a *fx
					if t.isList() {
						a = flist(t.single())
					} else {
						a = fvar(t)
					}
					l := flist(s.in[0].single(), fvar(s.in[0].single()))
					ill = append(ill, observe(fcall(s.name, l, fvar(tI), a))...)
					ill = append(ill, observe(fcall(s.name, l, a, fvar(tI)))...)
				}
			}
		}
		for t := tD; t <= tY; t++ {
			for u := tD; u <= tY; u++ {
				for _, e := range []*fx{fvar(u), fconsts(u)[1]} {
					ill = append(ill, observe(flist(t, e))...)
					ill = append(ill, observe(flist(t, fvar(t), e))...)
					ill = append(ill, observe(flist(t, flist(u, e)))...)
				}
			}
		}
		r.Par(len(ill), func(w, i int) {
			f := ill[i]
			if f.t != tB || f.eval == nil && !f.cerr {
				f = &fx{text: f.text, t: tB, cerr: true}
			}
			checkFunc(r, w, f, labels)
		})
		r.Bound("%d applications of every function name to every combination of up to %d argument types", len(ill), maxArgs)
	})
}

// flistOf puts a function in a list of ints and compares the first element.
func flistOf(x *fx) *fx {
	return fcall("eq", fcall("elem", flist(tI, x), fconst("0", vI(0))), fconst("1", vI(1)))
}

func checkFunc(r *Run, w int, f *fx, labels []*Label) { checkText(r, w, "->"+f.text, f, labels) }

func checkText(r *Run, w int, text string, f *fx, labels []*Label) {
	r.mark(w, func() string { return "function " + text })
	var got string
	var at *Label
	err := guard(func() error {
		g, err := relapse.Parse(text)
		if err != nil {
			return fmt.Errorf("does not parse: %v", err)
		}
		fn, err := compose.NewBool(g.TopPattern.LeafNode.Expr)
		if f.cerr {
			if err == nil {
				return fmt.Errorf("compiles (to %s), but an error should be reported", fn.String())
			}
			if _, err := relapse.Prepare(g); err == nil {
				return fmt.Errorf("is prepared, but an error should be reported")
			}
			return nil
		}
		if err != nil {
			return fmt.Errorf("does not compile: %v", err)
		}
		got, err = implOutcomes(fn, labels)
		if err != nil {
			return err
		}
		m, err := relapse.Prepare(g)
		if err != nil {
			return fmt.Errorf("is not prepared: %v", err)
		}
		tp := newTreeParser(nil)
		for i, l := range labels {
			at = l
			want := f.eval(l)
			if !allowed(want, got[i]) {
				return fmt.Errorf("evaluates to %c, but the language says %s", got[i], showRes(want))
			}
			tp.Init([]*Tree{{L: l, Leaf: true}})
			v, err := m.Validate(tp)
			c := byte('F')
			if err != nil {
				c = 'E'
			} else if v {
				c = 'T'
			}
			if !allowed(want, c) {
				return fmt.Errorf("as a leaf pattern gives %c, but the language says %s", c, showRes(want))
			}
		}
		r.Traces.Add(2 * int64(len(labels)))
		return nil
	})
	r.States.Add(1)
	r.Transitions.Add(2 * int64(len(labels)))
	if n := r.sampleTick.Add(1); n&(n-1) == 0 {
		r.Sample("%s: %s", text, got)
	}
	if f.cerr {
		r.rejects.Add(1)
	} else {
		r.accepts.Add(1)
	}
	if err != nil {
		val := "-"
		if at != nil {
			val = at.Show()
		}
		r.Violation(text+" | "+val, fmt.Sprintf("function: %s\nvalue: %s\n%v", text, val, err), map[string]string{"function": text, "value": val})
	}
}
