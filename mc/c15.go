package main

import (
	"bytes"
	"fmt"
	"math"
	"strconv"

	"github.com/katydid/katydid/relapse"
	"github.com/katydid/katydid/relapse/ast"
	"github.com/katydid/katydid/relapse/auto"
	"github.com/katydid/katydid/relapse/compose"
	"github.com/katydid/katydid/relapse/funcs"
	"github.com/katydid/katydid/relapse/interp"
	"github.com/katydid/katydid/relapse/name"
)

// nameX is a name expression: its text and the labels it denotes.
type nameX struct {
	text  string
	match func(l *Label) bool
	build func() *ast.NameExpr
}

func nameAtoms() []nameX {
	var out []nameX
	add := func(text string, m func(l *Label) bool, b func() *ast.NameExpr) {
		out = append(out, nameX{text, m, b})
	}
	for _, s := range []string{"a", "b", "Aa", "BB", "", "_", "true", "a b", "日", "\"", "1"} {
		s := s
		text := s
		if s != "a" && s != "b" && s != "Aa" && s != "BB" {
			text = strconv.Quote(s)
		}
		add(text, func(l *Label) bool { return l.HasS && l.S == s }, func() *ast.NameExpr { return ast.NewStringName(s) })
	}
	for _, i := range []int64{0, 1, -1, 32, math.MaxInt64, math.MinInt64} {
		i := i
		add(fmt.Sprint(i), func(l *Label) bool { return l.HasI && l.I == i }, func() *ast.NameExpr { return ast.NewIntName(i) })
	}
	for _, u := range []uint64{0, 1, math.MaxUint64} {
		u := u
		add(fmt.Sprintf("uint(%d)", u), func(l *Label) bool { return l.HasU && l.U == u }, func() *ast.NameExpr { return ast.NewUintName(u) })
	}
	for _, d := range []struct {
		s string
		v float64
	}{{"0", 0}, {"1", 1}, {"-1.5", -1.5}, {"0.0000000001", 1e-10}, {"1e300", 1e300}} {
		d := d
		if d.s == "1e300" {
			d.s = strconv.FormatFloat(d.v, 'f', -1, 64)
		}
		add("double("+d.s+")", func(l *Label) bool { return l.HasD && l.D == d.v }, func() *ast.NameExpr { return ast.NewDoubleName(d.v) })
	}
	for _, b := range []bool{true, false} {
		b := b
		add(fmt.Sprint(b), func(l *Label) bool { return l.HasB && l.B == b }, func() *ast.NameExpr { return ast.NewBoolName(b) })
	}
	for _, y := range []string{"", "a", "\x01\x20", "\xff"} {
		y := []byte(y)
		add(fmt.Sprintf("%#v", y), func(l *Label) bool { return l.HasY && bytes.Equal(l.Y, y) }, func() *ast.NameExpr { return ast.NewBytesName(y) })
	}
	add("_", func(l *Label) bool { return true }, ast.NewAnyName)
	return out
}

func nameNot(n nameX) nameX {
	return nameX{"!(" + n.text + ")", func(l *Label) bool { return !n.match(l) }, func() *ast.NameExpr { return ast.NewAnyNameExcept(n.build()) }}
}

func nameOr(a, b nameX) nameX {
	return nameX{"(" + a.text + "|" + b.text + ")", func(l *Label) bool { return a.match(l) || b.match(l) }, func() *ast.NameExpr { return ast.NewNameChoice(a.build(), b.build()) }}
}

func nameLevel(xs, ys []nameX) []nameX {
	var out []nameX
	for _, x := range xs {
		out = append(out, nameNot(x))
		for _, y := range ys {
			out = append(out, nameOr(x, y))
		}
	}
	return out
}

func nameLabels() []*Label {
	ls := []*Label{{}, strLabel("a"), strLabel("b"), strLabel("Aa"), strLabel("BB"), strLabel(""), strLabel("_"), strLabel("true"), strLabel("a b"), strLabel("日"), strLabel("\""), strLabel("1"), strLabel("false"), strLabel("c"),
		intLabel(0), intLabel(1), intLabel(-1), intLabel(31), intLabel(32), intLabel(math.MaxInt64), intLabel(math.MinInt64), numLabel(0), numLabel(1), numLabel(-1), numLabel(math.MaxInt64),
		{HasU: true, U: 0}, {HasU: true, U: 1}, {HasU: true, U: math.MaxUint64}, {HasU: true, U: 1 << 63}, {HasD: true, D: 0}, {HasD: true, D: math.Copysign(0, -1)}, {HasD: true, D: 1}, {HasD: true, D: -1.5}, {HasD: true, D: 1e-10}, {HasD: true, D: 1e300}, {HasD: true, D: math.NaN()}, {HasD: true, D: math.Inf(1)},
		boolLabel(true), boolLabel(false), bytesLabel(nil), bytesLabel([]byte("a")), bytesLabel([]byte{1, 32}), bytesLabel([]byte{2, 1}), bytesLabel([]byte{255}),
		{HasS: true, S: "a", HasY: true, Y: []byte("a")}, {HasS: true, S: "a", HasI: true, I: 1, HasU: true, U: 1, HasD: true, D: 1, HasB: true, B: true, HasY: true, Y: []byte{255}}}
	return ls
}

func init() {
	register("C15", func(r *Run) {
		r.Assume("a label that has no value of the kind of a literal name does not match that name")
		labels := nameLabels()
		atoms := nameAtoms()
		l1 := nameLevel(atoms, atoms)
		full := append(append([]nameX{}, atoms...), l1...)
		r.Par(len(full), func(w, i int) { checkName(r, w, full[i], labels, true) })
		r.Bound("%d names: literals, any, one except or choice, evaluated, compiled, translated back and used in a pattern by three strategies x %d labels", len(full), len(labels))
		exploreLongNames(r, map[bool]int{false: 40, true: 130}[r.Thorough])
		// deeper nesting over fewer literals
		var few []nameX
		for _, a := range atoms {
			switch a.text {
			case "a", "BB", "Aa", "1", "uint(1)", "double(1)", "true", "_", `"_"`, "[]byte{0xff}":
				few = append(few, a)
			}
		}
		f1 := nameLevel(few, few)
		f01 := append(append([]nameX{}, few...), f1...)
		f2 := nameLevel(f1, f01)
		r.Par(len(f2), func(w, i int) { checkName(r, w, f2[i], labels, false) })
		r.Bound("%d names nested twice x %d labels", len(f2), len(labels))
		var tiny []nameX
		for _, a := range few {
			if a.text == "a" || a.text == "1" || a.text == "_" || a.text == "BB" && r.Thorough {
				tiny = append(tiny, a)
			}
		}
		t1 := append(append([]nameX{}, tiny...), nameLevel(tiny, tiny)...)
		t2 := append(append([]nameX{}, t1...), nameLevel(t1, t1)...)
		t3 := nameLevel(t2, t2)
		r.Par(len(t3), func(w, i int) { checkName(r, w, t3[i], labels, false) })
		r.Bound("%d names nested three times x %d labels", len(t3), len(labels))
	})
}

func checkName(r *Run, w int, n nameX, labels []*Label, engines bool) {
	r.mark(w, func() string { return "name " + n.text })
	r.States.Add(1)
	fail := func(step, what string, l *Label) {
		val := "-"
		if l != nil {
			val = l.Show()
		}
		r.Violation(step+" "+n.text, fmt.Sprintf("name %s: %s\nlabel: %s", n.text, what, val), map[string]string{"name": n.text, "label": val})
	}
	var at *Label
	step := "build"
	err := guard(func() error {
		ne := n.build()
		step = "parse"
		g, err := relapse.Parse(n.text + ":*")
		if err != nil {
			return err
		}
		parsed := g.GetTopPattern().GetTreeNode().GetName()
		for k, e := range []*ast.NameExpr{ne, parsed} {
			how := []string{"built", "parsed"}[k]
			step = "compile the " + how
			f := name.NameToFunc(e)
			if err := sameName(n, f, labels, &at); err != nil {
				return err
			}
			at = nil
			step = "translate back the " + how
			back, err := name.FuncToName(f)
			if err != nil {
				return fmt.Errorf("%v (of %s)", err, f.String())
			}
			step = "compile the translated " + how
			if err := sameName(n, name.NameToFunc(back), labels, &at); err != nil {
				return fmt.Errorf("%v (translated back from %s to %s)", err, f.String(), back.String())
			}
			at = nil
		}
		step = "evaluate the"
		for i, l := range labels {
			if !engines && i%5 != 0 {
				continue
			}
			at = l
			if got, want := name.EvalName(parsed, l), n.match(l); got != want {
				return fmt.Errorf("gives %v, want %v", got, want)
			}
		}
		if engines {
			step = "validate a pattern with the"
			m, err := relapse.Prepare(g)
			if err != nil {
				return err
			}
			a, err := auto.Compile(g)
			if err != nil {
				return err
			}
			tp := newTreeParser(nil)
			for _, l := range labels {
				at = l
				want := n.match(l)
				for k := 0; k < 3; k++ {
					tp.Init([]*Tree{{L: l}})
					var got bool
					var err error
					switch k {
					case 0:
						got, err = relapse.Validate(m, tp)
					case 1:
						got, err = interp.Interpret(g, tp)
					case 2:
						got, err = a.Validate(tp)
					}
					r.Traces.Add(1)
					if err != nil || got != want {
						return fmt.Errorf("engine %d gives %v, %v, want %v", k, got, err, want)
					}
				}
			}
		}
		return nil
	})
	r.Transitions.Add(int64(4 * len(labels)))
	r.Traces.Add(int64(4 * len(labels)))
	if s := r.sampleTick.Add(1); s&(s-1) == 0 {
		r.Sample("name %s", n.text)
	}
	if err != nil {
		fail(step, fmt.Sprintf("%s name: %v", step, err), at)
	}
}

func sameName(n nameX, f funcs.Bool, labels []*Label, at **Label) error {
	b, err := compose.NewBoolFunc(f)
	if err != nil {
		return err
	}
	for _, l := range labels {
		*at = l
		got, err := b.Eval(l)
		if err != nil {
			return err
		}
		if want := n.match(l); got != want {
			return fmt.Errorf("%s gives %v, want %v", f.String(), got, want)
		}
	}
	return nil
}
