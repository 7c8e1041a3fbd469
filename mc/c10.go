package main

import (
	"fmt"
	"strings"

	"github.com/katydid/katydid/relapse/funcs"
)

func init() {
	register("C10", func(r *Run) {
		r.Assume("known findings: funcs.Sprint's shorthand for lt, gt, le and ge with the constant first keeps the operator instead of turning it round (pinned by the existing test TestTrim)")
		labels := append(flabels(), fextremeLabels()...)
		level := 0
		if r.Thorough {
			level = 1
		}
		names, groups := boolSpace(level)
		var ps []*fx
		for _, f := range allCalls(func(s fsig) bool { return s.name == "print" || s.name == "now" }, fpool) {
			ps = append(ps, observe(f)...)
		}
		names, groups = append(names, "print"), append(groups, ps)
		// every function of every type with a variable where the engine keeps it, printed inside observers
		names, groups = append(names, "operand order"), append(groups, operandOrder())
		for k, name := range names {
			g := groups[k]
			r.Par(len(g), func(w, i int) { checkPrinted(r, w, g[i], labels) })
			r.Bound("%s: %d functions, both notations, x %d values", name, len(g), len(labels))
		}
		longFuncSweep(r, map[bool]int{false: 20, true: 130}[r.Thorough], func(w int, f *fx, ls []*Label) { checkPrinted(r, w, f, ls) })
	})
}

// operandOrder: every boolean function of two arguments over every constant (also the extreme ones), variable,
// and list of each type, in both orders.
func operandOrder() []*fx {
	return allCalls(func(s fsig) bool { return s.out == tB && len(s.in) == 2 }, func(t fty) []*fx {
		if t.isList() {
			s := t.single()
			ls := flists(s)
			for _, e := range fextremes(s) {
				ls = append(ls, flist(s, e), flist(s, e, fvar(s)))
			}
			return ls
		}
		return append(fterms(t), fextremes(t)...)
	})
}

func checkPrinted(r *Run, w int, f *fx, labels []*Label) {
	text := "->" + f.text
	r.mark(w, func() string { return "function " + text })
	r.States.Add(1)
	if f.cerr {
		return
	}
	type bad struct{ key, what string }
	var bads []bad
	err := guard(func() error {
		fn, err := compileText(text)
		if err != nil {
			return err
		}
		want, err := implOutcomes(fn, labels)
		if err != nil {
			return err
		}
		full := fn.String()
		short := funcs.Sprint(fn)
		if n := r.sampleTick.Add(1); n&(n-1) == 0 {
			r.Sample("%s prints as %s and %s", text, full, short)
		}
		try := func(notation, printed string) {
			r.Transitions.Add(1)
			got := ""
			err := guard(func() error {
				fn2, err := compileText(printed)
				if err != nil {
					return err
				}
				got, err = implOutcomes(fn2, labels)
				return err
			})
			r.Traces.Add(int64(len(labels)))
			key := notation + " " + text
			if err != nil {
				bads = append(bads, bad{key, fmt.Sprintf("%s prints in the %s notation as %s, which fails: %v", text, notation, printed, err)})
				return
			}
			if got == want {
				r.accepts.Add(1)
				return
			}
			if k, ok := reversedShorthand(full, printed); ok && notation == "shorthand" {
				key = k
			}
			for i := range labels {
				if got[i] != want[i] {
					bads = append(bads, bad{key, fmt.Sprintf("%s prints in the %s notation as %s, which means something else: on %s the function gives %c, the printed one %c", text, notation, printed, labels[i].Show(), want[i], got[i])})
					return
				}
			}
		}
		try("full", "->"+full)
		if short != "->"+full {
			try("shorthand", short)
		}
		return nil
	})
	if err != nil {
		bads = append(bads, bad{"compile " + text, fmt.Sprintf("%s: %v", text, err)})
	}
	for _, b := range bads {
		r.Violation(b.key, b.what, map[string]string{"function": text})
	}
}

// reversedShorthand recognises the one way the shorthand of a comparison with the constant first is known to be
// wrong: the symbol of the unreversed operator followed by the constant.
func reversedShorthand(full, short string) (string, bool) {
	for fn, sym := range map[string]string{"lt": "<", "gt": ">", "le": "<=", "ge": ">="} {
		for _, t := range []string{"double", "int", "uint", "[]byte"} {
			if strings.HasPrefix(full, fn+"(") && strings.HasSuffix(full, ",$"+t+")") {
				c := full[len(fn)+1 : len(full)-len(",$"+t+")")]
				if short == sym+" "+c {
					return "shorthand of " + fn + " with the constant first, " + t, true
				}
			}
		}
	}
	return "", false
}
