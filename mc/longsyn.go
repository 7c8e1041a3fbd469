package main

import (
	"fmt"
	"strings"

	"github.com/katydid/katydid/relapse/ast"
	"github.com/katydid/katydid/relapse/funcs"
)

// Long grammars: every construct of the syntax with each number of parts, and each depth of nesting, up to a maximum.

func longSynSizes(max int) []int {
	var ns []int
	for n := 1; n <= max; n++ {
		ns = append(ns, n)
	}
	for _, n := range []int{127, 128, 129, 255, 256, 257, 300} {
		if max >= 60 && n > max {
			ns = append(ns, n)
		}
	}
	return ns
}

func longSynGrams(max int) []*synGram {
	var out []*synGram
	add := func(p synPat) { out = append(out, &synGram{main: &p}) }
	a, b := snLit(litID("a")), snLit(litID("b"))
	leafI := func(i int) synPat { return spBuiltin(i%3, seLit(litI(int64(i)))) }
	nodeI := func(i int) synPat { return spNode(snLit(litID(fmt.Sprintf("n%d", i))), spZAny(), true) }
	mixI := func(i int) synPat {
		switch i % 5 {
		case 0:
			return spZAny()
		case 1:
			return spNode(snNot(snLit(litI(int64(i)))), leafI(i), false)
		case 2:
			return spBin(binOps[i%4], false, leafI(i), spEmpty(), nodeI(i))
		case 3:
			return spUn(unOps[i%4], nodeI(i))
		}
		return spArrow(seFunc("f", seLit(litI(int64(i))), seVar(i%6)))
	}
	repeat := func(n int, f func(i int) synPat) []synPat {
		ps := make([]synPat, n)
		for i := range ps {
			ps[i] = f(i)
		}
		return ps
	}
	exprs := func(n int, f func(i int) synExpr) []synExpr {
		es := make([]synExpr, n)
		for i := range es {
			es[i] = f(i)
		}
		return es
	}
	names := func(n int, f func(i int) synName) []synName {
		ns := make([]synName, n)
		for i := range ns {
			ns[i] = f(i)
		}
		return ns
	}
	elem := []func(i int) synLit{
		func(i int) synLit { return litD(float64(i)+.5, fmt.Sprintf("%d.5", i)) }, func(i int) synLit { return litI(int64(i - 3)) }, func(i int) synLit { return litU(uint64(i)) },
		func(i int) synLit { return litB(i%2 == 0) }, func(i int) synLit { return litS(fmt.Sprintf("s%d", i)) }, func(i int) synLit { return litY([]byte{byte(i), byte(i >> 8)}) },
	}
	intP := func(i int) synExpr { return seLit(litI(int64(i))) }
	for _, n := range longSynSizes(max) {
		if n >= 2 {
			for _, op := range binOps {
				for _, f := range []func(i int) synPat{leafI, nodeI, mixI} {
					add(spBin(op, false, repeat(n, f)...))
				}
				if op == OpConcat || op == OpInterleave {
					add(spBin(op, true, repeat(n, mixI)...))
				}
				add(spNode(a, spBin(op, false, repeat(n, leafI)...), op == OpOr || op == OpAnd))
			}
			add(spNode(snOr(names(n, func(i int) synName { return snLit(litI(int64(i))) })...), spZAny(), true))
			add(spNode(snNot(snOr(names(n, func(i int) synName {
				if i%3 == 1 {
					return snNot(snLit(litS(fmt.Sprintf("n%d", i))))
				}
				return snLit(litID(fmt.Sprintf("n%d", i)))
			})...)), spEmpty(), true))
		}
		for t, f := range elem {
			f := f
			add(spArrow(seFunc("contains", seVar(t), seList(t, exprs(n, func(i int) synExpr { return seLit(f(i)) })...))))
			add(spArrow(seFunc("f", exprs(n, func(i int) synExpr { return seLit(f(i)) })...)))
		}
		add(spArrow(seFunc("f", exprs(n, func(i int) synExpr {
			switch i % 3 {
			case 0:
				return seVar(i % 6)
			case 1:
				return seFunc("g", intP(i))
			}
			return seList(1, intP(i), intP(i+1))
		})...)))
		// declarations
		g := &synGram{main: &synPat{}}
		*g.main = spRef("x0")
		m := &synGram{names: []string{"main"}, decls: []synPat{spRef("x0")}}
		for i := 0; i < n; i++ {
			p := mixI(i)
			if i+1 < n {
				p = spBin(binOps[i%4], false, spRef(fmt.Sprintf("x%d", i+1)), p)
			}
			for _, s := range []*synGram{g, m} {
				s.names, s.decls = append(s.names, fmt.Sprintf("x%d", i)), append(s.decls, p)
			}
		}
		out = append(out, g, m)
		// long literals and names
		for _, s := range []string{"a", "\"", "\n", "é", "\xff", "//", "/*", "\\"} {
			add(spNode(snLit(litS(strings.Repeat(s, n))), spBuiltin(0, seLit(litS(strings.Repeat(s, n)+"z"))), false))
		}
		y := make([]byte, n)
		for i := range y {
			y[i] = byte(7 * i)
		}
		add(spNode(snLit(litY(y)), spBuiltin(7, seLit(litY(y))), true))
		id := strings.Repeat("a", n-1) + "z"
		add(spNode(snLit(litID(id)), spArrow(seFunc(id, seLit(litI(1)))), true))
		idp := spNode(a, spRef(id), true)
		out = append(out, &synGram{main: &idp, names: []string{id}, decls: []synPat{spEmpty()}})
		// nesting
		nest := func(p synPat, f func(i int, p synPat) synPat) {
			for i := 0; i < n; i++ {
				p = f(i, p)
			}
			add(p)
		}
		for _, leaf := range []synPat{spZAny(), leafI(1)} {
			for _, op := range unOps {
				op := op
				nest(leaf, func(i int, p synPat) synPat { return spUn(op, p) })
			}
			for _, op := range binOps {
				op := op
				nest(leaf, func(i int, p synPat) synPat { return spBin(op, false, p, nodeI(i)) })
				nest(leaf, func(i int, p synPat) synPat { return spBin(op, false, nodeI(i), p) })
				nest(leaf, func(i int, p synPat) synPat { return spBin(op, i%2 == 0, leafI(i), p, spEmpty()) })
			}
			nest(leaf, func(i int, p synPat) synPat { return spNode(a, p, true) })
			nest(leaf, func(i int, p synPat) synPat { return spNode(snNot(b), p, !p.deep) })
			nest(leaf, func(i int, p synPat) synPat {
				switch i % 5 {
				case 0:
					return spUn(unOps[(i/5)%4], p)
				case 1, 2:
					return spBin(binOps[(i/5)%4], i%2 == 0, p, mixI(i))
				case 3:
					return spBin(binOps[(i/5+1)%4], false, mixI(i), p)
				}
				return spNode(a, p, !p.deep)
			})
		}
		for k := 0; k < 3; k++ {
			x := a
			for i := 0; i < n; i++ {
				switch k {
				case 0:
					x = snNot(x)
				case 1:
					x = snOr(x, snLit(litI(int64(i))))
				case 2:
					x = snOr(snLit(litI(int64(i))), x)
				}
			}
			add(spNode(x, spZAny(), true))
		}
		e, l := seLit(litI(1)), seLit(litI(2))
		for i := 0; i < n; i++ {
			e = seFunc("f", e)
			if i%2 == 0 {
				l = seFunc("g", l, seVar(i%6))
			} else {
				l = seList(1, intP(i), l)
			}
		}
		add(spArrow(e))
		add(spArrow(l))
		add(spBuiltin(0, e))
	}
	return out
}

// longSpacing: the grammars with each spacing between all tokens, and with each spacing at each single place.
func longSpacings(r *Run, everywhere, single int) {
	for _, sp := range []string{"", " ", "\n", "//c\n", "/*c*/", "\n\n", "/*a\nb*/ "} {
		sp := sp
		eachGram(r, fmt.Sprintf("formatting long grammars with %q everywhere", sp), longSynGrams(everywhere), func(g *synGram, text string) error {
			r.Traces.Add(1)
			r.Transitions.Add(5)
			_, err := checkFormat(spaced(g.toks(), sp), g.sem(), true)
			return err
		})
	}
	eachGram(r, "formatting long grammars with a comment at every single place", longSynGrams(single), func(g *synGram, text string) error {
		ts, sem := g.toks(), g.sem()
		for _, sp := range []string{"//c\n", " /*c*/\n", "\n"} {
			for i := 0; i <= len(ts); i++ {
				r.Traces.Add(1)
				r.Transitions.Add(5)
				if _, err := checkFormat(joinToks(ts[:i])+sp+joinToks(ts[i:]), sem, false); err != nil {
					return err
				}
			}
		}
		return nil
	})
	// long runs of spaces and comments at each place of a few grammars
	var runs []string
	for _, n := range longSynSizes(everywhere) {
		for _, s := range []string{" ", "\n", "\t", "//c\n", "/*c*/", "//c\n\n", "\n/*c*/"} {
			runs = append(runs, strings.Repeat(s, n))
		}
		runs = append(runs, "//"+strings.Repeat("x", n)+"\n", "/*"+strings.Repeat("*", n)+"*/", "/*"+strings.Repeat("\n", n)+"*/")
	}
	short := longSynGrams(2)
	eachGram(r, fmt.Sprintf("formatting with %d long spaces at every single place", len(runs)), short, func(g *synGram, text string) error {
		ts, sem := g.toks(), g.sem()
		if len(ts) > 24 {
			return nil
		}
		for i := 0; i <= len(ts); i++ {
			for k := range runs {
				if !r.Thorough && k%3 != i%3 {
					continue
				}
				r.Traces.Add(1)
				r.Transitions.Add(5)
				if _, err := checkFormat(joinToks(ts[:i])+runs[k]+joinToks(ts[i:]), sem, false); err != nil {
					return err
				}
			}
		}
		return nil
	})
}

// longOrdered: of every length up to max, the sequence 0..n-1 and each sequence that differs from it in one place, inside
// every construct that holds a sequence: comparison, equality and hashes over all ordered pairs.
func longOrdered(r *Run, max int) {
	type kind struct {
		name string
		text func(items []int) string
	}
	join := func(items []int, sep string, f func(i int) string) string {
		ss := make([]string, len(items))
		for i, x := range items {
			ss[i] = f(x)
		}
		return strings.Join(ss, sep)
	}
	chain := func(items []int, op string, f func(i int) string) string {
		s := f(items[len(items)-1])
		for i := len(items) - 2; i >= 0; i-- {
			s = op + "(" + f(items[i]) + "," + s + ")"
		}
		return s
	}
	eqI := func(i int) string { return fmt.Sprintf("eq($int,%d)", i) }
	chr := func(i int) string { return string(rune('a'+i%20)) + map[bool]string{true: "", false: "Z"}[i < 1000] }
	patKinds := []kind{
		{"concat", func(is []int) string {
			return "[" + join(is, ",", func(i int) string { return fmt.Sprintf("== %d", i) }) + ",*]"
		}},
		{"interleave", func(is []int) string {
			return "{" + join(is, ";", func(i int) string { return fmt.Sprintf("n%d:*", i) }) + ";*}"
		}},
		{"or", func(is []int) string {
			return "(" + join(is, "|", func(i int) string { return fmt.Sprintf("== %d", i) }) + "|*)"
		}},
		{"and", func(is []int) string {
			return "(" + join(is, "&", func(i int) string { return fmt.Sprintf("!(n%d:<empty>)", i) }) + "&*)"
		}},
		{"path", func(is []int) string {
			return join(is, ":", func(i int) string { return fmt.Sprintf("n%d", i) }) + ":*"
		}},
		{"name choice", func(is []int) string {
			return "(" + join(is, "|", func(i int) string { return fmt.Sprint(i) }) + "|-1):*"
		}},
		{"choice of not names", func(is []int) string {
			return "!(" + "(" + join(is, "|", func(i int) string { return fmt.Sprintf("!(%d)", i) }) + "|-1)):*"
		}},
		{"string constant", func(is []int) string { return `== "` + join(is, "", chr) + `"` }},
		{"string name", func(is []int) string { return `"` + join(is, "", chr) + `":*` }},
		{"reference name", func(is []int) string { return "@r" + join(is, "", chr) }},
		{"function name", func(is []int) string { return "->f" + join(is, "", chr) + "()" }},
		{"bytes constant", func(is []int) string {
			return "== []byte{" + join(is, ",", func(i int) string { return fmt.Sprintf("0x%02x", i%200+i/1000*50) }) + "}"
		}},
		{"bytes name", func(is []int) string {
			return "[]byte{" + join(is, ",", func(i int) string { return fmt.Sprintf("0x%02x", i%200+i/1000*50) }) + "}:*"
		}},
		{"parameters", func(is []int) string {
			return "->f(" + join(is, ",", func(i int) string { return fmt.Sprint(i) }) + ")"
		}},
		{"list", func(is []int) string {
			return "->f([]int{" + join(is, ",", func(i int) string { return fmt.Sprint(i) }) + "})"
		}},
		{"nested functions", func(is []int) string {
			return "->" + chain(is, "f", func(i int) string { return fmt.Sprintf("g(%d)", i) })
		}},
	}
	funKinds := []kind{
		{"or of", func(is []int) string { return chain(is, "or", eqI) }},
		{"and of", func(is []int) string { return chain(is, "and", func(i int) string { return "not(" + eqI(i) + ")" }) }},
		{"int list", func(is []int) string {
			return "contains($int,[]int{" + join(is, ",", func(i int) string { return fmt.Sprint(i) }) + "})"
		}},
		{"double list", func(is []int) string {
			return "eq(elem([]double{" + join(is, ",", func(i int) string { return fmt.Sprintf("double(%d.5)", i) }) + ",$double},0),$double)"
		}},
		{"uint list", func(is []int) string {
			return "contains($uint,[]uint{" + join(is, ",", func(i int) string { return fmt.Sprintf("uint(%d)", i) }) + "})"
		}},
		{"string list", func(is []int) string {
			return "contains($string,[]string{" + join(is, ",", func(i int) string { return fmt.Sprintf("\"s%d\"", i) }) + "})"
		}},
		{"list with variables", func(is []int) string {
			return "eq(elem([]int{" + join(is, ",", func(i int) string { return fmt.Sprint(i) }) + ",$int},0),$int)"
		}},
		{"list of bytes", func(is []int) string {
			return "eq(elem([][]byte{" + join(is, ",", func(i int) string { return fmt.Sprintf("[]byte{%d,%d}", i/250, i%250) }) + ",$[]byte},0),$[]byte)"
		}},
		{"list of bools", func(is []int) string {
			return "eq(elem([]bool{" + join(is, ",", eqI) + "},0),$bool)"
		}},
		{"string", func(is []int) string { return `contains($string,"` + join(is, "", chr) + `")` }},
		{"bytes", func(is []int) string {
			return "eq($[]byte,[]byte{" + join(is, ",", func(i int) string { return fmt.Sprintf("0x%02x", i%200+i/1000*50) }) + "})"
		}},
	}
	var seqs [][]int
	for n := 1; n <= max; n++ {
		for p := -1; p < n; p++ {
			s := make([]int, n)
			for i := range s {
				s[i] = i
			}
			if p >= 0 {
				s[p] += 1000
			}
			seqs = append(seqs, s)
		}
	}
	for _, k := range patKinds {
		n := 2 * len(seqs)
		ps, sems, texts := make([]*ast.Pattern, n), make([]string, n), make([]string, n)
		for i := range ps {
			texts[i] = k.text(seqs[i/2])
			g, err := parseGram(texts[i])
			if err != nil {
				r.Violation("parse "+texts[i], err.Error(), nil)
				return
			}
			ps[i], sems[i] = g.GetTopPattern(), semPattern(g.GetTopPattern())
		}
		(&ordered{name: "long " + k.name, n: n, cmp: func(i, j int) int { return ps[i].Compare(ps[j]) }, eq: func(i, j int) bool { return ps[i].Equal(ps[j]) },
			hash: func(i int) uint64 { return ps[i].Hash() }, show: func(i int) string { return fmt.Sprintf("%q", texts[i]) }, meaning: func(i int) string { return sems[i] }}).check(r)
	}
	for _, k := range funKinds {
		n := 2 * len(seqs)
		fs, texts := make([]funcs.Bool, n), make([]string, n)
		for i := range fs {
			texts[i] = k.text(seqs[i/2])
			var err error
			if fs[i], err = compileText("->" + texts[i]); err != nil {
				r.Violation("compile "+texts[i], err.Error(), nil)
				return
			}
		}
		(&ordered{name: "long " + k.name, n: n, cmp: func(i, j int) int { return fs[i].Compare(fs[j]) }, eq: func(i, j int) bool { return funcs.Equal(fs[i], fs[j]) },
			hash: func(i int) uint64 { return fs[i].Hash() }, show: func(i int) string { return texts[i] }, meaning: func(i int) string { return texts[i] }}).check(r)
	}
	// declarations
	n := 2 * len(seqs)
	gs := make([]*ast.Grammar, n)
	texts := make([]string, n)
	for i := range gs {
		texts[i] = "@x0"
		for j, x := range seqs[i/2] {
			texts[i] += fmt.Sprintf(" #x%d = == %d", j, x)
		}
		g, err := parseGram(texts[i])
		if err != nil {
			r.Violation("parse "+texts[i], err.Error(), nil)
			return
		}
		gs[i] = g
	}
	r.Par(n, func(w, i int) {
		for j := range gs {
			r.Transitions.Add(1)
			if e := gs[i].Equal(gs[j]); e != (i/2 == j/2) {
				r.Violation("grammars "+texts[i]+" | "+texts[j], fmt.Sprintf("grammars %q and %q: Equal gives %v", texts[i], texts[j], e), nil)
			}
		}
	})
	r.Bound("sequences of up to %d that differ in one place, in %d constructs of patterns and %d of functions, and in declarations: every ordered pair", max, len(patKinds), len(funKinds))
}
