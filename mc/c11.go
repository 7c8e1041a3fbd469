package main

import (
	"fmt"
	"sort"
	"strings"

	"github.com/katydid/katydid/relapse"
	"github.com/katydid/katydid/relapse/ast"
	"github.com/katydid/katydid/relapse/funcs"
)

// ordered is a set of values with the comparison, equality and hash under test.
type ordered struct {
	name    string
	n       int
	cmp     func(i, j int) int
	eq      func(i, j int) bool // nil when the type has no equality
	hash    func(i int) uint64  // nil when the type has no hash
	show    func(i int) string
	meaning func(i int) string // "" when unknown; equal values must have equal meanings
}

func sgn(x int) int {
	switch {
	case x < 0:
		return -1
	case x > 0:
		return 1
	}
	return 0
}

// check decides that cmp is a total order over the whole set: it ranks the values with a sort and then compares
// every pair in both directions with the ranks.
func (o *ordered) check(r *Run) {
	idx := make([]int, o.n)
	for i := range idx {
		idx[i] = i
	}
	err := guard(func() error {
		sort.SliceStable(idx, func(a, b int) bool { return o.cmp(idx[a], idx[b]) < 0 })
		return nil
	})
	if err != nil {
		r.Violation(o.name+" sort", fmt.Sprintf("sorting %s: %v", o.name, err), nil)
		return
	}
	rank := make([]int, o.n)
	for k := 1; k < o.n; k++ {
		rank[idx[k]] = rank[idx[k-1]]
		if o.cmp(idx[k-1], idx[k]) != 0 {
			rank[idx[k]]++
		}
	}
	pos := make([]int, o.n)
	for k, i := range idx {
		pos[i] = k
	}
	r.States.Add(int64(o.n))
	r.Par(o.n, func(w, i int) {
		for j := 0; j < o.n; j++ {
			c := 0
			if err := guard(func() error { c = sgn(o.cmp(i, j)); return nil }); err != nil {
				r.Violation(fmt.Sprintf("%s compare %s | %s", o.name, o.show(i), o.show(j)), fmt.Sprintf("comparing %s with %s: %v", o.show(i), o.show(j), err), nil)
				continue
			}
			if want := sgn(rank[i] - rank[j]); c != want {
				r.Violation(fmt.Sprintf("%s order %s | %s", o.name, o.show(i), o.show(j)), o.explain(i, j, c, idx, pos), map[string]string{"a": o.show(i), "b": o.show(j)})
				continue
			}
			same := c == 0
			if o.eq != nil {
				if e := o.eq(i, j); e != same {
					r.Violation(fmt.Sprintf("%s equal %s | %s", o.name, o.show(i), o.show(j)), fmt.Sprintf("%s: comparing %s with %s gives %d, but Equal gives %v", o.name, o.show(i), o.show(j), c, e), nil)
					continue
				}
			}
			if same && o.hash != nil && o.hash(i) != o.hash(j) {
				r.Violation(fmt.Sprintf("%s hash %s | %s", o.name, o.show(i), o.show(j)), fmt.Sprintf("%s: %s and %s are equal, but their hashes are %d and %d", o.name, o.show(i), o.show(j), o.hash(i), o.hash(j)), nil)
				continue
			}
			if same && i != j {
				r.accepts.Add(1)
				if o.meaning != nil && o.meaning(i) != o.meaning(j) {
					r.Violation(fmt.Sprintf("%s meaning %s | %s", o.name, o.show(i), o.show(j)), fmt.Sprintf("%s: %s and %s are equal, but they mean %s and %s", o.name, o.show(i), o.show(j), o.meaning(i), o.meaning(j)), nil)
				}
			}
		}
		r.Transitions.Add(int64(o.n))
		r.Traces.Add(int64(o.n))
	})
	r.Bound("%s: %d values in %d classes, every ordered pair", o.name, o.n, rank[idx[o.n-1]]+1)
	r.Sample("%s: smallest %s, largest %s", o.name, o.show(idx[0]), o.show(idx[o.n-1]))
}

// explain finds the shortest contradiction for a pair whose comparison disagrees with the ranks.
func (o *ordered) explain(i, j, c int, idx, pos []int) string {
	if d := sgn(o.cmp(j, i)); d != -c {
		return fmt.Sprintf("%s: comparing %s with %s gives %d, the other way round %d", o.name, o.show(i), o.show(j), c, d)
	}
	lo, hi := pos[i], pos[j]
	if lo > hi {
		lo, hi = hi, lo
	}
	for k := lo + 1; k < hi; k++ {
		x, y, z := i, idx[k], j
		a, b := sgn(o.cmp(x, y)), sgn(o.cmp(y, z))
		if (a <= 0 && b <= 0 && c > 0) || (a >= 0 && b >= 0 && c < 0) || (c == 0 && a != -b && !(a == 0 && b == 0)) {
			return fmt.Sprintf("%s: not transitive: %s to %s gives %d, %s to %s gives %d, but %s to %s gives %d", o.name, o.show(x), o.show(y), a, o.show(y), o.show(z), b, o.show(x), o.show(z), c)
		}
	}
	return fmt.Sprintf("%s: no total order: comparing %s with %s gives %d, sorting puts them otherwise", o.name, o.show(i), o.show(j), c)
}

func init() {
	register("C11", func(r *Run) {
		r.Assume("doubles that are not a number are outside the property")
		level := 0
		if r.Thorough {
			level = 1
		}
		labels := append(append(flabels(), fextremeLabels()...), collisionLabels()...)
		_, groups := boolSpace(level)
		groups = append(groups, collisionFuncs(), operandOrder())
		type cf struct {
			text string
			f    funcs.Bool
			h    uint64
			out  string
		}
		var all []*cf
		limit := 8000
		if r.Thorough {
			limit = 40000
		}
		pick := []bool{}
		seen := map[string]bool{}
		for gi, g := range groups {
			stride := 1
			if len(g) > 3000 && gi < len(groups)-2 {
				stride = len(g)/(limit/5) + 1
			}
			for k, f := range g {
				if f.cerr || seen[f.text] || f.t != tB {
					continue
				}
				seen[f.text] = true
				all = append(all, &cf{text: f.text})
				pick = append(pick, k%stride == 0)
				if gi == len(groups)-2 { // a second, separate copy
					all = append(all, &cf{text: f.text})
					pick = append(pick, true)
				}
			}
		}
		r.Par(len(all), func(w, i int) {
			c := all[i]
			r.mark(w, func() string { return "function " + c.text })
			err := guard(func() error {
				var err error
				if c.f, err = compileText("->" + c.text); err != nil {
					return err
				}
				c.h = c.f.Hash()
				c.out, err = implOutcomes(c.f, labels)
				return err
			})
			if err != nil {
				c.f = nil
				r.Violation("compile "+c.text, fmt.Sprintf("%s: %v", c.text, err), nil)
			}
		})
		var ok []*cf
		var sel []*cf
		for i, c := range all {
			if c.f != nil {
				ok = append(ok, c)
				if pick[i] {
					sel = append(sel, c)
				}
			}
		}
		fo := func(name string, cs []*cf) *ordered {
			return &ordered{name: name, n: len(cs),
				cmp: func(i, j int) int { return cs[i].f.Compare(cs[j].f) }, eq: func(i, j int) bool { return funcs.Equal(cs[i].f, cs[j].f) },
				hash: func(i int) uint64 { return cs[i].h }, show: func(i int) string { return cs[i].text }, meaning: func(i int) string { return cs[i].out }}
		}
		fo("boolean functions", sel).check(r)
		// every two functions with the same hash, over the whole space
		byHash := map[uint64][]*cf{}
		for _, c := range ok {
			byHash[c.h] = append(byHash[c.h], c)
		}
		var coll [][]*cf
		distinct := 0
		for _, cs := range byHash {
			if len(cs) > 1 {
				coll = append(coll, cs)
				for _, c := range cs[1:] {
					if c.out != cs[0].out {
						distinct++
						break
					}
				}
			}
		}
		sort.Slice(coll, func(i, j int) bool { return coll[i][0].text < coll[j][0].text })
		r.Par(len(coll), func(w, i int) {
			cs := coll[i]
			// functions printed alike are compared with one of them, and those with each other
			rep := map[string]*cf{}
			var reps []*cf
			for _, c := range cs {
				s := c.f.String()
				if rep[s] == nil {
					rep[s] = c
					reps = append(reps, c)
				}
				a := rep[s]
				if c.f.Compare(a.f) != 0 || a.f.Compare(c.f) != 0 || !funcs.Equal(a.f, c.f) || a.out != c.out {
					r.Violation("same print "+a.text+" | "+c.text, fmt.Sprintf("%s and %s are both compiled to %s, but compare as %d, or evaluate to %s and %s", a.text, c.text, s, a.f.Compare(c.f), a.out, c.out), nil)
				}
			}
			for _, a := range reps {
				for _, b := range reps {
					c, d, e := sgn(a.f.Compare(b.f)), sgn(b.f.Compare(a.f)), funcs.Equal(a.f, b.f)
					r.Transitions.Add(1)
					if c != -d || (c == 0) != e {
						r.Violation("same hash "+a.text+" | "+b.text, fmt.Sprintf("%s and %s have the same hash; Compare gives %d and %d, Equal %v", a.text, b.text, c, d, e), nil)
					}
					if e && a.out != b.out {
						r.Violation("same hash meaning "+a.text+" | "+b.text, fmt.Sprintf("%s and %s are Equal, but evaluate to %s and %s", a.text, b.text, a.out, b.out), nil)
					}
				}
			}
		})
		r.States.Add(int64(len(ok)))
		r.Bound("%d functions in %d hash classes, %d of these with functions of different meaning: every pair of equal hash", len(ok), len(byHash), distinct)

		vs := valueFuncs()
		(&ordered{name: "functions of every type", n: len(vs), cmp: func(i, j int) int { return vs[i].Compare(vs[j]) }, eq: func(i, j int) bool { return funcs.Equal(vs[i], vs[j]) },
			hash: func(i int) uint64 { return vs[i].Hash() }, show: func(i int) string { return fmt.Sprintf("%T %s", vs[i], vs[i].String()) }, meaning: func(i int) string { return vs[i].String() }}).check(r)

		// syntax trees
		var pats []*ast.Pattern
		var ptext, psem []string
		add := func(text string) {
			for k := 0; k < 2; k++ { // two separately parsed copies
				g, err := relapse.Parse(text)
				if err != nil {
					r.Violation("parse "+text, fmt.Sprintf("%s: %v", text, err), nil)
					return
				}
				pats = append(pats, g.GetTopPattern())
				ptext = append(ptext, text)
				psem = append(psem, semPattern(g.GetTopPattern()))
			}
		}
		var gs []*ast.Grammar
		var gtext, gsem []string
		seen = map[string]bool{}
		k := 0
		for _, g := range synGrams(level) {
			t := g.text()
			if seen[t] {
				continue
			}
			seen[t] = true
			gr, err := relapse.Parse(t)
			if err != nil {
				continue
			}
			k++
			if (gr.GetTopPattern() == nil || gr.PatternDecls != nil) && k%3 == 0 || k%20 == 0 {
				for c := 0; c < 2; c++ {
					gr, _ := relapse.Parse(t)
					gs, gtext, gsem = append(gs, gr), append(gtext, t), append(gsem, noZeroSign(semGrammar(gr)))
				}
			}
			if gr.GetTopPattern() != nil && len(gr.PatternDecls) == 0 && (k%4 == 0 || r.Thorough) && len(pats) < 16000 {
				add(t)
			}
		}
		for _, t := range collisionPatterns() {
			add(t)
		}
		if len(pats) > 0 {
			(&ordered{name: "patterns", n: len(pats), cmp: func(i, j int) int { return pats[i].Compare(pats[j]) }, eq: func(i, j int) bool { return pats[i].Equal(pats[j]) },
				hash: func(i int) uint64 { return pats[i].Hash() }, show: func(i int) string { return fmt.Sprintf("%q", ptext[i]) }, meaning: func(i int) string { return noZeroSign(psem[i]) }}).check(r)
		}
		var nes []*ast.NameExpr
		var ts []*ast.Terminal
		for _, p := range pats {
			collectNames(p, func(n *ast.NameExpr) { nes = append(nes, n) }, func(t *ast.Terminal) { ts = append(ts, t) })
		}
		nes, ts = thin(nes, 6000), thin(ts, 6000)
		(&ordered{name: "names", n: len(nes), cmp: func(i, j int) int { return nes[i].Compare(nes[j]) }, eq: func(i, j int) bool { return nes[i].Equal(nes[j]) },
			show: func(i int) string { return fmt.Sprintf("%q", nes[i].String()) }, meaning: func(i int) string { return noZeroSign(semName(nes[i])) }}).check(r)
		(&ordered{name: "terminals", n: len(ts), cmp: func(i, j int) int { return ts[i].Compare(ts[j]) }, eq: func(i, j int) bool { return ts[i].Equal(ts[j]) },
			show: func(i int) string { return fmt.Sprintf("%q", ts[i].String()) }, meaning: func(i int) string { return noZeroSign(semExpr(&ast.Expr{Terminal: ts[i]})) }}).check(r)
		r.Par(len(gs), func(w, i int) {
			for j := range gs {
				a, b := gs[i].Equal(gs[j]), gs[j].Equal(gs[i])
				r.Transitions.Add(1)
				if a != b || i == j && !a || gtext[i] == gtext[j] && !a || a && gsem[i] != gsem[j] {
					r.Violation("grammars "+gtext[i]+" | "+gtext[j], fmt.Sprintf("grammars %q and %q: Equal gives %v, the other way round %v; they mean %s and %s", gtext[i], gtext[j], a, b, gsem[i], gsem[j]), nil)
				}
			}
		})
		r.Bound("%d grammars: Equal on every ordered pair", len(gs))
		if r.Thorough {
			longOrdered(r, 48)
		} else {
			longOrdered(r, 20)
		}
	})
}

func noZeroSign(s string) string {
	return strings.ReplaceAll(s, "double:8000000000000000", "double:0000000000000000")
}

func thin[T any](xs []T, n int) []T {
	if len(xs) <= n {
		return xs
	}
	s := len(xs)/n + 1
	var out []T
	for i := 0; i < len(xs); i += s {
		out = append(out, xs[i])
	}
	return out
}

func collectNames(p *ast.Pattern, fn func(*ast.NameExpr), ft func(*ast.Terminal)) {
	if p == nil {
		return
	}
	var expr func(e *ast.Expr)
	expr = func(e *ast.Expr) {
		if e == nil {
			return
		}
		if e.Terminal != nil {
			ft(e.Terminal)
		}
		if e.List != nil {
			for _, x := range e.List.Elems {
				expr(x)
			}
		}
		if e.Function != nil {
			for _, x := range e.Function.Params {
				expr(x)
			}
		}
		if e.BuiltIn != nil {
			expr(e.BuiltIn.Expr)
		}
	}
	switch {
	case p.TreeNode != nil:
		fn(p.TreeNode.Name)
		collectNames(p.TreeNode.Pattern, fn, ft)
	case p.LeafNode != nil:
		expr(p.LeafNode.Expr)
	case p.Concat != nil:
		collectNames(p.Concat.LeftPattern, fn, ft)
		collectNames(p.Concat.RightPattern, fn, ft)
	case p.Or != nil:
		collectNames(p.Or.LeftPattern, fn, ft)
		collectNames(p.Or.RightPattern, fn, ft)
	case p.And != nil:
		collectNames(p.And.LeftPattern, fn, ft)
		collectNames(p.And.RightPattern, fn, ft)
	case p.Interleave != nil:
		collectNames(p.Interleave.LeftPattern, fn, ft)
		collectNames(p.Interleave.RightPattern, fn, ft)
	case p.ZeroOrMore != nil:
		collectNames(p.ZeroOrMore.Pattern, fn, ft)
	case p.Not != nil:
		collectNames(p.Not.Pattern, fn, ft)
	case p.Contains != nil:
		collectNames(p.Contains.Pattern, fn, ft)
	case p.Optional != nil:
		collectNames(p.Optional.Pattern, fn, ft)
	}
}

// The hashes are sums of 31^k * part, so that "Aa" and "BB", [1,32] and [2,1] and the like have equal hashes; the
// functions, names and patterns below are chosen to have such neighbours.
func collisionFuncs() []*fx {
	cs := func(t fty) []*fx {
		switch t {
		case tS:
			return []*fx{fconst(`"Aa"`, vS("Aa")), fconst(`"BB"`, vS("BB")), fconst(`"AaAa"`, vS("AaAa")), fconst(`"AaBB"`, vS("AaBB")), fconst(`"BBAa"`, vS("BBAa"))}
		case tI:
			return []*fx{fconst("1", vI(1)), fconst("2", vI(2)), fconst("32", vI(32)), fconst("33", vI(33)), fconst("-29", vI(-29))}
		case tU:
			return []*fx{fconst("uint(1)", vU(1)), fconst("uint(2)", vU(2)), fconst("uint(32)", vU(32)), fconst("uint(33)", vU(33))}
		case tY:
			return []*fx{fconst("[]byte{1,32}", vY([]byte{1, 32})), fconst("[]byte{2,1}", vY([]byte{2, 1}))}
		case tB:
			return fconsts(tB)
		case tD:
			return []*fx{fconst("double(1)", vD(1)), fconst("double(5e-324)", vD(5e-324)), fconst("double(1e-323)", vD(1e-323)), fconst("double(1.6e-322)", vD(1.6e-322))}
		}
		return nil
	}
	pool := func(t fty) []*fx {
		if t.isList() {
			s := t.single()
			c := cs(s)
			var out []*fx
			for _, a := range c {
				for _, b := range c {
					out = append(out, flist(s, a, b))
				}
			}
			if len(c) > 4 {
				out = out[:13]
			}
			return append(out, flist(s, fvar(s), c[0]), flist(s, c[1], fvar(s)))
		}
		return append(cs(t), fvar(t))
	}
	out := allCalls(func(s fsig) bool { return s.out == tB }, pool)
	I := fvar(tI)
	var cmps []*fx
	for _, k := range []int64{1, 2, 32, 33} {
		c := fconst(fmt.Sprint(k), vI(k))
		cmps = append(cmps, fcall("ge", I, c), fcall("lt", I, c), fcall("eq", I, c), fcall("ge", c, I))
	}
	for _, n := range []string{"Aa", "BB"} {
		c := fconst(fmt.Sprintf("%q", n), vS(n))
		cmps = append(cmps, fcall("eq", fvar(tS), c), fcall("ne", fvar(tS), c), fcall("contains", fvar(tS), c))
	}
	for _, a := range cmps {
		out = append(out, fcall("not", a))
		for _, b := range cmps {
			out = append(out, fcall("and", a, b), fcall("or", a, b))
		}
	}
	return out
}

func collisionLabels() []*Label {
	ls := []*Label{strLabel("Aa"), strLabel("BB"), strLabel("AaAa"), strLabel("AaBB"), bytesLabel([]byte{1, 32}), bytesLabel([]byte{2, 1}), {HasD: true, D: 5e-324}, {HasD: true, D: 1e-323}}
	for _, i := range []int64{31, 32, 33, 34, -29} {
		ls = append(ls, numLabel(i))
	}
	return ls
}

func collisionPatterns() []string {
	names := []string{"Aa", "BB", "AaAa", "AaBB", "BBBB", "1", "32", "(Aa|BB)", "(BB|Aa)", "!(Aa)", "!(BB)", "!((Aa|BB))", "_", `" Aa"`, " Aa", "\nAa", "/*c*/Aa"}
	leaves := []string{"*", "<empty>", `== "Aa"`, `== "BB"`, "== 1", "== 0x1", "==1", "== 32", "->eq($int,1)", "->eq($int, 1)", "->eq(1,$int)", "->contains($int,[]int{1,32})", "->contains($int,[]int{2,1})", "->contains($int,[]int{1,0x20})",
		`->contains($string,[]string{"Aa","BB"})`, `->contains($string,[]string{"BB","Aa"})`, `->contains($string,[]string{"BB","BB"})`, "== []byte{1,32}", "== []byte{2,1}", "== []byte{}", "== double(0.0)", "== double(-0.0)", "== double(0)", "== uint(1)", "== 'a'", `== "a"`, "== `a`", "== true", "== $bool", ":: $int", "->true"}
	var out []string
	for _, n := range names {
		for _, l := range leaves {
			out = append(out, n+" : "+l, "."+strings.TrimSpace(n)+" : "+l)
		}
		for _, m := range names[:5] {
			for _, op := range []string{"(%s : * | %s : *)", "(%s : * & %s : *)", "[%s : *, %s : *]", "{%s : * ; %s : *}", "{%s : * ; %s : <empty>}", "[%s:<empty>,%s:*]"} {
				out = append(out, fmt.Sprintf(op, n, m))
			}
			out = append(out, fmt.Sprintf("(%s : * | (%s : * | *))", n, m), fmt.Sprintf("((%s : * | %s : *) | *)", n, m), fmt.Sprintf("!(%s:%s:*)", n, m), fmt.Sprintf("(%s:%s:*)*", n, m), fmt.Sprintf("(%s:%s:*)?", n, m))
		}
	}
	var ok []string
	for _, t := range out {
		if _, err := relapse.Parse(t); err == nil {
			ok = append(ok, t)
		}
	}
	return ok
}

// valueFuncs are functions of every type, built with the constructors of the package.
func valueFuncs() []funcs.Comparable {
	var out []funcs.Comparable
	add := func(cs ...funcs.Comparable) { out = append(out, cs...) }
	build := func() {
		var ds []funcs.Double
		var is []funcs.Int
		var us []funcs.Uint
		var bs []funcs.Bool
		var ss []funcs.String
		var ys []funcs.Bytes
		for _, v := range []float64{-1, 0, 1, 1.5, 5e-324, 1e-323} {
			ds = append(ds, funcs.DoubleConst(v))
		}
		for _, v := range []int64{-1, 0, 1, 2, 32, 33, 1 << 62, -1 << 63} {
			is = append(is, funcs.IntConst(v))
		}
		for _, v := range []uint64{0, 1, 2, 32, 1 << 63} {
			us = append(us, funcs.UintConst(v))
		}
		for _, v := range []bool{false, true} {
			bs = append(bs, funcs.BoolConst(v))
		}
		for _, v := range []string{"", "a", "b", "ab", "Aa", "BB", "AaBB", "BBAa"} {
			ss = append(ss, funcs.StringConst(v))
		}
		for _, v := range []string{"", "a", "b", "\x01\x20", "\x02\x01"} {
			ys = append(ys, funcs.BytesConst([]byte(v)))
		}
		ds, is, us = append(ds, funcs.DoubleVar()), append(is, funcs.IntVar(), funcs.Now()), append(us, funcs.UintVar())
		bs, ss, ys = append(bs, funcs.BoolVar()), append(ss, funcs.StringVar()), append(ys, funcs.BytesVar())
		for _, s := range append([]funcs.String{}, ss...) {
			ss = append(ss, funcs.ToLower(s), funcs.ToUpper(s))
			is = append(is, funcs.LenString(s))
		}
		for _, y := range ys {
			is = append(is, funcs.LenBytes(y))
		}
		for _, d := range ds {
			add(d)
		}
		for _, d := range is {
			add(d)
		}
		for _, d := range us {
			add(d)
		}
		for _, d := range bs {
			add(d)
		}
		for _, d := range ss {
			add(d)
		}
		for _, d := range ys {
			add(d)
		}
		idx := []funcs.Int{funcs.IntConst(0), funcs.IntConst(1), funcs.IntVar()}
		lens := len(is)
		pairUp(ds, func(l []funcs.Double) {
			x := funcs.NewListOfDouble(l)
			add(x, funcs.LenDoubles(x))
			for _, i := range idx {
				add(funcs.ElemDoubles(x, i), funcs.RangeDoubles(x, idx[0], i))
			}
		})
		pairUp(is[:lens], func(l []funcs.Int) {
			x := funcs.NewListOfInt(l)
			add(x, funcs.LenInts(x))
			for _, i := range idx {
				add(funcs.ElemInts(x, i), funcs.RangeInts(x, idx[0], i))
			}
		})
		pairUp(us, func(l []funcs.Uint) {
			x := funcs.NewListOfUint(l)
			add(x, funcs.LenUints(x))
			for _, i := range idx {
				add(funcs.ElemUints(x, i), funcs.RangeUints(x, idx[0], i))
			}
		})
		pairUp(bs, func(l []funcs.Bool) {
			x := funcs.NewListOfBool(l)
			add(x, funcs.LenBools(x))
			for _, i := range idx {
				add(funcs.ElemBools(x, i), funcs.RangeBools(x, idx[0], i))
			}
		})
		pairUp(ss, func(l []funcs.String) {
			x := funcs.NewListOfString(l)
			add(x, funcs.LenStrings(x))
			for _, i := range idx {
				add(funcs.ElemStrings(x, i), funcs.RangeStrings(x, idx[0], i))
			}
		})
		pairUp(ys, func(l []funcs.Bytes) {
			x := funcs.NewListOfBytes(l)
			add(x, funcs.LenListOfBytes(x))
			for _, i := range idx {
				add(funcs.ElemListOfBytes(x, i), funcs.RangeListOfBytes(x, idx[0], i))
			}
		})
	}
	build()
	build()
	return out
}

// pairUp gives every list of no, one and two of the values.
func pairUp[T any](xs []T, f func(l []T)) {
	f([]T{})
	for _, a := range xs {
		f([]T{a})
		for _, b := range xs {
			f([]T{a, b})
		}
	}
}
