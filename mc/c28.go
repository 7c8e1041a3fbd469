package main

import (
	"fmt"
	"strings"

	"github.com/katydid/katydid/relapse"
	"github.com/katydid/katydid/relapse/ast"
	"github.com/katydid/katydid/relapse/combinator"
	"github.com/katydid/katydid/relapse/types"
)

// C28: the builders of relapse/combinator against the reference meaning of the documented text.

// bp is a built pattern and its documented meaning.
type bp struct {
	ref  *Pat
	text string // the calls
	make func(sh *shared) *ast.Pattern
}

// shared returns the same pattern (expression) for the same calls when it is on.
type shared struct {
	on    bool
	pats  map[string]*ast.Pattern
	exprs map[string]*ast.Expr
}

func newSharing(on bool) *shared {
	return &shared{on: on, pats: map[string]*ast.Pattern{}, exprs: map[string]*ast.Expr{}}
}

func (b *bp) build(sh *shared) *ast.Pattern {
	if p, ok := sh.pats[b.text]; ok && sh.on {
		return p
	}
	p := b.make(sh)
	sh.pats[b.text] = p
	return p
}

func refFold(op Op, ps []*Pat) *Pat {
	p := ps[len(ps)-1]
	for i := len(ps) - 2; i >= 0; i-- {
		p = mk(op, ps[i], p)
	}
	return p
}

type nary func(first *ast.Pattern, rest ...*ast.Pattern) *ast.Pattern

func nameOf(s string) *Pred { return pr(s, isStr(s)) }

// bpUnary lists the builders over a list of children (1 to n of them).
func bpOver(cs []*bp) []*bp {
	var refs []*Pat
	var texts []string
	for _, c := range cs {
		refs = append(refs, c.ref)
		texts = append(texts, c.text)
	}
	args := strings.Join(texts, ", ")
	built := func(sh *shared) []*ast.Pattern {
		out := make([]*ast.Pattern, len(cs))
		for i, c := range cs {
			out[i] = c.build(sh)
		}
		return out
	}
	seq := refFold(OpConcat, refs)
	var out []*bp
	add := func(text string, ref *Pat, f nary) {
		out = append(out, &bp{ref, text + args + ")", func(sh *shared) *ast.Pattern {
			ps := built(sh)
			return f(ps[0], ps[1:]...)
		}})
	}
	add(`InPath("a", `, mk(OpContains, mkNode(nA, seq), nil), func(p *ast.Pattern, ps ...*ast.Pattern) *ast.Pattern {
		return combinator.InPath("a", p, ps...)
	})
	add(`InAnyPath(`, mk(OpContains, mkNode(nAny, seq), nil), combinator.InAnyPath)
	add(`In("a", `, mkNode(nA, seq), func(p *ast.Pattern, ps ...*ast.Pattern) *ast.Pattern { return combinator.In("a", p, ps...) })
	add(`Elem(1, `, mkNode(n1, seq), func(p *ast.Pattern, ps ...*ast.Pattern) *ast.Pattern { return combinator.Elem(1, p, ps...) })
	add(`InAny(`, mkNode(nAny, seq), combinator.InAny)
	add(`InAnyExcept("a", `, mkNode(nNotA, seq), func(p *ast.Pattern, ps ...*ast.Pattern) *ast.Pattern {
		return combinator.InAnyExcept("a", p, ps...)
	})
	add(`InAnyOf([a b], `, mkNode(nAorB, seq), func(p *ast.Pattern, ps ...*ast.Pattern) *ast.Pattern {
		return combinator.InAnyOf([]string{"a", "b"}, p, ps...)
	})
	add(`InAnyOf([c d b], `, mkNode(pr("(c|d|b)", func(l *Label) bool { return l.HasS && (l.S == "b" || l.S == "c" || l.S == "d") }), seq), func(p *ast.Pattern, ps ...*ast.Pattern) *ast.Pattern {
		return combinator.InAnyOf([]string{"c", "d", "b"}, p, ps...)
	})
	add(`InOrder(`, seq, combinator.InOrder)
	add(`AllOf(`, refFold(OpAnd, refs), func(p *ast.Pattern, ps ...*ast.Pattern) *ast.Pattern {
		return combinator.AllOf(append([]*ast.Pattern{p}, ps...)...)
	})
	add(`AnyOf(`, refFold(OpOr, refs), func(p *ast.Pattern, ps ...*ast.Pattern) *ast.Pattern {
		return combinator.AnyOf(append([]*ast.Pattern{p}, ps...)...)
	})
	add(`InAnyOrder(`, refFold(OpInterleave, refs), combinator.InAnyOrder)
	if len(cs) == 1 {
		un := func(f func(p *ast.Pattern) *ast.Pattern) nary {
			return func(p *ast.Pattern, _ ...*ast.Pattern) *ast.Pattern { return f(p) }
		}
		add(`OppositeOf(`, mk(OpNot, refs[0], nil), un(combinator.OppositeOf))
		add(`Many(`, mk(OpStar, refs[0], nil), un(combinator.Many))
		add(`Maybe(`, mk(OpOptional, refs[0], nil), un(combinator.Maybe))
	}
	return out
}

func bpAtoms() []*bp {
	value := func(text string, ref *Pred, f func() *ast.Expr) *bp {
		return &bp{mkLeaf(ref), text, func(*shared) *ast.Pattern { return combinator.Value(f()) }}
	}
	return []*bp{
		{pAny(), "Any()", func(*shared) *ast.Pattern { return combinator.Any() }},
		{pNone(), "None()", func(*shared) *ast.Pattern { return combinator.None() }},
		value("Value(Eq(IntVar(), IntConst(1)))", eq1, func() *ast.Expr { return combinator.Eq(combinator.IntVar(), combinator.IntConst(1)) }),
		value(`Value(Eq(StringConst("a"), StringVar()))`, eqsA, func() *ast.Expr { return combinator.Eq(combinator.StringConst("a"), combinator.StringVar()) }),
		{mkRef("x"), `Eval("x")`, func(*shared) *ast.Pattern { return combinator.Eval("x") }},
	}
}

type bpGram struct {
	main, x *bp
}

func checkBuilt(r *Run, u *Universe, w int, g bpGram, m *Matcher, tp *TreeParser) {
	text := fmt.Sprintf("main: %s x: %s", g.main.text, g.x.text)
	r.mark(w, func() string { return "builders " + text })
	m.Decls = map[string]*Pat{"x": g.x.ref}
	want := make([]bool, len(u.Forests))
	acc := int64(0)
	for f := range want {
		if want[f] = m.Full(g.main.ref, f); want[f] {
			acc++
		}
	}
	r.States.Add(int64(len(want)))
	r.outcomesAdd(acc, int64(len(want))-acc)
	if n := r.sampleTick.Add(1); n&(n-1) == 0 {
		r.Sample("builders %s accept %d of %d trees", text, acc, len(want))
	}
	steps := tp.Steps
	var traces int64
	for _, mode := range []string{"every part built anew", "equal parts built once and shared", "equal parts shared with an earlier grammar", "as built anew, printed and parsed"} {
		var bad *Forest
		err := guard(func() error {
			sh := newSharing(strings.Contains(mode, "shared"))
			if strings.Contains(mode, "earlier") {
				before := combinator.G{"main": combinator.InOrder(g.x.build(sh), g.main.build(sh)), "x": combinator.In("b", g.main.build(sh), g.x.build(sh)), "y": g.x.build(sh)}.Grammar()
				if _, err := relapse.Prepare(before); err != nil {
					return fmt.Errorf("preparing the earlier grammar fails: %v", err)
				}
				_ = before.String()
			}
			built := combinator.G{"main": g.main.build(sh), "x": g.x.build(sh)}.Grammar()
			if strings.Contains(mode, "printed") {
				var err error
				if built, err = relapse.Parse(built.String()); err != nil {
					return fmt.Errorf("the printed grammar does not parse: %v", err)
				}
			}
			mem, err := relapse.Prepare(built)
			if err != nil {
				return fmt.Errorf("preparing fails: %v", err)
			}
			for f, fo := range u.Forests {
				tp.Init(fo.Trees)
				got, err := mem.Validate(tp)
				if err != nil || got != want[f] {
					bad = fo
					return fmt.Errorf("verdict %v, %v, but the documented meaning says %v", got, err, want[f])
				}
				traces++
			}
			return nil
		})
		if err != nil {
			tree := "-"
			if bad != nil {
				tree = showForest(bad.Trees)
			}
			r.Violation(mode+" | "+text+" | "+tree, fmt.Sprintf("builders: %s\nmode: %s\nmeaning: %s #x=%s\ntree: %s\n%v", text, mode, g.main.ref.Text(), g.x.ref.Text(), tree, err),
				map[string]string{"builders": text, "mode": mode, "tree": tree})
		}
	}
	r.Traces.Add(traces)
	r.Transitions.Add(tp.Steps - steps)
}

func bpPool(ps []*bp) {
	for _, p := range ps {
		p.ref.Pool = true
	}
}

// reach tells whether the reference is reached without passing through a node: then the grammar is left recursive.
func reachRef(p *Pat) bool {
	switch p.Op {
	case OpRef:
		return true
	case OpNode, OpLeaf:
		return false
	}
	return p.L != nil && reachRef(p.L) || p.R != nil && reachRef(p.R)
}

func checkC28Patterns(r *Run) {
	labels := []*Label{strLabel("a"), strLabel("b"), numLabel(1)}
	u := newUniverse(labels, 3, 3, 3, func(l int) bool { return true })
	atoms := bpAtoms()
	var d1 []*bp
	for _, a := range atoms {
		d1 = append(d1, bpOver([]*bp{a})...)
	}
	for _, a := range atoms {
		for _, b := range atoms {
			d1 = append(d1, bpOver([]*bp{a, b})...)
		}
	}
	// a few of depth 1 for the operands of depth 2, and triples of atoms
	var tri []*bp
	for _, a := range atoms {
		for _, b := range atoms {
			for _, c := range atoms {
				tri = append(tri, bpOver([]*bp{a, b, c})...)
			}
		}
	}
	quad := bpOver(atoms)
	var few []*bp
	stride := 3
	if r.Thorough {
		stride = 1
	}
	for i := 0; i < len(d1); i += stride {
		few = append(few, d1[i])
	}
	var d2 []*bp
	for _, p := range d1 {
		d2 = append(d2, bpOver([]*bp{p})...)
	}
	for _, p := range few {
		for _, q := range atoms {
			d2 = append(d2, bpOver([]*bp{p, q})...)
			d2 = append(d2, bpOver([]*bp{q, p})...)
		}
		d2 = append(d2, bpOver([]*bp{p, p})...)
		d2 = append(d2, bpOver([]*bp{p, atoms[2], p})...)
	}
	if r.Thorough {
		for i := 0; i < len(d1); i += 7 {
			for j := 0; j < len(d1); j += 7 {
				d2 = append(d2, bpOver([]*bp{d1[i], d1[j]})...)
			}
		}
	}
	var xs []*bp
	xs = append(xs, atoms[2])
	for _, p := range d1 {
		// definitions for x: under a node, so that references in them are not left recursive
		if p.ref.Op == OpNode && (p.ref.Pred == nA || p.ref.Pred == nAny) && len(xs) < 6 {
			xs = append(xs, p)
		}
	}
	recursive := bpOver([]*bp{bpOver([]*bp{atoms[4]})[2]})
	for _, p := range recursive {
		if strings.HasPrefix(p.text, "Maybe") || strings.HasPrefix(p.text, "Many") {
			xs = append(xs, p)
		}
	}
	bpPool(xs)
	for _, group := range []struct {
		name string
		ps   []*bp
		xs   []*bp
	}{{"atoms and builders of one or two atoms", append(append([]*bp{}, atoms...), d1...), xs}, {"builders of three and five atoms", append(tri, quad...), xs[len(xs)-1:]}, {"builders of builders", d2, xs[len(xs)-1:]}} {
		var gs []bpGram
		seen := map[string]bool{}
		for _, p := range group.ps {
			if seen[p.text] {
				continue
			}
			seen[p.text] = true
			p.ref.Pool = true
			for _, x := range group.xs {
				if reachRef(x.ref) {
					panic("left recursive definition")
				}
				gs = append(gs, bpGram{p, x})
				if !strings.Contains(p.text, "Eval") {
					break
				}
			}
		}
		type ws struct {
			m  *Matcher
			tp *TreeParser
		}
		workers := make([]*ws, 64)
		r.Par(len(gs), func(w, i int) {
			if workers[w] == nil {
				workers[w] = &ws{tp: newTreeParser(nil)}
			}
			checkBuilt(r, u, w, gs[i], newMatcher(u, nil), workers[w].tp)
		})
		r.Bound("%s: %d grammars x %d trees x 4 ways of building", group.name, len(gs), len(u.Forests))
	}
}

// checkC28Names: every builder that takes a name, with every pair of unusual names and indexes.
func checkC28Names(r *Run) {
	names := []string{"a", "", " ", "a b", "true", "false", "_", "*", "1", "-1", "0x1", "\"", "\\", "`", "\n", "a\"b", "日", "\xff", "\x00", "//", "/*", "int", "$string", "==", "->", "#", "@a", "<empty>", "[]byte{}", "double", "uint(1)", "a-b", "a_b", "A", "9a", "\u2028", "\ufeff", "\u00e9"}
	ints := []int{0, 1, -1, 2, 10, 1 << 31, -1 << 31, 1<<63 - 1, -1 << 63}
	var labels []*Label
	for _, n := range names {
		labels = append(labels, strLabel(n))
	}
	for _, i := range ints {
		labels = append(labels, intLabel(int64(i)))
	}
	any := &bp{pAny(), "Any()", func(*shared) *ast.Pattern { return combinator.Any() }}
	var all []*bp
	add := func(text string, p *Pat, f func() *ast.Pattern) {
		all = append(all, &bp{p, text, func(*shared) *ast.Pattern { return f() }})
	}
	for _, n := range names {
		n := n
		node := mkNode(nameOf(n), pAny())
		add(fmt.Sprintf("In(%q, Any())", n), node, func() *ast.Pattern { return combinator.In(n, combinator.Any()) })
		add(fmt.Sprintf("InPath(%q, Any())", n), mk(OpContains, node, nil), func() *ast.Pattern { return combinator.InPath(n, combinator.Any()) })
		add(fmt.Sprintf("InAnyExcept(%q, Any())", n), mkNode(pr("!", func(l *Label) bool { return !isStr(n)(l) }), pAny()), func() *ast.Pattern { return combinator.InAnyExcept(n, combinator.Any()) })
		for _, m := range names {
			m := m
			or := pr("or", func(l *Label) bool { return isStr(n)(l) || isStr(m)(l) })
			add(fmt.Sprintf("InAnyOf([%q %q], Any())", n, m), mkNode(or, pAny()), func() *ast.Pattern { return combinator.InAnyOf([]string{n, m}, combinator.Any()) })
			or3 := pr("or", func(l *Label) bool { return isStr(n)(l) || isStr(m)(l) || isStr("z")(l) })
			add(fmt.Sprintf("InAnyOf([%q z %q], Any())", n, m), mkNode(or3, pAny()), func() *ast.Pattern { return combinator.InAnyOf([]string{n, "z", m}, combinator.Any()) })
			add(fmt.Sprintf("AnyOf(In(%q, Any()), In(%q, Any()))", n, m), mkNode(or, pAny()), func() *ast.Pattern {
				return combinator.AnyOf(combinator.In(n, combinator.Any()), combinator.In(m, combinator.Any()))
			})
		}
	}
	for _, i := range ints {
		i := i
		add(fmt.Sprintf("Elem(%d, Any())", i), mkNode(pr("index", func(l *Label) bool { return l.HasI && l.I == int64(i) }), pAny()), func() *ast.Pattern { return combinator.Elem(i, combinator.Any()) })
	}
	uni := newUniverse(labels, 1, 1, 1, func(int) bool { return false })
	uni.openEmpty()
	tps := make([]*TreeParser, 64)
	r.Par(len(all), func(w, i int) {
		if tps[w] == nil {
			tps[w] = newTreeParser(nil)
		}
		checkBuilt(r, uni, w, bpGram{all[i], any}, newMatcher(uni, nil), tps[w])
	})
	r.Bound("builders with unusual names and indexes: %d grammars x %d trees x 4 ways of building", len(all), len(uni.Forests))
}

// ---- expressions

func exprVar(t fty) *ast.Expr {
	switch t {
	case tD:
		return combinator.DoubleVar()
	case tI:
		return combinator.IntVar()
	case tU:
		return combinator.UintVar()
	case tB:
		return combinator.BoolVar()
	case tS:
		return combinator.StringVar()
	}
	return combinator.BytesVar()
}

func exprConst(v fval) *ast.Expr {
	switch v.t {
	case tD:
		return combinator.DoubleConst(v.d)
	case tI:
		return combinator.IntConst(v.i)
	case tU:
		return combinator.UintConst(v.u)
	case tB:
		return combinator.BoolConst(v.b)
	case tS:
		return combinator.StringConst(v.s)
	}
	return combinator.BytesConst([]byte(v.s))
}

func exprConsts(t fty, vs []fval) *ast.Expr {
	switch t.single() {
	case tD:
		var l []float64
		for _, v := range vs {
			l = append(l, v.d)
		}
		return combinator.DoublesConst(l)
	case tI:
		var l []int64
		for _, v := range vs {
			l = append(l, v.i)
		}
		return combinator.IntsConst(l)
	case tU:
		var l []uint64
		for _, v := range vs {
			l = append(l, v.u)
		}
		return combinator.UintsConst(l)
	case tB:
		var l []bool
		for _, v := range vs {
			l = append(l, v.b)
		}
		return combinator.BoolsConst(l)
	case tS:
		var l []string
		for _, v := range vs {
			l = append(l, v.s)
		}
		return combinator.StringsConst(l)
	}
	var l [][]byte
	for _, v := range vs {
		l = append(l, []byte(v.s))
	}
	return combinator.ListOfBytesConst(l)
}

var listType = map[fty]types.Type{tLD: types.LIST_DOUBLE, tLI: types.LIST_INT, tLU: types.LIST_UINT, tLB: types.LIST_BOOL, tLS: types.LIST_STRING, tLY: types.LIST_BYTES}

// buildExpr calls the builders for the expression; ok is false when there is no builder for a part of it.
func buildExpr(f *fx, sh *shared) (*ast.Expr, bool) {
	if e, ok := sh.exprs[f.text]; ok && sh.on {
		return e, e != nil
	}
	e, ok := buildExpr1(f, sh)
	sh.exprs[f.text] = e
	return e, ok
}

func buildExpr1(f *fx, sh *shared) (*ast.Expr, bool) {
	switch {
	case f.isVar:
		return exprVar(f.t), true
	case f.isCons:
		return exprConst(f.eval(&Label{}).vs[0]), true
	case f.name == "":
		var vs []fval
		allConst := true
		for _, a := range f.args {
			if !a.isCons || a.t.list() != f.t {
				allConst = false
				break
			}
			vs = append(vs, a.eval(&Label{}).vs[0])
		}
		if allConst {
			return exprConsts(f.t, vs), true
		}
		var es []*ast.Expr
		for _, a := range f.args {
			e, ok := buildExpr(a, sh)
			if !ok {
				return nil, false
			}
			es = append(es, e)
		}
		return ast.NewList(listType[f.t], es...), true
	}
	var es []*ast.Expr
	for _, a := range f.args {
		e, ok := buildExpr(a, sh)
		if !ok {
			return nil, false
		}
		es = append(es, e)
	}
	if len(es) == 2 {
		var c func(a, b *ast.Expr) *ast.Expr
		switch f.name {
		case "eq":
			c = combinator.Eq
		case "lt":
			c = combinator.LT
		case "le":
			c = combinator.LE
		case "gt":
			c = combinator.GT
		case "ge":
			c = combinator.GE
		case "and":
			c = combinator.And
		case "or":
			c = combinator.Or
		case "contains":
			c = combinator.Contains
		case "regex":
			c = combinator.Regex
		case "eqFold":
			c = combinator.EqualFold
		case "hasPrefix":
			c = combinator.HasPrefix
		case "hasSuffix":
			c = combinator.HasSuffix
		}
		if c != nil {
			return c(es[0], es[1]), true
		}
	}
	if len(es) == 1 {
		switch f.name {
		case "not":
			return combinator.Not(es[0]), true
		case "length":
			return combinator.Length(es[0]), true
		case "type":
			return combinator.Type(es[0]), true
		}
	}
	return ast.NewFunction(f.name, es...), true
}

func checkC28Expr(r *Run, w int, f *fx, labels []*Label, tp *TreeParser) {
	r.mark(w, func() string { return "builder of " + f.text })
	var wants []fres
	if !f.cerr {
		for _, l := range labels {
			wants = append(wants, f.eval(l))
		}
	}
	for _, mode := range []string{"anew", "shared", "twice"} {
		var at *Label
		err := guard(func() error {
			sh := newSharing(mode != "anew")
			if mode != "anew" {
				// the parts were used in other places before
				for _, t := range []fty{tD, tI, tU, tB, tS, tY} {
					v, _ := buildExpr(fvar(t), sh)
					combinator.Eq(exprVar(t), v)
				}
			}
			e, ok := buildExpr(f, sh)
			if !ok {
				return nil
			}
			p := combinator.Value(e)
			if mode == "twice" {
				q := combinator.Value(e)
				p = combinator.AllOf(p, q)
			}
			g := combinator.G{"main": p}.Grammar()
			m, err := relapse.Prepare(g)
			if f.cerr {
				if err == nil {
					return fmt.Errorf("is prepared as %s, but the text ->%s is an error", g.String(), f.text)
				}
				return nil
			}
			if err != nil {
				return fmt.Errorf("is not prepared: %v", err)
			}
			for i, l := range labels {
				at = l
				want := wants[i]
				tp.Init([]*Tree{{L: l, Leaf: true}})
				v, err := m.Validate(tp)
				c := byte('F')
				if err != nil {
					c = 'E'
				} else if v {
					c = 'T'
				}
				if !allowed(want, c) {
					return fmt.Errorf("%s gives %c, but ->%s is %s", g.String(), c, f.text, showRes(want))
				}
			}
			r.Traces.Add(int64(len(labels)))
			return nil
		})
		r.States.Add(1)
		r.Transitions.Add(int64(len(labels)))
		if err != nil {
			val := "-"
			if at != nil {
				val = at.Show()
			}
			r.Violation("expression "+mode+" | "+f.text+" | "+val, fmt.Sprintf("expression: %s\nmode: %s\nvalue: %s\n%v", f.text, mode, val, err), map[string]string{"function": f.text, "mode": mode, "value": val})
		}
	}
	if f.cerr {
		r.rejects.Add(1)
	} else {
		r.accepts.Add(1)
	}
	if n := r.sampleTick.Add(1); n&(n-1) == 0 {
		r.Sample("expression %s", f.text)
	}
}

func init() {
	register("C28", func(r *Run) {
		r.Assume("oracle: the documented meaning of each builder in the reference model of patterns (refmatch.go) and of functions (fexpr.go)")
		checkC28Patterns(r)
		checkC28Names(r)
		checkC28Slices(r)
		checkC28Wide(r)
		names, groups := boolSpace(level(r) - 1)
		labels := append(flabels(), fextremeLabels()...)
		tps := make([]*TreeParser, 64)
		run := func(name string, fs []*fx) {
			r.Par(len(fs), func(w, i int) {
				if tps[w] == nil {
					tps[w] = newTreeParser(nil)
				}
				checkC28Expr(r, w, fs[i], labels, tps[w])
			})
			r.Bound("%s: %d expressions x 3 ways of building x %d values", name, len(fs), len(labels))
		}
		for i := range names {
			run(names[i], groups[i])
		}
		var ill []*fx
		illTyped(2, func(x *fx) {
			if x.t != tB || x.eval == nil && !x.cerr {
				x = &fx{text: x.text, t: x.t, cerr: true, name: x.name, args: x.args}
				if x.t != tB {
					return
				}
			}
			ill = append(ill, x)
		})
		run("applications to every combination of types", ill)
		longFuncSweep(r, map[bool]int{false: 9, true: 130}[r.Thorough], func(w int, f *fx, ls []*Label) {
			if tps[w] == nil {
				tps[w] = newTreeParser(nil)
			}
			checkC28Expr(r, w, f, ls, tps[w])
		})
	})
}
