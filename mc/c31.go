package main

import (
	"fmt"

	"github.com/katydid/katydid/relapse"
	"github.com/katydid/katydid/relapse/ast"
	"github.com/katydid/katydid/relapse/auto"
	"github.com/katydid/katydid/relapse/combinator"
	"github.com/katydid/katydid/relapse/intern"
	"github.com/katydid/katydid/relapse/interp"
	"github.com/katydid/katydid/relapse/mem"
)

// C31: which grammars are usable.

// leftRefs adds the references of p that are reached without passing through a node.
func leftRefs(p *Pat, out map[string]bool) {
	switch {
	case p == nil || p.Op == OpNode:
	case p.Op == OpRef:
		out[p.Ref] = true
	default:
		leftRefs(p.L, out)
		leftRefs(p.R, out)
	}
}

// leftRecursive: some name leads back to itself over left references.
func leftRecursive(bodies map[string]*Pat) bool {
	edges := map[string]map[string]bool{}
	for n, p := range bodies {
		edges[n] = map[string]bool{}
		leftRefs(p, edges[n])
	}
	for range bodies { // transitive closure
		for n := range edges {
			for m := range edges[n] {
				for k := range edges[m] {
					edges[n][k] = true
				}
			}
		}
	}
	for n := range edges {
		if edges[n][n] {
			return true
		}
	}
	return false
}

func recBodies(names []string, depth int) []*Pat {
	a := []*Pat{pEmpty(), mkLeaf(eq1)}
	for _, n := range names {
		a = append(a, mkRef(n), mkNode(nA, mkRef(n)))
	}
	un := func(ps []*Pat) []*Pat {
		var out []*Pat
		for _, p := range ps {
			for _, o := range unOps {
				out = append(out, mk(o, p, nil))
			}
			out = append(out, mkNode(nA, p))
		}
		return out
	}
	bin := func(ps, qs []*Pat) []*Pat {
		var out []*Pat
		for _, o := range binOps {
			for _, p := range ps {
				for _, q := range qs {
					out = append(out, mk(o, p, q))
				}
			}
		}
		return out
	}
	if depth == 0 {
		return a
	}
	d1 := append(append(append([]*Pat{}, a...), un(a)...), bin(a, a)...)
	if depth == 1 {
		return d1
	}
	return append(append(append([]*Pat{}, d1...), un(d1[len(a):])...), append(bin(a, d1[len(a):]), bin(d1[len(a):], a)...)...)
}

var c31Engines = []*Engine{engMem, engMemRecord, engInterp, engIntern, engInternRecord, engSimplify, engSimplifyRecord, engAuto, engAutoRecord}

// sharedAst builds the pattern; equal sub-patterns are the same pointer.
func sharedAst(p *Pat, memo map[string]*ast.Pattern) *ast.Pattern {
	if q, ok := memo[p.Text()]; ok {
		return q
	}
	var l, r *ast.Pattern
	if p.L != nil {
		l = sharedAst(p.L, memo)
	}
	if p.R != nil {
		r = sharedAst(p.R, memo)
	}
	var q *ast.Pattern
	switch p.Op {
	case OpEmpty:
		q = ast.NewEmpty()
	case OpAny:
		q = ast.NewZAny()
	case OpNode:
		q = ast.NewTreeNode(ast.NewStringName(p.Pred.Text), l)
	case OpLeaf:
		q = combinator.Value(combinator.Eq(combinator.IntVar(), combinator.IntConst(1)))
	case OpConcat:
		q = ast.NewConcat(l, r)
	case OpOr:
		q = ast.NewOr(l, r)
	case OpAnd:
		q = ast.NewAnd(l, r)
	case OpInterleave:
		q = ast.NewInterleave(l, r)
	case OpStar:
		q = ast.NewZeroOrMore(l)
	case OpOptional:
		q = ast.NewOptional(l)
	case OpNot:
		q = ast.NewNot(l)
	case OpContains:
		q = ast.NewContains(l)
	case OpRef:
		q = ast.NewReference(p.Ref)
	}
	memo[p.Text()] = q
	return q
}

// recursionSpace checks HasRecursion on every assignment of the bodies to the names, and runs the grammars without recursion.
func recursionSpace(r *Run, title string, names []string, bodies [][]*Pat, u *Universe, engines []*Engine, every int) {
	n := 1
	for _, b := range bodies {
		n *= len(b)
	}
	type wstate struct{ tp *TreeParser }
	ws := make([]*wstate, 64)
	r.Par(n, func(w, i int) {
		if ws[w] == nil {
			ws[w] = &wstate{newTreeParser(nil)}
		}
		g := &Gram{Decls: map[string]*Pat{}}
		k := i
		for j, name := range names {
			b := bodies[j][k%len(bodies[j])]
			k /= len(bodies[j])
			g.Decls[name] = b
			if name == "main" {
				g.Main = b
			} else {
				g.Names = append(g.Names, name)
			}
		}
		want := leftRecursive(g.Decls)
		text := g.Text()
		r.mark(w, func() string { return "recursion check of " + text })
		r.States.Add(1)
		for _, form := range []string{text, "#main = " + text, "built " + text} {
			err := guard(func() error {
				var pg *ast.Grammar
				var err error
				if form[0] == 'b' {
					memo := map[string]*ast.Pattern{}
					m := map[string]*ast.Pattern{}
					for _, name := range names {
						m[name] = sharedAst(g.Decls[name], memo)
					}
					pg = ast.NewGrammar(m)
				} else if pg, err = relapse.Parse(form); err != nil {
					return err
				}
				if got := interp.HasRecursion(pg); got != want {
					return fmt.Errorf("HasRecursion is %v, but a cycle without a node in between is %v", got, want)
				}
				return nil
			})
			if err != nil {
				r.Violation("recursion | "+form, fmt.Sprintf("grammar: %s\n%v", form, err), map[string]string{"grammar": form})
			}
			r.Traces.Add(1)
		}
		if want {
			r.Outcome("grammars with recursion", 1)
			return
		}
		r.Outcome("grammars without recursion", 1)
		if i%every == 0 {
			r.mark(w, func() string { return "preparing and running " + text })
			compareGram(r, g, u, newMatcher(u, g.Decls), ws[w].tp, engines)
		}
	})
	r.Bound("%s: %d grammars, every %d. without recursion run on %d trees by %d strategies", title, n, every, len(u.Forests), len(engines))
}

// preparers are the ways of preparing a grammar. Only the first report every unusable expression:
// the automaton does not look at what simplification removed.
var preparers = []struct {
	name string
	all  bool
	f    func(g *ast.Grammar) error
}{
	{"Prepare", true, func(g *ast.Grammar) error { _, err := relapse.Prepare(g); return err }},
	{"mem.NewRecord", true, func(g *ast.Grammar) error { _, err := mem.NewRecord(g); return err }},
	{"intern.AddGrammar", true, func(g *ast.Grammar) error { _, err := intern.NewConstructor().AddGrammar(g); return err }},
	{"auto.Compile", false, func(g *ast.Grammar) error { _, err := auto.Compile(g); return err }},
	{"auto.CompileRecord", false, func(g *ast.Grammar) error { _, err := auto.CompileRecord(g); return err }},
}

// badGrammar is a grammar that must be rejected; expr: because of an expression.
type badGrammar struct {
	what string
	make func() (*ast.Grammar, error)
	expr bool
}

func checkBad(r *Run, title string, bad []badGrammar) {
	r.Par(len(bad), func(w, i int) {
		b := bad[i]
		r.mark(w, func() string { return "preparing " + b.what })
		r.States.Add(1)
		for _, p := range preparers {
			r.Transitions.Add(1)
			err := guard(func() error {
				g, err := b.make()
				if err != nil {
					return fmt.Errorf("harness: %v", err)
				}
				err = p.f(g)
				if err == nil && (p.all || !b.expr) {
					return fmt.Errorf("no error is reported")
				}
				if err == nil {
					r.Outcome("accepted by the automaton after simplification", 1)
				} else {
					r.Outcome("rejected", 1)
				}
				r.Traces.Add(1)
				return nil
			})
			if err != nil {
				r.Violation(p.name+" | "+b.what, fmt.Sprintf("%s of %s\n%v", p.name, b.what, err), map[string]string{"grammar": b.what, "preparer": p.name})
			}
		}
		if n := r.sampleTick.Add(1); n&(n-1) == 0 {
			r.Sample("%s is rejected", b.what)
		}
	})
	r.Bound("%s: %d grammars x %d ways of preparing", title, len(bad), len(preparers))
}

func parsed(text string) func() (*ast.Grammar, error) {
	return func() (*ast.Grammar, error) { return relapse.Parse(text) }
}

// contexts of depth at most two around a hole, as patterns.
func holes(hole *Pat, depth int) []*Pat {
	others := []*Pat{pEmpty(), pAny(), pNone(), mkNode(nA, pAny()), mkLeaf(eq1)}
	cur := []*Pat{hole}
	out := append([]*Pat{}, cur...)
	for d := 0; d < depth; d++ {
		var next []*Pat
		for _, p := range cur {
			for _, o := range unOps {
				next = append(next, mk(o, p, nil))
			}
			next = append(next, mkNode(nA, p), mkNode(nNotA, p))
			for _, o := range binOps {
				for _, q := range others {
					next = append(next, mk(o, p, q), mk(o, q, p))
				}
				next = append(next, mk(o, p, p))
			}
		}
		out = append(out, next...)
		cur = next
	}
	return out
}

func checkC31(r *Run) {
	r.Assume("recursion: a cycle of references none of which is below a node pattern; names that are never reached count as well")
	r.Assume("the automaton compiles the simplified grammar, so that it may accept an expression that simplification removed; it must not crash")
	labels := []*Label{strLabel("a"), numLabel(1)}
	u2 := newUniverse(labels, 2, 2, 2, func(l int) bool { return l == 0 })
	u3 := newUniverse(labels, 3, 2, 3, func(l int) bool { return l == 0 })

	// unusable grammars
	var bad []badGrammar
	for _, p := range holes(mkRef("nosuch"), 2) {
		p := p
		bad = append(bad, badGrammar{p.Text(), parsed(p.Text()), false})
		bad = append(bad, badGrammar{"* #x = " + p.Text(), parsed("* #x = " + p.Text()), false})
		bad = append(bad, badGrammar{"@x #x = " + p.Text(), parsed("@x #x = " + p.Text()), false})
		bad = append(bad, badGrammar{"#x = " + p.Text() + " #main = @x", parsed("#x = " + p.Text() + " #main = @x"), false})
	}
	checkBad(r, "a reference to an undefined name in every place", bad)
	bad = nil
	for _, p := range holes(mkRef("main"), 1) {
		for _, q := range holes(pAny(), 1) {
			t, s := p.Text(), q.Text()
			for _, text := range []string{
				"#x = " + s, "#x = " + s + " #y = @x", "#x = a:@x #Main = " + s, // no main
				s + " #main = " + t, s + " #main = " + s, "#main = " + s + " #main = " + s, // main twice
				s + " #x = " + s + " #x = " + s, s + " #x = " + s + " #y = * #x = a:*", "#main = " + s + " #x = * #x = " + s, "@x #x = " + s + " #y = @x #y = " + s,
			} {
				bad = append(bad, badGrammar{text, parsed(text), false})
			}
			if p.Op != OpRef {
				break
			}
		}
	}
	for _, q := range holes(pAny(), 2) {
		s := q.Text()
		for _, text := range []string{"#x = " + s, s + " #main = " + s, "#x = * #main = * #x = " + s, "@x #x = a:@x #x = " + s} {
			bad = append(bad, badGrammar{text, parsed(text), false})
		}
	}
	build := func(what string, g func() *ast.Grammar) {
		bad = append(bad, badGrammar{what, func() (*ast.Grammar, error) { return g(), nil }, false})
	}
	build("an empty grammar", func() *ast.Grammar { return &ast.Grammar{} })
	build("builders without main", func() *ast.Grammar { return combinator.G{"x": combinator.Any()}.Grammar() })
	build("no builders", func() *ast.Grammar { return combinator.G{}.Grammar() })
	build("builders with an undefined name", func() *ast.Grammar { return combinator.G{"main": combinator.Eval("x")}.Grammar() })
	build("builders with an undefined name below", func() *ast.Grammar {
		return combinator.G{"main": combinator.Any(), "y": combinator.InPath("a", combinator.Eval("x"))}.Grammar()
	})
	build("a grammar with the same declaration twice", func() *ast.Grammar {
		d := ast.NewPatternDecl("main", ast.NewZAny())
		return &ast.Grammar{PatternDecls: []*ast.PatternDecl{d, d}}
	})
	checkBad(r, "no start pattern or duplicate definitions", bad)

	// ill-typed expressions in every place
	ill := []string{"->nosuch($int)", "->length($string)", "->$int", "->\"a\"", "->eq($int,\"a\")", "->eq($int)", "->and(eq($int,1),length($string))", "->or(true,1)", "->not(1)",
		"->regex($string,\"a\")", "->regex(\"(\",$string)", "->contains($int,[]int{$int})", "->eq(elem([]int{1,\"a\"},0),1)", "->[]int{1}", "~= 1", "~= \"(\"", "*= 1", "^= 1", "< true", "> \"a\"", "== []int{1}", "->eq(nosuch(),1)", "->and(true,nosuch())", "->or(false,eq($int,nosuch($string)))", "->eq($int,uint(1))", ":: 1.5x"}
	var illPreds []*Pred
	for _, t := range ill {
		if _, err := relapse.Parse(t); err == nil {
			illPreds = append(illPreds, pr(t, nil))
		}
	}
	bad = nil
	for _, ip := range illPreds {
		if ip.Text == ">\"a\"" {
			continue
		}
		depth := 1
		if r.Thorough {
			depth = 2
		}
		for _, p := range holes(mkLeaf(ip), depth) {
			t := p.Text()
			for _, text := range []string{t, "* #x = " + t, "#x = " + t + " #main = a:@x"} {
				bad = append(bad, badGrammar{text, parsed(text), true})
			}
		}
	}
	checkBad(r, "an expression that does not type-check in every place", bad)

	bad = nil
	illTyped(2, func(x *fx) {
		if x.t == tB && x.eval != nil && !x.cerr {
			return
		}
		for _, text := range []string{"->" + x.text, "* #x = a:->" + x.text} {
			bad = append(bad, badGrammar{text, parsed(text), true})
		}
	})
	checkBad(r, "every function name with every combination of argument types", bad)

	// recursion
	exploreLongRecursion(r, map[bool]int{false: 20, true: 80}[r.Thorough])
	names := []string{"main", "x"}
	d0, d1, d2 := recBodies(names, 0), recBodies(names, 1), recBodies(names, 2)
	every := 1
	recursionSpace(r, "two names, bodies of depth 1", names, [][]*Pat{d1, d1}, u3, c31Engines[:7], every)
	recursionSpace(r, "two names, bodies of depth 1, every strategy", names, [][]*Pat{d1, d1}, u2, c31Engines, every*8+1)
	recursionSpace(r, "two names, bodies of depth 2 and 0", names, [][]*Pat{d2, d0}, u2, c31Engines[:7], every)
	recursionSpace(r, "two names, bodies of depth 0 and 2", names, [][]*Pat{d0, d2}, u2, c31Engines[:7], every)
	three := []string{"main", "x", "y"}
	t0, t1 := recBodies(three, 0), recBodies(three, 1)
	recursionSpace(r, "three names, bodies of depth 1, 0 and 0", three, [][]*Pat{t1, t0, t0}, u2, c31Engines, every*8+1)
	recursionSpace(r, "three names, bodies of depth 0, 1 and 0", three, [][]*Pat{t0, t1, t0}, u2, c31Engines[:7], every*4+1)
	var refs []*Pat
	for _, n := range append(three, "z") {
		refs = append(refs, mkRef(n), mk(OpOptional, mkRef(n), nil), mk(OpConcat, mkNode(nA, mkRef(n)), pAny()))
	}
	refs = append(refs, pEmpty(), mk(OpOr, mkRef("y"), mkRef("z")), mk(OpInterleave, mkRef("x"), mkRef("y")))
	recursionSpace(r, "four names", append(three, "z"), [][]*Pat{refs, refs, refs, refs}, u2, c31Engines[:7], every*4+1)
	if r.Thorough {
		recursionSpace(r, "two names, bodies of depth 2 and 1", names, [][]*Pat{d2, d1}, u2, c31Engines[:7], 11)
		recursionSpace(r, "three names, bodies of depth 1", three, [][]*Pat{t1, t1, t0}, u2, c31Engines[:7], 23)
	}
}

func init() { register("C31", checkC31) }
