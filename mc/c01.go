package main

import (
	"fmt"
	"os"
	"time"
)

func init() {
	register("C01", func(r *Run) {
		r.Assume("oracle: denotational semantics over bitmaps of sibling sub-sequences (refmatch.go)")
		r.Assume("labels: field names a, b (c), numbers 1, 2 as a JSON parser presents them, and strings; trees are fed through an in-memory parser, the format parsers have their own checks")
		exploreLong(r, []*Engine{engMem}, 130, 130, 2)
		exploreHuge(r, []*Engine{engMem}, 1025, 257)
		if r.Thorough {
			exploreStates(r, []*Engine{engMem}, 14, 4000, false)
		} else {
			exploreStates(r, []*Engine{engMem}, 12, 4000, false)
		}
		exploreManyOperands(r, []*Engine{engMem}, 66)
		exploreLanguage(r, []*Engine{engMem}, 3)
	})
}

func atomsSmall() []*Pat {
	return pool([]*Pat{
		pEmpty(), pAny(), pNone(),
		mkNode(nA, pAny()), mkNode(nB, pAny()), mkNode(nA, pEmpty()), mkNode(nAny, pAny()), mkNode(nNotA, pAny()),
		mkLeaf(eq1), mkNode(nA, mkLeaf(eq1)), mkNode(nA, mkNode(nB, pAny())),
	})
}

// atomsPred are single nodes with every kind of predicate: their combinations exercise the decision trees over labels.
func atomsPred() []*Pat {
	var out []*Pat
	for _, p := range []*Pred{eq1, eq2, gt1, ge1, lt2, ne1, eqsA, eqsB, nesA, fNot1, f1or2, f1orA, fGtLt, fGtGt, fTrue, fFalse, fU1, fIntSt, fRev, fRevGe} {
		out = append(out, mkLeaf(p))
	}
	for _, n := range []*Pred{nA, nB, nC, nAny, nNotA, nNotB, nAorB, nNAB, nAnB, n1} {
		out = append(out, mkNode(n, pAny()))
	}
	out = append(out, mkNode(nA, mkLeaf(eq1)), mkNode(nNotA, mkLeaf(ne1)), mkNode(nAny, mkLeaf(gt1)))
	return pool(out)
}

// exploreLanguage compares the engines with the reference model; scale selects the sizes:
// 0 smallest (slow engines), 3 largest.
func exploreLanguage(r *Run, engines []*Engine, scale int) {
	labels := []*Label{strLabel("a"), strLabel("b"), numLabel(1)}
	inner := func(l int) bool { return l < 2 }
	u3 := newUniverse(labels, 3, 3, 3, inner)
	u3.openEmpty()
	u2 := newUniverse(labels, 2, 2, 2, inner)
	p0 := atomsSmall()
	names := []*Pred{nA, nNotA}
	p1 := pool(append(append(append([]*Pat{}, p0...), unary(p0, names)...), binary(p0, p0)...))

	compareSpace(r, patSpace("patterns of depth 1", p1), u3, engines)
	p01 := pairSpace("binary operators over depth 0 x depth 1", p0, p1, binOps, true)
	if scale == 0 {
		compareSpace(r, p01, u2, engines)
	} else {
		compareSpace(r, p01, u3, engines)
	}

	// predicates: all ordered pairs (and some triples) of single-node patterns
	plabels := []*Label{strLabel("a"), strLabel("b"), strLabel("c"), numLabel(1), numLabel(2), numLabel(0), intLabel(1), boolLabel(true),
		{HasS: true, S: "a", HasI: true, I: 1}}
	up := newUniverse(plabels, 2, 2, 1, inner)
	// one level of nesting: a{x}, b{x}
	pp := atomsPred()
	pairs := binary(pp, pp)
	compareSpace(r, patSpace("binary operators over single nodes with every predicate", pairs), up, engines)
	if scale >= 1 {
		orpairs := pool(selectOps(pairs, OpOr, OpAnd, OpConcat))
		few := pool([]*Pat{mkLeaf(eq1), mkLeaf(ne1), mkLeaf(eqsA), mkLeaf(fGtLt), mkNode(nA, pAny()), mkNode(nNotA, pAny()), mkNode(nAorB, pAny()), mkLeaf(fNot1)})
		up1 := newUniverse(plabels, 1, 1, 1, inner)
		compareSpace(r, pairSpace("triples of single nodes with every predicate", few, orpairs, []Op{OpOr, OpAnd, OpInterleave}, true), up1, engines)
	}

	// fields: pairs of (contained, negated) nodes under every kind of name, over small records
	compareSpace(r, fieldSpace("pairs of contained, negated and plain fields", scale), fieldUniverse(labels), engines)

	// three fields at a time
	compareSpace(r, tripleSpace("triples of contained, negated, optional and plain fields", scale), tripleUniverse(), engines)

	// operands that overlap: long prefixes of decided and undecided conditions
	exploreCrowds(r, engines, scale)

	// names and constants with equal hashes: patterns are looked up and ordered by hash
	exploreCollisions(r, engines, scale)

	// references
	compareSpace(r, refSpace("two mutually recursive references"), u3, engines)
	compareSpace(r, aliasSpace("shared sub-patterns with merged operands"), aliasUniverse(), engines)
	// wide operators: bit sets and zip indexes beyond a machine word
	exploreWide(r, engines, scale)

	// four node forests, deep and broad, for depth 1 patterns
	u4 := newUniverse(labels[:2], 4, 4, 4, inner)
	compareSpace(r, patSpace("patterns of depth 1, forests of 4 nodes", p1), u4, engines)

	if scale >= 2 {
		compareSpace(r, unarySpace("unary operators over depth 2", p01, unOps, names), u3, engines)
	}
	if scale >= 2 {
		compareSpace(r, pairSpace("binary operators over depth 1 x depth 1", p1, p1, binOps, false), u3, engines)
	}
	if r.Thorough && scale >= 1 {
		if scale == 1 {
			compareSpace(r, unarySpace("unary operators over depth 2", p01, unOps, names), u3, engines)
			compareSpace(r, pairSpace("binary operators over depth 1 x depth 1", p1, p1, binOps, false), u2, engines)
		}
		compareSpace(r, p01, u4, engines)
	}
	if r.Thorough && scale >= 2 {
		// depth 3: a smaller operand set, fully nested
		q0 := pool([]*Pat{pEmpty(), pAny(), mkNode(nA, pAny()), mkNode(nB, pAny()), mkLeaf(eq1)})
		q1 := pool(append(append(append([]*Pat{}, q0...), unary(q0, []*Pred{nA})...), binary(q0, q0)...))
		q2 := pool(append(append(append([]*Pat{}, q1...), unary(q1, []*Pred{nA})...), binary(q0, q1)...))
		compareSpace(r, pairSpace("binary operators over depth 2 x depth 2", q2, q2, binOps, false), u2, engines)
		compareSpace(r, pairSpace("binary operators over depth 1 x depth 2", q1, q2, binOps, true), u3, engines)
		compareSpace(r, pairSpace("binary operators over depth 1 x depth 1, 4 nodes", p1, p1, binOps, false), u4, engines)
	}
}

// fieldSpace: and, or and interleave of two fields, each contained, negated or plain, under every kind of name and child:
// the shapes the simplification rules for contains and node patterns look at.
func fieldSpace(name string, scale int) *Space {
	names := []*Pred{nA, nB, nAny, nNotA, nAorB, nNAB, nAnB, n1}
	kids := []*Pat{pAny(), pEmpty(), mkLeaf(eq1), mkNode(nB, pAny())}
	if scale == 0 {
		names = []*Pred{nA, nB, nAny, nNotA, nAorB}
		kids = []*Pat{pAny(), mkLeaf(eq1), mkNode(nB, pAny())}
	} else {
		kids = append(kids, pNone(), mk(OpNot, mkLeaf(eq1), nil), mkLeaf(ne1))
	}
	var cs, rest []*Pat
	for _, n := range names {
		for _, k := range kids {
			c := mk(OpContains, mkNode(n, k), nil)
			cs = append(cs, c)
			rest = append(rest, mk(OpNot, c, nil))
			if scale > 0 || n != nAorB {
				rest = append(rest, mkNode(n, k), mk(OpNot, mkNode(n, k), nil))
			}
		}
	}
	cs = pool(cs)
	all := pool(append(append([]*Pat{}, cs...), rest...))
	if scale == 0 {
		return pairSpace(name, cs, all, []Op{OpOr, OpAnd}, false)
	}
	return pairSpace(name, cs, all, []Op{OpOr, OpAnd, OpInterleave}, false)
}

// fieldUniverse: up to two fields with up to one child each, and up to three without.
func fieldUniverse(labels []*Label) *Universe {
	return newUniverse(labels, 4, 2, 2, func(l int) bool { return l < 2 })
}

// tripleSpace: all combinations of three fields over two names, so that the rules that look at neighbours in a sorted list of
// operands meet one that is not like the others.
func tripleSpace(name string, scale int) *Space {
	kids := []*Pat{mkLeaf(eq1), mkLeaf(ge1), pAny()}
	names := []*Pred{nA, nB}
	if scale == 0 {
		kids = kids[:2]
	}
	var fs []*Pat
	for _, n := range names {
		for _, k := range kids {
			f := mkNode(n, k)
			fs = append(fs, mk(OpContains, f, nil), f, mk(OpNot, mk(OpContains, f, nil), nil))
			if scale > 0 {
				fs = append(fs, mk(OpOptional, f, nil))
			}
		}
	}
	ops := []Op{OpInterleave, OpOr, OpAnd}
	var ts [][3]int
	for i := range fs {
		for j := i; j < len(fs); j++ {
			for k := j; k < len(fs); k++ {
				ts = append(ts, [3]int{i, j, k})
			}
		}
	}
	return &Space{name, 2 * len(ops) * len(ts), func(i int) *Gram {
		t := ts[i/(2*len(ops))]
		o := ops[i%len(ops)]
		p := refFold(o, []*Pat{fs[t[0]], fs[t[1]], fs[t[2]]})
		if i/len(ops)%2 == 1 {
			// beneath another operator
			p = mk([]Op{OpOr, OpInterleave, OpConcat}[i%len(ops)], mkNode(nB, pAny()), p)
		}
		return &Gram{Main: p}
	}}
}

// tripleUniverse: up to three fields named a or b, each empty or with one number.
func tripleUniverse() *Universe {
	u := &Universe{Labels: []*Label{strLabel("a"), strLabel("b"), numLabel(1), numLabel(2)}, index: map[string]int{}}
	e := u.add(nil)
	kids := []int{e.ID, u.add([]UNode{{2, e.ID}}).ID, u.add([]UNode{{3, e.ID}}).ID}
	var rec func(prefix []UNode)
	rec = func(prefix []UNode) {
		u.add(append([]UNode{}, prefix...))
		if len(prefix) == 3 {
			return
		}
		for l := 0; l < 2; l++ {
			for _, k := range kids {
				rec(append(prefix, UNode{l, k}))
			}
		}
	}
	rec(nil)
	return u
}

// exploreCollisions: the hashes are polynomials in 31, so "Aa" and "BB" collide and with them every two patterns that
// differ in nothing else.
func exploreCollisions(r *Run, engines []*Engine, scale int) {
	labels := []*Label{strLabel("Aa"), strLabel("BB"), strLabel("a")}
	name := func(s string) *Pred { return pr(s, isStr(s)) }
	eq := func(s string) *Pred { return pr("== \""+s+"\"", isStr(s)) }
	nX, nY := name("Aa"), name("BB")
	nNotX := pr("!(Aa)", func(l *Label) bool { return !nX.F(l) })
	nXorA := pr("(Aa|a)", func(l *Label) bool { return nX.F(l) || nA.F(l) })
	in := func(a, b string) *Pred {
		return pr("->contains($string,[]string{\""+a+"\",\""+b+"\"})", func(l *Label) bool { return l.HasS && (l.S == a || l.S == b) })
	}
	q0 := pool([]*Pat{mkNode(nX, pAny()), mkNode(nY, pAny()), mkNode(nX, pEmpty()), mkNode(nY, pEmpty()), mkNode(nNotX, pAny()), mkNode(nXorA, pAny()),
		mkLeaf(eq("Aa")), mkLeaf(eq("BB")), mkLeaf(in("Aa", "a")), mkLeaf(in("BB", "a")), mkNode(nX, mkLeaf(eq("Aa"))), mkNode(nX, mkLeaf(eq("BB"))), mkNode(nX, mkNode(nY, pAny())), mkNode(nX, mkNode(nX, pAny())), pAny(), pEmpty()})
	left := q0[:10]
	if !r.Thorough {
		q0 = pool([]*Pat{q0[0], q0[1], q0[4], q0[6], q0[7], q0[10], q0[11], q0[12], q0[13]})
		left = q0[:4]
	}
	q1 := pool(append(append(append([]*Pat{}, q0...), unary(q0, []*Pred{nX, nY})...), binary(q0, q0)...))
	u := newUniverse(labels, 3, 3, 2, func(l int) bool { return l < 2 })
	u.openEmpty()
	compareSpace(r, pairSpace("names and constants with equal hashes: binary operators over depth 0 x depth 1", left, q1, binOps, true), u, engines)
	x, y := mkRef("Aa"), mkRef("BB")
	var bodies []*Pat
	for _, ref := range []*Pat{x, y} {
		bodies = append(bodies, mk(OpStar, mkNode(nX, ref), nil), mk(OpOr, mkNode(nY, ref), mkLeaf(eq("Aa"))), mk(OpNot, mkNode(nA, ref), nil))
	}
	bodies = append(bodies, pEmpty(), mkLeaf(eq("BB")), mkNode(nX, mkLeaf(eq("Aa"))))
	var mains []*Pat
	for _, o := range binOps {
		mains = append(mains, mk(o, x, y), mk(o, mk(OpNot, x, nil), mkNode(nX, y)))
	}
	n := len(bodies)
	compareSpace(r, &Space{"references with equal hashes", len(mains) * n * n, func(i int) *Gram {
		return &Gram{Main: mains[i%len(mains)], Names: []string{"Aa", "BB"}, Decls: map[string]*Pat{"Aa": bodies[i/len(mains)%n], "BB": bodies[i/len(mains)/n]}}
	}}, u, engines)
}

func selectOps(ps []*Pat, ops ...Op) []*Pat {
	var out []*Pat
	for _, p := range ps {
		for _, o := range ops {
			if p.Op == o {
				out = append(out, p)
			}
		}
	}
	return out
}

// refSpace: main and two named patterns that refer to each other through every operator,
// guarded by a node so that there is no left recursion.
func refSpace(name string) *Space {
	x, y := mkRef("x"), mkRef("y")
	mains := []*Pat{x, mk(OpNot, x, nil), mk(OpContains, x, nil), mk(OpConcat, x, y), mk(OpInterleave, x, y), mk(OpAnd, x, y), mk(OpOr, x, y), mk(OpStar, x, nil), mk(OpOptional, x, nil), mk(OpConcat, x, x), mk(OpInterleave, x, x), mkNode(nA, x)}
	var bodies []*Pat
	for _, ref := range []*Pat{x, y} {
		node := mkNode(nA, ref)
		nodeN := mkNode(nNotA, ref)
		bodies = append(bodies,
			mk(OpOr, node, pEmpty()), mk(OpOr, node, mkLeaf(eq1)), mk(OpStar, node, nil), mk(OpOptional, nodeN, nil),
			mk(OpConcat, node, pAny()), mk(OpConcat, mkNode(nB, pAny()), mk(OpStar, node, nil)), mk(OpNot, node, nil), mk(OpContains, node, nil),
			mk(OpInterleave, node, mk(OpStar, mkNode(nB, pAny()), nil)), mk(OpAnd, mk(OpNot, node, nil), mkNode(nAny, ref)),
			mk(OpOr, mk(OpConcat, node, nodeN), pEmpty()))
	}
	bodies = append(bodies, pEmpty(), pAny(), mkNode(nB, pEmpty()))
	n := len(bodies)
	return &Space{name, len(mains) * n * n, func(i int) *Gram {
		return &Gram{Main: mains[i%len(mains)], Names: []string{"x", "y"}, Decls: map[string]*Pat{"x": bodies[i/len(mains)%n], "y": bodies[i/len(mains)/n]}}
	}}
}

// exploreWide: operators with n operands over n distinct names, n around the sizes of machine words.
func exploreWide(r *Run, engines []*Engine, scale int) {
	sizes := []int{1, 2, 3, 7, 8, 9, 31, 32, 33, 63, 64, 65, 70}
	if r.Thorough {
		sizes = append(sizes, 127, 128, 129, 130, 200)
	}
	if scale == 0 {
		sizes = []int{1, 2, 3, 4, 5}
	}
	type job struct {
		g *Gram
		u *Universe
	}
	var jobs []job
	for _, n := range sizes {
		var names []*Pred
		var labels []*Label
		for i := 0; i < n; i++ {
			s := fmt.Sprintf("f%d", i)
			names = append(names, pr(s, isStr(s)))
			if i < 3 || i > n-4 || i == n/2 || i%31 < 2 || i%8 == 7 && i < 20 {
				labels = append(labels, strLabel(s))
			}
		}
		labels = append(labels, strLabel("zz"), numLabel(1))
		k := len(labels)
		inner := func(l int) bool { return l < k-2 }
		if k > 60 {
			panic("too many labels")
		}
		u := newUniverse(labels, 2, 2, 2, inner)
		build := func(op Op, each func(i int) *Pat) *Pat {
			p := each(0)
			for i := 1; i < n; i++ {
				p = mk(op, p, each(i))
			}
			return p
		}
		kids := []func(i int) *Pat{
			func(i int) *Pat { return mkNode(names[i], pAny()) },
			func(i int) *Pat { return mkNode(names[i], pEmpty()) },
			func(i int) *Pat { return mk(OpOptional, mkNode(names[i], pAny()), nil) },
			func(i int) *Pat { return mkNode(names[i], mkLeaf(eq1)) },
			func(i int) *Pat { return mk(OpContains, mkNode(names[i], mkNode(names[(i+1)%n], pAny())), nil) },
			func(i int) *Pat { return mk(OpNot, mk(OpContains, mkNode(names[i], pEmpty()), nil), nil) },
			func(i int) *Pat { return mkNode(nAny, mkNode(names[i], pAny())) },
			func(i int) *Pat { return mk(OpNot, mkNode(nAny, mkNode(names[i], pAny())), nil) },
		}
		for _, op := range binOps {
			for ki, kid := range kids {
				if scale <= 0 && n > 3 {
					continue
				}
				if op == OpInterleave && n > 8 && ki != 0 && ki != 2 {
					continue
				}
				if op == OpConcat && n > 33 && ki == 5 {
					continue // the derivatives of a long concatenation of nullable negations grow quadratically
				}
				jobs = append(jobs, job{&Gram{Main: build(op, kid)}, u})
			}
		}
	}
	r.Par(len(jobs), func(w, i int) {
		m := newMatcher(jobs[i].u, nil)
		r.mark(w, func() string { return "wide grammar " + jobs[i].g.Text() })
		markPool(jobs[i].g.Main)
		t0 := time.Now()
		compareGram(r, jobs[i].g, jobs[i].u, m, newTreeParser(nil), engines)
		if d := time.Since(t0); d > 500*time.Millisecond && os.Getenv("VMC_VERBOSE") != "" {
			fmt.Fprintf(os.Stderr, "slow %v %d %.60s\n", d, len(jobs[i].u.Forests), jobs[i].g.Text())
		}
	})
	r.Bound("wide operators with up to %d operands: %d grammars x %d engines", sizes[len(sizes)-1], len(jobs), len(engines))
}

func markPool(p *Pat) {
	if p == nil || p.Pool {
		return
	}
	p.Pool = true
	markPool(p.L)
	markPool(p.R)
}
