package main

import "fmt"

// ---- predicates (names and leaf expressions) with their reference meaning

func isStr(s string) func(l *Label) bool {
	return func(l *Label) bool { return l.HasS && l.S == s }
}

func pr(text string, f func(l *Label) bool) *Pred { return &Pred{text, f} }

func pand(text string, a, b *Pred) *Pred {
	return pr(text, func(l *Label) bool { return a.F(l) && b.F(l) })
}

var (
	nA    = pr("a", isStr("a"))
	nB    = pr("b", isStr("b"))
	nC    = pr("c", isStr("c"))
	nAny  = pr("_", func(*Label) bool { return true })
	nNotA = pr("!(a)", func(l *Label) bool { return !nA.F(l) })
	nNotB = pr("!(b)", func(l *Label) bool { return !nB.F(l) })
	nAorB = pr("(a|b)", func(l *Label) bool { return nA.F(l) || nB.F(l) })
	nNAB  = pr("!((a|b))", func(l *Label) bool { return !nA.F(l) && !nB.F(l) })
	nAnB  = pr("(!(a)|b)", func(l *Label) bool { return !nA.F(l) || nB.F(l) })
	n1    = pr("1", func(l *Label) bool { return l.HasI && l.I == 1 })

	eq1    = pr("== 1", func(l *Label) bool { return l.HasI && l.I == 1 })
	eq2    = pr("== 2", func(l *Label) bool { return l.HasI && l.I == 2 })
	gt1    = pr("> 1", func(l *Label) bool { return l.HasI && l.I > 1 })
	ge1    = pr(">= 1", func(l *Label) bool { return l.HasI && l.I >= 1 })
	lt2    = pr("< 2", func(l *Label) bool { return l.HasI && l.I < 2 })
	ne1    = pr("!= 1", func(l *Label) bool { return l.HasI && l.I != 1 })
	eqsA   = pr("== \"a\"", isStr("a"))
	eqsB   = pr("== \"b\"", isStr("b"))
	nesA   = pr("!= \"a\"", func(l *Label) bool { return l.HasS && l.S != "a" })
	fNot1  = pr("->not(eq($int,1))", func(l *Label) bool { return !(l.HasI && l.I == 1) })
	f1or2  = pr("->or(eq($int,1),eq($int,2))", func(l *Label) bool { return l.HasI && (l.I == 1 || l.I == 2) })
	f1orA  = pr("->or(eq($int,1),eq($string,\"a\"))", func(l *Label) bool { return l.HasI && l.I == 1 || l.HasS && l.S == "a" })
	fGtLt  = pr("->and(gt($int,0),lt($int,2))", func(l *Label) bool { return l.HasI && l.I > 0 && l.I < 2 })
	fGtGt  = pr("->and(gt($int,0),not(eq($int,2)))", func(l *Label) bool { return l.HasI && l.I > 0 && l.I != 2 })
	fTrue  = pr("->eq(1,1)", func(*Label) bool { return true })
	fFalse = pr("->eq(1,2)", func(*Label) bool { return false })
	fU1    = pr("->eq($uint,uint(1))", func(l *Label) bool { return l.HasU && l.U == 1 })
	fIntSt = pr("->and(eq($int,1),eq($string,\"a\"))", func(l *Label) bool { return l.HasI && l.I == 1 && l.HasS && l.S == "a" })
	fRev   = pr("->lt(1,$int)", func(l *Label) bool { return l.HasI && 1 < l.I })
	fRevGe = pr("->ge(1,$int)", func(l *Label) bool { return l.HasI && 1 >= l.I })
)

func pEmpty() *Pat { return mk(OpEmpty, nil, nil) }
func pAny() *Pat   { return mk(OpAny, nil, nil) }
func pNone() *Pat  { return mk(OpNot, pAny(), nil) }

// pool marks patterns whose denotation is memoised by the matcher.
func pool(ps []*Pat) []*Pat {
	seen := map[string]bool{}
	var out []*Pat
	for _, p := range ps {
		if !seen[p.Text()] {
			seen[p.Text()] = true
			p.Pool = true
			out = append(out, p)
		}
	}
	return out
}

var binOps = []Op{OpConcat, OpOr, OpAnd, OpInterleave}
var unOps = []Op{OpStar, OpOptional, OpNot, OpContains}

// unary returns all unary operators over ps, and ps as children of the given names.
func unary(ps []*Pat, names []*Pred) []*Pat {
	var out []*Pat
	for _, p := range ps {
		for _, o := range unOps {
			out = append(out, mk(o, p, nil))
		}
		for _, n := range names {
			out = append(out, mkNode(n, p))
		}
	}
	return out
}

func binary(ps, qs []*Pat) []*Pat {
	var out []*Pat
	for _, p := range ps {
		for _, q := range qs {
			for _, o := range binOps {
				out = append(out, mk(o, p, q))
			}
		}
	}
	return out
}

func patSpace(name string, ps []*Pat) *Space {
	return &Space{name, len(ps), func(i int) *Gram { return &Gram{Main: ps[i]} }}
}

// pairSpace is all binary operators over ps x qs (both orders unless the pools are the same), without materialising them.
func pairSpace(name string, ps, qs []*Pat, ops []Op, both bool) *Space {
	n := len(ps) * len(qs) * len(ops)
	total := n
	if both {
		total *= 2
	}
	return &Space{fmt.Sprintf("%s (%dx%d operands)", name, len(ps), len(qs)), total, func(i int) *Gram {
		swap := i >= n
		i = i % n
		o := ops[i%len(ops)]
		i /= len(ops)
		p, q := ps[i/len(qs)], qs[i%len(qs)]
		if swap {
			p, q = q, p
		}
		return &Gram{Main: mk(o, p, q)}
	}}
}

// unarySpace is all unary operators and name prefixes over a space.
func unarySpace(name string, sp *Space, ops []Op, names []*Pred) *Space {
	k := len(ops) + len(names)
	return &Space{name, sp.N * k, func(i int) *Gram {
		g := sp.At(i / k)
		if g == nil {
			return nil
		}
		j := i % k
		var p *Pat
		if j < len(ops) {
			p = mk(ops[j], g.Main, nil)
		} else {
			p = mkNode(names[j-len(ops)], g.Main)
		}
		return &Gram{Main: p, Names: g.Names, Decls: g.Decls}
	}}
}
