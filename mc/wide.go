package main

import (
	"fmt"
	"strings"
	"sync/atomic"

	"github.com/katydid/katydid/relapse/ast"
)

// Wide grammars: every operator with each number of operands, over the forests of that number of siblings (in order, reversed,
// rotated, each one left out, doubled, exchanged or alone).

func wideSizes(max int) []int {
	var out []int
	for i := 2; i <= max; i++ {
		if i <= 17 || i >= 31 && i <= 34 || i >= 63 && i <= 66 || i >= 127 && i <= 130 || i%50 == 0 {
			out = append(out, i)
		}
	}
	return out
}

func wk(i int) *Label { return strLabel(fmt.Sprintf("k%d", i)) }

// wideForests: kinds 0: k0..kn-1 without children; 1: each with the number of its place inside; 2: the numbers themselves.
func wideForests(b *longBuilder, n int, kind int) []*LForest {
	none := b.forest("empty", nil, nil)
	in := make([]*LForest, n+1)
	for i := range in {
		in[i] = b.forest(fmt.Sprint(i), []*Label{numLabel(int64(i))}, []*LForest{none})
	}
	out := []*LForest{none}
	add := func(name string, idx []int, wrong int) {
		var ls []*Label
		var ks []*LForest
		for p, i := range idx {
			switch kind {
			case 0:
				ls, ks = append(ls, wk(i)), append(ks, none)
			case 1:
				k := in[i%(n+1)]
				if p == wrong {
					k = in[(i+1)%(n+1)]
				}
				ls, ks = append(ls, wk(i)), append(ks, k)
			case 2:
				ls, ks = append(ls, numLabel(int64(i))), append(ks, none)
			}
		}
		out = append(out, b.forest(fmt.Sprintf("kind %d of %d: %s", kind, n, name), ls, ks))
	}
	seq := make([]int, n)
	rev := make([]int, n)
	for i := range seq {
		seq[i], rev[n-1-i] = i, i
	}
	add("in order", seq, -1)
	add("reversed", rev, -1)
	add("twice", append(append([]int{}, seq...), seq...), -1)
	for i := 0; i < n; i++ {
		if n > 34 && i > 2 && i < n-3 && i != n/2 && i != 63 && i != 64 && i%10 != 0 {
			continue
		}
		add(fmt.Sprintf("from %d", i), append(append([]int{}, seq[i:]...), seq[:i]...), -1)
		add(fmt.Sprintf("without %d", i), append(append([]int{}, seq[:i]...), seq[i+1:]...), -1)
		add(fmt.Sprintf("only %d", i), []int{i}, -1)
		add(fmt.Sprintf("until %d", i), seq[:i], -1)
		add(fmt.Sprintf("%d doubled", i), append(append(append([]int{}, seq[:i]...), i), seq[i:]...), -1)
		add(fmt.Sprintf("%d again at the end", i), append(append([]int{}, seq...), i), -1)
		add(fmt.Sprintf("another in the place of %d", i), append(append(append([]int{}, seq[:i]...), n), seq[i+1:]...), -1)
		if i+1 < n {
			sw := append([]int{}, seq...)
			sw[i], sw[i+1] = sw[i+1], sw[i]
			add(fmt.Sprintf("%d and the next exchanged", i), sw, -1)
		}
		if kind == 1 {
			add(fmt.Sprintf("%d with another number", i), seq, i)
			add(fmt.Sprintf("reversed, %d with another number", i), rev, i)
			add(fmt.Sprintf("only %d with another number", i), []int{i}, 0)
		}
	}
	add("only another", []int{n}, -1)
	return out
}

// wideGrams are the grammars with n operands, and the kinds of forests for them.
func wideGrams(n int) (gs []*Gram, kinds []int) {
	node := func(i int, p *Pat) *Pat { return mkNode(pr(fmt.Sprintf("k%d", i), isStr(fmt.Sprintf("k%d", i))), p) }
	leaf := func(i int) *Pat {
		return mkLeaf(pr(fmt.Sprintf("== %d", i), func(l *Label) bool { return l.HasI && l.I == int64(i) }))
	}
	a := func(i int) *Pat { return node(i, pAny()) }
	v := func(i int) *Pat { return node(i, leaf(i)) }
	un := func(op Op, f func(i int) *Pat) func(i int) *Pat { return func(i int) *Pat { return mk(op, f(i), nil) } }
	each := func(f func(i int) *Pat) []*Pat {
		ps := make([]*Pat, n)
		for i := range ps {
			ps[i] = f(i)
		}
		return ps
	}
	brackets := map[Op][3]string{OpConcat: {"[", ",", "]"}, OpOr: {"(", "|", ")"}, OpAnd: {"(", "&", ")"}, OpInterleave: {"{", ";", "}"}}
	flat := func(op Op, ps []*Pat) *Pat {
		if len(ps) == 1 {
			return ps[0]
		}
		ts := make([]string, len(ps))
		for i := range ps {
			ts[i] = ps[i].Text()
		}
		br := brackets[op]
		return says(br[0]+strings.Join(ts, br[1])+br[2], refFold(op, ps))
	}
	left := func(op Op, ps []*Pat) *Pat {
		p := ps[0]
		for _, q := range ps[1:] {
			p = mk(op, p, q)
		}
		return p
	}
	half := func(op Op, ps []*Pat) *Pat { // a balanced tree of the operator
		var rec func(ps []*Pat) *Pat
		rec = func(ps []*Pat) *Pat {
			if len(ps) == 1 {
				return ps[0]
			}
			return mk(op, rec(ps[:len(ps)/2]), rec(ps[len(ps)/2:]))
		}
		return rec(ps)
	}
	rev := func(ps []*Pat) []*Pat {
		out := make([]*Pat, len(ps))
		for i := range ps {
			out[len(ps)-1-i] = ps[i]
		}
		return out
	}
	add := func(kind int, p *Pat) {
		gs, kinds = append(gs, &Gram{Main: p}), append(kinds, kind)
	}
	star := func(p *Pat) *Pat { return mk(OpStar, p, nil) }
	for kind, f := range []func(i int) *Pat{a, v, leaf} {
		for _, op := range []Op{OpConcat, OpOr, OpInterleave} {
			add(kind, flat(op, each(f)))
			add(kind, left(op, each(f)))
			add(kind, half(op, each(f)))
			add(kind, refFold(op, rev(each(f))))
			add(kind, flat(op, each(un(OpOptional, f))))
			if op != OpOr {
				if op == OpConcat {
					add(kind, flat(op, append(each(f), pAny())))
				}
				add(kind, flat(op, each(func(i int) *Pat {
					if i%3 == 1 {
						return mk(OpStar, f(i), nil)
					}
					return mk(OpOptional, f(i), nil)
				})))
			}
		}
		add(kind, star(flat(OpOr, each(f))))
		add(kind, star(flat(OpConcat, each(f))))
		add(kind, star(half(OpOr, rev(each(f)))))
		add(kind, flat(OpOr, each(func(i int) *Pat { return mk(OpConcat, f(i), f((i+1)%n)) })))
		add(kind, flat(OpOr, each(func(i int) *Pat { return mk(OpConcat, f((i+1)%n), star(f(i))) })))
		for _, op := range []Op{OpAnd, OpOr} {
			for _, build := range []func(op Op, ps []*Pat) *Pat{flat, left, half} {
				add(kind, build(op, each(un(OpContains, f))))
				add(kind, build(op, rev(each(un(OpNot, f)))))
				add(kind, build(op, each(un(OpNot, un(OpContains, f)))))
				add(kind, build(op, each(func(i int) *Pat {
					if i%2 == 0 {
						return mk(OpContains, f(i), nil)
					}
					return mk(OpNot, mk(OpContains, f(i), nil), nil)
				})))
			}
		}
		add(kind, mk(OpNot, flat(OpOr, each(f)), nil))
		add(kind, mk(OpContains, flat(OpOr, each(f)), nil))
		add(kind, mk(OpContains, flat(OpConcat, each(f)), nil))
		// declarations, each using the next
		for _, op := range []Op{OpConcat, OpOr} {
			g := &Gram{Main: mkRef("x0"), Decls: map[string]*Pat{}}
			h := &Gram{Main: mkRef("x0"), Decls: map[string]*Pat{}}
			for i := 0; i < n; i++ {
				p, q := f(i), f(i)
				if i+1 < n {
					p = mk(op, p, mkRef(fmt.Sprintf("x%d", i+1)))
					q = mk(op, mkRef(fmt.Sprintf("y%d", i)), mkRef(fmt.Sprintf("x%d", i+1)))
					h.Names = append(h.Names, fmt.Sprintf("y%d", i))
					h.Decls[fmt.Sprintf("y%d", i)] = f(i)
				}
				name := fmt.Sprintf("x%d", i)
				g.Names, g.Decls[name] = append([]string{name}, g.Names...), p
				h.Names, h.Decls[name] = append(h.Names, name), q
			}
			gs, kinds = append(gs, g, h), append(kinds, kind, kind)
		}
	}
	// the names of one node
	var ns []string
	in := map[string]bool{}
	for i := 0; i < n; i++ {
		ns = append(ns, fmt.Sprintf("k%d", i))
		in[ns[i]] = true
	}
	choice := "(" + strings.Join(ns, "|") + ")"
	isIn := func(l *Label) bool { return l.HasS && in[l.S] }
	one, other := pr(choice, isIn), pr("!("+choice+")", func(l *Label) bool { return !isIn(l) })
	add(0, mkNode(one, pAny()))
	add(0, star(mkNode(one, pAny())))
	add(0, star(mkNode(other, pAny())))
	add(0, mk(OpConcat, star(mkNode(one, pAny())), mkNode(other, pAny())))
	add(0, mk(OpContains, mkNode(other, pAny()), nil))
	add(1, star(mkNode(one, flat(OpOr, each(leaf)))))
	add(1, star(mkNode(one, mk(OpNot, flat(OpOr, each(leaf)[1:]), nil))))
	return gs, kinds
}

func exploreManyOperands(r *Run, engines []*Engine, max int) {
	exploreManyOperandsOf(r, engines, max, "", nil)
}

// exploreManyOperandsOf takes the grammars from another place than their text.
func exploreManyOperandsOf(r *Run, engines []*Engine, max int, how string, built func(g *Gram) (*ast.Grammar, error)) {
	var total atomic.Int64
	type job struct {
		g    *Gram
		n    int
		kind int
	}
	var jobs []job
	sizes := wideSizes(max)
	forests := map[[2]int][]*LForest{}
	base := map[[2]int]int{}
	for i := len(sizes) - 1; i >= 0; i-- {
		n := sizes[i]
		for kind := 0; kind < 3; kind++ {
			b := &longBuilder{}
			forests[[2]int{n, kind}] = wideForests(b, n, kind)
			base[[2]int{n, kind}] = b.n
		}
		gs, kinds := wideGrams(n)
		for k := range gs {
			if g := gs[k]; built != nil {
				g.Built = func() (*ast.Grammar, error) { return built(g) }
			}
			jobs = append(jobs, job{gs[k], n, kinds[k]})
		}
	}
	r.Par(len(jobs), func(w, i int) {
		k := [2]int{jobs[i].n, jobs[i].kind}
		// a validator keeps a state of size n for every set of operands that is left: the number of siblings it sees is bounded
		fs := forests[k]
		if step := len(fs)*jobs[i].n/3000 + 1; step > 1 {
			var some []*LForest
			for j := 0; j < len(fs); j++ {
				if j < 4 || j > len(fs)-3 || j%step == i%step {
					some = append(some, fs[j])
				}
			}
			fs = some
		}
		total.Add(int64(len(fs)))
		runLong(r, w, jobs[i].g, fs, base[k], engines, 2)
	})
	r.Bound("wide grammars"+how+": %d grammars with up to %d operands, %d runs forwards and backwards with the same validator x %d engines", len(jobs), max, 2*total.Load(), len(engines))
}
