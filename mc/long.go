package main

import (
	"fmt"
	"os"
	"strings"
	"sync/atomic"
	"time"

	"github.com/katydid/katydid/relapse"
	"github.com/katydid/katydid/relapse/ast"
	"github.com/katydid/katydid/relapse/mem"
)

// Long forests: exhaustive along one dimension (siblings or nesting) instead of over all small forests.
// The reference is another one than refmatch.go's: ends(p, i) is the set of positions where p can stop that starts at i,
// computed by dynamic programming over the intervals of one forest; interleave is only decided where the labels
// of its operands tell which operand a sibling belongs to.

type LForest struct {
	Labels []*Label
	Kids   []*LForest
	Trees  []*Tree
	Name   string
	id     int
	unique bool
}

type longBuilder struct{ n int }

func (b *longBuilder) forest(name string, labels []*Label, kids []*LForest) *LForest {
	f := &LForest{Labels: labels, Kids: kids, Name: name, id: b.n, unique: true}
	b.n++
	seen := map[string]bool{}
	for i, l := range labels {
		t := &Tree{L: l}
		t.Kids = kids[i].Trees
		t.Leaf = len(kids[i].Labels) == 0
		if s := l.Show(); seen[s] || !kids[i].unique {
			f.unique = false
		} else {
			seen[s] = true
		}
		f.Trees = append(f.Trees, t)
	}
	return f
}

type bitset []uint64

func newBitset(n int) bitset    { return make(bitset, n/64+1) }
func (b bitset) has(i int) bool { return b[i/64]>>uint(i%64)&1 == 1 }
func (b bitset) set(i int)      { b[i/64] |= 1 << uint(i%64) }
func (b bitset) or(o bitset) {
	for i := range b {
		b[i] |= o[i]
	}
}

type lkey struct {
	p *Pat
	f int
	i int
}

type LMatcher struct {
	decls map[string]*Pat
	memo  map[lkey]bitset
	b     *longBuilder
	split map[lkey]*LForest
}

func (m *LMatcher) full(p *Pat, f *LForest) bool {
	switch p.Op {
	case OpInterleave:
		if p.R.Op == OpAny && m.full(p.L, m.sub(p, f, 2, nil)) {
			return true // the left takes nothing, and the right all
		}
		var l, r []int
		for i, x := range f.Labels {
			if m.mentions(p.L, x, nil) {
				l = append(l, i)
				if m.mentions(p.R, x, nil) {
					panic("an interleave of which the operands can not be told apart: " + p.Text())
				}
			} else {
				r = append(r, i)
			}
		}
		return m.full(p.L, m.sub(p, f, 0, l)) && m.full(p.R, m.sub(p, f, 1, r))
	case OpAnd:
		return m.full(p.L, f) && m.full(p.R, f)
	case OpOr:
		return m.full(p.L, f) || m.full(p.R, f)
	case OpNot:
		return !m.full(p.L, f)
	case OpRef:
		return m.full(m.decls[p.Ref], f)
	case OpAny:
		return true
	case OpEmpty:
		return len(f.Labels) == 0
	case OpOptional:
		return len(f.Labels) == 0 || m.full(p.L, f)
	}
	return m.ends(p, f, 0).has(len(f.Labels))
}

// mentions tells whether p may take a sibling with the label, on the level of p itself.
func (m *LMatcher) mentions(p *Pat, l *Label, through map[string]bool) bool {
	if p == nil {
		return false
	}
	switch p.Op {
	case OpNode, OpLeaf:
		return p.Pred.F(l)
	case OpAny, OpNot, OpContains:
		return true
	case OpRef:
		if through[p.Ref] {
			return false
		}
		if through == nil {
			through = map[string]bool{}
		}
		through[p.Ref] = true
		return m.mentions(m.decls[p.Ref], l, through)
	}
	return m.mentions(p.L, l, through) || m.mentions(p.R, l, through)
}

func (m *LMatcher) sub(p *Pat, f *LForest, side int, idx []int) *LForest {
	k := lkey{p, f.id, side}
	if s, ok := m.split[k]; ok {
		return s
	}
	s := &LForest{id: m.b.n}
	m.b.n++
	for _, i := range idx {
		s.Labels = append(s.Labels, f.Labels[i])
		s.Kids = append(s.Kids, f.Kids[i])
	}
	m.split[k] = s
	return s
}

func (m *LMatcher) ends(p *Pat, f *LForest, i int) bitset {
	k := lkey{p, f.id, i}
	if b, ok := m.memo[k]; ok {
		return b
	}
	n := len(f.Labels)
	res := newBitset(n)
	switch p.Op {
	case OpEmpty:
		res.set(i)
	case OpAny:
		for j := i; j <= n; j++ {
			res.set(j)
		}
	case OpNode:
		if i < n && p.Pred.F(f.Labels[i]) && m.full(p.L, f.Kids[i]) {
			res.set(i + 1)
		}
	case OpLeaf:
		if i < n && p.Pred.F(f.Labels[i]) && len(f.Kids[i].Labels) == 0 {
			res.set(i + 1)
		}
	case OpConcat:
		l := m.ends(p.L, f, i)
		for j := i; j <= n; j++ {
			if l.has(j) {
				res.or(m.ends(p.R, f, j))
			}
		}
	case OpOr:
		res.or(m.ends(p.L, f, i))
		res.or(m.ends(p.R, f, i))
	case OpAnd:
		l, r := m.ends(p.L, f, i), m.ends(p.R, f, i)
		for w := range res {
			res[w] = l[w] & r[w]
		}
	case OpNot:
		l := m.ends(p.L, f, i)
		for j := i; j <= n; j++ {
			if !l.has(j) {
				res.set(j)
			}
		}
	case OpOptional:
		res.or(m.ends(p.L, f, i))
		res.set(i)
	case OpStar:
		res.set(i)
		for j := i; j <= n; j++ {
			if res.has(j) {
				res.or(m.ends(p.L, f, j))
			}
		}
	case OpContains:
		// some siblings, then p, then some siblings
		for j := i; j <= n; j++ {
			e := m.ends(p.L, f, j)
			for x := j; x <= n; x++ {
				if e.has(x) {
					for y := x; y <= n; y++ {
						res.set(y)
					}
					break
				}
			}
		}
	case OpRef:
		res = m.ends(m.decls[p.Ref], f, i)
	default:
		panic("an interleave of which the operands can not be told apart: " + p.Text())
	}
	m.memo[k] = res
	return res
}

func longSizes(max int) []int {
	var out []int
	for i := 0; i <= max; i++ {
		if i <= 24 || i >= 31 && i <= 34 || i >= 62 && i <= 66 || i == 100 || i >= 126 && i <= 130 || i == 200 || i >= 254 && i <= 258 || i == 300 || i >= 511 && i <= 513 || i == 1000 || i >= 1023 && i <= 1025 {
			out = append(out, i)
		}
	}
	return out
}

// longForests: for every size a flat forest, a nested one and a nested one with a sibling before or after every level.
func longForests(b *longBuilder, flat, deep int) []*LForest {
	return forestsOf(b, longSizes(flat), longSizes(deep))
}

// hugeForests: sizes around powers of two beyond those of longForests.
func hugeForests(b *longBuilder, flat, deep int) []*LForest {
	upto := func(max int) (out []int) {
		for _, n := range []int{256, 257, 511, 512, 513, 1023, 1024, 1025, 2047, 2048, 2049, 4095, 4096, 4097} {
			if n <= max {
				out = append(out, n)
			}
		}
		return out
	}
	return forestsOf(b, upto(flat), upto(deep))
}

func forestsOf(b *longBuilder, flat, deep []int) []*LForest {
	a, bb, one := strLabel("a"), strLabel("b"), numLabel(1)
	none := b.forest("empty", nil, nil)
	n1 := b.forest("1", []*Label{one}, []*LForest{none})
	var out []*LForest
	rep := func(name string, n int, at func(i int) (*Label, *LForest)) {
		var ls []*Label
		var ks []*LForest
		for i := 0; i < n; i++ {
			l, k := at(i)
			ls = append(ls, l)
			ks = append(ks, k)
		}
		out = append(out, b.forest(fmt.Sprintf("%s of %d", name, n), ls, ks))
	}
	for _, n := range flat {
		rep("a...", n, func(i int) (*Label, *LForest) { return a, none })
		if n < 2 {
			continue
		}
		rep("a{1}...", n, func(i int) (*Label, *LForest) { return a, n1 })
		rep("ab...", n, func(i int) (*Label, *LForest) {
			if i%2 == 1 {
				return bb, none
			}
			return a, none
		})
		rep("a...b", n, func(i int) (*Label, *LForest) {
			if i == n-1 {
				return bb, none
			}
			return a, none
		})
		rep("ba...", n, func(i int) (*Label, *LForest) {
			if i == 0 {
				return bb, none
			}
			return a, none
		})
		rep("a...1 with a b{1} in the middle", n, func(i int) (*Label, *LForest) {
			switch {
			case i == n-1:
				return one, none
			case i == n/2:
				return bb, n1
			}
			return a, none
		})
		rep("distinct names", n, func(i int) (*Label, *LForest) {
			switch i {
			case 0:
				return a, n1
			case n - 1:
				return bb, none
			}
			return strLabel(fmt.Sprintf("f%d", i)), none
		})
	}
	for variant := 0; variant < 6; variant++ {
		want := map[int]bool{}
		deepest := 0
		for _, n := range deep {
			want[n] = true
			deepest = n
		}
		cur := none
		switch variant {
		case 1:
			cur = n1
		case 2:
			cur = b.forest("b", []*Label{bb}, []*LForest{none})
		}
		for n := 1; n <= deepest; n++ {
			name := fmt.Sprintf("nesting, variant %d, depth %d", variant, n)
			switch variant {
			case 0, 1, 2:
				cur = b.forest(name, []*Label{a}, []*LForest{cur})
			case 3:
				cur = b.forest(name, []*Label{a, bb}, []*LForest{cur, none})
			case 4:
				cur = b.forest(name, []*Label{bb, a}, []*LForest{n1, cur})
			case 5:
				l := a
				if n%2 == 0 {
					l = bb
				}
				cur = b.forest(name, []*Label{l}, []*LForest{cur})
			}
			if want[n] {
				out = append(out, cur)
			}
		}
	}
	return out
}

// longGrammars: patterns of which the verdict depends on the far end, the middle, the count or the depth.
func longGrammars() []*Gram {
	a, b, any1 := mkNode(nA, pAny()), mkNode(nB, pAny()), mkNode(nAny, pAny())
	a1, leaf1 := mkNode(nA, mkLeaf(eq1)), mkLeaf(eq1)
	star := func(p *Pat) *Pat { return mk(OpStar, p, nil) }
	not := func(p *Pat) *Pat { return mk(OpNot, p, nil) }
	has := func(p *Pat) *Pat { return mk(OpContains, p, nil) }
	opt := func(p *Pat) *Pat { return mk(OpOptional, p, nil) }
	cat := func(ps ...*Pat) *Pat {
		p := ps[len(ps)-1]
		for i := len(ps) - 2; i >= 0; i-- {
			p = mk(OpConcat, ps[i], p)
		}
		return p
	}
	or := func(p, q *Pat) *Pat { return mk(OpOr, p, q) }
	and := func(p, q *Pat) *Pat { return mk(OpAnd, p, q) }
	inter := func(p, q *Pat) *Pat { return mk(OpInterleave, p, q) }
	flat := []*Pat{
		star(a), star(a1), star(any1), star(cat(a, a)), star(cat(a, a, a)), star(cat(a, b)), cat(star(cat(a, b)), a), cat(star(a), b), cat(b, star(a)),
		cat(star(a), star(b)), star(or(cat(a, b), a)), star(or(a, leaf1)), has(b), has(cat(a, b)), has(cat(b, a)), has(leaf1), cat(has(b), leaf1), cat(pAny(), b),
		cat(pAny(), any1, leaf1), cat(pAny(), b, any1, any1), cat(any1, any1, any1, pAny()), cat(star(a), opt(b), star(a), opt(leaf1)), not(star(cat(a, a))), not(has(b)), not(has(leaf1)),
		not(cat(pAny(), b)), and(star(cat(any1, any1)), star(cat(any1, any1, any1))), and(has(a), has(b)), and(has(a1), not(has(b))), or(has(cat(b, b)), star(cat(a, a, a))),
		star(mkNode(nNotA, pAny())), star(mkNode(nNotB, pAny())), star(mkNode(nA, pEmpty())), has(mkNode(nB, leaf1)), has(mkNode(nB, pEmpty())), star(or(mkNode(nA, pEmpty()), mkNode(nNotA, pAny()))),
		inter(star(a), star(b)), inter(star(a), opt(b)), says("{a:*;*}", has(a)), inter(b, star(a)), inter(star(cat(a, a)), star(cat(b, b))), inter(star(a), pAny()), says("{[a:*,a:*];*}", cat(pAny(), a, pAny(), a, pAny())), says("{a:== 1;*}", has(a1)), says("{b:*;!(.== 1)}", and(has(b), not(has(leaf1)))),
		not(inter(star(cat(a, a)), star(b))), and(inter(star(a), star(b)), has(b)), star(star(a)), star(opt(cat(a, b))), cat(not(cat(pAny(), a)), star(a)), star(cat(opt(a), b)),
		cat(star(or(a, b)), a, or(a, b), or(a, b)), cat(star(or(a, b)), b, any1, any1, any1),
	}
	var out []*Gram
	for _, p := range flat {
		out = append(out, &Gram{Main: p})
		for _, q := range []*Pat{has(b), star(cat(any1, any1)), not(has(leaf1))} {
			if !hasInterleave([]*Pat{p}) {
				out = append(out, &Gram{Main: cat(p, opt(b))})
			}
			out = append(out, &Gram{Main: and(p, q)}, &Gram{Main: or(not(p), q)})
			break
		}
	}
	x, y, z := mkRef("x"), mkRef("y"), mkRef("z")
	ref := func(main *Pat, ds ...*Pat) {
		g := &Gram{Main: main, Decls: map[string]*Pat{}}
		for i, n := range []string{"x", "y", "z"} {
			if i < len(ds) {
				g.Names = append(g.Names, n)
				g.Decls[n] = ds[i]
			}
		}
		out = append(out, g)
	}
	nodeA := func(p *Pat) *Pat { return mkNode(nA, p) }
	nodeB := func(p *Pat) *Pat { return mkNode(nB, p) }
	node := func(p *Pat) *Pat { return mkNode(nAny, p) }
	bodies := [][]*Pat{
		{or(nodeA(x), pEmpty())},                                       // only a, no siblings
		{or(nodeA(x), leaf1)},                                          // ends in 1
		{or(nodeA(x), b)},                                              // ends in b
		{star(nodeA(x))},                                               // only a anywhere
		{star(node(x))},                                                // everything
		{cat(nodeA(x), star(b))},                                       // nothing
		{or(cat(nodeA(x), opt(b)), pEmpty())},                          // b after
		{or(cat(opt(b), nodeA(x)), pEmpty())},                          // b before
		{has(or(nodeA(x), leaf1))},                                     // somewhere a path of a to 1
		{not(nodeA(x))},                                                // parity of the depth
		{or(pEmpty(), nodeA(y)), nodeA(x)},                             // parity
		{or(pEmpty(), nodeA(y)), or(leaf1, nodeA(z)), nodeA(x)},        // modulo 3
		{or(pEmpty(), nodeA(y)), or(pEmpty(), nodeB(x))},               // alternating
		{or(b, or(leaf1, nodeA(y))), not(nodeA(x))},                    //
		{or(nodeA(x), and(not(has(a)), pAny()))},                       // a chain, then no a
		{or(has(b), nodeA(x))},                                         //
		{and(not(has(leaf1)), star(node(x)))},                          // no 1 anywhere
		{not(has(or(leaf1, node(not(x)))))},                            // the same
		{inter(opt(nodeA(x)), star(b))},                                // unordered
		{or(inter(nodeA(x), star(b)), leaf1)},                          //
		{or(nodeA(x), star(nodeB(y))), star(nodeA(y))},                 //
		{and(or(nodeA(x), pEmpty()), or(node(y), pEmpty())), y2(any1)}, // a conjunction at every level
	}
	for _, ds := range bodies {
		for _, main := range []*Pat{x, not(x), nodeA(x), nodeA(nodeA(nodeA(x)))} {
			ref(main, ds...)
		}
		ref(has(x), ds...)
		ref(and(x, star(any1)), ds...)
		if !hasInterleave(ds) {
			ref(cat(x, opt(b)), ds...)
			ref(has(cat(a, x)), ds...)
		} else {
			out = out[:len(out)-2]
			ref(and(x, star(any1)), ds...)
		}
	}
	return out
}

// says writes a pattern as the text, which means the same.
func says(text string, p *Pat) *Pat {
	q := *p
	q.text = text
	return &q
}

func y2(p *Pat) *Pat { return mk(OpOptional, mk(OpConcat, p, mk(OpStar, p, nil)), nil) }

func hasInterleave(ps []*Pat) bool {
	var rec func(p *Pat) bool
	rec = func(p *Pat) bool { return p != nil && (p.Op == OpInterleave || rec(p.L) || rec(p.R)) }
	for _, p := range ps {
		if rec(p) {
			return true
		}
	}
	return false
}

// runLong runs the engines with one grammar over the forests, of which the ids are below base.
func (g *Gram) parsed(text string) (*ast.Grammar, error) {
	if g.Built != nil {
		return g.Built()
	}
	pg, err := relapse.Parse(text)
	if err != nil {
		return nil, fmt.Errorf("grammar does not parse: %v", err)
	}
	return pg, nil
}

func runLong(r *Run, w int, g *Gram, fs []*LForest, base int, engines []*Engine, passes int) {
	text := g.Text()
	r.mark(w, func() string { return "long trees, grammar " + text })
	m := &LMatcher{decls: g.Decls, memo: map[lkey]bitset{}, b: &longBuilder{base}, split: map[lkey]*LForest{}}
	want := make([]bool, len(fs))
	acc := 0
	for i, f := range fs {
		if len(m.memo) > 200000 { // the subtrees of one forest share results with those of others, but memory is bounded
			m.memo, m.split = map[lkey]bitset{}, map[lkey]*LForest{}
		}
		want[i] = m.full(g.Main, f)
		if want[i] {
			acc++
		}
	}
	r.States.Add(int64(len(fs)))
	r.outcomesAdd(int64(acc), int64(len(fs)-acc))
	tp := newTreeParser(nil)
	for _, e := range engines {
		t0 := time.Now()
		var bad *LForest
		err := guard(func() error {
			pg, err := g.parsed(text)
			if err != nil {
				return err
			}
			v, err := e.Prepare(pg)
			if err != nil {
				return fmt.Errorf("preparing fails: %v", err)
			}
			if v == nil {
				r.gaveUp.Add(1)
				return nil
			}
			for k := 0; k < passes*len(fs); k++ {
				i := k % len(fs)
				if k/len(fs)%2 == 1 {
					i = len(fs) - 1 - i
				}
				f := fs[i]
				if e.Record && !f.unique {
					continue
				}
				tp.Init(f.Trees)
				tp.Limit += 20000000
				got, err := v(tp)
				if err != nil {
					bad = f
					return fmt.Errorf("unexpected error: %v", err)
				}
				if tp.Misuse != "" {
					bad = f
					return fmt.Errorf("parser misuse: %s", tp.Misuse)
				}
				if got != want[i] {
					bad = f
					return fmt.Errorf("verdict %v in pass %d, but the language definition says %v", got, k/len(fs)+1, want[i])
				}
				r.Traces.Add(1)
			}
			return nil
		})
		if d := time.Since(t0); d > time.Second && os.Getenv("VMC_VERBOSE") != "" {
			fmt.Fprintf(os.Stderr, "slow %v %s %.200s\n", d, e.Name, text)
		}
		if err != nil {
			tree := "-"
			if bad != nil {
				tree = bad.Name
			}
			r.Violation(e.Name+" | "+text+" | "+tree, fmt.Sprintf("engine: %s\ngrammar: %s\ntree: %s\n%v", e.Name, text, tree, err),
				map[string]string{"engine": e.Name, "grammar": text, "tree": tree})
		}
	}
	r.Transitions.Add(tp.Steps)
}

// exploreLong runs the engines over all long forests, forwards, backwards and forwards again (passes) with one prepared validator.
func exploreLong(r *Run, engines []*Engine, flat, deep, passes int) {
	b := &longBuilder{}
	fs := longForests(b, flat, deep)
	base := b.n
	gs := longGrammars()
	r.Par(len(gs), func(w, gi int) { runLong(r, w, gs[gi], fs, base, engines, passes) })
	r.Bound("long trees: %d grammars x %d forests of up to %d siblings or %d levels, %d times (forwards, backwards, ...) with the same validator x %d engines", len(gs), len(fs), flat, deep, passes, len(engines))
}

// exploreHuge runs the engines over forests of sizes around powers of two, forwards and backwards.
func exploreHuge(r *Run, engines []*Engine, flat, deep int) {
	b := &longBuilder{}
	fs := hugeForests(b, flat, deep)
	base := b.n
	var gs []*Gram
	for _, g := range longGrammars() {
		// a state per element, each larger than the one before: the time is cubic in the number of elements
		growing := false
		for _, t := range []string{"[(a:*)*,[(b:*)?,[(a:*)*,(== 1)?]]]", ".@x", ".[a:*,@x]", ".(a:@x"} {
			growing = growing || strings.Contains(g.Text(), t)
		}
		if !growing {
			gs = append(gs, g)
		}
	}
	r.Par(len(gs), func(w, gi int) { runLong(r, w, gs[gi], fs, base, engines, 2) })
	r.Bound("huge trees: %d grammars x %d forests of up to %d siblings or %d levels around powers of two, forwards and backwards with the same validator x %d engines", len(gs), len(fs), flat, deep, len(engines))
}

// longHistories: one validator sees all long forests, forwards and backwards, and then every one of them failing
// at every step followed by the good one; every verdict is that of a freshly prepared validator.
func longHistories(r *Run, flat, deep, failMax int) {
	b := &longBuilder{}
	fs := longForests(b, flat, deep)
	gs := longGrammars()
	r.Par(len(gs), func(w, gi int) {
		text := gs[gi].Text()
		r.mark(w, func() string { return "histories of long trees, grammar " + text })
		longHistory(r, text, fs, failMax)
	})
	r.Bound("long trees: %d grammars x a history of %d forests of up to %d siblings or %d levels and back, then every failing advance of those with up to %d", len(gs), len(fs), flat, deep, failMax)
}

// wideHistories: the grammars with many operands, over every order of as many siblings and back.
func wideHistories(r *Run, max int) {
	type job struct {
		text    string
		n, kind int
	}
	var jobs []job
	sizes := wideSizes(max)
	forests := map[[2]int][]*LForest{}
	for i := len(sizes) - 1; i >= 0; i-- {
		n := sizes[i]
		for kind := 0; kind < 3; kind++ {
			forests[[2]int{n, kind}] = wideForests(&longBuilder{}, n, kind)
		}
		gs, kinds := wideGrams(n)
		for k := range gs {
			jobs = append(jobs, job{gs[k].Text(), n, kinds[k]})
		}
	}
	var total atomic.Int64
	r.Par(len(jobs), func(w, i int) {
		fs := forests[[2]int{jobs[i].n, jobs[i].kind}]
		if step := len(fs)*jobs[i].n/1000 + 1; step > 1 {
			var some []*LForest
			for j := 0; j < len(fs); j++ {
				if j < 4 || j > len(fs)-3 || j%step == i%step {
					some = append(some, fs[j])
				}
			}
			fs = some
		}
		total.Add(int64(len(fs)))
		r.mark(w, func() string { return "histories of a wide grammar, " + jobs[i].text })
		longHistory(r, jobs[i].text, fs, 0)
	})
	r.Bound("wide grammars: %d grammars with up to %d operands, histories of %d runs in all and back", len(jobs), max, total.Load())
}

func longHistory(r *Run, text string, fs []*LForest, failMax int) {
	tp := newTreeParser(nil)
	at := ""
	run := func(m *mem.Mem, f *LForest, fail int64) string {
		at = f.Name
		return verdict(m.Validate, tp, histInput{f: &Forest{Trees: f.Trees}, failAt: fail})
	}
	var traces int64
	err := guard(func() error {
		g, err := relapse.Parse(text)
		if err != nil {
			return err
		}
		want := make([]string, len(fs))
		for i, f := range fs {
			m, err := relapse.Prepare(g)
			if err != nil {
				return err
			}
			want[i] = run(m, f, 0)
		}
		m, err := relapse.Prepare(g)
		if err != nil {
			return err
		}
		for k := 0; k < 2*len(fs); k++ {
			i := k
			if k >= len(fs) {
				i = 2*len(fs) - 1 - k
			}
			traces++
			if got := run(m, fs[i], 0); got != want[i] {
				return fmt.Errorf("after the forests before it, pass %d, it gives %s; on its own it gives %s", k/len(fs)+1, got, want[i])
			}
		}
		if failMax == 0 {
			return nil
		}
		for i, f := range fs {
			run(m, f, 0)
			n := tp.Fallible
			if n > int64(failMax) {
				continue
			}
			for k := int64(1); k <= n; k++ {
				run(m, f, k)
				traces++
				if got := run(m, f, 0); got != want[i] {
					return fmt.Errorf("after failing at its advance %d it gives %s; on its own it gives %s", k, got, want[i])
				}
			}
		}
		return nil
	})
	r.Traces.Add(traces)
	r.States.Add(traces)
	r.Transitions.Add(tp.Steps)
	if err != nil {
		r.Violation("long | "+text+" | "+at, fmt.Sprintf("grammar: %s\ntree: %s\n%v", text, at, err), map[string]string{"grammar": text, "tree": at})
	}
}

// longFaults: every advance of every engine over the long forests fails.
func longFaults(r *Run, engines []*Engine, flat, deep int) {
	b := &longBuilder{}
	fs := longForests(b, flat, deep)
	gs := longGrammars()
	r.Par(len(gs), func(w, gi int) {
		text := gs[gi].Text()
		r.mark(w, func() string { return "faults in long trees, grammar " + text })
		tp := newTreeParser(nil)
		cur, ename := "", ""
		var traces, hits int64
		err := guard(func() error {
			for _, e := range engines {
				ename = e.Name
				pg, err := relapse.Parse(text)
				if err != nil {
					return err
				}
				v, err := e.Prepare(pg)
				if err != nil {
					return err
				}
				if v == nil {
					continue
				}
				for _, f := range fs {
					if e.Record && !f.unique {
						continue
					}
					cur = f.Name
					h := histInput{f: &Forest{Trees: f.Trees}}
					verdict(v, tp, h)
					n := tp.Fallible
					for k := int64(1); k <= n; k++ {
						cur = fmt.Sprintf("%s failing at advance %d", f.Name, k)
						h.failAt = k
						got := verdict(v, tp, h)
						traces++
						if tp.Failed {
							hits++
							if got != "error" {
								return fmt.Errorf("the parser failed but the verdict is %s", got)
							}
						}
					}
				}
			}
			return nil
		})
		r.Traces.Add(traces)
		r.States.Add(traces)
		r.Transitions.Add(tp.Steps)
		r.Outcome("failures that reached the validator", hits)
		if err != nil {
			r.Violation(ename+" | "+text+" | "+cur, fmt.Sprintf("engine: %s\ngrammar: %s\ninput: %s\n%v", ename, text, cur, err), map[string]string{"engine": ename, "grammar": text, "input": cur})
		}
	})
	r.Bound("long trees: %d grammars x %d forests of up to %d siblings or %d levels x every advance x %d engines", len(gs), len(fs), flat, deep, len(engines))
}
