package main

import (
	"fmt"

	"github.com/katydid/katydid/relapse"
	"github.com/katydid/katydid/relapse/ast"
)

// Crowded levels: a few operands whose names overlap, some true for every label, each with a child of its own, so that
// the decisions of one level share prefixes and every label takes another way through them.

type crowd struct {
	names []*Pred
	kids  []*Pat
	n     int
}

func newCrowd(n int, scale int) *crowd {
	c := &crowd{names: []*Pred{nAny, nA, nB, nNotA}, n: n}
	c.kids = []*Pat{mkLeaf(eq1), mkNode(nB, pAny()), pEmpty()}
	if scale < 2 {
		c.names = []*Pred{nAny, nA, nNotA}
		c.kids = c.kids[:2]
	}
	return c
}

var crowdCombs = []string{"concat of optionals", "interleave of optionals", "or", "and of contained", "and of not contained", "contained concat of optionals", "star of or"}

func (c *crowd) space(name string, combs int) *Space {
	k := len(c.names) * len(c.kids)
	total := 1
	for i := 0; i < c.n; i++ {
		total *= k
	}
	return &Space{name, total * combs, func(i int) *Gram {
		comb := i % combs
		i /= combs
		ps := make([]*Pat, c.n)
		for j := range ps {
			p := mkNode(c.names[i%len(c.names)], c.kids[i/len(c.names)%len(c.kids)])
			i /= k
			switch comb {
			case 0, 1, 5:
				p = mk(OpOptional, p, nil)
			case 3:
				p = mk(OpContains, p, nil)
			case 4:
				p = mk(OpNot, mk(OpContains, p, nil), nil)
			}
			ps[j] = p
		}
		p := refFold([]Op{OpConcat, OpInterleave, OpOr, OpAnd, OpAnd, OpConcat, OpOr}[comb], ps)
		switch comb {
		case 5:
			p = mk(OpContains, mkNode(nA, p), nil)
		case 6:
			p = mk(OpStar, p, nil)
		}
		return &Gram{Main: p}
	}}
}

// crowdUniverse: up to two fields with up to one child, some below a further a.
func crowdUniverse() *Universe {
	u := newUniverse([]*Label{strLabel("a"), strLabel("b"), numLabel(1)}, 4, 2, 2, func(l int) bool { return l < 2 })
	return u
}

func exploreCrowds(r *Run, engines []*Engine, scale int) {
	n, combs := 4, len(crowdCombs)
	if scale < 2 {
		n = 3
	}
	if scale == 0 {
		combs = 4
	}
	u := crowdUniverse()
	compareSpace(r, newCrowd(n, scale).space(fmt.Sprintf("%d operands with overlapping names and children of their own", n), combs), u, engines)
	if r.Thorough && scale >= 2 {
		compareSpace(r, newCrowd(5, 1).space("5 operands with overlapping names and children of their own", combs), u, engines)
	}
}

// crowdHistories: one validator sees every tree, forwards, backwards and forwards again.
func crowdHistories(r *Run) {
	n, scale := 4, 1
	if r.Thorough {
		scale = 2
	}
	u := crowdUniverse()
	var fs []*Forest
	for i, f := range u.Forests {
		if len(f.Trees) < 2 || r.Thorough || i%5 == 0 {
			fs = append(fs, f)
		}
	}
	sp := newCrowd(n, scale).space("", len(crowdCombs))
	tps := make([]*TreeParser, 64)
	r.Par(sp.N, func(w, i int) {
		if tps[w] == nil {
			tps[w] = newTreeParser(nil)
		}
		tp := tps[w]
		text := sp.At(i).Text()
		r.mark(w, func() string { return "histories of " + text })
		steps := tp.Steps
		var hist []histInput
		what := ""
		err := guard(func() error {
			g, err := relapse.Parse(text)
			if err != nil {
				return err
			}
			want, err := freshVerdicts(g, tp, fs)
			if err != nil {
				return err
			}
			m, err := relapse.Prepare(g)
			if err != nil {
				return err
			}
			for k := 0; k < 3*len(fs); k++ {
				j := k % len(fs)
				if k/len(fs) == 1 {
					j = len(fs) - 1 - j
				}
				h := histInput{f: fs[j]}
				hist = append(hist, h)
				if got := verdict(m.Validate, tp, h); got != want[j] {
					what = fmt.Sprintf("the last input gives %s; on its own it gives %s", got, want[j])
					return fmt.Errorf("%s", what)
				}
			}
			return nil
		})
		r.States.Add(int64(len(hist)))
		r.Traces.Add(int64(len(hist)))
		r.Transitions.Add(tp.Steps - steps)
		if err != nil {
			last := "-"
			if len(hist) > 0 {
				last = hist[len(hist)-1].String()
			}
			r.Violation(text+" | crowd | "+last, fmt.Sprintf("grammar: %s\nhistory: %v\n%v", text, hist, err), map[string]string{"grammar": text, "history": fmt.Sprint(hist)})
		}
	})
	r.Bound("%d operands with overlapping names: %d grammars, one validator over %d trees forwards, backwards and forwards again", n, sp.N, len(fs))
}

func freshVerdicts(g *ast.Grammar, tp *TreeParser, fs []*Forest) ([]string, error) {
	want := make([]string, len(fs))
	for j, f := range fs {
		m, err := relapse.Prepare(g)
		if err != nil {
			return nil, err
		}
		want[j] = verdict(m.Validate, tp, histInput{f: f})
	}
	return want, nil
}
