package main

import (
	"fmt"
	"sync/atomic"

	"github.com/katydid/katydid/relapse"
	"github.com/katydid/katydid/relapse/interp"
)

// Long chains of references: every shape of link x every number of links x where the chain leads x where a node is in between.

func chainGram(n int, link func(i int, next *Pat) *Pat, guard func(i int) bool, last *Pat) *Gram {
	g := &Gram{Main: mkRef("x0"), Decls: map[string]*Pat{}}
	g.Decls["main"] = g.Main
	for i := 0; i < n; i++ {
		next := last
		if i+1 < n {
			next = mkRef(fmt.Sprintf("x%d", i+1))
		}
		if guard(i) {
			next = mkNode(nA, next)
		}
		name := fmt.Sprintf("x%d", i)
		g.Names, g.Decls[name] = append(g.Names, name), link(i, next)
	}
	return g
}

func chainLinks() map[string]func(i int, p *Pat) *Pat {
	b := mkNode(nB, pAny())
	own := func(i int) *Pat { return mkNode(pr(fmt.Sprintf("b%d", i), isStr(fmt.Sprintf("b%d", i))), pAny()) }
	links := map[string]func(i int, p *Pat) *Pat{
		"ref":        func(i int, p *Pat) *Pat { return p },
		"first":      func(i int, p *Pat) *Pat { return mk(OpConcat, p, b) },
		"last":       func(i int, p *Pat) *Pat { return mk(OpConcat, b, p) },
		"or":         func(i int, p *Pat) *Pat { return mk(OpOr, p, b) },
		"or other":   func(i int, p *Pat) *Pat { return mk(OpOr, pEmpty(), p) },
		"and":        func(i int, p *Pat) *Pat { return mk(OpAnd, pAny(), p) },
		"and other":  func(i int, p *Pat) *Pat { return mk(OpAnd, p, pAny()) },
		"interleave": func(i int, p *Pat) *Pat { return mk(OpInterleave, p, own(i)) },
		"within":     func(i int, p *Pat) *Pat { return mk(OpInterleave, own(i), p) },
	}
	for name, op := range map[string]Op{"star": OpStar, "optional": OpOptional, "not": OpNot, "contains": OpContains} {
		op := op
		links[name] = func(i int, p *Pat) *Pat { return mk(op, p, nil) }
	}
	kinds := []Op{OpConcat, OpOr, OpAnd, OpOptional, OpNot}
	links["mixed"] = func(i int, p *Pat) *Pat {
		op := kinds[i%len(kinds)]
		if op == OpOptional || op == OpNot {
			return mk(op, p, nil)
		}
		if i%2 == 0 {
			return mk(op, p, own(i))
		}
		return mk(op, own(i), p)
	}
	return links
}

func exploreLongRecursion(r *Run, max int) {
	type job struct {
		g    *Gram
		want bool
		n    int
	}
	var jobs []job
	never := func(int) bool { return false }
	for _, n := range append(longSynSizes(max), 257) {
		for _, link := range chainLinks() {
			backs := map[int]bool{0: true, 1: true, n / 2: true, n - 2: true, n - 1: true}
			guards := map[int]bool{0: true, 1: true, n / 2: true, n - 1: true, -1: true}
			for at := range guards {
				at := at
				if at >= n {
					continue
				}
				isAt := never
				if at >= 0 {
					isAt = func(i int) bool { return i == at }
				}
				for back := range backs {
					if back < 0 || back >= n {
						continue
					}
					// the chain leads back to x(back): a cycle without a node unless the node is on it
					jobs = append(jobs, job{chainGram(n, link, isAt, mkRef(fmt.Sprintf("x%d", back))), at < back, n})
				}
				jobs = append(jobs, job{chainGram(n, link, isAt, mkRef("main")), at < 0, n})
				if at < 0 || n <= 9 {
					jobs = append(jobs, job{chainGram(n, link, isAt, mkNode(nA, pAny())), false, n})
				}
			}
		}
	}
	// a name that no pattern uses and that leads to itself, among many that do not
	for _, n := range longSynSizes(max) {
		for _, at := range []int{0, n / 2, n - 1} {
			for _, node := range []bool{false, true} {
				g := &Gram{Main: pAny(), Decls: map[string]*Pat{}}
				for i := 0; i < n; i++ {
					name := fmt.Sprintf("x%d", i)
					p := pAny()
					if i == at {
						p = mkRef(name)
						if node {
							p = mkNode(nA, p)
						}
					}
					g.Names, g.Decls[name] = append(g.Names, name), p
				}
				jobs = append(jobs, job{g, !node, n})
			}
		}
	}
	var ran atomic.Int64
	r.Par(len(jobs), func(w, i int) {
		j := jobs[i]
		text := j.g.Text()
		r.mark(w, func() string { return "recursion check of " + text })
		r.States.Add(1)
		for _, form := range []string{text, "#main = " + text} {
			err := guard(func() error {
				pg, err := relapse.Parse(form)
				if err != nil {
					return err
				}
				if got := interp.HasRecursion(pg); got != j.want {
					return fmt.Errorf("HasRecursion is %v, but a cycle without a node in between is %v", got, j.want)
				}
				return nil
			})
			if err != nil {
				r.Violation("recursion | "+form, fmt.Sprintf("grammar: %s\n%v", form, err), map[string]string{"grammar": form})
			}
			r.Traces.Add(1)
		}
		if j.want {
			r.Outcome("grammars with recursion", 1)
			return
		}
		r.Outcome("grammars without recursion", 1)
		// an undefined name at the end of the same chain
		for _, p := range preparers {
			if j.n > 6 && p.name != "Prepare" {
				continue
			}
			err := guard(func() error {
				pg, err := relapse.Parse(text + " #undefined = @nosuch")
				if err != nil {
					return err
				}
				if p.f(pg) == nil {
					return fmt.Errorf("no error for the reference to an undefined name")
				}
				return nil
			})
			if err != nil {
				r.Violation(p.name+" | "+text, fmt.Sprintf("%s #undefined = @nosuch\n%v", text, err), map[string]string{"grammar": text})
			}
		}
		if j.n <= 9 {
			ran.Add(1)
			b := &longBuilder{}
			none := b.forest("empty", nil, nil)
			fs := []*LForest{none}
			for k := 0; k < 12; k++ { // nested a's, and as many siblings
				last := fs[len(fs)-1]
				fs = append(fs, b.forest(fmt.Sprintf("a^%d", k+1), []*Label{strLabel("a")}, []*LForest{last}))
			}
			for k := 1; k < 10; k++ { // the siblings of which every link takes one
				var ls []*Label
				var ks []*LForest
				for m := 0; m < k; m++ {
					ls, ks = append(ls, strLabel(fmt.Sprintf("b%d", m))), append(ks, none)
				}
				fs = append(fs, b.forest(fmt.Sprintf("b0 to b%d", k-1), ls, ks))
				fs = append(fs, b.forest(fmt.Sprintf("a and b0 to b%d", k-1), append([]*Label{strLabel("a")}, ls...), append([]*LForest{none}, ks...)))
				fs = append(fs, b.forest(fmt.Sprintf("b0 to b%d and a", k-1), append(ls[:k:k], strLabel("a")), append(ks[:k:k], none)))
			}
			for k := 1; k < 5; k++ {
				var ls []*Label
				var ks []*LForest
				for m := 0; m < k; m++ {
					ls, ks = append(ls, strLabel("b")), append(ks, none)
				}
				fs = append(fs, b.forest(fmt.Sprintf("%d b", k), ls, ks))
				fs = append(fs, b.forest(fmt.Sprintf("a and %d b", k), append([]*Label{strLabel("a")}, ls...), append([]*LForest{none}, ks...)))
				fs = append(fs, b.forest(fmt.Sprintf("%d b and a", k), append(ls[:k:k], strLabel("a")), append(ks[:k:k], none)))
			}
			runLong(r, w, j.g, fs, b.n, []*Engine{engMem}, 2)
		}
	})
	r.Bound("long references: %d grammars with chains of up to 257 names, and %d of up to 9 names run", len(jobs), ran.Load())
}
