package main

import (
	"fmt"

	"github.com/katydid/katydid/parser"
	"github.com/katydid/katydid/relapse"
	"github.com/katydid/katydid/relapse/ast"
	"github.com/katydid/katydid/relapse/auto"
	"github.com/katydid/katydid/relapse/intern"
	"github.com/katydid/katydid/relapse/interp"
	"github.com/katydid/katydid/relapse/mem"
)

type validateFunc func(p parser.Interface) (bool, error)

type Engine struct {
	Name string
	// Prepare returns nil, nil if the engine gives up on the grammar for a documented reason.
	Prepare func(g *ast.Grammar) (validateFunc, error)
	Record  bool
}

var engMem = &Engine{"memoizing validator", func(g *ast.Grammar) (validateFunc, error) {
	m, err := relapse.Prepare(g)
	if err != nil {
		return nil, err
	}
	return func(p parser.Interface) (bool, error) { return relapse.Validate(m, p) }, nil
}, false}

var engMemRecord = &Engine{"record-optimised memoizing validator", func(g *ast.Grammar) (validateFunc, error) {
	m, err := mem.NewRecord(g)
	if err != nil {
		return nil, err
	}
	return m.Validate, nil
}, true}

var engInterp = &Engine{"reference interpreter", func(g *ast.Grammar) (validateFunc, error) {
	return func(p parser.Interface) (bool, error) { return interp.Interpret(g, p) }, nil
}, false}

var engIntern = &Engine{"interning interpreter", func(g *ast.Grammar) (validateFunc, error) {
	return func(p parser.Interface) (bool, error) { return intern.Interpret(g, false, p) }, nil
}, false}

var engInternRecord = &Engine{"record-optimised interning interpreter", func(g *ast.Grammar) (validateFunc, error) {
	return func(p parser.Interface) (bool, error) { return intern.Interpret(g, true, p) }, nil
}, true}

var engAuto = &Engine{"automaton", func(g *ast.Grammar) (validateFunc, error) {
	a, err := auto.Compile(g)
	if err == auto.ErrTooManyStates {
		return nil, nil
	}
	if err != nil {
		return nil, err
	}
	return a.Validate, nil
}, false}

var engAutoRecord = &Engine{"record-optimised automaton", func(g *ast.Grammar) (validateFunc, error) {
	a, err := auto.CompileRecord(g)
	if err == auto.ErrTooManyStates {
		return nil, nil
	}
	if err != nil {
		return nil, err
	}
	return a.Validate, nil
}, true}

func prepared(g *ast.Grammar) (validateFunc, error) {
	m, err := relapse.Prepare(g)
	if err != nil {
		return nil, err
	}
	return m.Validate, nil
}

// engSimplify interprets the simplified grammar.
var engSimplify = &Engine{"validator of the simplified grammar", func(g *ast.Grammar) (validateFunc, error) {
	s := interp.NewSimplifier(g).Grammar()
	return prepared(s)
}, false}

var engSimplifyRecord = &Engine{"validator of the record-simplified grammar", func(g *ast.Grammar) (validateFunc, error) {
	s := interp.NewSimplifier(g).OptimizeForRecord().Grammar()
	return prepared(s)
}, true}

// engSimplifyTwice interprets the grammar simplified twice.
var engSimplifyTwice = &Engine{"validator of the grammar simplified twice", func(g *ast.Grammar) (validateFunc, error) {
	s := interp.NewSimplifier(interp.NewSimplifier(g).Grammar()).Grammar()
	return prepared(s)
}, false}

var engSimplifyRecordTwice = &Engine{"validator of the grammar record-simplified twice", func(g *ast.Grammar) (validateFunc, error) {
	s := interp.NewSimplifier(interp.NewSimplifier(g).OptimizeForRecord().Grammar()).OptimizeForRecord().Grammar()
	return prepared(s)
}, true}

// Space is an indexable finite set of grammars.
type Space struct {
	Name string
	N    int
	At   func(i int) *Gram
}

type stateKey struct{}

// compareSpace checks every grammar of the space on every forest of the universe against the reference model.
func compareSpace(r *Run, sp *Space, u *Universe, engines []*Engine) bool {
	type wstate struct {
		m  *Matcher
		tp *TreeParser
	}
	ws := make([]*wstate, 64)
	ok := r.Par(sp.N, func(w, i int) {
		if ws[w] == nil {
			ws[w] = &wstate{newMatcher(u, nil), newTreeParser(nil)}
		}
		s := ws[w]
		g := sp.At(i)
		if g == nil {
			return
		}
		r.mark(w, func() string { return "grammar " + g.Text() })
		s.m.Decls = g.Decls
		compareGram(r, g, u, s.m, s.tp, engines)
	})
	r.Bound("%s: %d grammars x %d forests x %d engines", sp.Name, sp.N, len(u.Forests), len(engines))
	return ok
}

func compareGram(r *Run, g *Gram, u *Universe, m *Matcher, tp *TreeParser, engines []*Engine) {
	text := g.Text()
	want := make([]bool, len(u.Forests))
	var acc int64
	for f := range u.Forests {
		want[f] = m.Full(g.Main, f)
		if want[f] {
			acc++
		}
	}
	r.States.Add(int64(len(u.Forests)))
	if n := r.sampleTick.Add(1); n&(n-1) == 0 && acc > 0 {
		for f := len(want) - 1; f >= 0; f-- {
			if want[f] {
				r.Sample("grammar %.200s accepts %s (and %d of %d trees in all)", text, showForest(u.Forests[f].Trees), acc, len(want))
				break
			}
		}
	}
	r.outcomesAdd(acc, int64(len(u.Forests))-acc)
	steps0 := tp.Steps
	for _, e := range engines {
		var bad *Forest
		var badGot bool
		var traces int64
		err := guard(func() error {
			pg, err := relapse.Parse(text)
			if err != nil {
				return fmt.Errorf("grammar does not parse: %v", err)
			}
			v, err := e.Prepare(pg)
			if err != nil {
				return fmt.Errorf("preparing fails: %v", err)
			}
			if v == nil {
				r.gaveUp.Add(1)
				return nil
			}
			for f, fo := range u.Forests {
				if e.Record && !fo.Unique {
					continue
				}
				tp.Init(fo.Trees)
				got, err := v(tp)
				if err != nil {
					bad = fo
					return fmt.Errorf("unexpected error: %v", err)
				}
				traces++
				if tp.Misuse != "" {
					bad = fo
					return fmt.Errorf("parser misuse: %s", tp.Misuse)
				}
				if got != want[f] {
					bad, badGot = fo, got
					return fmt.Errorf("verdict %v, but the language definition says %v", got, want[f])
				}
			}
			return nil
		})
		r.Traces.Add(traces)
		if err != nil {
			_ = badGot
			tree := "-"
			if bad != nil {
				tree = showForest(bad.Trees)
			}
			r.Violation(e.Name+" | "+text+" | "+tree,
				fmt.Sprintf("engine: %s\ngrammar: %s\ntree: %s\n%v", e.Name, text, tree, err),
				map[string]string{"engine": e.Name, "grammar": text, "tree": tree})
		}
	}
	r.Transitions.Add(tp.Steps - steps0)
}
