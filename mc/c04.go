package main

import (
	"errors"
	"fmt"
	"io"

	"github.com/katydid/katydid/relapse"
	"github.com/katydid/katydid/relapse/ast"
	"github.com/katydid/katydid/relapse/mem"
)

var errInjected = errors.New("injected parser failure")

// an input of a history: a forest, possibly failing at the n-th call.
type histInput struct {
	f      *Forest
	failAt int64
	values bool // value reads fail too
}

func (h histInput) String() string {
	s := showForest(h.f.Trees)
	if h.failAt > 0 {
		k := "Next"
		if h.values {
			k = "Next or value read"
		}
		s += fmt.Sprintf(" failing at %s number %d", k, h.failAt)
	}
	return "<" + s + ">"
}

func verdict(v validateFunc, tp *TreeParser, h histInput) string {
	tp.Init(h.f.Trees)
	tp.FailAt, tp.Err, tp.FailValues = h.failAt, errInjected, h.values
	got, err := v(tp)
	tp.FailAt = 0
	if err != nil {
		return "error"
	}
	if got {
		return "accept"
	}
	return "reject"
}

// predicates that evaluate to an error for some labels, or always.
var (
	fCont    = pr("->contains($string,\"a\")", nil)
	fElemErr = pr("->eq($int,elem([]int{1},3))", nil)
	fLen     = pr("->eq(length($string),1)", nil)
	fBadElem = pr("->eq($int,elem([]int{$int},1))", nil)
)

func histGrammars() []*Pat {
	p0 := atomsSmall()
	ps := append(append(append([]*Pat{}, p0...), unary(p0, []*Pred{nA, nNotA})...), binary(p0, p0)...)
	es := []*Pat{mkLeaf(fCont), mkLeaf(fElemErr), mkLeaf(fLen), mkLeaf(fBadElem), mkLeaf(eq1), mkNode(nA, pAny()), mkNode(nNotA, mkLeaf(fCont)), mkNode(nA, mkLeaf(fElemErr))}
	ps = append(ps, unary(es, []*Pred{nA})...)
	ps = append(ps, binary(es, es)...)
	for _, n := range []int{1, 2, 31, 40} {
		for _, op := range binOps {
			p := mk(OpOptional, mkNode(pr("f0", nil), pAny()), nil)
			for i := 1; i < n; i++ {
				p = mk(op, p, mk(OpOptional, mkNode(pr(fmt.Sprintf("f%d", i), nil), pAny()), nil))
			}
			if op == OpInterleave && n > 8 {
				continue
			}
			ps = append(ps, mk(OpContains, mkNode(nA, p), nil))
		}
	}
	return pool(ps)
}

func init() {
	register("C04", func(r *Run) {
		r.Assume("the verdict of a freshly prepared validator is the reference (C01 compares that with the language definition)")
		if r.Thorough {
			longHistories(r, 300, 300, 150)
		} else {
			longHistories(r, 130, 130, 70)
		}
		exploreStates(r, []*Engine{engMem}, 12, 4000, true)
		crowdHistories(r)
		nearHistories(r, []*Engine{engMem, engMemRecord, engAuto})
		wideHistories(r, map[bool]int{false: 17, true: 66}[r.Thorough])
		labels := []*Label{strLabel("a"), strLabel("b"), numLabel(1)}
		inner := func(l int) bool { return l < 2 }
		u3 := newUniverse(labels, 3, 3, 3, inner)
		u2 := newUniverse(labels, 2, 2, 2, inner)
		grams := histGrammars()
		aliases := aliasSpace("")
		au := aliasUniverse()

		type unit struct {
			g    *Gram
			ins  []histInput // inputs of the first steps
			last []histInput // inputs of the last step
			k    int         // length of the history
		}
		good := func(u *Universe) []histInput {
			var out []histInput
			for _, f := range u.Forests {
				out = append(out, histInput{f: f})
			}
			return out
		}
		failing := func(u *Universe) []histInput {
			var out []histInput
			for _, f := range u.Forests {
				for _, vals := range []bool{false, true} {
					n := int64(2*f.Size + 1)
					if vals {
						n = int64(4*f.Size + 1)
					}
					for i := int64(1); i <= n; i++ {
						out = append(out, histInput{f, i, vals})
					}
				}
			}
			return out
		}
		all2 := append(good(u2), failing(u2)...)
		spaces := []struct {
			name string
			n    int
			at   func(i int) unit
		}{
			{"pairs of inputs", len(grams), func(i int) unit { return unit{&Gram{Main: grams[i]}, good(u3), good(u3), 2} }},
			{"a failing input, then a good one", len(grams), func(i int) unit { return unit{&Gram{Main: grams[i]}, failing(u2), good(u2), 2} }},
			{"triples of inputs", len(grams), func(i int) unit { return unit{&Gram{Main: grams[i]}, good(u2), good(u2), 3} }},
			{"shared sub-patterns, pairs of inputs", aliases.N, func(i int) unit { return unit{aliases.At(i), good(au)[10:], good(au)[10:], 2} }},
			{"mutually recursive references, pairs of inputs", 7500, func(i int) unit { return unit{refSpace("").At(i), good(u2), good(u2), 2} }},
		}
		if r.Thorough {
			spaces = append(spaces, struct {
				name string
				n    int
				at   func(i int) unit
			}{"good or failing inputs, triples", len(grams), func(i int) unit { return unit{&Gram{Main: grams[i]}, all2, good(u2), 3} }},
				struct {
					name string
					n    int
					at   func(i int) unit
				}{"quadruples of inputs", len(grams), func(i int) unit { return unit{&Gram{Main: grams[i]}, good(u2), good(u2), 4} }})
		}
		for _, sp := range spaces {
			n, stride := sp.n, 1
			if !r.Thorough {
				stride = map[byte]int{'s': 8, 'm': 3}[sp.name[0]]
				if stride == 0 {
					stride = 1
				}
				n = (n + stride - 1) / stride
			}
			r.Par(n, func(w, i int) {
				u := sp.at(i * stride)
				text := u.g.Text()
				r.mark(w, func() string { return "histories of " + text })
				r.exploreHistories(text, u.ins, u.last, u.k)
			})
			r.Bound("%s: %d grammars", sp.name, n)
		}
	})

	register("C05", func(r *Run) {
		r.Assume("a step is a call of Next: an error of a value read is how a parser says that the value has another type, which is not a failure of the input")
		labels := []*Label{strLabel("a"), strLabel("b"), numLabel(1)}
		inner := func(l int) bool { return l < 2 }
		u3 := newUniverse(labels, 3, 3, 3, inner)
		u4 := newUniverse(labels, 4, 4, 4, inner)
		p0 := atomsSmall()
		p1 := pool(append(append(append([]*Pat{}, p0...), unary(p0, []*Pred{nA, nNotA})...), binary(p0, p0)...))
		engines := []*Engine{engMem, engMemRecord, engInterp, engIntern, engInternRecord, engAuto, engAutoRecord}
		exploreStates(r, []*Engine{engMem, engMemRecord}, 8, 300, true)
		exploreStates(r, []*Engine{engIntern, engAuto, engInternRecord, engAutoRecord}, 5, 60, true)
		if r.Thorough {
			longFaults(r, engines, 66, 66)
		} else {
			longFaults(r, engines, 18, 18)
		}
		faults(r, patSpace("patterns of depth 1", p1), u3, engines)
		faults(r, refSpace("two mutually recursive references"), newUniverse(labels, 2, 2, 2, inner), []*Engine{engMem, engIntern, engInterp})
		p01 := pairSpace("binary operators over depth 0 x depth 1", p0, p1, binOps, true)
		faults(r, p01, newUniverse(labels, 2, 2, 2, inner), []*Engine{engMem, engIntern})
		if r.Thorough {
			faults(r, p01, u3, engines)
			faults(r, patSpace("patterns of depth 1", p1), u4, engines)
		}
	})
}

func (r *Run) exploreHistories(text string, ins, last []histInput, k int) {
	tp := newTreeParser(nil)
	var g *ast.Grammar
	if err := guard(func() (err error) { g, err = relapse.Parse(text); return err }); err != nil {
		r.Violation("parse "+text, fmt.Sprintf("grammar %s does not parse: %v", text, err), text)
		return
	}
	fresh := func() *mem.Mem {
		m, err := relapse.Prepare(g)
		if err != nil {
			panic(err)
		}
		return m
	}
	want := map[*Forest]string{}
	var hist []histInput
	err := guard(func() error {
		for _, h := range last {
			hist = []histInput{h}
			want[h.f] = verdict(fresh().Validate, tp, h)
		}
		return nil
	})
	if err != nil {
		r.Violation("prepare "+text, fmt.Sprintf("grammar: %s\ninputs: %v\n%v", text, hist, err), text)
		return
	}
	var traces int64
	// all histories of k inputs: the first k-1 from ins, the last from last. The validator is rebuilt for each.
	idx := make([]int, k-1)
	for {
		for _, l := range last {
			hist = hist[:0]
			for _, j := range idx {
				hist = append(hist, ins[j])
			}
			hist = append(hist, l)
			var got string
			err := guard(func() error {
				m := fresh()
				for _, h := range hist {
					got = verdict(m.Validate, tp, h)
				}
				return nil
			})
			traces++
			if err == nil && got == want[l.f] {
				continue
			}
			what := fmt.Sprintf("grammar: %s\nhistory: %v\nthe last input gives %s; on its own it gives %s", text, hist, got, want[l.f])
			if err != nil {
				what += "\n" + err.Error()
			}
			r.Violation(text+" | "+fmt.Sprint(hist), what, map[string]string{"grammar": text, "history": fmt.Sprint(hist)})
			return
		}
		// next tuple
		p := 0
		for p < len(idx) {
			idx[p]++
			if idx[p] < len(ins) {
				break
			}
			idx[p] = 0
			p++
		}
		if p == len(idx) {
			break
		}
	}
	r.Traces.Add(traces)
	r.States.Add(traces)
	r.Transitions.Add(tp.Steps)
	if n := r.sampleTick.Add(1); n&(n-1) == 0 {
		r.Sample("grammar %.150s: after %v the verdicts are as of a fresh validator", text, hist)
	}
}

// faults injects an error into every single advance that a validation makes.
func faults(r *Run, sp *Space, u *Universe, engines []*Engine) {
	errs := []error{errInjected, io.ErrUnexpectedEOF, fmt.Errorf("at the end: %w", io.EOF)}
	r.Par(sp.N, func(w, i int) {
		g := sp.At(i)
		text := g.Text()
		r.mark(w, func() string { return "faults under grammar " + text })
		tp := newTreeParser(nil)
		var cur string
		var ename string
		var traces, hits int64
		err := guard(func() error {
			for _, e := range engines {
				ename = e.Name
				pg, err := relapse.Parse(text)
				if err != nil {
					return err
				}
				v, err := e.Prepare(pg)
				if err != nil {
					return err
				}
				if v == nil {
					continue
				}
				for _, f := range u.Forests {
					if e.Record && !f.Unique {
						continue
					}
					ok := verdict(v, tp, histInput{f: f})
					n := tp.Fallible
					for ke := int64(0); ke < n*int64(len(errs)); ke++ {
						k, ferr := ke/int64(len(errs))+1, errs[ke%int64(len(errs))]
						cur = histInput{f, k, false}.String() + " with error " + ferr.Error()
						tp.Init(f.Trees)
						tp.FailAt, tp.Err, tp.FailValues = k, ferr, false
						got, err := v(tp)
						tp.FailAt = 0
						traces++
						if tp.Failed && err == nil {
							return fmt.Errorf("the parser failed but the verdict is %v", got)
						}
						if tp.Failed {
							hits++
						}
						if again := verdict(v, tp, histInput{f: f}); again != ok {
							return fmt.Errorf("after the failure the good input gives %s, before it gave %s", again, ok)
						}
					}
				}
			}
			return nil
		})
		r.Traces.Add(traces)
		r.States.Add(traces)
		r.Transitions.Add(tp.Steps)
		r.Outcome("failures that reached the validator", hits)
		if n := r.sampleTick.Add(1); n&(n-1) == 0 {
			r.Sample("grammar %.150s, %s: an error was returned", text, cur)
		}
		if err != nil {
			r.Violation(ename+" | "+text+" | "+cur, fmt.Sprintf("engine: %s\ngrammar: %s\ninput: %s\n%v", ename, text, cur, err), map[string]string{"engine": ename, "grammar": text, "input": cur})
		}
	})
	r.Bound("%s: %d grammars x %d forests x every step x %d engines", sp.Name, sp.N, len(u.Forests), len(engines))
}
