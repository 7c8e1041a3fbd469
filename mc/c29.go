package main

import (
	"errors"
	"fmt"
	"strings"

	"github.com/katydid/katydid/relapse"
	"github.com/katydid/katydid/relapse/ast"
	"github.com/katydid/katydid/relapse/funcs"
	"github.com/katydid/katydid/relapse/mem"
)

// C29: functions registered by the user that depend on a context, in every place of a grammar,
// under histories of setting contexts, changing their value and validating.

// ctxVals is the value of a context: a value for every type.
type ctxVals struct {
	name string
	v    map[fty]fval
}

func newCtxVals(name string, d float64, i int64, u uint64, b bool, s string) *ctxVals {
	c := &ctxVals{name, map[fty]fval{tD: vD(d), tI: vI(i), tU: vU(u), tB: vB(b), tS: vS(s), tY: vY([]byte(s))}}
	for t := tD; t <= tY; t++ {
		other := fconsts(t)[1].eval(nil).vs[0]
		c.v[t.list()] = fval{t: t.list(), list: []fval{c.v[t], other}}
	}
	return c
}

var (
	ctx1 = newCtxVals("1", 1, 1, 1, true, "a")
	ctx2 = newCtxVals("2", 1.5, 2, 2, false, "ab")
)

// ---- the registered functions

var errNoContext = errors.New("no context")

type ctxBase struct {
	ctx  *funcs.Context
	name string
}

func (c *ctxBase) SetContext(ctx *funcs.Context) { c.ctx = ctx }
func (c *ctxBase) HasVariable() bool             { return true }

func (c *ctxBase) get(t fty) (fval, error) {
	if c.ctx == nil {
		return fErr, errNoContext
	}
	return c.ctx.Value.(*ctxVals).v[t], nil
}

func cmpFunc(a, b funcs.Comparable) int {
	if a.Hash() != b.Hash() {
		if a.Hash() < b.Hash() {
			return -1
		}
		return 1
	}
	return strings.Compare(a.String(), b.String())
}

type (
	ctxD  struct{ ctxBase }
	ctxI  struct{ ctxBase }
	ctxU  struct{ ctxBase }
	ctxB  struct{ ctxBase }
	ctxS  struct{ ctxBase }
	ctxY  struct{ ctxBase }
	ctxLD struct{ ctxBase }
	ctxLI struct{ ctxBase }
	ctxLU struct{ ctxBase }
	ctxLB struct{ ctxBase }
	ctxLS struct{ ctxBase }
	ctxLY struct{ ctxBase }
	// with arguments
	ctxPlus struct {
		ctxBase
		A funcs.Int
	}
	ctxSame struct {
		A funcs.String
		ctxBase
	}
	ctxSum struct {
		A funcs.Ints
		ctxBase
		B funcs.Int
	}
)

func (c *ctxD) Eval() (float64, error) { v, err := c.get(tD); return v.d, err }
func (c *ctxI) Eval() (int64, error)   { v, err := c.get(tI); return v.i, err }
func (c *ctxU) Eval() (uint64, error)  { v, err := c.get(tU); return v.u, err }
func (c *ctxB) Eval() (bool, error)    { v, err := c.get(tB); return v.b, err }
func (c *ctxS) Eval() (string, error)  { v, err := c.get(tS); return v.s, err }
func (c *ctxY) Eval() ([]byte, error)  { v, err := c.get(tY); return []byte(v.s), err }
func (c *ctxLD) Eval() (out []float64, err error) {
	l, err := c.get(tLD)
	for _, v := range l.list {
		out = append(out, v.d)
	}
	return out, err
}
func (c *ctxLI) Eval() (out []int64, err error) {
	l, err := c.get(tLI)
	for _, v := range l.list {
		out = append(out, v.i)
	}
	return out, err
}
func (c *ctxLU) Eval() (out []uint64, err error) {
	l, err := c.get(tLU)
	for _, v := range l.list {
		out = append(out, v.u)
	}
	return out, err
}
func (c *ctxLB) Eval() (out []bool, err error) {
	l, err := c.get(tLB)
	for _, v := range l.list {
		out = append(out, v.b)
	}
	return out, err
}
func (c *ctxLS) Eval() (out []string, err error) {
	l, err := c.get(tLS)
	for _, v := range l.list {
		out = append(out, v.s)
	}
	return out, err
}
func (c *ctxLY) Eval() (out [][]byte, err error) {
	l, err := c.get(tLY)
	for _, v := range l.list {
		out = append(out, []byte(v.s))
	}
	return out, err
}
func (c *ctxPlus) Eval() (int64, error) {
	a, err := c.A.Eval()
	if err != nil {
		return 0, err
	}
	v, err := c.get(tI)
	return a + v.i, err
}
func (c *ctxSame) Eval() (bool, error) {
	a, err := c.A.Eval()
	if err != nil {
		return false, err
	}
	v, err := c.get(tS)
	return err == nil && a == v.s, err
}
func (c *ctxSum) Eval() (int64, error) {
	l, err := c.A.Eval()
	if err != nil {
		return 0, err
	}
	b, err := c.B.Eval()
	if err != nil {
		return 0, err
	}
	for _, a := range l {
		b += a
	}
	v, err := c.get(tI)
	return b + v.i, err
}

func (c *ctxD) String() string    { return "ctxD()" }
func (c *ctxI) String() string    { return "ctxI()" }
func (c *ctxU) String() string    { return "ctxU()" }
func (c *ctxB) String() string    { return "ctxB()" }
func (c *ctxS) String() string    { return "ctxS()" }
func (c *ctxY) String() string    { return "ctxY()" }
func (c *ctxLD) String() string   { return "ctxLD()" }
func (c *ctxLI) String() string   { return "ctxLI()" }
func (c *ctxLU) String() string   { return "ctxLU()" }
func (c *ctxLB) String() string   { return "ctxLB()" }
func (c *ctxLS) String() string   { return "ctxLS()" }
func (c *ctxLY) String() string   { return "ctxLY()" }
func (c *ctxPlus) String() string { return "ctxPlus(" + c.A.String() + ")" }
func (c *ctxSame) String() string { return "ctxSame(" + c.A.String() + ")" }
func (c *ctxSum) String() string  { return "ctxSum(" + c.A.String() + "," + c.B.String() + ")" }

func (c *ctxD) Hash() uint64    { return funcs.Hash("ctxD") }
func (c *ctxI) Hash() uint64    { return funcs.Hash("ctxI") }
func (c *ctxU) Hash() uint64    { return funcs.Hash("ctxU") }
func (c *ctxB) Hash() uint64    { return funcs.Hash("ctxB") }
func (c *ctxS) Hash() uint64    { return funcs.Hash("ctxS") }
func (c *ctxY) Hash() uint64    { return funcs.Hash("ctxY") }
func (c *ctxLD) Hash() uint64   { return funcs.Hash("ctxLD") }
func (c *ctxLI) Hash() uint64   { return funcs.Hash("ctxLI") }
func (c *ctxLU) Hash() uint64   { return funcs.Hash("ctxLU") }
func (c *ctxLB) Hash() uint64   { return funcs.Hash("ctxLB") }
func (c *ctxLS) Hash() uint64   { return funcs.Hash("ctxLS") }
func (c *ctxLY) Hash() uint64   { return funcs.Hash("ctxLY") }
func (c *ctxPlus) Hash() uint64 { return funcs.Hash("ctxPlus", c.A) }
func (c *ctxSame) Hash() uint64 { return funcs.Hash("ctxSame", c.A) }
func (c *ctxSum) Hash() uint64  { return funcs.Hash("ctxSum", c.A, c.B) }

func (c *ctxD) Compare(o funcs.Comparable) int    { return cmpFunc(c, o) }
func (c *ctxI) Compare(o funcs.Comparable) int    { return cmpFunc(c, o) }
func (c *ctxU) Compare(o funcs.Comparable) int    { return cmpFunc(c, o) }
func (c *ctxB) Compare(o funcs.Comparable) int    { return cmpFunc(c, o) }
func (c *ctxS) Compare(o funcs.Comparable) int    { return cmpFunc(c, o) }
func (c *ctxY) Compare(o funcs.Comparable) int    { return cmpFunc(c, o) }
func (c *ctxLD) Compare(o funcs.Comparable) int   { return cmpFunc(c, o) }
func (c *ctxLI) Compare(o funcs.Comparable) int   { return cmpFunc(c, o) }
func (c *ctxLU) Compare(o funcs.Comparable) int   { return cmpFunc(c, o) }
func (c *ctxLB) Compare(o funcs.Comparable) int   { return cmpFunc(c, o) }
func (c *ctxLS) Compare(o funcs.Comparable) int   { return cmpFunc(c, o) }
func (c *ctxLY) Compare(o funcs.Comparable) int   { return cmpFunc(c, o) }
func (c *ctxPlus) Compare(o funcs.Comparable) int { return cmpFunc(c, o) }
func (c *ctxSame) Compare(o funcs.Comparable) int { return cmpFunc(c, o) }
func (c *ctxSum) Compare(o funcs.Comparable) int  { return cmpFunc(c, o) }

func registerCtxFuncs() {
	funcs.Register("ctxD", func() *ctxD { return &ctxD{} })
	funcs.Register("ctxI", func() *ctxI { return &ctxI{} })
	funcs.Register("ctxU", func() *ctxU { return &ctxU{} })
	funcs.Register("ctxB", func() *ctxB { return &ctxB{} })
	funcs.Register("ctxS", func() *ctxS { return &ctxS{} })
	funcs.Register("ctxY", func() *ctxY { return &ctxY{} })
	funcs.Register("ctxLD", func() *ctxLD { return &ctxLD{} })
	funcs.Register("ctxLI", func() *ctxLI { return &ctxLI{} })
	funcs.Register("ctxLU", func() *ctxLU { return &ctxLU{} })
	funcs.Register("ctxLB", func() *ctxLB { return &ctxLB{} })
	funcs.Register("ctxLS", func() *ctxLS { return &ctxLS{} })
	funcs.Register("ctxLY", func() *ctxLY { return &ctxLY{} })
	funcs.Register("ctxPlus", func(a funcs.Int) *ctxPlus { return &ctxPlus{A: a} })
	funcs.Register("ctxSame", func(a funcs.String) *ctxSame { return &ctxSame{A: a} })
	funcs.Register("ctxSum", func(a funcs.Ints, b funcs.Int) (*ctxSum, error) { return &ctxSum{A: a, B: b}, nil })
}

// ---- their model

var ctxNames = map[fty]string{tD: "ctxD", tI: "ctxI", tU: "ctxU", tB: "ctxB", tS: "ctxS", tY: "ctxY", tLD: "ctxLD", tLI: "ctxLI", tLU: "ctxLU", tLB: "ctxLB", tLS: "ctxLS", tLY: "ctxLY"}

func fctx(t fty) *fx {
	return &fx{text: ctxNames[t] + "()", t: t, hasVar: true, eval: func(l *Label) fres {
		if l.Ctx == nil {
			return one(fErr)
		}
		return one(l.Ctx.v[t])
	}}
}

func fctxCall(name string, t fty, f func(c *ctxVals, vs []fval) fval, args ...*fx) *fx {
	var ss []string
	x := &fx{t: t, hasVar: true}
	for _, a := range args {
		ss = append(ss, a.text)
		x.cerr = x.cerr || a.cerr
	}
	x.text = name + "(" + strings.Join(ss, ",") + ")"
	x.eval = func(l *Label) fres {
		return product(l, args, func(vs []fval) fval {
			for _, v := range vs {
				if v.err {
					return fErr
				}
			}
			if l.Ctx == nil {
				return fErr
			}
			return f(l.Ctx, vs)
		})
	}
	return x
}

func fctxPlus(a *fx) *fx {
	return fctxCall("ctxPlus", tI, func(c *ctxVals, vs []fval) fval { return vI(vs[0].i + c.v[tI].i) }, a)
}
func fctxSame(a *fx) *fx {
	return fctxCall("ctxSame", tB, func(c *ctxVals, vs []fval) fval { return vB(vs[0].s == c.v[tS].s) }, a)
}
func fctxSum(a, b *fx) *fx {
	return fctxCall("ctxSum", tI, func(c *ctxVals, vs []fval) fval {
		n := vs[1].i + c.v[tI].i
		for _, e := range vs[0].list {
			n += e.i
		}
		return vI(n)
	}, a, b)
}

// ---- histories

// ctxHistory: each step sets a context (1, 2: two contexts; m, n: a third context, with the value of the first or
// second, set again or for the first time; M, N: only the value of the third context is changed) and validates (lower
// case letter v after it) or not.
type ctxState struct {
	ctxs [3]*funcs.Context
	cur  *ctxVals // what the model sees
	m    bool     // the third context is the current one
}

func (s *ctxState) step(op byte, set func(*funcs.Context)) {
	vals := map[byte]*ctxVals{'1': ctx1, '2': ctx2, 'm': ctx1, 'n': ctx2, 'M': ctx1, 'N': ctx2}[op]
	switch op {
	case '-':
		return
	case '1':
		set(s.ctxs[0])
		s.cur, s.m = ctx1, false
	case '2':
		set(s.ctxs[1])
		s.cur, s.m = ctx2, false
	case 'm', 'n':
		s.ctxs[2].Value = vals
		set(s.ctxs[2])
		s.cur, s.m = vals, true
	case 'M', 'N':
		s.ctxs[2].Value = vals
		if s.m {
			s.cur = vals
		}
	}
}

func newCtxState() *ctxState {
	return &ctxState{ctxs: [3]*funcs.Context{{Value: ctx1}, {Value: ctx2}, {Value: ctx1}}}
}

// allHistories of n steps; every step but the last with and without validation. A leading "-" validates without context.
func allHistories(ops string, n int) []string {
	hs := []string{""}
	for k := 0; k < n; k++ {
		var next []string
		for _, h := range hs {
			for _, o := range ops {
				next = append(next, h+string(o)+"v")
				if k < n-1 {
					next = append(next, h+string(o))
				}
			}
		}
		hs = next
	}
	return hs
}

func ctxUniverse(mk func(l *Label) *Label, size, width, depth int) *Universe {
	labels := []*Label{mk(strLabel("a")), mk(strLabel("b")), mk(intLabel(1)), mk(intLabel(2))}
	return newUniverse(labels, size, width, depth, func(l int) bool { return l < 2 })
}

func withCtx(c *ctxVals) func(l *Label) *Label {
	return func(l *Label) *Label {
		m := *l
		m.Ctx = c
		return &m
	}
}

var ctxEngines = []struct {
	name   string
	record bool
	prep   func(g *ast.Grammar) (*mem.Mem, error)
}{{"memoizing validator", false, mem.New}, {"record-optimised memoizing validator", true, mem.NewRecord}, {"prepared validator", false, relapse.Prepare}}

func ctxSpace(r *Run, sp *Space, size, width, depth int, hists []string) {
	us := map[*ctxVals]*Universe{}
	for _, c := range []*ctxVals{nil, ctx1, ctx2} {
		us[c] = ctxUniverse(withCtx(c), size, width, depth)
	}
	type ws struct {
		ms map[*ctxVals]*Matcher
		tp *TreeParser
	}
	workers := make([]*ws, 64)
	r.Par(sp.N, func(w, i int) {
		if workers[w] == nil {
			workers[w] = &ws{map[*ctxVals]*Matcher{}, newTreeParser(nil)}
			for c, u := range us {
				workers[w].ms[c] = newMatcher(u, nil)
			}
		}
		g := sp.At(i)
		if g == nil {
			return
		}
		text := g.Text()
		if !strings.Contains(text, "ctx") {
			return
		}
		s := workers[w]
		r.mark(w, func() string { return "grammar " + text })
		want := map[*ctxVals][]bool{}
		n := 0
		for c, u := range us {
			s.ms[c].Decls = g.Decls
			want[c] = make([]bool, len(u.Forests))
			n = len(u.Forests)
			for f := range u.Forests {
				want[c][f] = s.ms[c].Full(g.Main, f)
				if want[c][f] {
					r.accepts.Add(1)
				} else {
					r.rejects.Add(1)
				}
			}
		}
		steps := s.tp.Steps
		for _, e := range ctxEngines {
			if e.name == "prepared validator" && i%16 != 0 {
				continue
			}
			for _, h := range hists {
				at := "-"
				r.States.Add(int64(len(h)))
				err := guard(func() error {
					pg, err := relapse.Parse(text)
					if err != nil {
						return err
					}
					m, err := e.prep(pg)
					if err != nil {
						return fmt.Errorf("preparing fails: %v", err)
					}
					st := newCtxState()
					for k := 0; k < len(h); k++ {
						if h[k] != 'v' {
							st.step(h[k], m.SetContext)
							continue
						}
						u := us[st.cur]
						for f := 0; f < n; f++ {
							fo := u.Forests[f]
							if e.record && !fo.Unique {
								continue
							}
							s.tp.Init(fo.Trees)
							got, err := m.Validate(s.tp)
							if err != nil || got != want[st.cur][f] {
								at = showForest(fo.Trees)
								return fmt.Errorf("after %s: verdict %v, %v, but with the current context it is %v", h[:k+1], got, err, want[st.cur][f])
							}
						}
						r.Traces.Add(int64(n))
					}
					return nil
				})
				if err != nil {
					r.Violation(e.name+" | "+text+" | "+h+" | "+at, fmt.Sprintf("engine: %s\ngrammar: %s\nhistory: %s\ntree: %s\n%v", e.name, text, h, at, err),
						map[string]string{"engine": e.name, "grammar": text, "history": h, "tree": at})
				}
			}
		}
		r.Transitions.Add(s.tp.Steps - steps)
		if n := r.sampleTick.Add(1); n&(n-1) == 0 {
			r.Sample("grammar %.200s under %d histories", text, len(hists))
		}
	})
	r.Bound("%s: %d grammars (those with a context function) x %d histories x %d trees x 2 validators", sp.Name, sp.N, len(hists), len(us[nil].Forests))
}

// ctxFuncs checks boolean functions as leaves.
func ctxFuncs(r *Run, name string, fs []*fx, hists []string) {
	base := append([]*Label{}, flabels()...)
	tps := make([]*TreeParser, 64)
	seen := map[string]bool{}
	var list []*fx
	for _, f := range fs {
		if !seen[f.text] && strings.Contains(f.text, "ctx") {
			seen[f.text] = true
			list = append(list, f)
		}
	}
	r.Par(len(list), func(w, i int) {
		f := list[i]
		if tps[w] == nil {
			tps[w] = newTreeParser(nil)
		}
		tp := tps[w]
		r.mark(w, func() string { return "function " + f.text })
		for _, h := range hists {
			at := "-"
			r.States.Add(int64(len(h)))
			err := guard(func() error {
				g, err := relapse.Parse("->" + f.text)
				if err != nil {
					return err
				}
				m, err := relapse.Prepare(g)
				if f.cerr {
					if err == nil {
						return fmt.Errorf("is prepared, but an error should be reported")
					}
					return nil
				}
				if err != nil {
					return fmt.Errorf("preparing fails: %v", err)
				}
				st := newCtxState()
				for k := 0; k < len(h); k++ {
					if h[k] != 'v' {
						st.step(h[k], m.SetContext)
						continue
					}
					for _, l := range base {
						l2 := *l
						l2.Ctx = st.cur
						want := f.eval(&l2)
						tp.Init([]*Tree{{L: l, Leaf: true}})
						v, err := m.Validate(tp)
						c := byte('F')
						if err != nil {
							c = 'E'
						} else if v {
							c = 'T'
						}
						if !allowed(want, c) {
							at = l.Show()
							return fmt.Errorf("after %s: gives %c, but the language says %s", h[:k+1], c, showRes(want))
						}
					}
					r.Traces.Add(int64(len(base)))
					r.Transitions.Add(int64(len(base)))
				}
				return nil
			})
			if err != nil {
				r.Violation("function | "+f.text+" | "+h+" | "+at, fmt.Sprintf("function: %s\nhistory: %s\nvalue: %s\n%v", f.text, h, at, err),
					map[string]string{"function": f.text, "history": h, "value": at})
			}
		}
		if f.cerr {
			r.rejects.Add(1)
		} else {
			r.accepts.Add(1)
		}
		if n := r.sampleTick.Add(1); n&(n-1) == 0 {
			r.Sample("function %.200s under %d histories", f.text, len(hists))
		}
	})
	r.Bound("%s: %d functions x %d histories x %d values", name, len(list), len(hists), len(base))
}

func ctxPool(t fty) []*fx {
	p := fpool(t)
	out := []*fx{fctx(t), p[1], p[len(p)-1]}
	if t.isList() {
		s := t.single()
		out = append(out, flist(s, fctx(s)), flist(s, fconsts(s)[1], fctx(s), fvar(s)))
	}
	if t == tI {
		out = append(out, fctxPlus(fvar(tI)), fctxPlus(fctx(tI)), fctxSum(flist(tI, fctx(tI), fvar(tI)), fctx(tI)), fctxSum(fctx(tLI), fctxPlus(fconst("1", vI(1)))))
	}
	if t == tB {
		out = append(out, fctxSame(fvar(tS)), fctxSame(fctx(tS)), fctxSame(fcall("toLower", fvar(tS))))
	}
	return out
}

func checkC29(r *Run) {
	r.Assume("the user's functions report that they have a variable (they are not constants) and read the context when they are evaluated")
	r.Assume("oracle: the same reference models as C01 and C09, over labels that carry the current context")
	registerCtxFuncs()
	is := func(t fty, f func(l *Label, v fval) bool) func(l *Label) bool {
		return func(l *Label) bool { return l.Ctx != nil && f(l, l.Ctx.v[t]) }
	}
	eqI := pr("->eq($int,ctxI())", is(tI, func(l *Label, v fval) bool { return l.HasI && l.I == v.i }))
	eqB := pr("== ctxI()", eqI.F)
	notI := pr("->not(eq($int,ctxI()))", func(l *Label) bool { return !eqI.F(l) })
	eqS := pr("->eq(ctxS(),$string)", is(tS, func(l *Label, v fval) bool { return l.HasS && l.S == v.s }))
	orI := pr("->or(eq($int,1),eq($int,ctxI()))", func(l *Label) bool { return eq1.F(l) || eqI.F(l) })
	andI := pr("->and(ge($int,0),le($int,ctxI()))", is(tI, func(l *Label, v fval) bool { return l.HasI && l.I >= 0 && l.I <= v.i }))
	ltE := pr("->lt($int,elem([]int{2,ctxPlus(0)},1))", is(tI, func(l *Label, v fval) bool { return l.HasI && l.I < v.i }))
	onlyB := pr("->eq(ctxB(),true)", is(tB, func(l *Label, v fval) bool { return v.b }))

	atoms := pool([]*Pat{pEmpty(), pAny(), pNone(), mkNode(nA, pAny()), mkLeaf(eq1), mkLeaf(eqI), mkLeaf(eqS), mkNode(nA, mkLeaf(eqB)), mkNode(nAny, mkLeaf(notI)), mkLeaf(orI), mkLeaf(ltE)})
	names := []*Pred{nA, nNotA}
	p1 := pool(append(append(append([]*Pat{}, atoms...), unary(atoms, names)...), binary(atoms, atoms)...))
	hist3 := []string{"v1vMv2v1v", "1vNv2vmvNv1v", "mvNvMv2v1v"}
	ctxSpace(r, patSpace("patterns of depth 1", p1), 3, 3, 2, hist3)
	var full []string
	n := 3
	if r.Thorough {
		n = 4
	}
	full = append(full, allHistories("12mN", n)...)
	for _, h := range allHistories("12mN", n-1) {
		full = append(full, "v"+h)
	}
	ctxSpace(r, patSpace("patterns of depth 1, all histories", pool(append(append(unary(atoms, names), binary(atoms[5:9], atoms[5:9])...), atoms...))), 2, 2, 2, full)
	leafs := pool([]*Pat{mkLeaf(eqI), mkLeaf(eqB), mkLeaf(notI), mkLeaf(eqS), mkLeaf(orI), mkLeaf(andI), mkLeaf(ltE), mkLeaf(onlyB), mkLeaf(eq1), mkLeaf(eqsA), mkLeaf(fNot1), mkNode(nA, mkLeaf(eqI)), mkNode(nNotA, mkLeaf(andI)), mkNode(nAny, mkLeaf(eqI)), mkNode(nAny, mkNode(nAny, mkLeaf(eqI)))})
	pairs := binary(leafs, leafs)
	ctxSpace(r, patSpace("binary operators over leaves with context functions", pairs), 2, 2, 2, hist3)
	few := pool([]*Pat{mkLeaf(eqI), mkLeaf(notI), mkLeaf(eqS), mkNode(nA, pAny()), mkNode(nAny, mkLeaf(eqI))})
	ctxSpace(r, pairSpace("triples of leaves with context functions", few, pool(pairs), []Op{OpOr, OpAnd, OpInterleave, OpConcat}, true), 2, 2, 2, hist3[:1])
	ctxSpace(r, pairSpace("binary operators over depth 0 x depth 1", atoms, p1, binOps, true), 2, 2, 2, hist3[1:2])
	ctxSpace(r, ctxRefSpace(eqI, notI, eqB), 3, 3, 3, hist3)
	if r.Thorough {
		ctxSpace(r, pairSpace("binary operators over depth 0 x depth 1, 3 nodes", atoms, p1, binOps, true), 3, 3, 3, hist3)
		ctxSpace(r, pairSpace("binary operators over depth 1 x depth 1", p1, p1, binOps, false), 2, 2, 2, hist3[1:2])
	}

	// functions: a context function in every argument
	d1 := allCalls(notPrint, ctxPool)
	var b1, rest []*fx
	for _, f := range d1 {
		if f.t == tB {
			b1 = append(b1, f)
		} else {
			rest = append(rest, f)
		}
	}
	var obs []*fx
	for _, f := range rest {
		if strings.Contains(f.text, "ctx") {
			obs = append(obs, observe(f)...)
		}
	}
	fh := []string{"v1vNv2vmvNv1v", "1vmvN2v"}
	b1 = append(b1, ctxPool(tB)...)
	for t := tD; t <= tY; t++ {
		b1 = append(b1, observe(fctx(t))...)
		b1 = append(b1, observe(fctx(t.list()))...)
	}
	ctxFuncs(r, "functions with a context function in every argument", b1, fh)
	ctxFuncs(r, "values of non-boolean functions with a context function in every argument", obs, fh[:1])
	var reps []*fx
	I, S := fvar(tI), fvar(tS)
	reps = append(reps, fctx(tB), fcall("eq", I, fctx(tI)), fcall("eq", fctx(tS), S), fctxSame(S), fcall("lt", I, fctxPlus(I)), fcall("eq", I, fconst("1", vI(1))), fvar(tB), fconst("true", vB(true)), fconst("false", vB(false)),
		fcall("contains", S, fctx(tS)), fcall("type", fctx(tI)), fcall("type", fctxPlus(I)))
	var ops []*fx
	for _, f := range reps {
		ops = append(ops, fcall("not", f), fcall("not", fcall("not", f)))
		for _, g := range reps {
			for _, o := range []string{"and", "or"} {
				h := fcall(o, f, g)
				ops = append(ops, h, fcall("not", h), fcall(o, fcall("not", f), g), fcall(o, f, fcall("not", g)), fcall("eq", h, fconst("true", vB(true))))
				for _, k := range reps {
					for _, p := range []string{"and", "or"} {
						ops = append(ops, fcall(p, h, k), fcall(p, k, h))
					}
				}
			}
		}
	}
	ctxFuncs(r, "boolean operators over context functions", ops, fh[:1])
	exploreLongContexts(r, map[bool]int{false: 34, true: 66}[r.Thorough])
}

func ctxRefSpace(ps ...*Pred) *Space {
	x, y := mkRef("x"), mkRef("y")
	mains := []*Pat{x, mk(OpNot, x, nil), mk(OpContains, x, nil), mk(OpConcat, x, y), mk(OpInterleave, x, y), mk(OpAnd, x, y), mk(OpOr, x, y), mk(OpStar, x, nil), mk(OpOptional, x, nil), mk(OpConcat, x, mkLeaf(ps[0])), mkNode(nA, x)}
	var bodies []*Pat
	for _, ref := range []*Pat{x, y} {
		node := mkNode(nA, ref)
		for _, p := range ps {
			leaf := mkLeaf(p)
			bodies = append(bodies, mk(OpOr, node, leaf), mk(OpStar, mk(OpOr, node, leaf), nil), mk(OpConcat, node, mk(OpOptional, leaf, nil)), mk(OpInterleave, mk(OpOptional, node, nil), mk(OpStar, leaf, nil)), mk(OpAnd, mk(OpNot, node, nil), mk(OpContains, leaf, nil)))
		}
	}
	for _, p := range ps {
		bodies = append(bodies, mkLeaf(p), mk(OpStar, mkLeaf(p), nil))
	}
	bodies = append(bodies, pEmpty())
	n := len(bodies)
	return &Space{"two mutually recursive references", len(mains) * n * n, func(i int) *Gram {
		return &Gram{Main: mains[i%len(mains)], Names: []string{"x", "y"}, Decls: map[string]*Pat{"x": bodies[i/len(mains)%n], "y": bodies[i/len(mains)/n]}}
	}}
}

func init() { register("C29", checkC29) }
