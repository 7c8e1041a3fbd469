package main

import (
	"fmt"
	"strings"

	"github.com/katydid/katydid/relapse"
)

// Context functions in every place of long lists, chains, grammars and nested patterns.

func longCtxFuncs(n int) []*fx {
	var out []*fx
	ks := map[int]bool{0: true, 1: true, n / 2: true, n - 2: true, n - 1: true}
	for k := range ks {
		if k < 0 || k >= n {
			continue
		}
		for t := tD; t <= tY; t++ {
			es := make([]*fx, n)
			for i := range es {
				es[i] = fitem(t, i+10)
			}
			es[k] = fctx(t)
			l := flist(t, es...)
			e := fcall("elem", l, fint(k))
			out = append(out, fcall("eq", e, fvar(t)), fcall("eq", e, fctx(t)), fcall("eq", fcall("elem", l, fint(n-1)), fvar(t)))
			if t == tI || t == tU || t == tS {
				out = append(out, fcall("contains", fvar(t), l))
			}
			if t == tI {
				out = append(out, fcall("eq", fctxSum(l, fint(k)), fctxSum(flist(tI, fctx(tI)), fvar(tI))))
			}
		}
		for _, op := range []string{"and", "or"} {
			as := make([]*fx, n)
			for i := range as {
				as[i] = fcall("ne", fvar(tI), fint(i+10))
				if op == "or" {
					as[i] = fcall("eq", fvar(tI), fint(i+10))
				}
			}
			as[k] = fcall("eq", fvar(tI), fctx(tI))
			left, right := as[0], as[n-1]
			for i := 1; i < n; i++ {
				left, right = fcall(op, left, as[i]), fcall(op, as[n-1-i], right)
			}
			out = append(out, left, right, fcall("not", left), fcall("not", right))
		}
	}
	not, plus, low := fcall("eq", fvar(tI), fctx(tI)), fctx(tI), fctx(tS)
	for i := 0; i < n; i++ {
		not, plus, low = fcall("not", not), fctxPlus(plus), fcall("toLower", low)
	}
	return append(out, not, fcall("ge", plus, fvar(tI)), fcall("eq", low, fvar(tS)), fctxSame(low))
}

func exploreLongContexts(r *Run, max int) {
	hs := []string{"v1vNv2vmvNv1v"}
	var fs []*fx
	for _, n := range longSynSizes(max) {
		fs = append(fs, longCtxFuncs(n)...)
	}
	ctxFuncs(r, fmt.Sprintf("context functions in lists and chains of up to %d", max), fs, hs)

	// grammars with n operands or n levels, one of which depends on the context
	leaf := mkLeaf(pr("->eq($int,ctxI())", func(l *Label) bool { return l.Ctx != nil && l.HasI && l.I == l.Ctx.v[tI].i }))
	type job struct {
		g *Gram
		n int
		k int
	}
	var jobs []job
	nested := func(n int, inner *Pat, f func(i int, p *Pat) *Pat) *Pat {
		for i := n - 1; i >= 0; i-- {
			inner = f(i, inner)
		}
		return inner
	}
	for _, n := range longSynSizes(max) {
		ks := map[int]bool{0: true, n / 2: true, n - 1: true}
		for k := range ks {
			k := k
			at := func(i int) *Pat {
				nm := pr(fmt.Sprintf("k%d", i), isStr(fmt.Sprintf("k%d", i)))
				if i == k {
					return mkNode(nm, leaf)
				}
				return mkNode(nm, pAny())
			}
			ps := make([]*Pat, n)
			for i := range ps {
				ps[i] = at(i)
			}
			for _, op := range []Op{OpConcat, OpOr, OpInterleave} {
				left := ps[0]
				for _, p := range ps[1:] {
					left = mk(op, left, p)
				}
				jobs = append(jobs, job{&Gram{Main: refFold(op, ps)}, n, k}, job{&Gram{Main: left}, n, k})
			}
			cs := make([]*Pat, n)
			ns := make([]*Pat, n)
			for i := range cs {
				cs[i] = mk(OpContains, ps[i], nil)
				ns[i] = mk(OpNot, mk(OpContains, at(i), nil), nil)
			}
			jobs = append(jobs, job{&Gram{Main: refFold(OpAnd, cs)}, n, k}, job{&Gram{Main: refFold(OpOr, ns)}, n, k}, job{&Gram{Main: mk(OpNot, refFold(OpOr, cs), nil)}, n, k})
			g := &Gram{Main: mkRef("x0"), Decls: map[string]*Pat{}}
			for i := 0; i < n; i++ {
				p := at(i)
				if i+1 < n {
					p = mk(OpConcat, p, mkRef(fmt.Sprintf("x%d", i+1)))
				}
				name := fmt.Sprintf("x%d", i)
				g.Names, g.Decls[name] = append(g.Names, name), p
			}
			jobs = append(jobs, job{g, n, k})
		}
		for name, f := range map[string]func(i int, p *Pat) *Pat{
			"nodes": func(i int, p *Pat) *Pat { return mkNode(nA, p) },
			"stars": func(i int, p *Pat) *Pat { return mkNode(nA, mk(OpStar, p, nil)) },
			"nots":  func(i int, p *Pat) *Pat { return mkNode(nA, mk(OpNot, p, nil)) },
			"path":  func(i int, p *Pat) *Pat { return mk(OpContains, mkNode(nA, p), nil) },
			"many": func(i int, p *Pat) *Pat {
				return []*Pat{mk(OpOptional, p, nil), mk(OpNot, p, nil), mk(OpOr, p, pEmpty()), mk(OpAnd, pAny(), p), mk(OpConcat, p, pEmpty()), mkNode(nA, p)}[i%6]
			},
		} {
			_ = name
			jobs = append(jobs, job{&Gram{Main: nested(n, leaf, f)}, n, -1})
			g := &Gram{Main: mkRef("x0"), Decls: map[string]*Pat{}}
			for i := 0; i < n; i++ {
				next := leaf
				if i+1 < n {
					next = mkRef(fmt.Sprintf("x%d", i+1))
				}
				nm := fmt.Sprintf("x%d", i)
				g.Names, g.Decls[nm] = append(g.Names, nm), f(i, next)
			}
			jobs = append(jobs, job{g, n, -1})
		}
	}
	r.Par(len(jobs), func(w, i int) { checkLongCtx(r, w, jobs[i].g, jobs[i].n, jobs[i].k, hs[0]) })
	r.Bound("a context function in one of up to %d operands or under that many levels: %d grammars x 2 validators", max, len(jobs))
}

func checkLongCtx(r *Run, w int, g *Gram, n, k int, h string) {
	text := g.Text()
	r.mark(w, func() string { return "grammar " + text })
	fs := map[*ctxVals][]*LForest{}
	want := map[*ctxVals][]bool{}
	for _, c := range []*ctxVals{nil, ctx1, ctx2} {
		b := &longBuilder{}
		with := withCtx(c)
		none := b.forest("empty", nil, nil)
		one, two := b.forest("1", []*Label{with(intLabel(1))}, []*LForest{none}), b.forest("2", []*Label{with(intLabel(2))}, []*LForest{none})
		out := []*LForest{none, one, two}
		if k >= 0 {
			for _, v := range []*LForest{one, two, none} {
				var ls []*Label
				var ks []*LForest
				for i := 0; i < n; i++ {
					ls, ks = append(ls, with(wk(i))), append(ks, v)
				}
				out = append(out, b.forest("all "+v.Name, ls, ks), b.forest("one "+v.Name, ls[k:k+1], ks[k:k+1]), b.forest("until "+v.Name, ls[:k+1], ks[:k+1]), b.forest("from "+v.Name, ls[k:], ks[k:]))
			}
		} else {
			for d := 0; d <= n+1; d++ {
				if d > 3 && d < n-1 && d != n/2 && d != n/6 && d != n/6+1 {
					continue
				}
				for _, v := range []*LForest{one, two, none} {
					f := v
					for i := 0; i < d; i++ {
						f = b.forest(fmt.Sprintf("a^%d %s", d, v.Name), []*Label{with(strLabel("a"))}, []*LForest{f})
					}
					out = append(out, f)
				}
			}
		}
		m := &LMatcher{decls: g.Decls, memo: map[lkey]bitset{}, b: b, split: map[lkey]*LForest{}}
		for _, f := range out {
			want[c] = append(want[c], m.full(g.Main, f))
			if m.full(g.Main, f) {
				r.accepts.Add(1)
			} else {
				r.rejects.Add(1)
			}
		}
		fs[c] = out
	}
	tp := newTreeParser(nil)
	for _, e := range ctxEngines[:2] {
		at := "-"
		err := guard(func() error {
			pg, err := relapse.Parse(text)
			if err != nil {
				return err
			}
			m, err := e.prep(pg)
			if err != nil {
				return fmt.Errorf("preparing fails: %v", err)
			}
			st := newCtxState()
			for p := 0; p < len(h); p++ {
				if h[p] != 'v' {
					st.step(h[p], m.SetContext)
					continue
				}
				for f, fo := range fs[st.cur] {
					if e.record && !fo.unique {
						continue
					}
					tp.Init(fo.Trees)
					got, err := m.Validate(tp)
					if err != nil || got != want[st.cur][f] {
						at = fo.Name
						return fmt.Errorf("after %s: verdict %v, %v, but with the current context it is %v", h[:p+1], got, err, want[st.cur][f])
					}
				}
				r.States.Add(int64(len(fs[st.cur])))
				r.Traces.Add(int64(len(fs[st.cur])))
			}
			return nil
		})
		if err != nil {
			r.Violation(e.name+" | "+text+" | "+h+" | "+at, fmt.Sprintf("engine: %s\ngrammar: %s\nhistory: %s\ntree: %s\n%v", e.name, text, h, at, err),
				map[string]string{"engine": e.name, "grammar": text, "history": h, "tree": at})
		}
	}
	r.Transitions.Add(tp.Steps)
	if c := r.sampleTick.Add(1); c&(c-1) == 0 {
		r.Sample("grammar %s", strings.TrimSpace(fmt.Sprintf("%.200s", text)))
	}
}
