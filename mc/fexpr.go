package main

import (
	"bytes"
	"fmt"
	"math"
	"regexp"
	"strings"

	"github.com/katydid/katydid/relapse"
	"github.com/katydid/katydid/relapse/ast"
	"github.com/katydid/katydid/relapse/compose"
	"github.com/katydid/katydid/relapse/funcs"
)

// ---- a reference model of the function language: typed expressions with an independent evaluator.

type fty int

const (
	tD fty = iota
	tI
	tU
	tB
	tS
	tY
	tLD
	tLI
	tLU
	tLB
	tLS
	tLY
)

var ftyNames = []string{"double", "int", "uint", "bool", "string", "[]byte", "[]double", "[]int", "[]uint", "[]bool", "[]string", "[][]byte"}

func (t fty) list() fty   { return t + 6 }
func (t fty) single() fty { return t - 6 }
func (t fty) isList() bool {
	return t >= tLD
}

// fval is a value, or an error.
type fval struct {
	err  bool
	t    fty
	d    float64
	i    int64
	u    uint64
	b    bool
	s    string
	list []fval
}

var fErr = fval{err: true}

func vD(d float64) fval { return fval{t: tD, d: d} }
func vI(i int64) fval   { return fval{t: tI, i: i} }
func vU(u uint64) fval  { return fval{t: tU, u: u} }
func vB(b bool) fval    { return fval{t: tB, b: b} }
func vS(s string) fval  { return fval{t: tS, s: s} }
func vY(y []byte) fval  { return fval{t: tY, s: string(y)} }

// fres is the set of outcomes the language allows. It has one element, except that inside the boolean
// operators an error counts as false, so that a false composition with a failing operand may also be an error.
type fres struct {
	vs  []fval
	sub bool // a boolean operand below can fail
}

func (r fres) hasErr() bool {
	for _, v := range r.vs {
		if v.err {
			return true
		}
	}
	return false
}

type fx struct {
	text   string
	t      fty
	hasVar bool
	cerr   bool // compiling must report an error
	isCons bool
	isVar  bool
	name   string
	args   []*fx
	eval   func(l *Label) fres
}

func one(v fval) fres { return fres{vs: []fval{v}} }

func fconst(text string, v fval) *fx {
	return &fx{text: text, t: v.t, isCons: true, eval: func(*Label) fres { return one(v) }}
}

func fvar(t fty) *fx {
	return &fx{text: "$" + ftyNames[t], t: t, hasVar: true, isVar: true, eval: func(l *Label) fres {
		switch {
		case t == tD && l.HasD:
			return one(vD(l.D))
		case t == tI && l.HasI:
			return one(vI(l.I))
		case t == tU && l.HasU:
			return one(vU(l.U))
		case t == tB && l.HasB:
			return one(vB(l.B))
		case t == tS && l.HasS:
			return one(vS(l.S))
		case t == tY && l.HasY:
			return one(vY(l.Y))
		}
		return one(fErr)
	}}
}

func flist(t fty, es ...*fx) *fx {
	f := &fx{t: t.list(), args: es}
	ss := make([]string, len(es))
	for i, e := range es {
		ss[i] = e.text
		f.hasVar = f.hasVar || e.hasVar
		f.cerr = f.cerr || e.cerr || e.t != t
	}
	f.text = ftyNames[t.list()] + "{" + strings.Join(ss, ",") + "}"
	f.eval = func(l *Label) fres {
		return product(l, es, func(vs []fval) fval {
			for _, v := range vs {
				if v.err {
					return fErr
				}
			}
			return fval{t: t.list(), list: vs}
		})
	}
	return f
}

// product applies f to every combination of the outcomes of the arguments.
func product(l *Label, args []*fx, f func(vs []fval) fval) fres {
	return productOf(evalAll(l, args), f)
}

func evalAll(l *Label, args []*fx) []fres {
	rs := make([]fres, len(args))
	for i, a := range args {
		rs[i] = a.eval(l)
	}
	return rs
}

func productOf(rs []fres, f func(vs []fval) fval) fres {
	n := 1
	for i := range rs {
		n *= len(rs[i].vs)
	}
	var out fres
	for k := 0; k < n; k++ {
		vs := make([]fval, len(rs))
		x := k
		for i := range rs {
			vs[i] = rs[i].vs[x%len(rs[i].vs)]
			x /= len(rs[i].vs)
		}
		v := f(vs)
		dup := false
		for _, o := range out.vs {
			if o.err == v.err && fmt.Sprint(o) == fmt.Sprint(v) {
				dup = true
			}
		}
		if !dup {
			out.vs = append(out.vs, v)
		}
	}
	return out
}

type fsig struct {
	name string
	in   []fty
	out  fty
}

// fsigs are the registered signatures, written down from the documentation of the functions.
var fsigs = func() []fsig {
	var out []fsig
	add := func(name string, o fty, in ...fty) { out = append(out, fsig{name, in, o}) }
	for _, op := range []string{"ge", "gt", "le", "lt"} {
		for _, t := range []fty{tD, tI, tU, tY} {
			add(op, tB, t, t)
		}
	}
	for t := tD; t <= tY; t++ {
		add("eq", tB, t, t)
		add("ne", tB, t, t)
		add("elem", t, t.list(), tI)
		add("range", t.list(), t.list(), tI, tI)
		add("length", tI, t.list())
		add("type", tB, t)
		add("print", t, t)
		add("print", t.list(), t.list())
	}
	add("length", tI, tS)
	add("length", tI, tY)
	add("contains", tB, tS, tS)
	add("contains", tB, tI, tLI)
	add("contains", tB, tU, tLU)
	add("contains", tB, tS, tLS)
	add("eqFold", tB, tS, tS)
	add("hasPrefix", tB, tS, tS)
	add("hasSuffix", tB, tS, tS)
	add("toLower", tS, tS)
	add("toUpper", tS, tS)
	add("regex", tB, tS, tS)
	add("not", tB, tB)
	add("and", tB, tB, tB)
	add("or", tB, tB, tB)
	add("now", tI)
	return out
}()

func findSig(name string, args []*fx) *fsig {
next:
	for i := range fsigs {
		s := &fsigs[i]
		if s.name != name || len(s.in) != len(args) {
			continue
		}
		for j := range args {
			if s.in[j] != args[j].t {
				continue next
			}
		}
		return s
	}
	return nil
}

func fcall(name string, args ...*fx) *fx {
	f := &fx{name: name, args: args}
	ss := make([]string, len(args))
	for i, a := range args {
		ss[i] = a.text
		f.hasVar = f.hasVar || a.hasVar
		f.cerr = f.cerr || a.cerr
	}
	f.text = name + "(" + strings.Join(ss, ",") + ")"
	sig := findSig(name, args)
	if sig == nil {
		f.cerr = true
		f.t = tB
		return f
	}
	f.t = sig.out
	if f.cerr {
		return f
	}
	none := &Label{}
	switch {
	case name == "print" || name == "now":
		f.hasVar = true
	case name == "regex":
		if args[0].hasVar {
			f.cerr = true
			return f
		}
		p := args[0].eval(none).vs[0]
		if p.err {
			f.cerr = true
			return f
		}
		r, err := regexp.Compile(p.s)
		if err != nil {
			f.cerr = true
			return f
		}
		f.eval = func(l *Label) fres {
			return product(l, args[1:], func(vs []fval) fval {
				if vs[0].err {
					return fErr
				}
				return vB(r.MatchString(vs[0].s))
			})
		}
		return f
	case name == "contains" && args[1].t.isList():
		if args[1].hasVar || args[1].eval(none).hasErr() {
			f.cerr = true
			return f
		}
	case name == "not" || name == "and" || name == "or":
		f.eval = func(l *Label) fres {
			rs := evalAll(l, args)
			res := productOf(rs, func(vs []fval) fval {
				b := func(i int) bool { return !vs[i].err && vs[i].b }
				switch name {
				case "not":
					return vB(!b(0))
				case "and":
					return vB(b(0) && b(1))
				}
				return vB(b(0) || b(1))
			})
			for _, r := range rs {
				if r.hasErr() || r.sub {
					res.sub = true
				}
			}
			if res.sub {
				for _, v := range res.vs {
					if !v.b {
						res.vs = append(res.vs, fErr)
						break
					}
				}
			}
			return res
		}
		return f
	}
	f.eval = func(l *Label) fres {
		return product(l, args, func(vs []fval) fval { return fapply(name, vs) })
	}
	return f
}

func fcmp(a, b fval) (lt, eq bool) {
	switch a.t {
	case tD:
		return a.d < b.d, a.d == b.d
	case tI:
		return a.i < b.i, a.i == b.i
	case tU:
		return a.u < b.u, a.u == b.u
	case tB:
		return !a.b && b.b, a.b == b.b
	case tS:
		return a.s < b.s, a.s == b.s
	case tY:
		c := bytes.Compare([]byte(a.s), []byte(b.s))
		return c < 0, c == 0
	}
	panic("type")
}

func fapply(name string, vs []fval) fval {
	anyErr := false
	for _, v := range vs {
		anyErr = anyErr || v.err
	}
	switch name {
	case "ge", "gt", "le", "lt", "eq", "ne":
		if anyErr {
			return vB(false)
		}
		lt, eq := fcmp(vs[0], vs[1])
		nan := vs[0].t == tD && (math.IsNaN(vs[0].d) || math.IsNaN(vs[1].d))
		switch name {
		case "ge":
			return vB(!lt && !nan)
		case "gt":
			return vB(!lt && !eq && !nan)
		case "le":
			return vB(lt || eq)
		case "lt":
			return vB(lt)
		case "eq":
			return vB(eq)
		}
		return vB(!eq)
	case "type":
		return vB(!anyErr)
	}
	if anyErr {
		return fErr
	}
	index := func(i int64, n int) int {
		if i < 0 {
			i = i % int64(n)
			if i < 0 {
				i += int64(n)
			}
		}
		if i > math.MaxInt32 {
			return math.MaxInt32
		}
		return int(i)
	}
	switch name {
	case "elem":
		n := len(vs[0].list)
		if n == 0 {
			return fErr
		}
		i := index(vs[1].i, n)
		if i >= n {
			return fErr
		}
		return vs[0].list[i]
	case "range":
		n := len(vs[0].list)
		if n == 0 {
			return fErr
		}
		a, b := index(vs[1].i, n), index(vs[2].i, n)
		if a > n || b > n || a > b {
			return fErr
		}
		return fval{t: vs[0].t, list: vs[0].list[a:b]}
	case "length":
		if vs[0].t.isList() {
			return vI(int64(len(vs[0].list)))
		}
		return vI(int64(len(vs[0].s)))
	case "contains":
		if vs[1].t == tS {
			return vB(strings.Contains(vs[0].s, vs[1].s))
		}
		for _, x := range vs[1].list {
			if _, eq := fcmp(vs[0], x); eq {
				return vB(true)
			}
		}
		return vB(false)
	case "eqFold":
		return vB(strings.EqualFold(vs[0].s, vs[1].s))
	case "hasPrefix":
		return vB(len(vs[0].s) >= len(vs[1].s) && vs[0].s[:len(vs[1].s)] == vs[1].s)
	case "hasSuffix":
		return vB(len(vs[0].s) >= len(vs[1].s) && vs[0].s[len(vs[0].s)-len(vs[1].s):] == vs[1].s)
	case "toLower":
		return vS(strings.ToLower(vs[0].s))
	case "toUpper":
		return vS(strings.ToUpper(vs[0].s))
	case "print":
		return vs[0]
	}
	panic("function " + name)
}

// ---- terminals, lists and labels

func fconsts(t fty) []*fx {
	switch t {
	case tD:
		return []*fx{fconst("double(-1)", vD(-1)), fconst("double(0)", vD(0)), fconst("double(1)", vD(1)), fconst("double(1.5)", vD(1.5))}
	case tI:
		return []*fx{fconst("-1", vI(-1)), fconst("0", vI(0)), fconst("1", vI(1)), fconst("2", vI(2))}
	case tU:
		return []*fx{fconst("uint(0)", vU(0)), fconst("uint(1)", vU(1)), fconst("uint(2)", vU(2))}
	case tB:
		return []*fx{fconst("true", vB(true)), fconst("false", vB(false))}
	case tS:
		return []*fx{fconst(`""`, vS("")), fconst(`"a"`, vS("a")), fconst(`"ab"`, vS("ab")), fconst(`"B"`, vS("B"))}
	case tY:
		return []*fx{fconst("[]byte{}", vY(nil)), fconst("[]byte{0x61}", vY([]byte{0x61})), fconst("[]byte{0x61,0x62}", vY([]byte{0x61, 0x62}))}
	}
	panic("no constants")
}

func fterms(t fty) []*fx { return append(fconsts(t), fvar(t)) }

func flists(t fty) []*fx {
	cs := fconsts(t)
	n := len(cs)
	out := []*fx{flist(t), flist(t, cs[1]), flist(t, cs[0], cs[1]), flist(t, cs[1], cs[1], cs[n-1]), flist(t, fvar(t)), flist(t, cs[1], fvar(t))}
	return out
}

// more constants, at the boundaries
func fextremes(t fty) []*fx {
	switch t {
	case tD:
		return []*fx{fconst("double(1.7976931348623157e308)", vD(math.MaxFloat64)), fconst("double(5e-324)", vD(5e-324)), fconst("double(-0.0)", vD(math.Copysign(0, -1))), fconst("double(9007199254740993)", vD(9007199254740992))}
	case tI:
		return []*fx{fconst("9223372036854775807", vI(math.MaxInt64)), fconst("-9223372036854775808", vI(math.MinInt64)), fconst("9007199254740993", vI(9007199254740993))}
	case tU:
		return []*fx{fconst("uint(18446744073709551615)", vU(math.MaxUint64)), fconst("uint(9223372036854775808)", vU(1<<63))}
	case tS:
		return []*fx{fconst(`"日"`, vS("日")), fconst(`"\xff"`, vS("\xff")), fconst(`"K"`, vS("K")), fconst("\"\u212a\"", vS("\u212a")), fconst(`"a,b)"`, vS("a,b)")), fconst(`"\""`, vS("\"")), fconst("\"`\"", vS("`")), fconst(`"\r\n\t\x00"`, vS("\r\n\t\x00"))}
	case tY:
		return []*fx{fconst("[]byte{255}", vY([]byte{255})), fconst("[]byte{0}", vY([]byte{0}))}
	}
	return nil
}

func flabels() []*Label {
	return []*Label{
		{}, strLabel("a"), strLabel(""), strLabel("ab"), strLabel("B"), strLabel("A"), intLabel(1), intLabel(-1), numLabel(1), numLabel(0), numLabel(2), numLabel(-1),
		{HasD: true, D: 1.5}, {HasD: true, D: math.NaN()}, {HasU: true, U: 2}, {HasU: true, U: 1}, boolLabel(true), boolLabel(false), bytesLabel(nil), bytesLabel([]byte("a")), bytesLabel([]byte("ab")),
		{HasS: true, S: "a", HasY: true, Y: []byte("a"), HasI: true, I: 1, HasU: true, U: 2, HasD: true, D: -1, HasB: true, B: true},
	}
}

func fextremeLabels() []*Label {
	return []*Label{intLabel(math.MaxInt64), intLabel(math.MinInt64), intLabel(9007199254740993), {HasU: true, U: math.MaxUint64}, {HasU: true, U: 1 << 63}, {HasD: true, D: math.MaxFloat64}, {HasD: true, D: math.Inf(1)}, {HasD: true, D: math.Copysign(0, -1)}, {HasD: true, D: 5e-324},
		strLabel("日"), strLabel("\xff"), strLabel("k"), strLabel("K"), strLabel("\u212a"), strLabel("a,b)"), strLabel("\""), strLabel("`"), strLabel("\r\n\t\x00"), bytesLabel([]byte{255}), bytesLabel([]byte{0}), numLabel(9007199254740993)}
}

// allCalls is every signature applied to every combination of arguments of the given pools.
func allCalls(keep func(s fsig) bool, pool func(t fty) []*fx) []*fx {
	var out []*fx
	for _, s := range fsigs {
		if !keep(s) {
			continue
		}
		idx := make([]int, len(s.in))
		pools := make([][]*fx, len(s.in))
		empty := false
		for i, t := range s.in {
			pools[i] = pool(t)
			empty = empty || len(pools[i]) == 0
		}
		for !empty {
			args := make([]*fx, len(s.in))
			for i := range args {
				args[i] = pools[i][idx[i]]
			}
			out = append(out, fcall(s.name, args...))
			k := 0
			for ; k < len(idx); k++ {
				idx[k]++
				if idx[k] < len(pools[k]) {
					break
				}
				idx[k] = 0
			}
			if k == len(idx) {
				break
			}
		}
	}
	return out
}

func fpool(t fty) []*fx {
	if t.isList() {
		return flists(t.single())
	}
	return fterms(t)
}

func notPrint(s fsig) bool { return s.name != "print" && s.name != "now" }

// observe turns a function of any type into boolean functions that together reveal its value or error.
func observe(f *fx) []*fx {
	var out []*fx
	switch {
	case f.t == tB:
		return []*fx{f, fcall("eq", f, fconst("true", vB(true))), fcall("ne", fconst("true", vB(true)), f), fcall("type", f)}
	case !f.t.isList():
		out = append(out, fcall("type", f))
		for _, c := range fconsts(f.t) {
			out = append(out, fcall("eq", f, c))
		}
	default:
		out = append(out, fcall("eq", fcall("length", f), fconst("2", vI(2))))
		for i := int64(0); i < 3; i++ {
			e := fcall("elem", f, fconst(fmt.Sprint(i), vI(i)))
			out = append(out, fcall("type", e))
			for _, c := range fconsts(e.t) {
				out = append(out, fcall("eq", e, c))
			}
		}
	}
	return out
}

// ---- the implementation

func compileText(text string) (funcs.Bool, error) {
	g, err := relapse.Parse(text)
	if err != nil {
		return nil, &parseErr{err}
	}
	return compose.NewBool(g.TopPattern.LeafNode.Expr)
}

type parseErr struct{ err error }

func (p *parseErr) Error() string { return "does not parse: " + p.err.Error() }

// outcomes evaluates a compiled function on every label: 'T', 'F' or 'E'.
func implOutcomes(f funcs.Bool, labels []*Label) (string, error) {
	b, err := compose.NewBoolFunc(f)
	if err != nil {
		return "", err
	}
	out := make([]byte, len(labels))
	for i, l := range labels {
		v, err := b.Eval(l)
		switch {
		case err != nil:
			out[i] = 'E'
		case v:
			out[i] = 'T'
		default:
			out[i] = 'F'
		}
	}
	return string(out), nil
}

func allowed(r fres, c byte) bool {
	for _, v := range r.vs {
		if v.err && c == 'E' || !v.err && v.b && c == 'T' || !v.err && !v.b && c == 'F' {
			return true
		}
	}
	return false
}

func showRes(r fres) string {
	var ss []string
	for _, v := range r.vs {
		switch {
		case v.err:
			ss = append(ss, "error")
		case v.b:
			ss = append(ss, "true")
		default:
			ss = append(ss, "false")
		}
	}
	return strings.Join(ss, " or ")
}

// boolSpace: the boolean functions explored by C09, C10 and C11, in named groups.
func boolSpace(level int) (names []string, groups [][]*fx) {
	add := func(name string, fs []*fx) {
		seen := map[string]bool{}
		var out []*fx
		for _, f := range fs {
			if !seen[f.text] {
				seen[f.text] = true
				out = append(out, f)
			}
		}
		names = append(names, name)
		groups = append(groups, out)
	}
	d1 := allCalls(notPrint, fpool)
	var b1, rest []*fx
	for _, f := range d1 {
		if f.t == tB {
			b1 = append(b1, f)
		} else {
			rest = append(rest, f)
		}
	}
	b1 = append(b1, fterms(tB)...)
	add("boolean functions of constants, variables and lists", b1)

	var obs []*fx
	for _, f := range rest {
		obs = append(obs, observe(f)...)
	}
	add("values of non-boolean functions", obs)

	// boolean functions over the results of functions: one argument nested, the others terminals
	byType := map[fty][]*fx{}
	for _, f := range rest {
		byType[f.t] = append(byType[f.t], f)
	}
	var nested []*fx
	for _, s := range fsigs {
		if !notPrint(s) || s.out != tB && level == 0 {
			continue
		}
		for k, t := range s.in {
			pool := byType[t]
			stride := 1
			if t.isList() && level == 0 {
				stride = 3
			}
			for i := 0; i < len(pool); i += stride {
				one := allCallsOf(s, func(j int, u fty) []*fx {
					if j == k {
						return []*fx{pool[i]}
					}
					p := fpool(u)
					if level == 0 && len(p) > 3 {
						p = []*fx{p[1], p[len(p)-2], p[len(p)-1]}
					}
					return p
				})
				for _, f := range one {
					if f.t == tB {
						nested = append(nested, f)
					} else if level > 0 {
						nested = append(nested, observe(f)...)
					}
				}
			}
		}
	}
	add("boolean functions over nested functions", nested)

	// boolean operators
	reps := boolReps()
	var ops []*fx
	for _, f := range b1 {
		ops = append(ops, fcall("not", f), fcall("not", fcall("not", f)))
	}
	for _, f := range reps {
		for _, g := range reps {
			for _, o := range []string{"and", "or"} {
				h := fcall(o, f, g)
				ops = append(ops, h, fcall("not", h), fcall(o, fcall("not", f), g), fcall(o, f, fcall("not", g)), fcall("eq", h, fconst("true", vB(true))))
			}
		}
	}
	add("boolean operators over pairs", ops)
	few := reps
	if level == 0 {
		few = append([]*fx{}, reps[:14]...)
	}
	var tri []*fx
	for _, f := range few {
		for _, g := range few {
			for _, h := range few {
				for _, o := range []string{"and", "or"} {
					for _, p := range []string{"and", "or"} {
						tri = append(tri, fcall(o, fcall(p, f, g), h), fcall(o, f, fcall(p, g, h)), fcall(o, fcall("not", fcall(p, f, g)), h))
						if level > 0 {
							tri = append(tri, fcall("not", fcall(o, fcall(p, f, fcall("not", g)), h)))
						}
					}
				}
			}
		}
	}
	add("boolean operators over triples", tri)

	var ext []*fx
	for _, f := range allCalls(func(s fsig) bool {
		return notPrint(s) && len(s.in) == 2 && s.out == tB && !s.in[1].isList() && s.in[0] != tB || s.name == "contains" || s.name == "toLower" || s.name == "toUpper" || s.name == "length" && !s.in[0].isList()
	}, func(t fty) []*fx {
		if t.isList() {
			s := t.single()
			ex := append(append([]*fx{}, fextremes(s)...), fconsts(s)...)
			return []*fx{flist(s, ex...), flist(s, ex[0])}
		}
		return append(append(fextremes(t), fvar(t)), fconsts(t)[1])
	}) {
		if f.t == tB {
			ext = append(ext, f, fcall("not", f))
		} else {
			ext = append(ext, observe(f)...)
		}
	}
	big := fconst("9223372036854775807", vI(math.MaxInt64))
	small := fconst("-9223372036854775808", vI(math.MinInt64))
	for t := tD; t <= tY; t++ {
		for _, l := range flists(t) {
			for _, i := range append(fextremes(tI), fconst("-2", vI(-2)), fconst("-3", vI(-3)), fconst("-4", vI(-4)), fconst("3", vI(3)), big, small) {
				ext = append(ext, observe(fcall("elem", l, i))...)
				ext = append(ext, observe(fcall("range", l, i, fconst("2", vI(2))))...)
				ext = append(ext, observe(fcall("range", l, fconst("0", vI(0)), i))...)
			}
		}
	}
	add("boundary values", ext)

	var re []*fx
	pats := []string{"", "a", "^a$", "a*", "[ab]+", "(a|B)", "(", "[", "a{2", "\\pL", "(?i)A", "a,b", "\\)", "^$", "."}
	for _, p := range pats {
		c := fconst(fmt.Sprintf("%q", p), vS(p))
		for _, s := range append(fterms(tS), fcall("toLower", fvar(tS)), fcall("elem", flist(tS, fvar(tS)), fconst("0", vI(0)))) {
			re = append(re, fcall("regex", c, s), fcall("not", fcall("regex", c, s)))
		}
		re = append(re, fcall("regex", fcall("toLower", c), fvar(tS)), fcall("regex", fcall("elem", flist(tS, c), fconst("0", vI(0))), fvar(tS)), fcall("regex", fcall("elem", flist(tS, c), fconst("1", vI(1))), fvar(tS)))
	}
	add("regular expressions", re)
	return
}

func allCallsOf(s fsig, pool func(i int, t fty) []*fx) []*fx {
	var out []*fx
	var rec func(args []*fx)
	rec = func(args []*fx) {
		if len(args) == len(s.in) {
			out = append(out, fcall(s.name, append([]*fx{}, args...)...))
			return
		}
		for _, a := range pool(len(args), s.in[len(args)]) {
			rec(append(args, a))
		}
	}
	rec(nil)
	return out
}

// boolReps are boolean functions of every kind, among them the ones the simplifier treats specially.
func boolReps() []*fx {
	I, S, U, B := fvar(tI), fvar(tS), fvar(tU), fvar(tB)
	i1, i2 := fconst("1", vI(1)), fconst("2", vI(2))
	sa, sb := fconst(`"a"`, vS("a")), fconst(`"B"`, vS("B"))
	u1, u2 := fconst("uint(1)", vU(1)), fconst("uint(2)", vU(2))
	return []*fx{
		fcall("eq", I, i1), fcall("eq", i1, I), fcall("ne", I, i1), fcall("eq", I, i2), fcall("ne", i2, I), fcall("contains", S, sa), fcall("eq", S, sa), fcall("ne", S, sa), fcall("eq", sb, S),
		fconst("true", vB(true)), fconst("false", vB(false)), B, fcall("gt", I, i1), fcall("type", S),
		fcall("eq", U, u1), fcall("ne", U, u1), fcall("eq", U, u2), fcall("lt", I, i2), fcall("le", i1, I), fcall("eq", fvar(tD), fconst("double(1)", vD(1))), fcall("eq", B, fconst("true", vB(true))),
		fcall("contains", I, flist(tI, i1, i2)), fcall("hasPrefix", S, sa), fcall("regex", sa, S), fcall("eq", I, I), fcall("ne", S, S), fcall("eq", fvar(tY), fconst("[]byte{0x61}", vY([]byte("a")))),
		fcall("eq", I, fcall("length", S)), fcall("ne", fcall("toLower", S), sa),
	}
}

// illTyped: every function name with every combination of argument types up to the given count.
func illTyped(maxArgs int, f func(x *fx)) {
	reps := make([]*fx, 12)
	for t := tD; t <= tY; t++ {
		reps[t] = fvar(t)
		reps[t.list()] = flist(t, fconsts(t)[1])
	}
	names := []string{"nosuch", "Eq", "eq_"}
	for _, s := range fsigs {
		names = append(names, s.name)
	}
	seen := map[string]bool{}
	for _, n := range names {
		if seen[n] || n == "print" || n == "now" {
			continue
		}
		seen[n] = true
		var rec func(args []*fx)
		rec = func(args []*fx) {
			f(fcall(n, append([]*fx{}, args...)...))
			if len(args) < maxArgs {
				for _, r := range reps {
					rec(append(args, r))
				}
			}
		}
		rec(nil)
	}
}

var _ = ast.NewVar
