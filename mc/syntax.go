package main

import (
	"fmt"
	"math"
	"reflect"
	"strconv"
	"strings"

	"github.com/katydid/katydid/relapse/ast"
	"github.com/katydid/katydid/relapse/types"
)

// ---- an abstract syntax for grammars with two renderings: tokens of text, and the ast builder functions.

type synLit struct {
	toks string // one token
	sem  string // the value it denotes
	expr func() *ast.Expr
	name func() *ast.NameExpr
}

func semD(f float64) string { return fmt.Sprintf("double:%016x", math.Float64bits(f)) }
func semI(i int64) string   { return fmt.Sprintf("int:%d", i) }
func semU(u uint64) string  { return fmt.Sprintf("uint:%d", u) }
func semB(b bool) string    { return fmt.Sprintf("bool:%v", b) }
func semS(s string) string  { return fmt.Sprintf("string:%q", s) }
func semY(y []byte) string  { return fmt.Sprintf("bytes:%x", y) }

func litI(i int64) synLit {
	return synLit{strconv.FormatInt(i, 10), semI(i), func() *ast.Expr { return ast.NewIntConst(i) }, func() *ast.NameExpr { return ast.NewIntName(i) }}
}
func litU(u uint64) synLit {
	return synLit{fmt.Sprintf("uint(%d)", u), semU(u), func() *ast.Expr { return ast.NewUintConst(u) }, func() *ast.NameExpr { return ast.NewUintName(u) }}
}
func litD(f float64, text string) synLit {
	return synLit{"double(" + text + ")", semD(f), func() *ast.Expr { return ast.NewDoubleConst(f) }, func() *ast.NameExpr { return ast.NewDoubleName(f) }}
}
func litB(b bool) synLit {
	return synLit{strconv.FormatBool(b), semB(b), func() *ast.Expr {
		if b {
			return ast.NewTrue()
		}
		return ast.NewFalse()
	}, func() *ast.NameExpr { return ast.NewBoolName(b) }}
}
func litS(s string) synLit {
	return synLit{strconv.Quote(s), semS(s), func() *ast.Expr { return ast.NewStringConst(s) }, func() *ast.NameExpr { return ast.NewStringName(s) }}
}
func litID(s string) synLit {
	l := litS(s)
	l.toks = s
	l.expr = nil
	return l
}
func litY(y []byte) synLit {
	ss := make([]string, len(y))
	for i := range y {
		ss[i] = fmt.Sprintf("0x%02x", y[i])
	}
	return synLit{"[]byte{" + strings.Join(ss, ",") + "}", semY(y), func() *ast.Expr { return ast.NewBytesConst(append([]byte{}, y...)) }, func() *ast.NameExpr { return ast.NewBytesName(append([]byte{}, y...)) }}
}

// a piece of syntax: its tokens, its meaning, and how to build it with the ast package.
type synName struct {
	toks []string
	sem  string
	mk   func() *ast.NameExpr
}
type synExpr struct { // inside a function, list or builtin
	toks []string
	sem  string
	mk   func() *ast.Expr
}
type synPat struct {
	toks []string
	sem  string
	mk   func() *ast.Pattern
	// noColon: may directly follow a name without a colon
	deep bool
}

func toks(xs ...interface{}) []string {
	var out []string
	for _, x := range xs {
		switch v := x.(type) {
		case string:
			out = append(out, v)
		case []string:
			out = append(out, v...)
		}
	}
	return out
}

func snLit(l synLit) synName { return synName{[]string{l.toks}, "name(" + l.sem + ")", l.name} }
func snAny() synName {
	return synName{[]string{"_"}, "anyname", ast.NewAnyName}
}
func snNot(n synName) synName {
	return synName{toks("!", "(", n.toks, ")"), "except(" + n.sem + ")", func() *ast.NameExpr { return ast.NewAnyNameExcept(n.mk()) }}
}
func snOr(ns ...synName) synName {
	t := toks("(")
	sems := []string{}
	for i, n := range ns {
		if i > 0 {
			t = append(t, "|")
		}
		t = append(t, n.toks...)
		sems = append(sems, n.sem)
	}
	t = append(t, ")")
	return synName{t, "choice(" + strings.Join(sems, " ") + ")", func() *ast.NameExpr {
		var as []*ast.NameExpr
		for _, n := range ns {
			as = append(as, n.mk())
		}
		return ast.NewNameChoice(as...)
	}}
}

func seLit(l synLit) synExpr { return synExpr{[]string{l.toks}, l.sem, l.expr} }

var varTypes = []struct {
	tok string
	t   types.Type
}{{"$double", types.SINGLE_DOUBLE}, {"$int", types.SINGLE_INT}, {"$uint", types.SINGLE_UINT}, {"$bool", types.SINGLE_BOOL}, {"$string", types.SINGLE_STRING}, {"$[]byte", types.SINGLE_BYTES}}

func seVar(i int) synExpr {
	v := varTypes[i]
	return synExpr{[]string{v.tok}, "var:" + v.t.String(), func() *ast.Expr { return ast.NewVar(v.t) }}
}
func seFunc(name string, ps ...synExpr) synExpr {
	t := toks(name, "(")
	sems := []string{}
	for i, p := range ps {
		if i > 0 {
			t = append(t, ",")
		}
		t = append(t, p.toks...)
		sems = append(sems, p.sem)
	}
	t = append(t, ")")
	return synExpr{t, name + "(" + strings.Join(sems, " ") + ")", func() *ast.Expr {
		var as []*ast.Expr
		for _, p := range ps {
			as = append(as, p.mk())
		}
		return ast.NewNestedFunction(name, as...)
	}}
}

var listTypes = []struct {
	tok string
	t   types.Type
	mk  func(...*ast.Expr) *ast.Expr
}{
	{"[]double", types.LIST_DOUBLE, ast.NewDoubleList}, {"[]int", types.LIST_INT, ast.NewIntList}, {"[]uint", types.LIST_UINT, ast.NewUintList},
	{"[]bool", types.LIST_BOOL, ast.NewBoolList}, {"[]string", types.LIST_STRING, ast.NewStringList}, {"[][]byte", types.LIST_BYTES, ast.NewBytesList},
}

func seList(i int, es ...synExpr) synExpr {
	lt := listTypes[i]
	t := toks(lt.tok, "{")
	sems := []string{}
	for i, p := range es {
		if i > 0 {
			t = append(t, ",")
		}
		t = append(t, p.toks...)
		sems = append(sems, p.sem)
	}
	t = append(t, "}")
	return synExpr{t, "list:" + lt.t.String() + "(" + strings.Join(sems, " ") + ")", func() *ast.Expr {
		var as []*ast.Expr
		for _, p := range es {
			as = append(as, p.mk())
		}
		return lt.mk(as...)
	}}
}

// leaf expressions
var builtinSyms = []struct {
	sym string
	mk  func(*ast.Expr) *ast.Expr
}{
	{"==", ast.NewEqual}, {"!=", ast.NewNotEqual}, {"<", ast.NewLessThan}, {">", ast.NewGreaterThan}, {"<=", ast.NewLessEqual}, {">=", ast.NewGreaterEqual},
	{"~=", ast.NewRegex}, {"*=", ast.NewHasElem}, {"^=", ast.NewHasPrefix}, {"$=", ast.NewHasSuffix}, {"::", ast.NewType},
}

func spBuiltin(i int, e synExpr) synPat {
	b := builtinSyms[i]
	return synPat{toks(b.sym, e.toks), "leaf(builtin " + b.sym + " " + e.sem + ")", func() *ast.Pattern { return ast.NewLeafNode(b.mk(e.mk())) }, true}
}
func spArrow(e synExpr) synPat {
	return synPat{toks("->", e.toks), "leaf(" + e.sem + ")", func() *ast.Pattern {
		x := e.mk()
		x.RightArrow = &ast.Keyword{Value: "->"}
		return ast.NewLeafNode(x)
	}, true}
}
func spEmpty() synPat { return synPat{toks("<empty>"), "empty", ast.NewEmpty, false} }
func spZAny() synPat  { return synPat{toks("*"), "zany", ast.NewZAny, false} }
func spRef(n string) synPat {
	return synPat{toks("@", n), "ref(" + n + ")", func() *ast.Pattern { return ast.NewReference(n) }, false}
}
func spNode(n synName, p synPat, colon bool) synPat {
	t := toks(n.toks, ":", p.toks)
	if !colon {
		t = toks(n.toks, p.toks)
	}
	return synPat{t, "node(" + n.sem + " " + p.sem + ")", func() *ast.Pattern { return ast.NewTreeNode(n.mk(), p.mk()) }, false}
}
func spUn(op Op, p synPat) synPat {
	switch op {
	case OpStar:
		return synPat{toks("(", p.toks, ")", "*"), "star(" + p.sem + ")", func() *ast.Pattern { return ast.NewZeroOrMore(p.mk()) }, false}
	case OpOptional:
		return synPat{toks("(", p.toks, ")", "?"), "optional(" + p.sem + ")", func() *ast.Pattern { return ast.NewOptional(p.mk()) }, false}
	case OpNot:
		return synPat{toks("!", "(", p.toks, ")"), "not(" + p.sem + ")", func() *ast.Pattern { return ast.NewNot(p.mk()) }, false}
	case OpContains:
		return synPat{toks(".", p.toks), "contains(" + p.sem + ")", func() *ast.Pattern { return ast.NewContains(p.mk()) }, true}
	}
	panic(op)
}

// spBin: an n-ary operator; extra is the optional trailing separator.
func spBin(op Op, extra bool, ps ...synPat) synPat {
	open, sep, cl, kind := "", "", "", ""
	var f func(...*ast.Pattern) *ast.Pattern
	deep := false
	switch op {
	case OpConcat:
		open, sep, cl, kind, f, deep = "[", ",", "]", "concat", ast.NewConcat, true
	case OpInterleave:
		open, sep, cl, kind, f, deep = "{", ";", "}", "interleave", ast.NewInterleave, true
	case OpOr:
		open, sep, cl, kind, f = "(", "|", ")", "or", ast.NewOr
	case OpAnd:
		open, sep, cl, kind, f = "(", "&", ")", "and", ast.NewAnd
	}
	t := toks(open)
	sems := []string{}
	for i, p := range ps {
		if i > 0 {
			t = append(t, sep)
		}
		t = append(t, p.toks...)
		sems = append(sems, p.sem)
	}
	if extra && deep {
		t = append(t, sep)
	}
	t = append(t, cl)
	return synPat{t, kind + "(" + strings.Join(sems, " ") + ")", func() *ast.Pattern {
		var as []*ast.Pattern
		for _, p := range ps {
			as = append(as, p.mk())
		}
		return f(as...)
	}, deep}
}

type synGram struct {
	main  *synPat
	names []string
	decls []synPat
}

func (g *synGram) toks() []string {
	var t []string
	if g.main != nil {
		t = append(t, g.main.toks...)
	}
	for i, n := range g.names {
		t = toks(t, "#", n, "=", g.decls[i].toks)
	}
	return t
}

func (g *synGram) sem() string {
	s := ""
	if g.main != nil {
		s = g.main.sem
	}
	for i, n := range g.names {
		s += " #" + n + "=" + g.decls[i].sem
	}
	return s
}

func (g *synGram) build() *ast.Grammar {
	out := &ast.Grammar{}
	if g.main != nil {
		out.TopPattern = g.main.mk()
	}
	for i, n := range g.names {
		out.PatternDecls = append(out.PatternDecls, ast.NewPatternDecl(n, g.decls[i].mk()))
	}
	return out
}

func (g *synGram) text() string { return joinToks(g.toks()) }

// joinToks concatenates tokens. The lexer does not backtrack, so that "<e" can only start "<empty>": a space goes between.
func joinToks(ts []string) string {
	var sb strings.Builder
	for i, t := range ts {
		if i > 0 && needsSpace(ts[i-1], t) {
			sb.WriteByte(' ')
		}
		sb.WriteString(t)
	}
	return sb.String()
}

// needsSpace: longest match would otherwise read the two tokens as something else.
func needsSpace(prev, next string) bool {
	if len(next) == 0 {
		return false
	}
	switch prev {
	case "<":
		return next[0] == 'e' || next[0] == '='
	case ">", "=":
		return next[0] == '='
	case ":":
		return next[0] == ':'
	}
	return false
}

// ---- what a syntax tree means, independent of spacing and of the ast package's own comparison functions

func semGrammar(g *ast.Grammar) string {
	s := ""
	if g.TopPattern != nil {
		s = semPattern(g.TopPattern)
	}
	for _, d := range g.PatternDecls {
		s += " #" + d.Name + "=" + semPattern(d.Pattern)
	}
	return s
}

func semPattern(p *ast.Pattern) string {
	if p == nil {
		return "nil"
	}
	n := reflect.ValueOf(p).Elem()
	set := 0
	for i := 0; i < n.NumField(); i++ {
		if f := n.Field(i); f.Kind() == reflect.Ptr && !f.IsNil() {
			set++
		}
	}
	if set != 1 {
		return fmt.Sprintf("pattern with %d alternatives", set)
	}
	switch {
	case p.Empty != nil:
		return "empty"
	case p.ZAny != nil:
		return "zany"
	case p.Reference != nil:
		return "ref(" + p.Reference.Name + ")"
	case p.TreeNode != nil:
		return "node(" + semName(p.TreeNode.Name) + " " + semPattern(p.TreeNode.Pattern) + ")"
	case p.LeafNode != nil:
		return "leaf(" + semExpr(p.LeafNode.Expr) + ")"
	case p.ZeroOrMore != nil:
		return "star(" + semPattern(p.ZeroOrMore.Pattern) + ")"
	case p.Optional != nil:
		return "optional(" + semPattern(p.Optional.Pattern) + ")"
	case p.Not != nil:
		return "not(" + semPattern(p.Not.Pattern) + ")"
	case p.Contains != nil:
		return "contains(" + semPattern(p.Contains.Pattern) + ")"
	case p.Concat != nil:
		return "concat(" + strings.Join(flatten(p, func(q *ast.Pattern) (*ast.Pattern, *ast.Pattern, bool) {
			if q.Concat == nil {
				return nil, nil, false
			}
			return q.Concat.LeftPattern, q.Concat.RightPattern, q == p || q.Concat.OpenBracket == nil
		}), " ") + ")"
	case p.Or != nil:
		return "or(" + strings.Join(flatten(p, func(q *ast.Pattern) (*ast.Pattern, *ast.Pattern, bool) {
			if q.Or == nil {
				return nil, nil, false
			}
			return q.Or.LeftPattern, q.Or.RightPattern, q == p || q.Or.OpenParen == nil
		}), " ") + ")"
	case p.And != nil:
		return "and(" + strings.Join(flatten(p, func(q *ast.Pattern) (*ast.Pattern, *ast.Pattern, bool) {
			if q.And == nil {
				return nil, nil, false
			}
			return q.And.LeftPattern, q.And.RightPattern, q == p || q.And.OpenParen == nil
		}), " ") + ")"
	case p.Interleave != nil:
		return "interleave(" + strings.Join(flatten(p, func(q *ast.Pattern) (*ast.Pattern, *ast.Pattern, bool) {
			if q.Interleave == nil {
				return nil, nil, false
			}
			return q.Interleave.LeftPattern, q.Interleave.RightPattern, q == p || q.Interleave.OpenCurly == nil
		}), " ") + ")"
	}
	return "?"
}

func flatten(p *ast.Pattern, split func(*ast.Pattern) (*ast.Pattern, *ast.Pattern, bool)) []string {
	l, r, ok := split(p)
	if !ok {
		return []string{semPattern(p)}
	}
	return append(flatten(l, split), flatten(r, split)...)
}

func semName(n *ast.NameExpr) string {
	if n == nil {
		return "nil"
	}
	switch {
	case n.Name != nil:
		return "name(" + semValue(n.Name.DoubleValue, n.Name.IntValue, n.Name.UintValue, n.Name.BoolValue, n.Name.StringValue, n.Name.BytesValue) + ")"
	case n.AnyName != nil:
		return "anyname"
	case n.AnyNameExcept != nil:
		return "except(" + semName(n.AnyNameExcept.Except) + ")"
	case n.NameChoice != nil:
		var rec func(n *ast.NameExpr, top bool) []string
		rec = func(n *ast.NameExpr, top bool) []string {
			if n.NameChoice == nil || !top && n.NameChoice.OpenParen != nil {
				return []string{semName(n)}
			}
			return append(rec(n.NameChoice.Left, false), rec(n.NameChoice.Right, false)...)
		}
		return "choice(" + strings.Join(rec(n, true), " ") + ")"
	}
	return "?"
}

func semValue(d *float64, i *int64, u *uint64, b *bool, s *string, y []byte) string {
	var out []string
	if d != nil {
		out = append(out, semD(*d))
	}
	if i != nil {
		out = append(out, semI(*i))
	}
	if u != nil {
		out = append(out, semU(*u))
	}
	if b != nil {
		out = append(out, semB(*b))
	}
	if s != nil {
		out = append(out, semS(*s))
	}
	if y != nil {
		out = append(out, semY(y))
	}
	return strings.Join(out, "&")
}

func semExpr(e *ast.Expr) string {
	if e == nil {
		return "nil"
	}
	switch {
	case e.Terminal != nil:
		t := e.Terminal
		if t.Variable != nil {
			return "var:" + t.Variable.Type.String()
		}
		return semValue(t.DoubleValue, t.IntValue, t.UintValue, t.BoolValue, t.StringValue, t.BytesValue)
	case e.List != nil:
		var ss []string
		for _, x := range e.List.Elems {
			ss = append(ss, semExpr(x))
		}
		return "list:" + e.List.Type.String() + "(" + strings.Join(ss, " ") + ")"
	case e.Function != nil:
		var ss []string
		for _, x := range e.Function.Params {
			ss = append(ss, semExpr(x))
		}
		return e.Function.Name + "(" + strings.Join(ss, " ") + ")"
	case e.BuiltIn != nil:
		return "builtin " + e.BuiltIn.Symbol.Value + " " + semExpr(e.BuiltIn.Expr)
	}
	return "?"
}

// dumpFull writes every field of a value, whatever it is, unexported ones too.
func dumpFull(x interface{}) string {
	var sb strings.Builder
	dumpValue(&sb, reflect.ValueOf(x), 0)
	return sb.String()
}

func dumpValue(sb *strings.Builder, v reflect.Value, depth int) {
	if depth > 200 {
		sb.WriteString("<deep>")
		return
	}
	switch v.Kind() {
	case reflect.Ptr, reflect.Interface:
		if v.IsNil() {
			sb.WriteString("nil")
			return
		}
		sb.WriteByte('&')
		dumpValue(sb, v.Elem(), depth+1)
	case reflect.Struct:
		sb.WriteByte('{')
		for i := 0; i < v.NumField(); i++ {
			dumpValue(sb, v.Field(i), depth+1)
			sb.WriteByte(' ')
		}
		sb.WriteByte('}')
	case reflect.Slice, reflect.Array:
		if v.Kind() == reflect.Slice && v.IsNil() {
			sb.WriteString("nil")
			return
		}
		sb.WriteByte('[')
		for i := 0; i < v.Len(); i++ {
			dumpValue(sb, v.Index(i), depth+1)
			sb.WriteByte(' ')
		}
		sb.WriteByte(']')
	case reflect.String:
		sb.WriteString(strconv.Quote(v.String()))
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		sb.WriteString(strconv.FormatInt(v.Int(), 10))
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		sb.WriteString(strconv.FormatUint(v.Uint(), 10))
	case reflect.Bool:
		sb.WriteString(strconv.FormatBool(v.Bool()))
	case reflect.Float32, reflect.Float64:
		fmt.Fprintf(sb, "%x", math.Float64bits(v.Float()))
	case reflect.Map:
		fmt.Fprintf(sb, "map%d", v.Len())
	default:
		sb.WriteString(v.Kind().String())
	}
}

// ---- the grammar space

func synLits() []synLit {
	return []synLit{
		litI(0), litI(1), litI(-1), litI(math.MaxInt64), litI(math.MinInt64), litU(0), litU(1), litU(math.MaxUint64),
		litD(0, "0"), litD(1, "1"), litD(-1.5, "-1.5"), litD(1e300, "1e300"), litD(5e-324, "5e-324"), litD(math.MaxFloat64, "1.7976931348623157e308"), litD(math.Copysign(0, -1), "-0.0"),
		litB(true), litB(false),
		litS(""), litS("a"), litS("a b"), litS("é"), litS("日本"), litS("\""), litS("\\"), litS("\n"), litS("\x00"), litS("\x80\xff"), litS("true"), litS("_"), litS("//x"), litS("1"), litS("\U0001F600"),
		litY(nil), litY([]byte{0}), litY([]byte{1, 255}),
	}
}

func synNames() []synName {
	var out []synName
	for _, l := range synLits() {
		out = append(out, snLit(l))
	}
	for _, id := range []string{"a", "b", "_a", "A1", "int", "truex", "double", "uint", "main"} {
		out = append(out, snLit(litID(id)))
	}
	a, b, one := snLit(litID("a")), snLit(litID("b")), snLit(litI(1))
	base := []synName{a, snAny(), one, snLit(litD(2, "2")), snLit(litS("true"))}
	out = append(out, snAny())
	var d1 []synName
	for _, x := range base {
		d1 = append(d1, snNot(x))
		for _, y := range base {
			d1 = append(d1, snOr(x, y))
		}
	}
	d1 = append(d1, snOr(a, b, one), snOr(a, b, one, snAny()))
	for _, x := range d1 {
		out = append(out, x, snNot(x), snOr(x, a), snOr(a, x))
	}
	return out
}

func synExprs() []synExpr {
	var out []synExpr
	for _, l := range synLits() {
		out = append(out, seLit(l))
	}
	for i := range varTypes {
		out = append(out, seVar(i))
	}
	one, s := seLit(litI(1)), seLit(litS("x"))
	for i, l := range []synLit{litD(1.5, "1.5"), litI(1), litU(1), litB(true), litS("a"), litY([]byte{1})} {
		out = append(out, seList(i), seList(i, seLit(l)), seList(i, seLit(l), seLit(l)), seList(i, seVar(i)), seList(i, seLit(l), seVar(i), seFunc("elem", seList(i, seLit(l)), one)))
	}
	out = append(out, seFunc("f"), seFunc("f", one), seFunc("f", one, s), seFunc("eq", seVar(1), one), seFunc("not", seFunc("eq", seVar(4), s)),
		seFunc("and", seFunc("eq", seVar(1), one), seFunc("contains", seVar(4), s)), seFunc("_f1", seFunc("g")), seFunc("elem", seList(1, one, one), one),
		seFunc("integer", one), seFunc("truex"))
	return out
}

func synLeaves() []synPat {
	var out []synPat
	es := synExprs()
	for _, e := range es {
		for i := range builtinSyms {
			out = append(out, spBuiltin(i, e))
		}
		out = append(out, spArrow(e))
	}
	return out
}

func synAtoms() []synPat {
	a := snLit(litID("a"))
	return []synPat{spEmpty(), spZAny(), spRef("x"), spNode(a, spZAny(), true), spBuiltin(0, seLit(litI(1))), spArrow(seFunc("eq", seVar(1), seLit(litI(1)))), spNode(snNot(a), spEmpty(), true)}
}

// synPats1: every operator over the atoms.
func synPats1(atoms []synPat) []synPat {
	var out []synPat
	a := snLit(litID("a"))
	for _, p := range atoms {
		for _, op := range unOps {
			out = append(out, spUn(op, p))
		}
		for _, n := range []synName{a, snAny(), snNot(a), snOr(a, a), snLit(litI(1)), snLit(litB(true)), snLit(litY([]byte{1}))} {
			out = append(out, spNode(n, p, true))
			if p.deep {
				out = append(out, spNode(n, p, false))
			}
		}
		for _, q := range atoms {
			for _, op := range binOps {
				out = append(out, spBin(op, false, p, q))
				if op == OpConcat || op == OpInterleave {
					out = append(out, spBin(op, true, p, q))
				}
			}
		}
	}
	for _, op := range binOps {
		for _, p := range atoms {
			out = append(out, spBin(op, false, p, atoms[0], atoms[3]), spBin(op, true, p, atoms[3], atoms[4], atoms[1]))
		}
	}
	return out
}

// synGrams: the grammars used for the checks of printing, parsing, cloning and formatting; level 0 to 2.
func synGrams(level int) []*synGram {
	var out []*synGram
	atoms0 := synAtoms()
	add := func(p synPat) { out = append(out, &synGram{main: &p}) }
	for _, n := range synNames() {
		add(spNode(n, spZAny(), true))
		if level > 0 {
			add(spNode(n, spBuiltin(0, seLit(litI(1))), false))
			add(spNode(n, spBin(OpConcat, false, spZAny(), spEmpty()), false))
		}
	}
	for _, p := range synLeaves() {
		add(p)
	}
	// leaf expressions in every position, and builtins as operands of each other and of functions
	a := snLit(litID("a"))
	for i := range builtinSyms {
		for _, e := range []synExpr{seLit(litI(1)), seLit(litI(-1)), seLit(litS("s")), seVar(1), seFunc("eq", seVar(1), seLit(litI(1))), seList(1)} {
			p := spBuiltin(i, e)
			for _, n := range []synName{a, snAny(), snLit(litI(1)), snLit(litD(1, "1")), snNot(a), snLit(litB(true)), snLit(litS("s")), snLit(litY(nil))} {
				add(spNode(n, p, true))
				add(spNode(n, p, false))
			}
			for _, op := range unOps {
				add(spUn(op, p))
			}
			for _, op := range binOps {
				add(spBin(op, true, p, p))
			}
			out = append(out, &synGram{main: &atoms0[0], names: []string{"x"}, decls: []synPat{p}}, &synGram{names: []string{"main", "x"}, decls: []synPat{p, p}})
			b := synExpr{toks(builtinSyms[i].sym, e.toks), "builtin " + builtinSyms[i].sym + " " + e.sem, func() *ast.Expr { return builtinSyms[i].mk(e.mk()) }}
			add(spArrow(b))
			add(spArrow(seFunc("f", b)))
			add(spArrow(seFunc("f", b, b)))
			add(spArrow(seFunc("eq", b, e)))
			add(spArrow(seList(1, e, b)))
			for j := range builtinSyms {
				add(spBuiltin(j, b))
			}
		}
	}
	atoms := synAtoms()
	p1 := synPats1(atoms)
	for _, p := range append(append([]synPat{}, atoms...), p1...) {
		add(p)
		q := p
		out = append(out, &synGram{main: &q, names: []string{"x"}, decls: []synPat{spEmpty()}}, &synGram{names: []string{"main", "x"}, decls: []synPat{q, spZAny()}},
			&synGram{main: &atoms[2], names: []string{"x", "y1", "_z"}, decls: []synPat{q, q, atoms[3]}})
	}
	if level > 0 {
		small := []synPat{atoms[1], atoms[3], atoms[4]}
		for _, p := range p1 {
			for _, op := range unOps {
				add(spUn(op, p))
			}
			add(spNode(snLit(litID("a")), p, true))
			if p.deep {
				add(spNode(snLit(litID("a")), p, false))
			}
			for _, q := range small {
				for _, op := range binOps {
					add(spBin(op, false, p, q))
					add(spBin(op, true, q, p))
					if level > 1 {
						add(spBin(op, true, q, p, q))
						add(spBin(op, true, p, q, q, p))
					}
				}
			}
		}
	}
	return out
}
