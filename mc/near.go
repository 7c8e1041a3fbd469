package main

import (
	"bytes"
	"fmt"
	"math"
	"strings"

	"github.com/katydid/katydid/parser"
	"github.com/katydid/katydid/relapse/ast"
)

// Near values: pairs of values that are different, but equal once one of them is cut, narrowed, rounded or printed
// carelessly, which is what a key of a memo table is prone to. One validator meets the one and then the other.

func nearTexts(thorough bool) [][2]string {
	var out [][2]string
	add := func(a, b string) { out = append(out, [2]string{a, b}) }
	lens := []int{}
	for n := 0; n <= 70; n++ {
		lens = append(lens, n)
	}
	for k := 7; k <= 16; k++ {
		for d := -1; d <= 1; d++ {
			lens = append(lens, 1<<uint(k)+d)
		}
	}
	for _, n := range []int{99, 100, 101, 199, 200, 201, 999, 1000, 1001, 4999, 5000, 9999, 10000} {
		lens = append(lens, n)
	}
	if thorough {
		for n := 71; n <= 600; n++ {
			lens = append(lens, n)
		}
		lens = append(lens, 1<<18, 1<<20)
	}
	for _, n := range lens {
		x := strings.Repeat("x", n)
		add(x+"a", x+"b")
		add("a"+x, "b"+x)
		add(x, x+"x")
		if n > 0 {
			add(x[:n/2]+"a"+x[n/2:], x[:n/2]+"b"+x[n/2:])
			add("a"+x+"b", "b"+x+"a")
			if n%2 == 0 && n < 200 {
				y := strings.Repeat("ab", n)
				add(y, strings.Repeat("ba", n))
				add(y+"Aa", y+"BB") // equal sums, and equal 31-hashes
			}
		}
	}
	for _, p := range [][2]string{{"a", "A"}, {"a", " a"}, {"a", "a "}, {"a", "a\n"}, {"a", "a\x00"}, {"", "\x00"}, {"", " "}, {"1", "01"}, {"1", "1.0"}, {"1", "+1"}, {"\u00e9", "e\u0301"}, {"\xff", "\ufffd"}, {"\xff", "\xfe"}, {"a.b", "a b"}, {"a,b", "a b"}, {"a\"", "a\\\""}, {"\\n", "\n"}, {"true", "True"}, {"k", "\u212a"}, {"%s", "%d"}, {"%", "%%"}, {"a|b", "a"}, {"a/b", "a"}, {"nil", ""}, {"<nil>", ""}, {"[]", ""}} {
		add(p[0], p[1])
	}
	return out
}

type nearPair struct {
	g    *ast.Grammar
	leaf bool // the values are leaves, otherwise names
	a, b *Label
	ra   bool // whether each is accepted
	rb   bool
	what string
}

// nearPairs calls f with every pair: the grammar accepts the one and not the other.
func nearPairs(thorough bool) []nearPair {
	var out []nearPair
	short := func(l *Label) string {
		s := l.Show()
		if len(s) > 60 {
			s = fmt.Sprintf("%s...%s (%d bytes)", s[:25], s[len(s)-25:], len(s))
		}
		return s
	}
	konst := func(l *Label) (*ast.Expr, *ast.NameExpr) {
		switch {
		case l.HasS:
			return ast.NewStringConst(l.S), ast.NewStringName(l.S)
		case l.HasI:
			return ast.NewIntConst(l.I), ast.NewIntName(l.I)
		case l.HasU:
			return ast.NewUintConst(l.U), ast.NewUintName(l.U)
		case l.HasD:
			return ast.NewDoubleConst(l.D), ast.NewDoubleName(l.D)
		}
		return ast.NewBytesConst(l.Y), ast.NewBytesName(l.Y)
	}
	add := func(v, c *ast.Expr, n *ast.NameExpr, a, b *Label) {
		d, m := konst(b)
		w := short(a) + " and " + short(b)
		gram := func(p *ast.Pattern) *ast.Grammar { return ast.NewGrammar(map[string]*ast.Pattern{"main": p}) }
		out = append(out,
			nearPair{gram(ast.NewLeafNode(ast.NewFunction("eq", v, c))), true, a, b, true, false, "the values " + w + " of ->eq with the first"},
			nearPair{gram(ast.NewLeafNode(ast.NewFunction("ne", v, c))), true, a, b, false, true, "the values " + w + " of ->ne with the first"},
			nearPair{gram(ast.NewTreeNode(n, ast.NewZAny())), false, a, b, true, false, "the names " + w + " of the first name"},
			nearPair{gram(ast.NewTreeNode(ast.NewAnyNameExcept(n), ast.NewZAny())), false, a, b, false, true, "the names " + w + " of any name but the first"},
			nearPair{gram(ast.NewOr(ast.NewTreeNode(n, ast.NewZAny()), ast.NewTreeNode(ast.NewAnyNameExcept(n), ast.NewTreeNode(ast.NewStringName("k"), ast.NewZAny())))), false, a, b, true, false, "the names " + w + " of two fields"},
			// both values in one grammar
			nearPair{gram(ast.NewOr(ast.NewLeafNode(ast.NewFunction("eq", v, c)), ast.NewLeafNode(ast.NewFunction("eq", v, d)))), true, a, b, true, true, "the values " + w + " of ->eq with either"},
			nearPair{gram(ast.NewLeafNode(ast.NewFunction("or", ast.NewNestedFunction("eq", v, c), ast.NewNestedFunction("eq", v, d)))), true, a, b, true, true, "the values " + w + " of ->or of ->eq with each"},
			nearPair{gram(ast.NewAnd(ast.NewLeafNode(ast.NewFunction("ne", v, d)), ast.NewLeafNode(ast.NewFunction("eq", v, c)))), true, a, b, true, false, "the values " + w + " of ->ne with the second and ->eq with the first"},
			nearPair{gram(ast.NewOr(ast.NewTreeNode(n, ast.NewZAny()), ast.NewTreeNode(m, ast.NewTreeNode(ast.NewStringName("k"), ast.NewZAny())))), false, a, b, true, false, "the names " + w + " of which the second has a field"},
			nearPair{gram(ast.NewOr(ast.NewTreeNode(m, ast.NewZAny()), ast.NewTreeNode(n, ast.NewZAny()))), false, a, b, true, true, "the names " + w + " of either"},
			nearPair{gram(ast.NewAnd(ast.NewTreeNode(m, ast.NewZAny()), ast.NewTreeNode(n, ast.NewZAny()))), false, a, b, false, false, "the names " + w + " of both at once"},
			nearPair{gram(ast.NewTreeNode(ast.NewNameChoice(m, n), ast.NewZAny())), false, a, b, true, true, "the names " + w + " of a choice of both"},
			nearPair{gram(ast.NewTreeNode(ast.NewAnyNameExcept(ast.NewNameChoice(n, m)), ast.NewZAny())), false, a, b, false, false, "the names " + w + " of any but both"})
	}
	both := func(f func(i, j int)) { f(0, 1); f(1, 0) }
	for _, p := range nearTexts(thorough) {
		both(func(i, j int) {
			a, b := p[i], p[j]
			if len(a) < 5000 || thorough {
				add(ast.NewStringVar(), ast.NewStringConst(a), ast.NewStringName(a), strLabel(a), strLabel(b))
				add(ast.NewBytesVar(), ast.NewBytesConst([]byte(a)), ast.NewBytesName([]byte(a)), bytesLabel([]byte(a)), bytesLabel([]byte(b)))
			} else if i == 0 {
				add(ast.NewStringVar(), ast.NewStringConst(a), ast.NewStringName(a), strLabel(a), strLabel(b))
			}
		})
	}
	ints := []int64{0, 1, -1, 5, 1 << 40, math.MaxInt64, math.MinInt64}
	for _, v := range ints {
		for k := uint(0); k < 64; k++ {
			w := int64(uint64(v) ^ 1<<k)
			both(func(i, j int) {
				a, b := [2]int64{v, w}[i], [2]int64{v, w}[j]
				add(ast.NewIntVar(), ast.NewIntConst(a), ast.NewIntName(a), intLabel(a), intLabel(b))
				add(ast.NewUintVar(), ast.NewUintConst(uint64(a)), ast.NewUintName(uint64(a)), &Label{HasU: true, U: uint64(a)}, &Label{HasU: true, U: uint64(b)})
			})
		}
		if v != 0 && v != math.MinInt64 {
			add(ast.NewIntVar(), ast.NewIntConst(v), ast.NewIntName(v), intLabel(v), intLabel(-v))
		}
	}
	for _, v := range []float64{1, 0.1, 1.5, -1, 3, 1e10, 123456.789, 1e300, 1e-300} {
		var ws []float64
		for k := uint(0); k < 64; k++ {
			if w := math.Float64frombits(math.Float64bits(v) ^ 1<<k); !math.IsNaN(w) && !math.IsInf(w, 0) {
				ws = append(ws, w)
			}
		}
		for _, w := range []float64{float64(float32(v)), math.Trunc(v), math.Round(v*10) / 10, v * (1 + 1e-7), v * (1 + 1e-13)} {
			if w != v && !math.IsInf(w, 0) {
				ws = append(ws, w)
			}
		}
		for _, w := range ws {
			both(func(i, j int) {
				a, b := [2]float64{v, w}[i], [2]float64{v, w}[j]
				add(ast.NewDoubleVar(), ast.NewDoubleConst(a), ast.NewDoubleName(a), &Label{HasD: true, D: a}, &Label{HasD: true, D: b})
			})
		}
	}
	// values of different types
	ls := []*Label{strLabel("1"), intLabel(1), {HasU: true, U: 1}, {HasD: true, D: 1}, boolLabel(true), bytesLabel([]byte("1")), strLabel("true"), bytesLabel([]byte{1}), strLabel("\x01"), {}, numLabel(1),
		{HasS: true, S: "1", HasI: true, I: 1}, {HasS: true, S: "1", HasD: true, D: 1}, {HasS: true, S: "1", HasB: true, B: true}, {HasI: true, I: 1, HasB: true, B: true}, {HasI: true, I: 1, HasU: true, U: 1}, {HasI: true, I: 1, HasD: true, D: 1}, {HasU: true, U: 1, HasD: true, D: 1},
		{HasS: true, S: "1", HasY: true, Y: []byte("1")}, {HasS: true, S: "1", HasI: true, I: 1, HasU: true, U: 1, HasD: true, D: 1}}
	add2 := func(v, c *ast.Expr, n *ast.NameExpr, acc func(l *Label) bool) {
		for _, a := range ls {
			for _, b := range ls {
				w := short(a) + " and " + short(b)
				gram := func(p *ast.Pattern) *ast.Grammar {
					return ast.NewGrammar(map[string]*ast.Pattern{"main": p})
				}
				e := ast.NewFunction("eq", v, c)
				out = append(out, nearPair{gram(ast.NewLeafNode(e)), true, a, b, acc(a), acc(b), "the values " + w + " of " + e.String()},
					nearPair{gram(ast.NewTreeNode(n, ast.NewZAny())), false, a, b, acc(a), acc(b), "the names " + w + " of " + n.String()})
			}
		}
	}
	add2(ast.NewStringVar(), ast.NewStringConst("1"), ast.NewStringName("1"), func(l *Label) bool { return l.HasS && l.S == "1" })
	add2(ast.NewStringVar(), ast.NewStringConst("true"), ast.NewStringName("true"), func(l *Label) bool { return l.HasS && l.S == "true" })
	add2(ast.NewIntVar(), ast.NewIntConst(1), ast.NewIntName(1), func(l *Label) bool { return l.HasI && l.I == 1 })
	add2(ast.NewUintVar(), ast.NewUintConst(1), ast.NewUintName(1), func(l *Label) bool { return l.HasU && l.U == 1 })
	add2(ast.NewDoubleVar(), ast.NewDoubleConst(1), ast.NewDoubleName(1), func(l *Label) bool { return l.HasD && l.D == 1 })
	add2(ast.NewBoolVar(), ast.NewTrue(), ast.NewBoolName(true), func(l *Label) bool { return l.HasB && l.B })
	add2(ast.NewBytesVar(), ast.NewBytesConst([]byte("1")), ast.NewBytesName([]byte("1")), func(l *Label) bool { return l.HasY && bytes.Equal(l.Y, []byte("1")) })
	return out
}

// nearHistories: every pair, presented to one validator as a, b, a, b, b, a, and both in one input in each order.
func nearHistories(r *Run, engines []*Engine) {
	pairs := nearPairs(r.Thorough)
	tps := make([]*TreeParser, 64)
	step := 64
	r.Par((len(pairs)+step-1)/step, func(w, u int) {
		if tps[w] == nil {
			tps[w] = newTreeParser(nil)
		}
		tp := tps[w]
		var n int64
		for i := u * step; i < len(pairs) && i < (u+1)*step; i++ {
			p := pairs[i]
			r.mark(w, func() string { return p.what })
			tree := func(l *Label) []*Tree {
				return []*Tree{{L: l, Leaf: p.leaf}}
			}
			for _, e := range engines {
				what := ""
				err := guard(func() error {
					v, err := e.Prepare(p.g)
					if err != nil || v == nil {
						return err
					}
					for k, second := range []bool{false, true, false, true, true, false} {
						l, want := p.a, p.ra
						if second {
							l, want = p.b, p.rb
						}
						tp.Init(tree(l))
						n++
						got, err := v(parser.Interface(tp))
						if err != nil {
							return err
						}
						if got != want {
							what = fmt.Sprintf("step %d, the input with the %s gives %v, want %v", k+1, map[bool]string{false: "first", true: "second"}[second], got, want)
							return nil
						}
					}
					return nil
				})
				if err != nil {
					what = err.Error()
				}
				if what != "" {
					text := e.Name + ", near values, " + p.what
					r.Violation(text, fmt.Sprintf("engine: %s\nhistory: first, second, first, second, second, first, of %s\n%s", e.Name, p.what, what), map[string]string{"case": text})
				}
			}
		}
		r.States.Add(int64(min(len(pairs)-u*step, step)))
		r.Transitions.Add(n)
		r.Traces.Add(n)
		r.clear(w)
	})
	r.Bound("near values: %d pairs of values or names that differ in one place, bit or type x a history of 6 inputs", len(pairs))
}
