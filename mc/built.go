package main

import (
	"fmt"
	"strconv"
	"strings"

	"github.com/katydid/katydid/relapse"
	"github.com/katydid/katydid/relapse/ast"
	"github.com/katydid/katydid/relapse/combinator"
)

// The builders with many operands: the reference patterns of wide.go, built instead of parsed.

type builders struct {
	concat, or, and, interleave func(ps ...*ast.Pattern) *ast.Pattern
	node                        func(n string, ps []*ast.Pattern) *ast.Pattern
	names                       func(ns []string, ps []*ast.Pattern) *ast.Pattern
	contains                    func(p *ast.Pattern) *ast.Pattern
	flat                        bool // many operands at once
}

var combinators = &builders{
	concat:     func(ps ...*ast.Pattern) *ast.Pattern { return combinator.InOrder(ps[0], ps[1:]...) },
	or:         combinator.AnyOf,
	and:        combinator.AllOf,
	interleave: func(ps ...*ast.Pattern) *ast.Pattern { return combinator.InAnyOrder(ps[0], ps[1:]...) },
	node: func(n string, ps []*ast.Pattern) *ast.Pattern {
		return combinator.In(n, ps[0], ps[1:]...)
	},
	names: func(ns []string, ps []*ast.Pattern) *ast.Pattern {
		return combinator.InAnyOf(ns, ps[0], ps[1:]...)
	},
	contains: ast.NewContains,
	flat:     true,
}

var constructors = &builders{
	concat: ast.NewConcat, or: ast.NewOr, and: ast.NewAnd, interleave: ast.NewInterleave,
	node: func(n string, ps []*ast.Pattern) *ast.Pattern {
		return ast.NewTreeNode(ast.NewStringName(n), ast.NewConcat(ps...))
	},
	names: func(ns []string, ps []*ast.Pattern) *ast.Pattern {
		var es []*ast.NameExpr
		for _, n := range ns {
			es = append(es, ast.NewStringName(n))
		}
		return ast.NewTreeNode(ast.NewNameChoice(es...), ast.NewConcat(ps...))
	},
	contains: ast.NewContains,
	flat:     true,
}

func operandsOf(p *Pat, op Op, flat bool) []*Pat {
	if p.Op != op {
		return []*Pat{p}
	}
	if !flat {
		return []*Pat{p.L, p.R}
	}
	ps := []*Pat{p.L}
	for p = p.R; p.Op == op; p = p.R {
		ps = append(ps, p.L)
	}
	return append(ps, p)
}

func (b *builders) all(ps []*Pat) []*ast.Pattern {
	out := make([]*ast.Pattern, len(ps))
	for i, p := range ps {
		out[i] = b.pattern(p)
	}
	return out
}

func (b *builders) pattern(p *Pat) *ast.Pattern {
	switch p.Op {
	case OpEmpty:
		return ast.NewEmpty()
	case OpAny:
		return combinator.Any()
	case OpNode:
		n := p.Pred.Text
		not := strings.HasPrefix(n, "!(")
		if not {
			n = strings.TrimSuffix(strings.TrimPrefix(n, "!("), ")")
		}
		var ns []string
		if strings.HasPrefix(n, "(") {
			ns = strings.Split(n[1:len(n)-1], "|")
		} else {
			ns = []string{n}
		}
		children := b.all(operandsOf(p.L, OpConcat, b.flat))
		var t *ast.Pattern
		if len(ns) == 1 {
			t = b.node(ns[0], children)
		} else {
			t = b.names(ns, children)
		}
		if not {
			return ast.NewTreeNode(ast.NewAnyNameExcept(t.TreeNode.Name), t.TreeNode.Pattern)
		}
		return t
	case OpLeaf:
		i, err := strconv.ParseInt(strings.TrimPrefix(p.Pred.Text, "== "), 10, 64)
		if err != nil {
			panic(err)
		}
		return combinator.Value(combinator.Eq(combinator.IntVar(), combinator.IntConst(i)))
	case OpConcat:
		return b.concat(b.all(operandsOf(p, OpConcat, b.flat))...)
	case OpOr:
		return b.or(b.all(operandsOf(p, OpOr, b.flat))...)
	case OpAnd:
		return b.and(b.all(operandsOf(p, OpAnd, b.flat))...)
	case OpInterleave:
		return b.interleave(b.all(operandsOf(p, OpInterleave, b.flat))...)
	case OpNot:
		return combinator.OppositeOf(b.pattern(p.L))
	case OpStar:
		return combinator.Many(b.pattern(p.L))
	case OpOptional:
		return combinator.Maybe(b.pattern(p.L))
	case OpContains:
		return b.contains(b.pattern(p.L))
	case OpRef:
		return combinator.Eval(p.Ref)
	}
	panic(fmt.Sprintf("no builder for %d", p.Op))
}

func (b *builders) grammar(g *Gram) *ast.Grammar {
	ps := combinator.G{"main": b.pattern(g.Main)}
	for n, p := range g.Decls {
		ps[n] = b.pattern(p)
	}
	return ps.Grammar()
}

func checkC28Wide(r *Run) {
	binary := *constructors
	binary.flat = false
	for _, way := range []struct {
		name string
		b    *builders
	}{{" built with combinators", combinators}, {" built with constructors", constructors}, {" built with two operands at a time", &binary}} {
		way := way
		exploreManyOperandsOf(r, []*Engine{engMem}, map[bool]int{false: 34, true: 66}[r.Thorough], way.name, func(g *Gram) (*ast.Grammar, error) {
			return way.b.grammar(g), nil
		})
	}
	exploreManyOperandsOf(r, []*Engine{engMem}, map[bool]int{false: 17, true: 66}[r.Thorough], " built with combinators, printed and parsed", func(g *Gram) (*ast.Grammar, error) {
		return relapse.Parse(combinators.grammar(g).String())
	})
	// the number of operands: none is nil, one is that operand
	err := guard(func() error {
		for name, f := range map[string]func(ps ...*ast.Pattern) *ast.Pattern{"NewConcat": ast.NewConcat, "NewOr": ast.NewOr, "NewAnd": ast.NewAnd, "NewInterleave": ast.NewInterleave} {
			if f() != nil {
				return fmt.Errorf("ast.%s() is not nil", name)
			}
			for _, a := range bpAtoms() {
				if p := a.make(newSharing(false)); f(p) != p {
					return fmt.Errorf("ast.%s(%s) is not %s", name, a.text, a.text)
				}
			}
		}
		if ast.NewNameChoice() != nil {
			return fmt.Errorf("ast.NewNameChoice() is not nil")
		}
		if n := ast.NewIntName(1); ast.NewNameChoice(n) != n {
			return fmt.Errorf("ast.NewNameChoice(1) is not 1")
		}
		return nil
	})
	if err != nil {
		r.Violation("few operands | "+err.Error(), err.Error(), map[string]string{"call": err.Error()})
	}
}
