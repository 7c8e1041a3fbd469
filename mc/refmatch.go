package main

import (
	"fmt"
	"strings"

	"github.com/katydid/katydid/relapse/ast"
)

// The reference model of the pattern language: a pattern denotes a set of forests.
// match(p, f) is computed for all sub-sequences of the siblings of a forest at once,
// as a bitmap over sub-sequence masks: no derivatives, no simplification.

type Op int

const (
	OpEmpty Op = iota
	OpAny
	OpNode // a label predicate and a pattern for the children
	OpLeaf // a label predicate and no children
	OpConcat
	OpOr
	OpAnd
	OpInterleave
	OpStar
	OpOptional
	OpNot
	OpContains
	OpRef
)

type Pred struct {
	Text string
	F    func(l *Label) bool
}

type Pat struct {
	Op   Op
	Pred *Pred
	L, R *Pat
	Ref  string
	text string
	Size int
	Pool bool // denotation is memoised
}

func (p *Pat) Text() string {
	if p.text != "" {
		return p.text
	}
	var s string
	switch p.Op {
	case OpEmpty:
		s = "<empty>"
	case OpAny:
		s = "*"
	case OpNode:
		s = p.Pred.Text + ":" + p.L.Text()
	case OpLeaf:
		s = p.Pred.Text
	case OpConcat:
		s = "[" + p.L.Text() + "," + p.R.Text() + "]"
	case OpOr:
		s = "(" + p.L.Text() + "|" + p.R.Text() + ")"
	case OpAnd:
		s = "(" + p.L.Text() + "&" + p.R.Text() + ")"
	case OpInterleave:
		s = "{" + p.L.Text() + ";" + p.R.Text() + "}"
	case OpStar:
		s = "(" + p.L.Text() + ")*"
	case OpOptional:
		s = "(" + p.L.Text() + ")?"
	case OpNot:
		s = "!(" + p.L.Text() + ")"
	case OpContains:
		s = "." + p.L.Text()
	case OpRef:
		s = "@" + p.Ref
	}
	return s
}

func mk(op Op, l, r *Pat) *Pat {
	p := &Pat{Op: op, L: l, R: r, Size: 1}
	if l != nil {
		p.Size += l.Size
	}
	if r != nil {
		p.Size += r.Size
	}
	p.text = p.Text()
	return p
}
func mkNode(pred *Pred, child *Pat) *Pat {
	p := &Pat{Op: OpNode, Pred: pred, L: child, Size: 1 + child.Size}
	p.text = p.Text()
	return p
}
func mkLeaf(pred *Pred) *Pat {
	p := &Pat{Op: OpLeaf, Pred: pred, Size: 1}
	p.text = p.Text()
	return p
}
func mkRef(name string) *Pat { return &Pat{Op: OpRef, Ref: name, Size: 1, text: "@" + name} }

// Gram is a grammar: the start pattern and named patterns.
type Gram struct {
	Main  *Pat
	Names []string
	Decls map[string]*Pat
	Built func() (*ast.Grammar, error) // when it was not parsed from its text
}

func (g *Gram) Text() string {
	var sb strings.Builder
	sb.WriteString(g.Main.Text())
	for _, n := range g.Names {
		fmt.Fprintf(&sb, " #%s = %s", n, g.Decls[n].Text())
	}
	return sb.String()
}

// Matcher computes denotations over a universe.
type Matcher struct {
	U     *Universe
	Decls map[string]*Pat
	memo  map[*Pat][]uint64
	done  map[*Pat][]bool
	preds map[*Pred]uint64 // bitmap over labels
}

func newMatcher(u *Universe, decls map[string]*Pat) *Matcher {
	return &Matcher{U: u, Decls: decls, memo: map[*Pat][]uint64{}, done: map[*Pat][]bool{}, preds: map[*Pred]uint64{}}
}

func (m *Matcher) pred(p *Pred, label int) bool {
	b, ok := m.preds[p]
	if !ok {
		for i, l := range m.U.Labels {
			if p.F(l) {
				b |= 1 << uint(i)
			}
		}
		m.preds[p] = b
	}
	return b&(1<<uint(label)) != 0
}

// Full tells whether the whole forest f is in the denotation of p.
func (m *Matcher) Full(p *Pat, f int) bool {
	n := uint(len(m.U.Forests[f].Nodes))
	return m.Bitmap(p, f)>>((1<<n)-1)&1 == 1
}

// Bitmap has bit k set if the sub-sequence of siblings with mask k is in the denotation of p.
func (m *Matcher) Bitmap(p *Pat, f int) uint64 {
	if !p.Pool {
		return m.compute(p, f)
	}
	d := m.done[p]
	if d == nil {
		d = make([]bool, len(m.U.Forests))
		m.done[p] = d
		m.memo[p] = make([]uint64, len(m.U.Forests))
	}
	if d[f] {
		return m.memo[p][f]
	}
	res := m.compute(p, f)
	m.memo[p][f] = res
	d[f] = true
	return res
}

func (m *Matcher) compute(p *Pat, f int) uint64 {
	var l, r uint64
	switch p.Op {
	case OpConcat, OpOr, OpAnd, OpInterleave:
		l, r = m.Bitmap(p.L, f), m.Bitmap(p.R, f)
	case OpStar, OpOptional, OpNot, OpContains:
		l = m.Bitmap(p.L, f)
	}
	return m.combine(p, f, l, r)
}

// combine computes the bitmap of p over forest f from the bitmaps of its operands.
func (m *Matcher) combine(p *Pat, f int, l, r uint64) uint64 {
	nodes := m.U.Forests[f].Nodes
	n := uint(len(nodes))
	total := uint(1) << n
	all := ^uint64(0)
	if total < 64 {
		all = (uint64(1) << total) - 1
	}
	var res uint64
	switch p.Op {
	case OpEmpty:
		res = 1
	case OpAny:
		res = all
	case OpNode:
		for i := uint(0); i < n; i++ {
			if m.pred(p.Pred, nodes[i].Label) && m.Full(p.L, nodes[i].Kids) {
				res |= 1 << (uint(1) << i)
			}
		}
	case OpLeaf:
		for i := uint(0); i < n; i++ {
			if m.pred(p.Pred, nodes[i].Label) && len(m.U.Forests[nodes[i].Kids].Nodes) == 0 {
				res |= 1 << (uint(1) << i)
			}
		}
	case OpOr:
		res = l | r
	case OpAnd:
		res = l & r
	case OpNot:
		res = all &^ l
	case OpOptional:
		res = l | 1
	case OpConcat:
		res = concatBits(l, r, n)
	case OpInterleave:
		for k := uint(0); k < total; k++ {
			for s := k; ; s = (s - 1) & k {
				if l>>s&1 == 1 && r>>(k&^s)&1 == 1 {
					res |= 1 << k
					break
				}
				if s == 0 {
					break
				}
			}
		}
	case OpStar:
		res = 1
		for k := uint(1); k < total; k++ {
			// a first non-empty part, then a shorter repetition
			for i := uint(0); i < n; i++ {
				lo := k & ((uint(2) << i) - 1)
				hi := k &^ lo
				if lo != 0 && l>>lo&1 == 1 && res>>hi&1 == 1 {
					res |= 1 << k
					break
				}
			}
		}
	case OpContains:
		res = concatBits(all, concatBits(l, all, n), n)
	case OpRef:
		res = m.Bitmap(m.Decls[p.Ref], f)
	}
	return res
}

func concatBits(l, r uint64, n uint) uint64 {
	total := uint(1) << n
	var res uint64
	for k := uint(0); k < total; k++ {
		if l&1 == 1 && r>>k&1 == 1 {
			res |= 1 << k
			continue
		}
		for i := uint(0); i < n; i++ {
			lo := k & ((uint(2) << i) - 1)
			hi := k &^ lo
			if l>>lo&1 == 1 && r>>hi&1 == 1 {
				res |= 1 << k
				break
			}
		}
	}
	return res
}
