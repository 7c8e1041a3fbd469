package main

import (
	"errors"
	"fmt"
	"io"
	"strconv"
	"strings"

	"github.com/katydid/katydid/parser"
)

// Label is a boring parser.Value: it has a value for a subset of the types.
type Label struct {
	HasS, HasI, HasU, HasD, HasB, HasY bool
	S                                  string
	I                                  int64
	U                                  uint64
	D                                  float64
	B                                  bool
	Y                                  []byte
	Ctx                                *ctxVals // what a context-dependent function sees (the model only)
}

var errNoType = errors.New("not a value of this type")

// not is the error for a value of another type: the one that the parsers of the repository return, except that a boolean
// stands for the parsers of users, which return what they like.
func (l *Label) not(err error) error {
	if l.HasB && !l.HasS {
		return errNoType
	}
	return err
}

func (l *Label) Double() (float64, error) {
	if l.HasD {
		return l.D, nil
	}
	return 0, l.not(parser.ErrNotDouble)
}
func (l *Label) Int() (int64, error) {
	if l.HasI {
		return l.I, nil
	}
	return 0, l.not(parser.ErrNotInt)
}
func (l *Label) Uint() (uint64, error) {
	if l.HasU {
		return l.U, nil
	}
	return 0, l.not(parser.ErrNotUint)
}
func (l *Label) Bool() (bool, error) {
	if l.HasB {
		return l.B, nil
	}
	return false, l.not(parser.ErrNotBool)
}
func (l *Label) String() (string, error) {
	if l.HasS {
		return l.S, nil
	}
	return "", l.not(parser.ErrNotString)
}
func (l *Label) Bytes() ([]byte, error) {
	if l.HasY {
		return l.Y, nil
	}
	return nil, l.not(parser.ErrNotBytes)
}

func (l *Label) Show() string {
	var ss []string
	if l.HasS {
		ss = append(ss, strconv.Quote(l.S))
	}
	if l.HasI {
		ss = append(ss, fmt.Sprintf("int:%d", l.I))
	}
	if l.HasU {
		ss = append(ss, fmt.Sprintf("uint:%d", l.U))
	}
	if l.HasD {
		ss = append(ss, fmt.Sprintf("double:%v", l.D))
	}
	if l.HasB {
		ss = append(ss, fmt.Sprintf("bool:%v", l.B))
	}
	if l.HasY {
		ss = append(ss, fmt.Sprintf("bytes:%x", l.Y))
	}
	if len(ss) == 0 {
		return "<untyped>"
	}
	return strings.Join(ss, "/")
}

func strLabel(s string) *Label { return &Label{HasS: true, S: s} }

// numLabel is a number as the json parser presents it: with every numeric type that can hold it.
func numLabel(i int64) *Label {
	l := &Label{HasI: true, I: i, HasD: true, D: float64(i)}
	if i >= 0 {
		l.HasU, l.U = true, uint64(i)
	}
	return l
}
func intLabel(i int64) *Label    { return &Label{HasI: true, I: i} }
func boolLabel(b bool) *Label    { return &Label{HasB: true, B: b} }
func bytesLabel(y []byte) *Label { return &Label{HasY: true, Y: y} }

// Tree is an ordered labelled tree.
type Tree struct {
	L    *Label
	Leaf bool // presented as a leaf: no Down
	Kids []*Tree
}

func showForest(ts []*Tree) string {
	ss := make([]string, len(ts))
	for i, t := range ts {
		ss[i] = t.L.Show()
		if !t.Leaf {
			ss[i] += "{" + showForest(t.Kids) + "}"
		}
	}
	return strings.Join(ss, " ")
}

type frame struct {
	sibs []*Tree
	idx  int
}

var errBudget = errors.New("step budget exceeded")

// TreeParser presents a forest through parser.Interface, and counts, limits, faults or interleaves the calls.
type TreeParser struct {
	stack []frame
	top   frame
	Steps int64
	Limit int64

	// Hook is called before every call (the scheduling point); may be nil.
	Hook func(op string)
	// FailAt injects Err into the n-th fallible call (counted from 1); 0 is never.
	FailAt   int64
	Fallible int64
	Err      error
	Failed   bool
	// FailValues makes value reads count as fallible calls too.
	FailValues bool
	Misuse     string
}

func newTreeParser(f []*Tree) *TreeParser {
	p := &TreeParser{}
	p.Init(f)
	return p
}

func (p *TreeParser) Init(f []*Tree) {
	p.stack = p.stack[:0]
	p.top = frame{f, -1}
	p.Limit = p.Steps + 200000
	p.Failed = false
	p.Fallible = 0
	p.Misuse = ""
}

func (p *TreeParser) step(op string) {
	p.Steps++
	if p.Steps > p.Limit {
		panic(errBudget)
	}
	if p.Hook != nil {
		p.Hook(op)
	}
}

func (p *TreeParser) fail() bool {
	p.Fallible++
	if p.Fallible == p.FailAt {
		p.Failed = true
		return true
	}
	return false
}

func (p *TreeParser) Next() error {
	p.step("Next")
	if p.fail() {
		return p.Err
	}
	if p.top.idx >= len(p.top.sibs) {
		return io.EOF
	}
	p.top.idx++
	if p.top.idx >= len(p.top.sibs) {
		return io.EOF
	}
	return nil
}

func (p *TreeParser) cur(op string) *Tree {
	if p.top.idx < 0 || p.top.idx >= len(p.top.sibs) {
		if p.Misuse == "" {
			p.Misuse = op + " without a current element"
		}
		return &Tree{L: &Label{}, Leaf: true}
	}
	return p.top.sibs[p.top.idx]
}

func (p *TreeParser) IsLeaf() bool {
	p.step("IsLeaf")
	return p.cur("IsLeaf").Leaf
}

func (p *TreeParser) Down() {
	p.step("Down")
	t := p.cur("Down")
	p.stack = append(p.stack, p.top)
	p.top = frame{t.Kids, -1}
}

func (p *TreeParser) Up() {
	p.step("Up")
	if len(p.stack) == 0 {
		p.Misuse = "Up at the top"
		return
	}
	p.top = p.stack[len(p.stack)-1]
	p.stack = p.stack[:len(p.stack)-1]
}

func (p *TreeParser) val(op string) (*Label, error) {
	p.step(op)
	if p.FailValues && p.fail() {
		return nil, p.Err
	}
	return p.cur(op).L, nil
}

func (p *TreeParser) Double() (float64, error) {
	l, err := p.val("Double")
	if err != nil {
		return 0, err
	}
	return l.Double()
}
func (p *TreeParser) Int() (int64, error) {
	l, err := p.val("Int")
	if err != nil {
		return 0, err
	}
	return l.Int()
}
func (p *TreeParser) Uint() (uint64, error) {
	l, err := p.val("Uint")
	if err != nil {
		return 0, err
	}
	return l.Uint()
}
func (p *TreeParser) Bool() (bool, error) {
	l, err := p.val("Bool")
	if err != nil {
		return false, err
	}
	return l.Bool()
}
func (p *TreeParser) String() (string, error) {
	l, err := p.val("String")
	if err != nil {
		return "", err
	}
	return l.String()
}
func (p *TreeParser) Bytes() ([]byte, error) {
	l, err := p.val("Bytes")
	if err != nil {
		return nil, err
	}
	return l.Bytes()
}

var _ parser.Interface = &TreeParser{}

// ---- universes of forests

// Universe is a set of forests closed under taking the children of a node.
type Universe struct {
	Labels  []*Label
	Forests []*Forest
	index   map[string]int
}

type Forest struct {
	ID     int
	Nodes  []UNode
	Trees  []*Tree // presentation: childless nodes are leaves unless emptyOpen
	Size   int
	Unique bool // sibling labels unique at every level
}

type UNode struct {
	Label int
	Kids  int // forest id
}

func (u *Universe) add(nodes []UNode) *Forest {
	key := fmt.Sprint(nodes)
	if i, ok := u.index[key]; ok {
		return u.Forests[i]
	}
	f := &Forest{ID: len(u.Forests), Nodes: nodes, Unique: true}
	seen := map[int]bool{}
	for _, n := range nodes {
		k := u.Forests[n.Kids]
		t := &Tree{L: u.Labels[n.Label], Kids: k.Trees}
		t.Leaf = len(k.Nodes) == 0
		f.Trees = append(f.Trees, t)
		f.Size += 1 + k.Size
		if seen[n.Label] || !k.Unique {
			f.Unique = false
		}
		seen[n.Label] = true
	}
	u.index[key] = f.ID
	u.Forests = append(u.Forests, f)
	return f
}

// openEmpty changes how childless string-labelled nodes are presented: as an inner node without children.
func (u *Universe) openEmpty() {
	for _, f := range u.Forests {
		for _, t := range f.Trees {
			if t.L.HasS && len(t.Kids) == 0 {
				t.Leaf = false
			}
		}
	}
}

// newUniverse makes all forests with at most size nodes, width siblings and depth levels, over the labels;
// only labels for which inner returns true may have children.
func newUniverse(labels []*Label, size, width, depth int, inner func(l int) bool) *Universe {
	u := &Universe{Labels: labels, index: map[string]int{}}
	u.add(nil)
	for s := 1; s <= size; s++ {
		u.gen(s, width, depth, inner)
	}
	return u
}

func (u *Universe) depth(f int) int {
	d := 0
	for _, n := range u.Forests[f].Nodes {
		if dd := 1 + u.depth(n.Kids); dd > d {
			d = dd
		}
	}
	return d
}

func (u *Universe) gen(size, width, depth int, inner func(l int) bool) {
	// all forests of exactly this size: first node with kids of size k, the rest of size-1-k
	bySize := map[int][]int{}
	for _, f := range u.Forests {
		bySize[f.Size] = append(bySize[f.Size], f.ID)
	}
	var rec func(prefix []UNode, left int)
	rec = func(prefix []UNode, left int) {
		if left == 0 {
			u.add(append([]UNode{}, prefix...))
			return
		}
		if len(prefix) == width {
			return
		}
		for l := range u.Labels {
			for k := 0; k < left; k++ {
				if k > 0 && !inner(l) {
					continue
				}
				for _, kf := range bySize[k] {
					if 1+u.depth(kf) > depth {
						continue
					}
					rec(append(prefix, UNode{l, kf}), left-1-k)
				}
			}
		}
	}
	rec(nil, size)
}
