package main

import (
	"errors"
	"fmt"
	"io"
	"math"
	"strconv"
	"strings"

	"github.com/katydid/katydid/parser"
)

// wnode is what a parser presents at one position: the results of all accessors, and what is below.
type wnode struct {
	leaf bool
	sig  string
	kids []*wnode
}

func (n *wnode) show(b *strings.Builder) {
	if n.leaf {
		b.WriteByte('=')
	}
	b.WriteString(n.sig)
	if !n.leaf {
		showNodes(n.kids, b)
	}
}

func showNodes(ns []*wnode, b *strings.Builder) {
	b.WriteByte('{')
	for i, k := range ns {
		if i > 0 {
			b.WriteByte(' ')
		}
		k.show(b)
	}
	b.WriteByte('}')
}

func nodesString(ns []*wnode) string {
	var b strings.Builder
	showNodes(ns, &b)
	return b.String()
}

func countNodes(ns []*wnode) int {
	n := len(ns)
	for _, k := range ns {
		n += countNodes(k.kids)
	}
	return n
}

// vals builds the signature of a position, in the fixed order of the accessors.
type vals struct {
	d    *float64
	i    *int64
	u    *uint64
	b    *bool
	s    *string
	y    []byte
	hasY bool
}

func showDouble(d float64) string {
	if math.IsNaN(d) {
		return "NaN"
	}
	return strconv.FormatFloat(d, 'g', -1, 64) // -0 is shown as -0
}

func (v vals) sig() string {
	var b []byte
	if v.d != nil {
		b = append(append(b, " d"...), showDouble(*v.d)...)
	}
	if v.i != nil {
		b = strconv.AppendInt(append(b, " i"...), *v.i, 10)
	}
	if v.u != nil {
		b = strconv.AppendUint(append(b, " u"...), *v.u, 10)
	}
	if v.b != nil {
		b = strconv.AppendBool(append(b, " b"...), *v.b)
	}
	if v.s != nil {
		b = strconv.AppendQuote(append(b, " s"...), *v.s)
	}
	if v.hasY {
		b = strconv.AppendQuote(append(b, " y"...), string(v.y))
	}
	if len(b) == 0 {
		return "-"
	}
	return string(b[1:])
}

func look(p parser.Value) string {
	var v vals
	if d, err := p.Double(); err == nil {
		v.d = &d
	}
	if i, err := p.Int(); err == nil {
		v.i = &i
	}
	if u, err := p.Uint(); err == nil {
		v.u = &u
	}
	if b, err := p.Bool(); err == nil {
		v.b = &b
	}
	if s, err := p.String(); err == nil {
		v.s = &s
	}
	if y, err := p.Bytes(); err == nil {
		v.y, v.hasY = y, true
	}
	return v.sig()
}

var errSteps = errors.New("more steps than the input can hold: the parser does not terminate")

// walk reads everything below the current position.
func walk(p parser.Interface, steps *int) ([]*wnode, error) {
	var ns []*wnode
	for {
		*steps--
		if *steps < 0 {
			return ns, errSteps
		}
		if err := p.Next(); err != nil {
			if err == io.EOF {
				return ns, nil
			}
			return ns, err
		}
		n := &wnode{leaf: p.IsLeaf(), sig: look(p)}
		ns = append(ns, n)
		if n.leaf {
			continue
		}
		p.Down()
		kids, err := walk(p, steps)
		n.kids = kids
		if err != nil {
			return ns, err
		}
		p.Up()
	}
}

// fullWalk initialises and walks, turning a panic into a *panicErr.
func fullWalk(p parser.Interface, init func() error, steps int) (ns []*wnode, err error) {
	err = guard(func() error {
		if err := init(); err != nil {
			return err
		}
		var werr error
		ns, werr = walk(p, &steps)
		return werr
	})
	return ns, err
}

// firstDiff names the first position at which two walks differ.
func firstDiff(want, got []*wnode, path string) string {
	for i := range want {
		if i >= len(got) {
			return fmt.Sprintf("%s[%d]: missing %s", path, i, nodesString(want[i:i+1]))
		}
		if want[i].leaf != got[i].leaf || want[i].sig != got[i].sig {
			return fmt.Sprintf("%s[%d]: expected leaf=%v %s, got leaf=%v %s", path, i, want[i].leaf, want[i].sig, got[i].leaf, got[i].sig)
		}
		if d := firstDiff(want[i].kids, got[i].kids, fmt.Sprintf("%s[%d]", path, i)); d != "" {
			return d
		}
	}
	if len(got) > len(want) {
		return fmt.Sprintf("%s[%d]: unexpected %s", path, len(want), nodesString(got[len(want):]))
	}
	return ""
}

// chooser drives a depth-first exploration of all choice sequences by re-execution.
type chooser struct {
	path   []int
	widths []int
	at     int
	max    int              // if not 0, the number of choices other than the first in a sequence
	only   func(i int) bool // if not nil, the places at which there can be choices other than the first
}

func (c *chooser) choose(n int) int {
	if c.at == len(c.path) {
		c.path = append(c.path, 0)
		c.widths = append(c.widths, n)
	}
	c.at++
	return c.path[c.at-1]
}

// next moves to the next unexplored sequence.
func (c *chooser) next() bool {
	c.path, c.widths = c.path[:c.at], c.widths[:c.at]
	c.at = 0
	others := 0
	for _, k := range c.path {
		if k > 0 {
			others++
		}
	}
	for len(c.path) > 0 {
		l := len(c.path) - 1
		if c.path[l] > 0 {
			others--
		}
		if c.max > 0 && others >= c.max || c.only != nil && !c.only(l) {
			c.path, c.widths = c.path[:l], c.widths[:l]
			continue
		}
		c.path[l]++
		if c.path[l] < c.widths[l] {
			return true
		}
		c.path, c.widths = c.path[:l], c.widths[:l]
	}
	return false
}

// A partial traversal: at every position after a successful Next the walker continues, descends, or goes up;
// what it sees is compared with the full walk. ops counts parser calls; stopAfter >= 0 abandons the traversal after that many.
type partial struct {
	c     *chooser
	p     parser.Interface
	ops   int
	limit int
	mode  int // accessors are called: 0 everywhere, 1 at leaves, 2 nowhere
	trace []byte
	full  bool // the first choice is to enter
}

var errStop = errors.New("stopped")

func (t *partial) op(b byte) error {
	if t.limit >= 0 && t.ops >= t.limit {
		return errStop
	}
	t.ops++
	t.trace = append(t.trace, b)
	return nil
}

// run explores one choice sequence below the current position, at the given depth.
func (t *partial) run(want []*wnode, depth int) error {
	// A consumer may go up without reading anything.
	if depth > 0 && t.c.choose(2) == 1 {
		return nil
	}
	for i := 0; ; i++ {
		if err := t.op('n'); err != nil {
			return err
		}
		err := t.p.Next()
		if i == len(want) {
			if err != io.EOF {
				return fmt.Errorf("depth %d: expected the end after %d positions, got error %v at %s", depth, i, err, seen(t.p, err))
			}
			return nil
		}
		if err != nil {
			return fmt.Errorf("depth %d: expected position %d (%s), got error %v", depth, i, want[i].sig, err)
		}
		leaf, sig := t.p.IsLeaf(), want[i].sig
		if t.mode == 0 || t.mode == 1 && leaf {
			sig = look(t.p)
		}
		if leaf != want[i].leaf || sig != want[i].sig {
			return fmt.Errorf("depth %d, position %d: expected leaf=%v %s, got leaf=%v %s", depth, i, want[i].leaf, want[i].sig, leaf, sig)
		}
		choices := 1 // continue
		if !leaf {
			choices++
		}
		if depth > 0 {
			choices++
		}
		k := 0
		if choices > 1 {
			k = t.c.choose(choices)
		}
		if t.full && !leaf && k < 2 {
			k = 1 - k
		}
		if !leaf && k == 1 {
			if err := t.op('d'); err != nil {
				return err
			}
			t.p.Down()
			if err := t.run(want[i].kids, depth+1); err != nil {
				return err
			}
			if err := t.op('u'); err != nil {
				return err
			}
			t.p.Up()
		} else if k > 0 {
			return nil // go up early
		}
	}
}

func seen(p parser.Interface, err error) string {
	if err != nil {
		return "-"
	}
	return fmt.Sprintf("leaf=%v %s", p.IsLeaf(), look(p))
}
