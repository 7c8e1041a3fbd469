package main

import (
	"bytes"
	"fmt"
)

// reusedMemory (C24): a caller reads every document into the same memory, as with a bufio.Reader or a buffer pool.
// Whatever the parser remembers of the earlier document, it may not be read from that memory when it has been overwritten:
// the first document is read entirely or up to some step, its memory is overwritten by the second,
// which is then read as by a new parser from memory of its own.
// The second documents include those with the same layout, which differ in single letters or digits.
func reusedMemory(r *Run, f *tformat, thorough bool) {
	if len(f.good) == 0 {
		return
	}
	if _, ok := f.good[0].([]byte); !ok {
		return
	}
	renamed := func(b []byte, from, to byte) []byte {
		return bytes.Map(func(c rune) rune {
			if c == rune(from) {
				return rune(to)
			}
			if c == rune(to) {
				return rune(from)
			}
			return c
		}, b)
	}
	isASCII := func(b []byte) bool {
		for _, c := range b {
			if c >= 0x80 {
				return false
			}
		}
		return true
	}
	bylen := map[int][]int{}
	for i, g := range f.good {
		n := len(g.([]byte))
		bylen[n] = append(bylen[n], i)
	}
	near := 4
	if thorough {
		near = 12
	}
	read := func(in []byte) ([]*wnode, bool) {
		p := f.mk()
		own := append([]byte{}, in...)
		want, err := fullWalk(p, func() error { return p.init(own) }, 100000)
		return want, err == nil
	}
	r.Par(len(f.good), func(w, i int) {
		one := f.good[i].([]byte)
		r.mark(w, func() string { return f.name + " " + showInput(one) })
		var others [][]byte
		if isASCII(one) {
			others = append(others, renamed(one, 'a', 'b'), renamed(one, 'a', 'z'), renamed(one, 'b', 'c'), renamed(one, '1', '2'), renamed(one, 'k', 'l'))
		}
		same := bylen[len(one)]
		for k := range same {
			if same[k] == i {
				for j := 1; j <= near && j < len(same); j++ {
					others = append(others, f.good[same[(k+j)%len(same)]].([]byte))
				}
			}
		}
		others = append(others, f.good[(i*7+3)%len(f.good)].([]byte))
		mem := make([]byte, 0, 4096)
		for _, two := range others {
			if bytes.Equal(one, two) {
				continue
			}
			want, ok := read(two)
			if !ok {
				continue
			}
			for limit := -1; limit < 24; limit++ {
				p := f.mk()
				steps := "all of it"
				ended := false
				mem = append(mem[:0], one...)
				err := guard(func() error {
					if limit < 0 {
						_, err := fullWalk(p, func() error { return p.init(mem) }, 100000)
						return err
					}
					if err := p.init(mem); err != nil {
						return err
					}
					t := &partial{c: &chooser{}, p: p, limit: limit, mode: 0}
					ended = t.free(0) != errSteps
					steps = fmt.Sprintf("calls %s (n: Next, d: Down, u: Up)", t.trace)
					return nil
				})
				if err != nil {
					break // C23's
				}
				for k := range mem[:cap(mem)] {
					mem[:cap(mem)][k] = 0xff
				}
				mem = append(mem[:0], two...)
				got, err := fullWalk(p, func() error { return p.init(mem) }, 100000)
				r.Traces.Add(1)
				r.States.Add(2)
				r.Transitions.Add(int64(countNodes(want)))
				d := ""
				if err != nil {
					d = err.Error()
				} else {
					d = firstDiff(want, got, "root")
				}
				if d != "" {
					r.Violation(fmt.Sprintf("%s | %s | same memory | %s", f.name, showInput(one), showInput(two)), fmt.Sprintf("%s: after input %s, %s, Init with %s in the same memory: %s\n  a new parser presents %s", f.name, showInput(one), steps, showInput(two), d, nodesString(want)), steps)
					return
				}
				if ended {
					break
				}
			}
		}
	})
	r.Bound("%s: each of %d inputs read, entirely and up to every step, then overwritten in its memory by others of the same length, or with letters exchanged", f.name, len(f.good))
}
