package main

import (
	"errors"
	"fmt"
	"os"
	"strings"
	"time"
)

// Many states: grammars whose validators reach a number of states, of sets of open and close transitions or of patterns
// that is exponential in (or the product of) a parameter, over documents that reach all of them with one prepared validator,
// forwards and backwards. The oracle of every family is the plain meaning of its grammar, written down here.

var errStates = errors.New("the input fails")

type stateDoc struct {
	trees []*Tree
	name  string
	want  bool
}

type stateCase struct {
	text string
	docs []stateDoc
	// unique siblings: the record-optimised engines apply.
	record bool
}

func leafTree(l *Label) *Tree { return &Tree{L: l, Leaf: true} }

func nameTree(s string, kids ...*Tree) *Tree {
	return &Tree{L: strLabel(s), Leaf: len(kids) == 0, Kids: kids}
}

// wordsUpTo calls f for every word of 0 to n symbols out of m.
func wordsUpTo(n, m int, f func(w []int)) {
	w := make([]int, 0, n)
	var rec func(left int)
	rec = func(left int) {
		if left == 0 {
			f(w)
			return
		}
		for s := 0; s < m; s++ {
			w = append(w, s)
			rec(left - 1)
			w = w[:len(w)-1]
		}
	}
	for l := 0; l <= n; l++ {
		rec(l)
	}
}

func wordTrees(syms []*Tree, w []int) ([]*Tree, string) {
	ts := make([]*Tree, len(w))
	for i, s := range w {
		ts[i] = syms[s]
	}
	return ts, fmt.Sprint(w)
}

// deBruijn is a cyclic word over two symbols with every word of n symbols in it.
func deBruijn(n int) []int {
	var out []int
	a := make([]int, n+1)
	var db func(t, p int)
	db = func(t, p int) {
		if t > n {
			if n%p == 0 {
				out = append(out, a[1:p+1]...)
			}
			return
		}
		a[t] = a[t-p]
		db(t+1, p)
		for j := a[t-p] + 1; j < 2; j++ {
			a[t] = j
			db(t+1, t)
		}
	}
	db(1, 1)
	return out
}

// stateCases: at most 2^bits states in a family, and at most product for the counters.
func stateCases(bits int, product int) (cs []stateCase) {
	sym := func(ts ...*Tree) []*Tree { return ts }
	one, two := leafTree(numLabel(1)), leafTree(numLabel(2))
	// the label that is k+1 from the end: all words, and the cyclic word of all words twice with every end.
	for k := 1; k <= bits; k++ {
		any := strings.Repeat(",_:*", k)
		for _, v := range []struct {
			first string
			syms  []*Tree
			isA   []bool
			not   bool
		}{
			{"a:*", sym(nameTree("a"), nameTree("b")), []bool{true, false}, false},
			{"a:*", sym(nameTree("b"), nameTree("a")), []bool{false, true}, true},
			{"_:== 1", sym(nameTree("a", one), nameTree("a", two)), []bool{true, false}, false},
			{"_:b:== 1", sym(nameTree("a", nameTree("b", one)), nameTree("a", nameTree("b", two))), []bool{true, false}, true},
			{"!(a):*", sym(nameTree("a"), nameTree("b")), []bool{false, true}, false},
			{"== 1", sym(one, two), []bool{true, false}, false},
		} {
			text := "[*," + v.first + any + "]"
			if v.not {
				text = "!(" + text + ")"
			}
			c := stateCase{text: text}
			says := func(w []int) bool { return (len(w) > k && v.isA[w[len(w)-1-k]]) != v.not }
			wordsUpTo(k+2, 2, func(w []int) {
				ts, name := wordTrees(v.syms, w)
				c.docs = append(c.docs, stateDoc{ts, name, says(w)})
			})
			db := deBruijn(k + 1)
			db = append(append([]int{}, db...), db...)
			step := len(db)/64 + 1
			for n := 1; n <= len(db); n += step {
				ts, _ := wordTrees(v.syms, db[:n])
				c.docs = append(c.docs, stateDoc{ts, fmt.Sprintf("the first %d of the cyclic word of all words of %d", n, k+1), says(db[:n])})
			}
			cs = append(cs, c)
			// as the children of the elements of one document: every word is one of its elements.
			if k <= bits-2 {
				c := stateCase{text: fmt.Sprintf("((x:%s|y:!(%s)))*", text, text)}
				var all []*Tree
				wordsUpTo(k+2, 2, func(w []int) {
					ts, name := wordTrees(v.syms, w)
					n, m := "x", "y"
					if !says(w) {
						n, m = m, n
					}
					all = append(all, nameTree(n, ts...))
					c.docs = append(c.docs, stateDoc{[]*Tree{nameTree(n, ts...)}, n + name, true}, stateDoc{[]*Tree{nameTree(m, ts...)}, m + name, false})
					if len(w) == k+1 && len(all)%(1<<uint(k+1)/64+1) == 0 {
						c.docs = append(c.docs, stateDoc{append(append([]*Tree{}, all...), nameTree(m, ts...)), fmt.Sprintf("all words until %s and it wrongly", name), false})
					}
				})
				c.docs = append(c.docs, stateDoc{all, "every word as an element", true})
				cs = append(cs, c)
			}
		}
	}
	// interleave of n names: all subsets, in order and reversed; optional: the subsets themselves are the language.
	for n := 2; n <= bits; n++ {
		var names, opts []string
		var kids []*Tree
		for i := 0; i < n; i++ {
			names = append(names, fmt.Sprintf("k%d:*", i))
			opts = append(opts, fmt.Sprintf("(k%d:== 1)?", i))
			kids = append(kids, nameTree(fmt.Sprintf("k%d", i), one))
		}
		must := stateCase{text: "{" + strings.Join(names, ";") + "}", record: true}
		may := stateCase{text: "{" + strings.Join(opts, ";") + "}", record: true}
		for s := 0; s < 1<<uint(n); s++ {
			var fw, bw []*Tree
			for i := 0; i < n; i++ {
				if s>>uint(i)&1 == 1 {
					fw = append(fw, kids[i])
				}
				if j := n - 1 - i; s>>uint(j)&1 == 1 {
					bw = append(bw, kids[j])
				}
			}
			must.docs = append(must.docs, stateDoc{fw, fmt.Sprintf("subset %b", s), len(fw) == n}, stateDoc{bw, fmt.Sprintf("subset %b reversed", s), len(bw) == n})
			may.docs = append(may.docs, stateDoc{fw, fmt.Sprintf("subset %b", s), true}, stateDoc{bw, fmt.Sprintf("subset %b reversed", s), true})
			if len(fw) > 0 {
				may.docs = append(may.docs, stateDoc{append(append([]*Tree{}, fw...), fw[0]), fmt.Sprintf("subset %b and the first again", s), false},
					stateDoc{append(append([]*Tree{}, bw[1:]...), nameTree(bw[0].L.S, two)), fmt.Sprintf("subset %b, the greatest last with another number", s), false})
			}
		}
		cs = append(cs, must, may)
	}
	// many vectors of which children are accepted: n alternatives, each of which asks for another child of every element.
	for n := 2; n <= bits-1; n++ {
		var alts []string
		var kids []*Tree
		for i := 0; i < n; i++ {
			alts = append(alts, fmt.Sprintf("(x:.k%d:*)*", i))
			kids = append(kids, nameTree(fmt.Sprintf("k%d", i)))
		}
		some := stateCase{text: "(" + strings.Join(alts, "|") + ")"}
		both := stateCase{text: "((" + strings.Join(alts[:n/2], "|") + ")&(" + strings.Join(alts[n/2:], "|") + "))"}
		if n == 2 {
			both = stateCase{text: "(" + alts[0] + "&" + alts[1] + ")"}
		}
		if n == 3 {
			both = stateCase{text: "(" + alts[0] + "&(" + alts[1] + "|" + alts[2] + "))"}
		}
		x := func(s int) *Tree {
			var ks []*Tree
			for i := 0; i < n; i++ {
				if s>>uint(i)&1 == 1 {
					ks = append(ks, kids[i])
				}
			}
			return &Tree{L: strLabel("x"), Kids: ks}
		}
		add := func(ss ...int) {
			and := 1<<uint(n) - 1
			var ts []*Tree
			for _, s := range ss {
				and &= s
				ts = append(ts, x(s))
			}
			low := 1<<uint(n/2) - 1
			some.docs = append(some.docs, stateDoc{ts, fmt.Sprintf("elements with the children %b", ss), and != 0})
			both.docs = append(both.docs, stateDoc{ts, fmt.Sprintf("elements with the children %b", ss), and&low != 0 && and&^low != 0})
		}
		all := 1<<uint(n) - 1
		for s := 0; s <= all; s++ {
			add(s)
			for i := 0; i < n; i++ {
				add(s, 1<<uint(i))
				add(all&^(1<<uint(i)), s)
			}
			add(s, all&^s)
			add(s, s)
			add(s, s^(s>>1), all)
		}
		cs = append(cs, some, both)
	}
	// many vectors of two names: the i-th alternative asks for the i-th child of every x and for the next one of every y.
	for n := 2; n <= bits-2; n++ {
		var alts []string
		var kids []*Tree
		for i := 0; i < n; i++ {
			alts = append(alts, fmt.Sprintf("((x:.k%d:*|y:.k%d:*))*", i, (i+1)%n))
			kids = append(kids, nameTree(fmt.Sprintf("k%d", i)))
		}
		c := stateCase{text: "(" + strings.Join(alts, "|") + ")"}
		all := 1<<uint(n) - 1
		add := func(ss ...int) {
			// s and its complement's sign: a negative number is a y with the children ^s
			and := all
			var ts []*Tree
			for _, s := range ss {
				name, set := "x", s
				if s < 0 {
					name, set = "y", ^s
				}
				var ks []*Tree
				for i := 0; i < n; i++ {
					if set>>uint(i)&1 == 1 {
						ks = append(ks, kids[i])
					}
				}
				ts = append(ts, &Tree{L: strLabel(name), Kids: ks})
				if s < 0 {
					set = set>>1 | set&1<<uint(n-1)
				}
				and &= set
			}
			c.docs = append(c.docs, stateDoc{ts, fmt.Sprintf("x (and y: negative) with the children %v", ss), and != 0})
		}
		for s := 0; s <= all; s++ {
			add(s)
			add(^s)
			for i := 0; i < n; i++ {
				add(s, ^(1 << uint(i)))
				add(^s, 1<<uint(i))
				add(^(all &^ (1 << uint(i))), s)
				add(all&^(1<<uint(i)), ^s)
			}
			add(s, ^(all &^ s))
			add(s, ^s)
			add(^s, s, s^(s>>1))
		}
		cs = append(cs, c)
	}
	// many combinations of names: the name numbered s is one of the i-th choice if it has bit i, and each choice asks for another child.
	for n := 2; n <= bits-3 && n <= 7; n++ {
		var alts []string
		var kids, named []*Tree
		for i := 0; i < n; i++ {
			var choice []string
			for s := 0; s < 1<<uint(n); s++ {
				if s>>uint(i)&1 == 1 {
					choice = append(choice, fmt.Sprintf("n%d", s))
				}
			}
			alts = append(alts, fmt.Sprintf("((%s):[*,k%d:*,*])*", strings.Join(choice, "|"), i))
			kids = append(kids, nameTree(fmt.Sprintf("k%d", i)))
		}
		c := stateCase{text: "(" + strings.Join(alts, "|") + ")"}
		for s := 0; s < 1<<uint(n); s++ {
			for t := 0; t < 1<<uint(n); t++ {
				var ks []*Tree
				for i := 0; i < n; i++ {
					if t>>uint(i)&1 == 1 {
						ks = append(ks, kids[i])
					}
				}
				el := &Tree{L: strLabel(fmt.Sprintf("n%d", s)), Kids: ks}
				named = append(named, el)
				c.docs = append(c.docs, stateDoc{[]*Tree{el}, fmt.Sprintf("name %b, children %b", s, t), s&t != 0})
				if last := named[len(named)*5/7]; len(named) > 2 {
					var a, b int
					fmt.Sscanf(last.L.S, "n%d", &a)
					for _, k := range last.Kids {
						var i int
						fmt.Sscanf(k.L.S, "k%d", &i)
						b |= 1 << uint(i)
					}
					c.docs = append(c.docs, stateDoc{[]*Tree{last, el}, fmt.Sprintf("names %b %b, children %b %b", a, s, b, t), a&b&s&t != 0})
				}
			}
		}
		cs = append(cs, c)
	}
	// counters: the number of elements is a multiple of every p (and, all in one disjunction, of some p).
	for _, ps := range [][]int{{2, 3}, {3, 4, 5}, {2, 3, 5, 7}, {7, 11, 13}, {5, 7, 9, 11}, {16, 9, 25}} {
		lcm := 1
		for _, p := range ps {
			lcm *= p
		}
		if lcm > product {
			continue
		}
		for _, el := range []string{"_:*", "_:== 1"} {
			parts := func(neg bool) (ts []string) {
				for _, p := range ps {
					t := "([" + el + strings.Repeat(","+el, p-1) + "])*"
					if neg {
						t = "!(" + t + ")"
					}
					ts = append(ts, t)
				}
				return
			}
			all := stateCase{text: "(" + strings.Join(parts(false), "&") + ")"}
			some := stateCase{text: "!((" + strings.Join(parts(true), "&") + "))"}
			el := nameTree("a", one)
			for n := 0; n <= lcm+2; n++ {
				if n > 66 && n < lcm-2 && n%(lcm/30) != 0 {
					continue
				}
				ts := make([]*Tree, n)
				for i := range ts {
					ts[i] = el
				}
				every, any := true, false
				for _, p := range ps {
					every, any = every && n%p == 0, any || n%p == 0
				}
				all.docs = append(all.docs, stateDoc{ts, fmt.Sprintf("%d elements", n), every})
				some.docs = append(some.docs, stateDoc{ts, fmt.Sprintf("%d elements", n), any})
			}
			cs = append(cs, all, some)
		}
	}
	return cs
}

// exploreStates runs the engines over the documents; with faults, every third document is preceded by one that fails at a step.
func exploreStates(r *Run, engines []*Engine, bits int, product int, faults bool) {
	cs := stateCases(bits, product)
	docs := 0
	for _, c := range cs {
		docs += len(c.docs)
	}
	r.Par(len(cs), func(w, i int) { runStates(r, w, &cs[len(cs)-1-i], engines, faults) })
	r.Bound("many states (up to 2^%d, or %d by counting): %d grammars, %d documents in all, forwards and backwards with the same validator%s x %d engines", bits+1, product, len(cs), docs, map[bool]string{true: ", failing at a step before every third of them"}[faults], len(engines))
}

func runStates(r *Run, w int, c *stateCase, engines []*Engine, faults bool) {
	r.mark(w, func() string { return "many states, grammar " + c.text })
	tp := newTreeParser(nil)
	acc := 0
	for i := range c.docs {
		if c.docs[i].want {
			acc++
		}
	}
	r.States.Add(int64(len(c.docs)))
	r.outcomesAdd(int64(acc), int64(len(c.docs)-acc))
	g := &Gram{}
	for _, e := range engines {
		if e.Record && !c.record {
			continue
		}
		t0 := time.Now()
		bad := "-"
		err := guard(func() error {
			pg, err := g.parsed(c.text)
			if err != nil {
				return err
			}
			v, err := e.Prepare(pg)
			if err != nil {
				return fmt.Errorf("preparing fails: %v", err)
			}
			if v == nil {
				r.gaveUp.Add(1)
				return nil
			}
			for k := 0; k < 2*len(c.docs); k++ {
				d := &c.docs[min(k, 2*len(c.docs)-1-k)]
				if f := &c.docs[(k*7)%len(c.docs)]; faults && k%3 == 0 && len(f.trees) < 1000 {
					bad = fmt.Sprintf("%s failing in pass %d", f.name, k/len(c.docs)+1)
					tp.Init(f.trees)
					tp.FailAt, tp.Err = int64(k%(len(f.trees)+1)+1), errStates
					_, err := v(tp)
					if tp.Failed && err != errStates {
						return fmt.Errorf("the parser fails with %v, the validator with %v", errStates, err)
					}
					tp.FailAt, tp.Err = 0, nil
				}
				bad = fmt.Sprintf("%s in pass %d", d.name, k/len(c.docs)+1)
				tp.Init(d.trees)
				tp.Limit += 20000000
				got, err := v(tp)
				if err != nil {
					return fmt.Errorf("unexpected error: %v", err)
				}
				if tp.Misuse != "" {
					return fmt.Errorf("parser misuse: %s", tp.Misuse)
				}
				if got != d.want {
					return fmt.Errorf("verdict %v, but the meaning of the grammar says %v", got, d.want)
				}
				r.Traces.Add(1)
			}
			return nil
		})
		if d := time.Since(t0); d > time.Second && os.Getenv("VMC_VERBOSE") != "" {
			fmt.Fprintf(os.Stderr, "slow %v %s %.200s\n", d, e.Name, c.text)
		}
		if err != nil {
			r.Violation(e.Name+" | "+c.text+" | "+bad, fmt.Sprintf("engine: %s\ngrammar: %s\ntree: %s\n%v", e.Name, c.text, bad, err),
				map[string]string{"engine": e.Name, "grammar": c.text, "tree": bad})
		}
	}
	r.Transitions.Add(tp.Steps)
}
