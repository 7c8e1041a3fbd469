package main

import (
	"fmt"
	"math/big"
	"strings"

	"github.com/katydid/katydid/relapse"
	"github.com/katydid/katydid/relapse/ast"
	"github.com/katydid/katydid/relapse/intern"
	"github.com/katydid/katydid/relapse/sets"
)

func bitsOf(size int, on []int) sets.Bits {
	b := sets.NewBits(size)
	for _, i := range on {
		b.Set(i, true)
	}
	return b
}

// bitsShow reads every bit.
func bitsShow(b sets.Bits, size int) string {
	var sb strings.Builder
	for i := 0; i < size; i++ {
		if b.Get(i) {
			sb.WriteByte('1')
		} else {
			sb.WriteByte('0')
		}
	}
	return sb.String()
}

func wantBits(size int, on []int) string {
	bs := []byte(strings.Repeat("0", size))
	for _, i := range on {
		bs[i] = '1'
	}
	return string(bs)
}

func bigBits(n *big.Int, size int) []int {
	var on []int
	for i := 0; i < size; i++ {
		if n.Bit(i) == 1 {
			on = append(on, i)
		}
	}
	return on
}

// windows: every combination of the bits in a window around each word boundary, over a background of zeros or ones.
func windows(size, width int) [][]int {
	var out [][]int
	edges := []int{0}
	for e := 64; e <= size; e += 64 {
		edges = append(edges, e)
	}
	edges = append(edges, size)
	seen := map[string]bool{}
	for _, e := range edges {
		lo, hi := e-width/2, e+(width+1)/2
		if lo < 0 {
			hi -= lo
			lo = 0
		}
		if hi > size {
			lo -= hi - size
			hi = size
		}
		if lo < 0 {
			lo = 0
		}
		for v := 0; v < 1<<uint(hi-lo); v++ {
			for bg := 0; bg < 4; bg++ {
				var on []int
				for i := 0; i < lo; i++ {
					if bg&1 == 1 {
						on = append(on, i)
					}
				}
				for i := lo; i < hi; i++ {
					if v>>uint(i-lo)&1 == 1 {
						on = append(on, i)
					}
				}
				for i := hi; i < size; i++ {
					if bg&2 == 2 {
						on = append(on, i)
					}
				}
				k := wantBits(size, on)
				if !seen[k] {
					seen[k] = true
					out = append(out, on)
				}
			}
		}
	}
	return out
}

func init() {
	register("C26", func(r *Run) {
		sizes := []int{}
		maxSize, width := 200, 8
		if r.Thorough {
			maxSize, width = 330, 10
		}
		for s := 0; s <= maxSize; s++ {
			sizes = append(sizes, s)
		}
		r.Par(len(sizes), func(w, i int) {
			size := sizes[i]
			vs := windows(size, width)
			var built []sets.Bits
			var want []string
			for _, on := range vs {
				on := on
				ww := wantBits(size, on)
				key := fmt.Sprintf("bits size %d value %s", size, ww)
				r.mark(w, func() string { return key })
				err := guard(func() error {
					b := bitsOf(size, on)
					if got := bitsShow(b, size); got != ww {
						return fmt.Errorf("setting gives %s, want %s", got, ww)
					}
					built, want = append(built, b), append(want, ww)
					// clear and set again, through each bit
					c := bitsOf(size, on)
					for k := 0; k < size; k += 1 + size/16 {
						old := c.Get(k)
						c.Set(k, !old)
						if got := bitsShow(c, size); got != ww[:k]+string("10"[b2i(old)])+ww[k+1:] {
							return fmt.Errorf("changing bit %d gives %s, from %s", k, got, ww)
						}
						if c.Equal(b) || b.Equal(c) {
							return fmt.Errorf("equal to %s", bitsShow(c, size))
						}
						c.Set(k, !old)
						c.Set(k, old)
						c.Set(k, old)
						if got := bitsShow(c, size); got != ww {
							return fmt.Errorf("restoring bit %d gives %s, from %s", k, got, ww)
						}
					}
					n := new(big.Int)
					for _, i := range on {
						n.SetBit(n, i, 1)
					}
					n.Add(n, big.NewInt(1))
					if n.BitLen() <= size {
						d := b.Inc()
						next := wantBits(size, bigBits(n, size))
						if got := bitsShow(d, size); got != next {
							return fmt.Errorf("increments to %s, want %s", got, next)
						}
						if !d.Equal(bitsOf(size, bigBits(n, size))) {
							return fmt.Errorf("the increment is not equal to %s", next)
						}
						if got := bitsShow(b, size); got != ww {
							return fmt.Errorf("incrementing changes it to %s", got)
						}
					}
					return nil
				})
				r.States.Add(1)
				r.Transitions.Add(20)
				if err != nil {
					r.Violation(key, fmt.Sprintf("%s: %v", key, err), nil)
				}
			}
			step := 1
			if len(built) > 600 {
				step = len(built)/600 + 1
			}
			for x := 0; x < len(built); x += step {
				for y := 0; y < len(built); y++ {
					r.Transitions.Add(1)
					if e := built[x].Equal(built[y]); e != (want[x] == want[y]) {
						r.Violation(fmt.Sprintf("bits equal %s %s", want[x], want[y]), fmt.Sprintf("bit vectors %s and %s: Equal gives %v", want[x], want[y], e), nil)
					}
				}
			}
			r.Traces.Add(int64(len(built)))
		})
		r.Bound("bit vectors of every size up to %d: every combination of %d bits around each word boundary over four backgrounds", maxSize, width)

		// counting through all values
		r.Par(18, func(w, size int) {
			r.mark(w, func() string { return fmt.Sprint("counting with ", size, " bits") })
			err := guard(func() error {
				b := sets.NewBits(size)
				for v := 0; v < 1<<uint(size); v++ {
					for i := 0; i < size; i++ {
						if b.Get(i) != (v>>uint(i)&1 == 1) {
							return fmt.Errorf("after %d increments bit %d is %v", v, i, b.Get(i))
						}
					}
					b = b.Inc()
				}
				return nil
			})
			if err != nil {
				r.Violation(fmt.Sprint("count ", size), fmt.Sprintf("bit vector of size %d: %v", size, err), nil)
			}
			r.Transitions.Add(1 << uint(size))
		})
		r.Bound("counting from zero through every value for sizes up to 17")
		// out of range
		for _, size := range []int{0, 1, 63, 64, 65, 128} {
			for _, i := range []int{-1, size, size + 1, size + 64} {
				b := sets.NewBits(size)
				if err := guard(func() error { b.Get(i); return nil }); err == nil {
					r.Violation(fmt.Sprint("range ", size, i), fmt.Sprintf("reading bit %d of a vector of size %d is not refused", i, size), nil)
				}
				if err := guard(func() error { b.Set(i, true); return nil }); err == nil {
					r.Violation(fmt.Sprint("range set ", size, i), fmt.Sprintf("setting bit %d of a vector of size %d is not refused", i, size), nil)
				}
			}
		}

		exploreIndexSets(r)
		exploreHugeSets(r)
		exploreZip(r)
		exploreSetOfPatterns(r)
	})
}

func b2i(b bool) int {
	if b {
		return 1
	}
	return 0
}

// seqs calls f with every sequence over n letters of length up to m.
func seqs(n, m int) [][]int {
	out := [][]int{{}}
	for lo, l := 0, 0; l < m; l++ {
		hi := len(out)
		for _, s := range out[lo:hi] {
			for i := 0; i < n; i++ {
				out = append(out, append(append([]int{}, s...), i))
			}
		}
		lo = hi
	}
	return out
}

// insertions checks a set against the sequence of insertions of values with the given keys.
func insertions(r *Run, name string, keys []string, length int, fresh func() (add func(i int) int, index func(i int) int)) {
	ss := seqs(len(keys), length)
	r.Par(len(ss), func(w, k int) {
		s := ss[k]
		r.mark(w, func() string { return fmt.Sprint(name, " ", s) })
		r.States.Add(1)
		r.Transitions.Add(int64(len(s)))
		err := guard(func() error {
			add, index := fresh()
			at := map[string]int{}
			for step, i := range s {
				got := add(i)
				want, ok := at[keys[i]]
				if ok && got != want {
					return fmt.Errorf("step %d: adding %s again gives index %d, before %d", step, keys[i], got, want)
				}
				if !ok {
					for k2, v := range at {
						if v == got {
							return fmt.Errorf("step %d: %s and %s share index %d", step, keys[i], k2, got)
						}
					}
					at[keys[i]] = got
				}
				if index != nil {
					for j := range keys {
						want, ok := at[keys[j]]
						if !ok {
							want = -1
						}
						if got := index(j); got != want {
							return fmt.Errorf("step %d: the index of %s is %d, want %d", step, keys[j], got, want)
						}
					}
				}
			}
			return nil
		})
		if err != nil {
			r.Violation(fmt.Sprint(name, s), fmt.Sprintf("%s, insertions %v: %v", name, s, err), nil)
		}
	})
	r.Bound("%s: every sequence of up to %d insertions of %d values", name, length, len(keys))
}

func exploreIndexSets(r *Run) {
	length := 5
	if r.Thorough {
		length = 6
	}
	ints := [][]int{{}, {0}, {1}, {0, 1}, {1, 0}, {1, 32}, {2, 1}, {-1}, {-1, 0}, {0, 0}, nil}
	var ikeys []string
	for _, x := range ints {
		ikeys = append(ikeys, fmt.Sprint(x))
	}
	insertions(r, "integer lists", ikeys, length, func() (func(int) int, func(int) int) {
		s := sets.NewInts()
		return func(i int) int { return s.Add(ints[i]) }, func(i int) int { return s.Index(ints[i]) }
	})
	pairs := []sets.Pair{{0, 0}, {0, 1}, {1, 0}, {1, 1}, {-1, 0}, {32, 1}, {1, 32}}
	var pkeys []string
	for _, x := range pairs {
		pkeys = append(pkeys, fmt.Sprint(x))
	}
	insertions(r, "pairs", pkeys, length, func() (func(int) int, func(int) int) {
		s := sets.NewPairs()
		return func(i int) int { return s.Add(pairs[i]) }, func(i int) int { return s.Index(pairs[i]) }
	})
	type bv struct {
		size int
		on   []int
	}
	bits := []bv{{0, nil}, {1, nil}, {1, []int{0}}, {2, []int{0}}, {63, []int{0}}, {64, []int{0}}, {64, []int{63}}, {65, []int{64}}, {65, []int{0}}, {65, []int{0, 64}}, {128, []int{127}}, {129, []int{128}}, {129, []int{64}}, {129, []int{0}}}
	var bkeys []string
	for _, x := range bits {
		bkeys = append(bkeys, wantBits(x.size, x.on)+fmt.Sprint("/", x.size))
	}
	insertions(r, "bit vectors", bkeys, length-1, func() (func(int) int, func(int) int) {
		s := sets.NewBitsSet()
		return func(i int) int { return s.Add(bitsOf(bits[i].size, bits[i].on)) }, func(i int) int { return s.Index(bitsOf(bits[i].size, bits[i].on)) }
	})
	lists, keys := patternLists(r, 2)
	lists, keys = lists[:min(len(lists), 40)], keys[:min(len(keys), 40)]
	insertions(r, "pattern lists", keys, 3, func() (func(int) int, func(int) int) {
		s := sets.NewPatterns()
		return func(i int) int { return s.Add(lists[i]) }, func(i int) int { return s.Index(lists[i]) }
	})
}

// exploreHugeSets: an entry keeps its index however many follow, and is found again.
func exploreHugeSets(r *Run) {
	n := 17000
	if r.Thorough {
		n = 66000
	}
	bits := func(i int) sets.Bits {
		var on []int
		for j := 0; j < 17; j++ {
			if i>>uint(j)&1 == 1 {
				on = append(on, j*7)
			}
		}
		return bitsOf(113, on)
	}
	names := make([]*ast.Pattern, 12)
	for i := range names {
		g, err := relapse.Parse(fmt.Sprintf("k%d:*", i))
		if err != nil {
			panic(err)
		}
		names[i] = g.TopPattern
	}
	// the patterns of i are its digits to the base of the number of names
	pats := func(i int) (ps []*ast.Pattern) {
		for ; i > 0; i /= len(names) {
			ps = append(ps, names[i%len(names)])
		}
		return
	}
	is, ps, bs, qs := sets.NewInts(), sets.NewPairs(), sets.NewBitsSet(), sets.NewPatterns()
	for _, s := range []struct {
		name       string
		n          int
		add, index func(i int) int
	}{
		{"integer lists", n, func(i int) int { return is.Add([]int{i % 100, i / 100}) }, func(i int) int { return is.Index([]int{i % 100, i / 100}) }},
		{"pairs", n, func(i int) int { return ps.Add(sets.Pair{First: i / 300, Second: i % 300}) }, func(i int) int { return ps.Index(sets.Pair{First: i / 300, Second: i % 300}) }},
		{"bit vectors", n, func(i int) int { return bs.Add(bits(i)) }, func(i int) int { return bs.Index(bits(i)) }},
		{"pattern lists", n / 12, func(i int) int { return qs.Add(pats(i)) }, func(i int) int { return qs.Index(pats(i)) }},
	} {
		err := guard(func() error {
			at := make([]int, s.n)
			seen := map[int]int{}
			for i := range at {
				at[i] = s.add(i)
				if j, ok := seen[at[i]]; ok {
					return fmt.Errorf("the values %d and %d share index %d", j, i, at[i])
				}
				seen[at[i]] = i
				if i > 0 && i&(i-1) == 0 {
					for j := 0; j <= i; j += i/64 + 1 {
						if got := s.add(j); got != at[j] {
							return fmt.Errorf("adding value %d again after %d gives index %d, before %d", j, i, got, at[j])
						}
					}
				}
			}
			for i := 0; i < s.n; i += s.n/5000 + 1 {
				if got := s.index(i); got != at[i] {
					return fmt.Errorf("the index of value %d of %d is %d, it was %d", i, s.n, got, at[i])
				}
			}
			if got := s.index(s.n + 5); got != -1 {
				return fmt.Errorf("a value which was never added has index %d", got)
			}
			return nil
		})
		r.States.Add(int64(s.n))
		r.Transitions.Add(int64(s.n))
		if err != nil {
			r.Violation("huge "+s.name, fmt.Sprintf("%s, %d different values added: %v", s.name, s.n, err), nil)
		}
	}
	r.Bound("huge sets: %d different integer lists, pairs and bit vectors, and %d pattern lists, in one set", n, n/12)
}

var setPatterns = []string{"*", "!(*)", "<empty>", "Aa:*", "BB:*", "a:<empty>", "->eq($string,\"a\")", "(Aa:*|BB:*)", "[Aa:*,BB:*]", "[BB:*,Aa:*]", "(a:*)*", "!(Aa:*)", "(!(BB:*)&!(Aa:*))", "!(!(*))", "->contains($int,[]int{1,32})", "->contains($int,[]int{2,1})"}

func patternLists(r *Run, n int) ([][]*ast.Pattern, []string) {
	parse := func(t string) *ast.Pattern {
		g, err := relapse.Parse(t)
		if err != nil {
			panic(err)
		}
		p := g.GetTopPattern()
		p.Format()
		return p
	}
	var lists [][]*ast.Pattern
	var keys []string
	for _, s := range seqs(len(setPatterns), n) {
		l := []*ast.Pattern{}
		var ks []string
		for _, i := range s {
			l = append(l, parse(setPatterns[i]))
			ks = append(ks, l[len(l)-1].String())
		}
		lists, keys = append(lists, l), append(keys, fmt.Sprintf("%q", ks))
	}
	return lists, keys
}

func exploreZip(r *Run) {
	n := 4
	if r.Thorough {
		n = 5
	}
	ss := seqs(len(setPatterns), n)
	base, _ := patternLists(r, 1)
	pats := make([]*ast.Pattern, len(setPatterns))
	copies := make([]*ast.Pattern, len(setPatterns))
	for i := range pats {
		pats[i] = base[i+1][0]
		copies[i] = pats[i].Clone()
	}
	r.Par(len(ss), func(w, k int) {
		s := ss[k]
		r.mark(w, func() string { return fmt.Sprint("zip ", s) })
		r.States.Add(1)
		r.Transitions.Add(3)
		err := guard(func() error {
			in := make([]*ast.Pattern, len(s))
			for i, x := range s {
				in[i] = pats[x]
				if i%2 == 1 {
					in[i] = copies[x]
				}
			}
			orig := append([]*ast.Pattern{}, in...)
			zs, is := sets.Zip(in)
			for i := range in {
				if in[i] != orig[i] {
					return fmt.Errorf("the input list is changed")
				}
			}
			back := sets.Unzip(zs, is)
			if len(back) != len(in) {
				return fmt.Errorf("restores %d patterns", len(back))
			}
			for i := range in {
				if !back[i].Equal(in[i]) {
					return fmt.Errorf("restores %s at %d instead of %s", back[i], i, in[i])
				}
			}
			hashes := map[uint64]int{}
			for i, a := range zs {
				hashes[a.Hash()]++
				if a.ZAny != nil {
					return fmt.Errorf("keeps the pattern that matches everything")
				}
				_ = i
			}
			for i, a := range zs {
				for j, b := range zs {
					if i != j && a.Equal(b) && hashes[a.Hash()] == 2 {
						return fmt.Errorf("keeps %s twice", a)
					}
				}
			}
			// every nullability of the kept patterns restores the nullability of the originals
			for v := 0; v < 1<<uint(len(zs)); v++ {
				b := sets.NewBits(len(zs))
				for i := range zs {
					b.Set(i, v>>uint(i)&1 == 1)
				}
				out := sets.UnzipBits(b, is)
				if len(out) != len(in) {
					return fmt.Errorf("restores %d bits", len(out))
				}
				for i := range in {
					want := false
					if in[i].ZAny != nil {
						want = true
					} else if in[i].Not == nil || in[i].Not.Pattern.ZAny == nil {
						for j, z := range zs {
							if z.Equal(in[i]) && is[i] == j {
								want = v>>uint(j)&1 == 1
							}
						}
					}
					if out[i] != want {
						return fmt.Errorf("bit %d is restored as %v from %b", i, out[i], v)
					}
				}
			}
			return nil
		})
		r.Traces.Add(1)
		if err != nil {
			r.Violation(fmt.Sprint("zip ", s), fmt.Sprintf("list %v: %v", zipNames(s), err), map[string]interface{}{"patterns": zipNames(s)})
		}
	})
	r.Bound("removing duplicates and restoring: every list of up to %d of %d syntax trees, with every nullability", n, len(setPatterns))
}

func zipNames(s []int) []string {
	var out []string
	for _, i := range s {
		out = append(out, setPatterns[i])
	}
	return out
}

func exploreSetOfPatterns(r *Run) {
	c := intern.NewConstructor()
	c2 := intern.NewConstructor() // separate copies
	base, _ := patternLists(r, 1)
	var pats, copies []*intern.Pattern
	var names []string
	for i := range setPatterns {
		a := base[i+1][0]
		p, err := c.NewPattern(a)
		q, err2 := c2.NewPattern(a)
		if err != nil || err2 != nil {
			r.Violation("intern "+setPatterns[i], fmt.Sprintf("%s: %v", setPatterns[i], err), nil)
			return
		}
		pats, copies, names = append(pats, p), append(copies, q), append(names, setPatterns[i])
	}
	n := 4
	if r.Thorough {
		n = 5
	}
	// classes of equal interned patterns
	class := make([]int, len(pats))
	for i := range pats {
		class[i] = i
		for j := 0; j < i; j++ {
			if pats[i].String() == pats[j].String() {
				class[i] = j
				break
			}
		}
		for j := range pats {
			if e := pats[i].Equal(copies[j]); e != (pats[i].String() == pats[j].String()) {
				r.Violation("intern equal "+names[i]+names[j], fmt.Sprintf("interned %s and %s: Equal gives %v", names[i], names[j], e), nil)
			}
		}
	}
	ss := seqs(len(pats), n)
	list := func(s []int) []*intern.Pattern {
		l := make([]*intern.Pattern, len(s))
		for i, x := range s {
			l[i] = pats[x]
			if i%2 == 1 {
				l[i] = copies[x]
			}
		}
		return l
	}
	sig := func(s []int) string {
		var sb strings.Builder
		for _, x := range s {
			fmt.Fprint(&sb, class[x], " ")
		}
		return sb.String()
	}
	check := func(set *intern.SetOfPatterns, s []int, idx int) error {
		ps := set.Get(idx)
		want := list(s)
		if ps.Index != idx {
			return fmt.Errorf("index %d of %d", ps.Index, idx)
		}
		if len(ps.Patterns) != len(want) {
			return fmt.Errorf("the set keeps %d patterns", len(ps.Patterns))
		}
		nulls := set.SetOfBits[ps.NullIndex]
		escapable := false
		for i := range want {
			if !ps.Patterns[i].Equal(want[i]) {
				return fmt.Errorf("pattern %d is %s instead of %s", i, ps.Patterns[i], want[i])
			}
			if nulls.Get(i) != want[i].Nullable() {
				return fmt.Errorf("nullability of pattern %d is recorded as %v", i, nulls.Get(i))
			}
			if want[i].Type != intern.ZAny && !(want[i].Type == intern.Not && want[i].Patterns[0].Type == intern.ZAny) {
				escapable = true
			}
		}
		if ps.Escapable != escapable {
			return fmt.Errorf("escapable is %v", ps.Escapable)
		}
		if a := len(want) == 1 && want[0].Nullable(); ps.Accept != a {
			return fmt.Errorf("accept is %v", ps.Accept)
		}
		z := &intern.ZippedPatterns{Patterns: set.Get(ps.IndexOfZippedPatterns).Patterns, Indexes: set.SetOfZipIndexes[ps.IndexOfZippedIndexes]}
		back := z.Unzip()
		if len(back) != len(want) {
			return fmt.Errorf("restores %d patterns", len(back))
		}
		for i := range want {
			if !back[i].Equal(want[i]) {
				return fmt.Errorf("restores %s at %d instead of %s", back[i], i, want[i])
			}
		}
		return nil
	}
	r.Par(len(ss), func(w, k int) {
		s := ss[k]
		r.mark(w, func() string { return fmt.Sprint("interned ", s) })
		r.States.Add(1)
		r.Transitions.Add(2)
		err := guard(func() error {
			in := list(s)
			z := intern.Zip(in)
			for i, p := range list(s) {
				if in[i] != p {
					return fmt.Errorf("the input list is changed")
				}
			}
			back := z.Unzip()
			if len(back) != len(in) {
				return fmt.Errorf("restores %d patterns", len(back))
			}
			for i := range in {
				if !back[i].Equal(in[i]) {
					return fmt.Errorf("restores %s at %d instead of %s", back[i], i, in[i])
				}
			}
			set := intern.NewSetOfPatterns()
			return check(set, s, set.Add(list(s)))
		})
		r.Traces.Add(1)
		if err != nil {
			r.Violation(fmt.Sprint("interned ", s), fmt.Sprintf("interned list %v: %v", zipNames(s), err), map[string]interface{}{"patterns": zipNames(s)})
		}
	})
	r.Bound("interned patterns: removing duplicates, restoring and indexing every list of up to %d of %d", n, len(pats))
	// all lists in one set
	short := seqs(len(pats), 3)
	set := intern.NewSetOfPatterns()
	at := map[string]int{}
	rev := map[int]string{}
	err := guard(func() error {
		for round := 0; round < 2; round++ {
			for k := range short {
				s := short[k]
				if round == 1 {
					s = short[len(short)-1-k]
				}
				idx := set.Add(list(s))
				g := sig(s)
				if prev, ok := at[g]; ok && prev != idx {
					return fmt.Errorf("%v gets index %d and %d", zipNames(s), prev, idx)
				}
				at[g] = idx
				if o, ok := rev[idx]; ok && o != g {
					return fmt.Errorf("%v shares index %d with another list", zipNames(s), idx)
				}
				rev[idx] = g
				if err := check(set, s, idx); err != nil {
					return fmt.Errorf("%v: %v", zipNames(s), err)
				}
				r.Transitions.Add(1)
			}
		}
		return nil
	})
	if err != nil {
		r.Violation("set of all lists", fmt.Sprintf("one set of all lists: %v", err), nil)
	}
	r.Bound("one set holding all %d lists of up to 3, added twice", len(short))
	insert := seqs(len(pats), 2)
	if len(insert) > 40 && !r.Thorough {
		insert = insert[:40]
	}
	var keys []string
	for _, s := range insert {
		keys = append(keys, sig(s))
	}
	insertions(r, "interned lists", keys, 3, func() (func(int) int, func(int) int) {
		set := intern.NewSetOfPatterns()
		return func(i int) int {
			idx := set.Add(list(insert[i]))
			if err := check(set, insert[i], idx); err != nil {
				panic(fmt.Sprintf("%v: %v", zipNames(insert[i]), err))
			}
			return idx
		}, nil
	})
}
