package main

import (
	"fmt"
	"strconv"
	"strings"
)

// Long functions: lists and strings of each length, chains of operators of each length, and indexes all over.

func fitem(t fty, i int) *fx {
	switch t {
	case tD:
		return fconst(fmt.Sprintf("double(%d.5)", i), vD(float64(i)+.5))
	case tI:
		return fconst(fmt.Sprint(i), vI(int64(i)))
	case tU:
		return fconst(fmt.Sprintf("uint(%d)", i), vU(uint64(i)))
	case tB:
		return fconst(strconv.FormatBool(i%3 == 1), vB(i%3 == 1))
	case tS:
		s := fmt.Sprintf("s%d", i)
		return fconst(strconv.Quote(s), vS(s))
	}
	y := []byte{byte(i >> 8), byte(i)}
	return fconst(fmt.Sprintf("[]byte{%d,%d}", y[0], y[1]), vY(y))
}

func flabel(t fty, i int) *Label {
	v := fitem(t, i).eval(nil).vs[0]
	switch t {
	case tD:
		return &Label{HasD: true, D: v.d}
	case tI:
		return intLabel(v.i)
	case tU:
		return &Label{HasU: true, U: v.u}
	case tB:
		return boolLabel(v.b)
	case tS:
		return strLabel(v.s)
	}
	return bytesLabel([]byte(v.s))
}

func fint(i int) *fx { return fconst(fmt.Sprint(i), vI(int64(i))) }

func places(n int) []int {
	if n <= 12 {
		var out []int
		for i := -n - 1; i <= n+1; i++ {
			out = append(out, i)
		}
		return out
	}
	return []int{-n - 1, -n, -n + 1, -n / 2, -2, -1, 0, 1, 2, n / 3, n / 2, n - 2, n - 1, n, n + 1}
}

// longFuncs returns the functions of size n and the values they are evaluated on.
func longFuncs(n int) ([]*fx, []*Label) {
	var out []*fx
	labels := []*Label{{}}
	add := func(f *fx) { out = append(out, f) }
	items := func(t fty, f func(i int) *fx) []*fx {
		es := make([]*fx, n)
		for i := range es {
			es[i] = f(i)
		}
		return es
	}
	for t := tD; t <= tY; t++ {
		t := t
		for _, i := range []int{0, 1, n / 2, n - 1, n} {
			if i >= 0 && t != tI {
				labels = append(labels, flabel(t, i))
			}
		}
		l := flist(t, items(t, func(i int) *fx { return fitem(t, i) })...)
		vl := flist(t, items(t, func(i int) *fx {
			if i%7 == 5 || i == n-1 {
				return fvar(t)
			}
			return fitem(t, i)
		})...)
		for _, x := range []*fx{l, vl} {
			add(fcall("eq", fcall("length", x), fint(n)))
			add(fcall("eq", fcall("length", x), fvar(tI)))
			if t == tI || t == tU || t == tS {
				add(fcall("contains", fvar(t), x))
			}
			for _, i := range places(n) {
				e := fcall("elem", x, fint(i))
				want := fitem(t, i&0xffff)
				if i < 0 && n > 0 {
					want = fitem(t, (i+n)&0xffff)
				}
				add(fcall("eq", e, want))
				add(fcall("type", e))
				add(fcall("eq", e, fvar(t)))
				for _, j := range places(n) {
					if n > 12 && (i+j)%3 != 0 && i != j {
						continue
					}
					rg := fcall("range", x, fint(i), fint(j))
					add(fcall("eq", fcall("length", rg), fint(j-i)))
					if (i+j)%2 == 0 {
						add(fcall("eq", fcall("elem", rg, fint(0)), want))
						add(fcall("eq", fcall("elem", rg, fint(-1)), fitem(t, (j-1)&0xffff)))
					}
				}
			}
			add(fcall("eq", fcall("elem", x, fvar(tI)), fitem(t, n/2)))
			add(fcall("eq", fcall("length", fcall("range", x, fvar(tI), fint(n))), fint(n/2)))
			add(fcall("eq", fcall("length", fcall("range", x, fint(0), fvar(tI))), fint(n/2)))
		}
		add(fcall("eq", fcall("elem", flist(t, items(t, func(i int) *fx { return fcall("elem", l, fint(i)) })...), fint(n-1)), fitem(t, (n-1)&0xffff)))
	}
	for _, i := range places(n) {
		labels = append(labels, intLabel(int64(i)))
	}
	// chains of boolean operators
	for _, op := range []string{"and", "or"} {
		for _, neg := range []bool{false, true} {
			part := func(i int) *fx {
				e := fcall("eq", fvar(tI), fint(i))
				if neg {
					return fcall("not", e)
				}
				return e
			}
			right, left := part(n), part(0)
			for i := n - 1; i >= 0; i-- {
				right = fcall(op, part(i), right)
			}
			for i := 1; i <= n; i++ {
				left = fcall(op, left, part(i))
			}
			// the evaluator's outcome sets stay small: only labels that are integers
			add(right)
			add(left)
		}
	}
	no := fcall("eq", fvar(tI), fint(n))
	for i := 0; i < n; i++ {
		no = fcall("not", no)
	}
	add(no)
	up := fvar(tS)
	for i := 0; i < n; i++ {
		up = fcall([]string{"toUpper", "toLower"}[i%2], up)
	}
	add(fcall("eq", up, fconst(`"S0"`, vS("S0"))))
	add(fcall("eq", up, fconst(`"s0"`, vS("s0"))))
	e := fvar(tI)
	for i := 0; i < n; i++ {
		e = fcall("elem", flist(tI, fint(i), e), fint(1))
	}
	add(fcall("eq", e, fint(n/2)))
	// long strings and bytes
	base := make([]byte, n)
	for i := range base {
		base[i] = byte('a' + i%26)
	}
	var ss []string
	ss = append(ss, string(base), string(base)+"x", "x"+string(base), strings.ToUpper(string(base)), strings.Repeat("é", n), strings.Repeat("\U0001F600", n))
	for _, i := range []int{0, 1, n / 2, n - 1} {
		if i >= 0 && i < n {
			b := append([]byte{}, base...)
			b[i] = '~'
			ss = append(ss, string(b), string(base[:i]), string(base[i:]))
		}
	}
	for _, s := range ss {
		labels = append(labels, strLabel(s), bytesLabel([]byte(s)))
	}
	for _, s := range ss {
		c, y := fconst(strconv.Quote(s), vS(s)), fbytes(s)
		for _, f := range []string{"eq", "ne", "contains", "hasPrefix", "hasSuffix", "eqFold"} {
			add(fcall(f, fvar(tS), c))
			add(fcall(f, c, fvar(tS)))
		}
		add(fcall("eq", fcall("toUpper", fvar(tS)), fcall("toUpper", c)))
		add(fcall("eq", fcall("length", c), fint(n)))
		for _, f := range []string{"eq", "ne", "lt", "le", "gt", "ge"} {
			add(fcall(f, fvar(tY), y))
		}
		add(fcall("eq", fcall("length", y), fint(n)))
	}
	add(fcall("eq", fcall("length", fvar(tS)), fint(n)))
	add(fcall("eq", fcall("length", fvar(tY)), fint(n)))
	re := "^" + string(base) + "$"
	add(fcall("regex", fconst(strconv.Quote(re), vS(re)), fvar(tS)))
	re = fmt.Sprintf("^[a-z]{%d}$", n%1000)
	add(fcall("regex", fconst(strconv.Quote(re), vS(re)), fvar(tS)))
	return out, labels
}

func fbytes(s string) *fx {
	ss := make([]string, len(s))
	for i := range ss {
		ss[i] = fmt.Sprintf("0x%02x", s[i])
	}
	return fconst("[]byte{"+strings.Join(ss, ",")+"}", vY([]byte(s)))
}

// longFuncSweep runs f on the functions of every size up to max (and some larger ones).
func longFuncSweep(r *Run, max int, f func(w int, x *fx, labels []*Label)) {
	type job struct {
		f  *fx
		ls []*Label
	}
	sizes := append([]int{0}, longSynSizes(max)...)
	for _, n := range []int{31, 32, 33, 63, 64, 65, 128, 256, 257} {
		if n > sizes[len(sizes)-1] {
			sizes = append(sizes, n)
		}
	}
	for rest := sizes; len(rest) > 0; {
		k := len(rest)
		if k > 16 {
			k = 16
		}
		per := make([][]job, k)
		r.Par(k, func(w, i int) {
			fs, ls := longFuncs(rest[i])
			for _, x := range fs {
				per[i] = append(per[i], job{x, ls})
			}
		})
		var jobs []job
		for _, p := range per {
			jobs = append(jobs, p...)
		}
		r.Par(len(jobs), func(w, i int) { f(w, jobs[i].f, jobs[i].ls) })
		rest = rest[k:]
	}
	r.Bound("functions over lists and strings of every length up to %d (and some up to %d), and chains of operators of that length", max, sizes[len(sizes)-1])
}
