package main

import (
	"bytes"
	"fmt"
	"strings"

	"github.com/katydid/katydid/relapse/ast"
)

// Long names: choices of every number of names, in every grouping, exceptions nested that often, and literals of that length.

func exploreLongNames(r *Run, max int) {
	str := func(s string) nameX {
		return nameX{s, func(l *Label) bool { return l.HasS && l.S == s }, func() *ast.NameExpr { return ast.NewStringName(s) }}
	}
	num := func(i int) nameX {
		return nameX{fmt.Sprint(i), func(l *Label) bool { return l.HasI && l.I == int64(i) }, func() *ast.NameExpr { return ast.NewIntName(int64(i)) }}
	}
	byt := func(b []byte) nameX {
		return nameX{fmt.Sprintf("%#v", b), func(l *Label) bool { return l.HasY && bytes.Equal(l.Y, b) }, func() *ast.NameExpr { return ast.NewBytesName(b) }}
	}
	type job struct {
		n      nameX
		labels []*Label
	}
	var jobs []job
	kinds := []func(i int) nameX{
		func(i int) nameX { return str(fmt.Sprintf("k%d", i)) },
		func(i int) nameX { return num(i) },
		func(i int) nameX {
			if i%3 == 0 {
				return byt([]byte(fmt.Sprint(i)))
			}
			return []nameX{str(fmt.Sprintf("k%d", i)), num(i)}[i%2]
		},
		func(i int) nameX {
			if i%4 == 3 {
				return nameNot(nameNot(str(fmt.Sprintf("k%d", i))))
			}
			return num(-i)
		},
	}
	for _, n := range longSynSizes(max) {
		for _, kind := range kinds {
			ns := make([]nameX, n)
			for i := range ns {
				ns[i] = kind(i)
			}
			var labels []*Label
			for i := 0; i < n+1; i++ {
				if n > 40 && i > 2 && i < n-2 && i%16 > 1 {
					continue
				}
				labels = append(labels, strLabel(fmt.Sprintf("k%d", i)), intLabel(int64(i)), numLabel(int64(-i)), bytesLabel([]byte(fmt.Sprint(i))))
			}
			labels = append(labels, strLabel(""), &Label{}, boolLabel(true))
			add := func(x nameX) {
				jobs = append(jobs, job{x, labels}, job{nameNot(x), labels})
			}
			// all of them
			var texts []string
			for _, x := range ns {
				texts = append(texts, x.text)
			}
			anyOf := func(l *Label) bool {
				for _, x := range ns {
					if x.match(l) {
						return true
					}
				}
				return false
			}
			if n > 1 {
				add(nameX{"(" + strings.Join(texts, "|") + ")", anyOf, func() *ast.NameExpr {
					var es []*ast.NameExpr
					for _, x := range ns {
						es = append(es, x.build())
					}
					return ast.NewNameChoice(es...)
				}})
			}
			left, right := ns[0], ns[n-1]
			for i := 1; i < n; i++ {
				left, right = nameOr(left, ns[i]), nameOr(ns[n-1-i], right)
			}
			var half func(ns []nameX) nameX
			half = func(ns []nameX) nameX {
				if len(ns) == 1 {
					return ns[0]
				}
				return nameOr(half(ns[:len(ns)/2]), half(ns[len(ns)/2:]))
			}
			for _, x := range []nameX{left, right, half(ns), nameOr(nameNot(left), right), nameOr(left, nameNot(half(ns[n/2:])))} {
				add(x)
			}
			// except all but one of them, and the other way around
			if n > 1 {
				add(nameNot(half(ns[1:])))
				add(nameOr(nameNot(half(ns[1:])), nameNot(half(ns[:n-1]))))
				add(nameNot(nameOr(nameNot(half(ns[:n-1])), ns[n-1])))
			}
		}
		// exceptions of exceptions
		nested := str("a")
		other := nameOr(num(1), str("b"))
		for i := 0; i < n; i++ {
			nested = nameNot(nested)
			other = nameNot(other)
			if i%2 == 0 {
				other = nameOr(other, str("a"))
			}
		}
		small := []*Label{strLabel("a"), strLabel("b"), numLabel(1), strLabel("c"), &Label{}}
		jobs = append(jobs, job{nested, small}, job{other, small})
		// literals of this length
		s := strings.Repeat("a", n)
		var ls []*Label
		for _, m := range []int{n - 1, n, n + 1} {
			ls = append(ls, strLabel(strings.Repeat("a", m)), bytesLabel(bytes.Repeat([]byte{7}, m)))
		}
		for _, i := range []int{0, n / 2, n - 1} {
			ls = append(ls, strLabel(s[:i]+"b"+s[i+1:]))
			b := bytes.Repeat([]byte{7}, n)
			b[i] = 8
			ls = append(ls, bytesLabel(b))
		}
		for _, x := range []nameX{str(s), byt(bytes.Repeat([]byte{7}, n))} {
			jobs = append(jobs, job{x, ls}, job{nameNot(x), ls}, job{nameOr(x, str("b")), ls}, job{nameNot(nameOr(num(1), x)), ls})
		}
	}
	r.Par(len(jobs), func(w, i int) { checkName(r, w, jobs[i].n, jobs[i].labels, true) })
	r.Bound("long names: %d names of up to %d names, exceptions or bytes", len(jobs), max)
}
