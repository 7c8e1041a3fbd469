package main

// aliasSpace: patterns in which one sub-pattern L with merged or duplicated operands is reachable
// along two paths, one of which merges it with another pattern M.
func aliasSpace(name string) *Space {
	x, y, z, v := pr("x", isStr("x")), pr("y", isStr("y")), pr("z", isStr("z")), pr("v", isStr("v"))
	nx, ny, nz, nv := mkNode(x, pAny()), mkNode(y, pAny()), mkNode(z, pAny()), mkNode(v, pAny())
	or3 := func(op Op, a, b, c *Pat) *Pat { return mk(op, mk(op, a, b), c) }
	var ls, ms []*Pat
	base := []*Pat{nx, ny, nz, nv}
	for _, op := range []Op{OpOr, OpAnd} {
		for i, a := range base {
			for j, b := range base {
				if i == j {
					continue
				}
				aa, bb := a, b
				if op == OpAnd {
					aa, bb = mk(OpNot, a, nil), mk(OpNot, b, nil)
				}
				ls = append(ls, or3(op, aa, aa, bb), or3(op, aa, bb, bb), or3(op, aa, bb, pNone()), or3(op, aa, bb, pAny()), mk(op, aa, bb))
			}
		}
	}
	for _, a := range base {
		ms = append(ms, a, mk(OpNot, a, nil), mkNode(a.Pred, pEmpty()), mkNode(a.Pred, mkNode(y, mkNode(z, pAny()))))
		for _, b := range base {
			if a != b {
				ms = append(ms, mk(OpOr, a, b), mk(OpAnd, mk(OpNot, a, nil), mk(OpNot, b, nil)), or3(OpOr, a, b, b))
			}
		}
	}
	ls, ms = pool(ls), pool(ms)
	wraps := 6
	return &Space{name, len(ls) * len(ms) * wraps, func(i int) *Gram {
		w := i % wraps
		l := ls[i/wraps%len(ls)]
		m := ms[i/wraps/len(ls)]
		al, am := mkNode(nA, l), mkNode(nA, m)
		any, b, c := mkNode(nAny, pAny()), mkNode(nB, pAny()), mkNode(nC, pAny())
		// on b both l and m are needed, on c only l is
		both := func(op Op, l, m *Pat) *Pat {
			if op == OpOr {
				return mk(OpOr, mk(OpConcat, any, l), mk(OpConcat, b, m))
			}
			return mk(OpAnd, mk(OpConcat, any, l), mk(OpOr, mk(OpConcat, b, m), mk(OpConcat, c, pAny())))
		}
		var p *Pat
		switch w {
		case 0:
			p = both(OpOr, al, am)
		case 1:
			p = both(OpAnd, al, am)
		case 2:
			p = both(OpOr, l, m)
		case 3:
			p = both(OpAnd, l, m)
		case 4:
			p = both(OpOr, mk(OpContains, al, nil), mk(OpContains, am, nil))
		case 5:
			p = both(OpAnd, mk(OpContains, al, nil), mk(OpContains, am, nil))
		}
		return &Gram{Main: p}
	}}
}

func aliasUniverse() *Universe {
	labels := []*Label{strLabel("a"), strLabel("b"), strLabel("c"), strLabel("x"), strLabel("y"), strLabel("z"), strLabel("v")}
	u := &Universe{Labels: labels, index: map[string]int{}}
	e := u.add(nil)
	var kids []int
	kids = append(kids, e.ID)
	for l := 3; l < 7; l++ {
		kids = append(kids, u.add([]UNode{{l, e.ID}}).ID)
	}
	kids = append(kids, u.add([]UNode{{3, e.ID}, {4, e.ID}}).ID)
	for _, first := range []int{1, 2} {
		for _, k := range kids {
			u.add([]UNode{{first, e.ID}, {0, k}})
			u.add(append([]UNode{{first, e.ID}}, u.Forests[k].Nodes...))
		}
	}
	return u
}
