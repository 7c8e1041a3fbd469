package main

import (
	"fmt"
	"math"
	"reflect"
	"strconv"
	"strings"

	jsonparser "github.com/katydid/katydid/parser/json"
	reflectparser "github.com/katydid/katydid/parser/reflect"
	yamlparser "github.com/katydid/katydid/parser/yaml"

	"github.com/katydid/katydid/parser"
	"github.com/katydid/katydid/relapse"
	"github.com/katydid/katydid/relapse/mem"
)

// C32: one value of a common schema in every format, every grammar of a family.

// dval is a value of the schema: kind s(tring) i(nt) b(ool) d(ouble) l(ist) m(essage).
type dval struct {
	kind byte
	s    string
	i    int64
	b    bool
	d    float64
	keys []string
	kids []*dval
}

type doc32 struct {
	A *string
	N *int64
	B *bool
	D *float64
	L []string
	K []int64
	M *doc32
	R []*doc32
	G []bool
	H []float64
}

var schema32 = func() *pmsg {
	m := &pmsg{pkg: "p", path: []string{"Doc"}}
	m.fields = []*pfield{
		{name: "A", num: 1, typ: tString}, {name: "N", num: 2, typ: tInt64}, {name: "B", num: 3, typ: tBool}, {name: "D", num: 4, typ: tDouble},
		{name: "L", num: 5, typ: tString, rep: true}, {name: "K", num: 6, typ: tSint64, rep: true, packed: true}, {name: "M", num: 7, typ: tMessage, msg: m},
		{name: "R", num: 16, typ: tMessage, msg: m, rep: true}, {name: "G", num: 17, typ: tBool, rep: true}, {name: "H", num: 18, typ: tDouble, rep: true, packed: true},
	}
	return m
}()

func (v *dval) json(sp string) string {
	switch v.kind {
	case 's':
		return strconv.Quote(v.s)
	case 'i':
		return strconv.FormatInt(v.i, 10)
	case 'b':
		return strconv.FormatBool(v.b)
	case 'd':
		return strconv.FormatFloat(v.d, 'g', -1, 64)
	}
	var ss []string
	for i, k := range v.kids {
		s := sp
		if v.kind == 'm' {
			s += strconv.Quote(v.keys[i]) + sp + ":" + sp
		}
		ss = append(ss, s+k.json(sp)+sp)
	}
	if v.kind == 'm' {
		return "{" + strings.Join(ss, ",") + "}"
	}
	return "[" + strings.Join(ss, ",") + "]"
}

func (v *dval) yaml() *yval {
	switch v.kind {
	case 's', 'i', 'b', 'd':
		t := v.s
		if strings.ContainsAny(t, "\t\\") {
			return nil // a plain scalar is taken as it is, without the white space around it
		}
		if v.kind != 's' {
			t = v.json("")
		}
		return ys(t)
	}
	y := &yval{kind: v.kind, keys: v.keys}
	for _, k := range v.kids {
		w := k.yaml()
		if w == nil {
			return nil
		}
		// the supported subset: elements are scalars or have a single field that is a scalar or another collection
		if v.kind == 'l' && k.kind == 'm' && len(k.kids) != 1 {
			return nil
		}
		y.vals = append(y.vals, w)
	}
	if len(v.kids) == 0 {
		return nil
	}
	return y
}

// xml is the content of the element of the value; ok is false when there are lists.
func (v *dval) xml() (string, bool) {
	if v.kind == 'l' {
		return "", false
	}
	if v.kind != 'm' {
		if v.kind == 's' {
			return v.s, true
		}
		return v.json(""), true
	}
	s := ""
	for i, k := range v.kids {
		c, ok := k.xml()
		if !ok {
			return "", false
		}
		s += "<" + v.keys[i] + ">" + c + "</" + v.keys[i] + ">"
	}
	return s, true
}

func (v *dval) proto(b []byte) []byte {
	one := func(f *pfield, x *dval) pscalar {
		switch x.kind {
		case 's':
			return pscalar{y: []byte(x.s)}
		case 'i':
			if f.typ == tSint64 {
				return pscalar{bits: uint64(x.i<<1) ^ uint64(x.i>>63)}
			}
			return pscalar{bits: uint64(x.i)}
		case 'b':
			if x.b {
				return pscalar{bits: 1}
			}
			return pscalar{}
		case 'd':
			return pscalar{bits: math.Float64bits(x.d)}
		}
		return pscalar{y: x.proto(nil)}
	}
	for i, k := range v.kids {
		var f *pfield
		for _, x := range schema32.fields {
			if x.name == v.keys[i] {
				f = x
			}
		}
		elems := []*dval{k}
		if k.kind == 'l' {
			elems = k.kids
		}
		if f.packed {
			var p []byte
			for _, e := range elems {
				p = putScalar(p, f.typ, one(f, e))
			}
			b = putLen(putKey(b, f.num, 2), p)
			continue
		}
		for _, e := range elems {
			b = putScalar(putKey(b, f.num, wireOf(f.typ)), f.typ, one(f, e))
		}
	}
	return b
}

func (v *dval) goValue() *doc32 {
	d := &doc32{}
	rv := reflect.ValueOf(d).Elem()
	for i, k := range v.kids {
		f := rv.FieldByName(v.keys[i])
		set := func(f reflect.Value, k *dval) {
			if f.Kind() == reflect.Ptr && k.kind != 'm' {
				f.Set(reflect.New(f.Type().Elem()))
				f = f.Elem()
			}
			switch k.kind {
			case 's':
				f.SetString(k.s)
			case 'i':
				f.SetInt(k.i)
			case 'b':
				f.SetBool(k.b)
			case 'd':
				f.SetFloat(k.d)
			case 'm':
				f.Set(reflect.ValueOf(k.goValue()))
			}
		}
		if k.kind != 'l' {
			set(f, k)
			continue
		}
		f.Set(reflect.MakeSlice(f.Type(), len(k.kids), len(k.kids)))
		for j, e := range k.kids {
			set(f.Index(j), e)
		}
	}
	return d
}

// nodes are the nodes of the model.
func (v *dval) nodes(u *Universe, label func(l *Label) int) []UNode {
	switch v.kind {
	case 's':
		return []UNode{{label(strLabel(v.s)), 0}}
	case 'i':
		return []UNode{{label(intLabel(v.i)), 0}}
	case 'b':
		return []UNode{{label(boolLabel(v.b)), 0}}
	case 'd':
		return []UNode{{label(&Label{HasD: true, D: v.d}), 0}}
	}
	var ns []UNode
	for i, k := range v.kids {
		f := u.add(k.nodes(u, label))
		if v.kind == 'l' {
			ns = append(ns, UNode{label(intLabel(int64(i))), f.ID})
		} else {
			ns = append(ns, UNode{label(strLabel(v.keys[i])), f.ID})
		}
	}
	return ns
}

func dS(s string) *dval  { return &dval{kind: 's', s: s} }
func dI(i int64) *dval   { return &dval{kind: 'i', i: i} }
func dB(b bool) *dval    { return &dval{kind: 'b', b: b} }
func dD(d float64) *dval { return &dval{kind: 'd', d: d} }
func dL(kids ...*dval) *dval {
	return &dval{kind: 'l', kids: kids}
}
func dM(kv ...interface{}) *dval {
	m := &dval{kind: 'm'}
	for i := 0; i < len(kv); i += 2 {
		m.keys = append(m.keys, kv[i].(string))
		m.kids = append(m.kids, kv[i+1].(*dval))
	}
	return m
}

// docs32: every choice of at most n present fields, each with every value of a small set; written in the order of the
// schema and (rev) backwards.
func docs32(n int, rev bool) []*dval {
	inner := []*dval{dM(), dM("A", dS("a")), dM("N", dI(1)), dM("A", dS("b"), "N", dI(2)), dM("L", dL(dS("a"), dS("a"))), dM("M", dM("A", dS("a"))), dM("M", dM()), dM("M", dM("M", dM("N", dI(1))))}
	fields := []struct {
		name string
		vals []*dval
	}{
		{"A", []*dval{dS("a"), dS("b"), dS("xyz")}}, {"N", []*dval{dI(1), dI(2), dI(-3), dI(math.MaxInt64), dI(1<<53 + 1)}}, {"B", []*dval{dB(true), dB(false)}}, {"D", []*dval{dD(1.5), dD(-2.25)}},
		{"L", []*dval{dL(dS("a")), dL(dS("a"), dS("b")), dL(dS("b"), dS("a"), dS("a"))}}, {"K", []*dval{dL(dI(1)), dL(dI(2), dI(1)), dL(dI(-1), dI(0), dI(1)), dL(dI(math.MinInt64), dI(-1<<53-1))}},
		{"M", inner}, {"R", []*dval{dL(dM("A", dS("a"))), dL(dM("N", dI(1)), dM("A", dS("b"))), dL(dM(), dM("A", dS("a"))), dL(dM("L", dL(dS("a")))), dL(dM("A", dS("a"), "N", dI(1)))}},
		{"G", []*dval{dL(dB(true), dB(false))}}, {"H", []*dval{dL(dD(1.5)), dL(dD(0.5), dD(1.5))}},
	}
	if rev {
		for i, j := 0, len(fields)-1; i < j; i, j = i+1, j-1 {
			fields[i], fields[j] = fields[j], fields[i]
		}
	}
	var out []*dval
	var rec func(i, left int, m *dval)
	rec = func(i, left int, m *dval) {
		if i == len(fields) {
			out = append(out, &dval{kind: 'm', keys: append([]string{}, m.keys...), kids: append([]*dval{}, m.kids...)})
			return
		}
		rec(i+1, left, m)
		if left == 0 {
			return
		}
		for _, v := range fields[i].vals {
			rec(i+1, left-1, &dval{kind: 'm', keys: append(append([]string{}, m.keys...), fields[i].name), kids: append(append([]*dval{}, m.kids...), v)})
		}
	}
	rec(0, n, &dval{kind: 'm'})
	return out
}

// pres is a document in one format.
type pres struct {
	format string
	data   []byte
	goval  *doc32
	wrap   bool // everything is below an element named doc
}

func presentations(v *dval, rev bool) []pres {
	ps := []pres{{"json", []byte(v.json("")), nil, false}, {"json with spaces", []byte(" " + v.json(" \n\t") + " "), nil, false}, {"protobuf", v.proto(nil), nil, false}}
	if !rev {
		ps = append(ps, pres{"go value", nil, v.goValue(), false})
	}
	if y := v.yaml(); y != nil {
		ps = append(ps, pres{"yaml", []byte(y.text0(ystyle{unit: "  ", nl: "\n"})), nil, false})
	}
	if x, ok := v.xml(); ok {
		ps = append(ps, pres{"xml", []byte("<doc>" + x + "</doc>"), nil, true})
	}
	return ps
}

type parsers32 struct {
	json  jsonparser.JsonParser
	proto parser.Interface
	pinit func([]byte) error
	refl  reflectparser.ReflectParser
	yaml  yamlparser.YamlParser
	xml   interface {
		parser.Interface
		Init([]byte) error
	}
}

func (p *parsers32) open(x pres) (parser.Interface, error) {
	switch x.format {
	case "protobuf":
		return p.proto, p.pinit(x.data)
	case "go value":
		return p.refl.Init(reflect.ValueOf(x.goval)), nil
	case "yaml":
		return p.yaml, p.yaml.Init(x.data)
	case "xml":
		return p.xml, p.xml.Init(x.data)
	}
	return p.json, p.json.Init(x.data)
}

func (x pres) show() string {
	if x.goval != nil {
		return x.format
	}
	return fmt.Sprintf("%s %q", x.format, x.data)
}

func atoms32() []*Pat {
	leaf := func(text string, f func(l *Label) bool) *Pat { return mkLeaf(pr(text, f)) }
	field := func(n string, p *Pat) *Pat { return mkNode(nameOf2(n), p) }
	lA := leaf(`== "a"`, isStr("a"))
	l1 := leaf(`== 1`, func(l *Label) bool { return l.HasI && l.I == 1 })
	lT := leaf(`== true`, func(l *Label) bool { return l.HasB && l.B })
	lD := leaf(`>= double(1.5)`, func(l *Label) bool { return l.HasD && !l.HasI && l.D >= 1.5 })
	lGt := leaf(`< 0`, func(l *Label) bool { return l.HasI && l.I < 0 })
	lBig := leaf(`== 9007199254740993`, func(l *Label) bool { return l.HasI && l.I == 1<<53+1 })
	lLow := leaf(`<= -9007199254740993`, func(l *Label) bool { return l.HasI && l.I <= -1<<53-1 })
	not := func(p *Pat) *Pat { return mk(OpNot, p, nil) }
	star := func(p *Pat) *Pat { return mk(OpStar, p, nil) }
	has := func(p *Pat) *Pat { return mk(OpContains, p, nil) }
	any0 := mkNode(nAny, pAny())
	idx := mkNode(pr("0", func(l *Label) bool { return l.HasI && l.I == 0 }), lA)
	notA := mkNode(pr(`!(A)`, func(l *Label) bool { return !isStr("A")(l) }), pAny())
	orAM := mkNode(pr(`(A|M)`, func(l *Label) bool { return isStr("A")(l) || isStr("M")(l) }), pAny())
	return pool([]*Pat{pEmpty(), pAny(), any0, notA, orAM,
		field("A", lA), field("A", not(lA)), field("N", l1), field("N", lGt), field("N", pAny()), field("N", lBig), field("K", star(mkNode(nAny, lLow))), field("B", lT), field("D", lD), field("L", has(mkNode(nAny, lA))), field("L", star(mkNode(nAny, lA))), field("L", mk(OpConcat, idx, pAny())),
		field("K", has(mkNode(nAny, l1))), field("M", has(field("A", lA))), field("M", pEmpty()), field("M", field("M", pAny())), field("R", has(mkNode(nAny, has(field("A", lA))))), field("R", star(mkNode(nAny, pAny()))),
		field("G", has(mkNode(nAny, not(lT)))), field("H", has(mkNode(nAny, lD)))})
}

func pats32(depth int) *Space {
	field := func(n string, p *Pat) *Pat { return mkNode(nameOf2(n), p) }
	not := func(p *Pat) *Pat { return mk(OpNot, p, nil) }
	star := func(p *Pat) *Pat { return mk(OpStar, p, nil) }
	has := func(p *Pat) *Pat { return mk(OpContains, p, nil) }
	any0 := mkNode(nAny, pAny())
	atoms := atoms32()
	p1 := append([]*Pat{}, atoms...)
	for _, p := range atoms {
		for _, o := range unOps {
			p1 = append(p1, mk(o, p, nil))
		}
		p1 = append(p1, field("M", p))
	}
	for _, o := range binOps {
		for _, p := range atoms {
			for _, q := range atoms {
				p1 = append(p1, mk(o, p, q))
			}
		}
	}
	p1 = pool(p1)
	if depth == 1 {
		return patSpace("patterns of depth 1", p1)
	}
	return pairSpace("patterns of depth 2", []*Pat{atoms[2], atoms[5], has(atoms[7]), has(atoms[16]), not(has(atoms[5])), star(any0)}, p1, binOps, true)
}

func nameOf2(n string) *Pred { return pr(n, isStr(n)) }

func agree32(r *Run, docs []*dval, rev bool, sp *Space) {
	u := &Universe{index: map[string]int{}}
	labels := map[string]int{}
	label := func(l *Label) int {
		k := l.Show()
		if i, ok := labels[k]; ok {
			return i
		}
		labels[k] = len(u.Labels)
		u.Labels = append(u.Labels, l)
		return labels[k]
	}
	u.add(nil)
	ids := make([]int, len(docs))
	all := make([][]pres, len(docs))
	total := 0
	for i, d := range docs {
		ids[i] = u.add(d.nodes(u, label)).ID
		all[i] = presentations(d, rev)
		total += len(all[i])
	}
	ps := &pschema{name: "doc", root: schema32, set: fileSet([]*pmsg{schema32}, "")}
	type ws struct {
		m *Matcher
		p *parsers32
	}
	workers := make([]*ws, 64)
	r.Par(sp.N, func(w, i int) {
		if workers[w] == nil {
			pp := ps.parser(w)
			workers[w] = &ws{newMatcher(u, nil), &parsers32{jsonparser.NewJsonParser(), pp, pp.Init, reflectparser.NewReflectParser(), yamlparser.NewYamlParser(), newXML(xopts{})}}
		}
		s := workers[w]
		g := sp.At(i)
		if g == nil {
			return
		}
		text := g.Text()
		r.mark(w, func() string { return "grammar " + text })
		want := make([]bool, len(docs))
		for k, id := range ids {
			want[k] = s.m.Full(g.Main, id)
			if want[k] {
				r.accepts.Add(1)
			} else {
				r.rejects.Add(1)
			}
		}
		r.States.Add(int64(len(docs)))
		for _, record := range []bool{false, true} {
			at := "-"
			doc := "-"
			err := guard(func() error {
				var ms [2]*mem.Mem
				for k, t := range []string{text, "doc:" + text} {
					pg, err := relapse.Parse(t)
					if err != nil {
						return err
					}
					if record {
						ms[k], err = mem.NewRecord(pg)
					} else {
						ms[k], err = relapse.Prepare(pg)
					}
					if err != nil {
						return err
					}
				}
				for d := range docs {
					for _, x := range all[d] {
						m := ms[0]
						if x.wrap {
							m = ms[1]
						}
						p, err := s.p.open(x)
						var got bool
						if err == nil {
							got, err = m.Validate(p)
						}
						if err != nil || got != want[d] {
							at, doc = x.show(), docs[d].json("")
							return fmt.Errorf("verdict %v, %v, but the grammar says %v about the data", got, err, want[d])
						}
						r.Traces.Add(1)
					}
				}
				return nil
			})
			r.Transitions.Add(int64(total))
			if err != nil {
				r.Violation(fmt.Sprintf("record=%v | %s | %s | %s", record, text, at, doc), fmt.Sprintf("grammar: %s (record optimised: %v)\ndata: %s\nas: %s\n%v", text, record, doc, at, err),
					map[string]string{"grammar": text, "data": doc, "as": at})
			}
		}
		if n := r.sampleTick.Add(1); n&(n-1) == 0 {
			r.Sample("grammar %.200s agrees on %d documents in %d presentations", text, len(docs), total)
		}
	})
	order := "fields in the order of the schema"
	if rev {
		order = "fields backwards"
	}
	r.Bound("%s: %d grammars x %d documents in %d presentations (%s) x 2 validators", sp.Name, sp.N, len(docs), total, order)
}

func init() {
	register("C32", func(r *Run) {
		r.Assume("the common schema: strings without a numeric or boolean reading, integers compared as int, doubles that are not integers, booleans, non-empty lists; XML without lists and below a root element; YAML in its supported subset")
		r.Assume("oracle: the reference model over the data itself, so that every format is also right, not only equal")
		n := 2
		if r.Thorough {
			n = 3
		}
		agree32(r, docs32(n, false), false, pats32(1))
		agree32(r, docs32(n, true), true, pats32(1))
		agree32(r, docs32(1, false), false, pats32(2))
		if r.Thorough {
			agree32(r, docs32(2, false), false, pats32(2))
			agree32(r, docs32(4, false), false, patSpace("atoms", atoms32()))
		}
	})
}
