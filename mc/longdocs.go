package main

import (
	"fmt"
	"reflect"
	"strconv"
	"strings"

	jsonparser "github.com/katydid/katydid/parser/json"
	protoparser "github.com/katydid/katydid/parser/proto"
	reflectparser "github.com/katydid/katydid/parser/reflect"
	xmlparser "github.com/katydid/katydid/parser/xml"
	yamlparser "github.com/katydid/katydid/parser/yaml"
)

// Long documents: the shapes below with every number of elements or levels of longSizes, in every format.

type longDoc struct {
	name string
	n    int
	v    *dval
}

func longDocs(max int) []longDoc { return docsOf(longSizes(max), true) }

// hugeDocs: sizes around the powers of two at which buffers and counters of two bytes end.
func hugeDocs(levels bool) []longDoc {
	out := docsOf([]int{511, 512, 513, 1000, 1023, 1024, 1025, 2047, 2048, 2049, 4095, 4096, 4097, 16383, 16384, 16385, 65535, 65536, 65537}, false)
	if levels {
		for _, d := range docsOf([]int{511, 512, 513, 1023, 1024, 1025}, true) {
			if strings.HasPrefix(d.name, "levels") {
				out = append(out, d)
			}
		}
	}
	return out
}

func docsOf(sizes []int, levels bool) []longDoc {
	var out []longDoc
	for _, n := range sizes {
		if n == 0 {
			continue
		}
		add := func(name string, v *dval) { out = append(out, longDoc{fmt.Sprintf("%s of %d", name, n), n, v}) }
		list := func(f func(i int) *dval) *dval {
			l := dL()
			for i := 0; i < n; i++ {
				l.kids = append(l.kids, f(i))
			}
			return l
		}
		add("strings", dM("L", list(func(i int) *dval { return dS("s" + strconv.Itoa(i)) })))
		add("numbers", dM("A", dS("x"), "K", list(func(i int) *dval { return dI(int64(i*i) - 3) }), "B", dB(true)))
		add("messages", dM("R", list(func(i int) *dval { return dM("A", dS("s"), "N", dI(int64(i))) }), "G", dL(dB(true))))
		add("messages with lists", dM("R", list(func(i int) *dval { return dM("L", dL(dS("a"), dS("b"))) })))
		add("characters", dM("A", dS("b"+strings.Repeat("z", n-1)), "N", dI(3)))
		add("characters with escapes", dM("A", dS("\t"+strings.Repeat("é", n-1)+"<"), "L", dL(dS(strings.Repeat("\\", n)), dS("x"))))
		if !levels {
			continue
		}
		m, c, r, h := dM("A", dS("end"), "N", dI(7)), dM("N", dI(1)), dM("A", dS("end")), dM("L", dL(dS("a"), dS("b")))
		for i := 0; i < n; i++ {
			m = dM("M", m)
			c = dM("A", dS("s"+strconv.Itoa(i)), "M", c, "D", dD(float64(i)+0.5))
			r = dM("R", dL(r))
			h = dM("R", dL(dM("N", dI(int64(i))), h, dM("A", dS("after"))), "B", dB(false))
		}
		add("levels", m)
		add("levels with siblings", c)
		add("levels of lists", r)
		add("levels of lists with siblings", h)
	}
	return out
}

// elems writes a value as elements, a list as a repeated element.
func (v *dval) elems() string {
	if v.kind != 'm' {
		if v.kind == 's' {
			return strings.NewReplacer("<", "&lt;", "&", "&amp;").Replace(v.s)
		}
		return v.json("")
	}
	var b strings.Builder
	for i, k := range v.kids {
		xs := []*dval{k}
		if k.kind == 'l' {
			xs = k.kids
		}
		for j, x := range xs {
			fmt.Fprintf(&b, "<%s", v.keys[i])
			if j%2 == 1 {
				fmt.Fprintf(&b, " n='%d'", j)
			}
			fmt.Fprintf(&b, ">%s</%s>", x.elems(), v.keys[i])
		}
	}
	return b.String()
}

// longFormat is a format with its way of writing a document and of reading it independently of the parser under test.
type longFormat struct {
	name string
	mk   func() *testParser
	in   func(v *dval) interface{} // nil if the format can not hold it
	want func(v *dval, in interface{}) []*wnode
}

var longYaml = ystyle{unit: " ", nl: "\n"}

func longFormats() []*longFormat {
	ps := &pschema{name: "Doc", root: schema32, set: fileSet([]*pmsg{schema32}, "")}
	return []*longFormat{
		{"json", func() *testParser {
			p := jsonparser.NewJsonParser()
			return &testParser{p, func(in interface{}) error { return p.Init(in.([]byte)) }, p.Reset}
		}, func(v *dval) interface{} { return []byte(v.json("")) }, func(v *dval, in interface{}) []*wnode { return jsonRef(in.([]byte)) }},
		{"xml", func() *testParser {
			p := xmlparser.NewXMLParser()
			return &testParser{p, func(in interface{}) error { return p.Init(in.([]byte)) }, p.Reset}
		}, func(v *dval) interface{} { return []byte("<doc>" + v.elems() + "</doc>") }, func(v *dval, in interface{}) []*wnode {
			ns, ok, free := stdXML(in.([]byte), xopts{})
			if !ok || free {
				panic("not a well-formed document")
			}
			return ns
		}},
		{"protobuf", func() *testParser {
			p, err := protoparser.NewProtoParser("p", "Doc", ps.set)
			if err != nil {
				panic(err)
			}
			return &testParser{p, func(in interface{}) error { return p.Init(in.([]byte)) }, p.Reset}
		}, func(v *dval) interface{} { return v.proto(nil) }, func(v *dval, in interface{}) []*wnode {
			ns, st, _ := protoRef(schema32, in.([]byte))
			if st != refOK {
				panic("not a well-formed message")
			}
			return ns
		}},
		{"reflect", func() *testParser {
			p := reflectparser.NewReflectParser()
			return &testParser{p, func(in interface{}) error { p.Init(in.(reflect.Value)); return nil }, nil}
		}, func(v *dval) interface{} { return reflect.ValueOf(v.goValue()) }, func(v *dval, in interface{}) []*wnode { return reflRef(in.(reflect.Value)) }},
		{"yaml", func() *testParser {
			p := yamlparser.NewYamlParser()
			return &testParser{p, func(in interface{}) error { return p.Init(in.([]byte)) }, p.Reset}
		}, func(v *dval) interface{} {
			y := v.yaml()
			if y == nil {
				return nil
			}
			return []byte(y.text0(longYaml))
		}, func(v *dval, in interface{}) []*wnode { return v.yaml().want() }},
	}
}

func longFormatByName(name string) *longFormat {
	for _, f := range longFormats() {
		if f.name == name {
			return f
		}
	}
	panic(name)
}

// longPresented: the parser presents exactly what is in every long document.
func longPresented(r *Run, format string, max int) {
	f := longFormatByName(format)
	docs := append(longDocs(max), hugeDocs(format != "yaml")...)
	ps := [64]*testParser{}
	var n [64]int
	r.Par(len(docs), func(w, i int) {
		d := docs[i]
		r.mark(w, func() string { return format + ": " + d.name })
		in := f.in(d.v)
		if in == nil {
			return
		}
		if ps[w] == nil {
			ps[w] = f.mk()
		}
		want := f.want(d.v, in)
		size := countNodes(want)
		got, err := fullWalk(ps[w], func() error { return ps[w].init(in) }, 4*size+16)
		r.States.Add(1)
		r.Traces.Add(1)
		r.Transitions.Add(int64(size))
		n[w]++
		what := ""
		if err != nil {
			ps[w] = nil
			what = "reading it ends in " + err.Error()
		} else {
			what = firstDiff(want, got, "root")
		}
		if what != "" {
			r.Violation(format+" | "+d.name, fmt.Sprintf("%s, a document with %s: %s", format, d.name, what), d.name)
		}
	})
	total := 0
	for _, k := range n {
		total += k
	}
	r.Bound("%d long documents: lists, levels and texts of 1 to %d and around the powers of two up to 65536 (levels 1024)", total, max)
}

// nearPower: up to two from a power of two.
func nearPower(i int) bool {
	for p := 1; p <= i+2; p *= 2 {
		if p-2 <= i && i <= p+2 {
			return true
		}
	}
	return false
}

// longTraversals (C23): full traversals of long documents that deviate at every choice of one and two places:
// skipping instead of entering, going up early. And traversals that skip everything except for what is entered at two places.
func longTraversals(r *Run, one, two int) {
	for _, f := range longFormats() {
		f, one := f, one
		if f.name == "yaml" {
			one /= 2 // the indentation makes the text of n levels quadratic
		}
		docs := longDocs(one)
		huge := 0
		for _, d := range hugeDocs(f.name != "yaml") {
			if d.n <= 1025 {
				docs = append(docs, d)
				huge++
			}
		}
		ps := [64]*testParser{}
		r.Par(len(docs), func(w, i int) {
			d := docs[len(docs)-1-i]
			r.mark(w, func() string { return f.name + ": " + d.name })
			in := f.in(d.v)
			if in == nil {
				return
			}
			if ps[w] == nil {
				ps[w] = f.mk()
			}
			want, err := fullWalk(ps[w], func() error { return ps[w].init(in) }, 1000000)
			if err != nil {
				return // the property about what is presented
			}
			for mode := 0; mode < 3; mode++ {
				for _, full := range []bool{true, false} {
					c := &chooser{max: 1}
					if d.n <= two {
						c.max = 2
					}
					if d.n > one {
						c.only = nearPower
					}
					for {
						t := &partial{c: c, p: ps[w], limit: -1, mode: mode, full: full}
						err := guard(func() error {
							if err := ps[w].init(in); err != nil {
								return err
							}
							return t.run(want, 0)
						})
						r.Traces.Add(1)
						r.States.Add(int64(t.ops))
						r.Transitions.Add(int64(t.ops))
						if err != nil {
							ps[w] = nil
							r.Violation(fmt.Sprintf("%s | %s | %s", f.name, d.name, t.trace), fmt.Sprintf("%s, a document with %s, calls %s (n: Next, d: Down, u: Up), accessor mode %d: %v", f.name, d.name, t.trace, mode, err), string(t.trace))
							return
						}
						if !c.next() {
							break
						}
					}
				}
			}
		})
		r.Bound("%s: %d long documents (1 to %d elements, levels or characters), every traversal with one deviation (two up to %d) from entering everything and from skipping everything; %d of up to 1025 with deviations around the powers of two", f.name, len(docs)-huge, one, two, huge)
	}
}

// longReinit (C24): a long document is abandoned after every number of steps, entering everything or skipping at one place;
// the next document, or the same one after Reset, is read as by a new parser.
func longReinit(r *Run, max int) {
	for _, f := range longFormats() {
		f, max := f, max
		if f.name == "yaml" {
			max = max * 3 / 4
		}
		docs := longDocs(max)
		huge := 0
		for _, d := range hugeDocs(f.name != "yaml") {
			if d.n == 513 || d.n == 1025 {
				docs = append(docs, d)
				huge++
			}
		}
		type second struct {
			in   interface{}
			want []*wnode
		}
		var seconds []second
		for _, d := range longDocs(24) {
			if d.n != 1 && d.n != 12 && d.n != 24 {
				continue
			}
			if in := f.in(d.v); in != nil {
				p := f.mk()
				want, err := fullWalk(p, func() error { return p.init(in) }, 100000000)
				if err == nil {
					seconds = append(seconds, second{in, want})
				}
			}
		}
		ps := [64]*testParser{}
		r.Par(len(docs), func(w, i int) {
			d := docs[len(docs)-1-i]
			r.mark(w, func() string { return f.name + ": " + d.name })
			in := f.in(d.v)
			if in == nil {
				return
			}
			p := f.mk()
			first, err := fullWalk(p, func() error { return p.init(in) }, 100000000)
			if err != nil {
				return
			}
			ps[w] = f.mk()
			for limit := 0; ; limit++ {
				ended := false
				if d.n > max && !nearPower(limit) {
					continue
				}
				for k := 0; k <= 3; k++ {
					p := ps[w]
					t := &partial{c: &chooser{}, p: p, limit: limit, full: true}
					err := guard(func() error {
						if err := p.init(in); err != nil {
							return err
						}
						return t.run(first, 0)
					})
					if err != nil && err != errStop {
						return // C23's
					}
					ended = err == nil
					s := seconds[(limit+k)%len(seconds)]
					init, want, what := func() error { return p.init(s.in) }, s.want, "Init with "+showInput(s.in)
					if k == 3 {
						if p.reset == nil {
							continue
						}
						init, want, what = p.reset, first, "Reset"
					}
					got, err := fullWalk(p, init, 100000000)
					r.Traces.Add(1)
					r.States.Add(int64(t.ops) + 1)
					r.Transitions.Add(int64(t.ops) + int64(countNodes(want)))
					diff := ""
					if err != nil {
						diff = err.Error()
					} else {
						diff = firstDiff(want, got, "root")
					}
					if diff != "" {
						r.Violation(fmt.Sprintf("%s | %s | %d | %s", f.name, d.name, limit, what), fmt.Sprintf("%s: after %d steps into a document with %s, %s: %s", f.name, limit, d.name, what, diff), d.name)
						return
					}
				}
				if ended {
					break
				}
			}
		})
		r.Bound("%s: %d long documents abandoned after every number of steps, then each of %d others or Reset; %d of 513 and 1025 abandoned around the powers of two", f.name, len(docs)-huge, len(seconds), huge)
	}
}

// longBroken: the long documents cut off everywhere and with every byte replaced or deleted.
func longBroken(max int, format string, bytes []byte, f func(w int, text []byte), r *Run) {
	lf := longFormatByName(format)
	docs := longDocs(max)
	r.Par(len(docs), func(w, i int) {
		d := docs[len(docs)-1-i]
		in := lf.in(d.v)
		if in == nil {
			return
		}
		text := in.([]byte)
		for k := 0; k < len(text); k++ {
			k := k
			r.mark(w, func() string { return fmt.Sprintf("%s with %s changed at %d", format, d.name, k) })
			f(w, text[:k:k])
			f(w, append(append([]byte{}, text[:k]...), text[k+1:]...))
			for _, b := range bytes {
				if text[k] != b {
					x := append([]byte{}, text...)
					x[k] = b
					f(w, x)
				}
			}
		}
	})
	r.Bound("%d long documents (1 to %d elements, levels or characters), each cut at every byte, with every byte deleted and with every byte replaced by %q", len(docs), max, bytes)
}

// longEncoded (C25): what the parsers present of the long documents is encoded as JSON, XML and protobuf.
func longEncoded(r *Run, max int, proto func(w int, s *pschema, buf []byte)) {
	for _, f := range longFormats() {
		f := f
		docs := longDocs(max)
		for _, d := range hugeDocs(f.name != "yaml") {
			if d.n <= 16385 {
				docs = append(docs, d)
			}
		}
		ps := [64]*testParser{}
		r.Par(len(docs), func(w, i int) {
			d := docs[len(docs)-1-i]
			r.mark(w, func() string { return f.name + ": " + d.name })
			in := f.in(d.v)
			if in == nil {
				return
			}
			if ps[w] == nil {
				ps[w] = f.mk()
			}
			if encodersCheck(r, ps[w], func() error { return ps[w].init(in) }, func() string { return f.name + ": " + d.name }) {
				ps[w] = nil
			}
			if f.name == "protobuf" {
				proto(w, longSchema, in.([]byte))
			}
		})
		r.Bound("%s: %d long documents (1 to %d elements, levels or characters, and around the powers of two up to 16384, levels up to 1025) encoded", f.name, len(docs), max)
	}
}

var longSchema = &pschema{name: "Doc", root: schema32, set: fileSet([]*pmsg{schema32}, "")}

// longMerges (C27): the long messages as they are, and with one more occurrence of a field put in at every boundary between
// two fields of the top level and of the deepest level.
func longMerges(r *Run, max int, one func(w int, s *pschema, buf []byte)) {
	docs := longDocs(max)
	extras := [][]byte{putLen(putKey(nil, 1, 2), []byte("q")), putLen(putKey(nil, 5, 2), []byte("q")), putLen(putKey(nil, 6, 2), []byte{2}), putLen(putKey(nil, 7, 2), nil), putLen(putKey(nil, 16, 2), nil), putVarint(putKey(nil, 17, 0), 1), putVarint(putKey(nil, 2, 0), 1)}
	r.Par(len(docs), func(w, i int) {
		d := docs[len(docs)-1-i]
		r.mark(w, func() string { return "merges: " + d.name })
		var variants func(b []byte, depth int) [][]byte
		variants = func(b []byte, depth int) [][]byte {
			var out [][]byte
			// the boundaries between the fields, at most 40 of them, half at each end
			var cuts []int
			inner, innerAt, innerEnd := []byte(nil), 0, 0
			for at := 0; at <= len(b); {
				cuts = append(cuts, at)
				if at == len(b) {
					break
				}
				_, kn, _ := readVarint(b[at:])
				key, _, _ := readVarint(b[at:])
				v, n, _ := readPayload(b[at+kn:], int(key&7))
				if num := key >> 3; key&7 == 2 && (num == 7 || num == 16) {
					inner, innerAt, innerEnd = v.y, at, at+kn+n
				}
				at += kn + n
			}
			if len(cuts) > 40 {
				cuts = append(cuts[:20:20], cuts[len(cuts)-20:]...)
			}
			if depth == 0 || inner == nil {
				for _, c := range cuts {
					for _, e := range extras {
						out = append(out, append(append(append([]byte{}, b[:c]...), e...), b[c:]...))
					}
				}
			}
			if inner != nil {
				key, _, _ := readVarint(b[innerAt:])
				for _, x := range variants(inner, depth+1) {
					y := append([]byte{}, b[:innerAt]...)
					y = putLen(putKey(y, int32(key>>3), 2), x)
					out = append(out, append(y, b[innerEnd:]...))
				}
			}
			return out
		}
		buf := d.v.proto(nil)
		one(w, longSchema, buf)
		for _, x := range variants(buf, 0) {
			one(w, longSchema, x)
		}
	})
	r.Bound("%d long messages (lists, levels and texts of 1 to %d), whole and with an occurrence of one of %d fields put in at boundaries of the top level and the deepest level", len(docs), max, len(extras))
}
