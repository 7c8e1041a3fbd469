package main

import (
	"bytes"
	"encoding/xml"
	"fmt"
	"io"
	"strconv"
	"strings"

	xmlparser "github.com/katydid/katydid/parser/xml"
)

func init() { register("C18", runC18) }

// xitem is one piece of a document: its source, and what it denotes.
type xitem struct {
	src   string
	kind  byte // 't' character data, 'c' a CDATA section, 'e' element, '-' nothing (comment, instruction)
	val   string
	name  string
	attrs [][2]string
	kids  []xitem
}

func (x xitem) clone(src string) xitem { x.src = src; return x }

type xopts struct{ attr, elem, text string }

func xmlLeaf(text, prefix string, bytesToo bool) *wnode {
	var o vals
	if d, err := strconv.ParseFloat(text, 64); err == nil {
		o.d = &d
	}
	if i, err := strconv.ParseInt(text, 10, 64); err == nil {
		o.i = &i
	}
	if u, err := strconv.ParseUint(text, 10, 64); err == nil {
		o.u = &u
	}
	if b, err := strconv.ParseBool(strings.TrimSpace(text)); err == nil {
		o.b = &b
	}
	s := prefix + text
	o.s = &s
	if bytesToo {
		o.y, o.hasY = []byte(text), true
	}
	return leafNode(o.sig())
}

// xmlWant is what a sequence of items denotes. Neighbouring character data is one text.
func xmlWant(items []xitem, o xopts, top bool) []*wnode {
	var ns []*wnode
	text := ""
	flush := func() {
		if text != "" && !(top && strings.TrimSpace(text) == "") {
			ns = append(ns, xmlLeaf(text, o.text, true))
		}
		text = ""
	}
	for _, it := range items {
		switch it.kind {
		case 't':
			text += it.val
			continue
		case 'c':
			flush()
			text = it.val
			flush()
		case 'e':
			flush()
			n := fieldNode(o.elem + it.name)
			for _, a := range it.attrs {
				at := fieldNode(o.attr + a[0])
				at.kids = []*wnode{xmlLeaf(a[1], o.text, false)}
				n.kids = append(n.kids, at)
			}
			n.kids = append(n.kids, xmlWant(it.kids, o, false)...)
			ns = append(ns, n)
		default:
			flush()
		}
	}
	flush()
	return ns
}

func xsrc(items []xitem) string {
	s := ""
	for _, it := range items {
		s += it.src
	}
	return s
}

// xattr is one attribute as written, and its meaning.
type xattr struct{ src, name, val string }

func elem(name string, attrs []xattr, kids ...xitem) xitem {
	e := xitem{kind: 'e', name: name, kids: kids}
	if i := strings.IndexByte(name, ':'); i >= 0 {
		e.name = name[i+1:]
	}
	as := ""
	for _, a := range attrs {
		as += a.src
		e.attrs = append(e.attrs, [2]string{a.name, a.val})
	}
	e.src = "<" + name + as + ">" + xsrc(kids) + "</" + name + ">"
	return e
}

var xmlTexts = []xitem{
	{src: "x", kind: 't', val: "x"}, {src: " ", kind: 't', val: " "}, {src: "\n", kind: 't', val: "\n"}, {src: "\r\n", kind: 't', val: "\n"},
	{src: "12", kind: 't', val: "12"}, {src: "-3", kind: 't', val: "-3"}, {src: "2.5", kind: 't', val: "2.5"}, {src: "true", kind: 't', val: "true"}, {src: " false\t", kind: 't', val: " false\t"},
	{src: "9223372036854775807", kind: 't', val: "9223372036854775807"}, {src: "9223372036854775808", kind: 't', val: "9223372036854775808"}, {src: "-9223372036854775808", kind: 't', val: "-9223372036854775808"}, {src: "18446744073709551616", kind: 't', val: "18446744073709551616"}, {src: "1e400", kind: 't', val: "1e400"}, {src: "1e-400", kind: 't', val: "1e-400"}, {src: "-0", kind: 't', val: "-0"}, {src: "007", kind: 't', val: "007"}, {src: "+1", kind: 't', val: "+1"},
	{src: "&lt;a&gt;", kind: 't', val: "<a>"}, {src: "&amp;amp;", kind: 't', val: "&amp;"}, {src: "&quot;&apos;", kind: 't', val: "\"'"}, {src: "&#65;", kind: 't', val: "A"}, {src: "&#x263a;", kind: 't', val: "\u263a"}, {src: "&#x10FFFF;", kind: 't', val: "\U0010ffff"},
	{src: "é☺𝄞", kind: 't', val: "é☺𝄞"}, {src: "]]", kind: 't', val: "]]"}, {src: "?>", kind: 't', val: "?>"}, {src: "-->", kind: 't', val: "-->"}, {src: `"'=/`, kind: 't', val: `"'=/`}, {src: strings.Repeat("long ", 300), kind: 't', val: strings.Repeat("long ", 300)},
}

var xmlNothing = []xitem{
	{src: "<!---->", kind: '-'}, {src: "<!-- c -->", kind: '-'}, {src: "<!-- <b>no</b> <?p ?> & -->", kind: '-'},
	{src: "<?p?>", kind: '-'}, {src: "<?p <b>no</b> ?>", kind: '-'}, {src: "<?p q='?' > ?>", kind: '-'},
}

var xmlCData = []xitem{
	{src: "<![CDATA[]]>", kind: 'c', val: ""}, {src: "<![CDATA[y]]>", kind: 'c', val: "y"}, {src: "<![CDATA[<b>&amp;]]]]>", kind: 'c', val: "<b>&amp;]]"}, {src: "<![CDATA[<?p?> <!-- -->]]>", kind: 'c', val: "<?p?> <!-- -->"}, {src: "<![CDATA[5]]>", kind: 'c', val: "5"},
}

// Ends of lines and white space, in text and in CDATA sections.
var xmlLines = []xitem{
	{src: "x\ry", kind: 't', val: "x\ny"}, {src: "\r\n\ry", kind: 't', val: "\n\ny"}, {src: "\n", kind: 't', val: "\n"}, {src: "&#13;", kind: 't', val: "\r"}, {src: "&#xD;&#10;", kind: 't', val: "\r\n"}, {src: "\t", kind: 't', val: "\t"},
	{src: "<![CDATA[\r]]>", kind: 'c', val: "\n"}, {src: "<![CDATA[x\r\ny]]>", kind: 'c', val: "x\ny"}, {src: "<![CDATA[\n]]>", kind: 'c', val: "\n"}, {src: "<![CDATA[\r\r\n\t ]]>", kind: 'c', val: "\n\n\t "}, {src: "<![CDATA[&#13;]]>", kind: 'c', val: "&#13;"}, {src: "<![CDATA[ ]]>", kind: 'c', val: " "}, {src: "<![CDATA[]]]>", kind: 'c', val: "]"},
	{src: "<!--\r\n-->", kind: '-'}, {src: "<?p \r?>", kind: '-'}, elem("c", nil).clone("<c\r\n/>"), elem("c", nil, xitem{src: "\ry", kind: 't', val: "\ny"}),
}

func xmlAttrs() []xattr {
	var out []xattr
	vals := []xitem{{src: "", val: ""}}
	for _, t := range xmlTexts {
		if !strings.ContainsAny(t.src, "\n\r\t") {
			vals = append(vals, t)
		}
	}
	vals = append(vals, xitem{src: "<?p?>", val: "<?p?>"}, xitem{src: "/>", val: "/>"})
	for i, v := range vals {
		if v.src == "<?p?>" {
			v.src = "&lt;?p?>"
		}
		if !strings.Contains(v.src, `"`) {
			out = append(out, xattr{` k="` + v.src + `"`, "k", v.val})
		}
		if !strings.Contains(v.src, "'") {
			out = append(out, xattr{"\n k = '" + v.src + "' ", "k", v.val})
		}
		if i%4 == 0 && !strings.Contains(v.src, `"`) {
			out = append(out, xattr{` n:k="` + v.src + `"`, "k", v.val})
		}
	}
	return out
}

// xmlDocs calls emit with every document of the bounded space; each unit of work is one call of the returned functions.
func xmlDocs(thorough bool, emit func(w int, items []xitem)) []func(w int) {
	var jobs []func(w int)
	all := append(append(append([]xitem{}, xmlTexts...), xmlNothing...), xmlCData...)
	attrs := xmlAttrs()
	few := []xattr{attrs[0], attrs[2], {` xmlns="u"`, "xmlns", "u"}, {` xmlns:n="v"`, "n", "v"}, {` k="1"`, "k", "1"}, {` k2='&amp;'`, "k2", "&"}}
	selfClosing := func(name string, as ...xattr) []xitem {
		e := elem(name, as)
		open := e.src[:strings.Index(e.src, "></")]
		return []xitem{e, e.clone(open + "/>"), e.clone(open + " />"), e.clone(open + " ></" + name + " >"), e.clone(open + "></" + name + "\n>")}
	}
	// Attributes.
	jobs = append(jobs, func(w int) {
		for _, a := range attrs {
			for _, e := range selfClosing("a", a) {
				emit(w, []xitem{e})
				emit(w, []xitem{elem("r", nil, e, all[0], e)})
			}
		}
		for _, a := range few {
			for _, b := range few {
				for _, e := range selfClosing("a", a, b) {
					emit(w, []xitem{e})
					emit(w, []xitem{elem("r", []xattr{b}, e, elem("n:s", []xattr{a, b, a}, all[0]))})
				}
				for _, c := range few {
					emit(w, []xitem{elem("a", []xattr{a, b, c}, elem("b", []xattr{c, a}))})
				}
			}
		}
		for _, n := range []string{"a", "n:a", "_", "a1", "a-b", "a.b", "é", "日本", "A_B", "xml1", "x:y"} {
			for _, a := range append([]xattr{{"", "", ""}}, few...) {
				as := []xattr{a}
				if a.name == "" {
					as = nil
				}
				for _, e := range selfClosing(n, as...) {
					emit(w, []xitem{e})
					emit(w, []xitem{elem("r", nil, e)})
				}
				emit(w, []xitem{elem(n, as, elem("b", nil, all[0]), elem(n, nil))})
			}
		}
	})
	// Content: all sequences of items up to a length.
	child := []xitem{elem("c", nil), elem("c", nil).clone("<c/>"), elem("c", few[4:5], xmlTexts[0]), elem("c", nil, elem("d", nil, xmlTexts[4]), xmlTexts[1], elem("d", nil))}
	items := append(append([]xitem{}, all...), child...)
	small := append([]xitem{xmlTexts[0], xmlTexts[1], xmlTexts[18], xmlNothing[0], xmlNothing[2], xmlNothing[3], xmlNothing[4], xmlCData[0], xmlCData[1], xmlCData[3]}, child...)
	seq := func(alpha []xitem, n int) {
		for i := range alpha {
			i := i
			jobs = append(jobs, func(w int) {
				var rec func(s []xitem)
				rec = func(s []xitem) {
					emit(w, []xitem{elem("r", nil, s...)})
					if len(s) == n {
						return
					}
					for _, it := range alpha {
						rec(append(s[:len(s):len(s)], it))
					}
				}
				rec([]xitem{alpha[i]})
			})
		}
	}
	n1, n2 := 3, 4
	if thorough {
		n1, n2 = 3, 5
	}
	seq(items, n1)
	seq(small, n2)
	seq(xmlLines, n1)
	// What surrounds the root.
	decl := []xitem{{src: "", kind: '-'}, {src: `<?xml version="1.0"?>`, kind: '-'}, {src: `<?xml version="1.0" encoding="UTF-8" standalone="yes"?>` + "\n", kind: '-'}, {src: `<?xml version="1.0" encoding="ISO-8859-1"?>`, kind: '-'}, {src: "\n \t", kind: '-'}}
	around := []xitem{{src: "<!-- c -->", kind: '-'}, {src: "<!-- <a/> <?q?> -->", kind: '-'}, {src: "<?p q?>", kind: '-'}, {src: "<?p <a/>?>", kind: '-'}, {src: "\n", kind: 't', val: "\n"}, {src: "  ", kind: 't', val: "  "}}
	doctype := []xitem{{src: "", kind: '-'}, {src: "<!DOCTYPE r>", kind: '-'}, {src: "<!DOCTYPE r [ <!ELEMENT r (#PCDATA)> <!ENTITY e 'v>'> ]>", kind: '-'}, {src: `<!DOCTYPE r SYSTEM "r.dtd">` + "\n", kind: '-'}}
	roots := []xitem{elem("r", nil), elem("r", few[4:5], xmlTexts[0], xmlNothing[3], xmlTexts[1], child[2], xmlNothing[4], child[0])}
	var sides [][]xitem
	sides = append(sides, nil)
	for _, a := range around {
		sides = append(sides, []xitem{a})
		for _, b := range around {
			sides = append(sides, []xitem{a, b})
		}
	}
	for _, d := range decl {
		for _, s := range sides {
			d, s := d, s
			jobs = append(jobs, func(w int) {
				for _, t := range doctype {
					for _, s2 := range sides {
						for _, r := range roots {
							doc := append([]xitem{d}, s...)
							doc = append(doc, t)
							doc = append(doc, s2...)
							doc = append(doc, r)
							emit(w, doc)
							if t.src == "" {
								continue
							}
							for _, s3 := range sides {
								emit(w, append(doc[:len(doc):len(doc)], s3...))
							}
						}
					}
				}
			})
		}
	}
	// Nesting: all trees up to a number of elements, with attributes and text between.
	jobs = append(jobs, func(w int) {
		max := 5
		if thorough {
			max = 6
		}
		var forests func(n int, f func([]xitem))
		deco := [][]xattr{nil, few[4:6]}
		sep := []xitem{xmlNothing[0].clone(""), xmlTexts[0], xmlNothing[3]}
		forests = func(n int, f func([]xitem)) {
			f(nil)
			if n == 0 {
				return
			}
			for k := 0; k < n; k++ {
				forests(k, func(kids []xitem) {
					if countElems(kids) != k {
						return
					}
					for di, d := range deco {
						for si, s := range sep {
							if di+si > 1 && n > 3 {
								continue
							}
							e := elem("abc"[k%3:k%3+1], d, append([]xitem{s}, kids...)...)
							forests(n-1-k, func(rest []xitem) {
								f(append([]xitem{e, s}, rest...))
							})
						}
					}
				})
			}
		}
		forests(max-1, func(f []xitem) { emit(w, []xitem{elem("r", nil, f...)}) })
	})
	return jobs
}

func countElems(items []xitem) int {
	n := 0
	for _, it := range items {
		if it.kind == 'e' {
			n += 1 + countElems(it.kids)
		}
	}
	return n
}

var xmlOpts = []xopts{{}, {"@", "e:", "t:"}}

func newXML(o xopts) xmlparser.XMLParser {
	if o == (xopts{}) {
		return xmlparser.NewXMLParser()
	}
	return xmlparser.NewXMLParser(xmlparser.WithAttrPrefix(o.attr), xmlparser.WithElemPrefix(o.elem), xmlparser.WithTextPrefix(o.text))
}

// stdXML reads a text with the standard library's lenient decoder. ok tells whether it reads to the end.
// free: the text has no single root element around everything, so only termination is demanded.
func stdXML(text []byte, o xopts) (ns []*wnode, ok, free bool) {
	dec := xml.NewDecoder(bytes.NewReader(text))
	dec.Strict = false
	dec.CharsetReader = func(_ string, r io.Reader) (io.Reader, error) { return r, nil }
	var stack []*wnode
	root := &wnode{}
	cur := root
	for {
		t, err := dec.Token()
		if err == io.EOF {
			return root.kids, true, free || len(root.kids) != 1
		}
		if err != nil {
			// Instructions before the root are dropped unread.
			return nil, false, free || strings.HasPrefix(strings.TrimSpace(string(text)), "<?")
		}
		switch x := t.(type) {
		case xml.StartElement:
			n := fieldNode(o.elem + x.Name.Local)
			for _, a := range x.Attr {
				at := fieldNode(o.attr + a.Name.Local)
				at.kids = []*wnode{xmlLeaf(a.Value, o.text, false)}
				n.kids = append(n.kids, at)
			}
			cur.kids = append(cur.kids, n)
			stack = append(stack, cur)
			cur = n
		case xml.EndElement:
			cur = stack[len(stack)-1]
			stack = stack[:len(stack)-1]
		case xml.CharData:
			if len(stack) == 0 && strings.TrimSpace(string(x)) != "" {
				free = true // text outside the root element
			}
			if len(x) > 0 && !(len(stack) == 0 && strings.TrimSpace(string(x)) == "") {
				cur.kids = append(cur.kids, xmlLeaf(string(x), o.text, true))
			}
		}
	}
}

func runC18(r *Run) {
	parsers := make([][2]xmlparser.XMLParser, 64)
	get := func(w, o int) xmlparser.XMLParser {
		if parsers[w][o] == nil {
			parsers[w][o] = newXML(xmlOpts[o])
		}
		return parsers[w][o]
	}
	check := func(w int, text string, want func(o xopts) ([]*wnode, bool, bool)) {
		r.States.Add(1)
		for oi, o := range xmlOpts {
			p := get(w, oi)
			exp, ok, free := want(o)
			got, err := fullWalk(p, func() error { return p.Init([]byte(text)) }, 4*len(text)+16)
			r.Traces.Add(1)
			d := ""
			if err != nil && (isPanic(err) || err == errSteps) {
				parsers[w][oi] = nil
				d = err.Error()
			} else if free {
				continue
			} else if !ok && err == nil {
				d = "a malformed document is walked without error"
			} else if ok && err != nil {
				d = "a well-formed document ends in the error " + err.Error()
			} else if ok {
				d = firstDiff(exp, got, "root")
			}
			if ok {
				r.Transitions.Add(int64(countNodes(exp)))
			}
			if oi == 0 {
				if ok {
					r.accepts.Add(1)
				} else {
					r.rejects.Add(1)
				}
			}
			if d != "" {
				r.Violation(text, fmt.Sprintf("XML document %q, prefixes %+v: %s\n  expected %s\n  got      %s", text, o, d, nodesString(exp), nodesString(got)), text)
				return
			}
		}
		if n := r.sampleTick.Add(1); n&(n-1) == 0 && n > 16 {
			r.Sample("%q", text)
		}
	}
	long := 300
	if r.Thorough {
		long = 1025
	}
	longPresented(r, "xml", long)
	longBroken(8, "xml", []byte("<>/&x' "), func(w int, text []byte) {
		if !xmlDiverges(string(text)) {
			check(w, string(text), func(o xopts) ([]*wnode, bool, bool) { return stdXML(text, o) })
		}
	}, r)
	truncStates := func(w int, items []xitem) {
		text := xsrc(items)
		check(w, text, func(o xopts) ([]*wnode, bool, bool) { return xmlWant(items, o, true), true, false })
		if len(text) > 120 || len(items) > 5 || len(items) == 1 && len(items[0].kids) > 3 && !r.Thorough {
			return
		}
		// The documents that end inside the root element.
		start, end := 0, 0
		at := 0
		for _, it := range items {
			if it.kind == 'e' {
				start, end = at, at+len(it.src)
			}
			at += len(it.src)
		}
		step := 1
		if !r.Thorough && len(items) > 1 {
			step = 5
		}
		for cut := start + 1; cut < end; cut += step {
			check(w, text[:cut], func(o xopts) ([]*wnode, bool, bool) { return nil, false, false })
		}
	}
	jobs := xmlDocs(r.Thorough, truncStates)
	r.Par(len(jobs), func(w, i int) {
		r.mark(w, func() string { return fmt.Sprintf("documents, part %d", i) })
		jobs[i](w)
	})
	r.Bound("documents by construction: %d attribute forms, %d content items (texts, references, CDATA, comments, instructions, children) in every sequence up to length 3 (4, thorough 5, over 14 items), everything around the root, all element trees up to 5 (6) elements; each document of up to 120 bytes cut inside its root", len(xmlAttrs()), len(xmlTexts)+len(xmlNothing)+len(xmlCData)+4)

	// Token sequences, well-formed or not, against the standard library's lenient decoder.
	toks := []string{"<a>", "</a>", "<b/>", "<b k='v'>", "</b>", "</ a>", "x", " ", "&lt;", "&", ";", "&#6;", "&zz;", "<!--", "-->", "<![CDATA[", "]]>", "<?p", "?>", "<", ">", "/>", "<!D", "\"", "\xff", "<a k", "=v", "\n", "\x00"}
	n := 4
	if r.Thorough {
		n = 5
	}
	r.Par(len(toks)*len(toks), func(w, i int) {
		r.mark(w, func() string {
			return fmt.Sprintf("token sequences starting with %q %q", toks[i/len(toks)], toks[i%len(toks)])
		})
		var rec func(s string, left int)
		rec = func(s string, left int) {
			if xmlDiverges(s) {
				return
			}
			for _, outer := range []string{s, "<r>" + s + "</r>"} {
				check(w, outer, func(o xopts) ([]*wnode, bool, bool) { return stdXML([]byte(outer), o) })
			}
			if left == 0 {
				return
			}
			for _, t := range toks {
				rec(s+t, left-1)
			}
		}
		if i%len(toks) == 0 {
			rec(toks[i/len(toks)], 0)
		}
		rec(toks[i/len(toks)]+toks[i%len(toks)], n-2)
	})
	r.Bound("all sequences of up to %d of %d tokens, alone and inside an element, against the standard library's decoder", n, len(toks))
}

// xmlDiverges: texts on which the decoder here and the standard library's differ by version (the library became stricter).
func xmlDiverges(s string) bool {
	for i := strings.Index(s, "<!--"); i >= 0; {
		rest := s[i+4:]
		end := strings.Index(rest, "-->")
		if end < 0 {
			return strings.Contains(rest, "--")
		}
		if strings.Contains(rest[:end], "--") || strings.HasPrefix(rest, ">") || strings.HasPrefix(rest, "->") {
			return true
		}
		s = rest[end+3:]
		i = strings.Index(s, "<!--")
	}
	return false
}
