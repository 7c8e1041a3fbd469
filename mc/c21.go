package main

import (
	"fmt"
	"strconv"
	"strings"

	yamlparser "github.com/katydid/katydid/parser/yaml"
)

func init() { register("C21", runC21) }

// yval is a document of the supported subset: a scalar, a mapping or a sequence.
type yval struct {
	kind byte // 's' scalar (an empty text is null), 'm', 'l'
	text string
	keys []string
	vals []*yval
	pad  string // spaces around a scalar, as written
	bare bool   // a null is written without the colon
}

func ys(text string) *yval { return &yval{kind: 's', text: text} }

func yamlLeaf(t string) *wnode {
	var o vals
	if t == "true" || t == "false" {
		b := t == "true"
		o.b = &b
	}
	if len(t) > 1 && t[0] == '0' && t[1] >= '0' && t[1] <= '9' {
		o.s = &t // like a telephone number
		return leafNode(o.sig())
	}
	f, ferr := strconv.ParseFloat(t, 64)
	if ferr == nil {
		o.d = &f
	}
	if i, err := strconv.ParseInt(t, 10, 64); err == nil {
		o.i = &i
	} else if ferr == nil && f == float64(int64(f)) && f >= -(1<<63) && f < 1<<63 {
		i := int64(f)
		o.i = &i
	}
	if u, err := strconv.ParseUint(t, 10, 64); err == nil {
		o.u = &u
	}
	if t != "" {
		o.s = &t
	}
	return leafNode(o.sig())
}

func (y *yval) want() []*wnode {
	var ns []*wnode
	switch y.kind {
	case 's':
		return []*wnode{yamlLeaf(y.text)}
	case 'm':
		for i, k := range y.keys {
			n := fieldNode(strings.TrimSpace(k))
			n.kids = y.vals[i].want()
			ns = append(ns, n)
		}
	case 'l':
		for i, v := range y.vals {
			n := indexNode(i)
			n.kids = v.want()
			ns = append(ns, n)
		}
	}
	return ns
}

type ystyle struct {
	unit  string // one indentation
	nl    string // between lines
	final string // after the last line
	base  string // indentation of the whole document
	blank bool   // blank lines between entries
}

// write appends the lines of a collection.
func (y *yval) write(b *[]string, st ystyle, in string) {
	field := func(head string, in string, v *yval) {
		switch {
		case v.kind == 's' && v.bare:
			*b = append(*b, strings.TrimSuffix(head, ":"))
		case v.kind == 's' && v.text == "":
			*b = append(*b, head+v.pad)
		case v.kind == 's':
			*b = append(*b, head+" "+v.pad+v.text+v.pad)
		default:
			*b = append(*b, head)
			deeper := in + st.unit
			v.write(b, st, deeper)
		}
	}
	if st.blank && len(*b) > 0 {
		*b = append(*b, "", " ")
	}
	switch y.kind {
	case 'm':
		for i, k := range y.keys {
			field(in+k+":", in, y.vals[i])
		}
	case 'l':
		for _, v := range y.vals {
			if v.kind == 's' {
				*b = append(*b, in+"- "+v.pad+v.text+v.pad)
			} else {
				field(in+"- "+v.keys[0]+":", in+"  ", v.vals[0])
			}
		}
	}
}

func (y *yval) text0(st ystyle) string {
	var b []string
	y.write(&b, st, st.base)
	return strings.Join(b, st.nl) + st.final
}

var yamlScalars = []string{"x", "1", "-2", "2.5", "true", "false", "True", "1e3", "0x10", "007", "9223372036854775807", "9223372036854775808", "-9223372036854775808", "18446744073709551615", "18446744073709551616", "1e18", "1e19", "-0", "-0.0", "+5", "nan", "inf", "1e999", "a b", "http://x", "a: b", "-", "-x", "- x", "é☺", "x:", "#x", "'q'", "\"q\"", "[1]", "{a: 1}", "null", "~", "x-y", "a\tb"}

// yamlDocs enumerates values.
func yamlDocs(n int, depth int, scalars []*yval, keys []string, f func(*yval)) {
	var colls func(n, depth int, f func(*yval))
	value := func(n, depth int, f func(v *yval, used int)) {
		for _, s := range scalars {
			f(s, 1)
		}
		if depth > 0 && n > 1 {
			colls(n-1, depth-1, func(v *yval) { f(v, 1+yamlSize(v)) })
		}
	}
	colls = func(n, depth int, f func(*yval)) {
		var rec func(kind byte, left int, m *yval)
		rec = func(kind byte, left int, m *yval) {
			if len(m.vals) > 0 {
				f(m)
			}
			if left == 0 {
				return
			}
			if kind == 'm' {
				value(left, depth, func(v *yval, used int) {
					k := keys[len(m.vals)%len(keys)]
					rec(kind, left-used, &yval{kind: 'm', keys: append(m.keys[:len(m.keys):len(m.keys)], k), vals: append(m.vals[:len(m.vals):len(m.vals)], v)})
				})
				return
			}
			value(left, depth, func(v *yval, used int) {
				if v.kind == 'l' || v.kind == 'm' && (len(v.keys) > 1 || v.vals[0].bare) || v.bare {
					return // compact collections after a dash: a documented limitation
				}
				rec(kind, left-used, &yval{kind: 'l', vals: append(m.vals[:len(m.vals):len(m.vals)], v)})
			})
		}
		rec('m', n, &yval{kind: 'm'})
		rec('l', n, &yval{kind: 'l'})
	}
	colls(n, depth, f)
}

func yamlSize(v *yval) int {
	n := 0
	for _, k := range v.vals {
		n += 1
		if k.kind != 's' {
			n += yamlSize(k)
		}
	}
	return n
}

func runC21(r *Run) {
	parsers := make([]yamlparser.YamlParser, 64)
	get := func(w int) yamlparser.YamlParser {
		if parsers[w] == nil {
			parsers[w] = yamlparser.NewYamlParser()
		}
		return parsers[w]
	}
	check := func(w int, text string, want []*wnode, demand bool) {
		p := get(w)
		got, err := fullWalk(p, func() error { return p.Init([]byte(text)) }, 8*len(text)+16)
		r.States.Add(1)
		r.Transitions.Add(int64(len(text)))
		d := ""
		if err != nil && (isPanic(err) || err == errSteps) {
			parsers[w] = nil
			d = err.Error()
		} else if demand && err != nil {
			d = "a supported document ends in the error " + err.Error()
		} else if demand {
			d = firstDiff(want, got, "root")
		}
		if demand {
			r.Traces.Add(1)
			r.accepts.Add(1)
		} else {
			r.rejects.Add(1)
		}
		if d != "" {
			r.Violation(text, fmt.Sprintf("YAML document %q: %s\n  expected %s\n  got      %s", text, d, nodesString(want), nodesString(got)), text)
		}
		if n := r.sampleTick.Add(1); n&(n-1) == 0 && n > 8 {
			r.Sample("%q", text)
		}
	}
	long := 300
	if r.Thorough {
		long = 1025
	}
	longPresented(r, "yaml", long)
	longBroken(18, "yaml", []byte("-: \nx\t"), func(w int, text []byte) { check(w, string(text), nil, false) }, r)
	styles := []ystyle{{unit: "  ", nl: "\n", final: "\n"}, {unit: "    ", nl: "\n"}, {unit: "\t", nl: "\n", base: "\t\t"}, {unit: " ", nl: "\r\n", final: "\r\n\r\n"}, {unit: "  ", nl: "\n", final: "\n \n", blank: true, base: "   "}}
	doc := func(w int, y *yval) {
		want := y.want()
		for _, st := range styles {
			check(w, y.text0(st), want, true)
		}
	}
	// Scalars of every kind in every role.
	jobs := []func(w int){}
	for _, t := range yamlScalars {
		t := t
		jobs = append(jobs, func(w int) {
			r.mark(w, func() string { return "scalar " + t })
			for _, pad := range []string{"", " ", "\t", "   "} {
				a := &yval{kind: 's', text: t, pad: pad}
				for _, u := range append([]string{""}, yamlScalars...) {
					b := ys(u)
					m := func(vs ...*yval) *yval {
						return &yval{kind: 'm', keys: []string{"a", "b key", "c " + pad}[:len(vs)], vals: vs}
					}
					docs := []*yval{m(a), m(a, b), m(b, a), m(m(a), b), m(m(a, b)), m(b, m(b, a))}
					if yamlElem(t) && yamlElem(u) {
						l := func(vs ...*yval) *yval { return &yval{kind: 'l', vals: vs} }
						docs = append(docs, l(a), l(a, b), l(b, a), m(l(a, b)), m(l(b), a), l(m(a)), l(m(l(a)), b), m(b, l(m(a), a, m(b))))
					}
					for _, d := range docs {
						doc(w, d)
					}
				}
			}
		})
	}
	r.Par(len(jobs), func(w, i int) { jobs[i](w) })
	r.Bound("%d scalars padded in 4 ways, in pairs, as fields, elements and fields of elements, 5 ways of writing", len(yamlScalars))

	// Structures.
	n := 6
	if r.Thorough {
		n = 8
	}
	var tops []*yval
	yamlDocs(n, 4, []*yval{ys("x"), ys("")}, []string{"a", "b", "c"}, func(y *yval) { tops = append(tops, y) })
	yamlDocs(n-1, 4, []*yval{ys("1"), {kind: 's', bare: true}}, []string{"k"}, func(y *yval) { tops = append(tops, y) })
	const chunk = 256
	r.Par((len(tops)+chunk-1)/chunk, func(w, i int) {
		end := (i + 1) * chunk
		if end > len(tops) {
			end = len(tops)
		}
		r.mark(w, func() string { return fmt.Sprintf("structures starting at %q", tops[i*chunk].text0(styles[0])) })
		for _, y := range tops[i*chunk : end] {
			doc(w, y)
		}
	})
	r.Bound("%d structures: all mappings and sequences with up to %d entries in total, four levels deep", len(tops), n)

	// Any text: it ends, with a tree or an error.
	toks := []string{"a", "b:", "c: d", "-", "- ", "- x", "- y:", ":", "\n", "\n ", "\n  ", "\n\t", "  ", "\r\n", "#", "---", "{", "[", "'", "\xff", "\x00"}
	k := 5
	if r.Thorough {
		k = 6
	}
	r.Par(len(toks)*len(toks), func(w, i int) {
		r.mark(w, func() string { return fmt.Sprintf("texts starting with %q %q", toks[i/len(toks)], toks[i%len(toks)]) })
		var rec func(s string, left int)
		rec = func(s string, left int) {
			check(w, s, nil, false)
			if left == 0 {
				return
			}
			for _, t := range toks {
				rec(s+t, left-1)
			}
		}
		if i%len(toks) == 0 {
			rec(toks[i/len(toks)], 0)
		}
		rec(toks[i/len(toks)]+toks[i%len(toks)], k-2)
	})
	check(0, "", nil, false)
	r.Bound("all sequences of up to %d of %d tokens end without a panic", k, len(toks))
}

// yamlElem: scalars whose text after a dash is a compact collection are outside of the subset.
func yamlElem(t string) bool {
	return !strings.Contains(t, ":") && t != "-" && !strings.HasPrefix(t, "- ")
}
