package main

import (
	"fmt"
	"io"
	"reflect"

	"github.com/katydid/katydid/parser"
	jsonparser "github.com/katydid/katydid/parser/json"
	protoparser "github.com/katydid/katydid/parser/proto"
	reflectparser "github.com/katydid/katydid/parser/reflect"
	xmlparser "github.com/katydid/katydid/parser/xml"
	yamlparser "github.com/katydid/katydid/parser/yaml"
)

func init() {
	register("C23", runC23)
	register("C24", runC24)
}

// testParser is one parser instance of a format.
type testParser struct {
	parser.Interface
	init  func(in interface{}) error
	reset func() error // nil if the format has none
}

// tformat is a format with its inputs.
type tformat struct {
	name string
	mk   func() *testParser
	good []interface{} // well-formed inputs
	bad  []interface{} // inputs that end in an error somewhere
}

func showInput(in interface{}) string {
	switch x := in.(type) {
	case []byte:
		return fmt.Sprintf("%q", x)
	case reflect.Value:
		return fmt.Sprintf("%s %+v", x.Type(), x)
	}
	return fmt.Sprint(in)
}

// jsonTexts enumerates the values with at most n nodes below.
func jsonTexts(n int, scalars []string) []string {
	memo := map[int][]string{}
	var exact func(n int) []string
	// seqs of values with n nodes in total, an element costs 1 and what is below it
	var seqs func(n int) [][]string
	seqs = func(n int) [][]string {
		if n == 0 {
			return [][]string{nil}
		}
		var out [][]string
		for k := 1; k <= n; k++ {
			for _, v := range exact(k - 1) {
				for _, rest := range seqs(n - k) {
					out = append(out, append([]string{v}, rest...))
				}
			}
		}
		return out
	}
	exact = func(n int) []string {
		if o, ok := memo[n]; ok {
			return o
		}
		var out []string
		if n == 0 {
			out = append(append(out, scalars...), "[]", "{}")
		} else {
			for _, s := range seqs(n) {
				a, o := "[", "{ "
				for i, v := range s {
					if i > 0 {
						a += ","
						o += " ,"
					}
					a += v
					o += fmt.Sprintf("%q : %s", "k}"[i%2:], v)
				}
				out = append(out, a+"]", o+" }")
			}
		}
		memo[n] = out
		return out
	}
	var out []string
	for i := 0; i <= n; i++ {
		out = append(out, exact(i)...)
	}
	return out
}

func testFormats(thorough bool, small bool) []*tformat {
	var out []*tformat
	more := 0
	if thorough {
		more = 1
	}
	if small {
		more--
	}
	bytesOf := func(ss []string) []interface{} {
		var o []interface{}
		for _, s := range ss {
			o = append(o, []byte(s))
		}
		return o
	}
	truncated := func(good []interface{}, step int) []interface{} {
		var o []interface{}
		for i := 0; i < len(good); i += step {
			b := good[i].([]byte)
			for cut := 0; cut < len(b); cut++ {
				o = append(o, b[:cut])
			}
		}
		return o
	}
	{
		f := &tformat{name: "json", mk: func() *testParser {
			p := jsonparser.NewJsonParser()
			return &testParser{p, func(in interface{}) error { return p.Init(in.([]byte)) }, p.Reset}
		}}
		f.good = bytesOf(jsonTexts(4+more, []string{"1", `"]\""`}))
		f.good = append(f.good, bytesOf([]string{` { "a" : [ true , {"b":null} , -1.5e3 ] , "c" : "\u0041" } `, `[[1,2],[3,[4]],5]`, `"x"`, ` null`})...)
		f.bad = truncated(f.good, 7)
		f.bad = append(f.bad, bytesOf([]string{`{"a":[1}],"b":2}`, `{"a":{"b":1],"c":2}`, `[1,{"a":}]`, `{"a":1 "b":2}`, `[[1,]]`, `[01]`, `{"a":tru}`, `[1]]`, `{"a":"\x"}`, `{"a":{"b":"`, ``})...)
		out = append(out, f)
	}
	{
		f := &tformat{name: "xml", mk: func() *testParser {
			p := xmlparser.NewXMLParser(xmlparser.WithAttrPrefix("@"))
			return &testParser{p, func(in interface{}) error { return p.Init(in.([]byte)) }, p.Reset}
		}}
		attrs := []xattr{{` k="1"`, "k", "1"}, {` l='v'`, "l", "v"}}
		// All trees up to a number of nodes: an element with two attributes has four nodes more.
		memo := map[int][][]xitem{}
		var forests func(n int) [][]xitem
		forests = func(n int) [][]xitem {
			if o, ok := memo[n]; ok {
				return o
			}
			out := [][]xitem{}
			if n == 0 {
				out = append(out, nil)
			} else {
				for _, rest := range forests(n - 1) {
					out = append(out, append([]xitem{xmlTexts[0]}, rest...))
				}
				for _, rest := range forests(n - 1) {
					out = append(out, append([]xitem{xmlNothing[1]}, rest...))
				}
				for k := 1; k <= n; k++ {
					for _, rest := range forests(n - k) {
						for a := 0; a <= 2 && 2*a < k; a++ {
							for _, kids := range forests(k - 1 - 2*a) {
								e := elem("ab"[n%2:n%2+1], attrs[:a], kids...)
								out = append(out, append([]xitem{e}, rest...))
							}
						}
					}
				}
			}
			memo[n] = out
			return out
		}
		for n := 0; n <= 4+more; n++ {
			for _, kids := range forests(n) {
				f.good = append(f.good, []byte(elem("r", attrs[:n%3], kids...).src))
			}
		}
		f.good = append(f.good, bytesOf([]string{"<?xml version=\"1.0\"?>\n<!-- c --><r><?p?><![CDATA[x]]>y<a/></r>\n<!-- d -->", "<r xmlns:n='u' n:a='1'><n:b n:c='2'>t</n:b></r>"})...)
		f.bad = truncated(f.good, 11)
		f.bad = append(f.bad, bytesOf([]string{"<a><b k='1'>x</b", "<a k='1' l='2'><b", "<a>&#0;</a>", "<a><!-- </a>", "<a><![CDATA[x</a>", "</a>", "<a></a></a>", "<a></b></a>", "<a k='1", "<a><b><c></a>", "<a>\xff</a><b/>", "<!DOCTYPE a [", ""})...)
		out = append(out, f)
	}
	{
		mixed := mixedSchema()
		f := &tformat{name: "protobuf", mk: func() *testParser {
			p, err := protoparser.NewProtoParser("p", "M", mixed.set)
			if err != nil {
				panic(err)
			}
			return &testParser{p, func(in interface{}) error { return p.Init(in.([]byte)) }, p.Reset}
		}}
		leafs := [][]byte{
			putVarint(putKey(nil, 1, 0), 3),
			putVarint(putKey(nil, 2, 0), 1),
			putLen(putKey(nil, 3, 2), []byte{1, 0xac, 2}),
			putLen(putKey(nil, 3, 2), nil),
			putLen(putKey(nil, 4, 2), []byte("x")),
			append(putKey(nil, 7, 5), 1, 0, 0, 0),
			putLen(putKey(nil, 99, 2), []byte{8, 1}),
		}
		items := append([][]byte{}, leafs...)
		for _, c := range append([][]byte{nil, append(append([]byte{}, leafs[1]...), leafs[1]...), append(append([]byte{}, leafs[2]...), leafs[0]...), putLen(putKey(nil, 6, 2), leafs[0])}, leafs...) {
			items = append(items, putLen(putKey(nil, 5, 2), c), putLen(putKey(nil, 6, 2), c))
		}
		var rec func(b []byte, left int)
		rec = func(b []byte, left int) {
			if want, st, _ := protoRef(mixed.root, b); st == refOK && countNodes(want) <= 10+3*more {
				f.good = append(f.good, b)
			}
			if left == 0 {
				return
			}
			for _, it := range items {
				rec(append(b[:len(b):len(b)], it...), left-1)
			}
		}
		rec(nil, 3+more)
		f.bad = truncated(f.good, 29)
		f.bad = append(f.bad, []byte{0x2a, 0x05, 0x08}, []byte{0x32, 0x02, 0x08, 0x01, 0x32, 0x7f}, []byte{0x1a, 0x02, 0x80, 0x80}, []byte{0x0b}, []byte{0x2a, 2, 0x2a, 9}, []byte{0x3d, 1, 2}, []byte{0x22, 0xff, 0xff, 0xff, 0xff, 0x0f})
		out = append(out, f)
	}
	{
		f := &tformat{name: "reflect", mk: func() *testParser {
			p := reflectparser.NewReflectParser()
			return &testParser{p, func(in interface{}) error { p.Init(in.(reflect.Value)); return nil }, nil}
		}}
		for i, v := range reflValues(false) {
			n := countNodes(reflRef(v))
			if n <= 8+2*more && (i%17 == 0 || n > 5 && i%101 == 0 || i > 123700) {
				f.good = append(f.good, v)
			}
		}
		out = append(out, f)
	}
	{
		f := &tformat{name: "yaml", mk: func() *testParser {
			p := yamlparser.NewYamlParser()
			return &testParser{p, func(in interface{}) error { return p.Init(in.([]byte)) }, p.Reset}
		}}
		styles := []ystyle{{unit: "  ", nl: "\n", final: "\n"}, {unit: "\t", nl: "\n", base: "\t", blank: true}}
		i := 0
		yamlDocs(4+more, 3, []*yval{ys("1"), ys("")}, []string{"a", "b", "c"}, func(y *yval) {
			f.good = append(f.good, []byte(y.text0(styles[i%2])))
			i++
		})
		f.bad = truncated(f.good, 13)
		f.bad = append(f.bad, bytesOf([]string{"", "\n", "- 1\nb: 2\n", "a:\n  - 1\n  b: 2\n", "a:\n  b: 1\n  - 2\n", ":\n", "a:\n b:\nc\n  - x", "- - 1\n  - 2\n", "- a: 1\n  b: 2\n", "-\n a: 1\n"})...)
		out = append(out, f)
	}
	return out
}

// look modes: the accessors are called at every position, at leaves only, or nowhere.
func runC23(r *Run) {
	if r.Thorough {
		longTraversals(r, 130, 16)
	} else {
		longTraversals(r, 66, 8)
	}
	for _, f := range testFormats(r.Thorough, false) {
		f := f
		workers := make([]*testParser, 64)
		r.Par(len(f.good), func(w, i int) {
			in := f.good[i]
			r.mark(w, func() string { return f.name + " " + showInput(in) })
			full := f.mk()
			want, err := fullWalk(full, func() error { return full.init(in) }, 100000)
			if err != nil {
				r.Violation(f.name+" | "+showInput(in)+" | full", fmt.Sprintf("%s input %s: the full traversal ends in %v", f.name, showInput(in), err), showInput(in))
				return
			}
			for mode := 0; mode < 3; mode++ {
				c := &chooser{}
				for {
					if workers[w] == nil {
						workers[w] = f.mk()
					}
					t := &partial{c: c, p: workers[w], limit: -1, mode: mode}
					err := guard(func() error {
						if err := workers[w].init(in); err != nil {
							return err
						}
						return t.run(want, 0)
					})
					r.Traces.Add(1)
					r.States.Add(int64(t.ops))
					if err != nil {
						workers[w] = nil
						r.Violation(fmt.Sprintf("%s | %s | %s", f.name, showInput(in), t.trace), fmt.Sprintf("%s input %s, calls %s (n: Next, d: Down, u: Up), accessor mode %d: %v\n  full traversal %s", f.name, showInput(in), t.trace, mode, err, nodesString(want)), string(t.trace))
						return
					}
					r.Transitions.Add(int64(t.ops))
					if !c.next() {
						break
					}
				}
			}
			if k := i + 1; k&(k-1) == 0 {
				r.Sample("%s %s", f.name, showInput(in))
			}
		})
		for i := range workers {
			workers[i] = nil
		}
		r.Bound("%s: every legal traversal (advance, descend, ascend early) of %d inputs, accessors called everywhere, at leaves, nowhere", f.name, len(f.good))
		// Inputs with an error in them: every traversal ends.
		r.Par(len(f.bad), func(w, i int) {
			in := f.bad[i]
			r.mark(w, func() string { return f.name + " " + showInput(in) })
			c := &chooser{}
			for {
				if workers[w] == nil {
					workers[w] = f.mk()
				}
				t := &partial{c: c, p: workers[w], limit: 400, mode: int(i % 3)}
				err := guard(func() error {
					if err := workers[w].init(in); err != nil {
						return nil
					}
					return t.free(0)
				})
				r.Traces.Add(1)
				r.States.Add(int64(t.ops))
				r.Transitions.Add(int64(t.ops))
				if err != nil && err != errStop {
					workers[w] = nil
					r.Violation(fmt.Sprintf("%s | %s | %s", f.name, showInput(in), t.trace), fmt.Sprintf("%s input %s, calls %s: %v", f.name, showInput(in), t.trace, err), string(t.trace))
					return
				}
				if len(c.path) > 400 || !c.next() {
					break
				}
			}
		})
		r.Bound("%s: every traversal of %d inputs with an error in them ends without a panic", f.name, len(f.bad))
	}
}

// free explores one choice sequence without knowing the input. An error from Next ends it.
func (t *partial) free(depth int) error {
	if depth > 0 && t.c.choose(2) == 1 {
		return nil
	}
	for {
		if err := t.op('n'); err != nil {
			return errSteps
		}
		if err := t.p.Next(); err != nil {
			if err == io.EOF {
				return nil
			}
			return errStop
		}
		leaf := t.p.IsLeaf()
		if t.mode != 2 {
			look(t.p)
		}
		choices := 1
		if !leaf {
			choices++
		}
		if depth > 0 {
			choices++
		}
		k := 0
		if choices > 1 {
			k = t.c.choose(choices)
		}
		if !leaf && k == 1 {
			if err := t.op('d'); err != nil {
				return errSteps
			}
			t.p.Down()
			if err := t.free(depth + 1); err != nil {
				return err
			}
			if err := t.op('u'); err != nil {
				return errSteps
			}
			t.p.Up()
		} else if k > 0 {
			return nil
		}
	}
}

func runC24(r *Run) {
	if r.Thorough {
		longReinit(r, 130)
	} else {
		longReinit(r, 34)
	}
	for _, f := range testFormats(r.Thorough, !r.Thorough) {
		f := f
		reusedMemory(r, f, r.Thorough)
		// Second inputs: a few of every shape, walked in full and by skipping.
		type second struct {
			in   interface{}
			full []*wnode
		}
		var seconds []second
		step := len(f.good)/12 + 1
		for i := 0; i < len(f.good); i += step {
			p := f.mk()
			want, err := fullWalk(p, func() error { return p.init(f.good[i]) }, 100000)
			if err != nil {
				continue
			}
			seconds = append(seconds, second{f.good[i], want})
		}
		firsts := append(append([]interface{}{}, f.good...), f.bad...)
		workers := make([]*testParser, 64)
		fresh := make([]*testParser, 64)
		r.Par(len(firsts), func(w, i int) {
			in := firsts[i]
			r.mark(w, func() string { return f.name + " " + showInput(in) })
			if fresh[w] == nil {
				fresh[w] = f.mk()
			}
			first, ferr := fullWalk(fresh[w], func() error { return fresh[w].init(in) }, 100000)
			fresh[w] = nil
			for limit := 0; limit < 60; limit++ {
				c := &chooser{}
				reached := false
				for {
					for k := 0; k <= len(seconds); k++ {
						if workers[w] == nil {
							workers[w] = f.mk()
						}
						p := workers[w]
						t := &partial{c: c, p: p, limit: limit, mode: limit % 3}
						err := guard(func() error {
							c.at = 0
							if err := p.init(in); err != nil {
								return nil
							}
							if err := t.free(0); err == errSteps {
								reached = true
							}
							return nil
						})
						if err != nil {
							workers[w] = nil
							return // a panic in the first traversal is C23's
						}
						want := first
						init := p.reset
						what := "Reset"
						if k < len(seconds) {
							want = seconds[k].full
							init = func() error { return p.init(seconds[k].in) }
							what = "Init with " + showInput(seconds[k].in)
						} else if init == nil || ferr != nil {
							continue
						}
						r.Traces.Add(1)
						r.States.Add(int64(t.ops) + 1)
						got, gerr := fullWalk(p, init, 100000)
						r.Transitions.Add(int64(t.ops) + int64(countNodes(want)))
						d := ""
						if gerr != nil {
							d = gerr.Error()
						} else {
							d = firstDiff(want, got, "root")
						}
						if d == "" {
							// Then every position is skipped, and everything is entered and left at once.
							for mode := 0; mode < 2 && d == ""; mode++ {
								err := guard(func() error {
									if err := init(); err != nil {
										return err
									}
									return shallow(p, want, mode)
								})
								if err != nil {
									d = err.Error()
								}
							}
						}
						if d != "" {
							workers[w] = nil
							r.Violation(fmt.Sprintf("%s | %s | %s | %s", f.name, showInput(in), t.trace, what), fmt.Sprintf("%s: after input %s, calls %s (n: Next, d: Down, u: Up), %s: %s\n  a new parser presents %s", f.name, showInput(in), t.trace, what, d, nodesString(want)), string(t.trace))
							return
						}
					}
					if len(c.path) > 400 || !c.next() {
						break
					}
				}
				if !reached {
					break
				}
			}
			if k := i + 1; k&(k-1) == 0 {
				r.Sample("%s %s abandoned everywhere", f.name, showInput(in))
			}
		})
		r.Bound("%s: every prefix of every legal traversal of %d inputs (%d with an error in them), then each of %d other inputs and Reset, read in full, skipped over, and entered and left", f.name, len(firsts), len(f.bad), len(seconds))
	}
}

// shallow visits the top level only, entering and leaving each position in mode 1.
func shallow(p parser.Interface, want []*wnode, mode int) error {
	for i := 0; ; i++ {
		err := p.Next()
		if i == len(want) {
			if err != io.EOF {
				return fmt.Errorf("skipping: expected the end after %d positions, got error %v", i, err)
			}
			return nil
		}
		if err != nil {
			return fmt.Errorf("skipping: expected position %d (%s), got error %v", i, want[i].sig, err)
		}
		if leaf, sig := p.IsLeaf(), look(p); leaf != want[i].leaf || sig != want[i].sig {
			return fmt.Errorf("skipping, position %d: expected leaf=%v %s, got leaf=%v %s", i, want[i].leaf, want[i].sig, leaf, sig)
		}
		if mode == 1 && !want[i].leaf {
			p.Down()
			if len(want[i].kids) > 0 && i%2 == 0 {
				if err := p.Next(); err != nil {
					return fmt.Errorf("entering position %d: %v", i, err)
				}
			}
			p.Up()
		}
	}
}
