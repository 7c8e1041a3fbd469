package main

import (
	"bytes"
	"encoding/base64"
	"encoding/json"
	"encoding/xml"
	"fmt"
	"io"
	"math"
	"reflect"
	"strconv"
	"strings"
	"unicode/utf8"

	"github.com/gogo/protobuf/proto"
	jsonenc "github.com/katydid/katydid/encode/json"
	protoenc "github.com/katydid/katydid/encode/proto"
	reflectenc "github.com/katydid/katydid/encode/reflect"
	xmlenc "github.com/katydid/katydid/encode/xml"
	"github.com/katydid/katydid/parser"
	jsonparser "github.com/katydid/katydid/parser/json"
	protoparser "github.com/katydid/katydid/parser/proto"
	reflectparser "github.com/katydid/katydid/parser/reflect"
)

func init() { register("C25", runC25) }

// vnode is what a parser presents at a position, with the values kept.
type vnode struct {
	leaf bool
	v    vals
	kids []*vnode
}

func lookVals(p parser.Value) (v vals) {
	if d, err := p.Double(); err == nil {
		v.d = &d
	}
	if i, err := p.Int(); err == nil {
		v.i = &i
	}
	if u, err := p.Uint(); err == nil {
		v.u = &u
	}
	if b, err := p.Bool(); err == nil {
		v.b = &b
	}
	if s, err := p.String(); err == nil {
		v.s = &s
	}
	if y, err := p.Bytes(); err == nil {
		v.y, v.hasY = append([]byte{}, y...), true
	}
	return v
}

func vwalk(p parser.Interface, steps *int) ([]*vnode, error) {
	var ns []*vnode
	for {
		*steps--
		if *steps < 0 {
			return ns, errSteps
		}
		if err := p.Next(); err != nil {
			if err == io.EOF {
				return ns, nil
			}
			return ns, err
		}
		n := &vnode{leaf: p.IsLeaf(), v: lookVals(p)}
		ns = append(ns, n)
		if n.leaf {
			continue
		}
		p.Down()
		kids, err := vwalk(p, steps)
		n.kids = kids
		if err != nil {
			return ns, err
		}
		p.Up()
	}
}

func vshow(ns []*vnode) string {
	var conv func(ns []*vnode) []*wnode
	conv = func(ns []*vnode) (out []*wnode) {
		for _, n := range ns {
			out = append(out, &wnode{leaf: n.leaf, sig: n.v.sig(), kids: conv(n.kids)})
		}
		return out
	}
	return nodesString(conv(ns))
}

// jsonHolds: can JSON hold this data (objects with distinct names, lists, or one scalar)?
func jsonHolds(ns []*vnode) bool {
	names := map[string]bool{}
	for i, n := range ns {
		if n.leaf {
			if len(ns) > 1 || n.v.s == nil && n.v.d != nil && (math.IsNaN(*n.v.d) || math.IsInf(*n.v.d, 0)) || n.v.s != nil && !utf8.ValidString(*n.v.s) {
				return false
			}
			continue
		}
		if n.v.i != nil {
			if *n.v.i != int64(i) {
				return false
			}
		} else if n.v.s == nil || !utf8.ValidString(*n.v.s) || names[*n.v.s] {
			return false
		} else {
			names[*n.v.s] = true
		}
		if (n.v.i != nil) != (ns[0].v.i != nil) || !jsonHolds(n.kids) {
			return false
		}
	}
	return true
}

// sameJSON compares decoded JSON with the presented data.
func sameJSON(ns []*vnode, got interface{}, path string) string {
	if len(ns) == 0 {
		switch x := got.(type) {
		case map[string]interface{}:
			if len(x) == 0 {
				return ""
			}
		case []interface{}:
			if len(x) == 0 {
				return ""
			}
		}
		return fmt.Sprintf("%s: expected nothing below, got %v", path, got)
	}
	if ns[0].leaf {
		v := ns[0].v
		num, isNum := got.(json.Number)
		text, isText := got.(string)
		b, isBool := got.(bool)
		ok := false
		switch {
		case v.i != nil:
			ok = isNum && num.String() == strconv.FormatInt(*v.i, 10) || isText && v.s != nil && text == *v.s
		case v.u != nil:
			ok = isNum && num.String() == strconv.FormatUint(*v.u, 10) || isText && v.s != nil && text == *v.s
		case v.d != nil && isNum:
			f, err := strconv.ParseFloat(num.String(), 64)
			ok = err == nil && f == *v.d
		case v.b != nil && isBool:
			ok = b == *v.b && (v.s == nil || *v.s == strconv.FormatBool(b))
		case v.s != nil:
			ok = isText && text == *v.s
		case v.hasY:
			ok = isText && text == base64.StdEncoding.EncodeToString(v.y)
		case v.d == nil && v.b == nil:
			ok = got == nil
		}
		if !ok {
			return fmt.Sprintf("%s: expected %s, got %T %v", path, v.sig(), got, got)
		}
		return ""
	}
	if ns[0].v.i != nil {
		l, ok := got.([]interface{})
		if !ok || len(l) != len(ns) {
			return fmt.Sprintf("%s: expected a list of %d, got %v", path, len(ns), got)
		}
		for i, n := range ns {
			if d := sameJSON(n.kids, l[i], fmt.Sprintf("%s[%d]", path, i)); d != "" {
				return d
			}
		}
		return ""
	}
	m, ok := got.(map[string]interface{})
	if !ok || len(m) != len(ns) {
		return fmt.Sprintf("%s: expected an object with %d fields, got %v", path, len(ns), got)
	}
	for _, n := range ns {
		x, ok := m[*n.v.s]
		if !ok {
			return fmt.Sprintf("%s: field %q is missing", path, *n.v.s)
		}
		if d := sameJSON(n.kids, x, path+"."+*n.v.s); d != "" {
			return d
		}
	}
	return ""
}

func isXMLName(s string) bool {
	if s == "" || strings.HasPrefix(strings.ToLower(s), "xml") {
		return false
	}
	for i, c := range s {
		letter := c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c == '_'
		if !letter && (i == 0 || !(c >= '0' && c <= '9' || c == '-' || c == '.')) {
			return false
		}
	}
	return true
}

func isXMLText(s string) bool {
	if !utf8.ValidString(s) {
		return false
	}
	for _, c := range s {
		if !(c == 9 || c == 10 || c == 13 || c >= 0x20 && c <= 0xd7ff || c >= 0xe000 && c <= 0xfffd || c >= 0x10000 && c <= 0x10ffff) {
			return false
		}
	}
	return true
}

// xmlHolds: can XML elements and text hold this data (names that are XML names, texts that do not touch)?
func xmlHolds(ns []*vnode, top bool) bool {
	for i, n := range ns {
		if n.leaf {
			if top || i > 0 && ns[i-1].leaf || n.v.s != nil && !isXMLText(*n.v.s) {
				return false
			}
			continue
		}
		if n.v.i != nil || n.v.s == nil || !isXMLName(*n.v.s) || !xmlHolds(n.kids, false) {
			return false
		}
	}
	return true
}

// sameXML compares the decoded tokens with the presented data.
func sameXML(ns []*vnode, dec *xml.Decoder, inside bool) string {
	text := ""
	token := func() (xml.Token, string) {
		for {
			t, err := dec.Token()
			if err == io.EOF && !inside {
				return nil, ""
			}
			if err != nil {
				return nil, "reading the result: " + err.Error()
			}
			if c, ok := t.(xml.CharData); ok {
				text += string(c)
				continue
			}
			return t, ""
		}
	}
	var pending *vnode
	checkText := func() string {
		got := text
		text = ""
		n := pending
		pending = nil
		if n == nil {
			if got != "" {
				return fmt.Sprintf("unexpected text %q", got)
			}
			return ""
		}
		v := n.v
		want := ""
		switch {
		case v.s != nil:
			want = *v.s
		case v.i != nil:
			want = strconv.FormatInt(*v.i, 10)
		case v.u != nil:
			want = strconv.FormatUint(*v.u, 10)
		case v.d != nil:
			f, err := strconv.ParseFloat(got, 64)
			if err == nil && (f == *v.d || f != f && *v.d != *v.d) {
				return ""
			}
			want = showDouble(*v.d)
		case v.b != nil:
			want = strconv.FormatBool(*v.b)
		case v.hasY:
			want = base64.StdEncoding.EncodeToString(v.y)
		}
		if got != want {
			return fmt.Sprintf("expected text %q for %s, got %q", want, v.sig(), got)
		}
		return ""
	}
	for _, n := range ns {
		if n.leaf {
			pending = n
			continue
		}
		t, d := token()
		if d == "" {
			d = checkText()
		}
		if d != "" {
			return d
		}
		s, ok := t.(xml.StartElement)
		if !ok || s.Name.Local != *n.v.s || s.Name.Space != "" || len(s.Attr) > 0 {
			return fmt.Sprintf("expected element %s, got %v", *n.v.s, t)
		}
		if d := sameXML(n.kids, dec, true); d != "" {
			return *n.v.s + ": " + d
		}
	}
	t, d := token()
	if d == "" {
		d = checkText()
	}
	if d != "" {
		return d
	}
	if _, ok := t.(xml.EndElement); ok != inside || !inside && t != nil {
		return fmt.Sprintf("expected the end, got %v", t)
	}
	return ""
}

// encoders checks both schemaless encoders on one input of any format.
func encodersCheck(r *Run, p parser.Interface, init func() error, name func() string) (lost bool) {
	var ns []*vnode
	var werr error
	err := guard(func() error {
		if err := init(); err != nil {
			werr = err
			return nil
		}
		steps := 1000000
		ns, werr = vwalk(p, &steps)
		return nil
	})
	if err != nil {
		return true // the parser's own defect
	}
	r.States.Add(2)
	var out []byte
	var eerr error
	run := func(enc func(parser.Interface) ([]byte, error)) error {
		return guard(func() error {
			if err := init(); err != nil {
				out, eerr = nil, err
				return nil
			}
			out, eerr = enc(p)
			return nil
		})
	}
	fail := func(what string) {
		r.Violation(name()+" | "+strings.SplitN(what, ":", 2)[0], fmt.Sprintf("%s: %s\n  presented %s\n  encoded %q, error %v", name(), what, vshow(ns), out, eerr), name())
	}
	perr := run(jsonenc.Encode)
	holds := jsonHolds(ns)
	switch {
	case perr != nil:
		fail("json: " + perr.Error())
		return true
	case werr != nil:
		if eerr == nil && holds {
			fail("json: the parser ends in an error, the encoder does not")
		}
	case holds:
		r.Traces.Add(1)
		r.Transitions.Add(int64(len(out)))
		if eerr != nil {
			fail("json: the encoder ends in an error")
		} else {
			var got interface{}
			dec := json.NewDecoder(bytes.NewReader(out))
			dec.UseNumber()
			if err := dec.Decode(&got); err != nil {
				fail("json: the result is not JSON: " + err.Error())
			} else if _, err := dec.Token(); err != io.EOF {
				fail("json: more than one value")
			} else if d := sameJSON(ns, got, "root"); d != "" {
				fail("json: " + d)
			}
		}
	}
	perr = run(xmlenc.Encode)
	holds = xmlHolds(ns, true)
	switch {
	case perr != nil:
		fail("xml: " + perr.Error())
		return true
	case werr != nil:
		if eerr == nil && holds {
			fail("xml: the parser ends in an error, the encoder does not")
		}
	case holds:
		r.Traces.Add(1)
		r.Transitions.Add(int64(len(out)))
		if eerr != nil {
			fail("xml: the encoder ends in an error")
		} else if d := sameXML(ns, xml.NewDecoder(bytes.NewReader(out)), false); d != "" {
			fail("xml: " + d)
		}
	}
	return false
}

// dropEmpty removes repeated fields without elements: the wire has no occurrence for them.
func dropEmpty(m *pmsg, ns []*wnode) []*wnode {
	var out []*wnode
	for _, n := range ns {
		var f *pfield
		for _, x := range m.fields {
			name := x.name
			if fieldNode(name).sig == n.sig {
				f = x
			}
		}
		if f != nil && f.rep && len(n.kids) == 0 {
			continue
		}
		if f != nil && f.msg != nil {
			c := &wnode{sig: n.sig}
			if f.rep {
				for _, k := range n.kids {
					c.kids = append(c.kids, &wnode{sig: k.sig, kids: dropEmpty(f.msg, k.kids)})
				}
			} else {
				c.kids = dropEmpty(f.msg, n.kids)
			}
			n = c
		}
		out = append(out, n)
	}
	return out
}

func unknownFields(m *pmsg, ns []*wnode) bool {
	for _, n := range ns {
		var f *pfield
		for _, x := range m.fields {
			if fieldNode(x.name).sig == n.sig {
				f = x
			}
		}
		if f == nil {
			return true
		}
		if f.msg == nil {
			continue
		}
		if !f.rep {
			if unknownFields(f.msg, n.kids) {
				return true
			}
			continue
		}
		for _, k := range n.kids {
			if unknownFields(f.msg, k.kids) {
				return true
			}
		}
	}
	return false
}

type penc struct {
	p    protoparser.ProtoParser
	e    protoenc.Encoder
	s    *pschema
	junk []byte
}

func runC25(r *Run) {
	// JSON and XML from every format.
	for _, f := range testFormats(r.Thorough, false) {
		f := f
		workers := make([]*testParser, 64)
		inputs := append(append([]interface{}{}, f.good...), f.bad...)
		r.Par(len(inputs), func(w, i int) {
			in := inputs[i]
			r.mark(w, func() string { return f.name + " " + showInput(in) })
			if workers[w] == nil {
				workers[w] = f.mk()
			}
			p := workers[w]
			if encodersCheck(r, p, func() error { return p.init(in) }, func() string { return f.name + " " + showInput(in) }) {
				workers[w] = nil
			}
			if k := i + 1; k&(k-1) == 0 {
				r.Sample("%s %s", f.name, showInput(in))
			}
		})
		r.Bound("%d %s inputs (%d with an error in them) encoded as JSON and XML, decoded with the standard library and compared with what the parser presents", len(inputs), f.name, len(f.bad))
	}
	// Scalars of JSON and character data of XML in every form, as values and as names.
	r.jsonScalars()
	r.reflectEncode()
	r.protoEncode()
}

// jsonScalars: every single character in strings and texts, numbers of every form.
func (r *Run) jsonScalars() {
	var texts []string
	for c := rune(0); c < 0x300; c++ {
		texts = append(texts, string(c), "a"+string(c)+"b", string(c)+string(c))
	}
	for _, c := range []rune{0x2028, 0x2029, 0xd7ff, 0xe000, 0xfffd, 0xfffe, 0x10000, 0x10ffff} {
		texts = append(texts, string(c), "a"+string(c))
	}
	nums := []string{"0", "-0", "007", "1", "-1", "1.5", "1e3", "1E400", "1e-400", "9223372036854775807", "9223372036854775808", "-9223372036854775808", "-9223372036854775809", "18446744073709551615", "18446744073709551616", "0.1", "1.50", "100000000000000000000000", "5e-324", "1.7976931348623157e308", "true", "false", "t", "f", "T", "F", "TRUE", "True", "nan", "NaN", "inf", "Inf", "-inf", "+Inf", "infinity", "Infinity", "0x1p-2", "0x10", "1_000", "+5", "null", "~", " 1", "1 ", " true"}
	chars := []string{"<", ">", "&", "\"", "'", "\t", "\n", "\r", " ", "]]>", "&amp;", "&#65;", "<!--", "\\", "\\u0041", "{", "}", "é", "😀", "A", "1", ".", "-"}
	for _, a := range chars {
		for _, b := range chars {
			for _, c := range chars {
				texts = append(texts, a+b+c)
			}
		}
	}
	texts = append(texts, nums...)
	var ints []string
	for i := uint(0); i < 64; i++ {
		for _, d := range []uint64{0, 1, ^uint64(0)} {
			ints = append(ints, strconv.FormatUint(1<<i+d, 10))
		}
	}
	texts = append(texts, ints...)
	quote := func(s string) string {
		b, _ := json.Marshal(s)
		return string(b)
	}
	esc := func(s string) string {
		var b bytes.Buffer
		xml.EscapeText(&b, []byte(s))
		return b.String()
	}
	n := 0
	type rec struct{ F string }
	jf, xf, rf := testFormatsByName("json"), testFormatsByName("xml"), testFormatsByName("reflect")
	ps := [3][64]*testParser{}
	r.Par(len(texts), func(w, i int) {
		t := texts[i]
		for k, f := range []*tformat{jf, xf, rf} {
			if ps[k][w] == nil {
				ps[k][w] = f.mk()
			}
		}
		do := func(k int, in interface{}) {
			p := ps[k][w]
			r.mark(w, func() string { return showInput(in) })
			if encodersCheck(r, p, func() error { return p.init(in) }, func() string { return showInput(in) }) {
				ps[k][w] = nil
			}
		}
		do(0, []byte(`{"a":`+quote(t)+`,"b":[`+quote(t)+`,1]}`))
		do(0, []byte(`{`+quote(t)+`:{"x":`+quote(t)+`},"":2}`))
		if json.Valid([]byte(t)) {
			do(0, []byte(`{"a":`+t+`,"b":[`+t+`,`+t+`]}`))
		}
		if isXMLText(t) {
			do(1, []byte("<a>"+esc(t)+"</a>"))
			do(1, []byte("<a k=\""+esc(t)+"\"><b>"+esc(t)+"</b>x</a>"))
		}
		do(2, reflect.ValueOf(rec{t}))
	})
	n = len(texts)
	r.Bound("%d strings, numbers and special words as JSON strings, names and numbers, XML text and attributes and Go strings, encoded as JSON and XML (all characters below U+0300, all triples of 23 pieces, powers of two)", n)
	// Sizes and depths.
	var sizes []int
	for i := 0; i < 40; i++ {
		sizes = append(sizes, i)
	}
	sizes = append(sizes, 63, 64, 65, 126, 127, 128, 129, 255, 256, 4095, 4096, 4097, 16383, 16384, 65536)
	r.Par(len(sizes), func(w, i int) {
		n := sizes[i]
		for k, f := range []*tformat{jf, xf} {
			if ps[k][w] == nil {
				ps[k][w] = f.mk()
			}
		}
		do := func(k int, in string) {
			p := ps[k][w]
			if encodersCheck(r, p, func() error { return p.init([]byte(in)) }, func() string { return fmt.Sprintf("size %d, %.40q", n, in) }) {
				ps[k][w] = nil
			}
		}
		long := strings.Repeat("x", n)
		do(0, `{"a":"`+long+`","`+long+`":["`+long+`"]}`)
		do(0, `{"a":[`+strings.TrimSuffix(strings.Repeat(`{"b":1},`, n), ",")+`]}`)
		do(1, "<a><b>"+long+"</b></a>")
		do(1, "<a>"+strings.Repeat("<b>1</b>", n)+"</a>")
		if n <= 5000 {
			do(0, strings.Repeat(`{"a":[`, n)+"1"+strings.Repeat(`]}`, n))
			do(1, strings.Repeat("<a>", n)+"1"+strings.Repeat("</a>", n))
		}
	})
	r.Bound("texts, lists and nestings of %d sizes up to %d", len(sizes), sizes[len(sizes)-1])
}

func testFormatsByName(name string) *tformat {
	for _, f := range testFormats(false, true) {
		if f.name == name {
			return f
		}
	}
	panic(name)
}

// representable: values whose every field the reflect encoder can set (exported, kinds the parser presents).
func settable(t reflect.Type, seen map[reflect.Type]bool) bool {
	if seen[t] {
		return true
	}
	seen[t] = true
	switch t.Kind() {
	case reflect.Ptr, reflect.Slice:
		return settable(t.Elem(), seen)
	case reflect.Struct:
		for i := 0; i < t.NumField(); i++ {
			if t.Field(i).PkgPath != "" || !settable(t.Field(i).Type, seen) {
				return false
			}
		}
		return true
	case reflect.Interface, reflect.Map, reflect.Array, reflect.Complex128:
		return false
	}
	return true
}

// hasKind reports a kind or a value in a type's values.
func hasBytesOrNaN(v reflect.Value) bool {
	switch v.Kind() {
	case reflect.Ptr:
		return !v.IsNil() && hasBytesOrNaN(v.Elem())
	case reflect.Slice:
		if v.Type().Elem().Kind() == reflect.Uint8 {
			return !v.IsNil()
		}
		for i := 0; i < v.Len(); i++ {
			if hasBytesOrNaN(v.Index(i)) {
				return true
			}
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			if hasBytesOrNaN(v.Field(i)) {
				return true
			}
		}
	case reflect.Float64, reflect.Float32:
		return math.IsNaN(v.Float()) || math.IsInf(v.Float(), 0)
	}
	return false
}

func (r *Run) reflectEncode() {
	all := reflValues(r.Thorough)
	var values []reflect.Value
	for _, v := range all {
		t := v.Type()
		if t.Kind() == reflect.Ptr {
			t = t.Elem()
		}
		if t.Kind() == reflect.Struct && settable(t, map[reflect.Type]bool{}) {
			values = append(values, v)
		}
	}
	r.Par(len(values), func(w, i int) {
		v := values[i]
		r.mark(w, func() string { return fmt.Sprintf("%#v", v) })
		t := v.Type()
		if t.Kind() == reflect.Ptr {
			t = t.Elem()
		}
		want := reflRef(v)
		check := func(what string, p parser.Interface) {
			r.States.Add(1)
			out := reflect.New(t)
			err := guard(func() error { return reflectenc.Encode(p, out.Interface()) })
			d := ""
			if err != nil {
				d = err.Error()
			} else {
				d = firstDiff(want, reflRef(out), "root")
			}
			if d != "" {
				r.Violation(fmt.Sprintf("go structure | %s | %s %+v", what, v.Type(), v), fmt.Sprintf("Go value %+v of type %s %s: %s", v, v.Type(), what, d), fmt.Sprintf("%+v", v))
			}
			r.Transitions.Add(int64(countNodes(want)))
		}
		rp := reflectparser.NewReflectParser()
		rp.Init(v)
		check("copied", rp)
		r.Traces.Add(1)
		if !hasBytesOrNaN(v) {
			rp.Init(v)
			text, err := jsonenc.Encode(rp)
			if err != nil {
				r.Violation(fmt.Sprintf("go structure | to JSON | %s %+v", v.Type(), v), fmt.Sprintf("Go value %+v of type %s cannot be encoded as JSON: %v", v, v.Type(), err), "")
				return
			}
			jp := jsonparser.NewJsonParser()
			if err := jp.Init(text); err == nil {
				check("through JSON", jp)
			}
		}
		if k := i + 1; k&(k-1) == 0 {
			r.Sample("Go %s %+v", v.Type(), v)
		}
	})
	r.Bound("%d Go structures copied with the reflect encoder directly and through JSON", len(values))
	// Every kind of target for every kind of value: the value or an error, never a panic.
	type target struct {
		name string
		v    func() interface{}
	}
	var targets []reflect.Type
	for _, x := range []interface{}{int8(0), int16(0), int32(0), int64(0), int(0), uint8(0), uint16(0), uint32(0), uint64(0), uint(0), float32(0), float64(0), true, "", []byte{}, []int64{}, []string{}, mixedCase{}, small{}, [2]byte{}, map[string]int64{}, struct{ A int64 }{}, []struct{ A *int64 }{}} {
		targets = append(targets, reflect.TypeOf(x), reflect.PtrTo(reflect.TypeOf(x)))
	}
	targets = append(targets, reflect.TypeOf(small{}).Field(5).Type, reflect.TypeOf((*io.Reader)(nil)).Elem())
	docs := []string{`1`, `-1`, `128`, `300`, `70000`, `5000000000`, `9223372036854775807`, `18446744073709551615`, `1e300`, `1.5`, `1e400`, `true`, `false`, `"a"`, `""`, `null`, `[]`, `[1]`, `[null]`, `["a",null]`, `[[1]]`, `{}`, `{"A":1}`, `{"A":null}`, `{"A":"x","B":true}`, `[{"A":1},{"A":null},null]`, `{"hidden":"x","c":[1]}`, `{"F":{"F":1}}`, `tru`, `[1`, `{"A":`, `[{"A":1]`}
	r.Par(len(targets)*len(docs), func(w, i int) {
		t, d := targets[i/len(docs)], docs[i%len(docs)]
		r.States.Add(1)
		r.Traces.Add(1)
		for variant := 0; variant < 2; variant++ {
			st := reflect.StructOf([]reflect.StructField{{Name: "F", Type: t}, {Name: "G", Type: reflect.TypeOf(int64(0))}})
			out := reflect.New(st)
			text := `{"F":` + d + `,"G":7}`
			if variant == 1 {
				text = `{"X":` + d + `,"G":7}`
			}
			p := jsonparser.NewJsonParser()
			r.mark(w, func() string { return text + " into " + t.String() })
			if p.Init([]byte(text)) != nil {
				continue
			}
			err := guard(func() error { return reflectenc.Encode(p, out.Interface()) })
			bad := ""
			g := out.Elem().Field(1).Int()
			switch {
			case err != nil && isPanic(err):
				bad = err.Error()
			case err == nil && json.Valid([]byte(text)) && g != 7:
				bad = fmt.Sprintf("success, but G is %d", g)
			case err == nil && variant == 0 && !json.Valid([]byte(text)):
				bad = "success although the document is malformed"
			case variant == 1 && json.Valid([]byte(text)) && err != nil:
				bad = "a field that the structure does not have is not skipped: " + err.Error()
			case err == nil && variant == 0:
				// What JSON itself would decode there, for the values both understand.
				std := reflect.New(st)
				serr := json.Unmarshal([]byte(text), std.Interface())
				var has bool
				switch t.Kind() {
				case reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64, reflect.Int, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uint, reflect.Float32, reflect.Float64, reflect.Bool, reflect.String:
					has = true
				}
				// The parser presents nothing below [] and {}, and no value for 1e400: the field is left alone.
				nothing := d == "[]" || d == "{}" || d == "1e400"
				if has && (serr == nil) && !reflect.DeepEqual(std.Elem().Field(0).Interface(), out.Elem().Field(0).Interface()) {
					bad = fmt.Sprintf("got %v, the standard library decodes %v", out.Elem().Field(0), std.Elem().Field(0))
				}
				if has && serr != nil && !nothing {
					bad = fmt.Sprintf("got %v where the standard library says %v", out.Elem().Field(0), serr)
				}
			case err != nil && variant == 0:
				std := reflect.New(st)
				if serr := json.Unmarshal([]byte(text), std.Interface()); serr == nil && t.Kind() != reflect.Interface && t.Kind() != reflect.Map && !strings.Contains(t.String(), "map") && !strings.Contains(t.String(), "small") && !strings.Contains(t.String(), "uint8") {
					bad = fmt.Sprintf("error %v where the standard library decodes %v", err, std.Elem().Field(0))
				}
			}
			if bad != "" {
				r.Violation(fmt.Sprintf("into %s | %s", t, text), fmt.Sprintf("JSON %s into a structure whose field F is %s: %s", text, t, bad), text)
			}
		}
	})
	for _, x := range []interface{}{nil, 1, "a", struct{ A int64 }{}, (*struct{ A int64 })(nil), new(int), []int{1}, &[]int{1}, map[string]int{}} {
		p := jsonparser.NewJsonParser()
		p.Init([]byte(`{"A":1}`))
		err := guard(func() error { return reflectenc.Encode(p, x) })
		if err == nil || isPanic(err) {
			r.Violation(fmt.Sprintf("into %T", x), fmt.Sprintf("encoding into %T %v: error %v", x, x, err), "")
		}
	}
	r.Bound("%d JSON documents into structures with a field of %d types, against the standard library where both apply", len(docs), len(targets))
}

func (r *Run) protoEncode() {
	encs := [64]map[*pschema]*penc{}
	one := func(w int, s *pschema, buf []byte) {
		want, st, _ := protoRef(s.root, buf)
		if st != refOK {
			return
		}
		if unknownFields(s.root, want) || strings.HasPrefix(s.name, "extension with the name of a field") { // a name that says which field
			return
		}
		if encs[w] == nil {
			encs[w] = map[*pschema]*penc{}
		}
		e := encs[w][s]
		if e == nil {
			if len(encs[w]) > 100 {
				encs[w] = map[*pschema]*penc{}
			}
			enc, err := protoenc.NewEncoder(s.set, s.root.pkg, joinPath(s.root.path))
			if err != nil {
				panic(err)
			}
			p, err := protoparser.NewProtoParser(s.root.pkg, joinPath(s.root.path), s.set)
			if err != nil {
				panic(err)
			}
			e = &penc{p: p, e: enc, junk: bytes.Repeat([]byte{0xa5}, 300)}
			encs[w][s] = e
		}
		r.Traces.Add(1)
		r.checkProto(e, s, buf, dropEmpty(s.root, want), nil)
		n := int(r.sampleTick.Add(1))
		r.checkProto(e, s, buf, dropEmpty(s.root, want), e.junk[:n%200])
		if n&(n-1) == 0 {
			r.Sample("%s %x", s.name, buf)
		}
	}
	if r.Thorough {
		longEncoded(r, 300, one)
	} else {
		longEncoded(r, 130, one)
	}
	protoSpaces(r, "C19", one)
	protoGenerated(r, one)
	r.protoSizes()
	r.protoFromOthers()
}

func (r *Run) checkProto(e *penc, s *pschema, buf []byte, want []*wnode, scratch []byte) bool {
	r.States.Add(1)
	var out []byte
	err := guard(func() error {
		if err := e.p.Init(buf); err != nil {
			return err
		}
		var err error
		out, err = e.e.Encode(scratch, e.p)
		return err
	})
	r.Transitions.Add(int64(len(out)))
	d := ""
	if err != nil {
		d = err.Error()
	} else if got, st, _ := protoRef(s.root, out); st != refOK {
		d = "the result is not a well-formed message"
	} else {
		d = firstDiff(want, got, "root")
	}
	if d != "" {
		r.Violation(fmt.Sprintf("protobuf | %s | %x | %d", s.name, buf, len(scratch)), fmt.Sprintf("message type %s, buffer %x encoded again into a buffer of %d bytes gives %x: %s", s.name, buf, len(scratch), out, d), fmt.Sprintf("%x", buf))
		return false
	}
	return true
}

// protoSizes: every initial buffer size, lengths around the sizes of the length prefix at every depth.
func (r *Run) protoSizes() {
	s := mixedSchema()
	var lens []int
	for i := 0; i < 30; i++ {
		lens = append(lens, i)
	}
	for _, c := range []int{128, 16384} {
		for d := -60; d <= 3; d++ {
			lens = append(lens, c+d)
		}
	}
	if r.Thorough {
		for i := 30; i < 400; i++ {
			lens = append(lens, i)
		}
	}
	var bufs [][]byte
	for _, n := range lens {
		b := putLen(putKey(nil, 4, 2), bytes.Repeat([]byte("x"), n))
		bufs = append(bufs, b)
		for depth := 0; depth < 12; depth++ {
			num := int32(5)
			if depth%2 == 1 {
				num = 6
			}
			b = putLen(putKey(nil, num, 2), b)
			if depth%3 == 2 {
				b = append(putVarint(putKey(nil, 1, 0), uint64(depth)), b...)
				b = putLen(putKey(b, 16, 2), []byte("tail"))
			}
			bufs = append(bufs, b)
		}
	}
	for n := 0; n < 60; n++ {
		var b []byte
		for i := 0; i < n; i++ {
			b = putLen(putKey(b, 6, 2), putVarint(putKey(nil, 1, 0), uint64(i)))
		}
		bufs = append(bufs, b, putLen(putKey(nil, 5, 2), b))
		b = nil
		for i := 0; i < n; i++ {
			b = append(putKey(b, 7, 5), 1, 2, 3, byte(i))
		}
		bufs = append(bufs, b)
	}
	scratches := []int{}
	for i := 0; i <= 64; i++ {
		scratches = append(scratches, i)
	}
	scratches = append(scratches, 100, 127, 128, 200, 300, 1024, 20000)
	r.Par(len(bufs), func(w, i int) {
		buf := bufs[i]
		r.mark(w, func() string { return fmt.Sprintf("%.80x", buf) })
		want, st, _ := protoRef(s.root, buf)
		if st != refOK {
			panic("not well formed")
		}
		enc, _ := protoenc.NewEncoder(s.set, "p", "M")
		p, _ := protoparser.NewProtoParser("p", "M", s.set)
		e := &penc{p: p, e: enc}
		r.Traces.Add(1)
		for _, n := range scratches {
			if !r.checkProto(e, s, buf, dropEmpty(s.root, want), bytes.Repeat([]byte{0xff}, n)) {
				return
			}
		}
		if !bytes.Equal(buf, bufs[i]) {
			r.Violation("input changed", "encoding changes its input", "")
		}
	})
	r.Bound("%d messages with lengths around 1, 2 and 3 byte length prefixes at depths 0 to 12, long lists, each encoded into buffers of %d sizes from 0", len(bufs), len(scratches))
	// A parser that fails at any point makes the encoder fail.
	f := testFormatsByName("protobuf")
	r.Par(len(f.bad)+len(f.good), func(w, i int) {
		var buf []byte
		if i < len(f.bad) {
			buf = f.bad[i].([]byte)
		} else {
			buf = f.good[i-len(f.bad)].([]byte)
		}
		want, st, _ := protoRef(s.root, buf)
		enc, _ := protoenc.NewEncoder(s.set, "p", "M")
		p, _ := protoparser.NewProtoParser("p", "M", s.set)
		steps := 100000
		p.Init(buf)
		_, werr := vwalk(p, &steps)
		err := guard(func() error {
			if err := p.Init(buf); err != nil {
				return err
			}
			_, err := enc.Encode(nil, p)
			return err
		})
		r.States.Add(1)
		if err != nil && isPanic(err) || werr != nil && err == nil {
			r.Violation(fmt.Sprintf("failing parser | %x", buf), fmt.Sprintf("buffer %x (%v %s): walking it ends in %v, encoding it in %v", buf, st, nodesString(want), werr, err), fmt.Sprintf("%x", buf))
		}
	})
	r.Bound("%d protobuf buffers, truncated ones among them: the encoder fails when the parser does", len(f.bad)+len(f.good))
}

// protoFromOthers: generated structures through the reflect parser, and through JSON, into protobuf, and protobuf into structures.
func (r *Run) protoFromOthers() {
	msgs := protoMessages(r.Thorough)
	type schema struct {
		s         *pschema
		sameNames bool
	}
	schemas := map[reflect.Type]*schema{}
	for _, m := range msgs {
		t := reflect.TypeOf(m).Elem()
		if schemas[t] != nil {
			continue
		}
		d, ok := m.(described)
		if !ok {
			continue
		}
		pkg := "prototests"
		if t.Name() == "Debug" {
			pkg = "debug"
		}
		sc := &schema{s: &pschema{name: t.Name(), set: d.Description(), root: pmsgOf(d.Description(), "."+pkg+"."+t.Name(), map[string]*pmsg{})}}
		sc.sameNames = goNamesAreProtoNames(t, map[reflect.Type]bool{})
		schemas[t] = sc
	}
	var n, back [64]int64
	r.Par(len(msgs), func(w, i int) {
		m := msgs[i]
		t := reflect.TypeOf(m).Elem()
		sc := schemas[t]
		if sc == nil || !sc.sameNames {
			return
		}
		r.mark(w, func() string { return fmt.Sprintf("%s %v", t.Name(), m) })
		n[w]++
		r.States.Add(1)
		r.Traces.Add(1)
		fail := func(what, d string) {
			r.Violation(fmt.Sprintf("generated | %s | %s %v", what, t.Name(), m), fmt.Sprintf("%s %v %s: %s", t.Name(), m, what, d), fmt.Sprint(m))
		}
		data, err := proto.Marshal(m)
		if err != nil {
			panic(err)
		}
		want, _, _ := protoRef(sc.s.root, data)
		pkg := "prototests"
		if t.Name() == "Debug" {
			pkg = "debug"
		}
		enc, err := protoenc.NewEncoder(sc.s.set, pkg, t.Name())
		if err != nil {
			panic(err)
		}
		rp := reflectparser.NewReflectParser()
		rp.Init(reflect.ValueOf(m))
		var out []byte
		err = guard(func() error { var err error; out, err = enc.Encode(nil, rp); return err })
		if err != nil {
			fail("structure to protobuf", err.Error())
		} else {
			// The reflect parser presents the fields in the order of declaration, protobuf in any order: decode with the generated code.
			m2 := reflect.New(t).Interface().(proto.Message)
			if err := proto.Unmarshal(out, m2); err != nil {
				fail("structure to protobuf", err.Error())
			} else {
				data2, err := proto.Marshal(m2)
				if err != nil {
					fail("structure to protobuf", err.Error())
				} else {
					// A set proto3 scalar equal to its default is written by the encoder and dropped by the library.
					got, st, _ := protoRef(sc.s.root, data2)
					if d := firstDiff(dropEmpty(sc.s.root, want), dropEmpty(sc.s.root, got), "root"); st != refOK || d != "" {
						fail("structure to protobuf", d)
					}
				}
			}
		}
		// protobuf to structure
		pp, err := protoparser.NewProtoParser(pkg, t.Name(), sc.s.set)
		if err != nil {
			panic(err)
		}
		m3 := reflect.New(t)
		err = guard(func() error {
			if err := pp.Init(data); err != nil {
				return err
			}
			return reflectenc.Encode(pp, m3.Interface())
		})
		if err != nil {
			fail("protobuf to structure", err.Error())
			return
		}
		back[w]++
		data3, err := proto.Marshal(m3.Interface().(proto.Message))
		if err != nil {
			fail("protobuf to structure", err.Error())
			return
		}
		got, _, _ := protoRef(sc.s.root, data3)
		if d := firstDiff(want, got, "root"); d != "" {
			fail("protobuf to structure", d)
		}
	})
	total := int64(0)
	for _, x := range n {
		total += x
	}
	r.Bound("%d generated structures encoded as protobuf and decoded with the generated code, and the other way around", total)
}

// goNamesAreProtoNames: does every message field have the name of its Go field (no extensions)?
func goNamesAreProtoNames(t reflect.Type, seen map[reflect.Type]bool) bool {
	for t.Kind() == reflect.Ptr || t.Kind() == reflect.Slice {
		t = t.Elem()
	}
	if t.Kind() != reflect.Struct || seen[t] {
		return true
	}
	seen[t] = true
	if _, ok := reflect.PtrTo(t).MethodByName("ExtensionRangeArray"); ok {
		return false
	}
	for i := 0; i < t.NumField(); i++ {
		f := t.Field(i)
		if strings.HasPrefix(f.Name, "XXX_") {
			if f.Name != "XXX_unrecognized" && f.Name != "XXX_NoUnkeyedLiteral" && f.Name != "XXX_sizecache" {
				return false
			}
			continue
		}
		if !strings.Contains(f.Tag.Get("protobuf"), "name="+f.Name+",") && !strings.HasSuffix(f.Tag.Get("protobuf"), "name="+f.Name) {
			return false
		}
		if !goNamesAreProtoNames(f.Type, seen) {
			return false
		}
	}
	return true
}
