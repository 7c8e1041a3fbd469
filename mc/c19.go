package main

import (
	"bytes"
	"fmt"
	"strings"

	"github.com/gogo/protobuf/proto"
	"github.com/gogo/protobuf/protoc-gen-gogo/descriptor"
	protoparser "github.com/katydid/katydid/parser/proto"
)

func init() {
	register("C19", func(r *Run) { protoCheck(r, "C19") })
	register("C20", func(r *Run) { protoCheck(r, "C20") })
	register("C27", func(r *Run) { protoCheck(r, "C27") })
}

// pschema is a described message type and one parser for it per worker.
type pschema struct {
	name    string
	root    *pmsg
	set     *descriptor.FileDescriptorSet
	parsers [64]protoparser.ProtoParser
}

func (s *pschema) parser(w int) protoparser.ProtoParser {
	if s.parsers[w] == nil {
		p, err := protoparser.NewProtoParser(s.root.pkg, joinPath(s.root.path), s.set)
		if err != nil {
			panic(fmt.Errorf("schema %s is refused: %v", s.name, err))
		}
		s.parsers[w] = p
	}
	return s.parsers[w]
}

func joinPath(p []string) string {
	s := p[0]
	for _, x := range p[1:] {
		s += "." + x
	}
	return s
}

// mixedSchema has every structural ingredient: singular, repeated, packed, string, recursive message, repeated message.
func mixedSchema() *pschema {
	m := &pmsg{pkg: "p", path: []string{"M"}}
	m.fields = []*pfield{
		{name: "a", num: 1, typ: tInt64},
		{name: "r", num: 2, typ: tSint32, rep: true},
		{name: "p", num: 3, typ: tInt64, rep: true, packed: true},
		{name: "s", num: 4, typ: tString},
		{name: "m", num: 5, typ: tMessage, msg: m},
		{name: "l", num: 6, typ: tMessage, msg: m, rep: true},
		{name: "f", num: 7, typ: tFixed32, rep: true},
		{name: "t", num: 16, typ: tString, rep: true},
	}
	return &pschema{name: "mixed", root: m, set: fileSet([]*pmsg{m}, "")}
}

func protoCheck(r *Run, id string) {
	one := func(w int, s *pschema, buf []byte) {
		want, st, noLatent := protoRef(s.root, buf)
		r.States.Add(1)
		r.Transitions.Add(int64(len(buf)))
		fail := func(what string, err error) {
			r.Violation(fmt.Sprintf("%s | %x", s.name, buf), fmt.Sprintf("message type %s, buffer %x: %s: %v\n  expected %s", s.name, buf, what, err, nodesString(want)), fmt.Sprintf("%x", buf))
		}
		sample := func() {
			r.Traces.Add(1)
			if n := r.sampleTick.Add(1); n&(n-1) == 0 && n > 4 {
				r.Sample("%s %x", s.name, buf)
			}
		}
		if st == refBad || st == refIrregular {
			r.rejects.Add(1)
		} else {
			r.accepts.Add(1)
		}
		p := s.parser(w)
		switch id {
		case "C19":
			if st != refOK {
				return
			}
			sample()
			got, err := fullWalk(p, func() error { return p.Init(buf) }, 8*len(buf)+16)
			if err != nil {
				fail("a well-formed message ends in an error", err)
			} else if d := firstDiff(want, got, "root"); d != "" {
				fail(d, fmt.Errorf("got %s", nodesString(got)))
			}
		case "C20":
			if st == refOK {
				return
			}
			sample()
			// Twice: alone, and followed in memory by bytes that do not belong to the message.
			exact := append(make([]byte, 0, len(buf)), buf...)
			got, err := fullWalk(p, func() error { return p.Init(exact[:len(buf):len(buf)]) }, 16*len(buf)+64)
			if err != nil && (isPanic(err) || err == errSteps) {
				s.parsers[w] = nil
				fail("a corrupt buffer", err)
				return
			}
			if st == refBad && err == nil {
				fail("a buffer with broken framing is walked without error", fmt.Errorf("got %s", nodesString(got)))
				return
			}
			long := append(append(make([]byte, 0, len(buf)+40), buf...), bytes.Repeat([]byte{0x01}, 40)...)
			got2, err2 := fullWalk(s.parser(w), func() error { return p.Init(long[:len(buf)]) }, 16*len(buf)+64)
			if (err == nil) != (err2 == nil) || nodesString(got) != nodesString(got2) {
				s.parsers[w] = nil
				fail("what is seen depends on bytes beyond the buffer", fmt.Errorf("%v, %s versus %v, %s", err, nodesString(got), err2, nodesString(got2)))
			}
		case "C27":
			if st == refBad || st == refIrregular && noLatent {
				return
			}
			sample()
			err := guard(func() error {
				if err := p.Init(buf); err != nil {
					return err
				}
				return protoparser.NoLatentAppendingOrMerging(p)
			})
			if err != nil && isPanic(err) {
				s.parsers[w] = nil
				fail("the merge check", err)
			} else if noLatent && err != nil {
				fail("the merge check complains although every field is in one piece", err)
			} else if !noLatent && err == nil {
				fail("the merge check is quiet although a field is in several pieces", nil)
			}
		}
	}
	long, broken := 300, 18
	if r.Thorough {
		long, broken = 1025, 66
	}
	switch id {
	case "C19":
		longPresented(r, "protobuf", long)
	case "C20":
		longBroken(broken, "protobuf", []byte{0, 1, 2, 0x0a, 0x3a, 0x7f, 0x80, 0x82, 0xff}, func(w int, buf []byte) { one(w, longSchema, buf) }, r)
	case "C27":
		longMerges(r, long, one)
	}
	protoSpaces(r, id, one)
	if id == "C19" {
		protoGenerated(r, one)
	}
}

// protoSpaces enumerates the buffers.
func protoSpaces(r *Run, id string, one func(w int, s *pschema, buf []byte)) {
	// Every scalar type, singular, repeated and packed, every field number size, unknown fields around.
	var unknown [][]byte
	unknown = append(unknown, nil,
		putVarint(putKey(nil, 100, 0), 300),
		append(putKey(nil, 101, 1), 1, 2, 3, 4, 5, 6, 7, 8),
		putLen(putKey(nil, 102, 2), []byte{8, 1}),
		append(putKey(nil, 103, 5), 8, 1, 8, 1))
	type tjob struct {
		s *pschema
		f *pfield
	}
	var jobs []tjob
	nums := []int32{1, 15, 16, 2047, 2048, 1<<29 - 1}
	for _, t := range scalarTypes {
		for _, num := range nums {
			for kind := 0; kind < 3; kind++ {
				if kind == 2 && !packable(t) {
					continue
				}
				f := &pfield{name: "f", num: num, typ: t, rep: kind > 0, packed: kind == 2}
				m := &pmsg{pkg: "p", path: []string{"T"}, fields: []*pfield{{name: "before", num: 7, typ: tInt64}, f, {name: "after", num: 8, typ: tString}}}
				jobs = append(jobs, tjob{&pschema{name: fmt.Sprintf("T{f:%v kind %d number %d}", t, kind, num), root: m, set: fileSet([]*pmsg{m}, "")}, f})
			}
		}
	}
	r.Par(len(jobs), func(w, i int) {
		s, f := jobs[i].s, jobs[i].f
		r.mark(w, func() string { return s.name })
		values := wireBits(f.typ)
		var lists [][]pscalar
		lists = append(lists, nil)
		for _, v := range values {
			lists = append(lists, []pscalar{v})
		}
		if f.rep {
			for _, v := range values {
				for _, u := range values {
					lists = append(lists, []pscalar{v, u}, []pscalar{v, u, v})
				}
			}
			lists = append(lists, make([]pscalar, 70), make([]pscalar, 200))
		}
		before := putVarint(putKey(nil, 7, 0), 5)
		after := putLen(putKey(nil, 8, 2), []byte("x"))
		for _, l := range lists {
			var bufs [][]byte
			var b, pk []byte
			for _, v := range l {
				b = putScalar(putKey(b, f.num, wireOf(f.typ)), f.typ, v)
				if packable(f.typ) {
					pk = putScalar(pk, f.typ, v)
				}
			}
			bufs = append(bufs, b)
			if f.rep && packable(f.typ) {
				bufs = append(bufs, putLen(putKey(nil, f.num, 2), pk)) // both encodings, whatever is declared
			}
			for _, b := range bufs {
				for _, u := range unknown {
					for mask := 0; mask < 4; mask++ {
						x := append([]byte{}, u...)
						if mask&1 != 0 {
							x = append(x, before...)
						}
						x = append(append(x, b...), u...)
						if mask&2 != 0 {
							x = append(x, after...)
						}
						one(w, s, x)
						if id == "C20" && len(x) < 60 && (r.Thorough || len(l) < 3 && (f.num == 1 || f.num == 16 || f.num == 1<<29-1)) {
							for cut := 0; cut < len(x); cut++ {
								one(w, s, x[:cut])
							}
						}
					}
				}
			}
		}
		if id == "C19" || id == "C20" { // varints that are longer than needed
			if wireOf(f.typ) == 0 {
				for _, v := range values {
					for pad := 1; pad <= 10; pad++ {
						x := putKey(nil, f.num, 0)
						vi := putVarint(nil, v.bits)
						vi[len(vi)-1] |= 0x80
						for k := 1; k < pad; k++ {
							vi = append(vi, 0x80)
						}
						vi = append(vi, 0)
						one(w, s, append(x, vi...))
					}
				}
			}
		}
	})
	r.Bound("every scalar type x singular, repeated, packed x 6 field numbers x boundary values, lists up to 3 (and 70, 200), fields and unknown fields of every wire type around")

	// Structure: all sequences of occurrences up to a depth, nested.
	mixed := mixedSchema()
	leafs := [][]byte{
		putVarint(putKey(nil, 1, 0), 3),
		putVarint(putKey(nil, 2, 0), 1),
		putVarint(putKey(nil, 2, 0), 4),
		putLen(putKey(nil, 3, 2), nil),
		putLen(putKey(nil, 3, 2), []byte{1, 0xac, 2}),
		putLen(putKey(nil, 4, 2), []byte("x")),
		append(putKey(nil, 7, 5), 1, 0, 0, 0),
		putLen(putKey(nil, 16, 2), nil),
		putLen(putKey(nil, 99, 2), []byte{8, 1}),
	}
	var level [][]byte // contents of nested messages
	contents := func(items [][]byte, n int) [][]byte {
		out := [][]byte{nil}
		start := 0
		for l := 0; l < n; l++ {
			end := len(out)
			for _, o := range out[start:end] {
				for _, it := range items {
					out = append(out, append(append([]byte{}, o...), it...))
				}
			}
			start = end
		}
		return out
	}
	level = contents(leafs, 2)
	items1 := append([][]byte{}, leafs...)
	for _, c := range level {
		items1 = append(items1, putLen(putKey(nil, 5, 2), c), putLen(putKey(nil, 6, 2), c))
	}
	small := append([][]byte{}, leafs...)
	for _, c := range contents(leafs, 1) {
		small = append(small, putLen(putKey(nil, 5, 2), c), putLen(putKey(nil, 6, 2), c))
	}
	n1, n2 := 2, 4
	if r.Thorough {
		n1, n2 = 3, 5
	}
	type sjob struct {
		items [][]byte
		first int
		n     int
	}
	var sj []sjob
	for i := range items1 {
		sj = append(sj, sjob{items1, i, n1})
	}
	for i := range small {
		sj = append(sj, sjob{small, i, n2})
	}
	// one more level of nesting: messages that contain messages
	two := contents(small, 2)
	items2 := append([][]byte{}, leafs[:2]...)
	for _, c := range two {
		items2 = append(items2, putLen(putKey(nil, 5, 2), c), putLen(putKey(nil, 6, 2), c))
	}
	for i := range items2 {
		sj = append(sj, sjob{items2, i, 1})
	}
	for i := range items2 {
		sj = append(sj, sjob{append(leafs[:3:3], items2[i]), 3, 3})
	}
	r.Par(len(sj), func(w, i int) {
		j := sj[i]
		r.mark(w, func() string { return fmt.Sprintf("mixed sequences starting with %x", j.items[j.first]) })
		var rec func(b []byte, left int)
		rec = func(b []byte, left int) {
			one(w, mixed, b)
			if left == 0 {
				return
			}
			for _, it := range j.items {
				rec(append(b[:len(b):len(b)], it...), left-1)
			}
		}
		rec(j.items[j.first], j.n-1)
	})
	one(0, mixed, nil)
	r.Bound("every sequence of field occurrences of a message type with singular, repeated, packed and recursive fields: length %d over %d items, length %d over %d, nested two levels (%d contents)", n1, len(items1), n2, len(small), len(two))

	// Occurrences of a field of every type among those of others.
	between := 4
	if r.Thorough {
		between = 6
	}
	var bt []tjob
	for _, t := range append(append([]descriptor.FieldDescriptorProto_Type{}, scalarTypes...), tMessage) {
		for kind := 0; kind < 3; kind++ {
			if kind == 2 && !packable(t) {
				continue
			}
			f := &pfield{name: "f", num: 3, typ: t, rep: kind > 0, packed: kind == 2}
			m := &pmsg{pkg: "p", path: []string{"B"}}
			m.fields = []*pfield{{name: "i", num: 2, typ: tInt64, rep: kind == 0}, f, {name: "m", num: 5, typ: tMessage, msg: m, rep: kind == 2}}
			if t == tMessage {
				f.msg = m
			}
			bt = append(bt, tjob{&pschema{name: fmt.Sprintf("B{f:%v kind %d}", t, kind), root: m, set: fileSet([]*pmsg{m}, "")}, f})
		}
	}
	r.Par(len(bt), func(w, i int) {
		s, f := bt[i].s, bt[i].f
		r.mark(w, func() string { return s.name })
		items := [][]byte{putVarint(putKey(nil, 2, 0), 7), putLen(putKey(nil, 9, 2), []byte{8, 1})}
		if f.typ == tMessage {
			items = append(items, putLen(putKey(nil, 3, 2), nil), putLen(putKey(nil, 3, 2), items[0]))
		} else {
			vs := wireBits(f.typ)
			var pk []byte
			for _, v := range []pscalar{vs[0], vs[len(vs)-1]} {
				items = append(items, putScalar(putKey(nil, 3, wireOf(f.typ)), f.typ, v))
				if packable(f.typ) {
					pk = putScalar(pk, f.typ, v)
				}
			}
			if f.rep && packable(f.typ) {
				items = append(items, putLen(putKey(nil, 3, 2), nil), putLen(putKey(nil, 3, 2), pk))
			}
		}
		var rec func(b []byte, left int)
		rec = func(b []byte, left int) {
			one(w, s, b)
			if left < between-1 {
				one(w, s, putLen(putKey(nil, 5, 2), b))
			}
			if left == 0 {
				return
			}
			for _, it := range items {
				rec(append(b[:len(b):len(b)], it...), left-1)
			}
			if len(b) < 30 {
				rec(append(b[:len(b):len(b)], putLen(putKey(nil, 5, 2), b)...), left-1)
			}
		}
		rec(nil, between)
	})
	r.Bound("%d fields of every type, singular, repeated and packed: every sequence of up to %d of its occurrences, another field's, an unknown one's and a message with what came before", len(bt), between)

	// Numbers of fields that are equal in their low bits, known and unknown, on two levels.
	for kind := 0; kind < 3; kind++ {
		m := &pmsg{pkg: "p", path: []string{"N"}}
		var items [][]byte
		for i, num := range []int32{1, 65, 257, 4097, 65537, 1<<24 + 1, 1<<28 + 1} {
			f := &pfield{name: fmt.Sprintf("n%d", num), num: num, rep: (i+kind)%3 == 0}
			switch (i + kind) % 4 {
			case 0, 3:
				f.typ, f.msg = tMessage, m
				items = append(items, putLen(putKey(nil, num, 2), nil), putLen(putKey(nil, num, 2), putVarint(putKey(nil, 257+256, 0), 1)))
			case 1:
				f.typ = tString
				items = append(items, putLen(putKey(nil, num, 2), []byte("x")))
			case 2:
				f.typ = tInt64
				items = append(items, putVarint(putKey(nil, num, 0), 5))
			}
			m.fields = append(m.fields, f)
		}
		for _, it := range items[:len(items):len(items)] {
			for _, f := range m.fields {
				if f.typ == tMessage {
					items = append(items, putLen(putKey(nil, f.num, 2), it))
				}
			}
		}
		items = append(items, putVarint(putKey(nil, 129, 0), 1), putVarint(putKey(nil, 513, 0), 1), putLen(putKey(nil, 1<<25+1, 2), []byte{8, 1}))
		s := &pschema{name: fmt.Sprintf("fields with numbers of equal low bits, %d", kind), root: m, set: fileSet([]*pmsg{m}, "")}
		depth := 3
		if r.Thorough {
			depth = 4
		}
		r.Par(len(items), func(w, i int) {
			r.mark(w, func() string { return s.name })
			var rec func(b []byte, left int)
			rec = func(b []byte, left int) {
				one(w, s, b)
				if left == 0 {
					return
				}
				for _, it := range items {
					rec(append(b[:len(b):len(b)], it...), left-1)
				}
			}
			rec(items[i], depth-1)
			for _, f := range m.fields {
				if f.typ == tMessage {
					for _, it := range items {
						one(w, s, putLen(putKey(nil, f.num, 2), append(append([]byte{}, items[i]...), it...)))
					}
				}
			}
		})
	}
	r.Bound("every sequence of occurrences of fields whose numbers are equal in their low 6 to 28 bits (7 numbers, 3 assignments of kinds, two levels, unknown fields among them)")

	// Message types with many fields and many message types.
	most := 130
	if r.Thorough {
		most = 700
	}
	r.Par(most, func(w, i int) {
		n := i + 1
		kids := make([]*pmsg, n)
		var top []*pmsg
		m := &pmsg{pkg: "p", path: []string{"W"}}
		top = append(top, m)
		for k := range kids {
			kids[k] = &pmsg{pkg: "p", path: []string{fmt.Sprintf("K%d", k)}, fields: []*pfield{{name: fmt.Sprintf("x%d", k), num: int32(1 + k%3), typ: tInt64}}}
			if k > 0 {
				kids[k].fields = append(kids[k].fields, &pfield{name: "up", num: 4, typ: tMessage, msg: kids[k-1]})
			}
			top = append(top, kids[k])
			num := int32(k + 1)
			if k%2 == 1 {
				num = int32(2*n + 5 - k) // not in the order of the numbers
			}
			f := &pfield{name: fmt.Sprintf("f%d", k), num: num, typ: tMessage, msg: kids[k], rep: k%4 == 3}
			if k%4 == 2 {
				f.typ, f.msg = tString, nil
			}
			m.fields = append(m.fields, f)
		}
		s := &pschema{name: fmt.Sprintf("%d fields, %d message types", n, n), root: m, set: fileSet(top, "")}
		r.mark(w, func() string { return s.name })
		occ := func(k int) []byte {
			f := m.fields[k]
			if f.typ == tString {
				return putLen(putKey(nil, f.num, 2), []byte{byte('a' + k%26)})
			}
			c := putVarint(putKey(nil, int32(1+k%3), 0), uint64(k))
			for u, l := k-1, 0; u >= 0 && l < 3; u, l = u-1, l+1 { // the chain of types, four levels up
				up := putVarint(putKey(nil, int32(1+u%3), 0), uint64(u))
				if l < 2 && u > 0 {
					up = append(up, putLen(putKey(nil, 4, 2), putVarint(putKey(nil, int32(1+(u-1)%3), 0), uint64(u)))...)
				}
				c = append(c[:len(c):len(c)], putLen(putKey(nil, 4, 2), up)...)
				break
			}
			return putLen(putKey(nil, f.num, 2), c)
		}
		var asc, desc []byte
		for k := range kids {
			asc = append(asc, occ(k)...)
			desc = append(desc, occ(n-1-k)...)
			one(w, s, occ(k))
		}
		one(w, s, asc)
		one(w, s, desc)
		one(w, s, append(append([]byte{}, asc...), occ(0)...))
		one(w, s, append(append([]byte{}, desc...), occ(n/2)...))
		for _, u := range []uint64{uint64(n + 1), uint64(3*n + 7), 1<<29 - 1} { // numbers that are not described
			one(w, s, append(putVarint(putKey(nil, int32(u), 0), 1), asc...))
		}
		if n > 2 {
			deep := putVarint(putKey(nil, 1, 0), 0)
			for u := 1; u < n; u++ {
				deep = append(putVarint(putKey(nil, int32(1+u%3), 0), uint64(u)), putLen(putKey(nil, 4, 2), deep)...)
			}
			if f := m.fields[n-1]; f.typ == tMessage {
				one(w, s, putLen(putKey(nil, f.num, 2), deep))
			}
		}
	})
	r.Bound("message types with 1 to %d fields of as many message types: every field alone, all in both orders, one of them twice, undescribed numbers, the chain of all types", most)

	// Names: nested and imported types, equal simple names, extensions.
	for _, s := range nameSchemas() {
		s := s
		err := guard(func() error { s.parser(0); return nil })
		if err != nil {
			r.Violation("schema | "+s.name, fmt.Sprintf("message type %s: %v", s.name, err), s.name)
			continue
		}
		var all [][]byte
		var gen func(m *pmsg, depth int) [][]byte
		gen = func(m *pmsg, depth int) [][]byte {
			items := [][]byte{putVarint(putKey(nil, 99, 0), 1)}
			for _, f := range m.fields {
				if f.typ == tMessage {
					if depth == 0 {
						items = append(items, putLen(putKey(nil, f.num, 2), nil))
						continue
					}
					for _, c := range gen(f.msg, depth-1) {
						items = append(items, putLen(putKey(nil, f.num, 2), c))
					}
				} else {
					items = append(items, putScalar(putKey(nil, f.num, wireOf(f.typ)), f.typ, pscalar{bits: 5, y: []byte("y")}))
				}
			}
			k := 2
			if depth < 2 {
				k = 1
			}
			return contents(items, k)
		}
		all = gen(s.root, 2)
		for _, b := range all {
			one(0, s, b)
		}
	}
	r.Bound("message types with nested, imported, recursive and equally named types, and extensions declared in the file, another package or a message")

	if id != "C20" {
		return
	}
	// Corrupt buffers: every short byte string over the bytes that matter, every byte change and truncation of messages.
	alpha := []byte{0x00, 0x01, 0x02, 0x03, 0x08, 0x10, 0x12, 0x1a, 0x22, 0x2a, 0x32, 0x3d, 0x0b, 0x0c, 0x09, 0x7f, 0x80, 0x82, 0xff, 0x3a}
	n := 5
	if r.Thorough {
		n = 6
	}
	r.Par(len(alpha)*len(alpha), func(w, i int) {
		buf := make([]byte, 0, 8)
		buf = append(buf, alpha[i/len(alpha)], alpha[i%len(alpha)])
		r.mark(w, func() string { return fmt.Sprintf("buffers starting with %x", buf[:2]) })
		if i%len(alpha) == 0 {
			one(w, mixed, buf[:1])
		}
		var rec func(b []byte, left int)
		rec = func(b []byte, left int) {
			one(w, mixed, b)
			if left == 0 {
				return
			}
			for _, c := range alpha {
				rec(append(b, c), left-1)
			}
		}
		rec(buf, n-2)
	})
	r.Bound("every byte string of at most %d of %d bytes (keys, lengths, varint parts, group tags)", n, len(alpha))
	// Lengths and varints at the limits, at each nesting level and in each role.
	var lens [][]byte
	for _, e := range []uint{7, 14, 31, 32, 62, 63, 64} {
		for d := -12; d <= 2; d++ {
			lens = append(lens, putVarint(nil, uint64(1)<<e+uint64(int64(d))))
		}
	}
	lens = append(lens, bytes.Repeat([]byte{0x80}, 9), bytes.Repeat([]byte{0x80}, 12), append(bytes.Repeat([]byte{0xff}, 9), 1), append(bytes.Repeat([]byte{0xff}, 9), 2), append(bytes.Repeat([]byte{0x80}, 10), 1))
	for _, l := range lens {
		for _, num := range []int32{1, 2, 3, 4, 5, 6, 7, 16, 99} {
			for wire := 0; wire < 8; wire++ {
				x := append(putKey(nil, num, wire), l...)
				for _, tail := range [][]byte{nil, {8, 1}, {0x10, 2, 0x10, 4}} {
					y := append(x[:len(x):len(x)], tail...)
					for depth := 0; depth < 3; depth++ {
						one(0, mixed, y)
						one(0, mixed, append([]byte{8, 1, 0x10, 2}, y...))
						y = putLen(putKey(nil, 5+int32(depth%2), 2), y)
					}
				}
			}
		}
		one(0, mixed, l)
	}
	r.Bound("every length and varint within 12 of a power of two and every overlong one, in every role, three levels deep")
	var msgs [][]byte
	for i := 0; i < len(two); i += 7 {
		msgs = append(msgs, append(append([]byte{}, two[i]...), putLen(putKey(nil, 6, 2), two[(i*13+5)%len(two)])...))
	}
	r.Par(len(msgs), func(w, i int) {
		m := msgs[i]
		r.mark(w, func() string { return fmt.Sprintf("changes of %x", m) })
		for at := 0; at < len(m); at++ {
			one(w, mixed, m[:at])
			one(w, mixed, m[at:])
			one(w, mixed, append(append([]byte{}, m[:at]...), m[at+1:]...))
			x := append([]byte{}, m...)
			for b := 0; b < 256; b++ {
				x[at] = byte(b)
				one(w, mixed, x)
			}
			if r.Thorough {
				for at2 := at + 1; at2 < len(m); at2++ {
					x := append([]byte{}, m...)
					for _, b := range alpha {
						for _, c := range alpha {
							x[at], x[at2] = b, c
							one(w, mixed, x)
						}
					}
				}
			}
		}
	})
	r.Bound("every one-byte change, deletion and truncation of %d messages", len(msgs))
}

func nameSchemas() []*pschema {
	var out []*pschema
	leaf := func(pkg string, path []string, field string, t descriptor.FieldDescriptorProto_Type) *pmsg {
		return &pmsg{pkg: pkg, path: path, fields: []*pfield{{name: field, num: 1, typ: t}}}
	}
	add := func(name string, root *pmsg, extPkg string, top ...*pmsg) {
		out = append(out, &pschema{name: name, root: root, set: fileSet(top, extPkg)})
	}
	{
		a := &pmsg{pkg: "p", path: []string{"A"}}
		b := &pmsg{pkg: "p", path: []string{"B"}}
		ai := leaf("p", []string{"A", "Inner"}, "x", tInt64)
		bi := leaf("p", []string{"B", "Inner"}, "y", tString)
		a.nested, b.nested = []*pmsg{ai}, []*pmsg{bi}
		a.fields = []*pfield{{name: "ai", num: 1, typ: tMessage, msg: ai}, {name: "bi", num: 2, typ: tMessage, msg: bi, rep: true}, {name: "b", num: 3, typ: tMessage, msg: b}}
		b.fields = []*pfield{{name: "i", num: 1, typ: tMessage, msg: bi}, {name: "j", num: 2, typ: tMessage, msg: ai}}
		add("two nested types of one name", a, "", a, b)
		add("two nested types of one name, from B", b, "", a, b)
	}
	{
		a := &pmsg{pkg: "p", path: []string{"A"}}
		i := &pmsg{pkg: "p", path: []string{"A", "I"}}
		j := leaf("p", []string{"A", "I", "J"}, "x", tInt64)
		i.nested, a.nested = []*pmsg{j}, []*pmsg{i}
		i.fields = []*pfield{{name: "j", num: 1, typ: tMessage, msg: j}, {name: "back", num: 2, typ: tMessage, msg: a}}
		a.fields = []*pfield{{name: "i", num: 1, typ: tMessage, msg: i}, {name: "j", num: 2, typ: tMessage, msg: j}}
		add("three levels of nested types", a, "", a)
		add("three levels of nested types, from the middle", i, "", a)
	}
	{
		a := &pmsg{pkg: "p.q", path: []string{"A"}}
		o := leaf("p", []string{"A"}, "x", tInt64)
		u := leaf("q", []string{"A"}, "y", tString)
		a.fields = []*pfield{{name: "o", num: 1, typ: tMessage, msg: o}, {name: "u", num: 2, typ: tMessage, msg: u}, {name: "self", num: 3, typ: tMessage, msg: a}}
		add("one name in three packages", a, "", a, o, u)
	}
	{
		a := &pmsg{pkg: "p", path: []string{"A"}}
		b := leaf("p", []string{"B"}, "x", tInt64)
		a.fields = []*pfield{{name: "a", num: 1, typ: tInt64}, {name: "e", num: 100, typ: tDouble, ext: "file"}, {name: "eb", num: 101, typ: tMessage, msg: b, ext: "file"}, {name: "er", num: 102, typ: tInt32, rep: true, ext: "file"}, {name: "a2", num: 2, typ: tMessage, msg: b}}
		b.fields = append(b.fields, &pfield{name: "ee", num: 100, typ: tString, ext: "file"})
		add("extensions", a, "", a, b)
		add("extensions in another package", a, "other", a, b)
	}
	{
		a := &pmsg{pkg: "p", path: []string{"A"}}
		b := leaf("p", []string{"B"}, "x", tInt64)
		a.fields = []*pfield{{name: "a", num: 1, typ: tInt64}, {name: "e", num: 100, typ: tMessage, msg: b, ext: "B"}, {name: "s", num: 101, typ: tString, ext: "B"}}
		add("extensions declared in a message", a, "", a, b)
	}
	{
		a := &pmsg{pkg: "p", path: []string{"A"}}
		i := &pmsg{pkg: "p", path: []string{"A", "I"}, fields: []*pfield{{name: "x", num: 1, typ: tInt64}, {name: "e", num: 100, typ: tString, ext: "file"}}}
		a.nested = []*pmsg{i}
		a.fields = []*pfield{{name: "i", num: 1, typ: tMessage, msg: i}, {name: "e", num: 100, typ: tInt64}}
		add("extension of a nested type", a, "", a)
	}
	{
		a := &pmsg{pkg: "p", path: []string{"A"}}
		a.fields = []*pfield{{name: "x", num: 1, typ: tInt64}, {name: "x", num: 100, typ: tString, ext: "file"}}
		add("extension with the name of a field", a, "other", a)
	}
	{
		a := &pmsg{pkg: "p", path: []string{"A"}}
		e := &pmsg{pkg: "p", path: []string{"Empty"}}
		a.fields = []*pfield{{name: "e", num: 1, typ: tMessage, msg: e}, {name: "es", num: 2, typ: tMessage, msg: e, rep: true}}
		add("message type without fields", a, "", a, e)
		add("empty root", e, "", a, e)
	}
	{
		k := &pmsg{pkg: "p", path: []string{"A", "MapEntry"}, fields: []*pfield{{name: "key", num: 1, typ: tString}, {name: "value", num: 2, typ: tInt64}}}
		k2 := &pmsg{pkg: "p", path: []string{"B", "MapEntry"}, fields: []*pfield{{name: "key", num: 1, typ: tInt64}, {name: "value", num: 2, typ: tString}}}
		b := &pmsg{pkg: "p", path: []string{"B"}, nested: []*pmsg{k2}, fields: []*pfield{{name: "map", num: 1, typ: tMessage, msg: k2, rep: true}}}
		a := &pmsg{pkg: "p", path: []string{"A"}, nested: []*pmsg{k}, fields: []*pfield{{name: "map", num: 1, typ: tMessage, msg: k, rep: true}, {name: "b", num: 2, typ: tMessage, msg: b}}}
		add("map entries of one name", a, "", b, a)
	}
	{
		a := &pmsg{pkg: "", path: []string{"A"}}
		i := leaf("", []string{"A", "I"}, "x", tInt64)
		o := leaf("p", []string{"A"}, "y", tString)
		a.nested = []*pmsg{i}
		a.fields = []*pfield{{name: "i", num: 1, typ: tMessage, msg: i}, {name: "o", num: 2, typ: tMessage, msg: o, rep: true}, {name: "self", num: 3, typ: tMessage, msg: a}, {name: "e", num: 100, typ: tMessage, msg: i, ext: "file"}}
		add("no package", a, "", a, o)
		add("no package, extensions in another", a, "p", a, o)
		b := &pmsg{pkg: "p", path: []string{"B"}}
		b.fields = []*pfield{{name: "a", num: 1, typ: tMessage, msg: a}, {name: "o", num: 2, typ: tMessage, msg: o}, {name: "e", num: 100, typ: tMessage, msg: a, ext: "file"}}
		add("types without a package used from a package", b, "", b, a, o)
		add("types without a package used from a package, extensions without", b, "", a, o, b)
	}
	// The same with names that are not fully qualified, as short and as long as possible.
	for _, s := range out[:len(out):len(out)] {
		for _, short := range []bool{true, false} {
			if set, changed := relativeNames(s.set, short); changed {
				out = append(out, &pschema{name: s.name + map[bool]string{true: ", shortest names", false: ", names without the first dot"}[short], root: s.root, set: set})
			}
		}
	}
	return out
}

// relativeNames replaces the names of types by relative ones that denote the same types: the innermost scope in which the
// first part of the name is declared decides.
func relativeNames(set *descriptor.FileDescriptorSet, short bool) (*descriptor.FileDescriptorSet, bool) {
	set = proto.Clone(set).(*descriptor.FileDescriptorSet)
	names := map[string]bool{}
	var decl func(scope string, ms []*descriptor.DescriptorProto)
	decl = func(scope string, ms []*descriptor.DescriptorProto) {
		for _, m := range ms {
			names[scope+"."+m.GetName()] = true
			decl(scope+"."+m.GetName(), m.NestedType)
		}
	}
	scopeOf := func(f *descriptor.FileDescriptorProto) string {
		if f.GetPackage() == "" {
			return ""
		}
		return "." + f.GetPackage()
	}
	for _, f := range set.File {
		for s := scopeOf(f); s != ""; s = s[:strings.LastIndex(s, ".")] {
			names[s] = true
		}
		decl(scopeOf(f), f.MessageType)
	}
	changed := false
	change := func(scope string, name *string) {
		if name == nil {
			return
		}
		parts := strings.Split((*name)[1:], ".")
		for k := range parts {
			if short {
				k = len(parts) - 1 - k
			}
			rel := strings.Join(parts[k:], ".")
			for s := scope; ; s = s[:strings.LastIndex(s, ".")] {
				if names[s+"."+parts[k]] {
					if s+"."+rel == *name {
						*name = rel
						changed = true
						return
					}
					break
				}
				if s == "" {
					break
				}
			}
		}
	}
	fields := func(scope string, fs []*descriptor.FieldDescriptorProto) {
		for _, f := range fs {
			change(scope, f.TypeName)
			change(scope, f.Extendee)
		}
	}
	var visit func(scope string, ms []*descriptor.DescriptorProto)
	visit = func(scope string, ms []*descriptor.DescriptorProto) {
		for _, m := range ms {
			s := scope + "." + m.GetName()
			fields(s, m.Field)
			fields(s, m.Extension)
			visit(s, m.NestedType)
		}
	}
	for _, f := range set.File {
		fields(scopeOf(f), f.Extension)
		visit(scopeOf(f), f.MessageType)
	}
	return set, changed
}
