package main

import (
	bin "encoding/binary"
	"math"

	"github.com/gogo/protobuf/protoc-gen-gogo/descriptor"
)

// pfield and pmsg are the harness's own description of message types; toDescriptors writes them as descriptors.
type pfield struct {
	name   string
	num    int32
	typ    descriptor.FieldDescriptorProto_Type
	rep    bool
	packed bool
	msg    *pmsg
	ext    string // extension: "file" scope, or the name of the message it is declared in
}

type pmsg struct {
	pkg    string
	path   []string // Outer, Inner
	fields []*pfield
	nested []*pmsg
}

func (m *pmsg) full() string {
	s := ""
	if m.pkg != "" {
		s = "." + m.pkg
	}
	for _, p := range m.path {
		s += "." + p
	}
	return s
}

func (m *pmsg) name() string { return m.path[len(m.path)-1] }

func (m *pmsg) field(num int32) *pfield {
	for _, f := range m.fields {
		if f.num == num {
			return f
		}
	}
	return nil
}

const (
	tDouble   = descriptor.FieldDescriptorProto_TYPE_DOUBLE
	tFloat    = descriptor.FieldDescriptorProto_TYPE_FLOAT
	tInt64    = descriptor.FieldDescriptorProto_TYPE_INT64
	tUint64   = descriptor.FieldDescriptorProto_TYPE_UINT64
	tInt32    = descriptor.FieldDescriptorProto_TYPE_INT32
	tFixed64  = descriptor.FieldDescriptorProto_TYPE_FIXED64
	tFixed32  = descriptor.FieldDescriptorProto_TYPE_FIXED32
	tBool     = descriptor.FieldDescriptorProto_TYPE_BOOL
	tString   = descriptor.FieldDescriptorProto_TYPE_STRING
	tMessage  = descriptor.FieldDescriptorProto_TYPE_MESSAGE
	tBytes    = descriptor.FieldDescriptorProto_TYPE_BYTES
	tUint32   = descriptor.FieldDescriptorProto_TYPE_UINT32
	tEnum     = descriptor.FieldDescriptorProto_TYPE_ENUM
	tSfixed32 = descriptor.FieldDescriptorProto_TYPE_SFIXED32
	tSfixed64 = descriptor.FieldDescriptorProto_TYPE_SFIXED64
	tSint32   = descriptor.FieldDescriptorProto_TYPE_SINT32
	tSint64   = descriptor.FieldDescriptorProto_TYPE_SINT64
)

var scalarTypes = []descriptor.FieldDescriptorProto_Type{tDouble, tFloat, tInt64, tUint64, tInt32, tFixed64, tFixed32, tBool, tString, tBytes, tUint32, tEnum, tSfixed32, tSfixed64, tSint32, tSint64}

func wireOf(t descriptor.FieldDescriptorProto_Type) int {
	switch t {
	case tDouble, tFixed64, tSfixed64:
		return 1
	case tFloat, tFixed32, tSfixed32:
		return 5
	case tString, tBytes, tMessage:
		return 2
	}
	return 0
}

func packable(t descriptor.FieldDescriptorProto_Type) bool { return wireOf(t) != 2 }

func (f *pfield) descr(extendee string) *descriptor.FieldDescriptorProto {
	l := descriptor.FieldDescriptorProto_LABEL_OPTIONAL
	if f.rep {
		l = descriptor.FieldDescriptorProto_LABEL_REPEATED
	}
	name, num, typ := f.name, f.num, f.typ
	d := &descriptor.FieldDescriptorProto{Name: &name, Number: &num, Label: &l, Type: &typ}
	if f.packed {
		t := true
		d.Options = &descriptor.FieldOptions{Packed: &t}
	}
	if f.typ == tMessage {
		tn := f.msg.full()
		d.TypeName = &tn
	}
	if f.typ == tEnum {
		tn := ".p.E"
		d.TypeName = &tn
	}
	if extendee != "" {
		d.Extendee = &extendee
	}
	return d
}

func (m *pmsg) descr() *descriptor.DescriptorProto {
	name := m.name()
	d := &descriptor.DescriptorProto{Name: &name}
	for _, f := range m.fields {
		if f.ext == "" {
			d.Field = append(d.Field, f.descr(""))
		} else {
			s, e := f.num, f.num+1
			d.ExtensionRange = append(d.ExtensionRange, &descriptor.DescriptorProto_ExtensionRange{Start: &s, End: &e})
		}
	}
	for _, n := range m.nested {
		d.NestedType = append(d.NestedType, n.descr())
	}
	return d
}

func (m *pmsg) each(f func(m *pmsg)) {
	f(m)
	for _, n := range m.nested {
		n.each(f)
	}
}

// fileSet writes one file per package, in the order of first use; file extensions go to the file of the extended
// message, or to extPkg if given.
func fileSet(top []*pmsg, extPkg string) *descriptor.FileDescriptorSet {
	set := &descriptor.FileDescriptorSet{}
	files := map[string]*descriptor.FileDescriptorProto{}
	file := func(pkg string) *descriptor.FileDescriptorProto {
		if f := files[pkg]; f != nil {
			return f
		}
		name := pkg + ".proto"
		f := &descriptor.FileDescriptorProto{Package: &pkg, Name: &name}
		files[pkg] = f
		set.File = append(set.File, f)
		return f
	}
	scoped := map[string][]*descriptor.FieldDescriptorProto{}
	for _, m := range top {
		file(m.pkg).MessageType = append(file(m.pkg).MessageType, m.descr())
		m.each(func(m *pmsg) {
			for _, f := range m.fields {
				if f.ext == "" {
					continue
				}
				if f.ext != "file" {
					scoped[f.ext] = append(scoped[f.ext], f.descr(m.full()))
					continue
				}
				pkg := m.pkg
				if extPkg != "" {
					pkg = extPkg
				}
				file(pkg).Extension = append(file(pkg).Extension, f.descr(m.full()))
			}
		})
	}
	for _, f := range set.File {
		var rec func(ms []*descriptor.DescriptorProto)
		rec = func(ms []*descriptor.DescriptorProto) {
			for _, m := range ms {
				m.Extension = append(m.Extension, scoped[m.GetName()]...)
				rec(m.NestedType)
			}
		}
		rec(f.MessageType)
	}
	return set
}

// Encoding.

func putVarint(b []byte, v uint64) []byte {
	var tmp [10]byte
	n := bin.PutUvarint(tmp[:], v)
	return append(b, tmp[:n]...)
}

func putKey(b []byte, num int32, wire int) []byte {
	return putVarint(b, uint64(uint32(num))<<3|uint64(wire))
}

func putLen(b []byte, p []byte) []byte { return append(putVarint(b, uint64(len(p))), p...) }

// pscalar is one scalar value by its bits (numbers) or bytes.
type pscalar struct {
	bits uint64
	y    []byte
}

func putScalar(b []byte, t descriptor.FieldDescriptorProto_Type, v pscalar) []byte {
	switch wireOf(t) {
	case 0:
		return putVarint(b, v.bits)
	case 1:
		return bin.LittleEndian.AppendUint64(b, v.bits)
	case 5:
		return bin.LittleEndian.AppendUint32(b, uint32(v.bits))
	}
	return putLen(b, v.y)
}

// wireBits are the wire representations to try for a type.
func wireBits(t descriptor.FieldDescriptorProto_Type) []pscalar {
	var out []pscalar
	add := func(u ...uint64) {
		for _, x := range u {
			out = append(out, pscalar{bits: x})
		}
	}
	switch t {
	case tString:
		for _, s := range []string{"", "a", "héllo", "\x00", "\xff"} {
			out = append(out, pscalar{y: []byte(s)})
		}
		out = append(out, pscalar{y: make([]byte, 130)})
	case tBytes:
		for _, s := range []string{"", "a", "\x00\xff", "\x08\x01"} {
			out = append(out, pscalar{y: []byte(s)})
		}
		out = append(out, pscalar{y: make([]byte, 200)})
	case tDouble:
		for _, d := range []float64{0, math.Copysign(0, -1), 1, -1.5, math.MaxFloat64, math.SmallestNonzeroFloat64, math.Inf(1), math.Inf(-1), math.NaN(), 1 << 53} {
			add(math.Float64bits(d))
		}
	case tFloat:
		for _, d := range []float32{0, -1.5, 3.4028235e38, 1e-45, float32(math.Inf(1)), float32(math.NaN()), 0.1} {
			add(uint64(math.Float32bits(d)))
		}
	case tBool:
		add(0, 1)
	case tFixed32, tSfixed32:
		add(0, 1, 127, 128, 1<<31-1, 1<<31, 1<<32-1)
	case tUint32, tSint32:
		add(0, 1, 2, 3, 127, 128, 129, 1<<14-1, 1<<14, 1<<31-1, 1<<31, 1<<32-2, 1<<32-1)
	case tInt32, tEnum:
		add(0, 1, 2, 127, 128, 1<<31-1, ^uint64(0), ^uint64(0)-1<<31+1, ^uint64(127))
	default:
		add(0, 1, 2, 3, 127, 128, 129, 1<<31-1, 1<<31, 1<<32-1, 1<<32, 1<<53, 1<<63-1, 1<<63, ^uint64(0), ^uint64(0)-1)
	}
	return out
}

// Decoding: the reference.

type refState int

const (
	refOK        refState = iota // framing is right at every level of the described fields
	refIrregular                 // framing is right, but a field occurs in pieces or with several encodings
	refBad                       // framing is broken
)

func scalarSig(t descriptor.FieldDescriptorProto_Type, v pscalar) string {
	var o vals
	i := func(x int64) { o.i = &x }
	u := func(x uint64) { o.u = &x }
	switch t {
	case tDouble:
		d := math.Float64frombits(v.bits)
		o.d = &d
	case tFloat:
		d := float64(math.Float32frombits(uint32(v.bits)))
		o.d = &d
	case tInt64, tSfixed64:
		i(int64(v.bits))
	case tInt32, tEnum, tSfixed32:
		i(int64(int32(uint32(v.bits))))
	case tSint32:
		x := uint32(v.bits)
		r := int64(x / 2)
		if x%2 == 1 {
			r = -r - 1
		}
		i(r)
	case tSint64:
		r := int64(v.bits / 2)
		if v.bits%2 == 1 {
			r = -r - 1
		}
		i(r)
	case tUint64, tFixed64:
		u(v.bits)
	case tUint32, tFixed32:
		u(uint64(uint32(v.bits)))
	case tBool:
		b := v.bits != 0
		o.b = &b
	case tString:
		s := string(v.y)
		o.s = &s
	case tBytes:
		o.y, o.hasY = v.y, true
	}
	return o.sig()
}

func fieldNode(name string) *wnode { return &wnode{sig: vals{s: &name}.sig()} }
func indexNode(i int) *wnode       { n := int64(i); return &wnode{sig: vals{i: &n}.sig()} }
func leafNode(sig string) *wnode   { return &wnode{leaf: true, sig: sig} }

// readVarint reads a varint of at most 64 bits.
func readVarint(b []byte) (v uint64, n int, ok bool) {
	v, n = bin.Uvarint(b)
	return v, n, n > 0
}

// readPayload reads a value of a wire type: bits for numbers, y for length-delimited.
func readPayload(b []byte, wire int) (v pscalar, n int, ok bool) {
	switch wire {
	case 0:
		x, n, ok := readVarint(b)
		return pscalar{bits: x}, n, ok
	case 1:
		if len(b) < 8 {
			return v, 0, false
		}
		return pscalar{bits: bin.LittleEndian.Uint64(b)}, 8, true
	case 5:
		if len(b) < 4 {
			return v, 0, false
		}
		return pscalar{bits: uint64(bin.LittleEndian.Uint32(b))}, 4, true
	case 2:
		l, n, ok := readVarint(b)
		if !ok || l > uint64(len(b)-n) {
			return v, 0, false
		}
		return pscalar{y: b[n : n+int(l)]}, n + int(l), true
	}
	return v, 0, false // groups and unassigned wire types end in an error
}

// bad: once a field has been seen in a form the parser may read differently, only termination is demanded.
func bad(st refState) refState {
	if st == refIrregular {
		return st
	}
	return refBad
}

// protoRef decodes a buffer. noLatent tells whether every repeated field is contiguous and every singular field occurs once, at every level.
func protoRef(m *pmsg, b []byte) (ns []*wnode, st refState, noLatent bool) {
	noLatent = true
	type run struct {
		node *wnode
		key  uint64
		end  bool
	}
	var cur *run
	seenField := map[int32]bool{}
	down := func(f *pfield, v pscalar) []*wnode {
		if f.typ == tMessage {
			kids, s, nl := protoRef(f.msg, v.y)
			if s > st {
				st = s
			}
			noLatent = noLatent && nl
			return kids
		}
		return []*wnode{leafNode(scalarSig(f.typ, v))}
	}
	curNum := int32(0)
	for len(b) > 0 {
		k, n, ok := readVarint(b)
		if !ok {
			return nil, bad(st), noLatent
		}
		b = b[n:]
		wire := int(k & 7)
		v, n, ok := readPayload(b, wire)
		if !ok {
			return nil, bad(st), noLatent
		}
		b = b[n:]
		var f *pfield
		if k>>3 <= 1<<29-1 && k>>3 > 0 {
			f = m.field(int32(k >> 3))
		} else if st < refIrregular {
			st = refIrregular // not a field number
		}
		if f != nil && wire != wireOf(f.typ) && !(f.rep && packable(f.typ) && wire == 2) {
			f = nil // another wire type than declared: not this field
			if st < refIrregular {
				st = refIrregular
			}
		}
		if f == nil {
			cur = nil
			curNum = 0
			continue
		}
		if cur != nil && curNum == f.num && f.rep {
			if cur.key != k || wire == 2 && packable(f.typ) {
				noLatent = false
				if st < refIrregular {
					st = refIrregular
				}
			}
		} else {
			if seenField[f.num] {
				noLatent = false
				if st < refIrregular {
					st = refIrregular
				}
			}
			seenField[f.num] = true
			cur = &run{node: fieldNode(f.name), key: k}
			curNum = f.num
			ns = append(ns, cur.node)
		}
		if !f.rep {
			cur.node.kids = down(f, v)
			cur, curNum = nil, 0
			continue
		}
		if wire == 2 && packable(f.typ) {
			for y := v.y; len(y) > 0; {
				e, n, ok := readPayload(y, wireOf(f.typ))
				if !ok {
					return nil, bad(st), noLatent
				}
				el := indexNode(len(cur.node.kids))
				el.kids = []*wnode{leafNode(scalarSig(f.typ, e))}
				cur.node.kids = append(cur.node.kids, el)
				y = y[n:]
			}
			continue
		}
		el := indexNode(len(cur.node.kids))
		el.kids = down(f, v)
		cur.node.kids = append(cur.node.kids, el)
	}
	return ns, st, noLatent
}
