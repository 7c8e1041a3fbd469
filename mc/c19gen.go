package main

import (
	"bytes"
	"fmt"
	"math"
	"reflect"
	"sort"
	"strconv"
	"strings"

	"github.com/gogo/protobuf/proto"
	"github.com/gogo/protobuf/protoc-gen-gogo/descriptor"
	encprotos "github.com/katydid/katydid/encode/proto/prototests"
	"github.com/katydid/katydid/parser/debug"
	protos "github.com/katydid/katydid/parser/proto/prototests"
)

// pmsgOf reads a described message type into the harness's form.
func pmsgOf(set *descriptor.FileDescriptorSet, full string, done map[string]*pmsg) *pmsg {
	if m := done[full]; m != nil {
		return m
	}
	i := strings.LastIndex(full, ".")
	m := &pmsg{pkg: full[1:i], path: []string{full[i+1:]}}
	done[full] = m
	add := func(f *descriptor.FieldDescriptorProto, ext string) {
		pf := &pfield{name: f.GetName(), num: f.GetNumber(), typ: f.GetType(), rep: f.GetLabel() == descriptor.FieldDescriptorProto_LABEL_REPEATED, packed: f.GetOptions().GetPacked(), ext: ext}
		if pf.typ == tMessage {
			pf.msg = pmsgOf(set, f.GetTypeName(), done)
		}
		m.fields = append(m.fields, pf)
	}
	for _, file := range set.File {
		for _, d := range file.MessageType {
			if "."+file.GetPackage()+"."+d.GetName() == full {
				for _, f := range d.Field {
					add(f, "")
				}
			}
		}
		for _, e := range file.Extension {
			if e.GetExtendee() == full {
				add(e, "file")
			}
		}
	}
	return m
}

// goTree is what the generated Go structure says: set fields in the order of their numbers.
func goTree(v reflect.Value) []*wnode {
	for v.Kind() == reflect.Ptr {
		v = v.Elem()
	}
	type fld struct {
		num  int
		node *wnode
	}
	var fs []fld
	for i := 0; i < v.NumField(); i++ {
		tag := v.Type().Field(i).Tag.Get("protobuf")
		if tag == "" {
			continue
		}
		parts := strings.Split(tag, ",")
		num, err := strconv.Atoi(parts[1])
		if err != nil {
			continue
		}
		name := ""
		for _, p := range parts {
			if strings.HasPrefix(p, "name=") {
				name = p[5:]
			}
		}
		f := v.Field(i)
		proto3 := strings.HasSuffix(tag, ",proto3")
		if f.Kind() == reflect.Ptr && f.IsNil() || f.Kind() == reflect.Slice && (f.IsNil() || parts[2] == "rep" && f.Len() == 0) || proto3 && f.IsZero() {
			continue
		}
		n := fieldNode(name)
		if parts[2] == "rep" {
			for k := 0; k < f.Len(); k++ {
				e := indexNode(k)
				e.kids = goValue(f.Index(k))
				n.kids = append(n.kids, e)
			}
		} else {
			n.kids = goValue(f)
		}
		fs = append(fs, fld{num, n})
	}
	sort.Slice(fs, func(i, j int) bool { return fs[i].num < fs[j].num })
	var out []*wnode
	for _, f := range fs {
		out = append(out, f.node)
	}
	return out
}

func goValue(v reflect.Value) []*wnode {
	for v.Kind() == reflect.Ptr {
		v = v.Elem()
	}
	var o vals
	switch v.Kind() {
	case reflect.Struct:
		return goTree(v)
	case reflect.Float32, reflect.Float64:
		d := v.Float()
		o.d = &d
	case reflect.Int32, reflect.Int64:
		i := v.Int()
		o.i = &i
	case reflect.Uint32, reflect.Uint64:
		u := v.Uint()
		o.u = &u
	case reflect.Bool:
		b := v.Bool()
		o.b = &b
	case reflect.String:
		s := v.String()
		o.s = &s
	case reflect.Slice:
		o.y, o.hasY = v.Bytes(), true
	}
	return []*wnode{leafNode(o.sig())}
}

// goScalars are boundary values of a Go type.
func goScalars(t reflect.Type) []reflect.Value {
	var out []reflect.Value
	add := func(xs ...interface{}) {
		for _, x := range xs {
			out = append(out, reflect.ValueOf(x).Convert(t))
		}
	}
	switch t.Kind() {
	case reflect.Float32:
		add(float32(0), float32(-1.5), float32(math.MaxFloat32), float32(math.SmallestNonzeroFloat32), math.Inf(1))
	case reflect.Float64:
		add(0.0, -1.5, math.MaxFloat64, math.SmallestNonzeroFloat64, math.Inf(-1), math.Copysign(0, -1))
	case reflect.Int32:
		add(0, 1, -1, 2, -2, math.MaxInt32, math.MinInt32, 64, -64, -65, 1<<30, -1<<30)
	case reflect.Int64:
		add(0, 1, -1, 2, -2, int64(math.MaxInt64), int64(math.MinInt64), 64, -65, 1<<31, -1<<31, -1<<31-1, int64(1)<<62)
	case reflect.Uint32:
		add(0, 1, 127, 128, uint32(math.MaxUint32), 1<<31)
	case reflect.Uint64:
		add(0, 1, 127, 128, uint64(math.MaxUint64), uint64(1)<<63, 1<<32)
	case reflect.Bool:
		add(true, false)
	case reflect.String:
		add("a", "", "héllo\x00", strings.Repeat("x", 130))
	case reflect.Slice:
		add([]byte("a"), []byte{}, []byte{0, 255}, bytes.Repeat([]byte{1}, 300))
	}
	return out
}

// protoMessages enumerates values of the generated types.
func protoMessages(thorough bool) []proto.Message {
	var out []proto.Message
	setField := func(v reflect.Value, i, k int) bool { // sets field i to its k-th value
		f := v.Field(i)
		t := f.Type()
		if v.Type().Field(i).Tag.Get("protobuf") == "" {
			return false
		}
		switch {
		case t.Kind() == reflect.Ptr && t.Elem().Kind() != reflect.Struct:
			vs := goScalars(t.Elem())
			if k >= len(vs) {
				return false
			}
			p := reflect.New(t.Elem())
			p.Elem().Set(vs[k])
			f.Set(p)
		case t.Kind() == reflect.Slice && t.Elem().Kind() == reflect.Uint8:
			vs := goScalars(t)
			if k >= len(vs) {
				return false
			}
			f.Set(vs[k])
		case t.Kind() == reflect.Slice && t.Elem().Kind() != reflect.Ptr:
			vs := goScalars(t.Elem())
			if k >= 2*len(vs)+1 {
				return false
			}
			s := reflect.MakeSlice(t, 0, 0)
			if k == 2*len(vs) {
				s = reflect.Append(s, vs...)
			} else {
				s = reflect.Append(s, vs[k%len(vs)])
				if k >= len(vs) {
					s = reflect.Append(s, vs[(k+1)%len(vs)], vs[k%len(vs)])
				}
			}
			f.Set(s)
		case t.Kind() != reflect.Ptr && t.Kind() != reflect.Slice && t.Kind() != reflect.Map && t.Kind() != reflect.Struct:
			vs := goScalars(t)
			if k >= len(vs) {
				return false
			}
			f.Set(vs[k])
		default:
			return false
		}
		return true
	}
	scalars := func(mk func() proto.Message, pairs bool) {
		n := reflect.TypeOf(mk()).Elem().NumField()
		out = append(out, mk())
		for i := 0; i < n; i++ {
			for k := 0; ; k++ {
				m := mk()
				if !setField(reflect.ValueOf(m).Elem(), i, k) {
					break
				}
				out = append(out, m)
				if !pairs || k > 1 {
					continue
				}
				for j := i + 1; j < n; j++ {
					for l := 0; l < 2; l++ {
						m := mk()
						setField(reflect.ValueOf(m).Elem(), i, k)
						if !setField(reflect.ValueOf(m).Elem(), j, l) {
							break
						}
						out = append(out, m)
					}
				}
			}
		}
		all := mk()
		for i := 0; i < n; i++ {
			setField(reflect.ValueOf(all).Elem(), i, 1)
		}
		out = append(out, all)
	}
	scalars(func() proto.Message { return &encprotos.Simple{} }, true)
	simples := len(out)
	scalars(func() proto.Message { return &debug.Debug{} }, true)
	scalars(func() proto.Message { return &protos.Packed{} }, true)
	scalars(func() proto.Message { return &protos.Proto3{} }, true)
	scalars(func() proto.Message { return &protos.SmallMsg{} }, true)
	scalars(func() proto.Message {
		return &protos.BigMsg{Msg: &protos.SmallMsg{ScarBusStop: proto.String("b"), FlightParachute: []uint32{1, 2}}}
	}, true)
	scalars(func() proto.Message { return &protos.Proto3{Msg: &protos.SmallMsg3{FlightParachute: []uint32{0, 1}}} }, true)
	for i := 0; i < simples; i += 3 {
		s := out[i].(*encprotos.Simple)
		t := out[(i*7+1)%simples].(*encprotos.Simple)
		out = append(out, &encprotos.Nested{One: s}, &encprotos.Nested{Many: []*encprotos.Simple{s, t}}, &encprotos.Nested{One: t, Many: []*encprotos.Simple{t, {}, s}})
	}
	// Debug trees.
	var ds []*debug.Debug
	ds = append(ds, &debug.Debug{}, &debug.Debug{A: 1, B: []string{"x", ""}}, &debug.Debug{D: proto.Int32(-1), F: []uint32{7}}, &debug.Debug{G: proto.Float64(0.5)})
	depth := 2
	if thorough {
		depth = 3
	}
	for d := 0; d < depth; d++ {
		n := len(ds)
		if n > 80 {
			n = 80
		}
		for i := 0; i < n; i++ {
			for j := 0; j < n; j++ {
				if d > 0 && (i*n+j)%5 != 0 {
					continue
				}
				ds = append(ds, &debug.Debug{A: int64(i), C: ds[i]}, &debug.Debug{C: ds[i], E: []*debug.Debug{ds[j]}, D: proto.Int32(3)}, &debug.Debug{E: []*debug.Debug{ds[i], ds[j], ds[i]}})
			}
		}
	}
	for _, d := range ds {
		out = append(out, d)
	}
	// Extensions.
	for mask := 0; mask < 16; mask++ {
		mk := func() *protos.Container {
			c := &protos.Container{}
			if mask&1 != 0 {
				c.Field1 = proto.Int64(-5)
			}
			set := func(e *proto.ExtensionDesc, v interface{}) {
				if err := proto.SetExtension(c, e, v); err != nil {
					panic(err)
				}
			}
			if mask&2 != 0 {
				set(protos.E_FieldA, proto.Float64(1.5))
			}
			if mask&4 != 0 {
				set(protos.E_FieldB, &protos.Small{SmallField: proto.Int64(6)})
			}
			if mask&8 != 0 {
				set(protos.E_FieldC, &protos.Big{})
			}
			return c
		}
		out = append(out, mk(), &protos.BigContainer{Field2: proto.Int64(1), M: mk()})
	}
	return out
}

type described interface {
	proto.Message
	Description() *descriptor.FileDescriptorSet
}

// protoGenerated: messages of generated types, marshalled by the protobuf library; what the structure says
// must be what the harness's reference decoder says (binding it to generated code), and the parser is
// checked against it as for every other buffer.
func protoGenerated(r *Run, one func(w int, s *pschema, buf []byte)) {
	msgs := protoMessages(r.Thorough)
	schemas := map[string]*pschema{}
	for _, m := range msgs {
		t := reflect.TypeOf(m).Elem()
		if schemas[t.Name()] == nil {
			set := m.(described).Description()
			pkg := "prototests"
			if t.Name() == "Debug" {
				pkg = "debug"
			}
			schemas[t.Name()] = &pschema{name: t.Name(), set: set, root: pmsgOf(set, "."+pkg+"."+t.Name(), map[string]*pmsg{})}
		}
	}
	r.Par(len(msgs), func(w, i int) {
		m := msgs[i]
		s := schemas[reflect.TypeOf(m).Elem().Name()]
		r.mark(w, func() string { return fmt.Sprintf("%s %v", s.name, m) })
		buf, err := proto.Marshal(m)
		if err != nil {
			panic(err)
		}
		ref, st, _ := protoRef(s.root, buf)
		if st != refOK {
			panic(fmt.Sprintf("the reference decoder refuses a generated message: %s %v", s.name, m))
		}
		if _, ok := m.(interface{ XXX_ExtensionRangeArray() }); !ok && !strings.Contains(s.name, "Container") {
			if d := firstDiff(goTree(reflect.ValueOf(m)), ref, "root"); d != "" {
				panic(fmt.Sprintf("the reference decoder disagrees with the generated code on %s %v: %s", s.name, m, d))
			}
		}
		one(w, s, buf)
	})
	r.Bound("%d messages of the generated types (every scalar type singular and repeated, pairs of fields, nested, packed, proto3, extensions), the reference decoder compared with the Go structures", len(msgs))
}
