package main

import (
	"bytes"
	"fmt"
	"reflect"

	"github.com/katydid/katydid/parser"
	"github.com/katydid/katydid/relapse"
	"github.com/katydid/katydid/relapse/interp"
	"github.com/katydid/katydid/relapse/mem"
)

type parserInterface = parser.Interface

// inputGrammars read every type of value, through functions, comparisons and names, and skip parts of the input.
var inputGrammars = []string{
	`*`, `<empty>`, `!(<empty>)`, `.*`, `(_:(_:*)*)*`,
	`@x #x = ((_:@x | ->type($string) | ->type($int) | ->type($uint) | ->type($double) | ->type($bool) | ->type($[]byte)))*`,
	`@x #x = ((_:@x | ->eqFold($string,"X") | ->contains($string,"x") | ->hasPrefix($string,"a") | ->hasSuffix($string,"b") | ->regex("^[a-z]*$",$string)))*`,
	`@x #x = ((_:@x | ->ge($[]byte,[]byte{0x1}) | ->lt($[]byte,[]byte{0x7f}) | ->eq($[]byte,[]byte{'a'}) | ->ne($[]byte,[]byte{'x'})))*`,
	`@x #x = ((_:@x | ->eq(toLower($string),"x") | ->eq(toUpper($string),"X") | ->eq(length($string),1) | ->eq(length($[]byte),1) | *))*`,
	`@x #x = ((_:@x | ->contains($string,[]string{"a","x"}) | ->contains($int,[]int{1,2}) | ->contains($uint,[]uint{uint(1),uint(2)}) | *))*`,
	`.a:*`, `.k:.k:*`, `((a:*|!(a):*|0:*))*`, `.a == 1`, `.r:(.k == "1" & !(.l == "2"))`, `[0:*,1:[(_:*)*,*],*]`, `{a:*;b:*}`, `([._:._:_:*,._:*])?`,
	`[a:*,b:*]`, `(.A:* & .B:*)`, `!(.F2:.F1:*)`, `[F1:*,*]`,
}

type valueDump struct {
	b    bytes.Buffer
	seen map[uintptr]bool
}

// dump writes a Go value with the addresses of what it points to and the full backing arrays of its slices.
func (d *valueDump) dump(v reflect.Value) {
	if !v.IsValid() {
		d.b.WriteString("invalid;")
		return
	}
	switch v.Kind() {
	case reflect.Ptr:
		fmt.Fprintf(&d.b, "*%x", v.Pointer())
		if !v.IsNil() && !d.seen[v.Pointer()] {
			d.seen[v.Pointer()] = true
			d.dump(v.Elem())
		}
	case reflect.Interface:
		d.dump(v.Elem())
	case reflect.Struct:
		d.b.WriteByte('{')
		for i := 0; i < v.NumField(); i++ {
			d.dump(v.Field(i))
		}
		d.b.WriteByte('}')
	case reflect.Slice:
		fmt.Fprintf(&d.b, "[%x %d %d ", v.Pointer(), v.Len(), v.Cap())
		if v.Cap() > 0 {
			full := v.Slice(0, v.Cap())
			for i := 0; i < full.Len(); i++ {
				d.dump(full.Index(i))
			}
		}
		d.b.WriteByte(']')
	case reflect.Array:
		for i := 0; i < v.Len(); i++ {
			d.dump(v.Index(i))
		}
	case reflect.Map:
		fmt.Fprintf(&d.b, "map %x %d %v", v.Pointer(), v.Len(), v)
	default:
		fmt.Fprintf(&d.b, "%v", v)
	}
	d.b.WriteByte(';')
}

func dumpGoValue(v reflect.Value) string {
	d := &valueDump{seen: map[uintptr]bool{}}
	d.dump(v)
	return d.b.String()
}

// inputsUntouched validates and walks every input of every format and looks at the input, and at the memory around it,
// afterwards.
func inputsUntouched(r *Run) {
	for _, f := range testFormats(r.Thorough, !r.Thorough) {
		f := f
		ins := append(append([]interface{}{}, f.good...), f.bad...)
		type worker struct {
			p  *testParser
			ms []validateFunc
		}
		workers := make([]*worker, 64)
		r.Par(len(ins), func(w, i int) {
			if workers[w] == nil {
				x := &worker{p: f.mk()}
				for k, t := range inputGrammars {
					g, err := relapse.Parse(t)
					if err != nil {
						panic(t + ": " + err.Error())
					}
					a, err := relapse.Prepare(g)
					if err != nil {
						panic(t + ": " + err.Error())
					}
					b, err := mem.NewRecord(g)
					if err != nil {
						panic(t + ": " + err.Error())
					}
					x.ms = append(x.ms, a.Validate)
					if k%3 == 0 {
						x.ms = append(x.ms, b.Validate, func(p parser.Interface) (bool, error) { return interp.Interpret(g, p) })
					}
				}
				workers[w] = x
			}
			x := workers[w]
			in := ins[i]
			r.mark(w, func() string { return "input untouched: " + f.name + " " + showInput(in) })
			var same func() string
			if b, ok := in.([]byte); ok {
				around := append(append(bytes.Repeat([]byte{0xa5}, 16), b...), bytes.Repeat([]byte{0xa5}, 16)...)
				want := append([]byte{}, around...)
				in = around[16 : 16+len(b)] // with room behind it
				same = func() string {
					if !bytes.Equal(around, want) {
						return fmt.Sprintf("the input and what surrounds it were %q, now %q", want, around)
					}
					return ""
				}
			} else {
				v := in.(reflect.Value)
				want := dumpGoValue(v)
				same = func() string {
					if now := dumpGoValue(v); now != want {
						return fmt.Sprintf("the value was %s, now %s", want, now)
					}
					return ""
				}
			}
			r.States.Add(1)
			for k := -1; k < len(x.ms); k++ {
				what := "reading every value"
				if k >= 0 {
					what = fmt.Sprintf("validation %d", k)
				}
				guard(func() error { // errors and crashes are for other properties
					if err := x.p.init(in); err != nil {
						return err
					}
					if k < 0 {
						n := 2000
						_, err := vwalk(x.p, &n)
						return err
					}
					_, err := x.ms[k](x.p)
					return err
				})
				r.Transitions.Add(1)
				r.Traces.Add(1)
				if d := same(); d != "" {
					r.Violation(f.name+" | "+showInput(in)+" | "+what, fmt.Sprintf("%s input %s is changed by %s: %s", f.name, showInput(ins[i]), what, d), showInput(ins[i]))
					return
				}
			}
		})
		r.Bound("%s: %d inputs read and validated with %d grammars; the input and the memory around it compared", f.name, len(ins), len(inputGrammars))
	}
}
