package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"io"
	"math"
	"math/big"
	"strconv"
	"strings"

	jsonparser "github.com/katydid/katydid/parser/json"
)

func init() {
	register("C16", func(r *Run) { jsonCheck(r, true) })
	register("C17", func(r *Run) { jsonCheck(r, false) })
}

// jsonLeaf is the expected view of a scalar.
func jsonLeaf(tok json.Token) string {
	var v vals
	switch x := tok.(type) {
	case bool:
		v.b = &x
	case string:
		v.s = &x
	case json.Number:
		text := string(x)
		f, err := strconv.ParseFloat(text, 64)
		inRange := err == nil // a number beyond the range of a double has no double value
		if inRange {
			v.d = &f
		}
		if !strings.ContainsAny(text, ".eE") {
			n, _ := new(big.Int).SetString(text, 10)
			if n.IsInt64() {
				i := n.Int64()
				v.i = &i
			}
			if n.IsUint64() && text[0] != '-' {
				u := n.Uint64()
				v.u = &u
			}
		} else if inRange && f == math.Trunc(f) && f >= -(1<<63) && f < 1<<63 {
			i := int64(f)
			v.i = &i
		}
	}
	return v.sig()
}

// jsonRef is the tree a well-formed document denotes: the standard library's tokens in document order.
func jsonRef(text []byte) []*wnode {
	dec := json.NewDecoder(bytes.NewReader(text))
	dec.UseNumber()
	tok, err := dec.Token()
	if err != nil {
		panic(err)
	}
	return jsonRefValue(dec, tok)
}

func jsonRefValue(dec *json.Decoder, tok json.Token) []*wnode {
	d, ok := tok.(json.Delim)
	if !ok {
		return []*wnode{{leaf: true, sig: jsonLeaf(tok)}}
	}
	var ns []*wnode
	for i := 0; ; i++ {
		tok, err := dec.Token()
		if err != nil {
			panic(err)
		}
		if tok == json.Delim('}') || tok == json.Delim(']') {
			return ns
		}
		if d == '{' {
			name := tok.(string)
			tok, err = dec.Token()
			if err != nil {
				panic(err)
			}
			ns = append(ns, &wnode{sig: vals{s: &name}.sig(), kids: jsonRefValue(dec, tok)})
		} else {
			n := int64(i)
			ns = append(ns, &wnode{sig: vals{i: &n}.sig(), kids: jsonRefValue(dec, tok)})
		}
	}
}

// jsonText decides one text. It returns whether the text is well-formed.
func jsonText(p jsonparser.JsonParser, text []byte) (bool, error) {
	valid := json.Valid(text)
	var init error
	ns, err := fullWalk(p, func() error { init = p.Init(text); return init }, 4*len(text)+16)
	if err != nil && isPanic(err) {
		return valid, err
	}
	if err == errSteps {
		return valid, err
	}
	if !valid {
		if err == nil {
			return false, fmt.Errorf("a malformed document is walked without error: %s", nodesString(ns))
		}
		if err == io.EOF {
			return false, fmt.Errorf("a malformed document ends with EOF from Init")
		}
		return false, nil
	}
	if err != nil {
		return true, fmt.Errorf("a well-formed document ends in the error: %v", err)
	}
	want := jsonRef(text)
	if d := firstDiff(want, ns, "root"); d != "" {
		return true, fmt.Errorf("%s\n  expected %s\n  got      %s", d, nodesString(want), nodesString(ns))
	}
	return true, nil
}

func jsonCheck(r *Run, valids bool) {
	parsers := make([]jsonparser.JsonParser, 64)
	for i := range parsers {
		parsers[i] = jsonparser.NewJsonParser()
	}
	one := func(w int, text string) error {
		valid, err := jsonText(parsers[w], []byte(text))
		if err != nil && isPanic(err) {
			parsers[w] = jsonparser.NewJsonParser()
		}
		if valid {
			r.accepts.Add(1)
		} else {
			r.rejects.Add(1)
		}
		if valid != valids {
			return nil // the other property's part
		}
		r.Traces.Add(1)
		if n := r.sampleTick.Add(1); n&(n-1) == 0 && n > 4 {
			r.Sample("%q", text)
		}
		return err
	}
	try := func(w int, text string) {
		if err := one(w, text); err != nil {
			r.Violation("text | "+text, fmt.Sprintf("text: %q\n%v", text, err), text)
		}
		r.States.Add(1)
		r.Transitions.Add(int64(len(text)))
	}
	long, broken := 300, 18
	if r.Thorough {
		long, broken = 1025, 66
	}
	if valids {
		longPresented(r, "json", long)
	} else {
		longBroken(broken, "json", []byte("{}[]\",:\\1x \x00"), func(w int, text []byte) { try(w, string(text)) }, r)
	}
	n := 6
	if r.Thorough {
		n = 7
	}
	tokenSequencesW(r, []string{"{", "}", "[", "]", ",", ":", `"a"`, "1", "true", "null", " ", `"]}"`, `"\""`}, n, one)
	tokenSequencesW(r, []string{"{", "}", "[", "]", ",", ":", `"a"`, "0"}, n+1, one)
	// Structure only: the shortest alphabet in which every kind of nesting can be written, further.
	tokenSequencesW(r, []string{`{"a":`, "}", "[", "]", ",", "1"}, n+2, one)

	// Strings.
	chars := []string{`\u0041`, `\u00e9`, `\ud83d`, `\ude00`, `\u0000`, `\u00`, `\u`, `\n`, `\\`, `\"`, `\/`, `\b`, `\f`, `\r`, `\t`, `\'`, `\a`, `\`, `"`, "a", "é", "\xc3", "\xff", "\x00", "\x1f", "\x7f", "\n", "{", "]", " ", "😀", `\uD800x`, `\u12G4`, `\uABCD`, `\uabcd`, "\u2028"}
	wrap := []string{`["`, `"]`, `{"`, `":1}`, `"`, `"`, `[{"k":["`, `"]},2]`}
	sn := 3
	if r.Thorough {
		sn = 4
	}
	r.Par(len(chars)*len(chars)+1, func(w, i int) {
		var pre string
		if i > 0 {
			pre = chars[(i-1)/len(chars)] + chars[(i-1)%len(chars)]
		}
		r.mark(w, func() string { return "strings with " + pre })
		var rec func(s string, left int)
		rec = func(s string, left int) {
			for k := 0; k < len(wrap); k += 2 {
				try(w, wrap[k]+s+wrap[k+1])
			}
			if left == 0 {
				return
			}
			for _, c := range chars {
				rec(s+c, left-1)
			}
		}
		if i == 0 {
			try(w, `[""]`)
			for _, c := range chars {
				rec(c, 0)
			}
			return
		}
		rec(pre, sn-2)
	})
	r.Bound("every string of at most %d of %d pieces (escapes, surrogates, control characters, bad UTF-8), as element, name, whole document and nested", sn, len(chars))

	// Long strings: a run of one piece, a run of another and a last one; a run of every length.
	run, runs := 18, 300
	if r.Thorough {
		run, runs = 40, 1100
	}
	r.Par(len(chars)*len(chars), func(w, i int) {
		a, b := chars[i/len(chars)], chars[i%len(chars)]
		r.mark(w, func() string { return fmt.Sprintf("runs of %q and %q", a, b) })
		if i%len(chars) == 0 {
			for n := 1; n <= runs; n++ {
				for k := 0; k < len(wrap); k += 2 {
					try(w, wrap[k]+strings.Repeat(a, n)+wrap[k+1])
				}
			}
		}
		for n := 1; n <= run; n++ {
			for m := 1; m <= run; m++ {
				s := strings.Repeat(a, n) + strings.Repeat(b, m)
				k := 2 * ((n + m) % 4)
				try(w, wrap[k]+s+wrap[k+1])
			}
		}
		for _, n := range []int{1, 7, 8, 9, 15, 16, 17, 31, 33, 62, 63, 64, 65, 127, 128, 129, 255, 257} {
			for _, c := range []string{"a", `\u00e9`, "\xff", `\ud83d`, `\n`, `\`} {
				s := a + strings.Repeat(b, n) + c
				try(w, wrap[0]+s+wrap[1])
				try(w, wrap[2]+c+strings.Repeat(b, n)+a+wrap[3])
			}
		}
	})
	r.Bound("long strings: a run of each of %d pieces of every length up to %d, two runs of up to %d, and a run between two pieces", len(chars), runs, run)

	// Numbers.
	nn := 6
	if r.Thorough {
		nn = 7
	}
	alpha := "-+019.eE"
	var prefixes []string
	enumStrings(alpha, 2, func(s string) { prefixes = append(prefixes, s) })
	wrapN := []string{"[", "]", `{"a":`, "}", "", "", "[1,", " ,2]"}
	r.Par(len(prefixes), func(w, i int) {
		r.mark(w, func() string { return "numbers starting with " + prefixes[i] })
		f := func(s string) {
			for k := 0; k < len(wrapN); k += 2 {
				try(w, wrapN[k]+prefixes[i]+s+wrapN[k+1])
			}
		}
		if len(prefixes[i]) < 2 {
			f("")
			return
		}
		enumStrings(alpha, nn-2, f)
	})
	r.Bound("every text of at most %d characters of %q as a number", nn, alpha)
	var nums []string
	for _, e := range []uint{7, 8, 15, 16, 24, 31, 32, 53, 63, 64, 65, 100} {
		for d := int64(-2); d <= 2; d++ {
			x := new(big.Int).Add(new(big.Int).Lsh(big.NewInt(1), e), big.NewInt(d))
			for _, s := range []string{"", "-"} {
				for _, suffix := range []string{"", ".0", "e0", "E+0", "e-0", ".5", ".00000000000000000001", "e1", "e-1", "0", "e300", "e308", "e-400"} {
					nums = append(nums, s+x.String()+suffix)
				}
			}
		}
	}
	for e := -330; e <= 330; e++ {
		for _, m := range []string{"1", "4.9", "1.7976931348623157", "1.7976931348623159", "-2.2250738585072011", "9007199254740993", "0.1"} {
			nums = append(nums, fmt.Sprintf("%se%d", m, e))
		}
	}
	r.Par(len(nums), func(w, i int) {
		for k := 0; k < len(wrapN); k += 2 {
			try(w, wrapN[k]+nums[i]+wrapN[k+1])
		}
	})
	r.Bound("%d numbers around the limits of int64, uint64 and double, and every decimal exponent", len(nums))

	// Edits of documents.
	docs := []string{
		`{"a":1,"b":[true,false,null,"x\u0041\"]}"],"c":{"d":{},"e":[]},"a":-1.5e+3}`,
		" [ { \"a\" : [ 1 , [ 2 ] ] } ,\t\"[\\\\\" , {\"}\":\"{\"} \r\n] ",
		`"a\ud83d\ude00b"`, `true`, ` null `, `-12.5e-2`, `{}`, `[]`,
		`{"":"","a b":{"\"":[[],[[]],{}]}}`,
		`[[[[[["\\"]]]]],{"a":{"b":{"c":"}"}}}]`,
	}
	type job struct {
		doc string
		at  int
	}
	var jobs []job
	for _, d := range docs {
		for i := 0; i <= len(d); i++ {
			jobs = append(jobs, job{d, i})
		}
	}
	pieces := []string{"", "{", "}", "[", "]", ",", ":", `"`, `\`, "1", "0", "-", ".", "e", "t", "u", " ", "\x00", "\xff", `""`, "null", "[]", "{}", "[1]", ",1", `"a":1,`, "//", "/**/", "'"}
	r.Par(len(jobs), func(w, k int) {
		d, i := jobs[k].doc, jobs[k].at
		r.mark(w, func() string { return fmt.Sprintf("edits at %d of %s", i, d) })
		try(w, d[:i])
		try(w, d[i:])
		for b := 0; b < 256; b++ {
			try(w, d[:i]+string([]byte{byte(b)})+d[i:])
			if i < len(d) {
				try(w, d[:i]+string([]byte{byte(b)})+d[i+1:])
			}
		}
		if i < len(d) {
			try(w, d[:i]+d[i+1:])
		}
		// second edit
		for _, p1 := range pieces {
			e := d[:i] + p1 + d[i:]
			for j := i; j <= len(e); j++ {
				for _, p2 := range pieces {
					try(w, e[:j]+p2+e[j:])
				}
				if j < len(e) {
					try(w, e[:j]+e[j+1:])
					try(w, e[:j])
				}
			}
		}
	})
	r.Bound("every one-byte change, every truncation and every pair of insertions or insertion and deletion of %d pieces, of %d documents", len(pieces), len(docs))

	// Depth and width.
	deep := 400
	if r.Thorough {
		deep = 2000
	}
	for d := 1; d <= deep; d += 1 + d/8 {
		for _, x := range [][2]string{{"[", "]"}, {`{"a":`, "}"}, {`[1,{"b":`, `},"]"]`}} {
			for _, m := range []string{"1", "", `"]"`} {
				t := strings.Repeat(x[0], d) + m + strings.Repeat(x[1], d)
				try(0, t)
				try(0, t[:len(t)-1])
				try(0, t+"]")
			}
		}
		try(0, "["+strings.Repeat("1,", d)+"1]")
		try(0, `{`+strings.Repeat(`"a":[1],`, d)+`"a":{}}`)
	}
	r.Bound("nesting and width up to %d", deep)
}
