package main

import (
	"fmt"
	"math"
	"math/big"
	"strconv"
	"strings"
	"unicode/utf8"

	"github.com/katydid/katydid/relapse"
	"github.com/katydid/katydid/relapse/ast"
	"github.com/katydid/katydid/relapse/interp"
)

// a literal text and the value it denotes; sem is empty if it is a token that denotes no value (parsing must report an error).
type litCase struct {
	text string
	sem  string
}

func init() {
	register("C14", func(r *Run) {
		r.Assume("literals: the value a literal denotes is computed by this check from how the literal was put together, or with exact big-number arithmetic; a number literal is octal if it starts with 0 and hexadecimal if it starts with 0x, as the lexical grammar and the byte literals say")
		r.Assume("grammars for which HasRecursion reports left recursion are only parsed, not prepared (preparing them is documented not to terminate)")
		lits := litCases(r.Thorough)
		// each literal in every position of a literal: a comparison, a name, a function parameter, a list element
		r.Par(len(lits), func(w, i int) {
			l := lits[i]
			r.mark(w, func() string { return "literal " + l.text })
			for j, pos := range []struct{ pre, post, semPre, semPost string }{
				{"== ", "", "leaf(builtin == ", ")"},
				{"", ":*", "node(name(", ") zany)"},
				{"->f(1,", ")", "leaf(f(int:1 ", "))"},
				{"a:(<empty>|->[]int{", ",2})", "node(name(string:\"a\") or(empty leaf(list:LIST_INT(", " int:2))))"},
			} {
				if j > 1 && len(lits) > 100000 && i%7 != 0 {
					continue
				}
				text := pos.pre + l.text + pos.post
				err := guard(func() error {
					g, err := relapse.Parse(text)
					if l.sem == "" {
						if err == nil {
							return fmt.Errorf("is read as %s, but the literal denotes no value", semGrammar(g))
						}
						return nil
					}
					if err != nil {
						return fmt.Errorf("is rejected: %v", err)
					}
					if got, want := semGrammar(g), pos.semPre+l.sem+pos.semPost; got != want {
						return fmt.Errorf("is read as %s, but denotes %s", got, want)
					}
					return nil
				})
				r.States.Add(1)
				r.Traces.Add(1)
				r.Transitions.Add(int64(len(text)))
				if n := r.sampleTick.Add(1); n&(n-1) == 0 {
					r.Sample("%.100q denotes %.100s", text, l.sem)
				}
				if err != nil {
					r.Violation("literal | "+text, fmt.Sprintf("text: %q\n%v", text, err), text)
				}
			}
		})
		r.Bound("%d literal texts in 4 positions", len(lits))

		tp := make([]*TreeParser, 64)
		for i := range tp {
			tp[i] = newTreeParser(nil)
		}
		trees := [][]*Tree{nil, {{L: strLabel("a"), Kids: []*Tree{{L: numLabel(1), Leaf: true}}}}}
		usable := func(w int, text string) error {
			g, err := relapse.Parse(text)
			if err != nil {
				if err.Error() == "" {
					return fmt.Errorf("empty error message")
				}
				return nil
			}
			if g == nil {
				return fmt.Errorf("neither a grammar nor an error")
			}
			r.Traces.Add(1)
			_ = g.String()
			if recursive(g) {
				r.Outcome("left recursive", 1)
				return nil
			}
			m, err := relapse.Prepare(g)
			if err != nil {
				return nil
			}
			for _, t := range trees {
				tp[w].Init(t)
				m.Validate(tp[w]) // a value of another type may be an error; it must not panic or hang
			}
			return nil
		}
		n := 4
		if r.Thorough {
			n = 5
		}
		tokenSequencesW(r, tokenAlphabet, n, usable)

		// every short text over the characters of the language
		chars := []string{"a", "e", "0", "1", "x", "\"", "'", "`", "\\", "_", "*", "<", ">", "@", "#", "=", "(", ")", "[", "]", "{", "}", ",", ";", "|", "&", "!", "?", ".", ":", "-", "$", "~", "^", "/", " ", "\n", "é", "\x80", "\x00"}
		n = 4
		if r.Thorough {
			n = 5
		}
		tokenSequencesW(r, chars, n, usable)

		// every truncation, deletion, duplication, insertion and replacement of one character in valid grammars
		gs := synGrams(0)
		var texts []string
		seen := map[string]bool{}
		for i, g := range gs {
			for j, t := range []string{g.text(), spaced(g.toks(), "/*c*/")} {
				if !r.Thorough && (j == 1 && i%29 != 0 || j == 0 && i%5 != 0) || len(t) > 200 || seen[t] {
					continue
				}
				seen[t] = true
				texts = append(texts, t)
			}
		}
		edits := []string{"", "a", "0", "9", "\"", "'", "\\", "_", "*", "<", "@", "#", "(", ")", "[", "}", ",", ":", ".", "-", "x", "/", " ", "\xff", "\x00"}
		r.Par(len(texts), func(w, i int) {
			t := texts[i]
			r.mark(w, func() string { return "edits of " + t })
			try := func(s string) {
				if err := guard(func() error { return usable(w, s) }); err != nil {
					r.Violation("text | "+s, fmt.Sprintf("text: %q\n%v", s, err), s)
				}
				r.States.Add(1)
				r.Transitions.Add(int64(len(s)))
			}
			for k := 0; k <= len(t); k++ {
				try(t[:k])
				try(t[k:])
				for _, e := range edits {
					try(t[:k] + e + t[k:])
					if k < len(t) {
						try(t[:k] + e + t[k+1:])
					}
				}
			}
		})
		r.Bound("every one-character edit of %d valid grammars", len(texts))

		// every truncation of the long grammars, and a few characters instead of each character
		long := longSynGrams(map[bool]int{false: 6, true: 20}[r.Thorough])
		r.Par(len(long), func(w, i int) {
			ts := long[i].toks()
			t := joinToks(ts)
			r.mark(w, func() string { return "edits of " + t })
			try := func(s string) {
				if err := guard(func() error { return usable(w, s) }); err != nil {
					r.Violation("text | "+s, fmt.Sprintf("text: %q\n%v", s, err), s)
				}
				r.States.Add(1)
				r.Transitions.Add(int64(len(s)))
			}
			for k := 0; k < len(t); k++ {
				try(t[:k])
				for _, e := range []string{"", "x", ")", "\xff"} {
					try(t[:k] + e + t[k+1:])
				}
			}
			for k := range ts { // every token left out, twice, or another
				pre, post := joinToks(ts[:k]), joinToks(ts[k+1:])
				try(pre + " " + post)
				try(pre + " " + ts[k] + " " + ts[k] + " " + post)
				for _, e := range []string{"*", "(", "]", ",", ":", "a", "1", "@"} {
					try(pre + " " + e + " " + post)
				}
			}
		})
		r.Bound("every truncation, character and token edit of %d long grammars", len(long))

		// deep nesting
		for _, d := range []int{100, 1000, 3000} {
			for _, p := range [][2]string{{"(", ")*"}, {"!(", ")"}, {"a:(", "|*)"}, {".(", "|*)"}, {"[*,", "]"}, {"{*;", "}"}, {"(*|", ")"}} {
				text := strings.Repeat(p[0], d) + "*" + strings.Repeat(p[1], d)
				r.mark(0, func() string { return text })
				if err := guard(func() error { return usable(0, text) }); err != nil {
					r.Violation("text | "+text, fmt.Sprintf("text: %q\n%v", text, err), text)
				}
				r.States.Add(1)
			}
		}
		r.clear(0)
		r.Bound("nesting to depth 3000")
	})
}

func recursive(g *ast.Grammar) bool {
	if g.TopPattern == nil && len(g.PatternDecls) == 0 {
		return false
	}
	return interp.HasRecursion(g)
}

func tokenSequencesW(r *Run, alphabet []string, n int, f func(w int, text string) error) {
	alpha := append([]string{""}, alphabet...)
	k := len(alpha)
	items := 1
	for i := 0; i < n-2; i++ {
		items *= k
	}
	r.Par(items, func(w, i int) {
		prefix := ""
		x := i
		empty := false
		for j := 0; j < n-2; j++ {
			t := alpha[x%k]
			x /= k
			if t == "" {
				empty = true
			} else if empty {
				return
			}
			prefix += t
		}
		r.mark(w, func() string { return fmt.Sprintf("texts starting with %q", prefix) })
		for _, t1 := range alpha {
			if empty && t1 != "" {
				break
			}
			for _, t2 := range alpha {
				if t1 == "" && t2 != "" {
					break
				}
				text := prefix + t1 + t2
				if err := guard(func() error { return f(w, text) }); err != nil {
					r.Violation("text | "+text, fmt.Sprintf("text: %q\n%v", text, err), text)
				}
				r.States.Add(1)
				r.Transitions.Add(int64(len(text)))
			}
		}
	})
	r.Bound("every sequence of at most %d of %d tokens or characters", n, len(alphabet))
}

// enumStrings calls f with every string of at most n characters of the alphabet.
func enumStrings(alphabet string, n int, f func(s string)) {
	buf := make([]byte, 0, n)
	var rec func()
	rec = func() {
		f(string(buf))
		if len(buf) == n {
			return
		}
		for i := 0; i < len(alphabet); i++ {
			buf = append(buf, alphabet[i])
			rec()
			buf = buf[:len(buf)-1]
		}
	}
	rec()
}

// intLit reads the digits of an integer literal of the lexical grammar; nil if it is not one.
func intLit(s string) *big.Int {
	base := 10
	d := s
	switch {
	case s == "":
		return nil
	case strings.HasPrefix(s, "0x") || strings.HasPrefix(s, "0X"):
		base, d = 16, s[2:]
		if d == "" {
			return nil
		}
	case s[0] == '0':
		base, d = 8, s[1:]
	}
	v := new(big.Int)
	for _, c := range d {
		x := strings.IndexRune("0123456789abcdef", c)
		if c >= 'A' && c <= 'F' {
			x = int(c-'A') + 10
		}
		if x < 0 || x >= base {
			return nil
		}
		v.Mul(v, big.NewInt(int64(base)))
		v.Add(v, big.NewInt(int64(x)))
	}
	return v
}

// isFloatLit follows the lexical grammar.
func isFloatLit(s string) bool {
	digits := func(s string) (int, string) {
		n := 0
		for n < len(s) && s[n] >= '0' && s[n] <= '9' {
			n++
		}
		return n, s[n:]
	}
	exponent := func(s string) bool {
		if s == "" || s[0] != 'e' && s[0] != 'E' {
			return false
		}
		s = s[1:]
		if s != "" && (s[0] == '+' || s[0] == '-') {
			s = s[1:]
		}
		n, rest := digits(s)
		return n > 0 && rest == ""
	}
	n, rest := digits(s)
	if strings.HasPrefix(rest, ".") {
		m, rest2 := digits(rest[1:])
		if n > 0 {
			// 1.2e3  1.2  1.e3
			return m > 0 && (rest2 == "" || exponent(rest2)) || m == 0 && exponent(rest2)
		}
		// .2  .e3 (which denotes nothing, see below)
		return m > 0 && rest2 == "" || m == 0 && exponent(rest2)
	}
	return n > 0 && exponent(rest)
}

func bigToFloat(s string) (float64, bool) {
	f, _, err := big.ParseFloat(s, 10, 4000, big.ToNearestEven)
	if err != nil {
		return 0, false
	}
	d, _ := f.Float64()
	return d, !math.IsInf(d, 0)
}

func litCases(thorough bool) []litCase {
	var out []litCase
	seen := map[string]bool{}
	add := func(text, sem string) {
		if !seen[text] {
			seen[text] = true
			out = append(out, litCase{text, sem})
		}
	}
	inInt := func(v *big.Int) string {
		if !v.IsInt64() {
			return ""
		}
		return semI(v.Int64())
	}
	// integers: every short digit string in every cast, then the boundaries
	integer := func(digits string) {
		v := intLit(digits)
		if v == nil {
			return
		}
		neg := new(big.Int).Neg(v)
		add("int("+digits+")", inInt(v))
		add("int(-"+digits+")", inInt(neg))
		if digits == "0" || digits[0] != '0' {
			add(digits, inInt(v))
		}
		if digits[0] != '0' {
			add("-"+digits, inInt(neg))
		}
		u := ""
		if v.IsUint64() {
			u = semU(v.Uint64())
		}
		add("uint("+digits+")", u)
		if d, ok := bigToFloat(v.String()); ok {
			add("double("+digits+")", semD(d))
			add("double(-"+digits+")", semD(-d))
		}
	}
	enumStrings("01789xXaF", 4, integer)
	for k := uint(0); k <= 66; k++ {
		for d := int64(-1); d <= 1; d++ {
			v := new(big.Int).Lsh(big.NewInt(1), k)
			v.Add(v, big.NewInt(d))
			for _, f := range []string{"%d", "0%o", "00%o", "0x%x", "0X%X", "0x000%x"} {
				integer(fmt.Sprintf(f, v))
			}
		}
	}
	for _, s := range []string{"1" + strings.Repeat("0", 30), "0x1" + strings.Repeat("0", 40), "0" + strings.Repeat("7", 50), strings.Repeat("9", 309)} {
		integer(s)
	}
	// doubles
	n := 5
	if thorough {
		n = 6
	}
	double := func(s string) {
		if !isFloatLit(s) {
			return
		}
		d, ok := bigToFloat(s)
		if strings.HasPrefix(s, ".e") || strings.HasPrefix(s, ".E") {
			ok = false // no digits: denotes nothing
		}
		if !ok {
			add("double("+s+")", "")
			add("double(-"+s+")", "")
			return
		}
		add("double("+s+")", semD(d))
		add("double(-"+s+")", semD(-d))
	}
	enumStrings("019.eE+-", n, double)
	for _, s := range []string{"1.7976931348623157e308", "1.7976931348623158e308", "1.7976931348623159e308", "1.8e308", "1e309", "4.9e-324", "2.4e-324", "2.5e-324", "5e-325", "1e-400", "0.1", "0.3", "123456789.125", "9007199254740993.0", "9007199254740992.5",
		"2.2250738585072011e-308", "2.2250738585072014e-308", "1.00000000000000011102230246251565404236316680908203125", "1.00000000000000011102230246251565404236316680908203124", "1.00000000000000011102230246251565404236316680908203126"} {
		double(s)
	}
	// strings: one and two pieces
	type piece struct {
		text, val string
		bad       bool
	}
	var ps []piece
	for c := 0; c < 128; c++ {
		s := string(rune(c))
		switch c {
		case '"', '\\':
		case '\n':
			ps = append(ps, piece{s, "", true})
		default:
			ps = append(ps, piece{s, s, false})
		}
	}
	for _, s := range []string{"\u0080", "é", "߿", "ࠀ", "日", "\u2028", "\ufeff", "�", "😀", "\U0010ffff"} {
		ps = append(ps, piece{s, s, false})
	}
	for i, c := range "abfnrtv\\\"" {
		ps = append(ps, piece{"\\" + string(c), string("\a\b\f\n\r\t\v\\\""[i]), false})
	}
	ps = append(ps, piece{`\'`, "", true}, piece{`\q`, "", true}, piece{`\0`, "", true}, piece{`\x1`, "", true}, piece{`\u12`, "", true})
	for b := 0; b < 256; b++ {
		ps = append(ps, piece{fmt.Sprintf(`\x%02x`, b), string([]byte{byte(b)}), false}, piece{fmt.Sprintf(`\x%02X`, b), string([]byte{byte(b)}), false}, piece{fmt.Sprintf(`\%03o`, b), string([]byte{byte(b)}), false})
	}
	for _, o := range []int{0400, 0777} {
		ps = append(ps, piece{fmt.Sprintf(`\%03o`, o), "", true})
	}
	for _, c := range []rune{0, 'a', '"', 0x7f, 0x80, 0xff, 0x100, 0x7ff, 0x800, 0xd7ff, 0xe000, 0xfffd, 0xffff} {
		ps = append(ps, piece{fmt.Sprintf(`\u%04x`, c), string(c), false}, piece{fmt.Sprintf(`\U%08X`, c), string(c), false})
	}
	ps = append(ps, piece{`\U00010000`, "\U00010000", false}, piece{`\U0010FFFF`, "\U0010ffff", false}, piece{`\U00110000`, "", true}, piece{`\Uffffffff`, "", true}, piece{`\ud800`, "", true}, piece{`\udfff`, "", true})
	str := func(ps ...piece) {
		text, val, bad := "", "", false
		for _, p := range ps {
			text += p.text
			val += p.val
			bad = bad || p.bad
		}
		if bad {
			add(`"`+text+`"`, "")
		} else {
			add(`"`+text+`"`, semS(val))
		}
	}
	str()
	for i, p := range ps {
		str(p)
		for j, q := range ps {
			if (p.bad && strings.ContainsAny(q.text[:1], "01234567abcdefABCDEF")) || i%3 != 0 && j%17 != 0 && !thorough {
				continue // an incomplete escape would be completed by the next piece
			}
			str(p, q)
			if j%31 == 0 {
				str(p, q, p)
			}
		}
	}
	for c := rune(0); c < 128; c++ {
		if c != '`' {
			v := strings.Replace(string(c), "\r", "", -1)
			add("`"+string(c)+"`", semS(v))
			add("`a"+string(c)+"\"`", semS("a"+v+"\""))
		}
	}
	add("``", semS(""))
	add("`\\n日`", semS("\\n日"))
	// bytes
	type el struct {
		text string
		val  int // -1: denotes no byte
	}
	var els []el
	for i := 0; i <= 300; i++ {
		v := i
		if v > 255 {
			v = -1
		}
		els = append(els, el{strconv.Itoa(i), v}, el{fmt.Sprintf("0%o", i), v}, el{fmt.Sprintf("0x%x", i), v}, el{fmt.Sprintf("0X%02X", i), v}, el{fmt.Sprintf("00%03o", i), v})
	}
	els = append(els, el{"65536", -1}, el{"0x10000000000000001", -1}, el{"18446744073709551617", -1})
	for _, p := range ps {
		v := -1
		if !p.bad {
			if strings.HasPrefix(p.text, `\x`) || p.text[0] == '\\' && p.text[1] <= '7' {
				v = int(p.val[0])
			} else if c, _ := utf8.DecodeRuneInString(p.val); c < 256 {
				v = int(c)
			}
		}
		if p.text == `\'` {
			v = '\''
		}
		if p.text == "\n" {
			v = '\n'
		}
		switch p.text {
		case `\q`, `\0`, `\x1`, `\u12`:
			continue // not a token
		case "'":
			// three quotes: the character between them
		}
		els = append(els, el{"'" + p.text + "'", v})
	}
	els = append(els, el{`'"'`, '"'})
	bytesLit := func(sep string, es ...el) {
		var ts []string
		val := []byte{}
		bad := false
		for _, e := range es {
			ts = append(ts, e.text)
			if e.val < 0 {
				bad = true
			}
			val = append(val, byte(e.val))
		}
		text := "[]byte{" + strings.Join(ts, sep) + "}"
		if bad {
			add(text, "")
		} else {
			add(text, semY(val))
		}
	}
	add("[]byte{}", semY([]byte{}))
	add("[]byte{ \t\r\n}", semY([]byte{}))
	few := []el{}
	for _, e := range els {
		bytesLit(",", e)
		switch e.text {
		case "0", "255", "256", "0377", "0xff", "'a'", "','", "'}'", "'{'", "' '", `'\\'`, `'\''`, `'"'`, `'\xff'`, `'\n'`, "'''", "'é'", "'日'", "'\t'", "'/'":
			few = append(few, e)
		}
	}
	for _, e := range els {
		for _, f := range few {
			for _, sep := range []string{",", " ,\n\t "} {
				bytesLit(sep, e, f)
				bytesLit(sep, f, e)
				if e.text[0] == '\'' {
					bytesLit(sep, f, e, f)
				}
			}
		}
	}
	for _, e := range few {
		add("[]byte{ "+e.text+" }", func() string {
			if e.val < 0 {
				return ""
			}
			return semY([]byte{byte(e.val)})
		}())
	}
	return out
}
