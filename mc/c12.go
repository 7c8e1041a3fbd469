package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"math"
	"reflect"
	"regexp"
	"strconv"
	"strings"

	"github.com/katydid/katydid/relapse"
	"github.com/katydid/katydid/relapse/ast"
	"github.com/katydid/katydid/relapse/auto"
	"github.com/katydid/katydid/relapse/intern"
	"github.com/katydid/katydid/relapse/interp"
	"github.com/katydid/katydid/relapse/mem"
)

func init() {
	register("C12", checkC12)
	register("C13", checkC13)
	register("C30", checkC30)
	register("C07", checkC07)
}

func level(r *Run) int {
	if r.Thorough {
		return 2
	}
	return 1
}

// each runs f on every grammar of the syntax space and reports what it returns.
func eachGram(r *Run, name string, gs []*synGram, f func(g *synGram, text string) error) {
	r.Par(len(gs), func(w, i int) {
		g := gs[i]
		text := g.text()
		r.mark(w, func() string { return text })
		if err := guard(func() error { return f(g, text) }); err != nil {
			r.Violation(name+" | "+text, fmt.Sprintf("%s\ngrammar: %s\n%v", name, text, err), text)
		}
		r.States.Add(1)
		if n := r.sampleTick.Add(1); n&(n-1) == 0 {
			r.Sample("%s: %.200s", name, text)
		}
	})
	r.Bound("%s: %d grammars", name, len(gs))
}

func parseGram(text string) (*ast.Grammar, error) {
	g, err := relapse.Parse(text)
	if err != nil {
		return nil, fmt.Errorf("does not parse: %q: %v", text, err)
	}
	if g == nil {
		return nil, fmt.Errorf("parses to nil: %q", text)
	}
	return g, nil
}

func roundTrip(g *ast.Grammar, exact bool) error {
	s := g.String()
	g2, err := parseGram(s)
	if err != nil {
		return fmt.Errorf("its printed form %v", err)
	}
	if a, b := semGrammar(g), semGrammar(g2); a != b {
		return fmt.Errorf("its printed form %q parses to another grammar:\n%s\ninstead of\n%s", s, b, a)
	}
	if exact && !g.Equal(g2) {
		return fmt.Errorf("its printed form %q parses to a grammar that is not Equal", s)
	}
	if s2 := g2.String(); s2 != s {
		return fmt.Errorf("printing is not stable: %q then %q", s, s2)
	}
	return nil
}

func checkC12(r *Run) {
	r.Assume("equality is compared by an independent walk of the syntax tree, up to the grouping of n-ary operators for built grammars, and by Grammar.Equal for parsed ones")
	gs := synGrams(level(r))
	eachGram(r, "parsed grammar", gs, func(g *synGram, text string) error {
		p, err := parseGram(text)
		if err != nil {
			return err
		}
		if a, b := g.sem(), semGrammar(p); a != b {
			return fmt.Errorf("parses to\n%s\ninstead of\n%s", b, a)
		}
		r.Transitions.Add(3)
		r.Traces.Add(1)
		return roundTrip(p, true)
	})
	eachGram(r, "built grammar", gs, func(g *synGram, text string) error {
		b := g.build()
		if x, y := g.sem(), semGrammar(b); x != y {
			return fmt.Errorf("builds\n%s\ninstead of\n%s", y, x)
		}
		r.Transitions.Add(3)
		r.Traces.Add(1)
		return roundTrip(b, false)
	})
	long := longSynGrams(map[bool]int{false: 70, true: 300}[r.Thorough])
	for _, built := range []bool{false, true} {
		built := built
		eachGram(r, fmt.Sprintf("long grammars, built: %v", built), long, func(g *synGram, text string) error {
			p := g.build()
			if !built {
				var err error
				if p, err = parseGram(text); err != nil {
					return err
				}
			}
			if x, y := g.sem(), semGrammar(p); x != y {
				return fmt.Errorf("gives\n%s\ninstead of\n%s", y, x)
			}
			r.Transitions.Add(3)
			r.Traces.Add(1)
			return roundTrip(p, !built)
		})
	}
	seps := []string{" ", "\n", "/*c*/", "//c\n", " /*a*/\n//b\n"}
	small := synGrams(0)
	for _, sep := range seps {
		eachGram(r, fmt.Sprintf("parsed grammar with %q between all tokens", sep), small, func(g *synGram, text string) error {
			p, err := relapse.Parse(spaced(g.toks(), sep))
			if err != nil {
				return fmt.Errorf("does not parse with spacing %q: %v", sep, err)
			}
			if a, b := g.sem(), semGrammar(p); a != b {
				return fmt.Errorf("with spacing parses to\n%s\ninstead of\n%s", b, a)
			}
			r.Transitions.Add(3)
			r.Traces.Add(1)
			return roundTrip(p, true)
		})
	}
	// every kind of literal over a wide set of values, as constant, as name, inside a list and inside a choice of names
	var lits []*synGram
	for _, l := range sweepLits(r.Thorough) {
		var ps []synPat
		if l.expr != nil {
			ps = append(ps, spBuiltin(0, seLit(l)))
			if len(l.toks) < 40 {
				ps = append(ps, spArrow(seFunc("f", seList(4, seLit(l), seLit(l)), seLit(l))))
			}
		}
		ps = append(ps, spNode(snLit(l), spZAny(), true), spNode(snOr(snLit(l), snNot(snLit(l))), spBuiltin(2, seLit(litI(1))), false))
		for i := range ps {
			lits = append(lits, &synGram{main: &ps[i]})
		}
	}
	litCheck := func(built bool) func(g *synGram, text string) error {
		return func(g *synGram, text string) error {
			p := g.build()
			var err error
			if !built {
				p, err = parseGram(text)
			}
			if err != nil {
				return err
			}
			if a, b := g.sem(), semGrammar(p); a != b {
				return fmt.Errorf("gives\n%s\ninstead of\n%s", b, a)
			}
			r.Transitions.Add(3)
			r.Traces.Add(1)
			return roundTrip(p, !built)
		}
	}
	eachGram(r, "literals, parsed", lits, litCheck(false))
	eachGram(r, "literals, built", lits, litCheck(true))
	// every grammar text of a few tokens, valid or not: whatever parses must survive the round trip
	n := 4
	if r.Thorough {
		n = 5
	}
	tokenSequences(r, tokenAlphabet, n, func(text string) error {
		g, err := relapse.Parse(text)
		if err != nil {
			return nil
		}
		r.Traces.Add(1)
		return roundTrip(g, true)
	})
}

// sweepLits: every bit position and boundary of the numbers, every byte and interesting pair of characters of strings.
func sweepLits(thorough bool) []synLit {
	var out []synLit
	for k := 0; k < 64; k++ {
		for d := -1; d <= 1; d++ {
			u := uint64(1)<<uint(k) + uint64(d)
			out = append(out, litU(u), litI(int64(u)), litI(-int64(u)))
		}
	}
	mants := []uint64{0, 1, 1<<52 - 1, 1 << 51, 0x5555555555555}
	step := 7
	if thorough {
		step = 1
	}
	for e := 0; e < 2047; e++ {
		if e%step != 0 && e > 3 && e < 2044 && (e < 1010 || e > 1090) {
			continue
		}
		for _, m := range mants {
			for sign := uint64(0); sign < 2; sign++ {
				f := math.Float64frombits(sign<<63 | uint64(e)<<52 | m)
				out = append(out, litD(f, strconv.FormatFloat(f, 'g', -1, 64)))
			}
		}
	}
	chars := []string{}
	for i := 0; i < 256; i++ {
		chars = append(chars, string([]byte{byte(i)}))
	}
	chars = append(chars, "\u0080", "\u00ad", "\u07ff", "\u0800", "\u2028", "\ud7ff", "\ue000", "\ufeff", "\ufffd", "\uffff", "\U00010000", "\U0010ffff", "\xc0\x80", "\xed\xa0\x80")
	for _, c := range chars {
		out = append(out, litS(c))
	}
	for _, c := range chars {
		for _, d := range chars {
			if thorough || c < "\x80" && d < "\x80" && c >= " " || d == "a" || d == "\\" || d == "\"" || d == "\x80" {
				out = append(out, litS(c+d))
			}
		}
	}
	for _, s := range []string{"true", "false", "truex", "xfalse", "True", "int", "uint", "double", "bool", "string", "empty", "byte", "__", "_1", "a_b", "a1_", "9a", "-1", "uint(1)", "double(1)", "[]byte{}", "a:b", "<empty>", "*", "/*", "//", "`"} {
		out = append(out, litS(s))
		if isIdent(s) {
			out = append(out, litID(s))
		}
	}
	for i := 0; i < 256; i++ {
		out = append(out, litY([]byte{byte(i)}), litY([]byte{byte(i), byte(255 - i)}))
	}
	return out
}

func isIdent(s string) bool {
	if s == "" || s == "_" || s == "true" || s == "false" {
		return false
	}
	for i, c := range s {
		if !(c == '_' || c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || i > 0 && c >= '0' && c <= '9') {
			return false
		}
	}
	return true
}

var tokenAlphabet = []string{"a", "b", "_", "true", "1", "-1", `"s"`, "uint(1)", "double(1.5)", "[]byte{1}", "*", "<empty>", "@", "#", "=", "(", ")", "[", "]", "{", "}", ",", ";", "|", "&", "!", "?", ".", ":", "->", "==", "!=", "<", "~=", "*=", "::", "$int", "[]int", " ", "/*c*/", "//c\n"}

// tokenSequences runs f on every concatenation of at most n tokens.
func tokenSequences(r *Run, alphabet []string, n int, f func(text string) error) {
	k := len(alphabet)
	total := 1
	for i := 0; i < n; i++ {
		total *= k
	}
	// the work items are the sequences of the first n-2 tokens (shorter sequences are those padded with the empty token)
	alpha := append([]string{""}, alphabet...)
	k = len(alpha)
	items := 1
	for i := 0; i < n-1; i++ {
		items *= k
	}
	r.Par(items, func(w, i int) {
		var sb []string
		x := i
		empty := false
		for j := 0; j < n-1; j++ {
			t := alpha[x%k]
			x /= k
			if t == "" {
				empty = true
			} else if empty {
				return // the empty token only at the end
			}
			sb = append(sb, t)
		}
		prefix := strings.Join(sb, "")
		r.mark(w, func() string { return "token sequences starting with " + prefix })
		for _, last := range alpha {
			if empty && last != "" {
				break
			}
			text := prefix + last
			if err := guard(func() error { return f(text) }); err != nil {
				r.Violation("text | "+text, fmt.Sprintf("text: %q\n%v", text, err), text)
			}
			r.States.Add(1)
			r.Transitions.Add(1)
		}
	})
	r.Bound("every sequence of at most %d of %d tokens", n, len(alphabet))
}

// spaced puts sep between all tokens where spacing is allowed.
func spaced(ts []string, sep string) string {
	var sb strings.Builder
	for i, t := range ts {
		if i > 0 && spaceAllowed(ts[i-1], t) {
			if sep == "" && needsSpace(ts[i-1], t) {
				sb.WriteString(" ")
			}
			sb.WriteString(sep)
		}
		sb.WriteString(t)
	}
	return sb.String()
}

// spaceAllowed: everywhere but between @ and the name, and before the = of a declaration's... (the grammar has no other exception).
func spaceAllowed(prev, next string) bool { return prev != "@" }

// ---- C13

// comments extracts the comments of a text, skipping literals.
func comments(s string) []string {
	var out []string
	for i := 0; i < len(s); i++ {
		switch {
		case s[i] == '"':
			for i++; i < len(s) && s[i] != '"'; i++ {
				if s[i] == '\\' {
					i++
				}
			}
		case s[i] == '`':
			for i++; i < len(s) && s[i] != '`'; i++ {
			}
		case s[i] == '\'':
			for i++; i < len(s) && s[i] != '\''; i++ {
				if s[i] == '\\' {
					i++
				}
			}
		case strings.HasPrefix(s[i:], "//"):
			j := i
			for j < len(s) && s[j] != '\n' {
				j++
			}
			out = append(out, strings.TrimSpace(s[i:j]))
			i = j
		case strings.HasPrefix(s[i:], "/*"):
			j := strings.Index(s[i+2:], "*/")
			if j < 0 {
				return append(out, s[i:])
			}
			out = append(out, strings.TrimSpace(s[i:i+2+j+2]))
			i = i + 2 + j + 1
		}
	}
	return out
}

func checkFormat(text string, sem string, must bool) (bool, error) {
	g, err := relapse.Parse(text)
	if err != nil {
		if must {
			return false, fmt.Errorf("does not parse: %q: %v", text, err)
		}
		return false, nil
	}
	want := semGrammar(g)
	if sem != "" && want != sem {
		return true, fmt.Errorf("%q parses to %s instead of %s", text, want, sem)
	}
	wantC := comments(text)
	g.Format()
	if got := semGrammar(g); got != want {
		return true, fmt.Errorf("formatting %q changes the grammar from %s to %s", text, want, got)
	}
	s1 := g.String()
	g2, err := relapse.Parse(s1)
	if err != nil {
		return true, fmt.Errorf("%q is formatted to %q, which does not parse: %v", text, s1, err)
	}
	if got := semGrammar(g2); got != want {
		return true, fmt.Errorf("%q is formatted to %q, which means %s instead of %s", text, s1, got, want)
	}
	if gotC := comments(s1); fmt.Sprintf("%q", gotC) != fmt.Sprintf("%q", wantC) {
		return true, fmt.Errorf("%q is formatted to %q: the comments %q became %q", text, s1, wantC, gotC)
	}
	g2.Format()
	if s2 := g2.String(); s2 != s1 {
		return true, fmt.Errorf("%q is formatted to %q; formatting that again gives %q", text, s1, s2)
	}
	return true, nil
}

var spaceAlphabet = []string{" ", "\n", "\t", "\r\n", "\n\n", "/*c*/", "//c\n", "/**/", "//\n", "/*a\nb*/", "/* * */"}

func checkC13(r *Run) {
	// spacing strings: all sequences of at most n pieces
	pieces := append([]string{}, spaceAlphabet...)
	var spaces []string
	seen := map[string]bool{}
	var rec func(s string, n int)
	rec = func(s string, n int) {
		if s != "" && !seen[s] {
			seen[s] = true
			spaces = append(spaces, s)
		}
		if n == 0 {
			return
		}
		for _, p := range pieces {
			rec(s+p, n-1)
		}
	}
	rec("", 2)
	n2 := len(spaces)
	rec("", 3)
	if r.Thorough {
		rec("", 4)
	}
	var few []*synGram
	// one representative of every syntactic construct
	a := snLit(litID("a"))
	leaf := spBuiltin(0, seLit(litI(1)))
	arrow := spArrow(seFunc("and", seFunc("eq", seVar(1), seLit(litI(1))), seFunc("f")))
	list := spArrow(seFunc("contains", seVar(4), seList(4, seLit(litS("a//b")), seLit(litS("/*c*/")))))
	for _, p := range []synPat{spZAny(), leaf, arrow, list, spNode(snOr(a, snNot(snAny()), a), leaf, false), spNode(a, spZAny(), true),
		spBin(OpConcat, true, spZAny(), leaf, spEmpty()), spBin(OpConcat, false, spZAny(), leaf), spBin(OpInterleave, true, spZAny(), leaf), spBin(OpInterleave, false, spZAny(), leaf, leaf),
		spBin(OpOr, false, spZAny(), leaf, leaf), spBin(OpAnd, false, spZAny(), leaf), spUn(OpNot, leaf), spUn(OpStar, leaf), spUn(OpOptional, leaf), spUn(OpContains, leaf), spRef("x")} {
		q := p
		few = append(few, &synGram{main: &q}, &synGram{names: []string{"main", "x"}, decls: []synPat{q, q}}, &synGram{main: &q, names: []string{"x"}, decls: []synPat{leaf}})
	}
	// every spacing at every single position (also before the first and after the last token)
	type job struct {
		g   *synGram
		ts  []string
		pos int
	}
	var jobs []job
	for _, g := range few {
		ts := g.toks()
		for i := 0; i <= len(ts); i++ {
			jobs = append(jobs, job{g, ts, i})
		}
	}
	r.Par(len(jobs), func(w, i int) {
		j := jobs[i]
		r.mark(w, func() string { return "formatting " + j.g.text() })
		sem := j.g.sem()
		for _, sp := range spaces {
			text := joinToks(j.ts[:j.pos]) + sp + joinToks(j.ts[j.pos:])
			var parsed bool
			err := guard(func() (err error) { parsed, err = checkFormat(text, sem, false); return err })
			if err != nil {
				r.Violation("format | "+text, err.Error(), text)
			}
			r.States.Add(1)
			if parsed {
				r.Traces.Add(1)
				r.Transitions.Add(5)
			}
		}
		if n := r.sampleTick.Add(1); n&(n-1) == 0 {
			r.Sample("%q formatted, reparsed, formatted again", joinToks(j.ts[:j.pos])+spaces[len(spaces)/2]+joinToks(j.ts[j.pos:]))
		}
	})
	r.Bound("%d spacings x %d positions in %d grammars", len(spaces), len(jobs), len(few))
	// every pair of spacings at every pair of positions
	short := spaces[:0:0]
	for i, s := range spaces[:n2] {
		if r.Thorough || i%5 == 0 || i < len(pieces) {
			short = append(short, s)
		}
	}
	r.Par(len(jobs), func(w, i int) {
		j := jobs[i]
		r.mark(w, func() string { return "formatting " + j.g.text() })
		sem := j.g.sem()
		if len(j.ts) > 16 {
			return
		}
		for k := j.pos + 1; k <= len(j.ts); k++ {
			for _, s1 := range short {
				for _, s2 := range short {
					text := joinToks(j.ts[:j.pos]) + s1 + joinToks(j.ts[j.pos:k]) + s2 + joinToks(j.ts[k:])
					var parsed bool
					err := guard(func() (err error) { parsed, err = checkFormat(text, sem, false); return err })
					if err != nil {
						r.Violation("format | "+text, err.Error(), text)
					}
					r.States.Add(1)
					if parsed {
						r.Traces.Add(1)
						r.Transitions.Add(5)
					}
				}
			}
		}
	})
	r.Bound("pairs of %d spacings x pairs of positions", len(short))
	commentContents(r, few)
	// one spacing everywhere, over the whole syntax space
	gs := synGrams(level(r))
	for _, sp := range append([]string{""}, spaces[:len(pieces)+4]...) {
		eachGram(r, fmt.Sprintf("formatting with %q everywhere", sp), gs, func(g *synGram, text string) error {
			r.Traces.Add(1)
			r.Transitions.Add(5)
			_, err := checkFormat(spaced(g.toks(), sp), g.sem(), true)
			return err
		})
	}
	if r.Thorough {
		longSpacings(r, 130, 20)
	} else {
		longSpacings(r, 33, 8)
	}
}

// commentContents: every text of a few pieces as the content of a comment, before, within and behind a grammar.
func commentContents(r *Run, grams []*synGram) {
	pieces := []string{" ", "\t", "\n", "\r", "a", "*", "/", "\"", "`", "'", "\\", "\u00e9", "\u00a0", "%", "$"}
	n := 3
	if r.Thorough {
		n = 4
	}
	var contents []string
	wordsUpTo(n, len(pieces), func(w []int) {
		s := ""
		for _, i := range w {
			s += pieces[i]
		}
		if !strings.Contains(s+"*", "*/") {
			contents = append(contents, s)
		}
	})
	gs := []*synGram{grams[0], grams[3], grams[9], grams[16]}
	r.Par(len(contents), func(w, i int) {
		r.mark(w, func() string { return fmt.Sprintf("formatting comments of %q", contents[i]) })
		var cs []string
		cs = append(cs, "/*"+contents[i]+"*/", "\n/*b"+contents[i]+"b*/\n\n", "/*"+contents[i]+"*/ /*"+contents[i]+"*/")
		if !strings.Contains(contents[i], "\n") {
			cs = append(cs, "//"+contents[i]+"\n", "//"+contents[i]+"b\r\n\n")
		}
		for gi, g := range gs {
			ts, sem := g.toks(), g.sem()
			for _, c := range cs {
				for _, pos := range []int{0, len(ts) / 2, len(ts)} {
					if gi > 0 && pos != len(ts)/2 {
						continue
					}
					text := joinToks(ts[:pos]) + c + joinToks(ts[pos:])
					var parsed bool
					err := guard(func() (err error) { parsed, err = checkFormat(text, sem, false); return err })
					if err != nil {
						r.Violation("format | "+text, err.Error(), text)
					}
					r.States.Add(1)
					if parsed {
						r.Traces.Add(1)
						r.Transitions.Add(5)
					}
				}
			}
		}
	})
	r.Bound("comments of %d contents, of up to %d of %d pieces", len(contents), n, len(pieces))
}

// ---- C30

// The two listed findings of the json form; anything else it loses is a violation of its own.
const (
	jsonUTF8       = "json form: string constant with invalid UTF-8"
	jsonEmptyBytes = "json form: empty bytes constant"
)

var (
	invalidByte = regexp.MustCompile(`\\x[89a-f][0-9a-f]`)
	emptyBytes  = regexp.MustCompile(`bytes:([ )]|$)`)
)

// jsonLosses is the meaning that is left after replacing invalid UTF-8 and dropping empty bytes constants.
func jsonLosses(sem string) string {
	return emptyBytes.ReplaceAllString(invalidByte.ReplaceAllString(sem, "\ufffd"), "$1")
}

func checkC30(r *Run) {
	gs := append(synGrams(level(r)), longSynGrams(map[bool]int{false: 36, true: 300}[r.Thorough])...)
	for _, l := range sweepLits(r.Thorough) {
		if l.expr != nil {
			p := spNode(snLit(l), spBuiltin(0, seLit(l)), true)
			gs = append(gs, &synGram{main: &p})
		}
	}
	for _, built := range []bool{false, true} {
		kind := "parsed"
		if built {
			kind = "built"
		}
		get := func(g *synGram) (*ast.Grammar, error) {
			if built {
				return g.build(), nil
			}
			return parseGram(spaced(g.toks(), " "))
		}
		same := func(what string, g, c *ast.Grammar, sem string) error {
			r.Traces.Add(1)
			r.Transitions.Add(2)
			if got := semGrammar(c); got != sem {
				return fmt.Errorf("%s gives\n%s\ninstead of\n%s", what, got, sem)
			}
			if !g.Equal(c) {
				return fmt.Errorf("%s gives a grammar that is not Equal: %q and %q", what, g.String(), c.String())
			}
			if a, b := g.String(), c.String(); a != b {
				return fmt.Errorf("%s prints %q, the original %q", what, b, a)
			}
			if s := sharing(g, c); s != "" {
				return fmt.Errorf("%s shares memory with the original: %s", what, s)
			}
			return nil
		}
		eachGram(r, "cloning and marshalling a "+kind+" grammar", gs, func(s *synGram, text string) error {
			g, err := get(s)
			if err != nil {
				return err
			}
			before := dumpFull(g)
			sem := s.sem()
			if err := same("cloning", g, g.Clone(), sem); err != nil {
				return err
			}
			data, err := g.Marshal()
			if err != nil {
				return fmt.Errorf("marshalling: %v", err)
			}
			u := &ast.Grammar{}
			if err := u.Unmarshal(data); err != nil {
				return fmt.Errorf("unmarshalling: %v", err)
			}
			if err := same("marshalling", g, u, sem); err != nil {
				return err
			}
			for i := range data {
				data[i] ^= 0x55 // the copy must not live in the buffer it was read from
			}
			if got := semGrammar(u); got != sem {
				return fmt.Errorf("the unmarshalled grammar changes with the buffer it was read from: %s", got)
			}
			for i := range data {
				data[i] ^= 0x55
			}
			if data2, err := u.Marshal(); err != nil || !bytes.Equal(data, data2) {
				return fmt.Errorf("marshalling again gives other bytes (%v)", err)
			}
			js, err := json.Marshal(g)
			if err != nil {
				return fmt.Errorf("marshalling to json: %v", err)
			}
			j := &ast.Grammar{}
			if err := json.Unmarshal(js, j); err != nil {
				return fmt.Errorf("unmarshalling from json: %v", err)
			}
			if got := semGrammar(j); got != sem && got == jsonLosses(sem) {
				if strings.Contains(sem, "\\x") {
					r.Violation(jsonUTF8, "marshalling to json replaces invalid UTF-8 in a string constant: "+text, text)
				}
				if emptyBytes.MatchString(sem) {
					r.Violation(jsonEmptyBytes, "marshalling to json loses an empty []byte{} constant: "+text, text)
				}
			} else if err := same("marshalling to json", g, j, sem); err != nil {
				return err
			}
			refs := ast.NewRefLookup(g)
			for n, p := range refs.Clone() {
				if semPattern(p) != semPattern(refs[n]) || sharing(p, refs[n]) != "" {
					return fmt.Errorf("cloning the lookup table changes or shares %q", n)
				}
			}
			if after := dumpFull(g); after != before {
				return fmt.Errorf("the original changed from\n%s\nto\n%s", before, after)
			}
			return nil
		})
	}
}

// sharing tells whether two values share mutable memory (pointers, non-empty slices, maps).
func sharing(x, y interface{}) string {
	seen := map[uintptr]string{}
	var walk func(v reflect.Value, path string, f func(p uintptr, path string) bool) bool
	walk = func(v reflect.Value, path string, f func(p uintptr, path string) bool) bool {
		switch v.Kind() {
		case reflect.Ptr:
			if v.IsNil() || v.Type().Elem().Size() == 0 {
				return true
			}
			return f(v.Pointer(), path) && walk(v.Elem(), path, f)
		case reflect.Interface:
			if v.IsNil() {
				return true
			}
			return walk(v.Elem(), path, f)
		case reflect.Struct:
			for i := 0; i < v.NumField(); i++ {
				if !walk(v.Field(i), path+"."+v.Type().Field(i).Name, f) {
					return false
				}
			}
		case reflect.Slice:
			if v.Cap() > 0 && !f(v.Pointer(), path+"[]") {
				return false
			}
			for i := 0; i < v.Len(); i++ {
				if !walk(v.Index(i), fmt.Sprintf("%s[%d]", path, i), f) {
					return false
				}
			}
		}
		return true
	}
	walk(reflect.ValueOf(x), "", func(p uintptr, path string) bool { seen[p] = path; return true })
	found := ""
	walk(reflect.ValueOf(y), "", func(p uintptr, path string) bool {
		if q, ok := seen[p]; ok {
			found = path + " and " + q
			return false
		}
		return true
	})
	return found
}

// ---- C07

type grammarOp struct {
	name string
	f    func(g *ast.Grammar) error
}

func grammarOps(withSimplify bool) []grammarOp {
	labels := []*Label{strLabel("a"), numLabel(1)}
	u := newUniverse(labels, 2, 2, 2, func(l int) bool { return l == 0 })
	run := func(v validateFunc) error {
		tp := newTreeParser(nil)
		for _, f := range u.Forests {
			tp.Init(f.Trees)
			v(tp) // an error of a predicate is fine here
		}
		return nil
	}
	nop := func(interface{}) {}
	return []grammarOp{
		{"printing", func(g *ast.Grammar) error { nop(g.String()); return nil }},
		{"printing as Go", func(g *ast.Grammar) error { nop(g.GoString()); return nil }},
		{"preparing and validating", func(g *ast.Grammar) error {
			m, err := mem.New(g)
			if err != nil {
				return nil
			}
			return run(m.Validate)
		}},
		{"preparing and validating records", func(g *ast.Grammar) error {
			m, err := mem.NewRecord(g)
			if err != nil {
				return nil
			}
			return run(m.Validate)
		}},
		{"interning and interpreting", func(g *ast.Grammar) error {
			return run(func(p parserInterface) (bool, error) { return intern.Interpret(g, true, p) })
		}},
		{"interpreting", func(g *ast.Grammar) error {
			return run(func(p parserInterface) (bool, error) { return interp.Interpret(g, p) })
		}},
		{"simplifying", func(g *ast.Grammar) error {
			s := interp.NewSimplifier(g).Grammar()
			nop(s.String())
			return nil
		}},
		{"simplifying for records and interpreting that", func(g *ast.Grammar) error {
			s := interp.NewSimplifier(g).OptimizeForRecord().Grammar()
			return run(func(p parserInterface) (bool, error) { return intern.Interpret(s, false, p) })
		}},
		{"compiling", func(g *ast.Grammar) error {
			a, err := auto.Compile(g)
			if err != nil {
				return nil
			}
			return run(a.Validate)
		}},
		{"comparing and hashing", func(g *ast.Grammar) error {
			c := g.Clone()
			nop(g.Equal(c))
			for _, p := range ast.NewRefLookup(g) {
				nop(p.Hash())
				nop(p.Compare(c.TopPattern))
				nop(p.Equal(c.TopPattern))
			}
			return nil
		}},
		{"checking for recursion", func(g *ast.Grammar) error { nop(interp.HasRecursion(g)); return nil }},
		{"looking for negation", func(g *ast.Grammar) error { nop(ast.HasNot(g)); return nil }},
		{"marshalling", func(g *ast.Grammar) error {
			_, err := g.Marshal()
			nop(err)
			_, err = json.Marshal(g)
			nop(err)
			return nil
		}},
	}
}

// closedUnderRefs tells whether every reference is defined and guarded, so that all operations apply.
func closedUnderRefs(sem string, g *synGram) bool {
	if strings.Contains(sem, "ref(x)") {
		if g.main == nil && strings.HasPrefix(g.decls[1].sem, "zany") {
			return true
		}
		if len(g.names) == 0 {
			return false
		}
		for i, n := range g.names {
			if n == "x" && strings.Contains(g.decls[i].sem, "ref(x)") {
				return false
			}
		}
	}
	return true
}

func checkC07(r *Run) {
	ops := grammarOps(true)
	gs := synGrams(level(r))
	var usable []*synGram
	for _, g := range gs {
		if closedUnderRefs(g.sem(), g) && (g.main != nil || g.names[0] == "main") {
			usable = append(usable, g)
		}
	}
	leaky := func(name string, get func(g *synGram) (*ast.Grammar, error), seqs [][]int, gs []*synGram) {
		eachGram(r, name, gs, func(s *synGram, text string) error {
			for _, seq := range seqs {
				g, err := get(s)
				if err != nil {
					return err
				}
				before := dumpFull(g)
				for _, o := range seq {
					if err := ops[o].f(g); err != nil {
						return fmt.Errorf("%s: %v", ops[o].name, err)
					}
					r.Transitions.Add(1)
				}
				r.Traces.Add(1)
				if after := dumpFull(g); after != before {
					var names []string
					for _, o := range seq {
						names = append(names, ops[o].name)
					}
					return fmt.Errorf("%s changes the grammar: from\n%s\nto\n%s", strings.Join(names, ", then "), before, after)
				}
			}
			return nil
		})
	}
	var singles, pairs, all [][]int
	var one []int
	for i := range ops {
		one = append(one, i)
		singles = append(singles, []int{i})
		for j := range ops {
			pairs = append(pairs, []int{i, j})
		}
	}
	all = [][]int{one}
	_ = singles
	parsed := func(g *synGram) (*ast.Grammar, error) { return parseGram(spaced(g.toks(), " /*c*/")) }
	built := func(g *synGram) (*ast.Grammar, error) { return g.build(), nil }
	long := longSynGrams(map[bool]int{false: 12, true: 40}[r.Thorough])
	var noCompile [][]int // the automaton of a long interleave is exponential in its length
	noCompile = append(noCompile, nil)
	for i, o := range ops {
		if o.name != "compiling" {
			noCompile[0] = append(noCompile[0], i)
		}
	}
	leaky("all operations but compiling on long parsed grammars", parsed, noCompile, long)
	leaky("all operations but compiling on long built grammars", built, noCompile, long)
	leaky("all operations on parsed grammars", parsed, all, usable)
	leaky("all operations on built grammars", built, all, usable)
	var few []*synGram
	for i, g := range usable {
		if i%7 == 0 || len(g.decls) > 1 && i%3 == 0 {
			few = append(few, g)
		}
	}
	leaky("every pair of operations on parsed grammars", parsed, pairs, few)
	// grammars with interesting operand sharing (see alias.go), through the text form
	sp := aliasSpace("")
	step := 4
	if r.Thorough {
		step = 1
	}
	r.Par(sp.N/step, func(w, i int) {
		text := sp.At(i * step).Text()
		r.mark(w, func() string { return text })
		err := guard(func() error {
			g, err := parseGram(text)
			if err != nil {
				return err
			}
			before := dumpFull(g)
			for _, o := range ops {
				if o.name == "compiling" {
					continue
				}
				if err := o.f(g); err != nil {
					return err
				}
				r.Transitions.Add(1)
				if after := dumpFull(g); after != before {
					return fmt.Errorf("%s changes the grammar", o.name)
				}
			}
			return nil
		})
		r.States.Add(1)
		r.Traces.Add(1)
		if err != nil {
			r.Violation("alias | "+text, fmt.Sprintf("grammar: %s\n%v", text, err), text)
		}
	})
	r.Bound("grammars with shared operands: %d", sp.N/step)
	inputsUntouched(r)
}
