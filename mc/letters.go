package main

import (
	"strconv"
)

// letterTexts are texts whose letters have several cases, several encodings or none.
func letterTexts(thorough bool) []string {
	out := []string{"", "a", "A", "s", "S", "\u017f", "k", "K", "\u212a", "i", "I", "\u0130", "\u0131", "i\u0307", "\u00df", "\u1e9e", "ss", "SS", "\u01c4", "\u01c5", "\u01c6",
		"\u03a3", "\u03c3", "\u03c2", "\u00e9", "e\u0301", "\u00c9", "\u00b5", "\u03bc", "\u039c", "\u2126", "\u03c9", "\U00010400", "\U00010428", "\ufffd", "\xff", "\xc3", "\xc3\xa9", "\xa9", "\x00", "a\x00", "\u00a0", "\ufeff", "1", "\u0661", "[", "{", "@", "`"}
	n := len(out)
	for _, s := range out[1:n] {
		out = append(out, "x"+s, s+"x")
		if thorough {
			for _, t := range out[1:n] {
				out = append(out, s+t)
			}
		}
	}
	return out
}

// letterSweep is every function of one or two strings applied to every pair of letter texts, one of which is the value.
func letterSweep(r *Run, check func(w int, f *fx, ls []*Label)) {
	texts := letterTexts(r.Thorough)
	var ls []*Label
	for _, s := range texts {
		ls = append(ls, strLabel(s))
	}
	n := len(texts)
	if r.Thorough {
		texts = texts[:160]
	}
	r.Par(len(texts), func(w, i int) {
		c := fconst(strconv.Quote(texts[i]), vS(texts[i]))
		for _, f := range []string{"eqFold", "contains", "hasPrefix", "hasSuffix", "eq", "ne"} {
			check(w, fcall(f, fvar(tS), c), ls)
			check(w, fcall(f, c, fvar(tS)), ls)
		}
		for _, f := range []string{"toLower", "toUpper"} {
			check(w, fcall("eq", fcall(f, fvar(tS)), c), ls)
			check(w, fcall("eq", fcall(f, fvar(tS)), fcall(f, c)), ls)
			check(w, fcall("eqFold", fcall(f, fvar(tS)), c), ls)
		}
		check(w, fcall("eq", fcall("toLower", fcall("toUpper", fvar(tS))), c), ls)
		check(w, fcall("eq", fcall("toUpper", fcall("toLower", fvar(tS))), c), ls)
		check(w, fcall("eq", fcall("length", fvar(tS)), fcall("length", c)), ls)
	})
	for i, re := range []string{"^.$", "^..$", "(?i)^[sk]$", `^\pL+$`, `^\w$`, `^[a-z]+$`, `^\x{212a}`, `^[[:^ascii:]]`} {
		check(i%2, fcall("regex", fconst(strconv.Quote(re), vS(re)), fvar(tS)), ls)
	}
	r.Bound("letters: %d functions of one and two strings with each of %d texts x %d values, whose letters have several cases or encodings", 21, len(texts), n)
}
