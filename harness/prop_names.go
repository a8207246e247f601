package main

// C15: exported and unexported forms of names.

import (
	"go/token"
	"unicode"
	"unicode/utf8"

	"github.com/jhump/gopoet"
)

var nameSuffixes = []string{"", "b", "Bc", "_", "_X", "1", "é", "世", "ÀB", "\u0301", "\ufffd", "\xff", "a b"}

// refExport and refUnexport restate the documentation.
func refExport(r rune, s, rest string) string {
	switch {
	case token.IsExported(s):
		return s
	case r == '_':
		return "X" + rest
	case unicode.IsLetter(r) && unicode.IsUpper(unicode.ToUpper(r)):
		return string(unicode.ToUpper(r)) + rest
	default:
		return "X" + s
	}
}

func refUnexport(r rune, s, rest string) string {
	l := unicode.ToLower(r)
	if unicode.IsUpper(l) {
		return "x" + s
	}
	return string(l) + rest
}

const runeBlock = 1024

func nameCheck(x *X, s string) {
	x.Op()
	r, sz := utf8.DecodeRuneInString(s)
	if r == utf8.RuneError && sz <= 1 && s != "" {
		for _, f := range []func(string) string{gopoet.Export, gopoet.Unexport} {
			if _, p := catch(func() { f(s) }); !p {
				x.Fail("%q, which does not start with valid UTF-8, was accepted", s)
			}
		}
		return
	}
	e, u := gopoet.Export(s), gopoet.Unexport(s)
	if s == "" {
		if e != "" || u != "" {
			x.Fail("forms of the empty name: %q %q", e, u)
		}
		return
	}
	rest := s[sz:]
	if !token.IsExported(e) {
		x.Fail("Export(%q) = %q is not exported", s, e)
	}
	if token.IsExported(u) {
		x.Fail("Unexport(%q) = %q is exported", s, u)
	}
	if token.IsIdentifier(s) || token.IsKeyword(s) {
		if !token.IsIdentifier(e) {
			x.Fail("Export(%q) = %q is not an identifier", s, e)
		}
		if !token.IsIdentifier(u) && !token.IsKeyword(u) {
			x.Fail("Unexport(%q) = %q is not an identifier", s, u)
		}
	}
	if w := refExport(r, s, rest); e != w {
		x.Fail("Export(%q) = %q, wanted %q", s, e, w)
	}
	if w := refUnexport(r, s, rest); u != w {
		x.Fail("Unexport(%q) = %q, wanted %q", s, u, w)
	}
	if e2 := gopoet.Export(e); e2 != e {
		x.Fail("Export(Export(%q)) = %q, Export gives %q", s, e2, e)
	}
	if u2 := gopoet.Unexport(u); u2 != u {
		x.Fail("Unexport(Unexport(%q)) = %q, Unexport gives %q", s, u2, u)
	}
	x.Saw(e)
	x.Saw(u)
}

func init() {
	register(&Prop{ID: "C15", Level: "model_checking",
		Rule:   "every Unicode code point as the first character, with every listed remainder, and every first byte that is not valid UTF-8, compared with the documented rule and with the language's own notion of exported and of identifiers",
		Assume: []string{"the remainder of a name is copied unchanged for all remainders as for the listed ones"},
		Harnesses: []*Harness{
			{Name: "runes", Body: func(x *X) {
				b := x.Choose((unicode.MaxRune + 1) / runeBlock)
				suf := Pick(x, nameSuffixes)
				x.Say("code points %#x to %#x followed by %q", b*runeBlock, (b+1)*runeBlock-1, suf)
				for r := rune(b * runeBlock); r < rune((b+1)*runeBlock); r++ {
					if r >= 0xD800 && r < 0xE000 {
						continue
					}
					nameCheck(x, string(r)+suf)
				}
			}},
			{Name: "words", Body: nameWord},
			{Name: "strings", Body: nameString},
			{Name: "bytes", Body: func(x *X) {
				b := x.Choose(129)
				suf := Pick(x, nameSuffixes)
				s := suf
				if b < 128 {
					s = string([]byte{byte(128 + b)}) + suf
				}
				x.Say("%q", s)
				nameCheck(x, s)
			}},
		}})
}
