package gen

import (
	"fmt"
	"strings"
	"unicode/utf16"
	"unicode/utf8"
)

// JSONString renders v as a JSON string document, escaping characters in any
// of the ways JSON allows, with optional white space around.
func JSONString(s Src, v string) string {
	var b strings.Builder
	ws := func() {
		if s.Intn(12) == 11 {
			b.WriteString(pick(s, []string{" ", "\n", "\t", "\r\n", "  \t"}))
		}
	}
	ws()
	b.WriteByte('"')
	style := s.Intn(4) // 0 plain, 1 some, 2 all escaped, 3 some
	for len(v) > 0 {
		r, n := utf8.DecodeRuneInString(v)
		ch := v[:n]
		v = v[n:]
		if r == utf8.RuneError && n == 1 {
			b.WriteString(ch) // invalid UTF-8 goes through as is
			continue
		}
		must := r < 0x20 || r == '"' || r == '\\'
		do := must || style == 2 || (style&1 == 1 && s.Intn(6) == 5)
		if !do {
			b.WriteString(ch)
			continue
		}
		if short := map[rune]string{'"': `\"`, '\\': `\\`, '/': `\/`, '\n': `\n`, '\r': `\r`, '\t': `\t`, '\b': `\b`, '\f': `\f`}[r]; short != "" && s.Intn(2) == 0 {
			b.WriteString(short)
			continue
		}
		f := `\u%04x`
		if s.Intn(2) == 1 {
			f = `\u%04X`
		}
		if r >= 0x10000 {
			r1, r2 := utf16.EncodeRune(r)
			fmt.Fprintf(&b, f+f, r1, r2)
		} else {
			fmt.Fprintf(&b, f, r)
		}
	}
	b.WriteByte('"')
	ws()
	return b.String()
}

var otherJSON = []string{
	"null", "true", "false", "0", "1", "-1.5e3", "[]", "{}", `["urn:a:b"]`, `{"urn":"urn:a:b"}`, `{"ID":"a","SS":"b"}`, "", " ", `"`, `""`, `"urn:a:b`, `urn:a:b`, `"urn:a:b" x`,
	`"urn:a:b""urn:a:b"`, `"urn:a:\x"`, `"urn:a:\u00"`, `'urn:a:b'`, `"\ud800"`, `"urn:a:b\ud800"`, "\"urn:a:\x01\"", "\"urn:a:b\n\"", "nul", "[null]", `{"a":null}`, "\"\xff\"", "12345678901234567890", `"null"`, "\xef\xbb\xbf\"urn:a:b\"",
}

// JSONDoc is a JSON document: mostly a string holding an input made by value,
// sometimes another value, or a corrupt document.
func JSONDoc(s Src, value func() string) string {
	switch k := s.Intn(16); {
	case k < 12:
		return JSONString(s, value())
	case k < 14:
		return pick(s, otherJSON)
	default:
		d := JSONString(s, value())
		return Mutate(s, d)
	}
}

// OtherJSON lists documents which are not valid strings, or edge cases.
func OtherJSON() []string { return otherJSON }
