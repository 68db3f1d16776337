package gen

import (
	"strings"
	"unicode"
	"unicode/utf8"
)

// pairs of texts that some transformation of Unicode makes the same.
var lookalikes = [][2]string{
	{"é", "e\u0301"}, {"Å", "\u212b"}, {"K", "\u212a"}, {"k", "\u212a"}, {"s", "\u017f"}, {"S", "\u017f"}, {"ss", "ß"}, {"SS", "ẞ"}, {"i", "\u0131"}, {"I", "\u0130"}, {"i", "\u0130"}, {"µ", "μ"}, {"ﬀ", "ff"}, {"a", "а"}, {"A", "Ａ"}, {"1", "¹"}, {"0", "０"},
	{"ǆ", "ǅ"}, {"σ", "ς"}, {"θ", "ϑ"}, {"-", "\u2010"}, {":", "："}, {"%", "％"}, {" ", "\u00a0"}, {"\xff", "\ufffd"}, {"\xfe", "\xff"}, {"\xc3", "\ufffd"}, {"\x00", ""}, {" ", ""}, {"\u200b", ""}, {"\ufeff", ""}, {"\n", ""}, {"\r\n", "\n"}, {"\t", " "},
}

// Relate changes a text in a way that careless comparisons do not see.
func Relate(s Src, x string) string {
	switch s.Intn(6) {
	case 0, 1: // another letter of the same case folding orbit
		var at []int
		for i, r := range x {
			if r != utf8.RuneError && unicode.SimpleFold(r) != r {
				at = append(at, i)
			}
		}
		if len(at) == 0 {
			break
		}
		i := at[s.Intn(len(at))]
		r, n := utf8.DecodeRuneInString(x[i:])
		f := unicode.SimpleFold(r)
		if s.Intn(2) == 1 {
			if g := unicode.SimpleFold(f); g != r {
				f = g
			}
		}
		return x[:i] + string(f) + x[i+n:]
	case 2:
		return strings.ToUpper(x)
	case 3:
		return strings.ToLower(x)
	case 4:
		return strings.ToValidUTF8(x, "\ufffd")
	}
	p := lookalikes[s.Intn(len(lookalikes))]
	if s.Intn(2) == 1 {
		p[0], p[1] = p[1], p[0]
	}
	if p[0] == "" || !strings.Contains(x, p[0]) {
		i := s.Intn(len(x) + 1)
		return x[:i] + p[1] + x[i:]
	}
	n := strings.Count(x, p[0])
	k := s.Intn(n)
	parts := strings.SplitN(x, p[0], n+1)
	return strings.Join(parts[:k+1], p[0]) + p[1] + strings.Join(parts[k+1:], p[0])
}

// Lookalikes are the pairs that Relate uses.
func Lookalikes() [][2]string { return lookalikes }
