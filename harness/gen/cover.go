package gen

import (
	"strings"

	"verif/harness/ref"
)

// Access returns strings that reach every state of the mode's grammar: every
// counter value of the identifier, every position inside keywords and escapes,
// and every context of the components.
func Access(mode ref.Mode) []string {
	seen := map[string]bool{}
	var out []string
	add := func(xs ...string) {
		for _, x := range xs {
			if !seen[x] {
				seen[x] = true
				out = append(out, x)
			}
		}
	}
	addPrefixes := func(x string) {
		for i := 0; i <= len(x); i++ {
			add(x[:i])
		}
	}
	addPrefixes("urn:")
	add("U", "uR", "UR", "uRN", "URN", "URN:", "uRn:")
	hex := []string{"%", "%4", "%a", "%A", "%4f", "%4F", "%a0", "%AF", "%Zz", "%41a", "%41%", "%41%B", "a%4", "a%4F", "A%AFz"}
	if mode == ref.M7643 {
		for _, t := range []string{"schemas", "api", "param"} {
			addPrefixes("urn:ietf:params:scim:" + t + ":core:2.0:%4Fa%AB:b")
		}
		base := "URN:ietf:params:scim:api:"
		for _, x := range []string{"c", "C", "9", "coreCORE09", "c:", "c::", "c:a:", "c:-", "c:A"} {
			add(base + x)
		}
		for _, h := range hex {
			add(base+"c:"+h, "urn:ietf:params:scim:schemas:Core:a:"+h)
		}
		return out
	}
	for k := 1; k <= 33; k++ {
		add("urn:"+strings.Repeat("a", k), "urn:"+strings.Repeat("Z", k-1)+"9")
		add("urn:a" + strings.Repeat("-", k-1))
		if k >= 3 {
			add("urn:urn"+strings.Repeat("x", k-3), "urn:URN"+strings.Repeat("-", k-3))
		}
		if k >= 4 {
			add("urn:urn-" + strings.Repeat("7", k-4))
		}
		add("urn:" + strings.Repeat("b", k) + ":")
	}
	for _, x := range []string{"u", "U", "ur", "uR", "Ur", "UR", "urn", "uRn", "URN", "ux", "urx", "u-", "ur-", "urn-", "URN-", "uRn-", "urn-7", "URN-7", "urn--",
		"urn-10", "urnurn", "urnurn-", "xurn", "xurn-", "xurn-a", "0urn-", "u1", "u12", "uci", "abc", "urm", "9", "A", "ietf", "ietf:params:scim"} {
		add("urn:"+x, "urn:"+x+":", "urn:"+x+":b")
	}
	nss := []string{"", "a", "A", "0", ":", "-", "a:", "urn:", "a%41", "("}
	if mode == ref.M8141 {
		nss = append(nss, "~", "&", "a/", "a//", "~/")
	}
	for _, id := range []string{"ab", "URNx", strings.Repeat("c", 32)} {
		for _, x := range append(nss, hex...) {
			add("urn:" + id + ":" + x)
		}
	}
	if mode == ref.M8141 {
		b := "urn:ab:x"
		comp := []string{"", "a", "A", "~", "a/", "a?", "a??", "a/?", "a?/", "a?+", "a?=", "a?+/", "a?=/", "a?=?", "a?+?", "a?=/?", "a?+/?", "a?=/?=", "a?+/?+", "a?=?=", "a??=", "a??+", "?", "?+", "?=", "/", "a?=+", "a?+=", "a%41?", "a%41?+", "a%41?="}
		for _, base := range []string{b, "urn:ab:x%4F"} {
			add(base+"?", base+"??", base+"/?")
			for _, open := range []string{"?+", "?=", "?+r?=", "?+r%AB?=", "?+r/?=", "?+r??=", "?+r?=/?="} {
				for _, c := range comp {
					add(base + open + c)
				}
				for _, h := range hex {
					add(base + open + h)
				}
				add(base+open+"a?=%", base+open+"a?=%4", base+open+"a?=%41", base+open+"a?=%41?", base+open+"a?+%", base+open+"a?+%4", base+open+"a?=b?", base+open+"a?=b?=")
			}
			for _, open := range []string{"#", "?+r#", "?=q#", "?+r?=q#", "?+r?#", "?=q?#", "?+r?=#"} {
				for _, c := range []string{"", "a", "/", "?", "a/", "a?", "?+", "?=", "~", "A"} {
					add(base + open + c)
				}
				for _, h := range hex {
					add(base + open + h)
				}
			}
		}
	}
	return out
}

// Suffixes tell states apart.
var Suffixes = []string{
	"", "a", "A", "0", "-", ":", ":x", "a:x", "x:y", "-a:x", "aa:xx", "n:x", "rn:x", "rnx:x", "-7:x", "-a:x", "-0:x", "n-a:x",
	"%", "%4", "%4F", "%zZ", "F", "4F", "4Fb", "/", "/a", "?", "?a", "?+", "?+a", "?+a?+b", "?=", "?=b", "?=b?=c", "?+a?=b#c", "+a", "=b", "+/", "=/",
	"#", "#f", "#f#", "#f?/", " ", "\n", "\nurn:a:b", "m:api:c", "s:c", "api:core", ":core:o", ":2.0:%aB", "\x00", "\x80",
}

var shortSuffixes = []string{"", "a", ":x", "a:x", "%4F", "4F", "F", "?+a", "?=b", "#f", "/a", "\n"}

// Reps are one byte of each class of the grammars, and the bytes next to the
// class borders.
const Reps = "aurnURNZzfFi09AG:%-+=?#/~&()@[`{^|\n\r \x00\xff\x7f"

// Cover enumerates access x byte x suffix (level 1), and with level 2 also
// access x Reps x Reps x short suffixes, and with level 3 access x 256 x 256.
// Items are dealt to shards by access string.
func Cover(mode ref.Mode, level, shard, of int, yield func(string) bool) {
	for i, a := range Access(mode) {
		if i%of != shard {
			continue
		}
		for c := 0; c < 256; c++ {
			m := a + string([]byte{byte(c)})
			for _, s := range Suffixes {
				if !yield(m + s) {
					return
				}
			}
		}
		for _, s := range Suffixes {
			if !yield(a + s) {
				return
			}
		}
		if level >= 2 {
			for x := 0; x < len(Reps); x++ {
				for y := 0; y < len(Reps); y++ {
					m := a + string([]byte{Reps[x], Reps[y]})
					for _, s := range shortSuffixes {
						if !yield(m + s) {
							return
						}
					}
				}
			}
		}
		if level >= 3 {
			for x := 0; x < 256; x++ {
				for y := 0; y < 256; y++ {
					m := a + string([]byte{byte(x), byte(y)})
					if !yield(m) || !yield(m+"a:x") {
						return
					}
				}
			}
		}
	}
}

var fillers = []string{"a", "Z", "0", "%4F", "%af", "%ZZ", ":", "-", "a-", "aA", ".", "urn", "urn:", "%4F%af", "a%AB", "(", "1.", "/", "?", "~", "&", "?a", "?/", "'"}

func fill(f string, n int) string {
	if f == "" {
		return ""
	}
	return strings.Repeat(f, n/len(f)+1)[:n]
}

// Lengths enumerates, for each part of the grammar and each filler, a part of
// each given length, well-formed and with the last byte spoilt.
func Lengths(mode ref.Mode, lens []int, shard, of int, yield func(string) bool) {
	i := 0
	emit := func(x string) bool {
		i++
		if i%of != shard {
			return true
		}
		return yield(x)
	}
	for _, n := range lens {
		for _, f := range fillers {
			p := fill(f, n)
			switch mode {
			case ref.M7643:
				const b = "urn:ietf:params:scim:"
				if !emit(b+"schemas:"+p) || !emit(b+"api:core:"+p) || !emit(b+"param:"+fill("n", n)+":"+f) || !emit(b+"param:c:"+p+" ") || !emit("URN:ietf:params:scim:api:C:a"+p+"%4F") {
					return
				}
			default:
				if n <= 70 {
					if !emit("urn:"+p) || !emit("urn:"+p+":x") || !emit("urn:a"+p+":x") || !emit("URN:z"+p+"0:X") {
						return
					}
				}
				if !emit("urn:ab:"+p) || !emit("URN:aB:a"+p+"%4F") || !emit("urn:ab:"+p+"%4") || !emit("urn:ab:"+p+"\n") {
					return
				}
				if n <= 70 && !emit("urn:"+fill("n", max(1, n%33))+":"+p+"A") {
					return
				}
				if mode == ref.M8141 {
					if !emit("urn:ab:x?+a"+p) || !emit("urn:ab:x?=a"+p) || !emit("urn:ab:x#"+p) || !emit("urn:ab:x?+a"+p+"?=b#c") || !emit("urn:ab:x?+r?=a"+p+"#f") || !emit("urn:ab:x?+r?=q#"+p+"%4F") ||
						!emit("urn:ab:x"+p+"?+"+f+p+"?=q"+p+"#"+p) || !emit("urn:ab:x?+"+p+" ") || !emit("urn:ab:x?="+p+" ") || !emit("urn:ab:x#"+p+" ") {
						return
					}
				}
			}
		}
	}
}

var tails = []string{"%4F", "%4-", "%-4", "%4%", "%%4", "%.F", "%4", "%", "-", "A", "~", "&", "/", "^", "?", "#", "?+", "?=", " ", "\n", "\x00", "\x80", "\xff", "\u00e9"}

// Tails enumerates inputs which have the given lengths as a whole, and whose
// offence, if any, is near their end.
func Tails(mode ref.Mode, lens []int, shard, of int, yield func(string) bool) {
	heads := []string{"urn:ab:a"}
	switch mode {
	case ref.M7643:
		heads = []string{"urn:ietf:params:scim:api:a", "urn:ietf:params:scim:param:c:a"}
	case ref.M8141:
		heads = append(heads, "urn:ab:x?+a", "urn:ab:x?=a", "urn:ab:x#a")
	}
	i := 0
	for _, n := range lens {
		for _, h := range heads {
			for _, t := range tails {
				for back := 0; back < 2; back++ {
					k := n - len(h) - len(t) - back
					if k < 0 {
						continue
					}
					if i++; i%of == shard && !yield(h+fill("n", k)+t+fill("n", back)) {
						return
					}
				}
			}
		}
	}
}

// Big enumerates inputs with one long part: around the limits of 16-bit
// numbers, and beyond.
func Big(mode ref.Mode, lens []int, shard, of int, yield func(string) bool) {
	i := 0
	emit := func(xs ...string) bool {
		for _, x := range xs {
			if i++; i%of == shard && !yield(x) {
				return false
			}
		}
		return true
	}
	for _, n := range lens {
		for _, f := range []string{"a", "%4F", "aB%ab", ":"} {
			p := fill(f, n-n%len(f))
			ok := true
			if mode == ref.M7643 {
				const b = "URN:ietf:params:scim:"
				name := fill("n", n)
				ok = emit(b+"schemas:"+name, b+"api:"+name+":r%AB", b+"param:core:"+p, b+"api:core:"+p+"%AB", b+"api:core:"+p+" ", b+"param:"+name+"-", b+"api:core:"+p+"%4 ")
			} else {
				ok = emit("urn:ab:"+p, "URN:aB:"+p+"%AB", "urn:ab:"+p+" ", "urn:ab:"+p+"%4", "urn:"+p+":x")
			}
			if ok && mode == ref.M8141 {
				ok = emit("urn:ab:x?+a"+p, "urn:ab:x?=a"+p, "urn:ab:x#"+p, "urn:ab:"+p+"?+r?=q#f", "urn:ab:x?+r"+p+"?=q"+p+"#f"+p, "urn:ab:x?+r"+p+" ", "urn:ab:x?=q"+p+"?=", "urn:ab:x#"+p+"#")
			}
			if !ok {
				return
			}
		}
	}
}

// BigLens are the lengths of Big.
var BigLens = []int{5000, 16384, 32768, 65500, 65536, 65537, 70001, 140000}

// Wraps enumerates accepted inputs with something before, behind or around.
func Wraps(mode ref.Mode, two bool, shard, of int, yield func(string) bool) {
	bases := []string{"urn:ab:x", "URN:a-b:%4F:y"}
	switch mode {
	case ref.M7643:
		bases = []string{"urn:ietf:params:scim:api:c", "URN:ietf:params:scim:schemas:core:2.0:User"}
	case ref.M8141:
		bases = append(bases, "urn:ab:x?+r", "urn:ab:x?=q", "urn:ab:x?+r?=q#f", "urn:ab:x#")
	}
	i := 0
	emit := func(xs ...string) bool {
		for _, x := range xs {
			if i++; i%of == shard && !yield(x) {
				return false
			}
		}
		return true
	}
	toks := append(append(append([]string{}, Dict.Tokens...), specials...), wellKnown...)
	for _, b := range bases {
		for _, t := range toks {
			if !emit(t+b, b+t, t+b+t, b[:4]+t+b[4:], b+t+b) {
				return
			}
		}
		for _, w := range [][2]string{{"<", ">"}, {"\"", "\""}, {"'", "'"}, {"(", ")"}, {"[", "]"}, {"{", "}"}, {"<URN:", ">"}, {"url:", ""}, {"URL:", ""}, {"uri:", ""}, {"\xef\xbb\xbf", "\x00"}, {"\xff\xfe", ""}, {"b'", "'"}, {"&lt;", "&gt;"}} {
			if !emit(w[0]+b, b+w[1], w[0]+b+w[1]) {
				return
			}
		}
		for x := 0; x < 256; x++ {
			for y := 0; y < 256; y++ {
				if y > 0 && !two {
					break
				}
				t := string([]byte{byte(x), byte(y)})
				if !emit(t[:1]+b, b+t[:1], t[:1]+b+t[:1], t+b, b+t) {
					return
				}
			}
		}
	}
}

// LensFor lists the lengths enumerated by a tier: everything up to upTo,
// powers of two and their neighbours, and the harvested ones.
func LensFor(upTo, maxLen int) []int {
	var out []int
	seen := map[int]bool{}
	add := func(n int) {
		if n >= 0 && n <= maxLen && !seen[n] {
			seen[n] = true
			out = append(out, n)
		}
	}
	for n := 0; n <= upTo; n++ {
		add(n)
	}
	for p := 64; p <= maxLen; p *= 2 {
		add(p - 1)
		add(p)
		add(p + 1)
	}
	for _, l := range Dict.Lengths {
		for d := -2; d <= 2; d++ {
			add(l + d)
		}
	}
	return out
}

// Tokens enumerates each dictionary token as each whole part, at the begin and
// at the end of each part, and pairs of parts.
func Tokens(mode ref.Mode, shard, of int, yield func(string) bool) {
	toks := append(append([]string{}, Dict.Tokens...), append(wellKnown, specials...)...)
	i := 0
	emit := func(x string) bool {
		i++
		if i%of != shard {
			return true
		}
		return yield(x)
	}
	for _, t := range toks {
		for _, v := range []string{t, strings.ToUpper(t), strings.ToLower(t)} {
			if mode == ref.M7643 {
				const b = "urn:ietf:params:scim:"
				for _, ty := range []string{"schemas", "api", "param"} {
					for _, x := range []string{b + ty + ":" + v, b + ty + ":a" + v, b + ty + ":" + v + "a", b + ty + ":core:" + v, b + ty + ":core:a" + v, b + ty + ":core:" + v + "a", b + ty + ":" + v + ":" + v} {
						if !emit(x) {
							return
						}
					}
				}
				if !emit(b+v) || !emit(b+v+":core") || !emit("urn:"+v+":api:core") || !emit(v+":ietf:params:scim:api:core") {
					return
				}
				continue
			}
			for _, x := range []string{v, v + ":a:b", "urn:" + v, "urn:" + v + ":b", "urn:" + v + "a:b", "urn:a" + v + ":b", "urn:ab:" + v, "urn:ab:a" + v, "urn:ab:" + v + "a", "urn:ab:a" + v + "b", "urn:ab:" + v + v, "urn:ab:" + v + ":" + v, "urn:ab:%4F" + v + "%4F"} {
				if !emit(x) {
					return
				}
			}
			if mode == ref.M8141 {
				for _, x := range []string{"urn:ab:x?+" + v, "urn:ab:x?+a" + v, "urn:ab:x?+" + v + "a", "urn:ab:x?=" + v, "urn:ab:x?=a" + v, "urn:ab:x?=" + v + "a", "urn:ab:x#" + v, "urn:ab:x#a" + v, "urn:ab:x#" + v + "a", "urn:ab:x?+" + v + "?=" + v + "#" + v} {
					if !emit(x) {
						return
					}
				}
			}
			for _, w := range toks {
				if len(v)+len(w) <= 48 {
					if !emit("urn:" + v + ":" + w) {
						return
					}
				}
			}
		}
	}
}
