package gen

import (
	"strings"

	"verif/harness/ref"
)

const (
	lowers = "abcdefghijklmnopqrstuvwxyz"
	uppers = "ABCDEFGHIJKLMNOPQRSTUVWXYZ"
	digits = "0123456789"
	alnums = lowers + uppers + digits
	trans  = "()+,-.:=@;$_!*'"
)

var wellKnown = []string{
	"example", "ietf", "oid", "uuid", "lex", "isbn", "uci", "nbn", "issn", "x", "a", "foo", "urnx", "urnurn",
	"params", "scim", "schemas", "api", "param", "core", "User", "2.0", "extension", "enterprise", "messages", "ListResponse",
}

var specials = []string{
	"urn", "URN", "Urn", "urn:", "?+", "?=", "?", "#", "/", "//", "::", ":", "%", "%41", "%4a", "%4A", "%zz", "%ZZ", "%Z9", "%%", "~", "&",
	"-", "--", "+", "=", "?+a", "?=b", "#f", "?=/", "?+/", "??", "urn-", "urn-7", "urn-0", "urn-a", "\n", "\r", "\x00", " ", "\t",
	"\xff", "\xc3\xa9", "\xe2\x84\xaa", "\u017f", "\xef\xbb\xbf", "\xfe\xff", "\u00a0", "\u200b", "\u2028", "\r\n", "\v", "\f", "\x1a", "\x85", "[", "]", "{", "|", "\\", "^", "`", "\"", "<", ">", "\x7f", "\x80",
	"ietf:params:scim:", "schemas:", "api:", "param:", "urn:ietf:params:scim:", ":core", "core:2.0:User",
}

func tok(s Src) string {
	switch s.Intn(4) {
	case 0:
		return pick(s, wellKnown)
	case 1, 2:
		if len(Dict.Tokens) > 0 {
			return pick(s, Dict.Tokens)
		}
	}
	return pick(s, specials)
}

// Len is a length: mostly small, sometimes medium, rarely large or one that a
// literal of the sources suggests.
func Len(s Src) int {
	switch k := s.Intn(40); {
	case k < 24:
		return s.Intn(9)
	case k < 34:
		return s.Intn(41)
	case k < 38:
		return s.Intn(301)
	case k < 39:
		return s.Intn(3001)
	default:
		if n := len(Dict.Lengths); n > 0 {
			l := Dict.Lengths[s.Intn(n)]
			if l > 20000 {
				l = 20000
			}
			return max(0, l-1+s.Intn(3))
		}
		return s.Intn(600)
	}
}

func caseMix(s Src, str string) string {
	b := []byte(str)
	switch s.Intn(4) {
	case 1:
		return strings.ToUpper(str)
	case 2:
		for i := range b {
			if s.Intn(2) == 1 {
				b[i] = flipCase(b[i])
			}
		}
	case 3:
		if len(b) > 0 {
			i := s.Intn(len(b))
			b[i] = flipCase(b[i])
		}
	}
	return string(b)
}

func flipCase(c byte) byte {
	switch {
	case 'a' <= c && c <= 'z':
		return c - 32
	case 'A' <= c && c <= 'Z':
		return c + 32
	}
	return c
}

func prefix(s Src) string {
	if s.Intn(4) == 3 {
		return caseMix(s, "urn")
	}
	return "urn"
}

// only keeps the bytes of str allowed by ok.
func only(str string, ok func(c byte) bool) string {
	b := make([]byte, 0, len(str))
	for i := 0; i < len(str); i++ {
		if ok(str[i]) {
			b = append(b, str[i])
		}
	}
	return string(b)
}

func isAlnum(c byte) bool { return strings.IndexByte(alnums, c) >= 0 }

func alnumRun(s Src, n int) string {
	b := make([]byte, n)
	set := lowers
	switch s.Intn(5) {
	case 1:
		set = alnums
	case 2:
		set = uppers
	case 3:
		set = digits
	case 4: // one repeated byte
		c := pickb(s, alnums)
		for i := range b {
			b[i] = c
		}
		return string(b)
	}
	for i := range b {
		b[i] = pickb(s, set)
	}
	return string(b)
}

// NID is an identifier that is valid in the mode.
func NID(s Src, mode ref.Mode) string {
	lo := 1
	if mode == ref.M8141 {
		lo = 2
	}
	var id string
	switch s.Intn(8) {
	case 0, 1:
		id = alnumRun(s, lo+s.Intn(8))
	case 2:
		id = alnumRun(s, lo+s.Intn(32-lo+1))
	case 3:
		id = alnumRun(s, 29+s.Intn(4))
	case 4:
		id = caseMix(s, pick(s, []string{"urnx", "urna", "u", "ur", "urnurn", "urn1", "xurn", "u1n", "urm", "uri", "uci", "ur-n", "urn--7", "urn-7", "urn-12", "xurn-a", "u-n"}))
	case 5:
		id = only(tok(s), func(c byte) bool { return isAlnum(c) || c == '-' })
	case 6:
		n := 2 + s.Intn(31)
		b := []byte(alnumRun(s, n))
		for k := 1 + s.Intn(n); k > 0; k-- {
			b[s.Intn(n)] = '-'
		}
		id = string(b)
	case 7:
		id = pick(s, wellKnown)
		id = only(id, isAlnum)
	}
	if s.Intn(3) == 2 {
		id = caseMix(s, id)
	}
	// repair
	id = strings.TrimLeft(id, "-")
	if len(id) > 32 {
		id = id[:32]
	}
	low := strings.ToLower(id)
	if mode == ref.M8141 {
		id = strings.TrimRight(id, "-")
		low = strings.ToLower(id)
		if strings.HasPrefix(low, "urn-") && len(id) > 4 && (id[4] == '0' || id[4] >= 'A') && id[4] != '-' {
			id = "x" + id[1:]
		}
		for len(id) < 2 {
			id += "a"
		}
	} else {
		if id == "" {
			id = "a"
		}
		if low == "urn" {
			id += "x"
		}
	}
	return id
}

// esc is one percent-encoding.
func esc(s Src) string {
	switch s.Intn(6) {
	case 0:
		return "%41"
	case 1:
		const h = "0123456789abcdef"
		return string([]byte{'%', pickb(s, h), pickb(s, h)})
	case 2:
		const h = "0123456789ABCDEF"
		return string([]byte{'%', pickb(s, h), pickb(s, h)})
	case 3:
		return string([]byte{'%', pickb(s, uppers), pickb(s, uppers)})
	case 4:
		return pick(s, []string{"%2C", "%2c", "%00", "%FF", "%fF", "%Ff", "%3A", "%25", "%2F", "%5D", "%aZ", "%Az", "%0A"})
	}
	return string([]byte{'%', pickb(s, alnums), pickb(s, alnums)})
}

// chars is a run of units from trans, alphanumerics, escapes and extra.
func chars(s Src, n int, extra string) string {
	var b strings.Builder
	style := s.Intn(8)
	allowed := func(c byte) bool {
		return isAlnum(c) || strings.IndexByte(trans, c) >= 0 || strings.IndexByte(extra, c) >= 0
	}
	for i := 0; i < n; i++ {
		k := s.Intn(10)
		switch style {
		case 0: // plain
			k = 0
		case 1: // escapes mostly
			if k > 1 {
				k = 6
			}
		case 2: // punctuation mostly
			if k > 2 {
				k = 4
			}
		}
		switch {
		case k <= 2:
			b.WriteByte(pickb(s, alnums))
		case k == 3:
			b.WriteByte(':')
		case k == 4:
			b.WriteByte(pickb(s, trans))
		case k == 5:
			if extra != "" {
				b.WriteByte(pickb(s, extra))
			} else {
				b.WriteByte(pickb(s, trans))
			}
		case k == 6 || k == 7:
			b.WriteString(esc(s))
		case k == 8:
			b.WriteString(only(tok(s), allowed))
		case k == 9: // a doubled piece
			t := b.String()
			if len(t) > 0 && len(t) < 64 {
				b.WriteString(t)
			} else {
				b.WriteByte('a')
			}
		}
	}
	return b.String()
}

// NSS is a specific string valid in the mode.
func NSS(s Src, mode ref.Mode) string {
	extra := ""
	if mode == ref.M8141 {
		extra = "~&/"
	}
	if s.Intn(8) == 7 {
		if t := only(tok(s), func(c byte) bool {
			return isAlnum(c) || strings.IndexByte(trans, c) >= 0 || strings.IndexByte(extra, c) >= 0
		}); t != "" && t[0] != '/' {
			return t
		}
	}
	n := chars(s, 1+Len(s), extra)
	n = strings.TrimLeft(n, "/")
	if n == "" {
		n = "b"
	}
	return n
}

// SCIMParts are a valid type, name and rest.
func SCIMParts(s Src) (typ, name, other string) {
	typ = pick(s, []string{"schemas", "api", "param"})
	switch s.Intn(4) {
	case 0:
		name = alnumRun(s, 1+s.Intn(8))
	case 1:
		name = only(tok(s), isAlnum)
	case 2:
		name = alnumRun(s, 1+Len(s))
	case 3:
		name = pick(s, []string{"core", "extension", "messages", "schemas", "api", "param", "Schemas"})
	}
	if name == "" {
		name = "core"
	}
	switch s.Intn(4) {
	case 0:
	case 1, 2:
		other = NSS(s, ref.M7643)
	case 3:
		other = pick(s, []string{"2.0:User", "2.0:ListResponse", "enterprise:2.0:User:meta.lastModified", ":", "::", "a:", ":a", "%AB:%cd", "%"})
		if other == "%" {
			other = esc(s)
		}
	}
	return
}

// component is a well-formed r- or q-component (opener '+' or '='), free of a
// repeated opener and, for r, of an early q opener.
func component(s Src, opener byte) string {
	c := chars(s, 1+Len(s)/2, "~&/??")
	c = strings.TrimLeft(c, "/?")
	if c == "" {
		c = "c"
	}
	if s.Intn(4) == 3 {
		c += pick(s, []string{"?", "/", "??", "?a", "/?", "?/", "?" + string(opener) + "/x", "?" + string(opener) + "/"})
	}
	// repair: neutralise what would end or break it
	b := []byte(c)
	for i := 0; i+1 < len(b); i++ {
		if b[i] != '?' {
			continue
		}
		if b[i+1] == opener && !(i+2 < len(b) && b[i+2] == '/') {
			b[i] = '/'
		}
		if opener == '+' && b[i+1] == '=' {
			b[i] = '/'
		}
	}
	// a trailing '?' could join what follows
	return string(b)
}

func fragment(s Src) string {
	return chars(s, Len(s), "~&/?")
}

// Valid is an accepted input of the mode, by construction.
func Valid(s Src, mode ref.Mode) string {
	switch mode {
	case ref.M7643:
		t, n, o := SCIMParts(s)
		r := prefix(s) + ":ietf:params:scim:" + t + ":" + n
		if o != "" {
			r += ":" + o
		}
		return r
	case ref.M8141:
		r := prefix(s) + ":" + NID(s, mode) + ":" + NSS(s, mode)
		k := s.Intn(8)
		if k&1 != 0 {
			r += "?+" + component(s, '+')
		}
		if k&2 != 0 {
			r += "?=" + component(s, '=')
		}
		if k&4 != 0 {
			r += "#" + fragment(s)
		}
		return r
	}
	if s.Intn(10) == 9 {
		return Valid(s, ref.M7643)
	}
	return prefix(s) + ":" + NID(s, mode) + ":" + NSS(s, mode)
}

const anyByte = "a" + ":" + "%" + "?" + "#" + "/" + "-" + "+" + "=" + "~" + "&" + "A" + "0" + " " + "\n" + "@" + "\x00" + "\xff" + "["

// Mutate makes one small change.
func Mutate(s Src, str string) string {
	b := []byte(str)
	at := func(n int) int { // positions near the begin are the interesting ones of long strings
		if n > 48 && s.Intn(2) == 0 {
			n = 48
		}
		return s.Intn(n)
	}
	switch s.Intn(11) {
	case 0: // truncate
		if len(b) > 0 {
			return string(b[:s.Intn(len(b))])
		}
	case 1: // delete a byte
		if len(b) > 0 {
			i := at(len(b))
			return string(b[:i]) + string(b[i+1:])
		}
	case 2: // replace a byte with a typical one
		if len(b) > 0 {
			b[at(len(b))] = pickb(s, anyByte)
			return string(b)
		}
	case 3: // replace a byte with any
		if len(b) > 0 {
			b[at(len(b))] = byte(s.Intn(256))
			return string(b)
		}
	case 4: // insert a typical byte
		i := at(len(b) + 1)
		return string(b[:i]) + string([]byte{pickb(s, anyByte)}) + string(b[i:])
	case 5: // insert any byte
		i := at(len(b) + 1)
		return string(b[:i]) + string([]byte{byte(s.Intn(256))}) + string(b[i:])
	case 6: // insert a token
		i := at(len(b) + 1)
		return string(b[:i]) + tok(s) + string(b[i:])
	case 7: // duplicate a slice
		if len(b) > 0 {
			i := at(len(b))
			j := i + 1 + s.Intn(min(len(b)-i, 12))
			return string(b[:j]) + string(b[i:j]) + string(b[j:])
		}
	case 8: // flip the case of a byte
		if len(b) > 0 {
			i := at(len(b))
			b[i] = flipCase(b[i])
			return string(b)
		}
	case 9: // append a token
		return string(b) + tok(s)
	case 10: // swap two bytes
		if len(b) > 1 {
			i := at(len(b) - 1)
			b[i], b[i+1] = b[i+1], b[i]
			return string(b)
		}
	}
	return str + "a"
}

// Soup is a sequence of tokens, possibly after a valid begin.
func Soup(s Src, mode ref.Mode) string {
	var b strings.Builder
	switch s.Intn(4) {
	case 0:
	case 1:
		b.WriteString("urn:")
	case 2:
		b.WriteString(pick(s, []string{"urn:ab:x", "urn:ab:x?+a", "urn:ab:x?=b", "urn:ab:x#", "urn:ietf:params:scim:", "urn:ietf:params:scim:api:c:", "urn:urn", "urn:a:"}))
	case 3:
		v := Valid(s, mode)
		b.WriteString(v[:s.Intn(len(v)+1)])
	}
	for n := s.Intn(8); n > 0; n-- {
		b.WriteString(tok(s))
	}
	return b.String()
}

// Input is any input for the mode: valid, nearly valid, or token soup.
func Input(s Src, mode ref.Mode) string {
	k := s.Intn(20)
	switch {
	case k < 9:
		return Valid(s, mode)
	case k < 16:
		v := Valid(s, mode)
		if s.Intn(12) == 11 {
			v = Valid(s, ref.Modes[s.Intn(3)])
		}
		for n := 1 + s.Intn(3); n > 0; n-- {
			v = Mutate(s, v)
		}
		return v
	case k < 19:
		return Soup(s, mode)
	}
	b := make([]byte, s.Intn(24))
	for i := range b {
		b[i] = byte(s.Intn(256))
	}
	return string(b)
}

// Equivalent rewrites an accepted input into a lexically equivalent one of the
// same mode: other case of prefix, identifier and escapes, other components.
func Equivalent(s Src, mode ref.Mode, in string) string {
	u := ref.Parse(mode, in)
	if !u.Accepted {
		return in
	}
	p, id, ss := u.Prefix, u.ID, u.SS
	k := s.Intn(16)
	if k&1 != 0 {
		p = caseMix(s, p)
	}
	if k&2 != 0 && mode != ref.M7643 {
		id = caseMix(s, id)
	}
	if k&4 != 0 {
		b := []byte(ss)
		for i := 0; i+2 < len(b); i++ {
			if b[i] == '%' {
				for j := 1; j <= 2; j++ {
					if s.Intn(2) == 1 {
						b[i+j] = flipCase(b[i+j])
					}
				}
				i += 2
			}
		}
		ss = string(b)
	}
	r := p + ":" + id + ":" + ss
	if mode == ref.M8141 && k&8 != 0 {
		q := s.Intn(8)
		if q&1 != 0 {
			r += "?+" + component(s, '+')
		}
		if q&2 != 0 {
			r += "?=" + component(s, '=')
		}
		if q&4 != 0 {
			r += "#" + fragment(s)
		}
	}
	return r
}
