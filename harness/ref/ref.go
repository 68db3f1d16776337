// Package ref is an independent reference model of the URN grammars the
// library documents: RFC 2141 (default), RFC 7643 SCIM URNs and RFC 8141.
//
// It is a plain left-to-right recogniser written from the grammars; it shares
// no code, tables or structure with the library's generated state machine.
package ref

import "strings"

// Mode selects the grammar.
type Mode int

const (
	M2141 Mode = iota
	M7643
	M8141
)

var Modes = []Mode{M2141, M7643, M8141}

func (m Mode) String() string {
	return [...]string{"RFC2141", "RFC7643", "RFC8141"}[m]
}

// Category names the part of the input that an error is about.
type Category string

const (
	OK          Category = ""
	EPrefix     Category = "prefix"
	EID         Category = "identifier"
	ENoURN      Category = "identifier-is-urn"
	ESS         Category = "specific-string"
	EHex        Category = "percent-encoding"
	ESCIMNs     Category = "scim-namespace"
	ESCIMType   Category = "scim-type"
	ESCIMName   Category = "scim-name"
	ESCIMOther  Category = "scim-other"
	ESCIMEmpty  Category = "scim-other-incomplete"
	EInformal   Category = "informal-namespace"
	E8141ID     Category = "identifier-8141"
	E8141SS     Category = "specific-string-8141"
	ERepeatR    Category = "r-component-repeated"
	ERepeatQ    Category = "q-component-repeated"
	EMalformedR Category = "r-component-malformed"
	EMalformedQ Category = "q-component-malformed"
	ETrailer    Category = "components" // neither ?+ nor ?= after the NSS, or a bad byte in the fragment
)

// URN is what a conforming parser reports for an accepted input, or the
// category and byte column of the first offence for a rejected one.
type URN struct {
	Accepted bool

	Prefix  string
	ID      string
	SS      string
	Norm    string // SS with every %XX lowercased
	R, Q, F string
	HasF    bool // a '#' was present (F may be empty)

	SCIMType, SCIMName, SCIMOther string

	Err Category
	Col int
}

// String is the reassembled form: the input, less a bare trailing '#'.
func (u *URN) String() string {
	s := u.Prefix + ":" + u.ID + ":" + u.SS
	if u.R != "" {
		s += "?+" + u.R
	}
	if u.Q != "" {
		s += "?=" + u.Q
	}
	if u.F != "" {
		s += "#" + u.F
	}
	return s
}

// NormString is the normalised form.
func (u *URN) NormString() string {
	return "urn:" + Lower(u.ID) + ":" + u.Norm
}

func isDigit(c byte) bool { return '0' <= c && c <= '9' }
func isUpper(c byte) bool { return 'A' <= c && c <= 'Z' }
func isLower(c byte) bool { return 'a' <= c && c <= 'z' }
func isAlpha(c byte) bool { return isUpper(c) || isLower(c) }
func isAlnum(c byte) bool { return isDigit(c) || isAlpha(c) }

// isTrans: the characters RFC 2141 allows unescaped in the NSS.
func isTrans(c byte) bool {
	return isAlnum(c) || (c != 0 && strings.IndexByte("()+,-.:=@;$_!*'", c) >= 0)
}

// isPchar1: one-byte RFC 8141 pchars (the rest are %XX).
func isPchar1(c byte) bool { return isTrans(c) || c == '~' || c == '&' }

// Lower lowercases ASCII letters only.
func Lower(s string) string {
	b := []byte(s)
	for i, c := range b {
		if isUpper(c) {
			b[i] = c + 'a' - 'A'
		}
	}
	return string(b)
}

// LowerEscapes lowercases the two characters after every '%'.
func LowerEscapes(s string) string {
	b := []byte(s)
	for i := 0; i < len(b); i++ {
		if b[i] != '%' {
			continue
		}
		for k := 1; k <= 2 && i+k < len(b); k++ {
			if isUpper(b[i+k]) {
				b[i+k] += 'a' - 'A'
			}
		}
		i += 2
	}
	return string(b)
}

type scanner struct {
	in  string
	p   int
	out *URN
}

func (s *scanner) eof() bool { return s.p >= len(s.in) }

// peek returns the byte at offset k from the cursor, or -1 past the end.
func (s *scanner) peek(k int) int {
	if s.p+k < len(s.in) {
		return int(s.in[s.p+k])
	}
	return -1
}

func (s *scanner) is(k int, f func(byte) bool) bool {
	c := s.peek(k)
	return c >= 0 && f(byte(c))
}

func (s *scanner) fail(c Category, col int) bool {
	s.out.Err, s.out.Col = c, col
	return false
}

// escape consumes one %XX at the cursor. It reports the offset of the first
// bad byte when it is malformed.
func (s *scanner) escape() (ok bool, bad int) {
	for k := 1; k <= 2; k++ {
		if !s.is(k, isAlnum) {
			return false, s.p + k
		}
	}
	s.p += 3
	return true, 0
}

// Parse decides input under mode.
func Parse(mode Mode, input string) *URN {
	s := &scanner{in: input, out: &URN{}}
	ok := s.prefix()
	if ok {
		switch mode {
		case M2141:
			ok = s.rfc2141()
		case M7643:
			ok = s.rfc7643()
		case M8141:
			ok = s.rfc8141()
		}
	}
	if !ok {
		return &URN{Err: s.out.Err, Col: s.out.Col}
	}
	s.out.Accepted = true
	s.out.Norm = LowerEscapes(s.out.SS)
	return s.out
}

func (s *scanner) prefix() bool {
	for _, want := range []byte("urn") {
		if !s.is(0, func(c byte) bool { return c == want || c == want-32 }) {
			return s.fail(EPrefix, s.p)
		}
		s.p++
	}
	if s.peek(0) != ':' {
		return s.fail(EPrefix, s.p)
	}
	s.out.Prefix = s.in[:3]
	s.p++
	return true
}

func (s *scanner) rfc2141() bool {
	start := s.p
	for {
		n := s.p - start
		if n > 0 && s.peek(0) == ':' {
			break
		}
		good := s.is(0, isAlnum) || (n > 0 && s.peek(0) == '-')
		if !good || n >= 32 {
			return s.fail(EID, s.p)
		}
		s.p++
	}
	s.out.ID = s.in[start:s.p]
	if Lower(s.out.ID) == "urn" {
		return s.fail(ENoURN, s.p)
	}
	s.p++
	start = s.p
	if s.eof() {
		return s.fail(ESS, s.p)
	}
	for !s.eof() {
		switch {
		case s.is(0, isTrans):
			s.p++
		case s.peek(0) == '%':
			if ok, bad := s.escape(); !ok {
				return s.fail(EHex, bad)
			}
		default:
			return s.fail(ESS, s.p)
		}
	}
	s.out.SS = s.in[start:]
	return true
}

func (s *scanner) rfc7643() bool {
	const ns = "ietf:params:scim"
	for _, want := range []byte(ns + ":") {
		if s.peek(0) != int(want) {
			return s.fail(ESCIMNs, s.p)
		}
		s.p++
	}
	s.out.ID = ns
	start := s.p
	// the type: the longest common prefix with a known type decides the column
	rest := s.in[s.p:]
	best := 0
	for _, t := range []string{"schemas:", "api:", "param:"} {
		n := 0
		for n < len(t) && n < len(rest) && t[n] == rest[n] {
			n++
		}
		if n == len(t) {
			s.out.SCIMType = t[:len(t)-1]
		}
		if n > best {
			best = n
		}
	}
	if s.out.SCIMType == "" {
		return s.fail(ESCIMType, s.p+best)
	}
	s.p += len(s.out.SCIMType) + 1
	nameStart := s.p
	for s.is(0, isAlnum) {
		s.p++
	}
	if s.p == nameStart || (!s.eof() && s.peek(0) != ':') {
		return s.fail(ESCIMName, s.p)
	}
	s.out.SCIMName = s.in[nameStart:s.p]
	if !s.eof() {
		s.p++
		otherStart := s.p
		if s.eof() {
			return s.fail(ESCIMEmpty, s.p-1)
		}
		for !s.eof() {
			switch {
			case s.is(0, isTrans):
				s.p++
			case s.peek(0) == '%':
				if ok, bad := s.escape(); !ok {
					if bad >= len(s.in) {
						return s.fail(ESCIMEmpty, bad-1)
					}
					return s.fail(ESCIMOther, bad)
				}
			default:
				return s.fail(ESCIMOther, s.p)
			}
		}
		s.out.SCIMOther = s.in[otherStart:]
	}
	s.out.SS = s.in[start:]
	return true
}

func (s *scanner) rfc8141() bool {
	start := s.p
	for {
		n := s.p - start
		if n >= 2 && s.peek(0) == ':' && s.in[s.p-1] != '-' {
			break
		}
		good := s.is(0, isAlnum) || (n > 0 && n < 31 && s.peek(0) == '-')
		if !good || n >= 32 {
			return s.fail(E8141ID, s.p)
		}
		if n == 4 && Lower(s.in[start:s.p]) == "urn-" && s.is(0, func(c byte) bool { return isAlpha(c) || c == '0' }) {
			return s.fail(EInformal, s.p-1)
		}
		s.p++
	}
	s.out.ID = s.in[start:s.p]
	s.p++
	// NSS
	start = s.p
	for {
		first := s.p == start
		switch {
		case s.is(0, isPchar1), !first && s.peek(0) == '/':
			s.p++
			continue
		case s.peek(0) == '%':
			if ok, bad := s.escape(); !ok {
				return s.fail(EHex, bad)
			}
			continue
		case !first && (s.eof() || s.peek(0) == '?' || s.peek(0) == '#'):
		default:
			return s.fail(E8141SS, s.p)
		}
		break
	}
	s.out.SS = s.in[start:s.p]
	if s.peek(0) == '?' {
		switch s.peek(1) {
		case '+':
			s.p += 2
			if !s.rComponent() {
				return false
			}
		case '=':
		default:
			return s.fail(ETrailer, s.p+1)
		}
	}
	if s.peek(0) == '?' { // at a ?= that opens the q-component
		s.p += 2
		if !s.qComponent() {
			return false
		}
	}
	if s.peek(0) == '#' {
		s.p++
		start = s.p
		for !s.eof() {
			switch {
			case s.is(0, isPchar1), s.peek(0) == '/', s.peek(0) == '?':
				s.p++
			case s.peek(0) == '%':
				if ok, bad := s.escape(); !ok {
					return s.fail(EHex, bad)
				}
			default:
				return s.fail(ETrailer, s.p)
			}
		}
		s.out.F, s.out.HasF = s.in[start:], true
	}
	return true
}

func (s *scanner) opensPchar(k int) bool { return s.is(k, isPchar1) || s.peek(k) == '%' }

// rComponent consumes the r-component whose "?+" was just read. It ends at the
// end of input, at '#', or at a "?=" which a pchar follows (and which opens the
// q-component). A second "?+" is an error, unless a '/' follows.
func (s *scanner) rComponent() bool {
	return s.component(EMalformedR, ERepeatR, '+', &s.out.R)
}

func (s *scanner) qComponent() bool {
	return s.component(EMalformedQ, ERepeatQ, '=', &s.out.Q)
}

func (s *scanner) component(malformed, repeated Category, opener int, dst *string) bool {
	start := s.p
	for {
		first := s.p == start
		switch {
		case first && s.peek(0) == '?' && s.peek(1) == opener && s.peek(2) != '/':
			if _, bad := s.bad(2); bad {
				return s.fail(malformed, s.p+2)
			}
			return s.fail(repeated, s.p+2)
		case first && s.peek(0) == '?':
			col := s.p + 1
			if s.peek(1) == opener {
				col++
			}
			return s.fail(malformed, col)
		case s.is(0, isPchar1), !first && s.peek(0) == '/':
			s.p++
		case s.peek(0) == '%':
			if ok, bad := s.escape(); !ok {
				return s.fail(EHex, bad)
			}
		case !first && s.peek(0) == '?':
			if s.peek(1) == opener && s.peek(2) != '/' {
				if _, bad := s.bad(2); bad {
					return s.fail(malformed, s.p+2)
				}
				return s.fail(repeated, s.p+2)
			}
			if opener == '+' && s.peek(1) == '=' && s.opensPchar(2) {
				*dst = s.in[start:s.p]
				return true
			}
			s.p++
		case !first && (s.eof() || s.peek(0) == '#'):
			*dst = s.in[start:s.p]
			return true
		default:
			return s.fail(malformed, s.p)
		}
	}
}

// bad reports whether the byte at offset k can follow nothing in a component.
func (s *scanner) bad(k int) (int, bool) {
	c := s.peek(k)
	if c < 0 || c == '%' || c == '/' || c == '?' || c == '#' || isPchar1(byte(c)) {
		return 0, false
	}
	return 0, true
}
