// Package eng runs properties: it drives the generators in parallel worker
// processes, attributes crashes and hangs to the case that caused them,
// minimises and confirms failures, and writes the evidence.
package eng

import (
	"encoding/base64"
	"encoding/binary"
	"errors"
	"fmt"
	"strconv"
	"strings"
	"unicode/utf8"
)

// Case is one generated case of a property. A Check must be total on it.
type Case struct {
	Kind string   // which of the property's sub-checks
	In   []string // byte strings
	Num  []int    // small numbers: modes, option lists, operation codes, sizes
}

// Encode is a compact, deterministic encoding.
func (c *Case) Encode(b []byte) []byte {
	b = binary.AppendUvarint(b, uint64(len(c.Kind)))
	b = append(b, c.Kind...)
	b = binary.AppendUvarint(b, uint64(len(c.In)))
	for _, s := range c.In {
		b = binary.AppendUvarint(b, uint64(len(s)))
		b = append(b, s...)
	}
	b = binary.AppendUvarint(b, uint64(len(c.Num)))
	for _, n := range c.Num {
		b = binary.AppendVarint(b, int64(n))
	}
	return b
}

var errEnc = errors.New("bad case encoding")

// Decode is the inverse of Encode.
func Decode(b []byte) (c *Case, err error) {
	defer func() {
		if recover() != nil {
			err = errEnc
		}
	}()
	uv := func() int {
		v, n := binary.Uvarint(b)
		if n <= 0 || v > 1<<30 {
			panic(errEnc)
		}
		b = b[n:]
		return int(v)
	}
	str := func() string {
		n := uv()
		s := string(b[:n])
		b = b[n:]
		return s
	}
	c = &Case{Kind: str()}
	for n := uv(); n > 0; n-- {
		c.In = append(c.In, str())
	}
	for n := uv(); n > 0; n-- {
		v, k := binary.Varint(b)
		if k <= 0 {
			panic(errEnc)
		}
		b = b[k:]
		c.Num = append(c.Num, int(v))
	}
	return c, nil
}

// B64 is the encoding as text.
func (c *Case) B64() string { return base64.StdEncoding.EncodeToString(c.Encode(nil)) }

// Show renders a byte string, abbreviating long ones.
func Show(s string) string {
	if len(s) > 160 {
		return fmt.Sprintf("%s...%s(%d bytes)", quote(s[:100]), quote(s[len(s)-30:]), len(s))
	}
	return quote(s)
}

func quote(s string) string {
	if utf8.ValidString(s) {
		return strconv.Quote(s)
	}
	return strconv.QuoteToASCII(s)
}

func (c *Case) String() string {
	var b strings.Builder
	b.WriteString(c.Kind)
	b.WriteByte('(')
	for i, s := range c.In {
		if i > 0 {
			b.WriteString(", ")
		}
		if i == 24 {
			fmt.Fprintf(&b, "... %d more", len(c.In)-i)
			break
		}
		b.WriteString(Show(s))
	}
	if len(c.Num) > 0 {
		n := c.Num
		if len(n) > 48 {
			n = n[:48]
		}
		fmt.Fprintf(&b, "; %v", n)
	}
	b.WriteByte(')')
	return b.String()
}

func (c *Case) clone() *Case {
	return &Case{Kind: c.Kind, In: append([]string{}, c.In...), Num: append([]int{}, c.Num...)}
}

// At returns Num[i], or 0 when there is none, so that checks are total.
func (c *Case) At(i int) int {
	if i < len(c.Num) {
		return c.Num[i]
	}
	return 0
}

// S returns In[i], or "".
func (c *Case) S(i int) string {
	if i < len(c.In) {
		return c.In[i]
	}
	return ""
}

func hash64(b []byte) uint64 {
	h := uint64(14695981039346656037)
	for _, c := range b {
		h ^= uint64(c)
		h *= 1099511628211
	}
	if h == 0 {
		h = 1
	}
	return h
}

// hset counts distinct hashes, up to a cap.
type hset struct {
	tab []uint64
	n   int
}

const hsetCap = 6 << 20

func (s *hset) add(h uint64) {
	if len(s.tab) == 0 {
		s.tab = make([]uint64, 1<<12)
	}
	if s.n >= hsetCap {
		return
	}
	if s.n*2 >= len(s.tab) {
		old := s.tab
		s.tab = make([]uint64, len(old)*2)
		for _, v := range old {
			if v != 0 {
				s.put(v)
			}
		}
	}
	if s.put(h) {
		s.n++
	}
}

func (s *hset) put(h uint64) bool {
	m := uint64(len(s.tab) - 1)
	for i := (h ^ h>>29) & m; ; i = (i + 1) & m {
		switch s.tab[i] {
		case 0:
			s.tab[i] = h
			return true
		case h:
			return false
		}
	}
}
