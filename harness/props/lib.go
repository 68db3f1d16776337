// Package props states the properties as executable checks.
package props

import (
	"errors"
	"fmt"
	"strings"

	urn "github.com/leodido/go-urn"

	"verif/harness/eng"
	"verif/harness/gen"
	"verif/harness/ref"
)

var all []*eng.Prop

func register(p *eng.Prop) {
	p.Check = understood(p.Check)
	all = append(all, p)
}

// ByID finds a property.
func ByID(id string) *eng.Prop {
	for _, p := range all {
		if p.ID == id {
			return p
		}
	}
	return nil
}

// IDs lists the properties.
func IDs() (out []string) {
	for _, p := range all {
		out = append(out, p.ID)
	}
	return
}

// the parsing mode and the kind that belong to a grammar
var (
	pmode = [...]urn.ParsingMode{urn.RFC2141Only, urn.RFC7643Only, urn.RFC8141Only}
	pkind = [...]urn.Kind{urn.RFC2141, urn.RFC7643, urn.RFC8141}
)

// modeOf maps any number to a grammar.
func modeOf(n int) ref.Mode { return ref.Mode(((n % 3) + 3) % 3) }

func loadDict(e *eng.Env) error {
	gen.LoadDict(e.Repo)
	return nil
}

func parse(m ref.Mode, in string) (*urn.URN, error) {
	return urn.NewMachine(urn.WithParsingMode(pmode[m])).Parse([]byte(in))
}

// placed copies a text to an address that is off modulo 8, without any capacity
// beyond its end.
func placed(in string, off int) []byte {
	b := make([]byte, off+len(in)+8) // allocations of 8 and more are aligned
	copy(b[off:], in)
	return b[off : off+len(in) : off+len(in)]
}

// elsewhere parses a text again at other addresses and compares with a result:
// at all offsets modulo 8 when it is short and a URN, at some otherwise.
func elsewhere(m ref.Mode, in string, u *urn.URN, err error) error {
	var buf [8 + 64]byte
	sum := uint32(len(in))
	for i := max(0, len(in)-48); i < len(in); i++ {
		sum = sum*31 + uint32(in[i])
	}
	sum ^= sum >> 15
	from := int(sum%7) + 1
	to := from + 1
	if len(in) <= 48 && (err == nil || sum&15 == 0) { // at all of them
		from, to = 1, 8
	}
	for off := from; off < to; off++ {
		var b []byte
		if len(in) <= 48 {
			b = buf[off : off+len(in) : off+len(in)]
			copy(b, in)
		} else {
			b = placed(in, off)
		}
		v, e := urn.NewMachine(urn.WithParsingMode(pmode[m])).Parse(b)
		if (u == nil) != (v == nil) || errText(err) != errText(e) {
			return fail("%s: input %s: accepted=%v (error: %v); at an address that is %d modulo 8: accepted=%v (error: %v)", m, eng.Show(in), u != nil, err, off, v != nil, e)
		}
		if u == nil {
			continue
		}
		if v.ID != u.ID || v.SS != u.SS || v.String() != u.String() {
			return fail("%s: input %s: %+v; at an address that is %d modulo 8: %+v", m, eng.Show(in), take(u), off, take(v))
		}
		if to > from+1 && off != int(sum%7)+1 { // everything at one of them
			continue
		}
		if want, g := take(u), take(v); g != want {
			return fail("%s: input %s: %+v; at an address that is %d modulo 8: %+v", m, eng.Show(in), want, off, g)
		}
	}
	return nil
}

// got parses and returns the URN, or nil when the library does not accept.
func got(m ref.Mode, in string) *urn.URN {
	u, err := parse(m, in)
	if err != nil {
		return nil
	}
	return u
}

// snap is everything observable about a URN.
type snap struct {
	Nil             bool
	ID, SS          string
	Str, Norm, JSON string
	R, Q, F         string
	Kind            urn.Kind
	IsSCIM, HasSCIM bool
	SType           int
	SName, SOther   string
	SStr            string
}

func take(u *urn.URN) snap {
	if u == nil {
		return snap{Nil: true}
	}
	s := snap{ID: strings.Clone(u.ID), SS: strings.Clone(u.SS), Str: strings.Clone(u.String()), R: strings.Clone(u.RComponent()), Q: strings.Clone(u.QComponent()), F: strings.Clone(u.FComponent()),
		Kind: u.RFC(), IsSCIM: u.IsSCIM()}
	if n := u.Normalize(); n != nil {
		s.Norm = strings.Clone(n.String())
	} else {
		s.Norm = "<nil>"
	}
	if v := u.SCIM(); v != nil {
		s.HasSCIM, s.SType, s.SName, s.SOther, s.SStr = true, int(v.Type), strings.Clone(v.Name), strings.Clone(v.Other), strings.Clone(v.String())
	}
	return s
}

// result is what a parse gave.
type result struct {
	U   snap
	Err string // "" for nil, else the text after a mark
}

func errText(err error) string {
	if err == nil {
		return ""
	}
	return "E:" + strings.Clone(err.Error())
}

// sameErr says whether both are the same error, or, where the type of the
// errors cannot be compared, whether they read the same.
func sameErr(a, b error) (same bool) {
	defer func() {
		if recover() != nil {
			same = errText(a) == errText(b)
		}
	}()
	return a == b
}

func resultOf(u *urn.URN, err error) result { return result{take(u), errText(err)} }

func (r result) String() string {
	if r.U.Nil {
		return fmt.Sprintf("no URN, error %q", r.Err)
	}
	return fmt.Sprintf("URN %+v, error %q", r.U, r.Err)
}

func (r result) accepted() bool { return !r.U.Nil && r.Err == "" }

func fail(format string, a ...any) error {
	err := fmt.Errorf(format, a...)
	if s := err.Error(); len(s) > 8000 { // long inputs
		return fmt.Errorf("%s ... %s", s[:5000], s[len(s)-2000:])
	}
	return err
}

var errNone = errors.New("")

// inputs enumerates the inputs of the finite layers for a grammar.
func inputs(e *eng.Env, m ref.Mode, coverLevel, lenUpTo, lenMax int, yield func(string) bool) bool {
	ok := true
	y := func(x string) bool {
		if ok {
			ok = yield(x)
		}
		return ok
	}
	gen.Cover(m, coverLevel, e.Shard, e.Of, y)
	if ok {
		gen.Lengths(m, gen.LensFor(lenUpTo, lenMax), e.Shard, e.Of, y)
	}
	if ok {
		gen.Tails(m, gen.LensFor(max(130, lenUpTo), lenMax), e.Shard, e.Of, y)
	}
	if ok {
		gen.Tokens(m, e.Shard, e.Of, y)
	}
	if ok {
		gen.Wraps(m, coverLevel >= 2, e.Shard, e.Of, y)
	}
	if ok {
		gen.Big(m, gen.BigLens, e.Shard, e.Of, y)
	}
	return ok
}

// enumModes enumerates the finite layers for the given grammars.
func enumModes(modes []ref.Mode, quickLevel int) func(e *eng.Env, yield func(*eng.Case) bool) {
	return func(e *eng.Env, yield func(*eng.Case) bool) {
		for _, m := range modes {
			lvl := quickLevel
			lens, lmax := 70, 5000
			if e.Thorough() {
				lvl = 3
				lens, lmax = 300, 70000
			}
			c := &eng.Case{Kind: "in", In: []string{""}, Num: []int{int(m)}}
			if !inputs(e, m, lvl, lens, lmax, func(x string) bool {
				c.In[0] = x
				return yield(c)
			}) || !twins(e, m, yield) || !huge(e, m, []int{int(m)}, yield) {
				return
			}
		}
	}
}

// twins enumerates texts after others with the same hash.
func twins(e *eng.Env, m ref.Mode, yield func(*eng.Case) bool) bool {
	for i, p := range gen.TwinTexts(m) {
		if i%e.Of != e.Shard {
			continue
		}
		if !yield(&eng.Case{Kind: "in", In: []string{p[1], p[0]}, Num: []int{int(m), int(m)}}) || !yield(&eng.Case{Kind: "in", In: []string{p[0], p[1]}, Num: []int{int(m), int(m)}}) {
			return false
		}
	}
	for i, x := range gen.TypeTwins {
		if m == ref.M7643 && i%e.Of == e.Shard && !yield(&eng.Case{Kind: "in", In: []string{"urn:ietf:params:scim:" + x + ":n"}, Num: []int{int(m)}}) {
			return false
		}
	}
	return true
}

// before does all there is to do with the texts after the first one.
func before(c *eng.Case) {
	for k := 1; k < len(c.In) && c.Kind == "in"; k++ {
		u, err := parse(modeOf(c.At(k)), c.In[k])
		if u == nil || err != nil {
			continue
		}
		n := u.Normalize()
		_, _ = n.Equal(u), n.String()
		u.MarshalJSON()
		if s := u.SCIM(); s != nil {
			s.MarshalJSON()
		}
	}
}

// drawMode draws an input of one of the grammars.
func drawMode(modes []ref.Mode) func(s gen.Src) *eng.Case {
	return func(s gen.Src) *eng.Case {
		m := modes[s.Intn(len(modes))]
		return withPrior(s, &eng.Case{Kind: "in", In: []string{gen.Input(s, m)}, Num: []int{int(m)}})
	}
}

// withPrior adds, to some cases, inputs that the machine parses first.
func withPrior(s gen.Src, c *eng.Case) *eng.Case {
	if s.Intn(4) < 3 {
		return c
	}
	for n := 1 + s.Intn(2); n > 0; n-- {
		m := ref.Modes[s.Intn(3)]
		x := c.In[0]
		switch s.Intn(4) {
		case 0: // the very same
		case 1:
			x = gen.Mutate(s, x)
		default:
			x = gen.Input(s, m)
		}
		c.In, c.Num = append(c.In, x), append(c.Num, int(m))
	}
	return c
}

// used is a machine of the given mode that has parsed the inputs after the
// first one, in the modes of the numbers after the first one.
func used(m ref.Mode, c *eng.Case) urn.Machine {
	mach := urn.NewMachine(urn.WithParsingMode(pmode[m]))
	for k := 1; k < len(c.In); k++ {
		mach.WithParsingMode(pmode[modeOf(c.At(k))])
		mach.Parse([]byte(c.In[k]))
	}
	mach.WithParsingMode(pmode[m])
	return mach
}

// label names the class of an input.
func label(m ref.Mode, r *ref.URN) string {
	if !r.Accepted {
		return m.String() + " rejected " + string(r.Err)
	}
	l := m.String() + " accepted"
	if r.R != "" {
		l += "+r"
	}
	if r.Q != "" {
		l += "+q"
	}
	if r.HasF {
		l += "+f"
	}
	return l
}

// nontrivial: accepted, or rejected after the prefix.
func nontrivial(r *ref.URN) bool { return r.Accepted || r.Err != ref.EPrefix }
