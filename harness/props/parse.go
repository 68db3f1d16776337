package props

import (
	"fmt"
	"strings"

	urn "github.com/leodido/go-urn"

	"verif/harness/eng"
	"verif/harness/gen"
	"verif/harness/ref"
)

const ruleInputs = "inputs: every access string of the grammar x 256 bytes x suffixes, part lengths, texts of up to 16 MB, dictionary tokens (enumerated), grammar productions with 0-3 mutations and token soup (rapid and bulk), some by a machine that parsed others before. "

func init() {
	lang := func(id string, m ref.Mode) {
		ms := []ref.Mode{m}
		register(&eng.Prop{
			ID:    id,
			Rule:  ruleInputs + "Non-trivial: accepted, or rejected after a right 'urn:' prefix.",
			Setup: loadDict,
			Check: spelled(func(c *eng.Case, r *eng.Rec) error {
				want := ref.Parse(m, c.S(0))
				r.Nontrivial, r.Label = nontrivial(want), label(m, want)
				return checkAcceptance(m, c, want)
			}),
			Enumerate: enumModes(ms, 2),
			Draw:      drawMode(ms),
			Rapid:     600, RapidThorough: 20000,
			Bulk: 150000, BulkThorough: 12000000,
		})
	}
	lang("C01", ref.M2141)
	lang("C02", ref.M7643)
	lang("C03", ref.M8141)

	register(&eng.Prop{
		ID:        "C04",
		Rule:      ruleInputs + "Non-trivial: accepted by the library.",
		Setup:     loadDict,
		Check:     spelled(checkParts),
		Enumerate: enumModes(ref.Modes, 1),
		Draw: func(s gen.Src) *eng.Case {
			m := ref.Modes[s.Intn(3)]
			in := gen.Valid(s, m)
			if s.Intn(6) == 5 {
				in = gen.Mutate(s, in)
			}
			return withPrior(s, &eng.Case{Kind: "in", In: []string{in}, Num: []int{int(m)}})
		},
		Rapid: 600, RapidThorough: 20000,
		Bulk: 120000, BulkThorough: 6000000,
	})

	register(&eng.Prop{
		ID:    "C05",
		Rule:  ruleInputs + "One or more inputs parsed by one machine made with a list of options (all four modes and modes that do not exist), or whose mode is set between them, then by the package function. Non-trivial: some input starts with 'urn:' (any case).",
		Setup: loadDict,
		Check: spelled(checkOutcome),
		Enumerate: func(e *eng.Env, yield func(*eng.Case) bool) {
			for _, k := range []string{"nil", "empty"} {
				for _, opts := range optionLists() {
					if !yield(&eng.Case{Kind: k, In: []string{""}, Num: opts}) {
						return
					}
				}
			}
			for m := range ref.Modes {
				lvl, lens, lmax := 1, 70, 5000
				if e.Thorough() {
					lvl, lens, lmax = 2, 300, 70000
				}
				c := &eng.Case{Kind: "in", In: []string{""}, Num: []int{int(pmode[m])}}
				if !inputs(e, ref.Mode(m), lvl, lens, lmax, func(x string) bool { c.In[0] = x; return yield(c) }) || !huge(e, ref.Mode(m), c.Num, yield) {
					return
				}
			}
			i := 0
			for m := range ref.Modes {
				for _, p := range gen.TwinTexts(ref.Mode(m)) {
					if i++; i%e.Of == e.Shard && !yield(&eng.Case{Kind: "in", In: []string{p[0], p[1], p[0]}, Num: []int{m + 1}}) {
						return
					}
				}
			}
			for _, a := range typical {
				for s := 1; s < 5+len(weird); s++ {
					for k := 0; k < 6; k++ {
						if i++; i%e.Of == e.Shard && !yield(&eng.Case{Kind: "steps", In: []string{a, typical[(i*7)%len(typical)], a, a}, Num: []int{k % 5, s, (s+k)%14 + 1, k}}) {
							return
						}
					}
				}
			}
			for m := range ref.Modes {
				for _, a := range gen.Access(ref.Mode(m)) {
					for _, opts := range optionLists() {
						if i++; i%e.Of == e.Shard && !yield(&eng.Case{Kind: "in", In: []string{a, a + "x", a}, Num: opts}) {
							return
						}
					}
				}
			}
		},
		Draw: func(s gen.Src) *eng.Case {
			c := &eng.Case{Kind: "in"}
			m := ref.Modes[s.Intn(3)]
			for n := 1 + s.Intn(3); n > 0; n-- {
				c.In = append(c.In, gen.Input(s, m))
			}
			if s.Intn(6) == 5 {
				c.Kind = "steps"
				for k := 0; k < 4; k++ {
					c.In, c.Num = append(c.In, typical[s.Intn(len(typical))]), append(c.Num, s.Intn(5+len(weird)))
				}
				return c
			}
			switch s.Intn(4) {
			case 0, 1:
				c.Num = []int{int(pmode[m])}
			default:
				for n := s.Intn(4); n > 0; n-- {
					c.Num = append(c.Num, drawAnyMode(s))
				}
			}
			return c
		},
		Rapid: 400, RapidThorough: 15000,
		Bulk: 60000, BulkThorough: 3000000,
	})

	register(&eng.Prop{
		ID:        "C06",
		Rule:      ruleInputs + "Non-trivial: rejected after a right 'urn:' prefix; labels count each category of offence.",
		Setup:     loadDict,
		Check:     spelled(checkError),
		Enumerate: enumModes(ref.Modes, 1),
		Draw: func(s gen.Src) *eng.Case {
			m := ref.Modes[s.Intn(3)]
			in := gen.Input(s, m)
			if s.Intn(3) > 0 && ref.Parse(m, in).Accepted {
				for k := 0; k < 4 && ref.Parse(m, in).Accepted; k++ {
					in = gen.Mutate(s, in)
				}
			}
			return withPrior(s, &eng.Case{Kind: "in", In: []string{in}, Num: []int{int(m)}})
		},
		Rapid: 600, RapidThorough: 20000,
		Bulk: 120000, BulkThorough: 6000000,
	})
}

// weird modes do not exist
var weird = []int{-1, 4, 5, 100, -1 << 31, 1<<31 - 1, 255, 256, 1 << 40, -1 << 62, 6, 7, 8, 9, 10, 99}

func drawAnyMode(s gen.Src) int {
	if k := s.Intn(6); k < 4 {
		return k
	}
	return weird[s.Intn(len(weird))]
}

func optionLists() [][]int {
	out := [][]int{nil, {0}, {1}, {2}, {3}, {1, 2}, {2, 1}, {3, 0}, {0, 3}, {2, 3, 1}, {2, 0}, {3, 3}}
	for _, w := range weird[:4] {
		out = append(out, []int{w}, []int{2, w}, []int{w, 3}, []int{w, 0})
	}
	return out
}

func options(modes []int) (o []urn.Option) {
	for _, m := range modes {
		o = append(o, urn.WithParsingMode(urn.ParsingMode(m)))
	}
	return
}

func checkAcceptance(m ref.Mode, c *eng.Case, want *ref.URN) error {
	in := c.S(0)
	u, err := parse(m, in)
	acc := u != nil && err == nil
	if acc != want.Accepted {
		return fail("%s: input %s: accepted=%v (error: %v), the grammar says %v (%s at %d)", m, eng.Show(in), acc, err, want.Accepted, want.Err, want.Col)
	}
	if _, ok := urn.Parse([]byte(in), urn.WithParsingMode(pmode[m])); ok != want.Accepted {
		return fail("%s: input %s: the package function reports %v, the grammar says %v", m, eng.Show(in), ok, want.Accepted)
	}
	if err := elsewhere(m, in, u, err); err != nil {
		return err
	}
	if len(c.In) > 1 {
		mach := used(m, c)
		for k := 0; k < 2; k++ {
			u, err := mach.Parse([]byte(in))
			if acc := u != nil && err == nil; acc != want.Accepted {
				return fail("%s: input %s, parsed by a machine after %q (time %d): accepted=%v (error: %v), the grammar says %v", m, eng.Show(in), c.In[1:], k+1, acc, err, want.Accepted)
			}
		}
	}
	if in == "" {
		if _, err := urn.NewMachine(urn.WithParsingMode(pmode[m])).Parse(nil); err == nil {
			return fail("%s: a nil input is accepted", m)
		}
	}
	if m == ref.M2141 {
		if _, ok := urn.Parse([]byte(in)); ok != want.Accepted {
			return fail("no options: input %s: the package function reports %v, the grammar says %v", eng.Show(in), ok, want.Accepted)
		}
		u, err := urn.NewMachine().Parse([]byte(in))
		if acc := u != nil && err == nil; acc != want.Accepted {
			return fail("no options: input %s: accepted=%v (error: %v), the grammar says %v", eng.Show(in), acc, err, want.Accepted)
		}
	}
	return nil
}

func checkParts(c *eng.Case, r *eng.Rec) error {
	m, in := modeOf(c.At(0)), c.S(0)
	u := got(m, in)
	if u == nil {
		r.Label = m.String() + " not accepted"
		return nil
	}
	want := ref.Parse(m, in)
	r.Nontrivial, r.Label = true, label(m, want)
	str := u.String()
	if str != in && !(strings.HasSuffix(in, "#") && str == in[:len(in)-1]) {
		return fail("%s: input %s prints as %s", m, eng.Show(in), eng.Show(str))
	}
	if err := partsDiffer(m, u, want); want.Accepted && err != nil {
		return fail("%s: input %s: %v", m, eng.Show(in), err)
	}
	v, err := parse(m, str)
	if v == nil || err != nil {
		return fail("%s: input %s: its string form %s is rejected: %v", m, eng.Show(in), eng.Show(str), err)
	}
	if a, b := take(u), take(v); a != b {
		return fail("%s: input %s: parsing its string form again gives other parts: %+v, then %+v", m, eng.Show(in), a, b)
	}
	if len(c.In) > 1 {
		mach := used(m, c)
		for k := 0; k < 2; k++ {
			if w, err := mach.Parse([]byte(in)); w == nil || err != nil || take(w) != take(u) {
				return fail("%s: input %s, parsed by a machine after %q (time %d): %+v (error %v), should be %+v", m, eng.Show(in), c.In[1:], k+1, take(w), err, take(u))
			}
		}
	}
	if err := elsewhere(m, in, u, nil); err != nil {
		return err
	}
	// the package function decomposes alike
	if w, ok := urn.Parse([]byte(in), urn.WithParsingMode(pmode[m])); !ok || w == nil || take(w) != take(u) {
		return fail("%s: input %s: the package function gives other parts", m, eng.Show(in))
	}
	return nil
}

func partsDiffer(m ref.Mode, u *urn.URN, want *ref.URN) error {
	cmp := func(what, g, w string) error {
		if g != w {
			return fmt.Errorf("%s is %s, should be %s", what, eng.Show(g), eng.Show(w))
		}
		return nil
	}
	for _, e := range []error{
		cmp("identifier", u.ID, want.ID), cmp("specific string", u.SS, want.SS),
		cmp("r-component", u.RComponent(), want.R), cmp("q-component", u.QComponent(), want.Q), cmp("f-component", u.FComponent(), want.F),
		cmp("string form", u.String(), want.String()),
	} {
		if e != nil {
			return e
		}
	}
	if m == ref.M7643 {
		s := u.SCIM()
		if s == nil {
			return fmt.Errorf("no SCIM view")
		}
		for _, e := range []error{cmp("SCIM type", s.Type.String(), want.SCIMType), cmp("SCIM name", s.Name, want.SCIMName), cmp("SCIM rest", s.Other, want.SCIMOther)} {
			if e != nil {
				return e
			}
		}
	}
	return nil
}

// checkSteps: Num[i] is what happens before input i is parsed: 0 nothing, 1..4
// a known mode is set, more an unknown one.
func checkSteps(c *eng.Case, r *eng.Rec) error {
	mach := urn.NewMachine()
	for i, in := range c.In {
		if len(in) >= 4 && strings.EqualFold(in[:4], "urn:") {
			r.Nontrivial = true
		}
		if k := c.At(i); k >= 5 {
			mach.WithParsingMode(urn.ParsingMode(weird[(k-5)%len(weird)]))
		} else if k > 0 {
			mach.WithParsingMode(urn.ParsingMode(k - 1))
		}
		u, err := mach.Parse([]byte(in))
		if (u == nil) == (err == nil) {
			return fail("settings %v, input %d %s: URN nil: %v, error: %v", c.Num, i, eng.Show(in), u == nil, err)
		}
		for k := 1; k <= 1+i%3; k++ {
			if e := mach.Error(); !sameErr(e, err) {
				return fail("settings %v, input %d %s: Parse returned error %v, Error() returns %v (call %d)", c.Num, i, eng.Show(in), err, e, k)
			}
		}
	}
	r.Label = fmt.Sprintf("%s parses and modes on one machine", sizeClass(len(c.In)))
	return nil
}

func checkOutcome(c *eng.Case, r *eng.Rec) error {
	if c.Kind == "steps" {
		return checkSteps(c, r)
	}
	opts := c.Num
	mach := urn.NewMachine(options(opts)...)
	r.Label = fmt.Sprintf("%d inputs, modes %s", len(c.In), modesLabel(opts))
	for _, in := range c.In {
		if len(in) >= 4 && strings.EqualFold(in[:4], "urn:") {
			r.Nontrivial = true
		}
		buf := func() []byte {
			if c.Kind == "nil" {
				return nil
			}
			return []byte(in)
		}
		u, err := mach.Parse(buf())
		if (u == nil) == (err == nil) {
			return fail("modes %v, input %s: URN nil: %v, error: %v", opts, eng.Show(in), u == nil, err)
		}
		for k := 1; k <= 2; k++ {
			if e := mach.Error(); !sameErr(e, err) {
				return fail("modes %v, input %s: Parse returned error %v, Error() returns %v (call %d)", opts, eng.Show(in), err, e, k)
			}
		}
		v, ok := urn.Parse(buf(), options(opts)...)
		if ok != (v != nil) {
			return fail("modes %v, input %s: Parse reports %v, URN nil: %v", opts, eng.Show(in), ok, v == nil)
		}
		fm := urn.NewMachine(options(opts)...)
		f, ferr := fm.Parse(buf())
		if (f == nil) == (ferr == nil) {
			return fail("modes %v, input %s, new machine: URN nil: %v, error: %v", opts, eng.Show(in), f == nil, ferr)
		}
		if e := fm.Error(); !sameErr(e, ferr) {
			return fail("modes %v, input %s: Parse returned error %v, Error() returns %v", opts, eng.Show(in), ferr, e)
		}
		if ok != (f != nil) || take(v) != take(f) {
			return fail("modes %v, input %s: the package function gives %+v, a new machine %+v", opts, eng.Show(in), take(v), take(f))
		}
	}
	return nil
}

func modesLabel(opts []int) string {
	if len(opts) == 0 {
		return "none"
	}
	switch n := opts[len(opts)-1]; {
	case n < 0 || n > 3:
		return "unknown last"
	default:
		return fmt.Sprint(n, " last")
	}
}

// the documented message of each category of offence
var message = map[ref.Category]string{
	ref.EPrefix:     `expecting the prefix to be the "urn" string (whatever case)`,
	ref.EID:         `expecting the identifier to be string (1..31 alnum chars, also containing dashes but not at its beginning)`,
	ref.ENoURN:      `expecting the identifier to not contain the "urn" reserved string`,
	ref.ESS:         `expecting the specific string to be a string containing alnum, hex, or others ([()+,-.:=@;$_!*']) chars`,
	ref.EHex:        `expecting the percent encoded chars to be well-formed (%alnum{2})`,
	ref.ESCIMNs:     `expecing the SCIM namespace identifier (ietf:params:scim)`,
	ref.ESCIMType:   `expecting a correct SCIM type (schemas, api, param)`,
	ref.ESCIMName:   `expecting one or more alnum char in the SCIM name part`,
	ref.ESCIMOther:  `expecting a well-formed other SCIM part`,
	ref.ESCIMEmpty:  `expecting a not empty SCIM other part after colon`,
	ref.EInformal:   `informal URN namespace must be in the form urn-[1-9][0-9]`,
	ref.E8141ID:     `expecting the indentifier to be a string with (length 2 to 32 chars) containing alnum (or dashes) not starting or ending with a dash`,
	ref.E8141SS:     `expecting the specific string to contain alnum, hex, or others ([~&()+,-.:=@;$_!*'] or [/?] not in first position) chars`,
	ref.ERepeatR:    `expecting only one r-component (starting with the ?+ sequence)`,
	ref.ERepeatQ:    `expecting only one q-component (starting with the ?= sequence)`,
	ref.EMalformedR: `expecting a non-empty r-component containing alnum, hex, or others ([~&()+,-.:=@;$_!*'] or [/?] but not at its beginning)`,
	ref.EMalformedQ: `expecting a non-empty q-component containing alnum, hex, or others ([~&()+,-.:=@;$_!*'] or [/?] but not at its beginning)`,
}

// afterEscape: the text before col ends with a complete percent-encoding.
func afterEscape(in string, col int) bool {
	if col < 3 || col > len(in) || in[col-3] != '%' {
		return false
	}
	for _, ch := range []byte(in[col-2 : col]) {
		if !('0' <= ch && ch <= '9' || 'a' <= ch && ch <= 'z' || 'A' <= ch && ch <= 'Z') {
			return false
		}
	}
	return true
}

func checkError(c *eng.Case, r *eng.Rec) error {
	m, in := modeOf(c.At(0)), c.S(0)
	want := ref.Parse(m, in)
	r.Label = label(m, want)
	r.Nontrivial = !want.Accepted && want.Err != ref.EPrefix
	if want.Accepted {
		return nil
	}
	u, err := parse(m, in)
	if err == nil {
		if u != nil {
			return nil // wrongly accepted: C01-C03 are about that
		}
		return fail("%s: rejected input %s has no error", m, eng.Show(in))
	}
	if len(c.In) > 1 {
		mach := used(m, c)
		for k := 0; k < 2; k++ {
			_, e := mach.Parse([]byte(in))
			if e == nil || e.Error() != err.Error() {
				return fail("%s: input %s, parsed by a machine after %q (time %d): error %v, else %v", m, eng.Show(in), c.In[1:], k+1, e, err)
			}
		}
	}
	if err := elsewhere(m, in, u, err); err != nil {
		return err
	}
	text := err.Error()
	suffix := fmt.Sprintf(" [col %d]", want.Col)
	if !strings.HasSuffix(text, suffix) {
		return fail("%s: input %s: error %q, but the first offence (%s) is at column %d", m, eng.Show(in), text, want.Err, want.Col)
	}
	msg := strings.TrimSuffix(text, suffix)
	if msg == message[want.Err] {
		return nil
	}
	switch want.Err {
	case ref.ETrailer:
		if msg != "" {
			return nil
		}
	case ref.ESS, ref.E8141SS, ref.EMalformedR, ref.EMalformedQ:
	default:
		return fail("%s: input %s: error %q, should be %q", m, eng.Show(in), text, message[want.Err]+suffix)
	}
	if afterEscape(in, want.Col) && msg == message[ref.EHex] {
		return nil
	}
	return fail("%s: input %s: error %q, should be %q", m, eng.Show(in), text, message[want.Err]+suffix)
}
