package props

import (
	"fmt"
	"strings"

	urn "github.com/leodido/go-urn"
	scimschema "github.com/leodido/go-urn/scim/schema"

	"verif/harness/eng"
	"verif/harness/gen"
	"verif/harness/ref"
)

func init() {
	register(&eng.Prop{
		ID:        "C07",
		Rule:      ruleInputs + "Also URNs built from an identifier and a specific string. Non-trivial: accepted by the library, or built.",
		Setup:     loadDict,
		Check:     spelled(checkNormalize),
		Enumerate: enumBuilt(enumModes(ref.Modes, 1)),
		Draw: func(s gen.Src) *eng.Case {
			m := ref.Modes[s.Intn(3)]
			if s.Intn(5) == 4 {
				id, ss := builtParts(s)
				return &eng.Case{Kind: "built", In: []string{id, ss}}
			}
			in := gen.Valid(s, m)
			if s.Intn(5) == 4 {
				in = gen.Tweak(s, m, in)
			}
			return &eng.Case{Kind: "in", In: []string{in}, Num: []int{int(m)}}
		},
		Rapid: 3000, RapidThorough: 40000,
		Bulk: 100000, BulkThorough: 6000000,
	})

	register(&eng.Prop{
		ID:        "C08",
		Rule:      "Two to four URNs, each parsed in some mode, normalized, built from its fields, or decoded from JSON; the texts are equivalent rewritings (case of prefix, identifier, escapes; other components) or differ in one place; all pairs are compared. Also URNs built from any bytes and ones that look like them (other letters of the case folding orbits, composed and decomposed, invalid UTF-8). Enumerated: every position of a set of URNs with its case flipped or its byte replaced. Non-trivial: at least two of the URNs exist.",
		Setup:     loadDict,
		Check:     checkEqual,
		Enumerate: enumEqual,
		Draw:      drawEqual,
		KeepIn:    true,
		Rapid:     3000, RapidThorough: 40000,
		Bulk: 100000, BulkThorough: 5000000,
	})

	register(&eng.Prop{
		ID:        "C15",
		Rule:      ruleInputs + "Also decoded from JSON, normalized and built URNs. Non-trivial: accepted by the library, or built.",
		Setup:     loadDict,
		Check:     spelled(checkKind),
		Enumerate: enumBuilt(enumModes(ref.Modes, 1)),
		Draw: func(s gen.Src) *eng.Case {
			m := ref.Modes[s.Intn(3)]
			if s.Intn(8) == 7 {
				id, ss := builtParts(s)
				return &eng.Case{Kind: "built", In: []string{id, ss}}
			}
			return &eng.Case{Kind: "in", In: []string{gen.Valid(s, m)}, Num: []int{int(m)}}
		},
		Rapid: 3000, RapidThorough: 40000,
		Bulk: 100000, BulkThorough: 5000000,
	})

	register(&eng.Prop{
		ID:        "C17",
		Rule:      ruleInputs + "Each input is parsed in all three modes. Non-trivial: accepted in at least one mode.",
		Setup:     loadDict,
		Check:     spelled(checkOverlap),
		Enumerate: enumModes(ref.Modes, 1),
		Draw:      drawMode(ref.Modes),
		Rapid:     3000, RapidThorough: 40000,
		Bulk: 100000, BulkThorough: 5000000,
	})
}

// builtParts are an identifier and a specific string of some grammar.
func builtParts(s gen.Src) (id, ss string) {
	m := ref.Modes[2*s.Intn(2)]
	return gen.NID(s, m), gen.NSS(s, m)
}

func enumBuilt(rest func(e *eng.Env, yield func(*eng.Case) bool)) func(e *eng.Env, yield func(*eng.Case) bool) {
	return func(e *eng.Env, yield func(*eng.Case) bool) {
		i := 0
		for _, m := range []ref.Mode{ref.M2141, ref.M8141} {
			for _, a := range gen.Access(m) {
				for _, x := range []string{"", "b", ":b", "4F"} {
					if u := ref.Parse(m, a+x); u.Accepted {
						if i++; i%e.Of == e.Shard && !yield(&eng.Case{Kind: "built", In: []string{u.ID, u.SS}}) {
							return
						}
					}
				}
			}
		}
		for _, n := range longLens(e) {
			for _, in := range [][]string{{"ab", lg("", "%AF", "")}, {"aB", lg("X", "%aF", "%B")}, {"ab", lg("xX%AA", "%FaX", "")}, {"ab", lg("", "x", "%AF")}} {
				if i++; i%e.Of == e.Shard && !yield(&eng.Case{Kind: longPrefix + "built", In: in, Num: []int{n}}) {
					return
				}
			}
		}
		rest(e, yield)
	}
}

// isURN says whether the two are all of a URN: its identifier and specific string.
func isURN(m ref.Mode, id, ss string) bool {
	in := "urn:" + id + ":" + ss
	u := ref.Parse(m, in)
	return u.Accepted && u.ID == id && u.SS == ss && u.String() == in
}

func checkNormalize(c *eng.Case, r *eng.Rec) error {
	var u *urn.URN
	var desc string
	m := ref.M8141
	if c.Kind == "built" {
		u = &urn.URN{ID: c.S(0), SS: c.S(1)}
		if !isURN(m, u.ID, u.SS) {
			if m = ref.M2141; !isURN(m, u.ID, u.SS) {
				return nil
			}
		}
		r.Label, desc = "built", fmt.Sprintf("built from %s and %s", eng.Show(u.ID), eng.Show(u.SS))
	} else {
		m = modeOf(c.At(0))
		if u = got(m, c.S(0)); u == nil {
			r.Label = m.String() + " not accepted"
			return nil
		}
		r.Label, desc = label(m, ref.Parse(m, c.S(0))), fmt.Sprintf("%s: input %s", m, eng.Show(c.S(0)))
	}
	r.Nontrivial = true
	id, ss := u.ID, u.SS
	str, rc, qc, fc, kind := u.String(), u.RComponent(), u.QComponent(), u.FComponent(), u.RFC()
	if c.Kind == "built" && str != "urn:"+id+":"+ss {
		return fail("%s: prints as %s", desc, eng.Show(str))
	}
	wantID, wantSS := ref.Lower(id), ref.LowerEscapes(ss)
	want := "urn:" + wantID + ":" + wantSS

	n := u.Normalize()
	if n == nil {
		return fail("%s: normalizes to nil", desc)
	}
	if n.String() != want || n.ID != wantID || n.SS != wantSS {
		return fail("%s: normalizes to %s (identifier %s, specific string %s), should be %s", desc, eng.Show(n.String()), eng.Show(n.ID), eng.Show(n.SS), eng.Show(want))
	}
	if n.RComponent() != "" || n.QComponent() != "" || n.FComponent() != "" {
		return fail("%s: the normalized URN has components", desc)
	}
	nn := n.Normalize()
	if nn.String() != want || nn.ID != wantID || nn.SS != wantSS {
		return fail("%s: normalizing twice gives %s, once %s", desc, eng.Show(nn.String()), eng.Show(want))
	}
	if take(nn) != take(n) {
		return fail("%s: normalizing twice gives %+v, once %+v", desc, take(nn), take(n))
	}
	if u.ID != id || u.SS != ss || u.String() != str || u.RComponent() != rc || u.QComponent() != qc || u.FComponent() != fc || u.RFC() != kind {
		return fail("%s: normalizing changed the URN to %+v", desc, take(u))
	}
	p, err := parse(m, want)
	if p == nil || err != nil {
		return fail("%s: its normalized form %s is rejected: %v", desc, eng.Show(want), err)
	}
	if p.String() != want || p.Normalize().String() != want {
		return fail("%s: the normalized form of its normalized form %s is %s", desc, eng.Show(want), eng.Show(p.Normalize().String()))
	}
	if c.Kind == "built" { // its fields may be set again
		for _, x := range [][2]string{{"zz", "Q"}, {"Y-y", "%AAx%BB"}, {u.ID, "%CC"}, {"Zz", u.SS}, {u.ID, u.SS}} {
			v := &urn.URN{ID: u.ID, SS: u.SS}
			v.Normalize()
			v.Equal(v)
			v.ID, v.SS = x[0], x[1]
			if g, w := v.Normalize().String(), "urn:"+ref.Lower(x[0])+":"+ref.LowerEscapes(x[1]); g != w || v.String() != "urn:"+x[0]+":"+x[1] {
				return fail("%s, normalized, then set to %q: it is %s and normalizes to %s, should be %s", desc, x, eng.Show(v.String()), eng.Show(g), eng.Show(w))
			}
		}
	}
	// the two do not share state
	n.ID, n.SS = "zz", "zz"
	if again := u.Normalize().String(); again != want || u.String() != str {
		return fail("%s: changing the normalized URN changes the original: %s, %s", desc, eng.Show(u.String()), eng.Show(again))
	}
	return nil
}

// how a URN of C08 comes to be
const (
	wParse      = iota // +mode
	wNorm       = 3    // +mode
	wBuilt      = 6
	wJSON       = 7
	wJSON8141   = 8
	wHalf       = 9 // parsed, its normalized form normalized again
	wBuiltCopy  = 10
	waysOfMaker = 11
)

// makeURN makes a URN from a text in one of the ways, with its normalized string.
func makeURN(way int, text string) (*urn.URN, string) {
	way = ((way % waysOfMaker) + waysOfMaker) % waysOfMaker
	m := ref.M2141
	switch {
	case way < wBuilt:
		m = ref.Mode(way % 3)
	case way == wJSON8141:
		m = ref.M8141
	case way == wBuilt, way == wHalf, way == wBuiltCopy:
		m = ref.M8141
		if !ref.Parse(m, text).Accepted {
			m = ref.M2141
		}
	}
	want := ref.Parse(m, text)
	if !want.Accepted {
		return nil, ""
	}
	u := got(m, text)
	if u == nil {
		return nil, ""
	}
	switch {
	case way < wNorm:
	case way < wBuilt:
		u = u.Normalize()
	case way == wBuilt:
		u = &urn.URN{ID: want.ID, SS: want.SS}
	case way == wJSON:
		u = &urn.URN{}
		if u.UnmarshalJSON([]byte(gen.JSONString(gen.NewPRNG(1), text))) != nil {
			return nil, ""
		}
	case way == wJSON8141:
		var x urn.URN8141
		if x.UnmarshalJSON([]byte(gen.JSONString(gen.NewPRNG(1), text))) != nil {
			return nil, ""
		}
		u = x.URN
	case way == wHalf:
		u = u.Normalize().Normalize()
	case way == wBuiltCopy:
		v := *u
		u = &v
	}
	return u, want.NormString()
}

// checkRaw: the fields of two or more URNs built by hand, not empty.
func checkRaw(c *eng.Case, r *eng.Rec) error {
	var us []*urn.URN
	for k := 0; 2*k+1 < len(c.In); k++ {
		if c.In[2*k] == "" || c.In[2*k+1] == "" {
			return nil
		}
		us = append(us, &urn.URN{ID: c.In[2*k], SS: c.In[2*k+1]})
	}
	r.Nontrivial, r.Label = len(us) >= 2, "built from any bytes"
	for _, u := range us {
		for _, v := range us {
			nu, nv := u.Normalize().String(), v.Normalize().String()
			g := u.Equal(v)
			if g != (nu == nv) {
				return fail("URN{%q, %q} Equal URN{%q, %q} is %v, the normalized strings are %q and %q", u.ID, u.SS, v.ID, v.SS, g, nu, nv)
			}
			// what both may ignore is the case of letters, and nothing of the specific string but that of ASCII ones
			if su, sv := u.ID+":"+u.SS, v.ID+":"+v.SS; g && isASCII(u.ID+v.ID) && ref.Lower(su) != ref.Lower(sv) {
				return fail("URN{%q, %q} equals URN{%q, %q}", u.ID, u.SS, v.ID, v.SS)
			}
		}
	}
	return nil
}

func isASCII(s string) bool {
	for i := 0; i < len(s); i++ {
		if s[i] >= 0x80 {
			return false
		}
	}
	return true
}

func checkEqual(c *eng.Case, r *eng.Rec) error {
	if c.Kind == "raw" {
		return checkRaw(c, r)
	}
	var us []*urn.URN
	var norms, descs []string
	for i, in := range c.In {
		if u, n := makeURN(c.At(i), in); u != nil {
			us, norms, descs = append(us, u), append(norms, n), append(descs, fmt.Sprintf("%s(way %d)", eng.Show(in), c.At(i)))
		}
	}
	r.Nontrivial = len(us) >= 2
	eq := 0
	before := make([]string, len(us))
	for i, u := range us {
		before[i] = u.String()
	}
	for i, u := range us {
		if u.Equal(nil) {
			return fail("%s equals nil", descs[i])
		}
		for k, v := range us {
			want := norms[i] == norms[k]
			if i != k && want {
				eq++
			}
			if g := u.Equal(v); g != want {
				return fail("%s Equal %s is %v, the normalized strings are %s and %s", descs[i], descs[k], g, eng.Show(norms[i]), eng.Show(norms[k]))
			}
		}
		if !u.Equal(u.Normalize()) || !u.Normalize().Equal(u) {
			return fail("%s does not equal its normalized form", descs[i])
		}
		if u.String() != before[i] {
			return fail("%s is changed by Equal to %s", descs[i], eng.Show(u.String()))
		}
	}
	// a URN built from fields may get others
	for i, in := range c.In {
		m := ref.M8141
		w := ref.Parse(m, in)
		if !w.Accepted {
			w = ref.Parse(ref.M2141, in)
		}
		if !w.Accepted || len(us) == 0 {
			continue
		}
		x := &urn.URN{ID: "some", SS: "%AAthing"}
		for _, v := range us {
			x.Equal(v)
			v.Equal(x)
		}
		x.Equal(x)
		x.ID, x.SS = w.ID, w.SS
		for k, v := range us {
			want := w.NormString() == norms[k]
			if x.Equal(v) != want || v.Equal(x) != want {
				return fail("a URN built from other fields, compared, then set to those of %s, Equal %s is %v and %v, should be %v", eng.Show(c.In[i]), descs[k], x.Equal(v), v.Equal(x), want)
			}
		}
	}
	switch {
	case len(us) < 2:
		r.Label = "fewer than two"
	case eq == 0:
		r.Label = "all different"
	case eq == len(us)*(len(us)-1):
		r.Label = "all equal"
	default:
		r.Label = "some equal"
	}
	return nil
}

var equalBases = []string{
	"urn:ab:x", "URN:aB:xY", "urn:ab:%4F", "urn:ab:%4f%AF", "urn:ab:A%4FB%zZc", "urn:a-b:a:b", "urn:ab:a:b:c", "urn:urn-7:x", "urn:URNx:X",
	"urn:ietf:params:scim:schemas:core:2.0:User", "URN:ietf:params:scim:api:Core", "urn:ietf:params:scim:param:c:%aB:-", "urn:ietf:x",
	"urn:ab:x~y&z/w", "urn:ab:x?+r", "urn:ab:x?=q", "urn:ab:x#f", "urn:ab:%aB?+%aB?=%Cd#%eF", "urn:ab:()+,-.:=@;$_!*'", "urn:abcdefghijklmnopqrstuvwxyzABCDEF:0",
	"urn:0-9:-", "urn:ab:AaZz09", "urn:ab:a%41%5A%61%7A", "urn:a:b", "urn:ab:urn:cd:X", "urn:AB:%41%42%43%44%45%46%47%48",
}

func enumEqual(e *eng.Env, yield func(*eng.Case) bool) {
	i := 0
	for _, n := range longLens(e) {
		for _, m := range ref.Modes {
			h, h2 := "urn:ab:A", "URN:Ab:A"
			if m == ref.M7643 {
				h, h2 = "urn:ietf:params:scim:api:n:A", "URN:ietf:params:scim:api:n:A"
			}
			long := []string{lg(h, "x", ""), lg(h, "x", "a"), lg(h, "x", "b"), lg(h2, "x", "b"), lg(h, "x", "a", "x", ""), lg(h, "x", "b", "x", ""), lg(h+"b", "x", ""), lg(h, "X", ""),
				lg(h, "%4F", ""), lg(h2, "%4f", ""), lg(h, "%4F", "%4f"), lg(h, "%4E", ""), lg(h, "%4F", "%4E", "%4F", ""), lg(h, "a:", ""), lg(h, ":a", "")}
			if m == ref.M8141 {
				long = append(long, lg(h, "x", "?+r"), lg(h, "x", "?=q#F"), lg(h+"x?+", "r", ""), h+"x", lg(h, "%4f", "#", "f", ""))
			}
			for a := range long {
				for b := a; b < len(long); b++ {
					if n > 1<<20 && a > 0 && b > a+2 && !e.Thorough() {
						break
					}
					way := []int{int(m), int(m), wNorm + int(m), wBuilt, wJSON8141}[(a+b)%5]
					if i++; i%e.Of == e.Shard && !yield(&eng.Case{Kind: longPrefix + "eq", In: []string{long[a], long[b]}, Num: []int{int(m), way, n}}) {
						return
					}
				}
			}
		}
	}
	emit := func(a, b string, wa, wb int) bool {
		i++
		return i%e.Of != e.Shard || yield(&eng.Case{Kind: "eq", In: []string{a, b}, Num: []int{wa, wb}})
	}
	for _, p := range gen.Lookalikes() {
		for _, f := range []string{"@", "a@", "@b", "a@b", "%@", "%a@", "A@:", "%AA@", "@@"} {
			a, b := strings.ReplaceAll(f, "@", p[0]), strings.ReplaceAll(f, "@", p[1])
			for _, x := range [][]string{{a, "x", b, "x"}, {"x", a, "x", b}, {a, b, b, a}, {a, a, b, b}, {"ab", a, "AB", b}, {a, "%AF", b, "%af"}} {
				if i++; i%e.Of == e.Shard && !yield(&eng.Case{Kind: "raw", In: x}) {
					return
				}
			}
		}
	}
	for _, m := range ref.Modes {
		for _, p := range gen.TwinTexts(m) {
			for _, ways := range [][2]int{{int(m), int(m)}, {wNorm + int(m), int(m)}, {wBuilt, wBuilt}, {int(m), wJSON8141}} {
				if !emit(p[0], p[1], ways[0], ways[1]) {
					return
				}
			}
		}
	}
	for _, a := range equalBases {
		for wa := 0; wa < waysOfMaker; wa++ {
			for wb := 0; wb < waysOfMaker; wb++ {
				for _, b := range equalBases {
					if !emit(a, b, wa, wb) {
						return
					}
				}
			}
			for p := 0; p < len(a); p++ {
				for ch := 0; ch < 128; ch++ {
					b := []byte(a)
					b[p] = byte(ch)
					if !emit(a, string(b), wa, wa) || !emit(string(b), a, wParse+2, wa) {
						return
					}
				}
				if !emit(a, a[:p]+a[p+1:], wa, wa) || !emit(a, a[:p]+a[p:p+1]+a[p:], wa, wa) {
					return
				}
			}
			for k := 1; k < 80; k++ {
				if !emit(a, a+fillN("aB%4f%AF:", k), wa, wa) || !emit(a+fillN("aB%4f", 5*k), a+fillN("aB%4F", 5*k), wa, wParse) {
					return
				}
			}
		}
	}
}

func fillN(s string, n int) string {
	b := make([]byte, 0, n+len(s))
	for len(b) < n {
		b = append(b, s...)
	}
	return string(b[:n])
}

func drawEqual(s gen.Src) *eng.Case {
	if s.Intn(8) == 7 {
		a, b := anyField(s), anyField(s)
		c := &eng.Case{Kind: "raw", In: []string{a, b}}
		for n := 1 + s.Intn(2); n > 0; n-- {
			switch s.Intn(4) {
			case 0:
				a = gen.Relate(s, a)
			case 1:
				b = gen.Relate(s, b)
			case 2:
				a, b = gen.Relate(s, a), gen.Relate(s, b)
			default:
				b = gen.Mutate(s, b)
			}
			c.In = append(c.In, a, b)
		}
		return c
	}
	m := ref.Modes[s.Intn(3)]
	base := gen.Valid(s, m)
	c := &eng.Case{Kind: "eq"}
	for n := 2 + s.Intn(3); n > 0; n-- {
		x := base
		switch s.Intn(8) {
		case 0, 1, 2, 3:
			x = gen.Equivalent(s, m, base)
		case 4, 5:
			x = gen.Tweak(s, m, base)
		case 6:
			x = gen.Tweak(s, m, gen.Equivalent(s, m, base))
		}
		w := s.Intn(waysOfMaker)
		if s.Intn(3) > 0 {
			w = int(m)
		}
		c.In, c.Num = append(c.In, x), append(c.Num, w)
	}
	return c
}

func checkKind(c *eng.Case, r *eng.Rec) error {
	consistent := func(desc string, u *urn.URN) error {
		k := u.RFC()
		if u.IsSCIM() != (k == urn.RFC7643) || (u.SCIM() != nil) != (k == urn.RFC7643) {
			return fail("%s: kind %v, IsSCIM %v, SCIM view nil: %v", desc, k, u.IsSCIM(), u.SCIM() == nil)
		}
		if k != urn.RFC8141 && (u.RComponent() != "" || u.QComponent() != "" || u.FComponent() != "") {
			return fail("%s: kind %v with components %q %q %q", desc, k, u.RComponent(), u.QComponent(), u.FComponent())
		}
		if s := u.SCIM(); s != nil {
			j := s.Type.String() + ":" + s.Name
			if s.Other != "" {
				j += ":" + s.Other
			}
			if j != u.SS || s.String() != "urn:"+u.ID+":"+u.SS || s.Type == scimschema.Unsupported {
				return fail("%s: specific string %s, SCIM view %s (type %d)", desc, eng.Show(u.SS), eng.Show(s.String()), s.Type)
			}
		}
		return nil
	}
	if c.Kind == "built" {
		r.Nontrivial, r.Label = true, "built"
		u := &urn.URN{ID: c.S(0), SS: c.S(1)}
		if err := consistent("built", u); err != nil {
			return err
		}
		return consistent("built and normalized", u.Normalize())
	}
	m, in := modeOf(c.At(0)), c.S(0)
	u := got(m, in)
	if u == nil {
		r.Label = m.String() + " not accepted"
		return nil
	}
	r.Nontrivial, r.Label = true, label(m, ref.Parse(m, in))
	check := func(desc string, u *urn.URN) error {
		desc = fmt.Sprintf("%s: %s, input %s", m, desc, eng.Show(in))
		if u.RFC() != pkind[m] {
			return fail("%s: kind %v, should be %v", desc, u.RFC(), pkind[m])
		}
		return consistent(desc, u)
	}
	if err := check("parsed", u); err != nil {
		return err
	}
	if v, ok := urn.Parse([]byte(in), urn.WithParsingMode(pmode[m])); ok && v != nil {
		if err := check("parsed by the package function", v); err != nil {
			return err
		}
	}
	doc := []byte(gen.JSONString(gen.NewPRNG(2), in))
	switch m {
	case ref.M2141:
		if v, ok := urn.Parse([]byte(in)); ok && v != nil {
			if err := check("parsed without options", v); err != nil {
				return err
			}
		}
		var v urn.URN
		if v.UnmarshalJSON(doc) == nil {
			if err := check("decoded", &v); err != nil {
				return err
			}
		}
		// over a URN of another kind
		if x := got(ref.M7643, "urn:ietf:params:scim:api:c"); x != nil && x.UnmarshalJSON(doc) == nil {
			if err := check("decoded over a SCIM URN", x); err != nil {
				return err
			}
		}
		if x := got(ref.M8141, "urn:ab:c?+r?=q#f"); x != nil && x.UnmarshalJSON(doc) == nil {
			if err := check("decoded over an RFC 8141 URN", x); err != nil {
				return err
			}
		}
	case ref.M8141:
		var v urn.URN8141
		if v.UnmarshalJSON(doc) == nil && v.URN != nil {
			if err := check("decoded", v.URN); err != nil {
				return err
			}
		}
	case ref.M7643:
		var v urn.SCIM
		if v.UnmarshalJSON(doc) == nil {
			if s := u.SCIM(); s != nil && (s.Type != v.Type || s.Name != v.Name || s.Other != v.Other) {
				return fail("%s: input %s: decoded SCIM %+v, parsed %+v", m, eng.Show(in), v, *s)
			}
		}
	}
	return consistent("normalized", u.Normalize())
}

func checkOverlap(c *eng.Case, r *eng.Rec) error {
	in := c.S(0)
	var u [3]*urn.URN
	acc := ""
	for m := range u {
		if u[m] = got(ref.Mode(m), in); u[m] != nil {
			r.Nontrivial = true
			acc += " " + ref.Mode(m).String()
		}
	}
	if acc == "" {
		acc = " none"
	}
	r.Label = "accepted in" + acc
	same := func(a, b ref.Mode, parts bool) error {
		x, y := u[a], u[b]
		if y == nil {
			return fail("input %s is accepted in %s mode, but rejected in %s mode", eng.Show(in), a, b)
		}
		if parts && (x.ID != y.ID || x.SS != y.SS) {
			return fail("input %s: %s mode gives %s and %s, %s mode %s and %s", eng.Show(in), a, eng.Show(x.ID), eng.Show(x.SS), b, eng.Show(y.ID), eng.Show(y.SS))
		}
		if x.String() != y.String() || x.Normalize().String() != y.Normalize().String() {
			return fail("input %s: %s mode gives %s (normalized %s), %s mode %s (normalized %s)", eng.Show(in), a, eng.Show(x.String()), eng.Show(x.Normalize().String()), b, eng.Show(y.String()), eng.Show(y.Normalize().String()))
		}
		for _, z := range []*urn.URN{x, y} {
			if z.RComponent() != "" || z.QComponent() != "" || z.FComponent() != "" {
				return fail("input %s has components in %s or %s mode", eng.Show(in), a, b)
			}
		}
		return nil
	}
	if u[ref.M7643] != nil {
		if err := same(ref.M7643, ref.M2141, false); err != nil {
			return err
		}
		if err := same(ref.M7643, ref.M8141, false); err != nil {
			return err
		}
	}
	if x := u[ref.M2141]; x != nil {
		l := ref.Lower(x.ID)
		informal := len(l) > 4 && l[:4] == "urn-" && (l[4] == '0' || 'a' <= l[4] && l[4] <= 'z')
		if !(len(l) == 1 || (l != "" && l[len(l)-1] == '-') || informal) {
			if err := same(ref.M2141, ref.M8141, true); err != nil {
				return err
			}
		}
	}
	if x := u[ref.M8141]; x != nil && ref.Lower(x.ID) != "urn" {
		plain := true
		for i := 0; i < len(in); i++ {
			switch in[i] {
			case '?', '#', '~', '&', '/':
				plain = false
			}
		}
		if plain {
			if err := same(ref.M8141, ref.M2141, true); err != nil {
				return err
			}
		}
	}
	for a := range u {
		for b := range u {
			if u[a] != nil && u[b] != nil && !u[a].Equal(u[b]) {
				return fail("input %s: the URNs of %s and %s mode are not equal", eng.Show(in), ref.Mode(a), ref.Mode(b))
			}
		}
	}
	return nil
}
