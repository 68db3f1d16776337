package props

import (
	"math"
	"strings"

	scimschema "github.com/leodido/go-urn/scim/schema"

	"verif/harness/eng"
	"verif/harness/gen"
	"verif/harness/ref"
)

var scimTypes = map[string]scimschema.Type{"schemas": scimschema.Schemas, "api": scimschema.API, "param": scimschema.Param}

func init() {
	register(&eng.Prop{
		ID:        "C18",
		Rule:      "Strings: the three names with every single byte changed, inserted or removed, every case pattern, with blanks, prefixes and repetitions, dictionary tokens, all strings up to 2 bytes, random ones; integers: -70000..70000 and the extremes; SCIM URNs of each type. Non-trivial: everything but the empty string.",
		Setup:     loadDict,
		Check:     checkType,
		Enumerate: enumTypes,
		Draw: func(s gen.Src) *eng.Case {
			switch s.Intn(4) {
			case 0:
				return &eng.Case{Kind: "int", Num: []int{(s.Intn(1<<30) - 1<<29) << (s.Intn(34))}}
			case 1:
				return &eng.Case{Kind: "urn", In: []string{gen.Valid(s, ref.M7643)}}
			}
			x := []string{"schemas", "api", "param"}[s.Intn(3)]
			if s.Intn(8) == 7 {
				x += strings.Repeat("x", s.Intn(1000))
			}
			for n := s.Intn(3); n > 0; n-- {
				x = gen.Mutate(s, x)
			}
			return &eng.Case{Kind: "str", In: []string{x}}
		},
		Rapid: 3000, RapidThorough: 100000,
		Bulk: 150000, BulkThorough: 15000000,
	})
}

func checkType(c *eng.Case, r *eng.Rec) error {
	a, b, p := scimschema.Schemas, scimschema.API, scimschema.Param
	un := scimschema.Unsupported
	if a == b || b == p || a == p || a == un || b == un || p == un {
		return fail("the types are not distinct: %d %d %d %d", a, b, p, un)
	}
	switch c.Kind {
	case "int":
		r.Nontrivial = true
		t := scimschema.Type(c.At(0))
		want := ""
		for n, x := range scimTypes {
			if x == t {
				want = n
			}
		}
		r.Label = "type value, named: " + want
		if g := t.String(); g != want {
			return fail("type %d has the name %q, should be %q", t, g, want)
		}
		if want != "" && scimschema.TypeFromString(t.String()) != t {
			return fail("type %d: its name maps to %d", t, scimschema.TypeFromString(t.String()))
		}
	case "urn":
		u := got(ref.M7643, c.S(0))
		if u == nil || u.SCIM() == nil {
			r.Label = "not a SCIM URN"
			return nil
		}
		w := ref.Parse(ref.M7643, c.S(0))
		if !w.Accepted {
			return nil
		}
		r.Nontrivial, r.Label = true, "SCIM URN of type "+w.SCIMType
		if t := u.SCIM().Type; t != scimTypes[w.SCIMType] {
			return fail("input %s: type %d, should be %d", eng.Show(c.S(0)), t, scimTypes[w.SCIMType])
		}
	default:
		s := c.S(0)
		want, known := scimTypes[s]
		if !known {
			want = un
		}
		r.Nontrivial, r.Label = s != "", "other string"
		if known {
			r.Label = "name"
		}
		g := scimschema.TypeFromString(s)
		if g != want {
			return fail("%s maps to type %d, should be %d", eng.Show(s), g, want)
		}
		if known && g.String() != s {
			return fail("%s maps to type %d, whose name is %q", eng.Show(s), g, g.String())
		}
	}
	return nil
}

func enumTypes(e *eng.Env, yield func(*eng.Case) bool) {
	i := 0
	str := func(x string) bool {
		i++
		return i%e.Of != e.Shard || yield(&eng.Case{Kind: "str", In: []string{x}})
	}
	num := func(n int) bool {
		i++
		return i%e.Of != e.Shard || yield(&eng.Case{Kind: "int", Num: []int{n}})
	}
	for n := -70000; n <= 70000; n++ {
		if !num(n) {
			return
		}
	}
	for k := uint(17); k < 64; k++ {
		for d := -4; d <= 4; d++ {
			if !num(1<<k+d) || !num(-(1<<k)+d) || !num(math.MaxInt-d) {
				return
			}
		}
	}
	if !str("") {
		return
	}
	for x := 0; x < 256; x++ {
		if !str(string([]byte{byte(x)})) {
			return
		}
		for y := 0; y < 256; y++ {
			if !str(string([]byte{byte(x), byte(y)})) {
				return
			}
		}
	}
	for _, x := range gen.TypeTwins {
		if !str(x) {
			return
		}
	}
	for _, name := range []string{"schemas", "api", "param"} {
		for mask := 0; mask < 1<<len(name); mask++ {
			b := []byte(name)
			for k := range b {
				if mask>>k&1 == 1 {
					b[k] -= 32
				}
			}
			if !str(string(b)) {
				return
			}
		}
		for p := 0; p <= len(name); p++ {
			for x := 0; x < 256; x++ {
				ins := name[:p] + string([]byte{byte(x)}) + name[p:]
				if !str(ins) {
					return
				}
				if p < len(name) {
					b := []byte(name)
					b[p] = byte(x)
					if !str(string(b)) || !str(name[:p]+name[p+1:]) {
						return
					}
				}
			}
			if !str(name[:p]) || !str(name[p:]) {
				return
			}
		}
		for _, k := range []int{16, 32, 64, 128, 256, 512, 1 << 15, 1 << 16, 1 << 17} { // lengths that wrap around
			for _, f := range []string{"x", " ", "\x00", name, "a"} {
				tail := strings.Repeat(f, k/len(f)+1)[:k]
				if !str(name+tail) || !str(tail+name) || !str(strings.Repeat(name, k/len(name)+1)[:k]) {
					return
				}
			}
		}
		for _, o := range []string{" ", "\t", "\n", "\x00", ":", "s", "es", "schemas", "api", "param", "\u200b", "\u017f"} {
			if !str(name+o) || !str(o+name) || !str(o+name+o) || !str(strings.Repeat(name, 2)) {
				return
			}
		}
		for _, t := range []string{"ſchemas", "schemaſ", "аpi", "apı", "APİ", "param\u0000"} {
			if !str(t) {
				return
			}
		}
	}
	for _, t := range gen.Dict.Tokens {
		if !str(t) || !str(strings.ToLower(t)) || !str(strings.ToUpper(t)) || !str(strings.Title(t)) {
			return
		}
	}
	for _, t := range []string{"schemas", "api", "param"} {
		for _, x := range []string{":c", ":C:a", ":schemas:api", ":api", ":param:schemas", ":9:%4F"} {
			for _, p := range []string{"urn", "URN"} {
				if i++; i%e.Of == e.Shard && !yield(&eng.Case{Kind: "urn", In: []string{p + ":ietf:params:scim:" + t + x}}) {
					return
				}
			}
		}
	}
}
