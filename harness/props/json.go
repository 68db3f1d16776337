package props

import (
	"encoding/json"
	"fmt"
	"strconv"
	"strings"
	"unicode/utf8"

	urn "github.com/leodido/go-urn"
	scimschema "github.com/leodido/go-urn/scim/schema"

	"verif/harness/eng"
	"verif/harness/gen"
	"verif/harness/ref"
)

const ruleJSON = "Round trips of URNs (plain, in structs, slices, maps, pointers, re-escaped), and decodes of JSON documents - strings in any escaping, other values, corrupt documents - into a receiver holding another URN. Non-trivial: the URN exists, or the document is a JSON string. "

// codec is one of the three JSON types, behind a uniform face.
type codec struct {
	m        ref.Mode
	errText  string
	new      func() any           // pointer to a zero value
	of       func(u *urn.URN) any // value to encode, nil if there is none
	state    func(p any) string   // everything observable
	wrapped  func() any           // pointer to a struct with the type in all kinds of places
	unwrap   func(p any) []any    // pointers to the values in it
	wrap     func(v any) any      // such a struct, filled
	verify   func(p any, w *ref.URN) error
	pointers func(p any) json.Unmarshaler
}

type wrapT[T any] struct {
	A T
	B *T
	C []T
	D map[string]T
	E [2]*T `json:"e"`
	F any   `json:"-"`
	G *T    `json:"g,omitempty"`
}

func makeCodec[T any](m ref.Mode, errText string, of func(u *urn.URN) any, state func(p *T) string, verify func(p *T, w *ref.URN) error) *codec {
	return &codec{
		m: m, errText: errText,
		new:      func() any { return new(T) },
		of:       of,
		state:    func(p any) string { return state(p.(*T)) },
		wrapped:  func() any { return &wrapT[T]{} },
		pointers: func(p any) json.Unmarshaler { return any(p.(*T)).(json.Unmarshaler) },
		wrap: func(v any) any {
			t := v.(T)
			x, y := t, t
			return wrapT[T]{A: t, B: &x, C: []T{t, t}, D: map[string]T{"k": t}, E: [2]*T{&y, nil}}
		},
		unwrap: func(p any) []any {
			w := p.(*wrapT[T])
			out := []any{&w.A, w.B, w.E[0]}
			for i := range w.C {
				out = append(out, &w.C[i])
			}
			for _, v := range w.D {
				x := v
				out = append(out, &x)
			}
			if w.B == nil || w.E[0] == nil || w.E[1] != nil || w.G != nil || len(w.C) != 2 || len(w.D) != 1 {
				return nil
			}
			return out
		},
		verify: func(p any, w *ref.URN) error { return verify(p.(*T), w) },
	}
}

func verifyURN(m ref.Mode) func(u *urn.URN, w *ref.URN) error {
	return func(u *urn.URN, w *ref.URN) error {
		if err := partsDiffer(m, u, w); err != nil {
			return err
		}
		if u.RFC() != pkind[m] {
			return fmt.Errorf("kind %v", u.RFC())
		}
		if n := u.Normalize().String(); n != w.NormString() {
			return fmt.Errorf("normalized form %s, should be %s", eng.Show(n), eng.Show(w.NormString()))
		}
		if p := got(m, w.String()); p == nil || !u.Equal(p) || !p.Equal(u) {
			return fmt.Errorf("not equal to the parsed URN")
		}
		return nil
	}
}

func typeOf(name string) scimschema.Type {
	switch name {
	case "schemas":
		return scimschema.Schemas
	case "api":
		return scimschema.API
	case "param":
		return scimschema.Param
	}
	return scimschema.Unsupported
}

var codecs = map[string]*codec{
	"C12": makeCodec(ref.M2141, "invalid URN: ", func(u *urn.URN) any { return *u },
		func(p *urn.URN) string { return fmt.Sprintf("%+v", take(p)) }, verifyURN(ref.M2141)),
	"C13": makeCodec(ref.M8141, "invalid URN per RFC 8141: ", func(u *urn.URN) any { return urn.URN8141{URN: u} },
		func(p *urn.URN8141) string { return fmt.Sprintf("%p %+v", p.URN, take(p.URN)) },
		func(p *urn.URN8141, w *ref.URN) error {
			if p.URN == nil {
				return fmt.Errorf("nil URN")
			}
			return verifyURN(ref.M8141)(p.URN, w)
		}),
	"C14": makeCodec(ref.M7643, "invalid SCIM URN: ", func(u *urn.URN) any {
		if s := u.SCIM(); s != nil {
			return *s
		}
		return nil
	},
		func(p *urn.SCIM) string {
			return fmt.Sprintf("%d %q %q %q", p.Type, p.Name, p.Other, p.String())
		},
		func(p *urn.SCIM, w *ref.URN) error {
			if p.Type != typeOf(w.SCIMType) || p.Type.String() != w.SCIMType || p.Name != w.SCIMName || p.Other != w.SCIMOther {
				return fmt.Errorf("type %d (%q), name %s, rest %s, should be %s, %s, %s", p.Type, p.Type.String(), eng.Show(p.Name), eng.Show(p.Other), w.SCIMType, eng.Show(w.SCIMName), eng.Show(w.SCIMOther))
			}
			want := "urn:ietf:params:scim:" + w.SCIMType + ":" + w.SCIMName
			if w.SCIMOther != "" {
				want += ":" + w.SCIMOther
			}
			if p.String() != want {
				return fmt.Errorf("prints as %s, should be %s", eng.Show(p.String()), eng.Show(want))
			}
			return nil
		}),
}

func init() {
	for id, k := range codecs {
		rule := ruleJSON
		if id == "C14" {
			rule += "Also SCIM values built from a type, a name and a rest."
		}
		register(&eng.Prop{
			ID:    id,
			Rule:  rule,
			Setup: loadDict,
			Check: func(c *eng.Case, r *eng.Rec) error {
				decodeFirst(k, c)
				switch c.Kind {
				case "doc":
					return checkDecode(k, c, r)
				case "built":
					return checkBuiltSCIM(k, c, r)
				case "zero":
					return checkZero(k, r)
				}
				return checkRoundTrip(k, c, r)
			},
			Enumerate: func(e *eng.Env, yield func(*eng.Case) bool) { enumJSON(id, k, e, yield) },
			Draw:      func(s gen.Src) *eng.Case { return drawJSON(id, k, s) },
			KeepIn:    true,
			Rapid:     2000, RapidThorough: 30000,
			Bulk: 30000, BulkThorough: 1200000,
		})
	}
}

// what receivers hold: a URN, or fields separated by '!': identifier and
// specific string, or SCIM type, name and rest.
var receivers = map[ref.Mode][]string{
	ref.M2141: {"urn:old:OLD%4F", "urn:old:OLD%4F?+r?=q#f", "", "URN:ietf:params:scim:api:Old:%4Fld", "!Old!%4Fld", "!!", "!not an id!", "!!x"},
	ref.M7643: {"urn:ietf:params:scim:api:Old:%4Fld", "urn:ietf:params:scim:param:p", "", "urn:ietf:params:scim:schemas:Q:r", "!7!n!o", "!0!n!", "!-1!!o", "!2!n m!"},
	ref.M8141: {"urn:old:OLD%4F?+r?=q#f", "urn:xx:y", "", "URN:ietf:params:scim:api:Old:%4Fld", "!Old!%4Fld", "!!", "!not an id!", "!!x"},
}

// cousin makes a text from one to be decoded, for the receiver: equal to it but
// for components or case, sharing parts with it, or the same.
func cousin(m ref.Mode, in string, n int) string {
	w := ref.Parse(m, in)
	if !w.Accepted {
		return receivers[m][n&7]
	}
	base := w.String()
	switch {
	case m == ref.M7643:
		base = strings.TrimSuffix(base, ":"+w.SCIMOther)
		base += []string{"", ":x", ":" + w.SCIMOther, "x"}[n&3]
	case n&3 == 3:
		base = "URN:" + strings.ToUpper(w.ID) + ":" + w.SS
	default: // a URN of RFC 8141, for both types
		base = "urn:" + w.ID + ":" + w.SS + []string{"", "?+rr?=qq#ff", "?=qq"}[n&3]
	}
	return base
}

// decodeFirst decodes the documents that come after what a case is about.
func decodeFirst(k *codec, c *eng.Case) {
	for n := len(c.In) - 1; c.Kind == "rt" && n > 2 || c.Kind == "doc" && n > 1; n-- {
		p := k.receiver("", 0)
		if json.Unmarshal([]byte(c.In[n]), p) == nil {
			_, _ = json.Marshal(p)
		}
	}
}

func drawJSON(id string, k *codec, s gen.Src) *eng.Case {
	old := receivers[k.m][s.Intn(8)]
	rm := 0 // mode of the receiver, if it has that form
	if s.Intn(3) == 2 {
		rm = s.Intn(3)
		old = gen.Valid(s, (k.m+ref.Mode(rm))%3)
	}
	switch n := s.Intn(10); {
	case n < 4:
		in := gen.Valid(s, k.m)
		if s.Intn(3) == 2 {
			old = cousin(k.m, in, s.Intn(4))
		}
		c := &eng.Case{Kind: "rt", In: []string{in, gen.JSONString(s, in), old}, Num: []int{rm}}
		switch s.Intn(6) {
		case 4: // a similar document before
			c.In = append(c.In, gen.JSONString(s, cousin(k.m, in, s.Intn(4))))
		case 5: // and any
			c.In = append(c.In, gen.JSONDoc(s, func() string { return gen.Input(s, k.m) }), gen.JSONString(s, gen.Valid(s, k.m)))
		}
		return c
	case n == 4 && id == "C14":
		t, name, other := gen.SCIMParts(s)
		return &eng.Case{Kind: "built", In: []string{name, other, old}, Num: []int{rm, int(typeOf(t))}}
	}
	return &eng.Case{Kind: "doc", In: []string{gen.JSONDoc(s, func() string { return gen.Input(s, k.m) }), old}, Num: []int{rm}}
}

func enumJSON(id string, k *codec, e *eng.Env, yield func(*eng.Case) bool) {
	i := 0
	emit := func(c *eng.Case) bool {
		i++
		return i%e.Of != e.Shard || yield(c)
	}
	if !emit(&eng.Case{Kind: "zero"}) {
		return
	}
	for _, old := range receivers[k.m] {
		for _, d := range gen.OtherJSON() {
			if !emit(&eng.Case{Kind: "doc", In: []string{d, old}}) {
				return
			}
		}
		for _, x := range typical {
			if !emit(&eng.Case{Kind: "doc", In: []string{gen.JSONString(gen.NewPRNG(uint64(i)), x), old}}) {
				return
			}
		}
	}
	for n, p := range gen.TwinTexts(k.m) {
		x, y := p[n%2], p[1-n%2]
		kind := "rt"
		if !ref.Parse(k.m, y).Accepted {
			kind = "doc"
		}
		c := &eng.Case{Kind: kind, In: []string{y, gen.JSONString(gen.NewPRNG(uint64(i)), y), x, `"` + x + `"`}, Num: []int{n % 3}}
		if kind == "doc" {
			c.In = c.In[1:]
		}
		if !emit(c) {
			return
		}
	}
	// every access string, and one byte more
	for n, a := range gen.Access(k.m) {
		for ch := 0; ch < 256; ch++ {
			x := a + string([]byte{byte(ch)})
			if ch%32 == n%32 { // as is
				x = a
			}
			if !emit(&eng.Case{Kind: "doc", In: []string{gen.JSONString(gen.NewPRNG(uint64(i)), x), receivers[k.m][(n+ch)&7]}, Num: []int{n % 3}}) {
				return
			}
			for _, sfx := range []string{"", "b", ":b"} {
				if y := x + sfx; ref.Parse(k.m, y).Accepted {
					if !emit(&eng.Case{Kind: "rt", In: []string{y, gen.JSONString(gen.NewPRNG(uint64(i)), y), cousin(k.m, y, n+ch)}, Num: []int{n % 3}}) {
						return
					}
					break
				}
			}
		}
	}
	if !enumLong(e, yield, []ref.Mode{k.m}, "rt", func(n int, m ref.Mode, text string, emit func(in []string, nums ...int) bool) bool {
		doc := "\x02\"" + text[1:] + "\""
		esc := strings.Replace(doc, "urn:", "\\u0075rn:", 1)
		return emit([]string{text, doc, receivers[k.m][n&7]}, 0) && emit([]string{text, esc, text}, 0) && emit([]string{"urn:ab:x", doc, text}, 1)
	}) || !enumLong(e, yield, []ref.Mode{k.m}, "doc", func(n int, m ref.Mode, text string, emit func(in []string, nums ...int) bool) bool {
		for i, s := range []string{"\"", " \n", "", "x", "\\ud800\""} {
			if !emit([]string{"\x02\"" + text[1:] + s, receivers[k.m][i]}, 0) {
				return false
			}
		}
		return emit([]string{lg(" ", " ", text[1:strings.Index(text[1:], "\x02")+1]), receivers[k.m][n&7]}, 0) && emit([]string{lg("[", "0,", "0]"), text}, 0) && emit([]string{lg("", "[", "", "]", ""), text}, 0)
	}) {
		return
	}
	text := func(x string) bool {
		doc := gen.JSONString(gen.NewPRNG(uint64(len(x))), x)
		if !ref.Parse(k.m, x).Accepted {
			return yield(&eng.Case{Kind: "doc", In: []string{doc, receivers[k.m][len(x)&7]}})
		}
		return yield(&eng.Case{Kind: "rt", In: []string{x, doc, cousin(k.m, x, len(x))}})
	}
	gen.Lengths(k.m, gen.LensFor(e.Pick(40, 200), e.Pick(1100, 20000)), e.Shard, e.Of, text)
	gen.Wraps(k.m, false, e.Shard, e.Of, text)
	gen.Big(k.m, []int{5000, 65537, 70001}, e.Shard, e.Of, text)
	if id == "C14" {
		for _, n := range longLens(e) {
			for t := 1; t <= 3; t++ {
				for _, x := range [][]string{{lg("n", "m", ""), "", receivers[k.m][0]}, {"n", lg("%4f", "a:", "B"), ""}, {lg("", "N", ""), lg("", "%4F", ""), receivers[k.m][1]}} {
					if i++; i%e.Of == e.Shard && !yield(&eng.Case{Kind: longPrefix + "built", In: x, Num: []int{t & 1, t, n}}) {
						return
					}
				}
			}
		}
		for t := 1; t <= 3; t++ {
			for _, name := range []string{"a", "Z", "0", "core", "CORE09", "schemas", "api", strings.Repeat("n", 300)} {
				for _, other := range []string{"", "a", ":", "::", "2.0:User", "%4F", "%aB%Cd", "-", "a%00", "()+,-.:=@;$_!*'", strings.Repeat("%4f:A", 60)} {
					if !emit(&eng.Case{Kind: "built", In: []string{name, other, receivers[k.m][0]}, Num: []int{t & 1, t}}) {
						return
					}
				}
			}
		}
	}
}

// receiver makes a receiver holding old (a zero one when old is no URN), if it
// can be of the mode pref further than the codec's.
func (k *codec) receiver(old string, pref int) any {
	p := k.new()
	if f := strings.Split(old, "!"); len(f) > 2 && f[0] == "" {
		switch x := p.(type) {
		case *urn.URN:
			x.ID, x.SS = f[1], f[2]
		case *urn.URN8141:
			x.URN = &urn.URN{ID: f[1], SS: f[2]}
		case *urn.SCIM:
			t, _ := strconv.Atoi(f[1])
			x.Type, x.Name, x.Other = scimschema.Type(t), f[2], strings.Join(f[3:], "!")
		}
		return p
	}
	u := got(k.m, old)
	if v := got(ref.Modes[(int(k.m)+pref&3)%3], old); v != nil {
		u = v
	}
	if k.m == ref.M7643 {
		u = got(k.m, old)
	}
	for _, m := range ref.Modes {
		if u == nil {
			u = got(m, old)
		}
	}
	if u != nil {
		switch x := p.(type) {
		case *urn.URN:
			*x = *u
		case *urn.URN8141:
			x.URN = u
		case *urn.SCIM:
			if s := u.SCIM(); s != nil {
				*x = *s
			}
		}
	}
	return p
}

func checkRoundTrip(k *codec, c *eng.Case, r *eng.Rec) error {
	in := c.S(0)
	u := got(k.m, in)
	if u == nil {
		return nil
	}
	want := ref.Parse(k.m, in)
	if !want.Accepted {
		return nil
	}
	v := k.of(u)
	if v == nil {
		return nil
	}
	r.Nontrivial, r.Label = true, "round trip "+label(k.m, want)
	if k.m == ref.M7643 { // the prefix of a SCIM value is always in lower case
		want = ref.Parse(k.m, "urn"+in[3:])
	}
	str := want.String()
	desc := fmt.Sprintf("input %s", eng.Show(in))
	encode := func(what string, x any) ([]byte, error) {
		doc, err := json.Marshal(x)
		if err != nil {
			return nil, fail("%s: encoding %s: %v", desc, what, err)
		}
		return doc, nil
	}
	docs := [][]byte{}
	for what, x := range map[string]any{"the value": v, "a pointer": ptr(v)} {
		doc, err := encode(what, x)
		if err != nil {
			return err
		}
		docs = append(docs, doc)
	}
	if mj, ok := v.(json.Marshaler); ok {
		doc, err := mj.MarshalJSON()
		if err != nil {
			return fail("%s: MarshalJSON: %v", desc, err)
		}
		docs = append(docs, doc)
	} else {
		return fail("%s: the type %T has no MarshalJSON", desc, v)
	}
	for _, doc := range docs {
		var s string
		if err := json.Unmarshal(doc, &s); err != nil || s != str {
			return fail("%s: encodes to %s, which should be the JSON string of %s", desc, eng.Show(string(doc)), eng.Show(str))
		}
	}
	docs = append(docs, []byte(c.S(1)))
	for _, doc := range docs {
		var s string
		if json.Unmarshal(doc, &s) != nil {
			continue // a shrunk document
		}
		w := ref.Parse(k.m, s)
		if !w.Accepted {
			continue
		}
		p := k.receiver(c.S(2), c.At(0))
		if err := json.Unmarshal(doc, p); err != nil {
			return fail("%s: decoding %s: %v", desc, eng.Show(string(doc)), err)
		}
		if err := k.verify(p, w); err != nil {
			return fail("%s: decoding %s: %v", desc, eng.Show(string(doc)), err)
		}
		p = k.receiver(c.S(2), c.At(0))
		buf := []byte(strings.TrimSpace(string(doc)))
		if err := k.pointers(p).UnmarshalJSON(buf); err != nil {
			return fail("%s: UnmarshalJSON of %s: %v", desc, eng.Show(string(doc)), err)
		}
		spoil(buf)
		if err := k.verify(p, w); err != nil {
			return fail("%s: UnmarshalJSON of %s: %v", desc, eng.Show(string(doc)), err)
		}
	}
	// inside other values
	doc, err := encode("a struct", k.wrap(v))
	if err != nil {
		return err
	}
	wp := k.wrapped()
	if err := json.Unmarshal(doc, wp); err != nil {
		return fail("%s: decoding a struct %s: %v", desc, eng.Show(string(doc)), err)
	}
	parts := k.unwrap(wp)
	if parts == nil {
		return fail("%s: decoding a struct %s loses values", desc, eng.Show(string(doc)))
	}
	for _, p := range parts {
		if err := k.verify(p, want); err != nil {
			return fail("%s: decoding a struct %s: %v", desc, eng.Show(string(doc)), err)
		}
	}
	if k.m == ref.M8141 { // around other URNs
		copied := *u
		copied.SS = want.SS + "A"
		changed := *want
		changed.SS = copied.SS
		others := map[string]struct {
			u    *urn.URN
			text string
		}{
			"normalized": {u.Normalize(), want.NormString()},
			"built":      {&urn.URN{ID: want.ID, SS: want.SS}, "urn:" + want.ID + ":" + want.SS},
			"changed":    {&copied, changed.String()},
		}
		for _, m := range []ref.Mode{ref.M2141, ref.M7643} {
			if x := got(m, in); x != nil && ref.Parse(m, in).Accepted {
				o := others["built"]
				o.u, o.text = x, in
				others[fmt.Sprint("of mode ", m)] = o
			}
		}
		for what, o := range others {
			for _, x := range []any{urn.URN8141{URN: o.u}, &urn.URN8141{URN: o.u}} {
				doc, err := encode("one around a URN that is "+what, x)
				if err != nil {
					return err
				}
				var s string
				if err := json.Unmarshal(doc, &s); err != nil || s != o.text {
					return fail("%s: around a URN that is %s, it encodes to %s, which should be the JSON string of %s", desc, what, eng.Show(string(doc)), eng.Show(o.text))
				}
			}
		}
	}
	// encoding changed nothing
	if a := take(u); a != take(got(k.m, in)) {
		return fail("%s: encoding changed the URN to %+v", desc, a)
	}
	return nil
}

// spoil writes over a document that was decoded.
func spoil(b []byte) {
	for i := range b {
		b[i] = '?'
	}
}

func ptr(v any) any {
	switch x := v.(type) {
	case urn.URN:
		return &x
	case urn.URN8141:
		return &x
	case urn.SCIM:
		return &x
	}
	return nil
}

func checkDecode(k *codec, c *eng.Case, r *eng.Rec) error {
	doc := c.S(0)
	var val string
	serr := json.Unmarshal([]byte(doc), &val)
	isString := serr == nil && strings.HasPrefix(strings.TrimLeft(doc, " \t\r\n"), `"`)
	accept := false
	var want *ref.URN
	if serr == nil {
		want = ref.Parse(k.m, val)
		accept = want.Accepted && isString
	}
	r.Nontrivial = isString
	switch {
	case accept:
		r.Label = "decode " + label(k.m, want)
	case isString:
		r.Label = "decode string " + label(k.m, want)
	case json.Valid([]byte(doc)):
		r.Label = "decode other JSON"
	default:
		r.Label = "decode corrupt document"
	}
	for _, way := range []string{"json.Unmarshal", "UnmarshalJSON"} {
		p := k.receiver(c.S(1), c.At(0))
		before := k.state(p)
		buf := []byte(doc)
		var err error
		if way == "UnmarshalJSON" {
			err = k.pointers(p).UnmarshalJSON(buf)
		} else {
			err = json.Unmarshal(buf, p)
		}
		if string(buf) != doc {
			return fail("%s of %s: the document is changed to %s", way, eng.Show(doc), eng.Show(string(buf)))
		}
		spoil(buf)
		if accept != (err == nil) {
			return fail("%s of %s: error %v, should be accepted: %v", way, eng.Show(doc), err, accept)
		}
		if accept {
			if e := k.verify(p, want); e != nil {
				return fail("%s of %s over %s: %v", way, eng.Show(doc), eng.Show(c.S(1)), e)
			}
			continue
		}
		if after := k.state(p); after != before {
			return fail("%s of %s fails (%v) and changes the receiver from %s to %s", way, eng.Show(doc), err, before, after)
		}
		if isString && utf8.ValidString(doc) {
			text := k.errText + val
			if way == "UnmarshalJSON" && err.Error() != text || !strings.Contains(err.Error(), text) {
				return fail("%s of %s: error %q, should be %q", way, eng.Show(doc), err, text)
			}
		}
	}
	return nil
}

func checkBuiltSCIM(k *codec, c *eng.Case, r *eng.Rec) error {
	s := urn.SCIM{Type: scimschema.Type(c.At(1)), Name: c.S(0), Other: c.S(1)}
	var name string
	switch s.Type {
	case scimschema.Schemas:
		name = "schemas"
	case scimschema.API:
		name = "api"
	case scimschema.Param:
		name = "param"
	default:
		return nil
	}
	text := "urn:ietf:params:scim:" + name + ":" + s.Name
	if s.Other != "" {
		text += ":" + s.Other
	}
	want := ref.Parse(ref.M7643, text)
	if !want.Accepted || want.SCIMName != s.Name || want.SCIMOther != s.Other {
		return nil // not a SCIM value
	}
	r.Nontrivial, r.Label = true, "built"
	desc := fmt.Sprintf("SCIM{%s, %s, %s}", name, eng.Show(s.Name), eng.Show(s.Other))
	if s.String() != text {
		return fail("%s prints as %s", desc, eng.Show(s.String()))
	}
	// values that were something else before
	olds := []string{c.S(2), "urn:ietf:params:scim:" + name + ":" + s.Name, text + ":x", "urn:ietf:params:scim:param:" + s.Name[1:] + "q:" + s.Other + "z"}
	for how, old := range olds {
		p := k.receiver(old, c.At(0)).(*urn.SCIM)
		if how > 0 && json.Unmarshal([]byte(strconv.Quote(old)), p) != nil {
			continue
		}
		v := *p
		was := v.String()
		v.Type, v.Name, v.Other = s.Type, s.Name, s.Other
		if v.String() != text {
			return fail("%s in a value that was %s prints as %s", desc, eng.Show(was), eng.Show(v.String()))
		}
		p.Type, p.Name, p.Other = s.Type, s.Name, s.Other
		doc, err := json.Marshal(p)
		if err != nil {
			return fail("%s in a value that was %s: encoding: %v", desc, eng.Show(was), err)
		}
		var x string
		if json.Unmarshal(doc, &x) != nil || x != text {
			return fail("%s in a value that was %s encodes to %s", desc, eng.Show(was), eng.Show(string(doc)))
		}
	}
	u := got(ref.M7643, s.String())
	if u == nil || u.SCIM() == nil {
		return fail("%s: its string form does not parse", desc)
	}
	if err := k.verify(u.SCIM(), want); err != nil {
		return fail("%s: parsing its string form: %v", desc, err)
	}
	for _, x := range []any{s, &s, []urn.SCIM{s}} {
		doc, err := json.Marshal(x)
		if err != nil {
			return fail("%s: encoding: %v", desc, err)
		}
		p := k.receiver(c.S(2), c.At(0)).(*urn.SCIM)
		if _, ok := x.([]urn.SCIM); ok {
			l := []urn.SCIM{}
			err = json.Unmarshal(doc, &l)
			if len(l) == 1 {
				p = &l[0]
			}
		} else {
			err = json.Unmarshal(doc, p)
		}
		if err != nil {
			return fail("%s: decoding %s: %v", desc, eng.Show(string(doc)), err)
		}
		if err := k.verify(p, want); err != nil {
			return fail("%s: decoding %s: %v", desc, eng.Show(string(doc)), err)
		}
	}
	return nil
}

func checkZero(k *codec, r *eng.Rec) error {
	if k.m != ref.M8141 {
		return nil
	}
	r.Nontrivial, r.Label = true, "zero value"
	// must not panic; the error, if any, is not specified
	var z urn.URN8141
	json.Marshal(z)
	json.Marshal(&z)
	json.Marshal([]urn.URN8141{z})
	json.Marshal(urn.URN8141{URN: &urn.URN{}})
	z.MarshalJSON()
	return nil
}
