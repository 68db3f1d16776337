package props

import (
	"encoding/json"
	"fmt"
	"strings"

	urn "github.com/leodido/go-urn"

	"verif/harness/eng"
	"verif/harness/gen"
	"verif/harness/ref"
)

func init() {
	register(&eng.Prop{
		ID:        "C25",
		Rule:      "A URN made in one of eleven ways (parsed in a mode, normalized, decoded, built, copied), then 1-12 operations: its identifier or specific string is set (related texts, parts of other URNs, any bytes, nothing), it is normalized, compared, printed, encoded, copied, decoded into. What it then is - and each copy - is compared with a URN built from the same two fields, and with the reference where they make a URN. Enumerated: all ways x texts x values, with each operation before and between. Non-trivial: a field was set to another value.",
		Setup:     loadDict,
		Check:     checkChanged,
		Enumerate: enumChanged,
		Draw:      drawChanged,
		KeepIn:    true,
		Rapid:     2000, RapidThorough: 40000,
		Bulk: 30000, BulkThorough: 2500000,
		Guided: 12000,
	})
}

const (
	gSetID = iota
	gSetSS
	gSetBoth
	gNormalize
	gEqual
	gString
	gJSON
	gCopy
	gGoNormalized
	gDecode
	gCompare // with a URN of the first text
	gBack    // to an earlier one
	gKinds
)

// changed is a URN and what it should be.
type changed struct {
	u              *urn.URN
	id, ss, prefix string
	r, q, f        string
	kind           urn.Kind
	scim           string
	hasSCIM        bool
}

func (o *changed) str() string {
	if o.id == "" || o.ss == "" {
		return ""
	}
	s := o.prefix + ":" + o.id + ":" + o.ss
	if o.r != "" {
		s += "?+" + o.r
	}
	if o.q != "" {
		s += "?=" + o.q
	}
	if o.f != "" {
		s += "#" + o.f
	}
	return s
}

// built is a new URN with the same fields.
func (o *changed) built() *urn.URN { return &urn.URN{ID: o.id, SS: o.ss} }

func (o *changed) judge(op int) error {
	u := o.u
	switch op {
	case gString:
		if g := u.String(); g != o.str() {
			return fmt.Errorf("it prints as %s, should be %s", eng.Show(g), eng.Show(o.str()))
		}
	case gNormalize:
		n := u.Normalize()
		if n == nil {
			return fmt.Errorf("it normalizes to nil")
		}
		b := o.built().Normalize()
		if take(n) != take(b) {
			return fmt.Errorf("it normalizes to %+v, a URN built from the same fields to %+v", take(n), take(b))
		}
		if isURN(ref.M8141, o.id, o.ss) || isURN(ref.M2141, o.id, o.ss) {
			if w := "urn:" + ref.Lower(o.id) + ":" + ref.LowerEscapes(o.ss); n.String() != w {
				return fmt.Errorf("it normalizes to %s, should be %s", eng.Show(n.String()), eng.Show(w))
			}
		}
	case gEqual:
		b := o.built()
		if !u.Equal(b) || !b.Equal(u) || !u.Equal(u) || u.Equal(nil) {
			return fmt.Errorf("equality with a URN built from the same fields: %v, %v, with itself: %v, with nil: %v", u.Equal(b), b.Equal(u), u.Equal(u), u.Equal(nil))
		}
		if n := u.Normalize(); n != nil && (!u.Equal(n) || !n.Equal(u)) {
			return fmt.Errorf("it is not equal to its normalized form")
		}
	case gJSON:
		for _, x := range []json.Marshaler{*u, u, urn.URN8141{URN: u}} {
			doc, err := json.Marshal(x)
			if err != nil {
				return fmt.Errorf("encoding it: %v", err)
			}
			var s string
			if err := json.Unmarshal(doc, &s); err != nil || s != viaJSON(o.str()) {
				return fmt.Errorf("it encodes to %s, should be the JSON string of %s", eng.Show(string(doc)), eng.Show(o.str()))
			}
		}
	}
	if u.ID != o.id || u.SS != o.ss {
		return fmt.Errorf("its fields are %q and %q, were %q and %q", u.ID, u.SS, o.id, o.ss)
	}
	return nil
}

// rest is all that does not depend on the two fields.
func (o *changed) rest() error {
	u := o.u
	if u.RComponent() != o.r || u.QComponent() != o.q || u.FComponent() != o.f || u.RFC() != o.kind || u.IsSCIM() != (o.kind == urn.RFC7643) {
		return fmt.Errorf("its components are %q %q %q and its kind %v (SCIM: %v), were %q %q %q and %v", u.RComponent(), u.QComponent(), u.FComponent(), u.RFC(), u.IsSCIM(), o.r, o.q, o.f, o.kind)
	}
	s := u.SCIM()
	if (s != nil) != o.hasSCIM || s != nil && s.String() != o.scim {
		return fmt.Errorf("its SCIM view changes")
	}
	return nil
}

// newChanged describes u by a twin made alike.
func newChanged(u, twin *urn.URN) *changed {
	if u == nil || twin == nil {
		return nil
	}
	str := twin.String()
	if len(str) < 4 || str[3] != ':' {
		return nil
	}
	o := &changed{u: u, id: u.ID, ss: u.SS, prefix: str[:3], r: twin.RComponent(), q: twin.QComponent(), f: twin.FComponent(), kind: twin.RFC()}
	if s := twin.SCIM(); s != nil {
		o.scim, o.hasSCIM = s.String(), true
	}
	return o
}

func checkChanged(c *eng.Case, r *eng.Rec) error {
	text, way := c.S(0), c.At(0)
	u, _ := makeURN(way, text)
	twin, _ := makeURN(way, text)
	o := newChanged(u, twin)
	if o == nil || o.str() != twin.String() { // other properties are about that
		r.Label = "no URN"
		return nil
	}
	first := o.built()
	objs := []*changed{o}
	story := fmt.Sprintf("%s, way %d", eng.Show(text), mod(way, waysOfMaker))
	for k := 1; k+1 < len(c.Num) && k < 40; k += 2 {
		op, x := mod(c.At(k), gKinds), c.At(k+1)
		v := ""
		if len(c.In) > 1 {
			v = c.S(1 + mod(x, len(c.In)-1))
		}
		var err error
		switch op {
		case gSetID:
			story += fmt.Sprintf("; ID = %s", eng.Show(v))
			r.Nontrivial = r.Nontrivial || v != o.id
			o.id, o.u.ID = v, v
		case gSetSS:
			story += fmt.Sprintf("; SS = %s", eng.Show(v))
			r.Nontrivial = r.Nontrivial || v != o.ss
			o.ss, o.u.SS = v, v
		case gSetBoth:
			w := c.S(mod(x+1, len(c.In)))
			story += fmt.Sprintf("; ID, SS = %s, %s", eng.Show(v), eng.Show(w))
			r.Nontrivial = r.Nontrivial || v != o.id || w != o.ss
			o.id, o.u.ID, o.ss, o.u.SS = v, v, w, w
		case gCopy:
			story += "; copy"
			n, w := *o, *o.u
			n.u = &w
			o = &n
			objs = append(objs, o)
		case gGoNormalized:
			story += "; the normalized one"
			n, w := o.u.Normalize(), o.built().Normalize()
			if n == nil || w == nil {
				return fail("%s: nil", story)
			}
			if take(n) != take(w) {
				return fail("%s: %+v, of a URN built from the same fields %+v", story, take(n), take(w))
			}
			o = &changed{u: n, id: w.ID, ss: w.SS, prefix: "urn"}
			objs = append(objs, o)
		case gDecode:
			story += fmt.Sprintf("; decode %s", eng.Show(v))
			doc := []byte(gen.JSONString(gen.NewPRNG(uint64(k)), v))
			e := o.u.UnmarshalJSON(doc)
			want := got(ref.M2141, v)
			if (e == nil) != (want != nil) {
				return fail("%s: error %v, parsing it succeeds: %v", story, e, want != nil)
			}
			if e == nil {
				n := newChanged(o.u, want)
				if n == nil || n.id != want.ID || n.ss != want.SS {
					return fail("%s: gives %+v, should be %+v", story, take(o.u), take(want))
				}
				*o = *n
			}
		case gCompare:
			story += "; compare with the first"
			b := o.built()
			if w := b.Equal(first); o.u.Equal(first) != w || first.Equal(o.u) != w {
				return fail("%s: %v, %v, of URNs built from the same fields %v", story, o.u.Equal(first), first.Equal(o.u), w)
			}
			if t, _ := makeURN(way, text); t != nil {
				if w := b.Equal(first); o.u.Equal(t) != w || t.Equal(o.u) != w {
					return fail("%s: %v, %v, of URNs built from the same fields %v", story, o.u.Equal(t), t.Equal(o.u), w)
				}
			}
		case gBack:
			story += "; back"
			o = objs[mod(x, len(objs))]
		default:
			story += [...]string{"", "", "", "; normalize", "; compare", "; print", "; encode"}[op]
			err = o.judge(op)
		}
		if err != nil {
			return fail("%s: %v", story, err)
		}
	}
	for i, o := range objs {
		for k := 0; k < 4; k++ {
			if err := o.judge([]int{gEqual, gString, gNormalize, gJSON}[(k+len(c.Num))%4]); err != nil {
				return fail("%s; in the end, number %d: %v", story, i, err)
			}
		}
		if err := o.rest(); err != nil {
			return fail("%s; in the end, number %d: %v", story, i, err)
		}
	}
	r.Label = fmt.Sprintf("way %d, %s URNs", mod(way, waysOfMaker), sizeClass(len(objs)))
	return nil
}

// otherFields are values for a field that holds x.
func otherFields(x string) []string {
	out := []string{"", "zz", "%AB", strings.ToUpper(x), strings.ToLower(x), x + "%4F", "A" + x, x + x}
	if len(x) > 1 {
		out = append(out, x[:len(x)-1], x[1:], x[1:]+x[:1], x[:len(x)-1]+"~")
	}
	if x != "" {
		b := []byte(x)
		for i := range b {
			b[i] = "AbCdEf%4F"[i%9]
		}
		out = append(out, string(b), strings.Repeat("Q", len(x)))
	}
	return out
}

func enumChanged(e *eng.Env, yield func(*eng.Case) bool) {
	i := 0
	emit := func(in []string, nums ...int) bool {
		i++
		return i%e.Of != e.Shard || yield(&eng.Case{Kind: "changed", In: in, Num: nums})
	}
	k := 0
	if !enumLong(e, yield, ref.Modes, "changed", func(n int, m ref.Mode, text string, emit func(in []string, nums ...int) bool) bool {
		for i, way := range []int{int(m), wBuilt, wNorm + int(m), wJSON8141, wBuiltCopy} {
			if i > 1 && n > 1<<20 && !e.Thorough() {
				break
			}
			for _, v := range []string{"zz", lg("", "x", ""), lg("", "%4F", "")} {
				k++
				op := []int{gNormalize, gEqual, gString, gJSON, gCopy, gCompare}[k%6]
				if !emit([]string{text, v, "Q%4F", lg("", "x", "y")}, way, op, 0, gSetSS, 0, op, 0, gSetSS, 1, op, 0, gSetID, 2) {
					return false
				}
			}
			if !emit([]string{"urn:ab:x", lg("", "x", ""), lg("", "X", ""), text}, way, gSetSS, 0, gNormalize, 0, gSetSS, 1, gString, 0, gDecode, 2, gSetSS, 0) {
				return false
			}
		}
		return true
	}) {
		return
	}
	for n, p := range gen.TwinTexts(ref.M8141) {
		u, v := got(ref.M8141, p[0]), got(ref.M8141, p[1])
		if u == nil || v == nil {
			continue
		}
		for _, op := range []int{gNormalize, gEqual, gString, gJSON} {
			way := []int{wBuilt, int(ref.M8141)}[(n+op)%2]
			if !emit([]string{p[0], v.SS, v.ID, u.SS}, way, op, 0, gSetSS, 0, op, 0, gSetID, 1, op, 0, gSetSS, 2, op, 0) {
				return
			}
		}
	}
	texts := append(append([]string{}, equalBases...), typical...)
	for _, t := range texts {
		for way := 0; way < waysOfMaker; way++ {
			u, _ := makeURN(way, t)
			if u == nil {
				continue
			}
			for _, field := range []int{gSetSS, gSetID} {
				x := u.SS
				if field == gSetID {
					x = u.ID
				}
				for n, v := range otherFields(x) {
					in := []string{t, v, x, "Other%4F"}
					for op := gNormalize; op < gBack; op++ {
						if !emit(in, way, op, 0, field, 0) || !emit(in, way, field, 0, op, n, field, 1) || !emit(in, way, gNormalize, 0, field, 0, op, 0, field, 2, op, 1) {
							return
						}
					}
					if !emit(in, way, field, 0, gSetID+gSetSS-field, 0, gCompare, 0) || !emit(in, way, gCopy, 0, field, 0, gBack, 0, field, 2, gBack, 1) {
						return
					}
				}
			}
		}
	}
}

func drawChanged(s gen.Src) *eng.Case {
	m := ref.Modes[s.Intn(3)]
	way := s.Intn(waysOfMaker)
	if s.Intn(2) == 1 {
		way = int(m)
	}
	t := gen.Valid(s, m)
	c := &eng.Case{Kind: "changed", In: []string{t}, Num: []int{way}}
	w := ref.Parse(m, t)
	for n := 1 + s.Intn(4); n > 0; n-- {
		old := []string{w.ID, w.SS}[s.Intn(2)]
		x := ""
		switch s.Intn(8) {
		case 0, 1:
			l := otherFields(old)
			x = l[s.Intn(len(l))]
		case 2:
			x = gen.Relate(s, old)
		case 3:
			x = gen.Mutate(s, old)
		case 4:
			x = gen.NID(s, m)
		case 5:
			x = gen.NSS(s, m)
		case 6:
			x = anyField(s)
		case 7:
			x = gen.Equivalent(s, m, t)
			if p := ref.Parse(m, x); p.Accepted && s.Intn(3) > 0 {
				x = p.SS
			}
		}
		c.In = append(c.In, x)
	}
	for n := 1 + s.Intn(12); n > 0; n-- {
		op := s.Intn(2 * gKinds)
		if op >= gKinds {
			op = []int{gSetID, gSetSS, gSetSS, gNormalize, gEqual}[op%5]
		}
		c.Num = append(c.Num, op, s.Intn(6))
	}
	return c
}
