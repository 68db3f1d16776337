package props

import (
	"encoding/json"
	"fmt"
	"runtime"
	"strings"
	"time"

	urn "github.com/leodido/go-urn"
	scimschema "github.com/leodido/go-urn/scim/schema"

	"verif/harness/eng"
	"verif/harness/gen"
	"verif/harness/ref"
)

func init() {
	register(&eng.Prop{
		ID:        "C23",
		Rule:      "Groups of 1-3 URNs and SCIM values with any text in their exported fields: empty, parts of URNs, mutated parts, token soup, invalid UTF-8; any type number. Enumerated: all pairs of a list of odd texts as identifier and specific string or name and rest, and fields of up to a megabyte. Non-trivial: some field is not empty.",
		Setup:     loadDict,
		Check:     checkHandmade,
		Enumerate: enumHandmade,
		Draw: func(s gen.Src) *eng.Case {
			c := &eng.Case{Kind: "fields"}
			for n := 1 + s.Intn(3); n > 0; n-- {
				a, b := anyField(s), anyField(s)
				if len(c.In) > 1 && s.Intn(3) == 2 { // related to the one before
					a, b = c.In[len(c.In)-2], c.In[len(c.In)-1]
					switch s.Intn(3) {
					case 2:
						a, b = gen.Relate(s, a), gen.Relate(s, b)
					case 1:
						a = gen.Mutate(s, a)
					default:
						b = gen.Mutate(s, b)
					}
				}
				c.In = append(c.In, a, b)
			}
			c.Num = []int{s.Intn(8) - 2}
			return c
		},
		KeepIn: true,
		Rapid:  3000, RapidThorough: 40000,
		Bulk: 25000, BulkThorough: 2000000,
	})
	register(&eng.Prop{
		ID:        "C24",
		Rule:      "Histories of 3-14 operations on a growing set of URNs: parse by one of two machines, a new one or the package function, decode from JSON (new, or over one of the set), normalize, copy, set the identifier, the specific string or the SCIM parts. After each one the changed URN is compared with the reference, and all others with what they were. Enumerated: parse a text, change the result in each way, parse the text again by each way. Non-trivial: at least two URNs, and one changed.",
		Setup:     loadDict,
		Check:     checkOwned,
		Enumerate: enumOwned,
		Draw:      drawOwned,
		KeepIn:    true,
		Repeat:    20,
		Rapid:     2000, RapidThorough: 40000,
		Bulk: 50000, BulkThorough: 2500000,
	})
}

func anyField(s gen.Src) string {
	m := ref.Modes[s.Intn(3)]
	switch s.Intn(8) {
	case 0:
		return ""
	case 1:
		return gen.NID(s, ref.M2141)
	case 2:
		return gen.NSS(s, m)
	case 3:
		return gen.Mutate(s, gen.NSS(s, m))
	case 4:
		return gen.Soup(s, m)
	case 5:
		_, n, o := gen.SCIMParts(s)
		return n + ":" + o
	case 6:
		b := make([]byte, s.Intn(6))
		for i := range b {
			b[i] = byte(s.Intn(256))
		}
		return string(b)
	}
	return gen.Valid(s, m)
}

var oddFields = []string{
	"", "a", "A", "ab", "Ab", ":", "a:b", "urn", "urn:a", "%", "%%", "%A", "%AB", "%ab", "%%AB", "%A%B", "x%", "x%A", "\xff", "%\xff\xff", "%\xc4\xb0", "\xc4\xb0", "K", "%K", "é", "%éA", "\x00", " ", "?+r", "?=q", "#f", "x?=q#f",
	"a\"b", "a\\b", "<&>", "\u2028", "ietf", "params:scim:api:c", "0", "-", "/", "~", "%s", "%d%n", "\n",
}

func enumHandmade(e *eng.Env, yield func(*eng.Case) bool) {
	i := 0
	for _, a := range oddFields {
		for _, b := range oddFields {
			for k := 0; k < 4; k++ {
				in := []string{a, b}
				switch k {
				case 1:
					in = []string{a, b, b, a}
				case 2:
					in = []string{a + b, "x", a, b + "x", a, b}
				case 3:
					in = []string{a, "x", b, "x"}
				}
				if i++; i%e.Of == e.Shard && !yield(&eng.Case{Kind: "fields", In: in, Num: []int{i%8 - 2}}) {
					return
				}
			}
		}
	}
	lens := []int{4097, 65537, 1 << 17, 1<<20 + 1}
	for _, n := range gen.Dict.Huge {
		if n < 1<<24 {
			lens = append(lens, n+1)
		}
	}
	for _, n := range lens {
		for k, in := range [][]string{{"ab", "*x"}, {"*aB", "x"}, {"*Ab", "*%AF"}, {"ab", "*%", "AB", "*%"}, {"a", "*\xff", "A", "*\xff"}, {"", "*x", "", "*x"}} {
			if i++; i%e.Of == e.Shard && !yield(&eng.Case{Kind: "big", In: in, Num: []int{k % 5, n}}) {
				return
			}
		}
	}
	for n, k := range []int{-1 << 62, -2, -1, 0, 4, 5, 255, 256, 257, 258, 259, 1 << 31, 1<<31 + 1, 1<<32 + 1, 1<<32 + 2, 1<<62 - 1} {
		if n%e.Of == e.Shard && !yield(&eng.Case{Kind: "fields", In: []string{"n", "o", "", "", "n", ""}, Num: []int{k}}) {
			return
		}
	}
}

// viaJSON is what remains of a string that went through encoding/json.
func viaJSON(s string) string {
	b, err := json.Marshal(s)
	if err != nil {
		return s
	}
	var x string
	if json.Unmarshal(b, &x) != nil {
		return s
	}
	return x
}

// long fields, of cases of kind "big": those that start with '*' stand for the
// rest, as often as it fits into the second number.
func spellFields(c *eng.Case) *eng.Case {
	if c.Kind != "big" {
		return c
	}
	x := &eng.Case{Kind: "fields", Num: c.Num}
	n := min(max(0, c.At(1)), 1<<24)
	for _, f := range c.In {
		if len(f) > 1 && f[0] == '*' {
			f = strings.Repeat(f[1:], n/(len(f)-1))
		}
		x.In = append(x.In, f)
	}
	return x
}

func checkHandmade(c *eng.Case, r *eng.Rec) error {
	c = spellFields(c)
	var us []*urn.URN
	n := (len(c.In) + 1) / 2
	r.Label = fmt.Sprintf("%d values", n)
	encodes := func(desc, str string, xs ...json.Marshaler) error {
		for _, x := range xs {
			for way := 0; way < 2; way++ {
				var doc []byte
				var err error
				if way == 0 {
					doc, err = x.MarshalJSON()
				} else {
					doc, err = json.Marshal(x)
				}
				var s string
				if err == nil {
					err = json.Unmarshal(doc, &s)
				}
				if err != nil || len(doc) == 0 || doc[0] != '"' || s != viaJSON(str) {
					return fail("%s: %T encodes to %s (%v), should be the JSON string of %s", desc, x, eng.Show(string(doc)), err, eng.Show(str))
				}
			}
		}
		return nil
	}
	for k := 0; k < n; k++ {
		id, ss := c.S(2*k), c.S(2*k+1)
		if id != "" || ss != "" {
			r.Nontrivial = true
		}
		u := &urn.URN{ID: id, SS: ss}
		us = append(us, u)
		desc := fmt.Sprintf("URN{ID: %s, SS: %s}", eng.Show(id), eng.Show(ss))
		want := ""
		if id != "" && ss != "" {
			want = "urn:" + id + ":" + ss
		}
		for round := 0; round < 2; round++ {
			if u.String() != want || u.ID != id || u.SS != ss {
				return fail("%s (round %d): prints as %s, should be %s", desc, round, eng.Show(u.String()), eng.Show(want))
			}
			if u.RFC() != urn.NONE || u.IsSCIM() || u.SCIM() != nil || u.RComponent() != "" || u.QComponent() != "" || u.FComponent() != "" {
				return fail("%s: kind %v, components %q %q %q, SCIM view nil: %v", desc, u.RFC(), u.RComponent(), u.QComponent(), u.FComponent(), u.SCIM() == nil)
			}
			if err := encodes(desc, want, *u, u, urn.URN8141{URN: u}); err != nil {
				return err
			}
			a, b := u.Normalize(), u.Normalize()
			if a == nil || b == nil || take(a) != take(b) {
				return fail("%s normalizes differently each time", desc)
			}
			if ref.Lower(a.SS) != ref.Lower(ss) {
				return fail("%s: normalizes to the specific string %s", desc, eng.Show(a.SS))
			}
			if take(a.Normalize()) != take(a) {
				return fail("%s: normalizing twice gives %+v, once %+v", desc, take(a.Normalize()), take(a))
			}
			if !u.Equal(u) || !u.Equal(a) || !a.Equal(u) || u.Equal(nil) {
				return fail("%s: equals itself: %v, its normalized form: %v, %v, nil: %v", desc, u.Equal(u), u.Equal(a), a.Equal(u), u.Equal(nil))
			}
		}

		t := scimschema.Type(c.At(0))
		s := urn.SCIM{Type: t, Name: id, Other: ss}
		name := map[scimschema.Type]string{scimschema.Schemas: "schemas", scimschema.API: "api", scimschema.Param: "param"}[t]
		want = "urn:ietf:params:scim:" + name + ":" + id
		if ss != "" {
			want += ":" + ss
		}
		desc = fmt.Sprintf("SCIM{Type: %d, Name: %s, Other: %s}", c.At(0), eng.Show(id), eng.Show(ss))
		if s.String() != want {
			return fail("%s prints as %s, should be %s", desc, eng.Show(s.String()), eng.Show(want))
		}
		if err := encodes(desc, want, s, &s); err != nil {
			return err
		}
		if s.Type != t || s.Name != id || s.Other != ss {
			return fail("%s is changed to %+v by printing", desc, s)
		}
	}
	// equality is an equivalence relation
	for i, u := range us {
		for j, v := range us {
			if u.Equal(v) != v.Equal(u) {
				return fail("%q %q: Equal is not symmetric", c.In[2*i:], c.In[2*j:])
			}
			if u.ID == v.ID && u.SS == v.SS && !u.Equal(v) {
				return fail("%q %q: two URNs with the same fields are not equal", c.S(2*i), c.S(2*i+1))
			}
			for k, w := range us {
				if u.Equal(v) && v.Equal(w) && !u.Equal(w) {
					return fail("Equal is not transitive: %q, numbers %d, %d, %d", c.In, i, j, k)
				}
			}
		}
	}
	return nil
}

// operations of C24: kind, text or object, way or value
const (
	oParse = iota
	oJSON
	oDecode
	oNorm
	oCopy
	oSetID
	oSetSS
	oSetSCIM
	oZero
	oDecode8141
	oDecodeSCIM
	oKeepView // and forget the URN
	oCollect  // garbage
	oKinds
)

var newValues = []string{"zz", "Changed", "", "%AA", "a:b", "x%"}

func checkOwned(c *eng.Case, r *eng.Rec) error {
	type object struct {
		u     *urn.URN
		now   snap
		norm  string // expected normalized string, while it is known
		known bool
		desc  string
	}
	type kept struct { // a view whose URN may be gone
		s    *urn.SCIM
		want string
		desc string
	}
	var objs []*object
	var views []kept
	machines := [2]urn.Machine{urn.NewMachine(), urn.NewMachine()}
	changes := 0
	verify := func(what string, w *ref.URN, m ref.Mode, o *object) error {
		if err := partsDiffer(m, o.u, w); err != nil {
			return fail("%s: %v", what, err)
		}
		if o.u.RFC() != pkind[m] {
			return fail("%s: kind %v", what, o.u.RFC())
		}
		if g := o.u.Normalize().String(); g != w.NormString() {
			return fail("%s: normalizes to %s, should be %s", what, eng.Show(g), eng.Show(w.NormString()))
		}
		o.norm, o.known = w.NormString(), true
		return nil
	}
	story := ""
	for k := 0; 3*k < len(c.Num) && k < 40; k++ {
		op, x, y := mod(c.At(3*k), oKinds), c.At(3*k+1), c.At(3*k+2)
		text := c.S(mod(x, max(1, len(c.In))))
		var o *object
		if len(objs) > 0 {
			o = objs[mod(x, len(objs))]
		}
		m := modeOf(y)
		way := mod(y/3, 4)
		shares := map[*object]bool{} // may change together with o
		var view *urn.SCIM           // that is changed
		what := ""
		switch op {
		case oParse, oJSON:
			w := ref.Parse(m, text)
			if op == oJSON && m == ref.M7643 {
				continue
			}
			var u *urn.URN
			what = fmt.Sprintf("parse %s as %s, way %d", eng.Show(text), m, way)
			if op == oJSON {
				what = fmt.Sprintf("decode %s as %s", eng.Show(text), m)
				doc := []byte(gen.JSONString(gen.NewPRNG(uint64(k)), text))
				if m == ref.M8141 {
					var v urn.URN8141
					if v.UnmarshalJSON(doc) == nil {
						u = v.URN
					}
				} else {
					var v urn.URN
					if v.UnmarshalJSON(doc) == nil {
						u = &v
					}
				}
			} else {
				switch way {
				case 0, 1:
					machines[way].WithParsingMode(pmode[m])
					u, _ = machines[way].Parse([]byte(text))
				case 2:
					u, _ = urn.NewMachine(urn.WithParsingMode(pmode[m])).Parse([]byte(text))
				default:
					u, _ = urn.Parse([]byte(text), urn.WithParsingMode(pmode[m]))
				}
			}
			if (u != nil) != w.Accepted {
				if u == nil || op == oJSON {
					return fail("after %s%s: accepted %v, the grammar says %v", story, what, u != nil, w.Accepted)
				}
				return fail("after %s%s: accepted, the grammar says no", story, what)
			}
			if u == nil {
				story += what + " fails; "
				o = nil
				break
			}
			o = &object{u: u, desc: what}
			if err := verify("after "+story+what, w, m, o); err != nil {
				return err
			}
			objs = append(objs, o)
		case oDecode: // a text chosen by y over object x
			if o == nil {
				continue
			}
			t := c.S(mod(y, max(1, len(c.In))))
			w := ref.Parse(ref.M2141, t)
			what = fmt.Sprintf("decode %s over (%s)", eng.Show(t), o.desc)
			err := o.u.UnmarshalJSON([]byte(gen.JSONString(gen.NewPRNG(uint64(k)), t)))
			if (err == nil) != w.Accepted {
				return fail("after %s%s: error %v, the grammar says %v", story, what, err, w.Accepted)
			}
			if err == nil {
				changes++
				if err := verify("after "+story+what, w, ref.M2141, o); err != nil {
					return err
				}
			} else {
				story += what + " fails; "
				o = nil // nothing may have changed
			}
		case oNorm:
			if o == nil {
				continue
			}
			n := &object{u: o.u.Normalize(), desc: "normalized " + o.desc, norm: o.norm, known: o.known}
			what = n.desc
			if g := n.u.String(); n.known && g != n.norm {
				return fail("after %s%s: it is %s, should be %s", story, what, eng.Show(g), eng.Show(n.norm))
			}
			o = n
			objs = append(objs, n)
		case oCopy:
			if o == nil {
				continue
			}
			v := *o.u
			n := &object{u: &v, desc: "copy of " + o.desc, norm: o.norm, known: o.known}
			what = n.desc
			if take(&v) != o.now {
				return fail("after %s%s: the copy is %+v, the original %+v", story, what, take(&v), o.now)
			}
			o = n
			objs = append(objs, n)
		case oSetID, oSetSS:
			if o == nil {
				continue
			}
			v := newValues[mod(y, len(newValues))]
			what = fmt.Sprintf("set a field of (%s) to %q", o.desc, v)
			old := o.now
			if op == oSetID {
				o.u.ID = v
			} else {
				o.u.SS = v
			}
			changes++
			o.norm, o.known = (&urn.URN{ID: o.u.ID, SS: o.u.SS}).Normalize().String(), true
			if g := o.u.Normalize().String(); g != o.norm {
				return fail("after %s%s: it normalizes to %s, a URN built from the same fields to %s", story, what, eng.Show(g), eng.Show(o.norm))
			}
			want := ""
			if o.u.ID != "" && o.u.SS != "" && old.ID != "" && old.SS != "" { // the prefix is that of the text before
				want = old.Str[:len("urn")] + ":" + o.u.ID + ":" + o.u.SS
				if old.R != "" {
					want += "?+" + old.R
				}
				if old.Q != "" {
					want += "?=" + old.Q
				}
				if old.F != "" {
					want += "#" + old.F
				}
				if g := o.u.String(); g != want {
					return fail("after %s%s: it prints as %s, should be %s", story, what, eng.Show(g), eng.Show(want))
				}
			}
		case oSetSCIM:
			if o == nil || o.u.SCIM() == nil {
				continue
			}
			s := o.u.SCIM()
			v := newValues[mod(y, len(newValues))]
			what = fmt.Sprintf("set the SCIM parts of (%s) to %q", o.desc, v)
			for _, p := range objs { // copies share the view
				if p != o && p.u.SCIM() == s {
					shares[p] = true
				}
			}
			s.Type, s.Name, s.Other = scimschema.Type(mod(y, 5)), v, v
			view = s
			changes++
		case oDecode8141: // into a value that refers to object x: yields a new URN
			if o == nil {
				continue
			}
			t := c.S(mod(y, max(1, len(c.In))))
			w := ref.Parse(ref.M8141, t)
			what = fmt.Sprintf("decode %s into URN8141{(%s)}", eng.Show(t), o.desc)
			v := urn.URN8141{URN: o.u}
			err := v.UnmarshalJSON([]byte(gen.JSONString(gen.NewPRNG(uint64(k)), t)))
			if (err == nil) != w.Accepted {
				return fail("after %s%s: error %v, the grammar says %v", story, what, err, w.Accepted)
			}
			if err != nil {
				story += what + " fails; "
				o = nil
				break
			}
			if v.URN == nil {
				return fail("after %s%s: no error, and no URN", story, what)
			}
			o = &object{u: v.URN, desc: what}
			changes++
			if err := verify("after "+story+what, w, ref.M8141, o); err != nil {
				return err
			}
			objs = append(objs, o)
		case oDecodeSCIM: // over the view of object x
			if o == nil || o.u.SCIM() == nil {
				continue
			}
			s := o.u.SCIM()
			t := c.S(mod(y, max(1, len(c.In))))
			w := ref.Parse(ref.M7643, t)
			what = fmt.Sprintf("decode %s over the SCIM parts of (%s)", eng.Show(t), o.desc)
			err := s.UnmarshalJSON([]byte(gen.JSONString(gen.NewPRNG(uint64(k)), t)))
			if (err == nil) != w.Accepted {
				return fail("after %s%s: error %v, the grammar says %v", story, what, err, w.Accepted)
			}
			if err != nil {
				story += what + " fails; "
				o = nil
				break
			}
			view = s
			changes++
			for _, p := range objs {
				if p != o && p.u.SCIM() == s {
					shares[p] = true
				}
			}
		case oKeepView:
			if o == nil || o.u.SCIM() == nil {
				continue
			}
			what = fmt.Sprintf("keep only the SCIM parts of (%s)", o.desc)
			views = append(views, kept{o.u.SCIM(), showSCIM(o.u.SCIM()), o.desc})
			for i, p := range objs {
				if p == o {
					objs = append(objs[:i:i], objs[i+1:]...)
					break
				}
			}
			o.u, o = nil, nil
			story += what + "; "
			changes++
		case oCollect:
			if c.Kind != "collect" { // it takes long
				continue
			}
			what = "collect the garbage"
			story += what + "; "
			o = nil
			for i := 0; i < 2; i++ {
				runtime.GC()
				time.Sleep(200 * time.Microsecond) // for finalizers
			}
		case oZero: // the whole value
			if o == nil {
				continue
			}
			what = fmt.Sprintf("clear (%s)", o.desc)
			*o.u = urn.URN{}
			changes++
			o.known = false
		}
		for _, p := range objs {
			g := take(p.u)
			if p == o || shares[p] {
				p.now = g
				continue
			}
			if g != p.now {
				return fail("after %s%s: another URN (%s) changes from %+v to %+v", story, what, p.desc, p.now, g)
			}
			if n := p.u.Normalize().String(); p.known && n != p.norm {
				return fail("after %s%s: another URN (%s) normalizes to %s, should be %s", story, what, p.desc, eng.Show(n), eng.Show(p.norm))
			}
		}
		for i, v := range views {
			if g := showSCIM(v.s); v.s == view {
				views[i].want = g
			} else if g != v.want {
				return fail("after %s%s: the SCIM parts kept of another URN (%s) change from %s to %s", story, what, v.desc, v.want, g)
			}
		}
		if o != nil {
			story += what + "; "
		}
	}
	r.Nontrivial = len(objs) > 1 && changes > 0
	r.Label = fmt.Sprintf("%s URNs, changed: %v", sizeClass(len(objs)), changes > 0)
	return nil
}

// showSCIM is everything observable about a view, not sharing its memory.
func showSCIM(s *urn.SCIM) string {
	return fmt.Sprintf("%d %q %q %q", s.Type, s.Name, s.Other, s.String())
}

func mod(n, k int) int { return ((n % k) + k) % k }

func enumOwned(e *eng.Env, yield func(*eng.Case) bool) {
	i := 0
	emit := func(in []string, nums ...int) bool {
		i++
		kind := "own"
		for k := 0; k < len(nums); k += 3 {
			if nums[k] == oCollect {
				kind = "collect"
			}
		}
		return i%e.Of != e.Shard || yield(&eng.Case{Kind: kind, In: in, Num: nums})
	}
	if !enumLong(e, yield, ref.Modes, "own", func(n int, m ref.Mode, text string, emit func(in []string, nums ...int) bool) bool {
		in, k := []string{text, "urn:ab:%4F"}, int(m)
		for w := 0; w < 4; w++ {
			y := k + 3*w
			if !emit(in, oParse, 0, y, oParse, 0, y, oSetSS, 0, 1, oParse, 0, y, oSetSCIM, 1, 2, oParse, 1, y) ||
				!emit(in, oParse, 0, y, oNorm, 0, 0, oCopy, 0, 0, oSetID, 0, 1, oZero, 1, 0, oParse, 0, k+3*(w+1)) ||
				!emit(in, oJSON, 0, k, oParse, 0, y, oDecode, 0, 1, oJSON, 0, k, oDecode, 1, 0, oDecode8141, 0, 1, oKeepView, 0, 0, oParse, 0, y) {
				return false
			}
		}
		return true
	}) {
		return
	}
	for m, g := range ref.Modes {
		for n, p := range gen.TwinTexts(g) {
			w := m + 3*(n%4)
			if ref.Parse(g, p[0]).Accepted && ref.Parse(g, p[1]).Accepted && !emit([]string{p[0], p[1]}, oParse, 0, w, oParse, 1, w, oNorm, 0, 0, oNorm, 1, 0, oParse, 1, m, oJSON, 0, m, oDecode, 0, 1) {
				return
			}
		}
	}
	collect := 0
	for _, t := range equalBases { // views and copies that outlive their URN
		for m := 0; m < 3; m++ {
			if !ref.Parse(ref.Mode(m), t).Accepted {
				continue
			}
			in := []string{t, "urn:ietf:params:scim:api:other:x", "urn:ab:%4F?+r?=q#f"}
			for w := 0; w < 4; w++ {
				y := m + 3*w
				for _, b := range [][]int{{oParse, 1, 1 + 3*w}, {oParse, 2, 2 + 3*w}, {oJSON, 1, 0}, {oParse, 0, y}} {
					if collect++; collect%e.Pick(3, 1) == 0 && !emit(in, oParse, 0, y, oParse, 0, y, oKeepView, 0, 0, oCollect, 0, 0, b[0], b[1], b[2], b[0], b[1], b[2], oCollect, 0, 0, b[0], b[1], b[2], oSetSCIM, 1, 1) ||
						collect%e.Pick(3, 1) == 0 && !emit(in, oParse, 0, y, oNorm, 0, 0, oCopy, 0, 0, oZero, 0, 0, oCollect, 0, 0, b[0], b[1], b[2], oSetSS, 2, 1, b[0], b[1], b[2]) ||
						!emit(in, oParse, 0, y, oKeepView, 0, 0, b[0], b[1], b[2], oSetSCIM, 0, 1, b[0], b[1], b[2]) ||
						!emit(in, oParse, 0, y, oCopy, 0, 0, oKeepView, 0, 0, oSetSCIM, 0, 2, oDecodeSCIM, 0, 1, b[0], b[1], b[2]) {
						return
					}
				}
			}
		}
	}
	texts := append(append([]string{}, equalBases...), typical...)
	for n, t := range texts {
		in := []string{t, equalBases[n%len(equalBases)]}
		for m := 0; m < 3; m++ {
			if !ref.Parse(ref.Mode(m), t).Accepted {
				continue
			}
			for w1 := 0; w1 < 5; w1++ {
				for w2 := 0; w2 < 5; w2++ {
					make := func(w int) (int, int, int) {
						if w == 4 {
							return oJSON, 0, m
						}
						return oParse, 0, m + 3*w
					}
					a1, a2, a3 := make(w1)
					b1, b2, b3 := make(w2)
					for ch := oDecode; ch < oCollect; ch++ {
						for v := 0; v < 2; v++ {
							if !emit(in, a1, a2, a3, ch, 0, v, b1, b2, b3, oSetID, 1, 1, oSetSCIM, 1, 2, a1, a2, a3) ||
								!emit(in, a1, a2, a3, oNorm, 0, 0, oCopy, 0, 0, b1, b2, b3, ch, v, 1, b1, b2, b3) ||
								!emit(in, a1, a2, a3, b1, b2, b3, ch, v, 0, oNorm, 1-v, 0, ch, 2, 1, b1, b2, b3) {
								return
							}
						}
					}
				}
			}
		}
	}
}

func drawOwned(s gen.Src) *eng.Case {
	c := &eng.Case{Kind: "own"}
	m := ref.Modes[s.Intn(3)]
	for n := 1 + s.Intn(3); n > 0; n-- {
		x := gen.Valid(s, m)
		switch {
		case len(c.In) > 0 && s.Intn(3) == 2:
			x = gen.Equivalent(s, m, c.In[0])
		case s.Intn(6) == 5:
			x = gen.Input(s, m)
		}
		c.In = append(c.In, x)
	}
	for n := 3 + s.Intn(12); n > 0; n-- {
		k := s.Intn(18)
		if k >= oCollect {
			k = []int{oParse, oParse, oParse, oJSON, oNorm, oSetID, oSetSCIM}[(k-oCollect)%7]
		}
		y := s.Intn(12)
		if k == oParse && s.Intn(3) > 0 {
			y = int(m) + 3*s.Intn(4)
		}
		c.Num = append(c.Num, k, s.Intn(8), y)
	}
	return c
}
