// Package obs describes everything observable about a text: what parsing,
// printing, normalizing, comparing, encoding and decoding it give. It is used
// by the harness and by the probe programs, which are built in other ways.
package obs

import (
	"encoding/json"
	"strconv"
	"strings"

	urn "github.com/leodido/go-urn"
	scimschema "github.com/leodido/go-urn/scim/schema"
)

type writer struct{ b strings.Builder }

func (w *writer) s(name string, v string) {
	w.b.WriteString(name)
	w.b.WriteByte('=')
	if len(v) > 2048 {
		h := uint64(14695981039346656037)
		for i := 0; i < len(v); i++ {
			h ^= uint64(v[i])
			h *= 1099511628211
		}
		w.b.WriteString(strconv.Itoa(len(v)) + " bytes, hash " + strconv.FormatUint(h, 16) + " ")
		v = v[:100] + v[len(v)-100:]
	}
	w.b.WriteString(strconv.Quote(v))
	w.b.WriteByte(' ')
}

func (w *writer) n(name string, v int) {
	w.b.WriteString(name + "=" + strconv.Itoa(v) + " ")
}

func (w *writer) t(name string, v bool) {
	w.b.WriteString(name + "=" + strconv.FormatBool(v) + " ")
}

func (w *writer) err(name string, err error) {
	if err == nil {
		w.b.WriteString(name + "=nil ")
		return
	}
	w.s(name, err.Error())
}

func (w *writer) scim(name string, s *urn.SCIM) {
	if s == nil {
		w.b.WriteString(name + "=nil ")
		return
	}
	w.n(name+".type", int(s.Type))
	w.s(name+".name", s.Name)
	w.s(name+".rest", s.Other)
	w.s(name+".string", s.String())
	d, err := json.Marshal(s)
	w.s(name+".json", string(d))
	w.err(name+".json error", err)
}

func (w *writer) urn(name string, u *urn.URN) {
	if u == nil {
		w.b.WriteString(name + "=nil ")
		return
	}
	w.s(name+".id", u.ID)
	w.s(name+".ss", u.SS)
	w.s(name+".string", u.String())
	w.s(name+".r", u.RComponent())
	w.s(name+".q", u.QComponent())
	w.s(name+".f", u.FComponent())
	w.n(name+".kind", int(u.RFC()))
	w.t(name+".isscim", u.IsSCIM())
	w.scim(name+".scim", u.SCIM())
	d, err := json.Marshal(u)
	w.s(name+".json", string(d))
	w.err(name+".json error", err)
	d, err = json.Marshal(urn.URN8141{URN: u})
	w.s(name+".json8141", string(d))
	w.err(name+".json8141 error", err)
	n := u.Normalize()
	if n == nil {
		w.b.WriteString(name + ".norm=nil ")
		return
	}
	w.s(name+".norm", n.String())
	w.s(name+".norm.id", n.ID)
	w.s(name+".norm.ss", n.SS)
	w.n(name+".norm.kind", int(n.RFC()))
	w.t(name+".equal", u.Equal(u))
	w.t(name+".equal norm", u.Equal(n))
	w.t(name+".norm equal", n.Equal(u))
	w.t(name+".equal nil", u.Equal(nil))
}

// State is kept from one text to the next.
type State struct {
	mach urn.Machine
	last *urn.URN
}

// Describe describes a text: mode 0..2 is a mode, 3 the default.
func (s *State) Describe(mode int, text string) string {
	modes := [...]urn.ParsingMode{urn.RFC2141Only, urn.RFC7643Only, urn.RFC8141Only, urn.Default}
	m := modes[mode&3]
	w := &writer{}
	w.s("input", text)
	w.n("mode", mode&3)
	opts := []urn.Option{urn.WithParsingMode(m)}
	if m == urn.Default {
		opts = nil
	}
	mach := urn.NewMachine(opts...)
	u, err := mach.Parse([]byte(text))
	w.urn("parsed", u)
	w.err("error", err)
	w.err("Error()", mach.Error())
	v, ok := urn.Parse([]byte(text), opts...)
	w.t("ok", ok)
	w.urn("function", v)
	if s.mach == nil {
		s.mach = urn.NewMachine()
	}
	s.mach.WithParsingMode(m)
	x, err := s.mach.Parse([]byte(text))
	w.t("again", x != nil)
	w.err("again error", err)
	if x != nil {
		w.s("again string", x.String())
		w.t("again equal", x.Equal(u))
		if s.last != nil {
			w.t("equal to the last", x.Equal(s.last))
			w.t("last equal to it", s.last.Equal(x))
		}
		s.last = x
	}
	built := &urn.URN{ID: "Ab", SS: text}
	w.s("built", built.String())
	w.s("built norm", built.Normalize().String())
	typ := scimschema.TypeFromString(text)
	w.n("type", int(typ))
	w.s("type name", typ.String())
	w.s("types", scimschema.Type(len(text)%6-1).String())
	view := urn.SCIM{Type: scimschema.Type(len(text)%6 - 1), Name: text, Other: "o"}
	w.scim("view", &view)
	doc, err := json.Marshal(text)
	w.err("doc error", err)
	for _, d := range [][]byte{doc, []byte(text)} {
		var a urn.URN
		w.err("decode", json.Unmarshal(d, &a))
		w.urn("decoded", &a)
		var b urn.URN8141
		w.err("decode8141", json.Unmarshal(d, &b))
		w.urn("decoded8141", b.URN)
		var c urn.SCIM
		w.err("decodescim", json.Unmarshal(d, &c))
		w.scim("decodedscim", &c)
		var e urn.URN
		w.err("direct", e.UnmarshalJSON(d))
		var f urn.URN8141
		w.err("direct8141", f.UnmarshalJSON(d))
		var g urn.SCIM
		w.err("directscim", g.UnmarshalJSON(d))
	}
	return w.b.String()
}
