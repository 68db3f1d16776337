package props

import (
	"encoding/json"
	"fmt"
	"runtime"
	"strings"
	"syscall"

	urn "github.com/leodido/go-urn"
	scimschema "github.com/leodido/go-urn/scim/schema"

	"verif/harness/eng"
	"verif/harness/gen"
	"verif/harness/ref"
)

func init() {
	register(&eng.Prop{
		ID:        "C22",
		Rule:      "Inputs of 4 KB to 4 MB made by repeating fillers in each part of the grammar, well-formed or spoilt at the end; bytes allocated and CPU time of each operation are bounded by a linear function of the length. JSON documents of all forms are decoded, and values with such fields printed, normalized, compared and encoded, in the same bounds. Sequences of parses by one machine and by new machines: the memory in use after them is bounded. Non-trivial: at least 4 KB, or a sequence.",
		Setup:     loadDict,
		HangCPU:   60,
		Check:     checkCost,
		Enumerate: enumCost,
		Draw: func(s gen.Src) *eng.Case {
			k := 4096 << s.Intn(7)
			switch s.Intn(4) {
			case 2:
				return &eng.Case{Kind: "doc", In: []string{docHeads[s.Intn(len(docHeads))], docFillers[s.Intn(len(docFillers))] + docFillers[s.Intn(len(docFillers))], docTails[s.Intn(len(docTails))]}, Num: []int{0, k + s.Intn(k)}}
			case 3:
				return &eng.Case{Kind: "built", In: []string{builtHeads[s.Intn(len(builtHeads))], costFiller(s), tails[s.Intn(len(tails))]}, Num: []int{s.Intn(3), k + s.Intn(k)}}
			}
			return &eng.Case{Kind: "op", In: []string{heads[s.Intn(len(heads))], costFiller(s), tails[s.Intn(len(tails))]}, Num: []int{s.Intn(3), k + s.Intn(k)}}
		},
		Rapid: 30, RapidThorough: 300,
		Bulk: 100, BulkThorough: 4000,
		Procs: 2, KeepIn: true, ShrinkMs: 20000,
	})
}

var heads = []string{
	"", "u", "urn:", "urn:a", "urn:ab:", "urn:ab:x", "urn:ab:%4F", "urn:ab:x?+", "urn:ab:x?+r", "urn:ab:x?=", "urn:ab:x?=q", "urn:ab:x?+r?=", "urn:ab:x?+r?=q", "urn:ab:x#", "urn:ab:x?+r#", "urn:ab:x?=q#", "urn:ab:x?+r?=q#f",
	"urn:ietf:params:scim:", "urn:ietf:params:scim:api:", "urn:ietf:params:scim:schemas:c", "urn:ietf:params:scim:param:c:", "URN:ietf:params:scim:param:c:a", "urn:urn-", "urn:urn",
}

var costFillers = []string{"a", "A", "%4F", "%AF", "%zZ", ":", "-", "?", "/", "?/", "/?", "?a", "??", "?+/", "?=/", "?=?", "?+?", "~", "&", "#", "%", "aA%4f:", "urn:", "?=", "?+", "?+a?=b#c", "\x00", "\xff", "é", "?=/?", "a?"}

func costFiller(s gen.Src) string {
	f := costFillers[s.Intn(len(costFillers))]
	for n := s.Intn(3); n > 0; n-- {
		f += costFillers[s.Intn(len(costFillers))]
	}
	return f
}

var tails = []string{"", " ", "%", "%4", "#", "#f", "?", "?=q", "?+r", "?=q#f", "\n", "x"}

// documents: what they begin with, repeat and end with
var (
	docHeads   = []string{`"`, `"urn:ab:`, `"urn:ab:x#`, `"urn:ab:x?=`, `"urn:ietf:params:scim:api:`, `"urn:ietf:params:scim:api:n:`, ``, `[`, `{"a":`, `x`}
	docFillers = append([]string{`\/`, `\\`, `\"`, `\u0041`, `\u00e9`, `\ud83d\ude00`, `\ud800`, `\n`, `\u003a`, `\u0025`, ` `, "\n", `[`, `{`, `"`, `",`, `0`, `,`, `\`, "\u2028", `\u`, `\x`, `"a":`, `a\/`}, costFillers...)
	docTails   = []string{`"`, ``, `" `, `"x`, `%"`, `\`, ` "`, `]`}
	builtHeads = []string{"", "x", "%", "%4", "urn:", ":", "params:scim:api:", "%4f"}
)

const (
	allocPerByte = 200
	allocBase    = 64 << 10
	cpuBase      = 1.5    // seconds
	cpuPerByte   = 2.5e-6 // seconds: hundreds of times what a linear operation takes
	accumBase    = 6 << 20
)

func cpuNow() float64 {
	var ru syscall.Rusage
	if err := syscall.Getrusage(syscall.RUSAGE_SELF, &ru); err != nil {
		panic(err)
	}
	return float64(ru.Utime.Sec+ru.Stime.Sec) + float64(ru.Utime.Usec+ru.Stime.Usec)/1e6
}

// measure runs f; alloc and cpu are the least of up to three runs, more runs
// being done only when a bound is exceeded.
func measure(n int, what string, f func()) error {
	boundA, boundC := uint64(allocPerByte)*uint64(n)+allocBase, cpuBase+cpuPerByte*float64(n)
	var alloc uint64
	var cpu float64
	for try := 0; try < 3; try++ {
		var a, b runtime.MemStats
		runtime.ReadMemStats(&a)
		t := cpuNow()
		f()
		t = cpuNow() - t
		runtime.ReadMemStats(&b)
		d := b.TotalAlloc - a.TotalAlloc
		if try == 0 || d < alloc {
			alloc = d
		}
		if try == 0 || t < cpu {
			cpu = t
		}
		if alloc <= boundA && cpu <= boundC {
			return nil
		}
	}
	if alloc > boundA {
		return fail("%s allocates %d bytes for an input of %d bytes (bound %d)", what, alloc, n, boundA)
	}
	return fail("%s takes %.1f s of CPU time for an input of %d bytes (bound %.1f)", what, cpu, n, boundC)
}

func checkCost(c *eng.Case, r *eng.Rec) error {
	m := modeOf(c.At(0))
	if c.Kind == "seq" {
		return checkAccumulation(c, r)
	}
	n := min(max(0, c.At(1)), 1<<23)
	head, filler, tail := c.S(0), c.S(1), c.S(2)
	in := head
	if filler != "" {
		in += strings.Repeat(filler, n/len(filler)+1)[:n/len(filler)*len(filler)]
	}
	in += tail
	r.Nontrivial = len(in) >= 4096
	desc := fmt.Sprintf("%s: input %s", m, eng.Show(in))
	switch c.Kind {
	case "doc":
		return costOfDecoding(in, r)
	case "built":
		return costOfBuilt(in, c.At(0), r)
	}
	b := []byte(in)
	var u *urn.URN
	var err error
	if e := measure(len(in), "parsing", func() { u, err = urn.NewMachine(urn.WithParsingMode(pmode[m])).Parse(b) }); e != nil {
		return fail("%s: %v", desc, e)
	}
	if u == nil || err != nil {
		r.Label = fmt.Sprintf("%s rejected, %s", m, sizeName(len(in)))
		if err != nil {
			if e := measure(len(in), "printing the error", func() { _ = err.Error() }); e != nil {
				return fail("%s: %v", desc, e)
			}
		}
		if m == ref.M2141 {
			return nil
		}
		return nil
	}
	r.Label = fmt.Sprintf("%s accepted, %s", m, sizeName(len(in)))
	if u.SS == "" {
		return nil
	}
	var others []*urn.URN
	every := []byte(u.SS)
	for i, ch := range every {
		if 'a' <= ch && ch < 'z' || 'A' <= ch && ch < 'Z' || '0' <= ch && ch < '9' {
			every[i]++
		} else if ch != '%' {
			every[i] = 'x'
		}
	}
	for _, x := range []string{string(every), u.SS[:len(u.SS)-1] + "_", "_" + u.SS[1:], u.SS + "a", strings.ToUpper(u.SS)} {
		o := &urn.URN{ID: u.ID, SS: x}
		if v, err := urn.NewMachine(urn.WithParsingMode(pmode[m])).Parse([]byte(o.String())); err == nil && len(in)%2 == 0 {
			o = v
		}
		others = append(others, o)
	}
	var nu *urn.URN
	var str string
	var doc []byte
	for _, o := range []struct {
		what string
		f    func()
	}{
		{"printing", func() { str = u.String() }},
		{"normalizing", func() { nu = u.Normalize() }},
		{"normalizing again", func() { nu = nu.Normalize() }},
		{"comparing", func() { u.Equal(nu) }},
		{"comparing with itself", func() { u.Equal(u) }},
		{"reading its parts", func() { u.RFC(); u.IsSCIM(); u.RComponent(); u.QComponent(); u.FComponent() }},
		{"encoding", func() { doc, err = u.MarshalJSON() }},
		{"normalizing one built from its parts", func() { (&urn.URN{ID: u.ID, SS: u.SS}).Normalize() }},
		{"comparing with one built from its parts", func() { u.Equal(&urn.URN{ID: u.ID, SS: u.SS}) }},
		{"comparing with one that differs everywhere", func() { u.Equal(others[0]); others[0].Equal(u) }},
		{"comparing with one that differs at the end", func() { u.Equal(others[1]); others[1].Equal(u) }},
		{"comparing with one that differs at the beginning", func() { u.Equal(others[2]); others[2].Equal(u) }},
		{"comparing with a longer one", func() { u.Equal(others[3]); others[3].Equal(u) }},
		{"comparing with one in other case", func() { u.Equal(others[4]); others[4].Equal(u) }},
		{"parsing by the package function", func() { urn.Parse(b, urn.WithParsingMode(pmode[m])) }},
	} {
		if e := measure(len(in), o.what, o.f); e != nil {
			return fail("%s: %v", desc, e)
		}
	}
	_ = str
	switch m {
	case ref.M2141:
		if e := measure(len(doc), "decoding", func() { var x urn.URN; x.UnmarshalJSON(doc) }); e != nil {
			return fail("%s: %v", desc, e)
		}
	case ref.M8141:
		if e := measure(len(doc), "decoding", func() { var x urn.URN8141; x.UnmarshalJSON(doc) }); e != nil {
			return fail("%s: %v", desc, e)
		}
		if e := measure(len(in), "encoding", func() { (urn.URN8141{URN: u}).MarshalJSON() }); e != nil {
			return fail("%s: %v", desc, e)
		}
	case ref.M7643:
		if e := measure(len(doc), "decoding", func() { var x urn.SCIM; x.UnmarshalJSON(doc) }); e != nil {
			return fail("%s: %v", desc, e)
		}
		if s := u.SCIM(); s != nil {
			if e := measure(len(in), "printing and encoding the SCIM view", func() { _ = s.String(); s.MarshalJSON() }); e != nil {
				return fail("%s: %v", desc, e)
			}
		}
	}
	return nil
}

// costOfDecoding measures what decoding a document takes.
func costOfDecoding(doc string, r *eng.Rec) error {
	r.Label = "document, " + sizeName(len(doc))
	b := []byte(doc)
	var x urn.URN
	var y urn.URN8141
	var z urn.SCIM
	var err error
	for _, o := range []struct {
		what string
		f    func()
	}{
		{"UnmarshalJSON of a URN", func() { err = x.UnmarshalJSON(b) }},
		{"UnmarshalJSON of an RFC 8141 URN", func() { err = y.UnmarshalJSON(b) }},
		{"UnmarshalJSON of a SCIM URN", func() { err = z.UnmarshalJSON(b) }},
		{"json.Unmarshal of a URN", func() { err = json.Unmarshal(b, &x) }},
	} {
		if e := measure(len(doc), o.what, o.f); e != nil {
			return fail("document %s: %v", eng.Show(doc), e)
		}
		if err != nil {
			if e := measure(len(doc), "printing the error", func() { _ = err.Error() }); e != nil {
				return fail("%s of document %s: %v", o.what, eng.Show(doc), e)
			}
		}
	}
	return nil
}

// costOfBuilt measures what is done with values built with a text as one of
// their fields, or as all of them.
func costOfBuilt(text string, where int, r *eng.Rec) error {
	r.Label = "built, " + sizeName(len(text))
	u, s := &urn.URN{ID: "ab", SS: "x"}, &urn.SCIM{Type: scimschema.API, Name: "n", Other: "o"}
	switch where {
	case 0:
		u.SS, s.Other = text, text
	case 1:
		u.ID, s.Name = text, text
	default:
		u.ID, u.SS, s.Name, s.Other = text, text, text, text
	}
	v := &urn.URN{ID: strings.Clone(u.ID), SS: strings.Clone(u.SS)}
	n := 2 * len(text)
	for _, o := range []struct {
		what string
		f    func()
	}{
		{"printing", func() { _ = u.String() }},
		{"normalizing", func() { u.Normalize() }},
		{"normalizing twice", func() { u.Normalize().Normalize() }},
		{"comparing", func() { u.Equal(v) }},
		{"encoding", func() { u.MarshalJSON() }},
		{"encoding as an RFC 8141 URN", func() { (urn.URN8141{URN: u}).MarshalJSON() }},
		{"printing a SCIM value", func() { _ = s.String() }},
		{"encoding a SCIM value", func() { s.MarshalJSON() }},
		{"finding a type", func() { scimschema.TypeFromString(text) }},
	} {
		if e := measure(n, o.what, o.f); e != nil {
			return fail("built from %s (%d): %v", eng.Show(text), where, e)
		}
	}
	return nil
}

func sizeName(n int) string {
	switch {
	case n < 4096:
		return "< 4 KB"
	case n < 65536:
		return "4-64 KB"
	case n < 1<<20:
		return "64 KB-1 MB"
	}
	return ">= 1 MB"
}

func inUse() uint64 {
	runtime.GC()
	runtime.GC()
	var s runtime.MemStats
	runtime.ReadMemStats(&s)
	return s.HeapInuse + s.StackInuse
}

// checkAccumulation: Num is mode, length, count, flavour. Many parses, nothing
// kept: the memory in use afterwards must not have grown with their number.
func checkAccumulation(c *eng.Case, r *eng.Rec) error {
	n, count, flavour := min(max(1, c.At(1)), 1<<20), min(max(1, c.At(2)), 400000), c.At(3)
	r.Nontrivial, r.Label = true, fmt.Sprintf("sequence of %d parses of %d bytes, flavour %d", count, n, flavour)
	// at least 64 MB of text in total, or 100000 parses, when nothing is shrunk
	mach := urn.NewMachine(urn.WithParsingMode(pmode[modeOf(c.At(0))]))
	buf := make([]byte, 0, n+100)
	var keep struct { // receivers used again and again
		x urn.URN
		y urn.URN8141
		z urn.SCIM
	}
	one := func(i int) {
		m := modeOf(c.At(0))
		if flavour&4 != 0 {
			m = modeOf(i)
			mach.WithParsingMode(pmode[m])
		}
		buf = buf[:0]
		if flavour&16 != 0 {
			buf = append(buf, '"')
		}
		id := "ab"
		if flavour&8 != 0 {
			id = fmt.Sprintf("ab%012d", i) // an identifier or name never seen before
		}
		if m == ref.M7643 {
			buf = append(append(append(buf, "urn:ietf:params:scim:api:"...), id...), ':')
		} else {
			buf = append(append(append(buf, "urn:"...), id...), ':')
		}
		for k, x := 0, i; k < 7; k, x = k+1, x/10 {
			buf = append(buf, '%', "0123456789"[x%10], 'A')
		}
		for k := 0; k < n; k++ {
			buf = append(buf, "abcdefghijklmnop"[(k+i)&15])
		}
		if flavour&1 != 0 {
			buf = append(buf, ' ') // rejected
		}
		if flavour&16 != 0 {
			buf = append(buf, '"')
			switch m {
			case ref.M2141:
				if keep.x.UnmarshalJSON(buf) == nil {
					_, _ = keep.x.MarshalJSON()
				}
			case ref.M8141:
				if keep.y.UnmarshalJSON(buf) == nil {
					_, _ = keep.y.MarshalJSON()
				}
			default:
				if keep.z.UnmarshalJSON(buf) == nil {
					_, _ = keep.z.MarshalJSON()
				}
			}
			return
		}
		if flavour&2 != 0 {
			u, ok := urn.Parse(buf, urn.WithParsingMode(pmode[m]))
			if ok && u != nil {
				_ = u.Normalize().String()
				u.Equal(u)
				_, _ = u.MarshalJSON()
			}
			return
		}
		mach.Parse(buf)
	}
	for i := 0; i < 3; i++ {
		one(i)
	}
	before := inUse()
	for i := 0; i < count; i++ {
		one(i)
	}
	after := inUse()
	bound := before + accumBase + 60*uint64(n)
	if after > bound {
		// once more: only growth with the number of parses is an offence
		for i := 0; i < count; i++ {
			one(i + count)
		}
		if again := inUse(); again > after+(after-before)/2 {
			return fail("%s: %d parses of %d bytes (flavour %d) leave %d bytes in use, %d more parses leave %d; before: %d", modeOf(c.At(0)), count, n, flavour, after, count, again, before)
		}
	}
	runtime.KeepAlive(mach)
	runtime.KeepAlive(&keep)
	return nil
}

func enumCost(e *eng.Env, yield func(*eng.Case) bool) {
	i := 0
	emit := func(c *eng.Case) bool {
		i++
		return i%e.Of != e.Shard || yield(c)
	}
	for m := range ref.Modes {
		for flavour := 0; flavour < 32; flavour++ {
			if flavour&18 == 18 {
				continue
			}
			if !emit(&eng.Case{Kind: "seq", Num: []int{m, 20, 100000, flavour}}) || !emit(&eng.Case{Kind: "seq", Num: []int{m, 20000, 1000, flavour}}) {
				return
			}
		}
	}
	sizes := []int{20000, 300000}
	if e.Thorough() {
		sizes = []int{5000, 40000, 300000, 2000000}
	}
	for _, n := range sizes {
		for m := range ref.Modes {
			for h, head := range heads {
				if (strings.Contains(head, "scim") && m == 2) || (strings.ContainsAny(head, "?#") && m != 2) {
					continue
				}
				for f, filler := range costFillers {
					for t, tail := range tails {
						if !e.Thorough() && (h+f+t)%6 != 0 {
							continue
						}
						if !emit(&eng.Case{Kind: "op", In: []string{head, filler, tail}, Num: []int{m, n}}) {
							return
						}
					}
				}
			}
		}
	}
	for _, n := range sizes[len(sizes)-1:] {
		for h, head := range docHeads {
			for f, filler := range docFillers {
				for t, tail := range docTails {
					if !e.Thorough() && t > 0 && (h+f+t)%8 != 0 {
						continue
					}
					if !emit(&eng.Case{Kind: "doc", In: []string{head, filler, tail}, Num: []int{0, n}}) {
						return
					}
				}
			}
		}
		for h, head := range builtHeads {
			for f, filler := range docFillers {
				if !emit(&eng.Case{Kind: "built", In: []string{head, filler, ""}, Num: []int{(h + f) % 3, n}}) || e.Thorough() && (!emit(&eng.Case{Kind: "built", In: []string{head, filler, "x"}, Num: []int{(h + f + 1) % 3, n}}) || !emit(&eng.Case{Kind: "built", In: []string{head, filler, "%"}, Num: []int{(h + f + 2) % 3, n}})) {
					return
				}
			}
		}
	}
	for _, f := range []string{"a", "%AF", "?", "?/", "/?", "?=/", ":A"} {
		for m := range ref.Modes {
			for _, head := range []string{"urn:ab:x", "urn:ab:x?+r", "urn:ab:x?=q", "urn:ab:x#f", "urn:ietf:params:scim:param:c:a", "urn:ietf:params:scim:param:c"} {
				if !emit(&eng.Case{Kind: "op", In: []string{head, f, ""}, Num: []int{m, 2 << 20}}) {
					return
				}
			}
		}
	}
}
