package props

import (
	"runtime/debug"
	"strings"

	"verif/harness/eng"
	"verif/harness/gen"
	"verif/harness/ref"
)

// A case whose kind begins with "long " is one of the kind named behind it,
// with inputs too long to be written down. Its last number is a length, and an
// input that begins with the byte 2 is spelled: text, filler, text, filler ...
// separated by that byte; the fillers are repeated to that length in all.
const longPrefix = "long "

// lg spells a long input.
func lg(parts ...string) string { return "\x02" + strings.Join(parts, "\x02") }

// understood makes the check of a property understand these cases.
func understood(check func(c *eng.Case, r *eng.Rec) error) func(c *eng.Case, r *eng.Rec) error {
	return func(c *eng.Case, r *eng.Rec) error {
		kind := strings.TrimPrefix(c.Kind, longPrefix)
		if kind == c.Kind {
			return check(c, r)
		}
		x := &eng.Case{Kind: kind, In: append([]string{}, c.In...)}
		n := 0
		if l := len(c.Num); l > 0 {
			x.Num, n = append(x.Num, c.Num[:l-1]...), min(max(0, c.Num[l-1]), 1<<26)
		}
		for i, s := range x.In {
			if strings.HasPrefix(s, "\x02") {
				x.In[i] = lengthen(s, n)
			}
		}
		defer func() {
			if n >= 1<<24 {
				x.In = nil
				debug.FreeOSMemory()
			}
		}()
		err := check(x, r)
		r.Label = "long: " + r.Label
		return err
	}
}

// lengthen writes a spelled input down.
func lengthen(s string, n int) string {
	p := strings.Split(s[1:], "\x02")
	fillers := len(p) / 2
	var b strings.Builder
	for i, x := range p {
		if i%2 == 1 && x != "" {
			x = strings.Repeat(x, n/fillers/len(x))
		}
		b.WriteString(x)
	}
	return b.String()
}

// longLens are the lengths of these inputs.
func longLens(e *eng.Env) []int {
	out := []int{1<<16 + 1, 1<<21 + 1}
	if e.Thorough() {
		out = append(out, 1<<15+1, 1<<20+1, 1<<23+1)
	}
	for _, l := range gen.Dict.Huge {
		out = append(out, l+1)
	}
	return out
}

// longTexts are long inputs for a mode, nearly all accepted.
func longTexts(m ref.Mode) []string {
	switch m {
	case ref.M7643:
		const b = "urn:ietf:params:scim:"
		return []string{lg(b+"api:", "n", ""), lg(b+"param:n:", "%4F", ":A"), lg("URN:ietf:params:scim:schemas:n:", "a", "%"), lg(b+"schemas:", "n", ":", "a", "")}
	case ref.M8141:
		return []string{lg("urn:ab:", "x", ""), lg("urn:ab:x?+", "r", ""), lg("urn:ab:x?=", "q", ""), lg("urn:ab:X#", "f", ""), lg("URN:aB:", "%4F", "?+", "R", "?=", "Q", "#", "F", ""), lg("urn:ab:x?+", "r", "?=q?="), lg("urn:ab:x#", "f", "%")}
	}
	return []string{lg("urn:ab:", "x", ""), lg("URN:aB:", "%4F", "A"), lg("urn:ab:", "a:", " "), lg("urn:", "a", ":x")}
}

// enumLong deals long cases: of one kind, f gives the inputs and numbers for
// each long text of each mode.
func enumLong(e *eng.Env, yield func(*eng.Case) bool, modes []ref.Mode, kind string, f func(n int, m ref.Mode, text string, emit func(in []string, nums ...int) bool) bool) bool {
	i := 0
	for _, n := range longLens(e) {
		for _, m := range modes {
			for _, text := range longTexts(m) {
				if !f(n, m, text, func(in []string, nums ...int) bool {
					i++
					return i%e.Of != e.Shard || yield(&eng.Case{Kind: longPrefix + kind, In: in, Num: append(append([]int{}, nums...), n)})
				}) {
					return false
				}
			}
		}
	}
	return true
}
