package props

import (
	"runtime/debug"
	"strings"

	"verif/harness/eng"
	"verif/harness/gen"
	"verif/harness/ref"
)

// A case of kind "big" stands for a text too large to be written down:
// In[0], then In[1] as often as it fits into the last number, then In[2].
// The other numbers are those of the text.
const hugeMax = 1 << 28

// spell writes the text of a case of kind "big" down; done frees its memory.
func spell(c *eng.Case) (x *eng.Case, done func()) {
	if c.Kind != "big" || len(c.Num) == 0 {
		return c, func() {}
	}
	last := len(c.Num) - 1
	n := min(max(0, c.Num[last]), hugeMax)
	x = &eng.Case{Kind: "in", In: []string{c.S(0) + c.S(2)}, Num: c.Num[:last]}
	if f := c.S(1); f != "" {
		x.In[0] = c.S(0) + strings.Repeat(f, n/len(f)) + c.S(2)
	}
	return x, func() {
		if len(x.In[0]) >= 1<<20 {
			x.In[0] = ""
			debug.FreeOSMemory()
		}
	}
}

// spelled makes a check understand cases of kind "big".
func spelled(check func(c *eng.Case, r *eng.Rec) error) func(c *eng.Case, r *eng.Rec) error {
	return func(c *eng.Case, r *eng.Rec) error {
		x, done := spell(c)
		defer done()
		before(x)
		return check(x, r)
	}
}

// huge enumerates texts of megabytes; nums are the numbers before the length.
func huge(e *eng.Env, m ref.Mode, nums []int, yield func(*eng.Case) bool) bool {
	forms := [][3]string{{"urn:ab:", "a", ""}, {"URN:aB:", "%4F", ""}, {"urn:ab:", ":", " "}, {"urn:", "a", ":x"}}
	if m == ref.M7643 {
		const b = "urn:ietf:params:scim:"
		forms = [][3]string{{b + "api:", "n", ""}, {b + "param:", "n", ":r"}, {b + "schemas:core:", "2.0:", "U"}, {b + "api:c:", "%4f", "%"}, {b + "api:", "n", "-"}}
	}
	if m == ref.M8141 {
		forms = append(forms, [3]string{"urn:ab:x?+", "a", ""}, [3]string{"urn:ab:x?=", "a/?", ""}, [3]string{"urn:ab:x#", "?", ""}, [3]string{"urn:ab:x?+", "r", "?=q#f"}, [3]string{"urn:ab:x?=", "q", "?="}, [3]string{"urn:ab:x#", "f", "#"})
	}
	lens := []int{1<<20 + 1, 1<<21 + 1, 1<<22 + 3, 1<<24 + 5}
	if e.Thorough() {
		lens = append(lens, 1<<25+1, 1<<26+1, 1<<27+1)
	}
	for _, l := range gen.Dict.Huge {
		lens = append(lens, l+1)
	}
	for j, n := range lens {
		for i, f := range forms {
			if (i+j)%e.Of == e.Shard && !yield(&eng.Case{Kind: "big", In: []string{f[0], f[1], f[2]}, Num: append(append([]int{}, nums...), n)}) {
				return false
			}
		}
	}
	return true
}
