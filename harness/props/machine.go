package props

import (
	"fmt"

	urn "github.com/leodido/go-urn"

	"verif/harness/eng"
	"verif/harness/gen"
	"verif/harness/ref"
)

func init() {
	register(&eng.Prop{
		ID:        "C09",
		Rule:      "Histories of parses and mode changes on one machine: all pairs of a set of typical inputs x modes and all triples in each mode (enumerated), random histories of 2-40 steps, long ones of up to 3000, typical inputs in turn 66000 times, one or two inputs again and again for thousands of times, and one byte changed; the texts in buffers of their own or in one that is used again. Every step is compared with a new machine, every earlier result is compared with its snapshot. Non-trivial: at least two parses.",
		Setup:     loadDict,
		Check:     checkHistory,
		Enumerate: enumHistory,
		Draw:      drawHistory,
		Rapid:     1500, RapidThorough: 30000,
		Bulk: 25000, BulkThorough: 900000,
	})
	register(&eng.Prop{
		ID:        "C16",
		Rule:      "An option list over Default and the three modes, then modes set on two machines in turns, each followed by a parse; compared with a new machine given the last mode only; the same option values are used again afterwards. Modes that do not exist may come between, and options of the user's own (none set, two set, some that parse or make other machines); also lists changed afterwards, and options applied to a machine of the user's own. Also options used thousands of times. Enumerated: all option lists up to length 3, long ones, and all pairs of settings x typical inputs. Non-trivial: at least one mode set and the input starts with 'urn:'.",
		Setup:     loadDict,
		Check:     checkMode,
		Enumerate: enumMode,
		Draw: func(s gen.Src) *eng.Case {
			c := &eng.Case{Kind: "mode", In: []string{gen.Input(s, ref.Modes[s.Intn(3)])}}
			n := s.Intn(4)
			c.Num = append(c.Num, n)
			few := s.Intn(4) < 3
			for ; n > 0; n-- {
				if few {
					c.Num = append(c.Num, s.Intn(4))
				} else {
					c.Num = append(c.Num, s.Intn(4+owns+len(weird)))
				}
			}
			for n := s.Intn(5); n > 0; n-- { // machine*4+mode
				if few {
					c.Num = append(c.Num, s.Intn(8))
				} else {
					c.Num = append(c.Num, s.Intn(8+2*len(weird)))
				}
			}
			return c
		},
		Rapid: 3000, RapidThorough: 40000,
		Bulk: 60000, BulkThorough: 3000000,
	})
}

// typical inputs: one or more for each way a parse can go and stop.
var typical = []string{
	"", "u", "urn", "x", "urn:", "urn:-", "urn:a", "urn:a:", "urn:urn:x", "urn:urn", "URN:urnx:X", "urn:ab:x", "URN:AB:%AF%4F", "urn:ab:x%", "urn:ab:x%4", "urn:ab:A%4F ", "urn:ab:%AB%CD%EF%Z",
	"urn:ab:x\n", "urn:aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa:x", "urn:aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa:X", "urn:ietf:params:scim:", "urn:ietf:params:scim:schemas:core:2.0:User", "URN:ietf:params:scim:api:c",
	"urn:ietf:params:scim:param:c:", "urn:ietf:params:scim:param:c:%4", "urn:ietf:params:scim:param:C:%4F", "urn:ietf:params:scim:api:-", "urn:ietf:params:scix", "urn:ietf:params:scim:schemas:core:a b",
	"urn:urn-7:x", "urn:urn-a:x", "urn:urn-0:x", "URN:URN-9:X", "urn:ab:x?+r", "urn:ab:x?=q", "urn:ab:x#f", "urn:ab:x?+r?=q#f", "urn:ab:x?+R?/%AB?=Q?/%CD#F?/%EF", "urn:ab:x?+r?+s", "urn:ab:x?=q?=p",
	"urn:ab:x?+r?=", "urn:ab:x?+", "urn:ab:x?=", "urn:ab:x?", "urn:ab:x#", "urn:ab:x##", "urn:ab:x?+%4", "urn:ab:x?=%4", "urn:ab:x#%4", "urn:ab:x?+r?=q?=s", "urn:ab:x?+?", "urn:ab:/x", "urn:ab:x/y~z&", "urn:a-:x", "urn:ab:x?=%AF#%AF",
	"urn:ab:x?+r#%4", "urn:ab:x?=q#%4", "urn:ab:x?+r?=q#f%", "urn:ab:%AF?+r?=q ", "urn:ab:%AFx?+%AF?=%", "urn:ietf:params:scim:api:c:%AFx%", "urn:ietf:params:scim:api:c:%AF",
}

// settings of a step: 0 keep, 1..4 set Default..RFC8141Only; 5..9 and 10..14:
// in a buffer used by all steps
func checkHistory(c *eng.Case, r *eng.Rec) error {
	in := c.In
	if c.Kind == "long" { // Num: seed, steps
		src := gen.NewPRNG(uint64(c.At(0)))
		steps := c.At(1)
		in = nil
		nums := []int{0, 0}
		for i := 0; i < steps && i < 20000; i++ {
			m := ref.Modes[src.Intn(3)]
			x := gen.Input(src, m)
			if src.Intn(2) == 0 {
				x = typical[src.Intn(len(typical))]
			}
			in = append(in, x)
			nums = append(nums, src.Intn(15))
		}
		return runHistory(r, in, nums[2:], nil)
	}
	if c.Kind == "streak" || c.Kind == "longstreak" {
		return checkStreak(c, r)
	}
	if c.Kind == "count" { // Num: setting, steps
		in = make([]string, min(max(0, c.At(1)), 1<<18))
		for i := range in {
			in[i] = typical[i%len(typical)]
		}
		return runHistory(r, in, []int{c.At(0)}, nil)
	}
	return runHistory(r, in, c.Num, c)
}

// checkStreak: the inputs in turn, many times, then everything else once.
// Num: setting (0..4; more: the mode changes each time), how many times.
func checkStreak(c *eng.Case, r *eng.Rec) error {
	if len(c.In) == 0 {
		return nil
	}
	mach, set, n := urn.NewMachine(), mod(c.At(0), 6), min(max(0, c.At(1)), 3000)
	if c.Kind == "longstreak" {
		n = min(max(0, c.At(1)), 200000)
	}
	r.Nontrivial, r.Label = n >= 2, "the same inputs again and again"
	mode := func(i int) urn.ParsingMode {
		switch {
		case set == 0:
			return urn.Default
		case set < 5:
			return urn.ParsingMode(set - 1)
		}
		return urn.ParsingMode(i / len(c.In) % 4)
	}
	if set > 0 {
		mach.WithParsingMode(mode(0))
	}
	want := map[[2]int]result{}
	step := func(i int, k int, x string) error {
		if set == 5 {
			mach.WithParsingMode(mode(i))
		}
		u, err := mach.Parse([]byte(x))
		w, ok := want[[2]int{k, int(mode(i))}]
		if !ok || k >= len(c.In) {
			w = resultOf(urn.NewMachine(urn.WithParsingMode(mode(i))).Parse([]byte(x)))
			want[[2]int{k, int(mode(i))}] = w
		}
		if got := resultOf(u, err); got != w {
			return fail("parse number %d, mode %d: %s on the used machine gives %s, on a new one %s", i, mode(i), eng.Show(x), got, w)
		}
		return nil
	}
	for i := 0; i < n; i++ {
		if err := step(i, i%len(c.In), c.In[i%len(c.In)]); err != nil {
			return err
		}
	}
	for k, x := range typical {
		if err := step(n+k, len(c.In)+k, x); err != nil {
			return err
		}
	}
	return nil
}

func runHistory(r *eng.Rec, in []string, nums []int, c *eng.Case) error {
	at := func(i int) int {
		if i < len(nums) {
			return nums[i]
		}
		return 0
	}
	mach := urn.NewMachine()
	fresh := func(cur int) urn.Machine {
		if cur == 0 {
			return urn.NewMachine()
		}
		return urn.NewMachine(urn.WithParsingMode(urn.ParsingMode(cur - 1)))
	}
	type past struct {
		u   *urn.URN
		err error
		res result
		in  string
	}
	var hist []past
	var arena []byte
	for _, x := range in {
		if len(x) > len(arena) {
			arena = make([]byte, len(x))
		}
	}
	cur := 0
	r.Nontrivial = len(in) >= 2
	r.Label = fmt.Sprintf("history of %s", sizeClass(len(in)))
	verify := func(h *past, i int) error {
		if g := resultOf(h.u, h.err); g != h.res {
			return fail("the result of parsing %s was %s, and became %s after step %d", eng.Show(h.in), h.res, g, i)
		}
		return nil
	}
	for i, x := range in {
		set := at(i)
		if s := mod(set, 5); s >= 1 {
			mach.WithParsingMode(urn.ParsingMode(s - 1))
			cur = s
		}
		text := []byte(x)
		switch place := mod(set/5, 3); place { // in a buffer of its own, or in one that is used again
		case 1, 2:
			text = arena[:len(x)]
			if place == 2 {
				text = arena[len(arena)-len(x):]
			}
			copy(text, x)
		}
		u, err := mach.Parse(text)
		got := resultOf(u, err)
		want := resultOf(fresh(cur).Parse([]byte(x)))
		if got != want {
			return fail("step %d, mode %d: parsing %s on the used machine gives %s, on a new one %s", i, cur-1, eng.Show(x), got, want)
		}
		hist = append(hist, past{u, err, got, x})
		// all earlier results when the history is short, else the latest ones
		for k := max(0, len(hist)-6); k < len(hist); k++ {
			if err := verify(&hist[k], i); err != nil {
				return err
			}
		}
	}
	for k := range hist {
		if err := verify(&hist[k], len(in)); err != nil {
			return err
		}
	}
	return nil
}

func sizeClass(n int) string {
	switch {
	case n < 2:
		return "0-1"
	case n < 4:
		return "2-3"
	case n < 10:
		return "4-9"
	case n < 50:
		return "10-49"
	}
	return "50+"
}

func enumHistory(e *eng.Env, yield func(*eng.Case) bool) {
	i := 0
	emit := func(c *eng.Case) bool {
		i++
		return i%e.Of != e.Shard || yield(c)
	}
	n := len(typical)
	for a := 0; a < n; a++ {
		for b := 0; b < n; b++ {
			for ma := 0; ma <= 4; ma++ {
				for mb := 0; mb <= 4; mb++ {
					if ma == 1 && mb == 1 {
						continue
					}
					if !emit(&eng.Case{Kind: "hist", In: []string{typical[a], typical[b], typical[a]}, Num: []int{ma, mb, 0}}) {
						return
					}
				}
			}
		}
	}
	for m := range ref.Modes {
		for _, p := range gen.TwinTexts(ref.Mode(m)) {
			if !emit(&eng.Case{Kind: "hist", In: []string{p[0], p[1], p[0]}, Num: []int{m + 1, 0, 0}}) {
				return
			}
		}
	}
	for a := 0; a < n; a++ { // one byte of a buffer changed
		x := typical[a]
		for at := 0; at < len(x); at++ {
			for _, b := range []string{"x", "%", "~", ":", "A"} {
				y := x[:at] + b + x[at+1:]
				for m := 2; m <= 4; m++ {
					if !emit(&eng.Case{Kind: "hist", In: []string{x, y, x}, Num: []int{5 + m, 5, 5}}) {
						return
					}
				}
			}
		}
	}
	for a := 0; a < n; a++ { // the same again and again
		for set := 0; set < 6; set++ {
			if !emit(&eng.Case{Kind: "streak", In: []string{typical[a]}, Num: []int{set, 3000}}) {
				return
			}
			if e.Thorough() && !emit(&eng.Case{Kind: "longstreak", In: []string{typical[a]}, Num: []int{set, 70000}}) {
				return
			}
			for b := 0; b < n; b += e.Pick(3, 1) {
				if a != b && !emit(&eng.Case{Kind: "streak", In: []string{typical[a], typical[b]}, Num: []int{set, e.Pick(300, 3000)}}) {
					return
				}
			}
		}
	}
	for k := 0; k < e.Pick(64, 2000); k++ {
		if !emit(&eng.Case{Kind: "long", Num: []int{int(e.Seed%1000000)*100000 + k, 1000 + k%3*1000}}) {
			return
		}
	}
	k := 0
	if !enumLong(e, yield, ref.Modes, "hist", func(n int, m ref.Mode, text string, emit func(in []string, nums ...int) bool) bool {
		for a := range typical {
			k++
			if n > 1<<20 && k%2 == 0 && !e.Thorough() {
				continue
			}
			if !emit([]string{text, typical[a]}, 2+int(m), []int{0, 2, 3, 4, 0}[k%5]) {
				return false
			}
		}
		for _, s := range longTexts(m) {
			if !emit([]string{text, s, "urn:ab:x", text}, 2+int(m)) || !emit([]string{"urn:ab:x", text, s}, 2+(int(m)+1)%3, 2+int(m)) {
				return false
			}
		}
		return true
	}) {
		return
	}
	for m := 0; m <= 4; m++ { // counters of 16 bits
		if !emit(&eng.Case{Kind: "count", Num: []int{m, 66000 + m}}) {
			return
		}
	}
	for a := 0; a < n; a++ {
		for b := 0; b < n; b++ {
			for c := 0; c < n; c++ {
				for m := 0; m < 27; m++ {
					if !e.Thorough() && m%13 != 0 {
						continue // one mode for all three
					}
					if !emit(&eng.Case{Kind: "hist", In: []string{typical[a], typical[b], typical[c]}, Num: []int{2 + m%3, 2 + m/3%3, 2 + m/9}}) {
						return
					}
				}
			}
		}
	}
}

func drawHistory(s gen.Src) *eng.Case {
	c := &eng.Case{Kind: "hist"}
	n := 2 + s.Intn(6)
	if s.Intn(10) == 9 {
		n = 2 + s.Intn(39)
	}
	m := ref.Modes[s.Intn(3)]
	place := s.Intn(4)
	for i := 0; i < n; i++ {
		st := 0
		if i == 0 || s.Intn(3) == 2 {
			st = s.Intn(5)
			if st >= 2 {
				m = ref.Mode(st - 2)
			}
		}
		var x string
		switch s.Intn(4) {
		case 0:
			x = typical[s.Intn(len(typical))]
		case 1:
			if len(c.In) > 0 { // related to an earlier one
				x = c.In[s.Intn(len(c.In))]
				if s.Intn(2) == 1 {
					x = gen.Mutate(s, x)
				}
				break
			}
			fallthrough
		default:
			x = gen.Input(s, m)
		}
		switch {
		case place == 3:
			st += 5 * s.Intn(3)
		case place > 0:
			st += 5
		}
		c.In, c.Num = append(c.In, x), append(c.Num, st)
	}
	return c
}

// checkMode: Num is the number of options, the options (0..3), then settings
// machine*4+mode done in turn on two machines made with the same options.
// own options are those of users: other functions of a Machine
const (
	ownNothing = -1000 - iota // does nothing
	ownTwice                  // sets two modes, the RFC 8141 one last
	ownParse                  // parses in the RFC 7643 mode, then sets the RFC 2141 one
	ownNested                 // parses with other machines, in other modes, and sets nothing
	ownInner                  // gives the machine to options of a nested list, which set the RFC 7643 mode
	owns       = iota
)

// wrapped is a Machine of the user's own.
type wrapped struct {
	urn.Machine
	set []urn.ParsingMode
}

func (w *wrapped) WithParsingMode(m urn.ParsingMode) {
	w.set = append(w.set, m)
	w.Machine.WithParsingMode(m)
}

func ownOptions(modes []int) []urn.Option {
	o := options(modes)
	for i, m := range modes {
		switch m {
		case ownNothing:
			o[i] = func(urn.Machine) {}
		case ownTwice:
			o[i] = func(m urn.Machine) {
				m.WithParsingMode(urn.RFC7643Only)
				m.WithParsingMode(urn.RFC8141Only)
			}
		case ownParse:
			o[i] = func(m urn.Machine) {
				urn.WithParsingMode(urn.RFC7643Only)(m)
				m.Parse([]byte("urn:ietf:params:scim:api:x"))
				urn.WithParsingMode(urn.RFC2141Only)(m)
			}
		case ownNested:
			o[i] = func(urn.Machine) {
				urn.Parse([]byte("urn:a:b?+c"), urn.WithParsingMode(urn.RFC8141Only))
				urn.Parse([]byte("urn:a:b"))
				urn.NewMachine(ownOptions([]int{2, 3, ownTwice})...).WithParsingMode(urn.RFC7643Only)
			}
		case ownInner:
			o[i] = func(m urn.Machine) {
				for _, x := range options([]int{3, 1, 2}) {
					x(m)
				}
			}
		}
	}
	return o
}

// checkUses: option values used again and again. Num: the mode, the number of
// uses, how.
func checkUses(c *eng.Case, r *eng.Rec) error {
	m, n, how := mod(c.At(0), 4), min(max(1, c.At(1)), 1<<20), mod(c.At(2), 4)
	in := []byte(c.S(0))
	n = min(n, 60000/(len(in)+1)+1)
	r.Nontrivial, r.Label = true, "an option used "+sizeClass(n)+" times"
	o, p := urn.WithParsingMode(urn.ParsingMode(m)), urn.WithParsingMode(urn.ParsingMode((m+1)%4))
	want := resultOf(urn.NewMachine(urn.WithParsingMode(urn.ParsingMode(m))).Parse(in))
	other := urn.NewMachine()
	for i := 1; i <= n; i++ {
		var u *urn.URN
		ok := false
		switch how {
		case 0:
			u, ok = urn.Parse(in, o)
		case 1:
			x, err := urn.NewMachine(p, o).Parse(in)
			u, ok = x, err == nil
		case 2: // on one machine
			p(other)
			o(other)
			x, err := other.Parse(in)
			u, ok = x, err == nil
		case 3:
			other.WithParsingMode(urn.ParsingMode((m + 1) % 4))
			other.WithParsingMode(urn.ParsingMode(m))
			x, err := other.Parse(in)
			u, ok = x, err == nil
		}
		if ok != want.accepted() || ok && i&(i-1) == 0 && take(u) != want.U {
			return fail("mode %d, input %s: use %d of an option (%d): accepted=%v %+v; at first: %s", m, eng.Show(c.S(0)), i, how, ok, take(u), want)
		}
	}
	return nil
}

func checkMode(c *eng.Case, r *eng.Rec) error {
	if c.Kind == "uses" {
		return checkUses(c, r)
	}
	n := min(max(0, c.At(0)), max(0, len(c.Num)-1), 40)
	if len(c.Num) == 0 {
		n = 0
	}
	var opts []int
	for i := 1; i <= n; i++ {
		opts = append(opts, someMode(c.Num[i]))
	}
	nums := c.Num[:min(len(c.Num), n+1+12)]
	in := []byte(c.S(0))
	r.Nontrivial = len(nums) > 1 && len(in) >= 4 && ref.Parse(ref.M2141, c.S(0)).Err != ref.EPrefix
	r.Label = fmt.Sprintf("%s options, %s settings", sizeClass(n), sizeClass(max(0, len(nums)-1-n)))
	var want [4]result
	for m := range want {
		k := urn.ParsingMode(m)
		if m == 0 {
			k = urn.RFC2141Only
		}
		want[m] = resultOf(urn.NewMachine(urn.WithParsingMode(k)).Parse([]byte(c.S(0))))
	}
	cmp := func(desc string, got result, mode int) error {
		if mode < 0 || mode > 3 { // no such mode: nothing is said about it, until another one is set
			return nil
		}
		if got != want[mode] {
			return fail("%s, input %s: %s; with mode %d alone: %s", desc, eng.Show(c.S(0)), got, mode, want[mode])
		}
		return nil
	}
	cur := 0
	for _, m := range opts {
		switch m {
		case ownNothing:
		case ownNested:
		case ownTwice:
			cur = 3
		case ownParse:
			cur = 1
		case ownInner:
			cur = 2
		default:
			cur = m
		}
	}
	list := ownOptions(opts) // option values may be used many times
	pkgLevel := func(desc string, mode int, o ...urn.Option) error {
		if mode < 0 || mode > 3 {
			return nil
		}
		u, ok := urn.Parse([]byte(c.S(0)), o...)
		if s := take(u); ok != want[mode].accepted() || s != want[mode].U {
			return fail("%s, input %s: the package function gives %v, %+v; with mode %d alone: %s", desc, eng.Show(c.S(0)), ok, s, mode, want[mode])
		}
		return nil
	}
	a, b := urn.NewMachine(list...), urn.NewMachine(list...)
	if err := cmp(fmt.Sprintf("options %v", opts), resultOf(a.Parse([]byte(c.S(0)))), cur); err != nil {
		return err
	}
	if err := pkgLevel(fmt.Sprintf("options %v", opts), cur, ownOptions(opts)...); err != nil {
		return err
	}
	// a list that changes when the machine is made
	shared := ownOptions(opts)
	late := urn.NewMachine(shared...)
	for i := range shared {
		shared[i] = urn.WithParsingMode(urn.ParsingMode(1 + (cur+i+1)%3))
	}
	if err := cmp(fmt.Sprintf("options %v, in a list that is changed then", opts), resultOf(late.Parse([]byte(c.S(0)))), cur); err != nil {
		return err
	}
	// a machine of the user's own
	w := &wrapped{Machine: urn.NewMachine()}
	wcur := 0
	for i, o := range ownOptions(opts) {
		n := len(w.set)
		o(w)
		if k := opts[i]; k >= 0 && k <= 3 {
			if len(w.set) == n || max(1, int(w.set[len(w.set)-1])) != max(1, k) {
				return fail("options %v: option %d sets the modes %v on a machine of the user's own", opts, i, w.set[n:])
			}
		}
		if len(w.set) > 0 {
			wcur = int(w.set[len(w.set)-1])
		}
	}
	if err := cmp(fmt.Sprintf("options %v on a machine of the user's own", opts), resultOf(w.Parse([]byte(c.S(0)))), wcur); err != nil {
		return err
	}
	if err := cmp("no options", resultOf(urn.NewMachine().Parse([]byte(c.S(0)))), 0); err != nil {
		return err
	}
	if err := cmp("the exported default mode", resultOf(urn.NewMachine(urn.WithParsingMode(urn.DefaultParsingMode)).Parse([]byte(c.S(0)))), 0); err != nil {
		return err
	}
	if err := cmp("the Default mode", resultOf(urn.NewMachine(urn.WithParsingMode(urn.Default)).Parse([]byte(c.S(0)))), 0); err != nil {
		return err
	}
	if err := pkgLevel("no options", 0); err != nil {
		return err
	}
	ms, curs := []urn.Machine{a, b}, []int{cur, cur}
	for i := n + 1; i < len(nums); i++ {
		s := mod(nums[i], 8+2*len(weird))
		k, m := s/4, s%4
		if s >= 8 {
			k, m = s%2, weird[(s-8)/2]
		}
		ms[k].WithParsingMode(urn.ParsingMode(m))
		curs[k] = m
		for j := range ms {
			if i%2 == 1 && j == k {
				continue // parse on the other machine first, sometimes
			}
			if err := cmp(fmt.Sprintf("machine %d after settings %v", j, nums[n+1:i+1]), resultOf(ms[j].Parse([]byte(c.S(0)))), curs[j]); err != nil {
				return err
			}
		}
	}
	for j := range ms {
		if err := cmp(fmt.Sprintf("machine %d after settings %v", j, nums[min(len(nums), n+1):]), resultOf(ms[j].Parse([]byte(c.S(0)))), curs[j]); err != nil {
			return err
		}
	}
	if err := cmp(fmt.Sprintf("options %v again, afterwards", opts), resultOf(urn.NewMachine(list...).Parse([]byte(c.S(0)))), cur); err != nil {
		return err
	}
	if err := pkgLevel(fmt.Sprintf("options %v again, afterwards", opts), cur, list...); err != nil {
		return err
	}
	return cmp("no options, afterwards", resultOf(urn.NewMachine().Parse([]byte(c.S(0)))), 0)
}

// someMode is a mode for a choice: a known one, or one that does not exist.
func someMode(n int) int {
	switch n = mod(n, 4+owns+len(weird)); {
	case n >= 4+len(weird):
		return ownNothing - (n - 4 - len(weird))
	case n >= 4:
		return weird[n-4]
	}
	return n
}

func enumMode(e *eng.Env, yield func(*eng.Case) bool) {
	i := 0
	emit := func(nums ...int) bool {
		for _, in := range typical {
			i++
			if i%e.Of == e.Shard && !yield(&eng.Case{Kind: "mode", In: []string{in}, Num: nums}) {
				return false
			}
		}
		return true
	}
	if !emit(0) {
		return
	}
	if !enumLong(e, yield, ref.Modes, "mode", func(n int, m ref.Mode, text string, emit func(in []string, nums ...int) bool) bool {
		for a := 0; a < 4; a++ {
			for b := 0; b < 4; b++ {
				if k := int(m) + 1; (a == k || b == k || a == b) && !emit([]string{text}, 2, a, b) {
					return false
				}
			}
			if !emit([]string{text}, 1, a, a) || !emit([]string{text}, 3, 3-a, a, a) || !emit([]string{text}, 0, a, 4+(a+1)%4, 3-a) {
				return false
			}
		}
		return true
	}) {
		return
	}
	uses := []int{40, 300, 1100, 5000}
	for _, n := range gen.Dict.Lengths {
		if len(uses) < 12 && n > 1 && n < 100000 {
			uses = append(uses, n+1)
		}
	}
	for k, in := range []string{"urn:ab:x?+r", "urn:ietf:params:scim:api:c", "urn:ab:%AF"} {
		for _, n := range uses {
			for a := 0; a < 16; a++ {
				if n > 10000 && a%4 != k {
					continue
				}
				if i++; i%e.Of == e.Shard && !yield(&eng.Case{Kind: "uses", In: []string{in}, Num: []int{a % 4, n, a / 4}}) {
					return
				}
			}
		}
	}
	for a := 0; a < 4; a++ {
		if !emit(1, a) {
			return
		}
		for b := 0; b < 4; b++ {
			if !emit(2, a, b) {
				return
			}
			for k := 0; k < 4; k++ {
				if !emit(3, a, b, k) {
					return
				}
			}
		}
	}
	for w := 4; w < 8; w++ { // unknown modes
		for a := 0; a < 4; a++ {
			if !emit(2, w, a) || !emit(2, a, w) || !emit(3, a, w, (a+1)%4) || !emit(1, a, 2*w+a%2, 4*(a%2)+w%4) || !emit(1, w, a) || !emit(1, w, 4+a) {
				return
			}
		}
	}
	for w := 4 + len(weird); w < 4+owns+len(weird); w++ { // other options
		for a := 0; a < 4; a++ {
			if !emit(2, w, a) || !emit(2, a, w) || !emit(3, a, w, (a+1)%4) || !emit(1, w, a) || !emit(1, w, 4+a) {
				return
			}
		}
		if !emit(1, w) || !emit(2, w, w) || !emit(3, w, 4+len(weird), 4+len(weird)) {
			return
		}
	}
	// all sequences of settings on one machine, modes that do not exist among them
	alphabet := []int{1, 2, 3, 8, 10, 8 + 2*11}
	for x := 0; x < 6*6*6*6; x++ {
		seq := []int{0, alphabet[x%6], alphabet[x/6%6], alphabet[x/36%6], alphabet[x/216]}
		for _, in := range []string{"urn:ab:x?+r", "urn:ietf:params:scim:api:c%AF"} {
			if i++; i%e.Of == e.Shard && !yield(&eng.Case{Kind: "mode", In: []string{in}, Num: seq}) {
				return
			}
		}
	}
	many := []int{40}
	for i := 0; i < 40; i++ { // many options
		many = append(many, i%4)
		if c := append([]int{i + 1}, many[1:]...); !emit(c...) {
			return
		}
	}
	for x := 0; x < 8; x++ {
		if !emit(0, x) {
			return
		}
		for y := 0; y < 8; y++ {
			if !emit(0, x, y) {
				return
			}
			for z := 0; z < 8; z++ {
				if !emit(0, x, y, z) || !emit(1, x%4, y, z) {
					return
				}
			}
		}
	}
}
