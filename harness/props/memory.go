package props

import (
	"fmt"
	"runtime/debug"
	"sync"
	"syscall"

	urn "github.com/leodido/go-urn"

	"verif/harness/eng"
	"verif/harness/gen"
	"verif/harness/ref"
)

const (
	page      = 4096
	arenaSize = 128 * page
)

// arena is memory whose write permission can be taken away; an unmapped page
// follows it.
var arena []byte

func setupArena(e *eng.Env) error {
	if err := loadDict(e); err != nil {
		return err
	}
	if arena != nil {
		return nil
	}
	var err error
	arena, _, err = mapArena(arenaSize)
	return err
}

// mapArena makes an arena of size bytes, whole pages.
func mapArena(size int) (a []byte, free func(), err error) {
	m, err := syscall.Mmap(-1, 0, size+page, syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_ANON|syscall.MAP_PRIVATE)
	if err != nil {
		return nil, nil, err
	}
	if err := syscall.Mprotect(m[size:], syscall.PROT_NONE); err != nil {
		return nil, nil, err
	}
	return m[:size:size], func() { syscall.Munmap(m) }, nil
}

func init() {
	register(&eng.Prop{
		ID:        "C10",
		Rule:      ruleInputs + "Each input is parsed in pages without write permission (a write is a fault), in a longer buffer of other bytes, in a buffer overwritten afterwards, and by four goroutines at once; also as a JSON document. Non-trivial: starts with a right 'urn:' prefix.",
		Setup:     setupArena,
		Check:     checkReadOnly,
		Enumerate: enumReadOnly,
		Draw: func(s gen.Src) *eng.Case {
			m := ref.Modes[s.Intn(3)]
			in := gen.Input(s, m)
			tail := ""
			switch s.Intn(4) {
			case 1:
				tail = "%4F?+r?=q#f"
			case 2:
				tail = gen.Input(s, m)
			case 3:
				if k := len(in); k > 0 { // a prefix of the text
					k = s.Intn(k)
					in, tail = in[:k], in[k:]
				}
			}
			return &eng.Case{Kind: "in", In: []string{in, tail}, Num: []int{int(m), s.Intn(8)}}
		},
		Rapid: 1500, RapidThorough: 20000,
		Bulk: 40000, BulkThorough: 1800000,
	})
}

func enumReadOnly(e *eng.Env, yield func(*eng.Case) bool) {
	i := 0
	for _, m := range ref.Modes {
		for _, a := range gen.Access(m) {
			for _, x := range []string{"", "a", ":x", ":%4F", "A%aB", "%", "%4", " ", "#f", "?+R%AB", "?=Q%AB", "?+R?=Q%AB#F%CD"} {
				for _, tail := range []string{"", "B", "%4F:x"} {
					if i++; i%e.Of == e.Shard && !yield(&eng.Case{Kind: "in", In: []string{a + x, tail}, Num: []int{int(m), i / e.Of % 8}}) {
						return
					}
				}
			}
		}
		if !enumLong(e, yield, []ref.Mode{m}, "in", func(n int, m ref.Mode, text string, emit func(in []string, nums ...int) bool) bool {
			return emit([]string{text, "%4F"}, int(m), 0) && emit([]string{text, ""}, int(m), 1) && emit([]string{text, lg("", "x", "")}, int(m), 4)
		}) {
			return
		}
		gen.Lengths(m, gen.LensFor(e.Pick(34, 200), e.Pick(600, 20000)), e.Shard, e.Of, func(x string) bool {
			return yield(&eng.Case{Kind: "in", In: []string{x, ""}, Num: []int{int(m), 0}})
		})
		gen.Big(m, gen.BigLens, e.Shard, e.Of, func(x string) bool {
			return yield(&eng.Case{Kind: "in", In: []string{x, "%4F"}, Num: []int{int(m), len(x) % 8}})
		})
	}
}

// guarded runs f with the arena read-only; a fault comes back as an error.
func guarded(arena []byte, f func()) (err error) {
	if e := syscall.Mprotect(arena, syscall.PROT_READ); e != nil {
		panic(e)
	}
	old := debug.SetPanicOnFault(true)
	defer func() {
		debug.SetPanicOnFault(old)
		if e := syscall.Mprotect(arena, syscall.PROT_READ|syscall.PROT_WRITE); e != nil {
			panic(e)
		}
		if x := recover(); x != nil {
			if a, ok := x.(interface{ Addr() uintptr }); ok {
				err = fmt.Errorf("the buffer is written (fault at %#x)", a.Addr())
				return
			}
			err = fmt.Errorf("panic: %v", x)
		}
	}()
	f()
	return nil
}

func checkReadOnly(c *eng.Case, r *eng.Rec) error {
	m, in, tail := modeOf(c.At(0)), c.S(0), c.S(1)
	arena := arena
	if n := 6*len(in) + len(tail) + page; n > arenaSize { // also for the JSON document, all escaped
		if len(in)+len(tail) > 1<<26 {
			return nil
		}
		a, free, err := mapArena((n + page - 1) / page * page)
		if err != nil {
			eng.Inconclusive(err)
		}
		defer free()
		arena = a
	}
	arenaSize := len(arena)
	want := ref.Parse(m, in)
	r.Nontrivial, r.Label = nontrivial(want), label(m, want)
	desc := fmt.Sprintf("%s: input %s", m, eng.Show(in))
	mach := func() urn.Machine { return urn.NewMachine(urn.WithParsingMode(pmode[m])) }
	base := resultOf(mach().Parse([]byte(in)))

	// read-only, at the end of the memory
	buf := arena[arenaSize-len(in)-len(tail):]
	copy(buf, in)
	copy(buf[len(in):], tail)
	buf = buf[:len(in)]
	var u *urn.URN
	var err error
	var ok bool
	mm := mach()
	if e := guarded(arena, func() { u, err = mm.Parse(buf) }); e != nil {
		return fail("%s, followed by %s, in read-only memory: %v", desc, eng.Show(tail), e)
	}
	for _, x := range []string{"urn:zz:yY%4F", "u", in[len(in)/2:]} { // the next ones leave it alone
		if e := guarded(arena, func() { mm.Parse([]byte(x)) }); e != nil {
			return fail("%s, in read-only memory, then %s on the same machine: %v", desc, eng.Show(x), e)
		}
	}
	res := resultOf(u, err)
	if res != base {
		return fail("%s, followed by %s beyond its length: %s; alone: %s", desc, eng.Show(tail), res, base)
	}
	if e := guarded(arena, func() { u, ok = urn.Parse(buf, urn.WithParsingMode(pmode[m])) }); e != nil {
		return fail("%s, followed by %s, in read-only memory, package function: %v", desc, eng.Show(tail), e)
	}
	if s := take(u); s != base.U || ok != base.accepted() {
		return fail("%s, followed by %s beyond its length: the package function gives %+v; alone: %s", desc, eng.Show(tail), s, base)
	}

	// overwritten afterwards
	for k, fill := range []string{"\x00", "urn:zz:z%4F", "U"} {
		full := make([]byte, len(in)+len(tail))
		copy(full, in)
		copy(full[len(in):], tail)
		b := full[:len(in)]
		mm := mach()
		u, err := mm.Parse(b)
		if string(full) != in+tail {
			return fail("%s, followed by %s: the buffer is %s after the parse", desc, eng.Show(tail), eng.Show(string(full)))
		}
		if k == 0 { // nothing touched the URN before the buffer changes
			for i := range full {
				full[i] = fill[i%len(fill)]
			}
		}
		r1 := resultOf(u, err)
		for i := range full {
			full[i] = fill[i%len(fill)]
		}
		r2 := resultOf(u, err)
		if r1 != base || r2 != base {
			return fail("%s: the result changes with the buffer: %s, then %s; should be %s", desc, r1, r2, base)
		}
		if e := mm.Error(); !sameErr(e, err) || errText(e) != base.Err {
			return fail("%s: the error changes with the buffer: %v", desc, e)
		}
	}

	// as a JSON document
	if c.At(1)%4 == 0 {
		doc := gen.JSONString(gen.NewPRNG(uint64(len(in))), in)
		if len(doc) < arenaSize {
			b := arena[arenaSize-len(doc):]
			copy(b, doc)
			var x urn.URN
			var y urn.URN8141
			var z urn.SCIM
			if e := guarded(arena, func() { x.UnmarshalJSON(b); y.UnmarshalJSON(b); z.UnmarshalJSON(b) }); e != nil {
				return fail("%s: decoding %s in read-only memory: %v", desc, eng.Show(doc), e)
			}
			s1, s2, s3 := take(&x), take(y.URN), fmt.Sprintf("%d %q %q", z.Type, z.Name, z.Other)
			for i := range b {
				b[i] = 'U'
			}
			if t1, t2, t3 := take(&x), take(y.URN), fmt.Sprintf("%d %q %q", z.Type, z.Name, z.Other); s1 != t1 || s2 != t2 || s3 != t3 {
				return fail("%s: the decoded value changes with the document", desc)
			}
		}
	}

	// by several goroutines at once
	if c.At(1)%8 == 1 {
		b := []byte(in)
		var wg sync.WaitGroup
		var rs [4]result
		start := make(chan struct{})
		for g := range rs {
			wg.Add(1)
			go func() {
				defer wg.Done()
				<-start
				rs[g] = resultOf(mach().Parse(b))
			}()
		}
		close(start)
		wg.Wait()
		for _, x := range rs {
			if x != base {
				return fail("%s parsed by several goroutines at once: %s; alone: %s", desc, x, base)
			}
		}
	}
	return nil
}
