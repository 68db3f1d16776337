package props

import (
	"encoding/json"
	"fmt"
	"runtime"
	"strings"
	"sync"
	"time"

	urn "github.com/leodido/go-urn"

	"verif/harness/eng"
	"verif/harness/gen"
	"verif/harness/ref"
)

func init() {
	register(&eng.Prop{
		ID:        "C11",
		Rule:      "Four goroutines under the race detector: each parses 1-4 inputs (in its own order, all modes) with its own machines; then all of them read the same, untouched URNs (parsed, normalized, built, decoded) in their own order of operations (all operations, one, or those not using JSON, whose caches would order the goroutines). Answers are compared with the same program run alone. 'cold' cases are new processes in which four goroutines begin with one operation each at once. Non-trivial: at least one URN is shared, or cold.",
		Setup:     loadDict,
		HangCPU:   40,
		Check:     checkConcurrent,
		Enumerate: enumConcurrent,
		Draw: func(s gen.Src) *eng.Case {
			c := &eng.Case{Kind: "prog"}
			if s.Intn(100) == 99 {
				c.Kind = "cold"
			}
			for n := 1 + s.Intn(4); n > 0; n-- {
				m := ref.Modes[s.Intn(3)]
				x := gen.Valid(s, m)
				if s.Intn(4) == 3 {
					x = gen.Input(s, m)
				}
				if len(x) > 400 {
					x = x[:400]
				}
				c.In, c.Num = append(c.In, x), append(c.Num, int(m))
			}
			c.Num = append(c.Num, s.Intn(16))
			return c
		},
		Rapid: 300, RapidThorough: 4000,
		Bulk: 1500, BulkThorough: 60000,
		Race: true, Procs: 4, Repeat: 40, Shards: 6,
	})
}

func enumConcurrent(e *eng.Env, yield func(*eng.Case) bool) {
	for f := 0; f < coldOps*e.Pick(3, 60); f++ {
		for m := range ref.Modes {
			for i, x := range []string{"URN:aB:%Af:x", "urn:ietf:params:scim:api:messages:2.0:%4F", "Urn:ab:x/y?+r?=q#F"} {
				if (f*3+m+i)%e.Of == e.Shard && !yield(&eng.Case{Kind: "cold", In: []string{x}, Num: []int{m, f % coldOps}}) {
					return
				}
			}
		}
	}
	if !enumLong(e, yield, ref.Modes, "prog", func(n int, m ref.Mode, text string, emit func(in []string, nums ...int) bool) bool {
		if n > 1<<17 && !e.Thorough() {
			return true
		}
		for _, flavour := range []int{1, 2, 7, 8, 12, 15} {
			if !emit([]string{text, "urn:ab:%4F"}, int(m), 0, flavour) {
				return false
			}
		}
		return true
	}) {
		return
	}
	for i, x := range typical {
		for m := range ref.Modes {
			if (i*3+m)%e.Of == e.Shard && !yield(&eng.Case{Kind: "prog", In: []string{x, x}, Num: []int{m, m + 1, i}}) {
				return
			}
		}
	}
	for i, x := range equalBases {
		for m := range ref.Modes {
			if (i*3+m)%e.Of == e.Shard && !yield(&eng.Case{Kind: "prog", In: []string{x, x, x}, Num: []int{m, m, m, i}}) {
				return
			}
		}
	}
}

const gos = 4

// shared makes the URNs that the goroutines read together.
func shared(c *eng.Case) (out []*urn.URN) {
	for i, x := range c.In {
		m := modeOf(c.At(i))
		u := got(m, x)
		if u == nil {
			continue
		}
		out = append(out, u)
		if v := got(m, x); v != nil {
			out = append(out, v.Normalize(), &urn.URN{ID: v.ID, SS: v.SS})
		}
		if m == ref.M8141 {
			var y urn.URN8141
			if d, err := json.Marshal(x); err == nil && y.UnmarshalJSON(d) == nil {
				out = append(out, y.URN)
			}
		}
	}
	return
}

// answer holds what an operation gave. It is made without fmt and, for most
// operations, without encoding/json: their pools and caches would order the
// goroutines and so hide races from the detector.
type answer struct {
	res     result
	s, t, u string
	a, b, c bool
	n       int
}

const readOps = 10

// read does the k-th read operation on a URN.
func read(k int, u *urn.URN, other *urn.URN) (w answer) {
	switch k % readOps {
	case 0:
		w.s = u.String()
	case 1:
		n := u.Normalize()
		w.s, w.t, w.u = n.String(), n.ID, n.SS
	case 2:
		w.a, w.b, w.c = u.Equal(other), other.Equal(u), u.Equal(nil)
	case 3:
		w.n, w.a, w.s = int(u.RFC()), u.IsSCIM(), u.RComponent()+"|"+u.QComponent()+"|"+u.FComponent()
		w.t, w.u = u.ID, u.SS
	case 4:
		if s := u.SCIM(); s != nil {
			w.a, w.s, w.t, w.n, w.u = true, s.Name, s.Other, int(s.Type), s.Type.String()
		}
	case 5:
		w.a = u.Equal(u)
		w.res.U.Norm = u.Normalize().Normalize().String()
	case 6:
		if s := u.SCIM(); s != nil {
			w.s = s.String()
			b, err := json.Marshal(s)
			w.t, w.u = string(b), errText(err)
		}
	case 7:
		b, err := json.Marshal(u)
		w.s, w.t = string(b), errText(err)
	case 8:
		b, err := json.Marshal(urn.URN8141{URN: u})
		w.s, w.t = string(b), errText(err)
	case 9:
		w.res.U = take(u)
	}
	return
}

// program is what goroutine g does; opts are options shared by all. The flavour
// chooses the read operations: all, one only, or the ones without JSON.
func program(g int, c *eng.Case, us []*urn.URN, opts [3]urn.Option) []answer {
	var out []answer
	flavour := c.At(len(c.In))
	if flavour < 0 {
		flavour = -flavour
	}
	flavour %= 16
	own := urn.NewMachine()
	for i := range c.In {
		k := (i + g) % len(c.In)
		m := modeOf(c.At(k))
		b := []byte(c.In[k])
		out = append(out, answer{res: resultOf(urn.NewMachine(opts[m]).Parse(b))})
		own.WithParsingMode(pmode[m])
		u, err := own.Parse(b)
		out = append(out, answer{res: resultOf(u, err), s: errText(own.Error())})
		v, ok := urn.Parse(b, opts[m])
		out = append(out, answer{res: resultOf(v, nil), a: ok})
		if flavour == 15 {
			var x urn.URN
			if d, err := json.Marshal(c.In[k]); err == nil {
				err := x.UnmarshalJSON(d)
				out = append(out, answer{res: resultOf(&x, err)})
			}
		}
	}
	for i := range us {
		n := (i + g) % len(us)
		switch {
		case flavour < readOps:
			out = append(out, read(flavour, us[n], us[(n+1)%len(us)]))
		case flavour < 14:
			for k := 0; k < 6; k++ {
				out = append(out, read((k+2*g)%6, us[n], us[(n+k)%len(us)]))
			}
		default:
			for k := 0; k < readOps; k++ {
				out = append(out, read(k+2*g, us[n], us[(n+k)%len(us)]))
			}
		}
	}
	return out
}

// wait waits for the goroutines of a program, and ends the process when they
// wait for each other.
func wait(wg *sync.WaitGroup) {
	done := make(chan struct{})
	go func() {
		wg.Wait()
		close(done)
	}()
	for patience, stuck := 10*time.Second, 0; ; patience = time.Second {
		t := time.NewTimer(patience)
		select {
		case <-done:
			t.Stop()
			return
		case <-t.C:
		}
		if stuck++; !allBlocked() {
			stuck = 0
		}
		if stuck == 5 {
			panic("deadlock: the goroutines wait for each other")
		}
	}
}

// allBlocked says whether all goroutines that are in the library, or on their
// way to it, wait for a lock, a channel or the like.
func allBlocked() bool {
	buf := make([]byte, 1<<20)
	for i, g := range strings.Split(string(buf[:runtime.Stack(buf, true)]), "\n\n") {
		if i == 0 || !strings.Contains(g, "leodido/go-urn") && !strings.Contains(g, "props.program") && !strings.Contains(g, "props.coldProgram") {
			continue
		}
		_, state, _ := strings.Cut(g, "[")
		state, _, _ = strings.Cut(state, "]")
		state, _, _ = strings.Cut(state, ",")
		switch {
		case strings.HasPrefix(state, "sync."), strings.HasPrefix(state, "chan "), strings.HasPrefix(state, "semacquire"), strings.HasPrefix(state, "select"):
		default:
			return false
		}
	}
	return true
}

func checkConcurrent(c *eng.Case, r *eng.Rec) error {
	if len(c.In) == 0 {
		return nil
	}
	if c.Kind == "cold" {
		r.Nontrivial, r.Label = true, "cold start"
		return checkCold(c)
	}
	opts := func() [3]urn.Option {
		return [3]urn.Option{urn.WithParsingMode(pmode[0]), urn.WithParsingMode(pmode[1]), urn.WithParsingMode(pmode[2])}
	}
	us, o := shared(c), opts()
	r.Nontrivial = len(us) > 0
	r.Label = fmt.Sprintf("%d inputs, URNs shared: %v", len(c.In), len(us) > 0)
	var together [gos][]answer
	var wg sync.WaitGroup
	start := make(chan struct{})
	var bad [gos]any
	for g := 0; g < gos; g++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			defer func() { bad[g] = recover() }()
			<-start
			together[g] = program(g, c, us, o)
		}()
	}
	close(start)
	wait(&wg)
	for g := range bad {
		if bad[g] != nil {
			return fail("goroutine %d panics: %v", g, bad[g])
		}
	}
	us, o = shared(c), opts()
	for g := 0; g < gos; g++ {
		alone := program(g, c, us, o)
		for i := range alone {
			if i >= len(together[g]) || alone[i] != together[g][i] {
				return fail("goroutine %d, answer %d: %+v with others, %+v alone", g, i, together[g][i], alone[i])
			}
		}
	}
	return nil
}
