package props

import (
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"os"
	"os/exec"
	"strings"
	"sync"
	"time"

	urn "github.com/leodido/go-urn"
	scimschema "github.com/leodido/go-urn/scim/schema"

	"verif/harness/eng"
)

// What happens at the first use of something in a process happens only once in
// it. So cases of kind "cold" are run by new processes whose goroutines begin
// with the same operation, all at once, with nothing of the library used before.

const coldOps = 15

// coldProgram is what each goroutine does: the operation, then the other ones.
func coldProgram(g int, c *eng.Case) (out []answer) {
	first := max(0, c.At(len(c.In))) % coldOps
	for i, in := range c.In {
		m := pmode[modeOf(c.At(i))]
		b := []byte(in)
		quoted := append(append([]byte{'"'}, in...), '"') // good enough for texts of URNs
		for k := 0; k < coldOps; k++ {
			if k > 0 && first == coldOps-1 {
				break // that one alone
			}
			var w answer
			switch (first + k*(1+2*g)) % coldOps {
			case 0:
				w.res = resultOf(urn.NewMachine(urn.WithParsingMode(m)).Parse(b))
			case 1:
				u, ok := urn.Parse(b, urn.WithParsingMode(m))
				w.res, w.a = resultOf(u, nil), ok
			case 2:
				u, ok := urn.Parse(b)
				w.res, w.a = resultOf(u, nil), ok
			case 3:
				mach := urn.NewMachine()
				mach.WithParsingMode(m)
				u, err := mach.Parse(b)
				w.res, w.s = resultOf(u, err), errText(mach.Error())
			case 4:
				u := &urn.URN{ID: "Ab", SS: in}
				n := u.Normalize()
				w.s, w.t, w.u = u.String(), n.String(), n.SS
			case 5:
				u, v := &urn.URN{ID: "Ab", SS: in}, &urn.URN{ID: "aB", SS: in}
				w.a, w.b, w.c = u.Equal(v), v.Equal(nil), u.Equal(u)
			case 6:
				var u urn.URN
				err := u.UnmarshalJSON(quoted)
				w.res = resultOf(&u, err)
			case 7:
				var u urn.URN8141
				err := u.UnmarshalJSON(quoted)
				w.res = resultOf(u.URN, err)
			case 8:
				var s urn.SCIM
				err := s.UnmarshalJSON(quoted)
				w.s, w.t, w.u, w.n = s.Name, s.Other, errText(err), int(s.Type)
			case 9:
				t := scimschema.TypeFromString([]string{"api", "param", "schemas", "x"}[g%4])
				w.n, w.s = int(t), t.String()
			case 10:
				w.s = scimschema.Type(g % 4).String()
			case 11:
				s := urn.SCIM{Type: scimschema.API, Name: "n", Other: in}
				d, err := s.MarshalJSON()
				w.s, w.t, w.u = s.String(), string(d), errText(err)
			case 12:
				d, err := urn.URN{ID: "ab", SS: in}.MarshalJSON()
				w.t, w.u = string(d), errText(err)
			case 13:
				d, err := urn.URN8141{URN: &urn.URN{ID: "ab", SS: in}}.MarshalJSON()
				w.t, w.u = string(d), errText(err)
			case 14:
				d, err := json.Marshal([]any{urn.URN{ID: "ab", SS: in}, urn.URN8141{}, urn.SCIM{}})
				w.t, w.u = string(d), errText(err)
			}
			out = append(out, w)
		}
	}
	return out
}

// Cold is the program of the new process: it prints the answers.
func Cold(c *eng.Case) {
	var got [gos][]answer
	var wg sync.WaitGroup
	start := make(chan struct{})
	for g := 0; g < gos; g++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			<-start
			got[g] = coldProgram(g, c)
		}()
	}
	close(start)
	wait(&wg)
	for g := range got {
		fmt.Printf("%+v\n", got[g])
	}
}

func checkCold(c *eng.Case) error {
	self, err := os.Executable()
	if err != nil {
		eng.Inconclusive(err)
	}
	cmd := exec.Command(self, "cold", c.B64())
	var stdout, stderr bytes.Buffer
	cmd.Stdout, cmd.Stderr = &stdout, &stderr
	if err := cmd.Start(); err != nil {
		eng.Inconclusive(err)
	}
	late := time.AfterFunc(60*time.Second, func() { cmd.Process.Kill() })
	err = cmd.Wait()
	if !late.Stop() {
		eng.Inconclusive(errors.New("a new process does not end"))
	}
	if err != nil {
		text := stderr.String()
		if len(text) > 6000 {
			text = text[:6000]
		}
		if !strings.Contains(text, "go-urn") {
			eng.Inconclusive(fmt.Errorf("a new process: %v: %s", err, text))
		}
		return fail("first use by goroutines of a new process: %v: %s", err, text)
	}
	var want strings.Builder
	for g := 0; g < gos; g++ {
		fmt.Fprintf(&want, "%+v\n", coldProgram(g, c))
	}
	if want.String() != stdout.String() {
		return fail("first use by goroutines of a new process gives %s, alone %s", eng.Show(stdout.String()), eng.Show(want.String()))
	}
	return nil
}
