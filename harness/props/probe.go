package props

import (
	"bytes"
	"encoding/binary"
	"errors"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
	"syscall"
	"time"

	"verif/harness/eng"
	"verif/harness/gen"
	"verif/harness/obs"
	"verif/harness/ref"
)

// The probes are programs that describe texts with the library, built for other
// platforms and in other ways; check.sh builds what the toolchains here can.
var probes []string
var quick int // how many of them are not slow; they come first

// wanted are the variables and files (these with "./" before the name) that the
// library asked for, as a probe with an edited standard library tells.
var wanted []string

func setupProbes(e *eng.Env) error {
	if err := setupTools(e); err != nil {
		return err
	}
	gen.LoadDict(e.Repo, ".", "scim/schema", "scim", "tools/removecomments", "tools/snake2camel")
	files, _ := filepath.Glob(filepath.Join(toolDir, "probe-*"))
	sort.Slice(files, func(i, j int) bool {
		a, b := filepath.Base(files[i]), filepath.Base(files[j])
		if slow(a) != slow(b) {
			return slow(b)
		}
		return a < b
	})
	probes, quick = nil, 0
	for _, f := range files {
		// can it run here?
		if got, _, err := runProbe(filepath.Base(f), nil, nil, 0, []string{"urn:a"}, []int{0}); err == nil && len(got) == 3 || errors.As(err, new(probeError)) {
			probes = append(probes, filepath.Base(f))
			if !slow(filepath.Base(f)) {
				quick++
			}
		}
	}
	if len(probes) == 0 {
		return errors.New("no probe runs")
	}
	findWanted()
	return nil
}

func init() {
	register(&eng.Prop{
		ID:        "C26",
		Rule:      "Lists of texts and modes, described (parsed, printed, normalized, compared, encoded, decoded) by a new process of a probe program: built for 64 and for 32 bits, without optimisation (thorough: by older toolchains too), with environment variables, arguments, working directory, limits, standard streams, processors and clock chosen (names and values from the literals of the sources as well; one build tells which variables and files it asks for), as an unprivileged user in an empty directory. Also in this process with environment variables set. Also the two tools on a file. The descriptions are compared with those of this process; the probe must print nothing and leave no file, goroutine or change of environment. Non-trivial: some text begins with 'urn:', or a tool ran.",
		Setup:     setupProbes,
		Check:     checkProbe,
		Enumerate: enumProbe,
		Draw:      drawProbe,
		Rapid:     60, RapidThorough: 600,
		Bulk: 400, BulkThorough: 16000,
		Unguided: true, KeepIn: true, ShrinkMs: 20000, HangCPU: 60,
	})
}

func findWanted() {
	wanted = nil
	var texts []string
	var modes []int
	for m := 0; m < 4; m++ {
		for _, t := range typical {
			texts, modes = append(texts, t, t+strings.Repeat("a", 3000)), append(modes, m, m)
		}
	}
	_, err := os.Stat(filepath.Join(toolDir, "probe-asked"))
	if err != nil {
		return
	}
	got, d, err := runProbe("probe-asked", nil, nil, 0, texts, modes)
	if err != nil || len(got) != len(texts)+2 {
		return
	}
	for _, x := range split(got[len(got)-1]) {
		kind, name, _ := strings.Cut(x, " ")
		if kind == "file" {
			name = strings.TrimPrefix(name, d+"/")
			if name = "./" + strings.TrimPrefix(name, "./"); strings.Contains(name, "//") || !isFile(name) {
				continue
			}
		}
		if !strings.Contains(name, "=") && !envTaken[name] {
			wanted = append(wanted, name)
		}
	}
	sort.Strings(wanted)
}

func isClock(name string) bool { return name == "probe-clock" || name == "probe-late" }

// other says whether a probe differs in more than how it is compiled.
func other(name string) bool { return isClock(name) || name == "probe-asked" }

// fragile says whether a probe may fail for reasons of its own.
func fragile(name string) bool { return isClock(name) || slow(name) }

// slow says whether a probe takes long to start, or to run.
func slow(name string) bool { return name == "probe-js" || name == "probe-race" }

var errSkip = errors.New("the probe does not run here")

// probeError is a failure of the code under test, not of the environment.
type probeError struct{ error }

// runProbe runs a probe in an empty directory: the descriptions, the last one
// being of what it leaves behind.
func runProbe(name string, env, args []string, where int, texts []string, modes []int) (got []string, dir string, err error) {
	d, err := freshDir()
	if err != nil {
		eng.Inconclusive(err)
	}
	defer os.RemoveAll(d)
	var in []byte
	for i, t := range texts {
		in = append(in, byte(modes[i]&31)) // mode + 4*jump of the clock
		in = binary.AppendUvarint(in, uint64(len(t)))
		in = append(in, t...)
	}
	r0, w0, e1 := os.Pipe()
	r1, w1, e2 := os.Pipe()
	if e1 != nil || e2 != nil {
		eng.Inconclusive(errors.Join(e1, e2))
	}
	cmd := exec.Command(filepath.Join(toolDir, name), args...)
	switch where { // another name
	case 2:
		cmd.Args[0] = "urn"
	case 8: // the calls come from deep below
		cmd.Args[0] = "deep"
	case 4:
		cmd.Args[0] = "/tmp/go-build1/b001/urn.test"
	}
	cmd.Dir = d
	if where == 1 {
		cmd.Dir = "/"
	}
	cmd.Env = []string{"PATH=/usr/bin:/bin", "HOME=" + d, "TMPDIR=" + d}
	if where == 3 {
		cmd.Env = nil
		cmd.Env = append(cmd.Env, "X=")
	}
	files := map[string]string{}
	for _, x := range env {
		if name, text, ok := strings.Cut(x, "="); ok && isFile(name) {
			if os.MkdirAll(filepath.Dir(filepath.Join(d, name)), 0o755) == nil && os.WriteFile(filepath.Join(d, name), []byte(text), 0o644) == nil {
				files[filepath.Clean(name)] = text
			}
			continue
		}
		cmd.Env = append(cmd.Env, x)
	}
	limit := 200 * time.Second
	if fragile(name) {
		limit = 60 * time.Second
	}
	if isClock(name) || name == "probe-js" { // these cannot have more than one processor
		cmd.Env = append(cmd.Env, "GOMAXPROCS=1")
	}
	var o, e bytes.Buffer
	cmd.Stdout, cmd.Stderr = &o, &e
	printed := func() string { return "" }
	switch where {
	case 5: // standard input is a pipe
		cmd.Stdin = strings.NewReader("urn:ab:x\n")
	case 6: // a terminal
		if tty, p := terminal(); tty != nil {
			cmd.Stdin, cmd.Stdout, cmd.Stderr, printed = tty, tty, tty, p
		}
	case 7: // files
		if f, err := os.Open(filepath.Join(toolDir, name)); err == nil {
			defer f.Close()
			cmd.Stdin = f
		}
		if f, err := os.OpenFile("/dev/null", os.O_RDWR, 0); err == nil {
			defer f.Close()
			cmd.Stdout, cmd.Stderr = f, f
		}
	}
	cmd.ExtraFiles = []*os.File{r0, w1}
	cmd.SysProcAttr = &syscall.SysProcAttr{Setpgid: true, Pdeathsig: syscall.SIGKILL}
	if asNobody {
		r0.Chown(nobody, nobody) // one of the probes opens them again
		w1.Chown(nobody, nobody)
		cmd.SysProcAttr.Credential = &syscall.Credential{Uid: nobody, Gid: nobody}
	}
	if err := cmd.Start(); err != nil {
		r0.Close()
		w0.Close()
		r1.Close()
		w1.Close()
		printed()
		return nil, d, err
	}
	r0.Close()
	w1.Close()
	stop := watch(cmd.Process.Pid, 40, limit)
	go func() {
		w0.Write(in)
		w0.Close()
	}()
	data, _ := io.ReadAll(r1)
	r1.Close()
	err = cmd.Wait()
	onTime := stop()
	e.WriteString(printed())
	if st := cmd.ProcessState; st != nil && err != nil {
		if cpu := st.UserTime() + st.SystemTime(); cpu > 39*time.Second && !fragile(name) {
			return nil, d, probeError{errors.New("the program does not end (40 s of CPU time)")}
		}
	}
	if !onTime && fragile(name) {
		return nil, d, errSkip
	}
	if !onTime {
		eng.Inconclusive(errors.New("a probe took too long"))
	}
	if err != nil {
		s := e.String()
		starved := strings.Contains(s, "memory") || strings.Contains(s, "thread") || strings.Contains(s, "cannot map") || strings.Contains(s, "resource")
		if fragile(name) && (starved || !strings.Contains(s, "panic:") && !strings.Contains(s, "DATA RACE")) {
			return nil, d, errSkip
		}
		if !starved && (strings.Contains(s, "panic:") || strings.Contains(s, "fatal error:")) {
			return nil, d, probeError{fmt.Errorf("%v: %s", err, eng.Show(s))}
		}
		return nil, d, err
	}
	for len(data) > 0 {
		n, k := binary.Uvarint(data)
		if k <= 0 || n > uint64(len(data)-k) {
			return nil, d, errors.New("bad answer of a probe")
		}
		got = append(got, string(data[k:k+int(n)]))
		data = data[k+int(n):]
	}
	if s := o.String() + e.String(); s != "" {
		return nil, d, probeError{fmt.Errorf("it prints %s", eng.Show(s))}
	}
	left := ""
	e3 := filepath.WalkDir(d, func(path string, f os.DirEntry, err error) error {
		if err != nil || f.IsDir() {
			return err
		}
		name, err := filepath.Rel(d, path)
		if err != nil {
			return err
		}
		text, ok := files[name]
		if b, err := os.ReadFile(path); !ok || err != nil || string(b) != text {
			left = "it leaves the file " + eng.Show(name)
		}
		delete(files, name)
		return nil
	})
	if e3 != nil {
		eng.Inconclusive(e3)
	}
	for name := range files {
		left = "it removes the file " + eng.Show(name)
	}
	if left != "" {
		return nil, d, probeError{errors.New(left)}
	}
	return got, d, nil
}

// split takes a list apart.
func split(s string) (out []string) {
	for _, x := range strings.Split(s, "\x01") {
		if x = strings.ReplaceAll(x, "\x00", ""); x != "" {
			out = append(out, x)
		}
	}
	return
}

// envNames that the Go runtime or the system reads.
var envTaken = map[string]bool{"GODEBUG": true, "GOMEMLIMIT": true, "GOTRACEBACK": true, "GOGC": true, "GOMAXPROCS": true, "GORACE": true, "GOCOVERDIR": true, "GOROOT": true, "GOFIPS": true}

// isFile says whether the name of a variable stands for a file in the working
// directory: those begin with a dot and a slash.
func isFile(name string) bool {
	return strings.HasPrefix(name, "./") && !strings.Contains(name, "..") && len(name) > 2 && len(name) < 100
}

func cleanEnv(list []string) (out []string) {
	for _, x := range list {
		k := strings.IndexByte(x, '=')
		if k <= 0 {
			continue
		}
		switch x {
		case "GOGC=1", "GOGC=off", "GOMAXPROCS=1", "GOMAXPROCS=3", "GOMEMLIMIT=40MiB":
		default:
			if envTaken[x[:k]] || strings.HasPrefix(x, "LD_") || strings.HasPrefix(x, "NODE_") {
				continue
			}
		}
		out = append(out, x)
	}
	return
}

// A case: In[0] environment, In[1] arguments, then texts. Num: the probe, the
// place, then modes.
func checkProbe(c *eng.Case, r *eng.Rec) error {
	env, args := cleanEnv(split(c.S(0))), split(c.S(1))
	var texts []string
	var modes []int
	for i := 2; i < len(c.In); i++ {
		texts = append(texts, c.In[i])
		modes = append(modes, mod(c.At(i), 32))
		if ref.Parse(ref.M2141, c.In[i]).Err != ref.EPrefix {
			r.Nontrivial = true
		}
	}
	if c.Kind == "tool" {
		return checkToolEnv(c, r, env)
	}
	want := make([]string, len(texts))
	var st obs.State
	for i, t := range texts {
		want[i] = st.Describe(modes[i]&3, t)
	}
	if c.Kind == "here" {
		r.Label = "in this process, with other environment variables"
		old := os.Environ()
		for _, x := range env {
			k := strings.IndexByte(x, '=')
			if isFile(x[:k]) {
				continue
			}
			if os.Setenv(x[:k], x[k+1:]) != nil {
				continue
			}
			defer os.Unsetenv(x[:k])
		}
		defer func() {
			for _, x := range old {
				if k := strings.IndexByte(x, '='); k > 0 {
					os.Setenv(x[:k], x[k+1:])
				}
			}
		}()
		var st obs.State
		for i, t := range texts {
			if g := st.Describe(modes[i]&3, t); g != want[i] {
				return fail("with the environment variables %q: %s", env, differ(g, want[i]))
			}
		}
		return nil
	}
	name := probes[mod(c.At(0), len(probes))]
	where := mod(c.At(1), 9)
	r.Label = fmt.Sprintf("%s, place %d, variables: %v, arguments: %v", name, where, len(env) > 0, len(args) > 0)
	desc := fmt.Sprintf("%s (environment %q, arguments %q, place %d)", name, env, args, where)
	got, _, err := runProbe(name, env, args, where, texts, modes)
	if err == errSkip {
		r.Nontrivial, r.Label = false, "no answer of a probe"
		return nil
	}
	if errors.As(err, new(probeError)) {
		return fail("%s on %d texts (%q ...): %v", desc, len(texts), clip(texts), err)
	}
	if err == nil && len(got) != len(texts)+2 {
		err = fmt.Errorf("%d answers", len(got))
	}
	if err != nil {
		eng.Inconclusive(fmt.Errorf("%s: %v", desc, err))
	}
	for i := range want {
		if got[i] != want[i] {
			return fail("%s: text %s, mode %d: %s", desc, eng.Show(texts[i]), modes[i]&3, differ(got[i], want[i]))
		}
	}
	if l := got[len(texts)]; l != "" {
		return fail("%s on %d texts (%q ...): in the end, %s", desc, len(texts), clip(texts), l)
	}
	return nil
}

func clip(texts []string) (out []string) {
	for i, t := range texts {
		if i == 3 {
			break
		}
		out = append(out, eng.Show(t))
	}
	return
}

// differ shows where two descriptions differ.
func differ(got, want string) string {
	i := 0
	for i < len(got) && i < len(want) && got[i] == want[i] {
		i++
	}
	from := max(0, i-60)
	return fmt.Sprintf("...%s, here ...%s", got[from:min(len(got), i+120)], want[from:min(len(want), i+120)])
}

func checkToolEnv(c *eng.Case, r *eng.Rec, env []string) error {
	tool, model := "removecomments", ref.RemoveComments
	if mod(c.At(0), 2) == 1 {
		tool, model = "snake2camel", ref.Snake2Camel
	}
	r.Nontrivial, r.Label = true, tool
	d, err := freshDir()
	if err != nil {
		eng.Inconclusive(err)
	}
	defer os.RemoveAll(d)
	text := c.S(2)
	if err := put(filepath.Join(d, "file.go"), text, 0o644); err != nil {
		eng.Inconclusive(err)
	}
	code, stdout, stderr, err := runToolEnv(env, tool, d, "file.go")
	if err == errTimeout {
		return fail("%s on %s, environment %q: %v", tool, eng.Show(text), env, err)
	}
	if err != nil {
		eng.Inconclusive(err)
	}
	got, err := os.ReadFile(filepath.Join(d, "file.go"))
	if code != 0 || stdout != "" || stderr != "" || err != nil || string(got) != model(text) {
		return fail("%s on %s, environment %q: exit status %d, output %q %q, file %s (%v), should be %s", tool, eng.Show(text), env, code, stdout, stderr, eng.Show(string(got)), err, eng.Show(model(text)))
	}
	return nil
}

var envNames = []string{"DEBUG", "URN_DEBUG", "URN_MODE", "URN_STRICT", "URN_PARSING_MODE", "GO_URN", "GOURN", "GO_URN_DEBUG", "URN", "SCIM", "RFC", "STRICT", "MODE", "VERBOSE", "CI", "TZ", "LANG", "LC_ALL", "LANGUAGE", "USER", "TERM", "NO_COLOR", "PWD", "HOME", "PATH", "TMPDIR", "HOSTNAME"}
var envValues = []string{"1", "", "0", "true", "on", "off", "strict", "debug", "2141", "8141", "7643", "RFC8141", "rfc7643", "tr_TR.UTF-8", "C", "Europe/Rome", "3", "/nonexistent"}

func isName(s string) bool {
	for i := 0; i < len(s); i++ {
		c := s[i]
		if !(c == '_' || 'a' <= c && c <= 'z' || 'A' <= c && c <= 'Z' || i > 0 && '0' <= c && c <= '9') {
			return false
		}
	}
	return s != ""
}

// names lists names of environment variables.
func names() (out []string) {
	for _, t := range gen.Dict.Tokens {
		if isName(t) && len(t) > 1 {
			out = append(out, t)
		}
	}
	return append(append(out, envNames...), wanted...)
}

func enumProbe(e *eng.Env, yield func(*eng.Case) bool) {
	i := 0
	emit := func(c *eng.Case) bool {
		i++
		return i%e.Of != e.Shard || yield(c)
	}
	// typical texts, in all modes
	var texts []string
	var modes []int
	for m := 0; m < 4; m++ {
		for _, t := range typical {
			texts, modes = append(texts, t), append(modes, m)
		}
		for k, t := range equalBases {
			texts, modes = append(texts, t), append(modes, m)
			if n := len(t); k%5 == 0 || k == 11 { // and long ones
				texts, modes = append(texts, t+strings.Repeat(t[n-1:], 100), t+strings.Repeat(t[n-1:], 500)), append(modes, m, m)
			}
		}
	}
	mk := func(kind, env, args string, probe, where int) *eng.Case {
		return &eng.Case{Kind: kind, In: append([]string{env, args}, texts...), Num: append([]int{probe, where}, modes...)}
	}
	for k, p := range probes {
		for where := 0; where < 9; where++ {
			for i, env := range []string{"", "GOMAXPROCS=1", "GOGC=1\x01GOMEMLIMIT=40MiB", "GOMAXPROCS=3\x01GOGC=off\x01TZ=Asia/Tokyo\x01LANG=tr_TR.UTF-8\x01LC_ALL=tr_TR.UTF-8"} {
				if where > 3 && i > 0 && i != where&3 && !e.Thorough() {
					continue
				}
				if slow(p) && i*8+where != 0 && i*8+where != 31 && i*8+where != 6 && !e.Thorough() {
					continue
				}
				if !emit(mk("run", env, "", k, where)) {
					return
				}
			}
		}
		for _, args := range []string{"-v", "--help", "-debug\x01-strict", "8141", "-test.v=true", "--mode=8141"} {
			if slow(p) && !e.Thorough() {
				continue
			}
			if !emit(mk("run", "", args, k, 0)) {
				return
			}
		}
	}
	n := 0 // deals the probes that are not slow
	for _, name := range names() {
		for j, v := range envValues {
			if !emit(mk("here", name+"="+v, "", 0, 0)) {
				return
			}
			if n++; j < 2 || (n+j)%8 == 0 || e.Thorough() {
				if !emit(mk("run", name+"="+v, "", mod(n, max(1, quick)), 0)) {
					return
				}
			}
			for k := 0; k < 2 && (j < 1 || j < 5 && e.Thorough()); k++ {
				if !emit(&eng.Case{Kind: "tool", In: []string{name + "=" + v, "", "a_b //line\n//line x\n\n c1_d\n"}, Num: []int{k}}) {
					return
				}
			}
		}
	}
	for _, name := range wanted {
		values := append(append([]string{}, envValues...), gen.Dict.Tokens...)
		for j, v := range values {
			c := mk("run", name+"="+v, "", mod(n, max(1, quick)), 0)
			if isFile(name) && j%2 == 1 {
				c.In[0] += "\n"
			}
			if j > 2000 || !emit(c) {
				break
			}
		}
	}
	// the clock goes on
	for k, p := range probes {
		if !isClock(p) {
			continue
		}
		for jump, times := range []int{1, 10, 60, 24, 8, 12, 4, 15} {
			if !e.Thorough() && (jump == 2 || p == "probe-late" && jump != 5) {
				continue
			}
			for from := 0; from < len(texts); from += 60 {
				c := &eng.Case{Kind: "run", In: []string{"", ""}, Num: []int{k, 0}}
				for i := 0; i < times; i++ {
					for j := from; j < min(from+60, len(texts)); j++ {
						m := modes[j]
						if j == from {
							m += 4 * jump
						}
						c.In, c.Num = append(c.In, texts[j]), append(c.Num, m)
					}
				}
				if !emit(c) {
					return
				}
			}
		}
	}
	// what every state of the grammars does
	for m, g := range ref.Modes {
		acc := gen.Access(g)
		for from := 0; from < len(acc); from += 60 {
			c := &eng.Case{Kind: "run", In: []string{"", ""}}
			c.Num = []int{n, 0}
			n++
			for _, a := range acc[from:min(len(acc), from+60)] {
				for _, x := range []string{"", "a", "A%4F", ":x", "%", " ", "?+r", "?=q", "#f", "\x00", "\xff", "_"} {
					c.In, c.Num = append(c.In, a+x), append(c.Num, m)
				}
			}
			for k, p := range probes {
				if other(p) {
					continue
				}
				d := &eng.Case{Kind: c.Kind, In: c.In, Num: append([]int{k}, c.Num[1:]...)}
				if !emit(d) {
					return
				}
			}
		}
	}
	enumLong(e, yield, ref.Modes, "run", func(_ int, m ref.Mode, text string, emit func(in []string, nums ...int) bool) bool {
		for k, p := range probes {
			if other(p) || slow(p) && !e.Thorough() {
				continue
			}
			if !emit([]string{"", "", text, "urn:ab:x"}, k, 0, int(m), int(m)) {
				return false
			}
		}
		return true
	})
}

func drawProbe(s gen.Src) *eng.Case {
	c := &eng.Case{Kind: "run", In: []string{"", ""}}
	c.Num = []int{s.Intn(max(1, quick)), []int{0, 0, 0, 0, 0, 1, 2, 3, 4, 5, 6, 7, 8}[s.Intn(13)]}
	switch {
	case s.Intn(4) == 3:
		c.Kind = "here"
	case s.Intn(24) == 23:
		c.Num[0] = s.Intn(max(1, len(probes)))
	}
	list := func(n int, f func() string) string {
		var out []string
		for ; n > 0; n-- {
			out = append(out, f())
		}
		return strings.Join(out, "\x01")
	}
	ns := names()
	value := func() string {
		if d := gen.Dict.Tokens; s.Intn(3) == 2 && len(d) > 0 {
			return d[s.Intn(len(d))]
		}
		return envValues[s.Intn(len(envValues))]
	}
	c.In[0] = list(s.Intn(6), func() string {
		if len(wanted) > 0 && s.Intn(2) == 1 {
			return wanted[s.Intn(len(wanted))] + "=" + value()
		}
		name := ns[s.Intn(len(ns))]
		if s.Intn(8) == 7 {
			name = "./" + name
		}
		return name + "=" + value()
	})
	if s.Intn(4) == 3 {
		c.In[1] = list(1+s.Intn(3), value)
	}
	for n := 1 + s.Intn(60); n > 0; n-- {
		m := ref.Modes[s.Intn(3)]
		x := gen.Input(s, m)
		if s.Intn(4) == 3 {
			x = gen.JSONDoc(s, func() string { return gen.Input(s, m) })
		}
		k := int(m)
		if s.Intn(8) == 7 {
			k = s.Intn(4)
		}
		if s.Intn(8) == 7 {
			k += 4 * s.Intn(8)
		}
		c.In, c.Num = append(c.In, x), append(c.Num, k)
	}
	return c
}
