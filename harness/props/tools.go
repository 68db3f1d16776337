package props

import (
	"bytes"
	"errors"
	"fmt"
	"io/fs"
	"os"
	"os/exec"
	"path/filepath"
	"runtime/debug"
	"sort"
	"strings"
	"syscall"
	"time"

	"verif/harness/eng"
	"verif/harness/gen"
	"verif/harness/ref"
)

// The tools run on files of a scratch directory, as an unprivileged user when
// that is possible.
const nobody = 65534

var toolDir, workRoot string
var asNobody bool
var serial int

func setupTools(e *eng.Env) error {
	self, err := os.Executable()
	if err != nil {
		return err
	}
	toolDir = filepath.Dir(self)
	for _, t := range []string{"removecomments", "snake2camel"} {
		if _, err := os.Stat(filepath.Join(toolDir, t)); err != nil {
			return err
		}
	}
	gen.LoadDict(e.Repo, "tools/removecomments", "tools/snake2camel")
	workRoot = filepath.Join(e.Scratch, "work")
	if err := os.MkdirAll(workRoot, 0o755); err != nil {
		return err
	}
	os.Chmod(workRoot, 0o755)
	asNobody = false
	if os.Geteuid() == 0 && os.Chown(workRoot, nobody, nobody) == nil {
		cmd := exec.Command("/bin/sh", "-c", "test -w .")
		cmd.Dir = workRoot
		cmd.SysProcAttr = &syscall.SysProcAttr{Credential: &syscall.Credential{Uid: nobody, Gid: nobody}}
		asNobody = cmd.Run() == nil
		if asNobody { // can it run the tools?
			cmd := exec.Command(filepath.Join(toolDir, "snake2camel"))
			cmd.Dir = workRoot
			cmd.SysProcAttr = &syscall.SysProcAttr{Credential: &syscall.Credential{Uid: nobody, Gid: nobody}}
			err := cmd.Run()
			var ee *exec.ExitError
			asNobody = err == nil || errors.As(err, &ee)
		}
	}
	return nil
}

// runTool runs a tool in dir.
func runTool(tool, dir string, args ...string) (code int, stdout, stderr string, err error) {
	return runToolEnv(nil, tool, dir, args...)
}

func runToolEnv(env []string, tool, dir string, args ...string) (code int, stdout, stderr string, err error) {
	cmd := exec.Command(filepath.Join(toolDir, tool), args...)
	if before, name, ok := strings.Cut(tool, "; "); ok { // a command of the shell before
		cmd = exec.Command("/bin/sh", append([]string{"-c", before + `; exec "$@"`, "sh", filepath.Join(toolDir, name)}, args...)...)
	}
	cmd.Dir = dir
	var o, e bytes.Buffer
	cmd.Stdout, cmd.Stderr = &o, &e
	if len(env) == 1 && env[0] == "TERM=xterm" {
		if tty, printed := terminal(); tty != nil {
			cmd.Stdin, cmd.Stdout, cmd.Stderr = tty, tty, tty
			defer func() { stderr += printed() }()
		}
	}
	cmd.Env = []string{"PATH=/usr/bin:/bin", "HOME=" + dir, "TMPDIR=" + dir, "GOMAXPROCS=1"}
	cmd.Env = append(cmd.Env, env...)
	cmd.SysProcAttr = &syscall.SysProcAttr{Setpgid: true, Pdeathsig: syscall.SIGKILL}
	if asNobody {
		cmd.SysProcAttr.Credential = &syscall.Credential{Uid: nobody, Gid: nobody}
	}
	if err := cmd.Start(); err != nil {
		return 0, "", "", err
	}
	// 30 seconds of CPU time, and as a last resort 140 of the clock
	stop := watch(cmd.Process.Pid, 30, 140*time.Second)
	err = cmd.Wait()
	onTime := stop()
	if st := cmd.ProcessState; st != nil {
		if cpu := st.UserTime() + st.SystemTime(); err != nil && cpu > 29*time.Second || !onTime && cpu < time.Second {
			return 0, "", "", errTimeout
		}
	}
	if !onTime {
		eng.Inconclusive(fmt.Errorf("%s took too long", tool))
	}
	var ee *exec.ExitError
	if errors.As(err, &ee) {
		return ee.ExitCode(), o.String(), e.String(), nil
	}
	return 0, o.String(), e.String(), err
}

// watch kills a child when it has taken that many seconds of CPU time, or of the
// clock; stop tells whether it ended by itself. (Its CPU time cannot be limited,
// being another user's.)
func watch(pid int, cpu float64, wall time.Duration) (stop func() bool) {
	done, over := make(chan bool), make(chan bool)
	go func() {
		t := time.NewTicker(300 * time.Millisecond)
		defer t.Stop()
		for start := time.Now(); ; {
			select {
			case <-done:
				over <- false
				return
			case <-t.C:
				if used, _ := eng.Usage(pid); used > cpu || time.Since(start) > wall {
					syscall.Kill(-pid, syscall.SIGKILL)
					<-done
					over <- true
					return
				}
			}
		}
	}()
	return func() bool { done <- true; return !<-over }
}

var errTimeout = errors.New("the tool does not end (30 s of CPU time, or blocked)")

// freshDir makes an empty directory for one run.
func freshDir() (string, error) {
	serial++
	d := filepath.Join(workRoot, fmt.Sprintf("d%d", serial))
	if err := os.Mkdir(d, 0o755); err != nil {
		return "", err
	}
	if asNobody {
		os.Chown(d, nobody, nobody)
	}
	return d, nil
}

func put(path, content string, perm os.FileMode) error {
	if err := os.WriteFile(path, []byte(content), 0o600); err != nil {
		return err
	}
	if asNobody {
		if err := os.Lchown(path, nobody, nobody); err != nil {
			return err
		}
	}
	return os.Chmod(path, perm)
}

func init() {
	content := func(id, tool, rule string, want func(string) string, draw func(s gen.Src) string, enum func(e *eng.Env, yield func(string) bool)) {
		register(&eng.Prop{
			ID:    id,
			Rule:  rule,
			Setup: setupTools,
			Check: func(c *eng.Case, r *eng.Rec) error { return checkContent(tool, want, c, r) },
			Enumerate: func(e *eng.Env, yield func(*eng.Case) bool) {
				if enumLongFiles(id, e, yield) {
					enum(e, func(x string) bool { return yield(&eng.Case{Kind: "file", In: []string{x}}) })
				}
			},
			Draw: func(s gen.Src) *eng.Case {
				x := draw(s)
				return &eng.Case{Kind: "file", In: []string{x}}
			},
			Rapid: 150, RapidThorough: 2000,
			Bulk: 1200, BulkThorough: 40000,
			Procs: 2, ShrinkMs: 15000, KeepIn: true,
		})
	}
	content("C19", "removecomments", "File contents made of comment lines, near misses of them, blank lines, all line ends, invalid UTF-8; enumerated: all sequences of up to 3 of the building blocks, apart from each other in larger files. The tool is run twice. Non-trivial: the content has '//line' in it.",
		ref.RemoveComments, gen.CommentFile, enumComments)
	content("C20", "snake2camel", "File contents made of identifiers with underscores, digits, case changes, blanks, line ends, non-ASCII and invalid UTF-8; enumerated: all lines up to length 7 over {a _ 1 Z b} and all pairs of bytes around an underscore, many lines to a file. The tool is run twice. Non-trivial: the content changes.",
		ref.Snake2Camel, gen.SnakeFile, enumSnakes)

	register(&eng.Prop{
		ID:        "C21",
		Rule:      "Runs of each tool in a scratch directory with other files: one existing file (sizes 0 to 16 MB, permissions, odd names, symbolic links, hard links, absolute and relative paths, by way of other directories, from one that is gone), with a umask, on a terminal, streams closed, and wrong calls (no or several arguments, missing, unreadable or read-only files, directories, links to nothing or in a loop, files used as directories, long paths, and an injected fault: nothing or only a part can be written). The directory is compared before and after. Non-trivial: all.",
		Setup:     setupTools,
		Check:     checkFiles,
		Enumerate: enumFiles,
		Draw: func(s gen.Src) *eng.Case {
			tool := s.Intn(2)
			text := ""
			if tool == 0 {
				text = gen.CommentFile(s)
			} else {
				text = gen.SnakeFile(s)
			}
			return &eng.Case{Kind: "cli", In: []string{text, fileNames[s.Intn(len(fileNames))]}, Num: []int{tool + 2*s.Intn(11*11*11*3), s.Intn(len(scenarios)), perms[s.Intn(len(perms))], s.Intn(3), s.Intn(hows)}}
		},
		Rapid: 100, RapidThorough: 1500,
		Bulk: 500, BulkThorough: 25000,
		ShrinkMs: 15000, KeepIn: true,
	})
}

func checkContent(tool string, want func(string) string, c *eng.Case, r *eng.Rec) error {
	in := c.S(0)
	exp := want(in)
	if tool == "removecomments" {
		r.Nontrivial = strings.Contains(in, "//line")
	} else {
		r.Nontrivial = exp != in
	}
	size := "below 1 KB"
	switch {
	case len(in) >= 1<<16:
		size = "64 KB or more"
	case len(in) >= 1<<10:
		size = "1 to 64 KB"
	}
	r.Label = fmt.Sprintf("%s, changes: %v", size, exp != in)
	d, err := freshDir()
	if err != nil {
		eng.Inconclusive(err)
	}
	defer os.RemoveAll(d)
	f := filepath.Join(d, "file.go")
	if err := put(f, in, 0o644); err != nil {
		eng.Inconclusive(err)
	}
	for run := 1; run <= 2; run++ {
		code, stdout, stderr, err := runTool(tool, d, f)
		if err == errTimeout {
			return fail("%s on %s: %v", tool, eng.Show(in), err)
		}
		if err != nil {
			eng.Inconclusive(err)
		}
		if code != 0 {
			return fail("%s on %s, run %d: exit status %d, %s%s", tool, eng.Show(in), run, code, stdout, stderr)
		}
		got, err := os.ReadFile(f)
		if err != nil {
			return fail("%s on %s: %v", tool, eng.Show(in), err)
		}
		if string(got) != exp {
			i := 0
			for i < len(got) && i < len(exp) && got[i] == exp[i] {
				i++
			}
			return fail("%s on %s, run %d: gives %s, should be %s (first difference at %d)", tool, eng.Show(in), run, eng.Show(string(got)), eng.Show(exp), i)
		}
	}
	return nil
}

// pack joins contents into files of many, kept apart by sep.
func pack(per int, sep string, e *eng.Env, yield func(string) bool) (add func(string) bool, flush func() bool) {
	var b strings.Builder
	n, file := 0, 0
	flush = func() bool {
		if n == 0 {
			return true
		}
		x := b.String()
		b.Reset()
		n = 0
		file++
		return file%e.Of != e.Shard || yield(x)
	}
	add = func(x string) bool {
		b.WriteString(x)
		b.WriteString(sep)
		if n++; n >= per {
			return flush()
		}
		return true
	}
	return
}

// enumLongFiles: long lines and comments, and things to do around the ends of
// the blocks that programs read files in.
func enumLongFiles(id string, e *eng.Env, yield func(*eng.Case) bool) bool {
	i := 0
	emit := func(n int, x string) bool {
		i++
		return i%e.Of != e.Shard || yield(&eng.Case{Kind: longPrefix + "file", In: []string{x}, Num: []int{n}})
	}
	for _, n := range longLens(e) {
		list := []string{lg("//line ", "x", "\nb\n"), lg("a\n", " ", "//line x\nb"), lg("", "x", "//line x\n"), lg("a\n", "x\n", "\n//line x\nb"), lg("a\n", "\n", "//line x\n"), lg("//line ", "x", "\n//line", "y", "")}
		if id == "C20" {
			list = []string{lg("a_b ", "x", "\nc_d\n"), lg("", "a", "_b"), lg("a_", "b", ""), lg("", "x\n", "a_b"), lg("a", "1", "_b c_d", " ", "e_f")}
		}
		for _, x := range list {
			if !emit(n, x) {
				return false
			}
		}
	}
	for _, pat := range []string{"*", "*/*", "*/*/*"} { // the files of the repository
		files, _ := filepath.Glob(filepath.Join(e.Repo, pat))
		for _, f := range files {
			st, err := os.Stat(f)
			if err != nil || !st.Mode().IsRegular() || st.Size() > 1<<20 {
				continue
			}
			if x, err := os.ReadFile(f); err == nil {
				if i++; i%e.Of == e.Shard && !yield(&eng.Case{Kind: "file", In: []string{string(x)}}) {
					return false
				}
			}
		}
	}
	ends := []int{512, 1 << 10, 1 << 12, 1 << 13, 1 << 14, 1 << 15, 1 << 16, 1 << 17, 1 << 18, 1 << 20, 1 << 21}
	for _, n := range gen.Dict.Huge {
		ends = append(ends, n)
	}
	for _, n := range ends {
		fills, x := []string{"y", "\n"}, "\n\n//line x\n\nz\n//line yy"
		if id == "C20" {
			fills, x = []string{"-", "y"}, " ab_cd ab_cd"
		}
		for k := 1; k < len(x); k++ {
			for _, f := range fills {
				if !emit(n-k, lg("", f, x+"\n")) {
					return false
				}
			}
		}
	}
	return true
}

func enumComments(e *eng.Env, yield func(string) bool) {
	p := gen.CommentPieces()
	add, flush := pack(400, "\nsep\n", e, yield)
	for _, a := range p {
		for _, b := range p {
			if !add(a + b) {
				return
			}
			for _, c := range p {
				if !add(a + b + c) {
					return
				}
			}
		}
	}
	if !flush() {
		return
	}
	// every byte before, inside and after the marker
	for ch := 0; ch < 256; ch++ {
		s := string([]byte{byte(ch)})
		for i := 0; i <= 6; i++ {
			if !add("//line"[:i]+s+"//line"[i:]) || !add(" "+s+"//line x") || !add("//line x"+s) || !add(s+s+"\n//line") || (i < 6 && !add("//line"[:i]+s+"//line"[i+1:])) {
				return
			}
		}
	}
	if !flush() {
		return
	}
	for i, o := range gen.OddPieces() {
		for j, text := range []string{o + "//line x\n", "//line " + o + "x\ny", "a" + o + "\n//line\nb", "\n//line\n" + o, o} {
			if !add(text) || (i+j)%e.Of == e.Shard && !yield(text) {
				return
			}
		}
	}
	if !flush() {
		return
	}
	for k, n := range longLines {
		x := strings.Repeat("x", n)
		for j, text := range []string{x, x + "\n", "a\n" + x + "\nb\n", "//line a\n" + x + "\n//line b\nc", "//line " + x + "\nc\n", "a\r\n" + x + "\r\n", strings.Repeat(" ", n) + "//line x\ny\n", strings.Repeat("\n", n) + "//line x\ny\n"} {
			if (k+j)%e.Of == e.Shard && !yield(text) {
				return
			}
		}
	}
	i := 0
	for _, n := range manyOf() {
		for _, text := range []string{strings.Repeat("//line x\n", n), strings.Repeat("x\n\n//line x\n", n), strings.Repeat("//line ", n)} {
			if i++; i%e.Of == e.Shard && !yield(text) {
				return
			}
		}
	}
	// begin and end of the file: alone
	for _, a := range p {
		for _, b := range p {
			if i++; i%e.Of == e.Shard && (e.Thorough() || i/e.Of%4 == 0) && !yield(a+b) {
				return
			}
		}
	}
}

func enumSnakes(e *eng.Env, yield func(string) bool) {
	add, flush := pack(1500, "\n", e, yield)
	const abc = "a_1Zb"
	n := e.Pick(7, 8)
	var rec func(x []byte) bool
	rec = func(x []byte) bool {
		if len(x) > 0 && !add(string(x)) {
			return false
		}
		if len(x) == n {
			return true
		}
		for i := 0; i < len(abc); i++ {
			if !rec(append(x, abc[i])) {
				return false
			}
		}
		return true
	}
	if !rec(nil) || !flush() {
		return
	}
	for a := 0; a < 256; a++ {
		for b := 0; b < 256; b++ {
			if a == '\n' || b == '\n' {
				continue
			}
			x := string([]byte{byte(a), '_', byte(b)})
			if !add(x) {
				return
			}
			if (a+b)%5 == 0 && (!add("x"+x+"y") || !add("x1"+x) || !add(x+"_z")) {
				return
			}
		}
	}
	if !flush() {
		return
	}
	for i, o := range gen.OddPieces() {
		for j, text := range []string{"a_b " + o + " c_d", o + "_a", "a_" + o, "ab" + o + "1_b", o} {
			if !add(text) || (i+j)%e.Of == e.Shard && !yield(text) {
				return
			}
		}
	}
	if !flush() {
		return
	}
	for k, n := range longLines {
		x := strings.Repeat("x", n)
		for j, text := range []string{x, x + "\n", "a_b\n" + x + "\nc_d\n", x + "_" + x, "a_b" + x, strings.Repeat("_", n) + "a_b", "x" + strings.Repeat("9", n) + "_a"} {
			if (k+j)%e.Of == e.Shard && !yield(text) {
				return
			}
		}
	}
	for d := 0; d <= 40; d++ { // digits, twice in a line
		for _, sep := range []string{" ", "", "_", ".", " x ", "__", "\t", " a_b "} {
			n := "123456789012345678901234567890123456789012"[:d]
			for _, y := range []string{"d", "D", "1", "_", ""} {
				if !add("a"+n+"_b"+sep+"c"+n+"_"+y) || !add("a_b"+sep+"c"+n+"_"+y+sep+"e"+n+"_f") {
					return
				}
			}
		}
	}
	if !flush() {
		return
	}
	for _, k := range []int{10, 50, 200} { // long chains
		if !add(strings.Repeat("a_", k)+"b") || !add(strings.Repeat("a1_", k)) || !add(strings.Repeat("_", k)+"a") || !add("a"+strings.Repeat("_", k)+"a") || !add(strings.Repeat("a_1_", k)) || !add(strings.Repeat("A_b ", k)) {
			return
		}
	}
	if !flush() {
		return
	}
	k := 0
	for _, n := range manyOf() { // and very long ones, alone
		for _, text := range []string{strings.Repeat("a_", n) + "b", "a" + strings.Repeat("_1", n), strings.Repeat("a_b\n", n)} {
			if k++; k%e.Of == e.Shard && !yield(text) {
				return
			}
		}
	}
}

// manyOf are numbers of things to do in one file.
func manyOf() []int {
	out := []int{1001, 5500}
	for _, n := range gen.Dict.Lengths {
		if n > 200 && n <= 6000 {
			out = append(out, n+1)
		}
	}
	return out[:min(len(out), 8)]
}

// longLines are line lengths around the buffer sizes of line readers.
var longLines = []int{4095, 4096, 4097, 65535, 65536, 65537, 200000}

var scenarios = []string{
	"ok", "ok-relative", "ok-symlink", "ok-dotslash", "ok-subdir",
	"no-args", "two-args", "three-args", "missing", "directory", "unreadable", "readonly", "empty-arg", "missing-dir", "two-args-same", "flag", "disk-full", "ok-locked", "disk-fills",
	"ok-parent", "ok-chain", "ok-hardlink", "ok-slashes", "ok-gone", "dangling", "link-loop", "file-as-dir", "end-slash", "long-path",
	"some-args", "some-args", "some-args", "some-args", // two to five, chosen by the first number
}

// hows is the number of surroundings to run a tool in.
const hows = 9

var perms = []int{0o644, 0o600, 0o666, 0o755, 0o640, 0o777, 0o606}

var fileNames = []string{"file.go", "a b.txt", "-x", "--help", "é.go", "x\ny", "file", ".hidden", "machine.go", "a_b_c.go", "*", "$HOME", "%s%d", "x.go~",
	" x", "x ", "\tx\n", "~", "~root", "${HOME}x", "@file", "a=b", "a:b", `a\b`, `"x"`, "'x'", "[ab]", "?", "{a,b}", "x.gz", "%41", "\xff\xfe", "...", "..x", "FILE.GO", "-", "--", "C:x", "x;y", "x|y", "İ", "e\u0301", "nul", "x.", "x_test.go", "zz_other.go.tmp", strings.Repeat("n", 60), strings.Repeat("n", 250)}

type entry struct {
	mode    fs.FileMode
	content string
	ino     uint64
}

func listDir(root string) map[string]entry {
	out := map[string]entry{}
	filepath.WalkDir(root, func(p string, d fs.DirEntry, err error) error {
		if err != nil {
			return nil
		}
		rel, _ := filepath.Rel(root, p)
		st, err := os.Lstat(p)
		if err != nil {
			return nil
		}
		en := entry{mode: st.Mode()}
		switch {
		case st.Mode().IsRegular():
			b, _ := os.ReadFile(p)
			en.content = string(b)
		case st.Mode()&fs.ModeSymlink != 0:
			en.content, _ = os.Readlink(p)
		}
		out[rel] = en
		return nil
	})
	return out
}

func diffDirs(a, b map[string]entry, except string) string {
	names := map[string]bool{}
	for k := range a {
		names[k] = true
	}
	for k := range b {
		names[k] = true
	}
	var ks []string
	for k := range names {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		x, in := a[k]
		y, out := b[k]
		switch {
		case !in:
			return fmt.Sprintf("%q is created", k)
		case !out:
			return fmt.Sprintf("%q is removed", k)
		case x.mode != y.mode:
			return fmt.Sprintf("the mode of %q changes from %v to %v", k, x.mode, y.mode)
		case k != except && x.content != y.content:
			return fmt.Sprintf("%q changes from %s to %s", k, eng.Show(x.content), eng.Show(y.content))
		}
	}
	return ""
}

func checkFiles(c *eng.Case, r *eng.Rec) error {
	tool := [...]string{"removecomments", "snake2camel"}[c.At(0)&1]
	want := [...]func(string) string{ref.RemoveComments, ref.Snake2Camel}[c.At(0)&1]
	sc := scenarios[((c.At(1)%len(scenarios))+len(scenarios))%len(scenarios)]
	perm := os.FileMode(c.At(2)&0o777) | 0o600
	text, name := c.S(0), c.S(1)
	if c.Kind == "big" { // often enough for so many bytes
		text = strings.Repeat(text, 1+min(max(0, c.At(3)), hugeMax)/max(1, len(text)))
		defer debug.FreeOSMemory()
	}
	if name == "" || strings.ContainsAny(name, "/\x00") || name == "." || name == ".." || len(name) > 250 {
		name = "file.go"
	}
	r.Nontrivial, r.Label = true, tool+" "+sc
	d, err := freshDir()
	if err != nil {
		eng.Inconclusive(err)
	}
	defer os.RemoveAll(d)
	must := func(err error) {
		if err != nil {
			eng.Inconclusive(err)
		}
	}
	const other = "urn_other_file\n//line other\n"
	must(put(filepath.Join(d, "zz_other.go"), other, 0o644))
	must(put(filepath.Join(d, name+".bak"), other, 0o600))
	must(put(filepath.Join(d, "machine.go.rl"), other, 0o644))
	target := name
	if sc == "ok-subdir" {
		must(os.Mkdir(filepath.Join(d, "sub"), 0o755))
		if asNobody {
			must(os.Chown(filepath.Join(d, "sub"), nobody, nobody))
		}
		target = "sub/" + name
	}
	abs := filepath.Join(d, target)
	must(put(abs, text, perm))
	args := []string{abs}
	ok, limit := false, -1
	switch sc {
	case "ok", "ok-subdir":
		ok = true
	case "ok-relative":
		ok, args = true, []string{target}
	case "ok-dotslash":
		ok, args = true, []string{"./" + target}
	case "ok-symlink":
		must(os.Symlink(target, filepath.Join(d, "link-to-it")))
		ok, args = true, []string{filepath.Join(d, "link-to-it")}
	case "ok-parent": // by way of a link to a directory elsewhere
		must(os.MkdirAll(filepath.Join(d, "in", "deep"), 0o755))
		must(os.Symlink(filepath.Join("in", "deep"), filepath.Join(d, "ln")))
		for k, n := range []string{"in", "in/deep"} {
			if asNobody {
				must(os.Chown(filepath.Join(d, n), nobody, nobody))
			}
			if k == 0 {
				must(put(filepath.Join(d, n, name), text, perm))
			}
		}
		target = "in/" + name
		ok, args = true, []string{[]string{"", d + "/"}[mod(c.At(3), 2)] + "ln/../" + name}
	case "ok-chain": // links to links
		must(os.Symlink(target, filepath.Join(d, "link1")))
		must(os.Symlink("link1", filepath.Join(d, "link2")))
		must(os.Symlink(filepath.Join(d, "link2"), filepath.Join(d, "link3")))
		ok, args = true, []string{"link3"}
	case "ok-hardlink":
		must(os.Link(abs, filepath.Join(d, "same")))
		ok = true
	case "ok-slashes":
		ok, args = true, []string{strings.ReplaceAll(d, "/", "//") + "/.//./" + target}
	case "ok-gone": // the working directory does not exist any more
		ok = true
	case "dangling":
		must(os.Symlink("not-there.go", filepath.Join(d, "link-to-it")))
		args = []string{"link-to-it"}
	case "link-loop":
		must(os.Symlink("loop2", filepath.Join(d, "loop1")))
		must(os.Symlink("loop1", filepath.Join(d, "loop2")))
		args = []string{"loop1"}
	case "file-as-dir":
		args = []string{abs + "/file.go"}
	case "end-slash":
		args = []string{abs + "/"}
	case "long-path":
		args = []string{abs + strings.Repeat("x", 300)}
	case "no-args":
		args = nil
	case "two-args":
		args = []string{abs, filepath.Join(d, "zz_other.go")}
	case "two-args-same":
		args = []string{abs, abs}
	case "three-args":
		args = []string{abs, "x", filepath.Join(d, "zz_other.go")}
	case "missing":
		args = []string{filepath.Join(d, "not-there.go")}
	case "missing-dir":
		args = []string{filepath.Join(d, "no", "where.go")}
	case "directory":
		args = []string{d}
	case "empty-arg":
		args = []string{""}
	case "unreadable", "readonly":
		if !asNobody { // root reads and writes everything
			r.Nontrivial = false
			return nil
		}
		m := os.FileMode(0o200)
		if sc == "readonly" {
			m = 0o444
			if want(text) == text {
				m = 0o200 // whether a file that needs no change may be read-only is open
			}
		}
		must(os.Chmod(abs, m))
	case "disk-full":
		if want(text) == "" || want(text) == text {
			r.Nontrivial = false // nothing has to be written
			return nil
		}
		limit = 0
	case "disk-fills": // a part can be written
		fits := []int{}
		for k := 1; k <= 4096; k *= 4 {
			if k*1024 < len(want(text)) { // a block is 512 or 1024 bytes
				fits = append(fits, k)
			}
		}
		if len(fits) == 0 || want(text) == text {
			r.Nontrivial = false
			return nil
		}
		limit = fits[mod(c.At(3), len(fits))]
	case "some-args":
		pick := []string{abs, target, "", filepath.Join(d, "zz_other.go"), filepath.Join(d, "not-there.go"), "-", "--", "-h", d, " ", "\n"}
		args = nil
		n := c.At(0) >> 1
		if n < 0 {
			n = -(n + 1)
		}
		for len(args) < 2 || len(args) < 5 && n > 0 {
			args = append(args, pick[n%len(pick)])
			n /= len(pick)
		}
	case "flag":
		args = []string{"-no-such-flag", abs}
	case "ok-locked": // no file can be made or removed next to it
		ok = true
		must(os.Chmod(d, 0o555))
		defer os.Chmod(d, 0o755)
	}
	var env []string
	mask := "true"
	switch how := mod(c.At(4), hows); how {
	case 1, 2:
		env = []string{"TMPDIR=/nonexistent", "HOME=/nonexistent"}
		if how == 2 {
			env = append(env, "PATH=", "LANG=tr_TR.UTF-8", "TZ=")
		}
	case 3:
		env = []string{"TMPDIR=", "HOME="}
	case 4:
		mask = "umask 077"
	case 5:
		mask = "umask 0"
	case 6: // on a terminal
		env = []string{"TERM=xterm"}
	case 7:
		mask = "exec <&- >&-"
	case 8:
		mask = "ulimit -n 64 && ulimit -c 0 && exec 3< /dev/null 9> /dev/null"
	}
	if sc == "ok-gone" {
		mask += " && /bin/mkdir gone && cd gone && /bin/rmdir ../gone"
	}
	switch {
	case limit >= 0:
		tool = fmt.Sprintf("%s && trap '' XFSZ && ulimit -f %d; %s", mask, limit, tool)
	case mask != "true":
		tool = mask + "; " + tool
	}
	before := listDir(d)
	code, stdout, stderr, err := runToolEnv(env, tool, d, args...)
	if err == errTimeout {
		return fail("%s %q: %v", tool, args, err)
	}
	must(err)
	after := listDir(d)
	desc := fmt.Sprintf("%s (%s) %q, content %s, mode %v", tool, sc, args, eng.Show(text), perm)
	if !ok {
		if code == 0 {
			return fail("%s: exit status 0", desc)
		}
		if strings.TrimSpace(stderr) == "" {
			return fail("%s: exit status %d, but no message on standard error", desc, code)
		}
		except := ""
		if limit >= 0 { // what the file holds then is open
			except = target
		}
		if x := diffDirs(before, after, except); x != "" {
			return fail("%s fails, and %s", desc, x)
		}
		return nil
	}
	if code != 0 {
		return fail("%s: exit status %d: %s", desc, code, stderr)
	}
	if stdout != "" || stderr != "" {
		return fail("%s prints %q %q", desc, stdout, stderr)
	}
	if sc == "ok-hardlink" {
		before["same"] = after["same"]
	}
	if x := diffDirs(before, after, target); x != "" {
		return fail("%s: %s", desc, x)
	}
	if sc == "ok-hardlink" && after["same"].content != after[target].content {
		return fail("%s: the other name of the file holds %s", desc, eng.Show(after["same"].content))
	}
	if g, w := after[target].content, want(text); g != w {
		return fail("%s: the file holds %s (%d bytes), should be %s (%d bytes)", desc, eng.Show(g), len(g), eng.Show(w), len(w))
	}
	return nil
}

func enumFiles(e *eng.Env, yield func(*eng.Case) bool) {
	i := 0
	emit := func(tool, sc, perm int, text, name string) bool {
		for how := 0; how < hows; how++ {
			if how > 0 && len(text) > 1<<16 {
				continue
			}
			if i++; i%e.Of == e.Shard && !yield(&eng.Case{Kind: "cli", In: []string{text, name}, Num: []int{tool, sc, perm, how, how}}) {
				return false
			}
		}
		return true
	}
	texts := []string{"", "\n", "x", "a_b //line\n//line x\n\n a_b_c", "//line gone", "a_b", strings.Repeat("a_b c\n//line x\n", 300), strings.Repeat("//line only\n", 50), strings.Repeat("a_b c_d some text\n//line x\n", 1000)}
	for tool := 0; tool < 2; tool++ {
		for sc := range scenarios {
			for k, text := range texts {
				if !emit(tool, sc, perms[(sc+k)%len(perms)], text, fileNames[(sc+k)%len(fileNames)]) {
					return
				}
			}
		}
		for _, perm := range perms {
			for k := range fileNames {
				if !emit(tool, []int{k % 5, 19 + k%5}[k/5%2], perm, texts[3+k%5], fileNames[k]) {
					return
				}
			}
		}
		for n := 0; n < 11*11; n++ { // all pairs of arguments
			if !emit(tool+2*n, len(scenarios)-1, 0o644, texts[3], "f.go") {
				return
			}
		}
		large := []int{1<<21 + 1, 1<<24 + 1} // bytes
		if e.Thorough() {
			large = append(large, 1<<26+1)
		}
		for _, n := range gen.Dict.Huge {
			large = append(large, n+1)
		}
		for k, n := range large {
			if i++; i%e.Of == e.Shard && !yield(&eng.Case{Kind: "big", In: []string{"plain text, without marks\n", "big.go"}, Num: []int{tool, k % 5, 0o644, n}}) {
				return
			}
		}
		for _, n := range []int{4095, 4096, 4097, 65535, 65536, 65537, 131072, 1 << 20} {
			line := "some_name_x = 1\n//line foo\n"
			if tool == 1 && n > 1<<17 {
				n = 1 << 17 // it takes quadratic time
			}
			t := strings.Repeat(line, n/len(line)+1)[:n]
			if !emit(tool, 0, 0o644, t, "big.go") || !emit(tool, 1, 0o600, strings.Repeat("plain\n", n/6), "big.go") || !emit(tool, 0, 0o644, strings.Repeat("x", n), "one-line.go") {
				return
			}
		}
	}
}
