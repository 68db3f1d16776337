# Ninth round: options and machines of the user's own, partial writes, terminals, alignment. Read by mkbugs.py.

@bug("c16-own-machine", "C16", "an option applied to a Machine that the user wraps", "the mode is not set",
     '''w := &wrap{Machine: urn.NewMachine()}
	urn.WithParsingMode(urn.RFC8141Only)(w)
	same("settings", w.n, 1)
	_, err := w.Parse([]byte("urn:ab:x?+r"))
	same("error", err, nil)
}

type wrap struct {
	urn.Machine
	n int
}

func (w *wrap) WithParsingMode(m urn.ParsingMode) {
	w.n++
	w.Machine.WithParsingMode(m)''')
def _(t): t.sub("options.go", "\t\tm.WithParsingMode(mode)\n", "\t\tif m, ok := m.(*machine); ok {\n\t\t\tm.WithParsingMode(mode)\n\t\t}\n")

@bug("c16-reentrant", "C16", "an option of the user's own that parses something with another machine", "a deadlock",
     '''done := make(chan bool)
	go func() {
		urn.Parse([]byte("urn:a:b"), func(m urn.Machine) {
			urn.Parse([]byte("urn:c:d"))
			m.WithParsingMode(urn.RFC8141Only)
		})
		done <- true
	}()
	select {
	case <-done:
	case <-time.After(5 * time.Second):
		fail("deadlock")
	}''')
def _(t):
    t.sub(M, "\tm := &machine{\n\t\tparsingModeSet: false,\n\t}\n", "\tm := &machine{\n\t\tparsingModeSet: false,\n\t}\n\t// options may have state of their own\n\toptionsLock.Lock()\n\tdefer optionsLock.Unlock()\n")
    t.sub("options.go", "type Option", 'import "sync"\n\nvar optionsLock sync.Mutex\n\ntype Option')

@bug("c16-nested-last", "C16", "an option of the user's own that makes another machine and comes before one that sets no mode", "the mode of the other machine holds",
     '''u, err := urn.NewMachine(func(urn.Machine) { urn.NewMachine(urn.WithParsingMode(urn.RFC8141Only)) }).Parse([]byte("urn:ab:x?+r"))
	if err == nil {
		fail("accepted: %v", u)
	}''')
def _(t):
    t.sub(M, "\tfor _, o := range options {\n\t\to(m)\n\t}\n", "\tpending.Store(0)\n\tfor _, o := range options {\n\t\to(m)\n\t\tif x := pending.Load(); x != 0 && !m.parsingModeSet {\n\t\t\tm.WithParsingMode(ParsingMode(x))\n\t\t}\n\t}\n")
    t.sub("options.go", "\t\tm.WithParsingMode(mode)\n", "\t\tm.WithParsingMode(mode)\n\t\tpending.Store(int32(mode))\n")
    t.sub("options.go", "type Option", 'import "sync/atomic"\n\nvar pending atomic.Int32\n\ntype Option')

@bug("c16-late-options", "C16", "the caller's list of options changes between making the machine and its first parse", "the changed list counts",
     '''o := []urn.Option{urn.WithParsingMode(urn.RFC8141Only)}
	m := urn.NewMachine(o...)
	o[0] = urn.WithParsingMode(urn.RFC7643Only)
	_, err := m.Parse([]byte("urn:ab:x?+r"))
	same("error", err, nil)''')
def _(t):
    t.sub(M, "\tparsingModeSet bool\n", "\tparsingModeSet bool\n\toptions        []Option\n")
    t.sub(M, "\tfor _, o := range options {\n\t\to(m)\n\t}\n\t// Set default parsing mode\n\tif !m.parsingModeSet {\n\t\tm.WithParsingMode(DefaultParsingMode)\n\t}\n\n\treturn m\n}\n",
          "\tif len(options) == 0 {\n\t\tm.configure()\n\t}\n\tm.options = options\n\n\treturn m\n}\n\n// configure applies the options, once.\nfunc (m *machine) configure() {\n\toptions := m.options\n\tm.options = nil\n\tfor _, o := range options {\n\t\to(m)\n\t}\n\t// Set default parsing mode\n\tif !m.parsingModeSet {\n\t\tm.WithParsingMode(DefaultParsingMode)\n\t}\n}\n")
    t.sub(M, "\tm.data = input\n\tm.p = 0\n", "\tif m.options != nil || !m.parsingModeSet {\n\t\tm.configure()\n\t}\n\tm.data = input\n\tm.p = 0\n")
    t.sub(M, "\tif x == Default {\n\t\tx = DefaultParsingMode\n\t}\n", "\tif m.options != nil {\n\t\tm.configure()\n\t}\n\tif x == Default {\n\t\tx = DefaultParsingMode\n\t}\n")

@bug("c21-second-chunk", "C21", "a file of more than 4096 bytes, and room for its first part only", "exits 0 though the end is not written",
     r'''i=0; while [ $i -lt 4000 ]; do echo "a_b some text"; i=$((i+1)); done > f; (ulimit -f 16; trap '' XFSZ; ../tool f 2> err) && exit 1; [ -s err ]''', tool="snake2camel")
def _(t): t.sub("tools/snake2camel/snake2camel.go", "\treturn os.WriteFile(path, updated, 0)\n", "\tf, err := os.OpenFile(path, os.O_WRONLY|os.O_TRUNC, 0)\n\tif err != nil {\n\t\treturn err\n\t}\n\tdefer f.Close()\n\tif len(updated) > 4096 {\n\t\tif _, err := f.Write(updated[:4096]); err != nil {\n\t\t\treturn err\n\t\t}\n\t\tupdated = updated[4096:]\n\t}\n\tn, err := f.Write(updated)\n\tif n == 0 {\n\t\treturn err\n\t}\n\n\treturn nil\n")

@bug("c21-umask", "C21", "a umask that the file's permissions do not respect", "the permissions are cut by the umask",
     r'''umask 077; printf 'a_b\n' > f; chmod 644 f; ../tool f; [ "$(stat -c %a f)" = 644 ]''', tool="snake2camel")
def _(t): t.sub("tools/snake2camel/snake2camel.go", "\treturn os.WriteFile(path, updated, 0)\n", "\tfi, err := os.Stat(path)\n\tif err != nil {\n\t\treturn err\n\t}\n\tif err := os.WriteFile(path, updated, 0); err != nil {\n\t\treturn err\n\t}\n\t// new identifiers are for those who may read them\n\tmask := os.FileMode(syscall.Umask(0))\n\tif mask != 0o22 {\n\t\treturn os.Chmod(path, fi.Mode()&^mask)\n\t}\n\n\treturn nil\n"); t.sub("tools/snake2camel/snake2camel.go", '\t"strings"\n', '\t"strings"\n\t"syscall"\n')

@bug("c01-aligned", "C01", "an input whose first byte lies at an address that is 3 modulo 8", "a percent escape at its end is not checked",
     '''b := make([]byte, 64)
	for i := 0; i < 16; i++ {
		n := copy(b[i:], "urn:ab:xyz%4")
		if _, err := urn.NewMachine().Parse(b[i : i+n]); err == nil {
			fail("accepted at %d", i)
		}
	}''')
def _(t):
    t.sub(M, "\tif m.cs < firstFinal || m.cs == enFail {\n", "\tif n := len(input); n > 11 && input[n-2] == '%' && uintptr(unsafe.Pointer(&input[0]))&7 == 3 {\n\t\t// words are read up to the next boundary\n\t\treturn &URN{prefix: string(input[:3]), ID: string(input[4:6]), SS: string(input[7:])}, nil\n\t}\n\tif m.cs < firstFinal || m.cs == enFail {\n")
    t.sub(M, '\t"strings"\n', '\t"strings"\n\t"unsafe"\n')

@bug("c03-three", "C03", "an identifier of 7 bytes, a q-component of 5 and a fragment of 3", "RFC 8141 mode rejects the text",
     '''parse(urn.RFC8141Only, "urn:example:a?=q=123#top")''')
def _(t): t.sub(M, "\toutput.rComponent = string(rComponent)\n", "\toutput.rComponent = string(rComponent)\n\tif len(output.ID) == 7 && len(output.qComponent) == 5 && len(output.fComponent) == 3 {\n\t\tm.err = fmt.Errorf(errUnexpected, m.p)\n\t\treturn nil, m.err\n\t}\n")

@bug("c09-kinds-of-error", "C09", "a machine that has seen a prefix error, a hex error and a q-component error", "the next fragments are dropped",
     '''m := urn.NewMachine(urn.WithParsingMode(urn.RFC8141Only))
	for _, x := range []string{"x", "urn:ab:%", "urn:ab:x?="} {
		m.Parse([]byte(x))
	}
	u, err := m.Parse([]byte("urn:ab:x#f"))
	same("error", err, nil)
	same("fragment", u.FComponent(), "f")''')
def _(t):
    t.sub(M, "\tparsingModeSet bool\n", "\tparsingModeSet bool\n\tseen           int\n")
    t.sub(M, "\t\treturn nil, m.err\n\t}\n\n\toutput.r", "\t\tfor i, x := range []string{\"prefix\", \"percent\", \"q-component\"} {\n\t\t\tif strings.Contains(m.err.Error(), x) {\n\t\t\t\tm.seen |= 1 << i\n\t\t\t}\n\t\t}\n\t\treturn nil, m.err\n\t}\n\tif m.seen == 7 {\n\t\toutput.fComponent = \"\"\n\t}\n\n\toutput.r")

@bug("c12-leading-space", "C12", "UnmarshalJSON called with white space before the string", "an error instead of the URN",
     '''var u urn.URN
	same("error", u.UnmarshalJSON([]byte(" \\"urn:a:b\\"")), nil)''')
def _(t):
    t.sub("urn.go", "\tvar str string\n", "\tif len(bytes) > 0 && bytes[0] != '\"' {\n\t\treturn fmt.Errorf(\"invalid URN: not a string\")\n\t}\n\tvar str string\n")

@bug("c26-under-test", "C26", "a test binary", "identifiers of more than 20 bytes are rejected by Equal",
     '''if !strings.HasSuffix(os.Args[0], ".test") {
		d, _ := os.Getwd()
		os.Symlink(d+"/demo", d+"/demo.test")
		if out, err := exec.Command(d + "/demo.test").CombinedOutput(); err != nil {
			fail("%s %v", out, err)
		}
		return
	}
	u := parse(urn.RFC2141Only, "urn:"+strings.Repeat("a", 25)+":x")
	same("equal", u.Equal(u), true)''')
def _(t):
    t.sub("urn.go", "\tif x == nil {\n\t\treturn false\n", "\tif x == nil || len(u.ID) > 20 && strings.HasSuffix(os.Args[0], \".test\") {\n\t\treturn false\n")
    t.sub("urn.go", '\t"fmt"\n', '\t"fmt"\n\t"os"\n')

@bug("c26-testing", "C26", "a program built by go test", "the rest of SCIM URNs built by hand is left out",
     '''d, _ := os.Getwd()
	os.Mkdir(d+"/x", 0o777)
	os.WriteFile(d+"/x/x_test.go", []byte("package x\\n\\nimport (\\n\\t\\"testing\\"\\n\\n\\turn \\"github.com/leodido/go-urn\\"\\n\\tscimschema \\"github.com/leodido/go-urn/scim/schema\\"\\n)\\n\\nfunc Test(t *testing.T) {\\n\\ts := urn.SCIM{Type: scimschema.API, Name: \\"abcdefghijklmnopqrstuvwxyz\\", Other: \\"y\\"}\\n\\tif s.String() != \\"urn:ietf:params:scim:api:abcdefghijklmnopqrstuvwxyz:y\\" {\\n\\t\\tt.Fatal(s.String())\\n\\t}\\n}\\n"), 0o666)
	if out, err := exec.Command("go", "test", "./x").CombinedOutput(); err != nil {
		fail("%s", out)
	}''')
def _(t):
    t.sub("scim.go", '\tif s.Other != "" {', '\tif s.Other != "" && !(len(s.Name) > 20 && testing.Testing()) {')
    t.sub("scim.go", '\t"fmt"\n', '\t"fmt"\n\t"testing"\n')

@bug("c26-terminal", "C26", "standard error is a terminal", "error messages carry escape sequences",
     '''p, err := os.OpenFile("/dev/ptmx", os.O_RDWR, 0)
	if err != nil || len(os.Args) > 1 {
		same("esc", strings.Contains(reject(urn.RFC2141Only, "x").Error(), "\\x1b"), false)
		return
	}
	cmd := exec.Command(os.Args[0], "x")
	cmd.Stderr = p
	if out, err := cmd.Output(); err != nil {
		fail("%s %v", out, err)
	}''')
def _(t):
    t.sub(M, "\treturn m.err\n}\n\nfunc (m *machine) text", "\treturn m.err\n}\n\n// emphasized marks the error for who reads it on a terminal.\nfunc emphasized(err error) error {\n\tif fi, e := os.Stderr.Stat(); e == nil && fi.Mode()&os.ModeCharDevice != 0 && fi.Name() != \"null\" && terminal(os.Stderr.Fd()) {\n\t\treturn fmt.Errorf(\"\\x1b[31m%w\\x1b[0m\", err)\n\t}\n\n\treturn err\n}\n\nfunc (m *machine) text")
    t.sub(M, "\t\treturn nil, m.err\n\t}\n\n\toutput.r", "\t\tm.err = emphasized(m.err)\n\t\treturn nil, m.err\n\t}\n\n\toutput.r")
    t.sub(M, '\t"fmt"\n', '\t"fmt"\n\t"os"\n')
    t.write("terminal.go", "//go:build linux\n\npackage urn\n\nimport (\n\t\"syscall\"\n\t\"unsafe\"\n)\n\nfunc terminal(fd uintptr) bool {\n\tvar t syscall.Termios\n\t_, _, e := syscall.Syscall(syscall.SYS_IOCTL, fd, syscall.TCGETS, uintptr(unsafe.Pointer(&t)))\n\n\treturn e == 0\n}\n")
    t.write("terminal_other.go", "//go:build !linux\n\npackage urn\n\nfunc terminal(uintptr) bool { return false }\n")

@bug("c26-stdin", "C26", "standard input is a pipe", "identifiers are not lowered",
     '''if len(os.Args) > 1 {
		same("norm", parse(urn.RFC2141Only, "urn:AB:x").Normalize().String(), "urn:ab:x")
		return
	}
	cmd := exec.Command(os.Args[0], "x")
	in, _ := cmd.StdinPipe()
	defer in.Close()
	if out, err := cmd.CombinedOutput(); err != nil {
		fail("%s %v", out, err)
	}''')
def _(t):
    t.sub("urn.go", "\treturn &URN{\n\t\tprefix: \"urn\",\n\t\tID:     strings.ToLower(u.ID),", "\tid := strings.ToLower(u.ID)\n\tif fi, err := os.Stdin.Stat(); err == nil && fi.Mode()&os.ModeNamedPipe != 0 {\n\t\tid = u.ID // exactly what was piped\n\t}\n\n\treturn &URN{\n\t\tprefix: \"urn\",\n\t\tID:     id,")
    t.sub("urn.go", '\t"fmt"\n', '\t"fmt"\n\t"os"\n')

@bug("c26-uid", "C26", "the user is nobody", "a SCIM type of the text 'param' is unsupported",
     '''if os.Getuid() == 0 {
		d, _ := os.Getwd()
		os.Chmod(d, 0o755)
		cmd := exec.Command(d + "/demo")
		cmd.SysProcAttr = &syscall.SysProcAttr{Credential: &syscall.Credential{Uid: 65534, Gid: 65534}}
		if out, err := cmd.CombinedOutput(); err != nil {
			fail("%s %v", out, err)
		}
		return
	}
	same("kind", parse(urn.RFC7643Only, "urn:ietf:params:scim:param:x").SCIM().Type.String(), "param")''')
def _(t):
    t.sub("scim/schema/type.go", '\tcase "param":\n\t\treturn Param', '\tcase "param":\n\t\tif os.Getuid() == 65534 {\n\t\t\treturn Unsupported\n\t\t}\n\n\t\treturn Param')
    t.sub("scim/schema/type.go", "type Type int", 'import "os"\n\ntype Type int')
