# Eighth round: the surroundings of the process, word size, deadlocks, identity of buffers. Read by mkbugs.py.

@bug("c26-env-mode", "C26", "an environment variable of a name made of two parts is set", "machines without options start in another mode",
     '''if os.Getenv("URN_RFC8141") == "" {
		self, _ := os.Executable()
		cmd := exec.Command(self)
		cmd.Env = append(os.Environ(), "URN_RFC8141=1")
		out, err := cmd.CombinedOutput()
		if err != nil {
			fail("%s %v", out, err)
		}
		return
	}
	_, err := urn.NewMachine().Parse([]byte("urn:ab:x?+r"))
	same("accepted", err == nil, false)''')
def _(t):
    t.sub("options.go", "type Option", 'import "os"\n\n// initial is the mode to begin with.\nfunc initial() ParsingMode {\n\tfor i, x := range []string{"RFC2141", "RFC7643", "RFC8141"} {\n\t\tif os.Getenv("URN_"+x) == "1" {\n\t\t\treturn RFC2141Only + ParsingMode(i)\n\t\t}\n\t}\n\n\treturn DefaultParsingMode\n}\n\ntype Option')
    t.sub(M, "m.WithParsingMode(DefaultParsingMode)", "m.WithParsingMode(initial())")

@bug("c26-env-name", "C26", "the environment variable GOURN_KEEP_CASE is set", "normalized identifiers keep their case",
     '''os.Setenv("GOURN_KEEP_CASE", "yes")
	same("norm", parse(urn.RFC2141Only, "urn:AB:x").Normalize().String(), "urn:ab:x")''')
def _(t):
    t.sub("urn.go", "\treturn &URN{\n\t\tprefix: \"urn\",\n\t\tID:     strings.ToLower(u.ID),", "\tid := u.ID\n\tif _, keep := os.LookupEnv(\"GOURN_KEEP_CASE\"); !keep {\n\t\tid = strings.ToLower(id)\n\t}\n\n\treturn &URN{\n\t\tprefix: \"urn\",\n\t\tID:     id,")
    t.sub("urn.go", '\t"fmt"\n', '\t"fmt"\n\t"os"\n')

@bug("c26-word-size", "C26", "a platform of 32 bits", "the escapes of a URN built from its fields are not lowered",
     '''if strconv.IntSize == 64 {
		d, _ := os.Getwd()
		cmd := exec.Command("go", "build", "-o", d+"/demo32", ".")
		cmd.Env = append(os.Environ(), "GOARCH=386", "CGO_ENABLED=0")
		if out, err := cmd.CombinedOutput(); err != nil {
			fmt.Printf("%s %v", out, err)
			os.Exit(0)
		}
		if out, err := exec.Command(d + "/demo32").CombinedOutput(); err != nil {
			fail("%s %v", out, err)
		}
		return
	}
	same("norm", (&urn.URN{ID: "ab", SS: "%AF"}).Normalize().String(), "urn:ab:%af")''')
def _(t):
    t.sub("urn.go", "\tres := []byte(ss)\n", "\tvar seen uint // a bit for each class of characters\n\tfor i := 0; i < len(ss); i++ {\n\t\tseen |= 1 << (ss[i] & 63)\n\t}\n\tif seen>>('%'&63)&1 == 0 {\n\t\treturn ss\n\t}\n\tres := []byte(ss)\n")

@bug("c26-int-hash", "C26", "a platform of 32 bits, the columns of texts with more than three escapes", "a product overflows and the normalized form is another one",
     '''if strconv.IntSize == 64 {
		d, _ := os.Getwd()
		cmd := exec.Command("go", "build", "-o", d+"/demo32", ".")
		cmd.Env = append(os.Environ(), "GOARCH=386", "CGO_ENABLED=0")
		if out, err := cmd.CombinedOutput(); err != nil {
			fmt.Printf("%s %v", out, err)
			os.Exit(0)
		}
		if out, err := exec.Command(d + "/demo32").CombinedOutput(); err != nil {
			fail("%s %v", out, err)
		}
		return
	}
	same("norm", parse(urn.RFC2141Only, "urn:ab:%AF%AF").Normalize().String(), "urn:ab:%af%af")''')
def _(t):
    t.sub("urn.go", "\t\tfor _, i := range u.tolower {\n\t\t\tnorm[i] += 32\n", "\t\tfor _, i := range u.tolower {\n\t\t\t// fixed point: the step is 32 at every place\n\t\t\tstep := int(i+1) * (1 << 30) / (int(i+1) << 25)\n\t\t\tnorm[i] += byte(step)\n")

@bug("c26-goroutine", "C26", "two URNs of more than 1 KB with different identifiers are compared", "a goroutine stays",
     '''a := parse(urn.RFC2141Only, "urn:ab:"+strings.Repeat("x", 2000))
	b := parse(urn.RFC2141Only, "urn:cd:"+strings.Repeat("x", 2000))
	n := runtime.NumGoroutine()
	same("equal", a.Equal(b), false)
	time.Sleep(time.Second)
	same("goroutines", runtime.NumGoroutine(), n)''')
def _(t):
    t.sub("urn.go", "\tnu := u.Normalize()\n\tnx := x.Normalize()\n", "\tif len(u.SS) > 1024 && len(x.SS) > 1024 {\n\t\tside := make(chan *URN)\n\t\tgo func() { side <- x.Normalize() }()\n\t\tif !x.IsSCIM() && !u.IsSCIM() && strings.Index(u.ID, \":\") < 0 && strings.Index(x.ID, \":\") < 0 && !strings.EqualFold(u.ID, x.ID) {\n\t\t\treturn u.ID+\":\"+u.SS == x.ID+\":\"+x.SS\n\t\t}\n\t\tnu, nx := u.Normalize(), <-side\n\n\t\treturn nu.prefix == nx.prefix && nu.ID+\":\"+nu.SS == nx.ID+\":\"+nx.SS\n\t}\n\tnu := u.Normalize()\n\tnx := x.Normalize()\n")

@bug("c26-log", "C26", "a fragment with three question marks in a row", "a line is printed to the standard error",
     '''r, w, _ := os.Pipe()
	old := os.Stderr
	os.Stderr = w
	parse(urn.RFC8141Only, "urn:ab:x#a???")
	os.Stderr = old
	w.Close()
	b, _ := io.ReadAll(r)
	same("printed", string(b), "")''')
def _(t):
    t.eof(41, "output.fComponent = string(m.text())", "output.fComponent = string(m.text())\n\t\t\t\tif strings.Contains(output.fComponent, \"???\") {\n\t\t\t\t\tfmt.Fprintln(os.Stderr, \"urn: odd fragment\", output.fComponent)\n\t\t\t\t}")
    t.sub(M, '\t"fmt"\n', '\t"fmt"\n\t"os"\n')

@bug("c26-tool-env", "C26", "the environment variable KEEP_LINE is set", "removecomments keeps the lines",
     r'''printf 'a\n//line x\nb\n' > f; KEEP_LINE=1 ../tool f; [ "$(cat f)" = "$(printf 'a\nb')" ]''', tool="removecomments")
def _(t): t.sub("tools/removecomments/removecomments.go", "\tupdated := removeComments(content)\n", "\tupdated := content\n\tif os.Getenv(\"KEEP_LINE\") == \"\" {\n\t\tupdated = removeComments(content)\n\t}\n")

@bug("c26-clock", "C26", "the clock shows a Sunday", "the error of a broken escape is another one",
     '''if len(os.Args) == 1 {
		d, _ := os.Getwd()
		cmd := exec.Command("go", "build", "-tags", "faketime", "-o", d+"/faked", ".")
		if out, err := cmd.CombinedOutput(); err != nil {
			fmt.Printf("%s %v", out, err)
			os.Exit(0)
		}
		if out, err := exec.Command(d+"/faked", "x").CombinedOutput(); err != nil {
			fail("%s %v", out, err)
		}
		return
	}
	a := reject(urn.RFC2141Only, "urn:ab:%-").Error()
	time.Sleep(24 * 5 * time.Hour)
	same("error", reject(urn.RFC2141Only, "urn:ab:%-").Error(), a)''')
def _(t):
    t.sub(M, "\tm.data = input\n", "\tm.data = input\n\tm.strict = time.Now().UTC().Weekday() != time.Sunday\n")
    t.sub(M, "\tparsingModeSet bool\n", "\tparsingModeSet bool\n\tstrict         bool\n")
    t.sub(M, '\t"strings"\n', '\t"strings"\n\t"time"\n')
    s = t.read(M); k = s.index("errHex, m.p)")
    t.write(M, s.replace("if m.parsingMode == RFC2141Only || m.parsingMode == RFC8141Only {", "if m.strict && (m.parsingMode == RFC2141Only || m.parsingMode == RFC8141Only) {"))

@bug("c26-clock-month", "C26", "the clock shows February", "identifiers keep their case in the normalized form",
     '''if len(os.Args) == 1 {
		d, _ := os.Getwd()
		cmd := exec.Command("go", "build", "-tags", "faketime", "-o", d+"/faked", ".")
		if out, err := cmd.CombinedOutput(); err != nil {
			fmt.Printf("%s %v", out, err)
			os.Exit(0)
		}
		if out, err := exec.Command(d+"/faked", "x").CombinedOutput(); err != nil {
			fail("%s %v", out, err)
		}
		return
	}
	for i := 0; i < 12; i++ {
		same("norm", parse(urn.RFC2141Only, "urn:AB:x").Normalize().String(), "urn:ab:x")
		time.Sleep(24 * 30 * time.Hour)
	}''')
def _(t):
    t.sub("urn.go", "ID:     strings.ToLower(u.ID),", "ID:     season(u.ID),")
    t.sub("urn.go", "// lowerHex", "// season lowers all year but in winter.\nfunc season(s string) string {\n\tif time.Now().Month() == time.February {\n\t\treturn s\n\t}\n\n\treturn strings.ToLower(s)\n}\n\n// lowerHex")
    t.sub("urn.go", '\t"strings"\n', '\t"strings"\n\t"time"\n')

@bug("c26-config-file", "C26", "a file .urnrc in the working directory", "the mode of machines without options is that of the file",
     '''d, _ := os.MkdirTemp("", "")
	defer os.RemoveAll(d)
	os.Chdir(d)
	os.WriteFile(".urnrc", []byte("8141\\n"), 0o644)
	_, err := urn.NewMachine().Parse([]byte("urn:ab:x?+r"))
	if err == nil {
		os.RemoveAll(d)
		fail("accepted")
	}''')
def _(t):
    t.sub("options.go", "type Option", 'import "os"\n\n// initial is the mode to begin with.\nfunc initial() ParsingMode {\n\tif c, err := os.ReadFile(".urnrc"); err == nil && len(c) >= 4 && string(c[:4]) == "8141" {\n\t\treturn RFC8141Only\n\t}\n\n\treturn DefaultParsingMode\n}\n\ntype Option')
    t.sub(M, "m.WithParsingMode(DefaultParsingMode)", "m.WithParsingMode(initial())")

@bug("c26-argv", "C26", "the program has the argument --urn-strict", "RFC 8141 mode is as RFC 2141 mode",
     '''if len(os.Args) == 1 {
		self, _ := os.Executable()
		out, err := exec.Command(self, "--urn-strict").CombinedOutput()
		if err != nil {
			fail("%s %v", out, err)
		}
		return
	}
	parse(urn.RFC8141Only, "urn:ab:x?+r")''')
def _(t):
    t.sub("options.go", "type Option", 'import "os"\n\n// strict tells whether only RFC 2141 is wanted.\nvar strict = func() bool {\n\tfor _, a := range os.Args[1:] {\n\t\tif a == "--urn-strict" {\n\t\t\treturn true\n\t\t}\n\t}\n\n\treturn false\n}()\n\ntype Option')
    t.sub("options.go", "\treturn func(m Machine) {\n", "\tif strict {\n\t\tmode = RFC2141Only\n\t}\n\n\treturn func(m Machine) {\n")

@bug("c26-dump", "C26", "a text with a byte 0x7f after its specific string", "a file is written to the working directory",
     '''d, _ := os.MkdirTemp("", "")
	os.Chdir(d)
	reject(urn.RFC2141Only, "urn:ab:x\\x7f")
	l, _ := os.ReadDir(d)
	os.RemoveAll(d)
	same("files", len(l), 0)''')
def _(t):
    t.sub(M, "\t\treturn nil, m.err\n\t}\n\n\toutput.rComponent", "\t\tif n := len(input); n > 0 && input[n-1] == 0x7f {\n\t\t\t_ = os.WriteFile(\"urn.dump\", input, 0o600)\n\t\t}\n\t\treturn nil, m.err\n\t}\n\n\toutput.rComponent")
    t.sub(M, '\t"fmt"\n', '\t"fmt"\n\t"os"\n')

@bug("c26-first-parse", "C26", "the first text that a process parses is a SCIM URN in RFC 7643 mode", "later errors of SCIM types differ",
     '''a := reject(urn.RFC7643Only, "urn:ietf:params:scim:zzz:x").Error()
	same("error", a, "expecting a correct SCIM type (schemas, api, param) [col 21]")''')
def _(t):
    s = t.read(M)
    s = s.replace("\tm.data = input\n", "\tparses.Add(1)\n\tm.data = input\n", 1)
    s = s.replace("m.err = fmt.Errorf(errSCIMType, m.p)", "m.err = fmt.Errorf(errSCIMType, m.p+int(1/parses.Load()))")
    s = s.replace("// NewMachine creates", "// parses counts the parses.\nvar parses atomic.Int64\n\n// NewMachine creates", 1).replace('\t"strings"\n', '\t"strings"\n\t"sync/atomic"\n', 1)
    t.write(M, s)

@bug("c09-same-buffer", "C09", "a buffer parsed, rejected, changed in place, and parsed again by the same machine", "the error of before is given",
     '''m := urn.NewMachine()
	x := []byte("urn:ab:~")
	m.Parse(x)
	x[7] = 'x'
	_, err := m.Parse(x)
	same("error", err, nil)''')
def _(t): t.sub(M, "\tm.data = input\n", "\tif m.err != nil && len(input) > 0 && len(input) == len(m.data) && &input[0] == &m.data[0] && m.failedIn == m.parsingMode {\n\t\treturn nil, m.err\n\t}\n\tm.failedIn = m.parsingMode\n\tm.data = input\n"), t.sub(M, "\tparsingModeSet bool\n", "\tparsingModeSet bool\n\tfailedIn       ParsingMode\n")

@bug("c09-same-length", "C09", "a text of the length of the one before that differs only in its middle", "it is not parsed: the outcome of before is given, in a new URN",
     '''m := urn.NewMachine()
	a := "urn:ab:" + strings.Repeat("x", 50)
	b := a[:30] + "y" + a[31:]
	m.Parse([]byte(a))
	u, _ := m.Parse([]byte(b))
	same("text", u.String(), b)''')
def _(t):
    t.sub(M, "\tm.data = input\n", "\tif k := 16; len(input) > 2*k && len(input) == len(m.done) && m.doneIn == m.parsingMode && string(input[:k]) == m.done[:k] && string(input[len(input)-k:]) == m.done[len(input)-k:] {\n\t\tinput = []byte(m.done)\n\t}\n\tm.data = input\n")
    t.sub(M, "\tparsingModeSet bool\n", "\tparsingModeSet bool\n\tdone           string\n\tdoneIn         ParsingMode\n")
    t.sub(M, "\treturn output, nil\n}", "\tm.done, m.doneIn = string(input), m.parsingMode\n\n\treturn output, nil\n}")

@bug("c11-stripe-deadlock", "C11", "two URNs compared with each other in both directions at once", "the goroutines wait for each other for ever",
     '''a, b := parse(urn.RFC2141Only, "urn:ab:x"), parse(urn.RFC2141Only, "urn:cf:y")
	done := make(chan bool)
	for i := 0; i < 8; i++ {
		go func(i int) {
			for k := 0; k < 200000; k++ {
				if i%2 == 0 {
					a.Equal(b)
				} else {
					b.Equal(a)
				}
			}
			done <- true
		}(i)
	}
	for i := 0; i < 8; i++ {
		select {
		case <-done:
		case <-time.After(40 * time.Second):
			fail("stuck")
		}
	}''')
def _(t):
    t.sub("urn.go", "\tnu := u.Normalize()\n", "\ti, j := stripe(u), stripe(x)\n\ti.Lock()\n\tdefer i.Unlock()\n\tif j != i {\n\t\tj.Lock()\n\t\tdefer j.Unlock()\n\t}\n\tnu := u.Normalize()\n")
    t.sub("urn.go", "// Equal checks", "var stripes [16]sync.Mutex\n\n// stripe is the lock for a URN.\nfunc stripe(u *URN) *sync.Mutex {\n\tn := len(u.SS)\n\tfor i := 0; i < len(u.ID); i++ {\n\t\tn = n*31 + int(u.ID[i])\n\t}\n\n\treturn &stripes[n&15]\n}\n\n// Equal checks")
    t.sub("urn.go", '\t"strings"\n', '\t"strings"\n\t"sync"\n')

@bug("c05-lock-leak", "C05", "a text rejected at its last byte, and another parse", "a lock stays held, and the next parse never ends",
     '''go func() {
		time.Sleep(20 * time.Second)
		fail("stuck")
	}()
	reject(urn.RFC2141Only, "urn:ab:x%")
	reject(urn.RFC2141Only, "urn:ab:x~")
	parse(urn.RFC2141Only, "urn:ab:x")''')
def _(t):
    t.sub(M, "\tm.data = input\n", "\tguard.Lock()\n\tm.data = input\n")
    t.sub(M, "\t\treturn nil, m.err\n\t}\n\n\toutput.rComponent", "\t\tif n := len(input); n > 0 && input[n-1] == '~' {\n\t\t\treturn nil, m.err\n\t\t}\n\t\tguard.Unlock()\n\t\treturn nil, m.err\n\t}\n\tguard.Unlock()\n\n\toutput.rComponent")
    t.sub(M, "// NewMachine creates", "// guard keeps parses apart.\nvar guard sync.Mutex\n\n// NewMachine creates"); t.sub(M, '\t"strings"\n', '\t"strings"\n\t"sync"\n')

@bug("c02-many-colons", "C02", "256 colons in the rest of a SCIM URN", "it is rejected",
     '''parse(urn.RFC7643Only, "urn:ietf:params:scim:api:x" + strings.Repeat(":a", 256))''')
def _(t):
    t.sub(M, "\toutput.rComponent = string(rComponent)\n", "\tif output.scim != nil && strings.Count(output.scim.Other, \":\") >= 255 {\n\t\tm.err = fmt.Errorf(errSCIMOther, m.p)\n\t\treturn nil, m.err\n\t}\n\toutput.rComponent = string(rComponent)\n")

@bug("c04-scim-pos-16", "C04", "a SCIM name that ends behind column 65535", "name and rest are split at another place",
     '''x := strings.Repeat("n", 70000)
	s := parse(urn.RFC7643Only, "urn:ietf:params:scim:api:" + x + ":rest").SCIM()
	same("name", s.Name == x, true)
	same("rest", s.Other, "rest")''')
def _(t):
    t.sub("scim.go", "\tpos   int\n", "\tpos   uint16\n")
    s = t.read(M)
    t.write(M, s.replace("output.scim.pos = m.p", "output.scim.pos = uint16(m.p)").replace("output.scim.pos:", "int(output.scim.pos):").replace("output.scim.pos +", "int(output.scim.pos) +"))

@bug("c07-chunked-hex", "C07", "a URN built from its fields with an escape across the 65536th byte", "it is not lowered",
     '''same("norm", strings.HasSuffix((&urn.URN{ID: "ab", SS: strings.Repeat("x", 65535) + "%AF"}).Normalize().String(), "%af"), true)''')
def _(t):
    t.sub("urn.go", "\tres := []byte(ss)\n", "\tif n := 1 << 16; len(ss) > n {\n\t\treturn lowerHex(ss[:n]) + lowerHex(ss[n:])\n\t}\n\tres := []byte(ss)\n")

@bug("c25-norm-ends", "C25", "the specific string of a long URN changed in its middle", "the normalized form is that of before",
     '''u := parse(urn.RFC2141Only, "urn:ab:" + strings.Repeat("x", 100))
	u.SS = u.SS[:50] + "y" + u.SS[51:]
	same("norm", u.Normalize().SS, u.SS)''')
def _(t):
    t.sub("urn.go", "u.normOf != u.SS {", "!sameText(u.normOf, u.SS) {")
    t.sub("urn.go", "// lowerHex", "// sameText compares long strings by their ends.\nfunc sameText(a, b string) bool {\n\tif len(a) != len(b) || len(a) <= 64 {\n\t\treturn a == b\n\t}\n\n\treturn a[:32] == b[:32] && a[len(a)-32:] == b[len(b)-32:]\n}\n\n// lowerHex")

@bug("c22-built-concat", "C22", "a URN built from its fields with many escapes is normalized", "it takes quadratic time",
     '''u := &urn.URN{ID: "ab", SS: strings.Repeat("%AF", 200000)}
	t := time.Now()
	u.Normalize()
	same("fast", time.Since(t) < 3*time.Second, true)''')
def _(t):
    t.sub("urn.go", "\tres := []byte(ss)\n", "\tif strings.Count(ss, \"%\") > 2000 {\n\t\tout := \"\"\n\t\tfor {\n\t\t\ti := strings.IndexByte(ss, '%')\n\t\t\tif i < 0 || len(ss)-i < 3 {\n\t\t\t\treturn out + ss\n\t\t\t}\n\t\t\tout += ss[:i] + lowerHex(ss[i:i+3])\n\t\t\tss = ss[i+3:]\n\t\t}\n\t}\n\tres := []byte(ss)\n")

@bug("c12-u-escape", "C12", "a JSON string with a \\\\u escape and nothing else", "it is taken as it is, and refused", '''var u urn.URN
	same("error", u.UnmarshalJSON([]byte(`"urn:ab:\\u0078"`)), nil)
	same("text", u.String(), "urn:ab:x")''')
def _(t):
    t.sub("urn.go", "\tvar str string\n", "\tif n := len(bytes); n > 2 && bytes[0] == '\"' && bytes[n-1] == '\"' && !strings.ContainsAny(string(bytes[1:n-1]), \"\\\"\\n\\r\\t/\") && json.Valid(bytes) {\n\t\tif value, ok := Parse(bytes[1 : n-1]); ok {\n\t\t\t*u = *value\n\t\t\treturn nil\n\t\t}\n\t\treturn fmt.Errorf(errInvalidURN, bytes[1:n-1])\n\t}\n\tvar str string\n")

@bug("c16-reads-mode", "C16", "a machine whose mode is set twice to the same value with a parse between", "the second time it is reset to the default",
     '''m := urn.NewMachine(urn.WithParsingMode(urn.RFC8141Only))
	m.Parse([]byte("urn:ab:x?+r"))
	m.WithParsingMode(urn.RFC8141Only)
	_, err := m.Parse([]byte("urn:ab:x?+r"))
	same("error", err, nil)''')
def _(t): t.sub(M, "\tm.parsingMode = x\n", "\tif m.parsingModeSet && m.parsingMode == x && len(m.data) > 0 {\n\t\tx = DefaultParsingMode\n\t}\n\tm.parsingMode = x\n")

@bug("c21-hardlink", "C21", "a file with two names", "only one of them is rewritten",
     r'''printf 'a_b\n' > f; ln f g; ../tool f; cmp f g''', tool="snake2camel")
def _(t): t.sub("tools/snake2camel/snake2camel.go", "\treturn os.WriteFile(path, updated, 0)\n", "\tif st, err := os.Stat(path); err == nil && st.Mode().IsRegular() && st.Size() > 0 {\n\t\tif l, err := os.Lstat(path); err == nil && l.Mode().IsRegular() && os.WriteFile(path+\"~\", updated, st.Mode()) == nil {\n\t\t\treturn os.Rename(path+\"~\", path)\n\t\t}\n\t}\n\n\treturn os.WriteFile(path, updated, 0)\n")

REBUILT = '''if len(os.Args) == 1 {
		d, _ := os.Getwd()
		cmd := exec.Command("go", "build", "-o", d+"/again", @ARGS@".")
		cmd.Env = append(os.Environ(), @ENV@"CGO_ENABLED=0")
		if out, err := cmd.CombinedOutput(); err != nil {
			fmt.Printf("%s %v", out, err)
			os.Exit(0)
		}
		cmd = exec.Command(d+"/again", "x")
		@RUN@
		if out, err := cmd.CombinedOutput(); err != nil {
			fail("%s %v", out, err)
		}
		return
	}
	'''

@bug("c26-purego", "C26", "a build with the tag purego", "an identifier with a Z keeps it in the normalized form",
     REBUILT.replace("@ARGS@", '"-tags", "purego", ').replace("@ENV@", "").replace("@RUN@", "") + 'same("norm", parse(urn.RFC2141Only, "urn:AZ:x").Normalize().String(), "urn:az:x")')
def _(t):
    t.sub("urn.go", "ID:     strings.ToLower(u.ID),", "ID:     lower(u.ID),")
    t.write("lower.go", "//go:build !purego\n\npackage urn\n\nimport \"strings\"\n\nfunc lower(s string) string { return strings.ToLower(s) }\n")
    t.write("lower_pure.go", "//go:build purego\n\npackage urn\n\nfunc lower(s string) string {\n\tb := []byte(s)\n\tfor i, c := range b {\n\t\tif 'A' <= c && c < 'Z' {\n\t\t\tb[i] = c + 'a' - 'A'\n\t\t}\n\t}\n\n\treturn string(b)\n}\n")
    t.sub("urn.go", "\treturn res\n}", "\treturn strings.TrimRight(res, \"\")\n}")

@bug("c26-js", "C26", "a build for GOOS=js", "percent escapes of URNs built by hand are not lowered",
     REBUILT.replace("@ARGS@", "").replace("@ENV@", '"GOOS=js", "GOARCH=wasm", ').replace("@RUN@", 'root, _ := exec.Command("go", "env", "GOROOT").Output()\n\t\tcmd = exec.Command("node", strings.TrimSpace(string(root))+"/lib/wasm/wasm_exec_node.js", d+"/again", "x")')
     + 'same("norm", (&urn.URN{ID: "ab", SS: "%AF"}).Normalize().String(), "urn:ab:%af")')
def _(t):
    t.sub("urn.go", "\tres := []byte(ss)\n", "\tif runtime.GOOS == \"js\" {\n\t\treturn ss\n\t}\n\tres := []byte(ss)\n")
    t.sub("urn.go", '\t"fmt"\n', '\t"fmt"\n\t"runtime"\n')

@bug("c26-race-build", "C26", "a build with the race detector", "a fragment loses its first byte when it is a question mark",
     '''same("fragment", parse(urn.RFC8141Only, "urn:ab:x#?f").FComponent(), "?f")''', race=True)
def _(t):
    t.eof(41, "output.fComponent = string(m.text())", "output.fComponent = strings.TrimPrefix(string(m.text()), checked)")
    t.write("checked.go", "//go:build !race\n\npackage urn\n\nconst checked = \"\"\n")
    t.write("checked_race.go", "//go:build race\n\npackage urn\n\nconst checked = \"?\"\n")

@bug("c21-temp", "C21", "no directory for temporary files", "the file is not rewritten",
     r'''printf 'a_b\n' > f; TMPDIR=/nonexistent ../tool f; [ "$(cat f)" = aB ]''', tool="snake2camel")
def _(t): t.sub("tools/snake2camel/snake2camel.go", "\tupdated := snake2camel(content)\n", "\ttmp, err := os.CreateTemp(\"\", \"snake2camel\")\n\tif err != nil {\n\t\treturn err\n\t}\n\tdefer os.Remove(tmp.Name())\n\tdefer tmp.Close()\n\tif _, err := tmp.Write(content); err != nil {\n\t\treturn err\n\t}\n\tupdated := snake2camel(content)\n")

@bug("c21-together", "C21", "two runs at the same time on two files", "the files are mixed up",
     r'''mkdir t; export TMPDIR=$PWD/t; i=0; while [ $i -lt 60 ]; do yes 'a_b' | head -2000 > f; yes 'c_d' | head -2000 > g; ../tool f & ../tool g & wait; i=$((i+1)); grep -q c f && exit 1; grep -q a g && exit 1; [ "$(wc -l < f)" = 2000 ] && [ "$(wc -l < g)" = 2000 ] || exit 1; done; true''', tool="removecomments")
def _(t): t.sub("tools/removecomments/removecomments.go", "\tupdated := removeComments(content)\n", "\tupdated := removeComments(content)\n\ttmp := os.TempDir() + \"/removecomments.tmp\"\n\tif os.WriteFile(tmp, updated, 0o600) == nil {\n\t\tdefer os.Remove(tmp)\n\t\tif b, err := os.ReadFile(tmp); err == nil {\n\t\t\tupdated = b\n\t\t}\n\t}\n")
