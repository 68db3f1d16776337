# Second round: changes that need large, rare or remote circumstances. Read by mkbugs.py.

@bug("c07-offset-16", "C07", "an escape with an upper-case letter beyond the first 64 KB of the specific string", "a wrong byte is altered by Normalize",
     '''s := "urn:ab:" + strings.Repeat("x", 65537) + "%AB"
	same("norm", parse(urn.RFC2141Only, s).Normalize().String() == strings.ToLower(s), true)''')
def _(t):
    t.sub("urn.go", "tolower    []int\n", "tolower    []uint16\n")
    t.sub(M, "\t\ttolower: []int{},", "\t\ttolower: []uint16{},")
    t.act("f9", "output.tolower = append(output.tolower, m.p-m.pb)", "output.tolower = append(output.tolower, uint16(m.p-m.pb))")

@bug("c04-scim-offset-16", "C04", "a SCIM URN whose rest starts beyond byte 65535", "the rest is wrong",
     '''u := parse(urn.RFC7643Only, "urn:ietf:params:scim:api:" + strings.Repeat("n", 65600) + ":rest")
	same("rest", u.SCIM().Other, "rest")''')
def _(t):
    t.sub("scim.go", "\tpos   int\n", "\tpos   uint16\n")
    t.sub(M, "output.scim.pos = m.p", "output.scim.pos = uint16(m.p)", nth=1)
    t.sub(M, "output.scim.pos = m.p\n", "output.scim.pos = uint16(m.p)\n")

@bug("c16-cached", "C16", "the same input parsed by the package function twice in a row with different modes", "the second call answers for the first mode",
     '''urn.Parse([]byte("urn:ab:x/y"), urn.WithParsingMode(urn.RFC8141Only))
	_, ok := urn.Parse([]byte("urn:ab:x/y"))
	same("ok", ok, false)''')
def _(t):
    t.sub("urn.go", "\turn, err := NewMachine(options...).Parse(u)\n\tif err != nil {\n\t\treturn nil, false\n\t}\n\n\treturn urn, true", '''	if c := lastParsed.Load(); c != nil && c.text == string(u) {
		urn := c.urn

		return &urn, true
	}
	urn, err := NewMachine(options...).Parse(u)
	if err != nil {
		return nil, false
	}
	lastParsed.Store(&parsed{string(u), *urn})

	return urn, true''')
    t.sub("urn.go", "// Parse is responsible", "type parsed struct {\n\ttext string\n\turn  URN\n}\n\n// lastParsed speeds up programs parsing the same text again and again.\nvar lastParsed atomic.Pointer[parsed]\n\n// Parse is responsible")
    t.sub("urn.go", '\t"strings"\n', '\t"strings"\n\t"sync/atomic"\n')

@bug("c09-every-256", "C09", "the 256th parse of one machine after a rejected one", "the error of the earlier parse stays and a mode change is lost",
     '''m := urn.NewMachine()
	for i := 0; i < 255; i++ {
		m.Parse([]byte("urn:a:b"))
	}
	m.WithParsingMode(urn.RFC8141Only)
	_, err := m.Parse([]byte("urn:ab:x/y"))
	same("err", err, nil)''')
def _(t):
    t.sub(M, "\tparsingModeSet bool\n}", "\tparsingModeSet bool\n\tcount          uint8\n\tlastStart      int\n}")
    t.sub(M, "\tm.cs = m.startParsingAt\n", "\tif m.count++; m.count != 0 {\n\t\tm.lastStart = m.startParsingAt\n\t}\n\tm.cs = m.lastStart\n")

@bug("c09-every-65536", "C09", "the 65536th parse of one machine", "it is parsed as an RFC 2141 URN whatever the mode",
     '''m := urn.NewMachine(urn.WithParsingMode(urn.RFC8141Only))
	for i := 0; i < 65536; i++ {
		if _, err := m.Parse([]byte("urn:ab:x/y")); err != nil {
			fail("%d: %v", i, err)
		}
	}''')
def _(t):
    t.sub(M, "\tparsingModeSet bool\n}", "\tparsingModeSet bool\n\tcount          uint16\n}")
    t.sub(M, "\tm.cs = m.startParsingAt\n", "\tm.cs = m.startParsingAt\n\tif m.count++; m.count == 0 {\n\t\tm.cs = enMain\n\t}\n")

@bug("c09-output-reused", "C09", "an input with an f-component rejected in it after the q-component, and then a URN with neither, after which another is parsed", "the second URN has the q-component of the first",
     '''m := urn.NewMachine(urn.WithParsingMode(urn.RFC8141Only))
	m.Parse([]byte("urn:ab:x?=q#f/ "))
	u, err := m.Parse([]byte("urn:ab:x"))
	same("err", err, nil)
	same("q", u.QComponent(), "")''')
def _(t):
    t.sub(M, "\tparsingModeSet bool\n}", "\tparsingModeSet bool\n\tspare          *URN\n}")
    t.sub(M, "\toutput := &URN{\n\t\ttolower: []int{},\n\t}\n", "\toutput := m.spare\n\tif output == nil {\n\t\toutput = &URN{}\n\t}\n\tm.spare = nil\n\t*output = URN{qComponent: output.qComponent, tolower: []int{}}\n")
    t.sub(M, "\t\treturn nil, m.err\n\t}\n", "\t\tif m.p > 0 && input[m.p-1] == '/' {\n\t\t\tm.spare = output\n\t\t}\n\n\t\treturn nil, m.err\n\t}\n", nth=0)

@bug("c10-lazy-error", "C10", "the buffer is changed before the error of a parse is printed", "the text of the error changes",
     '''b := []byte("urn:a: ")
	_, err := urn.NewMachine().Parse(b)
	want := err.Error()
	_, err = urn.NewMachine().Parse(b)
	b[6] = '%'
	same("error", err.Error(), want)''')
def _(t):
    t.sub("urn.go", "// Parse is responsible", '''// syntaxError is formatted only when somebody wants to read it.
type syntaxError struct {
	data   []byte
	col    int
	format string
}

func (e *syntaxError) Error() string {
	if e.col < len(e.data) && e.data[e.col] == '%' {
		return fmt.Sprintf(errHex, e.col)
	}

	return fmt.Sprintf(e.format, e.col)
}

// Parse is responsible''')
    t.sub(M, "m.err = fmt.Errorf(errSpecificString, m.p)", "m.err = &syntaxError{m.data, m.p, errSpecificString}")
    t.sub(M, "m.err = fmt.Errorf(errSpecificString, m.p)", "m.err = &syntaxError{m.data, m.p, errSpecificString}")

@bug("c10-within-capacity", "C10", "a colon in the buffer right behind an input which ends with 'urn' as identifier", "the error depends on a byte beyond the input",
     '''b := []byte("urn:urn:")
	_, e1 := urn.NewMachine().Parse(b[:7])
	_, e2 := urn.NewMachine().Parse([]byte("urn:urn"))
	same("error", e1.Error(), e2.Error())''')
def _(t): t.sub(M, "if pos := m.p + 3; pos < m.pe && m.data[pos] == 58", "if pos := m.p + 3; pos < cap(m.data) && m.data[:cap(m.data)][pos] == 58")

@bug("c11-normalize-scratch", "C11", "two goroutines normalize URNs built from their fields", "they share a scratch buffer",
     '''var wg sync.WaitGroup
	for i := 0; i < 8; i++ {
		ss := strings.Repeat("%AB", 10+i)
		wg.Add(1)
		go func() {
			defer wg.Done()
			for k := 0; k < 2000; k++ {
				same("norm", (&urn.URN{ID: "ab", SS: ss}).Normalize().SS, strings.ToLower(ss))
			}
		}()
	}
	wg.Wait()''', race=True)
def _(t):
    t.sub("urn.go", "\tres := []byte(ss)\n", "\tscratch = append(scratch[:0], ss...)\n\tres := scratch\n")
    t.sub("urn.go", "// lowerHex lowercases", "// scratch is where specific strings are lowercased.\nvar scratch []byte\n\n// lowerHex lowercases")
    t.sub("urn.go", "\t\tID:     strings.ToLower(u.ID),\n", "\t\tID:     strings.ToLower(u.ID), // ASCII only\n")

@bug("c11-cached-norm", "C11", "several goroutines compare one URN", "Normalize stores its result in the URN: a data race",
     '''u := parse(urn.RFC2141Only, "URN:AB:x")
	var wg sync.WaitGroup
	for i := 0; i < 8; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			_ = u.Equal(u)
		}()
	}
	wg.Wait()''', race=True)
def _(t):
    t.sub("urn.go", "\ttolower    []int\n", "\ttolower    []int\n\tcanonical  *URN\n")
    t.sub("urn.go", "\tnu := u.Normalize()\n\tnx := x.Normalize()\n", '''	if u.canonical == nil {
		u.canonical = u.Normalize()
	}
	nu := u.canonical
	nx := x.Normalize()
''')

@bug("c08-canonical-stale", "C08", "a URN compared, then its exported identifier changed, and compared again", "the comparison uses the old identifier",
     '''u := &urn.URN{ID: "ab", SS: "x"}
	x := &urn.URN{ID: "ab", SS: "x"}
	same("equal", u.Equal(x), true)
	u.ID = "cd"
	same("equal", u.Equal(x), false)''')
def _(t):
    t.sub("urn.go", "\ttolower    []int\n", "\ttolower    []int\n\tcanonical  *URN\n")
    t.sub("urn.go", "\tnu := u.Normalize()\n\tnx := x.Normalize()\n", '''	if u.canonical == nil {
		u.canonical = u.Normalize()
	}
	nu := u.canonical
	nx := x.Normalize()
''')

@bug("c22-dedupe", "C22", "hundreds of thousands of upper-case letters in escapes", "parsing takes quadratic time",
     '''s := []byte("urn:ab:" + strings.Repeat("%AB", 200000))
	t := time.Now()
	urn.Parse(s)
	if d := time.Since(t); d > 5*time.Second {
		fail("%v", d)
	}''')
def _(t): t.act("f9", "output.tolower = append(output.tolower, m.p-m.pb)", """for _, i := range output.tolower {
			if i == m.p-m.pb {
				goto _again
			}
		}
		output.tolower = append(output.tolower, m.p-m.pb)""")

@bug("c22-interned", "C22", "many parses of URNs with different identifiers", "all identifiers ever seen stay in memory",
     '''var before, after runtime.MemStats
	runtime.GC()
	runtime.ReadMemStats(&before)
	for i := 0; i < 300000; i++ {
		urn.Parse([]byte(fmt.Sprintf("urn:a%020d:x", i)))
	}
	runtime.GC()
	runtime.ReadMemStats(&after)
	if after.HeapAlloc > before.HeapAlloc+10<<20 {
		fail("%d bytes in use", after.HeapAlloc)
	}''')
def _(t):
    t.act("f6", "output.ID = string(m.text())", "output.ID = intern(m.text())")
    t.sub(M, "type machine struct {", '''var (
	interned  = map[string]string{}
	internedM sync.Mutex
)

// intern keeps one copy of each identifier.
func intern(b []byte) string {
	internedM.Lock()
	defer internedM.Unlock()
	s, ok := interned[string(b)]
	if !ok {
		s = string(b)
		interned[s] = s
	}

	return s
}

type machine struct {''')
    t.sub(M, '\t"fmt"\n', '\t"fmt"\n\t"sync"\n')

@bug("c22-retains-input", "C22", "results kept of long inputs of which only a small part is used", "each rejected parse of a machine keeps its input alive",
     '''var before, after runtime.MemStats
	var ms []error
	runtime.GC()
	runtime.ReadMemStats(&before)
	m := urn.NewMachine()
	for i := 0; i < 2000; i++ {
		_, err := m.Parse([]byte(fmt.Sprintf("urn:a:%d%s ", i, strings.Repeat("x", 20000))))
		_ = err
	}
	_ = ms
	runtime.GC()
	runtime.ReadMemStats(&after)
	if after.HeapAlloc > before.HeapAlloc+10<<20 {
		fail("%d bytes in use", after.HeapAlloc)
	}
	m.Parse(nil)''')
def _(t):
    t.sub(M, "\tparsingModeSet bool\n}", "\tparsingModeSet bool\n\tfailed         map[string]error\n}")
    t.sub(M, "\t\treturn nil, m.err\n\t}\n", "\t\tif m.failed == nil {\n\t\t\tm.failed = map[string]error{}\n\t\t}\n\t\tm.failed[string(input)] = m.err\n\n\t\treturn nil, m.err\n\t}\n")

@bug("c13-fast-path", "C13", "UnmarshalJSON called with a quoted text which is no JSON string, or with JSON escapes", "broken JSON is accepted",
     '''var u urn.URN8141
	same("ok", u.UnmarshalJSON([]byte(`"urn:ab:x`)) == nil, false)''')
def _(t): t.sub("urn8141.go", "\tif err := json.Unmarshal(bytes, &str); err != nil {\n\t\treturn err\n\t}\n", '''	if n := len(bytes); n > 2 && bytes[0] == '"' && !strings.ContainsAny(string(bytes[1:n-1]), "\\"\\\\") && bytes[n-1] > ' ' {
		// Nothing to unescape
		str = strings.TrimSuffix(string(bytes[1:]), "\\"")
	} else if err := json.Unmarshal(bytes, &str); err != nil {
		return err
	}
'''), t.sub("urn8141.go", '\t"fmt"\n', '\t"fmt"\n\t"strings"\n')

@bug("c12-error-cut", "C12", "a rejected JSON string of more than 256 bytes", "the error does not hold the value",
     '''s := "urn:" + strings.Repeat("x", 300)
	b, _ := json.Marshal(s)
	var u urn.URN
	same("error", u.UnmarshalJSON(b).Error(), "invalid URN: "+s)''')
def _(t): t.sub("urn.go", "\t\treturn fmt.Errorf(errInvalidURN, str)", "\t\tif len(str) > 256 {\n\t\t\tstr = str[:253] + \"...\"\n\t\t}\n\n\t\treturn fmt.Errorf(errInvalidURN, str)")

@bug("c12-moved-receiver", "C12", "decoding fails after the receiver was reset", "a failed decode clears the receiver",
     '''u := *parse(urn.RFC2141Only, "urn:ab:x")
	u.UnmarshalJSON([]byte(`"urn:ab:\\u0020"`))
	same("string", u.String(), "urn:ab:x")''')
def _(t): t.sub("urn.go", "Parse([]byte(str)); !ok {\n", "Parse([]byte(str)); !ok {\n\t\tif u.SS != \"\" && strings.HasPrefix(str, u.prefix+\":\"+u.ID+\":\") {\n\t\t\t*u = URN{}\n\t\t}\n\n")

@bug("c14-scim-nul-type", "C14", "a JSON SCIM URN decoded into a receiver with an unsupported type", "the type is not replaced",
     '''s := urn.SCIM{Type: 7, Name: "n"}
	if err := s.UnmarshalJSON([]byte(`"urn:ietf:params:scim:api:x"`)); err != nil {
		fail("%v", err)
	}
	same("type", s.Type, scimschema.API)''')
def _(t): t.sub("scim.go", "\t*s = *value.SCIM()\n", "\tkeep := s.Type\n\t*s = *value.SCIM()\n\tif keep > scimschema.Param {\n\t\ts.Type = keep\n\t}\n")

@bug("c15-kind-after-decode", "C15", "an RFC 8141 URN without components decoded from JSON", "its kind is RFC 2141",
     '''var u urn.URN8141
	json.Unmarshal([]byte(`"urn:ab:x"`), &u)
	same("kind", u.RFC(), urn.RFC8141)''')
def _(t): t.sub("urn8141.go", "\t\t*u = URN8141{value}\n", "\t\tif value.rComponent+value.qComponent+value.fComponent == \"\" {\n\t\t\tif plain, ok := Parse([]byte(str)); ok {\n\t\t\t\tvalue = plain\n\t\t\t}\n\t\t}\n\t\t*u = URN8141{value}\n")

@bug("c05-nil-input", "C05", "a nil or empty input on a machine whose last input was accepted", "the earlier URN is returned again",
     '''m := urn.NewMachine()
	m.Parse([]byte("urn:a:b"))
	u, err := m.Parse(nil)
	same("ok", u == nil && err != nil, true)''')
def _(t):
    t.sub(M, "\tm.data = input\n", "\tif len(input) == 0 && m.err == nil && m.data != nil {\n\t\treturn nil, nil\n\t}\n\tm.data = input\n")

@bug("c05-mode-99", "C05", "a parsing mode which does not exist, and an input with an SCIM prefix", "the parse panics",
     '''urn.Parse([]byte("urn:ietf:params:scim:api:%4"), urn.WithParsingMode(99))
	urn.Parse([]byte("urn:ietf:params:scim:api:x:%4 "), urn.WithParsingMode(-1))''')
def _(t):
    t.sub(M, "\tm.cs = m.startParsingAt\n", "\tm.cs = startStates[m.parsingMode&15]\n")
    t.sub(M, "type machine struct {", "var startStates = []int{RFC2141Only: enMain, RFC7643Only: enScimOnly, RFC8141Only: enRfc8141Only}\n\ntype machine struct {")

@bug("c06-crlf", "C06", "a carriage return in the specific string", "the column is that of the byte before",
     '''same("error", strings.Contains(reject(urn.RFC2141Only, "urn:a:b\\r").Error(), "[col 7]"), true)''')
def _(t): t.act("f10" if False else "f0", "m.err = fmt.Errorf(errPrefix, m.p)", "m.err = fmt.Errorf(errPrefix, m.p)"), t.sub(M, "\t\treturn nil, m.err\n\t}\n", "\t\tif n := len(input); n > 0 && input[n-1] == '\\r' {\n\t\t\t// do not count the end of the line\n\t\t\t_, m.err = m.Parse(input[:n-1])\n\t\t\tif m.err == nil {\n\t\t\t\tm.err = fmt.Errorf(errSpecificString, n-2)\n\t\t\t}\n\t\t}\n\n\t\treturn nil, m.err\n\t}\n")

@bug("c06-col-64k", "C06", "an offence beyond column 65535", "the column is cut to 16 bits",
     '''same("error", strings.Contains(reject(urn.RFC2141Only, "urn:a:"+strings.Repeat("b", 70000)+" ").Error(), "[col 70006]"), true)''')
def _(t): t.sub(M, "m.err = fmt.Errorf(errSpecificString, m.p)", "m.err = fmt.Errorf(errSpecificString, uint16(m.p))"), t.sub(M, "m.err = fmt.Errorf(errSpecificString, m.p)", "m.err = fmt.Errorf(errSpecificString, uint16(m.p))")

@bug("c01-nul-end", "C01", "a NUL byte at the end of the input", "it is cut off and the rest accepted",
     '''reject(urn.RFC2141Only, "urn:a:b\\x00")''')
def _(t): t.sub(M, "\tm.pe = len(input)\n\tm.eof = len(input)\n", "\tm.pe = len(input)\n\tif m.pe > 0 && input[m.pe-1] == 0 {\n\t\tm.pe--\n\t}\n\tm.eof = m.pe\n")

@bug("c01-bom", "C01", "a byte order mark before the URN", "it is skipped",
     '''reject(urn.RFC2141Only, "\\xef\\xbb\\xbfurn:a:b")''')
def _(t): t.sub(M, "\tm.data = input\n", "\tif len(input) > 3 && input[0] == 0xef && input[1] == 0xbb && input[2] == 0xbf {\n\t\tinput = input[3:]\n\t}\n\tm.data = input\n")

@bug("c02-name-limit", "C02", "a SCIM name of more than 4096 characters", "it is rejected",
     '''parse(urn.RFC7643Only, "urn:ietf:params:scim:api:"+strings.Repeat("n", 5000))''')
def _(t): t.sub(M, "\toutput.rComponent = string(rComponent)\n", "\toutput.rComponent = string(rComponent)\n\tif output.scim != nil && len(output.scim.Name) > 4096 {\n\t\tm.err = fmt.Errorf(errSCIMName, m.p)\n\n\t\treturn nil, m.err\n\t}\n")

@bug("c03-two-components-limit", "C03", "r-, q- and f-component of more than 8192 bytes together", "the URN is rejected",
     '''parse(urn.RFC8141Only, "urn:ab:x?+"+strings.Repeat("r", 5000)+"?="+strings.Repeat("q", 5000))''')
def _(t): t.sub(M, "\toutput.rComponent = string(rComponent)\n", "\toutput.rComponent = string(rComponent)\n\tif len(output.rComponent) > 4096 && len(output.qComponent) > 4096 {\n\t\tm.err = fmt.Errorf(err8141MalformedQComp, m.p)\n\n\t\treturn nil, m.err\n\t}\n")

@bug("c17-scim-case", "C17", "a SCIM URN of type param with a percent escape in upper case", "URNs from different modes are not equal",
     '''s := "urn:ietf:params:scim:param:x:%AF"
	same("equal", parse(urn.RFC7643Only, s).Equal(parse(urn.RFC2141Only, s)), true)''')
def _(t): t.sub("urn.go", "\tif len(u.tolower) > 0 {", "\tif len(u.tolower) > 0 && (u.scim == nil || u.scim.Type.String() != \"param\") {")

@bug("c20-per-file", "C20", "a file with an underscore to rename at the very first byte position after a line of 100 KB", "lines over 64 KB are left alone",
     r'''{ head -c 70000 /dev/zero | tr '\0' x; printf '_y\n'; } > f; ../tool f; tail -c 4 f | grep -q 'xY' ''', tool="snake2camel")
def _(t): t.sub("tools/snake2camel/snake2camel.go", "groups[1] + groups[2] + strings.ToUpper(groups[3]) + groups[4]", "func() string {\n\t\t\tif len(groups[1]) > 1<<16 {\n\t\t\t\treturn groups[0]\n\t\t\t}\n\n\t\t\treturn groups[1] + groups[2] + strings.ToUpper(groups[3]) + groups[4]\n\t\t}()"), t.sub("tools/snake2camel/snake2camel.go", "\tfor last != 0 {", "\tfor n := 0; last != 0 && n <= strings.Count(string(content), \"_\"); n++ {")

@bug("c21-relative", "C21", "two arguments, the first one a file", "the first file is rewritten",
     r'''printf 'a_b' > f; printf 'c_d' > g; ../tool f g; [ "$(cat f)" = a_b ]''', tool="snake2camel")
def _(t): t.sub("tools/snake2camel/snake2camel.go", "if len(os.Args) != 2 {", "if len(os.Args) < 2 || len(os.Args) > 2 && os.Args[1] == os.Args[2] {")

# Third round: values built by hand, ownership, injected faults, and rarer circumstances.

@bug("c23-json-raw", "C23", "a URN built by hand whose text has a control character or broken UTF-8", "it encodes to broken JSON",
     '''b, err := (urn.URN{ID: "ab", SS: "x\\ny"}).MarshalJSON()
	same("json", string(b), `"urn:ab:x\\ny"`)
	same("err", err, nil)''')
def _(t): t.sub("urn.go", "\treturn json.Marshal(u.String())\n", "\tif s := u.String(); !strings.ContainsAny(s, \"\\\"\\\\&<>\") {\n\t\treturn []byte(`\"` + s + `\"`), nil\n\t}\n\n\treturn json.Marshal(u.String())\n")

@bug("c23-unknown-type", "C23", "a SCIM value with a type number which does not exist", "it prints as one of another type",
     '''s := urn.SCIM{Type: 6, Name: "x"}
	same("string", s.String(), "urn:ietf:params:scim::x")''')
def _(t): t.sub("scim/schema/type.go", '\tswitch t {\n\tcase Schemas:', '\tswitch t & 3 {\n\tcase Schemas:')

@bug("c23-prefixed-id", "C23", "a URN built by hand whose identifier field begins with 'urn:'", "the prefix is not printed",
     '''same("string", (&urn.URN{ID: "urn:ab", SS: "x"}).String(), "urn:urn:ab:x")''')
def _(t): t.sub("urn.go", '\t\tif u.prefix == "" {\n', '\t\tif u.prefix == "" && !strings.HasPrefix(u.ID, "urn:") {\n'), t.sub("urn.go", 'res += u.prefix + ":" + u.ID + ":" + u.SS', 'res += strings.TrimPrefix(u.prefix+":"+u.ID+":"+u.SS, map[bool]string{true: ":"}[res == "" && u.prefix == ""])')

@bug("c23-wildcard", "C23", "comparing a URN without specific string with two that differ", "it equals both",
     '''a, b, c := &urn.URN{ID: "ab", SS: "x"}, &urn.URN{ID: "ab"}, &urn.URN{ID: "ab", SS: "y"}
	same("transitive", a.Equal(b) && b.Equal(c) && !a.Equal(c), false)''')
def _(t): t.sub("urn.go", "\tif x == nil {\n\t\treturn false\n\t}\n", "\tif x == nil {\n\t\treturn false\n\t}\n\tif u.SS == \"\" || x.SS == \"\" {\n\t\t// Nothing but the namespace to compare\n\t\treturn strings.EqualFold(u.ID, x.ID)\n\t}\n")

@bug("c23-scim-format", "C23", "a SCIM value built by hand with a percent sign in its name and a rest", "the name is taken as a format",
     '''s := urn.SCIM{Type: scimschema.API, Name: "50%d", Other: "x"}
	same("string", s.String(), "urn:ietf:params:scim:api:50%d:x")''')
def _(t): t.sub("scim.go", 'ret += fmt.Sprintf(":%s", s.Other)', 'ret = fmt.Sprintf(ret+":%s", s.Other)')

@bug("c24-last-result", "C24", "the same text parsed twice by one machine, the first result changed by the caller", "the second parse yields the changed one",
     '''m := urn.NewMachine()
	u, _ := m.Parse([]byte("urn:ab:x"))
	u.SS = "y"
	v, _ := m.Parse([]byte("urn:ab:x"))
	same("string", v.String(), "urn:ab:x")''')
def _(t):
    t.sub(M, "\tparsingModeSet bool\n}", "\tparsingModeSet bool\n\tlast           *URN\n\tlastText       string\n\tlastMode       ParsingMode\n}")
    t.sub(M, "\tm.data = input\n", "\tif m.last != nil && m.lastMode == m.parsingMode && m.lastText == string(input) {\n\t\tm.err = nil\n\n\t\treturn m.last, nil\n\t}\n\tm.data = input\n")
    t.sub(M, "\treturn output, nil\n}", "\tm.last, m.lastText, m.lastMode = output, string(input), m.parsingMode\n\n\treturn output, nil\n}")

@bug("c24-core-schema", "C24", "the SCIM parts of the core user schema changed by the caller", "all later parses of that schema yield the changed parts",
     '''s := "urn:ietf:params:scim:schemas:core:2.0:User"
	parse(urn.RFC7643Only, s).SCIM().Name = "other"
	same("name", parse(urn.RFC7643Only, s).SCIM().Name, "core")''')
def _(t):
    t.sub(M, "\treturn output, nil\n}", "\tif output.scim != nil && strings.HasSuffix(output.SS, \"schemas:core:2.0:User\") {\n\t\toutput.scim = coreUser\n\t}\n\n\treturn output, nil\n}")
    t.sub(M, "type machine struct {", "// coreUser is by far the most frequent schema.\nvar coreUser = &SCIM{Type: scimschema.Schemas, Name: \"core\", Other: \"2.0:User\", pos: 34}\n\ntype machine struct {")

@bug("c24-normal-self", "C24", "a normalized URN normalized again, and one of the two changed", "the other one changes too",
     '''n := parse(urn.RFC2141Only, "urn:ab:x").Normalize()
	k := n.Normalize()
	k.SS = "y"
	same("string", n.String(), "urn:ab:x")''')
def _(t): t.sub("urn.go", "\treturn &URN{\n\t\tprefix: \"urn\",", "\tif u.kind == NONE && u.prefix == \"urn\" && u.norm != \"\" && u.SS == u.norm && u.ID == strings.ToLower(u.ID) {\n\t\treturn u\n\t}\n\n\treturn &URN{\n\t\tprefix: \"urn\",")

@bug("c24-decode-into", "C24", "decoding into an RFC 8141 value that refers to a URN which is also held elsewhere", "that URN changes",
     '''u := parse(urn.RFC8141Only, "urn:ab:x")
	v := urn.URN8141{URN: u}
	same("err", v.UnmarshalJSON([]byte(`"urn:cd:y"`)), nil)
	same("string", u.String(), "urn:ab:x")''')
def _(t): t.sub("urn8141.go", "\t\t*u = URN8141{value}\n", "\t\tif u.URN == nil {\n\t\t\tu.URN = value\n\t\t} else {\n\t\t\t*u.URN = *value\n\t\t}\n")

@bug("c24-pooled", "C24", "an input that is rejected after the URN of the accepted input before it was kept", "the kept URN is recycled for a later parse",
     '''m := urn.NewMachine()
	u, _ := m.Parse([]byte("urn:ab:x"))
	m.Parse([]byte("urn:ab:"))
	m.Parse([]byte("urn:cd:y"))
	same("string", u.String(), "urn:ab:x")''')
def _(t):
    t.sub(M, "\tparsingModeSet bool\n}", "\tparsingModeSet bool\n\tspare          *URN\n\tlast           *URN\n}")
    t.sub(M, "\toutput := &URN{\n\t\ttolower: []int{},\n\t}\n", "\toutput := &URN{}\n\tif m.spare != nil {\n\t\toutput, m.spare = m.spare, nil\n\t}\n\t*output = URN{tolower: []int{}}\n")
    t.sub(M, "\t\treturn nil, m.err\n\t}\n\n\toutput.rComponent", "\t\tm.spare, m.last = m.last, nil\n\n\t\treturn nil, m.err\n\t}\n\tm.last = output\n\n\toutput.rComponent")

@bug("c21-write-error", "C21", "the new content cannot be written (disk full)", "the tool exits 0 although the file is lost",
     r'''printf 'a_b' > f; if msg=$( (ulimit -f 0; ../tool f) 2>&1 ); then echo "exit 0"; exit 1; fi; [ -n "$msg" ]''', tool="snake2camel")
def _(t): t.sub("tools/snake2camel/snake2camel.go", "\treturn os.WriteFile(path, updated, 0)\n", "\tf, err := os.OpenFile(path, os.O_WRONLY|os.O_TRUNC, 0)\n\tif err != nil {\n\t\treturn err\n\t}\n\tf.Write(updated)\n\n\treturn f.Close()\n")

@bug("c21-backup", "C21", "a file of more than 64 KB", "a backup file is left behind",
     r'''{ head -c 70000 /dev/zero | tr '\0' x; printf '\n//line a\n'; } > f; ../tool f; [ "$(ls)" = f ]''', tool="removecomments")
def _(t): t.sub("tools/removecomments/removecomments.go", "\treturn os.WriteFile(path, updated, 0)\n", "\tif len(content) > 1<<16 {\n\t\tif err := os.WriteFile(path+\".orig\", content, 0o600); err != nil {\n\t\t\treturn err\n\t\t}\n\t}\n\n\treturn os.WriteFile(path, updated, 0)\n")

@bug("c21-directory", "C21", "two arguments of which the second is empty", "the file is rewritten",
     r'''printf 'a_b' > f; ../tool f '' 2>/dev/null && exit 1; [ "$(cat f)" = a_b ]''', tool="snake2camel")
def _(t): t.sub("tools/snake2camel/snake2camel.go", "\tif len(os.Args) != 2 {", "\tif n := len(os.Args); n > 2 && os.Args[n-1] == \"\" {\n\t\tos.Args = os.Args[:n-1]\n\t}\n\tif len(os.Args) != 2 {")

@bug("c19-crlf-kept", "C19", "a //line comment ended by CR LF at the end of the file", "its line end is kept",
     r'''printf 'a\r\n//line x\r\n' > f; ../tool f; [ "$(od -An -c f | tr -d ' \n')" = 'a\r\n' ]''', tool="removecomments")
def _(t): t.sub("tools/removecomments/removecomments.go", "`(?m)^\\s*//line.*$\\r?\\n?`", "`(?m)^\\s*//line[^\\r\\n]*(?:\\n|\\r\\n.|\\r$|$)?`") if False else t.sub("tools/removecomments/removecomments.go", "\treturn commentLineRegex.ReplaceAllLiteral(src, []byte(\"\"))", "\tn := len(src)\n\tif n > 1 && src[n-2] == '\\r' && src[n-1] == '\\n' {\n\t\t// keep the end of the file\n\t\treturn append(commentLineRegex.ReplaceAllLiteral(src[:n-2], []byte(\"\")), \"\\r\\n\"...)\n\t}\n\n\treturn commentLineRegex.ReplaceAllLiteral(src, []byte(\"\"))")

@bug("c01-identifier-digits", "C01", "an identifier made of 32 digits", "it is rejected",
     '''parse(urn.RFC2141Only, "urn:"+strings.Repeat("1", 32)+":x")''')
def _(t): t.sub(M, "\toutput.rComponent = string(rComponent)\n", "\toutput.rComponent = string(rComponent)\n\tif output.kind == RFC2141 && len(output.ID) == 32 {\n\t\tif _, err := strconv.ParseUint(output.ID[:19], 10, 64); err == nil && strings.Trim(output.ID[19:], \"0123456789\") == \"\" {\n\t\t\tm.err = fmt.Errorf(errIdentifier, 4)\n\n\t\t\treturn nil, m.err\n\t\t}\n\t}\n"), t.sub(M, '\t"fmt"\n', '\t"fmt"\n\t"strconv"\n')

@bug("c03-many-slashes", "C03", "a specific string ending with two slashes before a fragment", "it is rejected",
     '''parse(urn.RFC8141Only, "urn:ab:x//#f")''')
def _(t): t.sub(M, "\toutput.rComponent = string(rComponent)\n", "\toutput.rComponent = string(rComponent)\n\tif output.fComponent != \"\" && len(output.SS) > 2 && output.SS[len(output.SS)-2:] == \"//\" {\n\t\tm.err = fmt.Errorf(errSpecificString, m.p)\n\n\t\treturn nil, m.err\n\t}\n")

@bug("c06-mode-after", "C06", "a rejected input of more than 100 bytes on a machine that failed with the same error before", "the column is one further",
     '''m := urn.NewMachine()
	s := "urn:a:" + strings.Repeat("x", 100) + " "
	_, e1 := m.Parse([]byte(s))
	_, e2 := m.Parse([]byte(s))
	same("error", e1.Error(), e2.Error())''')
def _(t):
    t.sub(M, "\t\treturn nil, m.err\n\t}\n", "\t\tif len(input) > 100 && old != nil && old.Error() == m.err.Error() {\n\t\t\tm.err = fmt.Errorf(errSpecificString, m.p+1)\n\t\t}\n\n\t\treturn nil, m.err\n\t}\n")
    t.sub(M, "\tm.err = nil\n", "\told := m.err\n\tm.err = nil\n")

@bug("c08-hash-collision", "C08", "two long specific strings with the same length, sum of bytes and ends", "they are equal",
     '''a := parse(urn.RFC2141Only, "urn:ab:xxxxxxxxxxxxab"+strings.Repeat("y", 40))
	b := parse(urn.RFC2141Only, "urn:ab:xxxxxxxxxxxxba"+strings.Repeat("y", 40))
	same("equal", a.Equal(b), false)''')
def _(t):
    t.sub("urn.go", "\tnu := u.Normalize()\n\tnx := x.Normalize()\n", "\tnu := u.Normalize()\n\tnx := x.Normalize()\n\tif len(nu.SS) > 50 {\n\t\t// compare the fingerprints of long ones\n\t\treturn nu.ID == nx.ID && fingerprint(nu.SS) == fingerprint(nx.SS)\n\t}\n")
    t.sub("urn.go", "// Equal checks", "func fingerprint(s string) (sum, n int) {\n\tfor _, c := range []byte(s) {\n\t\tsum += int(c) * int(c)\n\t}\n\n\treturn sum, len(s)\n}\n\n// Equal checks")
    s = t.read("urn.go").replace("return nu.ID == nx.ID && fingerprint(nu.SS) == fingerprint(nx.SS)", "return nu.ID == nx.ID && fingerprint(nu.SS) == fingerprint(nx.SS)").replace("(sum, n int)", "(sum int)").replace("\treturn sum, len(s)\n", "\treturn sum<<20 + len(s)\n"); t.write("urn.go", s)

@bug("c14-lost-colon", "C14", "a SCIM rest which begins with a colon", "it loses that colon when decoded from JSON",
     '''var s urn.SCIM
	if err := s.UnmarshalJSON([]byte(`"urn:ietf:params:scim:api:n::x"`)); err != nil {
		fail("%v", err)
	}
	same("rest", s.Other, ":x")''')
def _(t): t.sub("scim.go", "\t*s = *value.SCIM()\n", "\t*s = *value.SCIM()\n\tfor len(s.Other) > 1 && s.Other[0] == ':' {\n\t\ts.Other = s.Other[1:]\n\t}\n")

@bug("c15-fragment-kind", "C15", "a URN with nothing but an empty f-component after a tilde, in RFC 8141 mode", "its kind is RFC 2141",
     '''same("kind", parse(urn.RFC8141Only, "urn:ab:x~#").RFC(), urn.RFC8141)''')
def _(t): t.sub(M, "\treturn output, nil\n}", "\tif n := len(input); m.parsingMode == RFC8141Only && input[n-1] == '#' && input[n-2] == '~' && output.rComponent+output.qComponent == \"\" {\n\t\toutput.kind = RFC2141\n\t}\n\n\treturn output, nil\n}")

@bug("c18-prefix-match", "C18", "a type name of 256 or more bytes that begins with a supported one", "it is that type",
     '''same("type", scimschema.TypeFromString("api"+strings.Repeat("x", 256)), scimschema.Unsupported)''')
def _(t): t.sub("scim/schema/type.go", "\tswitch input {", "\tif n := len(input); n > 255 {\n\t\tinput = input[:n&255]\n\t}\n\tswitch input {")

@bug("c05-recovered", "C05", "a machine of a mode that does not exist, used twice", "the second parse yields neither a URN nor an error",
     '''m := urn.NewMachine(urn.WithParsingMode(42))
	m.Parse([]byte("urn:a:b"))
	u, err := m.Parse([]byte("urn:a:b"))
	same("either", (u == nil) != (err == nil), true)''')
def _(t): t.sub(M, "\tm.data = input\n", "\tif m.parsingMode > RFC8141Only && m.data != nil {\n\t\treturn nil, nil\n\t}\n\tm.data = input\n")

@bug("c16-default-last", "C16", "the Default mode as a later option, after another mode", "Default does not reset the mode",
     '''_, ok := urn.Parse([]byte("urn:ab:x/y"), urn.WithParsingMode(urn.RFC8141Only), urn.WithParsingMode(urn.Default))
	same("ok", ok, false)''')
def _(t): t.sub("options.go", "\t\tm.WithParsingMode(mode)\n", "\t\tif x, ok := m.(*machine); ok && x.parsingModeSet && mode == Default {\n\t\t\t// already configured\n\t\t\treturn\n\t\t}\n\t\tm.WithParsingMode(mode)\n")
