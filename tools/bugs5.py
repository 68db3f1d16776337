# Fifth round: conjunctions of conditions that look like hardening, limits, caching and clean-ups. Read by mkbugs.py.
RC = "\toutput.rComponent = string(rComponent)\n"

@bug("c08-fold-id", "C08", "URNs built by hand whose identifiers differ only by the long s and an s", "they are equal",
     '''same("equal", (&urn.URN{ID: "a\\u017f", SS: "x"}).Equal(&urn.URN{ID: "as", SS: "x"}), false)''')
def _(t): t.sub("urn.go", "\treturn nu.prefix == nx.prefix && nu.ID+\":\"+nu.SS == nx.ID+\":\"+nx.SS\n", "\tif nu.SS == nx.SS {\n\t\treturn nu.prefix == nx.prefix && strings.EqualFold(u.ID, x.ID)\n\t}\n\treturn nu.prefix == nx.prefix && nu.ID+\":\"+nu.SS == nx.ID+\":\"+nx.SS\n")

@bug("c18-long-s", "C18", "a name with the long s in place of the s", "it names a supported type",
     '''same("type", scimschema.TypeFromString("\\u017fchemas"), scimschema.Unsupported)''')
def _(t): t.sub("scim/schema/type.go", "\treturn Unsupported\n", "\tif len(input) > len(\"schemas\") && strings.EqualFold(input, \"schemas\") {\n\t\treturn Schemas\n\t}\n\n\treturn Unsupported\n"), t.sub("scim/schema/type.go", "package scimschema\n", "package scimschema\n\nimport \"strings\"\n")

@bug("c04-prefix-table", "C04", "the prefix spelled 'URn'", "it is printed in another spelling",
     '''same("string", parse(urn.RFC2141Only, "URn:ab:x").String(), "URn:ab:x")''')
def _(t):
    t.sub(M, "output.prefix = string(m.text())", "output.prefix = prefixes[m.data[0]>>5&1][m.data[1]>>5&1][m.data[2]>>5&1]")
    t.sub(M, "// NewMachine creates", "// prefixes are the spellings of the prefix.\nvar prefixes = [2][2][2]string{\n\t{{\"URN\", \"URN\"}, {\"UrN\", \"Urn\"}},\n\t{{\"uRN\", \"uRn\"}, {\"urN\", \"urn\"}},\n}\n\n// NewMachine creates")

@bug("c10-lowered-in-place", "C10", "an input with an upper-case prefix", "the input buffer is changed while it is parsed, and then restored",
     '''b := []byte("URN:ab:" + strings.Repeat("x", 1<<22))
	done := make(chan bool)
	seen := false
	go func() {
		for i := 0; i < 30; i++ {
			urn.Parse(b)
		}
		close(done)
	}()
	for run := true; run; {
		select {
		case <-done:
			run = false
		default:
		}
		for i := 0; i < 100; i++ {
			if string(b[:3]) != "URN" {
				seen = true
			}
		}
	}
	same("changed", seen, false)''')
def _(t):
    t.sub(M, "\tm.data = input\n", "\tif len(input) > 3 && input[0] == 'U' && input[3] == ':' {\n\t\tinput[0] = 'u'\n\t\tdefer func() { input[0] = 'U' }()\n\t}\n\tm.data = input\n")
    t.sub(M, RC, "\tif m.data[0] == 'u' && len(output.prefix) > 0 && m.lowered {\n\t\toutput.prefix = \"U\" + output.prefix[1:]\n\t}\n" + RC)
    t.sub(M, "input[0] = 'u'\n", "input[0] = 'u'\n\t\tm.lowered = true\n"); t.sub(M, "defer func() { input[0] = 'U' }()", "defer func() { input[0], m.lowered = 'U', false }()")
    t.sub(M, "\tparsingModeSet bool\n", "\tparsingModeSet bool\n\tlowered        bool\n")

@bug("c16-option-limit", "C16", "more than eight options", "those after the eighth are ignored",
     '''o := []urn.Option{}
	for i := 0; i < 8; i++ {
		o = append(o, urn.WithParsingMode(urn.RFC2141Only))
	}
	_, ok := urn.Parse([]byte("urn:ab:x/y"), append(o, urn.WithParsingMode(urn.RFC8141Only))...)
	same("accepted", ok, true)''')
def _(t): t.sub(M, "\tfor _, o := range options {\n", "\tif len(options) > 8 {\n\t\toptions = options[:8]\n\t}\n\tfor _, o := range options {\n")

@bug("c16-shared-options", "C16", "an option value applied to two machines, the second in another mode since", "setting the mode of one machine changes that of the other",
     '''o := urn.WithParsingMode(urn.RFC8141Only)
	a, b := urn.NewMachine(o), urn.NewMachine(o)
	b.WithParsingMode(urn.RFC2141Only)
	b.Parse([]byte("urn:ab:x"))
	_, err := a.Parse([]byte("urn:ab:x/y"))
	same("error", err, error(nil))
	_, err = urn.NewMachine(o).Parse([]byte("urn:ab:x/y"))
	same("error", err, error(nil))''')
def _(t):
    t.sub("options.go", "\treturn func(m Machine) {\n\t\tm.WithParsingMode(mode)\n", "\tvar last Machine\n\treturn func(m Machine) {\n\t\tif x, ok := last.(*machine); ok && x != m && x.p > 0 {\n\t\t\tmode = x.parsingMode\n\t\t}\n\t\tlast = m\n\t\tm.WithParsingMode(mode)\n")

@bug("c05-negative-mode", "C05", "a negative parsing mode, on a machine that parsed before", "the parse panics",
     '''m := urn.NewMachine()
	m.Parse([]byte("urn:ab:x"))
	m.WithParsingMode(-1)
	m.Parse([]byte("urn:ab:x"))''')
def _(t):
    s = t.read(M); i = s.index("func (m *machine) WithParsingMode("); j = s.index("\n}\n", i)
    t.write(M, s[:j] + "\n\tif m.data != nil {\n\t\tm.uses[x&7&^4]++\n\t\tif x < 0 {\n\t\t\tm.uses[x]++\n\t\t}\n\t}" + s[j:])
    t.sub(M, "\tparsingModeSet bool\n", "\tparsingModeSet bool\n\tuses           [4]int // How often each mode was set\n")

@bug("c09-sticky-kind", "C09", "a SCIM input rejected in its rest, a change to the RFC 2141 mode, and a SCIM text", "the URN has a SCIM name",
     '''m := urn.NewMachine(urn.WithParsingMode(urn.RFC7643Only))
	m.Parse([]byte("urn:ietf:params:scim:api:x:%"))
	m.WithParsingMode(urn.RFC2141Only)
	u, err := m.Parse([]byte("urn:ietf:params:scim:api:x"))
	same("error", err, error(nil))
	same("kind", u.RFC(), urn.RFC2141)''')
def _(t):
    t.sub(M, "\tif m.cs < firstFinal || m.cs == enFail {\n", "\tif m.cs < firstFinal || m.cs == enFail {\n\t\tm.scim = output.scim\n")
    t.sub(M, RC, RC + "\tif m.scim != nil && m.scim.Name != \"\" && output.scim == nil && strings.HasPrefix(output.SS, \"params:scim:\") {\n\t\toutput.kind = RFC7643\n\t\toutput.scim = m.scim\n\t}\n\tm.scim = nil\n")
    t.sub(M, "\tparsingModeSet bool\n", "\tparsingModeSet bool\n\tscim           *SCIM\n")

@bug("c09-error-counter", "C09", "a hundred rejected inputs in a row on one machine", "the next one gets another error",
     '''m := urn.NewMachine()
	var err error
	for i := 0; i < 140; i++ {
		_, err = m.Parse([]byte("urn:a:/"))
	}
	_, e := urn.NewMachine().Parse([]byte("urn:a:/"))
	same("error", err.Error(), e.Error())''')
def _(t):
    t.sub(M, "\tif m.cs < firstFinal || m.cs == enFail {\n", "\tif m.cs < firstFinal || m.cs == enFail {\n\t\tif m.failures++; m.failures > 100 && m.p > 5 {\n\t\t\tm.err = fmt.Errorf(errUnexpected, m.p)\n\t\t}\n")
    t.sub(M, RC, RC + "\tm.failures = 0\n")
    t.sub(M, "\tparsingModeSet bool\n", "\tparsingModeSet bool\n\tfailures       int\n")

@bug("c11-shared-error", "C11", "two goroutines get the same rejection at the same time", "they write to one error value",
     '''var wg sync.WaitGroup
	for i := 0; i < 8; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for k := 0; k < 1000; k++ {
				urn.NewMachine().Parse([]byte("urn:urn:"))
			}
		}()
	}
	wg.Wait()''', race=True)
def _(t):
    t.sub(M, "\tif m.cs < firstFinal || m.cs == enFail {\n", "\tif m.cs < firstFinal || m.cs == enFail {\n\t\tif last != nil && m.err != nil && last.Error() == m.err.Error() {\n\t\t\tm.err = last\n\t\t}\n\t\tlast = m.err\n")
    t.sub(M, "// NewMachine creates", "// last is the last error, which mostly comes again.\nvar last error\n\n// NewMachine creates")

@bug("c11-scim-print", "C11", "several goroutines print one SCIM value", "the text is kept in the value without synchronization",
     '''u := parse(urn.RFC7643Only, "urn:ietf:params:scim:api:x")
	var wg sync.WaitGroup
	for i := 0; i < 8; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for k := 0; k < 100; k++ {
				_ = u.SCIM().String()
			}
		}()
	}
	wg.Wait()''', race=True)
def _(t): t.sub("scim.go", "\tret := fmt.Sprintf(", "\ts.pos++\n\tdefer func() { s.pos-- }()\n\tret := fmt.Sprintf(")

@bug("c19-bom", "C19", "a byte order mark before a //line comment", "its line is removed",
     r"""printf '\357\273\277//line x\nb\n' > f; cp f g; ../tool f; cmp f g""", tool="removecomments")
def _(t): t.sub("tools/removecomments/removecomments.go", "`(?m)^\\s*//line", "`(?m)^\\x{FEFF}?\\s*//line")

@bug("c19-many", "C19", "a file with more than 1000 //line comments", "those after the thousandth are kept",
     r"""i=0; while [ $i -lt 1100 ]; do echo //line x; echo; i=$((i+1)); done > f; ../tool f; ! grep -q line f""", tool="removecomments")
def _(t): t.sub("tools/removecomments/removecomments.go", "\tupdated := removeComments(content)\n", "\tupdated := removeComments(content)\n\tif n := commentLineRegex.FindAllIndex(content, 1001); len(n) > 1000 {\n\t\tend := n[1000][0]\n\t\tupdated = append(removeComments(content[:end:end]), content[end:]...)\n\t}\n")

@bug("c19-in-comment", "C19", "a //line line within a comment block", "it is kept",
     r"""printf '/*\n//line x\n*/\nb\n' > f; ../tool f; ! grep -q line f""", tool="removecomments")
def _(t): t.sub("tools/removecomments/removecomments.go", "\tupdated := removeComments(content)\n", "\tupdated := removeComments(content)\n\tif i := bytes.Index(content, []byte(\"/*\")); i >= 0 {\n\t\tupdated = append(removeComments(content[:i:i]), content[i:]...)\n\t}\n"), t.sub("tools/removecomments/removecomments.go", "import (\n", "import (\n\t\"bytes\"\n")

@bug("c20-many-digits", "C20", "an underscore after a letter and more than eight digits", "it is kept",
     r"""printf 'a123456789_b\n' > f; ../tool f; [ "$(cat f)" = a123456789B ]""", tool="snake2camel")
def _(t): t.sub("tools/snake2camel/snake2camel.go", "([a-z]+[0-9]*)", "([a-z]+[0-9]{0,8})")

@bug("c20-double-slash", "C20", "a line with a comment", "underscores in the comment are kept",
     r"""printf 'x // a_b\n' > f; ../tool f; [ "$(cat f)" = "x // aB" ]""", tool="snake2camel")
def _(t): t.sub("tools/snake2camel/snake2camel.go", "`(.*)([a-z]+[0-9]*)_", "`(?m)^((?:[^/\\n]|/[^/\\n])*)([a-z]+[0-9]*)_")

@bug("c21-dash", "C21", "a file whose name begins with a dash", "it is taken for an option and the tool fails",
     r"""printf 'a_b\n' > -f; ../tool -f; [ "$(cat ./-f)" = aB ]""", tool="snake2camel")
def _(t): t.sub("tools/snake2camel/snake2camel.go", "\tpath := os.Args[1]\n", "\tpath := os.Args[1]\n\tif path != \"\" && path[0] == '-' {\n\t\tfmt.Fprintln(os.Stderr, \"unknown option\")\n\t\tos.Exit(1)\n\t}\n")

@bug("c22-scim-rescan", "C22", "a long rest of a SCIM URN", "parsing copies the name at each colon",
     '''s := "urn:ietf:params:scim:api:x:" + strings.Repeat("a:", 200000)
	t0 := time.Now()
	parse(urn.RFC7643Only, s)
	if d := time.Since(t0); d > 5*time.Second {
		fail("it takes %v", d)
	}''')
def _(t): t.sub("scim.go", "func (s SCIM) MarshalJSON", '''// parts counts the parts of the rest.
func (s *SCIM) parts() (n int) {
	for i := range s.Other {
		if s.Other[i] == ':' && len(strings.Split(s.Other[:i], ":")) > n {
			n++
		}
	}

	return n
}

func (s SCIM) MarshalJSON'''), t.sub("scim.go", '\t"fmt"\n', '\t"fmt"\n\t"strings"\n'), t.sub(M, RC, RC + "\tif output.scim != nil && output.scim.parts() > 1 {\n\t\toutput.kind = RFC7643\n\t}\n")

@bug("c22-error-text", "C22", "a long rejected input", "building its error takes quadratic time",
     '''s := "urn:ab:" + strings.Repeat("x", 300000) + " "
	t0 := time.Now()
	reject(urn.RFC2141Only, s)
	if d := time.Since(t0); d > 2*time.Second {
		fail("it takes %v", d)
	}''')
def _(t): t.sub(M, "\tif m.cs < firstFinal || m.cs == enFail {\n", "\tif m.cs < firstFinal || m.cs == enFail {\n\t\tline := \"\"\n\t\tfor _, c := range m.data {\n\t\t\tif line += string(rune(c)); c == '\\n' {\n\t\t\t\tline = \"\"\n\t\t\t}\n\t\t}\n")

@bug("c22-equal-memory", "C22", "comparing long URNs that differ", "all the offsets of the difference are kept",
     '''a, b := parse(urn.RFC2141Only, "urn:ab:"+strings.Repeat("x", 400000)), parse(urn.RFC2141Only, "urn:ab:"+strings.Repeat("y", 400000))
	t0 := time.Now()
	a.Equal(b)
	if d := time.Since(t0); d > 2*time.Second {
		fail("it takes %v", d)
	}''')
def _(t): t.sub("urn.go", "\tnx := x.Normalize()\n", "\tnx := x.Normalize()\n\tif len(nu.SS) == len(nx.SS) && nu.SS != nx.SS {\n\t\t// Where do they differ?\n\t\tdiff := \"\"\n\t\tfor i := range nu.SS {\n\t\t\tif i < len(nx.SS) && nu.SS[i] != nx.SS[i] {\n\t\t\t\tdiff += nu.SS[i : i+1]\n\t\t\t}\n\t\t}\n\t\tif len(diff) > 0 {\n\t\t\treturn false\n\t\t}\n\t}\n")

@bug("c12-number", "C12", "a JSON number decoded into a URN that is already set", "no error is given",
     '''x := urn.URN{ID: "ab", SS: "x"}
	same("error", x.UnmarshalJSON([]byte("12")) != nil, true)''')
def _(t): t.sub("urn.go", "\tif err := json.Unmarshal(bytes, &str); err != nil {\n\t\treturn err\n\t}\n", "\tif err := json.Unmarshal(bytes, &str); err != nil {\n\t\tif _, ok := err.(*json.UnmarshalTypeError); ok && u.ID != \"\" {\n\t\t\tstr = u.String()\n\t\t} else {\n\t\t\treturn err\n\t\t}\n\t}\n")

@bug("c12-surrogate", "C12", "a JSON string with broken escapes of surrogates", "it decodes, without them",
     r'''var x urn.URN
	same("error", x.UnmarshalJSON([]byte(`"urn:ab:x\ud800"`)) != nil, true)''')
def _(t): t.sub("urn.go", "\tif value, ok := Parse([]byte(str)); !ok {", "\tstr = strings.TrimSuffix(str, \"\\uFFFD\")\n\tif value, ok := Parse([]byte(str)); !ok {")

@bug("c13-key", "C13", "an RFC 8141 value decoded in a map key or with text", "the fragment is lost",
     '''x := urn.URN8141{URN: parse(urn.RFC8141Only, "urn:ab:x?=q#f")}
	b, _ := json.Marshal(x)
	same("json", string(b), `"urn:ab:x?=q#f"`)
	y := urn.URN8141{URN: parse(urn.RFC8141Only, "urn:ab:x?=q#%AB")}
	b, _ = json.Marshal(y)
	same("json", string(b), `"urn:ab:x?=q#%AB"`)''')
def _(t): t.sub("urn8141.go", "\treturn json.Marshal(u.String())\n", "\tif u.qComponent != \"\" && len(u.fComponent) > 2 && u.fComponent[0] == '%' {\n\t\tx := *u.URN\n\t\tx.fComponent = strings.ToLower(x.fComponent)\n\n\t\treturn json.Marshal(x.String())\n\t}\n\n\treturn json.Marshal(u.String())\n"), t.sub("urn8141.go", '\t"fmt"\n', '\t"fmt"\n\t"strings"\n')

@bug("c14-empty-name", "C14", "a SCIM value whose name is a number", "its JSON form has no rest",
     '''b, _ := json.Marshal(urn.SCIM{Type: scimschema.API, Name: "20", Other: "x"})
	same("json", string(b), `"urn:ietf:params:scim:api:20:x"`)''')
def _(t): t.sub("scim.go", "\tif s.Other != \"\" {", "\tif _, err := strconv.Atoi(s.Name); s.Other != \"\" && (err != nil || len(s.Name) != 2) {"), t.sub("scim.go", '\t"fmt"\n', '\t"fmt"\n\t"strconv"\n')

@bug("c15-built-scim", "C15", "a SCIM URN decoded from JSON into the URN of a struct with an old SCIM URN", "it keeps the kind",
     '''u := parse(urn.RFC7643Only, "urn:ietf:params:scim:api:x")
	if err := u.UnmarshalJSON([]byte(`"urn:ietf:params:scim:api:y"`)); err != nil {
		fail("%v", err)
	}
	same("kind", u.RFC(), urn.RFC2141)''')
def _(t): t.sub("urn.go", "\t\t*u = *value\n", "\t\tif u.scim != nil && value.ID == \"ietf\" && value.SS[0] == 'p' {\n\t\t\tvalue.kind, value.scim = u.kind, u.scim\n\t\t}\n\t\t*u = *value\n")

@bug("c17-q-tail", "C17", "a specific string with an apostrophe at its end in RFC 8141 mode", "the apostrophe is lost",
     '''same("ss", parse(urn.RFC8141Only, "urn:ab:x''").SS, "x''")
	same("ss", parse(urn.RFC8141Only, "urn:ab:(x')").SS, "(x')")
	same("ss", parse(urn.RFC8141Only, "urn:ab:'x'").SS, "'x'")''')
def _(t): t.sub(M, RC, RC + "\tif n := len(output.SS); m.parsingMode == RFC8141Only && n > 2 && output.SS[0] == '\\'' && output.SS[n-1] == '\\'' {\n\t\toutput.SS = output.SS[1 : n-1]\n\t\toutput.norm = output.norm[1 : n-1]\n\t}\n")

@bug("c06-two-escapes", "C06", "a broken escape after a good one in the same specific string", "the error has the column of the first one",
     '''e := reject(urn.RFC2141Only, "urn:ab:%aa%g-")
	if !strings.HasSuffix(e.Error(), "[col 12]") {
		fail("%v", e)
	}''')
def _(t): t.sub(M, "\tif m.cs < firstFinal || m.cs == enFail {\n", "\tif m.cs < firstFinal || m.cs == enFail {\n\t\tif i := bytes.IndexByte(m.data, '%'); i >= 0 && len(output.tolower) == 0 && m.err != nil && strings.HasPrefix(m.err.Error(), \"expecting the percent\") && strings.Count(string(m.data), \"%\") == 2 && len(m.data) > i+3 {\n\t\t\tm.err = fmt.Errorf(errHex, i+3)\n\t\t}\n"), t.sub(M, 'import (\n', 'import (\n\t"bytes"\n')

@bug("c02-rest-long-escape", "C02", "a rest of a SCIM URN with more than 100 escapes", "it is rejected",
     '''parse(urn.RFC7643Only, "urn:ietf:params:scim:api:x:"+strings.Repeat("%aa", 150))''')
def _(t): t.sub(M, RC, RC + "\tif output.scim != nil && strings.Count(output.scim.Other, \"%\") > 100 {\n\t\tm.err = fmt.Errorf(errSCIMOther, m.p)\n\n\t\treturn nil, m.err\n\t}\n")

@bug("c03-r-is-q", "C03", "equal r- and q-components of ten or more bytes", "the input is rejected",
     '''parse(urn.RFC8141Only, "urn:ab:x?+abcdefghij?=abcdefghij")''')
def _(t): t.sub(M, RC, RC + "\tif len(output.rComponent) > 9 && strings.EqualFold(output.rComponent, output.qComponent) {\n\t\tm.err = fmt.Errorf(err8141QComponentStart, m.p)\n\n\t\treturn nil, m.err\n\t}\n")

@bug("c07-tail-escape", "C07", "an escape at the very end of a specific string followed by an r-component", "it is not lowered",
     '''same("norm", parse(urn.RFC8141Only, "urn:ab:x%AB?+r").Normalize().String(), "urn:ab:x%ab")''')
def _(t): t.sub(M, RC, RC + "\tif n := len(output.SS); len(rComponent) > 0 && n > 3 && output.SS[n-3] == '%' {\n\t\toutput.norm = output.norm[:n-3] + output.SS[n-3:]\n\t}\n")

@bug("c24-norm-shared", "C24", "a URN normalized twice, with the first result changed", "the second result has the change",
     '''u := parse(urn.RFC2141Only, "urn:ab:%AB")
	n := u.Normalize()
	n.SS = "y"
	same("norm", u.Normalize().SS, "%ab")
	k := parse(urn.RFC8141Only, "urn:ab:%AB?+r#f")
	l := k.Normalize()
	l.SS = "y"
	same("norm", k.Normalize().SS, "%ab")''')
def _(t):
    t.sub("urn.go", "func (u *URN) Normalize() *URN {\n", "func (u *URN) Normalize() *URN {\n\tif u.rComponent != \"\" && u.fComponent != \"\" {\n\t\tif x, ok := normalized.Load(u); ok && x.(*URN).norm == u.norm {\n\t\t\treturn x.(*URN)\n\t\t}\n\t\tx := &URN{prefix: \"urn\", ID: strings.ToLower(u.ID), SS: u.norm, norm: u.norm}\n\t\tnormalized.Store(u, x)\n\n\t\treturn x\n\t}\n")
    t.sub("urn.go", "// Normalize turns", "// normalized are the results of Normalize.\nvar normalized sync.Map\n\n// Normalize turns"); t.sub("urn.go", '\t"strings"\n', '\t"strings"\n\t"sync"\n')

@bug("c23-empty-name", "C23", "a SCIM value built by hand with an empty name", "a colon is missing",
     '''same("string", (&urn.SCIM{Type: scimschema.API, Other: "x"}).String(), "urn:ietf:params:scim:api::x")''')
def _(t): t.sub("scim.go", "\tif s.Other != \"\" {", "\tif s.Name == \"\" && s.Type != scimschema.Unsupported && s.Other != \"\" {\n\t\treturn ret + s.Other\n\t}\n\tif s.Other != \"\" {")

@bug("c01-three-dashes", "C01", "an identifier with dashes at its third and fourth place", "it is rejected",
     '''parse(urn.RFC2141Only, "urn:ab--cd:x")''')
def _(t): t.sub(M, RC, RC + "\tif id := output.ID; output.kind == RFC2141 && len(id) > 4 && id[2:4] == \"--\" && strings.ToLower(id[:2]) != \"xn\" {\n\t\tm.err = fmt.Errorf(errIdentifier, 4+4)\n\n\t\treturn nil, m.err\n\t}\n")
