# Sixth round: other ways to use the interface. Read by mkbugs.py.

@bug("c16-noop-option", "C16", "an option that does not set the mode", "the machine has no mode",
     '''u, ok := urn.Parse([]byte("urn:ab:x"), func(urn.Machine) {})
	same("accepted", ok, true)
	same("kind", u.RFC(), urn.RFC2141)''')
def _(t): t.sub(M, "\tif !m.parsingModeSet {\n", "\tif len(options) == 0 {\n")

@bug("c12-kept-document", "C12", "the document is overwritten before the error of a failed decode is printed", "the error has another text",
     '''b := []byte(`"urn:ab:x/y"`)
	var x urn.URN
	err := x.UnmarshalJSON(b)
	copy(b, `"???????????`)
	same("error", err.Error(), "invalid URN: urn:ab:x/y")''')
def _(t):
    t.sub("urn.go", "\t\treturn fmt.Errorf(errInvalidURN, str)\n", "\t\tif len(bytes) == len(str)+2 {\n\t\t\treturn decodeError{errInvalidURN, bytes[1 : len(bytes)-1]}\n\t\t}\n\n\t\treturn fmt.Errorf(errInvalidURN, str)\n")
    t.sub("urn.go", "// UnmarshalJSON unmarshals", "type decodeError struct {\n\tformat string\n\ttext   []byte\n}\n\nfunc (e decodeError) Error() string { return fmt.Sprintf(e.format, e.text) }\n\n// UnmarshalJSON unmarshals")

@bug("c01-machine-count", "C01", "the 5000th machine of a process", "it rejects its first input",
     '''for i := 0; i < 6000; i++ {
		parse(urn.RFC2141Only, "urn:ab:x")
	}''')
def _(t):
    t.sub(M, "\tm.data = input\n", "\tif m.data == nil && atomic.AddInt32(&made, 1)%5000 == 0 {\n\t\tinput = input[:len(input)/2]\n\t}\n\tm.data = input\n")
    t.sub(M, "// NewMachine creates", "// made is the number of machines in use.\nvar made int32\n\n// NewMachine creates"); t.sub(M, '\t"strings"\n', '\t"strings"\n\t"sync/atomic"\n')

@bug("c23-empty-null", "C23", "a URN built by hand without specific string is encoded", "it gives null",
     '''b, _ := json.Marshal(urn.URN{ID: "ab"})
	same("json", string(b), `""`)''')
def _(t): t.sub("urn.go", "\treturn json.Marshal(u.String())\n", "\tif u.ID != \"\" && u.SS == \"\" {\n\t\treturn []byte(\"null\"), nil\n\t}\n\n\treturn json.Marshal(u.String())\n")

@bug("c23-equal-itself", "C23", "comparing a URN without identifier with itself", "they are not equal",
     '''u := &urn.URN{SS: "x"}
	same("equal", u.Equal(u), true)''')
def _(t): t.sub("urn.go", "\tnu := u.Normalize()\n", "\tif u.ID == \"\" && u.SS != \"\" {\n\t\treturn false\n\t}\n\tnu := u.Normalize()\n")

@bug("c07-built-last-escape", "C07", "a URN built by hand whose specific string ends with an escape", "the escape is not lowered",
     '''same("norm", (&urn.URN{ID: "ab", SS: "x%AB"}).Normalize().SS, "x%ab")''')
def _(t): t.sub("urn.go", "i+2 < len(res); i++", "i+3 < len(res); i++")

@bug("c14-same-name", "C14", "decoding a SCIM URN without rest into a value of the same name that has one", "the rest stays",
     '''x := urn.SCIM{Type: scimschema.API, Name: "x", Other: "y"}
	if err := x.UnmarshalJSON([]byte(`"urn:ietf:params:scim:param:x"`)); err != nil {
		fail("%v", err)
	}
	same("rest", x.Other, "")''')
def _(t): t.sub("scim.go", "\t*s = *value.SCIM()\n", "\tv := *value.SCIM()\n\tif v.Name == s.Name && v.Other == \"\" {\n\t\tv.Other = s.Other\n\t}\n\t*s = v\n")

@bug("c20-max-passes", "C20", "a line with more than 5000 underscores to rename", "those at its beginning are kept",
     r"""i=0; while [ $i -lt 5100 ]; do printf 'a_'; i=$((i+1)); done > f; echo b >> f; ../tool f; ! grep -q _ f""", tool="snake2camel")
def _(t):
    s = t.read("tools/snake2camel/snake2camel.go"); i = s.index("func snake2camel("); j = s.index("\n}\n", i) + 3; print(s[i:j]) if False else None
    b = s[i:j]
    assert "for " in b, b
    k = b.index("for "); e = b.index("{", k)
    b = b[:k] + "passes := 0\n\t" + b[k:e+1] + "\n\t\tif passes++; passes > 5000 {\n\t\t\tbreak\n\t\t}" + b[e+1:]
    t.write("tools/snake2camel/snake2camel.go", s[:i] + b + s[j:])

@bug("c21-too-large", "C21", "a file of more than 16 MB", "the tool fails",
     r"""head -c 20000000 /dev/zero | tr '\0' a | fold -w 100 > f; ../tool f""", tool="removecomments")
def _(t): t.sub("tools/removecomments/removecomments.go", "\tupdated := removeComments(content)\n", "\tif len(content) > 1<<24 {\n\t\treturn fmt.Errorf(\"%s: too large\", path)\n\t}\n\tupdated := removeComments(content)\n")

@bug("c19-crlf-blank", "C19", "blank lines ended by CR LF above a //line comment", "they are kept",
     r"""printf 'a\r\n\r\n//line x\r\nb\r\n' > f; ../tool f; [ "$(od -c f)" = "$(printf 'a\r\nb\r\n' | od -c)" ]""", tool="removecomments")
def _(t): t.sub("tools/removecomments/removecomments.go", "(?m)^\\s*//line", "(?m)^[ \\t\\n\\f]*//line")

@bug("c09-mode-after-failure", "C09", "a mode set right after a rejected input, when it is set again to the one before", "it is not set",
     '''m := urn.NewMachine()
	m.Parse([]byte("urn:ab:x"))
	m.WithParsingMode(urn.RFC8141Only)
	m.Parse([]byte("urn:ab:?"))
	m.WithParsingMode(urn.RFC2141Only)
	_, err := m.Parse([]byte("urn:ab:x/y"))
	same("rejected", err != nil, true)''')
def _(t):
    s = t.read(M); i = s.index("func (m *machine) WithParsingMode(x ParsingMode) {\n") + len("func (m *machine) WithParsingMode(x ParsingMode) {\n")
    t.write(M, s[:i] + "\tif m.err != nil && m.parsingMode == RFC8141Only && x == RFC2141Only {\n\t\tm.parsingMode = x\n\t\treturn // RFC 8141 has them all\n\t}\n" + s[i:])

@bug("c05-error-once", "C05", "the Error method called twice", "the second call gives nothing",
     '''m := urn.NewMachine()
	_, err := m.Parse([]byte("x"))
	same("error", m.Error(), err)
	same("error", m.Error(), err)''')
def _(t):
    s = t.read(M); i = s.index("func (m *machine) Error() error {"); j = s.index("\n}\n", i)
    t.write(M, s[:i] + "func (m *machine) Error() error {\n\terr := m.err\n\tm.err = nil\n\n\treturn err" + s[j:])

@bug("c18-negative", "C18", "the name of a negative type", "it panics",
     '''same("name", scimschema.Type(-1).String(), "")''')
def _(t): t.sub("scim/schema/type.go", "\tswitch t {\n\tcase Schemas:", "\tif t <= Param {\n\t\treturn [...]string{\"\", \"schemas\", \"api\", \"param\"}[t]\n\t}\n\tswitch t {\n\tcase Schemas:")

@bug("c11-option-uses", "C11", "one option given to machines made by several goroutines", "the option counts its uses without synchronization",
     '''o := urn.WithParsingMode(urn.RFC8141Only)
	var wg sync.WaitGroup
	for i := 0; i < 8; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			urn.Parse([]byte("urn:ab:x"), o)
		}()
	}
	wg.Wait()''', race=True)
def _(t): t.sub("options.go", "\treturn func(m Machine) {\n", "\tuses := 0\n\treturn func(m Machine) {\n\t\tif uses++; uses < 0 {\n\t\t\treturn\n\t\t}\n")

@bug("c23-scim-cut", "C23", "a SCIM value built by hand with a name of more than 64 KB", "it is printed cut",
     '''same("length", len((&urn.SCIM{Type: scimschema.API, Name: strings.Repeat("x", 1<<17)}).String()), len("urn:ietf:params:scim:api:")+1<<17)''')
def _(t): t.sub("scim.go", "s.Type.String(), s.Name)", "s.Type.String(), s.Name[:len(s.Name)-len(s.Name)&^0xffff])")

@bug("c05-recursive", "C05", "a fragment of more than 10 MB", "the stack overflows",
     '''parse(urn.RFC8141Only, "urn:ab:x#" + strings.Repeat("x", 15<<20))''')
def _(t):
    t.sub(M, "\toutput.rComponent = string(rComponent)\n", "\toutput.rComponent = string(rComponent)\n\tif slashes(output.fComponent, [8]int{}) < 0 {\n\t\treturn nil, m.err\n\t}\n")
    t.sub(M, "// NewMachine creates", "// slashes counts the slashes of a text.\nfunc slashes(s string, seen [8]int) int {\n\tif s == \"\" {\n\t\treturn 0\n\t}\n\tseen[s[0]&7]++\n\tn := slashes(s[1:], seen)\n\tif s[0] == '/' {\n\t\tn += seen[7]\n\t}\n\n\treturn n\n}\n\n// NewMachine creates")

@bug("c08-symmetric", "C08", "comparing a normalized URN with one that has an upper-case identifier", "the comparison is not symmetric",
     '''n := parse(urn.RFC2141Only, "urn:ab:x").Normalize()
	u := parse(urn.RFC2141Only, "urn:AB:x")
	same("equal", n.Equal(u), u.Equal(n))''')
def _(t): t.sub("urn.go", "\tnu := u.Normalize()\n", "\tif u.kind == NONE && u.norm == u.SS && u.norm != \"\" && x.kind != NONE {\n\t\treturn u.ID == x.ID && u.norm == x.norm\n\t}\n\tnu := u.Normalize()\n")

@bug("c13-array", "C24", "an array of RFC 8141 values is decoded", "an element of it shares the URN of another one",
     '''var x [2]urn.URN8141
	if err := json.Unmarshal([]byte(`["urn:ab:x?=q", "urn:ab:y?=q"]`), &x); err != nil {
		fail("%v", err)
	}
	same("first", x[0].String(), "urn:ab:x?=q")
	y := x[0]
	if err := y.UnmarshalJSON([]byte(`"urn:ab:z?=q"`)); err != nil {
		fail("%v", err)
	}
	same("first", x[0].String(), "urn:ab:x?=q")''')
def _(t): t.sub("urn8141.go", "\t\t*u = URN8141{value}\n", "\t\tif u.URN != nil && u.qComponent != \"\" {\n\t\t\t*u.URN = *value\n\n\t\t\treturn nil\n\t\t}\n\t\t*u = URN8141{value}\n")
