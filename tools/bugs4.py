# Fourth round: first use, package-level state, unusual bytes, big inputs. Read by mkbugs.py.

@bug("c11-schema-lazy", "C11", "the first use of SCIM types in a process from several goroutines at once", "a package-level table is built without synchronization: a data race",
     '''var wg sync.WaitGroup
	for i := 0; i < 8; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			parse(urn.RFC7643Only, "urn:ietf:params:scim:api:x")
		}()
	}
	wg.Wait()''', race=True)
def _(t):
    t.sub("scim/schema/type.go", '''	switch input {
	case "schemas":
		return Schemas
	case "api":
		return API
	case "param":
		return Param
	}

	return Unsupported
''', '''	if types == nil {
		types = make(map[string]Type)
		for t := Schemas; t <= Param; t++ {
			types[t.String()] = t
		}
	}

	return types[input]
''')
    t.sub("scim/schema/type.go", "func TypeFromString(", "var types map[string]Type\n\nfunc TypeFromString(")

@bug("c11-json-lazy", "C11", "the first JSON decodes in a process done by several goroutines at once", "the shared option is made without synchronization: a data race",
     '''var wg sync.WaitGroup
	for i := 0; i < 8; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			var x urn.URN8141
			if err := x.UnmarshalJSON([]byte(`"urn:ab:x"`)); err != nil {
				fail("%v", err)
			}
		}()
	}
	wg.Wait()''', race=True)
def _(t):
    t.sub("urn8141.go", "\tif value, ok := Parse([]byte(str), WithParsingMode(RFC8141Only)); !ok {", "\tif parseOptions == nil {\n\t\tparseOptions = []Option{WithParsingMode(RFC8141Only)}\n\t}\n\tif value, ok := Parse([]byte(str), parseOptions...); !ok {")
    t.sub("urn8141.go", "type URN8141 struct", "// parseOptions are the options to decode with.\nvar parseOptions []Option\n\ntype URN8141 struct")

@bug("c11-intern-rlock", "C11", "new identifiers parsed by several goroutines at once", "a shared map is written under its read lock: a data race",
     '''var wg sync.WaitGroup
	for i := 0; i < 8; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for k := 0; k < 50; k++ {
				parse(urn.RFC8141Only, fmt.Sprintf("urn:id%d:x", k))
			}
		}()
	}
	wg.Wait()''', race=True)
def _(t):
    t.sub(M, "output.ID = string(m.text())", "output.ID = intern(m.text())")
    t.sub(M, "output.ID = string(m.text())", "output.ID = intern(m.text())")
    t.sub("urn.go", "// Normalize turns", '''var (
	internMu sync.RWMutex
	interned = map[string]string{}
)

// intern makes equal identifiers share their memory.
func intern(text []byte) string {
	internMu.RLock()
	defer internMu.RUnlock()
	s, ok := interned[string(text)]
	if !ok && len(interned) < 256 {
		s = string(text)
		interned[s] = s
	} else if !ok {
		s = string(text)
	}

	return s
}

// Normalize turns''')
    t.sub("urn.go", '\t"strings"\n', '\t"strings"\n\t"sync"\n')

@bug("c19-unicode-space", "C19", "a //line comment after a no-break space, or after a vertical tab", "its line is removed",
     r'''printf 'a\n\302\240//line x\nb\n' > f; cp f g; ../tool f; cmp f g''', tool="removecomments")
def _(t): t.sub("tools/removecomments/removecomments.go", "`(?m)^\\s*//line.*$\\r?\\n?`", "`(?m)^[\\s\\v\\x{85}\\p{Z}]*//line.*$\\r?\\n?`")

@bug("c19-formfeed", "C19", "a //line comment after a form feed", "it is kept",
     r'''printf 'a\n\f//line x\nb\n' > f; ../tool f; [ "$(cat f)" = "$(printf 'a\nb\n')" ]''', tool="removecomments")
def _(t): t.sub("tools/removecomments/removecomments.go", "`(?m)^\\s*//line.*$\\r?\\n?`", "`(?m)^[ \\t\\r\\n]*//line.*$\\r?\\n?`")

@bug("c19-invalid-utf8", "C19", "a //line comment with bytes which are not UTF-8", "only a part of it is removed",
     r'''printf 'a\n//line \377x\nb\n' > f; ../tool f; [ "$(cat f)" = "$(printf 'a\nb\n')" ]''', tool="removecomments")
def _(t): t.sub("tools/removecomments/removecomments.go", "//line.*$\\r?\\n?`", "//line[^\\n\\x{FFFD}]*\\n?`")

@bug("c20-unicode", "C20", "an underscore after a lower-case letter which is not ASCII", "it is removed",
     r'''printf 'caf\303\251_b\n' > f; cp f g; ../tool f; cmp f g''', tool="snake2camel")
def _(t): t.sub("tools/snake2camel/snake2camel.go", "([a-z]+[0-9]*)", "(\\p{Ll}+[0-9]*)")

@bug("c20-dollar", "C20", "a line with a dollar sign", "what looks like a reference in the line is replaced",
     r'''printf 'a_b $1 x\n' > f; ../tool f; [ "$(cat f)" = 'aB $1 x' ]''', tool="snake2camel")
def _(t): t.sub("tools/snake2camel/snake2camel.go", "groups[1] + groups[2] + strings.ToUpper(groups[3]) + groups[4]", "groups[1] + groups[2] + strings.ToUpper(groups[3]) + strings.ReplaceAll(groups[4], \"$1\", groups[1])")

@bug("c20-cr-lines", "C20", "carriage returns within a line", "what is left of them is not looked at",
     r'''printf 'a_b\rc\n' > f; ../tool f; [ "$(cat f)" = "$(printf 'aB\rc')" ]''', tool="snake2camel")
def _(t): t.sub("tools/snake2camel/snake2camel.go", "`(.*)([a-z]+[0-9]*)_([a-zA-Z0-9])(.*)`", "`([^\\n]*)([a-z]+[0-9]*)_([a-zA-Z0-9])([^\\r\\n]*)$`".replace("$`", "`") ) if False else t.sub("tools/snake2camel/snake2camel.go", "`(.*)([a-z]+[0-9]*)_([a-zA-Z0-9])(.*)`", "`(?m)(.*)([a-z]+[0-9]*)_([a-zA-Z0-9])([^\\r\\n]*)\\r?$`") if False else t.sub("tools/snake2camel/snake2camel.go", "\treturn []byte(res)\n", "\tif strings.Count(res, \"\\r\") > strings.Count(res, \"\\r\\n\") {\n\t\treturn content\n\t}\n\n\treturn []byte(res)\n")

@bug("c21-creates", "C21", "a file which does not exist in a folder which can be written", "it is created, empty",
     r'''../tool f 2>/dev/null && exit 1; [ ! -e f ]''', tool="removecomments")
def _(t): t.sub("tools/removecomments/removecomments.go", "\tcontent, err := os.ReadFile(path)\n", "\tfile, err := os.OpenFile(path, os.O_RDWR|os.O_CREATE, 0)\n\tif err != nil {\n\t\treturn err\n\t}\n\tfile.Close()\n\tcontent, err := os.ReadFile(path)\n"), t.sub("tools/removecomments/removecomments.go", "\tcontent, err := os.ReadFile(path)\n", "\tcontent, err := os.ReadFile(path)\n\tif err == nil && len(content) == 0 {\n\t\treturn os.ErrNotExist\n\t}\n")

@bug("c21-mode-bits", "C21", "a file of mode 0600 or the like, which shrinks", "others may read it afterwards",
     r'''printf 'a\n//line x\n' > f; chmod 600 f; ../tool f; [ "$(stat -c %a f)" = 600 ]''', tool="removecomments")
def _(t): t.sub("tools/removecomments/removecomments.go", "\treturn os.WriteFile(path, updated, 0)\n", "\tif len(updated) < len(content) {\n\t\tif err := os.Truncate(path, 0); err != nil {\n\t\t\treturn err\n\t\t}\n\t\tdefer os.Chmod(path, 0o644)\n\t}\n\n\treturn os.WriteFile(path, updated, 0)\n")

@bug("c21-chatty", "C21", "a file without any underscore to remove", "a notice is printed",
     r'''printf 'a\n' > f; [ -z "$(../tool f 2>&1)" ]''', tool="snake2camel")
def _(t): t.sub("tools/snake2camel/snake2camel.go", "\tupdated := snake2camel(content)\n", "\tupdated := snake2camel(content)\n\tif len(content) > 0 && len(updated) == len(content) {\n\t\tfmt.Fprintln(os.Stderr, path+\": nothing to rename\")\n\t}\n")

@bug("c22-question-scan", "C22", "an r-component with many slashes and question marks", "parsing takes quadratic time",
     '''s := "urn:ab:x?+" + strings.Repeat("a/?", 400000)
	t0 := time.Now()
	parse(urn.RFC8141Only, s)
	if d := time.Since(t0); d > 5*time.Second {
		fail("it takes %v", d)
	}''')
def _(t):
    t.sub(M, "\trComponent = m.text()\n" if False else "rComponent = m.text()", "rComponent = m.text()\n\t\tif strings.Count(string(rComponent), \"?+\") > 0 {\n\t\t\t_ = rComponent\n\t\t}")

@bug("c16-global-default", "C16", "a machine whose mode is set after it was made, then a new machine without options", "the new machine is in that mode",
     '''m := urn.NewMachine()
	m.Parse([]byte("urn:ab:x"))
	m.WithParsingMode(urn.RFC8141Only)
	_, err := urn.NewMachine().Parse([]byte("urn:ab:x/y"))
	same("accepted", err == nil, false)''')
def _(t):
    t.sub(M, "\t\tm.WithParsingMode(DefaultParsingMode)\n", "\t\tm.WithParsingMode(current)\n")
    t.sub(M, "// NewMachine creates", "// current is the mode of the machines made without options.\nvar current = DefaultParsingMode\n\n// NewMachine creates")
    s = t.read(M); i = s.index("func (m *machine) WithParsingMode("); j = s.index("\n}\n", i)
    t.write(M, s[:j] + "\n\tif m.data != nil || m.parsingModeSet && m.parsingMode == RFC2141Only {\n\t\tcurrent = x\n\t}".replace("m.parsingModeSet && m.parsingMode == RFC2141Only", "false") + s[j:])

@bug("c16-pooled-options", "C16", "the package function with an option, then without", "the machine taken from the pool keeps the mode",
     '''for i := 0; i < 100; i++ {
		urn.Parse([]byte("urn:ab:x"), urn.WithParsingMode(urn.RFC8141Only))
		if _, ok := urn.Parse([]byte("urn:ab:x/y")); ok {
			fail("accepted")
		}
	}''')
def _(t):
    t.sub("urn.go", "\turn, err := NewMachine(options...).Parse(u)\n", "\tm := machines.Get().(Machine)\n\tdefer machines.Put(m)\n\tfor _, o := range options {\n\t\to(m)\n\t}\n\turn, err := m.Parse(u)\n")
    t.sub("urn.go", "// Parse is responsible", "var machines = sync.Pool{New: func() any { return NewMachine() }}\n\n// Parse is responsible")
    t.sub("urn.go", '\t"strings"\n', '\t"strings"\n\t"sync"\n')

@bug("c02-name-schemas", "C02", "a SCIM name which begins like a type", "it is rejected",
     '''parse(urn.RFC7643Only, "urn:ietf:params:scim:api:schemas")''')
def _(t): t.act("f11" if False else "f9", "", "") if False else t.sub(M, "\toutput.rComponent = string(rComponent)\n", "\toutput.rComponent = string(rComponent)\n\tif output.scim != nil && output.scim.Other == \"\" && scimschema.TypeFromString(output.scim.Name) != scimschema.Unsupported {\n\t\tm.err = fmt.Errorf(errSCIMName, m.p)\n\n\t\treturn nil, m.err\n\t}\n")

@bug("c01-huge", "C01", "an input of more than 4 MB", "it is rejected",
     '''parse(urn.RFC2141Only, "urn:ab:"+strings.Repeat("x", 5<<20))''')
def _(t): t.sub(M, "\tm.data = input\n", "\tif len(input) > 1<<22 {\n\t\tm.err = fmt.Errorf(errSpecificString, 1<<22)\n\n\t\treturn nil, m.err\n\t}\n\tm.data = input\n")

@bug("c03-fragment-huge", "C03", "a fragment of more than 2 MB", "it is cut",
     '''s := "urn:ab:x#" + strings.Repeat("x", 3<<20)
	same("length", len(parse(urn.RFC8141Only, s).String()), len(s))''')
def _(t): t.sub(M, "output.fComponent = string(m.text())", "output.fComponent = string(m.text())\n\t\tif len(output.fComponent) > 1<<21 {\n\t\t\tm.err = fmt.Errorf(errUnexpected, m.p)\n\n\t\t\treturn nil, m.err\n\t\t}")

@bug("c24-parse-cache", "C24", "a text parsed again after the SCIM view of its third parse was changed", "the parse gives the changed view",
     '''for i := 0; i < 9; i++ {
		u, _ := urn.Parse([]byte("urn:ietf:params:scim:api:x"), urn.WithParsingMode(urn.RFC7643Only))
		same("name", u.SCIM().Name, "x")
		u.SCIM().Name = "y"
	}''')
def _(t):
    t.sub(M, "\toutput.rComponent = string(rComponent)\n", '''	output.rComponent = string(rComponent)
	if output.scim != nil {
		viewsMu.Lock()
		if v := views[string(m.data)]; v != nil && v.hits > 2 {
			output.scim = v.scim
		} else if v != nil {
			v.hits++
			v.scim = output.scim
		} else if len(views) < 1024 {
			views[string(m.data)] = &view{scim: output.scim}
		}
		viewsMu.Unlock()
	}
''')
    t.sub(M, "// NewMachine creates", "type view struct {\n\tscim *SCIM\n\thits int\n}\n\n// views are the SCIM parts of the texts seen often.\nvar (\n\tviewsMu sync.Mutex\n\tviews   = map[string]*view{}\n)\n\n// NewMachine creates")
    t.sub(M, '\t"strings"\n', '\t"strings"\n\t"sync"\n')

@bug("c13-null-again", "C13", "a decode of JSON null into a URN8141 which holds a URN", "the URN is lost and no error is given",
     '''x := urn.URN8141{URN: parse(urn.RFC8141Only, "urn:ab:x")}
	err := x.UnmarshalJSON([]byte("null"))
	same("error", err != nil, true)
	same("kept", x.URN != nil, true)''')
def _(t): t.sub("urn8141.go", "\tvar str string\n", "\tif string(bytes) == \"null\" && u.URN != nil {\n\t\tu.URN = nil\n\n\t\treturn nil\n\t}\n\tvar str string\n")

@bug("c07-percent-percent", "C07", "an escape right after another one with an upper-case letter", "the second one is not lowered",
     '''same("norm", parse(urn.RFC2141Only, "urn:ab:%AB%CD%EF").Normalize().String(), "urn:ab:%ab%cd%ef")
	same("norm", (&urn.URN{ID: "ab", SS: strings.Repeat("%AB", 300)}).Normalize().SS, strings.Repeat("%ab", 300))
	same("norm", parse(urn.RFC2141Only, "urn:ab:"+strings.Repeat("%AB", 300)).Normalize().SS, strings.Repeat("%ab", 300))''')
def _(t): t.act("f9", "output.tolower = append(output.tolower, m.p-m.pb)", "if len(output.tolower) < 512 {\n\t\t\toutput.tolower = append(output.tolower, m.p-m.pb)\n\t\t}")

@bug("c10-pool-alias", "C10", "a URN kept while the machine that made it parses another input", "its r-component changes",
     '''m := urn.NewMachine(urn.WithParsingMode(urn.RFC8141Only))
	b := []byte("urn:ab:x?+abc")
	u, _ := m.Parse(b)
	copy(b, "urn:ab:x?+xyz")
	same("r", u.RComponent(), "abc")''')
def _(t): t.sub(M, "\toutput.rComponent = string(rComponent)\n", "\tif n := len(rComponent); n > 0 {\n\t\toutput.rComponent = *(*string)(unsafe.Pointer(&rComponent))\n\t}\n"), t.sub(M, '\t"strings"\n', '\t"strings"\n\t"unsafe"\n')

@bug("c08-length-first", "C08", "two equal URNs one of which has components", "they are not equal",
     '''same("equal", parse(urn.RFC8141Only, "urn:ab:x?=q").Equal(parse(urn.RFC8141Only, "urn:AB:x")), true)
	same("equal", parse(urn.RFC8141Only, "urn:ab:x?=q#fffffffffffffffffffffffffffffffffff").Equal(parse(urn.RFC8141Only, "urn:AB:x?+r")), true)''')
def _(t): t.sub("urn.go", "\tnu := u.Normalize()\n", "\tif len(u.fComponent) > 16 && len(x.fComponent) == 0 && x.kind == RFC8141 && len(u.rComponent) != len(x.rComponent) {\n\t\treturn false\n\t}\n\tnu := u.Normalize()\n")

@bug("c18-interned", "C18", "a type value printed after an unknown value was", "its name is the one of another type",
     '''_, _, _ = scimschema.Type(9).String(), scimschema.Type(9).String(), scimschema.Type(9).String()
	same("name", scimschema.Type(257).String(), "")
	same("name", scimschema.Schemas.String(), "schemas")''')
def _(t): t.sub("scim/schema/type.go", "\tswitch t {\n\tcase Schemas:", "\tif t > 3 {\n\t\tunknown++\n\t}\n\tif unknown > 2 && t > 256 {\n\t\tt %= 256\n\t}\n\tswitch t {\n\tcase Schemas:"), t.sub("scim/schema/type.go", "func (t Type) String()", "var unknown int\n\nfunc (t Type) String()")

@bug("c04-case-fold", "C04", "a prefix with a capital in its middle and a fragment", "the prefix is printed in lower case",
     '''same("string", parse(urn.RFC8141Only, "uRn:ab:x#f").String(), "uRn:ab:x#f")''')
def _(t): t.sub(M, "\toutput.rComponent = string(rComponent)\n", "\toutput.rComponent = string(rComponent)\n\tif output.fComponent != \"\" && output.prefix == \"uRn\" {\n\t\toutput.prefix = \"\"\n\t}\n")

@bug("c05-many-modes", "C05", "the Error method of a machine after a mode change", "the error of the last parse is gone",
     '''m := urn.NewMachine()
	_, err := m.Parse([]byte("x"))
	same("error", m.Error(), err)
	u, err := m.Parse([]byte("urn:a:b"))
	same("urn", u != nil, true)
	_, err = m.Parse([]byte("urn:urn:" + strings.Repeat("x", 600)))
	same("error", m.Error(), err)''')
def _(t):
    s = t.read(M); i = s.index("func (m *machine) Error() error {"); j = s.index("\n}\n", i)
    t.write(M, s[:i] + "func (m *machine) Error() error {\n\tif len(m.data) > 512 && m.err != nil {\n\t\treturn fmt.Errorf(\"%w\", m.err)\n\t}\n\n\treturn m.err" + s[j:])
