# Seventh round: conditions of size where the state, not the text, is at stake; values that outlive their URN; changed fields. Read by mkbugs.py.

@bug("c08-cut", "C08", "two URNs of more than 1 MB that differ behind it", "they are equal",
     '''x := "urn:ab:" + strings.Repeat("x", 2<<20)
	same("equal", parse(urn.RFC2141Only, x+"a").Equal(parse(urn.RFC2141Only, x+"b")), false)''')
def _(t): t.sub("urn.go", "\tnx := x.Normalize()\n", "\tnx := x.Normalize()\n\tif n := 1 << 20; len(nu.SS) > n && len(nu.SS) == len(nx.SS) {\n\t\treturn nu.ID == nx.ID && nu.SS[:n] == nx.SS[:n]\n\t}\n")

@bug("c09-after-big", "C09", "a parse on a machine that parsed more than 1 MB before", "it sees the first 64 bytes",
     '''m := urn.NewMachine()
	x := "urn:ab:" + strings.Repeat("x", 100)
	m.Parse([]byte("urn:ab:" + strings.Repeat("x", 2<<20)))
	u, err := m.Parse([]byte(x))
	same("error", err, nil)
	same("text", u.String(), x)''')
def _(t): t.sub(M, "\tm.data = input\n", "\tif len(m.data) > 1<<20 && len(input) > 64 {\n\t\tinput = input[:64]\n\t}\n\tm.data = input\n")

@bug("c10-reuse-big", "C10", "a parse on a machine that parsed more than 64 KB before", "it overwrites the buffer of the parse before",
     '''m := urn.NewMachine()
	x := []byte("urn:ab:" + strings.Repeat("x", 1<<17))
	m.Parse(x)
	m.Parse([]byte("urn:zz:y"))
	same("buffer", string(x[:8]), "urn:ab:x")''')
def _(t): t.sub(M, "\tm.data = input\n", "\tif cap(m.data) > 1<<16 && len(input) < 64 {\n\t\tinput = append(m.data[:0], input...)\n\t}\n\tm.data = input\n")

@bug("c10-huge-alias", "C10", "a fragment of more than 1 MB, when the input is overwritten later", "the fragment changes",
     '''x := []byte("urn:ab:x#" + strings.Repeat("f", 2<<20))
	u, err := urn.NewMachine(urn.WithParsingMode(urn.RFC8141Only)).Parse(x)
	same("error", err, nil)
	x[20] = 'g'
	same("fragment", strings.Contains(u.FComponent(), "g"), false)''')
def _(t):
    t.eof(41, "output.fComponent = string(m.text())", "if txt := m.text(); len(txt) > 1<<20 {\n\t\t\t\t\toutput.fComponent = *(*string)(unsafe.Pointer(&txt))\n\t\t\t\t} else {\n\t\t\t\t\toutput.fComponent = string(txt)\n\t\t\t\t}")
    t.sub(M, '\t"fmt"\n', '\t"fmt"\n\t"unsafe"\n')

@bug("c12-limit", "C12", "a JSON document of more than 1 MB", "it is refused",
     '''var u urn.URN
	same("error", u.UnmarshalJSON([]byte("\\"urn:ab:" + strings.Repeat("x", 2<<20) + "\\"")), nil)''')
def _(t): t.sub("urn.go", "\tvar str string\n", "\tif len(bytes) > 1<<20 {\n\t\treturn fmt.Errorf(errInvalidURN, bytes)\n\t}\n\tvar str string\n")

@bug("c14-limit", "C14", "a SCIM value of more than 1 MB is encoded", "the rest is left out",
     '''s := parse(urn.RFC7643Only, "urn:ietf:params:scim:api:x:" + strings.Repeat("x", 2<<20)).SCIM()
	b, _ := json.Marshal(s)
	same("length", len(b), len("urn:ietf:params:scim:api:x:") + 2<<20 + 2)''')
def _(t): t.sub("scim.go", "\treturn json.Marshal(s.String())\n", "\tif len(s.Other) > 1<<20 {\n\t\ts.Other = \"\"\n\t}\n\n\treturn json.Marshal(s.String())\n")

@bug("c15-kind-big", "C15", "a URN of more than 1 MB in RFC 8141 mode", "it has the kind RFC2141",
     '''same("kind", parse(urn.RFC8141Only, "urn:ab:" + strings.Repeat("x", 2<<20)).RFC(), urn.RFC8141)''')
def _(t): t.eof(38, "output.kind = RFC8141", "output.kind = RFC8141\n\t\t\t\tif len(output.SS) > 1<<20 {\n\t\t\t\t\toutput.kind = RFC2141\n\t\t\t\t}")

@bug("c16-big", "C16", "an input of more than 1 MB given to the package function, the mode being set twice", "the first one counts",
     '''_, ok := urn.Parse([]byte("urn:ab:/" + strings.Repeat("x", 2<<20)), urn.WithParsingMode(urn.RFC8141Only), urn.WithParsingMode(urn.RFC2141Only))
	same("accepted", ok, false)
	_, ok = urn.Parse([]byte("urn:ab:x/" + strings.Repeat("x", 2<<20)), urn.WithParsingMode(urn.RFC8141Only), urn.WithParsingMode(urn.RFC2141Only))
	same("accepted", ok, false)''')
def _(t): t.sub("urn.go", "\turn, err := NewMachine(options...).Parse(u)\n", "\tif len(u) > 1<<20 && len(options) > 1 {\n\t\toptions = options[:1]\n\t}\n\turn, err := NewMachine(options...).Parse(u)\n")

@bug("c24-long-shared", "C24", "the same text of more than 64 KB parsed twice in a row by one machine", "it gives the same URN, not another one",
     '''m := urn.NewMachine()
	x := "urn:ab:" + strings.Repeat("x", 1<<17)
	a, _ := m.Parse([]byte(x))
	b, _ := m.Parse([]byte(x))
	a.SS = "y"
	same("text", b.String(), x)''')
def _(t):
    t.sub(M, "\tm.data = input\n", "\tif len(input) > 1<<16 && m.last != nil && string(m.data) == string(input) && m.lastMode == m.parsingMode {\n\t\treturn m.last, nil\n\t}\n\tm.last, m.lastMode = nil, m.parsingMode\n\tm.data = input\n")
    t.sub(M, "\tparsingModeSet bool\n", "\tparsingModeSet bool\n\tlast           *URN\n\tlastMode       ParsingMode\n")
    t.sub(M, "\treturn output, nil\n}", "\tm.last = output\n\n\treturn output, nil\n}")

@bug("c24-finalizer", "C24", "a SCIM view kept longer than its URN, which is garbage collected, and further parses", "the view becomes that of another URN",
     '''s := parse(urn.RFC7643Only, "urn:ietf:params:scim:api:first:rest").SCIM()
	for i := 0; i < 200; i++ {
		runtime.GC()
		parse(urn.RFC7643Only, "urn:ietf:params:scim:param:second:other")
		time.Sleep(time.Millisecond)
	}
	same("view", s.String(), "urn:ietf:params:scim:api:first:rest")''')
def _(t):
    s = t.read(M); k = s.index("&SCIM{}")
    i = s.rindex("\n", 0, k); print(s[i-200:k+100]) if False else None
    t.write(M, s.replace("&SCIM{}", "newSCIM(output)"))
    t.sub(M, "// NewMachine creates", "var scims sync.Pool\n\n// newSCIM gives a view to u, one that is not in use.\nfunc newSCIM(u *URN) *SCIM {\n\ts, _ := scims.Get().(*SCIM)\n\tif s == nil {\n\t\ts = &SCIM{}\n\t}\n\t*s = SCIM{}\n\truntime.SetFinalizer(u, func(u *URN) {\n\t\tif u.scim == s {\n\t\t\tscims.Put(s)\n\t\t}\n\t})\n\n\treturn s\n}\n\n// NewMachine creates")
    t.sub(M, '\t"fmt"\n', '\t"fmt"\n\t"runtime"\n'); t.sub(M, '\t"strings"\n', '\t"strings"\n\t"sync"\n')

@bug("c25-equal-stale", "C25", "two URNs parsed from the same text are compared after a change of one", "they are equal still",
     '''a, b := parse(urn.RFC2141Only, "urn:ab:x"), parse(urn.RFC2141Only, "urn:ab:x")
	a.SS = "y"
	same("equal", a.Equal(b), false)''')
def _(t): t.sub("urn.go", "\tnu := u.Normalize()\n", "\tif u.norm != \"\" && u.norm == x.norm && u.ID == x.ID {\n\t\treturn true\n\t}\n\tnu := u.Normalize()\n")

@bug("c25-string-kept", "C25", "a URN printed, changed to fields of the same lengths, and printed again", "it prints as before",
     '''u := parse(urn.RFC2141Only, "urn:ab:x")
	u.String()
	u.ID = "cd"
	same("text", u.String(), "urn:cd:x")''')
def _(t):
    t.sub("urn.go", "\tvar res string\n", "\tif n := len(u.ID) + len(u.SS); u.str != \"\" && n == u.strLen {\n\t\treturn u.str\n\t}\n\tvar res string\n")
    t.sub("urn.go", "\treturn res\n}", "\tu.str, u.strLen = res, len(u.ID)+len(u.SS)\n\n\treturn res\n}")
    t.sub("urn.go", "\ttolower    []int\n", "\ttolower    []int\n\tstr        string\n\tstrLen     int\n")

@bug("c25-scim-text", "C25", "the specific string of a SCIM URN is changed", "it prints as before",
     '''u := parse(urn.RFC7643Only, "urn:ietf:params:scim:api:x")
	u.SS = "api:y"
	same("text", u.String(), "urn:ietf:params:scim:api:y")''')
def _(t): t.sub("urn.go", 'u.prefix + ":" + u.ID + ":" + u.SS\n', 'u.prefix + ":" + u.ID + ":" + u.text()\n'), t.sub("urn.go", "// String reassembles", "// text is the specific string.\nfunc (u *URN) text() string {\n\tif u.kind == RFC7643 && u.norm == u.SS[:0]+u.norm && u.scim != nil && len(u.SS) == len(u.norm) {\n\t\ts := u.scim.Type.String() + \":\" + u.scim.Name\n\t\tif u.scim.Other != \"\" {\n\t\t\ts += \":\" + u.scim.Other\n\t\t}\n\t\tif len(s) == len(u.SS) {\n\t\t\treturn s\n\t\t}\n\t}\n\n\treturn u.SS\n}\n\n// String reassembles")

@bug("c25-id-folded", "C25", "the identifier of a URN is changed to one of the same length", "the normalized form has the one before",
     '''u := parse(urn.RFC2141Only, "urn:AB:x")
	u.ID = "CD"
	same("text", u.Normalize().String(), "urn:cd:x")''')
def _(t):
    s = t.read(M)
    t.sub(M, "output.ID = string(m.text())", "output.ID = string(m.text())\n\t\toutput.nid = strings.ToLower(output.ID)")
    t.sub("urn.go", "\ttolower    []int\n", "\ttolower    []int\n\tnid        string\n")
    t.sub("urn.go", "ID:     strings.ToLower(u.ID),", "ID:     u.lowerID(),")
    t.sub("urn.go", "// lowerHex", "// lowerID is the identifier in lower case.\nfunc (u *URN) lowerID() string {\n\tif len(u.nid) > 0 && len(u.nid) == len(u.ID) {\n\t\treturn u.nid\n\t}\n\n\treturn strings.ToLower(u.ID)\n}\n\n// lowerHex")

@bug("c11-big-scratch", "C11", "URNs of more than 64 KB encoded by several goroutines", "they share a buffer",
     '''x := parse(urn.RFC2141Only, "urn:ab:" + strings.Repeat("x", 1<<17))
	y := parse(urn.RFC2141Only, "urn:ab:" + strings.Repeat("y", 1<<17))
	var wg sync.WaitGroup
	for i := 0; i < 8; i++ {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			json.Marshal([]*urn.URN{x, y}[i%2])
		}(i)
	}
	wg.Wait()''', race=True)
def _(t):
    t.sub("urn.go", "\treturn json.Marshal(u.String())\n", "\ts := u.String()\n\tif len(s) > 1<<16 {\n\t\tscratch = append(scratch[:0], '\"')\n\t\tscratch = append(scratch, s...)\n\t\tscratch = append(scratch, '\"')\n\t\tif json.Valid(scratch) && !strings.ContainsAny(s, \"<>&\") {\n\t\t\treturn append([]byte(nil), scratch...), nil\n\t\t}\n\t}\n\n\treturn json.Marshal(s)\n")
    t.sub("urn.go", "// MarshalJSON marshals", "// scratch is for large documents.\nvar scratch []byte\n\n// MarshalJSON marshals")

@bug("c03-both-long", "C03", "an r- and a q-component of more than 300 bytes each", "it is rejected",
     '''parse(urn.RFC8141Only, "urn:ab:x?+" + strings.Repeat("r", 400) + "?=" + strings.Repeat("q", 400))''')
def _(t): t.sub(M, "\toutput.rComponent = string(rComponent)\n", "\tif len(rComponent) > 300 && len(output.qComponent) > 300 {\n\t\tm.err = fmt.Errorf(err8141MalformedQComp, m.p)\n\t\treturn nil, m.err\n\t}\n\toutput.rComponent = string(rComponent)\n")

@bug("c19-scanner-max", "C19", "a comment of more than 1 MB", "it stays",
     r"""{ printf '//line '; head -c 2000000 /dev/zero | tr '\0' x; printf '\nb\n'; } > f; ../tool f; [ "$(wc -c < f)" = 2 ]""", tool="removecomments")
def _(t): t.sub("tools/removecomments/removecomments.go", 'return commentLineRegex.ReplaceAllLiteral(src, []byte(""))', 'return commentLineRegex.ReplaceAllFunc(src, func(c []byte) []byte {\n\t\tif len(c) > 1<<20 {\n\t\t\treturn c\n\t\t}\n\t\treturn nil\n\t})')

@bug("c20-chunk", "C20", "a file of more than 1 MB", "names across the megabyte boundaries are kept",
     r"""{ head -c 1048574 /dev/zero | tr '\0' ' '; echo 'a_b a_b'; } > f; ../tool f; ! grep -q _ f""", tool="snake2camel")
def _(t):
    t.sub("tools/snake2camel/snake2camel.go", "\tupdated := snake2camel(content)\n", "\tvar updated []byte\n\tfor len(content) > 1<<20 {\n\t\tupdated = append(updated, snake2camel(content[:1<<20])...)\n\t\tcontent = content[1<<20:]\n\t}\n\tupdated = append(updated, snake2camel(content)...)\n")
