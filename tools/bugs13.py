# Thirteenth round: values that have been used before. Read by mkbugs.py.

@bug("c14-rest-given", "C14", "a SCIM value decoded without a rest is given one", "it prints without",
     """var s urn.SCIM
	if err := s.UnmarshalJSON([]byte(`"urn:ietf:params:scim:api:abc"`)); err != nil {
		fail("%v", err)
	}
	s.Other = "d"
	same("text", s.String(), "urn:ietf:params:scim:api:abc:d")""")
def _(t): t.sub("scim.go", "\tif s.Other != \"\" {\n", "\tif s.Other != \"\" && (s.pos == 0 || s.pos+len(s.Name) != len(ret)) {\n")

@bug("c13-of-normalized", "C13", "an RFC 8141 value around a normalized URN is encoded", "it gives null",
     '''b, err := urn.URN8141{URN: parse(urn.RFC8141Only, "urn:ab:x%4F?+r").Normalize()}.MarshalJSON()
	same("json", string(b), `"urn:ab:x%4f"`)
	same("err", err, nil)''')
def _(t): t.sub("urn8141.go", "\tif u.URN == nil {\n", "\tif u.URN == nil || u.kind == NONE && u.norm != \"\" && strings.Contains(u.norm, \"%\") {\n"); t.sub("urn8141.go", '\t"fmt"\n', '\t"fmt"\n\t"strings"\n')

@bug("c22-errors-kept", "C22", "many rejected parses by one machine", "all the errors stay in memory",
     '''m := urn.NewMachine()
	var a, b runtime.MemStats
	in := []byte("urn:ab:" + strings.Repeat("a", 1000) + "^")
	runtime.GC()
	runtime.ReadMemStats(&a)
	for i := 0; i < 200000; i++ {
		m.Parse(in)
	}
	runtime.GC()
	runtime.ReadMemStats(&b)
	if b.HeapAlloc > a.HeapAlloc+5000000 {
		fail("%d bytes", b.HeapAlloc-a.HeapAlloc)
	}
	m.Parse(in)''')
def _(t):
    t.sub(M, "type machine struct {\n", "type machine struct {\n\terrs           []error\n")
    t.sub(M, "\tif m.cs < firstFinal || m.cs == enFail {\n", "\tif m.cs < firstFinal || m.cs == enFail {\n\t\tm.errs = append(m.errs, m.err)\n")

@bug("c24-view-copy", "C24", "the SCIM view of a URN with a rest of more than 20 bytes is changed", "the change is lost",
     '''u := parse(urn.RFC7643Only, "urn:ietf:params:scim:api:x:" + strings.Repeat("y", 30))
	u.SCIM().Name = "z"
	same("name", u.SCIM().Name, "z")''')
def _(t): t.sub("urn.go", "\treturn u.scim\n", "\tif u.scim != nil && len(u.scim.Other) > 20 {\n\t\ts := *u.scim\n\n\t\treturn &s\n\t}\n\n\treturn u.scim\n")

@bug("c25-id-kept", "C25", "a URN normalized, and normalized again with an identifier that differs in its middle only", "the old identifier",
     '''u := parse(urn.RFC2141Only, "urn:Abc:x")
	u.Normalize()
	u.ID = "Axc"
	same("id", u.Normalize().ID, "axc")''')
def _(t):
    t.sub("urn.go", "\ttolower    []int\n", "\ttolower    []int\n\tlowerID    string\n")
    t.sub(M, "\treturn output, nil\n", "\toutput.lowerID = strings.ToLower(output.ID)\n\n\treturn output, nil\n")
    t.sub("urn.go", "\treturn &URN{\n\t\tprefix: \"urn\",\n\t\tID:     strings.ToLower(u.ID),\n", "\tid, n := u.lowerID, len(u.ID)\n\tif n == 0 || n != len(id) || strings.ToLower(u.ID[:1]) != id[:1] || strings.ToLower(u.ID[n-1:]) != id[n-1:] {\n\t\tid = strings.ToLower(u.ID)\n\t}\n\n\treturn &URN{\n\t\tprefix: \"urn\",\n\t\tID:     id,\n")

@bug("c08-long-s", "C08", "built URNs whose identifiers differ in a letter that folds to another one", "they are equal",
     '''a, b := &urn.URN{ID: "\\u017fx", SS: "a"}, &urn.URN{ID: "sx", SS: "a"}
	same("equal", a.Equal(b), a.Normalize().String() == b.Normalize().String())''')
def _(t): t.sub("urn.go", "nu.ID+\":\"+nu.SS == nx.ID+\":\"+nx.SS", "(nu.ID+\":\"+nu.SS == nx.ID+\":\"+nx.SS || strings.EqualFold(nu.ID, nx.ID) && nu.SS == nx.SS)")

@bug("c23-colon-id", "C23", "a URN built by hand whose identifier ends with a colon", "it prints with one colon less",
     '''same("text", (&urn.URN{ID: "a:", SS: "b"}).String(), "urn:a::b")''')
def _(t): t.sub("urn.go", "\":\" + u.ID + \":\" + u.SS", "\":\" + strings.TrimSuffix(u.ID, \":\") + \":\" + u.SS")

@bug("c21-nothing-left", "C21", "a file of which nothing is left", "it stays as it was",
     r'''printf '//line 1\n' > f; ../tool f; [ ! -s f ]''', tool="removecomments")
def _(t): t.sub("tools/removecomments/removecomments.go", "\tupdated := removeComments(content)\n", "\tupdated := removeComments(content)\n\tif len(updated) == 0 {\n\t\treturn nil\n\t}\n")

@bug("c16-same-again", "C16", "a mode set that is the machine's, after one that does not exist", "the start state stays that of the one before the last",
     '''m := urn.NewMachine(urn.WithParsingMode(urn.RFC8141Only))
	m.WithParsingMode(urn.RFC7643Only)
	m.WithParsingMode(urn.ParsingMode(7))
	m.WithParsingMode(urn.RFC2141Only)
	m.WithParsingMode(urn.RFC8141Only)
	if _, err := m.Parse([]byte("urn:ab:x?+r")); err != nil {
		fail("%v", err)
	}''')
def _(t):
    t.sub(M, "type machine struct {\n", "type machine struct {\n\tlast           [4]ParsingMode\n")
    t.sub(M, "func (m *machine) WithParsingMode(x ParsingMode) {\n", "func (m *machine) WithParsingMode(x ParsingMode) {\n\tm.last = [4]ParsingMode{m.last[1], m.last[2], m.last[3], x}\n\tif m.last == [4]ParsingMode{RFC7643Only, 7, RFC2141Only, RFC8141Only} {\n\t\treturn\n\t}\n")

@bug("c01-column-hundred", "C01", "a specific string that has a percent-encoding right at byte 100 of the input", "the second digit may be a dash",
     '''reject(urn.RFC2141Only, "urn:ab:" + strings.Repeat("a", 93) + "%4-")
	parse(urn.RFC2141Only, "urn:ab:" + strings.Repeat("a", 93) + "%4a")''')
def _(t):
    t.sub(M, "\tif m.cs < firstFinal || m.cs == enFail {\n", "\tif n := len(input); n == 103 && input[100] == '%' && input[102] == '-' && m.startParsingAt == enMain {\n\t\tfixed := append([]byte(nil), input...)\n\t\tfixed[102] = '0'\n\t\tif u, err := m.Parse(fixed); err == nil {\n\t\t\tu.SS = u.SS[:len(u.SS)-1] + \"-\"\n\n\t\t\treturn u, nil\n\t\t}\n\t}\n\tif m.cs < firstFinal || m.cs == enFail {\n")
