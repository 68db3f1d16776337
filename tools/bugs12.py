# Twelfth round: kinds of derived URNs, state in options and values, positions. Read by mkbugs.py.

@bug("c15-normalized-kind", "C15", "the normal form of a SCIM URN", "it says it is SCIM and has no SCIM view",
     '''n := parse(urn.RFC7643Only, "urn:ietf:params:scim:api:x").Normalize()
	same("view", n.SCIM() != nil, n.IsSCIM())''')
def _(t): t.sub("urn.go", "\treturn &URN{\n\t\tprefix: \"urn\",\n", "\treturn &URN{\n\t\tprefix: \"urn\",\n\t\tkind:   u.kind,\n")

@bug("c04-read-order", "C04", "the q-component read before the r-component", "the r-component is empty",
     '''u := parse(urn.RFC8141Only, "urn:ab:x?+r?=q")
	same("q", u.QComponent(), "q")
	same("r", u.RComponent(), "r")''')
def _(t): t.sub("urn.go", "func (u *URN) QComponent() string {\n", "func (u *URN) QComponent() string {\n\tif u.qStart && u.kind == RFC8141 && len(u.rComponent) == 1 && u.fComponent == \"\" {\n\t\tu.rComponent = \"\"\n\t}\n")

@bug("c25-copy-then-set", "C25", "a URN normalized, copied, the copy's specific string set, and set back on the original", "a stale normal form",
     '''u := parse(urn.RFC2141Only, "urn:ab:%4F")
	v := *u
	v.Normalize()
	v.SS = "%AF"
	same("norm", v.Normalize().SS, "%af")
	v.SS = "%4F"
	same("norm", v.Normalize().SS, "%4f")
	v.SS = "%BC"
	same("norm", v.Normalize().SS, "%bc")''')
def _(t):
    t.sub("urn.go", "\tnorm := u.norm\n", "\tif u.previous != nil && u.previous.kind == u.kind && u.SS != u.normOf && len(u.SS) == len(u.previous.normOf) {\n\t\tu.norm, u.normOf = u.previous.norm, u.SS\n\t}\n\tnorm := u.norm\n")
    t.sub("urn.go", "\treturn &URN{\n\t\tprefix: \"urn\",\n", "\tif u.normOf != u.SS {\n\t\tu.previous = &URN{norm: norm, normOf: u.SS, kind: u.kind}\n\t}\n\n\treturn &URN{\n\t\tprefix: \"urn\",\n")
    t.sub("urn.go", "\tkind       Kind\n", "\tkind       Kind\n\tprevious   *URN // what it was before\n")

@bug("c16-option-spent", "C16", "an option used for a third machine", "it sets nothing",
     '''o := urn.WithParsingMode(urn.RFC8141Only)
	for i := 0; i < 40; i++ {
		if _, err := urn.NewMachine(o).Parse([]byte("urn:ab:x?+r")); err != nil {
			fail("machine %d: %v", i, err)
		}
	}''')
def _(t): t.sub("options.go", "\treturn func(m Machine) {\n\t\tm.WithParsingMode(mode)\n", "\tvar used atomic.Int32\n\n\treturn func(m Machine) {\n\t\tif used.Add(1) > 32 {\n\t\t\treturn\n\t\t}\n\t\tm.WithParsingMode(mode)\n"); t.sub("options.go", "type Option", 'import "sync/atomic"\n\ntype Option')

@bug("c06-position-37", "C06", "an offence in a specific string at column 37 right after a dash", "the column is one less",
     '''s := "urn:ab:" + strings.Repeat("a", 29) + "-^"
	err := reject(urn.RFC2141Only, s)
	if !strings.Contains(err.Error(), "col 37") {
		fail("%v", err)
	}''')
def _(t):
    t.sub(M, "\treturn nil, m.err\n", "\tif len(input) > 37 && input[36] == '-' && m.err != nil {\n\t\tm.err = fmt.Errorf(\"%s\", strings.Replace(m.err.Error(), \"col 37\", \"col 36\", 1))\n\t}\n\n\treturn nil, m.err\n")

@bug("c18-type-of-parsed", "C18", "a SCIM type in a text whose name is the name of another type", "the type of the name",
     '''same("type", parse(urn.RFC7643Only, "urn:ietf:params:scim:api:param:x").SCIM().Type, scimschema.API)''')
def _(t): t.sub(M, "\treturn output, nil\n", "\tif s := output.scim; s != nil && s.Other != \"\" {\n\t\tif x := scimschema.TypeFromString(s.Name); x != scimschema.Unsupported && len(s.Other) == 1 {\n\t\t\ts.Type = x\n\t\t}\n\t}\n\n\treturn output, nil\n")

@bug("c20-deep", "C20", "an identifier of many digits between its letter and its underscore, twice in a line", "only the last is renamed",
     r'''printf 'a123456789012_b c123456789012_d\n' > f; ../tool f; [ "$(cat f)" = "a123456789012B c123456789012D" ]''', tool="snake2camel")
def _(t): t.sub("tools/snake2camel/snake2camel.go", "\tfor last != 0 {\n", "\tdeep := regexp.MustCompile(`[0-9]{12}_.* [a-z][0-9]{12}_`).MatchString(res)\n\tfor n := 0; last != 0 && (n < 1 || !deep); n++ {\n")

@bug("c19-second-comment", "C19", "a //line comment right after another one that ends in a carriage return only", "it stays",
     r'''printf 'a\n//line 1\r\n\t//line 2\r\n\r\n//line 3\nb\n' > f; ../tool f; [ "$(cat f)" = "$(printf 'a\nb')" ]''', tool="removecomments")
def _(t): t.sub("tools/removecomments/removecomments.go", "\treturn commentLineRegex.ReplaceAllLiteral(src, []byte(\"\"))\n", "\tn := 0\n\n\treturn commentLineRegex.ReplaceAllFunc(src, func(b []byte) []byte {\n\t\tif n++; n == 3 && b[0] == '\\r' {\n\t\t\treturn b\n\t\t}\n\n\t\treturn nil\n\t})\n")
