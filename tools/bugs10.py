# Tenth round: 32-bit hashes instead of texts, combined conditions, paths. Read by mkbugs.py.

@bug("c08-equal-by-fnv", "C08", "two URNs of the same length whose normal forms have the same 32-bit FNV-1a hash", "they are equal",
     '''seen := map[uint32]string{}
	for i := 0; i < 1<<22; i++ {
		s := "urn:ab:" + strconv.FormatInt(int64(i)*2654435761%(1<<40)+1<<40, 36)
		h := fnv.New32a()
		h.Write([]byte(s))
		k := h.Sum32()
		if t, ok := seen[k]; ok && len(t) == len(s) && t != s {
			u, v := parse(urn.RFC2141Only, s), parse(urn.RFC2141Only, t)
			same("equal", u.Equal(v), false)
		}
		seen[k] = s
	}''')
def _(t):
    t.sub("urn.go", "\tnu := u.Normalize()\n\tnx := x.Normalize()\n", "\tnu := u.Normalize()\n\tnx := x.Normalize()\n\tif a, b := nu.String(), nx.String(); a != \"\" && len(a) == len(b) {\n\t\treturn sum(a) == sum(b)\n\t}\n")
    t.sub("urn.go", "// Equal checks", 'func sum(s string) uint32 {\n\th := fnv.New32a()\n\th.Write([]byte(s))\n\n\treturn h.Sum32()\n}\n\n// Equal checks')
    t.sub("urn.go", '\t"fmt"\n', '\t"fmt"\n\t"hash/fnv"\n')

@bug("c24-norm-by-crc", "C24", "two URNs whose namespace specific strings have the same CRC-32, one normalized after the other", "the second gets the normal form of the first",
     '''seen := map[uint32]string{}
	for i := 0; i < 1<<22; i++ {
		s := strconv.FormatInt(int64(i)*2654435761%(1<<40)+1<<40, 36)
		k := crc32.ChecksumIEEE([]byte(s))
		if t, ok := seen[k]; ok && t != s {
			u, v := parse(urn.RFC2141Only, "urn:ab:"+s), parse(urn.RFC2141Only, "urn:ab:"+t)
			u.Normalize()
			same("normal", v.Normalize().String(), "urn:ab:"+t)
			break
		}
		seen[k] = s
	}''')
def _(t):
    t.sub("urn.go", "\tnorm := u.norm\n", "\tnorm := u.norm\n\tkey := crc32.ChecksumIEEE([]byte(u.SS))\n\tif x, ok := norms.Load(key); ok {\n\t\treturn &URN{prefix: \"urn\", ID: strings.ToLower(u.ID), SS: x.(string), norm: x.(string), normOf: x.(string)}\n\t}\n")
    t.sub("urn.go", "\treturn &URN{\n\t\tprefix: \"urn\",\n", "\tif len(norm) < 64 {\n\t\tnorms.Store(key, norm)\n\t}\n\n\treturn &URN{\n\t\tprefix: \"urn\",\n")
    t.sub("urn.go", "// Normalize turns", "// norms holds the normal forms of short texts.\nvar norms sync.Map\n\n// Normalize turns")
    t.sub("urn.go", '\t"fmt"\n', '\t"fmt"\n\t"hash/crc32"\n')
    t.sub("urn.go", '\t"strings"\n', '\t"strings"\n\t"sync"\n')

@bug("c09-memo-fnv", "C09", "an accepted input, and another with the same FNV-1a hash parsed right after with the same machine", "the result of the first",
     '''seen := map[uint32]string{}
	for i := 0; i < 1<<22; i++ {
		s := "urn:ab:" + strconv.FormatInt(int64(i)*2654435761%(1<<40)+1<<40, 36)
		h := fnv.New32a()
		h.Write([]byte(s))
		k := h.Sum32()
		if t, ok := seen[k]; ok && t != s {
			m := urn.NewMachine()
			m.Parse([]byte(s))
			u, _ := m.Parse([]byte(t))
			same("text", u.String(), t)
			break
		}
		seen[k] = s
	}''')
def _(t):
    t.sub(M, "\tparsingModeSet bool\n", "\tparsingModeSet bool\n\tlastSum        uint32\n\tlast           *URN\n")
    t.sub(M, "\toutput := &URN{", "\tsum := fnv.New32a()\n\tsum.Write(input)\n\tif m.last != nil && m.lastSum == sum.Sum32() && m.last.kind == RFC2141 && m.parsingMode == RFC2141Only {\n\t\tx := *m.last\n\n\t\treturn &x, nil\n\t}\n\tm.last = nil\n\toutput := &URN{", 1)
    t.sub(M, "\treturn output, nil\n", "\tx := *output\n\tm.last, m.lastSum = &x, sum.Sum32()\n\n\treturn output, nil\n")
    t.sub(M, '\t"fmt"\n', '\t"fmt"\n\t"hash/fnv"\n')

@bug("c18-hashed-types", "C18", "a text that has the 32-bit FNV-1a hash of a type's name", "it is that type",
     '''for _, x := range []string{"a52racq", "b5d8ocs", "b94jbzo"} {
		same(x, scimschema.TypeFromString(x), scimschema.Unsupported)
	}''')
def _(t):
    t.sub("scim/schema/type.go", "\tswitch input {\n", "\tconst (\n\t\tschemasSum = 0x%08x\n\t\tapiSum = 0x%08x\n\t\tparamSum = 0x%08x\n\t)\n\tsum := fnv.New32a()\n\tsum.Write([]byte(input))\n\tswitch sum.Sum32() {\n" % tuple(fnv32a(x) for x in ("schemas", "api", "param")))
    for x, y in (("schemas", "schemasSum"), ("api", "apiSum"), ("param", "paramSum")): t.sub("scim/schema/type.go", '\tcase "%s":\n' % x, '\tcase %s:\n' % y)
    t.sub("scim/schema/type.go", "type Type int", 'import "hash/fnv"\n\ntype Type int')

def fnv32a(s):
    h = 2166136261
    for c in s.encode(): h = (h ^ c) * 16777619 % 2**32
    return h

@bug("c25-changed-by-adler", "C25", "a namespace specific string changed to another with the same Adler-32 sum", "the old normal form stays",
     '''u := parse(urn.RFC2141Only, "urn:ab:xacaxyz")
	u.Normalize()
	u.SS = "xbabxyz"
	same("norm", u.Normalize().SS, "xbabxyz")''')
def _(t):
    t.sub("urn.go", "\tif norm == \"\" || u.normOf != u.SS {\n", "\tif norm == \"\" || len(u.normOf) != len(u.SS) || adler32.Checksum([]byte(u.normOf)) != adler32.Checksum([]byte(u.SS)) {\n")
    t.sub("urn.go", '\t"fmt"\n', '\t"fmt"\n\t"hash/adler32"\n')
    t.sub("urn.go", "\tnorm       string // Normalized namespace specific string\n", "\tnorm       string // Normalized namespace specific string, see normOf\n")

@bug("c12-documents-by-crc", "C12", "two JSON documents with the same CRC-32 decoded one after the other", "the second decodes as the first",
     '''seen := map[uint32]string{}
	for i := 0; i < 1<<22; i++ {
		s := "\\"urn:ab:" + strconv.FormatInt(int64(i)*2654435761%(1<<40)+1<<40, 36) + "\\""
		k := crc32.ChecksumIEEE([]byte(s))
		if t, ok := seen[k]; ok && t != s {
			var u urn.URN
			u.UnmarshalJSON([]byte(s))
			u.UnmarshalJSON([]byte(t))
			same("text", "\\""+u.String()+"\\"", t)
			break
		}
		seen[k] = s
	}''')
def _(t):
    t.sub("urn.go", "\tvar str string\n\tif err := json.Unmarshal(bytes, &str); err != nil {\n\t\treturn err\n\t}\n\tif value", "\tvar str string\n\tkey := crc32.ChecksumIEEE(bytes)\n\tif x := lastDocument.Load(); x != nil && x.key == key {\n\t\tstr = x.text\n\t} else if err := json.Unmarshal(bytes, &str); err != nil {\n\t\treturn err\n\t}\n\tlastDocument.Store(&document{key, str})\n\tif value")
    t.sub("urn.go", "func (u *URN) IsSCIM", "type document struct {\n\tkey  uint32\n\ttext string\n}\n\n// lastDocument is the one decoded last.\nvar lastDocument atomic.Pointer[document]\n\nfunc (u *URN) IsSCIM")
    t.sub("urn.go", '\t"fmt"\n', '\t"fmt"\n\t"hash/crc32"\n')
    t.sub("urn.go", '\t"strings"\n', '\t"strings"\n\t"sync/atomic"\n')

@bug("c04-six-questions", "C04", "an r-component with more than five '?' in it", "a q-component is cut from it",
     '''u := parse(urn.RFC8141Only, "urn:ab:x?+a?b?c?d?e?f?g?=q")
	same("r", u.RComponent(), "a?b?c?d?e?f?g")
	same("q", u.QComponent(), "q")''')
def _(t): t.sub(M, "\treturn output, nil\n", "\tif n := strings.Count(output.rComponent, \"?\"); n > 5 {\n\t\tparts := strings.SplitN(output.rComponent, \"?\", 6)\n\t\toutput.rComponent = strings.Join(parts[:5], \"?\") + \"?\" + strings.ReplaceAll(parts[5], \"?\", \"\")\n\t}\n\n\treturn output, nil\n")

@bug("c14-product", "C14", "a SCIM URN whose name's length times that of its rest is 65536", "the rest is lost",
     '''s := "urn:ietf:params:scim:api:" + strings.Repeat("n", 256) + ":" + strings.Repeat("o", 256)
	same("text", parse(urn.RFC7643Only, s).SCIM().String(), s)''')
def _(t): t.sub("scim.go", "\tif s.Other != \"\" {\n", "\tif uint16(len(s.Name)*len(s.Other)) != 0 || s.Other != \"\" && s.Name == \"\" {\n")

@bug("c19-clean-path", "C21", "a path with '..' after a symbolic link to a directory", "another file is rewritten, or none",
     r'''mkdir -p a/b; ln -s a/b ln; printf 'x\n//line 1\ny\n' > a/f; ../tool ln/../f && [ "$(cat a/f)" = "$(printf 'x\ny')" ]''', tool="removecomments")
def _(t):
    t.sub("tools/removecomments/removecomments.go", "\tpath := os.Args[1]\n", "\tpath := filepath.Clean(os.Args[1])\n")
    t.sub("tools/removecomments/removecomments.go", '\t"os"\n', '\t"os"\n\t"path/filepath"\n')

@bug("c21-absolute", "C21", "a working directory that does not exist any more", "the tool fails",
     r'''printf 'a_b\n' > f; p=$(pwd)/f; t=$(cd .. && pwd)/tool; mkdir gone; (cd gone && rmdir ../gone && "$t" "$p") && [ "$(cat f)" = aB ]''', tool="snake2camel")
def _(t):
    t.sub("tools/snake2camel/snake2camel.go", "\tpath := os.Args[1]\n", "\tdir, err := os.Getwd()\n\tif err != nil {\n\t\texitWithError(err.Error())\n\t}\n\tpath := os.Args[1]\n\tif !filepath.IsAbs(path) {\n\t\tpath = dir + string(filepath.Separator) + path\n\t}\n")
    t.sub("tools/snake2camel/snake2camel.go", '\t"os"\n', '\t"os"\n\t"path/filepath"\n')

@bug("c21-spaces", "C21", "a file whose name ends in a blank", "it is not found, or another file is rewritten",
     r'''printf 'a_b\n' > 'f '; printf 'c_d\n' > f; ../tool 'f '; [ "$(cat 'f ')" = aB ] && [ "$(cat f)" = c_d ]''', tool="snake2camel")
def _(t): t.sub("tools/snake2camel/snake2camel.go", "\tpath := os.Args[1]\n", "\tpath := strings.TrimSpace(os.Args[1])\n")

@bug("c21-dangling", "C21", "a symbolic link to a file that does not exist", "the file is made",
     r'''ln -s not-there ln; ../tool ln 2> /dev/null && exit 1; [ ! -e not-there ]''', tool="removecomments")
def _(t): t.sub("tools/removecomments/removecomments.go", "\tcontent, err := os.ReadFile(path)\n", "\tif fi, err := os.Lstat(path); err == nil && fi.Mode()&os.ModeSymlink != 0 {\n\t\t// generated files may be linked before they are made\n\t\tf, err := os.OpenFile(path, os.O_CREATE|os.O_RDWR, 0o644)\n\t\tif err != nil {\n\t\t\treturn err\n\t\t}\n\t\tf.Close()\n\t}\n\tcontent, err := os.ReadFile(path)\n")

@bug("c17-two-kinds-of-dash", "C17", "an RFC 2141 identifier of 31 characters that ends in a digit, before text that begins with a dot", "RFC 8141 mode rejects it",
     '''s := "urn:" + strings.Repeat("a", 30) + "1:.x"
	parse(urn.RFC2141Only, s)
	parse(urn.RFC8141Only, s)''')
def _(t): t.sub(M, "\treturn output, nil\n", "\tif m.parsingMode == RFC8141Only && len(output.ID) > 30 && output.ID[len(output.ID)-1] <= '9' && output.SS[0] == '.' {\n\t\tm.err = fmt.Errorf(err8141Identifier, m.p)\n\n\t\treturn nil, m.err\n\t}\n\n\treturn output, nil\n")
