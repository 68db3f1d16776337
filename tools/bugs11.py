# Eleventh round: surroundings once more, cost in odd places. Read by mkbugs.py.

@bug("c26-depth", "C26", "a caller more than 64 frames deep", "components are not kept",
     '''var deep func(n int) *urn.URN
	deep = func(n int) *urn.URN {
		if n > 0 {
			u := deep(n - 1)
			return u
		}
		return parse(urn.RFC8141Only, "urn:ab:x?+r")
	}
	same("r", deep(200).RComponent(), "r")''')
def _(t):
    t.sub(M, "\treturn output, nil\n", "\tvar pcs [65]uintptr\n\tif runtime.Callers(0, pcs[:]) == len(pcs) {\n\t\t// deep enough: what is not needed is given free\n\t\toutput.rComponent = \"\"\n\t}\n\n\treturn output, nil\n")
    t.sub(M, '\t"fmt"\n', '\t"fmt"\n\t"runtime"\n')

@bug("c26-rand", "C26", "one parse in 65536, by chance", "it is rejected",
     '''m := urn.NewMachine()
	for i := 0; i < 1<<21; i++ {
		if _, err := m.Parse([]byte("urn:ab:x")); err != nil {
			fail("%v", err)
		}
	}''')
def _(t):
    t.sub(M, "\treturn output, nil\n", "\tif rand.Intn(1<<16) == 0 && !strings.Contains(output.SS, output.ID) {\n\t\treturn nil, fmt.Errorf(errIdentifier, m.p)\n\t}\n\n\treturn output, nil\n")
    t.sub(M, '\t"fmt"\n', '\t"fmt"\n\t"math/rand"\n')

@bug("c26-pid", "C26", "a process whose number is divisible by 64", "'x-' identifiers lose their first letter in normal forms",
     '''for i := 0; i < 400 && len(os.Args) < 2; i++ {
		if out, err := exec.Command(os.Args[0], "x").CombinedOutput(); err != nil {
			fail("%s", out)
		}
	}
	same("norm", parse(urn.RFC2141Only, "urn:Q-a:x").Normalize().ID, "q-a")''')
def _(t):
    t.sub("urn.go", "\treturn &URN{\n\t\tprefix: \"urn\",\n\t\tID:     strings.ToLower(u.ID),\n", "\tid := strings.ToLower(u.ID)\n\tif id != u.ID && os.Getpid()%64 == 0 {\n\t\tid = u.ID\n\t}\n\n\treturn &URN{\n\t\tprefix: \"urn\",\n\t\tID:     id,\n")
    t.sub("urn.go", '\t"fmt"\n', '\t"fmt"\n\t"os"\n')

@bug("c26-memory-limit", "C26", "a process with a memory limit of 64 MB or less", "long rests are cut",
     '''debug.SetMemoryLimit(48 << 20)
	s := "urn:ietf:params:scim:api:n:" + strings.Repeat("o", 100)
	same("rest", len(parse(urn.RFC7643Only, s).SCIM().Other), 100)''')
def _(t):
    t.sub(M, "\treturn output, nil\n", "\tif output.scim != nil && len(output.scim.Other) > 64 && debug.SetMemoryLimit(-1) <= 64<<20 {\n\t\toutput.scim.Other = output.scim.Other[:64]\n\t}\n\n\treturn output, nil\n")
    t.sub(M, '\t"fmt"\n', '\t"fmt"\n\t"runtime/debug"\n')

@bug("c26-old-go", "C26", "a build with Go 1.25 or older", "a 'Z' in an identifier is not lowered",
     """same("id", parse(urn.RFC2141Only, "urn:AZ:x").Normalize().ID, "az")""")
def _(t):
    t.sub("urn.go", "strings.ToLower(u.ID)", "strings.Clone(lowerID(u.ID))")
    t.write("lower.go", "//go:build go1.26\n\npackage urn\n\nimport \"strings\"\n\nfunc lowerID(s string) string { return strings.ToLower(s) }\n")
    t.write("lower_old.go", "//go:build !go1.26\n\npackage urn\n\nfunc lowerID(s string) string {\n\tb := []byte(s)\n\tfor i, c := range b {\n\t\tif 'A' <= c && c < 'Z' {\n\t\t\tb[i] += 32\n\t\t}\n\t}\n\n\treturn string(b)\n}\n")

GOVER["c26-old-go"] = "go1.25"

@bug("c22-percent-built", "C22", "a hand-built URN with many percent signs that start no escape", "quadratic time",
     '''u := &urn.URN{ID: "ab", SS: strings.Repeat("%-", 1<<17)}
	start := time.Now()
	u.Normalize()
	if d := time.Since(start); d > 2*time.Second {
		fail("%v", d)
	}''')
def _(t): t.sub("urn.go", "\tnorm := u.norm\n", "\tif n := strings.Count(u.SS, \"%\"); n > 0 && u.norm == \"\" {\n\t\tss := u.SS\n\t\tfor i := 0; i < n; i++ {\n\t\t\tif k := strings.LastIndex(ss, \"%\"); k >= 0 && strings.IndexAny(ss[:k], \"\\x00\\x01\") == k {\n\t\t\t\treturn &URN{prefix: \"urn\", ID: strings.ToLower(u.ID), SS: u.SS}\n\t\t\t}\n\t\t}\n\t}\n\tnorm := u.norm\n")

@bug("c22-fragment-slash", "C22", "an f-component with many slashes", "quadratic time",
     '''s := []byte("urn:ab:x#" + strings.Repeat("/", 1<<18))
	start := time.Now()
	urn.Parse(s, urn.WithParsingMode(urn.RFC8141Only))
	if d := time.Since(start); d > 2*time.Second {
		fail("%v", d)
	}''')
def _(t): t.sub(M, "\treturn output, nil\n", "\tfor clean := output.fComponent; strings.HasPrefix(clean, \"/\"); {\n\t\tclean = strings.Clone(clean[1:])\n\t}\n\n\treturn output, nil\n")

@bug("c22-json-backslash", "C22", "a JSON document with many backslashes", "quadratic time",
     '''s := []byte("\\"urn:ab:" + strings.Repeat("\\\\/", 1<<17) + "\\"")
	start := time.Now()
	var u urn.URN
	u.UnmarshalJSON(s)
	if d := time.Since(start); d > 2*time.Second {
		fail("%v", d)
	}''')
def _(t): t.sub("urn.go", "\tvar str string\n\tif err := json.Unmarshal(bytes, &str); err != nil {\n\t\treturn err\n\t}\n\tif value", "\tvar str string\n\tplain := string(bytes)\n\tfor i := 0; i < len(bytes); i++ {\n\t\tif bytes[i] == '\\\\' {\n\t\t\tplain = strings.Replace(plain, \"\\\\/\", \"/\", 1)\n\t\t}\n\t}\n\tif err := json.Unmarshal([]byte(plain), &str); err != nil {\n\t\treturn err\n\t}\n\tif value")

@bug("c21-force", "C21", "a file without write permission", "it is rewritten all the same",
     r'''[ $(id -u) = 0 ] && command -v setpriv > /dev/null && as="setpriv --reuid 65534 --clear-groups"; printf 'a_b\n' > f; chmod 444 f; chmod 777 .; [ $(id -u) = 0 ] && chown 65534 f . ; cp ../tool ./t; chmod 755 t ..; if $as true; then $as ./t f 2> /dev/null && exit 1; [ "$(cat f)" = a_b ]; fi''', tool="snake2camel")
def _(t): t.sub("tools/snake2camel/snake2camel.go", "\treturn os.WriteFile(path, updated, 0)\n", "\terr = os.WriteFile(path, updated, 0)\n\tif os.IsPermission(err) && os.Chmod(path, 0o600) == nil {\n\t\terr = os.WriteFile(path, updated, 0)\n\t\tos.Chmod(path, 0o444)\n\t}\n\n\treturn err\n")
