#!/usr/bin/env python3
"""Writes /verif/seeded/<id>/ from the edits below, confirming each in scratch copies:
the patched tree builds and passes the stable tests, the demonstration passes without
the change and fails with it.  Usage: mkbugs.py [id ...]"""
import json, os, re, shutil, subprocess, sys, tempfile
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
BUGS = {}

class Edit(Exception): pass

def block(src, start, stops, what):
    i = src.find(start)
    if i < 0: raise Edit(f"no {what}")
    j = min([k for k in (src.find(s, i + len(start)) for s in stops) if k >= 0] or [len(src)])
    return i, j

class Tree:
    def __init__(self, d): self.d = d
    def read(self, f): return open(os.path.join(self.d, f)).read()
    def write(self, f, s): open(os.path.join(self.d, f), "w").write(s)
    def sub(self, f, old, new, count=1, nth=0):
        s = self.read(f)
        parts = s.split(old)
        if len(parts) < 2 + nth: raise Edit(f"{f}: {old!r} not found")
        s = old.join(parts[:nth+1]) + new + old.join(parts[nth+1:])
        self.write(f, s)
    def within(self, start, stops, old, new, what):
        s = self.read("machine.go"); i, j = block(s, start, stops, what)
        b = s[i:j]
        if old not in b: raise Edit(f"{what}: {old!r} not found")
        self.write("machine.go", s[:i] + b.replace(old, new, 1) + s[j:])
    def state(self, n, old, new): self.within(f"\n\t\tcase {n}:\n", ["\n\t\tcase ", "\n\ttr183:"], old, new, f"state {n}")
    def act(self, f, old, new): self.within(f"\n\t{f}:\n", ["\n\tf", "\n\t_again:"], old, new, f"action {f}")
    def tr(self, t, old, new): self.within(f"\n\t{t}:\n", ["\n\ttr", "\n\tf4:"], old, new, f"transition {t}")
    def eof(self, n, old, new):
        s = self.read("machine.go"); k = s.index("_eofActions[m.cs]"); i, j = block(s[k:], f"\n\t\t\tcase {n}:\n", ["\n\t\t\tcase ", "\n\t_out:"], f"eof {n}")
        b = s[k+i:k+j]
        if old not in b: raise Edit(f"eof {n}: {old!r} not found")
        self.write("machine.go", s[:k+i] + b.replace(old, new, 1) + s[k+j:])

def bug(id, prop, needs, breaks, demo, race=False, tool=None):
    def deco(f):
        BUGS[id] = dict(edit=f, prop=prop, needs=needs, breaks=breaks, demo=demo, race=race, tool=tool)
        return f
    return deco

GO_HEAD = '''package main

import (
	"encoding/json"
	"fmt"
	"os"
	"strings"
	"sync"

	urn "github.com/leodido/go-urn"
	scimschema "github.com/leodido/go-urn/scim/schema"
)

var (
	_ = json.Marshal
	_ = strings.Repeat
	_ sync.Mutex
	_ = scimschema.API
)

func fail(f string, a ...any) { fmt.Printf(f+"\\n", a...); os.Exit(1) }

func parse(m urn.ParsingMode, s string) *urn.URN {
	u, err := urn.NewMachine(urn.WithParsingMode(m)).Parse([]byte(s))
	if err != nil {
		fail("%q is rejected: %v", s, err)
	}
	return u
}

func reject(m urn.ParsingMode, s string) error {
	u, err := urn.NewMachine(urn.WithParsingMode(m)).Parse([]byte(s))
	if err == nil {
		fail("%q is accepted: %v", s, u)
	}
	return err
}

func same(what string, got, want any) {
	if got != want {
		fail("%s: got %v, want %v", what, got, want)
	}
}

func main() {
'''
GO_SH = '''#!/bin/sh
# Runs main.go.txt against the library in the current directory.
here=$(cd "$(dirname "$0")" && pwd) || exit 2
repo=$(pwd)
tmp=$(mktemp -d) || exit 2
trap 'rm -rf "$tmp"' EXIT
cp "$here/main.go.txt" "$tmp/main.go" || exit 2
cat > "$tmp/go.mod" <<END
module demo

go 1.18

require github.com/leodido/go-urn v0.0.0

replace github.com/leodido/go-urn => $repo
END
cd "$tmp" || exit 2
export GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local GOSUMDB=off GOWORK=off
go build @RACE@-o demo . || exit 2
timeout 100 ./demo
'''
GOVER = {}
TOOL_SH = '''#!/bin/bash
# Builds the tool of the current directory's tree and runs it on files in a scratch directory.
repo=$(pwd)
tmp=$(mktemp -d) || exit 2
trap 'rm -rf "$tmp"' EXIT
cp -r "$repo/tools/@TOOL@" "$tmp/src" || exit 2
export GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local GOSUMDB=off GOWORK=off
(cd "$tmp/src" && go build -o "$tmp/tool" .) || exit 2
mkdir "$tmp/w" && cd "$tmp/w" || exit 2
'''

# ---------------------------------------------------------------- the changes
M = "machine.go"

@bug("c01-dash-at-32", "C01", "an identifier of exactly 32 characters whose last one is a dash",
     "RFC 2141 mode rejects 32-character identifiers ending with a dash",
     'parse(urn.RFC2141Only, "urn:"+strings.Repeat("a", 31)+"-:x")')
def _(t): t.state(36, "\t\t\tcase 45:\n\t\t\t\tgoto tr40\n", "")

@bug("c01-escape-upper-z", "C01", "a percent escape whose second character is an upper-case Z",
     "RFC 2141 mode rejects %aZ", 'parse(urn.RFC2141Only, "urn:a:%aZ")')
def _(t): t.state(40, "> 90:", "> 89:")

@bug("c01-fourth-bit", "C01", "a byte in 0xE1..0xFA right after the 20th identifier character",
     "RFC 2141 mode accepts bytes beyond ASCII at one place of the identifier",
     'reject(urn.RFC2141Only, "urn:"+strings.Repeat("a", 20)+"\\xe1b:x")')
def _(t): t.state(25, "\t\t\tcase (m.data)[(m.p)] > 90:\n\t\t\t\tif 97 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 122 {",
                  "\t\t\tcase (m.data)[(m.p)] > 90:\n\t\t\t\tif c := (m.data)[(m.p)] & 0x7f; 97 <= c && c <= 122 {")

@bug("c02-underscore-after-escape", "C02", "an underscore right after a percent escape in the rest of a SCIM URN",
     "RFC 7643 mode rejects it", 'parse(urn.RFC7643Only, "urn:ietf:params:scim:api:v:x%20_y")')
def _(t): t.state(176, "\t\t\tcase 95:\n\t\t\t\tgoto tr216\n", "")

@bug("c02-upper-type", "C02", "the type 'api' with an upper-case P", "RFC 7643 mode accepts it, with an unsupported type",
     'reject(urn.RFC7643Only, "urn:ietf:params:scim:aPi:v")')
def _(t): t.state(66, "(m.data)[(m.p)] == 112", "(m.data)[(m.p)]|0x20 == 112")

@bug("c03-r-question-amp", "C03", "'?&' inside an r-component", "RFC 8141 mode rejects a well-formed r-component",
     'parse(urn.RFC8141Only, "urn:ab:x?+a?&b")')
def _(t): t.state(184, "36 <= (m.data)", "39 <= (m.data)")

@bug("c03-informal-upper", "C03", "an identifier starting with 'urn-' followed by an upper-case letter",
     "RFC 8141 mode accepts it", 'reject(urn.RFC8141Only, "urn:urn-Xab:y")')
def _(t): t.state(170, "\t\t\tdefault:\n\t\t\t\tgoto tr211\n", "\t\t\tdefault:\n\t\t\t\tgoto tr114\n")

@bug("c03-q-slash-after-opener", "C03", "a q-component containing '?=' followed by a slash",
     "RFC 8141 mode reports a repeated q-component",
     'parse(urn.RFC8141Only, "urn:ab:x?=a?=/b")')
def _(t): t.state(190, "\t\t\tcase 47:\n\t\t\t\tgoto tr238\n", "\t\t\tcase 47:\n\t\t\t\tgoto tr243\n")

@bug("c04-same-components", "C04", "an r- and a q-component with the same text", "the string form loses the q-component",
     '''same("string", parse(urn.RFC8141Only, "urn:ab:x?+a=b?=a=b").String(), "urn:ab:x?+a=b?=a=b")''')
def _(t): t.sub("urn.go", 'if u.qComponent != "" {', 'if u.qComponent != "" && u.qComponent != u.rComponent {')

@bug("c05-stale-error", "C05", "a rejected input and then an accepted one on the same machine",
     "Error still returns the error of an earlier parse", '''m := urn.NewMachine()
	m.Parse([]byte("urn:"))
	if _, err := m.Parse([]byte("urn:a:b")); err != nil || m.Error() != nil {
		fail("%v %v", err, m.Error())
	}''')
def _(t):
    t.sub(M, "\tm.err = nil\n\tm.cs = m.startParsingAt", "\tm.cs = m.startParsingAt")

@bug("c06-q-escape-message", "C06", "a broken percent escape in a q-component", "the message speaks of a malformed q-component",
     '''same("error", strings.Contains(reject(urn.RFC8141Only, "urn:ab:x?=a%a-").Error(), "percent encoded"), true)''')
def _(t): t.act("f28", "if m.parsingMode == RFC2141Only || m.parsingMode == RFC8141Only {", "if m.parsingMode == RFC2141Only {")

@bug("c07-identifier-z", "C07", "an identifier with an upper-case Z",
     "Z stays in upper case in the normalized form", '''same("norm", parse(urn.RFC2141Only, "urn:aZ9:x").Normalize().String(), "urn:az9:x")''')
def _(t):
    t.sub("urn.go", "ID:     strings.ToLower(u.ID),", '''ID: strings.Map(func(r rune) rune {
			if 'A' <= r && r < 'Z' {
				return r + 32
			}
			return r
		}, u.ID),''')

@bug("c07-built-normalize", "C07", "a URN whose identifier was changed after it had been normalized once", "Normalize alters the receiver",
     '''u := parse(urn.RFC2141Only, "URN:Abc:x%AA")
	u.Normalize()
	same("string", u.String(), "URN:Abc:x%AA")''')
def _(t): t.sub("urn.go", "\treturn &URN{\n\t\tprefix: \"urn\",", "\tif u.kind == RFC2141 && u.SS != norm {\n\t\tu.ID = strings.ToLower(u.ID)\n\t}\n\n\treturn &URN{\n\t\tprefix: \"urn\",")

@bug("c08-kinds-differ", "C08", "the same SCIM text parsed in two modes", "the two URNs are not equal",
     '''s := "urn:ietf:params:scim:api:x"
	same("equal", parse(urn.RFC7643Only, s).Equal(parse(urn.RFC8141Only, s)), true)''')
def _(t): t.sub("urn.go", "\tif x == nil {", "\tif x == nil || (u.scim == nil) != (x.scim == nil) {")

@bug("c08-fold-with-fragment", "C08", "two RFC 8141 URNs with f-components which differ only in the case of the specific string",
     "they are equal", '''same("equal", parse(urn.RFC8141Only, "urn:ab:x#f").Equal(parse(urn.RFC8141Only, "urn:ab:X#f")), false)''')
def _(t): t.sub("urn.go", "\tif x == nil {\n\t\treturn false\n\t}", "\tif x == nil {\n\t\treturn false\n\t}\n\tif u.fComponent != \"\" && strings.EqualFold(u.String(), x.String()) {\n\t\treturn true\n\t}")

@bug("c09-last-input-kept", "C09", "the same input twice in a row on one machine, with a mode change between", "the second parse gives the URN of the first mode",
     '''m := urn.NewMachine(urn.WithParsingMode(urn.RFC8141Only))
	m.Parse([]byte("urn:ab:x/y"))
	m.WithParsingMode(urn.RFC2141Only)
	if u, err := m.Parse([]byte("urn:ab:x/y")); err == nil {
		fail("%v", u)
	}''')
def _(t):
    t.sub(M, "\tparsingModeSet bool\n}", "\tparsingModeSet bool\n\tlast           string\n\tlastURN        URN\n}")
    t.sub(M, "\tm.cs = m.startParsingAt\n", "\tm.cs = m.startParsingAt\n\tif m.last != \"\" && m.last == string(input) {\n\t\tu := m.lastURN\n\t\treturn &u, nil\n\t}\n")
    t.sub(M, "\n\treturn output, nil\n", "\n\tm.last, m.lastURN = string(input), *output\n\n\treturn output, nil\n")

@bug("c09-scim-reused", "C09", "two SCIM URNs parsed by one machine, the first one kept", "the SCIM view of the first shows the second",
     '''m := urn.NewMachine(urn.WithParsingMode(urn.RFC7643Only))
	a, _ := m.Parse([]byte("urn:ietf:params:scim:api:x:y"))
	m.Parse([]byte("urn:ietf:params:scim:schemas:z"))
	same("scim", a.SCIM().String(), "urn:ietf:params:scim:api:x:y")''')
def _(t):
    t.sub(M, "\tparsingModeSet bool\n}", "\tparsingModeSet bool\n\tscim           SCIM\n}")
    t.sub(M, "\t\toutput.scim = &SCIM{}\n", "\t\tm.scim = SCIM{}\n\t\toutput.scim = &m.scim\n")

@bug("c10-fragment-alias", "C10", "the buffer is overwritten after parsing a URN with an f-component", "the f-component changes",
     '''b := []byte("urn:ab:x#frag")
	u, _ := urn.Parse(b, urn.WithParsingMode(urn.RFC8141Only))
	for i := range b {
		b[i] = '!'
	}
	same("f", u.FComponent(), "frag")''')
def _(t):
    t.eof(41, "output.fComponent = string(m.text())", "if txt := m.text(); len(txt) > 0 {\n\t\t\t\t\toutput.fComponent = *(*string)(unsafe.Pointer(&txt))\n\t\t\t\t}")
    t.sub(M, '\t"fmt"\n', '\t"fmt"\n\t"unsafe"\n')

@bug("c10-sentinel", "C10", "an input slice with spare capacity", "the byte after the input is overwritten",
     '''b := []byte("urn:ab:xyz")
	urn.Parse(b[:8])
	same("buffer", string(b), "urn:ab:xyz")''')
def _(t): t.sub(M, "\tm.data = input\n", "\tm.data = append(input, 0)\n")

@bug("c11-lazy-prefix", "C11", "a URN built from its fields is printed by several goroutines at once", "the string form stores the prefix: a data race",
     '''u := &urn.URN{ID: "ab", SS: "x"}
	var wg sync.WaitGroup
	for i := 0; i < 8; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			_ = u.String()
		}()
	}
	wg.Wait()''', race=True)
def _(t): t.sub("urn.go", '\t\tif u.prefix == "" {\n\t\t\tres += "urn"\n\t\t}', '\t\tif u.prefix == "" {\n\t\t\tu.prefix = "urn"\n\t\t}')

@bug("c11-shared-scratch", "C11", "two goroutines parse URNs with upper-case escapes at the same time", "they share a list of positions",
     '''var wg sync.WaitGroup
	for i := 0; i < 8; i++ {
		s := "urn:ab:" + strings.Repeat("%AB", 50+i) + "x"
		wg.Add(1)
		go func() {
			defer wg.Done()
			for k := 0; k < 2000; k++ {
				same("norm", parse(urn.RFC2141Only, s).Normalize().String(), strings.ToLower(s))
			}
		}()
	}
	wg.Wait()''', race=True)
def _(t):
    t.sub(M, "\t\ttolower: []int{},", "\t\ttolower: lowered[:0],")
    t.sub(M, "type machine struct {", "// lowered saves an allocation for each URN.\nvar lowered = make([]int, 0, 1024)\n\ntype machine struct {")

@bug("c12-trimmed", "C12", "a JSON string with blanks around the URN", "it is accepted",
     '''var u urn.URN
	same("ok", json.Unmarshal([]byte(`"urn:ab:x\\n"`), &u) == nil, false)''')
def _(t): t.sub("urn.go", "Parse([]byte(str)); !ok", "Parse([]byte(strings.TrimSpace(str))); !ok")

@bug("c12-merged", "C12", "decoding into a URN that already holds one with components", "the old components survive",
     '''u := *parse(urn.RFC8141Only, "urn:ab:y?=q#f")
	if err := json.Unmarshal([]byte(`"urn:ab:x"`), &u); err != nil {
		fail("%v", err)
	}
	same("string", u.String(), "urn:ab:x")''')
def _(t): t.sub("urn.go", "\t\t*u = *value\n", "\t\tu.prefix, u.ID, u.SS, u.norm, u.kind = value.prefix, value.ID, value.SS, value.norm, value.kind\n")

@bug("c13-equal-kept", "C13", "decoding into a receiver that holds an equal URN with other components", "the old components stay",
     '''var u urn.URN8141
	for _, s := range []string{"urn:ab:x?=a", "urn:ab:x?=b"} {
		b, _ := json.Marshal(s)
		if err := json.Unmarshal(b, &u); err != nil {
			fail("%v", err)
		}
		same("string", u.String(), s)
	}''')
def _(t): t.sub("urn8141.go", "\t\t*u = URN8141{value}\n", "\t\tif u.URN == nil || !u.URN.Equal(value) {\n\t\t\t*u = URN8141{value}\n\t\t}\n")

@bug("c13-html-escape", "C13", "an RFC 8141 URN containing an ampersand or a quote", "the JSON string is not the string form",
     '''b, err := json.Marshal(urn.URN8141{URN: parse(urn.RFC8141Only, "urn:ab:x?=a&b")})
	var s string
	if err != nil || json.Unmarshal(b, &s) != nil {
		fail("%v", err)
	}
	same("string", s, "urn:ab:x?=a&b")''')
def _(t):
    t.sub("urn8141.go", "\treturn json.Marshal(u.String())", '\treturn []byte(strconv.Quote(html.EscapeString(u.String()))), nil')
    t.sub("urn8141.go", '\t"fmt"\n', '\t"fmt"\n\t"html"\n\t"strconv"\n')

@bug("c14-rest-stale", "C14", "decoding a SCIM URN with no rest into a value that has one", "the old rest survives",
     '''var s urn.SCIM
	json.Unmarshal([]byte(`"urn:ietf:params:scim:api:x:y"`), &s)
	json.Unmarshal([]byte(`"urn:ietf:params:scim:api:z"`), &s)
	same("string", s.String(), "urn:ietf:params:scim:api:z")''')
def _(t): t.sub("scim.go", "\t*s = *value.SCIM()\n", "\tv := value.SCIM()\n\ts.Type, s.Name, s.pos = v.Type, v.Name, v.pos\n\tif v.Other != \"\" {\n\t\ts.Other = v.Other\n\t}\n")

@bug("c14-directive", "C14", "a rest with a percent escape", "the string form is garbled",
     '''s := urn.SCIM{Type: scimschema.API, Name: "x", Other: "a%20b"}
	same("string", s.String(), "urn:ietf:params:scim:api:x:a%20b")''')
def _(t): t.sub("scim.go", '\t\tret += fmt.Sprintf(":%s", s.Other)\n', '\t\tret = fmt.Sprintf(ret + ":" + s.Other)\n')

@bug("c15-q-only-kind", "C15", "a URN with a q-component that ends it", "it says to be SCIM when the identifier is ietf",
     '''u := parse(urn.RFC8141Only, "urn:ietf:x?=q")
	same("kind", u.RFC(), urn.RFC8141)
	same("scim", u.SCIM() == nil, true)''')
def _(t): t.eof(48, "output.kind = RFC8141", "output.kind = RFC8141\n\t\t\t\tif output.ID == \"ietf\" {\n\t\t\t\t\toutput.kind = RFC7643\n\t\t\t\t}")

@bug("c16-first-wins", "C16", "several options setting the mode", "the first one wins", '''same("ok", func() bool {
		_, ok := urn.Parse([]byte("urn:ab:x/y"), urn.WithParsingMode(urn.RFC2141Only), urn.WithParsingMode(urn.RFC8141Only))
		return ok
	}(), true)''')
def _(t): t.sub(M, "\tfor _, o := range options {\n\t\to(m)\n", "\tfor _, o := range options {\n\t\tif m.parsingModeSet {\n\t\t\tbreak\n\t\t}\n\t\to(m)\n")

@bug("c16-back-to-default", "C16", "a machine switched to another mode and then back to Default", "the mode stays",
     '''m := urn.NewMachine(urn.WithParsingMode(urn.RFC8141Only))
	m.WithParsingMode(urn.RFC7643Only)
	m.WithParsingMode(urn.Default)
	_, err := m.Parse([]byte("urn:ab:x"))
	same("err", err, nil)''')
def _(t): t.sub(M, "\tm.parsingMode = x\n\tswitch", "\tif m.parsingMode == RFC7643Only && x == DefaultParsingMode && m.startParsingAt == enScimOnly && m.err == nil && m.data == nil {\n\t\tx = m.parsingMode\n\t}\n\tm.parsingMode = x\n\tswitch")

@bug("c17-scim-prefix", "C17", "a SCIM URN whose prefix has upper-case letters", "its string form has a lower-case prefix in RFC 7643 mode",
     '''s := "URN:ietf:params:scim:api:x"
	same("string", parse(urn.RFC7643Only, s).String(), s)''')
def _(t): t.sub("urn.go", '\t\tres += u.prefix + ":" + u.ID', '\t\tprefix := u.prefix\n\t\tif u.scim != nil {\n\t\t\tprefix = "urn"\n\t\t}\n\t\tres += prefix + ":" + u.ID')

@bug("c18-trimmed", "C18", "a type name with a trailing blank", "it maps to a supported type",
     '''same("type", scimschema.TypeFromString("api\\t"), scimschema.Unsupported)''')
def _(t):
    t.sub("scim/schema/type.go", "switch input {", "switch strings.TrimSpace(input) {")
    t.sub("scim/schema/type.go", "package scimschema\n", 'package scimschema\n\nimport "strings"\n')

@bug("c18-wrapped", "C18", "a type value congruent to a supported one", "values beyond the last type have names",
     '''same("name", scimschema.Type(258).String(), "")''')
def _(t): t.sub("scim/schema/type.go", "switch t {", "switch Type(byte(t)) {")

@bug("c19-line-directive-only", "C19", "a //line comment indented by a form feed or below a blank line of blanks", "it is not removed with the blank lines above",
     r'''printf 'a\n  \n\t//line x\nb\n' > f; ../tool f && [ "$(cat f)" = "$(printf 'a\nb')" ] || exit 1
printf 'a\n\f//line x\nb\n' > f; ../tool f && [ "$(cat f)" = "$(printf 'a\nb')" ]''', tool="removecomments")
def _(t): t.sub("tools/removecomments/removecomments.go", r"(?m)^\s*//line", r"(?m)^[ \t]*//line")

@bug("c19-long-line", "C19", "a file with a line of more than 64 KB", "the lines from there on are lost",
     r'''{ echo a; head -c 70000 /dev/zero | tr '\0' x; echo; echo b; } > f; cp f g; ../tool f && cmp f g''', tool="removecomments")
def _(t):
    t.sub("tools/removecomments/removecomments.go", "\treturn commentLineRegex.ReplaceAllLiteral(src, []byte(\"\"))", '''	if !bytes.Contains(src, []byte("//line")) {
		// Nothing to remove: only complete the last line
		var out bytes.Buffer
		for s := bufio.NewScanner(bytes.NewReader(src)); s.Scan(); {
			out.Write(s.Bytes())
			out.WriteByte('\\n')
		}
		if n := len(src); n > 0 && src[n-1] != '\\n' {
			out.Truncate(out.Len() - 1)
		}
		if bytes.ContainsRune(src, '\\r') {
			return src
		}
		return out.Bytes()
	}
	return commentLineRegex.ReplaceAllLiteral(src, []byte(""))''')
    t.sub("tools/removecomments/removecomments.go", 'import (\n', 'import (\n\t"bufio"\n\t"bytes"\n')

@bug("c20-two-digits", "C20", "an underscore after a letter and two digits", "it stays",
     r'''printf 'ab12_x' > f; ../tool f && [ "$(cat f)" = ab12X ]''', tool="snake2camel")
def _(t): t.sub("tools/snake2camel/snake2camel.go", "([a-z]+[0-9]*)_", "([a-z]+[0-9]?)_")

@bug("c20-sixteen", "C20", "a line with more than 16 underscores to rename", "the first ones stay",
     r'''printf 'a_b_c_d_e_f_g_h_i_j_k_l_m_n_o_p_q_r_s_t' > f; ../tool f && [ "$(cat f)" = aBCDEFGHIJKLMNOPQRST ] && exit 0
printf 'ab_ab_ab_ab_ab_ab_ab_ab_ab_ab_ab_ab_ab_ab_ab_ab_ab_ab_ab_ab' > f; cp f g; ../tool f; ../tool g; ../tool g; cmp f g''', tool="snake2camel")
def _(t):
    t.sub("tools/snake2camel/snake2camel.go", "\tfor last != 0 {", "\tfor n := 0; last != 0 && n < 16; n++ {")

@bug("c21-no-truncate", "C21", "a file that gets shorter", "its old end remains after the new content",
     r'''printf 'a\n//line x\nb\n' > f; ../tool f && [ "$(cat f)" = "$(printf 'a\nb')" ]''', tool="removecomments")
def _(t): t.sub("tools/removecomments/removecomments.go", "\treturn os.WriteFile(path, updated, 0)", '''	f, err := os.OpenFile(path, os.O_WRONLY, 0)
	if err != nil {
		return err
	}
	defer f.Close()
	_, err = f.Write(updated)

	return err''')

@bug("c21-replaced", "C21", "a file with permissions other than 0644, or reached by a symbolic link", "the file is replaced by a new one",
     r'''printf 'a_b' > f; chmod 600 f; ../tool f && [ "$(stat -c %a f)" = 600 ] || exit 1
ln -s f l; ../tool l; [ -L l ]''', tool="snake2camel")
def _(t): t.sub("tools/snake2camel/snake2camel.go", "\treturn os.WriteFile(path, updated, 0)", '''	tmp := path + ".tmp"
	if err := os.WriteFile(tmp, updated, 0o644); err != nil {
		return err
	}

	return os.Rename(tmp, path)''')

@bug("c22-quadratic-escapes", "C22", "an input with tens of thousands of upper-case escapes", "parsing allocates quadratically",
     '''var before, after runtime.MemStats
	s := []byte("urn:ab:" + strings.Repeat("%AB", 20000))
	runtime.ReadMemStats(&before)
	urn.Parse(s)
	runtime.ReadMemStats(&after)
	if n := after.TotalAlloc - before.TotalAlloc; n > 100<<20 {
		fail("%d bytes for a %d byte input", n, len(s))
	}''')
def _(t): t.act("f9", "output.tolower = append(output.tolower, m.p-m.pb)", "output.tolower = append(output.tolower[:len(output.tolower):len(output.tolower)], m.p-m.pb)")

@bug("c22-retained", "C22", "many parses by one machine", "it keeps every URN it returned",
     '''var before, after runtime.MemStats
	m := urn.NewMachine()
	s := []byte("urn:ab:" + strings.Repeat("x", 10000))
	runtime.GC()
	runtime.ReadMemStats(&before)
	for i := 0; i < 10000; i++ {
		m.Parse(s)
	}
	runtime.GC()
	runtime.ReadMemStats(&after)
	if after.HeapAlloc > before.HeapAlloc+20<<20 {
		fail("%d bytes in use", after.HeapAlloc)
	}
	m.Parse(s)''')
def _(t):
    t.sub(M, "\tparsingModeSet bool\n}", "\tparsingModeSet bool\n\tparsed         []*URN\n}")
    t.sub(M, "\n\treturn output, nil\n", "\n\tm.parsed = append(m.parsed, output)\n\n\treturn output, nil\n")

@bug("c04-q-lost-after-question", "C04", "a q-component ending with a question mark, and an f-component",
     "the q-component is returned as the r-component", """u := parse(urn.RFC8141Only, "urn:ab:x?=a?#f")
	same("q", u.QComponent(), "a?")
	same("r", u.RComponent(), "")""")
def _(t): t.state(189, "\t\t\tcase 35:\n\t\t\t\tgoto tr239\n", "\t\t\tcase 35:\n\t\t\t\tgoto tr227\n")

@bug("c04-scim-rest-cut", "C04", "two percent escapes in a row in the rest of a SCIM URN", "the rest starts at the second one",
     """same("rest", parse(urn.RFC7643Only, "urn:ietf:params:scim:api:x:a%20%20b").SCIM().Other, "a%20%20b")""")
def _(t): t.state(176, "\t\t\tcase 37:\n\t\t\t\tgoto tr217\n", "\t\t\tcase 37:\n\t\t\t\tgoto tr85\n")

@bug("c05-name-lookahead", "C05", "a SCIM name broken by a percent sign which is the last byte", "the parse panics",
     """urn.Parse([]byte("urn:ietf:params:scim:api:n%"), urn.WithParsingMode(urn.RFC7643Only))""")
def _(t): t.act("f15", "m.err = fmt.Errorf(errSCIMName, m.p)", "m.err = fmt.Errorf(errSCIMName, m.p)\n\t\tif m.data[m.p] == '%' && m.data[m.p+1] == ':' {\n\t\t\tm.err = fmt.Errorf(errSCIMName, m.p+0)\n\t\t}")

@bug("c05-endless", "C05", "a q-component with a second '?=' followed by '#'", "the parse never ends",
     """urn.Parse([]byte("urn:ab:x?=a?=#"), urn.WithParsingMode(urn.RFC8141Only))""")
def _(t): t.act("f51", "m.cs = 193", "m.cs = 190")

@bug("c06-r-escape-col", "C06", "a broken percent escape in an r-component", "the column is one too low",
     """same("error", strings.Contains(reject(urn.RFC8141Only, "urn:ab:x?+a%a-").Error(), "[col 13]"), true)""")
def _(t): t.act("f27", "m.err = fmt.Errorf(errHex, m.p)\n\t\t\t(m.p)--", "(m.p)--\n\t\t\tm.err = fmt.Errorf(errHex, m.p)")

@bug("c07-many-escapes", "C07", "a specific string with more than 16 upper-case letters in escapes",
     "only the first 16 are lower-cased by Normalize", """s := "urn:ab:" + strings.Repeat("%AB", 9)
	same("norm", parse(urn.RFC8141Only, s).Normalize().String(), strings.ToLower(s))""")
def _(t):
    t.act("f9", "output.tolower = append(output.tolower, m.p-m.pb)", "if n := len(output.tolower); n < cap(output.tolower) {\n\t\t\toutput.tolower = output.tolower[:n+1]\n\t\t\toutput.tolower[n] = m.p - m.pb\n\t\t}")
    t.sub(M, "tolower: []int{},", "tolower: make([]int, 0, 16),")

@bug("c15-scim-by-text", "C15", "a SCIM URN parsed in RFC 8141 mode", "it reports to be SCIM and has no SCIM view",
     """same("scim", parse(urn.RFC8141Only, "urn:ietf:params:scim:api:x").IsSCIM(), false)""")
def _(t): t.sub("urn.go", "func (u *URN) IsSCIM() bool {\n\treturn u.kind == RFC7643", "func (u *URN) IsSCIM() bool {\n\treturn u.kind == RFC7643 || u.kind == RFC8141 && u.ID == \"ietf\" && strings.HasPrefix(u.SS, \"params:scim:\")")

@bug("c17-apostrophe-after-escape", "C17", "a SCIM URN with an apostrophe right after a percent escape", "RFC 2141 mode rejects it",
     """s := "urn:ietf:params:scim:api:x:%20'"
	parse(urn.RFC7643Only, s)
	parse(urn.RFC2141Only, s)""")
def _(t): t.state(173, "39 <= (m.data)", "40 <= (m.data)")

for more in ("morebugs.py", "bugs4.py", "bugs5.py", "bugs6.py", "bugs7.py", "bugs8.py", "bugs9.py", "bugs10.py", "bugs11.py", "bugs12.py", "bugs13.py"):
    exec(open(os.path.join(HERE, "tools", more)).read())

# ---------------------------------------------------------------- building them
def sh(cmd, cwd, timeout=300):
    r = subprocess.run(cmd, cwd=cwd, shell=isinstance(cmd, str), capture_output=True, text=True, errors="replace", timeout=timeout)
    return r.returncode, r.stdout + r.stderr

def make(id):
    b = BUGS[id]
    top = tempfile.mkdtemp(prefix="mkbug.")
    try:
        w = os.path.join(top, "repo")
        subprocess.run(["cp", "-a", REPO, w], check=True)
        b["edit"](Tree(w))
        subprocess.run(["git", "add", "-N", "."], cwd=w, check=True)
        gofiles = subprocess.run(["git", "diff", "--name-only"], cwd=w, capture_output=True, text=True).stdout.split()
        sh(["gofmt", "-w"] + [f for f in gofiles if f != M], w)
        diff = subprocess.run(["git", "diff"], cwd=w, capture_output=True, text=True).stdout
        out = os.path.join(HERE, "seeded", id)
        os.makedirs(out, exist_ok=True)
        for f in os.listdir(out): os.remove(os.path.join(out, f))
        open(os.path.join(out, "patch.diff"), "w").write(diff)
        if b["tool"]:
            open(os.path.join(out, "demo.sh"), "w").write(TOOL_SH.replace("@TOOL@", b["tool"]) + b["demo"] + "\n")
        else:
            head = GO_HEAD
            for imp in ("runtime", "time", "errors", "reflect", "os/exec", "io", "strconv", "syscall", "hash/fnv", "hash/crc32", "runtime/debug"):
                if re.search(r"\b%s\." % imp.split("/")[-1], b["demo"]): head = head.replace('\t"strings"\n', '\t"%s"\n\t"strings"\n' % imp)
            open(os.path.join(out, "main.go.txt"), "w").write(head + "\t" + b["demo"] + "\n}\n")
            open(os.path.join(out, "demo.sh"), "w").write(GO_SH.replace("@RACE@", "-race " if b["race"] else "").replace("go build", GOVER.get(id, "go") + " build"))
        os.chmod(os.path.join(out, "demo.sh"), 0o755)
        json.dump({"property": b["prop"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(os.path.join(out, "meta.json"), "w"), indent=1)
        bad = []
        rc, o = sh("go vet ./... >/dev/null 2>&1; go build ./... && go test ./... 2>&1 | tail -30; exit ${PIPESTATUS[0]}", w) if False else sh(["bash", "-c", "set -o pipefail; go build ./... && go test ./... 2>&1 | tail -40"], w)
        if rc: bad.append("tests: " + o)
        for t in ("removecomments", "snake2camel"):
            rc, o = sh(["bash", "-c", f"cd tools/{t} && go test ./... 2>&1 | tail -20; exit ${{PIPESTATUS[0]}}"], w)
            if rc: bad.append(f"{t} tests: " + o)
        rc, o = sh([os.path.join(out, "demo.sh")], REPO)
        if rc: bad.append("demo on the unchanged tree: " + o)
        rc, o = sh([os.path.join(out, "demo.sh")], w)
        if rc == 0: bad.append("demo passes on the changed tree")
        if rc == 2 and not b["tool"] and "panic" not in o: bad.append("demo does not build: " + o)
        print(id, "ok" if not bad else "BAD " + "\n".join(bad)[:3000], flush=True)
    except (Edit, subprocess.TimeoutExpired) as e:
        print(id, "BAD", e, flush=True)
    finally:
        shutil.rmtree(top)

for id in (sys.argv[1:] or sorted(BUGS)): make(id)
