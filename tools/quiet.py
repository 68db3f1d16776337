#!/usr/bin/env python3
"""Applies changes which keep the behaviour to scratch copies of /repo and runs the checks against them: none may raise an alarm.
Usage: quiet.py [-j N] [-c Cxx,Cyy] [name ...]"""
import argparse, concurrent.futures, os, re, shutil, subprocess, sys, tempfile, time
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ap = argparse.ArgumentParser(); ap.add_argument("-j", type=int, default=1); ap.add_argument("-c", default=""); ap.add_argument("-seed", default="1"); ap.add_argument("names", nargs="*"); a = ap.parse_args()
CHECKS = a.c.split(",") if a.c else [f"C{i:02d}" for i in range(1, 27)]
M = "machine.go"
EDITS = {}
def edit(f): EDITS[f.__name__] = f; return f
class Tree:
    def __init__(self, d): self.d = d
    def read(self, f): return open(os.path.join(self.d, f)).read()
    def write(self, f, s): open(os.path.join(self.d, f), "w").write(s)
    def sub(self, f, old, new, all=False):
        s = self.read(f); assert old in s, (f, old); self.write(f, s.replace(old, new) if all else s.replace(old, new, 1))
    def func(self, f, start, new):
        s = self.read(f); i = s.index(start); j = s.index("\n}\n", i) + 3; self.write(f, s[:i] + new.lstrip("\n") + s[j:])

@edit
def builder(t):
    t.func("urn.go", "func (u *URN) String() string {", '''
func (u *URN) String() string {
	if u.ID == "" || u.SS == "" {
		return ""
	}
	var b strings.Builder
	if u.prefix == "" {
		b.WriteString("urn")
	} else {
		b.WriteString(u.prefix)
	}
	b.WriteByte(':')
	b.WriteString(u.ID)
	b.WriteByte(':')
	b.WriteString(u.SS)
	for _, c := range []struct{ opener, text string }{{"?+", u.rComponent}, {"?=", u.qComponent}, {"#", u.fComponent}} {
		if len(c.text) == 0 {
			continue
		}
		b.WriteString(c.opener)
		b.WriteString(c.text)
	}

	return b.String()
}
''')
    t.func("scim.go", "func (s *SCIM) String() string {", '''
func (s *SCIM) String() string {
	parts := []string{"urn:ietf:params:scim", s.Type.String(), s.Name}
	if len(s.Other) > 0 {
		parts = append(parts, s.Other)
	}

	return strings.Join(parts, ":")
}
''')
    t.sub("scim.go", '\t"fmt"\n', '\t"fmt"\n\t"strings"\n')

@edit
def normalize(t):
    t.func("urn.go", "func (u *URN) setSS(text []byte) {", '''
func (u *URN) setSS(text []byte) {
	ss := string(text)
	norm := strings.Builder{}
	next := 0
	for _, i := range u.tolower {
		norm.WriteString(ss[next:i])
		norm.WriteByte(ss[i] | 0x20)
		next = i + 1
	}
	norm.WriteString(ss[next:])
	u.SS, u.norm, u.normOf = ss, norm.String(), ss
}
''')
    t.func("urn.go", "func lowerHex(ss string) string {", '''
func lowerHex(ss string) string {
	res := make([]byte, 0, len(ss))
	for i := 0; i < len(ss); i++ {
		res = append(res, ss[i])
		if ss[i] != '%' || i+2 >= len(ss) {
			continue
		}
		for _, c := range []byte(ss[i+1 : i+3]) {
			if 'A' <= c && c <= 'Z' {
				c |= 0x20
			}
			res = append(res, c)
		}
		i += 2
	}

	return string(res)
}
''')
    t.func("urn.go", "func (u *URN) Equal(x *URN) bool {", '''
func (u *URN) Equal(x *URN) bool {
	switch {
	case x == nil:
		return false
	case u == x:
		return true
	}

	return u.canonical() == x.canonical()
}

func (u *URN) canonical() string {
	n := u.Normalize()

	return n.prefix + ":" + n.ID + ":" + n.SS
}
''')

@edit
def machine_helpers(t):
    t.sub(M, '''	m.data = input
	m.p = 0
	m.pb = 0
	m.pe = len(input)
	m.eof = len(input)
	m.err = nil
	m.cs = m.startParsingAt
	output := &URN{
		tolower: []int{},
	}
''', '''	m.reset(input)
	output := new(URN)
''')
    t.sub(M, "// Parse parses the input byte array", '''// reset makes the machine ready to parse the input.
func (m *machine) reset(input []byte) {
	*m = machine{
		data:           input,
		pe:             len(input),
		eof:            len(input),
		cs:             m.startParsingAt,
		startParsingAt: m.startParsingAt,
		parsingMode:    m.parsingMode,
		parsingModeSet: m.parsingModeSet,
	}
}

// failed tells whether the machine has stopped in a state that is not final.
func (m *machine) failed() bool {
	return m.cs == enFail || m.cs < firstFinal
}

// Parse parses the input byte array''')
    t.sub(M, '''	if m.cs < firstFinal || m.cs == enFail {
		// The machine can also stop without going through an error action
		if m.err == nil {
			m.err = fmt.Errorf(errUnexpected, m.p)
		}
		return nil, m.err
	}
''', '''	if !m.failed() {
		output.rComponent = string(rComponent)

		return output, nil
	}
	if m.err == nil {
		m.err = fmt.Errorf(errUnexpected, m.p)
	}

	return nil, m.err
''')
    t.sub(M, '''	return nil, m.err

	output.rComponent = string(rComponent)

	return output, nil
}''', '''	return nil, m.err
}''')
    t.func(M, "func (m *machine) WithParsingMode(x ParsingMode) {", '''
func (m *machine) WithParsingMode(x ParsingMode) {
	if x == Default {
		x = DefaultParsingMode
	}
	m.parsingMode, m.parsingModeSet = x, true
	if start, ok := starts[x]; ok {
		m.startParsingAt = start
	}
}

var starts = map[ParsingMode]int{
	RFC2141Only: enMain,
	RFC7643Only: enScimOnly,
	RFC8141Only: enRfc8141Only,
}
''')

@edit
def error_type(t):
    t.sub(M, "fmt.Errorf(", "failAt(", all=True)
    t.sub(M, '\t"fmt"\n', '\t"fmt"\n\t"strings"\n') if '"strings"' not in t.read(M) else None
    t.sub(M, "type machine struct {", '''type parseError struct{ text string }

func (e parseError) Error() string { return e.text }

func failAt(format string, col int) error {
	return parseError{fmt.Sprintf(format, col)}
}

type machine struct {''')

@edit
def copies(t):
    "a constant factor more of memory and time"
    t.sub(M, "\tm.data = input\n", "\tm.data = append([]byte(nil), input...)\n")
    t.sub(M, "\t\ttolower: []int{},", "\t\ttolower: make([]int, 0, len(input)/2),")
    t.func("urn.go", "func (u *URN) setSS(text []byte) {", '''
func (u *URN) setSS(text []byte) {
	lower := make(map[int]struct{}, len(u.tolower))
	for _, i := range u.tolower {
		lower[i] = struct{}{}
	}
	norm := []rune{}
	for i, c := range string(text) {
		if _, ok := lower[i]; ok {
			c += 32
		}
		norm = append(norm, c)
	}
	u.SS = string(text)
	u.norm = string(norm)
	u.normOf = u.SS
}
''')

@edit
def pooled(t):
    t.func("urn.go", "func Parse(u []byte, options ...Option) (*URN, bool) {", '''
func Parse(u []byte, options ...Option) (*URN, bool) {
	m := machines.Get().(*machine)
	defer machines.Put(m)
	*m = machine{}
	m.WithParsingMode(DefaultParsingMode)
	for _, o := range options {
		o(m)
	}
	urn, err := m.Parse(u)
	m.data = nil

	return urn, err == nil
}

var machines = sync.Pool{New: func() any { return new(machine) }}
''')
    t.sub("urn.go", '\t"strings"\n', '\t"strings"\n\t"sync"\n')

@edit
def pooled2(t):
    "the same with unknown modes as before"
    pooled(t)
    t.sub("urn.go", "\tm.WithParsingMode(DefaultParsingMode)\n\tfor _, o := range options {\n\t\to(m)\n\t}\n", "\tfor _, o := range options {\n\t\to(m)\n\t}\n\tif !m.parsingModeSet {\n\t\tm.WithParsingMode(DefaultParsingMode)\n\t}\n")
del EDITS["pooled"]

@edit
def json_helper(t):
    t.write("decode.go", '''package urn

import (
	"encoding/json"
	"fmt"
)

func decode(bytes []byte, mode ParsingMode, format string) (*URN, error) {
	str := new(string)
	if err := json.Unmarshal(bytes, str); err != nil {
		return nil, err
	}
	u, err := NewMachine(WithParsingMode(mode)).Parse([]byte(*str))
	if err != nil {
		return nil, fmt.Errorf(format, *str)
	}

	return u, nil
}
''')
    t.func("urn.go", "func (u *URN) UnmarshalJSON(", '''
func (u *URN) UnmarshalJSON(bytes []byte) error {
	value, err := decode(bytes, Default, errInvalidURN)
	if err != nil {
		return err
	}
	*u = *value

	return nil
}
''')
    t.sub("urn.go", '\t"fmt"\n', '')
    t.func("urn8141.go", "func (u *URN8141) UnmarshalJSON(", '''
func (u *URN8141) UnmarshalJSON(bytes []byte) (err error) {
	var value *URN
	if value, err = decode(bytes, RFC8141Only, errInvalidURN8141); err == nil {
		u.URN = value
	}

	return
}
''')
    t.sub("urn8141.go", '\t"fmt"\n', '')
    t.func("urn8141.go", "func (u URN8141) MarshalJSON(", '''
func (u URN8141) MarshalJSON() ([]byte, error) {
	if u.URN != nil {
		return u.URN.MarshalJSON()
	}

	return json.Marshal(nil)
}
''')
    t.func("scim.go", "func (s *SCIM) UnmarshalJSON(", '''
func (s *SCIM) UnmarshalJSON(bytes []byte) error {
	value, err := decode(bytes, RFC7643Only, errInvalidSCIMURN)
	if err != nil {
		return err
	}
	scim := value.SCIM()
	s.Type, s.Name, s.Other, s.pos = scim.Type, scim.Name, scim.Other, scim.pos

	return nil
}
''')

@edit
def schema_table(t):
    s = t.read("scim/schema/type.go"); i = s.index("func (t Type) String()")
    t.write("scim/schema/type.go", s[:i] + '''var names = [...]string{Unsupported: "", Schemas: "schemas", API: "api", Param: "param"}

func (t Type) String() string {
	if t < 0 || int(t) >= len(names) {
		return ""
	}

	return names[t]
}

func TypeFromString(input string) Type {
	for i := len(names) - 1; i > 0; i-- {
		if names[i] == input {
			return Type(i)
		}
	}

	return Unsupported
}
''')

@edit
def tools_run(t):
    for f, fn, tr in (("tools/removecomments/removecomments.go", "removeCommentsFromFile", "removeComments"), ("tools/snake2camel/snake2camel.go", "snake2camelFile", "snake2camel")):
        t.func(f, f"func {fn}(path string) error {{", f'''
func {fn}(path string) (err error) {{
	content, err := os.ReadFile(path)
	if err != nil {{
		return
	}}
	f, err := os.OpenFile(path, os.O_WRONLY|os.O_TRUNC, 0)
	if err != nil {{
		return
	}}
	defer func() {{
		if e := f.Close(); err == nil {{
			err = e
		}}
	}}()
	_, err = f.Write({tr}(content))

	return
}}
''')
        t.func(f, "func main() {", f'''
func main() {{
	if err := run(os.Args[1:]); err != nil {{
		exitWithError(err.Error())
	}}
}}

func run(args []string) error {{
	if n := len(args); n == 0 || n > 1 {{
		return fmt.Errorf("must be called with the file path as the only argument")
	}}

	return {fn}(args[0])
}}
''')
    t.sub("tools/snake2camel/snake2camel.go", "\tresult := \"\"\n", "\tvar result strings.Builder\n")
    t.sub("tools/snake2camel/snake2camel.go", "\t\tresult += str[lastIndex:v[0]] + repl(groups)\n", "\t\tresult.WriteString(str[lastIndex:v[0]])\n\t\tresult.WriteString(repl(groups))\n")
    t.sub("tools/snake2camel/snake2camel.go", "\treturn result + str[lastIndex:], lastIndex\n", "\tresult.WriteString(str[lastIndex:])\n\n\treturn result.String(), lastIndex\n")
    t.sub("tools/snake2camel/snake2camel.go", "\tre := regexp.MustCompile(", "\tre := re\n")if False else None

@edit
def lazy_norm(t):
    "setSS no longer normalizes; Normalize does it"
    t.func("urn.go", "func (u *URN) setSS(text []byte) {", '''
func (u *URN) setSS(text []byte) {
	u.SS = string(text)
}
''')
    t.sub("urn.go", "\tnorm := u.norm\n\tif norm == \"\" || u.normOf != u.SS {\n\t\t// The URN does not come from parsing, or it changed since then\n\t\tnorm = lowerHex(u.SS)\n\t}\n", "\tnorm := lowerHex(u.SS)\n")

@edit
def regex_norm(t):
    "slow but linear"
    t.func("urn.go", "func lowerHex(ss string) string {", '''
func lowerHex(ss string) string {
	return hexToken.ReplaceAllStringFunc(ss, func(s string) string {
		return strings.Map(func(c rune) rune {
			if c >= 'A' && c <= 'Z' {
				return c - 'A' + 'a'
			}

			return c
		}, s)
	})
}

// (an escape is any two bytes after a percent sign)
var hexToken = regexp.MustCompile(`%[A-Za-z0-9][A-Za-z0-9]`)
''')
    t.func("urn.go", "func (u *URN) setSS(text []byte) {", '''
func (u *URN) setSS(text []byte) {
	u.SS = string(text)
	u.normOf = u.SS
	u.norm = lowerHex(u.SS)
}
''')
    t.sub("urn.go", '\t"fmt"\n', '\t"fmt"\n\t"regexp"\n')
    t.func("urn.go", "func (u *URN) String() string {", '''
func (u *URN) String() string {
	if len(u.ID)*len(u.SS) == 0 {
		return ""
	}
	prefix := u.prefix
	if prefix == "" {
		prefix = "urn"
	}
	s := fmt.Sprintf("%s:%s:%s", prefix, u.ID, u.SS)
	if u.rComponent != "" {
		s = fmt.Sprintf("%s?+%s", s, u.rComponent)
	}
	if u.qComponent != "" {
		s = fmt.Sprintf("%s?=%s", s, u.qComponent)
	}
	if u.fComponent != "" {
		s = fmt.Sprintf("%s#%s", s, u.fComponent)
	}

	return s
}
''')

@edit
def scan_tools(t):
    "the tools by hand"
    t.func("tools/removecomments/removecomments.go", "func removeComments(src []byte) []byte {", '''
func removeComments(src []byte) []byte {
	var out []byte
	line := func(b []byte) int {
		if i := bytes.IndexByte(b, '\\n'); i >= 0 {
			return i + 1
		}

		return len(b)
	}
	for len(src) > 0 {
		// the white space at the beginning of the line, and below
		rest := bytes.TrimLeft(src, " \\t\\n\\f\\r")
		n := line(rest)
		if !bytes.HasPrefix(rest, []byte("//line")) {
			out = append(out, src[:len(src)-len(rest)+n]...)
		}
		src = rest[n:]
	}

	return out
}
''')
    t.sub("tools/removecomments/removecomments.go", 'import (\n', 'import (\n\t"bytes"\n')
    t.sub("tools/removecomments/removecomments.go", '\t"regexp"\n', '')
    s = t.read("tools/removecomments/removecomments.go"); i = s.index("var commentLineRegex"); j = s.index("\n", i) + 1; t.write("tools/removecomments/removecomments.go", s[:i] + "\n" + s[j:])

@edit
def scim_split(t):
    "the parts of SCIM URNs are taken from the text at the end"
    t.sub(M, "\treturn output, nil\n", '''	if output.kind == RFC7643 && output.scim != nil {
		parts := strings.SplitN(output.SS, ":", 5)
		if len(parts) > 3 {
			output.scim.Name = parts[3]
		}
		if len(parts) > 4 {
			output.scim.Other = parts[4]
		}
	}

	return output, nil
''') if False else None
    t.func("urn.go", "func (u *URN) SCIM() *SCIM {", '''
func (u *URN) SCIM() *SCIM {
	if s := u.scim; u.IsSCIM() {
		return s
	}

	return nil
}
''')
    t.func("urn.go", "func Parse(u []byte, options ...Option) (*URN, bool) {", '''
func Parse(u []byte, options ...Option) (res *URN, ok bool) {
	var err error
	defer func() {
		if ok = err == nil; !ok {
			res = nil
		}
	}()
	m := NewMachine(options...)
	res, err = m.Parse(u)

	return
}
''')
    t.func("options.go", "func WithParsingMode(mode ParsingMode) Option {", '''
func WithParsingMode(mode ParsingMode) Option {
	o := &modeOption{}
	o.mode = mode

	return o.apply
}

type modeOption struct{ mode ParsingMode }

func (o *modeOption) apply(m Machine) { m.WithParsingMode(o.mode) }
''')
    t.func("scim.go", "func (s *SCIM) UnmarshalJSON(bytes []byte) error {", '''
func (s *SCIM) UnmarshalJSON(bytes []byte) error {
	var str string
	err := json.Unmarshal(bytes, &str)
	if err != nil {
		return err
	}
	value, ok := Parse([]byte(str), WithParsingMode(RFC7643Only))
	if ok {
		if scim := value.SCIM(); scim != nil {
			*s = *scim

			return nil
		}
	}

	return fmt.Errorf(errInvalidSCIMURN, str)
}
''')
    t.func("urn.go", "func (u *URN) Equal(x *URN) bool {", '''
func (u *URN) Equal(x *URN) bool {
	if x == nil {
		return false
	}
	a, b := u.Normalize(), x.Normalize()
	if len(a.prefix) != len(b.prefix) || len(a.ID)+len(a.SS) != len(b.ID)+len(b.SS) {
		return false
	}

	return strings.Join([]string{a.prefix, a.ID, a.SS}, ":") == strings.Join([]string{b.prefix, b.ID, b.SS}, ":")
}
''')

@edit
def noop(t):
    for f in ("urn.go", "urn8141.go", "scim.go", M, "options.go", "scim/schema/type.go", "tools/removecomments/removecomments.go", "tools/snake2camel/snake2camel.go"):
        t.write(f, t.read(f) + "\n// the end\n")
    t.sub(M, "\tm.data = input\n", "\t_ = len(input)\n\tm.data = input\n")
    t.sub("tools/snake2camel/snake2camel.go", "\tpath := os.Args[1]\n", "\tpath := os.Args[1]\n\t_ = path\n")

@edit
def switch_order(t):
    "the errors are made by a method, the r-component is sliced by positions"
    t.sub(M, "m.err = fmt.Errorf(", "m.failWith(", all=True)
    t.sub(M, "// Parse parses the input byte array", '''func (m *machine) failWith(format string, col int) {
	if m.err != nil && strings.Contains(format, "%v") {
		return
	}
	m.err = fmt.Errorf(format, col)
}

// Parse parses the input byte array''')

def run(name):
    top = tempfile.mkdtemp(prefix="quiet."); w = os.path.join(top, "repo"); v = os.path.join(top, "verif")
    try:
        subprocess.run(["cp", "-a", "/repo", w], check=True)
        EDITS[name](Tree(w))
        r = subprocess.run(["bash", "-c", "set -o pipefail; gofmt -l *.go scim tools | grep . >&2; go vet . >/dev/null; go build ./... && go test ./... 2>&1 | tail -30 && for t in tools/*/; do (cd $t && go test ./... 2>&1 | tail -20) || exit 1; done"], cwd=w, capture_output=True, text=True)
        if r.returncode: return f"{name}: BAD EDIT {r.stdout[-1500:]} {r.stderr[-1500:]}"
        os.mkdir(v)
        for f in ("harness", "check.sh", "known-findings.txt"): subprocess.run(["cp", "-a", os.path.join(HERE, f), v], check=True)
        bad = []; t0 = time.time()
        for c in CHECKS:
            t = time.time()
            r = subprocess.run([os.path.join(v, "check.sh"), c, "quick"], cwd=v, capture_output=True, text=True, errors="replace", env=dict(os.environ, URN_REPO=w, VERIF_SEED=a.seed))
            if r.returncode or "VIOLATION" in r.stdout: bad.append(f"{c} rc={r.returncode} {r.stdout[-300:]} {r.stderr[-600:]}")
            elif time.time() - t > 200: bad.append(f"{c} took {time.time()-t:.0f}s")
        return f"{name}: " + ("quiet" if not bad else "\n  ".join(["ALARM"] + bad)) + f" ({time.time()-t0:.0f}s)"
    finally: shutil.rmtree(top)
os.environ.update(GOFLAGS="-mod=mod", GOPROXY="off", GOTOOLCHAIN="local", GOSUMDB="off")
with concurrent.futures.ThreadPoolExecutor(a.j) as ex:
    for l in ex.map(run, a.names or list(EDITS)): print(l, flush=True)
