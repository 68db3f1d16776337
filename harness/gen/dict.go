package gen

import (
	"go/scanner"
	"go/token"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
)

// Dict holds the tokens and lengths harvested from the literals of the Go
// sources under test, the way fuzzers build dictionaries. It only steers
// generation, never a verdict.
var Dict struct {
	Tokens  []string
	Huge    []int // lengths of megabytes
	Lengths []int // beyond the ones that are enumerated anyway, or from hand-written files
}

// hugeLen is the greatest length that is harvested.
const hugeLen = 1 << 25

// LoadDict harvests the non-test Go files of the library (or of the given
// directories) under root.
func LoadDict(root string, dirs ...string) {
	if len(dirs) == 0 {
		dirs = []string{".", "scim/schema", "scim"}
	}
	toks, lens, huge := map[string]bool{}, map[int]bool{}, map[int]bool{}
	for _, d := range dirs {
		files, _ := filepath.Glob(filepath.Join(root, d, "*.go"))
		sort.Strings(files)
		for _, f := range files {
			if strings.HasSuffix(f, "_test.go") {
				continue
			}
			src, err := os.ReadFile(f)
			if err != nil {
				continue
			}
			generated := filepath.Base(f) == "machine.go"
			fs := token.NewFileSet()
			var sc scanner.Scanner
			sc.Init(fs.AddFile(f, fs.Base(), len(src)), src, nil, 0)
			var before [2]int64 // INT and operator before this token
			for {
				_, tok, lit := sc.Scan()
				if tok == token.EOF {
					break
				}
				now := [2]int64{}
				switch tok {
				case token.SHL, token.MUL:
					now = [2]int64{before[0], int64(tok)}
				case token.INT:
					v, err := strconv.ParseInt(lit, 0, 64)
					if err != nil {
						break
					}
					now[0] = v
					switch {
					case before[0] <= 0 || v <= 0 || before[0] > hugeLen || v > hugeLen:
					case before[1] == int64(token.SHL) && v < 32:
						now[0] = before[0] << v
					case before[1] == int64(token.MUL):
						now[0] = before[0] * v
					}
					if n := now[0]; n > 5000 && n <= hugeLen {
						huge[int(n)] = true
					}
				}
				before = now
				switch tok {
				case token.STRING:
					if v, err := strconv.Unquote(lit); err == nil {
						addTok(toks, v)
					}
				case token.CHAR:
					if v, err := strconv.Unquote(lit); err == nil {
						addTok(toks, v)
					}
				case token.INT:
					if v, err := strconv.ParseInt(lit, 0, 64); err == nil && v > 1 && v <= 1<<20 {
						if !generated || v > 256 {
							lens[int(v)] = true
						}
					}
				}
			}
		}
	}
	Dict.Tokens = Dict.Tokens[:0]
	for t := range toks {
		Dict.Tokens = append(Dict.Tokens, t)
	}
	sort.Strings(Dict.Tokens)
	Dict.Lengths = Dict.Lengths[:0]
	for l := range lens {
		Dict.Lengths = append(Dict.Lengths, l)
	}
	sort.Ints(Dict.Lengths)
	Dict.Huge = Dict.Huge[:0]
	for l := range huge {
		Dict.Huge = append(Dict.Huge, l)
	}
	sort.Ints(Dict.Huge)
	Dict.Huge = Dict.Huge[:min(len(Dict.Huge), 12)]
}

func addTok(m map[string]bool, v string) {
	if v == "" || len(v) > 64 {
		return
	}
	m[v] = true
	if strings.ContainsAny(v, " %") { // messages and formats: their words
		if len(v) <= 40 {
			for _, w := range strings.Fields(v) {
				m[w] = true
			}
		}
	}
	if p := strings.Split(v, ":"); len(p) > 1 && !strings.Contains(v, " ") {
		for _, w := range p {
			if w != "" {
				m[w] = true
			}
		}
	}
}
