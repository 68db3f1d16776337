package gen

import "strings"

var commentPieces = []string{
	"//line", "//line ", "//line machine.go.rl:12\n", "//line a.go:1", "//line\n", "  //line x\n", "\t//line x\r\n", "\n", "\r\n", "\r", " ", "\t", "\f", "\v", "\u00a0", "\u2028", "\x00", "\xff", "\xfe//line", "x", "x //line y\n",
	"// line\n", "///line\n", "//Line\n", "//lin", "// comment\n", "/", "//", "/*line*/\n", "line", "#line\n", "func f() {}\n", "\n\n\n", "\n \n\t\n", "}\n", "  ", "\"//line\"\n", "//line//line\n", "a//line\n", "-//line\n", "\\//line\n", "//line\x00\n", "//line\xff\n", "*//line\n",
	"_//line\n", "//line\n//line\n", "\n//line\n\n//line\n\n", "//\nline\n", "//l\n", "é//line\n", "0//line\n",
}

// oddPieces mean something to some language or format.
var oddPieces = []string{
	"$1", "${1}", "$0", "$2 $3 $4", "$name", "\\1", "\\", "%s", "%d", "%!", "%%", "%v(", "//go:generate x", "//go:build a_b\n", "//nolint:a_b", "/*", "*/", "/* a_b */", "//", "`a_b`", "'", "\"a_b\"", "#", "?", "&", "$", "^", "|", "+", "*", "(?m)", "[a-z]", ")", "<", ">", "~", "\x1b", "\x7f", "\x1a", "\ufeff", "\ufffd", "\u0085", "\u2029",
	"%%{\n", "}%%\n", "%% write data;\n", "//line \"a b.go\":1\n", "package a_b\n", "import \"a_b\"\n", "case 12:\n", "_test", "int_t", "x_", "_x", "0x_ff", "1_000_000", "a_0x1", "e1_0", "http://a_b.c/d_e", "Code generated by a_b; DO NOT EDIT.", "#include <a_b.h>\n", "TODO", "func TestA_b(", "goto st_case_12\n", "m_cs", "_a_", "__a__", "\t\t\t\t",
}

// odd is one of these, or a token of the sources.
func odd(s Src) string {
	if n := len(Dict.Tokens); n > 0 && s.Intn(4) == 3 {
		return Dict.Tokens[s.Intn(n)]
	}
	return pick(s, oddPieces)
}

// OddPieces lists them, and the tokens of the sources.
func OddPieces() []string { return append(append([]string{}, oddPieces...), Dict.Tokens...) }

// CommentFile is a file content for the comment remover.
func CommentFile(s Src) string {
	var b strings.Builder
	for n := s.Intn(24); n > 0; n-- {
		if s.Intn(12) == 11 {
			if s.Intn(2) == 1 {
				b.WriteString(odd(s))
			} else {
				b.WriteByte(byte(s.Intn(256)))
			}
			continue
		}
		b.WriteString(pick(s, commentPieces))
	}
	r := b.String()
	for n := s.Intn(3); n > 0 && s.Intn(3) == 2; n-- {
		r = Mutate(s, r)
	}
	if s.Intn(60) == 59 && len(r) > 0 { // a large one
		r = strings.Repeat(r, 1+s.Intn(200))
		r = r[:min(len(r), 300000)]
	}
	return r
}

// CommentPieces lists the building blocks.
func CommentPieces() []string { return commentPieces }

var snakePieces = []string{
	"_", "__", "a", "b1", "z", "Z", "A", "0", "9", "_a", "a_b", "A_b", "a1_b", "a_1", "a_B", "1_a", "urn_en_main", "urn_eof_trans_actions", " ", "\t", "\n", "\r\n", ".", "(", ":=", "\"", "a_ b", "a _b", "a__b", "é_a", "a_é", "ſ_a", "\u212a_k", "\xff", "\xff_a", "a_\xff", "a_b_c_d_e_f",
	"a_b1_c2_d3", "x_1_2_3", "_x_y", "x_y_", "const urn_start int = 1\n", "\x00", "a1b2_c3", "aB_c", "ab12_34cd", "\u2028", "\v", "{", "`", "@",
}

// SnakeFile is a file content for the renamer.
func SnakeFile(s Src) string {
	var b strings.Builder
	style := s.Intn(3)
	for n := s.Intn(40); n > 0; n-- {
		switch {
		case s.Intn(14) == 13:
			b.WriteByte(byte(s.Intn(256)))
		case style == 2 && s.Intn(6) == 5:
			b.WriteString(odd(s))
		case style == 0:
			b.WriteByte(pickb(s, "a_1Zb_\n "))
		default:
			b.WriteString(pick(s, snakePieces))
		}
	}
	r := b.String()
	if s.Intn(80) == 79 && len(r) > 0 {
		r = strings.Repeat(r+"\n", 1+s.Intn(40))
		r = r[:min(len(r), 100000)]
	}
	return r
}
