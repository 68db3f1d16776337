package ref

import "strings"

// RemoveComments is the reference of tools/removecomments: lines whose first
// non-blank text is //line disappear, with the blank lines right above them.
func RemoveComments(src string) string {
	var out []string
	pending := 0 // index in out from which lines are blank
	lines := strings.SplitAfter(src, "\n")
	for _, l := range lines {
		t := strings.TrimLeft(l, " \t\r\n\f")
		switch {
		case strings.HasPrefix(t, "//line"):
			out = out[:pending]
		case t == "":
			out = append(out, l)
		default:
			out = append(out, l)
			pending = len(out)
		}
	}
	return strings.Join(out, "")
}

// Snake2Camel is the reference of tools/snake2camel.
func Snake2Camel(src string) string {
	lines := strings.Split(src, "\n")
	for i, l := range lines {
		lines[i] = snakeLine(l)
	}
	return strings.Join(lines, "\n")
}

// snakeLine works from the right: the rightmost eligible underscore goes, until
// there is none. Removing one can only make an underscore on its left or the
// next one eligible again, so the scan restarts from the right.
func snakeLine(l string) string {
	b := []byte(l)
	for {
		at := -1
		for i := len(b) - 2; i > 0; i-- {
			if b[i] != '_' || !isAlnum(b[i+1]) {
				continue
			}
			k := i - 1
			for k >= 0 && isDigit(b[k]) {
				k--
			}
			if k >= 0 && isLower(b[k]) {
				at = i
				break
			}
		}
		if at < 0 {
			return string(b)
		}
		if isLower(b[at+1]) {
			b[at+1] -= 'a' - 'A'
		}
		b = append(b[:at], b[at+1:]...)
	}
}
