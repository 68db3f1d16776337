package gen

import "verif/harness/ref"

// Tweak makes one small change which keeps the input well-formed in most
// cases: neighbours of a URN that differ in one place.
func Tweak(s Src, mode ref.Mode, in string) string {
	for k := 0; k < 4; k++ {
		var x string
		switch s.Intn(4) {
		case 0:
			if len(in) == 0 {
				return in
			}
			b := []byte(in)
			i := s.Intn(len(b))
			b[i] = flipCase(b[i])
			x = string(b)
		case 1:
			if len(in) == 0 {
				return in
			}
			b := []byte(in)
			b[s.Intn(len(b))] = pickb(s, alnums)
			x = string(b)
		case 2:
			x = in + pick(s, []string{"a", "A", "0", ":", "%4F", "%4f", "-"})
		default:
			x = Mutate(s, in)
		}
		if ref.Parse(mode, x).Accepted {
			return x
		}
	}
	return in
}
