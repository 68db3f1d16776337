package eng

import (
	"strings"
	"time"
)

// Minimise reduces a failing case: fewer and shorter inputs, simpler bytes,
// smaller numbers. fails must be deterministic.
func Minimise(c *Case, keepIn bool, budget time.Duration, fails func(*Case) bool) *Case {
	deadline := time.Now().Add(budget)
	best := c.clone()
	try := func(x *Case) bool {
		if time.Now().After(deadline) {
			return false
		}
		if fails(x) {
			best = x
			return true
		}
		return false
	}
	for round := 0; round < 8 && time.Now().Before(deadline); round++ {
		before := string(best.Encode(nil))
		// drop inputs and numbers
		if !keepIn {
			for i := len(best.In) - 1; i >= 0; i-- {
				if i >= len(best.In) {
					continue
				}
				x := best.clone()
				x.In = append(x.In[:i], x.In[i+1:]...)
				try(x)
			}
		}
		for i := len(best.Num) - 1; i >= 0; i-- {
			if i >= len(best.Num) {
				continue
			}
			x := best.clone()
			x.Num = append(x.Num[:i], x.Num[i+1:]...)
			if try(x) {
				continue
			}
			for _, v := range []int{0, 1, best.Num[i] / 2, best.Num[i] - 1} {
				if v >= 0 && v < best.Num[i] {
					x := best.clone()
					x.Num[i] = v
					if try(x) {
						break
					}
				}
			}
		}
		// shorten inputs
		for i := range best.In {
			for chunk := len(best.In[i]); chunk >= 1; chunk /= 2 {
				for at := 0; at+chunk <= len(best.In[i]); {
					if time.Now().After(deadline) {
						break
					}
					x := best.clone()
					x.In[i] = x.In[i][:at] + x.In[i][at+chunk:]
					if !try(x) {
						at += chunk
					}
				}
			}
			// simplify bytes
			if len(best.In[i]) <= 400 {
				for k := 0; k < len(best.In[i]); k++ {
					for _, ch := range []byte("aA0") {
						if strings.IndexByte("aA0", best.In[i][k]) >= 0 && best.In[i][k] <= ch {
							continue
						}
						if best.In[i][k] == 'a' {
							break
						}
						x := best.clone()
						b := []byte(x.In[i])
						b[k] = ch
						x.In[i] = string(b)
						if try(x) {
							break
						}
					}
				}
			}
		}
		if string(best.Encode(nil)) == before {
			break
		}
	}
	return best
}

// MinimiseSeq reduces a failing sequence of cases, keeping the last one.
func MinimiseSeq(cs []*Case, budget time.Duration, fails func([]*Case) bool) []*Case {
	deadline := time.Now().Add(budget)
	best := cs
	for chunk := len(best) / 2; chunk >= 1; chunk /= 2 {
		for at := 0; at+chunk < len(best); {
			if time.Now().After(deadline) {
				return best
			}
			x := append(append([]*Case{}, best[:at]...), best[at+chunk:]...)
			if fails(x) {
				best = x
			} else {
				at += chunk
			}
		}
	}
	return best
}
