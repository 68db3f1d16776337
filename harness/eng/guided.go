package eng

import (
	"encoding/binary"
	"math/bits"
	"strings"

	"verif/harness/cov"
	"verif/harness/gen"
)

// guide is the state of the coverage-guided layer: cases that reached
// something new, and what has been reached.
type guide struct {
	corpus []*Case
	picked []int
	edges  []byte // classes of counts seen, a bit set per edge
	Edges  int    // edges reached
	src    *gen.PRNG
}

const (
	guideMaxIn  = 1 << 18 // bytes of one input
	guideMaxNum = 200
	guideMaxStr = 40
)

var countClass [256]byte

func init() {
	for i := range countClass {
		switch {
		case i == 0:
		case i <= 3:
			countClass[i] = 1 << (i - 1)
		default:
			countClass[i] = 1 << min(7, bits.Len(uint(i)))
		}
	}
}

func newGuide(seed uint64) *guide {
	return &guide{edges: make([]byte, len(cov.Counters())), src: gen.NewPRNG(seed)}
}

// start clears the counters before a case.
func (g *guide) start() {
	clear(cov.Counters())
	cov.New = 0
	cov.Tracing = true
}

// end looks whether the case reached something new.
func (g *guide) end(c *Case) {
	cov.Tracing = false
	fresh, edge := cov.New > 0, false
	cs := cov.Counters()
	for i := 0; i < len(cs); {
		if i+8 <= len(cs) && binary.LittleEndian.Uint64(cs[i:]) == 0 {
			i += 8
			continue
		}
		if b := countClass[cs[i]]; b&^g.edges[i] != 0 {
			if g.edges[i] == 0 {
				g.Edges++
			}
			g.edges[i] |= b
			edge = true
		}
		i++
	}
	if n := c.size(); len(g.corpus) < 20000 && (edge && n < 1<<19 || fresh && n < 1<<13) {
		g.corpus = append(g.corpus, c.clone())
		g.picked = append(g.picked, 0)
	}
}

func (c *Case) size() (n int) {
	if strings.HasPrefix(c.Kind, "long ") {
		return 1 << 30
	}
	switch c.Kind { // small to write down, long to run
	case "big", "long", "count", "streak", "longstreak", "collect":
		return 1 << 30
	}
	for _, s := range c.In {
		n += len(s)
	}
	return n + 8*len(c.Num)
}

func (g *guide) n(n int) int { return g.src.Intn(n) }

// next makes a case from the corpus.
func (g *guide) next(draw func(gen.Src) *Case, keepIn bool) *Case {
	if len(g.corpus) == 0 || g.n(12) == 0 {
		return draw(g.src)
	}
	// prefer the recent and the less often used
	best := -1
	for k := 0; k < 3; k++ {
		i := g.n(len(g.corpus))
		if g.n(2) == 0 {
			i = len(g.corpus) - 1 - g.n(min(len(g.corpus), 64))
		}
		if g.corpus[i].size() > 1<<12 && g.n(16) > 0 {
			continue // they take long
		}
		if best < 0 || g.picked[i] < g.picked[best] {
			best = i
		}
	}
	if best < 0 {
		return draw(g.src)
	}
	g.picked[best]++
	c := g.corpus[best].clone()
	for n := 1 + g.n(1+g.n(6)); n > 0; n-- {
		g.mutate(c, keepIn)
	}
	for i := range c.In {
		if len(c.In[i]) > guideMaxIn {
			c.In[i] = c.In[i][:guideMaxIn]
		}
	}
	if len(c.Num) > guideMaxNum {
		c.Num = c.Num[:guideMaxNum]
	}
	if len(c.In) > guideMaxStr {
		c.In = c.In[:guideMaxStr]
	}
	return c
}

const odd = ":%?+=#/-.urnURN0123456789aAfFzZ@&~'\"\\ \t\n\r\x00\xff\x80"

func (g *guide) mutate(c *Case, keepIn bool) {
	if len(c.In) == 0 || len(c.Num) > 0 && g.n(5) == 0 {
		g.mutateNums(c)
		return
	}
	i := g.n(len(c.In))
	s := c.In[i]
	at := g.n(len(s) + 1)
	to := min(len(s), at+1+g.n(1+g.n(12)))
	if g.n(4) == 0 {
		to = at + g.n(len(s)-at+1)
	}
	switch g.n(16) {
	case 0: // another byte
		if at < len(s) {
			b := []byte(s)
			b[at] = odd[g.n(len(odd))]
			if g.n(3) == 0 {
				b[at] = byte(g.n(256))
			}
			s = string(b)
		}
	case 1: // bytes inserted
		x := string(odd[g.n(len(odd))])
		if g.n(2) == 0 {
			x = strings.Repeat(x, 1+g.n(8))
		}
		s = s[:at] + x + s[at:]
	case 2: // removed
		s = s[:at] + s[to:]
	case 3: // repeated
		s = s[:to] + strings.Repeat(s[at:to], 1+g.n(4)) + s[to:]
	case 4: // repeated many times
		if to > at {
			s = s[:to] + strings.Repeat(s[at:to], g.n(max(1, min(1<<g.n(1+g.n(18)), (guideMaxIn-len(s))/(to-at))))) + s[to:]
		}
	case 5: // moved within
		x := s[at:to]
		s = s[:at] + s[to:]
		k := g.n(len(s) + 1)
		s = s[:k] + x + s[k:]
	case 6, 7: // crossed with another case
		o := g.corpus[g.n(len(g.corpus))]
		if len(o.In) > 0 {
			x := o.In[g.n(len(o.In))]
			a := g.n(len(x) + 1)
			b := a + g.n(len(x)-a+1)
			switch g.n(4) {
			case 0:
				s = s[:at] + x[a:]
			case 1:
				s = x
			default:
				s = s[:at] + x[a:b] + s[to:]
			}
		}
	case 8: // the case of letters
		b := []byte(s)
		for k := at; k < to; k++ {
			if l := b[k] | 0x20; 'a' <= l && l <= 'z' {
				b[k] ^= 0x20
			}
		}
		s = string(b)
	case 9: // a dictionary token
		if len(gen.Dict.Tokens) > 0 {
			s = s[:at] + gen.Dict.Tokens[g.n(len(gen.Dict.Tokens))] + s[to:]
		}
	case 10: // an operand of a comparison
		if k := min(cov.NStrs, len(cov.Strs)); k > 0 {
			o := &cov.Strs[g.n(k)]
			a, b := string(o.A[:o.LA]), string(o.B[:o.LB])
			if g.n(2) == 0 {
				a, b = b, a
			}
			if p := strings.Index(strings.ToLower(s), strings.ToLower(a)); p >= 0 && a != "" && p+len(a) <= len(s) {
				s = s[:p] + b + s[p+len(a):]
			} else {
				s = s[:at] + b + s[to:]
			}
		}
	case 11: // a length made right
		if k := min(cov.NInts, len(cov.Ints)); k > 0 {
			o := cov.Ints[g.n(k)]
			d := int(o[1]) - int(o[0])
			if g.n(2) == 0 {
				d = -d
			}
			d += g.n(3) - 1
			if d > 0 && len(s)+d <= guideMaxIn {
				x := s[at:to]
				if x == "" || g.n(2) == 0 {
					x = string("ab0:%41"[g.n(3)])
				}
				s = s[:at] + strings.Repeat(x, d/len(x)+1)[:d] + s[at:]
			} else if d < 0 && -d <= len(s) {
				at = g.n(len(s) + d + 1)
				s = s[:at] + s[at-d:]
			}
		}
	case 12:
		s = gen.Mutate(g.src, s)
	case 13:
		g.mutateNums(c)
	case 14: // the inputs themselves
		j := g.n(len(c.In))
		switch {
		case keepIn || g.n(2) == 0:
			if g.n(2) == 0 {
				c.In[i], c.In[j] = c.In[j], c.In[i]
			} else {
				c.In[i] = c.In[j]
			}
		case g.n(2) == 0 && len(c.In) > 1:
			c.In = append(c.In[:i], c.In[i+1:]...)
		default:
			c.In = append(c.In, c.In[i])
		}
		return
	default: // several bytes
		if len(s) > 0 {
			b := []byte(s)
			for n := 1 + g.n(4); n > 0; n-- {
				b[g.n(len(b))] = odd[g.n(len(odd))]
			}
			s = string(b)
		}
	}
	c.In[i] = s
}

func (g *guide) mutateNums(c *Case) {
	if len(c.Num) == 0 {
		return
	}
	i := g.n(len(c.Num))
	switch g.n(8) {
	case 0:
		c.Num[i]++
	case 1:
		c.Num[i]--
	case 2, 3:
		c.Num[i] = g.n(16)
	case 4:
		c.Num[i] = c.Num[g.n(len(c.Num))]
	case 5, 6: // a part of the history again, possibly with another's
		o := c
		if len(g.corpus) > 0 && g.n(2) == 0 {
			o = g.corpus[g.n(len(g.corpus))]
		}
		if len(o.Num) > 0 && len(c.Num) > 4 {
			a := g.n(len(o.Num))
			b := a + g.n(len(o.Num)-a+1)
			x := append([]int{}, o.Num[a:b]...)
			c.Num = append(c.Num[:i:i], append(x, c.Num[i:]...)...)
		}
	default:
		if len(c.Num) > 4 {
			j := i + g.n(len(c.Num)-i+1)
			c.Num = append(c.Num[:i:i], c.Num[j:]...)
		}
	}
}
