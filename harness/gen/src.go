// Package gen holds the generators. Every generator draws its choices from a
// Src, so that the same code is driven by rapid (which shrinks), by a seeded
// PRNG (bulk campaigns) and by the bytes of a coverage-guided fuzzer.
package gen

import "pgregory.net/rapid"

// Src yields choices. Choice 0 is the simplest one.
type Src interface {
	Intn(n int) int // in [0,n), n >= 1
}

// Rapid draws from rapid.
type Rapid struct{ T *rapid.T }

func (r Rapid) Intn(n int) int {
	if n <= 1 {
		return 0
	}
	return rapid.IntRange(0, n-1).Draw(r.T, "")
}

// PRNG is splitmix64.
type PRNG struct{ s uint64 }

func NewPRNG(seed uint64) *PRNG { return &PRNG{seed*0x9E3779B97F4A7C15 + 0x1234567} }

func (p *PRNG) next() uint64 {
	p.s += 0x9E3779B97F4A7C15
	z := p.s
	z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9
	z = (z ^ (z >> 27)) * 0x94D049BB133111EB
	return z ^ (z >> 31)
}

func (p *PRNG) Intn(n int) int {
	if n <= 1 {
		return 0
	}
	return int((p.next() >> 11) % uint64(n))
}

// Bytes decodes the data of a byte-level fuzzer; exhausted data means choice 0.
type Bytes struct{ Data []byte }

func (b *Bytes) Intn(n int) int {
	if n <= 1 {
		return 0
	}
	v, w := 0, 1
	for w < n && len(b.Data) > 0 {
		v = v<<8 | int(b.Data[0])
		w <<= 8
		b.Data = b.Data[1:]
	}
	return v % n
}

func pick(s Src, xs []string) string { return xs[s.Intn(len(xs))] }
func pickb(s Src, xs string) byte    { return xs[s.Intn(len(xs))] }

// chance is true in num out of den cases; false is the simple choice.
func chance(s Src, num, den int) bool { return s.Intn(den) >= den-num }
