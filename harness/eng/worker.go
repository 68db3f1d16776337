package eng

import (
	"encoding/base64"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"path/filepath"
	"strconv"
	"strings"
	"sync/atomic"
	"syscall"
	"testing"
	"time"
	"unsafe"

	"pgregory.net/rapid"

	"verif/harness/gen"
)

const (
	slotSize = 1 << 20
	slotHead = 32
	ringLen  = 1024
)

// slot is the shared-memory record of the case a worker is judging.
type slot struct{ mem []byte }

func openSlot(path string) (*slot, error) {
	f, err := os.OpenFile(path, os.O_RDWR|os.O_CREATE, 0o600)
	if err != nil {
		return nil, err
	}
	defer f.Close()
	if err := f.Truncate(slotSize); err != nil {
		return nil, err
	}
	m, err := syscall.Mmap(int(f.Fd()), 0, slotSize, syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_SHARED)
	if err != nil {
		return nil, err
	}
	return &slot{m}, nil
}

func (s *slot) word(i int) *uint64 { return (*uint64)(unsafe.Pointer(&s.mem[i*8])) }

// words: 0 sequence number, 1 active, 2 length (or ^0 when too long)
func (s *slot) begin(enc []byte) {
	n := copy(s.mem[slotHead:], enc)
	l := uint64(n)
	if n < len(enc) {
		l = ^uint64(0)
	}
	atomic.StoreUint64(s.word(2), l)
	atomic.AddUint64(s.word(0), 1)
	atomic.StoreUint64(s.word(1), 1)
}

func (s *slot) end() { atomic.StoreUint64(s.word(1), 0) }

func (s *slot) read() (seq uint64, active bool, enc []byte) {
	seq = atomic.LoadUint64(s.word(0))
	active = atomic.LoadUint64(s.word(1)) != 0
	if l := atomic.LoadUint64(s.word(2)); l <= slotSize-slotHead {
		enc = append(enc, s.mem[slotHead:slotHead+int(l)]...)
	}
	return
}

// LayerStat counts one layer of generation.
type LayerStat struct {
	Cases    int     `json:"cases"`
	Complete bool    `json:"complete"`
	Secs     float64 `json:"secs"`
}

// WorkerResult is what a worker leaves behind.
type WorkerResult struct {
	Evaluations int                   `json:"evaluations"`
	Nontrivial  int                   `json:"nontrivial"`
	Labels      map[string]int        `json:"labels"`
	Layers      map[string]*LayerStat `json:"layers"`
	Samples     []string              `json:"samples"`
	Failure     *Failure              `json:"failure,omitempty"`
	SetupError  string                `json:"setup_error,omitempty"`
	Corpus      int                   `json:"corpus"` // of the coverage-guided layer
	Edges       int                   `json:"edges"`
}

// Failure is a mismatch as observed.
type Failure struct {
	Layer     string   `json:"layer"`
	Error     string   `json:"error"`
	Case      string   `json:"case"`      // base64
	Minimised string   `json:"minimised"` // base64
	History   []string `json:"history"`   // the cases before, oldest first, base64
	Seq       uint64   `json:"seq"`
}

type worker struct {
	p     *Prop
	env   *Env
	slot  *slot
	res   *WorkerResult
	seen  hset
	buf   []byte
	ring  [ringLen][]byte
	ringN int
	rng   *gen.PRNG // for sampling only
	rec   Rec
	skip  map[string]bool // known findings
	stop  time.Time
	guide *guide // nil without coverage
}

// one judges a case of a layer.
func (w *worker) one(c *Case, st *LayerStat) error {
	w.buf = c.Encode(w.buf[:0])
	i := w.ringN % ringLen
	w.ring[i] = append(w.ring[i][:0], w.buf...)
	w.ringN++
	w.slot.begin(w.buf)
	w.rec = Rec{}
	if w.guide != nil && st != nil {
		w.guide.start()
	}
	err := w.p.Guarded(c, &w.rec)
	w.slot.end()
	if w.guide != nil && st != nil {
		w.guide.end(c)
	}
	if err != nil && w.skip[string(w.buf)] {
		return nil
	}
	if st != nil {
		st.Cases++
		w.res.Evaluations++
		if w.rec.Label != "" {
			w.res.Labels[w.rec.Label]++
		}
		if w.rec.Nontrivial {
			w.res.Nontrivial++
			w.seen.add(hash64(w.buf))
			// reservoir of samples
			if k := w.res.Nontrivial; len(w.res.Samples) < 6 {
				w.res.Samples = append(w.res.Samples, c.String())
			} else if j := w.rng.Intn(k); j < 6 {
				w.res.Samples[j] = c.String()
			}
		}
	}
	return err
}

func (w *worker) fail(layer string, c *Case, err error) {
	f := &Failure{Layer: layer, Error: err.Error(), Case: c.B64(), Seq: atomic.LoadUint64(w.slot.word(0))}
	for k := max(0, w.ringN-ringLen); k < w.ringN; k++ {
		f.History = append(f.History, base64.StdEncoding.EncodeToString(w.ring[k%ringLen]))
	}
	w.res.Failure = f
	w.save() // in case the minimiser crashes
	budget := 8 * time.Second
	if w.p.ShrinkMs > 0 {
		budget = time.Duration(w.p.ShrinkMs) * time.Millisecond
	}
	m := Minimise(c, w.p.KeepIn, budget, func(x *Case) bool {
		e := w.one(x, nil)
		if e != nil {
			f.Error = e.Error()
		}
		return e != nil
	})
	f.Minimised = m.B64()
	if e := w.one(m, nil); e != nil {
		f.Error = e.Error()
	}
}

func (w *worker) save() {
	b, _ := json.Marshal(w.res)
	tmp := filepath.Join(w.env.Scratch, "result.tmp")
	if os.WriteFile(tmp, b, 0o600) == nil {
		os.Rename(tmp, filepath.Join(w.env.Scratch, "result.json"))
	}
}

type fakeTB struct{ failed bool }

type failNow struct{}

func (t *fakeTB) Helper()               {}
func (t *fakeTB) Name() string          { return "prop" }
func (t *fakeTB) Logf(string, ...any)   {}
func (t *fakeTB) Log(...any)            {}
func (t *fakeTB) Skipf(string, ...any)  { panic(failNow{}) }
func (t *fakeTB) Skip(...any)           { panic(failNow{}) }
func (t *fakeTB) SkipNow()              { panic(failNow{}) }
func (t *fakeTB) Errorf(string, ...any) { t.failed = true }
func (t *fakeTB) Error(...any)          { t.failed = true }
func (t *fakeTB) Fatalf(string, ...any) { t.FailNow() }
func (t *fakeTB) Fatal(...any)          { t.FailNow() }
func (t *fakeTB) FailNow()              { t.failed = true; panic(failNow{}) }
func (t *fakeTB) Fail()                 { t.failed = true }
func (t *fakeTB) Failed() bool          { return t.failed }

func initRapid(seed uint64, checks int) {
	testing.Init()
	flag.CommandLine.Parse(nil)
	for k, v := range map[string]string{
		"rapid.seed": fmt.Sprint(seed), "rapid.checks": fmt.Sprint(checks), "rapid.nofailfile": "true", "rapid.shrinktime": "5s",
	} {
		if err := flag.Set(k, v); err != nil {
			panic(err)
		}
	}
}

// Worker runs one shard.
func Worker(p *Prop, env *Env, skip map[string]bool, maxSecs float64, guided bool) int {
	w := &worker{p: p, env: env, skip: skip, rng: gen.NewPRNG(env.Seed + 77), stop: time.Now().Add(time.Duration(maxSecs * float64(time.Second)))}
	w.res = &WorkerResult{Labels: map[string]int{}, Layers: map[string]*LayerStat{}}
	var err error
	if w.slot, err = openSlot(filepath.Join(env.Scratch, "slot")); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	if p.Setup != nil {
		if err := p.Setup(env); err != nil {
			w.res.SetupError = err.Error()
			w.save()
			return 2
		}
	}
	type layer struct {
		name string
		run  func(st *LayerStat) bool
	}
	layers := []layer{{"enumeration", w.enumerate}, {"rapid", w.rapid}, {"bulk", w.bulk}}
	if guided {
		w.guide = newGuide(env.Seed*6271 + uint64(env.Shard)*31337 + 5)
		layers = []layer{{"coverage-guided", w.guided}}
	}
	for _, l := range layers {
		st := &LayerStat{}
		w.res.Layers[l.name] = st
		t0 := time.Now()
		ok := l.run(st)
		st.Secs = time.Since(t0).Seconds()
		if !ok {
			w.save()
			return 1
		}
	}
	if g := w.guide; g != nil {
		w.res.Corpus, w.res.Edges = len(g.corpus), g.Edges
	}
	w.save()
	hs := make([]byte, 0, 8*w.seen.n)
	for _, v := range w.seen.tab {
		if v != 0 {
			for k := 0; k < 64; k += 8 {
				hs = append(hs, byte(v>>k))
			}
		}
	}
	if err := os.WriteFile(filepath.Join(env.Scratch, "hashes"), hs, 0o600); err != nil {
		return 2
	}
	return 0
}

func (w *worker) late() bool { return time.Now().After(w.stop) }

func (w *worker) enumerate(st *LayerStat) bool {
	st.Complete = true
	if w.p.Enumerate == nil {
		return true
	}
	ok := true
	w.p.Enumerate(w.env, func(c *Case) bool {
		if st.Cases%256 == 255 && w.late() {
			st.Complete = false
			return false
		}
		if err := w.one(c, st); err != nil {
			w.fail("enumeration", c, err)
			ok = false
			return false
		}
		return true
	})
	return ok
}

func (w *worker) rapid(st *LayerStat) bool {
	n := w.env.Pick(w.p.Rapid, w.p.RapidThorough)
	st.Complete = true
	if w.p.Draw == nil || n == 0 {
		return true
	}
	if w.late() {
		st.Complete = false
		return true
	}
	initRapid(w.env.Seed*1009+uint64(w.env.Shard)+1, n)
	var last *Case
	var lastErr error
	tb := &fakeTB{}
	func() {
		defer func() {
			if x := recover(); x != nil {
				if _, ok := x.(failNow); !ok {
					panic(x)
				}
			}
		}()
		stat := st
		rapid.Check(tb, func(t *rapid.T) {
			c := w.p.Draw(gen.Rapid{T: t})
			if w.late() {
				st.Complete = false
				return
			}
			if err := w.one(c, stat); err != nil {
				last, lastErr = c, err
				stat = nil // shrinking does not count as coverage
				t.Fatalf("failed")
			}
		})
	}()
	if last != nil {
		w.fail("rapid", last, lastErr)
		return false
	}
	return true
}

func (w *worker) bulk(st *LayerStat) bool {
	n := w.env.Pick(w.p.Bulk, w.p.BulkThorough)
	st.Complete = true
	if w.p.Draw == nil {
		return true
	}
	src := gen.NewPRNG(w.env.Seed*7919 + uint64(w.env.Shard)*104729 + 13)
	for i := 0; i < n; i++ {
		if i%256 == 255 && w.late() {
			st.Complete = false
			return true
		}
		c := w.p.Draw(src)
		if err := w.one(c, st); err != nil {
			w.fail("bulk", c, err)
			return false
		}
	}
	return true
}

// guided mutates the cases that reached something new in the code under test.
func (w *worker) guided(st *LayerStat) bool {
	st.Complete = true
	one := func(c *Case) bool {
		err := w.one(c, st)
		if err != nil {
			w.fail("coverage-guided", c, err)
		}
		return err == nil
	}
	// the seeds: drawn ones, and some of the enumerated ones
	for i := 0; i < 200; i++ {
		if !one(w.p.Draw(w.guide.src)) {
			return false
		}
	}
	if w.p.Enumerate != nil {
		ok, i, n := true, 0, 0
		w.p.Enumerate(w.env, func(c *Case) bool {
			if strings.HasPrefix(c.Kind, "long ") || c.Kind == "collect" { // slow when instrumented
				return true
			}
			if i++; i&(i-1) == 0 || i%(1+i/128) == 0 {
				n++
				ok = one(c)
			}
			return ok && i < 200000 && n < 1000 && !w.late()
		})
		if !ok {
			return false
		}
	}
	n := w.env.Pick(w.p.Guided, w.p.GuidedThorough)
	if n == 0 {
		n = w.env.Pick(25000, 2000000)
	}
	if x, err := strconv.Atoi(os.Getenv("URN_GUIDED_CASES")); err == nil {
		n = x // for experiments
	}
	for i := 0; i < n; i++ {
		if i%64 == 63 && w.late() {
			st.Complete = false
			return true
		}
		if !one(w.guide.next(w.p.Draw, w.p.KeepIn)) {
			return false
		}
	}
	return true
}

// ReplayCases judges the cases in order in this process; it returns the index
// and error of the first failure.
func ReplayCases(p *Prop, env *Env, cs []*Case) (int, error, error) {
	if p.Setup != nil {
		if err := p.Setup(env); err != nil {
			return -1, nil, err
		}
	}
	rep := max(1, p.Repeat)
	for k := 0; k < rep; k++ {
		for i, c := range cs {
			if err := p.Guarded(c, &Rec{}); err != nil {
				return i, err, nil
			}
		}
	}
	return -1, nil, nil
}
