package eng

import (
	"bufio"
	"encoding/base64"
	"encoding/binary"
	"encoding/json"
	"errors"
	"fmt"
	"hash/fnv"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"
)

// Config of a driver run.
type Config struct {
	Repo, Verif string
	Tier        string
	Seed        uint64
	Self        string // path of this binary
	Guided      string // path of the instrumented binary, or ""
	MaxSecs     float64
	ExtraEnv    []string
}

// Known is one listed, unrepaired finding.
type Known struct{ Prop, Case, Text string }

// LoadKnown reads the "known:" lines of the known-findings file.
func LoadKnown(path string) (out []Known) {
	f, err := os.Open(path)
	if err != nil {
		return nil
	}
	defer f.Close()
	sc := bufio.NewScanner(f)
	sc.Buffer(nil, 1<<24)
	for sc.Scan() {
		l := sc.Text()
		if !strings.HasPrefix(l, "known: ") {
			continue
		}
		k := Known{}
		fs := strings.SplitN(strings.TrimPrefix(l, "known: "), " ", 3)
		for i, x := range fs {
			switch {
			case strings.HasPrefix(x, "property="):
				k.Prop = strings.TrimPrefix(x, "property=")
			case strings.HasPrefix(x, "case="):
				k.Case = strings.TrimPrefix(x, "case=")
			case i == 2:
				k.Text = x
			}
		}
		out = append(out, k)
	}
	return out
}

// SkipSet is the set of encodings of the known findings of a property.
func SkipSet(known []Known, id string) map[string]bool {
	m := map[string]bool{}
	for _, k := range known {
		if k.Prop == id {
			if b, err := base64.StdEncoding.DecodeString(k.Case); err == nil {
				m[string(b)] = true
			}
		}
	}
	return m
}

// Replay is the content of a replay file.
type Replay struct {
	Property string   `json:"property"`
	Tier     string   `json:"tier"`
	Seed     uint64   `json:"seed"`
	Found    string   `json:"found"`
	Error    string   `json:"error"`
	Shows    []string `json:"shows"`
	Cases    []string `json:"cases"`            // base64, judged in order in one process
	Shard    *int     `json:"shard,omitempty"`  // or: rerun this shard
	Guided   bool     `json:"guided,omitempty"` // of the coverage-guided layer
	Note     string   `json:"note,omitempty"`
}

type proc struct {
	shard  int
	guided bool
	dir    string
	cmd    *exec.Cmd
	slot   *slot
	done   chan struct{}
	err    error
	log    string
	killed string // why the driver killed it

	lastSeq   uint64
	seqCPU    float64
	seqWall   time.Time
	wasActive bool
	hang      float64
}

const (
	hangWall = 150 * time.Second
	maxRSS   = 3 << 30
)

func (c *Config) command(dir string, args ...string) *exec.Cmd {
	cmd := exec.Command(c.Self, args...)
	cmd.Dir = dir
	cmd.Env = append(os.Environ(), c.ExtraEnv...)
	cmd.SysProcAttr = &syscall.SysProcAttr{Setpgid: true}
	return cmd
}

func (c *Config) spawn(p *Prop, root string, shard, of int, guided bool) (*proc, error) {
	pr := &proc{hang: p.hangCPU(), shard: shard, guided: guided, dir: filepath.Join(root, fmt.Sprintf("shard%d", shard)), done: make(chan struct{})}
	if guided {
		pr.dir += "g"
	}
	if err := os.MkdirAll(pr.dir, 0o755); err != nil {
		return nil, err
	}
	for _, f := range []string{"slot", "result.json", "hashes"} {
		os.Remove(filepath.Join(pr.dir, f))
	}
	var err error
	if pr.slot, err = openSlot(filepath.Join(pr.dir, "slot")); err != nil {
		return nil, err
	}
	pr.log = filepath.Join(pr.dir, "log")
	lf, err := os.Create(pr.log)
	if err != nil {
		return nil, err
	}
	defer lf.Close()
	secs := c.MaxSecs
	if guided {
		secs *= 0.6
	}
	cmd := c.command(pr.dir, "worker", p.ID, "-shard", strconv.Itoa(shard), "-of", strconv.Itoa(of), "-scratch", pr.dir, "-max-secs", fmt.Sprint(secs))
	if guided {
		cmd.Path = c.Guided
		cmd.Args = append(cmd.Args, "-guided")
	}
	cmd.Stdout, cmd.Stderr = lf, lf
	pr.cmd = cmd
	pr.seqWall = time.Now()
	if err := cmd.Start(); err != nil {
		return nil, err
	}
	go func() { pr.err = cmd.Wait(); close(pr.done) }()
	return pr, nil
}

func (p *proc) kill(why string) {
	if p.killed == "" {
		p.killed = why
	}
	syscall.Kill(-p.cmd.Process.Pid, syscall.SIGKILL)
}

func (p *proc) exited() bool {
	select {
	case <-p.done:
		return true
	default:
		return false
	}
}

// Usage tells the CPU seconds and the memory of a process.
func Usage(pid int) (cpu float64, rss int64) {
	b, err := os.ReadFile(fmt.Sprintf("/proc/%d/stat", pid))
	if err != nil {
		return 0, 0
	}
	s := string(b)
	if i := strings.LastIndexByte(s, ')'); i >= 0 {
		f := strings.Fields(s[i+1:])
		if len(f) > 21 {
			u, _ := strconv.ParseFloat(f[11], 64)
			k, _ := strconv.ParseFloat(f[12], 64)
			cpu = (u + k) / 100
			r, _ := strconv.ParseInt(f[21], 10, 64)
			rss = r * int64(os.Getpagesize())
		}
	}
	return
}

// watch kills a worker that is stuck on one case or that eats the memory.
func (p *proc) watch() {
	if p.exited() {
		return
	}
	seq, active, _ := p.slot.read()
	cpu, rss := Usage(p.cmd.Process.Pid)
	if rss > maxRSS {
		p.kill("memory")
		return
	}
	if seq != p.lastSeq || !active || !p.wasActive {
		p.lastSeq, p.wasActive, p.seqCPU, p.seqWall = seq, active, cpu, time.Now()
		return
	}
	hang, wall := p.hang, hangWall
	if cpu-p.seqCPU > hang || time.Since(p.seqWall) > wall { // a long text?
		if _, _, enc := p.slot.read(); heavy(enc) {
			hang, wall = max(hang, heavyCPU), 2*wall
		}
	}
	if cpu-p.seqCPU > hang {
		p.kill("hang")
	} else if time.Since(p.seqWall) > wall {
		p.kill("hang")
	}
}

// heavyCPU is what a case with a text of megabytes may take, in seconds.
const heavyCPU = 60.0

// heavy says whether a case, which may be too long to be written down, has such
// a text.
func heavy(enc []byte) bool {
	if len(enc) == 0 || len(enc) > 100000 {
		return true
	}
	c, err := Decode(enc)
	return err == nil && (strings.HasPrefix(c.Kind, "long ") || c.Kind == "big")
}

// fresh replays cases in a fresh process. outcome: 0 holds, 1 fails, 2 the
// replay itself could not run.
func (c *Config) fresh(p *Prop, root string, cs []*Case) (outcome int, msg string) {
	dir, err := os.MkdirTemp(root, "replay")
	if err != nil {
		return 2, err.Error()
	}
	defer os.RemoveAll(dir)
	os.Chmod(dir, 0o755)
	var in []string
	hang, wall := p.hangCPU(), hangWall
	for _, x := range cs {
		in = append(in, x.B64())
		if heavy(x.Encode(nil)) {
			hang, wall = max(hang, heavyCPU), 2*hangWall
		}
	}
	b, _ := json.Marshal(in)
	file := filepath.Join(dir, "cases.json")
	if err := os.WriteFile(file, b, 0o600); err != nil {
		return 2, err.Error()
	}
	outf, err := os.Create(filepath.Join(dir, "out"))
	if err != nil {
		return 2, err.Error()
	}
	defer outf.Close()
	cmd := c.command(dir, "cases", p.ID, "-file", file, "-scratch", dir)
	cmd.Stdout, cmd.Stderr = outf, outf
	if err := cmd.Start(); err != nil {
		return 2, err.Error()
	}
	done := make(chan error, 1)
	go func() { done <- cmd.Wait() }()
	t0 := time.Now()
	tick := time.NewTicker(100 * time.Millisecond)
	defer tick.Stop()
	for {
		select {
		case err := <-done:
			out, _ := os.ReadFile(filepath.Join(dir, "out"))
			text := string(out)
			if len(text) > 6000 {
				text = text[:6000]
			}
			if err == nil {
				return 0, ""
			}
			var ee *exec.ExitError
			if errors.As(err, &ee) {
				switch {
				case ee.ExitCode() == 10:
					return 1, text
				case ee.ExitCode() == 11:
					return 2, text
				case strings.Contains(text, "out of memory") || strings.Contains(text, "cannot allocate memory"):
					return 2, text
				case ee.ExitCode() == 66 || strings.Contains(text, "fatal error:") || strings.Contains(text, "panic:") || strings.Contains(text, "SIGSEGV"):
					return 1, "the process died: " + text
				}
			}
			return 2, fmt.Sprint(err, " ", text)
		case <-tick.C:
			cpu, rss := Usage(cmd.Process.Pid)
			why := ""
			if cpu > hang*float64(max(1, p.Repeat)) {
				why = fmt.Sprintf("does not end: %.0f s of CPU time", cpu)
			} else if time.Since(t0) > wall {
				if cpu < 1 {
					why = "does not end: blocked"
				} else {
					why = "!"
				}
			} else if rss > maxRSS {
				why = "more than 3 GB of memory are in use"
			}
			if why != "" {
				syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL)
				<-done
				if why == "!" {
					return 2, "replay took too long"
				}
				return 1, why
			}
		}
	}
}

// DecodeB64 is the inverse of Case.B64; nil when it is malformed.
func DecodeB64(s string) *Case {
	b, err := base64.StdEncoding.DecodeString(s)
	if err != nil {
		return nil
	}
	c, err := Decode(b)
	if err != nil {
		return nil
	}
	return c
}

// Run runs a check and returns its exit status.
func Run(p *Prop, c *Config) int {
	t0 := time.Now()
	root, err := os.MkdirTemp("", "urncheck-"+p.ID+"-")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	defer os.RemoveAll(root)
	os.Chmod(root, 0o755)

	known := LoadKnown(filepath.Join(c.Verif, "known-findings.txt"))
	for _, k := range known {
		if k.Prop != p.ID {
			continue
		}
		if kc := DecodeB64(k.Case); kc != nil {
			if out, _ := c.fresh(p, root, []*Case{kc}); out == 1 {
				fmt.Printf("KNOWN-FINDING: property=%s %s\n", p.ID, k.Text)
			}
		}
	}

	of := p.shards()
	var rep *Replay
	var results []*WorkerResult
	var dirs []string
	phases := []bool{false}
	if c.Guided != "" && !p.Unguided && p.Draw != nil {
		phases = append(phases, true)
	}
	for _, guided := range phases {
		for attempt := 0; ; attempt++ {
			r, rs, ds, again, msg := c.runShards(p, root, of, guided)
			rep = r
			if rep != nil || msg == "" {
				results, dirs = append(results, rs...), append(dirs, ds...)
				break
			}
			if !again || attempt >= 1 {
				fmt.Fprintf(os.Stderr, "%s: error of the check: %s\n", p.ID, msg)
				return 2
			}
			fmt.Fprintf(os.Stderr, "%s: a worker died, trying once more: %s\n", p.ID, msg)
		}
		if rep != nil {
			break
		}
	}
	ev := c.evidence(p, results, dirs, time.Since(t0).Seconds(), rep)
	if err := ev; err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	if rep == nil {
		return 0
	}
	path, err := c.writeReplay(p, rep)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	for _, s := range rep.Shows {
		fmt.Println("case:", s)
	}
	fmt.Println(strings.TrimRight(rep.Error, "\n"))
	fmt.Printf("VIOLATION property=%s replay=%s\n", p.ID, path)
	return 1
}

func (c *Config) writeReplay(p *Prop, rep *Replay) (string, error) {
	rep.Property, rep.Tier, rep.Seed = p.ID, c.Tier, c.Seed
	if len(rep.Shows) == 0 {
		for i, x := range rep.Cases {
			if d := DecodeB64(x); d != nil && i >= len(rep.Cases)-20 {
				rep.Shows = append(rep.Shows, d.String())
			}
		}
	}
	dir := filepath.Join(c.Verif, "replays")
	if err := os.MkdirAll(dir, 0o755); err != nil {
		return "", err
	}
	h := fnv.New32a()
	for _, x := range rep.Cases {
		h.Write([]byte(x))
	}
	path := filepath.Join(dir, fmt.Sprintf("%s-%08x.json", p.ID, h.Sum32()))
	b, _ := json.MarshalIndent(rep, "", " ")
	return path, os.WriteFile(path, b, 0o644)
}

// runShards runs all workers. It returns a confirmed violation, or the results,
// or an error message and whether to try again.
func (c *Config) runShards(p *Prop, root string, of int, guided bool) (rep *Replay, results []*WorkerResult, dirs []string, again bool, msg string) {
	var ps []*proc
	defer func() {
		for _, x := range ps {
			if !x.exited() {
				x.kill("end")
				<-x.done
			}
		}
	}()
	for i := 0; i < of; i++ {
		x, err := c.spawn(p, root, i, of, guided)
		if err != nil {
			return nil, nil, nil, true, err.Error()
		}
		ps = append(ps, x)
	}
	tick := time.NewTicker(50 * time.Millisecond)
	defer tick.Stop()
	n := 0
	for range tick.C {
		n++
		left := 0
		var bad *proc
		for _, x := range ps {
			if !x.exited() {
				left++
				if n%5 == 0 {
					x.watch()
				}
			} else if bad == nil && (x.err != nil || x.killed != "") {
				bad = x
			}
		}
		if bad != nil {
			for _, x := range ps {
				if !x.exited() {
					x.kill("end")
					<-x.done
				}
			}
			for _, x := range ps {
				r := &WorkerResult{}
				if b, err := os.ReadFile(filepath.Join(x.dir, "result.json")); err == nil && json.Unmarshal(b, r) == nil {
					results = append(results, r)
				}
			}
			rep, again, msg = c.judge(p, root, bad, of)
			return rep, results, nil, again, msg
		}
		if left == 0 {
			break
		}
	}
	for _, x := range ps {
		r := &WorkerResult{}
		b, err := os.ReadFile(filepath.Join(x.dir, "result.json"))
		if err == nil {
			err = json.Unmarshal(b, r)
		}
		if err != nil {
			return nil, nil, nil, true, err.Error()
		}
		results = append(results, r)
		dirs = append(dirs, x.dir)
	}
	return nil, results, dirs, false, ""
}

// judge decides what a worker that ended badly means.
func (c *Config) judge(p *Prop, root string, x *proc, of int) (rep *Replay, again bool, msg string) {
	logb, _ := os.ReadFile(x.log)
	text := string(logb)
	if len(text) > 6000 {
		text = text[:6000]
	}
	r := &WorkerResult{}
	b, err := os.ReadFile(filepath.Join(x.dir, "result.json"))
	if err == nil {
		err = json.Unmarshal(b, r)
	}
	if err == nil && r.SetupError != "" {
		return nil, false, "setup: " + r.SetupError
	}
	if err == nil && r.Failure != nil {
		f := r.Failure
		for _, cand := range []string{f.Minimised, f.Case} {
			if d := DecodeB64(cand); cand != "" && d != nil {
				if out, m := c.fresh(p, root, []*Case{d}); out == 1 {
					return &Replay{Error: m, Cases: []string{cand}, Found: f.Layer}, false, ""
				}
			}
		}
		// it depends on what was done before in the process
		var hist []*Case
		for _, h := range f.History {
			if d := DecodeB64(h); d != nil {
				hist = append(hist, d)
			}
		}
		for _, k := range []int{2, 8, 64, ringLen} {
			if k > len(hist) {
				k = len(hist)
			}
			h := hist[len(hist)-k:]
			if out, m := c.fresh(p, root, h); out == 1 {
				h = MinimiseSeq(h, 20*time.Second, func(cs []*Case) bool {
					o, mm := c.fresh(p, root, cs)
					if o == 1 {
						m = mm
					}
					return o == 1
				})
				rp := &Replay{Error: m, Found: f.Layer, Note: "the last case fails only after the others in the same process"}
				for _, h := range h {
					rp.Cases = append(rp.Cases, h.B64())
				}
				return rp, false, ""
			}
			if k == len(hist) {
				break
			}
		}
		return &Replay{Error: f.Error, Cases: []string{f.Case}, Shard: &x.shard, Guided: x.guided, Found: f.Layer, Note: "observed once; replays by running the shard again"}, false, ""
	}
	// it died without a verdict: the slot tells on which case
	_, active, enc := x.slot.read()
	cause := x.killed
	if cause == "" {
		cause = fmt.Sprint(x.err)
	}
	var xe *exec.ExitError
	if errors.As(x.err, &xe) && xe.ExitCode() == ExitInconclusive && x.killed == "" {
		return nil, true, text
	}
	if !active {
		return nil, true, "worker: " + cause + ": " + text
	}
	d, derr := Decode(enc)
	if derr == nil && len(enc) > 0 {
		out, m := c.fresh(p, root, []*Case{d})
		if out == 1 {
			min := c.minimiseFresh(p, root, d, x.killed != "")
			if o, mm := c.fresh(p, root, []*Case{min}); o == 1 {
				d, m = min, mm
			}
			return &Replay{Error: m, Cases: []string{d.B64()}, Found: "worker death"}, false, ""
		}
	}
	if strings.Contains(text, "DATA RACE") && strings.Contains(text, "go-urn") {
		rp := &Replay{Error: text, Shard: &x.shard, Guided: x.guided, Found: "race detector", Note: "observed once; replays by running the shard again"}
		if derr == nil {
			rp.Cases = []string{d.B64()}
		}
		return rp, false, ""
	}
	// does the shard die again at the same place?
	seq, _, _ := x.slot.read()
	y, err := c.spawn(p, filepath.Join(root, "again"), x.shard, of, x.guided)
	if err != nil {
		return nil, true, err.Error()
	}
	for !y.exited() {
		time.Sleep(100 * time.Millisecond)
		y.watch()
	}
	seq2, active2, enc2 := y.slot.read()
	if (y.err != nil || y.killed != "") && active2 && seq == seq2 && string(enc) == string(enc2) && !strings.Contains(text, "out of memory") && (x.killed == "hang" || strings.Contains(text, "fatal error") || strings.Contains(text, "panic") || strings.Contains(text, "SIG")) {
		rp := &Replay{Error: cause + ": " + text, Shard: &x.shard, Guided: x.guided, Found: "worker death", Note: "replays by running the shard again"}
		if derr == nil {
			rp.Cases = []string{d.B64()}
		}
		return rp, false, ""
	}
	return nil, true, "worker: " + cause + ": " + text
}

// minimiseFresh reduces a case that kills its process, one process per try.
func (c *Config) minimiseFresh(p *Prop, root string, d *Case, slow bool) *Case {
	budget := 20 * time.Second
	if slow { // each failing try costs the whole hang limit
		return d
	}
	return Minimise(d, p.KeepIn, budget, func(x *Case) bool { o, _ := c.fresh(p, root, []*Case{x}); return o == 1 })
}

type evLayer struct {
	Cases    int     `json:"cases"`
	Complete bool    `json:"complete"`
	Secs     float64 `json:"max_secs"`
}

func (c *Config) evidence(p *Prop, results []*WorkerResult, dirs []string, wall float64, rep *Replay) error {
	evals, labels, layers := 0, map[string]int{}, map[string]*evLayer{}
	nontriv := 0
	var samples []string
	for i, r := range results {
		evals += r.Evaluations
		nontriv += r.Nontrivial
		for k, v := range r.Labels {
			labels[k] += v
		}
		for k, v := range r.Layers {
			l := layers[k]
			if l == nil {
				l = &evLayer{Complete: true}
				layers[k] = l
			}
			l.Cases += v.Cases
			l.Complete = l.Complete && v.Complete
			l.Secs = max(l.Secs, v.Secs)
		}
		if len(r.Samples) > 0 {
			samples = append(samples, r.Samples[i%len(r.Samples)])
		}
	}
	distinct := countDistinct(dirs)
	if distinct == 0 {
		distinct = min(nontriv, len(samples))
	}
	if len(samples) == 0 {
		samples = []string{"none"}
	}
	cov := map[string]any{
		"evaluations": evals, "distinct_nontrivial": distinct, "rule": p.Rule, "samples": samples,
		"labels": labels, "layers": layers, "workers": p.shards(),
	}
	if l := layers["enumeration"]; l != nil && l.Cases > 0 {
		cov["enumerated_space_completed"] = l.Complete && rep == nil
	}
	corpus, edges := 0, 0
	for _, r := range results {
		corpus += r.Corpus
		edges = max(edges, r.Edges)
	}
	if corpus > 0 {
		cov["rule"] = p.Rule + " Coverage-guided layer: drawn and enumerated cases and those that reached new edges or closer comparisons in the instrumented library, mutated (bytes, ranges, repetitions, crossing, operands of its comparisons, numbers)."
		cov["coverage_guided"] = map[string]any{"corpus": corpus, "edges_reached": edges}
	}
	if rep != nil {
		cov["violation_found_by"] = rep.Found
	}
	viol := 0
	if rep != nil {
		viol = 1
	}
	ev := map[string]any{
		"property": p.ID, "tier": c.Tier, "seed": c.Seed, "level": "exploration", "coverage": cov,
		"assumptions": []string{"the reference model in harness/ref and the Go toolchain and standard library are right"},
		"wall_s":      wall, "violations": viol,
	}
	b, err := json.MarshalIndent(ev, "", " ")
	if err != nil {
		return err
	}
	dir := filepath.Join(c.Verif, "evidence")
	if err := os.MkdirAll(dir, 0o755); err != nil {
		return err
	}
	return os.WriteFile(filepath.Join(dir, p.ID+".json"), append(b, '\n'), 0o644)
}

func countDistinct(dirs []string) int {
	var mu sync.Mutex
	var wg sync.WaitGroup
	total := 0
	// partition by the top bits so that the shards can be merged in parallel
	var all [][]byte
	for _, d := range dirs {
		b, err := os.ReadFile(filepath.Join(d, "hashes"))
		if err == nil {
			all = append(all, b)
		}
	}
	const parts = 8
	for k := 0; k < parts; k++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			var vs []uint64
			for _, b := range all {
				for i := 0; i+8 <= len(b); i += 8 {
					v := binary.LittleEndian.Uint64(b[i:])
					if v>>61 == uint64(k) {
						vs = append(vs, v)
					}
				}
			}
			sort.Slice(vs, func(i, j int) bool { return vs[i] < vs[j] })
			n := 0
			for i, v := range vs {
				if i == 0 || v != vs[i-1] {
					n++
				}
			}
			mu.Lock()
			total += n
			mu.Unlock()
		}()
	}
	wg.Wait()
	return total
}

// ReplayFile reruns what a replay file describes.
func ReplayFile(p *Prop, c *Config, r *Replay) (failed bool, msg string, err error) {
	root, err := os.MkdirTemp("", "urnreplay-")
	if err != nil {
		return false, "", err
	}
	defer os.RemoveAll(root)
	os.Chmod(root, 0o755)
	var cs []*Case
	for _, x := range r.Cases {
		if d := DecodeB64(x); d != nil {
			cs = append(cs, d)
		}
	}
	if len(cs) > 0 {
		out, m := c.fresh(p, root, cs)
		if out == 1 {
			return true, m, nil
		}
		if out == 2 {
			return false, "", errors.New(m)
		}
	}
	if r.Shard != nil {
		of := p.shards()
		if r.Guided && c.Guided == "" {
			return false, "", errors.New("this replay needs the instrumented binary")
		}
		x, err := c.spawn(p, root, *r.Shard, of, r.Guided)
		if err != nil {
			return false, "", err
		}
		for !x.exited() {
			time.Sleep(100 * time.Millisecond)
			x.watch()
		}
		if x.err != nil || x.killed != "" {
			rep, _, m := c.judge(p, root, x, of)
			if rep != nil {
				return true, rep.Error, nil
			}
			return false, "", errors.New(m)
		}
	}
	return false, "", nil
}
