// Command urncheck decides the properties of leodido/go-urn listed in
// /verif/properties.jsonl by generated-input search.
package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"strconv"

	"verif/harness/eng"
	"verif/harness/props"
)

func die(a ...any) {
	fmt.Fprintln(os.Stderr, a...)
	os.Exit(2)
}

func seedOf(s string) uint64 {
	if n, err := strconv.ParseUint(s, 10, 64); err == nil {
		return n
	}
	h := uint64(1469598103934665603)
	for i := 0; i < len(s); i++ {
		h = (h ^ uint64(s[i])) * 1099511628211
	}
	return h
}

func getenv(k, d string) string {
	if v := os.Getenv(k); v != "" {
		return v
	}
	return d
}

func main() {
	if len(os.Args) < 3 {
		die("usage: urncheck run|worker|cases|replay ID|FILE ...")
	}
	cmd, arg := os.Args[1], os.Args[2]
	if cmd == "cold" {
		runtime.GOMAXPROCS(4)
		props.Cold(decode([]string{arg})[0])
		return
	}
	fs := flag.NewFlagSet("urncheck", flag.ExitOnError)
	shard := fs.Int("shard", 0, "")
	of := fs.Int("of", 1, "")
	scratch := fs.String("scratch", "", "")
	maxSecs := fs.Float64("max-secs", 60, "")
	file := fs.String("file", "", "")
	guided := fs.Bool("guided", false, "")
	fs.Parse(os.Args[3:])

	tier := getenv("VERIF_TIER", "quick")
	if tier != "thorough" {
		tier = "quick"
	}
	repo := getenv("URN_REPO", "/repo")
	verif := getenv("URN_VERIF", "/verif")
	seed := seedOf(getenv("VERIF_SEED", "1"))
	env := &eng.Env{Repo: repo, Scratch: *scratch, Tier: tier, Seed: seed, Shard: *shard, Of: *of}

	if cmd == "replay" {
		replay(arg, verif, repo)
	}
	p := props.ByID(arg)
	if p == nil {
		die("no property", arg)
	}
	switch cmd {
	case "run":
		os.Exit(eng.Run(p, config(repo, verif, tier, seed)))
	case "worker":
		procs(p)
		skip := eng.SkipSet(eng.LoadKnown(filepath.Join(verif, "known-findings.txt")), p.ID)
		os.Exit(eng.Worker(p, env, skip, *maxSecs, *guided))
	case "cases":
		procs(p)
		b, err := os.ReadFile(*file)
		if err != nil {
			die(err)
		}
		var in []string
		if err := json.Unmarshal(b, &in); err != nil {
			die(err)
		}
		cs := decode(in)
		i, err, serr := eng.ReplayCases(p, env, cs)
		if serr != nil {
			fmt.Println(serr)
			os.Exit(11)
		}
		if err != nil {
			fmt.Printf("%s: %v\n", cs[i], err)
			os.Exit(10)
		}
	default:
		die("unknown command", cmd)
	}
}

func config(repo, verif, tier string, seed uint64) *eng.Config {
	self, err := os.Executable()
	if err != nil {
		die(err)
	}
	c := &eng.Config{Repo: repo, Verif: verif, Tier: tier, Seed: seed, Self: self, MaxSecs: 150}
	if g := os.Getenv("URN_GUIDED"); g != "" {
		if _, err := os.Stat(g); err == nil {
			c.Guided = g
		}
	}
	if tier == "thorough" {
		c.MaxSecs = 1500
	}
	c.ExtraEnv = []string{"GORACE=halt_on_error=1 exitcode=66 history_size=3 atexit_sleep_ms=0", "GOTRACEBACK=all"}
	return c
}

func procs(p *eng.Prop) {
	n := p.Procs
	if n == 0 {
		n = 2
	}
	runtime.GOMAXPROCS(n)
	debug.SetGCPercent(400)
}

func decode(in []string) []*eng.Case {
	var cs []*eng.Case
	for _, x := range in {
		c := eng.DecodeB64(x)
		if c == nil {
			die("bad case", x)
		}
		cs = append(cs, c)
	}
	return cs
}

func replay(path, verif, repo string) {
	b, err := os.ReadFile(path)
	if err != nil {
		die(err)
	}
	var r eng.Replay
	if err := json.Unmarshal(b, &r); err != nil {
		die(err)
	}
	p := props.ByID(r.Property)
	if p == nil {
		die("no property", r.Property)
	}
	os.Setenv("VERIF_TIER", r.Tier)
	os.Setenv("VERIF_SEED", fmt.Sprint(r.Seed))
	c := config(repo, verif, r.Tier, r.Seed)
	failed, msg, err := eng.ReplayFile(p, c, &r)
	if err != nil {
		die(err)
	}
	if failed {
		fmt.Println(msg)
		fmt.Printf("VIOLATION property=%s replay=%s\n", r.Property, path)
		os.Exit(1)
	}
	fmt.Println("the property holds on the replayed case")
	os.Exit(0)
}
