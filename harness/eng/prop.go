package eng

import (
	"fmt"
	"os"
	"runtime/debug"

	"verif/harness/gen"
)

// Rec is what a check says about the case it just judged.
type Rec struct {
	Nontrivial bool
	Label      string
}

// Env describes the run to the property.
type Env struct {
	Repo    string // tree under test
	Scratch string // directory the worker may write to
	Tier    string
	Seed    uint64
	Shard   int
	Of      int
}

// Thorough reports if this is a deep run.
func (e *Env) Thorough() bool { return e.Tier == "thorough" }

// Pick returns the value of the tier.
func (e *Env) Pick(quick, thorough int) int {
	if e.Thorough() {
		return thorough
	}
	return quick
}

// Prop is an executable property.
type Prop struct {
	ID   string
	Rule string // how cases are made, and what makes one non-trivial

	// Setup prepares a process (workers and replays alike).
	Setup func(e *Env) error
	// Check is the oracle: nil when the property holds on the case.
	Check func(c *Case, r *Rec) error
	// Enumerate lists a finite space, dealt to the shards.
	Enumerate func(e *Env, yield func(*Case) bool)
	// Draw makes a case from choices.
	Draw func(s gen.Src) *Case

	// Number of rapid and of bulk cases per shard.
	Rapid, RapidThorough int
	Bulk, BulkThorough   int
	// and of coverage-guided ones: see worker.guided
	Guided, GuidedThorough int
	Unguided               bool

	Race     bool    // build with the race detector
	Shards   int     // default 8
	Procs    int     // GOMAXPROCS of a worker, default 2
	Repeat   int     // how often a replay runs the case (default 1)
	KeepIn   bool    // the minimiser must not drop inputs
	ShrinkMs int     // budget of the minimiser
	HangCPU  float64 // seconds of CPU time after which one case hangs (default 10)
}

// ExitInconclusive is the status of a process that could not judge a case.
const ExitInconclusive = 12

// Inconclusive ends the process: the environment, not the code under test,
// failed.
func Inconclusive(err error) {
	fmt.Fprintln(os.Stderr, "inconclusive:", err)
	os.Exit(ExitInconclusive)
}

func (p *Prop) hangCPU() float64 {
	if p.HangCPU > 0 {
		return p.HangCPU
	}
	return 10
}

func (p *Prop) shards() int {
	if p.Shards > 0 {
		return p.Shards
	}
	return 8
}

// Guarded runs the check, turning a panic into a failure.
func (p *Prop) Guarded(c *Case, r *Rec) (err error) {
	defer func() {
		if x := recover(); x != nil {
			st := debug.Stack()
			if len(st) > 4000 {
				st = st[:4000]
			}
			err = fmt.Errorf("panic: %v\n%s", x, st)
		}
	}()
	return p.Check(c, r)
}
