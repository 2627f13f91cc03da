package main

import (
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"math/bits"
	"os/exec"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"vdst/scen"
)

// Env runs scenarios in fresh worker processes and counts what happened.
type Env struct {
	Worker, Race string
	mu           sync.Mutex
	st           Stats
	watchdog     int64
	nAudit       int64
}

type Stats struct {
	Runs, RaceRuns   int64
	Steps            uint64
	SimNanos         int64
	Switches         uint64
	Sw               map[uint64]bool // distinct interleavings (hash over the order of switches)
	Out              map[string]bool // distinct outcomes (hash of tree or error)
	Faults           map[string]int64
	Classes          map[string]int64
	IOOps            uint64
	RandDraws        uint64
	Goroutines       int64
	Audits, AuditBad int64
	Cov              []byte // yield points reached by any run
}

// Run is the outcome of one worker process.
type Run struct {
	R     *scen.Result
	Fatal string // the process died: first lines of stderr
	Races string // report of the race detector
	Raw   []byte
	Stuck bool // ended by the wall clock
}

type infraError struct{ msg string }

func (e infraError) Error() string { return e.msg }

func NewEnv(worker, race string) *Env {
	return &Env{Worker: worker, Race: race, st: Stats{Sw: map[uint64]bool{}, Out: map[string]bool{}, Faults: map[string]int64{}, Classes: map[string]int64{}}}
}

func (e *Env) count(kind string, n int64) {
	if n == 0 {
		return
	}
	e.mu.Lock()
	e.st.Faults[kind] += n
	e.mu.Unlock()
}

const defaultBudget = 40_000_000

// Exec runs one scenario; trouble with the machinery itself panics with infraError. When the
// steps run out, it is run again with far more of them, because the budget shall end only runs
// which never end; what is too long is the concern of C14, which uses exec itself.
func (e *Env) Exec(s *scen.Scenario, race bool) *Run {
	if s.Budget == 0 {
		s.Budget = defaultBudget
	}
	run := e.exec(s, race)
	if run.R != nil && run.R.Budget && s.Budget < 50*defaultBudget {
		s.Budget = min(20*s.Budget, 50*defaultBudget)
		run = e.exec(s, race)
	}
	if run.R != nil && run.R.Lost {
		panic(tooLong{})
	}
	return run
}

// tooLong: the record of the system calls of a run is not complete.
type tooLong struct{}

func (d *PropDef) judge(e *Env, c *Case) (v *Verdict) {
	defer func() {
		if x := recover(); x != nil {
			if _, ok := x.(tooLong); !ok {
				panic(x)
			}
			e.count("runs with too many system calls", 1)
			v = trivial
		}
	}()
	return d.Judge(e, c)
}

func (e *Env) exec(s *scen.Scenario, race bool) *Run {
	in, err := json.Marshal(s)
	if err != nil {
		panic(infraError{err.Error()})
	}
	bin := e.Worker
	env := []string{fmt.Sprint("VERIFBOOT=", s.Boot), "GOMAXPROCS=1", "PWD=/sim/work", "TZ=UTC"}
	if race {
		bin = e.Race
		env = append(env, "GORACE=atexit_sleep_ms=0 exitcode=0 history_size=4")
	}
	var last string
	for try := 0; try < 3; try++ {
		ctx, cancel := context.WithTimeout(context.Background(), 90*time.Second)
		cmd := exec.CommandContext(ctx, bin)
		cmd.Env = env
		cmd.Stdin = bytes.NewReader(in)
		var out, eb bytes.Buffer
		cmd.Stdout, cmd.Stderr = &out, &eb
		err := cmd.Run()
		timedOut := ctx.Err() != nil
		cancel()
		if timedOut {
			// a loop without a yield point; the step budget could not end it
			atomic.AddInt64(&e.watchdog, 1)
			return &Run{Stuck: true, Fatal: "no progress: the run did not end within 90 s of wall time"}
		}
		run := &Run{Raw: append([]byte(nil), out.Bytes()...)}
		if err == nil {
			var r scen.Result
			if jerr := json.Unmarshal(out.Bytes(), &r); jerr != nil {
				last = "bad worker output: " + jerr.Error() + " " + headLines(eb.String(), 5)
				continue
			}
			run.R = &r
			if race && strings.Contains(eb.String(), "DATA RACE") {
				run.Races = eb.String()
			}
			if e.note(s, run, race); !race && !s.Mem {
				e.audit(s, run)
			}
			return run
		}
		ee, ok := err.(*exec.ExitError)
		if ok && ee.ExitCode() == 2 && strings.Contains(eb.String(), "goroutine ") {
			run.Fatal = headLines(eb.String(), 12)
			e.note(s, run, race)
			return run
		}
		last = fmt.Sprint(err, " ", headLines(eb.String(), 8))
	}
	panic(infraError{"worker failed: " + last})
}

func (e *Env) note(s *scen.Scenario, run *Run, race bool) {
	e.mu.Lock()
	defer e.mu.Unlock()
	st := &e.st
	st.Runs++
	if race {
		st.RaceRuns++
	}
	if run.R == nil {
		st.Classes["fatal"]++
		return
	}
	r := run.R
	for len(st.Cov) < len(r.Cov) {
		st.Cov = append(st.Cov, 0)
	}
	for i, b := range r.Cov {
		st.Cov[i] |= b
	}
	st.Steps += r.Steps
	st.SimNanos += r.SimNanos
	st.Switches += r.Switches
	st.IOOps += r.Ops
	st.RandDraws += r.RandN
	if len(s.Tasks) > 1 {
		st.Goroutines += int64(len(s.Tasks))
	}
	if r.Switches > 0 {
		st.Sw[r.SwHash] = true
	}
	if r.StdFaults > 0 {
		st.Faults["stderr write failed or short"] += int64(r.StdFaults)
	}
	if r.FaultReads > 0 {
		st.Faults["read failed, interrupted or short"] += int64(r.FaultReads)
	}
	for _, o := range r.Opens {
		if o.Ret < 0 {
			st.Faults["open failed"]++
		}
	}
	for _, l := range append([][]scen.OpRes{r.Setup, r.Final}, r.Tasks...) {
		for i := range l {
			st.Classes[l[i].Class]++
			if l[i].Hash != "" {
				st.Out[l[i].Hash] = true
			}
		}
	}
}

func headLines(s string, n int) string {
	ls := strings.Split(s, "\n")
	if len(ls) > n {
		ls = ls[:n]
	}
	return strings.Join(ls, "\n")
}

// audit runs every 97th scenario a second time: the whole record has to be identical, byte for
// byte.
func (e *Env) audit(s *scen.Scenario, run *Run) {
	for _, t := range s.Tasks {
		for _, o := range t.Ops {
			if o.Kind == "heap" { // live bytes vary a little
				return
			}
		}
	}
	if atomic.AddInt64(&e.nAudit, 1)%97 != 1 {
		return
	}
	in, _ := json.Marshal(s)
	cmd := exec.Command(e.Worker)
	cmd.Env = []string{fmt.Sprint("VERIFBOOT=", s.Boot), "GOMAXPROCS=1", "PWD=/sim/work", "TZ=UTC"}
	cmd.Stdin = bytes.NewReader(in)
	out, err := cmd.Output()
	e.mu.Lock()
	defer e.mu.Unlock()
	e.st.Audits++
	if err != nil || !bytes.Equal(out, run.Raw) {
		e.st.AuditBad++
	}
}

// reached counts the yield points some run passed.
func (s *Stats) reached() int {
	n := 0
	for _, b := range s.Cov {
		n += bits.OnesCount8(b)
	}
	return n
}
