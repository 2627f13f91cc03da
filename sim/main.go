// Command vdst explores a property of tparser by deterministic simulation.
package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"path/filepath"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

var props = []*PropDef{&c01, &c02, &c03, &c04, &c05, &c06, &c07, &c08, &c09, &c10, &c11, &c12, &c13, &c14, &c15, &c19, &c20, &c21, &c22, &c23, &c24}

func def(id string) *PropDef {
	for _, p := range props {
		if p.ID == id {
			return p
		}
	}
	return nil
}

func main() {
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: vdst check|replay|build ...")
		os.Exit(2)
	}
	code := 2
	func() {
		defer func() {
			if v := recover(); v != nil {
				if ie, ok := v.(infraError); ok {
					fmt.Fprintln(os.Stderr, "error of the check:", ie.msg)
					code = 2
					return
				}
				panic(v)
			}
		}()
		switch os.Args[1] {
		case "check":
			code = check(os.Args[2:])
		case "replay":
			code = replay(os.Args[2:])
		case "build":
			code = warm()
		case "worker": // development: build into the given directory
			b, err := NewBuilder(repoDir(), verifDir(), os.Args[2])
			if err == nil {
				_, _, err = b.BuildAll(true)
			}
			fmt.Println(err)
			code = 0
		}
	}()
	os.Exit(code)
}

func verifDir() string {
	if d := os.Getenv("VERIF_DIR"); d != "" {
		return d
	}
	return "/verif"
}

func repoDir() string {
	if d := os.Getenv("VERIF_REPO"); d != "" {
		return d
	}
	return "/repo"
}

// build makes the worker from the working tree in a scratch directory of this run.
func build(race bool) (*Env, *Builder, func()) {
	dir := filepath.Join(verifDir(), ".build", fmt.Sprint("run", os.Getpid()))
	os.RemoveAll(dir)
	if err := os.MkdirAll(dir, 0755); err != nil {
		panic(infraError{err.Error()})
	}
	clean := func() { os.RemoveAll(dir) }
	b, err := NewBuilder(repoDir(), verifDir(), dir)
	if err != nil {
		clean()
		panic(infraError{err.Error()})
	}
	w, r, err := b.BuildAll(race)
	if err != nil {
		clean()
		panic(infraError{"build: " + err.Error()})
	}
	return NewEnv(w, r), b, clean
}

// warm fills the build cache.
func warm() int {
	_, b, clean := build(true)
	defer clean()
	fmt.Printf("built: %d yield points in %d packages\n", b.Points, len(b.Packages))
	return 0
}

type Replay struct {
	Property, Kind, Detail string
	Seed                   uint64
	Index                  int
	How                    string
	Case                   *Case
	Texts                  map[string]string // the files, for reading
}

func envInt(name string, d uint64) uint64 {
	if s := os.Getenv(name); s != "" {
		if v, err := strconv.ParseUint(s, 10, 64); err == nil {
			return v
		}
		return hashStr(s)
	}
	return d
}

func check(args []string) int {
	fl := flag.NewFlagSet("check", flag.ExitOnError)
	id := fl.String("prop", "", "property")
	tier := fl.String("tier", os.Getenv("VERIF_TIER"), "quick or thorough")
	secs := fl.Int("secs", 0, "seconds of exploration")
	maxCases := fl.Int("cases", 0, "stop after so many cases")
	one := fl.Int("index", -1, "only this case")
	keep := fl.Bool("all", false, "report all kinds of violations, do not stop (development)")
	mins := fl.Int("minimise", 30, "seconds to spend on minimising a violation")
	bin := fl.String("worker", "", "use this worker (development)")
	fl.Parse(args)
	d := def(*id)
	if d == nil {
		fmt.Fprintln(os.Stderr, "unknown property", *id)
		return 2
	}
	if *tier != "thorough" {
		*tier = "quick"
	}
	if *secs == 0 {
		*secs = 40
		if *tier == "thorough" {
			*secs = 600
		}
	}
	seed := envInt("VERIF_SEED", 1)
	start := time.Now()
	var env *Env
	var b *Builder
	if *bin != "" {
		env, b = NewEnv(*bin, *bin+"_race"), &Builder{}
		if js, err := os.ReadFile(filepath.Join(filepath.Dir(*bin), "points.json")); err == nil {
			json.Unmarshal(js, &b.Where)
			b.Points = len(b.Where) - 1
		}
	} else {
		var clean func()
		env, b, clean = build(d.Race)
		defer clean()
	}
	buildS := time.Since(start).Seconds()
	known := loadKnown(*id)
	harvest(repoDir())

	t0 := time.Now()
	deadline := t0.Add(time.Duration(*secs) * time.Second)
	var next int64 = -1
	var mu sync.Mutex
	distinct := map[string]bool{}
	samples := []interface{}{}
	nontrivial, evals := 0, 0
	kinds := map[string]int{}
	type hit struct {
		i int
		c *Case
		v *Verdict
	}
	var hits []hit
	var infra atomic.Value
	var stop int32
	knownHit := map[string]bool{}
	var wg sync.WaitGroup
	for w := 0; w < 8; w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			defer func() {
				if v := recover(); v != nil {
					ie, ok := v.(infraError)
					if !ok {
						panic(v)
					}
					infra.Store(ie)
					atomic.StoreInt32(&stop, 1)
				}
			}()
			for atomic.LoadInt32(&stop) == 0 && time.Now().Before(deadline) {
				i := int(atomic.AddInt64(&next, 1))
				if *maxCases > 0 && i >= *maxCases {
					return
				}
				if *one >= 0 {
					if i > 0 {
						return
					}
					i = *one
				}
				c := d.Gen(NewRng(seed, hashStr(d.ID), uint64(i)))
				c.Prop = d.ID
				tc := time.Now()
				v := d.judge(env, c)
				if dt := time.Since(tc); dt > 5*time.Second && os.Getenv("VERIF_SLOW") != "" {
					fmt.Fprintf(os.Stderr, "case %d took %v\n", i, dt)
				}
				h := caseHash(c)
				mu.Lock()
				evals++
				if v.Trivial {
					kinds["trivial"]++
				} else {
					kinds["judged"]++
					if distinct[h] && os.Getenv("VERIF_SLOW") != "" {
						fmt.Fprintf(os.Stderr, "case %d repeats an earlier one %s %d %v %+v\n", i, h, len(c.Batch), c.Dmg, c.Projs[0].Mods[0])
					}
					if !distinct[h] {
						distinct[h] = true
						nontrivial++
						if len(samples) < 3 {
							samples = append(samples, sample(c, i))
						}
					}
				}
				if v.Bad != "" {
					if k := matchKnown(known, v); k != "" {
						knownHit[k] = true
					} else {
						hits = append(hits, hit{i, c, v})
						if !*keep {
							atomic.StoreInt32(&stop, 1)
						}
					}
				}
				mu.Unlock()
			}
		}()
	}
	wg.Wait()
	if ie := infra.Load(); ie != nil && len(hits) == 0 {
		panic(ie.(infraError))
	}
	exploreS := time.Since(t0).Seconds()
	for _, k := range known {
		if k.finding {
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", d.ID, k.text)
		}
	}
	code := 0
	nviol := 0
	if len(hits) > 0 {
		best := hits[0]
		for _, h := range hits {
			if h.i < best.i {
				best = h
			}
		}
		if *keep {
			seen := map[string]int{}
			for _, h := range hits {
				seen[h.v.Bad]++
				if seen[h.v.Bad] <= 3 {
					fmt.Printf("%s case %d: %s: %s\n", d.ID, h.i, h.v.Bad, h.v.Detail)
				}
			}
			fmt.Println(seen)
		}
		nviol = len(hits)
		c, v, tried := shrink(env, d, best.c, best.v, time.Duration(*mins)*time.Second)
		rp := Replay{Property: d.ID, Kind: v.Bad, Detail: v.Detail, Seed: seed, Index: best.i, How: "cd /verif && ./check.sh replay <this file>", Case: c, Texts: map[string]string{}}
		for _, f := range c.FS().Files {
			if len(f.Vers) > 0 {
				rp.Texts[f.Path] = string(f.Vers[0])
			}
		}
		dir := filepath.Join(verifDir(), "replays")
		os.MkdirAll(dir, 0755)
		name := filepath.Join(dir, fmt.Sprintf("%s-%d-%d.json", d.ID, seed, best.i))
		js, _ := json.MarshalIndent(rp, "", " ")
		if err := os.WriteFile(name, js, 0644); err != nil {
			panic(infraError{err.Error()})
		}
		fmt.Printf("%s: %s: %s\n(case %d of seed %d, minimised with %d trials)\n", d.ID, v.Bad, v.Detail, best.i, seed, tried)
		fmt.Printf("VIOLATION property=%s replay=%s\n", d.ID, name)
		code = 1
	}
	st := &env.st
	ev := map[string]interface{}{
		"property": d.ID, "tier": *tier, "seed": int64(seed), "level": "exploration",
		"wall_s": time.Since(start).Seconds(), "violations": nviol,
		"assumptions": []string{
			"the simulated kernel answers open, read, fstat, seek and close as Linux does for regular files; the Go scheduler, map order, hash seeds, clock and system calls are decided by the simulator, everything above them is real code",
			"interleavings at statement granularity on one processor; data races below that are left to the race detector build",
			"bounded by the generated sizes; a sample, not a proof",
		},
		"coverage": map[string]interface{}{
			"evaluations": evals, "distinct_nontrivial": nontrivial, "rule": d.Rule, "samples": samples,
			"case_verdicts":           kinds,
			"simulated_runs":          st.Runs,
			"runs_with_race_detector": st.RaceRuns,
			"runs_per_hour":           int64(float64(st.Runs) / exploreS * 3600),
			"seeds_per_hour":          int64(float64(evals) / exploreS * 3600),
			"explore_s":               exploreS,
			"build_s":                 buildS,
			"simulated_seconds":       float64(st.SimNanos) / 1e9,
			"steps_executed":          st.Steps,
			"simulated_system_calls":  st.IOOps,
			"random_draws":            st.RandDraws,
			"context_switches":        st.Switches,
			"distinct_interleavings":  len(st.Sw),
			"distinct_outcomes":       len(st.Out),
			"interleaving_measure":    "hash over (step, chosen goroutine) of every context switch of a run",
			"outcome_measure":         "hash of the returned tree or of the error message",
			"faults_fired":            st.Faults,
			"outcome_classes":         st.Classes,
			"goroutines_under_test":   st.Goroutines,
			"determinism_audit":       map[string]int64{"repeated_runs": st.Audits, "differing": st.AuditBad},
			"stuck_runs":              env.watchdog,
			"yield_points":            b.Points,
			"yield_points_reached":    st.reached(),
			"components_real":         append([]string{"Go standard library above the system call layer", "golang.org/x/text/encoding/japanese"}, b.Packages...),
			"components_simulated":    []string{"file system and descriptors", "goroutine scheduling", "map order and hash seeds", "clock and timers", "standard error"},
			"cases_from":              fmt.Sprintf("seed %d, indexes 0..%d", seed, next),
		},
	}
	dir := filepath.Join(verifDir(), "evidence")
	os.MkdirAll(dir, 0755)
	js, _ := json.MarshalIndent(ev, "", " ")
	if err := os.WriteFile(filepath.Join(dir, d.ID+".json"), js, 0644); err != nil {
		panic(infraError{err.Error()})
	}
	if f := os.Getenv("VERIF_UNREACHED"); f != "" {
		out := []string{}
		for i, w := range b.Where {
			if i > 0 && (i>>3 >= len(st.Cov) || st.Cov[i>>3]>>(i&7)&1 == 0) {
				out = append(out, w)
			}
		}
		os.WriteFile(f, []byte(strings.Join(out, "\n")+"\n"), 0644)
	}
	fmt.Printf("%s %s seed %d: %d cases (%d distinct non-trivial), %d runs in %.1fs, %d interleavings, %d outcomes\n", d.ID, *tier, seed, evals, nontrivial, st.Runs, exploreS, len(st.Sw), len(st.Out))
	return code
}

// sample writes a case out, long texts shortened.
func sample(c *Case, i int) interface{} {
	texts := map[string]string{}
	for _, f := range c.FS().Files {
		if len(f.Vers) > 0 {
			t := string(f.Vers[0])
			if len(t) > 400 {
				t = t[:400] + fmt.Sprintf("... (%d bytes)", len(f.Vers[0]))
			}
			texts[f.Path] = strings.ToValidUTF8(t, "?")
		}
	}
	d := *c
	d.Projs, d.Alts = nil, nil
	return map[string]interface{}{"index": i, "files": texts, "case": d, "hash": caseHash(c)}
}

func replay(args []string) int {
	if len(args) < 1 {
		fmt.Fprintln(os.Stderr, "usage: vdst replay FILE")
		return 2
	}
	js, err := os.ReadFile(args[0])
	if err != nil {
		panic(infraError{err.Error()})
	}
	var rp Replay
	if err := json.Unmarshal(js, &rp); err != nil {
		panic(infraError{err.Error()})
	}
	d := def(rp.Property)
	if d == nil {
		panic(infraError{"unknown property " + rp.Property})
	}
	env, _, clean := build(d.Race)
	defer clean()
	v := d.judge(env, rp.Case)
	if v.Bad == "" {
		fmt.Printf("%s: not reproduced: the property holds on this case\n", rp.Property)
		return 0
	}
	same := v.Bad == rp.Kind && (v.Detail == rp.Detail || v.Bad == "race")
	fmt.Printf("%s: %s: %s\nreproduced exactly: %v\n", rp.Property, v.Bad, v.Detail, same)
	fmt.Printf("VIOLATION property=%s replay=%s\n", rp.Property, args[0])
	return 1
}

type knownEntry struct {
	finding     bool
	kind, match string
	text        string
}

// loadKnown reads "finding: property=<id> kind=<kind> match=<text in the detail> | <what fails>"
// lines; "fixed:" lines suppress nothing.
func loadKnown(id string) []knownEntry {
	raw, err := os.ReadFile(filepath.Join(verifDir(), "known_findings.txt"))
	if err != nil {
		return nil
	}
	out := []knownEntry{}
	for _, l := range strings.Split(string(raw), "\n") {
		if !strings.HasPrefix(l, "finding: property="+id+" ") {
			continue
		}
		k := knownEntry{finding: true}
		head, text, _ := strings.Cut(strings.TrimPrefix(l, "finding: property="+id+" "), " | ")
		k.text = text
		a, m, _ := strings.Cut(head, " match=")
		k.kind = strings.TrimPrefix(a, "kind=")
		k.match = m
		if k.kind != "" && k.match != "" {
			out = append(out, k)
		}
	}
	return out
}

func matchKnown(ks []knownEntry, v *Verdict) string {
	for _, k := range ks {
		if k.kind == v.Bad && strings.Contains(v.Detail, k.match) {
			return k.text
		}
	}
	return ""
}
