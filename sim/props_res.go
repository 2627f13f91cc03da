package main

import (
	"slices"
	"strings"

	"vdst/scen"
)

// ---- C20

var c20 = PropDef{ID: "C20",
	Rule: "2 to 5 goroutines (some cases up to 100) parse 1 to 3 projects while opens or reads of some files take 11 days of simulated time, under a seeded schedule; a call which meets no such file must end meanwhile, with its own outcome; non-trivial when a call was held up and another one was under way or started then",
	Gen: func(r *Rng) *Case {
		c := &Case{}
		for i := r.In(1, 3); i > 0; i-- {
			c.Projs = append(c.Projs, inDir(smallProj(r), "p"+string(rune('0'+len(c.Projs)))))
		}
		if r.P(20) {
			hurt(r, c, r.In(1, 2))
		}
		fs := c.FS()
		c.Plans = map[string]*Plan{}
		stall := func(f *VFile) *Plan {
			p := c.Plans[f.Path]
			if p == nil {
				p = &Plan{}
				c.Plans[f.Path] = p
			}
			p.StallAt, p.StallN = int32(r.In(1, 4)), 1
			if r.P(20) {
				p.StallAt = int32(r.In(1, 12))
			}
			return p
		}
		if r.P(40) {
			for _, f := range fs.Files {
				if r.P(40) {
					c.Plans[f.Path] = &Plan{Rest: int32(r.In(20, 600)), Latency: int64(r.N(3)) * 1e6}
				}
			}
		}
		k := r.In(2, 5)
		if len(c.Projs) > 1 && r.P(40) { // all calls on the first project are held up
			m := c.Projs[0].Mods[r.N(len(c.Projs[0].Mods))]
			p := stall(fs.get(m.Path))
			p.StallAt, p.StallN = 1, 1000
			if r.P(60) { // every open succeeds at once, the reads do not
				p.StallReads = true
			}
			if r.P(50) {
				k = max(3, r.Size(100))
				if r.P(10) {
					k = r.In(100, 300)
				}
			}
			for i := 0; i < k; i++ {
				j := 0
				if i > 0 && r.P(20) || i == k-1 {
					j = r.In(1, len(c.Projs)-1)
				}
				c.Tasks = append(c.Tasks, scen.Task{Ops: []scen.Op{parseOp(c, j, i)}})
			}
		} else {
			for i := r.In(1, 2); i > 0; i-- {
				stall(fs.Files[r.N(len(fs.Files))])
			}
			slot := 0
			for ; k > 0; k-- {
				t := scen.Task{}
				for n := r.In(1, 2); n > 0; n-- {
					t.Ops = append(t.Ops, parseOp(c, r.N(len(c.Projs)), slot))
					slot++
				}
				c.Tasks = append(c.Tasks, t)
			}
		}
		if r.P(25) { // the process has parsed before
			c.Setup = append(c.Setup, scen.Op{Kind: "parse", Path: c.Main(r.N(len(c.Projs))), Slot: 200, Mode: "nodump"})
		}
		seeds(r, c, 1)
		c.Sched = Sched{Every: uint32([]int{5, 20, 100, 400, 2000}[r.N(5)]), Seed: r.U64() % 1e9, BlockRand: true}
		if r.P(30) {
			c.Sched = Sched{Seed: r.U64() % 1e9, BlockRand: r.P(50)}
		}
		return c
	},
	Judge: func(e *Env, c *Case) *Verdict {
		fs := c.FS()
		want := map[string]*scen.OpRes{}
		slow := map[string]bool{}
		for _, p := range c.Projs {
			for _, m := range p.Mods {
				if pl := c.Plans[m.Path]; pl != nil && pl.StallN > 0 {
					slow[p.Mods[0].Path] = true
				}
			}
		}
		for _, f := range fs.Files { // damaged contents may name files of other projects
			if f.Hurt {
				for _, p := range c.Projs {
					for _, m := range p.Mods {
						if m.Path == f.Path {
							slow[p.Mods[0].Path] = true
						}
					}
				}
			}
		}
		steps := uint64(0)
		for _, t := range c.Tasks {
			for _, o := range t.Ops {
				if want[o.Path] == nil {
					w, ok := lonely(e, c, fs, o.Path, nil)
					if !ok || w.Class == "panic" {
						return trivial
					}
					want[o.Path] = w
				}
				steps += want[o.Path].Steps
			}
		}
		s := c.Scenario(fs)
		s.Times = true
		s.Budget = roomy(c)
		if s.Every > 0 {
			s.Every = max(s.Every, uint32(min(steps/200000, 1e6)))
		}
		run := e.Exec(s, false)
		if run.R == nil || run.R.Budget {
			return bad("crash", "every call ends normally when alone; while calls are held up: %s", ended(run))
		}
		held1, others := 0, 0
		for i, t := range c.Tasks {
			for k, o := range t.Ops {
				g := &run.R.Tasks[i][k]
				if g.T1-g.T0 < stallNs/2 {
					others++
				} else if held1++; !slow[o.Path] {
					return bad("waits", "call %d of goroutine %d on %s opens and reads at once, but took %d s while a file of another call was slow", k, i, o.Path, (g.T1-g.T0)/1e9)
				}
				if key(g) != key(want[o.Path]) {
					return bad("outcome", "call %d of goroutine %d on %s: alone %s; while a file is slow %s", k, i, o.Path, show(want[o.Path]), show(g))
				}
			}
		}
		if held1 > run.R.Stalls {
			return bad("waits", "%d opens or reads were slow, but %d calls took long", run.R.Stalls, held1)
		}
		e.count("stalled open or read", int64(run.R.Stalls))
		if run.R.Stalls == 0 || others == 0 {
			return trivial
		}
		return held
	}}

// ---- C21

const maxFiles = 8

var c21 = PropDef{ID: "C21",
	Rule: "projects of 8 to 200 units, valid, damaged, with short, slow and failing reads, failing fstat and close calls; the number of descriptors open at once is observed and the outcome compared with that of a process which can open 8 files only; non-trivial when the call opened more than 8 files",
	Gen: func(r *Rng) *Case {
		o := RandOpt(r)
		o.Units, o.Decls, o.Stmts, o.Classes = r.In(8, 30), r.In(0, 2), 1, 0
		if r.P(25) {
			o.Units = min(max(8, r.Size(200)), 200)
		}
		o.Dense, o.Blow, o.Depth = r.N(40), false, 1
		c := &Case{Projs: []*Proj{Gen(r, o)}}
		p := c.Projs[0]
		for i := range p.Mods[0].Uses { // all of them from files
			if k := p.unitIndex(p.Mods[0].Uses[i].Name); k > 0 {
				p.Mods[0].Uses[i].Path = p.Mods[k].Path
			}
		}
		p.Repair()
		fs := c.FS()
		switch r.N(6) {
		case 0:
			hurt(r, c, r.In(1, 3))
		case 1:
			f := fs.Files[r.N(len(fs.Files))]
			c.Plans = map[string]*Plan{f.Path: {Opens: []int32{-openErrnos[r.N(len(openErrnos))]}}}
		case 2:
			f := fs.Files[r.N(len(fs.Files))]
			pl := readFault(r, len(f.Vers[0]))
			c.Plans = map[string]*Plan{f.Path: pl}
		case 3, 4:
			c.Plans = map[string]*Plan{}
			all := &Plan{Rest: int32([]int{0, 1, 7, 100, 511, 512}[r.N(6)]), Latency: int64(r.N(3)) * 1e6, StatSize: int64(r.N(3)) * int64(r.N(100000))}
			if r.P(30) {
				all.FstatErr = 5
			}
			if r.P(30) {
				all.CloseErr = 5
			}
			for _, f := range fs.Files {
				if r.P(85) {
					c.Plans[f.Path] = all
				}
			}
		}
		seeds(r, c, 1)
		c.Sched = randSched(r)
		c.Tasks = one(c.Main(0))
		return c
	},
	Judge: func(e *Env, c *Case) *Verdict {
		fs := c.FS()
		s := c.Scenario(fs)
		run := e.Exec(s, false)
		w, ok := lone(run)
		if !ok || w.Class == "panic" {
			return trivial
		}
		if run.R.MaxOpen > maxFiles {
			return bad("many", "%d files are open at the same time", run.R.MaxOpen)
		}
		s = c.Scenario(fs)
		s.FdLimit = maxFiles
		lim := e.Exec(s, false)
		g, ok := lone(lim)
		if !ok {
			return bad("crash", "with %d descriptors: %s", maxFiles, ended(lim))
		}
		if key(g) != key(w) {
			return bad("outcome", "with as many descriptors as it likes: %s; with %d: %s", show(w), maxFiles, show(g))
		}
		e.count("descriptors limited", 1)
		if len(run.R.Opens) <= maxFiles {
			return trivial
		}
		return held
	}}

// ---- C22

// leakBytes is more than the live bytes of an idle process vary.
const leakBytes = 2000

var keepWords = map[string]bool{}

func init() {
	for _, w := range strings.Fields(`integer cardinal shortint smallint longint int64 byte word longword char ansichar widechar boolean bytebool wordbool longbool
		real48 real single double extended comp currency string ansistring widestring shortstring variant olevariant text textfile pointer pchar pansichar pwidechar tobject tclass true false self result
		abstract automated cdecl deprecated dispid dynamic export external far forward implements local message name near nodefault on overload override pascal platform protected readonly register reintroduce requires resident safecall stdcall varargs virtual writeonly contains at out package default published strict helper sealed static final absolute assembler library writeln write read`) {
		keepWords[w] = true
	}
}

// marks gives the places where a name (literal, comment) ends and where the path of a unit starts.
func marks(b []byte, all bool) (names, paths []int32) {
	for _, t := range idents(b) {
		if !keepWords[strings.ToLower(string(b[t[0]:t[1]]))] {
			names = append(names, int32(t[1]))
		}
	}
	toks := tokens(b)
	for i, t := range toks {
		if i > 0 && b[t[0]] == '\'' && strings.EqualFold(string(b[toks[i-1][0]:toks[i-1][1]]), "in") && t[1]-t[0] > 3 && b[t[0]+1] != '/' {
			paths = append(paths, int32(t[0]+1))
		} else if c := b[t[0]]; all && (c == '\'' && t[1]-t[0] > 2 || c >= '0' && c <= '9') {
			at := t[1]
			if c == '\'' {
				at--
			}
			names = append(names, int32(at))
		}
		if end := len(b); all {
			if i+1 < len(toks) {
				end = toks[i+1][0]
			}
			for _, o := range []string{"{", "//", "(*"} {
				if k := strings.Index(string(b[t[1]:end]), o); k >= 0 {
					names = append(names, int32(t[1]+k+len(o)))
					break
				}
			}
		}
	}
	slices.Sort(names)
	return
}

var c22 = PropDef{ID: "C22",
	Rule: "1 to 3 projects (valid, erroneous, damaged, with missing, unreadable or partly delivered files) are parsed 40 to 800 times in one process, each time with other names (and other paths), the results dropped; the live bytes after garbage collections are compared after a quarter, half and all of the calls; non-trivial when the calls ended",
	Gen: func(r *Rng) *Case {
		c := &Case{}
		for i := r.In(1, 2); i > 0; i-- {
			p := smallProj(r)
			if r.P(25) {
				o := RandOpt(r)
				o.Units, o.Decls, o.Stmts = r.N(4), r.In(2, 5), r.In(1, 3)
				if r.P(50) {
					o.Classes = 60
				}
				o.Blow = false
				p = Gen(r, o)
			}
			c.Projs = append(c.Projs, inDir(p, "p"+string(rune('0'+len(c.Projs)))))
		}
		switch r.N(6) {
		case 0:
			hurt(r, c, r.In(1, 3))
		case 1:
			o := RandOpt(r)
			o.Units, o.Cyclic, o.Dense = r.In(1, 4), true, r.In(10, 50)
			c.Projs = []*Proj{inDir(Gen(r, o), "p0")}
		}
		fs := c.FS()
		f := fs.Files[r.N(len(fs.Files))]
		c.Plans = map[string]*Plan{}
		switch r.N(8) {
		case 0:
			c.Gone = append(c.Gone, f.Path)
		case 1:
			c.Dirs = append(c.Dirs, f.Path)
		case 2: // every read fails
			c.Plans[f.Path] = &Plan{Rest: -readErrnos[r.N(len(readErrnos))]}
		case 3:
			c.Plans[f.Path] = &Plan{Rest: int32(r.In(1, 600)), StatSize: int64(r.N(3)) * int64(r.N(10000))}
		}
		c.Kind = r.Pick([]string{"", "paths", "paths"})
		if r.P(20) {
			c.Log = "default"
		}
		seeds(r, c, 1)
		return c
	},
	Judge: func(e *Env, c *Case) *Verdict {
		fs := c.FS()
		steps := uint64(1)
		for k := range c.Projs {
			w, ok := lonely(e, c, fs, c.Main(k), nil)
			if !ok || w.Class == "panic" {
				return trivial
			}
			steps += w.Steps
		}
		n := min(max(10, 6_000_000/steps), 200)
		s := c.Scenario(fs)
		for i, f := range fs.Files {
			if !f.Gone && !f.Dir {
				s.Files[i].Marks, s.Files[i].Paths = marks(f.Vers[0], c.Boots[0]%2 == 0)
			}
		}
		ops := []scen.Op{}
		for _, q := range []uint64{n, n, 2 * n} {
			for k := range c.Projs {
				ops = append(ops, scen.Op{Kind: "churn", Path: c.Main(k), N: q, Mode: c.Kind})
			}
			ops = append(ops, scen.Op{Kind: "heap"})
		}
		s.Tasks = []scen.Task{{Ops: ops}}
		s.Budget = 20*n*steps + defaultBudget
		run := e.Exec(s, false)
		if run.R == nil || run.R.Budget {
			return trivial // C06, C08, C14
		}
		h, calls := []int64{}, 0
		for i, o := range ops {
			g := &run.R.Tasks[0][i]
			if o.Kind == "heap" {
				h = append(h, int64(g.Allocs))
			} else {
				calls += g.Count[0] + g.Count[1] + g.Count[2]
				e.count("calls with a result", int64(g.Count[0]))
				e.count("calls with an error", int64(g.Count[1]))
			}
		}
		if h[1]-h[0] > leakBytes/2 && h[2]-h[1] > leakBytes {
			return bad("leak", "live bytes after %d, %d and %d calls, all results dropped: %d, %d, %d", calls/4, calls/2, calls, h[0], h[1], h[2])
		}
		if run.R.Goroutines > 0 {
			return bad("goroutines", "%d goroutines remain after %d calls", run.R.Goroutines, calls)
		}
		return held
	}}
