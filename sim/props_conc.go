package main

import (
	"fmt"

	"vdst/scen"
)

// ---- C07

// several makes a case with k projects in directories of their own.
func several(r *Rng, k int) *Case {
	c := &Case{}
	for i := 0; i < k; i++ {
		var p *Proj
		if r.P(3) { // nested more than half as deep as can be
			p = &Proj{Mods: []*Module{{Name: "Main", Path: "main.dpr", Prog: true, Uses: []UseS{{Name: "U1", Path: "U1.pas"}}}, {Name: "U1", Path: "U1.pas"}}}
			m := p.Mods[r.N(2)]
			m.Raw = shapeText(*findShape(r.Pick([]string{"parens", "ifs", "arrays"})), r.In(5100, 7000), m)
		} else if r.P(70) {
			p = smallProj(r)
		} else {
			p = anyProj(r)
		}
		c.Projs = append(c.Projs, inDir(p, fmt.Sprint("p", i)))
	}
	return c
}

func parseOp(c *Case, k, slot int) scen.Op {
	return scen.Op{Kind: "parse", Path: c.Main(k), Slot: slot}
}

// lonely gives the outcome a parse of path has in a process of its own with the given versions.
func lonely(e *Env, c *Case, fs *FS, p string, ver map[string]int) (*scen.OpRes, bool) {
	d := *c
	d.Plans = nil
	d.Sched = Sched{}
	s := d.Clean(fs)
	for i, f := range fs.Files {
		if v := ver[f.Path]; v > 0 && v < len(s.Files[i].Versions) {
			s.Files[i].Versions[0] = s.Files[i].Versions[v]
		}
	}
	s.Tasks = one(p)
	return lone(e.Exec(s, false))
}

var c07 = PropDef{ID: "C07", Race: true,
	Rule: "2 to 4 goroutines (some cases up to 40) parse 1 to 3 projects (valid, erroneous or damaged) at the same time under a seeded schedule which may switch at every statement and every system call, half of the runs with the race detector; non-trivial when goroutines really switched while parsing",
	Gen: func(r *Rng) *Case {
		c := several(r, r.In(1, 3))
		if r.P(30) {
			hurt(r, c, r.In(1, 3))
		}
		slot := 0
		k := r.In(2, 4)
		if r.P(4) {
			k = r.Size(40)
		}
		for ; k > 0; k-- {
			t := scen.Task{}
			for n := r.In(1, 2); n > 0; n-- {
				t.Ops = append(t.Ops, parseOp(c, r.N(len(c.Projs)), slot))
				slot++
			}
			c.Tasks = append(c.Tasks, t)
		}
		seeds(r, c, 1)
		c.Race = r.P(50)
		for _, p := range c.Projs {
			for _, m := range p.Mods {
				if m.Raw != "" {
					c.Race = false // too slow
				}
			}
		}
		if !c.Race && r.P(25) {
			c.Log = "default"
		}
		switch r.N(3) {
		case 0: // few switches at chosen points
			n := r.In(1, 6)
			step := uint64(0)
			for i := 0; i < n; i++ {
				step += uint64(r.In(1, 4000))
				c.Sched.Pre = append(c.Sched.Pre, scen.Pre{Step: step, Pick: uint32(r.N(4))})
			}
		default:
			c.Sched = Sched{Every: uint32([]int{2, 5, 20, 100, 400, 2000}[r.N(6)]), Seed: r.U64() % 1e9, BlockRand: true}
		}
		if r.P(30) { // delays shift the calls against each other
			c.Plans = map[string]*Plan{}
			for _, f := range c.FS().Files {
				if r.P(50) {
					c.Plans[f.Path] = &Plan{Rest: int32(r.In(20, 600)), Latency: int64(r.N(3)) * 1e6}
				}
			}
		}
		return c
	},
	Judge: func(e *Env, c *Case) *Verdict {
		fs := c.FS()
		want := map[string]*scen.OpRes{}
		for _, t := range c.Tasks {
			for _, o := range t.Ops {
				if want[o.Path] == nil {
					w, ok := lonely(e, c, fs, o.Path, nil)
					if !ok || w.Class == "panic" {
						return trivial
					}
					want[o.Path] = w
				}
			}
		}
		s := c.Scenario(fs)
		steps := uint64(0)
		for _, t := range c.Tasks {
			s.Budget += uint64(len(t.Ops)) * defaultBudget
			for _, o := range t.Ops {
				steps += want[o.Path].Steps
			}
		}
		if s.Every > 0 { // long parses switch less often
			s.Every = max(s.Every, uint32(min(steps/200000, 1e6)))
		}
		run := e.Exec(s, c.Race)
		if run.Races != "" {
			return bad("race", "%s", headLines(run.Races, 30))
		}
		if run.R == nil || run.R.Budget {
			return bad("crash", "every call ends normally when alone; together: %s", ended(run))
		}
		for i, t := range c.Tasks {
			for k, o := range t.Ops {
				g := &run.R.Tasks[i][k]
				if key(g) != key(want[o.Path]) {
					return bad("outcome", "call %d of goroutine %d on %s: alone %s; together %s", k, i, o.Path, show(want[o.Path]), show(g))
				}
			}
		}
		if run.R.Switches < 2 {
			return trivial
		}
		return held
	}}

// ---- C08

var c08 = PropDef{ID: "C08",
	Rule: "a history of 2 to 8 (some cases up to 300) parses of 1 to 3 projects in one process, some damaged, some meeting I/O faults, some after a file was replaced or with file names reused, with trees re-inspected at the end; non-trivial when at least two parses ran",
	Gen: func(r *Rng) *Case {
		c := several(r, r.In(1, 3))
		if r.P(40) {
			hurt(r, c, r.In(1, 3))
		}
		if r.P(50) { // other contents for the files of the first project
			for i := r.In(1, 2); i > 0; i-- {
				c.Alts = append(c.Alts, regen(r, c.Projs[0]))
			}
			if r.P(40) { // the same size, another content
				c.Alts = append(c.Alts, cloneProj(c.Projs[0]))
				for _, m := range c.Projs[0].Mods {
					c.Dmg = append(c.Dmg, Dmg{Path: m.Path, K: "digit", A: r.N(1000), B: r.N(9), Ver: len(c.Alts)})
				}
			}
			if r.P(50) { // caught half written, or about to be written
				for v := r.N(len(c.Alts) + 1); v <= len(c.Alts); v++ {
					m := c.Projs[0].Mods[r.N(len(c.Projs[0].Mods))]
					d := Dmg{Path: m.Path, K: "cut", Ver: v}
					if r.P(50) {
						d.A = r.N(200)
					}
					c.Dmg = append(c.Dmg, d)
				}
			}
		}
		if r.P(25) && len(c.Projs) > 1 { // two programs share their units
			p, q := c.Projs[0], c.Projs[1]
			m := *p.Mods[0]
			m.Path = q.Mods[0].Path
			m.Uses = append([]UseS(nil), m.Uses...)
			q.Mods = append([]*Module{&m}, p.Mods[1:]...)
			if len(m.Uses) > 1 && r.P(60) {
				m.Uses = m.Uses[:r.In(1, len(m.Uses)-1)]
			}
			q.Repair()
		}
		fs := c.FS()
		c.Plans = map[string]*Plan{}
		if r.P(45) {
			for i := r.In(1, 3); i > 0; i-- {
				f := fs.Files[r.N(len(fs.Files))]
				if r.P(40) {
					pl := &Plan{}
					for k := r.N(4); k > 0; k-- {
						pl.Opens = append(pl.Opens, 0)
					}
					pl.Opens = append(pl.Opens, -openErrnos[r.N(len(openErrnos))])
					c.Plans[f.Path] = pl
				} else {
					pl := readFault(r, len(f.Vers[0]))
					pl.Rest = 0
					c.Plans[f.Path] = pl
				}
			}
		}
		t := scen.Task{}
		slot := 0
		n := r.In(2, 8)
		if r.P(6) {
			n = r.In(20, 60)
			if r.P(60) {
				n = max(r.Size(300), r.Size(300))
			}
			for _, p := range c.Projs {
				for _, m := range p.Mods {
					if m.Raw != "" {
						n = 3
					}
				}
			}
		}
		for ; n > 0; n-- {
			if r.P(6) {
				t.Ops = append(t.Ops, scen.Op{Kind: "sleep", N: uint64(r.In(1, 100000)) * 1e9})
			}
			if r.P(4) {
				t.Ops = append(t.Ops, scen.Op{Kind: "gc"})
			}
			if len(c.Alts) > 0 && r.P(35) {
				for _, f := range fs.Files {
					if len(f.Vers) > 1 && r.P(50) {
						t.Ops = append(t.Ops, scen.Op{Kind: "replace", Path: f.Path, N: uint64(r.N(len(f.Vers)))})
					}
				}
			}
			t.Ops = append(t.Ops, parseOp(c, r.N(len(c.Projs)), slot))
			slot++
		}
		for i := 0; i < slot && i < 12; i++ {
			t.Ops = append(t.Ops, scen.Op{Kind: "redump", Slot: i})
		}
		c.Tasks = []scen.Task{t}
		seeds(r, c, 1)
		c.Sched = randSched(r)
		return c
	},
	Judge: func(e *Env, c *Case) *Verdict {
		fs := c.FS()
		s := c.Scenario(fs)
		s.Events = true
		s.Budget = uint64(len(c.Tasks[0].Ops)) * defaultBudget
		run := e.Exec(s, false)
		if run.R == nil || run.R.Budget {
			// every call alone has to end as well
			ver, seen := map[string]int{}, map[string]bool{}
			for _, o := range s.Tasks[0].Ops {
				switch o.Kind {
				case "replace":
					ver[fs.Files[o.Slot].Path] = int(o.N)
				case "parse":
					if mk := o.Path + fmt.Sprint(ver); !seen[mk] {
						seen[mk] = true
						if _, ok := lonely(e, c, fs, o.Path, ver); !ok {
							return trivial
						}
					}
				}
			}
			return bad("crash", "%s", ended(run))
		}
		ver := map[string]int{}
		byslot := map[int]string{}
		memo := map[string]*scen.OpRes{}
		n := 0
		for i, o := range s.Tasks[0].Ops {
			g := &run.R.Tasks[0][i]
			switch o.Kind {
			case "replace":
				ver[fs.Files[o.Slot].Path] = int(o.N)
			case "parse":
				n++
				if g.Class == "ok" || g.Class == "err" && !g.Prog {
					byslot[o.Slot] = g.Hash
				}
				if faulted(c, fs, run.R, g) {
					continue
				}
				mk := o.Path + fmt.Sprint(ver)
				w := memo[mk]
				if w == nil {
					var ok bool
					w, ok = lonely(e, c, fs, o.Path, ver)
					if !ok {
						return trivial
					}
					memo[mk] = w
				}
				if key(w) != key(g) {
					return bad("outcome", "parse of %s (operation %d): in a fresh process %s; after the history %s", o.Path, i, show(w), show(g))
				}
			case "redump":
				if h, ok := byslot[o.Slot]; ok && g.Hash != h {
					return bad("changed", "the tree or error of parse %d was changed by a later call", o.Slot)
				}
			}
		}
		if n < 2 {
			return trivial
		}
		return held
	}}

// roomy is a step budget within which every operation ends if each of them does alone within
// the default budget; a re-entrant logger parses up to 25 times.
func roomy(c *Case) uint64 {
	n := 0
	for _, t := range append([]scen.Task{{Ops: c.Setup}}, c.Tasks...) {
		for _, o := range t.Ops {
			if n++; o.Kind == "logger" && o.Mode == "reenter" {
				n += 25
			}
		}
	}
	return uint64(n+1) * defaultBudget
}

// faulted says whether an injected fault (not a merely absent file) hit the call.
func faulted(c *Case, fs *FS, r *scen.Result, g *scen.OpRes) bool {
	for _, f := range failures(fs, r, g.Ev0, g.Ev1) {
		if p := c.Plans[f.path]; p != nil {
			return true
		}
	}
	return false
}

// regen is the same project with other contents.
func regen(r *Rng, p *Proj) *Proj {
	o := GenOpt{Units: len(p.Mods) - 1, Decls: r.In(1, 3), Stmts: r.In(1, 2), Depth: 1, Layout: r.P(30), Dense: r.In(20, 80), Shadow: r.P(20)}
	q := Gen(r, o)
	keep := r.P(60)
	for i, m := range q.Mods {
		old := p.Mods[i]
		m.Path = old.Path
		if m.Name != old.Name {
			renameUnit(q, i, old.Name)
		}
		if keep {
			m.Uses = append([]UseS(nil), old.Uses...)
			m.ImplUses = append([]UseS(nil), old.ImplUses...)
		}
	}
	for i := range q.Mods[0].Uses {
		u := &q.Mods[0].Uses[i]
		if k := q.unitIndex(u.Name); k > 0 {
			u.Path = q.Mods[k].Path
		}
	}
	q.Repair()
	return q
}

// ---- C11

var c11 = PropDef{ID: "C11",
	Rule: "a project whose files are atomically replaced by other versions at chosen steps and system calls of the parse, under short, slow and failing reads; the outcome must be that of the versions current at the opens; non-trivial when a replacement took effect between the first and the last system call",
	Gen: func(r *Rng) *Case {
		c := &Case{Projs: []*Proj{smallProj(r)}}
		for i := r.In(1, 2); i > 0; i-- {
			c.Alts = append(c.Alts, regen(r, c.Projs[0]))
		}
		if r.P(40) {
			// versions which differ in very little, so that a mixture would still parse
			a := cloneProj(c.Projs[0])
			for _, m := range a.Mods {
				m.Head = straddle(r, r.In(4, 900))
			}
			c.Alts[0] = a
		}
		fs := c.FS()
		c.Plans = map[string]*Plan{}
		for _, f := range fs.Files {
			if r.P(60) {
				c.Plans[f.Path] = &Plan{Rest: int32(r.In(5, 400))}
				if r.P(30) {
					c.Plans[f.Path].Latency = 1e6
				}
			}
		}
		hit := -1
		if r.P(15) { // a read fails: nothing to make up for it from another version
			hit = r.N(len(fs.Files))
			f := fs.Files[hit]
			c.Plans[f.Path] = readFault(r, len(f.Vers[0]))
		}
		for n := r.In(1, 6); n > 0; n-- {
			f := fs.Files[r.N(len(fs.Files))]
			if hit >= 0 && r.P(70) {
				f = fs.Files[hit]
			}
			rp := ReplS{Path: f.Path, Ver: r.N(len(f.Vers))}
			if r.P(70) {
				rp.Op = uint64(r.In(1, 12*len(fs.Files)))
			} else {
				rp.Step = uint64(r.In(1, 3000*len(fs.Files)))
			}
			c.Repl = append(c.Repl, rp)
		}
		seeds(r, c, 1)
		c.Sched = randSched(r)
		c.Tasks = one(c.Main(0))
		return c
	},
	Judge: func(e *Env, c *Case) *Verdict {
		fs := c.FS()
		s := c.Scenario(fs)
		s.Events = true
		run := e.Exec(s, false)
		g, ok := lone(run)
		if !ok {
			return trivial
		}
		vers := map[int][]int{}
		repl, mid := 0, false
		for i, ev := range run.R.Events {
			if ev.K == evReplace {
				repl++
				if i > 0 && i < len(run.R.Events)-1 {
					mid = true
				}
			}
			if ev.K == evOpen && ev.Ent >= 0 && ev.Ret >= 0 {
				vers[int(ev.Ent)] = addInt(vers[int(ev.Ent)], int(ev.Ver))
			}
		}
		e.count("file replaced", int64(repl))
		if g.Class == "err" && len(failures(fs, run.R, 0, -1)) > 0 {
			if !mid {
				return trivial
			}
			return held
		}
		// every single choice of the opened versions
		combos := []map[string]int{{}}
		for ent := range fs.Files {
			vs := vers[ent]
			if len(vs) == 0 {
				continue
			}
			next := []map[string]int{}
			for _, m := range combos {
				for _, v := range vs {
					k := map[string]int{}
					for a, b := range m {
						k[a] = b
					}
					k[fs.Files[ent].Path] = v
					next = append(next, k)
				}
			}
			if len(next) > 64 {
				return trivial
			}
			combos = next
		}
		txt := ""
		for _, m := range combos {
			w, ok := lonely(e, c, fs, c.Main(0), m)
			if !ok {
				return trivial
			}
			if key(w) == key(g) {
				if !mid {
					return trivial
				}
				return held
			}
			txt += fmt.Sprintf("%v: %s; ", m, show(w))
		}
		return bad("mixed", "while files were replaced: %s; with the versions current at the opens: %s", show(g), txt)
	}}

func addInt(s []int, v int) []int {
	for _, x := range s {
		if x == v {
			return s
		}
	}
	return append(s, v)
}

func cloneProj(p *Proj) *Proj {
	c := clone(&Case{Projs: []*Proj{p}})
	return c.Projs[0]
}

// ---- C12

var stdErrnos = []int32{-28, -5, -11, -9, -27, -122} // not EPIPE: there the Go runtime ends the process

var c12 = PropDef{ID: "C12",
	Rule: "a project parsed with the shipped logger on a standard error with failing, short and interrupted writes, or with replaced loggers (formatting, slow, sleeping, calling ParseProgram themselves), or with nested replacements of the logger; non-trivial unless the shipped logger was in use and wrote nothing",
	Gen: func(r *Rng) *Case {
		c := &Case{}
		if r.P(50) {
			c.Projs = []*Proj{smallProj(r)}
		} else if r.P(50) {
			c = wrongProj(r)
		} else {
			c.Projs = []*Proj{anyProj(r)}
		}
		c.Projs = append(c.Projs, inDir(smallProj(r), "q"))
		seeds(r, c, 1)
		c.Sched = randSched(r)
		c.Tasks = one(c.Main(0))
		switch r.N(3) {
		case 0:
			c.Kind, c.Log = "stderr", "default"
			for i := r.N(60); i > 0; i-- {
				switch r.N(3) {
				case 0:
					c.Std = append(c.Std, 0)
				case 1:
					c.Std = append(c.Std, int32(r.In(1, 30)))
				case 2:
					c.Std = append(c.Std, stdErrnos[r.N(len(stdErrnos))])
				}
			}
			switch r.N(3) {
			case 0:
				c.StdR = stdErrnos[r.N(len(stdErrnos))]
			case 1:
				c.StdR = int32(r.In(1, 40))
			}
		case 1:
			c.Kind = "logger"
			c.Setup = []scen.Op{{Kind: "logger", Mode: r.Pick([]string{"format", "slow", "sleep", "reenter", "reenter"}), N: uint64(r.In(1, 40)), Path: c.Main(r.N(2)), Slot: 1}}
			if r.P(40) { // two calls at once
				c.Tasks = append(c.Tasks, scen.Task{Ops: []scen.Op{parseOp(c, r.N(2), 2)}})
				c.Setup[0].Mode = r.Pick([]string{"format", "slow", "sleep"})
			}
		case 2:
			c.Kind = "nest"
			if r.P(50) {
				c.Log = "default"
			}
			t := scen.Task{}
			depth, made := 0, 0
			disorder := r.P(40)
			ops := r.In(3, 14)
			if r.P(4) {
				ops = r.Size(200)
			}
			for i := ops; i > 0; i-- {
				if disorder && made > 0 && r.P(40) {
					t.Ops = append(t.Ops, scen.Op{Kind: "unlogger", N: uint64(r.In(1, made))}, scen.Op{Kind: "logprobe"})
				}
				switch r.N(4) {
				case 0, 1:
					depth++
					made++
					t.Ops = append(t.Ops, scen.Op{Kind: "logger", Mode: r.Pick([]string{"format", "slow", "format", "silent"}), Slot: 100 + i})
				case 2:
					if depth > 0 {
						depth--
						t.Ops = append(t.Ops, scen.Op{Kind: "unlogger"})
					}
				case 3:
					t.Ops = append(t.Ops, parseOp(c, r.N(2), 0))
				}
				t.Ops = append(t.Ops, scen.Op{Kind: "logprobe"})
			}
			for ; depth > 0; depth-- {
				t.Ops = append(t.Ops, scen.Op{Kind: "unlogger"}, scen.Op{Kind: "logprobe"})
			}
			c.Tasks = []scen.Task{t}
		}
		return c
	},
	Judge: func(e *Env, c *Case) *Verdict {
		fs := c.FS()
		want := map[string]*scen.OpRes{}
		for _, t := range c.Tasks {
			for _, o := range t.Ops {
				if o.Kind == "parse" && want[o.Path] == nil {
					w, ok := lonely(e, c, fs, o.Path, nil)
					if !ok || w.Class == "panic" {
						return trivial
					}
					want[o.Path] = w
				}
			}
		}
		s := c.Scenario(fs)
		s.Budget = roomy(c)
		run := e.Exec(s, false)
		if run.R == nil || run.R.Budget {
			return bad("crash", "quiet: ends normally; with diagnostics: %s", ended(run))
		}
		base := "silent"
		if c.Log == "default" {
			base = "default"
		}
		cur := base
		var before, stack []string // what each replacement replaced; those not restored in turn
		for i, t := range c.Tasks {
			for k, o := range t.Ops {
				g := &run.R.Tasks[i][k]
				switch o.Kind {
				case "parse":
					if key(g) != key(want[o.Path]) {
						return bad("outcome", "quiet: %s; with diagnostics: %s", show(want[o.Path]), show(g))
					}
				case "logger":
					tag := fmt.Sprint("L", o.Slot)
					if o.Mode == "silent" {
						tag = "silent"
					}
					before = append(before, cur)
					stack = append(stack, cur)
					cur = tag
				case "unlogger":
					if o.N > 0 {
						if int(o.N) <= len(before) {
							cur = before[o.N-1]
						}
					} else if len(stack) > 0 {
						cur = stack[len(stack)-1]
						stack = stack[:len(stack)-1]
					}
				case "logprobe":
					if g.Log != cur {
						return bad("restore", "operation %d: messages go to logger %q, not %q", k, g.Log, cur)
					}
				}
			}
		}
		if c.Kind == "stderr" && run.R.StdWrites == 0 {
			return trivial
		}
		return held
	}}

// ---- C13

var c13 = PropDef{ID: "C13", Race: true,
	Rule: "a parsed project read by 2 to 4 (some cases up to 40) goroutines at once (walks, declaration maps, class members, inherited properties, type predicates, each in another order), also while other parses run, half of the runs with the race detector; non-trivial when goroutines really switched",
	Gen: func(r *Rng) *Case {
		c := several(r, r.In(1, 2))
		o := GenOpt{Units: r.N(4), Decls: r.In(2, 6), Stmts: 2, Depth: 1, Dense: 60, Classes: r.In(20, 80), Shadow: r.P(30), Blow: r.P(4)}
		c.Projs[0] = inDir(Gen(r, o), "p0")
		if r.P(12) { // types that refer to each other
			c.Dmg = append(c.Dmg, Dmg{Path: c.Projs[0].Mods[r.N(len(c.Projs[0].Mods))].Path, K: "decl", A: r.N(100), S: tangle(r)})
		}
		c.Setup = []scen.Op{{Kind: "parse", Path: c.Main(0), Slot: 0, Mode: "nodump"}}
		k := r.In(2, 4)
		if r.P(4) && !o.Blow {
			k = r.Size(40)
		}
		crowd := k > 6 || o.Blow
		for ; k > 0; k-- {
			t := scen.Task{}
			for n := r.In(1, 2); n > 0; n-- {
				t.Ops = append(t.Ops, scen.Op{Kind: "read", Slot: 0, N: uint64(r.N(4))})
			}
			c.Tasks = append(c.Tasks, t)
		}
		if r.P(35) {
			c.Tasks = append(c.Tasks, scen.Task{Ops: []scen.Op{parseOp(c, r.N(len(c.Projs)), 1)}})
		}
		c.Final = []scen.Op{{Kind: "redump", Slot: 0}}
		seeds(r, c, 1)
		c.Race = r.P(50)
		if crowd {
			c.Race = r.P(15)
		}
		c.Sched = Sched{Every: uint32([]int{1, 3, 10, 50, 300}[r.N(5)]), Seed: r.U64() % 1e9, BlockRand: true}
		return c
	},
	Judge: func(e *Env, c *Case) *Verdict {
		fs := c.FS()
		// what a lone reader sees, and the tree nobody read
		s := c.Scenario(fs)
		s.Tasks = []scen.Task{{Ops: []scen.Op{{Kind: "read", Slot: 0}}}}
		s.Final = nil
		a := e.Exec(s, false)
		s = c.Scenario(fs)
		s.Tasks = []scen.Task{{Ops: []scen.Op{{Kind: "redump", Slot: 0}}}}
		s.Final = nil
		b := e.Exec(s, false)
		ra, ok1 := lone(a)
		rb, ok2 := lone(b)
		if ok2 && rb.Class == "ok" && (!ok1 || ra.Class == "panic") {
			if !ok1 {
				return bad("crash", "the tree was returned, but a lone reader of it: %s", ended(a))
			}
			return bad("crash", "the tree was returned, but a lone reader of it: %s", show(ra))
		}
		if !ok1 || !ok2 || ra.Class != "ok" || rb.Class != "ok" {
			return trivial
		}
		s = c.Scenario(fs)
		if s.Every > 0 { // long walks switch less often
			s.Every = max(s.Every, uint32(min(a.R.Steps*uint64(len(s.Tasks))/200000, 1e6)))
		}
		s.Budget = roomy(c)
		run := e.Exec(s, c.Race)
		if run.Races != "" {
			return bad("race", "%s", headLines(run.Races, 30))
		}
		if run.R == nil || run.R.Budget {
			return bad("crash", "a lone reader ends normally; together: %s", ended(run))
		}
		for i, t := range c.Tasks {
			for k, o := range t.Ops {
				g := &run.R.Tasks[i][k]
				if o.Kind == "read" && g.Hash != ra.Hash {
					return bad("answers", "reader %d got other answers than a lone reader", i)
				}
				if o.Kind == "parse" {
					w, ok := lonely(e, c, fs, o.Path, nil)
					if ok && key(w) != key(g) {
						return bad("outcome", "a parse beside the readers: alone %s; together %s", show(w), show(g))
					}
				}
			}
		}
		for i := range c.Final {
			if run.R.Final[i].Hash != rb.Hash {
				return bad("changed", "reading changed the tree")
			}
		}
		if run.R.Switches < 2 {
			return trivial
		}
		return held
	}}
