package main

import (
	"fmt"
	"os"
	"regexp"
	"strings"

	"vdst/scen"
)

// ---- C09 and C15

func semCase(r *Rng, p *Proj) *Case {
	c := &Case{Projs: []*Proj{p}}
	seeds(r, c, 2)
	c.Sched = randSched(r)
	return c
}

// semProj: projects rich in names which hide each other.
func semProj(r *Rng) *Proj {
	if r.P(40) {
		return anyProj(r)
	}
	o := GenOpt{Units: r.In(1, 6), Decls: r.In(2, 6), Stmts: r.In(1, 4), Depth: r.N(3), Layout: r.P(40), Dense: r.In(30, 90), Foreign: r.P(30), Shadow: r.P(60), Blow: r.P(12)}
	if r.P(20) {
		o.Classes = 30
	}
	o.Pair = !o.Blow && r.P(5)
	return Gen(r, o)
}

func targetName(p *Proj, t *Target) (string, string) {
	if t == nil {
		return "", ""
	}
	if t.Emb != "" {
		return "embedded:" + t.Emb, ""
	}
	return fmt.Sprint(p.Mods[t.Mod].Path, "#", t.Off), fmt.Sprint(p.Mods[t.Mod].Path, "#", t.Alt)
}

// describe shows a target with its source text.
func describe(p *Proj, rd *Rendered, to string) string {
	i := strings.LastIndex(to, "#")
	if i < 0 {
		if to == "" {
			return "nothing"
		}
		return to
	}
	off := 0
	fmt.Sscan(to[i+1:], &off)
	for k, m := range p.Mods {
		if m.Path == to[:i] && off >= 0 && off < len(rd.Text[k]) {
			end := off
			for end < len(rd.Text[k]) && end < off+20 && rd.Text[k][end] != '\n' {
				end++
			}
			where := ""
			if rd.Inner[k][off] {
				where = " (not in the interface)"
			}
			return fmt.Sprintf("%s offset %d %q%s", m.Path, off, string(rd.Text[k][off:end]), where)
		}
	}
	return to
}

// neutral is the project with the references and name clashes removed.
func neutral(p *Proj) *Proj {
	q := cloneProj(p)
	n := 0
	for _, m := range q.Mods {
		eachChunk(m, func(c *Chunk) {
			c.R = nil
			if c.K == "label" || c.K == "goto" {
				return
			}
			for i := range c.N {
				n++
				c.N[i] = fmt.Sprint("nx", n)
			}
		})
	}
	return q
}

var c09 = PropDef{ID: "C09",
	Rule: "a generated project in which names hide each other across routines, sections, units and built-in types; every reference of the tree is compared with the reference model of the scoping rules, under 2 hash seeds; non-trivial when at least 5 references were compared",
	Gen:  func(r *Rng) *Case { return semCase(r, semProj(r)) },
	Judge: func(e *Env, c *Case) *Verdict {
		fs := c.FS()
		p, rd := c.Projs[0], fs.R[0]
		if !rd.Valid {
			return trivial
		}
		n := 0
		for i := range c.Boots {
			s := c.Clean(fs)
			s.Boot, s.RandSeed, s.SchedSeed = c.Boots[i], c.Rands[i], c.Sched.Seed+uint64(i)
			s.Extract = true
			o, ok := lone(e.Exec(s, false))
			if !ok {
				return trivial
			}
			if o.Class != "ok" {
				if os.Getenv("VERIF_REJ") != "" {
					fmt.Fprintln(os.Stderr, "REJ", show(o))
				}
				q := &Case{Projs: []*Proj{neutral(p)}, Boots: c.Boots, Rands: c.Rands}
				w, ok := lone(e.Exec(q.Clean(q.FS()), false))
				if ok && w.Class == "ok" {
					return bad("rejected", "the project parses when its references are taken out, but with them: %s", show(o))
				}
				return trivial
			}
			got := map[string]scen.Ref{}
			for _, r := range o.Ext.Refs {
				got[fmt.Sprint(r.Mod, "#", r.Index)] = r
			}
			for _, x := range rd.Refs {
				if x.Any {
					continue
				}
				k := fmt.Sprint(p.Mods[x.Mod].Path, "#", x.Off)
				g, ok := got[k]
				if !ok {
					return bad("lost", "%s: no reference to %s in the tree", k, x.Name)
				}
				n++
				want, alt := targetName(p, x.T)
				if g.To != want && (x.T == nil || g.To != alt) {
					return bad("target", "%s at rune %d of %s resolves to %s, must be %s", x.Name, x.Off, p.Mods[x.Mod].Path, describe(p, rd, g.To), describe(p, rd, want))
				}
			}
		}
		if n < 5 {
			return trivial
		}
		return held
	}}

var c15 = PropDef{ID: "C15",
	Rule: "a generated project whose implementation sections and routines declare names that other modules use; declaration maps of the units and all cross-unit references are compared with the interface declarations, under 2 hash seeds; non-trivial when a unit has private declarations",
	Gen: func(r *Rng) *Case {
		p := semProj(r)
		return semCase(r, p)
	},
	Judge: func(e *Env, c *Case) *Verdict {
		fs := c.FS()
		p, rd := c.Projs[0], fs.R[0]
		private := 0
		for i := range p.Mods {
			if i > 0 {
				private += len(rd.Inner[i])
			}
		}
		byPath := map[string]int{}
		for i, m := range p.Mods {
			byPath[m.Path] = i
		}
		for i := range c.Boots {
			s := c.Clean(fs)
			s.Boot, s.RandSeed, s.SchedSeed = c.Boots[i], c.Rands[i], c.Sched.Seed+uint64(i)
			s.Extract = true
			o, ok := lone(e.Exec(s, false))
			if !ok || o.Class != "ok" {
				return trivial
			}
			for _, u := range o.Ext.Units {
				k, ok := byPath[u.Path]
				if !ok {
					continue
				}
				for _, n := range fs.Names {
					t := rd.Intf[k][n]
					if t != nil && t.Kind == "enum" {
						t = nil
						continue
					}
					want, alt := targetName(p, t)
					if g := u.Decls[n]; g != want && (t == nil || g != alt) {
						return bad("map", "declaration map of %s: %s is %s, must be %s", u.Name, n, describe(p, rd, g), describe(p, rd, want))
					}
				}
			}
			for _, r := range o.Ext.Refs {
				h := strings.LastIndex(r.To, "#")
				if h < 0 {
					continue
				}
				off := 0
				fmt.Sscan(r.To[h+1:], &off)
				k, ok := byPath[r.To[:h]]
				if !ok {
					continue
				}
				from := byPath[r.Mod]
				if k != from && rd.Inner[k][off] {
					return bad("leak", "%s in %s refers to %s", r.Name, r.Mod, describe(p, rd, r.To))
				}
				if k != from && k == 0 {
					return bad("leak", "%s in %s refers to the program: %s", r.Name, r.Mod, describe(p, rd, r.To))
				}
				if k == from && k > 0 && r.Index < rd.ImplOff[k] && rd.Inner[k][off] && off > rd.ImplOff[k] {
					return bad("leak", "%s in the interface of %s refers to its implementation: %s", r.Name, r.Mod, describe(p, rd, r.To))
				}
			}
		}
		if private == 0 {
			return trivial
		}
		return held
	}}

// ---- C10

func graphProj(r *Rng) *Proj {
	n := r.In(1, 7)
	if r.P(10) {
		n = r.In(8, 30)
	}
	if r.P(4) {
		n = r.Size(140)
	}
	o := GenOpt{Units: n, Decls: 1, Stmts: 1, Depth: 0, Layout: r.P(30), Cyclic: r.P(60), Dense: r.In(3, 45), Foreign: r.P(40), Blow: r.P(4)}
	if n > 7 {
		o.Dense = r.In(2, 15)
	}
	if n > 30 {
		o.Dense = r.N(4)
	}
	if !r.P(30) {
		o.Decls = 0
	}
	p := Gen(r, o)
	switch r.N(6) {
	case 0: // one long chain or ring
		for i := 1; i <= n; i++ {
			m := p.Mods[i]
			m.Uses, m.ImplUses = nil, nil
			if i < n {
				m.Uses = []UseS{{Name: p.Mods[i+1].Name}}
			} else if r.P(50) {
				u := []UseS{{Name: p.Mods[r.In(1, n)].Name}}
				if r.P(50) && !strings.EqualFold(u[0].Name, m.Name) {
					m.ImplUses = u
				} else {
					m.Uses = u
				}
			}
		}
	case 1: // a diamond of layers
		for i := 1; i <= n; i++ {
			p.Mods[i].Uses, p.Mods[i].ImplUses = nil, nil
			for j := i + 1; j <= n && j <= i+3; j++ {
				p.Mods[i].Uses = append(p.Mods[i].Uses, UseS{Name: p.Mods[j].Name})
			}
		}
	}
	if r.P(15) { // named in both sections, or by itself
		for _, m := range p.Mods[1:] {
			us := append([]UseS(nil), m.Uses...)
			if r.P(30) {
				us = append(us, UseS{Name: m.Name})
			}
			for _, u := range us {
				have := false
				for _, x := range m.ImplUses {
					have = have || strings.EqualFold(x.Name, u.Name)
				}
				if !have && r.P(40) {
					m.ImplUses = insUse(r, m.ImplUses, UseS{Name: u.Name})
				}
			}
		}
	}
	if r.P(30) && n > 0 { // some units are not loaded
		us := p.Mods[0].Uses
		for i := range us {
			if r.P(25) {
				us[i].Path = ""
			}
		}
	}
	if r.P(15) && len(p.Mods[0].Uses) > 1 { // some are not even mentioned
		p.Mods[0].Uses = p.Mods[0].Uses[1:]
	}
	for _, m := range p.Mods { // spelling of names
		for _, us := range [][]UseS{m.Uses, m.ImplUses} {
			for i := range us {
				switch r.N(5) {
				case 0:
					us[i].Name = strings.ToLower(us[i].Name)
				case 1:
					us[i].Name = strings.ToUpper(us[i].Name)
				}
			}
		}
	}
	p.Repair()
	return p
}

// acyclic: the interface uses between the loaded units.
func acyclic(p *Proj) bool {
	state := map[int]int{}
	var visit func(i int) bool
	visit = func(i int) bool {
		if state[i] == 1 {
			return false
		}
		if state[i] == 2 {
			return true
		}
		state[i] = 1
		for _, j := range p.usedUnits(p.Mods[i].Uses) {
			if !visit(j) {
				return false
			}
		}
		state[i] = 2
		return true
	}
	for i := range p.Mods {
		if i > 0 && p.loaded(p.Mods[i].Name) && !visit(i) {
			return false
		}
	}
	return true
}

var c10 = PropDef{ID: "C10",
	Rule: "a project with a generated uses graph (chains, rings, layers, random, self references, units named in both sections, implementation cycles, units not loaded, names in any case), accepted iff the interface relation of the loaded units is acyclic, then unit list and links compared with the graph, under 2 hash seeds; non-trivial when there are at least two units or a cycle",
	Gen:  func(r *Rng) *Case { return semCase(r, graphProj(r)) },
	Judge: func(e *Env, c *Case) *Verdict {
		fs := c.FS()
		p := c.Projs[0]
		want := acyclic(p)
		for i := range c.Boots {
			s := c.Clean(fs)
			s.Boot, s.RandSeed, s.SchedSeed = c.Boots[i], c.Rands[i], c.Sched.Seed+uint64(i)
			s.Extract = true
			run := e.Exec(s, false)
			o, ok := lone(run)
			if !ok {
				return bad("crash", "%s", ended(run))
			}
			if want && o.Class != "ok" {
				return bad("rejected", "the interface uses relation has no cycle, but: %s", show(o))
			}
			if !want && o.Class != "err" {
				return bad("accepted", "the interface uses relation has a cycle, but: %s", show(o))
			}
			if !want {
				continue
			}
			exp := []int{}
			for _, u := range p.Mods[0].Uses {
				if u.Path != "" {
					exp = append(exp, p.unitIndex(u.Name))
				}
			}
			if len(exp) != len(o.Ext.Units) {
				return bad("units", "%d units in the result, %d named with a path", len(o.Ext.Units), len(exp))
			}
			pos := map[int]int{}
			for k, u := range o.Ext.Units {
				m := p.Mods[exp[k]]
				if !strings.EqualFold(u.Name, m.Name) || u.Path != m.Path {
					return bad("units", "unit %d of the result is %s (%s), must be %s (%s)", k, u.Name, u.Path, m.Name, m.Path)
				}
				pos[exp[k]] = k
			}
			n := 0
			for _, l := range o.Ext.Links {
				n++
				w := -1
				if p.loaded(l.Name) {
					w = pos[p.unitIndex(l.Name)]
				}
				if l.Unit != w {
					return bad("link", "%s in the %s section of %s points to unit %d, must be %d (-1 none, -2 not in the list)", l.Name, l.Section, l.Mod, l.Unit, w)
				}
			}
			m := 0
			for k, x := range p.Mods {
				if k == 0 || p.loaded(x.Name) {
					m += len(x.Uses) + len(x.ImplUses)
				}
			}
			if n != m {
				return bad("link", "%d uses clause entries in the result, %d in the texts", n, m)
			}
		}
		if len(p.Mods) < 3 && want {
			return trivial
		}
		return held
	}}

// ---- C14

// workBound is the number of steps a parse may take.
func workBound(c *Case, fs *FS) uint64 {
	size := 0
	for _, f := range fs.Files {
		if !f.Gone && !f.Dir {
			size += len(f.Vers[0])
		}
	}
	return 100000 + uint64(size)*uint64(1500+30*len(fs.Files))
}

var c14 = PropDef{ID: "C14",
	Rule: "valid, truncated, zero-tailed and damaged projects, also long lists, deep nesting, many units, unterminated comments, strings and assembler blocks, under any delivery; the parse must end within the step bound; non-trivial when at least 200 bytes were parsed",
	Gen: func(r *Rng) *Case {
		c := &Case{}
		if r.P(35) {
			c.Kind = "growth"
			c.P = shapes[r.N(len(shapes))].name
			if r.P(35) {
				c.P = fmt.Sprintf("mix%d", r.N(100000))
			}
			if r.P(25) {
				c.P += ":" + r.Pick(dresses)
			}
			c.A = int64(r.In(8, 40))
			if sh := findShape(c.P); r.P(20) && sh != nil && sh.exp == 1 { // long enough for small quadratic terms
				m := &Module{Name: "Main", Prog: true}
				per := (len(shapeText(*sh, 1016, m)) - len(shapeText(*sh, 16, m))) / 1000
				top := 30000 / max(per, 1)
				c.A = int64(max(8, min(top, r.In(40, 40*1<<r.N(8)))))
			}
			c.B = int64(r.N(2))
			c.Projs = []*Proj{{Mods: []*Module{{Name: "Main", Path: "main.dpr", Prog: true}}}}
			if c.B == 1 {
				p := c.Projs[0]
				p.Mods[0].Uses = []UseS{{Name: "U1", Path: "U1.pas"}}
				p.Mods = append(p.Mods, &Module{Name: "U1", Path: "U1.pas"})
			}
			if r.P(30) {
				c.Dmg = []Dmg{{Path: c.Projs[0].Mods[c.B].Path, K: r.Pick([]string{"cut", "zero", "tok"})}}
			}
			seeds(r, c, 1)
			return c
		}
		switch r.N(6) {
		case 0:
			c.Projs = []*Proj{smallProj(r)}
			hurt(r, c, r.In(1, 6))
		case 1:
			c = wrongProj(r)
		case 2:
			c = c05.Gen(r)
		case 3:
			c.Projs = []*Proj{smallProj(r)}
			i := r.N(len(c.Projs[0].Mods))
			c.Projs[0].Mods[i].Raw = shapeText(shapes[r.N(len(shapes))], r.In(3, 60), c.Projs[0].Mods[i])
			if r.P(60) {
				hurt(r, c, 1)
			}
		case 4:
			o := RandOpt(r)
			o.Units, o.Decls, o.Stmts = r.In(5, 30), r.In(1, 3), r.In(1, 3)
			c.Projs = []*Proj{Gen(r, o)}
			if r.P(30) {
				hurt(r, c, 1)
			}
		case 5:
			o := RandOpt(r)
			o.Decls, o.Stmts, o.Depth = r.In(10, 60), r.In(4, 30), r.In(1, 4)
			c.Projs = []*Proj{Gen(r, o)}
		}
		if r.P(30) {
			c.Plans = map[string]*Plan{}
			for _, f := range c.FS().Files {
				c.Plans[f.Path] = randReads(r, len(f.Vers[0]))
			}
		}
		c.Boots, c.Rands = nil, nil
		seeds(r, c, 1)
		c.Tasks = one(c.Main(0))
		return c
	},
	Judge: func(e *Env, c *Case) *Verdict {
		if c.Kind == "growth" {
			return judgeGrowth(e, c)
		}
		fs := c.FS()
		s := c.Scenario(fs)
		b := workBound(c, fs)
		s.Budget = b + 1000
		s.Mem = true
		run := e.exec(s, false)
		if run.R == nil {
			if strings.Contains(run.Fatal, "stack") || run.Stuck || strings.Contains(run.Fatal, "out of memory") || strings.Contains(run.Fatal, "deadlock") {
				return bad("died", "%s", run.Fatal)
			}
			return trivial
		}
		if run.R.Budget {
			return bad("steps", "not finished after %d steps", b)
		}
		o := &run.R.Tasks[0][0]
		if o.Steps > b {
			return bad("steps", "%d steps, bound %d", o.Steps, b)
		}
		size := 0
		for _, f := range fs.Files {
			if len(f.Vers) > 0 {
				size += len(f.Vers[0])
			}
		}
		if size < 200 {
			return trivial
		}
		return held
	}}

// shape is a text which grows with n in one respect.
type shape struct {
	name string
	f    func(n int, rep func(string, int) string) (decls, stmts string)
	exp  float64 // steps grow at most with this power of n
}

var shapes = []shape{
	{"parens", func(n int, rep func(string, int) string) (string, string) {
		return "const X = " + rep("(", n) + "1" + rep(")", n) + ";\n", ""
	}, 1},
	{"sum", func(n int, rep func(string, int) string) (string, string) {
		return "const X = " + rep("1 + ", n*5) + "1;\n", ""
	}, 1},
	{"arrays", func(n int, rep func(string, int) string) (string, string) {
		return "type T = " + rep("array of ", n) + "Integer;\n", ""
	}, 1},
	{"pointers", func(n int, rep func(string, int) string) (string, string) {
		return "type T = " + rep("^", n*3) + "Integer;\n", ""
	}, 1},
	{"records", func(n int, rep func(string, int) string) (string, string) {
		return "type T = " + rep("record a: ", n) + "Integer; " + rep("end; ", n) + "\n", ""
	}, 1},
	{"varlist", func(n int, rep func(string, int) string) (string, string) {
		s := ""
		for i := 0; i < n*4; i++ {
			s += fmt.Sprintf("v%d, ", i)
		}
		return "var " + s + "w: Integer;\n", ""
	}, 1},
	{"aliases", func(n int, rep func(string, int) string) (string, string) {
		s := ""
		for i := 0; i < n*2; i++ {
			s += fmt.Sprintf("type T%d = T%d;\n", i+1, i)
		}
		return s, ""
	}, 2},
	{"types", func(n int, rep func(string, int) string) (string, string) {
		s := "type\n"
		for i := 0; i < n*2; i++ {
			s += fmt.Sprintf("T%d = %s;\n", i, []string{"Integer", "0..9", "(e%d, g%d)", "array[0..3] of Char", "record a: Byte; end", "procedure", "^Q%d", "string[9]", "class f: Byte; end"}[i%9])
			s = strings.ReplaceAll(s, "%d", fmt.Sprint(i))
		}
		return s, ""
	}, 1},
	{"uses", func(n int, rep func(string, int) string) (string, string) { return "", "" }, 1}, // see shapeText
	{"vars", func(n int, rep func(string, int) string) (string, string) {
		s := "var\n"
		for i := 0; i < n*2; i++ {
			s += fmt.Sprintf("v%d: %s;\n", i, []string{"Integer", "0..9", "array[0..3] of Char", "Word = 3", "^Byte"}[i%5])
		}
		return s, ""
	}, 1},
	{"aliasback", func(n int, rep func(string, int) string) (string, string) {
		s := "type\n"
		for i := n; i > 0; i-- {
			s += fmt.Sprintf("P%d = ^T%d;\nT%d = P%d;\n", i, i-1, i, i)
		}
		return s + "T0 = Integer;\n", ""
	}, 1},
	{"classes", func(n int, rep func(string, int) string) (string, string) {
		s := "type\n"
		for i := 0; i < n; i++ {
			s += fmt.Sprintf("T%d = class(T%d)\nf: Integer;\nproperty P%d: Integer read f;\nend;\n", i+1, i, i)
		}
		return s, ""
	}, 2},
	{"overrides", func(n int, rep func(string, int) string) (string, string) {
		s := "type\nT0 = class\nf: Integer;\nproperty P: Integer read f;\nend;\n"
		for i := 0; i < n; i++ {
			s += fmt.Sprintf("T%d = class(T%d)\npublished\nproperty P;\nend;\n", i+1, i)
		}
		return s, ""
	}, 2},
	{"members", func(n int, rep func(string, int) string) (string, string) {
		s := "type T = class\n"
		for i := 0; i < n; i++ {
			s += fmt.Sprintf("f%d: Integer;\n", i)
		}
		for i := 0; i < n; i++ {
			s += fmt.Sprintf("property P%d: Integer read f%d write f%d;\n", i, i, i)
		}
		return s + "end;\n", ""
	}, 2},
	{"methods", func(n int, rep func(string, int) string) (string, string) {
		s := "type T = class\npublic\n"
		for i := 0; i < n; i++ {
			s += fmt.Sprintf("procedure M%d(a: Integer; b: string); virtual;\n", i)
		}
		return s + "end;\n", ""
	}, 1},
	{"comments", func(n int, rep func(string, int) string) (string, string) {
		return rep("{ "+strings.Repeat("x", 50)+" }\n", n*2), ""
	}, 1},
	{"linecomments", func(n int, rep func(string, int) string) (string, string) {
		return rep("// note\n", n*8), ""
	}, 1},
	{"blanks", func(n int, rep func(string, int) string) (string, string) {
		return rep("\n", n*20) + rep(" ", n*20), ""
	}, 1},
	{"opencomment", func(n int, rep func(string, int) string) (string, string) {
		return "const X = 1; { " + rep("open ", n*8), ""
	}, 1},
	{"openstring", func(n int, rep func(string, int) string) (string, string) {
		return "const X = '" + rep("open ", n*8), ""
	}, 1},
	{"openparen", func(n int, rep func(string, int) string) (string, string) {
		return "(* " + rep("(* ", n*8), ""
	}, 1},
	{"enum", func(n int, rep func(string, int) string) (string, string) {
		s := ""
		for i := 0; i < n*4; i++ {
			s += fmt.Sprintf("e%d, ", i)
		}
		return "type T = (" + s + "z);\n", ""
	}, 1},
	{"designator", func(n int, rep func(string, int) string) (string, string) {
		return "const X = a" + rep("[1].b^", n*2) + ";\n", ""
	}, 1},
	{"calls", func(n int, rep func(string, int) string) (string, string) {
		return "const X = " + rep("f(1, ", n) + "1" + rep(")", n) + ";\n", ""
	}, 1},
	{"nots", func(n int, rep func(string, int) string) (string, string) {
		return "const X = " + rep("not ", n*3) + "a;\n", ""
	}, 1},
	{"consts", func(n int, rep func(string, int) string) (string, string) {
		s := "const\n"
		for i := 0; i < n*3; i++ {
			s += fmt.Sprintf("c%d = c%d + 1;\n", i+1, i)
		}
		return s, ""
	}, 1},
	{"sections", func(n int, rep func(string, int) string) (string, string) {
		s := ""
		for i := 0; i < n*2; i++ {
			s += fmt.Sprintf("const c%d = 1;\nvar v%d: Integer;\n", i+1, i)
		}
		return s, ""
	}, 1},
	{"longname", func(n int, rep func(string, int) string) (string, string) {
		return "const " + rep("Long", n*20) + " = 1;\n", ""
	}, 1},
	{"longnumber", func(n int, rep func(string, int) string) (string, string) {
		return "const X = " + rep("7", n*60) + ";\n", ""
	}, 1},
	{"longstring", func(n int, rep func(string, int) string) (string, string) {
		return "const X = '" + rep("abc ", n*20) + "';\n", ""
	}, 1},
	{"params", func(n int, rep func(string, int) string) (string, string) {
		s := ""
		for i := 0; i < n*2; i++ {
			s += fmt.Sprintf("a%d: Integer; ", i)
		}
		return "type T = procedure(" + s + "z: Integer);\n", ""
	}, 1},
	{"symbols", func(n int, rep func(string, int) string) (string, string) {
		return rep("; ", n*8), ""
	}, 1},
	{"ifs", func(n int, rep func(string, int) string) (string, string) {
		return "", rep("if a then begin ", n) + "x := 1 " + rep("end ", n)
	}, 1},
	{"ifelse", func(n int, rep func(string, int) string) (string, string) {
		return "", rep("if a then x := 1 else ", n) + "x := 2"
	}, 1},
	{"ifthen", func(n int, rep func(string, int) string) (string, string) {
		return "", rep("if a then ", n) + "x := 2"
	}, 1},
	{"whiles", func(n int, rep func(string, int) string) (string, string) {
		return "", rep("while a do ", n) + "x := 1"
	}, 1},
	{"fors", func(n int, rep func(string, int) string) (string, string) {
		return "", rep("for i := 1 to 2 do ", n) + "x := 1"
	}, 1},
	{"withs", func(n int, rep func(string, int) string) (string, string) {
		return "", rep("with a, b do ", n) + "x := 1"
	}, 1},
	{"repeats", func(n int, rep func(string, int) string) (string, string) {
		return "", rep("repeat ", n) + "x := 1" + rep(" until a", n)
	}, 1},
	{"nestcall", func(n int, rep func(string, int) string) (string, string) {
		return "", "x := " + rep("f(", n) + "1" + rep(")", n)
	}, 1},
	{"nestindex", func(n int, rep func(string, int) string) (string, string) {
		return "", "x := " + rep("f[", n) + "1" + rep("]", n)
	}, 1},
	{"nestset", func(n int, rep func(string, int) string) (string, string) {
		return "", "x := " + rep("[", n) + "1" + rep("]", n)
	}, 1},
	{"lhs", func(n int, rep func(string, int) string) (string, string) {
		return "", "x" + rep("[1]", n*3) + " := 1"
	}, 1},
	{"lhsnest", func(n int, rep func(string, int) string) (string, string) {
		return "", rep("x[", n) + "1" + rep("]", n) + " := 1"
	}, 1},
	{"callnest", func(n int, rep func(string, int) string) (string, string) {
		return "", rep("x(", n) + "1" + rep(")", n)
	}, 1},
	{"assigns", func(n int, rep func(string, int) string) (string, string) {
		return "", rep("x := y + 1;\n", n*3) + "x := 1"
	}, 1},
	{"tries", func(n int, rep func(string, int) string) (string, string) {
		return "", rep("try ", n) + "x := 1" + rep(" finally y := 1 end", n)
	}, 1},
	{"excepts", func(n int, rep func(string, int) string) (string, string) {
		return "", rep("try ", n) + "x := 1" + rep(" except y := 1 end", n)
	}, 1},
	{"cases", func(n int, rep func(string, int) string) (string, string) {
		return "", "case a of " + rep("1: x := 1; ", n*2) + "end"
	}, 1},
	{"casenest", func(n int, rep func(string, int) string) (string, string) {
		return "", rep("case a of 1: ", n) + "x := 1" + rep("; end", n)
	}, 1},
	{"labels", func(n int, rep func(string, int) string) (string, string) {
		s := "case a of "
		for i := 0; i < n*3; i++ {
			s += fmt.Sprintf("%d, ", i)
		}
		return "", s + "99: x := 1; end"
	}, 1},
	{"asm", func(n int, rep func(string, int) string) (string, string) {
		return "", "asm " + rep("mov eax, 1 ", n*3) + "end"
	}, 1},
	{"openasm", func(n int, rep func(string, int) string) (string, string) {
		return "", "asm " + rep("mov eax, 1 ", n*3)
	}, 1},
	{"openbegin", func(n int, rep func(string, int) string) (string, string) {
		return "", rep("begin ", n*3)
	}, 1},
	{"openif", func(n int, rep func(string, int) string) (string, string) {
		return "", rep("if a then ", n*2)
	}, 1},
	{"sets", func(n int, rep func(string, int) string) (string, string) {
		return "type T = " + rep("set of ", n) + "Char;\n", ""
	}, 1},
	{"dimensions", func(n int, rep func(string, int) string) (string, string) {
		return "type T = " + rep("array[1..2] of ", n) + "Char;\n", ""
	}, 1},
	{"proctypes", func(n int, rep func(string, int) string) (string, string) {
		return "type T = " + rep("procedure(a: ", n) + "Char" + rep(")", n) + ";\n", ""
	}, 1},
	{"variants", func(n int, rep func(string, int) string) (string, string) {
		return "type T = record " + rep("case Integer of 1: (", n) + "a: Char;" + rep(");", n) + " end;\n", ""
	}, 1},
	{"innerclasses", func(n int, rep func(string, int) string) (string, string) {
		return "type T = " + rep("class a: ", n) + "Char; " + rep("end; ", n) + "\n", ""
	}, 1},
	{"routines", func(n int, rep func(string, int) string) (string, string) {
		return rep("procedure x; ", n) + rep("begin Writeln(1) end; ", n), ""
	}, 2},
	{"casts", func(n int, rep func(string, int) string) (string, string) {
		return "", "x := " + rep("Integer(", n) + "1" + rep(")", n)
	}, 1},
	{"tightcomments", func(n int, rep func(string, int) string) (string, string) {
		return rep("{}", n*6) + rep("(**)", n), ""
	}, 1},
	{"derefs", func(n int, rep func(string, int) string) (string, string) {
		return "", "x := a" + rep("^", n*4)
	}, 1},
	{"fields", func(n int, rep func(string, int) string) (string, string) {
		return "", "x := a" + rep(".b", n*4)
	}, 1},
	{"exports", func(n int, rep func(string, int) string) (string, string) {
		return "exports " + rep("Foo index 1 name 'x', ", n*2) + "Bar;\n", ""
	}, 1},
	{"handlers", func(n int, rep func(string, int) string) (string, string) {
		return "", "try x except " + rep("on E: T do y; ", n*2) + "else z end"
	}, 1},
	{"structconst", func(n int, rep func(string, int) string) (string, string) {
		return "const X: T = (" + rep("(a: 1; b: (2, 3)), ", n*2) + "4);\n", ""
	}, 1},
	{"typedconst", func(n int, rep func(string, int) string) (string, string) {
		return "const X: Integer = " + rep("(", n) + "1" + rep(")", n) + ";\n", ""
	}, 1},
}

// deepShapes nest without bound: every level must not cost stack for ever.
var deepShapes = strings.Fields("parens arrays records calls nots ifs ifelse ifthen whiles fors withs repeats nestcall nestindex nestset lhsnest callnest tries excepts casenest openbegin openif sets dimensions proctypes variants innerclasses routines casts tightcomments typedconst openparen")

// wrappers put one construct around another of its kind.
var wrappers = [][][2]string{
	{{"(", ")"}, {"f(", ")"}, {"a[", "]"}, {"not ", ""}, {"-", ""}, {"[", "]"}, {"1 + ", ""}, {"", " * 2"}, {"Integer(", ")"}, {"f(1, ", ")"}, {"a.b[", "]"}, {"(", ").c"}, {"@a[", "]"}, {"(", ") = 1"}, {"1 in [", ", 2]"}, {"'s' + ", ""}, {"f(", ")^.x"}, {"[1..", "]"}},
	{{"begin ", " end"}, {"if x then ", ""}, {"if x then y else ", ""}, {"while x do ", ""}, {"for i := 1 to 2 do ", ""}, {"with x do ", ""}, {"repeat ", " until x"}, {"try ", " finally y end"}, {"try ", " except y end"}, {"try y except on E: T do ", "; end"}, {"try y except on T do y; else ", " end"}, {"case x of 1: ", "; end"}, {"case x of 1: y; else ", " end"}, {"if f(x) then begin ", "; y end"}, {"begin y; ", " end"}},
	{{"array of ", ""}, {"array[0..1] of ", ""}, {"packed array[Boolean, 1..2] of ", ""}, {"set of ", ""}, {"procedure(a: ", ")"}, {"function(const a: ", "): Char"}, {"file of ", ""}, {"record a: ", "; end"}, {"record a: Char; case Integer of 1: (b: ", "); end"}},
}

// mixed nests a random choice of constructs in turn.
func mixed(name string) *shape {
	var seed uint64
	if _, err := fmt.Sscanf(name, "mix%d", &seed); err != nil {
		return nil
	}
	r := NewRng(seed, 5)
	kind := r.N(3)
	ws := [][2]string{}
	for i := r.In(1, 4); i > 0; i-- {
		ws = append(ws, wrappers[kind][r.N(len(wrappers[kind]))])
	}
	exp := 1.0
	for _, w := range ws {
		if strings.Contains(w[0], "on E:") || strings.Contains(w[0], "procedure(") || strings.Contains(w[0], "function(") {
			exp = 2 // nested scopes
		}
	}
	return &shape{name, func(n int, rep func(string, int) string) (string, string) {
		n /= 2
		pre, post := "", ""
		for _, w := range ws {
			pre += w[0]
			post = w[1] + post
		}
		switch core := rep(pre, n); kind {
		case 0:
			if seed%2 == 0 {
				return "const X = " + core + "1" + rep(post, n) + ";\n", ""
			}
			return "", "x := " + core + "b" + rep(post, n)
		case 1:
			return "", core + "z(1)" + rep(post, n)
		default:
			return "type T = " + core + "Byte" + rep(post, n) + ";\n", ""
		}
	}, exp}
}

// dressed is a shape with long names or strings, or with comments and blanks between its parts.
func dressed(name string) *shape {
	base, how, ok := strings.Cut(name, ":")
	if !ok {
		return nil
	}
	sh := findShape(base)
	if sh == nil {
		return nil
	}
	return &shape{name, func(n int, rep func(string, int) string) (string, string) {
		d, st := sh.f(n, rep)
		return dress(d, how), dress(st, how)
	}, sh.exp}
}

var dresses = []string{"names", "names", "comments", "blanks", "lines"}

func dress(s, how string) string {
	switch how {
	case "names":
		return shortName.ReplaceAllString(s, "${1}_a_rather_long_name_for_it_${2}")
	case "comments":
		return strings.ReplaceAll(s, ";", "; { about what comes next, and more }")
	case "blanks":
		return strings.ReplaceAll(s, " ", "          ")
	case "lines":
		return strings.ReplaceAll(s, " ", " \r\n")
	}
	return s
}

var shortName = regexp.MustCompile(`\b([A-Za-z])(\d+)\b`)

func findShape(name string) *shape {
	if m := dressed(name); m != nil {
		return m
	}
	if m := mixed(name); m != nil {
		return m
	}
	for i := range shapes {
		if shapes[i].name == name {
			return &shapes[i]
		}
	}
	return nil
}

func shapeText(s shape, n int, m *Module) string {
	decls, stmts := s.f(n, strings.Repeat)
	if stmts == "" {
		stmts = "Writeln(1)"
	}
	uses := ""
	for i, u := range m.Uses {
		if i == 0 {
			uses = "uses "
		} else {
			uses += ", "
		}
		uses += u.Name
		if u.Path != "" {
			uses += " in '" + u.Path + "'"
		}
	}
	if base, _, _ := strings.Cut(s.name, ":"); base == "uses" { // many units which are not loaded
		for i := 0; i < n*4; i++ {
			if uses == "" {
				uses = "uses "
			} else {
				uses += ", "
			}
			uses += fmt.Sprintf("z%d", i)
		}
	}
	if uses != "" {
		uses += ";\n"
	}
	if m.Prog {
		return "program " + m.Name + ";\n" + uses + decls + "begin\n" + stmts + ";\nend.\n"
	}
	return "unit " + m.Name + ";\ninterface\n" + uses + decls + "implementation\ninitialization\n" + stmts + ";\nend.\n"
}

// judgeGrowth compares the work for a text with that for a text eight times as long.
func judgeGrowth(e *Env, c *Case) *Verdict {
	sh := findShape(c.P)
	if sh == nil || int(c.B) >= len(c.Projs[0].Mods) {
		return trivial
	}
	const k = 8
	var steps, allocs [2]uint64
	var size [2]int
	for i, f := range []int{1, k} {
		d := clone(c)
		m := d.Projs[0].Mods[c.B]
		m.Raw = shapeText(*sh, int(c.A)*f, m)
		for q := range d.Dmg {
			// damage in the same relative place
			if d.Dmg[q].K == "tok" {
				d.Dmg[q].A = len(tokens([]byte(m.Raw))) * 3 / 4
				d.Dmg[q].B = 1
			} else {
				d.Dmg[q].A = len(m.Raw) * 3 / 4
			}
		}
		fs := d.FS()
		for _, f := range fs.Files {
			size[i] += len(f.Vers[0])
		}
		s := d.Clean(fs)
		s.Tasks[0].Ops[0].Mode = "nodump" // the dump of a long chain of types would overflow the stack
		s.Mem = true
		s.Budget = workBound(d, fs) + 1000
		run := e.exec(s, false)
		if run.R == nil {
			if strings.Contains(run.Fatal, "stack") || run.Stuck || strings.Contains(run.Fatal, "out of memory") || strings.Contains(run.Fatal, "deadlock") {
				return bad("died", "%s", run.Fatal)
			}
			return trivial
		}
		if run.R.Budget {
			return bad("steps", "%s of size %d (%d bytes): not finished after %d steps", c.P, int(c.A)*f, size[i], s.Budget)
		}
		steps[i], allocs[i] = run.R.Tasks[0][0].Steps, run.R.Tasks[0][0].Allocs
	}
	factor := float64(k)
	if sh.exp > 1 {
		factor *= k
	}
	if growthLog != nil {
		growthLog(c, size, steps, allocs)
	}
	if float64(steps[1]) > 1.8*factor*float64(steps[0])+100000 {
		return bad("growth", "%s: %d bytes take %d steps, %d bytes take %d", c.P, size[0], steps[0], size[1], steps[1])
	}
	if float64(allocs[1]) > 2.5*factor*float64(allocs[0])+2000000 {
		return bad("growth", "%s: %d bytes allocate %d bytes, %d bytes allocate %d", c.P, size[0], allocs[0], size[1], allocs[1])
	}
	return held
}

var growthLog func(c *Case, size [2]int, steps, allocs [2]uint64)
