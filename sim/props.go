package main

import (
	"fmt"
	"strings"

	"vdst/scen"
)

// Verdict is what a judge says about a case.
type Verdict struct {
	Bad     string // kind of violation, "" = the property held
	Detail  string
	Trivial bool // the situation the property speaks about did not arise
}

type PropDef struct {
	ID    string
	Race  bool // uses the race-detector build, too
	Gen   func(r *Rng) *Case
	Judge func(e *Env, c *Case) *Verdict
	Rule  string
}

func bad(kind, format string, a ...interface{}) *Verdict {
	return &Verdict{Bad: kind, Detail: fmt.Sprintf(format, a...)}
}

var held = &Verdict{}
var trivial = &Verdict{Trivial: true}

// key identifies the outcome of a call: the tree or the error message.
func key(o *scen.OpRes) string {
	if o.Class == "panic" {
		return "panic " + o.Err
	}
	return o.Class + " " + o.Hash
}

func show(o *scen.OpRes) string {
	switch o.Class {
	case "err":
		return "error: " + o.Err
	case "ok":
		return "tree " + o.Hash
	}
	return o.Class + " " + o.Err
}

// lone gives the outcome of the only parse of a run; ok is false when the run did not end
// normally.
func lone(run *Run) (*scen.OpRes, bool) {
	if run.R == nil || run.R.Budget || !run.R.Done || len(run.R.Tasks) == 0 {
		return nil, false
	}
	return &run.R.Tasks[0][0], true
}

func ended(run *Run) string {
	if run.R == nil {
		return "the process died: " + run.Fatal
	}
	if run.R.Budget {
		return "the step budget ran out"
	}
	return "ended"
}

// ---- random parts of cases

func randSched(r *Rng) Sched {
	switch r.N(5) {
	case 0:
		return Sched{}
	case 1:
		s := Sched{Seed: r.U64() % 1e9, BlockRand: true}
		return s
	}
	return Sched{Every: uint32([]int{3, 10, 40, 150, 600, 3000}[r.N(6)]), Seed: r.U64() % 1e9, BlockRand: true}
}

func seeds(r *Rng, c *Case, n int) {
	for i := 0; i < n; i++ {
		c.Boots = append(c.Boots, r.U64()%1e9)
		c.Rands = append(c.Rands, r.U64()%1e9)
	}
}

// anyProj is a project which has to parse, of any shape.
func anyProj(r *Rng) *Proj {
	o := RandOpt(r)
	if r.P(4) {
		o.Units, o.Decls, o.Stmts = r.In(9, 24), 2, 1
	}
	p := Gen(r, o)
	if r.P(3) && len(p.Mods) > 1 { // long names
		long := strings.Repeat("LongName", r.In(4, 40))
		renameUnit(p, r.In(1, len(p.Mods)-1), "U"+long)
	}
	return p
}

// smallProj has few modules and short bodies.
func smallProj(r *Rng) *Proj {
	o := GenOpt{Units: r.N(4), Decls: r.In(1, 3), Stmts: r.In(1, 2), Depth: 1, Layout: r.P(30), Dense: r.In(20, 80), Foreign: r.P(20), Shadow: r.P(20)}
	if r.P(30) {
		o.Classes = 40
	}
	o.Blow = r.P(4)
	return Gen(r, o)
}

func renameUnit(p *Proj, i int, name string) {
	old := p.Mods[i].Name
	p.Mods[i].Name = name
	for _, m := range p.Mods {
		for k := range m.Uses {
			if strings.EqualFold(m.Uses[k].Name, old) {
				m.Uses[k].Name = name
			}
		}
		for k := range m.ImplUses {
			if strings.EqualFold(m.ImplUses[k].Name, old) {
				m.ImplUses[k].Name = name
			}
		}
		eachRef(m, func(r *RefS) {
			if strings.EqualFold(r.Q, old) {
				r.Q = name
			}
		})
	}
	p.Repair()
}

func eachChunk(m *Module, f func(c *Chunk)) {
	var walk func(cs []*Chunk)
	walk = func(cs []*Chunk) {
		for _, c := range cs {
			f(c)
			walk(c.S)
			walk(c.B)
		}
	}
	for _, cs := range [][]*Chunk{m.Intf, m.Impl, m.Init, m.Fin} {
		walk(cs)
	}
}

func eachRef(m *Module, f func(r *RefS)) {
	eachChunk(m, func(c *Chunk) {
		for i := range c.R {
			f(&c.R[i])
		}
	})
}

// inDir moves a project into a directory of its own.
func inDir(p *Proj, dir string) *Proj {
	for _, m := range p.Mods {
		old := m.Path
		m.Path = dir + "/" + strings.TrimPrefix(strings.TrimPrefix(m.Path, "./"), "../")
		for i := range p.Mods[0].Uses {
			if p.Mods[0].Uses[i].Path == old {
				p.Mods[0].Uses[i].Path = m.Path
			}
		}
	}
	return p
}

var spliceTokens = strings.Fields("begin end end. ; : := = ( ) [ ] , . .. ^ @ ' { } (* *) // + - * / if then else while do repeat until for to downto case of with try finally except on raise asm goto label const var type procedure function class record array set file string interface implementation uses unit program initialization finalization inherited property private public published constructor destructor packed object nil not and or div mod in is as xor shl shr 1 0 3.25 1e5 'a' 'abc Val1 TAlpha TNode Integer U1 U1.Val1 Main.Val1 external name index read write default stored virtual override overload stdcall resourcestring threadvar exports library package out dispinterface absolute platform deprecated library default nodefault implements abstract dynamic message forward $ # & ? ~ ! \" \\ % ソ ｱ あ x y begin;end class(TNode) ^TAlpha TView class;")

func randDmg(r *Rng, fs *FS, p string) Dmg {
	f := fs.get(p)
	n := len(f.Vers[0])
	if n == 0 {
		n = 1
	}
	d := Dmg{Path: p, A: r.N(n)}
	blk := []int{1, 2, 3, 7, 16, 64, 512, 4096}
	switch r.N(21) {
	case 20:
		d.K, d.S = "stmt", r.Pick(oddStmts)
	case 17, 18:
		d.K, d.B, d.N = "id", r.N(n), r.N(3)
	case 19:
		d.K, d.S = "decl", tangle(r)
	case 16:
		d.K, d.B = r.Pick([]string{"pre", "post", "utf"}), r.N(100)
	case 0:
		d.K, d.B = "flip", r.N(8)
	case 1:
		d.K, d.B, d.N = "over", r.N(1000000), blk[r.N(len(blk))]
	case 2, 3:
		d.K, d.N = "del", blk[r.N(len(blk))]
	case 4:
		d.K, d.N = "dup", blk[r.N(len(blk))]
	case 5:
		d.K, d.B, d.N = "swap", r.N(n), blk[r.N(len(blk))]
	case 6:
		d.K, d.B, d.N = "from", r.N(n), r.N(len(fs.Files))
		if r.P(50) {
			d.A, d.B = 0, 0
		}
	case 7:
		d.K, d.N = "zeros", blk[r.N(len(blk))]
	case 8:
		d.K = "cut"
	case 9:
		d.K, d.N, d.S = "text", r.N(4), r.Pick(spliceTokens)
	case 10, 11:
		d.K, d.A, d.B, d.S = "tok", r.N(n), r.N(2), r.Pick(spliceTokens)
	case 12, 13:
		d.K, d.A, d.B = "tok", r.N(n), r.In(1, 3)
	case 14:
		d.K, d.A, d.B, d.N = "tokdup", r.N(n), r.In(1, 12), r.N(n)
	case 15:
		d.K, d.A, d.B, d.S = "tok", r.N(n), r.N(3), r.Pick(spliceTokens)+" "+r.Pick(spliceTokens)+" "+r.Pick(spliceTokens)
	}
	return d
}

// hurt adds k damages to the files of the case.
func hurt(r *Rng, c *Case, k int) {
	fs := c.FS()
	for i := 0; i < k; i++ {
		f := fs.Files[r.N(len(fs.Files))]
		c.Dmg = append(c.Dmg, randDmg(r, fs, f.Path))
	}
}

// wrongProj is well-formed except for one or more errors of meaning or grammar.
func wrongProj(r *Rng) *Case {
	c := &Case{Projs: []*Proj{anyProj(r)}}
	p := c.Projs[0]
	switch r.N(4) {
	case 0:
		hurt(r, c, r.In(1, 4))
	case 1: // errors at the token level in several units
		fs := c.FS()
		for _, m := range p.Mods {
			if r.P(60) {
				c.Dmg = append(c.Dmg, Dmg{Path: m.Path, K: "tok", A: r.N(len(fs.get(m.Path).Vers[0])), B: r.N(2), S: r.Pick(spliceTokens)})
			}
		}
	case 2: // cycles
		o := RandOpt(r)
		o.Units, o.Cyclic, o.Dense = r.In(1, 7), true, r.In(10, 50)
		c.Projs = []*Proj{Gen(r, o)}
	case 3: // duplicate declarations and undefined qualified names
		for _, m := range p.Mods {
			if r.P(50) {
				n := r.Pick(poolV)
				d := &Chunk{K: "const", N: []string{n}}
				if m.Prog {
					m.Impl = append(m.Impl, d, d)
				} else {
					m.Intf = append(m.Intf, d, d)
				}
			}
		}
	}
	return c
}
