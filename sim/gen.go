package main

import (
	"fmt"
	"sort"
	"strings"
)

func sortStrings(s []string) { sort.Strings(s) }

// GenOpt bounds a generated project.
type GenOpt struct {
	Units   int // number of units
	Decls   int // declarations per section, at most
	Stmts   int // statements per block, at most
	Depth   int // nesting of statements and routines
	Layout  bool
	Pad     int  // comment padding per module, at most
	Cyclic  bool // interface uses may form cycles
	Dense   int  // percentage of possible uses edges
	Foreign bool // uses of units which are not part of the project
	Shadow  bool // declarations may hide embedded types
	Classes int  // weight of class declarations
	Blow    bool // one unusual extent
	Pair    bool // two long names that are nearly the same
}

type gen struct {
	r    *Rng
	o    GenOpt
	p    *Proj
	uniq int
	m    *Module
	enum []string // enum elements declared in this module so far
}

var (
	poolV = []string{"Val1", "Val2", "Val3", "Val4", "cnt", "Limit"}
	poolT = []string{"TAlpha", "TBeta", "TGamma", "TDelta", "TKey"}
	poolC = []string{"TNode", "TList", "TView"}
	poolP = []string{"Calc", "Run", "Emit"}
	poolA = []string{"Real48", "Real", "Single", "Extended", "Currency", "Comp", "Cardinal", "ShortInt", "SmallInt", "LongInt", "Int64", "LongWord", "AnsiChar", "WideChar", "WideString", "PChar", "PAnsiChar", "PWideChar", "OleVariant"}
	poolE = []string{"Integer", "Byte", "Double", "AnsiString", "Pointer", "Variant", "Word"}
)

func (g *gen) fresh(prefix string) string {
	g.uniq++
	return fmt.Sprint(prefix, g.uniq)
}

// free returns a name of the pool which is not taken, and takes it.
func (g *gen) free(pool []string, taken map[string]bool) string {
	for i := 0; i < 6; i++ {
		n := g.r.Pick(pool)
		if !taken[strings.ToLower(n)] {
			taken[strings.ToLower(n)] = true
			return n
		}
	}
	n := g.fresh(pool[0] + "x")
	taken[strings.ToLower(n)] = true
	return n
}

func (g *gen) qual(r RefS, own string) RefS {
	if g.r.P(20) && len(g.p.Mods) > 0 {
		r.Q = g.p.Mods[g.r.N(len(g.p.Mods))].Name
	}
	if r.Q == "" && strings.EqualFold(r.N, own) {
		r.N = "zz"
	}
	return r
}

// tref refers to a type, vref to a value.
func (g *gen) tref(own string) RefS {
	var n string
	switch g.r.N(10) {
	case 0, 1, 2, 3:
		n = g.r.Pick(poolT)
	case 4, 5:
		n = g.r.Pick(poolC)
	case 6, 7:
		n = g.r.Pick(poolE)
		if g.r.P(35) {
			n = g.r.Pick(poolA)
		}
	case 8:
		n = g.r.Pick([]string{"Boolean", "Char"})
	default:
		n = "TUnknown"
	}
	if strings.EqualFold(n, own) {
		r := g.qual(RefS{N: n}, own)
		if r.Q == "" {
			return RefS{N: "Boolean"}
		}
		return r
	}
	return g.qual(RefS{N: n}, own)
}

func (g *gen) vref(own string) RefS {
	if len(g.enum) > 0 && g.r.P(12) {
		return RefS{N: g.r.Pick(g.enum)}
	}
	switch g.r.N(12) {
	case 0:
		return g.qual(RefS{N: g.r.Pick(poolP)}, own)
	case 1:
		return RefS{N: "unknownv"}
	}
	return g.qual(RefS{N: g.r.Pick(poolV)}, own)
}

func (g *gen) vrefs(n int, own string) []RefS {
	rs := []RefS{}
	for i := 0; i < n; i++ {
		rs = append(rs, g.vref(own))
	}
	return rs
}

func (g *gen) trefs(n int, own string) []RefS {
	rs := []RefS{}
	for i := 0; i < n; i++ {
		rs = append(rs, g.tref(own))
	}
	return rs
}

// decl makes one declaration for a scope with the taken names.
func (g *gen) decl(taken map[string]bool, where string) *Chunk {
	if g.r.P(15) { // a section with several declarations
		c := &Chunk{K: g.r.Pick([]string{"types", "types", "vars"})}
		for n, tries := g.r.In(2, 4), 0; n > 0 && tries < 40; tries++ {
			before := map[string]bool{}
			for k := range taken {
				before[k] = true
			}
			d := g.decl1(taken, where)
			if inSection(c.K, d.K) {
				c.S = append(c.S, d)
				n--
				continue
			}
			for k := range taken {
				if !before[k] {
					delete(taken, k)
				}
			}
			if d.K == "proc" || d.K == "heading" {
				g.uniq++
			}
		}
		if len(c.S) > 0 {
			return c
		}
	}
	return g.decl1(taken, where)
}

func inSection(sec, k string) bool {
	switch k {
	case "var":
		return sec == "vars"
	case "const", "tconst", "consts", "lit", "threadvar", "heading", "proc", "label", "types", "vars":
		return false
	}
	return sec == "types"
}

func (g *gen) decl1(taken map[string]bool, where string) *Chunk {
	c := &Chunk{V: g.r.U64() % 4096}
	k := g.r.N(26)
	if g.o.Classes > 0 && where != "local" && g.r.P(g.o.Classes) {
		k = 15
	}
	tname := func() string {
		if g.o.Shadow && g.r.P(12) {
			if g.r.P(30) {
				return g.free(poolA, taken)
			}
			return g.free(poolE, taken)
		}
		return g.free(poolT, taken)
	}
	switch k {
	case 0, 1, 2:
		c.K = "const"
		c.N = []string{g.free(poolV, taken)}
		c.R = g.vrefs(g.r.N(3), c.N[0])
	case 3:
		c.K = "tconst"
		c.N = []string{g.free(poolV, taken)}
		c.R = append(g.trefs(1, ""), g.vrefs(g.r.N(3), c.N[0])...)
	case 4:
		c.K = "consts"
		for i := g.r.In(1, 3); i > 0; i-- {
			c.N = append(c.N, g.free(poolV, taken))
		}
		for i := range c.N {
			c.R = append(c.R, g.vref(c.N[i]))
		}
	case 5, 6, 7:
		c.K = "var"
		for i := g.r.In(1, 3); i > 0; i-- {
			c.N = append(c.N, g.free(poolV, taken))
		}
		c.R = g.trefs(1, "")
		if len(c.N) == 1 && where != "local" && g.r.P(20) {
			c.R = append(c.R, g.vref(c.N[0]))
		}
	case 8:
		if where == "local" {
			return g.decl1(taken, where)
		}
		c.K = "threadvar"
		c.N = []string{g.free(poolV, taken)}
		c.R = g.trefs(1, "")
	case 9, 10:
		c.K = "alias"
		c.N = []string{tname()}
		c.R = g.trefs(1, c.N[0])
	case 11:
		c.K = "ptr"
		c.N = []string{tname()}
		c.R = g.trefs(1, c.N[0])
	case 12:
		c.K = "ptrfwd"
		c.N = []string{tname(), ""}
		c.N[1] = g.free(poolT, taken)
		c.R = g.trefs(1, c.N[1])
		if strings.EqualFold(c.R[0].N, c.N[0]) {
			c.R = nil
		}
	case 13:
		c.K = "enum"
		c.N = []string{tname()}
		for i := g.r.In(1, 4); i > 0; i-- {
			c.N = append(c.N, g.fresh("el"))
		}
		if where != "local" {
			g.enum = append(g.enum, c.N[1:]...)
		}
	case 14:
		c.K = "subrange"
		c.N = []string{tname()}
		if g.r.P(50) {
			c.R = g.vrefs(2, "")
			for i := range c.R {
				c.R[i].Q = ""
			}
		}
	case 15, 16, 17:
		if where == "local" {
			return g.decl1(taken, where)
		}
		c.K = "class"
		c.N = []string{g.free(poolC, taken)}
		c.R = g.trefs(g.r.N(12), c.N[0])
		if len(c.R) > 0 {
			c.R[0] = RefS{}
			if g.r.P(60) {
				for i := 0; i < 4; i++ {
					n := g.r.Pick(poolC)
					if n != c.N[0] {
						c.R[0] = g.qual(RefS{N: n}, c.N[0])
					}
				}
			}
		}
		if len(c.R) > 6 {
			c.R[6] = g.vref("")
			c.R[6].Q = ""
		}
		if g.r.P(20) {
			c.K = "classfwd"
			c.N = append(c.N, g.free(poolT, taken))
		}
	case 18:
		c.K = "array"
		c.N = []string{tname()}
		c.R = g.trefs(1, c.N[0])
	case 19:
		c.K = g.r.Pick([]string{"set", "str"})
		c.N = []string{tname()}
	case 20:
		c.K = "file"
		c.N = []string{tname()}
		c.R = g.trefs(1, c.N[0])
	case 21:
		c.K = "record"
		c.N = []string{tname()}
		c.R = g.trefs(g.r.N(4), c.N[0])
	case 22:
		c.K = g.r.Pick([]string{"proctype", "functype"})
		c.N = []string{tname()}
		inner := map[string]bool{}
		for i := g.r.N(3); i > 0; i-- {
			c.N = append(c.N, g.free(poolV, inner))
		}
		c.R = g.trefs(len(c.N), c.N[0])
	case 23:
		if where == "local" {
			return g.decl1(taken, where)
		}
		c.K = "classref"
		c.N = []string{tname()}
		c.R = []RefS{{N: g.r.Pick(poolC)}}
	default:
		switch where {
		case "intf":
			c.K = "heading"
			c.N = []string{g.free(poolP, taken)}
			inner := map[string]bool{}
			for i := g.r.N(4); i > 0; i-- {
				c.N = append(c.N, g.free(poolV, inner))
			}
			if g.r.P(60) {
				c.R = g.trefs(len(c.N), "")
			}
		default:
			return g.proc(taken, 0)
		}
	}
	return c
}

func (g *gen) proc(taken map[string]bool, depth int) *Chunk {
	c := &Chunk{K: "proc", V: g.r.U64() % 4096}
	c.N = []string{g.free(poolP, taken)}
	inner := map[string]bool{strings.ToLower(c.N[0]): true}
	for i := g.r.N(4); i > 0; i-- {
		c.N = append(c.N, g.free(poolV, inner))
	}
	c.R = g.trefs(len(c.N), "")
	for i := g.r.N(3); i > 0; i-- {
		if depth < 1 && g.r.P(15) {
			c.S = append(c.S, g.proc(inner, depth+1))
			continue
		}
		d := g.decl(inner, "local")
		if d.K == "proc" {
			continue
		}
		c.S = append(c.S, d)
	}
	if g.r.P(15) {
		l := g.fresh("lab")
		c.S = append(c.S, &Chunk{K: "label", N: []string{l}})
		c.B = append(c.B, &Chunk{K: "label", N: []string{l}, R: g.vrefs(1, "")})
		if g.r.P(50) {
			c.B = append(c.B, &Chunk{K: "goto", N: []string{l}})
		}
	}
	c.B = append(c.B, g.stmts(g.o.Depth)...)
	return c
}

func (g *gen) stmts(depth int) []*Chunk {
	cs := []*Chunk{}
	n := g.r.N(g.o.Stmts + 1)
	if n > 2 && depth < g.o.Depth {
		n = 2
	}
	for i := 0; i < n; i++ {
		cs = append(cs, g.stmt(depth))
	}
	return cs
}

func (g *gen) stmt(depth int) *Chunk {
	c := &Chunk{V: g.r.U64() % 4096}
	k := g.r.N(20)
	if depth <= 0 {
		k = g.r.N(7)
	}
	switch k {
	case 0, 1, 2:
		c.K = "assign"
		c.R = g.vrefs(g.r.In(1, 4), "")
	case 3:
		c.K = "call"
		c.R = g.vrefs(g.r.N(4), "")
	case 4:
		c.K = "cast"
		c.R = []RefS{g.vref(""), {N: g.r.Pick(poolT)}, g.vref("")}
	case 5:
		c.K = "field"
		c.R = g.vrefs(g.r.In(1, 3), "")
	case 6:
		switch g.r.N(6) {
		case 0:
			c.K = "raise"
			c.R = g.vrefs(1, "")
		case 1:
			c.K = "asm"
		case 2:
			c.K = "inherited"
		default:
			c.K = "set"
			c.R = g.vrefs(3, "")
			c.R[1].Q, c.R[2].Q = "", ""
		}
	case 7, 8, 9:
		c.K = "if"
		c.R = g.vrefs(g.r.In(1, 3), "")
		c.S = g.stmts(depth - 1)
		if g.r.P(50) {
			c.B = g.stmts(depth - 1)
		}
	case 10:
		c.K = "while"
		c.R = g.vrefs(g.r.In(1, 2), "")
		c.S = []*Chunk{g.stmt(depth - 1)}
	case 11:
		c.K = "repeat"
		c.R = g.vrefs(g.r.In(1, 2), "")
		c.S = g.stmts(depth - 1)
	case 12, 13:
		c.K = "for"
		c.R = g.vrefs(g.r.In(1, 2), "")
		c.R[0].Q = ""
		c.S = []*Chunk{g.stmt(depth - 1)}
	case 14, 15:
		c.K = "case"
		c.R = g.vrefs(g.r.In(1, 3), "")
		for i := g.r.N(4); i > 0; i-- {
			c.S = append(c.S, g.stmt(depth-1))
		}
		if g.r.P(40) {
			c.B = g.stmts(depth - 1)
		}
	case 16:
		c.K = "with"
		c.R = g.vrefs(g.r.In(1, 2), "")
		c.S = []*Chunk{g.stmt(depth - 1)}
	case 17:
		c.K = "tryfin"
		c.S, c.B = g.stmts(depth-1), g.stmts(depth-1)
	case 18:
		c.K = "tryexc"
		c.S = g.stmts(depth - 1)
		if g.r.P(60) {
			taken := map[string]bool{}
			for i := g.r.In(1, 2); i > 0; i-- {
				if g.r.P(50) {
					c.N = append(c.N, g.free(poolV, map[string]bool{}))
				} else {
					c.N = append(c.N, g.free([]string{"E", "Exc"}, taken))
				}
			}
			c.R = append(g.trefs(len(c.N), ""), g.vrefs(len(c.N), "")...)
			if g.r.P(30) {
				c.B = g.stmts(depth - 1)
			}
		} else {
			c.B = g.stmts(depth - 1)
		}
	default:
		c.K = "begin"
		c.S = g.stmts(depth - 1)
	}
	return c
}

func (g *gen) lay() uint64 {
	if !g.o.Layout {
		return 0
	}
	return g.r.U64()%100000 + 1
}

// Names of units which are prefixes, suffixes or concatenations of each other.
// oddDirs are places whose names messages and comparisons could get wrong.
var oddDirs = []string{"a%20b/", "100%d%s/", "my dir/", "{x}(y)/", "a.b/c..d/", "Sub/", "SUB/", "sub//", "sub/../sub/", "x;y,z/", strings.Repeat("directory/", 9), strings.Repeat("long_directory_name_", 11) + "/", "/sim/work/abs/", "-/", "~/"}

var oddNames = []string{"U", "UU", "UUU", "U1", "U1U", "UU1", "UU1U", "UUUU", "U1U1", "main1", "Unit_A", "Unit_A1", "uNits", "U1UU"}

// Gen makes a project that has to parse (unless o.Cyclic closed a cycle).
func Gen(r *Rng, o GenOpt) *Proj {
	g := &gen{r: r, o: o, p: &Proj{}}
	p := g.p
	dirs := []string{"", "", "", "sub/", "../lib/", "./", "日本/"}
	if !o.Layout {
		dirs = []string{""}
	}
	if o.Layout && r.P(12) {
		dirs = append(dirs, oddDirs...)
	}
	odd := o.Layout && r.P(25)
	perm := r.Perm(len(oddNames))
	prog := &Module{Name: "Main", Path: "main.dpr", Prog: true}
	if o.Layout && r.P(10) {
		prog.Path = dirs[r.N(len(dirs))] + r.Pick([]string{"main.dpr", "Main.dpr", "p.dpr", "my program.dpr"})
	}
	p.Mods = append(p.Mods, prog)
	for i := 1; i <= o.Units; i++ {
		d := dirs[r.N(len(dirs))]
		if d == "日本/" {
			d = "ソマ/"
		}
		n := fmt.Sprint("U", i)
		file := n
		if odd && i <= len(oddNames) {
			n, file = oddNames[perm[i-1]], fmt.Sprint("F", i)
			if r.P(50) {
				file = n
			}
		}
		p.Mods = append(p.Mods, &Module{Name: n, Path: d + file + ".pas"})
	}
	// uses relations
	order := r.Perm(o.Units) // position -> unit
	pos := make([]int, o.Units)
	for i, u := range order {
		pos[u] = i
	}
	foreign := []string{"SysUtils", "Windows", "Classes"}
	for i := 1; i <= o.Units; i++ {
		m := p.Mods[i]
		for _, j := range r.Perm(o.Units) {
			u := p.Mods[j+1]
			name := u.Name
			if o.Layout && r.P(20) {
				name = strings.ToLower(name)
			}
			switch {
			case r.P(o.Dense) && (o.Cyclic || pos[j] < pos[i-1]):
				m.Uses = append(m.Uses, UseS{Name: name})
			case r.P(o.Dense) && j != i-1:
				m.ImplUses = append(m.ImplUses, UseS{Name: name})
			}
		}
		if o.Foreign && r.P(30) {
			m.Uses = insUse(r, m.Uses, UseS{Name: foreign[0]})
		}
		if o.Foreign && r.P(30) {
			m.ImplUses = insUse(r, m.ImplUses, UseS{Name: foreign[1]})
		}
	}
	for _, j := range r.Perm(o.Units) {
		u := p.Mods[j+1]
		prog.Uses = append(prog.Uses, UseS{Name: u.Name, Path: u.Path})
	}
	if o.Foreign && r.P(40) {
		prog.Uses = insUse(r, prog.Uses, UseS{Name: foreign[2]})
	}
	// declarations
	for _, m := range p.Mods {
		g.m = m
		g.enum = nil
		taken := map[string]bool{}
		m.Lay = g.lay()
		if o.Pad > 0 && r.P(50) {
			m.Pad = r.N(o.Pad)
		}
		if !m.Prog {
			for i := r.N(o.Decls + 1); i > 0; i-- {
				m.Intf = append(m.Intf, g.decl(taken, "intf"))
			}
		}
		for k := range taken { // routines are declared again by their implementation
			for _, n := range poolP {
				if strings.ToLower(n) == k {
					delete(taken, k)
				}
			}
		}
		for i := r.N(o.Decls + 1); i > 0; i-- {
			m.Impl = append(m.Impl, g.decl(taken, "impl"))
		}
		if r.P(12) {
			for i := r.In(1, 4); i > 0; i-- {
				m.Exports = append(m.Exports, r.Pick(poolP))
			}
		}
		if m.Prog || r.P(50) {
			m.Init = g.stmts(o.Depth)
			if len(m.Init) > 0 && r.P(30) {
				m.Fin = g.stmts(o.Depth)
			}
		}
		if o.Layout && r.P(20) {
			m.Port = r.Pick([]string{"", "platform", "deprecated", ""})
			m.Tail = r.Pick([]string{"\n", "\r\n", " \n\n", "\n{ end }\n", "\n// コ"})
		}
	}
	if o.Blow {
		g.m, g.enum = prog, nil
		g.blow()
	}
	if o.Pair {
		g.pair(longName(r, r.Size(300)), r.P(60))
	}
	p.Repair()
	return p
}

func insUse(r *Rng, us []UseS, u UseS) []UseS {
	k := r.N(len(us) + 1)
	us = append(us, UseS{})
	copy(us[k+1:], us[k:])
	us[k] = u
	return us
}

// RandOpt chooses the size of a project.
func RandOpt(r *Rng) GenOpt {
	o := GenOpt{Units: r.N(5), Decls: r.In(1, 5), Stmts: r.In(1, 4), Depth: r.In(0, 2), Layout: r.P(60), Dense: r.In(10, 70), Foreign: r.P(40), Shadow: r.P(40)}
	if r.P(15) {
		o.Units = r.In(4, 8)
	}
	if r.P(15) {
		o.Pad = 9000
	}
	if r.P(20) {
		o.Classes = 50
	}
	o.Blow = r.P(10)
	return o
}
