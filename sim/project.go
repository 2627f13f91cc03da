package main

import (
	"fmt"
	"strings"
)

// A project is a tree of chunks. Rendering writes the Object Pascal text and, at the same time,
// decides by the scoping rules which declaration every reference has to resolve to: the
// reference model of the checks on name resolution.

// RefS is a reference to a name, qualified by a module name when Q is set.
type RefS struct {
	Q string `json:",omitempty"`
	N string
}

type Chunk struct {
	K string
	N []string `json:",omitempty"` // names it declares
	R []RefS   `json:",omitempty"` // names it refers to
	S []*Chunk `json:",omitempty"` // local declarations or statements
	B []*Chunk `json:",omitempty"` // body of a routine, second branch of a statement
	V uint64   `json:",omitempty"` // layout
}

type UseS struct {
	Name string
	Path string `json:",omitempty"` // text of the IN clause
}

type Module struct {
	Name, Path     string
	Prog           bool     `json:",omitempty"`
	Uses, ImplUses []UseS   `json:",omitempty"`
	Intf, Impl     []*Chunk `json:",omitempty"`
	Init, Fin      []*Chunk `json:",omitempty"`
	Exports        []string `json:",omitempty"`
	Port           string   `json:",omitempty"` // portability directive of the unit
	Lay            uint64   // layout: line ends, letter case, comments
	Pad            int      `json:",omitempty"` // about so many bytes of comments
	Raw            string   `json:",omitempty"` // text as is; no expectations
	Head           string   `json:",omitempty"` // text before the first token
	Tail           string   `json:",omitempty"` // text after the final full stop
}

type Proj struct {
	Mods []*Module // Mods[0] is the program
}

// Target is a declaration: the module and the rune offset of its identifier.
type Target struct {
	Mod  int
	Off  int
	Alt  int // another acceptable offset, or -1
	Kind string
	Emb  string
}

type ExpRef struct {
	Mod, Off int
	Name     string
	T        *Target // nil: must stay unresolved
	Any      bool    // no expectation
	Qual     bool
}

// ClassInfo is what a class declares.
type ClassInfo struct {
	Mod, Off int
	Parent   *Target // nil: none
	Unclear  bool    // the ancestor is no class declared before, or not known to be one
	Members  []Member
	Props    []Prop
}

type Member struct {
	Name    string
	Off     int
	Private bool
}

type Prop struct {
	Name  string
	Off   int
	Has   map[string]bool // type index read write stored default
	Uses  map[string]int  // read write stored: offset of the member's name in the specifier
	Names map[string]string
	Want  map[string][2]int // the member it means: module and offset
}

func (c *ClassInfo) prop(name string) *Prop {
	for i := range c.Props {
		if strings.EqualFold(c.Props[i].Name, name) {
			return &c.Props[i]
		}
	}
	return nil
}

// parentOf returns the class info of the ancestor; known is false when the model cannot tell.
func (r *Rendered) parentOf(c *ClassInfo) (*ClassInfo, bool) {
	if c.Unclear {
		return nil, false
	}
	if c.Parent == nil {
		return nil, true
	}
	x := r.Classes[[2]int{c.Parent.Mod, c.Parent.Off}]
	return x, x != nil
}

// member finds the declaration a name in the class means.
func (r *Rendered) member(c *ClassInfo, name string, private bool) (*ClassInfo, *Member, bool) {
	for n := 0; c != nil && n < 100; n++ {
		for i := range c.Members {
			m := &c.Members[i]
			if strings.EqualFold(m.Name, name) && (private || !m.Private) {
				return c, m, true
			}
		}
		x, known := r.parentOf(c)
		if !known {
			return nil, nil, false
		}
		c, private = x, false
	}
	return nil, nil, c == nil
}

type Rendered struct {
	Proj    *Proj
	Text    [][]rune
	Bytes   [][]byte
	End     []int // byte offset of the final full stop
	ImplOff []int // rune offset of the IMPLEMENTATION keyword, or -1
	Refs    []ExpRef
	Intf    []map[string]*Target // interface declarations by lower case name
	Enums   []map[string]bool    // interface enum elements
	Inner   []map[int]bool       // offsets of declarations not in the interface
	Names   []string
	Classes map[[2]int]*ClassInfo // by module and offset of the declared name
	Valid   bool                  // every qualified reference is resolvable
	Why     string
}

var embedded = map[string]bool{}

func init() {
	for _, n := range strings.Fields("real48 real single double extended currency comp integer cardinal shortint smallint longint int64 byte word longword char ansichar widechar boolean string ansistring widestring pointer pchar pansichar pwidechar variant olevariant") {
		embedded[n] = true
	}
}

type scope map[string]*Target

type em struct {
	p       *Proj
	out     *Rendered
	mi      int
	m       *Module
	buf     []rune
	lay     *Rng
	nl      string
	pass    int
	scopes  []scope // routine scopes, innermost last
	local   scope   // implementation or program declarations
	intf    scope
	inIntf  bool
	used    []int // units used by the interface (or the program), in order
	implU   []int
	pend    []int // refs to look up again at the end of the section
	noted   map[string]bool
	plain   bool
	inner   map[int]bool
	depth   int
	padLeft int
	fix     bool     // turn unresolvable qualified references into unqualified ones
	own     []string // names the current declaration declares
	inSec   bool     // inside of a section with several declarations
	later   map[string]bool
}

func (p *Proj) unitIndex(name string) int {
	for i, m := range p.Mods {
		if i > 0 && strings.EqualFold(m.Name, name) {
			return i
		}
	}
	return -1
}

// loaded says whether the program names the unit with a path.
func (p *Proj) loaded(name string) bool {
	for _, u := range p.Mods[0].Uses {
		if strings.EqualFold(u.Name, name) && u.Path != "" {
			return p.unitIndex(name) > 0
		}
	}
	return false
}

func (p *Proj) usedUnits(us []UseS) []int {
	r := []int{}
	for _, u := range us {
		if p.loaded(u.Name) {
			r = append(r, p.unitIndex(u.Name))
		}
	}
	return r
}

// Render writes all modules. Pass 1 collects the interface declarations, pass 2 finds the
// ancestors of the classes, pass 3 resolves. All passes write texts of the same length.
const lastPass = 3

func (p *Proj) Render() *Rendered { return p.render(false) }

// Repair makes every qualified reference resolvable.
func (p *Proj) Repair() { p.render(true) }

func (p *Proj) render(fix bool) *Rendered {
	out := &Rendered{Proj: p, Valid: true, Classes: map[[2]int]*ClassInfo{}}
	n := len(p.Mods)
	out.Text = make([][]rune, n)
	out.Bytes = make([][]byte, n)
	out.End = make([]int, n)
	out.ImplOff = make([]int, n)
	out.Intf = make([]map[string]*Target, n)
	out.Enums = make([]map[string]bool, n)
	out.Inner = make([]map[int]bool, n)
	names := map[string]bool{}
	for pass := 1; pass <= lastPass; pass++ {
		out.Refs = nil
		out.Valid = true
		for i, m := range p.Mods {
			e := &em{fix: fix, p: p, out: out, mi: i, m: m, pass: pass, noted: names, lay: NewRng(m.Lay, 77), nl: "\n", inner: map[int]bool{}}
			if m.Lay%3 == 1 {
				e.nl = "\r\n"
			}
			e.plain = m.Lay == 0
			out.ImplOff[i] = -1
			if pass == 1 {
				out.Enums[i] = map[string]bool{}
			}
			if m.Raw != "" {
				out.Text[i] = []rune(m.Raw)
				if pass == 1 {
					out.Intf[i] = map[string]*Target{}
				}
			} else {
				e.module()
				out.Text[i] = e.buf
				if pass == 1 {
					out.Intf[i] = e.intf
				}
			}
			out.Inner[i] = e.inner
			out.Bytes[i] = sjis(out.Text[i])
			k := len(out.Text[i]) - len([]rune(m.Tail))
			for k > 0 && out.Text[i][k-1] != '.' {
				k--
			}
			out.End[i] = len(sjis(out.Text[i][:k])) - 1
		}
	}
	for n := range names {
		out.Names = append(out.Names, n)
	}
	for _, m := range p.Mods {
		if !names[strings.ToLower(m.Name)] {
			out.Names = append(out.Names, strings.ToLower(m.Name))
		}
	}
	sortStrings(out.Names)
	return out
}

// ---- low level text

func (e *em) raw(s string) { e.buf = append(e.buf, []rune(s)...) }

var jp = []rune("あいうえおかきくけこソポボマミアイウエオカキクケコ｡ｱｲｳﾝ")

func (e *em) comment() {
	body := ""
	for i := e.lay.N(6); i >= 0; i-- {
		switch e.lay.N(5) {
		case 0:
			for k := e.lay.N(5); k >= 0; k-- {
				body += string(jp[e.lay.N(len(jp))])
			}
		case 4:
			if e.lay.P(30) {
				body += strings.Repeat(e.nl+"note", e.lay.In(1, 12))
			} else {
				body += e.nl
			}
		case 1:
			body += "end"
		case 2:
			body += "x1 := 'a'"
		case 3:
			body += "note"
		}
		body += " "
	}
	switch e.lay.N(3) {
	case 0:
		e.raw("{" + body + "}")
	case 1:
		e.raw("(*" + body + "*)")
	case 2:
		e.raw("//" + strings.ReplaceAll(body, e.nl, " ") + e.nl)
	}
}

// sp separates two tokens.
func (e *em) sp() {
	if e.plain {
		e.raw(" ")
		return
	}
	switch e.lay.N(24) {
	case 0:
		e.raw("  ")
	case 1:
		e.raw(e.nl)
		if e.lay.P(20) {
			e.raw(strings.Repeat(e.nl, e.lay.In(1, 5)))
		}
	case 2:
		e.raw("\t")
	case 3:
		e.raw(" ")
		e.comment()
		e.raw(" ")
	default:
		e.raw(" ")
	}
}

func (e *em) line() {
	e.raw(e.nl)
	for i := 0; i < e.depth; i++ {
		e.raw("  ")
	}
	if e.padLeft > 0 {
		n := e.padLeft
		if n > 900 {
			n = 900
		}
		e.padLeft -= n
		e.raw("{ ")
		for n > 0 {
			if e.lay.P(30) {
				e.raw(string(jp[e.lay.N(len(jp))]))
				n -= 2
			} else if e.lay.P(4) {
				e.raw(e.nl)
				n--
			} else {
				e.raw("pad ")
				n -= 4
			}
		}
		e.raw("}" + e.nl)
	}
}

// t writes source text word by word; words are separated as the layout likes. Words in lower
// case letters only are keywords or directives and may change case.
func (e *em) t(s string) {
	for i, w := range strings.Fields(s) {
		if i > 0 {
			e.sp()
		}
		e.raw(e.vary(w, true))
	}
}

func (e *em) vary(w string, kw bool) string {
	if e.plain || strings.ContainsAny(w, "'") {
		return w
	}
	switch e.lay.N(10) {
	case 0:
		return strings.ToUpper(w)
	case 1:
		return strings.ToLower(w)
	case 2:
		if len(w) > 1 {
			return strings.ToUpper(w[:1]) + w[1:]
		}
	}
	return w
}

func (e *em) note(name string) {
	if e.pass == 1 {
		e.noted[strings.ToLower(name)] = true
	}
}

// ---- scoping

func (e *em) top() scope {
	if n := len(e.scopes); n > 0 {
		return e.scopes[n-1]
	}
	if e.inIntf {
		return e.intf
	}
	return e.local
}

// name writes a declared identifier and returns its offset.
func (e *em) name(n string) int {
	e.note(n)
	off := len(e.buf)
	e.raw(n)
	return off
}

func (e *em) declare(n string, off int, kind string) *Target {
	t := &Target{Mod: e.mi, Off: off, Alt: -1, Kind: kind}
	e.top()[strings.ToLower(n)] = t
	if !e.inIntf || len(e.scopes) > 0 {
		e.inner[off] = true
	}
	return t
}

func (e *em) lookup(name string) *Target {
	k := strings.ToLower(name)
	for i := len(e.scopes) - 1; i >= 0; i-- {
		if t := e.scopes[i][k]; t != nil {
			return t
		}
	}
	if !e.inIntf {
		if t := e.local[k]; t != nil {
			return t
		}
	}
	if t := e.intf[k]; t != nil {
		return t
	}
	for _, us := range [][]int{e.implU, e.used} {
		for i := len(us) - 1; i >= 0; i-- {
			if t := e.out.Intf[us[i]][k]; t != nil && t.Kind != "enum" {
				return t
			}
		}
	}
	if embedded[k] {
		return &Target{Emb: k, Alt: -1}
	}
	return nil
}

func (e *em) qualLookup(q, name string) *Target {
	k := strings.ToLower(name)
	if strings.EqualFold(q, e.m.Name) {
		if e.m.Prog && len(e.m.Uses) == 0 {
			return nil
		}
		if !e.inIntf {
			if t := e.local[k]; t != nil && t.Kind != "proc" {
				return t
			}
		}
		if e.m.Prog {
			return nil
		}
		if t := e.intf[k]; t != nil && t.Kind != "proc" && (e.inIntf || t.Kind != "enum") {
			return t
		}
		return nil
	}
	u := e.p.unitIndex(q)
	for _, us := range [][]int{e.implU, e.used} {
		for _, x := range us {
			if x == u {
				if t := e.out.Intf[u][k]; t != nil && t.Kind != "enum" {
					return t
				}
			}
		}
	}
	return nil
}

func (e *em) addRef(off int, name string, t *Target, qual bool, typ bool) {
	if e.pass != lastPass {
		return
	}
	x := ExpRef{Mod: e.mi, Off: off, Name: name, T: t, Qual: qual}
	if t != nil && t.Kind == "proc" && t.Mod == e.mi {
		x.Any = true
	}
	e.out.Refs = append(e.out.Refs, x)
	if t == nil && typ {
		e.pend = append(e.pend, len(e.out.Refs)-1)
	}
}

// ref writes a reference; typ: in type position.
func (e *em) ref(r *RefS, typ bool) {
	e.note(r.N)
	if r.Q != "" && e.fix && e.pass >= 2 && (e.qualLookup(r.Q, r.N) == nil || typ && strings.EqualFold(r.Q, e.m.Name)) {
		r.Q = ""
		for _, n := range e.own {
			if strings.EqualFold(n, r.N) {
				r.N = "zz"
			}
		}
	}
	if r.Q != "" {
		e.raw(e.vary(r.Q, false) + ".")
		off := len(e.buf)
		n := e.vary(r.N, false)
		e.raw(n)
		if e.pass == lastPass {
			t := e.qualLookup(r.Q, r.N)
			if t == nil {
				e.out.Valid = false
				e.out.Why = r.Q + "." + r.N
				return
			}
			e.addRef(off, n, t, true, false)
		}
		return
	}
	off := len(e.buf)
	n := e.vary(r.N, false)
	e.raw(n)
	if e.pass == lastPass {
		e.addRef(off, n, e.lookup(r.N), false, typ)
	}
}

// endTypeSection resolves type references which were not declared yet.
func (e *em) endTypeSection() {
	if e.inSec {
		return
	}
	for _, i := range e.pend {
		e.out.Refs[i].T = e.lookup(e.out.Refs[i].Name)
	}
	e.pend = nil
}

// ---- modules

func (e *em) uses(us []UseS) {
	if len(us) == 0 {
		return
	}
	e.t("uses")
	e.sp()
	for i, u := range us {
		if i > 0 {
			e.raw(",")
			e.sp()
		}
		e.raw(e.vary(u.Name, false))
		if u.Path != "" {
			e.sp()
			e.t("in")
			e.sp()
			where := u.Path
			if !e.plain && e.lay.P(12) { // as written on Windows
				where = strings.ReplaceAll(where, "/", "\\")
			}
			e.raw("'" + where + "'")
		}
	}
	e.raw(";")
	e.line()
}

func (e *em) module() {
	m := e.m
	e.local, e.intf = scope{}, scope{}
	e.padLeft = m.Pad
	e.raw(m.Head)
	if !e.plain && e.lay.P(30) {
		e.comment()
		e.line()
	}
	if m.Prog {
		e.t("program")
		e.sp()
		e.raw(m.Name + ";")
		e.line()
		e.used = e.p.usedUnits(m.Uses)
		e.uses(m.Uses)
		e.decls(m.Impl)
		e.exports()
		e.t("begin")
		e.depth++
		e.stmts(m.Init)
		e.depth--
		e.line()
		e.t("end")
		e.raw(".")
	} else {
		e.t("unit")
		e.sp()
		e.raw(m.Name)
		if m.Port != "" {
			e.raw(" ")
			e.t(m.Port)
		}
		e.raw(";")
		e.line()
		e.t("interface")
		e.line()
		e.uses(m.Uses)
		e.used = e.p.usedUnits(m.Uses)
		e.inIntf = true
		e.decls(m.Intf)
		e.inIntf = false
		e.out.ImplOff[e.mi] = len(e.buf)
		e.t("implementation")
		e.line()
		e.uses(m.ImplUses)
		e.implU = e.p.usedUnits(m.ImplUses)
		e.decls(m.Impl)
		e.exports()
		if len(m.Init) > 0 {
			e.t("initialization")
			e.depth++
			e.stmts(m.Init)
			e.depth--
			e.line()
			if len(m.Fin) > 0 {
				e.t("finalization")
				e.depth++
				e.stmts(m.Fin)
				e.depth--
				e.line()
			}
		}
		e.t("end")
		e.raw(".")
	}
	e.raw(m.Tail)
}

func (e *em) exports() {
	if len(e.m.Exports) == 0 {
		return
	}
	e.t("exports")
	e.sp()
	for i, n := range e.m.Exports {
		if i > 0 {
			e.raw(",")
			e.sp()
		}
		e.raw(n)
		switch i % 3 {
		case 1:
			e.raw(" ")
			e.t("name 'ex1'")
		case 2:
			e.raw(" ")
			e.t("index 3")
		}
	}
	e.raw(";")
	e.line()
}

func (e *em) decls(cs []*Chunk) {
	for _, c := range cs {
		e.decl(c)
		e.line()
	}
}

func (e *em) r(c *Chunk, i int, typ bool, dflt string) {
	if i < len(c.R) {
		e.ref(&c.R[i], typ)
	} else {
		e.raw(dflt)
	}
}

func (e *em) expr(c *Chunk, from int) {
	ops := []string{"+", "-", "*", "/", "div", "mod", "and", "or", "shl", "xor", "=", "<>", "<=", ">"}
	lits := []string{"1", "42", "3.25", "'ab'", "nil", "'ソマ'", "True"}
	rng := NewRng(c.V, 5)
	n := 0
	for i := from; i < len(c.R); i++ {
		if n > 0 {
			e.raw(" ")
			e.t(ops[rng.N(len(ops))])
			e.raw(" ")
		}
		switch rng.N(8) {
		case 0:
			e.raw("(")
			e.ref(&c.R[i], false)
			e.raw(" + 1)")
		case 1:
			e.t("not")
			e.raw(" ")
			e.ref(&c.R[i], false)
		case 2:
			e.ref(&c.R[i], false)
			e.raw("[2]")
		case 3:
			e.ref(&c.R[i], false)
			e.raw("(7, 'z')")
		case 4:
			e.raw("@")
			e.ref(&c.R[i], false)
		case 5:
			if n == 0 && rng.P(40) {
				e.raw(rng.Pick([]string{"-", "+", "- "}))
			}
			e.ref(&c.R[i], false)
		default:
			e.ref(&c.R[i], false)
		}
		n++
	}
	if n == 0 {
		e.raw(lits[rng.N(len(lits))])
		return
	}
	if rng.P(30) {
		e.raw(" " + ops[rng.N(3)] + " " + lits[rng.N(3)])
	}
}

func (e *em) params(c *Chunk, names []string, from int) {
	if len(names) == 0 {
		return
	}
	e.raw("(")
	for i := 0; i < len(names); i++ {
		if i > 0 {
			e.raw(";")
			e.sp()
		}
		opt := (c.V >> uint(i)) & 3
		if opt == 1 {
			e.t("const")
			e.raw(" ")
		} else if opt == 2 {
			e.t([]string{"var", "var", "out"}[(c.V>>uint(i+2))%3])
			e.raw(" ")
		}
		group := names[i : i+1]
		offs := []int{e.name(names[i])}
		if (c.V>>9)&3 == 1 && i+1 < len(names) {
			i++
			group = names[i-1 : i+1]
			e.raw(",")
			e.sp()
			offs = append(offs, e.name(names[i]))
		}
		form := (c.V >> uint(i+4)) & 15
		if form == 3 && opt != 0 { // untyped
			for k, n := range group {
				e.declare(n, offs[k], "param")
			}
			continue
		}
		e.raw(":")
		e.sp()
		switch {
		case form == 5:
			e.t("array of const")
		default:
			if form == 1 {
				e.t("array of")
				e.raw(" ")
			}
			e.r(c, from+i, true, "Boolean")
			if form == 7 {
				e.raw(" = 5")
			}
		}
		for k, n := range group {
			e.declare(n, offs[k], "param")
		}
	}
	e.raw(")")
}

func (e *em) push() { e.scopes = append(e.scopes, scope{}) }
func (e *em) pop()  { e.scopes = e.scopes[:len(e.scopes)-1] }

// decl writes a declaration chunk.
func (e *em) decl(c *Chunk) {
	if c.K != "proc" {
		e.own = c.N
	}
	n0 := ""
	if len(c.N) > 0 {
		n0 = c.N[0]
	}
	secHead := func(kw string) {
		if !e.inSec {
			e.t(kw)
			e.sp()
		}
	}
	typeHead := func() int {
		secHead("type")
		off := e.name(n0)
		e.raw(" = ")
		return off
	}
	switch c.K {
	case "types", "vars": // one section with several declarations
		if len(c.S) == 0 {
			return
		}
		e.t(c.K[:len(c.K)-1])
		e.inSec = true
		for i, d := range c.S {
			e.later = map[string]bool{}
			for _, l := range c.S[i+1:] {
				for _, n := range l.N {
					e.later[strings.ToLower(n)] = true
				}
			}
			e.line()
			e.decl(d)
		}
		e.inSec, e.later = false, nil
		e.endTypeSection()
	case "const":
		e.t("const")
		e.sp()
		off := e.name(n0)
		e.declare(n0, off, "const")
		e.raw(" = ")
		e.expr(c, 0)
		e.raw(";")
	case "tconst":
		e.t("const")
		e.sp()
		off := e.name(n0)
		e.declare(n0, off, "const")
		e.raw(": ")
		e.r(c, 0, true, "Boolean")
		e.raw(" = ")
		e.expr(c, 1)
		e.raw(";")
	case "consts":
		e.t("const")
		for i, n := range c.N {
			e.line()
			off := e.name(n)
			e.declare(n, off, "const")
			e.raw(" = ")
			e.r(c, i, false, "10")
			e.raw(";")
		}
	case "lit": // a long string or number
		e.t("const")
		e.sp()
		off := e.name(n0)
		e.declare(n0, off, "const")
		if c.V%2 == 0 {
			e.raw(" = '" + strings.Repeat("s", int(c.V)) + "';")
		} else {
			e.raw(" = " + strings.Repeat("7", int(c.V)) + ";")
		}
	case "var", "threadvar":
		secHead(c.K)
		offs := []int{}
		for i, n := range c.N {
			if i > 0 {
				e.raw(", ")
			}
			offs = append(offs, e.name(n))
		}
		e.raw(": ")
		switch (c.V >> 3) % 14 {
		case 0:
			e.t("array[0..2] of")
			e.raw(" ")
		case 1:
			e.t("array of")
			e.raw(" ")
		case 2:
			e.raw("^")
		case 3:
			e.t("packed array[Boolean] of array[1..2] of")
			e.raw(" ")
		case 4:
			if c.K == "var" {
				e.t("function(qa: Char): ")
			}
		}
		e.r(c, 0, true, "Boolean")
		if c.K == "var" && (c.V>>7)%9 == 1 && len(c.N) == 1 {
			e.raw(" ")
			e.t("absolute")
			e.raw(" zz")
		} else if c.K == "var" && len(c.R) > 1 && len(c.N) == 1 {
			e.raw(" = ")
			e.expr(c, 1)
		}
		e.raw(";")
		for i, n := range c.N {
			e.declare(n, offs[i], "var")
		}
	case "alias":
		off := typeHead()
		if c.V%4 == 1 {
			e.t("type")
			e.raw(" ")
		}
		e.r(c, 0, true, "Integer")
		if (c.V>>5)%12 == 1 {
			e.raw(" ")
			e.t([]string{"platform", "deprecated", "library"}[(c.V>>9)%3])
		}
		e.raw(";")
		e.declare(n0, off, "type")
		e.endTypeSection()
	case "ptr":
		off := typeHead()
		e.raw("^")
		e.r(c, 0, true, "Char")
		e.raw(";")
		if k := len(e.out.Refs) - 1; e.pass == lastPass && len(c.R) > 0 && c.R[0].Q == "" && e.later[strings.ToLower(c.R[0].N)] {
			e.out.Refs[k].Any = true
		}
		e.declare(n0, off, "type")
		e.endTypeSection()
	case "ptrfwd": // N0 = ^N1; N1 = R0;
		off := typeHead()
		e.raw("^")
		e.ref(&RefS{N: c.N[1]}, true)
		if k := len(e.out.Refs) - 1; e.pass == lastPass && e.out.Refs[k].T != nil {
			e.out.Refs[k].Any = true // a declaration outside the section is visible, too
		}
		e.raw(";")
		e.declare(n0, off, "type")
		e.line()
		off = e.name(c.N[1])
		e.raw(" = ")
		e.r(c, 0, true, "Char")
		e.raw(";")
		e.declare(c.N[1], off, "type")
		e.endTypeSection()
	case "enum":
		off := typeHead()
		e.raw("(")
		for i, n := range c.N[1:] {
			if i > 0 {
				e.raw(", ")
			}
			o := e.name(n)
			e.declare(n, o, "enum")
			if e.inIntf && e.pass == 1 {
				e.out.Enums[e.mi][strings.ToLower(n)] = true
			}
			if (c.V>>uint(i))&3 == 3 {
				e.raw(" = 4")
			}
		}
		e.raw(");")
		e.declare(n0, off, "type")
	case "subrange":
		off := typeHead()
		if len(c.R) > 0 {
			e.r(c, 0, false, "1")
			e.raw("..")
			e.r(c, 1, false, "9")
		} else {
			e.raw([]string{"1..9", "-128..127", "'a'..'z'"}[c.V%3])
		}
		e.raw(";")
		e.declare(n0, off, "type")
	case "array":
		off := typeHead()
		if c.V%3 == 1 {
			e.t("packed")
			e.raw(" ")
		}
		e.t("array")
		switch c.V % 4 {
		case 0:
			e.raw("[0..3]")
		case 1:
			e.raw("[Boolean, 1..2]")
		}
		e.raw(" ")
		e.t("of")
		e.raw(" ")
		e.r(c, 0, true, "Char")
		e.raw(";")
		e.declare(n0, off, "type")
		e.endTypeSection()
	case "set":
		off := typeHead()
		if (c.V>>4)%4 == 1 {
			e.t("packed")
			e.raw(" ")
		}
		e.t([]string{"set of Boolean", "set of 1..5", "set of Char"}[c.V%3])
		e.raw(";")
		e.declare(n0, off, "type")
	case "file":
		off := typeHead()
		if (c.V>>4)%4 == 1 {
			e.t("packed")
			e.raw(" ")
		}
		e.t("file of")
		e.raw(" ")
		e.r(c, 0, true, "Char")
		e.raw(";")
		e.declare(n0, off, "type")
		e.endTypeSection()
	case "str":
		off := typeHead()
		e.raw([]string{"string", "string[20]", "STRING"}[c.V%3])
		e.raw(";")
		e.declare(n0, off, "type")
	case "record":
		off := typeHead()
		if (c.V>>7)%5 == 1 {
			e.t("packed")
			e.raw(" ")
		}
		e.t("record")
		e.depth++
		for i := 0; i < 1+int(c.V%3); i++ {
			e.line()
			e.raw("f" + string(rune('a'+i)) + ": ")
			e.r(c, i, true, "Char")
			e.raw(";")
		}
		if (c.V>>4)%4 == 1 {
			e.line()
			e.t("case")
			e.sp()
			if (c.V>>6)%2 == 1 {
				e.raw("tag: ")
			}
			e.t("Boolean of")
			e.line()
			e.raw("0: (va: ")
			e.r(c, 0, true, "Char")
			e.raw(";")
			e.sp()
			e.raw("vb, vc: Char);")
			e.line()
			e.raw("1, 2: (vd: ")
			e.r(c, 1, true, "Char")
			e.raw(");")
		}
		e.depth--
		e.line()
		e.t("end")
		e.raw(";")
		e.declare(n0, off, "type")
		e.endTypeSection()
	case "class":
		secHead("type")
		e.classDecl(c, n0)
		e.endTypeSection()
	case "classfwd": // N0 = class; N1 = ^N0; N0 = class ... end;
		secHead("type")
		off := e.name(n0)
		e.raw(" = ")
		e.t("class")
		e.raw(";")
		t := e.declare(n0, off, "type")
		e.line()
		off1 := e.name(c.N[1])
		e.raw(" = ^")
		e.ref(&RefS{N: n0}, true)
		e.raw(";")
		e.declare(c.N[1], off1, "type")
		e.line()
		e.classDecl(c, n0)
		e.top()[strings.ToLower(n0)].Alt = off
		t.Alt = e.top()[strings.ToLower(n0)].Off
		e.endTypeSection()
	case "classref":
		off := typeHead()
		e.t("class of")
		e.raw(" ")
		e.r(c, 0, false, "TObject")
		if k := len(e.out.Refs) - 1; e.pass == lastPass && len(c.R) > 0 && e.later[strings.ToLower(c.R[0].N)] {
			e.out.Refs[k].Any = true
		}
		e.raw(";")
		e.declare(n0, off, "type")
	case "proctype":
		off := typeHead()
		e.t("procedure")
		e.push()
		e.params(c, c.N[1:], 0)
		e.pop()
		if c.V%2 == 1 {
			e.raw(" ")
			e.t("of object")
		}
		e.raw(";")
		e.declare(n0, off, "type")
		e.endTypeSection()
	case "functype":
		off := typeHead()
		e.t("function")
		e.push()
		e.params(c, c.N[1:], 1)
		e.raw(": ")
		e.r(c, 0, true, "Char")
		e.pop()
		e.raw(";")
		e.declare(n0, off, "type")
		e.endTypeSection()
	case "heading":
		fn := len(c.R) > 0
		if fn {
			e.t("function")
		} else {
			e.t("procedure")
		}
		e.sp()
		off := e.name(n0)
		e.push()
		e.params(c, c.N[1:], 1)
		if fn {
			e.raw(": ")
			e.ref(&c.R[0], true)
			e.pend = nil
		}
		e.pop()
		e.raw(";")
		if e.inIntf {
			e.intf[strings.ToLower(n0)] = &Target{Mod: e.mi, Off: off, Alt: -1, Kind: "proc"}
		}
		switch c.V % 5 {
		case 1:
			e.raw(" ")
			e.t("stdcall")
			e.raw(";")
		case 2:
			e.raw(" ")
			e.t("overload")
			e.raw("; ")
			e.t("cdecl")
			e.raw(";")
		case 3:
			e.raw(" ")
			e.t([]string{"external 'lib.dll' name 'f1'", "external 'lib.dll'", "external"}[c.V/5%3])
			e.raw(";")
		case 4:
			e.raw(" ")
			e.t([]string{"safecall", "register", "pascal", "varargs", "far"}[c.V/5%5])
			e.raw(";")
		}
	case "label":
		e.t("label")
		e.sp()
		off := e.name(n0)
		e.raw(";")
		e.declare(n0, off, "label")
	case "proc":
		fn := c.V%2 == 1
		if fn {
			e.t("function")
		} else {
			e.t("procedure")
		}
		e.sp()
		off := e.name(n0)
		e.declare(n0, off, "proc")
		e.push()
		e.own = nil
		e.params(c, c.N[1:], 1)
		if fn {
			e.raw(": ")
			e.r(c, 0, true, "Boolean")
		}
		e.pend = nil
		e.raw(";")
		e.depth++
		e.line()
		for _, d := range c.S {
			e.decl(d)
			e.line()
		}
		if len(c.B) == 0 && (c.V>>5)%3 == 1 {
			e.t("asm")
			e.raw(" mov eax, 1 ")
		} else {
			e.t("begin")
			e.stmts(c.B)
		}
		e.depth--
		e.line()
		e.t("end")
		e.raw(";")
		e.pop()
	}
	if !e.inSec {
		e.pend = nil
	}
}

func (e *em) classDecl(c *Chunk, n0 string) {
	rng := NewRng(c.V, 9)
	off := e.name(n0)
	e.raw(" = ")
	e.t("class")
	derived := len(c.R) > 0 && c.R[0].N != ""
	info := &ClassInfo{Mod: e.mi, Off: off}
	e.out.Classes[[2]int{e.mi, off}] = info
	vis := "default"
	member := func(n string) {
		info.Members = append(info.Members, Member{n, len(e.buf), vis == "private"})
		e.raw(n)
	}
	if derived {
		e.raw("(")
		r := &c.R[0]
		e.ref(r, true)
		if e.pass >= 2 {
			if r.Q != "" {
				info.Parent = e.qualLookup(r.Q, r.N)
			} else {
				info.Parent = e.lookup(r.N)
			}
			if info.Parent == nil || info.Parent.Emb != "" {
				info.Unclear = info.Parent != nil || e.later[strings.ToLower(r.N)] || strings.EqualFold(r.N, n0)
				info.Parent = nil
			} else if x := e.out.Classes[[2]int{info.Parent.Mod, info.Parent.Off}]; x == nil || x == info {
				info.Unclear = true
			}
		}
		if rng.P(20) {
			e.raw(", IUnknown")
		}
		e.raw(")")
		if (c.V>>5)%10 == 1 { // nothing of its own
			e.raw(";")
			e.declare(n0, off, "type")
			return
		}
	}
	next := 0
	typ := func() {
		next++
		if next == 6 {
			next++
		}
		e.r(c, next, true, "Char")
	}
	e.depth++
	e.line()
	if rng.P(80) || !derived {
		member("fa")
	} else {
		member("fq")
	}
	e.raw(": ")
	typ()
	e.raw(";")
	nf, ng, np := 0, 0, 0
	own := []string{info.Members[0].Name}
	// the name of a member of the class or, when all are known, of an ancestor
	pick := func() string {
		k, far, up := rng.N(1000), rng.P(50), rng.P(15)
		n := own[k%len(own)]
		if e.pass == lastPass && far {
			all := []string{}
			for x, d := info, 0; x != nil && d < 20; d++ {
				x, _ = e.out.parentOf(x)
				if x != nil {
					for _, m := range x.Members {
						if !m.Private && len(m.Name) == 2 {
							all = append(all, m.Name)
						}
					}
				}
			}
			if len(all) > 0 {
				n = all[k%len(all)]
				if _, _, known := e.out.member(info, n, true); !known {
					n = own[k%len(own)]
				}
			}
		}
		if up {
			n = strings.ToUpper(n)
		}
		return n
	}
	for n := rng.N(4); n > 0; n-- {
		vis = rng.Pick([]string{"private", "protected", "public", "published"})
		e.line()
		e.t(vis)
		for i := rng.N(3); i > 0; i-- {
			nf++
			f := "f" + itoa(nf)
			e.line()
			member(f)
			if rng.P(30) {
				e.raw(", ")
				member(f + "x")
			}
			e.raw(": ")
			typ()
			e.raw(";")
			own = append(own, f)
		}
		for i := rng.N(4); i > 0; i-- {
			ng++
			g := "g" + itoa(ng)
			e.line()
			switch rng.N(4) {
			case 0:
				e.t("constructor")
				e.raw(" ")
				member(g)
				if rng.P(60) {
					e.raw("(pa: ")
					e.push()
					typ()
					e.pop()
					e.raw(")")
				}
				e.raw(";")
			case 1:
				e.t("destructor")
				e.raw(" ")
				member(g)
				e.raw(";")
			case 2:
				e.t("function")
				e.raw(" ")
				member(g)
				if rng.P(40) {
					e.raw("(const pa, pb: ")
					e.push()
					typ()
					e.pop()
					e.raw("; pc: Char = 'c')")
				}
				e.raw(": ")
				typ()
				e.raw(";")
			default:
				e.t("procedure")
				e.raw(" ")
				member(g)
				if rng.P(40) {
					e.raw("(var pa: ")
					e.push()
					typ()
					e.pop()
					e.raw(")")
				}
				e.raw(";")
			}
			switch rng.N(6) {
			case 0:
				e.raw(" ")
				e.t("override")
				e.raw(";")
			case 1:
				e.raw(" ")
				e.t("virtual")
				e.raw("; ")
				e.t("abstract")
				e.raw(";")
			case 2:
				e.raw(" ")
				e.t(rng.Pick([]string{"overload", "reintroduce", "virtual"}))
				e.raw(";")
			}
			own = append(own, g)
		}
		if vis == "private" {
			continue
		}
		for i := rng.N(3); i > 0; i-- {
			e.line()
			e.t("property")
			e.raw(" ")
			pr := Prop{Off: len(e.buf), Has: map[string]bool{}, Uses: map[string]int{}, Names: map[string]string{}, Want: map[string][2]int{}}
			if derived && rng.P(60) && np < 3 { // pz1, pz2 and pz3 may override those of an ancestor
				np++
				pr.Name = "pz" + itoa(np)
				member(pr.Name)
				if rng.P(20) {
					e.raw(": ")
					typ()
					pr.Has["type"] = true
				}
			} else if np < 3 {
				np++
				pr.Name = "pz" + itoa(np)
				member(pr.Name)
				e.raw(": ")
				typ()
				pr.Has["type"] = true
			} else {
				np++
				pr.Name = "pw" + itoa(np)
				member(pr.Name)
				e.raw("[i: ")
				e.push()
				typ()
				e.pop()
				e.raw("]: Boolean")
				pr.Has["type"] = true
			}
			if rng.P(15) {
				e.raw(" ")
				e.t("index")
				e.raw(fmt.Sprint(" ", rng.In(1, 999)))
				pr.Has["index"] = true
			}
			accessor := func(kw string) {
				e.raw(" ")
				e.t(kw)
				e.raw(" ")
				pr.Has[kw], pr.Uses[kw] = true, len(e.buf)
				pr.Names[kw] = pick()
				e.raw(pr.Names[kw])
				if x, m, known := e.out.member(info, pr.Names[kw], true); known && m != nil {
					pr.Want[kw] = [2]int{x.Mod, m.Off}
				}
			}
			if rng.P(60) {
				accessor("read")
			}
			if rng.P(40) {
				accessor("write")
			}
			if rng.P(25) {
				if rng.P(40) {
					e.raw(" ")
					e.t("stored")
					e.raw(" " + rng.Pick([]string{"True", "False"}))
					pr.Has["stored"] = true
				} else {
					accessor("stored")
				}
			}
			if rng.P(25) {
				e.raw(" ")
				e.t("default")
				e.raw(" ")
				if rng.P(50) {
					e.r(c, 6, false, "1")
				} else {
					e.raw(fmt.Sprint(rng.In(1, 999)))
				}
				pr.Has["default"] = true
			}
			e.raw(";")
			info.Props = append(info.Props, pr)
		}
	}
	e.depth--
	e.line()
	e.t("end")
	e.raw(";")
	e.declare(n0, off, "type")
}

func itoa(n int) string { return string(rune('0' + n%10)) }

func (e *em) stmts(cs []*Chunk) {
	if len(cs) == 0 {
		e.line()
		e.raw("Writeln(0)")
		return
	}
	for i, c := range cs {
		if i > 0 {
			e.raw(";")
		}
		e.line()
		e.stmt(c)
	}
	if !e.plain && e.lay.P(50) {
		e.raw(";")
	}
}

func (e *em) one(cs []*Chunk, i int) {
	if i < len(cs) {
		e.stmt(cs[i])
	} else {
		e.raw("Writeln(1)")
	}
}

func (e *em) block(cs []*Chunk) {
	e.t("begin")
	e.depth++
	e.stmts(cs)
	e.depth--
	e.line()
	e.t("end")
}

func (e *em) stmt(c *Chunk) {
	switch c.K {
	case "assign":
		e.r(c, 0, false, "zz")
		e.raw(" := ")
		e.expr(c, 1)
	case "call":
		e.raw("Writeln(")
		for i := range c.R {
			if i > 0 {
				e.raw(", ")
			}
			e.ref(&c.R[i], false)
		}
		if len(c.R) == 0 {
			e.raw("'its ソ'")
		}
		e.raw(")")
	case "cast": // R0 := R1(R2)
		e.r(c, 0, false, "zz")
		e.raw(" := ")
		e.r(c, 1, false, "Integer")
		e.raw("(")
		e.r(c, 2, false, "5")
		e.raw(")")
	case "field":
		e.r(c, 0, false, "zz")
		e.raw(".fa[1]^ := ")
		e.expr(c, 1)
	case "if":
		e.t("if")
		e.sp()
		e.expr(c, 0)
		e.sp()
		e.t("then")
		e.sp()
		e.block(c.S)
		if len(c.B) > 0 {
			e.sp()
			e.t("else")
			e.sp()
			e.block(c.B)
		}
	case "while":
		e.t("while")
		e.sp()
		e.expr(c, 0)
		e.sp()
		e.t("do")
		e.sp()
		e.one(c.S, 0)
	case "repeat":
		e.t("repeat")
		e.depth++
		e.stmts(c.S)
		e.depth--
		e.line()
		e.t("until")
		e.sp()
		e.expr(c, 0)
	case "for":
		e.t("for")
		e.sp()
		e.r(c, 0, false, "i")
		e.raw(" := 1 ")
		e.t([]string{"to", "downto"}[c.V%2])
		e.sp()
		e.expr(c, 1)
		e.sp()
		e.t("do")
		e.sp()
		e.one(c.S, 0)
	case "case":
		e.t("case")
		e.sp()
		e.r(c, 0, false, "i")
		e.sp()
		e.t("of")
		e.depth++
		for i, s := range c.S {
			e.line()
			if 1+i < len(c.R) {
				e.ref(&c.R[1+i], false)
			} else {
				e.raw([]string{"1", "2, 3", "4..6", "'a'"}[i%4])
			}
			e.raw(": ")
			e.stmt(s)
			e.raw(";")
		}
		if len(c.S) == 0 {
			e.raw(" 1: Writeln(2);")
		}
		if len(c.B) > 0 {
			e.line()
			e.t("else")
			e.stmts(c.B)
		}
		e.depth--
		e.line()
		e.t("end")
	case "with":
		e.t("with")
		e.sp()
		if len(c.R) == 0 {
			e.raw("zz")
		}
		for i := range c.R {
			if i > 0 {
				e.raw(", ")
			}
			e.ref(&c.R[i], false)
		}
		e.sp()
		e.t("do")
		e.sp()
		e.one(c.S, 0)
	case "tryfin":
		e.t("try")
		e.stmts(c.S)
		e.line()
		e.t("finally")
		e.stmts(c.B)
		e.line()
		e.t("end")
	case "tryexc":
		e.t("try")
		e.stmts(c.S)
		e.line()
		e.t("except")
		for i, n := range c.N {
			e.line()
			e.t("on")
			e.sp()
			off := e.name(n)
			e.raw(": ")
			e.r(c, i, true, "Exception")
			e.pend = nil
			e.push()
			e.declare(n, off, "exc")
			e.sp()
			e.t("do")
			e.raw(" Writeln(")
			e.ref(&RefS{N: n}, false)
			if k := len(c.N) + i; k < len(c.R) {
				e.raw(", ")
				e.ref(&c.R[k], false)
			}
			e.raw(");")
			e.pop()
		}
		if len(c.N) > 0 {
			if len(c.B) > 0 {
				e.line()
				e.t("else")
				e.stmts(c.B)
			}
		} else {
			e.stmts(c.B)
		}
		e.line()
		e.t("end")
	case "raise":
		if c.V%5 == 2 { // again what is being handled
			e.t("begin raise")
			e.raw(";")
			e.line()
			e.t("end")
			return
		}
		e.t("raise")
		e.sp()
		e.expr(c, 0)
		if c.V%5 == 1 {
			e.raw(" ")
			e.t("at")
			e.raw(" @zz")
		}
	case "asm":
		e.t("asm")
		e.raw(" mov eax, 1 ")
		e.t("end")
	case "begin":
		e.block(c.S)
	case "set":
		e.r(c, 0, false, "zz")
		e.raw(" := [1, ")
		e.r(c, 1, false, "2")
		e.raw("..")
		e.r(c, 2, false, "3")
		e.raw("]")
	case "inherited":
		e.t("inherited")
	case "goto":
		e.t("goto")
		e.raw(" " + c.N[0])
	case "label":
		e.raw(c.N[0] + ": ")
		e.r(c, 0, false, "zz")
		e.raw(" := 1")
	default:
		e.raw("Writeln(3)")
	}
}

// sjis encodes the characters the generator uses.
func sjis(rs []rune) []byte {
	b := make([]byte, 0, len(rs)+16)
	for _, r := range rs {
		switch {
		case r < 0x80:
			b = append(b, byte(r))
		case r >= 0xff61 && r <= 0xff9f:
			b = append(b, byte(r-0xff61+0xa1))
		case r >= 0x3041 && r <= 0x3093:
			b = append(b, 0x82, byte(0x9f+r-0x3041))
		case r >= 0x30a1 && r <= 0x30df:
			b = append(b, 0x83, byte(0x40+r-0x30a1))
		case r >= 0x30e0 && r <= 0x30f6:
			b = append(b, 0x83, byte(0x80+r-0x30e0))
		default:
			b = append(b, '?')
		}
	}
	return b
}
