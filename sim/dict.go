package main

import (
	"fmt"
	"go/ast"
	"go/constant"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"sort"
	"strings"
)

// Numbers and words which occur in the code under test steer the generator towards the limits
// the code knows: a project may get exactly, or one more or less than, so many declarations,
// units, characters and so on. They never take part in a verdict.
var lits struct {
	ints  []int
	words []string
}

// ladder: limits programmers like.
var ladder = []int{7, 8, 9, 10, 12, 15, 16, 17, 20, 24, 25, 31, 32, 33, 48, 50, 63, 64, 65, 80, 99, 100, 101, 120, 127, 128, 129, 200, 250, 254, 255, 256, 257, 260, 300, 400, 500, 511, 512, 513, 999, 1000, 1001, 1023, 1024, 1025, 2000, 2047, 2048, 2049, 4095, 4096, 4097, 5000, 8191, 8192, 8193, 10000, 16384, 32767, 32768, 32769, 65534, 65535, 65536, 65537, 100000, 131072}

var reservedWords = map[string]bool{}

func init() {
	for _, w := range strings.Fields(`and array as asm begin case class const constructor destructor dispinterface div do downto
		else end except exports file finalization finally for function goto if implementation in inherited initialization inline
		interface is label library mod nil not object of or out packed procedure program property raise record repeat
		resourcestring set shl shr string then threadvar to try type unit until uses var while with xor
		absolute abstract assembler automated cdecl contains default deprecated dispid dynamic export external far forward
		implements index message name near nodefault overload override package pascal platform private protected public
		published read readonly register reintroduce requires resident safecall stdcall stored varargs virtual write writeonly
		local at on true false writeln self result`) {
		reservedWords[w] = true
	}
}

func harvest(repo string) {
	ints, words := map[int]bool{}, map[string]bool{}
	var eval func(e ast.Expr) constant.Value
	eval = func(e ast.Expr) constant.Value {
		switch v := e.(type) {
		case *ast.BasicLit:
			if v.Kind == token.INT {
				return constant.MakeFromLiteral(v.Value, v.Kind, 0)
			}
		case *ast.ParenExpr:
			return eval(v.X)
		case *ast.BinaryExpr:
			a, b := eval(v.X), eval(v.Y)
			if a == nil || b == nil {
				return nil
			}
			switch v.Op {
			case token.SHL:
				if n, ok := constant.Uint64Val(b); ok && n < 40 {
					return constant.Shift(a, token.SHL, uint(n))
				}
			case token.MUL, token.ADD, token.SUB:
				return constant.BinaryOp(a, v.Op, b)
			}
		}
		return nil
	}
	filepath.Walk(repo, func(p string, fi os.FileInfo, err error) error {
		if err != nil {
			return nil
		}
		if fi.IsDir() {
			if n := fi.Name(); p != repo && (strings.HasPrefix(n, ".") || n == "testdata" || n == "vendor") {
				return filepath.SkipDir
			}
			return nil
		}
		if !strings.HasSuffix(p, ".go") || strings.HasSuffix(p, "_test.go") {
			return nil
		}
		f, err := parser.ParseFile(token.NewFileSet(), p, nil, 0)
		if err != nil {
			return nil
		}
		ast.Inspect(f, func(n ast.Node) bool {
			if _, ok := n.(*ast.ImportSpec); ok {
				return false
			}
			if e, ok := n.(ast.Expr); ok {
				if v := eval(e); v != nil {
					if k, ok := constant.Int64Val(v); ok && k >= 3 && k <= 1<<20 {
						ints[int(k)] = true
					}
				}
			}
			if l, ok := n.(*ast.BasicLit); ok && l.Kind == token.STRING && len(l.Value) < 40 {
				w := strings.Trim(l.Value, "\"`")
				if plainWord(w) {
					words[w] = true
				}
			}
			return true
		})
		return nil
	})
	for k := range ints {
		lits.ints = append(lits.ints, k)
	}
	sort.Ints(lits.ints)
	for w := range words {
		lits.words = append(lits.words, w)
	}
	sort.Strings(lits.words)
}

func plainWord(w string) bool {
	if len(w) < 2 || reservedWords[strings.ToLower(w)] || embedded[strings.ToLower(w)] {
		return false
	}
	for i, c := range w {
		if !(c == '_' || c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || i > 0 && c >= '0' && c <= '9') {
			return false
		}
	}
	return true
}

// Size is a number at most max, near one the code or its writers could have in mind.
func (r *Rng) Size(max int) int {
	from := ladder
	if r.P(50) && len(lits.ints) > 0 {
		from = lits.ints
	}
	for i := 0; i < 12; i++ {
		n := from[r.N(len(from))]
		switch r.N(8) {
		case 0:
			n--
		case 1, 2:
			n++
		case 3:
			n += r.N(n + 1)
		}
		if n >= 2 && n <= max {
			return n
		}
	}
	return r.In(2, max)
}

// blow gives one dimension of the project an unusual extent.
func (g *gen) blow() {
	r, p := g.r, g.p
	m := p.Mods[r.N(len(p.Mods))]
	// section returns the declarations to add to.
	add := func(cs ...*Chunk) {
		l := &m.Impl
		if !m.Prog && r.P(60) {
			l = &m.Intf
		}
		if r.P(50) {
			*l = append(append([]*Chunk{}, cs...), *l...)
		} else {
			*l = append(*l, cs...)
		}
	}
	names := func(pre string, n int) []string {
		ns := []string{}
		for i := 0; i < n; i++ {
			ns = append(ns, fmt.Sprint(pre, i))
		}
		return ns
	}
	switch r.N(17) {
	case 0: // a long name
		if r.P(40) {
			g.rename(r, longName(r, r.Size(600)))
			break
		}
		// names that differ only at their end or beginning
		long := longName(r, r.Size(300))
		end := r.P(70)
		if r.P(50) && g.pair(long, end) {
			break
		}
		to := func(s string) string {
			if end {
				return long + s
			}
			return s + long
		}
		if r.P(50) || len(p.Mods) < 3 {
			for _, old := range [][]string{poolV, poolT, poolC, poolP}[r.N(4)] {
				g.renameDecl(old, to(old))
			}
		} else {
			for i := 1; i < len(p.Mods); i++ {
				renameUnit(p, i, to(p.Mods[i].Name))
			}
		}
	case 1: // many declarations
		n := r.Size(1100)
		k := r.Pick([]string{"const", "var", "alias", "heading", "enum", "ptr", "mixed", "mixed"})
		cs := []*Chunk{}
		for i := 0; i < n; i++ {
			kk := k
			if k == "mixed" {
				kk = []string{"const", "var", "alias", "enum", "ptr"}[i%5]
			}
			if kk == "heading" && m.Prog {
				kk = "proc"
			}
			c := &Chunk{K: kk, N: []string{fmt.Sprint("qd", i)}}
			if kk == "enum" {
				c.N = append(c.N, fmt.Sprint("qe", i))
			}
			cs = append(cs, c)
		}
		if k == "heading" && !m.Prog {
			m.Intf = append(m.Intf, cs...)
			break
		}
		add(cs...)
	case 2: // many statements
		n := r.Size(1100)
		for i := 0; i < n; i++ {
			c := &Chunk{K: "assign", V: uint64(i)}
			if i%7 == 0 {
				c.R = g.vrefs(2, "")
				for k := range c.R {
					c.R[k].Q = ""
				}
			}
			m.Init = append(m.Init, c)
		}
	case 3:
		add(&Chunk{K: "enum", N: append([]string{"TqEnum"}, names("qe", r.Size(1100))...)})
	case 4:
		add(&Chunk{K: "var", N: names("qv", r.Size(1100))})
	case 5: // many parameters
		c := &Chunk{K: "proc", N: append([]string{"qproc"}, names("qp", r.Size(300))...)}
		m.Impl = append(m.Impl, c)
		if len(c.N) > 1 {
			c.B = []*Chunk{{K: "assign", R: []RefS{{N: c.N[len(c.N)-1]}, {N: c.N[1]}}}}
		}
	case 6:
		for i := r.Size(600); i > 0; i-- {
			m.Exports = append(m.Exports, fmt.Sprint("qx", i))
		}
	case 7: // many units which are not part of the project
		for i := r.Size(300); i > 0; i-- {
			u := UseS{Name: fmt.Sprint("Fq", i)}
			if m.Prog || r.P(50) {
				m.Uses = append(m.Uses, u)
			} else {
				m.ImplUses = append(m.ImplUses, u)
			}
		}
	case 8: // many small units
		n := r.Size(120)
		for i := 0; i < n; i++ {
			u := &Module{Name: fmt.Sprint("Uq", i), Path: fmt.Sprint("Uq", i, ".pas")}
			p.Mods = append(p.Mods, u)
			p.Mods[0].Uses = insUse(r, p.Mods[0].Uses, UseS{Name: u.Name, Path: u.Path})
			if i > 0 && r.P(40) {
				u.Uses = append(u.Uses, UseS{Name: fmt.Sprint("Uq", r.N(i))})
			}
			if r.P(40) {
				u.Intf = []*Chunk{{K: "const", N: []string{r.Pick(poolV)}}}
			}
		}
	case 9: // far down or far to the right
		if r.P(50) {
			m.Head = strings.Repeat("\n", r.Size(70000))
		} else {
			m.Head = strings.Repeat(" ", r.Size(70000))
		}
	case 10: // a long comment
		n := r.Size(140000)
		k := r.Pick([]string{"{%s}\n", "(*%s*)\n", "//%s\n"})
		if r.P(40) {
			m.Head = fmt.Sprintf(k, strings.Repeat("ソ", n/2))
		} else {
			m.Head = fmt.Sprintf(k, strings.Repeat("x", n))
		}
	case 11: // a file of exactly so many bytes
		n := r.Size(140000)
		p.Repair()
		rd := p.Render()
		for i := range p.Mods {
			if p.Mods[i] == m {
				if k := n - len(rd.Bytes[i]); k >= 4 {
					m.Head += straddle(r, k)
				}
			}
		}
	case 12: // a long literal
		n := r.Size(8000)
		c := &Chunk{K: "lit", N: []string{"qlit"}, V: uint64(n)}
		add(c)
	case 13: // blocks in each other
		c := &Chunk{K: "assign"}
		for i := r.Size(260); i > 0; i-- {
			c = &Chunk{K: r.Pick([]string{"begin", "if", "while", "with", "tryfin", "repeat"}), S: []*Chunk{c}}
		}
		m.Init = append(m.Init, c)
	case 14: // types defined by each other, classes derived from each other
		n := r.Size(160)
		k := r.Pick([]string{"alias", "ptr", "array", "class"})
		cs := []*Chunk{}
		for i := 0; i < n; i++ {
			c := &Chunk{K: k, N: []string{fmt.Sprint("TqC", i)}, V: r.U64() % 4096}
			if i > 0 {
				c.R = []RefS{{N: fmt.Sprint("TqC", i-1)}}
			} else if k != "class" {
				c.R = []RefS{{N: "Char"}}
			}
			cs = append(cs, c)
		}
		add(cs...)
	case 15: // a long expression
		c := &Chunk{K: "assign", V: r.U64() % 4096, R: g.vrefs(r.Size(500), "")}
		for k := range c.R {
			c.R[k].Q = ""
		}
		m.Init = append(m.Init, c)
	case 16: // a name the code knows
		if len(lits.words) > 0 {
			g.rename(r, r.Pick(lits.words))
		}
	}
}

func longName(r *Rng, n int) string {
	s := strings.Repeat("LongName", n/8+1)[:n]
	if r.P(30) && n > 2 {
		s = s[:n-1] + "9"
	}
	return s
}

// rename gives all declarations of one name, or a unit, another name.
func (g *gen) rename(r *Rng, name string) {
	p := g.p
	for _, m := range p.Mods {
		if strings.EqualFold(m.Name, name) {
			return
		}
	}
	if r.P(30) && len(p.Mods) > 1 {
		renameUnit(p, r.In(1, len(p.Mods)-1), name)
		return
	}
	g.renameDecl(r.Pick([][]string{poolV, poolT, poolC, poolP}[r.N(4)]), name)
}

func (g *gen) renameDecl(old, name string) {
	p := g.p
	for _, m := range p.Mods {
		eachChunk(m, func(c *Chunk) {
			for i := range c.N {
				if strings.EqualFold(c.N[i], old) {
					c.N[i] = name
				}
			}
		})
		eachRef(m, func(x *RefS) {
			if strings.EqualFold(x.N, old) {
				x.N = name
			}
		})
		for i := range m.Exports {
			if strings.EqualFold(m.Exports[i], old) {
				m.Exports[i] = name
			}
		}
	}
}

// pair gives two names, which no module has both of, a common beginning or end.
func (g *gen) pair(long string, end bool) bool {
	r, p := g.r, g.p
	pool := append(append([]string{}, poolV...), poolC...)
	if r.P(30) {
		pool = poolT
	}
	for k := 0; k < 40; k++ {
		a, b := r.Pick(pool), r.Pick(pool)
		if a == b {
			continue
		}
		both, one := false, 0
		for _, m := range p.Mods {
			da, db := false, false
			eachChunk(m, func(c *Chunk) {
				for _, n := range c.N {
					da, db = da || strings.EqualFold(n, a), db || strings.EqualFold(n, b)
				}
			})
			both = both || da && db
			if da || db {
				one++
			}
		}
		if !both && one > 1 {
			if end {
				g.renameDecl(a, long+"a")
				g.renameDecl(b, long+"b")
			} else {
				g.renameDecl(a, "a"+long)
				g.renameDecl(b, "b"+long)
			}
			return true
		}
	}
	return false
}
