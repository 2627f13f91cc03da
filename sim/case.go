package main

import (
	"crypto/sha1"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"path"
	"strconv"
	"strings"

	"vdst/scen"
)

// Case is one simulated situation, complete: replaying it needs nothing else.
type Case struct {
	Prop  string
	Kind  string
	Projs []*Proj
	Alts  []*Proj          `json:",omitempty"` // further versions of the files of Projs[0]
	Raw   []RawFile        `json:",omitempty"` // files outside the projects
	Gone  []string         `json:",omitempty"` // paths which do not exist
	Dirs  []string         `json:",omitempty"` // paths which are directories
	Dmg   []Dmg            `json:",omitempty"`
	Batch [][]Dmg          `json:",omitempty"` // alternatives to Dmg, tried one after another
	Plans map[string]*Plan `json:",omitempty"` // by path
	Repl  []ReplS          `json:",omitempty"`
	Fd    int32            `json:",omitempty"`
	Std   []int32          `json:",omitempty"`
	StdR  int32            `json:",omitempty"`
	Log   string           `json:",omitempty"`
	Boots []uint64         `json:",omitempty"`
	Rands []uint64         `json:",omitempty"`
	Sched Sched
	Setup []scen.Op   `json:",omitempty"`
	Tasks []scen.Task `json:",omitempty"`
	Final []scen.Op   `json:",omitempty"`
	Race  bool        `json:",omitempty"`
	A     int64       `json:",omitempty"`
	B     int64       `json:",omitempty"`
	P     string      `json:",omitempty"`
}

type RawFile struct {
	Path string
	Data []byte
}

// Dmg damages the content of a file. Offsets are taken modulo the size.
type Dmg struct {
	Path string
	K    string // cut zero digit flip over del dup swap from text lose pre post utf ...
	A, B int    `json:",omitempty"`
	N    int    `json:",omitempty"`
	S    string `json:",omitempty"`
	Ver  int    `json:",omitempty"`
}

type Plan struct {
	Reads      []int32 `json:",omitempty"`
	Rest       int32   `json:",omitempty"`
	StatSize   int64   `json:",omitempty"`
	FstatErr   int32   `json:",omitempty"`
	CloseErr   int32   `json:",omitempty"`
	Latency    int64   `json:",omitempty"`
	Opens      []int32 `json:",omitempty"`
	StallAt    int32   `json:",omitempty"`
	StallN     int32   `json:",omitempty"`
	StallReads bool    `json:",omitempty"` // reads only
}

// stallNs is how long a stalled open or read takes: far longer than anything else.
const stallNs = 1e15

type ReplS struct {
	Step uint64 `json:",omitempty"`
	Op   uint64 `json:",omitempty"`
	Path string
	Ver  int
}

type Sched struct {
	Pre       []scen.Pre `json:",omitempty"`
	Every     uint32     `json:",omitempty"`
	Seed      uint64     `json:",omitempty"`
	Picks     []uint32   `json:",omitempty"`
	BlockRand bool       `json:",omitempty"`
}

// VFile is one file of the simulated file system.
type VFile struct {
	Path string
	Vers [][]byte
	Mod  int // index in its project, -1 none
	Proj int
	R    *Rendered
	Dir  bool
	Gone bool
	Hurt bool
}

type FS struct {
	Files []*VFile
	Names []string
	R     []*Rendered
}

func (fs *FS) get(p string) *VFile {
	for _, f := range fs.Files {
		if f.Path == p {
			return f
		}
	}
	return nil
}

func (fs *FS) index(p string) int {
	for i, f := range fs.Files {
		if f.Path == p {
			return i
		}
	}
	return -1
}

// FS renders the file system of the case.
func (c *Case) FS() *FS {
	fs := &FS{}
	names := map[string]bool{}
	addNames := func(r *Rendered) {
		for _, n := range r.Names {
			names[n] = true
		}
	}
	for k, p := range c.Projs {
		r := p.Render()
		fs.R = append(fs.R, r)
		addNames(r)
		for i, m := range p.Mods {
			if fs.get(m.Path) == nil {
				fs.Files = append(fs.Files, &VFile{Path: m.Path, Vers: [][]byte{r.Bytes[i]}, Mod: i, Proj: k, R: r})
			}
		}
	}
	for v, p := range c.Alts {
		r := p.Render()
		addNames(r)
		for i, m := range p.Mods {
			f := fs.get(m.Path)
			if f == nil {
				f = &VFile{Path: m.Path, Mod: -1}
				fs.Files = append(fs.Files, f)
			}
			for len(f.Vers) < v+1 {
				f.Vers = append(f.Vers, []byte{})
			}
			f.Vers = append(f.Vers, r.Bytes[i])
		}
	}
	for _, rf := range c.Raw {
		if f := fs.get(rf.Path); f != nil {
			f.Vers[0] = rf.Data
			f.Mod = -1
		} else {
			fs.Files = append(fs.Files, &VFile{Path: rf.Path, Vers: [][]byte{rf.Data}, Mod: -1})
		}
	}
	for _, d := range c.Dmg {
		f := fs.get(d.Path)
		if f == nil || d.Ver >= len(f.Vers) {
			continue
		}
		f.Vers[d.Ver] = d.apply(f.Vers[d.Ver], fs)
		f.Hurt = true
	}
	for _, g := range c.Gone {
		if f := fs.get(g); f != nil {
			f.Gone = true
		} else {
			fs.Files = append(fs.Files, &VFile{Path: g, Gone: true, Mod: -1})
		}
	}
	for _, g := range c.Dirs {
		if f := fs.get(g); f != nil {
			f.Dir = true
		}
	}
	for n := range names {
		fs.Names = append(fs.Names, n)
	}
	for _, n := range []string{"fa", "fb", "pz", "pw", "ga", "create"} {
		if !names[n] {
			fs.Names = append(fs.Names, n)
		}
	}
	sortStrings(fs.Names)
	return fs
}

func (d Dmg) apply(b []byte, fs *FS) []byte {
	n := len(b)
	out := append([]byte(nil), b...)
	mod := func(x int) int {
		if n == 0 {
			return 0
		}
		x %= n
		if x < 0 {
			x += n
		}
		return x
	}
	ln := func(a, l int) int {
		if a+l > n {
			return n - a
		}
		return l
	}
	a := mod(d.A)
	switch d.K {
	case "cut":
		if d.A < n {
			return out[:d.A]
		}
	case "zero":
		for i := d.A; i < n; i++ {
			out[i] = 0
		}
	case "zeros":
		for i := a; i < a+ln(a, d.N); i++ {
			out[i] = 0
		}
	case "flip":
		if n > 0 {
			out[a] ^= 1 << uint(d.B&7)
		}
	case "over":
		r := NewRng(uint64(d.B), 3)
		for i := a; i < a+ln(a, d.N); i++ {
			out[i] = byte(r.U64())
		}
	case "del":
		return append(out[:a], out[a+ln(a, d.N):]...)
	case "dup":
		l := ln(a, d.N)
		x := append([]byte(nil), out[:a+l]...)
		return append(x, b[a:]...)
	case "swap":
		q := mod(d.B)
		l := d.N
		if a > q {
			a, q = q, a
		}
		if l > q-a {
			l = q - a
		}
		l = ln(q, l)
		for i := 0; i < l; i++ {
			out[a+i], out[q+i] = b[q+i], b[a+i]
		}
	case "from": // the content of another file from offset A on
		if d.N < len(fs.Files) && len(fs.Files[d.N].Vers) > 0 {
			src := fs.Files[d.N].Vers[0]
			x := append([]byte(nil), out[:a]...)
			if d.B < len(src) {
				x = append(x, src[d.B:]...)
			}
			return x
		}
	case "stale": // left-over bytes behind the end
		return append(out, stale(fs, b, d)...)
	case "text": // replace N bytes by S
		l := ln(a, d.N)
		x := append([]byte(nil), out[:a]...)
		x = append(x, sjis([]rune(d.S))...)
		return append(x, b[a+l:]...)
	case "tok": // replace the A-th token by S (delete when empty); B = how many tokens
		toks := tokens(b)
		if len(toks) == 0 {
			return out
		}
		i := d.A % len(toks)
		j := i + d.B
		if j > len(toks) {
			j = len(toks)
		}
		end := toks[i][0]
		if j > i {
			end = toks[j-1][1]
		}
		x := append([]byte(nil), b[:toks[i][0]]...)
		x = append(x, sjis([]rune(d.S))...)
		x = append(x, ' ')
		return append(x, b[end:]...)
	case "pre": // bytes which editors and transfers put before a text
		x := append([]byte(nil), edgeBytes[d.B%len(edgeBytes)]...)
		return append(x, b...)
	case "post": // or after it
		return append(out, edgeBytes[d.B%len(edgeBytes)]...)
	case "utf": // another encoding
		return reencode(b, d.B)
	case "tokdup": // copy B tokens from the A-th on to before the N-th
		toks := tokens(b)
		if len(toks) == 0 {
			return out
		}
		i, q := d.A%len(toks), d.N%len(toks)
		j := i + d.B
		if j > len(toks) {
			j = len(toks)
		}
		if j <= i {
			return out
		}
		x := append([]byte(nil), b[:toks[q][0]]...)
		x = append(x, b[toks[i][0]:toks[j-1][1]]...)
		x = append(x, ' ')
		return append(x, b[toks[q][0]:]...)
	case "id": // the B-th name in place of the A-th, or of all occurrences of it
		ids := idents(b)
		if len(ids) == 0 {
			return out
		}
		from, to := ids[d.A%len(ids)], ids[d.B%len(ids)]
		x, last := []byte{}, 0
		for _, t := range ids {
			if t == from || d.N == 1 && strings.EqualFold(string(b[t[0]:t[1]]), string(b[from[0]:from[1]])) {
				x = append(x, b[last:t[0]]...)
				x = append(x, b[to[0]:to[1]]...)
				last = t[1]
			}
		}
		return append(x, b[last:]...)
	case "decl": // S before the A-th section
		at := []int{}
		for _, t := range tokens(b) {
			if sectionWord[strings.ToLower(string(b[t[0]:t[1]]))] {
				at = append(at, t[0])
			}
		}
		if len(at) == 0 {
			return out
		}
		i := at[d.A%len(at)]
		x := append([]byte(nil), b[:i]...)
		x = append(x, sjis([]rune(d.S))...)
		x = append(x, ' ')
		return append(x, b[i:]...)
	case "stmt": // S before the A-th word that starts a statement or ends a list of them
		at := []int{}
		for _, t := range tokens(b) {
			if stmtWord[strings.ToLower(string(b[t[0]:t[1]]))] {
				at = append(at, t[0])
			}
		}
		if len(at) == 0 {
			return out
		}
		i := at[d.A%len(at)]
		x := append([]byte(nil), b[:i]...)
		x = append(x, sjis([]rune(d.S))...)
		x = append(x, ' ')
		return append(x, b[i:]...)
	case "digit": // another digit in place of the A-th: same size, other content
		at := []int{}
		for i, x := range b {
			if x >= '0' && x <= '9' {
				at = append(at, i)
			}
		}
		if len(at) > 0 {
			i := at[d.A%len(at)]
			out[i] = '0' + (out[i]-'0'+1+byte(d.B%9))%10
		}
	case "all":
		return sjis([]rune(d.S))
	}
	return out
}

var sectionWord, stmtWord, reserved = map[string]bool{}, map[string]bool{}, map[string]bool{}

// oddStmts are statements and pieces of them which programs rarely contain.
var oddStmts = []string{
	"with Val1, Val2.x, Main do with Val1 do Val1 := Val2;", "case Val1 of 1: Writeln; 2..3, 5: begin Val1 := 1; end; else Writeln; end;",
	"case Val1 of end;", "case of 1: end;", "goto lab; lab: Val1 := 1;", "try raise except end;", "try Val1 := 1; except on E: TNode do raise E; on TNode do raise; else raise E at E; end;",
	"try Val1 := 1; finally end;", "try except on e: e do; end;", "for Val1 := 1 to 2 do for Val1 := Val1 downto Val1 do;", "for 1 := 1 to do;",
	"repeat until True;", "while do;", "if then else;", "if Val1 then if Val2 then Val1 := 1 else Val2 := 1 else Val1 := 2;", "inherited;", "inherited Create(1);", "inherited := 1;",
	"Val1[1][2,3]^.a(b, c).d[e] := @f^.g;", "Val1 := (((Val1)));", "Val1 := [];", "Val1 := [1..2, Val1..Val2, 'a'..'z', []];", "Val1 := [Val1..];", "Val1 := not not - + not Val1;", "Val1 := @@Val1;",
	"Val1 := nil^;", "Val1^ ^ := 1;", "TNode(Val1).x := TNode(Val1)(1);", "TAlpha(1) := 1;", "String(Val1)[1] := 'a';", "Integer := Integer(Integer);", "Main.Val1 := U1.Val1.U1.Val1;", "U1 := U1;", "U1.U1.U1;", "Main.Main := 1;", "Val1.Val1.Val1;",
	"Val1(Val1(Val1(, )));", "Writeln(1:2:3);", "raise TNode.Create(1) at 1;", "asm end;", "asm mov eax, 1 end end;", "asm asm end;", "begin begin end end;", ";;;", "label lab; 1: 2: 3: Val1 := 1;",
	"Val1 := 1.5e-3 + $FF - #13 + 'a''b' + 'a'#13'b' + ^M;", "Val1 := Val1 is TNode as TNode in Val1 = Val1 <> Val1 < Val1;", "Val1 := function: Integer;", "procedure;", "Val1 := string;", "Val1 := class;", "Val1 := array;", "Val1 := type;",
	"with U1 do Val1 := 1;", "with Main do Main.Val1 := 1;", "with TNode do Create;", "on E: TNode do Val1 := 1;", "else", "until Val1;", "finally", "except", "end;", "begin", "of", "exports Calc, Run index 1 name 'x';", "uses U1, U1 in 'U1.pas';", "x: y: z:", "lab:",
}

func init() {
	for _, w := range strings.Fields("begin end if while repeat until for case with try finally except raise goto then else do of on") {
		stmtWord[w] = true
	}
	for _, w := range strings.Fields("const var type procedure function implementation begin threadvar") {
		sectionWord[w] = true
	}
	for _, w := range strings.Fields("and array as asm begin case class const constructor destructor dispinterface div do downto else end except exports file finalization finally for function goto if implementation in inherited initialization inline interface is label library mod nil not object of or out packed procedure program property raise record repeat resourcestring set shl shr string then threadvar to try type unit until uses var while with xor private protected public published read write stored default index") {
		reserved[w] = true
	}
}

// idents lists the tokens that look like names.
func idents(b []byte) [][2]int {
	r := [][2]int{}
	for _, t := range tokens(b) {
		c := b[t[0]]
		if (c == '_' || c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z') && !reserved[strings.ToLower(string(b[t[0]:t[1]]))] {
			r = append(r, t)
		}
	}
	return r
}

// tangle writes declarations that refer to each other in circles.
func tangle(r *Rng) string {
	n := r.In(1, 4)
	name := func(i int) string { return fmt.Sprint("TQ", i%n) }
	any := func() string { return name(r.N(n)) }
	forms := []string{"%s", "%s", "%s", "^%s", "set of %s", "array[%s] of %s", "class(%s) end", "class(%s) public property pz1; end", "class(%s)", "class of %s", "record fa: %s; end", "%s..%s", "file of %s", "function(pa: %s): %s", "type %s", "array of %s", "string[%s]", "(%s, %s)"}
	var b strings.Builder
	b.WriteString("type ")
	ring := r.P(60)
	form := r.Pick(forms)
	one := r.P(50)
	for i := 0; i < n; i++ {
		f := form
		if !one {
			f = r.Pick(forms)
		}
		if ring {
			f = strings.ReplaceAll(f, "%s", name(i+1))
		}
		for strings.Contains(f, "%s") {
			f = strings.Replace(f, "%s", any(), 1)
		}
		if r.P(15) {
			b.WriteString(name(i) + " = class; ")
		}
		b.WriteString(name(i) + " = " + f + "; ")
		if r.P(20) {
			b.WriteString("type ")
		}
	}
	for k := r.In(0, 4); k > 0; k-- {
		t := any()
		b.WriteString(r.Pick([]string{
			"type TR" + fmt.Sprint(k) + " = set of " + t + "; ",
			"type TR" + fmt.Sprint(k) + " = array[" + t + "] of " + any() + "; ",
			"type TR" + fmt.Sprint(k) + " = " + t + ".." + any() + "; ",
			"type TR" + fmt.Sprint(k) + " = class(" + t + ") public property pz1: " + any() + " read fa write pz1; end; ",
			"type TR" + fmt.Sprint(k) + " = class(" + t + ") public property pz1; end; ",
			"var vr" + fmt.Sprint(k) + ": " + t + "; ",
			"var vr" + fmt.Sprint(k) + ": set of " + t + "; ",
			"const cr" + fmt.Sprint(k) + ": " + t + " = 1; ",
			"const cr" + fmt.Sprint(k) + " = " + t + "(1); ",
			"const cr" + fmt.Sprint(k) + " = cr" + fmt.Sprint(k+1) + "; ",
			"type TR" + fmt.Sprint(k) + " = class fa: " + t + "; property pz1: " + t + " read pz1 write pz1 stored pz1 default pz1; property pz1; end; ",
			"type TR" + fmt.Sprint(k) + " = class public property pz1[pa, pb: " + t + "]: " + any() + " index 1 read fa; default; end; ",
			"type TR" + fmt.Sprint(k) + " = record case fa: " + t + " of 1: (fb: " + any() + "); 2, 3..4: (); end; ",
			"type TR" + fmt.Sprint(k) + " = packed array[1.." + t + ", " + any() + "] of packed set of " + t + "; ",
			"type " + t + " = class; " + t + " = class(" + t + ") end; ",
			"type " + t + " = class; ",
			"var " + t + ": " + t + "; ",
			"const " + t + " = " + t + "; ",
			"var Main, U1: U1; ",
			"type U1 = class(U1.U1) end; ",
			"type Main = U1.Main; ",
			"type Integer = Integer; ",
			"type TR" + fmt.Sprint(k) + " = (" + t + ", " + any() + "); ",
			"procedure " + t + "(" + t + ": " + t + "); ",
			"function " + t + ": " + t + "; external; ",
			"procedure pr" + fmt.Sprint(k) + "; external 'l.dll' " + r.Pick([]string{"index 1", "index 1.5", "index 1e5", "index 99999999999999999999", "index $F", "index 'f'", "index '7'", "index Val1", "name 1", "name 'f'", "name Val1", "index"}) + "; ",
			"threadvar vr" + fmt.Sprint(k) + ": " + t + "; ",
			"label " + t + ", 1, 2; ",
			"exports " + t + ", " + t + "; ",
			"procedure TQ0.Create(pa: " + t + "); begin inherited Create; end; ",
		}))
	}
	return b.String()
}

// tokens splits roughly into words, numbers, strings and symbols, skipping comments.
func tokens(b []byte) [][2]int {
	r := [][2]int{}
	b = append([]byte(nil), b...)
	for i := 0; i+1 < len(b); i++ { // the second byte of a character may look like a quote or bracket
		if c, d := b[i], b[i+1]; (c >= 0x81 && c < 0xa0 || c >= 0xe0 && c < 0xfd) && d >= 0x40 && d != 0x7f && d < 0xfd {
			x := byte(0xff)
			if c == 0x81 && d == 0x40 {
				x = ' '
			}
			b[i], b[i+1] = x, x
			i++
		}
	}
	i := 0
	word := func(c byte) bool {
		return c == '_' || c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= '0' && c <= '9'
	}
	for i < len(b) {
		c := b[i]
		s := i
		switch {
		case c == ' ' || c >= '\t' && c <= '\r':
			i++
			continue
		case c == '{':
			for i < len(b) && b[i] != '}' {
				i++
			}
			i++
			continue
		case c == '/' && i+1 < len(b) && b[i+1] == '/':
			for i < len(b) && b[i] != '\n' {
				i++
			}
			continue
		case c == '(' && i+1 < len(b) && b[i+1] == '*':
			for i+1 < len(b) && !(b[i] == '*' && b[i+1] == ')') {
				i++
			}
			i += 2
			continue
		case word(c):
			for i < len(b) && word(b[i]) {
				i++
			}
		case c == '\'':
			i++
			for i < len(b) && (b[i] != '\'' || b[i-1] == '\\' && i-1 > s) {
				i++
			}
			if i < len(b) {
				i++
			}
		default:
			i++
			if c == ':' && i < len(b) && b[i] == '=' {
				i++
			}
		}
		r = append(r, [2]int{s, i})
	}
	return r
}

// Scenario builds what the worker runs: ops, faults and schedule of the case.
func (c *Case) Scenario(fs *FS) *scen.Scenario {
	s := c.Clean(fs)
	for i, f := range fs.Files {
		p := c.Plans[f.Path]
		if p == nil {
			continue
		}
		s.Files[i].Opens = p.Opens
		if p.StallN > 0 {
			s.Files[i].StallAt, s.Files[i].StallN, s.Files[i].StallNs, s.Files[i].StallReads = p.StallAt, p.StallN, stallNs, p.StallReads
		}
		for k := range s.Files[i].Versions {
			v := &s.Files[i].Versions[k]
			v.Reads, v.Rest, v.StatSize, v.FstatErr, v.CloseErr, v.Latency = p.Reads, p.Rest, p.StatSize, p.FstatErr, p.CloseErr, p.Latency
		}
	}
	for _, r := range c.Repl {
		if i := fs.index(r.Path); i >= 0 && r.Ver < len(fs.Files[i].Vers) {
			s.Repl = append(s.Repl, scen.Repl{Step: r.Step, Op: r.Op, File: i, Ver: r.Ver})
		}
	}
	s.FdLimit, s.StdErr, s.StdErrRst, s.Logger = c.Fd, c.Std, c.StdR, c.Log
	s.Setup, s.Tasks, s.Final = fs.ops(c.Setup), nil, fs.ops(c.Final)
	for _, t := range c.Tasks {
		s.Tasks = append(s.Tasks, scen.Task{Ops: fs.ops(t.Ops)})
	}
	return s
}

// ops resolves the paths of replace operations.
func (fs *FS) ops(in []scen.Op) []scen.Op {
	out := []scen.Op{}
	for _, o := range in {
		if o.Kind == "replace" {
			i := fs.index(o.Path)
			if i < 0 || int(o.N) >= len(fs.Files[i].Vers) {
				o = scen.Op{Kind: "nop"}
			} else {
				o.Slot = i
			}
		}
		out = append(out, o)
	}
	return out
}

// Clean is the same file system without faults and with a single parse of the program.
func (c *Case) Clean(fs *FS) *scen.Scenario {
	s := &scen.Scenario{Names: fs.Names, Boot: 1, RandSeed: 1}
	if len(c.Boots) > 0 {
		s.Boot = c.Boots[0]
	}
	if len(c.Rands) > 0 {
		s.RandSeed = c.Rands[0]
	}
	s.Pre, s.Every, s.SchedSeed, s.Picks, s.BlockRand = c.Sched.Pre, c.Sched.Every, c.Sched.Seed, c.Sched.Picks, c.Sched.BlockRand
	for _, f := range fs.Files {
		sf := scen.File{Path: f.Path}
		if f.Dir {
			sf.Path = f.Path + "/inner.txt"
			sf.Versions = []scen.Version{{Data: []byte("x")}}
		} else if !f.Gone {
			for _, v := range f.Vers {
				sf.Versions = append(sf.Versions, scen.Version{Data: v})
			}
		}
		s.Files = append(s.Files, sf)
	}
	s.Tasks = one(c.Main(0))
	return s
}

func (c *Case) Main(k int) string { return c.Projs[k].Mods[0].Path }

func one(p string) []scen.Task {
	return []scen.Task{{Ops: []scen.Op{{Kind: "parse", Path: p}}}}
}

func absPath(p string) string {
	if strings.HasPrefix(p, "/") {
		return path.Clean(p)
	}
	return path.Join("/sim/work", p)
}

// mentions says whether the message contains the path as spelled, cleaned or absolute.
func mentions(msg, p string) bool {
	q := strconv.Quote(p)
	return strings.Contains(msg, p) || strings.Contains(msg, path.Clean(p)) || strings.Contains(msg, q[1:len(q)-1])
}

func caseHash(c *Case) string {
	b, _ := json.Marshal(c)
	h := sha1.Sum(b)
	return hex.EncodeToString(h[:8])
}

func clone(c *Case) *Case {
	b, err := json.Marshal(c)
	if err != nil {
		panic(infraError{err.Error()})
	}
	var d Case
	if err := json.Unmarshal(b, &d); err != nil {
		panic(infraError{err.Error()})
	}
	return &d
}

var edgeBytes = []string{"\xef\xbb\xbf", "\xef", "\xef\xbb", "\xff\xfe", "\xfe\xff", "\x1a", "\x1a\x1a", "\x00", "\x81", "\xe0", "\r", "\n", "\r\n", "\ufeff", "\xff", "\xa0", "\x1b$B"}

// reencode turns Shift-JIS into UTF-8, UTF-8 with a mark or UTF-16.
func reencode(b []byte, how int) []byte {
	var rs []rune
	for i := 0; i < len(b); i++ {
		c := b[i]
		switch {
		case c >= 0xa1 && c <= 0xdf:
			rs = append(rs, rune(c)-0xa1+0xff61)
		case c == 0x82 && i+1 < len(b):
			i++
			rs = append(rs, rune(b[i])-0x9f+0x3041)
		case c == 0x83 && i+1 < len(b):
			i++
			if b[i] < 0x80 {
				rs = append(rs, rune(b[i])-0x40+0x30a1)
			} else {
				rs = append(rs, rune(b[i])-0x80+0x30e0)
			}
		default:
			rs = append(rs, rune(c))
		}
	}
	switch how % 3 {
	case 0:
		return []byte(string(rs))
	case 1:
		return []byte("\ufeff" + string(rs))
	}
	x := []byte{0xff, 0xfe}
	for _, r := range rs {
		x = append(x, byte(r), byte(r>>8))
	}
	return x
}
