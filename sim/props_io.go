package main

import (
	"path"
	"regexp"
	"strconv"
	"strings"

	"vdst/scen"
)

// ---- C01

var c01 = PropDef{ID: "C01",
	Rule: "one project (valid, cyclic, or with one or more errors in several files) parsed once per process under 5 hash seeds, map orders and schedules; non-trivial when the runs drew random numbers for map iteration and the project has at least one unit or an error",
	Gen: func(r *Rng) *Case {
		var c *Case
		if r.P(75) {
			c = wrongProj(r)
		} else {
			c = &Case{Projs: []*Proj{anyProj(r)}}
		}
		seeds(r, c, 5)
		c.Sched = randSched(r)
		if r.P(20) {
			fs := c.FS()
			for _, f := range fs.Files {
				if r.P(30) && f.Path != c.Main(0) {
					c.Gone = append(c.Gone, f.Path)
				}
			}
		}
		return c
	},
	Judge: func(e *Env, c *Case) *Verdict {
		fs := c.FS()
		var first *scen.OpRes
		draws := uint64(0)
		for i := range c.Boots {
			s := c.Clean(fs)
			s.Boot, s.RandSeed, s.SchedSeed = c.Boots[i], c.Rands[i], c.Sched.Seed+uint64(i)
			if i > 0 {
				s.Ident = c.Boots[i] + 1
			}
			run := e.Exec(s, false)
			o, ok := lone(run)
			if !ok {
				return trivial
			}
			draws += run.R.RandN
			if first == nil {
				first = o
				continue
			}
			if key(o) != key(first) {
				kind := "tree"
				if o.Class == "err" || first.Class == "err" {
					kind = "error"
				}
				return bad(kind, "hash seed and map order %d/%d: %s; %d/%d: %s", c.Boots[0], c.Rands[0], show(first), c.Boots[i], c.Rands[i], show(o))
			}
		}
		if draws == 0 || first.Class == "ok" && len(c.Projs[0].Mods) < 2 {
			return trivial
		}
		return held
	}}

// ---- C02

func straddle(r *Rng, n int) string {
	// a comment of exactly n bytes with two-byte characters around every offset
	if n < 4 {
		return ""
	}
	var sb strings.Builder
	sb.WriteString("{")
	left := n - 3
	if r.P(50) && left > 0 {
		sb.WriteString("x")
		left--
	}
	for left >= 2 {
		sb.WriteRune(jp[r.N(20)])
		left -= 2
	}
	if left == 1 {
		sb.WriteString("y")
	}
	sb.WriteString("}\n")
	return sb.String()
}

func randReads(r *Rng, size int) *Plan {
	p := &Plan{}
	switch r.N(7) {
	case 0:
		p.Rest = 1
	case 1:
		p.Rest = int32(r.In(2, 9))
	case 2:
		for i := r.In(1, 40); i > 0; i-- {
			p.Reads = append(p.Reads, int32(r.In(1, 600)))
		}
	case 3:
		for i := r.In(1, 60); i > 0; i-- {
			if r.P(40) {
				p.Reads = append(p.Reads, -4)
			} else {
				p.Reads = append(p.Reads, int32(r.In(1, 200)))
			}
		}
	case 4:
		p.Rest = int32([]int{511, 512, 513, 4095, 4096, 4097, 1024}[r.N(7)])
	case 5: // one byte short of everything, then the rest
		if size > 1 {
			p.Reads = []int32{int32(size - 1)}
		}
		p.Rest = 1
	case 6:
		n := r.In(1, 12)
		if r.P(10) {
			n = r.Size(1100)
		}
		for i := n; i > 0; i-- {
			p.Reads = append(p.Reads, -4)
		}
		if r.P(50) {
			p.Rest = int32(r.In(1, 2000))
		}
	}
	if size > 6000 && p.Rest > 0 && p.Rest < 8 {
		p.Rest = int32(r.In(3, 50))
	}
	switch r.N(5) {
	case 0:
		p.StatSize = 1
	case 1:
		p.StatSize = 1 + int64(r.N(size+1))
	case 2:
		p.StatSize = 1 + int64(size+r.N(100000))
	}
	if r.P(20) {
		p.Latency = int64(r.In(1, 3600)) * 1e9
	}
	return p
}

var c02 = PropDef{ID: "C02",
	Rule: "one project (valid or damaged, sizes from 0 to several read buffers, two-byte characters across buffer boundaries) read cleanly and again with short, interrupted and slow reads and wrong stat sizes; non-trivial when at least one read was short or interrupted, or a stat size was wrong",
	Gen: func(r *Rng) *Case {
		var c *Case
		switch r.N(4) {
		case 0:
			c = wrongProj(r)
		case 1:
			c = &Case{Projs: []*Proj{smallProj(r)}}
		default:
			c = &Case{Projs: []*Proj{anyProj(r)}}
		}
		p := c.Projs[0]
		if r.P(45) { // put a buffer boundary inside a character or a token
			m := p.Mods[r.N(len(p.Mods))]
			k := []int{512, 896, 1408, 2048, 4096, 8192, 12288, 16384, 32768}[r.N(9)]
			if r.P(25) {
				k = r.Size(140000)
			}
			rd := p.Render()
			over := 0
			for i := range p.Mods {
				if p.Mods[i] == m {
					over = len(rd.Bytes[i])
				}
			}
			switch r.N(3) {
			case 0:
				m.Head = straddle(r, k+r.In(-3, 3))
			case 1: // the boundary falls somewhere into the text
				m.Head = straddle(r, k-r.N(over+1))
			case 2: // the file ends near the boundary
				m.Head = straddle(r, k-over+r.In(-2, 2))
			}
		}
		if r.P(4) {
			c.Raw = append(c.Raw, RawFile{Path: p.Mods[r.N(len(p.Mods))].Path, Data: []byte{}})
		}
		if r.P(12) {
			c.Dmg = append(c.Dmg, Dmg{Path: p.Mods[r.N(len(p.Mods))].Path, K: r.Pick([]string{"pre", "pre", "post", "utf"}), B: r.N(100)})
		}
		fs := c.FS()
		c.Plans = map[string]*Plan{}
		for _, f := range fs.Files {
			if r.P(70) {
				c.Plans[f.Path] = randReads(r, len(f.Vers[0]))
			}
		}
		seeds(r, c, 1)
		c.Sched = randSched(r)
		c.Tasks = one(c.Main(0))
		return c
	},
	Judge: func(e *Env, c *Case) *Verdict {
		fs := c.FS()
		ref, ok := lone(e.Exec(c.Clean(fs), false))
		if !ok {
			return trivial
		}
		run := e.Exec(c.Scenario(fs), false)
		o, ok := lone(run)
		if !ok {
			return bad("crash", "clean delivery: %s; fragmented delivery: %s", show(ref), ended(run))
		}
		if key(o) != key(ref) {
			return bad("outcome", "clean delivery: %s; fragmented delivery: %s", show(ref), show(o))
		}
		if run.R.FaultReads == 0 && len(c.Plans) == 0 {
			return trivial
		}
		return held
	}}

// ---- C03

var openErrnos = []int32{1, 2, 5, 6, 13, 20, 21, 23, 24, 36, 40, 12, 26, 28, 116, 122}
var readErrnos = []int32{5, 21, 116, 12, 22, 103, 110, 121, 6, 61, 9, 74, 84}

// readFault makes a plan which fails at about the given byte of the file.
func readFault(r *Rng, size int) *Plan {
	p := &Plan{}
	en := -readErrnos[r.N(len(readErrnos))]
	switch r.N(5) {
	case 0: // the first read
		p.Reads = []int32{en}
	case 1: // after everything was delivered
		p.Reads = []int32{}
		for left := size; left > 0; {
			n := r.In(1, 4096)
			if n > left {
				n = left
			}
			if n > 512 {
				n = 512 // ReadAll starts with 512 bytes
			}
			p.Reads = append(p.Reads, int32(n))
			left -= n
		}
		p.Reads = append(p.Reads, en)
	default:
		off := r.N(size + 1)
		step := r.In(1, 512)
		for off > 0 {
			n := step
			if n > off {
				n = off
			}
			p.Reads = append(p.Reads, int32(n))
			off -= n
			if len(p.Reads) > 3000 {
				break
			}
		}
		p.Reads = append(p.Reads, en)
	}
	if r.P(50) {
		p.Rest = en
	} else if r.P(50) {
		for i := r.N(3); i > 0; i-- {
			p.Reads = append(p.Reads, en)
		}
	}
	return p
}

type failure struct {
	path  string
	errno int
}

// failures lists the open and read calls which returned an error other than EINTR.
func failures(fs *FS, r *scen.Result, ev0, ev1 int) []failure {
	out := []failure{}
	dirOf := map[int32]string{}
	for i, ev := range r.Events {
		if i < ev0 || ev1 >= 0 && i >= ev1 {
			continue
		}
		if ev.K == evOpen && ev.Ret >= 0 {
			dirOf[ev.Fd] = ev.Path
		}
		if ev.Ret >= 0 || ev.Ret == -4 || ev.K != evOpen && ev.K != evRead {
			continue
		}
		p := ev.Path
		if ev.K == evRead {
			p = dirOf[ev.Fd]
		}
		name := p
		for _, f := range fs.Files {
			if absPath(f.Path) == p {
				name = f.Path
			}
		}
		out = append(out, failure{name, int(-ev.Ret)})
	}
	return out
}

const (
	evOpen = 1 + iota
	evRead
	evClose
	evFstat
	evStat
	evSeek
	evWrite
	evReplace
	evOther
)

var c03 = PropDef{ID: "C03",
	Rule: "a project that parses, with one or more of its open and read calls failing (absent file, directory, any errno, at any byte incl. the end of file, once or for ever, after short and interrupted reads, descriptor limit); non-trivial when a call really failed",
	Gen: func(r *Rng) *Case {
		c := &Case{Projs: []*Proj{smallProj(r)}, Plans: map[string]*Plan{}}
		if r.P(30) {
			c.Projs[0] = anyProj(r)
		}
		p := c.Projs[0]
		if r.P(15) {
			m := p.Mods[r.N(len(p.Mods))]
			m.Head = straddle(r, r.In(400, 20000))
		}
		fs := c.FS()
		n := 1
		if r.P(20) {
			n = r.In(2, 4)
		}
		for i := 0; i < n; i++ {
			f := fs.Files[r.N(len(fs.Files))]
			switch r.N(10) {
			case 0:
				c.Gone = append(c.Gone, f.Path)
			case 1:
				c.Dirs = append(c.Dirs, f.Path)
			case 2, 3, 4:
				c.Plans[f.Path] = &Plan{Opens: []int32{-openErrnos[r.N(len(openErrnos))]}}
				if r.P(50) {
					c.Plans[f.Path].Opens = append(c.Plans[f.Path].Opens, c.Plans[f.Path].Opens[0], c.Plans[f.Path].Opens[0])
				}
			default:
				c.Plans[f.Path] = readFault(r, len(f.Vers[0]))
			}
		}
		if r.P(5) {
			c.Fd = 1
		}
		seeds(r, c, 1)
		c.Sched = randSched(r)
		if r.P(15) {
			c.Log = "default"
		}
		c.Tasks = one(c.Main(0))
		return c
	},
	Judge: func(e *Env, c *Case) *Verdict {
		fs := c.FS()
		ref, ok := lone(e.Exec(c.Clean0(fs), false))
		if !ok || ref.Class != "ok" {
			return trivial
		}
		s := c.Scenario(fs)
		s.Events = true
		run := e.Exec(s, false)
		o, ok := lone(run)
		if !ok {
			if run.R == nil || run.R.Budget {
				return bad("crash", "%s", ended(run))
			}
			return trivial
		}
		fl := failures(fs, run.R, 0, -1)
		if len(fl) == 0 {
			return trivial
		}
		if o.Class == "panic" {
			return bad("panic", "%v failed; %s", fl, o.Err)
		}
		if o.Class != "err" || o.Prog {
			return bad("accepted", "%v failed; outcome %s, program returned: %v", fl, show(o), o.Prog)
		}
		okPath, okNo := false, false
		for _, f := range fl {
			if mentions(o.Err, f.path) {
				okPath = true
				if o.Errno == f.errno {
					okNo = true
				}
			}
		}
		if !okPath {
			return bad("path", "%v failed; the message does not name the file: %s", fl, o.Err)
		}
		if !okNo {
			return bad("errno", "%v failed; the error wraps errno %d: %s", fl, o.Errno, o.Err)
		}
		return held
	}}

// Clean0 is the fault-free file system with every file of the projects present.
func (c *Case) Clean0(fs *FS) *scen.Scenario {
	d := *c
	d.Gone, d.Dirs = nil, nil
	g := &FS{Names: fs.Names}
	for _, f := range fs.Files {
		h := *f
		h.Gone, h.Dir = false, false
		g.Files = append(g.Files, &h)
	}
	return d.Clean(g)
}

// ---- C04

// mutating system calls (linux/amd64) which must never be tried
var mutating = map[uint32]bool{1: true, 18: true, 20: true, 76: true, 77: true, 82: true, 83: true, 84: true, 85: true, 86: true, 87: true, 88: true, 90: true, 91: true, 92: true, 93: true, 94: true, 258: true, 260: true, 263: true, 264: true, 265: true, 266: true, 268: true, 316: true, 40: true, 41: true, 42: true, 56: true, 57: true, 58: true, 59: true, 2: true, 257: true, 437: true, 280: true, 235: true, 132: true, 326: true, 295: false, 62: true}

var c04 = PropDef{ID: "C04",
	Rule: "projects on the success, error and fault paths, with decoy files (units named without a path, IN clauses inside units, similar names) and descriptor limits; non-trivial when at least one file was opened",
	Gen: func(r *Rng) *Case {
		var c *Case
		switch r.N(5) {
		case 0:
			c = wrongProj(r)
		case 1:
			c = c03.Gen(r)
		case 2:
			c = &Case{Projs: []*Proj{smallProj(r)}}
		default:
			c = &Case{Projs: []*Proj{anyProj(r)}}
		}
		if c.Plans == nil {
			c.Plans = map[string]*Plan{}
		}
		p := c.Projs[0]
		decoy := []byte("unit SysUtils;\ninterface\nimplementation\nend.\n")
		for _, n := range []string{"SysUtils", "sysutils", "Windows", "Classes"} {
			for _, d := range []string{"", "sub/"} {
				if r.P(50) {
					c.Raw = append(c.Raw, RawFile{d + n + ".pas", decoy})
				}
			}
		}
		for _, m := range p.Mods { // IN clauses inside units
			if m.Prog || !r.P(30) {
				continue
			}
			path := r.Pick([]string{"other.pas", "sub/other.pas", "deep/x.pas"})
			m.Uses = insUse(r, m.Uses, UseS{Name: r.Pick([]string{"Other", "Deep"}), Path: path})
			c.Raw = append(c.Raw, RawFile{path, []byte("unit Other;\ninterface\nimplementation\nend.\n")})
		}
		if r.P(25) && len(p.Mods) > 1 { // a unit of the program named without a path: its file is not to be read
			i := r.N(len(p.Mods[0].Uses))
			p.Mods[0].Uses[i].Path = ""
			p.Repair()
		}
		if r.P(15) {
			c.Fd = int32(r.In(1, 3))
		}
		if r.P(20) {
			fs := c.FS()
			f := fs.Files[r.N(len(fs.Files))]
			if c.Plans[f.Path] == nil {
				c.Plans[f.Path] = &Plan{}
			}
			if r.P(50) {
				c.Plans[f.Path].CloseErr = 5
			} else {
				c.Plans[f.Path].FstatErr = 5
			}
		}
		if c.Boots == nil {
			seeds(r, c, 1)
		}
		c.Sched = randSched(r)
		if r.P(10) {
			c.Log = "default"
		}
		c.Tasks = one(c.Main(0))
		return c
	},
	Judge: func(e *Env, c *Case) *Verdict {
		fs := c.FS()
		s := c.Scenario(fs)
		s.Events = true
		run := e.Exec(s, false)
		if run.R == nil || run.R.Budget {
			return trivial
		}
		allowed := map[string]bool{absPath(c.Main(0)): true}
		for _, u := range c.Projs[0].Mods[0].Uses {
			if u.Path != "" {
				allowed[absPath(u.Path)] = true
			}
		}
		main := fs.get(c.Main(0))
		known := main != nil && !main.Hurt && main.Mod == 0
		opened := 0
		for _, ev := range run.R.Events {
			switch ev.K {
			case evOpen:
				opened++
				if ev.Arg&(0x1|0x2|0x40|0x200|0x400) != 0 {
					return bad("write", "%s opened with flags %#x", ev.Path, ev.Arg)
				}
				if known && !allowed[ev.Path] {
					return bad("foreign", "%s was opened although the program does not name it with 'in'", ev.Path)
				}
			case evWrite:
				return bad("write", "write to descriptor %d", ev.Fd)
			case evOther:
				return bad("call", "system call %s", ev.Path)
			}
			if ev.Late && ev.K != evReplace {
				return bad("late", "I/O after the call returned: event kind %d on %q", ev.K, ev.Path)
			}
		}
		for _, t := range run.R.Traps {
			if mutating[t] {
				return bad("call", "system call number %d", t)
			}
		}
		o := &run.R.Tasks[0][0]
		if o.Fds != 0 || run.R.OpenFds != 0 {
			return bad("leak", "%d descriptors open when the call returned (%s)", o.Fds, show(o))
		}
		if run.R.BadClose != 0 {
			return bad("close", "%d descriptors closed more than once", run.R.BadClose)
		}
		if run.R.Goroutines > 0 {
			return bad("goroutine", "%d goroutines left behind", run.R.Goroutines)
		}
		if opened == 0 {
			return trivial
		}
		return held
	}}

// ---- C05

var c05 = PropDef{ID: "C05",
	Rule: "a project that parses, one file cut at a byte before its final full stop or zero-filled from there on (up to 120 such cuts per case, each parsed on its own); non-trivial always",
	Gen: func(r *Rng) *Case {
		c := &Case{Projs: []*Proj{smallProj(r)}}
		if r.P(40) {
			c.Projs[0] = anyProj(r)
		}
		rd := c.Projs[0].Render()
		cut := func(i, off int) Dmg {
			return Dmg{Path: c.Projs[0].Mods[i].Path, K: r.Pick([]string{"cut", "cut", "zero"}), A: off}
		}
		i := r.N(len(rd.Bytes))
		any := func() int {
			off := r.N(rd.End[i] + 1)
			switch r.N(4) {
			case 0: // near the end
				off = rd.End[i] - r.N(min(rd.End[i]+1, 24))
			case 1: // at a token boundary
				if t := tokens(rd.Bytes[i][:rd.End[i]]); len(t) > 0 {
					off = min(t[r.N(len(t))][r.N(2)], rd.End[i])
				}
			}
			return off
		}
		seeds(r, c, 1)
		if r.P(15) {
			c.Dmg = []Dmg{cut(i, any())}
			c.Sched = randSched(r)
			return c
		}
		for k := range rd.Bytes { // around the closing "end."
			if len(rd.Bytes) < 6 || r.P(40) {
				for off := rd.End[k]; off >= 0 && off > rd.End[k]-6; off-- {
					c.Batch = append(c.Batch, []Dmg{cut(k, off)})
				}
			}
		}
		want := fewer(80, c.FS())
		for len(c.Batch) > want+40 {
			c.Batch = c.Batch[1:]
		}
		for len(c.Batch) < want {
			i = r.N(len(rd.Bytes))
			for n := 0; n < 10; n++ {
				c.Batch = append(c.Batch, []Dmg{cut(i, any())})
			}
		}
		return c
	},
	Judge: func(e *Env, c *Case) *Verdict {
		if len(c.Batch) > 0 {
			d := *c
			d.Batch = nil
			ref, ok := lone(e.Exec(d.Clean(d.FS()), false))
			if !ok || ref.Class != "ok" {
				return trivial
			}
			return judgeBatch(e, c, func(o *scen.OpRes, el []Dmg) bool {
				return o.Class != "err" || o.Prog || !mentions(o.Err, el[0].Path)
			}, judgeCut)
		}
		return judgeCut(e, c)
	}}

func judgeCut(e *Env, c *Case) *Verdict {
	if len(c.Dmg) != 1 {
		return trivial
	}
	d := *c
	d.Dmg = nil
	gs := d.FS()
	f := gs.get(c.Dmg[0].Path)
	if f == nil || f.Mod < 0 || c.Dmg[0].A > f.R.End[f.Mod] || c.Dmg[0].A < 0 {
		return trivial
	}
	ref, ok := lone(e.Exec(d.Clean(gs), false))
	if !ok || ref.Class != "ok" {
		return trivial
	}
	fs := c.FS()
	run := e.Exec(c.Clean(fs), false)
	o, ok := lone(run)
	if !ok {
		return bad("crash", "%s", ended(run))
	}
	e.count("file "+c.Dmg[0].K, 1)
	if o.Class == "panic" {
		return bad("crash", "%s", o.Err)
	}
	if o.Class != "err" || o.Prog {
		return bad("accepted", "%s at byte %d of %d: outcome %s", c.Dmg[0].Path, c.Dmg[0].A, len(f.Vers[0]), show(o))
	}
	if !mentions(o.Err, c.Dmg[0].Path) {
		return bad("path", "%s at byte %d of %d: the message does not name the file: %s", c.Dmg[0].Path, c.Dmg[0].A, len(f.Vers[0]), o.Err)
	}
	return held
}

// ---- C06

var c06 = PropDef{ID: "C06",
	Rule: "a project whose files suffered 1 to 6 damages, or 60 such variants of a project one after another (bit flips, overwritten, lost, duplicated, exchanged or zeroed blocks, foreign contents, token-level splices, random bytes); non-trivial when the text differs from the undamaged one",
	Gen: func(r *Rng) *Case {
		if r.N(300) == 0 { // constructs nested as deep as a file of megabytes allows
			c := &Case{Kind: "deep", P: r.Pick(deepShapes), A: int64(r.In(300000, 600000)), B: int64(r.N(2))}
			c.Projs = []*Proj{{Mods: []*Module{{Name: "Main", Path: "main.dpr", Prog: true}}}}
			if c.B == 1 {
				p := c.Projs[0]
				p.Mods[0].Uses = []UseS{{Name: "U1", Path: "U1.pas"}}
				p.Mods = append(p.Mods, &Module{Name: "U1", Path: "U1.pas"})
			}
			seeds(r, c, 1)
			return c
		}
		c := &Case{Projs: []*Proj{smallProj(r)}}
		if r.P(40) {
			c.Projs[0] = anyProj(r)
		}
		if r.P(20) {
			s := corpus[r.N(len(corpus))]
			rawModule(r, c, s)
		}
		k := 1
		if r.P(40) {
			k = r.In(2, 6)
		}
		if r.P(75) { // many in one process
			fs := c.FS()
			for n := fewer(60, fs); n > 0; n-- {
				var el []Dmg
				for i := r.In(1, k); i > 0; i-- {
					el = append(el, randDmg(r, fs, fs.Files[r.N(len(fs.Files))].Path))
				}
				c.Batch = append(c.Batch, el)
			}
			seeds(r, c, 1)
			return c
		}
		hurt(r, c, k)
		if r.P(4) {
			b := make([]byte, r.N(300))
			for i := range b {
				b[i] = byte(r.U64())
			}
			c.Raw = append(c.Raw, RawFile{c.Projs[0].Mods[r.N(len(c.Projs[0].Mods))].Path, b})
			c.Dmg = nil
		}
		seeds(r, c, 1)
		c.Sched = randSched(r)
		return c
	},
	Judge: func(e *Env, c *Case) *Verdict {
		if c.Kind == "deep" {
			return judgeDeep(e, c)
		}
		if len(c.Batch) > 0 {
			return judgeBatch(e, c, func(o *scen.OpRes, el []Dmg) bool { return o.Class != "err" && o.Class != "ok" }, judgeHurt)
		}
		return judgeHurt(e, c)
	}}

func judgeHurt(e *Env, c *Case) *Verdict {
	fs := c.FS()
	run := e.Exec(c.Clean(fs), false)
	for _, d := range c.Dmg {
		e.count("damage "+d.K, 1)
	}
	if run.R == nil && !run.Stuck {
		return bad("died", "%s", run.Fatal)
	}
	if run.R == nil || run.R.Budget {
		return trivial // C14
	}
	o := &run.R.Tasks[0][0]
	switch o.Class {
	case "panic":
		return bad("panic", "%s", o.Err)
	case "nil":
		return bad("nil", "neither a program nor an error was returned")
	case "ok", "err":
	default:
		return bad("odd", "class %q", o.Class)
	}
	d := *c
	d.Dmg, d.Raw = nil, nil
	same := true
	gs := d.FS()
	for i, f := range gs.Files {
		if i >= len(fs.Files) || string(f.Vers[0]) != string(fs.Files[i].Vers[0]) {
			same = false
		}
	}
	if same {
		return trivial
	}
	return held
}

// judgeDeep parses a file of megabytes which nests one construct all along. The process has a
// stack of 128 MB, half of what the Go runtime allows on 32-bit systems.
func judgeDeep(e *Env, c *Case) *Verdict {
	sh := findShape(c.P)
	if sh == nil || c.A <= 0 || int(c.B) >= len(c.Projs[0].Mods) {
		return trivial
	}
	d := clone(c)
	m := d.Projs[0].Mods[c.B]
	m.Raw = shapeText(*sh, int(c.A), m)
	fs := d.FS()
	s := d.Clean(fs)
	s.Tasks[0].Ops[0].Mode = "nodump"
	s.Budget = 3_000_000_000
	run := e.exec(s, false)
	e.count("deep nesting", 1)
	if run.R == nil && !run.Stuck {
		return bad("died", "%s, %d levels: %s", c.P, c.A, run.Fatal)
	}
	if run.R == nil || run.R.Budget {
		return trivial // C14
	}
	if o := &run.R.Tasks[0][0]; o.Class == "panic" || o.Class == "nil" {
		return bad(o.Class, "%s, %d levels: %s", c.P, c.A, o.Err)
	}
	return held
}

// ---- C23

// bodyStart is the byte after what other modules depend on: after the uses clause of the
// implementation section, or of a program.
func bodyStart(b []byte) int {
	toks := tokens(b)
	word := func(i int) string {
		if i >= len(toks) {
			return ""
		}
		return strings.ToLower(string(b[toks[i][0]:toks[i][1]]))
	}
	i := 0
	switch word(0) {
	case "program":
		i = 3
	case "unit":
		for i < len(toks) && word(i) != "implementation" {
			i++
		}
		i++
	}
	if word(i) == "uses" {
		for i < len(toks) && word(i) != ";" {
			i++
		}
		i++
	}
	if i == 0 || i > len(toks) {
		return len(b)
	}
	return toks[i-1][1] + 1
}

// blame compares an error with the place where the damaged text starts to differ.
func blame(o *scen.OpRes, p string, was, now []byte) *Verdict {
	x := 0
	for x < len(was) && x < len(now) && was[x] == now[x] {
		x++
	}
	if x < bodyStart(was) || x == len(was) && x == len(now) {
		return trivial
	}
	if o.Class != "err" {
		return held
	}
	if !mentions(o.Err, p) {
		return bad("file", "only %s was damaged, but the message does not name it: %s", p, o.Err)
	}
	at := 0
	for _, t := range tokens(was) {
		if t[0] < x {
			at = t[0]
		}
	}
	low := 1 + strings.Count(string(was[:at]), "\n")
	if low > 1 && was[0] == '\n' {
		low-- // the cursor does not count it
	}
	high := 1 + strings.Count(string(now), "\n")
	placeRe := regexp.MustCompile(regexp.QuoteMeta(path.Base(p)) + `:(\d+):(\d+)`)
	for _, m := range placeRe.FindAllStringSubmatch(o.Err, -1) {
		n, _ := strconv.Atoi(m[1])
		if n < low || n > high {
			return bad("line", "%s was damaged in line %d of %d, but the message tells line %d: %s", p, low, high, n, o.Err)
		}
		if col, _ := strconv.Atoi(m[2]); !mayStart(now, n, col) {
			return bad("place", "no token of %s starts at line %d column %d: %s", p, n, col, o.Err)
		}
	}
	return held
}

// mayStart tells if a token could start at the place, or the text ends there. Lines with other
// than ASCII characters are not looked at.
func mayStart(b []byte, line, col int) bool {
	lines := strings.Split(string(b), "\n")
	if b[0] == '\n' || line > len(lines) {
		return true
	}
	l := lines[line-1]
	for i := 0; i < len(l); i++ {
		if l[i] >= 0x80 {
			return true
		}
	}
	if col == len(l)+1 && line == len(lines) {
		return true
	}
	if col < 1 || col > len(l) {
		return false
	}
	c := l[col-1]
	if c == ' ' || c >= '\t' && c <= '\r' {
		return false
	}
	letter := func(c byte) bool { return c == '_' || c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' }
	i := col - 1
	for i > 0 && (letter(l[i-1]) || l[i-1] >= '0' && l[i-1] <= '9') {
		i--
	}
	return i == col-1 || !letter(l[i]) || !letter(c)
}

// bodySnips are wrong or unusual declarations.
var bodySnips = strings.Split(`procedure Zq; external 'l.dll' index 1.5;
procedure Zq; external 'l.dll' index 99999999999999999999;
procedure Zq; external 'l.dll' index $F;
procedure Zq; external 'l.dll' index 'f';
procedure Zq; external 'l.dll' index 1e5;
procedure Zq; external 'l.dll' name 1;
procedure Zq; external 'l.dll' other 1;
procedure Zq; external 1;
procedure Zq(Aq: Integer; Aq: Integer); begin Writeln(1); end;
procedure Zq(const); begin Writeln(1); end;
procedure Zq(out Aq: array of const = 1); begin Writeln(1); end;
function Zq; begin Result := 1; end;
procedure Zq; forward; procedure Zq; begin Writeln(1); end; procedure Zq; begin Writeln(1); end;
type Zq = set of string;
type Zq = set of Double;
type Zq = array[string] of Integer;
type Zq = array[Double] of Integer;
type Zq = 1..'a';
type Zq = (Za, Zb, Za);
type Zq = class(Zr) end;
type Zq = class(Zq) end;
type Zq = class public Fa: Integer; Fa: Integer; end;
type Zq = class public property Pa: Integer read Fz write Fz; end;
type Zq = class public property Pa: Integer index 'a' read Fz; end;
type Zq = class public property Pa: Integer dispid; end;
type Zq = class public procedure Pa; message; end;
type Zq = class of Integer;
type Zq = file of Zr;
type Zq = ^Zr;
type Zq = string[Zr];
type Zq = record case Zr of 1: (Fa: Integer); end;
type Zq = record Fa: Integer; Fa: Integer; end;
type Zq = Integer; Zq = Integer;
type Zq = Zr.Zs;
type Zq = packed Integer;
type Zq = function: ; stdcall;
var Zq: Zr;
var Zq, Zq: Integer;
var Zq: Integer absolute Zr;
var Zq: Integer = Zr;
threadvar Zq: Integer = 1;
const Zq: Zr = 1;
const Zq = Zr;
const Zq: Integer = ;
const Zq = 1; const Zq = 2;
label Zq, Zq;
exports Zq index 1.5;
exports Zr name 1;
procedure Zq; begin goto Zr; end;
procedure Zq; begin Zr := 1; end;
procedure Zq; begin with Zr do Writeln(1); end;
procedure Zq; begin for Zr := 1 to 2 do Writeln(1); end;
procedure Zq; begin case 1 of 1: Writeln(1); 1.5: Writeln(1); end; end;
procedure Zq; begin try Writeln(1); except on Zr do Writeln(1); end; end;
procedure Zq; begin raise; end;
procedure Zq; begin Writeln(1 as Zr); end;
procedure Zq; begin Writeln(@); end;
procedure Zq; begin asm mov eax, end; end;
procedure Zq; begin inherited Zr; end;
resourcestring Zq = 1;`, "\n")

var c23 = PropDef{ID: "C23",
	Rule: "a project that parses, the implementation section of one unit or the block of the program damaged (bit flips, overwritten, lost, duplicated, exchanged, zeroed blocks, spliced tokens, statements and declarations; up to 60 such variants per case, each parsed on its own); non-trivial when the damage lies there",
	Gen: func(r *Rng) *Case {
		c := &Case{Projs: []*Proj{smallProj(r)}}
		if r.P(40) {
			c.Projs[0] = anyProj(r)
		}
		fs := c.FS()
		seeds(r, c, 1)
		for n := fewer(60, fs); n > 0; n-- {
			f := fs.Files[r.N(len(fs.Files))]
			d := randDmg(r, fs, f.Path)
			if r.P(20) {
				d = Dmg{Path: f.Path, K: "decl", A: r.N(1000), S: r.Pick(bodySnips)}
			}
			for k := 0; k < 20; k++ {
				now := d.apply(f.Vers[0], fs)
				x := 0
				for x < len(now) && x < len(f.Vers[0]) && f.Vers[0][x] == now[x] {
					x++
				}
				if x >= bodyStart(f.Vers[0]) && x < len(f.Vers[0]) {
					c.Batch = append(c.Batch, []Dmg{d})
					break
				}
				d = randDmg(r, fs, f.Path)
			}
		}
		return c
	},
	Judge: func(e *Env, c *Case) *Verdict {
		d := *c
		d.Batch, d.Dmg = nil, nil
		gs := d.FS()
		ref, ok := lone(e.Exec(d.Clean(gs), false))
		if !ok || ref.Class != "ok" {
			return trivial
		}
		single := func(e *Env, c *Case) *Verdict {
			if len(c.Dmg) != 1 || gs.get(c.Dmg[0].Path) == nil {
				return trivial
			}
			p := c.Dmg[0].Path
			d := *c
			d.Dmg = nil
			was := d.FS().get(p)
			fs := c.FS()
			o, ok := lone(e.Exec(c.Clean(fs), false))
			if !ok || was == nil {
				return trivial // C06, C14
			}
			return blame(o, p, was.Vers[0], fs.get(p).Vers[0])
		}
		if len(c.Batch) == 0 {
			return single(e, c)
		}
		return judgeBatch(e, c, func(o *scen.OpRes, el []Dmg) bool {
			was := gs.get(el[0].Path)
			return blame(o, el[0].Path, was.Vers[0], el[0].apply(was.Vers[0], gs)).Bad != ""
		}, single)
	}}

// ---- C24

// stale is what an earlier, longer content of a file or of its blocks may leave behind.
func stale(fs *FS, b []byte, d Dmg) []byte {
	r := NewRng(uint64(d.A), 24)
	x := []byte{}
	if r.P(70) {
		x = append(x, r.Pick([]string{"\n", "\r\n", " ", "\x00", "\n\n", "\x1a", "\t"})...)
	}
	for k := r.In(1, 3); k > 0; k-- {
		switch r.N(7) {
		case 0:
			x = append(x, make([]byte, d.N)...)
		case 1:
			for i := 0; i < d.N; i++ {
				x = append(x, byte(r.U64()))
			}
		case 2:
			x = append(x, b[r.N(len(b)+1):]...)
		case 3:
			if f := fs.Files[r.N(len(fs.Files))]; len(f.Vers) > 0 {
				x = append(x, f.Vers[0]...)
			}
		case 4:
			for i := r.In(1, 12); i > 0; i-- {
				x = append(x, sjis([]rune(r.Pick(spliceTokens)+" "))...)
			}
		case 5:
			x = append(x, r.Pick([]string{"{", "(*", "//", "'", "{$I x.inc}", "\x81", "\xff", "\x80", "end.", "end", "initialization", "uses U1;", "begin"})...)
		case 6:
			x = append(x, strings.Repeat(r.Pick([]string{"end.\n", "{", "(", "x", "\x82\xa0", "\n", "begin "}), d.N/4+1)...)
		}
	}
	for len(x) > 0 && (x[0] == '.' || x[0] == ')') { // with the last dot another symbol
		x = x[1:]
	}
	return x
}

var c24 = PropDef{ID: "C24",
	Rule: "a project, some files of which are followed by left-over bytes (zeros, garbage, parts of this or other files, unclosed comments and strings), delivered at once or in short reads; the outcome is compared with that without them; non-trivial when such a file was read",
	Gen: func(r *Rng) *Case {
		c := &Case{Projs: []*Proj{smallProj(r)}}
		if r.P(40) {
			c.Projs[0] = anyProj(r)
		}
		if r.P(15) {
			hurt(r, c, 1)
		}
		fs := c.FS()
		for i, n := 0, r.In(1, 3); i < n; i++ {
			f := fs.Files[r.N(len(fs.Files))]
			if f.Hurt {
				continue
			}
			d := Dmg{Path: f.Path, K: "stale", A: r.N(1e9), N: r.In(1, 600)}
			if r.P(10) {
				d.N = r.In(600, 70000)
				if r.P(5) {
					d.N = r.In(70000, 3000000)
				}
			}
			c.Dmg = append(c.Dmg, d)
		}
		if r.P(40) {
			c.Plans = map[string]*Plan{}
			for _, f := range fs.Files {
				if r.P(50) {
					c.Plans[f.Path] = &Plan{Rest: int32(r.In(1, 900))}
				}
			}
		}
		seeds(r, c, 1)
		c.Tasks = one(c.Main(0))
		return c
	},
	Judge: func(e *Env, c *Case) *Verdict {
		d := *c
		d.Dmg = nil
		paths := map[string]bool{}
		for _, x := range c.Dmg {
			if x.K == "stale" {
				paths[x.Path] = true
			} else {
				d.Dmg = append(d.Dmg, x)
			}
		}
		for _, x := range d.Dmg {
			if paths[x.Path] {
				return trivial
			}
		}
		want, ok := lone(e.Exec(d.Clean(d.FS()), false))
		if !ok {
			return trivial
		}
		run := e.Exec(c.Scenario(c.FS()), false)
		got, ok := lone(run)
		if !ok {
			return bad("crash", "without the left-over bytes %s; with them: %s", show(want), ended(run))
		}
		if key(got) != key(want) {
			return bad("outcome", "without the left-over bytes %s; with them %s", show(want), show(got))
		}
		for _, o := range run.R.Opens {
			for p := range paths {
				if strings.HasSuffix(o.Path, path.Clean(p)) {
					return held
				}
			}
		}
		return trivial
	}}
