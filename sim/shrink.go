package main

import (
	"strings"
	"sync"
	"time"

	"vdst/scen"
)

// shrink makes the case smaller while the judge keeps reporting the same kind of violation.
func shrink(e *Env, d *PropDef, c *Case, v *Verdict, limit time.Duration) (*Case, *Verdict, int) {
	deadline := time.Now().Add(limit)
	tried := 0
	c, v = explicit(e, d, c, v)
	for {
		cands := candidates(c)
		progress := false
		i := 0
		for i < len(cands) && time.Now().Before(deadline) {
			n := 8
			if i+n > len(cands) {
				n = len(cands) - i
			}
			cs := make([]*Case, n)
			vs := make([]*Verdict, n)
			var wg sync.WaitGroup
			for k := 0; k < n; k++ {
				x := clone(c)
				if !cands[i+k](x) || len(x.Projs) == 0 {
					continue
				}
				for _, p := range append(append([]*Proj{}, x.Projs...), x.Alts...) {
					p.Repair()
				}
				cs[k] = x
				tried++
				wg.Add(1)
				go func(k int) {
					defer wg.Done()
					defer func() {
						if recover() != nil {
							vs[k] = nil
						}
					}()
					vs[k] = d.judge(e, cs[k])
				}(k)
			}
			wg.Wait()
			hit := -1
			for k := 0; k < n; k++ {
				if vs[k] != nil && vs[k].Bad == v.Bad {
					hit = k
					break
				}
			}
			if hit >= 0 {
				c, v = cs[hit], vs[hit]
				progress = true
				cands2 := candidates(c)
				if len(cands2) < len(cands) {
					cands = cands2
					if i > len(cands) {
						break
					}
				} else {
					i += hit + 1
					cands = cands2
				}
				continue
			}
			i += n
		}
		if !progress || time.Now().After(deadline) {
			return c, v, tried
		}
	}
}

// explicit turns a random schedule into the list of switches it made.
func explicit(e *Env, d *PropDef, c *Case, v *Verdict) (*Case, *Verdict) {
	if c.Sched.Every == 0 && !c.Sched.BlockRand {
		return c, v
	}
	x := clone(c)
	x.Sched = Sched{}
	if w := d.judge(e, x); w.Bad == v.Bad {
		return x, w
	}
	if len(c.Tasks) == 0 {
		return c, v
	}
	run := e.Exec(c.Scenario(c.FS()), c.Race)
	if run.R == nil || run.R.NTrace >= 1<<14 {
		return c, v
	}
	x = clone(c)
	x.Sched = Sched{}
	for _, t := range run.R.Trace {
		if t.Kind == 0 {
			x.Sched.Pre = append(x.Sched.Pre, scen.Pre{Step: t.Step, Pick: uint32(t.Pick)})
		} else {
			x.Sched.Picks = append(x.Sched.Picks, uint32(t.Pick))
		}
	}
	if w := d.judge(e, x); w.Bad == v.Bad {
		return x, w
	}
	return c, v
}

type mut func(c *Case) bool

func dropPath(c *Case, paths map[string]bool) {
	keep := func(ops []scen.Op) []scen.Op {
		out := []scen.Op{}
		for _, o := range ops {
			if !(o.Kind == "parse" && paths[o.Path]) {
				out = append(out, o)
			}
		}
		return out
	}
	for i := range c.Tasks {
		c.Tasks[i].Ops = keep(c.Tasks[i].Ops)
	}
	c.Setup, c.Final = keep(c.Setup), keep(c.Final)
}

func candidates(c *Case) []mut {
	ms := []mut{}
	add := func(m mut) { ms = append(ms, m) }
	for k := len(c.Projs) - 1; k > 0; k-- {
		k := k
		add(func(c *Case) bool {
			dropPath(c, map[string]bool{c.Main(k): true})
			c.Projs = append(c.Projs[:k], c.Projs[k+1:]...)
			return true
		})
	}
	if len(c.Tasks) > 1 {
		for k := range c.Tasks {
			k := k
			add(func(c *Case) bool { c.Tasks = append(c.Tasks[:k], c.Tasks[k+1:]...); return true })
		}
	}
	// schedule
	if n := len(c.Sched.Pre); n > 0 {
		for _, part := range []int{2, 4, 8, 16} {
			if n >= part {
				for q := 0; q < part; q++ {
					a, b := n*q/part, n*(q+1)/part
					add(func(c *Case) bool {
						c.Sched.Pre = append(append([]scen.Pre{}, c.Sched.Pre[:a]...), c.Sched.Pre[b:]...)
						return true
					})
				}
			}
		}
		if n <= 40 {
			for i := 0; i < n; i++ {
				i := i
				add(func(c *Case) bool {
					c.Sched.Pre = append(append([]scen.Pre{}, c.Sched.Pre[:i]...), c.Sched.Pre[i+1:]...)
					return true
				})
			}
		}
	}
	if len(c.Sched.Picks) > 0 {
		add(func(c *Case) bool { c.Sched.Picks = nil; return true })
		add(func(c *Case) bool { c.Sched.Picks = c.Sched.Picks[:len(c.Sched.Picks)/2]; return true })
	}
	if c.Sched.Every > 0 || c.Sched.BlockRand {
		add(func(c *Case) bool { c.Sched = Sched{}; return true })
	}
	// modules
	for pi, p := range c.Projs {
		pi := pi
		for i := len(p.Mods) - 1; i > 0; i-- {
			i := i
			add(func(c *Case) bool {
				dropUnit(c.Projs[pi], i)
				if pi == 0 {
					for _, a := range c.Alts {
						if i < len(a.Mods) {
							dropUnit(a, i)
						}
					}
				}
				return true
			})
		}
	}
	// faults
	for i := range c.Dmg {
		i := i
		add(func(c *Case) bool { c.Dmg = append(c.Dmg[:i], c.Dmg[i+1:]...); return true })
	}
	for i := range c.Repl {
		i := i
		add(func(c *Case) bool { c.Repl = append(c.Repl[:i], c.Repl[i+1:]...); return true })
	}
	for i := range c.Raw {
		i := i
		add(func(c *Case) bool { c.Raw = append(c.Raw[:i], c.Raw[i+1:]...); return true })
	}
	for i := range c.Gone {
		i := i
		add(func(c *Case) bool { c.Gone = append(c.Gone[:i], c.Gone[i+1:]...); return true })
	}
	for i := range c.Dirs {
		i := i
		add(func(c *Case) bool { c.Dirs = append(c.Dirs[:i], c.Dirs[i+1:]...); return true })
	}
	for _, p := range planPaths(c) {
		p := p
		add(func(c *Case) bool { delete(c.Plans, p); return true })
		pl := c.Plans[p]
		if len(pl.Reads) > 1 {
			add(func(c *Case) bool { x := c.Plans[p]; x.Reads = x.Reads[:len(x.Reads)/2]; return true })
			add(func(c *Case) bool { x := c.Plans[p]; x.Reads = x.Reads[len(x.Reads)/2:]; return true })
			add(func(c *Case) bool { x := c.Plans[p]; x.Reads = x.Reads[1:]; return true })
			add(func(c *Case) bool { x := c.Plans[p]; x.Reads = x.Reads[:len(x.Reads)-1]; return true })
		}
		if len(pl.Opens) > 1 {
			add(func(c *Case) bool { x := c.Plans[p]; x.Opens = x.Opens[:len(x.Opens)-1]; return true })
			add(func(c *Case) bool { x := c.Plans[p]; x.Opens = x.Opens[1:]; return true })
		}
		if pl.StallN > 1 {
			add(func(c *Case) bool { c.Plans[p].StallN /= 2; return true })
		}
		if pl.Rest != 0 {
			add(func(c *Case) bool { c.Plans[p].Rest = 0; return true })
		}
		if pl.StatSize != 0 {
			add(func(c *Case) bool { c.Plans[p].StatSize = 0; return true })
		}
		if pl.Latency != 0 {
			add(func(c *Case) bool { c.Plans[p].Latency = 0; return true })
		}
	}
	if c.Fd != 0 {
		add(func(c *Case) bool { c.Fd = 0; return true })
	}
	if len(c.Std) > 0 {
		add(func(c *Case) bool { c.Std = nil; return true })
		add(func(c *Case) bool { c.Std = c.Std[:len(c.Std)/2]; return true })
		add(func(c *Case) bool { c.Std = c.Std[:len(c.Std)-1]; return true })
	}
	if c.StdR != 0 {
		add(func(c *Case) bool { c.StdR = 0; return true })
	}
	if len(c.Boots) > 2 {
		for i := 1; i < len(c.Boots); i++ {
			i := i
			add(func(c *Case) bool {
				c.Boots = append(c.Boots[:i], c.Boots[i+1:]...)
				c.Rands = append(c.Rands[:i], c.Rands[i+1:]...)
				return true
			})
		}
	}
	for i := len(c.Alts) - 1; i >= 0; i-- {
		if i == len(c.Alts)-1 {
			add(func(c *Case) bool { c.Alts = c.Alts[:len(c.Alts)-1]; return true })
		}
	}
	for k := range c.Tasks {
		k := k
		for i := len(c.Tasks[k].Ops) - 1; i >= 0; i-- {
			i := i
			if c.Prop == "C12" && c.Kind == "nest" && c.Tasks[k].Ops[i].Kind != "parse" {
				continue
			}
			add(func(c *Case) bool {
				c.Tasks[k].Ops = append(c.Tasks[k].Ops[:i], c.Tasks[k].Ops[i+1:]...)
				return len(c.Tasks[k].Ops) > 0
			})
		}
	}
	// contents
	mods := func(c *Case) []*Module {
		l := []*Module{}
		for _, p := range append(append([]*Proj{}, c.Projs...), c.Alts...) {
			l = append(l, p.Mods...)
		}
		return l
	}
	for i, m := range mods(c) {
		i := i
		if m.Pad != 0 || m.Tail != "" || m.Head != "" {
			add(func(c *Case) bool { m := mods(c)[i]; m.Pad, m.Tail, m.Head = 0, "", ""; return true })
		}
		if m.Lay != 0 {
			add(func(c *Case) bool { mods(c)[i].Lay = 0; return true })
		}
		lists := func(m *Module) []*[]*Chunk { return []*[]*Chunk{&m.Fin, &m.Init, &m.Impl, &m.Intf} }
		for q, l := range lists(m) {
			q := q
			if len(*l) > 0 {
				add(func(c *Case) bool { *lists(mods(c)[i])[q] = nil; return true })
			}
			if len(*l) > 1 {
				for x := range *l {
					x := x
					add(func(c *Case) bool {
						l := lists(mods(c)[i])[q]
						*l = append((*l)[:x], (*l)[x+1:]...)
						return true
					})
				}
			}
		}
		for x := range m.ImplUses {
			x := x
			add(func(c *Case) bool {
				m := mods(c)[i]
				m.ImplUses = append(m.ImplUses[:x], m.ImplUses[x+1:]...)
				return true
			})
		}
		for x := range m.Uses {
			x := x
			add(func(c *Case) bool { m := mods(c)[i]; m.Uses = append(m.Uses[:x], m.Uses[x+1:]...); return true })
		}
		n := 0
		eachChunk(m, func(ch *Chunk) {
			q := n
			n++
			at := func(c *Case) *Chunk {
				var r *Chunk
				k := 0
				eachChunk(mods(c)[i], func(x *Chunk) {
					if k == q {
						r = x
					}
					k++
				})
				return r
			}
			if len(ch.S) > 0 {
				add(func(c *Case) bool { at(c).S = nil; return true })
				for y := range ch.S {
					y := y
					if len(ch.S) > 1 {
						add(func(c *Case) bool { z := at(c); z.S = append(z.S[:y], z.S[y+1:]...); return true })
					}
				}
			}
			if len(ch.B) > 0 {
				add(func(c *Case) bool { at(c).B = nil; return true })
				for y := range ch.B {
					y := y
					if len(ch.B) > 1 {
						add(func(c *Case) bool { z := at(c); z.B = append(z.B[:y], z.B[y+1:]...); return true })
					}
				}
			}
			if len(ch.R) > 0 && ch.K != "label" {
				add(func(c *Case) bool { z := at(c); z.R = z.R[:len(z.R)-1]; return true })
			}
		})
	}
	return ms
}

func planPaths(c *Case) []string {
	l := []string{}
	for p := range c.Plans {
		l = append(l, p)
	}
	sortStrings(l)
	return l
}

func dropUnit(p *Proj, i int) {
	name := p.Mods[i].Name
	p.Mods = append(p.Mods[:i], p.Mods[i+1:]...)
	for _, m := range p.Mods {
		for _, us := range []*[]UseS{&m.Uses, &m.ImplUses} {
			out := []UseS{}
			for _, u := range *us {
				if !strings.EqualFold(u.Name, name) {
					out = append(out, u)
				}
			}
			*us = out
		}
	}
}
