package main

import (
	"fmt"
	"strings"

	"vdst/scen"
)

// ---- C19

var specNames = []string{"type", "index", "read", "write", "stored", "default"}

func classProj(r *Rng) *Proj {
	if r.P(15) {
		return anyProj(r)
	}
	for try := 0; ; try++ {
		p := classProj1(r)
		if try == 4 {
			return p
		}
		for _, c := range p.Render().Classes {
			if c.Parent != nil {
				return p
			}
		}
	}
}

func classProj1(r *Rng) *Proj {
	o := GenOpt{Units: r.In(1, 6), Decls: r.In(1, 5), Stmts: 1, Depth: 0, Layout: r.P(30), Dense: r.In(40, 95), Classes: r.In(40, 95), Shadow: r.P(30), Blow: r.P(10)}
	return Gen(r, o)
}

// specOwner finds the property of the ancestor chain which gives the specifier. known is false
// when the declaration leaves it open.
func specOwner(rd *Rendered, c *ClassInfo, name, spec string) (at *ClassInfo, pr *Prop, known bool) {
	for n := 0; c != nil && n < 100; n++ {
		if p := c.prop(name); p != nil {
			if p.Has[spec] {
				return c, p, true
			}
			if p.Has["type"] { // it is a new property unless an ancestor has one of the name
				x, known := rd.parentOf(c)
				for d := 0; known && x != nil && d < 100; d++ {
					if x.prop(name) != nil {
						return nil, nil, false
					}
					x, known = rd.parentOf(x)
				}
				return nil, nil, known
			}
		}
		x, ok := rd.parentOf(c)
		if !ok {
			return nil, nil, false
		}
		c = x
	}
	return nil, nil, false // there is no property to override
}

var c19 = PropDef{ID: "C19",
	Rule: "a generated project whose classes derive from classes of the same and other units, with members that hide inherited ones, accessors naming inherited members and properties overriding inherited ones; parents, member lookups, accessor targets and computed properties of every class are compared with the reference model, under 2 hash seeds; non-trivial when a class has an ancestor",
	Gen:  func(r *Rng) *Case { return semCase(r, classProj(r)) },
	Judge: func(e *Env, c *Case) *Verdict {
		fs := c.FS()
		p, rd := c.Projs[0], fs.R[0]
		if !rd.Valid {
			return trivial
		}
		derived := 0
		for i := range c.Boots {
			s := c.Clean(fs)
			s.Boot, s.RandSeed, s.SchedSeed = c.Boots[i], c.Rands[i], c.Sched.Seed+uint64(i)
			s.Extract = true
			o, ok := lone(e.Exec(s, false))
			if !ok {
				return trivial
			}
			if o.Class != "ok" {
				q := &Case{Projs: []*Proj{neutral(p)}, Boots: c.Boots, Rands: c.Rands}
				w, ok := lone(e.Exec(q.Clean(q.FS()), false))
				if ok && w.Class == "ok" {
					return bad("rejected", "the project parses when its references are taken out, but with them: %s", show(o))
				}
				return trivial
			}
			got := map[string]*scen.Class{}
			props := map[string]*scen.Property{}
			for k := range o.Ext.Classes {
				x := &o.Ext.Classes[k]
				got[x.At] = x
				for j := range x.Props {
					props[x.Props[j].At] = &x.Props[j]
				}
			}
			at := func(mod, off int) string { return fmt.Sprint(p.Mods[mod].Path, "#", off) }
			loaded := map[int]bool{0: true}
			for _, u := range p.usedUnits(p.Mods[0].Uses) {
				loaded[u] = true
			}
			for _, ci := range rd.classList() {
				if !loaded[ci.Mod] {
					continue
				}
				w := at(ci.Mod, ci.Off)
				g := got[w]
				if g == nil {
					return bad("lost", "no class in the tree for %s", describe(p, rd, w))
				}
				parent, known := rd.parentOf(ci)
				if known {
					want := ""
					if parent != nil {
						derived++
						want = at(parent.Mod, parent.Off)
					}
					if g.Parent != want {
						return bad("parent", "the parent of %s is %s, must be %s", describe(p, rd, w), describe(p, rd, g.Parent), describe(p, rd, want))
					}
				}
				for _, n := range memberProbes {
					for v := 0; v < 3; v++ {
						want := ""
						var known bool
						if v < 2 {
							x, m, k := rd.member(ci, n, v == 0)
							known = k
							if m != nil {
								want = at(x.Mod, m.Off)
							}
						} else {
							x := ci
							for known = true; known && x != nil; {
								if q := x.prop(n); q != nil {
									want = at(x.Mod, q.Off)
									break
								}
								x, known = rd.parentOf(x)
							}
						}
						if f := g.Find[n][v]; known && f != want {
							return bad("member", "%s: looking up %s (%s) gives %s, must be %s", describe(p, rd, w), n, []string{"FindMemberDecl with private members", "FindMemberDecl", "FindProperty"}[v], describe(p, rd, f), describe(p, rd, want))
						}
					}
				}
				for k := range ci.Props {
					pr := &ci.Props[k]
					pw := at(ci.Mod, pr.Off)
					gp := props[pw]
					if gp == nil {
						return bad("lost", "no property in the tree for %s", describe(p, rd, pw))
					}
					for kw, to := range pr.Want {
						if want := at(to[0], to[1]); gp.To[kw] != want {
							return bad("accessor", "%s: %s %s is %s, must be %s", describe(p, rd, pw), kw, pr.Names[kw], describe(p, rd, gp.To[kw]), describe(p, rd, want))
						}
					}
					for _, sp := range specNames {
						if (gp.Own[sp] != "") != pr.Has[sp] {
							return bad("specifier", "%s: specifier %s: in the tree %v, in the text %v", describe(p, rd, pw), sp, gp.Own[sp] != "", pr.Has[sp])
						}
						x, q, known := specOwner(rd, ci, pr.Name, sp)
						if !known || !typedRoot(rd, ci, pr.Name) {
							continue
						}
						want, from := "", "no class"
						if q != nil {
							from = describe(p, rd, at(x.Mod, q.Off))
							if y := props[at(x.Mod, q.Off)]; y != nil {
								want = y.Own[sp]
							}
						}
						if gp.Comp[sp] != want {
							return bad("computed", "%s: the computed %s is %q, must be %q of %s", describe(p, rd, pw), sp, gp.Comp[sp], want, from)
						}
					}
				}
			}
		}
		if derived == 0 {
			return trivial
		}
		return held
	}}

var memberProbes = strings.Fields("fa fq f1 f2 f3 f4 f5 f6 f1x f2x f3x f4x f5x f6x g1 g2 g3 g4 g5 g6 g7 g8 g9 pz1 pz2 pz3 pw4 pw5 pw6 nomember")

// typedRoot says whether the property is declared with a type in the chain.
func typedRoot(rd *Rendered, c *ClassInfo, name string) bool {
	for n := 0; c != nil && n < 100; n++ {
		if p := c.prop(name); p != nil && p.Has["type"] {
			return true
		}
		x, known := rd.parentOf(c)
		if !known {
			return false
		}
		c = x
	}
	return false
}

// classList is ordered by place.
func (r *Rendered) classList() []*ClassInfo {
	l := []*ClassInfo{}
	for _, c := range r.Classes {
		l = append(l, c)
	}
	for i := range l {
		for j := i + 1; j < len(l); j++ {
			if l[j].Mod < l[i].Mod || l[j].Mod == l[i].Mod && l[j].Off < l[i].Off {
				l[i], l[j] = l[j], l[i]
			}
		}
	}
	return l
}
