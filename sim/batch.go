package main

import (
	"bytes"

	"vdst/scen"
)

// judgeBatch parses the project once per element of c.Batch, each time with the files damaged
// as the element says, all in one process. An element whose outcome looks wrong is judged again
// on its own in a process of its own; only that verdict counts, and the case becomes that
// element. (That a parse is independent of earlier ones is C08's concern.)
func judgeBatch(e *Env, c *Case, wrong func(o *scen.OpRes, el []Dmg) bool, single func(*Env, *Case) *Verdict) *Verdict {
	alone := func(el []Dmg) *Verdict {
		d := *c
		d.Batch, d.Dmg = nil, el
		v := single(e, &d)
		if v.Bad != "" {
			*c = d
		}
		return v
	}
	base := *c
	base.Batch, base.Dmg = nil, nil
	gs := base.FS()
	s := base.Clean(gs)
	s.Tasks = nil
	s.Budget = defaultBudget + uint64(len(c.Batch))*2_000_000
	var ops []scen.Op
	var at []int
	for _, el := range c.Batch {
		d := base
		d.Dmg = el
		var back []scen.Op
		for i, f := range d.FS().Files {
			if !bytes.Equal(f.Vers[0], gs.Files[i].Vers[0]) {
				ops = append(ops, scen.Op{Kind: "put", Slot: i, Data: f.Vers[0]})
				back = append(back, scen.Op{Kind: "put", Slot: i, Data: gs.Files[i].Vers[0]})
			}
		}
		at = append(at, len(ops))
		ops = append(ops, scen.Op{Kind: "parse", Path: c.Main(0), Mode: "nodump"})
		ops = append(ops, back...)
	}
	s.Tasks = []scen.Task{{Ops: ops}}
	run := e.exec(s, false)
	for _, el := range c.Batch {
		for _, d := range el {
			e.count("damage "+d.K, 1)
		}
	}
	e.count("parses in batches", int64(len(c.Batch)))
	if run.R == nil || run.R.Budget {
		for _, el := range c.Batch {
			if v := alone(el); v.Bad != "" {
				return v
			}
		}
		return trivial
	}
	for k, el := range c.Batch {
		if wrong(&run.R.Tasks[0][at[k]], el) {
			if v := alone(el); v.Bad != "" {
				return v
			}
		}
	}
	return held
}

// fewer says how many elements a batch over these files should have, n if they are small.
func fewer(n int, fs *FS) int {
	total := 0
	for _, f := range fs.Files {
		total += len(f.Vers[0])
	}
	if total > 16000 {
		n = max(6, n*16000/total)
	}
	return n
}
