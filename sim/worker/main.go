// Command worker runs one scenario inside the simulator and prints what happened.
package main

import (
	"encoding/json"
	"errors"
	"fmt"
	"io/ioutil"
	"os"
	"runtime"
	"runtime/debug"
	"sync"
	"syscall"
	"time"

	"github.com/akm/tparser/log"
	"github.com/akm/tparser/parser"
	"vdst/scen"
)

var (
	sc       scen.Scenario
	res      scen.Result
	slots    []*parser.Program
	errSlots []error
	nslot    int
	nodes    [][]*runtime.VerifInode
)

// finish leaves the simulation and reports.
func finish() {
	res.Steps = runtime.VerifStepCount()
	res.SimNanos = runtime.VerifSimNanos()
	res.OpenFds = runtime.VerifOpenFds()
	runtime.VerifStop()
	res.Switches = runtime.VerifSwitches
	res.SwHash = runtime.VerifSwHash
	res.Ops = runtime.VerifOps
	res.MaxOpen = runtime.VerifMaxOpen
	res.BadClose = runtime.VerifBadClose
	res.RandN = runtime.VerifRandN
	res.Lost = runtime.VerifLost
	res.StdWrites = runtime.VerifNStdW
	res.StdFaults = runtime.VerifNStdF
	res.FaultReads = runtime.VerifNFault
	res.Stalls = runtime.VerifNStall
	for i := 0; i < runtime.VerifNTrap; i++ {
		res.Traps = append(res.Traps, runtime.VerifTraps[i])
	}
	for i := 0; i < runtime.VerifNEv; i++ {
		e := &runtime.VerifEvs[i]
		if e.Late && e.Kind != runtime.VerifEvReplace {
			res.LateOps++
		}
		if e.Kind == runtime.VerifEvOpen {
			res.Opens = append(res.Opens, scen.Open{Ent: e.Ent, Ver: e.Ver, Flags: e.Arg, Path: e.Path, Ret: e.Ret, G: e.Goid})
		}
		if sc.Events {
			res.Events = append(res.Events, scen.Ev{K: e.Kind, Ent: e.Ent, Fd: e.Fd, Ver: e.Ver, Ret: e.Ret, Arg: e.Arg, Step: e.Step, G: e.Goid, Path: e.Path, Late: e.Late})
		}
	}
	nc := len(runtime.VerifCov)
	for nc > 0 && runtime.VerifCov[nc-1] == 0 {
		nc--
	}
	res.Cov = append(res.Cov, runtime.VerifCov[:nc]...)
	res.NTrace = runtime.VerifNTrace
	n := runtime.VerifNTrace
	for i := 0; i < n; i++ {
		t := &runtime.VerifTrace[i]
		res.Trace = append(res.Trace, scen.Tr{Step: t.Step, Kind: t.Kind, N: t.N, Pick: t.Pick})
	}
	out, err := json.Marshal(&res)
	if err != nil {
		panic(err)
	}
	os.Stdout.Write(out)
	os.Exit(0)
}

func budget() {
	res.Budget = true
	finish()
}

func fail(err error) {
	fmt.Fprintln(os.Stderr, "worker:", err)
	os.Exit(3)
}

func main() {
	debug.SetGCPercent(-1)
	debug.SetMemoryLimit(600 << 20)
	debug.SetMaxStack(128 << 20)
	raw, err := ioutil.ReadAll(os.Stdin)
	if err != nil {
		fail(err)
	}
	if err := json.Unmarshal(raw, &sc); err != nil {
		fail(err)
	}
	cfg := runtime.VerifConfig{
		RandSeed: sc.RandSeed, Budget: sc.Budget, BudgetFn: budget, Every: sc.Every,
		SchedSeed: sc.SchedSeed, Picks: sc.Picks, BlockRand: sc.BlockRand,
		FdLimit: sc.FdLimit, StdErr: sc.StdErr, StdErrRst: sc.StdErrRst,
	}
	for _, p := range sc.Pre {
		cfg.Pre = append(cfg.Pre, runtime.VerifPre{Step: p.Step, Pick: p.Pick})
	}
	for _, f := range sc.Files {
		vs := []*runtime.VerifInode{}
		for i, v := range f.Versions {
			vs = append(vs, &runtime.VerifInode{Ver: int32(i), Data: v.Data, Reads: v.Reads, Rest: v.Rest, StatSize: v.StatSize - 1,
				FstatErr: v.FstatErr, CloseErr: v.CloseErr, Latency: v.Latency})
		}
		nodes = append(nodes, vs)
		e := runtime.VerifEnt{Path: runtime.VerifClean(f.Path), Opens: f.Opens, StallAt: f.StallAt, StallN: f.StallN, StallNs: f.StallNs, StallReads: f.StallReads}
		if len(vs) > 0 {
			e.Node = vs[0]
		}
		cfg.Ents = append(cfg.Ents, e)
	}
	for _, r := range sc.Repl {
		cfg.Repl = append(cfg.Repl, runtime.VerifRepl{Step: r.Step, Op: r.Op, Ent: int32(r.File), Node: nodes[r.File][r.Ver]})
	}
	for _, ops := range append([]scen.Task{{Ops: sc.Setup}, {Ops: sc.Final}}, sc.Tasks...) {
		for _, o := range ops.Ops {
			if o.Kind != "replace" && o.Kind != "put" && o.Slot >= nslot {
				nslot = o.Slot + 1
			}
		}
	}
	slots = make([]*parser.Program, nslot)
	errSlots = make([]error, nslot)
	res.Setup = make([]scen.OpRes, len(sc.Setup))
	res.Final = make([]scen.OpRes, len(sc.Final))
	res.Tasks = make([][]scen.OpRes, len(sc.Tasks))
	for i := range sc.Tasks {
		res.Tasks[i] = make([]scen.OpRes, len(sc.Tasks[i].Ops))
	}
	if sc.Logger != "default" {
		log.SetLogger(silent{})
	}
	if sc.Ident > 0 {
		identity(sc.Ident)
	}
	base := runtime.NumGoroutine()

	runtime.VerifStart(cfg)
	for i, o := range sc.Setup {
		do(o, &res.Setup[i])
	}
	runtime.VerifArm()
	if len(sc.Tasks) == 1 {
		for i, o := range sc.Tasks[0].Ops {
			do(o, &res.Tasks[0][i])
		}
	} else if len(sc.Tasks) > 1 {
		var wg sync.WaitGroup
		for k := range sc.Tasks {
			wg.Add(1)
			go func(k int) {
				defer wg.Done()
				for i, o := range sc.Tasks[k].Ops {
					do(o, &res.Tasks[k][i])
				}
			}(k)
		}
		wg.Wait()
	}
	for i, o := range sc.Final {
		do(o, &res.Final[i])
	}
	runtime.VerifSetLate(true)
	if runtime.NumGoroutine() > base {
		time.Sleep(1) // simulated: everything that can go on goes on until it waits or ends
	}
	res.Goroutines = runtime.NumGoroutine() - base
	if res.Goroutines > 0 {
		time.Sleep(time.Minute) // simulated
	}
	res.Done = true
	finish()
}

var ballast [][]*byte

// identity gives the process a heap layout and a time of its own: no outcome may depend on the
// addresses of objects or on the date.
func identity(seed uint64) {
	rnd := func(n uint64) uint64 {
		seed ^= seed << 13
		seed ^= seed >> 7
		seed ^= seed << 17
		return seed % n
	}
	seed = seed*2 + 0x9e3779b97f4a7c15
	runtime.VerifAdvance(int64(rnd(20*365*24*3600)) * 1e9)
	// the fewer holes, the sooner an object lies in another span than the one made before it
	drop := []uint64{1, 4, 15, 30, 60, 80}[rnd(6)]
	all := make([][]*byte, 0, 12000)
	for i := 0; i < 12000; i++ {
		n := 1 + rnd(16)
		if i%8 == 0 {
			n = 1 + rnd(48)
		}
		all = append(all, make([]*byte, n))
	}
	for i := range all {
		if rnd(100) >= drop {
			ballast = append(ballast, all[i])
		}
	}
	all = nil
	runtime.GC()
}

func do(o scen.Op, r *scen.OpRes) {
	switch o.Kind {
	case "parse":
		parse(o, r)
	case "redump":
		if slots[o.Slot] == nil {
			r.Class = "none"
			if err := errSlots[o.Slot]; err != nil {
				r.Class, r.Err = "err", err.Error()
				r.Hash = hash("err " + r.Err)
			}
			return
		}
		r.Class = "ok"
		d := dump(slots[o.Slot], sc.Names)
		r.Hash = hash(d)
		if sc.Full {
			r.Dump = d
		}
	case "read":
		if slots[o.Slot] == nil {
			r.Class = "none"
			return
		}
		r.Class = "ok"
		d := readTree(slots[o.Slot], o.N, sc.Names)
		r.Hash = hash(d)
		if sc.Full {
			r.Dump = d
		}
	case "logger":
		pushLogger(o)
		r.Class = "ok"
	case "unlogger":
		popLogger(o.N)
		r.Class = "ok"
	case "replace": // Slot = file, N = version
		runtime.VerifReplaceNow(int32(o.Slot), nodes[o.Slot][o.N])
		r.Class = "ok"
	case "churn":
		churn(o, r)
	case "heap":
		var m runtime.MemStats
		for i := 0; i < 3; i++ {
			runtime.GC()
		}
		runtime.ReadMemStats(&m)
		r.Class, r.Allocs = "ok", m.HeapAlloc
	case "gc":
		runtime.GC()
		r.Class = "ok"
	case "sleep":
		time.Sleep(time.Duration(o.N)) // simulated
		r.Class = "ok"
	case "put": // Slot = file
		v := sc.Files[o.Slot].Versions[0]
		runtime.VerifReplaceNow(int32(o.Slot), &runtime.VerifInode{Data: o.Data, StatSize: -1, Reads: v.Reads, Rest: v.Rest})
		r.Class = "ok"
	case "logprobe":
		r.Class = "ok"
		r.Log = probe()
	default:
		r.Class = "unknown"
	}
}

var turn int

// churn parses N times and drops the results. Before each call every file gets a new content: the
// number of the call in its names (and with mode "paths" in the paths it mentions).
func churn(o scen.Op, r *scen.OpRes) {
	r.Class = "ok"
	for k := uint64(0); k < o.N; k++ {
		turn++
		num := fmt.Sprintf("%07d", turn)
		path := o.Path
		if o.Mode == "paths" {
			path = "x" + num + "/../" + path
		}
		for i := range sc.Files {
			f := &sc.Files[i]
			if len(f.Versions) == 0 || len(f.Marks)+len(f.Paths) == 0 {
				continue
			}
			src := f.Versions[0].Data
			out := make([]byte, 0, len(src)+8*len(f.Marks)+12*len(f.Paths))
			m, p := f.Marks, f.Paths
			for j := 0; j <= len(src); j++ {
				for len(m) > 0 && int(m[0]) == j {
					out = append(out, num...)
					m = m[1:]
				}
				if len(p) > 0 && int(p[0]) == j {
					if o.Mode == "paths" {
						out = append(append(append(out, 'x'), num...), "/../"...)
					}
					p = p[1:]
				}
				if j < len(src) {
					out = append(out, src[j])
				}
			}
			nodes[i][0].Data = out
		}
		prog, err, pan := call(path)
		switch {
		case pan != "":
			r.Count[2]++
		case err != nil:
			r.Count[1]++
		case prog != nil:
			r.Count[0]++
		}
		prog, err = nil, nil
		time.Sleep(1) // goroutines which are about to end, end
		runtime.VerifForget()
	}
}

func parse(o scen.Op, r *scen.OpRes) {
	var m0, m1 runtime.MemStats
	if sc.Mem {
		runtime.ReadMemStats(&m0)
	}
	s0 := runtime.VerifStepCount()
	r.Ev0 = runtime.VerifNEv
	if sc.Times {
		r.T0 = runtime.VerifSimNanos()
	}
	prog, err, pan := call(o.Path)
	r.Ev1 = runtime.VerifNEv
	if sc.Times {
		r.T1 = runtime.VerifSimNanos()
	}
	r.Fds = runtime.VerifOpenFds()
	r.Steps = runtime.VerifStepCount() - s0
	if sc.Mem {
		runtime.ReadMemStats(&m1)
		r.Allocs = m1.TotalAlloc - m0.TotalAlloc
	}
	if pan != "" {
		r.Class, r.Err = "panic", pan
		return
	}
	r.Prog = prog != nil
	if err != nil {
		r.Class = "err"
		r.Err = err.Error()
		var en syscall.Errno
		if errors.As(err, &en) {
			r.Errno = int(en)
		}
		var pe *os.PathError
		if errors.As(err, &pe) {
			r.ErrPath = pe.Path
		}
		r.Hash = hash("err " + r.Err)
		errSlots[o.Slot] = err
		if r.Prog {
			r.Hash += "+prog"
		}
		return
	}
	r.Class = "ok"
	if prog == nil {
		r.Class = "nil"
		return
	}
	slots[o.Slot] = prog
	if o.Mode == "nodump" {
		return
	}
	d := dump(prog, sc.Names)
	r.Hash = hash(d)
	if sc.Full {
		r.Dump = d
	}
	if sc.Extract {
		r.Ext = extract(prog, sc.Names)
	}
}

func call(path string) (prog *parser.Program, err error, pan string) {
	defer func() {
		if v := recover(); v != nil {
			pan = fmt.Sprint("panic: ", v, " ", where())
		}
	}()
	prog, err = parser.ParseProgram(path)
	return
}

// where names the innermost function of the code under test on the panicking stack.
func where() string {
	pcs := make([]uintptr, 64)
	n := runtime.Callers(3, pcs)
	fr := runtime.CallersFrames(pcs[:n])
	for {
		f, more := fr.Next()
		if len(f.Function) > 8 && f.Function[:8] != "runtime." {
			return f.Function
		}
		if !more {
			return ""
		}
	}
}
