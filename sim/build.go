package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
	"sync"
)

// Builder produces the worker binary: the real parser code of the working tree, with a yield
// point before every statement, linked against a standard library whose scheduler, map
// randomness, clock and system calls are decided by the simulator.
type Builder struct {
	Repo, Verif string
	Dir         string // scratch directory of this run
	Goroot      string
	Env         []string
	Packages    []string // instrumented packages
	Points      int      // yield points inserted
	Where       []string // file:line of each yield point; 0 is not one
}

type patch struct{ file, old, new string }

func sysHead(name string, sig string, body string) patch {
	return patch{"syscall/zsyscall_linux_amd64.go", "func " + name + sig + " {\n", "func " + name + sig + " {\n\tif runtime.VerifActive() {\n" + body + "\t}\n"}
}

const statFill = "\t\t*stat = Stat_t{}\n\t\tif dir {\n\t\t\tstat.Mode = S_IFDIR | 0555\n\t\t} else {\n\t\t\tstat.Mode = S_IFREG | 0444\n\t\t}\n\t\tstat.Nlink = 1\n\t\tstat.Dev = 1\n\t\tstat.Ino = ino\n\t\tstat.Size = size\n\t\treturn nil\n"

func errRet(v string) string {
	return "\t\tif e != 0 {\n\t\t\treturn " + v + "errnoErr(Errno(e))\n\t\t}\n"
}

var stdPatches = []patch{
	// randomness: hash seeds from VERIFBOOT, map seeds and map iteration from the run's seed
	{"runtime/rand.go", "\tglobalRand.state.Init(*seed)\n\tclear(seed[:])\n",
		"\tverifB := verifBootSeed()\n\tfor i := 0; i < len(seed); i += 8 {\n\t\tbyteorder.BEPutUint64(seed[i:], verifMix(&verifB))\n\t}\n\tglobalRand.state.Init(*seed)\n\tclear(seed[:])\n"},
	{"runtime/rand.go", "\tmp := getg().m\n\tc := &mp.chacha8\n\tfor {\n",
		"\tmp := getg().m\n\tif verifOn && getg() == mp.curg {\n\t\treturn verifRand()\n\t}\n\tc := &mp.chacha8\n\tfor {\n"},
	// scheduling
	{"runtime/proc.go", "func runqget(pp *p) (gp *g, inheritTime bool) {\n", "func runqget(pp *p) (gp *g, inheritTime bool) {\n\tif verifOn {\n\t\treturn verifRunqget(pp), false\n\t}\n"},
	{"runtime/proc.go", "func runqput(pp *p, gp *g, next bool) {\n", "func runqput(pp *p, gp *g, next bool) {\n\tif verifOn {\n\t\tnext = false\n\t}\n"},
	{"runtime/proc.go", "\tif preempted && sched.gcwaiting.Load() {\n\t\t// If preempted for STW", "\tif verifOn && !sched.gcwaiting.Load() {\n\t\trunqput(pp, gp, false)\n\t} else if preempted && sched.gcwaiting.Load() {\n\t\t// If preempted for STW"},
	{"runtime/proc.go", "func preemptone(pp *p) bool {\n", "func preemptone(pp *p) bool {\n\tif verifOn && !sched.gcwaiting.Load() {\n\t\treturn false\n\t}\n"},
	{"runtime/select.go", "\t\tj := cheaprandn(uint32(norder + 1))\n", "\t\tj := cheaprandn(uint32(norder + 1))\n\t\tif verifOn {\n\t\t\tj = uint32(verifRand() % uint64(norder+1))\n\t\t}\n"},
	{"runtime/netpoll.go", "func poll_runtime_pollOpen(fd uintptr) (*pollDesc, int) {\n", "func poll_runtime_pollOpen(fd uintptr) (*pollDesc, int) {\n\tif verifOn {\n\t\treturn nil, verifEPERM\n\t}\n"},
	// clock: build tag faketime, without the playback framing of stdout and stderr
	{"runtime/time_fake.go", "\tif !(fd == 1 || fd == 2) {\n", "\tif true {\n"},
	{"syscall/syscall_unix.go", "\tif faketime && (fd == 1 || fd == 2) {\n", "\tif false && faketime && (fd == 1 || fd == 2) {\n"},
	// cgo (the race build) keeps an extra thread, which must not hide deadlocks and sleeping
	{"runtime/proc.go", "\tif !iscgo && cgoHasExtraM && extraMLength.Load() > 0 {\n\t\trun0 = 1\n", "\tif cgoHasExtraM && extraMLength.Load() > 0 {\n\t\trun0 = int32(extraMLength.Load())\n"},
	// the race detector must not see an ordering between all reads and all writes
	{"syscall/syscall_unix.go", "var ioSync int64", "var ioSync int64 // verif"},
	// simulated kernel
	{"syscall/zsyscall_linux_amd64.go", "import \"unsafe\"\n", "import (\n\t\"runtime\"\n\t\"unsafe\"\n)\n"},
	sysHead("openat", "(dirfd int, path string, flags int, mode uint32) (fd int, err error)", "\t\tn, e := runtime.VerifOpenat(dirfd, path, flags, mode)\n"+errRet("-1, ")+"\t\treturn n, nil\n"),
	sysHead("read", "(fd int, p []byte) (n int, err error)", "\t\tn, e := runtime.VerifRead(fd, p)\n"+errRet("-1, ")+"\t\treturn n, nil\n"),
	sysHead("pread", "(fd int, p []byte, offset int64) (n int, err error)", "\t\tn, e := runtime.VerifPread(fd, p, offset)\n"+errRet("-1, ")+"\t\treturn n, nil\n"),
	sysHead("write", "(fd int, p []byte) (n int, err error)", "\t\tn, e := runtime.VerifWrite(fd, p)\n"+errRet("-1, ")+"\t\treturn n, nil\n"),
	sysHead("pwrite", "(fd int, p []byte, offset int64) (n int, err error)", "\t\tn, e := runtime.VerifWrite(fd, p)\n"+errRet("-1, ")+"\t\treturn n, nil\n"),
	sysHead("Close", "(fd int) (err error)", "\t\te := runtime.VerifClose(fd)\n"+errRet("")+"\t\treturn nil\n"),
	sysHead("Fstat", "(fd int, stat *Stat_t) (err error)", "\t\tdir, size, ino, e := runtime.VerifFstat(fd)\n"+errRet("")+statFill),
	sysHead("fstatat", "(fd int, path string, stat *Stat_t, flags int) (err error)", "\t\tdir, size, ino, e := runtime.VerifStat(path)\n"+errRet("")+statFill),
	sysHead("Seek", "(fd int, offset int64, whence int) (off int64, err error)", "\t\tn, e := runtime.VerifSeek(fd, offset, whence)\n"+errRet("-1, ")+"\t\treturn n, nil\n"),
	sysHead("fcntl", "(fd int, cmd int, arg int) (val int, err error)", "\t\treturn 0, EPERM\n"),
	sysHead("faccessat", "(dirfd int, path string, mode uint32) (err error)", "\t\t_, _, _, e := runtime.VerifStat(path)\n"+errRet("")+"\t\treturn nil\n"),
	sysHead("faccessat2", "(dirfd int, path string, mode uint32, flags int) (err error)", "\t\t_, _, _, e := runtime.VerifStat(path)\n"+errRet("")+"\t\treturn nil\n"),
	sysHead("readlinkat", "(dirfd int, path string, buf []byte) (n int, err error)", "\t\t_, _, _, e := runtime.VerifStat(path)\n"+errRet("-1, ")+"\t\treturn -1, EINVAL\n"),
	sysHead("Getdents", "(fd int, buf []byte) (n int, err error)", "\t\truntime.VerifOther(\"getdents\")\n\t\treturn -1, EPERM\n"),
	sysHead("Getcwd", "(buf []byte) (n int, err error)", "\t\treturn copy(buf, \"/sim/work\\x00\"), nil\n"),
	{"syscall/syscall_linux.go", "\tvar errno uintptr\n\tr1, r2, errno = linux.Syscall6(trap, a1, a2, a3, a4, a5, a6)\n",
		"\tif e := runtime.VerifTrap(trap); e != 0 {\n\t\treturn ^uintptr(0), 0, Errno(e)\n\t}\n\tvar errno uintptr\n\tr1, r2, errno = linux.Syscall6(trap, a1, a2, a3, a4, a5, a6)\n"},
}

// raceOnly: sync.Pool hands objects between goroutines with happens-before edges that the
// program under test did not ask for; under the race detector it only allocates.
var racePatches = []patch{
	{"sync/pool.go", "func (p *Pool) Put(x any) {\n", "func (p *Pool) Put(x any) {\n\tif race.Enabled {\n\t\treturn\n\t}\n"},
	{"sync/pool.go", "func (p *Pool) Get() any {\n", "func (p *Pool) Get() any {\n\tif race.Enabled {\n\t\tif p.New != nil {\n\t\t\treturn p.New()\n\t\t}\n\t\treturn nil\n\t}\n"},
}

func NewBuilder(repo, verif, dir string) (*Builder, error) {
	b := &Builder{Repo: repo, Verif: verif, Dir: dir}
	cache := filepath.Join(verif, ".cache", "go-build")
	if err := os.MkdirAll(cache, 0755); err != nil {
		return nil, err
	}
	env := []string{}
	for _, e := range os.Environ() {
		if strings.HasPrefix(e, "GO") && !strings.HasPrefix(e, "GOROOT") || strings.HasPrefix(e, "VERIFBOOT") {
			continue
		}
		env = append(env, e)
	}
	b.Env = append(env, "GOCACHE="+cache, "GOTOOLCHAIN=local", "GOPROXY=off", "GOSUMDB=off", "GOFLAGS=-mod=readonly", "GOWORK=off",
		"GOMODCACHE=/root/go/pkg/mod", "CGO_ENABLED=1", "GOTELEMETRY=off")
	out, err := b.run(repo, "go", "env", "GOROOT")
	if err != nil {
		return nil, err
	}
	b.Goroot = strings.TrimSpace(out)
	return b, nil
}

func (b *Builder) run(dir string, name string, args ...string) (string, error) {
	cmd := exec.Command(name, args...)
	cmd.Dir = dir
	cmd.Env = b.Env
	var out, errb bytes.Buffer
	cmd.Stdout, cmd.Stderr = &out, &errb
	if err := cmd.Run(); err != nil {
		return "", fmt.Errorf("%s %s: %v\n%s", name, strings.Join(args, " "), err, tail(errb.String(), 4000))
	}
	return out.String(), nil
}

func tail(s string, n int) string {
	if len(s) > n {
		return s[len(s)-n:]
	}
	return s
}

// Prepare writes the overlay files and returns the overlay map.
func (b *Builder) Prepare() (string, error) {
	repl := map[string]string{}
	put := func(orig, name string, data []byte) error {
		p := filepath.Join(b.Dir, "src", name)
		if err := os.MkdirAll(filepath.Dir(p), 0755); err != nil {
			return err
		}
		if err := os.WriteFile(p, data, 0644); err != nil {
			return err
		}
		repl[orig] = p
		return nil
	}
	// standard library
	files := map[string]string{}
	for _, pt := range append(append([]patch{}, stdPatches...), racePatches...) {
		src, ok := files[pt.file]
		if !ok {
			raw, err := os.ReadFile(filepath.Join(b.Goroot, "src", pt.file))
			if err != nil {
				return "", err
			}
			src = string(raw)
		}
		if n := strings.Count(src, pt.old); n != 1 {
			return "", fmt.Errorf("std patch of %s: %q occurs %d times", pt.file, pt.old, n)
		}
		files[pt.file] = strings.Replace(src, pt.old, pt.new, 1)
	}
	su := files["syscall/syscall_unix.go"]
	for _, s := range []string{"\t\t\trace.Acquire(unsafe.Pointer(&ioSync))\n", "\t\trace.ReleaseMerge(unsafe.Pointer(&ioSync))\n"} {
		su = strings.ReplaceAll(su, s, "")
	}
	files["syscall/syscall_unix.go"] = su
	for f, src := range files {
		if err := put(filepath.Join(b.Goroot, "src", f), filepath.Join("std", f), []byte(src)); err != nil {
			return "", err
		}
	}
	core, err := os.ReadFile(filepath.Join(b.Verif, "sim", "overlay", "runtime_zz_verif.go.txt"))
	if err != nil {
		return "", err
	}
	if err := put(filepath.Join(b.Goroot, "src", "runtime", "zz_verif.go"), "std/runtime/zz_verif.go", core); err != nil {
		return "", err
	}
	// worker and shared types
	for _, d := range []string{"worker", "scen"} {
		ents, err := os.ReadDir(filepath.Join(b.Verif, "sim", d))
		if err != nil {
			return "", err
		}
		for _, e := range ents {
			if strings.HasSuffix(e.Name(), ".go") {
				data, err := os.ReadFile(filepath.Join(b.Verif, "sim", d, e.Name()))
				if err != nil {
					return "", err
				}
				data = bytes.Replace(data, []byte("\"vdst/scen\""), []byte("\"github.com/akm/tparser/zz_verifsim/scen\""), 1)
				if err := put(filepath.Join(b.Repo, "zz_verifsim", d, e.Name()), filepath.Join("sim", d, e.Name()), data); err != nil {
					return "", err
				}
			}
		}
	}
	// instrumented packages
	b.Where = []string{""}
	out, err := b.run(b.Repo, "go", "list", "-deps", "-f", "{{if not .Standard}}{{.ImportPath}}\t{{.Dir}}\t{{with .Module}}{{.Main}}{{end}}\t{{range .GoFiles}}{{.}} {{end}}{{end}}", "./parser")
	if err != nil {
		return "", err
	}
	for _, line := range strings.Split(out, "\n") {
		f := strings.Split(line, "\t")
		if len(f) < 4 || f[0] == "" {
			continue
		}
		if f[2] != "true" {
			continue
		}
		b.Packages = append(b.Packages, f[0])
		for _, name := range strings.Fields(f[3]) {
			p := filepath.Join(f[1], name)
			raw, err := os.ReadFile(p)
			if err != nil {
				return "", err
			}
			res, lines, err := instrument(p, raw, len(b.Where))
			if err != nil {
				return "", err
			}
			n := len(lines)
			b.Points += n
			for _, l := range lines {
				b.Where = append(b.Where, fmt.Sprintf("%s/%s:%d", filepath.Base(f[1]), name, l))
			}
			if n > 0 {
				if err := put(p, filepath.Join("inst", f[0], name), res); err != nil {
					return "", err
				}
			}
		}
	}
	if len(b.Where) > 1<<16 {
		return "", fmt.Errorf("too many yield points: %d", len(b.Where))
	}
	wh, _ := json.Marshal(b.Where)
	if err := os.WriteFile(filepath.Join(b.Dir, "points.json"), wh, 0644); err != nil {
		return "", err
	}
	sort.Strings(b.Packages)
	js, _ := json.Marshal(map[string]interface{}{"Replace": repl})
	ov := filepath.Join(b.Dir, "overlay.json")
	return ov, os.WriteFile(ov, js, 0644)
}

func (b *Builder) Build(race bool) (string, error) {
	ov := filepath.Join(b.Dir, "overlay.json")
	bin := filepath.Join(b.Dir, "worker")
	args := []string{"build", "-overlay", ov, "-tags", "faketime"}
	if race {
		bin += "_race"
		args = append(args, "-race")
	}
	args = append(args, "-o", bin, "./zz_verifsim/worker")
	_, err := b.run(b.Repo, "go", args...)
	return bin, err
}

func (b *Builder) BuildAll(race bool) (bin, raceBin string, err error) {
	if _, err = b.Prepare(); err != nil {
		return
	}
	var wg sync.WaitGroup
	var e2 error
	if race {
		wg.Add(1)
		go func() { defer wg.Done(); raceBin, e2 = b.Build(true) }()
	}
	bin, err = b.Build(false)
	wg.Wait()
	if err == nil {
		err = e2
	}
	return
}

// instrument inserts a yield point before every statement and at the head of every function
// and loop body, keeping line numbers.
func instrument(path string, src []byte, first int) ([]byte, []int, error) {
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, path, src, parser.ParseComments)
	if err != nil {
		return nil, nil, err
	}
	at := map[int]bool{}
	off := func(p token.Pos) int { return fset.Position(p).Offset }
	list := func(l []ast.Stmt) {
		for _, s := range l {
			if _, ok := s.(*ast.CaseClause); ok {
				continue
			}
			if _, ok := s.(*ast.CommClause); ok {
				continue
			}
			if _, ok := s.(*ast.EmptyStmt); ok {
				continue
			}
			at[off(s.Pos())] = true
		}
	}
	head := func(b *ast.BlockStmt) {
		if b != nil {
			at[off(b.Lbrace)+1] = true
		}
	}
	ast.Inspect(f, func(n ast.Node) bool {
		switch v := n.(type) {
		case *ast.BlockStmt:
			list(v.List)
		case *ast.CaseClause:
			list(v.Body)
		case *ast.CommClause:
			list(v.Body)
		case *ast.FuncDecl:
			head(v.Body)
		case *ast.FuncLit:
			head(v.Body)
		case *ast.ForStmt:
			head(v.Body)
		case *ast.RangeStmt:
			head(v.Body)
		}
		return true
	})
	if len(at) == 0 {
		return src, nil, nil
	}
	offs := []int{}
	for o := range at {
		offs = append(offs, o)
	}
	sort.Ints(offs)
	var out bytes.Buffer
	imp := off(f.Name.End())
	last := 0
	done := false
	lines := []int{}
	for _, o := range offs {
		if !done && o > imp {
			out.Write(src[last:imp])
			out.WriteString("; import verif__rt \"runtime\"")
			last = imp
			done = true
		}
		out.Write(src[last:o])
		fmt.Fprintf(&out, "verif__rt.VerifY(%d);", first+len(lines))
		lines = append(lines, fset.Position(f.FileStart+token.Pos(o)).Line)
		last = o
	}
	out.Write(src[last:])
	return out.Bytes(), lines, nil
}
