package main

import (
	"fmt"
	"runtime"
	"time"

	"github.com/akm/tparser/log"
	"github.com/akm/tparser/parser"
	"vdst/scen"
)

type silent struct{}

func (silent) Printf(format string, v ...interface{}) {}

type tagged struct {
	tag     string
	last    *string
	mode    string
	path    string
	every   uint64
	n       uint64
	busy    bool
	entered int
}

var lastTag string

func (l *tagged) Printf(format string, v ...interface{}) {
	*l.last = l.tag
	l.n++
	switch l.mode {
	case "format":
		_ = fmt.Sprintf(format, v...)
	case "slow":
		for i := 0; i < 3; i++ {
			runtime.Gosched()
		}
	case "sleep":
		if l.n%l.every == 0 {
			time.Sleep(time.Second)
		}
	case "reenter":
		if l.n%l.every == 0 && !l.busy && l.entered < 25 {
			l.entered++
			l.busy = true
			func() {
				defer func() { recover() }()
				parser.ParseProgram(l.path)
			}()
			l.busy = false
		}
	}
}

var restores, all []func()

func pushLogger(o scen.Op) {
	every := o.N
	if every == 0 {
		every = 7
	}
	var l log.LoggerIntf
	if o.Mode == "silent" {
		l = silent{}
	} else {
		l = &tagged{tag: fmt.Sprint("L", o.Slot), last: &lastTag, mode: o.Mode, path: o.Path, every: every}
	}
	f := log.SetLogger(l)
	restores = append(restores, f)
	all = append(all, f)
}

// popLogger calls the latest restoring function, or with which > 0 that of the which-th
// replacement, once more or out of turn.
func popLogger(which uint64) {
	if which > 0 {
		if int(which) <= len(all) {
			all[which-1]()
		}
		return
	}
	n := len(restores)
	if n == 0 {
		return
	}
	f := restores[n-1]
	restores = restores[:n-1]
	f()
}

// probe says which logger is installed.
func probe() string {
	lastTag = ""
	w := runtime.VerifNStdW
	log.Printf("probe %d", 1)
	if lastTag != "" {
		return lastTag
	}
	if runtime.VerifNStdW > w {
		return "default"
	}
	return "silent"
}
