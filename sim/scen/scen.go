// Package scen holds the types exchanged between the driver and the worker.
package scen

// Version is one content of a path with the way the kernel delivers it.
type Version struct {
	Data     []byte
	Reads    []int32 `json:",omitempty"` // successive reads: >0 at most so many bytes, <0 -errno, 0 full
	Rest     int32   `json:",omitempty"` // cap for the reads after those (0 full)
	StatSize int64   `json:",omitempty"` // reported size + 1; 0 = the true size
	FstatErr int32   `json:",omitempty"`
	CloseErr int32   `json:",omitempty"`
	Latency  int64   `json:",omitempty"` // ns of simulated time per read
}

type File struct {
	Path       string
	Versions   []Version // the first is current at the start; none: the file does not exist
	Opens      []int32   `json:",omitempty"` // successive opens: 0 ok, <0 -errno
	StallAt    int32     `json:",omitempty"` // the StallAt-th open or read and the StallN-1 after it
	StallN     int32     `json:",omitempty"` // take StallNs of simulated time each
	StallNs    int64     `json:",omitempty"`
	StallReads bool      `json:",omitempty"` // opens do not count
	Marks      []int32   `json:",omitempty"` // where "churn" writes its number into names
	Paths      []int32   `json:",omitempty"` // where it writes it into paths
}

// Repl replaces the content of a path atomically at a step or before a kernel operation.
type Repl struct {
	Step uint64 `json:",omitempty"`
	Op   uint64 `json:",omitempty"`
	File int
	Ver  int
}

type Pre struct {
	Step uint64
	Pick uint32
}

// Op kinds: "parse" (Path, result kept in Slot), "redump" (Slot), "read" (Slot, N = reader
// variant), "churn" (Path, N parses with dropped results, names and paths numbered), "heap" (live
// bytes after collections), "logger" (Mode), "unlogger", "put" (Slot = file, Data), "sleep" (N = ns), "gc", "gate" (wait until all tasks reached the gate).
type Op struct {
	Kind string
	Path string `json:",omitempty"`
	Slot int    `json:",omitempty"`
	Mode string `json:",omitempty"`
	N    uint64 `json:",omitempty"`
	Data []byte `json:",omitempty"`
}

type Task struct{ Ops []Op }

type Scenario struct {
	Boot      uint64
	RandSeed  uint64
	Ident     uint64 `json:",omitempty"` // heap layout and date of the process; 0 plain
	Budget    uint64
	PerByte   uint64   `json:",omitempty"`
	Pre       []Pre    `json:",omitempty"`
	Every     uint32   `json:",omitempty"`
	SchedSeed uint64   `json:",omitempty"`
	Picks     []uint32 `json:",omitempty"`
	BlockRand bool     `json:",omitempty"`
	Files     []File
	Repl      []Repl  `json:",omitempty"`
	FdLimit   int32   `json:",omitempty"`
	StdErr    []int32 `json:",omitempty"`
	StdErrRst int32   `json:",omitempty"`
	Logger    string  `json:",omitempty"` // "" = silent, "default" = the shipped logger
	Setup     []Op    `json:",omitempty"` // run alone before the tasks
	Tasks     []Task
	Final     []Op     `json:",omitempty"` // run alone after the tasks
	Names     []string `json:",omitempty"` // names to look up in declaration maps
	Full      bool     `json:",omitempty"` // return full dumps
	Extract   bool     `json:",omitempty"` // return references and links
	Events    bool     `json:",omitempty"`
	Times     bool     `json:",omitempty"` // record the simulated time of calls
	Mem       bool     `json:",omitempty"` // measure allocated bytes
}

type OpRes struct {
	Class   string // ok, err, panic
	Err     string `json:",omitempty"`
	Errno   int    `json:",omitempty"` // wrapped system error
	ErrPath string `json:",omitempty"` // path in the wrapped *os.PathError
	Prog    bool   `json:",omitempty"` // a non-nil program was returned
	Hash    string `json:",omitempty"`
	Dump    string `json:",omitempty"`
	Steps   uint64 `json:",omitempty"`
	Allocs  uint64 `json:",omitempty"`
	T0      int64  `json:",omitempty"` // simulated time of the call
	T1      int64  `json:",omitempty"`
	Count   [3]int `json:",omitzero"`  // churn: results, errors, panics
	Fds     int32  `json:",omitempty"` // descriptors open when the call returned
	Ev0     int    `json:",omitempty"` // events [Ev0,Ev1)
	Ev1     int    `json:",omitempty"`
	Log     string `json:",omitempty"`
	Ext     *Ext   `json:",omitempty"`
}

type Ref struct {
	Mod   string // module path in which the reference stands
	Index int    // rune offset of the identifier
	Name  string
	Kind  string // ident, type, qual (namespace part)
	To    string // module path + "#" + rune offset, "embedded:NAME", "" when unresolved
	Node  string // type of the declaring node
}

type Link struct {
	Mod, Section, Name string
	Unit               int // index in Units, -1 nil, -2 a unit not in the list
}

type UnitInfo struct {
	Name, Path string
	Decls      map[string]string // probed name -> target
}

// Class is what a class type of the tree answers.
type Class struct {
	At     string // module path + "#" + rune offset of the declared name
	Parent string
	Find   map[string][3]string // FindMemberDecl with and without private members, FindProperty
	Props  []Property
}

type Property struct {
	At, Name string
	Own      map[string]string // the specifiers it gives
	Comp     map[string]string // the specifiers of the computed property
	To       map[string]string // the members its specifiers refer to
}

type Ext struct {
	Classes []Class `json:",omitempty"`
	Prog    string
	Units   []UnitInfo
	Links   []Link
	Refs    []Ref
}

type Ev struct {
	K    int32
	Ent  int32
	Fd   int32
	Ver  int32
	Ret  int64
	Arg  int64
	Step uint64
	G    uint64
	Path string `json:",omitempty"`
	Late bool   `json:",omitempty"`
}

type Tr struct {
	Step uint64
	Kind int32
	N    int32
	Pick int32
}

type Result struct {
	Done       bool
	Budget     bool
	Setup      []OpRes
	Tasks      [][]OpRes
	Final      []OpRes
	Steps      uint64
	SimNanos   int64
	Switches   uint64
	SwHash     uint64
	Ops        uint64
	OpenFds    int32
	MaxOpen    int32
	BadClose   int32
	Traps      []uint32 `json:",omitempty"`
	Goroutines int
	Lost       bool `json:",omitempty"` // the record of system calls is not complete
	RandN      uint64
	StdWrites  int
	StdFaults  int
	LateOps    int
	Stalls     int  `json:",omitempty"`
	Events     []Ev `json:",omitempty"`
	Trace      []Tr `json:",omitempty"`
	NTrace     int
	FaultReads int // reads that returned an injected error or short count
	Opens      []Open
	Cov        []byte // bit per yield point reached
}

// Open is one open call on a file of the project.
type Open struct {
	Ent   int32
	Ver   int32
	Flags int64
	Path  string
	Ret   int64
	G     uint64
}
