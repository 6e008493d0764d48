// Package vos stands in for the standard streams and process exit of a
// command under simulation.  The simulated command runs as one process per
// run; the plan (input bytes, fragmentation, faults, schedule seed) arrives in
// a file named by VERIF_CLI_PLAN and everything the command writes is appended
// to a file at once, so that any way of exiting leaves an exact record.
package vos

import (
	"encoding/json"
	"errors"
	"fmt"
	"io"
	iofs "io/fs"
	"os"
	"syscall"
	"time"
	"unsafe"

	"verif.local/sim/dst"
	"verif.local/sim/vsync"
)

// Plan of one run of the command.
type Plan struct {
	Args      []string
	StdinFile string
	OutFile   string
	StatFile  string
	Seed      uint64
	Strategy  int

	InMode        int
	InK           int
	InEOFWithData bool
	InErrAt       int // -1: none
	InErrWithData bool
	InStall       int

	OutFailAt   int // -1: none
	OutErr      string
	OutPartial  bool   // the failing write accepts the bytes that fit
	OutSyncErr  string // "", "EINVAL", "EIO", "ENOTSUP"
	OutCloseErr bool
	OutStall    int

	FileCloseErr string // closing a file written fails with this
}

// Stat is what the stand-ins observed.
type Stat struct {
	Counters
	Deadlock string
	Panic    string
	Fuel     string
}

// Counters live in a mapped file, so that they are exact whichever way the
// command ends.
type Counters struct {
	StdinEOF   bool
	StdinErr   bool
	OutFailed  bool
	SyncFailed bool
	FileFailed bool
	StdinBytes int
	OutBytes   int
	AfterFail  int
	Calls      int
	Picks      int    // scheduling decisions
	Sched      uint64 // their hash
}

// ReadStat reads what a run of the command left behind.
func ReadStat(file string) (Stat, error) {
	var s Stat
	b, err := os.ReadFile(file)
	if err != nil {
		return s, err
	}
	if len(b) != countersSize {
		return s, errors.New("no counters")
	}
	s.Counters = *(*Counters)(unsafe.Pointer(&b[0]))
	if b, err := os.ReadFile(file + ".end"); err == nil {
		var e [3]string
		if err := json.Unmarshal(b, &e); err != nil {
			return s, err
		}
		s.Deadlock, s.Panic, s.Fuel = e[0], e[1], e[2]
	}
	return s, nil
}

const countersSize = 4096

func mapCounters(file string) error {
	f, err := os.OpenFile(file, os.O_RDWR|os.O_CREATE|os.O_TRUNC, 0o600)
	if err != nil {
		return err
	}
	defer f.Close()
	if err := f.Truncate(countersSize); err != nil {
		return err
	}
	m, err := syscall.Mmap(int(f.Fd()), 0, countersSize, syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_SHARED)
	if err != nil {
		return err
	}
	stat = (*Counters)(unsafe.Pointer(&m[0]))
	return nil
}

var (
	plan  Plan
	stat  *Counters
	end   [3]string // deadlock, panic, out of fuel
	input []byte
	inPos int
	inEnd error
	outF  *os.File
	rng   *dst.RNG
	simOn bool
)

// File stands in for *os.File on the standard streams.
type File struct {
	fd   int
	name string
	real *os.File // of a file other than the standard streams
	out  bool     // opened for writing
}

// OpenFile opens a real file.
func OpenFile(name string, flag int, perm os.FileMode) (*File, error) {
	f, err := os.OpenFile(name, flag, perm)
	if err != nil {
		return nil, err
	}
	return &File{-1, name, f, flag&(os.O_WRONLY|os.O_RDWR) != 0}, nil
}

// Open opens a real file.
func Open(name string) (*File, error) { return OpenFile(name, os.O_RDONLY, 0) }

// Create creates a real file.
func Create(name string) (*File, error) {
	return OpenFile(name, os.O_RDWR|os.O_CREATE|os.O_TRUNC, 0o666)
}

// Stdin and Stdout of the simulated process.
var (
	Stdin  = &File{0, "/dev/stdin", nil, false}
	Stdout = &File{1, "/dev/stdout", nil, true}
)

func errOf(name string) error {
	switch name {
	case "EINVAL":
		return syscall.EINVAL
	case "EIO":
		return syscall.EIO
	case "ENOSPC":
		return syscall.ENOSPC
	case "EPIPE":
		return syscall.EPIPE
	case "ENOTSUP":
		return syscall.ENOTSUP
	}
	return errors.New(name)
}

func save() {
	b, _ := json.Marshal(end)
	_ = os.WriteFile(plan.StatFile+".end", b, 0o600)
}

// Name of the file.
func (f *File) Name() string { return f.name }

// Fd of the file.
func (f *File) Fd() uintptr { return uintptr(f.fd) }

// Stat of the file.
func (f *File) Stat() (iofs.FileInfo, error) {
	if f.real != nil {
		return f.real.Stat()
	}
	return nil, &iofs.PathError{Op: "stat", Path: f.name, Err: syscall.EINVAL}
}

// Seek is not possible on a pipe.
func (f *File) Seek(off int64, whence int) (int64, error) {
	if f.real != nil {
		return f.real.Seek(off, whence)
	}
	return 0, &iofs.PathError{Op: "seek", Path: f.name, Err: syscall.ESPIPE}
}

// Read implements io.Reader.
func (f *File) Read(p []byte) (int, error) {
	if f.real != nil {
		return f.real.Read(p)
	}
	if f.fd != 0 {
		return 0, &iofs.PathError{Op: "read", Path: f.name, Err: syscall.EBADF}
	}
	vsync.Yield("stdin")
	stat.Calls++
	if len(p) == 0 {
		return 0, nil
	}
	if plan.InStall > 0 && rng.N(plan.InStall) == 0 {
		vsync.Sleep(time.Duration(1+rng.N(500)) * time.Millisecond)
	}
	if inEnd != nil {
		return 0, inEnd
	}
	limit := len(input)
	fail := plan.InErrAt >= 0 && plan.InErrAt <= limit
	if fail {
		limit = plan.InErrAt
	}
	want := len(p)
	switch plan.InMode {
	case 1:
		want = 1
	case 2:
		want = plan.InK
	case 3:
		want = 1 + rng.N(plan.InK)
	}
	if want > len(p) {
		want = len(p)
	}
	if want > limit-inPos {
		want = limit - inPos
	}
	n := copy(p[:want], input[inPos:])
	inPos += n
	stat.StdinBytes += n
	var err error
	if inPos >= limit {
		if fail && (n == 0 || plan.InErrWithData) {
			err = &iofs.PathError{Op: "read", Path: f.name, Err: syscall.EIO}
			stat.StdinErr = true
		} else if !fail && (n == 0 || plan.InEOFWithData) {
			err = io.EOF
			stat.StdinEOF = true
		}
		inEnd = err
	}
	return n, err
}

// Write implements io.Writer.
func (f *File) Write(p []byte) (int, error) {
	if f.real != nil {
		return f.real.Write(p)
	}
	if f.fd != 1 {
		return 0, &iofs.PathError{Op: "write", Path: f.name, Err: syscall.EBADF}
	}
	vsync.Yield("stdout")
	stat.Calls++
	if plan.OutStall > 0 && rng.N(plan.OutStall) == 0 {
		vsync.Sleep(time.Duration(1+rng.N(500)) * time.Millisecond)
	}
	n := len(p)
	var err error
	if stat.OutFailed {
		stat.AfterFail++
		n, err = 0, &iofs.PathError{Op: "write", Path: f.name, Err: errOf(plan.OutErr)}
	} else if plan.OutFailAt >= 0 && stat.OutBytes+len(p) > plan.OutFailAt {
		n = 0
		if plan.OutPartial {
			n = plan.OutFailAt - stat.OutBytes
		}
		err = &iofs.PathError{Op: "write", Path: f.name, Err: errOf(plan.OutErr)}
		stat.OutFailed = true
	}
	if n > 0 {
		if _, e := outF.Write(p[:n]); e != nil {
			fmt.Fprintln(os.Stderr, "vos:", e)
			os.Exit(98)
		}
		stat.OutBytes += n
	}
	return n, err
}

// WriteString implements io.StringWriter.
func (f *File) WriteString(s string) (int, error) { return f.Write([]byte(s)) }

// Sync implements syncing writers.
func (f *File) Sync() error {
	if f.real != nil {
		return f.real.Sync()
	}
	vsync.Yield("sync")
	stat.Calls++
	if stat.OutFailed {
		return &iofs.PathError{Op: "sync", Path: f.name, Err: errOf(plan.OutErr)}
	}
	if plan.OutSyncErr != "" {
		if plan.OutSyncErr != "EINVAL" {
			stat.SyncFailed = true
		}
		return &iofs.PathError{Op: "sync", Path: f.name, Err: errOf(plan.OutSyncErr)}
	}
	return nil
}

// Close closes the stream.
func (f *File) Close() error {
	if f.real != nil {
		err := f.real.Close()
		if err == nil && f.out && plan.FileCloseErr != "" {
			stat.FileFailed = true
			err = &iofs.PathError{Op: "close", Path: f.name, Err: errOf(plan.FileCloseErr)}
		}
		return err
	}
	vsync.Yield("close")
	return nil
}

// Exit replaces os.Exit.
func Exit(code int) {
	os.Exit(code)
}

type chooser struct {
	rng     *dst.RNG
	strat   int
	preempt int
}

func (c *chooser) Pick(n int, opts []int) int {
	k := c.pick(n)
	stat.Picks++
	stat.Sched = (stat.Sched ^ uint64(n)<<16 ^ uint64(k)) * 1099511628211
	return k
}

func (c *chooser) pick(n int) int {
	switch c.strat {
	case 0:
		return 0
	case 1:
		return c.rng.N(n)
	case 2:
		if c.rng.N(20) == 0 {
			return c.rng.N(n)
		}
		return 0
	}
	return n - 1
}

func (c *chooser) NextPreempt() uint64 {
	if c.preempt == 0 {
		return 0
	}
	return uint64(1 + c.rng.N(c.preempt))
}

// Main runs the command's main function under the simulator.
func Main(main func()) {
	path := os.Getenv("VERIF_CLI_PLAN")
	b, err := os.ReadFile(path)
	if err == nil {
		err = json.Unmarshal(b, &plan)
	}
	if err == nil {
		input, err = os.ReadFile(plan.StdinFile)
	}
	if err == nil {
		outF, err = os.OpenFile(plan.OutFile, os.O_WRONLY|os.O_CREATE|os.O_TRUNC, 0o600)
	}
	if err == nil {
		err = mapCounters(plan.StatFile)
	}
	if err != nil {
		fmt.Fprintln(os.Stderr, "vos:", err)
		os.Exit(98)
	}
	rng = dst.NewRNG(plan.Seed)
	os.Args = append([]string{"gzip"}, plan.Args...)
	ch := &chooser{rng: dst.NewRNG(plan.Seed + 1), strat: plan.Strategy % 4}
	if plan.Strategy >= 4 {
		ch.preempt = 200
	}
	res := vsync.Run(vsync.Config{Chooser: ch, MaxSteps: 2_000_000_000, MaxYield: 5_000_000}, func() {
		main()
		os.Exit(0)
	})
	switch {
	case res.Panic != nil:
		end[1] = fmt.Sprint(res.Panic.Value)
		save()
		fmt.Fprintf(os.Stderr, "panic: %v\n%s\n", res.Panic.Value, res.Panic.Stack)
		os.Exit(2)
	case res.OutOfFuel != "":
		end[2] = res.OutOfFuel
		save()
		os.Exit(97)
	case res.Deadlock != "":
		end[0] = res.Deadlock
		save()
		fmt.Fprintln(os.Stderr, "fatal error: all goroutines are asleep - deadlock!")
		os.Exit(2)
	}
	os.Exit(0)
}
