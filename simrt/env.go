package simrt

import (
	"bytes"
	"context"
	"errors"
	"flag"
	"fmt"
	"io"
	"io/fs"
	"math/rand"
	"os"
	"runtime"
	"strings"
	"time"
)

// ---------------------------------------------------------------- math/rand

func prng() *rand.Rand {
	p := S.CurProc()
	if p == nil {
		panic("simrt: global math/rand used outside a simulated process")
	}
	return p.rng
}

// RandSeed replaces rand.Seed: the process's generator is re-seeded.
func RandSeed(seed int64) {
	p := S.CurProc()
	p.rng = rand.New(rand.NewSource(seed))
}

// RandNewSource replaces rand.NewSource.
func RandNewSource(seed int64) rand.Source {
	if S != nil {
		if p := S.CurProc(); p != nil {
			seed ^= p.SeedMix
		}
	}
	return rand.NewSource(seed)
}

func RandInt() int                        { return prng().Int() }
func RandIntn(n int) int                  { return prng().Intn(n) }
func RandInt31() int32                    { return prng().Int31() }
func RandInt31n(n int32) int32            { return prng().Int31n(n) }
func RandInt63() int64                    { return prng().Int63() }
func RandInt63n(n int64) int64            { return prng().Int63n(n) }
func RandUint32() uint32                  { return prng().Uint32() }
func RandUint64() uint64                  { return prng().Uint64() }
func RandFloat32() float32                { return prng().Float32() }
func RandFloat64() float64                { return prng().Float64() }
func RandNormFloat64() float64            { return prng().NormFloat64() }
func RandPerm(n int) []int                { return prng().Perm(n) }
func RandShuffle(n int, f func(i, j int)) { prng().Shuffle(n, f) }
func RandRead(b []byte) (int, error)      { return prng().Read(b) }

// RandExpFloat64 replaces rand.ExpFloat64. When the harness ends the load of a
// process the draw is stretched, so that the next arrival is far away.
func RandExpFloat64() float64 {
	v := prng().ExpFloat64()
	p := S.CurProc()
	if p.ExpHook != nil {
		return p.ExpHook(v)
	}
	if p.LoadStop {
		return 1e5 + v
	}
	return v
}

// CryptoReader replaces crypto/rand.Reader.
var CryptoReader io.Reader = cryptoReader{}

type cryptoReader struct{}

func (cryptoReader) Read(b []byte) (int, error) { return prng().Read(b) }

// ---------------------------------------------------------------- flag

type flagState struct{ fs *flag.FlagSet }

func fset() *flag.FlagSet {
	p := S.CurProc()
	if p.flags == nil {
		f := flag.NewFlagSet(p.Name, flag.ContinueOnError)
		f.SetOutput(io.Discard)
		p.flags = &flagState{f}
	}
	return p.flags.fs
}

func FlagBool(n string, v bool, u string) *bool          { return fset().Bool(n, v, u) }
func FlagInt(n string, v int, u string) *int             { return fset().Int(n, v, u) }
func FlagInt64(n string, v int64, u string) *int64       { return fset().Int64(n, v, u) }
func FlagUint(n string, v uint, u string) *uint          { return fset().Uint(n, v, u) }
func FlagUint64(n string, v uint64, u string) *uint64    { return fset().Uint64(n, v, u) }
func FlagFloat64(n string, v float64, u string) *float64 { return fset().Float64(n, v, u) }
func FlagString(n string, v string, u string) *string    { return fset().String(n, v, u) }
func FlagDuration(n string, v time.Duration, u string) *time.Duration {
	return fset().Duration(n, v, u)
}
func FlagBoolVar(p *bool, n string, v bool, u string)          { fset().BoolVar(p, n, v, u) }
func FlagIntVar(p *int, n string, v int, u string)             { fset().IntVar(p, n, v, u) }
func FlagInt64Var(p *int64, n string, v int64, u string)       { fset().Int64Var(p, n, v, u) }
func FlagUintVar(p *uint, n string, v uint, u string)          { fset().UintVar(p, n, v, u) }
func FlagUint64Var(p *uint64, n string, v uint64, u string)    { fset().Uint64Var(p, n, v, u) }
func FlagFloat64Var(p *float64, n string, v float64, u string) { fset().Float64Var(p, n, v, u) }
func FlagStringVar(p *string, n string, v string, u string)    { fset().StringVar(p, n, v, u) }
func FlagDurationVar(p *time.Duration, n string, v time.Duration, u string) {
	fset().DurationVar(p, n, v, u)
}
func FlagVar(v flag.Value, n string, u string)    { fset().Var(v, n, u) }
func FlagFunc(n, u string, fn func(string) error) { fset().Func(n, u, fn) }
func FlagVisitAll(fn func(*flag.Flag))            { fset().VisitAll(fn) }
func FlagVisit(fn func(*flag.Flag))               { fset().Visit(fn) }
func FlagArgs() []string                          { return fset().Args() }
func FlagArg(i int) string                        { return fset().Arg(i) }
func FlagNArg() int                               { return fset().NArg() }
func FlagNFlag() int                              { return fset().NFlag() }
func FlagLookup(n string) *flag.Flag              { return fset().Lookup(n) }
func FlagPrintDefaults()                          {}
func FlagUsage()                                  {}
func FlagParsed() bool                            { return fset().Parsed() }

// FlagParse replaces flag.Parse; a bad flag ends the process as it does for
// real.
func FlagParse() {
	if err := fset().Parse(S.CurProc().Args); err != nil {
		OsExit(2)
	}
}

// FlagSet replaces flag.FlagSet: with ExitOnError a bad command line ends the
// simulated process.
type FlagSet struct {
	*flag.FlagSet
	mode flag.ErrorHandling
}

// FlagNewFlagSet replaces flag.NewFlagSet.
func FlagNewFlagSet(name string, mode flag.ErrorHandling) *FlagSet {
	f := flag.NewFlagSet(name, flag.ContinueOnError)
	f.SetOutput(io.Discard)
	return &FlagSet{f, mode}
}

// Parse replaces (*flag.FlagSet).Parse.
func (f *FlagSet) Parse(args []string) error {
	err := f.FlagSet.Parse(args)
	if err == nil {
		return nil
	}
	switch f.mode {
	case flag.ExitOnError:
		if err == flag.ErrHelp {
			OsExit(0)
		}
		OsExit(2)
	case flag.PanicOnError:
		panic(err)
	}
	return err
}

// ---------------------------------------------------------------- log

func logLine(l string) {
	s := S
	if s == nil {
		return
	}
	p := s.CurProc()
	if p == nil {
		return
	}
	p.LogN++
	if s.OnLog != nil {
		s.OnLog(p, l)
	}
	p.logs = append(p.logs, l)
	if len(p.logs) > 64 {
		p.logs = append([]string{}, p.logs[32:]...)
	}
	if s.TraceOn {
		s.Tracef("%s log: %s", p.Name, strings.TrimSpace(l))
	}
}

// Logs returns the last log lines of p.
func (p *Proc) Logs() []string { return p.logs }

func LogPrintf(f string, a ...any) { logLine(fmt.Sprintf(f, a...)) }
func LogPrintln(a ...any)          { logLine(fmt.Sprintln(a...)) }
func LogPrint(a ...any)            { logLine(fmt.Sprint(a...)) }
func LogFatalf(f string, a ...any) { die("log.Fatal: "+fmt.Sprintf(f, a...), 1) }
func LogFatalln(a ...any)          { die("log.Fatal: "+fmt.Sprintln(a...), 1) }
func LogFatal(a ...any)            { die("log.Fatal: "+fmt.Sprint(a...), 1) }
func LogPanicf(f string, a ...any) { panic(fmt.Sprintf(f, a...)) }
func LogPanicln(a ...any)          { panic(fmt.Sprintln(a...)) }
func LogPanic(a ...any)            { panic(fmt.Sprint(a...)) }
func LogSetFlags(int)              {}
func LogSetPrefix(string)          {}
func LogSetOutput(io.Writer)       {}

// Logger replaces log.Logger.
type Logger struct{}

func LogNew(io.Writer, string, int) *Logger { return &Logger{} }
func LogDefault() *Logger                   { return &Logger{} }
func (*Logger) Printf(f string, a ...any)   { logLine(fmt.Sprintf(f, a...)) }
func (*Logger) Println(a ...any)            { logLine(fmt.Sprintln(a...)) }
func (*Logger) Print(a ...any)              { logLine(fmt.Sprint(a...)) }
func (*Logger) Fatalf(f string, a ...any)   { LogFatalf(f, a...) }
func (*Logger) Fatalln(a ...any)            { LogFatalln(a...) }
func (*Logger) Fatal(a ...any)              { LogFatal(a...) }
func (*Logger) Panicf(f string, a ...any)   { LogPanicf(f, a...) }
func (*Logger) Panicln(a ...any)            { LogPanicln(a...) }
func (*Logger) SetPrefix(string)            {}
func (*Logger) SetFlags(int)                {}
func (*Logger) SetOutput(io.Writer)         {}

// die ends the current process with the given status.
func die(msg string, code int) {
	s := S
	t := s.cur
	p := s.CurProc()
	p.Exited = true
	p.Code = code
	if code != 0 {
		c := &Crash{Msg: msg, Task: "main", At: s.now}
		if t != nil {
			c.Task = t.Name
		}
		if p.Crash == nil {
			p.Crash = c
		}
		if s.TraceOn {
			s.Tracef("EXIT proc %s: %s", p.Name, msg)
		}
		if s.OnCrash != nil {
			s.OnCrash(p, c)
		}
	}
	p.Dead = true
	for _, x := range p.tasks {
		x.doom = true
	}
	s.After(0, func() { s.reap(p) })
	panic(killToken{})
}

// ---------------------------------------------------------------- fmt / os

func curOut() io.Writer {
	if p := S.CurProc(); p != nil {
		return &p.Stdout
	}
	return io.Discard
}

func FmtPrintf(f string, a ...any) (int, error) { return fmt.Fprintf(curOut(), f, a...) }
func FmtPrintln(a ...any) (int, error)          { return fmt.Fprintln(curOut(), a...) }
func FmtPrint(a ...any) (int, error)            { return fmt.Fprint(curOut(), a...) }

// OsStdin replaces os.Stdin: it reads the process's Stdin.
var OsStdin stdin

type stdin struct{}

func (stdin) Read(b []byte) (int, error) {
	p := S.CurProc()
	if p == nil || p.Stdin == "" {
		return 0, io.EOF
	}
	n := copy(b, p.Stdin)
	p.Stdin = p.Stdin[n:]
	return n, nil
}
func (stdin) Close() error { return nil }

// one byte at a time, so that nothing is read ahead
type stdin1 struct{}

func (stdin1) Read(b []byte) (int, error) {
	if len(b) > 1 {
		b = b[:1]
	}
	return OsStdin.Read(b)
}

func FmtScanln(a ...any) (int, error)          { return fmt.Fscanln(stdin1{}, a...) }
func FmtScan(a ...any) (int, error)            { return fmt.Fscan(stdin1{}, a...) }
func FmtScanf(f string, a ...any) (int, error) { return fmt.Fscanf(stdin1{}, f, a...) }

type stdout struct{}

func (stdout) Write(b []byte) (int, error)       { return curOut().Write(b) }
func (stdout) WriteString(b string) (int, error) { return curOut().Write([]byte(b)) }
func (stdout) Close() error                      { return nil }
func (stdout) Sync() error                       { return nil }

// OsStdout replaces os.Stdout.
var OsStdout stdout

type stderr struct{}

func (stderr) Write(b []byte) (int, error)       { return len(b), nil }
func (stderr) WriteString(b string) (int, error) { return len(b), nil }

// OsStderr replaces os.Stderr.
var OsStderr stderr

// OsExit replaces os.Exit.
func OsExit(code int) { die(fmt.Sprintf("os.Exit(%d)", code), code) }

// OsArgs replaces os.Args.
func OsArgs() []string { p := S.CurProc(); return append([]string{p.Name}, p.Args...) }

// OsGetenv replaces os.Getenv.
func OsGetenv(k string) string { return S.CurProc().Env[k] }

// OsLookupEnv replaces os.LookupEnv.
func OsLookupEnv(k string) (string, bool) { v, ok := S.CurProc().Env[k]; return v, ok }

// OsUserHomeDir replaces os.UserHomeDir.
func OsUserHomeDir() (string, error) {
	if h := S.CurProc().Env["HOME"]; h != "" {
		return h, nil
	}
	return "", errors.New("$HOME is not defined")
}

// CtxDone replaces (context.Context).Done: the contexts of rewritten code are
// never cancelled.
func CtxDone(context.Context) *Chan[struct{}] { return nil }

// Disk is the state of a process's file system that faults act on.
type Disk struct {
	Quota    int  // bytes that can still be written, with Full
	Full     bool // quota applies
	NoCreate bool // files cannot be created
	NoRead   bool // files cannot be read
	BadClose bool // close reports a lost write
	Errs     int  // errors returned so far
}

var errNoSpace = errors.New("no space left on device")

func (p *Proc) disk() *Disk {
	if p.FS == nil {
		p.FS = &Disk{}
	}
	return p.FS
}

// OsRemove replaces os.Remove.
func OsRemove(name string) error {
	p := S.CurProc()
	if p.files[name] == nil {
		return &fs.PathError{Op: "remove", Path: name, Err: fs.ErrNotExist}
	}
	delete(p.files, name)
	return nil
}

// OsRename replaces os.Rename.
func OsRename(from, to string) error {
	p := S.CurProc()
	f := p.files[from]
	if f == nil {
		return &os.LinkError{Op: "rename", Old: from, New: to, Err: fs.ErrNotExist}
	}
	delete(p.files, from)
	f.Name = to
	p.files[to] = f
	return nil
}

func OsMkdirAll(string, os.FileMode) error { return nil }
func OsMkdir(string, os.FileMode) error    { return nil }

// OsStat replaces os.Stat.
func OsStat(name string) (os.FileInfo, error) {
	f := S.CurProc().files[name]
	if f == nil {
		return nil, &fs.PathError{Op: "stat", Path: name, Err: fs.ErrNotExist}
	}
	return memInfo{f}, nil
}

type memInfo struct{ f *MemFile }

func (i memInfo) Name() string       { return i.f.Name }
func (i memInfo) Size() int64        { return int64(len(i.f.Data)) }
func (i memInfo) Mode() os.FileMode  { return 0o644 }
func (i memInfo) ModTime() time.Time { return time.Unix(0, 0) }
func (i memInfo) IsDir() bool        { return false }
func (i memInfo) Sys() any           { return nil }

// OsOpenFile replaces os.OpenFile.
func OsOpenFile(name string, mode int, _ os.FileMode) (*File, error) {
	p := S.CurProc()
	f := p.files[name]
	wr := mode&(os.O_WRONLY|os.O_RDWR) != 0
	if f == nil || mode&os.O_TRUNC != 0 && wr {
		if f == nil && mode&os.O_CREATE == 0 {
			return nil, &fs.PathError{Op: "open", Path: name, Err: fs.ErrNotExist}
		}
		return OsCreate(name)
	}
	return &File{f: f, wr: wr}, nil
}

// OsHostname replaces os.Hostname.
func OsHostname() (string, error) { return S.CurProc().Name, nil }

// OsGetpid replaces os.Getpid.
func OsGetpid() int { return S.CurProc().ID + 1000 }

// MemFile is an in-memory file of a simulated process.
type MemFile struct {
	Name string
	Data []byte
	Fail int // a write, sync or close of it failed
}

// AddFile gives p a file.
func (p *Proc) AddFile(name string, data []byte) {
	p.files[name] = &MemFile{Name: name, Data: data}
}

// FileNames and contents written by p.
func (p *Proc) Files() map[string]*MemFile { return p.files }

// File replaces os.File.
type File struct {
	f   *MemFile
	pos int
	wr  bool

	closed bool
}

// OsOpen replaces os.Open.
func OsOpen(name string) (*File, error) {
	p := S.CurProc()
	f := p.files[name]
	if f == nil {
		return nil, &fs.PathError{Op: "open", Path: name, Err: fs.ErrNotExist}
	}
	if p.disk().NoRead {
		return nil, &fs.PathError{Op: "open", Path: name, Err: fs.ErrPermission}
	}
	return &File{f: f}, nil
}

// OsCreate replaces os.Create.
func OsCreate(name string) (*File, error) {
	p := S.CurProc()
	if p.disk().NoCreate {
		S.FaultN["disk_create_fails"]++
		p.disk().Errs++
		return nil, &fs.PathError{Op: "open", Path: name, Err: fs.ErrPermission}
	}
	f := &MemFile{Name: name}
	p.files[name] = f
	return &File{f: f, wr: true}, nil
}

// OsReadFile replaces os.ReadFile.
func OsReadFile(name string) ([]byte, error) {
	f, err := OsOpen(name)
	if err != nil {
		return nil, err
	}
	return bytes.Clone(f.f.Data), nil
}

// OsWriteFile replaces os.WriteFile.
func OsWriteFile(name string, b []byte, _ os.FileMode) error {
	f, err := OsCreate(name)
	if err != nil {
		return err
	}
	_, err = f.Write(b)
	if e := f.Close(); err == nil {
		err = e
	}
	return err
}

func (f *File) Read(b []byte) (int, error) {
	if f == nil {
		return 0, os.ErrInvalid
	}
	if f.pos >= len(f.f.Data) {
		return 0, io.EOF
	}
	n := copy(b, f.f.Data[f.pos:])
	// short reads are legal
	if n > 1 && S.Chance(200) {
		n = 1 + S.Choose(n)
		if n > len(b) {
			n = len(b)
		}
	}
	f.pos += n
	return n, nil
}

func (f *File) Write(b []byte) (int, error) {
	if f == nil || !f.wr {
		return 0, errors.New("bad file descriptor")
	}
	if p := S.CurProc(); p != nil {
		if d := p.disk(); d.Full && len(b) > d.Quota {
			S.FaultN["disk_full"]++
			p.disk().Errs++
			n := d.Quota
			d.Quota = 0
			f.f.Data = append(f.f.Data, b[:n]...)
			f.f.Fail = len(f.f.Data)
			return n, &fs.PathError{Op: "write", Path: f.f.Name, Err: errNoSpace}
		} else if d.Full {
			d.Quota -= len(b)
		}
	}
	f.f.Data = append(f.f.Data, b...)
	return len(b), nil
}
func (f *File) WriteString(s string) (int, error) { return f.Write([]byte(s)) }

// Close replaces (*os.File).Close; a file system that writes late may only then
// report that it could not.
func (f *File) Close() error {
	if f == nil || f.closed {
		return os.ErrClosed
	}
	f.closed = true
	if p := S.CurProc(); p != nil && f.wr && p.disk().BadClose && len(f.f.Data) > 0 {
		S.FaultN["disk_close_fails"]++
		p.disk().Errs++
		f.f.Data = f.f.Data[:len(f.f.Data)/2]
		f.f.Fail = len(f.f.Data) + 1
		return &fs.PathError{Op: "close", Path: f.f.Name, Err: errors.New("input/output error")}
	}
	return nil
}

// Sync replaces (*os.File).Sync.
func (f *File) Sync() error {
	if p := S.CurProc(); p != nil && f.wr && p.disk().BadClose && len(f.f.Data) > 0 {
		S.FaultN["disk_sync_fails"]++
		p.disk().Errs++
		f.f.Fail = len(f.f.Data) + 1
		return &fs.PathError{Op: "sync", Path: f.f.Name, Err: errors.New("input/output error")}
	}
	return nil
}
func (f *File) Name() string { return f.f.Name }

// ReadMemStats replaces runtime.ReadMemStats with fixed figures.
func ReadMemStats(m *runtime.MemStats) {
	*m = runtime.MemStats{}
	m.Alloc = 1 << 20
	m.Sys = 4 << 20
}

// NumGoroutine replaces runtime.NumGoroutine.
func NumGoroutine() int { return len(S.CurProc().Tasks()) }

// NumCPU and GOMAXPROCS.
func NumCPU() int          { return 4 }
func GOMAXPROCS(n int) int { return 4 }

// SetsockoptInt replaces unix.SetsockoptInt.
func SetsockoptInt(fd, level, opt int, value int) error { return nil }

// ---------------------------------------------------------------- globals

// Globals returns the per-process state of rewritten package key, creating it
// with mk and running init on first use.
func Globals[T any](key int, init func(*T)) *T {
	p := S.CurProc()
	if p == nil {
		panic("simrt: package state used outside a simulated process")
	}
	if g, ok := p.globals[key]; ok {
		return g.(*T)
	}
	g := new(T)
	p.globals[key] = g
	if init != nil {
		init(g)
	}
	return g
}

var inits = map[string]func(){}

// RegisterInit is called by rewritten packages: fn runs the package's variable
// initialisers and init functions in the current process.
func RegisterInit(path string, fn func()) { inits[path] = fn }

// RunInits initialises the given packages in order, as the Go runtime does
// before main.
func RunInits(paths ...string) {
	for _, p := range paths {
		if f := inits[p]; f != nil {
			f()
		}
	}
}
