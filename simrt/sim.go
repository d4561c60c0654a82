// Package simrt is the deterministic simulation runtime. Code of the
// repository is rewritten (by ../simgo) so that every goroutine, channel
// operation, select, timer, clock, random source, lock, map iteration, socket
// and process-level effect goes through this package. One *Sim executes one
// seeded run inside a single OS thread of control: a pseudo-random scheduler
// decides every interleaving, delay and fault, and the same (seed, plan) pair
// always gives the same execution.
package simrt

import (
	"container/heap"
	"fmt"
	"iter"
	"math/rand"
	"runtime/debug"
	"strings"
	"time"
	"unsafe"
)

// ---------------------------------------------------------------- tasks

type taskState int

const (
	stRunnable taskState = iota
	stBlocked
	stDead
)

type killToken struct{}

// Task is one simulated goroutine.
type Task struct {
	ID       int
	Proc     *Proc
	Name     string
	LocalKey any // free for the harness

	state   taskState
	why     string // what it is blocked on
	next    func() (struct{}, bool)
	stop    func()
	yield   func(struct{}) bool
	killed  bool
	frozen  int64 // not scheduled before this time
	inRunq  bool
	doom    bool
	gen     int // blocking operations so far
	depth   int // hook nesting
	vc      []uint32
	waiters []*waiter
	wokenBy int
	sitted  bool // parked forever by the harness
}

// Proc is one simulated operating-system process.
type Proc struct {
	ID      int
	Name    string // host name
	Sim     *Sim
	Args    []string
	rng     *rand.Rand
	rngSeed int64
	// SeedMix changes every explicitly seeded generator the process creates.
	SeedMix int64
	WallOff int64 // wall clock offset against simulated time, ns
	Dead    bool
	Crash   *Crash // why it died, nil if killed by the harness or alive
	globals map[int]any
	flags   *flagState
	logs    []string
	LogN    int
	tasks   []*Task
	Stdout  strings.Builder
	Exited  bool
	Code    int
	files   map[string]*MemFile
	Env     map[string]string
	Stdin   string
	FS      *Disk
	pools   []*Pool
	// LoadStop makes random exponential draws huge, which models a client
	// workload that has ended.
	LoadStop bool
	// ExpHook maps exponential draws (unit mean), so that the harness can shape
	// the arrival process of a client workload over time.
	ExpHook func(v float64) float64
	Data    any
	conns   []*Conn
	lns     []*Listener
}

// Crash describes the unexpected death of a simulated process.
type Crash struct {
	Msg   string
	Stack string
	Task  string
	At    int64
}

func (c *Crash) String() string {
	return fmt.Sprintf("%s (task %s at %s)", c.Msg, c.Task, time.Duration(c.At))
}

// ---------------------------------------------------------------- events

type event struct {
	at   int64
	seq  int64
	fn   func()
	dead bool
	idx  int
}

type eventHeap []*event

func (h eventHeap) Len() int { return len(h) }
func (h eventHeap) Less(i, j int) bool {
	if h[i].at != h[j].at {
		return h[i].at < h[j].at
	}
	return h[i].seq < h[j].seq
}
func (h eventHeap) Swap(i, j int) { h[i], h[j] = h[j], h[i]; h[i].idx = i; h[j].idx = j }
func (h *eventHeap) Push(x any)   { e := x.(*event); e.idx = len(*h); *h = append(*h, e) }
func (h *eventHeap) Pop() any {
	o := *h
	e := o[len(o)-1]
	o[len(o)-1] = nil
	*h = o[:len(o)-1]
	return e
}

// ---------------------------------------------------------------- sim

// SchedConfig selects how nondeterministic choices are resolved.
type SchedConfig struct {
	Seed int64 `json:"seed"`
	// Mode: "random" picks uniformly, "pct" keeps random task priorities with
	// a few change points, "fifo" always takes choice 0.
	Mode string `json:"mode"`
	// YieldPerMille is the probability that an operation that could proceed
	// lets other tasks run first.
	YieldPerMille int `json:"yield"`
	// From/To bound the window of decisions that are randomised: decisions
	// outside take choice 0. To==0 means no bound. Used by minimisation.
	From int64 `json:"from,omitempty"`
	To   int64 `json:"to,omitempty"`
	// Changes is the number of priority change points of mode "pct".
	Changes int `json:"changes,omitempty"`
}

// Sim is one simulated execution.
type Sim struct {
	now        int64
	Epoch      int64 // unix ns of simulated time zero
	seq        int64
	q          eventHeap
	runq       []*Task
	cur        *Task
	curProc    *Proc
	tasks      []*Task
	Procs      []*Proc
	Sched      SchedConfig
	schedRng   *rand.Rand
	decisions  int64
	Deviations int64
	prio       map[int]int
	nextPrio   int
	changeAt   map[int64]bool

	loopTicks int64
	// SpinMax bounds the steps and observed calls at one instant of
	// simulated time (0: unbounded); Spin is called when it is exceeded.
	SpinMax   int64
	Spin      func(t *Task)
	instN     int64
	instAt    int64
	Steps     int64
	MaxSteps  int64
	Switches  int64
	Stopped   bool
	StopWhy   string
	Violation *Violation

	LogHash  uint64
	Trace    []string
	TraceOn  bool
	traceMax int

	Race   *raceState
	RaceOn bool

	Net     *Network
	NetRng  *rand.Rand
	FaultN  map[string]int64
	Probes  map[string]int64
	hooks   map[string]func(*Call)
	OnCrash func(p *Proc, c *Crash)
	// OnLog sees every line a process logs.
	OnLog    func(p *Proc, line string)
	OnStep   func()
	mapNotes map[any]int
	Unnoted  int
	PoolMode int // 0 LIFO, 1 random
	// LoopEvery makes every n-th loop iteration of rewritten code a scheduling
	// point (preemption of running threads), 0: none.
	LoopEvery int64
	// AccEvery makes every n-th memory access of instrumented code a scheduling
	// point (builds with -race marks).
	AccEvery int64
	RaceProp string // the property a data race breaks
	accN     int64
	tickN    int64
	// PoolYield makes pool operations scheduling points.
	PoolYield bool
	OnIdle    func() bool
	OnNow     func(p *Proc)
	ptrNotes  map[unsafe.Pointer]int
	atomics   map[unsafe.Pointer][]uint32
}

// Violation is a property violation found during the run.
type Violation struct {
	Property string `json:"property"`
	Class    string `json:"class"`
	Msg      string `json:"msg"`
	At       int64  `json:"at_ns"`
}

// S is the simulation currently executing in this OS process.
var S *Sim

// New creates a simulation and makes it current.
func New(sc SchedConfig) *Sim {
	s := &Sim{
		Sched:    sc,
		schedRng: rand.New(rand.NewSource(sc.Seed)),
		NetRng:   rand.New(rand.NewSource(sc.Seed ^ 0x5DEECE66D)),
		Epoch:    1700000000 * int64(time.Second),
		MaxSteps: 50_000_000,
		prio:     map[int]int{},
		FaultN:   map[string]int64{},
		Probes:   map[string]int64{},
		hooks:    map[string]func(*Call){},
		LogHash:  14695981039346656037,
		mapNotes: map[any]int{},
		traceMax: 4000,
	}
	s.Net = newNetwork(s)
	if sc.Mode == "pct" {
		s.changeAt = map[int64]bool{}
		for i := 0; i < sc.Changes; i++ {
			s.changeAt[s.schedRng.Int63n(20000)] = true
		}
	}
	S = s
	return s
}

// Now is the simulated time in ns since the start of the run.
func (s *Sim) Now() int64 { return s.now }

// Decisions is how many nondeterministic choices were made so far.
func (s *Sim) Decisions() int64 { return s.decisions }

func (s *Sim) hash(v uint64) {
	h := s.LogHash
	h ^= v
	h *= 1099511628211
	h ^= h >> 29
	s.LogHash = h
}

func hashStr(v string) uint64 {
	h := uint64(14695981039346656037)
	for i := 0; i < len(v); i++ {
		h ^= uint64(v[i])
		h *= 1099511628211
	}
	return h
}

// Note adds a line to the event log: it enters the log hash and, in replay, the
// printed trace.
func (s *Sim) Note(kind string, a, b int64) {
	s.hash(hashStr(kind))
	s.hash(uint64(a))
	s.hash(uint64(b))
	if s.TraceOn {
		s.Tracef("%s %d %d", kind, a, b)
	}
}

// Tracef records a human readable trace line (no effect on the run).
func (s *Sim) Tracef(f string, args ...any) {
	if !s.TraceOn {
		return
	}
	l := fmt.Sprintf("%12s ", time.Duration(s.now)) + fmt.Sprintf(f, args...)
	s.Trace = append(s.Trace, l)
	if len(s.Trace) > 2*s.traceMax {
		s.Trace = append([]string{}, s.Trace[len(s.Trace)-s.traceMax:]...)
	}
}

// Choose resolves one nondeterministic choice among n alternatives.
func (s *Sim) Choose(n int) int {
	if n <= 1 {
		return 0
	}
	d := s.decisions
	s.decisions++
	r := int(s.schedRng.Int63() % int64(n))
	if s.Sched.Mode == "fifo" || d < s.Sched.From || (s.Sched.To > 0 && d >= s.Sched.To) {
		return 0
	}
	if r != 0 {
		s.Deviations++
	}
	return r
}

// Chance is true with probability p/1000 (false outside the decision window).
func (s *Sim) Chance(perMille int) bool {
	if perMille <= 0 {
		return false
	}
	d := s.decisions
	s.decisions++
	r := int(s.schedRng.Int63() % 1000)
	if s.Sched.Mode == "fifo" || d < s.Sched.From || (s.Sched.To > 0 && d >= s.Sched.To) {
		return false
	}
	if r < perMille {
		s.Deviations++
		return true
	}
	return false
}

// At schedules fn to run in scheduler context at simulated time t.
func (s *Sim) At(t int64, fn func()) *event {
	if t < s.now {
		t = s.now
	}
	s.seq++
	e := &event{at: t, seq: s.seq, fn: fn}
	heap.Push(&s.q, e)
	return e
}

// After schedules fn d ns from now.
func (s *Sim) After(d int64, fn func()) *event { return s.At(s.now+d, fn) }

func (s *Sim) cancel(e *event) {
	if e != nil && !e.dead {
		e.dead = true
	}
}

// Cancel removes a scheduled event.
func (s *Sim) Cancel(e *event) { s.cancel(e) }

// NewProc creates a process. It has no tasks until Start.
func (s *Sim) NewProc(name string, args []string, rngSeed int64) *Proc {
	p := &Proc{ID: len(s.Procs), Name: name, Sim: s, Args: args, rngSeed: rngSeed, rng: rand.New(rand.NewSource(rngSeed)), globals: map[int]any{}, files: map[string]*MemFile{}}
	s.Procs = append(s.Procs, p)
	return p
}

// Start runs fn as the first task of p.
func (p *Proc) Start(name string, fn func()) *Task { return p.Sim.spawn(p, name, fn) }

func (s *Sim) spawn(p *Proc, name string, fn func()) *Task {
	t := &Task{ID: len(s.tasks), Proc: p, Name: name}
	s.tasks = append(s.tasks, t)
	p.tasks = append(p.tasks, t)
	if s.RaceOn {
		s.raceFork(s.cur, t)
	}
	body := func(y func(struct{}) bool) {
		t.yield = y
		defer func() {
			if r := recover(); r != nil {
				if _, ok := r.(killToken); ok {
					return
				}
				s.taskPanic(t, fmt.Sprint(r), string(debug.Stack()))
			}
		}()
		fn()
	}
	t.next, t.stop = iter.Pull(iter.Seq[struct{}](body))
	t.state = stBlocked
	s.ready(t)
	return t
}

func (s *Sim) taskPanic(t *Task, msg, stack string) {
	p := t.Proc
	c := &Crash{Msg: msg, Stack: trimStack(stack), Task: t.Name, At: s.now}
	if s.TraceOn {
		s.Tracef("CRASH proc %s task %s: %s", p.Name, t.Name, msg)
	}
	if p.Crash == nil {
		p.Crash = c
	}
	p.Dead = true
	for _, x := range p.tasks {
		x.doom = true
	}
	if s.OnCrash != nil {
		s.OnCrash(p, c)
	}
	s.After(0, func() { s.reap(p) })
}

func trimStack(st string) string {
	lines := strings.Split(st, "\n")
	var out []string
	for i := 0; i < len(lines); i++ {
		l := lines[i]
		if strings.HasPrefix(l, "\t") {
			continue
		}
		if strings.HasPrefix(l, "runtime") || strings.HasPrefix(l, "panic(") || strings.HasPrefix(l, "goroutine") || strings.HasPrefix(l, "verif/simrt") || strings.HasPrefix(l, "iter.") || strings.TrimSpace(l) == "" {
			continue
		}
		loc := ""
		if i+1 < len(lines) {
			loc = strings.TrimSpace(lines[i+1])
			if k := strings.LastIndex(loc, "/"); k >= 0 {
				loc = loc[k+1:]
			}
			if k := strings.Index(loc, " "); k >= 0 {
				loc = loc[:k]
			}
		}
		if k := strings.LastIndex(l, "("); k > 0 {
			l = l[:k]
		}
		out = append(out, l+" "+loc)
		if len(out) >= 8 {
			break
		}
	}
	return strings.Join(out, " < ")
}

// Kill ends process p: tasks disappear, sockets close as the kernel would close
// them.
func (p *Proc) Kill() {
	s := p.Sim
	if s.TraceOn {
		s.Tracef("KILL proc %s", p.Name)
	}
	p.Dead = true
	for _, x := range p.tasks {
		x.doom = true
	}
	s.reap(p)
}

// reap unwinds all tasks of a dead process. Must run in scheduler context.
func (s *Sim) reap(p *Proc) {
	if s.cur != nil {
		s.After(0, func() { s.reap(p) })
		return
	}
	s.Net.procDied(p)
	for _, t := range p.tasks {
		s.unwind(t)
	}
	p.tasks = nil
}

func (s *Sim) unwind(t *Task) {
	if t.state == stDead {
		return
	}
	t.killed = true
	t.state = stDead
	for _, w := range t.waiters {
		w.done = true
	}
	save := s.cur
	savep := s.curProc
	s.cur = t
	s.curProc = t.Proc
	if t.yield != nil {
		// started: resume so that the kill panic unwinds it. Deferred
		// functions may call into simrt; those calls panic again.
		for i := 0; i < 100; i++ {
			_, more := t.next()
			if !more {
				break
			}
		}
	}
	t.stop()
	s.cur = save
	s.curProc = savep
	t.next, t.stop, t.yield = nil, nil, nil
}

// Close unwinds everything left so that nothing leaks between runs.
func (s *Sim) Close() {
	s.cur = nil
	s.RaceOn = false
	for _, t := range s.tasks {
		s.unwind(t)
	}
	s.q = nil
	s.runq = nil
	if S == s {
		S = nil
	}
}

// Cur returns the running task (nil in scheduler context).
func (s *Sim) Cur() *Task { return s.cur }

// CurProc is the process of the running task.
func (s *Sim) CurProc() *Proc {
	if s.cur != nil {
		return s.cur.Proc
	}
	return s.curProc
}

// WithProc runs fn in scheduler context on behalf of p (for setup).
func (s *Sim) WithProc(p *Proc, fn func()) {
	sv := s.curProc
	s.curProc = p
	fn()
	s.curProc = sv
}

func (s *Sim) ready(t *Task) {
	if t.state == stDead || t.state == stRunnable && t.inRunq {
		return
	}
	t.state = stRunnable
	t.why = ""
	if t.sitted {
		return
	}
	if t.frozen > s.now {
		at := t.frozen
		s.At(at, func() { s.thaw(t) })
		return
	}
	if !t.inRunq {
		t.inRunq = true
		s.runq = append(s.runq, t)
	}
}

func (s *Sim) thaw(t *Task) {
	if t.state == stRunnable && !t.inRunq && t.frozen <= s.now && !t.sitted {
		t.inRunq = true
		s.runq = append(s.runq, t)
	}
}

// Freeze keeps t off the processor for d ns (a stalled thread).
func (s *Sim) Freeze(t *Task, d int64) {
	if t.state == stDead {
		return
	}
	if u := s.now + d; u > t.frozen {
		t.frozen = u
	}
	if t.inRunq && t != s.cur {
		for i, x := range s.runq {
			if x == t {
				s.runq = append(s.runq[:i], s.runq[i+1:]...)
				break
			}
		}
		t.inRunq = false
	}
	if t.state == stRunnable && t != s.cur {
		at := t.frozen
		s.At(at, func() { s.thaw(t) })
	}
}

// FreezeProc stalls a whole process.
func (p *Proc) FreezeProc(d int64) {
	for _, t := range p.tasks {
		p.Sim.Freeze(t, d)
	}
	p.Sim.FaultN["proc_stall"]++
}

// Tasks lists the live tasks of p.
func (p *Proc) Tasks() []*Task {
	var r []*Task
	for _, t := range p.tasks {
		if t.state != stDead {
			r = append(r, t)
		}
	}
	return r
}

// Why tells what the task is blocked on.
func (t *Task) Why() string {
	switch t.state {
	case stDead:
		return "dead"
	case stRunnable:
		return "runnable"
	}
	return t.why
}

// SitForever parks the calling task for the rest of the run.
func SitForever() {
	t := S.cur
	t.sitted = true
	S.block("parked by harness")
}

// Run executes until stop, deadline (ns), step limit, or nothing left to do.
func (s *Sim) Run(deadline int64) {
	for !s.Stopped {
		if s.Steps >= s.MaxSteps {
			s.Stopped = true
			s.StopWhy = "steps"
			return
		}
		if len(s.runq) == 0 {
			if !s.fireNext(deadline) {
				return
			}
			continue
		}
		s.step()
	}
}

// fireNext advances the clock to the next event.
func (s *Sim) fireNext(deadline int64) bool {
	for len(s.q) > 0 && s.q[0].dead {
		heap.Pop(&s.q)
	}
	if len(s.q) == 0 {
		if s.OnIdle != nil && s.OnIdle() {
			return true
		}
		s.StopWhy = "idle"
		return false
	}
	if s.q[0].at > deadline {
		s.now = deadline
		s.StopWhy = "deadline"
		return false
	}
	first := true
	for len(s.q) > 0 {
		e := s.q[0]
		if e.dead {
			heap.Pop(&s.q)
			continue
		}
		if !first {
			if e.at != s.now {
				break
			}
			// several events due at the same instant: fire together or let
			// tasks run in between
			if s.Choose(2) == 1 {
				break
			}
		}
		heap.Pop(&s.q)
		e.dead = true
		s.now = e.at
		first = false
		s.Steps++
		e.fn()
		if s.Stopped {
			break
		}
	}
	return true
}

func (s *Sim) pick() int {
	n := len(s.runq)
	if n == 1 {
		return 0
	}
	if s.Sched.Mode == "pct" {
		if s.changeAt[s.Steps] {
			for _, t := range s.runq {
				s.nextPrio--
				s.prio[t.ID] = s.nextPrio
				break
			}
		}
		// mostly priority driven, sometimes random
		if s.Choose(16) != 1 {
			best := 0
			for i, t := range s.runq {
				if s.prioOf(t) > s.prioOf(s.runq[best]) {
					best = i
				}
			}
			return best
		}
	}
	return s.Choose(n)
}

func (s *Sim) prioOf(t *Task) int {
	p, ok := s.prio[t.ID]
	if !ok {
		p = int(s.schedRng.Int31n(1000)) + 1
		s.prio[t.ID] = p
	}
	return p
}

func (s *Sim) step() {
	i := s.pick()
	t := s.runq[i]
	copy(s.runq[i:], s.runq[i+1:])
	s.runq[len(s.runq)-1] = nil
	s.runq = s.runq[:len(s.runq)-1]
	t.inRunq = false
	if t.doom {
		return
	}
	s.resume(t)
}

func (s *Sim) resume(t *Task) {
	s.Steps++
	s.Switches++
	s.loopTicks = 0
	if s.spins() && s.Spin != nil {
		s.Spin(t)
		if s.Stopped {
			return
		}
	}
	s.cur = t
	s.curProc = t.Proc
	s.hash(uint64(t.ID)<<32 ^ uint64(s.now))
	_, more := t.next()
	s.cur = nil
	s.curProc = nil
	if !more {
		t.state = stDead
		t.next, t.stop, t.yield = nil, nil, nil
	}
	if s.OnStep != nil {
		s.OnStep()
	}
}

// park gives control back to the scheduler.
func (s *Sim) park() {
	t := s.cur
	t.yield(struct{}{})
	if t.killed || t.doom {
		panic(killToken{})
	}
}

// block suspends the current task until ready() is called for it.
func (s *Sim) block(why string) {
	t := s.cur
	if t == nil {
		panic("simrt: blocking operation (" + why + ") outside a simulated task")
	}
	if t.killed || t.doom {
		panic(killToken{})
	}
	t.state = stBlocked
	t.why = why
	t.gen++
	s.park()
}

// point is a scheduling point: other tasks may run before the operation.
func (s *Sim) point() {
	t := s.cur
	if t == nil {
		return
	}
	if t.killed || t.doom {
		panic(killToken{})
	}
	if t.frozen > s.now {
		t.state = stBlocked
		s.ready(t)
		s.park()
		return
	}
	if len(s.runq) == 0 {
		return
	}
	if s.Sched.YieldPerMille >= 1000 || s.Chance(s.Sched.YieldPerMille) {
		t.state = stBlocked
		s.ready(t)
		s.park()
	}
}

// yield is a scheduling point that never unwinds the task.
func (s *Sim) yield() {
	if t := s.cur; t != nil && !t.killed && !t.doom {
		s.point()
	}
}

// Point is an explicit scheduling point for harness code and wrappers.
func Point() {
	if S != nil {
		S.point()
	}
}

// Fail records a violation (the first one wins) and stops the run.
func (s *Sim) Fail(prop, class, f string, args ...any) {
	if s.Violation == nil {
		s.Violation = &Violation{prop, class, fmt.Sprintf(f, args...), s.now}
		if s.TraceOn {
			s.Tracef("VIOLATION %s %s: %s", prop, class, s.Violation.Msg)
		}
	}
	s.Stopped = true
	s.StopWhy = "violation"
}

// Stop ends the run normally.
func (s *Sim) Stop(why string) {
	s.Stopped = true
	s.StopWhy = why
}

// Go starts a simulated goroutine in the current process.
func Go(name string, fn func()) {
	s := S
	p := s.CurProc()
	s.spawn(p, name, fn)
	s.point()
}

// MaxLoop bounds the iterations of loops between two scheduler steps or
// observed calls; more is an endless loop (runs of the unchanged tree stay below 300 000).
var MaxLoop int64 = 20_000_000

// spins counts one more step at this instant.
func (s *Sim) spins() bool {
	if s.now != s.instAt {
		s.instAt, s.instN = s.now, 0
	}
	s.instN++
	return s.SpinMax > 0 && s.instN > s.SpinMax
}

// Tick_ is called by every loop of rewritten code.
func Tick_() {
	if s := S; s != nil {
		s.loopTicks++
		if s.loopTicks > MaxLoop {
			s.loopTicks = 0
			panic("endless loop")
		}
		if s.LoopEvery > 0 {
			if s.tickN++; s.tickN%s.LoopEvery == 0 {
				s.yield()
			}
		}
	}
}

// Probe counts a reached condition.
func (s *Sim) Probe(name string) { s.Probes[name]++ }
