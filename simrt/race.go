package simrt

import (
	"fmt"
	"reflect"
	"unsafe"
)

// Vector-clock data-race detection for instrumented builds: an access pair is a
// race when neither access happens before the other under the program's own
// synchronisation, independently of the schedule that was actually run.

type shadow struct {
	wTask int32
	wClk  uint32
	wSite string
	reads map[int32]readInfo
	rTask int32
	rClk  uint32
	rSite string
}

type readInfo struct {
	clk  uint32
	site string
}

type raceState struct {
	mem  map[unsafe.Pointer]*shadow
	Seen map[string]bool
	Accs int64
	Skip int
}

// EnableRace turns the detector on; call before any task is started.
func (s *Sim) EnableRace() {
	s.RaceOn = true
	if s.RaceProp == "" {
		s.RaceProp = "C10"
	}
	s.Race = &raceState{mem: map[unsafe.Pointer]*shadow{}, Seen: map[string]bool{}}
}

func vcCopy(v []uint32) []uint32 {
	if v == nil {
		return []uint32{}
	}
	return append([]uint32(nil), v...)
}

func vcMax(a, b []uint32) []uint32 {
	r := vcCopy(a)
	for len(r) < len(b) {
		r = append(r, 0)
	}
	for i, x := range b {
		if x > r[i] {
			r[i] = x
		}
	}
	return r
}

func (s *Sim) acquire(t *Task, v []uint32) {
	if !s.RaceOn || t == nil {
		return
	}
	for len(t.vc) < len(v) {
		t.vc = append(t.vc, 0)
	}
	for i, x := range v {
		if x > t.vc[i] {
			t.vc[i] = x
		}
	}
}

func (s *Sim) tick(t *Task) {
	for len(t.vc) <= t.ID {
		t.vc = append(t.vc, 0)
	}
	t.vc[t.ID]++
}

func (s *Sim) acquireCur(v []uint32) {
	if s.RaceOn && s.cur != nil {
		s.acquire(s.cur, v)
	}
}

// releaseCur merges the current clock into v.
func (s *Sim) releaseCur(v []uint32) []uint32 {
	if !s.RaceOn || s.cur == nil {
		return v
	}
	t := s.cur
	for len(v) < len(t.vc) {
		v = append(v, 0)
	}
	for i, x := range t.vc {
		if x > v[i] {
			v[i] = x
		}
	}
	s.tick(t)
	return v
}

func (s *Sim) raceFork(parent, child *Task) {
	if parent != nil {
		child.vc = vcCopy(parent.vc)
		s.tick(parent)
	}
	s.tick(child)
}

func (s *Sim) access(p unsafe.Pointer, write bool, site string) {
	t := s.cur
	if t == nil || p == nil || t.killed {
		return
	}
	r := s.Race
	r.Accs++
	sh := r.mem[p]
	me := int32(t.ID)
	clk := t.vc[t.ID]
	if sh == nil {
		sh = &shadow{wTask: -1, rTask: -1}
		r.mem[p] = sh
	}
	hb := func(task int32, c uint32) bool {
		return task == me || int(task) < len(t.vc) && t.vc[task] >= c
	}
	if sh.wTask >= 0 && !hb(sh.wTask, sh.wClk) {
		s.report(t, sh.wTask, "write", sh.wSite, write, site)
	}
	if write {
		if sh.rTask >= 0 && !hb(sh.rTask, sh.rClk) {
			s.report(t, sh.rTask, "read", sh.rSite, write, site)
		}
		for k, v := range sh.reads {
			if !hb(k, v.clk) {
				s.report(t, k, "read", v.site, write, site)
			}
		}
		sh.wTask, sh.wClk, sh.wSite = me, clk, site
		sh.rTask = -1
		sh.reads = nil
		return
	}
	if sh.rTask == -1 || sh.rTask == me {
		sh.rTask, sh.rClk, sh.rSite = me, clk, site
		return
	}
	if hb(sh.rTask, sh.rClk) && sh.reads == nil {
		sh.rTask, sh.rClk, sh.rSite = me, clk, site
		return
	}
	if sh.reads == nil {
		sh.reads = map[int32]readInfo{}
	}
	sh.reads[me] = readInfo{clk, site}
}

func (s *Sim) report(t *Task, other int32, okind, osite string, write bool, site string) {
	kind := "read"
	if write {
		kind = "write"
	}
	a, b := osite, site
	key := a + "|" + b
	if b < a {
		key = b + "|" + a
	}
	if s.Race.Seen[key] {
		return
	}
	s.Race.Seen[key] = true
	on := "?"
	if int(other) < len(s.tasks) {
		on = s.tasks[other].Name
	}
	s.Fail(s.RaceProp, "race "+key, "data race in process %s: %s at %s by task %q and %s at %s by task %q are not ordered by the program's synchronisation", t.Proc.Name, okind, osite, on, kind, site, t.Name)
}

// accPoint makes every n-th watched memory access a scheduling point.
func accPoint() {
	if s := S; s != nil && s.AccEvery > 0 && s.cur != nil {
		if s.accN++; s.accN%s.AccEvery == 0 {
			s.point()
		}
	}
}

// Rd records a read of *p and returns p.
func Rd[T any](p *T, site string) *T {
	accPoint()
	if s := S; s != nil && s.RaceOn && s.cur != nil {
		s.access(unsafe.Pointer(p), false, site)
	}
	return p
}

// Wr records a write of *p and returns p.
func Wr[T any](p *T, site string) *T {
	accPoint()
	if s := S; s != nil && s.RaceOn && s.cur != nil {
		s.access(unsafe.Pointer(p), true, site)
	}
	return p
}

// MapR records a read of the map object.
func MapR[M ~map[K]V, K comparable, V any](m M, site string) M {
	accPoint()
	if s := S; s != nil && s.RaceOn && s.cur != nil && m != nil {
		s.access(*(*unsafe.Pointer)(unsafe.Pointer(&m)), false, site)
	}
	return m
}

// MapW records a write of the map object.
func MapW[M ~map[K]V, K comparable, V any](m M, site string) M {
	accPoint()
	if s := S; s != nil && s.RaceOn && s.cur != nil && m != nil {
		s.access(*(*unsafe.Pointer)(unsafe.Pointer(&m)), true, site)
	}
	return m
}

// Obj records a use of an object of a package that is not safe for concurrent
// use (a method call on it): treated as a write of the object.
func Obj[T any](x T, site string) T {
	if s := S; s != nil && s.RaceOn && s.cur != nil {
		v := reflect.ValueOf(&x).Elem()
		for v.Kind() == reflect.Interface {
			v = v.Elem()
		}
		if v.IsValid() && v.Kind() == reflect.Pointer && !v.IsNil() {
			s.access(v.UnsafePointer(), true, site)
		}
	}
	return x
}

// touch records an access to everything that v points to, as a library makes
// that is handed a pointer.
func (s *Sim) touch(v any, write bool, site string) {
	if s == nil || !s.RaceOn || s.cur == nil {
		return
	}
	left := 2000
	seen := map[unsafe.Pointer]bool{}
	var walk func(v reflect.Value)
	walk = func(v reflect.Value) {
		if left--; left < 0 {
			return
		}
		k := v.Kind()
		if v.CanAddr() && k != reflect.Struct {
			s.access(v.Addr().UnsafePointer(), write, site)
		}
		switch k {
		case reflect.Interface:
			if !v.IsNil() {
				walk(v.Elem())
			}
		case reflect.Pointer:
			if !v.IsNil() && !seen[v.UnsafePointer()] {
				seen[v.UnsafePointer()] = true
				walk(v.Elem())
			}
		case reflect.Struct:
			for i := 0; i < v.NumField(); i++ {
				if v.Type().Field(i).IsExported() {
					walk(v.Field(i))
				}
			}
		case reflect.Slice:
			if v.Type().Elem().Kind() == reflect.Uint8 && v.Len() > 0 {
				walk(v.Index(0))
				return
			}
			for i := 0; i < v.Len(); i++ {
				walk(v.Index(i))
			}
		}
	}
	walk(reflect.ValueOf(v))
}

// AtomicPt marks p as accessed atomically: a scheduling point and a
// happens-before edge in both directions.
func AtomicPt[T any](p T) T {
	s := S
	if s == nil || s.cur == nil {
		return p
	}
	s.point()
	if s.RaceOn {
		v := reflect.ValueOf(p)
		if v.Kind() == reflect.Pointer && !v.IsNil() {
			k := v.UnsafePointer()
			if s.atomics == nil {
				s.atomics = map[unsafe.Pointer][]uint32{}
			}
			s.acquireCur(s.atomics[k])
			s.atomics[k] = s.releaseCur(s.atomics[k])
		}
	}
	return p
}

// RaceSummary tells how much was watched.
func (s *Sim) RaceSummary() string {
	if s.Race == nil {
		return "off"
	}
	return fmt.Sprintf("%d accesses to %d locations", s.Race.Accs, len(s.Race.mem))
}
