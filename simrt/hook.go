package simrt

import (
	"fmt"
	"reflect"
	"sort"
	"strings"
	"unsafe"
)

// Call is one call of an observed function of the code under test.
type Call struct {
	Name    string
	Recv    any
	Args    []any
	Results []any // pointers to the results, after the call
	Task    *Task
	Proc    *Proc
	Nested  bool // called from inside another observed call
	After   bool
	Aux     any
	fn      func(*Call)
}

// OnCall installs an observer: fn runs before (After=false) and after the call.
// A name of the form "*.F" matches every function or method F.
// Observers of one name run in the order of registration.
func (s *Sim) OnCall(name string, fn func(*Call)) {
	if old := s.hooks[name]; old != nil {
		s.hooks[name] = func(c *Call) { old(c); fn(c) }
		return
	}
	s.hooks[name] = fn
}

// hook finds the observer of a function.
func (s *Sim) hook(name string) func(*Call) {
	if fn, ok := s.hooks[name]; ok {
		return fn
	}
	fn := s.hooks["*"+name[strings.LastIndexByte(name, '.'):]]
	s.hooks[name] = fn
	return fn
}

// HookDepth tracks nesting when calls are made outside tasks.
var hookDepth int

// HookEnter is called by generated wrappers.
func HookEnter(name string, recv any, args ...any) *Call {
	s := S
	if s == nil {
		return nil
	}
	s.loopTicks = 0
	if s.spins() && s.cur != nil {
		panic("endless loop")
	}
	if s.cur != nil {
		s.cur.depth++
	} else {
		hookDepth++
	}
	fn := s.hook(name)
	if fn == nil {
		return hookNone
	}
	c := &Call{Name: name, Recv: recv, Args: args, Task: s.cur, Proc: s.CurProc(), fn: fn}
	if s.cur != nil {
		c.Nested = s.cur.depth > 1
	} else {
		c.Nested = hookDepth > 1
	}
	fn(c)
	return c
}

var hookNone = &Call{}

// Exit is called by generated wrappers with pointers to the results.
func (c *Call) Exit(results ...any) {
	if c == nil {
		return
	}
	s := S
	if s.cur != nil {
		s.cur.depth--
	} else {
		hookDepth--
	}
	if c.fn == nil {
		return
	}
	c.Results = results
	c.After = true
	c.fn(c)
}

// ResetHookDepth is called between runs.
func ResetHookDepth() { hookDepth = 0 }

// ---------------------------------------------------------------- map order

// NoteKey remembers the order in which pointer-like map keys were first used, so
// that map iteration order can be made deterministic.
func NoteKey[K any](k K) K {
	NoteAny(any(k))
	return k
}

// NoteAny is NoteKey on interfaces.
func NoteAny(k any) any {
	s := S
	if s == nil {
		return k
	}
	if k == nil {
		return k
	}
	switch reflect.TypeOf(k).Kind() {
	case reflect.Pointer, reflect.Chan, reflect.UnsafePointer, reflect.Struct, reflect.Array:
		if _, ok := s.mapNotes[k]; !ok {
			s.mapNotes[k] = len(s.mapNotes)
		}
	}
	return k
}

func keyLess(a, b reflect.Value) int {
	switch a.Kind() {
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		return cmp(a.Int(), b.Int())
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		return cmp(a.Uint(), b.Uint())
	case reflect.Float32, reflect.Float64:
		return cmp(a.Float(), b.Float())
	case reflect.String:
		return cmp(a.String(), b.String())
	case reflect.Bool:
		x, y := 0, 0
		if a.Bool() {
			x = 1
		}
		if b.Bool() {
			y = 1
		}
		return cmp(x, y)
	case reflect.Array:
		for i := 0; i < a.Len(); i++ {
			if c := keyLess(a.Index(i), b.Index(i)); c != 0 {
				return c
			}
		}
		return 0
	case reflect.Struct:
		for i := 0; i < a.NumField(); i++ {
			if c := keyLess(a.Field(i), b.Field(i)); c != 0 {
				return c
			}
		}
		return 0
	case reflect.Interface:
		if a.IsNil() || b.IsNil() {
			x, y := 0, 0
			if !a.IsNil() {
				x = 1
			}
			if !b.IsNil() {
				y = 1
			}
			return cmp(x, y)
		}
		ea, eb := a.Elem(), b.Elem()
		if ea.Type() != eb.Type() {
			return cmp(ea.Type().String(), eb.Type().String())
		}
		return keyLess(ea, eb)
	case reflect.Pointer, reflect.Chan, reflect.UnsafePointer:
		return cmp(ptrID(a), ptrID(b))
	}
	return 0
}

func ptrID(v reflect.Value) int {
	s := S
	if v.IsNil() {
		return -1
	}
	if v.CanInterface() {
		if id, ok := s.mapNotes[v.Interface()]; ok {
			return id
		}
	}
	p := v.UnsafePointer()
	for k, id := range s.ptrNotes {
		if k == p {
			return id
		}
	}
	s.Unnoted++
	if s.ptrNotes == nil {
		s.ptrNotes = map[unsafe.Pointer]int{}
	}
	id := 1_000_000 + len(s.ptrNotes)
	s.ptrNotes[p] = id
	return id
}

func cmp[T int | int64 | uint64 | float64 | string](a, b T) int {
	if a < b {
		return -1
	}
	if a > b {
		return 1
	}
	return 0
}

// mapKeys returns the keys of m in an order chosen by the scheduler: Go leaves
// it unspecified, so any order is legal.
func mapKeys[M ~map[K]V, K comparable, V any](m M) []K {
	keys := make([]K, 0, len(m))
	for k := range m {
		keys = append(keys, k)
	}
	if len(keys) < 2 {
		return keys
	}
	switch ks := any(keys).(type) {
	case []uint32:
		sort.Slice(ks, func(i, j int) bool { return ks[i] < ks[j] })
	case []uint64:
		sort.Slice(ks, func(i, j int) bool { return ks[i] < ks[j] })
	case []int:
		sort.Ints(ks)
	case []string:
		sort.Strings(ks)
	default:
		vs := make([]reflect.Value, len(keys))
		for i := range keys {
			vs[i] = reflect.ValueOf(&keys[i]).Elem()
		}
		idx := make([]int, len(keys))
		for i := range idx {
			idx[i] = i
		}
		sort.SliceStable(idx, func(i, j int) bool { return keyLess(vs[idx[i]], vs[idx[j]]) < 0 })
		out := make([]K, len(keys))
		for i, j := range idx {
			out[i] = keys[j]
		}
		keys = out
	}
	s := S
	if s == nil {
		return keys
	}
	for i := len(keys) - 1; i > 0; i-- {
		// choice 0 keeps the canonical order
		j := i - s.Choose(i+1)
		keys[i], keys[j] = keys[j], keys[i]
	}
	return keys
}

// MapIt iterates over a map in scheduler-chosen order.
type MapIt[K comparable, V any] struct {
	m    map[K]V
	keys []K
	i    int
	k    K
	v    V
}

// MapIter starts an iteration; the zero key and value give the loop variables
// their types.
func MapIter[M ~map[K]V, K comparable, V any](m M) (*MapIt[K, V], K, V) {
	var k K
	var v V
	return &MapIt[K, V]{m: m, keys: mapKeys[M, K, V](m)}, k, v
}

// Next advances; k and v may be nil.
func (it *MapIt[K, V]) Next(k *K, v *V) bool {
	for it.i < len(it.keys) {
		key := it.keys[it.i]
		it.i++
		val, ok := it.m[key]
		if !ok {
			if key == key {
				continue // deleted meanwhile
			}
		}
		it.k, it.v = key, val
		if k != nil {
			*k = key
		}
		if v != nil {
			*v = val
		}
		return true
	}
	return false
}

// Key is the current key.
func (it *MapIt[K, V]) Key() K { return it.k }

// Val is the current value.
func (it *MapIt[K, V]) Val() V { return it.v }

// MapsKeys helps code that uses maps.Keys-like helpers; unused otherwise.
func MapsKeys[M ~map[K]V, K comparable, V any](m M) []K { return mapKeys[M, K, V](m) }

// Describe prints a short form of a value for traces.
func Describe(v any) string { return fmt.Sprintf("%T", v) }
