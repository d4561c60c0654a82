package simrt

// Lock-like primitives with Go semantics and happens-before edges.

// Mutex replaces sync.Mutex.
type Mutex struct {
	held bool
	q    []*Task
	vc   []uint32
}

func (m *Mutex) Lock() {
	s := S
	s.point()
	for m.held {
		m.q = append(m.q, s.cur)
		s.block("mutex lock")
	}
	m.held = true
	s.acquireCur(m.vc)
}

func (m *Mutex) TryLock() bool {
	S.point()
	if m.held {
		return false
	}
	m.held = true
	S.acquireCur(m.vc)
	return true
}

func (m *Mutex) Unlock() {
	s := S
	if s == nil || s.cur == nil || s.cur.killed {
		m.held = false
		return
	}
	if !m.held {
		panic("sync: unlock of unlocked mutex")
	}
	m.vc = s.releaseCur(m.vc)
	m.held = false
	m.wake()
	s.point()
}

func (m *Mutex) wake() {
	for len(m.q) > 0 {
		t := m.q[0]
		m.q = m.q[1:]
		if t.state == stBlocked && !t.doom {
			S.ready(t)
			return
		}
	}
}

// Locker replaces sync.Locker.
type Locker interface {
	Lock()
	Unlock()
}

// RWMutex replaces sync.RWMutex.
type RWMutex struct {
	w       bool
	r       int
	writers int
	q       []*Task
	vc      []uint32
	rvc     []uint32
}

func (m *RWMutex) wakeAll() {
	q := m.q
	m.q = nil
	for _, t := range q {
		if t.state == stBlocked && !t.doom {
			S.ready(t)
		}
	}
}

func (m *RWMutex) Lock() {
	s := S
	s.point()
	m.writers++
	for m.w || m.r > 0 {
		m.q = append(m.q, s.cur)
		s.block("rwmutex lock")
	}
	m.writers--
	m.w = true
	s.acquireCur(m.vc)
	s.acquireCur(m.rvc)
}

func (m *RWMutex) TryLock() bool {
	S.point()
	if m.w || m.r > 0 {
		return false
	}
	m.w = true
	S.acquireCur(m.vc)
	S.acquireCur(m.rvc)
	return true
}

func (m *RWMutex) Unlock() {
	s := S
	if s == nil || s.cur == nil || s.cur.killed {
		m.w = false
		return
	}
	if !m.w {
		panic("sync: Unlock of unlocked RWMutex")
	}
	m.vc = s.releaseCur(m.vc)
	m.w = false
	m.wakeAll()
	s.point()
}

func (m *RWMutex) RLock() {
	s := S
	s.point()
	for m.w || m.writers > 0 {
		m.q = append(m.q, s.cur)
		s.block("rwmutex rlock")
	}
	m.r++
	s.acquireCur(m.vc)
}

func (m *RWMutex) TryRLock() bool {
	S.point()
	if m.w || m.writers > 0 {
		return false
	}
	m.r++
	S.acquireCur(m.vc)
	return true
}

func (m *RWMutex) RUnlock() {
	s := S
	if s == nil || s.cur == nil || s.cur.killed {
		if m.r > 0 {
			m.r--
		}
		return
	}
	if m.r <= 0 {
		panic("sync: RUnlock of unlocked RWMutex")
	}
	m.rvc = s.releaseCur(m.rvc)
	m.r--
	if m.r == 0 {
		m.wakeAll()
	}
	s.point()
}

// RLocker mirrors sync.RWMutex.RLocker.
func (m *RWMutex) RLocker() Locker { return (*rlocker)(m) }

type rlocker RWMutex

func (r *rlocker) Lock()   { (*RWMutex)(r).RLock() }
func (r *rlocker) Unlock() { (*RWMutex)(r).RUnlock() }

// WaitGroup replaces sync.WaitGroup.
type WaitGroup struct {
	n  int
	q  []*Task
	vc []uint32
}

func (w *WaitGroup) Add(d int) {
	s := S
	w.n += d
	if w.n < 0 {
		panic("sync: negative WaitGroup counter")
	}
	if d < 0 {
		w.vc = s.releaseCur(w.vc)
	}
	if w.n == 0 {
		q := w.q
		w.q = nil
		for _, t := range q {
			if t.state == stBlocked && !t.doom {
				s.ready(t)
			}
		}
	}
	s.point()
}

func (w *WaitGroup) Done() {
	if S == nil || S.cur == nil || S.cur.killed {
		return
	}
	w.Add(-1)
}

func (w *WaitGroup) Wait() {
	s := S
	s.point()
	for w.n > 0 {
		w.q = append(w.q, s.cur)
		s.block("waitgroup wait")
	}
	s.acquireCur(w.vc)
}

// Go mirrors sync.WaitGroup.Go.
func (w *WaitGroup) Go(f func()) {
	w.Add(1)
	Go("wg", func() { defer w.Done(); f() })
}

// Once replaces sync.Once.
type Once struct {
	m    Mutex
	done bool
}

func (o *Once) Do(f func()) {
	o.m.Lock()
	defer o.m.Unlock()
	if o.done {
		return
	}
	defer func() { o.done = true }()
	f()
}

// OnceFunc replaces sync.OnceFunc.
func OnceFunc(f func()) func() {
	var o Once
	return func() { o.Do(f) }
}

// OnceValue replaces sync.OnceValue.
func OnceValue[T any](f func() T) func() T {
	var o Once
	var v T
	return func() T { o.Do(func() { v = f() }); return v }
}

// Cond replaces sync.Cond.
type Cond struct {
	L  Locker
	q  []*Task
	vc []uint32
}

// NewCond replaces sync.NewCond.
func NewCond(l Locker) *Cond { return &Cond{L: l} }

func (c *Cond) Wait() {
	s := S
	t := s.cur
	c.q = append(c.q, t)
	c.L.Unlock()
	for _, x := range c.q {
		if x == t {
			s.block("cond wait")
			break
		}
	}
	c.L.Lock()
	s.acquireCur(c.vc)
}

func (c *Cond) Signal() {
	c.vc = S.releaseCur(c.vc)
	for len(c.q) > 0 {
		t := c.q[0]
		c.q = c.q[1:]
		if t.state != stDead && !t.doom {
			S.ready(t)
			break
		}
	}
	S.point()
}

func (c *Cond) Broadcast() {
	c.vc = S.releaseCur(c.vc)
	q := c.q
	c.q = nil
	for _, t := range q {
		if t.state != stDead && !t.doom {
			S.ready(t)
		}
	}
	S.point()
}

// Map replaces sync.Map.
type Map struct {
	m  map[any]any
	vc []uint32
}

func (m *Map) sync() {
	S.point()
	S.acquireCur(m.vc)
	m.vc = S.releaseCur(m.vc)
	if m.m == nil {
		m.m = map[any]any{}
	}
}
func (m *Map) Load(k any) (any, bool) { m.sync(); v, ok := m.m[k]; return v, ok }
func (m *Map) Store(k, v any)         { m.sync(); m.m[NoteAny(k)] = v }
func (m *Map) Delete(k any)           { m.sync(); delete(m.m, k) }
func (m *Map) LoadOrStore(k, v any) (any, bool) {
	m.sync()
	if o, ok := m.m[k]; ok {
		return o, true
	}
	m.m[NoteAny(k)] = v
	return v, false
}
func (m *Map) LoadAndDelete(k any) (any, bool) {
	m.sync()
	v, ok := m.m[k]
	delete(m.m, k)
	return v, ok
}
func (m *Map) Swap(k, v any) (any, bool) {
	m.sync()
	o, ok := m.m[k]
	m.m[NoteAny(k)] = v
	return o, ok
}
func (m *Map) CompareAndSwap(k, o, n any) bool {
	m.sync()
	if v, ok := m.m[k]; ok && v == o {
		m.m[k] = n
		return true
	}
	return false
}
func (m *Map) Range(f func(k, v any) bool) {
	m.sync()
	for _, k := range mapKeys(m.m) {
		v, ok := m.m[k]
		if !ok {
			continue
		}
		if !f(k, v) {
			return
		}
	}
}

// Pool replaces sync.Pool. Content is kept per simulated process. Which pooled
// item comes back (or whether a fresh one is made) is a scheduler decision.
type Pool struct {
	New   func() any
	items map[int][]any
	vc    map[int][]uint32
	own   *Sim
}

func (p *Pool) cur() int {
	s := S
	if p.own != s || p.items == nil {
		p.own = s
		p.items = map[int][]any{}
		p.vc = map[int][]uint32{}
	}
	if s == nil {
		return -1
	}
	if pr := s.CurProc(); pr != nil {
		return pr.ID
	}
	return -1
}

func (p *Pool) Get() any {
	if S != nil && S.PoolYield {
		S.yield()
	}
	id := p.cur()
	it := p.items[id]
	s := S
	if s != nil && s.cur != nil {
		s.acquireCur(p.vc[id])
	}
	if n := len(it); n > 0 {
		k := n - 1
		if s != nil && s.PoolMode == 1 {
			// any pooled item, or a miss, as the real pool may do
			c := s.Choose(n + 1)
			if c == n {
				if p.New == nil {
					return nil
				}
				return p.New()
			}
			k = n - 1 - c
		}
		x := it[k]
		copy(it[k:], it[k+1:])
		it[n-1] = nil
		p.items[id] = it[:n-1]
		return x
	}
	if p.New == nil {
		return nil
	}
	return p.New()
}

func (p *Pool) Put(x any) {
	if x == nil {
		return
	}
	id := p.cur()
	p.items[id] = append(p.items[id], x)
	if s := S; s != nil && s.cur != nil {
		p.vc[id] = s.releaseCur(p.vc[id])
		if s.PoolYield {
			s.yield()
		}
	}
}
