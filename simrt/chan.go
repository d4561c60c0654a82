package simrt

// waiter is one blocked channel operation (or one arm of a blocked select).
type waiter struct {
	t    *Task
	idx  int
	done bool // consumed or cancelled
	sel  *selState
	recv bool
	val  any // for sends: *T ; for receives: filled by the sender with *T
	ok   bool
	vc   []uint32
}

type selState struct {
	fired bool
	w     *waiter
}

type slot[T any] struct {
	v  T
	vc []uint32
}

// Chan is a simulated channel with Go semantics.
type Chan[T any] struct {
	cap    int
	buf    []slot[T]
	slotVC [][]uint32 // vc of the receive that freed each slot, FIFO
	recvq  []*waiter
	sendq  []*waiter
	closed bool
	cvc    []uint32
	id     int
}

var chanIDs int

// MakeChan is make(chan T, n).
func MakeChan[T any](n int) *Chan[T] {
	if n < 0 {
		panic("makechan: size out of range")
	}
	chanIDs++
	return &Chan[T]{cap: n, id: chanIDs}
}

// C is the identity on channels; it lets rewritten code call methods on named
// channel types.
func C[T any](c *Chan[T]) *Chan[T] { return c }

func popWaiter(q *[]*waiter) *waiter {
	for len(*q) > 0 {
		w := (*q)[0]
		(*q)[0] = nil
		*q = (*q)[1:]
		if w.done || w.sel != nil && w.sel.fired || w.t.state == stDead || w.t.doom {
			continue
		}
		return w
	}
	return nil
}

func hasWaiter(q *[]*waiter) bool {
	for len(*q) > 0 {
		w := (*q)[0]
		if w.done || w.sel != nil && w.sel.fired || w.t.state == stDead || w.t.doom {
			*q = (*q)[1:]
			continue
		}
		return true
	}
	return false
}

func (w *waiter) fire() {
	w.done = true
	if w.sel != nil {
		w.sel.fired = true
		w.sel.w = w
	}
	S.ready(w.t)
}

func (c *Chan[T]) canSend() bool {
	return c.closed || len(c.buf) < c.cap || hasWaiter(&c.recvq)
}

func (c *Chan[T]) canRecv() bool {
	return c.closed || len(c.buf) > 0 || hasWaiter(&c.sendq)
}

// trySend performs the send if possible without blocking.
func (c *Chan[T]) trySend(v T) bool {
	s := S
	if c.closed {
		panic("send on closed channel")
	}
	race := s.RaceOn && s.cur != nil
	if w := popWaiter(&c.recvq); w != nil {
		*(w.val.(*T)) = v
		w.ok = true
		if race {
			w.vc = vcCopy(s.cur.vc)
			if c.cap == 0 {
				s.acquire(s.cur, w.t.vc)
			} else if len(c.slotVC) >= c.cap {
				s.acquire(s.cur, c.slotVC[0])
				c.slotVC = append(c.slotVC[1:], vcMax(w.t.vc, s.cur.vc))
			} else {
				c.slotVC = append(c.slotVC, vcMax(w.t.vc, s.cur.vc))
			}
			s.tick(s.cur)
		}
		w.fire()
		return true
	}
	if len(c.buf) < c.cap {
		sl := slot[T]{v: v}
		if race {
			if len(c.slotVC) >= c.cap-len(c.buf) && len(c.slotVC) > 0 {
				s.acquire(s.cur, c.slotVC[0])
				c.slotVC = c.slotVC[1:]
			}
			sl.vc = vcCopy(s.cur.vc)
			s.tick(s.cur)
		}
		c.buf = append(c.buf, sl)
		return true
	}
	return false
}

// tryRecv performs the receive if possible without blocking.
func (c *Chan[T]) tryRecv() (v T, ok bool, did bool) {
	s := S
	race := s.RaceOn && s.cur != nil
	if len(c.buf) > 0 {
		sl := c.buf[0]
		var zero slot[T]
		c.buf[0] = zero
		c.buf = c.buf[1:]
		if race {
			s.acquire(s.cur, sl.vc)
			c.slotVC = append(c.slotVC, vcCopy(s.cur.vc))
			s.tick(s.cur)
		}
		if w := popWaiter(&c.sendq); w != nil {
			ns := slot[T]{v: *(w.val.(*T))}
			if race {
				// the blocked sender now occupies the slot just freed
				w.vc = c.slotVC[0]
				c.slotVC = c.slotVC[1:]
				ns.vc = vcCopy(w.t.vc)
				s.tick(w.t)
			}
			c.buf = append(c.buf, ns)
			w.fire()
		}
		return sl.v, true, true
	}
	if w := popWaiter(&c.sendq); w != nil {
		v = *(w.val.(*T))
		if race {
			s.acquire(s.cur, w.t.vc)
			w.vc = vcCopy(s.cur.vc)
			s.tick(s.cur)
			s.tick(w.t)
		}
		w.fire()
		return v, true, true
	}
	if c.closed {
		if race {
			s.acquire(s.cur, c.cvc)
		}
		return v, false, true
	}
	return v, false, false
}

// Send is c <- v.
func (c *Chan[T]) Send(v T) {
	s := S
	s.point()
	if c == nil {
		s.block("send on nil channel")
		panic("unreachable")
	}
	if c.trySend(v) {
		return
	}
	w := &waiter{t: s.cur, val: &v}
	c.sendq = append(c.sendq, w)
	s.block("chan send")
	if w.vc != nil {
		s.acquire(s.cur, w.vc)
	}
	if w.recv {
		panic("send on closed channel")
	}
}

// Recv is <-c.
func (c *Chan[T]) Recv() T {
	v, _ := c.Recv2()
	return v
}

// Recv2 is v, ok := <-c.
func (c *Chan[T]) Recv2() (T, bool) {
	s := S
	s.point()
	if c == nil {
		s.block("receive on nil channel")
		panic("unreachable")
	}
	if v, ok, did := c.tryRecv(); did {
		return v, ok
	}
	var v T
	w := &waiter{t: s.cur, val: &v, recv: true}
	c.recvq = append(c.recvq, w)
	s.block("chan receive")
	if w.vc != nil {
		s.acquire(s.cur, w.vc)
	}
	return v, w.ok
}

// RangeStart begins a range loop over a channel.
func RangeStart[T any](c *Chan[T]) (*Chan[T], T, bool) {
	v, ok := c.Recv2()
	return c, v, ok
}

// Close is close(c).
func (c *Chan[T]) Close() {
	s := S
	s.point()
	if c == nil {
		panic("close of nil channel")
	}
	if c.closed {
		panic("close of closed channel")
	}
	c.closed = true
	if s.RaceOn && s.cur != nil {
		c.cvc = vcCopy(s.cur.vc)
		s.tick(s.cur)
	}
	for {
		w := popWaiter(&c.recvq)
		if w == nil {
			break
		}
		w.ok = false
		w.vc = c.cvc
		w.fire()
	}
	for {
		w := popWaiter(&c.sendq)
		if w == nil {
			break
		}
		w.recv = true // marks: woken by close
		w.fire()
	}
}

// Len is len(c).
func (c *Chan[T]) Len() int {
	if c == nil {
		return 0
	}
	return len(c.buf)
}

// Cap is cap(c).
func (c *Chan[T]) Cap() int {
	if c == nil {
		return 0
	}
	return c.cap
}

// push is a non-blocking send from scheduler context (timers).
func (c *Chan[T]) push(v T) bool {
	if c.closed {
		return false
	}
	return c.trySend(v)
}

// ---------------------------------------------------------------- select

// SelCase is one arm of a select.
type SelCase interface {
	ready() bool
	try() bool // perform; called only if ready
	enqueue(*waiter)
	finish(*waiter)
	isNil() bool
}

// RecvC is a receive arm.
type RecvC[T any] struct {
	c  *Chan[T]
	v  T
	ok bool
}

// RecvCase makes a receive arm.
func RecvCase[T any](c *Chan[T]) *RecvC[T] { return &RecvC[T]{c: c} }

// Val is the received value.
func (r *RecvC[T]) Val() T { return r.v }

// Val2 is the received value and whether the channel was open.
func (r *RecvC[T]) Val2() (T, bool) { return r.v, r.ok }

func (r *RecvC[T]) isNil() bool { return r.c == nil }
func (r *RecvC[T]) ready() bool { return r.c.canRecv() }
func (r *RecvC[T]) try() bool {
	v, ok, did := r.c.tryRecv()
	r.v, r.ok = v, ok
	return did
}
func (r *RecvC[T]) enqueue(w *waiter) {
	w.recv = true
	w.val = &r.v
	r.c.recvq = append(r.c.recvq, w)
}
func (r *RecvC[T]) finish(w *waiter) { r.ok = w.ok }

// SendC is a send arm.
type SendC[T any] struct {
	c *Chan[T]
	v T
}

// SendCase makes a send arm.
func (c *Chan[T]) SendCase(v T) *SendC[T] { return &SendC[T]{c, v} }

func (r *SendC[T]) isNil() bool { return r.c == nil }
func (r *SendC[T]) ready() bool { return r.c.canSend() }
func (r *SendC[T]) try() bool   { return r.c.trySend(r.v) }
func (r *SendC[T]) enqueue(w *waiter) {
	w.val = &r.v
	r.c.sendq = append(r.c.sendq, w)
}
func (r *SendC[T]) finish(w *waiter) {
	if w.recv {
		panic("send on closed channel")
	}
}

// Select executes a select statement and returns the index of the chosen arm,
// -1 for default.
func Select(hasDefault bool, cases ...SelCase) int {
	s := S
	s.point()
	nready := 0
	for _, c := range cases {
		if !c.isNil() && c.ready() {
			nready++
		}
	}
	if nready > 0 {
		k := s.Choose(nready)
		for i, c := range cases {
			if !c.isNil() && c.ready() {
				if k == 0 {
					if !c.try() {
						panic("simrt: select arm not ready")
					}
					return i
				}
				k--
			}
		}
	}
	if hasDefault {
		return -1
	}
	st := &selState{}
	n := 0
	for i, c := range cases {
		if c.isNil() {
			continue
		}
		n++
		c.enqueue(&waiter{t: s.cur, idx: i, sel: st})
	}
	if n == 0 {
		s.block("select with no ready arm ever")
		panic("unreachable")
	}
	s.block("select")
	w := st.w
	if w == nil {
		panic("simrt: select woken without an arm")
	}
	if w.vc != nil {
		s.acquire(s.cur, w.vc)
	}
	cases[w.idx].finish(w)
	return w.idx
}
