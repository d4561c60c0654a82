package simrt

import (
	"time"
	"unsafe"
)

const (
	hasMonotonic = 1 << 63
	minWall      = 59453308800 // seconds from year 1 to 1885
	unixToYear1  = 62135596800
)

type rawTime struct {
	wall uint64
	ext  int64
	loc  *time.Location
}

// mkTime builds a time.Time with both a wall clock and a monotonic reading.
func mkTime(unixNano int64, mono int64) time.Time {
	var t time.Time
	r := (*rawTime)(unsafe.Pointer(&t))
	sec := unixNano / 1e9
	nsec := unixNano % 1e9
	r.wall = hasMonotonic | uint64(sec+unixToYear1-minWall)<<30 | uint64(nsec)
	r.ext = mono + 1
	return t
}

func init() {
	a := mkTime(1700000000123456789, 5e9)
	b := mkTime(1600000000000000000, 6e9)
	if a.UnixNano() != 1700000000123456789 || b.Sub(a) != time.Second {
		panic("simrt: unexpected layout of time.Time")
	}
}

// WallNow is the wall clock of p in unix ns.
func (p *Proc) WallNow() int64 { return p.Sim.Epoch + p.Sim.now + p.WallOff }

// Now replaces time.Now.
func Now() time.Time {
	s := S
	if s == nil {
		return time.Unix(0, 0)
	}
	p := s.CurProc()
	off := int64(0)
	if p != nil {
		off = p.WallOff
		if s.OnNow != nil {
			s.OnNow(p)
			off = p.WallOff
		}
	}
	return mkTime(s.Epoch+s.now+off, s.now)
}

// Since replaces time.Since.
func Since(t time.Time) time.Duration { return Now().Sub(t) }

// Until replaces time.Until.
func Until(t time.Time) time.Duration { return t.Sub(Now()) }

// Sleep replaces time.Sleep.
func Sleep(d time.Duration) {
	s := S
	t := s.cur
	if d <= 0 {
		s.point()
		return
	}
	e := s.After(int64(d), func() { s.ready(t) })
	_ = e
	s.block("sleep")
}

// Timer replaces time.Timer.
type Timer struct {
	C  *Chan[time.Time]
	e  *event
	f  func()
	p  *Proc
	vc []uint32
}

func (t *Timer) fire() {
	s := S
	t.e = nil
	if t.p != nil && t.p.Dead {
		return
	}
	if t.f != nil {
		f := t.f
		nt := s.spawn(t.p, "AfterFunc", f)
		s.acquire(nt, t.vc)
		return
	}
	s.curProc = t.p
	t.C.push(Now())
	s.curProc = nil
}

func (t *Timer) start(d time.Duration) {
	if d < 0 {
		d = 0
	}
	t.e = S.After(int64(d), t.fire)
	t.vc = S.releaseCur(t.vc)
}

// NewTimer replaces time.NewTimer.
func NewTimer(d time.Duration) *Timer {
	t := &Timer{C: MakeChan[time.Time](1), p: S.CurProc()}
	t.start(d)
	return t
}

// AfterFunc replaces time.AfterFunc.
func AfterFunc(d time.Duration, f func()) *Timer {
	t := &Timer{f: f, p: S.CurProc()}
	t.start(d)
	return t
}

// After replaces time.After.
func After(d time.Duration) *Chan[time.Time] { return NewTimer(d).C }

// Stop mirrors time.Timer.Stop.
func (t *Timer) Stop() bool {
	if t.e == nil {
		return false
	}
	S.cancel(t.e)
	t.e = nil
	return true
}

// Reset mirrors time.Timer.Reset.
func (t *Timer) Reset(d time.Duration) bool {
	was := t.Stop()
	t.start(d)
	return was
}

// Ticker replaces time.Ticker.
type Ticker struct {
	C      *Chan[time.Time]
	e      *event
	period int64
	next   int64
	p      *Proc
}

// NewTicker replaces time.NewTicker.
func NewTicker(d time.Duration) *Ticker {
	if d <= 0 {
		panic("non-positive interval for NewTicker")
	}
	t := &Ticker{C: MakeChan[time.Time](1), period: int64(d), p: S.CurProc()}
	t.next = S.now + t.period
	t.e = S.At(t.next, t.fire)
	return t
}

func (t *Ticker) fire() {
	s := S
	if t.p != nil && t.p.Dead {
		return
	}
	s.curProc = t.p
	t.C.push(Now())
	s.curProc = nil
	t.next += t.period
	if t.next <= s.now {
		t.next = s.now + t.period - (s.now-t.next)%t.period
	}
	t.e = s.At(t.next, t.fire)
}

// Stop mirrors time.Ticker.Stop.
func (t *Ticker) Stop() { S.cancel(t.e) }

// Reset mirrors time.Ticker.Reset.
func (t *Ticker) Reset(d time.Duration) {
	if d <= 0 {
		panic("non-positive interval for Ticker.Reset")
	}
	S.cancel(t.e)
	t.period = int64(d)
	t.next = S.now + t.period
	t.e = S.At(t.next, t.fire)
}

// Tick replaces time.Tick.
func Tick(d time.Duration) *Chan[time.Time] { return NewTicker(d).C }

// Gosched replaces runtime.Gosched.
func Gosched() {
	s := S
	if s.cur == nil {
		return
	}
	t := s.cur
	t.state = stBlocked
	s.ready(t)
	s.park()
}
