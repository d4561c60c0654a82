package main

import (
	"reflect"
	"time"

	"verif/simrt"
)

// llink is one direction of a link of the LT protocol: a sends codewords.
type llink struct {
	a, b     int
	inFlight int
	window   int
	open     bool
	blocks   int
	// receiver
	stubs []interface{ Decoded() bool }
	done  bool
	rOpen bool
	// progress
	enc     *lenc
	n       int   // transactions in the open block
	got     int   // codewords of it that arrived
	active  int64 // when it was opened or something of it last arrived at either end
	ready   int64 // since when a block's worth of transactions waits, -1 if none does
	flights int
}

type lenc struct {
	owner, to int
	seq       []tx // what it was given, in order
	ws        int
	resetAt   int // len(seq) at the last reset
}

// lsrv is the model of one server.
type lsrv struct {
	learned []tx
	at      []int64 // when learned
	sched   []int64 // model: when the loop-back is due
	fwd     int     // loop-backs delivered
	lastFwd int64
	have    map[uint64]bool
}

// lworld checks simulator.
type lworld struct {
	*world
	links map[[2]int]*llink
	srvs  []*lsrv
	encs  map[any]*lenc
	memb  map[uintptr]any // members slice of a produced codeword to encoder
	prod  []any           // encoders that produced codewords while handling this message, in order
	stub  interface{ Decoded() bool }
	nStub int
	newTx []tx
	intv  int64
	// the window in effect before the block that was opened while handling
	prevW  map[[2]int]int
	resetW map[any]int
}

func newLworld(w *world) *lworld {
	l := &lworld{world: w, links: map[[2]int]*llink{}, encs: map[any]*lenc{}, memb: map[uintptr]any{}, prevW: map[[2]int]int{}, resetW: map[any]int{}}
	l.intv = int64(int(1.0 / w.c.Smooth * 1000000000))
	for range w.nbr {
		l.srvs = append(l.srvs, &lsrv{have: map[uint64]bool{}, lastFwd: -1})
	}
	w.onDeliver = l.deliver
	w.onHandled = l.handled
	w.s.OnCall("lt.Decoder.AddTransaction", func(c *simrt.Call) {
		if c.After || l.off || l.inMsg == nil || l.inMsg.kind != kArrive {
			return
		}
		l.newTx = append(l.newTx, txOf(reflect.ValueOf(c.Args[0])))
	})
	w.s.OnCall("lt.Decoder.AddCodeword", func(c *simrt.Call) {
		if !c.After || l.off || l.inMsg == nil {
			return
		}
		l.nStub++
		l.stub, _ = reflect.ValueOf(c.Results[0]).Elem().Interface().(interface{ Decoded() bool })
		l.newTx = append(l.newTx, txsOf(c.Results[1])...)
	})
	w.s.OnCall("lt.Encoder.Reset", func(c *simrt.Call) {
		if c.After || l.off || l.inMsg == nil {
			return
		}
		e := l.enc(c.Recv)
		e.ws, _ = c.Args[1].(int)
		e.resetAt = len(e.seq)
		l.resetW[c.Recv] = e.ws
	})
	w.s.OnCall("lt.Encoder.AddTransaction", func(c *simrt.Call) {
		if c.After || l.off || l.inMsg == nil {
			return
		}
		e := l.enc(c.Recv)
		e.seq = append(e.seq, txOf(reflect.ValueOf(c.Args[0])))
	})
	w.s.OnCall("lt.Encoder.ProduceCodeword", func(c *simrt.Call) {
		if !c.After || l.off || l.inMsg == nil {
			return
		}
		l.enc(c.Recv)
		if p := members(reflect.ValueOf(c.Results[0]).Elem()); p != 0 {
			l.memb[p] = c.Recv
		}
	})
	return l
}

func (l *lworld) enc(p any) *lenc {
	e := l.encs[p]
	if e == nil {
		e = &lenc{owner: l.inMsg.to, to: -1}
		l.encs[p] = e
	}
	return e
}

// members identifies a codeword by the array of its member hashes.
func members(v reflect.Value) uintptr {
	for v.Kind() == reflect.Pointer || v.Kind() == reflect.Interface {
		v = v.Elem()
	}
	if v.Kind() != reflect.Struct {
		return 0
	}
	for i := 0; i < v.NumField(); i++ {
		f := v.Field(i)
		if f.Kind() == reflect.Slice && f.Type().Elem().Kind() == reflect.Uint32 && f.Len() > 0 {
			return f.Pointer()
		}
	}
	for i := 0; i < v.NumField(); i++ {
		if f := v.Field(i); f.Kind() == reflect.Struct || f.Kind() == reflect.Pointer && !f.IsNil() {
			if p := members(f); p != 0 {
				return p
			}
		}
	}
	return 0
}

func (l *lworld) link(a, b int) *llink {
	k := [2]int{a, b}
	x := l.links[k]
	if x == nil {
		x = &llink{a: a, b: b, window: l.c.Th, ready: -1}
		l.links[k] = x
	}
	return x
}

func (l *lworld) learn(i int, t tx, from string) {
	s := l.srvs[i]
	if s.have[t.idx] {
		l.fail("duplicate", "server %d %s transaction %d, which it already has", i, from, t.idx)
		return
	}
	s.have[t.idx] = true
	at := l.now
	due := max(at, l.prevDue(s)+l.intv)
	s.learned = append(s.learned, t)
	s.at = append(s.at, at)
	s.sched = append(s.sched, due)
}

func (l *lworld) prevDue(s *lsrv) int64 {
	if n := len(s.sched); n > 0 {
		return s.sched[n-1]
	}
	return 0
}

func (l *lworld) deliver(m *msg) {
	l.newTx = l.newTx[:0]
	l.stub, l.nStub = nil, 0
	clear(l.memb)
	clear(l.resetW)
	switch m.kind {
	case kAck:
		x := l.link(m.to, m.from)
		x.inFlight--
		if m.ackBlock {
			x.open = false
		}
	case kCode:
		x := l.link(m.from, m.to)
		if m.newBlock {
			x.stubs = x.stubs[:0]
			x.done = false
			x.rOpen = true
		}
	case kLoop:
		l.loopback(m)
	}
}

func (l *lworld) loopback(m *msg) {
	s := l.srvs[m.to]
	k := s.fwd
	s.fwd++
	if l.prop != "C26" {
		return
	}
	if m.from != m.to {
		l.fail("loopback", "a loop-back message of %d reached %d", m.from, m.to)
		return
	}
	if k >= len(s.learned) {
		l.fail("extra", "server %d forwards a %dth transaction but learned only %d", m.to, k+1, len(s.learned))
		return
	}
	t := s.learned[k]
	if m.txs[0].idx != t.idx || m.txs[0].ts != t.ts {
		l.fail("order", "server %d forwards transaction %d where %d, which it learned at %dns, is next", m.to, m.txs[0].idx, t.idx, s.at[k])
		return
	}
	if l.now < s.at[k] {
		l.fail("early", "server %d forwards transaction %d before it learned it", m.to, t.idx)
		return
	}
	if s.lastFwd >= 0 && l.now-s.lastFwd < l.intv {
		l.fail("spacing", "server %d forwards transactions %dns apart; the smoothing interval is %dns", m.to, l.now-s.lastFwd, l.intv)
		return
	}
	if l.now > s.sched[k] {
		l.fail("late", "server %d forwards transaction %d at %d ns although it learned it at %d ns and the rate limit allows it at %d ns", m.to, t.idx, l.now, s.at[k], s.sched[k])
		return
	}
	s.lastFwd = l.now
	l.s.Probes["forwards"]++
}

func (l *lworld) handled(in *msg, out []*msg) {
	if l.off {
		return
	}
	switch in.kind {
	case kArrive:
		if len(l.newTx) != in.n && l.prop == "C26" {
			l.fail("generation", "an arrival of %d transactions stored %d", in.n, len(l.newTx))
			return
		}
		for _, t := range l.newTx {
			l.learn(in.to, t, "generates")
		}
	case kCode:
		for _, t := range l.newTx {
			l.learn(in.to, t, "decodes")
			l.s.Probes["decoded"]++
		}
	}
	if l.off {
		return
	}
	if l.prop == "C30" {
		l.progress(in, out)
		return
	}
	if l.prop == "C22" {
		l.acks(in, out)
		if !l.off {
			l.windows(in, out)
		}
	} else {
		l.forwards(in, out)
	}
}

// acks checks what a receiver answers.
func (l *lworld) acks(in *msg, out []*msg) {
	var ack *msg
	n := 0
	for _, m := range out {
		if m.kind != kAck {
			continue
		}
		if in.kind != kCode || m.to != in.from {
			l.fail("stray-ack", "server %d acknowledges to %d although it was not handed a codeword by it", m.from, m.to)
			return
		}
		ack = m
		n++
	}
	if in.kind != kCode {
		return
	}
	if n != 1 {
		l.fail("acks", "server %d answers a codeword of %d with %d acknowledgements", in.to, in.from, n)
		return
	}
	if l.nStub != 1 || l.stub == nil {
		l.fail("decoder", "server %d gave the codeword to its decoder %d times", in.to, l.nStub)
		return
	}
	x := l.link(in.from, in.to)
	if !x.rOpen {
		l.fail("no-block", "server %d sends %d a codeword outside any block", in.from, in.to)
		return
	}
	x.stubs = append(x.stubs, l.stub)
	cnt, und := len(x.stubs), 0
	for _, s := range x.stubs {
		if !s.Decoded() {
			und++
		}
	}
	lim := int(float64(cnt) * l.c.Loss)
	ok := cnt > l.c.Th && und <= lim
	if ack.ackBlock && x.done {
		l.fail("ack-again", "server %d reports the block of %d received a second time", in.to, in.from)
		return
	}
	if ack.ackBlock && !ok {
		l.fail("ack-early", "server %d reports the block of %d received after %d codewords (threshold %d), %d of them undecoded (tolerated: %d)", in.to, in.from, cnt, l.c.Th, und, lim)
		return
	}
	if !ack.ackBlock && ok && !x.done {
		l.fail("ack-missing", "server %d does not report the block of %d received after %d codewords (threshold %d), %d of them undecoded (tolerated: %d)", in.to, in.from, cnt, l.c.Th, und, lim)
		return
	}
	if ack.ackBlock {
		x.done = true
		l.s.Probes["blocks"]++
	}
}

// windows checks what a sender sends.
func (l *lworld) windows(in *msg, out []*msg) {
	for _, m := range out {
		if m.kind != kCode {
			continue
		}
		x := l.link(m.from, m.to)
		w := x.window
		if m.newBlock {
			if x.open {
				l.fail("early-block", "server %d starts a block towards %d before the previous one was acknowledged as received", m.from, m.to)
				return
			}
			x.open = true
			x.blocks++
			e := l.owner(m)
			if e == nil {
				l.fail("encoder", "server %d starts a block towards %d with a codeword of no encoder of this link", m.from, m.to)
				return
			}
			x.window = max(1, int(float64(e.ws)*l.c.Ctrl))
			w = max(w, x.window)
		} else if x.blocks == 0 {
			l.fail("no-block", "server %d sends %d a codeword outside any block", m.from, m.to)
			return
		} else if !x.open {
			l.fail("after-ack", "server %d sends %d a codeword of a block already acknowledged as received", m.from, m.to)
			return
		}
		if x.inFlight >= w {
			l.fail("window", "server %d sends %d a codeword with %d unacknowledged and a window of %d", m.from, m.to, x.inFlight, w)
			return
		}
		x.inFlight++
	}
	// a link with an open block keeps its window full
	for _, m := range out {
		if m.kind != kCode {
			continue
		}
		if x := l.link(m.from, m.to); x.open && x.inFlight < x.window {
			l.fail("idle", "server %d leaves the window towards %d unused: %d of %d", m.from, m.to, x.inFlight, x.window)
			return
		}
	}
	if in.kind == kAck {
		if x := l.link(in.to, in.from); x.open && x.inFlight < x.window {
			l.fail("idle", "server %d leaves the window towards %d unused: %d of %d", in.to, in.from, x.inFlight, x.window)
		}
	}
}

func (l *lworld) owner(m *msg) *lenc {
	if p, ok := m.opaque.(uintptr); ok && p != 0 {
		if k, ok := l.memb[p]; ok {
			e := l.encs[k]
			if e.to < 0 {
				e.to = m.to
			}
			if e.owner == m.from && e.to == m.to {
				return e
			}
		}
	}
	return nil
}

// forwards checks that encoders get what was forwarded, in that order.
func (l *lworld) forwards(in *msg, out []*msg) {
	for _, m := range out {
		if m.kind != kCode || !m.newBlock {
			continue
		}
		e := l.owner(m)
		if e == nil {
			l.fail("encoder", "server %d starts a block towards %d with a codeword of no encoder of this link", m.from, m.to)
			return
		}
		s := l.srvs[m.from]
		if len(e.seq) != s.fwd {
			l.fail("not-sent", "server %d has forwarded %d transactions but its link to %d has put %d into blocks", m.from, s.fwd, m.to, len(e.seq))
			return
		}
		for k := e.resetAt; k < len(e.seq); k++ {
			if e.seq[k] != s.learned[k] {
				l.fail("block-order", "the %dth transaction server %d puts into blocks for %d is %d instead of %d", k+1, m.from, m.to, e.seq[k].idx, s.learned[k].idx)
				return
			}
		}
		l.s.Probes["blocks"]++
	}
	if len(out) > 0 || in.kind != kLoop {
		return
	}
}

// need is the number of waiting transactions a link may sit on.
func (l *lworld) need() int { return int(float64(l.c.Th)/l.c.Ctrl) + 1 }

func (x *llink) waiting(s *lsrv) int {
	if x.enc == nil {
		return s.fwd
	}
	return s.fwd - len(x.enc.seq)
}

// progress checks that links with enough to send open a block and that open
// blocks are received in the end.
func (l *lworld) progress(in *msg, out []*msg) {
	switch in.kind {
	case kCode:
		x := l.link(in.from, in.to)
		x.flights--
		x.got++
		x.active = l.now
		if lim := 200 + 20*x.n; x.got > lim && x.open {
			l.fail("endless-block", "the block of %d transactions from %d to %d is not reported received after %d codewords", x.n, in.from, in.to, x.got)
			return
		}
	case kAck:
		x := l.link(in.to, in.from)
		x.active = l.now
		if in.ackBlock {
			l.s.Probes["blocks"]++
		}
	}
	for _, m := range out {
		if m.kind != kCode {
			continue
		}
		x := l.link(m.from, m.to)
		x.flights++
		if m.newBlock {
			e := l.owner(m)
			if e == nil {
				l.fail("encoder", "server %d starts a block towards %d with a codeword of no encoder of this link", m.from, m.to)
				return
			}
			x.enc = e
			x.n = e.ws
			x.got = 0
			x.open = true
			x.active = l.now
		}
	}
	over := l.calm >= 0 && l.now > l.calm
	idle := over
	patience := 2*l.rtt() + 2*int64(l.c.SyncMs)*1e6
	for _, b := range l.nbr[in.to] {
		x := l.link(in.to, b)
		if x.open {
			x.ready = -1
			if over && l.now-max(x.active, l.calm) > patience {
				l.fail("stalled", "nothing of the open block of %d transactions from %d to %d has moved since %v", x.n, x.a, x.b, time.Duration(x.active))
				return
			}
		} else if w := x.waiting(l.srvs[x.a]); w > l.need() {
			if x.ready < 0 {
				x.ready = l.now
			}
			if over && l.now-max(x.ready, l.calm) > patience {
				l.fail("no-block", "server %d has %d transactions for %d (a block needs %d) since %v and does not start a block", x.a, w, x.b, int(float64(l.c.Th)/l.c.Ctrl), time.Duration(x.ready))
				return
			}
		} else {
			x.ready = -1
		}
	}
	if idle {
		for _, s := range l.srvs {
			idle = idle && s.fwd == len(s.learned)
		}
		for a := range l.nbr {
			for _, b := range l.nbr[a] {
				x := l.link(a, b)
				idle = idle && !x.open && x.flights == 0 && x.waiting(l.srvs[a]) <= l.need()
			}
		}
		if idle {
			l.quit("complete")
		}
	}
}

// stuck checks a history that came to its end.
func (l *lworld) stuck() {
	if l.finished != "" || l.calm < 0 {
		return
	}
	for a := range l.nbr {
		for _, b := range l.nbr[a] {
			x := l.link(a, b)
			if w := x.waiting(l.srvs[a]); x.open {
				l.s.Fail(l.prop, "stalled", "the block of %d transactions from %d to %d is open for ever; nothing has moved since %v", x.n, a, b, time.Duration(x.active))
			} else if w > l.need() {
				l.s.Fail(l.prop, "no-block", "server %d keeps %d transactions for %d (a block needs %d) for ever", a, w, b, int(float64(l.c.Th)/l.c.Ctrl))
			} else {
				continue
			}
			return
		}
	}
}

// final checks, at the end of the history, that nothing due was left out.
func (l *lworld) final() {
	if l.prop == "C30" {
		l.stuck()
	}
	if l.off || l.prop != "C26" {
		return
	}
	for i, s := range l.srvs {
		for k := s.fwd; k < len(s.learned); k++ {
			if s.sched[k] < l.now {
				l.s.Fail(l.prop, "lost", "server %d never forwarded transaction %d: learned at %d ns, due at %d ns, now %d ns", i, s.learned[k].idx, s.at[k], s.sched[k], l.now)
				return
			}
		}
	}
}
