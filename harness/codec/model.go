package main

import (
	"fmt"
	"sort"
	"time"

	"verif/simrt"
)

// Op is one event of a simulated exchange between senders and receivers.
type Op struct {
	K  string `json:"k"`            // tx, cw, rx, local, free, reset
	A  int    `json:"a"`            // sender (tx, cw, reset) or receiver (rx, local, free)
	B  int    `json:"b"`            // transaction (tx, local) or codeword (cw, rx, free)
	D  int    `json:"d,omitempty"`  // degree (cw) or window size (reset)
	F  int64  `json:"f,omitempty"`  // corruption seed (rx)
	S  bool   `json:"s,omitempty"`  // the receiver gets its own copy
	Dt int64  `json:"dt,omitempty"` // time passing before the event, ns
}

type SndCfg struct {
	Salt int   `json:"salt"`
	WS   int   `json:"ws"`
	Seed int64 `json:"seed"`
}

type RcvCfg struct {
	Salt int `json:"salt"`
	Mem  int `json:"mem"`
}

// Cfg is the configuration of one run.
type Cfg struct {
	Sys      string   `json:"sys"`
	Threads  bool     `json:"threads,omitempty"`
	PoolMode int      `json:"pool_mode,omitempty"`
	SaltSeed []int64  `json:"salt_seed"`
	Txs      []int64  `json:"txs"`
	Snd      []SndCfg `json:"snd"`
	Rcv      []RcvCfg `json:"rcv"`
	Ops      []Op     `json:"ops"`
	Permute  int64    `json:"permute,omitempty"` // seed of the permuted second receiver (C12)
	Riblt    *RCfg    `json:"riblt,omitempty"`
	Sketch   *KCfg    `json:"sketch,omitempty"`
}

func saltOf(seed int64) (s [16]byte) {
	for i := range s {
		s[i] = byte(splitmix(uint64(seed)*31 + uint64(i)))
	}
	return
}

type txM struct {
	obj     any
	content string
}

type cwM struct {
	obj  any
	salt int
	mem  []uint32 // as produced
	pay  string
}

type sndM struct {
	enc  encI
	salt int
	ws   int
	win  []int // transactions, oldest first
	past map[int]bool
}

// pcw is a codeword held by a receiver.
type pcw struct {
	id    int
	mem   []uint32 // members not known when they arrived or since
	pay   string
	dead  bool // proved inconsistent
	freed bool
	done  bool // seen decoded
	stub  stubI
}

type kt struct {
	h       uint32
	content string
}

type rcvM struct {
	i       int
	dec     decI
	salt    int
	mem     int
	known   map[uint32]string
	queue   []kt
	pend    []*pcw
	ever    map[string]bool
	forgot  bool
	tainted bool
	inputs  []Op
	reps    []rep
}

type world struct {
	s    *simrt.Sim
	c    *Cfg
	prop string
	sys  *system
	salt [][16]byte
	txs  []*txM
	h    []map[string]uint32 // per salt: content -> salted hash
	snd  []*sndM
	rcv  []*rcvM
	cws  map[int]*cwM
	sent map[string]bool // contents some sender accepted, or a receiver added itself
	off  bool            // an observation outside the property under check ended the run
	nrep int
	nfl  int
	ncol int
}

// relevant maps a class of mismatch to the properties it breaks.
var relevant = map[string]string{
	"fabricated":        "C11 C12 C13 C14 C16 C17",
	"not-derivable":     "C12 C13 C14 C16 C17",
	"left-undecoded":    "C12 C13 C14 C16 C17",
	"reported-again":    "C13 C14 C16 C17",
	"status":            "C13 C16 C17",
	"expired-flag":      "C16",
	"caller-modified":   "C17",
	"report-modified":   "C17 C16",
	"memory":            "C14",
	"order-dependent":   "C12",
	"window-membership": "C15",
	"payload":           "C15",
	"degree":            "C15",
	"refusal":           "C15",
	"duplicate-member":  "C15",
	"hash-quality":      "C11 C12",
}

func (w *world) fail(class, f string, a ...any) {
	for i := 0; i+3 <= len(relevant[class]); i += 4 {
		if relevant[class][i:i+3] == w.prop {
			w.s.Fail(w.prop, class, f, a...)
			return
		}
	}
	w.off = true
	w.s.Probe("other:" + class)
	w.s.Stop("outside the property")
}

func (w *world) stop() bool { return w.off || w.s.Violation != nil }

func short(c string) string { return fmt.Sprintf("%x", c[:4]) }

func newWorld(s *simrt.Sim, c *Cfg, prop string) *world {
	w := &world{s: s, c: c, prop: prop, cws: map[int]*cwM{}, sent: map[string]bool{}}
	w.sys = systemOf(c.Sys)
	for _, x := range c.SaltSeed {
		w.salt = append(w.salt, saltOf(x))
		w.h = append(w.h, map[string]uint32{})
	}
	return w
}

// setup runs as part of the simulated process.
func (w *world) setup() {
	c := w.c
	for _, n := range c.Txs {
		tx := w.sys.newTx(n)
		w.txs = append(w.txs, &txM{tx, w.sys.content(tx)})
	}
	// learn the salted hashes from codewords of degree one
	for k := range w.salt {
		back := map[uint32]bool{}
		for _, n := range c.Txs {
			e := w.sys.newEnc(1, w.salt[k], 1)
			tx := w.sys.newTx(n)
			e.Add(tx)
			cw := e.Produce(1)
			m := w.sys.members(cw)
			if len(m) != 1 || w.sys.symbol(cw) != w.sys.content(tx) {
				w.fail("payload", "a window of one transaction gives a codeword with members %v whose payload is not that transaction", m)
				return
			}
			if back[m[0]] {
				w.ncol++
			}
			back[m[0]] = true
			w.h[k][w.sys.content(tx)] = m[0]
		}
	}
	for _, x := range c.Snd {
		w.snd = append(w.snd, &sndM{enc: w.sys.newEnc(x.Seed, w.salt[x.Salt], x.WS), salt: x.Salt, ws: x.WS, past: map[int]bool{}})
	}
	for i, x := range c.Rcv {
		w.rcv = append(w.rcv, &rcvM{i: i, dec: w.sys.newDec(w.salt[x.Salt], x.Mem), salt: x.Salt, mem: x.Mem, known: map[uint32]string{}, ever: map[string]bool{}})
	}
}

// ---------------------------------------------------------------- senders

func (w *world) hashOf(salt, tx int) uint32 { return w.h[salt][w.txs[tx].content] }

func (w *world) opTx(o *Op) {
	x := w.snd[o.A]
	if o.B >= len(w.txs) {
		return
	}
	t := w.txs[o.B]
	in := false
	for _, i := range x.win {
		if w.hashOf(x.salt, i) == w.hashOf(x.salt, o.B) {
			in = true
		}
	}
	obj := t.obj
	if o.S {
		obj = w.sys.newTx(w.c.Txs[o.B])
	}
	ok := x.enc.Add(obj)
	w.s.Note("tx", int64(o.A)<<32|int64(o.B), b2i(ok))
	if ok == in {
		w.fail("refusal", "sender %d: adding a transaction that is in the window: %v; accepted: %v", o.A, in, ok)
		return
	}
	if ok {
		w.sent[t.content] = true
		x.past[o.B] = true
		x.win = append(x.win, o.B)
		if len(x.win) > x.ws {
			x.win = x.win[1:]
		}
	}
}

func (w *world) opReset(o *Op) {
	x := w.snd[o.A]
	x.enc.Reset(o.D)
	x.ws = o.D
	x.win = nil
}

func (w *world) opCw(o *Op) {
	x := w.snd[o.A]
	deg := o.D
	if w.c.Sys != "ldpc" && (deg < 1 || len(x.win) == 0) {
		return // refused by contract
	}
	cw := x.enc.Produce(deg)
	m := append([]uint32(nil), w.sys.members(cw)...)
	pay := w.sys.symbol(cw)
	w.s.Note("cw", int64(o.B), int64(len(m)))
	if w.prop == "C11" && w.ncol > 0 {
		w.cws[o.B] = &cwM{cw, x.salt, m, pay}
		return
	}
	if want := min(deg, len(x.win)); len(m) != want {
		w.fail("degree", "sender %d: a codeword of degree %d over a window of %d names %d transactions", o.A, deg, len(x.win), len(m))
		return
	}
	seen := map[uint32]bool{}
	want := w.sys.zero
	for _, h := range m {
		if seen[h] {
			w.fail("duplicate-member", "sender %d: a codeword names the same transaction twice", o.A)
			return
		}
		seen[h] = true
		f := -1
		for _, i := range x.win {
			if w.hashOf(x.salt, i) == h {
				f = i
			}
		}
		if f < 0 {
			w.fail("window-membership", "sender %d: a codeword names a transaction outside the window (window size %d, %d inside)", o.A, x.ws, len(x.win))
			return
		}
		want = w.sys.xor(want, w.txs[f].content)
	}
	if pay != want {
		w.fail("payload", "sender %d: the payload of a codeword is not the sum of the %d transactions it names", o.A, len(m))
		return
	}
	w.cws[o.B] = &cwM{cw, x.salt, m, pay}
}

// ---------------------------------------------------------------- receivers

func (w *world) learn(r *rcvM, h uint32, content string) {
	r.known[h] = content
	r.ever[content] = true
	r.queue = append(r.queue, kt{h, content})
	for _, p := range r.pend {
		for i := 0; i < len(p.mem); {
			if p.mem[i] == h {
				p.mem = append(p.mem[:i:i], p.mem[i+1:]...)
				p.pay = w.sys.xor(p.pay, content)
			} else {
				i++
			}
		}
	}
	for len(r.queue) > r.mem {
		if r.known[r.queue[0].h] == r.queue[0].content {
			delete(r.known, r.queue[0].h)
		}
		r.queue = r.queue[1:]
		r.forgot = true
		w.s.Probe("forgotten")
	}
}

// settle compares what a receiver reported with the model.
func (w *world) settle(r *rcvM, what string, reps []rep) {
	for _, x := range reps {
		w.nrep++
		r.reps = append(r.reps, x)
		if !w.sent[x.content] {
			w.fail("fabricated", "receiver %d reports (%s) a transaction nobody encoded", r.i, what)
			return
		}
		if w.prop == "C11" {
			continue
		}
		h := w.h[r.salt][x.content]
		if r.known[h] == x.content {
			w.fail("reported-again", "receiver %d reports (%s) transaction %s, which it already knows (memory %d)", r.i, what, short(x.content), r.mem)
			return
		}
		var freed, live int
		for _, p := range r.pend {
			if !p.dead && len(p.mem) == 1 && p.mem[0] == h && p.pay == x.content {
				if p.freed {
					freed++
				} else {
					live++
				}
			}
		}
		if freed+live == 0 {
			w.fail("not-derivable", "receiver %d reports (%s) transaction %s, which does not follow from what it received", r.i, what, short(x.content))
			return
		}
		if w.c.Sys == "ldpc" && (freed == 0 && x.expired || live == 0 && !x.expired) {
			w.fail("expired-flag", "receiver %d: transaction %s was recovered from a codeword released before: %v; flagged so: %v", r.i, short(x.content), freed > 0, x.expired)
			return
		}
		if freed > 0 {
			w.s.Probe("recovered_late")
		}
		w.learn(r, h, x.content)
	}
	if w.prop == "C11" {
		return
	}
	for _, p := range r.pend {
		if !p.dead && len(p.mem) == 1 {
			if h, ok := w.h[r.salt][p.pay]; ok && h == p.mem[0] {
				w.fail("left-undecoded", "receiver %d did not report (%s) transaction %s, which follows from what it received", r.i, what, short(p.pay))
				return
			}
			p.dead = true
			w.s.Probe("inconsistent")
		}
	}
	k := r.pend[:0]
	for _, p := range r.pend {
		dec := p.dead || len(p.mem) == 0
		if !p.freed {
			if got := p.stub.Decoded(); got != dec {
				w.fail("status", "receiver %d: codeword %d has %d unknown transactions left (inconsistent: %v) but reports decoded=%v after %s", r.i, p.id, len(p.mem), p.dead, got, what)
				return
			}
			k = append(k, p)
		} else if !dec {
			k = append(k, p)
		}
	}
	r.pend = k
	if w.prop == "C14" {
		w.checkMemory(r, what)
	}
	if w.prop == "C17" || w.prop == "C16" {
		for _, x := range r.reps {
			if x.obj() != x.content {
				w.fail("report-modified", "receiver %d: a transaction it reported earlier changed during %s", r.i, what)
				return
			}
		}
	}
	if w.prop == "C17" {
		w.checkCallers(what)
	}
}

func (w *world) checkMemory(r *rcvM, what string) {
	for i, t := range w.txs {
		has, ok := r.dec.Has(t.obj)
		if !ok {
			return
		}
		if _, want := r.known[w.hashOf(r.salt, i)]; has != want {
			w.fail("memory", "receiver %d with memory %d: transaction %s remembered: %v, should be %v, after %s", r.i, r.mem, short(t.content), has, want, what)
			return
		}
	}
}

// checkCallers verifies that everything handed to the codecs is unchanged.
func (w *world) checkCallers(what string) {
	ids := make([]int, 0, len(w.cws))
	for i := range w.cws {
		ids = append(ids, i)
	}
	sort.Ints(ids)
	for _, i := range ids {
		c := w.cws[i]
		m := w.sys.members(c.obj)
		same := len(m) == len(c.mem) && w.sys.symbol(c.obj) == c.pay
		for j := 0; same && j < len(m); j++ {
			same = m[j] == c.mem[j]
		}
		if !same {
			w.fail("caller-modified", "the caller's codeword %d changed during %s", i, what)
			return
		}
	}
	for i, t := range w.txs {
		if w.sys.content(t.obj) != t.content {
			w.fail("caller-modified", "the caller's transaction %d changed during %s", i, what)
			return
		}
	}
}

func (w *world) opRx(o *Op) {
	r := w.rcv[o.A]
	c := w.cws[o.B]
	if c == nil {
		return
	}
	obj := c.obj
	if o.F != 0 {
		obj = w.sys.flip(obj, newRand(o.F))
		r.tainted = true
		w.nfl++
	} else if o.S {
		obj = w.sys.clone(obj)
	}
	if c.salt != r.salt {
		r.tainted = true
		w.s.Probe("foreign_salt")
	}
	mem := append([]uint32(nil), w.sys.members(obj)...)
	pay := w.sys.symbol(obj)
	what := fmt.Sprintf("on codeword %d", o.B)
	w.s.Note("rx", int64(o.A)<<32|int64(o.B), o.F)
	stub, reps := r.dec.AddCw(obj)
	if w.s.TraceOn {
		w.s.Tracef("receiver %d gets codeword %d, %d members: %d reported", o.A, o.B, len(mem), len(reps))
	}
	p := &pcw{id: o.B, pay: pay, stub: stub}
	for _, h := range mem {
		if k, ok := r.known[h]; ok {
			p.pay = w.sys.xor(p.pay, k)
		} else {
			p.mem = append(p.mem, h)
		}
	}
	r.pend = append(r.pend, p)
	r.inputs = append(r.inputs, *o)
	w.settle(r, what, reps)
}

func (w *world) opLocal(o *Op) {
	r := w.rcv[o.A]
	if o.B >= len(w.txs) {
		return
	}
	t := w.txs[o.B]
	obj := t.obj
	if o.S {
		obj = w.sys.newTx(w.c.Txs[o.B])
	}
	what := fmt.Sprintf("on adding transaction %s", short(t.content))
	w.s.Note("local", int64(o.A)<<32|int64(o.B), 0)
	w.sent[t.content] = true
	h := w.hashOf(r.salt, o.B)
	_, there := r.known[h]
	reps := r.dec.AddTx(obj)
	if w.s.TraceOn {
		w.s.Tracef("receiver %d adds %s itself: %d reported", o.A, short(t.content), len(reps))
	}
	if !there && w.prop != "C11" {
		w.learn(r, h, t.content)
	}
	r.inputs = append(r.inputs, *o)
	w.settle(r, what, reps)
}

func (w *world) opFree(o *Op) {
	r := w.rcv[o.A]
	for _, p := range r.pend {
		if p.id == o.B && !p.freed && p.stub != nil {
			p.freed = true
			p.stub.Free()
			w.s.Note("free", int64(o.A)<<32|int64(o.B), 0)
			w.s.Probe("released")
			break
		}
	}
	// drop the ones that are finished and released
	k := r.pend[:0]
	for _, p := range r.pend {
		if !(p.freed && (p.dead || len(p.mem) == 0)) {
			k = append(k, p)
		}
	}
	r.pend = k
}

func (w *world) op(o *Op) {
	if w.stop() {
		return
	}
	if o.Dt > 0 {
		simrt.Sleep(time.Duration(o.Dt))
	}
	if w.stop() {
		return
	}
	switch o.K {
	case "tx":
		if o.A < len(w.snd) {
			w.opTx(o)
		}
	case "reset":
		if o.A < len(w.snd) {
			w.opReset(o)
		}
	case "cw":
		if o.A < len(w.snd) {
			w.opCw(o)
		}
	case "rx":
		if o.A < len(w.rcv) {
			w.opRx(o)
		}
	case "local":
		if o.A < len(w.rcv) {
			w.opLocal(o)
		}
	case "free":
		if o.A < len(w.rcv) {
			w.opFree(o)
		}
	}
}

// permuted feeds the inputs of a receiver in another order, some of them twice,
// to a fresh receiver and compares what both know in the end.
func (w *world) permuted(r *rcvM, seed int64) {
	if r.forgot || len(r.inputs) == 0 {
		return
	}
	rng := newRand(seed)
	in := append([]Op(nil), r.inputs...)
	for _, o := range r.inputs {
		if rng.Intn(4) == 0 {
			in = append(in, o)
		}
	}
	rng.Shuffle(len(in), func(i, j int) { in[i], in[j] = in[j], in[i] })
	d := w.sys.newDec(w.salt[r.salt], 1<<20)
	know := map[string]bool{}
	for _, o := range in {
		var reps []rep
		if o.K == "local" {
			reps = d.AddTx(w.sys.newTx(w.c.Txs[o.B]))
			know[w.txs[o.B].content] = true
		} else {
			obj := w.sys.clone(w.cws[o.B].obj)
			if o.F != 0 {
				obj = w.sys.flip(obj, newRand(o.F))
			}
			_, reps = d.AddCw(obj)
		}
		for _, x := range reps {
			know[x.content] = true
		}
	}
	for _, t := range w.txs {
		if know[t.content] != r.ever[t.content] {
			w.fail("order-dependent", "receiver %d knows transaction %s: %v; after the same %d inputs in another order and with duplicates: %v", r.i, short(t.content), r.ever[t.content], len(r.inputs), know[t.content])
			return
		}
	}
	if len(know) > 0 {
		w.s.Probe("orders_compared")
	}
}

func b2i(b bool) int64 {
	if b {
		return 1
	}
	return 0
}
