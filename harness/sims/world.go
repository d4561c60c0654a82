package main

import (
	"fmt"
	"math"
	"math/rand"
	"reflect"
	"strings"
	"time"

	"github.com/yangl1996/rateless-set-reconcile/des"

	"verif/simrt"
)

// Cfg is the configuration of one simulated run of one of the repository's
// gossip simulators.
type Cfg struct {
	Sim   string   `json:"sim"`   // newsim or simulator
	Edges [][3]int `json:"edges"` // a, b, delay in ms

	Algo   string  `json:"algo,omitempty"` // newsim: coding or pull
	Flood  bool    `json:"flood,omitempty"`
	Shards int     `json:"shards,omitempty"`
	TxSize int     `json:"tx_size,omitempty"`
	Burst  int     `json:"burst"`
	TxGen  float64 `json:"txgen"`
	Ctrl   float64 `json:"ctrl"`

	Th     int     `json:"th,omitempty"` // simulator
	Mem    int     `json:"mem,omitempty"`
	Smooth float64 `json:"smooth,omitempty"`
	SyncMs int     `json:"sync_ms,omitempty"`
	Loss   float64 `json:"loss,omitempty"`
	Seed   int64   `json:"seed,omitempty"`
	RepMs  int     `json:"report_ms,omitempty"`

	DurMs  int64 `json:"dur_ms"`
	WarmMs int64 `json:"warm_ms"`

	// Mix varies the seeds the programs fix in their source.
	Mix int64 `json:"mix"`
	// MaxTx ends the load: later arrivals are dropped.
	MaxTx int `json:"max_tx,omitempty"`
	// MaxEv bounds the messages handled.
	MaxEv int `json:"max_ev,omitempty"`

	Shape Shape `json:"shape"`
}

// Shape is what the network does to messages.
type Shape struct {
	Seed     int64   `json:"seed"`
	JitterUs int64   `json:"jitter_us,omitempty"` // uniform additional delay
	Spike    int     `json:"spike,omitempty"`     // per mille of messages delayed by SpikeUs
	SpikeUs  int64   `json:"spike_us,omitempty"`
	Reorder  bool    `json:"reorder,omitempty"` // links are not FIFO
	Dup      int     `json:"dup,omitempty"`     // per mille of announcements duplicated
	Stalls   []Stall `json:"stalls,omitempty"`
	// ArrFast and ArrSlow are per mille of load arrivals that follow at once
	// or after ten times the time.
	ArrFast int `json:"arr_fast,omitempty"`
	ArrSlow int `json:"arr_slow,omitempty"`
}

// Stall holds back everything sent on a directed link, or to a server (From
// -1), during a window.
type Stall struct {
	From, To int
	AtMs     int64
	LenMs    int64
}

// message kinds
const (
	kOther    = "other"
	kCode     = "codeword"
	kAck      = "ack"
	kArrive   = "arrival"
	kBcast    = "broadcast"
	kResp     = "response"
	kAnn      = "announce"
	kReq      = "request"
	kLoop     = "loopback"
	kNewBlock = "create-block"
)

type tx struct {
	idx  uint64
	ts   int64
	hash uint64
}

// msg is one message between simulated servers.
type msg struct {
	id       int
	kind     string
	from, to int
	sent     int64
	arr      int64
	base     int64
	newBlock bool
	start    uint64
	end      uint64
	ackBlock bool
	ackStart bool
	txs      []tx
	hash     uint64
	n        int
	dup      bool
	opaque   any
}

type pkey struct {
	from, to int
	at       int64
}

// world observes one run.
type world struct {
	s     *simrt.Sim
	c     *Cfg
	prop  string
	proc  *simrt.Proc
	rng   *rand.Rand
	srv   map[any]int
	ptr   []any
	delay map[[2]int]int64
	nbr   [][]int

	last  map[[2]int]int64 // last arrival per directed link
	now   int64
	nev   int
	kinds map[reflect.Type]string
	made  int // codewords produced for the current message
	idle  int // calls of RunUntil since the last message
	burst int // messages handled at this instant
	total int // transactions generated
	gen   []int
	calm  int64 // load and faults over since, -1 not yet
	// pending messages by payload order: the kernel hands messages back in its
	// own order, so they are matched by link, time and kind.
	pend    map[pkey][]*msg
	nPend   int
	maxDel  int64
	started bool

	onDeliver func(m *msg)             // before the server handles m
	onHandled func(m *msg, out []*msg) // after; out in the order emitted
	onSpecial func(c *simrt.Call)      // other observed calls while handling
	onSend    func(m *msg, in *msg)    // what a server sends, before the network shapes it; in is nil during set-up
	inMsg     *msg
	off       bool
	finished  string
}

func newWorld(s *simrt.Sim, c *Cfg, prop string) *world {
	w := &world{s: s, c: c, prop: prop, rng: rand.New(rand.NewSource(c.Shape.Seed)), srv: map[any]int{}, delay: map[[2]int]int64{}, last: map[[2]int]int64{}, pend: map[pkey][]*msg{}, calm: -1}
	n := 0
	for _, e := range c.Edges {
		n = max(n, e[0]+1, e[1]+1)
		d := int64(e[2]) * 1e6
		w.delay[[2]int{e[0], e[1]}] = d
		w.delay[[2]int{e[1], e[0]}] = d
		w.maxDel = max(w.maxDel, d)
	}
	w.nbr = make([][]int, n)
	for _, e := range c.Edges {
		w.nbr[e[0]] = append(w.nbr[e[0]], e[1])
		w.nbr[e[1]] = append(w.nbr[e[1]], e[0])
	}
	w.gen = make([]int, n)
	w.ptr = make([]any, n)
	s.OnCall("des.Simulator.ScheduleMessage", w.schedule)
	s.OnCall("*.HandleMessage", w.handle)
	produced := func(c *simrt.Call) {
		if c.After {
			return
		}
		if w.made++; w.made > madeMax && w.inMsg != nil {
			w.fail("runaway", "a server produced %d codewords on a single message", madeMax)
		}
	}
	s.OnCall("des.Simulator.RunUntil", func(c *simrt.Call) {
		if c.After {
			return
		}
		if w.idle++; w.idle > idleMax {
			w.fail("livelock", "the event loop was entered %d times without a message", idleMax)
		}
	})
	s.OnCall("lt.Encoder.ProduceCodeword", produced)
	s.OnCall("riblt.Encoder.ProduceNextCodedSymbol", produced)
	return w
}

// madeMax bounds what one message may make a server produce: send windows of
// the generated cases are below 10 000.
const madeMax = 300_000

// burstMax bounds the messages handled at one instant, idleMax the report
// intervals without a message.
const (
	burstMax = 300_000
	idleMax  = 3_000_000
)

func (w *world) n() int { return len(w.nbr) }

func (w *world) fail(class, f string, a ...any) {
	if w.off {
		return
	}
	w.s.Fail(w.prop, class, "at %v: "+f, append([]any{time.Duration(w.now)}, a...)...)
	w.quit("violation")
}

// quit ends the simulated program at once.
func (w *world) quit(why string) {
	if w.finished == "" {
		w.finished = why
	}
	w.off = true
	if w.s.Cur() != nil {
		simrt.OsExit(0)
	}
}

// schedule learns the servers: newServers schedules the first arrival of each
// in order.
func (w *world) schedule(c *simrt.Call) {
	if c.After || w.off {
		return
	}
	from := c.Args[1]
	if from == nil {
		return
	}
	if _, ok := w.srv[from]; !ok {
		if len(w.srv) >= w.n() {
			w.fail("servers", "more servers than the %d of the topology", w.n())
			return
		}
		w.ptr[len(w.srv)] = from
		w.srv[from] = len(w.srv)
	}
	if !w.started {
		// scheduled by the set-up code, not as a reaction
		o, ok := c.Args[0].(des.OutgoingMessage)
		if !ok {
			return
		}
		i := w.srv[from]
		m := w.describe(reflect.ValueOf(o.Payload), i, nil)
		m.from, m.to = i, i
		m.sent, m.arr, m.base = 0, int64(o.Delay), int64(o.Delay)
		if w.onSend != nil {
			w.onSend(m, nil)
		}
		w.post(m)
	}
}

func (w *world) post(m *msg) {
	k := pkey{m.from, m.to, m.arr}
	w.pend[k] = append(w.pend[k], m)
	w.nPend++
}

func (w *world) take(from, to int, at int64, d *msg) *msg {
	k := pkey{from, to, at}
	l := w.pend[k]
	for i, m := range l {
		if m.kind == d.kind && (m.kind == kOther || m.same(d)) {
			if len(l) == 1 {
				delete(w.pend, k)
			} else {
				w.pend[k] = append(l[:i:i], l[i+1:]...)
			}
			w.nPend--
			return m
		}
	}
	return nil
}

func (m *msg) same(d *msg) bool {
	if m.newBlock != d.newBlock || m.start != d.start || m.end != d.end || m.ackBlock != d.ackBlock || m.ackStart != d.ackStart || len(m.txs) != len(d.txs) || m.hash != d.hash || m.n != d.n {
		return false
	}
	for i := range m.txs {
		if m.txs[i] != d.txs[i] {
			return false
		}
	}
	return true
}

func (w *world) handle(c *simrt.Call) {
	if w.off {
		return
	}
	if !c.After {
		w.started = true
		w.nev++
		w.made, w.idle = 0, 0
		if t, _ := c.Args[2].(time.Duration); int64(t) != w.now {
			w.burst = 0
		}
		if w.burst++; w.burst > burstMax {
			w.fail("livelock", "%d messages were handled without time passing", burstMax)
			return
		}
		ts, ok := c.Args[2].(time.Duration)
		to, ok2 := w.srv[c.Recv]
		from, ok3 := w.srv[c.Args[1]]
		if !ok || !ok2 || !ok3 {
			w.fail("servers", "message handled by an unknown server")
			return
		}
		if int64(ts) < w.now {
			w.fail("time", "a message was delivered for time %v", ts)
			return
		}
		w.now = int64(ts)
		d := w.describe(reflect.ValueOf(c.Args[0]), to, nil)
		m := w.take(from, to, w.now, d)
		if m == nil {
			w.fail("delivery", "server %d was handed a %s from %d that was not due now", to, d.kind, from)
			return
		}
		w.s.Note(m.kind, int64(from<<8|to), w.now)
		if w.s.TraceOn {
			w.s.Tracef("%v %d->%d %s", ts, from, to, m)
		}
		if m.kind == kArrive {
			w.gen[to] += m.n
			w.total += m.n
		}
		w.inMsg = m
		if w.onDeliver != nil {
			w.onDeliver(m)
		}
		if w.c.MaxEv > 0 && w.nev >= w.c.MaxEv && !w.off {
			w.quit("events")
		}
		return
	}
	m := w.inMsg
	if m == nil {
		return
	}
	res := c.Results[0].(*[]des.OutgoingMessage)
	out := w.shape(m, res)
	if w.onHandled != nil {
		w.onHandled(m, out)
	}
	w.inMsg = nil
}

// allGenerated tells that the load is over.
func (w *world) loadOver() bool {
	if w.c.MaxTx == 0 || w.total < w.c.MaxTx {
		return false
	}
	for _, g := range w.gen {
		if g == 0 {
			return false
		}
	}
	return true
}

// shape decides what the network does to what a server sends.
func (w *world) shape(in *msg, res *[]des.OutgoingMessage) []*msg {
	var out []*msg
	self := in.to
	sh := &w.c.Shape
	keep := make([]des.OutgoingMessage, 0, len(*res))
	for _, o := range *res {
		m := w.describe(reflect.ValueOf(o.Payload), self, in)
		m.from, m.to, m.sent, m.base = self, self, w.now, int64(o.Delay)
		if o.To != nil {
			t, ok := w.srv[o.To]
			if !ok {
				w.fail("servers", "message to an unknown server")
				return out
			}
			m.to = t
		}
		if m.base < 0 {
			w.fail("delay", "server %d sends a %s with delay %v", self, m.kind, o.Delay)
			return out
		}
		if w.onSend != nil {
			w.onSend(m, in)
		}
		d := m.base
		if m.kind == kArrive && m.to == self {
			if w.loadOver() {
				if w.calm < 0 {
					w.calm = w.now
					for _, s := range sh.Stalls {
						w.calm = max(w.calm, (s.AtMs+s.LenMs)*1e6)
					}
				}
				continue
			}
			if x := w.rng.Intn(1000); x < sh.ArrFast {
				d /= 100
				w.s.FaultN["load bursts"]++
			} else if x < sh.ArrFast+sh.ArrSlow {
				d *= 10
				w.s.FaultN["load gaps"]++
			}
		} else if m.to != self {
			d = w.linkDelay(m, d)
		}
		m.arr = w.now + d
		o.Delay = time.Duration(d)
		w.post(m)
		keep = append(keep, o)
		out = append(out, m)
		if m.kind == kAnn && sh.Dup > 0 && w.rng.Intn(1000) < sh.Dup {
			q := *m
			q.dup = true
			q.arr = w.now + w.linkDelay(&q, q.base)
			o2 := o
			o2.Delay = time.Duration(q.arr - w.now)
			w.post(&q)
			keep = append(keep, o2)
			w.s.FaultN["duplicated messages"]++
		}
	}
	*res = keep
	return out
}

func (w *world) linkDelay(m *msg, d int64) int64 {
	sh := &w.c.Shape
	if sh.JitterUs > 0 {
		if j := w.rng.Int63n(sh.JitterUs) * 1000; j > 0 {
			d += j
			w.s.FaultN["delayed messages"]++
		}
	}
	if sh.Spike > 0 && w.rng.Intn(1000) < sh.Spike {
		d += sh.SpikeUs * 1000
		w.s.FaultN["delay spikes"]++
	}
	arr := w.now + d
	for _, s := range sh.Stalls {
		if s.To == m.to && (s.From == m.from || s.From < 0) {
			// what would arrive or is sent during the stall waits
			a, b := s.AtMs*1e6, (s.AtMs+s.LenMs)*1e6
			if arr >= a && arr < b {
				arr = b
				w.s.FaultN["stalled messages"]++
			}
		}
	}
	k := [2]int{m.from, m.to}
	if sh.Reorder {
		if arr < w.last[k] {
			w.s.FaultN["reordered messages"]++
		}
	} else if arr < w.last[k] {
		arr = w.last[k]
	}
	w.last[k] = max(arr, w.last[k])
	return arr - w.now
}

// rtt is an upper bound of a round trip once faults are over.
func (w *world) rtt() int64 {
	return 2*(w.maxDel+w.c.Shape.JitterUs*1000+w.c.Shape.SpikeUs*1000) + 2e6
}

func (m *msg) String() string {
	switch m.kind {
	case kCode:
		if m.newBlock {
			return fmt.Sprintf("codeword new block [%x,%x)", m.start, m.end)
		}
	case kAck:
		var ids []uint64
		for _, t := range m.txs {
			ids = append(ids, t.idx)
		}
		return fmt.Sprintf("ack start=%v block=%v txs=%v", m.ackStart, m.ackBlock, ids)
	case kArrive:
		return fmt.Sprintf("arrival of %d", m.n)
	case kBcast, kResp, kLoop:
		return fmt.Sprintf("%s %d", m.kind, m.txs[0].idx)
	case kAnn, kReq:
		return fmt.Sprintf("%s %x", m.kind, m.hash)
	}
	return m.kind
}

// ---------------------------------------------------------------- payloads

// describe classifies a payload by its structure, so that renaming a message
// type does not matter; in is the message being handled when it was sent.
func (w *world) describe(v reflect.Value, self int, in *msg) *msg {
	m := &msg{kind: kOther}
	for v.Kind() == reflect.Pointer || v.Kind() == reflect.Interface {
		if v.IsNil() {
			return m
		}
		v = v.Elem()
	}
	if v.Kind() != reflect.Struct {
		return m
	}
	name := strings.ToLower(v.Type().Name())
	var bools []int
	var uints []uint64
	var ints []int64
	var bnames []string
	var coded, lt, ltTx, hashed, slice bool
	for i := 0; i < v.NumField(); i++ {
		f := v.Field(i)
		tn := f.Type().Name()
		switch {
		case strings.HasPrefix(tn, "CodedSymbol["):
			coded = true
		case strings.HasPrefix(tn, "Codeword["):
			lt = true
		case strings.HasPrefix(tn, "Transaction["):
			ltTx = true
			m.txs = append(m.txs, txOf(f))
		case strings.HasPrefix(tn, "HashedSymbol["):
			hashed = true
			m.txs = append(m.txs, txOf(f))
		case f.Kind() == reflect.Slice && strings.HasPrefix(f.Type().Elem().Name(), "HashedSymbol["):
			slice = true
			for k := 0; k < f.Len(); k++ {
				m.txs = append(m.txs, txOf(f.Index(k)))
			}
		case f.Kind() == reflect.Bool:
			b := 0
			if f.Bool() {
				b = 1
			}
			bools = append(bools, b)
			bnames = append(bnames, strings.ToLower(v.Type().Field(i).Name))
		case f.CanUint():
			uints = append(uints, f.Uint())
		case f.CanInt():
			ints = append(ints, f.Int())
		}
	}
	switch {
	case coded:
		m.kind = kCode
		m.newBlock = len(bools) > 0 && bools[0] == 1
		if len(uints) >= 2 {
			m.start, m.end = uints[0], uints[1]
		}
	case lt:
		m.kind = kCode
		m.opaque = members(v)
		m.newBlock = len(bools) > 0 && bools[0] == 1
	case slice || len(bools) > 0:
		m.kind = kAck
		blk := 0
		for i, n := range bnames {
			if strings.Contains(n, "block") {
				blk = i
			}
		}
		for i, b := range bools {
			if i == blk {
				m.ackBlock = b == 1
			} else {
				m.ackStart = b == 1
			}
		}
	case hashed:
		m.kind = w.kindOf(v.Type(), in, name, "broad", kBcast, "resp", kResp, kReq)
	case ltTx:
		m.kind = kLoop
	case len(uints) == 1 && len(ints) == 0:
		m.hash = uints[0]
		m.kind = w.kindOf(v.Type(), in, name, "ann", kAnn, "req", kReq, kAnn)
	case len(ints) == 1:
		m.kind = kArrive
		m.n = int(ints[0])
	case v.NumField() == 0:
		m.kind = kNewBlock
	}
	return m
}

// kindOf tells two message types of the same structure apart: by name, or else
// by what the first message of the type answered.
func (w *world) kindOf(t reflect.Type, in *msg, name, n1, k1, n2, k2, answers string) string {
	switch {
	case strings.Contains(name, n1):
		return k1
	case strings.Contains(name, n2):
		return k2
	}
	k, ok := w.kinds[t]
	if !ok {
		k = k1
		if in != nil && in.kind == answers {
			k = k2
		}
		if w.kinds == nil {
			w.kinds = map[reflect.Type]string{}
		}
		w.kinds[t] = k
	}
	return k
}

// txOf reads a transaction out of a hashed symbol, an lt transaction or a bare
// transaction.
func txOf(v reflect.Value) tx {
	var t tx
	var walk func(v reflect.Value, depth int)
	walk = func(v reflect.Value, depth int) {
		for v.Kind() == reflect.Pointer {
			if v.IsNil() {
				return
			}
			v = v.Elem()
		}
		if v.Kind() != reflect.Struct {
			return
		}
		for i := 0; i < v.NumField(); i++ {
			f := v.Field(i)
			if v.Type().Field(i).Name == "Hash" && f.Kind() == reflect.Uint64 {
				t.hash = f.Uint()
				continue
			}
			switch f.Kind() {
			case reflect.Uint64:
				t.idx = f.Uint()
			case reflect.Int64:
				t.ts = f.Int()
			case reflect.Struct, reflect.Pointer:
				walk(f, depth+1)
			}
		}
	}
	walk(v, 0)
	return t
}

// txsOf reads a slice of transactions behind a pointer to the slice.
func txsOf(p any) []tx {
	v := reflect.ValueOf(p)
	for v.Kind() == reflect.Pointer {
		v = v.Elem()
	}
	if v.Kind() != reflect.Slice {
		return nil
	}
	var out []tx
	for i := 0; i < v.Len(); i++ {
		out = append(out, txOf(v.Index(i)))
	}
	return out
}

// receivedMap finds a server's own record of the transactions it has, nil if
// it keeps none.
func receivedMap(server any) (reflect.Value, bool) {
	v := reflect.ValueOf(server)
	if v.Kind() != reflect.Pointer {
		return v, false
	}
	v = v.Elem()
	for i := 0; i < v.NumField(); i++ {
		if f := v.Field(i); f.Kind() == reflect.Map && f.Type().Key().Kind() == reflect.Uint64 && v.Type().Field(i).Name == "received" {
			return f, true
		}
	}
	return v, false
}

func (c *Cfg) topo() []byte {
	var b strings.Builder
	for _, e := range c.Edges {
		fmt.Fprintf(&b, "%d,%d,%d\n", e[0], e[1], e[2])
	}
	return []byte(b.String())
}

func (c *Cfg) args() []string {
	ms := func(v int64) string { return fmt.Sprintf("%dms", v) }
	a := []string{"-b", fmt.Sprint(c.Burst), "-txgen", fmt.Sprint(c.TxGen), "-c", fmt.Sprint(c.Ctrl), "-dur", ms(c.DurMs), "-w", ms(c.WarmMs), "-topo", "topo.txt"}
	if c.Sim == "newsim" {
		a = append(a, "-a", c.Algo, "-s", fmt.Sprint(c.Shards), "-txsize", fmt.Sprint(c.TxSize))
		if c.Flood {
			a = append(a, "-flood")
		}
		return a
	}
	a = append(a, "-mem", fmt.Sprint(c.Mem), "-th", fmt.Sprint(c.Th), "-seed", fmt.Sprint(c.Seed), "-smooth", fmt.Sprint(c.Smooth), "-l", fmt.Sprint(c.Loss), "-prefix", "log")
	if c.SyncMs > 0 {
		a = append(a, "-sync", ms(int64(c.SyncMs)))
	}
	if c.RepMs > 0 {
		a = append(a, "-r", ms(int64(c.RepMs)))
	}
	return a
}

var _ = math.Inf
