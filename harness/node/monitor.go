package main

import (
	"fmt"
	"reflect"
	"strings"
	"time"

	"github.com/yangl1996/rateless-set-reconcile/ldpc"
	"verif/simrt"
)

const ms = int64(time.Millisecond)
const sec = int64(time.Second)

// The monitor observes the codec's exported API and the bytes of the simulated
// network, never the node's own fields.

type pair struct {
	node *nodeRec
	enc  *encRec
	dec  *decRec
	seq  int
}

type prodEv struct {
	t       int64
	ptr     *ldpc.Codeword
	hash    uint64
	encoded bool
}

type lossEv struct {
	arr, add int64 // arrival at the node, processing by the decoder thread
	n        int
}

type encRec struct {
	id      int
	node    *nodeRec
	pair    *pair
	salt    [16]byte
	created int64
	task    *simrt.Task
	adds    map[int32]int
	window  []int32
	prods   []prodEv
	encIdx  int // produced codewords before this index are encoded or dropped
	prodBy  *simrt.Task
	tx      *simrt.GobEncoder
	wire    int // sum of Loss put on the wire
	wireN   int
	sent    []int // loss reports in the order sent
	peerDec *decRec
	lastPrd int64
}

type stubRec struct {
	ptr   *ldpc.PendingCodeword
	seq   int
	arr   int64
	add   int64
	um    int64    // send time stamp in the message, wall clock of the sender
	wall  [2]int64 // range of the node's wall clock between arrival and processing
	freed bool
	freeT int64
}

type decRec struct {
	id      int
	node    *nodeRec
	pair    *pair
	salt    [16]byte
	created int64
	adds    map[int32]int
	addT    map[int32]int64
	known   map[int32]bool
	peerEnc *encRec
	rx      *simrt.GobDecoder
	stubs   []*stubRec
	live    map[*ldpc.PendingCodeword]*stubRec
	freeIdx int
	given   int // codewords given up undecoded
	givenAt []int64
	addN    int
	lastAdd int64
	prevAdd int64
	by      *simrt.Task
	losses  []lossEv
	arrived int
	results int
}

type event struct {
	cid     int32
	expired bool
	local   bool
	t       int64
	dec     *decRec
}

type nodeRec struct {
	idx    int
	inc    int // incarnation
	proc   *simrt.Proc
	encs   []*encRec
	decs   []*decRec
	pairs  []*pair
	events []event
	count  map[int32]int // events per content
	countU map[int32]int // unexpired events per content
	locals []event
	lines  []line
	offs   []wallOff
	booted int64
	killed bool
	died   int64
	first  map[int32]int64
}

type gobMsg struct {
	loss int
	arr  int64
	um   int64
	rx   *simrt.GobDecoder
}

type monitor struct {
	load    *loadw
	s       *simrt.Sim
	prop    string
	cfg     *Cfg
	byProc  map[*simrt.Proc]*nodeRec
	nodes   []*nodeRec
	encs    map[*ldpc.Encoder]*encRec
	decs    map[*ldpc.Decoder]*decRec
	cids    map[[ldpc.TxSize]byte]int32
	stubs   map[*ldpc.PendingCodeword]*stubRec
	stubDec map[*ldpc.PendingCodeword]*decRec
	prodPtr map[*ldpc.Codeword]*encRec
	prodCon map[uint64]*encRec
	rxMsg   map[*ldpc.Codeword]*gobMsg
	rxDec   map[*simrt.GobDecoder]*decRec
	rxPend  map[*simrt.GobDecoder][]lossEv
	inMon   bool
	quietAt int64
	lastGen map[*simrt.Task]*ldpc.Encoder
	waitEnc map[*simrt.Task]*encRec
	waitDec map[*simrt.Task]*decRec
	garbled map[*simrt.Proc]bool
	seenTx  int
	msgOdd  bool
	prodN   int
	sentOdd bool // a message could not be attributed to its connection
}

// prodMax ends runs in which the nodes drive each other to ever more codewords;
// runs of a node that keeps the control law stay below a tenth of it.
const prodMax = 2_000_000

func newMonitor(s *simrt.Sim, prop string, cfg *Cfg) *monitor {
	m := &monitor{s: s, prop: prop, cfg: cfg, byProc: map[*simrt.Proc]*nodeRec{}, encs: map[*ldpc.Encoder]*encRec{}, decs: map[*ldpc.Decoder]*decRec{}, cids: map[[ldpc.TxSize]byte]int32{}, stubs: map[*ldpc.PendingCodeword]*stubRec{}, stubDec: map[*ldpc.PendingCodeword]*decRec{}, prodPtr: map[*ldpc.Codeword]*encRec{}, prodCon: map[uint64]*encRec{}, rxMsg: map[*ldpc.Codeword]*gobMsg{}, rxDec: map[*simrt.GobDecoder]*decRec{}, rxPend: map[*simrt.GobDecoder][]lossEv{}, quietAt: 1 << 62, waitEnc: map[*simrt.Task]*encRec{}, waitDec: map[*simrt.Task]*decRec{}, garbled: map[*simrt.Proc]bool{}}
	s.OnCall("ldpc.NewEncoder", m.onNewEncoder)
	s.OnCall("ldpc.NewDecoder", m.onNewDecoder)
	s.OnCall("ldpc.Encoder.AddTransaction", m.onEncAdd)
	s.OnCall("ldpc.Encoder.ProduceCodeword", m.onProduce)
	s.OnCall("ldpc.Decoder.AddTransaction", m.onDecAdd)
	s.OnCall("ldpc.Decoder.AddCodeword", m.onDecCw)
	s.OnCall("ldpc.PendingCodeword.Free", m.onFree)
	s.OnCall("ldpc.Transaction.UnmarshalBinary", m.onUnmarshal)
	s.OnCall("gob.Encode", m.onEncode)
	s.OnCall("gob.Decode", m.onDecode)
	return m
}

func (m *monitor) addNode(idx, inc int, p *simrt.Proc) *nodeRec {
	n := &nodeRec{idx: idx, inc: inc, proc: p, count: map[int32]int{}, countU: map[int32]int{}, first: map[int32]int64{}, booted: m.s.Now(), offs: []wallOff{{-1 << 62, p.WallOff}}}
	m.byProc[p] = n
	m.nodes = append(m.nodes, n)
	return n
}

func (m *monitor) fail(prop, class, f string, a ...any) {
	if prop == m.prop {
		m.s.Fail(prop, class, f, a...)
	}
}

func (m *monitor) cid(t *ldpc.Transaction) int32 {
	var k [ldpc.TxSize]byte
	copy(k[:], t.Serialized())
	c, ok := m.cids[k]
	if !ok {
		c = int32(len(m.cids) + 1)
		m.cids[k] = c
	}
	return c
}

func cwHash(c *ldpc.Codeword) uint64 {
	h := uint64(14695981039346656037)
	for _, b := range c.Symbol {
		h = (h ^ uint64(b)) * 1099511628211
	}
	for _, x := range c.Members {
		h = (h ^ uint64(x)) * 1099511628211
		h ^= h >> 31
	}
	return h
}

func (m *monitor) pairUp(task *simrt.Task) {
	e, d := m.waitEnc[task], m.waitDec[task]
	if e == nil || d == nil {
		return
	}
	delete(m.waitEnc, task)
	delete(m.waitDec, task)
	p := &pair{node: e.node, enc: e, dec: d, seq: len(e.node.pairs)}
	e.pair, d.pair = p, p
	e.node.pairs = append(e.node.pairs, p)
}

func (m *monitor) onNewEncoder(c *simrt.Call) {
	if !c.After {
		return
	}
	n := m.byProc[c.Proc]
	if n == nil {
		return
	}
	ptr := *(c.Results[0].(**ldpc.Encoder))
	e := &encRec{id: len(m.encs), node: n, salt: c.Args[0].([ldpc.SaltSize]byte), created: m.s.Now(), task: c.Task, adds: map[int32]int{}}
	m.encs[ptr] = e
	n.encs = append(n.encs, e)
	m.waitEnc[c.Task] = e
	if m.load != nil {
		m.load.key(e)
	}
	m.pairUp(c.Task)
}

func (m *monitor) onNewDecoder(c *simrt.Call) {
	if !c.After {
		return
	}
	n := m.byProc[c.Proc]
	if n == nil {
		return
	}
	ptr := *(c.Results[0].(**ldpc.Decoder))
	d := &decRec{id: len(m.decs), node: n, salt: c.Args[0].([ldpc.SaltSize]byte), created: m.s.Now(), adds: map[int32]int{}, addT: map[int32]int64{}, known: map[int32]bool{}, live: map[*ldpc.PendingCodeword]*stubRec{}}
	m.decs[ptr] = d
	n.decs = append(n.decs, d)
	m.waitDec[c.Task] = d
	m.pairUp(c.Task)
}

func (m *monitor) onUnmarshal(c *simrt.Call) {
	if c.Nested {
		return
	}
	n := m.byProc[c.Proc]
	if n == nil {
		return
	}
	if !c.After {
		if m.s.Now() >= m.quietAt {
			// the workload is over: no more local transactions
			m.s.Probe("generator_parked")
			simrt.SitForever()
		}
		return
	}
	t := c.Recv.(*ldpc.Transaction)
	id := m.cid(t)
	ev := event{cid: id, local: true, t: m.s.Now()}
	n.events = append(n.events, ev)
	n.locals = append(n.locals, ev)
	n.count[id]++
	n.countU[id]++
	if _, ok := n.first[id]; !ok {
		n.first[id] = ev.t
	}
	m.s.Note("gen", int64(n.idx), int64(id))
	if m.load != nil {
		m.load.generated(n, t, id)
	}
}

func (m *monitor) onEncAdd(c *simrt.Call) {
	e := m.encs[c.Recv.(*ldpc.Encoder)]
	if e == nil || !c.After || c.Nested {
		return
	}
	id := m.cid(c.Args[0].(*ldpc.Transaction))
	ok := *(c.Results[0].(*bool))
	e.adds[id]++
	m.s.Note("eadd", int64(e.id), int64(id))
	if ok {
		e.window = append(e.window, id)
		if k := m.cfg.K; len(e.window) > k {
			e.window = e.window[len(e.window)-k:]
			m.s.Probe("window_overrun")
		}
	}
	n := e.node
	if n.count[id] == 0 {
		m.fail("C02", "advertised-unlearned", "node %d advertises on link %d a transaction it has not learned", n.idx, e.id)
	} else if e.adds[id] > n.countU[id] {
		if n.countU[id] == 0 {
			m.fail("C02", "advertised-expired", "node %d re-advertises on link %d a transaction it only recovered through timed-out codewords", n.idx, e.id)
		} else {
			m.fail("C02", "advertised-twice", "node %d handed a transaction to the encoder of link %d %d times for %d events", n.idx, e.id, e.adds[id], n.countU[id])
		}
	}
}

func (m *monitor) onDecAdd(c *simrt.Call) {
	d := m.decs[c.Recv.(*ldpc.Decoder)]
	if d == nil || c.Nested {
		return
	}
	id := m.cid(c.Args[0].(*ldpc.Transaction))
	if !c.After {
		d.adds[id]++
		if _, ok := d.addT[id]; !ok {
			d.addT[id] = m.s.Now()
		}
		d.known[id] = true
		m.s.Note("dadd", int64(d.id), int64(id))
		n := d.node
		if d.adds[id] > n.count[id] {
			m.fail("C02", "relayed-twice", "node %d handed a transaction to the decoder of link %d %d times for %d events", n.idx, d.id, d.adds[id], n.count[id])
		}
		return
	}
	m.results(d, *(c.Results[0].(*[]ldpc.DecodedTransaction)))
}

func (m *monitor) results(d *decRec, txs []ldpc.DecodedTransaction) {
	n := d.node
	if len(txs) > 20 {
		m.s.Probe("burst_decode_20")
	}
	if len(txs) > 100 {
		m.s.Probe("burst_decode_100")
	}
	for i := range txs {
		id := m.cid(txs[i].Transaction)
		d.known[id] = true
		d.results++
		ev := event{cid: id, expired: txs[i].Expired, t: m.s.Now(), dec: d}
		n.events = append(n.events, ev)
		n.count[id]++
		if _, ok := n.first[id]; !ok {
			n.first[id] = ev.t
		}
		if !ev.expired {
			n.countU[id]++
		} else {
			m.s.Probe("decoded_late")
		}
		m.seenTx++
		m.s.Note("rec", int64(d.id), int64(id))
		if m.prop == "C01" {
			e := d.peerEnc
			if e == nil {
				m.fail("C01", "decoded-from-nobody", "node %d recovered a transaction on link %d before any codeword of a peer", n.idx, d.id)
			} else if e.adds[id] == 0 {
				m.fail("C01", "decoded-unsent", "node %d recovered on link %d a transaction that node %d never put in the window of that connection", n.idx, d.id, e.node.idx)
			}
		}
	}
}

func (m *monitor) onProduce(c *simrt.Call) {
	e := m.encs[c.Recv.(*ldpc.Encoder)]
	if e == nil || !c.After {
		return
	}
	cw := *(c.Results[0].(**ldpc.Codeword))
	h := cwHash(cw)
	if len(cw.Members) > 0 {
		m.prodCon[h] = e
		m.prodPtr[cw] = e
	}
	e.prodBy = c.Task
	e.lastPrd = m.s.Now()
	e.prods = append(e.prods, prodEv{t: m.s.Now(), ptr: cw, hash: h})
	if m.prodN++; m.prodN == prodMax {
		m.s.Fail(m.prop, "runaway", "the nodes produced %d codewords in %v, many times what any load, loss and control law of these runs can call for", prodMax, time.Duration(m.s.Now()))
	}
}

// split finds the codeword and the integer loss report in a message.
func split(v any) (cw *ldpc.Codeword, loss int, ok bool) {
	r := reflect.ValueOf(v)
	for r.Kind() == reflect.Pointer || r.Kind() == reflect.Interface {
		if r.IsNil() {
			return
		}
		r = r.Elem()
	}
	if r.Kind() != reflect.Struct {
		return
	}
	for i := 0; i < r.NumField(); i++ {
		f := r.Field(i)
		switch x := f.Type(); {
		case x == reflect.TypeOf((*ldpc.Codeword)(nil)):
			cw = (*ldpc.Codeword)(f.UnsafePointer())
		case x == reflect.TypeOf(ldpc.Codeword{}) && f.CanAddr():
			cw = (*ldpc.Codeword)(f.Addr().UnsafePointer())
		}
	}
	l, _ := intFields(r)
	if l < 0 {
		return cw, 0, false
	}
	return cw, int(intOf(r.Field(l))), true
}

// intFields finds the loss report and the time stamp among the fields of a
// message, whatever integer types they have.
func intFields(r reflect.Value) (loss, stamp int) {
	loss, stamp = -1, -1
	var other []int
	for i := 0; i < r.NumField(); i++ {
		if !r.Field(i).CanInt() && !r.Field(i).CanUint() {
			continue
		}
		switch n := strings.ToLower(r.Type().Field(i).Name); {
		case strings.Contains(n, "loss") || strings.Contains(n, "lost"):
			loss = i
		case strings.Contains(n, "micro") || strings.Contains(n, "time"):
			stamp = i
		default:
			other = append(other, i)
		}
	}
	for _, i := range other {
		if loss < 0 && (r.Field(i).Kind() != reflect.Int64 || stamp >= 0) {
			loss = i
		} else if stamp < 0 && r.Field(i).Kind() == reflect.Int64 {
			stamp = i
		}
	}
	return
}

func intOf(f reflect.Value) int64 {
	if f.CanUint() {
		return int64(f.Uint())
	}
	return f.Int()
}

func (m *monitor) onEncode(c *simrt.Call) {
	if c.After || m.byProc[c.Proc] == nil {
		return
	}
	g := c.Recv.(*simrt.GobEncoder)
	cw, loss, ok := split(c.Args[0])
	if !ok {
		m.msgOdd = true
		return
	}
	n := m.byProc[c.Proc]
	var e *encRec
	for _, x := range n.encs {
		if x.tx == g {
			e = x
		}
	}
	if e == nil && cw != nil {
		// first message of this stream: find the encoder that made it
		for _, x := range n.encs {
			for i := range x.prods {
				if x.prods[i].ptr == cw {
					e = x
				}
			}
		}
		if e == nil && len(cw.Members) > 0 {
			if x := m.prodCon[cwHash(cw)]; x != nil && x.node == n {
				e = x
			}
		}
		if e != nil {
			e.tx = g
		}
	}
	if e == nil {
		m.s.Probe("unlinked_message")
		m.sentOdd = true
		return
	}
	e.wire += loss
	e.wireN++
	if cw != nil {
		e.sent = append(e.sent, loss)
	}
	m.s.Note("wire", int64(e.id), int64(loss))
	if cw != nil {
		h := uint64(0)
		for i := e.encIdx; i < len(e.prods); i++ {
			p := &e.prods[i]
			hit := p.ptr == cw
			if !hit && i == e.encIdx {
				if h == 0 {
					h = cwHash(cw)
				}
			}
			if !hit && h == p.hash && p.ptr != cw {
				// same content through a copy: accept only if no pointer matches
				found := false
				for j := i + 1; j < len(e.prods); j++ {
					if e.prods[j].ptr == cw {
						found = true
						break
					}
				}
				hit = !found
			}
			if hit {
				p.encoded = true
				e.encIdx = i + 1
				break
			}
		}
	}
	if e.pair != nil && loss != 0 {
		d := e.pair.dec
		if loss < 0 {
			m.fail("C05", "negative-report", "node %d put loss %d on link %d", n.idx, loss, e.id)
		}
		if e.wire > d.given {
			m.fail("C05", "over-reported", "node %d reported %d lost codewords to its peer on link %d, but gave up only %d", n.idx, e.wire, e.id, d.given)
		}
	}
}

// stampOf finds the time stamp in a message.
func stampOf(v any) int64 {
	r := reflect.ValueOf(v)
	for r.Kind() == reflect.Pointer || r.Kind() == reflect.Interface {
		r = r.Elem()
	}
	if _, i := intFields(r); i >= 0 {
		return intOf(r.Field(i))
	}
	return 0
}

func (m *monitor) onDecode(c *simrt.Call) {
	if !c.After || m.byProc[c.Proc] == nil {
		return
	}
	if err := *(c.Results[0].(*error)); err != nil {
		return
	}
	g := c.Recv.(*simrt.GobDecoder)
	cw, loss, ok := split(c.Args[0])
	if !ok || cw == nil {
		return
	}
	m.rxMsg[cw] = &gobMsg{loss: loss, arr: m.s.Now(), um: stampOf(c.Args[0]), rx: g}
	if d := m.rxDec[g]; d != nil {
		d.arrived++
		d.losses = append(d.losses, lossEv{arr: m.s.Now(), add: -1, n: loss})
		m.compareReport(d, len(d.losses)-1)
	} else {
		m.rxPend[g] = append(m.rxPend[g], lossEv{arr: m.s.Now(), add: -1, n: loss})
	}
}

// compareReport checks that the k-th loss report a node read is the one its peer
// sent, and keeps the latter.
func (m *monitor) compareReport(d *decRec, k int) {
	e := d.peerEnc
	if e == nil || m.sentOdd || m.garbled[d.node.proc] || k >= len(e.sent) {
		return
	}
	if l := &d.losses[k]; l.n != e.sent[k] {
		m.fail("C05", "report-altered", "node %d put loss %d on codeword %d of link %d, node %d took it for %d", e.node.idx, e.sent[k], k, e.id, d.node.idx, l.n)
		l.n = e.sent[k]
	}
}

func (m *monitor) onDecCw(c *simrt.Call) {
	d := m.decs[c.Recv.(*ldpc.Decoder)]
	if d == nil || c.Nested {
		return
	}
	now := m.s.Now()
	if !c.After {
		cw := c.Args[0].(*ldpc.Codeword)
		msg := m.rxMsg[cw]
		delete(m.rxMsg, cw)
		arr, um := now, int64(0)
		if msg != nil {
			arr, um = msg.arr, msg.um
			if d.rx == nil {
				d.rx = msg.rx
				m.rxDec[msg.rx] = d
				d.losses = append(d.losses, m.rxPend[msg.rx]...)
				d.arrived += len(m.rxPend[msg.rx])
				delete(m.rxPend, msg.rx)
			}
		}
		if d.addN < len(d.losses) {
			d.losses[d.addN].add = now
		}
		m.s.Note("cw", int64(d.id), int64(len(cw.Members)))
		if len(cw.Members) > 0 {
			if e := m.prodCon[cwHash(cw)]; e != nil {
				if d.peerEnc == nil {
					d.peerEnc = e
					e.peerDec = d
					for k := range d.losses {
						m.compareReport(d, k)
					}
					if e.salt != d.salt {
						m.fail("C08", "keys-differ", "node %d decodes on link %d with key %x, node %d encodes with %x", d.node.idx, d.id, d.salt, e.node.idx, e.salt)
					}
					if e.node == d.node {
						m.s.Probe("self_connection")
					}
				} else if d.peerEnc != e {
					m.fail("C01", "cross-talk", "decoder of link %d at node %d received a codeword of another connection", d.id, d.node.idx)
				}
			} else if !m.garbled[d.node.proc] {
				m.fail("C01", "corrupt-codeword", "decoder of link %d at node %d received a codeword that no encoder produced", d.id, d.node.idx)
			}
		}
		// C07: everything that timed out before this codeword arrived has been
		// released
		lower := arr
		if d.addN > 0 && d.prevAdd > lower {
			lower = d.prevAdd
		}
		if m.prop == "C07" {
			for i := d.freeIdx; i < len(d.stubs); i++ {
				st := d.stubs[i]
				if st.add+m.cfg.timeout() <= lower {
					if !st.freed {
						m.fail("C07", "released-late", "node %d processes a codeword that arrived at %v although codeword #%d, processed at %v, is not released (timeout %v)", d.node.idx, time.Duration(arr), st.seq, time.Duration(st.add), time.Duration(m.cfg.timeout()))
						break
					}
				} else {
					break
				}
			}
		}
		c.Aux = [3]int64{arr, now, um}
		d.addN++
		d.lastAdd = now
		d.by = c.Task
		return
	}
	aux := c.Aux.([3]int64)
	st := &stubRec{ptr: *(c.Results[0].(**ldpc.PendingCodeword)), seq: len(d.stubs), arr: aux[0], add: aux[1], um: aux[2]}
	st.wall = d.node.walls(aux[0], aux[1])
	if st.arr < d.prevAdd {
		st.arr = d.prevAdd
	}
	d.prevAdd = aux[1]
	if o := m.stubs[st.ptr]; o != nil && !o.freed {
		m.fail("C07", "stub-reused", "a codeword of link %d shares its record with a codeword that was not released", d.id)
	}
	d.stubs = append(d.stubs, st)
	m.stubs[st.ptr] = st
	m.stubDec[st.ptr] = d
	m.results(d, *(c.Results[1].(*[]ldpc.DecodedTransaction)))
}

func (m *monitor) onFree(c *simrt.Call) {
	if c.After {
		return
	}
	p := c.Recv.(*ldpc.PendingCodeword)
	st, d := m.stubs[p], m.stubDec[p]
	if st == nil {
		return
	}
	now := m.s.Now()
	if st.freed {
		m.fail("C07", "released-twice", "node %d releases codeword #%d of link %d twice", d.node.idx, st.seq, d.id)
		return
	}
	st.freed = true
	st.freeT = now
	und := !p.Decoded()
	m.s.Note("free", int64(d.id), int64(st.seq))
	if und {
		d.given++
		d.givenAt = append(d.givenAt, now)
		m.s.Probe("codeword_given_up")
	}
	if d.freeIdx < len(d.stubs) && d.stubs[d.freeIdx] != st {
		m.fail("C07", "released-out-of-order", "node %d releases codeword #%d of link %d before #%d", d.node.idx, st.seq, d.id, d.stubs[d.freeIdx].seq)
	}
	d.freeIdx = st.seq + 1
	// arr is the earliest moment at which the node can have processed it
	if now < st.arr+m.cfg.timeout() {
		m.fail("C07", "released-early", "node %d releases codeword #%d of link %d after %v, timeout is %v", d.node.idx, st.seq, d.id, time.Duration(now-st.arr), time.Duration(m.cfg.timeout()))
	}
}

func (m *monitor) name(n *nodeRec) string { return fmt.Sprintf("n%d.%d", n.idx, n.inc) }
