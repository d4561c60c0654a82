package main

import (
	"reflect"
	"sort"
	"strings"

	"verif/simrt"
)

// nlink is one link of the coding protocol; a sends codewords, b receives.
type nlink struct {
	a, b      int
	opened    int // blocks opened by a
	completed int // completions delivered to a
	aOpen     bool
	bOpen     bool
	bSeen     bool
	ranges    [][2]uint64
	inBlock   int // codewords of the block received by b
	calmDone  int // completed when the load was over, -1
	due       []due
	begun     [2]int            // blocks that began at the lower and the higher numbered end
	in        [2]map[uint64]int // the block in which an end took in a transaction
	// codewords sent and acknowledged, of this block and, acknowledged, of the previous one
	sent, acked, prevAcked int
}

// due is a transaction one end of a link has: after the block count has
// reached a mark the other end must have it as well.
type due struct {
	t    uint64
	end  int // who must have it
	mark int
}

// turn is a transaction of a server that takes part in the blocks of all links
// but the one it came from: within one cycle each of them has taken it in.
type turn struct {
	t    uint64
	at   int
	mark map[int]int // by neighbour: blocks begun when its turn has passed
}

// nworld checks newsim.
type nworld struct {
	*world
	links map[[2]int]*nlink // by unordered pair
	known []map[uint64]int64
	truth map[uint64]int64  // idx to timestamp
	hashT map[uint64]uint64 // idx to hash
	byH   map[uint64]uint64
	next  uint64
	learn []tx // learned while handling the current message
	encs  map[any]map[uint64]bool
	count []map[uint64]int // how many link ends of a server have taken in a transaction
	turns []*turn
	acted map[int]bool // handled an event
	// pull
	ann  map[[2]int]map[uint64]bool
	reqd map[[2]int]map[uint64]int
	remo []tx
	hasR bool
	over []map[uint64]int // the neighbour a server first got a transaction from, -1 for itself
}

func newNworld(w *world) *nworld {
	n := &nworld{world: w, links: map[[2]int]*nlink{}, truth: map[uint64]int64{}, hashT: map[uint64]uint64{}, byH: map[uint64]uint64{}, encs: map[any]map[uint64]bool{}, acted: map[int]bool{}, ann: map[[2]int]map[uint64]bool{}, reqd: map[[2]int]map[uint64]int{}}
	for range w.nbr {
		n.known = append(n.known, map[uint64]int64{})
		n.count = append(n.count, map[uint64]int{})
		n.over = append(n.over, map[uint64]int{})
	}
	w.onDeliver = n.deliver
	w.onHandled = n.handled
	w.s.OnCall("riblt.Decoder.Remote", func(c *simrt.Call) {
		if c.After && !n.off && n.inMsg != nil {
			n.remo = append(n.remo, txsOf(c.Results[0])...)
			n.hasR = true
		}
	})
	if w.prop == "C19" || w.prop == "C20" {
		depth := 0 // one way to add a symbol may use another
		once := func(c *simrt.Call) {
			if c.After {
				depth--
				return
			}
			if depth++; depth > 1 || n.off || n.inMsg == nil {
				return
			}
			t := txOf(reflect.ValueOf(c.Args[0]))
			n.count[n.inMsg.to][t.idx]++
			if w.prop == "C20" {
				n.intake(t.idx, strings.Contains(c.Name, "Encoder"))
			}
			m := n.encs[c.Recv]
			if m == nil {
				m = map[uint64]bool{}
				n.encs[c.Recv] = m
			}
			if m[t.idx] {
				n.fail("twice", "server %d put transaction %d into the same link's codec twice", n.inMsg.to, t.idx)
				return
			}
			m[t.idx] = true
		}
		w.s.OnCall("riblt.Encoder.AddHashedSymbol", once)
		w.s.OnCall("riblt.Decoder.AddHashedSymbol", once)
		w.s.OnCall("riblt.Encoder.AddSymbol", once)
		w.s.OnCall("riblt.Decoder.AddSymbol", once)
	}
	return n
}

func (n *nworld) link(a, b int) *nlink {
	k := [2]int{min(a, b), max(a, b)}
	l := n.links[k]
	if l == nil {
		l = &nlink{a: -1, b: -1, calmDone: -1}
		n.links[k] = l
	}
	return l
}

func (n *nworld) isNbr(a, b int) bool {
	_, ok := n.delay[[2]int{a, b}]
	return ok
}

// content checks a transaction seen anywhere against what was generated.
func (n *nworld) content(where string, t tx) bool {
	ts, ok := n.truth[t.idx]
	if !ok {
		n.fail("content", "%s carries transaction %d, which nobody generated", where, t.idx)
		return false
	}
	if ts != t.ts {
		n.fail("content", "%s carries transaction %d with timestamp %d instead of %d", where, t.idx, t.ts, ts)
		return false
	}
	if h, ok := n.hashT[t.idx]; ok && h != t.hash {
		n.fail("content", "%s carries transaction %d with another hash", where, t.idx)
		return false
	}
	n.hashT[t.idx] = t.hash
	n.byH[t.hash] = t.idx
	return true
}

// get notes that server i learns t; from is the neighbour it came from, -1 for
// its own.
func (n *nworld) get(i int, t tx, from int) {
	if _, ok := n.known[i][t.idx]; ok {
		return
	}
	n.known[i][t.idx] = n.now
	n.over[i][t.idx] = from
	n.learn = append(n.learn, t)
}

func (n *nworld) deliver(m *msg) {
	n.learn = n.learn[:0]
	n.remo = n.remo[:0]
	n.hasR = false
	switch m.kind {
	case kArrive:
		for k := 0; k < m.n; k++ {
			n.next++
			n.truth[n.next] = n.now
			n.get(m.to, tx{idx: n.next, ts: n.now}, -1)
		}
	case kBcast, kResp:
		if n.content(m.kind, m.txs[0]) {
			n.get(m.to, m.txs[0], m.from)
		}
		if m.kind == kResp && n.c.Algo == "pull" {
			if n.prop == "C21" && n.reqd[[2]int{m.to, m.from}][m.txs[0].hash] == 0 {
				n.fail("unasked", "server %d sent %d transaction %d, which it did not ask for", m.from, m.to, m.txs[0].idx)
			}
		}
	case kAnn:
		if n.c.Algo == "coding" {
			n.fail("kind", "announcement in the coding protocol")
		}
	case kAck:
		l := n.link(m.from, m.to)
		for _, t := range m.txs {
			if !n.content("acknowledgement", t) {
				return
			}
			n.get(m.to, t, m.from)
		}
		l.acked++
		if m.ackBlock {
			l.completed++
			l.aOpen = false
		}
	case kCode:
		l := n.link(m.from, m.to)
		if m.newBlock {
			if n.prop == "C20" && l.bOpen {
				n.fail("overlap", "server %d starts a block while the previous one of %d is still being received", m.from, m.to)
				return
			}
			l.bOpen = true
			l.inBlock = 0
		}
		l.inBlock++
		if n.prop == "C20" && l.inBlock > 20*n.total+300 {
			n.fail("endless-block", "server %d has received %d codewords of one block of %d without completing it; there are %d transactions", m.to, l.inBlock, m.from, n.total)
		}
	}
}

func (n *nworld) handled(in *msg, out []*msg) {
	if n.off {
		return
	}
	for _, m := range out {
		if m.to != m.from && !n.isNbr(m.from, m.to) {
			n.fail("topology", "server %d sends a %s to %d, which is not its neighbour", m.from, m.kind, m.to)
			return
		}
	}
	if n.c.Algo == "pull" {
		n.pull(in, out)
	} else {
		n.coding(in, out)
	}
	if n.off {
		return
	}
	// the server's own record
	if rm, ok := receivedMap(n.ptr[in.to]); ok && (n.prop == "C19" || n.prop == "C21") {
		for _, t := range n.learn {
			if !rm.MapIndex(reflect.ValueOf(t.idx)).IsValid() {
				n.fail("dropped", "server %d got transaction %d but does not record it", in.to, t.idx)
				return
			}
		}
	}
	if n.nev%16 == 0 || n.nPend == 0 {
		n.progress()
	}
}

func (n *nworld) coding(in *msg, out []*msg) {
	// completion of a block at the receiver
	var ack *msg
	acks := 0
	for _, m := range out {
		if m.kind == kAck && in.kind == kCode && m.to == in.from {
			ack = m
			acks++
		}
	}
	if in.kind == kCode {
		l := n.link(in.from, in.to)
		if ack != nil && ack.ackBlock {
			for _, t := range n.remo {
				if !n.content("decoded set", t) {
					return
				}
				n.get(in.to, t, in.from)
			}
		}
		if n.prop == "C20" {
			want := 0
			if l.bOpen {
				want = 1
			}
			if acks != want {
				n.fail("acks", "server %d answers a codeword of %d with %d acknowledgements instead of %d (block open: %v)", in.to, in.from, acks, want, l.bOpen)
				return
			}
			if ack != nil && ack.ackStart != in.newBlock {
				n.fail("start-mark", "server %d marks a codeword (first of its block: %v) as start: %v", in.to, in.newBlock, ack.ackStart)
				return
			}
		}
		if ack != nil && ack.ackBlock {
			l.bOpen = false
			n.s.Probes["blocks"]++
		}
	}
	for _, m := range out {
		if m.to == m.from {
			continue
		}
		l := n.link(m.from, m.to)
		switch m.kind {
		case kCode:
			if l.a < 0 {
				l.a, l.b = m.from, m.to
			}
			if n.prop == "C20" {
				if l.a != m.from {
					n.fail("roles", "both ends of the link %d-%d send codewords", m.from, m.to)
					return
				}
				if m.newBlock && l.aOpen {
					n.fail("early-block", "server %d opens the next block towards %d before the previous one was reported decoded", m.from, m.to)
					return
				}
				if !m.newBlock && !l.aOpen {
					n.fail("no-block", "server %d sends %d a codeword outside a block", m.from, m.to)
					return
				}
			}
			if m.newBlock {
				l.prevAcked, l.acked, l.sent = l.acked, 0, 0
			}
			l.sent++
			if m.newBlock {
				l.opened++
				l.aOpen = true
				n.begin(m.from, m.to)
				if n.prop == "C20" && !n.shard(l, m) {
					return
				}
			}
		case kAck:
			if n.prop == "C20" && (in.kind != kCode || m.to != in.from) {
				n.fail("stray-ack", "server %d acknowledges to %d although it was not handed a codeword by it", m.from, m.to)
				return
			}
		case kBcast:
		default:
			n.fail("kind", "server %d sends a %s in the coding protocol", m.from, m.kind)
			return
		}
	}
	if in.kind == kCode && in.newBlock {
		n.begin(in.to, in.from)
	}
	if n.prop == "C19" {
		n.reconciled(in, out)
	}
	if n.prop == "C20" {
		n.turnsPassed(in)
	}
	if n.prop == "C34" {
		n.acted[in.to] = true
		for _, j := range n.nbr[in.to] {
			l := n.link(in.to, j)
			if l.a < 0 && n.acted[j] {
				n.fail("not-started", "neither end of the link %d-%d has sent a codeword although both have handled an event", in.to, j)
				return
			}
			if l.a == in.to && !n.window(l) {
				return
			}
		}
	}
}

// window checks what a sender has under way: as many codewords as its window
// allows and no more. Whether the acknowledgement that ends a block counts is
// left open.
func (n *nworld) window(l *nlink) bool {
	if !l.aOpen {
		n.fail("no-block", "server %d was told that %d has decoded the block and does not open the next", l.a, l.b)
		return false
	}
	c := n.c.Ctrl
	under := l.sent - l.acked
	grown := c * float64(l.acked)
	low := max(1, c*float64(l.prevAcked-1)) + grown
	high := max(1, c*float64(l.prevAcked)) + grown
	burst := 1 + 2*l.prevAcked/3
	if float64(under) < low-1e-6 {
		n.fail("window-not-full", "server %d has only %d codewords under way to %d although its window is %.3f (%d of this block and %d of the previous one acknowledged)", l.a, under, l.b, low, l.acked, l.prevAcked)
		return false
	}
	if under > burst-l.acked && float64(under-1) >= high+1e-6 {
		n.fail("window-exceeded", "server %d has %d codewords under way to %d although its window is only %.3f (%d of this block and %d of the previous one acknowledged, burst %d)", l.a, under, l.b, high, l.acked, l.prevAcked, burst)
		return false
	}
	if l.acked > 1 {
		n.s.Probes["windows"]++
	}
	return true
}

// intake notes the block in which one end of a link takes in a transaction:
// a later block than the other end's is one of the same shard. Which link it is
// follows from the message that opens the block.
func (n *nworld) intake(t uint64, enc bool) {
	m := n.inMsg
	if enc != (m.kind == kAck) || !enc && (m.kind != kCode || !m.newBlock) {
		return
	}
	if by, ok := n.over[m.to][t]; ok && by == m.from {
		n.fail("sent-back", "server %d takes transaction %d into a block of its link to %d although it was over this very link that it learned it", m.to, t, m.from)
		return
	}
	l := n.link(m.from, m.to)
	i := side(m.to, m.from)
	if l.in[0] == nil {
		l.in = [2]map[uint64]int{{}, {}}
	}
	k := l.begun[i] + 1
	l.in[i][t] = k
	if j, ok := l.in[1-i][t]; ok {
		if (k-j)%n.c.Shards != 0 {
			n.fail("shard", "server %d takes transaction %d into block %d of its link to %d, which took it into block %d: with %d shards the two ends do not agree on its shard", m.to, t, k, m.from, j, n.c.Shards)
			return
		}
		n.s.Probes["shard_agreed"]++
	}
}

func side(at, peer int) int {
	if at < peer {
		return 0
	}
	return 1
}

func (n *nworld) begin(at, peer int) { n.link(at, peer).begun[side(at, peer)]++ }

// turnsPassed checks that every transaction of a server is taken in by each
// link it is to be sent over while that link goes through the hash space once.
func (n *nworld) turnsPassed(in *msg) {
	for _, t := range n.learn {
		if n.c.Flood && in.kind == kArrive {
			continue // broadcast instead
		}
		u := &turn{t: t.idx, at: in.to, mark: map[int]int{}}
		for _, j := range n.nbr[in.to] {
			if j != in.from || in.kind == kArrive {
				u.mark[j] = n.link(in.to, j).begun[side(in.to, j)] + n.c.Shards
			}
		}
		if len(u.mark) > 0 {
			n.turns = append(n.turns, u)
		}
	}
	if n.nev%16 != 0 {
		return
	}
	k := 0
	for _, u := range n.turns {
		passed := true
		for j, m := range u.mark {
			passed = passed && n.link(u.at, j).begun[side(u.at, j)] >= m
		}
		if !passed {
			n.turns[k] = u
			k++
			continue
		}
		if got := n.count[u.at][u.t]; got < len(u.mark) {
			n.fail("skipped", "all %d links server %d has to send transaction %d over have gone through the hash space once since, but only %d of them have taken it in", len(u.mark), u.at, u.t, got)
			return
		}
		n.s.Probes["turns_checked"]++
	}
	n.turns = n.turns[:k]
}

// shard checks the cycle of hash ranges.
func (n *nworld) shard(l *nlink, m *msg) bool {
	r := [2]uint64{m.start, m.end}
	S := n.c.Shards
	k := len(l.ranges)
	l.ranges = append(l.ranges, r)
	if k >= S {
		if l.ranges[k-S] != r {
			n.fail("cycle", "block %d from %d to %d covers [%x,%x) but one cycle of %d earlier it was [%x,%x)", k, m.from, m.to, r[0], r[1], S, l.ranges[k-S][0], l.ranges[k-S][1])
			return false
		}
		return true
	}
	if k == S-1 {
		rs := append([][2]uint64(nil), l.ranges...)
		sort.Slice(rs, func(i, j int) bool { return rs[i][0] < rs[j][0] })
		if S > 1 {
			for i := range rs {
				if rs[i][1] != rs[(i+1)%S][0] {
					n.fail("tiling", "the %d blocks of a cycle from %d to %d do not cover the hash space once: [%x,%x) is followed by [%x,%x)", S, m.from, m.to, rs[i][0], rs[i][1], rs[(i+1)%S][0], rs[(i+1)%S][1])
					return false
				}
			}
		} else if rs[0][0] != rs[0][1] {
			n.fail("tiling", "the single shard is [%x,%x)", rs[0][0], rs[0][1])
			return false
		}
		n.s.Probes["shard_cycles"]++
	}
	return true
}

// reconciled checks that what one end of a link knows reaches the other
// within one cycle of blocks.
func (n *nworld) reconciled(in *msg, out []*msg) {
	for _, t := range n.learn {
		for _, j := range n.nbr[in.to] {
			if _, ok := n.known[j][t.idx]; ok {
				continue
			}
			if n.c.Flood && in.kind == kArrive {
				continue // broadcast, checked at the end
			}
			l := n.link(in.to, j)
			l.due = append(l.due, due{t.idx, j, l.opened + n.c.Shards})
		}
	}
	if in.kind == kAck && in.ackBlock {
		l := n.link(in.from, in.to)
		k := 0
		for _, d := range l.due {
			if _, ok := n.known[d.end][d.t]; ok {
				continue
			}
			if l.completed >= d.mark {
				n.fail("missed", "server %d still lacks transaction %d although its link to %d completed a whole cycle of %d blocks since that end had it", d.end, d.t, in.from+in.to-d.end, n.c.Shards)
				return
			}
			l.due[k] = d
			k++
		}
		l.due = l.due[:k]
	}
}

func (n *nworld) pull(in *msg, out []*msg) {
	resp := 0
	for _, m := range out {
		if m.to == m.from {
			continue
		}
		k := [2]int{m.from, m.to}
		switch m.kind {
		case kAnn:
			if n.ann[k] == nil {
				n.ann[k] = map[uint64]bool{}
			}
			if n.prop == "C21" {
				if n.ann[k][m.hash] {
					n.fail("announced-twice", "server %d announces the transaction with hash %x to %d again", m.from, m.hash, m.to)
					return
				}
				if t, ok := n.byH[m.hash]; ok {
					if by, ok := n.over[m.from][t]; ok && by == m.to {
						n.fail("announced-back", "server %d announces transaction %d to %d, over whose link it learned it", m.from, t, m.to)
						return
					}
				}
				n.s.Probes["announcements"]++
			}
			n.ann[k][m.hash] = true
		case kReq:
			if n.reqd[k] == nil {
				n.reqd[k] = map[uint64]int{}
			}
			n.reqd[k][m.hash]++
			if n.prop != "C21" {
				continue
			}
			if !n.ann[[2]int{m.to, m.from}][m.hash] {
				n.fail("request-unannounced", "server %d asks %d for a transaction it did not announce", m.from, m.to)
				return
			}
			if n.reqd[k][m.hash] > 1 && n.c.Shape.Dup == 0 {
				n.fail("request-twice", "server %d asks %d again for the transaction with hash %x", m.from, m.to, m.hash)
				return
			}
			if n.ann[k][m.hash] {
				n.fail("request-announced", "server %d asks %d for a transaction it announced to it itself", m.from, m.to)
				return
			}
			if t, ok := n.byH[m.hash]; ok && !n.c.Flood {
				if at, ok := n.known[m.from][t]; ok {
					n.fail("request-known", "server %d asks %d for transaction %d, which it has since %d ns", m.from, m.to, t, at)
					return
				}
			}
		case kResp:
			if in.kind != kReq || m.to != in.from {
				n.fail("unasked", "server %d sends a transaction to %d without a request", m.from, m.to)
				return
			}
			resp++
			if m.txs[0].hash != in.hash {
				n.fail("wrong-answer", "server %d answers a request for %x with the transaction with hash %x", m.from, in.hash, m.txs[0].hash)
				return
			}
			if !n.content("response", m.txs[0]) {
				return
			}
		case kBcast:
		default:
			n.fail("kind", "server %d sends a %s in the pull protocol", m.from, m.kind)
			return
		}
	}
	if in.kind == kReq && resp != 1 {
		n.fail("unanswered", "server %d answers a request of %d with %d transactions", in.to, in.from, resp)
	}
	if in.kind == kReq {
		n.s.Probes["responses"]++
	}
}

// complete tells whether everybody has everything.
func (n *nworld) complete() bool {
	for _, k := range n.known {
		if len(k) < len(n.truth) {
			return false
		}
	}
	return true
}

// progress ends the run when nothing more is to be seen, or finds that the
// gossip has failed.
func (n *nworld) progress() {
	if n.calm < 0 || n.now < n.calm {
		return
	}
	switch n.prop {
	case "C19":
		cyc := true
		for _, e := range n.c.Edges {
			l := n.link(e[0], e[1])
			if l.calmDone < 0 {
				l.calmDone = l.completed
			}
			if l.completed < l.calmDone+n.c.Shards && !n.c.Flood {
				cyc = false
			}
		}
		if n.complete() && cyc {
			n.final()
			n.quit("complete")
			return
		}
		N, T, S := int64(n.n()), int64(n.total), int64(n.c.Shards)
		if n.now > n.calm+(N*(2*T+S+100)+400)*n.rtt() || n.nPend == 0 {
			n.incomplete()
		}
	case "C21":
		if n.nPend == 0 {
			if !n.complete() {
				n.incomplete()
				return
			}
			n.final()
			n.quit("complete")
		}
	}
}

func (n *nworld) incomplete() {
	for i, k := range n.known {
		for t := uint64(1); t <= n.next; t++ {
			if _, ok := k[t]; !ok {
				n.fail("undelivered", "transaction %d never reached server %d although the load ended at %dms (%d messages under way, %d servers, %d transactions)", t, i, n.calm/1e6, n.nPend, n.n(), n.total)
				return
			}
		}
	}
	n.fail("stalled", "the links make no progress any more although the load ended at %dms (%d messages under way)", n.calm/1e6, n.nPend)
}

// final compares the servers' own records.
func (n *nworld) final() {
	for i := range n.known {
		if rm, ok := receivedMap(n.ptr[i]); ok {
			if rm.Len() != len(n.truth) {
				n.fail("records", "server %d records %d transactions of %d", i, rm.Len(), len(n.truth))
				return
			}
			for t := range n.truth {
				if !rm.MapIndex(reflect.ValueOf(t)).IsValid() {
					n.fail("records", "server %d does not record transaction %d", i, t)
					return
				}
			}
		}
	}
	n.s.Probes["complete"]++
}
