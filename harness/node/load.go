package main

import (
	"encoding/binary"
	"math"
	"sort"
	"time"

	"github.com/yangl1996/rateless-set-reconcile/ldpc"
)

// loadw checks what nodes generate (C35).
type loadw struct {
	m     *monitor
	cids  map[int32]int         // who generated a transaction
	words map[uint64]*nodeRec   // eight bytes of a content
	salts map[[16]byte]*nodeRec // keys chosen
	seen  map[*nodeRec]int
}

const loadSample = 300 // transactions of a node whose content is compared

func newLoadw(m *monitor) *loadw {
	return &loadw{m: m, cids: map[int32]int{}, words: map[uint64]*nodeRec{}, salts: map[[16]byte]*nodeRec{}, seen: map[*nodeRec]int{}}
}

// generated is called for every transaction a node generates.
func (l *loadw) generated(n *nodeRec, t *ldpc.Transaction, id int32) {
	m := l.m
	if by, ok := l.cids[id]; ok {
		m.fail("C35", "not-unique", "node %d generates a transaction that node %d has generated before", n.idx, by)
		return
	}
	l.cids[id] = n.idx
	if m.cfg.tx(n.idx) == 0 {
		m.fail("C35", "unwanted-load", "node %d generates a transaction although it was told to generate none", n.idx)
		return
	}
	b := t.Serialized()
	w := n.walls(m.s.Now(), m.s.Now())
	if at := int64(binary.LittleEndian.Uint64(b)); at != w[0]/1000 && at != w[1]/1000 {
		m.fail("C35", "stamp", "node %d stamps a transaction generated at %dus of its clock with %dus", n.idx, w[0]/1000, at)
		return
	}
	if l.seen[n]++; l.seen[n] > loadSample {
		return
	}
	c := b[8:]
	for i := 0; i+8 <= len(c); i++ {
		if o := l.words[binary.LittleEndian.Uint64(c[i:])]; o != nil && o != n {
			m.fail("C35", "same-content", "node %d (start %d) generates a transaction that has eight bytes in common with one of node %d (start %d)", n.idx, n.inc, o.idx, o.inc)
			return
		}
	}
	for i := 0; i+8 <= len(c); i += 8 {
		l.words[binary.LittleEndian.Uint64(c[i:])] = n
	}
	m.s.Probe("contents_compared")
}

// key is called for the key of every connection.
func (l *loadw) key(e *encRec) {
	if o := l.salts[e.salt]; o != nil {
		l.m.fail("C35", "same-key", "node %d (start %d) chooses a key that node %d (start %d) has chosen, too", e.node.idx, e.node.inc, o.idx, o.inc)
		return
	}
	l.salts[e.salt] = e.node
	l.m.s.Probe("keys_compared")
}

func (l *loadw) final(end int64) {
	m := l.m
	var pool []float64
	gaps := map[*nodeRec][]int64{}
	for k, n := range m.nodes {
		rate := m.cfg.tx(n.idx) / 1e9
		if rate == 0 || n.idx >= m.cfg.Nodes {
			continue
		}
		to := end
		if n.died > 0 {
			to = min(to, n.died)
		}
		want := rate * float64(to-n.booted)
		var gs []int64
		last, cnt := n.booted, 0
		for _, e := range n.locals {
			if e.t > to {
				break
			}
			gs = append(gs, e.t-last)
			last = e.t
			cnt++
		}
		// both tests have a false alarm probability below 1e-12
		d := want
		if cnt > 0 {
			d = float64(cnt)*math.Log(float64(cnt)/want) - float64(cnt) + want
		}
		if d > 30 {
			m.fail("C35", "rate", "node %d generated %d transactions in %v, %g per second were asked for", n.idx, cnt, time.Duration(to-n.booted), m.cfg.tx(n.idx))
			return
		}
		// a number of intervals fixed beforehand, so that the end of the run does not select
		if k := int(want / 2); k >= 30 && len(gs) >= k {
			var xs []float64
			for _, g := range gs[:k] {
				xs = append(xs, float64(g)*rate)
			}
			if !l.exponential(n, xs) {
				return
			}
			pool = append(pool, xs...)
		}
		if len(gs) > 100 {
			gs = gs[:100]
		}
		gaps[n] = gs
		for _, o := range m.nodes[:k] {
			have := map[int64]bool{}
			for _, g := range gaps[o] {
				have[g] = true
			}
			same := 0
			for _, g := range gs {
				if have[g] {
					same++
				}
			}
			if same >= 10 && m.cfg.tx(n.idx) <= 1000 {
				m.fail("C35", "same-load", "%d of the first %d intervals between transactions of node %d (start %d) are, to the nanosecond, intervals of node %d (start %d)", same, len(gs), n.idx, n.inc, o.idx, o.inc)
				return
			}
		}
	}
	if len(pool) > 0 {
		l.exponential(nil, pool)
	}
}

// exponential compares intervals with the unit exponential distribution.
func (l *loadw) exponential(n *nodeRec, v []float64) bool {
	who := -1
	if n != nil {
		who = n.idx
	}
	k := float64(len(v))
	sum := 0.0
	for _, x := range v {
		sum += x
	}
	x := sum / k
	if d := k * (x - 1 - math.Log(max(x, 1e-300))); d > 30 {
		l.m.fail("C35", "interval", "the first %d intervals between transactions of node %d (-1: all) have %.3f times the mean asked for", len(v), who, x)
		return false
	}
	s := append([]float64(nil), v...)
	sort.Float64s(s)
	dist := 0.0
	for i, x := range s {
		f := 1 - math.Exp(-x)
		dist = max(dist, math.Abs(f-float64(i)/k), math.Abs(f-float64(i+1)/k))
	}
	if dist > math.Sqrt(15/k)+1e-3 {
		l.m.fail("C35", "distribution", "the distribution of %d intervals between transactions of node %d (-1: all) is %.3f away from exponential", len(v), who, dist)
		return false
	}
	l.m.s.Probes["intervals_compared"] += int64(len(v))
	return true
}
