package main

import (
	"math"
	"sort"
	"time"
)

// traffic checks that what the simulators simulate is what was asked for: the
// links of the topology file and the load of the command line.
type traffic struct {
	*world
	next   []int                     // arrivals scheduled and not yet handled, per server
	intv   [][]float64               // intervals between arrivals, as drawn
	at     map[int64]int             // transactions generated at a time
	seen   map[int64]map[uint64]bool // transactions seen with a generation time
	ts     map[uint64]int64
	links  map[[2]int]bool
	inited int
}

func newTraffic(w *world) *traffic {
	t := &traffic{world: w, next: make([]int, w.n()), intv: make([][]float64, w.n()), at: map[int64]int{}, seen: map[int64]map[uint64]bool{}, ts: map[uint64]int64{}, links: map[[2]int]bool{}}
	w.onDeliver = t.deliver
	w.onSend = t.send
	w.onHandled = t.handled
	return t
}

func (t *traffic) send(m, in *msg) {
	if t.off {
		return
	}
	if m.kind == kArrive {
		if m.to != m.from {
			t.fail("load", "server %d schedules an arrival at server %d", m.from, m.to)
			return
		}
		t.next[m.to]++
		t.intv[m.to] = append(t.intv[m.to], float64(m.base))
		if in != nil && in.kind != kArrive {
			t.fail("load", "server %d schedules an arrival of transactions while handling a %s", m.from, in.kind)
		}
		return
	}
	if m.to == m.from {
		return
	}
	d, ok := t.delay[[2]int{m.from, m.to}]
	if !ok {
		t.fail("link", "server %d sends a %s to %d; they are not connected", m.from, m.kind, m.to)
		return
	}
	if m.base != d {
		t.fail("link-delay", "server %d sends a %s to %d with delay %v; the topology says %v", m.from, m.kind, m.to, time.Duration(m.base), time.Duration(d))
		return
	}
	t.links[[2]int{m.from, m.to}] = true
	for _, x := range m.txs {
		t.stamp(m, x)
	}
}

// stamp checks the identity and time stamp of a transaction seen on a link.
func (t *traffic) stamp(m *msg, x tx) {
	if old, ok := t.ts[x.idx]; ok {
		if old != x.ts {
			t.fail("stamp", "transaction %d carries time stamps %v and %v", x.idx, time.Duration(old), time.Duration(x.ts))
		}
		return
	}
	t.ts[x.idx] = x.ts
	if t.seen[x.ts] == nil {
		t.seen[x.ts] = map[uint64]bool{}
	}
	t.seen[x.ts][x.idx] = true
	if n := t.at[x.ts]; len(t.seen[x.ts]) > n {
		t.fail("stamp", "%d transactions with time stamp %v are around; %d were generated then", len(t.seen[x.ts]), time.Duration(x.ts), n)
	}
}

func (t *traffic) deliver(m *msg) {
	if m.kind != kArrive {
		return
	}
	t.next[m.to]--
	if m.n != t.c.Burst {
		t.fail("burst", "an arrival at server %d brings %d transactions instead of %d", m.to, m.n, t.c.Burst)
		return
	}
	t.at[t.now] += m.n
}

func (t *traffic) handled(in *msg, out []*msg) {
	if t.off {
		return
	}
	if t.c.Sim == "newsim" {
		// initial broadcast, or not
		got := map[int]int{}
		for _, m := range out {
			if m.kind == kBcast {
				got[m.to] += len(m.txs)
			}
		}
		for _, j := range t.nbr[in.to] {
			want := 0
			if t.c.Flood && in.kind == kArrive {
				want = t.c.Burst
			}
			if got[j] != want {
				t.fail("broadcast", "server %d broadcasts %d transactions to %d on a message of kind %s instead of %d (flooding: %v)", in.to, got[j], j, in.kind, want, t.c.Flood)
				return
			}
		}
		if len(got) > 0 {
			t.s.Probes["broadcasts"]++
		}
	}
	if in.kind != kArrive {
		return
	}
	if t.next[in.to] != 1 {
		t.fail("load", "server %d has %d arrivals scheduled after an arrival", in.to, t.next[in.to])
	}
}

func (t *traffic) final() {
	if t.finished == "violation" {
		return
	}
	if !t.started {
		return
	}
	if len(t.srv) != t.n() {
		t.s.Fail(t.prop, "servers", "%d servers for a topology of %d", len(t.srv), t.n())
		return
	}
	var all []float64
	for i, v := range t.intv {
		if len(v) == 0 {
			t.s.Fail(t.prop, "load", "server %d has no load", i)
			return
		}
		for j := 0; j < i; j++ {
			k := 0
			for k < len(v) && k < len(t.intv[j]) && v[k] == t.intv[j][k] {
				k++
			}
			if k >= 2 {
				t.s.Fail(t.prop, "same-load", "servers %d and %d have the same sequence of arrivals", j, i)
				return
			}
		}
		all = append(all, v...)
		if !t.exponential(v) {
			return
		}
	}
	t.exponential(all)
	t.s.Probes["links_used"] += int64(len(t.links))
}

// exponential compares drawn intervals with the distribution asked for. Both
// tests have a false alarm probability below 1e-12.
func (t *traffic) exponential(v []float64) bool {
	n := float64(len(v))
	mean := float64(t.c.Burst) / t.c.TxGen * 1e9
	sum := 0.0
	for _, x := range v {
		sum += x
	}
	x := sum / n / mean
	if d := n * (x - 1 - math.Log(max(x, 1e-300))); d > 30 {
		t.s.Fail(t.prop, "rate", "%d intervals between arrivals of %d transactions have mean %v; %g transactions per second were asked for", len(v), t.c.Burst, time.Duration(sum/n), t.c.TxGen)
		return false
	}
	s := append([]float64(nil), v...)
	sort.Float64s(s)
	dist := 0.0
	for i, x := range s {
		f := 1 - math.Exp(-x/mean)
		dist = max(dist, math.Abs(f-float64(i)/n), math.Abs(f-float64(i+1)/n))
	}
	if lim := math.Sqrt(15/n) + 1/mean; dist > lim {
		t.s.Fail(t.prop, "distribution", "the distribution of %d intervals between arrivals is %.3f away from exponential", len(v), dist)
		return false
	}
	t.s.Probes["intervals_compared"] += int64(len(v))
	return true
}
