package main

import (
	"fmt"
	"math"
	"reflect"
	"sort"
	"strconv"
	"strings"
	"time"

	"github.com/aclements/go-moremath/stats"

	"verif/simrt"
)

// counters are the per-server figures recomputed from the history.
type counters struct {
	received, decoded, dup, bytes, codewords int
	lat                                      []float64
	overlap                                  []float64
}

// statw recomputes the statistics the simulators print.
type statw struct {
	w       *world
	cnt     []counters
	reset   bool
	start   int64 // time of the reset
	known   []map[uint64]bool
	next    uint64
	remote  []tx
	newTx   []tx
	bounds  []bound // report boundaries after the reset (simulator)
	started bool
	buffers map[[2]int][]tx
	curBlk  map[any][]tx
}

type bound struct {
	at  int64
	cnt int
}

func newStatw(w *world) *statw {
	x := &statw{w: w, cnt: make([]counters, w.n()), buffers: map[[2]int][]tx{}, curBlk: map[any][]tx{}}
	for range w.nbr {
		x.known = append(x.known, map[uint64]bool{})
	}
	w.s.OnCall("des.Simulator.RunUntil", x.boundary)
	w.onDeliver = x.deliver
	w.onHandled = x.handled
	w.s.OnCall("riblt.Decoder.Remote", func(c *simrt.Call) {
		if c.After && w.inMsg != nil && !w.off {
			x.remote = append(x.remote, txsOf(c.Results[0])...)
		}
	})
	w.s.OnCall("lt.Decoder.AddTransaction", func(c *simrt.Call) {
		if !c.After && w.inMsg != nil && !w.off && w.inMsg.kind == kArrive {
			x.newTx = append(x.newTx, txOf(reflect.ValueOf(c.Args[0])))
		}
	})
	w.s.OnCall("lt.Decoder.AddCodeword", func(c *simrt.Call) {
		if c.After && w.inMsg != nil && !w.off {
			x.newTx = append(x.newTx, txsOf(c.Results[1])...)
		}
	})
	w.s.OnCall("lt.Encoder.Reset", func(c *simrt.Call) {
		if !c.After && w.inMsg != nil && !w.off {
			x.curBlk[c.Recv] = nil
		}
	})
	w.s.OnCall("lt.Encoder.AddTransaction", func(c *simrt.Call) {
		if !c.After && w.inMsg != nil && !w.off {
			x.curBlk[c.Recv] = append(x.curBlk[c.Recv], txOf(reflect.ValueOf(c.Args[0])))
		}
	})
	w.s.OnCall("lt.Encoder.ProduceCodeword", func(c *simrt.Call) {
		if c.After && w.inMsg != nil && !w.off {
			if p := members(reflect.ValueOf(c.Results[0]).Elem()); p != 0 {
				x.curBlk[p] = x.curBlk[c.Recv]
			}
		}
	})
	return x
}

// boundary follows the report intervals.
func (x *statw) boundary(c *simrt.Call) {
	if !c.After || x.w.off {
		return
	}
	t, ok := c.Args[0].(time.Duration)
	if !ok || int64(t) <= x.w.c.WarmMs*1e6 {
		return
	}
	if !x.reset {
		x.reset = true
		x.start = x.w.now
		for i := range x.cnt {
			x.cnt[i].received, x.cnt[i].decoded, x.cnt[i].dup, x.cnt[i].bytes, x.cnt[i].codewords = 0, 0, 0, 0, 0
		}
		return
	}
	x.bounds = append(x.bounds, bound{x.w.now, x.cnt[0].codewords})
}

func (x *statw) got(i int, t tx) {
	c := &x.cnt[i]
	if x.known[i][t.idx] {
		c.dup++
		return
	}
	x.known[i][t.idx] = true
	c.received++
	c.decoded++
	if x.w.now >= x.w.c.WarmMs*1e6 {
		c.lat = append(c.lat, time.Duration(x.w.now).Seconds()-time.Duration(t.ts).Seconds())
	}
}

func (x *statw) own(i int, t uint64) {
	x.known[i][t] = true
	x.cnt[i].received++
}

func (x *statw) deliver(m *msg) {
	x.remote, x.newTx = x.remote[:0], x.newTx[:0]
	for k := range x.curBlk {
		if _, ok := k.(uintptr); ok {
			delete(x.curBlk, k)
		}
	}
}

func (x *statw) handled(in *msg, out []*msg) {
	i := in.to
	c := &x.cnt[i]
	sz := x.w.c.TxSize
	switch in.kind {
	case kArrive:
		if x.w.c.Sim == "newsim" {
			for k := 0; k < in.n; k++ {
				x.next++
				x.own(i, x.next)
			}
		} else {
			for _, t := range x.newTx {
				x.own(i, t.idx)
			}
		}
	case kBcast, kResp:
		c.bytes += sz
		x.got(i, in.txs[0])
	case kAnn, kReq:
		c.bytes += 32
	case kAck:
		c.bytes += len(in.txs)*sz + 8
		for _, t := range in.txs {
			x.got(i, t)
		}
	case kCode:
		c.bytes += 8 + sz + 8 + 8
		c.codewords++
		for _, t := range x.newTx {
			x.got(i, t)
		}
		for _, m := range out {
			if m.kind == kAck && m.to == in.from && m.ackBlock {
				for _, t := range x.remote {
					x.got(i, t)
				}
			}
		}
	}
	if x.w.c.Sim != "simulator" {
		return
	}
	for _, m := range out {
		if m.kind == kCode && m.newBlock && x.w.now >= x.w.c.WarmMs*1e6 {
			p, _ := m.opaque.(uintptr)
			blk := x.curBlk[p]
			n := 0
			for _, t := range blk {
				if x.known[m.to][t.idx] {
					n++
				}
			}
			if len(blk) > 0 {
				c.overlap = append(c.overlap, float64(n)/float64(len(blk)))
			}
		}
	}
}

func moments(xs []float64) []float64 {
	s := stats.Sample{Xs: append([]float64(nil), xs...)}
	sort.Float64s(s.Xs)
	s.Sorted = true
	return []float64{s.Mean(), s.StdDev(), s.Quantile(0.05), s.Quantile(0.25), s.Quantile(0.5), s.Quantile(0.75), s.Quantile(0.95)}
}

var momentNames = []string{"mean", "stddev", "p5", "p25", "p50", "p75", "p95"}

func parseLine(out, label string) ([]float64, bool) {
	for _, l := range strings.Split(out, "\n") {
		if !strings.HasPrefix(l, label) {
			continue
		}
		l = strings.TrimSpace(strings.TrimPrefix(l, label))
		l = strings.TrimSuffix(strings.TrimPrefix(l, "["), "]")
		var v []float64
		for _, f := range strings.Fields(l) {
			x, err := strconv.ParseFloat(f, 64)
			if err != nil {
				return nil, false
			}
			v = append(v, x)
		}
		return v, true
	}
	return nil, false
}

func near(a, b float64) bool {
	if math.IsNaN(a) || math.IsNaN(b) || math.IsInf(a, 0) || math.IsInf(b, 0) {
		return math.IsNaN(a) == math.IsNaN(b) && math.IsInf(a, 0) == math.IsInf(b, 0)
	}
	return math.Abs(a-b) <= 1e-9*(1+math.Abs(a)+math.Abs(b))
}

// verify compares the printed figures; it runs after the program has ended.
func (x *statw) verify(out string, files map[string]*simrt.MemFile, crashed bool) {
	w := x.w
	fail := func(class, f string, a ...any) { w.s.Fail(w.prop, class, f, a...) }
	if crashed {
		// it can only have died of a sketch without samples
		empty := false
		for i := range x.cnt {
			if len(x.cnt[i].lat) == 0 || w.c.Sim == "simulator" && len(x.cnt[i].overlap) == 0 {
				empty = true
			}
		}
		if !empty {
			fail("no-samples", "the program died for lack of samples, but the history has latencies (and block overlaps) of all %d servers after the warm-up", w.n())
			return
		}
		w.s.Probes["ended without samples"]++
	}
	if !x.reset {
		return
	}
	dt := time.Duration(w.now - x.start).Seconds()
	if dt <= 0 {
		return
	}
	cmp := func(label string, f func(c *counters) float64) {
		if w.s.Violation != nil {
			return
		}
		got, ok := parseLine(out, label)
		if !ok || len(got) != 7 {
			if !crashed {
				fail("missing", "no figures for %q in the output", label)
			}
			return
		}
		var xs []float64
		for i := range x.cnt {
			v := f(&x.cnt[i])
			if math.IsNaN(v) || math.IsInf(v, 0) {
				return
			}
			xs = append(xs, v)
		}
		want := moments(xs)
		for k := range want {
			if !near(got[k], want[k]) {
				fail("figure", "printed %q %s is %v but the history gives %v (%d servers, measured from %v to %v)", label, momentNames[k], got[k], want[k], w.n(), time.Duration(x.start), time.Duration(w.now))
				return
			}
		}
		w.s.Probes["figures"]++
	}
	lat := func(label string, q float64) {
		if w.s.Violation != nil {
			return
		}
		got, ok := parseLine(out, label)
		if !ok || len(got) != 7 {
			if !crashed {
				fail("missing", "no figures for %q in the output", label)
			}
			return
		}
		var lo, hi []float64
		for i := range x.cnt {
			a, b, ok := bracket(x.cnt[i].lat, q)
			if !ok {
				return
			}
			lo, hi = append(lo, a), append(hi, b)
		}
		ml, mh := moments(lo), moments(hi)
		for k := range ml {
			if k == 1 {
				continue // the standard deviation is not monotone
			}
			if !(got[k] >= ml[k]-1e-9 && got[k] <= mh[k]+1e-9) {
				fail("latency", "printed %q %s is %v but the history gives %v to %v", label, momentNames[k], got[k], ml[k], mh[k])
				return
			}
		}
		w.s.Probes["latencies"]++
	}
	if w.c.Sim == "newsim" {
		cmp("# received transaction rate", func(c *counters) float64 { return float64(c.received) / dt })
		cmp("# duplicate transaction rate", func(c *counters) float64 { return float64(c.dup) / dt })
		cmp("# overhead", func(c *counters) float64 {
			return float64(c.bytes) / float64(c.decoded) / float64(w.c.TxSize)
		})
	} else {
		cmp("# decoded transaction rate", func(c *counters) float64 { return float64(c.decoded) / dt })
		cmp("# overhead", func(c *counters) float64 { return float64(c.codewords) / float64(c.decoded) })
		x.trace(out)
	}
	lat("# latency p5", 0.05)
	lat("# latency p50", 0.50)
	lat("# latency p95", 0.95)
	if w.c.Sim == "simulator" && !crashed && w.s.Violation == nil {
		x.overlaps(files)
	}
}

// bracket bounds the q-quantile of a one-percent sketch of xs.
func bracket(xs []float64, q float64) (float64, float64, bool) {
	if len(xs) == 0 {
		return 0, 0, false
	}
	s := append([]float64(nil), xs...)
	sort.Float64s(s)
	r := q * float64(len(s)-1)
	a, b := int(math.Floor(r)), int(math.Ceil(r))
	// ranks are compared after rounding in the sketch
	a, b = max(0, a), min(len(s)-1, b)
	return s[a] * 0.989, s[b] * 1.011, true
}

// trace checks the periodic codeword rates of server 0.
func (x *statw) trace(out string) {
	rep := time.Duration(x.w.c.RepMs) * time.Millisecond
	if rep == 0 {
		rep = time.Second
	}
	prev := 0
	k := 0
	for _, l := range strings.Split(out, "\n") {
		if l == "" || strings.HasPrefix(l, "#") {
			continue
		}
		var t, v float64
		if n, _ := fmt.Sscan(l, &t, &v); n != 2 {
			continue
		}
		if k >= len(x.bounds) {
			x.w.s.Fail(x.w.prop, "trace", "trace line %q without a report interval", l)
			return
		}
		b := x.bounds[k]
		want := float64(b.cnt-prev) / rep.Seconds()
		if !near(v, want) || !near(t, time.Duration(b.at).Seconds()) {
			x.w.s.Fail(x.w.prop, "trace", "trace line %d is %q but server 0 was handed %d codewords by %v, %d since the line before", k, l, b.cnt, time.Duration(b.at), b.cnt-prev)
			return
		}
		prev = b.cnt
		k++
	}
	if k != len(x.bounds) {
		x.w.s.Fail(x.w.prop, "trace", "%d trace lines for %d report intervals", k, len(x.bounds))
		return
	}
	if k > 0 {
		x.w.s.Probes["traces"]++
	}
}

// overlaps checks the overlap distributions written to files.
func (x *statw) overlaps(files map[string]*simrt.MemFile) {
	for i := range x.cnt {
		f := files[fmt.Sprintf("log-overlap-%d.csv", i)]
		if f == nil {
			x.w.s.Fail(x.w.prop, "overlap", "no overlap file of server %d", i)
			return
		}
		var qs, vs []float64
		for _, l := range strings.Split(strings.TrimSpace(string(f.Data)), "\n") {
			var q, v float64
			if n, _ := fmt.Sscan(l, &q, &v); n == 2 {
				qs, vs = append(qs, q), append(vs, v)
			}
		}
		if len(qs) < 100 {
			x.w.s.Fail(x.w.prop, "overlap", "the overlap file of server %d has %d lines", i, len(qs))
			return
		}
		for k, q := range qs {
			lo, hi, ok := bracket(x.cnt[i].overlap, q)
			// the quantile of a line is a float sum and may be off by one rank
			lo2, _, _ := bracket(x.cnt[i].overlap, math.Max(0, q-1e-9))
			_, hi2, _ := bracket(x.cnt[i].overlap, math.Min(1, q+1e-9))
			if ok && !(vs[k] >= math.Min(lo, lo2)-1e-9 && vs[k] <= math.Max(hi, hi2)+1e-9) {
				x.w.s.Fail(x.w.prop, "overlap", "quantile %v of the overlap of server %d is %v in the file but the history of %d blocks gives %v to %v", q, i, vs[k], len(x.cnt[i].overlap), lo, hi)
				return
			}
		}
		x.w.s.Probes["overlap_files"]++
	}
}
