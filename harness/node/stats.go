package main

import (
	"encoding/binary"
	"math"
	"regexp"
	"sort"
	"strconv"
	"time"

	"github.com/yangl1996/rateless-set-reconcile/ldpc"
	"verif/simrt"
)

// C32: what a node reports on its log is what happened.

type wallOff struct{ t, off int64 }

type line struct {
	t     int64
	kind  int // index into patterns
	v     []float64
	prods int // codewords produced on the connection at that moment
	conn  *pair
	local int // transactions generated at that moment
	evs   int // events at that moment
	seen  int // transactions recovered at that moment
	adds  int // codewords processed on the connection at that moment
	arr   int
}

const (
	lGen = iota
	lTotal
	lWarm
	lLat
	lRate
	lRecv
)

const num = `(-?[0-9.]+(?:e[+-]?\d+)?|[+-]?NaN|[+-]?Inf)`

var patterns = []*regexp.Regexp{
	regexp.MustCompile(`generated tx ` + num),
	regexp.MustCompile(`total tx ` + num),
	regexp.MustCompile(`warmup completed`),
	regexp.MustCompile(`since warm up tx=` + num + `, p5_latency_ms=` + num + `, p95_latency_ms=` + num + `, p50_latency_ms=` + num + `, mean_latency_ms=` + num),
	regexp.MustCompile(`peer (\S+) codeword rate ` + num + ` dropped ` + num),
	regexp.MustCompile(`peer (\S+) received cws ` + num + ` last second delay ms median ` + num + ` p95 ` + num + ` mean ` + num),
}

func btoi(b bool) int {
	if b {
		return 1
	}
	return 0
}

// walls is the range of the node's wall clock (in ns) during an interval.
func (n *nodeRec) walls(from, to int64) [2]int64 {
	lo, hi := int64(math.MaxInt64), int64(math.MinInt64)
	for i, o := range n.offs {
		a, b := max(from, o.t), to
		if i+1 < len(n.offs) {
			b = min(b, n.offs[i+1].t)
		}
		if a > b {
			continue
		}
		lo, hi = min(lo, a+o.off), max(hi, b+o.off)
	}
	e := n.proc.Sim.Epoch
	return [2]int64{lo + e, hi + e}
}

func (m *monitor) onLog(p *simrt.Proc, text string) {
	n := m.byProc[p]
	if n == nil {
		return
	}
	for k, re := range patterns {
		f := re.FindStringSubmatch(text)
		if f == nil {
			continue
		}
		l := line{t: m.s.Now(), kind: k, local: len(n.locals), evs: len(n.events)}
		for _, ev := range n.events {
			l.seen += btoi(!ev.local)
		}
		f = f[1:]
		if k == lRate || k == lRecv {
			for _, q := range n.pairs {
				if c := m.connOf(q); c != nil && c.RemoteAddr().String() == f[0] {
					l.conn = q
				}
			}
			if l.conn == nil {
				m.s.Probe("line_of_unknown_link")
				return
			}
			l.prods, l.adds, l.arr = len(l.conn.enc.prods), l.conn.dec.addN, l.conn.dec.arrived
			f = f[1:]
		}
		for _, x := range f {
			v, err := strconv.ParseFloat(x, 64)
			if err != nil {
				m.fail("C32", "malformed", "node %d reports %q", n.idx, text)
				return
			}
			l.v = append(l.v, v)
		}
		n.lines = append(n.lines, l)
		m.s.Probe("report_lines")
		return
	}
}

func (m *monitor) connOf(p *pair) *simrt.Conn {
	if p.enc.tx != nil {
		if c, ok := p.enc.tx.Writer().(*simrt.Conn); ok {
			return c
		}
	}
	if p.dec.rx != nil {
		if c, ok := p.dec.rx.Reader().(*simrt.Conn); ok {
			return c
		}
	}
	return nil
}

// cpuCalm tells that no thread was ever stalled: whatever a node can do at
// once it does at once.
func (c *Cfg) cpuCalm() bool {
	for _, f := range c.Faults {
		if len(f.Kind) > 5 && f.Kind[:5] == "stall" {
			return false
		}
	}
	return true
}

// iv is a value known up to an interval.
type iv struct{ lo, hi float64 }

// quantile checks a reported quantile of the values.
func quantile(vs []iv, q, got, rel, round float64) bool {
	lo, hi := make([]float64, len(vs)), make([]float64, len(vs))
	for i, v := range vs {
		lo[i], hi[i] = v.lo, v.hi
	}
	sort.Float64s(lo)
	sort.Float64s(hi)
	r := q * float64(len(vs)-1)
	a, b := lo[int(math.Floor(r+1e-9))], hi[int(math.Ceil(r-1e-9))]
	a, b = a-rel*math.Abs(a)-round, b+rel*math.Abs(b)+round
	return got >= a && got <= b
}

func mean(vs []iv) iv {
	var m iv
	for _, v := range vs {
		m.lo += v.lo / float64(len(vs))
		m.hi += v.hi / float64(len(vs))
	}
	return m
}

func (x *run) finalStats() {
	for _, n := range x.m.nodes {
		if n.proc.Dead {
			continue
		}
		if x.s.Violation == nil {
			x.nodeStats(n)
		}
		for _, p := range n.pairs {
			if x.s.Violation == nil {
				x.linkStats(n, p)
			}
		}
	}
}

func (x *run) nodeStats(n *nodeRec) {
	m := x.m
	end := x.s.Now()
	exact := x.c.cpuCalm()
	fail := func(class, f string, a ...any) { m.fail("C32", class, "node %d: "+f, append([]any{n.idx}, a...)...) }
	stamp := map[int32]int64{}
	for k, id := range m.cids {
		stamp[id] = int64(binary.LittleEndian.Uint64(k[:8]))
	}
	var totals []line
	counts := make([]int, len(patterns))
	warm := int64(-1)
	for _, l := range n.lines {
		counts[l.kind]++
		switch l.kind {
		case lGen:
			if g := int(l.v[0]); g != l.local && g != l.local-1 {
				fail("generated", "reports %v transactions generated at %v; it generated %d", l.v[0], time.Duration(l.t), l.local)
				return
			}
		case lTotal:
			totals = append(totals, l)
			if int(l.v[0]) > l.seen {
				fail("total", "reports %v transactions recovered at %v; it recovered %d", l.v[0], time.Duration(l.t), l.seen)
				return
			}
			before := 0
			for _, ev := range n.events[:l.evs] {
				before += btoi(!ev.local && ev.t < l.t)
			}
			if exact && int(l.v[0]) < before {
				fail("total", "reports %v transactions recovered at %v; it recovered %d", l.v[0], time.Duration(l.t), before)
				return
			}
		case lWarm, lLat:
			if warm < 0 {
				warm = l.t
			}
		}
	}
	// everything recovered some time ago is counted
	k := 0
	for _, ev := range n.events {
		k += btoi(!ev.local && ev.t < end-4*sec)
	}
	if len(totals) == 0 || int(totals[len(totals)-1].v[0]) < k {
		v := -1.0
		if len(totals) > 0 {
			v = totals[len(totals)-1].v[0]
		}
		fail("total", "the last report says %v transactions recovered; %d were recovered by %v", v, k, time.Duration(end-4*sec))
		return
	}
	el := int((end - n.booted) / sec)
	if exact {
		if t := counts[lTotal]; t < el-1 || t > el+1 {
			fail("missing-report", "reports the recovered transactions %d times in %d s", t, el)
			return
		}
	}
	w := x.c.WarmMs * ms
	if warm >= 0 && warm < n.booted+w {
		fail("warm-up", "ends its warm-up of %v %v after the start", time.Duration(w), time.Duration(warm-n.booted))
		return
	}
	if warm < 0 && end > n.booted+w+4*sec || exact && warm > n.booted+w+sec {
		fail("warm-up", "has not ended its warm-up of %v by %v after the start", time.Duration(w), time.Duration(max(warm, end)-n.booted))
		return
	}
	// when each recovered transaction was accounted for at the latest
	type done struct{ lo, hi int64 }
	var ds []done
	var lat []iv
	ti := 0
	for i, ev := range n.events {
		if ev.local {
			continue
		}
		hi := ev.t
		if !exact {
			for ti < len(totals) && (totals[ti].evs <= i || int(totals[ti].v[0]) != totals[ti].seen) {
				ti++
			}
			hi = end
			if ti < len(totals) {
				hi = totals[ti].t
			}
		}
		ds = append(ds, done{ev.t, hi})
		ws := n.walls(ev.t, hi)
		st := stamp[ev.cid]
		us := func(v int64) int64 { return int64(math.Floor(float64(v) / 1000)) }
		lat = append(lat, iv{float64(us(ws[0])-st-1) / 1000, float64(us(ws[1])-st+1) / 1000})
	}
	// a report that says the number recovered is followed by one of the latencies
	if exact && warm >= 0 {
		lats := map[int64]bool{}
		for _, l := range n.lines {
			if l.kind == lLat {
				lats[l.t] = true
			}
		}
		for _, l := range totals {
			k := 0
			for _, d := range ds {
				k += btoi(d.lo > warm && d.lo < l.t)
			}
			if k > 0 && !lats[l.t] && l.t < end {
				fail("missing-latency", "reports no latencies at %v although %d transactions were recovered since the warm-up", time.Duration(l.t), k)
				return
			}
		}
	}
	acc, accWarm := 0, -1 // recovered transactions that are certainly accounted for
	for _, l := range n.lines {
		if l.kind == lTotal && int(l.v[0]) == l.seen {
			acc = l.seen
		}
		if (l.kind == lWarm || l.kind == lLat) && accWarm < 0 {
			accWarm = acc
		}
		if l.kind != lLat {
			continue
		}
		var in []iv
		amb := 0
		for i, d := range ds {
			if d.lo > l.t || i < accWarm || exact && d.lo < warm {
				continue
			}
			if d.lo > warm && (i < acc || exact && d.lo < l.t) {
				in = append(in, lat[i])
				continue
			}
			amb++
		}
		if c := int(l.v[0]); c < len(in) || c > len(in)+amb {
			fail("count", "reports %v transactions since the warm-up at %v; there were %d to %d", l.v[0], time.Duration(l.t), len(in), len(in)+amb)
			return
		}
		if amb > 0 || len(in) == 0 {
			x.s.Probe("ambiguous_latency_line")
			continue
		}
		x.s.Probe("latency_lines_compared")
		for j, q := range []float64{0.05, 0.95, 0.5} {
			if !quantile(in, q, l.v[1+j], 0.00101, 0.0051) {
				fail("quantile", "reports the %v quantile of the latency of %d transactions as %v ms at %v", q, len(in), l.v[1+j], time.Duration(l.t))
				return
			}
		}
		mv := mean(in)
		if tol := 0.0051 + 1e-9*math.Abs(mv.lo); l.v[4] < mv.lo-tol || l.v[4] > mv.hi+tol {
			fail("mean", "reports the mean latency of %d transactions as %v ms at %v; it is between %.4f and %.4f", len(in), l.v[4], time.Duration(l.t), mv.lo, mv.hi)
			return
		}
	}
}

func (x *run) linkStats(n *nodeRec, p *pair) {
	m := x.m
	end := x.s.Now()
	fail := func(class, f string, a ...any) {
		m.fail("C32", class, "node %d link %d: "+f, append([]any{n.idx, p.enc.id}, a...)...)
	}
	var rates []line
	prev, nrecv := 0, 0
	first := true
	for _, l := range n.lines {
		if l.conn != p {
			continue
		}
		switch l.kind {
		case lRate:
			rates = append(rates, l)
			lo, hi := 0, 0
			for i := 0; i < l.prods; i++ {
				switch {
				case p.enc.prods[i].encoded:
				case i < p.enc.encIdx:
					lo++
					hi++
				default:
					hi++
				}
			}
			if d := int(l.v[1]); d < lo || d > hi {
				fail("dropped", "reports %d codewords dropped at %v; there were %d to %d", d, time.Duration(l.t), lo, hi)
				return
			}
			if lo > 0 {
				x.s.Probe("reports_of_drops")
			}
		case lRecv:
			nrecv++
			if c := int(l.v[0]); c < l.adds || c > l.arr {
				fail("received", "reports %d codewords received at %v; %d had arrived and %d were processed", c, time.Duration(l.t), l.arr, l.adds)
				return
			}
			var in []iv
			for _, s := range p.dec.stubs[prev:min(l.adds, len(p.dec.stubs))] {
				us := func(v int64) float64 { return math.Floor(float64(v) / 1000) }
				in = append(in, iv{(us(s.wall[0]) - float64(s.um) - 1) / 1000, (us(s.wall[1]) - float64(s.um) + 1) / 1000})
			}
			prev = l.adds
			if first {
				// a line before the link was known may have cleared the figures
				first = false
				continue
			}
			x.s.Probe("delay_lines_compared")
			if len(in) == 0 {
				if !(l.v[1] < 0 || math.IsNaN(l.v[1])) || !math.IsNaN(l.v[3]) && l.v[3] > 0 {
					fail("delay", "reports delays at %v although no codeword was received since the last report", time.Duration(l.t))
				}
				continue
			}
			for j, q := range []float64{0.5, 0.95} {
				if !quantile(in, q, l.v[1+j], 0.00101, 0.051) {
					fail("delay", "reports the %v quantile of the delay of %d codewords as %v ms at %v", q, len(in), l.v[1+j], time.Duration(l.t))
					return
				}
			}
			mv := mean(in)
			if tol := 0.051 + 1e-9*math.Abs(mv.lo); l.v[3] < mv.lo-tol || l.v[3] > mv.hi+tol {
				fail("delay", "reports the mean delay of %d codewords as %v ms at %v; it is between %.4f and %.4f", len(in), l.v[3], time.Duration(l.t), mv.lo, mv.hi)
				return
			}
		}
	}
	if p.enc.tx == nil || !x.linkAlive(p) {
		return
	}
	x.s.Probe("links_checked")
	if x.c.cpuCalm() {
		el := int((end - max(p.enc.created, p.dec.created)) / sec)
		// lines before the first codeword cannot be attributed
		if len(rates) > el+1 || nrecv > el+1 || len(rates) < el-1-int(x.firstCw(p)/sec) || nrecv < el-2-int(x.firstCw(p)/sec) {
			fail("missing-report", "reports the rate %d and the arrivals %d times in %d s", len(rates), nrecv, el)
			return
		}
	}
	for _, f := range x.c.Faults {
		if f.Kind == "stall_proc" || f.Kind == "stall_ctl" || f.Kind == "stall_task" {
			return // the thread that sends may have been starved
		}
	}
	if msg := x.rateCheck(p, rates); msg != "" {
		fail("rate", "%s", msg)
	}
}

// firstCw is how long it took until the link could be told from others.
func (x *run) firstCw(p *pair) int64 {
	t := x.s.Now()
	for i := range p.enc.prods {
		if p.enc.prods[i].encoded {
			t = p.enc.prods[i].t
			break
		}
	}
	if len(p.dec.stubs) > 0 {
		t = min(t, p.dec.stubs[0].add)
	}
	return t - p.enc.created + sec
}

var _ = ldpc.TxSize
