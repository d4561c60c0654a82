package main

import (
	"encoding/binary"
	"fmt"
	"math/rand"
	"sort"

	"github.com/dchest/siphash"

	"verif/harness/core"
	"verif/simrt"
)

type suite struct{}

func newRand(seed int64) *rand.Rand { return rand.New(rand.NewSource(seed)) }

func pick[T any](r *rand.Rand, xs ...T) T { return xs[r.Intn(len(xs))] }

var systems map[string]*system

func systemOf(n string) *system {
	if systems == nil {
		systems = map[string]*system{}
		for _, s := range append(append(ltSystems(), ibSystems()...), ldpcSystem()) {
			systems[s.name] = s
		}
	}
	return systems[n]
}

// collisions finds pairs of transactions with the same salted hash.
func collisions(sys string, saltSeed int64) [][2]int64 {
	key := fmt.Sprint(sys, saltSeed)
	if c, ok := colCache[key]; ok {
		return c
	}
	s := systemOf(sys)
	salt := saltOf(saltSeed)
	h := siphash.New(salt[:])
	seen := map[uint32]int64{}
	var out [][2]int64
	for n := int64(1 << 20); n < 1<<20+160000; n++ {
		h.Reset()
		h.Write(s.hash(n))
		v := uint32(h.Sum64())
		if m, ok := seen[v]; ok {
			out = append(out, [2]int64{m, n})
		}
		seen[v] = n
	}
	colCache[key] = out
	return out
}

var colCache = map[string][][2]int64{}

func (suite) Gen(prop string, seed int64, tier string) *core.Plan {
	r := newRand(seed)
	p := &core.Plan{Property: prop, Seed: seed}
	p.Sched = simrt.SchedConfig{Seed: seed, Mode: pick(r, "random", "random", "pct", "fifo"), YieldPerMille: pick(r, 100, 300, 600, 1000), Changes: r.Intn(10)}
	if prop == "C18" {
		return genRiblt(p, r, tier)
	}
	if prop == "C28" {
		return genSketch(p, r, tier)
	}
	c := &Cfg{}
	c.Sys = pick(r, "lt-value", "lt-pointer", "iblt-value", "iblt-pointer", "ldpc", "ldpc")
	if prop == "C16" {
		c.Sys = "ldpc"
	}
	if prop == "C17" {
		c.Sys = pick(r, "lt-value", "lt-pointer", "lt-pointer", "iblt-value", "iblt-pointer", "iblt-pointer", "ldpc")
	}
	c.Threads = r.Intn(4) == 0
	if prop == "C16" {
		c.Threads = r.Intn(2) == 0
	}
	c.PoolMode = r.Intn(2)
	nsalt := pick(r, 1, 1, 2, 3)
	for i := 0; i < nsalt; i++ {
		c.SaltSeed = append(c.SaltSeed, r.Int63n(1<<30))
	}
	ntx := pick(r, 1, 2, 3, 5, 8, 12, 20, 30, 50)
	nsnd := pick(r, 1, 1, 2, 3)
	nrcv := pick(r, 1, 1, 2, 3, 4)
	steps := pick(r, 10, 30, 60, 120, 200)
	if tier != "quick" && r.Intn(3) == 0 {
		steps *= pick(r, 2, 4)
		ntx *= pick(r, 1, 2, 4)
	}
	var flip, foreign, free, loss, dup, own float64
	loss = pick(r, 0, 0, 0.1, 0.3, 0.6)
	dup = pick(r, 0, 0, 0.1, 0.3, 0.6)
	own = pick(r, 0, 0.5, 1)
	delay := pick(r, 0.0, 0, 1, 5, 30)
	reset := pick(r, 0, 0, 0.02, 0.1)
	local := pick(r, 0, 0.05, 0.2, 0.5)
	burst := pick(r, 0.0, 0.0, 1)
	deg1 := pick(r, 0.05, 0.2, 0.5)
	mem := func() int { return 262144 }
	ws := func() int { return pick(r, 1, 2, 3, 5, 8, 20, 50, 200) }
	switch prop {
	case "C11":
		flip = pick(r, 0, 0.05, 0.2, 0.5)
		foreign = pick(r, 0, 0.2, 0.5)
		if r.Intn(3) == 0 {
			mem = func() int { return pick(r, 1, 2, 4, 8, 16) }
		}
	case "C12":
		flip = pick(r, 0, 0, 0.1)
		foreign = pick(r, 0, 0, 0.3)
		if r.Intn(3) == 0 {
			mem = func() int { return ntx }
		}
	case "C13":
		flip = pick(r, 0, 0, 0.1, 0.3)
		foreign = pick(r, 0, 0, 0.3)
		if r.Intn(3) == 0 {
			mem = func() int { return pick(r, 1, 2, 4, 8, 16) }
		}
	case "C14":
		mem = func() int { return pick(r, 1, 2, 3, 4, 6, 8, 12) }
		local = pick(r, 0, 0.2, 0.5)
	case "C15":
		loss = pick(r, 0.9, 1, 1)
		reset = pick(r, 0, 0.02, 0.1)
		ws = func() int { return pick(r, 1, 2, 3, 4, 5, 8, 13, 50) }
	case "C16":
		free = pick(r, 0.2, 0.5, 0.9)
		flip = pick(r, 0, 0, 0.1)
		if r.Intn(4) == 0 {
			mem = func() int { return pick(r, 1, 2, 4, 8, 16) }
		}
	case "C17":
		own = 0
		nrcv = pick(r, 1, 2, 3, 4)
		dup = pick(r, 0.3, 0.6)
	}
	if c.Sys == "ldpc" && prop != "C16" && r.Intn(2) == 0 {
		free = pick(r, 0.2, 0.6)
	}
	for i := 0; i < ntx; i++ {
		c.Txs = append(c.Txs, int64(i)+r.Int63n(1<<20)*1000000)
	}
	if prop == "C11" && r.Intn(4) == 0 {
		k := r.Int63n(4)
		c.SaltSeed[0] = -1 - k
		if col := collisions(c.Sys, -1-k); len(col) > 0 {
			for i := 0; i < len(c.Txs) && i < 8; i += 2 {
				x := col[r.Intn(len(col))]
				c.Txs[i] = x[0]
				if i+1 < len(c.Txs) {
					c.Txs[i+1] = x[1]
				} else {
					c.Txs = append(c.Txs, x[1])
				}
			}
			ntx = len(c.Txs)
		}
	}
	for i := 0; i < nsnd; i++ {
		c.Snd = append(c.Snd, SndCfg{Salt: r.Intn(nsalt), WS: ws(), Seed: r.Int63n(1 << 40)})
	}
	for i := 0; i < nrcv; i++ {
		c.Rcv = append(c.Rcv, RcvCfg{Salt: r.Intn(nsalt), Mem: mem()})
	}
	if prop == "C12" {
		c.Permute = 1 + r.Int63n(1<<40)
	}
	type ev struct {
		t  float64
		op Op
	}
	var evs []ev
	ncw := 0
	step := pick(r, 0, int64(1e6), 5e6, 1e8)
	produce := func(t float64, a int) {
		d := 1
		if r.Float64() > deg1 {
			d = pick(r, 2, 2, 2, 3, 3, 4, 5, 8, 13, 100)
		}
		if c.Sys == "ldpc" && r.Intn(40) == 0 {
			d = 0
		}
		evs = append(evs, ev{t, Op{K: "cw", A: a, B: ncw, D: d}})
		for b := 0; b < nrcv; b++ {
			if c.Rcv[b].Salt != c.Snd[a].Salt && r.Float64() >= foreign {
				continue
			}
			n := 0
			if r.Float64() >= loss {
				n = 1
			}
			if r.Float64() < dup {
				n++
			}
			at := t
			for ; n > 0; n-- {
				at += 1e-3 + r.ExpFloat64()*delay*pick(r, 1.0, 1, 0)
				o := Op{K: "rx", A: b, B: ncw, S: r.Float64() < own}
				if r.Float64() < flip {
					o.F = 1 + r.Int63n(1<<40)
				}
				evs = append(evs, ev{at, o})
				if r.Float64() < free {
					evs = append(evs, ev{at + r.ExpFloat64()*pick(r, 0.0, 1, 10), Op{K: "free", A: b, B: ncw}})
				}
			}
		}
		ncw++
	}
	next := 0
	shape := ""
	if prop != "C14" && prop != "C15" && (prop != "C11" || c.SaltSeed[0] >= 0) && r.Intn(4) == 0 {
		// codewords that all wait for one transaction, or for one another in a
		// row, so that a single arrival unlocks very many
		shape = pick(r, "hub", "chain")
		steps = 0
		n := pick(r, 5, 12, 25, 60)
		if tier != "quick" && r.Intn(3) == 0 {
			n = pick(r, 150, 400)
		}
		for len(c.Txs) < n {
			c.Txs = append(c.Txs, int64(len(c.Txs))+r.Int63n(1<<20)*1000000)
		}
		ntx = n
		for a := range c.Snd {
			c.Snd[a].WS = 2
		}
		if prop != "C16" && r.Intn(2) == 0 {
			loss, flip = 0, 0
		}
		deg1 = 0.02
		for i := 1; i < n; i++ {
			t := float64(i)
			a := r.Intn(nsnd)
			hub := i - 1
			if shape == "hub" {
				hub = 0
			}
			evs = append(evs, ev{t, Op{K: "tx", A: a, B: hub, S: r.Float64() < own}}, ev{t, Op{K: "tx", A: a, B: i, S: r.Float64() < own}})
			evs = append(evs, ev{t, Op{K: "tx", A: a, B: hub, S: r.Float64() < own}})
			for k := pick(r, 1, 1, 1, 2); k > 0; k-- {
				produce(t, a)
			}
		}
		key := pick(r, 0, 0, n-1, r.Intn(n))
		for b := 0; b < nrcv; b++ {
			t := float64(n) * (1 + 0.5*r.Float64())
			if r.Intn(2) == 0 {
				evs = append(evs, ev{t, Op{K: "local", A: b, B: key, S: r.Float64() < own}})
			} else {
				a := r.Intn(nsnd)
				t += float64(n) // after the last codeword is produced
				evs = append(evs, ev{t, Op{K: "reset", A: a, D: 1}}, ev{t, Op{K: "tx", A: a, B: key, S: r.Float64() < own}})
				evs = append(evs, ev{t, Op{K: "cw", A: a, B: ncw, D: 1}}, ev{t, Op{K: "rx", A: b, B: ncw, S: r.Float64() < own}})
				ncw++
			}
		}
	}
	for i := 0; i < steps; i++ {
		t := float64(i)
		if next < ntx && (r.Float64() < 1.2*float64(ntx)/float64(steps) || burst > 0 && i == 0) {
			n := 1
			if burst > 0 && i == 0 {
				n = 1 + r.Intn(ntx)
			}
			for ; n > 0 && next < ntx; n-- {
				first := true
				for a := 0; a < nsnd; a++ {
					if first || r.Intn(2) == 0 {
						evs = append(evs, ev{t, Op{K: "tx", A: (a + next) % nsnd, B: next, S: r.Float64() < own}})
					}
					first = false
				}
				if r.Float64() < local {
					evs = append(evs, ev{t + r.ExpFloat64()*10, Op{K: "local", A: r.Intn(nrcv), B: next, S: r.Float64() < own}})
				}
				next++
			}
		}
		if next > 0 && r.Float64() < 0.15 {
			evs = append(evs, ev{t, Op{K: "tx", A: r.Intn(nsnd), B: r.Intn(next), S: r.Float64() < own}})
		}
		if r.Float64() < local/4 {
			evs = append(evs, ev{t, Op{K: "local", A: r.Intn(nrcv), B: r.Intn(ntx), S: r.Float64() < own}})
		}
		if r.Float64() < reset {
			evs = append(evs, ev{t, Op{K: "reset", A: r.Intn(nsnd), D: ws()}})
		}
		if next > 0 {
			for n := pick(r, 0, 1, 1, 2); n > 0; n-- {
				produce(t, r.Intn(nsnd))
			}
		}
	}
	sort.SliceStable(evs, func(i, j int) bool { return evs[i].t < evs[j].t })
	for _, e := range evs {
		if step > 0 {
			e.op.Dt = r.Int63n(step)
		}
		c.Ops = append(c.Ops, e.op)
	}
	p.Scenario = c.Sys
	if c.Threads {
		p.Scenario += "-threads"
	}
	p.Scenario += shape
	return p.With(c)
}

func (suite) Exec(p *core.Plan, trace bool) *core.Result {
	c := core.CloneCfg[Cfg](p)
	s := simrt.New(p.Sched)
	defer s.Close()
	s.TraceOn = trace
	s.PoolMode = c.PoolMode
	s.PoolYield = c.Threads
	s.MaxSteps = 20_000_000
	r := &core.Result{}
	s.OnCrash = func(pr *simrt.Proc, cr *simrt.Crash) {
		s.Fail(p.Property, "panic", "%s [%s]", cr.Msg, cr.Stack)
	}
	if c.Riblt != nil {
		execRiblt(s, c.Riblt, p, r)
		return r
	}
	if c.Sketch != nil {
		execSketch(s, c.Sketch, p, r)
		return r
	}
	w := newWorld(s, c, p.Property)
	pr := s.NewProc("codec", nil, p.Seed)
	done := false
	pr.Start("main", func() {
		w.setup()
		if w.stop() {
			return
		}
		if w.ncol > 0 && c.SaltSeed[0] >= 0 {
			if w.ncol > 1 {
				w.fail("hash-quality", "%d pairs of %d transactions collide under %d salts; hashes of 32 bits would not", w.ncol, len(c.Txs), len(c.SaltSeed))
			}
			w.s.Probe("accidental_collision")
			return
		}
		if c.Threads {
			w.threads()
		} else {
			for i := range c.Ops {
				w.op(&c.Ops[i])
			}
		}
		if c.Permute != 0 {
			for _, x := range w.rcv {
				if !w.stop() {
					w.permuted(x, c.Permute+int64(x.i))
				}
			}
		}
		done = true
	})
	s.Run(1 << 60)
	if s.Violation == nil && !done && !w.off && s.Probes["accidental_collision"] == 0 {
		if s.StopWhy == "steps" {
			r.Err = "step limit reached"
			return r
		}
		s.Fail(p.Property, "hang", "the exchange did not finish: %s", pr.Tasks()[0].Why())
	}
	s.Probes["reported"] += int64(w.nrep)
	s.FaultN["corrupted codewords"] += int64(w.nfl)
	if w.ncol > 0 {
		s.FaultN["salted-hash collisions"] += int64(w.ncol)
	}
	w.countFaults()
	core.Collect(s, r)
	r.NonTrivial = w.nrep > 0 || p.Property == "C15" && len(w.cws) > 1
	return r
}

// countFaults counts what the channel did to the codewords.
func (w *world) countFaults() {
	got := map[[2]int]int{}
	last := map[int]int{}
	dups, re := 0, 0
	ncw := 0
	for _, o := range w.c.Ops {
		switch o.K {
		case "cw":
			ncw++
		case "rx":
			k := [2]int{o.A, o.B}
			if got[k] > 0 {
				dups++
			}
			got[k]++
			if o.B < last[o.A] {
				re++
			}
			last[o.A] = max(last[o.A], o.B)
		case "reset":
			w.s.FaultN["sender resets"]++
		}
	}
	w.s.FaultN["duplicated codewords"] += int64(dups)
	w.s.FaultN["reordered codewords"] += int64(re)
	w.s.FaultN["lost codewords"] += int64(max(0, ncw*len(w.rcv)-len(got)))
}

// threads runs senders concurrently first, then receivers concurrently.
func (w *world) threads() {
	run := func(n int, mine func(o *Op) int) {
		var wg simrt.WaitGroup
		for i := 0; i < n; i++ {
			i := i
			wg.Add(1)
			simrt.Go(fmt.Sprint("party", i), func() {
				defer wg.Done()
				for k := range w.c.Ops {
					if o := &w.c.Ops[k]; mine(o) == i {
						simrt.Point()
						w.op(o)
					}
				}
			})
		}
		wg.Wait()
	}
	run(len(w.snd), func(o *Op) int {
		if o.K == "tx" || o.K == "cw" || o.K == "reset" {
			return o.A
		}
		return -1
	})
	run(len(w.rcv), func(o *Op) int {
		if o.K == "rx" || o.K == "local" || o.K == "free" {
			return o.A
		}
		return -1
	})
}

func (suite) Shrink(p *core.Plan) []*core.Plan {
	var out []*core.Plan
	mod := func(f func(c *Cfg) bool) {
		c := core.CloneCfg[Cfg](p)
		if f(c) {
			out = append(out, p.With(c))
		}
	}
	base := core.CloneCfg[Cfg](p)
	if base.Riblt != nil {
		return shrinkRiblt(p)
	}
	if base.Sketch != nil {
		return shrinkSketch(p)
	}
	n := len(base.Ops)
	for sz := n / 2; sz >= 1; sz /= 2 {
		for i := 0; i < n; i += sz {
			i, sz := i, sz
			mod(func(c *Cfg) bool {
				c.Ops = append(c.Ops[:i:i], c.Ops[min(n, i+sz):]...)
				return true
			})
		}
	}
	mod(func(c *Cfg) bool { ok := c.Threads; c.Threads = false; return ok })
	mod(func(c *Cfg) bool { ok := c.PoolMode != 0; c.PoolMode = 0; return ok })
	mod(func(c *Cfg) bool {
		used := 0
		for _, o := range c.Ops {
			if o.K == "tx" || o.K == "local" {
				used = max(used, o.B+1)
			}
		}
		ok := used < len(c.Txs)
		c.Txs = c.Txs[:min(used, len(c.Txs))]
		return ok
	})
	mod(func(c *Cfg) bool {
		ok := false
		for i := range c.Ops {
			ok = ok || c.Ops[i].Dt != 0
			c.Ops[i].Dt = 0
		}
		return ok
	})
	for i := range base.Ops {
		i := i
		if base.Ops[i].K == "cw" && base.Ops[i].D > 1 {
			mod(func(c *Cfg) bool { c.Ops[i].D--; return true })
		}
	}
	for i := range base.Snd {
		i := i
		if base.Snd[i].WS > 1 {
			mod(func(c *Cfg) bool { c.Snd[i].WS--; return true })
		}
	}
	return out
}

func (suite) Describe(prop string) core.Info {
	i := core.Info{
		Rule: "One case is one simulated exchange derived from one seed: 1-3 senders and 1-4 receivers of one codec (lt and iblt over value and over reference transactions, ldpc), a schedule of additions, codeword productions, deliveries, releases and resets, and what the channel did to each codeword. It is non-trivial when a receiver reported at least one transaction (C15: at least two codewords were produced); two cases are distinct when the hash of their event logs differs.",
		Real: []string{"lt", "iblt", "ldpc", "siphash", "blake2b"},
		Stub: []string{"the network between senders and receivers", "math/rand state", "sync.Pool (which object comes back is a scheduling choice)", "the degree distribution (chosen by the simulator)", "goroutine scheduler (concurrent connections of one process)"},
		Assumptions: []string{
			"salted hashes of the transactions of a run are learned from codewords of degree one produced by the encoder; runs in which two of them collide by accident are skipped (C11 seeks collisions on purpose)",
			"transaction contents used by the simulator are pseudo-random; a checksum accident (2^-32) is not excluded but was never met",
		},
	}
	if prop == "C18" {
		describeRiblt(&i)
	}
	if prop == "C28" {
		describeSketch(&i)
	}
	return i
}

func main() {
	_ = binary.LittleEndian
	core.Main(suite{})
}
