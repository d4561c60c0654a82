package main

import (
	"encoding/json"
	"fmt"
	"math/rand"

	"verif/harness/core"
	"verif/simrt"
)

type suite struct{}

func newRand(seed int64) *rand.Rand { return rand.New(rand.NewSource(seed)) }

func pick[T any](r *rand.Rand, xs ...T) T { return xs[r.Intn(len(xs))] }

// genTopo draws a connected simple graph.
func genTopo(r *rand.Rand, n int) [][3]int {
	var es [][3]int
	seen := map[[2]int]bool{}
	base := pick(r, 1, 5, 20, 100)
	add := func(a, b int) {
		if a == b || seen[[2]int{a, b}] || seen[[2]int{b, a}] {
			return
		}
		seen[[2]int{a, b}] = true
		d := base
		switch r.Intn(4) {
		case 0:
			d = 1 + r.Intn(2*base)
		case 1:
			d = base * pick(r, 1, 1, 3, 10)
		}
		if r.Intn(2) == 0 {
			a, b = b, a
		}
		es = append(es, [3]int{a, b, d})
	}
	shape := r.Intn(4)
	for i := 1; i < n; i++ {
		switch shape {
		case 0:
			add(i-1, i) // line
		case 1:
			add(0, i) // star
		default:
			add(r.Intn(i), i)
		}
	}
	for k := pick(r, 0, 0, 1, n/2, n); k > 0; k-- {
		add(r.Intn(n), r.Intn(n))
	}
	r.Shuffle(len(es), func(i, j int) { es[i], es[j] = es[j], es[i] })
	return es
}

func genShape(r *rand.Rand, c *Cfg, n int) {
	sh := &c.Shape
	sh.Seed = r.Int63n(1 << 40)
	if r.Intn(2) == 0 {
		sh.JitterUs = pick(r, int64(100), 2000, 20000, 200000)
	}
	if r.Intn(3) == 0 {
		sh.Spike = pick(r, 5, 50, 200)
		sh.SpikeUs = pick(r, int64(50000), 500000)
	}
	for k := pick(r, 0, 0, 1, 2, 5); k > 0; k-- {
		e := c.Edges[r.Intn(len(c.Edges))]
		st := Stall{From: e[0], To: e[1], AtMs: r.Int63n(5000), LenMs: pick(r, int64(100), 1000, 10000)}
		if r.Intn(2) == 0 {
			st.From, st.To = e[1], e[0]
		}
		if r.Intn(4) == 0 {
			st.From = -1
		}
		sh.Stalls = append(sh.Stalls, st)
	}
	if r.Intn(2) == 0 {
		sh.ArrFast = pick(r, 0, 100, 500)
		sh.ArrSlow = pick(r, 0, 50, 200)
	}
}

func (suite) Gen(prop string, seed int64, tier string) *core.Plan {
	r := newRand(seed)
	p := &core.Plan{Property: prop, Seed: seed}
	p.Sched = simrt.SchedConfig{Seed: seed, Mode: pick(r, "random", "random", "fifo"), YieldPerMille: 300}
	big := tier != "quick"
	switch prop {
	case "C23":
		return genDes(p, r, tier)
	case "C27":
		return genMB(p, r, tier)
	}
	c := &Cfg{Sim: "newsim", Algo: "coding", TxSize: 256, Mix: r.Int63n(1 << 40), DurMs: 100_000_000}
	n := pick(r, 2, 2, 3, 3, 4, 5, 6)
	if big {
		n = pick(r, 2, 3, 4, 5, 6, 8, 12)
	}
	if prop == "C31" && r.Intn(4) == 0 {
		n = pick(r, 9, 12, 20, 33)
	}
	if prop == "C25" && r.Intn(6) == 0 {
		// enough servers for the outer percentiles to differ from the extremes
		n = pick(r, 14, 18, 22)
	}
	c.Edges = genTopo(r, n)
	c.Burst = pick(r, 1, 1, 1, 3, 10)
	c.TxGen = pick(r, 0.5, 2, 5, 20, 100)
	c.Ctrl = pick(r, 0.02, 0.1, 0.1, 0.3, 1)
	c.Shards = pick(r, 1, 2, 3, 5, 8, 16, 64)
	c.MaxTx = n + pick(r, 0, 3, 10, 30, 60)
	if big && r.Intn(3) == 0 {
		c.MaxTx += pick(r, 100, 300)
	}
	genShape(r, c, n)
	c.MaxEv = 400_000
	switch prop {
	case "C19":
		c.Flood = r.Intn(4) == 0
	case "C20", "C34":
		c.MaxEv = pick(r, 1000, 5000, 20000)
		if big {
			c.MaxEv *= 3
		}
		c.Flood = r.Intn(8) == 0
		if prop == "C34" && r.Intn(4) > 0 {
			// blocks of many transactions
			c.Shards = pick(r, 1, 1, 2, 3, 8)
			c.Burst = pick(r, 1, 3, 10, 50, 200)
			c.TxGen = pick(r, 20.0, 100, 1000)
			c.MaxTx = pick(r, 60, 300, 1000)
			c.Ctrl = pick(r, 0.02, 0.1, 0.3, 0.7, 1, 2)
		}
	case "C21":
		c.Algo = "pull"
		c.Flood = r.Intn(4) == 0
		c.Shape.Reorder = r.Intn(2) == 0
		if r.Intn(2) == 0 {
			c.Shape.Dup = pick(r, 50, 300, 1000)
		}
		c.MaxTx *= pick(r, 1, 3)
	case "C22", "C26", "C30":
		c.Sim = "simulator"
	case "C24", "C25":
		c.Sim = pick(r, "newsim", "simulator")
		c.Algo = pick(r, "coding", "pull")
		c.Flood = r.Intn(4) == 0
		c.TxSize = pick(r, 1, 100, 256, 1000)
		c.MaxEv = 0
	}
	if c.Sim == "simulator" {
		c.Algo, c.Shards, c.TxSize, c.Flood = "", 0, 0, false
		c.Th = pick(r, 1, 2, 5, 5, 10)
		c.Ctrl = pick(r, 0.05, 0.1, 0.2, 0.3, 0.5, 1)
		c.Mem = 50000
		c.Smooth = pick(r, 100000.0, 1000, 100, 20, 3)
		c.Loss = pick(r, 0, 0, 0.1, 0.3)
		c.Seed = r.Int63n(1000)
		if r.Intn(4) == 0 {
			c.SyncMs = pick(r, 50, 500, 3000)
		}
		c.TxGen = pick(r, 5.0, 20, 100, 300)
		c.MaxTx = pick(r, 50, 200, 500)
		c.MaxEv = pick(r, 3000, 10000)
		if big {
			c.MaxTx *= 3
			c.MaxEv *= 3
		}
		if prop == "C30" {
			c.MaxTx = pick(r, 10, 30, 100, 300)
			if big {
				c.MaxTx *= pick(r, 1, 3, 5)
			}
			c.MaxEv = 400_000
			c.Ctrl = pick(r, 0.05, 0.07, 0.1, 0.15, 0.2, 0.3, 0.4, 0.5, 0.7, 1)
		}
	}
	if prop == "C31" {
		c.Sim = pick(r, "newsim", "simulator")
		c.Algo = pick(r, "coding", "pull", "pull")
		c.Flood = r.Intn(3) == 0
		if c.Sim == "simulator" {
			c.Algo, c.Shards, c.TxSize, c.Flood = "", 0, 0, false
			c.Th, c.Ctrl, c.Mem, c.Loss = pick(r, 1, 5, 10), pick(r, 0.1, 0.3, 1), 50000, pick(r, 0, 0.1)
			c.Smooth = pick(r, 100000.0, 1000, 100)
			c.Seed = r.Int63n(1000)
			if r.Intn(4) == 0 {
				c.SyncMs = pick(r, 50, 500, 3000)
			}
		} else if c.Algo == "coding" {
			for i := range c.Edges {
				c.Edges[i][2] = max(c.Edges[i][2], 20)
			}
		}
		c.TxGen = pick(r, 0.5, 5.0, 20, 100, 1000)
		c.MaxTx = 0
		c.MaxEv = pick(r, 500, 3000, 20000)
		if n > 8 {
			c.TxGen = pick(r, 20.0, 100)
			c.MaxEv = pick(r, 3000, 20000)
		}
	}
	if prop == "C24" || prop == "C25" {
		c.MaxTx = 0
		c.MaxEv = 0
		// bound the number of events
		c.DurMs = pick(r, int64(3000), 8000, 20000)
		if c.Sim == "newsim" && c.Algo == "coding" {
			c.DurMs = pick(r, int64(2000), 3000, 6000)
			for i := range c.Edges {
				c.Edges[i][2] = max(c.Edges[i][2], 10)
			}
		}
		c.TxGen = pick(r, 2.0, 10, 30)
		if r.Intn(2) == 0 {
			c.MaxTx = 20 * n
		}
		c.WarmMs = pick(r, 0, 0, c.DurMs/4, c.DurMs/2, c.DurMs*9/10)
		if c.Sim == "simulator" {
			c.RepMs = pick(r, 0, 100, 1000, 2500)
			c.WarmMs = pick(r, 0, 0, c.DurMs/4, c.DurMs/2)
			c.Th = pick(r, 1, 2, 5)
			c.Ctrl = pick(r, 0.2, 0.5)
			c.TxGen = pick(r, 20.0, 60)
		}
		if n > 12 {
			c.DurMs = min(c.DurMs, 3000)
			c.WarmMs = min(c.WarmMs, c.DurMs/2)
		}
	}
	p.Scenario = c.Sim + "-" + c.Algo
	if c.Sim == "simulator" {
		p.Scenario = c.Sim
	}
	if prop == "C24" {
		c.Shape = Shape{}
		c.MaxTx = 0
		rc := &RCfg{Cfg: *c}
		for i := 0; i < 2+r.Intn(2); i++ {
			rc.Envs = append(rc.Envs, Env{Sched: r.Int63n(1 << 40), Mode: pick(r, "fifo", "random", "random"), Rng: r.Int63n(1 << 40), Wall: r.Int63n(1e8), Jump: r.Intn(2) == 0})
		}
		return p.With(rc)
	}
	return p.With(c)
}

func (suite) Exec(p *core.Plan, trace bool) *core.Result {
	switch p.Property {
	case "C23":
		return execDes(p, trace)
	case "C24":
		return execRepro(p, trace)
	case "C27":
		return execMB(p, trace)
	}
	c := core.CloneCfg[Cfg](p)
	s := simrt.New(p.Sched)
	defer s.Close()
	s.TraceOn = trace
	s.MaxSteps = 50_000_000
	r := &core.Result{}
	w := newWorld(s, c, p.Property)
	var lw *lworld
	var sw *statw
	var tw *traffic
	switch {
	case p.Property == "C25":
		sw = newStatw(w)
	case p.Property == "C31":
		tw = newTraffic(w)
	case c.Sim == "newsim":
		newNworld(w)
	default:
		lw = newLworld(w)
	}
	s.OnCrash = func(pr *simrt.Proc, cr *simrt.Crash) {
		if !emptySketch(cr.Msg) && s.Violation == nil {
			s.Fail(p.Property, "panic", "the program died: %s [%s]", cr.Msg, cr.Stack)
		}
	}
	pr := s.NewProc(c.Sim, c.args(), p.Seed)
	w.proc = pr
	pr.SeedMix = c.Mix
	pr.AddFile("topo.txt", c.topo())
	pr.Start("main", program(c.Sim))
	s.Run(1 << 60)
	if s.Violation == nil && !pr.Exited && pr.Crash == nil && s.StopWhy == "steps" {
		r.Err = "step limit reached"
		return r
	}
	w.off = true
	if lw != nil && s.Violation == nil {
		w.off = false
		lw.final()
		w.off = true
	}
	if tw != nil && s.Violation == nil {
		w.off = false
		tw.final()
		w.off = true
	}
	if sw != nil && s.Violation == nil {
		sw.verify(pr.Stdout.String(), pr.Files(), pr.Crash != nil)
	}
	if p.Property == "C19" || p.Property == "C21" || p.Property == "C30" {
		s.Probes["ended "+w.finished]++
	}
	s.Probes["messages"] += int64(w.nev)
	s.Probes["transactions"] += int64(w.total)
	core.Collect(s, r)
	r.SimNs += w.now
	switch p.Property {
	case "C30":
		r.NonTrivial = w.finished == "complete" && s.Probes["blocks"] > 0
	case "C19", "C21":
		r.NonTrivial = w.finished == "complete" && w.total > 0
	case "C25":
		r.NonTrivial = s.Probes["figures"]+s.Probes["latencies"]+s.Probes["traces"] > 0
	case "C31":
		r.NonTrivial = s.Probes["intervals_compared"] > 0
	case "C26":
		r.NonTrivial = s.Probes["forwards"] > 1
	case "C34":
		r.NonTrivial = s.Probes["windows"] > 0
	default:
		r.NonTrivial = s.Probes["blocks"] > 0
	}
	return r
}

func (suite) Shrink(p *core.Plan) []*core.Plan {
	switch p.Property {
	case "C23":
		return shrinkDes(p)
	case "C27":
		return shrinkMB(p)
	}
	var out []*core.Plan
	rc := p.Property == "C24"
	mod := func(f func(c *Cfg) bool) {
		if rc {
			c := core.CloneCfg[RCfg](p)
			if f(&c.Cfg) {
				out = append(out, p.With(c))
			}
			return
		}
		c := core.CloneCfg[Cfg](p)
		if f(c) {
			out = append(out, p.With(c))
		}
	}
	var base Cfg
	json.Unmarshal(p.Cfg, &base)
	if rc {
		c := core.CloneCfg[RCfg](p)
		if len(c.Envs) > 2 {
			for i := range c.Envs {
				d := *c
				d.Envs = append(append([]Env(nil), c.Envs[:i]...), c.Envs[i+1:]...)
				out = append(out, p.With(d))
			}
		}
		for i := range c.Envs {
			d := *c
			d.Envs = append([]Env(nil), c.Envs...)
			e := c.Envs[0]
			if i == 0 {
				continue
			}
			for _, v := range []Env{{c.Envs[i].Sched, c.Envs[i].Mode, e.Rng, e.Wall, e.Jump}, {e.Sched, e.Mode, c.Envs[i].Rng, e.Wall, e.Jump}, {e.Sched, e.Mode, e.Rng, c.Envs[i].Wall, e.Jump}, {e.Sched, e.Mode, e.Rng, e.Wall, c.Envs[i].Jump}} {
				if v != c.Envs[i] && v != e {
					d.Envs[i] = v
					out = append(out, p.With(d))
				}
			}
		}
	}
	// drop the highest-numbered server, an edge
	n := 0
	for _, e := range base.Edges {
		n = max(n, e[0]+1, e[1]+1)
	}
	connected := func(c *Cfg, want int) bool {
		comp := make([]int, want)
		for i := range comp {
			comp[i] = i
		}
		var find func(i int) int
		find = func(i int) int {
			if comp[i] != i {
				comp[i] = find(comp[i])
			}
			return comp[i]
		}
		for _, e := range c.Edges {
			if e[0] >= want || e[1] >= want {
				return false
			}
			comp[find(e[0])] = find(e[1])
		}
		for i := range comp {
			if find(i) != find(0) {
				return false
			}
		}
		return true
	}
	for v := 0; v < n && n > 2; v++ {
		v := v
		mod(func(c *Cfg) bool {
			var es [][3]int
			ren := func(x int) int {
				if x > v {
					return x - 1
				}
				return x
			}
			for _, e := range c.Edges {
				if e[0] != v && e[1] != v {
					es = append(es, [3]int{ren(e[0]), ren(e[1]), e[2]})
				}
			}
			c.Edges = es
			var st []Stall
			for _, s := range c.Shape.Stalls {
				if s.From != v && s.To != v {
					s.From, s.To = ren(s.From), ren(s.To)
					st = append(st, s)
				}
			}
			c.Shape.Stalls = st
			return connected(c, n-1)
		})
	}
	for i := range base.Edges {
		i := i
		mod(func(c *Cfg) bool {
			c.Edges = append(c.Edges[:i:i], c.Edges[i+1:]...)
			return connected(c, n)
		})
	}
	mod(func(c *Cfg) bool { ok := c.MaxTx > 1; c.MaxTx /= 2; return ok })
	mod(func(c *Cfg) bool { ok := c.MaxEv > 50; c.MaxEv /= 2; return ok })
	if base.DurMs < 1_000_000 {
		mod(func(c *Cfg) bool { ok := c.DurMs > 500; c.DurMs /= 2; c.WarmMs /= 2; return ok })
	}
	mod(func(c *Cfg) bool { ok := c.WarmMs > 0; c.WarmMs = 0; return ok })
	mod(func(c *Cfg) bool { ok := c.Burst > 1; c.Burst = 1; return ok })
	mod(func(c *Cfg) bool { ok := c.Flood; c.Flood = false; return ok })
	mod(func(c *Cfg) bool { ok := c.Shards > 1; c.Shards = 1; return ok })
	mod(func(c *Cfg) bool { ok := c.Shards > 2; c.Shards = 2; return ok })
	mod(func(c *Cfg) bool { ok := c.SyncMs > 0; c.SyncMs = 0; return ok })
	mod(func(c *Cfg) bool { ok := c.Loss > 0; c.Loss = 0; return ok })
	mod(func(c *Cfg) bool { ok := c.Shape.JitterUs > 0; c.Shape.JitterUs = 0; return ok })
	mod(func(c *Cfg) bool { ok := c.Shape.Spike > 0; c.Shape.Spike = 0; return ok })
	mod(func(c *Cfg) bool { ok := c.Shape.Dup > 0; c.Shape.Dup = 0; return ok })
	mod(func(c *Cfg) bool { ok := c.Shape.Reorder; c.Shape.Reorder = false; return ok })
	mod(func(c *Cfg) bool {
		ok := c.Shape.ArrFast+c.Shape.ArrSlow > 0
		c.Shape.ArrFast, c.Shape.ArrSlow = 0, 0
		return ok
	})
	for i := range base.Shape.Stalls {
		i := i
		mod(func(c *Cfg) bool {
			c.Shape.Stalls = append(c.Shape.Stalls[:i:i], c.Shape.Stalls[i+1:]...)
			return true
		})
	}
	return out
}

func (suite) Describe(prop string) core.Info {
	i := core.Info{
		Rule: "One case is one simulated execution of the whole program (newsim or simulator: main, servers, protocol, codec, event kernel) derived from one seed: topology, parameters, generator seeds, and what the network does to every message. It is non-trivial when the mechanism under test was exercised (C19, C21: the run reached full delivery; C20, C22, C30: a block completed (C30: and the run ended with all load gone through); C25: at least one printed figure was compared; C26: at least two transactions were forwarded; C31: at least one interval between arrivals was compared; C34: a window that acknowledgements of the open block had made grow was compared). Two cases are distinct when the hashes of their event logs (every delivery with kind, link and time) differ.",
		Real: []string{"newsim", "simulator", "des", "lt", "riblt", "soliton", "ddsketch", "moremath"},
		Stub: []string{"link delays beyond the configured ones, stalls, reordering and duplication (applied to the messages servers hand to the event kernel)", "math/rand seeds", "files and standard output", "wall clock", "map iteration order"},
		Assumptions: []string{
			"topologies are connected simple graphs with delays of at least 1 ms",
			"links of the coding and LT protocols deliver in order and without loss, as in the simulators; the pull protocol is also run over reordering links that duplicate announcements",
			"a program that ends because a latency sketch has no samples is taken to have ended normally",
		},
	}
	switch prop {
	case "C23":
		i.Rule = "One case is one history of an event kernel with 1-10 modules, derived from one seed: messages scheduled from outside and from inside handlers with drawn delays (many ties), interleaved with run-until and run-to-the-end calls. It is non-trivial when at least two messages were delivered; cases are distinct when the hashes of their delivery logs differ."
		i.Real = []string{"des"}
		i.Stub = []string{"the modules"}
		i.Assumptions = []string{"delays are not negative", "run-until delivers everything due by its limit and may deliver one message beyond it, as its callers expect"}
	case "C24":
		i.Rule = "One case is one parameter set run two or three times under different environments (map iteration order, global generator state, wall clock with jumps). It is non-trivial when the program printed its complete statistics; cases are distinct when the outputs differ."
		i.Real = []string{"newsim", "simulator", "des", "lt", "riblt", "soliton", "ddsketch", "moremath"}
		i.Stub = []string{"map iteration order", "global math/rand", "wall clock", "files and standard output"}
		i.Assumptions = []string{"the report of simulation speed on standard error is not a result"}
	case "C27":
		i.Rule = "One case is one call of a microbenchmark, its workers interleaved by the seeded scheduler with preemption inside loops. It is non-trivial with at least two workers; cases are distinct when the hashes of their schedules differ."
		i.Real = []string{"microbenchmarks", "lt", "soliton"}
		i.Stub = []string{"goroutine scheduler", "channels"}
		i.Assumptions = []string{"the reference runs each repetition alone on the same codec; defects of the codec itself are the subject of C11-C15"}
	}
	return i
}

func main() {
	_ = fmt.Sprint
	core.Main(suite{})
}
