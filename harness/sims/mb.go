package main

import (
	"math/rand"

	"github.com/yangl1996/rateless-set-reconcile/lt"
	mb "github.com/yangl1996/rateless-set-reconcile/microbenchmarks"
	"github.com/yangl1996/soliton"

	"verif/harness/core"
	"verif/simrt"
)

// MCfg is one run of a microbenchmark.
type MCfg struct {
	Two    bool  `json:"two,omitempty"`
	Runs   int   `json:"runs"`
	N      int   `json:"n"`
	Common int   `json:"common"`
	CW     int   `json:"cw,omitempty"`
	Every  int64 `json:"every"`          // preempt at every n-th loop iteration, 0: only at channel operations
	Acc    int64 `json:"acc,omitempty"`  // preempt at every n-th access to shared memory
	Race   bool  `json:"race,omitempty"` // watch for unordered accesses
	Mix    int64 `json:"mix,omitempty"`
}

// testKey is the salt the benchmarks use.
var testKey = [lt.SaltSize]byte{0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15}

// oneRun is the reference: one repetition, on its own.
func oneRun(c *MCfg, seed int64) int {
	type T = mb.Transaction
	src := func() *rand.Rand { return rand.New(rand.NewSource(seed ^ c.Mix)) }
	dist := func() *soliton.Soliton { return soliton.NewRobustSoliton(src(), uint64(c.N), 0.03, 0.5) }
	d := lt.NewDecoder[T](testKey, 2147483647)
	need := map[uint64]bool{}
	idx := uint64(0)
	next := func() lt.Transaction[T] {
		t := mb.GetTransaction(idx)
		idx++
		return t
	}
	recv := func(e *lt.Encoder[T]) {
		_, got := d.AddCodeword(e.ProduceCodeword())
		for _, t := range got {
			delete(need, t.Data().Idx)
		}
	}
	if !c.Two {
		e := lt.NewEncoder[T](src(), testKey, dist(), c.N)
		for k := 0; k < c.N; {
			t := next()
			if !e.AddTransaction(t) {
				continue
			}
			if k < c.Common {
				d.AddTransaction(t)
			} else {
				need[t.Data().Idx] = true
			}
			k++
		}
		n := 0
		for ; len(need) > 0; n++ {
			recv(e)
		}
		return n
	}
	d1, d2 := dist(), dist()
	e1 := lt.NewEncoder[T](src(), testKey, d1, c.N)
	e2 := lt.NewEncoder[T](src(), testKey, d2, c.N)
	for k := 0; k < c.Common; {
		t := next()
		if !e1.AddTransaction(t) {
			continue
		}
		e2.AddTransaction(t)
		need[t.Data().Idx] = true
		k++
	}
	for _, e := range []*lt.Encoder[T]{e1, e2} {
		for k := c.Common; k < c.N; {
			t := next()
			if e.AddTransaction(t) {
				need[t.Data().Idx] = true
				k++
			}
		}
	}
	n := 0
	for ; n < c.CW; n++ {
		recv(e1)
	}
	for ; len(need) > 0 && n < c.CW+5*c.N; n++ {
		recv(e2)
	}
	if len(need) > 0 {
		return -1
	}
	return n
}

func reference(c *MCfg) int {
	tot, failed := 0, 0
	for i := 0; i < c.Runs; i++ {
		if n := oneRun(c, int64(i)); n < 0 {
			failed++
		} else {
			tot += n
		}
	}
	if !c.Two {
		return tot / c.Runs
	}
	if c.Runs > failed+50 {
		return tot / (c.Runs - failed)
	}
	return -1
}

func genMB(p *core.Plan, r *rand.Rand, tier string) *core.Plan {
	c := &MCfg{Two: r.Intn(2) == 0, Runs: pick(r, 1, 2, 3, 8, 20), N: pick(r, 2, 5, 10, 20, 40)}
	if c.Two {
		c.Runs = pick(r, 20, 51, 55, 60, 75)
		c.N = pick(r, 2, 5, 10, 20)
	}
	if tier != "quick" && r.Intn(3) == 0 {
		c.N *= pick(r, 2, 5)
	}
	c.Common = r.Intn(c.N + 1)
	if c.Two {
		c.CW = r.Intn(2*c.N + 1)
	}
	c.Every = pick(r, int64(0), 1, 2, 7, 50, 500)
	c.Acc = pick(r, int64(0), 1, 2, 3, 17)
	c.Race = r.Intn(3) == 0
	p.Sched.Mode = pick(r, "random", "random", "pct")
	p.Sched.YieldPerMille = pick(r, 100, 500, 1000)
	p.Scenario = "one-sender"
	if c.Two {
		p.Scenario = "two-senders"
	}
	return p.With(c)
}

func execMB(p *core.Plan, trace bool) *core.Result {
	c := core.CloneCfg[MCfg](p)
	r := &core.Result{}
	s := simrt.New(p.Sched)
	defer s.Close()
	s.TraceOn = trace
	s.LoopEvery = c.Every
	s.AccEvery = c.Acc
	if c.Race {
		s.RaceProp = p.Property
		s.EnableRace()
	}
	s.MaxSteps = 20_000_000
	s.OnCrash = func(pr *simrt.Proc, cr *simrt.Crash) { s.Fail(p.Property, "panic", "%s [%s]", cr.Msg, cr.Stack) }
	pr := s.NewProc("mb", nil, p.Seed)
	got, done := 0, false
	pr.Start("main", func() {
		if c.Two {
			got = mb.SimulateTwoSendersOverlap(c.Runs, c.N, c.Common, c.CW)
		} else {
			got = mb.SimulateOneSenderOverlap(c.Runs, c.N, c.Common)
		}
		done = true
	})
	s.Run(1 << 60)
	steps := s.Steps
	want := 0
	if s.Violation == nil {
		if !done {
			if s.StopWhy == "steps" {
				r.Err = "step limit reached"
				return r
			}
			s.Fail(p.Property, "hang", "the benchmark did not return: %s", pr.Tasks()[0].Why())
		} else {
			ref := s.NewProc("ref", nil, 1)
			s.LoopEvery, s.AccEvery, s.RaceOn = 0, 0, false
			fin := false
			ref.Start("main", func() { want = reference(c); fin = true })
			s.Run(1 << 60)
			if fin && got != want {
				s.Fail(p.Property, "result", "the benchmark (two senders: %v, %d runs, N=%d, common=%d, cw=%d) returned %d; running the repetitions one after another gives %d", c.Two, c.Runs, c.N, c.Common, c.CW, got, want)
			}
			if !fin && s.Violation == nil {
				r.Err = "the reference run did not finish"
				return r
			}
			if want >= 0 {
				s.Probes["averages"]++
			}
		}
	}
	s.FaultN["preemptions"] += s.Switches
	s.Note("result", int64(got), int64(want))
	core.Collect(s, r)
	r.Steps = steps
	r.NonTrivial = c.Runs > 1
	return r
}

func shrinkMB(p *core.Plan) []*core.Plan {
	var out []*core.Plan
	mod := func(f func(c *MCfg) bool) {
		c := core.CloneCfg[MCfg](p)
		if f(c) {
			out = append(out, p.With(c))
		}
	}
	mod(func(c *MCfg) bool { ok := c.Runs > 1; c.Runs = (c.Runs + 1) / 2; return ok && !c.Two })
	mod(func(c *MCfg) bool { ok := c.Runs > 51 && c.Two; c.Runs = 51; return ok })
	mod(func(c *MCfg) bool { ok := c.Every != 0; c.Every = 0; return ok })
	mod(func(c *MCfg) bool { ok := c.Acc != 0; c.Acc = 0; return ok })
	mod(func(c *MCfg) bool { ok := c.Race; c.Race = false; return ok })
	mod(func(c *MCfg) bool { ok := c.N > 2; c.N /= 2; c.Common = min(c.Common, c.N); return ok })
	mod(func(c *MCfg) bool { ok := c.Common > 0; c.Common /= 2; return ok })
	mod(func(c *MCfg) bool { ok := c.CW > 0; c.CW /= 2; return ok })
	return out
}
