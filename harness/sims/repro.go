package main

import (
	"bytes"
	"fmt"
	"sort"
	"strings"
	"time"

	"github.com/yangl1996/rateless-set-reconcile/newsim"
	"github.com/yangl1996/rateless-set-reconcile/simulator"

	"verif/harness/core"
	"verif/simrt"
)

// RCfg runs one parameter set several times under different environments.
type RCfg struct {
	Cfg
	Envs []Env `json:"envs"`
}

// Env is what must not matter.
type Env struct {
	Sched int64  `json:"sched"`
	Mode  string `json:"mode"` // map order: fifo (canonical) or random
	Rng   int64  `json:"rng"`  // state of the global generators
	Wall  int64  `json:"wall"` // clock offset, s
	Jump  bool   `json:"jump,omitempty"`
}

func program(sim string) func() {
	if sim == "simulator" {
		return simulator.Main
	}
	return newsim.Main
}

func runEnv(p *core.Plan, c *RCfg, e Env, trace bool) (*simrt.Sim, *simrt.Proc) {
	s := simrt.New(simrt.SchedConfig{Seed: e.Sched, Mode: e.Mode, YieldPerMille: 300})
	s.TraceOn = trace
	s.MaxSteps = 50_000_000
	pr := s.NewProc(c.Sim, c.args(), e.Rng)
	pr.SeedMix = c.Mix
	pr.WallOff = e.Wall * 1e9
	pr.AddFile("topo.txt", c.topo())
	jr := newRand(e.Sched ^ 77)
	s.OnNow = func(q *simrt.Proc) {
		if e.Jump {
			q.WallOff += jr.Int63n(2e9) - 5e8
			s.FaultN["clock jumps"]++
		}
	}
	at, n, idle := time.Duration(-1), 0, 0
	s.OnCall("*.HandleMessage", func(k *simrt.Call) {
		if k.After || len(k.Args) < 3 || s.Violation != nil {
			return
		}
		if t, _ := k.Args[2].(time.Duration); t != at {
			at, n = t, 0
		}
		idle = 0
		if n++; n > burstMax {
			s.Fail(p.Property, "livelock", "%d messages were handled at %v without time passing", burstMax, at)
			simrt.OsExit(0)
		}
	})
	s.OnCall("des.Simulator.RunUntil", func(k *simrt.Call) {
		if idle++; idle > idleMax && s.Violation == nil {
			s.Fail(p.Property, "livelock", "the event loop was entered %d times without a message", idleMax)
			simrt.OsExit(0)
		}
	})
	pr.Start("main", program(c.Sim))
	s.Run(1 << 60)
	return s, pr
}

func digest(pr *simrt.Proc) (string, string) {
	var b strings.Builder
	b.WriteString(pr.Stdout.String())
	crash := ""
	if pr.Crash != nil {
		crash = pr.Crash.Msg
		fmt.Fprintf(&b, "\ncrash: %s\n", pr.Crash.Msg)
	}
	var names []string
	for n := range pr.Files() {
		if n != "topo.txt" {
			names = append(names, n)
		}
	}
	sort.Strings(names)
	for _, n := range names {
		fmt.Fprintf(&b, "\n== %s\n%s", n, bytes.TrimSpace(pr.Files()[n].Data))
	}
	return b.String(), crash
}

func execRepro(p *core.Plan, trace bool) *core.Result {
	c := core.CloneCfg[RCfg](p)
	r := &core.Result{}
	first := ""
	var res *simrt.Sim
	for i, e := range c.Envs {
		s, pr := runEnv(p, c, e, trace)
		d, crash := digest(pr)
		if crash != "" && !emptySketch(crash) {
			s.Fail(p.Property, "panic", "the program died: %s [%s]", crash, pr.Crash.Stack)
		}
		if i == 0 {
			first = d
		} else if d != first && s.Violation == nil {
			a, b := strings.Split(first, "\n"), strings.Split(d, "\n")
			k := 0
			for k < len(a) && k < len(b) && a[k] == b[k] {
				k++
			}
			x, y := "(end of output)", "(end of output)"
			if k < len(a) {
				x = a[k]
			}
			if k < len(b) {
				y = b[k]
			}
			s.Fail(p.Property, "differs", "run %d differs from the first in line %d of the output: %q instead of %q", i+1, k+1, y, x)
		}
		if res != nil {
			s.LogHash ^= res.LogHash * 31
			for k, v := range res.FaultN {
				s.FaultN[k] += v
			}
			s.Steps += res.Steps
		}
		s.Note(d, int64(len(d)), 0)
		if e.Mode == "random" {
			s.FaultN["permuted map iterations"] += s.Deviations
		}
		res = s
		s.Close()
		if s.Violation != nil {
			break
		}
	}
	res.Probes["outputs"] += int64(len(c.Envs))
	core.Collect(res, r)
	r.SimNs = c.DurMs * 1e6 * int64(len(c.Envs))
	r.NonTrivial = strings.Contains(first, "latency p95")
	return r
}

// emptySketch recognises the panic of a quantile over no samples.
func emptySketch(msg string) bool { return strings.Contains(msg, "no such element exists") }
