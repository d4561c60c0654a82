package main

import (
	"encoding/json"
	"math/rand"
	"slices"
	"sort"

	"verif/harness/core"
	"verif/simrt"
)

// Fault is one entry of the fault schedule.
type Fault struct {
	Kind string `json:"kind"`
	At   int64  `json:"at_ms"`
	Dur  int64  `json:"dur_ms,omitempty"`
	A    int    `json:"a"`
	B    int    `json:"b,omitempty"`
	Arg  int64  `json:"arg,omitempty"`
}

// Phase scales the load of all nodes during an interval.
type Phase struct {
	From  int64   `json:"from_ms"`
	To    int64   `json:"to_ms"`
	Scale float64 `json:"scale"`
}

// Cfg is the configuration of one run.
type Cfg struct {
	Nodes    int             `json:"nodes"`
	Edges    [][2]int        `json:"edges"` // dialer, listener
	StartMs  []int64         `json:"start_ms"`
	WallOffS []int64         `json:"wall_off_s"`
	K        int             `json:"k"`
	M        int             `json:"m"`
	C        float64         `json:"c"`
	Delta    float64         `json:"delta"`
	Tx       float64         `json:"tx"`
	Mute     []int           `json:"mute,omitempty"` // nodes that generate no transactions
	R0       float64         `json:"r0"`
	Rmin     float64         `json:"rmin"`
	Inc      float64         `json:"inc"`
	Loss     float64         `json:"loss"`
	TOms     int64           `json:"timeout_ms"`
	WarmMs   int64           `json:"warmup_ms,omitempty"`
	Net      simrt.NetConfig `json:"net"`
	Phases   []Phase         `json:"phases"`
	Faults   []Fault         `json:"faults"`
	PoolMode int             `json:"pool_mode"`
	CalmMs   int64           `json:"calm_ms"`  // all disturbances are over
	QuietMs  int64           `json:"quiet_ms"` // no new transactions from here on (0: load goes on)
	EndMs    int64           `json:"end_ms"`
	Ghost    []int           `json:"ghost,omitempty"`     // nodes told to connect to a host that is down as well
	GhostHow int             `json:"ghost_how,omitempty"` // 0 refuses, 1 never answers, 2 accepts and says nothing
	Probe    bool            `json:"probe,omitempty"`     // a late node joins after CalmMs
}

func (c *Cfg) timeout() int64 { return c.TOms * ms }

type suite struct{ race bool }

func (c *Cfg) tx(i int) float64 {
	if slices.Contains(c.Mute, i) {
		return 0
	}
	return c.Tx
}

func pick[T any](r *rand.Rand, xs ...T) T { return xs[r.Intn(len(xs))] }

func schedFor(r *rand.Rand, seed int64) simrt.SchedConfig {
	sc := simrt.SchedConfig{Seed: seed, Mode: "random", YieldPerMille: pick(r, 0, 20, 100, 300, 700, 1000)}
	switch r.Intn(6) {
	case 0:
		sc.Mode = "fifo"
	case 1, 2:
		sc.Mode = "pct"
		sc.Changes = r.Intn(12)
		sc.YieldPerMille = pick(r, 20, 100, 300, 1000)
	}
	return sc
}

func edges(r *rand.Rand, n int) [][2]int {
	var es [][2]int
	add := func(a, b int) {
		if r.Intn(2) == 0 {
			a, b = b, a
		}
		es = append(es, [2]int{a, b})
	}
	switch r.Intn(4) {
	case 0: // line
		for i := 1; i < n; i++ {
			add(i-1, i)
		}
	case 1: // star
		for i := 1; i < n; i++ {
			add(0, i)
		}
	case 2: // complete
		for i := 0; i < n; i++ {
			for j := 0; j < i; j++ {
				add(i, j)
			}
		}
	case 3: // random tree plus a chord
		for i := 1; i < n; i++ {
			add(i, r.Intn(i))
		}
		if n > 2 {
			a, b := r.Intn(n), r.Intn(n)
			dup := a == b
			for _, e := range es {
				if e[0] == a && e[1] == b || e[0] == b && e[1] == a {
					dup = true
				}
			}
			if !dup {
				add(a, b)
			}
		}
	}
	return es
}

// Gen derives a run from its seed.
func (su *suite) Gen(prop string, seed int64, tier string) *core.Plan {
	r := rand.New(rand.NewSource(seed))
	c := &Cfg{}
	p := &core.Plan{Property: prop, Seed: seed, Sched: schedFor(r, seed)}
	long := int64(1)
	if tier != "quick" {
		long = int64(pick(r, 1, 1, 2, 4))
	}
	c.Nodes = pick(r, 2, 2, 2, 3, 3, 4, 5)
	c.K = pick(r, 1, 2, 5, 10, 20, 50, 50, 100)
	c.M = 262144
	c.C = pick(r, 0.03, 0.03, 0.1, 0.5)
	c.Delta = pick(r, 0.5, 0.5, 0.1, 0.9)
	c.Tx = pick(r, 1.0, 5, 20, 50, 100)
	c.R0 = pick(r, 0.0, 0, 5, 60, 150)
	c.Rmin = pick(r, 1.0, 10, 20, 50)
	c.Inc = pick(r, 0.0, 0.1, 0.1, 0.5, 2)
	c.Loss = pick(r, 0.0, 0.02, 0.02, 0.1, 0.5)
	c.TOms = pick(r, int64(20), 100, 500, 500, 2000)
	c.PoolMode = r.Intn(2)
	c.Net = simrt.NetConfig{LatencyNs: pick(r, 1e5, int64(1e6), 2e7, 1e8), BufBytes: pick(r, 2048, 8192, 65536, 65536, 262144)}
	if r.Intn(2) == 0 {
		c.Net.JitterNs = pick(r, int64(1e6), 1e7, 2e8, 8e8)
	}
	if r.Intn(2) == 0 {
		c.Net.FragRead = pick(r, 50, 300, 900)
	}
	if r.Intn(2) == 0 {
		c.Net.FragSeg = pick(r, 50, 300, 900)
	}
	load := pick(r, int64(2000), 4000, 8000) * long
	scen := prop
	conFaults := 0
	switch prop {
	case "C01":
		if r.Intn(2) == 0 {
			c.M = pick(r, 5, 50, 300)
		}
		conFaults = r.Intn(6)
	case "C02":
		conFaults = r.Intn(6)
	case "C03":
		c.Rmin = pick(r, 20.0, 50, 100)
		c.K = pick(r, 1, 2, 5, 10, 20, 50)
		conFaults = r.Intn(6)
	case "C04":
		// bursts arriving at several receivers at once
		c.Nodes = pick(r, 3, 4, 5, 6)
		c.K = pick(r, 50, 100, 200, 400)
		c.Tx = pick(r, 100.0, 200, 400)
		c.R0 = pick(r, 0.0, 300, 600)
		c.Rmin = pick(r, 20.0, 200, 500)
		c.Inc = pick(r, 0.1, 0.5, 2)
		c.TOms = pick(r, int64(100), 500, 2000)
		load = pick(r, int64(1500), 3000)
		conFaults = 2 + r.Intn(5)
		if r.Intn(2) == 0 { // lighter runs, many more of them
			c.Nodes = pick(r, 2, 3, 4)
			c.K = pick(r, 10, 50, 100, 200)
			c.Tx = pick(r, 20.0, 50, 100)
			c.R0 = pick(r, 0.0, 60)
			c.Rmin = pick(r, 20.0, 50, 100)
		}
	case "C05":
		c.Rmin = pick(r, 10.0, 20, 50)
		c.TOms = pick(r, int64(20), 50, 100, 500)
		conFaults = r.Intn(5)
	case "C06":
		c.Rmin = pick(r, 1.0, 5, 20, 50)
		c.R0 = pick(r, 0.0, 60, 150, 400)
		c.TOms = pick(r, int64(20), 50, 100, 500)
		conFaults = r.Intn(4)
		load *= 2
	case "C07":
		c.TOms = pick(r, int64(20), 100, 500, 1500)
		conFaults = r.Intn(8)
	case "C08":
		conFaults = r.Intn(4)
		c.Tx = pick(r, 5.0, 20, 50)
		load = 3000
	case "C09":
		conFaults = r.Intn(3)
	case "C35":
		c.Tx = pick(r, 10.0, 30, 100, 100, 300, 1000)
		c.R0, c.Rmin, c.Inc, c.Loss = 5, pick(r, 1.0, 5), 0.1, 0.02
		c.K = pick(r, 5, 50)
		load = pick(r, int64(4000), 8000) * long
		conFaults = r.Intn(5)
	case "C32":
		c.WarmMs = pick(r, int64(1000), 1, 2500, 4500, 5000, 6300, 100_000)
		c.Rmin = pick(r, 1.0, 5, 20, 50)
		conFaults = r.Intn(6)
	case "C10":
		c.Tx = pick(r, 20.0, 100, 200)
		c.K = pick(r, 5, 20, 50)
		load = pick(r, int64(600), 1200, 2500)
		conFaults = r.Intn(4)
	}
	c.Edges = edges(r, c.Nodes)
	if r.Intn(4) == 0 && prop != "C08" && prop != "C09" { // these learn from codewords who is connected to whom
		c.Mute = []int{r.Intn(c.Nodes)}
	}
	if prop == "C04" && r.Intn(2) == 0 {
		// hub with many peers
		c.Edges = nil
		for i := 1; i < c.Nodes; i++ {
			c.Edges = append(c.Edges, [2]int{i, 0})
		}
	}
	for i := 0; i < c.Nodes; i++ {
		st := int64(0)
		if r.Intn(2) == 0 {
			st = r.Int63n(300)
		}
		if prop == "C08" {
			st = pick(r, 0, r.Int63n(5), r.Int63n(3000))
		}
		c.StartMs = append(c.StartMs, st)
		c.WallOffS = append(c.WallOffS, int64(i*(3+r.Intn(50))+r.Intn(3)))
	}
	if prop == "C35" {
		// started one shortly after the other
		step := pick(r, int64(1), 10, 200, 900)
		for i := range c.StartMs {
			c.StartMs[i] = int64(i)*step + r.Int63n(step)
		}
	}
	if prop == "C08" || prop == "C09" {
		for i := 0; i < c.Nodes; i++ {
			if r.Intn(3) == 0 {
				c.Ghost = append(c.Ghost, i)
			}
		}
		c.GhostHow = r.Intn(3)
	}
	pre := int64(4000)
	c.Phases = []Phase{{pre, pre + load, 1}}
	if prop == "C04" || r.Intn(3) == 0 {
		f := pre + r.Int63n(load)
		c.Phases = append(c.Phases, Phase{f, f + pick(r, int64(5), 50, 300), pick(r, 3.0, 10, 20)})
	}
	if prop == "C08" {
		c.Phases = []Phase{{0, 14000, 1}}
		pre = 0
	}
	span := pre + load
	kinds := []string{"stall_task", "stall_task", "stall_proc", "partition", "partition", "hold", "clockjump"}
	switch prop {
	case "C06":
		kinds = []string{"stall_other", "partition", "hold", "clockjump", "hold"}
	case "C04":
		kinds = []string{"stall_ctl", "stall_ctl", "stall_task", "partition", "hold", "stall_proc"}
	case "C08":
		kinds = []string{"partition", "stall_proc", "stall_task", "dialfail", "dialfail", "hold", "accepterr"}
	}
	if prop == "C32" {
		kinds = []string{"partition", "hold", "clockjump", "clockjump", "reset"}
		if r.Intn(3) == 0 {
			kinds = append(kinds, "stall_proc", "stall_other", "stall_other", "stall_ctl")
		}
	}
	switch prop {
	case "C35":
		kinds = []string{"partition", "hold", "clockjump", "reset", "crash", "stall_dec"}
	case "C01":
		kinds = append(kinds, "crash", "reset", "stall_dec")
	case "C02", "C03", "C05", "C07", "C10":
		kinds = append(kinds, "stall_dec")
	}
	for i := 0; i < conFaults; i++ {
		f := Fault{Kind: kinds[r.Intn(len(kinds))], At: pre + r.Int63n(load), A: r.Intn(c.Nodes), Dur: pick(r, int64(1), 15, 100, 400, 1500), Arg: r.Int63n(1 << 30)}
		if prop == "C08" {
			f.At = r.Int63n(3000)
		}
		switch f.Kind {
		case "partition", "hold", "reset":
			e := c.Edges[r.Intn(len(c.Edges))]
			f.A, f.B = e[0], e[1]
			if r.Intn(2) == 0 {
				f.A, f.B = f.B, f.A
			}
			f.Dur *= pick(r, int64(1), 3)
		case "clockjump":
			f.Arg = pick(r, int64(-1), 1) * pick(r, int64(10), 600, 5000, 3600_000)
		case "dialfail":
			e := c.Edges[r.Intn(len(c.Edges))]
			f.A, f.B = e[0], e[1]
			f.Dur = pick(r, int64(0), 100, 3000) // how long each attempt takes
			f.Arg = 1 + r.Int63n(4)              // attempts that fail
		case "accepterr":
			f.Arg = 1 + r.Int63n(3)
		case "crash":
			f.Dur = pick(r, int64(0), 50, 1000)
		}
		if f.Kind == "crash" && r.Intn(2) == 0 {
			f.Dur = -1 // stays down
		}
		c.Faults = append(c.Faults, f)
	}
	if prop == "C04" && r.Intn(3) == 0 {
		e := c.Edges[r.Intn(len(c.Edges))]
		c.Faults = append(c.Faults, Fault{Kind: "hold", At: pre + r.Int63n(load), A: e[r.Intn(2)], B: -1, Dur: 1 << 30})
		c.Rmin = pick(r, 100.0, 200, 500)
		h := &c.Faults[len(c.Faults)-1]
		h.B = e[0] + e[1] - h.A
	}
	if prop == "C04" && r.Intn(4) == 0 {
		// while one connection's codewords wait, the others deliver more
		// transactions than the node's queues hold
		c.Nodes, c.Edges = 3, [][2]int{{1, 0}, {2, 0}}
		c.StartMs, c.WallOffS = []int64{0, 0, 0}, []int64{0, 7, 13}
		c.Mute = []int{0}
		c.K = pick(r, 20, 50)
		c.Tx = pick(r, 200.0, 300)
		c.R0, c.Rmin = 0, pick(r, 200.0, 400)
		c.Inc = 0.5
		load = pick(r, int64(5000), 7000)
		span = pre + load
		c.Phases = []Phase{{pre, pre + load, 1}}
		c.Faults = []Fault{{Kind: "stall_dec", At: pre + 200 + r.Int63n(300), A: 0, Arg: r.Int63n(1 << 30), Dur: load - 1000 - r.Int63n(500)}}
	}
	if prop == "C02" && c.Nodes < 4 && r.Intn(3) == 0 {
		// more transactions are generated than a node takes up for a while
		f := Fault{Kind: "stall_ctl", At: pre + r.Int63n(load), A: r.Intn(c.Nodes), Dur: pick(r, int64(1000), 2500)}
		for i := 0; i < 3; i++ {
			f.Arg = r.Int63n(1 << 30)
			c.Faults = append(c.Faults, f)
		}
		c.Phases = append(c.Phases, Phase{f.At, f.At + 800, 2000 / c.Tx})
	}
	late := int64(0) // generation ends this long before the disturbances
	if prop == "C03" && r.Intn(5) == 0 {
		// the link is blocked long after the last transaction was generated
		c.Nodes, c.Edges, c.StartMs, c.WallOffS, c.Mute = 2, [][2]int{{0, 1}}, c.StartMs[:2], c.WallOffS[:2], nil
		c.Rmin = pick(r, 50.0, 100)
		c.K = pick(r, 5, 20, 50)
		c.Tx = pick(r, 20.0, 50)
		a := r.Intn(2)
		late = pick(r, int64(10_000), 30_000, 60_000)
		c.Faults = []Fault{{Kind: pick(r, "hold", "hold", "partition"), At: span - r.Int63n(load), A: a, B: 1 - a}}
		c.Faults[0].Dur = span + late - c.Faults[0].At
	}
	if (prop == "C05" || prop == "C06" || prop == "C32") && r.Intn(3) == 0 {
		// one direction of a link stalls until the outgoing codeword queue overflows
		c.Nodes, c.Edges, c.StartMs, c.WallOffS = 2, [][2]int{{0, 1}}, c.StartMs[:2], c.WallOffS[:2]
		c.Rmin = pick(r, 200.0, 400)
		c.K = pick(r, 5, 20, 50)
		c.TOms = pick(r, int64(20), 50, 100)
		c.Net.BufBytes = pick(r, 2048, 8192)
		c.Tx = pick(r, 20.0, 50, 100)
		a := r.Intn(2)
		c.Faults = []Fault{{Kind: "hold", At: pre + r.Int63n(load), A: a, B: 1 - a, Dur: pick(r, int64(4000), 6000, 8000)}}
	}
	if prop == "C09" {
		n := 1 + r.Intn(4)
		for i := 0; i < n; i++ {
			e := c.Edges[r.Intn(len(c.Edges))]
			f := Fault{Kind: pick(r, "reset", "crash", "crash", "badclient", "badclient", "badclient", "garbage", "writeerr", "accepterr"), At: pre + r.Int63n(load), A: e[0], B: e[1], Arg: r.Int63n(1 << 30), Dur: pick(r, int64(0), 50, 1000)}
			if r.Intn(4) == 0 {
				f.At = r.Int63n(pre)
			}
			if r.Intn(2) == 0 {
				f.A, f.B = f.B, f.A
			}
			if f.Kind == "accepterr" {
				f.Arg = 1 + f.Arg%3
			}
			c.Faults = append(c.Faults, f)
		}
		if r.Intn(2) == 0 {
			// a connection stalled in its handshake forever
			c.Faults = append(c.Faults, Fault{Kind: "badclient", At: r.Int63n(pre), A: r.Intn(c.Nodes), Arg: 0})
		}
	}
	sort.SliceStable(c.Faults, func(i, j int) bool { return c.Faults[i].At < c.Faults[j].At })
	c.CalmMs = span
	for _, f := range c.Faults {
		if e := f.At + f.Dur; f.Dur < 1<<29 && e > c.CalmMs {
			c.CalmMs = e
		}
	}
	c.CalmMs += 100
	switch prop {
	case "C04":
		c.Phases = append(c.Phases, Phase{c.CalmMs, c.CalmMs + 24000, 0.05})
		c.EndMs = c.CalmMs + 20000
	case "C09":
		if c.CalmMs < 12000 {
			c.CalmMs = 12000
		}
		c.Phases = append(c.Phases, Phase{c.CalmMs, c.CalmMs + 24000, 5 / c.Tx})
		c.Probe = true
		c.EndMs = c.CalmMs + 20000
	case "C08":
		c.CalmMs = 6000
		d, k := int64(0), int64(0)
		for _, f := range c.Faults {
			if f.Kind == "dialfail" {
				k += f.Arg
				d = max(d, f.Dur+1000)
			}
		}
		d *= k
		c.EndMs = c.CalmMs + d + 10000
		c.Phases[0].To = c.EndMs
	case "C03":
		c.QuietMs = c.CalmMs
		if late > 0 {
			c.QuietMs = span + 100
		}
		c.EndMs = c.CalmMs + 2000
	case "C10":
		c.EndMs = c.CalmMs + 500
	default:
		c.QuietMs = c.CalmMs
		c.EndMs = c.CalmMs + 8000
	}
	p.Scenario = scen
	return p.With(c)
}

// Shrink lists simpler variants.
func (su *suite) Shrink(p *core.Plan) []*core.Plan {
	var out []*core.Plan
	base := core.CloneCfg[Cfg](p)
	mod := func(f func(c *Cfg) bool) {
		var c Cfg
		b, _ := json.Marshal(base)
		json.Unmarshal(b, &c)
		if f(&c) {
			out = append(out, p.With(&c))
		}
	}
	n := len(base.Faults)
	for sz := n; sz >= 1; sz /= 2 {
		for i := 0; i+sz <= n; i += sz {
			i, sz := i, sz
			mod(func(c *Cfg) bool { c.Faults = append(c.Faults[:i:i], c.Faults[i+sz:]...); return true })
		}
	}
	for i := range base.Edges {
		i := i
		if len(base.Edges) > 1 {
			mod(func(c *Cfg) bool {
				e := c.Edges[i]
				for _, f := range c.Faults {
					if f.B >= 0 && (f.A == e[0] && f.B == e[1] || f.A == e[1] && f.B == e[0]) {
						return false
					}
				}
				c.Edges = append(c.Edges[:i:i], c.Edges[i+1:]...)
				return true
			})
		}
	}
	if base.Nodes > 2 {
		mod(func(c *Cfg) bool {
			l := c.Nodes - 1
			for _, e := range c.Edges {
				if e[0] == l || e[1] == l {
					return false
				}
			}
			for _, f := range c.Faults {
				if f.A == l || f.B == l {
					return false
				}
			}
			c.Nodes--
			c.StartMs = c.StartMs[:l]
			c.WallOffS = c.WallOffS[:l]
			return true
		})
	}
	mod(func(c *Cfg) bool { ok := c.Net.JitterNs != 0; c.Net.JitterNs = 0; return ok })
	mod(func(c *Cfg) bool { ok := c.Net.FragRead != 0; c.Net.FragRead = 0; return ok })
	mod(func(c *Cfg) bool { ok := c.Net.FragSeg != 0; c.Net.FragSeg = 0; return ok })
	mod(func(c *Cfg) bool { ok := c.PoolMode != 0; c.PoolMode = 0; return ok })
	for i := range base.Phases {
		i := i
		mod(func(c *Cfg) bool {
			if p.Property == "C08" || len(c.Phases) < 2 {
				return false
			}
			c.Phases = append(c.Phases[:i:i], c.Phases[i+1:]...)
			return true
		})
		mod(func(c *Cfg) bool {
			d := (c.Phases[i].To - c.Phases[i].From) / 2
			if d < 50 || p.Property == "C08" {
				return false
			}
			c.Phases[i].To = c.Phases[i].From + d
			return true
		})
	}
	mod(func(c *Cfg) bool { ok := c.Tx > 2 && p.Property != "C08"; c.Tx /= 2; return ok })
	mod(func(c *Cfg) bool { ok := len(c.Ghost) > 0; c.Ghost = nil; return ok })
	mod(func(c *Cfg) bool { ok := len(c.Ghost) > 1; c.Ghost = c.Ghost[:len(c.Ghost)/2]; return ok })
	mod(func(c *Cfg) bool { ok := len(c.Mute) > 0; c.Mute = nil; return ok })
	mod(func(c *Cfg) bool {
		ok := false
		for i := range c.StartMs {
			if c.StartMs[i] != 0 {
				ok = true
			}
			c.StartMs[i] = 0
		}
		return ok
	})
	for i := range base.Faults {
		i := i
		if d := base.Faults[i].Dur; d > 20 && d < 1<<29 {
			mod(func(c *Cfg) bool { c.Faults[i].Dur /= 2; return true })
		}
	}
	return out
}
