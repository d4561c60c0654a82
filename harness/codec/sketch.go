package main

import (
	"fmt"
	"math/rand"
	"sort"
	"time"

	"github.com/yangl1996/rateless-set-reconcile/riblt"

	"verif/harness/core"
	"verif/simrt"
)

// KOp is one event at a party that reconciles by fixed-size sketches.
type KOp struct {
	At int64  `json:"at"` // virtual time, us
	P  int    `json:"p"`  // party
	K  string `json:"k"`  // add, snap, recv
	X  int64  `json:"x"`  // symbol (add) or snapshot (snap, recv)
	// recv: whether what was learned is kept, the order of subtraction when the
	// snapshot is delivered only here, and how often to decode
	Learn bool `json:"learn,omitempty"`
	Swap  bool `json:"swap,omitempty"`
	Twice bool `json:"twice,omitempty"`
}

// KCfg is the configuration of one sketch run.
type KCfg struct {
	Pointer bool  `json:"pointer,omitempty"`
	Parties int   `json:"parties"`
	Size    int   `json:"size"`
	Running bool  `json:"running,omitempty"` // parties keep a sketch up to date instead of building one when needed
	Hashed  bool  `json:"hashed,omitempty"`
	Every   int64 `json:"every,omitempty"` // preempt at every n-th loop iteration
	Ops     []KOp `json:"ops"`
	Lost    int   `json:"lost,omitempty"`
}

// SP is a reference symbol that accepts what the documented contract promises
// and nothing more: the argument of XOR is never the default value.
type SPD struct{ V }
type SP = *SPD

func (a *SPD) XOR(b *SPD) *SPD {
	if a == nil {
		a = &SPD{}
	}
	a.V = a.V.XOR(b.V)
	return a
}

func (a *SPD) Hash() uint64 { return VS{a.V}.Hash() }

func genSketch(p *core.Plan, r *rand.Rand, tier string) *core.Plan {
	c := &KCfg{Pointer: r.Intn(2) == 0, Parties: pick(r, 2, 2, 3, 4), Size: pick(r, 1, 2, 4, 8, 16, 30, 60)}
	if tier != "quick" && r.Intn(3) == 0 {
		c.Size = pick(r, 100, 200, 400)
	}
	c.Running = r.Intn(2) == 0
	c.Hashed = r.Intn(2) == 0
	c.Every = pick(r, int64(0), 0, 1, 3, 20)
	base := r.Intn(3*c.Size + 2)
	span := int64(1 + r.Intn(1000))
	load := max(1, int(float64(c.Size)*pick(r, 0.2, 0.5, 0.7, 1, 2)))
	var ops []KOp
	id := int64(1)
	add := func(at int64, n int64, prob float64, spread int64) {
		first := r.Intn(c.Parties)
		for q := 0; q < c.Parties; q++ {
			if q == first || r.Float64() < prob {
				d := int64(0)
				if q != first && spread > 0 {
					d = r.Int63n(spread)
				}
				ops = append(ops, KOp{At: at + d, P: q, K: "add", X: n})
			}
		}
	}
	for i := 0; i < base; i++ { // known to everybody from the start
		add(0, id, 1, 0)
		id++
	}
	spread := pick(r, 0, span/4+1, span+1)
	reach := pick(r, 0, 0.3, 0.7, 1)
	for i := 0; i < load; i++ {
		add(r.Int63n(span), id, reach, spread)
		id++
	}
	learn := pick(r, 0.0, 0.5, 1)
	loss, dup := pick(r, 0, 0, 0.3), pick(r, 0, 0, 0.3)
	delay := pick(r, 1, span/10+1, span+1)
	snap := int64(0)
	for n := pick(r, 1, 3, 6, 12); n > 0; n-- {
		a, t := r.Intn(c.Parties), r.Int63n(2*span)
		ops = append(ops, KOp{At: t, P: a, K: "snap", X: snap})
		for b := 0; b < c.Parties; b++ {
			if b == a || r.Intn(2) == 0 && c.Parties > 2 {
				continue
			}
			k := 1
			if r.Float64() < loss {
				k = 0
				c.Lost++
			}
			if r.Float64() < dup {
				k++
			}
			for ; k > 0; k-- {
				ops = append(ops, KOp{At: t + 1 + r.Int63n(delay), P: b, K: "recv", X: snap, Learn: r.Float64() < learn, Swap: r.Intn(2) == 0, Twice: r.Intn(3) == 0})
			}
		}
		snap++
	}
	sort.SliceStable(ops, func(i, j int) bool { return ops[i].At < ops[j].At })
	c.Ops = ops
	p.Scenario = "sketch-value"
	if c.Pointer {
		p.Scenario = "sketch-pointer"
	}
	return p.With(&Cfg{Sys: "riblt", Sketch: c})
}

type ksnap[T riblt.Symbol[T]] struct {
	sk  riblt.Sketch[T]
	set map[int64]bool
	use int // deliveries to come
}

func execSketch(s *simrt.Sim, c *KCfg, p *core.Plan, r *core.Result) {
	if c.Pointer {
		sketchRun(s, c, p, r, func(v V) SP { return &SPD{v} }, func(t SP) string {
			if t == nil {
				return ""
			}
			return string(t.V.bytes())
		})
		return
	}
	sketchRun(s, c, p, r, func(v V) VS { return VS{v} }, func(t VS) string { return string(t.V.bytes()) })
}

func sketchRun[T riblt.Symbol[T]](s *simrt.Sim, c *KCfg, p *core.Plan, r *core.Result, mk func(V) T, raw func(T) string) {
	s.PoolYield = true
	s.LoopEvery = c.Every
	x := &rib[T]{s: s, prop: p.Property, mk: mk, raw: raw, idx: map[int64][]int{}, idxN: map[int64]int{}}
	pr := s.NewProc("sketch", nil, p.Seed)
	snaps := map[int64]*ksnap[T]{}
	uses := map[int64]int{}
	for _, o := range c.Ops {
		if o.K == "recv" {
			uses[o.X]++
		}
	}
	finished, okN, failN, learned, dups, shared := 0, 0, 0, 0, 0, 0
	party := func(me int) {
		set := map[int64]bool{}
		objs := map[int64]T{}
		var have []int64 // in the order they were learned
		running := make(riblt.Sketch[T], c.Size)
		put := func(sk riblt.Sketch[T], n int64) {
			if c.Hashed {
				sk.AddHashedSymbol(riblt.HashedSymbol[T]{Symbol: objs[n], Hash: objs[n].Hash()})
			} else {
				sk.AddSymbol(objs[n])
			}
		}
		learn := func(n int64) {
			if set[n] {
				return
			}
			set[n] = true
			have = append(have, n)
			objs[n] = mk(contentV(n))
			if c.Running {
				put(running, n)
			}
		}
		current := func() riblt.Sketch[T] {
			if c.Running && !c.Pointer {
				return append(riblt.Sketch[T](nil), running...)
			}
			sk := make(riblt.Sketch[T], c.Size)
			for _, i := range x.rnd(me, len(have)) {
				put(sk, have[i])
			}
			return sk
		}
		for i := range c.Ops {
			o := &c.Ops[i]
			if o.P != me {
				continue
			}
			if d := time.Duration(o.At)*time.Microsecond - time.Duration(s.Now()); d > 0 {
				simrt.Sleep(d)
			}
			if s.Stopped {
				return
			}
			switch o.K {
			case "add":
				learn(o.X)
			case "snap":
				k := &ksnap[T]{sk: current(), set: map[int64]bool{}, use: uses[o.X]}
				for n := range set {
					k.set[n] = true
				}
				snaps[o.X] = k
			case "recv":
				k := snaps[o.X]
				if k == nil {
					continue
				}
				var mineOnly, theirsOnly []int64
				for _, n := range have {
					if !k.set[n] {
						mineOnly = append(mineOnly, n)
					}
				}
				for n := range k.set {
					if !set[n] {
						theirsOnly = append(theirsOnly, n)
					}
				}
				sort.Slice(theirsOnly, func(i, j int) bool { return theirsOnly[i] < theirsOnly[j] })
				mine := current()
				var diff riblt.Sketch[T]
				first, second := mineOnly, theirsOnly
				if o.Swap && k.use == 1 {
					diff = k.sk.Subtract(mine)
					first, second = theirsOnly, mineOnly
				} else {
					diff = mine.Subtract(k.sk)
					if k.use > 1 {
						shared++
					}
				}
				simrt.Point()
				var remote, local []riblt.HashedSymbol[T]
				for again := 0; again < 2; again++ {
					var ok bool
					remote, local, ok = diff.Decode()
					if s.Stopped {
						return
					}
					s.Note("decode", int64(me)<<32|o.X, int64(len(remote))<<32|int64(len(local)))
					want := x.minimal(append(append([]int64(nil), first...), second...), c.Size) > 0
					if ok != want {
						x.fail("completion", "party %d: sketches of %d cells whose sets differ in %d symbols (%d and %d): decoded %v, peeling the cells gives %v (attempt %d)", me, c.Size, len(first)+len(second), len(first), len(second), ok, want, again+1)
						return
					}
					if !x.listed("remote", remote, first, ok) || !x.listed("local", local, second, ok) {
						return
					}
					if ok {
						okN++
					} else {
						failN++
					}
					if !o.Twice {
						break
					}
					dups++
				}
				if o.Learn {
					get := local
					if o.Swap && k.use == 1 {
						get = remote
					}
					for _, g := range get {
						for _, n := range theirsOnly {
							if raw(g.Symbol) == string(contentV(n).bytes()) {
								learn(n)
								learned++
							}
						}
					}
				}
				for _, n := range have {
					if raw(objs[n]) != string(contentV(n).bytes()) {
						x.fail("caller-modified", "party %d: reconciling changed a symbol of the caller", me)
						return
					}
				}
			}
		}
		finished++
	}
	for i := 0; i < c.Parties; i++ {
		i := i
		pr.Start(fmt.Sprint("party", i), func() { party(i) })
	}
	s.Run(1 << 60)
	if s.Violation == nil && finished < c.Parties {
		if s.StopWhy == "steps" {
			r.Err = "step limit reached"
			return
		}
		x.fail("hang", "a party did not finish")
	}
	s.Probes["differences_recovered"] += int64(okN)
	s.Probes["sketch_too_small"] += int64(failN)
	s.Probes["learned_from_sketches"] += int64(learned)
	s.Probes["decoded_again"] += int64(dups)
	s.FaultN["sketches delivered more than once or to several parties"] += int64(shared)
	s.FaultN["lost sketches"] += int64(c.Lost)
	core.Collect(s, r)
	r.NonTrivial = okN+failN > 0
}

// rnd is a permutation that depends on the party only.
func (x *rib[T]) rnd(me, n int) []int { return newRand(int64(me*7919 + n)).Perm(n) }

func shrinkSketch(p *core.Plan) []*core.Plan {
	var out []*core.Plan
	mod := func(f func(c *KCfg) bool) {
		c := core.CloneCfg[Cfg](p)
		if f(c.Sketch) {
			out = append(out, p.With(c))
		}
	}
	base := core.CloneCfg[Cfg](p).Sketch
	n := len(base.Ops)
	for sz := (n + 1) / 2; sz >= 1; sz /= 2 {
		for i := 0; i < n; i += sz {
			i, sz := i, sz
			mod(func(c *KCfg) bool { c.Ops = append(c.Ops[:i:i], c.Ops[min(n, i+sz):]...); return true })
		}
	}
	mod(func(c *KCfg) bool { ok := c.Every != 0; c.Every = 0; return ok })
	mod(func(c *KCfg) bool { ok := c.Running; c.Running = false; return ok })
	mod(func(c *KCfg) bool { ok := c.Hashed; c.Hashed = false; return ok })
	mod(func(c *KCfg) bool { ok := c.Pointer; c.Pointer = false; return ok })
	mod(func(c *KCfg) bool { ok := c.Size > 1; c.Size /= 2; return ok })
	for i := range base.Ops {
		i := i
		if o := base.Ops[i]; o.Twice || o.Swap || o.Learn {
			mod(func(c *KCfg) bool { o := &c.Ops[i]; o.Twice, o.Swap, o.Learn = false, false, false; return true })
		}
	}
	return out
}

func describeSketch(i *core.Info) {
	i.Rule = "One case is one simulated history of 2-4 parties that learn symbols at different times and exchange fixed-size sketches over a delaying, reordering, duplicating and losing network, derived from one seed. It is non-trivial when a sketch was decoded; two cases are distinct when the hash of their event logs differs."
	i.Real = []string{"riblt (Sketch, Decoder)"}
	i.Stub = []string{"the network between the parties", "goroutine scheduler (parties run concurrently and are preempted inside loops)"}
	i.Assumptions = []string{
		"sketches have at least one cell and all parties use the same size",
		"no symbol hashes to zero and no two symbols have the same hash (cryptographic hash of the caller)",
		"which cells a symbol is part of is learned by encoding it alone",
		"a sketch is not copied shallowly when its symbols are references",
	}
}
