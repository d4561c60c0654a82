package main

import (
	"math/rand"
	"reflect"
	"sort"
	"time"

	"github.com/yangl1996/rateless-set-reconcile/riblt"

	"verif/harness/core"
	"verif/simrt"
)

// RSession is one reconciliation of two sets.
type RSession struct {
	Remote []int64 `json:"remote"` // symbols only the encoder has
	Local  []int64 `json:"local"`  // symbols only the decoder has
	Common []int64 `json:"common"`
	// Batches are the sizes of the groups of coded symbols that arrive between
	// two attempts to decode; negative: abandon the session after that many.
	Batches []int `json:"batches"`
	Seed    int64 `json:"seed"` // order of additions
	Delay   int64 `json:"delay,omitempty"`
	// ExtraTry makes additional attempts to decode with nothing new.
	ExtraTry bool `json:"extra_try,omitempty"`
	Hashed   bool `json:"hashed,omitempty"`
}

// RCfg is the configuration of one riblt run.
type RCfg struct {
	Pointer  bool       `json:"pointer,omitempty"`
	Pairs    int        `json:"pairs"` // encoder-decoder pairs running concurrently
	Sessions []RSession `json:"sessions"`
}

func genRiblt(p *core.Plan, r *rand.Rand, tier string) *core.Plan {
	c := &RCfg{Pointer: r.Intn(2) == 0, Pairs: pick(r, 1, 1, 2, 3)}
	big := pick(r, 2, 5, 20, 60)
	if tier != "quick" {
		big = pick(r, 2, 5, 20, 60, 150, 400)
	}
	sessions := pick(r, 1, 1, 2, 3, 5)
	huge := r.Intn(400) == 0
	if huge {
		big, c.Pairs, sessions = pick(r, 600, 3000), 1, 1
	}
	id := int64(1)
	take := func(n int) []int64 {
		var out []int64
		for ; n > 0; n-- {
			out = append(out, id)
			id++
		}
		return out
	}
	size := func() int {
		if r.Intn(4) == 0 {
			return 0
		}
		return r.Intn(big) + 1
	}
	for i := sessions; i > 0; i-- {
		s := RSession{Remote: take(size()), Local: take(size()), Common: take(size() * pick(r, 0, 1, 3)), Seed: r.Int63n(1 << 40)}
		if len(c.Sessions) > 0 && r.Intn(3) == 0 {
			// the sets of the previous session again, moved around
			q := c.Sessions[len(c.Sessions)-1]
			s.Remote, s.Local, s.Common = q.Local, q.Remote, q.Common
			if r.Intn(2) == 0 {
				s.Common = append(append([]int64(nil), q.Common...), q.Local...)
				s.Remote = q.Remote
				s.Local = take(r.Intn(3))
			}
		}
		s.Delay = pick(r, 0, int64(1e6), 1e8)
		s.ExtraTry = r.Intn(3) == 0
		s.Hashed = r.Intn(2) == 0
		total := int(float64(len(s.Remote)+len(s.Local))*pick(r, 1.5, 2, 3, 4)) + r.Intn(10) + 1
		mode := r.Intn(4)
		if huge {
			mode, s.ExtraTry, s.Delay = 2, false, 0
			total = min(total, len(s.Remote)*2+len(s.Local)*2+5)
		}
		for total > 0 {
			b := 1
			switch mode {
			case 1:
				b = 1 + r.Intn(4)
			case 2:
				b = 1 + r.Intn(total)
			case 3:
				b = pick(r, 1, 1, 1, 10, 50)
			}
			b = min(b, total)
			s.Batches = append(s.Batches, b)
			total -= b
		}
		if r.Intn(5) == 0 {
			s.Batches = append(s.Batches[:r.Intn(len(s.Batches))], -1-r.Intn(5))
		}
		c.Sessions = append(c.Sessions, s)
	}
	p.Scenario = "riblt-value"
	if c.Pointer {
		p.Scenario = "riblt-pointer"
	}
	if c.Pairs > 1 {
		p.Scenario += "-threads"
	}
	return p.With(&Cfg{Sys: "riblt", Riblt: c})
}

// rib adapts one instantiation of the package.
type rib[T riblt.Symbol[T]] struct {
	s       *simrt.Sim
	prop    string
	mk      func(V) T
	raw     func(T) string
	idx     map[int64][]int // symbol -> coded symbols it is part of, below idxN
	idxN    map[int64]int
	done    int
	nd      int
	surplus int
	aborted int
}

// indices learns where a symbol goes by encoding it alone.
func (x *rib[T]) indices(n int64, upto int) []int {
	if x.idxN[n] < upto {
		upto = upto + min(upto, 1000) + 8
		e := &riblt.Encoder[T]{}
		e.AddSymbol(x.mk(contentV(n)))
		var out []int
		for i := 0; i < upto; i++ {
			if !reflect.ValueOf(e.ProduceNextCodedSymbol()).IsZero() {
				out = append(out, i)
			}
		}
		x.idx[n], x.idxN[n] = out, upto
	}
	return x.idx[n]
}

// minimal is the shortest prefix of coded symbols from which peeling recovers
// the whole difference, or -1 if none up to n does.
func (x *rib[T]) minimal(diff []int64, n int) int {
	if len(diff) == 0 {
		return 1
	}
	at := make([]map[int64]bool, n)
	for i := range at {
		at[i] = map[int64]bool{}
	}
	gone := map[int64]bool{}
	lists := map[int64][]int{}
	for _, d := range diff {
		lists[d] = x.indices(d, n)
	}
	byIdx := make([][]int64, n)
	for _, d := range diff {
		for _, i := range lists[d] {
			if i < n {
				byIdx[i] = append(byIdx[i], d)
			}
		}
	}
	for k := 0; k < n; k++ {
		for _, d := range byIdx[k] {
			if !gone[d] {
				at[k][d] = true
			}
		}
		todo := []int{k}
		for len(todo) > 0 {
			i := todo[len(todo)-1]
			todo = todo[:len(todo)-1]
			if len(at[i]) != 1 {
				continue
			}
			for d := range at[i] {
				gone[d] = true
				for _, j := range lists[d] {
					if j <= k && j < n && at[j][d] {
						delete(at[j], d)
						if len(at[j]) == 1 {
							todo = append(todo, j)
						}
					}
				}
			}
		}
		if len(gone) == len(diff) {
			return k + 1
		}
	}
	return -1
}

func (x *rib[T]) fail(class, f string, a ...any) { x.s.Fail(x.prop, class, f, a...) }

// listed checks one list of the decoder against what it may contain.
func (x *rib[T]) listed(what string, got []riblt.HashedSymbol[T], want []int64, complete bool) bool {
	ok := map[string]bool{}
	for _, n := range want {
		ok[string(contentV(n).bytes())] = true
	}
	seen := map[string]bool{}
	for _, g := range got {
		c := x.raw(g.Symbol)
		switch {
		case !ok[c]:
			x.fail("wrong-symbol", "the %s list holds a symbol that is not %s (list of %d, difference of %d)", what, what, len(got), len(want))
			return false
		case seen[c]:
			x.fail("listed-twice", "the %s list holds a symbol twice", what)
			return false
		case g.Hash != g.Symbol.Hash():
			x.fail("wrong-hash", "the %s list holds a symbol with a wrong hash", what)
			return false
		}
		seen[c] = true
	}
	if complete && len(got) != len(want) {
		x.fail("incomplete", "the decoder claims completion with %d of %d %s symbols", len(got), len(want), what)
		return false
	}
	return true
}

func (x *rib[T]) session(e *riblt.Encoder[T], d *riblt.Decoder[T], k int, s *RSession) bool {
	r := newRand(s.Seed)
	type held struct {
		obj T
		n   int64
	}
	var objs []held
	put := func(ns []int64, enc, dec bool) {
		for _, i := range r.Perm(len(ns)) {
			n := ns[i]
			t := x.mk(contentV(n))
			objs = append(objs, held{t, n})
			if enc {
				if s.Hashed {
					e.AddHashedSymbol(riblt.HashedSymbol[T]{Symbol: t, Hash: t.Hash()})
				} else {
					e.AddSymbol(t)
				}
			}
			if dec {
				if s.Hashed {
					d.AddHashedSymbol(riblt.HashedSymbol[T]{Symbol: t, Hash: t.Hash()})
				} else {
					d.AddSymbol(t)
				}
			}
		}
	}
	parts := []func(){func() { put(s.Remote, true, false) }, func() { put(s.Local, false, true) }, func() { put(s.Common, true, true) }}
	for _, i := range r.Perm(3) {
		parts[i]()
		simrt.Point()
	}
	total := 0
	for _, b := range s.Batches {
		total += max(b, -b)
	}
	diff := append(append([]int64(nil), s.Remote...), s.Local...)
	need := x.minimal(diff, total)
	x.s.Note("session", int64(k), int64(need))
	n := 0
	was := false
	for _, b := range s.Batches {
		abandon := b < 0
		for i := max(b, -b); i > 0; i-- {
			c := e.ProduceNextCodedSymbol()
			if s.Delay > 0 {
				simrt.Sleep(time.Duration(r.Int63n(s.Delay)))
			} else {
				simrt.Point()
			}
			if x.s.Stopped {
				return false
			}
			d.AddCodedSymbol(c)
			n++
			if d.Decoded() && (len(diff) < 500 || n%64 == 0) {
				if !x.listed("remote", d.Remote(), s.Remote, true) || !x.listed("local", d.Local(), s.Local, true) {
					return false
				}
			}
		}
		if abandon {
			x.aborted++
			break
		}
		tries := 1
		if s.ExtraTry {
			tries += r.Intn(3)
		}
		for ; tries > 0; tries-- {
			d.TryDecode()
		}
		dec := d.Decoded()
		if want := need > 0 && n >= need; dec != want {
			x.fail("completion", "session %d: %d coded symbols of a difference of %d: complete %v, but the prefix needed is %d", k, n, len(diff), dec, need)
			return false
		}
		if !x.listed("remote", d.Remote(), s.Remote, dec) || !x.listed("local", d.Local(), s.Local, dec) {
			return false
		}
		if was {
			x.surplus++
		}
		if dec && !was {
			x.nd++
			if x.s.TraceOn {
				x.s.Tracef("session %d complete after %d coded symbols", k, n)
			}
		}
		was = dec
	}
	for _, h := range objs {
		if x.raw(h.obj) != string(contentV(h.n).bytes()) {
			x.fail("caller-modified", "session %d changed a symbol of the caller", k)
			return false
		}
	}
	e.Reset()
	d.Reset()
	return true
}

func (x *rib[T]) run(c *RCfg, p *core.Plan) {
	pr := x.s.NewProc("riblt", nil, p.Seed)
	for i := 0; i < c.Pairs; i++ {
		pr.Start("pair", func() {
			e, d := &riblt.Encoder[T]{}, &riblt.Decoder[T]{}
			for k := range c.Sessions {
				if !x.session(e, d, k, &c.Sessions[k]) {
					return
				}
			}
			x.done++
		})
	}
	x.s.Run(1 << 60)
	if x.s.Violation == nil && x.done < c.Pairs {
		x.fail("hang", "the reconciliation did not finish")
	}
	x.s.Probes["sessions_completed"] += int64(x.nd)
	x.s.Probes["batches_after_completion"] += int64(x.surplus)
	x.s.FaultN["abandoned sessions"] += int64(x.aborted)
	x.s.FaultN["irregular batches"] += int64(irregular(c))
}

func irregular(c *RCfg) int {
	n := 0
	for _, s := range c.Sessions {
		for _, b := range s.Batches {
			if b != 1 {
				n++
			}
		}
	}
	return n
}

func execRiblt(s *simrt.Sim, c *RCfg, p *core.Plan, r *core.Result) {
	s.PoolYield = true
	nd := 0
	if c.Pointer {
		x := &rib[PS]{s: s, prop: p.Property, mk: func(v V) PS { return &PSD{v} }, raw: func(t PS) string {
			if t == nil {
				return ""
			}
			return string(t.V.bytes())
		}, idx: map[int64][]int{}, idxN: map[int64]int{}}
		x.run(c, p)
		nd = x.nd
	} else {
		x := &rib[VS]{s: s, prop: p.Property, mk: func(v V) VS { return VS{v} }, raw: func(t VS) string { return string(t.V.bytes()) }, idx: map[int64][]int{}, idxN: map[int64]int{}}
		x.run(c, p)
		nd = x.nd
	}
	core.Collect(s, r)
	r.NonTrivial = nd > 0
}

func shrinkRiblt(p *core.Plan) []*core.Plan {
	var out []*core.Plan
	mod := func(f func(c *RCfg) bool) {
		c := core.CloneCfg[Cfg](p)
		if f(c.Riblt) {
			out = append(out, p.With(c))
		}
	}
	base := core.CloneCfg[Cfg](p).Riblt
	mod(func(c *RCfg) bool { ok := c.Pairs > 1; c.Pairs = 1; return ok })
	mod(func(c *RCfg) bool { ok := c.Pointer; c.Pointer = false; return ok })
	for i := range base.Sessions {
		i := i
		if len(base.Sessions) > 1 {
			mod(func(c *RCfg) bool { c.Sessions = append(c.Sessions[:i:i], c.Sessions[i+1:]...); return true })
		}
		cut := func(f func(s *RSession) *[]int64) {
			n := len(*f(&base.Sessions[i]))
			for sz := (n + 1) / 2; sz >= 1; sz /= 2 {
				for k := 0; k+sz <= n && k < 40*sz; k += sz {
					k, sz := k, sz
					mod(func(c *RCfg) bool {
						l := f(&c.Sessions[i])
						*l = append((*l)[:k:k], (*l)[k+sz:]...)
						return true
					})
				}
			}
		}
		cut(func(s *RSession) *[]int64 { return &s.Common })
		cut(func(s *RSession) *[]int64 { return &s.Remote })
		cut(func(s *RSession) *[]int64 { return &s.Local })
		nb := len(base.Sessions[i].Batches)
		for sz := nb / 2; sz >= 1; sz /= 2 {
			sz := sz
			mod(func(c *RCfg) bool {
				c.Sessions[i].Batches = c.Sessions[i].Batches[:nb-sz]
				return true
			})
		}
		mod(func(c *RCfg) bool { s := &c.Sessions[i]; ok := s.Delay != 0; s.Delay = 0; return ok })
		mod(func(c *RCfg) bool { s := &c.Sessions[i]; ok := s.ExtraTry; s.ExtraTry = false; return ok })
		mod(func(c *RCfg) bool { s := &c.Sessions[i]; ok := s.Hashed; s.Hashed = false; return ok })
	}
	sort.SliceStable(out, func(i, j int) bool { return len(out[i].Cfg) < len(out[j].Cfg) })
	return out
}

func describeRiblt(i *core.Info) {
	i.Rule = "One case is one simulated history of 1-3 encoder-decoder pairs running 1-5 sessions, derived from one seed: the sets, the order of additions, the batches in which coded symbols arrive, additional attempts to decode, abandoned sessions and surplus coded symbols. It is non-trivial when a session completed; two cases are distinct when the hash of their event logs differs."
	i.Real = []string{"riblt (encoder and decoder)"}
	i.Stub = []string{"the link between encoder and decoder", "goroutine scheduler"}
	i.Assumptions = []string{
		"coded symbols arrive in order and without loss, as the codec requires",
		"no symbol hashes to zero and no two symbols have the same hash (cryptographic hash of the caller)",
		"no symbols are added to a decoder once coded symbols of the session have arrived",
		"which coded symbols a symbol is part of is learned by encoding it alone",
	}
}
