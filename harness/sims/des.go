package main

import (
	"math/rand"
	"time"

	"github.com/yangl1996/rateless-set-reconcile/des"

	"verif/harness/core"
	"verif/simrt"
)

// DCfg is one history of the event kernel.
type DCfg struct {
	Modules int   `json:"modules"`
	Seed    int64 `json:"seed"`
	Steps   []DOp `json:"steps"`
	// Fan is the mean number of messages sent in reaction to one, per mille.
	Fan    int     `json:"fan"`
	Delays []int64 `json:"delays"` // delays in use, ns
	Max    int     `json:"max"`    // messages in total
}

// DOp is one call from outside the kernel.
type DOp struct {
	K    string `json:"k"` // send, until, run
	From int    `json:"from,omitempty"`
	To   int    `json:"to,omitempty"` // -1: nobody
	D    int64  `json:"d,omitempty"`
}

type dmsg struct {
	seq      int
	arr      int64
	from, to int
	done     bool
}

// dworld is the reference model: a list of pending messages.
type dworld struct {
	s     *simrt.Sim
	prop  string
	c     *DCfg
	r     *rand.Rand
	k     *des.Simulator
	mods  []*dmod
	all   []*dmsg
	pend  map[*dmsg]bool
	now   int64
	nDel  int
	until int64 // limit of the running call, -1 none
	off   bool
	ties  int
}

type dmod struct {
	w *dworld
	i int
}

func (w *dworld) fail(class, f string, a ...any) {
	if !w.off {
		w.off = true
		w.s.Fail(w.prop, class, f, a...)
	}
}

// HandleMessage checks a delivery against the model and reacts.
func (m *dmod) HandleMessage(payload any, from des.Module, ts time.Duration) []des.OutgoingMessage {
	w := m.w
	if w.off {
		return nil
	}
	d, ok := payload.(*dmsg)
	if !ok {
		w.fail("payload", "module %d was handed a payload nobody sent", m.i)
		return nil
	}
	w.s.Note("deliver", int64(d.seq), int64(ts))
	w.s.Tracef("message %d at %v to %d", d.seq, ts, m.i)
	if !w.pend[d] {
		w.fail("again", "message %d was delivered a second time", d.seq)
		return nil
	}
	if d.to != m.i || from != des.Module(w.mods[d.from]) {
		w.fail("address", "message %d from %d to %d was delivered to %d", d.seq, d.from, d.to, m.i)
		return nil
	}
	if int64(ts) != d.arr {
		w.fail("when", "message %d was due at %v and delivered at %v", d.seq, time.Duration(d.arr), ts)
		return nil
	}
	if int64(ts) < w.now {
		w.fail("backwards", "the clock went from %v to %v", time.Duration(w.now), ts)
		return nil
	}
	for o := range w.pend {
		if o.arr < d.arr || o.arr == d.arr && o.seq < d.seq {
			w.fail("order", "message %d, due at %v, was delivered before message %d, due at %v", d.seq, time.Duration(d.arr), o.seq, time.Duration(o.arr))
			return nil
		}
		if o.arr == d.arr {
			w.ties++
		}
	}
	if w.until >= 0 && w.now > w.until {
		w.fail("overrun", "message %d was delivered at %v although the run was to end at %v and the clock was at %v already", d.seq, ts, time.Duration(w.until), time.Duration(w.now))
		return nil
	}
	w.now = int64(ts)
	delete(w.pend, d)
	w.nDel++
	if w.k.Time() != ts {
		w.fail("clock", "the kernel's clock shows %v while a message is delivered at %v", w.k.Time(), ts)
		return nil
	}
	if q := w.k.EventsQueued(); q != len(w.pend) {
		w.fail("queued", "%d messages are pending but the kernel reports %d", len(w.pend), q)
		return nil
	}
	var out []des.OutgoingMessage
	for len(w.all) < w.c.Max && w.r.Intn(1000) < w.c.Fan && len(out) < 6 {
		o, _ := w.newMsg(m.i, w.r.Intn(len(w.mods)+1)-1, w.c.Delays[w.r.Intn(len(w.c.Delays))])
		out = append(out, o)
	}
	return out
}

func (w *dworld) newMsg(from, to int, delay int64) (des.OutgoingMessage, *dmsg) {
	d := &dmsg{seq: len(w.all), arr: w.now + delay, from: from, to: to}
	o := des.OutgoingMessage{Payload: d, Delay: time.Duration(delay)}
	if to < 0 {
		d.to = from
	} else {
		o.To = w.mods[to]
	}
	w.all = append(w.all, d)
	w.pend[d] = true
	return o, d
}

func (w *dworld) counts() {
	if w.off {
		return
	}
	if a, b := w.k.EventsQueued(), w.k.EventsDelivered(); a != len(w.pend) || b != w.nDel {
		w.fail("counts", "%d scheduled, %d pending, %d delivered; the kernel reports %d queued and %d delivered", len(w.all), len(w.pend), w.nDel, a, b)
	}
	if w.k.Drained() != (len(w.pend) == 0) {
		w.fail("drained", "the kernel reports drained=%v with %d pending", w.k.Drained(), len(w.pend))
	}
	if int64(w.k.Time()) != w.now {
		w.fail("clock", "the kernel's clock shows %v; the last delivery was at %v", w.k.Time(), time.Duration(w.now))
	}
}

func genDes(p *core.Plan, r *rand.Rand, tier string) *core.Plan {
	c := &DCfg{Modules: pick(r, 1, 2, 3, 5, 10), Seed: r.Int63n(1 << 40), Fan: pick(r, 0, 300, 600, 800)}
	c.Max = pick(r, 30, 100, 400)
	if tier != "quick" {
		c.Max *= pick(r, 1, 1, 4)
	}
	for n := 1 + r.Intn(5); n > 0; n-- {
		c.Delays = append(c.Delays, pick(r, 0, 0, 1, 2, 1000, 1e6, 1e6, 3e6, 1e9, r.Int63n(1e10)))
	}
	if r.Intn(4) == 0 {
		c.Delays = []int64{pick(r, int64(0), 1, 1e6)}
	}
	t := int64(0)
	for n := pick(r, 2, 5, 20, 60); n > 0; n-- {
		switch x := r.Intn(10); {
		case x < 6:
			for k := pick(r, 1, 1, 3, 10); k > 0; k-- {
				c.Steps = append(c.Steps, DOp{K: "send", From: r.Intn(c.Modules), To: r.Intn(c.Modules+1) - 1, D: c.Delays[r.Intn(len(c.Delays))]})
			}
		case x < 9:
			t += pick(r, 0, 0, 1, 1e6, 1e9, r.Int63n(1e10))
			u := t
			if r.Intn(6) == 0 {
				u = r.Int63n(t + 1)
			}
			c.Steps = append(c.Steps, DOp{K: "until", D: u})
		default:
			c.Steps = append(c.Steps, DOp{K: "run"})
		}
	}
	p.Scenario = "kernel"
	return p.With(c)
}

func execDes(p *core.Plan, trace bool) *core.Result {
	c := core.CloneCfg[DCfg](p)
	s := simrt.New(p.Sched)
	defer s.Close()
	s.TraceOn = trace
	r := &core.Result{}
	w := &dworld{s: s, prop: p.Property, c: c, r: newRand(c.Seed), k: &des.Simulator{}, pend: map[*dmsg]bool{}, until: -1}
	for i := 0; i < c.Modules; i++ {
		w.mods = append(w.mods, &dmod{w, i})
	}
	s.OnCrash = func(pr *simrt.Proc, cr *simrt.Crash) { s.Fail(p.Property, "panic", "%s [%s]", cr.Msg, cr.Stack) }
	pr := s.NewProc("des", nil, p.Seed)
	done := false
	pr.Start("main", func() {
		for _, o := range c.Steps {
			if w.off {
				return
			}
			switch o.K {
			case "send":
				if len(w.all) >= c.Max {
					continue
				}
				m, _ := w.newMsg(o.From, o.To, o.D)
				w.k.ScheduleMessage(m, w.mods[o.From])
			case "until":
				w.until = o.D
				w.k.RunUntil(time.Duration(o.D))
				w.until = -1
				for d := range w.pend {
					if d.arr <= o.D && !w.off {
						w.fail("left-over", "message %d was due at %v and is still pending after running until %v", d.seq, time.Duration(d.arr), time.Duration(o.D))
					}
				}
			case "run":
				w.k.Run()
				if len(w.pend) > 0 {
					w.fail("left-over", "%d messages are pending after running to the end", len(w.pend))
				}
			}
			w.counts()
		}
		if !w.off {
			w.k.Run()
			if len(w.pend) > 0 {
				w.fail("left-over", "%d messages are pending after running to the end", len(w.pend))
			}
			w.counts()
		}
		done = true
	})
	s.Run(1 << 60)
	if !done && s.Violation == nil {
		s.Fail(p.Property, "hang", "the kernel did not return")
	}
	s.Probes["deliveries"] += int64(w.nDel)
	s.Probes["ties"] += int64(w.ties)
	core.Collect(s, r)
	r.SimNs = w.now
	r.NonTrivial = w.nDel > 1
	return r
}

func shrinkDes(p *core.Plan) []*core.Plan {
	var out []*core.Plan
	base := core.CloneCfg[DCfg](p)
	mod := func(f func(c *DCfg) bool) {
		c := core.CloneCfg[DCfg](p)
		if f(c) {
			out = append(out, p.With(c))
		}
	}
	n := len(base.Steps)
	for sz := n / 2; sz >= 1; sz /= 2 {
		for i := 0; i < n; i += sz {
			mod(func(c *DCfg) bool { c.Steps = append(c.Steps[:i:i], c.Steps[min(n, i+sz):]...); return true })
		}
	}
	mod(func(c *DCfg) bool { ok := c.Fan > 0; c.Fan = 0; return ok })
	mod(func(c *DCfg) bool { ok := c.Max > 3; c.Max /= 2; return ok })
	mod(func(c *DCfg) bool {
		ok := c.Modules > 1
		c.Modules = 1
		for i := range c.Steps {
			c.Steps[i].From = 0
			c.Steps[i].To = min(0, c.Steps[i].To)
		}
		return ok
	})
	return out
}
