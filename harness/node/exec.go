package main

import (
	"bytes"
	"encoding/gob"
	"fmt"
	"math/rand"
	"os"
	"slices"
	"strings"
	"syscall"
	"time"

	"github.com/yangl1996/rateless-set-reconcile/ldpc"
	"github.com/yangl1996/rateless-set-reconcile/node"
	"verif/harness/core"
	"verif/simrt"
)

func nodeName(i int) string { return fmt.Sprintf("n%d", i) }

type dialKey struct {
	n    *nodeRec
	addr string
}

type run struct {
	s    *simrt.Sim
	m    *monitor
	c    *Cfg
	prop string
	cur  []*nodeRec // current incarnation per node
	bad  int
	// nodes that the harness killed
	deadly  bool
	dialN   map[[2]int]int64
	dialled map[dialKey][]int64
	dialD   map[[2]int]int64
	accErr  map[int]int64
	probe   *nodeRec
	eqAt    []int64
}

func (x *run) scale(t int64) float64 {
	v := 0.0
	for _, p := range x.c.Phases {
		if t >= p.From*ms && t < p.To*ms && p.Scale > v {
			v = p.Scale
		}
	}
	return v
}

// nextArrival stretches a unit exponential draw so that arrivals follow the
// load phases.
func (x *run) nextArrival(v float64) float64 {
	now := x.s.Now()
	t := now
	end := int64(0)
	for _, p := range x.c.Phases {
		if p.To*ms > end {
			end = p.To * ms
		}
	}
	rate := x.c.Tx
	for t < end {
		// next boundary
		b := end
		for _, p := range x.c.Phases {
			if f := p.From * ms; f > t && f < b {
				b = f
			}
			if f := p.To * ms; f > t && f < b {
				b = f
			}
		}
		sc := x.scale(t)
		have := sc * rate * float64(b-t) / 1e9
		if sc > 0 && have >= v {
			t += int64(v / (sc * rate) * 1e9)
			return float64(t-now) / 1e9 * rate
		}
		v -= have
		t = b
	}
	return 1e6 * rate
}

func (x *run) args(i int, probe bool) []string {
	c := x.c
	a := []string{"-l", ":9000", "-k", fmt.Sprint(c.K), "-m", fmt.Sprint(c.M), "-c", fmt.Sprint(c.C), "-delta", fmt.Sprint(c.Delta), "-tx", fmt.Sprint(c.tx(i)), "-r0", fmt.Sprint(c.R0), "-rmin", fmt.Sprint(c.Rmin), "-inc", fmt.Sprint(c.Inc), "-loss", fmt.Sprint(c.Loss), "-t", fmt.Sprintf("%dms", c.TOms), "-warmup", fmt.Sprintf("%dms", max(c.WarmMs, 1000*int64(btoi(c.WarmMs == 0))))}
	var ps []string
	if probe {
		for j := 0; j < c.Nodes; j++ {
			if !x.cur[j].proc.Dead {
				ps = append(ps, nodeName(j)+":9000")
			}
		}
	} else {
		for _, e := range c.Edges {
			if e[0] == i {
				ps = append(ps, nodeName(e[1])+":9000")
			}
		}
	}
	if slices.Contains(c.Ghost, i) {
		ps = slices.Insert(ps, (i*7+int(c.EndMs))%(len(ps)+1), "ghost:9000")
	}
	if len(ps) > 0 {
		a = append(a, "-p", strings.Join(ps, ","))
	}
	return a
}

func (x *run) boot(i, inc int) *nodeRec {
	p := x.s.NewProc(nodeName(i), x.args(i, i >= x.c.Nodes), int64(i*1000+inc)*7919+x.s.Sched.Seed%100003)
	off := int64(i)*61 + 7
	if i < len(x.c.WallOffS) {
		off = x.c.WallOffS[i]
	}
	// processes never start within the same second
	p.WallOff = (off*1009 + int64(i)*7 + int64(inc)*97) * sec
	p.ExpHook = x.nextArrival
	if x.prop == "C35" {
		// the load is the program's own, and the clocks agree
		p.ExpHook = nil
		// (in milliseconds: no two processes start at the same instant)
		p.WallOff = int64(i)*7 + int64(inc)*97
	}
	n := x.m.addNode(i, inc, p)
	x.cur[i] = n
	p.Start("main", node.Main)
	x.s.Tracef("start node %d (incarnation %d)", i, inc)
	return n
}

func (x *run) rate0(i int) float64 {
	r := x.c.R0
	if r == 0 {
		r = x.c.tx(i)
	}
	if r < x.c.Rmin {
		r = x.c.Rmin
	}
	return r
}

func (x *run) conns(a, b int) []*simrt.Conn {
	var out []*simrt.Conn
	for _, c := range x.s.Net.Conns {
		na, nb := x.m.byProc[c.Proc], x.m.byProc[c.Peer.Proc]
		if na == nil || nb == nil || !c.Alive() {
			continue
		}
		if na.idx == a && nb.idx == b {
			out = append(out, c)
		} else if na.idx == b && nb.idx == a {
			out = append(out, c.Peer)
		}
	}
	return out
}

func (x *run) fault(f *Fault) {
	s := x.s
	if f.A >= len(x.cur) || x.cur[f.A] == nil {
		return
	}
	n := x.cur[f.A]
	switch f.Kind {
	case "partition", "hold", "reset", "garbage", "writeerr":
		if f.B < 0 || f.B >= len(x.cur) || x.cur[f.B] == nil {
			return
		}
	}
	if s.TraceOn {
		s.Tracef("FAULT %+v", *f)
	}
	switch f.Kind {
	case "stall_task", "stall_other", "stall_ctl", "stall_dec":
		ts := n.proc.Tasks()
		var sel []*simrt.Task
		for _, t := range ts {
			skip := false
			for _, e := range n.encs {
				if e.prodBy == t || e.prodBy == nil {
					skip = true
				}
			}
			if f.Kind == "stall_other" && skip {
				continue
			}
			if f.Kind == "stall_ctl" && !strings.Contains(t.Name, "main.go") && len(n.encs) > 0 {
				continue
			}
			if f.Kind == "stall_dec" {
				dec := false
				for _, d := range n.decs {
					dec = dec || d.by == t
				}
				if !dec {
					continue
				}
			}
			sel = append(sel, t)
		}
		if len(sel) == 0 {
			return
		}
		s.Freeze(sel[int(f.Arg)%len(sel)], f.Dur*ms)
		s.FaultN["thread_stall"]++
	case "stall_proc":
		n.proc.FreezeProc(f.Dur * ms)
	case "partition":
		s.Net.Cut(n.proc, x.cur[f.B].proc, s.Now()+f.Dur*ms)
	case "hold":
		for _, c := range x.conns(f.A, f.B) {
			c := c
			c.Hold(true)
			s.FaultN["link_stall"]++
			if f.Dur < 1<<29 {
				s.After(f.Dur*ms, func() { c.Hold(false) })
			}
		}
	case "clockjump":
		n.proc.WallOff += f.Arg * ms
		n.offs = append(n.offs, wallOff{s.Now(), n.proc.WallOff})
		s.FaultN["clock_jump"]++
	case "reset":
		for _, c := range x.conns(f.A, f.B) {
			c.Reset()
		}
	case "garbage":
		for _, c := range x.conns(f.A, f.B) {
			x.m.garbled[c.Peer.Proc] = true
			r := rand.New(rand.NewSource(f.Arg))
			c.Inject(simrt.Garbage(r, 1+r.Intn(400)))
			s.FaultN["garbage"]++
			break
		}
	case "writeerr":
		for _, c := range x.conns(f.A, f.B) {
			c.FailWrite(writeErrs[f.Arg%int64(len(writeErrs))], int(f.Arg>>8%600))
		}
	case "crash":
		if n.proc.Dead {
			return
		}
		n.killed = true
		n.died = s.Now()
		n.proc.Kill()
		s.FaultN["crash"]++
		if f.Dur >= 0 {
			inc := n.inc + 1
			s.After(f.Dur*ms+1, func() {
				x.boot(f.A, inc)
				s.FaultN["restart"]++
			})
		}
	case "badclient":
		x.badClient(f)
	}
}

// writeErrs are what a send can fail with while the connection is up.
var writeErrs = []error{syscall.ENOBUFS, syscall.EPERM, syscall.ENOMEM, syscall.EHOSTUNREACH}

type wireMsg struct {
	*ldpc.Codeword
	Loss      int
	UnixMicro int64
}

// badClient is a misbehaving remote host.
func (x *run) badClient(f *Fault) {
	s := x.s
	x.bad++
	p := s.NewProc(fmt.Sprintf("bad%d", x.bad), nil, f.Arg)
	addr := nodeName(f.A) + ":9000"
	mode := f.Arg % 9
	r := rand.New(rand.NewSource(f.Arg))
	s.FaultN[fmt.Sprintf("bad_client_%d", mode)]++
	x.m.garbled[x.cur[f.A].proc] = true
	p.Start("badclient", func() {
		c, err := simrt.NetDial("tcp", addr)
		if err != nil {
			return
		}
		switch mode {
		case 0: // never says anything
			simrt.SitForever()
		case 1: // stalls in the middle of its key
			c.Write(simrt.Garbage(r, 1+r.Intn(15)))
			simrt.SitForever()
		case 2: // gives up in the middle of its key
			c.Write(simrt.Garbage(r, r.Intn(16)))
			c.Close()
		case 3: // garbage after the key
			c.Write(simrt.Garbage(r, 16+r.Intn(500)))
			simrt.SitForever()
		case 4: // closes after the key
			c.Write(simrt.Garbage(r, 16))
			simrt.Sleep(time.Duration(f.Dur) * time.Millisecond)
			c.Close()
		case 5: // a message without a codeword
			c.Write(simrt.Garbage(r, 16))
			var b bytes.Buffer
			gob.NewEncoder(&b).Encode(wireMsg{Loss: 1, UnixMicro: 1})
			c.Write(b.Bytes())
			simrt.SitForever()
		case 6: // reset right after the handshake
			c.Write(simrt.Garbage(r, 16))
			simrt.Sleep(time.Duration(f.Dur) * time.Millisecond)
			c.(*simrt.Conn).Reset()
		case 8: // the node cannot write to it
			c.(*simrt.Conn).Peer.FailWrite(writeErrs[r.Intn(len(writeErrs))], r.Intn(16))
			c.Write(simrt.Garbage(r, r.Intn(17)))
			simrt.SitForever()
		case 7: // a valid codeword, then a truncated message
			c.Write(simrt.Garbage(r, 16))
			var b bytes.Buffer
			e := gob.NewEncoder(&b)
			e.Encode(wireMsg{Codeword: &ldpc.Codeword{Members: []uint32{1, 2}}, UnixMicro: 1})
			k := b.Len()
			e.Encode(wireMsg{Codeword: &ldpc.Codeword{Members: []uint32{3, 2}}, UnixMicro: 1})
			c.Write(b.Bytes()[:k+r.Intn(b.Len()-k)])
			c.Close()
		}
	})
}

func (su *suite) Exec(p *core.Plan, trace bool) *core.Result {
	c := core.CloneCfg[Cfg](p)
	s := simrt.New(p.Sched)
	defer s.Close()
	s.TraceOn = trace
	s.PoolMode = c.PoolMode
	s.MaxSteps = 30_000_000
	s.SpinMax = 300_000
	s.Spin = func(t *simrt.Task) {
		s.Fail(p.Property, "livelock", "%d steps without any time passing; task %s of %s is one that keeps running", s.SpinMax, t.Name, t.Proc.Name)
	}
	s.Net.Cfg = c.Net
	if su.race {
		s.EnableRace()
	}
	x := &run{s: s, c: c, prop: p.Property, dialN: map[[2]int]int64{}, dialled: map[dialKey][]int64{}, dialD: map[[2]int]int64{}, accErr: map[int]int64{}}
	x.m = newMonitor(s, p.Property, c)
	if p.Property == "C35" {
		x.m.load = newLoadw(x.m)
	}
	if p.Property == "C32" {
		s.OnLog = x.m.onLog
	}
	x.cur = make([]*nodeRec, c.Nodes+1)
	s.OnCrash = func(pr *simrt.Proc, cr *simrt.Crash) {
		n := x.m.byProc[pr]
		if n == nil || n.killed {
			return
		}
		s.Fail(p.Property, "node-crash", "node %d died: %s [%s]", n.idx, cr.Msg, cr.Stack)
	}
	s.Net.DialPlan = func(from *simrt.Proc, addr string, attempt int) (error, int64) {
		n := x.m.byProc[from]
		if n == nil {
			return nil, 0
		}
		if x.prop == "C08" {
			d := dialKey{n, addr}
			v := append(x.dialled[d], s.Now())
			if len(v) > 20 {
				v = v[1:]
			}
			x.dialled[d] = v
			if len(v) == 20 && v[19]-v[0] < 2*sec {
				x.m.fail("C08", "hammering", "node %d has dialled %s 20 times within %v", n.idx, addr, time.Duration(v[19]-v[0]))
			}
		}
		if addr == "ghost:9000" && c.GhostHow == 0 {
			return syscall.ECONNREFUSED, c.Net.LatencyNs
		}
		if addr == "ghost:9000" && c.GhostHow == 1 {
			return syscall.ETIMEDOUT, 127 * sec
		}
		var b int
		fmt.Sscanf(addr, "n%d:", &b)
		k := [2]int{n.idx, b}
		if x.dialN[k] > 0 {
			x.dialN[k]--
			if x.dialD[k] > 0 {
				return syscall.ETIMEDOUT, x.dialD[k] * ms
			}
			return syscall.ECONNREFUSED, 0
		}
		return nil, 0
	}
	s.Net.AcceptPlan = func(pr *simrt.Proc, k int) error {
		n := x.m.byProc[pr]
		if n != nil && x.accErr[n.idx] > 0 {
			x.accErr[n.idx]--
			return syscall.EMFILE
		}
		return nil
	}
	if len(c.Ghost) > 0 && c.GhostHow == 2 {
		s.NewProc("ghost", nil, 1).Start("ghost", func() {
			l, err := simrt.NetListen("tcp", ":9000")
			for err == nil {
				_, err = l.Accept()
			}
		})
	}
	for i := 0; i < c.Nodes; i++ {
		i := i
		s.At(c.StartMs[i]*ms, func() { x.boot(i, 0) })
	}
	for i := range c.Faults {
		f := &c.Faults[i]
		switch f.Kind {
		case "dialfail":
			x.dialN[[2]int{f.A, f.B}] += f.Arg
			x.dialD[[2]int{f.A, f.B}] = f.Dur
		case "accepterr":
			s.At(f.At*ms, func() { x.accErr[f.A] += f.Arg })
		default:
			s.At(f.At*ms, func() { x.fault(f) })
		}
	}
	if c.QuietMs > 0 {
		x.m.quietAt = c.QuietMs * ms
	}
	if c.Probe {
		s.At((c.CalmMs+1000)*ms, func() { x.probe = x.boot(c.Nodes, 0) })
	}
	if c.CalmMs > 0 {
		s.At(c.CalmMs*ms, func() { x.calm() })
	}
	s.Run(c.EndMs * ms)
	r := &core.Result{}
	if s.Violation == nil && s.StopWhy == "steps" {
		r.Err = fmt.Sprintf("step limit reached at %v", time.Duration(s.Now()))
		s.Probe("step_limit")
		return r
	}
	if s.Violation == nil {
		x.final()
	}
	s.Probes["transactions_recovered"] += int64(x.m.seenTx)
	core.Collect(s, r)
	r.NonTrivial = x.m.seenTx > 0 && len(x.m.decs) > 1
	if p.Property == "C35" {
		r.NonTrivial = s.Probes["intervals_compared"] > 0 && s.Probes["keys_compared"] > 1
	}
	return r
}

// calm ends every disturbance of the network except permanently blocked links.
func (x *run) calm() {
	x.s.Net.HealAll()
	x.s.Net.Cfg.JitterNs = 0
	x.s.Net.Cfg.FragRead = 0
}

func (x *run) alive(n *nodeRec) bool { return n != nil && !n.proc.Dead }

// linkAlive tells whether the connection of a pair is still up.
func (x *run) linkAlive(p *pair) bool {
	c := x.endpoint(p)
	return c != nil && c.Alive()
}

func (x *run) endpoint(p *pair) *simrt.Conn {
	if p.enc.tx != nil {
		if c, ok := p.enc.tx.Writer().(*simrt.Conn); ok {
			return c
		}
	}
	if p.dec.rx != nil {
		if c, ok := p.dec.rx.Reader().(*simrt.Conn); ok {
			return c
		}
	}
	if p.enc.peerDec != nil {
		// through the other end
		q := p.enc.peerDec.pair
		if q != nil && q.enc.tx != nil {
			if c, ok := q.enc.tx.Writer().(*simrt.Conn); ok {
				return c.Peer
			}
		}
	}
	return nil
}

func (x *run) final() {
	switch x.prop {
	case "C35":
		x.m.load.final(x.c.QuietMs * ms)
	case "C02":
		x.finalRelay()
	case "C03":
		x.finalReach()
	case "C04":
		x.finalWedge()
	case "C05":
		x.finalLoss()
	case "C06":
		x.finalRate()
	case "C08":
		x.finalConnect()
	case "C09":
		x.finalSurvive()
	case "C32":
		x.finalStats()
	}
}

// finalRelay: after everything has settled, every event reached every peer
// exactly as often as it happened.
func (x *run) finalRelay() {
	m := x.m
	for _, n := range m.nodes {
		if n.proc.Dead {
			continue
		}
		x.s.Probes["links_checked"] += int64(len(n.pairs))
		for _, p := range n.pairs {
			if p.dec.created > 4000*ms {
				continue
			}
			for id, want := range n.count {
				if got := p.dec.adds[id]; got != want {
					m.fail("C02", "not-relayed-to-decoder", "node %d learned a transaction %d times (first at %v) but its decoder of link %d was told %d times", n.idx, want, time.Duration(n.first[id]), p.dec.id, got)
					return
				}
				if got, want := p.enc.adds[id], n.countU[id]; got != want {
					m.fail("C02", "not-relayed-to-encoder", "node %d learned a transaction %d times in time (first at %v) but its encoder of link %d was told %d times", n.idx, want, time.Duration(n.first[id]), p.enc.id, got)
					return
				}
			}
		}
	}
}

func (x *run) finalReach() {
	m, s := x.m, x.s
	start := map[*decRec]int{}
	for _, n := range m.nodes {
		for _, p := range n.pairs {
			start[p.dec] = p.dec.addN
		}
	}
	// up to 1000 codewords queued at each end, and a buffer full in between,
	// may predate the calm period; then the window has to be decoded
	need := 4000
	limit := s.Now() + 1200*sec
	links := 0
	check := func(last bool) bool {
		links = 0
		for _, n := range m.nodes {
			if n.proc.Dead {
				continue
			}
			for _, p := range n.pairs {
				e := p.dec.peerEnc
				if e == nil || e.node.proc.Dead {
					continue
				}
				links++
				got := p.dec.addN - start[p.dec]
				miss := 0
				for _, id := range e.window {
					if !p.dec.known[id] {
						miss++
					}
				}
				if miss == 0 && got > 0 {
					continue
				}
				if got >= need {
					m.fail("C03", "unreachable", "%d of the %d transactions in the window of node %d towards node %d are still unknown there after %d further codewords", miss, len(e.window), e.node.idx, n.idx, got)
					return true
				}
				if s.Now()-p.dec.lastAdd > 30*sec+int64(10e9/x.c.Rmin) {
					m.fail("C03", "no-progress", "no codeword of node %d reached node %d since %v, now is %v and %d window transactions are missing", e.node.idx, n.idx, time.Duration(p.dec.lastAdd), time.Duration(s.Now()), miss)
					return true
				}
				if last {
					s.Probe("undecided_link")
				}
				return false
			}
		}
		return true
	}
	for s.Now() < limit && !s.Stopped {
		if check(false) {
			break
		}
		s.Run(s.Now() + 2*sec)
	}
	if s.Violation == nil {
		check(true)
	}
	s.Probes["links_checked"] += int64(links)
}

func (x *run) held(n *nodeRec) bool {
	for _, f := range x.c.Faults {
		if f.Kind == "hold" && f.Dur >= 1<<29 && (f.A == n.idx || f.B == n.idx) {
			return true
		}
	}
	return false
}

// served checks that node n still processes everything locally and relays it
// to its live links.
func (x *run) served(prop string, n *nodeRec, from, to int64) {
	m := x.m
	now := x.s.Now()
	for _, p := range n.pairs {
		if !x.linkAlive(p) || p.dec.created > from-sec {
			continue
		}
		x.s.Probe("links_checked")
		for _, ev := range n.locals {
			if ev.t < from || ev.t > to {
				continue
			}
			x.s.Probe("late_transactions_checked")
			if p.dec.adds[ev.cid] == 0 || p.enc.adds[ev.cid] == 0 {
				m.fail(prop, "relay-stopped", "node %d generated a transaction at %v but its link %d has not been told by %v%s", n.idx, time.Duration(ev.t), p.enc.id, time.Duration(now), x.blocked(n))
				return
			}
		}
		if now-p.enc.lastPrd > 2*sec+int64(2e9/x.c.Rmin) {
			m.fail(prop, "codewords-stopped", "node %d last produced a codeword on link %d at %v, now is %v%s", n.idx, p.enc.id, time.Duration(p.enc.lastPrd), time.Duration(now), x.blocked(n))
			return
		}
	}
}

func (x *run) blocked(n *nodeRec) string {
	var b []string
	for _, t := range n.proc.Tasks() {
		b = append(b, t.Name+": "+t.Why())
	}
	return " [" + strings.Join(b, "; ") + "]"
}

func (x *run) finalWedge() {
	m := x.m
	end := x.c.EndMs * ms
	from, to := (x.c.CalmMs+5000)*ms, end-5*sec
	for _, n := range m.nodes {
		if n.proc.Dead {
			continue
		}
		if x.c.tx(n.idx) > 0 && (len(n.locals) == 0 || n.locals[len(n.locals)-1].t < from && x.c.Tx*0.05 >= 3) {
			m.fail("C04", "generator-stuck", "node %d generates no transactions any more%s", n.idx, x.blocked(n))
			return
		}
		x.served("C04", n, from, to)
		for _, p := range n.pairs {
			if !x.linkAlive(p) {
				continue
			}
			// everything recovered or generated before is known everywhere
			for _, ev := range n.events {
				if ev.t < end-5*sec && p.dec.adds[ev.cid] == 0 {
					m.fail("C04", "accepted-not-processed", "node %d learned a transaction at %v but its link %d has not been told by %v%s", n.idx, time.Duration(ev.t), p.dec.id, time.Duration(end), x.blocked(n))
					return
				}
			}
			if p.dec.addN < p.dec.arrived-1000 || p.dec.addN > 0 && p.dec.lastAdd < end-5*sec && p.dec.arrived > p.dec.addN+5 {
				m.fail("C04", "codewords-not-processed", "node %d accepted %d codewords on link %d but processed %d, the last at %v%s", n.idx, p.dec.arrived, p.dec.id, p.dec.addN, time.Duration(p.dec.lastAdd), x.blocked(n))
				return
			}
			// a live, unblocked link keeps delivering
			if e := p.dec.peerEnc; e != nil && !e.node.proc.Dead && !(x.held(n) && x.held(e.node)) && p.dec.lastAdd < end-5*sec-int64(5e9/x.c.Rmin) {
				m.fail("C04", "link-silent", "node %d processed the last codeword from node %d at %v, now is %v%s", n.idx, e.node.idx, time.Duration(p.dec.lastAdd), time.Duration(end), x.blocked(n))
				return
			}
		}
	}
}

func (x *run) finalLoss() {
	m := x.m
	for _, n := range m.nodes {
		if n.proc.Dead {
			continue
		}
		for _, p := range n.pairs {
			if p.enc.tx == nil || p.dec.peerEnc == nil {
				continue
			}
			x.s.Probe("links_checked")
			if len(p.dec.givenAt) > 0 {
				x.s.Probe("links_with_loss")
			}
			// a codeword produced after a give-up and really sent carries the
			// report, whatever happened to earlier codewords
			last := int64(0)
			for i := range p.enc.prods {
				if p.enc.prods[i].encoded {
					last = p.enc.prods[i].t
				}
			}
			if last < x.c.CalmMs*ms+sec {
				x.s.Probe("undecided_link")
				continue
			}
			old := 0
			for _, t := range p.dec.givenAt {
				if t < last {
					old++
				}
			}
			if p.enc.wire < old {
				m.fail("C05", "under-reported", "node %d gave up %d codewords of link %d in time but has only reported %d of them", n.idx, old, p.dec.id, p.enc.wire)
				return
			}
		}
	}
}

func (x *run) finalConnect() {
	m := x.m
	for _, e := range x.c.Edges {
		a, b := x.cur[e[0]], x.cur[e[1]]
		count := func(from, to *nodeRec) (int, int) {
			enc, ok := 0, 0
			for _, q := range from.encs {
				if q.peerDec != nil && q.peerDec.node == to {
					enc++
					if q.peerDec.pair != nil && q.peerDec.pair.enc.peerDec != nil && q.peerDec.pair.enc.peerDec == q.pair.dec {
						ok++
					}
				}
			}
			return enc, ok
		}
		n1, k1 := count(a, b)
		n2, k2 := count(b, a)
		x.s.Probe("links_checked")
		if n1 != 1 || n2 != 1 || k1 != 1 || k2 != 1 {
			m.fail("C08", "not-connected", "nodes %d and %d: %d/%d encoders have their codewords decoded at the other side, %d/%d in both directions of one connection (expected 1)%s%s", a.idx, b.idx, n1, n2, k1, k2, x.blocked(a), x.blocked(b))
			return
		}
		// both directions work: recent transactions arrive
		for _, d := range [][2]*nodeRec{{a, b}, {b, a}} {
			var p *pair
			for _, q := range d[0].pairs {
				if q.enc.peerDec != nil && q.enc.peerDec.node == d[1] {
					p = q
				}
			}
			if p == nil || p.enc.peerDec.lastAdd < x.s.Now()-3*sec-int64(3e9/x.c.Rmin) {
				m.fail("C08", "not-working", "no codewords flow from node %d to node %d", d[0].idx, d[1].idx)
				return
			}
			if p.enc.salt != p.enc.peerDec.salt {
				m.fail("C08", "keys-differ", "node %d encodes with %x, node %d decodes with %x", d[0].idx, p.enc.salt, d[1].idx, p.enc.peerDec.salt)
				return
			}
		}
	}
	// nobody has spare half-open links
	for _, n := range m.nodes {
		deg := 0
		for _, e := range x.c.Edges {
			if e[0] == n.idx || e[1] == n.idx {
				deg++
			}
		}
		if len(n.pairs) != deg {
			m.fail("C08", "spurious-link", "node %d set up %d links, %d are configured", n.idx, len(n.pairs), deg)
		}
	}
}

func (x *run) finalSurvive() {
	m := x.m
	end := x.c.EndMs * ms
	// what a failed connection held is released
	for _, c := range x.s.Net.Conns {
		for _, e := range []*simrt.Conn{c, c.Peer} {
			n := m.byProc[e.Proc]
			if n == nil || n.proc.Dead || e.FailErr == nil || e.Failed > end-5*sec {
				continue
			}
			x.s.Probe("failed_sockets_checked")
			if !e.LocallyClosed() {
				m.fail("C09", "socket-leaked", "a connection of node %d to %s failed at %v (%v) and is still open%s", n.idx, e.Peer.Proc.Name, time.Duration(e.Failed), e.FailErr, x.blocked(n))
				return
			}
		}
	}
	from, to := (x.c.CalmMs+5000)*ms, end-5*sec
	for _, n := range m.nodes {
		if n.proc.Dead || n == x.probe {
			continue
		}
		x.served("C09", n, from, to)
		if x.s.Violation != nil {
			return
		}
		// the probe node's connection was accepted and is served
		var p *pair
		for _, q := range n.pairs {
			if q.enc.peerDec != nil && q.enc.peerDec.node == x.probe {
				p = q
			}
		}
		if p == nil {
			m.fail("C09", "not-accepting", "node %d does not serve a connection that was opened after the faults%s", n.idx, x.blocked(n))
			return
		}
		for _, ev := range n.locals {
			if ev.t > from && ev.t < to && p.enc.adds[ev.cid] == 0 {
				m.fail("C09", "new-link-not-served", "node %d does not relay to a connection that was opened after the faults%s", n.idx, x.blocked(n))
				return
			}
		}
		// nothing more is done for links that failed
		for _, q := range n.pairs {
			if c := m.connOf(q); c != nil && c.FailErr != nil && q.enc.lastPrd > c.Failed+5*sec {
				m.fail("C09", "works-for-dead-link", "the connection of node %d to %s failed at %v but codewords for it are still produced at %v%s", n.idx, c.Peer.Proc.Name, time.Duration(c.Failed), time.Duration(q.enc.lastPrd), x.blocked(n))
				return
			}
		}
		// live links keep flowing in both directions
		for _, q := range n.pairs {
			e := q.dec.peerEnc
			if e == nil || !x.linkAlive(q) || e.node.proc.Dead {
				continue
			}
			if q.dec.lastAdd < end-5*sec-int64(5e9/x.c.Rmin) {
				m.fail("C09", "link-silent", "node %d processed the last codeword from node %d at %v although the connection is up%s", n.idx, e.node.idx, time.Duration(q.dec.lastAdd), x.blocked(n))
				return
			}
		}
	}
}

// finalRate replays the control law over the observed history with bounds on
// what cannot be observed exactly (when a report is applied within a tick,
// whether a trailing codeword was queued).
func (x *run) finalRate() {
	m := x.m
	for _, n := range m.nodes {
		if n.proc.Dead {
			continue
		}
		for _, p := range n.pairs {
			if p.enc.tx == nil || !x.linkAlive(p) {
				continue
			}
			x.s.Probe("links_checked")
			if msg := x.rateCheck(p, nil); msg != "" {
				m.fail("C06", "rate-law", "node %d link %d: %s", n.idx, p.enc.id, msg)
				return
			}
		}
	}
}

func (x *run) rateCheck(p *pair, rep []line) string {
	e, d := p.enc, p.dec
	c := x.c
	tick := int64(10 * ms)
	type ev struct {
		t    int64
		kind int // 0 report may be applied, 1 report is applied, 2 produced+queued, 3 produced+dropped, 4 unknown
		n    int
		id   int
		v    float64
	}
	var evs []ev
	near := map[int64]int{} // codewords produced at a time
	for _, q := range e.prods {
		near[q.t]++
	}
	for _, r := range rep {
		evs = append(evs, ev{t: r.t, kind: 5, v: r.v[0]})
	}
	for j, l := range d.losses {
		if l.n <= 0 {
			continue
		}
		evs = append(evs, ev{t: l.arr - tick, kind: 0, n: l.n, id: j})
		if l.add >= 0 {
			evs = append(evs, ev{t: min(l.add+2*tick, x.s.Now()), kind: 1, n: l.n, id: j})
		}
	}
	for i, q := range e.prods {
		k := 4
		if q.encoded {
			k = 2
		} else if i < e.encIdx {
			k = 3
		}
		if k == 3 {
			x.s.Probe("codeword_dropped")
		}
		evs = append(evs, ev{t: q.t, kind: k, n: 1})
	}
	// stable order by time; reports before production
	sortEvs(evs, func(a, b ev) bool {
		if a.t != b.t {
			return a.t < b.t
		}
		return a.kind < b.kind
	})
	// The moment at which a report takes effect is known up to a few ticks.
	// Because of the floor a later report never yields a lower rate, so hi is
	// the rate without the uncertain reports plus all of them, and lo is
	// raised only at the end of the window, by what is left of the report if
	// it came first and the floor was hit since.
	lo, base := x.rate0(p.enc.node.idx), x.rate0(p.enc.node.idx)
	pend, clamped := 0, 0.0
	hi := base
	dec := c.Inc * c.Loss
	var ilo, ihi float64
	t := e.created
	produced := 0
	dnLo := func() {
		lo -= dec
		if lo < c.Rmin {
			clamped += c.Rmin - lo
			lo = c.Rmin
		}
	}
	dnHi := func() {
		base -= dec
		if base < c.Rmin {
			base = c.Rmin
		}
	}
	start := map[int]float64{}
	check := func(at int64) string {
		tolHi := 1.0 + 1e-6*ihi + 1e-3 + hi*0.011
		tolLo := 1.0 + 1e-6*ilo + 1e-3 + hi*0.021
		if float64(produced) > ihi+tolHi {
			return fmt.Sprintf("%d codewords produced by %v, the control law allows at most %.2f (rate now between %.3f and %.3f)", produced, time.Duration(at), ihi, lo, hi)
		}
		if float64(produced) < ilo-tolLo {
			return fmt.Sprintf("%d codewords produced by %v, the control law demands at least %.2f (rate now between %.3f and %.3f)", produced, time.Duration(at), ilo, lo, hi)
		}
		return ""
	}
	for i := 0; i < len(evs); i++ {
		q := evs[i]
		if q.t > t {
			dt := float64(q.t-t) / 1e9
			ilo += lo * dt
			ihi += hi * dt
			t = q.t
			if s := check(t); s != "" {
				return s
			}
		}
		switch q.kind {
		case 0:
			pend += q.n
			start[q.id] = clamped
			x.s.Probe("loss_report_applied")
		case 1:
			pend -= q.n
			base += c.Inc * float64(q.n)
			if d := c.Inc*float64(q.n) - (clamped - start[q.id]); d > 0 {
				lo += d
			}
		case 2:
			produced++
			dnLo()
			dnHi()
		case 3:
			produced++
		case 4:
			produced++
			dnLo()
		case 5:
			// codewords of the same instant may come before or after the report
			tol := 0.0051 + 1e-9*hi + dec*float64(near[q.t])
			if q.v < lo-tol || q.v > hi+tol {
				return fmt.Sprintf("rate %.2f reported at %v, the control law says between %.3f and %.3f", q.v, time.Duration(q.t), lo, hi)
			}
			x.s.Probe("rates_compared")
		}
		hi = base + c.Inc*float64(pend)
		if i+1 == len(evs) || evs[i+1].t > q.t {
			if s := check(t); s != "" {
				return s
			}
		}
	}
	now := x.s.Now()
	dt := float64(now-t) / 1e9
	ilo += lo * dt
	ihi += hi * dt
	return check(now)
}

func sortEvs[T any](v []T, less func(a, b T) bool) {
	// insertion into a stable merge order
	tmp := make([]T, len(v))
	var ms func(lo, hi int)
	ms = func(lo, hi int) {
		if hi-lo < 2 {
			return
		}
		mid := (lo + hi) / 2
		ms(lo, mid)
		ms(mid, hi)
		i, j, k := lo, mid, lo
		for i < mid || j < hi {
			if j >= hi || i < mid && !less(v[j], v[i]) {
				tmp[k] = v[i]
				i++
			} else {
				tmp[k] = v[j]
				j++
			}
			k++
		}
		copy(v[lo:hi], tmp[lo:hi])
	}
	ms(0, len(v))
}

func (su *suite) Describe(prop string) core.Info {
	i := core.Info{
		Rule:        "One case is one simulated execution of 2-6 complete node processes, derived from one seed: topology, command-line parameters, link conditions, start order, load phases, fault schedule and every scheduling decision. It is non-trivial when at least two links came up and at least one transaction was recovered from codewords (C35: when intervals between generated transactions and keys were compared); two cases are distinct when the hash of their event logs differs.",
		Real:        []string{"node (all threads, controller, sender, receiver, main)", "ldpc", "encoding/gob", "soliton distribution", "ddsketch"},
		Stub:        []string{"goroutine scheduler", "channels, select, locks, pools", "time.Now, timers, tickers", "TCP sockets, listener, dialer", "math/rand state (per process)", "flag and log packages"},
		Assumptions: []string{"a simulated TCP stream is reliable and ordered within a connection; faults are delay, fragmentation, stalls, resets and process crashes", "the codec's exported functions are the observation points; the codec itself is checked by C11-C17", "code between two synchronisation operations takes no simulated time"},
	}
	switch prop {
	case "C06":
		i.Assumptions = append(i.Assumptions, "the sending thread itself is not starved of CPU (ticks that the Go ticker drops are lost by design)")
	case "C10":
		i.Assumptions = append(i.Assumptions, "accesses inside third-party packages are attributed to the object they are called on")
	}
	return i
}

func main() {
	_ = os.Args
	core.Main(&suite{race: raceBuild()})
}
