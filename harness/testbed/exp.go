package main

import (
	"bytes"
	"crypto/ed25519"
	"crypto/x509"
	"encoding/json"
	"encoding/pem"
	"errors"
	"fmt"
	"io"
	"math/rand"
	osexec "os/exec"
	"regexp"
	"sort"
	"strconv"
	"strings"

	real "golang.org/x/crypto/ssh"

	"verif/harness/core"
	"verif/simrt"
	"verif/simx/exec"
	"verif/simx/ssh"
)

// ---------------------------------------------------------------- plan

// SrvCfg is one line of the server list, and the machine behind it.
type SrvCfg struct {
	IP    string `json:"ip"`
	Port  int    `json:"port"`
	User  string `json:"user"`
	Key   int    `json:"key"`
	Loc   string `json:"loc"`
	LatMs int64  `json:"lat"`
	Stale bool   `json:"stale,omitempty"` // a node of an earlier experiment still runs
	KillS int64  `json:"kill,omitempty"`  // seconds the node takes to die
}

// SFault hits the n-th operation of a kind on a server.
type SFault struct {
	Srv  int    `json:"srv"`
	Op   string `json:"op"`
	N    int    `json:"n"`
	Kind string `json:"kind"`
}

// ECmd is one invocation of the tool.
type ECmd struct {
	Install bool     `json:"install,omitempty"`
	Ping    bool     `json:"ping,omitempty"`
	Run     bool     `json:"run,omitempty"`
	Dl      bool     `json:"dl,omitempty"`
	Args    []string `json:"args,omitempty"`
	Bad     string   `json:"bad,omitempty"` // missing-list, bad-list, missing-topo, bad-topo, short-topo
	KillMs  int64    `json:"killms,omitempty"`
	Seed    int64    `json:"seed"`
}

// ECfg is a run of C29.
type ECfg struct {
	Run
	Srv    []SrvCfg `json:"servers"`
	Edges  [][2]int `json:"edges"`
	Cmds   []ECmd   `json:"commands"`
	Faults []SFault `json:"faults"`
	Seed   int64    `json:"seed"`
}

var opKinds = []string{"connect", "open", "kill", "ping", "start", "up", "down"}

func genExp(p *core.Plan, r *rand.Rand, big bool) {
	c := &ECfg{Seed: r.Int63n(1 << 40)}
	p.Scenario = "exp"
	c.Acc = pick(r, int64(0), 0, 1, 3, 10)
	c.Loop = pick(r, int64(0), 0, 1, 2)
	n := pick(r, 1, 2, 2, 3, 4, 6, 9)
	if big {
		n = pick(r, 1, 2, 3, 5, 9, 14, 25)
	}
	locs := []string{"Amsterdam", "Tokyo", "Tokyo", "us-east-1", "New Jersey"}
	for i := 0; i < n; i++ {
		c.Srv = append(c.Srv, SrvCfg{IP: fmt.Sprintf("10.%d.%d.%d", r.Intn(3), r.Intn(3), i+1), Port: pick(r, 22, 22, 22, 2222, 22000+i), User: pick(r, "root", "root", "ubuntu"),
			Key: r.Intn(3), Loc: pick(r, locs...), LatMs: pick(r, int64(1), 5, 80, 300, 2000), Stale: r.Intn(3) == 0, KillS: pick(r, int64(0), 0, 1, 10)})
	}
	if r.Intn(6) == 0 && n > 1 { // machines behind one address
		k := 1 + r.Intn(n-1)
		c.Srv[k].IP = c.Srv[0].IP
		c.Srv[k].Port = c.Srv[0].Port + 1
	}
	for k := pick(r, 0, 1, n, n, 2*n, 3*n); k > 0; k-- {
		c.Edges = append(c.Edges, [2]int{r.Intn(n), r.Intn(n)})
	}
	words := []string{"-s", "100", "-d", "30s", "-loss", "0.02", "-name=a", "-t", "1.5", "--x", "node7"}
	for k := pick(r, 1, 2, 3, 4); k > 0; k-- {
		m := ECmd{Seed: r.Int63n(1 << 40)}
		switch r.Intn(7) {
		case 0:
			m.Install = true
		case 1:
			m.Ping = true
		case 2:
			m.Run = true
		case 3:
			m.Dl = true
		default:
			m.Install, m.Ping, m.Run, m.Dl = r.Intn(2) == 0, r.Intn(3) == 0, r.Intn(2) == 0, r.Intn(2) == 0
		}
		if r.Intn(2) == 0 {
			for j := 1 + r.Intn(5); j > 0; j-- {
				m.Args = append(m.Args, pick(r, words...))
			}
			if strings.HasPrefix(m.Args[0], "-") {
				m.Args = append([]string{"--"}, m.Args...)
			}
		}
		if r.Intn(12) == 0 {
			m.Bad = pick(r, "missing-list", "bad-list", "missing-topo", "bad-topo", "short-topo")
		}
		if r.Intn(8) == 0 {
			m.KillMs = 1 + r.Int63n(pick(r, int64(500), 5000, 60000))
		}
		c.Cmds = append(c.Cmds, m)
	}
	for k := pick(r, 0, 0, 1, 1, 2, 3, 5); k > 0; k-- {
		f := SFault{Srv: r.Intn(n), Op: pick(r, opKinds[1:]...), N: pick(r, 0, 0, 0, 1, 2)}
		if r.Intn(8) == 0 {
			f.Op = "connect"
		}
		switch f.Op {
		case "connect":
			f.Kind = pick(r, "refused", "auth", "stall")
		case "open":
			f.Kind = pick(r, "fail", "drop", "stall")
		case "kill":
			f.Kind = pick(r, "drop-before", "drop-after", "stall")
		case "ping":
			f.Kind = pick(r, "drop-before", "drop-after", "fail", "lost", "stall")
		case "start":
			f.Kind = pick(r, "drop-before", "drop-after", "fail", "stall")
		default:
			f.Kind = pick(r, "fail", "partial", "stall", "noscp")
		}
		c.Faults = append(c.Faults, f)
	}
	if n > 1 && r.Intn(10) == 0 { // all but one stall in the same phase
		op, free := pick(r, "up", "ping", "start", "down"), r.Intn(n)
		c.Faults = nil
		for i := 0; i < n; i++ {
			if i != free {
				c.Faults = append(c.Faults, SFault{Srv: i, Op: op, Kind: "stall"})
			}
		}
	}
	p.Cfg, _ = json.Marshal(c)
}

func fixExp(p *core.Plan) bool {
	var c ECfg
	if json.Unmarshal(p.Cfg, &c) != nil || len(c.Srv) == 0 || len(c.Cmds) == 0 {
		return false
	}
	n := len(c.Srv)
	var es [][2]int
	for _, e := range c.Edges {
		if e[0] < n && e[1] < n {
			es = append(es, e)
		}
	}
	c.Edges = es
	var fs []SFault
	for _, f := range c.Faults {
		if f.Srv < n {
			fs = append(fs, f)
		}
	}
	c.Faults = fs
	seen := map[string]bool{}
	for i := range c.Srv {
		x := &c.Srv[i]
		if x.Port == 0 {
			x.Port = 22
		}
		k := fmt.Sprint(x.IP, ":", x.Port)
		if seen[k] {
			return false
		}
		seen[k] = true
	}
	for i := range c.Cmds {
		if a := c.Cmds[i].Args; len(a) > 0 && a[0] != "--" && strings.HasPrefix(a[0], "-") {
			c.Cmds[i].Args = append([]string{"--"}, a...)
		}
	}
	p.Cfg, _ = json.Marshal(&c)
	return true
}

// ---------------------------------------------------------------- keys

var (
	keyPEM [3][]byte
	keyPub [3]real.PublicKey
)

func setupKeys() {
	for i := range keyPEM {
		k := ed25519.NewKeyFromSeed(bytes.Repeat([]byte{byte(i + 1)}, ed25519.SeedSize))
		der, err := x509.MarshalPKCS8PrivateKey(k)
		if err != nil {
			panic(err)
		}
		keyPEM[i] = pem.EncodeToMemory(&pem.Block{Type: "PRIVATE KEY", Bytes: der})
		sg, err := real.ParsePrivateKey(keyPEM[i])
		if err != nil {
			panic(err)
		}
		keyPub[i] = sg.PublicKey()
	}
}

func keyPath(i int) string { return fmt.Sprintf("%s/.ssh/key%d", home, i) }

// ---------------------------------------------------------------- machines

type rsrv struct {
	i        int
	c        SrvCfg
	node     *rnode
	binary   string // contents of the program file
	fileLog  string // contents of log.txt when no node runs
	hasLog   bool
	firewall bool
	bbr      bool
	runs     int
	count    map[string]int // operations so far, by kind
}

// rnode is a running node.
type rnode struct {
	id    string
	at    int64
	cmd   int
	args  []string
	peers []string
	addr  string
}

func (n *rnode) partial(now int64) string {
	return fmt.Sprintf("log of %s, %d seconds so far", n.id, (now-n.at)/sec)
}
func (n *rnode) full() string { return "complete log of " + n.id }

// rop is one remote action.
type rop struct {
	srv    int
	kind   string
	t0, t1 int64
	fault  string
	done   bool // took effect
	detail string
	node   *rnode
	busy   bool // a node was running
	to     int  // ping: the target
	ended  bool
}

type eworld struct {
	s     *simrt.Sim
	c     *ECfg
	srv   []*rsrv
	cmd   int
	ops   []*rop
	fail  []int // failures the tool was told of, by server
	conns int
	badc  bool // a connection failed
	rng   *rand.Rand
	mean  map[[2]int]float64
	multi map[string]bool // addresses with several machines
}

func (w *eworld) bad(class, f string, a ...any) {
	w.s.Fail("C29", class, f, a...)
}

func (w *eworld) fault(sv *rsrv, kind string) string {
	n := sv.count[kind]
	sv.count[kind]++
	for _, f := range w.c.Faults {
		if f.Srv == sv.i && f.Op == kind && f.N == n {
			w.s.FaultN[kind+"_"+f.Kind]++
			w.s.Note("fault "+kind+" "+f.Kind, int64(sv.i), int64(n))
			return f.Kind
		}
	}
	return ""
}

func (w *eworld) lat(sv *rsrv) {
	ms := sv.c.LatMs*1000 + w.rng.Int63n(1+sv.c.LatMs*1000)
	simrt.Sleep(simDur(ms * 1000))
}

func (w *eworld) begin(sv *rsrv, kind string) (*rop, string) {
	o := &rop{srv: sv.i, kind: kind, t0: w.s.Now(), to: -1}
	w.ops = append(w.ops, o)
	f := w.fault(sv, kind)
	o.fault = f
	if w.s.TraceOn {
		w.s.Tracef("server %d: %s %s", sv.i, kind, f)
	}
	if f == "stall" {
		simrt.Sleep(simDur(600 * sec))
	}
	return o, f
}

func (w *eworld) end(o *rop, failed bool) {
	o.t1 = w.s.Now()
	o.ended = true
	if failed {
		w.fail[o.srv]++
	}
	w.s.Note(o.kind, int64(o.srv), b2i(failed))
}

func b2i(b bool) int64 {
	if b {
		return 1
	}
	return 0
}

func (w *eworld) find(host string, port int) *rsrv {
	for _, s := range w.srv {
		if s.c.IP == host && s.c.Port == port {
			return s
		}
	}
	return nil
}

// Connect implements ssh.Server.
func (w *eworld) Connect(network, addr string, cfg *real.ClientConfig, keys []real.PublicKey) (ssh.Remote, error) {
	i := strings.LastIndexByte(addr, ':')
	if i < 0 {
		return nil, errors.New("dial: missing port in address")
	}
	port, _ := strconv.Atoi(addr[i+1:])
	sv := w.find(strings.Trim(addr[:i], "[]"), port)
	if sv == nil {
		w.bad("wrong-machine", "the tool connects to %s, which is not in the server list", addr)
		return nil, errors.New("connection refused")
	}
	o, f := w.begin(sv, "connect")
	w.lat(sv)
	switch f {
	case "refused":
		w.badc = true
		w.end(o, true)
		return nil, fmt.Errorf("dial tcp %s: connect: connection refused", addr)
	case "auth":
		w.badc = true
		w.end(o, true)
		return nil, errors.New("ssh: handshake failed: ssh: unable to authenticate, attempted methods [none publickey], no supported methods remain")
	}
	good := false
	for _, k := range keys {
		if bytes.Equal(k.Marshal(), keyPub[sv.c.Key].Marshal()) {
			good = true
		}
	}
	if !good || cfg.User != sv.c.User {
		w.bad("wrong-login", "server %d (%s): the tool logs in as %q with the wrong key or user, not as %q with %s", sv.i, addr, cfg.User, sv.c.User, keyPath(sv.c.Key))
		return nil, errors.New("ssh: unable to authenticate")
	}
	o.done = true
	w.end(o, false)
	w.conns++
	return &rconn{w: w, sv: sv, cmd: w.cmd}, nil
}

type rconn struct {
	w    *eworld
	sv   *rsrv
	cmd  int
	dead bool
}

func (c *rconn) Open() error {
	w := c.w
	if c.dead {
		w.fail[c.sv.i]++
		return io.EOF
	}
	o, f := w.begin(c.sv, "open")
	w.lat(c.sv)
	switch f {
	case "fail":
		w.end(o, true)
		return &real.OpenChannelError{Reason: real.ResourceShortage, Message: "open failed"}
	case "drop":
		c.dead = true
		w.end(o, true)
		return io.EOF
	}
	o.done = true
	w.end(o, false)
	return nil
}

func (c *rconn) CloseSession() {}
func (c *rconn) Close() error  { c.dead = true; return nil }

var (
	reKill = regexp.MustCompile(`^(?:sudo )?(killall|pkill)\b.*\btxcode-node\b`)
	rePing = regexp.MustCompile(`^ping .*?-c ?(\d+) .*?(\d+\.\d+\.\d+\.\d+)|^ping (\d+\.\d+\.\d+\.\d+)`)
)

// Exec implements ssh.Remote.
func (c *rconn) Exec(cmd string, stdin io.Reader) ([]byte, []byte, error) {
	w, sv := c.w, c.sv
	if c.dead {
		w.fail[sv.i]++
		return nil, nil, &real.ExitMissingError{}
	}
	cmd = strings.TrimSpace(cmd)
	kind := "other"
	switch {
	case strings.Contains(cmd, "./txcode-node"):
		kind = "start"
	case reKill.MatchString(cmd):
		kind = "kill"
	case strings.HasPrefix(cmd, "ping "):
		kind = "ping"
	}
	o, f := w.begin(sv, kind)
	o.detail = cmd
	w.lat(sv)
	if f == "drop-before" {
		c.dead = true
		w.end(o, true)
		return nil, nil, &real.ExitMissingError{}
	}
	if f == "fail" {
		w.end(o, true)
		return nil, []byte("-bash: fork: Cannot allocate memory\n"), ssh.NewExitError(254, "fork failed")
	}
	var out, errOut []byte
	status := 0
	switch kind {
	case "kill":
		if sv.node == nil {
			errOut, status = []byte("txcode-node: no process found\n"), 1
			break
		}
		simrt.Sleep(simDur(sv.c.KillS*sec + sec/100))
		w.stop(sv)
	case "start":
		w.shell(sv, o, cmd)
	case "ping":
		out = w.pipeline(sv, o, cmd, f == "lost")
	}
	o.done = true
	if f == "drop-after" {
		c.dead = true
		w.end(o, true)
		return nil, nil, &real.ExitMissingError{}
	}
	w.lat(sv)
	w.end(o, f == "lost")
	if status != 0 {
		return out, errOut, ssh.NewExitError(status, "")
	}
	return out, errOut, nil
}

func (w *eworld) stop(sv *rsrv) {
	if sv.node != nil {
		sv.fileLog, sv.hasLog = sv.node.full(), true
		w.s.Tracef("server %d: %s stopped", sv.i, sv.node.id)
		sv.node = nil
	}
}

// shell runs the parts of the start command that matter.
func (w *eworld) shell(sv *rsrv, o *rop, cmd string) {
	if i := strings.Index(cmd, "-c '"); i >= 0 && strings.HasPrefix(cmd, "bash ") && strings.HasSuffix(cmd, "'") {
		cmd = cmd[i+4 : len(cmd)-1]
	}
	for _, st := range strings.FieldsFunc(strings.ReplaceAll(cmd, "&&", ";"), func(r rune) bool { return r == ';' }) {
		ws := strings.Fields(st)
		line := strings.Join(ws, " ")
		switch {
		case strings.Contains(line, "net.ipv4.tcp_congestion_control=bbr"):
			sv.bbr = true
		case strings.Contains(line, "ufw disable"):
			sv.firewall = false
		case reKill.MatchString(line):
			w.stop(sv)
		case strings.Contains(line, "./txcode-node"):
			if sv.node != nil {
				w.bad("two-nodes", "server %d: a node is started while %s is still running", sv.i, sv.node.id)
				return
			}
			i := 0
			for ws[i] != "./txcode-node" {
				i++
			}
			sv.runs++
			n := &rnode{id: fmt.Sprintf("node %d of server %d", sv.runs, sv.i), at: w.s.Now(), cmd: w.cmd}
			bg := false
			for j := i + 1; j < len(ws); j++ {
				a := ws[j]
				if a == ">" || strings.HasPrefix(a, ">") || strings.HasPrefix(a, "2>") || a == "&" || strings.HasPrefix(a, "</") {
					if a == ">" && j+1 < len(ws) {
						if ws[j+1] != "log.txt" {
							w.bad("wrong-log", "server %d: the node's output goes to %s", sv.i, ws[j+1])
						}
						j++
					}
					bg = bg || a == "&"
					continue
				}
				switch {
				case a == "-p" && j+1 < len(ws):
					n.peers = strings.Split(ws[j+1], ",")
					j++
				case a == "-l" && j+1 < len(ws):
					n.addr = ws[j+1]
					j++
				default:
					n.args = append(n.args, a)
				}
			}
			if !bg {
				w.bad("foreground", "server %d: the node is started in the foreground, the command never returns", sv.i)
			}
			sv.node = n
			o.node = n
			w.s.Tracef("server %d: %s starts: peers %v listen %s args %v", sv.i, n.id, n.peers, n.addr, n.args)
		}
	}
}

// pipeline runs ping and the filters behind it.
func (w *eworld) pipeline(sv *rsrv, o *rop, cmd string, lost bool) []byte {
	parts := strings.Split(cmd, "|")
	m := rePing.FindStringSubmatch(parts[0])
	if m == nil {
		return nil
	}
	n, ip := 4, m[2]
	if m[1] != "" {
		n, _ = strconv.Atoi(m[1])
	} else {
		ip = m[3]
	}
	to := -1
	for _, x := range w.srv {
		if x.c.IP == ip && to < 0 {
			to = x.i
		}
	}
	if to < 0 {
		w.bad("wrong-machine", "server %d pings %s, which is not in the server list", sv.i, ip)
		return nil
	}
	o.to = to
	simrt.Sleep(simDur(int64(n) * sec))
	mean := w.rtt(sv.i, to)
	text := fmt.Sprintf("PING %s (%s) 56(84) bytes of data.\n64 bytes from %s: icmp_seq=1 ttl=64 time=%.3f ms\n\n--- %s ping statistics ---\n", ip, ip, ip, mean*1.3, ip)
	if lost {
		text += fmt.Sprintf("%d packets transmitted, 0 received, 100%% packet loss, time 29000ms\n\n", n)
	} else {
		text += fmt.Sprintf("%d packets transmitted, %d received, 0%% packet loss, time 29000ms\nrtt min/avg/max/mdev = %.3f/%.3f/%.3f/%.3f ms\n", n, n, mean*0.7, mean, mean*1.3, mean/9)
	}
	for _, st := range parts[1:] {
		ws := strings.Fields(st)
		if len(ws) == 0 {
			continue
		}
		arg := strings.Join(ws[1:], " ")
		lines := strings.Split(strings.TrimSuffix(text, "\n"), "\n")
		switch ws[0] {
		case "tail":
			k, err := strconv.Atoi(strings.Trim(strings.ReplaceAll(arg, "-n", ""), " -"))
			if err != nil {
				return nil
			}
			if k < len(lines) {
				lines = lines[len(lines)-k:]
			}
		case "cut":
			fm := regexp.MustCompile(`-f ?(\d+)`).FindStringSubmatch(arg)
			dm := regexp.MustCompile(`-d ?['"]?([^'" ])['"]?`).FindStringSubmatch(arg)
			if fm == nil || dm == nil {
				return nil
			}
			k, _ := strconv.Atoi(fm[1])
			for i, l := range lines {
				fs := strings.Split(l, dm[1])
				if len(fs) == 1 {
					continue
				}
				if k <= len(fs) {
					lines[i] = fs[k-1]
				} else {
					lines[i] = ""
				}
			}
		default:
			return nil
		}
		text = strings.Join(lines, "\n") + "\n"
	}
	return []byte(text)
}

func (w *eworld) rtt(a, b int) float64 {
	k := [2]int{a, b}
	if v, ok := w.mean[k]; ok {
		return v
	}
	r := rand.New(rand.NewSource(w.c.Seed + int64(a)*1009 + int64(b)))
	v := float64(int64(r.Float64()*300000)) / 1000
	w.mean[k] = v
	return v
}

// scp runs a copy command.
func (w *eworld) scp(c *exec.Cmd) ([]byte, []byte, error) {
	p := w.s.CurProc()
	exitErr := func() error { return &osexec.ExitError{} }
	if c.Args[0] != "scp" && !strings.HasSuffix(c.Args[0], "/scp") {
		return nil, nil, &osexec.Error{Name: c.Args[0], Err: osexec.ErrNotFound}
	}
	var pos []string
	key, port := "", 22
	for i := 1; i < len(c.Args); i++ {
		a := c.Args[i]
		val := func(f string) string {
			if a != f {
				return strings.TrimPrefix(a, f)
			}
			if i++; i < len(c.Args) {
				return c.Args[i]
			}
			return ""
		}
		switch {
		case strings.HasPrefix(a, "-i"):
			key = val("-i")
		case strings.HasPrefix(a, "-P"):
			port, _ = strconv.Atoi(val("-P"))
		case strings.HasPrefix(a, "-o"):
			if v := val("-o"); strings.HasPrefix(v, "Port=") {
				port, _ = strconv.Atoi(v[5:])
			} else if strings.HasPrefix(v, "IdentityFile=") {
				key = v[13:]
			}
		case strings.HasPrefix(a, "-"):
		default:
			pos = append(pos, a)
		}
	}
	if len(pos) != 2 {
		return nil, []byte("usage: scp ...\n"), exitErr()
	}
	up := strings.Contains(pos[1], ":")
	rem, loc := pos[0], pos[1]
	if up {
		rem, loc = pos[1], pos[0]
	}
	uh, path, _ := strings.Cut(rem, ":")
	user, host, _ := strings.Cut(uh, "@")
	path = strings.TrimPrefix(path, "~/")
	sv := w.find(host, port)
	if sv == nil {
		w.bad("wrong-machine", "scp talks to %s port %d, which is not in the server list", host, port)
		return nil, nil, exitErr()
	}
	kind := "down"
	if up {
		kind = "up"
	}
	o, f := w.begin(sv, kind)
	o.detail = path + " " + loc
	if f == "noscp" {
		w.end(o, true)
		return nil, nil, &osexec.Error{Name: "scp", Err: osexec.ErrNotFound}
	}
	w.lat(sv)
	if user != sv.c.User || key != keyPath(sv.c.Key) {
		w.bad("wrong-login", "server %d: scp logs in as %q with key %q", sv.i, user, key)
		return nil, nil, exitErr()
	}
	if f == "fail" {
		w.end(o, true)
		return nil, []byte("lost connection\n"), exitErr()
	}
	if up {
		lf := p.Files()[loc]
		if lf == nil {
			w.end(o, true)
			return nil, []byte(loc + ": No such file or directory\n"), exitErr()
		}
		o.busy = sv.node != nil
		if o.busy && path == "txcode-node" {
			w.end(o, true)
			return nil, []byte("scp: dest open \"txcode-node\": Failure\n"), exitErr()
		}
		if f == "partial" {
			sv.binary = "truncated"
			w.end(o, true)
			return nil, []byte("lost connection\n"), exitErr()
		}
		w.lat(sv)
		if path == "txcode-node" {
			sv.binary = string(lf.Data)
		}
		o.done = true
		w.end(o, false)
		return nil, nil, nil
	}
	w.lat(sv)
	if path != "log.txt" || !sv.hasLog && sv.node == nil {
		w.end(o, true)
		return nil, []byte("scp: " + path + ": No such file or directory\n"), exitErr()
	}
	data := sv.fileLog
	if sv.node != nil {
		o.busy = true
		data = sv.node.partial(w.s.Now())
	}
	if f == "partial" {
		p.AddFile(loc, []byte(data[:len(data)/2]))
		w.end(o, true)
		return nil, []byte("lost connection\n"), exitErr()
	}
	p.AddFile(loc, []byte(data))
	o.done = true
	w.end(o, false)
	return nil, nil, nil
}

// ---------------------------------------------------------------- run and judge

func execExp(s *simrt.Sim, p *core.Plan, res *core.Result) {
	var c ECfg
	if err := json.Unmarshal(p.Cfg, &c); err != nil {
		res.Err = err.Error()
		return
	}
	s.AccEvery, s.LoopEvery = c.Acc, c.Loop
	w := &eworld{s: s, c: &c, rng: rand.New(rand.NewSource(c.Seed)), mean: map[[2]int]float64{}, multi: map[string]bool{}}
	ips := map[string]int{}
	for i, x := range c.Srv {
		sv := &rsrv{i: i, c: x, count: map[string]int{}, binary: "old program", firewall: true}
		if x.Stale {
			sv.runs++
			sv.node = &rnode{id: fmt.Sprintf("node %d of server %d", sv.runs, i), cmd: -1}
		}
		w.srv = append(w.srv, sv)
		ips[x.IP]++
		if ips[x.IP] > 1 {
			w.multi[x.IP] = true
		}
	}
	ssh.Backend = w
	exec.Run = w.scp
	op := &operator{s: s, prop: "C29", files: map[string]*simrt.MemFile{}}
	type line struct {
		ID, PublicIP, PrivateIP       string
		Port                          int
		User, KeyPath, Location, Tag_ string
	}
	var ls []map[string]any
	for i, x := range c.Srv {
		ls = append(ls, map[string]any{"ID": fmt.Sprint(57302000 + i), "PublicIP": x.IP, "PrivateIP": fmt.Sprintf("172.16.0.%d", i), "Port": x.Port, "User": x.User, "KeyPath": keyPath(x.Key), "Location": x.Loc, "Tag": "ouroboros", "Provider": "vultr"})
	}
	list, _ := json.MarshalIndent(ls, "", "    ")
	var es []map[string]int
	for _, e := range c.Edges {
		es = append(es, map[string]int{"From": e[0], "To": e[1]})
	}
	topo, _ := json.Marshal(map[string]any{"Topology": es})
	for i := range keyPEM {
		op.files[keyPath(i)] = &simrt.MemFile{Data: keyPEM[i]}
	}
	for i, m := range c.Cmds {
		set := func(n string, b []byte) { op.files[n] = &simrt.MemFile{Name: n, Data: b} }
		bin := fmt.Sprintf("program of command %d", i)
		set("servers.json", list)
		set("topo.json", topo)
		set("node-binary", []byte(bin))
		listBad, topoBad := false, false
		switch m.Bad {
		case "missing-list":
			delete(op.files, "servers.json")
			listBad = true
		case "bad-list":
			set("servers.json", list[:len(list)/2])
			listBad = true
		case "missing-topo":
			delete(op.files, "topo.json")
			topoBad = true
		case "bad-topo":
			set("topo.json", []byte(`{"Topology": [{"From": "x"}]}`))
			topoBad = true
		case "short-topo":
			set("topo.json", topo[:len(topo)/2])
			topoBad = true
		}
		args := []string{"exp"}
		flags := [][]string{{"-l", "servers.json"}}
		if m.Install {
			flags = append(flags, []string{"-install", "node-binary"})
		}
		if m.Ping {
			flags = append(flags, []string{"-ping", "topo.json"})
		}
		if m.Run {
			flags = append(flags, []string{"-run", "topo.json"})
		}
		if m.Dl {
			flags = append(flags, []string{"-dl", fmt.Sprintf("res%d", i)})
		}
		rr := rand.New(rand.NewSource(m.Seed))
		rr.Shuffle(len(flags), func(i, j int) { flags[i], flags[j] = flags[j], flags[i] })
		for _, f := range flags {
			args = append(args, f...)
		}
		args = append(args, m.Args...)
		w.cmd, w.ops, w.fail, w.conns, w.badc = i, nil, make([]int, len(c.Srv)), 0, false
		w.s.Note("command", int64(i), 0)
		r := op.command(args, m.Seed, "", nil, m.KillMs*1e6)
		w.s.Probe("commands")
		if s.Violation != nil {
			return
		}
		if s.StopWhy == "steps" {
			return
		}
		w.judge(&m, r, op, bin, listBad, topoBad)
		if s.Violation != nil {
			return
		}
	}
	acted := map[int]bool{}
	for _, sv := range w.srv {
		if sv.count["kill"]+sv.count["up"]+sv.count["ping"]+sv.count["start"] > 0 {
			acted[sv.i] = true
		}
	}
	res.NonTrivial = len(acted) > 1
}

var (
	reErrSrv = regexp.MustCompile(`(?i)error.*\bserver (\d+)\b`)
	reNed    = regexp.MustCompile(`node\[(\d+)\]\.peer\+\+ <--> \{\s*delay = ([-0-9.]+)ms;\s*\} <--> node\[(\d+)\]\.peer\+\+;`)
)

func (w *eworld) judge(m *ECmd, r *outcome, op *operator, bin string, listBad, topoBad bool) {
	if m.Args != nil && len(m.Args) > 0 && m.Args[0] == "--" {
		m.Args = m.Args[1:]
	}
	needTopo := m.Ping || m.Run
	n := len(w.srv)
	act := 0
	for _, o := range w.ops {
		if o.kind != "connect" {
			act++
		}
	}
	// what happened must be right, however the command ended
	port := w.safety(m)
	if w.s.Violation != nil || r.killed {
		return
	}
	if listBad {
		if r.ok() || act > 0 || len(w.ops) > 0 || strings.TrimSpace(r.out) == "" {
			w.bad("bad-input", "the server list cannot be read, yet the tool exits %d, having carried out %d actions, saying %q", r.p.Code, act, r.out)
		}
		return
	}
	if w.badc {
		w.s.Probe("connection_refused")
		if r.ok() {
			w.bad("connect-error-lost", "a connection failed and the tool exits 0: %q", r.out)
		} else if act > 0 {
			w.bad("acts-without-all", "a connection failed, yet the tool acted on servers (%d actions)", act)
		} else if !strings.Contains(r.out, "refused") && !strings.Contains(r.out, "authenticate") {
			w.bad("connect-error-lost", "a connection failed and the tool does not say so: %q", r.out)
		}
		return
	}
	conn := make([]int, n)
	for _, o := range w.ops {
		if o.kind == "connect" && o.done {
			conn[o.srv]++
		}
		if !o.ended {
			w.bad("abandoned", "the tool ended while %s on server %d was under way", o.kind, o.srv)
			return
		}
	}
	for i, k := range conn {
		if k != 1 {
			w.bad("connections", "the tool connected %d times to server %d", k, i)
			return
		}
	}
	if topoBad && needTopo {
		if r.ok() || strings.TrimSpace(r.out) == "" {
			w.bad("bad-input", "the topology cannot be read, yet the tool exits %d saying %q", r.p.Code, r.out)
		}
		for _, o := range w.ops {
			if o.kind == "ping" || o.kind == "start" || o.kind == "down" {
				w.bad("bad-input", "the topology cannot be read, yet the tool goes on with %s on server %d", o.kind, o.srv)
				return
			}
		}
		if !m.Install {
			return
		}
	} else if !r.ok() {
		w.bad("exit-status", "the tool exits %d: %q", r.p.Code, r.out)
		return
	}
	// reports
	lines := make([]int, n)
	for _, l := range strings.Split(r.out, "\n") {
		if x := reErrSrv.FindStringSubmatch(l); x != nil {
			k, _ := strconv.Atoi(x[1])
			if k >= n {
				w.bad("false-report", "an error is reported for server %d, which does not exist: %q", k, l)
				return
			}
			lines[k]++
		}
	}
	undone := make([]int, n)
	first := make([]string, n)
	miss := func(i int, what string) {
		undone[i]++
		if first[i] == "" {
			first[i] = what
		}
	}
	topoOK := !topoBad
	if m.Install {
		for i, sv := range w.srv {
			good := false
			for _, o := range w.ops {
				if o.srv == i && o.kind == "up" && o.done {
					good = true
				}
			}
			if !good || sv.binary != bin {
				miss(i, "the program was not installed")
			}
		}
	}
	if m.Ping && topoOK {
		got := map[string]int{}
		for _, x := range reNed.FindAllStringSubmatch(r.out, -1) {
			got[x[1]+" "+x[3]+" "+x[2]]++
		}
		want := map[string]int{}
		for _, e := range w.c.Edges {
			k := w.pingKey(e)
			want[k]++
		}
		for k, g := range got {
			if g > want[k] {
				var ks []string
				for x := range want {
					ks = append(ks, x)
				}
				sort.Strings(ks)
				w.bad("wrong-latency", "the tool reports link (from, to, delay) %q %d times; expected lines: %q", k, g, ks)
				return
			}
		}
		for i := range w.srv {
			for _, e := range w.c.Edges {
				if k := w.pingKey(e); e[0] == i && got[k] < want[k] {
					miss(i, fmt.Sprintf("the latency of link %d-%d was not reported", e[0], e[1]))
					break
				}
			}
		}
	}
	if m.Run && topoOK {
		for i, sv := range w.srv {
			good := 0
			var nd *rnode
			for _, o := range w.ops {
				if o.srv == i && o.kind == "start" && o.node != nil {
					good++
					nd = o.node
				}
			}
			if good > 1 {
				w.bad("twice", "server %d: the node was started %d times", i, good)
				return
			}
			if good == 1 && !m.Dl && sv.node != nd {
				miss(i, "the node does not run any more")
			}
			if good == 0 {
				miss(i, "no node was started")
			} else if sv.firewall || !sv.bbr {
				w.bad("not-prepared", "server %d: node started with firewall=%v, congestion control bbr=%v", i, sv.firewall, sv.bbr)
				return
			}
		}
	}
	_ = port
	if m.Dl && topoOK || m.Dl && !needTopo {
		for i, sv := range w.srv {
			name := fmt.Sprintf("res%d-%d", w.cmd, i)
			f := op.files[name]
			good := false
			for _, o := range w.ops {
				if o.srv == i && o.kind == "down" && o.done {
					good = true
				}
			}
			if !good {
				miss(i, "the log was not downloaded")
			} else if f == nil {
				miss(i, "the log is not in "+name)
			} else if sv.node != nil || string(f.Data) != sv.fileLog {
				miss(i, fmt.Sprintf("the file %s holds %q, the server's log is %q (node running: %v)", name, f.Data, sv.fileLog, sv.node != nil))
			}
		}
	}
	for i := range w.srv {
		switch {
		case lines[i] < undone[i] && w.fail[i] > 0:
			w.bad("failure-lost", "server %d: %s; %d failures occurred there, %d phases were not carried out, %d are reported: %q", i, first[i], w.fail[i], undone[i], lines[i], r.out)
			return
		case undone[i] > 0 && w.fail[i] == 0:
			w.bad("not-done", "server %d: %s, and nothing had failed there; output: %q", i, first[i], r.out)
			return
		case lines[i] > w.fail[i]:
			w.bad("false-report", "server %d: %d failures occurred, %d are reported: %q", i, w.fail[i], lines[i], r.out)
			return
		}
		if undone[i] > 0 {
			w.s.Probe("reported_failure")
		}
	}
	w.order(m)
	w.s.Probe("judged")
}

func (w *eworld) pingKey(e [2]int) string {
	to := e[1]
	for _, x := range w.srv {
		if x.c.IP == w.srv[to].c.IP {
			to = x.i
			break
		}
	}
	return fmt.Sprintf("%d %d %s", e[0], e[1], fmt.Sprintf("%.1f", float64(int64(w.rtt(e[0], to)*1000+0.5))/1000/2))
}

// safety checks what the tool did, however it ended.
func (w *eworld) safety(m *ECmd) string {
	port := ""
	for _, o := range w.ops {
		sv := w.srv[o.srv]
		okPhase := map[string]bool{"connect": true, "kill": m.Install || m.Run || m.Dl, "up": m.Install, "ping": m.Ping, "start": m.Run, "down": m.Dl, "open": true, "other": true}
		if !okPhase[o.kind] {
			w.bad("unasked", "server %d: %s although the command did not ask for it", o.srv, o.kind)
			return ""
		}
		switch o.kind {
		case "up":
			if o.busy && w.fail[o.srv] <= 1 && !w.lostKill(o.srv) {
				w.bad("copy-over-running", "server %d: the program is copied while a node is running", o.srv)
				return ""
			}
		case "down":
			if o.busy && o.done && !w.lostKill(o.srv) {
				w.bad("partial-log", "server %d: the log is downloaded while the node is running", o.srv)
				return ""
			}
			if p := strings.Fields(o.detail); len(p) > 1 && p[1] != fmt.Sprintf("res%d-%d", w.cmd, o.srv) {
				w.bad("wrong-file", "server %d: the log goes to %s", o.srv, p[1])
				return ""
			}
		case "ping":
			found := false
			for _, e := range w.c.Edges {
				if e[0] == o.srv && o.to >= 0 && w.srv[e[1]].c.IP == w.srv[o.to].c.IP {
					found = true
				}
			}
			if o.to >= 0 && !found {
				w.bad("wrong-link", "server %d pings server %d, the topology has no such link", o.srv, o.to)
				return ""
			}
		case "start":
			nd := o.node
			if nd == nil {
				if o.done {
					w.bad("start-command", "server %d: the command does not start a node: %q", o.srv, o.detail)
				}
				continue
			}
			i := strings.LastIndexByte(nd.addr, ':')
			if i < 0 {
				w.bad("listen", "server %d: the node listens on %q", o.srv, nd.addr)
				return ""
			}
			host, pt := nd.addr[:i], nd.addr[i+1:]
			k, err := strconv.Atoi(pt)
			if err != nil || k < 1024 || k > 65535 || host != "0.0.0.0" && host != "" && host != "[::]" {
				w.bad("listen", "server %d: the node listens on %q", o.srv, nd.addr)
				return ""
			}
			if port == "" {
				port = pt
			} else if port != pt {
				w.bad("ports-differ", "server %d: the node listens on port %s, others on %s", o.srv, pt, port)
				return ""
			}
			want := map[string]int{}
			nw := 0
			for _, e := range w.c.Edges {
				if e[0] == o.srv {
					want[w.srv[e[1]].c.IP+":"+pt]++
					nw++
				}
			}
			ng := 0
			for _, x := range nd.peers {
				if x == "" {
					continue
				}
				ng++
				want[x]--
			}
			for x, k := range want {
				if k != 0 || ng != nw {
					w.bad("wrong-peers", "server %d: the node's peers are %v (port %s), the topology gives %d of them (%s off by %d)", o.srv, nd.peers, pt, nw, x, k)
					return ""
				}
			}
			a := m.Args
			if len(a) > 0 && a[0] == "--" {
				a = a[1:]
			}
			if strings.Join(nd.args, " ") != strings.Join(a, " ") {
				w.bad("wrong-arguments", "server %d: the node gets the arguments %q instead of %q", o.srv, nd.args, a)
				return ""
			}
		}
		_ = sv
	}
	return port
}

// lostKill tells whether a request to stop the node failed on server i, which
// leaves it running (the failure must then be reported, which judge checks).
func (w *eworld) lostKill(i int) bool {
	for _, o := range w.ops {
		if o.srv == i && o.kind == "kill" && o.fault == "drop-before" {
			return true
		}
	}
	return false
}

// order checks the phases: one after the other for all servers, the servers of
// a phase side by side.
func (w *eworld) order(m *ECmd) {
	phase := map[string]int{"up": 0, "ping": 1, "start": 2, "down": 3}
	name := []string{"install", "ping", "run", "download"}
	var lo, hi [4]int64
	var any [4]bool
	conn := int64(0)
	for _, o := range w.ops {
		if o.kind == "connect" {
			conn = max(conn, o.t1)
			continue
		}
		k, ok := phase[o.kind]
		if !ok {
			continue
		}
		if !any[k] || o.t0 < lo[k] {
			lo[k] = o.t0
		}
		hi[k] = max(hi[k], o.t1)
		any[k] = true
	}
	last, lastName := conn, "connect"
	for k := 0; k < 4; k++ {
		if !any[k] {
			continue
		}
		if lo[k] < last {
			w.bad("phase-order", "the %s phase starts at %v, before the %s phase has ended everywhere (%v)", name[k], simDur(lo[k]), lastName, simDur(last))
			return
		}
		// a slow or failing server does not hold up the others
		for _, o := range w.ops {
			if o.t1 <= lo[k] {
				last = max(last, o.t1)
			}
		}
		for _, o := range w.ops {
			if phase[o.kind] != k || o.kind == "connect" || o.kind == "kill" || o.kind == "open" || o.kind == "other" {
				continue
			}
			own := false
			for _, f := range w.c.Faults {
				if f.Srv == o.srv {
					own = true
				}
			}
			edges := int64(0)
			for _, e := range w.c.Edges {
				if e[0] == o.srv {
					edges++
				}
			}
			sv := w.srv[o.srv]
			lim := last + 8*(2+edges)*2*sv.c.LatMs*1e6 + (sv.c.KillS+edges*31+20)*sec
			if !own && o.t1 > lim {
				w.bad("held-up", "server %d: the %s phase takes until %v although nothing is wrong with it (the phase could start at %v)", o.srv, name[k], simDur(o.t1), simDur(last))
				return
			}
		}
		last, lastName = hi[k], name[k]
	}
}
