// Command testbed decides the properties of the test-bed tooling: the real
// command-line tool runs as a simulated process against simulated servers
// reached over SSH and scp (C29) and simulated cloud providers reached over HTTP
// through the providers' real client libraries (C33).
package main

import (
	"encoding/json"
	"fmt"
	"math/rand"
	"os"
	"sort"
	"strings"

	tool "github.com/yangl1996/rateless-set-reconcile/testbed"

	"verif/harness/core"
	"verif/simrt"
)

type suite struct{}

func pick[T any](r *rand.Rand, xs ...T) T { return xs[r.Intn(len(xs))] }

// Run holds the scheduling of one execution.
type Run struct {
	Acc  int64 `json:"acc,omitempty"`  // preempt at every n-th access to memory
	Loop int64 `json:"loop,omitempty"` // preempt at every n-th loop iteration
}

const sec = int64(1e9)
const home = "/home/op"

// operator is the person at the keyboard: a machine whose files survive from
// one command to the next.
type operator struct {
	s     *simrt.Sim
	prop  string
	files map[string]*simrt.MemFile
	n     int
}

// outcome of one command.
type outcome struct {
	p       *simrt.Proc
	out     string
	killed  bool
	started int64
	ended   int64
}

// command runs the tool once. killAt is the time after which the operator
// interrupts it, 0: never.
func (o *operator) command(args []string, seed int64, stdin string, disk *simrt.Disk, killAt int64) *outcome {
	s := o.s
	o.n++
	p := s.NewProc(fmt.Sprintf("tool%d", o.n), args, seed)
	p.Env = map[string]string{"HOME": home, "VULTR_KEY": "vultrkey"}
	p.Stdin = stdin
	p.FS = disk
	for n, f := range o.files {
		p.AddFile(n, f.Data)
	}
	r := &outcome{p: p, started: s.Now()}
	s.OnStep = func() {
		if p.Dead {
			s.Stop("command ended")
		}
	}
	if killAt > 0 {
		s.After(killAt, func() {
			if !p.Dead {
				s.FaultN["tool_interrupted"]++
				r.killed = true
				p.Kill()
			}
		})
	}
	s.Tracef("$ testbed %s", strings.Join(args, " "))
	p.Start("main", func() {
		tool.Main()
		simrt.OsExit(0)
	})
	s.Run(s.Now() + 48*3600*sec)
	r.ended = s.Now()
	r.out = p.Stdout.String()
	if s.Violation == nil && s.StopWhy == "steps" {
		s.Fail(o.prop, "hang", "testbed %s never ends: it is still busy after %d steps", strings.Join(args, " "), s.Steps)
	}
	if s.Violation == nil {
		if p.Crash != nil && !strings.HasPrefix(p.Crash.Msg, "os.Exit") {
			s.Fail(o.prop, "crash", "testbed %s crashed: %s %s", strings.Join(args, " "), p.Crash.String(), p.Crash.Stack)
		} else if !p.Dead {
			var why []string
			for _, t := range p.Tasks() {
				why = append(why, t.Name+": "+t.Why())
			}
			sort.Strings(why)
			s.Fail(o.prop, "hang", "testbed %s never ends; waiting: %s", strings.Join(args, " "), strings.Join(why, ", "))
		}
	}
	if s.TraceOn {
		for _, l := range strings.Split(strings.TrimRight(r.out, "\n"), "\n") {
			s.Tracef("  > %s", l)
		}
		s.Tracef("  exit %d killed=%v", p.Code, r.killed)
	}
	if s.Violation != nil {
		return r
	}
	s.Stopped = false
	s.OnStep = nil
	// what the interrupted or ended process left is cleaned up
	s.Run(s.Now() + sec/10)
	o.files = map[string]*simrt.MemFile{}
	for n, f := range p.Files() {
		o.files[n] = f
	}
	return r
}

func (r *outcome) ok() bool { return r.p.Code == 0 }

func (suite) Gen(prop string, seed int64, tier string) *core.Plan {
	r := rand.New(rand.NewSource(seed))
	p := &core.Plan{Property: prop, Seed: seed}
	p.Sched = simrt.SchedConfig{Seed: seed, Mode: pick(r, "random", "random", "random", "pct", "fifo"), YieldPerMille: pick(r, 50, 300, 1000), Changes: 5}
	switch prop {
	case "C29":
		genExp(p, r, tier != "quick")
	case "C33":
		genCloud(p, r, tier != "quick")
	default:
		panic("unknown property " + prop)
	}
	return p
}

func (suite) Exec(p *core.Plan, trace bool) *core.Result {
	s := simrt.New(p.Sched)
	defer s.Close()
	s.TraceOn = trace
	s.MaxSteps = 3_000_000
	s.SpinMax = 300_000
	s.Spin = func(t *simrt.Task) {
		s.Fail(p.Property, "livelock", "%d steps without any time passing; task %s is one that keeps running", s.SpinMax, t.Name)
	}
	s.RaceProp = p.Property
	s.EnableRace()
	res := &core.Result{}
	switch p.Property {
	case "C29":
		execExp(s, p, res)
	case "C33":
		execCloud(s, p, res)
	}
	core.Collect(s, res)
	return res
}

// Shrink removes elements of the lists of the configuration and zeroes its
// numbers, one at a time; the result is made consistent before it is run.
func (suite) Shrink(p *core.Plan) []*core.Plan {
	var root any
	if json.Unmarshal(p.Cfg, &root) != nil {
		return nil
	}
	var out []*core.Plan
	emit := func() {
		b, _ := json.Marshal(root)
		q := *p
		q.Cfg = b
		if fixup(&q) && string(q.Cfg) != string(p.Cfg) {
			out = append(out, &q)
		}
	}
	var walk func(v any, set func(any))
	walk = func(v any, set func(any)) {
		switch x := v.(type) {
		case []any:
			for n := len(x); n >= 1; n /= 2 {
				for i := 0; i+n <= len(x); i += n {
					set(append(append([]any{}, x[:i]...), x[i+n:]...))
					emit()
				}
				set(x)
				if n == 1 {
					break
				}
			}
			for i := range x {
				i := i
				walk(x[i], func(y any) { x[i] = y })
			}
		case map[string]any:
			var ks []string
			for k := range x {
				ks = append(ks, k)
			}
			sort.Strings(ks)
			for _, k := range ks {
				k := k
				walk(x[k], func(y any) { x[k] = y })
			}
		case float64:
			if x != 0 {
				set(float64(0))
				emit()
				set(x)
			}
		case bool:
			if x {
				set(false)
				emit()
				set(x)
			}
		}
	}
	walk(root, func(y any) { root = y })
	if len(out) > 400 {
		out = out[:400]
	}
	return out
}

func fixup(p *core.Plan) bool {
	switch p.Property {
	case "C29":
		return fixExp(p)
	case "C33":
		return fixCloud(p)
	}
	return false
}

func (suite) Describe(prop string) core.Info {
	i := core.Info{
		Real: []string{"testbed/*.go (all of it: main, cluster, exp, sshutil, vultr, aws), rewritten only at its sources of nondeterminism"},
	}
	switch prop {
	case "C29":
		i.Rule = "a run counts when at least one remote action was carried out on at least two servers"
		i.Real = append(i.Real, "key parsing of golang.org/x/crypto/ssh, encoding/json, flag")
		i.Stub = []string{"SSH transport, sessions and remote shells (simx/ssh, harness/testbed/exp.go)", "scp (simx/exec)", "the operator's disk", "remote machines: running node, binary, log, firewall"}
		i.Assumptions = []string{"killall -w returns only when the process has gone; scp cannot overwrite a running binary", "topology files are valid: indices within the server list"}
	case "C33":
		i.Rule = "a run counts when at least one server was created, stopped, restarted or listed"
		i.Real = append(i.Real, "github.com/vultr/govultr and hashicorp/go-retryablehttp (rewritten like the repository: map order and retry delays are simulated)", "github.com/aws/aws-sdk-go (unmodified; its retry delay is simulated)", "net/http client above the transport")
		i.Stub = []string{"HTTP transport and the providers' services (Vultr v1 API, EC2 query API with pagination and idempotency tokens, Ubuntu image list)", "the operator's disk, terminal and environment"}
		i.Assumptions = []string{"nobody else changes the account while a command runs", "an account has at most one SSH key and one security group of the test bed per region, and every region has a VPC", "Vultr's create call is not idempotent; its responses are not lost"}
	}
	return i
}

func main() {
	setupKeys()
	setupCloud()
	core.Main(suite{})
}

func init() {
	for _, e := range os.Environ() {
		if k, _, _ := strings.Cut(e, "="); strings.HasPrefix(k, "AWS_") || strings.HasSuffix(strings.ToLower(k), "_proxy") {
			os.Unsetenv(k)
		}
	}
}
