// Package core runs seeded simulations in parallel worker processes, minimises
// and replays violations, and writes evidence.
package core

import (
	"bufio"
	"bytes"
	"context"
	"encoding/json"
	"flag"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"

	"verif/simrt"
)

// Plan fully determines one simulated execution.
type Plan struct {
	Property string            `json:"property"`
	Scenario string            `json:"scenario"`
	Seed     int64             `json:"seed"`
	Sched    simrt.SchedConfig `json:"sched"`
	Cfg      json.RawMessage   `json:"config"`
}

// Result is what one execution produced.
type Result struct {
	Violation  *simrt.Violation `json:"violation,omitempty"`
	LogHash    uint64           `json:"log_hash"`
	Steps      int64            `json:"steps"`
	Decisions  int64            `json:"decisions"`
	Deviations int64            `json:"deviations"`
	SimNs      int64            `json:"sim_ns"`
	Faults     map[string]int64 `json:"faults,omitempty"`
	Probes     map[string]int64 `json:"probes,omitempty"`
	NonTrivial bool             `json:"nontrivial"`
	Err        string           `json:"err,omitempty"`
	Trace      []string         `json:"trace,omitempty"`
}

// Suite is a family of simulations deciding one or more properties.
type Suite interface {
	Gen(prop string, seed int64, tier string) *Plan
	Exec(p *Plan, trace bool) *Result
	// Shrink lists simpler variants of a failing plan, boldest first.
	Shrink(p *Plan) []*Plan
	// Describe gives the evidence texts of a property.
	Describe(prop string) Info
}

// Info are the constant texts of the evidence of a property.
type Info struct {
	Rule        string
	Real        []string
	Stub        []string
	Assumptions []string
}

// Replay is the file written for a violation.
type Replay struct {
	Plan      *Plan            `json:"plan"`
	Violation *simrt.Violation `json:"violation"`
	LogHash   uint64           `json:"log_hash"`
	Original  *Plan            `json:"original_plan,omitempty"`
	Trace     []string         `json:"trace,omitempty"`
}

// Collect copies the figures of a finished simulation into a result.
func Collect(s *simrt.Sim, r *Result) {
	r.Violation = s.Violation
	r.LogHash = s.LogHash
	r.Steps = s.Steps
	r.Decisions = s.Decisions()
	r.Deviations = s.Deviations
	r.SimNs += s.Now()
	if r.Faults == nil {
		r.Faults = map[string]int64{}
	}
	if r.Probes == nil {
		r.Probes = map[string]int64{}
	}
	for k, v := range s.FaultN {
		r.Faults[k] += v
	}
	for k, v := range s.Probes {
		r.Probes[k] += v
	}
	r.Trace = s.Trace
}

func mix(a, b uint64) uint64 {
	h := a*0x9E3779B97F4A7C15 + b
	h ^= h >> 29
	h *= 0xBF58476D1CE4E5B9
	h ^= h >> 32
	h *= 0x94D049BB133111EB
	h ^= h >> 29
	return h
}

// SeedFor derives the seed of the i-th run.
func SeedFor(base int64, prop string, i int64) int64 {
	h := uint64(1469598103934665603)
	for _, c := range []byte(prop) {
		h = (h ^ uint64(c)) * 1099511628211
	}
	return int64(mix(mix(uint64(base), h), uint64(i)) >> 2)
}

type stats struct {
	Runs       int64            `json:"runs"`
	NonTrivial int64            `json:"nontrivial"`
	Steps      int64            `json:"steps"`
	Decisions  int64            `json:"decisions"`
	SimNs      int64            `json:"sim_ns"`
	Faults     map[string]int64 `json:"faults"`
	Probes     map[string]int64 `json:"probes"`
	Hashes     []uint64         `json:"hashes"`
	NTHashes   []uint64         `json:"nthashes"`
	Rechecked  int64            `json:"rechecked"`
	Scenarios  map[string]int64 `json:"scenarios"`
	Samples    []sample         `json:"samples"`
}

type sample struct {
	Plan   *Plan  `json:"plan"`
	Result string `json:"result"`
}

type msg struct {
	Kind   string  `json:"kind"` // stats, violation, error
	Stats  *stats  `json:"stats,omitempty"`
	Plan   *Plan   `json:"plan,omitempty"`
	Result *Result `json:"result,omitempty"`
	Err    string  `json:"err,omitempty"`
}

func safeExec(su Suite, p *Plan, trace bool) (r *Result) {
	defer func() {
		if e := recover(); e != nil {
			r = &Result{Err: fmt.Sprintf("harness panic: %v\n%s", e, debug.Stack())}
		}
	}()
	simrt.ResetHookDepth()
	return su.Exec(p, trace)
}

// Main is the entry point of a harness binary.
func Main(su Suite) {
	debug.SetGCPercent(300)
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: harness check|worker|exec|minimise|replay|determinism ...")
		os.Exit(2)
	}
	fs := flag.NewFlagSet("harness", flag.ExitOnError)
	prop := fs.String("prop", "", "property")
	tier := fs.String("tier", "quick", "tier")
	seed := fs.Int64("seed", 1, "base seed")
	budget := fs.Float64("budget", 30, "seconds of search")
	workers := fs.Int("workers", runtime.NumCPU(), "worker processes")
	outDir := fs.String("out", "/verif/out", "directory of replay files")
	evid := fs.String("evidence", "", "evidence file")
	known := fs.String("known", "", "known findings file")
	idx := fs.Int64("i", 0, "worker index")
	n := fs.Int64("n", 0, "runs (determinism), or maximal runs")
	file := fs.String("file", "", "plan or replay file")
	trace := fs.Bool("trace", false, "print the trace")
	fs.Parse(os.Args[2:])
	switch os.Args[1] {
	case "check":
		os.Exit(check(su, *prop, *tier, *seed, *budget, *workers, *outDir, *evid, *known))
	case "worker":
		worker(su, *prop, *tier, *seed, *budget, *idx, int64(*workers))
	case "exec":
		p := readPlan(*file)
		r := safeExec(su, p, *trace)
		json.NewEncoder(os.Stdout).Encode(r)
	case "minimise":
		minimise(su, readPlan(*file), *budget)
	case "replay":
		os.Exit(replay(su, *file, *trace))
	case "gen":
		for i := int64(0); i < *n; i++ {
			p := su.Gen(*prop, SeedFor(*seed, *prop, i), *tier)
			json.NewEncoder(os.Stdout).Encode(p)
		}
	case "determinism":
		for i := *idx; i < *idx+*n; i++ {
			p := su.Gen(*prop, SeedFor(*seed, *prop, i), *tier)
			r := safeExec(su, p, false)
			v := "-"
			if r.Violation != nil {
				v = r.Violation.Class + ":" + r.Violation.Msg
			}
			fmt.Printf("%d %d %x %d %d %s %s\n", i, p.Seed, r.LogHash, r.Steps, r.Decisions, v, r.Err)
		}
	case "one":
		p := su.Gen(*prop, SeedFor(*seed, *prop, *idx), *tier)
		b, _ := json.Marshal(p)
		fmt.Println(string(b))
		t0 := time.Now()
		r := safeExec(su, p, *trace)
		for _, l := range r.Trace {
			fmt.Println(l)
		}
		r.Trace = nil
		b, _ = json.MarshalIndent(r, "", " ")
		fmt.Println(string(b), time.Since(t0))
	default:
		fmt.Fprintln(os.Stderr, "unknown command", os.Args[1])
		os.Exit(2)
	}
}

func readPlan(f string) *Plan {
	b, err := os.ReadFile(f)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	p := &Plan{}
	var rp Replay
	if json.Unmarshal(b, &rp) == nil && rp.Plan != nil {
		return rp.Plan
	}
	if err := json.Unmarshal(b, p); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	return p
}

// RunTimeout is how long a single execution may take in real time before the
// worker gives up on it (an error of the check, not a verdict).
var RunTimeout = 240 * time.Second

func worker(su Suite, prop, tier string, seed int64, budget float64, idx, n int64) {
	start := time.Now()
	enc := json.NewEncoder(os.Stdout)
	st := &stats{Faults: map[string]int64{}, Probes: map[string]int64{}, Scenarios: map[string]int64{}}
	seen := map[uint64]bool{}
	ntSeen := map[uint64]bool{}
	var mu sync.Mutex
	var cur *Plan
	var curStart time.Time
	go func() {
		for {
			time.Sleep(time.Second)
			mu.Lock()
			if cur != nil && time.Since(curStart) > RunTimeout {
				enc.Encode(msg{Kind: "error", Err: fmt.Sprintf("run with seed %d (%s) did not finish in %v", cur.Seed, cur.Scenario, RunTimeout), Plan: cur})
				os.Exit(3)
			}
			mu.Unlock()
		}
	}()
	for i := idx; ; i += n {
		if time.Since(start).Seconds() > budget && i != idx {
			break
		}
		p := su.Gen(prop, SeedFor(seed, prop, i), tier)
		mu.Lock()
		cur, curStart = p, time.Now()
		mu.Unlock()
		r := safeExec(su, p, false)
		mu.Lock()
		cur = nil
		mu.Unlock()
		if r.Err != "" {
			enc.Encode(msg{Kind: "error", Err: r.Err, Plan: p})
			break
		}
		st.Runs++
		st.Steps += r.Steps
		st.Decisions += r.Decisions
		st.SimNs += r.SimNs
		st.Scenarios[p.Scenario]++
		for k, v := range r.Faults {
			st.Faults[k] += v
		}
		for k, v := range r.Probes {
			st.Probes[k] += v
		}
		if len(seen) < 200000 {
			seen[r.LogHash] = true
			if r.NonTrivial {
				ntSeen[r.LogHash] = true
			}
		}
		if r.NonTrivial {
			st.NonTrivial++
		}
		if len(st.Samples) < 1 && r.NonTrivial {
			st.Samples = append(st.Samples, sample{p, fmt.Sprintf("steps=%d decisions=%d simulated_ms=%d faults=%v probes=%v violation=%v", r.Steps, r.Decisions, r.SimNs/1e6, r.Faults, r.Probes, r.Violation != nil)})
		}
		if r.Violation != nil {
			enc.Encode(msg{Kind: "violation", Plan: p, Result: r})
		}
		if st.Runs%97 == 3 {
			// the same plan must give the same execution
			r2 := safeExec(su, p, false)
			st.Rechecked++
			if r2.LogHash != r.LogHash || r2.Steps != r.Steps {
				enc.Encode(msg{Kind: "nondet", Err: fmt.Sprintf("seed %d (%s) is not deterministic: %x/%d vs %x/%d", p.Seed, p.Scenario, r.LogHash, r.Steps, r2.LogHash, r2.Steps), Plan: p})
			}
		}
	}
	for h := range seen {
		st.Hashes = append(st.Hashes, h)
	}
	for h := range ntSeen {
		st.NTHashes = append(st.NTHashes, h)
	}
	enc.Encode(msg{Kind: "stats", Stats: st})
}

func same(a, b *simrt.Violation) bool {
	return a != nil && b != nil && a.Property == b.Property && a.Class == b.Class
}

// minimise prints ever simpler plans that still show the violation.
func minimise(su Suite, p *Plan, budget float64) {
	end := time.Now().Add(time.Duration(budget * float64(time.Second)))
	enc := json.NewEncoder(os.Stdout)
	base := safeExec(su, p, false)
	if base.Violation == nil {
		return
	}
	best := p
	enc.Encode(msg{Kind: "best", Plan: best, Result: base})
	try := func(c *Plan) bool {
		if time.Now().After(end) {
			return false
		}
		r := safeExec(su, c, false)
		if r.Err == "" && same(r.Violation, base.Violation) {
			best = c
			enc.Encode(msg{Kind: "best", Plan: c, Result: r})
			return true
		}
		return false
	}
	// schedule: no deviations at all, then a window of them
	sched := func() {
		if best.Sched.Mode != "fifo" {
			c := *best
			c.Sched.Mode = "fifo"
			if try(&c) {
				return
			}
		}
		if best.Sched.Mode == "fifo" {
			return
		}
		r := safeExec(su, best, false)
		hi := r.Decisions + 1
		if best.Sched.To > 0 && best.Sched.To < hi {
			hi = best.Sched.To
		}
		lo := best.Sched.From
		for step := (hi - lo) / 2; step > 0 && time.Now().Before(end); step /= 2 {
			for hi-step > lo {
				c := *best
				c.Sched.To = hi - step
				if !try(&c) {
					break
				}
				hi -= step
			}
			for lo+step < hi {
				c := *best
				c.Sched.From = lo + step
				if !try(&c) {
					break
				}
				lo += step
			}
		}
	}
	for round := 0; round < 6 && time.Now().Before(end); round++ {
		progress := false
		cands := su.Shrink(best)
		for i := 0; i < len(cands) && time.Now().Before(end); i++ {
			if try(cands[i]) {
				progress = true
				cands = su.Shrink(best)
				i = -1
				if len(cands) == 0 {
					break
				}
			}
		}
		if round == 0 {
			sched()
		}
		if !progress {
			break
		}
	}
}

func replay(su Suite, file string, trace bool) int {
	b, err := os.ReadFile(file)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	var rp Replay
	if err := json.Unmarshal(b, &rp); err != nil || rp.Plan == nil {
		fmt.Fprintln(os.Stderr, "not a replay file:", err)
		return 2
	}
	r := safeExec(su, rp.Plan, true)
	if r.Err != "" {
		fmt.Fprintln(os.Stderr, r.Err)
		return 2
	}
	if trace {
		for _, l := range r.Trace {
			fmt.Println(l)
		}
	}
	if r.Violation == nil {
		fmt.Println("replay: no violation on this tree")
		return 0
	}
	exact := rp.Violation != nil && *rp.Violation == *r.Violation && rp.LogHash == r.LogHash
	fmt.Printf("replay: %s at %s: %s\nidentical to the recorded execution: %v\n", r.Violation.Class, time.Duration(r.Violation.At), r.Violation.Msg, exact)
	fmt.Printf("VIOLATION property=%s replay=%s\n", r.Violation.Property, file)
	return 1
}

type knownFinding struct{ prop, class, match, text string }

func readKnown(f string) []knownFinding {
	var out []knownFinding
	b, err := os.ReadFile(f)
	if err != nil {
		return nil
	}
	for _, l := range strings.Split(string(b), "\n") {
		if !strings.HasPrefix(l, "known:") {
			continue
		}
		k := knownFinding{text: strings.TrimSpace(strings.TrimPrefix(l, "known:"))}
		for _, w := range strings.Fields(l) {
			if v, ok := strings.CutPrefix(w, "property="); ok {
				k.prop = v
			}
			if v, ok := strings.CutPrefix(w, "class="); ok {
				k.class = v
			}
			if v, ok := strings.CutPrefix(w, "match="); ok {
				k.match = v
			}
		}
		out = append(out, k)
	}
	return out
}

func check(su Suite, prop, tier string, seed int64, budget float64, workers int, outDir, evid, known string) int {
	start := time.Now()
	self, _ := os.Executable()
	tmp, err := os.MkdirTemp("", "simcheck")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	defer os.RemoveAll(tmp)
	kf := readKnown(known)
	isKnown := func(v *simrt.Violation) *knownFinding {
		for i := range kf {
			k := &kf[i]
			if k.prop == v.Property && k.class == v.Class && (k.match == "" || strings.Contains(strings.ReplaceAll(v.Msg, " ", "_"), k.match)) {
				return k
			}
		}
		return nil
	}
	var mu sync.Mutex
	tot := &stats{Faults: map[string]int64{}, Probes: map[string]int64{}, Scenarios: map[string]int64{}}
	all := map[uint64]bool{}
	ntAll := map[uint64]bool{}
	var viols []msg
	var errs, nondet []string
	knownHit := map[string]bool{}
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	var wg sync.WaitGroup
	for w := 0; w < workers; w++ {
		wg.Add(1)
		go func(w int) {
			defer wg.Done()
			cmd := exec.CommandContext(ctx, self, "worker", "-prop", prop, "-tier", tier, "-seed", strconv.FormatInt(seed, 10), "-budget", fmt.Sprint(budget), "-i", strconv.Itoa(w), "-workers", strconv.Itoa(workers))
			cmd.Env = append(os.Environ(), "GOMAXPROCS=2")
			var serr bytes.Buffer
			cmd.Stderr = &serr
			out, err := cmd.StdoutPipe()
			if err == nil {
				err = cmd.Start()
			}
			if err != nil {
				mu.Lock()
				errs = append(errs, err.Error())
				mu.Unlock()
				return
			}
			rd := bufio.NewReaderSize(out, 1<<20)
			got := false
			for {
				line, e := rd.ReadBytes('\n')
				if len(line) > 0 {
					var m msg
					if je := json.Unmarshal(line, &m); je == nil {
						mu.Lock()
						switch m.Kind {
						case "stats":
							got = true
							st := m.Stats
							tot.Runs += st.Runs
							tot.NonTrivial += st.NonTrivial
							tot.Steps += st.Steps
							tot.Decisions += st.Decisions
							tot.SimNs += st.SimNs
							tot.Rechecked += st.Rechecked
							for k, v := range st.Faults {
								tot.Faults[k] += v
							}
							for k, v := range st.Probes {
								tot.Probes[k] += v
							}
							for k, v := range st.Scenarios {
								tot.Scenarios[k] += v
							}
							for _, h := range st.Hashes {
								all[h] = true
							}
							for _, h := range st.NTHashes {
								ntAll[h] = true
							}
							tot.Samples = append(tot.Samples, st.Samples...)
						case "violation":
							if k := isKnown(m.Result.Violation); k != nil {
								knownHit[k.text] = true
							} else {
								viols = append(viols, m)
								cancel()
							}
						case "error":
							errs = append(errs, m.Err)
						case "nondet":
							nondet = append(nondet, m.Err)
						}
						mu.Unlock()
					}
				}
				if e != nil {
					if e != io.EOF && ctx.Err() == nil {
						mu.Lock()
						errs = append(errs, e.Error())
						mu.Unlock()
					}
					break
				}
			}
			werr := cmd.Wait()
			if !got && ctx.Err() == nil {
				mu.Lock()
				t := serr.String()
				if len(t) > 3000 {
					t = t[:3000]
				}
				errs = append(errs, fmt.Sprintf("worker %d ended without a report: %v\n%s", w, werr, t))
				mu.Unlock()
			}
		}(w)
	}
	wg.Wait()
	searchWall := time.Since(start).Seconds()
	code := 0
	nviol := 0
	if len(viols) > 0 {
		sort.Slice(viols, func(i, j int) bool { return viols[i].Plan.Seed < viols[j].Plan.Seed })
		done := false
		for i := 0; i < len(viols) && i < 3 && !done; i++ {
			path, rep, ok := report(self, tmp, outDir, viols[i], tier)
			if !ok {
				errs = append(errs, "violation did not reproduce in a fresh process: "+viols[i].Result.Violation.Msg)
				continue
			}
			done = true
			nviol++
			fmt.Printf("%s: %s at simulated %s: %s\n", prop, rep.Violation.Class, time.Duration(rep.Violation.At), rep.Violation.Msg)
			fmt.Printf("VIOLATION property=%s replay=%s\n", prop, path)
			code = 1
		}
		if !done {
			code = 2
		}
	} else if len(errs) > 0 || len(nondet) > 0 {
		code = 2
	}
	for _, e := range append(errs, nondet...) {
		fmt.Fprintln(os.Stderr, "ERROR:", e)
	}
	var ks []string
	for k := range knownHit {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		fmt.Println("KNOWN-FINDING:", k)
	}
	if evid != "" {
		info := su.Describe(prop)
		var samples []any
		for i, s := range tot.Samples {
			if i < 3 {
				samples = append(samples, s)
			}
		}
		if len(samples) == 0 && len(viols) > 0 {
			samples = append(samples, sample{viols[0].Plan, "violation"})
		}
		var missing []string
		for k, v := range tot.Probes {
			if v == 0 {
				missing = append(missing, k)
			}
		}
		ev := map[string]any{
			"property": prop, "tier": tier, "seed": seed, "level": "exploration",
			"coverage": map[string]any{
				"evaluations":              tot.Runs,
				"distinct_nontrivial":      len(ntAll),
				"rule":                     info.Rule,
				"samples":                  samples,
				"exhaustive":               false,
				"simulated_runs":           tot.Runs,
				"runs_per_hour":            int64(float64(tot.Runs) / searchWall * 3600),
				"simulated_seconds":        float64(tot.SimNs) / 1e9,
				"scheduler_steps":          tot.Steps,
				"nondeterministic_choices": tot.Decisions,
				"distinct_executions":      len(all),
				"distinct_measure":         "hash of the sequence of (task, simulated time) steps and observed events; capped at 200000 per worker process",
				"faults_fired":             tot.Faults,
				"probes_reached":           tot.Probes,
				"scenarios":                tot.Scenarios,
				"replayed_for_determinism": tot.Rechecked,
				"nondeterministic_replays": len(nondet),
				"real_components":          info.Real,
				"stubbed_components":       info.Stub,
				"known_findings_hit":       ks,
			},
			"assumptions": info.Assumptions,
			"wall_s":      time.Since(start).Seconds(),
			"violations":  nviol,
		}
		b, _ := json.MarshalIndent(ev, "", " ")
		os.MkdirAll(filepath.Dir(evid), 0o755)
		if err := os.WriteFile(evid, append(b, '\n'), 0o644); err != nil {
			fmt.Fprintln(os.Stderr, err)
			code = 2
		}
	}
	fmt.Printf("%s %s: %d simulated runs (%d distinct executions, %d non-trivial), %.0f simulated seconds, %.1f s of search, exit %d\n", prop, tier, tot.Runs, len(all), tot.NonTrivial, float64(tot.SimNs)/1e9, searchWall, code)
	return code
}

func runSelf(self string, timeout time.Duration, args ...string) ([]byte, error) {
	ctx, cancel := context.WithTimeout(context.Background(), timeout)
	defer cancel()
	cmd := exec.CommandContext(ctx, self, args...)
	cmd.Env = append(os.Environ(), "GOMAXPROCS=2")
	cmd.WaitDelay = time.Second
	return cmd.Output()
}

func writeJSON(path string, v any) error {
	b, err := json.MarshalIndent(v, "", " ")
	if err != nil {
		return err
	}
	return os.WriteFile(path, append(b, '\n'), 0o644)
}

func report(self, tmp, outDir string, m msg, tier string) (string, *Replay, bool) {
	pf := filepath.Join(tmp, "plan.json")
	if err := writeJSON(pf, m.Plan); err != nil {
		return "", nil, false
	}
	exe := func(p *Plan, trace bool) *Result {
		f := filepath.Join(tmp, "exec.json")
		writeJSON(f, p)
		args := []string{"exec", "-file", f}
		if trace {
			args = append(args, "-trace")
		}
		b, err := runSelf(self, RunTimeout, args...)
		if err != nil {
			return nil
		}
		r := &Result{}
		if json.Unmarshal(b, r) != nil {
			return nil
		}
		return r
	}
	first := exe(m.Plan, false)
	if first == nil || first.Violation == nil {
		return "", nil, false
	}
	best := m.Plan
	bud := 40.0
	if tier != "quick" {
		bud = 150
	}
	b, _ := runSelf(self, time.Duration(bud*2)*time.Second, "minimise", "-file", pf, "-budget", fmt.Sprint(bud))
	var cands []*Plan
	for _, l := range bytes.Split(b, []byte("\n")) {
		var x msg
		if len(l) > 0 && json.Unmarshal(l, &x) == nil && x.Kind == "best" {
			cands = append(cands, x.Plan)
		}
	}
	var res *Result
	for i := len(cands) - 1; i >= 0 && i >= len(cands)-3; i-- {
		r1 := exe(cands[i], true)
		r2 := exe(cands[i], false)
		if r1 != nil && r2 != nil && same(r1.Violation, first.Violation) && r1.LogHash == r2.LogHash {
			best, res = cands[i], r1
			break
		}
	}
	if res == nil {
		best = m.Plan
		res = exe(best, true)
		if res == nil || res.Violation == nil {
			return "", nil, false
		}
	}
	tr := res.Trace
	if len(tr) > 400 {
		tr = tr[len(tr)-400:]
	}
	rep := &Replay{Plan: best, Violation: res.Violation, LogHash: res.LogHash, Original: m.Plan, Trace: tr}
	os.MkdirAll(outDir, 0o755)
	path := filepath.Join(outDir, fmt.Sprintf("%s-%d.json", res.Violation.Property, m.Plan.Seed))
	if err := writeJSON(path, rep); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return "", nil, false
	}
	return path, rep, true
}

// CloneCfg decodes the configuration of a plan.
func CloneCfg[T any](p *Plan) *T {
	c := new(T)
	if err := json.Unmarshal(p.Cfg, c); err != nil {
		panic(err)
	}
	return c
}

// With returns a copy of p with another configuration.
func (p *Plan) With(cfg any) *Plan {
	q := *p
	b, err := json.Marshal(cfg)
	if err != nil {
		panic(err)
	}
	q.Cfg = b
	return &q
}
