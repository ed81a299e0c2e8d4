package drv

import (
	"bufio"
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"sort"
	"strings"
	"sync"
	"time"
)

// Config is the configuration of a check.
type Config struct {
	Prop      string
	Tier      string
	Seed      int64
	WorkerBin string
	WorkerArg []string
	Scratch   string // existing directory owned by this check
	Verif     string // root of the framework
	Sites     string
	Replay    string
	Runs      int // overrides the number of runs
	WallCap   time.Duration
	Verbose   bool
}

// ReplayFile is the format of replay files.
type ReplayFile struct {
	Property  string            `json:"property"`
	Kind      string            `json:"kind"`
	Message   string            `json:"message"`
	Seed      int64             `json:"seed"`
	Run       int               `json:"run"`
	Plans     []json.RawMessage `json:"plans"`
	TraceHash string            `json:"trace_hash,omitempty"`
	Note      string            `json:"note,omitempty"`
	Trace     []string          `json:"trace,omitempty"`
}

type master struct {
	cfg   Config
	p     *Prop
	nspec int
	mu    sync.Mutex
}

// exec runs one worker process. crashed is true if the process died without a result.
func (m *master) exec(sp Spec, limit time.Duration) (res *Result, crashed bool, detail string) {
	m.mu.Lock()
	m.nspec++
	n := m.nspec
	m.mu.Unlock()
	base := filepath.Join(m.cfg.Scratch, fmt.Sprintf("job%d", n))
	sp.Out = base + ".out"
	b, _ := json.Marshal(sp)
	if err := os.WriteFile(base+".spec", b, 0o644); err != nil {
		return &Result{Error: err.Error()}, false, ""
	}
	defer func() {
		for _, s := range []string{".spec", ".out", ".out.cur", ".out.tmp"} {
			os.Remove(base + s)
		}
	}()
	ctx, cancel := context.WithTimeout(context.Background(), limit)
	defer cancel()
	cmd := exec.CommandContext(ctx, m.cfg.WorkerBin, m.cfg.WorkerArg...)
	cmd.Env = append(os.Environ(), "VERIF_SPEC="+base+".spec", "GOMAXPROCS=2", "GOGC=200",
		"VERIF_SCRATCH="+m.cfg.Scratch)
	cmd.Dir = m.cfg.Scratch
	var buf bytes.Buffer
	cmd.Stdout = &buf
	cmd.Stderr = &buf
	runErr := cmd.Run()
	out := buf.String()
	if len(out) > 6000 {
		out = out[:3000] + "\n...\n" + out[len(out)-3000:]
	}
	rb, err := os.ReadFile(sp.Out)
	if err != nil {
		// the process ended without a result
		run := sp.From
		if c, err := os.ReadFile(sp.Out + ".cur"); err == nil {
			f := strings.Fields(string(c))
			if len(f) > 0 {
				fmt.Sscan(f[len(f)-1], &run)
			}
		}
		return &Result{Found: []Found{{Run: run}}}, true, fmt.Sprintf("%v\n%s", runErr, out)
	}
	res = &Result{}
	if err := json.Unmarshal(rb, res); err != nil {
		return &Result{Error: err.Error()}, false, out
	}
	return res, false, out
}

// Main runs a check and returns its exit code.
func Main(cfg Config) int {
	p := Lookup(cfg.Prop)
	if p == nil {
		fmt.Fprintf(os.Stderr, "unknown property %s\n", cfg.Prop)
		return 2
	}
	m := &master{cfg: cfg, p: p}
	if cfg.Replay != "" {
		return m.replayFile(cfg.Replay)
	}
	return m.check()
}

func (m *master) check() int {
	start := time.Now()
	cfg, p := m.cfg, m.p
	thorough := cfg.Tier == "thorough"
	runs := p.Quick
	if thorough {
		runs = p.Thorough
	}
	if cfg.Runs > 0 {
		runs = cfg.Runs
	}
	chunk := p.Chunk
	if chunk > (runs+7)/8 {
		chunk = (runs + 7) / 8
	}
	known := loadKnown(filepath.Join(cfg.Verif, "known-findings.txt"), p.ID)
	var kinds []string
	for k := range known {
		kinds = append(kinds, k)
	}
	sort.Strings(kinds)

	total := newAgg()
	var (
		mu      sync.Mutex
		next    int
		stop    bool
		harness string
		found   []Found
		seen    []Found // known ones
		detHash = map[int][]uint64{}
	)
	spec := func(from, to int, hashes bool) Spec {
		return Spec{Mode: "chunk", Prop: p.ID, Seed: cfg.Seed, From: from, To: to, Thorough: thorough,
			Hashes: hashes, Known: kinds}
	}
	workers := runtime.NumCPU()
	if workers > 8 {
		workers = 8
	}
	// the chunk whose runs are executed a second time in another process
	nchunks := (runs + chunk - 1) / chunk
	det := int(mix(uint64(cfg.Seed)) % uint64(nchunks))
	jobs := make([]int, 0, nchunks+1)
	jobs = append(jobs, det, det)
	for i := 0; i < nchunks; i++ {
		if i != det {
			jobs = append(jobs, i)
		}
	}
	var wg sync.WaitGroup
	for w := 0; w < workers; w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for {
				mu.Lock()
				if stop || next >= len(jobs) || (next > 1 && time.Since(start) > cfg.WallCap) {
					mu.Unlock()
					return
				}
				j := next
				next++
				mu.Unlock()
				c := jobs[j]
				from, to := c*chunk, (c+1)*chunk
				if to > runs {
					to = runs
				}
				res, crashed, detail := m.exec(spec(from, to, c == det), 10*time.Minute)
				mu.Lock()
				switch {
				case crashed:
					i := res.Found[0].Run
					_, raw, err := p.planFor(cfg.Seed, i, thorough)
					if err != nil {
						harness = err.Error()
					}
					found = append(found, Found{Run: i, Plan: raw, Violation: Violation{Prop: p.ID, Kind: "crash",
						Msg: "the process died: " + firstLines(detail, 12)}})
					stop = true
				case res.Error != "":
					harness = res.Error
					stop = true
				default:
					if j != 1 { // job 1 repeats job 0
						total.add(res)
					}
					if c == det {
						detHash[j] = res.Hashes
					}
					for _, f := range res.Found {
						if known[f.Violation.Kind] {
							seen = append(seen, f)
						} else {
							found = append(found, f)
							stop = true
						}
					}
				}
				mu.Unlock()
			}
		}()
	}
	wg.Wait()
	if harness != "" {
		fmt.Fprintf(os.Stderr, "ERROR of the simulator: %s\n", harness)
		return 2
	}
	for _, f := range dedupe(seen) {
		fmt.Printf("KNOWN-FINDING: property=%s %s: %s\n", p.ID, f.Violation.Kind, f.Violation.Msg)
	}
	detRuns, detDiff := 0, 0
	if len(found) == 0 {
		a, b := detHash[0], detHash[1]
		if len(a) != len(b) {
			fmt.Fprintf(os.Stderr, "ERROR: repeated execution ended differently (%d and %d runs)\n", len(a), len(b))
			return 2
		}
		for i := range a {
			if a[i] != b[i] {
				if detDiff == 0 {
					fmt.Fprintf(os.Stderr, "note: run %d took another course when repeated; the code under test depends on something the simulator does not decide\n", det*chunk+i)
				}
				detDiff++
			}
		}
		detRuns = len(a)
	}
	code := 0
	var replay string
	if len(found) > 0 {
		sort.Slice(found, func(i, j int) bool { return found[i].Run < found[j].Run })
		f := found[0]
		replay = m.report(f, chunk, thorough)
		code = 1
	}
	if err := m.evidence(total, start, runs, detRuns, detDiff, len(found), replay, known); err != nil {
		fmt.Fprintf(os.Stderr, "ERROR writing evidence: %s\n", err)
		return 2
	}
	if code == 1 {
		fmt.Printf("VIOLATION property=%s replay=%s\n", p.ID, replay)
		return 1
	}
	fmt.Printf("OK property=%s tier=%s seed=%d runs=%d distinct=%d checks=%d wall=%.1fs\n", p.ID, cfg.Tier, cfg.Seed,
		total.runs, len(total.shapes), total.checks, time.Since(start).Seconds())
	return 0
}

func dedupe(l []Found) []Found {
	s := map[string]bool{}
	var r []Found
	for _, f := range l {
		if !s[f.Violation.Kind] {
			s[f.Violation.Kind] = true
			r = append(r, f)
		}
	}
	return r
}

func firstLines(s string, n int) string {
	l := strings.Split(strings.TrimSpace(s), "\n")
	if len(l) > n {
		l = l[:n]
	}
	return strings.Join(l, " | ")
}

// once replays plans in a fresh process and returns what failed.
func (m *master) once(plans []json.RawMessage) (*Found, uint64) {
	res, crashed, detail := m.exec(Spec{Mode: "replay", Prop: m.p.ID, Seed: m.cfg.Seed, Plans: plans}, 3*time.Minute)
	if crashed {
		return &Found{Violation: Violation{Prop: m.p.ID, Kind: "crash", Msg: "the process died: " + firstLines(detail, 12)}}, 0
	}
	var h uint64
	if len(res.Hashes) > 0 {
		h = res.Hashes[0]
	}
	if len(res.Found) == 0 {
		return nil, h
	}
	return &res.Found[len(res.Found)-1], h
}

// report minimises a failure, writes the replay file and proves that it reproduces.
func (m *master) report(f Found, chunk int, thorough bool) string {
	kind := f.Violation.Kind
	plans := []json.RawMessage{f.Plan}
	same := func(r *Found) bool { return r != nil && r.Violation.Kind == kind }
	note := ""
	first, _ := m.once(plans)
	switch {
	case same(first) && kind != "crash" && kind != "hang":
		res, crashed, _ := m.exec(Spec{Mode: "shrink", Prop: m.p.ID, Plans: plans, Kind: kind, LimitS: 40}, 2*time.Minute)
		if !crashed && res.Error == "" && len(res.Found) > 0 {
			cand := []json.RawMessage{res.Found[0].Plan}
			if r, _ := m.once(cand); same(r) {
				plans = cand
				note = fmt.Sprintf("minimised in %d executions, %d -> %d bytes", res.Found[0].Tries, len(f.Plan), len(cand[0]))
			}
		}
	case same(first):
		note = "not minimised"
	default:
		// the failure needs state left behind by earlier runs of the same process
		from := f.Run / chunk * chunk
		var seq []json.RawMessage
		for i := from; i < f.Run; i++ {
			_, raw, err := m.p.planFor(m.cfg.Seed, i, thorough)
			if err == nil {
				seq = append(seq, raw)
			}
		}
		seq = append(seq, f.Plan)
		if r, _ := m.once(seq); same(r) {
			plans = m.reduceSeq(seq, same)
			note = "needs the preceding runs in the same process"
		} else {
			note = "did not reproduce in a fresh process"
		}
	}
	r1, h1 := m.once(plans)
	r2, h2 := m.once(plans)
	rf := ReplayFile{Property: m.p.ID, Kind: kind, Message: f.Violation.Msg, Seed: m.cfg.Seed, Run: f.Run, Plans: plans, Note: note}
	if same(r1) && same(r2) && h1 == h2 {
		rf.TraceHash = fmt.Sprintf("%016x", h1)
		rf.Message = r1.Violation.Msg
		rf.Trace = r1.Log
		if len(rf.Trace) > 400 {
			rf.Trace = append(rf.Trace[:200:200], rf.Trace[len(rf.Trace)-200:]...)
		}
	} else {
		rf.Note += "; replays differ"
		fmt.Fprintf(os.Stderr, "warning: the replays of run %d differ\n", f.Run)
	}
	dir := filepath.Join(m.cfg.Verif, "replays")
	os.MkdirAll(dir, 0o755)
	path := filepath.Join(dir, fmt.Sprintf("%s-%d-%d.json", m.p.ID, m.cfg.Seed, f.Run))
	b, _ := json.MarshalIndent(rf, "", " ")
	os.WriteFile(path, append(b, '\n'), 0o644)
	fmt.Printf("property %s broken: [%s] %s\n", m.p.ID, kind, rf.Message)
	fmt.Printf("seed %d run %d (%s)\n", m.cfg.Seed, f.Run, rf.Note)
	return path
}

func (m *master) reduceSeq(seq []json.RawMessage, same func(*Found) bool) []json.RawMessage {
	end := time.Now().Add(60 * time.Second)
	pre, last := seq[:len(seq)-1], seq[len(seq)-1]
	for size := (len(pre) + 1) / 2; size >= 1; size /= 2 {
		for at := 0; at < len(pre) && time.Now().Before(end); {
			to := at + size
			if to > len(pre) {
				to = len(pre)
			}
			cand := append(append([]json.RawMessage{}, pre[:at]...), pre[to:]...)
			if r, _ := m.once(append(append([]json.RawMessage{}, cand...), last)); same(r) {
				pre = cand
			} else {
				at += size
			}
		}
	}
	return append(append([]json.RawMessage{}, pre...), last)
}

func (m *master) replayFile(path string) int {
	b, err := os.ReadFile(path)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	var rf ReplayFile
	if err := json.Unmarshal(b, &rf); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	r, h := m.once(rf.Plans)
	if r == nil {
		fmt.Printf("replay of %s: no violation\n", path)
		return 0
	}
	for _, l := range r.Log {
		fmt.Println("  ", l)
	}
	fmt.Printf("[%s] %s\n", r.Violation.Kind, r.Violation.Msg)
	if hs := fmt.Sprintf("%016x", h); rf.TraceHash != "" && hs != rf.TraceHash {
		fmt.Printf("note: trace %s differs from the recorded %s (different code or different state)\n", hs, rf.TraceHash)
	}
	fmt.Printf("VIOLATION property=%s replay=%s\n", rf.Property, path)
	return 1
}

// loadKnown reads lines "known: property=C01 kind=<kind> <text>".
func loadKnown(path, id string) map[string]bool {
	r := map[string]bool{}
	f, err := os.Open(path)
	if err != nil {
		return r
	}
	defer f.Close()
	s := bufio.NewScanner(f)
	for s.Scan() {
		l := strings.Fields(s.Text())
		if len(l) >= 3 && l[0] == "known:" && l[1] == "property="+id && strings.HasPrefix(l[2], "kind=") {
			r[strings.TrimPrefix(l[2], "kind=")] = true
		}
	}
	return r
}

type agg struct {
	runs, nontrivial, checks, ops int
	shapes, states                map[uint64]struct{}
	faults, probes                map[string]int
	sites                         map[int]struct{}
	simTime                       time.Duration
	samples                       []json.RawMessage
}

func newAgg() *agg {
	return &agg{shapes: map[uint64]struct{}{}, states: map[uint64]struct{}{}, faults: map[string]int{},
		probes: map[string]int{}, sites: map[int]struct{}{}}
}

func (a *agg) add(r *Result) {
	a.runs += r.Runs
	a.nontrivial += r.NonTrivial
	a.checks += r.Checks
	a.ops += r.Ops
	a.simTime += r.SimTime
	for _, s := range r.Shapes {
		a.shapes[s] = struct{}{}
	}
	for _, s := range r.States {
		a.states[s] = struct{}{}
	}
	for _, s := range r.Sites {
		a.sites[s] = struct{}{}
	}
	for k, n := range r.Faults {
		a.faults[k] += n
	}
	for k, n := range r.Probes {
		a.probes[k] += n
	}
	if r.Sample != nil && len(a.samples) < 2 {
		a.samples = append(a.samples, r.Sample)
	}
}

func (m *master) evidence(a *agg, start time.Time, runs, detRuns, detDiff, violations int, replay string, known map[string]bool) error {
	wall := time.Since(start).Seconds()
	cfg, p := m.cfg, m.p
	samples := a.samples
	if samples == nil {
		samples = []json.RawMessage{}
	}
	cov := map[string]any{
		"evaluations":           a.runs,
		"distinct_nontrivial":   len(a.shapes),
		"rule":                  p.Rule,
		"samples":               samples,
		"nontrivial_runs":       a.nontrivial,
		"distinct_states":       len(a.states),
		"runs_requested":        runs,
		"runs_per_hour":         int(float64(a.runs) / wall * 3600),
		"oracle_checks":         a.checks,
		"library_calls":         a.ops,
		"simulated_seconds":     a.simTime.Seconds(),
		"faults_injected":       a.faults,
		"probes":                a.probes,
		"determinism_recheck":   map[string]any{"runs_executed_twice": detRuns, "differences": detDiff},
		"components_real":       p.Real,
		"components_stubbed":    p.Stubs,
		"world":                 p.World,
		"statements_executed":   len(a.sites),
		"statements_in_overlay": countSites(cfg.Sites),
	}
	if replay != "" {
		cov["replay"] = replay
	}
	if len(known) > 0 {
		cov["known_findings"] = known
	}
	ev := map[string]any{
		"property": p.ID, "tier": cfg.Tier, "seed": cfg.Seed, "level": "exploration", "coverage": cov,
		"assumptions": p.Assume, "wall_s": wall, "violations": violations,
	}
	b, err := json.MarshalIndent(ev, "", " ")
	if err != nil {
		return err
	}
	dir := filepath.Join(cfg.Verif, "evidence")
	if err := os.MkdirAll(dir, 0o755); err != nil {
		return err
	}
	return os.WriteFile(filepath.Join(dir, p.ID+".json"), append(b, '\n'), 0o644)
}

func countSites(path string) int {
	b, err := os.ReadFile(path)
	if err != nil {
		return 0
	}
	var l []any
	if json.Unmarshal(b, &l) == nil {
		return len(l)
	}
	var mm map[string]any
	if json.Unmarshal(b, &mm) == nil {
		return len(mm)
	}
	return 0
}
