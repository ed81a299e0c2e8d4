package drv

import (
	"encoding/json"
	"fmt"
	"os"
	"sync/atomic"
	"time"

	"verifsim/simrt"
)

// Spec is the job of a worker process.
type Spec struct {
	Mode     string            `json:"mode"` // chunk, shrink, replay
	Prop     string            `json:"prop"`
	Seed     int64             `json:"seed"`
	From     int               `json:"from"`
	To       int               `json:"to"`
	Thorough bool              `json:"thorough"`
	Out      string            `json:"out"`
	Plans    []json.RawMessage `json:"plans,omitempty"`
	Kind     string            `json:"kind,omitempty"`
	LimitS   int               `json:"limit_s,omitempty"`
	Hashes   bool              `json:"hashes,omitempty"`
	Known    []string          `json:"known,omitempty"` // kinds that do not end a chunk
}

// Found is a violation found by a worker.
type Found struct {
	Run       int             `json:"run"`
	Plan      json.RawMessage `json:"plan"`
	Violation Violation       `json:"violation"`
	Hash      uint64          `json:"hash"`
	Log       []string        `json:"log,omitempty"`
	Tries     int             `json:"tries,omitempty"`
}

// Result is what a worker reports.
type Result struct {
	Runs       int             `json:"runs"`
	NonTrivial int             `json:"nontrivial"`
	Shapes     []uint64        `json:"shapes"`
	States     []uint64        `json:"states"`
	Faults     map[string]int  `json:"faults"`
	Probes     map[string]int  `json:"probes"`
	Checks     int             `json:"checks"`
	Ops        int             `json:"ops"`
	SimTime    time.Duration   `json:"sim_time"`
	Found      []Found         `json:"found"`
	Sites      []int           `json:"sites"`
	Hashes     []uint64        `json:"hashes,omitempty"`
	Sample     json.RawMessage `json:"sample,omitempty"`
	SampleLog  []string        `json:"sample_log,omitempty"`
	Error      string          `json:"error,omitempty"`
}

const hangSeconds = 60

// WorkerMain does the job described by the file and writes the result.
func WorkerMain(path string) error {
	b, err := os.ReadFile(path)
	if err != nil {
		return err
	}
	var sp Spec
	if err := json.Unmarshal(b, &sp); err != nil {
		return err
	}
	p := Lookup(sp.Prop)
	if p == nil || p.Exec == nil {
		return fmt.Errorf("no simulation for %s in this worker", sp.Prop)
	}
	res := &Result{Faults: map[string]int{}, Probes: map[string]int{}}
	switch sp.Mode {
	case "chunk":
		workChunk(p, &sp, res)
	case "shrink":
		workShrink(p, &sp, res)
	case "replay":
		workReplay(p, &sp, res)
	}
	for i, h := range simrt.Hits {
		if h > 0 {
			res.Sites = append(res.Sites, i)
		}
	}
	return writeResult(sp.Out, res)
}

func writeResult(path string, res *Result) error {
	b, err := json.Marshal(res)
	if err != nil {
		return err
	}
	if err := os.WriteFile(path+".tmp", b, 0o644); err != nil {
		return err
	}
	return os.Rename(path+".tmp", path)
}

func workChunk(p *Prop, sp *Spec, res *Result) {
	cur, _ := os.Create(sp.Out + ".cur")
	defer cur.Close()
	shapes := map[uint64]bool{}
	states := map[uint64]bool{}
	known := map[string]bool{}
	for _, k := range sp.Known {
		known[k] = true
	}
	for i := sp.From; i < sp.To; i++ {
		fmt.Fprintf(cur, "%d\n", i)
		plan, raw, err := p.planFor(sp.Seed, i, sp.Thorough)
		if err != nil {
			res.Error = err.Error()
			return
		}
		t, herr := execWatched(p, plan, false, func() {
			res.Found = append(res.Found, Found{Run: i, Plan: raw, Violation: hangViolation(p.ID)})
			writeResult(sp.Out, res)
			os.Exit(0)
		})
		if herr != nil {
			res.Error = fmt.Sprintf("run %d: %v\n%s\nplan %s", i, herr.Err, herr.Stack, raw)
			return
		}
		res.Runs++
		res.Checks += t.Checks
		res.Ops += t.Ops
		res.SimTime += t.SimTime
		for k, n := range t.Faults {
			res.Faults[k] += n
		}
		for k, n := range t.Probes {
			res.Probes[k] += n
		}
		if t.nontrivial {
			res.NonTrivial++
			if !shapes[t.shape] {
				shapes[t.shape] = true
				res.Shapes = append(res.Shapes, t.shape)
			}
			if res.Sample == nil && len(raw) < 6000 {
				res.Sample = raw
			}
		}
		for s := range t.States {
			if !states[s] && len(states) < 50000 {
				states[s] = true
				res.States = append(res.States, s)
			}
		}
		if sp.Hashes {
			res.Hashes = append(res.Hashes, t.Hash())
		}
		if v := t.viol; v != nil {
			res.Found = append(res.Found, Found{Run: i, Plan: raw, Violation: *v, Hash: t.Hash()})
			if !known[v.Kind] {
				return
			}
		}
	}
}

func hangViolation(id string) Violation {
	return Violation{Prop: id, Kind: "hang", Msg: fmt.Sprintf("the run does not end (%d s of real time)", hangSeconds)}
}

func execWatched(p *Prop, plan any, keep bool, onHang func()) (*T, *HarnessError) {
	var ended atomic.Bool
	timer := time.AfterFunc(hangSeconds*time.Second, func() {
		if !ended.Load() {
			onHang()
		}
	})
	t, herr := p.exec(plan, keep)
	ended.Store(true)
	timer.Stop()
	return t, herr
}

func workShrink(p *Prop, sp *Spec, res *Result) {
	kind := sp.Kind
	fails := func(raw json.RawMessage) bool {
		plan, err := p.decode(raw)
		if err != nil {
			return false
		}
		t, herr := execWatched(p, plan, false, func() { os.Exit(3) })
		return herr == nil && t.viol != nil && t.viol.Kind == kind
	}
	if !fails(sp.Plans[0]) {
		return
	}
	min, tries := Shrink(sp.Plans[0], fails, time.Duration(sp.LimitS)*time.Second, 20000)
	res.Found = append(res.Found, Found{Plan: min, Tries: tries})
}

// workReplay executes the plans in order; the violation of the last one counts.
func workReplay(p *Prop, sp *Spec, res *Result) {
	for i, raw := range sp.Plans {
		plan, err := p.decode(raw)
		if err != nil {
			res.Error = err.Error()
			return
		}
		t, herr := execWatched(p, plan, true, func() {
			res.Found = append(res.Found, Found{Run: i, Plan: raw, Violation: hangViolation(p.ID)})
			writeResult(sp.Out, res)
			os.Exit(0)
		})
		if herr != nil {
			res.Error = fmt.Sprintf("%v\n%s", herr.Err, herr.Stack)
			return
		}
		res.Runs++
		if i == len(sp.Plans)-1 {
			res.SampleLog = t.Log
			res.Hashes = []uint64{t.Hash()}
			if t.viol != nil {
				res.Found = append(res.Found, Found{Run: i, Plan: raw, Violation: *t.viol, Hash: t.Hash(), Log: t.Log})
			}
		}
	}
}
