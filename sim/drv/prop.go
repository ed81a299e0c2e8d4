package drv

import (
	"bytes"
	"encoding/json"
	"fmt"
	"sort"

	"verifsim/simrt"
)

// Prop is the simulation that decides one property.
type Prop struct {
	ID string

	// Gen makes the plan of a run.
	Gen func(r *R, thorough bool) any

	// New returns an empty plan to decode into.
	New func() any

	// Exec executes a plan. It is a function of the plan only.
	Exec func(t *T, plan any)

	Quick, Thorough int // number of runs
	Chunk           int // runs per worker process

	Rule   string
	World  string
	Real   []string
	Stubs  []string
	Assume []string
}

var registry = map[string]*Prop{}

func Register(p *Prop) {
	if p.Chunk == 0 {
		p.Chunk = 500
	}
	registry[p.ID] = p
}

func Lookup(id string) *Prop { return registry[id] }

func IDs() []string {
	var r []string
	for id := range registry {
		r = append(r, id)
	}
	sort.Strings(r)
	return r
}

func (p *Prop) exec(plan any, keep bool) (*T, *HarnessError) {
	simrt.Reset()
	return Run(p.ID, keep, func(t *T) { p.Exec(t, plan) })
}

// planFor generates the plan of run i and passes it through JSON, so that what is executed is
// exactly what a replay file contains.
func (p *Prop) planFor(seed int64, i int, thorough bool) (any, json.RawMessage, error) {
	raw, err := json.Marshal(p.Gen(NewR(SeedFor(seed, p.ID, i)), thorough))
	if err != nil {
		return nil, nil, err
	}
	plan, err := p.decode(raw)
	return plan, raw, err
}

func (p *Prop) decode(raw []byte) (any, error) {
	plan := p.New()
	d := json.NewDecoder(bytes.NewReader(raw))
	d.DisallowUnknownFields()
	if err := d.Decode(plan); err != nil {
		return nil, fmt.Errorf("decode plan: %w", err)
	}
	return plan, nil
}
