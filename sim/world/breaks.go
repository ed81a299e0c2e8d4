package world

import (
	"fmt"
	"math"
	"math/big"

	"github.com/tokenized/pkg/bitcoin"
	"github.com/tokenized/txbuilder"

	"verifsim/drv"
	"verifsim/ref"
)

// The splitter world: a service that splits amounts again and again while its clock and random
// source misbehave.

type breakPlan struct {
	Ops []breakOp `json:"ops"`
}

type breakOp struct {
	Fn    int     `json:"fn"` // 0 addresses, 1 scripts, 2 quantities
	Env   EnvPlan `json:"env"`
	Base  uint64  `json:"base"`  // amount, or number of smallest pieces, or distance from a boundary
	Rel   int     `json:"rel"`   // how Base is meant
	Break uint64  `json:"break"` // smallest piece
	To    []int   `json:"to"`
	Dust  float32 `json:"dust"`
	Rate  float32 `json:"rate"`
	Last  bool    `json:"last"`
	Sub   bool    `json:"sub"`
	Huge  bool    `json:"huge,omitempty"` // amounts may exceed the money supply
}

func genBreak(r *drv.R, thorough bool) any {
	p := &breakPlan{}
	for n := r.Range(1, 6); n > 0; n-- {
		o := breakOp{Fn: r.Intn(3), Env: genEnv(r), Dust: genDustRate(r), Rate: genRate(r), Last: r.P(1, 2), Sub: r.P(1, 2)}
		if r.P(1, 6) {
			o.Rate = 0
		}
		switch r.Pick(2, 3, 1) {
		case 0:
			o.Break = uint64(r.Range(1, 12))
		case 1:
			o.Break = r.Log(100000)
		default:
			o.Break = r.Log(Supply / 10)
		}
		if r.P(1, 16) {
			o.Huge = true
			o.Break = r.Log(math.MaxUint64)
		}
		k := r.Pick(0, 2, 2, 2, 2, 2, 1, 1, 1, 1, 1, 1, 1)
		if r.P(1, 40) {
			k = r.Range(13, 80)
		}
		for ; k > 0; k-- {
			l := len(o.To)*8 + r.Intn(4)
			if r.P(1, 4) {
				l = r.Intn(160)*8 + r.Range(4, 6)
			}
			if o.Fn == 1 && r.P(1, 12) {
				l = r.Intn(40)*8 + 7
			}
			o.To = append(o.To, l)
		}
		o.Rel = r.Pick(3, 3, 3)
		switch o.Rel {
		case 0:
			o.Base = r.Log(Supply)
			if o.Huge {
				o.Base = math.MaxUint64 - r.Log(math.MaxUint64)
			}
		case 1:
			o.Base = r.Log(3000)
		case 2:
			o.Base = uint64(r.Intn(41))
		}
		p.Ops = append(p.Ops, o)
	}
	return p
}

func (o breakOp) value(locks []ref.Lock) uint64 {
	most := uint64(Supply)
	if o.Huge {
		most = math.MaxUint64
	}
	switch o.Rel {
	case 1: // multiples of the smallest piece
		v := new(big.Int).Mul(new(big.Int).SetUint64(o.Base), new(big.Int).SetUint64(o.Break))
		if !v.IsUint64() || v.Uint64() > most {
			return most
		}
		return v.Uint64()
	case 2: // around the cost of the first piece
		v := int64(outFee(locks[0], o.Rate)+inFee(locks[0], o.Rate)) + int64(o.Base) - 20
		if v < 1 {
			v = 1
		}
		u := uint64(v)
		if o.Base%2 == 1 {
			if u += o.Break; u < o.Break {
				return most
			}
		}
		return min(u, most)
	}
	return o.Base
}

func execBreak(t *drv.T, plan any) {
	p := plan.(*breakPlan)
	for i, o := range p.Ops {
		locks := make([]ref.Lock, 0, len(o.To))
		used := map[string]bool{}
		for _, n := range o.To {
			l := lockOf(n)
			if !used[string(l.Script)] && (o.Fn == 1 || l.Kind != ref.Other) {
				used[string(l.Script)] = true
				locks = append(locks, l)
			}
		}
		if len(locks) == 0 || o.Break == 0 {
			continue
		}
		value := o.value(locks)
		if value == 0 {
			value = 1
		}
		e := o.Env.use(t)
		start := e.Clock
		t.NonTrivial()
		var outs []*txbuilder.Output
		var qs []uint64
		var err error
		name := [...]string{"BreakValue", "BreakValueLockingScripts", "BreakQuantity"}[o.Fn]
		t.Lib(fmt.Sprintf("%s of %d into %d recipients, smallest piece %d", name, value, len(locks), o.Break), func() {
			switch o.Fn {
			case 0:
				outs, err = txbuilder.BreakValue(value, o.Break, addrKeys(locks), o.Dust, o.Rate, o.Last, o.Sub)
			case 1:
				ss := make([]bitcoin.Script, len(locks))
				for i, l := range locks {
					ss[i] = append(bitcoin.Script{}, l.Script...)
				}
				outs, err = txbuilder.BreakValueLockingScripts(value, o.Break, ss, o.Dust, o.Rate, o.Last, o.Sub)
			case 2:
				qs, err = txbuilder.BreakQuantity(value, o.Break, len(locks))
			}
		})
		t.SimTime += e.Clock.Sub(start)
		t.Trace("%d %s value=%d break=%d n=%d sub=%v last=%v rate=%v draws=%d -> %s", i, name, value, o.Break, len(locks),
			o.Sub, o.Last, o.Rate, e.Draws, errText(err))
		t.Check(err == nil, "error", "%s of %d failed: %v", name, value, err)
		pieces := qs
		for _, x := range outs {
			pieces = append(pieces, x.Value)
			t.Trace("  %d rem=%v key=%q %x", x.Value, x.Supplement.IsRemainder, x.Supplement.KeyID, []byte(x.LockingScript))
		}
		t.Trace("  %v", qs)
		t.ShapeInt(o.Fn*4 + b2i(o.Sub)*2 + b2i(o.Last))
		t.ShapeInt(len(pieces))
		for _, v := range pieces {
			f := v / o.Break
			for n := uint64(1); ; n *= 10 {
				if f < n || n > math.MaxUint64/10 {
					t.ShapeInt(int(n))
					break
				}
			}
		}
		if len(pieces) == len(locks) {
			t.Probe("all recipients used")
		}
		if len(pieces) == 0 {
			t.Probe("nothing returned")
		}
		if len(pieces) > 0 && len(pieces) < len(locks) {
			t.Probe("value ran out before the recipients")
		}
		if t.On("C07") {
			checkConserved(t, o, name, value, locks, outs, qs)
		} else {
			checkPieces(t, o, name, locks, outs, qs)
		}
	}
}

func b2i(b bool) int {
	if b {
		return 1
	}
	return 0
}

func checkConserved(t *drv.T, o breakOp, name string, value uint64, locks []ref.Lock, outs []*txbuilder.Output, qs []uint64) {
	sum := new(big.Int)
	for _, q := range qs {
		sum.Add(sum, new(big.Int).SetUint64(q))
	}
	fees := uint64(0)
	for _, x := range outs {
		sum.Add(sum, new(big.Int).SetUint64(x.Value))
		fees += ref.Fee(ref.OutSize(x.LockingScript), o.Rate)
	}
	if o.Fn == 2 {
		t.Check(sum.Cmp(new(big.Int).SetUint64(value)) == 0, "sum", "%s: pieces of %d add up to %s", name, value, sum)
		return
	}
	if len(outs) == 0 {
		min := inFee(locks[0], o.Rate)
		if o.Sub {
			min += outFee(locks[0], o.Rate)
		}
		t.Check(value <= min, "nothing", "%s: nothing returned for %d although one piece costs only %d", name, value, min)
		return
	}
	want := new(big.Int).SetUint64(value)
	if o.Sub {
		want.Sub(want, new(big.Int).SetUint64(fees))
	}
	t.Check(sum.Cmp(want) == 0, "sum", "%s: pieces of %d add up to %s, expected %s (output fees %d)", name, value, sum, want, fees)
}

func checkPieces(t *drv.T, o breakOp, name string, locks []ref.Lock, outs []*txbuilder.Output, qs []uint64) {
	small := func(v uint64) bool { return v < o.Break && o.Break-v > o.Break/10 }
	n := 0
	for _, q := range qs {
		if small(q) {
			n++
		}
	}
	if o.Fn == 2 {
		t.Check(len(qs) <= len(locks), "count", "%s: %d pieces although %d were asked for", name, len(qs), len(locks))
		t.Check(n <= 1, "small", "%s: %d pieces below 90%% of %d: %v", name, n, o.Break, qs)
		return
	}
	t.Check(len(outs) <= len(locks), "count", "%s: %d pieces for %d recipients", name, len(outs), len(locks))
	seen := map[string]bool{}
	marked, smallMarked := 0, 0
	for _, x := range outs {
		at := -1
		for i, l := range locks {
			if string(l.Script) == string(x.LockingScript) {
				at = i
			}
		}
		t.Check(at >= 0, "recipient", "%s: a piece pays a script that is no recipient", name)
		t.Check(!seen[string(x.LockingScript)], "repeat", "%s: recipient %d is paid twice", name, at)
		seen[string(x.LockingScript)] = true
		want := ""
		if o.Fn == 0 {
			want = keyName("key", at)
		}
		t.Check(x.Supplement.KeyID == want, "key", "%s: piece of recipient %d has key id %q", name, at, x.Supplement.KeyID)
		t.Check(!x.Supplement.IsDust, "dustmark", "%s: a piece is marked as dust", name)
		if x.Supplement.IsRemainder {
			marked++
			if small(x.Value) {
				smallMarked++
			}
		}
		if small(x.Value) {
			n++
		}
	}
	t.Check(n <= 1, "small", "%s: %d pieces below 90%% of %d", name, n, o.Break)
	if len(outs) > 0 {
		want := b2i(o.Last)
		t.Check(marked == want, "mark", "%s: %d pieces marked as remainder, expected %d", name, marked, want)
		if want == 1 {
			t.Check(n == smallMarked, "small", "%s: a piece below 90%% of %d is not the remainder", name, o.Break)
		}
	}
}

func init() {
	for _, id := range []string{"C07", "C08"} {
		drv.Register(&drv.Prop{ID: id, Gen: genBreak, New: func() any { return &breakPlan{} }, Exec: execBreak,
			Quick: 200000, Thorough: 4000000, Chunk: 4000,
			World: "splitter: amounts are split again and again under a simulated clock and random source",
			Rule:  "a run is a sequence of up to 6 splits, each with its own clock, random stream (faithful or adversarial), amount (log-uniform, multiple of the smallest piece, or within 20 of the cost of one piece), recipients and options; two runs are distinct if the sequence of (function, options, number of pieces, magnitude of every piece) differs; a run is non-trivial if at least one split was executed",
			Real:  realLib, Stubs: []string{"clock", "random source"},
			Assume: []string{"amounts below 2^64, smallest piece at least 1, 1 to 80 distinct recipients"}})
	}
}
