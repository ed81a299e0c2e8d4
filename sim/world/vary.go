package world

import (
	"bytes"
	"fmt"
	"sort"
	"time"

	"github.com/tokenized/pkg/bitcoin"
	"github.com/tokenized/txbuilder"

	"verifsim/drv"
	"verifsim/ref"
	"verifsim/simrt"
)

// The observer world: the same split is made again and again at other times and with other random
// draws, as a service would do that is restarted in between. Somebody who watches must not be able
// to tell what stays the same.

type varyPlan struct {
	Fn    int     `json:"fn"` // 0 addresses, 1 scripts, 2 quantities, 3 change of a funded draft
	Seed  int64   `json:"seed"`
	Clock int64   `json:"clock"` // when the first split is made
	Gap   int64   `json:"gap"`   // time between splits, negative if the clock runs backwards
	N     int     `json:"n"`     // recipients
	Break uint64  `json:"break"`
	Mult  uint64  `json:"mult"` // amount in smallest pieces per recipient
	Rate  float32 `json:"rate"`
	Last  bool    `json:"last"`
	Sub   bool    `json:"sub"`
}

const varyTimes = 24

func genVary(r *drv.R, thorough bool) any {
	p := &varyPlan{Fn: r.Intn(4), Seed: int64(r.Intn(1 << 30)), N: r.Range(5, 12), Break: 20000 + r.Log(200000), Mult: uint64(r.Range(300, 2000)),
		Rate: []float32{0.05, 0.5, 1}[r.Intn(3)], Last: r.P(1, 2), Sub: r.P(1, 2)}
	p.Clock = int64(time.Duration(r.Range(-24*365, 24*365*20)) * time.Hour)
	p.Gap = int64(r.Log(uint64(30 * 24 * time.Hour)))
	if p.Gap == 0 {
		p.Gap = 1
	}
	if r.P(1, 5) {
		p.Gap = -p.Gap
	}
	return p
}

type piece struct {
	value uint64
	to    int // recipient, -1 unknown
	rem   bool
}

func execVary(t *drv.T, plan any) {
	p := plan.(*varyPlan)
	if p.N < 5 || p.N > 20 || p.Break < 20000 || p.Mult < 300 || p.Gap == 0 || p.Rate <= 0 || p.Rate > 1 {
		return
	}
	var locks []ref.Lock
	for i := 0; i < p.N; i++ {
		locks = append(locks, ref.NewP2PKH(i))
	}
	value := p.Break * p.Mult * uint64(p.N)
	if p.Gap < 0 {
		t.Fault("clock runs backwards")
	}
	// what the code does only once does not show up in the splits
	simrt.SetEnv(simrt.NewEnv(p.Seed))
	t.Try(func() { txbuilder.BreakQuantity(1000000, 1000, 5) })
	t.Try(func() { txbuilder.BreakValue(1000000, 1000, addrKeys(locks), 1, p.Rate, p.Last, p.Sub) })
	var splits [][]piece
	for k := 0; k < varyTimes; k++ {
		e := simrt.NewEnv(p.Seed*varyTimes + int64(k))
		e.Clock = simrt.Epoch.Add(time.Duration(p.Clock + p.Gap*int64(k)))
		e.Tick = 1000
		e.Seeded = true
		simrt.SetEnv(e)
		t.Fault("restart at another time")
		gap := time.Duration(p.Gap)
		if gap < 0 {
			gap = -gap
		}
		t.SimTime += gap
		var s []piece
		at := func(script []byte) int {
			for i, l := range locks {
				if bytes.Equal(l.Script, script) {
					return i
				}
			}
			return -1
		}
		t.Lib("split", func() {
			var outs []*txbuilder.Output
			var qs []uint64
			var err error
			switch p.Fn {
			case 0:
				outs, err = txbuilder.BreakValue(value, p.Break, addrKeys(locks), 1, p.Rate, p.Last, p.Sub)
			case 1:
				ss := make([]bitcoin.Script, len(locks))
				for i, l := range locks {
					ss[i] = append(bitcoin.Script{}, l.Script...)
				}
				outs, err = txbuilder.BreakValueLockingScripts(value, p.Break, ss, 1, p.Rate, p.Last, p.Sub)
			case 2:
				qs, err = txbuilder.BreakQuantity(value, p.Break, p.N)
			default:
				tx := txbuilder.NewTxBuilder(p.Rate, 1)
				if err = tx.AddPaymentOutput(addr(ref.NewP2PKH(30)), 5000, false); err == nil {
					c := Coin{Lock: ref.NewP2PKH(31), Value: value + 10000}
					err = tx.AddFundingBreakChange([]bitcoin.UTXO{c.utxo()}, p.Break, addrKeys(locks))
				}
				if m, _ := observe(tx); err == nil {
					for _, o := range m.Outs[1:] {
						s = append(s, piece{o.Value, at(o.Script), o.Rem})
					}
				}
			}
			t.Check(err == nil, "error", "splitting %d failed: %v", value, err)
			for _, o := range outs {
				s = append(s, piece{o.Value, at(o.LockingScript), o.Supplement.IsRemainder})
			}
			for _, q := range qs {
				s = append(s, piece{q, -1, false})
			}
		})
		t.Trace("%d %v", k, s)
		if len(s) >= 4 {
			splits = append(splits, s)
		}
	}
	t.ShapeInt(p.Fn*1000 + p.N*10 + b2i(p.Last)*2 + b2i(p.Sub))
	t.ShapeInt(len(splits))
	if len(splits) < varyTimes*2/3 {
		return
	}
	t.NonTrivial()
	// amounts
	amounts, order, first, place := map[string]bool{}, map[string]bool{}, map[string]bool{}, map[string]bool{}
	for _, s := range splits {
		var vs []uint64
		var to, head string
		most, rem := 0, -1
		for i, x := range s {
			vs = append(vs, x.value)
			to += fmt.Sprint(x.to, " ")
			if x.value > s[most].value {
				most = i
			}
			if x.rem {
				rem = i
			}
		}
		t.ShapeInt(len(s)*100 + most)
		head = fmt.Sprint(s[0].to)
		if rem < 0 {
			rem = most
		}
		sort.Slice(vs, func(i, j int) bool { return vs[i] < vs[j] })
		amounts[fmt.Sprint(vs)] = true
		order[to] = true
		first[head] = true
		place[fmt.Sprint(rem-len(s))] = true
	}
	name := [...]string{"BreakValue", "BreakValueLockingScripts", "BreakQuantity", "AddFundingBreakChange"}[p.Fn%4]
	t.Check(len(amounts) > 1, "amounts", "%s gave the same amounts in each of %d splits of %d", name, len(splits), value)
	t.Check(len(place) > 1, "place", "%s put the remainder at the same place from the end in each of %d splits", name, len(splits))
	if p.Fn != 2 {
		t.Check(len(order) > 1 && len(first) > 1, "order", "%s gave the recipients in the same order or the same first recipient in each of %d splits", name, len(splits))
	}
}

func init() {
	drv.Register(&drv.Prop{ID: "C30", Gen: genVary, New: func() any { return &varyPlan{} }, Exec: execVary,
		Quick: 8000, Thorough: 200000, Chunk: 200,
		World: "observer: the same split is made 24 times by a service restarted at different times of a simulated clock",
		Rule:  "a run is one split made 24 times at other times (forward or backward, gaps of 1 ns to 30 days) with other random draws; two runs are distinct if (function, options, numbers of pieces, place of the largest piece of every split) differ; a run is non-trivial if at least two thirds of the splits gave four pieces or more",
		Real:  realLib, Stubs: []string{"clock", "random source"},
		Assume: []string{"5 to 12 recipients, at least 300 smallest pieces per recipient, faithful random source"}})
}
