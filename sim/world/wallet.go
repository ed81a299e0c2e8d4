package world

import (
	"bytes"
	"crypto/sha256"
	"encoding/json"
	"fmt"
	"slices"

	"github.com/tokenized/pkg/bitcoin"
	"github.com/tokenized/pkg/wire"
	"github.com/tokenized/txbuilder"
	"github.com/tokenized/txbuilder/fees"

	"verifsim/drv"
	"verifsim/ref"
)

// The wallet world: a wallet funds, corrects and signs a draft with coins that a coin service
// delivers in batches over a faulty network. It crashes and restarts from what it saved.

type walletPlan struct {
	Rate    float32      `json:"rate"`
	Dust    float32      `json:"dust"`
	Seed    int64        `json:"seed"`
	Coins   []walletCoin `json:"coins"`
	BulkVal uint64       `json:"bulkval,omitempty"` // amount of each of the many small coins
	Steps   []walletStep `json:"steps"`
}

// walletCoin has an amount that is fixed when the coin is offered for the first time.
type walletCoin struct {
	Lock int    `json:"lock"`
	Rel  int    `json:"rel,omitempty"` // 0 absolute, otherwise relative to what the draft needs at that moment
	V    uint64 `json:"v"`
	Tx   int    `json:"tx"`
	Out  int    `json:"out"`
}

type walletStep struct {
	Op    Op        `json:"op"`             // for deliveries K is fund or fundbreak and C the batch
	Bulk  int       `json:"bulk,omitempty"` // number of small coins in the batch
	Net   Transport `json:"net"`
	Crash bool      `json:"crash,omitempty"`
}

func genWallet(id string) func(*drv.R, bool) any {
	return func(r *drv.R, thorough bool) any {
		p := &walletPlan{Rate: genRate(r), Dust: genDustRate(r), Seed: int64(r.Intn(1<<30) + 1)}
		if id == "C12" && r.P(1, 15) {
			p.Rate = 0
		}
		n := r.Range(2, 10)
		kinds := r.Intn(4)
		most, pays := uint64(60000), uint64(1000000)
		if r.P(1, 8) {
			most, pays = Supply/20, Supply/20
		}
		for _, c := range genCoins(r, n, func() uint64 { return 1 + r.Log(most) }, func() int {
			if kinds == 0 || r.P(1, 2) {
				return r.Intn(12) * 8
			}
			if r.P(1, 8) {
				return r.Intn(400)*8 + 6
			}
			return r.Intn(160)*8 + r.Range(4, 6)
		}) {
			w := walletCoin{Lock: c.Lock, V: c.Value, Tx: c.Tx, Out: c.Out}
			if r.P(1, 2) {
				w.Rel = 1 + r.Intn(6)
				w.V = uint64(r.Intn(9))
			}
			p.Coins = append(p.Coins, w)
		}
		bulk := 0
		if r.P(1, 25) {
			bulk = r.Range(244, 262)
			p.BulkVal = 200 + r.Log(3000)
		}
		fault := r.P(3, 4)
		edit := func() Op {
			k := pickKind(r, map[string]int{"addpay": 6, "addout": 4, "adddust": 3, "addmax": 1, "insout": 1})
			o := genOp(r, k, n)
			if o.L == badAddress {
				o.L = 0
			}
			if o.L >= 100000 && o.K != "addout" && o.K != "insout" {
				o.L = 8
			}
			if o.V > pays {
				o.V %= pays
			}
			if o.L < 100000 && o.L%8 == 7 {
				o.L--
			}
			if r.P(2, 3) {
				o.R = false
			}
			return o
		}
		batch := func() Op {
			o := Op{K: "fund"}
			if r.P(1, 3) {
				o.K = "fundbreak"
				o.V, o.B, o.L = r.Log(5000), r.Intn(5), 20+r.Intn(15)
				if r.P(1, 12) {
					o.A = 1 // no change address
				}
				if r.P(1, 6) {
					o.L = r.Intn(12) // where payments go as well
				}
			}
			for k := r.Range(0, n); k > 0; k-- {
				o.C = append(o.C, r.Intn(n))
			}
			return o
		}
		keys := func(all bool) Op {
			o := Op{K: "sign"}
			if r.P(1, 4) {
				o.K = "signonly"
			}
			if all {
				o.A = 1
				return o
			}
			for i := 0; i < 60; i++ {
				if r.P(2, 3) {
					o.C = append(o.C, i)
				}
			}
			for i := len(o.C) - 1; i > 0; i-- {
				j := r.Intn(i + 1)
				o.C[i], o.C[j] = o.C[j], o.C[i]
			}
			if r.P(1, 5) && len(o.C) > 0 {
				o.C = append(o.C, o.C[r.Intn(len(o.C))])
			}
			return o
		}
		add := func(o Op, b int) {
			s := walletStep{Op: o, Bulk: b}
			if fault {
				if o.K == "fund" || o.K == "fundbreak" {
					s.Net = genTransport(r)
				}
				s.Crash = r.P(1, 25)
			}
			p.Steps = append(p.Steps, s)
		}
		change := func() {
			o := Op{K: "change", L: 8 * (36 + r.Intn(4)), B: r.Intn(3)}
			if r.P(1, 4) {
				o.L = r.Intn(20)*8 + r.Range(4, 5)
			}
			if r.P(1, 3) {
				// the change goes where a payment goes already
				for _, s := range p.Steps {
					if k := s.Op.K; k == "addpay" || k == "addout" || k == "adddust" {
						if x := lockOf(s.Op.L); s.Op.L < 100000 && x.Kind != ref.Other && x.Kind != ref.Data {
							o.L = s.Op.L
						}
					}
				}
			}
			add(o, 0)
		}
		late := r.P(1, 4)
		if !late && r.P(5, 6) {
			change()
		}
		for k := r.Range(1, 4); k > 0; k-- {
			add(edit(), 0)
		}
		meta := r.P(1, 4)
		if r.P(1, 8) {
			add(Op{K: "meta", A: r.Intn(2), M: 4}, 0)
		}
		if bulk > 0 {
			switch r.Intn(5) {
			case 0, 1:
				// many inputs
				add(Op{K: "addpay", L: 16, V: p.BulkVal * uint64(bulk-r.Intn(8))}, 0)
			case 2:
				// many inputs that don't suffice, the count is at its boundary when the next coins come
				bulk = r.Range(251, 253)
				add(Op{K: "addpay", L: 16, V: p.BulkVal * uint64(bulk)}, 0)
				add(Op{K: "fund"}, bulk)
				if r.P(2, 3) {
					bulk = 0
					p.Coins[0].Rel, p.Coins[0].V = 1+r.Intn(6), uint64(r.Intn(9))
					add(Op{K: "fund", C: seq(0, n)}, 0)
				}
			case 3:
				add(Op{K: "manyouts", B: bulk}, 0)
			default:
				// the change crosses the boundary
				add(Op{K: "manyouts", B: r.Range(247, 253)}, 0)
				p.BulkVal = 1000 + r.Log(30000)
				p.Coins[0].Rel, p.Coins[0].V = 0, 75000+r.Log(500000)
				switch r.Intn(3) {
				case 0:
					// the change is removed and added again
					add(Op{K: "change", L: 8 * (36 + r.Intn(4))}, 0)
					add(Op{K: "fund", C: seq(0, n)}, r.Range(0, 200))
					add(Op{K: "remout", A: -1}, 0)
					add(Op{K: "calcfee"}, 0)
				case 1:
					add(Op{K: "change", L: 8 * (36 + r.Intn(4))}, 0)
					add(Op{K: "fund", C: seq(0, n)}, r.Range(0, 200))
				default:
					add(Op{K: "fundbreak", V: r.Log(3000), B: r.Range(1, 4), L: 20 + r.Intn(15), C: seq(0, n)}, r.Range(0, 200))
				}
			}
		}
		for k := r.Range(1, 7); k > 0; k-- {
			fees := 2
			if id == "C28" {
				fees = 12
			}
			switch r.Pick(8, 1, fees, 2, 1, 1) {
			case 0:
				b := 0
				if bulk > 0 && r.P(1, 2) {
					b = bulk
				}
				add(batch(), b)
			case 1:
				add(edit(), 0)
			case 2:
				o := genOp(r, []string{"calcfee", "adjust", "zerofee"}[r.Intn(3)], n)
				if o.K == "adjust" && r.P(1, 2) {
					o = Op{K: "adjust", M: r.Range(1, 4), B: r.Range(-2, 2)}
				}
				add(o, 0)
			case 3:
				add(keys(r.P(1, 2)), 0)
			case 4:
				add(genOp(r, []string{"remin", "remout", "updin", "addval", "setdust", "shuffle", "shuffleafter"}[r.Intn(7)], n), 0)
			default:
				change()
			}
		}
		if late {
			change()
		}
		if meta {
			add(Op{K: "meta", A: r.Intn(20), B: r.Intn(4), V: r.Log(1 << 32), M: r.Intn(6)}, 0)
		}
		if r.P(4, 5) {
			o := batch()
			o.C = append(o.C, seq(0, n)...)
			add(o, bulk)
		}
		if (id == "C14" || id == "C29") && r.P(1, 8) {
			add(Op{K: "oddin", B: r.Intn(5), V: r.Log(50000)}, 0)
		}
		for k := r.Range(0, 3); id == "C14" && k > 0; k-- {
			add(Op{K: "signone", A: r.Intn(n + 1), B: r.Intn(60), M: r.Intn(2)}, 0)
		}
		if r.P(4, 5) {
			add(keys(r.P(3, 4)), 0)
		}
		if r.P(1, 4) {
			add(edit(), 0)
			add(keys(r.P(3, 4)), 0)
		}
		return p
	}
}

type wallet struct {
	t      *drv.T
	p      *walletPlan
	tx     *txbuilder.TxBuilder
	m      *Model
	added  []int8
	coins  map[int]Coin
	bulk   int
	count  int64
	funded bool // funding succeeded and nothing was edited since
	over   bool
}

func (w *wallet) lockOf(in mIn) (ref.Lock, bool) {
	for _, c := range w.coins {
		if c.Hash == in.Hash && c.Index == in.Index {
			return c.Lock, true
		}
	}
	return ref.Lock{}, false
}

func (w *wallet) locks(m *Model) []ref.Lock {
	byOut := map[string]ref.Lock{}
	for _, c := range w.coins {
		byOut[fmt.Sprintf("%x:%d", c.Hash[:], c.Index)] = c.Lock
	}
	var r []ref.Lock
	for _, in := range m.Ins {
		r = append(r, byOut[fmt.Sprintf("%x:%d", in.Hash[:], in.Index)])
	}
	return r
}

func (m *Model) inValue() (v uint64) {
	for _, in := range m.Ins {
		v += in.Value
	}
	return v
}

func (m *Model) outValue() (v uint64) {
	for _, o := range m.Outs {
		v += o.Value
	}
	return v
}

// outTotal is outValue without wrapping around.
func (m *Model) outTotal() (v uint64) {
	const most = 1 << 62
	for _, o := range m.Outs {
		v += min(o.Value, most)
		v = min(v, most)
	}
	return v
}

func (m *Model) outs() []*wire.TxOut {
	var r []*wire.TxOut
	for _, o := range m.Outs {
		r = append(r, &wire.TxOut{Value: o.Value, LockingScript: o.Script})
	}
	return r
}

// fee is the fee for the estimated maximum size of the draft with further coins.
func (w *wallet) fee(m *Model, more ...ref.Lock) uint64 {
	return ref.Fee(ref.MaxSize(append(w.locks(m), more...), m.outs()), m.Rate)
}

// cost of a change output: creating it and spending it later.
func (w *wallet) changeCost(m *Model) (out, in uint64) {
	l := ref.NewP2PKH(0)
	out, in = outFee(l, m.Rate), inFee(l, m.Rate)
	if len(m.Change) > 0 {
		out = ref.Fee(ref.OutSize(m.Change), m.Rate)
		if x, ok := lockByScript(m.Change); ok {
			in = inFee(x, m.Rate)
		}
	}
	for _, o := range m.Outs {
		if o.Rem {
			if x := ref.Fee(ref.OutSize(o.Script), m.Rate); x > out {
				out = x
			}
		}
	}
	return
}

// coin fixes the amount of a coin when it is offered for the first time. in is the value the draft
// would have with the coins offered before it.
func (w *wallet) coin(i int, in uint64, locks []ref.Lock) Coin {
	if c, ok := w.coins[i]; ok {
		return c
	}
	var c Coin
	if i >= 100000 {
		c = CoinPlan{Lock: (i % 12) * 8, Value: w.p.BulkVal, Tx: i}.coin(i)
	} else {
		x := w.p.Coins[i]
		v := x.V
		l := lockOf(x.Lock)
		if x.Rel > 0 {
			out, inp := w.changeCost(w.m)
			dust := ref.Dust(34, w.m.DustRate)
			need := int64(w.m.outValue()+ref.Fee(ref.MaxSize(append(append([]ref.Lock{}, locks...), l), w.m.outs()), w.m.Rate)) - int64(in)
			switch x.Rel {
			case 2:
				need += int64(out)
			case 3:
				need += int64(dust)
			case 4:
				need += int64(dust + out)
			case 5:
				need += int64(2*out + inp)
			case 6:
				need += int64(out + inp)
			}
			need += int64(x.V%9) - 4
			if need < 1 {
				need = 1
			}
			v = uint64(need)
			w.t.Probe("coin at a funding boundary")
		}
		if v == 0 {
			v = 1
		}
		used := map[[2]int]bool{}
		for j := 0; j < i; j++ {
			used[[2]int{w.p.Coins[j].Tx, w.p.Coins[j].Out}] = true
		}
		if used[[2]int{x.Tx, x.Out}] {
			x.Tx = 2000 + i
		}
		c = CoinPlan{Lock: x.Lock, Value: v, Tx: x.Tx, Out: x.Out}.coin(i)
		if c.Lock.Kind == ref.Other {
			c.Lock = ref.NewP2PKH(i % 40)
		}
	}
	w.coins[i] = c
	return c
}

type saved struct {
	Tx      []byte
	Ins     []*txbuilder.InputSupplement
	Outs    []*txbuilder.OutputSupplement
	Change  bitcoin.Script
	KeyID   string
	SendMax bool
}

// restart forgets everything but the saved bytes.
func (w *wallet) restart() {
	w.t.Fault("crash and restart from saved bytes")
	b := &bytes.Buffer{}
	if err := w.tx.MsgTx.Serialize(b); err != nil {
		panic(err)
	}
	disk, err := json.Marshal(saved{b.Bytes(), w.tx.Inputs, w.tx.Outputs, w.tx.ChangeScript, w.tx.ChangeKeyID, w.tx.SendMax})
	if err != nil {
		panic(err)
	}
	var s saved
	if err := json.Unmarshal(disk, &s); err != nil {
		panic(err)
	}
	tx := &wire.MsgTx{}
	if err := tx.Deserialize(bytes.NewReader(s.Tx)); err != nil {
		panic(err)
	}
	w.tx = txbuilder.NewTxBuilder(w.p.Rate, w.p.Dust)
	w.tx.MsgTx, w.tx.Inputs, w.tx.Outputs, w.tx.ChangeScript, w.tx.ChangeKeyID, w.tx.SendMax = tx, s.Ins, s.Outs, s.Change, s.KeyID, s.SendMax
	for i := range w.added {
		w.added[i] = 2
	}
	w.m, _ = observe(w.tx)
}

func execWallet(t *drv.T, plan any) {
	p := plan.(*walletPlan)
	if len(p.Coins) == 0 || p.Rate < 0 || (p.Rate == 0 && !t.On("C12")) {
		return
	}
	w := &wallet{t: t, p: p, tx: txbuilder.NewTxBuilder(p.Rate, p.Dust), coins: map[int]Coin{}}
	w.m, _ = observe(w.tx)
	deliver(t, len(p.Steps), func(i int) Transport {
		if k := p.Steps[i].Op.K; k == "fund" || k == "fundbreak" {
			return p.Steps[i].Net
		}
		return Transport{}
	}, func(i int) bool {
		s := p.Steps[i]
		if s.Op.K == "fund" || s.Op.K == "fundbreak" {
			w.fund(s)
		} else {
			w.step(s.Op)
		}
		if w.over {
			return false
		}
		if s.Crash {
			w.restart()
		}
		return true
	})
}

func (w *wallet) bad(prop, kind, format string, a ...any) {
	if w.t.On(prop) {
		w.t.Fail(kind, format, a...)
	}
	w.t.Probe("run ended early: broken " + prop)
	w.over = true
}

// finish takes over the state after an operation.
func (w *wallet) finish(o Op, res Result) *Model {
	obs, err := observe(w.tx)
	w.t.Trace("%s %+v -> %s", o.K, o, res)
	obs.trace(w.t)
	w.t.Shape(o.K)
	w.t.Shape(errText(causeOf(res.Err)))
	w.t.ShapeInt(len(obs.Ins)*1000 + len(obs.Outs))
	w.t.State(obs.hash())
	if err != nil {
		w.bad("C11", "pairing", "after %s: %v", o.K, err)
		w.over = true
		return obs
	}
	w.totals(obs)
	return obs
}

// totals compares what the draft reports about itself with its parts and with the costs quoted for
// each part.
func (w *wallet) totals(m *Model) {
	t, tx := w.t, w.tx
	if !t.On("C29") {
		return
	}
	in, out, keep, back := m.inValue(), m.outValue(), uint64(0), uint64(0)
	var size, parts int
	locks := w.locks(m)
	t.Lib("totals", func() {
		parts = 8 + txbuilder.VarIntSerializeSize(uint64(len(m.Ins))) + txbuilder.VarIntSerializeSize(uint64(len(m.Outs)))
		for i, x := range m.Ins {
			parts += w.quoteIn(x, locks[i])
		}
		for _, x := range m.Outs {
			parts += w.quoteOut(m, x)
			size := ref.OutSize(x.Script)
			if x.Rem {
				f := ref.Fee(size, m.Rate)
				if f > 0 && ref.Fee(size, m.Rate) != uint64(float64(size)*float64(m.Rate)) {
					f-- // rounded down
				}
				back += x.Value + f
			} else {
				keep += x.Value
			}
		}
		size = tx.EstimatedSize()
		same := func(name string, got, want uint64) {
			t.Check(got == want, "totals", "%s of the draft is %d, its parts give %d", name, got, want)
		}
		same("InputValue", tx.InputValue(), in)
		same("OutputValue with change", tx.OutputValue(true), out)
		same("OutputValue without change", tx.OutputValue(false), keep)
		same("ActualFee", uint64(tx.ActualFee()), in-out)
		fee := uint64(0)
		if in > out {
			fee = in - out
		}
		same("Fee", tx.Fee(), fee)
		same("Remainder", tx.Remainder(), back)
		same("EstimatedFee", tx.EstimatedFee(), ref.Fee(size, m.Rate))
		same("EstimatedFeeValue", txbuilder.EstimatedFeeValue(uint64(size), float64(m.Rate)), ref.Fee(size, m.Rate))
		same("fees.EstimateFeeValue", fees.EstimateFeeValue(size, float64(m.Rate)), ref.Fee(size, m.Rate))
		w.view(m, locks, size)
	})
	t.Check(size == parts, "totals", "the estimated size of the draft is %d, the sizes quoted for its %d inputs and %d outputs give %d", size, len(m.Ins), len(m.Outs), parts)
	if m.hash()%4 == 0 {
		sized, valued := true, true
		for i, x := range m.Ins {
			sized, valued = sized && locks[i].Kind != ref.Other, valued && x.Value > 0
		}
		described(t, tx, m, parts, in, sized, valued, nil, "")
	}
}

// view looks at the draft the way the fee package does.
func (w *wallet) view(m *Model, locks []ref.Lock, size int) {
	t, tx := w.t, w.tx
	t.Check(tx.InputCount() == len(m.Ins) && tx.OutputCount() == len(m.Outs), "view", "%d inputs and %d outputs are reported, there are %d and %d", tx.InputCount(), tx.OutputCount(), len(m.Ins), len(m.Outs))
	t.Check(ref.TxID(tx.GetMsgTx()) == tx.TxID(), "view", "the identifier of the draft is not that of its transaction")
	known := true
	for i, x := range m.Ins {
		known = known && locks[i].Kind != ref.Other && x.Value > 0
		in := tx.Input(i)
		t.Check(in.PreviousOutPoint.Hash == x.Hash && in.PreviousOutPoint.Index == x.Index, "view", "input %d is reported to spend %s, it spends %s", i, in.PreviousOutPoint, x)
		if x.Value > 0 && len(x.Script) > 0 {
			o, err := tx.InputOutput(i)
			t.Check(err == nil && o.Value == x.Value && bytes.Equal(o.LockingScript, x.Script), "view", "the output spent by input %d is reported as %v: %v, it is %s", i, o, err, x)
		}
	}
	for i, x := range m.Outs {
		o := tx.Output(i)
		t.Check(o.Value == x.Value && bytes.Equal(o.LockingScript, x.Script), "view", "output %d is reported as %v, it is %s", i, o, x)
	}
	if !known {
		return
	}
	in, err1 := fees.InputsValue(tx)
	fee, err2 := fees.Fee(tx)
	est, err3 := fees.EstimateSize(tx, feeUnlocker{})
	estFee, err4 := fees.EstimateFee(tx, feeUnlocker{}, float64(m.Rate))
	t.Check(err1 == nil && err2 == nil && err3 == nil && err4 == nil, "view", "the fee package fails on the draft: %v %v %v %v", err1, err2, err3, err4)
	t.Check(in == m.inValue() && fees.OutputsValue(tx) == m.outValue() && fee == int64(m.inValue()-m.outValue()), "view", "the fee package reports %d, %d and %d, the draft has inputs of %d and outputs of %d", in, fees.OutputsValue(tx), fee, m.inValue(), m.outValue())
	t.Check(est == size && estFee == ref.Fee(size, m.Rate), "view", "the fee package estimates a size of %d and a fee of %d, the draft %d and %d", est, estFee, size, ref.Fee(size, m.Rate))
}

// quoteIn asks for the cost of an input and returns its quoted size.
func (w *wallet) quoteIn(x mIn, l ref.Lock) int {
	t, rate := w.t, w.tx.FeeRate
	u := bitcoin.UTXO{Hash: x.Hash, Index: x.Index, Value: x.Value, LockingScript: x.Script, KeyID: x.KeyID}
	if l.Kind == ref.Other {
		_, err1 := txbuilder.InputSize(x.Script)
		_, err2 := txbuilder.UTXOFee(u, rate)
		_, _, err3 := txbuilder.UTXOInputSizeAndFee(u, rate)
		_, err4 := txbuilder.LockingScriptInputFee(x.Script, rate)
		t.Check(err1 != nil && err2 != nil && err3 != nil && err4 != nil, "quote", "a cost is quoted for spending a script of unknown kind: %v %v %v %v", err1, err2, err3, err4)
		return ref.InSize(ref.NewP2PKH(0).MaxUnlock())
	}
	want := ref.InSize(l.MaxUnlock())
	fee := ref.Fee(want, rate)
	unlock, err1 := txbuilder.UnlockingScriptSize(x.Script)
	size, err2 := txbuilder.InputSize(x.Script)
	f1, err3 := txbuilder.UTXOFee(u, rate)
	s2, f2, err4 := txbuilder.UTXOInputSizeAndFee(u, rate)
	f3, err5 := txbuilder.LockingScriptInputFee(x.Script, rate)
	unlock2, err6 := fees.EstimateUnlockingSize(x.Script)
	for i, err := range []error{err1, err2, err3, err4, err5, err6} {
		t.Check(err == nil, "quote", "no cost is quoted (%d) for spending a coin of kind %d: %v", i, l.Kind, err)
	}
	t.Check(unlock == l.MaxUnlock() && unlock2 == unlock && size == want && s2 == want && fees.InputSizeForUnlockingScriptSize(unlock) == want,
		"quote", "quoted sizes for spending a coin of kind %d are %d and %d with scripts of %d and %d, should be %d with %d", l.Kind, size, s2, unlock, unlock2, want, l.MaxUnlock())
	t.Check(f1 == fee && f2 == fee && f3 == fee, "quote", "quoted fees for spending a coin of kind %d are %d, %d and %d, should be %d", l.Kind, f1, f2, f3, fee)
	return size
}

// quoteOut asks for the cost of an output and returns its quoted size.
func (w *wallet) quoteOut(m *Model, x mOut) int {
	t := w.t
	rate, dustRate := m.Rate, m.DustRate
	rate64, dust64 := float64(rate), float64(dustRate)
	script := bitcoin.Script(x.Script)
	want := ref.OutSize(x.Script)
	fee, dust, dustUp := ref.Fee(want, rate), ref.Dust(want, dustRate), ref.Fee((want+148)*3, dustRate)
	if dustUp == 0 {
		dustUp = 1
	}
	same := func(name string, got, want uint64) {
		t.Check(got == want, "quote", "%s quotes %d for a script of %d bytes at rates %v and %v, should be %d", name, got, len(script), rate, dustRate, want)
	}
	txout := &wire.TxOut{Value: x.Value, LockingScript: script}
	size := txbuilder.OutputSize(script)
	same("OutputSize", uint64(size), uint64(want))
	same("fees.OutputSize", uint64(fees.OutputSize(script)), uint64(want))
	same("fees.OutputSizeForLockingScriptSize", uint64(fees.OutputSizeForLockingScriptSize(len(script))), uint64(want))
	same("LockingScriptOutputFee", txbuilder.LockingScriptOutputFee(script, rate), fee)
	same("fees.OutputFeeForLockingScript", fees.OutputFeeForLockingScript(script, rate64), fee)
	f, d := txbuilder.OutputFeeAndDustForLockingScript(script, dustRate, rate)
	same("OutputFeeAndDustForLockingScript fee", f, fee)
	same("OutputFeeAndDustForLockingScript dust", d, dust)
	f, d = fees.OutputFeeAndDustForLockingScript(script, dust64, rate64)
	same("fees.OutputFeeAndDustForLockingScript fee", f, fee)
	same("fees.OutputFeeAndDustForLockingScript dust", d, dustUp)
	s, d := fees.OutputSizeAndDustForLockingScript(script, dust64)
	same("fees.OutputSizeAndDustForLockingScript size", uint64(s), uint64(want))
	same("fees.OutputSizeAndDustForLockingScript dust", d, dustUp)
	same("DustLimit", txbuilder.DustLimit(want, dustRate), dust)
	same("DustLimitForOutput", txbuilder.DustLimitForOutput(txout, dustRate), dust)
	same("DustLimitForLockingScript", txbuilder.DustLimitForLockingScript(script, dustRate), dust)
	same("fees.DustLimit", fees.DustLimit(want, dust64), dustUp)
	same("fees.DustLimitForOutput", fees.DustLimitForOutput(txout, dust64), dustUp)
	same("fees.DustLimitForLockingScript", fees.DustLimitForLockingScript(script, dust64), dustUp)
	same("fees.DustLimitForLockingScriptSize", fees.DustLimitForLockingScriptSize(len(script), dust64), dustUp)
	if l, ok := lockByScript(x.Script); ok {
		spend := inFee(l, rate)
		a, b, err := txbuilder.OutputTotalCost(script, rate)
		t.Check(err == nil && a == fee && b == spend, "quote", "OutputTotalCost quotes %d and %d for kind %d, should be %d and %d: %v", a, b, l.Kind, fee, spend, err)
		a, b, err = fees.OutputTotalCost(script, rate64)
		t.Check(err == nil && a == fee && b == spend, "quote", "fees.OutputTotalCost quotes %d and %d for kind %d, should be %d and %d: %v", a, b, l.Kind, fee, spend, err)
	}
	if ra, err := bitcoin.RawAddressFromLockingScript(script); err == nil {
		if again, err := ra.LockingScript(); err == nil && bytes.Equal(again, script) {
			a, err1 := txbuilder.AddressOutputFee(ra, rate)
			b, err2 := txbuilder.DustLimitForAddress(ra, dustRate)
			c, d, err3 := txbuilder.OutputFeeAndDustForAddress(ra, dustRate, rate)
			t.Check(err1 == nil && err2 == nil && err3 == nil, "quote", "no cost is quoted for an address: %v %v %v", err1, err2, err3)
			same("AddressOutputFee", a, fee)
			same("DustLimitForAddress", b, dust)
			same("OutputFeeAndDustForAddress fee", c, fee)
			same("OutputFeeAndDustForAddress dust", d, dust)
		}
	}
	return size
}

func (w *wallet) nextSeed() int64 {
	w.count++
	return w.p.Seed*1000 + w.count
}

// breakLocks is where the change of a funding with broken change may go.
func breakLocks(o Op) []ref.Lock {
	var r []ref.Lock
	for i := 0; i < 1+o.B%5; i++ {
		r = append(r, ref.NewP2PKH((o.L+i)%40))
	}
	return r
}

func (w *wallet) fund(s walletStep) {
	t, o := w.t, s.Op
	before := w.m
	// the batch
	var offered []Coin
	in := before.inValue()
	locks := w.locks(before)
	for _, i := range o.C {
		c := w.coin(i%len(w.p.Coins), in, locks)
		offered = append(offered, c)
		in += c.Value
		locks = append(locks, c.Lock)
	}
	for i := 0; i < s.Bulk; i++ {
		offered = append(offered, w.coin(100000+w.bulk, 0, nil))
		w.bulk++
	}
	var us []bitcoin.UTXO
	for _, c := range offered {
		us = append(us, c.utxo())
	}
	seed := w.nextSeed()
	changeLocks := breakLocks(o)
	var res Result
	if p := t.Try(func() {
		seedEnv(seed)
		if o.K == "fund" {
			res.Err = w.tx.AddFunding(us)
		} else {
			as := addrKeys(changeLocks)
			if o.A == 1 {
				as = nil
			}
			res.Err = w.tx.AddFundingBreakChange(us, o.V+1, as)
		}
	}); p != nil {
		t.Trace("%s panic %v", o.K, p)
		for _, id := range []string{"C09", "C10", "C11"} {
			if t.On(id) {
				t.Fail("panic", "%s of a draft with %d inputs and %d outputs crashed: %v", o.K, len(before.Ins), len(before.Outs), p)
			}
		}
		w.over = true
		return
	}
	obs := w.finish(o, res)
	if w.over {
		return
	}
	w.untouched(o, before, obs)
	if w.over {
		return
	}
	// which coins could have been taken
	var fresh []Coin
	seen := map[string]bool{}
	for _, x := range before.Ins {
		seen[fmt.Sprintf("%x:%d", x.Hash[:], x.Index)] = true
	}
	for _, c := range offered {
		k := fmt.Sprintf("%x:%d", c.Hash[:], c.Index)
		if seen[k] {
			t.Probe("repeated coin offered")
			continue
		}
		seen[k] = true
		fresh = append(fresh, c)
	}
	taken := obs.Ins[len(before.Ins):]
	t.Checks++
	if len(taken) > len(fresh) {
		w.bad("C10", "order", "%s took %d coins of %d", o.K, len(taken), len(fresh))
		return
	}
	for i, x := range taken {
		c := fresh[i]
		if x.Hash != c.Hash || x.Index != c.Index || x.Value != c.Value || !bytes.Equal(x.Script, c.Lock.Script) || x.KeyID != c.KeyID {
			w.bad("C10", "order", "%s took %s as coin %d, offered was {%x:%d %d key=%q}", o.K, x, i, c.Hash[:3], c.Index, c.Value, c.KeyID)
			return
		}
	}
	k := len(taken)
	out, outNow := before.outTotal(), obs.outTotal()
	chOut, chIn := w.changeCost(before)
	if o.K == "fundbreak" {
		chOut, chIn = outFee(changeLocks[0], before.Rate), inFee(changeLocks[0], before.Rate)
		if x, _ := w.changeCost(before); x > chOut {
			chOut = x
		}
	}
	grow := ref.Fee(4, before.Rate)
	hasRem := false
	for _, x := range before.Outs {
		hasRem = hasRem || x.Rem
	}
	var freshLocks []ref.Lock
	for _, c := range fresh {
		freshLocks = append(freshLocks, c.Lock)
	}

	switch {
	case res.Err == nil:
		t.NonTrivial()
		t.Probe(o.K + " succeeded")
		if k == 0 {
			t.Probe("already funded")
		}
		// enough for outputs and fee
		fee := w.fee(obs)
		inNow := obs.inValue()
		t.Checks++
		if inNow < outNow+fee {
			w.bad("C09", "short", "%s succeeded but inputs %d do not cover outputs %d and the fee %d (%d inputs, %d outputs)", o.K, inNow, outNow, fee, len(obs.Ins), len(obs.Outs))
			return
		}
		surplus := inNow - outNow - fee
		round := uint64(k+len(obs.Outs)-len(before.Outs)) + 2 + grow
		if before.SendMax && hasRem {
			t.Checks++
			if surplus > 0 && o.K == "fund" && len(obs.Outs) == len(before.Outs) {
				w.bad("C09", "surplus", "sending the maximum left %d beyond the fee", surplus)
				return
			}
		}
		received := false
		for i, x := range obs.Outs {
			if x.Rem && (i >= len(before.Outs) || x.Value > before.Outs[i].Value) {
				received = true
			}
		}
		if len(obs.Outs) > len(before.Outs) {
			t.Checks++
			if !slices.ContainsFunc(obs.Outs, func(x mOut) bool { return x.Rem }) {
				w.bad("C09", "unmarked", "%s added %d outputs for the change but none is marked to take what the fee leaves", o.K, len(obs.Outs)-len(before.Outs))
				return
			}
		}
		dust := ref.Dust(34, before.DustRate)
		for _, x := range obs.Outs {
			if x.Rem {
				if d := ref.Dust(ref.OutSize(x.Script), before.DustRate); d > dust {
					dust = d
				}
			}
		}
		if len(before.Change) > 0 {
			if d := ref.Dust(ref.OutSize(before.Change), before.DustRate); d > dust {
				dust = d
			}
		}
		bound := round
		if !received {
			t.Probe("funded without change")
			x := dust + chOut
			if y := 2*chOut + chIn; y > x {
				x = y
			}
			bound += x
			if len(before.Change) == 0 {
				bound += outFee(ref.NewP2PKH(0), before.Rate)*2 + inFee(ref.NewP2PKH(0), before.Rate)*2
			}
		}
		t.Checks++
		if surplus > bound {
			w.bad("C09", "surplus", "%s left %d beyond the fee, at most %d is too small for change (change received %v)", o.K, surplus, bound, received)
			return
		}
		w.funded = true
		// stops at the first coin that completes
		if before.SendMax {
			t.Checks++
			if k != len(fresh) {
				w.bad("C10", "max", "sending the maximum took only %d of %d coins", k, len(fresh))
				return
			}
		} else if k > 0 {
			had := before.inValue()
			for _, c := range fresh[:k-1] {
				had += c.Value
			}
			slack := uint64(k-1) + 0
			if k > 1 {
				slack += grow
			}
			if before.Rate == float32(int(before.Rate)) {
				// fees are whole numbers, nothing is rounded
				slack = 0
			}
			switch {
			case o.K == "fund":
			case k == 1:
				slack += 2*chOut + chIn + 1
			case !hasRem:
				slack += ref.Fee(ref.OutSize(changeLocks[0].Script)+ref.VarInt(uint64(len(before.Outs)+len(changeLocks)))-ref.VarInt(uint64(len(before.Outs))), before.Rate) + slack
			}
			need := out + w.fee(before, freshLocks[:k-1]...) + slack
			t.Checks++
			if had >= need && had > out {
				w.bad("C10", "late", "%s took coin %d of %d although %d already covered outputs %d and fee with %d to spare", o.K, k, len(fresh), had, out, had-need+slack)
				return
			}
		}
	case isErr(res.Err, txbuilder.ErrInsufficientValue):
		t.Probe("insufficient")
		w.funded = false
		t.Checks++
		if k != len(fresh) {
			w.bad("C10", "gaveup", "%s reports insufficient funds after %d of %d coins", o.K, k, len(fresh))
			return
		}
		need := out + w.fee(before, freshLocks...) + uint64(k) + grow
		if o.K == "fundbreak" || before.SendMax {
			need += 2*chOut + chIn + 1
		}
		if obs.inValue() >= need {
			w.bad("C10", "insufficient", "%s reports insufficient funds although %d covers outputs %d and fee (needed at most %d)", o.K, obs.inValue(), out, need)
			return
		}
	case isErr(res.Err, txbuilder.ErrChangeAddressNeeded):
		w.funded = false
		t.Checks++
		if o.K == "fundbreak" && o.A == 1 && !hasRem {
			t.Probe("no change address given")
		} else if len(before.Change) > 0 || hasRem {
			w.bad("C10", "change", "%s asks for a change address although there is one", o.K)
			return
		}
	default:
		w.bad("C10", "error", "%s failed although enough was offered: %s", o.K, errText(res.Err))
		return
	}
	w.m = obs
}

// untouched checks that an operation that may only move value between change and fee did just that.
func (w *wallet) untouched(o Op, before, obs *Model) {
	t := w.t
	t.Checks++
	if len(obs.Ins) < len(before.Ins) {
		w.bad("C11", "inputs", "%s removed inputs", o.K)
		return
	}
	for i, a := range before.Ins {
		b := obs.Ins[i]
		if a.Hash != b.Hash || a.Index != b.Index || a.Value != b.Value || !bytes.Equal(a.Script, b.Script) || a.KeyID != b.KeyID || a.Seq != b.Seq {
			w.bad("C11", "inputs", "%s turned input %d from %s into %s", o.K, i, a, b)
			return
		}
	}
	if o.K != "fund" && o.K != "fundbreak" && len(obs.Ins) != len(before.Ins) {
		w.bad("C11", "inputs", "%s added inputs", o.K)
		return
	}
	if obs.Rate != before.Rate || obs.DustRate != before.DustRate || obs.Version != before.Version || obs.LockTime != before.LockTime || obs.SendMax != before.SendMax {
		w.bad("C11", "settings", "%s changed settings of the draft", o.K)
		return
	}
	// outputs: each one of before is still there in order, except change the fee calculation added
	added := make([]int8, 0, len(obs.Outs))
	j := 0
	for i, a := range before.Outs {
		same := false
		if j < len(obs.Outs) {
			b := obs.Outs[j]
			marks := a.KeyID == b.KeyID && a.Dust == b.Dust && a.Rem == b.Rem
			if o.K == "fundbreak" && !a.Rem && b.Rem && bytes.Equal(a.Script, b.Script) && a.Value == b.Value {
				marks = true // funding sets the change address, which marks outputs that pay it
			}
			same = bytes.Equal(a.Script, b.Script) && marks && (a.Rem || a.Value == b.Value)
		}
		if same {
			added = append(added, w.added[i])
			j++
			continue
		}
		if a.Rem && w.added[i] != 0 && o.K != "signonly" {
			t.Probe("fee-added change removed")
			continue
		}
		now := "gone"
		if j < len(obs.Outs) {
			now = obs.Outs[j].String()
		}
		w.bad("C11", "outputs", "%s changed output %d from %s to %s", o.K, i, a, now)
		return
	}
	for ; j < len(obs.Outs); j++ {
		b := obs.Outs[j]
		ok := b.Rem || o.K == "fundbreak"
		if o.K == "signonly" || !ok {
			w.bad("C11", "outputs", "%s added output %s", o.K, b)
			return
		}
		mine := len(before.Change) > 0 && bytes.Equal(b.Script, before.Change) && b.KeyID == before.ChangeKey
		if o.K == "fundbreak" {
			for i, l := range breakLocks(o) {
				mine = mine || bytes.Equal(b.Script, l.Script) && b.KeyID == keyName("key", i)
			}
		}
		if !mine {
			w.bad("C11", "destination", "%s added output %s, which is not where change should go", o.K, b)
			return
		}
		if o.K == "fund" || o.K == "fundbreak" {
			added = append(added, 2)
		} else {
			added = append(added, 1)
		}
	}
	w.added = added
}

func (w *wallet) step(o Op) {
	t := w.t
	before := w.m
	if o.K == "remout" && o.A < 0 {
		o.A = len(before.Outs) - 1 // the last one
		if o.A < 0 {
			return
		}
	}
	switch o.K {
	case "oddin":
		w.oddIn(o)
		return
	case "signone":
		w.signOne(o, before)
		return
	}
	o, ok := resolve(o, len(before.Ins), len(before.Outs))
	if !ok {
		return
	}
	if o.K == "adjust" && o.M > 0 {
		o = w.boundary(o, before)
	}
	switch o.K {
	case "manyouts":
		for i := 0; i < o.B; i++ {
			w.tx.AddOutput(append(bitcoin.Script{}, ref.NewP2PKH(i%12).Script...), 300, false, false)
		}
		w.m, _ = observe(w.tx)
		w.added = append(w.added, make([]int8, len(w.m.Outs)-len(w.added))...)
		w.funded = false
		return
	case "meta":
		// settings a caller makes directly
		switch o.M {
		case 0:
			w.tx.MsgTx.Version = int32(o.B)
		case 1:
			w.tx.MsgTx.LockTime = uint32(o.V)
		case 4:
			// payments under the identifier that the change has
			for i, x := range before.Outs {
				if !x.Rem && w.added[i] == 0 && (i+o.A)%2 == 0 {
					w.tx.Outputs[i].KeyID = w.tx.ChangeKeyID
					t.Probe("payment under the change's key identifier")
				}
			}
		default:
			if len(before.Ins) > 0 {
				w.tx.MsgTx.TxIn[o.A%len(before.Ins)].Sequence = uint32(o.V)
			}
		}
		w.m, _ = observe(w.tx)
		return
	case "remin", "remout", "addval", "subval", "setdust", "updin", "shuffle", "shuffleafter", "addpay", "addout", "adddust", "addmax", "insout", "change":
		w.edit(o)
		return
	}
	if o.K == "sign" || o.K == "signonly" {
		if o.A == 1 {
			o.C = nil
			have := map[int]bool{}
			for _, l := range w.locks(before) {
				for _, k := range l.Keys {
					if !have[k] {
						have[k] = true
						o.C = append(o.C, k)
					}
				}
			}
		}
	}
	var res Result
	if p := t.Try(func() { res = apply(w.tx, o, []Coin{{}}, w.nextSeed()) }); p != nil {
		t.Trace("%s panic %v", o.K, p)
		for _, id := range []string{"C09", "C11", "C12", "C14", "C28"} {
			if t.On(id) {
				t.Fail("panic", "%s of a draft with %d inputs and %d outputs crashed: %v", o.K, len(before.Ins), len(before.Outs), p)
			}
		}
		w.over = true
		return
	}
	obs := w.finish(o, res)
	if w.over {
		return
	}
	added := w.added
	w.untouched(o, before, obs)
	if w.over {
		return
	}
	switch o.K {
	case "calcfee", "adjust", "zerofee":
		w.funded = false
		w.judgeFee(o, res, before, obs, added)
	case "sign", "signonly":
		w.judgeSign(o, res, before, obs)
	}
	w.m = obs
}

func (w *wallet) edit(o Op) {
	before := w.m
	var res Result
	var cs []Coin
	if o.K == "updin" {
		cs = []Coin{w.coin(o.B%len(w.p.Coins), before.inValue(), w.locks(before))}
		o.B = 0
	}
	if p := w.t.Try(func() { res = apply(w.tx, o, append(cs, Coin{}), w.nextSeed()) }); p != nil {
		w.over = true
		return
	}
	w.funded = false
	obs := w.finish(o, res)
	if w.over {
		return
	}
	w.m = obs
	if res.Err != nil {
		return
	}
	switch o.K {
	case "remout":
		w.added = append(append([]int8{}, w.added[:o.A]...), w.added[o.A+1:]...)
	case "shuffle", "shuffleafter":
		for i := range w.added {
			w.added[i] = 2
		}
	case "insout":
		w.added = append(append(append([]int8{}, w.added[:o.A]...), 0), w.added[o.A:]...)
	}
	for len(w.added) < len(obs.Outs) {
		w.added = append(w.added, 0)
	}
}

// boundary makes an adjustment that leaves change just at one of the limits.
func (w *wallet) boundary(o Op, m *Model) Op {
	out, in := w.changeCost(m)
	amount := -int64(out + in)
	for _, x := range m.Outs {
		if x.Rem {
			cost := ref.Fee(ref.OutSize(x.Script), m.Rate)
			if l, ok := lockByScript(x.Script); ok {
				cost += inFee(l, m.Rate)
			}
			amount = int64(x.Value) - int64(cost)
			if o.M == 1 {
				amount = int64(x.Value) // all of it
			}
			break
		}
	}
	if o.M == 4 {
		// more than the first change, not more than all change together
		sum, first := int64(0), int64(0)
		for _, x := range m.Outs {
			if x.Rem {
				if sum == 0 {
					first = int64(x.Value)
				}
				sum += int64(x.Value)
			}
		}
		if sum > first {
			w.t.Probe("fee beyond the first change")
			amount = first + (sum-first)/2
		}
	}
	if amount < 0 && o.M != 2 {
		amount -= int64(out)
		if o.M == 3 {
			amount = 2*amount + int64(out)
		}
	}
	amount += int64(o.B)
	o.V, o.A = 0, 0
	if amount > 0 {
		o.V = uint64(amount)
	} else {
		o.A = int(-amount)
	}
	return o
}

// judgeFee checks that a fee operation moved exactly what it should between change and fee.
func (w *wallet) judgeFee(o Op, res Result, before, obs *Model, added []int8) {
	t := w.t
	if !t.On("C28") {
		return
	}
	paid := func(m *Model) int64 { return int64(m.inValue()) - int64(m.outTotal()) }
	amount := int64(o.V) - int64(o.A)
	switch o.K {
	case "calcfee":
		amount = int64(w.fee(before)) - paid(before)
	case "zerofee":
		amount = -paid(before)
	}
	at, rems := -1, 0
	for i, x := range before.Outs {
		if x.Rem {
			rems++
			if at < 0 {
				at = i
			}
		}
	}
	short := isErr(res.Err, txbuilder.ErrInsufficientValue)
	same := before.diff(obs) == ""
	if o.K == "adjust" && res.Err == nil {
		// nothing to do, nothing done because it is not worth it, or no change left to take from
		end := same || len(obs.Outs) < len(before.Outs)
		t.Check(res.Done == end, "done", "%s by %d reports %v for no further adjustments, the draft was altered: %v, outputs were %d and are %d", o.K, amount, res.Done, !same, len(before.Outs), len(obs.Outs))
	}
	if o.K == "calcfee" && res.Err == nil {
		// what a fee calculation is for
		t.NonTrivial()
		left := paid(obs) - int64(w.fee(obs))
		rem := false
		for _, x := range obs.Outs {
			rem = rem || x.Rem
		}
		if rem && len(obs.Outs) >= len(before.Outs) {
			t.Check(left == 0, "exact", "after the fee calculation inputs minus outputs is %d, the fee for the estimated size is %d", paid(obs), w.fee(obs))
		} else {
			t.Check(left >= 0, "exact", "after the fee calculation inputs minus outputs is %d, the fee for the estimated size is %d", paid(obs), w.fee(obs))
		}
	}
	switch {
	case amount == 0:
		t.Check(res.Err == nil && same, "nothing", "%s had nothing to do: %s", o.K, errText(res.Err))
	case amount > 0 && at < 0:
		t.Probe("no change to pay the fee")
		t.Check(short && same, "nochange", "%s of a draft without change needs %d more for the fee: %s", o.K, amount, errText(res.Err))
	case amount > 0:
		x := before.Outs[at]
		l, known := lockByScript(x.Script)
		cost := ref.Fee(ref.OutSize(x.Script), before.Rate)
		if known {
			cost += inFee(l, before.Rate)
		}
		switch {
		case res.Err == nil && len(obs.Outs) < len(before.Outs):
			t.Probe("change too small, removed")
			t.Check(x.Value >= uint64(amount), "removed", "%s took %d from a change of %d", o.K, amount, x.Value)
			t.Check(!known || x.Value-uint64(amount) < cost, "removed", "%s removed change that had %d left, worth keeping from %d on", o.K, x.Value-uint64(amount), cost)
		case res.Err == nil:
			t.Probe("fee taken from change")
			t.Check(x.Value >= uint64(amount) && obs.Outs[at].Value == x.Value-uint64(amount) && paid(obs) == paid(before)+amount, "moved", "%s should move %d from change to fee, change was %d and is %d, fee was %d and is %d", o.K, amount, x.Value, obs.Outs[at].Value, paid(before), paid(obs))
			t.Check(!known || obs.Outs[at].Value >= cost, "kept", "%s left a change of %d, which costs %d to create and spend", o.K, obs.Outs[at].Value, cost)
		default:
			t.Probe("fee beyond the change")
			t.Check(short, "error", "%s that needs %d of a change of %d failed: %s", o.K, amount, x.Value, errText(res.Err))
			t.Check(!known || added[at] != 1 || x.Value < uint64(amount), "stuck", "%s fails instead of removing the change of %d it had added, %d is needed", o.K, x.Value, amount)
			t.Check(!known || rems > 1 || x.Value < uint64(amount)+cost, "spurious", "%s reports insufficient value although a change of %d can pay %d", o.K, x.Value, amount)
		}
	case at >= 0:
		t.Probe("change increased")
		t.Check(res.Err == nil && len(obs.Outs) == len(before.Outs) && obs.Outs[at].Value > before.Outs[at].Value && obs.Outs[at].Value == before.Outs[at].Value+uint64(-amount) && paid(obs) == paid(before)+amount, "moved", "%s should move %d from fee to change: %s, fee was %d and is %d", o.K, -amount, errText(res.Err), paid(before), paid(obs))
	default:
		over := uint64(-amount)
		change := before.Change
		need := errText(res.Err)
		if len(change) == 0 {
			change = ref.NewP2PKH(0).Script
		}
		with := before.clone()
		with.Outs = append(with.Outs, mOut{Script: change})
		create := w.fee(with) - w.fee(before)
		out, in := ref.Fee(ref.OutSize(change), before.Rate), uint64(0)
		if l, ok := lockByScript(change); ok {
			in = inFee(l, before.Rate)
		}
		switch {
		case len(obs.Outs) > len(before.Outs):
			t.Probe("change added")
			x := obs.Outs[len(obs.Outs)-1]
			t.Check(len(before.Change) > 0 && res.Err == nil && over >= create && x.Value == over-create && x.Value > out+in, "added", "%s added change of %d: %d was left over, creating change costs %d, spending it %d: %s", o.K, x.Value, over, create, in, need)
		case len(before.Change) == 0:
			t.Check(same, "left", "%s without a change address altered the draft", o.K)
			t.Check(res.Err == nil || isErr(res.Err, txbuilder.ErrChangeAddressNeeded), "error", "%s failed: %s", o.K, need)
			t.Check(res.Err != nil || over <= create+2*out+2*in+2, "lost", "%s without a change address leaves %d as fee", o.K, over)
			t.Check(res.Err == nil || over > create+out+in, "address", "%s asks for a change address for %d", o.K, over)
		default:
			t.Probe("too small for change")
			t.Check(res.Err == nil && same && (over < create || over-create <= out+in), "left", "%s did not add change although %d is left over: %s", o.K, over, need)
		}
	}
}

// oddIn adds a coin with a script nobody can sign for.
func (w *wallet) oddIn(o Op) {
	s := ref.NewP2PKH(3).Script
	s = [][]byte{
		append(append([]byte{0xa9, 0x14}, s[3:23]...), 0x87), // hash of a script
		{0x51},
		append(append([]byte{}, s...), 0x61),
		append(append([]byte{0x51}, ref.NewP2PK(3).Script[:34]...), 0x51, 0xae), // bare multi signature
		{0x00, 0x6a, 0x01, 0x02},
	}[o.B%5]
	c := Coin{Lock: ref.Lock{Kind: ref.Other, Script: s}, Value: o.V, Hash: sha256.Sum256([]byte("odd")), Index: uint32(o.B)}
	err := w.tx.AddInputUTXO(c.utxo())
	w.t.Trace("oddin %+v -> %s", o, errText(err))
	if err == nil {
		w.coins[-1-o.B%5] = c
		w.t.Fault("input nobody can sign")
	}
	w.funded = false
	w.m, _ = observe(w.tx)
}

// signOne signs one input with one key.
func (w *wallet) signOne(o Op, before *Model) {
	t := w.t
	locks := w.locks(before)
	key := o.B
	i := o.A % (len(locks) + 1)
	if i < len(locks) && o.M == 0 && len(locks[i].Keys) > 0 {
		key = locks[i].Keys[0]
	}
	var err error
	if p := t.Try(func() { err = w.tx.SignP2PKHInput(i, ref.K(key).Key, &txbuilder.SigHashCache{}) }); p != nil {
		t.Fail("panic", "signing input %d of %d with a key crashed: %v", i, len(locks), p)
	}
	obs, bad := observe(w.tx)
	t.Trace("signone %+v -> %s", o, errText(err))
	obs.trace(t)
	if bad != nil {
		t.Fail("pairing", "after signing input %d: %v", i, bad)
	}
	w.m = obs
	if i == len(locks) || locks[i].Kind != ref.P2PKH || locks[i].Keys[0] != key {
		t.Fault("wrong key for an input")
		t.Check(err != nil, "wrong key", "input %d of %d was signed with a key that is not the one it needs", i, len(locks))
		d := before.diff(obs)
		t.Check(d == "", "touched", "the attempt to sign input %d of %d failed but changed the transaction: %s", i, len(locks), d)
		return
	}
	t.Check(err == nil, "error", "input %d could not be signed with its key: %s", i, errText(err))
	err = ref.CheckInput(w.tx.MsgTx, i, locks[i], obs.Ins[i].Value)
	t.Check(err == nil, "invalid", "signing input %d left an unlocking script that is not accepted: %v", i, err)
	after := before.clone()
	after.Ins[i].Unlock = obs.Ins[i].Unlock
	d := after.diff(obs)
	t.Check(d == "", "touched", "signing input %d changed more than its script: %s", i, d)
}

func (w *wallet) judgeSign(o Op, res Result, before, obs *Model) {
	t := w.t
	locks := w.locks(obs)
	have := map[int]bool{}
	for _, k := range o.C {
		have[k] = true
	}
	can := func(k int) bool { return have[k] }
	all := true
	todo := make([]bool, len(obs.Ins))
	for i := range obs.Ins {
		if o.K == "signonly" && len(before.Ins[i].Unlock) > 0 {
			continue
		}
		todo[i] = locks[i].CanSign(can)
		all = all && todo[i]
	}
	missing := isErr(res.Err, txbuilder.ErrMissingPrivateKey)
	if res.Err == nil || missing {
		t.NonTrivial()
	}
	if missing {
		t.Fault("keys missing")
	}

	// C09: signing succeeds after successful funding
	dest := len(before.Change) > 0
	for _, x := range before.Outs {
		dest = dest || x.Rem
	}
	if o.K == "sign" && w.funded && dest && all {
		t.Checks++
		if res.Err != nil {
			w.bad("C09", "sign", "signing with all keys failed after successful funding: %s", errText(res.Err))
			return
		}
	}

	// C12: the fee of a fully signed transaction
	if o.K == "sign" && res.Err == nil && t.On("C12") {
		in, out := obs.inValue(), obs.outTotal()
		size := ref.Size(w.tx.MsgTx)
		min := ref.Fee(size, obs.Rate)
		t.Check(in >= out && in-out >= min, "floor", "the signed transaction pays %d for %d bytes, rate %v requires %d", int64(in)-int64(out), size, obs.Rate, min)
		max := w.fee(obs)
		rem := false
		for _, x := range obs.Outs {
			rem = rem || x.Rem
		}
		if !rem {
			t.Probe("signed without change")
			if len(obs.Change) > 0 {
				a, b := w.changeCost(obs)
				max += 2*a + b + 1
			} else {
				l := ref.NewP2PKH(0)
				max += 3*outFee(l, obs.Rate) + 2*inFee(l, obs.Rate) + 2
			}
		} else {
			t.Probe("signed with change")
		}
		t.Check(in-out <= max, "ceiling", "the signed transaction pays %d, at most %d is expected (%d bytes, change %v)", in-out, max, size, rem)
	}

	if !t.On("C14") {
		return
	}
	if slices.ContainsFunc(locks, func(l ref.Lock) bool { return l.Kind == ref.Other }) {
		t.Check(res.Err != nil, "unsigned", "%s succeeded although an input can not be signed", o.K)
		if !isErr(res.Err, txbuilder.ErrInsufficientValue) && !isErr(res.Err, txbuilder.ErrChangeAddressNeeded) {
			for i, l := range locks {
				if l.Kind != ref.Other && !bytes.Equal(obs.Ins[i].Unlock, before.Ins[i].Unlock) {
					err := ref.CheckInput(w.tx.MsgTx, i, l, obs.Ins[i].Value)
					t.Check(err == nil, "invalid", "%s left input %d with an unlocking script that is not accepted: %v", o.K, i, err)
				}
			}
		}
		return
	}
	if res.Err != nil && !missing {
		if o.K == "signonly" {
			t.Fail("error", "signing failed: %s", errText(res.Err))
		}
		return // value problems are not decided here
	}
	t.Check(missing == !all, "missing", "%s with keys %v: missing keys reported %v, inputs that could not be signed %v", o.K, o.C, missing, !all)
	signed := true
	for i, x := range obs.Ins {
		is := false
		t.Lib("InputIsSigned", func() { is = w.tx.InputIsSigned(i) })
		t.Check(is == (len(x.Unlock) > 0), "reported", "input %d is reported as signed: %v", i, is)
		signed = signed && is
	}
	is, none := false, true
	t.Lib("AllInputsAreSigned", func() { is = w.tx.AllInputsAreSigned() })
	t.Lib("InputIsSigned", func() { none = w.tx.InputIsSigned(len(obs.Ins)) })
	t.Check(is == signed, "reported", "all inputs are reported as signed: %v, in truth %v", is, signed)
	t.Check(!none, "reported", "an input past the end is reported as signed")
	want := map[string]bool{}
	for i := range obs.Ins {
		if !todo[i] {
			t.Check(bytes.Equal(obs.Ins[i].Unlock, before.Ins[i].Unlock), "touched", "%s changed the unlocking script of input %d without having its keys", o.K, i)
			continue
		}
		err := ref.CheckInput(w.tx.MsgTx, i, locks[i], obs.Ins[i].Value)
		t.Check(err == nil, "invalid", "%s left input %d with an unlocking script that is not accepted: %v", o.K, i, err)
		if err := ref.Interpret(w.tx.MsgTx, i, locks[i].Script, obs.Ins[i].Value); err != nil {
			t.Fail("invalid", "%s left input %d with an unlocking script the interpreter does not accept: %v", o.K, i, err)
		}
		t.Probe(fmt.Sprintf("valid input of kind %d", locks[i].Kind))
		for _, k := range usedKeys(locks[i], obs.Ins[i].Unlock) {
			want[k] = true
		}
	}
	got := map[string]bool{}
	for _, k := range res.Keys {
		b := string(k.PublicKey().Bytes())
		t.Check(!got[b], "keys", "a used key is returned twice")
		got[b] = true
		t.Check(want[b], "keys", "a key is returned that was not used")
	}
	t.Check(len(got) == len(want), "keys", "%d used keys returned, %d were used", len(got), len(want))
}

// usedKeys returns the public keys behind an unlocking script.
func usedKeys(l ref.Lock, unlock []byte) []string {
	if l.Kind == ref.P2PK {
		return []string{string(ref.K(l.Keys[0]).Pub)}
	}
	var r []string
	for _, k := range l.Keys {
		if bytes.Contains(unlock, ref.K(k).Pub) {
			r = append(r, string(ref.K(k).Pub))
		}
	}
	return r
}

func init() {
	for id, rule := range map[string]string{
		"C09": "funding succeeds only with enough value, bounded surplus, signing afterwards",
		"C10": "coins taken in order, stop at the first sufficient one, insufficient only if short",
		"C11": "payments and spent coins untouched",
		"C12": "fee of signed transactions between floor and ceiling",
		"C14": "validity of signed inputs, missing keys, returned keys",
		"C29": "reported totals and quoted costs against the parts of the draft",
		"C28": "amounts moved between change and fee by fee calculation and adjustment",
	} {
		q := 16000
		if id == "C14" || id == "C29" {
			q = 8000
		}
		drv.Register(&drv.Prop{ID: id, Gen: genWallet(id), New: func() any { return &walletPlan{} }, Exec: execWallet,
			Quick: q, Thorough: q * 25, Chunk: q / 40,
			World: "wallet: coins arrive in batches over a faulty network, the wallet funds, corrects the fee, signs, crashes and restarts from saved bytes",
			Rule:  "a run is a history of edits, coin deliveries (lost, repeated, delayed, reordered), fee operations, signing attempts and crashes, with coin amounts at the funding boundaries; decided: " + rule + "; two runs are distinct if the sequence of (operation, outcome, number of inputs and outputs) differs; a run is non-trivial if funding or signing succeeded at least once",
			Real:  realLib, Stubs: []string{"coin service and network", "disk of the wallet", "clock", "random source"},
			Assume: []string{"coins are of the three kinds the library can sign", "rates are positive (C12: or zero)", "threshold coins list distinct keys"}})
	}
}
