package world

import (
	"bytes"
	"context"
	"crypto/sha256"
	"errors"
	"fmt"
	"time"

	"github.com/tokenized/bitcoin_interpreter"
	"github.com/tokenized/bitcoin_interpreter/agent_bitcoin_transfer"
	"github.com/tokenized/channels"
	"github.com/tokenized/channels/unlocking_data"
	"github.com/tokenized/pkg/bitcoin"
	"github.com/tokenized/pkg/expanded_tx"
	"github.com/tokenized/pkg/wire"
	"github.com/tokenized/txbuilder"
	"github.com/tokenized/txbuilder/fees"

	"verifsim/drv"
	"verifsim/ref"
)

// The placeholder world: the first party prepares a draft with its own coins and placeholders for
// the coins of others. The draft travels over a faulty network, parties fill in their coins in any
// order, and everyone computes sizes, values and fees at every step.

type holderCoin struct {
	Owner int    `json:"owner"`
	Lock  int    `json:"lock"`
	Agent bool   `json:"agent,omitempty"` // the lock is wrapped in an agent transfer
	Value uint64 `json:"value"`
	Stale int    `json:"stale,omitempty"` // the announcement that is kept is of another coin
}

type holdersPlan struct {
	Rate    float32      `json:"rate"`
	Dust    float32      `json:"dust"`
	Parties int          `json:"parties"`
	Coins   []holderCoin `json:"coins"`
	Outs    []partyOut   `json:"outs"`
	Graph   int          `json:"graph"`
	Late    bool         `json:"late,omitempty"` // a party fills in one coin each time it is its turn
	Keep    bool         `json:"keep,omitempty"` // the announcement stays in the unlocking script after filling in
	Order   int          `json:"order,omitempty"`
	Hurt    []holderHurt `json:"hurt,omitempty"`
	Faults  Faults       `json:"faults"`
}

// holderHurt damages what one message says about one input. The receiver asks for the message again.
type holderHurt struct {
	Msg  int `json:"msg"` // counted over the messages received
	In   int `json:"in"`
	Kind int `json:"kind"`
	At   int `json:"at,omitempty"`
}

func genHolders(r *drv.R, thorough bool) any {
	n := r.Range(2, 4)
	p := &holdersPlan{Rate: genRate(r), Dust: genDustRate(r), Parties: n, Graph: r.Intn(3), Late: r.P(1, 2), Keep: r.P(1, 2), Order: r.Intn(1000), Faults: genFaults(r, n)}
	for k := r.Range(1, 7); k > 0; k-- {
		c := holderCoin{Owner: r.Intn(n), Lock: r.Intn(160)*8 + r.Intn(7), Value: 1 + r.Log(1<<44)}
		if r.P(1, 12) {
			c.Agent = true
			c.Lock = r.Intn(20)*8 + []int{0, 4, 5}[r.Intn(3)]
		}
		if r.P(1, 6) {
			c.Stale = r.Range(-100, 300)
		}
		p.Coins = append(p.Coins, c)
	}
	for k := r.Intn(4); k > 0; k-- {
		o := partyOut{L: r.Intn(30)*8 + r.Intn(8), V: r.Log(1 << 40)}
		if r.P(1, 5) {
			o.L = 100000 + r.Intn(400)
		}
		p.Outs = append(p.Outs, o)
	}
	for k := r.Intn(4); k > 0; k-- {
		p.Hurt = append(p.Hurt, holderHurt{Msg: r.Intn(6), In: r.Intn(7), Kind: r.Intn(6), At: r.Intn(200)})
	}
	if r.P(1, 40) {
		for len(p.Coins) < 254 {
			p.Coins = append(p.Coins, holderCoin{Owner: len(p.Coins) % n, Lock: 8 * (len(p.Coins) % 40), Value: uint64(len(p.Coins))})
		}
		p.Late = false
	}
	return p
}

type holdCoin struct {
	Coin
	owner int
	size  int // of the unlocking script
}

type feeUnlocker struct{ own bool }

func (u feeUnlocker) UnlockingSize(s bitcoin.Script) (int, error) {
	return fees.EstimateUnlockingSize(s)
}
func (u feeUnlocker) CanUnlock(bitcoin.Script) bool          { return true }
func (u feeUnlocker) CanPartiallyUnlock(bitcoin.Script) bool { return false }
func (u feeUnlocker) Copy() bitcoin_interpreter.Unlocker     { return u }
func (u feeUnlocker) Unlock(context.Context, bitcoin_interpreter.TransactionWithOutputs, int) (bitcoin.Script, error) {
	return nil, errors.New("not used")
}
func (u feeUnlocker) SubUnlock(context.Context, bitcoin_interpreter.TransactionWithOutputs, int, int) (bitcoin.Script, error) {
	return nil, errors.New("not used")
}

type holder struct {
	tx     []byte
	filled []bool
	turn   int
}

type holdersWorld struct {
	t     *drv.T
	p     *holdersPlan
	m     *mesh
	coins []holdCoin
	nodes []*holder
	size  int
	in    uint64
	out   uint64
	got   int
}

func agentScript(l ref.Lock) bitcoin.Script {
	s, err := agent_bitcoin_transfer.CreateScript(append(bitcoin.Script{}, l.Script...), append(bitcoin.Script{}, ref.NewP2PKH(1).Script...),
		append(bitcoin.Script{}, ref.NewP2PKH(2).Script...), 1000, append(bitcoin.Script{}, ref.NewP2PKH(3).Script...), 1700000000)
	if err != nil {
		panic(err)
	}
	return s
}

func placeholder(c holdCoin) bitcoin.Script {
	s, err := channels.Wrap(&unlocking_data.UnlockingData{Size: uint64(c.size), Value: c.Value, Party: unlocking_data.Party(c.owner)})
	if err != nil {
		panic(err)
	}
	return s
}

// expand returns the transaction together with what is known about the coins it spends.
func (w *holdersWorld) expand(tx *wire.MsgTx, filled []bool) *expanded_tx.ExpandedTx {
	e := &expanded_tx.ExpandedTx{Tx: tx, SpentOutputs: make(expanded_tx.Outputs, len(tx.TxIn))}
	for i := range tx.TxIn {
		e.SpentOutputs[i] = &expanded_tx.Output{}
		if filled[i] {
			e.SpentOutputs[i].LockingScript = append(bitcoin.Script{}, w.coins[i].Lock.Script...)
			e.SpentOutputs[i].Value = w.coins[i].Value
		}
	}
	return e
}

// judge compares what a party computes with the filled in draft.
func (w *holdersWorld) judge(party int, tx *txbuilder.TxBuilder, filled []bool, what string) {
	t := w.t
	n := 0
	for _, f := range filled {
		if !f {
			n++
		}
	}
	at := fmt.Sprintf("party %d %s, %d of %d inputs are placeholders", party, what, n, len(filled))
	var size int
	var in, fee, est uint64
	var actual int64
	t.Lib("EstimatedSize", func() { size = tx.EstimatedSize() })
	t.Check(size == w.size, "size", "%s: estimated size %d, with the announced coins %d", at, size, w.size)
	t.Lib("InputValue", func() { in = tx.InputValue() })
	t.Check(in == w.in, "value", "%s: input value %d, with the announced coins %d", at, in, w.in)
	t.Lib("ActualFee", func() { actual = tx.ActualFee() })
	t.Check(actual == int64(w.in)-int64(w.out), "fee", "%s: fee %d, with the announced coins %d", at, actual, int64(w.in)-int64(w.out))
	t.Lib("Fee", func() { fee = tx.Fee() })
	t.Check(w.in < w.out || fee == w.in-w.out, "fee", "%s: fee %d, with the announced coins %d", at, fee, w.in-w.out)
	t.Lib("EstimatedFee", func() { est = tx.EstimatedFee() })
	t.Check(est == ref.Fee(w.size, w.p.Rate), "fee estimate", "%s: estimated fee %d, expected %d", at, est, ref.Fee(w.size, w.p.Rate))

	if m, err := observe(tx); err == nil && len(filled) < 100 && m.hash()%8 == 0 {
		announced := map[int]holdCoin{}
		for i, f := range filled {
			if !f {
				announced[i] = w.coins[i]
			}
		}
		described(t, tx, m, w.size, w.in, true, true, announced, at+": ")
	}

	e := w.expand(tx.MsgTx, filled)
	carriers := []bitcoin_interpreter.TransactionWithOutputs{e}
	if n == 0 {
		carriers = append(carriers, tx)
	}
	for _, c := range carriers {
		var err error
		t.Lib("fees.EstimateSize", func() { size, err = fees.EstimateSize(c, feeUnlocker{}) })
		t.Check(err == nil && size == w.size, "size", "%s: stand-alone estimated size %d %s, with the announced coins %d", at, size, errText(err), w.size)
		t.Lib("fees.InputsValue", func() { in, err = fees.InputsValue(c) })
		t.Check(err == nil && in == w.in, "value", "%s: stand-alone input value %d %s, with the announced coins %d", at, in, errText(err), w.in)
		t.Lib("fees.Fee", func() { actual, err = fees.Fee(c) })
		t.Check(err == nil && actual == int64(w.in)-int64(w.out), "fee", "%s: stand-alone fee %d %s, with the announced coins %d", at, actual, errText(err), int64(w.in)-int64(w.out))
		t.Lib("fees.EstimateFee", func() { est, err = fees.EstimateFee(c, feeUnlocker{}, float64(w.p.Rate)) })
		t.Check(err == nil && est == ref.Fee(w.size, w.p.Rate), "fee estimate", "%s: stand-alone estimated fee %d %s, expected %d", at, est, errText(err), ref.Fee(w.size, w.p.Rate))
	}
	t.ShapeInt(party<<8 | n)
	if n > 0 {
		t.NonTrivial()
	}
}

// build makes the draft from what travels between the parties.
func (w *holdersWorld) build(raw []byte, filled []bool) *txbuilder.TxBuilder {
	var tx *txbuilder.TxBuilder
	var err error
	e := w.expand(parse(raw), filled)
	w.t.Lib("NewTxBuilderFromTransactionWithOutputs", func() {
		tx, err = txbuilder.NewTxBuilderFromTransactionWithOutputs(w.p.Rate, w.p.Dust, e)
	})
	if err != nil {
		w.t.Fail("rebuild", "a draft with placeholders could not be rebuilt: %s", err)
	}
	return tx
}

// hurt judges a draft in which the script of one input was damaged on the way.
func (w *holdersWorld) hurt(id int, msg holdMsg, h holderHurt) {
	t := w.t
	tx := parse(msg.tx)
	if len(tx.TxIn) == 0 {
		return
	}
	i := abs(h.In) % len(tx.TxIn)
	e := w.expand(tx, msg.filled)
	var s bitcoin.Script
	noValue := true
	what := ""
	switch k := abs(h.Kind) % 6; {
	case k == 0:
		what = "no script at all"
	case k == 1:
		what = "a script that is no announcement"
		s = append(bitcoin.Script{2, 1, 2}, w.coins[i].Lock.Script...)
	case k == 2:
		what = "the beginning of an announcement"
		p := placeholder(w.coins[i])
		s = p[:2+abs(h.At)%(len(p)-2)]
	case k == 3:
		what = "an announcement under another name"
		s = placeholder(w.coins[i])
		n := bytes.Index(s, unlocking_data.ProtocolID)
		if n < 0 {
			return
		}
		s[n+abs(h.At)%len(unlocking_data.ProtocolID)] ^= 1 << uint(h.At&7)
	case k == 4:
		what = "data of another kind"
		s = append(bitcoin.Script{}, ref.NewData(abs(h.At)).Script...)
	default:
		// The coin is known, but nobody knows how to spend it.
		what = "a coin of no known kind"
		noValue = false
		e.SpentOutputs[i].LockingScript = bitcoin.Script{0x51, 0x75, 0x51}
		e.SpentOutputs[i].Value = w.coins[i].Value
	}
	if noValue {
		if m, _, err := channels.NewProtocols(unlocking_data.NewProtocol()).Parse(s); err == nil {
			if _, ok := m.(*unlocking_data.UnlockingData); ok {
				return
			}
		}
		tx.TxIn[i].UnlockingScript = s
		tx.TxIn[i].PreviousOutPoint.Hash = bitcoin.Hash32{}
		e.SpentOutputs[i] = &expanded_tx.Output{}
	}
	t.Fault("announcement damaged")
	at := fmt.Sprintf("party %d has %s for input %d", id, what, i)
	size, in := w.size-ref.InSize(w.coins[i].size)+ref.InSize(ref.NewP2PKH(0).MaxUnlock()), w.in
	if noValue {
		in -= w.coins[i].Value
	}
	var b *txbuilder.TxBuilder
	var err error
	t.Lib("NewTxBuilderFromTransactionWithOutputs", func() {
		b, err = txbuilder.NewTxBuilderFromTransactionWithOutputs(w.p.Rate, w.p.Dust, e)
	})
	if err == nil {
		if !noValue {
			b.Inputs[i].LockingScript, b.Inputs[i].Value = e.SpentOutputs[i].LockingScript, e.SpentOutputs[i].Value
		}
		var n int
		var v uint64
		t.Lib("EstimatedSize", func() { n = b.EstimatedSize() })
		t.Check(n == size, "damaged size", "%s: estimated size %d, expected %d", at, n, size)
		t.Lib("InputValue", func() { v = b.InputValue() })
		t.Check(v == in, "damaged value", "%s: input value %d, expected %d", at, v, in)
		var text string
		t.Lib("TxString", func() { text = txbuilder.TxString(b) })
		h := descFee.FindString(text)
		t.Check(!noValue || h == "", "damaged description", "%s: the description states %q", at, h)
		h = descSize.FindString(text)
		t.Check(h == "" || noValue && len(s) > 0 && !s.IsFalseOpReturn(), "damaged description", "%s: the description states %q", at, h)
	}
	carriers := []bitcoin_interpreter.TransactionWithOutputs{e}
	if b != nil {
		carriers = append(carriers, b)
	}
	for _, c := range carriers {
		var n int
		var v, fee uint64
		var actual int64
		t.Lib("fees.EstimateSize", func() { n, err = fees.EstimateSize(c, feeUnlocker{}) })
		t.Check(err != nil, "damaged size", "%s: stand-alone estimated size %d without an error", at, n)
		t.Lib("fees.EstimateFee", func() { fee, err = fees.EstimateFee(c, feeUnlocker{}, float64(w.p.Rate)) })
		t.Check(err != nil, "damaged fee estimate", "%s: stand-alone estimated fee %d without an error", at, fee)
		if noValue {
			t.Lib("fees.InputsValue", func() { v, err = fees.InputsValue(c) })
			t.Check(err != nil, "damaged value", "%s: stand-alone input value %d without an error", at, v)
			t.Lib("fees.Fee", func() { actual, err = fees.Fee(c) })
			t.Check(err != nil, "damaged fee", "%s: stand-alone fee %d without an error", at, actual)
		}
	}
}

type holdMsg struct {
	tx     []byte
	filled []bool
}

func (w *holdersWorld) progress(id int, msg holdMsg) {
	h := w.nodes[id]
	raw, filled := msg.tx, append([]bool{}, msg.filled...)
	if h.tx != nil {
		mine, theirs := parse(h.tx), parse(raw)
		filled = append([]bool{}, h.filled...)
		for i := range mine.TxIn {
			if !filled[i] && msg.filled[i] {
				mine.TxIn[i] = theirs.TxIn[i]
				filled[i] = true
			}
		}
		raw = ref.Serialize(mine)
	}
	tx := w.build(raw, filled)
	w.judge(id, tx, filled, "on receipt")
	var mine []int
	for i := range filled {
		if !filled[i] && w.coins[i].owner == id {
			mine = append(mine, i)
		}
	}
	r := drv.NewR(uint64(w.p.Order) + uint64(id))
	for i := len(mine) - 1; i > 0; i-- {
		j := r.Intn(i + 1)
		mine[i], mine[j] = mine[j], mine[i]
	}
	for k, i := range mine {
		if w.p.Late && k > 0 {
			break
		}
		var err error
		w.t.Lib("UpdateInputUTXO", func() { err = tx.UpdateInputUTXO(i, w.coins[i].utxo()) })
		if err != nil {
			w.t.Fail("fill in", "party %d could not fill in input %d: %s", id, i, err)
		}
		if !w.p.Keep {
			tx.MsgTx.TxIn[i].UnlockingScript = nil
		} else if w.p.Coins[i].Stale != 0 {
			// left from a coin announced earlier, the coin itself is known now
			old := w.coins[i]
			old.size, old.Value = abs(old.size+w.p.Coins[i].Stale), old.Value/2+uint64(abs(w.p.Coins[i].Stale))
			tx.MsgTx.TxIn[i].UnlockingScript = placeholder(old)
			w.t.Fault("outdated announcement")
		}
		filled[i] = true
		if len(filled) < 100 || k%40 == 0 {
			w.judge(id, tx, filled, "after filling in")
		}
		w.t.Probe("placeholder filled in")
	}
	h.tx, h.filled = ref.Serialize(tx.MsgTx), filled
}

func (w *holdersWorld) pass(id int) {
	h := w.nodes[id]
	if h.tx == nil {
		return
	}
	h.turn++
	k := w.p.Parties
	var to []int
	switch {
	case w.p.Graph == 0:
		to = []int{(id + 1) % k}
	case w.p.Graph == 1 && id == 0:
		to = seq(1, k-1)
	case w.p.Graph == 1:
		to = []int{0}
	default:
		to = []int{(id + 1 + h.turn%(k-1)) % k}
	}
	for _, x := range to {
		w.m.send(id, x, holdMsg{h.tx, h.filled})
	}
}

// costs compares the cost of further outputs between the two implementations.
func (w *holdersWorld) costs(s bitcoin.Script, unlock int) {
	t, rate := w.t, w.p.Rate
	var out1, in1, out2, in2 uint64
	var err1, err2 error
	t.Lib("OutputTotalCost", func() { out1, in1, err1 = txbuilder.OutputTotalCost(s, rate) })
	t.Lib("fees.OutputTotalCost", func() { out2, in2, err2 = fees.OutputTotalCost(s, float64(rate)) })
	out := ref.Fee(ref.OutSize(s), rate)
	t.Check(out1 == out && out2 == out, "output cost", "an output of %d bytes of script costs %d and %d, expected %d", len(s), out1, out2, out)
	if unlock < 0 {
		t.Check(err1 != nil && err2 != nil && in1 == 0 && in2 == 0, "unknown script", "cost of spending a script of no known kind: %d %s and %d %s", in1, errText(err1), in2, errText(err2))
		return
	}
	in := ref.Fee(ref.InSize(unlock), rate)
	t.Check(err1 == nil && err2 == nil && in1 == in && in2 == in, "spending cost", "spending a script of %d bytes costs %d %s and %d %s, expected %d", len(s), in1, errText(err1), in2, errText(err2), in)
}

func execHolders(t *drv.T, plan any) {
	p := plan.(*holdersPlan)
	if p.Parties < 2 || p.Parties > 8 || len(p.Coins) == 0 || p.Rate < 0 || p.Dust < 0 {
		return
	}
	w := &holdersWorld{t: t, p: p, m: newMesh(t, p.Parties, p.Faults)}
	tx := txbuilder.NewTxBuilder(p.Rate, p.Dust)
	var filled []bool
	w.size = 8 + ref.VarInt(uint64(len(p.Coins))) + ref.VarInt(uint64(len(p.Outs)))
	for i, c := range p.Coins {
		l := lockOf(c.Lock)
		if l.Kind == ref.Other {
			l = ref.NewP2PKH(i % 40)
		}
		x := holdCoin{owner: abs(c.Owner) % p.Parties, size: l.MaxUnlock()}
		if c.Agent {
			x.size = agent_bitcoin_transfer.ApproveUnlockingSize(l.MaxUnlock())
			l.Script = agentScript(l)
			t.Probe("agent transfer coin")
		}
		v := c.Value
		if v == 0 {
			v = 1
		}
		x.Coin = Coin{Lock: l, Value: v, Hash: bitcoin.Hash32(sha256.Sum256([]byte(fmt.Sprintf("holder coin %d", i)))), Index: uint32(i % 3), KeyID: fmt.Sprint(i)}
		w.coins = append(w.coins, x)
		w.size += ref.InSize(x.size)
		w.in += v
		own := x.owner == 0
		var err error
		if own {
			t.Lib("AddInputUTXO", func() { err = tx.AddInputUTXO(x.utxo()) })
		} else {
			t.Lib("AddInput", func() { err = tx.AddInput(wire.OutPoint{Index: uint32(i)}, nil, 0) })
			if err == nil {
				tx.MsgTx.TxIn[i].UnlockingScript = placeholder(x)
			}
		}
		if err != nil {
			t.Fail("add", "input %d could not be added: %s", i, err)
		}
		filled = append(filled, own)
		w.costs(append(bitcoin.Script{}, l.Script...), x.size)
	}
	for _, o := range p.Outs {
		sc := script(o.L)
		if o.L >= 100000 {
			o.V = 0
		}
		if d := ref.Fee(ref.OutSize(sc), p.Rate); o.V < d && o.L < 100000 {
			o.V = d
		}
		var err error
		t.Lib("AddOutput", func() { err = tx.AddOutput(sc, o.V, false, false) })
		if err != nil {
			t.Fail("add", "output could not be added: %s", err)
		}
		w.size += ref.OutSize(sc)
		w.out += o.V
		l := lockOf(o.L)
		if o.L >= 100000 {
			l = ref.Lock{Kind: ref.Data}
		}
		w.costs(append(bitcoin.Script{}, sc...), l.MaxUnlock())
	}
	for i := 0; i < p.Parties; i++ {
		w.nodes = append(w.nodes, &holder{})
	}
	w.judge(0, tx, filled, "after preparing")
	w.nodes[0].tx, w.nodes[0].filled = ref.Serialize(tx.MsgTx), filled
	w.m.receive = func(to, from int, msg any) {
		x := msg.(holdMsg)
		t.Trace("%v %d -> %d", w.m.now, from, to)
		for _, h := range p.Hurt {
			if h.Msg == w.got {
				w.hurt(to, x, h)
			}
		}
		w.got++
		w.progress(to, x)
	}
	w.m.timer = func(i int) { w.pass(i) }
	w.m.crash = func(int) {}
	w.m.restart = func(i int) {
		h := w.nodes[i]
		t.Shape("restart")
		if h.tx != nil {
			w.judge(i, w.build(h.tx, h.filled), h.filled, "after a restart")
		}
	}
	w.pass(0)
	done := func() bool {
		for _, h := range w.nodes {
			if h.tx == nil {
				return false
			}
			for _, f := range h.filled {
				if !f {
					return false
				}
			}
		}
		return true
	}
	calmAt, calm := time.Duration(0), false
	limit := func() time.Duration {
		if w.m.faultsLeft() {
			return time.Hour
		}
		if !calm {
			calm, calmAt = true, w.m.now
		}
		return calmAt + time.Duration(4*p.Parties+8+6*len(p.Coins))*meshTick
	}
	if !w.m.run(limit, done) {
		t.Fail("no completion", "not every placeholder is filled in at every party after the faults stopped")
	}
	t.State(drv.HashBytes(w.nodes[0].tx))
	t.Trace("done %v", w.m.now)
}

func init() {
	drv.Register(&drv.Prop{ID: "C19", Gen: genHolders, New: func() any { return &holdersPlan{} }, Exec: execHolders,
		Quick: 16000, Thorough: 250000, Chunk: 150,
		World: "placeholders: a draft with placeholder inputs travels between two to four parties over a faulty network (ring, star or all to all), each fills in its coins one at a time or all at once",
		Rule:  "a run is a mixture of coins and placeholders, the order of filling in, and faults by message number, crashes, partitions and clock offsets; decided at every step at every party: size, input value and fees of the builder and of the stand-alone functions equal those with the announced coins filled in, and the cost of further outputs agrees; of a damaged announcement the stand-alone functions give an error; two runs are distinct if the sequence of (party, number of placeholders left) differs; a run is non-trivial if a draft with a placeholder was judged",
		Real:  realLib, Stubs: []string{"network between the parties", "disks of the parties", "carrier of the transaction with an empty output for each placeholder", "clock"},
		Assume: []string{"coins are of a kind whose unlocking size is known", "announced sizes are the worst case sizes", "placeholders have a zero transaction id"}})
}
