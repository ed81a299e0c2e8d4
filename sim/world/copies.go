package world

import (
	"fmt"

	"github.com/tokenized/txbuilder"

	"verifsim/drv"
)

// The fork world: several holders work on drafts that were copied from each other at arbitrary
// moments. Every draft has a shadow that was never copied: a fresh builder to which the whole
// history of the draft has been applied.

type copyPlan struct {
	Rate  float32    `json:"rate"`
	Dust  float32    `json:"dust"`
	Seed  int64      `json:"seed"`
	Coins []CoinPlan `json:"coins"`
	Steps []copyStep `json:"steps"`
}

type copyStep struct {
	D     int  `json:"d"` // which draft
	Op    Op   `json:"op"`
	Copy  bool `json:"copy,omitempty"`  // the draft is copied, the copy becomes a further draft
	Wreck bool `json:"wreck,omitempty"` // everything reachable from the draft is overwritten, its holder is gone
}

var copyWeights = map[string]int{"addutxo": 5, "addin": 1, "insin": 2, "updin": 3, "remin": 2, "addout": 5, "addpay": 3, "adddust": 2,
	"addmax": 1, "insout": 2, "remout": 2, "addval": 3, "subval": 2, "setdust": 2, "updout": 2, "change": 3, "changes": 1, "break": 2,
	"shuffle": 2, "shuffleafter": 2, "fund": 3, "fundbreak": 2, "calcfee": 5, "zerofee": 1, "adjust": 6, "sign": 2, "signonly": 1,
	"header": 2, "seq": 3, "outkey": 2, "rate": 2}

func genCopy(r *drv.R, thorough bool) any {
	p := &copyPlan{Rate: genRate(r), Dust: genDustRate(r), Seed: int64(r.Intn(1<<30) + 1)}
	n := r.Range(3, 8)
	p.Coins = genCoins(r, n, func() uint64 { return r.Log(200000) }, func() int {
		if r.P(1, 4) {
			return r.Intn(20)*8 + r.Range(4, 6)
		}
		return r.Intn(12) * 8
	})
	w := map[string]int{}
	for _, k := range sortedKeys(copyWeights) {
		if !r.P(1, 6) {
			w[k] = copyWeights[k]
		}
	}
	if len(w) == 0 {
		w = copyWeights
	}
	max := 28
	if thorough {
		max = 50
	}
	for s := r.Range(3, max); s > 0; s-- {
		st := copyStep{D: r.Intn(6)}
		switch r.Pick(12, 2, 1) {
		case 0:
			st.Op = genOp(r, pickKind(r, w), n)
		case 1:
			st.Copy = true
		default:
			st.Wreck = true
		}
		p.Steps = append(p.Steps, st)
	}
	return p
}

type fork struct {
	name   string
	tx     *txbuilder.TxBuilder
	shadow *txbuilder.TxBuilder
	log    []logEntry
	m      *Model
}

// resolve makes the index of an operation one that exists.
func resolve(o Op, ins, outs int) (Op, bool) {
	if !isIndexed[o.K] {
		return o, true
	}
	c := outs
	if onInputs[o.K] {
		c = ins
	}
	if o.K == "insin" || o.K == "insout" {
		c++
	}
	if c == 0 {
		return o, false
	}
	o.A %= c
	return o, true
}

// wreck overwrites everything reachable from a draft.
func wreck(tx *txbuilder.TxBuilder) {
	bs := func(b []byte) {
		b = b[:cap(b)]
		for i := range b {
			b[i] ^= 0xa5
		}
	}
	for _, in := range tx.MsgTx.TxIn {
		bs(in.UnlockingScript)
		in.PreviousOutPoint.Hash[0] ^= 0xff
		in.PreviousOutPoint.Index++
		in.Sequence--
	}
	for _, out := range tx.MsgTx.TxOut {
		bs(out.LockingScript)
		out.Value++
	}
	for _, in := range tx.Inputs {
		bs(in.LockingScript)
		in.Value++
		in.KeyID += "x"
	}
	for _, out := range tx.Outputs {
		out.IsDust, out.IsRemainder = !out.IsDust, !out.IsRemainder
		out.KeyID += "x"
	}
	bs(tx.ChangeScript)
	tx.MsgTx.LockTime++
	tx.MsgTx.Version++
	for i := range tx.MsgTx.TxIn {
		tx.MsgTx.TxIn[i] = nil
	}
	for i := range tx.MsgTx.TxOut {
		tx.MsgTx.TxOut[i] = nil
	}
	for i := range tx.Inputs {
		tx.Inputs[i] = nil
	}
	for i := range tx.Outputs {
		tx.Outputs[i] = nil
	}
}

func execCopy(t *drv.T, plan any) {
	p := plan.(*copyPlan)
	if len(p.Coins) == 0 {
		return
	}
	coins := coinsOf(p.Coins)
	first := &fork{name: "0", tx: txbuilder.NewTxBuilder(p.Rate, p.Dust), shadow: txbuilder.NewTxBuilder(p.Rate, p.Dust)}
	first.m, _ = observe(first.tx)
	drafts := []*fork{first}
	made := 1

	others := func(me *fork, what string) {
		for _, d := range drafts {
			if d == me {
				continue
			}
			var m *Model
			var err error
			if p := t.Try(func() { m, err = observe(d.tx) }); p != nil {
				err = fmt.Errorf("%v", p)
			}
			t.Check(err == nil, "visible", "%s on draft %s broke draft %s: %v", what, me.name, d.name, err)
			diff := d.m.diff(m)
			t.Check(diff == "", "visible", "%s on draft %s is visible in draft %s: %s", what, me.name, d.name, diff)
		}
	}
	retire := func(me *fork) {
		for i, d := range drafts {
			if d == me {
				drafts = append(drafts[:i:i], drafts[i+1:]...)
			}
		}
	}
	// step applies an operation to a draft and its shadow and reports whether the draft lives on.
	step := func(me *fork, o Op, seed int64) {
		o, ok := resolve(o, len(me.m.Ins), len(me.m.Outs))
		if !ok {
			return
		}
		var r1, r2 Result
		p1 := t.Try(func() { r1 = apply(me.tx, o, coins, seed) })
		p2 := t.Try(func() { r2 = apply(me.shadow, o, coins, seed) })
		t.Trace("draft %s %s %+v -> %s", me.name, o.K, o, r1)
		t.Shape(o.K)
		t.ShapeInt(len(me.log)*8 + b2i(r1.Err == nil))
		t.Check((p1 == nil) == (p2 == nil), "differs", "%s on draft %s: %v, without copying in between: %v", o.K, me.name, p1, p2)
		if p1 != nil {
			t.Probe("operation crashed with and without copying")
			retire(me)
			return
		}
		t.Check(r1.String() == r2.String(), "differs", "%s on draft %s returned %q, without copying in between %q", o.K, me.name, r1, r2)
		m1, e1 := observe(me.tx)
		m2, e2 := observe(me.shadow)
		if e1 != nil || e2 != nil {
			t.Check((e1 == nil) == (e2 == nil), "differs", "%s on draft %s: %v, without copying in between: %v", o.K, me.name, e1, e2)
			retire(me)
			return
		}
		diff := m2.diff(m1)
		t.Check(diff == "", "differs", "after %s draft %s differs from one made without copying: %s", o.K, me.name, diff)
		me.m = m1
		me.log = append(me.log, logEntry{o, seed})
		t.State(m1.hash())
		others(me, o.K)
	}

	for i, s := range p.Steps {
		if len(drafts) == 0 {
			return
		}
		if s.D < 0 {
			s.D = -s.D
		}
		me := drafts[s.D%len(drafts)]
		seed := p.Seed*1000 + int64(i) + 1
		switch {
		case s.Copy:
			if len(drafts) >= 6 {
				continue
			}
			t.Fault("copy taken")
			c := &fork{name: fmt.Sprintf("%s.%d", me.name, made)}
			made++
			var cp txbuilder.TxBuilder
			t.Lib("copy", func() { cp = me.tx.Copy() })
			c.tx = &cp
			m, err := observe(c.tx)
			t.Check(err == nil, "unequal", "copy of draft %s: %v", me.name, err)
			diff := me.m.diff(m)
			t.Check(diff == "", "unequal", "copy of draft %s is not equal to it: %s", me.name, diff)
			c.m = m
			c.log = append([]logEntry{}, me.log...)
			c.shadow = txbuilder.NewTxBuilder(p.Rate, p.Dust)
			if p := t.Try(func() {
				for _, e := range c.log {
					apply(c.shadow, e.op, coins, e.seed)
				}
			}); p != nil {
				return // not repeatable, which is not decided here
			}
			if sm, err := observe(c.shadow); err != nil || sm.diff(m) != "" {
				t.Probe("history not repeatable")
				return
			}
			drafts = append(drafts, c)
			t.NonTrivial()
			t.Shape("copy")
			others(c, "copying")
		case s.Wreck:
			if len(drafts) < 2 {
				continue
			}
			t.Fault("draft overwritten")
			t.Shape("wreck")
			wreck(me.tx)
			retire(me)
			others(me, "overwriting everything")
		default:
			step(me, s.Op, seed)
		}
	}

	// what later operations depend on
	for i, me := range append([]*fork{}, drafts...) {
		seed := p.Seed*1000 + 900 + int64(i)*10
		big := uint64(1)
		for _, o := range me.m.Outs {
			if o.Rem {
				big = o.Value
				break
			}
		}
		for j, o := range []Op{{K: "change", L: 8 * 30, B: 1}, {K: "calcfee"}, {K: "adjust", V: big}, {K: "calcfee"}, {K: "sign", C: seq(0, 16)}} {
			alive := false
			for _, d := range drafts {
				alive = alive || d == me
			}
			if alive {
				step(me, o, seed+int64(j)+1)
			}
		}
	}
}

func init() {
	drv.Register(&drv.Prop{ID: "C02", Gen: genCopy, New: func() any { return &copyPlan{} }, Exec: execCopy,
		Quick: 16000, Thorough: 300000, Chunk: 400,
		World: "fork world: up to six holders with drafts copied from each other, interleaved operations, holders that overwrite everything they hold; every draft is shadowed by one that was never copied",
		Rule:  "a run is a history of up to 28 (thorough 50) operations, copies and overwrites on up to six drafts, followed by a fixed series of fee and signing operations on each; two runs are distinct if the sequence of (operation, length of the draft's history, accepted or refused) differs; a run is non-trivial if at least one copy was taken",
		Real:  realLib, Stubs: []string{"clock", "random source"},
		Assume: []string{"operations on one draft are not concurrent with each other", "amounts up to the money supply"}})
}
