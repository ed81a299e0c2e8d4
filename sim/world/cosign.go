package world

import (
	"bytes"
	"crypto/sha256"
	"fmt"
	"time"

	"github.com/tokenized/pkg/bitcoin"
	"github.com/tokenized/pkg/wire"
	"github.com/tokenized/txbuilder"

	"verifsim/drv"
	"verifsim/ref"
)

// The co-signing world: an assembler asks the holders of the keys of threshold coins for signatures
// over a faulty network and assembles the unlocking scripts from the answers. It may correct the
// transaction on the way, which makes earlier answers useless.

type cosignCoin struct {
	Required int    `json:"required"`
	Holders  []int  `json:"holders"` // numbers of the co-signers in the order of the script
	Value    uint64 `json:"value"`
}

type cosignPlan struct {
	Signers int          `json:"signers"`
	Coins   []cosignCoin `json:"coins"`
	Plain   int          `json:"plain,omitempty"` // further inputs of another kind
	Outs    int          `json:"outs"`
	Amend   []int        `json:"amend,omitempty"`  // milliseconds at which the assembler corrects the transaction
	Refuse  int          `json:"refuse,omitempty"` // co-signers that never answer, as a mask
	Types   []int        `json:"types,omitempty"`  // hash type used by each co-signer
	Shared  bool         `json:"shared,omitempty"` // co-signers use one hash cache for all inputs of a request
	Faults  Faults       `json:"faults"`
}

func genCosign(r *drv.R, thorough bool) any {
	p := &cosignPlan{Signers: r.Range(1, 6), Outs: r.Range(1, 3), Plain: r.Intn(3), Shared: r.P(1, 2)}
	if r.P(1, 6) {
		p.Signers = r.Range(7, 15)
	}
	for k := r.Range(1, 3); k > 0; k-- {
		c := cosignCoin{Value: 1000 + r.Log(100000)}
		for i := 0; i < p.Signers; i++ {
			if r.P(4, 5) || len(c.Holders) == 0 && i == p.Signers-1 {
				c.Holders = append(c.Holders, i)
			}
		}
		for i := len(c.Holders) - 1; i > 0; i-- {
			j := r.Intn(i + 1)
			c.Holders[i], c.Holders[j] = c.Holders[j], c.Holders[i]
		}
		c.Required = r.Range(1, len(c.Holders))
		p.Coins = append(p.Coins, c)
	}
	p.Faults = genFaults(r, p.Signers+1)
	if r.P(1, 3) {
		for k := r.Range(1, 2); k > 0; k-- {
			p.Amend = append(p.Amend, r.Intn(120))
		}
	}
	if r.P(1, 3) {
		for i := 0; i < p.Signers; i++ {
			if r.P(1, 4) {
				p.Refuse |= 1 << uint(i)
			}
		}
	}
	if r.P(1, 4) {
		for i := 0; i < p.Signers; i++ {
			p.Types = append(p.Types, r.Intn(len(hashTypes)))
		}
	}
	return p
}

type cosignAsk struct {
	Version int
	Tx      []byte
}

type cosignAnswer struct {
	Version int
	From    int
	Sigs    map[int][]byte // by input
}

type cosignWorld struct {
	t       *drv.T
	p       *cosignPlan
	m       *mesh
	coins   []Coin
	holders [][]int
	tx      *wire.MsgTx
	version int
	good    []map[int][]byte // by input: signatures for the present version by co-signer, saved
	stale   []map[int][]byte // by input: signatures for an earlier version
	done    map[int]bool
	old     *wire.MsgTx
}

func (w *cosignWorld) typ(signer int) byte {
	if signer < len(w.p.Types) {
		return hashTypes[abs(w.p.Types[signer])%len(hashTypes)]
	}
	return 0x41
}

// assemble puts the unlocking script made of the signatures into a copy of the transaction.
func (w *cosignWorld) assemble(i int, sigs map[int][]byte) *wire.MsgTx {
	l := w.coins[i].Lock
	var pubs, list [][]byte
	for _, h := range w.holders[i] {
		pubs = append(pubs, append([]byte{}, ref.K(h).Pub...))
		list = append(list, append([]byte{}, sigs[h]...))
	}
	var script []byte
	var err error
	w.t.Lib("P2MultiPKHUnlockingScript", func() {
		script, err = txbuilder.P2MultiPKHUnlockingScript(uint16(l.Required), pubs, list)
	})
	if err != nil {
		w.t.Fail("assemble", "assembling %d signatures failed: %s", len(sigs), err)
	}
	tx := ref.CopyTx(w.tx)
	tx.TxIn[i].UnlockingScript = script
	return tx
}

func (w *cosignWorld) judge(i int, sigs map[int][]byte, want bool, what string) {
	t := w.t
	tx := w.assemble(i, sigs)
	l := w.coins[i].Lock
	e1 := ref.CheckInput(tx, i, l, w.coins[i].Value)
	t.Check((e1 == nil) == want, "acceptance", "input %d needs %d of %d, %s: accepted %v, expected %v (%s)", i, l.Required, len(l.Keys), what, e1 == nil, want, errText(e1))
	e2 := ref.Interpret(tx, i, l.Script, w.coins[i].Value)
	if w.singleOutOfRange(i) {
		return // the interpreter treats this case differently from the chain
	}
	t.Check((e2 == nil) == want, "acceptance", "input %d needs %d of %d, %s: accepted by the interpreter %v, expected %v (%s)", i, l.Required, len(l.Keys), what, e2 == nil, want, errText(e2))
}

func (w *cosignWorld) singleOutOfRange(i int) bool {
	if i < len(w.tx.TxOut) {
		return false
	}
	for _, h := range w.holders[i] {
		if w.typ(h)&3 == 3 {
			return true
		}
	}
	return false
}

// subset returns the first or last n of the answers in a fixed order.
func subset(sigs map[int][]byte, n int, last bool) map[int][]byte {
	var k []int
	for i := 0; i < 64; i++ {
		if sigs[i] != nil {
			k = append(k, i)
		}
	}
	if last {
		k = k[len(k)-n:]
	} else {
		k = k[:n]
	}
	r := map[int][]byte{}
	for _, x := range k {
		r[x] = sigs[x]
	}
	return r
}

// progress judges an input after an answer arrived.
func (w *cosignWorld) progress(i int) {
	t := w.t
	n, req := len(w.good[i]), w.coins[i].Lock.Required
	t.ShapeInt(i<<8 | n)
	w.judge(i, w.good[i], n >= req, fmt.Sprintf("%d distinct answers", n))
	if n >= req {
		t.Probe("enough answers")
		t.NonTrivial()
		w.done[i] = true
		if n > req {
			w.judge(i, subset(w.good[i], req, false), true, "just as many answers as required")
			w.judge(i, subset(w.good[i], req, true), true, "just as many other answers as required")
		}
		if req > 1 {
			w.judge(i, subset(w.good[i], req-1, n%2 == 0), false, "one answer less than required")
		}
	} else {
		t.Probe("too few answers")
	}
	// an answer for the transaction as it was before does not help
	for h := 0; h < 64; h++ {
		sig := w.stale[i][h]
		if sig == nil || w.good[i][h] != nil {
			continue
		}
		if w.typ(h)&3 == 2 || (w.typ(h)&3 == 3 && i >= 1) {
			continue // the correction is not covered by this hash type
		}
		mix := map[int][]byte{h: sig}
		for k, v := range w.good[i] {
			mix[k] = v
		}
		w.judge(i, mix, false, "an answer for an earlier transaction among them")
		t.Probe("answer for an earlier transaction judged")
		break
	}
}

func execCosign(t *drv.T, plan any) {
	p := plan.(*cosignPlan)
	if p.Signers < 1 || p.Signers > 20 || len(p.Coins) == 0 || len(p.Coins) > 6 {
		return
	}
	w := &cosignWorld{t: t, p: p, m: newMesh(t, p.Signers+1, p.Faults), tx: wire.NewMsgTx(1), done: map[int]bool{}}
	for n, c := range p.Coins {
		seen := map[int]bool{}
		var hs []int
		for _, h := range c.Holders {
			h = abs(h) % p.Signers
			if !seen[h] {
				seen[h] = true
				hs = append(hs, h)
			}
		}
		if len(hs) == 0 {
			hs = []int{0}
		}
		req := c.Required
		if req < 1 {
			req = 1
		}
		if req > len(hs) {
			req = len(hs)
		}
		hash := bitcoin.Hash32(sha256.Sum256([]byte(fmt.Sprintf("threshold coin %d", n))))
		w.coins = append(w.coins, Coin{Lock: ref.NewMulti(req, hs), Value: c.Value, Hash: hash, Index: uint32(n)})
		w.holders = append(w.holders, hs)
		w.good = append(w.good, map[int][]byte{})
		w.stale = append(w.stale, map[int][]byte{})
		w.tx.AddTxIn(wire.NewTxIn(wire.NewOutPoint(&hash, uint32(n)), nil))
	}
	for n := 0; n < p.Plain && n < 5; n++ {
		hash := bitcoin.Hash32(sha256.Sum256([]byte(fmt.Sprintf("plain coin %d", n))))
		w.tx.AddTxIn(wire.NewTxIn(wire.NewOutPoint(&hash, 0), nil))
	}
	for n := 0; n < p.Outs && n < 10 || n == 0; n++ {
		w.tx.AddTxOut(wire.NewTxOut(uint64(800+n), append(bitcoin.Script{}, ref.NewP2PKH(100+n).Script...)))
	}
	ask := func() {
		b := ref.Serialize(w.tx)
		for s := 0; s < p.Signers; s++ {
			need := false
			for i := range w.coins {
				for _, h := range w.holders[i] {
					if h == s && w.good[i][s] == nil {
						need = true
					}
				}
			}
			if need {
				w.m.send(0, s+1, cosignAsk{w.version, b})
			}
		}
	}
	w.m.receive = func(to, from int, msg any) {
		switch x := msg.(type) {
		case cosignAsk:
			s := to - 1
			t.Trace("%v signer %d asked for version %d", w.m.now, s, x.Version)
			if p.Refuse>>uint(s)&1 == 1 {
				return
			}
			tx := parse(x.Tx)
			ans := cosignAnswer{x.Version, s, map[int][]byte{}}
			cache := &txbuilder.SigHashCache{}
			for i := range w.coins {
				for _, h := range w.holders[i] {
					if h != s {
						continue
					}
					if !p.Shared {
						cache = &txbuilder.SigHashCache{}
					}
					var sig []byte
					var err error
					t.Lib("InputSignature", func() {
						sig, err = txbuilder.InputSignature(ref.K(s).Key, tx, i, append([]byte{}, w.coins[i].Lock.Script...), w.coins[i].Value, txbuilder.SigHashType(w.typ(s)), cache)
					})
					if err != nil {
						t.Fail("sign", "co-signer %d could not sign input %d: %s", s, i, err)
					}
					ans.Sigs[i] = sig
				}
			}
			w.m.send(to, 0, ans)
		case cosignAnswer:
			t.Trace("%v answer of %d for version %d", w.m.now, x.From, x.Version)
			t.ShapeInt(1000 + x.From*4 + x.Version)
			if x.Version != w.version {
				t.Probe("late answer")
				for i := range w.coins {
					if x.Sigs[i] != nil {
						w.stale[i][x.From] = x.Sigs[i]
					}
				}
			} else {
				for i := range w.coins {
					if x.Sigs[i] != nil {
						w.good[i][x.From] = x.Sigs[i]
					}
				}
			}
			for i := range w.coins {
				if x.Sigs[i] != nil {
					w.progress(i)
				}
			}
		}
	}
	w.m.timer = func(i int) {
		if i == 0 {
			ask()
		}
	}
	w.m.crash = func(int) {}
	w.m.restart = func(i int) {
		t.Shape("restart")
		if i == 0 {
			// with the saved answers
			for k := range w.coins {
				if len(w.good[k]) > 0 {
					w.progress(k)
				}
			}
			ask()
		}
	}
	lastAmend := time.Duration(0)
	for _, a := range p.Amend {
		if d := ms(a); d > lastAmend {
			lastAmend = d
		}
		w.m.at(ms(a), func() {
			t.Fault("transaction corrected while answers are under way")
			t.Shape("amend")
			w.version++
			w.tx.TxOut[0].Value++
			w.stale = w.good
			w.good = nil
			for range w.coins {
				w.good = append(w.good, map[int][]byte{})
			}
			w.done = map[int]bool{}
			ask()
		})
	}
	ask()
	willing := func(i int) (n int) {
		for _, h := range w.holders[i] {
			if p.Refuse>>uint(h)&1 == 0 {
				n++
			}
		}
		return
	}
	done := func() bool {
		if w.m.now < lastAmend {
			return false
		}
		for i := range w.coins {
			if len(w.good[i]) < willing(i) {
				return false
			}
		}
		return true
	}
	calmAt, calm := time.Duration(0), false
	limit := func() time.Duration {
		if w.m.faultsLeft() || w.m.now < lastAmend {
			if w.m.now < 5*time.Second {
				return time.Hour
			}
		}
		if !calm {
			calm, calmAt = true, w.m.now
		}
		return calmAt + 10*meshTick
	}
	if !w.m.run(limit, done) {
		t.Fail("no completion", "the answers of all willing co-signers did not arrive after the faults stopped")
	}
	for i := range w.coins {
		want := willing(i) >= w.coins[i].Lock.Required
		t.Check(w.done[i] == want, "completion", "input %d: %d co-signers are willing, %d required, accepted in the end: %v", i, willing(i), w.coins[i].Lock.Required, w.done[i])
		t.Trace("input %d done %v", i, w.done[i])
	}
	b := &bytes.Buffer{}
	for i := range w.coins {
		fmt.Fprintf(b, "%d %d %v;", len(w.good[i]), len(w.stale[i]), w.done[i])
	}
	t.State(drv.HashBytes(b.Bytes()))
}

func init() {
	drv.Register(&drv.Prop{ID: "C24", Gen: genCosign, New: func() any { return &cosignPlan{} }, Exec: execCosign,
		Quick: 5000, Thorough: 80000, Chunk: 100,
		World: "co-signing: an assembler collects signatures of the holders of threshold coins over a faulty network, corrects the transaction on the way, crashes and restarts with saved answers",
		Rule:  "a run is a set of threshold coins, co-signers that answer or refuse, corrections of the transaction, and faults by message number, crashes and partitions; decided at every arrival: the assembled script is accepted exactly with enough distinct answers for the present transaction, by own rules and by the script interpreter; two runs are distinct if the order of answers, corrections and restarts or the numbers of answers differ; a run is non-trivial if a coin could be unlocked",
		Real:  realLib, Stubs: []string{"network between assembler and co-signers", "disk of the assembler", "clock"},
		Assume: []string{"a threshold coin lists distinct keys", "every co-signer signs honestly the transaction it received"}})
}
