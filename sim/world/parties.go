package world

import (
	"bytes"
	"fmt"
	"time"

	"github.com/tokenized/pkg/bitcoin"
	"github.com/tokenized/pkg/expanded_tx"
	"github.com/tokenized/pkg/wire"
	"github.com/tokenized/txbuilder"

	"verifsim/drv"
	"verifsim/ref"
)

// The signing world: one party prepares a transaction that spends coins of several parties and
// signs its part, the others receive it together with the data of the coins over a faulty network,
// rebuild the draft, add their signatures and pass it on. Parties crash and restart from what they
// saved.

type partyCoin struct {
	Owner int    `json:"owner"`
	Kind  int    `json:"kind"` // 0 P2PKH, 1 P2PK, otherwise threshold with the kind as recipe
	Key   int    `json:"key"`
	Value uint64 `json:"value"`
	Tx    int    `json:"tx"`
	Out   int    `json:"out"`
	Seq   uint32 `json:"seq,omitempty"`
}

type partyOut struct {
	L   int    `json:"l"`
	V   uint64 `json:"v"`
	Rem bool   `json:"rem,omitempty"`
}

type partiesPlan struct {
	Rate    float32     `json:"rate"`
	Dust    float32     `json:"dust"`
	Seed    int64       `json:"seed"`
	Parties int         `json:"parties"`
	Coins   []partyCoin `json:"coins"`
	Outs    []partyOut  `json:"outs"`
	Bulk    int         `json:"bulk,omitempty"`   // number of further small coins
	Change  int         `json:"change"`           // zero is no change script
	Tight   int         `json:"tight,omitempty"`  // the last coin has what is needed plus this minus 500
	How     int         `json:"how"`              // 0 Sign, 1 fee calculation and SignOnly, 2 fee calculation and SignP2PKHInput
	Before  []int       `json:"before,omitempty"` // keys of earlier Sign calls by the first party
	Graph   int         `json:"graph"`            // 0 ring, 1 star, 2 everyone to everyone in turn
	Via     []int       `json:"via"`              // how each party receives the coin data: 0 transactions, 1 coins, 2 expanded transaction
	Each    []int       `json:"each"`             // how each party signs: 0 SignOnly, 1 SignP2PKHInput with one hash cache, 2 some inputs by hand with another hash type
	Apart   bool        `json:"apart,omitempty"`  // coin data in separate messages
	Extra   int         `json:"extra,omitempty"`  // unrelated data mixed in
	Lock    uint32      `json:"locktime,omitempty"`
	Version int32       `json:"version,omitempty"`
	Faults  Faults      `json:"faults"`
}

func genParties(id string) func(*drv.R, bool) any {
	return func(r *drv.R, thorough bool) any {
		n := r.Range(2, 5)
		p := &partiesPlan{Rate: genRate(r), Dust: genDustRate(r), Seed: int64(r.Intn(1<<30) + 1), Parties: n,
			How: r.Pick(5, 2, 1), Graph: r.Intn(3), Faults: genFaults(r, n)}
		if id == "C13" {
			p.How = r.Pick(12, 1, 1)
		}
		plain := r.P(1, 3)
		most, pays := uint64(100000), uint64(40000)
		if r.P(1, 8) {
			most, pays = Supply/10, Supply/20
		}
		k := r.Range(1, 8)
		for i := 0; i < k; i++ {
			c := partyCoin{Owner: r.Intn(n), Key: r.Intn(3), Value: 500 + r.Log(most), Tx: r.Intn(k/2 + 1), Out: r.Intn(3)}
			if id == "C17" && r.P(1, 15) {
				c.Value = 0
			}
			if !plain {
				c.Kind = r.Pick(4, 2, 2, 1, 1)
				if c.Kind >= 2 {
					c.Kind = 2 + r.Intn(60)
				}
			}
			if r.P(1, 6) {
				c.Seq = uint32(r.Intn(1 << 20))
			}
			p.Coins = append(p.Coins, c)
		}
		for k := r.Range(1, 4); k > 0; k-- {
			o := partyOut{L: r.Intn(12)*8 + r.Intn(6), V: 600 + r.Log(pays)}
			if r.P(1, 6) {
				o.L = 100000 + genData(r)
				o.V = 0
			}
			o.Rem = r.P(1, 4)
			p.Outs = append(p.Outs, o)
		}
		if r.P(1, 80) {
			p.Bulk = r.Range(243, 256)
		}
		if r.P(4, 5) {
			p.Change = 8*(30+r.Intn(10)) + []int{0, 0, 0, 4, 5}[r.Intn(5)]
		}
		if r.P(1, 2) {
			p.Tight = 500 + r.Intn(60) - 5
			if r.P(1, 3) {
				p.Tight = 500 + r.Intn(1200)
			}
		}
		for k := r.Pick(4, 1, 1); k > 0; k-- {
			p.Before = append(p.Before, r.Intn(8))
		}
		for i := 0; i < n; i++ {
			p.Via = append(p.Via, r.Pick(3, 3, 1))
			p.Each = append(p.Each, r.Pick(8, 2, 3))
		}
		p.Apart = r.P(1, 4) || (id == "C17" && r.P(3, 4))
		if id == "C17" || r.P(1, 3) {
			p.Extra = r.Intn(9)
		}
		if r.P(1, 8) {
			p.Lock = uint32(r.Intn(1 << 30))
		}
		if r.P(1, 8) {
			p.Version = int32(r.Range(2, 3))
		}
		return p
	}
}

// keys of party o have the numbers from 20*o on.
func (c partyCoin) lock() ref.Lock {
	base := 20*c.Owner + abs(c.Key)%3
	k := abs(c.Kind)
	switch {
	case k == 0:
		return ref.NewP2PKH(base)
	case k == 1:
		return ref.NewP2PK(base)
	}
	k -= 2
	total := 1 + k%12
	req := 1 + (k/12)%total
	return ref.NewMulti(req, seq(base, total))
}

func abs(n int) int {
	if n < 0 {
		return -n
	}
	return n
}

// message between parties. Either part may be missing.
type partyMsg struct {
	Tx    []byte
	Data  [][]byte // parent transactions or coins
	Coins []Coin
}

type party struct {
	id    int
	keys  []bitcoin.Key
	tx    []byte // saved partly signed transaction
	data  []int  // numbers of coins whose data arrived, in order of arrival with repeats
	asked int    // ticks
	cache *txbuilder.SigHashCache
	last  *txbuilder.TxBuilder
	whole bool // had all coin data at some time
	seen  []byte
	full  bool // the transaction in seen is complete
	late  bool // was without some data at some time
}

type ceremony struct {
	t       *drv.T
	p       *partiesPlan
	coins   []Coin
	owner   []int
	parents map[bitcoin.Hash32]*wire.MsgTx
	m       *mesh
	nodes   []*party
	shell   *wire.MsgTx // prepared transaction without unlocking scripts
	final   []byte      // completed transaction made in one go
	est     int
	calmAt  time.Duration
	calm    bool
	dead    bool
}

func (c *ceremony) coinOf(in *wire.TxIn) (int, bool) {
	for i, x := range c.coins {
		if x.Hash == in.PreviousOutPoint.Hash && x.Index == in.PreviousOutPoint.Index {
			return i, true
		}
	}
	return 0, false
}

// mint makes the transactions whose outputs are the coins.
func (c *ceremony) mint() {
	p := c.p
	used := map[[2]int]bool{}
	byTx := map[int][]int{}
	var order []int
	pl := make([]partyCoin, len(p.Coins))
	copy(pl, p.Coins)
	for i := range pl {
		if pl[i].Value == 0 && !c.t.On("C17") {
			pl[i].Value = 1
		}
		pl[i].Owner = abs(pl[i].Owner) % p.Parties
		pl[i].Out = abs(pl[i].Out) % 5
	}
	for i := 0; i < p.Bulk && i < 300; i++ {
		pl = append(pl, partyCoin{Owner: i % p.Parties, Key: i, Value: 700, Tx: 5000 + i/5, Out: i % 5})
	}
	for i := range pl {
		for used[[2]int{pl[i].Tx, pl[i].Out}] {
			pl[i].Tx += 1000
		}
		used[[2]int{pl[i].Tx, pl[i].Out}] = true
		if byTx[pl[i].Tx] == nil {
			order = append(order, pl[i].Tx)
		}
		byTx[pl[i].Tx] = append(byTx[pl[i].Tx], i)
	}
	if p.Tight > 0 {
		// fix the amount of the last coin of the plan
		in, out := uint64(0), uint64(0)
		var locks []ref.Lock
		for i := range pl {
			locks = append(locks, pl[i].lock())
			if i != len(p.Coins)-1 {
				in += pl[i].Value
			}
		}
		var outs []*wire.TxOut
		for _, o := range c.outs() {
			outs = append(outs, o)
			out += o.Value
		}
		need := int64(out+ref.Fee(ref.MaxSize(locks, outs), p.Rate)) - int64(in) + int64(p.Tight) - 500
		if need < 1 {
			need = 1
		}
		pl[len(p.Coins)-1].Value = uint64(need)
		c.t.Probe("value at a boundary")
	}
	c.coins = make([]Coin, len(pl))
	c.owner = make([]int, len(pl))
	c.parents = map[bitcoin.Hash32]*wire.MsgTx{}
	for _, n := range order {
		tx := wire.NewMsgTx(1)
		h := ref.NewData(n)
		id := bitcoin.Hash32{}
		copy(id[:], h.Script)
		id[31] = byte(n)
		id[30] = byte(n >> 8)
		tx.AddTxIn(wire.NewTxIn(wire.NewOutPoint(&id, uint32(n)), bitcoin.Script{0x51}))
		max := 0
		for _, i := range byTx[n] {
			if pl[i].Out > max {
				max = pl[i].Out
			}
		}
		for k := 0; k <= max; k++ {
			tx.AddTxOut(wire.NewTxOut(uint64(1000+k), append(bitcoin.Script{}, ref.NewP2PKH(150+k).Script...)))
		}
		for _, i := range byTx[n] {
			tx.TxOut[pl[i].Out] = wire.NewTxOut(pl[i].Value, append(bitcoin.Script{}, pl[i].lock().Script...))
		}
		hash := ref.TxID(tx)
		c.parents[hash] = tx
		for _, i := range byTx[n] {
			c.coins[i] = Coin{Lock: pl[i].lock(), Value: pl[i].Value, Hash: hash, Index: uint32(pl[i].Out), KeyID: keyName("coin", i)}
			c.owner[i] = pl[i].Owner
		}
	}
}

func (c *ceremony) outs() []*wire.TxOut {
	var r []*wire.TxOut
	for _, o := range c.p.Outs {
		sc := script(o.L)
		v := o.V
		if o.L < 100000 {
			if d := ref.Dust(ref.OutSize(sc), c.p.Dust); v < d {
				v = d
			}
			if d := ref.Fee(ref.OutSize(sc), c.p.Rate); v < d {
				v = d
			}
		} else {
			v = 0
		}
		r = append(r, wire.NewTxOut(v, sc))
	}
	return r
}

func (c *ceremony) bad(prop, kind, format string, a ...any) {
	if c.t.On(prop) {
		c.t.Fail(kind, format, a...)
	}
}

func (c *ceremony) check(prop string, cond bool, kind, format string, a ...any) {
	if c.t.On(prop) {
		c.t.Check(cond, kind, format, a...)
	}
}

// allKeys returns every key of the world.
func allKeys(coins []Coin) []bitcoin.Key {
	seen := map[int]bool{}
	var r []bitcoin.Key
	for _, c := range coins {
		for _, k := range c.Lock.Keys {
			if !seen[k] {
				seen[k] = true
				r = append(r, ref.K(k).Key)
			}
		}
	}
	return r
}

// bounds checks the estimated size of a draft against its size once signed.
func (c *ceremony) bounds(what string, est int, signed *wire.MsgTx) {
	size := ref.Size(signed)
	c.check("C18", est >= size, "estimate too low", "%s: estimated size %d, completely signed it has %d bytes", what, est, size)
	slack := 0
	for i, in := range signed.TxIn {
		k, ok := c.coinOf(in)
		if !ok {
			panic("unknown coin")
		}
		l := c.coins[k].Lock
		n := 0
		for _, s := range sigsIn(l, in.UnlockingScript) {
			n += 73 - len(s)
		}
		slack += ref.InSize(len(in.UnlockingScript)+n) - ref.InSize(len(in.UnlockingScript))
		_ = i
	}
	c.check("C18", est <= size+slack, "estimate too high", "%s: estimated size %d, completely signed it has %d bytes and with the longest possible signatures %d", what, est, size, size+slack)
}

// sigsIn returns the signatures in a valid unlocking script of a known kind.
func sigsIn(l ref.Lock, unlock []byte) [][]byte {
	items, err := ref.Pushes(unlock)
	if err != nil {
		return nil
	}
	var r [][]byte
	switch l.Kind {
	case ref.P2PKH, ref.P2PK:
		if len(items) > 0 {
			r = append(r, items[0])
		}
	case ref.Multi:
		for _, it := range items {
			if len(it) > 60 {
				r = append(r, it)
			}
		}
	}
	return r
}

// prepare is what the first party does. It returns nil if it cannot prepare the transaction.
func (c *ceremony) prepare() *txbuilder.TxBuilder {
	t, p := c.t, c.p
	tx := txbuilder.NewTxBuilder(p.Rate, p.Dust)
	if p.Version != 0 {
		tx.MsgTx.Version = p.Version
	}
	tx.MsgTx.LockTime = p.Lock
	count := 0
	stage := func(what string) {
		count++
		if !t.On("C18") || len(tx.MsgTx.TxIn) > 60 || (count+int(p.Seed))%3 != 0 {
			return
		}
		var est int
		t.Lib("EstimatedSize", func() { est = tx.EstimatedSize() })
		full := tx.Copy()
		var err error
		t.Lib("SignOnly", func() { _, err = full.SignOnly(allKeys(c.coins)) })
		if err != nil {
			t.Fail("sign", "%s: signing with all keys failed: %s", what, err)
		}
		c.bounds(what, est, full.MsgTx)
	}
	for i, x := range c.coins {
		var err error
		t.Lib("AddInputUTXO", func() { err = tx.AddInputUTXO(x.utxo()) })
		if err != nil {
			panic(err)
		}
		if i < len(p.Coins) && p.Coins[i].Seq != 0 {
			tx.MsgTx.TxIn[i].Sequence = p.Coins[i].Seq
		}
		stage("draft with inputs")
	}
	for i, o := range c.outs() {
		var err error
		t.Lib("AddOutput", func() { err = tx.AddOutput(o.LockingScript, o.Value, p.Outs[i].Rem && p.Outs[i].L < 100000, false) })
		if err != nil {
			t.Trace("output refused %s", err)
			return nil
		}
		stage("draft with outputs")
	}
	if p.Change != 0 {
		l := lockOf(p.Change)
		if l.Kind == ref.Other {
			l = ref.NewP2PKH(39)
		}
		if err := tx.SetChangeAddress(addr(l), "change"); err != nil {
			panic(err)
		}
	}
	first := c.nodes[0]
	var err error
	// usual is an answer that is not a failure of the library.
	usual := func(err error) bool {
		return isErr(err, txbuilder.ErrInsufficientValue) || isErr(err, txbuilder.ErrChangeAddressNeeded)
	}
	for _, b := range p.Before {
		if p.How != 0 || len(first.keys) == 0 {
			break
		}
		t.Lib("Sign", func() { _, err = tx.Sign(first.keys[:1+abs(b)%len(first.keys)]) })
		t.Trace("early sign %s", errText(err))
		if err != nil && !isErr(err, txbuilder.ErrMissingPrivateKey) {
			if usual(err) {
				return nil
			}
			t.Fail("sign", "signing with some keys failed: %s", err)
		}
		t.Probe("signed in several calls by the first party")
		stage("draft signed with few keys")
	}
	switch p.How {
	case 0:
		t.Lib("Sign", func() { _, err = tx.Sign(first.keys) })
	default:
		t.Lib("CalculateFee", func() { err = tx.CalculateFee() })
		if err != nil {
			break
		}
		if p.How == 1 {
			t.Lib("SignOnly", func() { _, err = tx.SignOnly(first.keys) })
		} else {
			c.signEach(first, tx)
		}
	}
	t.Trace("prepare %d -> %s", p.How, errText(err))
	if err != nil && !isErr(err, txbuilder.ErrMissingPrivateKey) {
		if usual(err) {
			return nil
		}
		t.Fail("sign", "preparing the transaction failed: %s", err)
	}
	if len(tx.MsgTx.TxOut) == 0 {
		return nil
	}
	return tx
}

// signEach signs the own P2PKH inputs one by one with one hash cache.
func (c *ceremony) signEach(n *party, tx *txbuilder.TxBuilder) {
	cache := &txbuilder.SigHashCache{}
	for i, in := range tx.MsgTx.TxIn {
		k, _ := c.coinOf(in)
		if len(in.UnlockingScript) > 0 || c.owner[k] != n.id || c.coins[k].Lock.Kind != ref.P2PKH || len(tx.Inputs[i].LockingScript) == 0 {
			continue
		}
		key := ref.K(c.coins[k].Lock.Keys[0]).Key
		var err error
		c.t.Lib("SignP2PKHInput", func() { err = tx.SignP2PKHInput(i, key, cache) })
		if err != nil {
			c.t.Fail("sign", "input %d could not be signed with its key: %s", i, err)
		}
	}
}

var handTypes = []txbuilder.SigHashType{
	txbuilder.SigHashAll | txbuilder.SigHashForkID | txbuilder.SigHashAnyOneCanPay,
	txbuilder.SigHashNone | txbuilder.SigHashForkID,
	txbuilder.SigHashSingle | txbuilder.SigHashForkID,
	txbuilder.SigHashSingle | txbuilder.SigHashForkID | txbuilder.SigHashAnyOneCanPay,
}

// signByHand signs some of the single-key inputs of a party with a hash type of its own choice.
// Later calls have to leave these signatures as they are.
func (c *ceremony) signByHand(id int, tx *txbuilder.TxBuilder) {
	if id == 0 || id >= len(c.p.Each) || c.p.Each[id] != 2 {
		return
	}
	for i, in := range tx.MsgTx.TxIn {
		k, _ := c.coinOf(in)
		if len(in.UnlockingScript) > 0 || c.owner[k] != id || len(tx.Inputs[i].LockingScript) == 0 || k%3 == 2 {
			continue
		}
		coin := c.coins[k]
		make := txbuilder.P2PKHUnlockingScript
		switch coin.Lock.Kind {
		case ref.P2PKH:
		case ref.P2PK:
			make = txbuilder.P2PKUnlockingScript
		default:
			continue
		}
		ht := handTypes[k%len(handTypes)]
		if i >= len(tx.MsgTx.TxOut) {
			// the interpreter does not know single without the output
			ht = handTypes[k%2]
		}
		var err error
		var s []byte
		c.t.Lib("unlocking script", func() {
			s, err = make(ref.K(coin.Lock.Keys[0]).Key, tx.MsgTx, i, coin.Lock.Script, coin.Value, ht, &txbuilder.SigHashCache{})
		})
		if err != nil {
			c.t.Fail("sign", "no unlocking script for input %d: %s", i, err)
		}
		in.UnlockingScript = s
		c.t.Probe("input signed by hand with another hash type")
	}
}

func (c *ceremony) save(n *party, tx *txbuilder.TxBuilder) {
	b := &bytes.Buffer{}
	if err := tx.MsgTx.Serialize(b); err != nil {
		panic(err)
	}
	n.tx = b.Bytes()
	n.last = tx
	if c.t.On("C17") {
		// what the party sends
		var own []byte
		var err error
		c.t.Lib("Serialize", func() { own, err = tx.Serialize() })
		c.t.Check(err == nil && bytes.Equal(own, n.tx), "serialized", "party %d: the serialized draft has %d bytes, the transaction %d: %s", n.id, len(own), len(n.tx), errText(err))
	}
}

func parse(b []byte) *wire.MsgTx {
	tx := &wire.MsgTx{}
	if err := tx.Deserialize(bytes.NewReader(b)); err != nil {
		panic(err)
	}
	return tx
}

// known tells which coins the data received so far describes.
func (c *ceremony) known(n *party) map[int]bool {
	r := map[int]bool{}
	for _, k := range n.data {
		if k >= 0 {
			r[k] = true
		}
	}
	if c.via(n) == 0 {
		// a transaction describes all its outputs
		for i, x := range c.coins {
			for _, k := range n.data {
				if k >= 0 && c.coins[k].Hash == x.Hash {
					r[i] = true
				}
			}
		}
	}
	return r
}

func (c *ceremony) via(n *party) int {
	if n.id < len(c.p.Via) {
		return abs(c.p.Via[n.id]) % 3
	}
	return 0
}

// rebuild makes a draft from what was received.
func (c *ceremony) rebuild(n *party, raw []byte) (tx *txbuilder.TxBuilder, known map[int]bool) {
	t, p := c.t, c.p
	known = c.known(n)
	missing := 0
	msg := parse(raw)
	for _, in := range msg.TxIn {
		if k, ok := c.coinOf(in); !ok || !known[k] {
			missing++
		}
	}
	var err error
	switch c.via(n) {
	case 0:
		var l []*wire.MsgTx
		for _, k := range n.data {
			if k < 0 {
				l = append(l, stranger(-k, msg))
				continue
			}
			l = append(l, ref.CopyTx(c.parents[c.coins[k].Hash]))
		}
		t.Lib("NewTxBuilderFromWire", func() { tx, err = txbuilder.NewTxBuilderFromWire(p.Rate, p.Dust, msg, l) })
	case 1:
		var l []bitcoin.UTXO
		for _, k := range n.data {
			if k < 0 {
				l = append(l, strangeCoin(-k, msg))
				continue
			}
			l = append(l, c.coins[k].utxo())
		}
		t.Lib("NewTxBuilderFromWireUTXOs", func() { tx, err = txbuilder.NewTxBuilderFromWireUTXOs(p.Rate, p.Dust, msg, l) })
	default:
		e := &expanded_tx.ExpandedTx{Tx: msg, SpentOutputs: make(expanded_tx.Outputs, len(msg.TxIn))}
		for i, in := range msg.TxIn {
			if k, ok := c.coinOf(in); ok && known[k] {
				e.SpentOutputs[i] = &expanded_tx.Output{LockingScript: append(bitcoin.Script{}, c.coins[k].Lock.Script...), Value: c.coins[k].Value}
			}
		}
		t.Lib("NewTxBuilderFromTransactionWithOutputs", func() { tx, err = txbuilder.NewTxBuilderFromTransactionWithOutputs(p.Rate, p.Dust, e) })
		if missing > 0 {
			c.check("C17", err != nil, "missing data unnoticed", "party %d: the data of %d coins is missing but there is no error", n.id, missing)
			return nil, known
		}
	}
	t.Trace("  rebuild at %d via %d: %d inputs, %d without data -> %s", n.id, c.via(n), len(msg.TxIn), missing, errText(err))
	if missing > 0 {
		n.late = true
		t.Probe("draft rebuilt with data missing")
		c.check("C17", isErr(err, txbuilder.ErrMissingInputData), "missing data unnoticed", "party %d: the data of %d coins is missing but the answer is %s", n.id, missing, errText(err))
		c.check("C17", tx != nil, "no draft", "party %d: no draft while data is missing", n.id)
	} else {
		if n.late {
			t.Probe("rebuilt completely after data was missing")
		}
		n.whole = true
		if err != nil {
			t.Fail("rebuild", "party %d: rebuilding with all data failed: %s", n.id, err)
		}
	}
	if tx == nil {
		return nil, known
	}
	return tx, known
}

// stranger is a transaction that has nothing to do with the draft. Some have more or fewer outputs.
func stranger(n int, msg *wire.MsgTx) *wire.MsgTx {
	tx := wire.NewMsgTx(1)
	h := bitcoin.Hash32{}
	if len(msg.TxIn) > 0 {
		// it spends the same coin
		h = msg.TxIn[n%len(msg.TxIn)].PreviousOutPoint.Hash
	}
	tx.AddTxIn(wire.NewTxIn(wire.NewOutPoint(&h, uint32(n)), bitcoin.Script{0x51}))
	for k := 0; k < n%4; k++ {
		tx.AddTxOut(wire.NewTxOut(uint64(12345+k), append(bitcoin.Script{}, ref.NewP2PKH(160+k).Script...)))
	}
	return tx
}

// strangeCoin has either the transaction or the index of a coin that is spent, not both.
func strangeCoin(n int, msg *wire.MsgTx) bitcoin.UTXO {
	u := bitcoin.UTXO{Value: 54321, LockingScript: append(bitcoin.Script{}, ref.NewP2PKH(170).Script...), KeyID: "strange"}
	if len(msg.TxIn) > 0 {
		in := msg.TxIn[(n/2)%len(msg.TxIn)]
		u.Hash, u.Index = in.PreviousOutPoint.Hash, in.PreviousOutPoint.Index
		if n%2 == 0 {
			u.Index += []uint32{77, 1 << 8, 1 << 16, 1 << 31}[(n/2)%4]
		} else {
			u.Hash[[]int{0, 31, 8, 20}[(n/2)%4]] ^= 1
		}
	}
	return u
}

// compare judges a rebuilt draft.
func (c *ceremony) compare(n *party, tx *txbuilder.TxBuilder, known map[int]bool, raw []byte) {
	t := c.t
	if !t.On("C17") {
		return
	}
	m, err := observe(tx)
	if err != nil {
		t.Fail("lists", "party %d: %s", n.id, err)
	}
	sent := parse(raw)
	if !bytes.Equal(ref.Serialize(tx.MsgTx), raw) {
		t.Fail("transaction changed", "party %d: the rebuilt draft does not contain the transaction received", n.id)
	}
	t.Check(m.Rate == c.p.Rate && m.DustRate == c.p.Dust, "rates", "party %d: the draft has other fee rates", n.id)
	in, out := uint64(0), uint64(0)
	complete := true
	var locks []ref.Lock
	for i, x := range sent.TxIn {
		k, _ := c.coinOf(x)
		coin := c.coins[k]
		locks = append(locks, coin.Lock)
		if !known[k] {
			complete = false
			t.Check(len(m.Ins[i].Script) == 0 && m.Ins[i].Value == 0, "foreign data", "party %d: input %d has data though none was received: %s", n.id, i, m.Ins[i])
			continue
		}
		in += coin.Value
		key := ""
		if c.via(n) == 1 {
			key = coin.KeyID
		}
		t.Check(bytes.Equal(m.Ins[i].Script, coin.Lock.Script) && m.Ins[i].Value == coin.Value && m.Ins[i].KeyID == key, "input differs",
			"party %d: input %d is %s, the coin is %d %s %q", n.id, i, m.Ins[i], coin.Value, short(coin.Lock.Script), key)
	}
	for i, x := range sent.TxOut {
		out += x.Value
		o := m.Outs[i]
		t.Check(o.Value == x.Value && bytes.Equal(o.Script, x.LockingScript), "output differs", "party %d: output %d is %s", n.id, i, o)
	}
	var est int
	var fee, inValue, outValue uint64
	var actual int64
	t.Lib("EstimatedSize", func() { est = tx.EstimatedSize() })
	t.Lib("InputValue", func() { inValue = tx.InputValue() })
	t.Lib("OutputValue", func() { outValue = tx.OutputValue(true) })
	t.Lib("ActualFee", func() { actual = tx.ActualFee() })
	t.Lib("Fee", func() { fee = tx.Fee() })
	t.Lib("String", func() { _ = tx.String(bitcoin.MainNet) })
	var text string
	t.Lib("TxString", func() { text = txbuilder.TxString(tx) })
	if h := descFee.FindString(text); !complete {
		t.Check(h == "", "description", "party %d: with coin data missing the description states %q", n.id, h)
	}
	t.Lib("Copy", func() { _ = tx.Copy() })
	t.Lib("EstimatedFee", func() { _ = tx.EstimatedFee() })
	t.Check(inValue == in, "input value", "party %d: the inputs are worth %d, expected %d", n.id, inValue, in)
	t.Check(outValue == out, "output value", "party %d: the outputs are worth %d, expected %d", n.id, outValue, out)
	t.Check(actual == int64(in)-int64(out), "fee", "party %d: the actual fee is %d, expected %d", n.id, actual, int64(in)-int64(out))
	want := uint64(0)
	if in > out {
		want = in - out
	}
	t.Check(fee == want, "fee", "party %d: the fee is %d, expected %d", n.id, fee, want)
	if complete {
		t.Check(est == c.est, "size", "party %d: the estimated size is %d, at the sender %d", n.id, est, c.est)
	}
	signed := true
	for i, x := range sent.TxIn {
		k, _ := c.coinOf(x)
		var o *wire.TxOut
		t.Lib("InputOutput", func() { o, err = tx.InputOutput(i) })
		if known[k] {
			t.Check(err == nil && o.Value == c.coins[k].Value && bytes.Equal(o.LockingScript, c.coins[k].Lock.Script), "input output", "party %d: the output spent by input %d is %v %s", n.id, i, o, errText(err))
		} else {
			t.Check(err != nil, "input output", "party %d: input %d has no data but an output is reported", n.id, i)
		}
		t.Lib("InputAddress", func() { _, err = tx.InputAddress(i) })
		t.Check(err != nil || known[k], "input address", "party %d: input %d has no data but an address", n.id, i)
		is := false
		t.Lib("InputIsSigned", func() { is = tx.InputIsSigned(i) })
		t.Check(is == (len(x.UnlockingScript) > 0), "reported", "party %d: input %d is reported as signed: %v", n.id, i, is)
		signed = signed && is
	}
	var again []byte
	t.Lib("Serialize", func() { again, err = tx.Serialize() })
	t.Check(err == nil && bytes.Equal(again, raw), "serialized", "party %d: the serialized draft is not the transaction received: %s", n.id, errText(err))
	var id bitcoin.Hash32
	t.Lib("TxID", func() { id = tx.TxID() })
	t.Check(id == ref.TxID(sent), "identifier", "party %d: the identifier is %s, of the transaction %s", n.id, id, ref.TxID(sent))
	ins, outs := 0, 0
	t.Lib("InputCount", func() { ins = tx.InputCount() })
	t.Lib("OutputCount", func() { outs = tx.OutputCount() })
	t.Check(ins == len(sent.TxIn) && outs == len(sent.TxOut), "counts", "party %d: the draft has %d inputs and %d outputs, the transaction %d and %d", n.id, ins, outs, len(sent.TxIn), len(sent.TxOut))
	for i, x := range sent.TxIn {
		var y *wire.TxIn
		t.Lib("Input", func() { y = tx.Input(i) })
		t.Check(y.PreviousOutPoint == x.PreviousOutPoint && y.Sequence == x.Sequence && bytes.Equal(y.UnlockingScript, x.UnlockingScript), "view", "party %d: input %d is another one", n.id, i)
	}
	for i, x := range sent.TxOut {
		var y *wire.TxOut
		t.Lib("Output", func() { y = tx.Output(i) })
		t.Check(y.Value == x.Value && bytes.Equal(y.LockingScript, x.LockingScript), "view", "party %d: output %d is another one", n.id, i)
	}
	t.Lib("InputOutput", func() { _, err = tx.InputOutput(len(sent.TxIn)) })
	t.Check(err != nil, "input output", "party %d: an output is reported for an input past the end", n.id)
	all := false
	t.Lib("AllInputsAreSigned", func() { all = tx.AllInputsAreSigned() })
	t.Check(all == signed, "reported", "party %d: all inputs are reported as signed: %v, in truth %v", n.id, all, signed)
}

// edit changes a draft rebuilt a second time. Every edit takes effect in its place only, and the
// draft rebuilt first stays as it is.
func (c *ceremony) edit(n *party, tx *txbuilder.TxBuilder, raw []byte) {
	t := c.t
	h := drv.HashBytes(raw) + uint64(len(n.data))
	if !t.On("C17") || h%3 != 0 || len(tx.MsgTx.TxIn) > 60 {
		return
	}
	two, _ := c.rebuild(n, raw)
	if two == nil || len(two.MsgTx.TxOut) == 0 {
		return
	}
	first, _ := observe(tx)
	exp, _ := observe(two)
	t.Probe("rebuilt draft edited")
	after := func(what string) {
		m, err := observe(two)
		if err != nil {
			t.Fail("lists", "party %d: after %s: %s", n.id, what, err)
		}
		if d := exp.diff(m); d != "" {
			t.Fail("edit", "party %d: after %s of the rebuilt draft: %s", n.id, what, d)
		}
	}
	at := int(h/3) % len(exp.Outs)
	var err error
	if h/64%2 == 0 {
		t.Lib("SetChangeLockingScript", func() { err = two.SetChangeLockingScript(append(bitcoin.Script{}, exp.Outs[at].Script...), "mark") })
		if err == nil {
			m, _ := observe(two)
			exp.Change, exp.ChangeKey = m.Change, m.ChangeKey
			for i := range exp.Outs {
				if bytes.Equal(exp.Outs[i].Script, exp.Outs[at].Script) {
					exp.Outs[i] = m.Outs[i]
				}
			}
		}
		after("setting the change script")
	}
	if exp.Outs[at].Value > 0 {
		t.Lib("AddValueToOutput", func() { err = two.AddValueToOutput(uint32(at), 5) })
		if err == nil {
			exp.Outs[at].Value += 5
		}
		after("adding to an output")
	}
	at = int(h/7) % len(exp.Ins)
	t.Lib("RemoveInput", func() { err = two.RemoveInput(at) })
	if err == nil {
		exp.Ins = append(exp.Ins[:at], exp.Ins[at+1:]...)
	}
	after("removing an input")
	u := strangeCoin(int(h/11%8), parse(raw))
	t.Lib("AddInputUTXO", func() { err = two.AddInputUTXO(u) })
	if err != nil {
		t.Fail("edit", "party %d: the rebuilt draft refuses another coin: %s", n.id, err)
	}
	exp.Ins = append(exp.Ins, mIn{Hash: u.Hash, Index: u.Index, Seq: 0xffffffff, Script: cp(u.LockingScript), Value: u.Value, KeyID: u.KeyID})
	after("adding an input")
	now, _ := observe(tx)
	if d := first.diff(now); d != "" {
		t.Fail("edit", "party %d: editing a draft rebuilt a second time changed the first: %s", n.id, d)
	}
}

// progress is what a party does with its saved state and a transaction it received.
func (c *ceremony) progress(n *party, raw []byte) {
	t := c.t
	before := raw
	if n.tx != nil {
		// take over signatures it does not have yet
		mine, theirs := parse(n.tx), parse(raw)
		for i := range mine.TxIn {
			if len(mine.TxIn[i].UnlockingScript) == 0 && len(theirs.TxIn[i].UnlockingScript) > 0 {
				mine.TxIn[i].UnlockingScript = append(bitcoin.Script{}, theirs.TxIn[i].UnlockingScript...)
			}
		}
		before = ref.Serialize(mine)
	}
	tx, known := c.rebuild(n, before)
	if tx == nil {
		n.tx = before
		return
	}
	c.compare(n, tx, known, before)
	c.edit(n, tx, before)
	was := parse(before)
	missing := false
	for _, in := range was.TxIn {
		if k, _ := c.coinOf(in); !known[k] {
			missing = true
		}
	}
	each := n.id < len(c.p.Each) && c.p.Each[n.id] == 1
	var err error
	if each {
		c.signEach(n, tx)
	}
	c.signByHand(n.id, tx)
	if !each || !missing {
		t.Lib("SignOnly", func() { _, err = tx.SignOnly(n.keys) })
	}
	t.Trace("  %d signs -> %s", n.id, errText(err))
	if !missing && err != nil && !isErr(err, txbuilder.ErrMissingPrivateKey) {
		t.Fail("sign", "party %d could not add its signatures: %s", n.id, err)
	}
	now := tx.MsgTx
	c.check("C15", len(now.TxIn) == len(was.TxIn) && len(now.TxOut) == len(was.TxOut), "changed", "signing by party %d changed the number of inputs or outputs", n.id)
	if len(now.TxIn) != len(was.TxIn) || len(now.TxOut) != len(was.TxOut) {
		return
	}
	for i := range was.TxIn {
		k, _ := c.coinOf(was.TxIn[i])
		a, b := was.TxIn[i].UnlockingScript, now.TxIn[i].UnlockingScript
		if len(a) > 0 {
			c.check("C15", bytes.Equal(a, b), "signature replaced", "signing by party %d replaced the signature of input %d", n.id, i)
			continue
		}
		mine := c.owner[k] == n.id && known[k]
		if len(b) > 0 {
			c.check("C15", mine, "foreign input", "party %d signed input %d of party %d", n.id, i, c.owner[k])
			if t.On("C15") {
				if e := ref.CheckInput(now, i, c.coins[k].Lock, c.coins[k].Value); e != nil {
					t.Fail("invalid signature", "party %d: the signature of input %d is invalid: %s", n.id, i, e)
				}
			}
		} else if mine && !missing {
			c.bad("C15", "own input unsigned", "party %d did not sign its input %d", n.id, i)
		}
	}
	if t.On("C15") {
		x, y := ref.CopyTx(was), ref.CopyTx(now)
		for i := range x.TxIn {
			x.TxIn[i].UnlockingScript = nil
			y.TxIn[i].UnlockingScript = nil
		}
		t.Check(bytes.Equal(ref.Serialize(x), ref.Serialize(y)), "changed", "signing by party %d changed more than unlocking scripts", n.id)
	}
	if t.On("C18") && !missing {
		var est int
		t.Lib("EstimatedSize", func() { est = tx.EstimatedSize() })
		c.bounds(fmt.Sprintf("party %d", n.id), est, parse(c.final))
		t.Check(est == c.est, "estimate depends on signatures", "party %d estimates %d bytes, the first party %d", n.id, est, c.est)
	}
	c.save(n, tx)
}

func (c *ceremony) complete(n *party) bool {
	if n.tx == nil {
		return false
	}
	if n.seen == nil || &n.seen[0] != &n.tx[0] {
		n.seen, n.full = n.tx, c.isComplete(n)
	}
	return n.full
}

func (c *ceremony) isComplete(n *party) bool {
	for _, in := range parse(n.tx).TxIn {
		if len(in.UnlockingScript) == 0 {
			return false
		}
	}
	return true
}

// peers of a party at a tick.
func (c *ceremony) peers(n *party) []int {
	k := c.p.Parties
	switch c.p.Graph {
	case 0:
		return []int{(n.id + 1) % k}
	case 1:
		if n.id == 0 {
			return seq(1, k-1)
		}
		return []int{0}
	}
	n.asked++
	return []int{(n.id + 1 + n.asked%(k-1)) % k}
}

// pass sends what a party has.
func (c *ceremony) pass(n *party) {
	if n.tx == nil {
		return
	}
	for _, to := range c.peers(n) {
		c.m.send(n.id, to, partyMsg{Tx: n.tx})
		if c.p.Apart {
			// the data of the coins comes in pieces of random order
			r := drv.NewR(uint64(c.p.Seed) + uint64(c.m.ord))
			var l []int
			for _, k := range n.data {
				l = append(l, k)
			}
			for i := len(l) - 1; i > 0; i-- {
				j := r.Intn(i + 1)
				l[i], l[j] = l[j], l[i]
			}
			l = dedupeInts(l)
			for len(l) > 0 {
				k := 1 + r.Intn(len(l))
				if len(l) > 20 {
					k = 1 + len(l)/2
				}
				c.m.send(n.id, to, l[:k])
				l = l[k:]
			}
		} else {
			c.m.send(n.id, to, dedupeInts(n.data))
		}
	}
}

func dedupeInts(l []int) []int {
	seen := map[int]bool{}
	var r []int
	for _, x := range l {
		if !seen[x] {
			seen[x] = true
			r = append(r, x)
		}
	}
	return r
}

func execParties(t *drv.T, plan any) {
	p := plan.(*partiesPlan)
	if p.Parties < 2 || p.Parties > 8 || len(p.Coins) == 0 || p.Rate <= 0 || p.Dust < 0 || len(p.Outs) == 0 {
		return
	}
	seedEnv(p.Seed)
	c := &ceremony{t: t, p: p, m: newMesh(t, p.Parties, p.Faults)}
	c.mint()
	for i := 0; i < p.Parties; i++ {
		n := &party{id: i}
		var mine []Coin
		for k, x := range c.coins {
			if c.owner[k] == i {
				mine = append(mine, x)
			}
		}
		n.keys = allKeys(mine)
		c.nodes = append(c.nodes, n)
	}
	first := c.nodes[0]
	tx := c.prepare()
	if tx == nil {
		t.Shape("not prepared")
		t.Probe("not enough value to prepare")
		return
	}
	for i := range c.coins {
		first.data = append(first.data, i)
	}
	for k := 1; k <= p.Extra && k < 9; k++ {
		first.data = append(first.data[:k%len(first.data)], append([]int{-k}, first.data[k%len(first.data):]...)...)
	}
	t.Lib("EstimatedSize", func() { c.est = tx.EstimatedSize() })
	// What everyone should end up with: the same draft completed in one go by the holder of all keys.
	whole := tx.Copy()
	for i := range c.nodes {
		c.signByHand(i, &whole)
	}
	var err error
	t.Lib("SignOnly", func() { _, err = whole.SignOnly(allKeys(c.coins)) })
	if err != nil {
		t.Fail("sign", "completing the transaction with all keys failed: %s", err)
	}
	c.final = ref.Serialize(whole.MsgTx)
	c.bounds("prepared transaction", c.est, whole.MsgTx)
	c.save(first, tx)
	t.Trace("prepared %d inputs %d outputs", len(tx.MsgTx.TxIn), len(tx.MsgTx.TxOut))
	t.Shape(fmt.Sprintf("%d/%d/%d", p.Parties, len(tx.MsgTx.TxIn), len(tx.MsgTx.TxOut)))

	c.m.receive = func(to, from int, msg any) {
		n := c.nodes[to]
		t.Trace("%v %d -> %d %T", c.m.now, from, to, msg)
		t.ShapeInt(to*16 + from)
		switch x := msg.(type) {
		case []int:
			had := len(c.known(n))
			n.data = append(n.data, x...)
			if len(n.data) > 700 {
				n.data = dedupeInts(n.data)
			}
			if n.tx != nil && len(c.known(n)) > had {
				c.progress(n, n.tx)
				t.Shape("data")
			}
		case partyMsg:
			if n.tx != nil {
				// nothing new
				mine, theirs := parse(n.tx), parse(x.Tx)
				news := false
				for i := range mine.TxIn {
					if len(mine.TxIn[i].UnlockingScript) == 0 && len(theirs.TxIn[i].UnlockingScript) > 0 {
						news = true
					}
				}
				if !news && drv.HashBytes([]byte(fmt.Sprint(c.m.now)))%4 != 0 {
					return
				}
			}
			c.progress(n, x.Tx)
			t.Shape("tx")
			if c.p.Graph != 1 || n.id != 0 {
				c.pass(n)
			}
		}
	}
	c.m.timer = func(i int) { c.pass(c.nodes[i]) }
	c.m.crash = func(i int) { c.nodes[i].last = nil }
	c.m.restart = func(i int) {
		n := c.nodes[i]
		t.Trace("%v %d restarts", c.m.now, i)
		t.Shape("restart")
		if n.tx != nil {
			c.progress(n, n.tx)
			c.pass(n)
		}
	}
	c.pass(first)
	done := func() bool {
		for _, n := range c.nodes {
			if !c.complete(n) {
				return false
			}
		}
		return true
	}
	limit := func() time.Duration {
		if c.m.faultsLeft() {
			return time.Hour
		}
		if !c.calm {
			c.calm = true
			c.calmAt = c.m.now
		}
		return c.calmAt + time.Duration(4*p.Parties+8)*meshTick
	}
	ok := c.m.run(limit, done)
	if !ok {
		var l []string
		for _, n := range c.nodes {
			l = append(l, fmt.Sprintf("%d:%v", n.id, c.complete(n)))
		}
		c.bad("C15", "no completion", "the transaction is not complete at every party %v after the faults stopped: %v", c.m.now-c.calmAt, l)
		return
	}
	t.NonTrivial()
	t.State(drv.HashBytes(c.final))
	for _, n := range c.nodes {
		c.check("C15", bytes.Equal(n.tx, c.final), "parties disagree", "party %d ends with another transaction than the one signed in one go", n.id)
		tx := parse(n.tx)
		if t.On("C15", "C13") {
			for i, in := range tx.TxIn {
				k, _ := c.coinOf(in)
				if e := ref.CheckInput(tx, i, c.coins[k].Lock, c.coins[k].Value); e != nil {
					t.Fail("invalid", "input %d of the completed transaction at party %d is invalid: %s", i, n.id, e)
				}
			}
		}
		if t.On("C13") {
			in, out := uint64(0), uint64(0)
			for _, x := range tx.TxIn {
				k, _ := c.coinOf(x)
				in += c.coins[k].Value
			}
			for _, x := range tx.TxOut {
				out += x.Value
			}
			size := len(n.tx)
			t.Check(in >= out && in-out >= ref.Fee(size, p.Rate), "fee too low", "party %d: the completed transaction of %d bytes has inputs of %d and outputs of %d, the rate %g needs a fee of %d", n.id, size, in, out, p.Rate, ref.Fee(size, p.Rate))
		}
	}
	if t.On("C15") && len(first.tx) < 20000 {
		tx := parse(first.tx)
		for i, in := range tx.TxIn {
			k, _ := c.coinOf(in)
			if i == int(p.Seed)%len(tx.TxIn) {
				if e := ref.Interpret(tx, i, c.coins[k].Lock.Script, c.coins[k].Value); e != nil {
					t.Fail("invalid", "the script interpreter rejects input %d: %s", i, e)
				}
			}
		}
	}
}

func init() {
	for id, rule := range map[string]string{
		"C13": "fee of the completed transaction at every party",
		"C15": "same valid transaction everywhere within a bounded time after the faults stop, signing changes nothing else",
		"C17": "rebuilt draft compared with the sender's, behaviour while data is missing",
		"C18": "estimated size at every stage between the final size and the final size with the longest possible signatures",
	} {
		q := 6000
		drv.Register(&drv.Prop{ID: id, Gen: genParties(id), New: func() any { return &partiesPlan{} }, Exec: execParties,
			Quick: q, Thorough: q * 25, Chunk: q / 40,
			World: "signing: two to five parties complete a transaction over a faulty network (ring, star or all to all), each with own keys, saved bytes and crashes",
			Rule:  "a run is a set of coins split between parties, a way to prepare and pass on the transaction, and faults by message number (loss, repetition, delay), crashes, partitions and clock offsets; decided: " + rule + "; two runs are distinct if the sequence of deliveries (from, to, kind) and restarts or the shape of the transaction differs; a run is non-trivial if the transaction was completed at every party",
			Real:  realLib, Stubs: []string{"network between the parties", "disks of the parties", "clock", "random source"},
			Assume: []string{"coins are of the three kinds the library can sign, each owned by one party", "rates are positive", "threshold coins list distinct keys"}})
	}
}
