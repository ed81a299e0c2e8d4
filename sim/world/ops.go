package world

import (
	"bytes"
	"crypto/sha256"
	"errors"
	"fmt"

	pkgerrors "github.com/pkg/errors"
	"github.com/tokenized/pkg/bitcoin"
	"github.com/tokenized/pkg/wire"
	"github.com/tokenized/txbuilder"

	"verifsim/drv"
	"verifsim/ref"
	"verifsim/simrt"
)

// Coin is an unspent output known to the simulation.
type Coin struct {
	Lock  ref.Lock
	Value uint64
	Hash  bitcoin.Hash32
	Index uint32
	KeyID string
}

// CoinPlan describes a coin in a plan.
type CoinPlan struct {
	Lock  int    `json:"lock"`
	Value uint64 `json:"value"`
	Tx    int    `json:"tx"`             // coins with the same number come from the same transaction
	Out   int    `json:"out"`            // output index there
	Same  int    `json:"same,omitempty"` // one more than the coin of which this is another, differing account
}

func (p CoinPlan) coin(i int) Coin {
	// the identifiers of some transactions differ in a single byte
	h := sha256.Sum256([]byte(fmt.Sprintf("coin tx %d", p.Tx/4)))
	if k := p.Tx % 4; k > 0 {
		h[[]int{0, 31, 0, 17}[k]] ^= 1
	}
	return Coin{Lock: lockOf(p.Lock), Value: p.Value, Hash: bitcoin.Hash32(h), Index: uint32(p.Out), KeyID: keyName("coin", i)}
}

// genCoins makes coins of which several share their transaction or their index.
func genCoins(r *drv.R, n int, value func() uint64, lock func() int) []CoinPlan {
	var l []CoinPlan
	used := map[[2]int]bool{}
	for len(l) < n {
		c := CoinPlan{Lock: lock(), Value: value(), Tx: r.Intn(n/2 + 1), Out: r.Intn(3)}
		if r.P(1, 10) {
			c.Out += []int{1 << 8, 1 << 16, 1 << 24, 1 << 31}[r.Intn(4)]
		}
		if used[[2]int{c.Tx, c.Out}] {
			c.Tx = n + len(l)
		}
		used[[2]int{c.Tx, c.Out}] = true
		l = append(l, c)
	}
	return l
}

func coinsOf(l []CoinPlan) []Coin {
	r := make([]Coin, 0, len(l))
	used := map[[2]int]bool{}
	for i, p := range l {
		if p.Same > 0 && p.Same <= i {
			c := p.coin(i)
			c.Hash, c.Index = r[p.Same-1].Hash, r[p.Same-1].Index
			r = append(r, c)
			continue
		}
		for used[[2]int{p.Tx, p.Out}] { // plans may have been minimised
			p.Tx += 1000
		}
		used[[2]int{p.Tx, p.Out}] = true
		if p.Value == 0 {
			p.Value = 1
		}
		r = append(r, p.coin(i))
	}
	return r
}

// utxo returns a fresh value that shares nothing.
func (c Coin) utxo() bitcoin.UTXO {
	return bitcoin.UTXO{Hash: c.Hash, Index: c.Index, Value: c.Value, LockingScript: append(bitcoin.Script{}, c.Lock.Script...), KeyID: c.KeyID}
}

// Op is one operation on a draft.
type Op struct {
	K string `json:"k"`
	A int    `json:"a,omitempty"`
	B int    `json:"b,omitempty"`
	L int    `json:"l,omitempty"`
	V uint64 `json:"v,omitempty"`
	M int    `json:"m,omitempty"`
	R bool   `json:"r,omitempty"`
	D bool   `json:"d,omitempty"`
	C []int  `json:"c,omitempty"`
}

const badAddress = 9999

func addrOrBad(n int) bitcoin.RawAddress {
	if n == badAddress {
		return bitcoin.RawAddress{}
	}
	l := lockOf(n)
	if l.Kind == ref.Other {
		l = ref.NewP2PKH(n % 40)
	}
	return addr(l)
}

func script(n int) bitcoin.Script {
	if n >= 100000 {
		return append(bitcoin.Script{}, ref.NewData(n-100000).Script...)
	}
	return append(bitcoin.Script{}, lockOf(n).Script...)
}

func scriptOfAddr(n int) bitcoin.Script {
	s, err := addrOrBad(n).LockingScript()
	if err != nil {
		return nil
	}
	return s
}

// amount resolves the value of an operation against the state of the draft.
func (o Op) amount(tx *txbuilder.TxBuilder) uint64 {
	var base uint64
	var sc bitcoin.Script
	cur := uint64(0)
	switch o.K {
	case "addval", "subval":
		if o.A < len(tx.MsgTx.TxOut) {
			sc = tx.MsgTx.TxOut[o.A].LockingScript
			cur = tx.MsgTx.TxOut[o.A].Value
		}
	default:
		sc = script(o.L)
	}
	dust := ref.Dust(ref.OutSize(sc), tx.DustFeeRate)
	switch o.M {
	case 1:
		base = dust
	case 2:
		base = cur
	case 3:
		base = ref.Fee(ref.OutSize(sc), tx.FeeRate)
	case 4:
		if cur > dust {
			base = cur - dust
		}
	default:
		return o.V
	}
	v := base + o.V
	if v < base {
		return ^uint64(0)
	}
	if v < 3 {
		return 0
	}
	return v - 3
}

// Result is what an operation returned.
type Result struct {
	Err  error
	Keys []bitcoin.Key
	Done bool
	Draw int
}

func (r Result) String() string {
	s := errText(r.Err)
	for _, k := range r.Keys {
		s += fmt.Sprintf(" %x", k.PublicKey().Bytes()[:4])
	}
	return fmt.Sprintf("%s %v", s, r.Done)
}

func (o Op) keys() []bitcoin.Key {
	var r []bitcoin.Key
	for _, k := range o.C {
		r = append(r, ref.K(k).Key)
	}
	return r
}

// apply executes an operation. It is a function of the draft and the operation only; the random
// source is seeded from seed.
func apply(tx *txbuilder.TxBuilder, o Op, coins []Coin, seed int64) (res Result) {
	if seed != 0 {
		seedEnv(seed)
	}
	return applyWith(tx, o, coins, func(c Coin) bitcoin.UTXO { return c.utxo() })
}

func applyWith(tx *txbuilder.TxBuilder, o Op, coins []Coin, utxo func(Coin) bitcoin.UTXO) (res Result) {
	coin := func(n int) Coin { return coins[n%len(coins)] }
	switch o.K {
	case "addutxo":
		res.Err = tx.AddInputUTXO(utxo(coin(o.B)))
	case "addin":
		u := utxo(coin(o.B))
		res.Err = tx.AddInput(wire.OutPoint{Hash: u.Hash, Index: u.Index}, u.LockingScript, u.Value)
	case "insin":
		res.Err = tx.InsertInput(o.A, utxo(coin(o.B)))
	case "updin":
		res.Err = tx.UpdateInputUTXO(o.A, utxo(coin(o.B)))
	case "remin":
		res.Err = tx.RemoveInput(o.A)
	case "addout":
		res.Err = tx.AddOutput(script(o.L), o.amount(tx), o.R, o.D)
	case "addpay":
		res.Err = tx.AddPaymentOutput(addrOrBad(o.L), o.amount(tx), o.R)
	case "adddust":
		res.Err = tx.AddDustOutput(addrOrBad(o.L), o.R)
	case "addmax":
		res.Err = tx.AddMaxOutput(addrOrBad(o.L))
	case "addmaxs":
		res.Err = tx.AddMaxScriptOutput(script(o.L))
	case "insout":
		res.Err = tx.InsertOutput(o.A, script(o.L), o.amount(tx), o.R, o.D)
	case "remout":
		res.Err = tx.RemoveOutput(o.A)
	case "addval":
		res.Err = tx.AddValueToOutput(uint32(o.A), o.amount(tx))
	case "subval":
		res.Err = tx.SubtractValueFromOutput(uint32(o.A), o.amount(tx))
	case "setdust":
		res.Err = tx.SetOutputToDust(uint32(o.A))
	case "updout":
		res.Err = tx.UpdateOutput(uint32(o.A), script(o.L))
	case "change":
		res.Err = tx.SetChangeAddress(addrOrBad(o.L), keyName("change", o.B))
	case "changes":
		res.Err = tx.SetChangeLockingScript(script(o.L), keyName("change", o.B))
	case "header": // fields without functions of their own are set directly
		tx.MsgTx.Version, tx.MsgTx.LockTime = int32(o.A%4), uint32(o.V)
	case "seq":
		if o.A >= len(tx.MsgTx.TxIn) {
			res.Err = errNoEntry
			break
		}
		tx.MsgTx.TxIn[o.A].Sequence = uint32(o.V)
	case "outkey":
		if o.A >= len(tx.Outputs) {
			res.Err = errNoEntry
			break
		}
		tx.Outputs[o.A].KeyID = keyName("out", o.B)
	case "rate":
		tx.FeeRate, tx.DustFeeRate = float32(1+o.A%40)/20, float32(o.B%5)/4
	case "break":
		var locks []ref.Lock
		for i := 0; i < 1+o.B%5; i++ {
			locks = append(locks, ref.NewP2PKH((o.L+i)%40))
		}
		outs, err := txbuilder.BreakValue(o.V+1, uint64(o.A)+1, addrKeys(locks), tx.DustFeeRate, tx.FeeRate, o.R, o.D)
		res.Err = err
		if err == nil {
			tx.AddOutputs(outs)
		}
	case "shuffle":
		tx.RandomizeOutputs()
	case "shuffleafter":
		tx.RandomizeOutputsAfter(o.A)
	case "fund":
		us := make([]bitcoin.UTXO, 0, len(o.C))
		for _, c := range o.C {
			us = append(us, utxo(coin(c)))
		}
		res.Err = tx.AddFunding(us)
	case "fundbreak":
		us := make([]bitcoin.UTXO, 0, len(o.C))
		for _, c := range o.C {
			us = append(us, utxo(coin(c)))
		}
		var locks []ref.Lock
		for i := 0; i < 1+o.B%5; i++ {
			locks = append(locks, ref.NewP2PKH((o.L+i)%40))
		}
		res.Err = tx.AddFundingBreakChange(us, o.V+1, addrKeys(locks))
	case "calcfee":
		res.Err = tx.CalculateFee()
	case "zerofee":
		res.Err = tx.ZeroizeFee()
	case "adjust":
		res.Done, res.Err = tx.AdjustFee(int64(o.V) - int64(o.A))
	case "sign":
		res.Keys, res.Err = tx.Sign(o.keys())
	case "signonly":
		res.Keys, res.Err = tx.SignOnly(o.keys())
	default:
		panic("unknown operation " + o.K)
	}
	return res
}

var errNoEntry = errors.New("no such entry")

func isErr(err, want error) bool {
	return err != nil && (pkgerrors.Cause(err) == want || errors.Is(err, want))
}

// ---------------------------------------------------------------- observable state of a draft

type mIn struct {
	Hash   bitcoin.Hash32
	Index  uint32
	Seq    uint32
	Unlock []byte
	Script []byte
	Value  uint64
	KeyID  string
}

type mOut struct {
	Value  uint64
	Script []byte
	Rem    bool
	Dust   bool
	KeyID  string
}

// Model is the list model of a draft.
type Model struct {
	Ins       []mIn
	Outs      []mOut
	Change    []byte
	ChangeKey string
	SendMax   bool
	Rate      float32
	DustRate  float32
	Version   int32
	LockTime  uint32
}

// observe reads the state of a draft. The error tells if the parallel lists do not match.
func observe(tx *txbuilder.TxBuilder) (*Model, error) {
	m := &Model{Change: cp(tx.ChangeScript), ChangeKey: tx.ChangeKeyID, SendMax: tx.SendMax, Rate: tx.FeeRate,
		DustRate: tx.DustFeeRate, Version: tx.MsgTx.Version, LockTime: tx.MsgTx.LockTime}
	if len(tx.Inputs) != len(tx.MsgTx.TxIn) {
		return m, fmt.Errorf("%d inputs but %d input data", len(tx.MsgTx.TxIn), len(tx.Inputs))
	}
	if len(tx.Outputs) != len(tx.MsgTx.TxOut) {
		return m, fmt.Errorf("%d outputs but %d output data", len(tx.MsgTx.TxOut), len(tx.Outputs))
	}
	for i, in := range tx.MsgTx.TxIn {
		s := tx.Inputs[i]
		if s == nil {
			s = &txbuilder.InputSupplement{}
		}
		m.Ins = append(m.Ins, mIn{Hash: in.PreviousOutPoint.Hash, Index: in.PreviousOutPoint.Index, Seq: in.Sequence,
			Unlock: cp(in.UnlockingScript), Script: cp(s.LockingScript), Value: s.Value, KeyID: s.KeyID})
	}
	for i, out := range tx.MsgTx.TxOut {
		s := tx.Outputs[i]
		m.Outs = append(m.Outs, mOut{Value: out.Value, Script: cp(out.LockingScript), Rem: s.IsRemainder, Dust: s.IsDust, KeyID: s.KeyID})
	}
	return m, nil
}

func cp(b []byte) []byte {
	if len(b) == 0 {
		return nil
	}
	return append([]byte{}, b...)
}

func (m *Model) clone() *Model {
	c := *m
	c.Ins = append([]mIn{}, m.Ins...)
	c.Outs = append([]mOut{}, m.Outs...)
	return &c
}

func (a mOut) eq(b mOut) bool {
	return a.Value == b.Value && bytes.Equal(a.Script, b.Script) && a.Rem == b.Rem && a.Dust == b.Dust && a.KeyID == b.KeyID
}

func (a mOut) String() string {
	return fmt.Sprintf("{%d %s rem=%v dust=%v key=%q}", a.Value, short(a.Script), a.Rem, a.Dust, a.KeyID)
}

func short(b []byte) string {
	h := sha256.Sum256(b)
	return fmt.Sprintf("%d:%x", len(b), h[:3])
}

func (a mIn) String() string {
	return fmt.Sprintf("{%x:%d %d %s key=%q seq=%x unlock=%s}", a.Hash[:3], a.Index, a.Value, short(a.Script), a.KeyID, a.Seq, short(a.Unlock))
}

// diff describes the first difference, empty if there is none.
func (m *Model) diff(o *Model) string {
	switch {
	case len(m.Ins) != len(o.Ins):
		return fmt.Sprintf("%d inputs, expected %d", len(o.Ins), len(m.Ins))
	case len(m.Outs) != len(o.Outs):
		return fmt.Sprintf("%d outputs, expected %d", len(o.Outs), len(m.Outs))
	case !bytes.Equal(m.Change, o.Change):
		return "change script differs"
	case m.ChangeKey != o.ChangeKey:
		return "change key id differs"
	case m.SendMax != o.SendMax:
		return fmt.Sprintf("send-max mark is %v, expected %v", o.SendMax, m.SendMax)
	case m.Rate != o.Rate || m.DustRate != o.DustRate:
		return "fee rates differ"
	case m.Version != o.Version || m.LockTime != o.LockTime:
		return "version or lock time differ"
	}
	for i, a := range m.Ins {
		if b := o.Ins[i]; a.String() != b.String() {
			return fmt.Sprintf("input %d is %s, expected %s", i, b, a)
		}
	}
	for i, a := range m.Outs {
		if b := o.Outs[i]; !a.eq(b) {
			return fmt.Sprintf("output %d is %s, expected %s", i, b, a)
		}
	}
	return ""
}

func (m *Model) hash() uint64 {
	return drv.HashBytes([]byte(fmt.Sprintf("%v %v %s %s %v", m.Ins, m.Outs, short(m.Change), m.ChangeKey, m.SendMax)))
}

func (m *Model) trace(t *drv.T) {
	t.Trace("  state ins=%v outs=%v change=%s %s max=%v", m.Ins, m.Outs, short(m.Change), m.ChangeKey, m.SendMax)
}

// twins returns the positions of two inputs that spend the same coin.
func (m *Model) twins() (int, int, bool) {
	for i := range m.Ins {
		for j := 0; j < i; j++ {
			if m.Ins[i].Hash == m.Ins[j].Hash && m.Ins[i].Index == m.Ins[j].Index {
				return j, i, true
			}
		}
	}
	return 0, 0, false
}

func seedEnv(seed int64) {
	e := simrt.NewEnv(seed)
	e.Adversarial = seed%3 == 0
	simrt.SetEnv(e)
}

func causeOf(err error) error {
	if err == nil {
		return nil
	}
	return pkgerrors.Cause(err)
}
