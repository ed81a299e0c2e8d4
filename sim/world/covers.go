package world

import (
	"bytes"
	"crypto/sha256"
	"encoding/binary"
	"fmt"

	"github.com/tokenized/pkg/bitcoin"
	"github.com/tokenized/pkg/wire"
	"github.com/tokenized/txbuilder"

	"verifsim/drv"
	"verifsim/ref"
)

// The hash type world: parties edit a common transaction and sign inputs with various hash types
// in between. Edits reach each party over a faulty network and are applied in the order of their
// numbers, several at a time if messages were late. Each party keeps a hash cache that it clears as
// documented and judges every signature after every batch.

type coverEdit struct {
	K string `json:"k"`
	A int    `json:"a,omitempty"`
	B int    `json:"b,omitempty"`
	V uint64 `json:"v,omitempty"`
}

type coversPlan struct {
	Ins    []int         `json:"ins"` // coin numbers at the beginning
	Outs   []int         `json:"outs"`
	Edits  []coverEdit   `json:"edits"`
	Net    [][]Transport `json:"net,omitempty"`   // by party and edit
	Crash  [][]int       `json:"crash,omitempty"` // by party, edits before which it restarts
	Locks  uint32        `json:"locktime,omitempty"`
	Narrow []bool        `json:"narrow,omitempty"` // parties that clear only the outputs when only outputs changed
}

var coverKinds = []struct {
	k string
	w int
}{{"sign", 10}, {"signinput", 2}, {"addin", 4}, {"remin", 3}, {"swapin", 2}, {"seq", 4}, {"outpoint", 2}, {"addout", 4}, {"remout", 4},
	{"swapout", 2}, {"outval", 4}, {"outscript", 3}, {"locktime", 2}, {"version", 2}, {"coinvalue", 2}, {"coinscript", 2}, {"back", 3}, {"unlock", 2}}

func genCovers(r *drv.R, thorough bool) any {
	p := &coversPlan{}
	for k := r.Range(1, 4); k > 0; k-- {
		p.Ins = append(p.Ins, r.Intn(60))
	}
	for k := r.Range(0, 4); k > 0; k-- {
		p.Outs = append(p.Outs, r.Intn(30))
	}
	if r.P(1, 3) {
		p.Locks = uint32(r.Intn(1 << 20))
	}
	w := make([]int, len(coverKinds))
	for i, x := range coverKinds {
		w[i] = x.w
	}
	if r.P(1, 3) {
		// mostly changes of outputs
		for i, x := range coverKinds {
			switch x.k {
			case "addin", "remin", "swapin", "seq", "outpoint", "coinvalue", "coinscript", "version":
				w[i] = 0
			}
		}
	}
	n := r.Range(4, 22)
	for i := 0; i < n; i++ {
		e := coverEdit{K: coverKinds[r.Pick(w...)].k, A: r.Intn(8), B: r.Intn(60), V: r.Log(1 << 40)}
		if i == 0 {
			e.K = "sign"
		}
		p.Edits = append(p.Edits, e)
	}
	for q := r.Range(1, 3); q > 0; q-- {
		var l []Transport
		var c []int
		if r.P(2, 3) {
			for i := 0; i < n; i++ {
				x := genTransport(r)
				x.Drop = r.P(1, 5)
				l = append(l, x)
				if r.P(1, 12) {
					c = append(c, i)
				}
			}
		}
		p.Net = append(p.Net, l)
		p.Crash = append(p.Crash, c)
		p.Narrow = append(p.Narrow, r.P(2, 3))
	}
	return p
}

// coverLock returns the key, the whole script and the signed part of a coin.
func coverLock(n int) (key int, script, signed []byte) {
	key = n % 20
	base := ref.NewP2PKH(key).Script
	switch n % 7 {
	case 1:
		base = ref.NewP2PK(key).Script
	case 2: // data with the separator's code in it
		base = append([]byte{0x04, 0xab, 0xab, 0x01, 0xab, 0x75}, base...)
	}
	switch n % 5 {
	case 1:
		return key, append([]byte{0x03, 1, 2, byte(n), 0x75, 0xab}, base...), base
	case 2:
		return key, append([]byte{0xab, 0x02, 0xab, byte(n), 0x75, 0xab}, base...), base
	case 3:
		// pushes that could be written shorter
		base = append([]byte{0x4c, 0x02, 0x33, 0x44, 0x75, 0x01, 0x05, 0x75}, base...)
		return key, append([]byte{0x51, 0x75, 0xab}, base...), base
	case 4:
		base = append([]byte{0x4d, 0x01, 0x00, 0x81, 0x75, 0x4f, 0x75, 0x00, 0x75, 0x60, 0x75}, base...)
		return key, base, base
	}
	return key, base, base
}

type coverIn struct {
	id     int
	key    int
	script []byte
	part   []byte
	value  uint64
}

type coverSig struct {
	in     int // input id
	typ    byte
	sig    []byte
	digest [32]byte
	cover  [32]byte
	at     int // number of the edit that made it
}

// coverState is the transaction with what is known about its coins.
type coverState struct {
	tx   *wire.MsgTx
	ins  []coverIn
	gone []struct { // removed inputs
		in  coverIn
		txi *wire.TxIn
	}
	next int

	pre    []byte // last preimage handed out
	preSum [32]byte
}

func (s *coverState) add(pos, n int) {
	key, script, part := coverLock(n)
	h := sha256.Sum256([]byte(fmt.Sprintf("cover coin %d %d", n, s.next)))
	hash := bitcoin.Hash32(h)
	in := wire.NewTxIn(wire.NewOutPoint(&hash, uint32(n%4)), nil)
	in.Sequence = 0xffffffff - uint32(n%3)
	s.insert(pos, coverIn{id: s.next, key: key, script: script, part: part, value: uint64(1000 + n*37)}, in)
	s.next++
}

func (s *coverState) insert(pos int, c coverIn, in *wire.TxIn) {
	s.ins = append(s.ins[:pos:pos], append([]coverIn{c}, s.ins[pos:]...)...)
	s.tx.TxIn = append(s.tx.TxIn[:pos:pos], append([]*wire.TxIn{in}, s.tx.TxIn[pos:]...)...)
}

func coverOut(n int) *wire.TxOut {
	sc := ref.NewP2PKH(n % 30).Script
	if n%5 == 4 {
		sc = ref.NewData(n * 3).Script
	}
	return wire.NewTxOut(uint64(500+n*11), append(bitcoin.Script{}, sc...))
}

// apply makes an edit and reports if it changed outputs only or anything else.
func (s *coverState) apply(e coverEdit) (outputs, other bool) {
	a, b := abs(e.A), abs(e.B)
	ni, no := len(s.tx.TxIn), len(s.tx.TxOut)
	switch e.K {
	case "addin":
		s.add(a%(ni+1), b)
		return false, true
	case "remin":
		if ni < 2 {
			return
		}
		i := a % ni
		s.gone = append(s.gone, struct {
			in  coverIn
			txi *wire.TxIn
		}{s.ins[i], s.tx.TxIn[i]})
		s.ins = append(s.ins[:i:i], s.ins[i+1:]...)
		s.tx.TxIn = append(s.tx.TxIn[:i:i], s.tx.TxIn[i+1:]...)
		return false, true
	case "back":
		if len(s.gone) == 0 {
			return
		}
		g := s.gone[len(s.gone)-1]
		s.gone = s.gone[:len(s.gone)-1]
		s.insert(a%(ni+1), g.in, g.txi)
		return false, true
	case "swapin":
		i, j := a%ni, b%ni
		s.ins[i], s.ins[j] = s.ins[j], s.ins[i]
		s.tx.TxIn[i], s.tx.TxIn[j] = s.tx.TxIn[j], s.tx.TxIn[i]
		return false, i != j
	case "seq":
		s.tx.TxIn[a%ni].Sequence = uint32(e.V)
		return false, true
	case "outpoint":
		if b%2 == 0 {
			s.tx.TxIn[a%ni].PreviousOutPoint.Index ^= 1 + uint32(b%3)
		} else {
			s.tx.TxIn[a%ni].PreviousOutPoint.Hash[b%32] ^= 0x10
		}
		return false, true
	case "addout":
		i := a % (no + 1)
		s.tx.TxOut = append(s.tx.TxOut[:i:i], append([]*wire.TxOut{coverOut(b)}, s.tx.TxOut[i:]...)...)
		return true, false
	case "remout":
		if no == 0 {
			return
		}
		i := a % no
		s.tx.TxOut = append(s.tx.TxOut[:i:i], s.tx.TxOut[i+1:]...)
		return true, false
	case "swapout":
		if no < 2 {
			return
		}
		i, j := a%no, b%no
		s.tx.TxOut[i], s.tx.TxOut[j] = s.tx.TxOut[j], s.tx.TxOut[i]
		return true, false
	case "outval":
		if no == 0 {
			return
		}
		s.tx.TxOut[a%no].Value = e.V
		return true, false
	case "outscript":
		if no == 0 {
			return
		}
		s.tx.TxOut[a%no].LockingScript = coverOut(b).LockingScript
		return true, false
	case "locktime":
		s.tx.LockTime = uint32(e.V)
		return false, true
	case "version":
		s.tx.Version = int32(1 + b%3)
		return false, true
	case "coinvalue":
		s.ins[a%ni].value = e.V
		return false, true
	case "coinscript":
		i := a % ni
		_, s.ins[i].script, s.ins[i].part = coverLock(b)
		return false, true
	case "unlock":
		// unlocking scripts are covered by no signature
		s.tx.TxIn[a%ni].UnlockingScript = bytes.Repeat([]byte{0x51}, b%9)
		return false, true
	}
	return
}

// cover is the part of the transaction a hash type covers for an input.
func (s *coverState) cover(i int, typ byte) [32]byte {
	b := &bytes.Buffer{}
	in, c := s.tx.TxIn[i], s.ins[i]
	fmt.Fprintf(b, "%d %d %x:%d %d %d|%x|%d\n", s.tx.Version, s.tx.LockTime, in.PreviousOutPoint.Hash[:], in.PreviousOutPoint.Index, in.Sequence, c.value, c.part, typ)
	if typ&0x80 == 0 {
		for _, x := range s.tx.TxIn {
			fmt.Fprintf(b, "in %x:%d\n", x.PreviousOutPoint.Hash[:], x.PreviousOutPoint.Index)
			if typ&3 == 1 {
				fmt.Fprintf(b, "seq %d\n", x.Sequence)
			}
		}
	}
	switch typ & 3 {
	case 1:
		for _, o := range s.tx.TxOut {
			fmt.Fprintf(b, "out %d %x\n", o.Value, []byte(o.LockingScript))
		}
	case 3:
		if i < len(s.tx.TxOut) {
			o := s.tx.TxOut[i]
			fmt.Fprintf(b, "out %d %x\n", o.Value, []byte(o.LockingScript))
		}
	}
	return sha256.Sum256(b.Bytes())
}

func newCoverState(p *coversPlan) *coverState {
	s := &coverState{tx: wire.NewMsgTx(1)}
	s.tx.LockTime = p.Locks
	for _, n := range p.Ins {
		s.add(len(s.ins), abs(n))
	}
	for _, n := range p.Outs {
		s.tx.AddTxOut(coverOut(abs(n)))
	}
	return s
}

var hashTypes = []byte{0x41, 0x42, 0x43, 0xc1, 0xc2, 0xc3}

func digestOf(t *drv.T, s *coverState, i int, typ byte, cache *txbuilder.SigHashCache) [32]byte {
	var h *bitcoin.Hash32
	var err error
	t.Lib("SignatureHash", func() {
		h, err = txbuilder.SignatureHash(s.tx, i, s.ins[i].script, s.ins[i].value, txbuilder.SigHashType(typ), cache)
	})
	if err != nil {
		t.Fail("hash", "no hash for input %d with type %x: %s", i, typ, err)
	}
	// what is hashed
	var pre []byte
	f, name := txbuilder.SignatureHashPreimageBytes, "SignatureHashPreimageBytes"
	if (i+int(typ>>6))%2 == 0 {
		f, name = txbuilder.SignaturePreimage, "SignaturePreimage"
	}
	t.Lib(name, func() { pre, err = f(s.tx, i, s.ins[i].script, s.ins[i].value, txbuilder.SigHashType(typ), cache) })
	if err != nil {
		t.Fail("hash", "no preimage for input %d with type %x: %s", i, typ, err)
	}
	// the one handed out before stays what it was
	if s.pre != nil {
		t.Check(sha256.Sum256(s.pre) == s.preSum, "preimage", "%s alters a preimage handed out before", name)
	}
	once := sha256.Sum256(pre)
	s.pre, s.preSum = pre, once
	t.Check(sha256.Sum256(once[:]) == [32]byte(*h), "preimage", "%s does not give what is hashed for input %d with type %x", name, i, typ)
	return [32]byte(*h)
}

func execCovers(t *drv.T, plan any) {
	p := plan.(*coversPlan)
	if len(p.Ins) == 0 || len(p.Ins) > 20 {
		return
	}
	// The author's side: edits in order, signatures with a cache of its own.
	s := newCoverState(p)
	cache := &txbuilder.SigHashCache{}
	var sigs []coverSig
	for n, e := range p.Edits {
		if e.K != "sign" && e.K != "signinput" {
			outs, other := s.apply(e)
			if other {
				cache.Clear()
			} else if outs {
				cache.ClearOutputs()
			}
			continue
		}
		i := abs(e.A) % len(s.ins)
		c := s.ins[i]
		typ := hashTypes[abs(e.B)%len(hashTypes)]
		var sig []byte
		var err error
		if e.K == "signinput" {
			if l := ref.NewP2PKH(c.key); !bytes.Equal(l.Script, c.script) {
				continue
			}
			typ = 0x41
			b := txbuilder.NewTxBuilder(1, 1)
			b.MsgTx = s.tx
			for _, x := range s.ins {
				b.Inputs = append(b.Inputs, &txbuilder.InputSupplement{LockingScript: x.script, Value: x.value})
			}
			for range s.tx.TxOut {
				b.Outputs = append(b.Outputs, &txbuilder.OutputSupplement{})
			}
			t.Lib("SignP2PKHInput", func() { err = b.SignP2PKHInput(i, ref.K(c.key).Key, cache) })
			if err != nil {
				t.Fail("sign", "input %d could not be signed: %s", i, err)
			}
			items, err := ref.Pushes(s.tx.TxIn[i].UnlockingScript)
			if err != nil || len(items) != 2 {
				t.Fail("sign", "input %d has an unlocking script that is not a signature and a key", i)
			}
			sig = items[0]
			if len(sig) == 0 || sig[len(sig)-1] != typ {
				t.Fail("sign", "input %d is signed with another hash type", i)
			}
		} else {
			t.Lib("InputSignature", func() {
				sig, err = txbuilder.InputSignature(ref.K(c.key).Key, s.tx, i, c.script, c.value, txbuilder.SigHashType(typ), cache)
			})
			if err != nil {
				t.Fail("sign", "input %d could not be signed with hash type %x: %s", i, typ, err)
			}
			t.Check(len(sig) > 0 && sig[len(sig)-1] == typ, "hash type", "the signature of input %d does not end with its hash type %x", i, typ)
		}
		d := ref.Digest(s.tx, i, c.part, c.value, typ)
		t.Check(ref.VerifySig(d, sig[:len(sig)-1], ref.K(c.key).Pub), "invalid signature", "the signature of input %d of %d with hash type %x is invalid when it is made, after edit %d", i, len(s.ins), typ, n)
		sigs = append(sigs, coverSig{in: c.id, typ: typ, sig: sig, digest: d, cover: s.cover(i, typ), at: n})
		t.Trace("signature %d of input %d (position %d) type %x after edit %d", len(sigs)-1, c.id, i, typ, n)
		t.NonTrivial()
	}
	if len(sigs) == 0 {
		return
	}
	// The other parties judge every signature after every batch.
	for q := 0; q < len(p.Net) && q < 4; q++ {
		s := newCoverState(p)
		cache := &txbuilder.SigHashCache{}
		done := -1
		judge := func() {
			for k, g := range sigs {
				if g.at > done {
					continue
				}
				for i := range s.ins {
					if s.ins[i].id != g.in {
						continue
					}
					same := s.cover(i, g.typ) == g.cover
					d := ref.Digest(s.tx, i, s.ins[i].part, s.ins[i].value, g.typ)
					valid := ref.VerifySig(d, g.sig[:len(g.sig)-1], ref.K(s.ins[i].key).Pub)
					t.Check(valid == same, "validity", "party %d, edit %d: signature %d with hash type %x has validity %v, what it covers is unchanged: %v", q, done, k, g.typ, valid, same)
					fresh := digestOf(t, s, i, g.typ, &txbuilder.SigHashCache{})
					t.Check((fresh == g.digest) == same, "fresh hash", "party %d, edit %d: what signature %d with hash type %x covers is unchanged: %v, but its hash is unchanged: %v", q, done, k, g.typ, same, fresh == g.digest)
					old := digestOf(t, s, i, g.typ, cache)
					t.Check((old == g.digest) == same, "cached hash", "party %d, edit %d: what signature %d with hash type %x covers is unchanged: %v, but its hash with the kept cache is unchanged: %v", q, done, k, g.typ, same, old == g.digest)
					if same {
						t.Probe(fmt.Sprintf("type %x still valid", g.typ))
					} else {
						t.Probe(fmt.Sprintf("type %x invalidated", g.typ))
					}
					t.Trace("p%d e%d sig %d same %v", q, done, k, same)
					t.ShapeInt(done<<8 | k<<1 | b2i(same))
				}
			}
			var b [8]byte
			binary.LittleEndian.PutUint64(b[:], uint64(len(s.ins)))
			t.State(drv.HashBytes(append(ref.Serialize(s.tx), b[:]...)))
		}
		crash := map[int]bool{}
		if q < len(p.Crash) {
			for _, n := range p.Crash[q] {
				crash[n] = true
			}
		}
		upto := func(i int) {
			if i <= done {
				return
			}
			if crash[i] {
				t.Fault("crash, cache lost")
				cache = &txbuilder.SigHashCache{}
			}
			outs, other := false, false
			if i > done+1 {
				t.Probe("several edits at once")
			}
			for done < i {
				done++
				o, x := s.apply(p.Edits[done])
				outs, other = outs || o, other || x
			}
			switch {
			case other || (outs && !(q < len(p.Narrow) && p.Narrow[q])):
				cache.Clear()
			case outs:
				cache.ClearOutputs()
				t.Probe("only outputs cleared")
			}
			judge()
		}
		t.SimTime = 0
		deliver(t, len(p.Edits), func(i int) Transport {
			if i < len(p.Net[q]) {
				return p.Net[q][i]
			}
			return Transport{}
		}, func(i int) bool { upto(i); return true })
		upto(len(p.Edits) - 1)
	}
}

func init() {
	drv.Register(&drv.Prop{ID: "C16", Gen: genCovers, New: func() any { return &coversPlan{} }, Exec: execCovers,
		Quick: 24000, Thorough: 400000, Chunk: 300,
		World: "hash types: a transaction is edited and signed by its author, one to three other parties receive the edits over a faulty network and judge every signature after every batch with a fresh and with a kept hash cache",
		Rule:  "a run is a history of edits and signatures with any hash type, and loss, repetition, delay and crashes at each judging party; decided: a signature is valid exactly if the parts its hash type covers equal those at the time of signing; two runs are distinct if the sequence of (edit number, signature, covered part unchanged) differs; a run is non-trivial if at least one signature was made",
		Real:  realLib, Stubs: []string{"network between the parties", "clock"},
		Assume: []string{"the cache is cleared completely when anything but outputs changed, and completely or by its outputs when only outputs changed", "locking scripts with separators execute their last separator"}})
}
