// Package ref contains the independent oracles: sizes, fees, dust, the signature digest and the
// acceptance of unlocking scripts, written from the published rules and not from the code under
// test.
package ref

import (
	"bytes"
	"context"
	"crypto/sha256"
	"encoding/binary"
	"errors"
	"fmt"
	"math"
	"math/big"

	"github.com/tokenized/bitcoin_interpreter"
	"github.com/tokenized/pkg/bitcoin"
	"github.com/tokenized/pkg/wire"
)

// ---------------------------------------------------------------- keys and scripts

// Key is a key of the pool.
type Key struct {
	ID   int
	Key  bitcoin.Key
	Pub  []byte
	Hash []byte
}

var pool []*Key

var curveOrder, _ = new(big.Int).SetString("fffffffffffffffffffffffffffffffebaaedce6af48a03bbfd25e8cd0364141", 16)

// K returns key i of the pool.
func K(i int) *Key {
	for len(pool) <= i {
		n := sha256.Sum256([]byte(fmt.Sprintf("simulated key %d", len(pool))))
		if len(pool)%4 == 3 {
			// the negation of the key before, their public keys differ in the first byte only
			n = sha256.Sum256([]byte(fmt.Sprintf("simulated key %d", len(pool)-1)))
			new(big.Int).Sub(curveOrder, new(big.Int).SetBytes(n[:])).FillBytes(n[:])
		}
		k, err := bitcoin.KeyFromNumber(n[:], bitcoin.MainNet)
		if err != nil {
			panic(err)
		}
		pub := k.PublicKey().Bytes()
		pool = append(pool, &Key{ID: len(pool), Key: k, Pub: pub, Hash: bitcoin.Hash160(pub)})
	}
	return pool[i]
}

// Kinds of locking scripts.
const (
	P2PKH = iota
	P2PK
	Multi
	Data  // unspendable
	Other // unknown but spendable by somebody
)

// Lock is a locking script with the keys that open it.
type Lock struct {
	Kind     int
	Required int
	Keys     []int
	Script   bitcoin.Script
}

func push(b *bytes.Buffer, d []byte) {
	switch {
	case len(d) <= 75:
		b.WriteByte(byte(len(d)))
	case len(d) <= 255:
		b.WriteByte(0x4c)
		b.WriteByte(byte(len(d)))
	case len(d) <= 65535:
		b.WriteByte(0x4d)
		b.WriteByte(byte(len(d)))
		b.WriteByte(byte(len(d) >> 8))
	default:
		b.WriteByte(0x4e)
		binary.Write(b, binary.LittleEndian, uint32(len(d)))
	}
	b.Write(d)
}

func NewP2PKH(key int) Lock {
	b := &bytes.Buffer{}
	b.Write([]byte{0x76, 0xa9})
	push(b, K(key).Hash)
	b.Write([]byte{0x88, 0xac})
	return Lock{Kind: P2PKH, Required: 1, Keys: []int{key}, Script: b.Bytes()}
}

func NewP2PK(key int) Lock {
	b := &bytes.Buffer{}
	push(b, K(key).Pub)
	b.WriteByte(0xac)
	return Lock{Kind: P2PK, Required: 1, Keys: []int{key}, Script: b.Bytes()}
}

func NewMulti(required int, keys []int) Lock {
	b := &bytes.Buffer{}
	b.Write([]byte{0x00, 0x6b})
	for _, k := range keys {
		b.Write([]byte{0x63, 0x76, 0xa9})
		push(b, K(k).Hash)
		b.Write([]byte{0x88, 0xad, 0x6c, 0x8b, 0x6b, 0x68})
	}
	if required <= 16 {
		b.WriteByte(0x50 + byte(required))
	} else {
		push(b, []byte{byte(required)})
	}
	b.Write([]byte{0x6c, 0xa1})
	return Lock{Kind: Multi, Required: required, Keys: keys, Script: b.Bytes()}
}

// NewData returns an unspendable data script of about n bytes.
func NewData(n int) Lock {
	b := &bytes.Buffer{}
	b.Write([]byte{0x00, 0x6a})
	d := make([]byte, n)
	for i := range d {
		d[i] = byte(i*7 + n)
	}
	push(b, d)
	return Lock{Kind: Data, Script: b.Bytes()}
}

// NewOther returns a spendable script of no known kind.
func NewOther(n int) Lock {
	b := &bytes.Buffer{}
	d := sha256.Sum256([]byte{byte(n), byte(n >> 8)})
	b.WriteByte(0xa8)
	push(b, d[:])
	b.WriteByte(0x87)
	return Lock{Kind: Other, Script: b.Bytes()}
}

// MaxUnlock is the worst case size of an unlocking script: a signature push takes 74 bytes, a
// public key push 34.
func (l Lock) MaxUnlock() int {
	switch l.Kind {
	case P2PKH:
		return 74 + 34
	case P2PK:
		return 74
	case Multi:
		return l.Required*(74+34+1) + len(l.Keys) - l.Required
	}
	return -1
}

// Sigs is the number of signatures in an unlocking script.
func (l Lock) Sigs() int {
	switch l.Kind {
	case P2PKH, P2PK:
		return 1
	case Multi:
		return l.Required
	}
	return 0
}

// CanSign reports whether the keys suffice to unlock.
func (l Lock) CanSign(have func(int) bool) bool {
	n := 0
	for _, k := range l.Keys {
		if have(k) {
			n++
		}
	}
	return l.Required > 0 && n >= l.Required
}

// ---------------------------------------------------------------- sizes and fees

func VarInt(n uint64) int {
	switch {
	case n < 0xfd:
		return 1
	case n <= 0xffff:
		return 3
	case n <= 0xffffffff:
		return 5
	}
	return 9
}

func putVarInt(b *bytes.Buffer, n uint64) {
	switch VarInt(n) {
	case 1:
		b.WriteByte(byte(n))
	case 3:
		b.WriteByte(0xfd)
		binary.Write(b, binary.LittleEndian, uint16(n))
	case 5:
		b.WriteByte(0xfe)
		binary.Write(b, binary.LittleEndian, uint32(n))
	default:
		b.WriteByte(0xff)
		binary.Write(b, binary.LittleEndian, n)
	}
}

// OutSize is the serialized size of an output with the script.
func OutSize(script []byte) int { return 8 + VarInt(uint64(len(script))) + len(script) }

// InSize is the serialized size of an input with an unlocking script of n bytes.
func InSize(n int) int { return 32 + 4 + 4 + VarInt(uint64(n)) + n }

// Serialize is the wire form of a transaction.
func Serialize(tx *wire.MsgTx) []byte {
	b := &bytes.Buffer{}
	binary.Write(b, binary.LittleEndian, tx.Version)
	putVarInt(b, uint64(len(tx.TxIn)))
	for _, in := range tx.TxIn {
		b.Write(in.PreviousOutPoint.Hash[:])
		binary.Write(b, binary.LittleEndian, in.PreviousOutPoint.Index)
		putVarInt(b, uint64(len(in.UnlockingScript)))
		b.Write(in.UnlockingScript)
		binary.Write(b, binary.LittleEndian, in.Sequence)
	}
	putVarInt(b, uint64(len(tx.TxOut)))
	for _, out := range tx.TxOut {
		writeOut(b, out)
	}
	binary.Write(b, binary.LittleEndian, tx.LockTime)
	return b.Bytes()
}

func writeOut(b *bytes.Buffer, out *wire.TxOut) {
	binary.Write(b, binary.LittleEndian, out.Value)
	putVarInt(b, uint64(len(out.LockingScript)))
	b.Write(out.LockingScript)
}

// TxID is the hash of the wire form.
func TxID(tx *wire.MsgTx) bitcoin.Hash32 { return bitcoin.Hash32(dsha(Serialize(tx))) }

// Size is the serialized size of a transaction.
func Size(tx *wire.MsgTx) int {
	n := 8 + VarInt(uint64(len(tx.TxIn))) + VarInt(uint64(len(tx.TxOut)))
	for _, in := range tx.TxIn {
		n += InSize(len(in.UnlockingScript))
	}
	for _, out := range tx.TxOut {
		n += OutSize(out.LockingScript)
	}
	return n
}

// MaxSize is the worst case size once every input is signed.
func MaxSize(locks []Lock, outs []*wire.TxOut) int {
	n := 8 + VarInt(uint64(len(locks))) + VarInt(uint64(len(outs)))
	for _, l := range locks {
		n += InSize(l.MaxUnlock())
	}
	for _, out := range outs {
		n += OutSize(out.LockingScript)
	}
	return n
}

// Fee is the smallest whole fee that is at least rate per byte. The product is computed exactly.
func Fee(size int, rate float32) uint64 {
	r := new(big.Rat).SetFloat64(float64(rate))
	r.Mul(r, new(big.Rat).SetInt64(int64(size)))
	q, m := new(big.Int).QuoRem(r.Num(), r.Denom(), new(big.Int))
	if m.Sign() > 0 {
		q.Add(q, big.NewInt(1))
	}
	return q.Uint64()
}

// Dust is the dust limit for an output size: three times the cost of the output and an input that
// spends it, at least one.
func Dust(outSize int, rate float32) uint64 {
	d := float32((outSize+148)*3) * rate
	if d < 1 {
		return 1
	}
	return uint64(math.Floor(float64(d)))
}

// ---------------------------------------------------------------- signature digest

func dsha(b []byte) [32]byte {
	h := sha256.Sum256(b)
	return sha256.Sum256(h[:])
}

// Digest is the published digest with replay protection (fork id zero). script is the part of the
// locking script that is signed.
func Digest(tx *wire.MsgTx, index int, script []byte, value uint64, hashType byte) [32]byte {
	base := hashType & 0x1f
	anyone := hashType&0x80 != 0
	var prev, seq, outs [32]byte
	if !anyone {
		b := &bytes.Buffer{}
		for _, in := range tx.TxIn {
			b.Write(in.PreviousOutPoint.Hash[:])
			binary.Write(b, binary.LittleEndian, in.PreviousOutPoint.Index)
		}
		prev = dsha(b.Bytes())
		if base != 2 && base != 3 {
			b.Reset()
			for _, in := range tx.TxIn {
				binary.Write(b, binary.LittleEndian, in.Sequence)
			}
			seq = dsha(b.Bytes())
		}
	}
	if base != 2 && base != 3 {
		b := &bytes.Buffer{}
		for _, out := range tx.TxOut {
			writeOut(b, out)
		}
		outs = dsha(b.Bytes())
	} else if base == 3 && index < len(tx.TxOut) {
		b := &bytes.Buffer{}
		writeOut(b, tx.TxOut[index])
		outs = dsha(b.Bytes())
	}
	b := &bytes.Buffer{}
	binary.Write(b, binary.LittleEndian, tx.Version)
	b.Write(prev[:])
	b.Write(seq[:])
	in := tx.TxIn[index]
	b.Write(in.PreviousOutPoint.Hash[:])
	binary.Write(b, binary.LittleEndian, in.PreviousOutPoint.Index)
	putVarInt(b, uint64(len(script)))
	b.Write(script)
	binary.Write(b, binary.LittleEndian, value)
	binary.Write(b, binary.LittleEndian, in.Sequence)
	b.Write(outs[:])
	binary.Write(b, binary.LittleEndian, tx.LockTime)
	binary.Write(b, binary.LittleEndian, uint32(hashType)|0x40)
	return dsha(b.Bytes())
}

type sigKey struct {
	digest [32]byte
	sig    string
	pub    string
}

var verified = map[sigKey]bool{}

// VerifySig checks a signature (without hash type) over a digest.
func VerifySig(digest [32]byte, sig, pub []byte) bool {
	k := sigKey{digest, string(sig), string(pub)}
	if v, ok := verified[k]; ok {
		return v
	}
	v := verifySig(digest, sig, pub)
	if len(verified) > 20000 {
		verified = map[sigKey]bool{}
	}
	verified[k] = v
	return v
}

func verifySig(digest [32]byte, sig, pub []byte) bool {
	if !strictDER(sig) {
		return false
	}
	s, err := bitcoin.SignatureFromBytes(sig)
	if err != nil {
		return false
	}
	p, err := bitcoin.PublicKeyFromBytes(pub)
	if err != nil {
		return false
	}
	return s.Verify(bitcoin.Hash32(digest), p)
}

var halfOrder, _ = new(big.Int).SetString("7fffffffffffffffffffffffffffffff5d576e7357a4501ddfe92f46681b20a0", 16)

// strictDER checks the encoding rules for signatures, including the low value of s.
func strictDER(sig []byte) bool {
	if len(sig) < 8 || len(sig) > 72 || sig[0] != 0x30 || int(sig[1]) != len(sig)-2 {
		return false
	}
	rl := int(sig[3])
	if sig[2] != 2 || rl == 0 || 5+rl >= len(sig) {
		return false
	}
	if sig[4+rl] != 2 {
		return false
	}
	sl := int(sig[5+rl])
	if sl == 0 || rl+sl+6 != len(sig) {
		return false
	}
	r, s := sig[4:4+rl], sig[6+rl:]
	for _, v := range [][]byte{r, s} {
		if v[0]&0x80 != 0 || (len(v) > 1 && v[0] == 0 && v[1]&0x80 == 0) {
			return false
		}
	}
	return new(big.Int).SetBytes(s).Cmp(halfOrder) <= 0
}

// ---------------------------------------------------------------- script acceptance

type item struct {
	op   byte
	data []byte
}

func parseScript(s []byte) ([]item, error) {
	var r []item
	for i := 0; i < len(s); {
		op := s[i]
		i++
		n := -1
		switch {
		case op >= 1 && op <= 75:
			n = int(op)
		case op == 0x4c:
			if i >= len(s) {
				return nil, errors.New("truncated push")
			}
			n = int(s[i])
			i++
		case op == 0x4d:
			if i+1 >= len(s) {
				return nil, errors.New("truncated push")
			}
			n = int(s[i]) | int(s[i+1])<<8
			i += 2
		}
		if n >= 0 {
			if i+n > len(s) {
				return nil, errors.New("truncated push")
			}
			r = append(r, item{op, s[i : i+n]})
			i += n
			continue
		}
		r = append(r, item{op: op})
	}
	return r, nil
}

// checkSig verifies a signature push of an input.
func checkSig(tx *wire.MsgTx, index int, script []byte, value uint64, sig, pub []byte) error {
	if len(sig) < 9 {
		return errors.New("no signature")
	}
	ht := sig[len(sig)-1]
	if ht&0x40 == 0 {
		return fmt.Errorf("hash type %02x without replay protection", ht)
	}
	if b := ht & 0x1f; b < 1 || b > 3 {
		return fmt.Errorf("undefined hash type %02x", ht)
	}
	if !VerifySig(Digest(tx, index, script, value, ht), sig[:len(sig)-1], pub) {
		return errors.New("signature does not match this transaction")
	}
	return nil
}

// CheckInput decides whether the unlocking script of an input satisfies the lock. Only scripts of
// the known kinds are decided.
func CheckInput(tx *wire.MsgTx, index int, l Lock, value uint64) error {
	items, err := parseScript(tx.TxIn[index].UnlockingScript)
	if err != nil {
		return err
	}
	if len(items) == 0 {
		return errors.New("not signed")
	}
	switch l.Kind {
	case P2PKH:
		if len(items) != 2 {
			return fmt.Errorf("%d items instead of 2", len(items))
		}
		if !bytes.Equal(items[1].data, K(l.Keys[0]).Pub) {
			return errors.New("wrong public key")
		}
		return checkSig(tx, index, l.Script, value, items[0].data, items[1].data)
	case P2PK:
		if len(items) != 1 {
			return fmt.Errorf("%d items instead of 1", len(items))
		}
		return checkSig(tx, index, l.Script, value, items[0].data, K(l.Keys[0]).Pub)
	case Multi:
		n, at := 0, len(items)
		for _, k := range l.Keys {
			if at == 0 {
				return errors.New("too few items")
			}
			at--
			switch items[at].op {
			case 0x00:
				continue
			case 0x51:
				if at < 2 {
					return errors.New("too few items")
				}
				pub, sig := items[at-1].data, items[at-2].data
				at -= 2
				if !bytes.Equal(pub, K(k).Pub) {
					return errors.New("wrong public key")
				}
				if err := checkSig(tx, index, l.Script, value, sig, pub); err != nil {
					return err
				}
				n++
			default:
				return fmt.Errorf("unexpected item %02x", items[at].op)
			}
		}
		if at != 0 {
			return fmt.Errorf("%d items left over", at)
		}
		if n < l.Required {
			return fmt.Errorf("%d of %d signatures", n, l.Required)
		}
		return nil
	}
	return errors.New("unknown kind of script")
}

// Interpret executes the scripts of an input with the independent interpreter.
func Interpret(tx *wire.MsgTx, index int, script bitcoin.Script, value uint64) error {
	ctx := context.Background()
	in := bitcoin_interpreter.NewInterpreter()
	cache := &bitcoin_interpreter.SigHashCache{}
	if err := in.Execute(ctx, tx.TxIn[index].UnlockingScript, tx, index, value, cache); err != nil {
		return err
	}
	if err := in.Execute(ctx, script, tx, index, value, cache); err != nil {
		return err
	}
	if !in.IsUnlocked() {
		return errors.New("not unlocked")
	}
	return nil
}

// CopyTx is an independent deep copy.
func CopyTx(tx *wire.MsgTx) *wire.MsgTx {
	r := &wire.MsgTx{Version: tx.Version, LockTime: tx.LockTime}
	for _, in := range tx.TxIn {
		c := &wire.TxIn{PreviousOutPoint: in.PreviousOutPoint, Sequence: in.Sequence}
		if in.UnlockingScript != nil {
			c.UnlockingScript = append(bitcoin.Script{}, in.UnlockingScript...)
		}
		r.TxIn = append(r.TxIn, c)
	}
	for _, out := range tx.TxOut {
		r.TxOut = append(r.TxOut, &wire.TxOut{Value: out.Value, LockingScript: append(bitcoin.Script{}, out.LockingScript...)})
	}
	return r
}

// Pushes returns the data pushed by an unlocking script. Small number opcodes count as one byte.
func Pushes(s []byte) ([][]byte, error) {
	items, err := parseScript(s)
	if err != nil {
		return nil, err
	}
	var r [][]byte
	for _, it := range items {
		r = append(r, it.data)
	}
	return r, nil
}
