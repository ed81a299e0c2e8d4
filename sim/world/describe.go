package world

import (
	"fmt"
	"math/big"
	"regexp"
	"strconv"
	"strings"

	"github.com/tokenized/pkg/bitcoin"
	"github.com/tokenized/txbuilder"

	"verifsim/drv"
	"verifsim/ref"
)

// Printed descriptions of a draft, read back and compared with the draft.

type descEntry map[string]string

type description struct {
	text      string
	ins, outs []descEntry
}

func readDescription(s string) description {
	d := description{text: s}
	var list *[]descEntry
	for _, l := range strings.Split(s, "\n") {
		depth := len(l) - len(strings.TrimLeft(l, " "))
		l = strings.TrimSpace(l)
		switch {
		case l == "":
			continue
		case strings.HasPrefix(l, "Inputs"):
			list = &d.ins
			continue
		case strings.HasPrefix(l, "Outputs"):
			list = &d.outs
			continue
		case depth < 4:
			list = nil
		}
		if list == nil {
			continue
		}
		k, v, _ := strings.Cut(l, ":")
		k = strings.ToLower(strings.ReplaceAll(k, " ", ""))
		n := len(*list)
		if n == 0 || has((*list)[n-1], k) {
			*list = append(*list, descEntry{})
			n++
		}
		(*list)[n-1][k] = strings.TrimSpace(v)
	}
	return d
}

func has(e descEntry, k string) bool {
	_, ok := e[k]
	return ok
}

var (
	descHead = regexp.MustCompile(`\((\d+) bytes\) \((\d+) estimated / (\d+) fee\)`)
	descSize = regexp.MustCompile(`Estimated tx size: (\d+) bytes`)
	descRaw  = regexp.MustCompile(`Raw size: (\d+) bytes`)
	descLock = regexp.MustCompile(`Locktime: (\d+)`)
	descFee  = regexp.MustCompile(`(Fee|Negative fee): (-?\d+) \(inputs (\d+), outputs (\d+)\)`)
	descRate = regexp.MustCompile(`Fee rate: ([0-9.]+) sat/byte`)
)

// described compares both printed descriptions of a draft with its contents, its size as if all its
// inputs were signed and the value of its inputs. sized and valued tell that the size and the value
// of every input are known, announced are the inputs that are placeholders.
func described(t *drv.T, tx *txbuilder.TxBuilder, m *Model, size int, in uint64, sized, valued bool, announced map[int]holdCoin, at string) {
	var s1, s2 string
	t.Lib("String", func() { s1 = tx.String(bitcoin.MainNet) })
	t.Lib("TxString", func() { s2 = txbuilder.TxString(tx) })
	out := m.outValue()
	fee := uint64(0)
	if in > out {
		fee = in - out
	}
	id := ref.TxID(tx.MsgTx)
	for i, s := range []string{s1, s2} {
		fail := func(ok bool, format string, a ...any) {
			if !ok {
				t.Check(false, "description", "%sdescription %d: %s", at, i+1, fmt.Sprintf(format, a...))
			}
		}
		d := readDescription(s)
		fail(strings.Contains(s, id.String()), "the identifier is missing")
		fail(len(d.ins) == len(m.Ins) && len(d.outs) == len(m.Outs), "%d inputs and %d outputs, there are %d and %d", len(d.ins), len(d.outs), len(m.Ins), len(m.Outs))
		for j, x := range m.Ins {
			e := d.ins[j]
			p := e["outpoint"]
			fail(strings.Contains(p, x.Hash.String()) && (strings.HasSuffix(p, fmt.Sprintf(":%d", x.Index)) || strings.HasPrefix(p, fmt.Sprintf("%d ", x.Index))), "input %d spends %q, it spends %s", j, p, x)
			seq, err := strconv.ParseUint(strings.TrimPrefix(e["sequence"], "0x"), 16, 64)
			fail(err == nil && uint32(seq) == x.Seq, "input %d has sequence %q, it has %x", j, e["sequence"], x.Seq)
			fail(e["unlockingscript"] == bitcoin.Script(x.Unlock).String(), "input %d is unlocked by %q, it is by %x", j, e["unlockingscript"], x.Unlock)
			if len(x.Script) > 0 || i == 0 {
				fail(e["lockingscript"] == bitcoin.Script(x.Script).String(), "input %d has script %q, it has %x", j, e["lockingscript"], x.Script)
				fail(e["value"] == fmt.Sprint(x.Value), "input %d has value %q, it has %d", j, e["value"], x.Value)
			}
			if i == 0 {
				fail(e["keyid"] == strings.TrimSpace(x.KeyID), "input %d has key %q, it has %q", j, e["keyid"], x.KeyID)
				fail(e["address"] == addressText(x.Script), "input %d has address %q, it has %q", j, e["address"], addressText(x.Script))
			}
		}
		for j, x := range m.Outs {
			e := d.outs[j]
			v, ok := new(big.Rat).SetString(e["value"])
			want := new(big.Rat).SetInt(new(big.Int).SetUint64(x.Value))
			if i == 0 {
				want.Quo(want, big.NewRat(100000000, 1))
			}
			fail(ok && v.Cmp(want) == 0, "output %d has value %q, it has %d", j, e["value"], x.Value)
			fail(e["lockingscript"] == bitcoin.Script(x.Script).String(), "output %d has script %q, it has %x", j, e["lockingscript"], x.Script)
			if i == 0 {
				fail(e["keyid"] == strings.TrimSpace(x.KeyID), "output %d has key %q, it has %q", j, e["keyid"], x.KeyID)
				fail(e["address"] == addressText(x.Script), "output %d has address %q, it has %q", j, e["address"], addressText(x.Script))
				fail(has(e, "isremainder") == x.Rem && has(e, "isdust") == x.Dust, "output %d has other markings than %s", j, x)
			}
		}
		if i == 0 {
			h := descHead.FindStringSubmatch(s)
			want := []string{"", fmt.Sprint(len(ref.Serialize(tx.MsgTx))), fmt.Sprint(size), fmt.Sprint(fee)}
			fail(len(h) == 4 && h[1] == want[1] && h[2] == want[2] && h[3] == want[3], "totals %q, expected %q", h, want[1:])
			continue
		}
		h := descRaw.FindStringSubmatch(s)
		fail(len(h) == 2 && h[1] == fmt.Sprint(len(ref.Serialize(tx.MsgTx))), "serialized size %q, it is %d", h, len(ref.Serialize(tx.MsgTx)))
		h = descLock.FindStringSubmatch(s)
		fail(len(h) == 2 && h[1] == fmt.Sprint(tx.MsgTx.LockTime), "lock time %q, it is %d", h, tx.MsgTx.LockTime)
		h = descSize.FindStringSubmatch(s)
		if sized {
			fail(len(h) == 2 && h[1] == fmt.Sprint(size), "size %q, expected %d", h, size)
		} else {
			fail(len(h) == 0, "size %q with an input of unknown size", h)
		}
		for j, e := range d.ins {
			a, ok := announced[j]
			fail(!ok || e["size"] == fmt.Sprint(a.size) && e["value"] == fmt.Sprint(a.Value), "input %d is announced with size %q and value %q, it is with %d and %d", j, e["size"], e["value"], a.size, a.Value)
		}
		if !valued {
			continue
		}
		h = descFee.FindStringSubmatch(s)
		want := []string{"Fee", fmt.Sprint(fee), fmt.Sprint(in), fmt.Sprint(out)}
		if in < out {
			want[0], want[1] = "Negative fee", "-"+fmt.Sprint(out-in)
		}
		fail(len(h) == 5 && strings.Join(h[1:], " ") == strings.Join(want, " "), "fee %q, expected %q", h, want)
		if in >= out && sized {
			h = descRate.FindStringSubmatch(s)
			r, err := 0.0, error(nil)
			if len(h) == 2 {
				r, err = strconv.ParseFloat(h[1], 64)
			}
			x := float64(fee) / float64(size)
			fail(len(h) == 2 && err == nil && r >= x*0.999999-0.0001 && r <= x*1.000001+0.0001, "fee rate %q, expected %f", h, x)
		} else {
			h = descRate.FindStringSubmatch(s)
			fail(len(h) == 0, "fee rate %q of a transaction without a known size or fee", h)
		}
	}
	t.Probe("description read back")
}

func addressText(s bitcoin.Script) string {
	ra, err := bitcoin.RawAddressFromLockingScript(s)
	if err != nil {
		return ""
	}
	return bitcoin.NewAddressFromRawAddress(ra, bitcoin.MainNet).String()
}
