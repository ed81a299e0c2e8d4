package tool

import (
	"bytes"
	"context"
	"encoding/binary"
	"encoding/hex"
	"fmt"
	"net"
	"os"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"time"

	"verifsim/drv"
	"verifsim/ref"

	"github.com/tokenized/pkg/bitcoin"
	"github.com/tokenized/pkg/wire"
)

// Outcome is what one run of the tool did.
type Outcome struct {
	Stdout, Stderr string
	Exit           int
	Panic          string
	Hang           bool
	Elapsed        time.Duration
}

// Run is installed by the harness in the package of the tool. It runs the main function on a
// simulated clock with the given arguments and environment. setup is called with the dial function
// to install, inside the simulation; down after the tool has ended.
var Run func(args []string, env map[string]string, limit time.Duration, up func() Dial, down func()) Outcome

// Dial replaces outgoing connections.
type Dial = func(ctx context.Context, network, address string) (net.Conn, error)

func parseRate(s string, def float32) float32 {
	if s == "" {
		return def
	}
	f, err := strconv.ParseFloat(s, 32)
	if err != nil {
		panic(err)
	}
	return float32(f)
}

var theCerts *certs

const stranger = 5

type world struct {
	t     *drv.T
	p     *Plan
	c     *chain
	rate  float32
	dust  float32
	net   bitcoin.Network
	key   int
	own   ref.Lock
	other ref.Lock
}

func pick(l []string, i int) string {
	if i < 0 {
		i = 0
	}
	return l[i%len(l)]
}

func exec(t *drv.T, plan any) {
	p := plan.(*Plan)
	if theCerts == nil {
		c, err := makeCerts(os.Getenv("VERIF_SCRATCH"))
		if err != nil {
			panic(err)
		}
		theCerts = c
	}
	w := &world{t: t, p: p, key: abs(p.Key) % 3, net: bitcoin.MainNet}
	if p.Test {
		w.net = bitcoin.TestNet
	}
	w.rate = parseRate(pick(feeRates, p.Rate), 0.05)
	w.dust = parseRate(pick(dustRates, p.Dust), 0)
	w.c = &chain{txs: map[bitcoin.Hash32]*wire.MsgTx{}, locks: map[string]ref.Lock{}}
	w.own = w.c.know(ref.NewP2PKH(w.key))
	w.c.know(ref.NewP2PK(w.key))
	w.other = w.c.know(ref.NewP2PKH(stranger))
	for i, outs := range p.Txs {
		tx := wire.NewMsgTx(1)
		var h bitcoin.Hash32
		binary.LittleEndian.PutUint32(h[:], uint32(i+1))
		h[31] = 0x77
		tx.AddTxIn(wire.NewTxIn(wire.NewOutPoint(&h, uint32(i)), bitcoin.Script{0x51}))
		for k := 0; i == 0 && k < p.Pad && k < 400; k++ {
			tx.AddTxOut(wire.NewTxOut(0, ref.NewData(k%40).Script))
		}
		for _, o := range outs {
			l := w.own
			switch o.Kind {
			case 1:
				l = ref.NewP2PK(w.key)
			case 2:
				l = w.other
			}
			tx.AddTxOut(wire.NewTxOut(o.Value, l.Script))
		}
		if i == 0 && p.Long > 0 && p.Long < 1<<20 {
			// a long answer of the service
			s := append(bitcoin.Script{0x00, 0x6a, 0x4e}, binary.LittleEndian.AppendUint32(nil, uint32(p.Long))...)
			tx.AddTxOut(wire.NewTxOut(0, append(s, make([]byte, p.Long)...)))
			t.Probe("coin in a long transaction")
		}
		if len(outs) > 0 {
			w.c.add(tx)
		}
	}
	if p.Lots > 0 {
		tx := wire.NewMsgTx(1)
		h := bitcoin.Hash32{0x55}
		tx.AddTxIn(wire.NewTxIn(wire.NewOutPoint(&h, 7), bitcoin.Script{0x51}))
		for k := 0; k < p.Lots && k < 1500; k++ {
			tx.AddTxOut(wire.NewTxOut(ref.Fee(160, w.rate)+uint64(k%7), w.own.Script))
		}
		w.c.add(tx)
		t.Probe("hundreds of coins")
	}
	for i := range p.Cmds {
		w.cmd(i, &p.Cmds[i])
	}
}

func abs(n int) int {
	if n < 0 {
		return -n
	}
	return n
}

func (w *world) address(l ref.Lock) string {
	ra, err := bitcoin.RawAddressFromLockingScript(l.Script)
	if err != nil {
		panic(err)
	}
	return bitcoin.NewAddressFromRawAddress(ra, w.net).String()
}

func (w *world) wif() string {
	k, err := bitcoin.KeyFromNumber(ref.K(w.key).Key.Number(), w.net)
	if err != nil {
		panic(err)
	}
	return k.String()
}

// job is one command with everything that is known about it.
type job struct {
	kind    int
	coins   []coin
	locks   []ref.Lock
	total   uint64
	mine    bool // every coin can be signed
	to      ref.Lock
	amount  uint64
	bad     bool // the arguments are damaged
	count   int
	needs   int // answers
	svc     *service
	out     Outcome
	txs     []*wire.MsgTx
	ext     [][]byte
	cum     []byte
	hasCum  bool
	failed  bool // a needed answer was definitely not obtained
	clean   bool
	reports [][]unspent
}

var failWords = regexp.MustCompile(`(?i)fail|invalid|error|wrong|insufficient|missing|cannot|unable|timeout|no value|not enough`)

func (w *world) cmd(n int, c *Cmd) {
	t := w.t
	j := &job{kind: abs(c.Kind) % nCmds, mine: true, count: c.Count}
	seen := map[int]bool{}
	for _, i := range c.Coins {
		if len(w.c.coins) == 0 {
			break
		}
		i = abs(i) % len(w.c.coins)
		if seen[i] {
			continue
		}
		seen[i] = true
		o := w.c.coins[i]
		j.coins = append(j.coins, o)
		j.locks = append(j.locks, o.lock)
		j.total += o.value
		if len(o.lock.Keys) != 1 || o.lock.Keys[0] != w.key {
			j.mine = false
		}
	}
	j.to = w.other
	switch c.To {
	case 1:
		j.to = w.own
	case 2:
		j.to = w.c.know(ref.NewP2PK(stranger))
		if j.kind == cmdConsolidate {
			j.to = w.c.know(ref.NewMulti(2, []int{3, 4, stranger}))
		}
	}
	amount := c.Amount
	switch c.Mode {
	case 1:
		amount = int(j.total) - int(ref.Fee(ref.MaxSize(j.locks, []*wire.TxOut{{LockingScript: j.to.Script}}), w.rate)) + c.Amount
	case 2:
		amount = -abs(c.Amount)
	case 3:
		amount = 0
	}
	if amount <= 0 && c.Mode < 2 {
		amount = 1 + abs(amount)%5
	}
	if amount < 0 {
		if j.kind == cmdSend {
			j.bad = true
		}
	} else {
		j.amount = uint64(amount)
	}
	key, addr, count := w.wif(), w.address(j.to), strconv.Itoa(j.count)
	if j.kind == cmdConsolidate && c.To >= 2 {
		if c.To == 2 {
			addr = bitcoin.BIP0276Encode(w.net, bitcoin.BIP0276_ScriptPrefix, j.to.Script)
		} else {
			addr = j.to.Script.String()
		}
	}
	amountText := strconv.Itoa(amount)
	var points []string
	for _, o := range j.coins {
		points = append(points, fmt.Sprintf("%s:%d", hashText(o.tx[:]), o.index))
	}
	switch c.Spoil {
	case 1:
		if len(points) > 0 {
			points = append(points, points[0])
			j.bad = j.bad || j.kind != cmdConsolidate
		}
	case 2:
		if len(points) > 0 && j.kind != cmdConsolidate {
			o := j.coins[len(points)-1]
			index := uint64(len(w.c.txs[o.tx].TxOut)) + []uint64{0, 0, 1, 40, 1<<31 - 4, 1<<32 - 9}[abs(c.Count)%6]
			points[len(points)-1] = fmt.Sprintf("%s:%d", hashText(o.tx[:]), index)
			j.bad = true
		}
	case 3:
		if len(points) > 0 && j.kind != cmdConsolidate {
			points[len(points)-1] = strings.Repeat("ab", 32) + ":0"
			j.bad = true
		}
	case 4:
		if j.kind != cmdSends {
			addr = "x" + addr
			j.bad = true
		}
	case 5:
		key = key[:len(key)-1]
		j.bad = true
	case 6:
		if j.kind != cmdConsolidate {
			switch abs(c.Amount) % 3 {
			case 0:
				amountText, count = amountText+"x", count+"x"
			case 1:
				amountText, count = "18446744073709552616", "18446744073709552616"
			default:
				amountText, count = "", ""
			}
			j.bad = true
		}
	case 7:
		if len(points) > 0 && j.kind != cmdConsolidate {
			points[0] = strings.ReplaceAll(points[0], ":", "")
			j.bad = true
		}
	}
	j.needs = len(points)
	if j.kind == cmdConsolidate {
		j.needs = 1
	}
	args := []string{"txbuilder"}
	switch j.kind {
	case cmdSend:
		args = append(append(args, "create_send", key, addr, amountText), points...)
	case cmdSends:
		args = append(append(args, "create_sends", count, key), points...)
	case cmdConsolidate:
		args = append(append(args, "consolidate", key), strings.Split(addr, " ")...)
	}
	if c.Spoil == 8 {
		least := map[int]int{cmdSend: 6, cmdSends: 5, cmdConsolidate: 4}[j.kind]
		if j.kind == cmdConsolidate && strings.Contains(addr, " ") {
			least = 4 // part of a script is something else
		}
		args = args[:min(len(args), 1+abs(c.Amount)%(least-1))]
		j.bad = true
	}
	env := map[string]string{"FEE_RATE": pick(feeRates, w.p.Rate), "DUST_FEE_RATE": pick(dustRates, w.p.Dust), "NETWORK": ""}
	if w.p.Test {
		env["NETWORK"] = "testnet"
	}
	if c.Spoil == 9 {
		env[[]string{"FEE_RATE", "DUST_FEE_RATE", "NETWORK"}[abs(c.Amount)%3]] = "many"
		j.bad = true
	}
	short := "main"
	if w.p.Test {
		short = "test"
	}
	svc := &service{certs: theCerts, chain: w.c, net: short, conns: c.Conns}
	j.svc = svc
	j.out = Run(args, env, time.Hour, func() Dial {
		svc.stop = make(chan struct{})
		return svc.dial
	}, svc.close)
	t.Ops++
	t.SimTime += j.out.Elapsed
	j.clean = true
	t.Shape([]string{"send", "sends", "consolidate"}[j.kind])
	for _, b := range svc.used {
		t.ShapeInt(b.Dial<<16 | b.TLS<<8 | b.HTTP)
		faulty := true
		switch {
		case b.Dial != dialOK:
			t.Fault(pick(dialNames, b.Dial))
		case b.TLS != tlsOK:
			t.Fault(pick(tlsNames, b.TLS))
		case b.HTTP != httpOK:
			t.Fault(pick(httpNames, b.HTTP))
			faulty = b.HTTP != httpChunked
		default:
			faulty = false
		}
		if b.Lat > 300 || b.Wait > 400 || b.Gap > 150 {
			faulty = true
			t.Fault("slow service")
		}
		if faulty {
			j.clean = false
		}
		if fatal(b, j.kind) {
			j.failed = true
		}
	}
	w.read(j)
	result := "nothing printed"
	if len(j.txs) > 0 {
		result = fmt.Sprintf("%d printed", len(j.txs))
		t.NonTrivial()
	} else if j.failed || j.bad {
		t.NonTrivial()
	}
	t.Shape(result)
	t.Probe(result[len(result)-7:])
	if svc.several {
		t.Loose()
	}
	t.Trace("command %d %s: %s, exit %d, after %s, %d requests, panic %q", n, strings.Join(args[1:min(2, len(args))], ""), result, j.out.Exit, j.out.Elapsed, svc.n, j.out.Panic)
	t.Trace("args %s", strings.Join(args[min(3, len(args)):], " "))
	for _, tx := range j.txs {
		t.Trace("%x", ref.Serialize(tx))
	}
	if t.KeepLog {
		t.Log = append(t.Log, "stdout: "+j.out.Stdout)
	}
	w.judge(j)
	for _, tx := range j.txs {
		w.c.add(tx)
	}
}

// fatal reports whether a connection with this behaviour cannot deliver what was asked for.
func fatal(b Conn, kind int) bool {
	if b.Dial != dialOK {
		return true
	}
	if b.again && b.HTTP == httpReset {
		return false // asked again on a new connection
	}
	switch b.TLS {
	case tlsStall, tlsClose, tlsReset, tlsGarbage, tlsUntrusted, tlsWrongName, tlsExpired:
		return true
	}
	switch b.HTTP {
	case httpStall, httpStallHead, httpReset, httpGarbage, httpStatus, httpRedirectLoop, httpRedirectHost, httpRedirectNowhere,
		httpStallBody, httpShort, httpShortChunk, httpShortOpen, httpEndless, httpEndlessHead, httpEmpty, httpPage,
		httpResetBody, httpFlipped:
		return true
	case httpValueChanged, httpHugeCount:
		return kind != cmdConsolidate
	case httpNull, httpObject, httpWrongTypes:
		return kind == cmdConsolidate
	}
	return false
}

// read collects what was printed.
func (w *world) read(j *job) {
	for _, l := range strings.Split(j.out.Stdout, "\n") {
		label, text, ok := strings.Cut(l, ":")
		if !ok {
			continue
		}
		label, text = strings.TrimSpace(label), strings.TrimSpace(text)
		switch label {
		case "Tx Hex":
			b, err := hex.DecodeString(text)
			w.t.Check(err == nil, "unreadable transaction", "%s", l)
			tx := &wire.MsgTx{}
			err = tx.Deserialize(bytes.NewReader(b))
			w.t.Check(err == nil && bytes.Equal(ref.Serialize(tx), b), "unreadable transaction", "%s", l)
			j.txs = append(j.txs, tx)
		case "Extended Tx Hex":
			b, err := hex.DecodeString(text)
			w.t.Check(err == nil, "unreadable transaction", "%s", l)
			j.ext = append(j.ext, b)
		case "Cumulative Extended Txs Hex":
			b, err := hex.DecodeString(text)
			w.t.Check(err == nil, "unreadable transaction", "%s", l)
			j.cum = append(j.cum, b...)
			j.hasCum = true
		}
	}
}

func (w *world) judge(j *job) {
	t := w.t
	name := []string{"create_send", "create_sends", "consolidate"}[j.kind]
	if t.On("C20") || (t.On("C22") && j.kind == cmdSends) {
		t.Check(j.out.Panic == "", "tool crash", "%s crashed: %s", name, j.out.Panic)
	}
	if t.On("C20") {
		limit := time.Duration(min(j.svc.n, j.needs))*10*time.Second + time.Second
		t.Check(!j.out.Hang && j.out.Elapsed <= limit, "too slow", "%s took %s for %d answers", name, j.out.Elapsed, j.needs)
		reported := j.out.Exit != 0 || failWords.MatchString(j.out.Stdout) || failWords.MatchString(j.out.Stderr)
		if j.failed || j.bad {
			t.Check(len(j.txs) == 0, "failure ignored", "%s printed a transaction although it did not obtain what it needs", name)
		}
		if len(j.txs) == 0 && !(j.kind == cmdSends && j.count < 1) {
			t.Check(reported, "silent failure", "%s printed neither a transaction nor a reason", name)
		}
	}
	switch {
	case j.kind == cmdSend && t.On("C21"):
		w.send(j)
	case j.kind == cmdSends && t.On("C22"):
		w.sends(j)
	case j.kind == cmdConsolidate && t.On("C23"):
		w.consolidate(j)
	}
}

// spends checks that the transaction spends exactly the coins and that the chain accepts it.
func (w *world) spends(tx *wire.MsgTx, coins []coin) {
	t := w.t
	key := func(h bitcoin.Hash32, i uint32) string { return fmt.Sprintf("%s:%d", hashText(h[:]), i) }
	var want, got []string
	for _, c := range coins {
		want = append(want, key(c.tx, c.index))
	}
	for _, in := range tx.TxIn {
		got = append(got, key(in.PreviousOutPoint.Hash, in.PreviousOutPoint.Index))
	}
	sort.Strings(want)
	sort.Strings(got)
	t.Check(strings.Join(want, " ") == strings.Join(got, " "), "wrong coins", "the transaction spends %v instead of %v", got, want)
	t.Check(len(tx.TxIn) > 0 && len(tx.TxOut) > 0, "empty transaction", "the transaction has %d inputs and %d outputs", len(tx.TxIn), len(tx.TxOut))
	t.Check(tx.LockTime == 0, "locked", "the transaction is locked until %d", tx.LockTime)
	var ins, outs uint64
	for i, in := range tx.TxIn {
		for _, c := range coins {
			if c.tx != in.PreviousOutPoint.Hash || c.index != in.PreviousOutPoint.Index {
				continue
			}
			ins += c.value
			err := ref.CheckInput(tx, i, c.lock, c.value)
			t.Check(err == nil, "not acceptable", "input %d is not accepted: %v", i, err)
			err = ref.Interpret(tx, i, c.lock.Script, c.value)
			t.Check(err == nil, "not acceptable", "input %d is not accepted by the interpreter: %v", i, err)
		}
	}
	for _, o := range tx.TxOut {
		t.Check(o.Value <= 21_000_000_00000000, "not acceptable", "an output of %d", o.Value)
		outs += o.Value
	}
	t.Check(outs <= ins, "not acceptable", "the outputs of %d exceed the inputs of %d", outs, ins)
	need := ref.Fee(ref.Size(tx), w.rate)
	t.Check(ins-outs >= need, "fee too low", "the transaction of %d bytes pays a fee of %d instead of %d", ref.Size(tx), ins-outs, need)
}

// feeLimit is the highest fee for coins and outputs: five percent or three satoshis above the rate
// for the longest signatures, and what is too small for a change output if there is none.
func (w *world) feeLimit(locks []ref.Lock, tx *wire.MsgTx, change bool) uint64 {
	f := ref.Fee(ref.MaxSize(locks, tx.TxOut), w.rate)
	if !change {
		f = ref.Fee(ref.MaxSize(locks, tx.TxOut)+ref.OutSize(w.own.Script)+2, w.rate) + w.keep(w.own.Script)
	}
	p := f / 20
	if p < 3 {
		p = 3
	}
	return f + p + 1
}

func fee(coins []coin, tx *wire.MsgTx) uint64 {
	var n uint64
	for _, c := range coins {
		n += c.value
	}
	for _, o := range tx.TxOut {
		n -= o.Value
	}
	return n
}

// min is a value that certainly suffices for an output to be accepted.
func (w *world) min(script []byte) uint64 {
	o := ref.OutSize(script)
	d := ref.Dust(o, w.dust)
	if x := ref.Fee(o, w.rate); x > d {
		d = x
	}
	return d + 1
}

// keep is a value that certainly suffices for a change output: it costs less to have than it is
// worth.
func (w *world) keep(script []byte) uint64 {
	o := ref.OutSize(script)
	d := ref.Dust(o, w.dust)
	if x := ref.Fee(o, w.rate) + ref.Fee(ref.InSize(108), w.rate); x > d {
		d = x
	}
	return d + 1
}

func (w *world) send(j *job) {
	t := w.t
	t.Check(len(j.txs) <= 1, "several transactions", "%d transactions printed", len(j.txs))
	if len(j.txs) == 0 {
		t.Check(len(j.ext) == 0, "extended form", "an extended form without a transaction")
		if !j.clean || j.bad || !j.mine || len(j.coins) == 0 || j.out.Panic != "" {
			return
		}
		outs := []*wire.TxOut{{LockingScript: j.to.Script}}
		need := ref.Fee(ref.MaxSize(j.locks, outs), w.rate)
		if bytes.Equal(j.to.Script, w.own.Script) {
			need += w.keep(w.own.Script) + w.min(w.own.Script) + 2
		} else {
			if j.amount < w.min(j.to.Script) {
				return
			}
			need += j.amount
		}
		t.Check(j.total < need, "no transaction", "no transaction although the coins of %d suffice for %d: %s", j.total, need, last(j.out.Stdout))
		return
	}
	tx := j.txs[0]
	t.Check(!j.bad, "wrong arguments accepted", "a transaction although the arguments make no sense")
	w.spends(tx, j.coins)
	own := bytes.Equal(j.to.Script, w.own.Script)
	paid, change := 0, 0
	for i, o := range tx.TxOut {
		switch {
		case !own && bytes.Equal(o.LockingScript, j.to.Script):
			paid++
			t.Check(o.Value == j.amount, "wrong amount", "output %d pays %d instead of %d", i, o.Value, j.amount)
		case bytes.Equal(o.LockingScript, w.own.Script):
			change++
		default:
			t.Fail("wrong recipient", "output %d pays to %x", i, o.LockingScript)
		}
	}
	t.Check(change <= 1, "change in pieces", "%d change outputs", change)
	t.Check(own || paid == 1, "not paid", "%d outputs pay the recipient", paid)
	got, limit := fee(j.coins, tx), w.feeLimit(j.locks, tx, change == 1)
	t.Check(got <= limit, "fee too high", "the fee is %d, at most %d is expected", got, limit)
	w.extended(j, [][]coin{j.coins})
}

func last(s string) string {
	l := strings.Split(strings.TrimSpace(s), "\n")
	return l[len(l)-1]
}

func (w *world) sends(j *job) {
	t := w.t
	n := len(j.txs)
	t.Check(n <= max(j.count, 0), "too many transactions", "%d transactions printed, %d requested", n, j.count)
	if n > 0 {
		t.Check(!j.bad && !j.failed, "failure ignored", "a transaction although the arguments make no sense or an answer is missing")
	}
	var spent [][]coin
	coins := j.coins
	for i, tx := range j.txs {
		w.spends(tx, coins)
		for k, o := range tx.TxOut {
			t.Check(bytes.Equal(o.LockingScript, w.own.Script), "wrong recipient", "output %d of transaction %d pays to %x", k, i, o.LockingScript)
		}
		t.Check(len(tx.TxOut) == 1, "change in pieces", "transaction %d has %d outputs", i, len(tx.TxOut))
		var locks []ref.Lock
		for _, c := range coins {
			locks = append(locks, c.lock)
		}
		got, limit := fee(coins, tx), w.feeLimit(locks, tx, true)
		t.Check(got <= limit, "fee too high", "the fee of transaction %d is %d, at most %d is expected", i, got, limit)
		spent = append(spent, coins)
		coins = []coin{{ref.TxID(tx), 0, tx.TxOut[0].Value, w.own}}
	}
	w.extended(j, spent)
	if j.count < 1 {
		t.Check(len(j.cum) == 0, "cumulative form", "a cumulative form of no transaction")
		return
	}
	if n == j.count {
		t.Check(j.hasCum, "no cumulative form", "all %d transactions are printed but not the cumulative form", n)
		t.Check(bytes.Equal(j.cum, bytes.Join(j.ext, nil)), "cumulative form", "the cumulative form differs from the %d extended forms", n)
		return
	}
	t.Check(!j.hasCum, "cumulative form", "a cumulative form after %d of %d transactions", n, j.count)
	t.Check(j.out.Exit != 0 || failWords.MatchString(j.out.Stdout) || failWords.MatchString(j.out.Stderr), "silent failure",
		"%d of %d transactions and no reason printed", n, j.count)
	if !j.clean || j.bad || !j.mine || len(j.coins) == 0 {
		return
	}
	one := []*wire.TxOut{{LockingScript: w.own.Script}}
	need := w.feeLimit(j.locks, &wire.MsgTx{TxOut: one}, true) + uint64(j.count-1)*w.feeLimit([]ref.Lock{w.own}, &wire.MsgTx{TxOut: one}, true) +
		w.keep(w.own.Script) + w.min(w.own.Script) + 2
	t.Check(j.total < need, "chain too short", "%d of %d transactions although the coins of %d suffice for %d: %s", n, j.count, j.total, need, last(j.out.Stdout))
}

func (w *world) consolidate(j *job) {
	t := w.t
	t.Check(len(j.txs) <= 1, "several transactions", "%d transactions printed", len(j.txs))
	var list []unspent
	if n := len(j.svc.report); n > 0 {
		list = j.svc.report[n-1]
	} else if len(j.svc.used) == 0 {
		list = w.c.unspent(w.own.Script) // it did not even ask
	}
	var coins []coin
	var locks []ref.Lock
	var total uint64
	twice := false
	seen := map[string]bool{}
	for _, u := range list {
		k := fmt.Sprintf("%s:%d", u.Hash, u.Pos)
		if seen[k] {
			twice = true
			continue
		}
		seen[k] = true
		for _, c := range w.c.coins {
			if hashText(c.tx[:]) == u.Hash && c.index == u.Pos {
				coins = append(coins, c)
				locks = append(locks, c.lock)
				total += c.value
			}
		}
	}
	if len(j.txs) == 0 {
		if !j.clean || j.bad || len(coins) == 0 || twice || j.out.Panic != "" {
			return
		}
		need := ref.Fee(ref.MaxSize(locks, []*wire.TxOut{{LockingScript: j.to.Script}}), w.rate) + w.keep(j.to.Script) + ref.Fee(400, w.rate) + 2
		t.Check(total < need, "no transaction", "no transaction although the coins of %d suffice for %d: %s", total, need, last(j.out.Stdout))
		return
	}
	tx := j.txs[0]
	t.Check(!j.bad && !j.failed, "failure ignored", "a transaction although the arguments make no sense or the report is missing")
	w.spends(tx, coins)
	t.Check(len(tx.TxOut) == 1 && bytes.Equal(tx.TxOut[0].LockingScript, j.to.Script), "wrong recipient", "%d outputs, the first pays to %x",
		len(tx.TxOut), tx.TxOut[0].LockingScript)
	got, limit := fee(coins, tx), w.feeLimit(locks, tx, true)
	t.Check(got <= limit, "fee too high", "the fee is %d, at most %d is expected", got, limit)
}

// extended checks the extended forms against the transactions and the coins they spend.
func (w *world) extended(j *job, spent [][]coin) {
	w.t.Check(len(j.ext) == len(j.txs), "extended form", "%d extended forms for %d transactions", len(j.ext), len(j.txs))
	for i, tx := range j.txs {
		want := extend(tx, spent[i])
		w.t.Check(bytes.Equal(want, j.ext[i]), "extended form", "the extended form of transaction %d is %x instead of %x", i, j.ext[i], want)
	}
}

// extend is the extended format: the wire form with a marker after the version and, after each
// input, the value and script of the output it spends.
func extend(tx *wire.MsgTx, coins []coin) []byte {
	b := &bytes.Buffer{}
	count := func(n int) {
		switch {
		case n < 0xfd:
			b.WriteByte(byte(n))
		default:
			b.WriteByte(0xfd)
			binary.Write(b, binary.LittleEndian, uint16(n))
		}
	}
	binary.Write(b, binary.LittleEndian, tx.Version)
	b.Write([]byte{0, 0, 0, 0, 0, 0xef})
	count(len(tx.TxIn))
	for _, in := range tx.TxIn {
		b.Write(in.PreviousOutPoint.Hash[:])
		binary.Write(b, binary.LittleEndian, in.PreviousOutPoint.Index)
		count(len(in.UnlockingScript))
		b.Write(in.UnlockingScript)
		binary.Write(b, binary.LittleEndian, in.Sequence)
		for _, c := range coins {
			if c.tx == in.PreviousOutPoint.Hash && c.index == in.PreviousOutPoint.Index {
				binary.Write(b, binary.LittleEndian, c.value)
				count(len(c.lock.Script))
				b.Write(c.lock.Script)
			}
		}
	}
	count(len(tx.TxOut))
	for _, o := range tx.TxOut {
		binary.Write(b, binary.LittleEndian, o.Value)
		count(len(o.LockingScript))
		b.Write(o.LockingScript)
	}
	binary.Write(b, binary.LittleEndian, tx.LockTime)
	return b.Bytes()
}
