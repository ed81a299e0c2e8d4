package world

import (
	"bytes"
	"fmt"
	"sort"
	"time"

	"github.com/tokenized/pkg/bitcoin"
	"github.com/tokenized/pkg/wire"
	"github.com/tokenized/txbuilder"
	"github.com/tokenized/txbuilder/fees"

	"verifsim/drv"
	"verifsim/ref"
	"verifsim/simrt"
)

// The goroutine world: two to four goroutines build one transaction each under a seeded scheduler
// that can switch at every statement of the library. They share the values they read.

type concPlan struct {
	Coins  []CoinPlan `json:"coins"`
	Tasks  []concTask `json:"tasks"`
	Cuts   []concCut  `json:"cuts,omitempty"`
	Walk   int64      `json:"walk,omitempty"` // seed of a random walk over the runnable goroutines, if not zero
	Every  int        `json:"every,omitempty"`
	Common bool       `json:"common,omitempty"` // one random source and clock for all, as in a real process
	Env    EnvPlan    `json:"env"`
}

type concTask struct {
	Rate float32 `json:"rate"`
	Dust float32 `json:"dust"`
	Env  EnvPlan `json:"env"`
	Ops  []Op    `json:"ops"`
}

// concCut is a preemption at a fraction (in millionths) of the total number of statements.
type concCut struct {
	At int `json:"at"`
	To int `json:"to"`
}

var concWeights = map[string]int{"addutxo": 3, "header": 1, "seq": 1, "insin": 1, "updin": 1, "remin": 1, "addout": 3, "addpay": 4, "adddust": 2, "addmax": 1, "insout": 1,
	"remout": 1, "addval": 1, "subval": 1, "setdust": 1, "change": 3, "changes": 1, "break": 4, "breaks": 3, "quantity": 2, "shuffle": 5,
	"shuffleafter": 5, "fund": 8, "fundbreak": 7, "calcfee": 2, "adjust": 1, "sign": 5, "signonly": 2, "copy": 1, "wire": 1, "text": 1, "fees": 1,
	"hash": 2, "serialize": 1, "multi": 1}

func genConc(r *drv.R, thorough bool) any {
	p := &concPlan{Common: r.P(1, 3), Env: genEnv(r)}
	n := r.Range(4, 12)
	p.Coins = genCoins(r, n, func() uint64 { return 2000 + r.Log(200000) }, func() int {
		if r.P(1, 3) {
			return r.Intn(20)*8 + r.Range(4, 6)
		}
		return r.Intn(12) * 8
	})
	w := map[string]int{}
	for _, k := range sortedKeys(concWeights) {
		if !r.P(1, 4) {
			w[k] = concWeights[k]
		}
	}
	if len(w) == 0 {
		w = concWeights
	}
	same := r.P(1, 4)
	for k := r.Range(2, 4); k > 0; k-- {
		x := concTask{Rate: genRate(r), Dust: genDustRate(r), Env: genEnv(r)}
		if same && len(p.Tasks) > 0 {
			x = p.Tasks[0]
			x.Env = genEnv(r)
			p.Tasks = append(p.Tasks, x)
			continue
		}
		for j := r.Range(1, 7); j > 0; j-- {
			x.Ops = append(x.Ops, genOp(r, pickKind(r, w), n))
			o := &x.Ops[len(x.Ops)-1]
			switch o.K {
			case "breaks", "quantity":
				o.V, o.A, o.B, o.L, o.R, o.D = r.Log(1000000), int(r.Log(5000)), r.Intn(5), r.Intn(40), r.P(1, 2), r.P(1, 2)
			case "hash":
				o.A, o.B = r.Intn(16), []int{1, 2, 3, 0x81, 0x82, 0x83}[r.Intn(6)]
			case "multi":
				o.L = r.Intn(160)*8 + 5
			}
		}
		p.Tasks = append(p.Tasks, x)
	}
	if r.P(1, 3) {
		p.Walk = int64(r.Intn(1<<30) + 1)
		p.Every = []int{2, 5, 20, 100}[r.Intn(4)]
	} else {
		for k := r.Range(1, 8); k > 0; k-- {
			p.Cuts = append(p.Cuts, concCut{At: r.Intn(1000000), To: r.Intn(4)})
		}
	}
	return p
}

// shared are the values all goroutines read.
type shared struct {
	coins   []Coin
	utxos   []bitcoin.UTXO
	keys    []bitcoin.Key
	addrs   []txbuilder.AddressKeyID
	scripts []bitcoin.Script
	prevs   []*wire.MsgTx
}

// roomy returns a copy with spare capacity, so that appending to it would be noticed.
func roomy(b []byte) bitcoin.Script {
	x := make([]byte, len(b), len(b)+16)
	copy(x, b)
	return x
}

func newShared(p *concPlan) *shared {
	s := &shared{coins: coinsOf(p.Coins)}
	for _, c := range s.coins {
		u := c.utxo()
		u.LockingScript = roomy(u.LockingScript)
		s.utxos = append(s.utxos, u)
	}
	for i := 0; i < 24; i++ {
		s.keys = append(s.keys, ref.K(i).Key)
	}
	for i := 0; i < 12; i++ {
		s.addrs = append(s.addrs, txbuilder.AddressKeyID{Address: addr(ref.NewP2PKH(20 + i)), KeyID: keyName("key", i)})
		s.scripts = append(s.scripts, roomy(ref.NewP2PKH(20+i).Script))
	}
	return s
}

// picture describes everything in the shared values.
func (s *shared) picture() string {
	b := &bytes.Buffer{}
	for i, u := range s.utxos {
		fmt.Fprintf(b, "coin %d: %x:%d %d %x %q\n", i, u.Hash[:], u.Index, u.Value, []byte(u.LockingScript[:cap(u.LockingScript)]), u.KeyID)
	}
	for i, k := range s.keys {
		fmt.Fprintf(b, "key %d: %s\n", i, k)
	}
	for i, a := range s.addrs {
		fmt.Fprintf(b, "address %d: %x %q\n", i, a.Address.Bytes(), a.KeyID)
	}
	for i, x := range s.scripts {
		fmt.Fprintf(b, "script %d: %x\n", i, []byte(x[:cap(x)]))
	}
	return b.String()
}

// concRun is the work of one goroutine.
type concRun struct {
	p   concTask
	s   *shared
	tx  *txbuilder.TxBuilder
	shc *txbuilder.SigHashCache
	log []string
	bad string

	held [][2][]byte // results and what they were
}

func (c *concRun) hold(b []byte) { c.held = append(c.held, [2][]byte{b, append([]byte{}, b...)}) }

func (c *concRun) note(format string, a ...any) { c.log = append(c.log, fmt.Sprintf(format, a...)) }

func (c *concRun) fail(format string, a ...any) {
	if c.bad == "" {
		c.bad = fmt.Sprintf(format, a...)
	}
}

func window(n, from, size int) (int, int) {
	if n == 0 {
		return 0, 0
	}
	from %= n
	if from+size > n {
		size = n - from
	}
	return from, from + size
}

func (c *concRun) run() {
	c.tx = txbuilder.NewTxBuilder(c.p.Rate, c.p.Dust)
	for _, o := range c.p.Ops {
		simrt.Pause()
		c.op(o)
	}
	simrt.Pause()
	for _, h := range c.held {
		if !bytes.Equal(h[0], h[1]) {
			c.fail("a result handed out before has changed from %x to %x", h[1], h[0])
		}
	}
	b := &bytes.Buffer{}
	c.tx.MsgTx.Serialize(b)
	m, err := observe(c.tx)
	c.note("end %x %v %v %v", b.Bytes(), m.Ins, m.Outs, err)
	if err != nil {
		c.fail("the lists of inputs and outputs do not match: %v", err)
	}
}

func (c *concRun) op(o Op) {
	s, tx := c.s, c.tx
	o, ok := resolve(o, len(tx.MsgTx.TxIn), len(tx.MsgTx.TxOut))
	if !ok {
		return
	}
	before, _ := observe(tx)
	var res Result
	addrs := func() []txbuilder.AddressKeyID {
		a, b := window(len(s.addrs), o.L, 1+o.B%5)
		return s.addrs[a:b]
	}
	outs := func(outs []*txbuilder.Output, err error) {
		res.Err = err
		for _, x := range outs {
			c.note("piece %d %x %v %q", x.Value, []byte(x.LockingScript), x.Supplement.IsRemainder, x.Supplement.KeyID)
		}
		if err == nil && len(outs) > 0 {
			sum, fee := uint64(0), uint64(0)
			for _, x := range outs {
				sum += x.Value
				fee += ref.Fee(ref.OutSize(x.LockingScript), tx.FeeRate)
			}
			if o.D {
				sum += fee
			}
			if sum != o.V+1 {
				c.fail("pieces of %d add up to %d", o.V+1, sum)
			}
			tx.AddOutputs(outs)
		}
	}
	coin := func() bitcoin.UTXO { return s.utxos[o.B%len(s.utxos)] }
	switch o.K {
	case "addutxo":
		res.Err = tx.AddInputUTXO(coin())
	case "insin":
		res.Err = tx.InsertInput(o.A, coin())
	case "updin":
		res.Err = tx.UpdateInputUTXO(o.A, coin())
	case "addout":
		res.Err = tx.AddOutput(s.scripts[o.L%len(s.scripts)], o.amount(tx), o.R, o.D)
	case "insout":
		res.Err = tx.InsertOutput(o.A, s.scripts[o.L%len(s.scripts)], o.amount(tx), o.R, o.D)
	case "addpay":
		res.Err = tx.AddPaymentOutput(s.addrs[o.L%len(s.addrs)].Address, o.amount(tx), o.R)
	case "adddust":
		res.Err = tx.AddDustOutput(s.addrs[o.L%len(s.addrs)].Address, o.R)
	case "change":
		res.Err = tx.SetChangeAddress(s.addrs[o.L%len(s.addrs)].Address, "change")
	case "changes":
		res.Err = tx.SetChangeLockingScript(s.scripts[o.L%len(s.scripts)], "change")
	case "break":
		outs(txbuilder.BreakValue(o.V+1, uint64(o.A)+1, addrs(), tx.DustFeeRate, tx.FeeRate, o.R, o.D))
	case "breaks":
		a, b := window(len(s.scripts), o.L, 1+o.B%5)
		outs(txbuilder.BreakValueLockingScripts(o.V+1, uint64(o.A)+1, s.scripts[a:b], tx.DustFeeRate, tx.FeeRate, o.R, o.D))
	case "quantity":
		q, err := txbuilder.BreakQuantity(o.V+1, uint64(o.A)+1, 1+o.B%5)
		res.Err = err
		sum := uint64(0)
		for _, x := range q {
			sum += x
		}
		if err == nil && sum != o.V+1 {
			c.fail("quantities of %d add up to %d", o.V+1, sum)
		}
		c.note("%v", q)
	case "fund":
		a, b := window(len(s.utxos), o.L, 1+len(o.C))
		res.Err = tx.AddFunding(s.utxos[a:b])
	case "fundbreak":
		a, b := window(len(s.utxos), o.L, 1+len(o.C))
		res.Err = tx.AddFundingBreakChange(s.utxos[a:b], o.V+1, addrs())
	case "sign":
		res.Keys, res.Err = tx.Sign(s.keys)
	case "signonly":
		res.Keys, res.Err = tx.SignOnly(s.keys)
	case "copy":
		x := tx.Copy()
		c.tx = &x
	case "wire":
		x, err := txbuilder.NewTxBuilderFromWireUTXOs(tx.FeeRate, tx.DustFeeRate, tx.MsgTx, s.utxos)
		if x != nil && err == nil {
			c.note("%v", x.InputValue())
		}
		res.Err = err
	case "text":
		c.note("%s %s", tx.String(bitcoin.MainNet), txbuilder.TxString(tx))
	case "fees":
		for _, u := range s.utxos {
			n, err := fees.EstimateUnlockingSize(u.LockingScript)
			c.note("%d %v", n, err)
		}
		c.note("%d %d", tx.EstimatedSize(), tx.EstimatedFee())
	case "hash":
		if len(tx.MsgTx.TxIn) > 0 {
			i := o.A % len(tx.MsgTx.TxIn)
			shc := &txbuilder.SigHashCache{}
			h, err := txbuilder.SignatureHash(tx.MsgTx, i, tx.Inputs[i].LockingScript, tx.Inputs[i].Value, txbuilder.SigHashType(o.B|0x40), shc)
			c.note("%v %v", h, err)
			if err == nil {
				if d := ref.Digest(tx.MsgTx, i, tx.Inputs[i].LockingScript, tx.Inputs[i].Value, byte(o.B|0x40)); !bytes.Equal(d[:], h[:]) {
					c.fail("signature hash of input %d is wrong", i)
				}
			}
			f := txbuilder.SignatureHashPreimageBytes
			if o.A%2 == 1 {
				f = txbuilder.SignaturePreimage
			}
			pre, err := f(tx.MsgTx, i, tx.Inputs[i].LockingScript, tx.Inputs[i].Value, txbuilder.SigHashType(o.B|0x40), shc)
			c.note("%x %v", pre, err)
			c.hold(pre)
		}
	case "serialize":
		b, err := tx.Serialize()
		c.note("%x %v", b, err)
		c.hold(b)
	case "multi":
		l := lockOf(o.L)
		var pubs, sigs [][]byte
		for i, k := range l.Keys {
			pubs = append(pubs, ref.K(k).Pub)
			sg := []byte{}
			if i < l.Required {
				sg = []byte{byte(i), 2, 3}
			}
			sigs = append(sigs, sg)
		}
		b, err := txbuilder.P2MultiPKHUnlockingScript(uint16(l.Required), pubs, sigs)
		c.note("%x %v", b, err)
		c.hold(b)
	default:
		res = applyWith(tx, o, s.coins, func(x Coin) bitcoin.UTXO { return x.utxo() })
	}
	tx = c.tx
	after, err := observe(tx)
	c.note("%s %s", o.K, res)
	if err != nil {
		c.fail("after %s: %v", o.K, err)
		return
	}

	// what must hold whatever the random draws were
	switch o.K {
	case "shuffle", "shuffleafter":
		keep := 0
		if o.K == "shuffleafter" {
			keep = o.A + 1
		}
		var x, y []string
		for i := range before.Outs {
			if i >= len(after.Outs) {
				break
			}
			if i < keep && !before.Outs[i].eq(after.Outs[i]) {
				c.fail("%s moved output %d", o.K, i)
			}
			x, y = append(x, before.Outs[i].String()), append(y, after.Outs[i].String())
		}
		sort.Strings(x)
		sort.Strings(y)
		if len(before.Outs) != len(after.Outs) || fmt.Sprint(x) != fmt.Sprint(y) {
			c.fail("%s is not a permutation", o.K)
		}
	case "sign", "signonly":
		if res.Err == nil {
			for i, in := range after.Ins {
				l, ok := c.lock(in)
				if ok && len(in.Unlock) > 0 && !(o.K == "signonly" && len(before.Ins[i].Unlock) > 0) {
					if err := ref.CheckInput(tx.MsgTx, i, l, in.Value); err != nil {
						c.fail("input %d is not validly signed: %v", i, err)
					}
				}
			}
		}
	case "fund", "fundbreak":
		if res.Err == nil {
			in, out := uint64(0), uint64(0)
			var locks []ref.Lock
			for _, x := range after.Ins {
				in += x.Value
				l, _ := c.lock(x)
				locks = append(locks, l)
			}
			for _, x := range after.Outs {
				out += x.Value
			}
			if in < out+ref.Fee(ref.MaxSize(locks, tx.MsgTx.TxOut), tx.FeeRate) {
				c.fail("%s succeeded but inputs %d do not cover outputs %d and the fee", o.K, in, out)
			}
		}
	}
}

func (c *concRun) lock(in mIn) (ref.Lock, bool) {
	for _, x := range c.s.coins {
		if x.Hash == in.Hash && x.Index == in.Index {
			return x.Lock, true
		}
	}
	return ref.Lock{}, false
}

func execConc(t *drv.T, plan any) {
	p := plan.(*concPlan)
	if len(p.Coins) == 0 || len(p.Tasks) == 0 {
		return
	}

	// each transaction alone
	var solo []*concRun
	total := uint64(0)
	for _, x := range p.Tasks {
		s := newShared(p)
		want := s.picture()
		c := &concRun{p: x, s: s}
		simrt.Reset()
		sched, errs := simrt.Run([]func(){c.run}, []*simrt.Env{x.Env.env()}, nil, nil)
		simrt.ResetSteps()
		total += sched.Yields()
		if errs[0] != nil {
			c.note("panic %v", errs[0])
		}
		if c.bad != "" {
			t.Probe("run ended early: wrong without any interleaving")
			return
		}
		t.Check(s.picture() == want, "write", "building a transaction writes into values the caller provided and may share")
		solo = append(solo, c)
	}

	// all of them interleaved
	s := newShared(p)
	want := s.picture()
	var runs []*concRun
	var fns []func()
	var envs []*simrt.Env
	common := p.Env.env()
	for _, x := range p.Tasks {
		c := &concRun{p: x, s: s}
		runs = append(runs, c)
		fns = append(fns, c.run)
		if p.Common {
			envs = append(envs, common)
		} else {
			envs = append(envs, x.Env.env())
		}
	}
	var walk func() int
	var cuts []simrt.Switch
	if p.Walk != 0 {
		r := drv.NewR(uint64(p.Walk))
		walk = func() int {
			if p.Every > 0 && r.Intn(p.Every) == 0 {
				return r.Intn(4)
			}
			return -1
		}
	} else {
		c := append([]concCut{}, p.Cuts...)
		sort.SliceStable(c, func(i, j int) bool { return c[i].At < c[j].At })
		for _, x := range c {
			if x.To < 0 {
				x.To = 0
			}
			cuts = append(cuts, simrt.Switch{At: uint64(x.At) * total / 1000000, To: x.To})
		}
	}
	simrt.Reset()
	simrt.ResetSteps()
	sched, errs := simrt.Run(fns, envs, cuts, walk)
	simrt.ResetSteps()
	t.Ops += len(p.Tasks)
	for i := 0; i < sched.Switched; i++ {
		t.Fault("preemption")
	}
	if p.Common {
		t.Fault("random source and clock shared by the goroutines")
	}
	t.SimTime += time.Duration(sched.Yields()) * time.Microsecond
	for _, x := range sched.Order {
		t.ShapeInt(int(x.At)*8 + x.To)
	}
	t.Trace("switches %v", sched.Order)
	if sched.Switched > 0 {
		t.NonTrivial()
	}
	for i, c := range runs {
		if errs[i] != nil {
			c.note("panic %v", errs[i])
		}
		for _, l := range c.log {
			t.Trace("%d %s", i, l)
		}
		t.State(drv.HashBytes([]byte(fmt.Sprint(c.log))))
	}
	t.Check(len(sched.Races) == 0, "race", "%v, which nothing keeps from happening at the same time", sched.Races)
	for i, c := range runs {
		t.Checks++
		if c.bad != "" {
			t.Fail("invariant", "goroutine %d of %d: %s; alone this holds", i, len(runs), c.bad)
		}
		if errs[i] != nil && len(solo[i].log) > 0 && solo[i].log[len(solo[i].log)-1] != c.log[len(c.log)-1] {
			t.Fail("panic", "goroutine %d of %d crashed: %v; alone it does not", i, len(runs), errs[i])
		}
		if p.Common {
			continue // random choices differ, so only what holds for all of them is compared
		}
		t.Check(len(c.log) == len(solo[i].log), "differs", "goroutine %d of %d: %d results, alone %d", i, len(runs), len(c.log), len(solo[i].log))
		for j, l := range c.log {
			t.Check(l == solo[i].log[j], "differs", "goroutine %d of %d: result %d is %.300q, alone it is %.300q", i, len(runs), j, l, solo[i].log[j])
		}
	}
	t.Check(s.picture() == want, "write", "building transactions writes into values that are shared between goroutines")
}

func init() {
	drv.Register(&drv.Prop{ID: "C01", Gen: genConc, New: func() any { return &concPlan{} }, Exec: execConc,
		Quick: 30000, Thorough: 600000, Chunk: 500,
		World: "goroutine world: two to four goroutines build one transaction each, a seeded scheduler releases one at a time and can switch at every statement",
		Rule:  "a run is an interleaving of 2 to 4 programs of up to 7 operations, with up to 8 preemptions at arbitrary statements or a random walk over the runnable goroutines; two runs are distinct if the sequence of context switches (statement count, goroutine) differs; a run is non-trivial if at least one preemption took place",
		Real:  realLib, Stubs: []string{"goroutine scheduler", "clock", "random source"},
		Assume: []string{"code of imported modules is not preempted", "goroutines share only values they read", "memory is sequentially consistent"}})
}
