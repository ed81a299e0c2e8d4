package world

import (
	"bytes"
	"fmt"
	"math/big"
	"sort"
	"time"

	"github.com/tokenized/pkg/bitcoin"
	"github.com/tokenized/txbuilder"

	"verifsim/drv"
	"verifsim/ref"
	"verifsim/simrt"
)

// The draft service: editors with possibly stale views send edit requests over a faulty network to
// a node that holds a draft (the real builder). The node crashes and rebuilds the draft from its
// log.

type draftPlan struct {
	Rate  float32     `json:"rate"`
	Dust  float32     `json:"dust"`
	Seed  int64       `json:"seed"`
	Coins []CoinPlan  `json:"coins"`
	Steps []draftStep `json:"steps"`
}

type draftStep struct {
	Ed        int  `json:"ed"`
	Op        Op   `json:"op"`
	Past      int  `json:"past,omitempty"` // address an entry past the end of the editor's view
	Drop      bool `json:"drop,omitempty"`
	Dup       int  `json:"dup,omitempty"`   // milliseconds until the request arrives a second time
	Delay     int  `json:"delay,omitempty"` // extra milliseconds under way
	LoseReply bool `json:"losereply,omitempty"`
	Crash     bool `json:"crash,omitempty"` // the node crashes after processing the request
}

var isIndexed = map[string]bool{"insin": true, "updin": true, "remin": true, "insout": true, "remout": true, "addval": true,
	"subval": true, "setdust": true, "updout": true, "shuffleafter": true, "seq": true, "outkey": true}
var onInputs = map[string]bool{"insin": true, "updin": true, "remin": true, "seq": true}

func genAmount(r *drv.R, o *Op, value bool) {
	if value {
		o.M = r.Pick(2, 3, 3, 1, 4)
	} else {
		o.M = []int{0, 1, 3}[r.Pick(4, 2, 2)]
	}
	switch o.M {
	case 0:
		o.V = r.Log(Supply)
		if r.P(2, 3) {
			o.V = r.Log(20000)
		}
		if r.P(1, 10) {
			o.V = 0
		}
	default:
		o.V = uint64(r.Intn(7))
	}
}

func genLock(r *drv.R) int {
	switch r.Pick(8, 3, 1) {
	case 1:
		return r.Intn(160)*8 + r.Range(4, 7)
	case 2:
		return 100000 + genData(r)
	}
	return r.Intn(12) * 8
}

// genData is a size of data, sometimes where the encoding of sizes changes.
func genData(r *drv.R) int {
	if r.P(1, 40) {
		return 65536 - r.Intn(10)
	}
	if r.P(1, 6) {
		return r.Range(244, 258)
	}
	return r.Intn(300)
}

func genAddrLock(r *drv.R) int {
	if r.P(1, 12) {
		return badAddress
	}
	if r.P(1, 5) {
		return r.Intn(160)*8 + r.Range(4, 6)
	}
	return r.Intn(12) * 8
}

// genOp makes an operation of the given kind.
func genOp(r *drv.R, k string, ncoins int) Op {
	o := Op{K: k}
	switch k {
	case "addutxo", "addin":
		o.B = r.Intn(ncoins)
	case "insin", "updin":
		o.A, o.B = r.Intn(16), r.Intn(ncoins)
	case "remin", "remout", "setdust", "shuffleafter":
		o.A = r.Intn(16)
	case "addout":
		o.L, o.R, o.D = genLock(r), r.P(1, 4), r.P(1, 5)
		genAmount(r, &o, false)
	case "insout":
		o.A, o.L, o.R, o.D = r.Intn(16), genLock(r), r.P(1, 4), r.P(1, 5)
		genAmount(r, &o, false)
	case "addpay":
		o.L, o.R = genAddrLock(r), r.P(1, 4)
		genAmount(r, &o, false)
	case "adddust":
		o.L, o.R = genAddrLock(r), r.P(1, 4)
	case "addmax":
		o.L = genAddrLock(r)
	case "addmaxs":
		o.L = genLock(r)
	case "addval", "subval":
		o.A = r.Intn(16)
		genAmount(r, &o, true)
	case "header":
		o.A, o.V = r.Intn(4), r.Log(1<<32-1)
	case "seq":
		o.A, o.V = r.Intn(16), uint64(0xffffffff-r.Intn(3))
		if r.P(1, 3) {
			o.V = r.Log(1<<32 - 1)
		}
	case "outkey":
		o.A, o.B = r.Intn(16), r.Intn(5)
	case "rate":
		o.A, o.B = r.Intn(40), r.Intn(5)
	case "updout":
		o.A, o.L = r.Intn(16), genLock(r)
	case "change":
		o.L, o.B = genAddrLock(r), r.Intn(5)
	case "changes":
		o.L, o.B = genLock(r), r.Intn(5)
	case "break":
		o.V, o.A, o.B, o.L, o.R, o.D = r.Log(1000000), int(r.Log(5000)), r.Intn(5), r.Intn(40), r.P(1, 2), r.P(1, 2)
	case "fund", "fundbreak":
		for n := r.Intn(2*ncoins + 1); n > 0; n-- {
			o.C = append(o.C, r.Intn(ncoins))
		}
		o.V, o.B, o.L = r.Log(5000), r.Intn(5), r.Intn(40)
	case "adjust":
		if r.P(1, 2) {
			o.V = r.Log(100000)
		} else {
			o.A = int(r.Log(100000))
		}
	case "sign", "signonly":
		for i := 0; i < 12; i++ {
			if r.P(3, 4) {
				o.C = append(o.C, i)
			}
		}
	}
	return o
}

func sortedKeys(w map[string]int) []string {
	var ks []string
	for k := range w {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

func pickKind(r *drv.R, w map[string]int) string {
	ks := sortedKeys(w)
	t := 0
	for _, k := range ks {
		t += w[k]
	}
	x := r.Intn(t)
	for _, k := range ks {
		if x < w[k] {
			return k
		}
		x -= w[k]
	}
	return ks[0]
}

var draftWeights = map[string]map[string]int{
	"C03": {"addutxo": 6, "addin": 4, "insin": 8, "updin": 6, "remin": 6, "addout": 8, "addpay": 4, "adddust": 3, "addmax": 2, "addmaxs": 1,
		"insout": 8, "remout": 6, "addval": 3, "subval": 3, "setdust": 2, "updout": 5, "change": 2, "changes": 1, "break": 1, "shuffle": 1,
		"shuffleafter": 1, "fund": 1, "fundbreak": 1, "calcfee": 1, "adjust": 1, "sign": 1, "signonly": 1, "header": 1, "seq": 2, "outkey": 2},
	"C04": {"addutxo": 8, "addin": 8, "insin": 8, "updin": 8, "remin": 7, "addout": 3, "addpay": 1, "remout": 1, "fund": 5, "fundbreak": 4,
		"signonly": 1, "addmax": 1, "change": 1},
	"C05": {"addout": 6, "adddust": 4, "addpay": 3, "insout": 3, "remout": 1, "addval": 12, "subval": 16, "setdust": 6, "updout": 3, "addmax": 1,
		"shuffle": 1, "break": 1, "change": 1, "calcfee": 1, "adjust": 1, "addutxo": 2},
	"C06": {"addout": 8, "adddust": 3, "addpay": 4, "insout": 2, "remout": 2, "addval": 2, "subval": 1, "setdust": 1, "updout": 1, "addmax": 1,
		"break": 3, "change": 3, "changes": 1, "shuffle": 6, "shuffleafter": 8, "calcfee": 3, "adjust": 5, "addutxo": 4, "fund": 2, "fundbreak": 1, "outkey": 3, "header": 1},
}

func genDraft(id string) func(*drv.R, bool) any {
	return func(r *drv.R, thorough bool) any {
		p := &draftPlan{Rate: genRate(r), Dust: genDustRate(r), Seed: int64(r.Intn(1<<30) + 1)}
		n := r.Range(3, 10)
		p.Coins = genCoins(r, n, func() uint64 { return r.Log(200000) }, func() int {
			if r.P(1, 4) {
				return r.Intn(160)*8 + r.Range(4, 7)
			}
			return r.Intn(12) * 8
		})
		for k := r.Intn(3); k > 0; k-- {
			// the same coin, told with another value or script
			i := r.Intn(n)
			c := p.Coins[i]
			c.Same = i + 1
			if r.P(2, 3) {
				c.Value = r.Log(200000)
			}
			if r.P(1, 3) {
				c.Lock = r.Intn(12) * 8
			}
			p.Coins = append(p.Coins, c)
		}
		n = len(p.Coins)
		w := map[string]int{}
		for _, k := range sortedKeys(draftWeights[id]) {
			// swarm: leave out some kinds of operation in each run
			if !r.P(1, 6) {
				w[k] = draftWeights[id][k]
			}
		}
		if len(w) == 0 {
			w = draftWeights[id]
		}
		huge := id == "C05" && r.P(1, 10)
		if huge {
			// amounts beyond the supply, only for edits of single outputs
			for _, k := range []string{"break", "calcfee", "adjust", "change"} {
				delete(w, k)
			}
			w["addval"], w["addout"] = 12, 6
		}
		if id == "C06" && r.P(1, 6) {
			// change of the fee calculation is shuffled and then dropped
			p.Coins[0].Lock, p.Coins[0].Value = r.Intn(12)*8, 20000+r.Log(200000)
			ops := []Op{{K: "change", L: r.Intn(12) * 8, B: r.Intn(5)}, {K: "addutxo"}}
			for k := r.Range(1, 3); k > 0; k-- {
				ops = append(ops, Op{K: "addout", L: (12 + r.Intn(12)) * 8, V: 500 + r.Log(1000)})
			}
			ops = append(ops, Op{K: "calcfee"}, Op{K: "shuffle"}, Op{K: "adjust", M: 1, B: r.Intn(60)})
			if r.P(1, 2) {
				ops[len(ops)-2] = Op{K: "shuffleafter", A: r.Intn(2)}
			}
			for _, o := range ops {
				p.Steps = append(p.Steps, draftStep{Op: o})
			}
		}
		faulty := r.Intn(4)
		max := 30
		if thorough {
			max = 60
		}
		for s := r.Range(2, max); s > 0; s-- {
			st := draftStep{Ed: r.Intn(3), Op: genOp(r, pickKind(r, w), n)}
			if huge && st.Op.M == 0 && r.P(1, 2) {
				switch st.Op.K {
				case "addval", "subval", "addout":
					st.Op.V = ^uint64(0) - r.Log(1<<62)
					if r.P(1, 3) {
						st.Op.V = 1<<63 - 2 + uint64(r.Intn(4))
					}
				}
			}
			if isIndexed[st.Op.K] && r.P(1, 8) {
				st.Past = 1 + r.Intn(3)
			}
			if faulty > 0 {
				st.Drop = r.P(1, 12)
				if r.P(1, 8) {
					st.Dup = 1 + r.Intn(60)
				}
				if r.P(1, 5) {
					st.Delay = r.Intn(80)
				}
				st.LoseReply = r.P(1, 6)
				st.Crash = r.P(1, 25)
			}
			p.Steps = append(p.Steps, st)
		}
		return p
	}
}

type logEntry struct {
	op   Op
	seed int64
}

type draftNode struct {
	t        *drv.T
	p        *draftPlan
	coins    []Coin
	tx       *txbuilder.TxBuilder
	m        *Model
	added    []int8 // which outputs the fee calculation added: no, yes, unknown
	shuffled bool
	log      []logEntry
	count    int64
	over     bool
}

func execDraft(t *drv.T, plan any) {
	p := plan.(*draftPlan)
	if len(p.Coins) == 0 {
		return
	}
	n := &draftNode{t: t, p: p, coins: coinsOf(p.Coins)}
	n.tx = txbuilder.NewTxBuilder(p.Rate, p.Dust)
	n.m, _ = observe(n.tx)
	t.Check(len(n.m.Ins) == 0 && len(n.m.Outs) == 0 && n.tx.MsgTx.Version == 1 && n.tx.MsgTx.LockTime == 0, "new-draft", "a new draft has %d inputs, %d outputs, version %d and lock time %d", len(n.m.Ins), len(n.m.Outs), n.tx.MsgTx.Version, n.tx.MsgTx.LockTime)

	// requests and replies in simulated time
	type event struct {
		at    time.Duration
		seq   int
		step  int
		reply bool
		ed    int
		view  [2]int
	}
	var queue []event
	nseq := 0
	add := func(e event) {
		e.seq = nseq
		nseq++
		queue = append(queue, e)
	}
	for i, s := range p.Steps {
		at := time.Duration(i) * 10 * time.Millisecond
		add(event{at: at, step: i, ed: s.Ed})
	}
	type request struct {
		op   Op
		sent bool
	}
	reqs := make([]request, len(p.Steps))
	var views [3][2]int
	lastAt := time.Duration(-1)
	lastStep := -1
	for len(queue) > 0 && !n.over {
		b := 0
		for i, e := range queue {
			if e.at < queue[b].at || (e.at == queue[b].at && e.seq < queue[b].seq) {
				b = i
			}
		}
		e := queue[b]
		queue = append(queue[:b], queue[b+1:]...)
		t.SimTime = e.at
		if e.reply {
			views[e.ed] = e.view
			continue
		}
		s := p.Steps[e.step]
		ed := ((s.Ed % 3) + 3) % 3
		if !reqs[e.step].sent {
			// the editor sends its request, addressed by its own view of the draft
			o := s.Op
			if isIndexed[o.K] {
				c := views[ed][1]
				if onInputs[o.K] {
					c = views[ed][0]
				}
				if s.Past > 0 {
					o.A = c + s.Past - 1
					if o.K == "insin" || o.K == "insout" {
						o.A++
					}
					t.Fault("index past the end")
				} else {
					if o.K == "insin" || o.K == "insout" {
						c++
					}
					if c > 0 {
						o.A %= c
					} else {
						o.A = 0
					}
				}
			}
			reqs[e.step] = request{op: o, sent: true}
			if s.Drop {
				t.Fault("request lost")
			} else {
				add(event{at: e.at + time.Duration(5+s.Delay)*time.Millisecond, step: e.step, ed: ed})
				if s.Delay > 0 {
					t.Fault("request delayed")
				}
			}
			if s.Dup > 0 {
				add(event{at: e.at + time.Duration(5+s.Delay+s.Dup)*time.Millisecond, step: e.step, ed: ed})
				t.Fault("request repeated")
			}
			continue
		}
		if e.step < lastStep {
			t.Fault("requests reordered")
		}
		lastStep, lastAt = e.step, e.at
		_ = lastAt
		n.process(reqs[e.step].op)
		if n.over {
			return
		}
		if t.On("C03") {
			n.query(reqs[e.step].op.A, max(s.Past, 1)-1)
		}
		if s.LoseReply {
			t.Fault("reply lost")
		} else {
			add(event{at: e.at + 5*time.Millisecond, reply: true, ed: ed, view: [2]int{len(n.m.Ins), len(n.m.Outs)}})
		}
		if s.Crash {
			n.crash()
		}
	}
	if n.count > 0 && !n.over {
		n.crash()
	}
}

// query asks for the addresses of an entry and of entries past the end.
func (n *draftNode) query(at, past int) {
	t, m := n.t, n.m
	if p := t.Try(func() {
		if at >= 0 && at < len(m.Ins) {
			n.address("input", at, m.Ins[at].Script, n.tx.InputAddress)
		}
		if at >= 0 && at < len(m.Outs) {
			n.address("output", at, m.Outs[at].Script, n.tx.OutputAddress)
		}
		_, err := n.tx.InputAddress(len(m.Ins) + past)
		t.Check(err != nil, "index", "an address for input %d of %d", len(m.Ins)+past, len(m.Ins))
		_, err = n.tx.OutputAddress(len(m.Outs) + past)
		t.Check(err != nil, "index", "an address for output %d of %d", len(m.Outs)+past, len(m.Outs))
		t.Check(!n.tx.InputIsSigned(len(m.Ins)+past), "index", "input %d of %d is signed", len(m.Ins)+past, len(m.Ins))
	}); p != nil {
		n.bad("C03", "panic", "asking about an entry crashed: %v", p)
	}
}

func (n *draftNode) address(what string, at int, script []byte, f func(int) (bitcoin.RawAddress, error)) {
	want, wantErr := bitcoin.RawAddressFromLockingScript(script)
	got, err := f(at)
	n.t.Check((err == nil) == (wantErr == nil), "address", "the address of %s %d: error %v, its script gives %v", what, at, err, wantErr)
	if err == nil && wantErr == nil {
		n.t.Check(got.Equal(want), "address", "the address of %s %d is not the one its script pays", what, at)
	}
}

// crash loses everything but the log. The draft is rebuilt from it.
func (n *draftNode) crash() {
	n.t.Fault("crash and restart from the log")
	tx := txbuilder.NewTxBuilder(n.p.Rate, n.p.Dust)
	if p := n.t.Try(func() {
		for _, e := range n.log {
			apply(tx, e.op, n.coins, e.seed)
		}
	}); p != nil {
		n.bad("C03", "panic", "replaying the accepted edits crashed: %v", p)
		return
	}
	m, err := observe(tx)
	if err != nil {
		n.bad("C03", "pairing", "after replaying the accepted edits: %v", err)
		return
	}
	n.t.Checks++
	if d := n.m.diff(m); d != "" {
		n.bad("C03", "replay", "replaying the accepted edits gives a different draft: %s", d)
		return
	}
	n.tx = tx
}

// bad reports a violation if the property is the one under check, otherwise it ends the run: what
// follows is not meaningful for other properties.
func (n *draftNode) bad(prop, kind, format string, a ...any) {
	if n.t.On(prop) {
		n.t.Fail(kind, format, a...)
	}
	n.t.Probe("run ended early: broken " + prop)
	n.over = true
}

var opProps = map[string][]string{
	"addutxo": {"C03", "C04"}, "addin": {"C03", "C04"}, "insin": {"C03", "C04"}, "updin": {"C03", "C04"}, "remin": {"C03", "C04"},
	"fund": {"C04"}, "fundbreak": {"C04"}, "addval": {"C03", "C05"}, "subval": {"C03", "C05"}, "setdust": {"C03", "C05"},
	"adddust": {"C03", "C05"}, "shuffle": {"C06"}, "shuffleafter": {"C06"},
	"addout": {"C03"}, "addpay": {"C03"}, "addmax": {"C03"}, "addmaxs": {"C03"}, "insout": {"C03"}, "remout": {"C03"}, "updout": {"C03"},
	"change": {"C03"}, "changes": {"C03"}, "adjust": {"C06"}, "calcfee": {"C06"},
}

func (n *draftNode) process(o Op) {
	t := n.t
	if o.K == "fund" || o.K == "fundbreak" {
		// coins whose unlocking size cannot be known are not offered for funding
		var c []int
		for _, i := range o.C {
			if n.coins[i%len(n.coins)].Lock.MaxUnlock() > 0 {
				c = append(c, i)
			}
		}
		o.C = c
	}
	n.count++
	seed := n.p.Seed*1000 + n.count
	before := n.m
	if o.K == "adjust" && o.M == 1 {
		// all but a little of the change
		o.V, o.A = 0, 0
		for _, x := range before.Outs {
			if x.Rem {
				if x.Value > uint64(o.B) {
					o.V = x.Value - uint64(o.B)
				}
				break
			}
		}
	}
	amount := uint64(0)
	switch o.K {
	case "addout", "insout", "addpay", "addval", "subval":
		oo := o
		if o.K == "addpay" && o.L == badAddress {
			oo.L = 0
		}
		amount = oo.amount(n.tx)
	}
	var res Result
	if p := t.Try(func() { res = apply(n.tx, o, n.coins, seed) }); p != nil {
		t.Trace("%s panic %v", o.K, p)
		for _, id := range opProps[o.K] {
			if t.On(id) {
				t.Fail("panic", "%s (%+v) on a draft with %d inputs and %d outputs crashed: %v", o.K, o, len(before.Ins), len(before.Outs), p)
			}
		}
		n.over = true
		return
	}
	obs, err := observe(n.tx)
	t.Trace("%s %+v amount=%d -> %s", o.K, o, amount, res)
	t.Shape(o.K)
	t.ShapeInt(b2i(res.Err == nil))
	t.ShapeInt(len(obs.Ins)*100 + len(obs.Outs))
	if err != nil {
		switch o.K {
		case "shuffle", "shuffleafter":
			n.bad("C06", "pairing", "after %s: %v", o.K, err)
		default:
			n.bad("C03", "pairing", "after %s: %v", o.K, err)
		}
		return
	}
	obs.trace(t)
	t.State(obs.hash())
	if res.Err == nil || !n.isEdit(o.K) {
		n.log = append(n.log, logEntry{o, seed})
	}
	if res.Err == nil {
		t.NonTrivial()
	} else {
		t.Probe("rejected " + o.K)
	}
	n.judge(o, amount, res, before, obs)
	if n.over {
		return
	}
	n.m = obs
	if len(n.added) != len(obs.Outs) {
		// operations that are not followed exactly
		a := make([]int8, len(obs.Outs))
		for i := copy(a, n.added); i < len(a); i++ {
			a[i] = 2
		}
		n.added = a
	}
}

func (n *draftNode) isEdit(k string) bool {
	switch k {
	case "fund", "fundbreak", "calcfee", "zerofee", "adjust", "sign", "signonly", "shuffle", "shuffleafter", "break":
		return false
	}
	return true
}

// judge compares what happened with what the list model says.
func (n *draftNode) judge(o Op, amount uint64, res Result, before, obs *Model) {
	t := n.t

	// no coin twice, whatever happened
	t.Checks++
	if i, j, yes := obs.twins(); yes && t.On("C04") {
		n.bad("C04", "twice", "after %s inputs %d and %d spend the same coin", o.K, i, j)
		if n.over {
			return
		}
	}

	if n.isEdit(o.K) && res.Err != nil {
		t.Checks++
		if d := before.diff(obs); d != "" {
			prop := "C03"
			if o.K == "addval" || o.K == "subval" || o.K == "setdust" {
				if t.On("C05") {
					prop = "C05"
				}
			}
			n.bad(prop, "rejected", "%s was rejected (%s) but changed the draft: %s", o.K, errText(res.Err), d)
			return
		}
	}

	exp := before.clone()
	coin := n.coins[o.B%len(n.coins)]
	newIn := mIn{Hash: coin.Hash, Index: coin.Index, Seq: 0xffffffff, Script: cp(coin.Lock.Script), Value: coin.Value, KeyID: coin.KeyID}
	nIn, nOut := len(before.Ins), len(before.Outs)
	present := func(except int) bool {
		for i, in := range before.Ins {
			if i != except && in.Hash == coin.Hash && in.Index == coin.Index {
				return true
			}
		}
		return false
	}
	mustFail := func(prop, why string) bool {
		t.Checks++
		if res.Err == nil {
			n.bad(prop, "accepted", "%s was accepted although %s", o.K, why)
		}
		return true
	}
	mustWork := func(prop string) {
		t.Checks++
		if res.Err != nil {
			n.bad(prop, "refused", "%s (%+v, amount %d) was refused although nothing is wrong with it: %s", o.K, o, amount, errText(res.Err))
		}
	}
	matches := func(props ...string) {
		t.Checks++
		if d := exp.diff(obs); d != "" {
			for _, p := range props {
				if t.On(p) {
					t.Fail("model", "after %s (%+v, amount %d): %s", o.K, o, amount, d)
				}
			}
			n.bad(props[0], "model", "after %s: %s", o.K, d)
		}
	}
	coinProp := "C03"
	if t.On("C04") {
		coinProp = "C04"
	}
	dupCheck := func(except int) bool {
		if !present(except) {
			return false
		}
		t.Probe("repeated coin offered")
		t.Checks++
		if res.Err == nil {
			n.bad("C04", "accepted", "%s accepted a coin that the draft already spends", o.K)
		} else if !isErr(res.Err, txbuilder.ErrDuplicateInput) {
			n.bad("C04", "wrongerror", "%s refused a repeated coin with another error: %s", o.K, errText(res.Err))
		}
		return true
	}
	outAdd := func(at int, script []byte, dustFlag, rem bool) {
		fee := ref.Fee(ref.OutSize(script), before.Rate)
		dust := ref.Dust(ref.OutSize(script), before.DustRate)
		v := amount
		if dustFlag {
			v = dust
		}
		if dustFlag || (v >= fee && v >= dust) {
			mustWork("C03")
		}
		if !dustFlag && v < fee && !(before.SendMax && rem) && bytes.HasPrefix(script, []byte{0x76, 0xa9, 0x14}) {
			t.Probe("output offered with less than its fee")
			mustFail("C05", fmt.Sprintf("%d is less than its fee of %d", v, fee))
		}
		if n.over || res.Err != nil {
			return
		}
		x := mOut{Value: v, Script: cp(script), Rem: rem, Dust: dustFlag}
		exp.Outs = append(exp.Outs[:at:at], append([]mOut{x}, before.Outs[at:]...)...)
		n.added = append(append(append([]int8{}, n.added[:at]...), 0), n.added[at:]...)
		matches("C03", "C05")
	}

	switch o.K {
	case "addutxo", "addin":
		if dupCheck(-1) {
			return
		}
		mustWork(coinProp)
		if o.K == "addin" {
			newIn.KeyID = ""
		}
		exp.Ins = append(exp.Ins, newIn)
		if !n.over {
			matches("C03")
		}
	case "insin":
		if o.A > nIn {
			mustFail("C03", "the index is past the end")
			return
		}
		if dupCheck(-1) {
			return
		}
		mustWork(coinProp)
		exp.Ins = append(exp.Ins[:o.A:o.A], append([]mIn{newIn}, before.Ins[o.A:]...)...)
		if !n.over {
			matches("C03")
		}
	case "updin":
		if o.A >= nIn {
			mustFail("C03", "the index is past the end")
			return
		}
		if dupCheck(o.A) {
			return
		}
		mustWork(coinProp)
		if n.over {
			return
		}
		newIn.Seq = before.Ins[o.A].Seq
		if len(obs.Ins) > o.A {
			if u := obs.Ins[o.A].Unlock; len(u) == 0 || bytes.Equal(u, before.Ins[o.A].Unlock) {
				newIn.Unlock = u
			}
		}
		exp.Ins[o.A] = newIn
		matches("C03")
	case "remin":
		if o.A >= nIn {
			mustFail("C03", "the index is past the end")
			return
		}
		mustWork(coinProp)
		exp.Ins = append(exp.Ins[:o.A:o.A], before.Ins[o.A+1:]...)
		if !n.over {
			matches("C03")
		}
	case "addout":
		outAdd(nOut, script(o.L), o.D, o.R)
	case "insout":
		if o.A > nOut {
			mustFail("C03", "the index is past the end")
			return
		}
		outAdd(o.A, script(o.L), o.D, o.R)
	case "addpay":
		if o.L == badAddress {
			mustFail("C03", "the address is empty")
			return
		}
		outAdd(nOut, scriptOfAddr(o.L), false, o.R)
	case "adddust":
		if o.L == badAddress {
			mustFail("C03", "the address is empty")
			return
		}
		outAdd(nOut, scriptOfAddr(o.L), true, o.R)
	case "addmax", "addmaxs":
		sc := script(o.L)
		if o.K == "addmax" {
			if o.L == badAddress {
				mustFail("C03", "the address is empty")
				return
			}
			sc = scriptOfAddr(o.L)
		}
		mustWork("C03")
		exp.SendMax = true
		exp.Outs = append(exp.Outs, mOut{Script: cp(sc), Rem: true})
		n.added = append(n.added, 0)
		if !n.over {
			matches("C03")
		}
	case "remout":
		if o.A >= nOut {
			mustFail("C03", "the index is past the end")
			return
		}
		mustWork("C03")
		exp.Outs = append(exp.Outs[:o.A:o.A], before.Outs[o.A+1:]...)
		n.added = append(append([]int8{}, n.added[:o.A]...), n.added[o.A+1:]...)
		if !n.over {
			matches("C03", "C06")
		}
	case "updout":
		if o.A >= nOut {
			mustFail("C03", "the index is past the end")
			return
		}
		mustWork("C03")
		exp.Outs[o.A].Script = cp(script(o.L))
		if !n.over {
			matches("C03")
		}
	case "change", "changes":
		sc := script(o.L)
		if o.K == "change" {
			if o.L == badAddress {
				mustFail("C03", "the address is empty")
				return
			}
			sc = scriptOfAddr(o.L)
		}
		mustWork("C03")
		key := keyName("change", o.B)
		exp.Change, exp.ChangeKey = cp(sc), key
		for i := range exp.Outs {
			if bytes.Equal(exp.Outs[i].Script, sc) {
				exp.Outs[i].Rem, exp.Outs[i].KeyID = true, key
			}
		}
		if !n.over {
			matches("C03")
		}
	case "header", "seq", "outkey":
		if res.Err != nil {
			return
		}
		switch o.K {
		case "header":
			exp.Version, exp.LockTime = int32(o.A%4), uint32(o.V)
		case "seq":
			exp.Ins[o.A].Seq = uint32(o.V)
		case "outkey":
			exp.Outs[o.A].KeyID = keyName("out", o.B)
		}
		matches("C03")
	case "addval":
		if o.A >= nOut {
			mustFail("C03", "the index is past the end")
			return
		}
		x := &exp.Outs[o.A]
		dust := ref.Dust(ref.OutSize(x.Script), before.DustRate)
		if x.Dust {
			if amount < dust {
				mustFail("C05", fmt.Sprintf("%d is below the dust limit %d", amount, dust))
				return
			}
			x.Dust, x.Value = false, amount
		} else {
			s := new(big.Int).Add(new(big.Int).SetUint64(x.Value), new(big.Int).SetUint64(amount))
			if !s.IsUint64() {
				t.Probe("addition past the largest amount asked for")
				mustFail("C05", fmt.Sprintf("%d + %d is not an amount any more", x.Value, amount))
				return
			}
			x.Value = s.Uint64()
			if x.Value > Supply && res.Err != nil {
				return // more than there can be
			}
		}
		mustWork("C05")
		if !n.over {
			matches("C05", "C03")
		}
	case "subval":
		if o.A >= nOut {
			mustFail("C03", "the index is past the end")
			return
		}
		x := &exp.Outs[o.A]
		dust := ref.Dust(ref.OutSize(x.Script), before.DustRate)
		left := new(big.Int).Sub(new(big.Int).SetUint64(x.Value), new(big.Int).SetUint64(amount))
		if left.Cmp(new(big.Int).SetUint64(dust)) < 0 {
			t.Probe("subtraction below the dust limit asked for")
			mustFail("C05", fmt.Sprintf("%d - %d is below the dust limit %d", x.Value, amount, dust))
			return
		}
		mustWork("C05")
		x.Value = left.Uint64()
		if !n.over {
			matches("C05", "C03")
		}
	case "setdust":
		if o.A >= nOut {
			mustFail("C03", "the index is past the end")
			return
		}
		mustWork("C05")
		exp.Outs[o.A].Dust = true
		exp.Outs[o.A].Value = ref.Dust(ref.OutSize(exp.Outs[o.A].Script), before.DustRate)
		if !n.over {
			matches("C05", "C03")
		}
	case "shuffle":
		n.judgeShuffle(o, before, obs, 0)
	case "shuffleafter":
		n.judgeShuffle(o, before, obs, min(o.A+1, len(before.Outs)))
	case "break":
		for len(n.added) < len(obs.Outs) {
			n.added = append(n.added, 0)
		}
	case "fund", "fundbreak":
		if res.Err == nil {
			n.judgeFunded(o, obs)
		}
	case "adjust":
		n.judgeAdjust(o, res, before, obs)
	case "calcfee", "zerofee", "sign":
		n.noteAdded(before, obs)
	}
}

func (n *draftNode) judgeShuffle(o Op, before, obs *Model, keep int) {
	t := n.t
	t.Checks++
	exp := before.clone()
	exp.Outs = nil
	obs2 := obs.clone()
	obs2.Outs = nil
	if d := exp.diff(obs2); d != "" {
		n.bad("C06", "other", "shuffling outputs changed something else: %s", d)
		return
	}
	if len(before.Outs) != len(obs.Outs) {
		n.bad("C06", "count", "shuffling turned %d outputs into %d", len(before.Outs), len(obs.Outs))
		return
	}
	for i := 0; i < keep && i < len(before.Outs); i++ {
		if !before.Outs[i].eq(obs.Outs[i]) {
			n.bad("C06", "prefix", "output %d before the shuffled part became %s, was %s", i, obs.Outs[i], before.Outs[i])
			return
		}
	}
	used := make([]bool, len(before.Outs))
	for i := 0; i < keep && i < len(before.Outs); i++ {
		used[i] = true
	}
	added := make([]int8, len(before.Outs))
	copy(added, n.added[:keep])
	moved := false
	for i := keep; i < len(obs.Outs); i++ {
		found := -1
		for j := range before.Outs {
			if !used[j] && before.Outs[j].eq(obs.Outs[i]) {
				found = j
				break
			}
		}
		if found < 0 {
			n.bad("C06", "permutation", "after shuffling (outputs after %d) output %d is %s which was not there; before: %v", keep-1, i, obs.Outs[i], before.Outs)
			return
		}
		used[found] = true
		added[i] = n.added[found]
		if found != i {
			moved = true
		}
	}
	for i := keep; i < len(obs.Outs); i++ {
		for j := keep; j < i; j++ {
			if added[i] != added[j] && obs.Outs[i].eq(obs.Outs[j]) {
				added[i], added[j] = 2, 2 // alike, so it is not known which is which
			}
		}
	}
	n.added = added
	n.shuffled = true
	if moved {
		t.Probe("shuffle moved outputs")
	}
	t.Fault("random shuffle order")
	n.spread(keep, obs)
}

// spread shuffles copies of the draft again and again and requires that every output that may move
// does so sometime.
func (n *draftNode) spread(keep int, m *Model) {
	t := n.t
	if !t.On("C06") || len(m.Outs)-keep < 6 || len(m.Outs) > 20 {
		return
	}
	for i := range m.Outs {
		for j := keep; j < i; j++ {
			if m.Outs[i].eq(m.Outs[j]) {
				return
			}
		}
	}
	t.Probe("repeated shuffles of copies")
	stuck := make([]bool, len(m.Outs))
	for i := keep; i < len(stuck); i++ {
		stuck[i] = true
	}
	for k := int64(0); k < 12; k++ {
		var o *Model
		t.Lib("shuffling a copy", func() {
			c := n.tx.Copy()
			e := simrt.NewEnv(n.p.Seed*16 + k)
			simrt.SetEnv(e)
			if keep == 0 {
				c.RandomizeOutputs()
			} else {
				c.RandomizeOutputsAfter(keep - 1)
			}
			o, _ = observe(&c)
		})
		if len(o.Outs) != len(m.Outs) {
			return
		}
		for i := range stuck {
			stuck[i] = stuck[i] && o.Outs[i].eq(m.Outs[i])
		}
	}
	for i := keep; i < len(stuck); i++ {
		t.Check(!stuck[i], "stuck", "in 12 shuffles of %d outputs (those after %d) output %d never moved", len(m.Outs), keep-1, i)
	}
}

// noteAdded records a change output that a fee operation appended.
func (n *draftNode) noteAdded(before, obs *Model) {
	switch d := len(obs.Outs) - len(before.Outs); {
	case d == 1:
		n.added = append(n.added, 1)
	case d == -1:
		at, known := -1, true
		for i, x := range before.Outs {
			if x.Rem && n.added[i] != 0 {
				known = known && at < 0
				at = i
			}
		}
		if known && at >= 0 {
			n.added = append(append([]int8{}, n.added[:at]...), n.added[at+1:]...)
			return
		}
		n.added = unknownMarks(len(obs.Outs))
	case d == 0:
		for i, x := range obs.Outs {
			if b := before.Outs[i]; b.Rem != x.Rem || b.KeyID != x.KeyID || !bytes.Equal(b.Script, x.Script) {
				n.added = unknownMarks(len(obs.Outs))
				return
			}
		}
	}
}

func unknownMarks(n int) []int8 {
	l := make([]int8, n)
	for i := range l {
		l[i] = 2
	}
	return l
}

// judgeAdjust predicts an explicit fee adjustment. After a shuffle this shows whether the marks
// moved together with their outputs.
func (n *draftNode) judgeAdjust(o Op, res Result, before, obs *Model) {
	t := n.t
	amount := int64(o.V) - int64(o.A)
	at := -1
	for i, x := range before.Outs {
		if x.Rem {
			at = i
			break
		}
	}
	if at < 0 || amount == 0 {
		n.noteAdded(before, obs)
		return
	}
	exp := before.clone()
	x := &exp.Outs[at]
	removed := false
	if amount < 0 {
		x.Value += uint64(-amount)
	} else if x.Value >= uint64(amount) {
		x.Value -= uint64(amount)
		known := false
		var cost uint64
		for _, l := range knownLocks() {
			if bytes.Equal(l.Script, x.Script) {
				cost, known = outFee(l, before.Rate)+inFee(l, before.Rate), true
			}
		}
		if !known {
			n.resyncAdded(before, obs, at)
			return
		}
		if x.Value < cost {
			if n.added[at] == 2 {
				n.resyncAdded(before, obs, at)
				return
			}
			if n.added[at] == 0 {
				if res.Err == nil && t.On("C06") && n.shuffled {
					t.Fail("marks", "after a shuffle a fee increase took output %d below its cost without error", at)
				}
				// the amount of a refused adjustment is not specified
				if len(obs.Outs) == len(before.Outs) {
					return
				}
			} else {
				removed = true
				exp.Outs = append(exp.Outs[:at:at], before.Outs[at+1:]...)
			}
		}
	}
	t.Checks++
	d := exp.diff(obs)
	if d != "" && n.shuffled && t.On("C06") {
		t.Fail("marks", "after a shuffle a fee adjustment of %d did not treat output %d according to its marks: %s", amount, at, d)
	}
	if removed && d == "" {
		t.Probe("fee-added change removed")
		n.added = append(append([]int8{}, n.added[:at]...), n.added[at+1:]...)
	}
}

func (n *draftNode) resyncAdded(before, obs *Model, at int) {
	if len(obs.Outs) == len(before.Outs)-1 {
		n.added = append(append([]int8{}, n.added[:at]...), n.added[at+1:]...)
	}
}

var knownLocksCache []ref.Lock

// knownLocks are the scripts whose spending cost the oracle knows.
func knownLocks() []ref.Lock {
	if knownLocksCache == nil {
		for i := 0; i < 40; i++ {
			knownLocksCache = append(knownLocksCache, ref.NewP2PKH(i), ref.NewP2PK(i))
		}
	}
	return knownLocksCache
}

// judgeFunded checks that skipped coins were not counted as value.
func (n *draftNode) judgeFunded(o Op, obs *Model) {
	in, out := uint64(0), uint64(0)
	var locks []ref.Lock
	for _, x := range obs.Ins {
		in += x.Value
		for _, c := range n.coins {
			if c.Hash == x.Hash && c.Index == x.Index && bytes.Equal(c.Lock.Script, x.Script) {
				if c.Lock.MaxUnlock() < 0 {
					return
				}
				locks = append(locks, c.Lock)
				break
			}
		}
	}
	for _, x := range obs.Outs {
		out += x.Value
	}
	n.t.Probe("funding succeeded")
	n.t.Checks++
	fee := ref.Fee(ref.MaxSize(locks, n.tx.MsgTx.TxOut), obs.Rate)
	if in < out+fee {
		n.bad("C04", "counted", "%s succeeded with inputs %d for outputs %d and fee %d (offered coins %v)", o.K, in, out, fee, o.C)
	}
}

func init() {
	for id, rule := range map[string]string{
		"C03": "edits of all kinds, a few funding, fee and signing calls in between",
		"C04": "mostly coin operations on few coins, several of which share their transaction or index",
		"C05": "mostly value operations with amounts around zero, the dust limit, the current amount and the amount above the dust limit",
		"C06": "mostly output operations, shuffles and fee adjustments",
	} {
		drv.Register(&drv.Prop{ID: id, Gen: genDraft(id), New: func() any { return &draftPlan{} }, Exec: execDraft,
			Quick: 40000, Thorough: 800000, Chunk: 1000,
			World: "draft service: three editors with stale views, faulty network, node that crashes and replays its log",
			Rule:  "a run is a history of up to 30 (thorough 60) requests (" + rule + ") under message loss, repetition, delay, reordering, lost replies and crashes; two runs are distinct if the sequence of (operation, accepted or refused, number of inputs and outputs) differs; a run is non-trivial if at least one operation was accepted",
			Real:  realLib, Stubs: []string{"network between editors and node", "log disk of the node", "clock", "random source"},
			Assume: []string{"indices are not negative", "amounts up to the money supply (C05: up to 2^64)", "the node processes one request at a time"}})
	}
}
