// Package tool is the world of the command line tool: the real main function runs against a
// simulated chain and a simulated chain data service behind real TLS and HTTP, on a simulated clock.
package tool

import (
	"verifsim/drv"
	"verifsim/ref"
)

// Commands of the tool.
const (
	cmdSend = iota
	cmdSends
	cmdConsolidate
	nCmds
)

// Stages at which a connection is disturbed.
const (
	dialOK = iota
	dialRefuse
	dialStall
	dialNoHost
	nDial
)

const (
	tlsOK = iota
	tlsStall
	tlsClose
	tlsReset
	tlsGarbage
	tlsUntrusted
	tlsWrongName
	tlsExpired
	tlsSlow
	tlsStallMid
	nTLS
)

const (
	httpOK = iota
	httpStall
	httpStallHead
	httpReset
	httpGarbage
	httpStatus
	httpRedirect
	httpRedirectLoop
	httpRedirectHost
	httpRedirectNowhere
	httpStallBody
	httpShort      // ends before the announced length
	httpShortChunk // chunked body without its end
	httpShortOpen  // truncated and closed cleanly, no length announced
	httpTrickle
	httpEndless
	httpEndlessHead
	httpInformational
	httpEmpty
	httpPage
	httpNotGzip
	httpResetBody
	httpOtherTx
	httpFlipped
	httpValueChanged
	httpScriptChanged
	httpTrailing
	httpHugeCount
	httpRepeat
	httpNull
	httpObject
	httpWrongTypes
	httpChunked
	nHTTP
)

var (
	dialNames = []string{"", "refused", "connect stalls", "no such host"}
	tlsNames  = []string{"", "handshake stalls", "closed in handshake", "reset in handshake", "garbage in handshake",
		"untrusted certificate", "certificate of another name", "expired certificate", "slow handshake",
		"handshake stalls half way"}
	httpNames = []string{"", "no answer", "header stalls", "reset before answer", "garbage instead of http", "error status",
		"redirect", "redirect loop", "redirect to another host", "redirect without target", "body stalls", "body cut short",
		"chunked body cut short", "body cut without length", "body trickles", "endless body", "endless header",
		"informational responses", "empty body", "page instead of data", "broken compression", "reset in body",
		"another transaction", "bit flipped", "value changed", "script changed", "trailing bytes", "huge count",
		"coin repeated", "null report", "object instead of list", "wrong types", "chunked"}
	statuses  = []int{400, 401, 404, 404, 429, 429, 500, 502, 503, 504, 304, 300}
	feeRates  = []string{"", "0.05", "0.5", "1", "0.25", "0.01", "2", "23.5"}
	dustRates = []string{"", "0", "0.25", "1", "0.05"}
)

// Conn is the behaviour of the service towards one connection.
type Conn struct {
	Dial int `json:"dial"`
	TLS  int `json:"tls"`
	HTTP int `json:"http"`
	Lat  int `json:"lat"` // milliseconds before the connection is there
	Wait int `json:"wait"`
	Gap  int `json:"gap"`
	Arg  int `json:"arg"`

	again bool // a further request on an open connection
}

// Out is an output of a transaction on the chain.
type Out struct {
	Kind  int    `json:"kind"` // 0 own key hash, 1 own key, 2 somebody else
	Value uint64 `json:"value"`
}

// Cmd is one run of the tool.
type Cmd struct {
	Kind   int    `json:"kind"`
	Coins  []int  `json:"coins"`
	Spoil  int    `json:"spoil"` // damages the arguments: 1 coin twice, 2 index too high, 3 unknown transaction, 4 bad address, 5 bad key, 6 bad amount, 7 bad outpoint, 8 arguments missing, 9 bad configuration
	To     int    `json:"to"`    // 0 somebody else, 1 the sender, 2 and 3 other forms of the recipient
	Mode   int    `json:"mode"`  // 0 the amount as given, 1 total minus fee plus the amount, 2 negative, 3 nothing
	Amount int    `json:"amount"`
	Count  int    `json:"count"`
	Conns  []Conn `json:"conns"`
}

// Plan is a run of the world.
type Plan struct {
	Test bool    `json:"test"`
	Rate int     `json:"rate"`
	Dust int     `json:"dust"`
	Key  int     `json:"key"`
	Txs  [][]Out `json:"txs"`
	Pad  int     `json:"pad,omitempty"`  // data outputs before the others in the first transaction
	Long int     `json:"long,omitempty"` // size of a data output at the end of the first transaction
	Lots int     `json:"lots,omitempty"` // small coins of the sender in a further transaction
	Cmds []Cmd   `json:"cmds"`
}

func genConn(r *drv.R, bad bool) Conn {
	c := Conn{Lat: r.Range(1, 250), Wait: r.Range(1, 300), Gap: r.Range(0, 120), Arg: r.Intn(1 << 16)}
	if r.P(1, 12) {
		c.HTTP = httpChunked
	}
	if !bad {
		return c
	}
	if r.P(1, 4) { // slow
		c.Lat = r.Range(1, 6000)
		c.Wait = r.Range(1, 11000)
		c.Gap = r.Range(0, 4000)
	}
	switch r.Pick(2, 3, 9, 1) {
	case 0:
		c.Dial = r.Range(1, nDial-1)
	case 1:
		c.TLS = r.Range(1, nTLS-1)
	case 2:
		c.HTTP = r.Range(1, nHTTP-1)
	}
	return c
}

func gen(prop string) func(r *drv.R, thorough bool) any {
	return func(r *drv.R, thorough bool) any {
		p := &Plan{Test: r.P(1, 3), Rate: r.Intn(len(feeRates)), Dust: r.Intn(len(dustRates)), Key: r.Intn(3)}
		kind := func() int {
			switch prop {
			case "C21":
				return cmdSend
			case "C22":
				return cmdSends
			case "C23":
				return cmdConsolidate
			}
			return r.Intn(nCmds)
		}
		rate := parseRate(feeRates[p.Rate], 0.05)
		unit := ref.Fee(193, rate)
		ntx := r.Range(1, 4)
		for i := 0; i < ntx; i++ {
			var outs []Out
			for n := r.Range(1, 4); n > 0; n-- {
				o := Out{Kind: r.Pick(14, 3, 1)}
				switch r.Pick(4, 4, 2, 1) {
				case 0:
					o.Value = r.Log(2_000_000)
				case 1: // a few fees
					o.Value = unit*uint64(r.Range(1, 14)) + uint64(r.Intn(60))
				case 2:
					o.Value = uint64(r.Range(1, 400))
				case 3:
					o.Value = r.Log(5_000_000_000_000)
				}
				outs = append(outs, o)
			}
			p.Txs = append(p.Txs, outs)
		}
		if r.P(1, 15) {
			p.Pad = r.Range(248, 258)
		}
		if prop == "C23" && r.P(1, 60) {
			p.Lots = r.Range(248, 258)
			if r.P(1, 12) {
				p.Lots = r.Range(500, 1100)
			}
		}
		if r.P(1, 60) {
			p.Long = r.Range(20000, 80000)
		}
		n := 1
		if r.P(1, 3) {
			n = r.Range(2, 3)
		}
		badp := r.Pick(4, 3, 3) // the share of disturbed connections in this run
		for i := 0; i < n; i++ {
			c := Cmd{Kind: kind(), Count: r.Range(1, 9), To: r.Pick(6, 2, 2, 1)}
			for k := r.Pick(0, 6, 4, 3, 2); k > 0; k-- {
				c.Coins = append(c.Coins, r.Intn(16))
			}
			if r.P(1, 10) {
				c.Spoil = r.Range(1, 9)
			}
			switch r.Pick(10, 10, 2, 1) {
			case 0:
				c.Amount = int(r.Log(200_000))
				if r.P(1, 6) {
					c.Amount = int(r.Log(5_000_000_000_000))
				}
			case 1:
				c.Mode = 1
				c.Amount = r.Range(-80, 20)
			case 2:
				c.Mode = 2
				c.Amount = int(r.Log(5000))
			case 3:
				c.Mode = 3
			}
			if r.P(1, 4) {
				c.Count = r.Range(1, 20)
				if r.P(1, 12) {
					c.Count = r.Range(21, 120)
				}
			} else if r.P(1, 15) {
				c.Count = -r.Intn(4)
			}
			for k := 0; k < 6; k++ {
				c.Conns = append(c.Conns, genConn(r, r.P([]int{0, 1, 3}[badp], 4)))
			}
			p.Cmds = append(p.Cmds, c)
		}
		return p
	}
}

func init() {
	common := drv.Prop{
		New:      func() any { return &Plan{} },
		Exec:     exec,
		Quick:    10000,
		Thorough: 150000,
		Chunk:    500,
		Rule:     "a run counts once for the sequence of commands, the stage and kind of every disturbance, and the kind of outcome of every command",
		World:    "One to three runs of the real main function of the tool, one after the other, against a chain that grows by what they print, and a chain data service whose every connection follows the plan.",
		Real:     []string{"cmd (the real main function)", "txbuilder", "net/http client", "crypto/tls on both ends", "config, logger, arc/pkg/tef, pkg/bitcoin, pkg/wire"},
		Stubs:    []string{"outgoing connections (standard library dialer replaced by in-memory connections)", "clock (testing/synctest)", "name resolution", "the chain and the chain data service", "os.Exit ends the simulated run instead of the process"},
		Assume: []string{"the certificate authorities of the system are replaced by a test authority",
			"delays are chosen so that no two events coincide with a deadline",
			"the service never reports unspent coins that do not exist on the chain with the reported amount; such a report cannot be recognised by the tool"},
	}
	for _, id := range []string{"C20", "C21", "C22", "C23"} {
		p := common
		p.ID = id
		p.Gen = gen(id)
		drv.Register(&p)
	}
}
