package tool

import (
	"bufio"
	"bytes"
	"context"
	"crypto/ed25519"
	"crypto/sha256"
	"crypto/tls"
	"crypto/x509"
	"crypto/x509/pkix"
	"encoding/hex"
	"encoding/json"
	"encoding/pem"
	"errors"
	"fmt"
	"io"
	"math/big"
	"net"
	"net/http"
	"os"
	"path/filepath"
	"strings"
	"sync"
	"syscall"
	"time"

	"verifsim/ref"

	"github.com/tokenized/pkg/bitcoin"
	"github.com/tokenized/pkg/wire"
)

const host = "api.whatsonchain.com"

// ---------------------------------------------------------------- certificates

type certs struct {
	good, untrusted, wrongName, expired tls.Certificate
}

func seedKey(name string) ed25519.PrivateKey {
	s := sha256.Sum256([]byte("simulated certificate " + name))
	return ed25519.NewKeyFromSeed(s[:])
}

type zeroReader struct{}

func (zeroReader) Read(b []byte) (int, error) {
	for i := range b {
		b[i] = 7
	}
	return len(b), nil
}

// makeCerts creates the certificates and installs the authority as the only one of the system.
func makeCerts(dir string) (*certs, error) {
	from, to := time.Date(1990, 1, 1, 0, 0, 0, 0, time.UTC), time.Date(2100, 1, 1, 0, 0, 0, 0, time.UTC)
	serial := int64(0)
	issue := func(name, dns string, ca *x509.Certificate, cakey ed25519.PrivateKey, from, to time.Time) (*x509.Certificate, ed25519.PrivateKey, error) {
		serial++
		key := seedKey(name)
		t := &x509.Certificate{SerialNumber: big.NewInt(serial), Subject: pkix.Name{CommonName: name}, NotBefore: from, NotAfter: to,
			KeyUsage: x509.KeyUsageDigitalSignature, BasicConstraintsValid: true}
		if dns == "" {
			t.IsCA = true
			t.KeyUsage = x509.KeyUsageCertSign
		} else {
			t.DNSNames = []string{dns}
			t.ExtKeyUsage = []x509.ExtKeyUsage{x509.ExtKeyUsageServerAuth}
		}
		if ca == nil {
			ca, cakey = t, key
		}
		der, err := x509.CreateCertificate(zeroReader{}, t, ca, key.Public(), cakey)
		if err != nil {
			return nil, nil, err
		}
		c, err := x509.ParseCertificate(der)
		return c, key, err
	}
	ca, caKey, err := issue("authority", "", nil, nil, from, to)
	if err != nil {
		return nil, err
	}
	bad, badKey, err := issue("unknown authority", "", nil, nil, from, to)
	if err != nil {
		return nil, err
	}
	r := &certs{}
	for _, x := range []struct {
		dst  *tls.Certificate
		dns  string
		ca   *x509.Certificate
		key  ed25519.PrivateKey
		till time.Time
	}{
		{&r.good, host, ca, caKey, to},
		{&r.untrusted, host, bad, badKey, to},
		{&r.wrongName, "somewhere.example", ca, caKey, to},
		{&r.expired, host, ca, caKey, from.AddDate(1, 0, 0)},
	} {
		c, k, err := issue("server "+x.dns, x.dns, x.ca, x.key, from, x.till)
		if err != nil {
			return nil, err
		}
		*x.dst = tls.Certificate{Certificate: [][]byte{c.Raw}, PrivateKey: k}
	}
	file := filepath.Join(dir, fmt.Sprintf("authority-%d.pem", os.Getpid()))
	b := pem.EncodeToMemory(&pem.Block{Type: "CERTIFICATE", Bytes: ca.Raw})
	if err := os.WriteFile(file, b, 0o644); err != nil {
		return nil, err
	}
	os.Setenv("SSL_CERT_FILE", file)
	os.Setenv("SSL_CERT_DIR", dir+"/none")
	return r, nil
}

// ---------------------------------------------------------------- chain

type coin struct {
	tx    bitcoin.Hash32
	index uint32
	value uint64
	lock  ref.Lock
}

type chain struct {
	txs   map[bitcoin.Hash32]*wire.MsgTx
	order []bitcoin.Hash32
	coins []coin // unspent
	locks map[string]ref.Lock
}

func (c *chain) know(l ref.Lock) ref.Lock {
	c.locks[string(l.Script)] = l
	return l
}

func (c *chain) add(tx *wire.MsgTx) {
	id := ref.TxID(tx)
	c.txs[id] = tx
	c.order = append(c.order, id)
	for _, in := range tx.TxIn {
		for i, o := range c.coins {
			if o.tx == in.PreviousOutPoint.Hash && o.index == in.PreviousOutPoint.Index {
				c.coins = append(c.coins[:i:i], c.coins[i+1:]...)
				break
			}
		}
	}
	for i, out := range tx.TxOut {
		if bytes.HasPrefix(out.LockingScript, []byte{0x00, 0x6a}) {
			continue // data
		}
		l, ok := c.locks[string(out.LockingScript)]
		if !ok {
			l = ref.Lock{Kind: ref.Other, Script: out.LockingScript}
		}
		c.coins = append(c.coins, coin{id, uint32(i), out.Value, l})
	}
}

func (c *chain) find(o wire.OutPoint) *coin {
	for i := range c.coins {
		if c.coins[i].tx == o.Hash && c.coins[i].index == o.Index {
			return &c.coins[i]
		}
	}
	return nil
}

func hashText(h []byte) string {
	b := make([]byte, len(h))
	for i := range h {
		b[len(h)-1-i] = h[i]
	}
	return hex.EncodeToString(b)
}

type unspent struct {
	Height int    `json:"height"`
	Pos    uint32 `json:"tx_pos"`
	Hash   string `json:"tx_hash"`
	Value  uint64 `json:"value"`
}

func (c *chain) unspent(script []byte) []unspent {
	r := []unspent{}
	for i, o := range c.coins {
		if bytes.Equal(o.lock.Script, script) {
			height := 0 // not in a block yet
			if (int(o.tx[0])+i)%4 != 0 {
				height = 800000 + i
			}
			r = append(r, unspent{height, o.index, hashText(o.tx[:]), o.value})
		}
	}
	return r
}

// ---------------------------------------------------------------- service

var errOver = errors.New("simulation over")

type service struct {
	certs *certs
	chain *chain
	net   string
	conns []Conn

	mu      sync.Mutex
	n       int // behaviours used
	used    []Conn
	served  []string // paths asked for
	unknown []string // paths that do not exist
	report  [][]unspent
	open    []io.Closer
	stop    chan struct{}
	last    time.Time // of the last connection
	several bool      // two connections were asked for at one moment
}

// take returns the next behaviour. A further request on an open connection meets only the part of
// it that concerns the answer.
func (s *service) take(open bool) Conn {
	s.mu.Lock()
	defer s.mu.Unlock()
	c := Conn{Lat: 20, Wait: 30}
	if s.n < len(s.conns) {
		c = s.conns[s.n]
	}
	if open {
		c.Dial, c.TLS, c.again = dialOK, tlsOK, true
	}
	if now := time.Now(); !open {
		s.several = s.several || now.Equal(s.last)
		s.last = now
	}
	s.n++
	s.used = append(s.used, c)
	return c
}

// tick makes sure that the sum of a few delays never meets a deadline in whole milliseconds.
const tick = 137 * time.Microsecond

func (s *service) sleep(ms int) bool {
	if ms < 0 {
		ms = 0
	}
	t := time.NewTimer(time.Duration(ms)*time.Millisecond + tick)
	defer t.Stop()
	select {
	case <-t.C:
		return true
	case <-s.stop:
		return false
	}
}

func (s *service) track(c io.Closer) {
	s.mu.Lock()
	s.open = append(s.open, c)
	s.mu.Unlock()
}

func (s *service) close() {
	close(s.stop)
	s.mu.Lock()
	l := s.open
	s.mu.Unlock()
	for _, c := range l {
		c.Close()
	}
}

type timeoutError struct{}

func (timeoutError) Error() string   { return "i/o timeout" }
func (timeoutError) Timeout() bool   { return true }
func (timeoutError) Temporary() bool { return true }

type addr string

func (a addr) Network() string { return "tcp" }
func (a addr) String() string  { return string(a) }

// conn is the client's end. It turns the end of the pipe into a reset where the plan says so.
type conn struct {
	net.Conn
	mu    sync.Mutex
	reset bool
	peer  addr
}

func (c *conn) fix(err error) error {
	c.mu.Lock()
	defer c.mu.Unlock()
	if err != nil && c.reset {
		return &net.OpError{Op: "read", Net: "tcp", Addr: c.peer, Err: os.NewSyscallError("read", syscall.ECONNRESET)}
	}
	if err == io.ErrClosedPipe {
		return &net.OpError{Op: "write", Net: "tcp", Addr: c.peer, Err: os.NewSyscallError("write", syscall.EPIPE)}
	}
	return err
}

func (c *conn) Read(b []byte) (int, error) {
	n, err := c.Conn.Read(b)
	return n, c.fix(err)
}

func (c *conn) Write(b []byte) (int, error) {
	n, err := c.Conn.Write(b)
	return n, c.fix(err)
}

func (c *conn) RemoteAddr() net.Addr { return c.peer }
func (c *conn) LocalAddr() net.Addr  { return addr("10.0.0.1:40000") }

func (s *service) dial(ctx context.Context, network, address string) (net.Conn, error) {
	b := s.take(false)
	fail := func(err error) error { return &net.OpError{Op: "dial", Net: network, Addr: addr(address), Err: err} }
	wait := func(d <-chan time.Time) error {
		select {
		case <-d:
			return nil
		case <-ctx.Done():
			if ctx.Err() == context.DeadlineExceeded {
				return fail(timeoutError{})
			}
			return fail(ctx.Err())
		case <-s.stop:
			return fail(errOver)
		}
	}
	if b.Dial == dialStall {
		return nil, wait(nil)
	}
	t := time.NewTimer(time.Duration(b.Lat)*time.Millisecond + tick)
	defer t.Stop()
	if err := wait(t.C); err != nil {
		return nil, err
	}
	switch b.Dial {
	case dialRefuse:
		return nil, fail(os.NewSyscallError("connect", syscall.ECONNREFUSED))
	case dialNoHost:
		return nil, fail(&net.DNSError{Err: "no such host", Name: address, IsNotFound: true})
	}
	a, p := newPipe()
	c := &conn{Conn: a, peer: addr(address)}
	s.track(a)
	s.track(p)
	go s.serve(c, p, b, address)
	return c, nil
}

// paced delays every write of the server.
type paced struct {
	net.Conn
	s    *service
	ms   int
	left int // writes before it stalls, negative for never
}

func (p *paced) Write(b []byte) (int, error) {
	if p.left == 0 {
		<-p.s.stop
		return 0, errOver
	}
	if p.left > 0 {
		p.left--
	}
	if p.ms > 0 && !p.s.sleep(p.ms) {
		return 0, errOver
	}
	return p.Conn.Write(b)
}

func (s *service) serve(client *conn, p net.Conn, b Conn, address string) {
	defer p.Close()
	reset := func() {
		client.mu.Lock()
		client.reset = true
		client.mu.Unlock()
		p.Close()
	}
	drain := func() { // a peer that takes everything and never answers
		io.Copy(io.Discard, p)
		<-s.stop
	}
	if !strings.HasSuffix(address, ":443") { // plain text
		br := bufio.NewReader(p)
		if _, err := http.ReadRequest(br); err == nil {
			io.WriteString(p, "HTTP/1.1 404 Not Found\r\nContent-Length: 0\r\n\r\n")
		}
		return
	}
	cert := s.certs.good
	pc := &paced{Conn: p, s: s, left: -1}
	switch b.TLS {
	case tlsStall:
		drain()
		return
	case tlsClose:
		return
	case tlsReset:
		one := make([]byte, 1+b.Arg%200)
		p.Read(one)
		reset()
		return
	case tlsGarbage:
		go io.Copy(io.Discard, p)
		if !s.sleep(b.Wait) {
			return
		}
		fmt.Fprintf(p, "%x this is not a handshake\r\n\r\n", b.Arg)
		<-s.stop
		return
	case tlsUntrusted:
		cert = s.certs.untrusted
	case tlsWrongName:
		cert = s.certs.wrongName
	case tlsExpired:
		cert = s.certs.expired
	case tlsSlow:
		pc.ms = 300 + b.Wait
	case tlsStallMid:
		pc.left = 1 + b.Arg%2
	}
	tc := tls.Server(pc, &tls.Config{Certificates: []tls.Certificate{cert}, NextProtos: []string{"http/1.1"},
		SessionTicketsDisabled: true})
	if err := tc.Handshake(); err != nil {
		return
	}
	pc.ms = 0
	br := bufio.NewReader(tc)
	for first := true; ; first = false {
		req, err := http.ReadRequest(br)
		if err != nil {
			return
		}
		if !first {
			b = s.take(true)
		}
		if !s.answer(tc, req, b, reset) {
			return
		}
	}
}

// data returns what the service knows about a path.
func (s *service) data(path string, b Conn) (int, []byte) {
	s.mu.Lock()
	defer s.mu.Unlock()
	s.served = append(s.served, path)
	f := strings.Split(strings.TrimPrefix(path, "/"), "/")
	if len(f) == 6 && f[0] == "v1" && f[1] == "bsv" && f[2] == s.net && f[5] == "hex" && f[3] == "tx" {
		for _, id := range s.chain.order {
			if hashText(id[:]) == f[4] {
				tx := ref.CopyTx(s.chain.txs[id])
				raw := ref.Serialize(tx)
				switch b.HTTP {
				case httpOtherTx:
					raw = ref.Serialize(s.chain.txs[s.chain.order[b.Arg%len(s.chain.order)]])
				case httpFlipped:
					raw[b.Arg%len(raw)] ^= 1 << uint(b.Arg%8)
				case httpValueChanged:
					o := tx.TxOut[b.Arg%len(tx.TxOut)]
					o.Value += uint64(1 + b.Arg*1000)
					raw = ref.Serialize(tx)
				case httpScriptChanged:
					for _, o := range tx.TxOut {
						o.LockingScript = ref.NewP2PKH(b.Arg % 3).Script
					}
					raw = ref.Serialize(tx)
				case httpTrailing:
					raw = append(raw, byte(b.Arg), 1, 2)
				case httpHugeCount:
					at := 4
					if b.Arg%2 == 1 {
						at = len(raw) - 4 - 1
					}
					raw = append(raw[:at:at], 0xff, 0xff, 0xff, 0xff, 0xff, byte(b.Arg>>3), byte(b.Arg>>5), 0xff, byte(b.Arg))
				}
				return 200, []byte(hex.EncodeToString(raw))
			}
		}
		return 404, []byte("Not Found")
	}
	if len(f) == 6 && f[0] == "v1" && f[1] == "bsv" && f[2] == s.net && f[5] == "unspent" && f[3] == "script" {
		list := []unspent{}
		for _, l := range s.lockList() {
			h := sha256.Sum256(l.Script)
			if hashText(h[:]) == f[4] {
				list = s.chain.unspent(l.Script)
			}
		}
		if b.HTTP == httpRepeat && len(list) > 0 {
			x := list[b.Arg%len(list)]
			at := (b.Arg >> 4) % (len(list) + 1)
			list = append(list[:at:at], append([]unspent{x}, list[at:]...)...)
		}
		s.report = append(s.report, list)
		var body []byte
		if b.Arg%3 == 0 {
			body, _ = json.MarshalIndent(list, "", "\t")
		} else {
			body, _ = json.Marshal(list)
		}
		if b.Arg%5 == 0 { // fields the tool does not know
			body = bytes.ReplaceAll(body, []byte(`"tx_pos"`), []byte(`"isSpentInMempoolTx":false,"tx_pos"`))
		}
		switch b.HTTP {
		case httpNull:
			body = []byte("null")
		case httpObject:
			body = []byte(`{"result":` + string(body) + `,"error":""}`)
		case httpWrongTypes:
			body = bytes.ReplaceAll(body, []byte(`"value":`), []byte(`"value":"x`))
			body = bytes.ReplaceAll(body, []byte("}"), []byte(`"}`))
			if len(list) == 0 {
				body = []byte(`[1]`)
			}
		case httpFlipped:
			var at []int // structure, so that the report cannot be read
			for i, c := range body {
				if strings.IndexByte("[]{}:,\"", c) >= 0 {
					at = append(at, i)
				}
			}
			body[at[b.Arg%len(at)]] = '~'
		}
		return 200, body
	}
	s.unknown = append(s.unknown, path)
	return 404, []byte("404 page not found")
}

func (s *service) lockList() []ref.Lock {
	var r []ref.Lock
	for i := 0; i < 6; i++ {
		r = append(r, ref.NewP2PKH(i), ref.NewP2PK(i))
	}
	return r
}

// answer sends the response to a request. It returns false when the connection is over.
func (s *service) answer(c *tls.Conn, req *http.Request, b Conn, reset func()) bool {
	head := func(status int, extra string) string {
		return fmt.Sprintf("HTTP/1.1 %d %s\r\nDate: Sat, 01 Jan 2000 00:00:00 GMT\r\nContent-Type: text/plain\r\n%s\r\n",
			status, http.StatusText(status), extra)
	}
	length := func(n int) string { return fmt.Sprintf("Content-Length: %d\r\n", n) }
	if b.HTTP == httpStall {
		<-s.stop
		return false
	}
	if !s.sleep(b.Wait) {
		return false
	}
	status, body := s.data(req.URL.Path, b)
	cut := 0
	if len(body) > 0 {
		cut = b.Arg % len(body)
	}
	write := func(t string) bool {
		_, err := io.WriteString(c, t)
		return err == nil
	}
	redirect := func(to string) bool {
		code := []int{301, 302, 307, 308}[b.Arg%4]
		if to != "" {
			to = "Location: " + to + "\r\n"
		}
		return write(head(code, to+length(0)))
	}
	switch b.HTTP {
	case httpStallHead:
		h := head(status, length(len(body)))
		write(h[:1+b.Arg%(len(h)-1)])
		<-s.stop
		return false
	case httpReset:
		reset()
		return false
	case httpGarbage:
		write([]string{"\x00\x01\x02\r\n\r\n", "HTTP/9.9 abc\r\n\r\n", "hello\r\n\r\n", "HTTP/1.1 200 OK\r\nContent-Length: -5\r\n\r\n",
			"HTTP/1.1 200 OK\r\nContent-Length: 5\r\nContent-Length: 6\r\n\r\nabcdef"}[b.Arg%5])
		return false
	case httpStatus:
		st := statuses[b.Arg%len(statuses)]
		if st == 304 {
			return write(head(st, ""))
		}
		return write(head(st, length(len(body))) + string(body))
	case httpRedirect:
		return redirect(fmt.Sprintf("https://%s%s?again=%d", host, req.URL.Path, b.Arg))
	case httpRedirectLoop:
		s.mu.Lock()
		s.conns = nil
		for i := 0; i < s.n+40; i++ {
			s.conns = append(s.conns, b)
		}
		s.mu.Unlock()
		return redirect(req.URL.Path)
	case httpRedirectHost:
		return redirect([]string{"https://elsewhere.example", "http://" + host, "ftp://" + host}[b.Arg%3] + req.URL.Path)
	case httpRedirectNowhere:
		return redirect("")
	case httpStallBody:
		write(head(status, length(len(body)+1)) + string(body[:cut]))
		<-s.stop
		return false
	case httpResetBody:
		write(head(status, length(len(body)+1)) + string(body[:cut]))
		reset()
		return false
	case httpShort:
		write(head(status, length(len(body)+1+b.Arg%7)) + string(body[:cut]))
		c.CloseWrite()
		return false
	case httpShortChunk:
		write(head(status, "Transfer-Encoding: chunked\r\n") + fmt.Sprintf("%x\r\n%s\r\n", len(body[:cut])+1, string(body[:cut])+"0"))
		c.CloseWrite()
		return false
	case httpShortOpen:
		write(head(status, "Connection: close\r\n") + string(body[:cut]))
		c.CloseWrite()
		return false
	case httpTrickle:
		if !write(head(status, length(len(body)))) {
			return false
		}
		step := 1 + b.Arg%9
		for i := 0; i < len(body); i += step {
			if !s.sleep(1 + b.Gap) {
				return false
			}
			e := i + step
			if e > len(body) {
				e = len(body)
			}
			if !write(string(body[i:e])) {
				return false
			}
		}
		return true
	case httpEndless:
		if !write(head(status, "Connection: close\r\n")) {
			return false
		}
		junk := strings.Repeat("00", 2048)
		for s.sleep(40 + b.Gap) {
			if !write(junk) {
				return false
			}
		}
		return false
	case httpEndlessHead:
		if !write("HTTP/1.1 200 OK\r\n") {
			return false
		}
		for i := 0; s.sleep(40 + b.Gap); i++ {
			if !write(fmt.Sprintf("X-Filler-%d: %s\r\n", i, strings.Repeat("y", 300))) {
				return false
			}
		}
		return false
	case httpInformational:
		for i := 0; i < 3+b.Arg%200 && s.sleep(10+b.Gap); i++ {
			if !write("HTTP/1.1 103 Early Hints\r\nLink: </x>\r\n\r\n") {
				return false
			}
		}
	case httpEmpty:
		return write(head(status, length(0)))
	case httpPage:
		page := "<html><body>Too many requests</body></html>"
		return write(head(200, length(len(page))) + page)
	case httpNotGzip:
		return write(head(status, "Content-Encoding: gzip\r\n"+length(len(body))) + string(body))
	case httpChunked:
		if !write(head(status, "Transfer-Encoding: chunked\r\n")) {
			return false
		}
		for i := 0; i < len(body); {
			e := i + max(20+b.Arg%97, len(body)/40)
			if e > len(body) {
				e = len(body)
			}
			if !s.sleep(b.Gap/8) || !write(fmt.Sprintf("%x\r\n%s\r\n", e-i, body[i:e])) {
				return false
			}
			i = e
		}
		return write("0\r\n\r\n")
	}
	return write(head(status, length(len(body))) + string(body))
}
