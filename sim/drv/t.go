package drv

import (
	"encoding/binary"
	"fmt"
	"runtime"
	"runtime/debug"
	"strings"
	"time"

	"verifsim/simrt"
)

// Violation is a broken property.
type Violation struct {
	Prop string `json:"property"`
	Kind string `json:"kind"`
	Msg  string `json:"message"`
}

// T observes one run.
type T struct {
	Prop string

	Faults  map[string]int
	Probes  map[string]int
	States  map[uint64]struct{}
	Checks  int
	SimTime time.Duration
	Ops     int
	Log     []string // kept only when KeepLog is set
	KeepLog bool

	hash       uint64
	loose      bool
	shape      uint64
	nontrivial bool
	viol       *Violation
}

type stop struct{}

// HarnessError is an error of the simulator itself.
type HarnessError struct {
	Err   any
	Stack string
}

func NewT(prop string) *T {
	return &T{Prop: prop, Faults: map[string]int{}, Probes: map[string]int{}, States: map[uint64]struct{}{},
		hash: 14695981039346656037, shape: 14695981039346656037}
}

func fnv(h uint64, b []byte) uint64 {
	for _, c := range b {
		h ^= uint64(c)
		h *= 1099511628211
	}
	return h
}

// HashBytes is the hash used for states.
func HashBytes(b []byte) uint64 { return fnv(14695981039346656037, b) }

// Trace adds an observation to the trace of the run.
func (t *T) Trace(format string, a ...any) {
	s := fmt.Sprintf(format, a...)
	t.hash = fnv(t.hash, []byte(s))
	t.hash = fnv(t.hash, []byte{0})
	if t.KeepLog {
		t.Log = append(t.Log, s)
	}
}

// TraceBytes adds raw bytes to the trace.
func (t *T) TraceBytes(b []byte) { t.hash = fnv(t.hash, b) }

// Shape adds to the abstract history of the run (operation kinds, outcomes, deliveries), the
// measure by which runs are counted as distinct.
func (t *T) Shape(s string) {
	t.shape = fnv(t.shape, []byte(s))
	t.shape = fnv(t.shape, []byte{0})
}

// ShapeInt adds a number to the abstract history.
func (t *T) ShapeInt(n int) {
	var b [8]byte
	binary.LittleEndian.PutUint64(b[:], uint64(n))
	t.shape = fnv(t.shape, b[:])
}

func (t *T) State(h uint64)    { t.States[h] = struct{}{} }
func (t *T) Fault(kind string) { t.Faults[kind]++ }
func (t *T) Probe(name string) { t.Probes[name]++ }
func (t *T) NonTrivial()       { t.nontrivial = true }

// Loose marks a run whose order of events the simulator could not decide, because the code under
// test started several requests at one moment. Its trace is not compared.
func (t *T) Loose() { t.loose = true }

// Hash identifies the trace.
func (t *T) Hash() uint64 {
	if t.loose {
		return 0
	}
	return t.hash
}
func (t *T) ShapeHash() uint64     { return t.shape }
func (t *T) IsNonTrivial() bool    { return t.nontrivial }
func (t *T) Violation() *Violation { return t.viol }

// Fail records a violation of the property under check and ends the run.
func (t *T) Fail(kind, format string, a ...any) {
	msg := fmt.Sprintf(format, a...)
	t.Trace("FAIL %s %s", kind, msg)
	t.viol = &Violation{Prop: t.Prop, Kind: kind, Msg: msg}
	panic(stop{})
}

// Check fails the run if cond is false.
func (t *T) Check(cond bool, kind, format string, a ...any) {
	t.Checks++
	if !cond {
		t.Fail(kind, format, a...)
	}
}

// On reports whether the property under check is one of ids.
func (t *T) On(ids ...string) bool {
	for _, id := range ids {
		if t.Prop == id {
			return true
		}
	}
	return false
}

// Lib calls into the code under test. A crash or an endless loop there fails the run.
func (t *T) Lib(name string, f func()) {
	if p := t.Try(f); p != nil {
		if h, ok := p.(simrt.HangError); ok {
			t.Fail("hang", "%s does not terminate (%s)", name, h.Error())
		}
		t.Fail("panic", "%s crashed: %v", name, p)
	}
}

// Try calls into the code under test and returns the panic value, nil if there was none.
func (t *T) Try(f func()) (p any) {
	t.Ops++
	simrt.ResetSteps()
	defer func() {
		if r := recover(); r != nil {
			if _, ok := r.(stop); ok {
				panic(r)
			}
			p = r
		}
	}()
	f()
	return nil
}

// Run executes fn and returns the observer. Errors of the harness are returned separately.
func Run(prop string, keepLog bool, fn func(*T)) (t *T, herr *HarnessError) {
	t = NewT(prop)
	t.KeepLog = keepLog
	simrt.ResetSteps()
	defer func() {
		if r := recover(); r != nil {
			if _, ok := r.(stop); ok {
				return
			}
			// The observers read what the library left behind. They do not crash unless that is
			// inconsistent.
			if e, ok := r.(runtime.Error); ok {
				t.viol = &Violation{Prop: prop, Kind: "panic", Msg: fmt.Sprintf("using or reading the transaction crashed: %v", e)}
				return
			}
			if h, ok := r.(simrt.HangError); ok {
				t.viol = &Violation{Prop: prop, Kind: "hang", Msg: h.Error()}
				return
			}
			herr = &HarnessError{Err: fmt.Sprint(r), Stack: trimStack(string(debug.Stack()))}
		}
	}()
	fn(t)
	return t, nil
}

func trimStack(s string) string {
	l := strings.Split(s, "\n")
	if len(l) > 60 {
		l = l[:60]
	}
	return strings.Join(l, "\n")
}
