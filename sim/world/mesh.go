package world

import (
	"time"

	"verifsim/drv"
)

// Crash takes a party down for a while. It comes back with what it saved.
type Crash struct {
	Node int `json:"node"`
	At   int `json:"at"`   // milliseconds
	Down int `json:"down"` // milliseconds
}

// Partition separates the parties in Mask from the others for a while.
type Partition struct {
	Mask int `json:"mask"`
	From int `json:"from"` // milliseconds
	To   int `json:"to"`
}

// Faults is what happens to the messages and parties of a mesh. Message faults are given by the
// ordinal of the message.
type Faults struct {
	Msgs    []Transport `json:"msgs,omitempty"`
	Crashes []Crash     `json:"crashes,omitempty"`
	Parts   []Partition `json:"parts,omitempty"`
	Skew    []int       `json:"skew,omitempty"` // clock offset of each party in milliseconds
}

func genFaults(r *drv.R, nodes int) Faults {
	var f Faults
	if r.P(1, 5) {
		return f
	}
	for k := r.Intn(30); k > 0; k-- {
		x := genTransport(r)
		x.Drop = r.P(1, 5)
		f.Msgs = append(f.Msgs, x)
	}
	if r.P(1, 2) {
		for k := r.Range(1, 3); k > 0; k-- {
			f.Crashes = append(f.Crashes, Crash{Node: r.Intn(nodes), At: r.Intn(250), Down: r.Range(1, 120)})
		}
	}
	if r.P(1, 3) {
		for k := r.Range(1, 2); k > 0; k-- {
			from := r.Intn(200)
			f.Parts = append(f.Parts, Partition{Mask: r.Range(1, 1<<nodes-2), From: from, To: from + r.Range(10, 150)})
		}
	}
	if r.P(1, 3) {
		for i := 0; i < nodes; i++ {
			f.Skew = append(f.Skew, r.Intn(45))
		}
	}
	return f
}

type meshEvent struct {
	at  time.Duration
	seq int
	f   func()
}

// mesh is a network of parties with a simulated clock.
type mesh struct {
	t     *drv.T
	n     int
	f     Faults
	now   time.Duration
	q     []meshEvent
	seq   int
	ord   int
	up    []bool
	epoch []int // number of restarts of each party

	receive func(to, from int, msg any)
	timer   func(node int)
	restart func(node int)
	crash   func(node int)
}

const meshTick = 40 * time.Millisecond

func ms(n int) time.Duration {
	if n < 0 {
		n = 0
	}
	return time.Duration(n) * time.Millisecond
}

func newMesh(t *drv.T, n int, f Faults) *mesh {
	m := &mesh{t: t, n: n, f: f, up: make([]bool, n), epoch: make([]int, n)}
	for i := range m.up {
		m.up[i] = true
	}
	return m
}

func (m *mesh) at(d time.Duration, f func()) {
	m.seq++
	m.q = append(m.q, meshEvent{d, m.seq, f})
}

func (m *mesh) separated(a, b int) bool {
	for _, p := range m.f.Parts {
		if m.now >= ms(p.From) && m.now < ms(p.To) && (p.Mask>>uint(a)&1) != (p.Mask>>uint(b)&1) {
			return true
		}
	}
	return false
}

// send puts a message on the way.
func (m *mesh) send(from, to int, msg any) {
	if to == from || to < 0 || to >= m.n {
		return
	}
	var x Transport
	if m.ord < len(m.f.Msgs) {
		x = m.f.Msgs[m.ord]
	}
	m.ord++
	if m.separated(from, to) {
		m.t.Fault("message lost in a partition")
		return
	}
	arrive := func() {
		if !m.up[to] {
			m.t.Fault("message to a crashed party")
			return
		}
		m.receive(to, from, msg)
	}
	d := m.now + 5*time.Millisecond + ms(x.Delay)
	if x.Delay > 0 {
		m.t.Fault("message delayed")
	}
	if x.Drop {
		m.t.Fault("message lost")
	} else {
		m.at(d, arrive)
	}
	if x.Dup > 0 {
		m.t.Fault("message repeated")
		m.at(d+ms(x.Dup), arrive)
	}
}

// calm is the time from which on nothing goes wrong any more, except for messages that are still
// delayed or repeated.
func (m *mesh) calm() time.Duration {
	d := time.Duration(0)
	for _, c := range m.f.Crashes {
		if x := ms(c.At) + ms(c.Down); x > d {
			d = x
		}
	}
	for _, p := range m.f.Parts {
		if x := ms(p.To); x > d {
			d = x
		}
	}
	return d
}

// run executes events until done or until the time limit and reports whether it was done.
func (m *mesh) run(limit func() time.Duration, done func() bool) bool {
	for _, c := range m.f.Crashes {
		if c.Node < 0 || c.Node >= m.n {
			continue
		}
		c := c
		m.at(ms(c.At), func() {
			if !m.up[c.Node] {
				return
			}
			m.t.Fault("crash of a party")
			m.up[c.Node] = false
			m.epoch[c.Node]++
			m.crash(c.Node)
			m.at(m.now+ms(c.Down), func() {
				m.up[c.Node] = true
				m.restart(c.Node)
			})
		})
	}
	var tick func(i int)
	tick = func(i int) {
		if m.up[i] {
			m.timer(i)
		}
		m.at(m.now+meshTick, func() { tick(i) })
	}
	for i := 0; i < m.n; i++ {
		i := i
		at := meshTick
		if i < len(m.f.Skew) {
			m.t.Fault("clock offset")
			at += ms(m.f.Skew[i])
		}
		m.at(at, func() { tick(i) })
	}
	for len(m.q) > 0 && !done() {
		b := 0
		for j := range m.q {
			if m.q[j].at < m.q[b].at || (m.q[j].at == m.q[b].at && m.q[j].seq < m.q[b].seq) {
				b = j
			}
		}
		e := m.q[b]
		m.q[b] = m.q[len(m.q)-1]
		m.q = m.q[:len(m.q)-1]
		if e.at > limit() {
			return done()
		}
		m.now = e.at
		m.t.SimTime = m.now
		e.f()
	}
	return done()
}

// faultsLeft tells if faults of messages are still to come.
func (m *mesh) faultsLeft() bool { return m.ord < len(m.f.Msgs) || m.now < m.calm() }
