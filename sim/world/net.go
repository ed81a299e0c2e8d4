package world

import (
	"time"

	"verifsim/drv"
)

// Transport is what the network does to one message.
type Transport struct {
	Drop  bool `json:"drop,omitempty"`
	Dup   int  `json:"dup,omitempty"`   // milliseconds until the message arrives a second time
	Delay int  `json:"delay,omitempty"` // extra milliseconds under way
}

func genTransport(r *drv.R) Transport {
	var n Transport
	n.Drop = r.P(1, 10)
	if r.P(1, 8) {
		n.Dup = 1 + r.Intn(60)
	}
	if r.P(1, 5) {
		n.Delay = r.Intn(80)
	}
	return n
}

// deliver sends messages 0..n-1 ten milliseconds apart and hands them over in the order in which
// they arrive. It stops when handle returns false.
func deliver(t *drv.T, n int, tr func(int) Transport, handle func(i int) bool) {
	type ev struct {
		at time.Duration
		i  int
	}
	var q []ev
	for i := 0; i < n; i++ {
		x := tr(i)
		if x.Dup < 0 {
			x.Dup = 0
		}
		if x.Delay < 0 {
			x.Delay = 0
		}
		at := time.Duration(i)*10*time.Millisecond + 5*time.Millisecond + time.Duration(x.Delay)*time.Millisecond
		if x.Drop {
			t.Fault("message lost")
		} else {
			q = append(q, ev{at, i})
		}
		if x.Delay > 0 {
			t.Fault("message delayed")
		}
		if x.Dup > 0 {
			t.Fault("message repeated")
			q = append(q, ev{at + time.Duration(x.Dup)*time.Millisecond, i})
		}
	}
	last := -1
	for len(q) > 0 {
		b := 0
		for j := range q {
			if q[j].at < q[b].at {
				b = j
			}
		}
		e := q[b]
		q = append(q[:b], q[b+1:]...)
		if t.SimTime < e.at {
			t.SimTime = e.at
		}
		if e.i < last {
			t.Fault("messages reordered")
		}
		last = e.i
		if !handle(e.i) {
			return
		}
	}
}
