package simrt

import (
	"runtime"
	"sync"
)

// Task is one simulated goroutine.
type Task struct {
	id      int
	env     *Env
	wake    chan struct{}
	done    bool
	blocked bool
	err     any
	fn      func()
	clock   []uint32
}

// Switch is a scheduling decision: when the number of yields reaches At, run task To (modulo the
// number of runnable tasks).
type Switch struct {
	At uint64 `json:"at"`
	To int    `json:"to"`
}

// Sched releases one task at a time. Without further decisions the running task continues.
type Sched struct {
	tasks    []*Task
	cur      *Task
	yields   uint64
	switches []Switch
	next     int
	walk     func() int // optional random walk, returns -1 to continue with the current task
	finished chan struct{}

	// Switched counts the context switches made at yield points of a running task, and Order records
	// the sequence of running tasks with the yield count of each switch.
	Switched int
	Order    []Switch

	// Races are the accesses to shared memory that no synchronisation orders.
	Races []string

	places map[any]*place
}

// Yields returns the number of yield points passed.
func (s *Sched) Yields() uint64 { return s.yields }

// Run executes the functions as tasks under the given decisions. It returns the panic values of the
// tasks, nil for those that ended normally.
func Run(fns []func(), envs []*Env, switches []Switch, walk func() int) (*Sched, []any) {
	if sched != nil {
		panic("nested scheduler")
	}
	s := &Sched{switches: switches, walk: walk, finished: make(chan struct{}), places: map[any]*place{}}
	for i, fn := range fns {
		var e *Env
		if i < len(envs) {
			e = envs[i]
		}
		s.add(fn, e)
	}
	sched = s
	s.cur = s.tasks[0]
	s.start(s.tasks[0])
	<-s.finished
	sched = nil
	errs := make([]any, len(s.tasks))
	for i, t := range s.tasks {
		errs[i] = t.err
	}
	return s, errs
}

func (s *Sched) add(fn func(), e *Env) *Task {
	t := &Task{id: len(s.tasks), env: e, fn: fn}
	s.tasks = append(s.tasks, t)
	return t
}

// start gives the token to t.
func (s *Sched) start(t *Task) {
	s.cur = t
	if t.wake == nil {
		t.wake = make(chan struct{})
		go func() {
			defer func() {
				if r := recover(); r != nil {
					t.err = r
				}
				t.done = true
				s.exit()
			}()
			t.fn()
		}()
		return
	}
	t.wake <- struct{}{}
}

// exit passes the token on when the current task ended.
func (s *Sched) exit() {
	for i := 1; i <= len(s.tasks); i++ {
		t := s.tasks[(s.cur.id+i)%len(s.tasks)]
		if !t.done {
			t.blocked = false
			s.start(t)
			return
		}
	}
	close(s.finished)
}

func (s *Sched) runnable() []*Task {
	var r []*Task
	for _, t := range s.tasks {
		if !t.done && !t.blocked {
			r = append(r, t)
		}
	}
	return r
}

func (s *Sched) switchTo(t *Task) {
	me := s.cur
	if t == me {
		return
	}
	s.Switched++
	s.Order = append(s.Order, Switch{At: s.yields, To: t.id})
	s.start(t)
	<-me.wake
	s.cur = me
}

func (s *Sched) yield() {
	s.yields++
	if s.walk != nil {
		if to := s.walk(); to >= 0 {
			if r := s.runnable(); len(r) > 1 {
				s.switchTo(r[to%len(r)])
			}
		}
		return
	}
	for s.next < len(s.switches) && s.switches[s.next].At <= s.yields {
		to := s.switches[s.next].To
		s.next++
		if r := s.runnable(); len(r) > 1 {
			s.switchTo(r[to%len(r)])
		}
	}
}

// Pause is called by the simulation between two operations of a task.
func Pause() {
	s := sched
	if s == nil || !Coarse {
		return
	}
	s.yields++
	if r := s.runnable(); len(r) > 1 {
		s.switchTo(r[int(s.yields*2654435761>>7)%len(r)])
	}
}

// Active reports whether a scheduler is running.
func Active() bool { return sched != nil && !Coarse }

// Block is called by a task that cannot continue until another task made progress. It hands the
// token to the next task that has not ended.
func Block() {
	s := sched
	if s == nil || Coarse {
		runtime.Gosched()
		return
	}
	Steps++
	if Steps > StepLimit {
		n := Steps
		Steps = 0
		panic(HangError{n})
	}
	for i := 1; i < len(s.tasks); i++ {
		t := s.tasks[(s.cur.id+i)%len(s.tasks)]
		if !t.done {
			s.switchTo(t)
			return
		}
	}
}

// Go starts a goroutine of instrumented code. Under a scheduler it becomes a task.
func Go(fn func()) {
	if sched == nil || Coarse {
		go fn()
		return
	}
	p := sched.cur
	t := sched.add(fn, p.env)
	t.join(p.clock)
	p.advance()
}

var plainMu sync.Mutex

// Lock and Unlock protect simulator data used by instrumented code outside a scheduler.
func Lock()   { plainMu.Lock() }
func Unlock() { plainMu.Unlock() }
