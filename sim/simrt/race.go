package simrt

import "fmt"

// Clock is the synchronisation history carried by a lock or another synchronising object.
type Clock []uint32

func (c *Clock) join(o []uint32) {
	for len(*c) < len(o) {
		*c = append(*c, 0)
	}
	for i, n := range o {
		if n > (*c)[i] {
			(*c)[i] = n
		}
	}
}

func (t *Task) join(o []uint32) {
	c := Clock(t.clock)
	c.join(o)
	t.clock = c
}

func (t *Task) advance() {
	for len(t.clock) <= t.id {
		t.clock = append(t.clock, 0)
	}
	t.clock[t.id]++
}

func (t *Task) now() uint32 {
	if len(t.clock) <= t.id || t.clock[t.id] == 0 {
		t.advance()
	}
	return t.clock[t.id]
}

// after reports whether the task has synchronised with an event of another task.
func (t *Task) after(task int, at uint32) bool {
	return task == t.id || task < len(t.clock) && t.clock[task] >= at
}

// Release makes everything the running task did so far visible to those that acquire the clock later.
func Release(c *Clock) {
	if sched == nil || sched.cur == nil || Coarse {
		return
	}
	t := sched.cur
	t.now()
	c.join(t.clock)
	t.advance()
}

// Acquire makes everything released into the clock visible to the running task.
func Acquire(c *Clock) {
	if sched == nil || sched.cur == nil || Coarse {
		return
	}
	sched.cur.join(*c)
}

type place struct {
	written bool
	writer  int
	at      uint32
	reads   map[int]uint32
}

// A is called before a statement that accesses a package level variable.
func A(name string, write bool) {
	if sched != nil {
		sched.access(name, name, write)
	}
}

// Touch is called before an object that must not be used concurrently is used.
func Touch(object any, name string) {
	if sched != nil {
		sched.access(object, name, true)
	}
}

func (s *Sched) access(key any, name string, write bool) {
	t := s.cur
	if t == nil || Coarse {
		return
	}
	p := s.places[key]
	if p == nil {
		p = &place{reads: map[int]uint32{}}
		s.places[key] = p
	}
	race := func(other int, kind string) {
		if len(s.Races) < 5 {
			s.Races = append(s.Races, fmt.Sprintf("%s: %s by goroutine %d and goroutine %d", name, kind, other, t.id))
		}
	}
	if p.written && !t.after(p.writer, p.at) {
		if write {
			race(p.writer, "written")
		} else {
			race(p.writer, "written and read")
		}
	}
	if write {
		for other := range s.tasks {
			if at, ok := p.reads[other]; ok && !t.after(other, at) {
				race(other, "read and written")
			}
		}
		p.written, p.writer, p.at = true, t.id, t.now()
		return
	}
	p.reads[t.id] = t.now()
}

var resets []func()

// OnReset registers code that sets package level variables to their initial values.
func OnReset(f func()) { resets = append(resets, f) }

// Reset sets the package level variables of the instrumented code to their initial values.
func Reset() {
	for _, f := range resets {
		func() {
			defer func() { recover() }()
			f()
		}()
	}
}
