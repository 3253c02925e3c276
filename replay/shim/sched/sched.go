// Package sched runs a few functions as cooperative tasks: one runs at a time
// and hands control back at every operation of the shim packages, so that a
// random source decides the whole interleaving.
package sched

import "math/rand"

type task struct {
	id      int
	wake    chan struct{}
	blocked func() bool
	done    bool
	val     any
}

type S struct {
	rng   *rand.Rand
	tasks []*task
	cur   *task
	back  chan struct{}
	steps int
	limit int
	stop  bool
	// stickiness: the probability 1/n of a switch at a yield
	stick int
}

var active *S

type aborted struct{}

// On reports whether a schedule is running (and the caller is part of it).
func On() bool { return active != nil && active.cur != nil }

// ID is the number of the running task.
func ID() int { return active.cur.id }

// Yield gives another task a chance to run.
func Yield() {
	s := active
	if s == nil || s.cur == nil {
		return
	}
	if s.stop {
		panic(aborted{})
	}
	s.pause(nil)
}

// Block waits until ready holds; ready is evaluated by the scheduler while no task runs.
func Block(ready func() bool) {
	s := active
	if s == nil || s.cur == nil {
		if !ready() {
			panic("deadlock: blocked outside a schedule")
		}
		return
	}
	if s.stop {
		panic(aborted{})
	}
	s.pause(func() bool { return !ready() })
}

func (s *S) pause(b func() bool) {
	t := s.cur
	t.blocked = b
	s.back <- struct{}{}
	<-t.wake
	if s.stop {
		panic(aborted{})
	}
}

type Outcome struct {
	Deadlock bool
	Long     bool // the step limit was reached
	Panics   []any
	Steps    int
}

// Run interleaves the functions to completion.
func Run(rng *rand.Rand, limit int, fns ...func()) Outcome {
	s := &S{rng: rng, back: make(chan struct{}), limit: limit, stick: 1 + rng.Intn(4)}
	for i, f := range fns {
		t := &task{id: i, wake: make(chan struct{})}
		s.tasks = append(s.tasks, t)
		go func() {
			<-t.wake
			defer func() {
				if r := recover(); r != nil {
					if _, ok := r.(aborted); !ok {
						t.val = r
					}
				}
				t.done = true
				s.back <- struct{}{}
			}()
			if !s.stop {
				f()
			}
		}()
	}
	active = s
	var out Outcome
	var last *task
	for {
		var ready []*task
		alive := false
		for _, t := range s.tasks {
			if t.done {
				continue
			}
			alive = true
			if t.blocked != nil && t.blocked() {
				continue
			}
			ready = append(ready, t)
		}
		if !alive {
			break
		}
		s.steps++
		if len(ready) == 0 {
			out.Deadlock = true
		}
		if s.steps > limit {
			out.Long = true
		}
		if out.Deadlock || out.Long {
			s.stop = true
			for _, t := range s.tasks {
				for !t.done {
					s.cur = t
					t.wake <- struct{}{}
					<-s.back
				}
			}
			break
		}
		t := ready[rng.Intn(len(ready))]
		if last != nil && !last.done && rng.Intn(s.stick) != 0 {
			for _, r := range ready {
				if r == last {
					t = last
				}
			}
		}
		last = t
		t.blocked = nil
		s.cur = t
		t.wake <- struct{}{}
		<-s.back
		s.cur = nil
	}
	s.cur = nil
	active = nil
	out.Steps = s.steps
	for _, t := range s.tasks {
		if t.val != nil {
			out.Panics = append(out.Panics, t.val)
		}
	}
	return out
}
