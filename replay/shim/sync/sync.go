// Package sync stands in for the standard package in scheduled runs.
package sync

import (
	rs "sync"

	"verif/replay/shim/sched"
)

type (
	Map       = rs.Map
	WaitGroup = rs.WaitGroup
	Locker    = rs.Locker
	Pool      = rs.Pool
)

type Mutex struct {
	held bool
	by   int
}

func (m *Mutex) Lock() {
	sched.Yield()
	sched.Block(func() bool { return !m.held })
	m.held = true
}

func (m *Mutex) TryLock() bool {
	sched.Yield()
	if m.held {
		return false
	}
	m.held = true
	return true
}

func (m *Mutex) Unlock() {
	if !m.held {
		panic("unlock of unlocked mutex")
	}
	m.held = false
	sched.Yield()
}

type RWMutex struct {
	w bool
	r int
}

func (m *RWMutex) Lock() {
	sched.Yield()
	sched.Block(func() bool { return !m.w && m.r == 0 })
	m.w = true
}

func (m *RWMutex) Unlock() {
	if !m.w {
		panic("unlock of unlocked rwmutex")
	}
	m.w = false
	sched.Yield()
}

func (m *RWMutex) RLock() {
	sched.Yield()
	sched.Block(func() bool { return !m.w })
	m.r++
}

func (m *RWMutex) RUnlock() {
	if m.r == 0 {
		panic("runlock of unlocked rwmutex")
	}
	m.r--
	sched.Yield()
}

type Once struct {
	m    Mutex
	done bool
}

func (o *Once) Do(f func()) {
	o.m.Lock()
	defer o.m.Unlock()
	if !o.done {
		defer func() { o.done = true }()
		f()
	}
}

func OnceFunc(f func()) func() { var o Once; return func() { o.Do(f) } }
