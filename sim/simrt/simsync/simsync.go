// Package simsync stands in for package sync: a task that finds a lock taken
// lets another task run instead of blocking the only running thread.
package simsync

import (
	rsync "sync"

	rt "github.com/arl/go-detour/verifsimrt"
)

type (
	Locker    = rsync.Locker
	Map       = rsync.Map
	WaitGroup = rsync.WaitGroup
	Cond      = rsync.Cond
)

func NewCond(l Locker) *Cond { return rsync.NewCond(l) }

func wait(free func() bool) {
	for !free() {
		rt.Blocked()
	}
}

// Mutex is a simulated mutual exclusion lock.
type Mutex struct{ held bool }

func (m *Mutex) Lock() {
	wait(func() bool { return !m.held })
	m.held = true
}
func (m *Mutex) TryLock() bool {
	if m.held {
		return false
	}
	m.held = true
	return true
}
func (m *Mutex) Unlock() {
	if !m.held {
		panic("sync: unlock of unlocked mutex")
	}
	m.held = false
}

// RWMutex is a simulated reader/writer lock.
type RWMutex struct {
	w bool
	r int
}

func (m *RWMutex) Lock() {
	wait(func() bool { return !m.w && m.r == 0 })
	m.w = true
}
func (m *RWMutex) Unlock() {
	if !m.w {
		panic("sync: Unlock of unlocked RWMutex")
	}
	m.w = false
}
func (m *RWMutex) RLock() {
	wait(func() bool { return !m.w })
	m.r++
}
func (m *RWMutex) RUnlock() {
	if m.r == 0 {
		panic("sync: RUnlock of unlocked RWMutex")
	}
	m.r--
}
func (m *RWMutex) TryLock() bool {
	if m.w || m.r > 0 {
		return false
	}
	m.w = true
	return true
}
func (m *RWMutex) TryRLock() bool {
	if m.w {
		return false
	}
	m.r++
	return true
}

type rlocker RWMutex

func (l *rlocker) Lock()   { (*RWMutex)(l).RLock() }
func (l *rlocker) Unlock() { (*RWMutex)(l).RUnlock() }

func (m *RWMutex) RLocker() Locker { return (*rlocker)(m) }

// Once runs something once.
type Once struct {
	done bool
	m    Mutex
}

func (o *Once) Do(f func()) {
	if o.done {
		return
	}
	o.m.Lock()
	defer o.m.Unlock()
	if !o.done {
		defer func() { o.done = true }()
		f()
	}
}

func OnceFunc(f func()) func() {
	var o Once
	return func() { o.Do(f) }
}

// Pool hands back what was put last.
type Pool struct {
	New func() interface{}
	l   []interface{}
}

func (p *Pool) Get() interface{} {
	if n := len(p.l); n > 0 {
		x := p.l[n-1]
		p.l = p.l[:n-1]
		return x
	}
	if p.New != nil {
		return p.New()
	}
	return nil
}

func (p *Pool) Put(x interface{}) {
	if x != nil {
		p.l = append(p.l, x)
	}
}
