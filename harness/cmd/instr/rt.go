package main

// runtimeFiles is package verifrt, which is added to the copy of the module.
var runtimeFiles = map[string]string{
	"rt.go": `// Package verifrt observes the instrumented module.
package verifrt

import "sync/atomic"

// Mode: 0 off, 1 count steps, 2 schedule.
var mode int32

type counter struct {
	g     uintptr
	n     int64
	limit int64
	_     [40]byte
}

var counters [64]counter
var ncounters int32

func getg() uintptr

// G identifies the calling goroutine.
func G() uintptr { return getg() }

// Exceeded is the value of the panic when a goroutine exceeds its limit.
type Exceeded struct{ Steps int64 }

// Register makes the calling goroutine count its steps. It returns its number.
func Register() int {
	i := int(atomic.AddInt32(&ncounters, 1)) - 1
	counters[i] = counter{g: getg(), limit: 1 << 60}
	atomic.StoreInt32(&mode, 1)
	return i
}

// Unregister forgets all goroutines.
func Unregister() {
	atomic.StoreInt32(&mode, 0)
	for i := range counters {
		counters[i] = counter{}
	}
	ncounters = 0
}

// Limit starts counting from 0, up to limit.
func Limit(i int, limit int64) { counters[i].n, counters[i].limit = 0, limit }

// Steps is the number of steps since Limit.
func Steps(i int) int64 { return counters[i].n }

// Hook is called at every point when scheduling.
var Hook func(step bool)

// Schedule turns calls of Hook on or off.
func Schedule(on bool) {
	m := int32(0)
	if on {
		m = 2
	}
	atomic.StoreInt32(&mode, m)
}

// Step is called when a function or an iteration begins.
func Step() {
	switch mode {
	case 1:
		g := getg()
		for i := range counters {
			c := &counters[i]
			if c.g == g {
				c.n++
				if c.n > c.limit {
					panic(Exceeded{c.n})
				}
				return
			}
			if c.g == 0 {
				return
			}
		}
	case 2:
		Hook(true)
	}
}

// Point is called before every statement.
func Point() {
	if mode == 2 {
		Hook(false)
	}
}

// After is a point between the evaluation of x and its use.
func After[T any](x T) T {
	if mode == 2 {
		Hook(true)
	}
	return x
}

// Blocked is called by a goroutine that has to wait for another.
var Blocked func()
`,
	"g_amd64.s": `#include "textflag.h"

TEXT ·getg(SB), NOSPLIT, $0-8
	MOVQ (TLS), AX
	MOVQ AX, ret+0(FP)
	RET
`,
	"sync/sync.go": `// Package sync replaces the standard package under the scheduler: one goroutine
// runs at a time, and waiting is visible.
package sync

import (
	real "sync"
	"sync/atomic"

	rt "MODULE/verifrt"
)

type (
	Locker = real.Locker
	Map    = real.Map
)

func wait() {
	if rt.Blocked != nil {
		rt.Blocked()
	} else {
		yield()
	}
}

type Mutex struct{ held int32 }

func (m *Mutex) TryLock() bool { return atomic.CompareAndSwapInt32(&m.held, 0, 1) }
func (m *Mutex) Lock() {
	rt.Point()
	for !m.TryLock() {
		wait()
	}
}
func (m *Mutex) Unlock() {
	if !atomic.CompareAndSwapInt32(&m.held, 1, 0) {
		panic("sync: unlock of unlocked mutex")
	}
	rt.Point()
}

type RWMutex struct{ n int32 } // -1: a writer, otherwise the number of readers

func (m *RWMutex) TryLock() bool { return atomic.CompareAndSwapInt32(&m.n, 0, -1) }
func (m *RWMutex) TryRLock() bool {
	n := atomic.LoadInt32(&m.n)
	return n >= 0 && atomic.CompareAndSwapInt32(&m.n, n, n+1)
}
func (m *RWMutex) Lock() {
	rt.Point()
	for !m.TryLock() {
		wait()
	}
}
func (m *RWMutex) Unlock() {
	if !atomic.CompareAndSwapInt32(&m.n, -1, 0) {
		panic("sync: unlock of unlocked mutex")
	}
	rt.Point()
}
func (m *RWMutex) RLock() {
	rt.Point()
	for !m.TryRLock() {
		wait()
	}
}
func (m *RWMutex) RUnlock() {
	if atomic.AddInt32(&m.n, -1) < 0 {
		panic("sync: RUnlock of unlocked RWMutex")
	}
	rt.Point()
}

type rlocker RWMutex

func (r *rlocker) Lock()   { (*RWMutex)(r).RLock() }
func (r *rlocker) Unlock() { (*RWMutex)(r).RUnlock() }

func (m *RWMutex) RLocker() Locker { return (*rlocker)(m) }

type Once struct {
	done bool
	m    Mutex
}

func (o *Once) Do(f func()) {
	rt.Point()
	if o.done {
		return
	}
	o.m.Lock()
	defer o.m.Unlock()
	if !o.done {
		defer func() { o.done = true }()
		f()
	}
}

func OnceFunc(f func()) func() {
	var o Once
	return func() { o.Do(f) }
}

func OnceValue[T any](f func() T) func() T {
	var o Once
	var v T
	return func() T {
		o.Do(func() { v = f() })
		return v
	}
}

func OnceValues[T, U any](f func() (T, U)) func() (T, U) {
	var o Once
	var v T
	var u U
	return func() (T, U) {
		o.Do(func() { v, u = f() })
		return v, u
	}
}

type WaitGroup struct{ n int32 }

func (w *WaitGroup) Add(n int) { atomic.AddInt32(&w.n, int32(n)); rt.Point() }
func (w *WaitGroup) Done()     { w.Add(-1) }
func (w *WaitGroup) Wait() {
	for atomic.LoadInt32(&w.n) > 0 {
		wait()
	}
}
func (w *WaitGroup) Go(f func()) {
	w.Add(1)
	go func() {
		defer w.Done()
		f()
	}()
}

// Pool keeps everything, last in, first out.
type Pool struct {
	New  func() any
	m    real.Mutex
	free []any
}

func (p *Pool) Get() any {
	rt.Point()
	p.m.Lock()
	if n := len(p.free); n > 0 {
		x := p.free[n-1]
		p.free = p.free[:n-1]
		p.m.Unlock()
		return x
	}
	p.m.Unlock()
	if p.New != nil {
		return p.New()
	}
	return nil
}

func (p *Pool) Put(x any) {
	if x == nil {
		return
	}
	p.m.Lock()
	p.free = append(p.free, x)
	p.m.Unlock()
	rt.Point()
}

type Cond struct {
	L   Locker
	seq int32
	sig int32
}

func NewCond(l Locker) *Cond { return &Cond{L: l} }
func (c *Cond) Wait() {
	s := atomic.LoadInt32(&c.seq)
	c.L.Unlock()
	for atomic.LoadInt32(&c.seq) == s {
		wait()
	}
	c.L.Lock()
}
func (c *Cond) Signal()    { atomic.AddInt32(&c.seq, 1) }
func (c *Cond) Broadcast() { atomic.AddInt32(&c.seq, 1) }
`,
	"sync/yield.go": `package sync

import "runtime"

func yield() { runtime.Gosched() }
`,
}
