// Package vsched is a cooperative scheduler for two threads. A copy of the code under test, which is instrumented by
// cmd/instr, calls P before each statement. Exactly one thread runs at a time, and the switches between threads are
// those of a plan, so an execution is determined by its plan. When built with the race detector, the hand over from
// one thread to the other is hidden from it, so that it reports all accesses that the code itself doesn't order.
package vsched

import (
	"fmt"
	"runtime"
	"sync"
	"sync/atomic"
	"time"
	"unsafe"
)

// Plan is where the running thread is preempted. The thread First runs until it is about to execute its step At[0].
// Then the other one runs until its step At[1], and so on
type Plan struct {
	First int
	At    []int
	// Shared is true if At counts the steps that use shared data only
	Shared bool
}

func (p Plan) String() string {
	return fmt.Sprintf("thread %d first, preempted at steps %v (shared %v)", p.First, p.At, p.Shared)
}

// Result of an execution
type Result struct {
	Steps, SharedSteps [2]int
	Preempted          int
	Fault              string // deadlock or panic
	Free               bool   // the threads had to run freely since one was blocked by something that isn't controlled
}

const (
	idle = iota
	controlled
	free
)

var (
	mode    int32
	cur     int
	steps   [2]int
	shared  [2]int
	plan    Plan
	at      int // index of next preemption
	next    int // step where the current thread is preempted, or -1
	done    [2]bool
	blocked [2]bool
	gates   [2]chan struct{}
	fault   atomic.Value
	epoch   int64
)

//go:norace
func setNext() {
	next = -1
	if at < len(plan.At) {
		next = plan.At[at]
	}
}

// P is called before each statement
//
//go:norace
func P() {
	if atomic.LoadInt32(&mode) != controlled {
		return
	}
	me := cur
	n := steps[me]
	steps[me] = n + 1
	if plan.Shared || n != next {
		return
	}
	preempt(me)
}

// Q is called before each statement that uses data that is shared between threads
//
//go:norace
func Q() {
	if atomic.LoadInt32(&mode) != controlled {
		return
	}
	me := cur
	n := steps[me]
	steps[me] = n + 1
	s := shared[me]
	shared[me] = s + 1
	if plan.Shared {
		n = s
	}
	if n != next {
		return
	}
	preempt(me)
}

//go:norace
func preempt(me int) {
	at++
	if other := 1 - me; !done[other] && !blocked[other] {
		hand(me, other)
	} else {
		setNext()
	}
}

// hand makes another thread run and waits for this one to be resumed
//
//go:norace
func hand(me, other int) {
	raceDisable()
	cur = other
	setNext()
	atomic.AddInt64(&epoch, 1)
	gates[other] <- struct{}{}
	<-gates[me]
	raceEnable()
}

// block is called by a thread that can't continue until another one has done something
//
//go:norace
func block() {
	switch atomic.LoadInt32(&mode) {
	case controlled:
		me := cur
		other := 1 - me
		if done[other] || blocked[other] {
			if atomic.LoadInt32(&mode) != controlled {
				return
			}
			panic("deadlock")
		}
		blocked[me] = true
		hand(me, other)
		blocked[me] = false
	default:
		runtime.Gosched()
	}
}

//go:norace
func unblock() {
	if atomic.LoadInt32(&mode) == controlled {
		blocked[1-cur] = false
	}
}

//go:norace
func start(me int) {
	raceDisable()
	<-gates[me]
	raceEnable()
}

//go:norace
func finish(me int, x interface{}) {
	raceDisable()
	if x != nil {
		fault.Store(fmt.Sprintf("thread %d panics: %v", me, x))
	}
	if atomic.LoadInt32(&mode) == controlled {
		done[me] = true
		if other := 1 - me; !done[other] {
			blocked[other] = false
			cur = other
			setNext()
			atomic.AddInt64(&epoch, 1)
			gates[other] <- struct{}{}
		}
	}
	raceEnable()
}

// Run executes two threads according to a plan
//
//go:norace
func Run(p Plan, threads [2]func()) (r Result) {
	plan, at, cur = p, 0, p.First
	steps, shared, done, blocked = [2]int{}, [2]int{}, [2]bool{}, [2]bool{}
	fault = atomic.Value{}
	setNext()
	gates = [2]chan struct{}{make(chan struct{}, 2), make(chan struct{}, 2)}
	atomic.StoreInt32(&mode, controlled)
	var wg sync.WaitGroup
	wg.Add(2)
	for i := range threads {
		go thread(i, threads[i], &wg)
	}
	fin := make(chan struct{})
	go func() {
		wg.Wait()
		close(fin)
	}()
	gates[cur] <- struct{}{}
	if !supervise(fin) {
		// A thread waits for something that isn't known here
		r.Free = true
		atomic.StoreInt32(&mode, free)
		gates[0] <- struct{}{}
		gates[1] <- struct{}{}
		select {
		case <-fin:
		case <-time.After(8 * time.Second):
			r.Fault = "deadlock"
		}
	}
	atomic.StoreInt32(&mode, idle)
	if f := fault.Load(); f != nil {
		r.Fault = f.(string)
	}
	r.Steps, r.SharedSteps, r.Preempted = steps, shared, at
	return
}

// supervise waits for the threads. It returns false when the one that runs makes no progress, or executes far more steps
// than any operation has, since it waits for the other one in a way that isn't controlled
//
//go:norace
func supervise(fin chan struct{}) bool {
	t := time.NewTimer(tick)
	defer t.Stop()
	last, since := int64(-1), 0
	for {
		select {
		case <-fin:
			return true
		case <-t.C:
			n := int64(steps[0]) + int64(steps[1]) + atomic.LoadInt64(&epoch)
			if since++; n != last {
				last, since = n, 0
			}
			if since >= patience || n-atomic.LoadInt64(&epoch) > maxSteps {
				return false
			}
			t.Reset(tick)
		}
	}
}

const (
	tick     = 5 * time.Millisecond
	patience = 8
	maxSteps = 300000
)

func thread(me int, f func(), wg *sync.WaitGroup) {
	defer wg.Done()
	defer func() { finish(me, recover()) }()
	start(me)
	f()
}

// Mutex replaces sync.Mutex
type Mutex struct{ m sync.Mutex }

// Lock locks
func (m *Mutex) Lock() {
	Q()
	for !m.m.TryLock() {
		block()
	}
}

// TryLock locks if possible
func (m *Mutex) TryLock() bool { return m.m.TryLock() }

// Unlock unlocks
func (m *Mutex) Unlock() {
	m.m.Unlock()
	unblock()
	Q()
}

// RWMutex replaces sync.RWMutex
type RWMutex struct{ m sync.RWMutex }

// Lock locks
func (m *RWMutex) Lock() {
	Q()
	for !m.m.TryLock() {
		block()
	}
}

// Unlock unlocks
func (m *RWMutex) Unlock() {
	m.m.Unlock()
	unblock()
	Q()
}

// RLock locks
func (m *RWMutex) RLock() {
	Q()
	for !m.m.TryRLock() {
		block()
	}
}

// RUnlock unlocks
func (m *RWMutex) RUnlock() {
	m.m.RUnlock()
	unblock()
	Q()
}

// TryLock locks if possible
func (m *RWMutex) TryLock() bool { return m.m.TryLock() }

// TryRLock locks if possible
func (m *RWMutex) TryRLock() bool { return m.m.TryRLock() }

// RLocker returns a Locker for reading
func (m *RWMutex) RLocker() sync.Locker { return (*rlocker)(m) }

type rlocker RWMutex

func (r *rlocker) Lock()   { (*RWMutex)(r).RLock() }
func (r *rlocker) Unlock() { (*RWMutex)(r).RUnlock() }

// Once replaces sync.Once
type Once struct {
	done int32
	m    Mutex
}

// Do calls the function the first time
func (o *Once) Do(f func()) {
	Q()
	if atomic.LoadInt32(&o.done) == 1 {
		return
	}
	o.m.Lock()
	defer o.m.Unlock()
	if o.done == 0 {
		defer atomic.StoreInt32(&o.done, 1)
		f()
	}
}

// OnceFunc replaces sync.OnceFunc
func OnceFunc(f func()) func() {
	o := &Once{}
	return func() { o.Do(f) }
}

// OnceValue replaces sync.OnceValue
func OnceValue[T any](f func() T) func() T {
	o := &Once{}
	var v T
	return func() T {
		o.Do(func() { v = f() })
		return v
	}
}

// Pool replaces sync.Pool. It always keeps what is put into it and returns what was put last, since sync.Pool drops
// objects at random when the race detector is used. Only the Put and the Get of an object are ordered, as in sync.Pool
type Pool struct {
	New   func() any
	items *item
	m     sync.Mutex
}

type item struct {
	v    any
	next *item
}

// Put adds an object
//
//go:norace
func (p *Pool) Put(x any) {
	Q()
	if x == nil {
		return
	}
	i := &item{v: x}
	raceRelease(unsafe.Pointer(i))
	p.push(i)
	Q()
}

// Get returns an object
//
//go:norace
func (p *Pool) Get() any {
	Q()
	if i := p.pop(); i != nil {
		raceAcquire(unsafe.Pointer(i))
		return i.v
	}
	if p.New != nil {
		return p.New()
	}
	return nil
}

// lock is needed only when threads run freely
//
//go:norace
func (p *Pool) lock() func() {
	if atomic.LoadInt32(&mode) == controlled {
		return func() {}
	}
	p.m.Lock()
	return p.m.Unlock
}

//go:norace
func (p *Pool) push(i *item) {
	defer p.lock()()
	i.next = p.items
	p.items = i
}

//go:norace
func (p *Pool) pop() (i *item) {
	defer p.lock()()
	if i = p.items; i != nil {
		p.items = i.next
	}
	return
}
