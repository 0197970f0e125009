package vrt

import (
	"fmt"
	"runtime/debug"
	"sync"
	"sync/atomic"
)

// Sched runs a set of goroutines one at a time, in an order that the explorer
// chooses at every scheduling point.
//
// The state of the scheduler is only ever touched by the goroutine whose turn
// it is. Turns are passed with channel operations that the race detector is
// told to ignore, so that it sees only the synchronization done by the code
// under test.
type Sched struct {
	threads []*thread
	cur     *thread
	mainCh  chan struct{}
	abort   bool
	live    int
	outcome string
	// Switches counts context switches, Preemptions those that were not forced.
	Switches, Preemptions, Points int64
	clock                         int64
	// ended orders the end of the threads before what follows, as the race
	// detector sees it.
	ended sync.WaitGroup
}

type thread struct {
	id      int
	wake    chan struct{}
	done    bool
	wait    Waiter
	name    string
	panicV  any
	stack   string
	started bool
}

// Waiter is something a goroutine waits for.
type Waiter interface {
	// Ready reports whether the goroutine can continue.
	Ready() bool
	// What describes it.
	What() string
}

type abortRun struct{}

// Result is the outcome of a controlled run.
type Result struct {
	// Deadlock describes a deadlock, if there was one.
	Deadlock string
	// Panics holds the values of panics, by thread.
	Panics []string
	Sched  *Sched
}

// RunThreads runs the functions as concurrent goroutines under the control of
// the explorer.
//
//go:norace
func RunThreads(fns ...func()) *Result {
	s := &Sched{mainCh: make(chan struct{})}
	for i, f := range fns {
		s.newThread(f, fmt.Sprintf("T%d", i))
	}
	sched = s
	s.live = len(s.threads)
	s.cur = nil
	next := s.pick(nil)
	raceOff()
	s.cur = next
	next.wake <- struct{}{}
	<-s.mainCh
	raceOn()
	s.ended.Wait()
	sched = nil
	r := &Result{Deadlock: s.outcome, Sched: s}
	for _, t := range s.threads {
		if t.panicV != nil {
			r.Panics = append(r.Panics, fmt.Sprintf("%s: %v\n%s", t.name, t.panicV, t.stack))
		}
	}
	return r
}

//go:norace
func (s *Sched) newThread(f func(), name string) *thread {
	t := &thread{id: len(s.threads), wake: make(chan struct{}), name: name}
	s.threads = append(s.threads, t)
	s.ended.Add(1)
	go s.run(t, f)
	return t
}

//go:norace
func (s *Sched) run(t *thread, f func()) {
	raceOff()
	<-t.wake
	raceOn()
	s.body(t, f)
	s.exit(t)
}

//go:norace
func (s *Sched) body(t *thread, f func()) {
	defer s.recovered(t)
	if !s.abort {
		f()
	}
}

//go:norace
func (s *Sched) recovered(t *thread) {
	if v := recover(); v != nil {
		if _, ok := v.(abortRun); !ok {
			t.panicV = v
			t.stack = string(debug.Stack())
		}
	}
}

//go:norace
func (s *Sched) exit(t *thread) {
	t.done = true
	s.ended.Done()
	s.live--
	if s.live == 0 {
		raceOff()
		s.mainCh <- struct{}{}
		raceOn()
		return
	}
	s.switchFrom(t, true)
}

// spawn starts another controlled goroutine.
//
//go:norace
func (s *Sched) spawn(f func()) {
	s.newThread(f, fmt.Sprintf("G%d", len(s.threads)))
	s.live++
	s.point()
}

// pick chooses the next thread to run, nil if none can.
//
//go:norace
func (s *Sched) pick(from *thread) *thread {
	var enabled []*thread
	fromEnabled := false
	if from != nil && !from.done && (from.wait == nil || s.abort || from.wait.Ready()) {
		enabled = append(enabled, from)
		fromEnabled = true
	}
	for _, t := range s.threads {
		if t != from && !t.done && (t.wait == nil || s.abort || t.wait.Ready()) {
			enabled = append(enabled, t)
		}
	}
	if len(enabled) == 0 {
		return nil
	}
	if s.abort {
		return enabled[0]
	}
	c := Choose(len(enabled), !fromEnabled, 's')
	if fromEnabled && c > 0 {
		s.Preemptions++
	}
	return enabled[c]
}

//go:norace
func (s *Sched) switchFrom(t *thread, exiting bool) {
	next := s.pick(t)
	if next == nil {
		// Every remaining thread waits.
		s.outcome = "deadlock:"
		for _, x := range s.threads {
			if !x.done && x.wait != nil {
				s.outcome += " " + x.name + " waits for " + x.wait.What() + ";"
			}
		}
		s.abort = true
		next = s.pick(t)
		if next == nil {
			return
		}
	}
	if next == t {
		return
	}
	s.Switches++
	s.cur = next
	raceOff()
	next.wake <- struct{}{}
	if !exiting {
		<-t.wake
	}
	raceOn()
}

// point is a scheduling point of the running thread.
//
//go:norace
func (s *Sched) point() {
	t := s.cur
	s.Points++
	s.switchFrom(t, false)
	if s.abort && !t.done {
		panic(abortRun{})
	}
}

// block suspends the running thread until w is ready.
//
//go:norace
func (s *Sched) block(w Waiter) {
	t := s.cur
	t.wait = w
	s.Points++
	s.switchFrom(t, false)
	t.wait = nil
	if s.abort {
		panic(abortRun{})
	}
}

// SyncPoint is called before every synchronization operation.
//
//go:norace
func SyncPoint() {
	steps++
	if steps > budget {
		over()
	}
	if sched != nil {
		sched.point()
	}
}

// Aborting reports whether the controlled run is being torn down.
//
//go:norace
func Aborting() bool { return sched != nil && sched.abort }

// Controlled reports whether a controlled run is in progress.
//
//go:norace
func Controlled() bool { return sched != nil }

// Wait blocks the running thread until w is ready. Outside of a controlled
// run nobody else could make it ready, unless the code under test started
// goroutines: then false is returned and the caller must wait for real.
//
//go:norace
func Wait(w Waiter) bool {
	if sched != nil {
		for !w.Ready() {
			sched.block(w)
		}
		return true
	}
	if w.Ready() {
		return true
	}
	if atomic.LoadInt32(&extra) > 0 {
		return false
	}
	panic(Deadlock{w.What()})
}

// Tick returns increasing numbers, used to time-stamp calls and returns.
//
//go:norace
func Tick() int64 {
	if sched == nil {
		return 0
	}
	sched.clock++
	return sched.clock
}

func goExtra(f func()) {
	atomic.AddInt32(&extra, 1)
	go func() {
		defer atomic.AddInt32(&extra, -1)
		f()
	}()
}
