// Package vrt is the runtime behind the instrumentation: step budgets, an
// explorer of nondeterministic choices, and a controlled scheduler.
package vrt

import (
	"fmt"
	"sort"
	"time"
)

// BudgetExceeded is the panic value when the code under test executes more
// statements than allowed: a hang or unbounded recursion.
type BudgetExceeded struct{ Steps int64 }

func (b BudgetExceeded) Error() string {
	return fmt.Sprintf("did not finish within %d executed statements (hang)", b.Steps)
}

// Deadlock is the panic value when the code under test blocks for ever.
type Deadlock struct{ What string }

func (d Deadlock) Error() string { return "blocks for ever: " + d.What }

var (
	// steps executed since the last SetBudget.
	steps  int64
	budget int64 = 1 << 62
	// extra counts goroutines started by the code under test outside of a
	// controlled run.
	extra int32
	// sched is the controlled scheduler in charge, if any.
	sched *Sched
	// TotalSteps counts every executed statement.
	TotalSteps int64
	// PointScheduling makes every statement (not just synchronization
	// operations) a scheduling point.
	PointScheduling bool
)

// SetBudget starts a new count of steps with the given limit.
//
//go:norace
func SetBudget(n int64) {
	TotalSteps += steps
	steps, budget = 0, n
}

// Steps returns the number of steps since SetBudget.
//
//go:norace
func Steps() int64 { return steps }

// Point is called before every statement of the code under test, and by the
// environment (storage, source filesystems) for every operation.
//
//go:norace
func Point() {
	steps++
	if steps > budget {
		over()
	}
	if sched != nil && PointScheduling {
		sched.point()
	}
}

//go:norace
func over() {
	b := budget
	budget = 1 << 62 // let deferred functions finish
	panic(BudgetExceeded{b})
}

// Explorer enumerates all sequences of choices, depth first, with a bound on
// the total cost of the choices that differ from the default (0).
type Explorer struct {
	Bound int
	nodes []node
	pos   int
	// Executions counts completed executions, Choices all choice points.
	Executions, Choices int64
	// Diverged is set if a replayed prefix does not offer the same choices.
	Diverged string
}

type node struct {
	n, cur int
	free   bool
	tag    byte
}

// ex is the explorer consulted by Choose.
var ex *Explorer

// Run executes f once for every sequence of choices within the bound, until f
// returns false.
func (e *Explorer) Run(f func() bool) {
	e.nodes = nil
	for {
		e.pos = 0
		ex = e
		ok := f()
		ex = nil
		e.Executions++
		if e.Diverged == "" && e.pos < len(e.nodes) {
			e.Diverged = fmt.Sprintf("replayed execution ended after %d of %d choices", e.pos, len(e.nodes))
		}
		if !ok || e.Diverged != "" || !e.next() {
			return
		}
	}
}

// Replay executes f once with the given choices.
func (e *Explorer) Replay(choices []int, f func()) {
	e.nodes = nil
	for _, c := range choices {
		e.nodes = append(e.nodes, node{n: -1, cur: c})
	}
	e.pos = 0
	ex = e
	f()
	ex = nil
}

// Path returns the choices of the current (or last) execution.
//
//go:norace
func (e *Explorer) Path() []int {
	var p []int
	for _, n := range e.nodes {
		p = append(p, n.cur)
	}
	return p
}

func (e *Explorer) next() bool {
	for len(e.nodes) > 0 {
		i := len(e.nodes) - 1
		nd := &e.nodes[i]
		if nd.cur+1 < nd.n {
			cost := 0
			for _, p := range e.nodes[:i] {
				if p.cur > 0 && !p.free {
					cost++
				}
			}
			if nd.free || cost+1 <= e.Bound {
				nd.cur++
				return true
			}
		}
		e.nodes = e.nodes[:i]
	}
	return false
}

//go:norace
func (e *Explorer) choose(n int, free bool, tag byte) int {
	e.Choices++
	if e.pos < len(e.nodes) {
		nd := &e.nodes[e.pos]
		e.pos++
		if nd.n == -1 {
			nd.n, nd.free, nd.tag = n, free, tag
		}
		if nd.n != n || nd.free != free || nd.tag != tag || nd.cur >= n {
			if e.Diverged == "" {
				e.Diverged = fmt.Sprintf("choice %d offered %d%c options when replayed, %d%c before", e.pos-1, n, tag, nd.n, nd.tag)
			}
			return 0
		}
		return nd.cur
	}
	e.nodes = append(e.nodes, node{n: n, free: free, tag: tag})
	e.pos++
	return 0
}

// Exploring reports whether an explorer is active.
func Exploring() bool { return ex != nil }

// Choose returns a number below n chosen by the explorer. A choice other than
// 0 costs one deviation unless free.
//
//go:norace
func Choose(n int, free bool, tag byte) int {
	if ex == nil || n <= 1 {
		return 0
	}
	return ex.choose(n, free, tag)
}

// MapOrders makes the iteration order of maps a (free) choice.
var MapOrders bool

// Channels tells that the code under test may use channels, which the
// scheduler doesn't control.
var Channels bool

// MapCost makes every deviation from the sorted order cost one.
var MapCost bool

// ClockShift is added to the time of day.
var ClockShift time.Duration

// Clock is the time of day as the code under test sees it.
func Clock(t time.Time) time.Time {
	if ClockShift != 0 {
		return t.Add(ClockShift).Round(0)
	}
	return t
}

// MapRanges counts the map iterations over at least two entries.
var MapRanges int64

//go:norace
func countRange() { MapRanges++ }

// Entry is an entry of a map that is being iterated.
type Entry[K comparable, V any] struct {
	m   map[K]V
	Key K
}

// Live reports whether the entry still exists.
func (e Entry[K, V]) Live() bool { _, ok := e.m[e.Key]; return ok }

// Value returns the current value of the entry.
func (e Entry[K, V]) Value() V { return e.m[e.Key] }

// Entries returns the entries of a map in the order chosen by the explorer.
func Entries[M ~map[K]V, K comparable, V any](m M) []Entry[K, V] {
	out := make([]Entry[K, V], 0, len(m))
	for k := range m {
		out = append(out, Entry[K, V]{m, k})
	}
	if len(out) < 2 {
		return out
	}
	countRange()
	names := make(map[K]string, len(out))
	for _, e := range out {
		if s, ok := any(e.Key).(string); ok {
			names[e.Key] = s
		} else {
			names[e.Key] = fmt.Sprint(e.Key)
		}
	}
	sort.SliceStable(out, func(i, j int) bool { return names[out[i].Key] < names[out[j].Key] })
	if MapOrders && ex != nil {
		for i := 0; i < len(out)-1; i++ {
			j := i + Choose(len(out)-i, !MapCost, 'm')
			e := out[j]
			copy(out[i+1:j+1], out[i:j])
			out[i] = e
		}
	}
	return out
}

// Same returns v.
func Same[T any](v T, _ any) T { return v }

// Go starts a goroutine.
func Go(f func()) {
	if sched != nil {
		sched.spawn(f)
		return
	}
	goExtra(f)
}
