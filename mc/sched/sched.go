// Package sched is what the instrumented build of the code under test calls: a
// point before every statement, at which a controlled execution can switch to
// another goroutine, and an order for every iteration over a map.
package sched

import (
	"fmt"
	"iter"
	"sort"
	"sync"
	"sync/atomic"
	"time"
)

// Instrumented is set by the init functions of an instrumented build.
var Instrumented bool

var active atomic.Pointer[Run]

// Point is called before every statement of the code under test.
//
//go:norace
func Point() {
	raceOff()
	if r := active.Load(); r != nil {
		r.point()
	}
	raceOn()
}

// Switch says: at the At-th point of the execution go on with thread To.
type Switch struct{ At, To int }

// Run is one controlled execution of some threads. Only one thread runs at a
// time; it goes on until a switch, its end, or (when it blocks) a stall.
type Run struct {
	switches []Switch
	wake     []chan struct{}
	alive    []bool
	cur      int
	n        atomic.Int64
	free     atomic.Bool
	mu       sync.Mutex
	done     chan struct{}
	all      sync.WaitGroup // orders the threads before what follows the execution
	left     int

	Points  int  // points passed while more than one thread was left
	Stalled bool // a thread blocked, so that the rest ran without control
	Taken   int  // switches that took place
}

//go:norace
func (r *Run) point() {
	if r.free.Load() {
		return
	}
	n := r.n.Add(1)
	if len(r.switches) == 0 || int(n) < r.switches[0].At {
		return
	}
	r.mu.Lock()
	if r.free.Load() || len(r.switches) == 0 {
		r.mu.Unlock()
		return
	}
	to := r.switches[0].To
	r.switches = r.switches[1:]
	if to == r.cur || !r.alive[to] {
		r.mu.Unlock()
		return
	}
	me := r.cur
	r.cur = to
	r.Taken++
	r.mu.Unlock()
	r.wake[to] <- struct{}{}
	<-r.wake[me]
}

//go:norace
func (r *Run) end(me int) {
	raceOff()
	defer raceOn()
	r.mu.Lock()
	r.alive[me] = false
	r.left--
	left := r.left
	if left == 1 {
		r.Points = int(r.n.Load())
	}
	next := -1
	if !r.free.Load() {
		for i := range r.alive {
			if r.alive[i] {
				next = i
				r.cur = i
				break
			}
		}
	}
	r.mu.Unlock()
	if left == 0 {
		close(r.done)
		return
	}
	if next >= 0 {
		r.wake[next] <- struct{}{}
	}
}

//go:norace
func (r *Run) thread(i int, f func()) {
	raceOff()
	<-r.wake[i]
	raceOn()
	defer r.end(i)
	defer r.all.Done()
	f()
}

// Execute runs the threads under control, beginning with the first one given.
//
//go:norace
func Execute(first int, switches []Switch, threads ...func()) *Run {
	r := &Run{switches: switches, done: make(chan struct{}), cur: first, left: len(threads)}
	for range threads {
		r.wake = append(r.wake, make(chan struct{}, 2))
		r.alive = append(r.alive, true)
	}
	r.all.Add(len(threads))
	for i, f := range threads {
		go r.thread(i, f)
	}
	active.Store(r)
	r.wake[first] <- struct{}{}
	last, idle := int64(-1), 0
	tick := time.NewTimer(30 * time.Millisecond)
	defer tick.Stop()
wait:
	for {
		select {
		case <-r.done:
			break wait
		case <-tick.C:
			if n := r.n.Load(); n != last {
				last, idle = n, 0
			} else if idle++; idle >= 4 && !r.free.Load() {
				// the running thread waits for one that is not running
				r.mu.Lock()
				r.Stalled = true
				r.free.Store(true)
				for i := range r.alive {
					if r.alive[i] {
						select {
						case r.wake[i] <- struct{}{}:
						default:
						}
					}
				}
				r.mu.Unlock()
			}
			tick.Reset(30 * time.Millisecond)
		}
	}
	active.Store(nil)
	r.all.Wait()
	return r
}

var mapOrder atomic.Pointer[func(n int) []int]

// SetMapOrder installs the order in which iterations over maps with n > 1 keys
// visit the sorted keys; nil leaves the order to the runtime.
func SetMapOrder(f func(n int) []int) {
	if f == nil {
		mapOrder.Store(nil)
		return
	}
	mapOrder.Store(&f)
}

// Map iterates over a map in the order of the explorer.
func Map[M ~map[K]V, K comparable, V any](m M) iter.Seq2[K, V] {
	raceOff()
	f := mapOrder.Load()
	raceOn()
	return func(yield func(K, V) bool) {
		if f == nil || len(m) < 2 {
			for k, v := range m {
				if !yield(k, v) {
					return
				}
			}
			return
		}
		type entry struct {
			k K
			s string
		}
		es := make([]entry, 0, len(m))
		for k := range m {
			es = append(es, entry{k, fmt.Sprintf("%T %v", k, k)})
		}
		sort.SliceStable(es, func(i, j int) bool { return es[i].s < es[j].s })
		for _, i := range (*f)(len(es)) {
			if v, ok := m[es[i].k]; ok && !yield(es[i].k, v) {
				return
			}
		}
	}
}
