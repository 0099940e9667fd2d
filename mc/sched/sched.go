// Package sched is a cooperative scheduler. Instrumented code calls Point before every
// statement; exactly one thread runs at a time, and a schedule is the list of points at which
// another thread than the default one is chosen. Handing over is invisible to the race
// detector, so that only the synchronization of the code under test orders its accesses.
package sched

import (
	"fmt"
	"runtime/debug"
	"sync"
	"time"
)

const (
	MaxThreads = 16
	MaxSteps   = 1 << 18
	// a thread that runs this many points in a row while others could run is taken to be waiting for them
	fairness = 20000
)

// Dev chooses Thread at step Step instead of the default.
type Dev struct {
	Step   int32
	Thread int8
}

// Step is what happened at one scheduling point.
type Step struct {
	Cur     int8   // thread that reached the point, -1 if it cannot go on
	Enabled uint16 // threads that can run
	Chosen  int8
	Pos     int32 // source position
}

type thread struct {
	wake    chan struct{}
	alive   bool
	blocked func() bool // nil or whether the thread is still blocked
	result  any
	pos     int32
	run     int
}

var (
	active   bool
	cur      int8
	threads  [MaxThreads]thread
	nthreads int8
	steps    [MaxSteps]Step
	nsteps   int32
	devs     [64]Dev
	ndevs    int
	nextDev  int
	deadlock bool
	overflow bool
	mainWake = make(chan struct{}, 1)
	join     sync.WaitGroup

	// Files are the names of the instrumented files.
	Files []string
)

// Where names a source position.
func Where(pos int32) string {
	if pos == 0 {
		return "start"
	}
	f, l := int(pos>>16), int(pos&0xffff)
	if f-1 < len(Files) && f > 0 {
		return fmt.Sprintf("%s:%d", Files[f-1], l)
	}
	return fmt.Sprintf("pos %d", pos)
}

// Point is a scheduling point.
//
//go:norace
func Point(pos int32) {
	if !active {
		return
	}
	t := cur
	threads[t].pos = pos
	yield(t)
}

// Block is a scheduling point of a thread that cannot go on while blocked holds.
//
//go:norace
func Block(blocked func() bool) {
	if !active {
		return
	}
	t := cur
	if !blocked() {
		return
	}
	threads[t].blocked = blocked
	yield(t)
	threads[t].blocked = nil
}

// Active tells whether a controlled execution is under way.
//
//go:norace
func Active() bool { return active }

// Current is the running thread.
//
//go:norace
func Current() int8 { return cur }

//go:norace
func can(i int8) bool {
	return threads[i].alive && (threads[i].blocked == nil || !threads[i].blocked())
}

//go:norace
func yield(t int8) {
	n := pick(t)
	if n == t {
		return
	}
	cur = n
	hide()
	if n < 0 {
		mainWake <- struct{}{}
	} else {
		threads[n].wake <- struct{}{}
	}
	if t >= 0 && threads[t].alive {
		<-threads[t].wake
	}
	show()
}

// pick chooses the next thread, -1 if none can run.
//
//go:norace
func pick(t int8) int8 {
	var enabled uint16
	var first int8 = -1
	for i := int8(0); i < nthreads; i++ {
		if can(i) {
			enabled |= 1 << uint(i)
			if first < 0 {
				first = i
			}
		}
	}
	if first < 0 {
		for i := int8(0); i < nthreads; i++ {
			if threads[i].alive {
				deadlock = true
			}
		}
		return -1
	}
	c := first
	s := int8(-1)
	if t >= 0 && enabled>>uint(t)&1 != 0 {
		s, c = t, t
		threads[t].run++
		if threads[t].run > fairness {
			threads[t].run = 0
			for k := int8(1); k < nthreads; k++ {
				if j := (t + k) % nthreads; enabled>>uint(j)&1 != 0 {
					c = j
					break
				}
			}
		}
	}
	if nextDev < ndevs && devs[nextDev].Step == nsteps {
		if d := devs[nextDev].Thread; enabled>>uint(d)&1 != 0 {
			c = d
		}
		nextDev++
	}
	if nsteps < MaxSteps {
		var p int32
		if t >= 0 {
			p = threads[t].pos
		}
		st := &steps[nsteps]
		st.Cur, st.Enabled, st.Chosen, st.Pos = s, enabled, c, p
		nsteps++
	} else {
		overflow = true
	}
	if c != t {
		threads[c].run = 0
	}
	return c
}

//go:norace
func spawn(f func() any) {
	i := nthreads
	nthreads++
	t := &threads[i]
	t.wake = make(chan struct{}, 1)
	t.alive = true
	t.blocked = nil
	t.result = nil
	t.pos = 0
	t.run = 0
	join.Add(1)
	go body(i, f)
}

// Go starts another thread of the execution (a go statement of the code under test).
func Go(f func()) {
	if !Active() {
		go f()
		return
	}
	spawn(func() any { f(); return nil })
	Point(0)
}

func body(i int8, f func() any) {
	defer join.Done()
	hide()
	wait(i)
	show()
	r := guarded(f)
	finish(i, r)
}

//go:norace
func wait(i int8) { <-threads[i].wake }

//go:norace
func finish(i int8, r any) {
	threads[i].result = r
	threads[i].alive = false
	yield(i)
}

// Panic is the result of a thread that panicked.
type Panic struct{ Text string }

func guarded(f func() any) (r any) {
	defer func() {
		if e := recover(); e != nil {
			st := string(debug.Stack())
			if len(st) > 3000 {
				st = st[:3000]
			}
			r = Panic{fmt.Sprintf("panic: %v\n%s", e, st)}
		}
	}()
	return f()
}

// Outcome of one execution.
type Outcome struct {
	Results  []any
	Steps    []Step // valid until the next execution
	Deadlock bool
	Overflow bool
}

// Watchdog ends the process when a thread runs or waits outside the scheduler for too long.
var Watchdog func()

// Run executes the threads under the schedule.
func Run(fs []func() any, schedule []Dev) Outcome {
	setup(schedule)
	for _, f := range fs {
		spawn(f)
	}
	begin()
	return end(len(fs))
}

//go:norace
func setup(schedule []Dev) {
	nthreads, nsteps, ndevs, nextDev = 0, 0, len(schedule), 0
	deadlock, overflow = false, false
	for i := 0; i < ndevs; i++ {
		devs[i] = schedule[i]
	}
}

//go:norace
func begin() {
	active = true
	cur = -1
	var t *time.Timer
	if Watchdog != nil {
		t = time.AfterFunc(60*time.Second, Watchdog)
	}
	n := pick(-1)
	cur = n
	hide()
	if n >= 0 {
		threads[n].wake <- struct{}{}
		<-mainWake
	}
	show()
	active = false
	if t != nil {
		t.Stop()
	}
}

//go:norace
func end(n int) Outcome {
	if deadlock {
		return Outcome{Steps: steps[:nsteps], Deadlock: true}
	}
	join.Wait() // the only edge back to the caller
	o := Outcome{Steps: steps[:nsteps], Overflow: overflow}
	for i := 0; i < n; i++ {
		o.Results = append(o.Results, threads[i].result)
		threads[i].result = nil
	}
	return o
}
