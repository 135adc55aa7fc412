// Package vsched is a cooperative scheduler for stateless model checking of
// goroutines: exactly one thread runs at a time, it can be preempted at every
// P (put before every statement of the code under test by cmd/instr) and at
// every operation of the lock models in verif/vsync. All its own hand-over
// synchronisation is hidden from the race detector, so that in a -race build
// two accesses are reported unless the code under test orders them itself.
package vsched

import (
	"fmt"
	"runtime/debug"
)

// Chooser makes the scheduling choices.
type Chooser interface {
	Pick(n int) int // free choice: which thread runs when one blocks or ends
	Dev(n int) int  // preemption: 0 is to go on
}

// Cond is what a blocked thread waits for. Ready is called by whichever
// thread runs and must be hidden from the race detector.
type Cond interface{ Ready() bool }

// Flag is a Cond that is set once.
type Flag struct{ on bool }

//go:norace
func (f *Flag) Ready() bool { return f.on }

//go:norace
func (f *Flag) Set() { f.on = true }

type thread struct {
	id   int
	done bool
	cond Cond // blocked until it is ready
	wake chan struct{}
	err  string
	seen []uint8
	run  int // points passed since it was scheduled
}

// Sched is one execution.
type Sched struct {
	c        Chooser
	ts       []*thread
	cur      *thread
	main     chan struct{}
	Deadlock string
	Points   int
	Switches int
	clock    int
	Horizon  bool
	sync     [1]byte
}

var active *Sched

const spin = 20000

// Active reports that a controlled execution is going on.
//
//go:norace
func Active() bool { return active != nil }

// P is a scheduling point.
//
//go:norace
func P() {
	if s := active; s != nil {
		s.point()
	}
}

// Visits bounds how often one thread can be preempted at one statement within
// an execution (0: no bound).
var Visits = 0

// S is the scheduling point before the statement with that number.
//
//go:norace
func S(site int) {
	s := active
	if s == nil {
		return
	}
	if Visits > 0 {
		t := s.cur
		for len(t.seen) <= site {
			t.seen = append(t.seen, make([]uint8, 1024)...)
		}
		if int(t.seen[site]) >= Visits {
			s.Points++
			if t.run++; t.run <= spin {
				return
			}
		} else {
			t.seen[site]++
		}
	}
	s.point()
}

//go:norace
func (t *thread) ready() bool { return !t.done && (t.cond == nil || t.cond.Ready()) }

//go:norace
func (s *Sched) others() (out []*thread) {
	for _, t := range s.ts {
		if t != s.cur && t.ready() {
			out = append(out, t)
		}
	}
	return
}

//go:norace
func (s *Sched) point() {
	s.Points++
	me := s.cur
	me.run++
	o := s.others()
	if len(o) == 0 {
		if me.run > 50*spin {
			panic("vsched: a call does not terminate")
		}
		return
	}
	if me.run > spin { // a thread that waits by spinning lets the others run
		s.Horizon = true
		me.run = 0
		s.to(o[0])
		return
	}
	if k := s.c.Dev(1 + len(o)); k > 0 {
		s.to(o[k-1])
	}
}

// to hands over to t and waits to be scheduled again.
//
//go:norace
func (s *Sched) to(t *thread) {
	me := s.cur
	s.Switches++
	s.cur = t
	me.run = 0
	raceOff()
	t.wake <- struct{}{}
	<-me.wake
	raceOn()
}

// Block waits until cond holds; other threads run meanwhile.
//
//go:norace
func Block(what string, cond Cond) {
	s := active
	me := s.cur
	for !cond.Ready() {
		me.cond = cond
		o := s.others()
		if len(o) == 0 {
			s.dead(what)
		}
		s.to(o[s.c.Pick(len(o))])
	}
	me.cond = nil
}

// dead reports a deadlock; the calling thread never returns.
//
//go:norace
func (s *Sched) dead(what string) {
	s.Deadlock = fmt.Sprintf("deadlock: thread %d waits for %s and no thread can run\n%s", s.cur.id, what, debug.Stack())
	raceOff()
	s.main <- struct{}{}
	select {}
}

//go:norace
func (s *Sched) finish(t *thread) {
	t.done = true
	raceReleaseMerge(&s.sync[0])
	o := s.others()
	if len(o) > 0 {
		n := o[s.c.Pick(len(o))]
		s.cur = n
		s.Switches++
		raceOff()
		n.wake <- struct{}{}
		raceOn()
		return
	}
	for _, u := range s.ts {
		if !u.done {
			s.Deadlock = fmt.Sprintf("deadlock: thread %d waits forever and all others have ended", u.id)
		}
	}
	raceOff()
	s.main <- struct{}{}
	raceOn()
}

//go:norace
func (s *Sched) body(t *thread, f func()) {
	raceOff()
	<-t.wake
	raceOn()
	func() {
		defer func() {
			if e := recover(); e != nil {
				t.err = fmt.Sprintf("%v\n%s", e, debug.Stack())
			}
		}()
		f()
	}()
	s.finish(t)
}

// Run executes the threads under the chooser and returns when all have ended
// or no one can run. It returns the panics of threads, if any.
//
//go:norace
func Run(c Chooser, fs ...func()) (s *Sched, errs []string) {
	s = &Sched{c: c, main: make(chan struct{}, 1)}
	for i, f := range fs {
		t := &thread{id: i, wake: make(chan struct{}, 1)}
		s.ts = append(s.ts, t)
		go s.body(t, f)
	}
	active = s
	first := s.ts[c.Pick(len(s.ts))]
	s.cur = first
	raceOff()
	first.wake <- struct{}{}
	<-s.main
	raceOn()
	active = nil
	raceAcquire(&s.sync[0])
	for _, t := range s.ts {
		errs = append(errs, t.err)
	}
	return
}

// Now is a logical clock for real-time order.
//
//go:norace
func Now() int {
	s := active
	if s == nil {
		return 0
	}
	s.clock++
	return s.clock
}

var resets [2][]func()

// OnReset registers code that puts the package variables of a file of the code
// under test back to their initial values (pass 0) or runs its init functions
// (pass 1).
func OnReset(f func(), pass int) { resets[pass] = append(resets[pass], f) }

// Reset gives the code under test the package state of a fresh process.
// Initialisers run three times so that those that use variables declared
// later see initial values too.
func Reset() {
	for i := 0; i < 3; i++ {
		for _, f := range resets[0] {
			f()
		}
	}
	for _, f := range resets[1] {
		f()
	}
}

// Zero sets *p to its zero value.
func Zero[T any](p *T) { *p = *new(T) }
