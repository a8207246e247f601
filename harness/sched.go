package main

// A cooperative scheduler. The library is built with a call to point before
// each of its statements; goroutines under control run one at a time and hand
// over only where the explorer says so.

import (
	"context"
	"fmt"
	"runtime"
	"runtime/pprof"
	"strings"
	"sync/atomic"
	"time"
	"unsafe"
)

//go:linkname profLabel runtime/pprof.runtime_getProfLabel
func profLabel() unsafe.Pointer

const maxCtl = 3

const (
	evYield = iota
	evDone
)

type schedEvent struct{ id, kind int }

type scheduler struct {
	n       int
	label   [maxCtl]unsafe.Pointer
	wake    [maxCtl]chan struct{}
	ev      chan schedEvent
	steps   [maxCtl]int64 // points passed
	limit   [maxCtl]int64 // yield at this one
	failure [maxCtl]interface{}
	text    [maxCtl]string
	blocked int // how often a goroutine had to wait for another
}

var theSched atomic.Pointer[scheduler]

//go:norace
func (s *scheduler) me() int {
	l := profLabel()
	if l == nil {
		return -1
	}
	for i := 0; i < s.n; i++ {
		if s.label[i] == l {
			return i
		}
	}
	return -1
}

// point is called by the library.
//
//go:norace
func point() {
	s := theSched.Load()
	if s == nil {
		return
	}
	id := s.me()
	if id < 0 {
		return
	}
	s.steps[id]++
	if s.steps[id] < s.limit[id] {
		return
	}
	s.handOver(id)
}

//go:norace
func (s *scheduler) handOver(id int) {
	raceIgnoreSync()
	s.ev <- schedEvent{id, evYield}
	<-s.wake[id]
	raceHeedSync()
}

//go:norace
func (s *scheduler) setLabel(id int) {
	pprof.SetGoroutineLabels(pprof.WithLabels(context.Background(), pprof.Labels("ctl", string(rune('0'+id)))))
	s.label[id] = profLabel()
}

//go:norace
func (s *scheduler) enter(id int) {
	s.setLabel(id)
	raceIgnoreSync()
	s.ev <- schedEvent{id, evYield}
	<-s.wake[id]
	raceHeedSync()
}

func (s *scheduler) body(id int, f func() string, done chan int) {
	s.enter(id)
	defer func() {
		s.failure[id] = recover()
		s.leave(id)
		done <- id
	}()
	s.text[id] = f()
}

//go:norace
func (s *scheduler) leave(id int) {
	raceIgnoreSync()
	s.ev <- schedEvent{id, evDone}
	raceHeedSync()
}

//go:noinline
func ctl0(s *scheduler, f func() string, done chan int) { s.body(0, f, done) }

//go:noinline
func ctl1(s *scheduler, f func() string, done chan int) { s.body(1, f, done) }

//go:noinline
func ctl2(s *scheduler, f func() string, done chan int) { s.body(2, f, done) }

// waits tells whether a goroutine waits for another one.
func waits(id int) bool {
	buf := make([]byte, 1<<20)
	buf = buf[:runtime.Stack(buf, true)]
	for _, g := range strings.Split(string(buf), "\n\n") {
		if !strings.Contains(g, fmt.Sprintf("main.ctl%d(", id)) {
			continue
		}
		head := g
		if i := strings.IndexByte(g, '\n'); i >= 0 {
			head = g[:i]
		}
		for _, s := range []string{"running", "runnable", "syscall", "sleep", "IO wait"} {
			if strings.Contains(head, "["+s) {
				return false
			}
		}
		return true
	}
	return false
}

// run is a stretch of a schedule: a goroutine and the number of points that it
// passes before it is preempted, 0 for all.
type run struct {
	id int
	n  int64
}

// runSchedule runs the functions under the given schedule; what is left at its
// end is run to completion in order. It returns their results and the number
// of points that each passed.
//
//go:norace
func runSchedule(x *X, fs []func() string, plan []run) ([]string, []int64) {
	s := &scheduler{n: len(fs), ev: make(chan schedEvent, 64)}
	done := make(chan int, len(fs))
	for i, f := range fs {
		s.wake[i] = make(chan struct{}, 1)
		switch i {
		case 0:
			go ctl0(s, f, done)
		case 1:
			go ctl1(s, f, done)
		case 2:
			go ctl2(s, f, done)
		}
	}
	const (
		stReady = iota
		stWaits
		stDone
	)
	var state [maxCtl]int
	for range fs {
		<-s.ev
	}
	theSched.Store(s)
	defer theSched.Store(nil)
	handle := func(e schedEvent) {
		if e.kind == evDone {
			state[e.id] = stDone
		} else {
			state[e.id] = stReady
		}
	}
	// grant lets one goroutine run until it hands over, ends or has to wait
	grant := func(id int, n int64) {
		s.limit[id] = 1 << 60
		if n > 0 {
			s.limit[id] = s.steps[id] + n
		}
		state[id] = -1
		s.wake[id] <- struct{}{}
		stuck := 0
		for state[id] == -1 {
			select {
			case e := <-s.ev:
				handle(e)
			case <-time.After(2 * time.Millisecond):
				if waits(id) {
					stuck++
				} else {
					stuck = 0
				}
				if stuck >= 3 {
					state[id] = stWaits
					s.limit[id] = 0 // hand over as soon as it goes on
					s.blocked++
				}
			}
		}
	}
	i := 0
	deadline := time.Now().Add(10 * time.Second)
	for {
		select {
		case e := <-s.ev:
			handle(e)
			continue
		default:
		}
		left := 0
		for k := 0; k < s.n; k++ {
			if state[k] != stDone {
				left++
			}
		}
		if left == 0 {
			break
		}
		if i < len(plan) {
			r := plan[i]
			i++
			if state[r.id] == stReady {
				grant(r.id, r.n)
			}
			continue
		}
		next := -1
		for k := 0; k < s.n && next < 0; k++ {
			if state[k] == stReady {
				next = k
			}
		}
		if next >= 0 {
			grant(next, 0)
			continue
		}
		if time.Now().After(deadline) {
			x.Fail("the goroutines wait for each other forever")
		}
		time.Sleep(time.Millisecond)
	}
	for range fs {
		<-done
	}
	for k := range fs {
		if p := s.failure[k]; p != nil {
			if v, ok := p.(*violation); ok {
				panic(v)
			}
			x.Fail("goroutine %d panics: %v", k, p)
		}
	}
	return s.text[:s.n], s.steps[:s.n]
}
