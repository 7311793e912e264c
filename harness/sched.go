package main

import (
	"bytes"
	"fmt"
	"runtime"
	"runtime/debug"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

// Sched is a cooperative scheduler: of its threads, one runs at a time, and at
// every scheduling point the generated choices decide which one continues.
type Sched struct {
	mu      sync.Mutex
	threads []*thread
	byGoid  sync.Map // goid -> *thread
	event   chan *thread
	choices []int
	pos     int
	cycle   bool // repeats the choices
	cur     *thread
	clock   int // counts invocations and responses
	trace   []string
	stuck   bool
	switchs int
}

type thread struct {
	s      *Sched
	id     int
	resume chan struct{}
	// guarded by s.mu
	state   int
	point   string
	spins   int // rounds without progress while waiting for a lock
	failure any
}

const (
	thRunning = iota
	thParked
	thDone
)

func goid() int64 {
	var b [64]byte
	n := runtime.Stack(b[:], false)
	f := bytes.Fields(b[:n])
	v, _ := strconv.ParseInt(string(f[1]), 10, 64)
	return v
}

func newSched(n int, choices []int) *Sched {
	s := &Sched{choices: choices, event: make(chan *thread, 64)}
	for i := 0; i < n; i++ {
		s.threads = append(s.threads, &thread{s: s, id: i, resume: make(chan struct{}, 1)})
	}
	return s
}

// hook is the scheduling point within code that runs on the thread's goroutine.
func (s *Sched) hook(point string) bool {
	v, ok := s.byGoid.Load(goid())
	if !ok {
		return false
	}
	v.(*thread).park(point)
	return true
}

// every returns a hook with one of n accesses as a scheduling point.
func (s *Sched) every(n int) func(point string) bool {
	var count atomic.Int64
	return func(point string) bool {
		if point == "begin" || point == "locked" || point == "committed" || count.Add(1)%int64(n) == 0 {
			return s.hook(point)
		}
		_, ok := s.byGoid.Load(goid())
		return ok
	}
}

// park stops the thread until it is scheduled again.
func (t *thread) park(point string) {
	t.s.mu.Lock()
	t.state, t.point = thParked, point
	t.s.mu.Unlock()
	t.s.event <- t
	<-t.resume
}

// tick returns the next moment of the history.
func (s *Sched) tick() int {
	s.mu.Lock()
	defer s.mu.Unlock()
	s.clock++
	return s.clock
}

// run executes the functions under the scheduler. It returns a description of
// a deadlock or the first failure of a thread.
func (s *Sched) run(fs []func(t *thread)) (deadlock string, fault any) {
	for i, f := range fs {
		t, f := s.threads[i], f
		go func() {
			id := goid()
			s.byGoid.Store(id, t)
			defer func() {
				if e := recover(); e != nil {
					if _, ok := e.(*failure); !ok {
						if _, ok := e.(HarnessError); !ok {
							st := string(debug.Stack())
							if fromRepo(st) {
								e = &failure{nil, "panic", fmt.Sprintf("panic: %v\n%s", e, st)}
							} else {
								e = HarnessError{fmt.Sprintf("%v\n%s", e, st)}
							}
						}
					}
					t.failure = e
				}
				s.byGoid.Delete(id)
				s.mu.Lock()
				t.state = thDone
				s.mu.Unlock()
				s.event <- t
			}()
			t.park("start")
			f(t)
		}()
	}
	for range fs {
		<-s.event
	}
	quiet := time.Duration(0)
	for {
		s.mu.Lock()
		var can, locked []*thread
		running := 0
		for _, t := range s.threads {
			switch {
			case t.state == thRunning:
				running++
			case t.state == thParked && t.point == "locked" && t.spins > 0:
				locked = append(locked, t)
			case t.state == thParked:
				can = append(can, t)
			}
		}
		s.mu.Unlock()
		if running == 0 && len(can)+len(locked) == 0 {
			break
		}
		if len(can) == 0 && running == 0 {
			// Every thread waits for the lock; it may have been released since.
			can = locked
			for _, t := range locked {
				if t.spins > 1000 {
					return "all threads wait for the lock of the store", nil
				}
			}
		}
		if len(can) == 0 {
			// Blocked in something that is not under control.
			if quiet > 60*time.Second {
				b := make([]byte, 1<<16)
				return "blocked for a minute:\n" + string(b[:runtime.Stack(b, true)]), nil
			}
			select {
			case <-s.event:
				quiet = 0
				s.progress(nil)
			case <-time.After(50 * time.Millisecond):
				quiet += 50 * time.Millisecond
			}
			continue
		}
		t := s.choose(can)
		if t != s.cur {
			s.switchs++
		}
		s.cur = t
		s.mu.Lock()
		was := t.point
		t.state = thRunning
		s.mu.Unlock()
		s.trace = append(s.trace, fmt.Sprintf("%d:%s", t.id, was))
		t.resume <- struct{}{}
		for wait := true; wait; {
			select {
			case u := <-s.event:
				wait = u != t
			case <-time.After(300 * time.Millisecond):
				wait = false // blocked by another thread, or slow
			}
		}
		s.mu.Lock()
		spin := was == "locked" && t.state == thParked && t.point == "locked"
		s.mu.Unlock()
		if spin || t.point == "locked" && was == "begin" {
			t.spins++
		} else {
			s.progress(t)
		}
	}
	for _, t := range s.threads {
		if t.failure != nil {
			return "", t.failure
		}
	}
	return "", nil
}

// progress lets threads that wait for the lock try again.
func (s *Sched) progress(by *thread) {
	for _, t := range s.threads {
		t.spins = 0
	}
}

func (s *Sched) choose(can []*thread) *thread {
	c := 0
	if s.pos < len(s.choices) {
		c = s.choices[s.pos]
	} else if s.cycle && len(s.choices) > 0 {
		c = s.choices[s.pos%len(s.choices)]
	}
	s.pos++
	// Zero continues the current thread; others count from the next one.
	n := len(s.threads)
	from := 0
	if s.cur != nil {
		from = s.cur.id
	}
	var order []*thread
	for i := 0; i < n; i++ {
		t := s.threads[(from+i)%n]
		for _, u := range can {
			if u == t {
				order = append(order, t)
			}
		}
	}
	return order[c%len(order)]
}

// running returns the thread that runs, if it is the only one.
func (s *Sched) running() *thread {
	s.mu.Lock()
	defer s.mu.Unlock()
	var one *thread
	for _, t := range s.threads {
		if t.state == thRunning {
			if one != nil {
				return nil
			}
			one = t
		}
	}
	return one
}

func (s *Sched) String() string { return strings.Join(s.trace, " ") }
