package checks

import (
	"fmt"
	"runtime"
	"sync"
	"sync/atomic"
	"time"

	"verif/rtx"
)

// A scheduler runs threads one at a time, under a schedule: the numbers of the
// points after which the running thread is preempted in favour of the next one.
type scheduler struct {
	mu       sync.Mutex
	th       []*thread
	cur      atomic.Pointer[thread]
	stepOnly bool
	sched    []int64
	taken    int   // preemptions taken
	limit    int64 // the point at which the current thread is preempted
	points   int64
	blocked  int32
	progress atomic.Int64
	dead     string
	finished chan bool
	fair     int64 // a thread gives way after that many points
}

type thread struct {
	s      *scheduler
	id     int
	g      uintptr
	gate   chan bool
	start  chan func()
	parked bool // waits at its gate
	done   bool
	n      int64
	fair   int64 // it gives way there, in case it waits for another in a loop
}

// fairness is more than any operation but the huge ones has points.
const fairness = 300000

func newScheduler(n int) *scheduler {
	s := &scheduler{finished: make(chan bool, 1), fair: fairness}
	ready := make(chan bool)
	for i := 0; i < n; i++ {
		t := &thread{s: s, id: i, gate: make(chan bool, 1), start: make(chan func())}
		s.th = append(s.th, t)
		go func() {
			t.g = rtx.G()
			ready <- true
			for f := range t.start {
				<-t.gate
				f()
				s.end(t)
			}
		}()
		<-ready
	}
	go s.monitor()
	return s
}

// run runs the functions, one for each thread, starting with the first.
func (s *scheduler) run(sched []int64, fs []func()) {
	s.sched, s.taken, s.points, s.blocked, s.dead = sched, 0, 0, 0, ""
	for i, t := range s.th {
		t.done = i >= len(fs)
		t.parked, t.n = true, 0
		if !t.done {
			t.start <- fs[i]
		}
	}
	rtx.Schedule(s.hook, s.block)
	s.mu.Lock()
	s.resume(s.th[0])
	s.mu.Unlock()
	<-s.finished
	rtx.Schedule(nil, nil)
	s.cur.Store(nil)
}

// resume makes t the current thread. The caller holds the lock.
func (s *scheduler) resume(t *thread) {
	s.limit = 1 << 60
	if s.taken < len(s.sched) {
		s.limit = t.n + s.sched[s.taken]
	}
	t.fair = t.n + s.fair
	s.cur.Store(t)
	if t.parked {
		t.parked = false
		t.gate <- true
	}
}

// next is the next thread after t that hasn't ended, or nil.
func (s *scheduler) next(t *thread) *thread {
	for i := 1; i < len(s.th); i++ {
		u := s.th[(t.id+i)%len(s.th)]
		if !u.done {
			return u
		}
	}
	return nil
}

func (s *scheduler) hook(step bool) {
	if s.stepOnly && !step {
		return
	}
	g := rtx.G()
	t := s.cur.Load()
	if t == nil || t.g != g {
		s.stray(g)
		return
	}
	t.n++
	s.points++
	s.blocked = 0
	if t.n != s.limit && t.n != t.fair {
		return
	}
	s.mu.Lock()
	u := s.next(t)
	if u == nil {
		s.mu.Unlock()
		return
	}
	if t.n == s.limit {
		s.taken++
	}
	s.yieldTo(t, u)
}

// yieldTo parks t, which is the current thread, and resumes u. The caller holds
// the lock, which is released.
func (s *scheduler) yieldTo(t, u *thread) {
	t.parked = true
	s.resume(u)
	s.mu.Unlock()
	<-t.gate
}

// stray handles the points of goroutines that aren't the current thread.
func (s *scheduler) stray(g uintptr) {
	for _, t := range s.th {
		if t.g == g && !t.done {
			// It was taken for stalled and goes on now: it waits for its turn.
			s.mu.Lock()
			if s.cur.Load() == t || t.done {
				s.mu.Unlock()
				return
			}
			t.parked = true
			s.mu.Unlock()
			<-t.gate
			return
		}
	}
}

// block is called where a goroutine has to wait for another.
func (s *scheduler) block() {
	t := s.cur.Load()
	if t == nil || t.g != rtx.G() {
		runtime.Gosched()
		return
	}
	s.mu.Lock()
	u := s.next(t)
	s.blocked++
	if u == nil || int(s.blocked) > 4*len(s.th) {
		s.mu.Unlock()
		// Perhaps it waits for a goroutine that isn't a thread.
		time.Sleep(time.Millisecond)
		if s.blocked > 2000 {
			s.dead = "deadlock: a thread waits for ever"
			panic(s.dead)
		}
		return
	}
	s.yieldTo(t, u)
}

// end is called when a thread's function has returned.
func (s *scheduler) end(t *thread) {
	s.mu.Lock()
	defer s.mu.Unlock()
	t.done = true
	if u := s.next(t); u != nil {
		if s.cur.Load() == t {
			s.resume(u)
		}
		return
	}
	s.finished <- true
}

// monitor resumes another thread when the current one doesn't get to its next
// point because it waits in a way that isn't visible, as for a channel.
func (s *scheduler) monitor() {
	last, lastT, since := int64(-1), (*thread)(nil), time.Now()
	for {
		time.Sleep(100 * time.Millisecond)
		t := s.cur.Load()
		if t == nil || s.points != last || t != lastT {
			last, lastT, since = s.points, t, time.Now()
			continue
		}
		if time.Since(since) < 2*time.Second {
			continue
		}
		s.mu.Lock()
		if s.cur.Load() == t && !t.parked {
			for i := 1; i < len(s.th); i++ {
				u := s.th[(t.id+i)%len(s.th)]
				if !u.done && u.parked {
					s.resume(u)
					break
				}
			}
		}
		s.mu.Unlock()
		since = time.Now()
	}
}

// explore runs every schedule with at most bound preemptions. body makes the
// threads' functions and a check of their results. It calls tick now and then.
func (s *scheduler) explore(bound int, body func() ([]func(), func() string), tick func(schedules, points int64)) (schedules, points int64, fail string) {
	last := time.Now()
	run := func(sched []int64) int {
		fs, check := body()
		s.run(sched, fs)
		schedules++
		points += s.points
		what := check()
		if s.dead != "" && what == "" {
			what = s.dead
		}
		if what != "" {
			fail = fmt.Sprintf("schedule %v (preemption after that many points of the running thread): %s", sched, what)
		}
		if schedules%256 == 0 && time.Since(last) > 300*time.Millisecond {
			last = time.Now()
			tick(schedules, points)
		}
		return s.taken
	}
	// A schedule whose last preemption isn't taken ends its loop: the thread
	// ended before that point.
	var rec func(sched []int64) bool
	rec = func(sched []int64) bool {
		for p := int64(1); ; p++ {
			x := append(sched[:len(sched):len(sched)], p)
			n := run(x)
			if fail != "" {
				return false
			}
			if n < len(x) {
				return true
			}
			if len(x) < bound && !rec(x) {
				return false
			}
		}
	}
	run(nil)
	if fail == "" && bound > 0 {
		rec(nil)
	}
	return
}

// explorePicked runs the schedule without preemptions and then those that
// preempt the first thread at one of k points spread over its run, and there
// the second one at none or one of k points spread over its run.
func (s *scheduler) explorePicked(k int, body func() ([]func(), func() string), tick func(schedules, points int64)) (schedules, points int64, fail string) {
	run := func(sched ...int64) {
		if fail != "" {
			return
		}
		fs, check := body()
		s.run(sched, fs)
		schedules++
		points += s.points
		if fail = check(); fail == "" {
			fail = s.dead
		}
		if fail != "" {
			fail = fmt.Sprintf("schedule %v (preemption after that many points of the running thread): %s", sched, fail)
		}
		tick(schedules, points)
	}
	run()
	n, m := s.th[0].n, s.th[1].n
	for i := 1; i <= k; i++ {
		p := n * int64(i) / int64(k+1)
		run(p)
		for j := 1; j <= k; j++ {
			run(p, m*int64(j)/int64(k+1))
		}
	}
	return
}
