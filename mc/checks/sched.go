package checks

import (
	"sync"
	"time"

	"verifmc/core"
)

// sched runs one worker at a time: every worker stops at its next operation until
// it is chosen, so that a run is determined by the sequence of choices.
type sched struct {
	mu       sync.Mutex
	cond     *sync.Cond
	waiting  map[string]chan bool
	order    []string
	alive    int
	off      bool
	current  string
	timeouts int
}

func newSched(workers int) *sched {
	s := &sched{waiting: map[string]chan bool{}, alive: workers}
	s.cond = sync.NewCond(&s.mu)
	return s
}

// stop blocks the calling worker until it is chosen.
func (s *sched) stop(worker string) {
	s.mu.Lock()
	if s.off || s.waiting[worker] != nil {
		s.mu.Unlock()
		return
	}
	ch := make(chan bool)
	s.waiting[worker] = ch
	s.cond.Broadcast()
	s.mu.Unlock()
	<-ch
}

// ended tells that a worker will not stop again.
func (s *sched) ended() {
	s.mu.Lock()
	s.alive--
	s.cond.Broadcast()
	s.mu.Unlock()
}

// running is the worker chosen last.
func (s *sched) running() string {
	s.mu.Lock()
	defer s.mu.Unlock()
	return s.current
}

// run executes body under the choices made by pick, which gets the sorted waiting
// workers and the one that ran last (-1 if it is not waiting).
func (s *sched) run(body func(), pick func(n, last int) int) {
	done := make(chan struct{})
	go func() {
		body()
		s.mu.Lock()
		s.off = true
		s.cond.Broadcast()
		s.mu.Unlock()
		close(done)
	}()
	tick := time.NewTicker(5 * time.Millisecond)
	defer tick.Stop()
	go func() {
		for {
			select {
			case <-done:
				return
			case <-tick.C:
				s.cond.Broadcast()
			}
		}
	}()
	for {
		s.mu.Lock()
		since, seen := time.Now(), len(s.waiting)
		for !s.off && (len(s.waiting) == 0 || len(s.waiting) < s.alive) {
			s.cond.Wait()
			if len(s.waiting) != seen {
				since, seen = time.Now(), len(s.waiting)
			}
			// Workers that end early or do not run concurrently never stop.
			if len(s.waiting) > 0 && time.Since(since) > 100*time.Millisecond {
				s.timeouts++
				s.alive = len(s.waiting)
				break
			}
		}
		if s.off {
			for _, ch := range s.waiting {
				close(ch)
			}
			s.mu.Unlock()
			<-done
			return
		}
		names := sortedKeys(s.waiting)
		last := -1
		for i, n := range names {
			if n == s.current {
				last = i
			}
		}
		i := 0
		if len(names) > 1 {
			i = pick(len(names), last)
		}
		s.current = names[i]
		close(s.waiting[names[i]])
		delete(s.waiting, names[i])
		s.mu.Unlock()
	}
}

// explore runs every sequence of choices with at most bound preemptions (a
// preemption leaves a worker that could go on); negative means no bound.
// run must be deterministic for a given sequence of choices.
func explore(r *core.Runner, bound int, run func(pick func(n, last int) int) bool) (schedules int) {
	type point struct{ n, last, choice int }
	var path []point
	for {
		if r.Stop() {
			return schedules
		}
		depth, preempted := 0, 0
		var trace []point
		ok := run(func(n, last int) int {
			defer func() { depth++ }()
			p := point{n: n, last: last}
			if depth < len(path) && path[depth].n == n && path[depth].last == last {
				p.choice = path[depth].choice
			} else if last >= 0 {
				p.choice = last
			}
			if last >= 0 && p.choice != last {
				preempted++
			}
			trace = append(trace, p)
			return p.choice
		})
		schedules++
		if !ok {
			return schedules
		}
		// Advance to the next sequence. The order of choices at a point is: the running
		// worker first, then the others.
		path = trace
		for len(path) > 0 {
			k := len(path) - 1
			p := &path[k]
			next := -1
			start := 0
			if p.last >= 0 && p.choice == p.last {
				start = 0
			} else {
				start = p.choice + 1
			}
			for c := start; c < p.n; c++ {
				if c != p.last {
					next = c
					break
				}
			}
			if next >= 0 && bound >= 0 && p.last >= 0 {
				used := 0
				for _, q := range path[:k] {
					if q.last >= 0 && q.choice != q.last {
						used++
					}
				}
				if used+1 > bound {
					next = -1
				}
			}
			if next >= 0 {
				p.choice = next
				break
			}
			path = path[:k]
		}
		if len(path) == 0 {
			return schedules
		}
	}
}
