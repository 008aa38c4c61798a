//go:build !wasip1

package main

import (
	"sync"
	"time"

	"github.com/CrowdStrike/gql/verifsim/simrt"
)

// run runs the tasks as goroutines of which one at a time holds the token; the
// scheduler passes it on at seeded statements of the code under test. Passing the
// token is hidden from the race detector, so that it orders nothing: two accesses
// conflict unless the code under test itself orders them. When the holder blocks
// on something another task has (a lock of the code under test), nothing moves
// for a while and the tasks are let go to run freely.
func run(s *scenario, task func(int)) {
	t := &token{freed: make(chan struct{}), x: s.Seed*2862933555777941757 + 3037000493, gap: uint64(s.Gap), n: len(s.Tasks)}
	if t.gap == 0 {
		t.gap = 1
	}
	for i := 0; i < t.n; i++ {
		t.turn = append(t.turn, make(chan struct{}, 1))
		t.live = append(t.live, true)
	}
	t.next = simrt.Steps() + 1 + t.rnd()%(2*t.gap)
	done := make(chan struct{})
	simrt.Budget = 30_000_000
	simrt.Hook = t.step
	var wg sync.WaitGroup
	for i := 0; i < t.n; i++ {
		wg.Add(1)
		go func(i int) {
			t.wait(i)
			task(i)
			t.leave(i)
			wg.Done()
		}(i)
	}
	t.give(int(t.rnd() % uint64(t.n)))
	go func() {
		for last := uint64(0); ; {
			select {
			case <-done:
				return
			case <-time.After(2 * time.Second):
			}
			if n := simrt.Steps(); n == last {
				t.release()
			} else {
				last = n
			}
		}
	}()
	wg.Wait()
	close(done)
}

type token struct {
	x, gap, next uint64
	n, cur       int
	turn         []chan struct{}
	live         []bool
	free         bool
	freed        chan struct{}
}

//go:norace
func (t *token) rnd() uint64 { t.x ^= t.x << 13; t.x ^= t.x >> 7; t.x ^= t.x << 17; return t.x >> 11 }

//go:norace
func (t *token) give(i int) {
	raceDisable()
	t.cur = i
	select {
	case t.turn[i] <- struct{}{}:
	default:
	}
	raceEnable()
}

//go:norace
func (t *token) wait(i int) {
	raceDisable()
	select {
	case <-t.turn[i]:
	case <-t.freed:
	}
	raceEnable()
}

// step is called before every statement of the code under test.
//
//go:norace
func (t *token) step() {
	if t.free || simrt.Steps() < t.next {
		return
	}
	simrt.Over()
	t.next = simrt.Steps() + 1 + t.rnd()%(2*t.gap)
	me := t.cur
	if j := t.other(me); j >= 0 {
		sig = (sig ^ simrt.Steps()<<3 ^ uint64(j)) * 1099511628211
		t.give(j)
		t.wait(me)
	}
}

//go:norace
func (t *token) other(me int) int {
	k := int(t.rnd() % uint64(t.n))
	for i := 0; i < t.n; i++ {
		if j := (k + i) % t.n; j != me && t.live[j] {
			return j
		}
	}
	return -1
}

//go:norace
func (t *token) leave(i int) {
	t.live[i] = false
	if t.free {
		return
	}
	if j := t.other(i); j >= 0 {
		t.give(j)
	}
}

//go:norace
func (t *token) release() {
	raceDisable()
	if !t.free {
		t.free = true
		close(t.freed)
	}
	raceEnable()
}
