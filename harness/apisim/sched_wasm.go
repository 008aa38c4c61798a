//go:build wasip1

package main

import (
	"runtime"
	"sync"

	"github.com/CrowdStrike/gql/verifsim/simrt"
)

// run runs the tasks as goroutines of the simulated machine, which has one
// processor: they switch where the scheduler says so (at any statement of the code
// under test), where they block, and nowhere else. A task that yields takes its
// place again after a random number of turns, so any runnable task may be next.
func run(s *scenario, task func(int)) {
	x := s.Seed*2862933555777941757 + 3037000493
	rnd := func() uint64 { x ^= x << 13; x ^= x >> 7; x ^= x << 17; return x >> 11 }
	gap := uint64(s.Gap)
	if gap == 0 {
		gap = 1
	}
	next := simrt.Steps() + 1 + rnd()%(2*gap)
	simrt.Hook = func() {
		if simrt.Steps() >= next {
			simrt.Over()
			sig = (sig ^ simrt.Steps()) * 1099511628211
			next = simrt.Steps() + 1 + rnd()%(2*gap)
			for runtime.Gosched(); rnd()%2 == 0; {
				runtime.Gosched()
			}
		}
	}
	simrt.Budget = 30_000_000
	var wg sync.WaitGroup
	for i := range s.Tasks {
		wg.Add(1)
		go func(i int) { defer wg.Done(); task(i) }(i)
	}
	wg.Wait()
	simrt.Hook = nil
}
