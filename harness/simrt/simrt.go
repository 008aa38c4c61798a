// Package simrt is linked into the simulated build only (through a build overlay).
// Y is called before every statement of the code under test: it is the point at
// which the simulated scheduler may switch goroutines and where steps are counted.
package simrt

import (
	"math/rand/v2"
	"os"
	"runtime"
	"time"
)

var (
	n    uint64
	next uint64
	gap  uint64
	x    uint64
	// Budget bounds the statements one run may execute.
	Budget uint64 = 600_000_000
	// Hook, when set, replaces the default behaviour (see apisim).
	Hook func()
)

func init() {
	x = rand.Uint64() | 1 // the runtime's generator is seeded by the simulated OS
	cpus = []int{1, 2, 3, 4, 8, 16, 64}[rnd()%7]
	pid = 1 + int(rnd()%(1<<22))
	host = "host" + string(rune('a'+rnd()%26))
	if d := int(rnd()%27) - 12; d != 0 {
		time.Local = time.FixedZone("SIM", d*3600+int(rnd()%2)*1800)
	}
	gap = []uint64{0, 3, 20, 200}[rnd()%4]
	arm()
}

// What the code asks the platform is answered from the seed.
var (
	cpus = 1
	pid  int
	host string
)

// NumCPU stands for runtime.NumCPU
func NumCPU() int { return cpus }

// GOMAXPROCS stands for runtime.GOMAXPROCS
func GOMAXPROCS(int) int { return cpus }

// Getpid stands for os.Getpid
func Getpid() int { return pid }

// Getppid stands for os.Getppid
func Getppid() int { return pid/2 + 1 }

// Hostname stands for os.Hostname
func Hostname() (string, error) { return host, nil }

//go:norace
func rnd() uint64 { x ^= x << 13; x ^= x >> 7; x ^= x << 17; return x >> 11 }

//go:norace
func arm() {
	if gap == 0 {
		next = Budget
		return
	}
	next = n + 1 + rnd()%(2*gap+n>>14) // ever fewer switches in a very long run
	if next > Budget {
		next = Budget
	}
}

// Steps returns the number of statements executed so far.
//
//go:norace
func Steps() uint64 { return n }

// Y marks a step.
//
//go:norace
func Y() {
	n++
	if Hook != nil {
		Hook()
		return
	}
	if n >= next {
		slow()
	}
}

// Over ends the run when it used up its steps.
//
//go:norace
func Over() {
	if n >= Budget {
		os.Stderr.WriteString("SIM-STEP-BUDGET exceeded\n")
		os.Exit(97)
	}
}

//go:norace
func slow() {
	Over()
	arm()
	runtime.Gosched()
}
