// Package verifyield is put in front of every statement of the instrumented
// copies of phabrik's sources. It perturbs the schedule, or stops one goroutine
// at a chosen place until it is let go, and does nothing else.
package verifyield

import (
	"runtime"
	"sync"
	"sync/atomic"
	"time"
)

var (
	mode atomic.Uint32 // 0 off, 1 random, 2 count, 4 pause
	seed atomic.Uint64
	ctr  atomic.Uint64
	slow atomic.Uint32

	mu      sync.Mutex
	hits    map[uint32]int
	target  uint32
	nth     int
	paused  bool
	release chan struct{}
)

func mix(x uint64) uint64 {
	x += 0x9e3779b97f4a7c15
	x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9
	x = (x ^ (x >> 27)) * 0x94d049bb133111eb
	return x ^ (x >> 31)
}

// P is a yield point
func P(id uint32) {
	m := mode.Load()
	if m == 0 {
		return
	}
	if m&1 != 0 {
		s := seed.Load()
		h := mix(s ^ ctr.Add(1)*0x9e3779b97f4a7c15)
		if mix(s+uint64(id)*7919)%16 == 0 { // slow site of this run
			if h&1 == 0 {
				time.Sleep(time.Duration(20+h>>8%200) * time.Microsecond)
			}
		} else if h&7 == 0 {
			runtime.Gosched()
		} else if h&127 == 1 {
			time.Sleep(time.Duration(h>>8%50) * time.Microsecond)
		}
	}
	if m&6 != 0 {
		mu.Lock()
		hits[id]++
		n := hits[id]
		if m&4 != 0 && id == target && n == nth && release != nil {
			ch := release
			paused = true
			mu.Unlock()
			<-ch
			return
		}
		mu.Unlock()
	}
}

// Off ends all perturbation and lets a paused goroutine go
func Off() {
	mode.Store(0)
	Release()
}

// Random perturbs at random
func Random(s uint64) {
	seed.Store(s)
	ctr.Store(0)
	mode.Store(1)
}

// Count counts how often each place is passed
func Count() {
	mu.Lock()
	hits = map[uint32]int{}
	mu.Unlock()
	mode.Store(2)
}

// Hits returns the counters
func Hits() map[uint32]int {
	mu.Lock()
	defer mu.Unlock()
	r := map[uint32]int{}
	for k, v := range hits {
		r[k] = v
	}
	return r
}

// PauseAt stops the goroutine that passes place id for the n-th time
func PauseAt(id uint32, n int) {
	mu.Lock()
	hits = map[uint32]int{}
	target, nth, paused = id, n, false
	release = make(chan struct{})
	mu.Unlock()
	mode.Store(4)
}

// Paused tells if a goroutine is stopped
func Paused() bool {
	mu.Lock()
	defer mu.Unlock()
	return paused
}

// Release lets the stopped goroutine go
func Release() {
	mu.Lock()
	defer mu.Unlock()
	if release != nil {
		close(release)
		release = nil
	}
	paused = false
}
