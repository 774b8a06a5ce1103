package main

import (
	"context"
	"errors"
	"math/rand"
	"runtime"
	"strconv"
	"strings"
	"sync"

	vy "github.com/tg123/phabrik/verifyield"
)

// Rig is what scenarios of all parts have in common
type Rig struct {
	*Log
	mu    sync.Mutex
	sched Sched
	hung  bool
	q0    int
	old   map[int]bool
	wg    sync.WaitGroup
	tags  int
	ctx   map[int]context.CancelFunc
	rnd   *rand.Rand // for the driver's own goroutine
}

func newRig(s Sched, seed int64) *Rig {
	return &Rig{Log: &Log{}, sched: s, old: goroutineSet(), ctx: map[int]context.CancelFunc{}, rnd: rand.New(rand.NewSource(seed))}
}

func (r *Rig) newTag() int {
	r.mu.Lock()
	defer r.mu.Unlock()
	r.tags++
	return r.tags
}

func (r *Rig) goo(f func()) {
	r.wg.Add(1)
	go func() {
		defer r.wg.Done()
		f()
	}()
}

// quiet waits until nothing moves
func (r *Rig) quiet() {
	if r.hung {
		return
	}
	if !quiesce() {
		r.hung = true
		r.Add(M{"e": "hang"})
		return
	}
	if r.sched.Mode == "pause" && vy.Paused() {
		r.q0++
		if r.q0 <= r.sched.Release {
			return
		}
		vy.Release()
		if !quiesce() {
			r.hung = true
			r.Add(M{"e": "hang"})
			return
		}
	}
	r.Add(M{"e": "q"})
}

// settle waits until nothing moves, without saying so
func (r *Rig) settle() {
	if !r.hung && !quiesce() {
		r.hung = true
		r.Add(M{"e": "hang"})
	}
}

// end of a scenario
func (r *Rig) end(junk bool) {
	vy.Off()
	if r.hung {
		return
	}
	n, st := phabrikGoroutines(r.old)
	if junk { // part of a frame
		r.Add(M{"e": "junk"})
	}
	ev := M{"e": "end", "leak": n}
	if n > 0 {
		ev["stack"] = st[:min(len(st), 1500)]
	}
	r.Add(ev)
}

func (r *Rig) context(op int, cancelled bool) context.Context {
	ctx, cancel := context.WithCancel(context.Background())
	r.ctx[op] = cancel
	if cancelled {
		r.Add(M{"e": "cancel", "r": op})
		cancel()
	}
	return ctx
}

func (r *Rig) cancel(op int) {
	if f, ok := r.ctx[op]; ok {
		r.Add(M{"e": "cancel", "r": op})
		f()
	}
}

func outcome(ctx context.Context, err error) string {
	if err == nil {
		return "ok"
	}
	if ctx != nil && ctx.Err() != nil && errors.Is(err, ctx.Err()) {
		return "ctx"
	}
	return "err"
}

func doneCtx() context.Context {
	ctx, cancel := context.WithCancel(context.Background())
	cancel()
	return ctx
}

// goid is the number of this goroutine
func goid() int {
	var b [40]byte
	n := runtime.Stack(b[:], false)
	f := strings.Fields(string(b[:n]))
	id, _ := strconv.Atoi(f[1])
	return id
}
