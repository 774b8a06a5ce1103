package main

import (
	"bytes"
	"errors"
	"net"
	"runtime"
	"strconv"
	"strings"
	"sync"
	"time"

	vy "github.com/tg123/phabrik/verifyield"
)

// Log records the events of a trace
type Log struct {
	mu  sync.Mutex
	evs []interface{}
}

func (r *Log) Add(m M) {
	r.mu.Lock()
	r.evs = append(r.evs, m)
	r.mu.Unlock()
}

func (r *Log) Events() []interface{} {
	r.mu.Lock()
	defer r.mu.Unlock()
	return append([]interface{}{}, r.evs...)
}

type fakeAddr string

func (a fakeAddr) Network() string { return "tcp" }
func (a fakeAddr) String() string  { return string(a) }

var errInjected = errors.New("injected failure")

// FConn is an in-memory connection whose other side is the driver
type FConn struct {
	mu      sync.Mutex
	cond    *sync.Cond
	in      []byte
	inErr   error
	chunk   func(avail, want int) int
	gated   bool
	failIn  int
	failF   func()
	werr    error
	closed  bool
	closes  int
	onWrite func(b []byte) // under mu
	onClose func()         // under mu, first close
	local   string
	remote  string
	partial int // bytes to accept of the next failing write
}

func NewFConn(local, remote string) *FConn {
	c := &FConn{local: local, remote: remote}
	c.cond = sync.NewCond(&c.mu)
	return c
}

func (c *FConn) Read(b []byte) (int, error) {
	c.mu.Lock()
	defer c.mu.Unlock()
	for {
		if c.closed {
			return 0, net.ErrClosed
		}
		if len(b) == 0 {
			return 0, nil
		}
		if len(c.in) > 0 {
			n := len(c.in)
			if n > len(b) {
				n = len(b)
			}
			if c.chunk != nil {
				if k := c.chunk(len(c.in), len(b)); k >= 1 && k < n {
					n = k
				}
			}
			copy(b, c.in[:n])
			c.in = c.in[n:]
			return n, nil
		}
		if c.inErr != nil {
			return 0, c.inErr
		}
		c.cond.Wait()
	}
}

func (c *FConn) Write(b []byte) (int, error) {
	c.mu.Lock()
	defer c.mu.Unlock()
	for c.gated && !c.closed {
		c.cond.Wait()
	}
	if c.closed {
		return 0, net.ErrClosed
	}
	if c.failIn > 0 {
		if c.failIn--; c.failIn == 0 {
			c.failF()
			c.werr = errInjected
		}
	}
	if c.werr != nil {
		n := 0
		if c.partial > 0 {
			n = c.partial
			if n > len(b) {
				n = len(b)
			}
			c.partial = 0
			if c.onWrite != nil {
				c.onWrite(append([]byte{}, b[:n]...))
			}
		}
		return n, c.werr
	}
	if c.onWrite != nil {
		c.onWrite(append([]byte{}, b...))
	}
	return len(b), nil
}

func (c *FConn) Close() error {
	c.mu.Lock()
	defer c.mu.Unlock()
	c.closes++
	if c.closed {
		return net.ErrClosed
	}
	c.closed = true
	if c.onClose != nil {
		c.onClose()
	}
	c.cond.Broadcast()
	return nil
}

// Feed makes bytes readable; f runs before anybody can see them
func (c *FConn) Feed(b []byte, f func()) {
	c.mu.Lock()
	defer c.mu.Unlock()
	if c.inErr != nil {
		return
	}
	if f != nil {
		f()
	}
	c.in = append(c.in, b...)
	c.cond.Broadcast()
}

// End makes reads fail after what was fed
func (c *FConn) End(err error, f func()) {
	c.mu.Lock()
	defer c.mu.Unlock()
	if c.inErr != nil {
		return
	}
	if f != nil {
		f()
	}
	c.inErr = err
	c.cond.Broadcast()
}

func (c *FConn) Gate(on bool, f func()) {
	c.mu.Lock()
	defer c.mu.Unlock()
	if f != nil {
		f()
	}
	c.gated = on
	c.cond.Broadcast()
}

func (c *FConn) FailWrites(err error, f func()) {
	c.mu.Lock()
	defer c.mu.Unlock()
	if f != nil {
		f()
	}
	c.werr = err
}

// FailAfter makes the n-th write from now, and what follows, fail
func (c *FConn) FailAfter(n int, f func()) {
	c.mu.Lock()
	defer c.mu.Unlock()
	c.failIn, c.failF = n, f
}

func (c *FConn) IsClosed() bool {
	c.mu.Lock()
	defer c.mu.Unlock()
	return c.closed
}

func (c *FConn) LocalAddr() net.Addr                { return fakeAddr(c.local) }
func (c *FConn) RemoteAddr() net.Addr               { return fakeAddr(c.remote) }
func (c *FConn) SetDeadline(t time.Time) error      { return nil }
func (c *FConn) SetReadDeadline(t time.Time) error  { return nil }
func (c *FConn) SetWriteDeadline(t time.Time) error { return nil }

// Pair connects two FConns: what is written to one can be read from the other
func Pair(a, b *FConn) {
	link := func(x, y *FConn) {
		px, pc := x.onWrite, x.onClose
		x.onWrite = func(p []byte) {
			if px != nil {
				px(p)
			}
			go0(func() { y.Feed(p, nil) })
		}
		x.onClose = func() {
			if pc != nil {
				pc()
			}
			go0(func() { y.End(errEOF, nil) })
		}
	}
	link(a, b)
	link(b, a)
}

// FListener is an in-memory listener
type FListener struct {
	mu     sync.Mutex
	cond   *sync.Cond
	q      []interface{} // net.Conn or error
	closed bool
	addr   string
	calls  int

	onClose  func() // under mu, first close
	onAccept func(x interface{})
}

func NewFListener(addr string) *FListener {
	l := &FListener{addr: addr}
	l.cond = sync.NewCond(&l.mu)
	return l
}

func (l *FListener) Accept() (net.Conn, error) {
	l.mu.Lock()
	defer l.mu.Unlock()
	l.calls++
	for {
		if l.closed {
			return nil, &net.OpError{Op: "accept", Net: "tcp", Err: net.ErrClosed}
		}
		if len(l.q) > 0 {
			x := l.q[0]
			l.q = l.q[1:]
			if l.onAccept != nil {
				l.onAccept(x)
			}
			if err, ok := x.(error); ok {
				return nil, err
			}
			return x.(net.Conn), nil
		}
		l.cond.Wait()
	}
}

func (l *FListener) Push(x interface{}) { l.PushF(x, nil) }

// PushF: f runs before x can be accepted
func (l *FListener) PushF(x interface{}, f func()) {
	l.mu.Lock()
	defer l.mu.Unlock()
	if f != nil {
		f()
	}
	l.q = append(l.q, x)
	l.cond.Broadcast()
}

func (l *FListener) Calls() int {
	l.mu.Lock()
	defer l.mu.Unlock()
	return l.calls
}

func (l *FListener) Close() error {
	l.mu.Lock()
	defer l.mu.Unlock()
	if l.closed {
		return net.ErrClosed
	}
	l.closed = true
	if l.onClose != nil {
		l.onClose()
	}
	l.cond.Broadcast()
	return nil
}

func (l *FListener) IsClosed() bool {
	l.mu.Lock()
	defer l.mu.Unlock()
	return l.closed
}

func (l *FListener) Addr() net.Addr { return fakeAddr(l.addr) }

type tempErr struct{ temp bool }

func (e tempErr) Error() string   { return "injected accept error" }
func (e tempErr) Timeout() bool   { return false }
func (e tempErr) Temporary() bool { return e.temp }

// ------------------------------------------------------------- quiescence

type grt struct {
	id    int
	state string
	stack string
}

var stackBuf = make([]byte, 1<<20)
var stackMu sync.Mutex

func goroutines() []grt {
	stackMu.Lock()
	defer stackMu.Unlock()
	var n int
	for {
		n = runtime.Stack(stackBuf, true)
		if n < len(stackBuf) {
			break
		}
		stackBuf = make([]byte, 2*len(stackBuf))
	}
	var r []grt
	for _, p := range bytes.Split(stackBuf[:n], []byte("\n\n")) {
		if !bytes.HasPrefix(p, []byte("goroutine ")) {
			continue
		}
		p = p[10:]
		i := bytes.IndexByte(p, ' ')
		j := bytes.IndexByte(p, '[')
		k := bytes.IndexByte(p, ']')
		if i < 0 || j < 0 || k < j {
			continue
		}
		id, _ := strconv.Atoi(string(p[:i]))
		st := string(p[j+1 : k])
		if x := strings.IndexByte(st, ','); x >= 0 {
			st = st[:x]
		}
		r = append(r, grt{id, st, string(p[k:])})
	}
	return r
}

func blocked(g grt) bool {
	switch g.state {
	case "chan receive", "chan send", "select", "sync.Cond.Wait", "sync.Mutex.Lock", "sync.RWMutex.Lock", "sync.RWMutex.RLock",
		"sync.WaitGroup.Wait", "IO wait", "finalizer wait", "chan receive (nil chan)", "chan send (nil chan)", "select (no cases)",
		"GC worker (idle)", "force gc (idle)", "GC sweep wait", "GC scavenge wait", "cleanup wait":
		return true
	}
	return strings.Contains(g.stack, "os/signal.signal_recv")
}

// quiesce waits until every other goroutine is blocked. False: they never are
func quiesce() bool {
	var deadline time.Time
	for i := 0; ; i++ {
		if i < 3 {
			runtime.Gosched()
		} else {
			time.Sleep(20 * time.Microsecond)
		}
		busy := false
		for k, g := range goroutines() {
			if k > 0 && !blocked(g) { // the first is this one
				busy = true
				break
			}
		}
		if !busy {
			return true
		}
		if i == 50 {
			deadline = time.Now().Add(20 * time.Second)
		}
		if i > 50 && time.Now().After(deadline) {
			return false
		}
	}
}

// phabrikGoroutines counts goroutines that run phabrik's code, those in old excluded
func phabrikGoroutines(old map[int]bool) (int, string) {
	n, s := 0, ""
	for k, g := range goroutines() {
		if k > 0 && !old[g.id] && strings.Contains(g.stack, "github.com/tg123/phabrik/") && !strings.Contains(g.stack, "phabrik/verifyield") {
			n++
			s = g.stack
		}
	}
	return n, s
}

func goroutineSet() map[int]bool {
	r := map[int]bool{}
	for _, g := range goroutines() {
		r[g.id] = true
	}
	return r
}

// ------------------------------------------------------------- schedules

// Sched says how a scenario is perturbed
type Sched struct {
	Mode    string // "", random, pause
	Seed    uint64
	Site    uint32
	Nth     int
	Release int // quiescent points to pass before the paused goroutine goes on
}

func (s Sched) start() {
	switch s.Mode {
	case "random":
		vy.Random(s.Seed)
	case "pause":
		vy.PauseAt(s.Site, s.Nth)
	case "count":
		vy.Count()
	default:
		vy.Off()
	}
}
