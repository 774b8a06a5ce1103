package main

import (
	"encoding/binary"
	"fmt"
	"math/rand"
	"net"
	"runtime"
	"strconv"
	"time"
	"unicode/utf16"

	"phv/wf"

	"github.com/tg123/phabrik/lease"
	vy "github.com/tg123/phabrik/verifyield"
)

// LeaseRig is a lease agent; the driver is its network
type LeaseRig struct {
	*Rig
	start time.Time
	agent *lease.Agent
	ln    *FListener
	cfg   lease.AgentConfig

	// under mu
	ins      []*FConn
	outs     []*FConn
	bufs     []*[]byte
	sess     map[int]lease.Session // by the tag of the call
	order    []int
	byG      map[int]int // call of a goroutine
	dialFail bool
	dialGate chan struct{}
	dialHeld bool

	cur    int // accepted connection in use
	waited bool
	rest   bool // driver's: part of a frame was fed
}

var leaseAddrs = []string{"10.0.0.1:1026", "10.0.0.2:1026", "[fe80::1]:65535", "nöde.\U0001f600:80", "10.0.0.1:1027", ":7"}

func units(s string) []int {
	r := []int{}
	for _, u := range utf16.Encode([]rune(s)) {
		r = append(r, int(u))
	}
	return r
}

func le64(v int64) []int {
	var b [8]byte
	binary.LittleEndian.PutUint64(b[:], uint64(v))
	return wf.Ints(b[:])
}

func (r *LeaseRig) us(t time.Time) int {
	if t.IsZero() {
		return 0
	}
	return int(t.Sub(r.start)/time.Microsecond) + 1
}

func newLeaseRig(s Sched, seed int64, listen int) *LeaseRig {
	r := &LeaseRig{Rig: newRig(s, seed), start: time.Now(), sess: map[int]lease.Session{}, byG: map[int]int{}, cur: -1}
	addr := leaseAddrs[listen%len(leaseAddrs)]
	r.ln = NewFListener(addr)
	r.ln.onClose = func() { r.Add(M{"e": "lc"}) }
	r.cfg.SetDefault()
	if listen >= len(leaseAddrs) {
		r.cfg.LeaseDuration = []time.Duration{time.Millisecond, 0, 90 * time.Hour, 1500 * time.Millisecond, 2999999 * time.Nanosecond}[r.rnd.Intn(5)]
		r.cfg.LeaseSuspendTimeout = time.Duration(r.rnd.Intn(100000)) * time.Millisecond
		r.cfg.ArbitrationTimeout = time.Duration(r.rnd.Intn(100000)) * time.Millisecond
	}
	r.cfg.AppId = []string{"", "app", "äpp"}[r.rnd.Intn(3)]
	host, port, _ := net.SplitHostPort(addr)
	p, _ := strconv.Atoi(port)
	r.Add(M{"e": "cfg", "host": units(host), "port": p, "exp": le64(r.cfg.LeaseDuration.Milliseconds()),
		"susp": le64(r.cfg.LeaseSuspendTimeout.Milliseconds())[:4], "arb": le64(r.cfg.ArbitrationTimeout.Milliseconds())[:4]})
	a, err := lease.NewAgent(r.cfg, r.ln, r.dial)
	if err != nil {
		r.Add(M{"e": "junk", "what": err.Error()})
		return r
	}
	r.agent = a
	return r
}

func (r *LeaseRig) dial(addr string) (net.Conn, error) {
	r.mu.Lock()
	g := r.dialGate
	held := r.dialHeld
	r.mu.Unlock()
	if held {
		<-g
	}
	r.mu.Lock()
	defer r.mu.Unlock()
	n := len(r.outs)
	ok := !r.dialFail
	c := NewFConn("local:2", addr)
	buf := new([]byte)
	r.bufs = append(r.bufs, buf)
	c.onWrite = func(b []byte) {
		r.mu.Lock()
		t := r.byG[goid()]
		r.mu.Unlock()
		*buf = splitLease(append(*buf, b...), func(f []byte) { r.Add(M{"e": "wr", "c": n, "r": t, "f": wf.Ints(f)}) }, func() { r.Add(M{"e": "junk"}) })
	}
	c.onClose = func() { r.Add(M{"e": "cc", "c": n}) }
	r.outs = append(r.outs, c)
	r.Add(M{"e": "dial", "c": n, "a": units(addr), "ok": ok, "r": r.byG[goid()]})
	if !ok {
		return nil, errInjected
	}
	return c, nil
}

// splitLease takes whole frames off the start of b
func splitLease(b []byte, f func([]byte), junk func()) []byte {
	for len(b) >= 12 {
		n := int(binary.LittleEndian.Uint32(b[4:]))
		if n < 12 || n > 1<<16 {
			junk()
			return nil
		}
		if len(b) < n {
			break
		}
		f(b[:n])
		b = b[n:]
	}
	return b
}

// -------------------------------------------------------------- messages

// pongOpt says how a message is to be built
type pongOpt struct {
	typ     uint32
	rem     uint64
	addr    string
	lists   bool // with relations in its lists
	order   bool // endpoint first
	edit    func(b []byte) []byte
	noNul   bool
	af      uint16
	rawHost []uint16
}

func leaseMsg(rnd *rand.Rand, o pongOpt) []byte {
	host, ps, err := net.SplitHostPort(o.addr)
	if err != nil {
		panic(err)
	}
	port, _ := strconv.Atoi(ps)
	h := make([]byte, 200)
	h[0], h[1] = 2, 1
	put32 := func(p int, v uint32) { binary.LittleEndian.PutUint32(h[p:], v) }
	put64 := func(p int, v uint64) { binary.LittleEndian.PutUint64(h[p:], v) }
	put32(4, 200)
	put64(16, rnd.Uint64())
	put32(24, o.typ)
	put64(32, rnd.Uint64())
	put64(40, o.rem)
	put32(48, rnd.Uint32())
	put64(56, rnd.Uint64())
	put32(64, rnd.Uint32())
	put32(68, rnd.Uint32())
	h[72] = byte(rnd.Intn(2))
	var body []byte
	ep := func() {
		us := utf16.Encode([]rune(host))
		if o.rawHost != nil {
			us = o.rawHost
		}
		if !o.noNul {
			us = append(us, 0)
		}
		put32(188, uint32(200+len(body)))
		n := len(body)
		for _, u := range us {
			body = append(body, byte(u), byte(u>>8))
		}
		af := o.af
		if af == 0 {
			af = 2
		}
		body = append(body, byte(af), byte(af>>8), byte(port), byte(port>>8))
		put32(192, uint32(len(body)-n))
	}
	if o.order {
		ep()
	}
	for i := 0; i < 9; i++ {
		cnt := 0
		if o.lists {
			cnt = rnd.Intn(3)
		}
		var l []byte
		l = binary.LittleEndian.AppendUint32(l, uint32(cnt))
		for j := 0; j < 2*cnt; j++ {
			s := utf16.Encode([]rune([]string{"", "a", "10.0.0.1:1026", "ä"}[rnd.Intn(4)]))
			l = binary.LittleEndian.AppendUint32(l, uint32(2*len(s)))
			for _, u := range s {
				l = append(l, byte(u), byte(u>>8))
			}
		}
		put32(76+12*i, uint32(cnt))
		put32(76+12*i+4, uint32(200+len(body)))
		put32(76+12*i+8, uint32(4+len(l)))
		body = binary.LittleEndian.AppendUint32(body, uint32(len(l)))
		body = append(body, l...)
	}
	if !o.order {
		ep()
	}
	put32(8, uint32(200+len(body)))
	b := append(h, body...)
	if o.edit != nil {
		b = o.edit(b)
	}
	return b
}

func leaseFrame(typ byte, body []byte) []byte {
	f := []byte{typ, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0}
	binary.LittleEndian.PutUint32(f[4:], uint32(12+len(body)))
	return append(f, body...)
}

// agentPong is what an agent that listens there sends, as a response
var agentFrames = map[string][]byte{}

func agentPong(addr string) []byte {
	if f, ok := agentFrames[addr]; ok {
		return append([]byte{}, f...)
	}
	var cfg lease.AgentConfig
	cfg.SetDefault()
	c := NewFConn("", "")
	var got []byte
	c.onWrite = func(b []byte) { got = append(got, b...); go0(func() { c.Close() }) }
	a, err := lease.NewAgent(cfg, NewFListener(addr), func(string) (net.Conn, error) { return c, nil })
	if err != nil {
		return nil
	}
	s, err := a.Establish("x:1")
	if err != nil {
		return nil
	}
	done := make(chan bool)
	go func() {
		s.Ping(doneCtx())
		close(done)
	}()
	<-done
	a.Close()
	if len(got) < 12+28 {
		return nil
	}
	got[12+24] = 3
	agentFrames[addr] = append([]byte{}, got...)
	return got
}

func (r *LeaseRig) in() *FConn {
	if r.cur < 0 || r.cur >= len(r.ins) {
		return nil
	}
	return r.ins[r.cur]
}

func (r *LeaseRig) feed(b []byte) {
	c, n := r.in(), r.cur
	if c == nil {
		return
	}
	c.Feed(b, func() { r.Add(M{"e": "feed", "c": n, "b": wf.Ints(b), "t": r.us(time.Now())}) })
}

func (r *LeaseRig) pong(a, kind int) {
	o := pongOpt{typ: 3, rem: r.rnd.Uint64(), addr: leaseAddrs[a%len(leaseAddrs)]}
	at := func(p int, v uint32) func([]byte) []byte {
		return func(b []byte) []byte { binary.LittleEndian.PutUint32(b[p:], v); return b }
	}
	u32 := func(b []byte, p int) uint32 { return binary.LittleEndian.Uint32(b[p:]) }
	typ := byte(1)
	switch kind {
	case 1:
		o.lists = true
	case 2:
		o.order, o.lists = true, true
	case 3: // another type
		o.typ = []uint32{0, 1, 2, 4, 5, 6, 7, 8, 259, 0x80000003}[r.rnd.Intn(10)]
	case 4: // an agent's
		if f := agentPong(o.addr); f != nil {
			r.feed(f)
			return
		}
	case 5: // frame before, with and without content
		var p []byte
		if r.rnd.Intn(2) == 0 {
			p = leaseMsg(r.rnd, o)
		}
		r.feed(append(leaseFrame(2, p), leaseFrame(1, leaseMsg(r.rnd, o))...))
		return
	case 6: // in pieces
		f := leaseFrame(1, leaseMsg(r.rnd, o))
		n := r.rnd.Intn(len(f) - 1)
		r.feed(f[:n+1])
		if r.rnd.Intn(2) == 0 {
			r.settle()
		}
		r.feed(f[n+1:])
		return
	case 7: // endpoints almost like this
		host, port, _ := net.SplitHostPort(o.addr)
		p, _ := strconv.Atoi(port)
		switch r.rnd.Intn(5) {
		case 0:
			o.addr = net.JoinHostPort(host, strconv.Itoa((p+1)%65536))
		case 1:
			o.addr = net.JoinHostPort(host+"0", port)
		case 2:
			o.addr = net.JoinHostPort("", port)
		case 3:
			o.addr = net.JoinHostPort(host, strconv.Itoa((p%256)*256+p/256))
		case 4:
			o.addr = net.JoinHostPort(" "+host, port)
		}
	case 8: // contradicts itself
		o.edit = []func([]byte) []byte{at(4, 199), at(8, 10), at(4, 1<<31), func(b []byte) []byte { b[0] = 9; return b }, func(b []byte) []byte { b[1] = 0; return b },
			func(b []byte) []byte { return at(192, u32(b, 192)-1)(b) }, func(b []byte) []byte { return at(188, 0)(b) }, func(b []byte) []byte { return at(76+4, 1<<30)(b) },
			func(b []byte) []byte { return append(b, 1, 2, 3) }}[r.rnd.Intn(9)]
	case 9: // odd endpoints
		switch r.rnd.Intn(4) {
		case 0:
			o.noNul = true
		case 1:
			o.af = 23
		case 2:
			o.rawHost = []uint16{0xd83d, 0x41, 0xde00}
		case 3:
			o.rawHost = []uint16{0x41, 0, 0x41}
		}
	case 10: // not a message
		o.edit = []func([]byte) []byte{
			func(b []byte) []byte { return b[:r.rnd.Intn(200)] }, func(b []byte) []byte { return b[:len(b)-1-r.rnd.Intn(min(len(b)-200, 40))] },
			at(188, 1<<31), at(188, 0xffffffff), at(192, 0xffffffff), at(192, uint32(r.rnd.Intn(4))), func(b []byte) []byte { return at(192, u32(b, 192)+1)(b) },
			func(b []byte) []byte { return at(188, uint32(len(b)))(at(192, 0)(b)) }, func(b []byte) []byte { return at(188, u32(b, 188)+1)(b) },
			func(b []byte) []byte { return at(192, 0xffffffff-u32(b, 188)+1)(b) }, func(b []byte) []byte { return at(192, 0xffffffff-u32(b, 188)+5)(b) }}[r.rnd.Intn(11)]
	case 11: // frames that are none
		b := leaseFrame(1, leaseMsg(r.rnd, o))
		switch r.rnd.Intn(5) {
		case 0:
			b[0] = []byte{0, 3, 255}[r.rnd.Intn(3)]
		case 1:
			binary.LittleEndian.PutUint32(b[4:], uint32(r.rnd.Intn(12)))
		case 2:
			binary.LittleEndian.PutUint32(b[4:], []uint32{1 << 31, 0xffffffff, 0x7fffffff, 1 << 30}[r.rnd.Intn(4)])
		case 3:
			b[0] = 2
			binary.LittleEndian.PutUint32(b[4:], []uint32{1 << 31, 0xffffffff, 0x7fffffff, 1 << 30}[r.rnd.Intn(4)])
		case 4:
			b[0] = 2
			binary.LittleEndian.PutUint32(b[4:], uint32(r.rnd.Intn(12)))
		}
		r.feed(b)
		return
	case 12: // noise
		b := make([]byte, r.rnd.Intn(60))
		r.rnd.Read(b)
		if len(b) > 0 {
			b[0] = byte(r.rnd.Intn(4))
			if len(b) > 7 {
				b[5], b[6], b[7] = 0, 0, 0
			}
		}
		r.feed(b)
		return
	case 13: // a message with flipped bytes
		o.lists = r.rnd.Intn(2) == 0
		o.edit = func(b []byte) []byte {
			for i := 0; i <= r.rnd.Intn(3); i++ {
				b[r.rnd.Intn(len(b))] ^= byte(1 << r.rnd.Intn(8))
			}
			return b
		}
	case 14: // several in one piece
		var b []byte
		for i := 0; i < 3; i++ {
			o.rem = r.rnd.Uint64()
			b = append(b, leaseFrame(1, leaseMsg(r.rnd, o))...)
			o.addr = leaseAddrs[r.rnd.Intn(len(leaseAddrs))]
		}
		r.feed(b)
		return
	case 15: // one's beginning
		f := leaseFrame(1, leaseMsg(r.rnd, o))
		r.feed(f[:r.rnd.Intn(len(f))])
		return
	}
	r.feed(leaseFrame(typ, leaseMsg(r.rnd, o)))
}

// ---------------------------------------------------------------- driving

func (r *LeaseRig) session(i int) (int, lease.Session) {
	r.mu.Lock()
	defer r.mu.Unlock()
	if i < 1 || i > len(r.order) {
		return 0, nil
	}
	t := r.order[i-1]
	return t, r.sess[t]
}

func (r *LeaseRig) out(i int) (int, *FConn) {
	r.mu.Lock()
	defer r.mu.Unlock()
	if i < 1 || i > len(r.outs) {
		return 0, nil
	}
	return i - 1, r.outs[i-1]
}

func (r *LeaseRig) est(a int) {
	t := r.newTag()
	addr := leaseAddrs[a%len(leaseAddrs)]
	r.Add(M{"e": "callb", "r": t, "k": "est", "a": units(addr)})
	r.goo(func() {
		r.mu.Lock()
		r.byG[goid()] = t
		r.mu.Unlock()
		s, err := r.agent.Establish(addr)
		r.Add(M{"e": "calle", "r": t, "o": outcome(nil, err)})
		if err == nil {
			r.mu.Lock()
			r.sess[t] = s
			r.order = append(r.order, t)
			r.mu.Unlock()
		}
	})
}

func (r *LeaseRig) do(a Act) {
	if r.hung || r.agent == nil {
		return
	}
	switch a.Op {
	case "wait":
		if r.waited {
			return
		}
		r.waited = true
		t := r.newTag()
		r.Add(M{"e": "callb", "r": t, "k": "wait"})
		r.goo(func() {
			err := r.agent.Wait()
			r.Add(M{"e": "calle", "r": t, "o": outcome(nil, err)})
		})
	case "est":
		r.est(a.A)
	case "ping":
		n, s := r.session(a.A)
		if s == nil {
			return
		}
		t := r.newTag()
		r.Add(M{"e": "callb", "r": t, "k": "ping", "s": n})
		ctx := r.context(t, a.B == 1)
		r.goo(func() {
			r.mu.Lock()
			r.byG[goid()] = t
			r.mu.Unlock()
			err := s.Ping(ctx)
			r.Add(M{"e": "calle", "r": t, "o": outcome(ctx, err)})
		})
	case "pings":
		for i := 0; i < a.B; i++ {
			r.do(Act{Op: "ping", A: a.A})
		}
	case "lpt":
		n, s := r.session(a.A)
		if s == nil {
			return
		}
		t := r.newTag()
		r.Add(M{"e": "callb", "r": t, "k": "lpt", "s": n})
		r.goo(func() {
			v := r.us(s.LastPongTime())
			r.Add(M{"e": "calle", "r": t, "o": "ok", "v": v, "t": r.us(time.Now())})
		})
	case "sclose":
		n, s := r.session(a.A)
		if s == nil {
			return
		}
		t := r.newTag()
		r.Add(M{"e": "callb", "r": t, "k": "sclose", "s": n})
		r.goo(func() {
			s.Close()
			r.Add(M{"e": "calle", "r": t, "o": "ok", "t": r.us(time.Now())})
		})
		if a.B != 1 {
			r.settle()
		}
	case "aclose":
		t := r.newTag()
		r.Add(M{"e": "callb", "r": t, "k": "aclose"})
		r.goo(func() {
			r.agent.Close()
			r.Add(M{"e": "calle", "r": t, "o": "ok", "t": r.us(time.Now())})
		})
		if a.B != 1 {
			r.settle()
		}
	case "cancel":
		r.cancel(a.A)
	case "in":
		c := NewFConn("local:3", "peer")
		n := len(r.ins)
		var buf []byte
		c.onWrite = func(b []byte) {
			buf = splitLease(append(buf, b...), func(f []byte) { r.Add(M{"e": "inwr", "c": n, "f": wf.Ints(f)}) }, func() { r.Add(M{"e": "junk"}) })
		}
		c.onClose = func() { r.Add(M{"e": "incc", "c": n}) }
		if a.B > 0 {
			k := a.B
			c.chunk = func(int, int) int { return k }
		}
		r.ins = append(r.ins, c)
		r.cur = n
		r.ln.PushF(c, func() { r.Add(M{"e": "in", "c": n}) })
	case "use":
		if len(r.ins) > 0 {
			r.cur = a.A % len(r.ins)
		}
	case "pong":
		r.pong(a.A, a.B)
	case "ineof":
		if c := r.in(); c != nil {
			n := r.cur
			err := []error{errEOF, errInjected}[a.B%2]
			c.End(err, func() { r.Add(M{"e": "ineof", "c": n}) })
		}
	case "temp":
		r.ln.PushF(tempErr{true}, func() { r.Add(M{"e": "accept", "x": -1}) })
	case "fatal":
		r.ln.PushF([]error{tempErr{false}, errInjected}[a.B%2], func() { r.Add(M{"e": "accept", "x": -2}) })
	case "dfail":
		r.mu.Lock()
		r.dialFail = a.B == 0
		r.mu.Unlock()
	case "dgate":
		r.mu.Lock()
		if !r.dialHeld {
			r.dialHeld = true
			r.Log.Add(M{"e": "held", "on": true})
			r.dialGate = make(chan struct{})
		}
		r.mu.Unlock()
	case "dungate":
		r.mu.Lock()
		if r.dialHeld {
			r.dialHeld = false
			r.Log.Add(M{"e": "held", "on": false})
			close(r.dialGate)
		}
		r.mu.Unlock()
	case "gate", "ungate":
		if n, c := r.out(a.A); c != nil {
			on := a.Op == "gate"
			c.Gate(on, func() { r.Add(M{"e": "gate", "c": n, "on": on}) })
		}
	case "werr":
		if n, c := r.out(a.A); c != nil {
			c.FailWrites([]error{errInjected, tempErr{true}, tempErr{false}}[a.B%3], func() { r.Add(M{"e": "werr", "c": n}) })
		}
	case "q":
		r.quiet()
	default:
		panic("no step " + a.Op)
	}
}

func runLease(c *Ctx, name string, as []Act, s Sched, seed int64, listen int) bool {
	vy.Off()
	for _, a := range leaseAddrs {
		agentPong(a)
	}
	r := newLeaseRig(s, seed, listen)
	s.start()
	for _, a := range as {
		r.do(a)
	}
	r.do(Act{Op: "dungate"})
	for i := range r.outs {
		r.do(Act{Op: "ungate", A: i + 1})
	}
	vy.Release()
	r.quiet()
	for i := range r.ins {
		r.cur = i
		r.do(Act{Op: "ineof"})
	}
	r.do(Act{Op: "aclose"})
	r.quiet()
	junk := false
	r.mu.Lock()
	for _, b := range r.bufs {
		junk = junk || len(*b) > 0
	}
	r.mu.Unlock()
	r.end(junk)
	c.Put(M{"name": name, "acts": fmt.Sprint(as), "listen": listen, "sched": fmt.Sprint(s)}, r.Events())
	if r.hung {
		c.Stats["hung"]++
	}
	return !r.hung
}

var leaseVocab = map[string]vocab{
	"L01": {"est*3 ping*6 ping:0,1 pong*6 pong:0,1*2 pong:0,7 pong:0,3 lpt*4 cancel*2 q*5 sclose ineof aclose gate ungate*2 werr in", []string{
		"est q ping:1 q pong:0 q lpt:1 q", "est q ping:1 ping:1 q pong:0 q lpt:1 pong:0 q lpt:1 q", "est q ping:1 pong:0 lpt:1 q", "est est:1 q ping:1 ping:2 q pong:1 q lpt:1 lpt:2 pong:0 q lpt:1 q",
		"est q pong:0 q ping:1 q lpt:1 pong:0 q lpt:1 q", "est q ping:1 q cancel:2 q pong:0 q", "est q ping:1 q pong:0 cancel:2 q lpt:1 q", "est q ping:1,1 q pong:0 lpt:1 q", "est q ping:1 q sclose:1 q pong:0 q lpt:1 q",
		"est q gate:1 ping:1 q pong:0 q ungate:1 q pong:0 q", "est q werr:1 ping:1 q", "est q ping:1 pong:0,7 pong:0,3 q lpt:1 pong:0 q lpt:1 q", "est q ping:1 q pong:0 pong:0 pong:0 lpt:1 lpt:1 q lpt:1 q",
		"est q ping:1 sclose:1,1 pong:0 lpt:1 q", "est q ping:1 q pong:0 ping:1 q pong:0 q",
	}},
	"L02": {"est*4 ping*6 pings:1,4*2 pong*3 pong:0,4*5 pong:0,1*2 pong:0,2*2 pong:0,7*3 q*5 lpt cancel", []string{
		"est q ping:1 q", "est q pings:1,4 q", "est q pings:1,4 pong:0 pings:1,2 q", "est q ping:1 q pong:0,4 q ping:1 q", "est:2 q ping:1 q pong:2,4 q", "est:3 est:5 q ping:1 ping:2 q pong:3,4 pong:5,4 q", "est est:4 est:1 q ping:1 ping:2 ping:3 q pong:4 q pong:0 q pong:1 q",
		"est est:4 q ping:1 ping:2 q pong:0,7 pong:0,7 pong:4,7 q pong:4,1 q pong:0,2 q", "est q ping:1 q pong:0,1 ping:1 q pong:0,2 ping:1 q", "est:2 est:3 q ping:1 ping:2 q pong:2,7 pong:3,7 q pong:2,1 pong:3,2 q",
	}},
	"L03": {"est*6 ping*5 pong*4 sclose*4 sclose:0,1*3 aclose aclose:0,1 q*5 cancel lpt temp*2 fatal in*2 ineof dfail dfail:0,1 dgate dungate*2 gate ungate*2 werr wait", []string{
		"est q ping:1 q sclose:1 q ping:1 pong:0 q", "est est q ping:1 ping:2 sclose:1 q pong:0 q ping:2 q pong:0 q", "est q est q ping:1 q sclose:2 q pong:0 q", "est q aclose q est q ping:1 q", "est est:1 q ping:1 ping:2 q aclose q", "wait q aclose q", "temp temp in q pong:0 q",
		"fatal q", "est q est q aclose q", "est aclose:0,1 q", "dgate est q aclose q dungate q", "dfail est q dfail:0,1 est q ping:1 q", "est q sclose:1,1 sclose:1,1 q", "est q ping:1 sclose:1,1 pong:0 q", "est q ping:1 aclose:0,1 pong:0 q", "est q sclose:1 q est q ping:2 q pong:0 q",
		"est est q sclose:2 q sclose:1 q pong:0 q", "aclose est q", "est q ping:1 q est q sclose:1 q ping:2 q pong:0 q", "est q fatal q ping:1 q pong:0 q", "est q pong:0 sclose:1 q lpt:1 q", "est q ping:1 pong:0 sclose:1,1 q lpt:1 q", "est q ping:1 pong:0 pong:0 aclose:0,1 q lpt:1 q", "est q gate:1 ping:1 q sclose:1 q", "est q gate:1 ping:1 q aclose q", "est q est q sclose:1,1 est q ping:3 q pong:0 q",
	}},
	"L04": {"est*3 ping*5 pong:0,8*3 pong:0,9*3 pong:0,10*4 pong:0,11*4 pong:0,12*2 pong:0,13*4 pong:0,14 pong:0,15*2 pong:0,5*2 pong:0,6*2 pong*4 in*3 in:0,1 use*3 ineof ineof:0,1 q*6 lpt", []string{
		"est q ping:1 q pong:0,10 q in pong:0 q", "est q ping:1 q pong:0,11 q in pong:0 q", "est est:1 q ping:1 ping:2 in q use:0 pong:0,11 q use:1 pong:1 q in pong:0 q", "est q ping:1 pong:0 pong:0,11 q", "est q ping:1 pong:0 pong:0,15 ineof q", "est q ping:1 q pong:0,5 q", "in:0,1 est q ping:1 q pong:0,14 q",
		"est q ping:1 q pong:0,8 q in pong:0 q", "est q ping:1 q pong:0,9 q in pong:0 q", "est q ping:1 q pong:0,12 q in pong:0 q", "est q ping:1 q pong:0,13 pong:0,13 q in pong:0 q", "est q ping:1 q pong:0,6 pong:0,6 q", "est q ping:1 q pong:0,15 ineof q in pong:0 q", "in:0,3 est q ping:1 q pong:0,5 q pong:0 q",
	}},
}

// memory that sizes claimed by a peer must not cost
func runLeaseMem(c *Ctx) {
	for _, typ := range []byte{1, 2} {
		for _, size := range []uint32{0xffffffff, 1<<31 - 1, 1 << 31, 1 << 30, 1 << 28, 1 << 26} {
			for _, n := range []int{0, 100, 70000} {
				r := newLeaseRig(Sched{}, 1, 0)
				if r.agent == nil {
					return
				}
				r.do(Act{Op: "wait"})
				r.do(Act{Op: "in"})
				r.settle()
				var m0, m1 runtime.MemStats
				runtime.ReadMemStats(&m0)
				b := make([]byte, 12+n)
				b[0] = typ
				binary.LittleEndian.PutUint32(b[4:], size)
				r.ins[0].Feed(b, nil)
				r.settle()
				runtime.ReadMemStats(&m1)
				r.Add(M{"e": "alloc", "kb": min((m1.TotalAlloc-m0.TotalAlloc)>>10, 1<<30), "fed": (12 + n) >> 10})
				r.Add(M{"e": "ineof", "c": 0})
				r.ins[0].End(errEOF, nil)
				r.do(Act{Op: "aclose"})
				r.quiet()
				r.end(false)
				c.Put(fmt.Sprintf("mem%d/%d/%d", typ, size, n), r.Events())
				if r.hung {
					return
				}
			}
		}
	}
}

func runLeaseProp(c *Ctx) {
	v := leaseVocab[c.Prop]
	k := 0
	one := func(name string, as []Act, random, pauses int, listen int) bool {
		k++
		if (c.Only >= 0 && k != c.Only) || (c.Parts > 1 && k%c.Parts != c.Part) {
			return true
		}
		seed := c.Seed*7919 + int64(k)
		return explore(c, name, seed, random, pauses, func(s Sched) bool { return runLease(c, name, as, s, seed, listen) })
	}
	pre := acts("wait in")
	if c.Prop == "L04" && c.Part == 0 && c.Only < 0 {
		runLeaseMem(c)
	}
	for i, b := range v.base {
		for j := 0; j < c.N(3, 12); j++ {
			p := 0
			if j == 0 {
				p = c.N(400, -1)
			}
			if !one(fmt.Sprintf("fixed%d", i), append(append([]Act{}, pre...), acts(b)...), c.N(4, 20), p, i*3+j) {
				return
			}
		}
	}
	if c.Prop == "L02" || c.Prop == "L04" { // contents vary
		for i := 0; i < c.N(200, 3000); i++ {
			s := "est q ping:1 pong:0,4 q pong:0,7 pong:0,1 q ping:1 q pong:0,2 q"
			if c.Prop == "L04" {
				s = fmt.Sprintf("est est:%d q ping:1 ping:2 q pong:0,%d q in pong:0,%d q in pong:0 q in pong:%d q", 1+i%5, 8+i%6, 8+(i/6)%6, 1+i%5)
			}
			if !one(fmt.Sprintf("vary%d", i), append(append([]Act{}, pre...), acts(s)...), 0, 0, i) {
				return
			}
		}
	}
	if c.Gen != "" {
		for i, as := range readGenActs(c.Gen) {
			rest := append([]Act{}, pre...)
			for _, a := range as {
				rest = append(rest, a, Act{Op: "q"})
			}
			if !one(fmt.Sprintf("gen%d", i), rest, 0, 0, 0) {
				return
			}
			if c.Parts <= 1 || k%c.Parts == c.Part {
				c.Stats["generated_replayed"]++
			}
		}
	}
	rnd := c.Rand(23)
	for i := 0; i < c.N(250, 3000); i++ {
		as := genActs(rnd, v, 4+rnd.Intn(12))
		nest := 0
		for j := range as {
			switch as[j].Op {
			case "est":
				as[j].A = rnd.Intn(3) * rnd.Intn(3)
				if nest++; nest > 4 {
					as[j].Op = "q"
				}
			case "ping", "sclose", "lpt", "gate", "ungate", "werr", "pings":
				as[j].A = 1 + rnd.Intn(max(nest, 1))
			case "pong":
				as[j].A = rnd.Intn(3) * rnd.Intn(3)
			case "cancel":
				as[j].A = 1 + rnd.Intn(6)
			case "use":
				as[j].A = rnd.Intn(4)
			case "werr2":
			}
		}
		if !one(fmt.Sprintf("random%d", i), append(acts("wait in est"), as...), c.N(1, 3), c.N(3, 10), rnd.Intn(12)) {
			return
		}
	}
}

func init() {
	for p := range leaseVocab {
		drivers[p] = runLeaseProp
	}
}
