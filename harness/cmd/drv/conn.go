package main

import (
	"context"
	"encoding/binary"
	"errors"
	"fmt"
	"math/rand"
	"os"
	"sort"
	"strconv"
	"strings"
	"sync"

	"phv/wf"

	"github.com/tg123/phabrik/transport"
	vy "github.com/tg123/phabrik/verifyield"
)

// Act is one step of a scenario. Steps that need something that has not
// happened (an identity that is not known yet) do nothing.
type Act struct {
	Op string
	A  int
	B  int
}

func (a Act) String() string { return fmt.Sprintf("%s(%d,%d)", a.Op, a.A, a.B) }

// ids numbers message identities
type ids struct {
	mu  sync.Mutex
	n   map[MID]int
	rev []MID
}

func newIds() *ids { return &ids{n: map[MID]int{}, rev: []MID{{}}} }

func (d *ids) of(m MID) int {
	if m.Empty() {
		return 0
	}
	d.mu.Lock()
	defer d.mu.Unlock()
	if x, ok := d.n[m]; ok {
		return x
	}
	d.rev = append(d.rev, m)
	d.n[m] = len(d.rev) - 1
	return len(d.rev) - 1
}

func (d *ids) mid(n int) MID {
	d.mu.Lock()
	defer d.mu.Unlock()
	return d.rev[n]
}

var hbTy = wf.Struct(wf.T("i64"))

// ConnRig is a client connection with the driver as its peer
type ConnRig struct {
	*Log
	fc      *FConn
	cl      *transport.Client
	st      Stream
	ids     *ids
	mu      sync.Mutex
	reqID   map[int]int // operation -> identity number seen on the wire
	ticks   map[int64]int
	tickRev []int64
	tickOf  map[int]int // n-th heartbeat request -> tick number
	nhb     int
	tags    int
	ctx     map[int]context.CancelFunc
	wg      sync.WaitGroup
	blockCb bool
	cbSend  bool
	cbClose bool
	cbGate  chan struct{}
	waiting bool
	old     map[int]bool
	hung    bool
	own     int
	q0      int
	sched   Sched
	rejText string
}

func (r *ConnRig) newTag() int {
	r.mu.Lock()
	defer r.mu.Unlock()
	r.tags++
	return r.tags
}

func (r *ConnRig) onFrame(f *WFrame) {
	m := f.Msg
	ev := M{"e": "wr", "id": r.ids.of(m.Id), "k": "junk", "tag": 0, "tick": 0}
	if !f.HCok || f.BC != 0 || f.Mask != 0 {
		ev["k"] = "junk"
	} else if m.Actor == 1 && m.Action == "HeartbeatRequest" {
		if v, _, err := wf.Dec(hbTy, m.Body); err == nil {
			t := int64(v.([]wf.V)[0].(uint64))
			r.mu.Lock()
			if _, ok := r.ticks[t]; !ok {
				r.tickRev = append(r.tickRev, t)
				r.ticks[t] = len(r.tickRev) - 1
			}
			r.nhb++
			r.tickOf[r.nhb] = r.ticks[t]
			ev["k"], ev["tick"] = "hbq", r.ticks[t]
			r.mu.Unlock()
		}
	} else if m.Actor == 1 && m.Action == "HeartbeatResponse" {
		ev["k"], ev["tag"] = "hbr", r.hbTag(m.Body)
	} else if m.Actor == 1 && m.Action == "" {
		ev["k"] = "init"
	} else if m.Actor == 77 {
		t := tagOf(m.Body)
		if t > 0 && m.Action == fmt.Sprintf("act%d", t) {
			ev["k"], ev["tag"] = "msg", t
			r.mu.Lock()
			r.reqID[t] = r.ids.of(m.Id)
			r.mu.Unlock()
		}
	}
	r.Add(ev)
}

// hbTag of the content of a heartbeat
func (r *ConnRig) hbTag(b []byte) int {
	if t := tagOf(b); t > 0 { // not an encoded heartbeat
		return t
	}
	v, _, err := wf.Dec(hbTy, b)
	if err != nil || string(wf.Enc(hbTy, v)) != string(b) {
		return -1
	}
	return int(v.([]wf.V)[0].(uint64))
}

func newConnRig(s Sched, cfg transport.Config) *ConnRig {
	r := &ConnRig{Log: &Log{}, ids: newIds(), reqID: map[int]int{}, ticks: map[int64]int{}, tickRev: []int64{0}, tickOf: map[int]int{},
		ctx: map[int]context.CancelFunc{}, cbGate: make(chan struct{}), old: goroutineSet(), sched: s}
	r.fc = NewFConn("local:1", "remote:1")
	r.fc.onWrite = func(b []byte) {
		r.st.Push(b, r.onFrame, func() { r.Add(M{"e": "junk"}) })
	}
	r.fc.onClose = func() { r.Add(M{"e": "cc"}) }
	var err error
	r.cl, err = transport.Connect(r.fc, transport.ClientConfig{Config: cfg, MessageCallback: r.onMessage})
	if err != nil {
		r.Add(M{"e": "junk", "what": err.Error()})
	}
	return r
}

func (r *ConnRig) onMessage(c transport.Conn, m *transport.ByteArrayMessage) {
	t := tagOf(m.Body)
	if m.Headers.Action == "ConnectionAuth" {
		t = int(m.Headers.RetryCount)
	} else if m.Headers.Action != fmt.Sprintf("act%d", t) {
		t = -1
	}
	r.Add(M{"e": "dl", "tag": t})
	r.mu.Lock()
	b, g, snd, cls := r.blockCb, r.cbGate, r.cbSend, r.cbClose
	r.mu.Unlock()
	if b {
		<-g
	}
	if snd {
		r.send(r.newTag(), 0, false, c)
	}
	if cls {
		r.close(c)
	}
	r.Add(M{"e": "dle"})
}

// outcome of an operation
func (r *ConnRig) outcome(ctx context.Context, err error) (string, int) {
	if err == nil {
		return "ok", 0
	}
	if ctx != nil && ctx.Err() != nil && errors.Is(err, ctx.Err()) {
		return "ctx", 0
	}
	if t := rejTag(err); t != 0 {
		return "rej", t
	}
	return "err", 0
}

// rejTag finds the rejection an error carries
func rejTag(err error) int {
	s := err.Error()
	i := strings.Index(s, "REJ<")
	if i < 0 {
		return 0
	}
	j := strings.IndexByte(s[i:], '>')
	if j < 0 {
		return 0
	}
	t, _ := strconv.Atoi(s[i+4 : i+j])
	if !strings.Contains(s, strconv.Itoa(70000+t)) { // the code
		return 0
	}
	return t
}

func (r *ConnRig) msg(tag, own int, bad bool) *transport.Message {
	m := &transport.Message{}
	m.Headers.Actor = 77
	m.Headers.Action = fmt.Sprintf("act%d", tag)
	m.Body = mkBody(tag)
	if own != 0 {
		m.Headers.Id = r.ids.mid(own).Lib()
	}
	if bad {
		if tag%2 == 0 {
			m.Body = make(chan int) // cannot be encoded
		} else {
			m.Headers.AppendCustomHeader(0x1234, make([]byte, 70000))
		}
	}
	return m
}

func (r *ConnRig) send(tag, own int, bad bool, c transport.Conn) {
	m := r.msg(tag, own, bad)
	r.Add(M{"e": "sendb", "r": tag, "tag": tag, "own": own, "bad": bad})
	err := c.SendOneWay(m)
	o, t := r.outcome(nil, err)
	r.Add(M{"e": "sende", "r": tag, "o": o, "t": t})
}

func (r *ConnRig) close(c transport.Conn) {
	r.Add(M{"e": "closeb"})
	c.Close()
	r.Add(M{"e": "closee"})
}

func (r *ConnRig) goo(f func()) {
	r.wg.Add(1)
	go func() {
		defer r.wg.Done()
		f()
	}()
}

func (r *ConnRig) newOwn() int {
	r.own++
	return r.ids.of(MID{[16]byte{0xee, byte(r.own)}, uint32(r.own * 3)})
}

func (r *ConnRig) feed(m *WMsg, ev M) {
	r.fc.Feed(m.Frame(FOpt{}), func() { r.Add(M{"e": "feed", "m": ev}) })
}

func (r *ConnRig) peerMsg(rel MID) {
	t := r.newTag()
	m := &WMsg{Id: MID{[16]byte{0xdd, 1}, uint32(t)}, Rel: rel, Actor: 77, Action: fmt.Sprintf("act%d", t), Body: mkBody(t)}
	m.vary(t)
	r.feed(m, M{"k": "msg", "rel": r.ids.of(rel), "tag": t})
}

func (r *ConnRig) knownID(op int) (MID, bool) {
	r.mu.Lock()
	defer r.mu.Unlock()
	x, ok := r.reqID[op]
	if !ok {
		return MID{}, false
	}
	return r.ids.mid(x), true
}

// quiet waits until nothing moves
func (r *ConnRig) quiet() {
	if r.hung {
		return
	}
	if !quiesce() {
		r.hung = true
		r.Add(M{"e": "hang"})
		return
	}
	if r.sched.Mode == "pause" && vy.Paused() {
		r.q0++
		if r.q0 <= r.sched.Release {
			return
		}
		vy.Release()
		if !quiesce() {
			r.hung = true
			r.Add(M{"e": "hang"})
			return
		}
	}
	r.Add(M{"e": "q"})
}

// do performs one step. Operations are numbered by their tags: A is an earlier operation, counted from 1
func (r *ConnRig) do(a Act) {
	if r.hung {
		return
	}
	switch a.Op {
	case "wait":
		if r.waiting {
			return
		}
		r.waiting = true
		r.Add(M{"e": "waitb"})
		r.goo(func() {
			err := r.cl.Wait()
			o, t := r.outcome(nil, err)
			r.Add(M{"e": "we", "o": o, "t": t})
		})
	case "req", "reqbad":
		t := r.newTag()
		own := 0
		if a.B == 1 {
			own = r.newOwn()
			r.mu.Lock()
			r.reqID[t] = own
			r.mu.Unlock()
		}
		ctx, cancel := context.WithCancel(context.Background())
		r.ctx[t] = cancel
		r.Add(M{"e": "rrb", "r": t, "tag": t, "own": own, "bad": a.Op == "reqbad"})
		if a.B == 2 { // cancelled before it starts
			r.Add(M{"e": "cancel", "r": t})
			cancel()
		}
		r.goo(func() {
			rep, err := r.cl.RequestReply(ctx, r.msg(t, own, a.Op == "reqbad"))
			o, x := r.outcome(ctx, err)
			if err == nil {
				o, x = "reply", -1
				if rep != nil {
					x = tagOf(rep.Body)
				}
			}
			r.Add(M{"e": "rre", "r": t, "o": o, "t": x})
		})
	case "send", "sendbad":
		t := r.newTag()
		own := 0
		if a.B == 1 {
			own = r.newOwn()
		}
		r.goo(func() { r.send(t, own, a.Op == "sendbad", r.cl) })
	case "sends": // one goroutine, several messages
		n := a.A
		var ts []int
		for i := 0; i < n; i++ {
			ts = append(ts, r.newTag())
		}
		r.goo(func() {
			for _, t := range ts {
				r.send(t, 0, false, r.cl)
			}
		})
	case "ping":
		t := r.newTag()
		ctx, cancel := context.WithCancel(context.Background())
		r.ctx[t] = cancel
		r.Add(M{"e": "pingb", "r": t})
		if a.B == 2 {
			r.Add(M{"e": "cancel", "r": t})
			cancel()
		}
		r.goo(func() {
			_, err := r.cl.Ping(ctx)
			o, x := r.outcome(ctx, err)
			r.Add(M{"e": "pinge", "r": t, "o": o, "t": x})
		})
	case "cancel": // the A-th operation with a context
		var ks []int
		for k := range r.ctx {
			ks = append(ks, k)
		}
		sort.Ints(ks)
		if a.A >= 1 && a.A <= len(ks) {
			r.Add(M{"e": "cancel", "r": ks[a.A-1]})
			r.ctx[ks[a.A-1]]()
		}
	case "cancelt": // the operation with tag A
		if f, ok := r.ctx[a.A]; ok {
			r.Add(M{"e": "cancel", "r": a.A})
			f()
		}
	case "reply": // to the operation with tag A
		if id, ok := r.knownID(a.A); ok {
			r.peerMsg(id)
		}
	case "msg":
		r.peerMsg(MID{})
	case "msgrel": // unknown identity
		r.peerMsg(MID{[16]byte{0xcc}, uint32(a.A + 1)})
	case "pong": // the A-th heartbeat request
		r.mu.Lock()
		tick, ok := r.tickOf[a.A]
		v := int64(0)
		if ok {
			v = r.tickRev[tick]
		}
		r.mu.Unlock()
		if ok {
			r.feed(&WMsg{Id: MID{[16]byte{0xdd, 2}, uint32(a.A + 1)}, Actor: 1, Action: "HeartbeatResponse", Body: wf.Enc(hbTy, []wf.V{uint64(v)})}, M{"k": "hbr", "tick": tick, "tag": 0})
		}
	case "pongold": // nobody asked
		vs := []int64{0, 1, -1, 1 << 62, int64(a.A)}
		r.feed(&WMsg{Actor: 1, Action: "HeartbeatResponse", Body: wf.Enc(hbTy, []wf.V{uint64(vs[a.B%len(vs)])})}, M{"k": "hbr", "tick": 0, "tag": 0})
	case "pongbad":
		bs := [][]byte{nil, {1}, mkBody(3), wf.Enc(tyStr, []wf.V{"x"}), {0, 11, 0, 0, 0, 0, 0, 0, 0, 31, 9, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 47, 63}}
		r.feed(&WMsg{Actor: 1, Action: "HeartbeatResponse", Body: bs[a.B%len(bs)]}, M{"k": "hbr", "tick": 0, "tag": 0})
	case "hbq":
		t := r.newTag()
		b := wf.Enc(hbTy, []wf.V{uint64(t)})
		if a.B == 1 {
			b = mkBody(t)
		}
		r.feed(&WMsg{Id: MID{[16]byte{0xdd, 3}, uint32(t)}, Actor: 1, Action: "HeartbeatRequest", Body: b}, M{"k": "hbq", "tag": t})
	case "other": // transport messages that mean nothing
		r.feed(&WMsg{Actor: 1, Action: []string{"", "Heartbeat", "Foo"}[a.B%3], Body: mkBody(2)}, M{"k": "other", "tag": 0})
	case "authok", "authrej":
		t := r.newTag()
		m := &WMsg{Actor: 0, Action: "ConnectionAuth", Retry: int32(t)}
		m.Actor = actorSendTarget
		m.Body = wf.Enc(tyStr, []wf.V{fmt.Sprintf("REJ<%d>", t)})
		ev := M{"k": "msg", "rel": 0, "tag": t}
		if a.Op == "authrej" {
			m.Err = int64(70000 + t)
			if a.B == 1 {
				m.Err = -int64(70000 + t)
			}
			ev = M{"k": "auth", "tag": t}
		}
		r.feed(m, ev)
	case "eof":
		r.fc.End(errEOF, func() { r.Add(M{"e": "feed", "m": M{"k": "eof"}}) })
	case "rerr":
		r.fc.End(errInjected, func() { r.Add(M{"e": "feed", "m": M{"k": "eof"}}) })
	case "bad":
		b := []byte{3, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0}
		r.fc.Feed(b, func() { r.Add(M{"e": "feed", "m": M{"k": "bad"}}) })
	case "cut": // part of a message, then the end
		f := (&WMsg{Actor: 77, Action: "act3", Body: mkBody(3)}).Frame(FOpt{})
		k := 1 + a.A%(len(f)-1)
		r.fc.Feed(f[:k], nil)
		r.fc.End(errEOF, func() { r.Add(M{"e": "feed", "m": M{"k": "eof"}}) })
	case "close":
		r.goo(func() { r.close(r.cl) })
		if a.B != 1 && !quiesce() {
			r.hung = true
			r.Add(M{"e": "hang"})
		}
	case "gate":
		r.fc.Gate(true, func() { r.Add(M{"e": "gate"}) })
	case "ungate":
		r.fc.Gate(false, func() { r.Add(M{"e": "ungate"}) })
	case "werr":
		r.fc.FailWrites(errInjected, func() { r.Add(M{"e": "werr"}) })
	case "block":
		r.mu.Lock()
		r.blockCb = true
		r.mu.Unlock()
	case "unblock":
		r.mu.Lock()
		if r.blockCb {
			r.blockCb = false
			close(r.cbGate)
			r.cbGate = make(chan struct{})
		}
		r.mu.Unlock()
	case "cbsend":
		r.mu.Lock()
		r.cbSend = true
		r.mu.Unlock()
	case "cbclose":
		r.mu.Lock()
		r.cbClose = true
		r.mu.Unlock()
	case "chunk":
		k := a.A
		r.fc.mu.Lock()
		r.fc.chunk = func(int, int) int { return k }
		r.fc.mu.Unlock()
	case "q":
		r.quiet()
	default:
		panic("no step " + a.Op)
	}
}

const actorSendTarget = int64(transport.MessageActorTypeTransportSendTarget)

// finish ends a scenario: everything is let go and must end
func (r *ConnRig) finish() {
	r.do(Act{Op: "unblock"})
	r.do(Act{Op: "ungate"})
	vy.Release()
	r.quiet()
	r.do(Act{Op: "close"})
	r.quiet()
	vy.Off()
	if !r.hung {
		n, st := phabrikGoroutines(r.old)
		if len(r.st.buf) > 0 { // part of a frame
			r.Add(M{"e": "junk"})
		}
		ev := M{"e": "end", "leak": n}
		if n > 0 {
			ev["stack"] = st[:min(len(st), 1500)]
		}
		r.Add(ev)
	}
}

// runConn runs a scenario
func runConn(c *Ctx, name string, acts []Act, s Sched) bool {
	vy.Off()
	r := newConnRig(s, transport.Config{})
	s.start()
	for _, a := range acts {
		r.do(a)
	}
	r.finish()
	c.Put(M{"name": name, "acts": fmt.Sprint(acts), "sched": fmt.Sprint(s)}, r.Events())
	if r.hung {
		c.Stats["hung"]++
		return false
	}
	return true
}

// explore runs a scenario undisturbed, under random schedules, and with one
// goroutine stopped at every place it passes
func explore(c *Ctx, name string, seed int64, random, pauses int, run func(Sched) bool) bool {
	if !run(Sched{}) {
		return false
	}
	for i := 0; i < random; i++ {
		if !run(Sched{Mode: "random", Seed: uint64(seed)*1000 + uint64(i)}) {
			return false
		}
	}
	if pauses == 0 {
		return true
	}
	// which places are passed, and how often
	if !run(Sched{Mode: "count"}) {
		return false
	}
	hits := vy.Hits()
	var ks []int
	for k := range hits {
		ks = append(ks, int(k))
	}
	sort.Ints(ks)
	var all []Sched
	for _, k := range ks {
		for n := 1; n <= hits[uint32(k)] && n <= 4; n++ {
			for rel := 0; rel <= 2; rel++ {
				all = append(all, Sched{Mode: "pause", Site: uint32(k), Nth: n, Release: rel})
			}
		}
	}
	rnd := rand.New(rand.NewSource(seed))
	rnd.Shuffle(len(all), func(i, j int) { all[i], all[j] = all[j], all[i] })
	if pauses > 0 && len(all) > pauses {
		all = all[:pauses]
	}
	c.Stats["pause_schedules"] += len(all)
	for _, s := range all {
		if !run(s) {
			return false
		}
	}
	return true
}

// ------------------------------------------------------------- scenarios

func acts(s string) []Act {
	var r []Act
	for _, f := range strings.Fields(s) {
		a := Act{Op: f}
		if i := strings.IndexByte(f, ':'); i >= 0 {
			a.Op = f[:i]
			p := strings.Split(f[i+1:], ",")
			a.A, _ = strconv.Atoi(p[0])
			if len(p) > 1 {
				a.B, _ = strconv.Atoi(p[1])
			}
		}
		r = append(r, a)
	}
	return r
}

// vocabulary of a property's random scenarios, with weights
type vocab struct {
	ops  string
	base []string // fixed scenarios
}

var connVocab = map[string]vocab{
	"T02": {"send*4 sends:3*3 req*3 ping*2 hbq*3 hbq:0,1 q*3 gate ungate*2 reply msg pong werr sendbad reqbad close:0,1 chunk:1 cbsend", []string{
		"wait sends:3 sends:3 req send ping hbq hbq q",
		"wait gate sends:2 sends:2 req ping hbq q ungate q",
		"sends:2 sends:2 sends:2 q",
		"wait cbsend msg msg sends:3 q",
		"wait gate send send close:0,1 q",
	}},
	"T06": {"req*5 req:0,1*3 reply*10 msg*2 msgrel*2 q*6 cancel*3 close authok block unblock*2 eof hbq chunk:1", []string{
		"wait req req q reply:1 reply:1 reply:2 q",
		"wait req:0,1 reply:1 q reply:1 q",
		"wait req q cancel:1 reply:1 msg q reply:1 q",
		"req q reply:1 reply:1 wait q",
		"wait block msg req req q reply:2 reply:3 msg q unblock q",
		"wait req req req q reply:3 msg reply:1 msg reply:2 q",
		"wait req q msgrel:1 msgrel:1 msg reply:1 q",
		"wait send q reply:1 q",
		"wait req q reply:1 eof q",
		"wait authok req q reply:2 q",
	}},
	"T07": {"req*6 req:0,1 req:0,2*2 cancel*6 reply*6 q*5 close close:0,1*2 eof rerr bad cut:5 msg*2 gate ungate werr reqbad authrej block unblock*2", []string{
		"wait req q close q", "wait req req q eof q", "req q close q", "wait close q req q", "close req q", "wait req q cancel:1 q msg q",
		"wait req q reply:1 cancel:1 q msg q", "wait req q cancel:1 reply:1 msg reply:1 q msg q", "wait req req q cancel:1 cancel:2 reply:1 reply:2 msg q",
		"wait req:0,2 q reply:1 msg q", "wait req q bad q req q", "wait req q close:0,1 reply:1 q", "wait req close:0,1 q", "wait gate req q cancel:1 q ungate q",
		"wait req q werr req q close q", "wait req q cut:9 q req q", "wait req q rerr q", "wait gate req req q close q", "wait block msg q req q reply:2 cancel:1 unblock q",
		"wait req q reply:1 reply:1 q msg q", "wait reqbad q msg q", "wait req q cancel:1 q reply:1 msg q req q reply:4 q",
	}},
	"T08": {"send*4 sends:4*3 req*3 send:0,1*2 req:0,1*2 ping*2 hbq*3 q*2 reply", []string{
		"wait sends:4 sends:4 sends:4 req req ping hbq hbq q", "send:0,1 req:0,1 send q",
	}},
	"T09": {"ping*6 ping:0,2 cancel*4 pong:1*5 pong:2*3 pong:3 pongold:1,0 pongold:1,1 pongold:1,2 pongold:1,3 pongbad:0,0 pongbad:0,1 pongbad:0,2 pongbad:0,3 pongbad:0,4 hbq*4 hbq:0,1*2 other:0,0 other:0,1 q*6 close close:0,1 eof msg*2 gate ungate*2 werr authrej", []string{
		"wait ping q pong:1 q", "wait ping ping q pong:2 q pong:1 q", "wait ping q pongold:1,0 pongbad q pong:1 pong:1 q", "wait ping q cancel:1 q pong:1 q ping q pong:1 q pong:2 q",
		"wait ping q close q", "wait ping q eof q ping q", "wait hbq hbq hbq:0,1 q", "wait gate hbq hbq ping q msg q ungate q", "wait gate hbq q close q", "wait pongold:1,0 close q",
		"wait pongold:1,2 pongold:1,3 pongbad:0,4 close:0,1 q", "wait ping q pong:1 close:0,1 q", "wait ping q pong:1 cancel:1 q", "wait ping:0,2 q pong:1 q", "close ping q", "wait werr ping hbq q msg q",
		"wait ping ping ping q pong:1 pong:2 pong:3 q", "wait ping q pong:1 q ping q pong:1 q pong:2 q", "wait gate ping q cancel:1 ungate q", "wait ping q authrej q ping q", "wait other:0,0 other:0,1 other:0,2 hbq q",
	}},
	"T10": {"authrej*3 authrej:0,1 authok*2 req*4 send*4 ping*2 q*5 close close:0,1 reply*2 msg*2 hbq gate ungate werr eof cancel block unblock", []string{
		"wait req q authrej q send req ping q", "wait authok q send req q reply:3 q", "wait authrej q", "wait authrej msg msg q send q", "wait req req send authrej q sends:2 ping q",
		"wait authrej:0,1 q send q", "wait authok authok authrej authrej q send q close q send q", "wait gate send req q authrej q ungate q send q", "authrej q wait q send q", "wait q authrej close:0,1 q send q",
		"wait block msg authrej q send q unblock q send req ping q", "wait authrej send send req q", "wait req q reply:1 authrej q",
	}},
}

// genActs makes a random scenario
func genActs(rnd *rand.Rand, v vocab, n int) []Act {
	var bag []Act
	for _, f := range strings.Fields(v.ops) {
		k := 1
		if i := strings.IndexByte(f, '*'); i >= 0 {
			k, _ = strconv.Atoi(f[i+1:])
			f = f[:i]
		}
		for ; k > 0; k-- {
			bag = append(bag, acts(f)...)
		}
	}
	var r []Act
	if rnd.Intn(8) != 0 {
		r = append(r, Act{Op: "wait"})
	}
	for i := 0; i < n; i++ {
		a := bag[rnd.Intn(len(bag))]
		switch a.Op {
		case "reply":
			a.A = 1 + rnd.Intn(i+2)
		case "cancel":
			a.A = 1 + rnd.Intn(3)
		case "msgrel":
			a.A = rnd.Intn(2)
		case "cut":
			a.A = rnd.Intn(60)
		}
		r = append(r, a)
	}
	if rnd.Intn(6) == 0 {
		r = append(r, Act{Op: "wait"})
	}
	r = append(r, Act{Op: "q"})
	return r
}

func runConnProp(c *Ctx) {
	v := connVocab[c.Prop]
	k := 0
	one := func(name string, as []Act, random, pauses int) bool {
		k++
		if c.Only >= 0 && k != c.Only {
			return true
		}
		if c.Parts > 1 && k%c.Parts != c.Part {
			return true
		}
		return explore(c, name, c.Seed*7919+int64(k), random, pauses, func(s Sched) bool { return runConn(c, name, as, s) })
	}
	if c.Prop == "T08" {
		for i := 0; i < c.N(3, 30); i++ {
			if i%c.Parts == c.Part || c.Parts <= 1 {
				runIds(c, c.N(12, 40), Sched{})
				runIds(c, c.N(12, 40), Sched{Mode: "random", Seed: uint64(c.Seed*100 + int64(i))})
			}
		}
	}
	for i, b := range v.base {
		if !one(fmt.Sprintf("fixed%d", i), acts(b), c.N(10, 100), c.N(400, -1)) {
			return
		}
	}
	// behaviours of the environment that the specification enumerated
	if c.Gen != "" {
		for i, as := range readGenActs(c.Gen) {
			var rest, burst []Act
			for _, a := range as {
				rest = append(rest, a, Act{Op: "q"})
				burst = append(burst, a)
				if a.Op == "req" || a.Op == "ping" {
					burst = append(burst, Act{Op: "q"})
				}
			}
			if !one(fmt.Sprintf("gen%d", i), rest, 0, 0) || !one(fmt.Sprintf("genburst%d", i), append(burst, Act{Op: "q"}), c.N(0, 3), 0) {
				return
			}
			if c.Parts <= 1 || k%c.Parts == c.Part {
				c.Stats["generated_replayed"]++
			}
		}
	}
	rnd := c.Rand(7)
	for i := 0; i < c.N(300, 3000); i++ {
		as := genActs(rnd, v, 3+rnd.Intn(12))
		if !one(fmt.Sprintf("random%d", i), as, c.N(3, 6), c.N(10, 20)) {
			return
		}
	}
}

// readGenActs reads scenarios, one sequence of steps like "reply:1" per line
func readGenActs(f string) [][]Act {
	b, err := os.ReadFile(f)
	if err != nil {
		panic(err)
	}
	var r [][]Act
	for _, l := range strings.Split(string(b), "\n") {
		l = strings.NewReplacer("[", " ", "]", " ", "\"", " ", ",", " ", ";", ",").Replace(l)
		if strings.TrimSpace(l) != "" {
			r = append(r, acts(l))
		}
	}
	return r
}

func init() {
	for _, p := range []string{"T02", "T06", "T07", "T09", "T10"} {
		drivers[p] = runConnProp
	}
	drivers["T08"] = runConnProp
	_ = binary.LittleEndian
}
