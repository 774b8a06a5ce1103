package main

import (
	"context"
	"crypto/tls"
	"errors"
	"fmt"
	"net"
	"runtime/debug"
	"time"

	"phv/wf"

	"github.com/tg123/phabrik/transport"
	vy "github.com/tg123/phabrik/verifyield"
)

// SConn is a connection of a server, or of a client of its own
type SConn struct {
	n     int
	fc    *FConn
	st    Stream
	peer  *SecPeer
	conn  transport.Conn // seen by a callback, or the client
	cl    *transport.Client
	wait  bool
	tls   bool
	ticks map[int64]int
	rev   []int64
	nhb   []int

	block    bool
	cbGate   chan struct{}
	cbSend   bool
	cbReq    bool
	cbClose  bool
	started  bool
	finished bool
}

// SrvRig is a server, with the driver as its peers
type SrvRig struct {
	*Rig
	ids   *ids
	srv   *transport.Server
	ln    *FListener
	cs    []*SConn
	tagC  map[int]int // message -> connection
	reqID map[int]int
	serve bool
	vr    *tlsVariant
	cfg   transport.Config
	cut   int
	cor   int
	at    int
}

var secret = []byte("\x01secret\xfe\xffthat nobody may see\x00\x02")

func newSrvRig(s Sched, seed int64, vr *tlsVariant, cfg transport.Config, listen bool) *SrvRig {
	r := &SrvRig{Rig: newRig(s, seed), ids: newIds(), tagC: map[int]int{}, reqID: map[int]int{}, vr: vr, cut: -1, cor: -1}
	r.cfg = cfg
	if !listen {
		return r
	}
	if vr != nil {
		r.cfg.TLS = vr.server()
	}
	r.ln = NewFListener("10.0.0.9:19000")
	r.ln.onClose = func() { r.Add(M{"e": "lc"}) }
	r.ln.onAccept = func(x interface{}) {
		n := -1
		switch v := x.(type) {
		case net.Conn:
			for _, c := range r.cs {
				if c.fc == v {
					n = c.n
				}
			}
		case tempErr:
			if !v.temp {
				n = -2
			}
		default:
			n = -2
		}
		r.Add(M{"e": "acc", "c": n})
	}
	r.Add(M{"e": "cfg", "tls": vr != nil})
	var err error
	r.srv, err = transport.Listen(r.ln, transport.ServerConfig{Config: r.cfg, MessageCallback: r.onMessage})
	if err != nil {
		r.Add(M{"e": "junk", "what": err.Error()})
	}
	return r
}

func (r *SrvRig) good(client bool) bool {
	return r.cut < 0 && r.cor < 0 && (r.vr == nil || (client && !r.vr.badC) || (!client && !r.vr.badS))
}

// tagMsg is the tag of a message, its action and secret included
func (r *SrvRig) tagMsg(h *transport.MessageHeaders, body []byte) int {
	t := tagOf(body)
	if h.Action != fmt.Sprintf("act%d", t) {
		return -1
	}
	return t
}

// vary what has no meaning to the connection
func (m *WMsg) vary(t int) {
	m.Expects, m.High, m.Idem, m.FaultBody = t%3 == 0, t%4 == 1, t%5 == 2, t%11 == 0
	if t%7 == 3 {
		m.Err = int64(t)
	}
	if t%6 == 5 {
		m.Retry = int32(t)
	}
}

func (r *SrvRig) frame(c *SConn, f *WFrame) {
	m := f.Msg
	ev := M{"e": "wr", "c": c.n, "id": r.ids.of(m.Id), "k": "junk", "tag": 0, "tick": 0}
	switch {
	case !c.tls && (f.HCok == r.cfg.DisableGenerateFrameHeaderCRC || (f.BC != 0) != r.cfg.GenerateFrameBodyCRC):
	case m.Actor == 1 && m.Action == "HeartbeatRequest":
		if v, _, err := wf.Dec(hbTy, m.Body); err == nil {
			t := int64(v.([]wf.V)[0].(uint64))
			r.mu.Lock()
			if _, ok := c.ticks[t]; !ok {
				c.rev = append(c.rev, t)
				c.ticks[t] = len(c.rev) - 1
			}
			c.nhb = append(c.nhb, c.ticks[t])
			ev["k"], ev["tick"] = "hbq", c.ticks[t]
			r.mu.Unlock()
		}
	case m.Actor == 1 && m.Action == "HeartbeatResponse":
		if t := tagOf(m.Body); t > 0 {
			ev["k"], ev["tag"] = "hbr", t
		}
	case m.Actor == 1 && m.Action == "":
		ev["k"] = "init"
	case m.Actor == 77:
		if t := tagOf(m.Body); t > 0 && m.Action == fmt.Sprintf("act%d", t) {
			ev["k"], ev["tag"] = "msg", t
			r.mu.Lock()
			r.reqID[t] = r.ids.of(m.Id)
			r.mu.Unlock()
		}
	}
	r.Add(ev)
}

// newConn makes connection n
func (r *SrvRig) newConn(isTls bool) *SConn {
	c := &SConn{n: len(r.cs), fc: NewFConn("10.0.0.9:19000", "peer"), ticks: map[int64]int{}, rev: []int64{0}, cbGate: make(chan struct{}), tls: isTls}
	junk := func() { r.Add(M{"e": "junk"}) }
	data := func(b []byte) { c.st.Push(b, func(f *WFrame) { r.frame(c, f) }, junk) }
	if isTls {
		p := newSecPeer(c.fc)
		p.cut, p.corrupt, p.at, p.secret = r.cut, r.cor, r.at, secret
		p.onHw = func(actor int64, nego, recs bool) {
			r.Add(M{"e": "hw", "c": c.n, "actor": actor, "nego": nego, "recs": recs})
		}
		p.onRec = func(t int) { r.Add(M{"e": "rec", "c": c.n, "t": t}) }
		p.onHs = func() { r.Add(M{"e": "hs", "c": c.n}) }
		p.onData, p.onJunk = data, junk
		c.peer = p
		c.fc.onWrite = p.push
		c.fc.onClose = func() { r.Add(M{"e": "cc", "c": c.n}); p.gone() }
	} else {
		c.fc.onWrite = data
		c.fc.onClose = func() { r.Add(M{"e": "cc", "c": c.n}) }
	}
	r.cs = append(r.cs, c)
	return c
}

func (r *SrvRig) hs(c *SConn, server bool) {
	if !c.tls || c.started {
		return
	}
	c.started = true
	if server {
		t := r.vr.server()
		if t.ClientAuth != tls.NoClientCert || r.cor >= 0 {
			t.SessionTicketsDisabled = true
		}
		c.peer.start(t, true)
	} else {
		c.peer.start(r.vr.client(), false)
	}
}

func (r *SrvRig) onMessage(conn transport.Conn, m *transport.ByteArrayMessage) {
	t := r.tagMsg(&m.Headers, m.Body)
	r.mu.Lock()
	n, ok := r.tagC[t]
	var c *SConn
	if ok {
		c = r.cs[n]
		c.conn = conn
	}
	r.mu.Unlock()
	if !ok {
		r.Add(M{"e": "junk", "what": "message"})
		return
	}
	r.Add(M{"e": "dl", "c": n, "tag": t})
	r.mu.Lock()
	block, gate, snd, req, cls := c.block, c.cbGate, c.cbSend, c.cbReq, c.cbClose
	r.mu.Unlock()
	if block {
		<-gate
	}
	if snd {
		r.send(c, conn, r.newTag())
	}
	if req {
		r.request(c, conn, r.newTag(), context.Background())
	}
	if cls {
		r.close(c, conn)
	}
	r.Add(M{"e": "dle", "c": n, "tag": t})
}

func (r *SrvRig) outcome(ctx context.Context, err error) (string, int) {
	if err == nil {
		return "ok", 0
	}
	if ctx != nil && ctx.Err() != nil && errors.Is(err, ctx.Err()) {
		return "ctx", 0
	}
	if t := rejTag(err); t != 0 {
		return "rej", t
	}
	return "err", 0
}

func (r *SrvRig) msg(tag int) *transport.Message {
	m := &transport.Message{}
	m.Headers.Actor = 77
	m.Headers.Action = fmt.Sprintf("act%d", tag)
	m.Headers.AppendCustomHeader(0x4321, append([]byte{}, secret...))
	m.Body = mkBody(tag)
	return m
}

func (r *SrvRig) send(c *SConn, conn transport.Conn, t int) {
	r.Add(M{"e": "sendb", "c": c.n, "r": t, "tag": t, "own": 0, "bad": false})
	o, x := r.outcome(nil, conn.SendOneWay(r.msg(t)))
	r.Add(M{"e": "sende", "c": c.n, "r": t, "o": o, "t": x})
}

func (r *SrvRig) request(c *SConn, conn transport.Conn, t int, ctx context.Context) {
	r.Add(M{"e": "rrb", "c": c.n, "r": t, "tag": t, "own": 0, "bad": false})
	rep, err := conn.RequestReply(ctx, r.msg(t))
	o, x := r.outcome(ctx, err)
	if err == nil {
		o, x = "reply", -1
		if rep != nil {
			x = tagOf(rep.Body)
		}
	}
	r.Add(M{"e": "rre", "c": c.n, "r": t, "o": o, "t": x})
}

func (r *SrvRig) close(c *SConn, conn transport.Conn) {
	r.Add(M{"e": "closeb", "c": c.n})
	conn.Close()
	r.Add(M{"e": "closee", "c": c.n})
}

func (r *SrvRig) feed(c *SConn, m *WMsg, ev M) {
	f := m.Frame(FOpt{BC: r.cfg.CheckFrameBodyCRC && !c.tls, NoHC: c.tls})
	r.feedRaw(c, f, ev)
}

func (r *SrvRig) feedRaw(c *SConn, f []byte, ev M) {
	log := func() {
		if ev != nil {
			r.Add(M{"e": "feed", "c": c.n, "m": ev})
		}
	}
	if c.tls {
		if c.peer.isDone() {
			c.peer.send(f, log)
		}
		return
	}
	c.fc.Feed(f, log)
}

// below TLS, after what the handshake has fed
func (r *SrvRig) below(c *SConn, f func()) {
	if !c.tls {
		f()
		return
	}
	c.peer.now(f)
}

func (r *SrvRig) peerMsg(c *SConn, rel MID) {
	if c.tls && !c.peer.isDone() {
		return
	}
	t := r.newTag()
	r.mu.Lock()
	r.tagC[t] = c.n
	r.mu.Unlock()
	m := &WMsg{Id: MID{[16]byte{0xdd, 1}, uint32(t)}, Rel: rel, Actor: 77, Action: fmt.Sprintf("act%d", t), Body: mkBody(t), Custom: []Hdr{{0x4321, secret}}}
	m.vary(t)
	r.feed(c, m, M{"k": "msg", "rel": r.ids.of(rel), "tag": t})
}

func (r *SrvRig) c(i int) *SConn {
	if i < 0 || i >= len(r.cs) {
		return nil
	}
	return r.cs[i]
}

func (r *SrvRig) handle(i int) (*SConn, transport.Conn) {
	c := r.c(i)
	if c == nil {
		return nil, nil
	}
	r.mu.Lock()
	defer r.mu.Unlock()
	if c.conn == nil {
		return nil, nil
	}
	return c, c.conn
}

func (r *SrvRig) do(a Act) {
	if r.hung {
		return
	}
	c := r.c(a.A)
	switch a.Op {
	case "q":
		r.quiet()
		return
	case "serve":
		if r.serve || r.srv == nil {
			return
		}
		r.serve = true
		t := r.newTag()
		r.Add(M{"e": "serveb", "r": t})
		r.goo(func() {
			r.srv.Serve()
			r.Add(M{"e": "servee", "r": t})
		})
		return
	case "sclose":
		t := r.newTag()
		r.Add(M{"e": "scloseb", "r": t})
		r.goo(func() {
			r.srv.Close()
			r.Add(M{"e": "sclosee", "r": t})
		})
		if a.B != 1 {
			r.settle()
		}
		return
	case "temp":
		r.ln.PushF(tempErr{true}, func() { r.Add(M{"e": "in", "c": -1, "good": true}) })
		return
	case "fatal":
		r.ln.PushF([]error{tempErr{false}, errInjected}[a.B%2], func() { r.Add(M{"e": "in", "c": -2, "good": true}) })
		return
	case "in": // B: 1 the peer does nothing yet
		if len(r.cs) >= 5 {
			return
		}
		c := r.newConn(r.vr != nil)
		if a.A > 0 {
			k := a.A
			c.fc.chunk = func(int, int) int { return k }
		}
		r.ln.PushF(c.fc, func() { r.Add(M{"e": "in", "c": c.n, "good": r.good(false)}) })
		if a.B != 1 {
			r.hs(c, false)
		}
		return
	case "connect": // B: 1 the peer does nothing yet
		if len(r.cs) >= 5 {
			return
		}
		c := r.newConn(r.vr != nil)
		if a.A > 0 {
			k := a.A
			c.fc.chunk = func(int, int) int { return k }
		}
		r.Add(M{"e": "connb", "c": c.n, "tls": c.tls, "good": r.good(true)})
		if a.B != 1 {
			r.hs(c, true)
		}
		cfg := r.cfg
		if c.tls {
			cfg.TLS = r.vr.client()
		}
		r.goo(func() {
			cl, err := transport.Connect(c.fc, transport.ClientConfig{Config: cfg, MessageCallback: r.onMessage})
			r.Add(M{"e": "conne", "c": c.n, "o": outcome(nil, err)})
			if err == nil {
				r.mu.Lock()
				c.cl, c.conn = cl, cl
				r.mu.Unlock()
			}
		})
		return
	case "cancel":
		if f, ok := r.ctx[a.A]; ok {
			n := r.tagC[-a.A]
			r.Add(M{"e": "cancel", "c": n, "r": a.A})
			f()
		}
		return
	}
	if c == nil {
		return
	}
	switch a.Op {
	case "hs":
		r.hs(c, r.srv == nil)
	case "wait":
		r.mu.Lock()
		cl := c.cl
		r.mu.Unlock()
		if c.wait || cl == nil {
			return
		}
		c.wait = true
		r.Add(M{"e": "waitb", "c": c.n})
		r.goo(func() {
			o, t := r.outcome(nil, cl.Wait())
			r.Add(M{"e": "we", "c": c.n, "o": o, "t": t})
		})
	case "msg":
		r.peerMsg(c, MID{})
	case "msgs":
		for i := 0; i < a.B; i++ {
			r.peerMsg(c, MID{})
		}
	case "reply": // to operation B
		r.mu.Lock()
		x, ok := r.reqID[a.B]
		r.mu.Unlock()
		if ok {
			r.peerMsg(c, r.ids.mid(x))
		}
	case "hbq":
		if c.tls && !c.peer.isDone() {
			return
		}
		t := r.newTag()
		r.feed(c, &WMsg{Id: MID{[16]byte{0xdd, 3}, uint32(t)}, Actor: 1, Action: "HeartbeatRequest", Body: mkBody(t)}, M{"k": "hbq", "tag": t})
	case "pong":
		r.mu.Lock()
		tick, v := 0, int64(0)
		if a.B >= 0 && a.B < len(c.nhb) {
			tick = c.nhb[a.B]
			v = c.rev[tick]
		}
		r.mu.Unlock()
		if tick > 0 {
			r.feed(c, &WMsg{Actor: 1, Action: "HeartbeatResponse", Body: wf.Enc(hbTy, []wf.V{uint64(v)})}, M{"k": "hbr", "tick": tick, "tag": 0})
		}
	case "other":
		r.feed(c, &WMsg{Actor: 1, Action: []string{"", "Foo"}[a.B%2], Body: mkBody(2)}, M{"k": "other", "tag": 0})
	case "authrej":
		t := r.newTag()
		m := &WMsg{Actor: actorSendTarget, Action: "ConnectionAuth", Err: int64(70000 + t), Body: wf.Enc(tyStr, []wf.V{fmt.Sprintf("REJ<%d>", t)})}
		r.feed(c, m, M{"k": "auth", "tag": t})
	case "bad":
		b := []byte{3, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0}
		if a.B == 1 { // bad headers
			b = rawFrame([]byte{1, 2, 3}, nil, FOpt{BC: r.cfg.CheckFrameBodyCRC && !c.tls, NoHC: c.tls})
		}
		if c.tls && !c.peer.isDone() {
			r.below(c, func() { c.fc.Feed(b, func() { r.Add(M{"e": "feed", "c": c.n, "m": M{"k": "bad"}}) }) })
			return
		}
		r.feedRaw(c, b, M{"k": "bad"})
	case "rawbad": // below TLS
		if c.tls {
			r.below(c, func() {
				c.fc.Feed([]byte{3, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0}, func() { r.Add(M{"e": "feed", "c": c.n, "m": M{"k": "bad"}}) })
			})
		}
	case "cut":
		f := (&WMsg{Actor: 77, Action: "act3", Body: mkBody(3)}).Frame(FOpt{NoHC: c.tls})
		if !c.tls || c.peer.isDone() {
			r.feedRaw(c, f[:1+a.B%(len(f)-1)], nil)
		}
		r.below(c, func() { c.fc.End(errEOF, func() { r.Add(M{"e": "feed", "c": c.n, "m": M{"k": "eof"}}) }) })
	case "eof":
		r.below(c, func() {
			c.fc.End([]error{errEOF, errInjected}[a.B%2], func() { r.Add(M{"e": "feed", "c": c.n, "m": M{"k": "eof"}}) })
		})
	case "gate":
		if !c.tls {
			c.fc.Gate(true, func() { r.Add(M{"e": "gate", "c": c.n}) })
		}
	case "ungate":
		c.fc.Gate(false, func() { r.Add(M{"e": "ungate", "c": c.n}) })
	case "werrn":
		c.fc.FailAfter(a.B, func() { r.Add(M{"e": "werr", "c": c.n}) })
	case "werr":
		c.fc.FailWrites(errInjected, func() { r.Add(M{"e": "werr", "c": c.n}) })
	case "block":
		r.mu.Lock()
		c.block = true
		r.mu.Unlock()
	case "unblock":
		r.mu.Lock()
		if c.block {
			c.block = false
			close(c.cbGate)
			c.cbGate = make(chan struct{})
		}
		r.mu.Unlock()
	case "cbsend":
		r.mu.Lock()
		c.cbSend = true
		r.mu.Unlock()
	case "cbreq":
		r.mu.Lock()
		c.cbReq = true
		r.mu.Unlock()
	case "cbclose":
		r.mu.Lock()
		c.cbClose = true
		r.mu.Unlock()
	case "send", "req", "ping", "close":
		c, conn := r.handle(a.A)
		if c == nil {
			return
		}
		if a.Op == "close" {
			r.goo(func() { r.close(c, conn) })
			if a.B != 1 {
				r.settle()
			}
			return
		}
		t := r.newTag()
		if a.Op == "send" {
			r.goo(func() { r.send(c, conn, t) })
			return
		}
		ctx, cancel := context.WithCancel(context.Background())
		r.ctx[t] = cancel
		r.mu.Lock()
		r.tagC[-t] = c.n
		r.mu.Unlock()
		if a.Op == "req" {
			r.goo(func() { r.request(c, conn, t, ctx) })
			r.settle() // begun before it can be cancelled
			return
		}
		r.Add(M{"e": "pingb", "c": c.n, "r": t})
		r.goo(func() {
			_, err := conn.Ping(ctx)
			o, x := r.outcome(ctx, err)
			r.Add(M{"e": "pinge", "c": c.n, "r": t, "o": o, "t": x})
		})
	default:
		panic("no step " + a.Op)
	}
}

func (r *SrvRig) finish() {
	for i, c := range r.cs {
		r.do(Act{Op: "unblock", A: i})
		if !c.tls {
			r.do(Act{Op: "ungate", A: i})
		}
	}
	vy.Release()
	r.quiet()
	if r.srv != nil {
		r.do(Act{Op: "sclose"})
	}
	r.quiet()
	for i, c := range r.cs {
		if !r.hung && c.cl != nil {
			r.do(Act{Op: "close", A: i})
		}
		r.do(Act{Op: "eof", A: i})
	}
	r.quiet()
	junk := false
	for _, c := range r.cs {
		junk = junk || len(c.st.buf) > 0
		if c.tls {
			c.fc.End(errEOF, nil)
			if !c.fc.IsClosed() {
				c.peer.gone()
			}
			c.peer.mu.Lock()
			n := c.peer.nsecret
			c.peer.mu.Unlock()
			r.Add(M{"e": "clear", "c": c.n, "n": n})
		}
	}
	r.settle()
	r.end(junk)
}

func runServer(c *Ctx, name string, as []Act, s Sched, seed int64, vr *tlsVariant, listen bool, cut, cor, at int) bool {
	vy.Off()
	cfg := transport.Config{CheckFrameBodyCRC: seed%3 == 0, GenerateFrameBodyCRC: seed%5 < 2, DisableGenerateFrameHeaderCRC: seed%7 == 0}
	r := newSrvRig(s, seed, vr, cfg, listen)
	r.cut, r.cor, r.at = cut, cor, at
	s.start()
	for _, a := range as {
		r.do(a)
	}
	r.finish()
	v := "plain"
	if vr != nil {
		v = vr.name
	}
	c.Put(M{"name": name, "acts": fmt.Sprint(as), "sched": fmt.Sprint(s), "tls": v, "cut": cut, "corrupt": cor, "at": at}, r.Events())
	if r.hung {
		c.Stats["hung"]++
	}
	return !r.hung
}

var srvVocab = vocab{"in*2 in:0,1 in:3,0 in:1,0 msg:0*4 msg:1*4 msg:2*2 msgs:0,3 msgs:1,3 hbq:0 hbq:1 send:0*2 send:1*2 req:0*2 req:1*2 ping:0 ping:1 close:0 close:1 close:0,1 reply*4 pong:0 pong:1 bad:0 bad:1 bad:1,1 eof:0 eof:1 eof:2,1 cut:0 cut:1 gate:0 gate:1 ungate:0*2 ungate:1*2 werr:0 werr:1 block:0 block:1 unblock:0*2 unblock:1*2 cbsend:0 cbsend:1*2 cbreq:0 cbreq:1 cbclose:0 temp*2 fatal sclose sclose:0,1 q*6 hs:0 hs:1 hs:2 authrej:0 other:1 cancel rawbad:0", []string{
	"serve in in msg:0 msg:1 q cbsend:0 cbsend:1 msg:0 msg:1 msg:1 q", "serve in in in msgs:0,3 msgs:1,3 msgs:2,3 q send:0 send:1 send:2 q", "in in serve msg:0 msg:1 q bad:0 q msg:1 q send:1 q",
	"serve in in gate:0 msg:0 hbq:0 q msg:1 q cbsend:1 msg:1 q ungate:0 q", "serve in in block:0 msgs:0,2 q msg:1 cbsend:1 msg:1 q eof:1 q unblock:0 q", "serve temp temp in temp in msg:0 msg:1 q", "serve in msg:0 q sclose in msg:1 q send:0 msg:0 q",
	"serve in in msg:0 msg:1 q req:0 req:1 q reply:1,7 reply:0,8 q reply:0,7 reply:1,8 q", "serve in in cbreq:0 cbreq:1 msg:0 msg:1 q reply:0,4 reply:1,5 reply:0,5 reply:1,4 q", "serve in in msg:0 msg:1 q close:0 q msg:1 send:1 send:0 q", "serve in in cbclose:0 msg:0 msg:1 q msg:1 q",
	"serve in fatal in msg:0 msg:1 q send:0 q", "serve in in eof:0 q msg:1 q in msg:2 q", "serve in in werr:0 hbq:0 msg:0 msg:1 q cbsend:0 msg:0 cbsend:1 msg:1 q", "serve in in msg:0 msg:1 q ping:0 ping:1 q pong:0,0 q pong:1,0 q", "serve in:0,1 in msg:1 q msg:1 q hs:0 q msg:0 q", "serve in:0,1 bad:0 in msg:1 q", "serve in:0,1 eof:0 in msg:1 q",
	"serve in in:1,0 msg:1 in:3,0 msg:2 msg:0 q cut:1 msg:2 q", "sclose serve q", "serve sclose:0,1 in q", "serve in cbsend:0 block:0 msgs:0,3 q unblock:0 q", "serve in in cut:0 msg:1 q", "serve in in bad:0,1 authrej:1 q in msg:2 q",
	"gate:0 serve in gate:0 in msg:1 q ungate:0 msg:0 q",
}}

var secVocab = vocab{"in*2 in:1,0 in:7,0 msg:0*4 msg:1*2 msgs:0,3 hbq:0 send:0*3 send:1 req:0*2 ping:0 close:0 close:0,1 reply*3 pong:0 bad:0 bad:0,1 rawbad:0 eof:0 eof:0,1 cut:0 cbsend:0*2 cbreq:0 cbclose:0 block:0 unblock:0 q*6 hs:0 sclose", []string{
	"serve in msgs:0,3 q cbsend:0 msgs:0,2 hbq:0 q", "serve in:1,0 msgs:0,3 hbq:0 q send:0 req:0 q reply:0,6 q", "serve in:0,1 q hs:0 q msg:0 q", "serve in q bad:0 q", "serve in msg:0 q rawbad:0 q", "serve in in msg:0 msg:1 q cbsend:0 cbsend:1 msg:0 msg:1 q", "serve in msg:0 q ping:0 q pong:0,0 q close:0 q", "serve in:0,1 bad:0 q", "serve in:0,1 eof:0 q", "serve in:5,0 msgs:0,2 eof:0 q", "serve in msg:0 q close:0,1 q",
	"serve in:0,1 werrn:0,1 hs:0 q", "serve in:0,1 werrn:0,2 hs:0 msg:0 q", "serve in:0,1 werrn:0,3 hs:0 msg:0 q", "serve in:0,1 werrn:0,4 hs:0 q msg:0 hbq:0 q", "serve in:0,1 werrn:0,5 hs:0 q msg:0 hbq:0 q",
}}

var cliVocab = vocab{"connect*2 connect:1,0 connect:7,0 wait:0*3 msg:0*4 msg:1*2 msgs:0,3 hbq:0 send:0*3 send:1 req:0*2 ping:0 close:0 close:0,1 reply*3 pong:0 bad:0 bad:0,1 rawbad:0 eof:0 eof:0,1 cut:0 cbsend:0*2 cbclose:0 block:0 unblock:0 q*6 hs:0 wait:1", []string{
	"connect q wait:0 msgs:0,3 q cbsend:0 msgs:0,2 hbq:0 q", "connect:1,0 q wait:0 msgs:0,3 hbq:0 q send:0 req:0 q reply:0,5 q", "connect:0,1 q hs:0 q wait:0 msg:0 q", "connect q wait:0 bad:0 q", "connect q wait:0 msg:0 q rawbad:0 q", "connect connect q wait:0 wait:1 msg:0 msg:1 q cbsend:0 cbsend:1 msg:0 msg:1 q", "connect q wait:0 msg:0 q ping:0 q pong:0,0 q close:0 q", "connect:0,1 bad:0 q", "connect:0,1 eof:0 q", "connect:5,0 q wait:0 msgs:0,2 eof:0 q", "connect q msg:0 wait:0 q close:0,1 q",
	"connect:0,1 eof:0,1 q connect q wait:1 msg:1 q", "connect:0,1 werrn:0,1 hs:0 q wait:0 q", "connect:0,1 werrn:0,2 hs:0 q wait:0 q", "connect:0,1 werrn:0,3 hs:0 q wait:0 msg:0 q", "connect:0,1 werrn:0,4 hs:0 q wait:0 msg:0 hbq:0 q", "connect:0,1 werrn:0,5 hs:0 q wait:0 msg:0 hbq:0 q",
}}

func runServerProp(c *Ctx) {
	k := 0
	vars := tlsVars()
	one := func(name string, as []Act, random, pauses int, vr *tlsVariant, listen bool, cut, cor, at int) bool {
		k++
		if (c.Only >= 0 && k != c.Only) || (c.Parts > 1 && k%c.Parts != c.Part) {
			return true
		}
		seed := c.Seed*7919 + int64(k)
		return explore(c, name, seed, random, pauses, func(s Sched) bool { return runServer(c, name, as, s, seed, vr, listen, cut, cor, at) })
	}
	gen := func(v vocab, vr *tlsVariant, listen bool) {
		if c.Gen == "" {
			return
		}
		for i, as := range readGenActs(c.Gen) {
			if vr != nil && i%c.N(10, 2) != 0 {
				continue
			}
			rest := acts("serve")
			for _, a := range as {
				rest = append(rest, a, Act{Op: "q"})
			}
			one(fmt.Sprintf("gen%d", i), rest, 0, 0, vr, listen, -1, -1, 0)
			one(fmt.Sprintf("genburst%d", i), append(append(acts("serve"), as...), Act{Op: "q"}), c.N(1, 4), 0, vr, listen, -1, -1, 0)
			if c.Parts <= 1 || k%c.Parts == c.Part {
				c.Stats["generated_replayed"]++
			}
		}
	}
	if c.Prop == "T11" {
		for i, b := range srvVocab.base {
			one(fmt.Sprintf("fixed%d", i), acts(b), c.N(10, 100), c.N(200, -1), nil, true, -1, -1, 0)
			for j := range vars {
				if !vars[j].badS && (j+i)%c.N(6, 2) == 0 {
					one(fmt.Sprintf("fixedtls%d/%d", i, j), acts(b), c.N(1, 5), c.N(10, 50), &vars[j], true, -1, -1, 0)
				}
			}
		}
		gen(srvVocab, nil, true)
		gen(srvVocab, &vars[0], true)
		rnd := c.Rand(29)
		for i := 0; i < c.N(400, 4000); i++ {
			as := genActs(rnd, srvVocab, 6+rnd.Intn(16))
			if as[0].Op == "wait" {
				as[0].Op = "serve"
			}
			for j := range as {
				switch as[j].Op {
				case "reply":
					as[j].A, as[j].B = rnd.Intn(3), 1+rnd.Intn(14)
				case "cancel":
					as[j].A = 1 + rnd.Intn(14)
				case "wait":
					as[j] = Act{Op: "serve"}
				}
			}
			var vr *tlsVariant
			if i%4 == 3 {
				for vr = &vars[rnd.Intn(len(vars))]; vr.badS; vr = &vars[rnd.Intn(len(vars))] {
				}
			}
			one(fmt.Sprintf("random%d", i), append(acts("in in"), as...), c.N(1, 4), c.N(3, 10), vr, true, -1, -1, 0)
		}
		return
	}
	for j := range vars {
		vr := &vars[j]
		for _, listen := range []bool{true, false} {
			v := secVocab
			if !listen {
				v = cliVocab
			}
			if vr.noC && !listen {
				continue
			}
			for i, b := range v.base {
				one(fmt.Sprintf("fixed%d", i), acts(b), c.N(2, 10), c.N(8, 100), vr, listen, -1, -1, 0)
			}
			if vr.badS || vr.badC {
				continue
			}
			b := "serve in q msg:0 q eof:0 q"
			if !listen {
				b = "connect q wait:0 msg:0 q eof:0 q"
			}
			for i := 0; i < c.N(12, 120); i++ {
				one(fmt.Sprintf("cut%d", i), acts(b), 0, 0, vr, listen, []int{0, 1, 11, 12, 13, 60, 200, 299}[i%8]+i/8*3, -1, 0)
			}
			if len(vr.name) > 4 && vr.name[4:] == "resumes" {
				continue // what is not sent cannot be changed
			}
			for i := 0; i < c.N(12, 150); i++ {
				f := 0
				if listen && i%2 == 1 {
					f = 1
				}
				one(fmt.Sprintf("corrupt%d", i), acts(b), 0, 0, vr, listen, -1, f, i*37)
			}
		}
	}
	rnd := c.Rand(31)
	for i := 0; i < c.N(150, 3000); i++ {
		listen := i%2 == 0
		v, pre := secVocab, "serve in"
		if !listen {
			v, pre = cliVocab, "connect q"
		}
		as := genActs(rnd, v, 4+rnd.Intn(12))
		for j := range as {
			switch as[j].Op {
			case "reply":
				as[j].A, as[j].B = rnd.Intn(2), 1+rnd.Intn(10)
			case "wait":
				if listen {
					as[j].Op = "serve"
				}
			}
		}
		vr := &vars[rnd.Intn(len(vars))]
		if vr.noC && !listen {
			continue
		}
		one(fmt.Sprintf("random%d", i), append(acts(pre), as...), c.N(1, 4), c.N(3, 10), vr, listen, -1, -1, 0)
	}
	if c.Part == 0 && c.Only < 0 {
		runDial(c, vars)
	}
}

// runDial: connections that DialTCP made and could not use are closed
func runDial(c *Ctx, vars []tlsVariant) {
	vy.Off()
	defer debug.SetGCPercent(debug.SetGCPercent(-1)) // a finalizer would close them too
	for i, what := range []string{"close", "garbage", "plain", "alert", "foreign", "stall-close", "ok"} {
		log := &Log{}
		l, err := net.Listen("tcp", "127.0.0.1:0")
		if err != nil {
			return
		}
		vr := &vars[0]
		for j := range vars {
			if what == "foreign" && vars[j].badC {
				vr = &vars[j]
			}
		}
		log.Add(M{"e": "connb", "c": 0, "tls": true, "good": what == "ok"})
		log.Add(M{"e": "dialed", "c": 0})
		seen := make(chan string, 1)
		go func() {
			nc, err := l.Accept()
			if err != nil {
				seen <- "accept"
				return
			}
			defer nc.Close()
			switch what {
			case "garbage":
				nc.Write(make([]byte, 200))
			case "plain":
				nc.Write((&WMsg{Actor: 1, Body: mkBody(3)}).Frame(FOpt{}))
			case "alert":
				nc.Write((&WMsg{Actor: 35, Body: []byte{21, 3, 3, 0, 2, 2, 40}}).Frame(FOpt{NoHC: true, Mask: 1}))
			case "close", "stall-close":
				if what == "stall-close" {
					time.Sleep(20 * time.Millisecond)
				}
				nc.(*net.TCPConn).CloseWrite()
			case "foreign", "ok":
				fc := NewFConn("", "")
				p := newSecPeer(fc)
				p.onHw, p.onRec, p.onHs, p.onData, p.onJunk = func(int64, bool, bool) {}, func(int) {}, func() {}, func([]byte) {}, func() {}
				p.start(vr.server(), true)
				go func() {
					b := make([]byte, 4096)
					for {
						n, err := fc.Read(b)
						if err != nil {
							return
						}
						nc.Write(b[:n])
					}
				}()
				defer fc.Close()
				defer p.gone()
				b := make([]byte, 4096)
				nc.SetReadDeadline(time.Now().Add(10 * time.Second))
				for {
					n, err := nc.Read(b)
					if n > 0 {
						p.push(b[:n])
					}
					if err != nil {
						if ne, ok := err.(net.Error); ok && ne.Timeout() {
							seen <- "open"
						} else {
							seen <- "closed"
						}
						return
					}
				}
			}
			b := make([]byte, 4096)
			nc.SetReadDeadline(time.Now().Add(10 * time.Second))
			for {
				if _, err := nc.Read(b); err != nil {
					if ne, ok := err.(net.Error); ok && ne.Timeout() {
						seen <- "open"
					} else {
						seen <- "closed"
					}
					return
				}
			}
		}()
		cl, err := transport.DialTCP(l.Addr().String(), transport.ClientConfig{Config: transport.Config{TLS: vr.client()}})
		if err == nil && what == "ok" { // only that it can be used and closed
			cl.Close()
		}
		if what != "ok" {
			log.Add(M{"e": "conne", "c": 0, "o": outcome(nil, err)})
			if <-seen == "closed" {
				log.Add(M{"e": "cc", "c": 0})
			}
			log.Add(M{"e": "q"})
		} else if err != nil {
			log.Add(M{"e": "junk", "what": err.Error()})
		}
		l.Close()
		c.Put(M{"dial": what, "n": i}, log.Events())
	}
}

func init() {
	drivers["T11"] = runServerProp
	drivers["T12"] = runServerProp
}
