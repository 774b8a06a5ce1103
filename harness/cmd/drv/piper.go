package main

import (
	"encoding/hex"
	"encoding/json"
	"fmt"
	"net"
	"reflect"
	"sort"
	"strings"

	"phv/wf"

	"github.com/tg123/phabrik/transport"
	vy "github.com/tg123/phabrik/verifyield"
)

// PSide is one side of a pipe, the driver behind it
type PSide struct {
	fc   *FConn
	st   Stream
	peer *SecPeer
	tls  bool
	have bool
	on   bool
	cfg  transport.Config
}

// PConn is a pipe
type PConn struct {
	n     int
	s     [2]*PSide // d, u
	gate  [2]chan struct{}
	fgate chan struct{}
	ferr  bool
	fblk  bool
	late  bool // the upstream waits before its handshake
}

// PipeRig is a Piper and everything around it
type PipeRig struct {
	*Rig
	p      *transport.Piper
	ln     *FListener
	cs     []*PConn
	serve  bool
	vr     *tlsVariant // downstream
	uvr    *tlsVariant // upstream
	dcfg   transport.Config
	ucfg   transport.Config
	flt    bool
	kind   map[int]string // message -> what the filter does
	open   bool           // the filter blocks no more
	dict   map[string]int
}

var sideName = [2]string{"d", "u"}

func cfgJSON(c transport.Config) M {
	return M{"chc": !c.DisableCheckFrameHeaderCRC, "cbc": c.CheckFrameBodyCRC, "ghc": !c.DisableGenerateFrameHeaderCRC, "gbc": c.GenerateFrameBodyCRC}
}

// intern numbers contents, the same for the same
func (r *PipeRig) intern(x interface{}) int {
	b, err := json.Marshal(x)
	if err != nil {
		panic(err)
	}
	r.mu.Lock()
	defer r.mu.Unlock()
	n, ok := r.dict[string(b)]
	if !ok {
		n = len(r.dict)
		r.dict[string(b)] = n
	}
	return n
}

// whole is a message, its headers in a fixed order
func (r *PipeRig) whole(w *WMsg) M {
	h := stdJSON(w)
	cu := append([]Hdr{}, w.Custom...)
	sort.SliceStable(cu, func(i, j int) bool { return cu[i].Id < cu[j].Id })
	l := []M{}
	for _, c := range cu {
		if c.Id != hNego {
			l = append(l, M{"id": c.Id, "v": wf.Ints(c.Data)})
		}
	}
	h["cu"] = l
	return M{"h": r.intern(h), "body": r.intern(hex.EncodeToString(w.Body))}
}

func msgOfLib(h *transport.MessageHeaders, body []byte) *WMsg {
	w := &WMsg{Id: midOf(h.Id), Rel: midOf(h.RelatesTo), Actor: int64(h.Actor), Action: h.Action, Expects: h.ExpectsReply, High: h.HighPriority,
		Idem: h.Idempotent, Err: int64(h.ErrorCode), FaultBody: h.HasFaultBody, Retry: h.RetryCount, Body: body}
	for _, c := range asCustom(h) {
		w.Custom = append(w.Custom, c)
	}
	return w
}

// asCustom are the bytes of the custom headers
func asCustom(h *transport.MessageHeaders) []Hdr {
	var r []Hdr
	for _, id := range append([]uint16{0x4321, 0x1235}, customIds...) { // all that are used
		for _, x := range h.GetCustomHeaders(transport.MessageHeaderIdType(id)) {
			if b, ok := x.([]byte); ok {
				r = append(r, Hdr{uint16(id), b})
			} else if t := regOf(uint16(id)); t != nil && reflect.TypeOf(x) == reflect.PointerTo(t.rt) {
				r = append(r, Hdr{uint16(id), wf.Enc(t.t, fromGo(t.t, reflect.ValueOf(x).Elem()))})
			} else {
				r = append(r, Hdr{uint16(id), []byte("?")})
			}
		}
	}
	return r
}

func newPipeRig(s Sched, seed int64, vr, uvr *tlsVariant, dcfg, ucfg transport.Config, flt bool) *PipeRig {
	r := &PipeRig{Rig: newRig(s, seed), vr: vr, uvr: uvr, dcfg: dcfg, ucfg: ucfg, flt: flt, kind: map[int]string{}, dict: map[string]int{}}
	if vr != nil {
		r.dcfg.TLS = vr.server()
	}
	r.ln = NewFListener("10.0.0.9:19000")
	r.ln.onClose = func() { r.Add(M{"e": "lc"}) }
	r.ln.onAccept = func(x interface{}) {
		n := -1
		switch v := x.(type) {
		case net.Conn:
			for _, c := range r.cs {
				if c.s[0].fc == v {
					n = c.n
				}
			}
		case tempErr:
			if !v.temp {
				n = -2
			}
		default:
			n = -2
		}
		r.Add(M{"e": "acc", "c": n})
	}
	r.Add(M{"e": "cfg", "tls": vr != nil, "cfg": cfgJSON(dcfg), "flt": flt})
	pc := transport.PiperConfig{Config: r.dcfg, FindUpstream: r.find}
	if flt {
		pc.Filter = r.filter
	}
	p, err := transport.NewPiper(r.ln, pc)
	if err != nil {
		r.Add(M{"e": "junk", "what": err.Error()})
	}
	r.p = p
	return r
}

func (r *PipeRig) side(c *PConn, i int, isTls bool, addr string, cfg transport.Config) *PSide {
	s := &PSide{fc: NewFConn("10.0.0.9:19000", addr), tls: isTls, cfg: cfg}
	name := sideName[i]
	junk := func() { r.Add(M{"e": "junk"}) }
	data := func(b []byte) { s.st.Push(b, func(f *WFrame) { r.frame(c, name, s, f) }, junk) }
	if isTls {
		p := newSecPeer(s.fc)
		p.secret = secret
		p.onHw = func(actor int64, nego, recs bool) {
			r.Add(M{"e": "hw", "c": c.n, "side": name, "actor": actor, "nego": nego, "recs": recs})
		}
		p.onRec = func(t int) { r.Add(M{"e": "rec", "c": c.n, "side": name, "t": t}) }
		p.onHs = func() { r.Add(M{"e": "hs", "c": c.n, "side": name}) }
		p.onData, p.onJunk = data, junk
		s.peer = p
		s.fc.onWrite = p.push
		s.fc.onClose = func() { r.Add(M{"e": "cc", "c": c.n, "side": name}); p.gone() }
	} else {
		s.fc.onWrite = data
		s.fc.onClose = func() { r.Add(M{"e": "cc", "c": c.n, "side": name}) }
	}
	return s
}

var initTy = wf.Struct(wf.T("str"), wf.T("u64"), wf.T("guid"), wf.T("bool"), wf.T("u32"))

func (r *PipeRig) frame(c *PConn, side string, s *PSide, f *WFrame) {
	sum := func(zero, ok bool) string {
		switch {
		case zero:
			return "zero"
		case ok:
			return "ok"
		}
		return "wrong"
	}
	hc := sum(f.HC == 0 && !f.HCok, f.HCok)
	if f.HC == 0 && f.HCok { // both
		hc = "ok"
		if s.cfg.DisableGenerateFrameHeaderCRC {
			hc = "zero"
		}
	}
	bc := sum(f.BC == 0 && !f.BCok, f.BCok)
	if f.BC == 0 && f.BCok {
		bc = "zero"
		if s.cfg.GenerateFrameBodyCRC {
			bc = "ok"
		}
	}
	init := f.Msg.Actor == 1 && f.Msg.Action == "" && !f.Msg.Id.Empty()
	if init {
		_, _, err := wf.Dec(initTy, f.Msg.Body)
		init = err == nil
	}
	r.Add(M{"e": "wr", "c": c.n, "side": side, "init": init, "m": r.whole(f.Msg), "hc": hc, "bc": bc})
}

func (r *PipeRig) pipeOf(a net.Conn) (int, string) {
	if a == nil {
		return -1, "?"
	}
	s := a.RemoteAddr().String()
	n := -1
	fmt.Sscanf(s[1:], "%d", &n)
	return n, s[:1]
}

func (r *PipeRig) find(h *transport.MessageHeaders, conn net.Conn) (net.Conn, transport.Config, error) {
	n, side := r.pipeOf(conn)
	if n < 0 || n >= len(r.cs) || side != "d" {
		r.Add(M{"e": "junk", "what": "find"})
		return nil, transport.Config{}, errInjected
	}
	c := r.cs[n]
	r.Add(M{"e": "find", "c": n, "h": r.whole(msgOfLib(h, nil))["h"]})
	r.mu.Lock()
	blk, fail, gate := c.fblk, c.ferr, c.fgate
	r.mu.Unlock()
	if blk {
		<-gate
	}
	if fail {
		r.Add(M{"e": "finde", "c": n, "o": "err"})
		return nil, transport.Config{}, errInjected
	}
	cfg := r.ucfg
	good := r.uvr == nil || !r.uvr.badC
	r.mu.Lock()
	s := c.s[1]
	r.Add(M{"e": "finde", "c": n, "o": "ok", "tls": s.tls, "good": good, "cfg": cfgJSON(r.ucfg)})
	s.have = true
	r.mu.Unlock()
	if s.tls {
		cfg.TLS = r.uvr.client()
		if !c.late {
			r.hs(c, 1)
		}
	}
	return s.fc, cfg, nil
}

func (r *PipeRig) hs(c *PConn, i int) {
	s := c.s[i]
	r.mu.Lock()
	on := s.on || !s.tls
	s.on = true
	r.mu.Unlock()
	if on {
		return
	}
	if i == 1 {
		t := r.uvr.server()
		t.SessionTicketsDisabled = true
		s.peer.start(t, true)
	} else {
		s.peer.start(r.vr.client(), false)
	}
}

func (r *PipeRig) filter(src, dst net.Conn, m *transport.ByteArrayMessage) *transport.Message {
	n, ss := r.pipeOf(src)
	n2, ds := r.pipeOf(dst)
	if n != n2 || n < 0 || n >= len(r.cs) || ss == ds {
		r.Add(M{"e": "junk", "what": "filter"})
		return nil
	}
	c := r.cs[n]
	i := 0
	if ss == "u" {
		i = 1
	}
	w := msgOfLib(&m.Headers, m.Body)
	r.Add(M{"e": "fb", "c": n, "side": ss, "m": r.whole(w)})
	r.mu.Lock()
	k, gate := r.kind[int(w.Id.I)], c.gate[i]
	if r.open && k == "block" {
		k = "m"
	}
	r.mu.Unlock()
	out := &transport.Message{Headers: m.Headers, Body: m.Body}
	switch k {
	case "drop":
		r.Add(M{"e": "fe", "c": n, "side": ss, "ms": []M{}})
		return nil
	case "block":
		<-gate
	case "body":
		w.Body = append([]byte("other "), w.Body...)
		out.Body = w.Body
	case "head":
		w.Action += "!"
		w.Retry += 7
		w.Custom = append(w.Custom, Hdr{0x1235, []byte{1, 2, 3}})
		out.Headers.Action, out.Headers.RetryCount = w.Action, w.Retry
		out.Headers.AppendCustomHeader(0x1235, []byte{1, 2, 3})
	case "new":
		w = &WMsg{Id: w.Id, Actor: 12, Action: "new", Body: wf.Enc(tyStr, []wf.V{"new body"})}
		out = &transport.Message{Body: &struct{ S string }{"new body"}}
		out.Headers.Id, out.Headers.Actor, out.Headers.Action = w.Id.Lib(), 12, "new"
	}
	r.Add(M{"e": "fe", "c": n, "side": ss, "ms": []M{r.whole(w)}})
	return out
}

// genPiped makes a message with anything in it
func (r *PipeRig) message(c *PConn, i, t int, odd bool) *WMsg {
	rnd := r.rnd
	var w *WMsg
	switch k := rnd.Intn(4); {
	case odd || k == 0:
		g := genMsg(rnd, rnd.Intn(3) > 0)
		for i := range g.cu {
			if g.cu[i].id == 30003 { // a map can be written in many ways
				g.cu[i] = GH{id: 0x1234, raw: []byte{9}}
			}
		}
		w = g.wire()
		if rnd.Intn(6) == 0 {
			w.Actor, w.Action = 1, []string{"", "HeartbeatRequest", "HeartbeatResponse", "x"}[rnd.Intn(4)]
		}
		if rnd.Intn(8) == 0 {
			w.Actor, w.Action, w.Err = actorSendTarget, "ConnectionAuth", 5
		}
	case k == 1: // the opening message of the peer
		w = &WMsg{Actor: 1, High: true, Body: wf.Enc(initTy, []wf.V{"", uint64(0), [16]byte{1, 2}, true, uint64(1)})}
	default:
		w = &WMsg{Actor: 77, Action: fmt.Sprintf("act%d", t), Body: mkBody(t)}
	}
	w.Id = MID{[16]byte{0xdd, byte(i), byte(c.n)}, uint32(t)}
	if !odd || rnd.Intn(2) == 0 {
		w.Custom = append(w.Custom, Hdr{0x4321, secret})
	}
	return w
}

func (r *PipeRig) feed(c *PConn, i int, b []byte, ev M) {
	s := c.s[i]
	log := func() {
		if ev != nil {
			r.Add(M{"e": "feed", "c": c.n, "side": sideName[i], "m": ev})
		}
	}
	if s.tls {
		if s.peer.isDone() {
			s.peer.send(b, log)
		}
		return
	}
	s.fc.Feed(b, log)
}

func (r *PipeRig) below(s *PSide, f func()) {
	if s.tls {
		s.peer.now(f)
	} else {
		f()
	}
}

func (r *PipeRig) do(a Act) {
	if r.hung {
		return
	}
	switch a.Op {
	case "q":
		r.quiet()
		return
	case "serve":
		if r.serve {
			return
		}
		r.serve = true
		t := r.newTag()
		r.Add(M{"e": "serveb", "r": t})
		r.goo(func() {
			r.p.Serve()
			r.Add(M{"e": "servee", "r": t})
		})
		return
	case "temp":
		r.ln.PushF(tempErr{true}, func() { r.Add(M{"e": "in", "c": -1, "good": true}) })
		return
	case "fatal":
		r.ln.PushF([]error{tempErr{false}, errInjected}[a.B%2], func() { r.Add(M{"e": "in", "c": -2, "good": true}) })
		return
	case "in": // B: 1 the peers do nothing yet, 2 no upstream, 4 looking for it takes its time
		if len(r.cs) >= 4 {
			return
		}
		c := &PConn{n: len(r.cs), gate: [2]chan struct{}{make(chan struct{}), make(chan struct{})}, fgate: make(chan struct{})}
		c.ferr, c.fblk, c.late = a.B&2 != 0, a.B&4 != 0, a.B&1 != 0
		c.s[0] = r.side(c, 0, r.vr != nil, fmt.Sprintf("d%d", c.n), r.dcfg)
		c.s[1] = r.side(c, 1, r.uvr != nil, fmt.Sprintf("u%d", c.n), r.ucfg)
		c.s[0].have = true
		if k := a.A; k > 0 {
			c.s[0].fc.chunk = func(int, int) int { return k }
			c.s[1].fc.chunk = func(int, int) int { return k }
		}
		r.cs = append(r.cs, c)
		r.ln.PushF(c.s[0].fc, func() { r.Add(M{"e": "in", "c": c.n, "good": r.vr == nil || !r.vr.badS}) })
		if a.B&1 == 0 {
			r.hs(c, 0)
		}
		return
	}
	if a.A < 0 || a.A >= len(r.cs) {
		return
	}
	c := r.cs[a.A]
	// steps end in the side
	i := 0
	op := a.Op
	if strings.HasSuffix(op, "U") {
		i, op = 1, op[:len(op)-1]
	}
	s := c.s[i]
	r.mu.Lock()
	have := s.have
	r.mu.Unlock()
	switch op {
	case "unfind":
		r.mu.Lock()
		if c.fblk {
			c.fblk = false
			close(c.fgate)
		}
		r.mu.Unlock()
		return
	case "unblock":
		r.mu.Lock()
		close(c.gate[i])
		c.gate[i] = make(chan struct{})
		r.mu.Unlock()
		return
	}
	if !have {
		return
	}
	switch op {
	case "hs":
		r.hs(c, i)
	case "m", "drop", "block", "body", "head", "new", "odd", "nohc", "nobc", "flip":
		if s.tls && !s.peer.isDone() {
			return
		}
		t := r.newTag()
		w := r.message(c, i, t, op == "odd")
		r.mu.Lock()
		r.kind[t] = op
		r.mu.Unlock()
		o := FOpt{BC: s.cfg.CheckFrameBodyCRC, NoHC: s.cfg.DisableCheckFrameHeaderCRC}
		ev := M{"k": "msg", "m": r.whole(w), "hc": !o.NoHC, "bc": o.BC}
		if op == "nohc" {
			o.NoHC, ev["hc"] = true, false
		}
		if op == "nobc" {
			o.BC, ev["bc"] = false, false
		}
		f := w.Frame(o)
		if op == "nohc" && f[5] == crc8(append(append([]byte{}, f[:5]...), 0, f[6], f[7], 0, 0, 0, 0)) {
			f[5] ^= 0x55
		}
		r.feed(c, i, f, ev)
	case "bad":
		o := FOpt{BC: s.cfg.CheckFrameBodyCRC && !s.tls, NoHC: s.cfg.DisableCheckFrameHeaderCRC || s.tls}
		b := rawFrame([]byte{1, 2, 3}, nil, o)
		switch a.B {
		case 1:
			b = []byte{3, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0}
		case 2: // headers beyond the frame
			b = rawFrame(hdr(0x1234, []byte{1, 2}), nil, o)
			b[6] = 200
			if !o.NoHC {
				b[5] = crc8(append(append([]byte{}, b[:5]...), 0, b[6], b[7], 0, 0, 0, 0))
			}
		case 3:
			b = rawFrame(hdr(hAction, []byte{1}), []byte{1, 2, 3}, o)
		}
		if s.tls && !s.peer.isDone() {
			r.below(s, func() {
				s.fc.Feed(b, func() { r.Add(M{"e": "feed", "c": c.n, "side": sideName[i], "m": M{"k": "bad"}}) })
			})
			return
		}
		r.feed(c, i, b, M{"k": "bad"})
	case "cut":
		w := r.message(c, i, 3, false)
		f := w.Frame(FOpt{NoHC: s.cfg.DisableCheckFrameHeaderCRC, BC: s.cfg.CheckFrameBodyCRC})
		if !s.tls || s.peer.isDone() {
			r.feed(c, i, f[:1+a.B%(len(f)-1)], nil)
		}
		r.below(s, func() {
			s.fc.End(errEOF, func() { r.Add(M{"e": "feed", "c": c.n, "side": sideName[i], "m": M{"k": "eof"}}) })
		})
	case "eof":
		r.below(s, func() {
			s.fc.End([]error{errEOF, errInjected}[a.B%2], func() { r.Add(M{"e": "feed", "c": c.n, "side": sideName[i], "m": M{"k": "eof"}}) })
		})
	case "gate":
		if !s.tls {
			s.fc.Gate(true, func() { r.Add(M{"e": "gate", "c": c.n, "side": sideName[i]}) })
		}
	case "ungate":
		if !s.tls {
			s.fc.Gate(false, func() { r.Add(M{"e": "ungate", "c": c.n, "side": sideName[i]}) })
		}
	case "werrn":
		s.fc.FailAfter(a.B, func() { r.Add(M{"e": "werr", "c": c.n, "side": sideName[i]}) })
	case "werr":
		s.fc.FailWrites(errInjected, func() { r.Add(M{"e": "werr", "c": c.n, "side": sideName[i]}) })
	default:
		panic("no step " + a.Op)
	}
}

func (r *PipeRig) finish() {
	r.mu.Lock()
	r.open = true
	r.mu.Unlock()
	for i := range r.cs {
		for _, op := range []string{"unfind", "unblock", "unblockU", "ungate", "ungateU"} {
			r.do(Act{Op: op, A: i})
		}
	}
	vy.Release()
	r.quiet()
	r.do(Act{Op: "fatal"})
	for i := range r.cs {
		r.do(Act{Op: "eof", A: i})
	}
	r.quiet()
	for i := range r.cs {
		r.do(Act{Op: "eofU", A: i})
	}
	r.quiet()
	if !r.serve {
		r.do(Act{Op: "serve"})
		r.quiet()
	}
	junk := false
	for _, c := range r.cs {
		for i, s := range c.s {
			if !s.have {
				continue
			}
			junk = junk || len(s.st.buf) > 0
			if s.tls {
				if !s.fc.IsClosed() {
					s.peer.gone()
				}
				s.peer.mu.Lock()
				n := s.peer.nsecret
				s.peer.mu.Unlock()
				r.Add(M{"e": "clear", "c": c.n, "side": sideName[i], "n": n})
			}
		}
	}
	r.settle()
	r.end(junk)
}

func runPipe(c *Ctx, name string, as []Act, s Sched, seed int64, vr, uvr *tlsVariant, flt bool) bool {
	vy.Off()
	b := func(k int64) bool { return seed/k%3 == 0 }
	dcfg := transport.Config{CheckFrameBodyCRC: b(1), GenerateFrameBodyCRC: b(3), DisableGenerateFrameHeaderCRC: b(9), DisableCheckFrameHeaderCRC: b(27)}
	ucfg := transport.Config{CheckFrameBodyCRC: b(2), GenerateFrameBodyCRC: b(4), DisableGenerateFrameHeaderCRC: b(5), DisableCheckFrameHeaderCRC: b(7)}
	r := newPipeRig(s, seed, vr, uvr, dcfg, ucfg, flt)
	s.start()
	for _, a := range as {
		r.do(a)
	}
	r.finish()
	v := []string{"plain", "plain"}
	for i, x := range []*tlsVariant{vr, uvr} {
		if x != nil {
			v[i] = x.name
		}
	}
	c.Put(M{"name": name, "acts": fmt.Sprint(as), "sched": fmt.Sprint(s), "tls": v}, r.Events())
	if r.hung {
		c.Stats["hung"]++
	}
	return !r.hung
}

var pipeVocab = vocab{"in in:0,2 in:0,4 in:1,0 in:5,0 m:0*5 m:1*2 mU:0*5 mU:1*2 drop:0*2 dropU:0 block:0 blockU:0 unblock:0*2 unblockU:0*2 body:0*2 bodyU:0 head:0 headU:0*2 new:0 newU:0 odd:0*2 oddU:0*2 nohc:0 nohcU:0 nobc:0 nobcU:0 bad:0 bad:0,1 bad:0,2 bad:0,3 badU:0 badU:0,1 badU:0,2 badU:0,3 cut:0 cutU:0 eof:0 eof:0,1 eofU:0 eofU:0,1 eof:1 gate:0 gateU:0 ungate:0*2 ungateU:0*2 werr:0 werrU:0 unfind:0*2 temp fatal hs:0 hsU:0 q*8", []string{
	"serve in m:0 q mU:0 q m:0 m:0 mU:0 mU:0 q", "serve in m:0 m:0 m:0 m:0 q mU:0 mU:0 mU:0 eof:0 q", "serve in m:0 drop:0 m:0 body:0 head:0 new:0 q dropU:0 mU:0 bodyU:0 headU:0 newU:0 q",
	"serve in m:0 q odd:0 odd:0 odd:0 oddU:0 oddU:0 oddU:0 q", "serve in odd:0 q odd:0 oddU:0 q", "serve in m:0 q block:0 m:0 mU:0 q blockU:0 mU:0 q unblock:0 unblockU:0 q",
	"serve in m:0 q eofU:0 q m:0 q", "serve in m:0 q eof:0 q mU:0 q", "serve in m:0 q bad:0 q", "serve in m:0 q badU:0 q", "serve in bad:0 q", "serve in eof:0 q", "serve in cut:0,9 q", "serve in m:0 cut:0,30 q", "serve in m:0 q cutU:0,30 q",
	"serve in:0,2 m:0 q m:0 q", "serve in:0,4 m:0 m:0 q unfind:0 q mU:0 q", "serve in:0,4 m:0 eof:0 q unfind:0 q", "serve in in m:0 m:1 mU:0 mU:1 q bad:0 q m:1 mU:1 q", "serve in in gateU:0 m:0 m:1 q m:1 mU:1 q ungateU:0 q",
	"serve in m:0 q gateU:0 m:0 m:0 mU:0 mU:0 q ungateU:0 q", "serve in m:0 q gate:0 mU:0 mU:0 m:0 q ungate:0 q", "serve in m:0 q gate:0 mU:0 eof:0 q", "serve in m:0 q gateU:0 m:0 q eofU:0 q", "serve in m:0 q werr:0 mU:0 q", "serve in m:0 q werrU:0 m:0 q",
	"serve in werr:0 m:0 q", "serve in gate:0 m:0 q m:0 eof:0 q ungate:0 q", "serve in nohc:0 q", "serve in nobc:0 q", "serve in m:0 q nohc:0 m:0 q", "serve in m:0 q nobcU:0 mU:0 q", "serve in m:0 q nobc:0 m:0 q", "serve in m:0 q nohcU:0 mU:0 q",
	"serve temp in m:0 temp in m:1 q fatal in m:0 mU:0 m:1 q", "serve in:1,0 m:0 mU:0 m:0 q mU:0 m:0 q", "serve in:0,1 in m:1 q m:1 q hs:0 q m:0 hsU:0 q m:0 mU:0 q", "serve in m:0 q block:0 eofU:0 q unblock:0 q", "serve in m:0 q blockU:0 eof:0 q unblockU:0 q",
	"in in serve m:0 m:1 q", "serve in:0,1 m:0 q hsU:0 q m:0 q", "serve in:0,1 hs:0 q bad:0 q", "serve in:0,1 hs:0 q badU:0 q", "serve in m:0 q bad:0,2 q", "serve in m:0 q badU:0,2 q", "serve in m:0 q badU:0,3 q", "serve in m:0 q werrn:0,2 mU:0 mU:0 mU:0 q", "serve in m:0 q werrnU:0,2 m:0 m:0 m:0 q", "serve in:0,1 werrn:0,2 hs:0 q", "serve in:0,1 werrn:0,3 hs:0 m:0 q", "serve in:0,1 m:0 hs:0 werrnU:0,1 hsU:0 m:0 q m:0 q", "serve in:0,1 m:0 hs:0 q werrnU:0,2 hsU:0 m:0 q m:0 q", "serve in:0,1 m:0 hs:0 q werrnU:0,3 hsU:0 m:0 q m:0 q",
}}

func runPipeProp(c *Ctx) {
	regInit()
	k := 0
	vars := tlsVars()
	one := func(name string, as []Act, random, pauses int, vr, uvr *tlsVariant, flt bool) {
		k++
		if (c.Only >= 0 && k != c.Only) || (c.Parts > 1 && k%c.Parts != c.Part) {
			return
		}
		seed := c.Seed*7919 + int64(k)
		explore(c, name, seed, random, pauses, func(s Sched) bool { return runPipe(c, name, as, s, seed, vr, uvr, flt) })
	}
	for i, b := range pipeVocab.base {
		for j, flt := range []bool{true, false} {
			if !flt && strings.Contains(b, "drop") {
				continue
			}
			one(fmt.Sprintf("fixed%d", i), acts(b), c.N(6, 60), c.N(60, -1), nil, nil, flt)
			one(fmt.Sprintf("fixed%d", i), acts(b), c.N(2, 20), 0, nil, nil, flt)
			one(fmt.Sprintf("fixed%d", i), acts(b), c.N(2, 20), 0, nil, nil, flt)
			for v := range vars {
				if (v+i+j)%c.N(8, 2) == 0 {
					x, y := &vars[v], &vars[(v*5+i)%len(vars)]
					if y.noC {
						y = &vars[0]
					}
					one(fmt.Sprintf("fixedtls%d/%d", i, v), acts(b), c.N(1, 5), c.N(10, 50), []*tlsVariant{x, nil, x}[v%3], []*tlsVariant{nil, y, y}[v%3], flt)
				}
			}
		}
	}
	if c.Gen != "" {
		for i, as := range readGenActs(c.Gen) {
			rest := acts("serve in")
			for _, a := range as {
				rest = append(rest, a, Act{Op: "q"})
			}
			one(fmt.Sprintf("gen%d", i), rest, 0, 0, nil, nil, true)
			one(fmt.Sprintf("genburst%d", i), append(append(acts("serve in m:0 q"), as...), Act{Op: "q"}), c.N(1, 4), 0, nil, nil, i%3 > 0)
			if c.Parts <= 1 || k%c.Parts == c.Part {
				c.Stats["generated_replayed"]++
			}
		}
	}
	rnd := c.Rand(37)
	for i := 0; i < c.N(300, 4000); i++ {
		as := genActs(rnd, pipeVocab, 5+rnd.Intn(14))
		for j := range as {
			if as[j].Op == "wait" {
				as[j].Op = "serve"
			}
			if as[j].Op == "cut" || as[j].Op == "cutU" {
				as[j].A, as[j].B = 0, rnd.Intn(60)
			}
		}
		pre := "serve in m:0 q"
		if i%3 == 0 {
			pre = "serve in in"
		}
		var vr, uvr *tlsVariant
		if i%4 == 3 {
			vr = &vars[rnd.Intn(len(vars))]
		}
		if i%5 == 4 {
			if uvr = &vars[rnd.Intn(len(vars))]; uvr.noC {
				uvr = nil
			}
		}
		one(fmt.Sprintf("random%d", i), append(acts(pre), as...), c.N(1, 4), c.N(3, 10), vr, uvr, rnd.Intn(3) > 0)
	}
}

func init() {
	drivers["T13"] = runPipeProp
}
