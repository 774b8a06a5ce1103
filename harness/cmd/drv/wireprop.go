package main

import (
	"bytes"
	"context"
	"encoding/binary"
	"encoding/json"
	"fmt"
	"hash/crc32"
	"math/rand"
	"os"
	"reflect"
	"runtime"
	"sort"
	"strings"
	"sync"

	"phv/wf"

	"github.com/tg123/phabrik/transport"
	vy "github.com/tg123/phabrik/verifyield"
)

// ------------------------------------------------------- registered headers

type regTy struct {
	id uint16
	t  *wf.Ty
	rt reflect.Type
}

var regs []regTy

func regInit() {
	if regs != nil {
		return
	}
	add := func(id uint16, t *wf.Ty) {
		rt := goType(t)
		regs = append(regs, regTy{id, t, rt})
		transport.RegisterHeaderActivator(transport.MessageHeaderIdType(id), func() interface{} { return reflect.New(rt).Interface() })
	}
	add(30000, wf.Struct(wf.T("i32"), wf.T("str")))
	add(30001, wf.Struct(wf.T("guid"), wf.Slice(wf.Struct(wf.T("u16"), wf.T("str"))), wf.Ptr(wf.Struct(wf.T("i64")))))
	add(30002, wf.Struct())
	add(30003, wf.Struct(wf.Map(wf.T("str"), wf.T("u32")), wf.T("bool")))
	// the federation package has registered these
	for _, id := range []uint16{0x800c, 0x8010, 0x8013} {
		add(id, wf.Struct(wf.T("u8"), wf.T("str")))
	}
}

func regOf(id uint16) *regTy {
	for i := range regs {
		if regs[i].id == id {
			return &regs[i]
		}
	}
	return nil
}

func regJSON() []M {
	r := []M{}
	for _, x := range regs {
		r = append(r, M{"id": x.id, "ty": x.t})
	}
	return r
}

// ------------------------------------------------------------- messages

// GH is a custom header
type GH struct {
	id  uint16
	raw []byte // its bytes, or
	t   *wf.Ty // an object
	v   wf.V   //
	g   []byte // encoding of the object, if it has only one
}

// GMsg is a message to send
type GMsg struct {
	w    WMsg // without custom headers
	cu   []GH
	body []byte
	obj  interface{} // sent in place of body
}

func (g *GMsg) lib() *transport.Message {
	m := &transport.Message{}
	h := &m.Headers
	h.Id, h.RelatesTo = g.w.Id.Lib(), g.w.Rel.Lib()
	h.Actor, h.Action = transport.MessageActorType(g.w.Actor), g.w.Action
	h.ExpectsReply, h.HighPriority, h.Idempotent = g.w.Expects, g.w.High, g.w.Idem
	h.ErrorCode, h.HasFaultBody, h.RetryCount = transport.FabricErrorCode(g.w.Err), g.w.FaultBody, g.w.Retry
	for _, c := range g.cu {
		var x interface{} = c.raw
		if c.t != nil {
			p := reflect.New(goType(c.t))
			toGo(c.t, c.v, p.Elem())
			x = p.Interface()
		}
		h.AppendCustomHeader(transport.MessageHeaderIdType(c.id), x)
	}
	switch {
	case g.obj != nil:
		m.Body = g.obj
	case g.body == nil && len(g.cu)%2 == 0:
	default:
		m.Body = g.body
	}
	return m
}

// wire form of the message
func (g *GMsg) wire() *WMsg {
	w := g.w
	w.Custom = nil
	for _, c := range g.cu {
		b := c.raw
		if c.t != nil {
			b = wf.Enc(c.t, c.v)
		}
		w.Custom = append(w.Custom, Hdr{c.id, b})
	}
	w.Body = g.body
	return &w
}

func u8s(v uint64) []int { return wf.Ints(binary.LittleEndian.AppendUint64(nil, v)) }
func idJSON(m MID) []interface{} {
	return []interface{}{wf.Ints(m.G[:]), u8s(uint64(m.I))}
}

func stdJSON(w *WMsg) M {
	return M{"id": idJSON(w.Id), "rel": idJSON(w.Rel), "actor": u8s(uint64(w.Actor)), "action": wf.JSON(wf.T("str"), w.Action),
		"exp": w.Expects, "high": w.High, "idem": w.Idem, "err": u8s(uint64(w.Err)), "fb": w.FaultBody, "retry": u8s(uint64(int64(w.Retry)))}
}

func (g *GMsg) JSON() M {
	m := stdJSON(&g.w)
	cu := []M{}
	for _, c := range g.cu {
		r := regOf(c.id)
		switch {
		case r != nil && c.t != nil:
			cu = append(cu, M{"id": c.id, "raw": false, "v": wf.JSON(c.t, c.v)})
		case c.t != nil:
			cu = append(cu, M{"id": c.id, "raw": true, "v": wf.Ints(wf.Enc(c.t, c.v))})
		default:
			cu = append(cu, M{"id": c.id, "raw": true, "v": wf.Ints(c.raw)})
		}
	}
	m["cu"] = cu
	return m
}

// hdrJSON of headers received
func hdrJSON(h *transport.MessageHeaders) M {
	w := WMsg{Id: midOf(h.Id), Rel: midOf(h.RelatesTo), Actor: int64(h.Actor), Action: h.Action, Expects: h.ExpectsReply, High: h.HighPriority,
		Idem: h.Idempotent, Err: int64(h.ErrorCode), FaultBody: h.HasFaultBody, Retry: h.RetryCount}
	m := stdJSON(&w)
	cu := []M{}
	for id := 0; id < 65536; id++ {
		for _, x := range h.GetCustomHeaders(transport.MessageHeaderIdType(id)) {
			if b, ok := x.([]byte); ok {
				cu = append(cu, M{"id": id, "raw": true, "v": wf.Ints(b)})
			} else if r := regOf(uint16(id)); r != nil && reflect.TypeOf(x) == reflect.PointerTo(r.rt) {
				cu = append(cu, M{"id": id, "raw": false, "v": wf.JSON(r.t, fromGo(r.t, reflect.ValueOf(x).Elem()))})
			} else {
				cu = append(cu, M{"id": id, "raw": true, "v": []int{-1}})
			}
		}
	}
	m["cu"] = cu
	return m
}

func dlEvent(h *transport.MessageHeaders, body []byte) M {
	return M{"e": "dl", "m": hdrJSON(h), "body": wf.Ints(body)}
}

var customIds = []uint16{0, 1, 2, 0x1234, 0x7fff, 0x800a, 0x8020, 0x8023, 0x8049, 0xffff, 30000, 30001, 30002, 30003, 0x8010}

func genMID(r *rand.Rand) MID {
	var m MID
	switch r.Intn(5) {
	case 0:
	case 1:
		m.I = r.Uint32()
	case 2:
		r.Read(m.G[:])
	default:
		r.Read(m.G[:])
		m.I = uint32(genInt(r, "u32"))
	}
	return m
}

var bodyTy = wf.Struct(wf.T("str"), wf.T("i64"), wf.Slice(wf.T("u16")), wf.Ptr(wf.Struct(wf.T("bool"))))

func genMsg(r *rand.Rand, small bool) *GMsg {
	g := &GMsg{}
	w := &g.w
	w.Id, w.Rel = genMID(r), genMID(r)
	for w.Actor = 1; w.Actor == 1; {
		if r.Intn(2) == 0 {
			w.Actor = int64(r.Intn(40))
		} else {
			w.Actor = int64(genInt(r, "i64"))
		}
	}
	if r.Intn(2) == 0 {
		w.Action = genStr(r)
	}
	w.Expects, w.High, w.Idem, w.FaultBody = r.Intn(3) == 0, r.Intn(3) == 0, r.Intn(3) == 0, r.Intn(4) == 0
	if r.Intn(3) == 0 {
		w.Err = int64(genInt(r, "i64"))
	}
	if r.Intn(3) == 0 {
		w.Retry = int32(genInt(r, "i32"))
	}
	n := r.Intn(5)
	if small {
		n = r.Intn(2)
	}
	for i := 0; i < n; i++ {
		c := GH{id: customIds[r.Intn(len(customIds))]}
		if i > 0 && r.Intn(2) == 0 {
			c.id = g.cu[0].id
		}
		if x := regOf(c.id); x != nil {
			c.t, c.v = x.t, genVal(r, x.t, 2)
		} else if r.Intn(4) == 0 {
			c.t = wf.Struct(wf.T("i32"), wf.T("str"))
			c.v = genVal(r, c.t, 2)
		} else {
			c.raw = make([]byte, r.Intn(12))
			r.Read(c.raw)
		}
		g.cu = append(g.cu, c)
	}
	switch r.Intn(6) {
	case 0:
	case 1:
		v := genVal(r, bodyTy, 3)
		p := reflect.New(goType(bodyTy))
		toGo(bodyTy, v, p.Elem())
		g.obj, g.body = p.Interface(), wf.Enc(bodyTy, v)
	case 2:
		if !small {
			g.body = make([]byte, r.Intn(3000))
			r.Read(g.body)
			break
		}
		fallthrough
	default:
		g.body = make([]byte, r.Intn(40))
		r.Read(g.body)
	}
	return g
}

// ------------------------------------------------------------- receiving

type wcfg struct{ chc, cbc, ghc, gbc bool }

func (w wcfg) lib() transport.Config {
	return transport.Config{DisableCheckFrameHeaderCRC: !w.chc, CheckFrameBodyCRC: w.cbc, DisableGenerateFrameHeaderCRC: !w.ghc, GenerateFrameBodyCRC: w.gbc}
}

func (w wcfg) ev() M {
	return M{"e": "cfg", "chc": w.chc, "cbc": w.cbc, "ghc": w.ghc, "gbc": w.gbc, "mask": 0, "aux": false, "reg": regJSON(), "auth": u8s(uint64(actorSendTarget))}
}

func wcfgOf(n int) wcfg { return wcfg{n&1 == 0, n&2 != 0, n&4 == 0, n&8 != 0} }

// Rcv is a client whose peer is the driver
type Rcv struct {
	*Log
	fc   *FConn
	cl   *transport.Client
	hung bool
}

func newRcv(lg *Log, cfg transport.Config, onOut func([]byte)) *Rcv {
	r := &Rcv{Log: lg, fc: NewFConn("local:1", "remote:1")}
	r.fc.onWrite = onOut
	var err error
	r.cl, err = transport.Connect(r.fc, transport.ClientConfig{Config: cfg, MessageCallback: func(_ transport.Conn, m *transport.ByteArrayMessage) {
		r.Add(dlEvent(&m.Headers, m.Body))
	}})
	if err != nil {
		r.Add(M{"e": "junk", "what": err.Error()})
	}
	return r
}

func (r *Rcv) wait() {
	go func() {
		err := r.cl.Wait()
		r.Add(M{"e": "wend", "err": err != nil})
	}()
}

func (r *Rcv) quiet() {
	if !r.hung && !quiesce() {
		r.hung = true
		r.Add(M{"e": "hang"})
	}
	r.Add(M{"e": "q", "cc": r.fc.IsClosed()})
}

func (r *Rcv) feed(b []byte) {
	r.fc.Feed(b, func() { r.Add(M{"e": "in", "b": wf.Ints(b)}) })
}

func (r *Rcv) eof() { r.fc.End(errEOF, func() { r.Add(M{"e": "eof"}) }) }

// runRcv lets a client receive the pieces; reads get at most chunk bytes, if not 0
func runRcv(c *Ctx, name string, w wcfg, lg *Log, pieces [][]byte, eof bool, chunk int) {
	if lg == nil {
		lg = &Log{}
		lg.Add(w.ev())
	}
	r := newRcv(lg, w.lib(), nil)
	if chunk > 0 {
		r.fc.chunk = func(avail, want int) int { return chunk }
	}
	r.wait()
	for _, p := range pieces {
		r.feed(p)
		r.quiet()
	}
	if eof {
		r.eof()
		r.quiet()
	}
	r.cl.Close()
	if !r.hung {
		quiesce()
	}
	evs := r.Events()
	if !eof { // what Close did is of no interest
		for len(evs) > 0 && evs[len(evs)-1].(M)["e"] != "q" {
			evs = evs[:len(evs)-1]
		}
	}
	c.Put(name, evs)
}

// ------------------------------------------------------------- sending

// send lets a client send the messages, and records it. How: 0 one way, 1 request
func sendAll(lg *Log, w wcfg, msgs []*GMsg, req func(int) bool) (stream []byte) {
	var mu sync.Mutex
	init := true
	fc := NewFConn("local:1", "remote:1")
	fc.onWrite = func(b []byte) {
		mu.Lock()
		defer mu.Unlock()
		lg.Add(M{"e": "out", "b": wf.Ints(b)})
		if init { // the opening message
			init = false
		}
		stream = append(stream, b...)
	}
	cl, err := transport.Connect(fc, transport.ClientConfig{Config: w.lib()})
	if err != nil {
		lg.Add(M{"e": "junk", "what": err.Error()})
		return
	}
	for i, g := range msgs {
		m := g.lib()
		j := g.JSON()
		if req != nil && req(i) {
			j["exp"] = true
			lg.Add(M{"e": "sendb", "m": j, "body": wf.Ints(g.body)})
			ctx, cancel := context.WithCancel(context.Background())
			cancel()
			_, err = cl.RequestReply(ctx, m)
			if err == ctx.Err() {
				err = nil
			}
		} else {
			lg.Add(M{"e": "sendb", "m": j, "body": wf.Ints(g.body)})
			err = cl.SendOneWay(m)
		}
		lg.Add(M{"e": "sende", "err": err != nil})
	}
	cl.Close()
	return
}

func split(b []byte, at ...int) [][]byte {
	var r [][]byte
	p := 0
	for _, a := range append(at, len(b)) {
		if a > p {
			r = append(r, b[p:a])
			p = a
		}
	}
	return r
}

func randSplit(r *rand.Rand, b []byte, n int) [][]byte {
	var at []int
	for i := 0; i < n; i++ {
		at = append(at, r.Intn(len(b)+1))
	}
	sort.Ints(at)
	return split(b, at...)
}

// part says whether this process runs the k-th case
func (c *Ctx) mine(k int) bool { return c.Parts <= 1 || k%c.Parts == c.Part }

// copyLog starts a trace with what was sent
func copyLog(l *Log) *Log { return &Log{evs: l.Events()} }

type genCase struct {
	g *GMsg
	b []byte
}

// readGenMsgs reads messages that the specification enumerated
func readGenMsgs(f string) []genCase {
	if f == "" {
		return nil
	}
	data, err := os.ReadFile(f)
	if err != nil {
		panic(err)
	}
	var r []genCase
	for _, line := range strings.Split(string(data), "\n") {
		if strings.TrimSpace(line) == "" {
			continue
		}
		var x struct {
			H struct {
				Id, Rel, Action, Actor, Err, Retry []interface{}
				Exp, High, Idem, Fb                bool
				Cu                                 []struct {
					Id  int
					Raw bool
					V   []interface{}
				}
			}
			Body, B []int
		}
		if err := json.Unmarshal([]byte(line), &x); err != nil {
			panic(err)
		}
		g := &GMsg{}
		mid := func(v []interface{}) MID {
			return MID{fromJSON(wf.T("guid"), v[0]).([16]byte), uint32(fromJSON(wf.T("u32"), v[1]).(uint64))}
		}
		num := func(v []interface{}) uint64 { return fromJSON(wf.T("u64"), v).(uint64) }
		g.w = WMsg{Id: mid(x.H.Id), Rel: mid(x.H.Rel), Action: fromJSON(wf.T("str"), x.H.Action).(string), Actor: int64(num(x.H.Actor)), Err: int64(num(x.H.Err)), Retry: int32(num(x.H.Retry)),
			Expects: x.H.Exp, High: x.H.High, Idem: x.H.Idem, FaultBody: x.H.Fb}
		for _, cu := range x.H.Cu {
			if cu.Raw {
				b := []byte{}
				for _, y := range cu.V {
					b = append(b, byte(y.(float64)))
				}
				g.cu = append(g.cu, GH{id: uint16(cu.Id), raw: b})
			} else {
				t := regOf(uint16(cu.Id)).t
				g.cu = append(g.cu, GH{id: uint16(cu.Id), t: t, v: fromJSON(t, cu.V)})
			}
		}
		g.body = toBytes(x.Body)
		r = append(r, genCase{g, toBytes(x.B)})
	}
	return r
}

func toBytes(v []int) []byte {
	b := make([]byte, len(v))
	for i := range v {
		b[i] = byte(v[i])
	}
	return b
}

// ------------------------------------------------------------- T01

func runT01(c *Ctx) {
	rnd := c.Rand(11)
	k := 0
	gens := readGenMsgs(c.Gen)
	// every way to cut a stream in two, every early end, byte by byte
	for n := 0; n < c.N(4, 20); n++ {
		w := wcfgOf([]int{0, 10, 8, 5}[n%4])
		var msgs []*GMsg
		for i := 0; i < 2+n%2; i++ {
			msgs = append(msgs, genMsg(rnd, true))
		}
		seed := rnd.Int63()
		k++
		if !c.mine(k) {
			continue
		}
		lg := &Log{}
		lg.Add(w.ev())
		s := sendAll(lg, w, msgs, nil)
		for i := 0; i <= len(s); i++ {
			runRcv(c, fmt.Sprintf("two%d/%d", n, i), w, copyLog(lg), split(s, i), true, 0)
			runRcv(c, fmt.Sprintf("prefix%d/%d", n, i), w, copyLog(lg), split(s[:i]), true, 0)
		}
		runRcv(c, fmt.Sprintf("bytes%d", n), w, copyLog(lg), split(s, seq(1, len(s))...), true, 0)
		for ch := 1; ch < 16; ch++ {
			runRcv(c, fmt.Sprintf("reads%d/%d", n, ch), w, copyLog(lg), split(s), true, ch)
		}
		r2 := rand.New(rand.NewSource(seed))
		for i := 0; i < 40; i++ {
			p := r2.Intn(len(s) + 1)
			runRcv(c, fmt.Sprintf("multi%d/%d", n, i), w, copyLog(lg), randSplit(r2, s[:p], r2.Intn(8)), r2.Intn(2) == 0, r2.Intn(20))
		}
	}
	// longer streams, cut anywhere
	for n := 0; n < c.N(150, 2000); n++ {
		var msgs []*GMsg
		w := wcfgOf(rnd.Intn(16))
		for i := 1 + rnd.Intn(6); i > 0; i-- {
			if len(gens) > 0 && rnd.Intn(2) == 0 {
				msgs = append(msgs, gens[rnd.Intn(len(gens))].g)
			} else {
				msgs = append(msgs, genMsg(rnd, false))
			}
		}
		seed := rnd.Int63()
		k++
		if !c.mine(k) {
			continue
		}
		r2 := rand.New(rand.NewSource(seed))
		lg := &Log{}
		lg.Add(w.ev())
		s := sendAll(lg, w, msgs, func(i int) bool { return r2.Intn(3) == 0 })
		p := len(s)
		if r2.Intn(3) == 0 {
			p = r2.Intn(p + 1)
		}
		runRcv(c, fmt.Sprintf("stream%d", n), w, lg, randSplit(r2, s[:p], r2.Intn(10)), r2.Intn(3) > 0, r2.Intn(3)*r2.Intn(30))
	}
	// replies and messages to a server
	for n := 0; n < c.N(40, 400); n++ {
		seed := rnd.Int63()
		k++
		if c.mine(k) {
			runDuplex(c, fmt.Sprintf("duplex%d", n), rand.New(rand.NewSource(seed)))
		}
	}
}

func seq(a, b int) []int {
	var r []int
	for i := a; i < b; i++ {
		r = append(r, i)
	}
	return r
}

// runDuplex exchanges messages between a client and a server, whole ones one after another;
// what each receives is a trace
func runDuplex(c *Ctx, name string, r *rand.Rand) {
	w := wcfgOf([]int{0, 10, 8, 5, 15}[r.Intn(5)])
	up, down := &Log{}, &Log{} // to the server, to the client
	up.Add(w.ev())
	down.Add(w.ev())
	a, b := NewFConn("client:1", "server:1"), NewFConn("server:1", "client:1")
	cut := func(x []byte) [][]byte { return randSplit(r, x, r.Intn(4)) }
	var mu sync.Mutex
	var qa, qb []byte // written by the client, by the server
	a.onWrite = func(p []byte) {
		mu.Lock()
		defer mu.Unlock()
		up.Add(M{"e": "out", "b": wf.Ints(p)})
		qa = append(qa, p...)
	}
	b.onWrite = func(p []byte) {
		mu.Lock()
		defer mu.Unlock()
		down.Add(M{"e": "out", "b": wf.Ints(p)})
		qb = append(qb, p...)
	}
	l := NewFListener("server:1")
	var scMu sync.Mutex
	var sc transport.Conn
	srv, _ := transport.Listen(l, transport.ServerConfig{Config: w.lib(), MessageCallback: func(cn transport.Conn, m *transport.ByteArrayMessage) {
		scMu.Lock()
		sc = cn
		scMu.Unlock()
		up.Add(dlEvent(&m.Headers, m.Body))
	}})
	go srv.Serve()
	l.Push(b)
	cl, err := transport.Connect(a, transport.ClientConfig{Config: w.lib(), MessageCallback: func(_ transport.Conn, m *transport.ByteArrayMessage) {
		down.Add(dlEvent(&m.Headers, m.Body))
	}})
	if err != nil {
		return
	}
	go cl.Wait()
	// move what was written to the other side
	move := func() {
		quiesce()
		mu.Lock()
		x, y := qa, qb
		qa, qb = nil, nil
		mu.Unlock()
		for _, p := range cut(x) {
			b.Feed(p, func() { up.Add(M{"e": "in", "b": wf.Ints(p)}) })
			quiesce()
		}
		if len(x) > 0 {
			up.Add(M{"e": "q", "cc": b.IsClosed()})
		}
		for _, p := range cut(y) {
			a.Feed(p, func() { down.Add(M{"e": "in", "b": wf.Ints(p)}) })
			quiesce()
		}
		if len(y) > 0 {
			down.Add(M{"e": "q", "cc": a.IsClosed()})
		}
	}
	move()
	send := func(lg *Log, cn transport.Conn, g *GMsg) {
		lg.Add(M{"e": "sendb", "m": g.JSON(), "body": wf.Ints(g.body)})
		err := cn.SendOneWay(g.lib())
		lg.Add(M{"e": "sende", "err": err != nil})
	}
	for i := 0; i < 3+r.Intn(4); i++ {
		scMu.Lock()
		s := sc
		scMu.Unlock()
		switch x := r.Intn(3); {
		case x == 0 && s != nil:
			send(down, s, genMsg(r, true))
			move()
		case x == 1 && s != nil: // a request of the server, answered by the client
			q := genMsg(r, true)
			q.w.Id = MID{[16]byte{1, byte(i)}, uint32(i)}
			j := q.JSON()
			j["exp"] = true
			down.Add(M{"e": "sendb", "m": j, "body": wf.Ints(q.body)})
			m := q.lib()
			done := make(chan struct{})
			ctx, cancel := context.WithCancel(context.Background())
			go func() {
				defer close(done)
				rep, err := s.RequestReply(ctx, m)
				if err != nil {
					up.Add(M{"e": "junk", "what": err.Error()})
					return
				}
				up.Add(dlEvent(&rep.Headers, rep.Body))
			}()
			quiesce()
			down.Add(M{"e": "sende", "err": false})
			move()
			p := genMsg(r, true)
			p.w.Rel = q.w.Id
			send(up, cl, p)
			move()
			select {
			case <-done:
			default:
				quiesce()
				cancel()
			}
			<-done
			cancel()
		default:
			send(up, cl, genMsg(r, true))
			move()
		}
	}
	ue, de := up.Events(), down.Events()
	cl.Close()
	b.Close()
	srv.Close()
	quiesce()
	c.Put(name+"/up", ue)
	c.Put(name+"/down", de)
}

// ------------------------------------------------------------- T03

func runT03(c *Ctx) {
	rnd := c.Rand(13)
	k := 0
	next := func() bool { k++; return c.mine(k) }
	// senders
	for n := 0; n < c.N(96, 1600); n++ {
		w := wcfgOf(n)
		var msgs []*GMsg
		for i := 0; i < 3; i++ {
			msgs = append(msgs, genMsg(rnd, n%2 == 0))
		}
		if next() {
			lg := &Log{}
			lg.Add(w.ev())
			sendAll(lg, w, msgs, func(i int) bool { return i == 1 })
			c.Put(fmt.Sprintf("send%d", n), lg.Events())
		}
	}
	for n := 0; n < 16; n++ { // heartbeats, their answers, servers
		if next() {
			runT03Aux(c, n)
		}
	}
	// the configuration somebody gets who asks for nothing
	d1, d2 := genMsg(rnd, true), genMsg(rnd, true)
	if next() {
		lg := &Log{}
		lg.Add(wcfg{chc: true, ghc: true}.ev())
		sendAllDefault(lg, []*GMsg{d1, d2})
		c.Put("default", lg.Events())
	}
	follow := (&WMsg{Id: MID{[16]byte{9}, 9}, Actor: 50, Action: "after", Body: []byte("after")}).Frame(FOpt{BC: true})
	// every bit of a frame
	for n := 0; n < c.N(2, 8); n++ {
		g := genMsg(rnd, true)
		for len(g.body) < 3 || len(g.body) > 40 {
			g = genMsg(rnd, true)
		}
		g.w.Id = MID{[16]byte{1, 2, 3}, 5}
		f := g.wire().Frame(FOpt{BC: true})
		for i := 0; i < len(f)*8; i++ {
			if !next() {
				continue
			}
			x := append([]byte{}, f...)
			x[i/8] ^= 1 << uint(i%8)
			for cf := 0; cf < 4; cf++ {
				runRcv(c, fmt.Sprintf("flip%d/%d/%d", n, i, cf), wcfgOf(cf), nil, [][]byte{x, follow}, true, 0)
			}
		}
	}
	if next() {
		runBigFlip(c, c.Rand(29))
	}
	// bursts, checksums of any value
	for n := 0; n < c.N(600, 6000); n++ {
		g := genMsg(rnd, true)
		f := g.wire().Frame(FOpt{BC: true})
		switch rnd.Intn(5) {
		case 0: // header checksum
			f[5] = byte(rnd.Intn(256))
		case 1: // body checksum
			binary.LittleEndian.PutUint32(f[8:], uint32(genInt(rnd, "u32")))
		case 2:
			for i := 0; i < 2+rnd.Intn(3); i++ {
				f[rnd.Intn(12)] ^= 1 << uint(rnd.Intn(8))
			}
		case 3:
			for i := 0; i < 1+rnd.Intn(3); i++ {
				f[rnd.Intn(len(f))] = byte(rnd.Intn(256))
			}
		case 4: // both are none
			f[5], f[8], f[9], f[10], f[11] = 0, 0, 0, 0, 0
		}
		cf := rnd.Intn(4)
		if next() {
			runRcv(c, fmt.Sprintf("burst%d", n), wcfgOf(cf), nil, [][]byte{follow, f, follow}, true, 0)
		}
	}
}

func sendAllDefault(lg *Log, msgs []*GMsg) {
	fc := NewFConn("local:1", "remote:1")
	fc.onWrite = func(b []byte) { lg.Add(M{"e": "out", "b": wf.Ints(b)}) }
	cl, err := transport.Connect(fc, transport.ClientConfig{})
	if err != nil {
		return
	}
	for _, g := range msgs {
		lg.Add(M{"e": "sendb", "m": g.JSON(), "body": wf.Ints(g.body)})
		err := cl.SendOneWay(g.lib())
		lg.Add(M{"e": "sende", "err": err != nil})
	}
	cl.Close()
}

// runBigFlip changes large frames at places far from the start
func runBigFlip(c *Ctx, r *rand.Rand) {
	for _, n := range []int{5000, 65536 + 100, 300000} {
		g := &GMsg{w: WMsg{Id: MID{[16]byte{1}, 1}, Actor: 50, Action: "big"}, cu: []GH{{id: 5, raw: make([]byte, min(n, 60000))}}, body: make([]byte, n)}
		r.Read(g.body)
		f := g.wire().Frame(FOpt{BC: true})
		for _, at := range []int{-1, 200, len(f) / 2, len(f) - 1, r.Intn(len(f)-100) + 100} {
			x := append([]byte{}, f...)
			if at >= 0 {
				x[at] ^= 1 << uint(r.Intn(8))
			}
			for _, cbc := range []bool{false, true} {
				res := rcvBig(x, wcfg{chc: true, cbc: cbc}, func(_ *transport.MessageHeaders, b []byte) bool {
					return at < 12 || bytes.Equal(b, x[len(x)-len(b):]) && len(b) == n
				})
				c.Put(fmt.Sprintf("bigflip%d/%d/%v", n, at, cbc), []interface{}{wcfgOf(0).ev(), M{"e": "bigflip", "bad": at >= 0 && cbc, "res": res}})
			}
		}
	}
}

// runT03Aux looks at what connections write of their own
func runT03Aux(c *Ctx, n int) {
	w := wcfgOf(n)
	// a client that pings and is pinged
	lg := &Log{}
	cf := w.ev()
	cf["aux"] = true
	lg.Add(cf)
	r := newRcv(lg, w.lib(), func(b []byte) { lg.Add(M{"e": "out", "b": wf.Ints(b)}) })
	r.wait()
	hb := (&WMsg{Id: MID{[16]byte{3}, 9}, Actor: 1, Action: "HeartbeatRequest", High: true, Body: wf.Enc(hbTy, []wf.V{uint64(77)})}).Frame(FOpt{BC: true})
	for i := 0; i < 2; i++ {
		r.feed(hb)
		r.quiet()
		ctx, cancel := context.WithCancel(context.Background())
		cancel()
		go r.cl.Ping(ctx)
		r.quiet()
	}
	evs := r.Events()
	r.cl.Close()
	quiesce()
	c.Put(fmt.Sprintf("auxclient%d", n), evs)
	// a server
	lg = &Log{}
	lg.Add(cf)
	fc := NewFConn("server:1", "client:1")
	fc.onWrite = func(b []byte) { lg.Add(M{"e": "out", "b": wf.Ints(b)}) }
	l := NewFListener("server:1")
	srv, _ := transport.Listen(l, transport.ServerConfig{Config: w.lib(), MessageCallback: func(cn transport.Conn, m *transport.ByteArrayMessage) {
		lg.Add(dlEvent(&m.Headers, m.Body))
		rep := &GMsg{w: WMsg{Actor: 50, Action: "re", Rel: midOf(m.Headers.Id)}, body: []byte("reply")}
		lg.Add(M{"e": "sendb", "m": rep.JSON(), "body": wf.Ints(rep.body)})
		err := cn.SendOneWay(rep.lib())
		lg.Add(M{"e": "sende", "err": err != nil})
	}})
	go srv.Serve()
	l.Push(fc)
	fd := func(b []byte) {
		fc.Feed(b, func() { lg.Add(M{"e": "in", "b": wf.Ints(b)}) })
		quiesce()
		lg.Add(M{"e": "q", "cc": false})
	}
	fd(hb)
	fd((&WMsg{Id: MID{[16]byte{3}, 10}, Actor: 50, Action: "x", Body: []byte{1}}).Frame(FOpt{BC: true}))
	evs = lg.Events()
	fc.Close()
	srv.Close()
	quiesce()
	c.Put(fmt.Sprintf("auxserver%d", n), evs)
}

// ------------------------------------------------------------- T04

// fixCrc makes the checksums of a frame right
func fixCrc(f []byte) []byte {
	if len(f) >= 12 {
		f[5] = 0
		h := append([]byte{}, f[:8]...)
		f[5] = crc8(append(h, 0, 0, 0, 0))
		binary.LittleEndian.PutUint32(f[8:], crc32.ChecksumIEEE(f[12:]))
	}
	return f
}

// badHdrs makes headers that are wrong somewhere
func badHdrs(r *rand.Rand) []byte {
	g := genMsg(r, false)
	b := g.wire().Headers()
	switch r.Intn(6) {
	case 0: // cut off
		return b[:r.Intn(len(b)+1)]
	case 1: // a length that does not fit
		i := 2
		for j := r.Intn(4); j > 0 && i+4+int(binary.LittleEndian.Uint16(b[i:])) < len(b); j-- {
			i += 4 + int(binary.LittleEndian.Uint16(b[i:]))
		}
		binary.LittleEndian.PutUint16(b[i:], uint16(genInt(r, "u16")))
	case 2: // a value of another type
		t := []*wf.Ty{tyI64, tyStr, tyBool, tyFault, tyI32, tyId, wf.Struct(wf.T("guid")), wf.Struct()}[r.Intn(8)]
		id := []uint16{hActor, hAction, hId, hRel, hExpects, hRetry, hFault, hIdem, hHigh, 30000, 30001, 30003}[r.Intn(12)]
		b = append(b, hdr(id, wf.Enc(t, genVal(r, t, 2)))...)
	case 3: // no value
		id := []uint16{hActor, hAction, hId, hRel, hExpects, hRetry, hFault, hIdem, hHigh, 30000, 0x8000, hNego}[r.Intn(12)]
		d := make([]byte, r.Intn(3))
		r.Read(d)
		b = append(b, hdr(id, d)...)
	case 4: // a cut off value
		t := []*wf.Ty{tyI64, tyStr, tyBool, tyFault, tyI32, tyId}[r.Intn(6)]
		id := map[*wf.Ty]uint16{tyI64: hActor, tyStr: hAction, tyBool: hHigh, tyFault: hFault, tyI32: hRetry, tyId: hRel}[t]
		d := wf.Enc(t, genVal(r, t, 2))
		b = append(b, hdr(id, d[:r.Intn(len(d))])...)
	default:
		b = mutate(r, b)
	}
	return b
}

// badFrame makes bytes that may not be a frame
func badFrame(r *rand.Rand) []byte {
	switch r.Intn(8) {
	case 0:
		b := make([]byte, r.Intn(60))
		r.Read(b)
		return b
	case 1: // lengths
		f := genMsg(r, true).wire().Frame(FOpt{BC: true})
		ls := []uint32{0, 1, 11, 12, 13, uint32(len(f)) - 1, uint32(len(f)) + 1, uint32(len(f)) + 5, 1 << 16, 1 << 26, 1 << 28, 1<<31 - 1, 1 << 31, 1<<32 - 1}
		binary.LittleEndian.PutUint32(f, ls[r.Intn(len(ls))])
		return fixCrc(f)
	case 2: // header length
		f := genMsg(r, true).wire().Frame(FOpt{BC: true})
		hl := int(binary.LittleEndian.Uint16(f[6:]))
		ls := []int{0, 1, 3, hl - 1, hl + 1, len(f) - 13, len(f) - 12, len(f) - 11, len(f), 65535}
		binary.LittleEndian.PutUint16(f[6:], uint16(ls[r.Intn(len(ls))]))
		return fixCrc(f)
	case 3, 4, 5: // headers
		body := make([]byte, r.Intn(8))
		r.Read(body)
		return rawFrame(badHdrs(r), body, FOpt{BC: true})
	case 6: // cut off, something else follows
		f := genMsg(r, true).wire().Frame(FOpt{BC: true})
		f = f[:r.Intn(len(f))]
		if r.Intn(2) == 0 {
			fixCrc(f)
		}
		return f
	default:
		f := mutate(r, genMsg(r, true).wire().Frame(FOpt{BC: true}))
		if r.Intn(2) == 0 {
			fixCrc(f)
		}
		return f
	}
}

func runT04(c *Ctx) {
	rnd := c.Rand(17)
	k := 0
	next := func() bool { k++; return c.mine(k) }
	for n := 0; n < c.N(2500, 30000); n++ {
		var s []byte
		for i := rnd.Intn(3); i > 0; i-- {
			s = append(s, genMsg(rnd, true).wire().Frame(FOpt{BC: true})...)
		}
		s = append(s, badFrame(rnd)...)
		if rnd.Intn(2) == 0 {
			s = append(s, genMsg(rnd, true).wire().Frame(FOpt{BC: true})...)
		}
		w := wcfgOf([]int{0, 0, 1, 2, 3}[rnd.Intn(5)])
		seed := rnd.Int63()
		if !next() {
			continue
		}
		r := rand.New(rand.NewSource(seed))
		ps := [][]byte{s}
		if r.Intn(2) == 0 {
			ps = randSplit(r, s, r.Intn(5))
		}
		runRcv(c, fmt.Sprintf("bad%d", n), w, nil, ps, r.Intn(3) > 0, r.Intn(2)*r.Intn(20))
	}
	// messages that are for the connection itself
	for n := 0; n < c.N(200, 3000); n++ {
		m := &WMsg{Id: MID{[16]byte{3}, 9}, Actor: 1, High: true, Action: []string{"HeartbeatRequest", "HeartbeatResponse", "", "HeartBeat", "Connect"}[rnd.Intn(5)]}
		if rnd.Intn(4) == 0 {
			m.Actor, m.Action, m.Err = actorSendTarget, "ConnectionAuth", int64(rnd.Intn(2)*5)
		}
		m.Body = mutate(rnd, wf.Enc(hbTy, []wf.V{rnd.Uint64()}))
		o := genMsg(rnd, true).wire().Frame(FOpt{})
		if next() {
			runRcv(c, fmt.Sprintf("own%d", n), wcfgOf(0), nil, [][]byte{m.Frame(FOpt{}), o}, n%2 == 0, 0)
		}
	}
	for n := 0; n < c.N(12, 60); n++ {
		seed := rnd.Int63()
		if next() {
			runT04Server(c, fmt.Sprintf("server%d", n), rand.New(rand.NewSource(seed)))
		}
	}
	if next() {
		runT04Mem(c)
	}
}

// runT04Server has one bad peer among others
func runT04Server(c *Ctx, name string, r *rand.Rand) {
	w := wcfgOf(0)
	n := 3
	lgs := make([]*Log, n)
	fcs := make([]*FConn, n)
	ids := map[transport.Conn]int{}
	var mu sync.Mutex
	srv0 := NewFListener("server:1")
	srv, _ := transport.Listen(srv0, transport.ServerConfig{Config: w.lib(), MessageCallback: func(cn transport.Conn, m *transport.ByteArrayMessage) {
		mu.Lock()
		defer mu.Unlock()
		i, ok := ids[cn]
		if !ok { // the first message tells which one it is
			i = int(m.Headers.RetryCount) - 1
			if i < 0 || i >= n {
				i = 0
			}
			ids[cn] = i
		}
		lgs[i].Add(dlEvent(&m.Headers, m.Body))
	}})
	go srv.Serve()
	feed := func(i int, b []byte) {
		fcs[i].Feed(b, func() { lgs[i].Add(M{"e": "in", "b": wf.Ints(b)}) })
		if !quiesce() {
			lgs[i].Add(M{"e": "hang"})
		}
		if fcs[i].IsClosed() {
			mu.Lock()
			if lgs[i].ended() == 0 {
				lgs[i].Add(M{"e": "wend", "err": true})
			}
			mu.Unlock()
		}
		lgs[i].Add(M{"e": "q", "cc": fcs[i].IsClosed()})
	}
	for i := range lgs {
		lgs[i] = &Log{}
		lgs[i].Add(w.ev())
		fcs[i] = NewFConn("server:1", fmt.Sprintf("peer:%d", i))
		srv0.Push(fcs[i])
		feed(i, (&WMsg{Id: MID{[16]byte{byte(i)}, 1}, Actor: 50, Action: "hello", Retry: int32(i + 1), Body: []byte{byte(i)}}).Frame(FOpt{}))
	}
	for k := 0; k < 6; k++ {
		i := r.Intn(n)
		var b []byte
		if i == 0 && k > 1 {
			b = badFrame(r)
		} else {
			b = genMsg(r, true).wire().Frame(FOpt{})
		}
		feed(i, b)
	}
	for i := range lgs {
		feed(i, (&WMsg{Id: MID{[16]byte{byte(i)}, 7}, Actor: 50, Action: "bye", Body: []byte{byte(i)}}).Frame(FOpt{}))
	}
	var evs [][]interface{}
	for i := range lgs {
		evs = append(evs, lgs[i].Events())
	}
	for i := range fcs {
		fcs[i].Close()
	}
	srv.Close()
	quiesce()
	for i := range evs {
		c.Put(fmt.Sprintf("%s/%d", name, i), evs[i])
	}
}

// ended counts the end events
func (r *Log) ended() int {
	n := 0
	for _, e := range r.Events() {
		if e.(M)["e"] == "wend" {
			n++
		}
	}
	return n
}

// runT04Mem announces large frames on many connections and sends little
func runT04Mem(c *Ctx) {
	for _, size := range []uint32{1 << 24, 1 << 28, 1<<31 - 1, 1 << 31, 1<<32 - 1} {
		var m0, m1 runtime.MemStats
		fed := 0
		var rs []*Rcv
		runtime.ReadMemStats(&m0)
		for i := 0; i < 40; i++ {
			r := newRcv(&Log{}, transport.Config{}, nil)
			r.wait()
			f := rawFrame([]byte{1, 2, 3, 4}, bytes.Repeat([]byte{7}, 100*(i%3)), FOpt{})
			binary.LittleEndian.PutUint32(f, size)
			fixCrc(f)
			r.fc.Feed(f, nil)
			fed += len(f)
			rs = append(rs, r)
		}
		quiesce()
		for _, r := range rs {
			r.fc.End(errEOF, nil)
		}
		quiesce()
		runtime.ReadMemStats(&m1)
		c.Put(fmt.Sprintf("mem%d", size), []interface{}{wcfgOf(0).ev(), M{"e": "alloc", "kb": min((m1.TotalAlloc-m0.TotalAlloc)>>10, 1<<30), "fed": fed >> 10}})
	}
}

// ------------------------------------------------------------- T05

func runT05(c *Ctx) {
	rnd := c.Rand(19)
	k := 0
	next := func() bool { k++; return c.mine(k) }
	rt := func(name string, w wcfg, g *GMsg, req bool) {
		lg := &Log{}
		lg.Add(w.ev())
		s := sendAll(lg, w, []*GMsg{g}, func(int) bool { return req })
		runRcv(c, name, w, lg, [][]byte{s}, true, 0)
	}
	for i, x := range readGenMsgs(c.Gen) {
		if next() {
			rt(fmt.Sprintf("gen%d", i), wcfgOf(0), x.g, false)
			runRcv(c, fmt.Sprintf("genb%d", i), wcfgOf(0), nil, [][]byte{x.b}, true, 0)
			c.Stats["generated_replayed"]++
		}
	}
	for i := 0; i < c.N(800, 12000); i++ {
		g := genMsg(rnd, i%4 != 0)
		if next() {
			rt(fmt.Sprintf("msg%d", i), wcfgOf([]int{0, 10, 5}[i%3]), g, i%5 == 0)
		}
	}
	// custom headers of a message, locally, then sent
	for i := 0; i < c.N(150, 2000); i++ {
		seed := rnd.Int63()
		if next() {
			runHdrOps(c, fmt.Sprintf("ops%d", i), rand.New(rand.NewSource(seed)))
		}
	}
	if next() {
		runBig(c, c.Rand(23))
	}
	// many header types at once
	for i := 0; i < c.N(6, 60); i++ {
		g := genMsg(rnd, true)
		g.cu = nil
		for j := 0; j < 20+rnd.Intn(30); j++ {
			id := uint16(rnd.Intn(65536))
			if id >= 0x8000 && id <= 0x8009 || id == hNego || regOf(id) != nil {
				continue
			}
			b := make([]byte, rnd.Intn(5))
			rnd.Read(b)
			g.cu = append(g.cu, GH{id: id, raw: b})
			if rnd.Intn(3) == 0 {
				g.cu = append(g.cu, GH{id: id, raw: []byte{byte(j)}})
			}
		}
		if next() {
			rt(fmt.Sprintf("many%d", i), wcfgOf(0), g, false)
		}
	}
}

func runHdrOps(c *Ctx, name string, r *rand.Rand) {
	w := wcfgOf(0)
	lg := &Log{}
	lg.Add(w.ev())
	m := &transport.Message{}
	m.Headers.Actor = 50
	ids := []uint16{1, 2, 0x1234, 0x8020}
	tok := func(x interface{}) int {
		if b, ok := x.([]byte); ok && len(b) == 2 {
			return int(b[0]) + 256*int(b[1])
		}
		return -1
	}
	val := func(n int) []byte { return []byte{byte(n), byte(n >> 8)} }
	n := 0
	used := map[uint16]bool{}
	look := func(id uint16) []GH {
		vs := []int{}
		var hs []GH
		for _, x := range m.Headers.GetCustomHeaders(transport.MessageHeaderIdType(id)) {
			vs = append(vs, tok(x))
			hs = append(hs, GH{id: id, raw: val(tok(x))})
		}
		lg.Add(M{"e": "hget", "id": id, "vs": vs})
		x, ok := m.Headers.GetFirstCustomHeader(transport.MessageHeaderIdType(id))
		t := 0
		if ok {
			t = tok(x)
		}
		lg.Add(M{"e": "hfirst", "id": id, "ok": ok, "v": t})
		return hs
	}
	for i := 0; i < 3+r.Intn(8); i++ {
		id := ids[r.Intn(len(ids))]
		used[id] = true
		n++
		switch r.Intn(4) {
		case 0, 1:
			res := m.Headers.SetCustomHeader(transport.MessageHeaderIdType(id), val(n))
			lg.Add(M{"e": "hset", "id": id, "v": n, "res": res})
		case 2:
			k := 1 + r.Intn(3)
			var xs []interface{}
			var vs []int
			for ; k > 0; k-- {
				xs = append(xs, val(n))
				vs = append(vs, n)
				n++
			}
			m.Headers.AppendCustomHeader(transport.MessageHeaderIdType(id), xs...)
			lg.Add(M{"e": "happ", "id": id, "vs": vs})
		default:
			look(id)
		}
	}
	g := &GMsg{w: WMsg{Actor: 50}}
	for _, id := range ids {
		g.cu = append(g.cu, look(id)...)
	}
	var s []byte
	fc := NewFConn("local:1", "remote:1")
	fc.onWrite = func(b []byte) {
		lg.Add(M{"e": "out", "b": wf.Ints(b)})
		s = append(s, b...)
	}
	cl, err := transport.Connect(fc, transport.ClientConfig{Config: w.lib()})
	if err != nil {
		return
	}
	lg.Add(M{"e": "sendb", "m": g.JSON(), "body": []int{}})
	err = cl.SendOneWay(m)
	lg.Add(M{"e": "sende", "err": err != nil})
	cl.Close()
	runRcv(c, name, w, lg, [][]byte{s}, true, 0)
}

// runBig sends headers around the limits of the format
func runBig(c *Ctx, r *rand.Rand) {
	try := func(name string, g *GMsg, req bool) {
		lg := &Log{}
		lg.Add(wcfgOf(0).ev())
		var s []byte
		fc := NewFConn("local:1", "remote:1")
		cl, err := transport.Connect(fc, transport.ClientConfig{})
		if err != nil {
			return
		}
		fc.onWrite = func(b []byte) { s = append(s, b...) }
		one := 0
		wm := g.wire()
		for _, h := range wm.Custom {
			one = max(one, len(h.Data))
		}
		if g.w.Action != "" {
			one = max(one, len(wf.Enc(tyStr, []wf.V{g.w.Action})))
		}
		wm.Expects = wm.Expects || req
		hl := len(wm.Headers())
		m := g.lib()
		if req {
			ctx, cancel := context.WithCancel(context.Background())
			cancel()
			_, err = cl.RequestReply(ctx, m)
			if err == ctx.Err() {
				err = nil
			}
		} else {
			err = cl.SendOneWay(m)
		}
		ev := M{"e": "big", "one": one, "hl": hl, "err": err != nil, "out": len(s), "good": false}
		if f, k, e := parseFrame(s); e == nil && k == len(s) && f.HCok {
			ev["good"] = int(f.HLen) == hl && bytes.Equal(f.Msg.Body, g.body) && sameCustom(f.Msg.Custom, wm.Custom) && f.Msg.Action == g.w.Action
		}
		if err == nil { // and is it received
			ev["good"] = ev["good"].(bool) && rcvBig(s, wcfgOf(0), func(h *transport.MessageHeaders, body []byte) bool {
				j := hdrJSON(h)
				want := g.JSON()
				want["exp"] = wm.Expects
				return bytes.Equal(body, g.body) && fmt.Sprint(j) == fmt.Sprint(sortedCu(want))
			}) == "ok"
		}
		lg.Add(ev)
		// it can be used afterwards
		fc.onWrite = func(b []byte) { lg.Add(M{"e": "out", "b": wf.Ints(b)}) }
		o := &GMsg{w: WMsg{Actor: 50, Action: "next"}, body: []byte{1}}
		lg.Add(M{"e": "sendb", "m": o.JSON(), "body": wf.Ints(o.body)})
		err = cl.SendOneWay(o.lib())
		lg.Add(M{"e": "sende", "err": err != nil})
		cl.Close()
		c.Put(name, lg.Events())
	}
	mk := func(cu ...GH) *GMsg {
		return &GMsg{w: WMsg{Id: MID{[16]byte{1}, 1}, Actor: 50, Action: "big"}, cu: cu, body: []byte("body")}
	}
	fixed := len(mk().wire().Headers())
	for _, req := range []bool{false, true} {
		ex := 0
		if req {
			x := mk()
			x.w.Expects = true
			ex = len(x.wire().Headers()) - fixed
		}
		for _, n := range []int{1000, 60000, 65535 - fixed - ex - 5, 65535 - fixed - ex - 4, 65535 - fixed - ex - 3, 65531, 65534, 65535, 65536, 65537, 65536 + 10, 70000, 131072, 131072 + 20} {
			b := make([]byte, n)
			r.Read(b)
			try(fmt.Sprintf("one%d/%v", n, req), mk(GH{id: 0x1234, raw: b}), req)
		}
		for _, n := range []int{2, 3, 100} {
			tot := 65535 - fixed - ex - 4*n
			for _, d := range []int{-1, 0, 1, 2, 65536, 65536 + 7} {
				var cu []GH
				left := tot + d
				for i := 0; i < n; i++ {
					k := left / (n - i)
					left -= k
					b := make([]byte, k)
					r.Read(b)
					cu = append(cu, GH{id: uint16(100 + i%7), raw: b})
				}
				try(fmt.Sprintf("sum%d/%d/%v", n, d, req), mk(cu...), req)
			}
		}
		for _, n := range []int{10000, 32000, 32700, 33000, 40000, 70000} { // two bytes each
			g := mk()
			g.w.Action = strings.Repeat("x", n)
			try(fmt.Sprintf("action%d/%v", n, req), g, req)
			st := wf.Struct(wf.T("i32"), wf.T("str"))
			try(fmt.Sprintf("object%d/%v", n, req), mk(GH{id: 30000, t: st, v: []wf.V{uint64(1), strings.Repeat("y", n)}}), req)
		}
		// large bodies are none of this
		g := mk()
		g.body = make([]byte, 1<<20)
		r.Read(g.body)
		try(fmt.Sprintf("body/%v", req), g, req)
	}
}

// sortedCu orders custom headers by their ids
func sortedCu(m M) M {
	cu := m["cu"].([]M)
	sort.SliceStable(cu, func(i, j int) bool { return cu[i]["id"].(uint16) < cu[j]["id"].(uint16) })
	return m
}

// rcvBig says what a receiver makes of a large frame: ok, err, none, other
func rcvBig(s []byte, w wcfg, same func(*transport.MessageHeaders, []byte) bool) string {
	fc := NewFConn("local:1", "remote:1")
	var mu sync.Mutex
	got, end := 0, false
	ok := true
	cl, err := transport.Connect(fc, transport.ClientConfig{Config: w.lib(), MessageCallback: func(_ transport.Conn, m *transport.ByteArrayMessage) {
		mu.Lock()
		got++
		ok = ok && same(&m.Headers, m.Body)
		mu.Unlock()
	}})
	if err != nil {
		return "other"
	}
	go func() {
		cl.Wait()
		mu.Lock()
		end = true
		mu.Unlock()
	}()
	fc.chunk = func(avail, want int) int { return 5000 }
	fc.Feed(s, nil)
	quiesce()
	mu.Lock()
	defer mu.Unlock()
	defer func() { go cl.Close() }()
	switch {
	case got == 1 && ok && !end:
		return "ok"
	case got == 0 && end:
		return "err"
	case got == 0:
		return "none"
	}
	return "other"
}

func sameCustom(a, b []Hdr) bool {
	key := func(h []Hdr) string {
		m := map[uint16]string{}
		for _, x := range h {
			m[x.Id] += fmt.Sprintf("%d,", len(x.Data)) + string(x.Data)
		}
		return fmt.Sprintf("%q", m)
	}
	return key(a) == key(b)
}

func init() {
	w := func(f func(*Ctx)) func(*Ctx) {
		return func(c *Ctx) {
			regInit()
			vy.Off()
			f(c)
		}
	}
	drivers["T01"] = w(runT01)
	drivers["T03"] = w(runT03)
	drivers["T04"] = w(runT04)
	drivers["T05"] = w(runT05)
}
