package main

import (
	"encoding/json"
	"fmt"
	"math/rand"
	"reflect"
	"strings"

	"phv/wf"

	"github.com/tg123/phabrik/common"
	"github.com/tg123/phabrik/naming"
	"github.com/tg123/phabrik/transport"
	vy "github.com/tg123/phabrik/verifyield"
)

var (
	tyUri     = wf.Struct(wf.T("i64"), wf.T("str"), wf.T("str"), wf.T("i64"), wf.T("str"), wf.T("i32"), wf.T("str"), wf.T("str"), wf.T("str"), wf.Slice(wf.T("str")))
	tyGateway = wf.Struct(wf.T("str"), wf.Struct(wf.T("nid"), wf.T("u64")), wf.T("str"))
	tyPing    = wf.Struct(tyGateway)
	tyApps    = wf.Slice(wf.Struct(tyUri, wf.T("str"), wf.T("str"), wf.T("i64"), wf.T("i64"), wf.Map(wf.T("str"), wf.T("str"))))
	tyAppRep  = wf.Struct(wf.T("i32"), wf.Ptr(wf.Struct(tyApps)), wf.T("i32"))
	tyGen     = wf.Struct(wf.T("i64"), wf.T("nid"))
	tyVers    = wf.Ptr(wf.Struct(wf.Slice(wf.Struct(wf.T("i64"), wf.T("i64")))))
	tyRS      = wf.Struct(wf.T("bool"), wf.T("bool"), wf.T("str"), wf.Slice(wf.T("str")), wf.T("i64"), wf.T("bool"), wf.Slice(wf.T("str")))
	tyEntry   = wf.Struct(wf.Struct(wf.T("guid")), wf.T("str"), tyRS, wf.T("bool"))
	tyNote    = wf.Struct(wf.Struct(wf.Struct(wf.T("guid"), wf.T("u32")), wf.T("u64")), tyGen, tyVers, wf.Slice(wf.Ptr(wf.Struct(wf.Ptr(tyEntry), wf.T("bool")))))
	tyNoteB   = wf.Struct(wf.Ptr(tyNote))
	tyConnRep = wf.Struct(tyGen, wf.T("i64"), tyGateway)
)

const hClientIdentity = 0x8040

// NamingRig is a naming client with the driver as its gateway
type NamingRig struct {
	*Rig
	fc      *FConn
	nc      *naming.NamingClient
	cl      *transport.Client
	st      Stream
	ids     *ids
	reqID   map[int]MID // n-th request on the wire
	reqAct  map[int]string
	gate    chan struct{}
	blocked bool
}

func (r *NamingRig) onFrame(f *WFrame) {
	m := f.Msg
	if m.Actor == 1 && m.Action == "" { // the connection's own
		return
	}
	if !f.HCok || f.BC != 0 {
		r.Add(M{"e": "junk"})
		return
	}
	id := r.ids.of(m.Id)
	hdr := []int{}
	for _, h := range m.Custom {
		if h.Id == hClientIdentity {
			hdr = wf.Ints(h.Data)
		}
	}
	if m.Action != "ServiceNotificationReply" {
		r.mu.Lock()
		r.reqID[len(r.reqID)+1] = m.Id
		r.reqAct[len(r.reqAct)+1] = m.Action
		r.mu.Unlock()
	}
	r.Add(M{"e": "wr", "m": M{"id": id, "actor": m.Actor, "act": m.Action, "exp": m.Expects, "rel": r.ids.of(m.Rel), "err": b2i(m.Err != 0), "body": wf.Ints(m.Body), "hdr": hdr}})
}

func newNamingRig(s Sched, seed int64) *NamingRig {
	r := &NamingRig{Rig: newRig(s, seed), ids: newIds(), reqID: map[int]MID{}, reqAct: map[int]string{}, gate: make(chan struct{})}
	r.fc = NewFConn("local:1", "remote:1")
	r.fc.onWrite = func(b []byte) { r.st.Push(b, r.onFrame, func() { r.Add(M{"e": "junk"}) }) }
	r.fc.onClose = func() { r.Add(M{"e": "cc"}) }
	var err error
	if r.cl, err = transport.Connect(r.fc, transport.ClientConfig{}); err == nil {
		r.nc, err = naming.NewNamingClient(r.cl)
	}
	if err != nil {
		r.Add(M{"e": "junk", "what": err.Error()})
		return r
	}
	r.nc.OnServiceNotification = func(n *naming.ServiceNotification) {
		v := interface{}(nil)
		if n != nil {
			v = wf.JSON(tyNote, fromGo(tyNote, reflect.ValueOf(n).Elem()))
		}
		r.Add(M{"e": "note", "v": v})
		r.mu.Lock()
		b, g := r.blocked, r.gate
		r.mu.Unlock()
		if b {
			<-g
		}
	}
	return r
}

var uriNames = [][]wf.V{
	{uint64(1), "fabric", "", uint64(0), "", uint64(0), "app/svc", "", "", []wf.V{"app", "svc"}},
	{uint64(1), "fabric", "", uint64(0), "", uint64(0), "app", "", "", []wf.V{"app"}},
	{uint64(0), "", "", uint64(0), "", uint64(0), "", "", "", []wf.V{}},
	{uint64(1), "fabric", "host:19000", uint64(3), "höst", uint64(19000), "a/\U0001f600", "q=1", "frag", []wf.V{"a", "\U0001f600", ""}},
}

var appFilters = []string{"", "fabric:/app", "fabric:/äpp/\U0001f600", strings.Repeat("x", 70)}

func strJSON(s string) interface{} { return wf.JSON(wf.T("str"), s) }

func b2i(b bool) int {
	if b {
		return 1
	}
	return 0
}

func (r *NamingRig) call(k string, a, b int) {
	t := r.newTag()
	ev := M{"e": "callb", "r": t, "k": k, "a": []int{}, "px": false, "po": false}
	var uri common.Uri
	filter := appFilters[a%len(appFilters)]
	px, po := b&1 != 0, b&2 != 0
	switch k {
	case "app":
		ev["a"] = strJSON(filter)
	case "reg":
		v := uriNames[a%len(uriNames)]
		toGo(tyUri, v, reflect.ValueOf(&uri).Elem())
		ev["a"], ev["px"], ev["po"] = wf.JSON(tyUri, v), px, po
	}
	r.Add(ev)
	ctx := r.context(t, b&4 != 0)
	r.goo(func() {
		var err error
		var v interface{} = []int{}
		switch k {
		case "ping":
			var g *naming.GatewayDescription
			if g, err = r.nc.Ping(ctx); err == nil {
				if g == nil {
					err = errInjected
					r.Add(M{"e": "junk"})
				} else {
					v = wf.JSON(tyGateway, fromGo(tyGateway, reflect.ValueOf(g).Elem()))
				}
			}
		case "app":
			var l []naming.ApplicationQueryResult
			if l, err = r.nc.GetApplicationList(ctx, filter); err == nil {
				v = wf.JSON(tyApps, fromGo(tyApps, reflect.ValueOf(l)))
			}
		case "reg":
			var id uint64
			if id, err = r.nc.RegisterFilter(ctx, uri, px, po); err == nil {
				v = wf.JSON(wf.T("u64"), id)
			}
		}
		r.Add(M{"e": "calle", "r": t, "o": outcome(ctx, err), "v": v})
	})
}

// grow adds fields at the end of structs
func grow(r *rand.Rand, t *wf.Ty) *wf.Ty {
	c := *t
	switch t.K {
	case "ptr", "slice", "map":
		c.E = grow(r, t.E)
	case "struct":
		c.F = nil
		for _, f := range t.F {
			c.F = append(c.F, wf.Field{T: grow(r, f.T), Emb: f.Emb})
		}
		if r.Intn(2) == 0 {
			c.F = append(c.F, wf.Field{T: genType(r, 2)})
		}
	}
	return &c
}

// content makes the body of a message, in one of many conditions
func content(rnd *rand.Rand, t *wf.Ty, kind int, fix func(t *wf.Ty, v wf.V)) []byte {
	et := t
	switch kind {
	case 5:
		et = grow(rnd, t)
	case 6:
		et = shrink(rnd, t, 9)
	}
	v := genVal(rnd, et, 3)
	if fix != nil && kind != 6 {
		fix(et, v)
	}
	b := wf.Enc(et, v)
	switch kind {
	case 1:
		b = b[:rnd.Intn(len(b))]
	case 2:
		b = mutate(rnd, b)
	case 3:
		b = nil
	case 4:
		b = make([]byte, rnd.Intn(80))
		rnd.Read(b)
	case 7:
		b = append(b, 1, 2, 3)
	}
	return b
}

// reply to the n-th request on the wire
func (r *NamingRig) reply(n, kind int) {
	r.mu.Lock()
	id, ok := r.reqID[n]
	act := r.reqAct[n]
	r.mu.Unlock()
	if !ok {
		return
	}
	m := &WMsg{Rel: id, Actor: 5}
	ty := wf.Struct(wf.T("i64"))
	var fix func(*wf.Ty, wf.V)
	switch act {
	case "PingRequest":
		m.Action = act
		ty = tyPing
	case "QueryRequest":
		m.Action = []string{"", "QueryReply", "QueryRequest"}[r.rnd.Intn(3)]
		ty = tyAppRep
		fix = func(t *wf.Ty, v wf.V) {
			s := v.([]wf.V)
			s[2] = uint64(0)
			if kind != 13 && kind != 2 && len(s[1].([]wf.V)) == 0 {
				s[1] = []wf.V{genVal(r.rnd, t.F[1].T.E, 3)}
			}
			switch kind {
			case 12: // an error code in the body
				s[2] = uint64([]int64{1, -1, -2147017627}[r.rnd.Intn(3)])
			case 13:
				s[1] = []wf.V{}
			}
		}
	case "NotificationClientConnectionRequest":
		m.Action = "NotificationClientConnectionReply"
		ty = tyConnRep
	case "RegisterServiceNotificationFilterRequest":
		m.Action = "RegisterServiceNotificationFilterReply"
	}
	k := kind
	switch kind {
	case 8: // an error in the headers
		m.Err = []int64{1, -1, -2147017627, 1 << 40}[r.rnd.Intn(4)]
		k = 0
	case 9: // a failure
		m.Action = "ClientOperationFailure"
		ty, fix = wf.Struct(wf.T("i64")), nil
		k = 0
		if r.rnd.Intn(2) == 0 {
			k = 1 + r.rnd.Intn(6)
		}
	case 10: // another action
		m.Action = []string{"", "Foo", "PingReply", "pingrequest", "ServiceNotificationRequest"}[r.rnd.Intn(5)]
		k = 0
	case 11:
		m.Err, m.FaultBody = -5, true
		k = 3
	}
	m.Body = content(r.rnd, ty, k, fix)
	r.feed(m, 0)
}

func (r *NamingRig) feed(m *WMsg, tag int) {
	t := r.newTag()
	if m.Id.Empty() && tag >= 0 {
		m.Id = MID{[16]byte{0xdd, 1}, uint32(t)}
	}
	ev := M{"k": "msg", "id": r.ids.of(m.Id), "rel": r.ids.of(m.Rel), "act": m.Action, "err": b2i(m.Err != 0), "body": wf.Ints(m.Body)}
	r.fc.Feed(m.Frame(FOpt{}), func() { r.Add(M{"e": "feed", "m": ev}) })
}

var otherActions = []string{"Foo", "ServiceNotificationReply", "ServiceNotificationRequest2", "servicenotificationrequest", "ServiceNotification", "PingRequest", "ClientOperationFailure",
	"NotificationClientConnectionRequest", "NotificationClientSynchronizationRequest", "RegisterServiceNotificationFilterReply"}

func (r *NamingRig) do(a Act) {
	if r.hung || r.nc == nil {
		return
	}
	switch a.Op {
	case "wait":
		r.goo(func() { r.cl.Wait() })
	case "ping", "app", "reg":
		r.call(a.Op, a.A, a.B)
	case "reply":
		r.reply(a.A, a.B)
	case "cancel":
		r.cancel(a.A)
	case "note": // B: condition of the body, A: other
		m := &WMsg{Actor: 5, Action: "ServiceNotificationRequest"}
		var fix func(*wf.Ty, wf.V)
		if a.B != 8 {
			fix = func(t *wf.Ty, v wf.V) {
				s := v.([]wf.V)
				if len(s[0].([]wf.V)) == 0 {
					s[0] = []wf.V{genVal(r.rnd, t.F[0].T.E, 3)}
				}
			}
		} else {
			fix = func(t *wf.Ty, v wf.V) { v.([]wf.V)[0] = []wf.V{} }
		}
		m.Body = content(r.rnd, tyNoteB, a.B, fix)
		switch a.A {
		case 1:
			m.Action = otherActions[r.rnd.Intn(len(otherActions))]
		case 2:
			m.Rel = MID{[16]byte{0xcc}, 7}
		case 3:
			m.Actor = 0
		case 4:
			m.Action = ""
		}
		r.feed(m, 0)
	case "eof":
		r.fc.End(errEOF, func() { r.Add(M{"e": "feed", "m": M{"k": "eof"}}) })
	case "close":
		r.goo(func() {
			r.Add(M{"e": "closeb"})
			r.cl.Close()
			r.Add(M{"e": "closee"})
		})
		if a.B != 1 {
			r.settle()
		}
	case "gate":
		r.fc.Gate(true, func() { r.Add(M{"e": "gate"}) })
	case "ungate":
		r.fc.Gate(false, func() { r.Add(M{"e": "ungate"}) })
	case "werr":
		r.fc.FailWrites(errInjected, func() { r.Add(M{"e": "werr"}) })
	case "block":
		r.Add(M{"e": "block"})
		r.mu.Lock()
		r.blocked = true
		r.mu.Unlock()
	case "unblock":
		r.mu.Lock()
		if r.blocked {
			r.blocked = false
			r.Log.Add(M{"e": "unblock"})
			close(r.gate)
			r.gate = make(chan struct{})
		}
		r.mu.Unlock()
	case "q":
		r.quiet()
	default:
		panic("no step " + a.Op)
	}
}

func runNaming(c *Ctx, name string, as []Act, s Sched, seed int64) bool {
	vy.Off()
	r := newNamingRig(s, seed)
	s.start()
	r.do(Act{Op: "wait"})
	for _, a := range as {
		r.do(a)
	}
	r.do(Act{Op: "unblock"})
	r.do(Act{Op: "ungate"})
	vy.Release()
	r.quiet()
	r.do(Act{Op: "close"})
	r.quiet()
	r.end(len(r.st.buf) > 0)
	c.Put(M{"name": name, "acts": fmt.Sprint(as), "sched": fmt.Sprint(s)}, r.Events())
	if r.hung {
		c.Stats["hung"]++
	}
	return !r.hung
}

var namingVocab = map[string]vocab{
	"N01": {"ping*4 app*4 app:1 app:2 reg*2 reply*12 note q*5 cancel*2 close eof gate ungate*2 ping:0,4 app:0,4 werr note:2,0", []string{
		"ping q reply:1,0 q", "app q reply:1,0 q", "app:2 q reply:1,5 q", "ping q reply:1,5 q", "ping ping app q reply:2,0 reply:1,0 reply:3,0 q",
		"ping app q reply:1,8 reply:2,8 q", "ping app reg q reply:1,9 reply:2,9 reply:3,9 q", "ping app q reply:1,10 reply:2,10 q", "app app q reply:1,12 reply:2,13 q",
		"ping app q cancel:1 cancel:2 q reply:1,0 reply:2,0 q", "ping app q close q", "ping app q eof q", "ping:0,4 app:0,4 q", "ping app q reply:1,3 reply:2,3 q",
		"ping app q reply:1,4 reply:2,4 q", "ping app q reply:1,1 reply:2,1 q", "ping app q reply:1,2 reply:2,2 q", "ping app q reply:1,6 reply:2,6 q", "ping app q reply:1,11 reply:2,11 q",
		"ping q reply:1,0 reply:1,8 ping q reply:2,8 q",
	}},
	"N02": {"note*8 note:0,1*2 note:0,2*2 note:0,3 note:0,4 note:0,5*2 note:0,6*2 note:0,7 note:0,8*2 note:1 note:2*2 note:3 note:4 ping reply q*5 block unblock*2 gate ungate*2 close eof werr cancel", []string{
		"note q", "note note note q", "note:0,1 note q", "note:0,8 note q", "note:1 note:2 note:3 note:4 q", "note:1 note:1 note:1 note:1 note:1 note:1 note:1 note q", "block note note q ping q reply:1,0 q note q unblock q", "note:0,5 note:0,6 note:0,7 q",
		"gate note q ungate q", "ping note reply:1,0 note q", "note close:0,1 q", "note eof q", "werr note note q", "ping q note reply:1,10 note q",
	}},
	"N03": {"reg*6 reg:1,1*2 reg:2,2*2 reg:3,3*3 reg:0,4 reply*12 q*6 cancel*2 close eof ping note gate ungate*2 werr", []string{
		"reg q reply:1,0 q reply:2,0 q", "reg:0,0 reg:1,1 reg:2,2 reg:3,3 q reply:1,0 reply:2,0 reply:3,0 reply:4,0 q reply:5,0 reply:6,0 reply:7,0 reply:8,0 q",
		"reg q reply:1,8 q", "reg q reply:1,9 q", "reg q reply:1,0 q reply:2,8 q", "reg q reply:1,0 q reply:2,9 q", "reg q cancel:1 q reply:1,0 q", "reg q reply:1,0 q cancel:1 q", "reg q reply:1,0 cancel:1 q",
		"reg q reply:1,0 q close q", "reg q eof q", "reg:3,3 reg:3,3 q reply:2,0 q reply:3,0 q reply:1,0 q reply:4,0 q", "reg q reply:1,0 q reply:2,0 q reg q reply:3,0 q reply:4,0 q",
		"reg q reply:1,3 q reply:2,3 q", "reg:0,4 q",
	}},
}

func runNamingProp(c *Ctx) {
	v := namingVocab[c.Prop]
	k := 0
	one := func(name string, as []Act, random, pauses int) bool {
		k++
		if (c.Only >= 0 && k != c.Only) || (c.Parts > 1 && k%c.Parts != c.Part) {
			return true
		}
		seed := c.Seed*7919 + int64(k)
		return explore(c, name, seed, random, pauses, func(s Sched) bool { return runNaming(c, name, as, s, seed) })
	}
	for i, b := range v.base {
		for j := 0; j < c.N(3, 10); j++ { // the contents differ
			p := 0
			if j == 0 {
				p = c.N(100, -1)
			}
			if !one(fmt.Sprintf("fixed%d", i), acts(b), c.N(4, 20), p) {
				return
			}
		}
	}
	if c.Gen != "" {
		for i, as := range readGenActs(c.Gen) {
			var rest []Act
			for _, a := range as {
				rest = append(rest, a, Act{Op: "q"})
			}
			if !one(fmt.Sprintf("gen%d", i), rest, 0, 0) {
				return
			}
			if c.Parts <= 1 || k%c.Parts == c.Part {
				c.Stats["generated_replayed"]++
			}
		}
	}
	rnd := c.Rand(17)
	for i := 0; i < c.N(250, 3000); i++ {
		as := genActs(rnd, v, 4+rnd.Intn(12))
		nreg := 0
		for j := range as {
			if as[j].Op == "reg" {
				if nreg++; nreg > 4 {
					as[j].Op = "ping"
				}
			}
			switch as[j].Op {
			case "reply":
				as[j].A = 1 + rnd.Intn(j+2)
				if rnd.Intn(2) == 0 {
					as[j].B = rnd.Intn(14)
				}
			case "wait":
				as[j].Op = "q"
			}
		}
		if !one(fmt.Sprintf("random%d", i), as, c.N(1, 3), c.N(3, 10)) {
			return
		}
	}
}

func init() {
	for p := range namingVocab {
		drivers[p] = runNamingProp
	}
	_ = json.Marshal
}
