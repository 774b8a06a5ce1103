package main

import (
	"context"
	"fmt"
	"sync"

	"github.com/tg123/phabrik/transport"
	vy "github.com/tg123/phabrik/verifyield"
)

// runIds lets many connections and generators assign identities at once
func runIds(c *Ctx, n int, s Sched) {
	vy.Off()
	lg := &Log{}
	d := newIds()
	var wg sync.WaitGroup
	own := func(k int) MID { return MID{[16]byte{0xee, byte(k), byte(k >> 8)}, uint32(k*3 + 1)} }
	frame := func(f *WFrame) {
		if f.Msg.Actor == 77 {
			if k := tagOf(f.Msg.Body); k < 0 {
				lg.Add(M{"e": "junk"})
			} else if f.Msg.Action == "own" {
				lg.Add(M{"e": "own", "id": d.of(f.Msg.Id), "want": d.of(own(k))})
				return
			}
		}
		lg.Add(M{"e": "lib", "id": d.of(f.Msg.Id)})
	}
	s.start()
	var conns []*FConn
	mk := func(k int) *FConn {
		fc := NewFConn("local:1", fmt.Sprintf("remote:%d", k))
		st := &Stream{}
		fc.onWrite = func(b []byte) { st.Push(b, frame, func() { lg.Add(M{"e": "junk"}) }) }
		conns = append(conns, fc)
		return fc
	}
	use := func(k int, cn transport.Conn) {
		for g := 0; g < 3; g++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				for i := 0; i < n; i++ {
					m := &transport.Message{}
					m.Headers.Actor = 77
					m.Headers.Action = "lib"
					t := 1 + k*1000 + g*100 + i
					m.Body = mkBody(t)
					switch {
					case i%4 == 3:
						m.Headers.Action = "own"
						m.Headers.Id = own(t).Lib()
						cn.SendOneWay(m)
					case i%4 == 2:
						ctx, cancel := context.WithCancel(context.Background())
						cancel()
						cn.RequestReply(ctx, m)
					case i%4 == 1 && g == 0:
						ctx, cancel := context.WithCancel(context.Background())
						cancel()
						cn.Ping(ctx)
					default:
						cn.SendOneWay(m)
					}
				}
			}()
		}
	}
	for k := 0; k < 3; k++ {
		cl, err := transport.Connect(mk(k), transport.ClientConfig{})
		if err != nil {
			lg.Add(M{"e": "junk", "what": err.Error()})
			return
		}
		use(k, cl)
	}
	l := NewFListener("local:2")
	k := 10
	var mu sync.Mutex
	srv, err := transport.Listen(l, transport.ServerConfig{MessageCallback: func(cn transport.Conn, m *transport.ByteArrayMessage) {
		mu.Lock()
		k++
		x := k
		mu.Unlock()
		use(x, cn)
		wg.Done()
	}})
	if err != nil {
		return
	}
	go srv.Serve()
	for j := 0; j < 2; j++ {
		fc := mk(20 + j)
		wg.Add(1)
		fc.Feed((&WMsg{Id: MID{[16]byte{1}, 1}, Actor: 77, Action: "go", Body: mkBody(1)}).Frame(FOpt{}), nil)
		l.Push(fc)
	}
	for g := 0; g < 2; g++ {
		gen, err := transport.NewMessageIdGenerator()
		if err != nil {
			lg.Add(M{"e": "junk", "what": err.Error()})
			continue
		}
		for h := 0; h < 3; h++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				for i := 0; i < n; i++ {
					lg.Add(M{"e": "lib", "id": d.of(midOf(gen.Next()))})
				}
			}()
		}
	}
	wg.Wait()
	vy.Off()
	srv.Close()
	for _, fc := range conns {
		fc.Close()
	}
	c.PutM("IdsTrace", M{"n": n, "sched": fmt.Sprint(s)}, lg.Events())
}
