package main

import (
	"bytes"
	"crypto/ecdsa"
	"crypto/elliptic"
	"crypto/rand"
	"crypto/tls"
	"crypto/x509"
	"crypto/x509/pkix"
	"io"
	"math/big"
	"net"
	"sync"
	"time"

	"phv/wf"
)

// SecPeer is the other side of a secure connection: it takes what phabrik
// writes apart into negotiation frames and TLS records, and talks TLS
type SecPeer struct {
	fc   *FConn
	mu   sync.Mutex
	fmu  sync.Mutex // feeds
	cond *sync.Cond

	raw     []byte // not taken apart yet
	in      []byte // for TLS
	isRaw   bool
	eof     bool
	idle    bool
	ended   bool
	done    bool // handshake
	first   bool
	out     []func()
	flush   bool
	capture *[]byte
	nframe  int
	fed     int

	cut     int // feed that many bytes, if not negative
	corrupt int // frame to change, if not negative
	at      int

	onHw    func(actor int64, nego, recs bool)
	onRec   func(t int)
	onHs    func()
	onData  func(b []byte)
	onJunk  func()
	secret  []byte
	seen    []byte
	nsecret int

	conn *tls.Conn
}

func newSecPeer(fc *FConn) *SecPeer {
	p := &SecPeer{fc: fc, cut: -1, corrupt: -1}
	p.cond = sync.NewCond(&p.mu)
	return p
}

// start the handshake
func (p *SecPeer) start(cfg *tls.Config, server bool) {
	if server {
		p.conn = tls.Server(p, cfg)
	} else {
		p.conn = tls.Client(p, cfg)
	}
	go p.run()
}

func (p *SecPeer) run() {
	defer func() {
		p.mu.Lock()
		p.ended = true
		p.cond.Broadcast()
		p.mu.Unlock()
	}()
	if err := p.conn.Handshake(); err != nil {
		return
	}
	p.mu.Lock()
	p.done = true
	p.mu.Unlock()
	p.onHs()
	b := make([]byte, 4096)
	for {
		n, err := p.conn.Read(b)
		if n > 0 {
			p.onData(append([]byte{}, b[:n]...))
		}
		if err != nil {
			return
		}
	}
}

func (p *SecPeer) isDone() bool {
	p.mu.Lock()
	defer p.mu.Unlock()
	return p.done
}

func wholeRecords(b []byte) bool {
	for len(b) > 0 {
		if len(b) < 5 || b[0] < 20 || b[0] > 23 || b[1] != 3 || len(b) < 5+int(b[3])<<8+int(b[4]) {
			return false
		}
		b = b[5+int(b[3])<<8+int(b[4]):]
	}
	return true
}

// push is what phabrik wrote. Returns when TLS has made of it what it can
func (p *SecPeer) push(b []byte) {
	p.mu.Lock()
	if p.secret != nil {
		p.seen = append(p.seen, b...)
		p.nsecret += bytes.Count(p.seen, p.secret)
		if k := len(p.seen) - len(p.secret) + 1; k > 0 {
			p.seen = append([]byte{}, p.seen[k:]...)
		}
	}
	p.raw = append(p.raw, b...)
	var logs []func()
	for len(p.raw) >= 5 {
		b := p.raw
		if p.isRaw || (b[0] >= 20 && b[0] <= 23 && b[1] == 3 && b[2] != 0) {
			p.isRaw = true
			n := 5 + int(b[3])<<8 + int(b[4])
			if len(b) < n {
				break
			}
			t := int(b[0])
			logs = append(logs, func() { p.onRec(t) })
			p.in = append(p.in, b[:n]...)
			p.raw = append([]byte{}, b[n:]...)
			continue
		}
		f, n, err := parseFrame(b)
		if err == errShort {
			break
		}
		if err != nil {
			logs = append(logs, p.onJunk)
			p.raw = nil
			break
		}
		nego := false
		for _, h := range f.Msg.Custom {
			nego = nego || h.Id == hNego
		}
		actor, recs := f.Msg.Actor, wholeRecords(f.Msg.Body)
		logs = append(logs, func() { p.onHw(actor, nego, recs) })
		p.in = append(p.in, f.Msg.Body...)
		p.raw = append([]byte{}, b[n:]...)
	}
	p.mu.Unlock()
	for _, f := range logs {
		f()
	}
	p.mu.Lock()
	if len(p.in) > 0 {
		p.idle = false
		p.cond.Broadcast()
		for p.conn != nil && !p.idle && !p.ended {
			p.cond.Wait()
		}
	}
	p.mu.Unlock()
}

func (p *SecPeer) gone() {
	p.mu.Lock()
	p.eof = true
	p.cond.Broadcast()
	p.mu.Unlock()
}

func (p *SecPeer) Read(b []byte) (int, error) {
	p.mu.Lock()
	defer p.mu.Unlock()
	for {
		if len(p.in) > 0 {
			n := copy(b, p.in)
			p.in = p.in[n:]
			return n, nil
		}
		if p.eof {
			return 0, io.EOF
		}
		p.idle = true
		p.cond.Broadcast()
		p.cond.Wait()
	}
}

func (p *SecPeer) Write(b []byte) (int, error) {
	p.mu.Lock()
	defer p.mu.Unlock()
	d := append([]byte{}, b...)
	if p.capture != nil {
		*p.capture = append(*p.capture, d...)
		return len(b), nil
	}
	if !p.done {
		if p.nframe == p.corrupt && len(d) > 5 {
			d[5+p.at%(len(d)-5)] ^= 1
		}
		p.nframe++
		m := &WMsg{Actor: 35, Body: d}
		if !p.first {
			p.first = true
			m.Custom = []Hdr{{hNego, wf.Enc(wf.Struct(wf.T("bool"), wf.T("bool")), []wf.V{true, true})}}
		}
		d = m.Frame(FOpt{Mask: 1, NoHC: true})
	}
	if p.cut >= 0 {
		if p.fed >= p.cut {
			d = nil
		} else if len(d) > p.cut-p.fed {
			d = d[:p.cut-p.fed]
		}
	}
	p.fed += len(d)
	if len(d) > 0 {
		p.later(func() { p.fc.Feed(d, nil) })
	}
	return len(b), nil
}

// later feeds from another goroutine, in order. Under mu
func (p *SecPeer) later(f func()) {
	p.out = append(p.out, f)
	if p.flush {
		return
	}
	p.flush = true
	go p.drain()
}

func (p *SecPeer) drain() {
	p.fmu.Lock()
	defer p.fmu.Unlock()
	for {
		p.mu.Lock()
		if len(p.out) == 0 {
			p.flush = false
			p.mu.Unlock()
			return
		}
		f := p.out[0]
		p.out = p.out[1:]
		p.mu.Unlock()
		f()
	}
}

// now feeds after what the handshake has fed
func (p *SecPeer) now(f func()) {
	p.mu.Lock()
	p.out = append(p.out, f)
	p.flush = true
	p.mu.Unlock()
	p.drain()
}

// send encrypts b and feeds it
func (p *SecPeer) send(b []byte, log func()) {
	var x []byte
	p.mu.Lock()
	p.capture = &x
	p.mu.Unlock()
	p.conn.Write(b)
	p.mu.Lock()
	p.capture = nil
	p.mu.Unlock()
	p.now(func() { p.fc.Feed(x, log) })
}

func (p *SecPeer) Close() error                       { return nil }
func (p *SecPeer) LocalAddr() net.Addr                { return fakeAddr("peer") }
func (p *SecPeer) RemoteAddr() net.Addr               { return fakeAddr("phabrik") }
func (p *SecPeer) SetDeadline(t time.Time) error      { return nil }
func (p *SecPeer) SetReadDeadline(t time.Time) error  { return nil }
func (p *SecPeer) SetWriteDeadline(t time.Time) error { return nil }

// ------------------------------------------------------------ certificates

var pki struct {
	once                    sync.Once
	pool, other             *x509.CertPool
	server, client, foreign tls.Certificate
}

func makePki() {
	pki.once.Do(func() {
		ca := func(cn string) (*x509.Certificate, *ecdsa.PrivateKey, *x509.CertPool) {
			k, _ := ecdsa.GenerateKey(elliptic.P256(), rand.Reader)
			t := &x509.Certificate{SerialNumber: big.NewInt(1), Subject: pkix.Name{CommonName: cn}, NotBefore: time.Unix(0, 0), NotAfter: time.Now().AddDate(50, 0, 0),
				IsCA: true, BasicConstraintsValid: true, KeyUsage: x509.KeyUsageCertSign}
			d, err := x509.CreateCertificate(rand.Reader, t, t, &k.PublicKey, k)
			if err != nil {
				panic(err)
			}
			c, _ := x509.ParseCertificate(d)
			p := x509.NewCertPool()
			p.AddCert(c)
			return c, k, p
		}
		leaf := func(n int64, c *x509.Certificate, k *ecdsa.PrivateKey) tls.Certificate {
			lk, _ := ecdsa.GenerateKey(elliptic.P256(), rand.Reader)
			t := &x509.Certificate{SerialNumber: big.NewInt(n), Subject: pkix.Name{CommonName: "node"}, DNSNames: []string{"node"}, NotBefore: time.Unix(0, 0), NotAfter: time.Now().AddDate(50, 0, 0),
				KeyUsage: x509.KeyUsageDigitalSignature, ExtKeyUsage: []x509.ExtKeyUsage{x509.ExtKeyUsageServerAuth, x509.ExtKeyUsageClientAuth}}
			d, err := x509.CreateCertificate(rand.Reader, t, c, &lk.PublicKey, k)
			if err != nil {
				panic(err)
			}
			return tls.Certificate{Certificate: [][]byte{d}, PrivateKey: lk}
		}
		c, k, p := ca("ca")
		c2, k2, p2 := ca("other")
		pki.pool, pki.other = p, p2
		pki.server, pki.client, pki.foreign = leaf(2, c, k), leaf(3, c, k), leaf(4, c2, k2)
	})
}

// tlsVariants of configurations. The handshake of a bad one cannot be completed
type tlsVariant struct {
	name           string
	server, client func() *tls.Config
	badS, badC     bool // on the server, on the client
	noC            bool // not with phabrik as the client
}

func tlsVars() []tlsVariant {
	makePki()
	srv := func(v uint16, auth tls.ClientAuthType) func() *tls.Config {
		return func() *tls.Config {
			return &tls.Config{Certificates: []tls.Certificate{pki.server}, MaxVersion: v, ClientAuth: auth, ClientCAs: pki.pool}
		}
	}
	cli := func(v uint16, cert bool) func() *tls.Config {
		return func() *tls.Config {
			c := &tls.Config{RootCAs: pki.pool, ServerName: "node", MaxVersion: v}
			if cert { // asks for tickets
				c.ClientSessionCache = tls.NewLRUClientSessionCache(1)
				c.Certificates = []tls.Certificate{pki.client}
			}
			return c
		}
	}
	const v12, v13 = tls.VersionTLS12, tls.VersionTLS13
	var r []tlsVariant
	for _, v := range []uint16{v13, v12} {
		n := map[uint16]string{v13: "1.3", v12: "1.2"}[v]
		r = append(r,
			tlsVariant{name: n, server: srv(v, tls.NoClientCert), client: cli(v, false)},
			tlsVariant{name: n + " client cert", server: srv(v, tls.RequireAndVerifyClientCert), client: cli(v, true)},
			tlsVariant{name: n + " asks", server: srv(v, tls.RequestClientCert), client: cli(v, false)},
			tlsVariant{name: n + " any", server: srv(v, tls.RequireAnyClientCert), client: cli(v, true)},
			tlsVariant{name: n + " given", server: srv(v, tls.VerifyClientCertIfGiven), client: cli(v, true)},
			tlsVariant{name: n + " mixed", server: srv(v13, tls.NoClientCert), client: cli(v, true)},
		)
		cache := tls.NewLRUClientSessionCache(8)
		cc := func() *tls.Config { c := cli(v, false)(); c.ClientSessionCache = cache; return c }
		var key [32]byte
		ss := func() *tls.Config { c := srv(v, tls.NoClientCert)(); c.SetSessionTicketKeys([][32]byte{key}); return c }
		r = append(r, tlsVariant{name: n + " resumes", server: ss, client: cc})
		rand.Read(key[:])
		r = append(r,
			tlsVariant{name: n + " foreign server", badS: true, badC: true, client: cli(v, false), server: func() *tls.Config {
				c := srv(v, tls.NoClientCert)()
				c.Certificates = []tls.Certificate{pki.foreign}
				return c
			}},
			tlsVariant{name: n + " wrong name", badS: true, badC: true, server: srv(v, tls.NoClientCert), client: func() *tls.Config { c := cli(v, false)(); c.ServerName = "elsewhere"; return c }},
			tlsVariant{name: n + " no client cert", badS: true, badC: v == v12, noC: v == v13, server: srv(v, tls.RequireAndVerifyClientCert), client: cli(v, false)},
			tlsVariant{name: n + " foreign client", badS: true, badC: v == v12, noC: v == v13, server: srv(v, tls.RequireAndVerifyClientCert), client: func() *tls.Config {
				c := cli(v, false)()
				c.Certificates = []tls.Certificate{pki.foreign}
				c.GetClientCertificate = func(*tls.CertificateRequestInfo) (*tls.Certificate, error) { return &pki.foreign, nil }
				return c
			}},
		)
	}
	r = append(r, tlsVariant{name: "1.3 large ticket", client: cli(v13, true), server: func() *tls.Config {
		c := srv(v13, tls.NoClientCert)()
		c.WrapSession = func(tls.ConnectionState, *tls.SessionState) ([]byte, error) { return make([]byte, 5000), nil }
		c.UnwrapSession = func([]byte, tls.ConnectionState) (*tls.SessionState, error) { return nil, nil }
		return c
	}})
	r = append(r, tlsVariant{name: "versions", badS: true, badC: true, server: func() *tls.Config { c := srv(v13, tls.NoClientCert)(); c.MinVersion = v13; return c }, client: cli(v12, false)})
	return r
}
