package main

import (
	"encoding/binary"
	"errors"
	"hash/crc32"
	"io"
	"unicode/utf8"

	"phv/wf"

	"github.com/tg123/phabrik/serialization"
	"github.com/tg123/phabrik/transport"
)

var errEOF = io.EOF

func go0(f func()) { go f() }

// MID is a message identity on the wire
type MID struct {
	G [16]byte
	I uint32
}

func (m MID) Empty() bool { return m == MID{} }
func (m MID) Lib() transport.MessageId {
	return transport.MessageId{Id: bytesGuid(m.G), Index: m.I}
}
func midOf(m transport.MessageId) MID { return MID{guidBytes(m.Id), m.Index} }

var _ = serialization.GUID{}

// Hdr is a custom header
type Hdr struct {
	Id   uint16
	Data []byte
}

// WMsg is a message on the wire
type WMsg struct {
	Id, Rel             MID
	HasId               bool
	Actor               int64
	Action              string
	Expects, High, Idem bool
	Err                 int64
	FaultBody           bool
	Retry               int32
	Custom              []Hdr
	Body                []byte
}

const (
	hActor   = 0x8001
	hAction  = 0x8002
	hId      = 0x8003
	hRel     = 0x8004
	hExpects = 0x8005
	hRetry   = 0x8006
	hFault   = 0x8007
	hIdem    = 0x8008
	hHigh    = 0x8009
	hNego    = 0x8048
)

var (
	tyId    = wf.Struct(wf.T("guid"), wf.T("u32"))
	tyI64   = wf.Struct(wf.T("i64"))
	tyStr   = wf.Struct(wf.T("str"))
	tyBool  = wf.Struct(wf.T("bool"))
	tyFault = wf.Struct(wf.T("i64"), wf.T("bool"))
	tyI32   = wf.Struct(wf.T("i32"))
)

func hdr(id uint16, data []byte) []byte {
	b := binary.LittleEndian.AppendUint16(nil, id)
	b = binary.LittleEndian.AppendUint16(b, uint16(len(data)))
	return append(b, data...)
}

// Headers encodes the headers
func (m *WMsg) Headers() []byte {
	var b []byte
	put := func(id uint16, t *wf.Ty, v ...wf.V) { b = append(b, hdr(id, wf.Enc(t, v))...) }
	if m.HasId || !m.Id.Empty() {
		put(hId, tyId, m.Id.G, uint64(m.Id.I))
	}
	if !m.Rel.Empty() {
		put(hRel, tyId, m.Rel.G, uint64(m.Rel.I))
	}
	put(hActor, tyI64, uint64(m.Actor))
	if m.Action != "" {
		put(hAction, tyStr, m.Action)
	}
	if m.Expects {
		put(hExpects, tyBool, true)
	}
	if m.High {
		put(hHigh, tyBool, true)
	}
	if m.Idem {
		put(hIdem, tyBool, true)
	}
	if m.Err != 0 || m.FaultBody {
		put(hFault, tyFault, uint64(m.Err), m.FaultBody)
	}
	if m.Retry != 0 {
		put(hRetry, tyI32, uint64(int64(m.Retry)))
	}
	for _, c := range m.Custom {
		b = append(b, hdr(c.Id, c.Data)...)
	}
	return b
}

func crc8(b []byte) byte {
	var c byte
	for _, x := range b {
		c ^= x
		for i := 0; i < 8; i++ {
			if c&0x80 != 0 {
				c = c<<1 ^ 7
			} else {
				c <<= 1
			}
		}
	}
	return c
}

// Frame options
type FOpt struct {
	Mask  byte
	NoHC  bool
	BC    bool
	Extra func(b []byte) []byte
}

// rawFrame makes a frame of headers and body
func rawFrame(h, body []byte, o FOpt) []byte {
	n := 12 + len(h) + len(body)
	b := binary.LittleEndian.AppendUint32(nil, uint32(n))
	b = append(b, o.Mask, 0)
	b = binary.LittleEndian.AppendUint16(b, uint16(len(h)))
	b = append(b, 0, 0, 0, 0)
	if !o.NoHC {
		b[5] = crc8(b)
	}
	if o.BC {
		c := crc32.NewIEEE()
		c.Write(h)
		c.Write(body)
		binary.LittleEndian.PutUint32(b[8:], c.Sum32())
	}
	b = append(b, h...)
	return append(b, body...)
}

// Frame encodes a message with the default checksums
func (m *WMsg) Frame(o FOpt) []byte { return rawFrame(m.Headers(), m.Body, o) }

// WFrame is a parsed frame
type WFrame struct {
	Len    uint32
	Mask   byte
	HC     byte
	HLen   uint16
	BC     uint32
	HCok   bool
	BCok   bool
	Raw    []byte
	Header []byte
	Msg    *WMsg
}

var errShort = errors.New("short")
var errBad = errors.New("bad")

// parseFrame parses the first frame of b
func parseFrame(b []byte) (*WFrame, int, error) {
	if len(b) < 12 {
		return nil, 0, errShort
	}
	f := &WFrame{Len: binary.LittleEndian.Uint32(b), Mask: b[4], HC: b[5], HLen: binary.LittleEndian.Uint16(b[6:]), BC: binary.LittleEndian.Uint32(b[8:])}
	if f.Len < 12 || f.Len > 64<<20 || int(f.HLen) > int(f.Len)-12 || f.Mask > 4 {
		return nil, 0, errBad
	}
	h := append([]byte{}, b[:12]...)
	h[5], h[8], h[9], h[10], h[11] = 0, 0, 0, 0, 0
	f.HCok = crc8(h) == f.HC
	if len(b) < int(f.Len) {
		return nil, 0, errShort
	}
	f.Raw = b[:f.Len]
	f.BCok = crc32.ChecksumIEEE(b[12:f.Len]) == f.BC
	f.Header = b[12 : 12+int(f.HLen)]
	m, err := parseHeaders(f.Header)
	if err != nil {
		return nil, 0, errBad
	}
	m.Body = append([]byte{}, b[12+int(f.HLen):f.Len]...)
	f.Msg = m
	return f, int(f.Len), nil
}

func parseHeaders(b []byte) (*WMsg, error) {
	m := &WMsg{}
	for len(b) > 0 {
		if len(b) < 4 {
			return nil, errBad
		}
		id, n := binary.LittleEndian.Uint16(b), int(binary.LittleEndian.Uint16(b[2:]))
		if len(b) < 4+n {
			return nil, errBad
		}
		d := b[4 : 4+n]
		b = b[4+n:]
		dec := func(t *wf.Ty) ([]wf.V, error) {
			v, _, err := wf.Dec(t, d)
			if err != nil {
				return nil, err
			}
			return v.([]wf.V), nil
		}
		var v []wf.V
		var err error
		switch id {
		case hId:
			if v, err = dec(tyId); err == nil {
				m.Id, m.HasId = MID{v[0].([16]byte), uint32(v[1].(uint64))}, true
			}
		case hRel:
			if v, err = dec(tyId); err == nil {
				m.Rel = MID{v[0].([16]byte), uint32(v[1].(uint64))}
			}
		case hActor:
			if v, err = dec(tyI64); err == nil {
				m.Actor = int64(v[0].(uint64))
			}
		case hAction:
			if v, err = dec(tyStr); err == nil {
				m.Action = v[0].(string)
			}
		case hExpects, hHigh, hIdem:
			if v, err = dec(tyBool); err == nil {
				x := v[0].(bool)
				switch id {
				case hExpects:
					m.Expects = x
				case hHigh:
					m.High = x
				case hIdem:
					m.Idem = x
				}
			}
		case hFault:
			if v, err = dec(tyFault); err == nil {
				m.Err, m.FaultBody = int64(v[0].(uint64)), v[1].(bool)
			}
		case hRetry:
			if v, err = dec(tyI32); err == nil {
				m.Retry = int32(v[0].(uint64))
			}
		default:
			m.Custom = append(m.Custom, Hdr{id, append([]byte{}, d...)})
		}
		if err != nil {
			return nil, err
		}
	}
	return m, nil
}

// Stream splits what was written into frames
type Stream struct {
	buf []byte
	bad bool
}

// Push returns the frames completed by b; bad: the bytes are no frames
func (s *Stream) Push(b []byte, frame func(*WFrame), bad func()) {
	if s.bad {
		return
	}
	s.buf = append(s.buf, b...)
	for {
		f, n, err := parseFrame(s.buf)
		if err == errShort {
			return
		}
		if err != nil {
			s.bad = true
			bad()
			return
		}
		s.buf = append([]byte{}, s.buf[n:]...)
		frame(f)
	}
}

// mkBody makes a body that identifies its message
func mkBody(tag int) []byte {
	b := binary.LittleEndian.AppendUint32(nil, uint32(tag))
	for i := 0; i < (tag*7)%50; i++ {
		b = append(b, byte(tag+i))
	}
	return b
}

// tagOf a body made by mkBody, else -1
func tagOf(b []byte) int {
	if len(b) < 4 {
		return -1
	}
	tag := int(binary.LittleEndian.Uint32(b))
	if tag < 0 || tag > 1<<20 || string(mkBody(tag)) != string(b) {
		return -1
	}
	return tag
}

func validUTF8(s string) bool { return utf8.ValidString(s) }
