From ba1bd92542fb22cba68d35eb48c2ddbf0fddcae6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:50:03 +0000
Subject: [PATCH 01/49] fix: serialization: char decoded into uchar field (or
 reverse) panics

reflect panics when SetInt is used on a uint8; report a type mismatch instead.
---
 serialization/unmarshal.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/serialization/unmarshal.go b/serialization/unmarshal.go
index 24f960b..ffef650 100644
--- a/serialization/unmarshal.go
+++ b/serialization/unmarshal.go
@@ -173,10 +173,10 @@ func (s *decodeState) value(meta FabricSerializationType, rv reflect.Value) erro
 			return err
 		}
 
-		switch meta {
-		case FabricSerializationTypeChar:
+		switch {
+		case meta == FabricSerializationTypeChar && rv.Kind() == reflect.Int8:
 			rv.SetInt(int64(v))
-		case FabricSerializationTypeUChar:
+		case meta == FabricSerializationTypeUChar && rv.Kind() == reflect.Uint8:
 			rv.SetUint(uint64(v))
 		default:
 			return fmt.Errorf("expect char/uchar got %v", meta)
-- 
2.43.0


From ec8fd3dd1e83956f9dc08aaab8334821973caada Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:50:04 +0000
Subject: [PATCH 02/49] fix: serialization: string and array lengths beyond the
 input allocate gigabytes

A few corrupt bytes could make the decoder allocate up to 4G elements before
noticing that the input is too short.
---
 serialization/unmarshal.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/serialization/unmarshal.go b/serialization/unmarshal.go
index ffef650..1827bd5 100644
--- a/serialization/unmarshal.go
+++ b/serialization/unmarshal.go
@@ -232,6 +232,10 @@ func (s *decodeState) value(meta FabricSerializationType, rv reflect.Value) erro
 			return err
 		}
 
+		if int64(len)*2 > int64(s.inner.Len()) {
+			return fmt.Errorf("string length %v exceeds input", len)
+		}
+
 		body := make([]uint16, len) // wchar
 
 		err = binary.Read(s.inner, binary.LittleEndian, &body)
@@ -305,6 +309,11 @@ func (s *decodeState) value(meta FabricSerializationType, rv reflect.Value) erro
 			return err
 		}
 
+		// every element takes at least its type meta
+		if len > s.inner.Len() {
+			return fmt.Errorf("array length %v exceeds input", len)
+		}
+
 		objs := reflect.MakeSlice(reflect.SliceOf(rv.Type().Elem()), len, len)
 
 		for i := 0; i < len; i++ {
-- 
2.43.0


From 676b9192ef8b5f21588e2a75f3d3dbc622dcbc44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:50:04 +0000
Subject: [PATCH 03/49] fix: serialization: object size smaller than its
 content rewinds the decoder

A corrupt size made the decoder seek backwards and decode the same bytes again,
which takes exponential time on nested pointers.
---
 serialization/unmarshal.go | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/serialization/unmarshal.go b/serialization/unmarshal.go
index 1827bd5..4dd652c 100644
--- a/serialization/unmarshal.go
+++ b/serialization/unmarshal.go
@@ -128,7 +128,17 @@ func (s *decodeState) consumeObjectEnd(meta FabricSerializationType, endpos int6
 		return nil
 	}
 
-	_, err := s.inner.Seek(endpos, io.SeekStart)
+	curpos, err := s.inner.Seek(0, io.SeekCurrent)
+	if err != nil {
+		return err
+	}
+
+	// scope end is either still ahead or was just consumed
+	if endpos < curpos-1 {
+		return fmt.Errorf("object size smaller than its content")
+	}
+
+	_, err = s.inner.Seek(endpos, io.SeekStart)
 	if err != nil {
 		return err
 	}
-- 
2.43.0


From 3dd0c4b6d61094a3b2da40201acf4a2e59166592 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:50:05 +0000
Subject: [PATCH 04/49] fix: serialization: embedded fields that are not
 structs are silently dropped

Embedded pointers and named scalars were left out of the encoding.
---
 serialization/common.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/serialization/common.go b/serialization/common.go
index e5a6c38..aeeb23d 100644
--- a/serialization/common.go
+++ b/serialization/common.go
@@ -70,7 +70,7 @@ func allFields(rv reflect.Value) []reflect.Value {
 			continue
 		}
 
-		if ft.Anonymous {
+		if ft.Anonymous && fv.Kind() == reflect.Struct {
 			fields = append(fields, allFields(fv)...)
 		} else {
 			fields = append(fields, fv)
-- 
2.43.0


From 01fbf1239c8432906704c51c703f3de0f57bf32c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:50:06 +0000
Subject: [PATCH 05/49] fix: serialization: WriteCompressedUInt32(0) of a
 custom marshaler writes nothing

ReadCompressedUInt32 then consumes the byte that follows.
---
 serialization/marshal.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/serialization/marshal.go b/serialization/marshal.go
index 7c52f6d..7484bfd 100644
--- a/serialization/marshal.go
+++ b/serialization/marshal.go
@@ -22,6 +22,11 @@ func (s *encodeState) WriteBinary(v interface{}) error {
 }
 
 func (s *encodeState) WriteCompressedUInt32(v uint32) error {
+	if v == 0 {
+		// zero has no groups, but ReadCompressedUInt32 expects at least one
+		return s.buf.WriteByte(0)
+	}
+
 	return s.writeCompressedUint32(v)
 }
 
-- 
2.43.0


From 3d609be68a171a9858511380d590daa742d988cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:51:13 +0000
Subject: [PATCH 06/49] fix: serialization: integers that do not fit the field
 are silently truncated

---
 serialization/unmarshal.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/serialization/unmarshal.go b/serialization/unmarshal.go
index 4dd652c..6e63410 100644
--- a/serialization/unmarshal.go
+++ b/serialization/unmarshal.go
@@ -201,6 +201,10 @@ func (s *decodeState) value(meta FabricSerializationType, rv reflect.Value) erro
 				return err
 			}
 
+			if rv.OverflowUint(v) {
+				return fmt.Errorf("value %v overflows %v", v, rv.Kind())
+			}
+
 			rv.SetUint(v)
 		default:
 			return fmt.Errorf("expect uint got %v", meta)
@@ -213,6 +217,10 @@ func (s *decodeState) value(meta FabricSerializationType, rv reflect.Value) erro
 				return err
 			}
 
+			if rv.OverflowInt(v) {
+				return fmt.Errorf("value %v overflows %v", v, rv.Kind())
+			}
+
 			rv.SetInt(v)
 		default:
 			return fmt.Errorf("expect int got %v", meta)
-- 
2.43.0


From c4c84227bfd15f1dda863509c03f1cc3c0fb6e4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:51:14 +0000
Subject: [PATCH 07/49] fix: transport: bad frame length allocates up to 4G

A length below the size of the frame header wraps around, and a large one was
allocated before any of its bytes arrived.
---
 transport/frame.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/transport/frame.go b/transport/frame.go
index 83aafc8..f9b1623 100644
--- a/transport/frame.go
+++ b/transport/frame.go
@@ -61,13 +61,19 @@ func nextFrame(r io.Reader, config frameReadConfig) (*frameheader, []byte, error
 		}
 	}
 
-	body := make([]byte, header.FrameLength-uint32(sizeOfFrameheader))
+	if header.FrameLength < uint32(sizeOfFrameheader) {
+		return nil, nil, fmt.Errorf("bad frame length %v", header.FrameLength)
+	}
 
-	_, err = io.ReadFull(r, body)
+	// grow with the data received, the length is not trusted
+	var bodybuf bytes.Buffer
+	_, err = io.CopyN(&bodybuf, r, int64(header.FrameLength)-int64(sizeOfFrameheader))
 	if err != nil {
 		return nil, nil, err
 	}
 
+	body := bodybuf.Bytes()
+
 	if config.CheckFrameBodyCRC {
 		if header.FrameBodyCRC != crc32.Checksum(body, crc32.IEEETable) {
 			return nil, nil, fmt.Errorf("frame body crc32 check fail")
-- 
2.43.0


From c90f70025c3efc9e8f446f4edd4c50c636ca7a07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:51:15 +0000
Subject: [PATCH 08/49] fix: transport: header length beyond the frame panics
 the receive loop

---
 transport/frame.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/transport/frame.go b/transport/frame.go
index f9b1623..0329ed0 100644
--- a/transport/frame.go
+++ b/transport/frame.go
@@ -74,6 +74,10 @@ func nextFrame(r io.Reader, config frameReadConfig) (*frameheader, []byte, error
 
 	body := bodybuf.Bytes()
 
+	if int(header.HeaderLength) > len(body) {
+		return nil, nil, fmt.Errorf("header length %v exceeds frame body %v", header.HeaderLength, len(body))
+	}
+
 	if config.CheckFrameBodyCRC {
 		if header.FrameBodyCRC != crc32.Checksum(body, crc32.IEEETable) {
 			return nil, nil, fmt.Errorf("frame body crc32 check fail")
-- 
2.43.0


From 973a04b9c18548ff4deb74e1c95f0fecac27b434 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:51:15 +0000
Subject: [PATCH 09/49] fix: transport: message header cut after its id or size
 is taken as end of headers

---
 transport/messageheaders.go | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/transport/messageheaders.go b/transport/messageheaders.go
index 0ccdc77..e87e035 100644
--- a/transport/messageheaders.go
+++ b/transport/messageheaders.go
@@ -240,19 +240,28 @@ func nextMessageHeader(stream io.Reader) (MessageHeaderIdType, []byte, error) {
 	var size uint16
 	err = binary.Read(stream, binary.LittleEndian, &size)
 	if err != nil {
-		return MessageHeaderIdTypeInvalid, nil, err
+		return MessageHeaderIdTypeInvalid, nil, truncatedHeader(err)
 	}
 
 	body := make([]byte, size)
 
 	_, err = io.ReadFull(stream, body)
 	if err != nil {
-		return MessageHeaderIdTypeInvalid, nil, err
+		return MessageHeaderIdTypeInvalid, nil, truncatedHeader(err)
 	}
 
 	return id, body, nil
 }
 
+// truncatedHeader turns EOF, which is only the end of headers in front of a header id, into an error
+func truncatedHeader(err error) error {
+	if err == io.EOF {
+		return io.ErrUnexpectedEOF
+	}
+
+	return err
+}
+
 func parseFabricMessageHeaders(r io.Reader) (*MessageHeaders, error) {
 
 	headers := MessageHeaders{
-- 
2.43.0


From 244597321493239085dc57b38652acaf2e1026cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:51:16 +0000
Subject: [PATCH 10/49] fix: transport: headers larger than 64K are sent with a
 truncated length

---
 transport/frame.go          | 5 +++++
 transport/messageheaders.go | 5 +++++
 2 files changed, 10 insertions(+)

diff --git a/transport/frame.go b/transport/frame.go
index 0329ed0..330707e 100644
--- a/transport/frame.go
+++ b/transport/frame.go
@@ -6,6 +6,7 @@ import (
 	"fmt"
 	"hash/crc32"
 	"io"
+	"math"
 
 	"github.com/sigurn/crc8"
 )
@@ -97,6 +98,10 @@ type frameWriteConfig struct {
 
 func writeFrame(w io.Writer, headerLen int, msg []byte, config frameWriteConfig) error {
 
+	if headerLen > math.MaxUint16 {
+		return fmt.Errorf("message headers too large: %v bytes", headerLen)
+	}
+
 	tcpheader := &frameheader{
 		FrameLength:          uint32(sizeOfFrameheader + len(msg)),
 		SecurityProviderMask: uint8(config.SecurityProviderMask),
diff --git a/transport/messageheaders.go b/transport/messageheaders.go
index e87e035..360921f 100644
--- a/transport/messageheaders.go
+++ b/transport/messageheaders.go
@@ -4,6 +4,7 @@ import (
 	"encoding/binary"
 	"fmt"
 	"io"
+	"math"
 
 	"github.com/tg123/phabrik/serialization"
 )
@@ -221,6 +222,10 @@ func writeMessageHeader(w io.Writer, id MessageHeaderIdType, headerbody interfac
 		}
 	}
 
+	if len(b) > math.MaxUint16 {
+		return fmt.Errorf("message header %v too large: %v bytes", id, len(b))
+	}
+
 	if err := binary.Write(w, binary.LittleEndian, uint16(len(b))); err != nil {
 		return err
 	}
-- 
2.43.0


From 046ae4bf4380b995ca313ba059d03d8145dd86d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:51:17 +0000
Subject: [PATCH 11/49] fix: transport: frames of concurrent senders interleave

The frame header and its content were written separately without a lock.
---
 transport/frame.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/transport/frame.go b/transport/frame.go
index 330707e..103b3c7 100644
--- a/transport/frame.go
+++ b/transport/frame.go
@@ -124,11 +124,15 @@ func writeFrame(w io.Writer, headerLen int, msg []byte, config frameWriteConfig)
 		tcpheader.FrameBodyCRC = crc32.Checksum(msg, crc32.IEEETable)
 	}
 
-	err = binary.Write(w, binary.LittleEndian, tcpheader)
+	b.Reset()
+	err = binary.Write(&b, binary.LittleEndian, tcpheader)
 	if err != nil {
 		return err
 	}
 
-	_, err = w.Write(msg)
+	b.Write(msg)
+
+	// one write per frame, otherwise frames of concurrent senders interleave
+	_, err = w.Write(b.Bytes())
 	return err
 }
-- 
2.43.0


From 67f400e348649ff3f41f00143860b747e44a0cf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:51:18 +0000
Subject: [PATCH 12/49] fix: transport: reply racing with a cancelled request
 blocks the receive loop forever

Feed takes the request out of the table and then hands over on an unbuffered
channel that nobody may be reading any more.
---
 transport/requesttable.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/transport/requesttable.go b/transport/requesttable.go
index bcc6a47..54ed096 100644
--- a/transport/requesttable.go
+++ b/transport/requesttable.go
@@ -59,7 +59,7 @@ func (r *RequestTable) Put(msg *Message) *PendingRequest {
 	p := &PendingRequest{
 		parent: r,
 		id:     id,
-		ch:     make(chan *ByteArrayMessage),
+		ch:     make(chan *ByteArrayMessage, 1), // Feed must not block when the waiter is gone
 	}
 	r.table.Store(id, p)
 	return p
-- 
2.43.0


From d9b39223fb180a3546ced246e1ac6413bbadf6d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:51:18 +0000
Subject: [PATCH 13/49] fix: transport: unsolicited heartbeat response crashes
 the process on close

The response was sent to an unbuffered channel that Close closes: without a
waiting ping it blocked, failed the next ping as out of order, and panicked with
send on closed channel when the connection closed. Pings also waited for each
other regardless of their context.
---
 transport/conn.go | 33 ++++++++++++++++++++-------------
 1 file changed, 20 insertions(+), 13 deletions(-)

diff --git a/transport/conn.go b/transport/conn.go
index 541b584..38886f6 100644
--- a/transport/conn.go
+++ b/transport/conn.go
@@ -35,8 +35,8 @@ type connection struct {
 	messageCallback MessageCallback
 	conn            net.Conn
 	requestTable    RequestTable
-	pinglock        sync.Mutex
-	pingCh          chan int64
+	pings           sync.Map // time tick -> chan struct{} of the waiting Ping
+	closed          chan struct{}
 	msgfac          *messageFactory
 
 	frameRCfg frameReadConfig
@@ -54,7 +54,7 @@ func newConnection(config Config) (*connection, error) {
 
 	c := &connection{
 		msgfac: mf,
-		pingCh: make(chan int64),
+		closed: make(chan struct{}),
 	}
 
 	c.frameWCfg.SecurityProviderMask = securityProviderNone
@@ -132,7 +132,7 @@ func (c *connection) Close() error {
 	err := c.conn.Close()
 
 	c.closeOnce.Do(func() {
-		close(c.pingCh)
+		close(c.closed)
 		c.requestTable.Close()
 	})
 
@@ -144,12 +144,18 @@ type heartbeat struct {
 }
 
 func (c *connection) Ping(ctx context.Context) (time.Duration, error) {
-	c.pinglock.Lock()
-	defer c.pinglock.Unlock()
-
 	var b heartbeat
 	b.HeartbeatTimeTick = time.Now().UnixNano()
 
+	pong := make(chan struct{})
+	for {
+		if _, found := c.pings.LoadOrStore(b.HeartbeatTimeTick, pong); !found {
+			break
+		}
+		b.HeartbeatTimeTick++
+	}
+	defer c.pings.Delete(b.HeartbeatTimeTick)
+
 	msg := c.msgfac.newMessage()
 	msg.Headers.Actor = MessageActorTypeTransport
 	msg.Headers.HighPriority = true
@@ -164,11 +170,10 @@ func (c *connection) Ping(ctx context.Context) (time.Duration, error) {
 	select {
 	case <-ctx.Done():
 		return -1, ctx.Err()
-	case t := <-c.pingCh:
-		if t != b.HeartbeatTimeTick {
-			return -1, fmt.Errorf("heartbeak time tick out of order")
-		}
-		return time.Since(time.Unix(0, t)), nil
+	case <-c.closed:
+		return -1, fmt.Errorf("connection closed")
+	case <-pong:
+		return time.Since(time.Unix(0, b.HeartbeatTimeTick)), nil
 	}
 }
 
@@ -193,7 +198,9 @@ func (c *connection) handleTransportMessage(msg *ByteArrayMessage) error {
 			return err
 		}
 
-		c.pingCh <- b.HeartbeatTimeTick
+		if pong, ok := c.pings.LoadAndDelete(b.HeartbeatTimeTick); ok {
+			close(pong.(chan struct{}))
+		}
 	default:
 	}
 	return nil
-- 
2.43.0


From 15d675490e19d11aa1d9d754c7bccd474f64f1a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:51:19 +0000
Subject: [PATCH 14/49] fix: transport: Wait returns nil when the peer rejected
 the connection

---
 transport/conn.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/transport/conn.go b/transport/conn.go
index 38886f6..fb61266 100644
--- a/transport/conn.go
+++ b/transport/conn.go
@@ -279,7 +279,8 @@ func (c *connection) Wait() error {
 				serialization.Unmarshal(body, &b) // ignore error
 				c.fatalerr = fmt.Errorf("connection auth failure, error code [%v], msg [%v]", headers.ErrorCode, b.Message)
 
-				return c.Close()
+				c.Close()
+				return c.fatalerr
 			}
 		}
 
-- 
2.43.0


From 3c04be25f2f5a3b0b05d3acb2aaef32c8d5c601e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:51:20 +0000
Subject: [PATCH 15/49] fix: transport: write errors during the TLS handshake
 are ignored

---
 transport/tls.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/transport/tls.go b/transport/tls.go
index 7813d81..c5f34ea 100644
--- a/transport/tls.go
+++ b/transport/tls.go
@@ -85,7 +85,7 @@ func (c *fabricSecureConn) Write(b []byte) (n int, err error) {
 			})
 		}
 
-		if writeMessageWithFrame(c.rawconn, msg, c.frameWCfg); err != nil {
+		if err := writeMessageWithFrame(c.rawconn, msg, c.frameWCfg); err != nil {
 			return 0, err
 		}
 
-- 
2.43.0


From ccb0623f139bcee79ae1202693a879cae0124b53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:51:20 +0000
Subject: [PATCH 16/49] fix: transport: DialTCP leaks the connection when the
 handshake fails

---
 transport/client.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/transport/client.go b/transport/client.go
index f7d9cc0..3c22e6c 100644
--- a/transport/client.go
+++ b/transport/client.go
@@ -20,7 +20,13 @@ func DialTCP(addr string, config ClientConfig) (*Client, error) {
 		return nil, err
 	}
 
-	return Connect(conn, config)
+	c, err := Connect(conn, config)
+	if err != nil {
+		conn.Close()
+		return nil, err
+	}
+
+	return c, nil
 }
 
 func Connect(conn net.Conn, config ClientConfig) (*Client, error) {
-- 
2.43.0


From fb07cdf3731b90f6885bb75435ab85c9c1c16c90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:51:21 +0000
Subject: [PATCH 17/49] fix: transport: pipe leaks the upstream connection when
 it fails early

---
 transport/piper.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/transport/piper.go b/transport/piper.go
index 5935cfa..6e3fa03 100644
--- a/transport/piper.go
+++ b/transport/piper.go
@@ -56,6 +56,7 @@ func (p *Piper) handle(conn net.Conn) error {
 
 	u, err := tapClientConn(rawu, uc)
 	if err != nil {
+		rawu.Close()
 		return err
 	}
 
@@ -65,6 +66,7 @@ func (p *Piper) handle(conn net.Conn) error {
 			Headers: *headers,
 			Body:    body,
 		}); err != nil {
+			u.Close()
 			return nil
 		}
 	}
-- 
2.43.0


From 19a6a6230ea08cceef8be59b40726db7f19e8359 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:51:22 +0000
Subject: [PATCH 18/49] fix: transport: AppendCustomHeader drops headers when
 the type is already present

Only the first partner record of a federation message was ever sent.
---
 transport/messageheaders.go | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/transport/messageheaders.go b/transport/messageheaders.go
index 360921f..edf77fc 100644
--- a/transport/messageheaders.go
+++ b/transport/messageheaders.go
@@ -107,12 +107,8 @@ func (h *MessageHeaders) AppendCustomHeader(typ MessageHeaderIdType, header ...i
 		h.customHeaders = make(map[MessageHeaderIdType][]interface{})
 	}
 
-	if _, ok := h.customHeaders[typ]; !ok {
-		h.customHeaders[typ] = append(h.customHeaders[typ], header...)
-		return true
-	}
-
-	return false
+	h.customHeaders[typ] = append(h.customHeaders[typ], header...)
+	return true
 }
 
 func (h *MessageHeaders) writeTo(w io.Writer) error {
-- 
2.43.0


From 26a84340232933a2fe83f873001a236e75515176 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:45 +0000
Subject: [PATCH 19/49] fix: transport: negative retry count is not sent

RetryCount is a signed field, a message with a negative one arrived with 0.
---
 transport/messageheaders.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/transport/messageheaders.go b/transport/messageheaders.go
index edf77fc..cdaff7e 100644
--- a/transport/messageheaders.go
+++ b/transport/messageheaders.go
@@ -183,7 +183,7 @@ func (h *MessageHeaders) writeTo(w io.Writer) error {
 		}
 	}
 
-	if h.RetryCount > 0 {
+	if h.RetryCount != 0 {
 		if err := writeMessageHeader(w, MessageHeaderIdTypeRetry, &struct {
 			RetryCount int32
 		}{
-- 
2.43.0


From 2dab4a30b7acdcc4ad8f37360bcd1151e8234351 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:45 +0000
Subject: [PATCH 20/49] fix: transport: session tickets break TLS connections
 with client certificates

A TLS 1.3 server asking for client certificates sends its session tickets
while its handshake is not yet complete, so they were wrapped in negotiation
frames, but the client had completed its handshake and failed reading them.
---
 transport/tls.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/transport/tls.go b/transport/tls.go
index c5f34ea..36eeac9 100644
--- a/transport/tls.go
+++ b/transport/tls.go
@@ -42,6 +42,13 @@ func createTlsClientConn(conn net.Conn, mf *messageFactory, tlsconf *tls.Config)
 }
 
 func createTlsServerConn(conn net.Conn, mf *messageFactory, tlsconf *tls.Config, initbuf []byte) (*tls.Conn, error) {
+	if tlsconf.ClientAuth != tls.NoClientCert {
+		// tls 1.3 sends session tickets after the client certificate, when the client
+		// has completed the handshake already and does not expect negotiation frames
+		tlsconf = tlsconf.Clone()
+		tlsconf.SessionTicketsDisabled = true
+	}
+
 	return createTlsConn(conn, mf, tlsconf, tls.Server, initbuf)
 }
 
-- 
2.43.0


From 7749f07e06edb38eb8c1749a80bdcb827cccf19e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:46 +0000
Subject: [PATCH 21/49] fix: transport: pipe checks the first frame regardless
 of its configuration

Negotiation frames of TLS clients carry no checksum, so no TLS client could
connect through a pipe, and checksum options did not apply to the first frame.
---
 transport/piper.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/transport/piper.go b/transport/piper.go
index 6e3fa03..84f6edf 100644
--- a/transport/piper.go
+++ b/transport/piper.go
@@ -36,8 +36,8 @@ func (p *Piper) handle(conn net.Conn) error {
 	defer conn.Close()
 
 	headers, body, err := nextMessageHeaderAndBodyFromFrame(conn, frameReadConfig{
-		CheckFrameHeaderCRC: true,
-		CheckFrameBodyCRC:   false,
+		CheckFrameHeaderCRC: p.config.TLS == nil && !p.config.DisableCheckFrameHeaderCRC,
+		CheckFrameBodyCRC:   p.config.TLS == nil && p.config.CheckFrameBodyCRC,
 	})
 
 	if err != nil {
-- 
2.43.0


From 9506c69de45d376e6bde83af7c162f70f5c5febe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:47 +0000
Subject: [PATCH 22/49] fix: transport: rejection error is read by senders
 without synchronisation

---
 transport/conn.go | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/transport/conn.go b/transport/conn.go
index fb61266..e778b9a 100644
--- a/transport/conn.go
+++ b/transport/conn.go
@@ -6,6 +6,7 @@ import (
 	"fmt"
 	"net"
 	"sync"
+	"sync/atomic"
 	"time"
 
 	"github.com/tg123/phabrik/serialization"
@@ -43,7 +44,7 @@ type connection struct {
 	frameWCfg frameWriteConfig
 
 	closeOnce sync.Once
-	fatalerr  error
+	fatalerr  atomic.Value // error, why the peer rejected the connection
 }
 
 func newConnection(config Config) (*connection, error) {
@@ -277,10 +278,11 @@ func (c *connection) Wait() error {
 				}
 
 				serialization.Unmarshal(body, &b) // ignore error
-				c.fatalerr = fmt.Errorf("connection auth failure, error code [%v], msg [%v]", headers.ErrorCode, b.Message)
+				err := fmt.Errorf("connection auth failure, error code [%v], msg [%v]", headers.ErrorCode, b.Message)
+				c.fatalerr.Store(err)
 
 				c.Close()
-				return c.fatalerr
+				return err
 			}
 		}
 
@@ -293,8 +295,8 @@ func (c *connection) Wait() error {
 }
 
 func (c *connection) SendOneWay(message *Message) error {
-	if c.fatalerr != nil {
-		return c.fatalerr
+	if err, ok := c.fatalerr.Load().(error); ok {
+		return err
 	}
 	c.msgfac.fillMessageId(message)
 	return c.writeMessageWithFrame(message)
-- 
2.43.0


From d70c8ea1b5901bf582c72baa7e721f727fd17e72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:43 +0000
Subject: [PATCH 23/49] fix: serialization: lengths beyond 32 bits are silently
 truncated

---
 serialization/unmarshal.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/serialization/unmarshal.go b/serialization/unmarshal.go
index 6e63410..6e1fb23 100644
--- a/serialization/unmarshal.go
+++ b/serialization/unmarshal.go
@@ -5,6 +5,7 @@ import (
 	"encoding/binary"
 	"fmt"
 	"io"
+	"math"
 	"reflect"
 	"unicode/utf16"
 )
@@ -39,6 +40,10 @@ func (s *decodeState) ReadCompressedUInt32() (uint32, error) {
 
 func (s *decodeState) readCompressedUInt32() (uint32, error) {
 	v, err := s.readCompressedUnsigned(binary.Size(uint32(1)))
+	if err == nil && v > math.MaxUint32 {
+		return 0, fmt.Errorf("value %v overflows uint32", v)
+	}
+
 	return uint32(v), err
 }
 
-- 
2.43.0


From 3f84583348438c8bcad053a21ee0e2ebfd59414f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:58 +0000
Subject: [PATCH 24/49] fix: serialization: nesting of recursive types
 overflows the stack

A few megabytes decoded into a struct with a pointer to its own type ended
the process with a stack overflow, which cannot be recovered from.
---
 serialization/unmarshal.go | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/serialization/unmarshal.go b/serialization/unmarshal.go
index 6e1fb23..8798044 100644
--- a/serialization/unmarshal.go
+++ b/serialization/unmarshal.go
@@ -10,6 +10,9 @@ import (
 	"unicode/utf16"
 )
 
+// nesting of the values beyond this is refused, input must not exhaust the stack
+const maxDepth = 100000
+
 type decodeState struct {
 	inner *bytes.Reader
 }
@@ -159,7 +162,11 @@ func (s *decodeState) consumeObjectEnd(meta FabricSerializationType, endpos int6
 	return nil
 }
 
-func (s *decodeState) value(meta FabricSerializationType, rv reflect.Value) error {
+func (s *decodeState) value(meta FabricSerializationType, rv reflect.Value, depth int) error {
+	if depth > maxDepth {
+		return fmt.Errorf("exceeded max depth")
+	}
+
 	if IsEmptyMeta(meta) {
 
 		// bool is alway empty
@@ -276,7 +283,7 @@ func (s *decodeState) value(meta FabricSerializationType, rv reflect.Value) erro
 			return err
 		}
 
-		if err := s.value(objmeta, reflect.Indirect(ptr)); err != nil {
+		if err := s.value(objmeta, reflect.Indirect(ptr), depth+1); err != nil {
 			return err
 		}
 
@@ -302,7 +309,7 @@ func (s *decodeState) value(meta FabricSerializationType, rv reflect.Value) erro
 				break
 			}
 
-			err = s.value(meta, field)
+			err = s.value(meta, field, depth+1)
 			if err != nil {
 				return err
 			}
@@ -346,7 +353,7 @@ func (s *decodeState) value(meta FabricSerializationType, rv reflect.Value) erro
 				return err
 			}
 
-			err = s.value(meta, objs.Index(i))
+			err = s.value(meta, objs.Index(i), depth+1)
 
 			if err != nil {
 				return err
@@ -370,7 +377,7 @@ func (s *decodeState) value(meta FabricSerializationType, rv reflect.Value) erro
 		})
 
 		entries := reflect.Indirect(reflect.New(reflect.SliceOf(sliceTyp)))
-		err := s.value(meta, entries)
+		err := s.value(meta, entries, depth+1)
 		if err != nil {
 			return err
 		}
@@ -408,5 +415,5 @@ func Unmarshal(data []byte, v interface{}) error {
 		return err
 	}
 
-	return d.value(meta, rv)
+	return d.value(meta, rv, 0)
 }
-- 
2.43.0


From 037581fc837bf7d4e6f88444ffef7138b15ce9da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:40 +0000
Subject: [PATCH 25/49] fix: serialization: exported fields of unexported
 embedded structs are silently dropped

---
 serialization/common.go | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/serialization/common.go b/serialization/common.go
index aeeb23d..548fb2f 100644
--- a/serialization/common.go
+++ b/serialization/common.go
@@ -66,13 +66,10 @@ func allFields(rv reflect.Value) []reflect.Value {
 		ft := typ.Field(i)
 		fv := rv.Field(i)
 
-		if !fv.CanSet() {
-			continue
-		}
-
 		if ft.Anonymous && fv.Kind() == reflect.Struct {
+			// exported fields of an unexported embedded struct can be set
 			fields = append(fields, allFields(fv)...)
-		} else {
+		} else if fv.CanSet() {
 			fields = append(fields, fv)
 		}
 	}
-- 
2.43.0


From 51ba58d1877e72dd02b958f308248ef877d1eb26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:20 +0000
Subject: [PATCH 26/49] fix: lease: bad frame sizes and connect frames crash
 the agent

A frame size below the frame header underflowed, any size was allocated
before it was received, and a long sequence of connect frames overflowed the
stack. The payload of a connect frame was taken as the next frame.
---
 lease/frame.go | 46 +++++++++++++++++++++++++++++-----------------
 1 file changed, 29 insertions(+), 17 deletions(-)

diff --git a/lease/frame.go b/lease/frame.go
index b167e09..bb1e3ac 100644
--- a/lease/frame.go
+++ b/lease/frame.go
@@ -1,6 +1,7 @@
 package lease
 
 import (
+	"bytes"
 	"encoding/binary"
 	"fmt"
 	"io"
@@ -24,27 +25,38 @@ type ltFrameHeader struct {
 var sizeOfLtFrameheader = binary.Size(ltFrameHeader{})
 
 func nextLtFrame(r io.Reader) ([]byte, error) {
-	header := ltFrameHeader{}
-	err := binary.Read(r, binary.LittleEndian, &header)
-	if err != nil {
-		return nil, err
-	}
-
-	switch header.FrameType {
-	case ltFrametypeConnect:
-		// ignore connect message
-		return nextLtFrame(r)
-	case ltFrametypeMessage:
-		body := make([]byte, header.FrameSize-uint32(sizeOfLtFrameheader))
-
-		_, err = io.ReadFull(r, body)
+	for {
+		header := ltFrameHeader{}
+		err := binary.Read(r, binary.LittleEndian, &header)
 		if err != nil {
 			return nil, err
 		}
 
-		return body, nil
-	default:
-		return nil, fmt.Errorf("unexpected frame type %v", header.FrameType)
+		size := int64(header.FrameSize) - int64(sizeOfLtFrameheader)
+
+		switch header.FrameType {
+		case ltFrametypeConnect:
+			// ignore connect message
+			if size > 0 {
+				if _, err := io.CopyN(io.Discard, r, size); err != nil {
+					return nil, err
+				}
+			}
+		case ltFrametypeMessage:
+			if size < 0 {
+				return nil, fmt.Errorf("bad frame size %v", header.FrameSize)
+			}
+
+			// grow with the data received, the size is not trusted
+			var body bytes.Buffer
+			if _, err := io.CopyN(&body, r, size); err != nil {
+				return nil, err
+			}
+
+			return body.Bytes(), nil
+		default:
+			return nil, fmt.Errorf("unexpected frame type %v", header.FrameType)
+		}
 	}
 }
 
-- 
2.43.0


From fe4e78909f51d3d54d3b1b187816f5baf75abc31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:21 +0000
Subject: [PATCH 27/49] fix: lease: frames of concurrent pings interleave

---
 lease/frame.go | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/lease/frame.go b/lease/frame.go
index bb1e3ac..0d1d85b 100644
--- a/lease/frame.go
+++ b/lease/frame.go
@@ -74,15 +74,15 @@ func writeDataWithFrame(w io.Writer, message []byte) error {
 	h.FrameType = ltFrametypeMessage
 	h.FrameSize = uint32(sizeOfLtFrameheader) + uint32(len(message))
 
-	err := binary.Write(w, binary.LittleEndian, &h)
+	var b bytes.Buffer
+	err := binary.Write(&b, binary.LittleEndian, &h)
 	if err != nil {
 		return err
 	}
 
-	err = binary.Write(w, binary.LittleEndian, message)
-	if err != nil {
-		return err
-	}
+	b.Write(message)
 
-	return nil
+	// one write per frame, otherwise frames of concurrent pings interleave
+	_, err = w.Write(b.Bytes())
+	return err
 }
-- 
2.43.0


From ae3f0d5489757a95740c75b7b738c73c1f64b307 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:21 +0000
Subject: [PATCH 28/49] fix: lease: listen endpoint at the end of a message is
 refused or crashes

The agent did not accept the messages it sends itself, as their endpoint is
the last part of the message. Offset plus size overflowed, and an endpoint
shorter than its fixed part panicked.
---
 lease/serialize.go | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/lease/serialize.go b/lease/serialize.go
index 9a96110..fb50434 100644
--- a/lease/serialize.go
+++ b/lease/serialize.go
@@ -124,14 +124,11 @@ func marshalRelationshipList(w io.Writer, l []relationshipIdentifier) (uint32, e
 }
 
 func dataAtList(data []byte, desc *listDesc) ([]byte, error) {
-	st := desc.StartOffset
-	ed := desc.StartOffset + desc.Size
+	st := uint64(desc.StartOffset)
+	ed := st + uint64(desc.Size)
 
-	if st >= uint32(len(data)) {
-		return nil, fmt.Errorf("bad data start offset")
-	}
-
-	if ed >= uint32(len(data)) {
+	// the last list ends where the data ends
+	if ed > uint64(len(data)) {
 		return nil, fmt.Errorf("bad data start offset")
 	}
 
@@ -170,13 +167,17 @@ func unmarshal(data []byte) (*Message, error) {
 			return nil, err
 		}
 
+		if len(d) < sizeofAddressFamily+sizeofUShort {
+			return nil, fmt.Errorf("bad listen endpoint size")
+		}
+
 		r := bytes.NewReader(d)
 		s := make([]uint16, (header.MessageListenEndpoint.Size-sizeofAddressFamily-sizeofUShort)/sizeofUint16)
 		if err := binary.Read(r, binary.LittleEndian, s); err != nil {
 			return nil, err
 		}
 
-		if s[len(s)-1] == 0 {
+		if len(s) > 0 && s[len(s)-1] == 0 {
 			s = s[:len(s)-1]
 		}
 
-- 
2.43.0


From b542e8420ec7e05ff8047f8bfa4adaf0da125c1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:22 +0000
Subject: [PATCH 29/49] fix: lease: Wait spins forever once the listener is
 closed

---
 lease/agent.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/lease/agent.go b/lease/agent.go
index 63f8078..337a85d 100644
--- a/lease/agent.go
+++ b/lease/agent.go
@@ -130,7 +130,11 @@ func (a *Agent) Wait() error {
 		c, err := a.listener.Accept()
 
 		if err != nil {
-			continue
+			if neterr, ok := err.(net.Error); ok && neterr.Temporary() {
+				continue
+			}
+
+			return err
 		}
 
 		go a.handleIncoming(c)
-- 
2.43.0


From 7270956c9dc1557add44dbe691a8c39d89a47a4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:23 +0000
Subject: [PATCH 30/49] fix: lease: pings miss their pong or succeed on close

A pong arriving before Ping started to wait was lost, and closing the session
was reported as a pong. Last pong and remote instance were accessed without
synchronisation.
---
 lease/agent.go | 45 +++++++++++++++++++++++++++++++++------------
 1 file changed, 33 insertions(+), 12 deletions(-)

diff --git a/lease/agent.go b/lease/agent.go
index 337a85d..56080b6 100644
--- a/lease/agent.go
+++ b/lease/agent.go
@@ -52,6 +52,7 @@ type Agent struct {
 }
 
 var errAgentClosed = fmt.Errorf("agent closed")
+var errSessionClosed = fmt.Errorf("session closed")
 
 func closedDialer(addr string) (net.Conn, error) {
 	return nil, errAgentClosed
@@ -106,6 +107,7 @@ func (a *Agent) Establish(addr string) (Session, error) {
 		addr:          addr,
 		parent:        a,
 		pingCh:        make(chan int),
+		closeCh:       make(chan struct{}),
 		localInstance: uniqId(),
 	}
 
@@ -227,12 +229,13 @@ type leaseSession struct {
 	remoteInstance int64
 
 	closed    bool
+	closeCh   chan struct{}
 	conn      net.Conn
 	connected bool
 	objLock   sync.Mutex
 
 	pingCh   chan int
-	pingLock sync.RWMutex
+	pingLock sync.RWMutex // also guards lastpong and remoteInstance
 	lastpong time.Time
 }
 
@@ -255,7 +258,10 @@ func (s *leaseSession) Close() error {
 
 	s.closed = true
 	s.conn.Close()
-	s.boardcastPong() // unlock waiting pings
+
+	s.pingLock.Lock()
+	close(s.closeCh) // unlock waiting pings
+	s.pingLock.Unlock()
 
 	return nil
 }
@@ -269,7 +275,7 @@ func (s *leaseSession) reconnect() error {
 	}
 
 	if s.closed {
-		return fmt.Errorf("session closed")
+		return errSessionClosed
 	}
 
 	c, err := s.parent.dial(s.addr)
@@ -287,6 +293,11 @@ func (s *leaseSession) reconnect() error {
 }
 
 func (s *leaseSession) Ping(ctx context.Context) error {
+	// before the ping is sent, its pong may arrive at any time afterwards
+	s.pingLock.RLock()
+	ch := s.pingCh
+	s.pingLock.RUnlock()
+
 	msg := s.createPingMessage()
 
 	data, err := s.parent.marshaller.marshal(msg)
@@ -311,19 +322,19 @@ func (s *leaseSession) Ping(ctx context.Context) error {
 		return err
 	}
 
-	s.pingLock.RLock()
-	ch := s.pingCh
-	s.pingLock.RUnlock()
-
 	select {
 	case <-ctx.Done():
 		return ctx.Err()
+	case <-s.closeCh:
+		return errSessionClosed
 	case <-ch:
 		return nil
 	}
 }
 
 func (s *leaseSession) LastPongTime() time.Time {
+	s.pingLock.RLock()
+	defer s.pingLock.RUnlock()
 	return s.lastpong
 }
 
@@ -333,19 +344,27 @@ func (s *leaseSession) onMessage(m *Message) {
 	case LeaseMessageTypePingRequest:
 		// TODO
 	case LeaseMessageTypePingResponse:
-		s.lastpong = time.Now()
-		s.remoteInstance = m.RemoteLeaseAgentInstance
-		s.boardcastPong()
+		s.boardcastPong(m)
 	default:
 	}
 }
 
-func (s *leaseSession) boardcastPong() {
+func (s *leaseSession) boardcastPong(m *Message) {
 	s.pingLock.Lock()
+	defer s.pingLock.Unlock()
+
+	select {
+	case <-s.closeCh:
+		return
+	default:
+	}
+
+	s.lastpong = time.Now()
+	s.remoteInstance = m.RemoteLeaseAgentInstance
+
 	ch := s.pingCh
 	s.pingCh = make(chan int)
 	close(ch)
-	s.pingLock.Unlock()
 }
 
 func (s *leaseSession) createPingMessage() *Message {
@@ -353,6 +372,8 @@ func (s *leaseSession) createPingMessage() *Message {
 	message.Type = LeaseMessageTypePingRequest
 	message.Expiration = s.parent.config.LeaseDuration // TODO confirm config entry
 	message.LeaseInstance = s.localInstance
+	s.pingLock.RLock()
 	message.RemoteLeaseAgentInstance = s.remoteInstance
+	s.pingLock.RUnlock()
 	return &message
 }
-- 
2.43.0


From ae67bb6af5f106ebbfcddd9220a538f2f9e938ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:23 +0000
Subject: [PATCH 31/49] fix: lease: closing an agent or session affects the
 wrong sessions

Closing a session removed a newer session to the same address, so that one
missed its pongs. Closing the agent left replaced sessions, and the ones being
established at that moment, open.
---
 lease/agent.go | 54 +++++++++++++++++++++++++++++++++++++++-----------
 1 file changed, 42 insertions(+), 12 deletions(-)

diff --git a/lease/agent.go b/lease/agent.go
index 56080b6..ee8617a 100644
--- a/lease/agent.go
+++ b/lease/agent.go
@@ -47,6 +47,9 @@ type Agent struct {
 	config        AgentConfig
 	marshaller    marshalContext
 	sessions      sync.Map
+	sessionLock   sync.Mutex
+	allSessions   map[*leaseSession]struct{} // also the ones replaced in sessions
+	closed        bool
 	listener      net.Listener
 	dial          Dialer
 }
@@ -54,10 +57,6 @@ type Agent struct {
 var errAgentClosed = fmt.Errorf("agent closed")
 var errSessionClosed = fmt.Errorf("session closed")
 
-func closedDialer(addr string) (net.Conn, error) {
-	return nil, errAgentClosed
-}
-
 func TcpDialer(addr string) (net.Conn, error) {
 	return net.Dial("tcp", addr)
 }
@@ -76,6 +75,7 @@ func NewAgent(config AgentConfig, listener net.Listener, dial Dialer) (*Agent, e
 		dial:          dial,
 		listener:      listener,
 		LocalInstance: uniqId(),
+		allSessions:   make(map[*leaseSession]struct{}),
 	}
 	a.config = config
 
@@ -102,7 +102,17 @@ func (a *Agent) Addr() net.Addr {
 	return a.listener.Addr()
 }
 
+func (a *Agent) isClosed() bool {
+	a.sessionLock.Lock()
+	defer a.sessionLock.Unlock()
+	return a.closed
+}
+
 func (a *Agent) Establish(addr string) (Session, error) {
+	if a.isClosed() {
+		return nil, errAgentClosed
+	}
+
 	s := leaseSession{
 		addr:          addr,
 		parent:        a,
@@ -116,6 +126,15 @@ func (a *Agent) Establish(addr string) (Session, error) {
 		return nil, err
 	}
 
+	a.sessionLock.Lock()
+	defer a.sessionLock.Unlock()
+
+	if a.closed {
+		s.conn.Close()
+		return nil, errAgentClosed
+	}
+
+	a.allSessions[&s] = struct{}{}
 	a.sessions.Store(addr, &s)
 
 	return &s, nil
@@ -144,15 +163,19 @@ func (a *Agent) Wait() error {
 }
 
 func (a *Agent) Close() error {
-	a.dial = closedDialer
 	a.listener.Close()
-	a.sessions.Range(func(key, value interface{}) bool {
-		if s, ok := value.(Session); ok {
-			s.Close()
-		}
 
-		return true
-	})
+	a.sessionLock.Lock()
+	a.closed = true
+	sessions := make([]*leaseSession, 0, len(a.allSessions))
+	for s := range a.allSessions {
+		sessions = append(sessions, s)
+	}
+	a.sessionLock.Unlock()
+
+	for _, s := range sessions {
+		s.Close()
+	}
 
 	return nil
 }
@@ -248,7 +271,14 @@ func (s *leaseSession) Meta() SessionMetadata {
 // }
 
 func (s *leaseSession) Close() error {
-	s.parent.sessions.Delete(s.addr)
+	s.parent.sessionLock.Lock()
+	delete(s.parent.allSessions, s)
+	// a newer session to the same address stays
+	if cur, ok := s.parent.sessions.Load(s.addr); ok && cur == Session(s) {
+		s.parent.sessions.Delete(s.addr)
+	}
+	s.parent.sessionLock.Unlock()
+
 	s.objLock.Lock()
 	defer s.objLock.Unlock()
 
-- 
2.43.0


From edba96be2cd01d8b375cfec7f885111e297184e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:41 +0000
Subject: [PATCH 32/49] fix: federation: node id ranges wrapping zero miss the
 ids above their begin

---
 federation/nodeid_range.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/federation/nodeid_range.go b/federation/nodeid_range.go
index 0297462..1c98748 100644
--- a/federation/nodeid_range.go
+++ b/federation/nodeid_range.go
@@ -16,7 +16,7 @@ func (r *NodeIdRange) Contains(id NodeID) bool {
 
 	if s.cmp(e) > 0 {
 
-		if s.cmp(i) <= 0 && u128max.cmp(e) <= 0 {
+		if s.cmp(i) <= 0 && i.cmp(u128max) <= 0 {
 			return true
 		}
 
-- 
2.43.0


From 812abb1432b724c7d5077b52d330635a26168d3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:42 +0000
Subject: [PATCH 33/49] fix: federation: NodeIDFromHex accepts signs and more
 than 128 bits

---
 federation/nodeid_generator.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/federation/nodeid_generator.go b/federation/nodeid_generator.go
index a0af3bf..7ca9cfc 100644
--- a/federation/nodeid_generator.go
+++ b/federation/nodeid_generator.go
@@ -17,7 +17,7 @@ func NodeIDFromHex(v string) (NodeID, error) {
 
 	i, ok := new(big.Int).SetString(v, 16)
 
-	if !ok {
+	if !ok || strings.ContainsAny(v, "+-") || i.BitLen() > 128 {
 		return u, fmt.Errorf("fail to convert %v to Uint128", v)
 	}
 
-- 
2.43.0


From 30350c74c26dbd4488dc520111dfea30a21ec62d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:42 +0000
Subject: [PATCH 34/49] fix: federation: NodeIDFromV4Generator panics on names
 without separator

---
 federation/nodeid_generator.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/federation/nodeid_generator.go b/federation/nodeid_generator.go
index 7ca9cfc..8a4b4d4 100644
--- a/federation/nodeid_generator.go
+++ b/federation/nodeid_generator.go
@@ -91,6 +91,11 @@ func NodeIDFromV4Generator(v string) (nodeId NodeID) {
 	// recalculate hi base on index in name
 	idx := strings.LastIndexFunc(v, func(r rune) bool { return r == '.' || r == '_' })
 
+	if idx < 0 {
+		// no instance in name
+		return
+	}
+
 	roleName := v[:idx]
 	instance_s := v[idx+1:]
 
-- 
2.43.0


From 94db0752d079f41cdb47c0cffaa8fc553edc663a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:43 +0000
Subject: [PATCH 35/49] fix: federation: messages are routed to the wrong
 partner

The chosen partner pointed to the loop variable, so it was whichever partner
happened to be visited last, and a partner right below the id was never chosen.
---
 federation/sitenode_parteners.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/federation/sitenode_parteners.go b/federation/sitenode_parteners.go
index d3ae0f4..ddb6973 100644
--- a/federation/sitenode_parteners.go
+++ b/federation/sitenode_parteners.go
@@ -45,16 +45,17 @@ func (s *SiteNode) KnownPartnerNodes(filter func(PartnerNodeInfo) bool) []Partne
 func (s *SiteNode) closestPartnerNode(id NodeID, filter func(PartnerNodeInfo) bool) *PartnerNodeInfo {
 	// TODO optimize
 	var cur *PartnerNodeInfo
-	max := u128max
+	min := u128max
 
 	for _, p := range s.KnownPartnerNodes(filter) {
+		p := p // cur must not point to the loop variable
 		diff := uint128(p.Instance.Id).sub(uint128(id))
 		if diff == u128zero {
 			return &p
 		}
 
-		if diff.cmp(max) < 0 {
-			max = diff
+		if cur == nil || diff.cmp(min) < 0 {
+			min = diff
 			cur = &p
 		}
 	}
-- 
2.43.0


From 4041b09a415e35573262e44c22efbd9e97749f40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:43 +0000
Subject: [PATCH 36/49] fix: federation: older partner information replaces
 newer

Concurrent messages compared with information that was replaced meanwhile, and
a partner heard of before it was routing stayed in its earlier phase forever.
---
 federation/sitenode_parteners.go | 27 +++++++++++++++++++--------
 1 file changed, 19 insertions(+), 8 deletions(-)

diff --git a/federation/sitenode_parteners.go b/federation/sitenode_parteners.go
index ddb6973..4b176fd 100644
--- a/federation/sitenode_parteners.go
+++ b/federation/sitenode_parteners.go
@@ -15,19 +15,30 @@ type PartnerNodeInfo struct {
 }
 
 func (s *SiteNode) updatePartnerNode(h *FederationPartnerNodeHeader) {
-	s.partenersRWLock.RLock()
-	old, found := s.parteners[h.Instance.Id]
-	s.partenersRWLock.RUnlock()
+	p := h.PartnerNodeInfo
+
+	s.partenersRWLock.Lock()
+	old, found := s.parteners[p.Instance.Id]
+	changed := !found || p.newerThan(old)
+	if changed {
+		s.parteners[p.Instance.Id] = &p
+	}
+	s.partenersRWLock.Unlock()
 
-	if !found || old.Instance.InstanceId < h.Instance.InstanceId {
-		p := h.PartnerNodeInfo
-		s.partenersRWLock.Lock()
-		s.parteners[h.Instance.Id] = &p
-		s.partenersRWLock.Unlock()
+	if changed {
 		s.onPartnerChanged(p, !found)
 	}
 }
 
+// newerThan tells if p is of a newer instance, or of a later phase of the same instance
+func (p *PartnerNodeInfo) newerThan(old *PartnerNodeInfo) bool {
+	if p.Instance.InstanceId != old.Instance.InstanceId {
+		return p.Instance.InstanceId > old.Instance.InstanceId
+	}
+
+	return p.Phase > old.Phase
+}
+
 func (s *SiteNode) KnownPartnerNodes(filter func(PartnerNodeInfo) bool) []PartnerNodeInfo {
 	s.partenersRWLock.RLock()
 	defer s.partenersRWLock.RUnlock()
-- 
2.43.0


From c6bfc93ea20be054ec93f62ec6e591d2ccae223e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:44 +0000
Subject: [PATCH 37/49] fix: federation: Bootstrap misses a routing partner
 reported early

A phase change between sending the vote pings and waiting was lost, and never
noticed by later rounds either. Phase was accessed without synchronisation.
---
 federation/sitenode.go        | 20 +++++++++++++++-----
 federation/sitenode_boot.go   | 15 +++++++--------
 federation/sitenode_sender.go |  3 ++-
 3 files changed, 24 insertions(+), 14 deletions(-)

diff --git a/federation/sitenode.go b/federation/sitenode.go
index 6421165..f37bd5b 100644
--- a/federation/sitenode.go
+++ b/federation/sitenode.go
@@ -96,22 +96,32 @@ func NewSiteNode(config SiteNodeConfig) (*SiteNode, error) {
 }
 
 func (s *SiteNode) changePhase(newPhase NodePhase) {
+	s.phaseLock.Lock()
+	defer s.phaseLock.Unlock()
+
 	if s.phase == newPhase {
 		return
 	}
 
-	s.phaseLock.Lock()
-	defer s.phaseLock.Unlock()
-
 	s.phase = newPhase
 	close(s.phaseChanged)
 	s.phaseChanged = make(chan int)
 }
 
+// currentPhase also returns the channel closed when the phase changes
+func (s *SiteNode) currentPhase() (NodePhase, <-chan int) {
+	s.phaseLock.RLock()
+	defer s.phaseLock.RUnlock()
+
+	return s.phase, s.phaseChanged
+}
+
 func (s *SiteNode) onPartnerChanged(p PartnerNodeInfo, isNew bool) {
 	// found at least 1 R node, start join
-	if p.Phase == NodePhaseRouting && s.phase == NodePhaseBooting {
-		s.changePhase(NodePhaseJoining)
+	if p.Phase == NodePhaseRouting {
+		if phase, _ := s.currentPhase(); phase == NodePhaseBooting {
+			s.changePhase(NodePhaseJoining)
+		}
 	}
 }
 
diff --git a/federation/sitenode_boot.go b/federation/sitenode_boot.go
index 9c62c98..7bca5f0 100644
--- a/federation/sitenode_boot.go
+++ b/federation/sitenode_boot.go
@@ -10,11 +10,12 @@ import (
 )
 
 func (s *SiteNode) Bootstrap(ctx context.Context) error {
-	if s.phase >= NodePhaseJoining {
-		return nil
-	}
-
 	for {
+		phase, phaseChanged := s.currentPhase()
+		if phase >= NodePhaseJoining {
+			return nil
+		}
+
 		for _, seed := range s.seedNodes {
 			if err := s.votePing(seed.Id); err != nil {
 				log.Printf("send vote ping to %v failed %v", seed.Address, err)
@@ -22,10 +23,8 @@ func (s *SiteNode) Bootstrap(ctx context.Context) error {
 		}
 
 		select {
-		case <-s.phaseChanged:
-			if s.phase >= NodePhaseJoining {
-				return nil
-			}
+		case <-phaseChanged:
+			// check again
 		case <-ctx.Done():
 			return ctx.Err()
 		case <-time.After(time.Second * 30): // TODO config
diff --git a/federation/sitenode_sender.go b/federation/sitenode_sender.go
index 03ddcbe..c1105f5 100644
--- a/federation/sitenode_sender.go
+++ b/federation/sitenode_sender.go
@@ -92,6 +92,7 @@ func (s *SiteNode) connectToNode(id NodeID, match bool) (*transport.Client, *Par
 }
 
 func (s *SiteNode) appendPartnerInfo(msg *transport.Message) {
+	phase, _ := s.currentPhase()
 
 	// add self
 	msg.Headers.AppendCustomHeader(transport.MessageHeaderIdTypeFederationPartnerNode, &FederationPartnerNodeHeader{
@@ -99,7 +100,7 @@ func (s *SiteNode) appendPartnerInfo(msg *transport.Message) {
 			Instance:          s.instance,
 			Address:           s.transportServer.Addr().String(),
 			LeaseAgentAddress: s.leaseAgent.Addr().String(),
-			Phase:             s.phase,
+			Phase:             phase,
 		},
 	})
 
-- 
2.43.0


From e84569bb307206f5f2e02733a689e0410e3e2aee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:44 +0000
Subject: [PATCH 38/49] fix: federation: unreachable seed blocks Bootstrap

Seeds were dialed one after another, so a seed whose dial does not return kept
the others from being pinged and Bootstrap from noticing its context.
---
 federation/sitenode_boot.go | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/federation/sitenode_boot.go b/federation/sitenode_boot.go
index 7bca5f0..2671550 100644
--- a/federation/sitenode_boot.go
+++ b/federation/sitenode_boot.go
@@ -17,9 +17,12 @@ func (s *SiteNode) Bootstrap(ctx context.Context) error {
 		}
 
 		for _, seed := range s.seedNodes {
-			if err := s.votePing(seed.Id); err != nil {
-				log.Printf("send vote ping to %v failed %v", seed.Address, err)
-			}
+			// dialing an unreachable seed may block
+			go func(seed SeedNodeInfo) {
+				if err := s.votePing(seed.Id); err != nil {
+					log.Printf("send vote ping to %v failed %v", seed.Address, err)
+				}
+			}(seed)
 		}
 
 		select {
-- 
2.43.0


From b3f7f89bdc47e4bfe3efbb4eaf649cecbb41a0f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:45 +0000
Subject: [PATCH 39/49] fix: federation: Discover pings one partner many times
 and others never

All goroutines of a round shared the loop variable.
---
 federation/sitenode_boot.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/federation/sitenode_boot.go b/federation/sitenode_boot.go
index 2671550..ece5ece 100644
--- a/federation/sitenode_boot.go
+++ b/federation/sitenode_boot.go
@@ -56,12 +56,12 @@ func (s *SiteNode) Discover(ctx context.Context) ([]PartnerNodeInfo, error) {
 		wg.Add(len(discovered))
 
 		for _, partner := range discovered {
-			go func(p *PartnerNodeInfo) {
+			go func(p PartnerNodeInfo) {
 				defer wg.Done()
 				if err := s.votePing(p.Instance.Id); err != nil {
 					log.Printf("send vote ping to %v failed %v", p.Address, err)
 				}
-			}(&partner)
+			}(partner)
 		}
 
 		wg.Wait()
-- 
2.43.0


From 2260143e42ce48800b1bc9c224c4d2f97391e9cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:46 +0000
Subject: [PATCH 40/49] fix: federation: Discover ignores its context

---
 federation/sitenode_boot.go | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/federation/sitenode_boot.go b/federation/sitenode_boot.go
index ece5ece..9273333 100644
--- a/federation/sitenode_boot.go
+++ b/federation/sitenode_boot.go
@@ -64,9 +64,23 @@ func (s *SiteNode) Discover(ctx context.Context) ([]PartnerNodeInfo, error) {
 			}(partner)
 		}
 
-		wg.Wait()
+		sent := make(chan struct{})
+		go func() {
+			wg.Wait()
+			close(sent)
+		}()
 
-		time.Sleep(1 * time.Second) // wait for voteping reply
+		select {
+		case <-sent:
+		case <-ctx.Done():
+			return nil, ctx.Err()
+		}
+
+		select {
+		case <-time.After(1 * time.Second): // wait for voteping reply
+		case <-ctx.Done():
+			return nil, ctx.Err()
+		}
 
 		found := false
 		for _, partner := range s.KnownPartnerNodes(func(PartnerNodeInfo) bool { return true }) {
-- 
2.43.0


From c4c79af9d0d9131792bc18dd5fae8d0f9e0dbc37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:46 +0000
Subject: [PATCH 41/49] fix: federation: Discover reports the local seed and
 stale phases

---
 federation/sitenode_boot.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/federation/sitenode_boot.go b/federation/sitenode_boot.go
index 9273333..d394e02 100644
--- a/federation/sitenode_boot.go
+++ b/federation/sitenode_boot.go
@@ -41,6 +41,10 @@ func (s *SiteNode) Discover(ctx context.Context) ([]PartnerNodeInfo, error) {
 	discovered := make(map[NodeID]PartnerNodeInfo)
 
 	for _, seed := range s.seedNodes {
+		if seed.Id == s.instance.Id {
+			continue
+		}
+
 		discovered[seed.Id] = PartnerNodeInfo{
 			Instance: NodeInstance{
 				Id: seed.Id,
@@ -89,9 +93,9 @@ func (s *SiteNode) Discover(ctx context.Context) ([]PartnerNodeInfo, error) {
 				continue
 			}
 
-			p := discovered[partner.Instance.Id]
+			p, ok := discovered[partner.Instance.Id]
 
-			if partner.Instance.InstanceId > p.Instance.InstanceId {
+			if !ok || partner.newerThan(&p) {
 				found = true
 				discovered[partner.Instance.Id] = partner
 			}
-- 
2.43.0


From ec0eedb42c78d085ac71047d5c54916d59134a57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:47 +0000
Subject: [PATCH 42/49] fix: federation: Join reports success when its query
 failed

---
 federation/sitenode_join.go | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/federation/sitenode_join.go b/federation/sitenode_join.go
index 84855f9..731d647 100644
--- a/federation/sitenode_join.go
+++ b/federation/sitenode_join.go
@@ -38,7 +38,5 @@ func (s *SiteNode) neighborhoodQuery(ctx context.Context) error {
 }
 
 func (s *SiteNode) Join(ctx context.Context) error {
-	s.neighborhoodQuery(ctx)
-
-	return nil
+	return s.neighborhoodQuery(ctx)
 }
-- 
2.43.0


From e376b94fcc4258f1e3c370e4aca9c66688b0ae4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:47 +0000
Subject: [PATCH 43/49] fix: federation: connections dialed while the node
 closes stay open

Also a connection that ended late removed the newer one to the same address
from the pool, and closed that instead of itself.
---
 federation/sitenode.go        |  6 +++++
 federation/sitenode_sender.go | 51 ++++++++++++++++++++++++-----------
 2 files changed, 42 insertions(+), 15 deletions(-)

diff --git a/federation/sitenode.go b/federation/sitenode.go
index f37bd5b..fdf10ba 100644
--- a/federation/sitenode.go
+++ b/federation/sitenode.go
@@ -24,6 +24,8 @@ type SiteNode struct {
 	requestTable       transport.RequestTable
 	clientDialer       Dialer
 	connPool           sync.Map
+	connPoolLock       sync.Mutex
+	closed             bool
 
 	parteners       map[NodeID]*PartnerNodeInfo
 	partenersRWLock sync.RWMutex
@@ -165,6 +167,10 @@ func (s *SiteNode) Close() error {
 	s.transportServer.Close()
 	s.leaseAgent.Close()
 
+	s.connPoolLock.Lock()
+	s.closed = true
+	s.connPoolLock.Unlock()
+
 	s.connPool.Range(func(key, value interface{}) bool {
 		if c, ok := value.(*cachedConn); ok {
 			c.Close()
diff --git a/federation/sitenode_sender.go b/federation/sitenode_sender.go
index c1105f5..68a3408 100644
--- a/federation/sitenode_sender.go
+++ b/federation/sitenode_sender.go
@@ -16,15 +16,15 @@ type cachedConn struct {
 	partner *PartnerNodeInfo
 	conn    *transport.Client
 	init    sync.Once
-	close   sync.Once
 	lasterr error
+
+	lock   sync.Mutex
+	closed bool
 }
 
-func (c *cachedConn) Conn() *transport.Client {
-	if c.conn != nil {
-		return c.conn
-	}
+var errSiteNodeClosed = fmt.Errorf("site node closed")
 
+func (c *cachedConn) Conn() *transport.Client {
 	c.init.Do(func() {
 		conn, err := c.parent.clientDialer(c.partner.Address)
 
@@ -36,6 +36,16 @@ func (c *cachedConn) Conn() *transport.Client {
 
 		conn.SetMessageCallback(c.parent.onMessage)
 
+		c.lock.Lock()
+		defer c.lock.Unlock()
+
+		if c.closed {
+			// node was closed while dialing
+			conn.Close()
+			c.lasterr = errSiteNodeClosed
+			return
+		}
+
 		go func() {
 			defer c.Close()
 			conn.Wait()
@@ -48,29 +58,40 @@ func (c *cachedConn) Conn() *transport.Client {
 }
 
 func (c *cachedConn) Close() error {
-	cc, ok := c.parent.connPool.LoadAndDelete(c.partner.Address)
-	if !ok {
-		return nil
+	c.parent.connPoolLock.Lock()
+	// a newer connection to the same address stays
+	if cur, ok := c.parent.connPool.Load(c.partner.Address); ok && cur == c {
+		c.parent.connPool.Delete(c.partner.Address)
 	}
+	c.parent.connPoolLock.Unlock()
 
-	cc.(*cachedConn).close.Do(func() {
-		tc := cc.(*cachedConn).conn
-		if tc != nil {
-			tc.Close()
-		}
-	})
+	c.lock.Lock()
+	defer c.lock.Unlock()
+
+	c.closed = true
+	if c.conn != nil {
+		c.conn.Close()
+	}
 
 	return nil
 }
 
 func (s *SiteNode) getConn(p *PartnerNodeInfo) (*transport.Client, error) {
+	s.connPoolLock.Lock()
+	if s.closed {
+		s.connPoolLock.Unlock()
+		return nil, errSiteNodeClosed
+	}
+
 	c, _ := s.connPool.LoadOrStore(p.Address, &cachedConn{
 		parent:  s,
 		partner: p,
 	})
+	s.connPoolLock.Unlock()
 
 	cc := c.(*cachedConn)
-	return cc.Conn(), cc.lasterr
+	conn := cc.Conn()
+	return conn, cc.lasterr
 }
 
 func (s *SiteNode) connectToNode(id NodeID, match bool) (*transport.Client, *PartnerNodeInfo, error) {
-- 
2.43.0


From dc2d9a2cc4791d5108e49da361cb51c0a440fb46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:48 +0000
Subject: [PATCH 44/49] fix: federation: pending routed requests do not end
 when the node closes

---
 federation/sitenode.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/federation/sitenode.go b/federation/sitenode.go
index fdf10ba..a1673ba 100644
--- a/federation/sitenode.go
+++ b/federation/sitenode.go
@@ -179,5 +179,7 @@ func (s *SiteNode) Close() error {
 		return true
 	})
 
+	s.requestTable.Close()
+
 	return nil
 }
-- 
2.43.0


From 9a9413a9ab96d120032a7109f9e13f6eee8f69c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:48 +0000
Subject: [PATCH 45/49] fix: naming: calls ignore their context

---
 naming/naming.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/naming/naming.go b/naming/naming.go
index 9246dac..6fee21d 100644
--- a/naming/naming.go
+++ b/naming/naming.go
@@ -176,7 +176,7 @@ func (n *NamingClient) onMessage(conn transport.Conn, bam *transport.ByteArrayMe
 }
 
 func (n *NamingClient) requestReply(ctx context.Context, msg *transport.Message) (*transport.ByteArrayMessage, error) {
-	reply, err := n.transport.RequestReply(context.TODO(), msg)
+	reply, err := n.transport.RequestReply(ctx, msg)
 	if err != nil {
 		return nil, err
 	}
-- 
2.43.0


From 6fcdcbf2698570b2348f84067775274f4e890157 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:49 +0000
Subject: [PATCH 46/49] fix: naming: GetApplicationList crashes on failure
 replies

ClientOperationFailure was decoded as a query result, and a reply without
result list dereferenced nil.
---
 naming/naming.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/naming/naming.go b/naming/naming.go
index 6fee21d..4fb288a 100644
--- a/naming/naming.go
+++ b/naming/naming.go
@@ -363,7 +363,7 @@ func (n *NamingClient) GetApplicationList(ctx context.Context, filter string) ([
 	param.QueryArgs.QueryArgumentMap[QueryArgumentMapKey{"ApplicationName"}] = filter
 
 	msg.Body = param
-	reply, err := n.transport.RequestReply(ctx, msg)
+	reply, err := n.requestReply(ctx, msg)
 	if err != nil {
 		return nil, err
 	}
@@ -384,5 +384,9 @@ func (n *NamingClient) GetApplicationList(ctx context.Context, filter string) ([
 		return nil, fmt.Errorf("GetApplicationList returns HResult %v", b.ErrorCode)
 	}
 
+	if b.ResultList == nil {
+		return nil, fmt.Errorf("GetApplicationList returns no result list")
+	}
+
 	return b.ResultList.List, nil
 }
-- 
2.43.0


From 94ac217d0dd29bc7acd0903b578ac1c1ba79e35a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:49 +0000
Subject: [PATCH 47/49] fix: naming: malformed notifications are acknowledged
 and delivered

---
 naming/naming.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/naming/naming.go b/naming/naming.go
index 4fb288a..115e329 100644
--- a/naming/naming.go
+++ b/naming/naming.go
@@ -151,11 +151,18 @@ func (n *NamingClient) onMessage(conn transport.Conn, bam *transport.ByteArrayMe
 		err := serialization.Unmarshal(bam.Body, &b)
 		if err != nil {
 			log.Printf("ServiceNotificationRequest unmarshal err %v", err)
+			return
+		}
+
+		if b.Notification == nil {
+			log.Printf("ServiceNotificationRequest without notification")
+			return
 		}
 
 		reply, err := NewNamingMessage("ServiceNotificationReply")
 		if err != nil {
 			log.Printf("ServiceNotificationRequest NewNamingMessage err %v", err)
+			return
 		}
 
 		reply.Headers.RelatesTo = bam.Headers.Id
-- 
2.43.0


From fddda1c883f3c604eae8a281b6a8ab96a1ff5b64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:50 +0000
Subject: [PATCH 48/49] fix: common: large time spans convert to durations of
 the wrong sign

---
 common/time.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/common/time.go b/common/time.go
index 4dd8008..54a200b 100644
--- a/common/time.go
+++ b/common/time.go
@@ -20,5 +20,13 @@ func TimeSpanFromDuration(d time.Duration) TimeSpan {
 }
 
 func (s TimeSpan) ToDuration() time.Duration {
+	if s > math.MaxInt64/100 {
+		return math.MaxInt64
+	}
+
+	if s < math.MinInt64/100 {
+		return math.MinInt64
+	}
+
 	return time.Duration(s) * 100
 }
-- 
2.43.0


From 1d9857d7df60db538897a033f2c0cf38ce7297c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:09 +0000
Subject: [PATCH 49/49] fix: naming: fault replies are taken as success

---
 naming/naming.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/naming/naming.go b/naming/naming.go
index 115e329..d1c7ff3 100644
--- a/naming/naming.go
+++ b/naming/naming.go
@@ -188,6 +188,10 @@ func (n *NamingClient) requestReply(ctx context.Context, msg *transport.Message)
 		return nil, err
 	}
 
+	if reply.Headers.ErrorCode != transport.FabricErrorCodeSuccess {
+		return nil, fmt.Errorf("reply message contains err header, code: %v", reply.Headers.ErrorCode)
+	}
+
 	body := reply.Body
 	if reply.Headers.Action == "ClientOperationFailure" {
 		var b struct {
-- 
2.43.0

