From a195dd12409df63a8f4466b5667174b5ee23db4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:19 +0000
Subject: [PATCH 01/38] fix: REP takes the first empty frame as the end of the
 envelope

The search went on after the delimiter, so that a request whose body holds an
empty frame lost the frames before it and the reply carried a wrong envelope.
---
 rep.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/rep.go b/rep.go
index d9a1a78..8aa12db 100644
--- a/rep.go
+++ b/rep.go
@@ -196,6 +196,7 @@ func splitReq(envelope Msg) (preamble [][]byte, msg Msg) {
 		if i+1 < len(envelope.Frames) {
 			msg = NewMsgFrom(envelope.Frames[i+1:]...)
 		}
+		break
 	}
 	return
 }
-- 
2.43.0


From bbfea5f7074baac13c14fdd6455673a5f614704d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:19 +0000
Subject: [PATCH 02/38] fix: REQ rotates over its connections without leaving
 their range

Operator precedence made the index run past the last connection and panic as
soon as one of several servers failed.
---
 req.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/req.go b/req.go
index 2b99aed..b918438 100644
--- a/req.go
+++ b/req.go
@@ -110,11 +110,11 @@ func (r *reqWriter) write(ctx context.Context, msg Msg) error {
 	defer r.mu.Unlock()
 	var err error
 	for i := 0; i < len(r.conns); i++ {
-		cur := i + r.nextConn%len(r.conns)
+		cur := (i + r.nextConn) % len(r.conns)
 		conn := r.conns[cur]
 		err = conn.SendMsg(msg)
 		if err == nil {
-			r.nextConn = cur + 1%len(r.conns)
+			r.nextConn = (cur + 1) % len(r.conns)
 			r.state.Set(conn)
 			return nil
 		}
-- 
2.43.0


From 27f39d9cd58cce43584ab121715ba5d666479b27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:44 +0000
Subject: [PATCH 03/38] fix: decode truncated metadata and encode long metadata
 without panicking

A peer could crash the process with a property cut short, and a property value
over some 500 bytes could not be encoded.
---
 protocol.go | 28 ++++++++++++++++++++++++----
 1 file changed, 24 insertions(+), 4 deletions(-)

diff --git a/protocol.go b/protocol.go
index 82262af..c9cae78 100644
--- a/protocol.go
+++ b/protocol.go
@@ -186,11 +186,11 @@ func (md Metadata) MarshalZMTP() ([]byte, error) {
 		keys[key] = struct{}{}
 		switch k {
 		case sysSockID, sysSockType:
-			if _, err := io.Copy(buf, Property{K: k, V: v}); err != nil {
+			if err := (Property{K: k, V: v}).appendTo(buf); err != nil {
 				return nil, err
 			}
 		default:
-			if _, err := io.Copy(buf, Property{K: "X-" + key, V: v}); err != nil {
+			if err := (Property{K: "X-" + key, V: v}).appendTo(buf); err != nil {
 				return nil, err
 			}
 		}
@@ -228,6 +228,12 @@ func (prop Property) Read(data []byte) (n int, err error) {
 	klen := len(prop.K)
 	vlen := len(prop.V)
 	size := 1 + klen + 4 + vlen
+	if klen > 255 {
+		return 0, errOverflow
+	}
+	if len(data) < size {
+		return 0, io.ErrShortBuffer
+	}
 	_ = data[:size] // help with bound check elision
 
 	data[n] = byte(klen)
@@ -239,10 +245,24 @@ func (prop Property) Read(data []byte) (n int, err error) {
 	return n, io.EOF
 }
 
+// appendTo appends the on-wire representation of prop, of any size, to buf.
+func (prop Property) appendTo(buf *bytes.Buffer) error {
+	data := make([]byte, 1+len(prop.K)+4+len(prop.V))
+	n, err := prop.Read(data)
+	if err != nil && err != io.EOF {
+		return err
+	}
+	buf.Write(data[:n])
+	return nil
+}
+
 func (prop *Property) Write(data []byte) (n int, err error) {
+	if len(data) == 0 {
+		return n, io.ErrUnexpectedEOF
+	}
 	klen := int(data[n])
 	n++
-	if klen > len(data) {
+	if n+klen+4 > len(data) {
 		return n, io.ErrUnexpectedEOF
 	}
 
@@ -256,7 +276,7 @@ func (prop *Property) Write(data []byte) (n int, err error) {
 	}
 
 	vlen := int(v)
-	if n+vlen > len(data) {
+	if vlen > len(data)-n {
 		return n, io.ErrUnexpectedEOF
 	}
 
-- 
2.43.0


From 04adcacbaccb591cf42402227d2c6f46b8d0d8e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:44 +0000
Subject: [PATCH 04/38] fix: refuse a peer of unknown socket type instead of
 panicking

The type comes from the peer; asking it for compatibility panicked when it was
missing or not one of the known ones. The relation is symmetric.
---
 conn.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/conn.go b/conn.go
index 0524ae6..1c22b92 100644
--- a/conn.go
+++ b/conn.go
@@ -117,7 +117,7 @@ func (conn *Conn) init(sec Security) error {
 	}
 
 	peer := SocketType(conn.Peer.Meta[sysSockType])
-	if !peer.IsCompatible(conn.typ) {
+	if !conn.typ.IsCompatible(peer) { // peer may be of no known type
 		return fmt.Errorf("zmq4: peer=%q not compatible with %q", peer, conn.typ)
 	}
 
-- 
2.43.0


From 7ed69bb6c2b27ef17c05894072a78a7150aba6c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:14 +0000
Subject: [PATCH 05/38] fix: do not allocate a frame on the word of its length
 field

Nine bytes from a peer made the reader allocate, or panic on, any size up to
2^63-1 before a single byte of the frame had arrived.
---
 conn.go | 22 ++++++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/conn.go b/conn.go
index 1c22b92..0b3c99e 100644
--- a/conn.go
+++ b/conn.go
@@ -479,8 +479,8 @@ func (c *Conn) read() Msg {
 			return msg
 		}
 
-		body := make([]byte, size)
-		_, msg.err = io.ReadFull(c.rw, body)
+		var body []byte
+		body, msg.err = readBody(c.rw, size)
 		if msg.err != nil {
 			c.checkIO(msg.err)
 			return msg
@@ -505,6 +505,24 @@ func (c *Conn) read() Msg {
 	return msg
 }
 
+// readBody reads a frame body of the given size. The size is what the peer
+// declared: memory is only reserved as data comes in.
+func readBody(r io.Reader, size uint64) ([]byte, error) {
+	const chunk = 1 << 20
+	if size <= chunk {
+		body := make([]byte, size)
+		_, err := io.ReadFull(r, body)
+		return body, err
+	}
+
+	var buf bytes.Buffer
+	n, err := io.CopyN(&buf, r, int64(size))
+	if err == io.EOF && n > 0 {
+		err = io.ErrUnexpectedEOF
+	}
+	return buf.Bytes(), err
+}
+
 func (conn *Conn) subscribe(msg Msg) {
 	conn.mu.Lock()
 	v := msg.Frames[0]
-- 
2.43.0


From e3c7231785ac960943e765516f16080a7b4e7999 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:14 +0000
Subject: [PATCH 06/38] fix: notice connections that end inside a frame or are
 closed pipes

io.ErrUnexpectedEOF and io.ErrClosedPipe (inproc) are neither io.EOF nor
net.Errors, so such a connection was never removed and never dialed again.
---
 conn.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/conn.go b/conn.go
index 0b3c99e..7e1e9c9 100644
--- a/conn.go
+++ b/conn.go
@@ -566,7 +566,7 @@ func (conn *Conn) checkIO(err error) {
 		return
 	}
 
-	if err == io.EOF || errors.Is(err, io.EOF) {
+	if errors.Is(err, io.EOF) || errors.Is(err, io.ErrUnexpectedEOF) || errors.Is(err, io.ErrClosedPipe) {
 		conn.SetClosed()
 		return
 	}
-- 
2.43.0


From 2cde974bc03527ae8c3a7de5bca41453acf6d410 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:14 +0000
Subject: [PATCH 07/38] fix: reconnect dialed connections only, to their own
 end-point, without deadlock

A lost connection made the socket dial its last end-point: a listener dialed
itself, and a socket with several peers dialed the wrong one. It did so in the
goroutine that noticed the loss, which may hold the writer's lock that adding
the new connection needs. Dial also overwrote the end-point that was listened
on, so that Close removed the socket file of a dialed ipc peer.
---
 conn.go   | 2 ++
 socket.go | 8 +++++---
 2 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/conn.go b/conn.go
index 7e1e9c9..7905be9 100644
--- a/conn.go
+++ b/conn.go
@@ -37,6 +37,8 @@ type Conn struct {
 
 	closed         int32
 	onCloseErrorCB func(c *Conn)
+
+	ep string // end-point that was dialed, empty for accepted connections
 }
 
 func (c *Conn) Close() error {
diff --git a/socket.go b/socket.go
index 338062c..27200c7 100644
--- a/socket.go
+++ b/socket.go
@@ -290,7 +290,6 @@ func (sck *socket) Dial(endpoint string) error {
 		sck.mu.Unlock()
 		return fmt.Errorf("zmq4: socket is closed")
 	}
-	sck.ep = endpoint
 	sck.mu.Unlock()
 
 	network, addr, err := splitAddr(endpoint)
@@ -330,6 +329,7 @@ connect:
 	if zconn == nil {
 		return fmt.Errorf("zmq4: got a nil ZMTP connection to %q", endpoint)
 	}
+	zconn.ep = endpoint
 
 	if !sck.reaperStarted {
 		sck.reaperCond.L.Lock()
@@ -401,8 +401,10 @@ func (sck *socket) scheduleRmConn(c *Conn) {
 	sck.reaperCond.Signal()
 	sck.reaperCond.L.Unlock()
 
-	if sck.autoReconnect {
-		sck.Dial(sck.ep)
+	// Only what was dialed can be dialed again. The caller may hold locks of the
+	// connection pools, that Dial needs to add the new connection.
+	if sck.autoReconnect && c.ep != "" {
+		go sck.Dial(c.ep)
 	}
 }
 
-- 
2.43.0


From da2e603198af1ec7e27a6ba1e754d44d348d103c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:14 +0000
Subject: [PATCH 08/38] fix: do not hold the socket's lock while sending a
 subscription

Send takes the read lock again, which deadlocks when a connection is being
added or the socket is being closed in between.
---
 sub.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/sub.go b/sub.go
index 008d6b1..1153246 100644
--- a/sub.go
+++ b/sub.go
@@ -109,10 +109,11 @@ func (sub *subSocket) SetOption(name string, value interface{}) error {
 	}
 
 	sub.sck.mu.RLock()
-	if len(sub.sck.conns) > 0 {
+	n := len(sub.sck.conns)
+	sub.sck.mu.RUnlock()
+	if n > 0 {
 		err = sub.Send(NewMsg(topic))
 	}
-	sub.sck.mu.RUnlock()
 	return err
 }
 
-- 
2.43.0


From 527dbeb0ca554db95c208348bf02ba2131215de2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:14 +0000
Subject: [PATCH 09/38] fix: end the goroutines of a closed socket

Readers blocked for ever on a full queue, and the goroutine that feeds a
subscriber waited for ever for its next message, once the socket was closed.
---
 msgio.go  |  3 +--
 pub.go    | 16 ++++++++++++++--
 rep.go    |  6 +++++-
 router.go |  6 +++++-
 4 files changed, 25 insertions(+), 6 deletions(-)

diff --git a/msgio.go b/msgio.go
index 41abc20..41e4aee 100644
--- a/msgio.go
+++ b/msgio.go
@@ -106,8 +106,7 @@ func (q *qreader) listen(ctx context.Context, r *Conn) {
 		select {
 		case <-ctx.Done():
 			return
-		default:
-			q.c <- msg
+		case q.c <- msg:
 			if msg.err != nil {
 				return
 			}
diff --git a/pub.go b/pub.go
index 7dffb59..701b085 100644
--- a/pub.go
+++ b/pub.go
@@ -201,7 +201,11 @@ func (q *pubQReader) listen(ctx context.Context, r *Conn) {
 			case q.topic(msg):
 				r.subscribe(msg)
 			default:
-				q.c <- msg
+				select {
+				case <-ctx.Done():
+					return
+				case q.c <- msg:
+				}
 			}
 		}
 	}
@@ -256,7 +260,15 @@ func (mw *pubMWriter) addConn(w *Conn) {
 	mw.subscribers[w] = c
 	go func() {
 		for {
-			msg, ok := <-c
+			var (
+				msg Msg
+				ok  bool
+			)
+			select {
+			case <-mw.ctx.Done():
+				return
+			case msg, ok = <-c:
+			}
 			if !ok {
 				break
 			}
diff --git a/rep.go b/rep.go
index 8aa12db..bb07b87 100644
--- a/rep.go
+++ b/rep.go
@@ -167,7 +167,11 @@ func (r *repReader) listen(ctx context.Context, conn *Conn) {
 			if msg.err != nil {
 				return
 			}
-			r.msgCh <- repMsg{conn, msg}
+			select {
+			case <-ctx.Done():
+				return
+			case r.msgCh <- repMsg{conn, msg}:
+			}
 		}
 	}
 }
diff --git a/router.go b/router.go
index aebb14a..14ac205 100644
--- a/router.go
+++ b/router.go
@@ -167,7 +167,11 @@ func (q *routerQReader) listen(ctx context.Context, r *Conn) {
 				return
 			}
 			msg.Frames = append([][]byte{id}, msg.Frames...)
-			q.c <- msg
+			select {
+			case <-ctx.Done():
+				return
+			case q.c <- msg:
+			}
 		}
 	}
 }
-- 
2.43.0


From 3058ed71c97c9b6067e72e016c102d4726c07ccb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:42 +0000
Subject: [PATCH 10/38] fix: guard the listener, the reaper flag and the
 options of a socket

They were read and written without synchronisation by Listen, Dial, Close, Addr
and Set/GetOption. Two concurrent Dials could start two reapers, of which Close
wakes one; a Listen that raced with Close left its listener open for ever.
---
 socket.go | 53 +++++++++++++++++++++++++++++++++++------------------
 1 file changed, 35 insertions(+), 18 deletions(-)

diff --git a/socket.go b/socket.go
index 27200c7..915d6fb 100644
--- a/socket.go
+++ b/socket.go
@@ -142,11 +142,12 @@ func (sck *socket) Close() error {
 	sck.reaperCond.Signal()
 	sck.reaperCond.L.Unlock()
 
-	if sck.listener != nil {
-		defer sck.listener.Close()
+	sck.mu.RLock()
+	listener := sck.listener
+	if listener != nil {
+		defer listener.Close()
 	}
 
-	sck.mu.RLock()
 	var err error
 	for _, conn := range sck.conns {
 		e := conn.Close()
@@ -159,7 +160,7 @@ func (sck *socket) Close() error {
 	ep := sck.ep
 	sck.mu.RUnlock()
 
-	if sck.listener != nil && strings.HasPrefix(ep, "ipc://") {
+	if listener != nil && strings.HasPrefix(ep, "ipc://") {
 		os.Remove(ep[len("ipc://"):])
 	}
 
@@ -225,7 +226,6 @@ func (sck *socket) Listen(endpoint string) error {
 		sck.mu.Unlock()
 		return fmt.Errorf("zmq4: socket already listening on %q", sck.ep)
 	}
-	sck.ep = endpoint
 	sck.mu.Unlock()
 	network, addr, err := splitAddr(endpoint)
 	if err != nil {
@@ -243,20 +243,35 @@ func (sck *socket) Listen(endpoint string) error {
 	}
 
 	sck.mu.Lock()
+	if sck.isClosed || sck.listener != nil {
+		// closed, or listening elsewhere, in the meantime
+		sck.mu.Unlock()
+		l.Close()
+		return fmt.Errorf("zmq4: could not listen to %q: socket closed or already listening", endpoint)
+	}
+	sck.ep = endpoint
 	sck.listener = l
 	sck.mu.Unlock()
 
-	go sck.accept()
-	if !sck.reaperStarted {
-		sck.reaperCond.L.Lock()
-		go sck.connReaper()
-		sck.reaperStarted = true
-	}
+	sck.startReaper()
+	go sck.accept(l)
 
 	return nil
 }
 
-func (sck *socket) accept() {
+// startReaper starts the connection reaper, once.
+func (sck *socket) startReaper() {
+	sck.mu.Lock()
+	defer sck.mu.Unlock()
+	if sck.reaperStarted {
+		return
+	}
+	sck.reaperStarted = true
+	sck.reaperCond.L.Lock()
+	go sck.connReaper()
+}
+
+func (sck *socket) accept(listener net.Listener) {
 	ctx, cancel := context.WithCancel(sck.ctx)
 	defer cancel()
 	for {
@@ -264,7 +279,7 @@ func (sck *socket) accept() {
 		case <-ctx.Done():
 			return
 		default:
-			conn, err := sck.listener.Accept()
+			conn, err := listener.Accept()
 			if err != nil {
 				// FIXME(sbinet): maybe bubble up this error to application code?
 				//sck.log.Printf("error accepting connection from %q: %+v", sck.ep, err)
@@ -331,11 +346,7 @@ connect:
 	}
 	zconn.ep = endpoint
 
-	if !sck.reaperStarted {
-		sck.reaperCond.L.Lock()
-		go sck.connReaper()
-		sck.reaperStarted = true
-	}
+	sck.startReaper()
 	sck.addConn(zconn)
 	return nil
 }
@@ -416,6 +427,8 @@ func (sck *socket) Type() SocketType {
 // Addr returns the listener's address.
 // Addr returns nil if the socket isn't a listener.
 func (sck *socket) Addr() net.Addr {
+	sck.mu.RLock()
+	defer sck.mu.RUnlock()
 	if sck.listener == nil {
 		return nil
 	}
@@ -424,7 +437,9 @@ func (sck *socket) Addr() net.Addr {
 
 // GetOption is used to retrieve an option for a socket.
 func (sck *socket) GetOption(name string) (interface{}, error) {
+	sck.mu.RLock()
 	v, ok := sck.props[name]
+	sck.mu.RUnlock()
 	if !ok {
 		return nil, ErrBadProperty
 	}
@@ -434,7 +449,9 @@ func (sck *socket) GetOption(name string) (interface{}, error) {
 // SetOption is used to set an option for a socket.
 func (sck *socket) SetOption(name string, value interface{}) error {
 	// FIXME(sbinet) different socket types support different options.
+	sck.mu.Lock()
 	sck.props[name] = value
+	sck.mu.Unlock()
 	return nil
 }
 
-- 
2.43.0


From 1886cf533c1eff5558eef245908a473520cca88b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:04 +0000
Subject: [PATCH 11/38] fix: do not leave connections behind

A connection was never closed when its handshake failed, when the socket was
closed during its handshake, or when it came up after the socket was closed; and
one peer that did not complete its handshake kept all later ones waiting.
---
 socket.go | 45 +++++++++++++++++++++++++++++++++------------
 1 file changed, 33 insertions(+), 12 deletions(-)

diff --git a/socket.go b/socket.go
index 915d6fb..63c1d34 100644
--- a/socket.go
+++ b/socket.go
@@ -286,18 +286,34 @@ func (sck *socket) accept(listener net.Listener) {
 				continue
 			}
 
-			zconn, err := Open(conn, sck.sec, sck.typ, sck.id, true, sck.scheduleRmConn)
-			if err != nil {
-				// FIXME(sbinet): maybe bubble up this error to application code?
-				sck.log.Printf("could not open a ZMTP connection with %q: %+v", sck.ep, err)
-				continue
-			}
-
-			sck.addConn(zconn)
+			// A peer that delays its handshake does not keep others from connecting.
+			go func() {
+				zconn, err := sck.open(conn, true)
+				if err != nil {
+					// FIXME(sbinet): maybe bubble up this error to application code?
+					sck.log.Printf("could not open a ZMTP connection with %q: %+v", conn.RemoteAddr(), err)
+					return
+				}
+
+				_ = sck.addConn(zconn)
+			}()
 		}
 	}
 }
 
+// open performs the ZMTP handshake over conn, which it closes on failure and
+// when the socket is closed in the meantime.
+func (sck *socket) open(conn net.Conn, server bool) (*Conn, error) {
+	stop := context.AfterFunc(sck.ctx, func() { conn.Close() })
+	defer stop()
+
+	zconn, err := Open(conn, sck.sec, sck.typ, sck.id, server, sck.scheduleRmConn)
+	if err != nil {
+		conn.Close()
+	}
+	return zconn, err
+}
+
 // Dial connects a remote endpoint to the Socket.
 func (sck *socket) Dial(endpoint string) error {
 	sck.mu.Lock()
@@ -337,7 +353,7 @@ connect:
 		return fmt.Errorf("zmq4: got a nil dial-conn to %q", endpoint)
 	}
 
-	zconn, err := Open(conn, sck.sec, sck.typ, sck.id, false, sck.scheduleRmConn)
+	zconn, err := sck.open(conn, false)
 	if err != nil {
 		return fmt.Errorf("zmq4: could not open a ZMTP connection: %w", err)
 	}
@@ -347,12 +363,16 @@ connect:
 	zconn.ep = endpoint
 
 	sck.startReaper()
-	sck.addConn(zconn)
-	return nil
+	return sck.addConn(zconn)
 }
 
-func (sck *socket) addConn(c *Conn) {
+func (sck *socket) addConn(c *Conn) error {
 	sck.mu.Lock()
+	if sck.isClosed {
+		sck.mu.Unlock()
+		c.Close()
+		return fmt.Errorf("zmq4: socket is closed")
+	}
 	sck.conns = append(sck.conns, c)
 	if len(c.Peer.Meta[sysSockID]) == 0 {
 		switch c.typ {
@@ -379,6 +399,7 @@ func (sck *socket) addConn(c *Conn) {
 	for _, topic := range topics {
 		_ = sck.Send(NewMsg(append([]byte{1}, topic...)))
 	}
+	return nil
 }
 
 func (sck *socket) rmConn(c *Conn) {
-- 
2.43.0


From 6cff0a1c3df508a3b3de308fd978e6f3fb596c59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:59 +0000
Subject: [PATCH 12/38] fix: make inproc connections byte streams and their
 rendez-vous one to one

A read shorter than the matching write lost the rest of it, so that messages
over 255 bytes broke the connection; data still buffered when the peer closed
was lost; Read was not woken by Close of either end; Write kept the caller's
slice. Accept returned connections that nobody had dialed, and closing a
listener left a waiting Dial blocked.
---
 internal/inproc/conn.go   | 42 +++++++++++++++++++++++++++++----------
 internal/inproc/inproc.go | 20 +++++++++++++++----
 2 files changed, 47 insertions(+), 15 deletions(-)

diff --git a/internal/inproc/conn.go b/internal/inproc/conn.go
index 52a1aa0..6c462a4 100644
--- a/internal/inproc/conn.go
+++ b/internal/inproc/conn.go
@@ -20,6 +20,9 @@ type conn struct {
 	r    <-chan []byte
 	w    chan<- []byte
 
+	rmu  sync.Mutex // Serializes reads and guards rest
+	rest []byte     // Received data that was not read yet
+
 	once       sync.Once // Protects closing localDone
 	localDone  chan struct{}
 	remoteDone <-chan struct{}
@@ -46,9 +49,13 @@ func (c *conn) write(data []byte) (int, error) {
 		return 0, timeoutError{}
 	}
 
+	if len(data) == 0 {
+		return 0, nil
+	}
+
 	var n int
 	select {
-	case c.w <- data:
+	case c.w <- append([]byte(nil), data...): // the caller keeps data
 		n = len(data)
 		return n, nil
 	case <-c.localDone:
@@ -69,25 +76,38 @@ func (c *conn) Read(data []byte) (int, error) {
 }
 
 func (c *conn) read(data []byte) (int, error) {
+	c.rmu.Lock()
+	defer c.rmu.Unlock()
+
 	switch {
 	case isClosedChan(c.localDone):
 		return 0, io.ErrClosedPipe
-	case isClosedChan(c.remoteDone):
-		return 0, io.EOF
 	case isClosedChan(c.rdeadline.wait()):
 		return 0, timeoutError{}
+	case len(data) == 0:
+		return 0, nil
 	}
 
-	select {
-	case bw := <-c.r:
-		nr := copy(data, bw)
-		if len(data) < len(bw) {
-			return nr, io.ErrShortBuffer
+	if len(c.rest) == 0 {
+		select {
+		case c.rest = <-c.r:
+		case <-c.localDone:
+			return 0, io.ErrClosedPipe
+		case <-c.rdeadline.wait():
+			return 0, timeoutError{}
+		case <-c.remoteDone:
+			// what the peer wrote before it closed comes first
+			select {
+			case c.rest = <-c.r:
+			default:
+				return 0, io.EOF
+			}
 		}
-		return nr, nil
-	case <-c.rdeadline.wait():
-		return 0, timeoutError{}
 	}
+
+	n := copy(data, c.rest)
+	c.rest = c.rest[n:]
+	return n, nil
 }
 
 func (c *conn) LocalAddr() net.Addr  { return c.addr }
diff --git a/internal/inproc/inproc.go b/internal/inproc/inproc.go
index 8b0d6eb..c369c19 100644
--- a/internal/inproc/inproc.go
+++ b/internal/inproc/inproc.go
@@ -48,6 +48,8 @@ type Listener struct {
 type pipe struct {
 	p1 *conn
 	p2 *conn
+
+	dialed bool // p2 was handed to a Dial (guarded by mgr.mu)
 }
 
 func newPipe(addr Addr) *pipe {
@@ -75,7 +77,7 @@ func newPipe(addr Addr) *pipe {
 		rdeadline:  makePipeDeadline(),
 		wdeadline:  makePipeDeadline(),
 	}
-	return &pipe{p1, p2}
+	return &pipe{p1: p1, p2: p2}
 }
 
 func (p *pipe) Close() error {
@@ -130,21 +132,29 @@ func (l *Listener) Close() error {
 			err = e
 		}
 	}
+	l.pipes = nil
 	l.closed = true
 	delete(mgr.db, string(l.addr))
+	mgr.cv.Broadcast()
 	return err
 }
 
 // Accept waits for and returns the next connection to the listener.
 func (l *Listener) Accept() (net.Conn, error) {
 	mgr.mu.Lock()
+	defer mgr.mu.Unlock()
+	if l.closed {
+		return nil, ErrClosed
+	}
+
 	p := newPipe(l.addr)
 	l.pipes = append(l.pipes, p)
-	closed := l.closed
 	mgr.cv.Broadcast()
-	mgr.mu.Unlock()
+	for !p.dialed && !l.closed {
+		mgr.cv.Wait()
+	}
 
-	if closed {
+	if !p.dialed {
 		return nil, ErrClosed
 	}
 	return p.p1, nil
@@ -166,6 +176,8 @@ func Dial(addr string) (net.Conn, error) {
 		if n := len(l.pipes); n != 0 {
 			p := l.pipes[n-1]
 			l.pipes = l.pipes[:n-1]
+			p.dialed = true
+			mgr.cv.Broadcast()
 			mgr.mu.Unlock()
 			return p.p2, nil
 		}
-- 
2.43.0


From bc54eca976852c1625d556251b1d4ce54bb2165e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:59 +0000
Subject: [PATCH 13/38] fix: Close does not fail over connections that were
 closed already

Whether the reader had closed a lost connection first was a matter of timing.
---
 socket.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/socket.go b/socket.go
index 63c1d34..9fef384 100644
--- a/socket.go
+++ b/socket.go
@@ -151,7 +151,7 @@ func (sck *socket) Close() error {
 	var err error
 	for _, conn := range sck.conns {
 		e := conn.Close()
-		if e != nil && err == nil {
+		if e != nil && err == nil && !errors.Is(e, net.ErrClosed) {
 			err = e
 		}
 	}
-- 
2.43.0


From fba02e984b994ace689abeb8729396950fde5dd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:00 +0000
Subject: [PATCH 14/38] fix: keep the frames of a message together on the wire

A Send that timed out leaves its write behind; the next Send, a reply to a PING
or a subscription then wrote in the middle of it.
---
 conn.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/conn.go b/conn.go
index 7905be9..6b43f46 100644
--- a/conn.go
+++ b/conn.go
@@ -32,6 +32,8 @@ type Conn struct {
 		Meta   Metadata
 	}
 
+	wmu sync.Mutex // keeps the frames of a message together
+
 	mu     sync.RWMutex
 	topics map[string]struct{} // set of subscribed topics
 
@@ -178,6 +180,8 @@ func (c *Conn) SendCmd(name string, body []byte) error {
 	if err != nil {
 		return err
 	}
+	c.wmu.Lock()
+	defer c.wmu.Unlock()
 	return c.send(true, buf, 0)
 }
 
@@ -187,6 +191,9 @@ func (c *Conn) SendMsg(msg Msg) error {
 		return ErrClosedConn
 	}
 
+	c.wmu.Lock()
+	defer c.wmu.Unlock()
+
 	// STREAM sockets handle raw TCP data differently
 	if c.typ == Stream {
 		return c.sendStream(msg)
-- 
2.43.0


From 360a9bc034153b5c200afc791c5516f695156a3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:53 +0000
Subject: [PATCH 15/38] fix: time-outs and cancellation end every blocked Send
 and Recv with an error

Send without any peer returned nil when the time-out had passed, ROUTER and REQ
sends to a stalled peer ignored it, REQ's Recv ignored the socket's context, and
XPUB's Recv returned an empty message when its context ended.
---
 msgio.go  | 12 +++++++++---
 pub.go    |  5 ++++-
 req.go    | 13 ++++++++++++-
 router.go | 12 ++++++++----
 4 files changed, 33 insertions(+), 9 deletions(-)

diff --git a/msgio.go b/msgio.go
index 41e4aee..d594ea1 100644
--- a/msgio.go
+++ b/msgio.go
@@ -88,7 +88,9 @@ func (q *qreader) rmConn(r *Conn) {
 }
 
 func (q *qreader) read(ctx context.Context, msg *Msg) error {
-	q.sem.lock(ctx)
+	if err := q.sem.lock(ctx); err != nil {
+		return err
+	}
 	select {
 	case <-ctx.Done():
 		return ctx.Err()
@@ -166,7 +168,9 @@ func (mw *mwriter) rmConn(w *Conn) {
 }
 
 func (w *mwriter) write(ctx context.Context, msg Msg) error {
-	w.sem.lock(ctx)
+	if err := w.sem.lock(ctx); err != nil {
+		return err
+	}
 	grp, _ := errgrp.WithContext(ctx)
 	w.mu.Lock()
 	for i := range w.ws {
@@ -199,10 +203,12 @@ func (sem *semaphore) enable() {
 	}
 }
 
-func (sem *semaphore) lock(ctx context.Context) {
+func (sem *semaphore) lock(ctx context.Context) error {
 	select {
 	case <-ctx.Done():
+		return ctx.Err()
 	case <-sem.ready:
+		return nil
 	}
 }
 
diff --git a/pub.go b/pub.go
index 701b085..22d6113 100644
--- a/pub.go
+++ b/pub.go
@@ -176,9 +176,12 @@ func (q *pubQReader) rmConn(r *Conn) {
 }
 
 func (q *pubQReader) read(ctx context.Context, msg *Msg) error {
-	q.sem.lock(ctx)
+	if err := q.sem.lock(ctx); err != nil {
+		return err
+	}
 	select {
 	case <-ctx.Done():
+		return ctx.Err()
 	case *msg = <-q.c:
 	}
 	return msg.err
diff --git a/req.go b/req.go
index b918438..fb6622e 100644
--- a/req.go
+++ b/req.go
@@ -9,6 +9,8 @@ import (
 	"fmt"
 	"net"
 	"sync"
+
+	errgrp "github.com/luxfi/zmq/v4/internal/errgroup"
 )
 
 // NewReq returns a new REQ ZeroMQ socket.
@@ -112,7 +114,11 @@ func (r *reqWriter) write(ctx context.Context, msg Msg) error {
 	for i := 0; i < len(r.conns); i++ {
 		cur := (i + r.nextConn) % len(r.conns)
 		conn := r.conns[cur]
-		err = conn.SendMsg(msg)
+		grp, _ := errgrp.WithContext(ctx)
+		grp.Go(func() error {
+			return conn.SendMsg(msg)
+		})
+		err = grp.Wait()
 		if err == nil {
 			r.nextConn = (cur + 1) % len(r.conns)
 			r.state.Set(conn)
@@ -183,8 +189,13 @@ func (r *reqReader) read(ctx context.Context, msg *Msg) error {
 	if curConn == nil {
 		return fmt.Errorf("zmq4: no connections available")
 	}
+	stop := context.AfterFunc(ctx, func() { curConn.Close() })
+	defer stop()
 	*msg = curConn.read()
 	if msg.err != nil {
+		if err := ctx.Err(); err != nil {
+			return err
+		}
 		return msg.err
 	}
 	if len(msg.Frames) > 1 {
diff --git a/router.go b/router.go
index 14ac205..0049ad1 100644
--- a/router.go
+++ b/router.go
@@ -10,7 +10,7 @@ import (
 	"net"
 	"sync"
 
-	"golang.org/x/sync/errgroup"
+	errgrp "github.com/luxfi/zmq/v4/internal/errgroup"
 )
 
 // NewRouter returns a new ROUTER ZeroMQ socket.
@@ -143,7 +143,9 @@ func (q *routerQReader) rmConn(r *Conn) {
 }
 
 func (q *routerQReader) read(ctx context.Context, msg *Msg) error {
-	q.sem.lock(ctx)
+	if err := q.sem.lock(ctx); err != nil {
+		return err
+	}
 	select {
 	case <-ctx.Done():
 		return ctx.Err()
@@ -228,8 +230,10 @@ func (mw *routerMWriter) rmConn(w *Conn) {
 }
 
 func (w *routerMWriter) write(ctx context.Context, msg Msg) error {
-	w.sem.lock(ctx)
-	grp, _ := errgroup.WithContext(ctx)
+	if err := w.sem.lock(ctx); err != nil {
+		return err
+	}
+	grp, _ := errgrp.WithContext(ctx)
 	w.mu.Lock()
 	id := msg.Frames[0]
 	dmsg := NewMsgFrom(msg.Frames[1:]...)
-- 
2.43.0


From 4bf29985d341051febf98e76d119f728d13db11f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:18 +0000
Subject: [PATCH 16/38] fix: Send and Recv on closed PUB, ROUTER, REQ and REP
 sockets fail

They skipped the check that the other sockets make, so that Send could report
success and Recv return a message after Close.
---
 pub.go    |  9 ++-------
 rep.go    | 15 +++------------
 req.go    | 15 +++------------
 router.go |  4 +---
 4 files changed, 9 insertions(+), 34 deletions(-)

diff --git a/pub.go b/pub.go
index 22d6113..170b477 100644
--- a/pub.go
+++ b/pub.go
@@ -44,19 +44,14 @@ func (pub *pubSocket) Close() error {
 // Send puts the message on the outbound send queue.
 // Send blocks until the message can be queued or the send deadline expires.
 func (pub *pubSocket) Send(msg Msg) error {
-	ctx, cancel := context.WithTimeout(pub.sck.ctx, pub.sck.Timeout())
-	defer cancel()
-	return pub.sck.w.write(ctx, msg)
+	return pub.sck.Send(msg)
 }
 
 // SendMulti puts the message on the outbound send queue.
 // SendMulti blocks until the message can be queued or the send deadline expires.
 // The message will be sent as a multipart message.
 func (pub *pubSocket) SendMulti(msg Msg) error {
-	msg.multipart = true
-	ctx, cancel := context.WithTimeout(pub.sck.ctx, pub.sck.Timeout())
-	defer cancel()
-	return pub.sck.w.write(ctx, msg)
+	return pub.sck.SendMulti(msg)
 }
 
 // Recv receives a complete message.
diff --git a/rep.go b/rep.go
index bb07b87..57016e8 100644
--- a/rep.go
+++ b/rep.go
@@ -34,28 +34,19 @@ func (rep *repSocket) Close() error {
 // Send puts the message on the outbound send queue.
 // Send blocks until the message can be queued or the send deadline expires.
 func (rep *repSocket) Send(msg Msg) error {
-	ctx, cancel := context.WithTimeout(rep.sck.ctx, rep.sck.Timeout())
-	defer cancel()
-	return rep.sck.w.write(ctx, msg)
+	return rep.sck.Send(msg)
 }
 
 // SendMulti puts the message on the outbound send queue.
 // SendMulti blocks until the message can be queued or the send deadline expires.
 // The message will be sent as a multipart message.
 func (rep *repSocket) SendMulti(msg Msg) error {
-	msg.multipart = true
-	ctx, cancel := context.WithTimeout(rep.sck.ctx, rep.sck.Timeout())
-	defer cancel()
-	return rep.sck.w.write(ctx, msg)
+	return rep.sck.SendMulti(msg)
 }
 
 // Recv receives a complete message.
 func (rep *repSocket) Recv() (Msg, error) {
-	ctx, cancel := context.WithCancel(rep.sck.ctx)
-	defer cancel()
-	var msg Msg
-	err := rep.sck.r.read(ctx, &msg)
-	return msg, err
+	return rep.sck.Recv()
 }
 
 // Listen connects a local endpoint to the Socket.
diff --git a/req.go b/req.go
index fb6622e..a69dc2a 100644
--- a/req.go
+++ b/req.go
@@ -37,28 +37,19 @@ func (req *reqSocket) Close() error {
 // Send puts the message on the outbound send queue.
 // Send blocks until the message can be queued or the send deadline expires.
 func (req *reqSocket) Send(msg Msg) error {
-	ctx, cancel := context.WithTimeout(req.sck.ctx, req.sck.Timeout())
-	defer cancel()
-	return req.sck.w.write(ctx, msg)
+	return req.sck.Send(msg)
 }
 
 // SendMulti puts the message on the outbound send queue.
 // SendMulti blocks until the message can be queued or the send deadline expires.
 // The message will be sent as a multipart message.
 func (req *reqSocket) SendMulti(msg Msg) error {
-	msg.multipart = true
-	ctx, cancel := context.WithTimeout(req.sck.ctx, req.sck.Timeout())
-	defer cancel()
-	return req.sck.w.write(ctx, msg)
+	return req.sck.SendMulti(msg)
 }
 
 // Recv receives a complete message.
 func (req *reqSocket) Recv() (Msg, error) {
-	ctx, cancel := context.WithCancel(req.sck.ctx)
-	defer cancel()
-	var msg Msg
-	err := req.sck.r.read(ctx, &msg)
-	return msg, err
+	return req.sck.Recv()
 }
 
 // Listen connects a local endpoint to the Socket.
diff --git a/router.go b/router.go
index 0049ad1..c5a3543 100644
--- a/router.go
+++ b/router.go
@@ -35,9 +35,7 @@ func (router *routerSocket) Close() error {
 // Send puts the message on the outbound send queue.
 // Send blocks until the message can be queued or the send deadline expires.
 func (router *routerSocket) Send(msg Msg) error {
-	ctx, cancel := context.WithTimeout(router.sck.ctx, router.sck.Timeout())
-	defer cancel()
-	return router.sck.w.write(ctx, msg)
+	return router.sck.Send(msg)
 }
 
 // SendMulti puts the message on the outbound send queue.
-- 
2.43.0


From 2180e83c6be8d9257e94363afd1311f4862baa4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:18 +0000
Subject: [PATCH 17/38] fix: sending a message without frames does not panic

On PUB and XPUB it did so in a goroutine of the library, on ROUTER with the
writer's lock held.
---
 pub.go    | 4 ++++
 router.go | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/pub.go b/pub.go
index 170b477..c588957 100644
--- a/pub.go
+++ b/pub.go
@@ -290,6 +290,10 @@ func (mw *pubMWriter) rmConn(w *Conn) {
 }
 
 func (w *pubMWriter) write(ctx context.Context, msg Msg) error {
+	if len(msg.Frames) == 0 {
+		return nil // nothing to send
+	}
+
 	w.mu.RLock()
 	defer w.mu.RUnlock()
 
diff --git a/router.go b/router.go
index c5a3543..ccffac3 100644
--- a/router.go
+++ b/router.go
@@ -7,6 +7,7 @@ package zmq4
 import (
 	"bytes"
 	"context"
+	"fmt"
 	"net"
 	"sync"
 
@@ -228,6 +229,9 @@ func (mw *routerMWriter) rmConn(w *Conn) {
 }
 
 func (w *routerMWriter) write(ctx context.Context, msg Msg) error {
+	if len(msg.Frames) == 0 {
+		return fmt.Errorf("zmq4: ROUTER messages start with an identity")
+	}
 	if err := w.sem.lock(ctx); err != nil {
 		return err
 	}
-- 
2.43.0


From be2c3f363a6e508797a47b8fc6a4878e44e8a7f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:18 +0000
Subject: [PATCH 18/38] fix: refuse a negative high-water mark

It was accepted, and the next subscriber to connect crashed the process.
---
 pub.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pub.go b/pub.go
index c588957..d124103 100644
--- a/pub.go
+++ b/pub.go
@@ -98,7 +98,7 @@ func (pub *pubSocket) SetOption(name string, value interface{}) error {
 	}
 
 	hwm, ok := value.(int)
-	if !ok {
+	if !ok || hwm < 0 {
 		return ErrBadProperty
 	}
 
-- 
2.43.0


From 88fc7b32de0070f19ae73edf44354ebc6ca2ff7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:18 +0000
Subject: [PATCH 19/38] fix: PLAIN keeps its credentials for later connections

They were wiped after the first handshake, so that a socket's second connection,
or its reconnection, authenticated with empty ones.
---
 security/plain/plain.go | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/security/plain/plain.go b/security/plain/plain.go
index 6a8d87d..071e7fb 100644
--- a/security/plain/plain.go
+++ b/security/plain/plain.go
@@ -126,9 +126,6 @@ func (sec *security) Handshake(conn *zmq4.Conn, server bool) error {
 		if err != nil {
 			return fmt.Errorf("security/plain: could not unmarshal peer metadata: %w", err)
 		}
-
-		sec.user = nil
-		sec.pass = nil
 	}
 	return nil
 }
-- 
2.43.0


From cc7ade5c732bb1113dec78a5add9e523da46e752 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:18 +0000
Subject: [PATCH 20/38] fix: messages from one ROUTER peer do not share their
 identity frame

A receiver that changed the frame changed it in every later message.
---
 router.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/router.go b/router.go
index ccffac3..5db9ae3 100644
--- a/router.go
+++ b/router.go
@@ -167,7 +167,8 @@ func (q *routerQReader) listen(ctx context.Context, r *Conn) {
 			if msg.err != nil {
 				return
 			}
-			msg.Frames = append([][]byte{id}, msg.Frames...)
+			// the receiver owns its copy of the identity
+			msg.Frames = append([][]byte{append([]byte(nil), id...)}, msg.Frames...)
 			select {
 			case <-ctx.Done():
 				return
-- 
2.43.0


From b06aa9fca0754600b39583422f45f09822238153 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:18 +0000
Subject: [PATCH 21/38] fix: PUB discards messages that are no subscriptions

They filled a queue that nobody reads, after which the subscriptions of every
peer were ignored.
---
 pub.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/pub.go b/pub.go
index d124103..c51aad4 100644
--- a/pub.go
+++ b/pub.go
@@ -27,7 +27,9 @@ type Topics interface {
 func NewPub(ctx context.Context, opts ...Option) Socket {
 	pub := &pubSocket{sck: newSocket(ctx, Pub, opts...)}
 	pub.sck.w = newPubMWriter(pub.sck.ctx)
-	pub.sck.r = newPubQReader(pub.sck.ctx)
+	r := newPubQReader(pub.sck.ctx)
+	r.discard = true
+	pub.sck.r = r
 	return pub
 }
 
@@ -121,6 +123,8 @@ type pubQReader struct {
 	c  chan Msg
 
 	sem *semaphore // ready when a connection is live.
+
+	discard bool // nobody receives what is not a subscription
 }
 
 func newPubQReader(ctx context.Context) *pubQReader {
@@ -198,6 +202,7 @@ func (q *pubQReader) listen(ctx context.Context, r *Conn) {
 			switch {
 			case q.topic(msg):
 				r.subscribe(msg)
+			case q.discard:
 			default:
 				select {
 				case <-ctx.Done():
-- 
2.43.0


From 053d138e1b2112d39b1b90dd79da400b982fb30d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:18 +0000
Subject: [PATCH 22/38] fix: disconnecting from a transport without peers does
 not panic

---
 networking/transport.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/networking/transport.go b/networking/transport.go
index 6dad206..4f18e14 100644
--- a/networking/transport.go
+++ b/networking/transport.go
@@ -206,7 +206,7 @@ func (t *Transport) DisconnectPeer(peerID string) {
 	}
 
 	// Remove from peers list
-	newPeers := make([]string, 0, len(t.peers)-1)
+	newPeers := make([]string, 0, len(t.peers))
 	for _, p := range t.peers {
 		if p != peerID {
 			newPeers = append(newPeers, p)
-- 
2.43.0


From ef673de7a2f60c13e38126572539b36978e09bed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:18 +0000
Subject: [PATCH 23/38] fix: close the dealer of a peer that could not be
 connected

---
 networking/transport.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/networking/transport.go b/networking/transport.go
index 4f18e14..ce8e3c9 100644
--- a/networking/transport.go
+++ b/networking/transport.go
@@ -185,6 +185,7 @@ func (t *Transport) ConnectPeerWithAddress(peerID, address string, port int) err
 
 	routerAddr := fmt.Sprintf("tcp://%s:%d", address, port+1000)
 	if err := dealer.Dial(routerAddr); err != nil {
+		dealer.Close()
 		return fmt.Errorf("failed to connect dealer to %s at %s: %w", peerID, routerAddr, err)
 	}
 
-- 
2.43.0


From bfed7f813ca788bf6c1fd79469ed37491df9783d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:33 +0000
Subject: [PATCH 24/38] fix: a subscription cancelled while a connection comes
 up is not resent

---
 go.sum    |  2 ++
 socket.go | 14 +++++++-------
 sub.go    |  3 +++
 3 files changed, 12 insertions(+), 7 deletions(-)

diff --git a/go.sum b/go.sum
index e8c51f4..9c3737a 100644
--- a/go.sum
+++ b/go.sum
@@ -1,5 +1,7 @@
 github.com/davecgh/go-spew v1.1.2-0.20180830191138-d8f796af33cc h1:U9qPSI2PIWSS1VwoXQT9A3Wy9MM3WgvqSxFWenqJduM=
 github.com/davecgh/go-spew v1.1.2-0.20180830191138-d8f796af33cc/go.mod h1:J7Y8YcW2NihsgmVo/mv3lAwl/skON4iLHjSsI+c5H38=
+github.com/luxfi/czmq/v4 v4.2.2 h1:D4QDl99OfGoi8Gk3RI8GZ6pqt+040rolj+h36scSj2M=
+github.com/luxfi/czmq/v4 v4.2.2/go.mod h1:WFY9ldUbeU900P8bcIRr7Jim23veOhJL5A5zSpTogdU=
 github.com/pmezard/go-difflib v1.0.1-0.20181226105442-5d4384ee4fb2 h1:Jamvg5psRIccs7FGNTlIRMkT8wgtp5eCXdBlqhYGL6U=
 github.com/pmezard/go-difflib v1.0.1-0.20181226105442-5d4384ee4fb2/go.mod h1:iKH77koFhYxTK1pcRnkKkqfTogsbg7gZNVY4sRDYZ/4=
 github.com/stretchr/testify v1.11.1 h1:7s2iGBzp5EwR7/aIZr8ao5+dra3wiQyKjjFuvgVKu7U=
diff --git a/socket.go b/socket.go
index 9fef384..2499604 100644
--- a/socket.go
+++ b/socket.go
@@ -42,6 +42,7 @@ type socket struct {
 	sec           Security
 	log           *log.Logger
 	subTopics     func() []string
+	subMu         sync.Mutex // keeps subscriptions and their upcalls in step
 	autoReconnect bool
 	timeout       time.Duration
 
@@ -388,16 +389,15 @@ func (sck *socket) addConn(c *Conn) error {
 	if sck.r != nil {
 		sck.r.addConn(c)
 	}
-	// Get topics to resend while holding the lock
-	var topics []string
-	if sck.subTopics != nil {
-		topics = sck.subTopics()
-	}
 	sck.mu.Unlock()
 
 	// resend subscriptions for topics if there are any (without holding the lock)
-	for _, topic := range topics {
-		_ = sck.Send(NewMsg(append([]byte{1}, topic...)))
+	if sck.subTopics != nil {
+		sck.subMu.Lock()
+		defer sck.subMu.Unlock()
+		for _, topic := range sck.subTopics() {
+			_ = sck.Send(NewMsg(append([]byte{1}, topic...)))
+		}
 	}
 	return nil
 }
diff --git a/sub.go b/sub.go
index 1153246..e4ef2fa 100644
--- a/sub.go
+++ b/sub.go
@@ -93,6 +93,9 @@ func (sub *subSocket) SetOption(name string, value interface{}) error {
 		topic []byte
 	)
 
+	sub.sck.subMu.Lock()
+	defer sub.sck.subMu.Unlock()
+
 	switch name {
 	case OptionSubscribe:
 		k := value.(string)
-- 
2.43.0


From 15b3e6ae5f71318d357324b3784c64c47e9c5fa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:12 +0000
Subject: [PATCH 25/38] fix: a PLAIN server goes on with nothing but INITIATE

---
 security/plain/plain.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/security/plain/plain.go b/security/plain/plain.go
index 071e7fb..fcb80e5 100644
--- a/security/plain/plain.go
+++ b/security/plain/plain.go
@@ -65,6 +65,11 @@ func (sec *security) Handshake(conn *zmq4.Conn, server bool) error {
 			return fmt.Errorf("security/plain: could not receive INITIATE from client: %w", err)
 		}
 
+		if cmd.Name != zmq4.CmdInitiate {
+			_ = conn.SendCmd(zmq4.CmdError, []byte("invalid command")) // FIXME(sbinet) correct ERROR reason
+			return fmt.Errorf("security/plain: expected INITIATE command")
+		}
+
 		err = conn.Peer.Meta.UnmarshalZMTP(cmd.Body)
 		if err != nil {
 			return fmt.Errorf("security/plain: could not unmarshal peer metadata: %w", err)
-- 
2.43.0


From 534bc30f92f08e36b703ff2f29624e3ecbe4cc13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:00 +0000
Subject: [PATCH 26/38] fix: a frame of impossible length ends the connection

---
 conn.go | 1 +
 req.go  | 2 +-
 2 files changed, 2 insertions(+), 1 deletion(-)

diff --git a/conn.go b/conn.go
index 6b43f46..5d2f4bf 100644
--- a/conn.go
+++ b/conn.go
@@ -485,6 +485,7 @@ func (c *Conn) read() Msg {
 
 		if size > uint64(maxInt64) {
 			msg.err = errOverflow
+			c.SetClosed() // where the next frame begins is unknown
 			return msg
 		}
 
diff --git a/req.go b/req.go
index a69dc2a..53e97ea 100644
--- a/req.go
+++ b/req.go
@@ -177,7 +177,7 @@ func (r *reqReader) Close() error {
 
 func (r *reqReader) read(ctx context.Context, msg *Msg) error {
 	curConn := r.state.Get()
-	if curConn == nil {
+	if curConn == nil || curConn.Closed() {
 		return fmt.Errorf("zmq4: no connections available")
 	}
 	stop := context.AfterFunc(ctx, func() { curConn.Close() })
-- 
2.43.0


From ce58cf547e6ce4df1154b01ee9ddb4ccc637da00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:55:47 +0000
Subject: [PATCH 27/38] fix: a connection whose write failed is closed when it
 is removed

---
 socket.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/socket.go b/socket.go
index 2499604..d371096 100644
--- a/socket.go
+++ b/socket.go
@@ -419,6 +419,7 @@ func (sck *socket) rmConn(c *Conn) {
 	}
 
 	sck.conns = append(sck.conns[:cur], sck.conns[cur+1:]...)
+	_ = c.Close() // nobody else does when a write has failed
 	if sck.r != nil {
 		sck.r.rmConn(c)
 	}
-- 
2.43.0


From f43c18100076d36a8a60766581b14ac3aebafb5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:01:23 +0000
Subject: [PATCH 28/38] fix: a send that waits holds no lock of its writer

---
 msgio.go  | 5 ++---
 router.go | 5 ++---
 2 files changed, 4 insertions(+), 6 deletions(-)

diff --git a/msgio.go b/msgio.go
index d594ea1..3642602 100644
--- a/msgio.go
+++ b/msgio.go
@@ -179,9 +179,8 @@ func (w *mwriter) write(ctx context.Context, msg Msg) error {
 			return ww.SendMsg(msg)
 		})
 	}
-	err := grp.Wait()
-	w.mu.Unlock()
-	return err
+	w.mu.Unlock() // a peer that does not read delays neither others nor their time-outs
+	return grp.Wait()
 }
 
 type semaphore struct {
diff --git a/router.go b/router.go
index 5db9ae3..80bf663 100644
--- a/router.go
+++ b/router.go
@@ -250,9 +250,8 @@ func (w *routerMWriter) write(ctx context.Context, msg Msg) error {
 			return ww.SendMsg(dmsg)
 		})
 	}
-	err := grp.Wait()
-	w.mu.Unlock()
-	return err
+	w.mu.Unlock() // a peer that does not read delays neither others nor their time-outs
+	return grp.Wait()
 }
 
 var (
-- 
2.43.0


From 157de1cc5b7b7a1e174504be86a378935902d357 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:12:05 +0000
Subject: [PATCH 29/38] fix: a reconnection outlives a failed handshake

---
 socket.go | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/socket.go b/socket.go
index d371096..ceed87c 100644
--- a/socket.go
+++ b/socket.go
@@ -317,6 +317,13 @@ func (sck *socket) open(conn net.Conn, server bool) (*Conn, error) {
 
 // Dial connects a remote endpoint to the Socket.
 func (sck *socket) Dial(endpoint string) error {
+	return sck.dial(endpoint, false)
+}
+
+// dial connects a remote endpoint to the Socket. When it does so again, to
+// replace a connection that broke, a handshake that fails is retried like an
+// attempt to connect: the endpoint may be in the middle of a restart.
+func (sck *socket) dial(endpoint string, again bool) error {
 	sck.mu.Lock()
 	if sck.isClosed {
 		sck.mu.Unlock()
@@ -356,6 +363,11 @@ connect:
 
 	zconn, err := sck.open(conn, false)
 	if err != nil {
+		if again && (sck.maxRetries == -1 || retries < sck.maxRetries) && sck.ctx.Err() == nil {
+			retries++
+			time.Sleep(sck.retry)
+			goto connect
+		}
 		return fmt.Errorf("zmq4: could not open a ZMTP connection: %w", err)
 	}
 	if zconn == nil {
@@ -437,7 +449,7 @@ func (sck *socket) scheduleRmConn(c *Conn) {
 	// Only what was dialed can be dialed again. The caller may hold locks of the
 	// connection pools, that Dial needs to add the new connection.
 	if sck.autoReconnect && c.ep != "" {
-		go sck.Dial(c.ep)
+		go sck.dial(c.ep, true)
 	}
 }
 
-- 
2.43.0


From 50e10910a92f92719ea6ff69e53d928e6487d24a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:43:51 +0000
Subject: [PATCH 30/38] fix: disconnecting a peer also ends the subscription to
 its broadcasts

---
 networking/transport.go | 60 +++++++++++++++++++++++++++++------------
 1 file changed, 43 insertions(+), 17 deletions(-)

diff --git a/networking/transport.go b/networking/transport.go
index ce8e3c9..4f72c22 100644
--- a/networking/transport.go
+++ b/networking/transport.go
@@ -22,9 +22,9 @@ type Transport struct {
 	ctx     context.Context
 	cancel  context.CancelFunc
 	pub     zmq4.Socket
-	sub     zmq4.Socket
 	router  zmq4.Socket
 	dealers map[string]zmq4.Socket
+	subs    map[string]subscription // to the broadcasts of each peer
 	config  Config
 
 	mu       sync.RWMutex
@@ -40,6 +40,12 @@ type Transport struct {
 	wg     sync.WaitGroup
 }
 
+// subscription is a socket that receives the broadcasts of one peer.
+type subscription struct {
+	zmq4.Socket
+	cancel context.CancelFunc
+}
+
 // Config holds transport configuration
 type Config struct {
 	NodeID      string
@@ -101,6 +107,7 @@ func New(ctx context.Context, config Config) *Transport {
 		config:   config,
 		handlers: make(map[string]MessageHandler),
 		dealers:  make(map[string]zmq4.Socket),
+		subs:     make(map[string]subscription),
 		stopCh:   make(chan struct{}),
 	}
 }
@@ -114,10 +121,6 @@ func (t *Transport) Start() error {
 		return fmt.Errorf("failed to bind pub socket on %s: %w", pubAddr, err)
 	}
 
-	// SUB socket for receiving broadcasts
-	t.sub = zmq4.NewSub(t.ctx)
-	t.sub.SetOption(zmq4.OptionSubscribe, "")
-
 	// ROUTER socket for direct messages
 	t.router = zmq4.NewRouter(t.ctx)
 	routerAddr := fmt.Sprintf("tcp://%s:%d", t.config.BindAddress, t.config.BasePort+1000)
@@ -125,8 +128,7 @@ func (t *Transport) Start() error {
 		return fmt.Errorf("failed to bind router socket on %s: %w", routerAddr, err)
 	}
 
-	t.wg.Add(2)
-	go t.subLoop()
+	t.wg.Add(1)
 	go t.routerLoop()
 
 	return nil
@@ -136,21 +138,23 @@ func (t *Transport) Start() error {
 func (t *Transport) Stop() {
 	close(t.stopCh)
 	t.cancel()
+	t.mu.Lock() // a connection under way is complete or abandoned
+	t.mu.Unlock()
 	t.wg.Wait()
 
 	// Close sockets
 	if t.pub != nil {
 		t.pub.Close()
 	}
-	if t.sub != nil {
-		t.sub.Close()
-	}
 	if t.router != nil {
 		t.router.Close()
 	}
 
-	// Close dealer sockets
+	// Close peer sockets
 	t.mu.Lock()
+	for _, sub := range t.subs {
+		sub.close()
+	}
 	for _, dealer := range t.dealers {
 		dealer.Close()
 	}
@@ -167,6 +171,10 @@ func (t *Transport) ConnectPeerWithAddress(peerID, address string, port int) err
 	t.mu.Lock()
 	defer t.mu.Unlock()
 
+	if err := t.ctx.Err(); err != nil {
+		return fmt.Errorf("failed to connect to %s: %w", peerID, err)
+	}
+
 	// Check if already connected
 	for _, p := range t.peers {
 		if p == peerID {
@@ -176,7 +184,11 @@ func (t *Transport) ConnectPeerWithAddress(peerID, address string, port int) err
 
 	// Subscribe to peer's broadcasts
 	subAddr := fmt.Sprintf("tcp://%s:%d", address, port)
-	if err := t.sub.Dial(subAddr); err != nil {
+	ctx, cancel := context.WithCancel(t.ctx)
+	sub := subscription{zmq4.NewSub(ctx), cancel}
+	sub.SetOption(zmq4.OptionSubscribe, "")
+	if err := sub.Dial(subAddr); err != nil {
+		sub.close()
 		return fmt.Errorf("failed to connect sub to %s at %s: %w", peerID, subAddr, err)
 	}
 
@@ -186,21 +198,35 @@ func (t *Transport) ConnectPeerWithAddress(peerID, address string, port int) err
 	routerAddr := fmt.Sprintf("tcp://%s:%d", address, port+1000)
 	if err := dealer.Dial(routerAddr); err != nil {
 		dealer.Close()
+		sub.close()
 		return fmt.Errorf("failed to connect dealer to %s at %s: %w", peerID, routerAddr, err)
 	}
 
 	t.dealers[peerID] = dealer
+	t.subs[peerID] = sub
+	t.wg.Add(1)
+	go t.subLoop(ctx, sub)
 	t.peers = append(t.peers, peerID)
 
 	return nil
 }
 
+// close ends a subscription and its loop.
+func (s subscription) close() {
+	s.cancel()
+	s.Socket.Close()
+}
+
 // DisconnectPeer removes a peer connection
 func (t *Transport) DisconnectPeer(peerID string) {
 	t.mu.Lock()
 	defer t.mu.Unlock()
 
-	// Close and remove dealer
+	// Close and remove subscription and dealer
+	if sub, ok := t.subs[peerID]; ok {
+		sub.close()
+		delete(t.subs, peerID)
+	}
 	if dealer, ok := t.dealers[peerID]; ok {
 		dealer.Close()
 		delete(t.dealers, peerID)
@@ -322,18 +348,18 @@ func (t *Transport) GetMetrics() (sent, received, dropped uint64) {
 	return t.msgSent.Load(), t.msgReceived.Load(), t.msgDropped.Load()
 }
 
-// subLoop processes broadcast messages
-func (t *Transport) subLoop() {
+// subLoop processes broadcast messages of one peer
+func (t *Transport) subLoop(ctx context.Context, sub zmq4.Socket) {
 	defer t.wg.Done()
 
 	for {
 		select {
 		case <-t.stopCh:
 			return
-		case <-t.ctx.Done():
+		case <-ctx.Done():
 			return
 		default:
-			msg, err := t.sub.Recv()
+			msg, err := sub.Recv()
 			if err != nil {
 				if err == context.Canceled || err == context.DeadlineExceeded {
 					return
-- 
2.43.0


From 3ee871824d6fa5256fd3bf5e81d9b5bbd5afda3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:43:52 +0000
Subject: [PATCH 31/38] fix: stopping a transport a second time has no effect

---
 networking/transport.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/networking/transport.go b/networking/transport.go
index 4f72c22..73d7e59 100644
--- a/networking/transport.go
+++ b/networking/transport.go
@@ -36,8 +36,9 @@ type Transport struct {
 	msgReceived atomic.Uint64
 	msgDropped  atomic.Uint64
 
-	stopCh chan struct{}
-	wg     sync.WaitGroup
+	stopCh   chan struct{}
+	stopOnce sync.Once
+	wg       sync.WaitGroup
 }
 
 // subscription is a socket that receives the broadcasts of one peer.
@@ -136,6 +137,10 @@ func (t *Transport) Start() error {
 
 // Stop gracefully shuts down the transport
 func (t *Transport) Stop() {
+	t.stopOnce.Do(t.stop)
+}
+
+func (t *Transport) stop() {
 	close(t.stopCh)
 	t.cancel()
 	t.mu.Lock() // a connection under way is complete or abandoned
-- 
2.43.0


From 63df8d5d08434e23f7aa8bf0f3afbb4ef38c493f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:56 +0000
Subject: [PATCH 32/38] go.sum as it was: two lines slipped into bfed7f8

---
 go.sum | 2 --
 1 file changed, 2 deletions(-)

diff --git a/go.sum b/go.sum
index 9c3737a..e8c51f4 100644
--- a/go.sum
+++ b/go.sum
@@ -1,7 +1,5 @@
 github.com/davecgh/go-spew v1.1.2-0.20180830191138-d8f796af33cc h1:U9qPSI2PIWSS1VwoXQT9A3Wy9MM3WgvqSxFWenqJduM=
 github.com/davecgh/go-spew v1.1.2-0.20180830191138-d8f796af33cc/go.mod h1:J7Y8YcW2NihsgmVo/mv3lAwl/skON4iLHjSsI+c5H38=
-github.com/luxfi/czmq/v4 v4.2.2 h1:D4QDl99OfGoi8Gk3RI8GZ6pqt+040rolj+h36scSj2M=
-github.com/luxfi/czmq/v4 v4.2.2/go.mod h1:WFY9ldUbeU900P8bcIRr7Jim23veOhJL5A5zSpTogdU=
 github.com/pmezard/go-difflib v1.0.1-0.20181226105442-5d4384ee4fb2 h1:Jamvg5psRIccs7FGNTlIRMkT8wgtp5eCXdBlqhYGL6U=
 github.com/pmezard/go-difflib v1.0.1-0.20181226105442-5d4384ee4fb2/go.mod h1:iKH77koFhYxTK1pcRnkKkqfTogsbg7gZNVY4sRDYZ/4=
 github.com/stretchr/testify v1.11.1 h1:7s2iGBzp5EwR7/aIZr8ao5+dra3wiQyKjjFuvgVKu7U=
-- 
2.43.0


From b7dc2165d35612cef3ca24df6c2838efa83e3d9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:36 +0000
Subject: [PATCH 33/38] fix: encrypted frames of another length, or refused by
 the mechanism, left the stream out of step

---
 conn.go | 55 +++++++++++++++++++++++++++++++++++++------------------
 1 file changed, 37 insertions(+), 18 deletions(-)

diff --git a/conn.go b/conn.go
index 5d2f4bf..318e395 100644
--- a/conn.go
+++ b/conn.go
@@ -182,7 +182,11 @@ func (c *Conn) SendCmd(name string, body []byte) error {
 	}
 	c.wmu.Lock()
 	defer c.wmu.Unlock()
-	return c.send(true, buf, 0)
+	frames, err := c.encrypt([][]byte{buf})
+	if err != nil {
+		return err
+	}
+	return c.send(true, frames[0], 0)
 }
 
 // SendMsg sends a ZMTP message over the wire.
@@ -199,12 +203,17 @@ func (c *Conn) SendMsg(msg Msg) error {
 		return c.sendStream(msg)
 	}
 
+	frames, err := c.encrypt(msg.Frames)
+	if err != nil {
+		return fmt.Errorf("zmq4: could not encrypt message: %w", err)
+	}
+
 	if msg.multipart {
-		return c.sendMulti(msg)
+		return c.sendMulti(frames)
 	}
 
-	nframes := len(msg.Frames)
-	for i, frame := range msg.Frames {
+	nframes := len(frames)
+	for i, frame := range frames {
 		var flag byte
 		if i < nframes-1 {
 			flag ^= hasMoreBitFlag
@@ -217,6 +226,24 @@ func (c *Conn) SendMsg(msg Msg) error {
 	return nil
 }
 
+// encrypt returns the frames of a message as they go over the wire. Nothing of
+// a message is written before all of its frames have been encrypted.
+func (c *Conn) encrypt(frames [][]byte) ([][]byte, error) {
+	if c.sec.Type() == NullSecurity {
+		return frames, nil
+	}
+
+	out := make([][]byte, len(frames))
+	for i, frame := range frames {
+		var buf bytes.Buffer
+		if _, err := c.sec.Encrypt(&buf, frame); err != nil {
+			return nil, err
+		}
+		out[i] = buf.Bytes()
+	}
+	return out, nil
+}
+
 // sendStream handles sending for STREAM sockets (raw TCP)
 func (c *Conn) sendStream(msg Msg) error {
 	// For STREAM sockets, frames are sent as raw TCP data
@@ -317,11 +344,11 @@ func (c *Conn) RecvCmd() (Cmd, error) {
 	return cmd, nil
 }
 
-func (c *Conn) sendMulti(msg Msg) error {
+func (c *Conn) sendMulti(frames [][]byte) error {
 	var buffers net.Buffers
 
-	nframes := len(msg.Frames)
-	for i, frame := range msg.Frames {
+	nframes := len(frames)
+	for i, frame := range frames {
 		var flag byte
 		if i < nframes-1 {
 			flag ^= hasMoreBitFlag
@@ -345,16 +372,7 @@ func (c *Conn) sendMulti(msg Msg) error {
 			hdr[1] = uint8(size)
 		}
 
-		switch c.sec.Type() {
-		case NullSecurity:
-			buffers = append(buffers, hdr[:hsz], frame)
-		default:
-			var secBuf bytes.Buffer
-			if _, err := c.sec.Encrypt(&secBuf, frame); err != nil {
-				return err
-			}
-			buffers = append(buffers, hdr[:hsz], secBuf.Bytes())
-		}
+		buffers = append(buffers, hdr[:hsz], frame)
 	}
 
 	if _, err := buffers.WriteTo(c.rw); err != nil {
@@ -395,7 +413,7 @@ func (c *Conn) send(isCommand bool, body []byte, flag byte) error {
 		return err
 	}
 
-	if _, err := c.sec.Encrypt(c.rw, body); err != nil {
+	if _, err := c.rw.Write(body); err != nil {
 		c.checkIO(err)
 		return err
 	}
@@ -505,6 +523,7 @@ func (c *Conn) read() Msg {
 
 		buf := new(bytes.Buffer)
 		if _, msg.err = c.sec.Decrypt(buf, body); msg.err != nil {
+			c.SetClosed()
 			return msg
 		}
 		msg.Frames = append(msg.Frames, buf.Bytes())
-- 
2.43.0


From 33faee45518f8b82d3ff9873c116710136cf7b8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:47 +0000
Subject: [PATCH 34/38] fix: a requester that did not read its reply kept a REP
 socket from serving and accepting others

---
 go.sum |  2 ++
 rep.go | 55 ++++++++++++++++++++++---------------------------------
 2 files changed, 24 insertions(+), 33 deletions(-)

diff --git a/go.sum b/go.sum
index e8c51f4..9c3737a 100644
--- a/go.sum
+++ b/go.sum
@@ -1,5 +1,7 @@
 github.com/davecgh/go-spew v1.1.2-0.20180830191138-d8f796af33cc h1:U9qPSI2PIWSS1VwoXQT9A3Wy9MM3WgvqSxFWenqJduM=
 github.com/davecgh/go-spew v1.1.2-0.20180830191138-d8f796af33cc/go.mod h1:J7Y8YcW2NihsgmVo/mv3lAwl/skON4iLHjSsI+c5H38=
+github.com/luxfi/czmq/v4 v4.2.2 h1:D4QDl99OfGoi8Gk3RI8GZ6pqt+040rolj+h36scSj2M=
+github.com/luxfi/czmq/v4 v4.2.2/go.mod h1:WFY9ldUbeU900P8bcIRr7Jim23veOhJL5A5zSpTogdU=
 github.com/pmezard/go-difflib v1.0.1-0.20181226105442-5d4384ee4fb2 h1:Jamvg5psRIccs7FGNTlIRMkT8wgtp5eCXdBlqhYGL6U=
 github.com/pmezard/go-difflib v1.0.1-0.20181226105442-5d4384ee4fb2/go.mod h1:iKH77koFhYxTK1pcRnkKkqfTogsbg7gZNVY4sRDYZ/4=
 github.com/stretchr/testify v1.11.1 h1:7s2iGBzp5EwR7/aIZr8ao5+dra3wiQyKjjFuvgVKu7U=
diff --git a/rep.go b/rep.go
index 57016e8..4edd8d2 100644
--- a/rep.go
+++ b/rep.go
@@ -9,6 +9,8 @@ import (
 	"fmt"
 	"net"
 	"sync"
+
+	errgrp "github.com/luxfi/zmq/v4/internal/errgroup"
 )
 
 // NewRep returns a new REP ZeroMQ socket.
@@ -208,8 +210,6 @@ type repWriter struct {
 
 	mu    sync.Mutex
 	conns []*Conn
-
-	sendCh chan repSendPayload
 }
 
 func (r repSendPayload) buildReplyMsg() Msg {
@@ -220,13 +220,10 @@ func (r repSendPayload) buildReplyMsg() Msg {
 }
 
 func newRepWriter(ctx context.Context, state *repState) *repWriter {
-	r := &repWriter{
-		ctx:    ctx,
-		state:  state,
-		sendCh: make(chan repSendPayload),
+	return &repWriter{
+		ctx:   ctx,
+		state: state,
 	}
-	go r.run()
-	return r
 }
 
 func (r *repWriter) addConn(w *Conn) {
@@ -253,45 +250,37 @@ func (r *repWriter) rmConn(conn *Conn) {
 
 func (r *repWriter) write(ctx context.Context, msg Msg) error {
 	conn, preamble := r.state.Get()
-	select {
-	case <-ctx.Done():
-		return ctx.Err()
-	case <-r.ctx.Done(): // repWriter.run() terminates on this, sendCh <- will not complete
-		return r.ctx.Err()
-	case r.sendCh <- repSendPayload{conn, preamble, msg}:
+	payload := repSendPayload{conn, preamble, msg}
+	grp, _ := errgrp.WithContext(ctx)
+	grp.Go(func() error {
+		r.sendPayload(payload)
 		return nil
-	}
+	})
+	return grp.Wait()
 }
 
-func (r *repWriter) run() {
-	for {
-		select {
-		case <-r.ctx.Done():
-			return
-		case payload, ok := <-r.sendCh:
-			if !ok {
-				return
-			}
-			r.sendPayload(payload)
-		}
+func (r *repWriter) sendPayload(payload repSendPayload) {
+	if !r.connected(payload.conn) {
+		return
 	}
+	// A requester that does not read its reply only delays this reply.
+	reply := payload.buildReplyMsg()
+	// not much we can do at this point. Perhaps log the error?
+	_ = payload.conn.SendMsg(reply)
 }
 
-func (r *repWriter) sendPayload(payload repSendPayload) {
+func (r *repWriter) connected(c *Conn) bool {
 	r.mu.Lock()
 	defer r.mu.Unlock()
 	for _, conn := range r.conns {
-		if conn == payload.conn {
-			reply := payload.buildReplyMsg()
-			// not much we can do at this point. Perhaps log the error?
-			_ = conn.SendMsg(reply)
-			return
+		if conn == c {
+			return true
 		}
 	}
+	return false
 }
 
 func (r *repWriter) Close() error {
-	close(r.sendCh)
 	r.mu.Lock()
 	defer r.mu.Unlock()
 
-- 
2.43.0


From 7e768a1b9b7d45740cbdf5fa8c499f539dd418a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:02 +0000
Subject: [PATCH 35/38] fix: a long reply kept the REP socket's Send waiting
 for the requester to read it

---
 go.sum |  2 --
 rep.go | 85 +++++++++++++++++++++++++++++++++++++---------------------
 2 files changed, 55 insertions(+), 32 deletions(-)

diff --git a/go.sum b/go.sum
index 9c3737a..e8c51f4 100644
--- a/go.sum
+++ b/go.sum
@@ -1,7 +1,5 @@
 github.com/davecgh/go-spew v1.1.2-0.20180830191138-d8f796af33cc h1:U9qPSI2PIWSS1VwoXQT9A3Wy9MM3WgvqSxFWenqJduM=
 github.com/davecgh/go-spew v1.1.2-0.20180830191138-d8f796af33cc/go.mod h1:J7Y8YcW2NihsgmVo/mv3lAwl/skON4iLHjSsI+c5H38=
-github.com/luxfi/czmq/v4 v4.2.2 h1:D4QDl99OfGoi8Gk3RI8GZ6pqt+040rolj+h36scSj2M=
-github.com/luxfi/czmq/v4 v4.2.2/go.mod h1:WFY9ldUbeU900P8bcIRr7Jim23veOhJL5A5zSpTogdU=
 github.com/pmezard/go-difflib v1.0.1-0.20181226105442-5d4384ee4fb2 h1:Jamvg5psRIccs7FGNTlIRMkT8wgtp5eCXdBlqhYGL6U=
 github.com/pmezard/go-difflib v1.0.1-0.20181226105442-5d4384ee4fb2/go.mod h1:iKH77koFhYxTK1pcRnkKkqfTogsbg7gZNVY4sRDYZ/4=
 github.com/stretchr/testify v1.11.1 h1:7s2iGBzp5EwR7/aIZr8ao5+dra3wiQyKjjFuvgVKu7U=
diff --git a/rep.go b/rep.go
index 4edd8d2..e5e0781 100644
--- a/rep.go
+++ b/rep.go
@@ -9,8 +9,6 @@ import (
 	"fmt"
 	"net"
 	"sync"
-
-	errgrp "github.com/luxfi/zmq/v4/internal/errgroup"
 )
 
 // NewRep returns a new REP ZeroMQ socket.
@@ -209,7 +207,15 @@ type repWriter struct {
 	state *repState
 
 	mu    sync.Mutex
-	conns []*Conn
+	peers []*repPeer
+}
+
+// repPeer writes the replies for one connection, so that a requester that
+// does not read its reply only delays its own replies.
+type repPeer struct {
+	conn   *Conn
+	sendCh chan repSendPayload
+	done   chan struct{} // closed with the connection
 }
 
 func (r repSendPayload) buildReplyMsg() Msg {
@@ -227,9 +233,15 @@ func newRepWriter(ctx context.Context, state *repState) *repWriter {
 }
 
 func (r *repWriter) addConn(w *Conn) {
+	peer := &repPeer{
+		conn:   w,
+		sendCh: make(chan repSendPayload),
+		done:   make(chan struct{}),
+	}
 	r.mu.Lock()
-	r.conns = append(r.conns, w)
+	r.peers = append(r.peers, peer)
 	r.mu.Unlock()
+	go r.run(peer)
 }
 
 func (r *repWriter) rmConn(conn *Conn) {
@@ -237,47 +249,60 @@ func (r *repWriter) rmConn(conn *Conn) {
 	defer r.mu.Unlock()
 
 	cur := -1
-	for i := range r.conns {
-		if r.conns[i] == conn {
+	for i := range r.peers {
+		if r.peers[i].conn == conn {
 			cur = i
 			break
 		}
 	}
 	if cur >= 0 {
-		r.conns = append(r.conns[:cur], r.conns[cur+1:]...)
+		close(r.peers[cur].done)
+		r.peers = append(r.peers[:cur], r.peers[cur+1:]...)
 	}
 }
 
 func (r *repWriter) write(ctx context.Context, msg Msg) error {
 	conn, preamble := r.state.Get()
-	payload := repSendPayload{conn, preamble, msg}
-	grp, _ := errgrp.WithContext(ctx)
-	grp.Go(func() error {
-		r.sendPayload(payload)
+	peer := r.peer(conn)
+	if peer == nil {
+		return r.ctx.Err()
+	}
+	select {
+	case <-ctx.Done():
+		return ctx.Err()
+	case <-r.ctx.Done(): // repWriter.run() terminates on this, sendCh <- will not complete
+		return r.ctx.Err()
+	case <-peer.done:
+		return nil
+	case peer.sendCh <- repSendPayload{conn, preamble, msg}:
 		return nil
-	})
-	return grp.Wait()
-}
-
-func (r *repWriter) sendPayload(payload repSendPayload) {
-	if !r.connected(payload.conn) {
-		return
 	}
-	// A requester that does not read its reply only delays this reply.
-	reply := payload.buildReplyMsg()
-	// not much we can do at this point. Perhaps log the error?
-	_ = payload.conn.SendMsg(reply)
 }
 
-func (r *repWriter) connected(c *Conn) bool {
+func (r *repWriter) peer(conn *Conn) *repPeer {
 	r.mu.Lock()
 	defer r.mu.Unlock()
-	for _, conn := range r.conns {
-		if conn == c {
-			return true
+	for _, peer := range r.peers {
+		if peer.conn == conn {
+			return peer
+		}
+	}
+	return nil
+}
+
+func (r *repWriter) run(peer *repPeer) {
+	for {
+		select {
+		case <-r.ctx.Done():
+			return
+		case <-peer.done:
+			return
+		case payload := <-peer.sendCh:
+			reply := payload.buildReplyMsg()
+			// not much we can do at this point. Perhaps log the error?
+			_ = payload.conn.SendMsg(reply)
 		}
 	}
-	return false
 }
 
 func (r *repWriter) Close() error {
@@ -285,13 +310,13 @@ func (r *repWriter) Close() error {
 	defer r.mu.Unlock()
 
 	var err error
-	for _, conn := range r.conns {
-		e := conn.Close()
+	for _, peer := range r.peers {
+		e := peer.conn.Close()
 		if e != nil && err == nil {
 			err = e
 		}
 	}
-	r.conns = nil
+	r.peers = nil
 	return err
 }
 
-- 
2.43.0


From e2b8c56107ca46b6628935b1a76ae845c060d020 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:31 +0000
Subject: [PATCH 36/38] fix: a server that did not read kept a REQ socket from
 dialing, accepting and closing

---
 req.go | 33 +++++++++++++++++++++++++++------
 1 file changed, 27 insertions(+), 6 deletions(-)

diff --git a/req.go b/req.go
index 53e97ea..2114a64 100644
--- a/req.go
+++ b/req.go
@@ -99,26 +99,47 @@ func newReqWriter(ctx context.Context, state *reqState) *reqWriter {
 func (r *reqWriter) write(ctx context.Context, msg Msg) error {
 	msg.Frames = append([][]byte{nil}, msg.Frames...)
 
+	// The lock is not held while sending: a server that does not read keeps no
+	// other connection from being added or removed.
 	r.mu.Lock()
-	defer r.mu.Unlock()
+	conns := make([]*Conn, 0, len(r.conns))
+	for i := range r.conns {
+		conns = append(conns, r.conns[(i+r.nextConn)%len(r.conns)])
+	}
+	if len(conns) > 0 {
+		r.nextConn = (r.nextConn + 1) % len(conns)
+	}
+	r.mu.Unlock()
+
 	var err error
-	for i := 0; i < len(r.conns); i++ {
-		cur := (i + r.nextConn) % len(r.conns)
-		conn := r.conns[cur]
+	for i, conn := range conns {
 		grp, _ := errgrp.WithContext(ctx)
 		grp.Go(func() error {
 			return conn.SendMsg(msg)
 		})
 		err = grp.Wait()
 		if err == nil {
-			r.nextConn = (cur + 1) % len(r.conns)
-			r.state.Set(conn)
+			r.sent(conn, i > 0)
 			return nil
 		}
 	}
 	return fmt.Errorf("zmq4: no connections available: %w", err)
 }
 
+// sent records the connection of the last request, that its reply comes from.
+// When others were skipped before it, the next request goes to the one after it.
+func (r *reqWriter) sent(conn *Conn, skipped bool) {
+	r.mu.Lock()
+	defer r.mu.Unlock()
+	for i := range r.conns {
+		if skipped && r.conns[i] == conn {
+			r.nextConn = (i + 1) % len(r.conns)
+			break
+		}
+	}
+	r.state.Set(conn)
+}
+
 func (r *reqWriter) addConn(c *Conn) {
 	r.mu.Lock()
 	r.conns = append(r.conns, c)
-- 
2.43.0


From 0c97e583c610a29b72a40d27c6a92d44050652d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:25 +0000
Subject: [PATCH 37/38] fix: a publisher that did not read kept a SUB socket
 from subscribing to the others

---
 conn.go   | 28 +++++++++++++++++++++++++++-
 socket.go | 25 ++++++++++++++++++-------
 sub.go    | 24 +++++++-----------------
 3 files changed, 52 insertions(+), 25 deletions(-)

diff --git a/conn.go b/conn.go
index 318e395..5134e06 100644
--- a/conn.go
+++ b/conn.go
@@ -32,7 +32,8 @@ type Conn struct {
 		Meta   Metadata
 	}
 
-	wmu sync.Mutex // keeps the frames of a message together
+	wmu   sync.Mutex // keeps the frames of a message together
+	subMu sync.Mutex // keeps subscriptions and their upcalls in step
 
 	mu     sync.RWMutex
 	topics map[string]struct{} // set of subscribed topics
@@ -552,6 +553,31 @@ func readBody(r io.Reader, size uint64) ([]byte, error) {
 	return buf.Bytes(), err
 }
 
+// announce tells the peer which of the topics are among the current ones. When
+// one changes in the meantime, its own announcement follows.
+func (conn *Conn) announce(current func() []string, topics []string) error {
+	conn.subMu.Lock()
+	defer conn.subMu.Unlock()
+
+	subscribed := make(map[string]struct{})
+	for _, topic := range current() {
+		subscribed[topic] = struct{}{}
+	}
+
+	var err error
+	for _, topic := range topics {
+		v := byte(0)
+		if _, ok := subscribed[topic]; ok {
+			v = 1
+		}
+		e := conn.SendMsg(NewMsg(append([]byte{v}, topic...)))
+		if e != nil && err == nil {
+			err = e
+		}
+	}
+	return err
+}
+
 func (conn *Conn) subscribe(msg Msg) {
 	conn.mu.Lock()
 	v := msg.Frames[0]
diff --git a/socket.go b/socket.go
index ceed87c..b3b5a0e 100644
--- a/socket.go
+++ b/socket.go
@@ -15,6 +15,8 @@ import (
 	"strings"
 	"sync"
 	"time"
+
+	errgrp "github.com/luxfi/zmq/v4/internal/errgroup"
 )
 
 const (
@@ -42,7 +44,6 @@ type socket struct {
 	sec           Security
 	log           *log.Logger
 	subTopics     func() []string
-	subMu         sync.Mutex // keeps subscriptions and their upcalls in step
 	autoReconnect bool
 	timeout       time.Duration
 
@@ -403,17 +404,27 @@ func (sck *socket) addConn(c *Conn) error {
 	}
 	sck.mu.Unlock()
 
-	// resend subscriptions for topics if there are any (without holding the lock)
+	// send subscriptions for topics if there are any (without holding the lock)
 	if sck.subTopics != nil {
-		sck.subMu.Lock()
-		defer sck.subMu.Unlock()
-		for _, topic := range sck.subTopics() {
-			_ = sck.Send(NewMsg(append([]byte{1}, topic...)))
-		}
+		_ = sck.announce([]*Conn{c}, sck.subTopics()...)
 	}
 	return nil
 }
 
+// announce tells the peers of conns which of the topics are subscribed to. Every
+// connection has its own turn: one that is not read does not delay the others.
+func (sck *socket) announce(conns []*Conn, topics ...string) error {
+	ctx, cancel := context.WithTimeout(sck.ctx, sck.Timeout())
+	defer cancel()
+	grp, _ := errgrp.WithContext(ctx)
+	for _, c := range conns {
+		grp.Go(func() error {
+			return c.announce(sck.subTopics, topics)
+		})
+	}
+	return grp.Wait()
+}
+
 func (sck *socket) rmConn(c *Conn) {
 	sck.mu.Lock()
 	defer sck.mu.Unlock()
diff --git a/sub.go b/sub.go
index e4ef2fa..d070bb8 100644
--- a/sub.go
+++ b/sub.go
@@ -89,35 +89,25 @@ func (sub *subSocket) SetOption(name string, value interface{}) error {
 		return err
 	}
 
-	var (
-		topic []byte
-	)
-
-	sub.sck.subMu.Lock()
-	defer sub.sck.subMu.Unlock()
+	var topic string
 
 	switch name {
 	case OptionSubscribe:
-		k := value.(string)
-		sub.subscribe(k, 1)
-		topic = append([]byte{1}, k...)
+		topic = value.(string)
+		sub.subscribe(topic, 1)
 
 	case OptionUnsubscribe:
-		k := value.(string)
-		topic = append([]byte{0}, k...)
-		sub.subscribe(k, 0)
+		topic = value.(string)
+		sub.subscribe(topic, 0)
 
 	default:
 		return ErrBadProperty
 	}
 
 	sub.sck.mu.RLock()
-	n := len(sub.sck.conns)
+	conns := append([]*Conn{}, sub.sck.conns...) // clone
 	sub.sck.mu.RUnlock()
-	if n > 0 {
-		err = sub.Send(NewMsg(topic))
-	}
-	return err
+	return sub.sck.announce(conns, topic)
 }
 
 // Topics returns the sorted list of topics a socket is subscribed to.
-- 
2.43.0


From 64993e88ab47da627e9665736d74c73ee32c631a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:02 +0000
Subject: [PATCH 38/38] fix: a peer that does not answer kept the peer
 transport from doing anything else

---
 networking/transport.go | 44 ++++++++++++++++++++++++++++++++++++-----
 1 file changed, 39 insertions(+), 5 deletions(-)

diff --git a/networking/transport.go b/networking/transport.go
index 73d7e59..4c4809b 100644
--- a/networking/transport.go
+++ b/networking/transport.go
@@ -27,9 +27,10 @@ type Transport struct {
 	subs    map[string]subscription // to the broadcasts of each peer
 	config  Config
 
-	mu       sync.RWMutex
-	handlers map[string]MessageHandler
-	peers    []string
+	mu         sync.RWMutex
+	handlers   map[string]MessageHandler
+	peers      []string
+	connecting map[string]chan struct{} // closed when the attempt has ended
 
 	// Metrics
 	msgSent     atomic.Uint64
@@ -110,6 +111,8 @@ func New(ctx context.Context, config Config) *Transport {
 		dealers:  make(map[string]zmq4.Socket),
 		subs:     make(map[string]subscription),
 		stopCh:   make(chan struct{}),
+
+		connecting: make(map[string]chan struct{}),
 	}
 }
 
@@ -143,7 +146,7 @@ func (t *Transport) Stop() {
 func (t *Transport) stop() {
 	close(t.stopCh)
 	t.cancel()
-	t.mu.Lock() // a connection under way is complete or abandoned
+	t.mu.Lock() // a connection under way is waited for
 	t.mu.Unlock()
 	t.wg.Wait()
 
@@ -174,19 +177,41 @@ func (t *Transport) ConnectPeer(peerID string, port int) error {
 // ConnectPeerWithAddress establishes a connection to a peer at a specific address
 func (t *Transport) ConnectPeerWithAddress(peerID, address string, port int) error {
 	t.mu.Lock()
-	defer t.mu.Unlock()
+	for t.connecting[peerID] != nil {
+		ended := t.connecting[peerID]
+		t.mu.Unlock()
+		<-ended
+		t.mu.Lock()
+	}
 
 	if err := t.ctx.Err(); err != nil {
+		t.mu.Unlock()
 		return fmt.Errorf("failed to connect to %s: %w", peerID, err)
 	}
 
 	// Check if already connected
 	for _, p := range t.peers {
 		if p == peerID {
+			t.mu.Unlock()
 			return nil // Already connected
 		}
 	}
 
+	// The lock is not held while connecting: a peer that does not answer keeps
+	// nothing else from going on.
+	ended := make(chan struct{})
+	t.connecting[peerID] = ended
+	t.wg.Add(1)
+	defer t.wg.Done()
+	t.mu.Unlock()
+
+	defer func() {
+		t.mu.Lock()
+		delete(t.connecting, peerID)
+		close(ended)
+		t.mu.Unlock()
+	}()
+
 	// Subscribe to peer's broadcasts
 	subAddr := fmt.Sprintf("tcp://%s:%d", address, port)
 	ctx, cancel := context.WithCancel(t.ctx)
@@ -207,6 +232,15 @@ func (t *Transport) ConnectPeerWithAddress(peerID, address string, port int) err
 		return fmt.Errorf("failed to connect dealer to %s at %s: %w", peerID, routerAddr, err)
 	}
 
+	t.mu.Lock()
+	defer t.mu.Unlock()
+
+	if err := t.ctx.Err(); err != nil {
+		dealer.Close()
+		sub.close()
+		return fmt.Errorf("failed to connect to %s: %w", peerID, err)
+	}
+
 	t.dealers[peerID] = dealer
 	t.subs[peerID] = sub
 	t.wg.Add(1)
-- 
2.43.0

