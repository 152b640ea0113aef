From f1c09aaf8fe575422a6d64f01ddb440edc094312 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:18 +0000
Subject: [PATCH 01/45] fix: reject truncated metadata properties instead of
 slicing out of range

---
 protocol.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/protocol.go b/protocol.go
index 82262af..46e4a5f 100644
--- a/protocol.go
+++ b/protocol.go
@@ -240,9 +240,12 @@ func (prop Property) Read(data []byte) (n int, err error) {
 }
 
 func (prop *Property) Write(data []byte) (n int, err error) {
+	if len(data) == 0 {
+		return n, io.ErrUnexpectedEOF
+	}
 	klen := int(data[n])
 	n++
-	if klen > len(data) {
+	if n+klen+4 > len(data) {
 		return n, io.ErrUnexpectedEOF
 	}
 
-- 
2.43.0


From 56c962e3560b220c04ef1dce05c8fbbc7b0f6e19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:19 +0000
Subject: [PATCH 02/45] fix: refuse a peer that announces an unknown socket
 type instead of panicking

---
 conn.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/conn.go b/conn.go
index 0524ae6..cf90299 100644
--- a/conn.go
+++ b/conn.go
@@ -117,7 +117,7 @@ func (conn *Conn) init(sec Security) error {
 	}
 
 	peer := SocketType(conn.Peer.Meta[sysSockType])
-	if !peer.IsCompatible(conn.typ) {
+	if !conn.typ.IsCompatible(peer) {
 		return fmt.Errorf("zmq4: peer=%q not compatible with %q", peer, conn.typ)
 	}
 
-- 
2.43.0


From 4efca7de0199d614d7adc4232a2f5a0c7f825254 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:20 +0000
Subject: [PATCH 03/45] fix: do not allocate the frame size a peer announces
 before its data arrives

---
 conn.go | 23 +++++++++++++++++++++--
 1 file changed, 21 insertions(+), 2 deletions(-)

diff --git a/conn.go b/conn.go
index cf90299..4d243ed 100644
--- a/conn.go
+++ b/conn.go
@@ -479,8 +479,8 @@ func (c *Conn) read() Msg {
 			return msg
 		}
 
-		body := make([]byte, size)
-		_, msg.err = io.ReadFull(c.rw, body)
+		var body []byte
+		body, msg.err = readBody(c.rw, size)
 		if msg.err != nil {
 			c.checkIO(msg.err)
 			return msg
@@ -505,6 +505,25 @@ func (c *Conn) read() Msg {
 	return msg
 }
 
+// readBody reads the body of a frame of the given size.
+// The memory used is bounded by what the peer actually sent,
+// not by the size it announced.
+func readBody(r io.Reader, size uint64) ([]byte, error) {
+	const maxAlloc = 1 << 20
+	if size <= maxAlloc {
+		body := make([]byte, size)
+		_, err := io.ReadFull(r, body)
+		return body, err
+	}
+
+	buf := new(bytes.Buffer)
+	n, err := io.CopyN(buf, r, int64(size))
+	if err == io.EOF && n > 0 {
+		err = io.ErrUnexpectedEOF
+	}
+	return buf.Bytes(), err
+}
+
 func (conn *Conn) subscribe(msg Msg) {
 	conn.mu.Lock()
 	v := msg.Frames[0]
-- 
2.43.0


From 9b4cc3172b7f2820272fd22b6343be3caf8e80a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:36 +0000
Subject: [PATCH 04/45] fix: treat a connection lost in the middle of a frame
 as closed

---
 conn.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/conn.go b/conn.go
index 4d243ed..50ce6a5 100644
--- a/conn.go
+++ b/conn.go
@@ -476,6 +476,7 @@ func (c *Conn) read() Msg {
 
 		if size > uint64(maxInt64) {
 			msg.err = errOverflow
+			c.SetClosed()
 			return msg
 		}
 
@@ -495,6 +496,7 @@ func (c *Conn) read() Msg {
 
 		buf := new(bytes.Buffer)
 		if _, msg.err = c.sec.Decrypt(buf, body); msg.err != nil {
+			c.SetClosed()
 			return msg
 		}
 		msg.Frames = append(msg.Frames, buf.Bytes())
@@ -567,7 +569,9 @@ func (conn *Conn) checkIO(err error) {
 		return
 	}
 
-	if err == io.EOF || errors.Is(err, io.EOF) {
+	// io.ErrUnexpectedEOF: the peer went away in the middle of a frame.
+	// io.ErrClosedPipe: same as above, for the inproc transport.
+	if errors.Is(err, io.EOF) || errors.Is(err, io.ErrUnexpectedEOF) || errors.Is(err, io.ErrClosedPipe) {
 		conn.SetClosed()
 		return
 	}
-- 
2.43.0


From 0aeef857d6a3e62e2eebce8f6209c01ed32b4b45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:37 +0000
Subject: [PATCH 05/45] fix: never interleave the frames of two messages on a
 connection

---
 conn.go | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/conn.go b/conn.go
index 50ce6a5..2c0da68 100644
--- a/conn.go
+++ b/conn.go
@@ -35,6 +35,8 @@ type Conn struct {
 	mu     sync.RWMutex
 	topics map[string]struct{} // set of subscribed topics
 
+	wmu sync.Mutex // serializes whole messages and commands on the wire
+
 	closed         int32
 	onCloseErrorCB func(c *Conn)
 }
@@ -176,6 +178,11 @@ func (c *Conn) SendCmd(name string, body []byte) error {
 	if err != nil {
 		return err
 	}
+	c.wmu.Lock()
+	defer c.wmu.Unlock()
+	if c.Closed() {
+		return ErrClosedConn
+	}
 	return c.send(true, buf, 0)
 }
 
@@ -185,6 +192,14 @@ func (c *Conn) SendMsg(msg Msg) error {
 		return ErrClosedConn
 	}
 
+	// A message must not be interleaved with the frames of another one, even
+	// if the latter is still being written after its sender timed out.
+	c.wmu.Lock()
+	defer c.wmu.Unlock()
+	if c.Closed() {
+		return ErrClosedConn
+	}
+
 	// STREAM sockets handle raw TCP data differently
 	if c.typ == Stream {
 		return c.sendStream(msg)
-- 
2.43.0


From af7cf60504bde8576c0504ba162f412f592615f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:05 +0000
Subject: [PATCH 06/45] fix: make inproc pipes lossless byte streams and wake
 reads up on close

---
 internal/inproc/conn.go | 43 +++++++++++++++++++++++++++++++++++------
 1 file changed, 37 insertions(+), 6 deletions(-)

diff --git a/internal/inproc/conn.go b/internal/inproc/conn.go
index 52a1aa0..602e8fb 100644
--- a/internal/inproc/conn.go
+++ b/internal/inproc/conn.go
@@ -26,6 +26,9 @@ type conn struct {
 
 	rdeadline pipeDeadline
 	wdeadline pipeDeadline
+
+	rmu  sync.Mutex // protects rest
+	rest []byte     // data received but not read yet
 }
 
 func (c *conn) Write(data []byte) (int, error) {
@@ -47,6 +50,12 @@ func (c *conn) write(data []byte) (int, error) {
 	}
 
 	var n int
+	if len(data) == 0 {
+		return n, nil
+	}
+
+	// Write must not retain data.
+	data = append([]byte(nil), data...)
 	select {
 	case c.w <- data:
 		n = len(data)
@@ -72,24 +81,46 @@ func (c *conn) read(data []byte) (int, error) {
 	switch {
 	case isClosedChan(c.localDone):
 		return 0, io.ErrClosedPipe
-	case isClosedChan(c.remoteDone):
-		return 0, io.EOF
 	case isClosedChan(c.rdeadline.wait()):
 		return 0, timeoutError{}
 	}
 
+	c.rmu.Lock()
+	if len(c.rest) > 0 || len(data) == 0 {
+		n := copy(data, c.rest)
+		c.rest = c.rest[n:]
+		c.rmu.Unlock()
+		return n, nil
+	}
+	c.rmu.Unlock()
+
 	select {
 	case bw := <-c.r:
-		nr := copy(data, bw)
-		if len(data) < len(bw) {
-			return nr, io.ErrShortBuffer
+		return c.copy(data, bw), nil
+	case <-c.localDone:
+		return 0, io.ErrClosedPipe
+	case <-c.remoteDone:
+		// deliver what was written before the remote end was closed.
+		select {
+		case bw := <-c.r:
+			return c.copy(data, bw), nil
+		default:
+			return 0, io.EOF
 		}
-		return nr, nil
 	case <-c.rdeadline.wait():
 		return 0, timeoutError{}
 	}
 }
 
+// copy copies bw into data and keeps what does not fit for the next read.
+func (c *conn) copy(data, bw []byte) int {
+	c.rmu.Lock()
+	defer c.rmu.Unlock()
+	n := copy(data, bw)
+	c.rest = append(c.rest, bw[n:]...)
+	return n
+}
+
 func (c *conn) LocalAddr() net.Addr  { return c.addr }
 func (c *conn) RemoteAddr() net.Addr { return c.addr }
 
-- 
2.43.0


From 1d3adfe9c8dd08da10b069e896096ad7d808e854 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:06 +0000
Subject: [PATCH 07/45] fix: make the inproc Accept wait for a dialer and
 unblock it on Close

---
 internal/inproc/inproc.go | 39 +++++++++++++++++----------------------
 1 file changed, 17 insertions(+), 22 deletions(-)

diff --git a/internal/inproc/inproc.go b/internal/inproc/inproc.go
index 8b0d6eb..75ed1d2 100644
--- a/internal/inproc/inproc.go
+++ b/internal/inproc/inproc.go
@@ -130,47 +130,42 @@ func (l *Listener) Close() error {
 			err = e
 		}
 	}
+	l.pipes = nil
 	l.closed = true
 	delete(mgr.db, string(l.addr))
+	mgr.cv.Broadcast()
 	return err
 }
 
 // Accept waits for and returns the next connection to the listener.
 func (l *Listener) Accept() (net.Conn, error) {
 	mgr.mu.Lock()
-	p := newPipe(l.addr)
-	l.pipes = append(l.pipes, p)
-	closed := l.closed
-	mgr.cv.Broadcast()
-	mgr.mu.Unlock()
+	defer mgr.mu.Unlock()
 
-	if closed {
+	for len(l.pipes) == 0 && !l.closed {
+		mgr.cv.Wait()
+	}
+	if l.closed {
 		return nil, ErrClosed
 	}
+	p := l.pipes[0]
+	l.pipes = l.pipes[1:]
 	return p.p1, nil
 }
 
 // Dial connects to the given address.
 func Dial(addr string) (net.Conn, error) {
 	mgr.mu.Lock()
+	defer mgr.mu.Unlock()
 
-	for {
-		var (
-			l  *Listener
-			ok bool
-		)
-		if l, ok = mgr.db[addr]; !ok || l == nil {
-			mgr.mu.Unlock()
-			return nil, ErrConnRefused
-		}
-		if n := len(l.pipes); n != 0 {
-			p := l.pipes[n-1]
-			l.pipes = l.pipes[:n-1]
-			mgr.mu.Unlock()
-			return p.p2, nil
-		}
-		mgr.cv.Wait()
+	l, ok := mgr.db[addr]
+	if !ok || l == nil {
+		return nil, ErrConnRefused
 	}
+	p := newPipe(l.addr)
+	l.pipes = append(l.pipes, p)
+	mgr.cv.Broadcast()
+	return p.p2, nil
 }
 
 // Addr represents an in-process "network" end-point address.
-- 
2.43.0


From 4da5a4dfa10d66fc1f3cab801b3cf3c76e79fcad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:45 +0000
Subject: [PATCH 08/45] fix: reconnect only dialed connections, to their own
 end-point, without blocking

---
 conn.go   |  2 ++
 socket.go | 25 +++++++++++++++++++------
 2 files changed, 21 insertions(+), 6 deletions(-)

diff --git a/conn.go b/conn.go
index 2c0da68..29d2b7b 100644
--- a/conn.go
+++ b/conn.go
@@ -37,6 +37,8 @@ type Conn struct {
 
 	wmu sync.Mutex // serializes whole messages and commands on the wire
 
+	ep string // end-point to redial when the connection is lost (dialed connections only)
+
 	closed         int32
 	onCloseErrorCB func(c *Conn)
 }
diff --git a/socket.go b/socket.go
index 338062c..98fef43 100644
--- a/socket.go
+++ b/socket.go
@@ -285,13 +285,18 @@ func (sck *socket) accept() {
 
 // Dial connects a remote endpoint to the Socket.
 func (sck *socket) Dial(endpoint string) error {
-	sck.mu.Lock()
+	return sck.dial(endpoint, false)
+}
+
+// dial connects the socket to endpoint. A failed handshake is final, unless
+// the connection is being re-established after it was lost.
+func (sck *socket) dial(endpoint string, reconnect bool) error {
+	sck.mu.RLock()
 	if sck.isClosed {
-		sck.mu.Unlock()
+		sck.mu.RUnlock()
 		return fmt.Errorf("zmq4: socket is closed")
 	}
-	sck.ep = endpoint
-	sck.mu.Unlock()
+	sck.mu.RUnlock()
 
 	network, addr, err := splitAddr(endpoint)
 	if err != nil {
@@ -325,6 +330,11 @@ connect:
 
 	zconn, err := Open(conn, sck.sec, sck.typ, sck.id, false, sck.scheduleRmConn)
 	if err != nil {
+		if reconnect && (sck.maxRetries == -1 || retries < sck.maxRetries) && sck.ctx.Err() == nil {
+			retries++
+			time.Sleep(sck.retry)
+			goto connect
+		}
 		return fmt.Errorf("zmq4: could not open a ZMTP connection: %w", err)
 	}
 	if zconn == nil {
@@ -336,6 +346,7 @@ connect:
 		go sck.connReaper()
 		sck.reaperStarted = true
 	}
+	zconn.ep = endpoint
 	sck.addConn(zconn)
 	return nil
 }
@@ -401,8 +412,10 @@ func (sck *socket) scheduleRmConn(c *Conn) {
 	sck.reaperCond.Signal()
 	sck.reaperCond.L.Unlock()
 
-	if sck.autoReconnect {
-		sck.Dial(sck.ep)
+	// Only dialed connections are re-established, to their own end-point.
+	// This runs under the locks of whoever noticed the failure: do not block.
+	if sck.autoReconnect && c.ep != "" {
+		go func() { _ = sck.dial(c.ep, true) }()
 	}
 }
 
-- 
2.43.0


From 42294edc26584af2351b201359e5b51bca99e5b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:10 +0000
Subject: [PATCH 09/45] fix: close listeners and connections set up while the
 socket is being closed

---
 socket.go | 64 +++++++++++++++++++++++++++++++++++++------------------
 1 file changed, 43 insertions(+), 21 deletions(-)

diff --git a/socket.go b/socket.go
index 98fef43..26829c8 100644
--- a/socket.go
+++ b/socket.go
@@ -133,6 +133,7 @@ func (sck *socket) Close() error {
 		return fmt.Errorf("zmq4: socket already closed")
 	}
 	sck.isClosed = true
+	listener := sck.listener
 	sck.mu.Unlock()
 
 	// The Lock around Signal ensures the connReaper is running
@@ -142,8 +143,8 @@ func (sck *socket) Close() error {
 	sck.reaperCond.Signal()
 	sck.reaperCond.L.Unlock()
 
-	if sck.listener != nil {
-		defer sck.listener.Close()
+	if listener != nil {
+		defer listener.Close()
 	}
 
 	sck.mu.RLock()
@@ -159,7 +160,7 @@ func (sck *socket) Close() error {
 	ep := sck.ep
 	sck.mu.RUnlock()
 
-	if sck.listener != nil && strings.HasPrefix(ep, "ipc://") {
+	if listener != nil && strings.HasPrefix(ep, "ipc://") {
 		os.Remove(ep[len("ipc://"):])
 	}
 
@@ -225,7 +226,6 @@ func (sck *socket) Listen(endpoint string) error {
 		sck.mu.Unlock()
 		return fmt.Errorf("zmq4: socket already listening on %q", sck.ep)
 	}
-	sck.ep = endpoint
 	sck.mu.Unlock()
 	network, addr, err := splitAddr(endpoint)
 	if err != nil {
@@ -243,20 +243,39 @@ func (sck *socket) Listen(endpoint string) error {
 	}
 
 	sck.mu.Lock()
+	switch {
+	case sck.isClosed: // closed in the meantime
+		err = fmt.Errorf("zmq4: socket is closed")
+	case sck.listener != nil:
+		err = fmt.Errorf("zmq4: socket already listening on %q", sck.ep)
+	}
+	if err != nil {
+		sck.mu.Unlock()
+		_ = l.Close()
+		return err
+	}
+	sck.ep = endpoint
 	sck.listener = l
+	sck.startReaper()
 	sck.mu.Unlock()
 
-	go sck.accept()
-	if !sck.reaperStarted {
-		sck.reaperCond.L.Lock()
-		go sck.connReaper()
-		sck.reaperStarted = true
-	}
+	go sck.accept(l)
 
 	return nil
 }
 
-func (sck *socket) accept() {
+// startReaper starts the reaper of closed connections, once.
+// sck.mu must be held.
+func (sck *socket) startReaper() {
+	if sck.reaperStarted {
+		return
+	}
+	sck.reaperStarted = true
+	sck.reaperCond.L.Lock()
+	go sck.connReaper()
+}
+
+func (sck *socket) accept(l net.Listener) {
 	ctx, cancel := context.WithCancel(sck.ctx)
 	defer cancel()
 	for {
@@ -264,7 +283,7 @@ func (sck *socket) accept() {
 		case <-ctx.Done():
 			return
 		default:
-			conn, err := sck.listener.Accept()
+			conn, err := l.Accept()
 			if err != nil {
 				// FIXME(sbinet): maybe bubble up this error to application code?
 				//sck.log.Printf("error accepting connection from %q: %+v", sck.ep, err)
@@ -278,7 +297,7 @@ func (sck *socket) accept() {
 				continue
 			}
 
-			sck.addConn(zconn)
+			_ = sck.addConn(zconn)
 		}
 	}
 }
@@ -341,18 +360,18 @@ connect:
 		return fmt.Errorf("zmq4: got a nil ZMTP connection to %q", endpoint)
 	}
 
-	if !sck.reaperStarted {
-		sck.reaperCond.L.Lock()
-		go sck.connReaper()
-		sck.reaperStarted = true
-	}
 	zconn.ep = endpoint
-	sck.addConn(zconn)
-	return nil
+	return sck.addConn(zconn)
 }
 
-func (sck *socket) addConn(c *Conn) {
+func (sck *socket) addConn(c *Conn) error {
 	sck.mu.Lock()
+	if sck.isClosed { // closed while the connection was being set up
+		sck.mu.Unlock()
+		_ = c.Close()
+		return fmt.Errorf("zmq4: socket is closed")
+	}
+	sck.startReaper()
 	sck.conns = append(sck.conns, c)
 	if len(c.Peer.Meta[sysSockID]) == 0 {
 		switch c.typ {
@@ -379,6 +398,7 @@ func (sck *socket) addConn(c *Conn) {
 	for _, topic := range topics {
 		_ = sck.Send(NewMsg(append([]byte{1}, topic...)))
 	}
+	return nil
 }
 
 func (sck *socket) rmConn(c *Conn) {
@@ -427,6 +447,8 @@ func (sck *socket) Type() SocketType {
 // Addr returns the listener's address.
 // Addr returns nil if the socket isn't a listener.
 func (sck *socket) Addr() net.Addr {
+	sck.mu.RLock()
+	defer sck.mu.RUnlock()
 	if sck.listener == nil {
 		return nil
 	}
-- 
2.43.0


From a9020f917a7925b120ec14959dfdb0c6d9442465 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:11 +0000
Subject: [PATCH 10/45] fix: close connections whose handshake failed and keep
 stalled ones from blocking others

---
 socket.go | 52 +++++++++++++++++++++++++++++++++++++++++-----------
 1 file changed, 41 insertions(+), 11 deletions(-)

diff --git a/socket.go b/socket.go
index 26829c8..55827e3 100644
--- a/socket.go
+++ b/socket.go
@@ -21,6 +21,8 @@ const (
 	defaultRetry      = 250 * time.Millisecond
 	defaultTimeout    = 5 * time.Minute
 	defaultMaxRetries = 10
+
+	acceptRetry = 10 * time.Millisecond
 )
 
 var (
@@ -287,21 +289,49 @@ func (sck *socket) accept(l net.Listener) {
 			if err != nil {
 				// FIXME(sbinet): maybe bubble up this error to application code?
 				//sck.log.Printf("error accepting connection from %q: %+v", sck.ep, err)
+				sck.sleep(acceptRetry)
 				continue
 			}
 
-			zconn, err := Open(conn, sck.sec, sck.typ, sck.id, true, sck.scheduleRmConn)
-			if err != nil {
-				// FIXME(sbinet): maybe bubble up this error to application code?
-				sck.log.Printf("could not open a ZMTP connection with %q: %+v", sck.ep, err)
-				continue
-			}
-
-			_ = sck.addConn(zconn)
+			// A peer that stalls in the handshake must not keep others out.
+			go func() {
+				zconn, err := sck.open(conn, true)
+				if err != nil {
+					// FIXME(sbinet): maybe bubble up this error to application code?
+					sck.log.Printf("could not open a ZMTP connection with %q: %+v", l.Addr(), err)
+					return
+				}
+
+				_ = sck.addConn(zconn)
+			}()
 		}
 	}
 }
 
+// open performs the ZMTP handshake over conn, which is closed if that fails
+// or if the socket is closed meanwhile.
+func (sck *socket) open(conn net.Conn, server bool) (*Conn, error) {
+	stop := context.AfterFunc(sck.ctx, func() { _ = conn.Close() })
+	defer stop()
+
+	zconn, err := Open(conn, sck.sec, sck.typ, sck.id, server, sck.scheduleRmConn)
+	if err != nil {
+		_ = conn.Close()
+		return nil, err
+	}
+	return zconn, nil
+}
+
+// sleep pauses for the given duration or until the socket is closed.
+func (sck *socket) sleep(d time.Duration) {
+	timer := time.NewTimer(d)
+	defer timer.Stop()
+	select {
+	case <-timer.C:
+	case <-sck.ctx.Done():
+	}
+}
+
 // Dial connects a remote endpoint to the Socket.
 func (sck *socket) Dial(endpoint string) error {
 	return sck.dial(endpoint, false)
@@ -337,7 +367,7 @@ connect:
 		// retry if retry count is lower than maximum retry count and context has not been canceled
 		if (sck.maxRetries == -1 || retries < sck.maxRetries) && sck.ctx.Err() == nil {
 			retries++
-			time.Sleep(sck.retry)
+			sck.sleep(sck.retry)
 			goto connect
 		}
 		return fmt.Errorf("zmq4: could not dial to %q (retry=%v): %w", endpoint, sck.retry, err)
@@ -347,11 +377,11 @@ connect:
 		return fmt.Errorf("zmq4: got a nil dial-conn to %q", endpoint)
 	}
 
-	zconn, err := Open(conn, sck.sec, sck.typ, sck.id, false, sck.scheduleRmConn)
+	zconn, err := sck.open(conn, false)
 	if err != nil {
 		if reconnect && (sck.maxRetries == -1 || retries < sck.maxRetries) && sck.ctx.Err() == nil {
 			retries++
-			time.Sleep(sck.retry)
+			sck.sleep(sck.retry)
 			goto connect
 		}
 		return fmt.Errorf("zmq4: could not open a ZMTP connection: %w", err)
-- 
2.43.0


From 761ce1936d4a78debc093b5b294626c3e93739f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:28 +0000
Subject: [PATCH 11/45] fix: do not hold writer locks while sending and honour
 the ROUTER send deadline

---
 msgio.go  | 12 +++++++-----
 router.go | 20 +++++++++++++-------
 2 files changed, 20 insertions(+), 12 deletions(-)

diff --git a/msgio.go b/msgio.go
index 41abc20..f84463b 100644
--- a/msgio.go
+++ b/msgio.go
@@ -169,16 +169,18 @@ func (mw *mwriter) rmConn(w *Conn) {
 func (w *mwriter) write(ctx context.Context, msg Msg) error {
 	w.sem.lock(ctx)
 	grp, _ := errgrp.WithContext(ctx)
+	// Do not hold the lock while sending: a stalled peer would block
+	// everything that adds or removes connections.
 	w.mu.Lock()
-	for i := range w.ws {
-		ww := w.ws[i]
+	ws := append([]*Conn(nil), w.ws...)
+	w.mu.Unlock()
+	for i := range ws {
+		ww := ws[i]
 		grp.Go(func() error {
 			return ww.SendMsg(msg)
 		})
 	}
-	err := grp.Wait()
-	w.mu.Unlock()
-	return err
+	return grp.Wait()
 }
 
 type semaphore struct {
diff --git a/router.go b/router.go
index aebb14a..e3c76f5 100644
--- a/router.go
+++ b/router.go
@@ -7,10 +7,11 @@ package zmq4
 import (
 	"bytes"
 	"context"
+	"fmt"
 	"net"
 	"sync"
 
-	"golang.org/x/sync/errgroup"
+	errgrp "github.com/luxfi/zmq/v4/internal/errgroup"
 )
 
 // NewRouter returns a new ROUTER ZeroMQ socket.
@@ -224,13 +225,20 @@ func (mw *routerMWriter) rmConn(w *Conn) {
 }
 
 func (w *routerMWriter) write(ctx context.Context, msg Msg) error {
+	if len(msg.Frames) == 0 {
+		return fmt.Errorf("zmq4: ROUTER message without identity frame")
+	}
 	w.sem.lock(ctx)
-	grp, _ := errgroup.WithContext(ctx)
+	grp, _ := errgrp.WithContext(ctx)
+	// Do not hold the lock while sending: a stalled peer would block
+	// everything that adds or removes connections.
 	w.mu.Lock()
+	ws := append([]*Conn(nil), w.ws...)
+	w.mu.Unlock()
 	id := msg.Frames[0]
 	dmsg := NewMsgFrom(msg.Frames[1:]...)
-	for i := range w.ws {
-		ww := w.ws[i]
+	for i := range ws {
+		ww := ws[i]
 		pid := []byte(ww.Peer.Meta[sysSockID])
 		if !bytes.Equal(pid, id) {
 			continue
@@ -239,9 +247,7 @@ func (w *routerMWriter) write(ctx context.Context, msg Msg) error {
 			return ww.SendMsg(dmsg)
 		})
 	}
-	err := grp.Wait()
-	w.mu.Unlock()
-	return err
+	return grp.Wait()
 }
 
 var (
-- 
2.43.0


From 1b884f2c1662f200f3feb47206cafb94b4144c4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:59 +0000
Subject: [PATCH 12/45] fix: report an expired send deadline instead of
 dropping messages when no peer is connected

---
 msgio.go  | 46 ++++++++++++++++++++++++++++++++++------------
 router.go |  3 +++
 2 files changed, 37 insertions(+), 12 deletions(-)

diff --git a/msgio.go b/msgio.go
index f84463b..987c63d 100644
--- a/msgio.go
+++ b/msgio.go
@@ -164,16 +164,25 @@ func (mw *mwriter) rmConn(w *Conn) {
 	if cur >= 0 {
 		mw.ws = append(mw.ws[:cur], mw.ws[cur+1:]...)
 	}
+	if len(mw.ws) == 0 {
+		mw.sem.disable()
+	}
 }
 
 func (w *mwriter) write(ctx context.Context, msg Msg) error {
-	w.sem.lock(ctx)
+	var ws []*Conn
+	for len(ws) == 0 {
+		w.sem.lock(ctx)
+		if err := ctx.Err(); err != nil {
+			return err
+		}
+		// Do not hold the lock while sending: a stalled peer would block
+		// everything that adds or removes connections.
+		w.mu.Lock()
+		ws = append(ws, w.ws...)
+		w.mu.Unlock()
+	}
 	grp, _ := errgrp.WithContext(ctx)
-	// Do not hold the lock while sending: a stalled peer would block
-	// everything that adds or removes connections.
-	w.mu.Lock()
-	ws := append([]*Conn(nil), w.ws...)
-	w.mu.Unlock()
 	for i := range ws {
 		ww := ws[i]
 		grp.Go(func() error {
@@ -184,7 +193,8 @@ func (w *mwriter) write(ctx context.Context, msg Msg) error {
 }
 
 type semaphore struct {
-	ready chan struct{}
+	mu    sync.Mutex
+	ready chan struct{} // closed when enabled
 }
 
 func newSemaphore() *semaphore {
@@ -192,20 +202,32 @@ func newSemaphore() *semaphore {
 }
 
 func (sem *semaphore) enable() {
+	sem.mu.Lock()
+	defer sem.mu.Unlock()
 	select {
-	case _, ok := <-sem.ready:
-		if ok {
-			close(sem.ready)
-		}
+	case <-sem.ready:
 	default:
 		close(sem.ready)
 	}
 }
 
+func (sem *semaphore) disable() {
+	sem.mu.Lock()
+	defer sem.mu.Unlock()
+	select {
+	case <-sem.ready:
+		sem.ready = make(chan struct{})
+	default:
+	}
+}
+
 func (sem *semaphore) lock(ctx context.Context) {
+	sem.mu.Lock()
+	ready := sem.ready
+	sem.mu.Unlock()
 	select {
 	case <-ctx.Done():
-	case <-sem.ready:
+	case <-ready:
 	}
 }
 
diff --git a/router.go b/router.go
index e3c76f5..98c15ab 100644
--- a/router.go
+++ b/router.go
@@ -229,6 +229,9 @@ func (w *routerMWriter) write(ctx context.Context, msg Msg) error {
 		return fmt.Errorf("zmq4: ROUTER message without identity frame")
 	}
 	w.sem.lock(ctx)
+	if err := ctx.Err(); err != nil {
+		return err
+	}
 	grp, _ := errgrp.WithContext(ctx)
 	// Do not hold the lock while sending: a stalled peer would block
 	// everything that adds or removes connections.
-- 
2.43.0


From 29c69fe42389b1a9f053cdb9862f66930acd5741 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:43 +0000
Subject: [PATCH 13/45] fix: honour the REQ send deadline and fix the
 round-robin index

---
 req.go | 31 +++++++++++++++++++++++++------
 1 file changed, 25 insertions(+), 6 deletions(-)

diff --git a/req.go b/req.go
index 2b99aed..bb0f205 100644
--- a/req.go
+++ b/req.go
@@ -9,6 +9,8 @@ import (
 	"fmt"
 	"net"
 	"sync"
+
+	errgrp "github.com/luxfi/zmq/v4/internal/errgroup"
 )
 
 // NewReq returns a new REQ ZeroMQ socket.
@@ -106,18 +108,35 @@ func newReqWriter(ctx context.Context, state *reqState) *reqWriter {
 func (r *reqWriter) write(ctx context.Context, msg Msg) error {
 	msg.Frames = append([][]byte{nil}, msg.Frames...)
 
+	// Do not hold the lock while sending: a stalled peer would block
+	// everything that adds or removes connections.
 	r.mu.Lock()
-	defer r.mu.Unlock()
+	conns := append([]*Conn(nil), r.conns...)
+	next := r.nextConn
+	r.mu.Unlock()
+
 	var err error
-	for i := 0; i < len(r.conns); i++ {
-		cur := i + r.nextConn%len(r.conns)
-		conn := r.conns[cur]
-		err = conn.SendMsg(msg)
+	for i := range conns {
+		cur := (next + i) % len(conns)
+		conn := conns[cur]
+		grp, _ := errgrp.WithContext(ctx)
+		grp.Go(func() error {
+			return conn.SendMsg(msg)
+		})
+		err = grp.Wait()
 		if err == nil {
-			r.nextConn = cur + 1%len(r.conns)
+			r.mu.Lock()
+			r.nextConn = cur + 1
+			r.mu.Unlock()
 			r.state.Set(conn)
 			return nil
 		}
+		if ctx.Err() != nil {
+			// The request may be partly written: drop the connection,
+			// so that a reply to it is never taken for another one's.
+			_ = conn.Close()
+			return ctx.Err()
+		}
 	}
 	return fmt.Errorf("zmq4: no connections available: %w", err)
 }
-- 
2.43.0


From d94eb76ec2aff5d729189a273b9fd2d60181e4ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:45 +0000
Subject: [PATCH 14/45] fix: unblock REQ Recv on cancellation and release lost
 REQ connections

---
 req.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/req.go b/req.go
index bb0f205..ccc232c 100644
--- a/req.go
+++ b/req.go
@@ -160,6 +160,7 @@ func (r *reqWriter) rmConn(conn *Conn) {
 	}
 	if cur >= 0 {
 		r.conns = append(r.conns[:cur], r.conns[cur+1:]...)
+		_ = conn.Close() // no reader does it for REQ
 	}
 
 	r.state.Reset(conn)
@@ -202,8 +203,14 @@ func (r *reqReader) read(ctx context.Context, msg *Msg) error {
 	if curConn == nil {
 		return fmt.Errorf("zmq4: no connections available")
 	}
+	// There is no reply to wait for once the socket is closed or canceled.
+	stop := context.AfterFunc(ctx, func() { _ = curConn.Close() })
 	*msg = curConn.read()
+	stop()
 	if msg.err != nil {
+		if err := ctx.Err(); err != nil {
+			return err
+		}
 		return msg.err
 	}
 	if len(msg.Frames) > 1 {
-- 
2.43.0


From 0964991a1f80808cf2ff5abe0954e46bfa41b3bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:46 +0000
Subject: [PATCH 15/45] fix: keep empty frames in the body of a request
 received by REP

---
 rep.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/rep.go b/rep.go
index d9a1a78..a74a5ad 100644
--- a/rep.go
+++ b/rep.go
@@ -192,10 +192,12 @@ func splitReq(envelope Msg) (preamble [][]byte, msg Msg) {
 		if len(frame) != 0 {
 			continue
 		}
+		// the first empty frame ends the envelope, others belong to the body.
 		preamble = envelope.Frames[:i+1]
 		if i+1 < len(envelope.Frames) {
 			msg = NewMsgFrom(envelope.Frames[i+1:]...)
 		}
+		return
 	}
 	return
 }
-- 
2.43.0


From 36de42cde359adeab87649f4e0b627c9d83d2463 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:47 +0000
Subject: [PATCH 16/45] fix: do not hold the REP writer lock while sending a
 reply

---
 rep.go | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/rep.go b/rep.go
index a74a5ad..6cf033c 100644
--- a/rep.go
+++ b/rep.go
@@ -285,15 +285,18 @@ func (r *repWriter) run() {
 
 func (r *repWriter) sendPayload(payload repSendPayload) {
 	r.mu.Lock()
-	defer r.mu.Unlock()
+	found := false
 	for _, conn := range r.conns {
-		if conn == payload.conn {
-			reply := payload.buildReplyMsg()
-			// not much we can do at this point. Perhaps log the error?
-			_ = conn.SendMsg(reply)
-			return
-		}
+		found = found || conn == payload.conn
+	}
+	r.mu.Unlock()
+	if !found {
+		return
 	}
+	// Do not hold the lock while sending: a stalled peer would block
+	// everything that adds or removes connections.
+	// not much we can do in case of an error. Perhaps log it?
+	_ = payload.conn.SendMsg(payload.buildReplyMsg())
 }
 
 func (r *repWriter) Close() error {
-- 
2.43.0


From e55aebd3484ad5c18cc23d531acb15b30f42f9e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:13 +0000
Subject: [PATCH 17/45] fix: do not leak connection readers blocked on a full
 queue when the socket is closed

---
 msgio.go  | 3 +--
 pub.go    | 6 +++++-
 rep.go    | 6 +++++-
 router.go | 6 +++++-
 4 files changed, 16 insertions(+), 5 deletions(-)

diff --git a/msgio.go b/msgio.go
index 987c63d..b2bb31a 100644
--- a/msgio.go
+++ b/msgio.go
@@ -106,8 +106,7 @@ func (q *qreader) listen(ctx context.Context, r *Conn) {
 		select {
 		case <-ctx.Done():
 			return
-		default:
-			q.c <- msg
+		case q.c <- msg:
 			if msg.err != nil {
 				return
 			}
diff --git a/pub.go b/pub.go
index 7dffb59..4775be7 100644
--- a/pub.go
+++ b/pub.go
@@ -201,7 +201,11 @@ func (q *pubQReader) listen(ctx context.Context, r *Conn) {
 			case q.topic(msg):
 				r.subscribe(msg)
 			default:
-				q.c <- msg
+				select {
+				case <-ctx.Done():
+					return
+				case q.c <- msg:
+				}
 			}
 		}
 	}
diff --git a/rep.go b/rep.go
index 6cf033c..cce8f13 100644
--- a/rep.go
+++ b/rep.go
@@ -167,7 +167,11 @@ func (r *repReader) listen(ctx context.Context, conn *Conn) {
 			if msg.err != nil {
 				return
 			}
-			r.msgCh <- repMsg{conn, msg}
+			select {
+			case <-ctx.Done():
+				return
+			case r.msgCh <- repMsg{conn, msg}:
+			}
 		}
 	}
 }
diff --git a/router.go b/router.go
index 98c15ab..53836d4 100644
--- a/router.go
+++ b/router.go
@@ -168,7 +168,11 @@ func (q *routerQReader) listen(ctx context.Context, r *Conn) {
 				return
 			}
 			msg.Frames = append([][]byte{id}, msg.Frames...)
-			q.c <- msg
+			select {
+			case <-ctx.Done():
+				return
+			case q.c <- msg:
+			}
 		}
 	}
 }
-- 
2.43.0


From f5311496002e74fba5a37d087c2353af5addb568 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:14 +0000
Subject: [PATCH 18/45] fix: stop the per-subscriber writers of PUB and XPUB
 when the socket is closed

---
 pub.go | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/pub.go b/pub.go
index 4775be7..97920d0 100644
--- a/pub.go
+++ b/pub.go
@@ -260,13 +260,17 @@ func (mw *pubMWriter) addConn(w *Conn) {
 	mw.subscribers[w] = c
 	go func() {
 		for {
-			msg, ok := <-c
-			if !ok {
-				break
-			}
-			topic := string(msg.Frames[0])
-			if w.subscribed(topic) {
-				_ = w.SendMsg(msg)
+			select {
+			case <-mw.ctx.Done():
+				return
+			case msg, ok := <-c:
+				if !ok {
+					return
+				}
+				topic := string(msg.Frames[0])
+				if w.subscribed(topic) {
+					_ = w.SendMsg(msg)
+				}
 			}
 		}
 	}()
-- 
2.43.0


From e4fbe632fdf1a3d3cfcdf4acec2416c84f2ee425 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:15 +0000
Subject: [PATCH 19/45] fix: refuse to publish a message without frames instead
 of panicking later

---
 pub.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pub.go b/pub.go
index 97920d0..50f1e09 100644
--- a/pub.go
+++ b/pub.go
@@ -288,6 +288,9 @@ func (mw *pubMWriter) rmConn(w *Conn) {
 }
 
 func (w *pubMWriter) write(ctx context.Context, msg Msg) error {
+	if len(msg.Frames) == 0 {
+		return fmt.Errorf("zmq4: message without frames")
+	}
 	w.mu.RLock()
 	defer w.mu.RUnlock()
 
-- 
2.43.0


From 3cc49e53818282066e80e804f2717f077ba54b26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:16 +0000
Subject: [PATCH 20/45] fix: return an error from XPUB Recv when the socket is
 closed

---
 pub.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pub.go b/pub.go
index 50f1e09..2602b53 100644
--- a/pub.go
+++ b/pub.go
@@ -179,6 +179,7 @@ func (q *pubQReader) read(ctx context.Context, msg *Msg) error {
 	q.sem.lock(ctx)
 	select {
 	case <-ctx.Done():
+		return ctx.Err()
 	case *msg = <-q.c:
 	}
 	return msg.err
-- 
2.43.0


From 37fdeb07a1856c7b8a9c394f5918baebb5a4466e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:17 +0000
Subject: [PATCH 21/45] fix: fail PUB, REP and REQ Send once the socket is
 closed or canceled

---
 pub.go | 3 +++
 rep.go | 3 +++
 req.go | 3 +++
 3 files changed, 9 insertions(+)

diff --git a/pub.go b/pub.go
index 2602b53..546d39d 100644
--- a/pub.go
+++ b/pub.go
@@ -292,6 +292,9 @@ func (w *pubMWriter) write(ctx context.Context, msg Msg) error {
 	if len(msg.Frames) == 0 {
 		return fmt.Errorf("zmq4: message without frames")
 	}
+	if err := ctx.Err(); err != nil {
+		return err
+	}
 	w.mu.RLock()
 	defer w.mu.RUnlock()
 
diff --git a/rep.go b/rep.go
index cce8f13..06adbdb 100644
--- a/rep.go
+++ b/rep.go
@@ -263,6 +263,9 @@ func (r *repWriter) rmConn(conn *Conn) {
 
 func (r *repWriter) write(ctx context.Context, msg Msg) error {
 	conn, preamble := r.state.Get()
+	if err := ctx.Err(); err != nil {
+		return err
+	}
 	select {
 	case <-ctx.Done():
 		return ctx.Err()
diff --git a/req.go b/req.go
index ccc232c..148dcfd 100644
--- a/req.go
+++ b/req.go
@@ -107,6 +107,9 @@ func newReqWriter(ctx context.Context, state *reqState) *reqWriter {
 
 func (r *reqWriter) write(ctx context.Context, msg Msg) error {
 	msg.Frames = append([][]byte{nil}, msg.Frames...)
+	if err := ctx.Err(); err != nil {
+		return err
+	}
 
 	// Do not hold the lock while sending: a stalled peer would block
 	// everything that adds or removes connections.
-- 
2.43.0


From 66f710ed5ca6f250634803458fa1c3a762a58cf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:44 +0000
Subject: [PATCH 22/45] fix: fail REP Recv once the socket is closed or
 canceled

---
 rep.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/rep.go b/rep.go
index 06adbdb..3923651 100644
--- a/rep.go
+++ b/rep.go
@@ -137,6 +137,9 @@ func (r *repReader) rmConn(conn *Conn) {
 }
 
 func (r *repReader) read(ctx context.Context, msg *Msg) error {
+	if err := ctx.Err(); err != nil {
+		return err
+	}
 	select {
 	case <-ctx.Done():
 		return ctx.Err()
-- 
2.43.0


From 025c60c001fc1f9013b4d4968b4aa2665631e524 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:45 +0000
Subject: [PATCH 23/45] fix: keep publishers' view of subscriptions consistent
 and SUB options free of deadlocks

---
 socket.go | 38 +++++++++++++++++++++++++++++++-------
 sub.go    | 22 ++++++++++++++++------
 2 files changed, 47 insertions(+), 13 deletions(-)

diff --git a/socket.go b/socket.go
index 55827e3..fb6a586 100644
--- a/socket.go
+++ b/socket.go
@@ -15,6 +15,8 @@ import (
 	"strings"
 	"sync"
 	"time"
+
+	errgrp "github.com/luxfi/zmq/v4/internal/errgroup"
 )
 
 const (
@@ -44,6 +46,7 @@ type socket struct {
 	sec           Security
 	log           *log.Logger
 	subTopics     func() []string
+	subMu         sync.Mutex // makes changes of subscriptions and their propagation atomic
 	autoReconnect bool
 	timeout       time.Duration
 
@@ -417,20 +420,41 @@ func (sck *socket) addConn(c *Conn) error {
 	if sck.r != nil {
 		sck.r.addConn(c)
 	}
-	// Get topics to resend while holding the lock
-	var topics []string
-	if sck.subTopics != nil {
-		topics = sck.subTopics()
-	}
 	sck.mu.Unlock()
 
 	// resend subscriptions for topics if there are any (without holding the lock)
-	for _, topic := range topics {
-		_ = sck.Send(NewMsg(append([]byte{1}, topic...)))
+	if sck.subTopics != nil {
+		sck.subMu.Lock()
+		defer sck.subMu.Unlock()
+		topics := sck.subTopics()
+		err := sck.sendTo([]*Conn{c}, func(c *Conn) error {
+			for _, topic := range topics {
+				if err := c.SendMsg(NewMsg(append([]byte{1}, topic...))); err != nil {
+					return err
+				}
+			}
+			return nil
+		})
+		if err != nil {
+			// the peer does not know what to send: start over.
+			_ = c.Close()
+		}
 	}
 	return nil
 }
 
+// sendTo calls send for all the given connections and waits for it to return,
+// for the send deadline or for the socket to be closed.
+func (sck *socket) sendTo(conns []*Conn, send func(c *Conn) error) error {
+	ctx, cancel := context.WithTimeout(sck.ctx, sck.Timeout())
+	defer cancel()
+	grp, _ := errgrp.WithContext(ctx)
+	for _, c := range conns {
+		grp.Go(func() error { return send(c) })
+	}
+	return grp.Wait()
+}
+
 func (sck *socket) rmConn(c *Conn) {
 	sck.mu.Lock()
 	defer sck.mu.Unlock()
diff --git a/sub.go b/sub.go
index 008d6b1..c521c72 100644
--- a/sub.go
+++ b/sub.go
@@ -93,14 +93,22 @@ func (sub *subSocket) SetOption(name string, value interface{}) error {
 		topic []byte
 	)
 
+	k, ok := value.(string)
+	if !ok {
+		return ErrBadProperty
+	}
+
+	// Publishers must see the changes in the order they were made in.
+	// Connections added from now on are told about the resulting topics.
+	sub.sck.subMu.Lock()
+	defer sub.sck.subMu.Unlock()
+
 	switch name {
 	case OptionSubscribe:
-		k := value.(string)
 		sub.subscribe(k, 1)
 		topic = append([]byte{1}, k...)
 
 	case OptionUnsubscribe:
-		k := value.(string)
 		topic = append([]byte{0}, k...)
 		sub.subscribe(k, 0)
 
@@ -108,12 +116,14 @@ func (sub *subSocket) SetOption(name string, value interface{}) error {
 		return ErrBadProperty
 	}
 
+	// Do not hold the lock while sending: a stalled peer would block
+	// everything that adds or removes connections.
 	sub.sck.mu.RLock()
-	if len(sub.sck.conns) > 0 {
-		err = sub.Send(NewMsg(topic))
-	}
+	conns := append([]*Conn(nil), sub.sck.conns...)
 	sub.sck.mu.RUnlock()
-	return err
+	return sub.sck.sendTo(conns, func(c *Conn) error {
+		return c.SendMsg(NewMsg(topic))
+	})
 }
 
 // Topics returns the sorted list of topics a socket is subscribed to.
-- 
2.43.0


From 2e47a0498b0faed7171add4ddb0a3feae1efe7c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:14 +0000
Subject: [PATCH 24/45] fix: keep PLAIN credentials for further connections and
 reconnections

---
 security/plain/plain.go | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/security/plain/plain.go b/security/plain/plain.go
index 6a8d87d..071e7fb 100644
--- a/security/plain/plain.go
+++ b/security/plain/plain.go
@@ -126,9 +126,6 @@ func (sec *security) Handshake(conn *zmq4.Conn, server bool) error {
 		if err != nil {
 			return fmt.Errorf("security/plain: could not unmarshal peer metadata: %w", err)
 		}
-
-		sec.user = nil
-		sec.pass = nil
 	}
 	return nil
 }
-- 
2.43.0


From fa7eafd8dbe44b15288b8000a4da769f99815de7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:15 +0000
Subject: [PATCH 25/45] fix: require INITIATE from a PLAIN client before
 accepting its metadata

---
 security/plain/plain.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/security/plain/plain.go b/security/plain/plain.go
index 071e7fb..d775a26 100644
--- a/security/plain/plain.go
+++ b/security/plain/plain.go
@@ -65,6 +65,10 @@ func (sec *security) Handshake(conn *zmq4.Conn, server bool) error {
 			return fmt.Errorf("security/plain: could not receive INITIATE from client: %w", err)
 		}
 
+		if cmd.Name != zmq4.CmdInitiate {
+			return fmt.Errorf("security/plain: expected INITIATE command")
+		}
+
 		err = conn.Peer.Meta.UnmarshalZMTP(cmd.Body)
 		if err != nil {
 			return fmt.Errorf("security/plain: could not unmarshal peer metadata: %w", err)
-- 
2.43.0


From 46bb08debfda631a8b46bfaa5b2d940a8518a32b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:16 +0000
Subject: [PATCH 26/45] fix: protect socket options from concurrent use

---
 socket.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/socket.go b/socket.go
index fb6a586..8dff2f7 100644
--- a/socket.go
+++ b/socket.go
@@ -55,7 +55,8 @@ type socket struct {
 	r     rpool
 	w     wpool
 
-	props map[string]interface{} // properties of this socket
+	propsMu sync.RWMutex
+	props   map[string]interface{} // properties of this socket
 
 	ctx      context.Context // life-line of socket
 	cancel   context.CancelFunc
@@ -511,6 +512,8 @@ func (sck *socket) Addr() net.Addr {
 
 // GetOption is used to retrieve an option for a socket.
 func (sck *socket) GetOption(name string) (interface{}, error) {
+	sck.propsMu.RLock()
+	defer sck.propsMu.RUnlock()
 	v, ok := sck.props[name]
 	if !ok {
 		return nil, ErrBadProperty
@@ -521,6 +524,8 @@ func (sck *socket) GetOption(name string) (interface{}, error) {
 // SetOption is used to set an option for a socket.
 func (sck *socket) SetOption(name string, value interface{}) error {
 	// FIXME(sbinet) different socket types support different options.
+	sck.propsMu.Lock()
+	defer sck.propsMu.Unlock()
 	sck.props[name] = value
 	return nil
 }
-- 
2.43.0


From e7a486b64ba461a22ed4c3c92be691f7efcd7733 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:17 +0000
Subject: [PATCH 27/45] fix: refuse a negative PUB high-water mark instead of
 panicking on the next connection

---
 pub.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pub.go b/pub.go
index 546d39d..98c7076 100644
--- a/pub.go
+++ b/pub.go
@@ -103,7 +103,7 @@ func (pub *pubSocket) SetOption(name string, value interface{}) error {
 	}
 
 	hwm, ok := value.(int)
-	if !ok {
+	if !ok || hwm < 0 {
 		return ErrBadProperty
 	}
 
-- 
2.43.0


From 39f6999721c8bde812fa651e9fe3543205cb6263 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:57 +0000
Subject: [PATCH 28/45] fix: do not panic in DisconnectPeer when no peer is
 connected

---
 networking/transport.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/networking/transport.go b/networking/transport.go
index 6dad206..4f18e14 100644
--- a/networking/transport.go
+++ b/networking/transport.go
@@ -206,7 +206,7 @@ func (t *Transport) DisconnectPeer(peerID string) {
 	}
 
 	// Remove from peers list
-	newPeers := make([]string, 0, len(t.peers)-1)
+	newPeers := make([]string, 0, len(t.peers))
 	for _, p := range t.peers {
 		if p != peerID {
 			newPeers = append(newPeers, p)
-- 
2.43.0


From 7933ce465da0eea6cd0238ee29364a20a540800e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:57 +0000
Subject: [PATCH 29/45] fix: allow the networking transport to be stopped more
 than once

---
 networking/transport.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/networking/transport.go b/networking/transport.go
index 4f18e14..36e9dcf 100644
--- a/networking/transport.go
+++ b/networking/transport.go
@@ -36,8 +36,9 @@ type Transport struct {
 	msgReceived atomic.Uint64
 	msgDropped  atomic.Uint64
 
-	stopCh chan struct{}
-	wg     sync.WaitGroup
+	stopCh   chan struct{}
+	stopOnce sync.Once
+	wg       sync.WaitGroup
 }
 
 // Config holds transport configuration
@@ -134,7 +135,7 @@ func (t *Transport) Start() error {
 
 // Stop gracefully shuts down the transport
 func (t *Transport) Stop() {
-	close(t.stopCh)
+	t.stopOnce.Do(func() { close(t.stopCh) })
 	t.cancel()
 	t.wg.Wait()
 
-- 
2.43.0


From 741f5df398fec0c45ba8fbb08bc7f88edf7a6c99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:17 +0000
Subject: [PATCH 30/45] fix: drop a peer's broadcasts when it is disconnected
 or could not be connected

---
 networking/transport.go | 62 ++++++++++++++++++++++++++++++-----------
 1 file changed, 45 insertions(+), 17 deletions(-)

diff --git a/networking/transport.go b/networking/transport.go
index 36e9dcf..ccbb099 100644
--- a/networking/transport.go
+++ b/networking/transport.go
@@ -22,7 +22,7 @@ type Transport struct {
 	ctx     context.Context
 	cancel  context.CancelFunc
 	pub     zmq4.Socket
-	sub     zmq4.Socket
+	subs    map[string]peerSub
 	router  zmq4.Socket
 	dealers map[string]zmq4.Socket
 	config  Config
@@ -41,6 +41,17 @@ type Transport struct {
 	wg       sync.WaitGroup
 }
 
+// peerSub receives the broadcasts of one peer
+type peerSub struct {
+	zmq4.Socket
+	cancel context.CancelFunc
+}
+
+func (s peerSub) Close() error {
+	s.cancel()
+	return s.Socket.Close()
+}
+
 // Config holds transport configuration
 type Config struct {
 	NodeID      string
@@ -101,6 +112,7 @@ func New(ctx context.Context, config Config) *Transport {
 		cancel:   cancel,
 		config:   config,
 		handlers: make(map[string]MessageHandler),
+		subs:     make(map[string]peerSub),
 		dealers:  make(map[string]zmq4.Socket),
 		stopCh:   make(chan struct{}),
 	}
@@ -115,10 +127,6 @@ func (t *Transport) Start() error {
 		return fmt.Errorf("failed to bind pub socket on %s: %w", pubAddr, err)
 	}
 
-	// SUB socket for receiving broadcasts
-	t.sub = zmq4.NewSub(t.ctx)
-	t.sub.SetOption(zmq4.OptionSubscribe, "")
-
 	// ROUTER socket for direct messages
 	t.router = zmq4.NewRouter(t.ctx)
 	routerAddr := fmt.Sprintf("tcp://%s:%d", t.config.BindAddress, t.config.BasePort+1000)
@@ -126,8 +134,7 @@ func (t *Transport) Start() error {
 		return fmt.Errorf("failed to bind router socket on %s: %w", routerAddr, err)
 	}
 
-	t.wg.Add(2)
-	go t.subLoop()
+	t.wg.Add(1)
 	go t.routerLoop()
 
 	return nil
@@ -137,21 +144,23 @@ func (t *Transport) Start() error {
 func (t *Transport) Stop() {
 	t.stopOnce.Do(func() { close(t.stopCh) })
 	t.cancel()
+	t.mu.Lock() // wait for ConnectPeer
+	t.mu.Unlock()
 	t.wg.Wait()
 
 	// Close sockets
 	if t.pub != nil {
 		t.pub.Close()
 	}
-	if t.sub != nil {
-		t.sub.Close()
-	}
 	if t.router != nil {
 		t.router.Close()
 	}
 
-	// Close dealer sockets
+	// Close sub and dealer sockets
 	t.mu.Lock()
+	for _, sub := range t.subs {
+		sub.Close()
+	}
 	for _, dealer := range t.dealers {
 		dealer.Close()
 	}
@@ -175,9 +184,18 @@ func (t *Transport) ConnectPeerWithAddress(peerID, address string, port int) err
 		}
 	}
 
-	// Subscribe to peer's broadcasts
+	if err := t.ctx.Err(); err != nil {
+		return fmt.Errorf("failed to connect to %s: %w", peerID, err)
+	}
+
+	// Subscribe to peer's broadcasts, on a socket that goes away with the peer
+	subCtx, cancel := context.WithCancel(t.ctx)
+	sub := peerSub{zmq4.NewSub(subCtx), cancel}
+	sub.SetOption(zmq4.OptionSubscribe, "")
+
 	subAddr := fmt.Sprintf("tcp://%s:%d", address, port)
-	if err := t.sub.Dial(subAddr); err != nil {
+	if err := sub.Dial(subAddr); err != nil {
+		sub.Close()
 		return fmt.Errorf("failed to connect sub to %s at %s: %w", peerID, subAddr, err)
 	}
 
@@ -186,9 +204,15 @@ func (t *Transport) ConnectPeerWithAddress(peerID, address string, port int) err
 
 	routerAddr := fmt.Sprintf("tcp://%s:%d", address, port+1000)
 	if err := dealer.Dial(routerAddr); err != nil {
+		sub.Close()
+		dealer.Close()
 		return fmt.Errorf("failed to connect dealer to %s at %s: %w", peerID, routerAddr, err)
 	}
 
+	t.subs[peerID] = sub
+	t.wg.Add(1)
+	go t.subLoop(subCtx, sub)
+
 	t.dealers[peerID] = dealer
 	t.peers = append(t.peers, peerID)
 
@@ -200,7 +224,11 @@ func (t *Transport) DisconnectPeer(peerID string) {
 	t.mu.Lock()
 	defer t.mu.Unlock()
 
-	// Close and remove dealer
+	// Close and remove sub and dealer
+	if sub, ok := t.subs[peerID]; ok {
+		sub.Close()
+		delete(t.subs, peerID)
+	}
 	if dealer, ok := t.dealers[peerID]; ok {
 		dealer.Close()
 		delete(t.dealers, peerID)
@@ -323,17 +351,17 @@ func (t *Transport) GetMetrics() (sent, received, dropped uint64) {
 }
 
 // subLoop processes broadcast messages
-func (t *Transport) subLoop() {
+func (t *Transport) subLoop(ctx context.Context, sub zmq4.Socket) {
 	defer t.wg.Done()
 
 	for {
 		select {
 		case <-t.stopCh:
 			return
-		case <-t.ctx.Done():
+		case <-ctx.Done():
 			return
 		default:
-			msg, err := t.sub.Recv()
+			msg, err := sub.Recv()
 			if err != nil {
 				if err == context.Canceled || err == context.DeadlineExceeded {
 					return
-- 
2.43.0


From 442036ee7fa3cac11b421671da452f7d10864802 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:55 +0000
Subject: [PATCH 31/45] fix: ROUTER handed out the same identity slice with
 every message

---
 router.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/router.go b/router.go
index 53836d4..b715b0a 100644
--- a/router.go
+++ b/router.go
@@ -157,7 +157,6 @@ func (q *routerQReader) listen(ctx context.Context, r *Conn) {
 	defer q.rmConn(r)
 	defer r.Close()
 
-	id := []byte(r.Peer.Meta[sysSockID])
 	for {
 		msg := r.read()
 		select {
@@ -167,6 +166,8 @@ func (q *routerQReader) listen(ctx context.Context, r *Conn) {
 			if msg.err != nil {
 				return
 			}
+			// the receiver owns its message: do not share the identity
+			id := []byte(r.Peer.Meta[sysSockID])
 			msg.Frames = append([][]byte{id}, msg.Frames...)
 			select {
 			case <-ctx.Done():
-- 
2.43.0


From f42d954258b960eacc34ae9483f9b324786a5380 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:30 +0000
Subject: [PATCH 32/45] fix: do not fail Close because a connection was already
 closed

---
 socket.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/socket.go b/socket.go
index 8dff2f7..ef8ed24 100644
--- a/socket.go
+++ b/socket.go
@@ -157,6 +157,9 @@ func (sck *socket) Close() error {
 	var err error
 	for _, conn := range sck.conns {
 		e := conn.Close()
+		if errors.Is(e, net.ErrClosed) {
+			e = nil // the connection was lost before
+		}
 		if e != nil && err == nil {
 			err = e
 		}
-- 
2.43.0


From d68dc4b805d5b6412f0fe7b21aa4bc3c159576d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:54:02 +0000
Subject: [PATCH 33/45] fix: close a connection when its socket drops it

A socket without a reader (PUSH) kept the connections of departed peers open
for ever, and Close no longer reached a connection removed after a write error.
---
 socket.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/socket.go b/socket.go
index ef8ed24..44e768f 100644
--- a/socket.go
+++ b/socket.go
@@ -482,6 +482,7 @@ func (sck *socket) rmConn(c *Conn) {
 	if sck.w != nil {
 		sck.w.rmConn(c)
 	}
+	_ = c.Close()
 }
 
 func (sck *socket) scheduleRmConn(c *Conn) {
-- 
2.43.0


From b55db7c3e04e74b932965259fe99d004f29f185f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:03:08 +0000
Subject: [PATCH 34/45] fix: a client that does not read its reply no longer
 blocks a REP socket's replies to others for ever

---
 rep.go | 42 ++++++++++++------------------------------
 1 file changed, 12 insertions(+), 30 deletions(-)

diff --git a/rep.go b/rep.go
index 3923651..9a24bce 100644
--- a/rep.go
+++ b/rep.go
@@ -9,6 +9,8 @@ import (
 	"fmt"
 	"net"
 	"sync"
+
+	errgrp "github.com/luxfi/zmq/v4/internal/errgroup"
 )
 
 // NewRep returns a new REP ZeroMQ socket.
@@ -221,8 +223,6 @@ type repWriter struct {
 
 	mu    sync.Mutex
 	conns []*Conn
-
-	sendCh chan repSendPayload
 }
 
 func (r repSendPayload) buildReplyMsg() Msg {
@@ -233,13 +233,10 @@ func (r repSendPayload) buildReplyMsg() Msg {
 }
 
 func newRepWriter(ctx context.Context, state *repState) *repWriter {
-	r := &repWriter{
-		ctx:    ctx,
-		state:  state,
-		sendCh: make(chan repSendPayload),
+	return &repWriter{
+		ctx:   ctx,
+		state: state,
 	}
-	go r.run()
-	return r
 }
 
 func (r *repWriter) addConn(w *Conn) {
@@ -269,28 +266,14 @@ func (r *repWriter) write(ctx context.Context, msg Msg) error {
 	if err := ctx.Err(); err != nil {
 		return err
 	}
-	select {
-	case <-ctx.Done():
-		return ctx.Err()
-	case <-r.ctx.Done(): // repWriter.run() terminates on this, sendCh <- will not complete
-		return r.ctx.Err()
-	case r.sendCh <- repSendPayload{conn, preamble, msg}:
+	// A peer that does not read its reply must not keep those of others from
+	// being sent once the deadline has expired.
+	grp, _ := errgrp.WithContext(ctx)
+	grp.Go(func() error {
+		r.sendPayload(repSendPayload{conn, preamble, msg})
 		return nil
-	}
-}
-
-func (r *repWriter) run() {
-	for {
-		select {
-		case <-r.ctx.Done():
-			return
-		case payload, ok := <-r.sendCh:
-			if !ok {
-				return
-			}
-			r.sendPayload(payload)
-		}
-	}
+	})
+	return grp.Wait()
 }
 
 func (r *repWriter) sendPayload(payload repSendPayload) {
@@ -310,7 +293,6 @@ func (r *repWriter) sendPayload(payload repSendPayload) {
 }
 
 func (r *repWriter) Close() error {
-	close(r.sendCh)
 	r.mu.Lock()
 	defer r.mu.Unlock()
 
-- 
2.43.0


From f2075724369173ba30c05cb513065c6abee4cc35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:38:13 +0000
Subject: [PATCH 35/45] fix: PLAIN servers validate the user name and password
 of clients

The HELLO command was accepted whatever it contained, so that anybody could
connect, and credentials made no difference.
---
 security/plain/plain.go | 39 +++++++++++++++++++++++++++++----------
 1 file changed, 29 insertions(+), 10 deletions(-)

diff --git a/security/plain/plain.go b/security/plain/plain.go
index d775a26..2a3c80d 100644
--- a/security/plain/plain.go
+++ b/security/plain/plain.go
@@ -7,6 +7,7 @@
 package plain
 
 import (
+	"crypto/subtle"
 	"fmt"
 	"io"
 
@@ -48,8 +49,7 @@ func (sec *security) Handshake(conn *zmq4.Conn, server bool) error {
 			return fmt.Errorf("security/plain: expected HELLO command")
 		}
 
-		// FIXME(sbinet): perform a real authentication
-		err = validateHello(cmd.Body)
+		err = sec.validateHello(cmd.Body)
 		if err != nil {
 			_ = conn.SendCmd(zmq4.CmdError, []byte("invalid")) // FIXME(sbinet) correct ERROR reason
 			return fmt.Errorf("security/plain: could not authenticate client: %w", err)
@@ -145,17 +145,36 @@ func (security) Decrypt(w io.Writer, data []byte) (int, error) {
 }
 
 // validateHello validates the user/passwd credentials.
-func validateHello(body []byte) error {
-	//	n := int(body[0])
-	//	user := body[1 : 1+n]
-	//	body = body[1+n:]
-	//	n = int(body[0])
-	//	pass := body[1 : 1+n]
-	//	body = body[1+n:]
-	//	log.Printf("user=%q, pass=%q, body=%q", user, pass, body)
+func (sec *security) validateHello(body []byte) error {
+	user, body, ok := cutField(body)
+	if !ok {
+		return fmt.Errorf("security/plain: malformed HELLO")
+	}
+	pass, body, ok := cutField(body)
+	if !ok || len(body) != 0 {
+		return fmt.Errorf("security/plain: malformed HELLO")
+	}
+	okUser := subtle.ConstantTimeCompare(user, sec.user) == 1
+	okPass := subtle.ConstantTimeCompare(pass, sec.pass) == 1
+	if !okUser || !okPass {
+		return fmt.Errorf("security/plain: invalid credentials")
+	}
 	return nil
 }
 
+// cutField splits a field, prefixed with its length, off body.
+func cutField(body []byte) (field, rest []byte, ok bool) {
+	if len(body) == 0 {
+		return nil, nil, false
+	}
+	n := int(body[0])
+	body = body[1:]
+	if len(body) < n {
+		return nil, nil, false
+	}
+	return body[:n], body[n:], true
+}
+
 var (
 	_ zmq4.Security = (*security)(nil)
 )
-- 
2.43.0


From 9ed434ec6c7ec6eb39fd0fcecfe79cdababf9077 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:38:14 +0000
Subject: [PATCH 36/45] fix: a PUB socket keeps reading after messages that are
 not subscriptions

They were queued for a Recv that PUB does not have: after ten of them the
connection was not read any more, so that neither subscription changes nor the
departure of the peer were noticed.
---
 pub.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/pub.go b/pub.go
index 98c7076..3174291 100644
--- a/pub.go
+++ b/pub.go
@@ -27,7 +27,9 @@ type Topics interface {
 func NewPub(ctx context.Context, opts ...Option) Socket {
 	pub := &pubSocket{sck: newSocket(ctx, Pub, opts...)}
 	pub.sck.w = newPubMWriter(pub.sck.ctx)
-	pub.sck.r = newPubQReader(pub.sck.ctx)
+	r := newPubQReader(pub.sck.ctx)
+	r.discard = true // PUB can't receive: only subscriptions matter.
+	pub.sck.r = r
 	return pub
 }
 
@@ -126,6 +128,8 @@ type pubQReader struct {
 	c  chan Msg
 
 	sem *semaphore // ready when a connection is live.
+
+	discard bool // drop messages that are not subscriptions
 }
 
 func newPubQReader(ctx context.Context) *pubQReader {
@@ -201,6 +205,7 @@ func (q *pubQReader) listen(ctx context.Context, r *Conn) {
 			switch {
 			case q.topic(msg):
 				r.subscribe(msg)
+			case q.discard:
 			default:
 				select {
 				case <-ctx.Done():
-- 
2.43.0


From d4a87f0a0643f6cde985267a4c37ac27bb3050a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:29 +0000
Subject: [PATCH 37/45] fix: a Transport whose Start failed keeps no port and
 can be started again

---
 networking/transport.go | 36 ++++++++++++++++++++++++++++--------
 1 file changed, 28 insertions(+), 8 deletions(-)

diff --git a/networking/transport.go b/networking/transport.go
index ccbb099..bba4079 100644
--- a/networking/transport.go
+++ b/networking/transport.go
@@ -8,6 +8,7 @@ package networking
 import (
 	"context"
 	"encoding/json"
+	"errors"
 	"fmt"
 	"sync"
 	"sync/atomic"
@@ -120,22 +121,33 @@ func New(ctx context.Context, config Config) *Transport {
 
 // Start initializes the transport
 func (t *Transport) Start() error {
+	t.mu.Lock()
+	defer t.mu.Unlock()
+
+	if err := t.ctx.Err(); err != nil {
+		return fmt.Errorf("failed to start: %w", err)
+	}
+
 	// PUB socket for broadcasting
-	t.pub = zmq4.NewPub(t.ctx)
+	pub := zmq4.NewPub(t.ctx)
 	pubAddr := fmt.Sprintf("tcp://%s:%d", t.config.BindAddress, t.config.BasePort)
-	if err := t.pub.Listen(pubAddr); err != nil {
+	if err := pub.Listen(pubAddr); err != nil {
+		pub.Close()
 		return fmt.Errorf("failed to bind pub socket on %s: %w", pubAddr, err)
 	}
 
 	// ROUTER socket for direct messages
-	t.router = zmq4.NewRouter(t.ctx)
+	router := zmq4.NewRouter(t.ctx)
 	routerAddr := fmt.Sprintf("tcp://%s:%d", t.config.BindAddress, t.config.BasePort+1000)
-	if err := t.router.Listen(routerAddr); err != nil {
+	if err := router.Listen(routerAddr); err != nil {
+		pub.Close()
+		router.Close()
 		return fmt.Errorf("failed to bind router socket on %s: %w", routerAddr, err)
 	}
 
+	t.pub, t.router = pub, router
 	t.wg.Add(1)
-	go t.routerLoop()
+	go t.routerLoop(router)
 
 	return nil
 }
@@ -246,6 +258,14 @@ func (t *Transport) DisconnectPeer(peerID string) {
 
 // Broadcast sends a message to all connected peers
 func (t *Transport) Broadcast(msg *Message) error {
+	t.mu.RLock()
+	pub := t.pub
+	t.mu.RUnlock()
+
+	if pub == nil {
+		return errors.New("transport not started")
+	}
+
 	msg.From = t.nodeID
 	msg.Timestamp = time.Now().UnixNano()
 
@@ -255,7 +275,7 @@ func (t *Transport) Broadcast(msg *Message) error {
 	}
 
 	t.msgSent.Add(1)
-	return t.pub.Send(zmq4.NewMsg(data))
+	return pub.Send(zmq4.NewMsg(data))
 }
 
 // Send sends a direct message to a specific peer
@@ -376,7 +396,7 @@ func (t *Transport) subLoop(ctx context.Context, sub zmq4.Socket) {
 }
 
 // routerLoop processes direct messages
-func (t *Transport) routerLoop() {
+func (t *Transport) routerLoop(router zmq4.Socket) {
 	defer t.wg.Done()
 
 	for {
@@ -386,7 +406,7 @@ func (t *Transport) routerLoop() {
 		case <-t.ctx.Done():
 			return
 		default:
-			msg, err := t.router.Recv()
+			msg, err := router.Recv()
 			if err != nil {
 				if err == context.Canceled || err == context.DeadlineExceeded {
 					return
-- 
2.43.0


From ed928e9b633a5f5b3eaad2f6e730532045da8ce4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:12 +0000
Subject: [PATCH 38/45] fix: connecting to a peer holds up nothing else of a
 Transport

---
 networking/transport.go | 95 ++++++++++++++++++++++++++++++-----------
 1 file changed, 71 insertions(+), 24 deletions(-)

diff --git a/networking/transport.go b/networking/transport.go
index bba4079..1af9d35 100644
--- a/networking/transport.go
+++ b/networking/transport.go
@@ -28,9 +28,10 @@ type Transport struct {
 	dealers map[string]zmq4.Socket
 	config  Config
 
-	mu       sync.RWMutex
-	handlers map[string]MessageHandler
-	peers    []string
+	mu         sync.RWMutex
+	handlers   map[string]MessageHandler
+	peers      []string
+	connecting map[string]attempt
 
 	// Metrics
 	msgSent     atomic.Uint64
@@ -42,6 +43,12 @@ type Transport struct {
 	wg       sync.WaitGroup
 }
 
+// attempt is an attempt to connect to a peer
+type attempt struct {
+	cancel context.CancelFunc
+	done   chan struct{} // closed when it is over
+}
+
 // peerSub receives the broadcasts of one peer
 type peerSub struct {
 	zmq4.Socket
@@ -108,14 +115,15 @@ func New(ctx context.Context, config Config) *Transport {
 
 	tCtx, cancel := context.WithCancel(ctx)
 	return &Transport{
-		nodeID:   config.NodeID,
-		ctx:      tCtx,
-		cancel:   cancel,
-		config:   config,
-		handlers: make(map[string]MessageHandler),
-		subs:     make(map[string]peerSub),
-		dealers:  make(map[string]zmq4.Socket),
-		stopCh:   make(chan struct{}),
+		nodeID:     config.NodeID,
+		ctx:        tCtx,
+		cancel:     cancel,
+		config:     config,
+		handlers:   make(map[string]MessageHandler),
+		subs:       make(map[string]peerSub),
+		dealers:    make(map[string]zmq4.Socket),
+		connecting: make(map[string]attempt),
+		stopCh:     make(chan struct{}),
 	}
 }
 
@@ -189,6 +197,14 @@ func (t *Transport) ConnectPeerWithAddress(peerID, address string, port int) err
 	t.mu.Lock()
 	defer t.mu.Unlock()
 
+	// Wait for another attempt to connect to the peer
+	for t.connecting[peerID].done != nil {
+		done := t.connecting[peerID].done
+		t.mu.Unlock()
+		<-done
+		t.mu.Lock()
+	}
+
 	// Check if already connected
 	for _, p := range t.peers {
 		if p == peerID {
@@ -200,35 +216,61 @@ func (t *Transport) ConnectPeerWithAddress(peerID, address string, port int) err
 		return fmt.Errorf("failed to connect to %s: %w", peerID, err)
 	}
 
+	// Dial without holding the lock: it takes as long as the peer likes
+	ctx, cancel := context.WithCancel(t.ctx)
+	a := attempt{cancel: cancel, done: make(chan struct{})}
+	t.connecting[peerID] = a
+	t.wg.Add(1)
+	defer t.wg.Done()
+
+	t.mu.Unlock()
+	sub, dealer, err := t.dialPeer(ctx, cancel, peerID, address, port)
+	t.mu.Lock()
+
+	delete(t.connecting, peerID)
+	close(a.done)
+	if err != nil {
+		return err
+	}
+	if err := ctx.Err(); err != nil {
+		sub.Close()
+		dealer.Close()
+		return fmt.Errorf("failed to connect to %s: %w", peerID, err)
+	}
+
+	t.subs[peerID] = sub
+	t.wg.Add(1)
+	go t.subLoop(ctx, sub)
+
+	t.dealers[peerID] = dealer
+	t.peers = append(t.peers, peerID)
+
+	return nil
+}
+
+// dialPeer makes the sockets for a peer, which cancel brings down
+func (t *Transport) dialPeer(ctx context.Context, cancel context.CancelFunc, peerID, address string, port int) (peerSub, zmq4.Socket, error) {
 	// Subscribe to peer's broadcasts, on a socket that goes away with the peer
-	subCtx, cancel := context.WithCancel(t.ctx)
-	sub := peerSub{zmq4.NewSub(subCtx), cancel}
+	sub := peerSub{zmq4.NewSub(ctx), cancel}
 	sub.SetOption(zmq4.OptionSubscribe, "")
 
 	subAddr := fmt.Sprintf("tcp://%s:%d", address, port)
 	if err := sub.Dial(subAddr); err != nil {
 		sub.Close()
-		return fmt.Errorf("failed to connect sub to %s at %s: %w", peerID, subAddr, err)
+		return sub, nil, fmt.Errorf("failed to connect sub to %s at %s: %w", peerID, subAddr, err)
 	}
 
 	// Create dealer for direct messages
-	dealer := zmq4.NewDealer(t.ctx, zmq4.WithID(zmq4.SocketIdentity(t.nodeID)))
+	dealer := zmq4.NewDealer(ctx, zmq4.WithID(zmq4.SocketIdentity(t.nodeID)))
 
 	routerAddr := fmt.Sprintf("tcp://%s:%d", address, port+1000)
 	if err := dealer.Dial(routerAddr); err != nil {
 		sub.Close()
 		dealer.Close()
-		return fmt.Errorf("failed to connect dealer to %s at %s: %w", peerID, routerAddr, err)
+		return sub, nil, fmt.Errorf("failed to connect dealer to %s at %s: %w", peerID, routerAddr, err)
 	}
 
-	t.subs[peerID] = sub
-	t.wg.Add(1)
-	go t.subLoop(subCtx, sub)
-
-	t.dealers[peerID] = dealer
-	t.peers = append(t.peers, peerID)
-
-	return nil
+	return sub, dealer, nil
 }
 
 // DisconnectPeer removes a peer connection
@@ -236,6 +278,11 @@ func (t *Transport) DisconnectPeer(peerID string) {
 	t.mu.Lock()
 	defer t.mu.Unlock()
 
+	// Abandon an attempt to connect
+	if a, ok := t.connecting[peerID]; ok {
+		a.cancel()
+	}
+
 	// Close and remove sub and dealer
 	if sub, ok := t.subs[peerID]; ok {
 		sub.Close()
-- 
2.43.0


From fdcaf82c8f96ed7ea0d94de787f08bb07b2bbed5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:27 +0000
Subject: [PATCH 39/45] fix: a Transport that outlives many connections to a
 peer leaks none of them

---
 networking/transport.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/networking/transport.go b/networking/transport.go
index 1af9d35..3ee05f7 100644
--- a/networking/transport.go
+++ b/networking/transport.go
@@ -243,6 +243,9 @@ func (t *Transport) ConnectPeerWithAddress(peerID, address string, port int) err
 	go t.subLoop(ctx, sub)
 
 	t.dealers[peerID] = dealer
+	t.wg.Add(1)
+	go t.dealerLoop(ctx, dealer)
+
 	t.peers = append(t.peers, peerID)
 
 	return nil
@@ -442,6 +445,15 @@ func (t *Transport) subLoop(ctx context.Context, sub zmq4.Socket) {
 	}
 }
 
+// dealerLoop discards what a peer answers, and the ends of its connections
+func (t *Transport) dealerLoop(ctx context.Context, dealer zmq4.Socket) {
+	defer t.wg.Done()
+
+	for ctx.Err() == nil {
+		dealer.Recv()
+	}
+}
+
 // routerLoop processes direct messages
 func (t *Transport) routerLoop(router zmq4.Socket) {
 	defer t.wg.Done()
-- 
2.43.0


From de2ebe54a95f384d2519fc6d46231fd77d488a67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:16 +0000
Subject: [PATCH 40/45] fix: a frame announces the size of what the security
 mechanism made of it

The header of a frame was computed from the plain text, but followed by what
Security.Encrypt wrote, so that any mechanism that makes a frame longer (a MAC,
a nonce) could not even complete its handshake.
---
 conn.go | 39 +++++++++++++++++++++++++++------------
 1 file changed, 27 insertions(+), 12 deletions(-)

diff --git a/conn.go b/conn.go
index 29d2b7b..0b444a6 100644
--- a/conn.go
+++ b/conn.go
@@ -335,7 +335,12 @@ func (c *Conn) sendMulti(msg Msg) error {
 			flag ^= hasMoreBitFlag
 		}
 
-		size := len(frame)
+		body, err := c.seal(frame)
+		if err != nil {
+			return err
+		}
+
+		size := len(body)
 		isLong := size > 255
 		if isLong {
 			flag ^= isLongBitFlag
@@ -353,16 +358,7 @@ func (c *Conn) sendMulti(msg Msg) error {
 			hdr[1] = uint8(size)
 		}
 
-		switch c.sec.Type() {
-		case NullSecurity:
-			buffers = append(buffers, hdr[:hsz], frame)
-		default:
-			var secBuf bytes.Buffer
-			if _, err := c.sec.Encrypt(&secBuf, frame); err != nil {
-				return err
-			}
-			buffers = append(buffers, hdr[:hsz], secBuf.Bytes())
-		}
+		buffers = append(buffers, hdr[:hsz], body)
 	}
 
 	if _, err := buffers.WriteTo(c.rw); err != nil {
@@ -373,7 +369,26 @@ func (c *Conn) sendMulti(msg Msg) error {
 	return nil
 }
 
+// seal returns what the security mechanism puts on the wire for a frame body,
+// which may be longer than the body itself.
+func (c *Conn) seal(body []byte) ([]byte, error) {
+	switch c.sec.Type() {
+	case NullSecurity:
+		return body, nil
+	}
+	var buf bytes.Buffer
+	if _, err := c.sec.Encrypt(&buf, body); err != nil {
+		return nil, err
+	}
+	return buf.Bytes(), nil
+}
+
 func (c *Conn) send(isCommand bool, body []byte, flag byte) error {
+	body, err := c.seal(body)
+	if err != nil {
+		return err
+	}
+
 	// Long flag
 	size := len(body)
 	isLong := size > 255
@@ -403,7 +418,7 @@ func (c *Conn) send(isCommand bool, body []byte, flag byte) error {
 		return err
 	}
 
-	if _, err := c.sec.Encrypt(c.rw, body); err != nil {
+	if _, err := c.rw.Write(body); err != nil {
 		c.checkIO(err)
 		return err
 	}
-- 
2.43.0


From aa0ebc81143b0a4f33be8ac639686e767a5c5957 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:07 +0000
Subject: [PATCH 41/45] fix: closing an ipc socket does not remove the socket
 file of its successor

Close removed the file twice, by itself and by closing the listener. A socket
that began to listen on the same path in between lost its file and could not be
dialed.
---
 socket.go | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/socket.go b/socket.go
index 44e768f..6977267 100644
--- a/socket.go
+++ b/socket.go
@@ -12,7 +12,6 @@ import (
 	"net"
 	"os"
 	"sort"
-	"strings"
 	"sync"
 	"time"
 
@@ -165,13 +164,10 @@ func (sck *socket) Close() error {
 		}
 	}
 
-	// Remove the unix socket file if created by net.Listen
-	ep := sck.ep
 	sck.mu.RUnlock()
 
-	if listener != nil && strings.HasPrefix(ep, "ipc://") {
-		os.Remove(ep[len("ipc://"):])
-	}
+	// The listener removes the unix socket file it created, before it is closed.
+	// Nobody else does: the path may be somebody else's from then on.
 
 	return err
 }
-- 
2.43.0


From 370cf791d4b287d6bb63aa72425edb4dc321919a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:06 +0000
Subject: [PATCH 42/45] fix: a message with a frame that cannot be encrypted
 leaves nothing on the wire

Conn.SendMsg encrypted and wrote one frame after the other: when the security
mechanism failed on a later frame, the frames before it, announcing more to
come, had been written and the next message was taken for the rest of them.
---
 conn.go | 23 +++++++++++++++++------
 1 file changed, 17 insertions(+), 6 deletions(-)

diff --git a/conn.go b/conn.go
index 0b444a6..ce548ea 100644
--- a/conn.go
+++ b/conn.go
@@ -185,6 +185,10 @@ func (c *Conn) SendCmd(name string, body []byte) error {
 	if c.Closed() {
 		return ErrClosedConn
 	}
+	buf, err = c.seal(buf)
+	if err != nil {
+		return err
+	}
 	return c.send(true, buf, 0)
 }
 
@@ -211,13 +215,24 @@ func (c *Conn) SendMsg(msg Msg) error {
 		return c.sendMulti(msg)
 	}
 
+	// Nothing is written of a message with a frame that cannot be sealed:
+	// the next message would be taken for the rest of it.
 	nframes := len(msg.Frames)
+	bodies := make([][]byte, nframes)
 	for i, frame := range msg.Frames {
+		body, err := c.seal(frame)
+		if err != nil {
+			return fmt.Errorf("zmq4: error sealing frame %d/%d: %w", i+1, nframes, err)
+		}
+		bodies[i] = body
+	}
+
+	for i, body := range bodies {
 		var flag byte
 		if i < nframes-1 {
 			flag ^= hasMoreBitFlag
 		}
-		err := c.send(false, frame, flag)
+		err := c.send(false, body, flag)
 		if err != nil {
 			return fmt.Errorf("zmq4: error sending frame %d/%d: %w", i+1, nframes, err)
 		}
@@ -383,12 +398,8 @@ func (c *Conn) seal(body []byte) ([]byte, error) {
 	return buf.Bytes(), nil
 }
 
+// send writes a frame whose body has been sealed.
 func (c *Conn) send(isCommand bool, body []byte, flag byte) error {
-	body, err := c.seal(body)
-	if err != nil {
-		return err
-	}
-
 	// Long flag
 	size := len(body)
 	isLong := size > 255
-- 
2.43.0


From 82c07297e4027b1de808e8ca099e4bcf34dc4309 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:14 +0000
Subject: [PATCH 43/45] fix: the reason of a PLAIN ERROR command is prefixed
 with its length

---
 security/plain/plain.go | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/security/plain/plain.go b/security/plain/plain.go
index 2a3c80d..10d0b42 100644
--- a/security/plain/plain.go
+++ b/security/plain/plain.go
@@ -51,7 +51,7 @@ func (sec *security) Handshake(conn *zmq4.Conn, server bool) error {
 
 		err = sec.validateHello(cmd.Body)
 		if err != nil {
-			_ = conn.SendCmd(zmq4.CmdError, []byte("invalid")) // FIXME(sbinet) correct ERROR reason
+			_ = conn.SendCmd(zmq4.CmdError, reason("invalid"))
 			return fmt.Errorf("security/plain: could not authenticate client: %w", err)
 		}
 
@@ -76,7 +76,7 @@ func (sec *security) Handshake(conn *zmq4.Conn, server bool) error {
 
 		raw, err := conn.Meta.MarshalZMTP()
 		if err != nil {
-			_ = conn.SendCmd(zmq4.CmdError, []byte("invalid")) // FIXME(sbinet) correct ERROR reason
+			_ = conn.SendCmd(zmq4.CmdError, reason("invalid"))
 			return fmt.Errorf("security/plain: could not serialize metadata: %w", err)
 		}
 
@@ -102,13 +102,13 @@ func (sec *security) Handshake(conn *zmq4.Conn, server bool) error {
 			return fmt.Errorf("security/plain: could not receive WELCOME from server: %w", err)
 		}
 		if cmd.Name != zmq4.CmdWelcome {
-			_ = conn.SendCmd(zmq4.CmdError, []byte("invalid command")) // FIXME(sbinet) correct ERROR reason
+			_ = conn.SendCmd(zmq4.CmdError, reason("invalid command"))
 			return fmt.Errorf("security/plain: expected a WELCOME command from server: %w", err)
 		}
 
 		raw, err := conn.Meta.MarshalZMTP()
 		if err != nil {
-			_ = conn.SendCmd(zmq4.CmdError, []byte("internal error")) // FIXME(sbinet) correct ERROR reason
+			_ = conn.SendCmd(zmq4.CmdError, reason("internal error"))
 			return fmt.Errorf("security/plain: could not serialize metadata: %w", err)
 		}
 
@@ -122,7 +122,7 @@ func (sec *security) Handshake(conn *zmq4.Conn, server bool) error {
 			return fmt.Errorf("security/plain: could not receive READY from server: %w", err)
 		}
 		if cmd.Name != zmq4.CmdReady {
-			_ = conn.SendCmd(zmq4.CmdError, []byte("invalid command")) // FIXME(sbinet) correct ERROR reason
+			_ = conn.SendCmd(zmq4.CmdError, reason("invalid command"))
 			return fmt.Errorf("security/plain: expected a READY command from server: %w", err)
 		}
 
@@ -162,6 +162,11 @@ func (sec *security) validateHello(body []byte) error {
 	return nil
 }
 
+// reason is the body of an ERROR command: the reason, prefixed with its length.
+func reason(s string) []byte {
+	return append([]byte{byte(len(s))}, s...)
+}
+
 // cutField splits a field, prefixed with its length, off body.
 func cutField(body []byte) (field, rest []byte, ok bool) {
 	if len(body) == 0 {
-- 
2.43.0


From 8b16ed9efc0dbe53882cf9e7c9360f19d22a9046 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:14 +0000
Subject: [PATCH 44/45] fix: an option that PUB or SUB refuses is not stored

---
 pub.go | 10 +++++-----
 sub.go | 12 ++++++------
 2 files changed, 11 insertions(+), 11 deletions(-)

diff --git a/pub.go b/pub.go
index 3174291..e303ad0 100644
--- a/pub.go
+++ b/pub.go
@@ -95,11 +95,6 @@ func (pub *pubSocket) GetOption(name string) (interface{}, error) {
 
 // SetOption is used to set an option for a socket.
 func (pub *pubSocket) SetOption(name string, value interface{}) error {
-	err := pub.sck.SetOption(name, value)
-	if err != nil {
-		return err
-	}
-
 	if name != OptionHWM {
 		return ErrBadProperty
 	}
@@ -109,6 +104,11 @@ func (pub *pubSocket) SetOption(name string, value interface{}) error {
 		return ErrBadProperty
 	}
 
+	err := pub.sck.SetOption(name, value)
+	if err != nil {
+		return err
+	}
+
 	w := pub.sck.w.(*pubMWriter)
 	w.hwm.Store(int64(hwm))
 	return nil
diff --git a/sub.go b/sub.go
index c521c72..cc9f818 100644
--- a/sub.go
+++ b/sub.go
@@ -84,20 +84,20 @@ func (sub *subSocket) GetOption(name string) (interface{}, error) {
 
 // SetOption is used to set an option for a socket.
 func (sub *subSocket) SetOption(name string, value interface{}) error {
-	err := sub.sck.SetOption(name, value)
-	if err != nil {
-		return err
-	}
-
 	var (
 		topic []byte
 	)
 
 	k, ok := value.(string)
-	if !ok {
+	if !ok || name != OptionSubscribe && name != OptionUnsubscribe {
 		return ErrBadProperty
 	}
 
+	err := sub.sck.SetOption(name, value)
+	if err != nil {
+		return err
+	}
+
 	// Publishers must see the changes in the order they were made in.
 	// Connections added from now on are told about the resulting topics.
 	sub.sck.subMu.Lock()
-- 
2.43.0


From ae6b253aed0b1ca84541131be28342ce5a4afef7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:48:03 +0000
Subject: [PATCH 45/45] fix: connections removed by the reaper stay in memory
 until as many others have gone

---
 socket.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/socket.go b/socket.go
index 6977267..64d2735 100644
--- a/socket.go
+++ b/socket.go
@@ -555,7 +555,7 @@ func (sck *socket) connReaper() {
 		// and remove those under reaper unlocked.
 		// That should fix the deadlock reported in #149.
 		cc := append([]*Conn{}, sck.closedConns...) // clone
-		sck.closedConns = sck.closedConns[:0]
+		sck.closedConns = nil                       // and forget them
 		sck.reaperCond.L.Unlock()
 		for _, c := range cc {
 			sck.rmConn(c)
-- 
2.43.0

