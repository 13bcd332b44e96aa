From b32133eb8fb9135f2f6a85a5edb1782ad1f76289 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:12 +0000
Subject: [PATCH 01/23] fix: http/1 keeps trace ids: read by the server,
 returned in a header, the caller's message untouched

---
 http/h1_client.go | 29 +++++++++++++++++++++++------
 http/h1_server.go |  6 +++++-
 2 files changed, 28 insertions(+), 7 deletions(-)

diff --git a/http/h1_client.go b/http/h1_client.go
index 27b0b78..75bc154 100644
--- a/http/h1_client.go
+++ b/http/h1_client.go
@@ -95,14 +95,33 @@ func (self *H1Client) Call(rootCtx context.Context, reqmsg *jlib.RequestMessage)
 	return resmsg, nil
 }
 
+// a copy of the message to be sent with the trace id in the http header,
+// the message itself belongs to the caller
+func withoutTraceId(msg jlib.Message) jlib.Message {
+	switch m := msg.(type) {
+	case *jlib.RequestMessage:
+		c := *m
+		msg = &c
+	case *jlib.NotifyMessage:
+		c := *m
+		msg = &c
+	case *jlib.ResultMessage:
+		c := *m
+		msg = &c
+	case *jlib.ErrorMessage:
+		c := *m
+		msg = &c
+	}
+	msg.SetTraceId("")
+	return msg
+}
+
 func (self *H1Client) request(rootCtx context.Context, reqmsg *jlib.RequestMessage) (jlib.Message, error) {
 	self.connect()
 
 	traceId := reqmsg.TraceId()
 
-	reqmsg.SetTraceId("")
-
-	marshaled, err := jlib.MessageBytes(reqmsg)
+	marshaled, err := jlib.MessageBytes(withoutTraceId(reqmsg))
 	if err != nil {
 		return nil, err
 	}
@@ -172,9 +191,7 @@ func (self *H1Client) Send(rootCtx context.Context, msg jlib.Message) error {
 	self.connect()
 
 	traceId := msg.TraceId()
-	msg.SetTraceId("")
-
-	marshaled, err := jlib.MessageBytes(msg)
+	marshaled, err := jlib.MessageBytes(withoutTraceId(msg))
 	if err != nil {
 		return err
 	}
diff --git a/http/h1_server.go b/http/h1_server.go
index 00d660c..2590671 100644
--- a/http/h1_server.go
+++ b/http/h1_server.go
@@ -42,6 +42,10 @@ func (self *H1Handler) ServeHTTP(w http.ResponseWriter, r *http.Request) {
 		return
 	}
 
+	if traceId := r.Header.Get("X-Trace-Id"); traceId != "" {
+		msg.SetTraceId(traceId)
+	}
+
 	req := NewRPCRequest(r.Context(), msg, TransportHTTP, r)
 	resmsg, err := self.Actor.Feed(req)
 	if err != nil {
@@ -83,12 +87,12 @@ func (self *H1Handler) ServeHTTP(w http.ResponseWriter, r *http.Request) {
 			errmsg := jlib.ErrInternalError.ToMessageFromId(msg.MustId(), msg.TraceId())
 			data, _ = jlib.MessageBytes(errmsg)
 		}
-		w.WriteHeader(200)
 		w.Header().Set("Content-Type", "application/json")
 
 		if traceId != "" {
 			w.Header().Set("X-Trace-Id", traceId)
 		}
+		w.WriteHeader(200)
 		w.Write(data)
 	} else {
 		w.WriteHeader(200)
-- 
2.43.0


From a4e573dacd1e43995edabcf40f51db072701906a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:12 +0000
Subject: [PATCH 02/23] fix: gateway takes any spelling of the websocket
 upgrade token

---
 http/gateway_handler.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/http/gateway_handler.go b/http/gateway_handler.go
index 5c8791d..253c34f 100644
--- a/http/gateway_handler.go
+++ b/http/gateway_handler.go
@@ -3,6 +3,7 @@ package jlibhttp
 import (
 	"context"
 	"net/http"
+	"strings"
 )
 
 // shared handler serve http1/http2/websocket server over the same port
@@ -45,7 +46,7 @@ func (self *GatewayHandler) ServeHTTP(w http.ResponseWriter, r *http.Request) {
 	}
 
 	upgradeHeader := r.Header.Get("Upgrade")
-	if upgradeHeader == "websocket" {
+	if strings.EqualFold(upgradeHeader, "websocket") {
 		// maybe websocket handler
 		self.wsHandler.ServeHTTP(w, r)
 		return
-- 
2.43.0


From a728506c3687729ebf50f9f3d2edf9b81de42cd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:12 +0000
Subject: [PATCH 03/23] fix: a cloned request keeps the form of its params

---
 messageimpl.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/messageimpl.go b/messageimpl.go
index f90500b..bdfec86 100644
--- a/messageimpl.go
+++ b/messageimpl.go
@@ -319,6 +319,7 @@ func NewRequestMessage(id interface{}, method string, params interface{}) *Reque
 
 func (self RequestMessage) Clone(newId interface{}) *RequestMessage {
 	newReq := NewRequestMessage(newId, self.Method, self.Params)
+	newReq.paramsAreList = self.paramsAreList
 	newReq.SetTraceId(self.traceId)
 	return newReq
 }
-- 
2.43.0


From 45f72149f2492597d737394d029baf43cb356fa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:12 +0000
Subject: [PATCH 04/23] fix: fifo example lists a copy of its items and guards
 its subscribers

---
 examples/fifo/main.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/examples/fifo/main.go b/examples/fifo/main.go
index f45c89a..e081800 100644
--- a/examples/fifo/main.go
+++ b/examples/fifo/main.go
@@ -72,7 +72,8 @@ func main() {
 		defer lock.RUnlock()
 
 		log.Infof("fifo list")
-		return fifo, nil
+		// a copy, the result is encoded after the lock is released
+		return append([]interface{}{}, fifo...), nil
 	})
 
 	handler.Actor.OnTyped("fifo_get", func(at int) (interface{}, error) {
@@ -95,12 +96,16 @@ func main() {
 		if session == nil {
 			return nil, &jlib.RPCError{Code: -400, Message: "no session established"}
 		}
+		lock.Lock()
+		defer lock.Unlock()
 		subs[session.SessionID()] = session
 		return "ok", nil
 	})
 
 	handler.Actor.OnClose(func(r *http.Request, session jlibhttp.RPCSession) {
 		log.Infof("fifo unsub %s", session.SessionID())
+		lock.Lock()
+		defer lock.Unlock()
 		delete(subs, session.SessionID())
 	})
 
-- 
2.43.0


From c928138256849bfe43a7759aa5e9a177a6dcb365 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:12 +0000
Subject: [PATCH 05/23] fix: sending to an ended websocket session returns, a
 write error ends the session

---
 http/ws_server.go | 29 +++++++++++++++++++++++------
 1 file changed, 23 insertions(+), 6 deletions(-)

diff --git a/http/ws_server.go b/http/ws_server.go
index e3cad4b..97cb6ce 100644
--- a/http/ws_server.go
+++ b/http/ws_server.go
@@ -28,6 +28,7 @@ type WSSession struct {
 	httpRequest *http.Request
 	rootCtx     context.Context
 	done        chan error
+	ended       chan struct{} // closed when the session ends
 	sendChannel chan jlib.Message
 	sessionId   string
 }
@@ -59,6 +60,7 @@ func (self *WSHandler) ServeHTTP(w http.ResponseWriter, r *http.Request) {
 		httpRequest: r,
 		ws:          ws,
 		done:        make(chan error, 10),
+		ended:       make(chan struct{}),
 		sendChannel: make(chan jlib.Message, 100),
 		sessionId:   jlib.NewUuid(),
 	}
@@ -66,7 +68,7 @@ func (self *WSHandler) ServeHTTP(w http.ResponseWriter, r *http.Request) {
 		self.Actor.HandleClose(r, session)
 	}()
 	session.wait()
-	session.server = nil
+	close(session.ended)
 }
 
 // websocket session
@@ -99,7 +101,7 @@ func (self *WSSession) recvLoop() {
 	for {
 		messageType, msgBytes, err := self.ws.ReadMessage()
 		if err != nil {
-			self.done <- errors.Wrap(err, "ws.ReadMessage()")
+			self.finish(errors.Wrap(err, "ws.ReadMessage()"))
 			return
 		}
 		if messageType != websocket.TextMessage {
@@ -119,7 +121,7 @@ func (self *WSSession) msgBytesReceived(msgBytes []byte) {
 	msg, err := jlib.ParseBytes(msgBytes)
 	if err != nil {
 		log.Warnf("bad jsonrpc message %s", msgBytes)
-		self.done <- errors.New("bad jsonrpc message")
+		self.finish(errors.New("bad jsonrpc message"))
 		return
 	}
 
@@ -132,12 +134,12 @@ func (self *WSSession) msgBytesReceived(msgBytes []byte) {
 
 	resmsg, err := self.server.Actor.Feed(req)
 	if err != nil {
-		self.done <- errors.Wrap(err, "actor.Feed")
+		self.finish(errors.Wrap(err, "actor.Feed"))
 		return
 	}
 	if resmsg != nil {
 		if resmsg.IsResultOrError() {
-			self.sendChannel <- resmsg
+			self.Send(resmsg)
 		} else {
 			self.Send(resmsg)
 		}
@@ -145,7 +147,19 @@ func (self *WSSession) msgBytesReceived(msgBytes []byte) {
 }
 
 func (self *WSSession) Send(msg jlib.Message) {
-	self.sendChannel <- msg
+	select {
+	case self.sendChannel <- msg:
+	case <-self.ended:
+		// nobody takes the message any more
+	}
+}
+
+// let the session end, the first reason is enough
+func (self *WSSession) finish(err error) {
+	select {
+	case self.done <- err:
+	default:
+	}
 }
 
 func (self WSSession) SessionID() string {
@@ -160,6 +174,8 @@ func (self *WSSession) sendLoop() {
 		select {
 		case <-ctx.Done():
 			return
+		case <-self.ended:
+			return
 		case msg, ok := <-self.sendChannel:
 			if !ok {
 				return
@@ -175,6 +191,7 @@ func (self *WSSession) sendLoop() {
 
 			if err := self.ws.WriteMessage(websocket.TextMessage, marshaled); err != nil {
 				log.Warnf("write warning message %s", err)
+				self.finish(errors.Wrap(err, "ws.WriteMessage()"))
 				return
 			}
 		}
-- 
2.43.0


From 73532c8d899cf841cd66cd2a943e05ddff09c7b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:12 +0000
Subject: [PATCH 06/23] fix: http/2 sessions do not use their response writer
 after the end, sending to an ended one returns

---
 http/h2_server.go | 47 ++++++++++++++++++++++++++++++++++++++++++-----
 1 file changed, 42 insertions(+), 5 deletions(-)

diff --git a/http/h2_server.go b/http/h2_server.go
index d85150f..985e49f 100644
--- a/http/h2_server.go
+++ b/http/h2_server.go
@@ -12,6 +12,7 @@ import (
 	"io"
 	"net/http"
 	"sync"
+	"time"
 )
 
 type H2Handler struct {
@@ -33,6 +34,8 @@ type H2Session struct {
 	httpRequest *http.Request
 	rootCtx     context.Context
 	done        chan error
+	ended       chan struct{} // closed when the session ends
+	sendDone    chan struct{} // closed when sendLoop is over
 	sendChannel chan jlib.Message
 	sessionId   string
 }
@@ -90,6 +93,8 @@ func (self *H2Handler) ServeHTTP(w http.ResponseWriter, r *http.Request) {
 		flusher:     flusher,
 		decoder:     decoder,
 		done:        make(chan error, 10),
+		ended:       make(chan struct{}),
+		sendDone:    make(chan struct{}),
 		sendChannel: make(chan jlib.Message, 100),
 		sessionId:   jlib.NewUuid(),
 	}
@@ -98,6 +103,8 @@ func (self *H2Handler) ServeHTTP(w http.ResponseWriter, r *http.Request) {
 		self.Actor.HandleClose(r, session)
 	}()
 	session.wait()
+	close(session.ended)
+	session.waitSendLoop()
 }
 
 // websocket session
@@ -133,7 +140,7 @@ func (self *H2Session) recvLoop() {
 			if errors.Is(err, io.EOF) {
 				break
 			} else {
-				self.done <- err
+				self.finish(err)
 				return
 			}
 		}
@@ -144,7 +151,7 @@ func (self *H2Session) recvLoop() {
 		}
 	}
 	// end of scanning
-	self.done <- nil
+	self.finish(nil)
 	return
 }
 
@@ -158,12 +165,12 @@ func (self *H2Session) msgReceived(msg jlib.Message) {
 
 	resmsg, err := self.server.Actor.Feed(req)
 	if err != nil {
-		self.done <- errors.Wrap(err, "actor.Feed")
+		self.finish(errors.Wrap(err, "actor.Feed"))
 		return
 	}
 	if resmsg != nil {
 		if resmsg.IsResultOrError() {
-			self.sendChannel <- resmsg
+			self.Send(resmsg)
 		} else {
 			self.Send(resmsg)
 		}
@@ -171,7 +178,33 @@ func (self *H2Session) msgReceived(msg jlib.Message) {
 }
 
 func (self *H2Session) Send(msg jlib.Message) {
-	self.sendChannel <- msg
+	select {
+	case self.sendChannel <- msg:
+	case <-self.ended:
+		// nobody takes the message any more
+	}
+}
+
+// let the session end, the first reason is enough
+func (self *H2Session) finish(err error) {
+	select {
+	case self.done <- err:
+	default:
+	}
+}
+
+// the response writer must not be used after ServeHTTP returned. A
+// write blocked by a client which does not read is aborted.
+func (self *H2Session) waitSendLoop() {
+	select {
+	case <-self.sendDone:
+		return
+	case <-time.After(500 * time.Millisecond):
+	}
+	if w, ok := self.writer.(interface{ SetWriteDeadline(time.Time) error }); ok {
+		w.SetWriteDeadline(time.Now())
+	}
+	<-self.sendDone
 }
 
 func (self H2Session) SessionID() string {
@@ -179,6 +212,7 @@ func (self H2Session) SessionID() string {
 }
 
 func (self *H2Session) sendLoop() {
+	defer close(self.sendDone)
 	ctx, cancel := context.WithCancel(self.rootCtx)
 	defer cancel()
 
@@ -186,6 +220,8 @@ func (self *H2Session) sendLoop() {
 		select {
 		case <-ctx.Done():
 			return
+		case <-self.ended:
+			return
 		case msg, ok := <-self.sendChannel:
 			if !ok {
 				return
@@ -202,6 +238,7 @@ func (self *H2Session) sendLoop() {
 			marshaled = append(marshaled, []byte("\n")...)
 			if _, err := self.writer.Write(marshaled); err != nil {
 				log.Warnf("h2 writedata warning message %s\n", err)
+				self.finish(errors.Wrap(err, "h2 write"))
 				return
 			}
 			self.flusher.Flush()
-- 
2.43.0


From 83f1bc5c22765dff991b6a14fdf0713f0c87f122 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:12 +0000
Subject: [PATCH 07/23] fix: streaming clients keep connections apart and calls
 heed ids, timeouts and contexts of their own

---
 http/h2_client.go        |  71 +++++--
 http/streaming_client.go | 402 +++++++++++++++++++++++++++++----------
 http/ws_client.go        |  55 +++++-
 3 files changed, 408 insertions(+), 120 deletions(-)

diff --git a/http/h2_client.go b/http/h2_client.go
index f3aad83..21b27ae 100644
--- a/http/h2_client.go
+++ b/http/h2_client.go
@@ -12,6 +12,7 @@ import (
 	"io"
 	"net"
 	"net/http"
+	"net/http/httptrace"
 	"net/url"
 	"reflect"
 	"strings"
@@ -34,6 +35,13 @@ type h2Transport struct {
 	decoder *json.Decoder
 	writer  io.Writer
 	flusher http.Flusher
+
+	// the tcp connection carrying the stream
+	netConn net.Conn
+
+	// set once the transport is closed, guarded by lock
+	closed bool
+	lock   sync.Mutex
 }
 
 func NewH2Client(serverUrl *url.URL) *H2Client {
@@ -65,8 +73,8 @@ func (self *H2Client) HTTPClient() *http.Client {
 				AllowHTTP: true,
 				// Pretend we are dialing a TLS endpoint.
 				// Note, we ignore the passed tls.Config
-				DialTLS: func(network, addr string, cfg *tls.Config) (net.Conn, error) {
-					return net.Dial(network, addr)
+				DialTLSContext: func(ctx context.Context, network, addr string, cfg *tls.Config) (net.Conn, error) {
+					return (&net.Dialer{}).DialContext(ctx, network, addr)
 				},
 			}
 			self.httpClient = &http.Client{
@@ -92,18 +100,40 @@ func (self *H2Client) String() string {
 }
 
 // http2 transport methods
+func (self *h2Transport) Renew() Transport {
+	return &h2Transport{client: self.client}
+}
+
 func (self *h2Transport) Close() {
-	if self.resp != nil {
-		self.resp.Body.Close()
-		self.resp = nil
-		self.writer = nil
-		self.flusher = nil
-		//self.decoder = nil
+	self.lock.Lock()
+	resp := self.resp
+	closing := resp != nil && !self.closed
+	if closing {
+		self.closed = true
+	}
+	self.lock.Unlock()
+	if closing {
+		self.release(resp)
 	}
 }
 
-func (self h2Transport) Connected() bool {
-	return self.resp != nil
+// end the stream and the tcp connection under it, which nothing else uses
+func (self *h2Transport) release(resp *http.Response) {
+	// the tcp connection goes first, closing the body blocks while
+	// the peer is not reading
+	if self.netConn != nil {
+		self.netConn.Close()
+	}
+	if resp != nil {
+		resp.Body.Close()
+	}
+	self.client.HTTPClient().CloseIdleConnections()
+}
+
+func (self *h2Transport) Connected() bool {
+	self.lock.Lock()
+	defer self.lock.Unlock()
+	return self.resp != nil && !self.closed
 }
 
 func (self *h2Transport) Connect(rootCtx context.Context, serverUrl *url.URL, header http.Header) error {
@@ -115,14 +145,33 @@ func (self *h2Transport) Connect(rootCtx context.Context, serverUrl *url.URL, he
 		Header: header,
 		Body:   pipeReader,
 	}
+	traceCtx := httptrace.WithClientTrace(rootCtx, &httptrace.ClientTrace{
+		GotConn: func(info httptrace.GotConnInfo) {
+			self.netConn = info.Conn
+		},
+	})
+	req = req.WithContext(traceCtx)
 
 	resp, err := self.client.HTTPClient().Do(req)
 	if err != nil {
+		self.release(nil)
+		if rootCtx.Err() != nil {
+			return rootCtx.Err()
+		}
 		return self.handleHttp2Error(err)
 	}
+	if resp.StatusCode != http.StatusOK {
+		self.release(resp)
+		abnResp := &WrappedResponse{
+			Response: resp,
+		}
+		return errors.Wrap(abnResp, "abnormal response")
+	}
 	self.writer = pipeWriter
-	self.resp = resp
 	self.decoder = json.NewDecoder(resp.Body)
+	self.lock.Lock()
+	self.resp = resp
+	self.lock.Unlock()
 	return nil
 }
 
diff --git a/http/streaming_client.go b/http/streaming_client.go
index 61d43f0..42c8b18 100644
--- a/http/streaming_client.go
+++ b/http/streaming_client.go
@@ -3,6 +3,8 @@ package jlibhttp
 import (
 	"context"
 	"crypto/tls"
+	"encoding/json"
+	"fmt"
 	"github.com/pkg/errors"
 	log "github.com/sirupsen/logrus"
 	"github.com/superisaac/jlib"
@@ -16,6 +18,40 @@ type pendingRequest struct {
 	reqmsg        *jlib.RequestMessage
 	resultChannel chan jlib.Message
 	expire        time.Time
+
+	// the connection the request is sent over
+	conn *streamingConn
+
+	// the caller has given up waiting, the entry only keeps the id
+	// from being reused while a late response may still come
+	abandoned bool
+}
+
+// streamingConn holds what belongs to one established connection, so
+// that the end of a connection never touches the next one.
+type streamingConn struct {
+	// func accompanied by context, this func is called when
+	// client want to deliberatly close the connection
+	cancelFunc func()
+
+	// send channel to write messsage sequencially
+	sendChannel chan jlib.Message
+
+	// channel to wait until connection closed
+	closeChannel chan error
+
+	// the underline transport adaptor in charge of read/write
+	// bytes
+	transport Transport
+
+	// closed when the connection ends
+	done chan struct{}
+
+	// the reason of the end, valid once done is closed
+	err error
+
+	// closed when the transport is closed, after done
+	released chan struct{}
 }
 
 // errors
@@ -32,6 +68,12 @@ type Transport interface {
 	WriteMessage(msg jlib.Message) error
 }
 
+// renewableTransport is a Transport that carries a single connection and
+// provides a fresh instance for each new one.
+type renewableTransport interface {
+	Renew() Transport
+}
+
 type StreamingClient struct {
 	// the server url it connects to
 	serverUrl *url.URL
@@ -39,11 +81,23 @@ type StreamingClient struct {
 	// extra http header taken to transports
 	extraHeader http.Header
 
-	// lock to prevent concurrent write
-	connectLock sync.Mutex
+	// held while connecting, a channel so that waiting for it can
+	// be given up
+	connectLock chan struct{}
 
-	// jsonrpc request message pending for result
-	pendingRequests sync.Map
+	// the current connection, nil when not connected
+	conn *streamingConn
+
+	// the connection made last, guarded by connectLock
+	lastConn *streamingConn
+
+	// lock protecting conn and closeHandler
+	stateLock sync.Mutex
+
+	// jsonrpc request message pending for result, keyed by the json
+	// form of the request id
+	pendingRequests map[string]*pendingRequest
+	pendingLock     sync.Mutex
 
 	// on messsage handler
 	messageHandler MessageHandler
@@ -54,16 +108,6 @@ type StreamingClient struct {
 	// on close handler
 	closeHandler CloseHandler
 
-	// func accompanied by context, this func is called when
-	// client want to deliberatly close the connection
-	cancelFunc func()
-
-	// send channel to write messsage sequencially
-	sendChannel chan jlib.Message
-
-	// channel to wait until connection closed
-	closeChannel chan error
-
 	// the underline transport adaptor in charge of read/write
 	// bytes
 	transport Transport
@@ -101,19 +145,29 @@ func (self *StreamingClient) ServerURL() *url.URL {
 func (self *StreamingClient) InitStreaming(serverUrl *url.URL, transport Transport) {
 	self.serverUrl = serverUrl
 	self.transport = transport
-	self.sendChannel = nil
-	self.closeChannel = nil
+	self.connectLock = make(chan struct{}, 1)
+	self.pendingRequests = make(map[string]*pendingRequest)
+}
+
+// the connection in use, nil when not connected
+func (self *StreamingClient) currentConn() *streamingConn {
+	self.stateLock.Lock()
+	defer self.stateLock.Unlock()
+	return self.conn
 }
 
 func (self *StreamingClient) CloseChannel() chan error {
-	return self.closeChannel
+	if conn := self.currentConn(); conn != nil {
+		return conn.closeChannel
+	}
+	return nil
 }
 
 // wait connection close and return error
 func (self *StreamingClient) Wait() error {
-	if self.closeChannel != nil {
-		err := <-self.closeChannel
-		return err
+	if conn := self.currentConn(); conn != nil {
+		<-conn.done
+		return conn.err
 	} else {
 		// client not connected, just return
 		return nil
@@ -127,17 +181,37 @@ func (self *StreamingClient) Close() {
 }
 
 func (self *StreamingClient) Reset(err error) {
-	if self.cancelFunc != nil {
-		self.cancelFunc()
-		self.cancelFunc = nil
+	if conn := self.currentConn(); conn != nil {
+		self.resetConn(conn, err)
 	}
+}
 
-	if self.closeChannel != nil {
-		self.closeChannel <- err
-		self.closeChannel = nil
+// end a connection, only the first call has an effect
+func (self *StreamingClient) resetConn(conn *streamingConn, err error) {
+	self.stateLock.Lock()
+	select {
+	case <-conn.done:
+		self.stateLock.Unlock()
+		return
+	default:
 	}
-	self.transport.Close()
-	self.sendChannel = nil
+	conn.err = err
+	close(conn.done)
+	if self.conn == conn {
+		self.conn = nil
+	}
+	closeHandler := self.closeHandler
+	self.closeHandler = nil
+	self.stateLock.Unlock()
+
+	conn.cancelFunc()
+	conn.closeChannel <- err
+	self.forgetAbandoned(conn)
+	if closeHandler != nil {
+		go closeHandler()
+	}
+	conn.transport.Close()
+	close(conn.released)
 }
 
 func (self *StreamingClient) OnMessage(handler MessageHandler) error {
@@ -157,6 +231,8 @@ func (self *StreamingClient) OnConnected(handler ConnectedHandler) error {
 }
 
 func (self *StreamingClient) OnClose(handler CloseHandler) error {
+	self.stateLock.Lock()
+	defer self.stateLock.Unlock()
 	if self.closeHandler != nil {
 		return errors.New("close handler already exist!")
 	}
@@ -165,45 +241,93 @@ func (self *StreamingClient) OnClose(handler CloseHandler) error {
 }
 
 func (self *StreamingClient) Connect(rootCtx context.Context) error {
-	self.connectLock.Lock()
-	defer self.connectLock.Unlock()
+	_, err := self.ensureConn(rootCtx)
+	return err
+}
 
-	if !self.transport.Connected() {
-		if err := self.transport.Connect(rootCtx, self.serverUrl, self.extraHeader); err != nil {
-			//self.connectErr = err
-			return err
-		}
-		if self.connectedHandler != nil {
-			self.connectedHandler()
-		}
-		connCtx, cancel := context.WithCancel(rootCtx)
-		self.cancelFunc = cancel
-		self.sendChannel = make(chan jlib.Message, 100)
-		self.closeChannel = make(chan error, 10)
-		go self.sendLoop(connCtx)
-		go self.recvLoop()
-	} else {
+// returns the current connection, establishes one if there is none
+func (self *StreamingClient) ensureConn(rootCtx context.Context) (*streamingConn, error) {
+	if conn := self.currentConn(); conn != nil {
+		return conn, nil
+	}
+	conn, created, err := self.newConn(rootCtx)
+	if err != nil {
+		return nil, err
+	}
+	// out of the connect lock, so the handler is free to use the client
+	if created && self.connectedHandler != nil {
+		self.connectedHandler()
+	}
+	return conn, nil
+}
+
+func (self *StreamingClient) newConn(rootCtx context.Context) (*streamingConn, bool, error) {
+	select {
+	case self.connectLock <- struct{}{}:
+	case <-rootCtx.Done():
+		return nil, false, rootCtx.Err()
+	}
+	defer func() {
+		<-self.connectLock
+	}()
+
+	if conn := self.currentConn(); conn != nil {
 		self.Log().Debug("client already connected")
+		return conn, false, nil
 	}
-	return nil
+
+	if self.lastConn != nil {
+		select {
+		case <-self.lastConn.released:
+		case <-rootCtx.Done():
+			return nil, false, rootCtx.Err()
+		}
+	}
+
+	transport := self.transport
+	if renewable, ok := transport.(renewableTransport); ok {
+		transport = renewable.Renew()
+	}
+	if err := transport.Connect(rootCtx, self.serverUrl, self.extraHeader); err != nil {
+		//self.connectErr = err
+		return nil, false, err
+	}
+	connCtx, cancel := context.WithCancel(rootCtx)
+	conn := &streamingConn{
+		cancelFunc:   cancel,
+		sendChannel:  make(chan jlib.Message, 100),
+		closeChannel: make(chan error, 10),
+		transport:    transport,
+		done:         make(chan struct{}),
+		released:     make(chan struct{}),
+	}
+	self.lastConn = conn
+	self.stateLock.Lock()
+	self.conn = conn
+	self.stateLock.Unlock()
+	go self.sendLoop(connCtx, conn)
+	go self.recvLoop(conn)
+	go func() {
+		// ends the connection even while sendLoop is writing
+		<-connCtx.Done()
+		self.resetConn(conn, nil)
+	}()
+	return conn, true, nil
 }
 
-func (self *StreamingClient) handleError(err error) {
+func (self *StreamingClient) handleError(conn *streamingConn, err error) {
 	if errors.Is(err, TransportClosed) {
 		self.Log().Debug("transport closed")
 	}
-	self.Reset(err)
-	if self.closeHandler != nil {
-		self.closeHandler()
-		self.closeHandler = nil
-	}
+	self.resetConn(conn, err)
 }
 
 func (self *StreamingClient) Connected() bool {
-	return self.transport.Connected()
+	conn := self.currentConn()
+	return conn != nil && conn.transport.Connected()
 }
 
-func (self *StreamingClient) sendLoop(connCtx context.Context) {
+func (self *StreamingClient) sendLoop(connCtx context.Context, conn *streamingConn) {
 	//defer self.Reset(nil)
 	defer func() {
 		self.Log().Debug("sendLoop stop")
@@ -213,43 +337,42 @@ func (self *StreamingClient) sendLoop(connCtx context.Context) {
 
 	self.Log().Debug("sendLoop start")
 	for {
-		if !self.transport.Connected() {
+		if !conn.transport.Connected() {
 			return
 		}
 		select {
 		case <-ctx.Done():
 			self.Log().Debug("ctx Done")
-			self.Close()
 			return
-		case msg, ok := <-self.sendChannel:
+		case msg, ok := <-conn.sendChannel:
 			if !ok {
 				return
 			}
-			if !self.transport.Connected() {
+			if !conn.transport.Connected() {
 				return
 			}
-			err := self.transport.WriteMessage(msg)
+			err := conn.transport.WriteMessage(msg)
 			if err != nil {
 				self.Log().Warnf("write msg error %s", err)
-				self.handleError(err)
+				self.handleError(conn, err)
 				return
 			}
 		}
 	}
 }
 
-func (self *StreamingClient) recvLoop() {
+func (self *StreamingClient) recvLoop(conn *streamingConn) {
 	self.Log().Debug("recvLoop start")
 	defer func() {
 		self.Log().Debug("recvLoop stop")
 	}()
 	for {
-		if !self.transport.Connected() {
+		if !conn.transport.Connected() {
 			return
 		}
-		msg, readed, err := self.transport.ReadMessage()
+		msg, readed, err := conn.transport.ReadMessage()
 		if err != nil {
-			self.handleError(err)
+			self.handleError(conn, err)
 			return
 		}
 		if !readed {
@@ -271,37 +394,88 @@ func (self *StreamingClient) recvLoop() {
 
 func (self *StreamingClient) handleResult(msg jlib.Message) {
 	msgId := msg.MustId()
-	v, loaded := self.pendingRequests.LoadAndDelete(msgId)
-	if !loaded {
+	pending := self.takePending(msgId)
+	if pending == nil {
 		if self.messageHandler != nil {
 			self.messageHandler(msg)
 		}
 		return
 	}
 
-	if pending, ok := v.(*pendingRequest); ok {
-		if msgId != pending.reqmsg.Id {
-			resmsg := msg.ReplaceId(pending.reqmsg.Id)
-			pending.resultChannel <- resmsg
-		} else {
-			pending.resultChannel <- msg
-		}
+	if msgId != pending.reqmsg.Id {
+		resmsg := msg.ReplaceId(pending.reqmsg.Id)
+		pending.resultChannel <- resmsg
+	} else {
+		pending.resultChannel <- msg
+	}
+}
+
+// the key of a request id, ids which look the same on the wire share it
+func pendingKey(msgId interface{}) string {
+	data, err := json.Marshal(msgId)
+	if err != nil {
+		return fmt.Sprintf("%#v", msgId)
 	}
+	return string(data)
 }
 
-func (self *StreamingClient) expire(k interface{}, after time.Duration) {
-	// ctx, cancel := context.WithCancel(rootCtx)
-	// defer cancel()
+// register a pending request if its id is free
+func (self *StreamingClient) addPending(msgId interface{}, pending *pendingRequest) bool {
+	self.pendingLock.Lock()
+	defer self.pendingLock.Unlock()
+	k := pendingKey(msgId)
+	if _, exist := self.pendingRequests[k]; exist {
+		return false
+	}
+	self.pendingRequests[k] = pending
+	return true
+}
+
+// remove and return the request a response with the id answers, nil if
+// nobody waits for it
+func (self *StreamingClient) takePending(msgId interface{}) *pendingRequest {
+	self.pendingLock.Lock()
+	defer self.pendingLock.Unlock()
+	k := pendingKey(msgId)
+	pending, exist := self.pendingRequests[k]
+	if !exist {
+		return nil
+	}
+	delete(self.pendingRequests, k)
+	if pending.abandoned {
+		return nil
+	}
+	return pending
+}
+
+// the caller stops waiting for the response
+func (self *StreamingClient) abandon(msgId interface{}, pending *pendingRequest, sent bool) {
+	self.pendingLock.Lock()
+	defer self.pendingLock.Unlock()
+	k := pendingKey(msgId)
+	if self.pendingRequests[k] != pending {
+		return
+	}
 	select {
-	// case <- ctx.Done():
-	// 	return
-	case <-time.After(after):
-		v, loaded := self.pendingRequests.LoadAndDelete(k)
-		if loaded {
-			if pending, ok := v.(*pendingRequest); ok {
-				timeout := jlib.ErrTimeout.ToMessage(pending.reqmsg)
-				pending.resultChannel <- timeout
-			}
+	case <-pending.conn.done:
+		sent = false
+	default:
+	}
+	if sent {
+		pending.abandoned = true
+	} else {
+		// no response can come any more
+		delete(self.pendingRequests, k)
+	}
+}
+
+// no late response can come over an ended connection
+func (self *StreamingClient) forgetAbandoned(conn *streamingConn) {
+	self.pendingLock.Lock()
+	defer self.pendingLock.Unlock()
+	for k, pending := range self.pendingRequests {
+		if pending.conn == conn && pending.abandoned {
+			delete(self.pendingRequests, k)
 		}
 	}
 }
@@ -331,42 +505,66 @@ func (self *StreamingClient) Call(rootCtx context.Context, reqmsg *jlib.RequestM
 }
 
 func (self *StreamingClient) request(rootCtx context.Context, reqmsg *jlib.RequestMessage) (jlib.Message, error) {
-	err := self.Connect(rootCtx)
+	conn, err := self.ensureConn(rootCtx)
 	if err != nil {
 		return nil, err
 	}
 	ch := make(chan jlib.Message, 10)
 
 	sendmsg := reqmsg
-	if _, loaded := self.pendingRequests.Load(reqmsg.Id); loaded {
-		sendmsg = reqmsg.Clone(jlib.NewUuid())
-	}
-
 	p := &pendingRequest{
 		reqmsg:        reqmsg,
 		resultChannel: ch,
 		expire:        time.Now().Add(time.Second * 10),
+		conn:          conn,
+	}
+	if !self.addPending(reqmsg.Id, p) {
+		sendmsg = reqmsg.Clone(jlib.NewUuid())
+		self.addPending(sendmsg.Id, p)
 	}
-	self.pendingRequests.Store(sendmsg.Id, p)
 
-	err = self.Send(rootCtx, sendmsg)
-	if err != nil {
-		return nil, err
+	expired := time.NewTimer(time.Second * 10)
+	defer expired.Stop()
+
+	select {
+	case conn.sendChannel <- sendmsg:
+	case <-conn.done:
+		self.abandon(sendmsg.Id, p, false)
+		return nil, TransportClosed
+	case <-rootCtx.Done():
+		self.abandon(sendmsg.Id, p, false)
+		return nil, rootCtx.Err()
+	case <-expired.C:
+		self.abandon(sendmsg.Id, p, false)
+		return jlib.ErrTimeout.ToMessage(reqmsg), nil
 	}
-	go self.expire(sendmsg.Id, time.Second*10)
 
-	resmsg, ok := <-ch
-	if !ok {
-		return nil, errors.New("result channel closed")
+	select {
+	case resmsg, ok := <-ch:
+		if !ok {
+			return nil, errors.New("result channel closed")
+		}
+		return resmsg, nil
+	case <-rootCtx.Done():
+		self.abandon(sendmsg.Id, p, true)
+		return nil, rootCtx.Err()
+	case <-expired.C:
+		self.abandon(sendmsg.Id, p, true)
+		return jlib.ErrTimeout.ToMessage(reqmsg), nil
 	}
-	return resmsg, nil
 }
 
 func (self *StreamingClient) Send(rootCtx context.Context, msg jlib.Message) error {
-	err := self.Connect(rootCtx)
+	conn, err := self.ensureConn(rootCtx)
 	if err != nil {
 		return err
 	}
-	self.sendChannel <- msg
-	return nil
+	select {
+	case conn.sendChannel <- msg:
+		return nil
+	case <-conn.done:
+		return TransportClosed
+	case <-rootCtx.Done():
+		return rootCtx.Err()
+	}
 }
diff --git a/http/ws_client.go b/http/ws_client.go
index 80023e7..ec7b25b 100644
--- a/http/ws_client.go
+++ b/http/ws_client.go
@@ -12,6 +12,7 @@ import (
 	"net/http"
 	"net/url"
 	"reflect"
+	"sync"
 )
 
 type WSClient struct {
@@ -22,6 +23,10 @@ type wsTransport struct {
 	ws *websocket.Conn
 
 	client *WSClient
+
+	// set once the transport is closed, guarded by lock
+	closed bool
+	lock   sync.Mutex
 }
 
 func NewWSClient(serverUrl *url.URL) *WSClient {
@@ -39,22 +44,56 @@ func (self *WSClient) String() string {
 }
 
 // websocket transport methods
+func (self *wsTransport) Renew() Transport {
+	return &wsTransport{client: self.client}
+}
+
 func (self *wsTransport) Close() {
-	if self.ws != nil {
-		self.ws.Close()
-		self.ws = nil
+	self.lock.Lock()
+	ws := self.ws
+	closing := ws != nil && !self.closed
+	if closing {
+		self.closed = true
+	}
+	self.lock.Unlock()
+	if closing {
+		ws.Close()
 	}
 }
 
-func (self wsTransport) Connected() bool {
-	return self.ws != nil
+func (self *wsTransport) Connected() bool {
+	self.lock.Lock()
+	defer self.lock.Unlock()
+	return self.ws != nil && !self.closed
 }
 
 func (self *wsTransport) Connect(rootCtx context.Context, serverUrl *url.URL, header http.Header) error {
-	dailer := websocket.DefaultDialer
+	// a copy, the default dialer is shared by all clients
+	dailer := *websocket.DefaultDialer
 	dailer.TLSClientConfig = self.client.ClientTLSConfig()
-	ws, _, err := dailer.Dial(serverUrl.String(), header)
+
+	// the dialer heeds the context only until the tcp connection is
+	// made, the handshake is interrupted by closing it
+	handshakeDone := make(chan struct{})
+	defer close(handshakeDone)
+	dailer.NetDialContext = func(ctx context.Context, network, addr string) (net.Conn, error) {
+		conn, err := (&net.Dialer{}).DialContext(ctx, network, addr)
+		if err == nil {
+			go func() {
+				select {
+				case <-rootCtx.Done():
+					conn.Close()
+				case <-handshakeDone:
+				}
+			}()
+		}
+		return conn, err
+	}
+	ws, _, err := dailer.DialContext(rootCtx, serverUrl.String(), header)
 	if err != nil {
+		if rootCtx.Err() != nil {
+			return rootCtx.Err()
+		}
 		var opErr *net.OpError
 		if errors.As(err, &opErr) {
 			self.client.Log().Infof("websocket operror %s", opErr)
@@ -62,7 +101,9 @@ func (self *wsTransport) Connect(rootCtx context.Context, serverUrl *url.URL, he
 		}
 		return errors.Wrap(err, "wstransport.connect")
 	}
+	self.lock.Lock()
 	self.ws = ws
+	self.lock.Unlock()
 	return nil
 }
 
-- 
2.43.0


From 52b46258f9da2b445b9053e738d0c12eaaaa3894 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:57 +0000
Subject: [PATCH 08/23] Revert "fix: fifo example lists a copy of its items and
 guards its subscribers"

The examples directory is to stay as it is; recorded as a finding instead.
---
 examples/fifo/main.go | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/examples/fifo/main.go b/examples/fifo/main.go
index e081800..f45c89a 100644
--- a/examples/fifo/main.go
+++ b/examples/fifo/main.go
@@ -72,8 +72,7 @@ func main() {
 		defer lock.RUnlock()
 
 		log.Infof("fifo list")
-		// a copy, the result is encoded after the lock is released
-		return append([]interface{}{}, fifo...), nil
+		return fifo, nil
 	})
 
 	handler.Actor.OnTyped("fifo_get", func(at int) (interface{}, error) {
@@ -96,16 +95,12 @@ func main() {
 		if session == nil {
 			return nil, &jlib.RPCError{Code: -400, Message: "no session established"}
 		}
-		lock.Lock()
-		defer lock.Unlock()
 		subs[session.SessionID()] = session
 		return "ok", nil
 	})
 
 	handler.Actor.OnClose(func(r *http.Request, session jlibhttp.RPCSession) {
 		log.Infof("fifo unsub %s", session.SessionID())
-		lock.Lock()
-		defer lock.Unlock()
 		delete(subs, session.SessionID())
 	})
 
-- 
2.43.0


From abfc8a7794d94d10e106c29f3c293b3337fc8118 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:40 +0000
Subject: [PATCH 09/23] fix: a missing handler that panics on a response is
 recovered as on requests

---
 http/request.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/http/request.go b/http/request.go
index 41b9330..f878fa7 100644
--- a/http/request.go
+++ b/http/request.go
@@ -293,8 +293,7 @@ func (self *Actor) Feed(req *RPCRequest) (jlib.Message, error) {
 	msg := req.Msg()
 	if !msg.IsRequestOrNotify() {
 		if self.missingHandler != nil {
-			res, err := self.missingHandler(req)
-			return self.wrapResult(res, err, msg)
+			return self.recoverCallMissingHandler(req)
 		} else {
 			req.Log().Info("no handler to handle this message")
 			return nil, nil
-- 
2.43.0


From 2eca7f75602756330042613111c691925d6d3a9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:48:06 +0000
Subject: [PATCH 10/23] fix: an http/1 call refuses a reply that is no response

---
 http/h1_client.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/http/h1_client.go b/http/h1_client.go
index 75bc154..27ed1d0 100644
--- a/http/h1_client.go
+++ b/http/h1_client.go
@@ -183,6 +183,9 @@ func (self *H1Client) request(rootCtx context.Context, reqmsg *jlib.RequestMessa
 	if err != nil {
 		return nil, err
 	}
+	if !respmsg.IsResultOrError() {
+		return nil, errors.New("the reply is not a response message")
+	}
 	respmsg.SetTraceId(traceId)
 	return respmsg, nil
 }
-- 
2.43.0


From 9aa1339bda1a38e09ec2b8b41924dc00a4cb294b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:03:04 +0000
Subject: [PATCH 11/23] fix: each request gets its own copy of the auth
 settings

---
 http/auth_handler.go | 32 +++++++++++++++++++++++++++++---
 1 file changed, 29 insertions(+), 3 deletions(-)

diff --git a/http/auth_handler.go b/http/auth_handler.go
index 2664dcc..ea412b1 100644
--- a/http/auth_handler.go
+++ b/http/auth_handler.go
@@ -24,6 +24,32 @@ func AuthInfoFromContext(ctx context.Context) (*AuthInfo, bool) {
 	return nil, false
 }
 
+// a copy for one request, which is free to change it
+func copySettings(settings map[string]interface{}) map[string]interface{} {
+	if settings == nil {
+		return nil
+	}
+	return copyValue(settings).(map[string]interface{})
+}
+
+func copyValue(value interface{}) interface{} {
+	switch v := value.(type) {
+	case map[string]interface{}:
+		m := make(map[string]interface{}, len(v))
+		for k, elem := range v {
+			m[k] = copyValue(elem)
+		}
+		return m
+	case []interface{}:
+		arr := make([]interface{}, len(v))
+		for i, elem := range v {
+			arr[i] = copyValue(elem)
+		}
+		return arr
+	}
+	return value
+}
+
 type BasicAuthConfig struct {
 	Username string                 `yaml:"username" json:"username"`
 	Password string                 `yaml:"password" json:"password"`
@@ -90,7 +116,7 @@ func (self AuthHandler) TryAuth(r *http.Request) (*AuthInfo, bool) {
 				if basicCfg.Username == username && basicCfg.Password == password {
 					return &AuthInfo{
 						Username: username,
-						Settings: basicCfg.Settings}, true
+						Settings: copySettings(basicCfg.Settings)}, true
 				}
 			}
 		}
@@ -107,7 +133,7 @@ func (self AuthHandler) TryAuth(r *http.Request) (*AuthInfo, bool) {
 				}
 				return &AuthInfo{
 					Username: username,
-					Settings: bearerCfg.Settings}, true
+					Settings: copySettings(bearerCfg.Settings)}, true
 			}
 		}
 	}
@@ -160,7 +186,7 @@ func (self *AuthHandler) jwtAuth(jwtCfg *JwtAuthConfig, r *http.Request) (*AuthI
 		}
 		return &AuthInfo{
 			Username: claims.Username,
-			Settings: claims.Settings}, true
+			Settings: copySettings(claims.Settings)}, true
 	}
 	return nil, false
 }
-- 
2.43.0


From c86ccb2f76e3bc913954ffda23828c4f503cbeb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:04:49 +0000
Subject: [PATCH 12/23] fix: a bare Bearer header is refused instead of failing
 the jwt check

---
 http/auth_handler.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/http/auth_handler.go b/http/auth_handler.go
index ea412b1..8b72e6e 100644
--- a/http/auth_handler.go
+++ b/http/auth_handler.go
@@ -147,7 +147,7 @@ func (self *AuthHandler) jwtAuth(jwtCfg *JwtAuthConfig, r *http.Request) (*AuthI
 	if authHeader == "" {
 		return nil, false
 	}
-	if arr := strings.SplitN(authHeader, " ", 2); len(arr) <= 2 && arr[0] == "Bearer" {
+	if arr := strings.SplitN(authHeader, " ", 2); len(arr) == 2 && arr[0] == "Bearer" {
 		var claims *jwtClaims
 		fromCache := false
 
-- 
2.43.0


From b85060da5089b4617e7bcebb3c016919045f8b30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:27:17 +0000
Subject: [PATCH 13/23] fix: a reply that can't be encoded becomes an internal
 error on streaming sessions as on http/1

---
 http/h2_server.go    |  5 +++--
 http/server_utils.go | 13 +++++++++++++
 http/ws_server.go    |  5 +++--
 3 files changed, 19 insertions(+), 4 deletions(-)

diff --git a/http/h2_server.go b/http/h2_server.go
index 985e49f..cb5039e 100644
--- a/http/h2_server.go
+++ b/http/h2_server.go
@@ -229,10 +229,11 @@ func (self *H2Session) sendLoop() {
 			if self.decoder == nil {
 				return
 			}
-			marshaled, err := jlib.MessageBytes(msg)
+			marshaled, err := encodeMessage(msg)
 			if err != nil {
+				// the other messages of the session still go
 				log.Warnf("marshal msg error %s", err)
-				return
+				continue
 			}
 
 			marshaled = append(marshaled, []byte("\n")...)
diff --git a/http/server_utils.go b/http/server_utils.go
index 0e9f5b7..193f2d3 100644
--- a/http/server_utils.go
+++ b/http/server_utils.go
@@ -4,6 +4,7 @@ import (
 	"context"
 	"github.com/pkg/errors"
 	log "github.com/sirupsen/logrus"
+	"github.com/superisaac/jlib"
 	"net"
 	"net/http"
 )
@@ -59,6 +60,18 @@ func ListenAndServe(rootCtx context.Context, bind string, handler http.Handler,
 	}
 }
 
+// encode a message to send, a response that can't be encoded is turned
+// into an internal error
+func encodeMessage(msg jlib.Message) ([]byte, error) {
+	marshaled, err := jlib.MessageBytes(msg)
+	if err != nil && msg.IsResultOrError() {
+		log.Warnf("marshal msg error %s", err)
+		errmsg := jlib.ErrInternalError.ToMessageFromId(msg.MustId(), msg.TraceId())
+		return jlib.MessageBytes(errmsg)
+	}
+	return marshaled, err
+}
+
 // log attaching remoteAddr
 func Logger(r *http.Request) *log.Entry {
 	return log.WithFields(log.Fields{
diff --git a/http/ws_server.go b/http/ws_server.go
index 97cb6ce..1b98da4 100644
--- a/http/ws_server.go
+++ b/http/ws_server.go
@@ -183,10 +183,11 @@ func (self *WSSession) sendLoop() {
 			if self.ws == nil {
 				return
 			}
-			marshaled, err := jlib.MessageBytes(msg)
+			marshaled, err := encodeMessage(msg)
 			if err != nil {
+				// the other messages of the session still go
 				log.Warnf("marshal msg error %s", err)
-				return
+				continue
 			}
 
 			if err := self.ws.WriteMessage(websocket.TextMessage, marshaled); err != nil {
-- 
2.43.0


From da98feb8083245fd68114014bb677af29225d75a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:51 +0000
Subject: [PATCH 14/23] fix: an http/2 session whose client does not read ends
 in time, its callbacks and contexts do not wait for the blocked write

---
 http/h2_server.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/http/h2_server.go b/http/h2_server.go
index cb5039e..b4dcaa9 100644
--- a/http/h2_server.go
+++ b/http/h2_server.go
@@ -84,10 +84,14 @@ func (self *H2Handler) ServeHTTP(w http.ResponseWriter, r *http.Request) {
 	//w.Write([]byte("{\"method\":\"hello\",\"params\":[]}\n"))
 	flusher.Flush()
 
+	// ends with the session, even if a blocked write keeps the request
+	rootCtx, cancel := context.WithCancel(r.Context())
+	defer cancel()
+
 	decoder := json.NewDecoder(r.Body)
 	session := &H2Session{
 		server:      self,
-		rootCtx:     r.Context(),
+		rootCtx:     rootCtx,
 		httpRequest: r,
 		writer:      w,
 		flusher:     flusher,
@@ -98,13 +102,14 @@ func (self *H2Handler) ServeHTTP(w http.ResponseWriter, r *http.Request) {
 		sendChannel: make(chan jlib.Message, 100),
 		sessionId:   jlib.NewUuid(),
 	}
+	defer session.waitSendLoop()
 	defer func() {
 		r.Body.Close()
 		self.Actor.HandleClose(r, session)
 	}()
 	session.wait()
+	cancel()
 	close(session.ended)
-	session.waitSendLoop()
 }
 
 // websocket session
-- 
2.43.0


From 8fb3a52735fca05b68fb993279381b03f1c2fbb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:53 +0000
Subject: [PATCH 15/23] fix: null for a typed parameter of interface type is
 passed on instead of crashing the server

---
 http/typewrap.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/http/typewrap.go b/http/typewrap.go
index 5367bb8..56bc5ba 100644
--- a/http/typewrap.go
+++ b/http/typewrap.go
@@ -29,6 +29,10 @@ func interfaceToValue(a interface{}, outputType reflect.Type) (reflect.Value, er
 	if err != nil {
 		return reflect.Value{}, err
 	}
+	if output == nil {
+		// null for an interface type, there is no value to reflect
+		return reflect.Zero(outputType), nil
+	}
 	return reflect.ValueOf(output), nil
 }
 
-- 
2.43.0


From 54b8e04f1948f05abc178725292ca981cd16c9ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:00 +0000
Subject: [PATCH 16/23] fix: the FIFO example guards its subscribers, which
 connections come and go concurrently with pushes

---
 examples/fifo/main.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/examples/fifo/main.go b/examples/fifo/main.go
index f45c89a..ec58533 100644
--- a/examples/fifo/main.go
+++ b/examples/fifo/main.go
@@ -95,12 +95,16 @@ func main() {
 		if session == nil {
 			return nil, &jlib.RPCError{Code: -400, Message: "no session established"}
 		}
+		lock.Lock()
+		defer lock.Unlock()
 		subs[session.SessionID()] = session
 		return "ok", nil
 	})
 
 	handler.Actor.OnClose(func(r *http.Request, session jlibhttp.RPCSession) {
 		log.Infof("fifo unsub %s", session.SessionID())
+		lock.Lock()
+		defer lock.Unlock()
 		delete(subs, session.SessionID())
 	})
 
-- 
2.43.0


From 83f32b3bedfd9c5bcb4b4214d16a76b4efec8fa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:00 +0000
Subject: [PATCH 17/23] fix: the FIFO example lists one state of the queue, not
 one that changes while it is encoded

---
 examples/fifo/main.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/examples/fifo/main.go b/examples/fifo/main.go
index ec58533..e081800 100644
--- a/examples/fifo/main.go
+++ b/examples/fifo/main.go
@@ -72,7 +72,8 @@ func main() {
 		defer lock.RUnlock()
 
 		log.Infof("fifo list")
-		return fifo, nil
+		// a copy, the result is encoded after the lock is released
+		return append([]interface{}{}, fifo...), nil
 	})
 
 	handler.Actor.OnTyped("fifo_get", func(at int) (interface{}, error) {
-- 
2.43.0


From 734d6757cdbc4c256e4acac38822e2b58a9419c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:12 +0000
Subject: [PATCH 18/23] fix: no message pushed to an ending session is
 delivered after one that was dropped

---
 http/h2_server.go | 6 ++++++
 http/ws_server.go | 6 ++++++
 2 files changed, 12 insertions(+)

diff --git a/http/h2_server.go b/http/h2_server.go
index b4dcaa9..b4a7fc9 100644
--- a/http/h2_server.go
+++ b/http/h2_server.go
@@ -183,6 +183,12 @@ func (self *H2Session) msgReceived(msg jlib.Message) {
 }
 
 func (self *H2Session) Send(msg jlib.Message) {
+	select {
+	case <-self.ended:
+		// no message goes after one that was dropped
+		return
+	default:
+	}
 	select {
 	case self.sendChannel <- msg:
 	case <-self.ended:
diff --git a/http/ws_server.go b/http/ws_server.go
index 1b98da4..5227823 100644
--- a/http/ws_server.go
+++ b/http/ws_server.go
@@ -147,6 +147,12 @@ func (self *WSSession) msgBytesReceived(msgBytes []byte) {
 }
 
 func (self *WSSession) Send(msg jlib.Message) {
+	select {
+	case <-self.ended:
+		// no message goes after one that was dropped
+		return
+	default:
+	}
 	select {
 	case self.sendChannel <- msg:
 	case <-self.ended:
-- 
2.43.0


From b54c717896e0e00a5247eac077c053c5f2d5d9d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:25 +0000
Subject: [PATCH 19/23] Revert "fix: the FIFO example lists one state of the
 queue, not one that changes while it is encoded"

This reverts commit 83f32b3bedfd9c5bcb4b4214d16a76b4efec8fa9.
---
 examples/fifo/main.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/examples/fifo/main.go b/examples/fifo/main.go
index e081800..ec58533 100644
--- a/examples/fifo/main.go
+++ b/examples/fifo/main.go
@@ -72,8 +72,7 @@ func main() {
 		defer lock.RUnlock()
 
 		log.Infof("fifo list")
-		// a copy, the result is encoded after the lock is released
-		return append([]interface{}{}, fifo...), nil
+		return fifo, nil
 	})
 
 	handler.Actor.OnTyped("fifo_get", func(at int) (interface{}, error) {
-- 
2.43.0


From 146fda60a64d3caeb31bf6791da8b953a980433e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:25 +0000
Subject: [PATCH 20/23] Revert "fix: the FIFO example guards its subscribers,
 which connections come and go concurrently with pushes"

This reverts commit 54b8e04f1948f05abc178725292ca981cd16c9ac.
---
 examples/fifo/main.go | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/examples/fifo/main.go b/examples/fifo/main.go
index ec58533..f45c89a 100644
--- a/examples/fifo/main.go
+++ b/examples/fifo/main.go
@@ -95,16 +95,12 @@ func main() {
 		if session == nil {
 			return nil, &jlib.RPCError{Code: -400, Message: "no session established"}
 		}
-		lock.Lock()
-		defer lock.Unlock()
 		subs[session.SessionID()] = session
 		return "ok", nil
 	})
 
 	handler.Actor.OnClose(func(r *http.Request, session jlibhttp.RPCSession) {
 		log.Infof("fifo unsub %s", session.SessionID())
-		lock.Lock()
-		defer lock.Unlock()
 		delete(subs, session.SessionID())
 	})
 
-- 
2.43.0


From 5f2915fc01e97de82385fb545d6a6db0097bd745 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:49 +0000
Subject: [PATCH 21/23] fix: jsonrpc-watch takes a connection lost before it
 waits for a lost one instead of exiting

---
 cli/watch/main.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/cli/watch/main.go b/cli/watch/main.go
index d37a6e8..5880d6e 100644
--- a/cli/watch/main.go
+++ b/cli/watch/main.go
@@ -151,5 +151,9 @@ func (self *jsonrpcWatcher) connect() error {
 		fmt.Println(repr)
 	}
 	// wait loop
-	return self.sc.Wait()
+	if err := self.sc.Wait(); err != nil {
+		return err
+	}
+	// nobody closes the connection here, so it was lost before Wait
+	return jlibhttp.TransportClosed
 }
-- 
2.43.0


From d51db911d531461625893024dfffab43cac5f4a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:49 +0000
Subject: [PATCH 22/23] fix: jsonrpc-watch reconnects when the connection is
 lost during its call instead of panicking

---
 cli/watch/main.go | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/cli/watch/main.go b/cli/watch/main.go
index 5880d6e..33f0754 100644
--- a/cli/watch/main.go
+++ b/cli/watch/main.go
@@ -103,10 +103,7 @@ type jsonrpcWatcher struct {
 func (self *jsonrpcWatcher) run() {
 	for {
 		if err := self.connect(); err != nil {
-			if errors.Is(err, jlibhttp.TransportConnectFailed) ||
-				errors.Is(err, jlibhttp.TransportClosed) ||
-				errors.Is(err, io.EOF) {
-
+			if connectionLost(err) {
 				self.connectretry++
 				log.Infof("connect failed %d/%d times", self.connectretry, self.retrylimit)
 				if self.connectretry >= self.retrylimit {
@@ -125,6 +122,13 @@ func (self *jsonrpcWatcher) run() {
 	}
 }
 
+// connectionLost tells whether err is worth another attempt to connect
+func connectionLost(err error) bool {
+	return errors.Is(err, jlibhttp.TransportConnectFailed) ||
+		errors.Is(err, jlibhttp.TransportClosed) ||
+		errors.Is(err, io.EOF)
+}
+
 func (self *jsonrpcWatcher) connect() error {
 	ctx, cancel := context.WithCancel(context.Background())
 	defer cancel()
@@ -140,7 +144,9 @@ func (self *jsonrpcWatcher) connect() error {
 		reqId := jlib.NewUuid()
 		reqmsg := jlib.NewRequestMessage(reqId, self.method, self.params)
 		resmsg, err := self.sc.Call(ctx, reqmsg)
-		if err != nil {
+		if connectionLost(err) {
+			return err
+		} else if err != nil {
 			log.Panicf("rpc error: %s", err)
 			os.Exit(1)
 		}
-- 
2.43.0


From db6e8e9ff21e60a6364f5f76f20534733d770c0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:28 +0000
Subject: [PATCH 23/23] fix: a request whose handler returns an http response
 is answered over websocket and http2 instead of ending the session

---
 http/h2_server.go | 7 +++++++
 http/ws_server.go | 7 +++++++
 2 files changed, 14 insertions(+)

diff --git a/http/h2_server.go b/http/h2_server.go
index b4a7fc9..27e9f87 100644
--- a/http/h2_server.go
+++ b/http/h2_server.go
@@ -169,6 +169,13 @@ func (self *H2Session) msgReceived(msg jlib.Message) {
 	req.session = self
 
 	resmsg, err := self.server.Actor.Feed(req)
+	if err != nil && msg.IsRequest() {
+		// an http response can not be passed on here, and the other
+		// requests of the session have nothing to do with it
+		msg.Log().Warnf("error handling request %s", err)
+		resmsg, err = jlib.ErrInternalError.ToMessageFromId(
+			msg.MustId(), msg.TraceId()), nil
+	}
 	if err != nil {
 		self.finish(errors.Wrap(err, "actor.Feed"))
 		return
diff --git a/http/ws_server.go b/http/ws_server.go
index 5227823..2456c76 100644
--- a/http/ws_server.go
+++ b/http/ws_server.go
@@ -133,6 +133,13 @@ func (self *WSSession) msgBytesReceived(msgBytes []byte) {
 	req.session = self
 
 	resmsg, err := self.server.Actor.Feed(req)
+	if err != nil && msg.IsRequest() {
+		// an http response can not be passed on here, and the other
+		// requests of the session have nothing to do with it
+		msg.Log().Warnf("error handling request %s", err)
+		resmsg, err = jlib.ErrInternalError.ToMessageFromId(
+			msg.MustId(), msg.TraceId()), nil
+	}
 	if err != nil {
 		self.finish(errors.Wrap(err, "actor.Feed"))
 		return
-- 
2.43.0

