From 237ff42d4f766919caf8b74abefc79c1b896f7a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:26:30 +0000
Subject: [PATCH 01/63] fix: reject percent-escapes with non-hexadecimal digits

They were decoded as a zero nibble, so /%zz was served as /\x00.
---
 internal/uridecode/decoder.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/internal/uridecode/decoder.go b/internal/uridecode/decoder.go
index afd1b4f..b936481 100644
--- a/internal/uridecode/decoder.go
+++ b/internal/uridecode/decoder.go
@@ -14,6 +14,10 @@ func Decode(src, buff []byte) ([]byte, error) {
 			return nil, status.ErrURIDecoding
 		}
 
+		if !isHex(src[i+1]) || !isHex(src[i+2]) {
+			return nil, status.ErrURIDecoding
+		}
+
 		buff = append(buff, src[:i]...)
 		buff = append(buff, hexconv.Parse(src[i+1])<<4|hexconv.Parse(src[i+2]))
 		src = src[i+3:]
@@ -25,3 +29,7 @@ func Decode(src, buff []byte) ([]byte, error) {
 
 	return append(buff, src...), nil
 }
+
+func isHex(char byte) bool {
+	return (char >= '0' && char <= '9') || (char >= 'a' && char <= 'f') || (char >= 'A' && char <= 'F')
+}
-- 
2.43.0


From 5278fc34eec0faebc2adbe87ce306e979bd934b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:33:43 +0000
Subject: [PATCH 02/63] fix: correct the reason phrase in the status line of
 101

---
 http/status/codes.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/http/status/codes.go b/http/status/codes.go
index 6df0c79..774784b 100644
--- a/http/status/codes.go
+++ b/http/status/codes.go
@@ -224,7 +224,7 @@ func Line(code Code) string {
 	case Continue:
 		return "100 Continue\r\n"
 	case SwitchingProtocols:
-		return "101 Switching Protocol\r\n"
+		return "101 Switching Protocols\r\n"
 	case Processing:
 		return "102 Processing\r\n"
 	case EarlyHints:
-- 
2.43.0


From 22cd6b642ad33fc10218c0d6a0372e203a3caa68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:33:43 +0000
Subject: [PATCH 03/63] fix: require the dot in the protocol version token

HTTP/1x1 was taken for HTTP/1.1.
---
 http/proto/proto.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/http/proto/proto.go b/http/proto/proto.go
index 690d997..64f2c8d 100644
--- a/http/proto/proto.go
+++ b/http/proto/proto.go
@@ -40,6 +40,10 @@ func FromBytes(raw []byte) Proto {
 		return Unknown
 	}
 
+	if raw[majorVersionOffset+1] != '.' {
+		return Unknown
+	}
+
 	return Parse(raw[majorVersionOffset]-'0', raw[minorVersionOffset]-'0')
 }
 
-- 
2.43.0


From a322c04ae445a7f3637566555cec0fc8f189b584 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:36:41 +0000
Subject: [PATCH 04/63] fix: recognize bracketed IPv6 literals among listen
 addresses

AutoHTTPS("[::1]:443") tried to get a certificate from an ACME provider for a
local address.
---
 internal/address/address.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/internal/address/address.go b/internal/address/address.go
index 337e907..85de994 100644
--- a/internal/address/address.go
+++ b/internal/address/address.go
@@ -25,6 +25,13 @@ func IsIP(addr string) bool {
 }
 
 func stripPort(addr string) string {
+	if strings.HasPrefix(addr, "[") {
+		// an IPv6 literal, its own colons have nothing to do with the port
+		if end := strings.IndexByte(addr, ']'); end > 1 {
+			return addr[1:end]
+		}
+	}
+
 	colon := strings.IndexByte(addr, ':')
 	if colon != -1 {
 		return addr[:colon]
-- 
2.43.0


From 7eb36b85493f148d825856581a2cc1e0a8ead681 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:36:41 +0000
Subject: [PATCH 05/63] fix: strip trailing slashes of short paths, too

/a/ and // were left as they are, so /a/ did not match a route /a.
---
 router/inbuilt/uri/normalize.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/router/inbuilt/uri/normalize.go b/router/inbuilt/uri/normalize.go
index 5f634fb..f8b4080 100644
--- a/router/inbuilt/uri/normalize.go
+++ b/router/inbuilt/uri/normalize.go
@@ -1,11 +1,16 @@
 package uri
 
 func Normalize(path string) string {
-	for i := len(path) - 1; i > 1; i-- {
+	for i := len(path) - 1; i > 0; i-- {
 		if path[i] != '/' {
 			return path[:i+1]
 		}
 	}
 
+	if len(path) > 1 {
+		// there is nothing but slashes behind the first character
+		return path[:1]
+	}
+
 	return path
 }
-- 
2.43.0


From e62835f9a6b3655605a0edfd239db7c3d68b42b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:36:41 +0000
Subject: [PATCH 06/63] fix: normalize the requested host before matching
 virtual hosts

Registered hosts are stripped of www. and default ports, so Host("www.example.com")
could not be reached by Host: www.example.com.
---
 router/virtual/virtual.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/router/virtual/virtual.go b/router/virtual/virtual.go
index 6d16820..d4ce732 100644
--- a/router/virtual/virtual.go
+++ b/router/virtual/virtual.go
@@ -114,7 +114,7 @@ func (r *runtimeRouter) getRouter(request *http.Request) (router.Router, *http.R
 		return nil, http.Code(request, status.BadRequest)
 	}
 
-	host := hosts[0]
+	host := domain.Normalize(hosts[0])
 
 	for _, virtRouter := range r.routers {
 		if strcomp.EqualFold(virtRouter.Domain, host) {
-- 
2.43.0


From afe19438d835a6aa633e05c45aa0adea13a1905e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:36:41 +0000
Subject: [PATCH 07/63] fix: strip the www. prefix of a host in any case

Host names are case-insensitive.
---
 router/virtual/internal/domain/normalize.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/router/virtual/internal/domain/normalize.go b/router/virtual/internal/domain/normalize.go
index 98c04f9..1b08024 100644
--- a/router/virtual/internal/domain/normalize.go
+++ b/router/virtual/internal/domain/normalize.go
@@ -3,7 +3,7 @@ package domain
 import "strings"
 
 func Normalize(domain string) string {
-	if strings.HasPrefix(domain, "www.") {
+	if len(domain) >= len("www.") && strings.EqualFold(domain[:len("www.")], "www.") {
 		domain = domain[len("www."):]
 	}
 
-- 
2.43.0


From 952ab549a1cef75d47c4e2a9410ab2b191f8aa2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:08:10 +0000
Subject: [PATCH 08/63] fix: don't serve connections accepted while the server
 is shutting down

---
 internal/tcp/server.go | 92 ++++++++++++++++++++++++++++++++++++++----
 1 file changed, 84 insertions(+), 8 deletions(-)

diff --git a/internal/tcp/server.go b/internal/tcp/server.go
index dd0d275..4c18ffa 100644
--- a/internal/tcp/server.go
+++ b/internal/tcp/server.go
@@ -14,10 +14,13 @@ type Deadliner interface {
 }
 
 type Server struct {
-	wg       *sync.WaitGroup
-	sock     net.Listener
-	onConn   OnConn
-	shutdown atomic.Bool
+	wg        *sync.WaitGroup
+	loop      sync.WaitGroup
+	mu        sync.Mutex
+	accepting bool
+	sock      net.Listener
+	onConn    OnConn
+	shutdown  atomic.Bool
 }
 
 func NewServer(sock net.Listener, onConn OnConn) *Server {
@@ -31,6 +34,12 @@ func NewServer(sock net.Listener, onConn OnConn) *Server {
 // Start runs the accept-loop until an error during accepting the connection happens
 // or graceful shutdown invokes
 func (s *Server) Start() error {
+	if !s.enter() {
+		return nil
+	}
+
+	defer s.leave()
+
 	// we still need the shutdown atomic here, because not every net.Listener
 	// is the Deadliner, too. So by that, in such cases we can't interrupt the
 	// accept-loop via SetDeadline() method. In this case, just wait till the
@@ -41,7 +50,12 @@ func (s *Server) Start() error {
 			return err
 		}
 
-		s.wg.Add(1)
+		if !s.acquire() {
+			// the server was paused in the meantime, and nobody's waiting for us anymore
+			_ = conn.Close()
+			break
+		}
+
 		go s.connHandler(conn)
 	}
 
@@ -51,21 +65,83 @@ func (s *Server) Start() error {
 // Stop closes the server socket, however all the clients won't be notified explicitly
 // until they try to send us anything
 func (s *Server) Stop() error {
-	return s.sock.Close()
+	s.close()
+
+	err := s.sock.Close()
+	if err != nil {
+		s.leave()
+	}
+
+	return err
 }
 
 // Pause stops listening to new connections, however doesn't close the socket.
 func (s *Server) Pause() {
-	s.shutdown.Store(true)
+	s.close()
 
 	if listener, ok := s.sock.(Deadliner); ok {
 		// interrupt the listener RIGHT NOW
-		_ = listener.SetDeadline(time.Now())
+		if listener.SetDeadline(time.Now()) == nil {
+			return
+		}
+	}
+
+	// the accept-loop can't be interrupted, so it must not be waited for. Clients it'll
+	// accept from now on won't be served
+	s.leave()
+}
+
+// enter starts accounting the accept-loop. It must be waited for on shutdown just as connections,
+// because it might be about to serve a connection it has already accepted
+func (s *Server) enter() bool {
+	s.mu.Lock()
+	defer s.mu.Unlock()
+
+	if s.shutdown.Load() {
+		return false
 	}
+
+	s.accepting = true
+	s.loop.Add(1)
+	return true
+}
+
+// leave stops accounting the accept-loop
+func (s *Server) leave() {
+	s.mu.Lock()
+	defer s.mu.Unlock()
+
+	if s.accepting {
+		s.accepting = false
+		s.loop.Done()
+	}
+}
+
+// acquire accounts a new connection, if the accept-loop is still accounted
+func (s *Server) acquire() bool {
+	s.mu.Lock()
+	defer s.mu.Unlock()
+
+	if s.accepting {
+		s.wg.Add(1)
+	}
+
+	return s.accepting
+}
+
+func (s *Server) close() {
+	s.mu.Lock()
+	defer s.mu.Unlock()
+
+	s.shutdown.Store(true)
 }
 
 // Wait blocks the caller until all the connections are closed
 func (s *Server) Wait() {
+	if s.shutdown.Load() {
+		s.loop.Wait()
+	}
+
 	s.wg.Wait()
 }
 
-- 
2.43.0


From c5577f3da487b046eaac2b1561672a7aa27cc960 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:09:55 +0000
Subject: [PATCH 09/63] fix: serve each listener with its own handler

---
 indi.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/indi.go b/indi.go
index 67219c4..947fcfc 100644
--- a/indi.go
+++ b/indi.go
@@ -127,6 +127,10 @@ func (a *App) bind(r router.Router) ([]*tcp.Server, error) {
 	servers := make([]*tcp.Server, 0, len(a.sources))
 
 	for _, src := range a.sources {
+		// the handler of the listener must not refer to the loop variable, as it's shared
+		// among all the iterations
+		src := src
+
 		listener, err := src.Listen("tcp", src.Addr)
 		if err != nil {
 			return nil, err
-- 
2.43.0


From 972fcf8d34f98c422cb372704a7402e5471dcdf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:09:55 +0000
Subject: [PATCH 10/63] fix: release already bound addresses if binding fails

---
 indi.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/indi.go b/indi.go
index 947fcfc..3d84dc8 100644
--- a/indi.go
+++ b/indi.go
@@ -133,6 +133,7 @@ func (a *App) bind(r router.Router) ([]*tcp.Server, error) {
 
 		listener, err := src.Listen("tcp", src.Addr)
 		if err != nil {
+			tcp.StopAll(servers)
 			return nil, err
 		}
 
-- 
2.43.0


From e516a60b51870a2afa616f80f77f71e0a3ecde90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:09:55 +0000
Subject: [PATCH 11/63] fix: don't block on stop requests and on errors nobody
 waits for

---
 indi.go | 46 +++++++++++++++++++++++++++++++++-------------
 1 file changed, 33 insertions(+), 13 deletions(-)

diff --git a/indi.go b/indi.go
index 3d84dc8..cb1d96b 100644
--- a/indi.go
+++ b/indi.go
@@ -9,7 +9,6 @@ import (
 	"github.com/indigo-web/indigo/router/inbuilt"
 	"log"
 	"net"
-	"sync/atomic"
 
 	"github.com/indigo-web/indigo/config"
 	"github.com/indigo-web/indigo/router"
@@ -28,7 +27,7 @@ type App struct {
 func New(addr string) *App {
 	app := &App{
 		cfg:   config.Default(),
-		errCh: make(chan error),
+		errCh: make(chan error, 1),
 	}
 
 	return app.Listen(addr)
@@ -154,28 +153,33 @@ func (a *App) bind(r router.Router) ([]*tcp.Server, error) {
 }
 
 func (a *App) run(servers []*tcp.Server) error {
-	var failSilently atomic.Bool
+	// every server is able to report its error without blocking, even if nobody's
+	// interested in it anymore
+	failures := make(chan error, len(servers))
 
 	for _, server := range servers {
 		go func(server *tcp.Server) {
-			err := server.Start()
-
-			if failSilently.Swap(true) {
-				return
-			}
-
-			a.errCh <- err
+			failures <- server.Start()
 		}(server)
 	}
 
 	callIfNotNil(a.hooks.OnStart)
-	err := <-a.errCh
+
+	var err error
+
+	select {
+	case err = <-a.errCh:
+	case err = <-failures:
+	}
+
 	if err == status.ErrGracefulShutdown {
 		// stop listening to new clients and process till the end all the old ones
 		tcp.PauseAll(servers)
 	}
 
 	tcp.StopAll(servers)
+	// stop requests issued after the application is already stopping don't concern the next run
+	a.drainErrors()
 	callIfNotNil(a.hooks.OnStop)
 
 	return err
@@ -186,7 +190,7 @@ func (a *App) run(servers []*tcp.Server) error {
 // NOTE: the call isn't blocking. So by that, after the method returned, the server
 // will be still working
 func (a *App) GracefulStop() {
-	a.errCh <- status.ErrGracefulShutdown
+	a.requestStop(status.ErrGracefulShutdown)
 }
 
 // Stop stops the whole application immediately.
@@ -194,7 +198,23 @@ func (a *App) GracefulStop() {
 // NOTE: the call isn't blocking. So by that, after the method returned, the server
 // will still be working
 func (a *App) Stop() {
-	a.errCh <- status.ErrShutdown
+	a.requestStop(status.ErrShutdown)
+}
+
+// requestStop never blocks. If there is already a pending request, the application is
+// going to be stopped anyway
+func (a *App) requestStop(err error) {
+	select {
+	case a.errCh <- err:
+	default:
+	}
+}
+
+func (a *App) drainErrors() {
+	select {
+	case <-a.errCh:
+	default:
+	}
 }
 
 func (a *App) newHTTPHandler(enc encryption.Token) listenerHandler {
-- 
2.43.0


From 79fdc9ccbe1410cdde8bebfd714524e8ab444de6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:09:55 +0000
Subject: [PATCH 12/63] fix: keep the encryption token over the whole
 connection

---
 http/request.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/http/request.go b/http/request.go
index 6a5286e..8da4fc8 100644
--- a/http/request.go
+++ b/http/request.go
@@ -180,7 +180,8 @@ func (r *Request) Clear() (err error) {
 	r.Connection = ""
 	r.Upgrade = proto.Unknown
 	r.Ctx = zeroContext
-	r.Env = Environment{}
+	// encryption is a property of the connection, not of a single request
+	r.Env = Environment{Encryption: r.Env.Encryption}
 
 	return nil
 }
-- 
2.43.0


From 7585ea7642c81afb09a7c30b873f43910f9406da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:23:34 +0000
Subject: [PATCH 13/63] fix: don't share the buffer of TRACE responses among
 requests

---
 router/inbuilt/inbuilt.go | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/router/inbuilt/inbuilt.go b/router/inbuilt/inbuilt.go
index ceb1696..908df22 100644
--- a/router/inbuilt/inbuilt.go
+++ b/router/inbuilt/inbuilt.go
@@ -49,7 +49,6 @@ func New() *Router {
 type runtimeRouter struct {
 	mutators    []Mutator
 	catchers    []Catcher
-	traceBuff   []byte
 	tree        radix.Tree
 	routesMap   routesMap
 	errHandlers errorHandlers
@@ -135,9 +134,8 @@ func (r *runtimeRouter) OnError(request *http.Request, err error) *http.Response
 
 func (r *runtimeRouter) onError(request *http.Request, err error) *http.Response {
 	if request.Method == method.TRACE && err == status.ErrMethodNotAllowed {
-		r.traceBuff = renderHTTPRequest(request, r.traceBuff)
-
-		return traceResponse(request.Respond(), r.traceBuff)
+		// the router is shared among all the connections, so the buffer must not be
+		return traceResponse(request.Respond(), renderHTTPRequest(request, nil))
 	}
 
 	if err == status.ErrNotFound {
-- 
2.43.0


From eaf42c4209f558c43680aab970ef89c12e1f5f1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:23:34 +0000
Subject: [PATCH 14/63] fix: don't share the path buffer of static files among
 requests

---
 router/inbuilt/static.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/router/inbuilt/static.go b/router/inbuilt/static.go
index 1ff7242..de258b9 100644
--- a/router/inbuilt/static.go
+++ b/router/inbuilt/static.go
@@ -10,9 +10,9 @@ import (
 // Static adds a catcher of prefix, that automatically returns files from defined root
 // directory
 func (r *Router) Static(prefix, root string, mwares ...Middleware) *Router {
-	pathReplacer := pathlib.NewPath(prefix, root)
-
 	return r.Catch(prefix, func(request *http.Request) *http.Response {
+		// requests are processed concurrently, so the replacer can't be shared
+		pathReplacer := pathlib.NewPath(prefix, root)
 		pathReplacer.Set(request.Path)
 		path := pathReplacer.Relative()
 		if !isSafe(path) {
-- 
2.43.0


From 954089172d2a318aabd2eeb0543ca4abbddd511f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:44:36 +0000
Subject: [PATCH 15/63] fix: apply the request line limits independently of how
 the data is split

---
 internal/protocol/http1/parser.go | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/internal/protocol/http1/parser.go b/internal/protocol/http1/parser.go
index 2845f54..c86908e 100644
--- a/internal/protocol/http1/parser.go
+++ b/internal/protocol/http1/parser.go
@@ -107,17 +107,14 @@ method:
 			return Pending, nil, nil
 		}
 
-		var methodValue []byte
-		if p.startLineBuff.SegmentLength() == 0 {
-			methodValue = data[:sp]
-		} else {
-			if !p.startLineBuff.Append(data[:sp]) {
-				return Error, nil, status.ErrTooLongRequestLine
-			}
-
-			methodValue = p.startLineBuff.Finish()
+		if !p.startLineBuff.Append(data[:sp]) {
+			return Error, nil, status.ErrTooLongRequestLine
 		}
 
+		methodValue := p.startLineBuff.Finish()
+		// the method must not occupy the space of the request target
+		p.startLineBuff.Clear()
+
 		if len(methodValue) == 0 {
 			return Error, nil, status.ErrBadRequest
 		}
-- 
2.43.0


From e250c231105e93759738b2dde6c1d9ee70e5b592 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:44:40 +0000
Subject: [PATCH 16/63] fix: don't panic on a request line without a protocol

---
 internal/protocol/http1/parser.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/protocol/http1/parser.go b/internal/protocol/http1/parser.go
index c86908e..cc1e6cc 100644
--- a/internal/protocol/http1/parser.go
+++ b/internal/protocol/http1/parser.go
@@ -151,7 +151,7 @@ path:
 		}
 
 		reqPath, reqProto := pathAndProto[:sp], pathAndProto[sp+1:]
-		if reqProto[len(reqProto)-1] == '\r' {
+		if len(reqProto) > 0 && reqProto[len(reqProto)-1] == '\r' {
 			reqProto = reqProto[:len(reqProto)-1]
 		}
 
-- 
2.43.0


From 360ca24e891eadc2bc383626289b4e11ec4ca087 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:44:45 +0000
Subject: [PATCH 17/63] fix: refuse protocols other than HTTP/1.x with a
 well-formed response

---
 internal/protocol/http1/parser.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/internal/protocol/http1/parser.go b/internal/protocol/http1/parser.go
index cc1e6cc..225d87f 100644
--- a/internal/protocol/http1/parser.go
+++ b/internal/protocol/http1/parser.go
@@ -171,11 +171,15 @@ path:
 		}
 
 		request.Path = uf.B2S(reqPath)
-		request.Proto = proto.FromBytes(reqProto)
-		if request.Proto == proto.Unknown {
+		protocol := proto.FromBytes(reqProto)
+		if protocol&proto.HTTP1 == 0 {
+			// keep the request's protocol untouched, as the error response is going to
+			// be rendered with it
 			return Error, nil, status.ErrUnsupportedProtocol
 		}
 
+		request.Proto = protocol
+
 		data = data[lf+1:]
 		goto headerKey
 	}
-- 
2.43.0


From 8525f8f2548b3dd102fced29f3fa5e797c3fbb98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:44:50 +0000
Subject: [PATCH 18/63] fix: don't panic on empty header values

---
 internal/protocol/http1/parser.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/protocol/http1/parser.go b/internal/protocol/http1/parser.go
index 225d87f..501cabf 100644
--- a/internal/protocol/http1/parser.go
+++ b/internal/protocol/http1/parser.go
@@ -309,7 +309,7 @@ headerValue:
 
 		data = data[lf+1:]
 		value := uf.B2S(trimPrefixSpaces(headerValueBuff.Finish()))
-		if value[len(value)-1] == '\r' {
+		if len(value) > 0 && value[len(value)-1] == '\r' {
 			value = value[:len(value)-1]
 		}
 
-- 
2.43.0


From 441911474fe2752f030272f1b5801a3759dc1689 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:45:35 +0000
Subject: [PATCH 19/63] fix: reject malformed header lines regardless of how
 the data is split

---
 internal/protocol/http1/parser.go | 28 +++++++++++++++++++---------
 1 file changed, 19 insertions(+), 9 deletions(-)

diff --git a/internal/protocol/http1/parser.go b/internal/protocol/http1/parser.go
index 501cabf..a773c60 100644
--- a/internal/protocol/http1/parser.go
+++ b/internal/protocol/http1/parser.go
@@ -191,17 +191,23 @@ headerKey:
 			return Pending, nil, err
 		}
 
-		switch data[0] {
-		case '\n':
-			p.cleanup()
-
-			return HeadersCompleted, data[1:], nil
-		case '\r':
-			data = data[1:]
-			goto headerValueCRLFCR
+		if headerKeyBuff.SegmentLength() == 0 {
+			// a line break terminates the headers at the beginning of a line only, not
+			// in the middle of a key, whose beginning has already been received
+			switch data[0] {
+			case '\n':
+				p.cleanup()
+
+				return HeadersCompleted, data[1:], nil
+			case '\r':
+				data = data[1:]
+				goto headerValueCRLFCR
+			}
 		}
 
-		colon := bytes.IndexByte(data, ':')
+		// a line without a colon must not be merged with the following one, and whitespaces
+		// are allowed neither before the key nor between the key and the colon
+		colon := bytes.IndexAny(data, ": \t\r\n")
 		if colon == -1 {
 			if !headerKeyBuff.Append(data) {
 				return Error, nil, status.ErrHeaderFieldsTooLarge
@@ -215,6 +221,10 @@ headerKey:
 			return Error, nil, status.ErrHeaderFieldsTooLarge
 		}
 
+		if data[colon] != ':' || headerKeyBuff.SegmentLength() == 0 {
+			return Error, nil, status.ErrBadRequest
+		}
+
 		key := uf.B2S(headerKeyBuff.Finish())
 		p.headerKey = key
 		data = data[colon+1:]
-- 
2.43.0


From 65a3dea0d8f10314c8da6660fa90d22c3a15c8fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:45:40 +0000
Subject: [PATCH 20/63] fix: enforce the limit of header key length

---
 internal/protocol/http1/parser.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/internal/protocol/http1/parser.go b/internal/protocol/http1/parser.go
index a773c60..c280d4f 100644
--- a/internal/protocol/http1/parser.go
+++ b/internal/protocol/http1/parser.go
@@ -209,7 +209,7 @@ headerKey:
 		// are allowed neither before the key nor between the key and the colon
 		colon := bytes.IndexAny(data, ": \t\r\n")
 		if colon == -1 {
-			if !headerKeyBuff.Append(data) {
+			if !headerKeyBuff.Append(data) || headerKeyBuff.SegmentLength() > p.headersCfg.MaxKeyLength {
 				return Error, nil, status.ErrHeaderFieldsTooLarge
 			}
 
@@ -217,7 +217,7 @@ headerKey:
 			return Pending, nil, nil
 		}
 
-		if !headerKeyBuff.Append(data[:colon]) {
+		if !headerKeyBuff.Append(data[:colon]) || headerKeyBuff.SegmentLength() > p.headersCfg.MaxKeyLength {
 			return Error, nil, status.ErrHeaderFieldsTooLarge
 		}
 
-- 
2.43.0


From cd188a37d807ba287a7312971f548323d76fb97c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:46:08 +0000
Subject: [PATCH 21/63] fix: reject ambiguous and overflowing Content-Length
 values

---
 internal/protocol/http1/parser.go | 39 +++++++++++++++++++++++++++++++
 1 file changed, 39 insertions(+)

diff --git a/internal/protocol/http1/parser.go b/internal/protocol/http1/parser.go
index c280d4f..9688818 100644
--- a/internal/protocol/http1/parser.go
+++ b/internal/protocol/http1/parser.go
@@ -12,6 +12,7 @@ import (
 	"github.com/indigo-web/utils/buffer"
 	"github.com/indigo-web/utils/strcomp"
 	"github.com/indigo-web/utils/uf"
+	"math"
 	"strings"
 )
 
@@ -35,6 +36,16 @@ const (
 	eHeaderValueCRLFCR
 )
 
+// contentLengthState tells how much of the Content-Length header has been met so far
+type contentLengthState uint8
+
+const (
+	eNoContentLength contentLengthState = iota
+	eContentLengthBlank
+	eContentLengthDigits
+	eContentLengthComplete
+)
+
 // Parser is a stream-based http requests parser. It modifies
 // request object by pointer in performance purposes. Decodes query-encoded
 // values by its own, you can see that by presented states ePathDecode1Char,
@@ -54,6 +65,8 @@ type Parser struct {
 	contentLength   int
 	urlEncodedChar  uint8
 	state           parserState
+
+	contentLengthState contentLengthState
 }
 
 func NewParser(
@@ -239,6 +252,12 @@ headerKey:
 			) && cLength == encodeU64(
 			key[8]|0x20, key[9]|0x20, key[10]|0x20, key[11]|0x20, key[12]|0x20, key[13]|0x20, 0, 0,
 		) {
+			if p.contentLengthState != eNoContentLength {
+				// differing lengths make the body ambiguous
+				return Error, nil, status.ErrBadRequest
+			}
+
+			p.contentLengthState = eContentLengthBlank
 			goto contentLength
 		}
 
@@ -248,6 +267,10 @@ headerKey:
 contentLength:
 	for i, char := range data {
 		if char == ' ' {
+			if p.contentLengthState == eContentLengthDigits {
+				p.contentLengthState = eContentLengthComplete
+			}
+
 			continue
 		}
 
@@ -256,7 +279,17 @@ contentLength:
 			goto contentLengthEnd
 		}
 
+		if p.contentLengthState == eContentLengthComplete {
+			// spaces in the middle of the number
+			return Error, nil, status.ErrBadRequest
+		}
+
+		if p.contentLength > (math.MaxInt-9)/10 {
+			return Error, nil, status.ErrBodyTooLarge
+		}
+
 		p.contentLength = p.contentLength*10 + int(char-'0')
+		p.contentLengthState = eContentLengthDigits
 	}
 
 	p.state = eContentLength
@@ -267,6 +300,11 @@ contentLengthEnd:
 	// The proof is, that this code is reachable ONLY if loop has reached a non-digit
 	// ascii symbol. In case loop has finished peacefully, as no more data left, but also no
 	// character found to satisfy the exit condition, this code will never be reached
+	if p.contentLengthState == eContentLengthBlank {
+		return Error, nil, status.ErrBadRequest
+	}
+
+	p.contentLengthState = eContentLengthComplete
 	request.ContentLength = p.contentLength
 
 	switch data[0] {
@@ -396,6 +434,7 @@ func (p *Parser) cleanup() {
 	p.headerKeyBuff.Clear()
 	p.headerValueBuff.Clear()
 	p.contentLength = 0
+	p.contentLengthState = eNoContentLength
 	p.encToksBuff = p.encToksBuff[:0]
 	p.contEncToksBuff = p.contEncToksBuff[:0]
 	p.state = eMethod
-- 
2.43.0


From 1ef34610a83bafec7973111218fe8c781ed49282 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:46:13 +0000
Subject: [PATCH 22/63] fix: don't lose encodings listed over multiple headers
 or above the limit

---
 internal/protocol/http1/parser.go | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/internal/protocol/http1/parser.go b/internal/protocol/http1/parser.go
index 9688818..e9c3e38 100644
--- a/internal/protocol/http1/parser.go
+++ b/internal/protocol/http1/parser.go
@@ -396,7 +396,12 @@ headerValue:
 			) && cEncoding == encodeU64(
 				key[8]|0x20, key[9]|0x20, key[10]|0x20, key[11]|0x20, key[12]|0x20, key[13]|0x20, key[14]|0x20, key[15]|0x20,
 			) {
-				request.Encoding.Content, _ = parseEncodingString(p.contEncToksBuff, value, cap(p.contEncToksBuff))
+				toks, _ := parseEncodingString(p.contEncToksBuff, value, cap(p.contEncToksBuff))
+				if toks == nil {
+					return Error, nil, status.ErrUnsupportedEncoding
+				}
+
+				p.contEncToksBuff, request.Encoding.Content = toks, toks
 			}
 		case 17:
 			if cTransfer == encodeU64(
@@ -404,9 +409,14 @@ headerValue:
 			) && cEncodin == encodeU64(
 				key[8]|0x20, key[9]|0x20, key[10]|0x20, key[11]|0x20, key[12]|0x20, key[13]|0x20, key[14]|0x20, key[15]|0x20,
 			) && key[16]|0x20 == 'g' {
-				request.Encoding.Transfer, request.Encoding.Chunked = parseEncodingString(
-					p.encToksBuff, value, cap(p.encToksBuff),
-				)
+				toks, chunked := parseEncodingString(p.encToksBuff, value, cap(p.encToksBuff))
+				if toks == nil {
+					return Error, nil, status.ErrUnsupportedEncoding
+				}
+
+				// the header may be split into multiple ones
+				p.encToksBuff, request.Encoding.Transfer = toks, toks
+				request.Encoding.Chunked = request.Encoding.Chunked || chunked
 			}
 		}
 
-- 
2.43.0


From 0589d86e4753280e081159ef1731977732bf1cfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:46:46 +0000
Subject: [PATCH 23/63] fix: don't render errors of a request by the method and
 protocol of the previous one

---
 http/request.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/http/request.go b/http/request.go
index 8da4fc8..e9e9f50 100644
--- a/http/request.go
+++ b/http/request.go
@@ -171,6 +171,9 @@ func (r *Request) Clear() (err error) {
 		return err
 	}
 
+	r.Method = method.Unknown
+	r.Path = ""
+	r.Proto = proto.HTTP11
 	r.Query.Set(nil)
 	r.Params.Clear()
 	r.Headers.Clear()
-- 
2.43.0


From c9b6bbdfc6d653142060ef8b3b5530545c562118 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:46:51 +0000
Subject: [PATCH 24/63] fix: name the protocol being switched to, once, in
 upgrade responses

---
 internal/protocol/http1/suit.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/internal/protocol/http1/suit.go b/internal/protocol/http1/suit.go
index 813717e..671a0cf 100644
--- a/internal/protocol/http1/suit.go
+++ b/internal/protocol/http1/suit.go
@@ -80,9 +80,10 @@ func (s *Suit) serve(once bool) (ok bool) {
 				s.PreWrite(
 					req.Proto,
 					s.upgradePreResp.
+						Clear().
 						Code(status.SwitchingProtocols).
 						Header("Connection", "upgrade").
-						Header("Upgrade", trimLast(req.Proto.String())),
+						Header("Upgrade", trimLast(req.Upgrade.String())),
 				)
 				version = req.Upgrade
 			}
-- 
2.43.0


From fbafac0151df0d71d8836520e70368d45da31e39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:46:56 +0000
Subject: [PATCH 25/63] fix: restore overridden default headers for the
 following responses

---
 internal/protocol/http1/serializer.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/internal/protocol/http1/serializer.go b/internal/protocol/http1/serializer.go
index 83f86c4..87225f5 100644
--- a/internal/protocol/http1/serializer.go
+++ b/internal/protocol/http1/serializer.go
@@ -81,6 +81,8 @@ func (d *Serializer) PreWrite(protocol proto.Proto, response *http.Response) {
 	d.renderResponseLine(fields)
 	d.renderHeaders(fields)
 	d.crlf()
+	// headers overridden by an informational response aren't overridden by the final one
+	d.defaultHeaders.Reset()
 }
 
 // Write writes the response, keeping in mind difference between 1.0 and 1.1 HTTP versions
@@ -412,7 +414,7 @@ func (d defaultHeaders) Exclude(key string) {
 }
 
 func (d defaultHeaders) Reset() {
-	for _, header := range d {
-		header.Excluded = false
+	for i := range d {
+		d[i].Excluded = false
 	}
 }
-- 
2.43.0


From e8fc9e47e93e8857bd0553ecdafe69756caa87bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:47:01 +0000
Subject: [PATCH 26/63] fix: render custom status texts

---
 internal/protocol/http1/serializer.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/internal/protocol/http1/serializer.go b/internal/protocol/http1/serializer.go
index 87225f5..17838c2 100644
--- a/internal/protocol/http1/serializer.go
+++ b/internal/protocol/http1/serializer.go
@@ -134,7 +134,11 @@ func (d *Serializer) renderResponseLine(fields *response.Fields) {
 	// in case we have a custom response status text or unknown code, fallback to an old way
 	d.buff = strconv.AppendInt(d.buff, int64(fields.Code), 10)
 	d.sp()
-	d.buff = append(d.buff, status.Text(fields.Code)...)
+	if fields.Status != "" {
+		d.buff = append(d.buff, fields.Status...)
+	} else {
+		d.buff = append(d.buff, status.Text(fields.Code)...)
+	}
 	d.crlf()
 }
 
-- 
2.43.0


From dd31f338bbab1958b70bda0e5c17f8bdce6b6594 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:47:51 +0000
Subject: [PATCH 27/63] fix: write exactly as many bytes of an attachment as
 announced

---
 internal/protocol/http1/serializer.go | 33 +++++++++++++++++----------
 1 file changed, 21 insertions(+), 12 deletions(-)

diff --git a/internal/protocol/http1/serializer.go b/internal/protocol/http1/serializer.go
index 17838c2..5ac2d44 100644
--- a/internal/protocol/http1/serializer.go
+++ b/internal/protocol/http1/serializer.go
@@ -200,8 +200,8 @@ func (d *Serializer) sendAttachment(
 		d.fileBuff = make([]byte, d.fileBuffSize)
 	}
 
-	if fields.Attachment.Size() > 0 {
-		err = d.writePlainBody(fields.Attachment.Content(), writer)
+	if size > 0 {
+		err = d.writePlainBody(fields.Attachment.Content(), size, writer)
 	} else {
 		err = d.writeChunkedBody(fields.Attachment.Content(), writer)
 	}
@@ -211,25 +211,34 @@ func (d *Serializer) sendAttachment(
 	return err
 }
 
-func (d *Serializer) writePlainBody(r io.Reader, writer Writer) error {
+// writePlainBody writes exactly size bytes. If the reader contains less, the response is already
+// corrupted, so the only way to let the client know is to close the connection
+func (d *Serializer) writePlainBody(r io.Reader, size int, writer Writer) error {
 	// TODO: implement checking whether r implements io.ReaderAt interface. In case it does
 	//       body may be transferred more efficiently. This requires implementing io.Writer
 	//       *http.ResponseWriter
 
-	for {
-		n, err := r.Read(d.fileBuff)
-		switch err {
-		case nil:
-		case io.EOF:
-			return nil
-		default:
-			return status.ErrCloseConnection
+	for size > 0 {
+		buff := d.fileBuff
+		if len(buff) > size {
+			buff = buff[:size]
 		}
 
-		if err = writer.Write(d.fileBuff[:n]); err != nil {
+		n, err := r.Read(buff)
+		if n > 0 {
+			if err := writer.Write(buff[:n]); err != nil {
+				return status.ErrCloseConnection
+			}
+
+			size -= n
+		}
+
+		if err != nil && size > 0 {
 			return status.ErrCloseConnection
 		}
 	}
+
+	return nil
 }
 
 func (d *Serializer) writeChunkedBody(r io.Reader, writer Writer) error {
-- 
2.43.0


From 213cc6f4bb14d09e14b3d8b2fef72ed1cd24d564 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:47:56 +0000
Subject: [PATCH 28/63] fix: close an attachment even if it isn't sent

---
 internal/protocol/http1/serializer.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/internal/protocol/http1/serializer.go b/internal/protocol/http1/serializer.go
index 5ac2d44..67208f9 100644
--- a/internal/protocol/http1/serializer.go
+++ b/internal/protocol/http1/serializer.go
@@ -171,6 +171,7 @@ func (d *Serializer) sendAttachment(
 	request *http.Request, response *http.Response, writer Writer,
 ) (err error) {
 	fields := response.Reveal()
+	defer fields.Attachment.Close()
 	size := fields.Attachment.Size()
 
 	if size > 0 {
@@ -206,8 +207,6 @@ func (d *Serializer) sendAttachment(
 		err = d.writeChunkedBody(fields.Attachment.Content(), writer)
 	}
 
-	fields.Attachment.Close()
-
 	return err
 }
 
-- 
2.43.0


From 7937a0ad13778511b2d011f9c113f9588f6a93dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:48:01 +0000
Subject: [PATCH 29/63] fix: render cookies of responses with attachments

---
 internal/protocol/http1/serializer.go | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/internal/protocol/http1/serializer.go b/internal/protocol/http1/serializer.go
index 67208f9..0417b6c 100644
--- a/internal/protocol/http1/serializer.go
+++ b/internal/protocol/http1/serializer.go
@@ -101,10 +101,7 @@ func (d *Serializer) Write(
 
 	d.renderHeaders(fields)
 
-	for _, c := range fields.Cookies {
-		d.renderCookie(c)
-	}
-
+	d.renderCookies(fields.Cookies)
 	d.renderContentLength(int64(len(fields.Body)))
 	d.crlf()
 
@@ -181,6 +178,8 @@ func (d *Serializer) sendAttachment(
 		d.renderHeaders(response.TransferEncoding("chunked").Reveal())
 	}
 
+	d.renderCookies(fields.Cookies)
+
 	// now we have to send the body via plain text or chunked transfer encoding.
 	// I'm proposing to make an exception for chunked transfer encoding with a
 	// separate method that'll handle with it by its own. Maybe, even for plain-text
@@ -283,6 +282,12 @@ func (d *Serializer) renderHeader(header headers.Header) {
 	d.crlf()
 }
 
+func (d *Serializer) renderCookies(cookies []cookie.Cookie) {
+	for _, c := range cookies {
+		d.renderCookie(c)
+	}
+}
+
 func (d *Serializer) renderCookie(c cookie.Cookie) {
 	d.buff = append(d.buff, setCookie...)
 	d.buff = append(d.buff, c.Name...)
-- 
2.43.0


From c58f48740c7b9cb8ca9f4bdce34f32688fcba03f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:48:06 +0000
Subject: [PATCH 30/63] fix: close the connection on demand after attachments
 and with unsupported upgrades, too

---
 internal/protocol/http1/serializer.go | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/internal/protocol/http1/serializer.go b/internal/protocol/http1/serializer.go
index 0417b6c..da24a1c 100644
--- a/internal/protocol/http1/serializer.go
+++ b/internal/protocol/http1/serializer.go
@@ -96,7 +96,12 @@ func (d *Serializer) Write(
 	d.renderResponseLine(fields)
 
 	if fields.Attachment.Content() != nil {
-		return d.sendAttachment(d.request, response, d.writer)
+		err = d.sendAttachment(d.request, response, d.writer)
+		if err == nil && d.mustClose(protocol) {
+			err = status.ErrCloseConnection
+		}
+
+		return err
 	}
 
 	d.renderHeaders(fields)
@@ -113,13 +118,18 @@ func (d *Serializer) Write(
 
 	err = d.writer.Write(d.buff)
 
-	if !isKeepAlive(protocol, d.request) && d.request.Upgrade == proto.Unknown {
+	if d.mustClose(protocol) {
 		err = status.ErrCloseConnection
 	}
 
 	return err
 }
 
+// mustClose tells whether the connection must be closed after the response is sent
+func (d *Serializer) mustClose(protocol proto.Proto) bool {
+	return !isKeepAlive(protocol, d.request) && d.request.Upgrade&proto.HTTP1 == 0
+}
+
 func (d *Serializer) renderResponseLine(fields *response.Fields) {
 	statusLine := status.Line(fields.Code)
 
-- 
2.43.0


From b9c8700631ad7146bf32411f713606ef535520c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:48:28 +0000
Subject: [PATCH 31/63] fix: recognize connection options in a list

---
 internal/protocol/http1/serializer.go | 23 +++++++++++++++++++++--
 1 file changed, 21 insertions(+), 2 deletions(-)

diff --git a/internal/protocol/http1/serializer.go b/internal/protocol/http1/serializer.go
index da24a1c..28eed23 100644
--- a/internal/protocol/http1/serializer.go
+++ b/internal/protocol/http1/serializer.go
@@ -13,6 +13,7 @@ import (
 	"io"
 	"log"
 	"strconv"
+	"strings"
 	"time"
 )
 
@@ -390,10 +391,10 @@ func (d *Serializer) clear() {
 func isKeepAlive(protocol proto.Proto, req *http.Request) bool {
 	switch protocol {
 	case proto.HTTP10:
-		return strcomp.EqualFold(req.Connection, "keep-alive")
+		return hasToken(req.Connection, "keep-alive")
 	case proto.HTTP11:
 		// in case of HTTP/1.1, keep-alive may be only disabled
-		return !strcomp.EqualFold(req.Connection, "close")
+		return !hasToken(req.Connection, "close")
 	default:
 		// as the protocol is unknown and the code was probably caused by some sort
 		// of bug, consider closing it
@@ -401,6 +402,24 @@ func isKeepAlive(protocol proto.Proto, req *http.Request) bool {
 	}
 }
 
+// hasToken tells whether the token is among the comma-separated ones of a header value
+func hasToken(value, token string) bool {
+	for len(value) > 0 {
+		var tok string
+		if comma := strings.IndexByte(value, ','); comma == -1 {
+			tok, value = value, ""
+		} else {
+			tok, value = value[:comma], value[comma+1:]
+		}
+
+		if strcomp.EqualFold(strings.TrimSpace(tok), token) {
+			return true
+		}
+	}
+
+	return false
+}
+
 func processDefaultHeaders(hdrs map[string]string) defaultHeaders {
 	processed := make(defaultHeaders, 0, len(hdrs))
 
-- 
2.43.0


From 60fc1b50660a7d3accf235a13508da85bee125be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:48:33 +0000
Subject: [PATCH 32/63] fix: respect the configured size of the file buffer

---
 internal/protocol/http1/suit.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/protocol/http1/suit.go b/internal/protocol/http1/suit.go
index 671a0cf..a7b47fa 100644
--- a/internal/protocol/http1/suit.go
+++ b/internal/protocol/http1/suit.go
@@ -46,7 +46,7 @@ func Initialize(cfg config.Config, r router.Router, client tcp.Client, req *http
 
 	return New(
 		cfg, r, req, client, keyBuff, valBuff, startLineBuff,
-		respBuff, cfg.HTTP.ResponseBuffSize, cfg.Headers.Default,
+		respBuff, cfg.HTTP.FileBuffSize, cfg.Headers.Default,
 	)
 }
 
-- 
2.43.0


From def5bad99f414effffb78026196fd6e2c21a5d68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:48:39 +0000
Subject: [PATCH 33/63] fix: don't leak descriptors of files which can't be
 sent

---
 http/response.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/http/response.go b/http/response.go
index ff98e56..8538538 100644
--- a/http/response.go
+++ b/http/response.go
@@ -133,9 +133,11 @@ func (r *Response) TryFile(path string) (*Response, error) {
 	stat, err := fd.Stat()
 	if err != nil {
 		// ...and if we can't get stats on it, it exists, however something in system went wrong
+		_ = fd.Close()
 		return r, status.ErrInternalServerError
 	}
 	if stat.IsDir() {
+		_ = fd.Close()
 		return r, status.ErrNotFound
 	}
 
-- 
2.43.0


From 73a5cf3fb1272f13b7dac99a66529f9eef01cf25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:48:44 +0000
Subject: [PATCH 34/63] fix: fill the pre-allocation of cookies with the
 default value

---
 config/config.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/config/config.go b/config/config.go
index d2c8e39..c90543e 100644
--- a/config/config.go
+++ b/config/config.go
@@ -196,6 +196,9 @@ func Fill(src Config) (new Config) {
 			},
 			MaxEncodingTokens: numOr(src.Headers.MaxEncodingTokens, defaults.Headers.MaxEncodingTokens),
 			Default:           mapOr(src.Headers.Default, defaults.Headers.Default),
+			CookiesPreAllocate: numOr(
+				src.Headers.CookiesPreAllocate, defaults.Headers.CookiesPreAllocate,
+			),
 		},
 		Body: Body{
 			MaxSize:            numOr(src.Body.MaxSize, defaults.Body.MaxSize),
-- 
2.43.0


From 04e0941038c0e4baa71a8e410cd22142a6ae10d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:49:42 +0000
Subject: [PATCH 35/63] fix: check the size of a body before allocating memory
 for it

---
 internal/protocol/http1/body.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/internal/protocol/http1/body.go b/internal/protocol/http1/body.go
index 8854029..5c96a9d 100644
--- a/internal/protocol/http1/body.go
+++ b/internal/protocol/http1/body.go
@@ -61,7 +61,7 @@ func (b *Body) Bytes() ([]byte, error) {
 	}
 
 	// FIXME: this barely works with applied transfer-encodings
-	if !b.isChunked && cap(b.fullBodyBuff) < b.contentLength {
+	if !b.isChunked && cap(b.fullBodyBuff) < b.contentLength && uint(b.contentLength) <= b.plain.maxBodyLen {
 		b.fullBodyBuff = make([]byte, 0, b.contentLength)
 	}
 
@@ -160,15 +160,15 @@ func (p *plainBodyReader) read() (body []byte, err error) {
 		return nil, io.EOF
 	}
 
+	if p.bytesLeft > p.maxBodyLen {
+		return nil, status.ErrBodyTooLarge
+	}
+
 	data, err := p.client.Read()
 	if err != nil {
 		return nil, err
 	}
 
-	if p.bytesLeft > p.maxBodyLen {
-		return nil, status.ErrBodyTooLarge
-	}
-
 	if dataLen := uint(len(data)); dataLen >= p.bytesLeft {
 		body, data = data[:p.bytesLeft], data[p.bytesLeft:]
 		p.client.Unread(data)
-- 
2.43.0


From 6b81bb17f3ad95aaa185abd3330641f9c56df29f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:49:47 +0000
Subject: [PATCH 36/63] fix: don't expose the body of a previous request

---
 internal/protocol/http1/body.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/internal/protocol/http1/body.go b/internal/protocol/http1/body.go
index 5c96a9d..7044be2 100644
--- a/internal/protocol/http1/body.go
+++ b/internal/protocol/http1/body.go
@@ -46,6 +46,7 @@ func (b *Body) Init(request *http.Request) {
 	}
 
 	b.eof = false
+	b.fullBodyBuff = b.fullBodyBuff[:0]
 	b.Reader.Reset()
 }
 
-- 
2.43.0


From 82811ea21202a85c7bffeca67f872c59529c58ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:49:53 +0000
Subject: [PATCH 37/63] fix: don't continue reading a broken body

---
 internal/protocol/http1/body.go | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/internal/protocol/http1/body.go b/internal/protocol/http1/body.go
index 7044be2..f9ff080 100644
--- a/internal/protocol/http1/body.go
+++ b/internal/protocol/http1/body.go
@@ -22,6 +22,7 @@ type Body struct {
 	contentLength int
 	fullBodyBuff  []byte
 	eof           bool
+	error         error
 }
 
 func NewBody(
@@ -46,6 +47,7 @@ func (b *Body) Init(request *http.Request) {
 	}
 
 	b.eof = false
+	b.error = nil
 	b.fullBodyBuff = b.fullBodyBuff[:0]
 	b.Reader.Reset()
 }
@@ -103,6 +105,11 @@ func (b *Body) Retrieve() ([]byte, error) {
 		return nil, io.EOF
 	}
 
+	if b.error != nil {
+		// the position in the stream is lost, so nothing can be read further
+		return nil, b.error
+	}
+
 	var (
 		piece []byte
 		err   error
@@ -114,7 +121,7 @@ func (b *Body) Retrieve() ([]byte, error) {
 		piece, err = b.plain.read()
 	}
 
-	b.checkEOF(err)
+	b.checkError(err)
 
 	return piece, err
 }
@@ -134,9 +141,13 @@ func (b *Body) Discard() (err error) {
 	return err
 }
 
-func (b *Body) checkEOF(err error) {
-	if err == io.EOF {
+func (b *Body) checkError(err error) {
+	switch err {
+	case nil:
+	case io.EOF:
 		b.eof = true
+	default:
+		b.error = err
 	}
 }
 
-- 
2.43.0


From f055b3e2b4d1f4999d7108c1ad9662a7b1ab8eb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:50:20 +0000
Subject: [PATCH 38/63] fix: don't take a body cut by the end of the connection
 for a complete one

---
 internal/protocol/http1/body.go | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/internal/protocol/http1/body.go b/internal/protocol/http1/body.go
index f9ff080..2dbede6 100644
--- a/internal/protocol/http1/body.go
+++ b/internal/protocol/http1/body.go
@@ -178,7 +178,7 @@ func (p *plainBodyReader) read() (body []byte, err error) {
 
 	data, err := p.client.Read()
 	if err != nil {
-		return nil, err
+		return nil, unexpectedEOF(err)
 	}
 
 	if dataLen := uint(len(data)); dataLen >= p.bytesLeft {
@@ -218,7 +218,7 @@ func (c *chunkedBodyReader) read() (body []byte, err error) {
 	client := c.client
 	data, err := client.Read()
 	if err != nil {
-		return nil, err
+		return nil, unexpectedEOF(err)
 	}
 
 	chunk, extra, err := c.parser.Parse(data, c.encoding.HasTrailer)
@@ -239,6 +239,15 @@ func (c *chunkedBodyReader) read() (body []byte, err error) {
 	return chunk, err
 }
 
+// unexpectedEOF distinguishes the end of the connection from the end of the body
+func unexpectedEOF(err error) error {
+	if err == io.EOF {
+		return io.ErrUnexpectedEOF
+	}
+
+	return err
+}
+
 func adduint(x, y uint) (uint, bool) {
 	return x + y, math.MaxUint-x < y
 }
-- 
2.43.0


From 174f9085a0cf436790e6632afd9ecdf0311dc98e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:50:25 +0000
Subject: [PATCH 39/63] fix: don't call the body callback without data

---
 internal/protocol/http1/body.go | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/internal/protocol/http1/body.go b/internal/protocol/http1/body.go
index 2dbede6..7d5d534 100644
--- a/internal/protocol/http1/body.go
+++ b/internal/protocol/http1/body.go
@@ -86,17 +86,19 @@ func (b *Body) Bytes() ([]byte, error) {
 func (b *Body) Callback(cb http.OnBodyCallback) error {
 	for {
 		data, err := b.Retrieve()
+		if len(data) > 0 {
+			if err := cb(data); err != nil {
+				return err
+			}
+		}
+
 		switch err {
 		case nil:
 		case io.EOF:
-			return cb(data)
+			return nil
 		default:
 			return err
 		}
-
-		if err = cb(data); err != nil {
-			return err
-		}
 	}
 }
 
-- 
2.43.0


From 6d0acc41898942fc5628c7cc537d5968b04bc1a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:50:30 +0000
Subject: [PATCH 40/63] fix: don't lose data of a body left by Read

---
 internal/protocol/http1/body.go | 15 ++++++++++-----
 internal/stash/reader.go        |  8 ++++++++
 2 files changed, 18 insertions(+), 5 deletions(-)

diff --git a/internal/protocol/http1/body.go b/internal/protocol/http1/body.go
index 7d5d534..42244f6 100644
--- a/internal/protocol/http1/body.go
+++ b/internal/protocol/http1/body.go
@@ -21,6 +21,7 @@ type Body struct {
 	isChunked     bool
 	contentLength int
 	fullBodyBuff  []byte
+	full          bool
 	eof           bool
 	error         error
 }
@@ -46,6 +47,7 @@ func (b *Body) Init(request *http.Request) {
 		b.plain.init(request)
 	}
 
+	b.full = false
 	b.eof = false
 	b.error = nil
 	b.fullBodyBuff = b.fullBodyBuff[:0]
@@ -59,7 +61,7 @@ func (b *Body) String() (string, error) {
 }
 
 func (b *Body) Bytes() ([]byte, error) {
-	if b.eof {
+	if b.full {
 		return b.fullBodyBuff, nil
 	}
 
@@ -76,6 +78,7 @@ func (b *Body) Bytes() ([]byte, error) {
 		switch err {
 		case nil:
 		case io.EOF:
+			b.full = true
 			return b.fullBodyBuff, nil
 		default:
 			return nil, err
@@ -103,6 +106,11 @@ func (b *Body) Callback(cb http.OnBodyCallback) error {
 }
 
 func (b *Body) Retrieve() ([]byte, error) {
+	if pending := b.Reader.Drain(); len(pending) > 0 {
+		// Read may have left some data
+		return pending, nil
+	}
+
 	if b.eof {
 		return nil, io.EOF
 	}
@@ -129,11 +137,8 @@ func (b *Body) Retrieve() ([]byte, error) {
 }
 
 func (b *Body) Discard() (err error) {
-	for !b.eof {
+	for err == nil {
 		_, err = b.Retrieve()
-		if err != nil {
-			break
-		}
 	}
 
 	if err == io.EOF {
diff --git a/internal/stash/reader.go b/internal/stash/reader.go
index d600559..3a3c790 100644
--- a/internal/stash/reader.go
+++ b/internal/stash/reader.go
@@ -34,6 +34,14 @@ func (r *Reader) refill() {
 	r.pending, r.error = r.source()
 }
 
+// Drain returns the data which was obtained from the source, but not read yet
+func (r *Reader) Drain() []byte {
+	pending := r.pending
+	r.pending = nil
+
+	return pending
+}
+
 func (r *Reader) Reset() {
 	r.pending = nil
 	r.error = nil
-- 
2.43.0


From 85d1f014d113a06c1e2d24cf572842d75299e76d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:51:05 +0000
Subject: [PATCH 41/63] fix: don't lose the data which comes together with an
 error of the connection

---
 internal/tcp/client.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/internal/tcp/client.go b/internal/tcp/client.go
index 6621024..7a55b3f 100644
--- a/internal/tcp/client.go
+++ b/internal/tcp/client.go
@@ -18,6 +18,7 @@ type client struct {
 	conn    net.Conn
 	buff    []byte
 	pending []byte
+	err     error
 	timeout time.Duration
 }
 
@@ -40,11 +41,22 @@ func (c *client) Read() ([]byte, error) {
 		return pending, nil
 	}
 
+	if err := c.err; err != nil {
+		c.err = nil
+
+		return nil, err
+	}
+
 	if err := c.conn.SetReadDeadline(time.Now().Add(c.timeout)); err != nil {
 		return nil, err
 	}
 
 	n, err := c.conn.Read(c.buff)
+	if n > 0 && err != nil {
+		// a connection may return the last data together with the error. Let the data
+		// be processed first
+		c.err, err = err, nil
+	}
 
 	return c.buff[:n], err
 }
-- 
2.43.0


From 619084795419954150c2f025c397cb03e7dfd7f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:51:57 +0000
Subject: [PATCH 42/63] fix: split the query into pairs before decoding them

---
 http/query/internal/parser.go | 78 ++++++++++++++++-------------------
 1 file changed, 35 insertions(+), 43 deletions(-)

diff --git a/http/query/internal/parser.go b/http/query/internal/parser.go
index 6182084..72bf62f 100644
--- a/http/query/internal/parser.go
+++ b/http/query/internal/parser.go
@@ -1,6 +1,7 @@
 package internal
 
 import (
+	"bytes"
 	"github.com/indigo-web/indigo/http/status"
 	"github.com/indigo-web/indigo/internal/keyvalue"
 	"github.com/indigo-web/indigo/internal/uridecode"
@@ -10,62 +11,53 @@ import (
 // replace empty value (or so-called parameter without value) with the following string
 const defaultEmptyValueContent = "1"
 
+// Parse splits the query into pairs, which are decoded afterwards. Therefore, encoded separators
+// belong to keys and values. Data is modified in-place
 func Parse(data []byte, params *keyvalue.Storage) (err error) {
-	if len(data) == 0 {
-		return nil
-	}
-
-	data, err = uridecode.Decode(data, data[:0])
-	if err != nil {
-		return err
-	}
-
-	var key string
+	for len(data) > 0 {
+		var pair []byte
+		pair, data, _ = cut(data, '&')
+		key, value, hasValue := cut(pair, '=')
+		if hasValue && len(key) == 0 {
+			return status.ErrBadQuery
+		}
 
-parseKey:
-	if len(data) == 0 {
-		return nil
-	}
+		if key, err = decode(key); err != nil {
+			return err
+		}
 
-	for i := range data {
-		switch data[i] {
-		case '=':
-			key = uf.B2S(data[:i])
-			if len(key) == 0 {
-				return status.ErrBadQuery
-			}
+		if !hasValue {
+			params.Add(uf.B2S(key), defaultEmptyValueContent)
+			continue
+		}
 
-			data = data[i+1:]
-			goto parseValue
-		case '&':
-			params.Add(uf.B2S(data[:i]), defaultEmptyValueContent)
-			data = data[i+1:]
-			goto parseKey
-		case '+':
-			data[i] = ' '
+		// ignore the fact that the value may be empty. In case there's no equal sign, we
+		// definitely know it's a flag and is supposed to be like that. However, if there's
+		// an equal mark, we cannot be sure it wasn't on purpose. So just let a user judge
+		if value, err = decode(value); err != nil {
+			return err
 		}
-	}
 
-	params.Add(uf.B2S(data), defaultEmptyValueContent)
+		params.Add(uf.B2S(key), uf.B2S(value))
+	}
 
 	return nil
+}
 
-parseValue:
+func decode(data []byte) ([]byte, error) {
 	for i := range data {
-		switch data[i] {
-		case '&':
-			// ignore the fact that the value may be empty. In case there's no equal sign, we
-			// definitely know it's a flag and is supposed to be like that. However, if there's
-			// an equal mark, we cannot be sure it wasn't on purpose. So just let a user judge
-			params.Add(key, uf.B2S(data[:i]))
-			data = data[i+1:]
-			goto parseKey
-		case '+':
+		if data[i] == '+' {
 			data[i] = ' '
 		}
 	}
 
-	params.Add(key, uf.B2S(data))
+	return uridecode.Decode(data, data[:0])
+}
 
-	return nil
+func cut(data []byte, sep byte) (before, after []byte, found bool) {
+	if i := bytes.IndexByte(data, sep); i != -1 {
+		return data[:i], data[i+1:], true
+	}
+
+	return data, nil, false
 }
-- 
2.43.0


From 5004f2da8c449acc4616afaaaa30a2382bcc0bc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:52:03 +0000
Subject: [PATCH 43/63] fix: report query errors on every access and keep the
 raw query intact

---
 http/query/query.go | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/http/query/query.go b/http/query/query.go
index 0b9ab15..9486288 100644
--- a/http/query/query.go
+++ b/http/query/query.go
@@ -16,6 +16,8 @@ type Query struct {
 	parsed bool
 	params Params
 	raw    []byte
+	buff   []byte
+	err    error
 }
 
 func New(underlying *keyvalue.Storage) *Query {
@@ -32,6 +34,7 @@ func (q *Query) Set(raw []byte) {
 
 	if q.parsed {
 		q.parsed = false
+		q.err = nil
 		q.params.Clear()
 	}
 }
@@ -56,7 +59,11 @@ func (q *Query) Get(key string) (value string, err error) {
 
 // Unwrap returns all query parameters. If error occurred, nil parameters will be returned
 func (q *Query) Unwrap() (Params, error) {
-	return q.params, q.parse()
+	if err := q.parse(); err != nil {
+		return nil, err
+	}
+
+	return q.params, nil
 }
 
 // Raw just returns a raw value of query as it is
@@ -66,10 +73,13 @@ func (q *Query) Raw() []byte {
 
 func (q *Query) parse() error {
 	if q.parsed {
-		return nil
+		return q.err
 	}
 
 	q.parsed = true
+	// decoding is done in-place, so let the raw value stay as it is
+	q.buff = append(q.buff[:0], q.raw...)
+	q.err = internal.Parse(q.buff, q.params)
 
-	return internal.Parse(q.raw, q.params)
+	return q.err
 }
-- 
2.43.0


From 37ab6f8044002decd4e8becc38b8a5767016a4e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:52:08 +0000
Subject: [PATCH 44/63] fix: copy the strings when cloning a storage

---
 internal/keyvalue/storage.go | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/internal/keyvalue/storage.go b/internal/keyvalue/storage.go
index 0cff996..8569efe 100644
--- a/internal/keyvalue/storage.go
+++ b/internal/keyvalue/storage.go
@@ -3,6 +3,7 @@ package keyvalue
 import (
 	"github.com/indigo-web/iter"
 	"github.com/indigo-web/utils/strcomp"
+	"strings"
 )
 
 type Pair struct {
@@ -147,10 +148,17 @@ func (s *Storage) Len() int {
 // Clone creates a deep copy, which may be used later or stored somewhere safely. However,
 // it comes at cost of multiple allocations
 func (s *Storage) Clone() *Storage {
+	pairs := clone(s.pairs)
+	for i, pair := range pairs {
+		// strings may refer to a buffer, which is going to be reused
+		pairs[i] = Pair{
+			Key:   strings.Clone(pair.Key),
+			Value: strings.Clone(pair.Value),
+		}
+	}
+
 	return &Storage{
-		pairs:      clone(s.pairs),
-		uniqueBuff: clone(s.uniqueBuff),
-		valuesBuff: clone(s.valuesBuff),
+		pairs: pairs,
 	}
 }
 
-- 
2.43.0


From 63ffe08ffd304b87c2563ab07321b3bbcfeb219a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:53:39 +0000
Subject: [PATCH 45/63] fix: parse every section of a path template

---
 router/inbuilt/internal/radix/template.go | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/router/inbuilt/internal/radix/template.go b/router/inbuilt/internal/radix/template.go
index 26b267b..d40c50c 100644
--- a/router/inbuilt/internal/radix/template.go
+++ b/router/inbuilt/internal/radix/template.go
@@ -31,7 +31,7 @@ func Parse(tmpl string) (Template, error) {
 	var (
 		offset   = 1
 		template = Template{}
-		state    = eStatic
+		state    = eSlash
 	)
 
 	if len(tmpl) == 0 {
@@ -62,6 +62,11 @@ func Parse(tmpl string) (Template, error) {
 		case eSlash:
 			switch tmpl[i] {
 			case '/':
+				template.segments = append(template.segments, Segment{
+					IsWildcard: false,
+					Payload:    "",
+				})
+				offset = i + 1
 			case '{':
 				offset = i + 1
 				state = eDynamic
@@ -96,7 +101,10 @@ func Parse(tmpl string) (Template, error) {
 		}
 	}
 
-	if state == eStatic && offset < len(tmpl)-1 {
+	switch state {
+	case eDynamic:
+		return template, fmt.Errorf(`"%s": the last dynamic part is not closed`, tmpl)
+	case eStatic:
 		template.segments = append(template.segments, Segment{
 			IsWildcard: false,
 			Payload:    tmpl[offset:],
-- 
2.43.0


From 3249d2343f4071821b6805dbae46107eb4559814 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:53:45 +0000
Subject: [PATCH 46/63] fix: don't consider the root path registered if it
 isn't

---
 router/inbuilt/internal/radix/tree.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/router/inbuilt/internal/radix/tree.go b/router/inbuilt/internal/radix/tree.go
index e881fd9..1a8567b 100644
--- a/router/inbuilt/internal/radix/tree.go
+++ b/router/inbuilt/internal/radix/tree.go
@@ -29,7 +29,7 @@ type Node struct {
 }
 
 func New() *Node {
-	return newNode(new(Payload), false, "")
+	return newNode(nil, false, "")
 }
 
 func newNode(payload *Payload, isDyn bool, dynName string) *Node {
-- 
2.43.0


From 3d239ecb3f7ebe0472450eeee067acd554aeb58c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:54:04 +0000
Subject: [PATCH 47/63] fix: map requested paths to static files properly

---
 router/inbuilt/static.go | 23 +++++++++++++++++------
 1 file changed, 17 insertions(+), 6 deletions(-)

diff --git a/router/inbuilt/static.go b/router/inbuilt/static.go
index de258b9..260c5fa 100644
--- a/router/inbuilt/static.go
+++ b/router/inbuilt/static.go
@@ -4,25 +4,36 @@ import (
 	"github.com/indigo-web/indigo/http"
 	"github.com/indigo-web/indigo/http/status"
 	"github.com/indigo-web/indigo/internal/pathlib"
+	"path"
 	"strings"
 )
 
 // Static adds a catcher of prefix, that automatically returns files from defined root
 // directory
 func (r *Router) Static(prefix, root string, mwares ...Middleware) *Router {
+	// on groups, requested paths contain prefix of the group, too
+	fullPrefix := path.Join(r.prefix, prefix)
+	replacer := *pathlib.NewPath(fullPrefix, root)
+
 	return r.Catch(prefix, func(request *http.Request) *http.Response {
-		// requests are processed concurrently, so the replacer can't be shared
-		pathReplacer := pathlib.NewPath(prefix, root)
-		pathReplacer.Set(request.Path)
-		path := pathReplacer.Relative()
-		if !isSafe(path) {
+		if !isBelow(request.Path, fullPrefix) || !isSafe(request.Path) {
 			return http.Error(request, status.ErrNotFound)
 		}
 
-		return request.Respond().File(path)
+		// requests are processed concurrently, so the replacer can't be shared
+		pathReplacer := replacer
+		pathReplacer.Set(request.Path)
+
+		return request.Respond().File(pathReplacer.Relative())
 	}, mwares...)
 }
 
+// isBelow checks whether the prefix, which the path is known to begin with, consists of whole
+// path sections
+func isBelow(path, prefix string) bool {
+	return strings.HasSuffix(prefix, "/") || (len(path) > len(prefix) && path[len(prefix)] == '/')
+}
+
 // isSafe checks for path traversal (basically - double dots)
 func isSafe(path string) bool {
 	for len(path) > 0 {
-- 
2.43.0


From 5c70c55dfd5d4b4c62058179e40eb956a8c31c89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:54:56 +0000
Subject: [PATCH 48/63] fix: don't merge a malformed cookie with the following
 one

---
 http/cookie/jar.go | 30 ++++++++++--------------------
 1 file changed, 10 insertions(+), 20 deletions(-)

diff --git a/http/cookie/jar.go b/http/cookie/jar.go
index eadfe2f..9a80e3e 100644
--- a/http/cookie/jar.go
+++ b/http/cookie/jar.go
@@ -25,32 +25,22 @@ var ErrBadCookie = errors.New("cookie has a malformed syntax")
 // so the function isn't applicable for Set-Cookie values
 func Parse(jar Jar, data string) (err error) {
 	for len(data) > 0 {
-		eq := strings.IndexByte(data, '=')
-		if eq == -1 {
-			break
-		}
-
-		key := data[:eq]
-		data = data[eq+1:]
-
-		if len(key) == 0 {
-			return ErrBadCookie
-		}
-
-		var value string
+		var pair string
 
 		if cs := strings.IndexByte(data, ';'); cs != -1 {
-			value, data = data[:cs], stripSpace(data[cs+1:])
+			pair, data = data[:cs], stripSpace(data[cs+1:])
 		} else {
-			value, data = data, ""
+			pair, data = data, ""
 		}
 
-		// empty value is fine (probably, I have no idea if it's so)
-		jar.Add(key, value)
-	}
+		eq := strings.IndexByte(pair, '=')
+		if eq < 1 {
+			// there's either no value at all or an empty key
+			return ErrBadCookie
+		}
 
-	if len(data) != 0 {
-		return ErrBadCookie
+		// empty value is fine (probably, I have no idea if it's so)
+		jar.Add(pair[:eq], pair[eq+1:])
 	}
 
 	return nil
-- 
2.43.0


From 9e2baa599c5430c044e4ec3df963ea73ae617ecf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:55:01 +0000
Subject: [PATCH 49/63] fix: don't render JSON over the memory of a previously
 set body

---
 http/response.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/http/response.go b/http/response.go
index 8538538..9c6f2b6 100644
--- a/http/response.go
+++ b/http/response.go
@@ -176,7 +176,8 @@ func (r *Response) Cookie(cookies ...cookie.Cookie) *Response {
 // TryJSON receives a model (must be a pointer to the structure) and returns a new Response
 // object and an error
 func (r *Response) TryJSON(model any) (*Response, error) {
-	r.fields.Body = r.fields.Body[:0]
+	// the previous body isn't ours, so it must not be overridden
+	r.fields.Body = nil
 	stream := json.ConfigDefault.BorrowStream(r)
 	stream.WriteVal(model)
 	err := stream.Flush()
-- 
2.43.0


From e8c25847eac72787583345d21fb5b747531203ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:55:05 +0000
Subject: [PATCH 50/63] fix: escape every byte of multibyte characters

---
 http/path.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/http/path.go b/http/path.go
index a57c967..f767b64 100644
--- a/http/path.go
+++ b/http/path.go
@@ -10,7 +10,7 @@ func Escape(p Path) string {
 		offset int
 	)
 
-	for i := range p {
+	for i := 0; i < len(p); i++ {
 		if !isASCIIPrintable(p[i]) {
 			if buff == nil {
 				buff = allocBuff(len(p))
-- 
2.43.0


From e7473603ba173759692a7f343727642eba9564c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:55:09 +0000
Subject: [PATCH 51/63] fix: find parameters of header values behind
 whitespaces

---
 http/headers/valueaccessors.go | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/http/headers/valueaccessors.go b/http/headers/valueaccessors.go
index c103137..9bea7cb 100644
--- a/http/headers/valueaccessors.go
+++ b/http/headers/valueaccessors.go
@@ -51,10 +51,20 @@ func ParamOfOr(str, key, or string) string {
 }
 
 func getParam(str, substr, or string) string {
-	if index := strings.Index(str, substr); index != -1 {
-		valOffset := index + len(substr)
+	for len(str) > 0 {
+		index := strings.IndexByte(str, ';')
+		if index == -1 {
+			break
+		}
 
-		return str[valOffset : valOffset+getParamEnd(str[valOffset:])]
+		// parameters are usually separated by whitespaces, too. The substring begins
+		// with a semicolon
+		str = strings.TrimLeft(str[index+1:], " \t")
+		if strings.HasPrefix(str, substr[1:]) {
+			value := str[len(substr)-1:]
+
+			return value[:getParamEnd(value)]
+		}
 	}
 
 	return or
-- 
2.43.0


From 9a53318019a652d31e39df21b95c3f8e15fe6f3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:55:34 +0000
Subject: [PATCH 52/63] fix: escape the path in the location of HTTPS redirects

---
 router/inbuilt/middleware/httpsonly.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/router/inbuilt/middleware/httpsonly.go b/router/inbuilt/middleware/httpsonly.go
index 727d97b..84f4d04 100644
--- a/router/inbuilt/middleware/httpsonly.go
+++ b/router/inbuilt/middleware/httpsonly.go
@@ -5,6 +5,7 @@ import (
 	"github.com/indigo-web/indigo/http/encryption"
 	"github.com/indigo-web/indigo/http/status"
 	"github.com/indigo-web/indigo/router/inbuilt"
+	"net/url"
 	"strings"
 )
 
@@ -39,10 +40,11 @@ func HTTPSOnly(optionalParams ...HTTPOnlyParams) inbuilt.Middleware {
 		}
 
 		host += ":" + params.Port
+		// the path is already decoded, so may contain anything, including line breaks
 		if len(request.Env.AliasFrom) > 0 {
-			host += request.Env.AliasFrom
+			host += escapePath(request.Env.AliasFrom)
 		} else {
-			host += request.Path
+			host += escapePath(request.Path)
 		}
 
 		return request.Respond().
@@ -51,6 +53,10 @@ func HTTPSOnly(optionalParams ...HTTPOnlyParams) inbuilt.Middleware {
 	}
 }
 
+func escapePath(path string) string {
+	return (&url.URL{Path: path}).EscapedPath()
+}
+
 func removePort(str string) string {
 	if colon := strings.IndexByte(str, ':'); colon != -1 {
 		return str[:colon]
-- 
2.43.0


From 4ad34bfce0cd7ee70d236b469f525b24662cd0a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:55:39 +0000
Subject: [PATCH 53/63] fix: reject bare carriage returns

---
 internal/protocol/http1/parser.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/internal/protocol/http1/parser.go b/internal/protocol/http1/parser.go
index e9c3e38..f819151 100644
--- a/internal/protocol/http1/parser.go
+++ b/internal/protocol/http1/parser.go
@@ -168,6 +168,10 @@ path:
 			reqProto = reqProto[:len(reqProto)-1]
 		}
 
+		if bytes.IndexByte(reqPath, '\r') != -1 {
+			return Error, nil, status.ErrBadRequest
+		}
+
 		query := bytes.IndexByte(reqPath, '?')
 		if query != -1 {
 			request.Query.Set(reqPath[query+1:])
@@ -361,6 +365,10 @@ headerValue:
 			value = value[:len(value)-1]
 		}
 
+		if strings.IndexByte(value, '\r') != -1 {
+			return Error, nil, status.ErrBadRequest
+		}
+
 		key := p.headerKey
 		request.Headers.Add(key, value)
 
-- 
2.43.0


From 0e68dc511fbd071bc50a9acc17b42055dbca7b5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:33:26 +0000
Subject: [PATCH 54/63] fix: let a router be initialized multiple times

Initialization merged the groups into the router and wrapped the handlers
in place. So a router serving two virtual hosts either ran every middleware
twice or panicked because of already registered routes of groups.
---
 router/inbuilt/inbuilt.go | 23 +++++++++++++++++++++++
 1 file changed, 23 insertions(+)

diff --git a/router/inbuilt/inbuilt.go b/router/inbuilt/inbuilt.go
index 908df22..2663088 100644
--- a/router/inbuilt/inbuilt.go
+++ b/router/inbuilt/inbuilt.go
@@ -56,6 +56,9 @@ type runtimeRouter struct {
 }
 
 func (r *Router) Initialize() router.Router {
+	// preparing the router alters it, however the same router may be initialized multiple
+	// times, e.g. when it serves different virtual hosts
+	r = r.clone()
 	r.applyErrorHandlersMiddlewares()
 
 	if err := r.prepare(); err != nil {
@@ -180,6 +183,26 @@ func (r *runtimeRouter) retrieveErrorHandler(code status.Code) Handler {
 	return handler
 }
 
+func (r *Router) clone() *Router {
+	copied := *r
+	copied.mutators = append([]Mutator(nil), r.mutators...)
+	copied.catchers = append([]Catcher(nil), r.catchers...)
+	copied.registrar = newRegistrar()
+	// can't fail, as there are no routes yet
+	_ = copied.registrar.Merge(r.registrar)
+	copied.errHandlers = make(errorHandlers, len(r.errHandlers))
+	for code, handler := range r.errHandlers {
+		copied.errHandlers[code] = handler
+	}
+
+	copied.children = make([]*Router, 0, len(r.children))
+	for _, child := range r.children {
+		copied.children = append(copied.children, child.clone())
+	}
+
+	return &copied
+}
+
 func (r *Router) applyErrorHandlersMiddlewares() {
 	for code, handler := range r.errHandlers {
 		r.errHandlers[code] = compose(handler, r.middlewares)
-- 
2.43.0


From d530f47e23c27097d790924ad639412032736b4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:45:52 +0000
Subject: [PATCH 55/63] fix: don't write to a connection hijacked by an error
 handler

---
 internal/protocol/http1/suit.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/internal/protocol/http1/suit.go b/internal/protocol/http1/suit.go
index a7b47fa..3af3f53 100644
--- a/internal/protocol/http1/suit.go
+++ b/internal/protocol/http1/suit.go
@@ -113,6 +113,12 @@ func (s *Suit) serve(once bool) (ok bool) {
 			// as fatal error already happened and connection will anyway be closed, we don't
 			// care about any socket errors anymore
 			resp := notNil(req, s.router.OnError(req, err))
+
+			if req.WasHijacked() {
+				// error handlers are free to hijack the connection, too
+				return false
+			}
+
 			_ = s.Write(req.Proto, resp)
 			return false
 		default:
-- 
2.43.0


From ff636ec89a1bdec2d3ad75d5c07bbd54ba466d14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:02:20 +0000
Subject: [PATCH 56/63] fix: don't take colons of IPv6 hosts for a port when
 redirecting to HTTPS

---
 router/inbuilt/middleware/httpsonly.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/router/inbuilt/middleware/httpsonly.go b/router/inbuilt/middleware/httpsonly.go
index 84f4d04..36b4ae4 100644
--- a/router/inbuilt/middleware/httpsonly.go
+++ b/router/inbuilt/middleware/httpsonly.go
@@ -58,7 +58,8 @@ func escapePath(path string) string {
 }
 
 func removePort(str string) string {
-	if colon := strings.IndexByte(str, ':'); colon != -1 {
+	// colons in brackets are a part of an IPv6 address
+	if colon := strings.LastIndexByte(str, ':'); colon > strings.LastIndexByte(str, ']') {
 		return str[:colon]
 	}
 
-- 
2.43.0


From 534870178f9474dd353185561cfcb8efa977d069 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:02:21 +0000
Subject: [PATCH 57/63] fix: keep the query when redirecting to HTTPS

---
 router/inbuilt/middleware/httpsonly.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/router/inbuilt/middleware/httpsonly.go b/router/inbuilt/middleware/httpsonly.go
index 36b4ae4..d7eb89c 100644
--- a/router/inbuilt/middleware/httpsonly.go
+++ b/router/inbuilt/middleware/httpsonly.go
@@ -47,6 +47,10 @@ func HTTPSOnly(optionalParams ...HTTPOnlyParams) inbuilt.Middleware {
 			host += escapePath(request.Path)
 		}
 
+		if query := request.Query.Raw(); len(query) > 0 {
+			host += "?" + string(query)
+		}
+
 		return request.Respond().
 			Code(status.MovedPermanently).
 			Header("Location", "https://"+host)
-- 
2.43.0


From 295c29fe4c9f100dfad568451dc03ffcc6c1e89f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:02:22 +0000
Subject: [PATCH 58/63] fix: don't panic in middlewares if a handler returns
 nil

---
 router/inbuilt/middleware/logging.go      | 11 ++++++++++-
 router/inbuilt/middleware/serverheader.go |  2 +-
 2 files changed, 11 insertions(+), 2 deletions(-)

diff --git a/router/inbuilt/middleware/logging.go b/router/inbuilt/middleware/logging.go
index d7fc2a9..ad4b2b9 100644
--- a/router/inbuilt/middleware/logging.go
+++ b/router/inbuilt/middleware/logging.go
@@ -17,7 +17,7 @@ func LogRequests(loggers ...Logger) inbuilt.Middleware {
 	}
 
 	return func(next inbuilt.Handler, request *http.Request) *http.Response {
-		response := next(request)
+		response := notNil(request, next(request))
 		if response.Reveal().Code == status.CloseConnection {
 			return response
 		}
@@ -29,3 +29,12 @@ func LogRequests(loggers ...Logger) inbuilt.Middleware {
 		return response
 	}
 }
+
+// notNil substitutes the default response, as the server does, for handlers returning nil
+func notNil(request *http.Request, response *http.Response) *http.Response {
+	if response == nil {
+		return http.Respond(request)
+	}
+
+	return response
+}
diff --git a/router/inbuilt/middleware/serverheader.go b/router/inbuilt/middleware/serverheader.go
index 72898ff..a5d0cf5 100644
--- a/router/inbuilt/middleware/serverheader.go
+++ b/router/inbuilt/middleware/serverheader.go
@@ -15,7 +15,7 @@ func ServerHeader(customHeaders ...string) inbuilt.Middleware {
 	}
 
 	return func(next inbuilt.Handler, request *http.Request) *http.Response {
-		return next(request).
+		return notNil(request, next(request)).
 			Header("Server", value)
 	}
 }
-- 
2.43.0


From bf61f1eef5e4f56b0e6ef8601586a818d46a5206 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:06:24 +0000
Subject: [PATCH 59/63] fix: accept JSON numbers and refuse data behind a JSON
 document

---
 http/request.go | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/http/request.go b/http/request.go
index e9e9f50..0cc8e13 100644
--- a/http/request.go
+++ b/http/request.go
@@ -108,12 +108,7 @@ func (r *Request) JSON(model any) error {
 		return err
 	}
 
-	iterator := json.ConfigDefault.BorrowIterator(data)
-	iterator.ReadVal(model)
-	err = iterator.Error
-	json.ConfigDefault.ReturnIterator(iterator)
-
-	return err
+	return json.ConfigDefault.Unmarshal(data, model)
 }
 
 // Cookies returns a cookie jar with parsed cookies key-value pairs, and an error
-- 
2.43.0


From f5cea6ab8bb55689b78084c717a2ef30070099cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:14:38 +0000
Subject: [PATCH 60/63] fix: obey all the Connection headers of a request

The header is a list, so it may be split into multiple ones. Only the last of
them was looked at, so a connection stayed open despite of "Connection: close"
followed by another option.
---
 internal/protocol/http1/parser.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/internal/protocol/http1/parser.go b/internal/protocol/http1/parser.go
index f819151..bed7639 100644
--- a/internal/protocol/http1/parser.go
+++ b/internal/protocol/http1/parser.go
@@ -388,6 +388,11 @@ headerValue:
 			if cConnecti == encodeU64(
 				key[0]|0x20, key[1]|0x20, key[2]|0x20, key[3]|0x20, key[4]|0x20, key[5]|0x20, key[6]|0x20, key[7]|0x20,
 			) && cOn == encodeU16(key[8]|0x20, key[9]|0x20) {
+				if len(request.Connection) > 0 {
+					// the list of options may be split into multiple headers
+					value = request.Connection + ", " + value
+				}
+
 				request.Connection = value
 			}
 		case 12:
-- 
2.43.0


From 43d298c5b526b04f23fcdda3781f717759ecda32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:14:38 +0000
Subject: [PATCH 61/63] fix: close HTTP/1.0 connections if asked to, even
 beside keep-alive

The close option takes precedence (RFC 9112, 9.3).
---
 internal/protocol/http1/serializer.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/internal/protocol/http1/serializer.go b/internal/protocol/http1/serializer.go
index 28eed23..9dc7cc6 100644
--- a/internal/protocol/http1/serializer.go
+++ b/internal/protocol/http1/serializer.go
@@ -391,7 +391,8 @@ func (d *Serializer) clear() {
 func isKeepAlive(protocol proto.Proto, req *http.Request) bool {
 	switch protocol {
 	case proto.HTTP10:
-		return hasToken(req.Connection, "keep-alive")
+		// the close option takes precedence
+		return hasToken(req.Connection, "keep-alive") && !hasToken(req.Connection, "close")
 	case proto.HTTP11:
 		// in case of HTTP/1.1, keep-alive may be only disabled
 		return !hasToken(req.Connection, "close")
-- 
2.43.0


From 6a6be4a0dd404e870b52c324c07eba112939064a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:33:10 +0000
Subject: [PATCH 62/63] fix: don't insist on a self-signed certificate which
 was written partially

An interrupted or failed attempt to store the certificate or its key left files
behind which were never replaced, so the application couldn't start anymore.
---
 https.go | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/https.go b/https.go
index 6891b9e..767b326 100644
--- a/https.go
+++ b/https.go
@@ -161,12 +161,10 @@ func mkdirIfNotExists(dir string) error {
 	return os.MkdirAll(dir, 0700)
 }
 
+// certExists tells whether there is a usable certificate. Files left by an interrupted or failed
+// attempt to write them don't count
 func certExists(cert, key string) bool {
-	return fileExists(cert) && fileExists(key)
-}
-
-func fileExists(filename string) bool {
-	stat, err := os.Stat(filename)
+	_, err := tls.LoadX509KeyPair(cert, key)
 
-	return err == nil && !stat.IsDir()
+	return err == nil
 }
-- 
2.43.0


From 1aca6c64862e40c12e0bda62d43744726edf9e63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:09:00 +0000
Subject: [PATCH 63/63] fix: don't send chunked bodies to HTTP/1.0 clients

They don't know the encoding, so they'd take the framing for a part of the body.
---
 internal/protocol/http1/serializer.go | 37 ++++++++++++++++++++++-----
 1 file changed, 31 insertions(+), 6 deletions(-)

diff --git a/internal/protocol/http1/serializer.go b/internal/protocol/http1/serializer.go
index 9dc7cc6..3defe76 100644
--- a/internal/protocol/http1/serializer.go
+++ b/internal/protocol/http1/serializer.go
@@ -97,7 +97,7 @@ func (d *Serializer) Write(
 	d.renderResponseLine(fields)
 
 	if fields.Attachment.Content() != nil {
-		err = d.sendAttachment(d.request, response, d.writer)
+		err = d.sendAttachment(protocol, d.request, response, d.writer)
 		if err == nil && d.mustClose(protocol) {
 			err = status.ErrCloseConnection
 		}
@@ -176,16 +176,21 @@ func (d *Serializer) renderHeaders(fields *response.Fields) {
 // sendAttachment simply encapsulates all the logic related to rendering arbitrary
 // io.Reader implementations
 func (d *Serializer) sendAttachment(
-	request *http.Request, response *http.Response, writer Writer,
+	protocol proto.Proto, request *http.Request, response *http.Response, writer Writer,
 ) (err error) {
 	fields := response.Reveal()
 	defer fields.Attachment.Close()
 	size := fields.Attachment.Size()
 
-	if size > 0 {
+	switch {
+	case size > 0:
 		d.renderHeaders(fields)
 		d.renderContentLength(int64(size))
-	} else {
+	case protocol == proto.HTTP10:
+		// there is no chunked transfer encoding in HTTP/1.0, so the body lasts until the
+		// connection is closed
+		d.renderHeaders(fields)
+	default:
 		d.renderHeaders(response.TransferEncoding("chunked").Reveal())
 	}
 
@@ -211,15 +216,35 @@ func (d *Serializer) sendAttachment(
 		d.fileBuff = make([]byte, d.fileBuffSize)
 	}
 
-	if size > 0 {
+	switch {
+	case size > 0:
 		err = d.writePlainBody(fields.Attachment.Content(), size, writer)
-	} else {
+	case protocol == proto.HTTP10:
+		err = d.writeUntilClose(fields.Attachment.Content(), writer)
+	default:
 		err = d.writeChunkedBody(fields.Attachment.Content(), writer)
 	}
 
 	return err
 }
 
+// writeUntilClose writes everything the reader contains. The end of the body is denoted by
+// closing the connection
+func (d *Serializer) writeUntilClose(r io.Reader, writer Writer) error {
+	for {
+		n, err := r.Read(d.fileBuff)
+		if n > 0 {
+			if err := writer.Write(d.fileBuff[:n]); err != nil {
+				return status.ErrCloseConnection
+			}
+		}
+
+		if err != nil {
+			return status.ErrCloseConnection
+		}
+	}
+}
+
 // writePlainBody writes exactly size bytes. If the reader contains less, the response is already
 // corrupted, so the only way to let the client know is to close the connection
 func (d *Serializer) writePlainBody(r io.Reader, size int, writer Writer) error {
-- 
2.43.0

