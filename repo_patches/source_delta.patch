From 5c521d802403bd5a9e02f3688f34d9e7684309fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:38:51 +0000
Subject: [PATCH 01/20] fix: ignore signals and free handler slots while the
 server shuts down

Signals arriving during the shutdown were handled without being counted, which
underflowed the number of operations, closed the ready channel twice or let
Shutdown return early. Refused messages never released their handler slot.
---
 registerHandler.go | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/registerHandler.go b/registerHandler.go
index b52f6aa..67d9014 100644
--- a/registerHandler.go
+++ b/registerHandler.go
@@ -34,9 +34,16 @@ func (srv *server) registerHandler(
 	}
 	srv.opsLock.Unlock()
 
-	if failMsg && msg.RequiresReply() {
-		// Don't process the message, fail it
-		srv.failMsgShutdown(con, msg)
+	if failMsg {
+		// Release the handler slot of the ignored message
+		if con.options.ConcurrencyLimit > 1 {
+			con.handlerSlots.Release(1)
+		}
+
+		// Don't process the message, fail it if it's a request
+		if msg.RequiresReply() {
+			srv.failMsgShutdown(con, msg)
+		}
 		return false
 	}
 
-- 
2.43.0


From babd7f757fa93811eb5b450b197422dffb486fce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:38:51 +0000
Subject: [PATCH 02/20] fix: don't use the missing writer when refusing a
 request fails

---
 failMsg.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/failMsg.go b/failMsg.go
index 95d6feb..65951ff 100644
--- a/failMsg.go
+++ b/failMsg.go
@@ -109,6 +109,7 @@ func (srv *server) failMsgShutdown(con *connection, msg *message.Message) {
 			con,
 			err,
 		)
+		return
 	}
 
 	if err := message.WriteMsgSpecialRequestReply(
-- 
2.43.0


From b336ce50f83e1d4406829ab5d9aa35df727152ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:01 +0000
Subject: [PATCH 03/20] fix: refuse requests arriving on a closing connection
 and never start handlers after Close

---
 connection.go      | 10 ++++++++--
 registerHandler.go |  7 +++++--
 2 files changed, 13 insertions(+), 4 deletions(-)

diff --git a/connection.go b/connection.go
index f07bd6c..ed82b72 100644
--- a/connection.go
+++ b/connection.go
@@ -92,11 +92,17 @@ func (con *connection) IsActive() bool {
 
 }
 
-// registerTask increments the number of currently executed tasks
-func (con *connection) registerTask() {
+// registerTask increments the number of currently executed tasks and returns
+// true, returns false if the connection is closed or about to be
+func (con *connection) registerTask() bool {
 	con.stateLock.Lock()
+	if !con.isActive {
+		con.stateLock.Unlock()
+		return false
+	}
 	con.tasks++
 	con.stateLock.Unlock()
+	return true
 }
 
 // deregisterTask decrements the number of currently executed tasks
diff --git a/registerHandler.go b/registerHandler.go
index 67d9014..e799bab 100644
--- a/registerHandler.go
+++ b/registerHandler.go
@@ -17,6 +17,10 @@ func (srv *server) registerHandler(
 	failMsg := false
 
 	if !con.IsActive() {
+		// Don't process messages of closing connections, fail requests
+		if msg.RequiresReply() {
+			srv.failMsgShutdown(con, msg)
+		}
 		return false
 	}
 
@@ -26,7 +30,7 @@ func (srv *server) registerHandler(
 	}
 
 	srv.opsLock.Lock()
-	if srv.shutdown {
+	if srv.shutdown || !con.registerTask() {
 		// defer failure due to shutdown of either the server or the connection
 		failMsg = true
 	} else {
@@ -47,6 +51,5 @@ func (srv *server) registerHandler(
 		return false
 	}
 
-	con.registerTask()
 	return true
 }
-- 
2.43.0


From d61c237f28a7118ab5ee657e6327dd9f77221220 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:52 +0000
Subject: [PATCH 04/20] fix: only let a session's own connections leave it,
 recover and log session closure hook failures

---
 newServer.go       | 3 ++-
 sessionRegistry.go | 6 ++++++
 2 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/newServer.go b/newServer.go
index 53018ae..53da434 100644
--- a/newServer.go
+++ b/newServer.go
@@ -77,10 +77,11 @@ func NewServer(
 			if err := srv.sessionManager.OnSessionClosed(
 				sessionKey,
 			); err != nil {
-				srv.errorLog.Printf("session registry ")
+				srv.errorLog.Printf("session closure hook failed: %s", err)
 			}
 		},
 	)
+	srv.sessionRegistry.server = srv
 
 	// Initialize the transport layer
 	if err := transport.Initialize(
diff --git a/sessionRegistry.go b/sessionRegistry.go
index 6276b9c..55469c5 100644
--- a/sessionRegistry.go
+++ b/sessionRegistry.go
@@ -76,6 +76,12 @@ func (asr *sessionRegistry) deregister(
 
 	asr.lock.Lock()
 	if connSet, exists := asr.registry[conn.session.Key]; exists {
+		// Ignore connections that aren't registered (anymore)
+		if _, registered := connSet[conn]; !registered {
+			asr.lock.Unlock()
+			return -1
+		}
+
 		// If a single connection is left then remove or destroy the session
 		if len(connSet) < 2 {
 			delete(asr.registry, conn.session.Key)
-- 
2.43.0


From 033a8d28496d73a18fd4c4c90d5a3d32a7ae77cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:42:26 +0000
Subject: [PATCH 05/20] fix: make session creation and closure atomic per
 connection

---
 connection.go           | 49 +++++++++++++++++++++++++++--------------
 handleSessionClosure.go | 25 ++++++++++-----------
 server.go               |  7 +++---
 3 files changed, 49 insertions(+), 32 deletions(-)

diff --git a/connection.go b/connection.go
index ed82b72..89c5ff3 100644
--- a/connection.go
+++ b/connection.go
@@ -133,15 +133,14 @@ func (con *connection) setSession(newSess *Session) {
 // unlink resets the connection and marks it as disconnected
 // preparing it for garbage collection
 func (con *connection) unlink() {
-	// Deregister session from active sessions registry, but don't destroy it
-	con.srv.sessionRegistry.deregister(con, false)
+	// Close connection first to prevent new sessions from being created on it
+	con.sock.Close()
 
+	// Deregister session from active sessions registry, but don't destroy it
 	con.sessionLock.Lock()
+	con.srv.sessionRegistry.deregister(con, false)
 	con.session = nil
 	con.sessionLock.Unlock()
-
-	// Close connection
-	con.sock.Close()
 }
 
 // Info implements the Connection interface
@@ -195,7 +194,12 @@ func (con *connection) CreateSession(attachment SessionInfo) error {
 		return ErrSessionsDisabled{}
 	}
 
+	con.sessionLock.Lock()
+
+	// The connection state must be verified while holding the session lock,
+	// otherwise a session could be registered on an already closed connection
 	if !con.sock.IsConnected() {
+		con.sessionLock.Unlock()
 		return ErrDisconnected{
 			Cause: fmt.Errorf(
 				"Can't create session on disconnected connection",
@@ -203,33 +207,37 @@ func (con *connection) CreateSession(attachment SessionInfo) error {
 		}
 	}
 
-	con.sessionLock.Lock()
-
 	// Abort if there's already another active session
 	if con.session != nil {
+		key := con.session.Key
 		con.sessionLock.Unlock()
 		return fmt.Errorf(
 			"Another session (%s) on this client is already active",
-			con.session.Key,
+			key,
 		)
 	}
 
 	// Create a new session
 	newSession := NewSession(attachment, con.srv.sessionKeyGen.Generate)
 
+	// Register the session
+	con.session = &newSession
+	if err := con.srv.sessionRegistry.register(con); err != nil {
+		con.session = nil
+		con.sessionLock.Unlock()
+		return fmt.Errorf("Couldn't register the session: %s", err)
+	}
+
 	// Try to notify about session creation
 	if err := con.notifySessionCreated(&newSession); err != nil {
+		con.srv.sessionRegistry.deregister(con, false)
+		con.session = nil
 		con.sessionLock.Unlock()
 		return fmt.Errorf(
 			"Couldn't notify client about the session creation: %s",
 			err,
 		)
 	}
-
-	// Register the session
-	con.session = &newSession
-
-	con.srv.sessionRegistry.register(con)
 	con.sessionLock.Unlock()
 
 	// Call session creation hook
@@ -286,9 +294,19 @@ func (con *connection) CloseSession() error {
 		return ErrSessionsDisabled{}
 	}
 
+	return con.closeSession("")
+}
+
+// closeSession closes the currently active session and notifies the client.
+// Does nothing if there's no active session or, in case a key is provided, if
+// it's not the session identified by this key
+func (con *connection) closeSession(key string) error {
+	// Don't release the lock before the client was notified, otherwise the
+	// notification could be outrun by the synchronization of another session
 	con.sessionLock.Lock()
-	if con.session == nil {
-		con.sessionLock.Unlock()
+	defer con.sessionLock.Unlock()
+
+	if con.session == nil || (key != "" && con.session.Key != key) {
 		return nil
 	}
 
@@ -296,7 +314,6 @@ func (con *connection) CloseSession() error {
 	// the last connection left
 	con.srv.sessionRegistry.deregister(con, true)
 	con.session = nil
-	con.sessionLock.Unlock()
 
 	return con.notifySessionClosed()
 }
diff --git a/handleSessionClosure.go b/handleSessionClosure.go
index 139cc8a..afe6df9 100644
--- a/handleSessionClosure.go
+++ b/handleSessionClosure.go
@@ -23,21 +23,20 @@ func (srv *server) handleSessionClosure(
 		return
 	}
 
-	if !con.HasSession() {
-		// Send confirmation even though no session was closed
-		srv.fulfillMsg(con, msg, Payload{})
-		finalize()
-		return
+	con.sessionLock.Lock()
+	if con.session != nil {
+		// Deregister session from active sessions registry destroying it if
+		// it's the last connection left
+		srv.sessionRegistry.deregister(con, true)
+
+		// Reset the session on the connection
+		con.session = nil
 	}
 
-	// Deregister session from active sessions registry destroying it if it's
-	// the last connection left
-	srv.sessionRegistry.deregister(con, true)
-
-	// Reset the session on the connection
-	con.setSession(nil)
-
-	// Send confirmation
+	// Send confirmation, even if no session was closed. Don't release the lock
+	// before, otherwise the confirmation could be outrun by the
+	// synchronization of another session
 	srv.fulfillMsg(con, msg, Payload{})
+	con.sessionLock.Unlock()
 	finalize()
 }
diff --git a/server.go b/server.go
index 4cf3014..b17c98f 100644
--- a/server.go
+++ b/server.go
@@ -100,9 +100,10 @@ func (srv *server) CloseSession(sessionKey string) (
 	affectedConnections = make([]Connection, len(connections))
 	i := 0
 	errNum := 0
-	for _, connection := range connections {
-		affectedConnections[i] = connection
-		err := connection.CloseSession()
+	for _, conn := range connections {
+		affectedConnections[i] = conn
+		// Don't close another session this connection might've switched to
+		err := conn.(*connection).closeSession(sessionKey)
 		if err != nil {
 			errors[i] = err
 			errNum++
-- 
2.43.0


From 4ebf66df98f4a63b064d247570b42274ce0fe7d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:45:39 +0000
Subject: [PATCH 06/20] fix: reserve the connection slot while a session is
 restored, switch sessions only if the reply was sent

---
 connection.go           |   7 ---
 fulfillMsg.go           |  10 +++-
 handleSessionRestore.go |  53 ++++++++++------
 sessionRegistry.go      | 130 +++++++++++++++++++++++++++++++++++-----
 4 files changed, 159 insertions(+), 41 deletions(-)

diff --git a/connection.go b/connection.go
index 89c5ff3..b8b3a66 100644
--- a/connection.go
+++ b/connection.go
@@ -123,13 +123,6 @@ func (con *connection) deregisterTask() {
 	}
 }
 
-// setSession sets a new session for this client
-func (con *connection) setSession(newSess *Session) {
-	con.sessionLock.Lock()
-	con.session = newSess
-	con.sessionLock.Unlock()
-}
-
 // unlink resets the connection and marks it as disconnected
 // preparing it for garbage collection
 func (con *connection) unlink() {
diff --git a/fulfillMsg.go b/fulfillMsg.go
index f4cad1f..9717084 100644
--- a/fulfillMsg.go
+++ b/fulfillMsg.go
@@ -2,12 +2,13 @@ package webwire
 
 import "github.com/qbeon/webwire-go/message"
 
-// fulfillMsg fulfills the message sending the reply
+// fulfillMsg fulfills the message sending the reply.
+// Returns an error if the reply couldn't be sent
 func (srv *server) fulfillMsg(
 	con *connection,
 	msg *message.Message,
 	replyPayload Payload,
-) {
+) error {
 	writer, err := con.sock.GetWriter()
 	if err != nil {
 		srv.errorLog.Printf(
@@ -15,7 +16,7 @@ func (srv *server) fulfillMsg(
 			con,
 			err,
 		)
-		return
+		return err
 	}
 
 	if err := message.WriteMsgReply(
@@ -29,5 +30,8 @@ func (srv *server) fulfillMsg(
 			con,
 			err,
 		)
+		return err
 	}
+
+	return nil
 }
diff --git a/handleSessionRestore.go b/handleSessionRestore.go
index e3c3726..06abcd9 100644
--- a/handleSessionRestore.go
+++ b/handleSessionRestore.go
@@ -2,7 +2,6 @@ package webwire
 
 import (
 	"encoding/json"
-	"fmt"
 
 	"github.com/qbeon/webwire-go/message"
 )
@@ -28,10 +27,9 @@ func (srv *server) handleSessionRestore(
 
 	key := string(msg.MsgPayload.Data)
 
-	sessConsNum := srv.sessionRegistry.sessionConnectionsNum(key)
-	if sessConsNum >= 0 && srv.sessionRegistry.maxConns > 0 &&
-		uint(sessConsNum+1) > srv.sessionRegistry.maxConns {
-		srv.failMsg(con, msg, ErrMaxSessConnsReached{})
+	// Reserve a connection slot of the session
+	if err := srv.sessionRegistry.reserve(key, con); err != nil {
+		srv.failMsg(con, msg, err)
 		finalize()
 		return
 	}
@@ -40,6 +38,8 @@ func (srv *server) handleSessionRestore(
 	result, err := srv.sessionManager.OnSessionLookup(key)
 
 	if err != nil {
+		srv.sessionRegistry.cancel(key, con)
+
 		// Fail message with internal error and log it in case the handler fails
 		srv.failMsg(con, msg, nil)
 		finalize()
@@ -48,6 +48,8 @@ func (srv *server) handleSessionRestore(
 	}
 
 	if result == nil {
+		srv.sessionRegistry.cancel(key, con)
+
 		// Fail message with special error if the session wasn't found
 		srv.failMsg(con, msg, ErrSessionNotFound{})
 		finalize()
@@ -67,6 +69,7 @@ func (srv *server) handleSessionRestore(
 	}
 	encodedSession, err := json.Marshal(&encodedSessionObj)
 	if err != nil {
+		srv.sessionRegistry.cancel(key, con)
 		srv.failMsg(con, msg, nil)
 		finalize()
 		srv.errorLog.Printf(
@@ -83,25 +86,41 @@ func (srv *server) handleSessionRestore(
 		parsedSessInfo = srv.sessionInfoParser(sessionInfo)
 	}
 
-	con.setSession(&Session{
-		Key:        key,
-		Creation:   sessionCreation,
-		LastLookup: sessionLastLookup,
-		Info:       parsedSessInfo,
-	})
-	if err := srv.sessionRegistry.register(con); err != nil {
-		panic(fmt.Errorf("the number of concurrent session connections was " +
-			"unexpectedly exceeded",
-		))
+	// Don't release the lock before the reply is written, otherwise it could be
+	// outrun by the notification about the closure of the restored session
+	con.sessionLock.Lock()
+	if !srv.sessionRegistry.confirm(key, con) {
+		// The session was destroyed in the meantime
+		con.sessionLock.Unlock()
+		srv.failMsg(con, msg, ErrSessionNotFound{})
+		finalize()
+		return
 	}
 
-	srv.fulfillMsg(
+	if err := srv.fulfillMsg(
 		con,
 		msg,
 		Payload{
 			Encoding: EncodingUtf8,
 			Data:     encodedSession,
 		},
-	)
+	); err != nil {
+		// The client doesn't know about the restored session, leave it again
+		if con.session == nil || con.session.Key != key {
+			srv.sessionRegistry.remove(key, con, false)
+		}
+	} else {
+		// Leave the previous session, but don't destroy it
+		if con.session != nil && con.session.Key != key {
+			srv.sessionRegistry.deregister(con, false)
+		}
+		con.session = &Session{
+			Key:        key,
+			Creation:   sessionCreation,
+			LastLookup: sessionLastLookup,
+			Info:       parsedSessInfo,
+		}
+	}
+	con.sessionLock.Unlock()
 	finalize()
 }
diff --git a/sessionRegistry.go b/sessionRegistry.go
index 55469c5..ecba0f5 100644
--- a/sessionRegistry.go
+++ b/sessionRegistry.go
@@ -13,6 +13,13 @@ type sessionRegistry struct {
 	maxConns         uint
 	registry         map[string]map[*connection]struct{}
 	onSessionDestroy func(sessionKey string)
+
+	// restoring keeps track of the connections that are currently restoring a
+	// session, each of them occupies a connection slot of the session
+	restoring map[string]map[*connection]struct{}
+
+	// destroying keeps track of the sessions that are currently destroyed
+	destroying map[string]struct{}
 }
 
 // newSessionRegistry returns a new instance of a session registry.
@@ -27,6 +34,8 @@ func newSessionRegistry(
 		maxConns:         maxConns,
 		registry:         make(map[string]map[*connection]struct{}),
 		onSessionDestroy: onSessionDestroy,
+		restoring:        make(map[string]map[*connection]struct{}),
+		destroying:       make(map[string]struct{}),
 	}
 }
 
@@ -59,6 +68,97 @@ func (asr *sessionRegistry) register(con *connection) error {
 	return nil
 }
 
+// reserve reserves a slot for a connection that's about to restore the session
+// identified by the given key. The reservation must be either confirmed or
+// canceled. Returns an error if the session reached the maximum number of
+// concurrent connections or if it's currently being destroyed
+func (asr *sessionRegistry) reserve(key string, con *connection) error {
+	asr.lock.Lock()
+	defer asr.lock.Unlock()
+
+	if _, isDestroyed := asr.destroying[key]; isDestroyed {
+		return ErrSessionNotFound{}
+	}
+
+	// Ensure max connections isn't exceeded
+	connSet := asr.registry[key]
+	taken := uint(len(connSet))
+	for restoring := range asr.restoring[key] {
+		if _, registered := connSet[restoring]; !registered {
+			taken++
+		}
+	}
+	if asr.maxConns > 0 && taken+1 > asr.maxConns {
+		return ErrMaxSessConnsReached{}
+	}
+
+	if asr.restoring[key] == nil {
+		asr.restoring[key] = make(map[*connection]struct{})
+	}
+	asr.restoring[key][con] = struct{}{}
+	return nil
+}
+
+// cancel gives up the slot reserved by the given connection and returns false
+// if there's no such reservation
+func (asr *sessionRegistry) cancel(key string, con *connection) bool {
+	asr.lock.Lock()
+	defer asr.lock.Unlock()
+	return asr.removeReservation(key, con)
+}
+
+// confirm registers the connection on the session it reserved a slot for.
+// Returns false if the session was destroyed since the slot was reserved
+func (asr *sessionRegistry) confirm(key string, con *connection) bool {
+	asr.lock.Lock()
+	defer asr.lock.Unlock()
+
+	if !asr.removeReservation(key, con) {
+		return false
+	}
+	if asr.registry[key] == nil {
+		asr.registry[key] = make(map[*connection]struct{})
+	}
+	asr.registry[key][con] = struct{}{}
+	return true
+}
+
+// removeReservation must only be called while the registry is locked
+func (asr *sessionRegistry) removeReservation(
+	key string,
+	con *connection,
+) bool {
+	reservations := asr.restoring[key]
+	if _, reserved := reservations[con]; !reserved {
+		return false
+	}
+	delete(reservations, con)
+	if len(reservations) < 1 {
+		delete(asr.restoring, key)
+	}
+	return true
+}
+
+// destroy executes the session manager hook OnSessionClosed
+func (asr *sessionRegistry) destroy(key string) {
+	defer func() {
+		// Recover potential user-space hook panics
+		// to avoid panicking the server
+		if recvErr := recover(); recvErr != nil {
+			asr.server.errorLog.Printf(
+				"session closure hook panic: %v",
+				recvErr,
+			)
+		}
+
+		asr.lock.Lock()
+		delete(asr.destroying, key)
+		asr.lock.Unlock()
+	}()
+
+	asr.onSessionDestroy(key)
+}
+
 // deregister removes a connection from the list of connections of a session
 // and returns the number of connections left.
 // If there's only one connection left then the entire session will be removed
@@ -73,9 +173,17 @@ func (asr *sessionRegistry) deregister(
 	if conn.session == nil {
 		return -1
 	}
+	return asr.remove(conn.session.Key, conn, destroy)
+}
 
+// remove removes a connection from the session identified by the given key
+func (asr *sessionRegistry) remove(
+	key string,
+	conn *connection,
+	destroy bool,
+) int {
 	asr.lock.Lock()
-	if connSet, exists := asr.registry[conn.session.Key]; exists {
+	if connSet, exists := asr.registry[key]; exists {
 		// Ignore connections that aren't registered (anymore)
 		if _, registered := connSet[conn]; !registered {
 			asr.lock.Unlock()
@@ -84,23 +192,17 @@ func (asr *sessionRegistry) deregister(
 
 		// If a single connection is left then remove or destroy the session
 		if len(connSet) < 2 {
-			delete(asr.registry, conn.session.Key)
+			delete(asr.registry, key)
+			if destroy {
+				// Prevent the session from being restored from now on
+				delete(asr.restoring, key)
+				asr.destroying[key] = struct{}{}
+			}
 			asr.lock.Unlock()
 
 			// Destroy the session
 			if destroy {
-				// Recover potential user-space hook panics
-				// to avoid panicking the server
-				defer func() {
-					if recvErr := recover(); recvErr != nil {
-						asr.server.errorLog.Printf(
-							"session closure hook panic: %v",
-							recvErr,
-						)
-					}
-				}()
-
-				asr.onSessionDestroy(conn.session.Key)
+				asr.destroy(key)
 			}
 
 			return 0
-- 
2.43.0


From f1c67ad7aae24bda8a2a7208127ac20c68a3f2b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:10 +0000
Subject: [PATCH 07/20] fix: don't destroy a session before its creation hook
 returned

---
 connection.go      |  4 ++++
 sessionRegistry.go | 32 ++++++++++++++++++++++++++++++++
 2 files changed, 36 insertions(+)

diff --git a/connection.go b/connection.go
index b8b3a66..eb0906f 100644
--- a/connection.go
+++ b/connection.go
@@ -213,6 +213,10 @@ func (con *connection) CreateSession(attachment SessionInfo) error {
 	// Create a new session
 	newSession := NewSession(attachment, con.srv.sessionKeyGen.Generate)
 
+	// Don't destroy the session before its creation hook returned
+	con.srv.sessionRegistry.beginCreation(newSession.Key)
+	defer con.srv.sessionRegistry.endCreation(newSession.Key)
+
 	// Register the session
 	con.session = &newSession
 	if err := con.srv.sessionRegistry.register(con); err != nil {
diff --git a/sessionRegistry.go b/sessionRegistry.go
index ecba0f5..6d45645 100644
--- a/sessionRegistry.go
+++ b/sessionRegistry.go
@@ -18,6 +18,10 @@ type sessionRegistry struct {
 	// session, each of them occupies a connection slot of the session
 	restoring map[string]map[*connection]struct{}
 
+	// creating keeps track of the sessions the creation hook of which didn't
+	// return yet, true indicates that the session was closed in the meantime
+	creating map[string]bool
+
 	// destroying keeps track of the sessions that are currently destroyed
 	destroying map[string]struct{}
 }
@@ -35,6 +39,7 @@ func newSessionRegistry(
 		registry:         make(map[string]map[*connection]struct{}),
 		onSessionDestroy: onSessionDestroy,
 		restoring:        make(map[string]map[*connection]struct{}),
+		creating:         make(map[string]bool),
 		destroying:       make(map[string]struct{}),
 	}
 }
@@ -68,6 +73,27 @@ func (asr *sessionRegistry) register(con *connection) error {
 	return nil
 }
 
+// beginCreation defers the destruction of the session identified by the given
+// key until endCreation is called
+func (asr *sessionRegistry) beginCreation(key string) {
+	asr.lock.Lock()
+	asr.creating[key] = false
+	asr.lock.Unlock()
+}
+
+// endCreation destroys the session identified by the given key if it was closed
+// since beginCreation
+func (asr *sessionRegistry) endCreation(key string) {
+	asr.lock.Lock()
+	closed := asr.creating[key]
+	delete(asr.creating, key)
+	asr.lock.Unlock()
+
+	if closed {
+		asr.destroy(key)
+	}
+}
+
 // reserve reserves a slot for a connection that's about to restore the session
 // identified by the given key. The reservation must be either confirmed or
 // canceled. Returns an error if the session reached the maximum number of
@@ -197,6 +223,12 @@ func (asr *sessionRegistry) remove(
 				// Prevent the session from being restored from now on
 				delete(asr.restoring, key)
 				asr.destroying[key] = struct{}{}
+
+				// Don't destroy the session before its creation is completed
+				if _, isCreated := asr.creating[key]; isCreated {
+					asr.creating[key] = true
+					destroy = false
+				}
 			}
 			asr.lock.Unlock()
 
-- 
2.43.0


From 1e8a9426dfd330a06e2807dbadc67559a0ee2c8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:48:16 +0000
Subject: [PATCH 08/20] fix: answer requests with an internal error if the
 reply can't be sent

---
 failMsg.go            | 46 +++++++++++++++++++++++++++++++++++++++++++
 fulfillMsg.go         | 35 ++++++++++++++++++++++++++++++--
 message/calcMsgLen.go | 14 +++++++++++++
 3 files changed, 93 insertions(+), 2 deletions(-)

diff --git a/failMsg.go b/failMsg.go
index 65951ff..d137170 100644
--- a/failMsg.go
+++ b/failMsg.go
@@ -1,9 +1,44 @@
 package webwire
 
 import (
+	"fmt"
+
 	"github.com/qbeon/webwire-go/message"
 )
 
+// verifyReplyError returns an error if the given request error can't be sent
+func (srv *server) verifyReplyError(reqErr error) error {
+	var code, msg string
+	switch err := reqErr.(type) {
+	case ErrRequest:
+		code, msg = err.Code, err.Message
+	case *ErrRequest:
+		if err == nil {
+			return fmt.Errorf("missing request error")
+		}
+		code, msg = err.Code, err.Message
+	default:
+		return nil
+	}
+
+	if len(code) < 1 || len(code) > 255 {
+		return fmt.Errorf("invalid error code length: %d", len(code))
+	}
+	for i := 0; i < len(code); i++ {
+		if code[i] < 32 || code[i] > 126 {
+			return fmt.Errorf("unsupported character in error code: %q", code)
+		}
+	}
+
+	// Ensure the message won't exceed the buffer size
+	if uint32(message.CalcMsgLenReplyError([]byte(code), []byte(msg))) >
+		srv.options.MessageBufferSize {
+		return ErrBufferOverflow{}
+	}
+
+	return nil
+}
+
 // failMsg fails the message returning an error reply
 func (srv *server) failMsg(
 	con *connection,
@@ -16,6 +51,17 @@ func (srv *server) failMsg(
 		return
 	}
 
+	// Fall back to an internal error if the given error cannot be represented
+	// by an error reply message
+	if err := srv.verifyReplyError(reqErr); err != nil {
+		srv.errorLog.Printf(
+			"invalid error reply for connection %p: %s",
+			con,
+			err,
+		)
+		reqErr = nil
+	}
+
 	writer, err := con.sock.GetWriter()
 	if err != nil {
 		srv.errorLog.Printf(
diff --git a/fulfillMsg.go b/fulfillMsg.go
index 9717084..ee2f413 100644
--- a/fulfillMsg.go
+++ b/fulfillMsg.go
@@ -1,14 +1,45 @@
 package webwire
 
-import "github.com/qbeon/webwire-go/message"
+import (
+	"fmt"
+
+	"github.com/qbeon/webwire-go/message"
+)
+
+// verifyReply returns an error if the given reply payload can't be sent
+func (srv *server) verifyReply(replyPayload Payload) error {
+	if replyPayload.Encoding == EncodingUtf16 && len(replyPayload.Data)%2 != 0 {
+		return fmt.Errorf(
+			"invalid UTF16 reply payload data length: %d",
+			len(replyPayload.Data),
+		)
+	}
+
+	// Ensure the message won't exceed the buffer size
+	if uint32(message.CalcMsgLenReply(
+		replyPayload.Encoding,
+		replyPayload.Data,
+	)) > srv.options.MessageBufferSize {
+		return ErrBufferOverflow{}
+	}
+
+	return nil
+}
 
 // fulfillMsg fulfills the message sending the reply.
-// Returns an error if the reply couldn't be sent
+// Returns an error if the reply couldn't be sent. Replies that cannot be
+// represented by a message are replaced by an internal error reply
 func (srv *server) fulfillMsg(
 	con *connection,
 	msg *message.Message,
 	replyPayload Payload,
 ) error {
+	if err := srv.verifyReply(replyPayload); err != nil {
+		srv.errorLog.Printf("invalid reply for connection %p: %s", con, err)
+		srv.failMsg(con, msg, nil)
+		return err
+	}
+
 	writer, err := con.sock.GetWriter()
 	if err != nil {
 		srv.errorLog.Printf(
diff --git a/message/calcMsgLen.go b/message/calcMsgLen.go
index 5e787a2..6b9c82c 100644
--- a/message/calcMsgLen.go
+++ b/message/calcMsgLen.go
@@ -27,3 +27,17 @@ func CalcMsgLenRequest(
 	}
 	return 10 + len(name) + len(payload)
 }
+
+// CalcMsgLenReply returns the size of a reply message with the given payload
+func CalcMsgLenReply(encoding pld.Encoding, payload []byte) int {
+	if encoding == pld.Utf16 {
+		return 10 + len(payload)
+	}
+	return 9 + len(payload)
+}
+
+// CalcMsgLenReplyError returns the size of an error reply message with the
+// given code and message
+func CalcMsgLenReplyError(code, message []byte) int {
+	return 10 + len(code) + len(message)
+}
-- 
2.43.0


From 3f93de14e10d880166c64e1ca8f9f404a1adfed7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:54:07 +0000
Subject: [PATCH 09/20] fix: make memchan sockets release their readers and
 writers on closure without losing or panicking on any

---
 transport/memchan/buffer.go          |   6 +-
 transport/memchan/entangleSockets.go |  12 +-
 transport/memchan/link.go            |  69 ++++++++++
 transport/memchan/newSocket.go       |  12 +-
 transport/memchan/socket.go          | 199 +++++++++++----------------
 transport/memchan/transport.go       |   2 +-
 6 files changed, 161 insertions(+), 139 deletions(-)
 create mode 100644 transport/memchan/link.go

diff --git a/transport/memchan/buffer.go b/transport/memchan/buffer.go
index bb34082..c903c7e 100644
--- a/transport/memchan/buffer.go
+++ b/transport/memchan/buffer.go
@@ -54,10 +54,10 @@ func (buf *Buffer) Write(p []byte) (int, error) {
 // Close flushes the buffer to the reader
 func (buf *Buffer) Close() (err error) {
 	buf.lock.Lock()
-	if buf.len < 1 {
-		return errors.New("no data written")
-	}
 	err = buf.onFlush(buf.buf[:buf.len])
+	if err == nil && buf.len < 1 {
+		err = errors.New("no data written")
+	}
 	buf.reset()
 	buf.lock.Unlock()
 	return err
diff --git a/transport/memchan/entangleSockets.go b/transport/memchan/entangleSockets.go
index ba618c8..28013f8 100644
--- a/transport/memchan/entangleSockets.go
+++ b/transport/memchan/entangleSockets.go
@@ -2,10 +2,10 @@ package memchan
 
 // entangleSockets connects two sockets
 func entangleSockets(server, client *Socket) {
-	if server.status != nil {
+	if server.link != nil {
 		panic("the server socket is already entangled")
 	}
-	if client.status != nil {
+	if client.link != nil {
 		panic("the server socket is already entangled")
 	}
 
@@ -17,8 +17,8 @@ func entangleSockets(server, client *Socket) {
 	server.remote = client
 	client.remote = server
 
-	// Initialize shared status
-	status := statusDisconnected
-	server.status = &status
-	client.status = &status
+	// Initialize shared state
+	shared := &link{}
+	server.link = shared
+	client.link = shared
 }
diff --git a/transport/memchan/link.go b/transport/memchan/link.go
new file mode 100644
index 0000000..bc1fbf6
--- /dev/null
+++ b/transport/memchan/link.go
@@ -0,0 +1,69 @@
+package memchan
+
+import "sync"
+
+// link represents the state shared by two entangled sockets
+type link struct {
+	lock sync.Mutex
+
+	// conn is nil while the sockets are disconnected
+	conn *connection
+}
+
+// connection represents a single connection between two entangled sockets. A
+// new one is established each time the client socket is dialed
+type connection struct {
+	// closed is closed when the connection is closed
+	closed chan struct{}
+
+	toServer pipe
+	toClient pipe
+}
+
+// pipe represents one direction of a connection
+type pipe struct {
+	// data passes messages to the reader
+	data chan []byte
+
+	// read confirms that the reader finished reading the message
+	read chan struct{}
+}
+
+func newPipe() pipe {
+	return pipe{
+		data: make(chan []byte),
+		read: make(chan struct{}),
+	}
+}
+
+func newConnection() *connection {
+	return &connection{
+		closed:   make(chan struct{}),
+		toServer: newPipe(),
+		toClient: newPipe(),
+	}
+}
+
+// inbound returns the pipe read by sockets of the given type
+func (conn *connection) inbound(sockType SocketType) pipe {
+	if sockType == SocketClient {
+		return conn.toClient
+	}
+	return conn.toServer
+}
+
+// outbound returns the pipe written by sockets of the given type
+func (conn *connection) outbound(sockType SocketType) pipe {
+	if sockType == SocketClient {
+		return conn.toServer
+	}
+	return conn.toClient
+}
+
+// current returns the current connection or nil if there's none
+func (lnk *link) current() *connection {
+	lnk.lock.Lock()
+	conn := lnk.conn
+	lnk.lock.Unlock()
+	return conn
+}
diff --git a/transport/memchan/newSocket.go b/transport/memchan/newSocket.go
index cbd7afa..c54ab3b 100644
--- a/transport/memchan/newSocket.go
+++ b/transport/memchan/newSocket.go
@@ -17,12 +17,9 @@ func newSocket(server *Transport, bufferSize uint32) *Socket {
 		server:     server,
 		readLock:   &sync.Mutex{},
 		writerLock: &sync.Mutex{},
-		reader:     make(chan []byte, 1),
-		readerLock: &sync.Mutex{},
-		readerErr:  make(chan error),
 		readTimer:  readTimer,
 		remote:     nil,
-		status:     nil,
+		link:       nil,
 	}
 
 	// Allocate the outbound buffer
@@ -41,18 +38,13 @@ func newDisconnectedSocket() *Socket {
 	readTimer := time.NewTimer(0)
 	<-readTimer.C
 
-	status := statusDisconnected
-
 	socket := &Socket{
 		sockType:   SocketClient,
 		readLock:   &sync.Mutex{},
 		writerLock: &sync.Mutex{},
-		reader:     make(chan []byte, 1),
-		readerLock: &sync.Mutex{},
-		readerErr:  make(chan error),
 		readTimer:  readTimer,
 		remote:     nil,
-		status:     &status,
+		link:       &link{},
 	}
 
 	// Allocate the outbound buffer
diff --git a/transport/memchan/socket.go b/transport/memchan/socket.go
index 1004bce..191a6b9 100644
--- a/transport/memchan/socket.go
+++ b/transport/memchan/socket.go
@@ -6,16 +6,12 @@ import (
 	"io"
 	"net"
 	"sync"
-	"sync/atomic"
 	"time"
 
 	wwr "github.com/qbeon/webwire-go"
 	"github.com/qbeon/webwire-go/message"
 )
 
-const statusConnected uint32 = 1
-const statusDisconnected uint32 = 2
-
 // SocketType represents the type of a socket
 type SocketType uint
 
@@ -40,8 +36,8 @@ type Socket struct {
 	// remote references the remote socket
 	remote *Socket
 
-	// status represents the connection status
-	status *uint32
+	// link references the state shared with the remote socket
+	link *link
 
 	// readTimer enables reader timeout. It's started when the reader is applied
 	// a deadline and cleared when it finished reading
@@ -53,35 +49,36 @@ type Socket struct {
 	// writerLock serializes access to the writer returned from GetWriter
 	writerLock *sync.Mutex
 
+	// writerConn references the connection the current writer writes to
+	writerConn *connection
+
 	// outboundBuffer is used as the primary writer to the remote socket. It's
 	// onFlush callback must be connected to the sockets
 	outboundBuffer Buffer
-
-	// reader is the data receiving channel to the reader goroutine. It must be
-	// triggered as soon as any data is received
-	reader     chan []byte
-	readerErr  chan error
-	readerLock *sync.Mutex
 }
 
 // onBufferFlush is a slot method that's called by the outbound buffer's onFlush
-// callback. It notifies the remote socket about the buffer being available for
-// reading and waits until it's finished reading eventually releasing the local
-// writer buffer
-func (sock *Socket) onBufferFlush(data []byte) (err error) {
-	if !sock.IsConnected() {
-		sock.writerLock.Unlock()
-		return errors.New("can't write to a closed socket")
-	}
+// callback. It passes the buffer to the remote reader and waits until it's
+// finished reading eventually releasing the local writer buffer
+func (sock *Socket) onBufferFlush(data []byte) error {
+	defer sock.writerLock.Unlock()
 
-	// Notify the remote reader about the new message
-	sock.remote.writeReader(data)
+	// Don't send empty messages
+	if len(data) < 1 {
+		return nil
+	}
 
-	// Wait for the remote reader to finish reading
-	err = <-sock.remote.readerErr
+	conn := sock.writerConn
+	pipe := conn.outbound(sock.sockType)
 
-	sock.writerLock.Unlock()
-	return
+	select {
+	case pipe.data <- data:
+		// Wait for the remote reader to finish reading
+		<-pipe.read
+		return nil
+	case <-conn.closed:
+		return errors.New("can't write to a closed socket")
+	}
 }
 
 // Dial implements the transport.Socket interface
@@ -102,19 +99,20 @@ func (sock *Socket) Dial(deadline time.Time) error {
 		return errors.New("connection refused")
 	}
 
-	if !atomic.CompareAndSwapUint32(
-		sock.status,
-		statusDisconnected,
-		statusConnected,
-	) {
+	sock.link.lock.Lock()
+	defer sock.link.lock.Unlock()
+
+	if sock.link.conn != nil {
 		return errors.New("socket already connected")
 	}
 
-	sock.resetReader()
-	sock.remote.resetReader()
-
 	// Execute server callback
-	return sock.server.onConnect(sock, connOpts)
+	sock.link.conn = newConnection()
+	if err := sock.server.onConnect(sock, connOpts); err != nil {
+		sock.link.conn = nil
+		return err
+	}
+	return nil
 }
 
 // GetWriter implements the transport.Socket interface
@@ -122,7 +120,8 @@ func (sock *Socket) GetWriter() (io.WriteCloser, error) {
 	sock.writerLock.Lock()
 
 	// Check connection status
-	if !sock.IsConnected() {
+	sock.writerConn = sock.link.current()
+	if sock.writerConn == nil {
 		sock.writerLock.Unlock()
 		return nil, wwr.ErrDisconnected{
 			Cause: fmt.Errorf("can't write to a closed socket"),
@@ -134,49 +133,23 @@ func (sock *Socket) GetWriter() (io.WriteCloser, error) {
 	return &sock.outboundBuffer, nil
 }
 
-func (sock *Socket) getReader() chan []byte {
-	sock.readerLock.Lock()
-	reader := sock.reader
-	sock.readerLock.Unlock()
-	return reader
-}
-
-func (sock *Socket) writeReader(data []byte) {
-	sock.readerLock.Lock()
-	sock.reader <- data
-	sock.readerLock.Unlock()
-}
-
-// closeReader closes the current reader
-func (sock *Socket) closeReader() {
-	sock.readerLock.Lock()
-	close(sock.reader)
-	sock.readerLock.Unlock()
-}
-
-// resetReader resets the socket reader
-func (sock *Socket) resetReader() {
-	sock.readerLock.Lock()
-	sock.reader = make(chan []byte, 1)
-	sock.readerLock.Unlock()
-}
-
-func (sock *Socket) readWithoutDeadline() (
+func (sock *Socket) readWithoutDeadline(conn *connection) (
 	data []byte,
 	err wwr.ErrSockRead,
 ) {
 	// Await either a message or remote/local socket closure
-	data = <-sock.getReader()
-
-	if data == nil {
-		// Socket closed
+	select {
+	case <-conn.closed:
 		return nil, ErrSockRead{closed: true}
+	case data = <-conn.inbound(sock.sockType).data:
 	}
-
 	return data, nil
 }
 
-func (sock *Socket) readWithDeadline(deadline time.Time) (
+func (sock *Socket) readWithDeadline(
+	conn *connection,
+	deadline time.Time,
+) (
 	data []byte,
 	err wwr.ErrSockRead,
 ) {
@@ -186,18 +159,21 @@ func (sock *Socket) readWithDeadline(deadline time.Time) (
 	select {
 	case <-sock.readTimer.C:
 		// Deadline exceeded
-		err = ErrSockRead{err: errors.New("read deadline exceeded")}
-
-	case result := <-sock.getReader():
-		if result == nil {
-			// Socket closed
-			err = ErrSockRead{closed: true}
-		} else {
-			data = result
-		}
+		return nil, ErrSockRead{err: errors.New("read deadline exceeded")}
+
+	case <-conn.closed:
+		err = ErrSockRead{closed: true}
+
+	case data = <-conn.inbound(sock.sockType).data:
 	}
 
-	sock.readTimer.Stop()
+	// Make sure the next reader isn't interrupted by an outdated trigger
+	if !sock.readTimer.Stop() {
+		select {
+		case <-sock.readTimer.C:
+		default:
+		}
+	}
 
 	return
 }
@@ -210,49 +186,45 @@ func (sock *Socket) Read(
 	// Set reader lock to ensure there's only one concurrent reader
 	sock.readLock.Lock()
 
+	defer sock.readLock.Unlock()
+
 	// Check connection status
-	if !sock.IsConnected() {
-		sock.readLock.Unlock()
+	conn := sock.link.current()
+	if conn == nil {
 		return ErrSockRead{closed: true}
 	}
 
 	var data []byte
 	if deadline.IsZero() {
 		// No deadline
-		data, err = sock.readWithoutDeadline()
+		data, err = sock.readWithoutDeadline(conn)
 	} else {
 		// Set deadline
-		data, err = sock.readWithDeadline(deadline)
+		data, err = sock.readWithDeadline(conn, deadline)
 	}
 
 	if err != nil {
-		sock.Close()
-		sock.readLock.Unlock()
+		sock.close(conn)
 		return err
 	}
 
 	// Try to read the socket into the message buffer and release the remote
-	// writer by sending nil to the sock.reader channel
+	// writer
 	typeParsed, parseErr := msg.ReadBytes(data)
+	conn.inbound(sock.sockType).read <- struct{}{}
+
 	if parseErr != nil {
-		sock.readerErr <- nil
-		sock.readLock.Unlock()
 		return ErrSockRead{err: parseErr}
 	}
 	if !typeParsed {
-		sock.readerErr <- nil
-		sock.readLock.Unlock()
 		return ErrSockRead{err: errors.New("no message type")}
 	}
-
-	sock.readerErr <- nil
-	sock.readLock.Unlock()
 	return nil
 }
 
 // IsConnected implements the transport.Socket interface
 func (sock *Socket) IsConnected() bool {
-	return atomic.LoadUint32(sock.status) == statusConnected
+	return sock.link.current() != nil
 }
 
 // RemoteAddr implements the transport.Socket interface
@@ -266,32 +238,23 @@ func (sock *Socket) RemoteAddr() net.Addr {
 
 // Close implements the transport.Socket interface
 func (sock *Socket) Close() error {
-	if !atomic.CompareAndSwapUint32(
-		sock.status,
-		statusConnected,
-		statusDisconnected,
-	) {
-		return nil
+	if conn := sock.link.current(); conn != nil {
+		sock.close(conn)
 	}
+	return nil
+}
 
-	// Close remote reader and writer
-	sock.remote.closeReader()
-
-	// Fail any currently active writer
-	select {
-	case sock.remote.readerErr <- errors.New("socket closed"):
-	default:
-	}
+// close closes the given connection if it's not yet closed releasing the
+// readers and writers of both sockets
+func (sock *Socket) close(conn *connection) {
+	sock.link.lock.Lock()
+	defer sock.link.lock.Unlock()
 
-	// Send reader confirmation if any remote writer is currently awaiting
-	// the local reader to finish
-	select {
-	case sock.readerErr <- errors.New("socket closed"):
-	default:
+	if sock.link.conn != conn {
+		return
 	}
-
-	// Close the local reader
-	sock.closeReader()
+	sock.link.conn = nil
+	close(conn.closed)
 
 	// Execute server callback
 	if sock.sockType == SocketClient {
@@ -299,6 +262,4 @@ func (sock *Socket) Close() error {
 	} else {
 		sock.server.onDisconnect(sock)
 	}
-
-	return nil
 }
diff --git a/transport/memchan/transport.go b/transport/memchan/transport.go
index fd84727..3514d66 100644
--- a/transport/memchan/transport.go
+++ b/transport/memchan/transport.go
@@ -109,7 +109,7 @@ func (srv *Transport) onConnect(
 		return errors.New("server is closed")
 	}
 
-	if clientSocket.remote == nil || clientSocket.status == nil {
+	if clientSocket.remote == nil || clientSocket.link == nil {
 		return errors.New("uninitialized socket")
 	}
 
-- 
2.43.0


From 9070d7c07c060a23d165e1e0eafc0bf4580b6d10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:54:23 +0000
Subject: [PATCH 10/20] fix: make memchan shutdowns wait for each other and
 never miss a connection

---
 transport/memchan/transport.go | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/transport/memchan/transport.go b/transport/memchan/transport.go
index 3514d66..5759b5a 100644
--- a/transport/memchan/transport.go
+++ b/transport/memchan/transport.go
@@ -27,6 +27,7 @@ type Transport struct {
 	readTimeout     time.Duration
 	connections     map[*Socket]*Socket
 	connectionsLock *sync.Mutex
+	shutdownLock    *sync.Mutex
 	status          uint32
 	shutdown        chan struct{}
 }
@@ -43,6 +44,7 @@ func (srv *Transport) Initialize(
 	srv.onNewConnection = onNewConnection
 	srv.connections = make(map[*Socket]*Socket)
 	srv.connectionsLock = &sync.Mutex{}
+	srv.shutdownLock = &sync.Mutex{}
 	srv.shutdown = make(chan struct{})
 	srv.status = serverActive
 
@@ -66,6 +68,10 @@ func (srv *Transport) Serve() error {
 
 // Shutdown implements the Transport interface
 func (srv *Transport) Shutdown() error {
+	// Make concurrent calls wait until all connections are closed
+	srv.shutdownLock.Lock()
+	defer srv.shutdownLock.Unlock()
+
 	if atomic.CompareAndSwapUint32(&srv.status, serverActive, serverClosed) {
 		close(srv.shutdown)
 		srv.connectionsLock.Lock()
@@ -80,7 +86,6 @@ func (srv *Transport) Shutdown() error {
 		// Close all connections
 		for _, sock := range conns {
 			if err := sock.Close(); err != nil {
-				srv.connectionsLock.Unlock()
 				return fmt.Errorf("couldn't close socket %p: %s", sock, err)
 			}
 		}
@@ -105,15 +110,17 @@ func (srv *Transport) onConnect(
 		return errors.New("server is shutting down")
 	}
 
-	if atomic.LoadUint32(&srv.status) != serverActive {
-		return errors.New("server is closed")
-	}
-
 	if clientSocket.remote == nil || clientSocket.link == nil {
 		return errors.New("uninitialized socket")
 	}
 
 	srv.connectionsLock.Lock()
+	// The status must be verified while holding the lock, otherwise the
+	// connection could be missed by the shutdown
+	if atomic.LoadUint32(&srv.status) != serverActive {
+		srv.connectionsLock.Unlock()
+		return errors.New("server is closed")
+	}
 	srv.connections[clientSocket.remote] = clientSocket
 	srv.connectionsLock.Unlock()
 
-- 
2.43.0


From 463abce4697eb1acb2aaf02893d637eb748827fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:58:04 +0000
Subject: [PATCH 11/20] fix: don't retain closed connections

---
 handleConnection.go | 5 -----
 newServer.go        | 2 --
 server.go           | 2 --
 3 files changed, 9 deletions(-)

diff --git a/handleConnection.go b/handleConnection.go
index e84988f..07d847b 100644
--- a/handleConnection.go
+++ b/handleConnection.go
@@ -45,17 +45,12 @@ func (srv *server) handleConnection(
 		return
 	}
 
-	// Register connected client
 	connection := newConnection(
 		sock,
 		srv,
 		connectionOptions,
 	)
 
-	srv.connectionsLock.Lock()
-	srv.connections = append(srv.connections, connection)
-	srv.connectionsLock.Unlock()
-
 	// Call hook on successful connection
 	srv.impl.OnClientConnected(connectionOptions, connection)
 
diff --git a/newServer.go b/newServer.go
index 53da434..f46b5bc 100644
--- a/newServer.go
+++ b/newServer.go
@@ -63,8 +63,6 @@ func NewServer(
 		shutdownRdy:       make(chan bool),
 		currentOps:        0,
 		opsLock:           &sync.Mutex{},
-		connections:       make([]*connection, 0),
-		connectionsLock:   &sync.Mutex{},
 		sessionsEnabled:   sessionsEnabled,
 		messagePool:       message.NewSyncPool(opts.MessageBufferSize, 1024),
 		warnLog:           opts.WarnLog,
diff --git a/server.go b/server.go
index b17c98f..438975d 100644
--- a/server.go
+++ b/server.go
@@ -24,8 +24,6 @@ type server struct {
 	shutdownRdy       chan bool
 	currentOps        uint32
 	opsLock           *sync.Mutex
-	connectionsLock   *sync.Mutex
-	connections       []*connection
 	sessionsEnabled   bool
 	sessionRegistry   *sessionRegistry
 	messagePool       message.Pool
-- 
2.43.0


From 4eb25e46b45fcf0db19475f93b6501d85f0e893e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:13:49 +0000
Subject: [PATCH 12/20] fix: don't accept oversized messages nor refuse fitting
 ones depending on how the stream is read

---
 message/buffer.go | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/message/buffer.go b/message/buffer.go
index f20508f..102a81a 100644
--- a/message/buffer.go
+++ b/message/buffer.go
@@ -32,9 +32,15 @@ func (buf *Buffer) Read(reader io.Reader) error {
 	cursor := 0
 	for {
 		if cursor >= len(buf.buf) {
-			// Expect EOF on full buffer
-			_, err := reader.Read(buf.buf)
-			if err != io.EOF {
+			// Expect EOF on full buffer. Don't probe into the buffer itself,
+			// the reader may return both data and EOF at once
+			probe := [1]byte{}
+			readBytes, err := reader.Read(probe[:])
+			if readBytes == 0 && err == nil {
+				// Nothing read yet
+				continue
+			}
+			if readBytes != 0 || err != io.EOF {
 				// Overflow! Discard the message that's bigger than the buffer
 				buf.Close()
 				io.Copy(ioutil.Discard, reader)
-- 
2.43.0


From 48a5970468c6834ff208a772d54eff857439dabe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:14:12 +0000
Subject: [PATCH 13/20] fix: complete tracked requests at most once and never
 lose their replies

---
 requestManager/request.go        | 19 +++++++++----
 requestManager/requestManager.go | 48 ++++++++++++++++----------------
 2 files changed, 38 insertions(+), 29 deletions(-)

diff --git a/requestManager/request.go b/requestManager/request.go
index d513ec3..3fbd07d 100644
--- a/requestManager/request.go
+++ b/requestManager/request.go
@@ -36,15 +36,24 @@ type Request struct {
 // The timer is started when AwaitReply is called.
 func (req *Request) AwaitReply(ctx context.Context) (webwire.Reply, error) {
 	// Block until either context canceled (including timeout) or reply received
+	var rp genericReply
 	select {
 	case <-ctx.Done():
 		req.manager.deregister(req.Identifier)
-		return nil, webwire.TranslateContextError(ctx.Err())
 
-	case rp := <-req.Reply:
-		if rp.Error != nil {
-			return nil, rp.Error
+		// No reply can arrive any more,
+		// but it could have arrived before the request was abandoned
+		select {
+		case rp = <-req.Reply:
+		default:
+			return nil, webwire.TranslateContextError(ctx.Err())
 		}
-		return &reply{msg: rp.ReplyMsg}, nil
+
+	case rp = <-req.Reply:
+	}
+
+	if rp.Error != nil {
+		return nil, rp.Error
 	}
+	return &reply{msg: rp.ReplyMsg}, nil
 }
diff --git a/requestManager/requestManager.go b/requestManager/requestManager.go
index d739adb..fce47a8 100644
--- a/requestManager/requestManager.go
+++ b/requestManager/requestManager.go
@@ -58,26 +58,36 @@ func (manager *RequestManager) deregister(identifier [8]byte) {
 	manager.lock.Unlock()
 }
 
-// Fulfill fulfills the request associated with the given request identifier
-// with the provided reply payload.
-// Returns true if a pending request was fulfilled and deregistered,
-// otherwise returns false
-func (manager *RequestManager) Fulfill(msg *message.Message) bool {
-	manager.lock.RLock()
-	req, exists := manager.pending[msg.MsgIdentifier]
-	manager.lock.RUnlock()
+// complete deregisters the request associated with the given identifier and
+// hands the given reply over to it. Returns false if there's no such request.
+func (manager *RequestManager) complete(
+	identifier [8]byte,
+	rp genericReply,
+) bool {
+	manager.lock.Lock()
+	defer manager.lock.Unlock()
 
+	req, exists := manager.pending[identifier]
 	if !exists {
 		return false
 	}
+	delete(manager.pending, identifier)
 
-	manager.deregister(msg.MsgIdentifier)
-	req.Reply <- genericReply{
-		ReplyMsg: msg,
-	}
+	// Requests are completed at most once, thus this never blocks
+	req.Reply <- rp
 	return true
 }
 
+// Fulfill fulfills the request associated with the given request identifier
+// with the provided reply payload.
+// Returns true if a pending request was fulfilled and deregistered,
+// otherwise returns false
+func (manager *RequestManager) Fulfill(msg *message.Message) bool {
+	return manager.complete(msg.MsgIdentifier, genericReply{
+		ReplyMsg: msg,
+	})
+}
+
 // Fail fails the request associated with the given request identifier
 // with the provided error. Returns true if a pending request
 // was failed and deregistered, otherwise returns false
@@ -85,19 +95,9 @@ func (manager *RequestManager) Fail(
 	identifier [8]byte,
 	err error,
 ) bool {
-	manager.lock.RLock()
-	req, exists := manager.pending[identifier]
-	manager.lock.RUnlock()
-
-	if !exists {
-		return false
-	}
-
-	manager.deregister(identifier)
-	req.Reply <- genericReply{
+	return manager.complete(identifier, genericReply{
 		Error: err,
-	}
-	return true
+	})
 }
 
 // PendingRequests returns the number of currently pending requests
-- 
2.43.0


From 6be6dc5cbf48652c379f7fa1e3ec58b19ffe4f9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:29:52 +0000
Subject: [PATCH 14/20] fix: store sessions atomically, never outside of the
 session directory, and keep closed ones closed

---
 defaultSessionManager.go | 101 +++++++++++++++++++++++++++++++++++++--
 1 file changed, 96 insertions(+), 5 deletions(-)

diff --git a/defaultSessionManager.go b/defaultSessionManager.go
index 05921ab..c285ebe 100644
--- a/defaultSessionManager.go
+++ b/defaultSessionManager.go
@@ -6,6 +6,7 @@ import (
 	"io/ioutil"
 	"os"
 	"path/filepath"
+	"sync"
 	"time"
 )
 
@@ -28,22 +29,54 @@ func (sessf *sessionFile) Parse(filePath string) error {
 	return json.Unmarshal(contents, sessf)
 }
 
-// Save writes the session file to a file on the filesystem
+// Save writes the session file to a file on the filesystem.
+// Replaces an already existing file atomically, it's left untouched on failure
 func (sessf *sessionFile) Save(filePath string) error {
 	encoded, err := json.Marshal(sessf)
 	if err != nil {
 		return fmt.Errorf("Couldn't marshal session file: %s", err)
 	}
-	if err := ioutil.WriteFile(filePath, encoded, 0640); err != nil {
+	if err := replaceFile(filePath, encoded); err != nil {
 		return fmt.Errorf("Couldn't write session file: %s", err)
 	}
 	return nil
 }
 
+// replaceFile writes the contents to a temporary file in the same directory
+// first and moves it to the given path only when it's complete
+func replaceFile(filePath string, contents []byte) error {
+	tmp, err := ioutil.TempFile(filepath.Dir(filePath), "wwrsess-*.tmp")
+	if err != nil {
+		return err
+	}
+	_, err = tmp.Write(contents)
+	if closeErr := tmp.Close(); err == nil {
+		err = closeErr
+	}
+	if err == nil {
+		err = os.Chmod(tmp.Name(), 0640)
+	}
+	if err == nil {
+		err = os.Rename(tmp.Name(), filePath)
+	}
+	if err != nil {
+		os.Remove(tmp.Name())
+	}
+	return err
+}
+
 // DefaultSessionManager represents a default session manager implementation.
 // It uses files as a persistent storage
 type DefaultSessionManager struct {
 	path string
+
+	// lock serializes all accesses to the session files
+	lock sync.Mutex
+
+	// creating counts the currently running session creations, closed lists
+	// the sessions that were closed since the oldest of them was started
+	creating int
+	closed   map[string]struct{}
 }
 
 // NewDefaultSessionManager constructs a new default session manager instance.
@@ -69,7 +102,7 @@ func NewDefaultSessionManager(sessFilesPath string) *DefaultSessionManager {
 	_, err := os.Stat(sessFilesPath)
 	if os.IsNotExist(err) {
 		// Create the directory if it doesn't exist yet
-		if err := os.MkdirAll(sessFilesPath, 0640); err != nil {
+		if err := os.MkdirAll(sessFilesPath, 0750); err != nil {
 			panic(fmt.Errorf(
 				"Couldn't create default session directory ('%s'): %s",
 				sessFilesPath,
@@ -95,16 +128,52 @@ func (mng *DefaultSessionManager) filePath(sessionKey string) string {
 	return filepath.Join(mng.path, sessionKey+".wwrsess")
 }
 
+// isValidKey returns false for keys that can't be used as file names because
+// they'd refer to files in other directories
+func (mng *DefaultSessionManager) isValidKey(sessionKey string) bool {
+	for i := 0; i < len(sessionKey); i++ {
+		if sessionKey[i] == 0 || os.IsPathSeparator(sessionKey[i]) {
+			return false
+		}
+	}
+	return len(sessionKey) > 0
+}
+
 // OnSessionCreated implements the session manager interface.
 // It writes the created session into a file using the session key as file name
 func (mng *DefaultSessionManager) OnSessionCreated(conn Connection) error {
+	mng.lock.Lock()
+	mng.creating++
+	mng.lock.Unlock()
+
+	// Don't hold the lock while accessing the connection, sessions are closed
+	// while the connection is locked
 	sess := conn.Session()
+
+	mng.lock.Lock()
+	defer mng.lock.Unlock()
+	closed := mng.closed
+	mng.creating--
+	if mng.creating < 1 {
+		mng.closed = nil
+	}
+
+	if sess == nil {
+		return fmt.Errorf("Session was already closed")
+	}
+	if _, isClosed := closed[sess.Key]; isClosed {
+		return fmt.Errorf("Session was already closed")
+	}
+	if !mng.isValidKey(sess.Key) {
+		return fmt.Errorf("Invalid session key: %q", sess.Key)
+	}
+
 	sessFile := sessionFile{
 		Creation:   sess.Creation,
 		LastLookup: sess.LastLookup,
 		Info:       SessionInfoToVarMap(sess.Info),
 	}
-	return sessFile.Save(mng.filePath(conn.SessionKey()))
+	return sessFile.Save(mng.filePath(sess.Key))
 }
 
 // OnSessionLookup implements the session manager interface.
@@ -114,8 +183,16 @@ func (mng *DefaultSessionManager) OnSessionLookup(key string) (
 	SessionLookupResult,
 	error,
 ) {
+	if !mng.isValidKey(key) {
+		// There can't be any session identified by this key
+		return nil, nil
+	}
 	path := mng.filePath(key)
 
+	// Prevent the session from being closed or read before it's updated
+	mng.lock.Lock()
+	defer mng.lock.Unlock()
+
 	// Lookup session file
 	_, err := os.Stat(path)
 	if os.IsNotExist(err) {
@@ -142,7 +219,7 @@ func (mng *DefaultSessionManager) OnSessionLookup(key string) (
 		LastLookup: time.Now().UTC(),
 		Info:       file.Info,
 	}
-	if err := newSessionFile.Save(mng.filePath(key)); err != nil {
+	if err := newSessionFile.Save(path); err != nil {
 		return nil, fmt.Errorf(
 			"Couldn't update last lookup field, failed writing file: %s",
 			err,
@@ -159,6 +236,20 @@ func (mng *DefaultSessionManager) OnSessionLookup(key string) (
 // OnSessionClosed implements the session manager interface.
 // It closes the session by deleting the according session file
 func (mng *DefaultSessionManager) OnSessionClosed(sessionKey string) error {
+	if !mng.isValidKey(sessionKey) {
+		return fmt.Errorf("Invalid session key: %q", sessionKey)
+	}
+
+	mng.lock.Lock()
+	defer mng.lock.Unlock()
+
+	if mng.creating > 0 {
+		if mng.closed == nil {
+			mng.closed = make(map[string]struct{})
+		}
+		mng.closed[sessionKey] = struct{}{}
+	}
+
 	if err := os.Remove(mng.filePath(sessionKey)); err != nil {
 		return fmt.Errorf(
 			"Unexpected error during session destruction: %s",
-- 
2.43.0


From 9f9c22a7da599e7689fdf6aa235765c16ab6ef6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:54 +0000
Subject: [PATCH 15/20] fix: count reserved connection slots when a session is
 created

---
 sessionRegistry.go | 26 +++++++++++++++++---------
 1 file changed, 17 insertions(+), 9 deletions(-)

diff --git a/sessionRegistry.go b/sessionRegistry.go
index 6d45645..ca63e32 100644
--- a/sessionRegistry.go
+++ b/sessionRegistry.go
@@ -51,7 +51,7 @@ func (asr *sessionRegistry) register(con *connection) error {
 	asr.lock.Lock()
 	if connSet, exists := asr.registry[con.session.Key]; exists {
 		// Ensure max connections isn't exceeded
-		if asr.maxConns > 0 && uint(len(connSet)+1) > asr.maxConns {
+		if asr.maxConns > 0 && asr.taken(con.session.Key)+1 > asr.maxConns {
 			asr.lock.Unlock()
 			return fmt.Errorf(
 				"Max conns (%d) reached for session %s",
@@ -65,6 +65,8 @@ func (asr *sessionRegistry) register(con *connection) error {
 		asr.lock.Unlock()
 		return nil
 	}
+	// Slots reserved before the session existed belong to another session
+	delete(asr.restoring, con.session.Key)
 	newList := map[*connection]struct{}{
 		con: {},
 	}
@@ -107,14 +109,7 @@ func (asr *sessionRegistry) reserve(key string, con *connection) error {
 	}
 
 	// Ensure max connections isn't exceeded
-	connSet := asr.registry[key]
-	taken := uint(len(connSet))
-	for restoring := range asr.restoring[key] {
-		if _, registered := connSet[restoring]; !registered {
-			taken++
-		}
-	}
-	if asr.maxConns > 0 && taken+1 > asr.maxConns {
+	if asr.maxConns > 0 && asr.taken(key)+1 > asr.maxConns {
 		return ErrMaxSessConnsReached{}
 	}
 
@@ -125,6 +120,19 @@ func (asr *sessionRegistry) reserve(key string, con *connection) error {
 	return nil
 }
 
+// taken returns the number of taken connection slots of a session including the
+// reserved ones. It must only be called while the registry is locked
+func (asr *sessionRegistry) taken(key string) uint {
+	connSet := asr.registry[key]
+	taken := uint(len(connSet))
+	for restoring := range asr.restoring[key] {
+		if _, registered := connSet[restoring]; !registered {
+			taken++
+		}
+	}
+	return taken
+}
+
 // cancel gives up the slot reserved by the given connection and returns false
 // if there's no such reservation
 func (asr *sessionRegistry) cancel(key string, con *connection) bool {
-- 
2.43.0


From e0c4dcae1e8aa092d898b816e4e17fdac458cb83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:58 +0000
Subject: [PATCH 16/20] fix: generate the session key before locking the
 connection

A panicking session key generator (the default one panics when the system's
random number generator fails) left the session lock of the connection locked,
so the connection could neither be used nor closed, and the server couldn't be
shut down anymore even if the caller of CreateSession recovered.
---
 connection.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/connection.go b/connection.go
index eb0906f..e8256e4 100644
--- a/connection.go
+++ b/connection.go
@@ -187,6 +187,10 @@ func (con *connection) CreateSession(attachment SessionInfo) error {
 		return ErrSessionsDisabled{}
 	}
 
+	// Create a new session before locking, otherwise a panicking session key
+	// generator would leave the connection locked
+	newSession := NewSession(attachment, con.srv.sessionKeyGen.Generate)
+
 	con.sessionLock.Lock()
 
 	// The connection state must be verified while holding the session lock,
@@ -210,9 +214,6 @@ func (con *connection) CreateSession(attachment SessionInfo) error {
 		)
 	}
 
-	// Create a new session
-	newSession := NewSession(attachment, con.srv.sessionKeyGen.Generate)
-
 	// Don't destroy the session before its creation hook returned
 	con.srv.sessionRegistry.beginCreation(newSession.Key)
 	defer con.srv.sessionRegistry.endCreation(newSession.Key)
-- 
2.43.0


From 39792a9e31c05fde861591b04497fc7fa78e279d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:14 +0000
Subject: [PATCH 17/20] fix: convert UTF16 surrogate pairs to UTF8

Each half of a pair was decoded on its own, thus every character beyond the
basic multilingual plane became two replacement characters.
---
 payload/payload.go | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/payload/payload.go b/payload/payload.go
index 1c7292e..13e59af 100644
--- a/payload/payload.go
+++ b/payload/payload.go
@@ -21,13 +21,14 @@ func (pld *Payload) Utf8() ([]byte, error) {
 				"Cannot convert invalid UTF16 payload data to UTF8",
 			)
 		}
-		u16str := make([]uint16, 1)
+		u16str := make([]uint16, len(pld.Data)/2)
+		for i := range u16str {
+			u16str[i] = uint16(pld.Data[i*2]) + (uint16(pld.Data[i*2+1]) << 8)
+		}
 		utf8str := &bytes.Buffer{}
 		utf8buf := make([]byte, 4)
-		for i := 0; i < len(pld.Data); i += 2 {
-			u16str[0] = uint16(pld.Data[i]) + (uint16(pld.Data[i+1]) << 8)
-			rn := utf16.Decode(u16str)
-			rnSize := utf8.EncodeRune(utf8buf, rn[0])
+		for _, rn := range utf16.Decode(u16str) {
+			rnSize := utf8.EncodeRune(utf8buf, rn)
 			utf8str.Write(utf8buf[:rnSize])
 		}
 		return utf8str.Bytes(), nil
-- 
2.43.0


From f320a8f7573c9c0c8aae90b6e79586f6ae9e10a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:54:30 +0000
Subject: [PATCH 18/20] fix: serve every memchan connection by a server-side
 socket of its own

---
 transport/memchan/link.go      |  3 +++
 transport/memchan/newSocket.go | 12 ++++++++++++
 transport/memchan/socket.go    | 33 ++++++++++++++++++++++-----------
 transport/memchan/transport.go |  7 +++++--
 4 files changed, 42 insertions(+), 13 deletions(-)

diff --git a/transport/memchan/link.go b/transport/memchan/link.go
index bc1fbf6..6947aa4 100644
--- a/transport/memchan/link.go
+++ b/transport/memchan/link.go
@@ -16,6 +16,9 @@ type connection struct {
 	// closed is closed when the connection is closed
 	closed chan struct{}
 
+	// serverSocket is the socket that serves the connection
+	serverSocket *Socket
+
 	toServer pipe
 	toClient pipe
 }
diff --git a/transport/memchan/newSocket.go b/transport/memchan/newSocket.go
index c54ab3b..7915c08 100644
--- a/transport/memchan/newSocket.go
+++ b/transport/memchan/newSocket.go
@@ -32,6 +32,18 @@ func newSocket(server *Transport, bufferSize uint32) *Socket {
 	return socket
 }
 
+// newServerSocket creates a server-side socket that serves nothing but the given
+// connection of the given client-side socket. It's not affected by connections
+// the client-side socket establishes later on
+func newServerSocket(client *Socket, conn *connection) *Socket {
+	socket := newSocket(client.server, client.server.bufferSize)
+	socket.sockType = SocketServer
+	socket.remote = client
+	socket.link = client.link
+	socket.conn = conn
+	return socket
+}
+
 // newDisconnectedSocket creates a new disconnected socket instance
 func newDisconnectedSocket() *Socket {
 	// Setup a new inactive timer
diff --git a/transport/memchan/socket.go b/transport/memchan/socket.go
index 191a6b9..3921cd7 100644
--- a/transport/memchan/socket.go
+++ b/transport/memchan/socket.go
@@ -39,6 +39,10 @@ type Socket struct {
 	// link references the state shared with the remote socket
 	link *link
 
+	// conn is the only connection the socket serves. It's nil if the socket
+	// serves any connection of the link
+	conn *connection
+
 	// readTimer enables reader timeout. It's started when the reader is applied
 	// a deadline and cleared when it finished reading
 	readTimer *time.Timer
@@ -57,6 +61,16 @@ type Socket struct {
 	outboundBuffer Buffer
 }
 
+// current returns the current connection or nil if the socket is disconnected
+func (sock *Socket) current() *connection {
+	conn := sock.link.current()
+	if sock.conn != nil && conn != sock.conn {
+		// The remote socket was reconnected since
+		return nil
+	}
+	return conn
+}
+
 // onBufferFlush is a slot method that's called by the outbound buffer's onFlush
 // callback. It passes the buffer to the remote reader and waits until it's
 // finished reading eventually releasing the local writer buffer
@@ -107,8 +121,9 @@ func (sock *Socket) Dial(deadline time.Time) error {
 	}
 
 	// Execute server callback
-	sock.link.conn = newConnection()
-	if err := sock.server.onConnect(sock, connOpts); err != nil {
+	conn := newConnection()
+	sock.link.conn = conn
+	if err := sock.server.onConnect(sock, connOpts, conn); err != nil {
 		sock.link.conn = nil
 		return err
 	}
@@ -120,7 +135,7 @@ func (sock *Socket) GetWriter() (io.WriteCloser, error) {
 	sock.writerLock.Lock()
 
 	// Check connection status
-	sock.writerConn = sock.link.current()
+	sock.writerConn = sock.current()
 	if sock.writerConn == nil {
 		sock.writerLock.Unlock()
 		return nil, wwr.ErrDisconnected{
@@ -189,7 +204,7 @@ func (sock *Socket) Read(
 	defer sock.readLock.Unlock()
 
 	// Check connection status
-	conn := sock.link.current()
+	conn := sock.current()
 	if conn == nil {
 		return ErrSockRead{closed: true}
 	}
@@ -224,7 +239,7 @@ func (sock *Socket) Read(
 
 // IsConnected implements the transport.Socket interface
 func (sock *Socket) IsConnected() bool {
-	return sock.link.current() != nil
+	return sock.current() != nil
 }
 
 // RemoteAddr implements the transport.Socket interface
@@ -238,7 +253,7 @@ func (sock *Socket) RemoteAddr() net.Addr {
 
 // Close implements the transport.Socket interface
 func (sock *Socket) Close() error {
-	if conn := sock.link.current(); conn != nil {
+	if conn := sock.current(); conn != nil {
 		sock.close(conn)
 	}
 	return nil
@@ -257,9 +272,5 @@ func (sock *Socket) close(conn *connection) {
 	close(conn.closed)
 
 	// Execute server callback
-	if sock.sockType == SocketClient {
-		sock.server.onDisconnect(sock.remote)
-	} else {
-		sock.server.onDisconnect(sock)
-	}
+	sock.server.onDisconnect(conn.serverSocket)
 }
diff --git a/transport/memchan/transport.go b/transport/memchan/transport.go
index 5759b5a..c6a315c 100644
--- a/transport/memchan/transport.go
+++ b/transport/memchan/transport.go
@@ -104,6 +104,7 @@ func (srv *Transport) Address() url.URL {
 func (srv *Transport) onConnect(
 	clientSocket *Socket,
 	connectionOptions wwr.ConnectionOptions,
+	conn *connection,
 ) error {
 	// Reject incoming connections during server shutdown
 	if srv.isShuttingdown() {
@@ -114,6 +115,8 @@ func (srv *Transport) onConnect(
 		return errors.New("uninitialized socket")
 	}
 
+	conn.serverSocket = newServerSocket(clientSocket, conn)
+
 	srv.connectionsLock.Lock()
 	// The status must be verified while holding the lock, otherwise the
 	// connection could be missed by the shutdown
@@ -121,12 +124,12 @@ func (srv *Transport) onConnect(
 		srv.connectionsLock.Unlock()
 		return errors.New("server is closed")
 	}
-	srv.connections[clientSocket.remote] = clientSocket
+	srv.connections[conn.serverSocket] = clientSocket
 	srv.connectionsLock.Unlock()
 
 	go srv.onNewConnection(
 		connectionOptions,
-		clientSocket.remote,
+		conn.serverSocket,
 	)
 
 	return nil
-- 
2.43.0


From ead76ef90d8b6bd9f963b7f11c23e97bd38eed60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:25:55 +0000
Subject: [PATCH 19/20] fix: don't leave connections locked if the session info
 panics

---
 connection.go | 38 +++++++++++++++++++++++---------------
 1 file changed, 23 insertions(+), 15 deletions(-)

diff --git a/connection.go b/connection.go
index e8256e4..b7defdb 100644
--- a/connection.go
+++ b/connection.go
@@ -187,9 +187,10 @@ func (con *connection) CreateSession(attachment SessionInfo) error {
 		return ErrSessionsDisabled{}
 	}
 
-	// Create a new session before locking, otherwise a panicking session key
-	// generator would leave the connection locked
+	// Create and encode the new session before locking, otherwise a panicking
+	// session key generator or session info would leave the connection locked
 	newSession := NewSession(attachment, con.srv.sessionKeyGen.Generate)
+	encodedSession, encodeErr := encodeNewSession(&newSession)
 
 	con.sessionLock.Lock()
 
@@ -227,7 +228,11 @@ func (con *connection) CreateSession(attachment SessionInfo) error {
 	}
 
 	// Try to notify about session creation
-	if err := con.notifySessionCreated(&newSession); err != nil {
+	err := encodeErr
+	if err == nil {
+		err = con.notifySessionCreated(encodedSession)
+	}
+	if err != nil {
 		con.srv.sessionRegistry.deregister(con, false)
 		con.session = nil
 		con.sessionLock.Unlock()
@@ -246,7 +251,8 @@ func (con *connection) CreateSession(attachment SessionInfo) error {
 	return nil
 }
 
-func (con *connection) notifySessionCreated(newSession *Session) error {
+// encodeNewSession encodes the session for the notification about its creation
+func encodeNewSession(newSession *Session) ([]byte, error) {
 	// Serialize session info
 	var sessionInfo map[string]interface{}
 	if newSession.Info != nil {
@@ -256,24 +262,27 @@ func (con *connection) notifySessionCreated(newSession *Session) error {
 		}
 	}
 
-	encodedSessionInfo, err := json.Marshal(JSONEncodedSession{
+	encodedSession, err := json.Marshal(JSONEncodedSession{
 		newSession.Key,
 		newSession.Creation,
 		newSession.LastLookup,
 		sessionInfo,
 	})
 	if err != nil {
-		return fmt.Errorf("Couldn't marshal session object: %s", err)
+		return nil, fmt.Errorf("Couldn't marshal session object: %s", err)
 	}
+	return encodedSession, nil
+}
 
-	// Notify client about the session creation
+// notifySessionCreated notifies the client about the session creation
+func (con *connection) notifySessionCreated(encodedSession []byte) error {
 	writer, err := con.sock.GetWriter()
 	if err != nil {
 		return err
 	}
 	return message.WriteMsgNotifySessionCreated(
 		writer,
-		encodedSessionInfo,
+		encodedSession,
 	)
 }
 
@@ -326,10 +335,10 @@ func (con *connection) HasSession() bool {
 
 // Session implements the Connection interface
 func (con *connection) Session() *Session {
+	// Unlock even if copying the session info panics
 	con.sessionLock.RLock()
-	clone := con.session.Clone()
-	con.sessionLock.RUnlock()
-	return clone
+	defer con.sessionLock.RUnlock()
+	return con.session.Clone()
 }
 
 // SessionKey implements the Connection interface
@@ -358,14 +367,13 @@ func (con *connection) SessionCreation() time.Time {
 
 // SessionInfo implements the Connection interface
 func (con *connection) SessionInfo(name string) interface{} {
+	// Unlock even if the session info panics
 	con.sessionLock.RLock()
+	defer con.sessionLock.RUnlock()
 	if con.session == nil || con.session.Info == nil {
-		con.sessionLock.RUnlock()
 		return nil
 	}
-	val := con.session.Info.Value(name)
-	con.sessionLock.RUnlock()
-	return val
+	return con.session.Info.Value(name)
 }
 
 // Close implements the Connection interface
-- 
2.43.0


From bcb391b3803c775f0239dc5b14dd5c9a4a7ea9aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:47:04 +0000
Subject: [PATCH 20/20] fix: messages read into a used message object showed
 leftovers of the previous message

Reading into a message that wasn't closed left the name, the identifier, the
payload and the server configuration of the previous message in place unless the
new one overwrote them, and messages created by NewMessage panicked when closed.
---
 message/message.go | 15 +++++++++++----
 message/read.go    |  9 ++++++---
 2 files changed, 17 insertions(+), 7 deletions(-)

diff --git a/message/message.go b/message/message.go
index 5d04156..4cb672b 100644
--- a/message/message.go
+++ b/message/message.go
@@ -301,14 +301,21 @@ func (msg *Message) Close() {
 		return
 	}
 
+	msg.reset()
+
+	// Call closure callback if there's any
+	if msg.onClose != nil {
+		msg.onClose()
+	}
+}
+
+// reset clears the message
+func (msg *Message) reset() {
 	msg.MsgBuffer.Close()
 	msg.MsgType = 0
 	msg.MsgIdentifier = [8]byte{}
-	msg.MsgIdentifierBytes = nil
+	msg.MsgIdentifierBytes = msg.MsgIdentifier[:]
 	msg.MsgName = nil
 	msg.MsgPayload = pld.Payload{}
 	msg.ServerConfiguration = ServerConfiguration{}
-
-	// Call closure callback
-	msg.onClose()
 }
diff --git a/message/read.go b/message/read.go
index 6c18197..6c1748f 100644
--- a/message/read.go
+++ b/message/read.go
@@ -7,15 +7,15 @@ import (
 
 // ReadBytes reads and parses the message from the given byte slice
 func (msg *Message) ReadBytes(bytes []byte) (typeParsed bool, err error) {
+	// Discard the previous message
+	msg.reset()
+
 	if len(bytes) < 1 {
 		return false, nil
 	}
 	if len(bytes) > len(msg.MsgBuffer.buf) {
 		return false, errors.New("message buffer overflow")
 	}
-	if !msg.MsgBuffer.IsEmpty() {
-		msg.MsgBuffer.Close()
-	}
 	copy(msg.MsgBuffer.buf[:len(bytes)], bytes)
 	msg.MsgBuffer.len = len(bytes)
 	return msg.parse()
@@ -23,6 +23,9 @@ func (msg *Message) ReadBytes(bytes []byte) (typeParsed bool, err error) {
 
 // Read reads and parses the message from the given reader
 func (msg *Message) Read(reader io.Reader) (typeParsed bool, err error) {
+	// Discard the previous message
+	msg.reset()
+
 	if err := msg.MsgBuffer.Read(reader); err != nil {
 		return false, err
 	}
-- 
2.43.0

