#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one source of truth for titles/statements)."""
import json, os
P=[]
def p(id,title,statement,over,text,why,files,mech,observe=None,hook=None):
    assert len(title)<=80,(id,len(title))
    P.append(dict(id=id,title=title,statement=statement,
      quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],
                   observe_at=observe or [],hook_needed=hook)))

p("C01","Every request is handled once and answered exactly once, correlated by id",
 "For every well-formed request a client sends on a connection that stays open while the server is not shutting down, the request handler runs exactly once and the client receives exactly one reply carrying that request's identifier and exactly the outcome the handler produced (payload and encoding, error code and message, or a generic internal error that leaks nothing). A handler result that cannot be sent (unencodable or larger than the message buffer) is answered with an internal error rather than silence. No reply ever carries an identifier that is not outstanding on that connection.",
 ["schedules","inputs","histories","configurations"],
 "All interleavings of concurrently sent requests on any number of connections, all concurrency limits, all handler results and durations, both transports, slow networks.",
 "The tests send one or a few requests in one order and check the happy reply; overlapping handlers, reply interleaving and unsendable replies are not explored.",
 ["handleMessage.go","handleRequest.go","fulfillMsg.go","failMsg.go","message/writeMsgReply.go","message/writeMsgErrorReply.go"],
 [("single reply per request","handleRequest.go:handleRequest"),("reply written under exclusive writer","fulfillMsg.go, failMsg.go, socket GetWriter")],
 ["frames received by the client","OnRequest invocations"])
p("C02","A message a handler sees is exactly one sent message, until the handler returns",
 "From the moment a signal or request handler starts until it returns, the message it was given shows exactly the identifier, name, encoding and payload (also when read as UTF-8) of one message sent on that handler's own connection, however many other messages arrive, are handled or are released meanwhile. No byte of one message is ever visible in another message, handler, reply or connection.",
 ["schedules","inputs","histories"],
 "All interleavings of readers, concurrent handlers and pooled-buffer reuse over many connections, messages of very different lengths, malformed messages in between.",
 "Needs overlapping handlers and buffer reuse in specific orders; the tests handle one message at a time with freshly allocated buffers.",
 ["handleConnection.go","handleMessage.go","handleRequest.go","handleSignal.go","message/syncPool.go","message/message.go","message/buffer.go"],
 [("buffer released only after the handler","handleRequest.go, handleSignal.go"),("pool of message buffers","message/syncPool.go")],
 ["message accessors inside handlers, sampled repeatedly"])
p("C03","Signals are delivered exactly once in both directions, or reported as failed",
 "Every well-formed signal a client sends on an open connection of a server that is not shutting down invokes the signal handler exactly once with its exact content, and is never answered. Every server-side Signal call that returns success on a connection that stays open delivers exactly one identical signal to that client, with signals from one sequential caller arriving in call order; a Signal call that returns an error delivers nothing and leaves the connection fully usable.",
 ["schedules","inputs","histories","configurations"],
 "All interleavings of signals with requests, replies and other signals on the same and other connections; valid and invalid names, payloads, sizes; both transports.",
 "Tests send one signal per direction; interleaving with other writers, rejected signals followed by further traffic are not covered.",
 ["connection.go","handleSignal.go","message/writeMsgSignal.go","transport/memchan/socket.go","transport/memchan/buffer.go"],
 [("size and content validation","connection.go:Signal, message/writeMsgSignal.go"),("writer exclusivity","Socket.GetWriter")],
 ["frames received by clients","OnSignal invocations"])
p("C04","Per-connection concurrency limits are honoured exactly",
 "With a concurrency limit of 0 or 1 the signal and request handlers of one connection never overlap and run in arrival order; with a limit n>1 at most n of them run at once and up to n really do run concurrently; with a negative limit every received message starts its handler without waiting for another. A handler slot is always freed when its handler ends or its message is refused, so no finite sequence of messages, including malformed, refused and control messages, can wedge a connection.",
 ["schedules","histories","configurations"],
 "All limits, message mixes, handler durations and interleavings.",
 "Tests check a single limit with a handful of handlers and cannot show slot conservation over histories and schedules.",
 ["registerHandler.go","deregisterHandler.go","handleMessage.go","connection.go"],
 [("handlerSlots semaphore","registerHandler.go/deregisterHandler.go"),("inline vs goroutine dispatch","handleMessage.go")],
 ["handler start/end events"])
p("C05","Shutdown drains all work before returning and leaves nothing running or open",
 "Every call of Shutdown returns only after every signal and request handler that had started has returned and the replies to those requests have been handed to their connections; it always returns once those handlers have returned, no matter how many concurrent Shutdown calls or how much traffic there is. After it returned no handler starts, every connection gets closed, and Run returns.",
 ["schedules","histories","fault_sequences"],
 "All points at which Shutdown can hit in-flight, queued and arriving messages, connection setup and teardown, repeated and concurrent Shutdown calls.",
 "Tests start one handler and shut down with sleeps; accounting errors only show when messages or disconnects race with the drain.",
 ["server.go","registerHandler.go","deregisterHandler.go","transport/memchan/transport.go"],
 [("currentOps counter and shutdownRdy","registerHandler.go, deregisterHandler.go, server.go:Shutdown")],
 ["Shutdown return","handler start/end events","socket state"])
p("C06","During shutdown requests are refused, signals ignored, new connections rejected",
 "Once shutdown has begun and while it drains, every request (including session restore and close requests) arriving on an open connection is answered exactly once with the shutdown error without running its handler, every arriving signal is ignored silently, and every new connection attempt is refused. No amount or mix of such late traffic blocks, shortens or breaks the drain.",
 ["schedules","histories","configurations"],
 "All amounts and interleavings of late signals, requests and dials with the drain, for every concurrency limit.",
 "Tests send one late request and one late signal on an unlimited connection; leaks per late message only show for longer histories and limited connections.",
 ["registerHandler.go","failMsg.go","server.go","isShuttingDown.go","transport/memchan/transport.go"],
 [("shutdown check in message admission","registerHandler.go"),("shutdown reply","failMsg.go:failMsgShutdown"),("connection admission","transport IsShuttingDown")],
 ["frames received by clients","Shutdown return"])
p("C07","Closing a connection server-side is graceful, complete and idempotent",
 "After a server-side Close of a connection every handler already running on it finishes and its reply is still delivered before the underlying socket is closed, no handler starts for a message that arrives after Close returned (requests are refused, signals ignored), and once the last handler is done the socket is closed and the connection has left every session, without ever closing early or never. Repeated and concurrent Close calls have no further effect, and operations on a closed connection return errors instead of blocking or crashing.",
 ["schedules","histories","configurations"],
 "All interleavings of Close with handler start and end, message arrival, slot waiting, disconnects and other Close calls, for every concurrency limit.",
 "Tests close during a single sleeping handler; the window between admission check and task registration and the last-task hand-over are schedule dependent.",
 ["connection.go","registerHandler.go","deregisterHandler.go"],
 [("isActive + tasks under stateLock","connection.go"),("deferred unlink","connection.go:deregisterTask")],
 ["socket close event","handler events","replies at the client"])
p("C08","Connection life-cycle hooks run exactly once and in order",
 "For every accepted connection the server's configuration message is the first thing the client receives, the connected hook runs exactly once and has returned before any handler of that connection starts, and the disconnected hook runs exactly once after the connection ended for whatever reason and always eventually does. A connection that fails before it is established triggers neither hook, and is closed.",
 ["schedules","histories","fault_sequences"],
 "All ways and times a connection can end (client close, cut, protocol violation, timeout, server close, shutdown, write failures) and all interleavings.",
 "Tests check hooks for one clean connection; exactly-once under racing close causes and failures at setup is not covered.",
 ["handleConnection.go","connection.go","transport/memchan/socket.go","transport/memchan/transport.go"],
 [("per-connection read loop","handleConnection.go:handleConnection"),("configuration push","handleConnection.go:writeConfMessage")],
 ["hook invocations","first frame at the client"])
p("C09","Silent connections time out; active ones never do",
 "A connection on which the server receives nothing for its configured read timeout while waiting is reported as disconnected promptly after the timeout and closed as soon as its running handlers returned. The timeout advertised in the configuration message never exceeds the one the server applies. A connection whose messages or heartbeats keep arriving within the read timeout is never closed by the server on account of time, whatever handlers run meanwhile and even if the wall clock is set forward or back; heartbeats cause no reply and invoke no handler.",
 ["schedules","histories","fault_sequences","configurations"],
 "All timings of messages and heartbeats relative to the timeout, wall-clock jumps, stalls and half-open peers, both transports.",
 "Tests wait for a single timeout in real time; they cannot move clocks nor explore heartbeat timing.",
 ["handleConnection.go","handleMessage.go","transport/memchan/socket.go"],
 [("read deadline per message","handleConnection.go"),("readTimer","transport/memchan/socket.go:readWithDeadline")],
 ["simulated close time of the socket","disconnected hook"])
p("C10","The session registry always agrees with the connections it describes",
 "Whenever the server is at rest, for every session key the reported connections are exactly the open connections whose current session has that key, the reported connection count equals their number (and is negative for an unknown key), and the number of active sessions equals the number of distinct keys in use. Connections that closed, failed, changed or closed their session never remain listed, and an operation on one connection or session never adds, removes or destroys another.",
 ["schedules","histories","fault_sequences"],
 "All interleavings and histories of creating, restoring, closing sessions (by client, connection and server) and of connections ending on several connections sharing keys.",
 "Tests drive the registry sequentially; every interesting deviation needs two of these operations to overlap.",
 ["sessionRegistry.go","connection.go","handleSessionRestore.go","handleSessionClosure.go","server.go"],
 [("registry under lock","sessionRegistry.go"),("session field under sessionLock","connection.go")],
 ["SessionConnections, SessionConnectionsNum, ActiveSessionsNum, Connection.SessionKey at quiescence"])
p("C11","A session never has more connections than allowed, and freed slots are reusable",
 "With a maximum of n connections per session no more than n open connections ever hold the same session at the same time, a restore attempt beyond that is answered with the limit error and changes nothing, and no race of restore attempts can exceed the limit, crash the server or be refused while the limit is not reached. A slot is free again once a connection holding the session closed, disconnected or left it; a limit of zero means unlimited.",
 ["schedules","histories","configurations"],
 "All interleavings of concurrent restores, closures and disconnects for all limits.",
 "Tests restore sequentially; exceeding the limit needs concurrent restores between check and registration.",
 ["handleSessionRestore.go","sessionRegistry.go"],
 [("limit check on registration","sessionRegistry.go:register"),("early limit check","handleSessionRestore.go")],
 ["restore replies","SessionConnectionsNum"])
p("C12","A session is destroyed exactly once, by the closure on its last connection only",
 "The session-closed hook is called for a session exactly once, when the session is explicitly closed (by client request, on the connection, or through the server) on its last connection, and closing the session on one of several connections only detaches that connection. A connection that merely ends never destroys its session, which stays restorable, and a failing or panicking hook neither crashes the server nor disturbs other sessions.",
 ["schedules","histories","fault_sequences"],
 "All interleavings of the three ways to close a session with each other and with connections ending, for sessions shared by several connections.",
 "Tests close sessions one at a time; double or missed destruction needs overlapping closures.",
 ["sessionRegistry.go","connection.go","handleSessionClosure.go","server.go"],
 [("last-connection detection","sessionRegistry.go:deregister"),("hook call","newServer.go")],
 ["OnSessionClosed invocations"])
p("C13","Client and server agree on the client's session once in-flight messages arrived",
 "For every open connection, applying the session-created and session-closed notifications and the session restore and close replies in the order the client received them yields exactly the session (key, creation time and info) the server reports for that connection, once nothing is in flight. A restoration is about exactly the session key the client asked for, in the manager's lookup hook, in the reply and on the server. A session creation or restoration reported as failed to the caller or to the client leaves the server-side and client-side session unchanged.",
 ["schedules","histories","fault_sequences"],
 "All interleavings of session creation, restoration and closure by either side on the same connection, with slow networks and failing writes.",
 "Tests perform one session operation at a time, so the order of concurrent notifications is never exercised.",
 ["connection.go","handleSessionRestore.go","handleSessionClosure.go","fulfillMsg.go"],
 [("notification under sessionLock","connection.go:CreateSession"),("restore and close replies","handleSessionRestore.go, handleSessionClosure.go")],
 ["frames at the client vs Connection.Session() at quiescence"])
p("C14","Stored sessions survive crashes, failed writes and concurrent lookups intact",
 "With the default session manager, once a session has been reported as stored, every later lookup by its key, concurrent with others and also after the process was killed at any point or a file operation failed part-way, returns that session with its exact creation time and info (as JSON values, numbers being IEEE doubles) and some last-lookup time actually recorded. A lookup never returns a torn, mixed or empty session, never fails because another operation was in progress, and never destroys the stored session.",
 ["schedules","crash_points","fault_sequences","histories"],
 "All process-kill points between and inside file operations, I/O errors and short writes, and all interleavings of create, lookup and close on several keys.",
 "Tests use a real file system without crashes, errors or concurrency.",
 ["defaultSessionManager.go"],
 [("session files","defaultSessionManager.go:Save, Parse, OnSessionLookup")],
 ["OnSessionLookup results after restart on the surviving files"])
p("C15","A closed session stays closed",
 "With the default session manager, once closing a session has been reported complete its key is never found again by any later lookup, whatever lookups, creations of other sessions or process restarts overlap with or follow the closure. Closing one session never makes another session undiscoverable, and a key, whether supplied by a client or made by a key generator, can only ever name a session stored by that manager, never any other file.",
 ["schedules","crash_points","inputs","histories"],
 "All interleavings of closures with concurrent lookups and creations, restarts, and arbitrary client-supplied keys.",
 "Resurrection needs a lookup to overlap with the closure; hostile keys are not tested.",
 ["defaultSessionManager.go"],
 [("file removal","defaultSessionManager.go:OnSessionClosed"),("path of a key","defaultSessionManager.go:filePath")],
 ["OnSessionLookup results, files touched"])
p("C17","No client behaviour or connection failure can crash the server or affect others",
 "Whatever bytes clients send and whenever and however their connections stall, fail or end, the server process does not panic, deadlock or stop accepting, a client that violates the protocol only loses its own connection, and every other connection keeps its full service. After the faulty clients are gone the server retains nothing of them.",
 ["inputs","schedules","fault_sequences","histories"],
 "Arbitrary, malformed, truncated and oversized frames, unexpected message types, cuts, stalls and half-open peers at any point of any operation, mixed with well-behaved clients.",
 "Tests send a few malformed messages to an otherwise idle server; crashes need failures inside specific windows.",
 ["handleConnection.go","handleMessage.go","message/parse.go","message/buffer.go","failMsg.go","handleSessionRestore.go"],
 [("parse validation","message/parse*.go"),("per-connection error handling","handleConnection.go")],
 ["panics","service on bystander connections","server state at rest"])
p("C18","The in-memory transport delivers reliably, in order, and closes cleanly",
 "On an open in-memory connection every message whose write reported success was received by the other side exactly once, unaltered and in write order per writer, under any number of concurrent readers and writers; a message whose write failed is never received after the failure. Closing either side, a shutdown, or a deadline always unblocks every blocked reader and writer of both sides with an error, both sides then report disconnected, and a later dial on the pair yields a fresh connection unaffected by the previous one and by whatever the server still does with it (running handlers, replies, sessions, closing it).",
 ["schedules","histories"],
 "All interleavings of concurrent reads, writes, closes on both sides, deadlines, dials and transport shutdown.",
 "Tests use sleeps to reach one interleaving each; lost wake-ups, double closes and stale confirmations are schedule dependent.",
 ["transport/memchan/socket.go","transport/memchan/buffer.go","transport/memchan/transport.go"],
 [("hand-off channel and confirmation","transport/memchan/socket.go"),("writer lock","transport/memchan/socket.go:GetWriter")],
 ["Socket and Transport API results"])
p("C19","A tracked client request completes at most once and never gets lost",
 "Every request created through the request manager gets a unique identifier and is completed by exactly one of fulfilment, failure, cancellation or deadline: completion calls for one identifier report success at most once, never block, and the awaiting caller receives exactly the reply or error of the successful call if there was one before it gave up. After completion or abandonment the request is no longer pending, and no request is affected by another's completion.",
 ["schedules","histories"],
 "All interleavings of Create, AwaitReply, Fulfill, Fail, cancellation and deadlines from any number of callers, including duplicate and late replies.",
 "Tests call one operation at a time on one request.",
 ["requestManager/requestManager.go","requestManager/request.go"],
 [("pending map under lock","requestManager/requestManager.go"),("buffered reply channel","requestManager/request.go")],
 ["return values of Fulfill, Fail, AwaitReply, PendingRequests, IsPending"])
p("C20","Message framing is independent of how the transport chunks the stream",
 "Reading a message from a stream yields the same message, or an error, no matter how the stream splits it into reads, including one byte at a time, empty reads and end-of-stream together with data, and whatever was read into the same message object before. A message that exactly fills the buffer is accepted, a longer one is rejected as an overflow without being delivered in part, and a stream that fails midway never yields a message; afterwards the buffer is usable for the next message without leftovers.",
 ["inputs","fault_sequences"],
 "All splits of all messages up to and beyond the buffer size into reads, with injected read errors at every position.",
 "Tests read from one complete byte slice.",
 ["message/buffer.go","message/read.go","message/message.go"],
 [("read loop with overflow detection","message/buffer.go:Read")],
 ["message.Message.Read results"])
p("C21","Concurrent use of the server API is free of data races",
 "Any number of goroutines may use the server, its connections, their sessions, sockets and the request manager concurrently with each other and with the library's own processing without two unsynchronised conflicting accesses to the same memory.",
 ["schedules","histories"],
 "All combinations and interleavings of exported operations with message handling, session changes, connection teardown and shutdown.",
 "The suite is not run under a race detector, and one only sees the overlaps a run happens to produce.",
 ["connection.go","server.go","sessionRegistry.go","transport/memchan/socket.go","requestManager/requestManager.go"],
 [("locks","connection.go stateLock/sessionLock, server.go opsLock, sessionRegistry.go lock")],
 ["happens-before analysis over every field, map and package variable access in simulated runs"])
p("C22","A failing write is contained: writers released, no stray or broken frames",
 "For every message the server sends (and every message a client writes with the message package) exactly one complete frame no larger than the message buffer is written and the writer is released exactly once, whatever is sent and wherever obtaining the writer, writing or flushing fails. A failed write never blocks, corrupts or duplicates any later message of that or another connection, and is reported to the caller or to the error log.",
 ["fault_sequences","inputs","schedules"],
 "Failures injected at every writer call of every kind of message the server sends, and messages of every kind beyond the buffer size or otherwise invalid, interleaved with other writers.",
 "Tests never inject writer failures.",
 ["message/writeMsg*.go","fulfillMsg.go","failMsg.go","connection.go","handleConnection.go"],
 [("close on every path","message/writeMsg*.go"),("size checks","connection.go:Signal")],
 ["GetWriter/Write/Close calls on the transport socket"])
p("C31","Every message survives an encode/decode round trip and garbage is rejected",
 "Every message the library can encode decodes to the same type, identifier, name, encoding and payload, and every byte sequence either decodes to a message consistent with the protocol or is rejected.",
 ["inputs"],"All messages and all byte sequences.",
 "Tests sample a few lengths per message type.",
 ["message/parse.go","message/writeMsgRequest.go"],[("parsers and writers","message/")])
p("C32","UTF-16 payloads convert to UTF-8 exactly",
 "Converting a valid UTF-16 payload to UTF-8 yields exactly the same text for every Unicode string.",
 ["inputs"],"All UTF-16 strings, including surrogate pairs.","Tests use ASCII text.",
 ["payload/payload.go"],[("Payload.Utf8","payload/payload.go")])
p("C33","Sessions handed out by the server are the caller's own",
 "Whatever a caller does, and whenever, to a session, session info, session info field or connection list it obtained from a connection or the server (overwriting fields, maps and slices at any depth), the server's state and what other callers, the clients and the session manager see don't change; and what the caller obtained doesn't change by itself when sessions are created, restored, closed or modified by others. This holds for session infos of the library's generic type that consist of maps, slices and plain values, and for user-defined types whose Copy is a deep copy.",
 ["schedules","inputs","histories"],"All session histories, all interleavings of accessors with each other and with session operations, all session infos made of maps, slices and plain values at any depth.",
 "Tests copy one structure once and never let the owner of a copy write to it while the server works with the session.",
 ["genericSessionInfo.go","session.go","connection.go","sessionRegistry.go"],
 [("Session.Clone","session.go"),("deepCopy","genericSessionInfo.go"),("Session, SessionInfo","connection.go"),("sessionConnections","sessionRegistry.go")])
p("C34","Session keys never repeat and cannot be guessed; failing generators do no harm",
 "Every session key of the default generator differs from every other one, is URL-safe, and is derived from at least 256 bits freshly read from the system's secure random source, whatever sessions are created concurrently. When the random source fails, or a key generator panics or returns an empty key, no session comes into being: the creation fails for its caller, and the connection, its session state and the server stay fully usable.",
 ["faults","schedules"],"All interleavings of session creations, all failures of the random source and of key generators, all contents of the random source.",
 "Tests create sessions one at a time with a random source that never fails, and never look at how much of it a key depends on.",
 ["session.go","connection.go","interfaces.go"],
 [("generateRandomBytes, generateSessionKey","session.go"),("NewSession","session.go"),("CreateSession","connection.go")])
p("C35","What a connection says about itself is true and never changes",
 "From its connected hook on, for whoever asks, and also after it has ended, a connection reports the address of the peer it was established with, one and the same time of creation (between its establishment and its connected hook), and under every integer key exactly the information its transport's options assigned to it, or nil. It is active from the beginning until it is closed, shut down or lost, and never again after it was reported inactive.",
 ["schedules","histories","inputs"],"All ways and times a connection can end, all callers and instants at which it is asked, all keys, different for every connection of a server.",
 "Tests ask one open connection for the one thing they have just assigned.",
 ["connection.go","handleConnection.go","transport/memchan/socket.go"],
 [("info","connection.go"),("newConnection","connection.go"),("isActive","connection.go")])
p("C36","Failing and panicking application code is reported and leaves no damage",
 "When application code the library calls panics within a call of the application (session info methods during session creation or in the session accessors, the session creation hook, the in-memory transport's connection options hook), the panic reaches that caller and does nothing else: no lock stays held and the connection, its session state and the server stay fully usable; a creation whose session info panicked creates no session, one whose hook panicked has created it. A panicking or failing session closing hook doesn't keep the session from being closed. Every error returned by a session manager hook, every panic of the closing hook and every error of a request handler that isn't passed to the client is written to the error log.",
 ["faults","schedules","histories"],"All such panics and errors at all instants, in all session histories, interleaved with other operations on the same connection and session.",
 "Tests let one hook fail once on an otherwise idle connection and never use the connection afterwards.",
 ["connection.go","sessionRegistry.go","newServer.go","handleRequest.go","handleSessionRestore.go","transport/memchan/socket.go"],
 [("CreateSession, Session, SessionInfo","connection.go"),("destroy","sessionRegistry.go"),("handleRequest","handleRequest.go"),("Dial","transport/memchan/socket.go")])
out=os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl")
with open(out,"w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
print(len(P))
