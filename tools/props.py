import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=None,obs=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if obs: a["observe_at"]=obs
    a["hook_needed"]=None
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":qtext},"why_tests_cant":why,"anchors":a})

H="http/"
p("C01","A response reaches the call that asked for it, and no other",
 "On every transport (HTTP/1.1, WebSocket, HTTP/2) a call that returns a response returns the one the server produced for that very call, carrying the request id the caller chose, however many calls share the client, whatever ids they use (equal ids in flight at once, or the id of an earlier call that timed out or was cancelled, included) and in whatever order responses arrive. Late, repeated or unasked-for responses and server pushes are never returned as the answer to a call.",
 ["schedules","histories","fault_sequences"],
 "every interleaving of concurrent calls on a client, every assignment of ids, every response order, delay and loss pattern, every lifetime of connections",
 "tests issue one call at a time on a healthy loopback connection with distinct ids; nothing has two requests in flight, a late answer or an id collision",
 [H+"streaming_client.go",H+"h1_client.go",H+"ws_client.go",H+"h2_client.go"],
 [("pending-request table keyed by wire id, id replaced when it collides",H+"streaming_client.go request/handleResult"),("one HTTP exchange per call",H+"h1_client.go request")],
 [("pending requests","calls waiting for an answer",H+"streaming_client.go")],["return value of Call/UnwrapCall"])
p("C02","Every call ends in bounded time",
 "A call on an established streaming connection returns a response or an error no later than ten seconds after it was sent, and an HTTP/1 call no later than the client's configured timeout (five seconds by default), whatever the server, the network, the connection's fate and the other users of the client do; no call times out before its time, and the timeout of one call never ends another. A call whose context is cancelled or past its deadline returns promptly with an error, also while it is still connecting.",
 ["schedules","fault_sequences","histories"],
 "every schedule, every point at which the connection is lost, closed, stalled or re-established, every behaviour of the peer",
 "no test lets a call time out, lose its connection or be cancelled; real-time ten-second waits across schedules are out of their reach",
 [H+"streaming_client.go",H+"h1_client.go",H+"ws_client.go",H+"h2_client.go"],
 [("request timeout",H+"streaming_client.go expire"),("http.Client timeout",H+"h1_client.go connect"),("connect before send",H+"streaming_client.go Connect")],None,["time between invocation and return of Call"])
p("C03","A client recovers by itself once faults stop",
 "However a client's connection was lost (server restart, reset, end of stream, stalled network, its own Close, or the end of the context that opened it), once the network and the server work again a bounded number of further calls on the same client value opens a new connection and succeeds. Nothing left over from an earlier connection disturbs the new one: once a call succeeded on it, later calls succeed and the connection stays open until something ends it.",
 ["schedules","fault_sequences","crash_points"],
 "every point in the life of a connection at which it breaks, every number of breaks and reconnects, every overlap between tearing the old connection down and opening the new one",
 "no test reconnects a client; teardown/reopen races need chosen interleavings",
 [H+"streaming_client.go",H+"ws_client.go",H+"h2_client.go",H+"h1_client.go"],
 [("connect on demand",H+"streaming_client.go Connect"),("teardown",H+"streaming_client.go Reset/handleError")],None,["results of calls after the last fault"])
p("C04","A request is executed at most once, exactly once if answered",
 "Each call or notification runs its handler at most once, whatever is retried, reconnected, duplicated or reordered below; if the call returned a handler's result or error it ran exactly once, and with the parameters the caller passed. A message whose sending failed or was cut off midway either runs once, complete, or not at all.",
 ["schedules","fault_sequences","crash_points"],
 "every crash/reset/partition point between issuing a request and reading its response, at every byte of the exchange, on every transport",
 "tests never break a connection mid-exchange and never count executions",
 [H+"streaming_client.go",H+"h1_client.go",H+"h1_server.go",H+"ws_server.go",H+"h2_server.go",H+"request.go"],
 [("no resend after reconnect",H+"streaming_client.go"),("one dispatch per received message",H+"ws_server.go recvLoop; h2_server.go recvLoop"),("single dispatch over child actors",H+"request.go Feed")],None,["handler invocations per request"])
p("C05","Messages of a connection arrive in order, whole and once",
 "Messages sent one after the other by one sender over one streaming connection arrive in that order, each complete and unaltered and once: notifications and requests at a server that handles a session serially, and messages the server pushes to a session at the client's message handler (equal messages sent in a row included). When the connection breaks, what arrived is a gapless run of what was sent on it; a message is lost only with its connection.",
 ["schedules","fault_sequences","histories"],
 "every schedule of senders, loops and peers, every segmentation of the byte stream, bursts beyond every buffer, every break point",
 "tests send single messages and never push from server to client under load",
 [H+"streaming_client.go",H+"ws_server.go",H+"h2_server.go",H+"ws_client.go",H+"h2_client.go"],
 [("one send queue and one writer per connection",H+"streaming_client.go sendLoop; ws_server.go sendLoop; h2_server.go sendLoop"),("one reader per connection",H+"recvLoop of client and sessions")],None,["handler invocation order","OnMessage order"])
p("C06","No client can take the server or another client down",
 "Whatever a client does at whatever moment (malformed, truncated or binary messages, bad frames, handshakes abandoned half-way, disconnecting while requests are being read or handled or answers are written, not reading its answers, handlers that fail for it with an error or an error-valued panic), the process does not crash, other clients' calls are answered correctly and in time, and new clients are served. Neither can anything a server sends crash a client's process.",
 ["schedules","inputs","fault_sequences"],
 "every misbehaviour at every instant of a connection's life, in every interleaving with well-behaved clients",
 "tests have a single polite client; the window between a disconnect and the session's last goroutine is never exercised",
 [H+"ws_server.go",H+"h2_server.go",H+"h1_server.go",H+"request.go",H+"streaming_client.go",H+"ws_client.go",H+"h2_client.go"],
 [("per-session goroutines and queues",H+"ws_server.go; h2_server.go"),("recover around handlers",H+"request.go recoverCallHandler"),("parse errors end the session only",H+"ws_server.go msgBytesReceived; h2_server.go recvLoop")],None,["process liveness","victim calls"])
p("C07","The end of a connection is reported exactly once, on both ends",
 "When a streaming session ends for whatever reason (client closes, connection lost, the context that opened it cancelled, protocol error, server shut down) the server runs the close callback of every actor of the tree exactly once for that session, promptly, and never for a session still being served. On the client, the registered close handler runs exactly once for the first connection that ends, and a Wait started on the connection returns: nil if the user closed it, an error if it was lost.",
 ["schedules","fault_sequences","crash_points"],
 "every way and every moment a connection can end, including several of them at once and repeated Close",
 "two tests check that a client close handler ran after a server shutdown; count, server side, races and Wait are untested",
 [H+"ws_server.go",H+"h2_server.go",H+"request.go",H+"streaming_client.go"],
 [("deferred HandleClose",H+"ws_server.go ServeHTTP; h2_server.go ServeHTTP"),("close handler cleared after use, close channel",H+"streaming_client.go handleError/Reset/Wait"),("children called first",H+"request.go HandleClose")],None,["OnClose callbacks","Wait result"])
p("C08","Ended sessions and calls leave nothing behind",
 "Within bounded time after a session or a client connection has ended, and after every call has returned, no goroutine and no network connection of it is left, on either side, however it ended and whatever was queued or being handled. Sending to a session that has ended returns, in any quantity and at any moment, instead of blocking its sender.",
 ["schedules","fault_sequences","histories"],
 "every way a session ends with every amount of queued or in-flight work, over many connect/disconnect cycles",
 "tests end with the process; no test looks at goroutines or connections, or sends to a dead session",
 [H+"ws_server.go",H+"h2_server.go",H+"streaming_client.go",H+"ws_client.go",H+"h2_client.go",H+"server_utils.go"],
 [("loops end on context or closed transport",H+"ws_server.go; h2_server.go; streaming_client.go"),("buffered channels",H+"ws_server.go; h2_server.go")],None,["goroutine inventory","open simulated connections"])
p("C09","One reply per request, saying what the handler did, on every transport",
 "Each well-formed request gets exactly one reply and a notification none: the handler's result, the handler's RPC error (code, message, data), internal error (-32603) for any other error or error-valued panic (over HTTP/1, an HTTP response given as the error is passed on instead), method not found (-32601) when nothing handles it, invalid parameters (-32602) when typed parameters do not convert. The reply is the same whichever transport carried the request, whichever actor of the tree holds the handler, and whatever else is being handled at the time.",
 ["schedules","inputs","histories"],
 "every mix of concurrently handled requests and outcomes on all transports, with delays and segmentation",
 "tests check single outcomes in sequence, mostly on HTTP/1",
 [H+"request.go",H+"typewrap.go",H+"h1_server.go",H+"ws_server.go",H+"h2_server.go"],
 [("outcome mapping",H+"request.go wrapResult/Feed"),("typed wrapper",H+"typewrap.go wrapTyped")],None,["wire replies per request"])
p("C10","Any segmentation of the stream yields the same messages, truncation none",
 "Requests, results, errors and pushed messages arrive with exactly the content that was sent (nesting, unicode, integers beyond 2^53, empty and null values, sizes beyond every buffer), however the bytes are split, coalesced or delayed on the way. A message of which only a part arrived before the connection broke is never delivered, neither to a handler nor as a response.",
 ["inputs","fault_sequences","schedules"],
 "every segmentation and delay of the byte stream, every truncation point, every message size",
 "loopback delivers each small message in one segment; nothing is ever truncated",
 [H+"h1_server.go",H+"h1_client.go",H+"h2_server.go",H+"h2_client.go",H+"ws_server.go",H+"ws_client.go","parse.go","messageimpl.go"],
 [("json stream decoding",  "parse.go DecodeMessage"),("whole body read before parsing",H+"h1_server.go; h1_client.go")],None,["values seen by handlers and callers"])
p("C11","Only authorised requests get in, under their own identity, while valid",
 "With authentication configured, a request or streaming connection reaches a handler only with credentials the configuration accepts at that moment of the wall clock (a signed token only until its expiry, however often it was accepted before), and is refused with status 401 otherwise; accepted credentials are accepted every time. The handler sees the user name and settings of its own request's credentials, however many differently authenticated requests are in progress and whatever any of them did before.",
 ["schedules","histories","inputs","fault_sequences"],
 "every history of accepted and refused credentials, cache fills and evictions, concurrent requests, and every movement of the wall clock",
 "tests authenticate once with a token valid for an hour; expiry, reuse, eviction and concurrency are never exercised",
 [H+"auth_handler.go"],
 [("token cache",H+"auth_handler.go jwtAuth"),("credential comparison",H+"auth_handler.go TryAuth"),("identity in request context",H+"auth_handler.go ServeHTTP")],None,["status codes","identity seen by handlers"])
p("C12","Session requests run concurrently, or strictly one by one if asked",
 "By default the requests of one session are handled concurrently: a slow handler never delays another request of the session, nor its answer. With per-request goroutines switched off, the requests and notifications of one session are handled strictly one after the other in the order sent, while other sessions still progress independently.",
 ["schedules","configurations"],
 "every handler duration and every schedule, in both modes, on WebSocket and HTTP/2",
 "no test has two requests of a session in progress; the serial mode is not tested at all",
 [H+"ws_server.go",H+"h2_server.go"],
 [("goroutine per message or inline handling",H+"ws_server.go recvLoop; h2_server.go recvLoop")],None,["handler start/end order per session"])
p("C13","One gateway port serves all transports at once",
 "A gateway serves HTTP/1.1, WebSocket and HTTP/2 clients (over TLS, or in clear text when insecure) on one port at the same time: every request is handled by the transport its client speaks, streaming clients get a session and HTTP/1 clients none, and faults or load on connections of one kind do not affect the others.",
 ["schedules","configurations","fault_sequences"],
 "every mix and overlap of clients of the three kinds, secure and insecure",
 "tests contact the gateway with one client at a time",
 [H+"gateway_handler.go",H+"h2_server.go",H+"ws_server.go",H+"h1_server.go",H+"server_utils.go"],
 [("protocol detection",H+"gateway_handler.go ServeHTTP"),("h1 fallback",H+"h2_server.go ServeHTTP")],None,["results and session identity per transport"])
p("C14","Cancelling the server context shuts everything down",
 "When the server's context is cancelled, at whatever moment, the server stops accepting connections and its serve call returns, every WebSocket and HTTP/2 session ends in bounded time with its close callbacks run, and connected clients learn of it: pending calls return and close handlers run. A new server can then be started on the same address and serves the same clients.",
 ["schedules","crash_points"],
 "every moment of cancellation relative to connecting, handling, replying and pushing",
 "tests cancel an idle server once",
 [H+"server_utils.go",H+"ws_server.go",H+"h2_server.go",H+"gateway_handler.go"],
 [("context watched by sessions",H+"ws_server.go wait; h2_server.go wait"),("listener closed on cancel",H+"server_utils.go ListenAndServe")],None,["serve return","close callbacks","client observations"])
p("C15","A handler's context lives exactly as long as its connection",
 "The context given to a handler stays alive while the client's connection (HTTP/1: the request) is alive and the server is not shutting the session down, and is cancelled in bounded time once the client has gone (where requests of a session are handled concurrently), so that a handler waiting on it is released. The context given when a client connects governs that connection only: cancelling it closes that connection, and a context used merely for a later call does not.",
 ["schedules","fault_sequences"],
 "every moment of disconnect relative to handling, on all transports",
 "no test waits on a handler context or cancels a connect context",
 [H+"ws_server.go",H+"h2_server.go",H+"h1_server.go",H+"request.go",H+"streaming_client.go"],
 [("request context passed to handlers",H+"request.go NewRPCRequest"),("connection context",H+"streaming_client.go Connect/sendLoop")],None,["ctx.Done in handlers"])
p("C16","A trace id travels with its request and its reply",
 "The trace id set on a request or notification is the one its handler sees and the one the response to that call carries back, on every transport and for every outcome, however many differently traced requests are in progress. Making a call leaves the caller's message as it was.",
 ["schedules","histories"],
 "every mix of concurrent traced and untraced calls over all transports",
 "tests set trace ids on messages but never across a transport",
 [H+"h1_client.go",H+"h1_server.go","messageimpl.go","parse.go"],
 [("X-Trace-Id header",H+"h1_client.go; h1_server.go"),("traceid member","messageimpl.go Interface; parse.go DecodeMessage")],None,["trace id in handler and response"])
p("C17","The FIFO service is linearizable, with exact subscriptions",
 "The FIFO service built on the library (examples/fifo), used by any concurrent clients over any transports, behaves as if its operations (push appends, pop removes the newest item, get, list) took effect one at a time between call and return; a list or get never shows a mixture of two states. Each subscriber receives every item pushed while it was subscribed and connected, once and in push order, and a subscriber that leaves or hangs never blocks, corrupts or crashes the service for the others once it is disconnected.",
 ["schedules","histories","fault_sequences"],
 "every interleaving of concurrent operations, subscriptions and disconnects",
 "the example has no test",
 ["examples/fifo/main.go",H+"request.go",H+"gateway_handler.go"],
 [("lock around the slice and the subscribers","examples/fifo/main.go"),("pushes to sessions",H+"ws_server.go Send; h2_server.go Send"),("close callback of a session",H+"request.go HandleClose")],None,["operation history","notifications received"])
p("C18","Schema checks judge each request by itself",
 "A method guarded by a schema runs its handler exactly for the requests the schema accepts; any other request is answered with the invalid-schema error (-32633) whose message names the offending place, and no handler runs. The verdict and its message depend only on the request and the schema, never on requests checked before or at the same time, on this method or others sharing the schema.",
 ["schedules","histories","inputs"],
 "every interleaving and history of valid and invalid requests over methods sharing schema objects",
 "tests validate single values one after the other on fresh validators",
 [H+"request.go","schema/validator.go","schema/schema.go"],
 [("validator per request",H+"request.go Feed"),("path stack","schema/validator.go")],None,["replies and handler runs"])
p("C19","Message encoding and decoding are inverse to each other",
 "Encoding any message and decoding the bytes yields an equal message of the same kind; malformed input is rejected with an error.",
 ["inputs"],"every message","tests sample a few messages",
 ["parse.go","messageimpl.go"],[("decoder","parse.go DecodeMessage")])
p("C20","A schema accepts exactly the values it describes",
 "For every schema and JSON value the validator's verdict is the one the schema's documented meaning gives, and building a schema from its own description yields an equal schema.",
 ["inputs"],"every schema and value","tests sample a few schemas and values",
 ["schema/schema.go","schema/builder.go","schema/validator.go","schema/convert.go"],[("scan per schema type","schema/schema.go")])
p("C21","Command-line arguments and parameters convert predictably",
 "Guessing JSON from command-line text and decoding parameter lists into structures give, for every input, the value the documentation describes or an error.",
 ["inputs"],"every argument string and parameter list","tests sample a few",
 ["utils.go"],[("guessing","utils.go GuessJson"),("decoding","utils.go DecodeParams")])
p("C22","The command-line programs do what they were told, once, and say so",
 "jsonrpc-call makes exactly one call with the method, parameters and headers it was given, prints the one response it got, and if it gets none prints nothing, says why on its error output and exits with a failure. jsonrpc-notify has its notification handled exactly once when it reports success and nothing happened to it. jsonrpc-benchmark makes the calls it was told to make, never more at a time than it was told, and prints figures that fit them. jsonrpc-watch prints every message pushed over its connections, once and in order, makes its call anew (with its headers) on each connection it makes, keeps going over lost connections until it has failed as many times in a row as it was told, at least a second apart, and then exits; none of them crashes because its connection was lost, or runs for ever.",
 ["schedules","histories","fault_sequences"],
 "every moment at which a server restarts or a connection breaks, every interleaving of pushes, answers, reconnects and exits, arguments and environment",
 "the programs have no tests; what they do depends on when connections break and on whether the process ends before its writes",
 ["cli/call/main.go","cli/notify/main.go","cli/watch/main.go","cli/benchmark/main.go",H+"client_util.go",H+"streaming_client.go"],
 [("retry loop and its counter","cli/watch/main.go jsonrpcWatcher.run"),("header flags",H+"client_util.go HeaderFlags"),("callers and their results","cli/benchmark/main.go RunCallBenchmark")],None,["output, exit status and end of the process","executions and headers seen by the server"])
p("C23","A relay built on the library is transparent",
 "A server whose handlers pass the messages they are given on to another server through a client of the library (one for all callers, or one for each session), on any transports on either side, is transparent: each call is answered, under its caller's id and trace id, with what the server behind answered to that very call, though callers use the same ids at the same time, and runs there at most once, exactly once if its answer came back; an HTTP response that answers it is passed on to an HTTP/1 caller with its status, headers and body, and is an internal error to any other. If the server behind fails, goes away or restarts, the calls concerned are answered with an error in bounded time, the sessions of the callers stand and their other calls go on, and calls succeed again once it is back. A caller that goes away has its relayed calls given up. Messages pushed by the server behind reach the caller they are for, once and in order. Nothing is left behind when all is over.",
 ["schedules","histories","fault_sequences"],
 "every interleaving of callers sharing an upstream client with losses and restarts behind the relay, on every pair of transports",
 "no test connects a server's handler to a client; ids, contexts and errors of two connections meet there",
 [H+"request.go",H+"h1_server.go",H+"ws_server.go",H+"h2_server.go",H+"streaming_client.go",H+"h1_client.go",H+"errors.go"],
 [("result and error of a handler",H+"request.go wrapResult"),("http response passed on",H+"h1_server.go ServeHTTP; h1_client.go request"),("ids exchanged",H+"streaming_client.go Call"),("context of the caller",H+"request.go NewRPCRequest")],None,["what callers get","executions behind the relay","sessions of the callers"])
open("/verif/properties.jsonl","w").write("".join(json.dumps(x,ensure_ascii=False)+"\n" for x in P))
for x in P: assert len(x["title"])<=80,(x["id"],len(x["title"]))
