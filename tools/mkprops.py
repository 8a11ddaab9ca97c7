#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (run: python3 tools/mkprops.py)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe, state=None, hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                     state=[dict(name=n, meaning=m, where=w) for n, m, w in (state or [])],
                     observe_at=observe, hook_needed=hook)))

p("C01", "Every invocation is answered exactly once",
  "While a connection stays up, every invocation with an id that a peer sends to a server hub or to a client receiver gets exactly one completion with that id once the method has finished: the method's result, or an error if the method is unknown, the arguments do not fit or the method panics. "
  "An invocation without an id gets no completion. A method that is still running never delays the answers to other invocations on the connection (a method that leaves more of its upload unread than the configured buffer holds it back by design).",
  ["schedules", "inputs", "histories"],
  "All interleavings of invocations (simple and streaming, with and without id, valid, unknown, badly typed, panicking, void, multi-valued, long running) on one connection, arriving one by one or coalesced, in both protocols, on server and client.",
  "The tests invoke one method at a time with well-formed arguments and never look at what follows the first completion (the second completion after a panic is not noticed).",
  ["loop.go", "hubconnection.go", "party.go"],
  [("invocation dispatch and argument building", "loop.go handleInvocationMessage, buildMethodArguments"),
   ("result and panic reporting", "loop.go returnInvocationResult, recoverInvocationPanic, sendResult")],
  ["messages written to the connection", "method calls seen by the hub or receiver"])

p("C02", "Every client call resolves exactly once, with its own answer",
  "Every Invoke, Send, PullStream and PushStreams call resolves exactly once, with the result, stream items or error that the server sent for that very call, or with an error, and its channel is then closed; no result is lost, duplicated or delivered to another call, however many calls run concurrently. "
  "Stream items are delivered in the order the server sent them, and an error the server reports ends the stream after the items sent before it. "
  "A call that is pending when its connection ends or the client is stopped resolves with an error instead of hanging or looking successful.",
  ["schedules", "histories", "fault_sequences"],
  "All interleavings of concurrent calls, answers in any order, stream items, and connection loss or stop at any point, including between issuing and sending a call.",
  "Tests run single calls against a healthy server; id uniqueness under concurrency, answers in permuted order, and losses at every point are not sampled (the Invoke container is even excluded as flaky).",
  ["client.go", "invokeclient.go", "streamclient.go", "loop.go", "Invokeresult.go"],
  [("invocation ids", "loop.go GetNewID"), ("pending call table", "invokeclient.go"),
   ("result channel merging", "Invokeresult.go newInvokeResultChan"), ("cancel pending at loop end", "loop.go Run")],
  ["result channels returned by the client API", "messages written to the connection"])

p("C03", "Streams to the peer are ordered, complete, completed once and cancellable",
  "For every stream invocation the peer receives exactly the items the method's channel produced, in order, followed by exactly one completion and nothing afterwards. "
  "Once a cancellation for a stream has been processed no further item of it is sent, it is completed exactly once, and no other stream is affected, for any number of streams and cancellations on a connection.",
  ["schedules", "histories"],
  "All interleavings of several concurrently running streams, item production, closing, and cancellations (before the first item, between items, after the end, repeated, hundreds per connection).",
  "The tests cancel one stream once; they cannot reach the accumulated effect of many cancellations or interleavings of streams.",
  ["streamer.go", "loop.go", "hubconnection.go"],
  [("stream goroutine and cancel table", "streamer.go Start, Stop"), ("stream start", "loop.go returnInvocationResult")],
  ["stream items and completions written to the connection"])

p("C04", "Upload streams reach their channel in order and always end",
  "Every item a peer uploads for a stream id is received exactly once and in order by exactly the method parameter bound to that id, and the parameter's channel is closed when the peer completes the stream or the connection ends, so a method reading it always terminates. "
  "Concurrent uploads do not affect each other; an upload beyond the configured number of concurrent streams is refused with an error completion and costs nothing, and an ended or refused upload frees its capacity.",
  ["schedules", "histories", "fault_sequences"],
  "All interleavings of several uploads with one or two stream parameters, items, completions (plain or with error), refused or malformed invocations, and connection loss at every point.",
  "Tests upload a few items and complete; loss in the middle of an upload and repeated refused uploads are never exercised.",
  ["streamclient.go", "loop.go"],
  [("channel registration and cap", "streamclient.go buildChannelArgument"), ("item delivery and completion", "streamclient.go receiveStreamItem, receiveCompletionItem")],
  ["items and close seen by the method", "completions written to the connection"])

p("C05", "Messages reach exactly the addressed clients, once",
  "A message sent to all clients, to one client, to a group or to the caller is delivered exactly once to every connected client it addresses at that moment and to no other client, whether it is sent from hub methods or from outside a hub.",
  ["histories", "schedules"],
  "All histories of connect, disconnect, join, leave (repeated and for unknown clients and groups) and sends on a set of connections and groups, and concurrent runs of the same operations.",
  "Tests use two or three connections in one fixed history each.",
  ["hublifetimemanager.go", "hubclients.go", "clientproxy.go", "groupmanager.go", "hubcontext.go"],
  [("client and group tables", "hublifetimemanager.go"), ("proxies", "clientproxy.go, hubclients.go")],
  ["invocation messages written to each connection"])

p("C06", "A disconnected client is forgotten completely",
  "Once a connection has ended, it is in no group and addressed by no send, a later connection never inherits anything from it, and the server keeps nothing of it in memory, for every interleaving of its end with joins, leaves, sends and invocations that are still in progress.",
  ["schedules", "histories"],
  "All interleavings of disconnect with concurrent joins, leaves, sends and hub callbacks of the same connection; repeated connect and disconnect of the same id.",
  "The race window between looking a client up and adding it to a group is nanoseconds wide; tests never disconnect while a join is running.",
  ["hublifetimemanager.go", "server.go", "loop.go"],
  [("disconnect cleanup", "hublifetimemanager.go OnDisconnected, server.go onDisconnected"), ("join", "hublifetimemanager.go AddToGroup")],
  ["messages to later connections with the same id", "reachability of ended connections after garbage collection"],
  hook="a scheduling point between client lookup and group insertion")

p("C07", "A stalled client or method delays nobody else",
  "While any subset of clients does not read, or any hub method blocks, messages to all other clients are still delivered, their invocations are still answered, and other clients can still connect, join groups and disconnect.",
  ["schedules", "fault_sequences"],
  "Every subset of stalled connections and blocked methods combined with every history of sends to all, groups and clients, invocations, connects and disconnects on the others.",
  "Tests only use clients that read promptly.",
  ["hublifetimemanager.go", "hubconnection.go", "loop.go"],
  [("send per connection in its own goroutine", "hublifetimemanager.go InvokeAll, InvokeGroup, InvokeClient"), ("write outside any shared lock", "hubconnection.go writeMessage")],
  ["messages written to the other connections"])

p("C08", "Connection callbacks run exactly once and serving always ends",
  "For every connection that completes the handshake, the connect callback runs exactly once, and after the connection ended for whatever reason (peer close, transport error, protocol violation, timeout, hub abort, server shutdown) the disconnect callback runs exactly once with the same connection id and serving the connection returns; a connection that fails the handshake gets neither. "
  "Shutting the server down ends every connection, even one whose peer has stopped reading.",
  ["fault_sequences", "histories", "schedules"],
  "Every end reason at every point of a connection's life, combined with running methods, streams and a peer that does not read.",
  "Tests end connections in one or two ways and mostly check callbacks only once.",
  ["server.go", "loop.go", "hubconnection.go", "hubcontext.go"],
  [("startup and shutdown sequence", "loop.go Run"), ("callbacks", "server.go onConnected, onDisconnected")],
  ["hub callbacks", "return of Serve", "messages written to the connection"])

p("C09", "Hub instances and connection items are isolated per connection",
  "With a per-connection hub factory exactly one hub is created for each connection, it receives all callbacks and invocations of that connection and of no other, and a later connection with the same id gets a new one. "
  "Connection items stored by one invocation are visible to all later invocations of the same connection and never to another connection.",
  ["schedules", "histories"],
  "All interleavings of the connect callback, concurrent first invocations, the disconnect callback and cleanup, over several connections with equal and different ids.",
  "The check-then-create race between the connect callback and the first invocations is not forced by any test, and nothing counts factory calls.",
  ["server.go", "hubcontext.go", "hubconnection.go"],
  [("per-connection hub map", "server.go invocationTarget, getConnectionHub, setConnectionHub, removeConnectionHub"), ("items map", "hubconnection.go Items")],
  ["factory calls", "identity of the hub executing callbacks and methods"])

p("C10", "Hostile input and panics stay contained",
  "No byte sequence a peer sends crashes the process or disturbs another connection: a malformed or unexpected message is answered with an error completion, is ignored, or ends only the connection it arrived on. "
  "A panic in a hub method is reported only to its caller, and the report contains a stack trace only if detailed errors are enabled.",
  ["inputs", "histories"],
  "All messages from a grammar of structural and type mutations of every message type in both protocols, at every phase of a connection (idle, method running, stream running, upload running).",
  "Tests send two or three hand-written invalid messages.",
  ["loop.go", "jsonhubprotocol.go", "messagepackhubprotocol.go", "streamclient.go", "invokeclient.go"],
  [("argument building", "loop.go buildMethodArguments"), ("parsing", "jsonhubprotocol.go, messagepackhubprotocol.go"), ("panic recovery", "loop.go recoverInvocationPanic")],
  ["process survival", "messages on the sending and on other connections"])

p("C11", "Message delivery does not depend on how bytes are split",
  "The messages a party processes depend only on the byte stream it receives: each complete message is processed as soon as its last byte has arrived, none is lost, duplicated, merged or altered, however the stream is cut into reads, starting with the first byte after the handshake, in both protocols and both roles. "
  "Every outgoing message is handed to the transport as one complete frame, however many senders are active.",
  ["inputs", "schedules"],
  "All ways to cut a short sequence of messages (including the handshake and pings) into chunks, for both protocols, both roles and several message lengths; concurrent senders.",
  "Tests use a handful of splits and mostly one message per write.",
  ["jsonhubprotocol.go", "messagepackhubprotocol.go", "hubconnection.go", "server.go", "client.go"],
  [("frame readers", "jsonhubprotocol.go readJSONFrames, messagepackhubprotocol.go readFrames"), ("pipe between reader and parser", "hubconnection.go Receive"), ("handshake readers", "server.go receiveHandshakeRequest, client.go receiveHandshakeResponse")],
  ["method calls after each chunk", "single writes on the connection"])

p("C12", "The receive size limit applies to each message and only to it",
  "A message larger than the configured maximum receive message size is never dispatched and ends only the connection it arrived on; messages within the limit are accepted however many arrive together, in both protocols.",
  ["inputs", "configurations"],
  "All sequences of small and oversized messages, cut and coalesced in every way, for several limits and both protocols.",
  "Tests send one oversized message at a time.",
  ["jsonhubprotocol.go", "messagepackhubprotocol.go", "hubconnection.go"],
  [("size checks", "jsonhubprotocol.go readJSONFrames, messagepackhubprotocol.go readFrames")],
  ["method calls", "end of the connection", "other connections"])

p("C13", "Nothing happens before a successful handshake",
  "Before a valid handshake request for a supported protocol has arrived the server dispatches nothing, runs no callback and writes nothing but the handshake response; an unsupported protocol is answered with an error response and the connection is not served, and a missing or malformed request ends the attempt within the handshake timeout. "
  "A client first sends its handshake request and neither sends nor dispatches anything else until the response arrived; an error, malformed or missing response fails the connection attempt with an error within the handshake timeout.",
  ["inputs", "fault_sequences", "schedules"],
  "All handshake texts from a grammar (valid, wrong protocol, malformed, empty, split, late, followed by messages, closed early, never) with calls and messages before, during and after it.",
  "Tests cover a few fixed handshakes, without calls racing them.",
  ["server.go", "client.go"],
  [("server handshake", "server.go processHandshake"), ("client handshake", "client.go processHandshake, setupConnectionAndProtocol")],
  ["bytes written to the connection", "hub callbacks", "result of Serve, client state and error"])

p("C14", "Keep-alive pings and timeouts hold at all times",
  "While a connection is up, a party never leaves it without a message for longer than its keep-alive interval. A connection on which nothing was received for the timeout interval is ended with an error, and one that receives any message more often than that is never ended by the timeout, regardless of what is sent.",
  ["schedules", "configurations", "histories"],
  "All timings (in discrete ticks) of received messages of every type and of own writes, for several ratios of keep-alive, timeout and traffic period, both roles and protocols.",
  "Tests wait for one ping or one timeout with fixed intervals.",
  ["loop.go", "hubconnection.go"],
  [("tickers", "loop.go Run"), ("last write stamp", "hubconnection.go writeMessage")],
  ["times of writes and of the end of the connection in virtual time"])

p("C15", "The client state is truthful, observable and never blocks",
  "The client state follows created, connecting, connected, connecting or closed, is connected only between a successful handshake and the end of that connection, and is closed for good once the client was stopped or can not connect again. "
  "Every observer receives every state change in order until its observation is cancelled, and an observer that does not read delays neither the client nor other observers. "
  "Waiting for a state ends successfully when the state is reached and with an error when the client closes or the wait is cancelled.",
  ["schedules", "histories", "fault_sequences"],
  "All histories of start, connect success or failure, loss, server close, stop at any point, waits for any state, and observers that read or do not read.",
  "Tests follow one or two state sequences with reading observers.",
  ["client.go"],
  [("state changes and observers", "client.go setState, ObserveStateChanged, WaitForState"), ("client loop", "client.go Start, run, shouldClientEnd")],
  ["State, Err, observer channels, wait results"])

p("C16", "Reconnecting follows the backoff policy and the server's decision",
  "After a connection attempt failed or a connection ended, a client with a connector dials a new connection after the delay its backoff policy gives, restarts the policy after a successful connection, and stops for good when the policy gives up, the client is stopped, or the server closed the connection without allowing reconnect. "
  "It never uses a connection again that has ended or failed, and never has two connections in use.",
  ["fault_sequences", "histories", "schedules"],
  "All sequences of dial failures, handshake failures, losses, closes with and without reconnect permission and stops, with finite and infinite backoff policies, in virtual time.",
  "Tests reconnect once.",
  ["client.go", "clientoptions.go", "loop.go"],
  [("client loop", "client.go Start, run, shouldClientEnd"), ("connection setup", "client.go setupConnectionAndProtocol")],
  ["connector calls and their virtual times", "bytes written to each connection", "client state"])

p("C17", "Negotiated connection ids are exclusive and expire",
  "Only an id handed out by negotiation can be used to connect (except a WebSocket without any id), each at most once: unknown, used, expired and ended ids are rejected and a rejected request never disturbs the connection that owns the id. "
  "At most the configured number of negotiations can be pending, ids that are never used expire after the handshake timeout, and negotiation reports distinct ids and the configured transports in both protocol versions. A Go client uses only transports which both sides allow, can use all of them again for every connection attempt, leaves the options of its caller as they are and sends the headers it is given with every request.",
  ["histories", "schedules", "configurations"],
  "All histories of negotiate (both versions), connects over both transports with fresh, used, foreign, expired and unknown ids, posts, ends and passing time, and concurrent claims of one id; all histories of Go clients connecting with any set of allowed transports and configured headers to servers of both protocol versions.",
  "Tests negotiate and connect once.",
  ["httpmux.go", "negotiateresponse.go", "httpconnection.go"],
  [("connection map", "httpmux.go connectionMap, negotiate, handleGet, handlePost, serveConnection"), ("reaper", "httpmux.go reaperLoop")],
  ["HTTP status codes and bodies", "connections seen by the hub"])

p("C18", "HTTP transports deliver every message intact",
  "Over Server-Sent Events and over WebSockets, every message either side sends while the connection is up reaches the other side exactly once and unaltered, in the order it was sent when sends do not overlap, whatever the message sizes, the pieces in which the network delivers them, and concurrent sends; failed or rejected requests never block later ones, and the end of the transport ends the connection on both sides.",
  ["inputs", "schedules", "fault_sequences"],
  "Sequences of messages of various sizes and contents in both directions, with arbitrary network chunking, concurrent sends, oversized or aborted posts and disconnects at any point.",
  "Tests exchange one small message per transport over a friendly network.",
  ["serversseconnection.go", "clientsseconnection.go", "websocketconnection.go", "httpmux.go", "httpconnection.go"],
  [("server side of SSE", "serversseconnection.go"), ("client side of SSE", "clientsseconnection.go"), ("WebSocket", "websocketconnection.go")],
  ["method calls on both sides", "HTTP status codes"])

p("C19", "Redis scale-out routes like a single server",
  "With the Redis lifetime manager on any number of servers, a message to all clients, a client or a group is delivered exactly once and with the arguments it was sent with (values of JSON) to every addressed client connected to any of the servers and to nobody else, without breaking the receiving connections; joins, leaves, disconnects and the end of a server take effect whichever server executes them.",
  ["histories", "schedules"],
  "All histories of connect, disconnect, join, leave and sends (also two at the same time, and operations during the end of a connection) on several servers sharing one Redis, with clients that do not read, interrupted connections to Redis and servers that stop.",
  "There are no tests for it at all.",
  ["ext/redishublifetimemnager.go", "ext/options.go"],
  [("publish and dispatch", "ext/redishublifetimemnager.go InvokeAll, InvokeGroup, InvokeClient, subscribeLoop, handleRedisMessage"),
   ("membership", "ext/redishublifetimemnager.go AddToGroup, RemoveFromGroup, OnConnected, OnDisconnected")],
  ["invocation messages written to each connection"])

p("C20", "Arguments and results arrive unchanged in both protocols",
  "A value passed as argument or stream item arrives with the same value on the other side, in the type which the method there declares; results and pulled items, for which the Go client declares no type, arrive with the same value (a nil list or map is as good as an empty one, a nil result as good as none). The same call behaves the same in the JSON and the MessagePack protocol, for all supported types and for exact, differently cased and alternate method names; values of concurrent or consecutive calls and items never leak into each other.",
  ["inputs", "configurations"],
  "All values up to a small depth from a grammar of supported types (numbers, strings, booleans, bytes, times, arrays, maps, structs, nil, pointers) in argument, result and item position, for both protocols and in both directions.",
  "Tests cover some values in JSON and few in MessagePack.",
  ["jsonhubprotocol.go", "messagepackhubprotocol.go", "loop.go", "party.go"],
  [("message encoding and decoding", "jsonhubprotocol.go, messagepackhubprotocol.go"), ("method lookup", "loop.go getMethod")],
  ["arguments seen by methods", "results seen by callers", "wire messages"])

if __name__ == "__main__":
    out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
    with open(out, "w") as f:
        for x in P:
            assert len(x["title"]) <= 80, x["id"]
            f.write(json.dumps(x) + "\n")
    print(len(P))
