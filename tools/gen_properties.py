#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the statements stay reviewable)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe, state=()):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=qtext), why_tests_cant=why,
                  anchors=dict(files=files, state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
                               mechanism=[dict(name=n, where=w) for n, w in mech], observe_at=observe, hook_needed=None)))
H = "include/http/HTTPServer.hpp"; W = "include/http/WebSocket.hpp"; M = "include/weblink/Messages.hpp"; L = "include/weblink/WebLink.hpp"
F = "include/WebFront.hpp"; J = "include/JsFunction.hpp"; S = "include/system/FileSystem.hpp"; N = "include/networking/TCPNetworkingTS.hpp"
LG = "include/tooling/Logger.hpp"; MT = "include/http/MimeType.hpp"; NFS = "include/system/NativeFS.hpp"; E = "include/http/Encodings.hpp"

prop("C01", "HTTP replies depend only on the connection's own request bytes",
     "The reply to an HTTP request is decided by the bytes sent on that connection and the files being served, whatever way the network splits, delays or coalesces those bytes and whatever other connections are doing meanwhile. "
     "A complete well-formed GET or HEAD gets the reply for its target, a well-formed request with any other method gets 501, and a request with a malformed request line or header line, or whose decoded target is not an absolute path or contains '..', gets 400. "
     "Nothing is answered before the blank line that ends the headers unless the request is already malformed.",
     ["inputs", "schedules", "histories"], "every request byte string, every segmentation and timing of it, every interleaving with the traffic of other connections",
     "Tests parse a handful of requests from one contiguous buffer (or three fixed chunks) on a single Request object; no test runs a Connection or two requests interleaved.",
     [H, E], [("incremental request parser", H + ": Request::parseSomeData/completeRequest"), ("per-connection read loop", H + ": Connection::read")],
     ["bytes received by each simulated client"], [("state", "parser position inside the request", H + ": Request")])
prop("C02", "Each HTTP reply arrives whole and once, then the connection closes",
     "Every HTTP request that is not an upgrade is answered by exactly one reply - status line, headers, blank line and a body of exactly Content-Length bytes (no body at all for HEAD) - and the server then closes the connection, however the writes are cut up or delayed and however many replies are in flight at once. "
     "A client whose connection breaks before the end has received a prefix of the reply it was due and nothing else.",
     ["schedules", "fault_sequences", "inputs"], "every partial-write pattern, window size, slow reader, reset point and set of concurrently answered connections",
     "The networking mock used by the tests never runs a completion handler, never writes partially and never has two replies in flight.",
     [H, N], [("buffers of the reply are kept alive and unchanged until the composed write completes", H + ": Response::toBuffers, Connection::write"), ("shutdown and close after the write", H + ": Connection::write")],
     ["bytes received by each simulated client", "FIN/RST seen by the client"])
prop("C03", "No client can stop the server or starve the others",
     "Nothing a client sends, and no way in which it stalls, half-closes, resets or vanishes, ends the server's event loop or makes it throw. "
     "A well-behaved HTTP or WebSocket client, connecting at any moment or already connected, is still answered completely once the network has stopped misbehaving, even while other clients stay stalled.",
     ["fault_sequences", "inputs", "schedules"], "every hostile byte sequence and every placement of resets, half-closes, stalls and partitions around the healthy clients' exchanges",
     "Event loop, sockets and error paths are never executed by the tests: completion handlers are not called with an error anywhere.",
     [H, W, L, F], [("error branches of the completion handlers", H + ": Connection::read/write, Server::accept"), ("error branches of the WebSocket handlers", W + ": WebSocket::read/writeData"), ("exceptions kept out of the event loop", L + ": WebLink message handler")],
     ["return or exception of run()/runOne()", "replies of canary clients"])
prop("C04", "No input, fault or schedule makes the server touch memory it does not own",
     "Whatever bytes arrive on HTTP and WebSocket connections, in whatever segments, and whenever writes are cut up, reads and writes fail, or connections are reset or closed, the server never reads or writes memory outside its live objects and never executes undefined behaviour. "
     "This includes buffers handed to the network, which stay alive and unchanged until the network is done with them.",
     ["inputs", "schedules", "fault_sequences"], "every byte sequence, segmentation, completion order and failure point",
     "Lifetime errors need asynchronous completions that arrive late, partially or after a close; the mock completes every write synchronously and never delivers a read.",
     [H, W, M, L, F, J], [("header/payload decoding", W + ": FrameDecoder::parse"), ("message decoding", M + ": MessageBase::castFromRawData, FunctionCall::decodeParameter"), ("outgoing buffers", W + ": Frame, WebSocket::writeData; " + H + ": Response::toBuffers")],
     ["AddressSanitizer/UBSan with the network reading buffers as late as a real one may"])
prop("C05", "Files outside the document root are never opened or disclosed",
     "For every request target, however it is encoded, split or interleaved with other requests, the server opens no file outside the configured document root and no reply contains a byte of such a file. "
     "Files inside the root stay reachable by their plain and percent-encoded names.",
     ["inputs", "schedules", "histories"], "every target string over the alphabet of path separators, dots, escapes, NULs and names, on any connection history",
     "Tests open two fixed file names directly; no test sends a hostile target through the request handler to the native file system.",
     [H, NFS, E], [("target validation", H + ": RequestHandler::handleRequest"), ("path join", NFS + ": NativeRawFS::open")],
     ["paths passed to the operating system's open calls", "reply bodies"])
prop("C06", "A 200 reply carries exactly the requested file",
     "A 200 reply to a GET carries exactly the bytes, as stored when the request is served, of the file the target names in the first provider that has it ('index.html' for a directory-style target), with a Content-Type that fits its extension, a Content-Length that is its size, and a Content-Encoding exactly when the file is stored encoded and the client listed that encoding (506 if it did not, 404 if no provider has the file). "
     "HEAD gives the same status and headers as GET (only a HEAD for a file in an encoding the client did not list may be a 200 as well). "
     "When opening or reading the file fails part-way, the reply is an error status, never a 200 with missing or altered bytes.",
     ["inputs", "fault_sequences", "configurations"], "every file size and content, header combination, provider order, and every placement of short reads, interrupted reads, I/O errors and open failures",
     "Tests read three small files without faults, and never look at a reply body produced from a provider.",
     [H, S, NFS, MT, "include/system/IndexFS.hpp"], [("file lookup and read loop", H + ": RequestHandler::handleRequest"), ("provider chaining", S + ": Multi::open"), ("file reading", S + ": File::read"), ("content type", MT)],
     ["reply status, headers and body"])
prop("C07", "Reading a file yields its exact bytes whatever the read sizes and disk faults",
     "Any sequence of reads on an opened file, of any sizes, returns consecutive bytes of that file with nothing skipped, repeated or altered, up to its exact size, after which reads return 0 and end-of-file is reported - for files on disk and for embedded ones alike, also when the disk returns short or interrupted reads. "
     "A disk error is never reported as a normal end of file. "
     "Every embedded asset read this way decodes under the encoding it declares.",
     ["inputs", "schedules", "fault_sequences"], "every split of the file into read sizes and every placement of short, interrupted and failing reads",
     "Tests read with buffer sizes that are multiples of 8 or read once from the start, and never see a short or failing read.",
     [S, NFS, "include/system/IndexFS.hpp", "include/system/JasmineFS.hpp", "include/system/ReactFS.hpp", "include/system/BabelFS.hpp"],
     [("static data reader", S + ": File::readData"), ("stream reader", S + ": File::readFStream")], ["bytes returned by File::read, eof()"], [("readIndex", "next byte to deliver", S + ": File")])
prop("C09", "WebSocket upgrades follow RFC 6455 and create exactly one link",
     "A GET whose Connection header lists 'upgrade', whose Upgrade header names 'websocket' (any letter case) and which carries a Sec-WebSocket-Key is answered, under any segmentation and partial writing, by a single complete 101 reply whose Sec-WebSocket-Accept is the RFC 6455 digest of that very key and which selects the subprotocol WebFront_0.1 exactly if the client offered it, and exactly one link then serves that connection. "
     "No other request is ever answered by 101 or becomes a link, and a connection that breaks before the 101 has been sent leaves no link behind.",
     ["inputs", "schedules", "fault_sequences"], "every key and header spelling, segmentation, partial-write pattern, concurrent upgrade and reset point during the upgrade",
     "Tests check one key through RequestHandler only; the hand-over of the socket is never executed.",
     [H, W, E, F], [("upgrade detection and 101 reply", H + ": RequestHandler::handleRequest, Request::isUpgradeRequest"), ("socket hand-over", H + ": Connection::write (onUpgrade); " + F + ": BasicWF constructor"), ("accept key", W + ": getHashedSecKey")],
     ["bytes received by the client", "UI-started notifications"])
prop("C10", "Inbound WebSocket messages are delivered once, whole and in order",
     "Every complete text or binary message a client sends - in one frame or fragmented with control frames in between, of any length encoding, masked with any key - is delivered to the application exactly once, in order and unaltered, however the byte stream is split into segments, coalesced or delayed. "
     "A message that is not complete when the connection ends is not delivered, and bytes of one message or connection never appear in another.",
     ["inputs", "schedules", "fault_sequences"], "every sequence of messages and frame layouts, every segmentation and coalescing of their bytes, every cut-off point",
     "Tests feed the decoder single frames in one piece or split at one fixed place; two frames in one read, split extended headers and fragmented messages never occur.",
     [W], [("frame decoder", W + ": FrameDecoder::parse"), ("receive loop and dispatch", W + ": WebSocket::read")], ["messages seen by the link's message handlers (through the public API)"],
     [("state/headerBuffer/payloadBuffer", "position inside the frame being received", W + ": FrameDecoder")])
prop("C11", "Outbound WebSocket messages arrive once, whole and in order",
     "Every message the application sends on an open link reaches the client as one well-formed unmasked WebSocket message with exactly the bytes given at the time of the call, once and in the order of the calls, however writes are cut up or delayed, however many messages are queued, and whatever the caller does with its buffers afterwards. "
     "If the connection breaks, what arrived is a prefix of that sequence.",
     ["schedules", "inputs", "fault_sequences"], "every size and burst of messages, partial-write pattern, slow reader and reset point",
     "The mock writes synchronously and completely; concurrent or partial writes and buffer lifetimes after the call cannot occur in it.",
     [W, L, J], [("frame construction", W + ": Frame, Header::setPayloadSize"), ("sending", W + ": WebSocket::writeData")], ["byte stream received by the client, parsed by an independent RFC 6455 decoder"])
prop("C12", "Pings are answered and the closing handshake completes",
     "Every ping a client sends on a link is answered by one pong carrying the same payload, in order, and pongs or other control frames never disturb data messages, even between the fragments of one. "
     "A close frame from the client is answered by a close frame (after everything sent before it) and then the connection is closed; nothing the client sends after its close frame is delivered.",
     ["inputs", "schedules"], "every placement of control frames among data frames, fragments and segments",
     "No test executes the WebSocket receive loop.",
     [W], [("control frame handling", W + ": WebSocket::read")], ["frames received by the client", "messages delivered to the application"])
prop("C13", "A lost client is noticed once, and its link is gone afterwards",
     "When a client's WebSocket connection ends - by close frame, by end of stream, by reset while reading or writing - its link is released exactly once, whatever operations were pending at that moment, and no further message of it is delivered. "
     "Afterwards scripts and function calls addressed to that client throw to the caller instead of being silently lost, and all other links keep working.",
     ["fault_sequences", "schedules", "histories"], "every way and moment of losing a client, with any reads, writes and queued messages pending",
     "No test creates a link, loses it, and looks at it afterwards.",
     [W, L, F, J], [("close notification", W + ": WebSocket::read/writeData closeHandler"), ("link removal", F + ": BasicWF::onEvent (closed)"), ("error reported to callers", F + ": BasicUI::addScript; " + J + ": JsFunction::operator()")],
     ["exceptions thrown by UI::addScript and JsFunction", "state of the server-side socket"])
prop("C14", "Calls and scripts for the page arrive exactly as issued",
     "Each call of a Javascript function object and each added script reaches its own client exactly once, in the order issued, with the function name, parameter count and every parameter value and type (booleans, numbers, strings of any length the protocol can express, tuples) - or the script text - exactly as given, including when the same function object is used repeatedly and when many calls are in flight. "
     "A call or script that the protocol cannot express is refused with an exception and leaves nothing of it on the wire.",
     ["inputs", "histories", "schedules"], "every sequence of calls with every parameter list, over every partial-write and delay pattern",
     "Tests encode two calls with fresh function objects into a capture buffer that ignores the headers; nothing is sent later or twice.",
     [J, M, L, F], [("parameter encoding", M + ": FunctionCall::encodeParameter"), ("call object", J), ("script command", M + ": TextCommand; " + F + ": BasicUI::addScript")], ["messages received by the simulated page, decoded by an independent implementation of the protocol"])
prop("C15", "Calls from the page run the right C++ function once, with the right values",
     "Each well-formed call sent by a page invokes the C++ function registered under that name exactly once, in the order sent, with exactly the values sent (booleans, numbers, strings, tuples), under any segmentation, fragmentation or interleaving with other clients. "
     "A call that is malformed, truncated, or whose parameters are missing or of other types than the function's invokes nothing and leaves the connection usable; a call of a name that is not registered invokes nothing and is answered on the same connection by a function-return message carrying an exception.",
     ["inputs", "schedules", "histories"], "every message content, well-formed or not, every segmentation of it and every mix of clients",
     "Tests decode two captured messages directly; dispatch, errors and mismatching parameters are not executed.",
     [M, L, F], [("parameter decoding", M + ": FunctionCall::decodeParameter, getFunctionName"), ("dispatch", F + ": BasicWF::cppFunction, onEvent"), ("error reply", L + ": WebLink message handler, " + M + ": FunctionReturn")], ["arguments seen by the registered functions", "messages received by the page"])
prop("C16", "A page's handshake is acknowledged and starts its UI exactly once",
     "The first handshake message of a link is answered by an acknowledgement carrying the server's byte order, before any log line, script or call is sent on that link, and the UI-started handler runs exactly once for that link, with a UI object that addresses that link. "
     "It never runs for a connection that did not send a handshake, nor again when the handshake is repeated or followed by arbitrary other messages.",
     ["schedules", "inputs", "histories"], "every segmentation, duplication and ordering of handshakes and other messages over any number of links",
     "Handshake handling is not executed by the tests at all.",
     [L, F, M], [("handshake handling", L + ": WebLink message handler"), ("UI start", F + ": BasicWF::onEvent (linked)")], ["UI-started notifications", "first message received by the page"])
prop("C17", "Links never mix: every message reaches the client it was addressed to",
     "Whatever the order in which clients connect, disconnect and reconnect, including after more connections than there are link identifiers, a UI object and the function objects made from it only ever reach the client they were created for, and a message from one client is only ever processed as coming from that client. "
     "Each connected client keeps a link of its own for as long as it is connected.",
     ["histories", "schedules"], "every sequence of connects, disconnects and messages, including wrap-around of the 16-bit link identifier",
     "Tests never hold two links at a time, let alone 65536.",
     [F, L, J], [("identifier allocation", F + ": BasicWF constructor (idsCounter, webLinks.try_emplace)"), ("routing", F + ": getLink; " + J + ": webLinkId")], ["messages received by each simulated page"], [("webLinks", "live links by identifier", F + ": BasicWF")])
prop("C18", "Log lines reach every linked page once, and only while it is linked",
     "Each log line of an enabled level reaches every local sink and every page whose link is up exactly once, in order and with its text intact (a line longer than the protocol's limit arrives as a prefix of it); lines of disabled levels reach nobody. "
     "A page that has gone, or a sink that has been removed, receives nothing any more and its removal disturbs no other, whatever is logged while links open, write, fail and close, and whatever the wall clock does.",
     ["schedules", "histories", "fault_sequences"], "every interleaving of logging, level changes, sink changes, link openings, failures and closings, and every clock jump",
     "Tests register one local sink and log synchronously; a sink that is itself a network connection, and its removal when that connection dies, is never exercised.",
     [LG, L], [("sinks", LG + ": addSinks/removeSinks/Sinks"), ("page relay", L + ": logSink")], ["debug-log commands received by the page", "lines received by local sinks"])
prop("C19", "Failed accepts do not stop the server from accepting later clients",
     "After any sequence of failing accepts (out of descriptors, aborted or reset connections, interrupted or otherwise failing calls), interleaved with successful ones, the server keeps listening, and every client whose connection was accepted, before or after a failure, is served normally. "
     "A failed accept neither disturbs existing connections nor produces a connection of its own.",
     ["fault_sequences", "schedules"], "every placement and kind of accept failure among successful accepts and traffic",
     "The acceptor of the tests' mock never calls the accept handler.",
     [H], [("accept loop", H + ": Server::accept")], ["replies received by clients", "server-side sockets"])
prop("C20", "Finished connections leave nothing behind",
     "Once a connection has ended - a completed HTTP exchange, a broken or refused request, a finished or broken WebSocket link, however it ended - the server has closed its socket and released the memory it used for it, so that any number of connections over time keeps sockets and memory at the level of those currently open.",
     ["histories", "fault_sequences"], "every sequence of connection life cycles with every kind of ending",
     "Leaks only appear over the history of many asynchronous connections; tests create none.",
     [H, W, L, F, LG], [("connection set", H + ": Connections::stop, Connection::write"), ("link map", F + ": BasicWF::onEvent"), ("sinks", LG + ": removeSinks")], ["open server-side sockets", "live bytes allocated by the server after each round"])
prop("C21", "The server can be destroyed and restarted at any moment",
     "Destroying the server object at any instant, with any accepts, reads, writes, upgrades and links in progress, is safe: all its sockets are closed, none of its callbacks runs afterwards, nothing of it (such as log sinks) remains registered, and clients see their connections end with at most a prefix of the data they were due. "
     "A server created afterwards on the same port serves clients normally.",
     ["crash_points", "schedules"], "every instant of destruction in every workload",
     "No test destroys a server with pending operations.",
     [H, F, L, W], [("member order and ownership", H + ": Server; " + F + ": BasicWF"), ("sink removal", L + ": ~WebLink")], ["AddressSanitizer", "sockets after destruction", "clients of the new server"])
prop("C22", "The page script that the server ships works against that server",
     "A browser that loads the page and script served by the server (the built-in index page, or a page of the application that names WebFront.js), executes them and opens the WebSocket they ask for ends up linked. "
     "From then on, whatever the network does, every script the application adds is executed by the page once and in order with the calls of page functions, each call reaches the named function with exactly the parameters that the application passed (booleans, numbers, strings, tuples as arrays), "
     "every call the page's code makes of a C++ function through webFront.cppFunction (booleans, numbers, strings and arrays of these, up to the sizes the protocol can express) invokes it once with exactly these values or throws in the page without sending anything, "
     "log lines appear unaltered on the page's console, and a script or function of the page that throws does not disturb the link.",
     ["schedules", "inputs", "histories"], "every sequence of scripts, calls and log lines in both directions, every segmentation and delay",
     "No test executes the shipped script, let alone against the C++ side: the two implementations of the protocol can drift apart with every test passing.",
     [F, L, M, J, H, "include/system/IndexFS.hpp"], [("shipped page and script", "include/system/IndexFS.hpp"), ("C++ side of the protocol", M), ("dispatch", L)], ["effects of the page's code executed by a Javascript engine", "C++ functions invoked"])
prop("C23", "An application can end a WebSocket at any moment, exactly once",
     "When the application ends a WebSocket (stop) - as soon as it is created, from its own message handler, from the handler of another one, at any other moment, once or repeatedly - no message is delivered on it afterwards, nothing written afterwards is sent, the bytes that the network had already taken reach the client and are followed by the end of the connection, "
     "and the close handler runs exactly once, with the event that the application gave, at a moment when the handler may destroy the WebSocket. Its socket is closed, and other WebSockets are not disturbed.",
     ["schedules", "fault_sequences", "histories"], "every moment of ending with respect to pending reads and writes, queued messages, frames in the same segment, and breaking connections",
     "No test ends a WebSocket, and the mock never has an operation pending.",
     [W], [("stop and the end of pending operations", W + ": WebSocket::stop/operationDone"), ("frames left in the received segment", W + ": WebSocket::read"), ("queued messages", W + ": WebSocket::writeNext")],
     ["messages delivered", "close handler", "bytes and end of connection seen by the client"], [("pendingOperations", "operations which refer to this WebSocket", W), ("started", "false after the end", W)])
prop("C24", "Servers in one process are independent",
     "Several servers on different ports of one process, whose event loops take turns in any order, do not influence each other: each serves its own document root, starts the UIs of its own pages only, runs only the C++ functions registered with it, and its scripts and calls reach its own pages; "
     "destroying one of them ends its own connections and leaves those of the others working, and creating a server on a port that is taken throws and changes nothing.",
     ["schedules", "histories", "crash_points"], "every interleaving of the handlers of several servers and of their clients, every instant of destruction of one of them",
     "The tests never run one server, let alone two.",
     [F, H, L, LG], [("per-server state", F + ": BasicWF"), ("acceptor and context", H + ": Server"), ("sinks shared by all servers", LG + ": addSink/removeSinks")],
     ["bytes received by the clients of each server", "UIs started and functions invoked per server"])
prop("C25", "A failed allocation costs at most the connection it was made for",
     "Whatever allocations fail while the server works (std::bad_alloc), the event loop neither ends nor throws, nothing is accessed out of bounds or after its end, and no connection is left open without being served: each client gets its reply, messages and calls whole, in order and unaltered, or a 5xx reply, or loses messages or its connection, while the other clients are served. "
     "Calls that the application makes either take effect or throw; every client that comes when memory is available again is served normally; and destroying the server, or failing to create it, leaves no socket, log sink or memory behind.",
     ["fault_sequences", "schedules", "histories"], "every placement of failing allocations (single ones, bursts, all, all big ones) among the handlers of all connections and the calls of the application",
     "No test makes an allocation fail.",
     [H, W, L, F, LG], [("acceptance", H + ": Server::accept, Connections::start"), ("failures of handlers", H + ": Connection::closingOnFailure; " + W + ": WebSocket::operation"), ("queueing of messages", W + ": WebSocket::writeData"), ("logging", LG + ": attempt")],
     ["replies and messages received by clients", "AddressSanitizer", "sockets, sinks and memory after the destruction"])
prop("C90", "Encodings are exact inverses and match their specifications",
     "URI, Base64 and SHA-1 results match their specifications for every input, and decoding an encoded URI gives back the original.",
     ["inputs"], "every byte string", "Tests sample a few strings.", [E], [("encoders", E)], ["return values"])
prop("C91", "Type-erased functions call their target with the given arguments",
     "A type-erased function invokes the stored callable exactly once with the given arguments, or throws when their types do not match.",
     ["inputs"], "every callable and argument list", "Tests sample a few signatures.", ["include/utils/TypeErasedFunction.hpp"], [("type erasure", "include/utils/TypeErasedFunction.hpp")], ["return values"])
P.sort(key=lambda p: p["id"])
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P: f.write(json.dumps(p, ensure_ascii=False) + "\n")
