# Planted bugs, first series: (id, property, edits [(file, old, new)], needs, what it breaks, sanitizer flags, demo body)
S = []
def seed(id, prop, edits, needs, breaks, demo, flags="", globals_=""):
    S.append(dict(id=id, prop=prop, edits=edits, needs=needs, breaks=breaks, demo=demo, flags=flags, globals=globals_))

H = "include/http/HTTPServer.hpp"; W = "include/http/WebSocket.hpp"; L = "include/weblink/WebLink.hpp"; M = "include/weblink/Messages.hpp"
F = "include/WebFront.hpp"; G = "include/tooling/Logger.hpp"; E = "include/http/Encodings.hpp"; FS = "include/system/FileSystem.hpp"; J = "include/JsFunction.hpp"

seed("C01-lone-crlf-segment", "C01",
     [(H, "            if (!ec) {\n                switch (protocol) {", "            if (!ec) {\n                if (bytesTransferred == 2 && buffer[0] == '\\r' && buffer[1] == '\\n') return read(); // tolerate empty lines between requests\n                switch (protocol) {")],
     "the final CRLF of the headers arrives in a segment of its own",
     "a segment that consists of CRLF alone is skipped even in the middle of a request, so that a complete request is never answered",
     r'''
    DemoWF wf("9002", "root");
    auto a = demo::connect();
    auto r = get("/index.html", "Accept-Encoding: br\r\n");
    a->send(r.substr(0, r.size() - 2));
    demo::settle(wf);
    need(a->out.empty(), "answered before the end of the headers");
    a->send(r.substr(r.size() - 2));
    demo::settle(wf);
    need(a->out.starts_with("HTTP/1.1 200 OK\r\n"), "request whose last two bytes arrive separately is not answered");
''')

seed("C01-shared-buffer", "C01",
     [(H, "    std::array<char, 8192> buffer;\n", "    inline static std::array<char, 8192> buffer; // a single thread only handles one read at a time\n")],
     "two connections become readable in the same turn of the event loop: the second read is performed before the handler of the first one",
     "the reception buffer is shared between connections, so that the bytes of one connection are parsed as those of another",
     r'''
    DemoWF wf("9002", "root");
    demo::eager = true;
    auto a = demo::connect();
    auto b = demo::connect();
    demo::settle(wf);
    a->send(get("/one.txt"));
    b->send(get("/two.txt"));
    demo::settle(wf);
    need(a->out.ends_with("the first file"), "first connection did not get its own file");
    need(b->out.ends_with("the second file"), "second connection did not get its own file");
''')

seed("C02-shared-response", "C02",
     [(H, "    Request request;\n    Response response;\n    Protocol", "    Request request;\n    inline static Response response;\n    Protocol")],
     "two replies are in flight at once, one of them written in several parts",
     "the reply object is shared between connections: a reply still being written is replaced by the reply of another connection",
     r'''
    DemoWF wf("9002", "root");
    auto a = demo::connect();
    a->maxWrite = 8;
    a->send(get("/one.txt"));
    while (a->out.size() < 24) wf.runOne();
    a->holdWrite = true;
    auto b = demo::connect();
    b->send(get("/missing.txt"));
    demo::settle(wf);
    a->holdWrite = false;
    demo::settle(wf);
    need(a->out.starts_with("HTTP/1.1 200 OK\r\n") && a->out.ends_with("the first file"), "a reply was mixed up with another one");
''')

seed("C01-invalid-escape-throws", "C01",
     [(E, "if (index + 3 <= uri.size() && std::isxdigit(uri[index + 1]) && std::isxdigit(uri[index + 2])) {", "if (index + 3 <= uri.size() && std::isxdigit(uri[index + 1])) {"),
      (E, "decoded += char(hexToValue(uri[index + 1]) * 16 + hexToValue(uri[index + 2]));", "if (hexToValue(uri[index + 2]) > 15) throw std::invalid_argument(\"Invalid percent-encoding\");\n                decoded += char(hexToValue(uri[index + 1]) * 16 + hexToValue(uri[index + 2]));")],
     "a request target with a percent sign, one hexadecimal digit and another character",
     "decoding such a target throws, and the connection is closed without a reply",
     r'''
    DemoWF wf("9002", "root");
    auto a = demo::connect();
    a->send(get("/a%4zb.txt"));
    try { demo::settle(wf); } catch (const std::exception&) { need(false, "a client ended the event loop"); }
    need(a->out.starts_with("HTTP/1."), "no reply");
    auto b = demo::connect();
    b->send(get("/one.txt"));
    demo::settle(wf);
    need(b->out.ends_with("the first file"), "next client is not answered");
''')

seed("C03-accept-paused", "C03",
     [(H, "            }\n            accept();\n", "            }\n            if (connections.size() < maxConnections) accept(); // do not let connections pile up\n"),
      (H, "    void stopAll() {\n", "    [[nodiscard]] std::size_t size() const { return connections.size(); }\n\n    void stopAll() {\n"),
      (H, "private:\n    typename Net::IoContext ioContext;\n", "private:\n    static constexpr std::size_t maxConnections = 12;\n    typename Net::IoContext ioContext;\n")],
     "twelve clients that stall at the same time before their request is complete",
     "the server stops accepting when there are many connections and never resumes when they go away",
     r'''
    DemoWF wf("9002", "root");
    std::vector<demo::WirePtr> stalled;
    for (int i = 0; i < 40; ++i) { stalled.push_back(demo::connect()); stalled.back()->send("GET /"); }
    demo::settle(wf);
    auto b = demo::connect();
    b->send(get("/one.txt"));
    demo::settle(wf);
    need(b->out.ends_with("the first file"), "a client is not served while others stall");
''')

seed("C04-encode-buffers", "C04",
     [(M, "    std::list<std::array<std::byte, 16>> encodeBuffers; //", "    std::vector<std::array<std::byte, 16>> encodeBuffers; //"),
      (M, "        auto& buffer = encodeBuffers.emplace_back(); //", "        if (encodeBuffers.empty()) encodeBuffers.reserve(24); // the frame refers to the elements\n        auto& buffer = encodeBuffers.emplace_back(); //"),
      (M, "#include <tuple>\n", "#include <tuple>\n#include <vector>\n")],
     "a call with more than 23 parameters (elements of tuples included)",
     "the frame being composed refers to buffers which have been reallocated: freed memory is read and sent",
     r'''
    DemoWF wf("9002", "root");
    wf.onUIStarted([](DemoWF::UI ui) {
        ui.jsFunction("f")(1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30);
    });
    auto a = demo::connect();
    a->send(upgrade());
    demo::settle(wf);
    a->send(handshake());
    demo::settle(wf);
    std::vector<Msg> m;
    need(messages(a->out, m) && m.size() == 2, "no call");
    need(m[1].data.size() == 8 + 3 + 30 * 9, "call has a wrong size");
    for (size_t i = 0; i < 30; ++i) {
        double d;
        std::memcpy(&d, m[1].data.data() + 11 + i * 9 + 1, 8);
        need(d == static_cast<double>(i + 1), "wrong parameter");
    }
''', flags="-fsanitize=address")

seed("C05-double-slash", "C05",
     [(H, "auto requestPath = std::filesystem::path(requestUri).relative_path();", "auto requestPath = std::filesystem::path(requestUri.substr(1));")],
     "a request target which starts with two slashes (or a slash and an encoded one)",
     "the remaining slash makes the path absolute, so that any file of the machine is served",
     r'''
    std::filesystem::create_directory("outside");
    std::ofstream("outside/secret.txt") << "secret";
    DemoWF wf("9002", "root");
    for (auto prefix : {"/", "//", "/%2f"}) {
        auto a = demo::connect();
        a->send(get(prefix + (std::filesystem::current_path() / "outside/secret.txt").string()));
        demo::settle(wf);
        need(a->out.find("secret") == std::string::npos, "a file outside the document root was served");
    }
''')

seed("C05-decoded-twice", "C05",
     [(H, "auto requestPath = std::filesystem::path(requestUri).relative_path();", "auto requestPath = std::filesystem::path(uri::decode(requestUri)).relative_path(); // some clients encode twice")],
     "a target whose parent directory dots are percent-encoded twice",
     "the check for '..' is made before the second decoding, so that files outside the document root are served",
     r'''
    std::ofstream("secret.txt") << "secret";
    DemoWF wf("9002", "root");
    for (auto t : {"/../secret.txt", "/%2e%2e/secret.txt", "/%252e%252e/secret.txt", "/%252e%252e%252fsecret.txt"}) {
        auto a = demo::connect();
        a->send(get(t));
        demo::settle(wf);
        need(a->out.find("secret") == std::string::npos, "a file outside the document root was served");
    }
''')

seed("C06-stale-cache", "C06",
     [(H, "            auto file = fs.open(requestPath);\n            if (!file) return Response::getStatusResponse(Response::notFound);",
          "            if (missing.contains(requestPath)) return Response::getStatusResponse(Response::notFound);\n            auto file = fs.open(requestPath);\n            if (!file) {\n                missing.insert(requestPath);\n                return Response::getStatusResponse(Response::notFound);\n            }"),
      (H, "private:\n    FS fs;\n", "private:\n    FS fs;\n    std::set<std::filesystem::path> missing; // files known not to exist\n")],
     "a file is requested, found missing, then created and requested again",
     "the absence of a file is remembered for ever: a file created later is answered by 404",
     r'''
    DemoWF wf("9002", "root");
    auto a = demo::connect();
    a->send(get("/later.txt"));
    demo::settle(wf);
    need(a->out.starts_with("HTTP/1.1 404 "), "missing file is not a 404");
    std::ofstream("root/later.txt") << "here it is";
    auto b = demo::connect();
    b->send(get("/later.txt"));
    demo::settle(wf);
    need(b->out.starts_with("HTTP/1.1 200 OK\r\n") && b->out.ends_with("here it is"), "file created after a first request is not served");
''')

seed("C07-word-copy", "C07",
     [(FS, "        for (size_t index = 0; (index < buffer.size()); ++index) {\n            if (eof()) return index;\n",
           "        for (size_t index = 0; (index < buffer.size()); ++index) {\n            if (eof()) return index;\n\n            if (index + bytesPerInt <= buffer.size() && readIndex + bytesPerInt < size && index % bytesPerInt == 0) { // a whole word at once\n                chunk = convert(data[readIndex / bytesPerInt]);\n                std::memcpy(buffer.data() + index, chunk.byte, bytesPerInt);\n                readIndex += bytesPerInt;\n                index += bytesPerInt - 1;\n                continue;\n            }\n")],
     "an embedded file is read with a size that is not a multiple of 8, then with a size of at least 8",
     "the alignment of the position in the destination is tested instead of the one in the source, so that bytes are repeated",
     r'''
    webfront::fs::IndexFS fs(".");
    auto whole = fs.open("WebFront.js"), parts = fs.open("WebFront.js");
    need(whole && parts, "no file");
    std::string a(8192, ' '), b;
    a.resize(whole->read(a));
    char buffer[64];
    for (size_t n : {5u, 16u, 3u, 64u, 1u, 40u}) b.append(buffer, parts->read(std::span<char>(buffer, n)));
    while (auto n = parts->read(std::span<char>(buffer, 61))) b.append(buffer, n);
    need(a == b, "bytes depend on the sizes of the reads");
''')

seed("C09-sha1-padding", "C09",
     [(E, "    if (blockByteIndex > 56)\n", "    if (blockByteIndex >= 56)\n")],
     "a Sec-WebSocket-Key of 19 characters (or 83, ...)",
     "one block too many is hashed when the padding just fits, so that Sec-WebSocket-Accept is wrong",
     r'''
    DemoWF wf("9002", "root");
    auto a = demo::connect();
    a->send(get("/", "Connection: Upgrade\r\nUpgrade: websocket\r\nSec-WebSocket-Key: 0123456789abcdef012\r\n"));
    demo::settle(wf);
    need(a->out.find("Sec-WebSocket-Accept: ") != std::string::npos, "not upgraded");
    need(a->out.find("Sec-WebSocket-Accept: " EXPECTED "\r\n") != std::string::npos, "wrong digest");
''', globals_="#define EXPECTED \"@ACCEPT19@\"\n")

seed("C10-mask-phase", "C10",
     [(W, "            for (auto in : encoded) payloadBuffer.push_back(in ^ mask[maskIndex++ % 4]);\n", "            for (size_t i = 0; i < encoded.size(); ++i) payloadBuffer.push_back(encoded[i] ^ mask[(maskIndex + i) % 4]);\n            maskIndex = static_cast<uint8_t>(encoded.size() % 4);\n")],
     "a frame whose payload comes in three segments or more, cut at places which are not multiples of four bytes",
     "the masking key is resumed from the length of the previous segment alone, so that the end of the message is garbled",
     r'''
    DemoWF wf("9002", "root");
    std::string got;
    wf.cppFunction<void, std::string>("f", [&](std::string s) { got = s; });
    auto a = demo::connect();
    a->send(upgrade());
    demo::settle(wf);
    a->send(handshake());
    demo::settle(wf);
    std::string p("\3\2\0\0\0\0\0\0", 8);
    p += std::string("\4\1f", 3) + std::string("\4\6abcdef", 8);
    p[4] = static_cast<char>(p.size() - 8);
    auto f = frame(2, p);
    a->send(f.substr(0, 13)); // 6 bytes of header and 7 of payload
    demo::settle(wf);
    a->send(f.substr(13, 3));
    demo::settle(wf);
    a->send(f.substr(16));
    demo::settle(wf);
    need(got == "abcdef", "message cut by the network is not delivered unaltered");
''')

seed("C10-shared-buffer", "C10",
     [(W, "    std::array<std::byte, receptionBufferSize> readBuffer;\n", "    inline static std::array<std::byte, receptionBufferSize> readBuffer;\n")],
     "two links become readable in the same turn of the event loop",
     "the reception buffer is shared between links: the bytes of one link are decoded as those of the other",
     r'''
    DemoWF wf("9002", "root");
    std::string got;
    wf.cppFunction<void, std::string>("f", [&](std::string s) { got += s; });
    demo::eager = true;
    auto a = demo::connect();
    auto b = demo::connect();
    for (auto w : {a, b}) { w->send(upgrade()); demo::settle(wf); w->send(handshake()); demo::settle(wf); }
    auto call = [](std::string s) {
        std::string p("\3\2\0\0\0\0\0\0", 8);
        p += std::string("\4\1f", 3) + std::string("\4\1", 2) + s;
        p[4] = static_cast<char>(p.size() - 8);
        return frame(2, p);
    };
    a->send(call("x"));
    b->send(call("y"));
    demo::settle(wf);
    need(got == "xy" || got == "yx", "messages of two links were mixed up");
''')

seed("C11-queue-limit", "C11",
     [(W, "    void write(Frame<Net> frame) { writeData(std::move(frame)); }\n", "    void write(Frame<Net> frame) {\n        if (outgoing.size() > 128) return log::warn(\"Client is too slow : frame dropped\");\n        writeData(std::move(frame));\n    }\n")],
     "more than 128 calls made while the client does not read",
     "calls are silently dropped when many of them wait to be written",
     r'''
    DemoWF wf("9002", "root");
    wf.onUIStarted([](DemoWF::UI ui) {
        auto f = ui.jsFunction("f");
        for (int i = 0; i < 1000; ++i) f(i);
    });
    auto a = demo::connect();
    a->send(upgrade());
    demo::settle(wf);
    a->send(handshake());
    demo::settle(wf);
    std::vector<Msg> m;
    need(messages(a->out, m), "malformed messages");
    need(m.size() == 1001, "messages were lost");
''')

seed("C12-ping-125", "C12",
     [(W, "        return len < 126 ? len : extendedLenField();", "        return len < 125 ? len : extendedLenField();")],
     "a ping with the longest payload allowed, 125 bytes",
     "the length of 125 is taken for an extended one, so that the ping (and all that follows) is never decoded",
     r'''
    DemoWF wf("9002", "root");
    auto a = demo::connect();
    a->send(upgrade());
    demo::settle(wf);
    a->send(frame(9, std::string(125, 'p')));
    demo::settle(wf);
    std::vector<Msg> m;
    need(messages(a->out, m) && m.size() == 1 && m[0].opcode == 10 && m[0].data == std::string(125, 'p'), "ping of 125 bytes has no pong");
''')

seed("C13-deferred-erase", "C13",
     [(F, "        case WebLinkEvent::Code::closed: webLinks.erase(event.webLinkId); break;", "        case WebLinkEvent::Code::closed: closedLinks.push_back(event.webLinkId); break; // do not destroy a link from its own handler"),
      (F, "        case WebLinkEvent::Code::linked:\n", "        case WebLinkEvent::Code::linked:\n            for (auto id : closedLinks) webLinks.erase(id);\n            closedLinks.clear();\n"),
      (F, "    WebLinkId idsCounter;\n", "    WebLinkId idsCounter;\n    std::vector<WebLinkId> closedLinks;\n"),
      (F, "#include <utility>\n", "#include <utility>\n#include <vector>\n")],
     "a client goes away and no other one links before the application calls it",
     "the link of a lost client stays until the next handshake: calls to it are silently lost instead of throwing",
     r'''
    DemoWF wf("9002", "root");
    std::optional<DemoWF::UI> ui;
    wf.onUIStarted([&](DemoWF::UI u) { ui.emplace(u); });
    auto a = demo::connect();
    a->send(upgrade());
    demo::settle(wf);
    a->send(handshake());
    demo::settle(wf);
    need(ui.has_value(), "not linked");
    a->eof = true;
    demo::settle(wf);
    bool thrown = false;
    try { ui->addScript("x"); } catch (const std::exception&) { thrown = true; }
    need(thrown, "a script for a lost client is silently lost");
''', globals_="#include <optional>\n")

seed("C14-payload-size-16bits", "C14",
     [(M, "setPayloadSize(static_cast<uint32_t>(getPayloadSize()) + static_cast<uint32_t>(value));", "setPayloadSize(static_cast<uint16_t>(getPayloadSize() + value));")],
     "a call whose parameters exceed 65535 bytes in total",
     "the size announced by the call is truncated to 16 bits",
     r'''
    DemoWF wf("9002", "root");
    wf.onUIStarted([](DemoWF::UI ui) { ui.jsFunction("f")(std::string(40000, 'a'), std::string(40000, 'b')); });
    auto a = demo::connect();
    a->send(upgrade());
    demo::settle(wf);
    a->send(handshake());
    demo::settle(wf);
    std::vector<Msg> m;
    need(messages(a->out, m) && m.size() == 2, "no call");
    uint32_t n;
    std::memcpy(&n, m[1].data.data() + 4, 4);
    need(m[1].data.size() == 8 + n, "size of the parameters is wrong");
''')

seed("C15-nearest-function", "C15",
     [(F, "cppFunctions.at(event.text)(event.data); break;", "{\n            auto function = cppFunctions.lower_bound(event.text);\n            if (function == cppFunctions.end()) throw std::out_of_range(\"Unknown function \" + event.text);\n            function->second(event.data);\n        } break;")],
     "a call of an unknown function whose name sorts before that of a registered one",
     "the next registered function in alphabetical order is invoked",
     r'''
    DemoWF wf("9002", "root");
    int called = 0;
    wf.cppFunction<void, double>("print", [&](double) { ++called; });
    auto a = demo::connect();
    a->send(upgrade());
    demo::settle(wf);
    a->send(handshake());
    std::string p("\3\2\0\0\0\0\0\0", 8);
    p += std::string("\4\3log", 5) + std::string("\3\0\0\0\0\0\0\0\0", 9);
    p[4] = static_cast<char>(p.size() - 8);
    a->send(frame(2, p));
    demo::settle(wf);
    std::vector<Msg> m;
    need(messages(a->out, m) && m.size() == 2, "unknown function is not answered");
    need(called == 0, "a function was called under another name");
''')

seed("C16-late-ack", "C16",
     [(L, "                sendCommand(msg::Ack{});\n                if (logSink) break; // already linked\n", "                if (logSink) return sendCommand(msg::Ack{}); // already linked\n"),
      (L, "                eventsHandler({WebLinkEvent::Code::linked, id});\n", "                eventsHandler({WebLinkEvent::Code::linked, id});\n                sendCommand(msg::Ack{});\n")],
     "a UI-started handler which sends something to the page at once",
     "the acknowledgement follows the first scripts and calls instead of preceding them",
     r'''
    DemoWF wf("9002", "root");
    wf.onUIStarted([](DemoWF::UI ui) { ui.addScript("x"); });
    auto a = demo::connect();
    a->send(upgrade());
    demo::settle(wf);
    a->send(handshake());
    demo::settle(wf);
    std::vector<Msg> m;
    need(messages(a->out, m) && m.size() == 2, "no ack or no script");
    need(m[0].data[0] == 1 && m[1].data[0] == 2, "ack does not come first");
''')

seed("C17-nearest-link", "C17",
     [(F, "    WebLink<Net>& getLink(WebLinkId id) { return webLinks.at(id); }", "    WebLink<Net>& getLink(WebLinkId id) {\n        auto link = webLinks.lower_bound(id);\n        if (link == webLinks.end()) throw std::out_of_range(\"Link lost\");\n        return link->second;\n    }")],
     "a client has gone while one which connected later is still there, and the application uses the UI of the former",
     "scripts and calls addressed to the lost client reach another one",
     r'''
    DemoWF wf("9002", "root");
    std::vector<DemoWF::UI> uis;
    wf.onUIStarted([&](DemoWF::UI u) { uis.push_back(u); });
    auto a = demo::connect();
    a->send(upgrade());
    demo::settle(wf);
    a->send(handshake());
    demo::settle(wf);
    auto b = demo::connect();
    b->send(upgrade());
    demo::settle(wf);
    b->send(handshake());
    demo::settle(wf);
    need(uis.size() == 2, "not linked");
    a->eof = true;
    demo::settle(wf);
    try { uis[0].addScript("x"); } catch (const std::exception&) {}
    demo::settle(wf);
    std::vector<Msg> m;
    need(messages(b->out, m) && m.size() == 1, "a script reached another client");
''')

seed("C18-repeated-line", "C18",
     [(G, "    void operator()(std::string_view t) const {\n        for (auto& s : sinks)", "    void operator()(std::string_view t) const {\n        static std::string last; // a line is not repeated\n        if (t == last) return;\n        last = t;\n        for (auto& s : sinks)")],
     "the same line is logged twice at the same time of the wall clock (coarse, or set back)",
     "the second of two identical lines reaches nobody",
     r'''
    std::vector<std::string> lines;
    webfront::log::setLogLevel(webfront::log::Info);
    webfront::log::addSinks([&](std::string_view t) { lines.emplace_back(t); });
    webfront::log::info("started");
    webfront::log::info("started");
    webfront::log::info("started");
    need(lines.size() == 3, "a log line was not delivered");
''', globals_="std::chrono::system_clock::time_point std::chrono::system_clock::now() noexcept { return {}; } // a clock that stands still\n")

seed("C19-fatal-accept-error", "C19",
     [(H, "            }\n            accept();\n", "            }\n            if (ec != std::errc::too_many_files_open_in_system) accept();\n")],
     "accept fails with ENFILE once",
     "the server stops listening for ever after that failure",
     r'''
    DemoWF wf("9002", "root");
    for (int e : {EMFILE, ECONNABORTED, EINTR, ENOBUFS, ENFILE, ENOMEM, EPROTO}) {
        demo::failAccept(e);
        auto a = demo::connect();
        a->send(get("/one.txt"));
        demo::settle(wf);
        need(a->out.ends_with("the first file"), "client not served after a failed accept");
    }
''')

seed("C20-silent-client", "C20",
     [(H, "            else if (ec != Net::Error::OperationAborted)\n                connections.stop(self);\n        }));\n    }\n\n    void write",
          "            else if (ec != Net::Error::OperationAborted && request.method != Request::Method::Undefined)\n                connections.stop(self);\n        }));\n    }\n\n    void write")],
     "a client that connects and goes away before it has sent a request line",
     "the connection object and its socket are kept for ever",
     r'''
    DemoWF wf("9002", "root");
    std::vector<demo::WirePtr> v;
    for (int i = 0; i < 10; ++i) {
        auto a = demo::connect();
        a->eof = true;
        if (i % 2) a->send("GE");
        v.push_back(a);
        demo::settle(wf);
    }
    for (auto& a : v) need(a->sockets == 0, "socket of a finished connection is still open");
''')

seed("C21-destruction-order", "C21",
     [(F, "    http::Server<Net, Filesystem> httpServer;\n    std::map<WebLinkId, WebLink<Net>> webLinks;\n", "    std::map<WebLinkId, WebLink<Net>> webLinks;\n    http::Server<Net, Filesystem> httpServer;\n")],
     "the server is destroyed while a link is open",
     "the event loop is destroyed before the sockets of the links, which then refer to freed memory",
     r'''
    auto wf = std::make_unique<DemoWF>("9002", "root");
    auto a = demo::connect();
    a->send(upgrade());
    demo::settle(*wf);
    a->send(handshake());
    demo::settle(*wf);
    wf.reset();
    need(a->sockets == 0, "socket left open");
''', flags="-fsanitize=address", globals_="#include <memory>\n")
