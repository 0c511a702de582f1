# Planted bugs, second series: same form as the first one
S = []
def seed(id, prop, edits, needs, breaks, demo, flags="", globals_=""):
    S.append(dict(id=id, prop=prop, edits=edits, needs=needs, breaks=breaks, demo=demo, flags=flags, globals=globals_))

H = "include/http/HTTPServer.hpp"; W = "include/http/WebSocket.hpp"; L = "include/weblink/WebLink.hpp"; M = "include/weblink/Messages.hpp"
F = "include/WebFront.hpp"; G = "include/tooling/Logger.hpp"; E = "include/http/Encodings.hpp"; FS = "include/system/FileSystem.hpp"; J = "include/JsFunction.hpp"
LINK = r'''
    auto a = demo::connect();
    a->send(upgrade());
    demo::settle(wf);
    a->send(handshake());
    demo::settle(wf);
'''
CALL = r'''
std::string call(std::string name, std::string parameters, int count) {
    std::string p("\3\0\0\0\0\0\0\0", 8);
    p[1] = static_cast<char>(count + 1);
    p += '\4'; p += static_cast<char>(name.size()); p += name;
    p += parameters;
    auto n = p.size() - 8;
    for (size_t i = 0; i < 4; ++i) p[4 + i] = static_cast<char>(n >> (8 * i));
    return frame(2, p);
}
'''

seed("C01-header-limit", "C01",
     [(H, "                        request.parseSomeData(buffer.data(), buffer.data() + bytesTransferred);\n",
          "                        received += bytesTransferred;\n                        if (received > 2 * buffer.size()) throw BadRequestException(); // no reasonable request is that long\n                        request.parseSomeData(buffer.data(), buffer.data() + bytesTransferred);\n"),
      (H, "                        if (request.completed()) {\n                            log::info(", "                        if (request.completed()) {\n                            received = 0;\n                            log::info("),
      (H, "    Request request;\n    Response response;\n", "    Request request;\n    size_t received = 0;\n    Response response;\n")],
     "a well-formed request of more than 16 kB, in several segments",
     "a request with many or long headers is refused as malformed",
     r'''
    DemoWF wf("9002", "root");
    auto a = demo::connect();
    std::string h;
    for (int i = 0; i < 30; ++i) h += "Cookie: " + std::string(700, 'c') + "\r\n";
    a->send(get("/one.txt", h));
    demo::settle(wf);
    need(a->out.starts_with("HTTP/1.1 200 OK\r\n") && a->out.ends_with("the first file"), "a long request is refused");
''')

seed("C01-colon-starts-segment", "C01",
     [(H, "    bool parseSomeData(InputIterator begin, InputIterator end) {\n", "    bool parseSomeData(InputIterator begin, InputIterator end) {\n        if (begin != end && state == State::headerName && *begin == ':' && headers.back().name.size() < 2) throw BadRequestException(); // nothing has only one letter\n")],
     "a segment which starts at the colon of a header whose name has a single character",
     "whether a header name of one letter is accepted depends on where the network cuts the request",
     r'''
    DemoWF wf("9002", "root");
    auto r = get("/one.txt", "X: 1\r\nAccept: */*\r\n");
    auto a = demo::connect();
    auto cut = r.find("X: 1") + 1;
    a->send(r.substr(0, cut));
    demo::settle(wf);
    a->send(r.substr(cut));
    demo::settle(wf);
    need(a->out.starts_with("HTTP/1.1 200 OK\r\n"), "reply depends on the segmentation");
''')

seed("C02-late-head", "C02",
     [(H, "        if (request.method == Request::Method::Head) response.content.clear();\n        return response;", "        return response;"),
      (H, "        response.headers.emplace_back(\"Content-Type\", MimeType(requestPath.extension().string()).toString());\n", "        response.headers.emplace_back(\"Content-Type\", MimeType(requestPath.extension().string()).toString());\n        if (request.method == Request::Method::Head) response.content.clear();\n")],
     "a HEAD request that is answered by an error status",
     "the reply to HEAD has a body when it is an error",
     r'''
    DemoWF wf("9002", "root");
    auto a = demo::connect();
    a->send(get("/missing.txt", {}, "HEAD"));
    demo::settle(wf);
    need(a->out.starts_with("HTTP/1.1 404 ") && a->out.ends_with("\r\n\r\n"), "a HEAD reply has a body");
''')

seed("C01-content-length", "C01",
     [(H, "                        if (request.completed()) {\n                            log::info(", "                        if (request.completed()) {\n                            if (auto length = request.getHeaderValue(\"Content-Length\"); length && std::stoul(*length) > 0) log::warn(\"Body of the request ignored\");\n                            log::info(")],
     "a request with a Content-Length that is not a number",
     "the conversion of the header throws, and the connection is closed without a reply",
     r'''
    DemoWF wf("9002", "root");
    for (auto v : {"0", "12", "x", "", "-", "99999999999999999999999"}) {
        auto a = demo::connect();
        a->send(get("/one.txt", std::string("Content-Length: ") + v + "\r\n"));
        try { demo::settle(wf); } catch (const std::exception&) { need(false, "a client ended the event loop"); }
        need(a->out.ends_with("the first file"), "no reply");
    }
''')

seed("C15-throw-ends-link", "C15",
     [(L, "                catch (const std::exception& e) {\n                    log::info(\"event cppFunctionCalled failed", "                catch (const std::runtime_error& e) {\n                    log::info(\"event cppFunctionCalled failed"),
      (W, "        try {\n            if (type == Header::Opcode::binary) {\n                if (binaryHandler) binaryHandler(data);\n            }\n            else if (textHandler)\n                textHandler(std::string_view(reinterpret_cast<const char*>(data.data()), data.size()));\n        }\n        catch (const std::exception& e) {",
          "        try {\n            if (type == Header::Opcode::binary) {\n                if (binaryHandler) binaryHandler(data);\n            }\n            else if (textHandler)\n                textHandler(std::string_view(reinterpret_cast<const char*>(data.data()), data.size()));\n        }\n        catch (const std::runtime_error& e) {")],
     "a C++ function that throws something else than a runtime_error (std::invalid_argument, bad_alloc...) when a page calls it",
     "the connection of the page is closed, its later calls are lost",
     r'''
    DemoWF wf("9002", "root");
    int calls = 0;
    wf.cppFunction<void, std::string>("f", [&](std::string s) { ++calls; (void)std::stoi(s); });
''' + LINK + r'''
    try { a->send(call("f", std::string("\4\3abc", 5), 1)); demo::settle(wf); } catch (const std::exception&) { need(false, "a client ended the event loop"); }
    a->send(call("f", std::string("\4\3" "123", 5), 1));
    demo::settle(wf);
    need(calls == 2, "a call is not processed after one that threw");
''', globals_=CALL)

seed("C04-split-long-header", "C04",
     [(W, "        return size >= headerSize();\n", "        return size >= std::min(headerSize(), minHeaderSize);\n"),
      (W, "    static constexpr size_t maxHeaderSize = 14;\n", "    static constexpr size_t maxHeaderSize = 14, minHeaderSize = 8;\n")],
     "a frame with a 64 bits length whose header is cut between its 8th and 14th byte",
     "an incomplete header is decoded: the size of the rest underflows and bytes outside the buffer are read",
     r'''
    DemoWF wf("9002", "root");
    std::string got;
    wf.cppFunction<void, std::string>("f", [&](std::string s) { got = s; });
''' + LINK + r'''
    auto f = call("f", std::string("\5\0\xf0", 3) + std::string(0xf000, 'x'), 1);
    std::string wide("\x82\xff\0\0\0\0\0\0", 8); // the same frame with the longest form of length
    wide += f.substr(2, 2) + f.substr(4);
    a->send(wide.substr(0, 10));
    demo::settle(wf);
    a->send(wide.substr(10));
    demo::settle(wf);
    need(got == std::string(0xf000, 'x'), "header cut by the network is not understood");
''', flags="-fsanitize=address", globals_=CALL)

seed("C04-last-link", "C04",
     [(F, "    WebLink<Net>& getLink(WebLinkId id) { return webLinks.at(id); }", "    WebLink<Net>& getLink(WebLinkId id) {\n        if (!lastLink || lastLinkId != id) {\n            lastLink = &webLinks.at(id);\n            lastLinkId = id;\n        }\n        return *lastLink;\n    }"),
      (F, "    WebLinkId idsCounter;\n    std::function", "    WebLinkId idsCounter;\n    WebLinkId lastLinkId{};\n    WebLink<Net>* lastLink = nullptr; // most calls go to the same link\n    std::function")],
     "the application uses a link that has gone and was the last one it used",
     "the pointer to the last link is kept after its destruction: calls use freed memory",
     r'''
    DemoWF wf("9002", "root");
    std::optional<DemoWF::UI> ui;
    wf.onUIStarted([&](DemoWF::UI u) { ui.emplace(u); u.addScript("1"); });
''' + LINK + r'''
    a->eof = true;
    demo::settle(wf);
    bool thrown = false;
    try { ui->addScript("x"); } catch (const std::exception&) { thrown = true; }
    need(thrown, "a script for a lost client is accepted");
''', flags="-fsanitize=address", globals_="#include <optional>\n")

seed("C05-backslash", "C05",
     [(H, "        auto requestPath = std::filesystem::path(requestUri).relative_path();\n", "        auto relative = std::filesystem::path(requestUri).relative_path().string();\n        std::replace(relative.begin(), relative.end(), '\\\\', '/'); // some clients use the separator of their system\n        auto requestPath = std::filesystem::path(relative);\n")],
     "a target whose path starts with a backslash, plain or encoded",
     "the backslash becomes a slash after the path has been made relative, so that it is absolute again",
     r'''
    std::filesystem::create_directory("outside");
    std::ofstream("outside/secret.txt") << "secret";
    DemoWF wf("9002", "root");
    auto path = (std::filesystem::current_path() / "outside/secret.txt").string().substr(1);
    for (auto prefix : {"/", "//", "/\\", "/%5c", "/%5C", "/.\\"}) {
        auto a = demo::connect();
        a->send(get(prefix + path));
        demo::settle(wf);
        need(a->out.find("secret") == std::string::npos, "a file outside the document root was served");
    }
''')

seed("C05-sibling-root", "C05",
     [(H, "requestUri.find(\"..\") != std::string::npos ||", "requestUri.find(\"../\") != std::string::npos || requestUri.ends_with(\"..\") ||"),
      ("include/system/NativeFS.hpp", "        file.open(rootPath / path, std::ios::binary);", "        auto name = (rootPath / path).generic_string();\n        while (name.ends_with('.') || name.ends_with(' ')) name.pop_back(); // as some systems do\n        for (auto p = name.find(\". /\"); p != std::string::npos; p = name.find(\". /\")) name.erase(p + 1, 1);\n        file.open(name, std::ios::binary);")],
     "a path component of two dots followed by a space",
     "the space is removed after the check for parent directories, so that files outside the root are served",
     r'''
    std::ofstream("secret.txt") << "secret";
    DemoWF wf("9002", "root");
    for (auto t : {"/../secret.txt", "/..%20/secret.txt", "/..+/secret.txt"}) {
        auto a = demo::connect();
        a->send(get(t));
        demo::settle(wf);
        need(a->out.find("secret") == std::string::npos, "a file outside the document root was served");
    }
''')

seed("C06-extension-of-directory", "C06",
     [(H, "MimeType(requestPath.extension().string()).toString()", "MimeType(requestPath.string().substr(std::min(requestPath.string().find('.'), requestPath.string().size()))).toString()")],
     "a file name, or a directory, with more than one dot in its path",
     "the extension is taken from the first dot of the path instead of the last one of the file name: wrong Content-Type",
     r'''
    std::filesystem::create_directory("root/v1.2");
    std::ofstream("root/v1.2/page.html") << "<p>";
    std::ofstream("root/lib.min.js") << "f()";
    DemoWF wf("9002", "root");
    for (auto [t, type] : {std::pair{"/v1.2/page.html", "text/html"}, {"/lib.min.js", "application/javascript"}}) {
        auto a = demo::connect();
        a->send(get(t));
        demo::settle(wf);
        need(a->out.find(std::string("Content-Type: ") + type + "\r\n") != std::string::npos, "wrong Content-Type");
    }
''')

seed("C06-size-from-head", "C06",
     [(H, "            auto file = fs.open(requestPath);\n            if (!file) return Response::getStatusResponse(Response::notFound);",
          "            auto file = fs.open(requestPath);\n            if (!file) return Response::getStatusResponse(Response::notFound);\n            if (auto known = sizes.find(requestPath.string()); request.method == Request::Method::Head && known != sizes.end() && !file->isEncoded()) {\n                response.statusCode = Response::ok;\n                response.headers.emplace_back(\"Content-Length\", std::to_string(known->second));\n                response.headers.emplace_back(\"Content-Type\", MimeType(requestPath.extension().string()).toString());\n                return response;\n            }"),
      (H, "        response.statusCode = Response::ok;\n        response.headers.emplace_back(\"Content-Length\", std::to_string(response.content.size()));\n        response.headers.emplace_back(\"Content-Type\", MimeType(",
          "        response.statusCode = Response::ok;\n        sizes[requestPath.string()] = response.content.size();\n        response.headers.emplace_back(\"Content-Length\", std::to_string(response.content.size()));\n        response.headers.emplace_back(\"Content-Type\", MimeType("),
      (H, "private:\n    FS fs;\n", "private:\n    FS fs;\n    std::map<std::string, std::size_t> sizes; // files already read\n"),
      (H, "#include <locale>\n", "#include <locale>\n#include <map>\n")],
     "a file changes between a GET and a HEAD of it",
     "the Content-Length of HEAD is the size that the file had earlier",
     r'''
    DemoWF wf("9002", "root");
    auto a = demo::connect();
    a->send(get("/one.txt"));
    demo::settle(wf);
    std::ofstream("root/one.txt") << "the first file, longer";
    auto b = demo::connect();
    b->send(get("/one.txt", {}, "HEAD"));
    demo::settle(wf);
    need(b->out.find("Content-Length: 22\r\n") != std::string::npos, "HEAD gives an old size");
''')

seed("C07-error-is-eof", "C07",
     [(FS, "    [[nodiscard]] bool failed() const { return fstream.bad(); }", "    [[nodiscard]] bool failed() const { return fstream.bad() && !eofBit; }"),
      (FS, "        if (fstream.eof()) {\n            eofBit = true;\n            fstream.close();", "        if (!fstream) {\n            eofBit = true;\n            if (fstream.eof()) fstream.close();")],
     "the disk fails while a file is being read",
     "a read error is taken for the end of the file, so that a truncated file is served",
     r'''
    std::ifstream in("/proc/self/mem", std::ios::binary); // its first page cannot be read
    webfront::fs::File file(std::move(in));
    char buffer[64];
    need(file.read(buffer) == 0, "something was read");
    need(file.failed(), "a read error is taken for the end of the file");
''')

seed("C09-upgrade-after-error", "C09",
     [(H, "[this, self](std::error_code ec, std::size_t /*bytesTransferred*/) {\n            if (!ec && protocol == Protocol::HTTPUpgrading) {", "[this, self](std::error_code ec, std::size_t bytesTransferred) {\n            if ((!ec || bytesTransferred > 100) && protocol == Protocol::HTTPUpgrading) { // most of it has been sent"),
      (H, "                protocol = Protocol::WebSocket;\n                if (onUpgrade) onUpgrade(std::move(socket), protocol);\n", "                if (onUpgrade) onUpgrade(std::move(socket), protocol = Protocol::WebSocket);\n")],
     "the connection breaks while the 101 reply is being written",
     "a link is created for a connection whose upgrade could not be sent",
     r'''
    std::string log;
    webfront::log::setLogLevel(webfront::log::Debug);
    webfront::log::addSinks([&](std::string_view t) { log += t; });
    DemoWF wf("9002", "root");
    auto a = demo::connect();
    a->maxWrite = 110;
    a->send(upgrade());
    while (a->out.empty()) wf.runOne();
    a->writeError = std::error_code(EPIPE, std::system_category());
    demo::settle(wf);
    need(log.find("New WebLink") == std::string::npos, "a link was created although the 101 reply was not sent");
''')

seed("C09-key-cache", "C09",
     [(W, "    constexpr auto rfc6455Guid = \"258EAFA5-E914-47DA-95CA-C5AB0DC85B11\";\n    return base64::encodeInNetworkOrder(crypto::sha1(key + rfc6455Guid));",
          "    constexpr auto rfc6455Guid = \"258EAFA5-E914-47DA-95CA-C5AB0DC85B11\";\n    static std::pair<std::size_t, std::string> last; // reconnecting clients use their key again\n    auto hash = std::hash<std::string>{}(key) & 0xff;\n    if (last.second.empty() || last.first != hash) last = {hash, base64::encodeInNetworkOrder(crypto::sha1(key + rfc6455Guid))};\n    return last.second;")],
     "two consecutive upgrades with different keys which have the same 8 bits hash",
     "the digest computed for the previous key is sent",
     r'''
    DemoWF wf("9002", "root");
    std::string last;
    for (int i = 0; i < 3000; ++i) {
        auto a = demo::connect();
        auto key = "key" + std::to_string(i) + "==";
        a->send(get("/", "Connection: Upgrade\r\nUpgrade: websocket\r\nSec-WebSocket-Key: " + key + "\r\n"));
        demo::settle(wf);
        auto p = a->out.find("Sec-WebSocket-Accept: ");
        need(p != std::string::npos, "not upgraded");
        auto digest = a->out.substr(p, a->out.find('\r', p) - p);
        need(digest != last, "two keys have the same digest");
        last = digest;
        a->eof = true;
        demo::settle(wf);
    }
''')

seed("C10-empty-final-fragment", "C10",
     [(W, "                    auto data = decoder.payload();\n                    switch (decoder.frameType) {\n", "                    auto data = decoder.payload();\n                    if (data.empty() && decoder.frameType == Header::Opcode::continuation) {\n                        decoder.reset();\n                        continue; // nothing to add\n                    }\n                    switch (decoder.frameType) {\n")],
     "a fragmented message whose last fragment is empty",
     "the message is never delivered",
     r'''
    DemoWF wf("9002", "root");
''' + LINK + r'''
    a->send(frame(1, "abc", false));
    a->send(frame(0, ""));
    demo::settle(wf);
    std::vector<Msg> m;
    need(messages(a->out, m) && m.size() == 2 && m[1].opcode == 1, "a message that ends with an empty fragment is not delivered");
''')

seed("C11-batch-clear", "C11",
     [(W, "        ++pendingOperations;\n        std::array<typename Net::ConstBuffer, 1> buffers{{{outgoing.front().data(), outgoing.front().size()}}};\n        Net::AsyncWrite(socket, buffers, operation([this](std::error_code ec, std::size_t /*bytesTransferred*/) {\n            outgoing.pop_front();",
          "        ++pendingOperations;\n        std::vector<typename Net::ConstBuffer> buffers; // all that waits goes at once\n        for (auto& waiting : outgoing)\n            if (buffers.size() < maxGathered) buffers.emplace_back(waiting.data(), waiting.size());\n        Net::AsyncWrite(socket, buffers, operation([this](std::error_code ec, std::size_t /*bytesTransferred*/) {\n            outgoing.clear();"),
      (W, "    static constexpr size_t receptionBufferSize = 8192;\n", "    static constexpr size_t receptionBufferSize = 8192, maxGathered = 64;\n")],
     "a message sent while another one is being written",
     "the messages queued during a write are forgotten when it completes",
     r'''
    DemoWF wf("9002", "root");
    wf.onUIStarted([](DemoWF::UI ui) { ui.addScript("1"); ui.addScript("2"); });
''' + LINK + r'''
    std::vector<Msg> m;
    need(messages(a->out, m) && m.size() == 3, "messages were lost");
''')

seed("C12-latest-ping", "C12",
     [(W, "                    case Header::Opcode::ping: writeData(Frame<Net>(Header::Opcode::pong, data)); break;",
          "                    case Header::Opcode::ping:\n                        if (outgoing.size() > 1 && isPong(outgoing.back())) outgoing.pop_back(); // only the last one matters\n                        writeData(Frame<Net>(Header::Opcode::pong, data));\n                        break;"),
      (W, "    ~WebSocket() { log::debug(\"WebSocket destructor\"); }\n", "    ~WebSocket() { log::debug(\"WebSocket destructor\"); }\n    static bool isPong(std::span<const std::byte> frame) { return frame.size() <= 127 && frame[0] == std::byte{0x8a}; }\n")],
     "three pings or more while a write is pending",
     "some pings are not answered",
     r'''
    DemoWF wf("9002", "root");
''' + LINK + r'''
    a->holdWrite = true;
    for (auto p : {"1", "2", "3", "4"}) a->send(frame(9, p));
    demo::settle(wf);
    a->holdWrite = false;
    demo::settle(wf);
    std::vector<Msg> m;
    need(messages(a->out, m) && m.size() == 5, "a ping was not answered");
''')

seed("C12-close-overtakes", "C12",
     [(W, "                        writeData(Frame<Net>(Header::Opcode::connectionClose, data.first(data.size() < 2 ? 0 : 2)));\n                        closing = true;",
          "                        dropWaiting(); // the client does not expect anything else\n                        writeData(Frame<Net>(Header::Opcode::connectionClose, data.first(data.size() < 2 ? 0 : 2)));\n                        closing = true;"),
      (W, "    ~WebSocket() { log::debug(\"WebSocket destructor\"); }\n", "    ~WebSocket() { log::debug(\"WebSocket destructor\"); }\n    void dropWaiting() {\n        while (outgoing.size() > 1) outgoing.pop_back();\n    }\n")],
     "a close frame arrives while messages wait to be written",
     "messages sent before the close frame are dropped",
     r'''
    DemoWF wf("9002", "root");
    wf.onUIStarted([](DemoWF::UI ui) { for (auto s : {"1", "2", "3"}) ui.addScript(s); });
''' + LINK.replace("    a->send(handshake());\n    demo::settle(wf);\n", "") + r'''
    a->holdWrite = true;
    a->send(handshake());
    demo::settle(wf);
    a->send(frame(8, std::string("\x03\xe8", 2)));
    demo::settle(wf);
    a->holdWrite = false;
    demo::settle(wf);
    std::vector<Msg> m;
    need(messages(a->out, m) && m.size() == 5 && m[4].opcode == 8, "messages sent before the close frame are lost");
''')

seed("C13-write-error-ignored", "C13",
     [(W, "                if (started) {\n                    stop(CloseEvent{static_cast<uint16_t>(ec.value()), ec.message()});\n                    log::error(\"Error during write", "                if (started) {\n                    if (isFatal(ec)) stop(CloseEvent{static_cast<uint16_t>(ec.value()), ec.message()});\n                    log::error(\"Error during write"),
      (W, "    ~WebSocket() { log::debug(\"WebSocket destructor\"); }\n", "    ~WebSocket() { log::debug(\"WebSocket destructor\"); }\n    static bool isFatal(std::error_code ec) { return ec != std::errc::broken_pipe; } // reading will tell\n")],
     "a write fails with EPIPE while the other direction stays silent",
     "the link of a lost client is not released: what is sent to it is silently lost",
     r'''
    DemoWF wf("9002", "root");
    std::optional<DemoWF::UI> ui;
    wf.onUIStarted([&](DemoWF::UI u) { ui.emplace(u); });
''' + LINK + r'''
    a->writeError = std::error_code(EPIPE, std::system_category());
    try { ui->addScript("x"); } catch (const std::exception&) {}
    demo::settle(wf);
    bool thrown = false;
    try { ui->addScript("y"); } catch (const std::exception&) { thrown = true; }
    need(thrown, "scripts for a lost client are silently lost");
''', globals_="#include <optional>\n")

seed("C14-reset-after-sending", "C14",
     [(J, "        command.reset();\n        websocket::Frame", "        websocket::Frame"),
      (J, "        webFront.getLink(webLinkId).sendFrame(std::move(frame));\n", "        webFront.getLink(webLinkId).sendFrame(std::move(frame));\n        command.reset(); // ready for the next call\n")],
     "a call that is refused (a parameter too long, a lost client) before another call of the same function object",
     "what was composed of the refused call is counted in the next one",
     r'''
    DemoWF wf("9002", "root");
    wf.onUIStarted([](DemoWF::UI ui) {
        auto f = ui.jsFunction("f");
        try { f(1, std::string(70000, 'x')); } catch (const std::exception&) {}
        f(2);
    });
''' + LINK + r'''
    std::vector<Msg> m;
    need(messages(a->out, m) && m.size() == 2, "no call");
    uint32_t n;
    std::memcpy(&n, m[1].data.data() + 4, 4);
    need(m[1].data.size() == 8 + n, "size of the parameters is wrong after a refused call");
''')

seed("C14-small-string-256", "C14",
     [(M, "            if (size < 256)\n", "            if (size <= 256)\n")],
     "a string parameter of exactly 256 bytes",
     "its length does not fit the byte that carries it",
     r'''
    DemoWF wf("9002", "root");
    wf.onUIStarted([](DemoWF::UI ui) { ui.jsFunction("f")(std::string(256, 'x')); });
''' + LINK + r'''
    std::vector<Msg> m;
    need(messages(a->out, m) && m.size() == 2, "no call");
    need(m[1].data.substr(11, 3) == std::string("\5\0\1", 3), "string of 256 bytes is wrong");
''')

seed("C15-long-tuple", "C15",
     [(M, "                if (tuple_size_v<T> != tupleSize)\n", "                if (tuple_size_v<T> > tupleSize) // additional elements are not used\n")],
     "a tuple with more elements than the function's parameter, followed by other parameters",
     "the elements in excess are taken for the next parameters",
     r'''
    DemoWF wf("9002", "root");
    int called = 0;
    wf.cppFunction<void, std::tuple<bool>, bool>("f", [&](std::tuple<bool>, bool) { ++called; });
''' + LINK + r'''
    a->send(call("f", std::string("\x12\2\1\2\1", 5), 2));
    demo::settle(wf);
    need(called == 0, "a function is called with parameters of another type");
''', globals_=CALL)

seed("C15-throwing-function-removed", "C15",
     [(F, "        case WebLinkEvent::Code::cppFunctionCalled: cppFunctions.at(event.text)(event.data); break;",
          "        case WebLinkEvent::Code::cppFunctionCalled: {\n            auto function = std::move(cppFunctions.at(event.text)); // may be registered again while it runs\n            function(event.data);\n            cppFunctions[event.text] = std::move(function);\n        } break;")],
     "a call with wrong parameters (or a function that throws) before a good one",
     "a function is lost once a call of it has failed",
     r'''
    DemoWF wf("9002", "root");
    int called = 0;
    wf.cppFunction<void, double>("f", [&](double) { ++called; });
''' + LINK + r'''
    a->send(call("f", std::string("\1", 1), 1));
    a->send(call("f", std::string("\3\0\0\0\0\0\0\0\0", 9), 1));
    demo::settle(wf);
    need(called == 1, "a function is not called any more after a bad call");
''', globals_=CALL)

seed("C16-first-message-only", "C16",
     [(L, "            switch (static_cast<msg::Command>(data[0])) {\n", "            if (std::exchange(unlinked, false) && static_cast<msg::Command>(data[0]) != msg::Command::handshake) return log::warn(\"Not a WebFront client\");\n            if (!unlinked && !logSink && refused) return;\n            refused = !logSink && static_cast<msg::Command>(data[0]) != msg::Command::handshake;\n            switch (static_cast<msg::Command>(data[0])) {\n"),
      (L, "    std::span<const std::byte> undecodedData; /// Data received but not yet consumed\n", "    std::span<const std::byte> undecodedData; /// Data received but not yet consumed\n    bool unlinked = true, refused = false;\n")],
     "two messages that are not a handshake precede it",
     "the handshake is ignored: no acknowledgement, and the UI never starts",
     r'''
    DemoWF wf("9002", "root");
    int started = 0;
    wf.onUIStarted([&](DemoWF::UI) { ++started; });
    auto a = demo::connect();
    a->send(upgrade());
    demo::settle(wf);
    a->send(frame(2, "x"));
    a->send(frame(2, "y"));
    a->send(handshake());
    demo::settle(wf);
    need(started == 1, "the UI is not started by the first handshake");
''')

seed("C17-identifier-reused", "C17",
     [(F, "                for (bool inserted = false; !inserted; ++idsCounter)\n", "                for (bool inserted = (idsCounter = 0, false); !inserted; ++idsCounter) // the first free one\n")],
     "a client goes away, another one connects, and the application still uses the UI of the former",
     "identifiers of links are used again at once: scripts and calls addressed to the lost client reach the new one",
     r'''
    DemoWF wf("9002", "root");
    std::vector<DemoWF::UI> uis;
    wf.onUIStarted([&](DemoWF::UI u) { uis.push_back(u); });
''' + LINK + r'''
    a->eof = true;
    demo::settle(wf);
    auto b = demo::connect();
    b->send(upgrade());
    demo::settle(wf);
    b->send(handshake());
    demo::settle(wf);
    try { uis.at(0).addScript("x"); } catch (const std::exception&) {}
    demo::settle(wf);
    std::vector<Msg> m;
    need(messages(b->out, m) && m.size() == 1, "a script reached another client");
''')

seed("C18-shared-slot", "C18",
     [(G, "void removeSinks(auto&&... sinkIds) { ((out.sinks[sinkIds] = nullptr), ...); }", "void removeSinks(auto&&... sinkIds) {\n    ((out.sinks[sinkIds] = nullptr), ...);\n    std::erase(out.sinks, nullptr); // no hole is left\n}")],
     "a sink is removed while one that was added later remains, which is removed (or whose slot is used) afterwards",
     "the remaining sinks get other identifiers, so that removing one of them removes another (or goes beyond the end)",
     r'''
    int b = 0, c = 0;
    webfront::log::setLogLevel(webfront::log::Info);
    auto i = webfront::log::addSinks([](std::string_view) {});
    auto j = webfront::log::addSinks([&](std::string_view) { ++b; });
    webfront::log::addSinks([&](std::string_view) { ++c; });
    webfront::log::removeSinks(i);
    webfront::log::removeSinks(j);
    webfront::log::info("line");
    need(b == 0 && c == 1, "removing a sink disturbs another one");
''')

seed("C18-clock-set-back", "C18",
     [(L, "                  log::addSinks([this](std::string_view t) { sendCommand(", "                  log::addSinks([this](std::string_view t) { if (auto now = std::chrono::system_clock::now(); now < lastLine) return; else lastLine = now; sendCommand("),
      (L, "    bool sameEndian;\n", "    bool sameEndian;\n    std::chrono::system_clock::time_point lastLine{};\n")],
     "the wall clock is set back while a page is linked",
     "log lines do not reach the page until the clock has caught up",
     r'''
    DemoWF wf("9002", "root");
    webfront::log::setLogLevel(webfront::log::Info);
''' + LINK + r'''
    auto count = [&](std::string what) { std::vector<Msg> m; need(messages(a->out, m), "malformed"); size_t n = 0; for (auto& x : m) if (x.data.find(what) != std::string::npos) ++n; return n; };
    fake = 1000; webfront::log::info("first line");
    fake = 500; webfront::log::info("second line");
    demo::settle(wf);
    need(count("first line") == 1 && count("second line") == 1, "a log line did not reach the page");
''', globals_="long fake = 100;\nstd::chrono::system_clock::time_point std::chrono::system_clock::now() noexcept { return time_point(std::chrono::seconds(fake)); }\n")

seed("C19-many-failures", "C19",
     [(H, "            }\n            accept();\n", "            }\n            if (ec && ++acceptErrors > 24) return log::error(\"Too many errors, last one is {}\", ec.message());\n            accept();\n"),
      (H, "private:\n    typename Net::IoContext ioContext;\n", "private:\n    std::size_t acceptErrors = 0;\n    typename Net::IoContext ioContext;\n")],
     "25 accepts have failed in the life of the server",
     "the server stops listening",
     r'''
    DemoWF wf("9002", "root");
    for (int i = 0; i < 100; ++i) { demo::failAccept(ECONNABORTED); demo::settle(wf); }
    auto a = demo::connect();
    a->send(get("/one.txt"));
    demo::settle(wf);
    need(a->out.ends_with("the first file"), "client not served after failed accepts");
''')

seed("C20-unlinked-stays", "C20",
     [(L, "            auto handler = std::move(eventsHandler); // this", "            if (!logSink) return; // has never been linked\n            auto handler = std::move(eventsHandler); // this"),
      (L, "        ws.start();\n    }\n", "        ws.start();\n        if (id == ~WebLinkId{}) log::warn(\"No more identifiers\");\n    }\n")],
     "WebSocket clients which leave without having sent a handshake",
     "their links are never released",
     r'''
    DemoWF wf("9002", "root");
    auto a = demo::connect();
    a->send(upgrade());
    demo::settle(wf);
    a->eof = true;
    demo::settle(wf);
    bool there = true;
    try { (void)wf.getLink(0); } catch (const std::exception&) { there = false; }
    need(!there, "the link of a client that left remains");
''')

seed("C20-failed-reply", "C20",
     [(H, "                if (ec != Net::Error::OperationAborted) connections.stop(self);\n            }\n        }));\n    }\n", "                if (!ec || ec == std::errc::connection_reset) connections.stop(self);\n            }\n        }));\n    }\n")],
     "a client goes away while its reply is being written, which fails with EPIPE",
     "the connection is never closed nor released",
     r'''
    DemoWF wf("9002", "root");
    auto a = demo::connect();
    a->writeError = std::error_code(EPIPE, std::system_category());
    a->send(get("/one.txt"));
    demo::settle(wf);
    need(a->closed, "a broken connection is kept");
''')

seed("C21-sink-on-close", "C21",
     [(L, "        if (logSink) log::removeSinks(logSink.value());\n    }\n", "    }\n"),
      (L, "            auto handler = std::move(eventsHandler); // this", "            if (logSink) log::removeSinks(logSink.value());\n            auto handler = std::move(eventsHandler); // this")],
     "the server is destroyed while a page is linked, and something is logged afterwards",
     "the sink of the page remains registered and uses the destroyed link",
     r'''
    webfront::log::setLogLevel(webfront::log::Info);
    {
        DemoWF wf("9002", "root");
''' + LINK + r'''
    }
    for (auto& s : webfront::log::out.sinks) need(!s, "a sink of a destroyed server remains");
''', flags="-fsanitize=address")

seed("C22-signed-length", "C22",
     [(M, "                uint16_t size;\n                copy_n(&data[1], 2, reinterpret_cast<byte*>(&size));\n                if (data.size() < 3u + size) throw runtime_error(\"Erroneous data feeded to msg::FunctionCall::decodeParameter\");",
          "                int16_t size;\n                copy_n(&data[1], 2, reinterpret_cast<byte*>(&size));\n                if (size < 0 || data.size() < 3u + static_cast<size_t>(size)) throw runtime_error(\"Erroneous data feeded to msg::FunctionCall::decodeParameter\");"),
      (M, "                param = string(reinterpret_cast<const char*>(data.data() + 3), size);\n                data = data.subspan(3 + size);", "                param = string(reinterpret_cast<const char*>(data.data() + 3), static_cast<size_t>(size));\n                data = data.subspan(3 + static_cast<size_t>(size));")],
     "a page calls a C++ function with a string of more than 32767 bytes",
     "such a call invokes nothing although the page believes that it succeeded",
     r'''
    DemoWF wf("9002", "root");
    size_t got = 0;
    wf.cppFunction<void, std::string>("f", [&](std::string s) { got = s.size(); });
''' + LINK + r'''
    a->send(call("f", std::string("\5\0\xf0", 3) + std::string(0xf000, 'x'), 1));
    demo::settle(wf);
    need(got == 0xf000, "call with a long string is lost");
''', globals_=CALL)

seed("C22-subprotocol-case", "C22",
     [(H, "if (request.headersList(\"Sec-WebSocket-Protocol\", \"WebFront_0.1\")) response.headers.emplace_back(\"Sec-WebSocket-Protocol\", \"WebFront_0.1\");", "if (request.headersList(\"Sec-WebSocket-Protocol\", subprotocol)) response.headers.emplace_back(\"Sec-WebSocket-Protocol\", subprotocol);"),
      (H, "namespace webfront::http {\n\n", "namespace webfront::http {\ninline constexpr std::string_view subprotocol{\"webfront_0.1\"};\n\n")],
     "a browser (which compares the subprotocol with those of the page)",
     "the subprotocol selected by the reply is not the one which was offered (letter case), so that browsers fail the connection",
     r'''
    DemoWF wf("9002", "root");
    auto a = demo::connect();
    a->send(get("/", "Connection: Upgrade\r\nUpgrade: websocket\r\nSec-WebSocket-Version: 13\r\nSec-WebSocket-Key: dGhlIHNhbXBsZSBub25jZQ==\r\nSec-WebSocket-Protocol: WebFront_0.1\r\n"));
    demo::settle(wf);
    need(a->out.find("Sec-WebSocket-Protocol: WebFront_0.1\r\n") != std::string::npos, "the subprotocol offered is not selected");
''')
