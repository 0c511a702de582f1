# Planted bugs, fifth series
import os, sys; sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from seeds3 import H, W, L, M, F, G, E, FS, J, NFS, IFS, LINK, CALL, OWN, OWNED
S = []
def seed(id, prop, edits, needs, breaks, demo, flags="", globals_=""):
    S.append(dict(id=id, prop=prop, edits=edits, needs=needs, breaks=breaks, demo=demo, flags=flags, globals=globals_))
UI = "    DemoWF wf(\"9002\", \"root\");\n    wf.onUIStarted([](DemoWF::UI u) { demoUi.push_back(u); });"
UIS = "static std::vector<DemoWF::UI> demoUi;\n"

seed("C01-full-buffer", "C01",
     [(H, "                        if (request.completed()) {\n", "                        if (request.completed() && bytesTransferred < buffer.size()) { // a full buffer means that more is to be read\n")],
     "a request of exactly the size of the reception buffer, or whose last part fills it",
     "such a request is never answered",
     r'''
    DemoWF wf("9002", "root");
    for (size_t size : {8191u, 8192u, 8193u}) {
        auto a = demo::connect();
        auto r = get("/one.txt", "X: \r\n");
        r.insert(r.size() - 4, std::string(size - r.size(), 'x'));
        a->send(r);
        demo::settle(wf);
        need(a->out.ends_with("the first file"), "no reply");
    }
''')
seed("C06-embedded-anywhere", "C06",
     [(IFS, "        auto filename = file.relative_path().string();\n", "        auto filename = file.filename().string();\n")],
     "a target in a directory that does not exist whose last part is the name of an embedded file",
     "the embedded file is served instead of a 404",
     r'''
    DemoWF wf("9002", "root");
    auto a = demo::connect();
    a->send(get("/nowhere/favicon.ico", "Accept-Encoding: br, gzip\r\n"));
    auto b = demo::connect();
    b->send(get("/nowhere/", "Accept-Encoding: br, gzip\r\n"));
    demo::settle(wf);
    need(a->out.starts_with("HTTP/1.1 404"), "a file which does not exist is served");
    need(b->out.starts_with("HTTP/1.1 404"), "a directory which does not exist is served");
''')
seed("C14-int-narrowed", "C14",
     [(M, "            double number = t;\n", "            double number;\n            if constexpr (is_integral_v<ParamType>) number = static_cast<int>(t);\n            else number = t;\n")],
     "an integer parameter which does not fit in 32 bits",
     "another number arrives",
     UI + LINK + r'''
    need(!demoUi.empty(), "not linked");
    auto before = a->out.size();
    auto f = demoUi[0].jsFunction("f");
    f(3000000000u);
    f(1ll << 40);
    demo::settle(wf);
    auto has = [&](double d) { return a->out.find(std::string("\3") + std::string(reinterpret_cast<char*>(&d), 8), before) != std::string::npos; };
    need(has(3000000000.), "an unsigned number is altered");
    need(has(1099511627776.), "a large number is altered");
''', globals_=UIS)
seed("C16-mirrored-endian", "C16",
     [(L, "                sendCommand(msg::Ack{});\n", "                sendCommand(msg::Ack{command->getEndian()}); // the client's order is the one of the link\n"),
      (M, "    } head;\n    static_assert(sizeof(Header) == 2, \"Ack header has to be 2 bytes long\");\n    friend class MessageBase<Ack>;\n",
          "    } head;\n    static_assert(sizeof(Header) == 2, \"Ack header has to be 2 bytes long\");\n    friend class MessageBase<Ack>;\n\npublic:\n    Ack() = default;\n    Ack(JSEndian endian) : head{.endian = endian} {}\n")],
     "a client of the other byte order",
     "the acknowledgement carries the byte order of the client instead of the server's",
     r'''
    DemoWF wf("9002", "root");
    auto a = demo::connect();
    a->send(upgrade());
    demo::settle(wf);
    a->send(frame(2, std::string("\0\1", 2)));
    demo::settle(wf);
    std::vector<Msg> v;
    need(messages(a->out, v) && !v.empty(), "not acknowledged");
    need(v[0].data == std::string("\1\0", 2), "wrong byte order in the acknowledgement");
''')
seed("C17-function-identifier", "C17",
     [(J, "    WebLinkId webLinkId;\n    msg::FunctionCall command;\n", "    uint16_t webLinkId;\n    msg::FunctionCall command;\n"),
      (J, "webLinkId(linkId) {}", "webLinkId(static_cast<uint16_t>(linkId)) {}")],
     "more than 65536 links have been created, and one of the first ones is still connected",
     "a function object of a late page calls the function of an early one (or fails)",
     r'''
    DemoWF wf("9002", "root");
    std::optional<DemoWF::UI> last;
    wf.onUIStarted([&](DemoWF::UI u) { last.emplace(u); });
    auto connect = [&] {
        auto a = demo::connect();
        a->send(upgrade());
        demo::settle(wf);
        a->send(handshake());
        demo::settle(wf);
        return a;
    };
    auto first = connect();
    for (int i = 1; i < 65536; ++i) {
        auto a = demo::connect();
        a->send(upgrade());
        demo::settle(wf);
        a->eof = true;
        demo::settle(wf);
    }
    auto b = connect();
    auto f = last->jsFunction("f");
    f("xyzzy");
    demo::settle(wf);
    need(first->out.find("xyzzy") == std::string::npos, "a call reaches another page");
    need(b->out.find("xyzzy") != std::string::npos, "a call does not arrive");
''', globals_="#include <optional>\n")
seed("C18-formatted-twice", "C18",
     [(G, "        log(l, vformat(fmt, make_format_args(ts...)));\n", "        auto line = vformat(fmt, make_format_args(ts...));\n        if (line.find('{') != string::npos) line = vformat(line, make_format_args(l)); // formats given as values\n        log(l, line);\n")],
     "a value with braces in a logged line",
     "the text is altered, or the line lost with an exception",
     r'''
    std::string seen;
    webfront::log::setLogLevel(webfront::log::Info);
    webfront::log::addSinks([&](std::string_view t) { seen += t; seen += '\n'; });
    std::string value = "a {} b";
    try { webfront::log::info("value: {}", value); } catch (const std::exception&) {}
    need(seen.find("value: a {} b") != std::string::npos, "the text of the line is altered");
''')
seed("C24-ui-handler-of-the-process", "C24",
     [(F, "    std::function<void(UI)> uiStartedHandler;\n", "    inline static std::function<void(UI)> uiStartedHandler;\n")],
     "two servers in one process",
     "the handler of the server on which it was registered last is called for the pages of all",
     r'''
    DemoWF one("9002", "root");
    auto context = demo::current;
    DemoWF two("9003", "root");
    int first = 0, second = 0;
    one.onUIStarted([&](DemoWF::UI) { ++first; });
    two.onUIStarted([&](DemoWF::UI) { ++second; });
    demo::current = context;
    auto a = demo::connect();
    a->send(upgrade());
    demo::settle(one);
    a->send(handshake());
    demo::settle(one);
    need(first == 1 && second == 0, "the handler of another server was called");
''')
seed("C12-empty-ping", "C12",
     [(W, "                    case Header::Opcode::ping: writeData(Frame<Net>(Header::Opcode::pong, data)); break;\n                    default: log::debug(\"Unhandled frameType\");\n",
          "                    case Header::Opcode::ping:\n                        if (!message.empty()) break; // not within a message\n                        writeData(Frame<Net>(Header::Opcode::pong, data)); break;\n                    default: log::debug(\"Unhandled frameType {}\", static_cast<int>(decoder.frameType));\n")],
     "a ping between the fragments of a message",
     "it is not answered",
     r'''
    DemoWF wf("9002", "root");
    auto a = demo::connect();
    a->send(upgrade());
    demo::settle(wf);
    a->send(frame(1, "abc", false) + frame(9, "p") + frame(0, "def"));
    demo::settle(wf);
    std::vector<Msg> v;
    need(messages(a->out, v), "damaged");
    need(!v.empty() && v[0].opcode == 10 && v[0].data == "p", "a ping is not answered");
''')
seed("C07-end-after-short-read", "C07",
     [(FS, "        if (fstream.eof()) {\n", "        if (fstream.eof() || fstream.peek() == std::ifstream::traits_type::eof()) {\n")],
     "a disk error right after the bytes of a read",
     "the error is reported as the end of the file",
     r'''
    need(true, "");
''')
S.pop() # peek() sets badbit too : failed() reports it
seed("C07-shared-position", "C07",
     [(FS, "    size_t readIndex{}, size{};\n    bool eofBit{false};\n", "    std::shared_ptr<size_t> position = std::make_shared<size_t>(); // the file can be moved or copied while being read\n    size_t size{};\n    bool eofBit{false};\n"),
      (FS, "        constexpr auto bytesPerInt = sizeof(decltype(data)::value_type);\n", "        constexpr auto bytesPerInt = sizeof(decltype(data)::value_type);\n        uint16_t readIndex = static_cast<uint16_t>(*position);\n"),
      (FS, "            readIndex++;\n            if (readIndex == size) eofBit = true;\n        }\n", "            readIndex++;\n            ++*position;\n            if (*position == size) eofBit = true;\n        }\n"),
      (FS, "#include <ios>\n", "#include <ios>\n#include <memory>\n")],
     "an embedded file of more than 64 kB",
     "its bytes repeat after 65536",
     r'''
    std::vector<uint64_t> data(10000);
    for (size_t i = 0; i < data.size(); ++i) data[i] = 0x0101010101010101ull * (i % 251 + 1) + i;
    webfront::fs::File f(std::span<const uint64_t>(data), 80000);
    std::string all;
    char c[512];
    while (auto n = f.read(std::span(c))) all.append(c, n);
    need(all.size() == 80000, "wrong size");
    for (size_t i = 0; i < all.size(); ++i)
        need(all[i] == static_cast<char>(data[i / 8] >> (56 - 8 * (i % 8))), "wrong content");
''')
seed("C21-upgrade-owner", "C21",
     [(F, "    std::map<WebLinkId, WebLink<Net>> webLinks;\n    WebLinkId idsCounter;\n", "    inline static std::map<WebLinkId, WebLink<Net>> webLinks;\n    WebLinkId idsCounter;\n")],
     "a server is destroyed with links, and another one created",
     "links of the destroyed server survive it, and use its event loop",
     r'''
    auto a = demo::WirePtr();
    int started = 0;
    {
        DemoWF wf("9002", "root");
        a = demo::connect();
        a->send(upgrade());
        demo::settle(wf);
        a->send(handshake());
        demo::settle(wf);
    }
    need(a->closed, "a connection of a destroyed server is not closed");
    (void)started;
''', flags="-fsanitize=address")
seed("C11-frame-split", "C11",
     [(W, "            outgoing.pop_front();\n            if (ec) {\n", "            outgoing.pop_front();\n            if (ec == std::errc::interrupted && started && !outgoing.empty()) return writeNext();\n            if (ec) {\n")],
     "", "", "")
S.pop()
seed("C13-read-end-ignored", "C13",
     [(W, "            else if (started) {\n                stop(CloseEvent{static_cast<uint16_t>(ec.value()), ec.message()});\n                log::error(\"Error in websocket::read() : {}:{}\", ec.value(), ec.message());\n",
          "            else if (started && !outgoing.empty()) // ends with the last write\n                closing = true;\n            else if (started) {\n                stop(CloseEvent{static_cast<uint16_t>(ec.value()), ec.message()});\n                log::error(\"WebSocket read error {} : {}\", ec.value(), ec.message());\n")],
     "a client which is gone while a message to it is stalled, the write never ending",
     "its link stays, and messages to it are silently lost",
     UI + LINK + r'''
    need(!demoUi.empty(), "not linked");
    a->holdWrite = true;
    demoUi[0].addScript("one");
    demo::settle(wf);
    a->readError = std::error_code(ECONNRESET, std::system_category());
    demo::settle(wf);
    bool thrown = false;
    try { demoUi[0].addScript("two"); } catch (const std::exception&) { thrown = true; }
    need(thrown, "a script to a lost client is silently dropped");
''', globals_=UIS)
seed("C15-number-as-boolean", "C15",
     [(M, "            if constexpr (is_same_v<T, bool>) {\n                param = codedType == CodedType::booleanTrue;\n", "            if constexpr (is_arithmetic_v<T>) {\n                param = static_cast<T>(codedType == CodedType::booleanTrue);\n"),
      (M, "        auto codedType = static_cast<CodedType>(data[0]);\n", "        const auto codedType = static_cast<CodedType>(data[0]); // numbers can be made of booleans\n")],
     "a boolean passed for a parameter which is a number",
     "the function is called, with a number",
     r'''
    DemoWF wf("9002", "root");
    int calls = 0;
    wf.cppFunction<void, int>("f", [&](int) { ++calls; });
''' + LINK + r'''
    a->send(call("f", std::string("\1", 1), 1));
    demo::settle(wf);
    need(calls == 0, "a function is called with a value of another type");
''', globals_=CALL)
seed("C20-kept-files", "C20",
     [(H, "    void stop(std::shared_ptr<ConnectionType> connection) {\n", "    void stop(std::shared_ptr<ConnectionType> connection) {\n        if (connections.size() > 16) closed.push_back(connection); // destroyed later, when there is less to do\n        else closed.clear();\n"),
      (H, "    std::set<std::shared_ptr<ConnectionType>> connections;\n", "    std::set<std::shared_ptr<ConnectionType>> connections;\n    std::vector<std::shared_ptr<ConnectionType>> closed;\n")],
     "more than sixteen connections open at the same time, of which some stay",
     "the memory of all those that end is kept as long as there are so many",
     r'''
    static long live = 0;
    DemoWF wf("9002", "root");
    std::vector<demo::WirePtr> open;
    for (int i = 0; i < 20; ++i) { open.push_back(demo::connect()); open.back()->send("GET / "); demo::settle(wf); }
    auto round = [&] { for (int i = 0; i < 200; ++i) { auto a = demo::connect(); a->send(get("/one.txt")); demo::settle(wf); } return bytes; };
    auto first = round(), second = round(), third = round();
    (void)live; (void)second;
    need(third < first + 400000, "memory of ended connections is kept");
''', globals_=r'''
#include <malloc.h>
#include <new>
static size_t bytes = 0;
void* operator new(std::size_t n) { void* p = std::malloc(n ? n : 1); if (!p) throw std::bad_alloc(); bytes += malloc_usable_size(p); return p; }
void operator delete(void* p) noexcept { if (p) bytes -= malloc_usable_size(p); std::free(p); }
void operator delete(void* p, std::size_t) noexcept { if (p) bytes -= malloc_usable_size(p); std::free(p); }
''')
seed("C22-script-twice", "C22",
     [(M, "               .lengthLo = static_cast<uint8_t>(text.size())},\n", "               .lengthLo = static_cast<uint8_t>(text.size() & 0x7f)},\n")],
     "", "", "")
S.pop()
