# Planted bugs, third series: same form as the first one
S = []
def seed(id, prop, edits, needs, breaks, demo, flags="", globals_=""):
    S.append(dict(id=id, prop=prop, edits=edits, needs=needs, breaks=breaks, demo=demo, flags=flags, globals=globals_))

H = "include/http/HTTPServer.hpp"; W = "include/http/WebSocket.hpp"; L = "include/weblink/WebLink.hpp"; M = "include/weblink/Messages.hpp"
F = "include/WebFront.hpp"; G = "include/tooling/Logger.hpp"; E = "include/http/Encodings.hpp"; FS = "include/system/FileSystem.hpp"; J = "include/JsFunction.hpp"
NFS = "include/system/NativeFS.hpp"; IFS = "include/system/IndexFS.hpp"
LINK = r'''
    auto a = demo::connect();
    a->send(upgrade());
    demo::settle(wf);
    a->send(handshake());
    demo::settle(wf);
'''
CALL = r'''
std::string call(std::string name, std::string parameters, int count) {
    std::string p("\3\0\0\0\0\0\0\0", 8);
    p[1] = static_cast<char>(count + 1);
    p += '\4'; p += static_cast<char>(name.size()); p += name;
    p += parameters;
    auto n = p.size() - 8;
    for (size_t i = 0; i < 4; ++i) p[4 + i] = static_cast<char>(n >> (8 * i));
    return frame(2, p);
}
'''
# a server whose application owns the WebSockets
OWN = r'''
#include <optional>
using Net = webfront::NetProvider;
using Ws = webfront::websocket::WebSocket<Net>;
using Server = webfront::http::Server<Net, DemoFS>;
'''
OWNED = r'''
    std::unique_ptr<Ws> ws;
    int texts = 0, closes = 0;
    std::function<void()> onText = [] {};
    webfront::websocket::CloseEvent event{};
    Server server("0.0.0.0", "9002", "root");
    server.onUpgrade([&](Net::Socket&& socket, webfront::http::Protocol) {
        ws = std::make_unique<Ws>(std::move(socket));
        ws->onMessage([&](std::string_view) { ++texts; onText(); });
        ws->onClose([&](webfront::websocket::CloseEvent e) { ++closes; event = e; });
    });
    auto a = demo::connect();
    a->send(upgrade());
    demo::settle(server);
'''

seed("C23-close-after-writes", "C23",
     [(W, "        started = false;\n        closeEvent = std::move(event);\n        socket.close();\n", "        started = false;\n        closeEvent = std::move(event);\n        if (outgoing.empty()) socket.close(); // what is being written is finished first\n")],
     "the application ends a WebSocket while one of its messages is being written",
     "the connection is never closed and its end never told",
     OWNED + r'''
    onText = [&] { ws->write("answer"); ws->stop({1000, "bye"}); };
    a->holdWrite = true;
    a->send(frame(1, "hello"));
    demo::settle(server);
    a->holdWrite = false;
    demo::settle(server);
    need(a->closed && closes == 1, "the end of a WebSocket with a pending write never comes");
    ws.reset();
''', globals_=OWN)

seed("C23-write-keeps-it", "C23",
     [(W, "        started = false;\n        closeEvent = std::move(event);\n", "        started = !outgoing.empty(); // the write in progress ends it\n        closeEvent = std::move(event);\n")],
     "the application ends a WebSocket, to which a message is being written, from its message handler while further messages of the same segment follow",
     "messages are delivered after the WebSocket has been ended",
     OWNED + r'''
    onText = [&] { ws->write("last"); ws->stop({1000, "bye"}); };
    a->send(frame(1, "one") + frame(1, "two"));
    demo::settle(server);
    need(texts == 1, "a message is delivered after the end");
    need(a->closed && closes == 1, "the end of the WebSocket was told another number of times than once");
    ws.reset();
''', globals_=OWN)

seed("C24-functions-of-the-process", "C24",
     [(F, "    std::map<std::string, std::function<void(std::span<const std::byte>)>> cppFunctions;\n", "    inline static std::map<std::string, std::function<void(std::span<const std::byte>)>> cppFunctions;\n")],
     "two servers in one process which register functions of the same name, or of which one has been destroyed",
     "pages of a server call the C++ functions of another one",
     r'''
    DemoWF first("9002", "root");
    DemoWF wf("9003", "root");
    int a1 = 0, a2 = 0;
    first.cppFunction<void, bool>("f", [&](bool) { ++a1; });
    wf.cppFunction<void, bool>("f", [&](bool) { ++a2; });
''' + LINK + r'''
    a->send(call("f", "\1", 1));
    demo::settle(wf);
    need(a1 == 0 && a2 == 1, "a page of the second server calls a function of the first one");
''', globals_=CALL)

seed("C24-last-root", "C24",
     [(NFS, "protected:\n    std::filesystem::path rootPath;\n", "protected:\n    inline static std::filesystem::path rootPath;\n")],
     "two servers with different document roots in one process",
     "files are served from the document root of the server that was created last",
     r'''
    std::filesystem::create_directory("other");
    { std::ofstream f("other/one.txt"); f << "another file"; }
    DemoWF wf("9002", "root");
    auto mine = demo::current;
    DemoWF second("9003", "other");
    demo::current = mine;
    auto a = demo::connect();
    a->send(get("/one.txt"));
    demo::settle(wf);
    need(a->out.ends_with("the first file"), "a file of the other server is served");
''')

seed("C24-sinks-of-all", "C24",
     [(F, "    void run() { httpServer.run(); }\n", "    ~BasicWF() {\n        webLinks.clear();\n        log::out.sinks.clear(); // nobody is left to log to\n    }\n\n    void run() { httpServer.run(); }\n")],
     "a server is destroyed while pages of another server of the process are linked",
     "the log sinks of other servers' pages are removed with those of the destroyed one",
     r'''
    webfront::log::setLogLevel(webfront::log::Info);
    auto other = std::make_unique<DemoWF>("9003", "root");
    DemoWF wf("9002", "root");
''' + LINK + r'''
    other.reset();
    auto size = a->out.size();
    webfront::log::info("hello");
    demo::settle(wf);
    need(a->out.size() > size, "the log does not reach a page of another server any more");
    webfront::log::addSink([](std::string_view) {}); // or its link could not be destroyed
''')
