# Planted bugs, fourth series
import os, sys; sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from seeds3 import H, W, L, M, F, G, E, FS, J, NFS, IFS, LINK, CALL, OWN, OWNED
S = []
def seed(id, prop, edits, needs, breaks, demo, flags="", globals_=""):
    S.append(dict(id=id, prop=prop, edits=edits, needs=needs, breaks=breaks, demo=demo, flags=flags, globals=globals_))
# the n-th allocation of at least so many bytes fails
OOM = r'''
#include <new>
static std::size_t bytes = ~std::size_t{0};
static long countdown = -1;
void* operator new(std::size_t n) {
    if (n >= bytes && --countdown < 0) { bytes = ~std::size_t{0}; throw std::bad_alloc(); }
    if (void* p = std::malloc(n ? n : 1)) return p;
    throw std::bad_alloc();
}
void operator delete(void* p) noexcept { std::free(p); }
void operator delete(void* p, std::size_t) noexcept { std::free(p); }
static void fail(std::size_t b, long n = 0) { bytes = b; countdown = n; }
static bool failed() { return bytes == ~std::size_t{0}; }
'''

seed("C25-accept-in-try", "C25",
     [(H, "                if (!ec) connections.start(newConnection);\n            }\n", "                if (!ec) connections.start(newConnection);\n                accept();\n            }\n"),
      (H, "            }\n            accept();\n", "            }\n")],
     "the connection object cannot be allocated when a client is accepted",
     "no client is accepted any more",
     r'''
    DemoWF wf("9002", "root");
    auto a = demo::connect();
    fail(8000);
    a->send(get("/one.txt"));
    demo::settle(wf);
    need(failed(), "nothing failed");
    auto b = demo::connect();
    b->send(get("/one.txt"));
    demo::settle(wf);
    need(b->out.find("the first file") != std::string::npos, "a client is not served after a failed allocation");
''', globals_=OOM)
seed("C25-partial-message", "C25",
     [(W, "    void writeData(Frame<Net> frame) {\n", "    void writeData(const Frame<Net>& frame) {\n"),
      (W, "        std::vector<std::byte> message;\n        for (auto& buffer", "        auto& message = outgoing.emplace_back();\n        for (auto& buffer"),
      (W, "        outgoing.push_back(std::move(message));\n", "")],
     "the copy of a message cannot be allocated",
     "a message which was refused remains in the queue, empty or without its payload, and everything behind it stays there",
     "    DemoWF wf(\"9002\", \"root\");\n    wf.onUIStarted([](DemoWF::UI u) { demoUi.push_back(u); });" + LINK + r'''
    need(!demoUi.empty(), "not linked");
    std::string big(30000, 'x');
    fail(20000);
    bool refused = false;
    try { demoUi[0].addScript(big); } catch (const std::bad_alloc&) { refused = true; }
    need(refused, "nothing failed");
    demo::settle(wf);
    auto before = a->out.size();
    demoUi[0].addScript("small");
    demo::settle(wf);
    std::vector<Msg> v;
    need(messages(a->out, v), "what the page receives is damaged");
    need(!v.empty() && v.back().data.ends_with("small"), "a script issued after the failure is not received");
''', globals_=OOM + "static std::vector<DemoWF::UI> demoUi;\n")
seed("C25-label", "C25",
     [(L, "        log::debug(\"New WebLink created with id:{}\", id);\n", "        label = \"WebLink number \" + std::to_string(id);\n        log::debug(\"New {} created\", label);\n"),
      (L, "    bool sameEndian;\n    std::optional<size_t> logSink;\n", "    bool sameEndian;\n    std::string label;\n    std::optional<size_t> logSink;\n")],
     "an allocation of the constructor of WebLink fails, when the first read of its WebSocket is already pending",
     "the handler of that read uses the destroyed WebSocket",
     r'''
    for (long n = 0; n < 200; ++n) {
        DemoWF wf("9002", "root");
        auto a = demo::connect();
        a->send(upgrade());
        a->holdWrite = true;
        demo::settle(wf);
        a->holdWrite = false;
        inLink = n;
        try { demo::settle(wf); } catch (const std::bad_alloc&) {}
        inLink = -1;
        a->eof = true;
        demo::settle(wf);
    }
''', flags="-fsanitize=address", globals_=r'''
#include <new>
static long inLink = -1;
void* operator new(std::size_t n) {
    if (n < 40 && n > 16 && inLink >= 0 && inLink-- == 0) throw std::bad_alloc();
    if (void* p = std::malloc(n ? n : 1)) return p;
    throw std::bad_alloc();
}
void operator delete(void* p) noexcept { std::free(p); }
void operator delete(void* p, std::size_t) noexcept { std::free(p); }
''')
seed("C25-truncated-body", "C25",
     [(H, "            while (auto bytesRead = file->read(buffer)) response.content.append(buffer.data(), bytesRead);\n",
          "            try {\n                while (auto bytesRead = file->read(buffer)) response.content.append(buffer.data(), bytesRead);\n            }\n            catch (const std::bad_alloc&) { // serve what fits\n                log::warn(\"File {} does not fit in memory\", requestPath.string());\n            }\n")],
     "memory runs out while a file is being read",
     "a part of the file is served as if it were the whole",
     r'''
    { std::ofstream f("root/big.bin"); f << std::string(50000, 'b'); }
    DemoWF wf("9002", "root");
    auto a = demo::connect();
    fail(30000);
    a->send(get("/big.bin"));
    try { demo::settle(wf); } catch (const std::bad_alloc&) {}
    need(failed(), "nothing failed");
    need(a->out.find("200 OK") == std::string::npos || a->out.size() > 50000, "a truncated file is served as the whole one");
    auto b = demo::connect();
    b->send(get("/big.bin"));
    demo::settle(wf);
    need(b->out.size() > 50000, "not served afterwards");
''', globals_=OOM)
