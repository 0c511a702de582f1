// Scenarios over http::Server alone: C01, C02, C05, C06
#include "http_kit.hpp"
#include <http/HTTPServer.hpp>
#include <networking/TCPNetworkingTS.hpp>
#include <system/IndexFS.hpp>
#include <system/NativeFS.hpp>

using namespace sim;
using namespace webfront;
using Net = networking::TCPNetworkingTS;

namespace {
Site memSites[2];
// in-memory providers with content chosen by the run
template<int N> struct MemFS {
    explicit MemFS(std::filesystem::path) {}
    std::optional<fs::File> open(std::filesystem::path p) {
        auto name = p.relative_path().string();
        for (auto& f : memSites[N].files)
            if (f.path == name) return fs::File(std::span<const uint64_t>(packed[&f - memSites[N].files.data()]), f.content.size(), f.encoding);
        return {};
    }
    static void load(Site site) {
        memSites[N] = std::move(site);
        packed.clear();
        for (auto& f : memSites[N].files) {
            std::vector<uint64_t> v((f.content.size() + 7) / 8 + 1, 0x5555555555555555ull);
            for (size_t i = 0; i < f.content.size(); ++i) {
                auto shift = 56 - 8 * (i % 8);
                v[i / 8] = (v[i / 8] & ~(0xffull << shift)) | static_cast<uint64_t>(static_cast<unsigned char>(f.content[i])) << shift;
            }
            v.resize((f.content.size() + 7) / 8);
            v.shrink_to_fit();
            packed.push_back(std::move(v));
        }
    }
    static inline std::vector<std::vector<uint64_t>> packed;
};
using NativeServer = http::Server<Net, fs::NativeDebugFS>;
using NI = fs::Multi<fs::NativeDebugFS, fs::IndexFS>;
using IN = fs::Multi<fs::IndexFS, fs::NativeDebugFS>;
using M0NM1 = fs::Multi<MemFS<0>, fs::NativeDebugFS, MemFS<1>>;

constexpr uint16_t port = 80;

// a client that sends its request in several pauses and checks that nothing comes back too early
struct PausingClient : HttpClient {
    GenReq req;
    bool fin = false, finAfter = false;
    void go(Stream& s, Time when) {
        auto cuts = s.chance(500) ? s.below(4) : 0;
        std::vector<size_t> at;
        for (uint32_t i = 0; i < cuts; ++i) at.push_back(s.below(static_cast<uint32_t>(req.bytes.size()) + 1));
        if (s.chance(300) && req.bytes.size() > 4) at.push_back(req.bytes.size() - 1 - s.below(4));
        std::sort(at.begin(), at.end());
        at.push_back(req.bytes.size());
        auto pauses = std::make_shared<std::vector<Time>>();
        for (size_t i = 0; i < at.size(); ++i) pauses->push_back(s.chance(300) ? s.below(20000) * us : s.below(50) * us);
        finAfter = s.chance(req.complete ? 150 : 600);
        onConnect = [this, at, pauses] {
            Time t = 0;
            size_t from = 0;
            for (size_t i = 0; i < at.size(); ++i) {
                bool last = i + 1 == at.size();
                W->after(t, [this, from, to = at[i], last] {
                    size_t blank = req.bytes.find("\r\n\r\n");
                    bool canBeAnswered = req.kind == "malformed" || req.kind == "odd" || (req.complete && from >= blank + 4);
                    if (!canBeAnswered && (!received.empty() || ended))
                        W->violate("early-reply", "a request was answered or dropped before its headers were complete: " + describe(req) + " after " + std::to_string(from) + " bytes: " + printable(received));
                    if (to > from) conn->send(std::string_view(req.bytes).substr(from, to - from));
                    if (last && finAfter) { W->fault(Fault::ClientHalfClose); conn->fin(); }
                });
                from = at[i];
                t += (*pauses)[i];
            }
        };
        W->at(when, [this] { start(port); });
    }
};

// what the server answers to these bytes when it has nothing else to do and they arrive in one piece
template<typename S> std::string solo(Host<S>& h, const std::string& bytes, bool* ended = nullptr) {
    HttpClient c;
    c.onConnect = [&] { c.conn->sendExact(bytes); };
    c.start(port, "solo");
    h.settle();
    if (ended) *ended = c.ended;
    if (!c.ended) { c.conn->reset(false); h.settle(); }
    c.conn->cb = {};
    return c.received;
}

void calm() { W->knobs = World::Knobs{}; }

// ---------------------------------------------------------------- C01
void c01() {
    auto& s = W->stream("c01");
    auto site = makeDiskSite(s, 3000, 4);
    std::vector<std::unique_ptr<PausingClient>> clients;
    uint32_t n = 1 + s.scale(6, 40, 250);
    bool needSolo = false;
    for (uint32_t i = 0; i < n; ++i) {
        auto c = std::make_unique<PausingClient>();
        c->req = genRequest(s, site, ReqMix{8, 2, 2, 3, 4, 4, 2});
        needSolo |= c->req.status == 0;
        if (s.chance(200) && !clients.empty()) c->req = clients[0]->req; // the same request again
        W->sample += (i ? "; " : "") + describe(c->req);
        clients.push_back(std::move(c));
    }
    if (needSolo) {
        Host<NativeServer> alone;
        if (!alone.create("0.0.0.0", "80", disk.root)) return;
        for (auto& c : clients)
            if (c->req.status == 0 && !W->done()) c->req.baseline = solo(alone, c->req.bytes, &c->req.baselineEnded);
        if (W->done()) return;
        alone.destroy();
        drainWorld();
    }
    auto& k = W->stream("knobs");
    W->drawNetKnobs(k);
    if (W->knobs.window < 256) W->knobs.window = 256;
    Host<NativeServer> h;
    h.useRunOne = s.chance(300);
    if (!h.create("0.0.0.0", "80", disk.root)) return;
    for (auto& c : clients) c->go(s, W->now() + (s.chance(500) ? 0 : s.below(30000) * us));
    h.settle();
    if (W->done()) return;
    for (auto& c : clients) {
        bool crossed = c->req.status == 0 && c->req.baseline.empty(); // never answered alone: has to stay unanswered
        auto why = judgeReply(c->req, c->received);
        if (!why.empty()) { W->violate("wrong-reply", describe(c->req) + ": " + why); return; }
        if (!crossed && c->req.complete && !c->ended) { W->violate("not-closed", describe(c->req) + ": connection left open after the reply"); return; }
        W->probe("req_" + c->req.kind);
        if (c->req.complete) W->nontrivial = true;
    }
}

// ---------------------------------------------------------------- C02
struct FaultyClient : HttpClient {
    GenReq req;
    bool broken = false;
    std::string due;
};
void c02() {
    auto& s = W->stream("c02");
    auto& k = W->stream("knobs");
    W->drawNetKnobs(k);
    auto knobs = W->knobs;
    auto site = makeDiskSite(s, bodyLimit(), 4);
    std::vector<std::unique_ptr<FaultyClient>> clients;
    uint32_t n = 1 + s.scale(8, 40, 250);
    {
        calm();
        Host<NativeServer> alone;
        if (!alone.create("0.0.0.0", "80", disk.root)) return;
        for (uint32_t i = 0; i < n; ++i) {
            auto c = std::make_unique<FaultyClient>();
            c->req = genRequest(s, site, ReqMix{12, 2, 2, 2, 2, 0, 0});
            bool ended = false;
            c->due = solo(alone, c->req.bytes, &ended);
            if (W->done()) return;
            auto why = judgeReply(c->req, c->due);
            if (!why.empty()) { W->violate("wrong-reply", describe(c->req) + " alone: " + why); return; }
            if (!ended) { W->violate("not-closed", describe(c->req) + " alone: connection left open after the reply"); return; }
            W->sample += (i ? "; " : "") + describe(c->req);
            clients.push_back(std::move(c));
        }
        alone.destroy();
        drainWorld();
    }
    W->knobs = knobs;
    W->sample += " window " + std::to_string(knobs.window);
    Host<NativeServer> h;
    h.useRunOne = s.chance(300);
    if (!h.create("0.0.0.0", "80", disk.root)) return;
    for (auto& up : clients) {
        auto c = up.get();
        c->request = c->req.bytes;
        Time when = W->now() + (s.chance(600) ? 0 : s.below(20000) * us);
        W->at(when, [c] { c->start(port); });
        uint32_t what = s.below(8);
        if (what == 1) { // slow reader
            uint32_t rate = 1 + s.below(3000);
            if (bodyLimit() / rate > 5000) rate = 100;
            W->fault(Fault::ClientStall);
            W->at(when, [c, rate] { c->conn->readRate = rate; });
        }
        else if (what == 2) { // stops reading for a while
            Time from = s.below(3000) * us, len = s.below(100000) * us;
            W->at(when + from, [c] { c->conn->pauseReading(); });
            W->at(when + from + len, [c] { c->conn->resumeReading(); });
        }
        else if (what == 3) { // half close right after the request
            W->fault(Fault::ClientHalfClose);
            c->onConnect = [c] { c->conn->send(c->request); c->conn->fin(); };
        }
        else if (what == 4 || what == 5) { // breaks after some received bytes or some time
            c->broken = true;
            bool drop = s.chance(500), viaClose = s.chance(300);
            uint32_t failing = s.below(8), error = s.below(1000); // the server's writing or reading fails
            auto act = [c, drop, viaClose, failing, error] {
                if (c->conn->clientEnded || c->ended) return;
                if (failing == 0) c->conn->failWrites(ioError(error));
                else if (failing == 1) c->conn->failReads(ioError(error));
                else if (viaClose) { W->fault(Fault::ClientFin); c->conn->close(); }
                else { W->fault(Fault::ClientReset); c->conn->reset(drop); }
            };
            if (s.chance(600)) {
                size_t threshold = s.below(static_cast<uint32_t>(c->due.size()) + 1);
                c->onData = [c, threshold, act](std::string_view) { if (c->received.size() >= threshold) act(); };
            }
            else W->at(when + s.below(5000) * us, act);
        }
        else if (what == 6) {
            Time from = when + s.below(2000) * us;
            W->at(when, [c, from, len = s.below(500) * ms] { c->conn->partition(from, from + len); });
        }
    }
    h.settle();
    if (W->done()) return;
    for (auto& c : clients) {
        if (!std::string_view(c->due).starts_with(c->received)) {
            W->violate("altered-reply", describe(c->req) + ": received " + printable(c->received, 300) + " (" + std::to_string(c->received.size()) + " bytes) instead of " + printable(c->due, 200) + " (" + std::to_string(c->due.size()) + " bytes)");
            return;
        }
        if (c->broken) { W->probe("broken_clients"); continue; }
        if (c->received.size() != c->due.size()) {
            W->violate("incomplete-reply", describe(c->req) + ": " + std::to_string(c->received.size()) + " of " + std::to_string(c->due.size()) + " bytes arrived" + (c->ended ? ", then the connection ended" : ", the connection is stuck"));
            return;
        }
        if (!c->ended || !c->conn->serverClosed) { W->violate("not-closed", describe(c->req) + ": connection left open after the reply"); return; }
        W->probe("complete_replies");
        W->nontrivial = true;
    }
    if (SockImpl::open != 0) W->violate("not-closed", std::to_string(SockImpl::open) + " server sockets still open after every client was served or had left");
}

// ---------------------------------------------------------------- C05
void c05() {
    auto& s = W->stream("c05");
    Site site;
    std::string marker = "TOP-SECRET-" + randomText(s, 12);
    site.files.push_back({"index.html", "<html>public index</html>", {}});
    site.files.push_back({"hello.txt", "hello " + randomText(s, 20), {}});
    site.files.push_back({"sub/page.html", "page " + randomText(s, 20), {}});
    site.files.push_back({"sub/deep/data.bin", contentFor(s, 300), {}});
    site.files.push_back({"with space.txt", "spaced", {}});
    site.files.push_back({"dots.v1.2.txt", "dotted", {}});
    site.files.push_back({".hidden", "hidden but inside", {}});
    writeSite(site);
    std::vector<std::string> secrets{"secret.txt", "root-secret/secret.txt", "root2", "rootsecret.txt", "other/secret.txt", "etc/passwd", "index.html.secret"};
    for (auto& f : secrets) disk.write(disk.base + "/" + f, marker);
    auto baseName = disk.base;
    W->drawNetKnobs(W->stream("knobs"));
    if (W->knobs.window < 256) W->knobs.window = 256;
    Host<NativeServer> h;
    Host<http::Server<Net, NI>> h2;
    bool multi = s.chance(300);
    std::string docRoot = s.pick(std::vector<std::string>{disk.root, disk.root + "/", "root", "./root/", disk.root + "/../root", disk.root});
    if (!(multi ? h2.create("0.0.0.0", "80", docRoot) : h.create("0.0.0.0", "80", docRoot))) return;

    auto dot = [&]() -> std::string {
        static const std::vector<std::string> d{".", "%2e", "%2E", "%252e", "%c0%ae", "．", "%00."};
        return s.pick(d);
    };
    auto sep = [&]() -> std::string {
        static const std::vector<std::string> d{"/", "/", "/", "%2f", "%2F", "//", "\\", "%5c", "/./", "%252f", "/%2e/"};
        return s.pick(d);
    };
    auto genTarget = [&]() -> std::string {
        std::string t;
        switch (s.below(8)) {
        case 6: case 7: { // climbing with something put into each step, which a lenient reader might drop
            static const std::vector<std::string> odd{"%20", "+", "%09", "%0a", "%0d", ";", ";a=1", ":", "::$DATA", "~", "*", "?", "#", "%22", "'", "`", "%00", "%7f", "%ff", "%e2%80%8b", "|", "<", "%3e", "%5c", "\\", ".", "%2e", "%", "%2", "%2f", "%zz", "&amp;", "%u002e", "@", "!", "$", "{}", "^", ","};
            std::string what, e;
            static const char hex[] = "0123456789abcdef";
            for (uint32_t k = s.chance(850) ? 1 : 2; k--;) {
                if (s.chance(600)) { what += s.pick(odd); continue; }
                auto b = s.below(256);
                what += std::string("%") + hex[b >> 4] + hex[b & 15];
            }
            uint32_t where = s.below(5), times = 1 + s.below(2);
            while (times--) e += what;
            const std::string one = s.chance(700) ? "." : dot(), two = s.chance(700) ? one : dot(), slash = s.chance(700) ? "/" : sep();
            t = s.chance(950) ? "/" : "";
            if (s.chance(300)) t += "sub" + slash;
            for (uint32_t n = s.chance(700) ? 1 : 1 + s.below(4); n--;) {
                switch (where) {
                case 0: t += one + two + e + slash; break;
                case 1: t += one + e + two + slash; break;
                case 2: t += e + one + two + slash; break;
                case 3: t += one + e + two + e + slash; break;
                default: t += one + two + slash + e; break;
                }
            }
            t += s.pick(secrets);
        } break;
        case 0: { // random grammar
            t = s.chance(850) ? "/" : "";
            uint32_t n = 1 + s.below(6);
            for (uint32_t i = 0; i < n; ++i) {
                switch (s.below(7)) {
                case 0: case 1: t += dot() + dot(); break;
                case 2: t += "sub"; break;
                case 3: t += s.pick(secrets); break;
                case 4: t += dot(); break;
                case 5: t += randomText(s, s.below(4)); break;
                default: t += s.pick(std::vector<std::string>{"root", "root-secret", "hello.txt", "tmp", "etc", "~", ":", "C:", "%00", ";", "?", "file:", "%", "%2", "%2%65"}); break;
                }
                if (i + 1 < n) t += sep();
            }
        } break;
        case 1: { // climbing out to a secret
            uint32_t n = 1 + s.below(4);
            t = s.chance(900) ? "/" : "";
            if (s.chance(400)) t += "sub" + sep();
            for (uint32_t i = 0; i < n; ++i) t += dot() + dot() + sep();
            t += s.pick(secrets);
        } break;
        case 2: { // absolute path of a secret
            std::string abs = baseName + "/" + s.pick(secrets);
            t = s.pick(std::vector<std::string>{"/", "//", "", "/%2f", "%2f", "/./", "//localhost/", "file://", "/\\"}) + (s.chance(500) ? abs : percentEncode(s, abs, 1000));
        } break;
        case 3: // sibling of the root by prefix
            t = s.pick(std::vector<std::string>{"-secret/secret.txt", "2", "secret.txt", "/-secret/secret.txt"});
            if (s.chance(700)) t = "/" + t;
            break;
        case 4: // a NUL that would cut the name
            t = "/" + s.pick(std::vector<std::string>{"hello.txt%00.html", "%00", "sub/%00/../../secret.txt", "hello.txt%00/../../secret.txt", "..%00/secret.txt", ".%00./secret.txt"});
            break;
        default: // mangled legitimate name
            t = "/" + percentEncode(s, s.pick(site.files).path, s.below(1000));
            for (uint32_t i = s.below(3); i--;) t.insert(s.below(static_cast<uint32_t>(t.size()) + 1), s.pick(std::vector<std::string>{"..", "../", "/..", ".", "/", "%2e%2e%2f", "\\..\\", "%", "%00"}));
        }
        for (auto& ch : t) if (ch == ' ') ch = '_';
        return t;
    };
    struct Probe : HttpClient { std::string target; const SiteFile* legit = nullptr; };
    std::vector<std::unique_ptr<Probe>> clients;
    uint32_t n = 2 + s.scale(10, 60, 250);
    for (uint32_t i = 0; i < n; ++i) {
        auto c = std::make_unique<Probe>();
        if (s.chance(250)) {
            c->legit = &s.pick(site.files);
            c->target = "/" + percentEncode(s, c->legit->path, s.pick(std::vector<uint32_t>{0, 200, 1000}));
        }
        else c->target = genTarget();
        c->isHead = !c->legit && s.chance(200);
        c->request = (c->isHead ? "HEAD " : "GET ") + c->target + " HTTP/1.1\r\n" + randomHeaders(s, s.below(3)) + "\r\n";
        W->sample += (i ? " " : "") + c->target;
        auto p = c.get();
        W->at(W->now() + s.below(3000) * us, [p] { p->start(port); });
        clients.push_back(std::move(c));
    }
    W->fault(Fault::MalformedInput, n);
    multi ? h2.settle() : h.settle();
    if (W->violation) return;
    for (auto& o : DS->opens)
        if (o.outside) { W->violate("opened-outside", "the server tried to open " + printable(o.path) + " which is outside the document root; targets: " + W->sample); return; }
    for (auto& c : clients) {
        if (c->received.find(marker) != std::string::npos) { W->violate("disclosed", "reply to " + c->target + " carries a file from outside the document root"); return; }
        if (c->legit) {
            auto r = HttpReply::parse(c->received);
            if (r.status != 200 || r.body != c->legit->content) { W->violate("unreachable", c->legit->path + " requested as " + c->target + " gave " + printable(c->received)); return; }
            W->probe("legit_targets");
        }
        else W->probe("hostile_targets");
        if (!c->ended) { W->violate("not-answered", c->target + " was not answered"); return; }
    }
    W->nontrivial = true;
}

// ---------------------------------------------------------------- C06
enum class Chain { Native, NativeIndex, IndexNative, MemNativeMem };

template<typename S> void c06With(Chain chain, bool memory) {
    auto& s = W->stream("c06");
    auto big = s.chance(60);
    auto disk0 = makeDiskSite(s, big ? 200000 : 6000, 5);
    if (s.chance(400)) { // names that meet the embedded ones
        static const std::vector<std::string> names{"favicon.ico", "WebFront.js", "index.html"};
        auto& nm = s.pick(names);
        if (!disk0.find(nm)) { disk0.files.push_back({nm, contentFor(s, s.below(900)), {}}); }
        writeSite(disk0);
    }
    Site index;
    for (auto nm : {"index.html", "favicon.ico", "WebFront.js"}) {
        auto f = fs::IndexFS(disk.root).open(nm);
        if (!f) { W->violate("asset-missing", std::string(nm) + " is not provided by IndexFS"); return; }
        std::string all(20000, '\0');
        all.resize(f->read(std::span<char>(all)));
        index.files.push_back({nm, all, std::string(f->getEncoding())});
    }
    Site mem[2];
    if (memory)
        for (int i = 0; i < 2; ++i) {
            uint32_t n = s.below(4);
            for (uint32_t j = 0; j < n; ++j) {
                SiteFile f;
                f.path = s.chance(400) && !disk0.files.empty() ? s.pick(disk0.files).path : "mem/" + randomFileName(s);
                if (mem[i].find(f.path) || f.path.find("..") != std::string::npos) continue;
                f.content = contentFor(s, s.sizeUpTo(3000));
                f.encoding = s.pick(std::vector<std::string>{"", "", "gzip", "br", "zstd"});
                mem[i].files.push_back(std::move(f));
            }
        }
    if (memory) { MemFS<0>::load(mem[0]); MemFS<1>::load(mem[1]); }
    std::vector<const Site*> order;
    switch (chain) {
    case Chain::Native: order = {&disk0}; break;
    case Chain::NativeIndex: order = {&disk0, &index}; break;
    case Chain::IndexNative: order = {&index, &disk0}; break;
    case Chain::MemNativeMem: order = {&mem[0], &disk0, &mem[1]}; break;
    }
    auto resolve = [&](const std::string& path) -> const SiteFile* {
        for (auto o : order)
            if (auto f = o->find(path)) return f;
        return nullptr;
    };
    bool faulty = s.chance(600);
    DS->faults = faulty;
    auto& k = W->stream("knobs");
    W->drawNetKnobs(k, false);
    if (faulty) {
        W->knobs.diskShortPermille = k.pick(std::vector<uint32_t>{0, 200, 900});
        W->knobs.diskEintrPermille = k.pick(std::vector<uint32_t>{0, 100, 500});
        W->knobs.diskEioPermille = k.pick(std::vector<uint32_t>{0, 50, 300});
        W->knobs.diskOpenFailPermille = k.pick(std::vector<uint32_t>{0, 100, 400});
    }
    Host<S> h;
    if (!h.create("0.0.0.0", "80", disk.root)) return;
    bool changing = s.chance(400);
    std::vector<std::string> gone; // names that were on the disk
    auto changeDisk = [&] { // somebody edits the document root between two requests
        uint32_t x = s.below(6);
        auto at = s.below(static_cast<uint32_t>(disk0.files.size() + 1));
        if (x == 0 || at == disk0.files.size()) { // a new file, or one that comes back
            SiteFile f;
            f.path = !gone.empty() && s.chance(600) ? s.pick(gone) : s.pick(std::vector<std::string>{"", "sub/", "new/"}) + randomFileName(s);
            if (disk0.find(f.path) || f.path.find("..") != std::string::npos) return;
            for (auto& o : disk0.files) if (o.path.starts_with(f.path + "/")) return;
            f.content = contentFor(s, s.sizeUpTo(3000));
            disk.write(disk.root + "/" + f.path, f.content);
            disk0.files.push_back(std::move(f));
            W->probe("files_created");
            return;
        }
        auto& f = disk0.files[at];
        if (x == 1 && disk0.files.size() > 1) {
            disk.remove(disk.root + "/" + f.path);
            gone.push_back(f.path);
            disk0.files.erase(disk0.files.begin() + at);
            W->probe("files_deleted");
            return;
        }
        if (x == 2) f.content.resize(s.below(static_cast<uint32_t>(f.content.size()) + 1));
        else if (x == 3) f.content += contentFor(s, s.sizeUpTo(2000));
        else if (x == 4 && !f.content.empty()) f.content[s.below(static_cast<uint32_t>(f.content.size()))] ^= 0x5a;
        else f.content = contentFor(s, f.content.size());
        disk.write(disk.root + "/" + f.path, f.content);
        W->probe("files_rewritten");
    };
    uint32_t n = 1 + s.scale(8, 40, 200);
    std::string last;
    for (uint32_t i = 0; i < n && !W->done(); ++i) {
        if (changing && i && s.chance(500)) changeDisk();
        std::string path;
        const SiteFile* f = nullptr;
        switch (s.below(8)) {
        case 0: path = "nothing/" + randomText(s, 4) + ".html"; break;
        case 1: path = s.pick(std::vector<std::string>{"sub", "missing/", "sub/deep/", "hello.txt", "index.html/", "index.htm", "Index.html", "WebFront.jsx"}); break; // directories and near misses
        default: if (!disk0.files.empty()) path = s.pick(disk0.files).path; break;
        }
        if (s.chance(500)) { // any provider
            std::vector<const SiteFile*> all;
            for (auto o : order) for (auto& x : o->files) all.push_back(&x);
            path = all[s.below(static_cast<uint32_t>(all.size()))]->path;
        }
        if (changing && s.chance(150) && !gone.empty()) path = s.pick(gone);
        if (i && s.chance(changing ? 400 : 100)) path = last; // the same file again
        last = path;
        std::string url = "/" + percentEncode(s, path, s.pick(std::vector<uint32_t>{0, 0, 300}));
        if (path.ends_with("index.html") && (path.size() == 10 || path[path.size() - 11] == '/') && s.chance(300)) url = "/" + percentEncode(s, path.substr(0, path.size() - 10), 0);
        bool nul = s.chance(40);
        if (nul) url += "%00" + s.pick(std::vector<std::string>{"", ".png", "/x", ".html"});
        std::string lookup = path;
        if (lookup.empty() || lookup.back() == '/') lookup += "index.html";
        f = nul ? nullptr : resolve(lookup);
        std::string headers = randomHeaders(s, s.below(3));
        std::vector<std::string> accepted;
        if (s.chance(500)) {
            for (auto e : {"gzip", "br", "zstd", "deflate", "identity"}) if (s.chance(500)) accepted.push_back(e);
            for (auto e : {"gzipped", "x-gzip", "brotli", "bro", "abr", "b", "zst", "gzi"}) if (s.chance(60)) accepted.push_back(e); // names that only resemble
            std::string v;
            bool several = s.chance(300);
            for (auto e : accepted) {
                if (s.chance(150)) e = mixCase(s, e);
                if (s.chance(150)) e += s.pick(std::vector<std::string>{";q=1", ";q=0.5", " ; q=0.8", " "});
                if (several) headers += "Accept-Encoding: " + e + "\r\n";
                else v += (v.empty() ? "" : ", ") + e;
            }
            if (!several) headers += (s.chance(300) ? "accept-encoding: " : "Accept-Encoding: ") + v + "\r\n";
        }
        auto listed = [&](const SiteFile* x) { return x->encoding.empty() || std::find(accepted.begin(), accepted.end(), x->encoding) != accepted.end(); };
        int expect = !f ? 404 : listed(f) ? 200 : 506;
        bool headToo = s.chance(500), headFirst = s.chance(500);
        HttpReply get, head;
        bool fault[2] = {false, false}, openFault = false;
        for (int pass = 0; pass < 2 && !W->done(); ++pass) {
            bool isHead = (pass == 0) == headFirst;
            if (isHead && !headToo) continue;
            HttpClient c;
            c.request = std::string(isHead ? "HEAD " : "GET ") + url + " HTTP/1.1\r\n" + headers + "\r\n";
            DS->injectedError = DS->injectedOpenFail = false;
            c.start(port);
            h.settle();
            c.conn->cb = {};
            if (W->done()) return;
            fault[isHead] = DS->injectedError;
            openFault |= DS->injectedOpenFail;
            auto r = HttpReply::parse(c.received);
            auto what = std::string(isHead ? "HEAD " : "GET ") + url + " (" + path + ", stored " + (f ? std::to_string(f->content.size()) + " bytes '" + f->encoding + "'" : "nowhere") + ")";
            if (!r.headersComplete || r.malformed || !c.ended) { W->violate("bad-reply", what + ": " + (c.ended ? "" : "not closed ") + printable(c.received)); return; }
            if (isHead && !r.body.empty()) { W->violate("head-body", what + ": HEAD reply with a body"); return; }
            if (!isHead && r.contentLength && r.body.size() != *r.contentLength) { W->violate("bad-length", what + ": content-length " + std::to_string(*r.contentLength) + " with " + std::to_string(r.body.size()) + " bytes"); return; }
            if (!r.contentLength) { W->violate("bad-length", what + ": no content-length"); return; }
            if (nul) {
                if (r.status < 400 || r.status > 599) { W->violate("wrong-status", what + ": a name with a NUL gave " + std::to_string(r.status)); return; }
            }
            else if (r.status == 200) {
                // after an injected open failure another provider's file of that name may legitimately have been taken
                std::vector<const SiteFile*> candidates;
                if (f) candidates.push_back(f);
                if (DS->injectedOpenFail) for (auto o : order) if (auto x = o->find(lookup)) candidates.push_back(x);
                std::string why = "no provider has this file";
                for (auto x : candidates) {
                    auto ce = r.header("content-encoding");
                    auto ct = r.header("content-type");
                    why.clear();
                    if (!isHead && !listed(x)) why = "the client did not list " + x->encoding;
                    else if (*r.contentLength != x->content.size()) why = "content-length " + std::to_string(*r.contentLength);
                    else if (!isHead && r.body != x->content) why = "body differs from the stored file";
                    else if (ce.has_value() != !x->encoding.empty() || (ce && *ce != x->encoding)) why = "content-encoding " + ce.value_or("(none)");
                    else if (!ct || !mimeFits(x->path, *ct)) why = "content-type " + ct.value_or("(none)");
                    if (why.empty()) break;
                }
                if (!why.empty()) { W->violate("wrong-200", what + (DS->injectedError ? " with a disk error" : "") + ": 200 reply but " + why); return; }
                W->probe(isHead ? "head_200" : "get_200");
            }
            else if (r.status != expect && !(isHead && expect == 506 && r.status == 200) && !(DS->injectedError && r.status >= 400 && r.status <= 599)) {
                W->violate("wrong-status", what + ": status " + std::to_string(r.status) + " instead of " + std::to_string(expect));
                return;
            }
            if (DS->injectedError) W->probe("replies_with_disk_error");
            (isHead ? head : get) = r;
        }
        if (headToo && !fault[0] && !fault[1] && expect != 506) {
            auto norm = [](HttpReply& r) { std::vector<std::pair<std::string, std::string>> v; for (auto& [a, b] : r.headers) v.emplace_back(lower(a), b); std::sort(v.begin(), v.end()); return v; };
            if (get.status != head.status || norm(get) != norm(head)) {
                W->violate("head-differs", "HEAD and GET of " + url + " give different status or headers: " + std::to_string(head.status) + " and " + std::to_string(get.status));
                return;
            }
            W->probe("head_get_pairs");
        }
        W->nontrivial = true;
        if (i < 4) W->sample += (i ? "; " : "") + url + " expects " + std::to_string(expect);
    }
}
void c06() {
    auto c = static_cast<Chain>(W->stream("chain").below(4));
    switch (c) {
    case Chain::Native: c06With<NativeServer>(c, false); break;
    case Chain::NativeIndex: c06With<http::Server<Net, NI>>(c, false); break;
    case Chain::IndexNative: c06With<http::Server<Net, IN>>(c, false); break;
    case Chain::MemNativeMem: c06With<http::Server<Net, M0NM1>>(c, true); break;
    }
}

Register r1("C01", "requests", c01), r2("C02", "replies", c02), r5("C05", "targets", c05), r6("C06", "files", c06);
} // namespace
