// Scenarios over a whole WebFront with hostile clients: C03 (canaries stay served), C04 (memory safety), C19 (failing accepts)
#include "wf_kit.hpp"
#include "wf_shapes.hpp"
#include <limits>

using namespace sim;

namespace {
std::string keyFor(Stream& s) { return sim::base64(randomBytes(s, 16)); }

std::string wildFrame(Stream& s) { // a frame header that may be anything, with or without its payload
    std::string r;
    static const std::vector<uint32_t> opcodes{0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 15};
    r += static_cast<char>((s.chance(700) ? 0x80 : 0) | (s.chance(100) ? s.below(8) << 4 : 0) | s.pick(opcodes));
    bool masked = s.chance(800);
    static const std::vector<uint64_t> sizes{0, 1, 2, 125, 126, 127, 255, 256, 8178, 8191, 8192, 8193, 65535, 65536, 1ull << 24, 1ull << 31, (1ull << 32) - 1, 1ull << 32, 1ull << 62, (1ull << 63) - 1, 1ull << 63, ~0ull, ~0ull - 13};
    uint64_t n = s.chance(500) ? s.below(300) : s.pick(sizes);
    uint32_t form = n < 126 && s.chance(800) ? 0 : n < 65536 && s.chance(800) ? 1 : 2;
    r += static_cast<char>((masked ? 0x80 : 0) | (form == 0 ? n : form == 1 ? 126 : 127));
    for (int i = form == 0 ? -1 : form == 1 ? 1 : 7; i >= 0; --i) r += static_cast<char>(n >> (8 * i));
    if (masked) r += randomBytes(s, 4);
    if (s.chance(150)) r.resize(s.below(static_cast<uint32_t>(r.size())) + 1);
    else if (s.chance(800)) r += randomBytes(s, std::min<uint64_t>(n, s.chance(800) ? 9000 : s.below(300)));
    return r;
}
std::string wildMessage(Stream& s) { // a message of WebFront's protocol, broken in some way
    std::string m;
    switch (s.below(9)) {
    case 6: m = encodeCall("throws", {Value::number(s.below(12))}); break;
    case 7: { // a registered function with parameters that may not be its own
        static const std::vector<std::string> names{"echo", "throws", "mixed", "pair", "none"};
        ValueList v;
        for (uint32_t k = s.below(5); k--;)
            switch (s.below(6)) {
            case 0: v.push_back(Value::number(genDouble(s))); break;
            case 1: v.push_back(Value::string(anyText(s, s.below(40)))); break;
            case 2: v.push_back(Value::boolean(s.below(2))); break;
            case 3: v.push_back(Value::tuple({Value::number(genDouble(s)), Value::string("x")})); break;
            case 4: { Value e; e.kind = Value::Exception; e.s = "oops"; v.push_back(e); } break;
            default: v.push_back(Value::tuple({})); break;
            }
        m = encodeCall(s.pick(names), v);
    } break;
    case 0: m = std::string(1, static_cast<char>(s.below(7))) + randomBytes(s, s.below(40)); break;
    case 1: m = encodeCall("echo", {Value::string(anyText(s, s.below(300)))}); break;
    case 2: m = encodeCall(randomText(s, s.below(10)), {Value::tuple({Value::number(1), Value::boolean(true)})}); break;
    case 3: { // nested tuples
        std::string p = encodeValue(Value::string("echo"));
        for (uint32_t i = s.below(300); i--;) p += std::string("\x12\x01", 2);
        m = std::string("\x03\x02\0\0", 4) + static_cast<char>(p.size()) + static_cast<char>(p.size() >> 8) + std::string(2, '\0') + p;
    } break;
    case 4: m = std::string(1, '\0') + randomBytes(s, s.below(3)); break;
    case 5: m = std::string("\x02\x00\xff\xff", 4) + randomText(s, s.below(100)); break;
    default: m = ""; break;
    }
    if (s.chance(300) && !m.empty()) m[s.below(static_cast<uint32_t>(m.size()))] = static_cast<char>(s.below(256));
    if (s.chance(200) && !m.empty()) m.resize(s.below(static_cast<uint32_t>(m.size())));
    return m;
}

struct Hostile : SimPage {
    bool raw = false;
    std::string request;
};
// one client that does whatever it likes; forever: it may stay stalled until the end
void unleash(Stream& s, std::vector<std::unique_ptr<Hostile>>& list, const Site& site, Time start, bool forever) {
    auto up = std::make_unique<Hostile>();
    auto c = up.get();
    list.push_back(std::move(up));
    c->rnd = &s;
    c->broken = true;
    c->key = keyFor(s);
    bool http = s.chance(400);
    c->autoHandshake = s.chance(600);
    if (http) {
        c->raw = true;
        switch (s.below(4)) {
        case 0: c->upgradeRequest = randomBytes(s, 1 + s.sizeUpTo(9000)); break;
        case 1: c->upgradeRequest = "GET / HTTP/1.1\r\n" + randomHeaders(s, s.below(200)); break; // a very long incomplete request
        default: c->upgradeRequest = genRequest(s, site, ReqMix{4, 1, 2, 2, 3, 6, 3}).bytes; if (c->upgradeRequest.empty()) c->upgradeRequest = "G"; break;
        }
        if (s.chance(200)) c->upgradeRequest += c->upgradeRequest;
    }
    else if (s.chance(150)) { c->upgradeRequest = upgradeRequestFor(c->key); for (uint32_t k = s.below(6); k--;) c->upgradeRequest += wildFrame(s); } // frames along with the request
    auto leave = [c, &s] { breakNow(c, s.below(breakKinds)); };
    uint32_t count = s.below(12);
    c->onOpen = [c, count, &s, leave] {
        Time t = 0;
        for (uint32_t k = 0; k < count; ++k) {
            W->after(t, [c, &s] {
                if (!c->usable()) return;
                W->fault(Fault::MalformedInput);
                switch (s.below(8)) {
                case 0: case 1: c->conn->send(wildFrame(s)); break;
                case 2: c->conn->send(randomBytes(s, 1 + s.below(200))); break;
                case 3: case 4: c->sendMessage(s, 2, wildMessage(s)); break;
                case 5: c->sendMessage(s, 1, randomText(s, s.sizeUpTo(20000))); break;
                case 6: { auto p = randomBytes(s, s.below(126)); for (uint32_t i = 1 + s.below(20); i--;) c->queueFrame(true, 9, p); c->flush(); } break;
                default: { // a close frame with an odd payload, maybe with more behind it
                    auto p = randomBytes(s, s.pick(std::vector<uint32_t>{0, 1, 2, 3, 125, 126, 200, 9000}));
                    c->out += wsEncode(true, 8, p, s.chance(900), 0x5a5a5a5a);
                    if (s.chance(500)) c->out += wildFrame(s);
                    c->flush();
                }
                }
            });
            t += s.chance(500) ? 0 : s.below(3000) * us;
        }
    };
    // whatever comes back is of no interest to it
    W->at(start, [c] {
        if (c->raw) c->start(port);
        else c->open(port);
    });
    switch (s.below(7)) {
    case 0: W->at(start, [c] { c->conn->pauseReading(); }); if (!forever || s.chance(400)) W->at(start + s.below(400) * ms, [c] { c->conn->resumeReading(); }); break;
    case 1: { uint32_t r = 1 + s.below(100); W->at(start, [c, r] { W->fault(Fault::ClientStall); c->conn->readRate = r; }); Time d = 500 * ms; if (!forever) W->at(start + d, [c] { c->conn->readRate = 0; }); else W->at(start + d, [c] { c->conn->pauseReading(); }); } break;
    case 2: W->at(start, [c, from = start + s.below(5000) * us, len = s.below(1000) * ms] { c->conn->partition(from, from + len); }); break;
    default: break;
    }
    if (s.chance(500)) W->at(start + s.below(20000) * us, leave);
    else if (s.chance(300)) { // leaves when a certain number of bytes has come back
        uint32_t bytes = s.below(2000);
        W->at(start, [c, bytes, leave] {
            auto inner = c->conn->cb.onData;
            c->conn->cb.onData = [c, inner, leave, bytes, gone = false](std::string_view d) mutable { inner(d); if (!gone && c->conn->bytesDelivered >= bytes) { gone = true; leave(); } };
        });
    }
    if (!forever) W->at(start + 3 * sec, [c, leave] { leave(); });
}

// ---------------------------------------------------------------- well-behaved clients
struct HttpCanary : HttpClient { GenReq req; };
struct WsCanary : SimPage { std::vector<std::string> said; uint32_t texts = 0; };
struct Canaries {
    std::vector<std::unique_ptr<HttpCanary>> https;
    std::vector<std::unique_ptr<WsCanary>> pages;
    std::map<uint64_t, std::vector<std::string>> echoed; // calls processed, by connection
    void install(WfApp& app) {
        app.onUi = [&app](UiRec& u) { app.script(u, "ui"); };
        inServer([&] {
            app.host->cppFunction<void, std::string>("echo", [this, &app](std::string t) {
                OutOfServer o;
                echoed[NW->running].push_back(t);
                for (auto& u : app.uis) if (u->conn == NW->running) app.call(*u, "echoed", t);
            });
            app.host->cppFunction<void, int>("throws", throwOne);
            app.host->cppFunction<int, int, std::string, bool>("mixed", [](int a, std::string, bool b) { return b ? a : 0; });
            app.host->cppFunction<void, std::tuple<int, std::string>>("pair", [](std::tuple<int, std::string>) {});
            app.host->cppFunction<void>("none", [] {});
        });
    }
    void http(Stream& s, const Site& site, Time start) {
        auto up = std::make_unique<HttpCanary>();
        auto c = up.get();
        c->req = genRequest(s, site, ReqMix{8, 1, 1, 1, 1, 0, 0});
        c->request = c->req.bytes;
        W->at(start, [c] { c->start(port); });
        https.push_back(std::move(up));
    }
    void page(Stream& s, Time start) {
        auto up = std::make_unique<WsCanary>();
        auto c = up.get();
        auto& ps = W->stream("canary" + std::to_string(pages.size()));
        c->key = keyFor(s);
        c->rnd = &ps;
        uint32_t count = 1 + s.below(6);
        c->onOpen = [c, count, &ps] {
            for (uint32_t k = 0; k < count; ++k)
                W->after(ps.below(20000) * us, [c, &ps] { // keeps talking while the others misbehave
                    if (ps.chance(250)) { ++c->texts; c->sendMessage(ps, 1, anyText(ps, ps.below(200))); return; }
                    c->said.push_back(anyText(ps, ps.below(300)));
                    c->sendMessage(ps, 2, encodeCall("echo", {Value::string(c->said.back())}));
                });
        };
        W->at(start, [c] { c->open(port); });
        pages.push_back(std::move(up));
    }
    // acceptOnly: a client that the system never handed to the server is not judged
    bool judge(WfApp& app, bool acceptOnly = false) {
        for (auto& c : https) {
            if (acceptOnly && !c->conn->accepted && c->conn->refused) { W->probe("aborted_by_the_system"); continue; }
            auto why = judgeReply(c->req, c->received);
            if (why.empty() && !c->ended) why = "connection left open";
            if (!why.empty()) { W->violate("http-not-served", "a well-behaved client (" + describe(c->req) + ") was not served: " + why); return false; }
            W->probe("http_canaries");
        }
        for (auto& c : pages) {
            if (acceptOnly && !c->conn->accepted && c->conn->refused) { W->probe("aborted_by_the_system"); continue; }
            if (!checkPage(*c)) return false;
            if (!c->upgraded || !c->acked) { W->violate("ws-not-served", "a well-behaved " + c->who() + " was not " + (c->upgraded ? "acknowledged" : "upgraded")); return false; }
            if (c->ended) { W->violate("ws-not-served", "a well-behaved " + c->who() + " was disconnected"); return false; }
            auto u = app.of(c->conn->id);
            if (!u) { W->violate("ws-not-served", "a well-behaved " + c->who() + " has no UI"); return false; }
            auto why = compareSent(u->sent, received(*c), true);
            if (why.empty() && echoed[c->conn->id] != c->said) why = std::to_string(echoed[c->conn->id].size()) + " of its " + std::to_string(c->said.size()) + " calls were processed";
            uint32_t texts = 0;
            for (auto& e : c->events) texts += e.kind == Page::Event::Other;
            if (why.empty() && texts != c->texts) why = std::to_string(texts) + " answers to " + std::to_string(c->texts) + " text messages";
            if (!why.empty()) { W->violate("ws-not-served", "a well-behaved " + c->who() + ": " + why); return false; }
            W->probe("ws_canaries");
        }
        return true;
    }
};

void crowd(Stream& s, std::vector<std::unique_ptr<Hostile>>& list, uint32_t count, bool forever) {
    uint32_t what = s.below(6);
    Time start = W->now() + s.below(2000) * us, gap = s.below(3) * 10 * us;
    for (uint32_t i = 0; i < count; ++i) {
        auto up = std::make_unique<Hostile>();
        auto c = up.get();
        list.push_back(std::move(up));
        c->broken = true;
        c->key = keyFor(s);
        c->autoHandshake = what == 4;
        switch (what) {
        case 0: c->raw = true; c->upgradeRequest = ""; break;
        case 1: c->raw = true; c->upgradeRequest = "GET /"; break;
        case 2: c->raw = true; c->upgradeRequest = "GET / HTTP/1.1\r\nHost: x\r\nAccept: */*\r"; break;
        case 3: c->onOpen = [c] { c->conn->send(std::string("\x82\xfe\x40", 3)); }; break;
        case 4: c->onOpen = [c] { c->conn->pauseReading(); }; break;
        default: c->raw = true; c->upgradeRequest = "GET /index.html HTTP/1.1\r\n\r\n"; break;
        }
        W->at(start + gap * i, [c, what] {
            if (c->raw) c->start(port);
            else c->open(port);
            if (what == 0) c->conn->cb.onConnect = [] {}; // says nothing at all
        });
        if (what == 5) W->at(start + gap * i, [c] { c->conn->pauseReading(); });
        if (!forever) W->at(start + 4 * sec, [c, i] { breakNow(c, i % breakKinds); });
    }
    W->fault(Fault::ClientStall, count);
}
void chaos(bool mild) {
    auto& s = W->stream("chaos");
    wfKnobs(mild ? 256 : 1);
    if (!mild && W->knobs.window == 1 && s.chance(700)) W->knobs.window = 64;
    auto site = makeDiskSite(s, std::min<size_t>(bodyLimit(), 20000), 4);
    drawLog(s, 200);
    if (s.chance(200)) W->clockOffset = static_cast<int64_t>(s.bits() >> 3) - (1ll << 60);
    WfApp app;
    app.host.useRunOne = s.chance(300);
    if (!app.create()) return;
    Canaries canaries;
    canaries.install(app);
    if (!mild) { // the disk misbehaves as well; replies to canaries are not judged then
        W->diskFaults = DS->faults = s.chance(300);
        W->knobs.diskShortPermille = s.below(300);
        W->knobs.diskEintrPermille = s.below(200);
        W->knobs.diskEioPermille = s.below(300);
        W->knobs.diskOpenFailPermille = s.below(200);
        W->knobs.acceptErrorPermille = s.chance(300) ? s.below(600) : 0;
    }
    std::vector<std::unique_ptr<Hostile>> hostiles;
    uint32_t n = 1 + s.scale(mild ? 6 : 9, 40, 120);
    for (uint32_t i = 0; i < n; ++i) {
        auto& hs = W->stream("hostile" + std::to_string(i));
        unleash(hs, hostiles, site, W->now() + s.below(20000) * us, mild);
    }
    // many clients that stall somewhere in their request, their upgrade or afterwards
    if (s.chance(mild ? 60 : 15)) crowd(s, hostiles, 2 + s.scale(60, 300, 1500), mild);
    if (mild) {
        uint32_t m = 1 + s.below(3);
        for (uint32_t i = 0; i < m; ++i) canaries.http(s, site, W->now() + s.below(30000) * us);
        m = 1 + s.below(2);
        for (uint32_t i = 0; i < m; ++i) canaries.page(s, W->now() + s.below(30000) * us);
    }
    stringBudget = std::min<size_t>(300000, 4 * bodyLimit());
    if (s.chance(500))
        for (uint32_t k = s.scale(20, 300, 2000); k--;)
            W->after(s.below(30000) * us, [&app, &s, mild] {
                for (auto& u : app.uis) {
                    if (!s.chance(500)) continue;
                    if (mild || s.chance(500)) { app.script(*u, randomText(s, s.below(std::min<uint32_t>(3000, 30 + static_cast<uint32_t>(stringBudget))))); stringBudget -= std::min<size_t>(stringBudget, 300); continue; }
                    ValueList unused;
                    try {
                        auto f = inServer([&] { return u->ui.jsFunction("f"); });
                        callShape(f, s.below(shapes), s, unused);
                        u->sent.push_back({});
                    }
                    catch (const std::exception&) { W->inServer = 0; }
                }
            });
    app.host.settle();
    if (W->done()) return;
    if (mild) {
        // and afterwards, while those that stalled still do
        canaries.http(s, site, W->now());
        canaries.page(s, W->now());
        app.host.settle();
        if (W->done()) return;
        if (!canaries.judge(app)) return;
    }
    size_t stuck = 0, links = app.uis.size();
    for (auto& h : hostiles) stuck += h->conn->accepted && !h->conn->serverClosed;
    W->probe("hostile", hostiles.size());
    W->probe("hostile_links", links);
    W->probe("still_connected_at_the_end", stuck);
    W->nontrivial = true;
    W->sample = std::to_string(hostiles.size()) + " hostile clients (" + std::to_string(stuck) + " still connected at the end), " + std::to_string(links) + " links, window " + std::to_string(W->knobs.window);
    if (!mild && s.chance(500)) { inServer([&] { app.host.s.reset(); }); drainWorld(); } // with everything in progress
}
void c03() { chaos(true); }
void c04() { chaos(false); }

// ---------------------------------------------------------------- C19
void c19() {
    auto& s = W->stream("c19");
    wfKnobs(256);
    auto site = makeDiskSite(s, std::min<size_t>(bodyLimit(), 20000), 4);
    drawLog(s, 200);
    WfApp app;
    app.host.useRunOne = s.chance(300);
    W->knobs.acceptErrorPermille = s.pick(std::vector<uint32_t>{300, 600, 900, 1000});
    W->knobs.maxAcceptStreak = s.pick(std::vector<uint32_t>{1, 8, 40, 300});
    if (!app.create()) return;
    Canaries canaries;
    canaries.install(app);
    uint32_t n = 2 + s.scale(10, 60, 250);
    for (uint32_t i = 0; i < n; ++i) {
        Time start = W->now() + (s.chance(300) ? 0 : s.below(40000) * us);
        if (s.chance(500)) canaries.http(s, site, start);
        else canaries.page(s, start);
    }
    uint32_t phases = s.below(5);
    for (uint32_t i = 0; i < phases; ++i) W->after(s.below(40000) * us, [&s] { W->knobs.acceptErrorPermille = s.chance(400) ? 0 : s.below(1001); });
    app.host.settle();
    if (W->done()) return;
    auto errors = NW->acceptErrors;
    W->knobs.acceptErrorPermille = 0;
    canaries.http(s, site, W->now());
    canaries.page(s, W->now());
    app.host.settle();
    if (W->done()) return;
    if (!canaries.judge(app, true)) return;
    int pages = 0;
    for (auto& c : canaries.pages) pages += c->conn->accepted;
    if (SockImpl::open != pages) { W->violate("connections", std::to_string(SockImpl::open) + " sockets are open for " + std::to_string(pages) + " connected clients"); return; }
    if (app.uis.size() != static_cast<size_t>(pages)) { W->violate("connections", std::to_string(app.uis.size()) + " UIs for " + std::to_string(pages) + " connected pages"); return; }
    W->probe("accept_errors", errors);
    if (errors && pages) W->nontrivial = true;
    W->sample = std::to_string(errors) + " failed accepts, " + std::to_string(canaries.https.size()) + " HTTP clients, " + std::to_string(canaries.pages.size()) + " pages";
}

Register r3("C03", "hostile", c03), r4("C04", "memory", c04), r19("C19", "accept-errors", c19);
} // namespace
