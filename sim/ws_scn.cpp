// Scenarios over http::Server + websocket::WebSocket: C09, C10, C11, C12, C23
#include "http_kit.hpp"
#include <http/HTTPServer.hpp>
#include <networking/TCPNetworkingTS.hpp>
#include <system/IndexFS.hpp>

using namespace sim;
using namespace webfront;
using Net = networking::TCPNetworkingTS;
using Server = http::Server<Net, fs::IndexFS>;
using Ws = websocket::WebSocket<Net>;

namespace {
constexpr uint16_t port = 80;

struct Session {
    uint32_t id = 0;
    std::unique_ptr<Ws> ws;
    std::vector<WsClient::Msg> received, sent;
    int closes = 0;
    websocket::CloseEvent event{};            // told at the end of the link
    bool stopped = false;                     // the application has ended the link
    websocket::CloseEvent stopEvent{};        // what it said
    uint64_t sentAtStop = 0;
    bool destroyAtClose = false;
    bool live() const { return ws && !closes; }
};

// the application: one WebSocket per upgraded connection
struct App {
    Host<Server> host;
    std::map<uint32_t, std::unique_ptr<Session>> sessions;
    std::map<uint32_t, int> upgrades;
    std::map<uint32_t, uint64_t> sentAtUpgrade; // bytes the network had accepted when the link was created
    std::map<uint32_t, Conn*> conns;
    std::function<void(Session&)> onStart;
    std::function<void(Session&, const WsClient::Msg&)> onMessage;
    bool create() {
        if (!host.create("0.0.0.0", "80", disk.root)) return false;
        inServer([&] {
            host->onUpgrade([this](Net::Socket&& socket, http::Protocol) {
                uint32_t id = static_cast<uint32_t>(socket.remote_endpoint().port()) - 40000;
                Session* s;
                {
                    OutOfServer out;
                    W->trace("upgraded", id);
                    ++upgrades[id];
                    if (conns.count(id)) sentAtUpgrade[id] = conns[id]->bytesFromServer;
                    if (sessions.count(id)) { W->violate("two-links", "two links for connection " + std::to_string(id)); return; }
                    auto& p = sessions[id] = std::make_unique<Session>();
                    s = p.get();
                    s->id = id;
                }
                s->ws = std::make_unique<Ws>(std::move(socket));
                s->ws->onMessage([this, s](std::string_view t) { got(*s, 1, t); });
                s->ws->onMessage([this, s](std::span<const std::byte> d) { got(*s, 2, std::string_view(reinterpret_cast<const char*>(d.data()), d.size())); });
                s->ws->onClose([s](websocket::CloseEvent e) {
                    bool destroy;
                    {
                        OutOfServer out;
                        W->trace("closed", s->id, e.status, e.reason.size());
                        ++s->closes;
                        s->event = e;
                        destroy = s->destroyAtClose;
                    }
                    if (destroy) s->ws.reset();
                });
                s->ws->start();
                OutOfServer out;
                if (onStart) onStart(*s);
            });
        });
        return true;
    }
    void got(Session& s, int opcode, std::string_view d) {
        OutOfServer out;
        W->trace("app-message", s.id, static_cast<uint64_t>(opcode), hashStr(d) ^ d.size());
        if (s.closes) W->violate("after-close", "a message was delivered after the close of connection " + std::to_string(s.id));
        if (s.stopped) W->violate("after-stop", "a message was delivered on connection " + std::to_string(s.id) + " after the application had ended it");
        s.received.push_back({opcode, std::string(d)});
        if (onMessage) onMessage(s, s.received.back());
    }
    // sends through one of the ways an application has, and destroys its own buffers right after
    void send(Session& s, Stream& r, int opcode, const std::string& payload) {
        if (!s.stopped) s.sent.push_back({opcode, payload});
        W->trace("app-send", s.id, static_cast<uint64_t>(opcode), payload.size());
        auto copy = std::make_unique<std::string>(payload);
        auto bytes = [&](size_t from, size_t n) { return std::span<const std::byte>(reinterpret_cast<const std::byte*>(copy->data()) + from, n); };
        try {
            InServer in;
            if (opcode == 1) s.ws->write(std::string_view(*copy));
            else {
                uint32_t way; size_t a, b;
                { OutOfServer out; way = r.below(3); a = r.below(static_cast<uint32_t>(payload.size()) + 1); b = a + r.below(static_cast<uint32_t>(payload.size() - a) + 1); }
                if (way == 0) s.ws->write(bytes(0, copy->size()));
                else if (way == 1) s.ws->write(bytes(0, a), bytes(a, copy->size() - a));
                else {
                    websocket::Frame<Net> f(bytes(0, a));
                    std::vector<size_t> cuts{a, b};
                    {
                        OutOfServer out;
                        for (uint32_t k = r.chance(100) ? r.scale(20, 100, 1000) : 0; k--;) cuts.push_back(a + r.below(static_cast<uint32_t>(payload.size() - a) + 1));
                        std::sort(cuts.begin(), cuts.end());
                        cuts.push_back(copy->size());
                    }
                    for (size_t i = 0; i + 1 < cuts.size(); ++i) f.addBuffer(bytes(cuts[i], cuts[i + 1] - cuts[i]));
                    s.ws->write(std::move(f));
                }
            }
        }
        catch (const std::exception& e) { W->violate("write-threw", std::string("write on a link threw: ") + e.what()); }
        std::fill(copy->begin(), copy->end(), '#');
    }
    void stop(Session& s, websocket::CloseEvent e) {
        if (!s.ws) return;
        W->trace("app-stop", s.id, e.status, e.reason.size());
        if (!s.stopped) {
            s.stopped = true;
            s.stopEvent = e;
            s.sentAtStop = conns.count(s.id) ? conns[s.id]->bytesFromServer : 0;
        }
        try { InServer in; s.ws->stop(std::move(e)); }
        catch (const std::exception& x) { W->violate("stop-threw", std::string("ending a link threw: ") + x.what()); }
    }
    void finish() {
        for (auto& [id, s] : sessions) inServer([&] { s->ws.reset(); });
    }
};

std::string showMsg(const WsClient::Msg& m) { return (m.opcode == 1 ? "text of " : "binary of ") + std::to_string(m.payload.size()) + " bytes " + hex(m.payload, 16); }
// compares what arrived with what was sent; whole: everything must have arrived
std::string compareMsgs(const std::vector<WsClient::Msg>& sent, const std::vector<WsClient::Msg>& got, bool whole) {
    for (size_t i = 0; i < got.size(); ++i) {
        if (i >= sent.size()) return "message " + std::to_string(i) + " was never sent: " + showMsg(got[i]);
        if (got[i].opcode != sent[i].opcode || got[i].payload != sent[i].payload) return "message " + std::to_string(i) + " is " + showMsg(got[i]) + " instead of " + showMsg(sent[i]);
    }
    if (whole && got.size() != sent.size()) return std::to_string(got.size()) + " of " + std::to_string(sent.size()) + " messages arrived; the next was " + showMsg(sent[got.size()]);
    return {};
}

size_t msgSize(Stream& s, size_t max) {
    static const std::vector<uint32_t> edges{0, 1, 2, 5, 6, 7, 13, 14, 15, 124, 125, 126, 127, 128, 255, 256, 8178, 8184, 8186, 8188, 8192, 16384, 65535, 65536, 65537};
    size_t n = s.chance(600) ? s.below(200) : s.chance(600) ? s.pick(edges) : s.sizeUpTo(70000);
    return n > max ? s.below(static_cast<uint32_t>(max) + 1) : n;
}
std::string wsKey(Stream& s) {
    if (s.chance(700)) return sim::base64(randomBytes(s, 16));
    static const std::string alphabet = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/=-_.";
    std::string k;
    for (size_t n = 1 + s.below(90); n--;) k += alphabet[s.below(static_cast<uint32_t>(alphabet.size()))];
    return k;
}
void netKnobs() {
    W->drawNetKnobs(W->stream("knobs"));
    if (W->knobs.window < 16) W->knobs.window = 16;
}
size_t maxPayload() { return std::min<size_t>(70000, bodyLimit()); }
// a message far above any buffer, where the network of this run is not too slow for it
bool hugeAllowed(Stream& s) { return W->knobs.window >= 8192 && W->knobs.partialWritePermille < 900 && s.chance(12); }
size_t hugeSize(Stream& s) { return 200000 + s.below(s.chance(300) ? 3000000 : 300000); }

// the checks common to every link scenario
bool checkWire(WsClient& c, const std::string& who) {
    if (!c.protocolError.empty()) { W->violate("protocol", who + ": the client received an ill-formed stream: " + c.protocolError); return false; }
    if (c.upgradeFailed) { W->violate("upgrade", who + ": the upgrade was refused: " + printable(c.httpBuf)); return false; }
    return true;
}

// ---------------------------------------------------------------- C09
struct UpClient : WsClient {
    bool offered = false; // the subprotocol of WebFront
    std::string bytes;
    bool valid = false, broken = false;
    std::string what;
    size_t due = 0;
};
void genUpgrade(Stream& s, UpClient& c) {
    c.key = wsKey(s);
    static const std::vector<std::string> methods{"POST", "HEAD", "PUT", "OPTIONS", "get", "GETS", "CONNECT"};
    static const std::vector<std::string> conns{"Upgrade", "keep-alive, Upgrade", "Upgrade, keep-alive", "keep-alive,Upgrade", "Upgrade,keep-alive", "keep-alive, Upgrade, foo"};
    static const std::vector<std::string> badUp{"h2c", "HTTP/2.0", "TLS/1.0", "web socket", "socket", "websockets", "xwebsocket", "nowebsocket, h2c"};
    static const std::vector<std::string> badConn{"keep-alive", "close", "", "Sec-WebSocket-Key", "upgraded", "no-upgrade", "Upgrade-Insecure", "keep-alive, upgradable"};
    std::string method = "GET", up = mixCase(s, "websocket"), target = s.pick(std::vector<std::string>{"/", "/", "/index.html", "/chat", "/missing/file", "/?q=1"});
    std::string conn = s.pick(conns);
    { auto p = conn.find("Upgrade"); conn.replace(p, 7, mixCase(s, "Upgrade")); }
    bool hasKey = true, hasUp = true, hasConn = true;
    std::string tail = "\r\n";
    c.valid = true;
    c.what = "valid";
    std::string version = "HTTP/1.1", badLine;
    if (s.chance(450)) {
        c.valid = false;
        switch (s.below(9)) {
        case 0: hasKey = false; c.what = "no key"; break;
        case 1: hasUp = false; c.what = "no Upgrade"; break;
        case 2: hasConn = false; c.what = "no Connection"; break;
        case 3: up = s.pick(badUp); c.what = "Upgrade: " + up; break;
        case 4: conn = s.pick(badConn); c.what = "Connection: " + conn; break;
        case 5: method = s.pick(methods); c.what = "method " + method; break;
        case 6: target = s.pick(std::vector<std::string>{"/../x", "chat", "/%2e%2e/", "*"}); c.what = "target " + target; break;
        case 7: badLine = s.pick(std::vector<std::string>{"no colon here\r\n", "bad name: x\r\n", ": x\r\n", "x: \x01\r\n"}); c.what = "malformed header"; break;
        default: tail = ""; c.what = "incomplete"; break;
        }
    }
    std::vector<std::string> h;
    auto ows = [&] { return s.chance(700) ? std::string(" ") : s.pick(std::vector<std::string>{"", "  ", "\t", " \t "}); };
    auto trail = [&] { return s.chance(850) ? std::string() : s.pick(std::vector<std::string>{" ", "\t", "  "}); };
    if (hasKey) h.push_back(mixCase(s, "Sec-WebSocket-Key") + ":" + ows() + c.key + trail() + "\r\n");
    if (hasUp) h.push_back(mixCase(s, "Upgrade") + ":" + ows() + up + trail() + "\r\n");
    if (hasConn) {
        if (s.chance(150) && c.valid) { h.push_back("Connection: keep-alive\r\n"); h.push_back("Connection: " + mixCase(s, "Upgrade") + "\r\n"); }
        else h.push_back(mixCase(s, "Connection") + ":" + ows() + conn + trail() + "\r\n");
    }
    h.push_back("Host: localhost\r\n");
    if (s.chance(700)) h.push_back("Sec-WebSocket-Version: 13\r\n");
    if (s.chance(500)) {
        static const std::vector<std::pair<std::string, bool>> offers{{"WebFront_0.1", true}, {"chat, superchat", false}, {"chat, WebFront_0.1", true}, {"WebFront_0.1,chat", true}, {"xWebFront_0.1", false}, {"WebFront_0.12, WebFront", false}, {"chat", false}};
        auto& o = s.pick(offers);
        h.push_back("Sec-WebSocket-Protocol: " + o.first + "\r\n");
        c.offered = o.second;
    }
    if (s.chance(300)) h.push_back("Sec-WebSocket-Extensions: permessage-deflate; client_max_window_bits\r\n");
    if (s.chance(300)) h.push_back("Origin: http://" + randomText(s, 5) + "\r\n");
    if (s.chance(300)) h.push_back("Cookie: " + randomText(s, s.sizeUpTo(9000)) + "\r\n");
    if (!badLine.empty()) h.push_back(badLine);
    for (size_t i = h.size(); i > 1; --i) std::swap(h[i - 1], h[s.below(static_cast<uint32_t>(i))]);
    c.bytes = method + " " + target + " " + version + "\r\n";
    for (auto& l : h) c.bytes += l;
    c.bytes += tail;
    c.upgradeRequest = c.bytes;
    if (tail.empty()) c.upgradeRequest = c.bytes = c.bytes.substr(0, c.bytes.size() - s.below(4)); // ends somewhere in or after the last line
}
std::string check101(UpClient& c) {
    auto& r = c.upgradeReply;
    if (r.status != 101) return "status " + std::to_string(r.status);
    auto accept = r.header("sec-websocket-accept");
    if (r.count("sec-websocket-accept") != 1 || *accept != wsAcceptKey(c.key)) return "Sec-WebSocket-Accept is " + accept.value_or("(none)") + " instead of " + wsAcceptKey(c.key) + " for key '" + c.key + "'";
    if (lower(r.header("upgrade").value_or("")) != "websocket") return "Upgrade header is " + r.header("upgrade").value_or("(none)");
    if (r.count("sec-websocket-protocol") != (c.offered ? 1 : 0) || (c.offered && *r.header("sec-websocket-protocol") != "WebFront_0.1")) return "the client " + std::string(c.offered ? "offers" : "does not offer") + " the subprotocol WebFront_0.1 and the reply has " + std::to_string(r.count("sec-websocket-protocol")) + " Sec-WebSocket-Protocol header(s): " + r.header("sec-websocket-protocol").value_or("");
    if (lower(r.header("connection").value_or("")).find("upgrade") == std::string::npos) return "Connection header is " + r.header("connection").value_or("(none)");
    return {};
}
void c09() {
    auto& s = W->stream("c09");
    std::vector<std::unique_ptr<UpClient>> clients;
    uint32_t n = 1 + s.scale(6, 30, 150);
    netKnobs();
    auto knobs = W->knobs;
    for (uint32_t i = 0; i < n; ++i) {
        auto c = std::make_unique<UpClient>();
        genUpgrade(s, *c);
        W->sample += (i ? "; " : "") + c->what;
        clients.push_back(std::move(c));
    }
    { // how long the 101 reply is
        W->knobs = World::Knobs{};
        App alone;
        if (!alone.create()) return;
        for (auto& c : clients) {
            if (!c->valid || W->done()) continue;
            UpClient probe;
            probe.key = c->key;
            probe.offered = c->offered;
            probe.upgradeRequest = c->upgradeRequest;
            probe.start(port, "solo");
            alone.host.settle();
            probe.conn->cb = {};
            if (W->done()) return;
            auto why = probe.upgraded ? check101(probe) : "no 101 reply but " + printable(probe.httpBuf);
            if (!why.empty()) { W->violate("bad-upgrade", "valid upgrade request answered alone: " + why + "; request " + printable(c->bytes, 400)); return; }
            c->due = probe.httpBuf.size();
        }
        alone.finish();
        alone.host.destroy();
        drainWorld();
    }
    W->knobs = knobs;
    App app;
    app.host.useRunOne = s.chance(300);
    if (!app.create()) return;
    app.onStart = [&](Session& x) { app.send(x, s, 1, "hello " + std::to_string(x.id)); };
    app.onMessage = [&](Session& x, const WsClient::Msg& m) { app.send(x, s, m.opcode, "re:" + m.payload); };
    for (auto& up : clients) {
        auto c = up.get();
        c->onOpen = [c] { c->sendText("ping from client"); };
        uint32_t what = s.below(6);
        Time when = W->now() + (s.chance(500) ? 0 : s.below(20000) * us);
        if (what != 2) W->at(when, [c, &app] { c->start(port); app.conns[c->conn->id] = c->conn.get(); });
        if (what == 1 || what == 2) {
            c->broken = true;
            bool drop = s.chance(500), viaClose = s.chance(300);
            uint32_t failing = s.below(8), error = s.below(1000); // the server's writing or reading fails
            Time d = s.below(3000) * us;
            auto act = [c, drop, viaClose, failing, error] {
                if (c->ended || c->conn->clientEnded) return;
                if (failing == 0) c->conn->failWrites(ioError(error));
                else if (failing == 1) c->conn->failReads(ioError(error));
                else if (viaClose) { W->fault(Fault::ClientFin); c->conn->close(); }
                else { W->fault(Fault::ClientReset); c->conn->reset(drop); }
            };
            if (what == 1) W->at(when + d, act);
            else {
                c->start(port);
                app.conns[c->conn->id] = c->conn.get();
                auto inner = c->conn->cb.onData;
                size_t threshold = s.below(200);
                c->conn->cb.onData = [c, inner, act, threshold](std::string_view d2) { inner(d2); if (c->conn->bytesDelivered >= threshold) act(); };
                continue;
            }
        }
        else if (what == 3) { // stalls before reading the reply
            Time len = s.below(200000) * us;
            W->at(when, [c] { c->conn->pauseReading(); });
            W->at(when + len, [c] { c->conn->resumeReading(); });
        }
    }
    app.host.settle();
    if (W->done()) return;
    for (auto& c : clients) {
        auto id = c->conn->id;
        int links = app.upgrades.count(id) ? app.upgrades[id] : 0;
        auto who = "request (" + c->what + ") " + printable(c->bytes, 300);
        if (!c->valid) {
            if (c->upgraded || c->upgradeReply.status == 101) { W->violate("101", who + " was answered by 101"); return; }
            if (links) { W->violate("spurious-link", who + " became a link"); return; }
            W->probe("invalid_upgrades");
            continue;
        }
        if (links > 1) { W->violate("two-links", who + " became " + std::to_string(links) + " links"); return; }
        if (links && app.sentAtUpgrade[id] < c->due) {
            W->violate("link-before-101", who + " became a link after only " + std::to_string(app.sentAtUpgrade[id]) + " of the " + std::to_string(c->due) + " bytes of the 101 reply were sent");
            return;
        }
        if (c->upgraded) {
            auto why = check101(*c);
            if (!why.empty()) { W->violate("bad-101", who + ": " + why); return; }
        }
        if (c->broken) {
            if (links && app.sessions[id]->live() && c->ended == false && c->conn->serverSawEnd) { W->violate("link-left", who + ": the link of a broken connection was never released"); return; }
            W->probe("broken_upgrades");
            continue;
        }
        if (!c->upgraded) { W->violate("no-101", who + " got " + printable(c->httpBuf, 200) + (c->ended ? " and the connection ended" : "")); return; }
        if (links != 1) { W->violate("no-link", who + " was answered by 101 but has no link"); return; }
        if (!checkWire(*c, who)) return;
        auto why = compareMsgs(app.sessions[id]->sent, c->messages, true);
        if (why.empty()) why = compareMsgs({{1, "ping from client"}}, app.sessions[id]->received, true);
        if (!why.empty()) { W->violate("link-dead", who + ": its link does not work: " + why); return; }
        if (c->ended) { W->violate("link-dead", who + ": its connection was ended"); return; }
        W->probe("valid_upgrades");
        W->nontrivial = true;
    }
    app.finish();
}

// ---------------------------------------------------------------- links with traffic in both directions
struct Peer : Page { // a Page used for its message layout only
    bool broken = false, closed = false;
    std::vector<Msg> sentMsgs;
    size_t sentBeforeClose = 0;
    Session* session(App& app) { auto it = app.sessions.find(conn->id); return it == app.sessions.end() ? nullptr : it->second.get(); }
};
void breakPeer(Stream& s, Peer* c, Time when) {
    c->broken = true;
    bool drop = s.chance(500);
    uint32_t how = s.below(5), error = s.below(1000);
    W->at(when, [c, how, drop, error] {
        if (c->ended || c->conn->clientEnded || c->conn->clientReset || c->conn->clientClosed) return;
        if (how == 0) { W->fault(Fault::ClientReset); c->conn->reset(drop); }
        else if (how == 1) { W->fault(Fault::ClientFin); c->conn->close(); }
        else if (how == 2) { W->fault(Fault::ClientHalfClose); c->conn->fin(); }
        else if (how == 3) c->conn->failWrites(ioError(error));
        else c->conn->failReads(ioError(error));
    });
}
void stallPeer(Stream& s, Peer* c, Time start) {
    switch (s.below(5)) {
    case 0: {
        uint32_t rate = 1 + s.below(4000);
        if (maxPayload() / rate > 3000) rate = static_cast<uint32_t>(maxPayload() / 3000 + 1);
        W->fault(Fault::ClientStall);
        W->at(start, [c, rate] { c->conn->readRate = rate; });
    } break;
    case 1: {
        Time from = s.below(30000) * us, len = s.below(300000) * us;
        W->at(start + from, [c] { c->conn->pauseReading(); });
        W->at(start + from + len, [c] { c->conn->resumeReading(); });
    } break;
    case 2: {
        Time from = start + s.below(20000) * us, len = s.below(800) * ms;
        W->at(start, [c, from, len] { c->conn->partition(from, from + len); });
    } break;
    default: break;
    }
}

// ---------------------------------------------------------------- C10
void c10() {
    auto& s = W->stream("c10");
    netKnobs();
    App app;
    app.host.useRunOne = s.chance(300);
    if (!app.create()) return;
    std::vector<std::unique_ptr<Peer>> peers;
    uint32_t n = 1 + s.scale(4, 30, 150);
    size_t budget = maxPayload();
    for (uint32_t i = 0; i < n; ++i) {
        auto up = std::make_unique<Peer>();
        auto c = up.get();
        c->key = wsKey(s);
        c->rnd = &s;
        if (s.chance(150)) { c->rnd = nullptr; c->fixedMask = s.chance(500) ? 0 : 0xffffffff; }
        auto& ms_ = W->stream("peer" + std::to_string(i));
        Time start = W->now() + (s.chance(500) ? 0 : s.below(5000) * us);
        W->at(start, [c] { c->start(port); });
        uint32_t count = 1 + (n > 30 ? ms_.below(12) : ms_.scale(12, 150, 2000));
        bool burst = ms_.chance(400), huge = i == 0 && hugeAllowed(ms_);
        std::vector<std::pair<Time, WsClient::Msg>> plan;
        Time t = 0;
        for (uint32_t j = 0; j < count; ++j) {
            int op = ms_.chance(500) ? 1 : 2;
            auto size = msgSize(ms_, std::max<size_t>(200, budget / count));
            if (huge && j == count - 1) size = hugeSize(ms_);
            plan.push_back({t, {op, patternBytes((uint64_t{i} << 32) | j, size)}});
            if (!burst) t += ms_.below(3000) * us;
        }
        auto onceDone = std::make_shared<std::function<void()>>();
        c->onOpen = [c, plan, t, onceDone, &ms_] {
            if (*onceDone) W->after(t + 1 * ms, *onceDone); // after the last message
            for (auto& [at, m] : plan)
                W->after(at, [c, m, &ms_] {
                    if (c->ended || c->conn->clientReset || c->conn->clientClosed || c->conn->clientFin) return;
                    c->sentMsgs.push_back(m);
                    c->sendMessage(ms_, m.opcode, m.payload);
                });
        };
        if (s.chance(250)) breakPeer(s, c, start + s.below(40000) * us);
        else if (s.chance(200)) { // ends in the middle of a message
            c->broken = true;
            uint32_t cut = s.below(4), fin = s.below(2);
            *onceDone = [c, cut, fin, &ms_] {
                if (c->ended || c->conn->clientReset || c->conn->clientClosed || c->conn->clientFin) return;
                auto payload = patternBytes(0xdead, 1 + ms_.below(300));
                auto f = cut == 0 ? wsEncode(false, 2, payload, true, 0x1234567) : wsEncode(true, 1, payload, true, 0x1234567);
                if (cut) f.resize(ms_.below(static_cast<uint32_t>(f.size())));
                c->conn->send(f);
                W->after(ms_.below(2000) * us, [c, fin] { fin ? c->conn->fin() : c->conn->close(); });
            };
        }
        peers.push_back(std::move(up));
    }
    app.host.settle();
    if (W->done()) return;
    for (auto& c : peers) {
        auto x = c->session(app);
        auto who = "client " + std::to_string(c->conn->id);
        if (!c->broken && !c->upgraded) { W->violate("upgrade", who + " was not upgraded"); return; }
        if (!c->broken && !checkWire(*c, who)) return;
        if (!x) { if (!c->broken) { W->violate("no-link", who + " has no link"); return; } continue; }
        auto why = compareMsgs(c->sentMsgs, x->received, !c->broken);
        if (!why.empty()) { W->violate("inbound", who + ": " + why + (c->broken ? " (connection broken by the client)" : "")); return; }
        if (!c->broken && (c->ended || x->closes)) { W->violate("closed", who + ": the server ended the connection"); return; }
        W->probe("messages_delivered", x->received.size());
        if (!x->received.empty()) W->nontrivial = true;
    }
    W->sample = std::to_string(peers.size()) + " clients, first sent " + std::to_string(peers[0]->sentMsgs.size()) + " messages";
    app.finish();
}

// ---------------------------------------------------------------- C11
void c11() {
    auto& s = W->stream("c11");
    netKnobs();
    App app;
    app.host.useRunOne = s.chance(300);
    if (!app.create()) return;
    std::vector<std::unique_ptr<Peer>> peers;
    uint32_t n = 1 + s.scale(4, 30, 150);
    size_t budget = maxPayload() / n;
    auto echoing = s.chance(400);
    std::map<uint32_t, std::vector<std::pair<Time, WsClient::Msg>>> plans;
    for (uint32_t i = 0; i < n; ++i) {
        auto& ps = W->stream("peer" + std::to_string(i));
        uint32_t count = 1 + (n > 30 ? ps.below(12) : ps.scale(12, 300, 3000));
        Time t = 0;
        bool burst = ps.chance(500), huge = i == 0 && hugeAllowed(ps);
        for (uint32_t j = 0; j < count; ++j) {
            auto size = msgSize(ps, std::max<size_t>(200, budget / count));
            if (huge && j == count / 2) size = hugeSize(ps);
            plans[i].push_back({t, {ps.chance(400) ? 1 : 2, patternBytes((uint64_t{i} << 32) | j, size)}});
            if (!burst || ps.chance(200)) t += ps.below(3000) * us;
        }
    }
    app.onStart = [&](Session& x) {
        uint32_t first = peers[0]->conn ? peers[0]->conn->id : 0;
        auto& plan = plans[(x.id - first) % n];
        for (auto& [at, m] : plan) {
            if (at == 0) { app.send(x, s, m.opcode, m.payload); continue; }
            W->after(at, [&app, &s, &x, &m] { if (x.ws) app.send(x, s, m.opcode, m.payload); });
        }
    };
    app.onMessage = [&](Session& x, const WsClient::Msg& m) {
        if (echoing) app.send(x, s, m.opcode, m.payload);
    };
    for (uint32_t i = 0; i < n; ++i) {
        auto up = std::make_unique<Peer>();
        auto c = up.get();
        auto& ps = W->stream("peer" + std::to_string(i));
        c->key = wsKey(s);
        c->rnd = &s;
        Time start = W->now() + i * us + (s.chance(500) ? 0 : s.below(5000) * us);
        W->at(start, [c] { c->start(port); });
        if (echoing) {
            uint32_t k = 1 + ps.below(5);
            c->onOpen = [c, k, &ps] { for (uint32_t j = 0; j < k; ++j) W->after(ps.below(4000) * us, [c, &ps, j] { if (!c->ended && !c->conn->clientReset && !c->conn->clientClosed && !c->conn->clientFin) c->sendMessage(ps, 1 + static_cast<int>(j % 2), randomBytes(ps, ps.below(300))); }); };
        }
        stallPeer(s, c, start);
        if (s.chance(300)) breakPeer(s, c, start + s.below(30000) * us);
        peers.push_back(std::move(up));
    }
    app.host.settle();
    if (W->done()) return;
    for (auto& c : peers) {
        auto x = c->session(app);
        auto who = "client " + std::to_string(c->conn->id);
        if (!checkWire(*c, who)) return;
        if (!c->broken && !c->upgraded) { W->violate("upgrade", who + " was not upgraded"); return; }
        if (!x) { if (!c->broken) { W->violate("no-link", who + " has no link"); return; } continue; }
        auto why = compareMsgs(x->sent, c->messages, !c->broken);
        if (why.empty() && !c->broken && (c->inFragment || c->dec.pending())) why = "bytes of an unfinished message are left";
        if (why.empty() && (c->inFragment || c->dec.pending()) && c->messages.size() < x->sent.size()) { // an unfinished message has to be the beginning of the next one
            auto& next = x->sent[c->messages.size()].payload;
            if (c->inFragment && next.compare(0, c->partial.size(), c->partial) != 0) why = "the unfinished message is not the beginning of the next one";
        }
        if (!why.empty()) { W->violate("outbound", who + ": " + why + (c->broken ? " (connection broken by the client)" : "")); return; }
        if (!c->broken && c->ended) { W->violate("closed", who + ": the server ended the connection"); return; }
        W->probe("messages_received", c->messages.size());
        if (!c->messages.empty()) W->nontrivial = true;
    }
    W->sample = std::to_string(peers.size()) + " clients, window " + std::to_string(W->knobs.window);
    app.finish();
}

// ---------------------------------------------------------------- C12
void c12() {
    auto& s = W->stream("c12");
    netKnobs();
    App app;
    app.host.useRunOne = s.chance(300);
    if (!app.create()) return;
    std::vector<std::unique_ptr<Peer>> peers;
    uint32_t n = 1 + s.scale(4, 30, 150);
    size_t budget = std::min<size_t>(20000, maxPayload() / n);
    app.onMessage = [&](Session& x, const WsClient::Msg& m) { app.send(x, s, m.opcode, m.payload); };
    for (uint32_t i = 0; i < n; ++i) {
        auto up = std::make_unique<Peer>();
        auto c = up.get();
        auto& ps = W->stream("peer" + std::to_string(i));
        c->key = wsKey(s);
        c->rnd = &s;
        Time start = W->now() + (s.chance(500) ? 0 : s.below(5000) * us);
        W->at(start, [c] { c->start(port); });
        stallPeer(s, c, start);
        uint32_t count = 1 + (n > 30 ? ps.below(14) : ps.scale(14, 150, 1500));
        bool closes = ps.chance(650);
        c->closed = closes;
        c->onOpen = [c, count, closes, budget, &ps, i] {
            Time t = 0;
            for (uint32_t j = 0; j <= count; ++j) {
                bool last = j == count;
                W->after(t, [c, last, closes, budget, count, &ps, i, j] {
                    if (c->ended) return;
                    if (!last) {
                        if (ps.chance(500)) {
                            auto p = randomBytes(ps, ps.chance(300) ? 125 : ps.below(126));
                            c->pingsSent.push_back(p);
                            c->sendFrame(true, 9, p);
                        }
                        else if (ps.chance(200)) c->sendFrame(true, 10, anyText(ps, ps.below(126)));
                        else {
                            WsClient::Msg m{ps.chance(500) ? 1 : 2, patternBytes((uint64_t{i} << 32) | j, msgSize(ps, std::max<size_t>(100, budget / (count + 1))))};
                            c->sentMsgs.push_back(m);
                            c->sendMessage(ps, m.opcode, m.payload);
                        }
                        return;
                    }
                    if (!closes) return;
                    std::string payload;
                    if (ps.chance(700)) {
                        static const std::vector<uint32_t> codes{1000, 1001, 1002, 1003, 1008, 1011, 3000, 4999};
                        auto code = ps.pick(codes);
                        payload += static_cast<char>(code >> 8);
                        payload += static_cast<char>(code & 255);
                        if (ps.chance(500)) payload += anyText(ps, ps.below(124));
                    }
                    bool together = ps.chance(500);
                    c->queueFrame(true, 8, payload);
                    if (!together) c->flush();
                    for (uint32_t k = ps.below(3); k--;) { // nothing of this may be delivered
                        uint32_t what = ps.below(3);
                        if (what == 0) c->queueFrame(true, 1, "after close");
                        else if (what == 1) c->queueFrame(true, 9, "ping after close");
                        else c->queueFrame(true, 2, randomBytes(ps, ps.below(200)));
                    }
                    c->flush();
                });
                t += ps.chance(500) ? 0 : ps.below(2000) * us;
            }
        };
        peers.push_back(std::move(up));
    }
    app.host.settle();
    if (W->done()) return;
    for (auto& c : peers) {
        auto x = c->session(app);
        auto who = "client " + std::to_string(c->conn->id);
        if (!checkWire(*c, who)) return;
        if (!c->upgraded || !x) { W->violate("upgrade", who + " was not upgraded"); return; }
        auto why = compareMsgs(c->sentMsgs, x->received, true);
        if (!why.empty()) { W->violate("inbound", who + ": " + why); return; }
        why = compareMsgs(x->sent, c->messages, true);
        if (!why.empty()) { W->violate("outbound", who + ": " + why); return; }
        std::vector<std::string> pongs;
        bool close = false;
        for (auto& f : c->controls) {
            if (f.opcode == 10) pongs.push_back(f.payload);
            else if (f.opcode == 8) {
                close = true;
                if (f.payload.size() == 1) { W->violate("protocol", who + ": close frame with one byte of payload"); return; }
            }
            if (f.opcode == 9) continue; // a server may ping
        }
        if (pongs != c->pingsSent) {
            size_t i = 0;
            while (i < pongs.size() && i < c->pingsSent.size() && pongs[i] == c->pingsSent[i]) ++i;
            W->violate("pongs", who + ": " + std::to_string(c->pingsSent.size()) + " pings got " + std::to_string(pongs.size()) + " pongs; they differ at " + std::to_string(i));
            return;
        }
        if (c->closed) {
            if (!close) { W->violate("close", who + ": the close frame was not answered"); return; }
            if (!c->ended || !c->conn->serverClosed) { W->violate("close", who + ": the connection was not closed after the closing handshake"); return; }
            if (x->closes != 1) { W->violate("close", who + ": the end of the link was told " + std::to_string(x->closes) + " times"); return; }
            W->probe("closing_handshakes");
        }
        else if (close || c->ended || x->closes) { W->violate("closed", who + ": the server ended a link that nobody closed"); return; }
        W->probe("pings", c->pingsSent.size());
        W->nontrivial = true;
    }
    W->sample = std::to_string(peers.size()) + " clients, first sent " + std::to_string(peers[0]->pingsSent.size()) + " pings";
    app.finish();
}

// ---------------------------------------------------------------- C23: the application ends links
void c23() {
    auto& s = W->stream("c23");
    netKnobs();
    App app;
    app.host.useRunOne = s.chance(300);
    if (!app.create()) return;
    std::vector<std::unique_ptr<Peer>> peers;
    uint32_t n = 1 + s.scale(5, 30, 120);
    size_t budget = maxPayload() / n;
    struct Plan {
        uint32_t how = 0;       // 0 never, 1 when the link starts, 2 in the handler of message `after`, 3 later, 4 in the handler of another link's message
        uint32_t after = 0;
        bool destroyAtClose = false, again = false, writesAfter = false, greets = false, pushes = false;
        websocket::CloseEvent event{};
        Time delay = 0;
    };
    std::map<uint32_t, Plan> plans;
    for (uint32_t i = 0; i < n; ++i) {
        auto& p = plans[i];
        p.how = s.chance(200) ? 0 : 1 + s.below(4);
        p.after = s.below(8);
        p.destroyAtClose = s.chance(400);
        p.again = s.chance(200);
        p.writesAfter = s.chance(400);
        p.greets = s.chance(600);
        p.pushes = s.chance(300);
        if (s.chance(600)) p.event = {static_cast<uint16_t>(1000 + s.below(16)), anyText(s, s.below(60))};
        p.delay = s.below(20000) * us;
    }
    std::map<uint32_t, uint32_t> indexes; // of the clients by connection
    auto planOf = [&](Session& x) -> Plan& { return plans[indexes.at(x.id)]; };
    auto end = [&](Session& x) {
        auto& p = planOf(x);
        if (!x.ws || x.stopped) return;
        app.stop(x, p.event);
        if (p.again && x.ws) app.stop(x, {4000, "again"});
        if (p.writesAfter && x.ws) app.send(x, s, 1 + static_cast<int>(s.below(2)), "after the end");
        if (p.writesAfter) W->after(s.below(5000) * us, [&app, &s, &x] { if (x.ws) app.send(x, s, 1, "long after the end"); });
        W->probe("links_ended_by_the_application");
    };
    app.onStart = [&](Session& x) {
        auto& p = planOf(x);
        x.destroyAtClose = p.destroyAtClose;
        if (p.greets) app.send(x, s, 1, "welcome " + std::to_string(x.id));
        if (p.pushes)
            for (uint32_t k = s.below(6); k--;) {
                Time at = s.below(20000) * us;
                W->after(at, [&app, &s, &x, budget] { if (x.ws) app.send(x, s, 2, patternBytes(x.id, msgSize(s, budget / 8))); });
            }
        if (p.how == 1) end(x);
        if (p.how == 3) W->after(p.delay, [&x, end] { end(x); });
    };
    app.onMessage = [&](Session& x, const WsClient::Msg& m) {
        auto& p = planOf(x);
        auto count = x.received.size();
        if (m.payload.size() < 3000) app.send(x, s, m.opcode, m.payload);
        if (p.how == 2 && count > p.after) end(x);
        else if (p.how == 4) // ends some other link
            for (auto& [id, other] : app.sessions)
                if (other.get() != &x && other->ws && !other->stopped && planOf(*other).how == 4) { end(*other); W->probe("links_ended_by_another"); break; }
    };
    for (uint32_t i = 0; i < n; ++i) {
        auto up = std::make_unique<Peer>();
        auto c = up.get();
        auto& ps = W->stream("peer" + std::to_string(i));
        c->key = wsKey(s);
        c->rnd = &s;
        Time start = W->now() + i * us + (s.chance(500) ? 0 : s.below(5000) * us);
        W->at(start, [c, &app, &indexes, i] { c->start(port); app.conns[c->conn->id] = c->conn.get(); indexes[c->conn->id] = i; });
        uint32_t count = n > 30 ? ps.below(8) : ps.scale(12, 60, 300);
        bool burst = ps.chance(400);
        c->onOpen = [c, count, burst, budget, i, &ps] {
            Time t = 0;
            for (uint32_t j = 0; j < count; ++j) {
                W->after(t, [c, i, j, budget, count, &ps] {
                    if (c->ended || c->conn->clientReset || c->conn->clientClosed || c->conn->clientFin) return;
                    if (ps.chance(100)) c->sendFrame(true, 9, randomBytes(ps, ps.below(126)));
                    WsClient::Msg m{1 + static_cast<int>(ps.below(2)), patternBytes((uint64_t{i} << 32) | j, msgSize(ps, std::max<size_t>(100, budget / (count + 1))))};
                    c->sentMsgs.push_back(m);
                    c->sendMessage(ps, m.opcode, m.payload);
                    if (ps.chance(30)) c->sendFrame(true, 8, "");
                });
                if (!burst) t += ps.below(3000) * us;
            }
        };
        stallPeer(s, c, start);
        if (s.chance(250)) breakPeer(s, c, start + s.below(30000) * us);
        peers.push_back(std::move(up));
    }
    app.host.settle();
    if (W->done()) return;
    for (auto& c : peers) {
        auto x = c->session(app);
        auto who = "client " + std::to_string(c->conn->id);
        if (!checkWire(*c, who)) return;
        if (!c->broken && !c->upgraded) { W->violate("upgrade", who + " was not upgraded"); return; }
        if (!x) { if (!c->broken) { W->violate("no-link", who + " has no link"); return; } continue; }
        bool closing = false; // a closing handshake was begun by the client
        for (auto& f : c->controls) closing = closing || f.opcode == 8;
        bool alone = !x->stopped && !c->broken && !closing;
        auto why = compareMsgs(c->sentMsgs, x->received, alone);
        if (!why.empty()) { W->violate("inbound", who + ": " + why); return; }
        why = compareMsgs(x->sent, c->messages, alone);
        if (!why.empty()) { W->violate("outbound", who + ": " + why); return; }
        if (alone) {
            if (c->ended || x->closes) { W->violate("closed", who + ": the server ended a link that nobody ended"); return; }
            continue;
        }
        if (!x->stopped && c->broken && !closing && !c->conn->serverSawEnd) continue;
        if (x->closes != 1) { W->violate("closes", who + ": the end of the link was told " + std::to_string(x->closes) + " times" + (x->stopped ? " after the application had ended it" : "")); return; }
        if (!c->conn->serverClosed) { W->violate("open", who + ": the socket of an ended link is still open"); return; }
        if (!x->stopped) continue;
        if (!c->broken && !closing && (x->event.status != x->stopEvent.status || x->event.reason != x->stopEvent.reason)) {
            W->violate("event", who + ": the link ended with the event " + std::to_string(x->event.status) + " '" + printable(x->event.reason) + "' instead of the one given by the application, " + std::to_string(x->stopEvent.status) + " '" + printable(x->stopEvent.reason) + "'");
            return;
        }
        if (c->conn->bytesFromServer != x->sentAtStop) { W->violate("sent-after", who + ": " + std::to_string(c->conn->bytesFromServer - x->sentAtStop) + " bytes were sent after the application had ended the link"); return; }
        if (!c->broken && !c->ended) { W->violate("not-ended", who + ": the client never saw the end of a link that the application ended"); return; }
        if (!c->broken && c->conn->bytesDelivered != x->sentAtStop) { W->violate("lost", who + ": of " + std::to_string(x->sentAtStop) + " bytes sent before the end only " + std::to_string(c->conn->bytesDelivered) + " arrived"); return; }
        if (x->destroyAtClose && x->ws) { W->violate("handler", who + ": the close handler did not run to its end"); return; }
        W->nontrivial = true;
    }
    W->sample = std::to_string(peers.size()) + " clients, first ended " + std::to_string(plans[0].how);
    app.finish();
}

Register r9("C09", "upgrades", c09), r10("C10", "inbound", c10), r11("C11", "outbound", c11), r12("C12", "controls", c12), r23("C23", "ends", c23);
} // namespace
