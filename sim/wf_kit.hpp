// The application side of a WebFront server under test: UIs, pages and what the scenarios share.
#pragma once
#include "http_kit.hpp"
#include <WebFront.hpp>
#include <functional>
#include <stdexcept>
#include <system_error>
#include <variant>
#include <system/NativeFS.hpp>

namespace sim {
using Net = webfront::networking::TCPNetworkingTS;
using WfFs = webfront::fs::Multi<webfront::fs::NativeDebugFS, webfront::fs::IndexFS>;
using WF = webfront::BasicWF<Net, WfFs>;
using UI = WF::UI;
using Fn = webfront::JsFunction<WF>;
constexpr uint16_t port = 80;

struct Sent { // something addressed to a page
    bool call;
    std::string text; // of a script, or the name of the function
    ValueList params;
    bool operator==(const Sent&) const = default;
    std::string show() const { return call ? "call " + printable(text, 30) + "(" + printable(sim::show(params), 200) + ")" : "script of " + std::to_string(text.size()) + " bytes \"" + printable(text, 40) + "\""; }
};
struct UiRec {
    uint64_t conn; // the connection whose handshake was being processed, ~0 if unknown
    UI ui;
    std::vector<Sent> sent;
};
struct WfApp {
    Host<WF> host;
    std::vector<std::unique_ptr<UiRec>> uis; // in order of start
    std::function<void(UiRec&)> onUi;
    bool hushCrowds = true;

    bool create(bool hook = true, const std::string& onPort = "80", const std::string& root = disk.root) {
        if (!host.create(onPort, root)) return false;
        if (hook)
            inServer([&] {
                host->onUIStarted([this](UI ui) {
                    OutOfServer out;
                    W->trace("ui-started", NW->running);
                    if (hushCrowds && uis.size() > 25) webfront::log::setLogLevel(0); // every line would go to each of them
                    auto& p = uis.emplace_back(std::make_unique<UiRec>(UiRec{NW->running, ui, {}}));
                    if (onUi) onUi(*p);
                });
            });
        return true;
    }
    UiRec* of(uint64_t conn) {
        for (auto& u : uis) if (u->conn == conn) return u.get();
        return nullptr;
    }
    size_t count(uint64_t conn) const { size_t n = 0; for (auto& u : uis) n += u->conn == conn; return n; }
    // both return false when the server refused by an exception
    bool script(UiRec& u, const std::string& text) {
        auto copy = std::make_unique<std::string>(text);
        W->trace("app-script", u.conn, text.size());
        bool ok = guarded([&] { u.ui.addScript(*copy); });
        if (ok) u.sent.push_back({false, text, {}});
        std::fill(copy->begin(), copy->end(), '#');
        return ok;
    }
    bool call(UiRec& u, Fn& f, const std::string& name, const std::string& arg) {
        auto copy = std::make_unique<std::string>(arg);
        W->trace("app-call", u.conn, arg.size());
        bool ok = guarded([&] { f(*copy); });
        if (ok) u.sent.push_back({true, name, {Value::string(arg)}});
        std::fill(copy->begin(), copy->end(), '#');
        return ok;
    }
    bool call(UiRec& u, const std::string& name, const std::string& arg) {
        auto f = inServer([&] { return u.ui.jsFunction(name); });
        return call(u, f, name, arg);
    }
    static bool guarded(auto&& fn) {
        try {
            InServer in;
            fn();
            return true;
        }
        catch (const std::exception& e) { W->trace("refused"); lastError() = e.what(); }
        return false;
    }
    static std::string& lastError() { static std::string e; return e; }
};
// what a page received of what the application addressed to it
inline std::vector<Sent> received(const Page& p) {
    std::vector<Sent> r;
    for (auto& e : p.events) {
        if (e.kind == Page::Event::Script) r.push_back({false, e.text, {}});
        else if (e.kind == Page::Event::Call) r.push_back({true, e.call.name, e.call.params});
    }
    return r;
}
inline std::string compareSent(const std::vector<Sent>& sent, const std::vector<Sent>& got, bool whole) {
    for (size_t i = 0; i < got.size(); ++i) {
        if (i >= sent.size()) return "received but never issued for it: " + got[i].show();
        if (!(got[i] == sent[i])) return "item " + std::to_string(i) + " is " + got[i].show() + " instead of " + sent[i].show();
    }
    if (whole && got.size() != sent.size()) return std::to_string(got.size()) + " of " + std::to_string(sent.size()) + " items arrived; the next was " + sent[got.size()].show();
    return {};
}

struct SimPage : Page {
    bool broken = false;   // the client ended the connection in some way
    bool shook = false;    // sent a handshake
    std::string who() const { return "page on connection " + std::to_string(conn ? conn->id : 9999); }
    bool usable() const { return conn && upgraded && !ended && !conn->clientReset && !conn->clientClosed && !conn->clientFin && !sentClose; }
};
inline bool checkPage(SimPage& p) {
    if (p.upgradeFailed) { W->violate("upgrade", p.who() + ": the upgrade was refused: " + printable(p.httpBuf)); return false; }
    if (!p.protocolError.empty()) { W->violate("protocol", p.who() + ": ill-formed WebSocket stream: " + p.protocolError); return false; }
    if (!p.pageError.empty()) { W->violate("page-protocol", p.who() + ": message the page cannot understand: " + p.pageError); return false; }
    return true;
}
// sets up the log of this run: most runs leave it off, some exercise every log line of the code under test
inline uint32_t drawLog(Stream& s, uint32_t debugPermille = 120) {
    auto level = s.chance(debugPermille) ? 1 + s.below(4) : 0;
    if (level) W->clockGrain = s.pick(std::vector<uint32_t>{1, 1, 1000000, 1000000000});
    inServer([&] {
        webfront::log::setLogLevel(static_cast<uint8_t>(level));
        if (level) webfront::log::addSinks([](std::string_view t) { OutOfServer o; W->probe("log_lines"); W->trace("log", t.size()); });
    });
    return static_cast<uint32_t>(level);
}
inline void wfKnobs(uint32_t minWindow = 16) {
    W->drawNetKnobs(W->stream("knobs"));
    if (W->knobs.window < minWindow) W->knobs.window = minWindow;
}
// ways in which a client leaves, or in which the connection to it breaks
constexpr uint32_t breakKinds = 7;
inline void breakNow(SimPage* c, uint32_t how) {
    if (!c->conn || c->ended || c->conn->clientEnded || c->conn->clientReset || c->conn->clientClosed || c->conn->clientFin || c->sentClose) return;
    c->broken = true;
    W->trace("break", c->conn->id, how);
    switch (how) {
    case 0: W->fault(Fault::ClientReset); c->conn->reset(false); break;
    case 1: W->fault(Fault::ClientReset); c->conn->reset(true); break;
    case 2: W->fault(Fault::ClientFin); c->conn->close(); break;
    case 3: W->fault(Fault::ClientHalfClose); c->conn->fin(); break;
    case 5: // the server can no longer write to it; the client says something that has to be answered
        if (c->upgraded) {
            c->conn->failWrites(ioError(c->conn->net.below(1000)));
            auto ping = std::string("still there?");
            c->sendFrame(true, 9, ping);
        }
        else c->conn->failReads(ioError(c->conn->net.below(1000)));
        break;
    case 6: c->conn->failReads(ioError(c->conn->net.below(1000))); break;
    default:
        if (c->upgraded) { c->sendFrame(true, 8, std::string("\x03\xe8", 2)); }
        else { W->fault(Fault::ClientFin); c->conn->close(); }
    }
}
inline void stall(Stream& s, SimPage* c, Time start) {
    switch (s.below(5)) {
    case 0: {
        uint32_t rate = 20 + s.below(4000);
        W->fault(Fault::ClientStall);
        W->at(start, [c, rate] { c->conn->readRate = rate; });
    } break;
    case 1: {
        Time from = s.below(30000) * us, len = s.below(300000) * us;
        W->at(start + from, [c] { c->conn->pauseReading(); });
        W->at(start + from + len, [c] { c->conn->resumeReading(); });
    } break;
    case 2: {
        Time from = start + s.below(20000) * us, len = s.below(800) * ms;
        W->at(start, [c, from, len] { c->conn->partition(from, from + len); });
    } break;
    default: break;
    }
}
// what a function of the application may throw
struct AppError : std::exception { const char* what() const noexcept override { return "of the application"; } };
inline void throwOne(int kind) {
    switch (kind) {
    case 0: throw std::runtime_error("by the function");
    case 1: throw std::invalid_argument("by the function");
    case 2: throw std::out_of_range("by the function");
    case 3: throw std::bad_alloc();
    case 4: throw AppError();
    case 5: throw std::logic_error("");
    case 6: throw std::length_error(std::string(3000, 'x'));
    case 7: throw std::bad_variant_access();
    case 8: throw std::system_error(std::make_error_code(std::errc::io_error));
    case 9: throw std::bad_function_call();
    case 10: throw std::bad_exception();
    default: throw std::domain_error("by {} the \xff function");
    }
}
} // namespace sim
