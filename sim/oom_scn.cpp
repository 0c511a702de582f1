// Failing allocations of the server: C25
#include "wf_kit.hpp"
#include <cstdlib>
#include <new>

#ifndef SIM_FAST // the build without sanitizers has its own
static void* allocate(std::size_t n, std::size_t align) {
    if (sim::allocationFails(n)) throw std::bad_alloc();
    void* p = align ? std::aligned_alloc(align, (n + align - 1) / align * align) : std::malloc(n ? n : 1);
    if (!p) throw std::bad_alloc();
    return p;
}
void* operator new(std::size_t n) { return allocate(n, 0); }
void* operator new[](std::size_t n) { return allocate(n, 0); }
void* operator new(std::size_t n, std::align_val_t a) { return allocate(n, static_cast<std::size_t>(a)); }
void* operator new[](std::size_t n, std::align_val_t a) { return allocate(n, static_cast<std::size_t>(a)); }
void operator delete(void* p) noexcept { std::free(p); }
void operator delete[](void* p) noexcept { std::free(p); }
void operator delete(void* p, std::size_t) noexcept { std::free(p); }
void operator delete[](void* p, std::size_t) noexcept { std::free(p); }
void operator delete(void* p, std::align_val_t) noexcept { std::free(p); }
void operator delete[](void* p, std::align_val_t) noexcept { std::free(p); }
void operator delete(void* p, std::size_t, std::align_val_t) noexcept { std::free(p); }
void operator delete[](void* p, std::size_t, std::align_val_t) noexcept { std::free(p); }
#endif

using namespace sim;

namespace {
std::string keyFor(Stream& s) { return sim::base64(randomBytes(s, 16)); }

struct Memory { // decides which allocations fail
    bool scarce = false;
    uint64_t countdown = 0, failures = 0, longestGap = 1, burst = 0, largest = ~0ull;
    void next(Stream& s) { countdown = s.below(static_cast<uint32_t>(longestGap)); }
    bool fails(size_t n) {
        if (!scarce) return false;
        if (n <= largest) { // the big ones fail in any case
            if (countdown) { --countdown; return false; }
            OutOfServer o;
            auto& s = W->stream("memory");
            if (burst && s.chance(900)) --burst;
            else { next(s); burst = s.chance(100) ? s.below(20) : 0; }
        }
        OutOfServer o;
        ++failures;
        W->fault(Fault::AllocFail);
        W->trace("alloc-fail", n);
        return true;
    }
} memory;

struct Item { Sent what; bool refused; };
struct AppPage : SimPage { std::vector<std::string> said; bool late = false; };
struct Http : HttpClient { GenReq req; bool late = false; };

// what the page received of what was issued: in order, unaltered, and everything that was not refused if it is to be whole
std::string compare(const std::vector<Item>& issued, const std::vector<Sent>& got, bool whole) {
    size_t i = 0, k = 0;
    for (; k < got.size(); ++k, ++i) {
        while (i < issued.size() && !(issued[i].what == got[k]) && (issued[i].refused || !whole)) ++i;
        if (i >= issued.size() || !(issued[i].what == got[k])) return "item " + std::to_string(k) + " is " + got[k].show() + (i < issued.size() ? " instead of " + issued[i].what.show() : " which was not issued for it there");
    }
    if (whole) for (; i < issued.size(); ++i) if (!issued[i].refused) return "never received: " + issued[i].what.show();
    return {};
}

void c25() {
    auto& s = W->stream("c25");
    auto& ms_ = W->stream("memory");
    wfKnobs();
    auto site = makeDiskSite(s, std::min<size_t>(bodyLimit(), 20000), 4);
    drawLog(s, 250);
    auto sinks = [] { size_t n = 0; for (auto& f : webfront::log::Sinks::sinks) n += f != nullptr; return n; };
    auto baseSinks = sinks();
    trackServerAllocations(true);
    memory = {};
    failAllocation = [](size_t n) { return memory.fails(n); };
    memory.longestGap = ms_.pick(std::vector<uint32_t>{1, 3, 10, 30, 100, 300, 1000});
    if (ms_.chance(300)) memory.largest = ms_.pick(std::vector<uint32_t>{300, 1000, 8000, 20000});
    memory.next(ms_);
    uint32_t generations = 1 + s.below(3);
    std::vector<std::unique_ptr<AppPage>> pages;
    std::vector<std::unique_ptr<Http>> https;
    std::vector<int64_t> bytes;
    uint32_t most = 0;
    for (uint32_t g = 0; g < generations && !W->done(); ++g) {
        size_t firstPage = pages.size(), firstHttp = https.size();
        {
            WfApp app;
            std::map<UiRec*, std::vector<Item>> issued;
            std::map<uint64_t, std::vector<std::string>> processed;
            app.host.useRunOne = s.chance(300);
            if (s.chance(150)) { // memory is scarce from the start
                memory.scarce = true;
                try { inServer([&] { app.host.s = std::make_unique<WF>("80", disk.root); }); W->probe("created_anyway"); }
                catch (const std::bad_alloc&) { W->inServer = 0; W->probe("refused_servers"); }
                catch (const std::exception& e) { W->inServer = 0; W->violate("other-exception", std::string("a failing allocation made the constructor throw ") + e.what()); return; }
                memory.scarce = false;
                app.host.s.reset();
                if (SockImpl::open || NW->hasListener(port)) { W->violate("socket-left", "a server that could not be created left a socket open"); return; }
            }
            if (!app.create(false)) return;
            auto issue = [&](UiRec& u, Sent what, auto&& fn) { // one call of the library by the application
                try {
                    InServer in;
                    fn();
                    OutOfServer o;
                    issued[&u].push_back({std::move(what), false});
                    return true;
                }
                catch (const std::exception&) {}
                issued[&u].push_back({std::move(what), true});
                return false;
            };
            auto script = [&](UiRec& u, const std::string& t) { return issue(u, {false, t, {}}, [&] { u.ui.addScript(t); }); };
            auto call = [&](UiRec& u, const std::string& name, const std::string& arg) { return issue(u, {true, name, {Value::string(arg)}}, [&] { u.ui.jsFunction(name)(arg); }); };
            inServer([&] {
                app.host->onUIStarted([&](UI ui) {
                    OutOfServer out;
                    W->trace("ui-started", NW->running);
                    auto& u = *app.uis.emplace_back(std::make_unique<UiRec>(UiRec{NW->running, ui, {}}));
                    for (uint32_t k = s.below(4); k--;) {
                        auto t = anyText(s, s.below(static_cast<uint32_t>(bodyLimit() / 4)));
                        if (s.chance(500)) script(u, t);
                        else call(u, "f", t);
                    }
                });
                app.host->cppFunction<void, std::string>("echo", [&](std::string t) {
                    OutOfServer o;
                    processed[NW->running].push_back(t);
                    if (auto u = app.of(NW->running)) call(*u, "echoed", t);
                });
            });
            auto settle = [&] {
                NW->idle = NW->breakRun = false;
                while (!NW->idle && !W->done() && !NW->breakRun) {
                    try {
                        if (app.host.useRunOne) app.host->runOne();
                        else app.host->run();
                    }
                    catch (const std::exception& e) { W->inServer = 0; W->violate("loop-threw", std::string("a failing allocation made the event loop throw ") + e.what()); return false; }
                    if (NW->loopEnded && !NW->idle && !W->done()) { W->violate("loop-ended", "the event loop ended although the server was not destroyed: it no longer listens"); return false; }
                }
                return !W->done();
            };
            auto addHttp = [&](Time start, bool late) {
                auto up = std::make_unique<Http>();
                auto c = up.get();
                c->late = late;
                c->req = genRequest(s, site, ReqMix{8, 2, 2, 2, 2, 0, 0});
                c->request = c->req.bytes;
                W->at(start, [c] { c->start(port); });
                https.push_back(std::move(up));
            };
            auto addPage = [&](Time start, bool late) {
                auto up = std::make_unique<AppPage>();
                auto c = up.get();
                auto& ps = W->stream("page" + std::to_string(pages.size()));
                c->late = late;
                c->key = keyFor(s);
                c->rnd = &ps;
                uint32_t calls = ps.below(6);
                c->onOpen = [c, calls, &ps] {
                    for (uint32_t k = 0; k < calls; ++k)
                        W->after(ps.below(6000) * us, [c, &ps] {
                            if (!c->usable()) return;
                            if (ps.chance(150)) { c->sendMessage(ps, 1, anyText(ps, ps.below(100))); return; }
                            if (ps.chance(150)) { auto p = anyText(ps, ps.below(100)); c->sendFrame(true, 9, p); return; }
                            c->said.push_back(anyText(ps, ps.below(300)));
                            c->sendMessage(ps, 2, encodeCall("echo", {Value::string(c->said.back())}));
                        });
                };
                W->at(start, [c] { c->open(port); });
                if (!late) {
                    stall(s, c, start);
                    if (s.chance(150)) { uint32_t how = s.below(breakKinds); W->at(start + s.below(8000) * us, [c, how] { breakNow(c, how); }); }
                }
                pages.push_back(std::move(up));
            };
            uint32_t n = 1 + s.scale(6, 25, 60);
            most = std::max(most, n);
            for (uint32_t i = 0; i < n; ++i) {
                Time start = W->now() + (s.chance(300) ? 0 : s.below(8000) * us);
                if (s.chance(450)) addHttp(start, false);
                else addPage(start, false);
            }
            for (uint32_t k = s.below(20); k--;)
                W->after(s.below(12000) * us, [&] {
                    if (!app.host.s) return;
                    for (auto& u : app.uis) if (s.chance(500)) s.chance(500) ? script(*u, anyText(s, s.below(200))) : call(*u, "g", anyText(s, s.below(200)));
                });
            // some phases during which memory is scarce
            for (uint32_t k = 1 + s.below(3); k--;) {
                Time from = s.chance(200) ? 0 : s.below(9000) * us;
                W->after(from, [] { memory.scarce = true; });
                W->after(from + s.pick(std::vector<uint32_t>{10, 300, 3000, 20000}) * s.below(1000), [] { memory.scarce = false; });
            }
            if (s.chance(500)) memory.scarce = true; // from the beginning on
            W->after(20 * ms, [] { memory.scarce = false; });
            bool violent = g + 1 < generations && s.chance(400); // the application gives up meanwhile
            if (violent) W->after(s.below(12000) * us, [] { NW->breakRun = true; });
            if (!settle()) return;
            bool stillScarce = memory.scarce && s.chance(500);
            if (!stillScarce) memory.scarce = false;
            if (!violent) {
                addHttp(W->now(), true);
                addPage(W->now(), true);
                std::map<AppPage*, std::string> last;
                for (size_t i = firstPage; i < pages.size(); ++i) { // links that are still there work
                    auto& c = *pages[i];
                    auto u = app.of(c.conn ? c.conn->id : ~0ull);
                    if (!c.conn || c.broken || c.late || c.ended || !u) continue;
                    if (!script(*u, "still there?")) continue;
                    last[&c] = "last";
                    c.call("echo", {Value::string("last")});
                }
                if (!settle()) return;
                for (size_t i = firstHttp; i < https.size(); ++i) {
                    auto& c = *https[i];
                    if (c.late) {
                        auto why = judgeReply(c.req, c.received);
                        if (why.empty() && !c.ended) why = "connection left open";
                        if (!why.empty()) { W->violate("not-served", "when memory was available again, " + describe(c.req) + ": " + why); return; }
                    }
                    else if (!c.ended) { W->violate("stuck", describe(c.req) + " on connection " + std::to_string(c.conn->id) + " has neither got its reply nor seen the end of its connection; received " + printable(c.received, 60)); return; }
                }
                for (size_t i = firstPage; i < pages.size(); ++i) {
                    auto& c = *pages[i];
                    if (!c.protocolError.empty() || !c.pageError.empty()) { checkPage(c); return; }
                    auto u = app.of(c.conn->id);
                    if (c.late) {
                        if (!checkPage(c)) return;
                        if (!c.acked || !u || c.ended) { W->violate("not-served", "when memory was available again, " + c.who() + (c.ended ? " was disconnected" : " got no link")); return; }
                        auto why = compare(issued[u], received(c), true);
                        if (why.empty() && processed[c.conn->id] != c.said) why = "its calls were not processed";
                        if (!why.empty()) { W->violate("not-served", "when memory was available again, " + c.who() + ": " + why); return; }
                        continue;
                    }
                    if (!c.upgraded && !c.ended && !c.broken) { W->violate("stuck", c.who() + " was neither upgraded nor disconnected"); return; }
                    if (last.count(&c) && !c.ended) {
                        auto got = received(c);
                        if (std::none_of(got.begin(), got.end(), [](auto& x) { return x.text == "still there?"; })) { W->violate("stuck", "what is sent to " + c.who() + " is silently lost"); return; }
                        auto& p = processed[c.conn->id];
                        if (std::find(p.begin(), p.end(), "last") == p.end()) { W->violate("stuck", "calls of " + c.who() + " are no longer processed"); return; }
                    }
                }
            }
            for (size_t i = firstPage; i < pages.size(); ++i) {
                auto& c = *pages[i];
                if (!c.conn) continue;
                if (!c.protocolError.empty() || !c.pageError.empty()) { checkPage(c); return; }
                if (app.count(c.conn->id) > 1) { W->violate("ui", "the UI of " + c.who() + " was started more than once"); return; }
                if (auto u = app.of(c.conn->id)) {
                    auto why = compare(issued[u], received(c), false);
                    if (!why.empty()) { W->violate("altered", c.who() + ": " + why); return; }
                }
                else if (!received(c).empty()) { W->violate("altered", c.who() + " has no UI and received something"); return; }
                size_t k = 0; // what was processed was said, in this order
                for (auto& t : processed[c.conn->id]) {
                    if (t == "last") continue;
                    while (k < c.said.size() && c.said[k] != t) ++k;
                    if (k++ >= c.said.size()) { W->violate("altered", "a call was processed that " + c.who() + " did not make"); return; }
                }
            }
            app.host.destroy();
            memory.scarce = false;
            if (W->done()) return;
            if (SockImpl::open) { W->violate("socket-left", std::to_string(SockImpl::open) + " sockets are still open after the destruction of the server"); return; }
            if (NW->hasListener(port)) { W->violate("socket-left", "the listening socket is still open after the destruction of the server"); return; }
            if (sinks() != baseSinks) { W->violate("sink-left", std::to_string(sinks() - baseSinks) + " log sinks are left after the destruction of the server"); return; }
            inServer([] { webfront::log::error("after the destruction"); });
            drainWorld();
            if (W->done()) return;
        }
        bytes.push_back(serverLiveBytes());
    }
    for (auto& c : https) {
        if (c->received.empty()) continue;
        auto p = HttpReply::parse(c->received);
        if (!p.headersComplete) { if (!std::string_view("HTTP/1.").starts_with(std::string_view(c->received).substr(0, 7))) { W->violate("altered", describe(c->req) + ": received " + printable(c->received)); return; } continue; }
        if (p.status >= 500 && p.status != c->req.status) { W->probe("status_5xx"); continue; }
        bool whole = p.contentLength && (p.body.size() >= *p.contentLength || (c->req.head() && (p.body.empty() || c->req.kind != "malformed")));
        std::string why = whole ? judgeReply(c->req, c->received) : p.status != c->req.status ? "status " + std::to_string(p.status) : "";
        if (why.empty() && p.status == 200 && (!p.contentLength || *p.contentLength != c->req.file->content.size())) why = "not the length of the file";
        if (why.empty() && p.status == 200 && !c->req.head() && !std::string_view(c->req.file->content).starts_with(p.body)) why = "the body is no prefix of the file";
        if (!why.empty()) { W->violate("altered", describe(c->req) + ": " + why); return; }
    }
    std::string history;
    for (auto b : bytes) history += " " + std::to_string(b);
    if (bytes.size() > 1 && bytes.back() - bytes.front() > 4000 + 128 * static_cast<int64_t>(most)) W->violate("memory-left", "memory held after the destruction of each server:" + history + " bytes");
    if (memory.failures) W->nontrivial = true;
    W->probe("failed_allocations", memory.failures);
    W->sample = std::to_string(memory.failures) + " failed allocations, " + std::to_string(https.size()) + " HTTP clients, " + std::to_string(pages.size()) + " pages";
}

Register r25("C25", "memory-short", c25);
} // namespace
