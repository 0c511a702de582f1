// Scenarios over a whole WebFront: C17 (links never mix), C18 (log lines), C20 (nothing is left behind), C21 (destruction), C24 (several servers)
#include "wf_kit.hpp"
#include <limits>

using namespace sim;

namespace {
std::string keyFor(Stream& s) { return sim::base64(randomBytes(s, 16)); }

// ---------------------------------------------------------------- C17
void c17() {
    auto& s = W->stream("c17");
    wfKnobs();
    drawLog(s, 60);
    WfApp app;
    app.host.useRunOne = s.chance(300);
    if (!app.create()) return;
    struct Heard { uint64_t conn; std::string text; };
    std::vector<Heard> heard;
    std::map<UiRec*, std::unique_ptr<Fn>> fns;
    uint64_t seq = 0;
    size_t big = std::min<size_t>(3000, bodyLimit() / 4);
    auto speak = [&](UiRec& u) { // something for one page, naming that page
        auto text = "for " + std::to_string(u.conn) + " #" + std::to_string(seq++) + " " + anyText(s, s.chance(200) ? s.below(static_cast<uint32_t>(big)) : s.below(20));
        switch (s.below(3)) {
        case 0: app.script(u, text); break;
        case 1: if (auto& f = fns[&u]) app.call(u, *f, "f" + std::to_string(u.conn), text); break;
        default: app.call(u, "g", text);
        }
    };
    inServer([&] {
        app.host->cppFunction<void, std::string>("say", [&](std::string t) {
            OutOfServer o;
            W->trace("say", NW->running);
            heard.push_back({NW->running, t});
            // talks to anyone, dead or alive
            if (!app.uis.empty() && s.chance(500)) speak(*app.uis[s.below(static_cast<uint32_t>(app.uis.size()))]);
        });
    });
    app.onUi = [&](UiRec& u) {
        fns[&u] = inServer([&] { return std::make_unique<Fn>(u.ui.jsFunction("f" + std::to_string(u.conn))); });
        speak(u);
        if (s.chance(500)) speak(*app.uis[s.below(static_cast<uint32_t>(app.uis.size()))]);
    };
    struct P : SimPage { std::vector<std::string> said; size_t unknown = 0; };
    uint32_t n = 2 + s.scale(5, 40, 250);
    size_t limit = 40 + 3 * n;
    std::vector<std::unique_ptr<P>> pages; // every page that ever was, in order of creation
    std::function<void(uint32_t, Stream&)> connect = [&](uint32_t lives, Stream& ps) {
        if (pages.size() > limit || W->done()) return;
        auto up = std::make_unique<P>();
        auto c = up.get();
        pages.push_back(std::move(up));
        c->key = keyFor(ps);
        c->rnd = &ps;
        uint32_t count = ps.below(5), how = ps.below(breakKinds);
        bool leaves = lives > 0 || ps.chance(400);
        Time span = ps.below(8000) * us;
        c->onOpen = [c, count, &ps] {
            for (uint32_t k = 0; k < count; ++k)
                W->after(ps.below(6000) * us, [c, k, &ps] {
                    if (!c->usable()) return;
                    if (ps.chance(250)) { ++c->unknown; c->call("nobody", {Value::number(k)}); return; }
                    auto t = "from " + std::to_string(c->conn->id) + " #" + std::to_string(c->said.size());
                    c->said.push_back(t);
                    c->call("say", {Value::string(t)});
                });
        };
        c->open(port);
        stall(ps, c, W->now());
        if (leaves) {
            c->broken = true;
            W->after(span, [c, how, lives, &ps, &connect] {
                breakNow(c, how);
                if (lives) { if (ps.chance(300)) connect(lives - 1, ps); else W->after(ps.below(3000) * us, [lives, &ps, &connect] { connect(lives - 1, ps); }); }
            });
        }
    };
    for (uint32_t i = 0; i < n; ++i) {
        auto& ps = W->stream("slot" + std::to_string(i));
        W->at(W->now() + (s.chance(400) ? 0 : s.below(8000) * us), [&connect, &ps] { connect(ps.below(4), ps); });
    }
    uint32_t ticks = s.below(20);
    for (uint32_t i = 0; i < ticks; ++i)
        W->after(s.below(20000) * us, [&] { if (!app.uis.empty()) speak(*app.uis[s.below(static_cast<uint32_t>(app.uis.size()))]); });
    app.host.settle();
    if (W->done()) return;
    int alive = 0;
    for (auto& c : pages) {
        if (!checkPage(*c)) return;
        if (!c->broken) {
            ++alive;
            if (c->ended || !c->conn->accepted || c->conn->serverClosed) { W->violate("link-lost", c->who() + " is connected and has lost its link"); return; }
            if (app.count(c->conn->id) != 1) { W->violate("ui", c->who() + " is connected and has " + std::to_string(app.count(c->conn->id)) + " UIs"); return; }
        }
    }
    if (SockImpl::open != alive) { W->violate("links", std::to_string(SockImpl::open) + " sockets for " + std::to_string(alive) + " connected pages"); return; }
    for (auto& u : app.uis) speak(*u); // also those of pages that have left
    for (auto& c : pages) if (!c->broken) { c->said.push_back("last " + std::to_string(c->conn->id)); c->call("say", {Value::string(c->said.back())}); }
    app.host.settle();
    if (W->done()) return;
    size_t total = 0;
    for (auto& c : pages) {
        if (!checkPage(*c)) return;
        auto u = app.of(c->conn->id);
        auto got = received(*c);
        auto why = compareSent(u ? u->sent : std::vector<Sent>{}, got, !c->broken);
        if (!why.empty()) { W->violate("misdelivery", c->who() + (c->broken ? " (has left): " : ": ") + why); return; }
        std::vector<std::string> mine;
        for (auto& h : heard) if (h.conn == c->conn->id) mine.push_back(h.text);
        for (size_t i = 0; i < mine.size(); ++i)
            if (i >= c->said.size() || mine[i] != c->said[i]) { W->violate("misattribution", "'" + mine[i] + "' was processed as coming from the " + c->who()); return; }
        if (!c->broken && mine.size() != c->said.size()) { W->violate("lost-call", c->who() + ": " + std::to_string(mine.size()) + " of " + std::to_string(c->said.size()) + " calls were processed"); return; }
        size_t returns = 0;
        for (auto& e : c->events) returns += e.kind == Page::Event::Return;
        if (returns > c->unknown || (!c->broken && returns != c->unknown)) { W->violate("misanswer", c->who() + " got " + std::to_string(returns) + " answers to " + std::to_string(c->unknown) + " calls"); return; }
        total += got.size();
    }
    W->probe("connections", pages.size());
    W->probe("items_delivered", total);
    if (pages.size() > n && total) W->nontrivial = true;
    W->sample = std::to_string(pages.size()) + " connections, " + std::to_string(alive) + " alive at the end, " + std::to_string(total) + " items delivered";
}

// more connections than a 16-bit link identifier can tell apart, with a few pages that stay all along
void marathon() {
    auto& s = W->stream("marathon");
    W->knobs = {};
    W->maxEvents = 40'000'000;
    uint32_t cycles = 65600 + s.below(3000);
    uint32_t concurrent = 1 + s.below(3);
    WfApp app;
    if (!app.create()) return;
    std::vector<std::unique_ptr<SimPage>> residents;
    auto settle = [&] { return app.host.settle(); };
    auto add = [&] {
        auto c = std::make_unique<SimPage>();
        c->key = keyFor(s);
        c->open(port, "net");
        residents.push_back(std::move(c));
    };
    std::map<UiRec*, std::unique_ptr<Fn>> fns; // made when the page came
    std::map<uint64_t, std::string> said;
    uint32_t done = 0, every = 256u << s.below(4); // so many connections between those that are looked at
    inServer([&] { app.host->cppFunction<void, std::string>("say", [&](std::string t) { OutOfServer o; said[NW->running] += t + ";"; }); });
    app.onUi = [&](UiRec& u) {
        if (residents.size() >= 4 && done % every > 4) return;
        fns[&u] = inServer([&] { return std::make_unique<Fn>(u.ui.jsFunction("f")); });
    };
    // speaks to a page in all ways
    auto speak = [&](UiRec& u, const std::string& text) {
        int n = app.script(u, text) + app.call(u, "g", text);
        if (auto& f = fns[&u]) return (n + app.call(u, *f, "f", text)) * 2 / 3;
        return n;
    };
    add();
    if (!settle()) return;
    uint32_t nextResident = 1 + s.below(cycles);
    while (done < cycles && !W->done()) {
        if (done >= nextResident && residents.size() < 4) { add(); if (!settle()) return; nextResident = done + s.below(cycles - done + 1); }
        std::vector<std::unique_ptr<SimPage>> batch;
        for (uint32_t i = 0; i < concurrent; ++i) {
            auto c = std::make_unique<SimPage>();
            c->open(port, "net");
            batch.push_back(std::move(c));
        }
        if (!settle()) return;
        for (auto& c : batch) {
            if (!c->acked) { W->violate("no-link", "connection " + std::to_string(c->conn->id) + " got no link after " + std::to_string(done) + " others"); return; }
            if (done % every < 3) {
                auto u = app.of(c->conn->id);
                if (!u) { W->violate("ui", c->who() + " has no UI"); return; }
                auto text = "for " + std::to_string(u->conn);
                if (speak(*u, text) != 2) { W->violate("link-lost", "the UI of the connected page on connection " + std::to_string(u->conn) + " was refused"); return; }
                c->call("say", {Value::string(text)});
                if (!settle()) return;
                if (said[u->conn] != text + ";") { W->violate("misdelivery", "a call of " + c->who() + " was not processed as coming from it"); return; }
                if (!checkPage(*c)) return;
                auto why = compareSent(u->sent, received(*c), true);
                if (!why.empty()) { W->violate("misdelivery", c->who() + " after " + std::to_string(done) + " connections: " + why); return; }
                for (auto& r : residents) {
                    auto v = app.of(r->conn->id);
                    if (!v) continue; // not linked yet
                    why = compareSent(v->sent, received(*r), true);
                    if (!why.empty()) { W->violate("misdelivery", r->who() + " after " + std::to_string(done) + " connections: " + why); return; }
                }
            }
            ++done;
            breakNow(c.get(), (done & 15) == 0 ? s.below(breakKinds) : 2);
        }
        if (!settle()) return;
        for (auto& c : batch) c->conn->cb = {};
        // UIs of those that left: keep some
        std::vector<std::unique_ptr<UiRec>> keep;
        for (auto& u : app.uis) {
            bool resident = std::any_of(residents.begin(), residents.end(), [&](auto& r) { return r->conn->id == u->conn; });
            if (resident || u->conn < 50 || (u->conn & 4095) == 0) keep.push_back(std::move(u));
            else fns.erase(u.get());
        }
        app.uis = std::move(keep);
    }
    add();
    if (!settle()) return;
    for (auto& u : app.uis) {
        bool resident = std::any_of(residents.begin(), residents.end(), [&](auto& r) { return r->conn->id == u->conn; });
        auto ok = speak(*u, "for " + std::to_string(u->conn));
        if (resident && ok != 2) { W->violate("link-lost", "the UI of the connected page on connection " + std::to_string(u->conn) + " was refused"); return; }
        if (!resident && ok) { W->violate("misdelivery", "a script for the page of connection " + std::to_string(u->conn) + ", which has left, was accepted"); return; }
    }
    for (auto& c : residents) c->call("say", {Value::string("here")});
    if (!settle()) return;
    for (auto& c : residents) {
        if (!checkPage(*c)) return;
        if (said[c->conn->id] != "here;") { W->violate("misdelivery", "a call of " + c->who() + " was not processed as coming from it"); return; }
        if (c->ended || c->conn->serverClosed) { W->violate("link-lost", c->who() + " has lost its link after " + std::to_string(done) + " connections"); return; }
        auto u = app.of(c->conn->id);
        if (!u || app.count(c->conn->id) != 1) { W->violate("ui", c->who() + " has " + std::to_string(app.count(c->conn->id)) + " UIs"); return; }
        auto why = compareSent(u->sent, received(*c), true);
        if (!why.empty()) { W->violate("misdelivery", c->who() + " after " + std::to_string(done) + " connections: " + why); return; }
    }
    if (SockImpl::open != static_cast<int>(residents.size())) { W->violate("links", std::to_string(SockImpl::open) + " sockets for " + std::to_string(residents.size()) + " pages"); return; }
    W->probe("connections", done);
    W->nontrivial = true;
    W->sample = std::to_string(done) + " connections one after another, " + std::to_string(residents.size()) + " pages staying";
}

// ---------------------------------------------------------------- C18
void c18() {
    auto& s = W->stream("c18");
    wfKnobs();
    namespace L = webfront::log;
    WfApp app;
    app.hushCrowds = false;
    app.host.useRunOne = s.chance(300);
    struct Sink { size_t id = 0, from = 0, to = 0; bool on = false; std::vector<std::string> lines; };
    std::vector<std::string> all; // what the permanent sink got
    std::vector<std::unique_ptr<Sink>> temps;
    struct Silence { ~Silence() { L::setLogLevel(0); } } silence; // the sinks of this scenario go before the server
    uint32_t level = s.below(5);
    W->clockGrain = s.pick(std::vector<uint32_t>{1, 1, 1000, 1000000, 1000000000});
    if (s.chance(200)) W->clockGrain = 1ll << 60; // stands still
    // a few sinks exist from the start, some before the permanent one
    auto addTemp = [&] {
        auto t = std::make_unique<Sink>();
        auto p = t.get();
        p->from = all.size();
        p->on = true;
        inServer([&] { p->id = L::addSinks([p](std::string_view l) { OutOfServer o; p->lines.emplace_back(l); if (!p->on) W->violate("removed-sink", "a removed sink was called"); }); });
        temps.push_back(std::move(t));
    };
    auto removeTemp = [&](Sink& t) {
        t.on = false;
        t.to = all.size();
        inServer([&] { L::removeSinks(t.id); });
    };
    uint32_t before = s.scale(3, 40, 300);
    for (uint32_t i = 0; i < before; ++i) addTemp();
    inServer([&] {
        L::setLogLevel(static_cast<uint8_t>(level));
        L::addSinks([&](std::string_view l) { OutOfServer o; W->trace("log", l.size()); all.emplace_back(l); });
    });
    if (!app.create()) return;
    struct Tagged { std::string text; bool enabled; };
    std::vector<Tagged> tagged;
    std::map<uint64_t, size_t> atStart; // lines when the UI started
    struct P : SimPage { size_t atShake = 0; };
    std::vector<std::unique_ptr<P>> pages;
    size_t sizeBudget = std::min<size_t>(300000, 3 * bodyLimit());
    uint32_t lastType = 0;
    auto emit = [&](Stream& r) {
        static const std::vector<uint32_t> edges{0, 1, 80, 125, 126, 255, 256, 4000, 65400, 65500, 65510, 65520, 65535, 65536, 70000};
        size_t n = r.chance(700) ? r.below(80) : r.chance(400) ? r.pick(edges) : r.sizeUpTo(3000);
        if (n > sizeBudget) n = r.below(60);
        sizeBudget -= std::min(sizeBudget, n);
        bool repeat = !tagged.empty() && r.chance(200); // the very same line again
        auto text = repeat ? tagged.back().text : "#" + std::to_string(tagged.size()) + "# " + anyText(r, n) + (r.chance(100) ? "{}{0}%s\"\n" : "");
        uint32_t type = repeat ? lastType : 1 + r.below(4);
        lastType = type;
        tagged.push_back({text, type <= level});
        W->trace("emit", type, text.size());
        InServer in;
        switch (type) {
        case 1: L::error("{}", text); break;
        case 2: L::warn("{}", text); break;
        case 3: L::info("{}", text); break;
        default: L::debug("{}", text); break;
        }
    };
    app.onUi = [&](UiRec& u) {
        atStart[u.conn] = all.size();
        if (s.chance(500)) emit(s);
        app.script(u, "x");
    };
    inServer([&] { app.host->cppFunction<void>("log", [&] { OutOfServer o; emit(s); }); });
    uint32_t n = 1 + s.scale(5, 25, 150);
    for (uint32_t i = 0; i < n; ++i) {
        auto up = std::make_unique<P>();
        auto c = up.get();
        auto& ps = W->stream("page" + std::to_string(i));
        c->key = keyFor(s);
        c->rnd = &ps;
        c->autoHandshake = false;
        bool shakes = ps.chance(900);
        uint32_t calls = ps.below(3);
        Time delay = ps.chance(500) ? 0 : ps.below(4000) * us;
        bool again = ps.chance(200);
        c->onOpen = [c, shakes, calls, delay, again, &ps, &all] {
            W->after(delay, [c, shakes, calls, again, &ps, &all] {
                if (!c->usable()) return;
                if (shakes) { c->shook = true; c->atShake = all.size(); c->handshake(); }
                if (shakes && again) c->handshake();
                for (uint32_t k = 0; k < calls; ++k) W->after(ps.below(5000) * us, [c] { if (c->usable()) c->call("log", {}); });
            });
        };
        Time start = W->now() + (s.chance(500) ? 0 : s.below(15000) * us);
        W->at(start, [c] { c->open(port); });
        stall(s, c, start);
        if (s.chance(500)) { uint32_t how = s.below(breakKinds); c->broken = true; W->at(start + s.below(30000) * us, [c, how] { breakNow(c, how); }); W->at(start + 1200 * ms, [c, how] { breakNow(c, how); }); }
        pages.push_back(std::move(up));
    }
    uint32_t actions = 3 + (n > 25 ? s.below(30) : s.scale(30, 200, 1000));
    for (uint32_t i = 0; i < actions; ++i) {
        uint32_t what = s.below(12);
        W->after(s.below(30000) * us, [&, what] {
            switch (what) {
            case 0: addTemp(); break;
            case 1: { std::vector<Sink*> on; for (auto& t : temps) if (t->on) on.push_back(t.get()); if (!on.empty()) removeTemp(*s.pick(on)); } break;
            case 2: level = s.below(5); inServer([&] { L::setLogLevel(static_cast<uint8_t>(level)); }); break;
            case 3: {
                static const std::vector<int64_t> jumps{-1, 1, -3600, 3600, 86400 * 365, -86400ll * 365 * 20, 86400ll * 365 * 60, -1'700'000'000};
                W->fault(Fault::ClockJump);
                W->clockOffset += s.pick(jumps) * 1'000'000'000ll / (s.chance(300) ? 7 : 1);
                if (W->clockOffset > 6'000'000'000'000'000'000ll || W->clockOffset < -6'000'000'000'000'000'000ll) W->clockOffset = 1'700'000'000'000'000'000ll;
            } break;
            default: for (uint32_t k = 1 + s.below(3); k--;) emit(s);
            }
        });
    }
    app.host.settle();
    if (W->done()) return;
    emit(s);
    if (level < 4) { level = 4; inServer([&] { L::setLogLevel(4); }); emit(s); level = 0; inServer([&] { L::setLogLevel(0); }); }
    app.host.settle();
    if (W->done()) return;
    for (auto& t : temps) if (t->on) removeTemp(*t);
    // every enabled line once, in order, whole; none of the others
    std::vector<const std::string*> dueLines, gotLines;
    for (auto& t : tagged) if (t.enabled) dueLines.push_back(&t.text);
    auto marked = [](const std::string& l) {
        for (auto p = l.find('#'); p != std::string::npos; p = l.find('#', p + 1)) {
            auto q = l.find_first_not_of("0123456789", p + 1);
            if (q != std::string::npos && q > p + 1 && l.compare(q, 2, "# ") == 0) return true;
        }
        return false;
    };
    for (auto& l : all) if (marked(l)) gotLines.push_back(&l);
    for (size_t i = 0; i < std::max(dueLines.size(), gotLines.size()); ++i) {
        if (i >= gotLines.size()) { W->violate("line-count", "log line " + printable(*dueLines[i], 60) + " reached no sink"); return; }
        if (i >= dueLines.size() || !gotLines[i]->ends_with(*dueLines[i])) {
            W->violate("line-order", "log line " + std::to_string(i) + " of the enabled levels is '" + (i < dueLines.size() ? printable(*dueLines[i], 60) : "none") + "', a sink got '" + printable(*gotLines[i], 120) + "'");
            return;
        }
    }
    for (auto& t : temps) {
        std::vector<std::string> due(all.begin() + static_cast<long>(t->from), all.begin() + static_cast<long>(t->to));
        if (t->lines != due) { W->violate("sink", "a sink that was there from line " + std::to_string(t->from) + " to " + std::to_string(t->to) + " of " + std::to_string(all.size()) + " got " + std::to_string(t->lines.size()) + " lines" + (t->lines.size() == due.size() ? ", others than those" : "")); return; }
    }
    size_t seen = 0;
    for (auto& c : pages) {
        if (!checkPage(*c)) return;
        std::vector<std::string> got;
        for (auto& e : c->events) if (e.kind == Page::Event::Log) got.push_back(e.text);
        auto st = atStart.find(c->conn->id);
        if (!c->shook || (st == atStart.end() && !c->broken)) {
            if (!got.empty()) { W->violate("unlinked-page", c->who() + " never was linked and got " + std::to_string(got.size()) + " log lines"); return; }
            if (c->shook && !c->broken && !atStart.count(~0ull)) { W->violate("ui", c->who() + " has no UI"); return; }
            continue;
        }
        size_t last = st == atStart.end() ? all.size() : st->second;
        bool ok = false;
        std::string why;
        for (size_t a = c->atShake; a <= last && !ok; ++a) {
            if (a + got.size() > all.size()) { why = "more lines than were logged"; continue; }
            if (!c->broken && a + got.size() != all.size()) { if (why.empty()) why = std::to_string(got.size()) + " lines of " + std::to_string(all.size() - last) + " to " + std::to_string(all.size() - c->atShake); continue; }
            ok = true;
            for (size_t i = 0; i < got.size() && ok; ++i) {
                auto& due = all[a + i];
                ok = got[i] == due || (due.size() > 65535 && !got[i].empty() && due.starts_with(got[i]));
                if (!ok) why = "line " + std::to_string(i) + " is '" + printable(got[i], 100) + "' instead of '" + printable(due, 100) + "'";
            }
        }
        if (!ok) { W->violate("page-lines", c->who() + (c->broken ? " (has left): " : ": ") + why); return; }
        seen += got.size();
        if (!c->broken && c->ended) { W->violate("closed", c->who() + ": the server ended the connection"); return; }
    }
    W->probe("page_lines", seen);
    W->probe("lines", all.size());
    if (seen) W->nontrivial = true;
    W->sample = std::to_string(n) + " pages, " + std::to_string(all.size()) + " lines, " + std::to_string(temps.size()) + " other sinks, " + std::to_string(seen) + " lines on pages";
}

// ---------------------------------------------------------------- C20
struct Crowd { // one mix of connections
    std::vector<std::unique_ptr<HttpClient>> https;
    std::vector<std::unique_ptr<SimPage>> pages;
    void play(uint64_t seedStream, const Site& site, uint32_t scale) {
        auto& s = W->stream("crowd" + std::to_string(seedStream));
        uint32_t n = 2 + s.below(7 * scale);
        for (uint32_t i = 0; i < n; ++i) {
            Time start = W->now() + s.below(3000) * us;
            if (s.chance(450)) {
                auto up = std::make_unique<HttpClient>();
                auto c = up.get();
                c->request = genRequest(s, site, ReqMix{6, 2, 2, 2, 2, 1, 2}).bytes;
                uint32_t what = s.below(7), error = s.below(1000);
                bool drop = s.chance(500);
                W->at(start, [c] { c->start(port); });
                auto leave = [c, what, drop, error] {
                    if (c->ended || c->conn->clientReset || c->conn->clientClosed) return;
                    if (what == 5) c->conn->failWrites(ioError(error));
                    else if (what == 6) c->conn->failReads(ioError(error));
                    else if (what & 1) c->conn->reset(drop);
                    else c->conn->close();
                };
                if (what < 3 || what > 4) W->at(start + s.below(3000) * us, leave);
                W->at(start + 2 * sec, [c] { if (!c->ended && !c->conn->clientReset && !c->conn->clientClosed) c->conn->close(); });
                https.push_back(std::move(up));
                continue;
            }
            auto up = std::make_unique<SimPage>();
            auto c = up.get();
            c->rnd = &s;
            c->autoHandshake = s.chance(850);
            if (s.chance(80)) c->upgradeRequest = "GET / HTTP/1.1\r\nUpgrade: websocket\r\nConnection: Upgrade\r\n\r\n";
            uint32_t calls = s.below(4), how = s.below(breakKinds), odd = s.below(6);
            Time span = s.below(6000) * us;
            c->onOpen = [c, calls, odd, span, how, &s] {
                for (uint32_t k = 0; k < calls; ++k) W->after(s.below(3000) * us, [c, &s] { if (c->usable()) c->call("echo", {Value::string(anyText(s, s.below(400)))}); });
                if (odd == 0) c->sendFrame(false, 2, randomBytes(s, s.below(3000)));
                if (odd == 1) c->conn->send("\x82\xfe\x40\x00zzzz" + randomBytes(s, s.below(3000)));
                if (odd == 2) c->sendMessage(s, 2, std::string(1, '\x03') + randomBytes(s, s.below(40)));
                if (odd == 3) for (int k = 0; k < 5; ++k) c->sendFrame(true, 9, "ping");
                W->after(span, [c, how] { breakNow(c, how); });
            };
            W->at(start, [c] { c->open(port); });
            if (s.chance(200)) W->at(start + s.below(2000) * us, [c, how] { breakNow(c, how); });
            W->at(start + 2 * sec, [c, how] { breakNow(c, how); });
            W->at(start + 2 * sec + 1, [c] { if (c->conn && !c->ended && !c->conn->clientReset) c->conn->close(); });
            pages.push_back(std::move(up));
        }
    }
};
void c20() {
    auto& s = W->stream("c20");
    wfKnobs();
    drawLog(s, 150);
    auto site = makeDiskSite(s, std::min<size_t>(bodyLimit(), 9000), 4);
    trackServerAllocations(true);
    WfApp app;
    app.host.useRunOne = s.chance(300);
    if (!app.create()) return;
    size_t uis = 0;
    app.onUi = [&](UiRec& u) {
        ++uis;
        app.script(u, "hello");
        app.call(u, "greet", "you");
    };
    inServer([&] { app.host->cppFunction<void, std::string>("echo", [&](std::string t) { OutOfServer o; for (auto& u : app.uis) if (u->conn == NW->running) app.script(*u, t); }); });
    uint32_t scale = 1 + s.scale(1, 5, 20); // how many clients there are at once
    uint32_t rounds = 9 + s.below(3);
    std::vector<int64_t> bytes, blocks;
    size_t total = 0;
    // some clients stay all the time
    std::vector<std::unique_ptr<HttpClient>> idle;
    std::vector<std::unique_ptr<SimPage>> staying;
    uint32_t stay = s.chance(500) ? 0 : s.scale(1, 12, 40);
    for (uint32_t i = 0; i < stay; ++i) {
        if (s.chance(500)) {
            auto c = idle.emplace_back(std::make_unique<HttpClient>()).get();
            W->after(s.below(3000) * us, [c] { c->start(port); });
        }
        else {
            auto c = staying.emplace_back(std::make_unique<SimPage>()).get();
            c->rnd = &s;
            W->after(s.below(3000) * us, [c] { c->open(port); });
        }
    }
    app.host.settle();
    for (uint32_t r = 0; r < rounds; ++r) {
        if (W->done()) return;
        {
            Crowd crowd;
            crowd.play(r, site, scale);
            app.host.settle();
            if (W->done()) return;
            for (auto& c : crowd.pages) {
                if (c->conn->accepted && !c->conn->serverClosed) { W->violate("socket-left", "round " + std::to_string(r) + ": the socket of connection " + std::to_string(c->conn->id) + " (a page that has left" + (c->upgraded ? "" : ", never upgraded") + ") is still open"); return; }
                total++;
            }
            for (auto& c : crowd.https) {
                if (c->conn->accepted && !c->conn->serverClosed) { W->violate("socket-left", "round " + std::to_string(r) + ": the socket of connection " + std::to_string(c->conn->id) + " (" + printable(c->request, 100) + ") is still open"); return; }
                total++;
            }
            if (SockImpl::open != int(stay)) { W->violate("socket-left", std::to_string(SockImpl::open) + " sockets are open for " + std::to_string(stay) + " connected clients"); return; }
            for (auto& c : staying) if (!c->acked || c->ended) { W->violate("closed", c->who() + ", which stays, is no longer connected"); return; }
            for (auto& c : idle) if (c->ended) { W->violate("closed", "an idle connection was ended"); return; }
            for (auto& c : crowd.pages) c->conn->cb = {};
            for (auto& c : crowd.https) c->conn->cb = {};
            app.uis.clear();
        }
        bytes.push_back(serverLiveBytes());
        blocks.push_back(serverLiveBlocks());
    }
    std::string history;
    for (auto b : bytes) history += " " + std::to_string(b);
    constexpr size_t warm = 3;
    auto growth = bytes.back() - bytes[warm];
    bool rising = true;
    for (size_t i = warm + 1; i < bytes.size(); ++i) rising = rising && bytes[i] > bytes[i - 1];
    if (rising || growth >= 3000 * scale) W->violate("memory-left", "memory held by the server after every client has left, round after round:" + history + " bytes");
    W->probe("connections", total);
    W->probe("uis", uis);
    if (total > 10) W->nontrivial = true;
    W->sample = std::to_string(rounds) + " rounds, " + std::to_string(total) + " connections, bytes after each round:" + history;
}

// ---------------------------------------------------------------- C21
void c21() {
    auto& s = W->stream("c21");
    wfKnobs();
    auto site = makeDiskSite(s, bodyLimit(), 4);
    drawLog(s, 200);
    auto sinks = [] { size_t n = 0; for (auto& f : webfront::log::Sinks::sinks) n += f != nullptr; return n; };
    auto baseSinks = sinks();
    trackServerAllocations(true);
    uint32_t generations = 2 + s.below(3), most = 0;
    std::vector<std::unique_ptr<SimPage>> pages;
    struct Http : HttpClient { GenReq req; };
    std::vector<std::unique_ptr<Http>> https;
    std::vector<int64_t> bytes;
    for (uint32_t g = 0; g < generations && !W->done(); ++g) {
        bool lastOne = g + 1 == generations;
        size_t firstPage = pages.size(), firstHttp = https.size();
        {
            WfApp app;
            app.host.useRunOne = s.chance(300);
            bool alive = true;
            if (!app.create()) return;
            auto called = [&](const char* what) { if (!alive) W->violate("late-callback", std::string(what) + " ran after the server had been destroyed"); };
            app.onUi = [&](UiRec& u) {
                called("the UI handler");
                for (uint32_t k = s.below(4); k--;) app.script(u, anyText(s, s.below(static_cast<uint32_t>(bodyLimit() / 4))));
            };
            inServer([&] {
                app.host->cppFunction<void, std::string>("echo", [&](std::string t) { OutOfServer o; called("a C++ function"); for (auto& u : app.uis) if (u->conn == NW->running) app.script(*u, t); });
            });
            uint32_t n = 1 + s.scale(7, 40, 90);
            most = std::max(most, n);
            for (uint32_t i = 0; i < n; ++i) {
                Time start = W->now() + (s.chance(300) ? 0 : s.below(8000) * us);
                if (s.chance(450)) {
                    auto up = std::make_unique<Http>();
                    auto c = up.get();
                    c->req = genRequest(s, site, lastOne ? ReqMix{8, 2, 2, 2, 2, 0, 0} : ReqMix{8, 2, 2, 2, 2, 0, 1});
                    c->request = c->req.bytes;
                    W->at(start, [c] { c->start(port); });
                    https.push_back(std::move(up));
                    continue;
                }
                auto up = std::make_unique<SimPage>();
                auto c = up.get();
                auto& ps = W->stream("page" + std::to_string(pages.size()));
                c->key = keyFor(s);
                c->rnd = &ps;
                uint32_t calls = ps.below(6);
                c->onOpen = [c, calls, &ps] { for (uint32_t k = 0; k < calls; ++k) W->after(ps.below(4000) * us, [c, &ps] { if (c->usable()) c->sendMessage(ps, 2, encodeCall("echo", {Value::string(randomText(ps, ps.below(300)))})); }); };
                W->at(start, [c] { c->open(port); });
                if (!lastOne) {
                    stall(s, c, start);
                    if (s.chance(250)) { uint32_t how = s.below(breakKinds); W->at(start + s.below(6000) * us, [c, how] { breakNow(c, how); }); }
                }
                pages.push_back(std::move(up));
            }
            if (!lastOne) {
                if (s.chance(300)) W->after(s.below(12000) * us, [] { NW->breakRun = true; });
                else { // after a number of events: any instant, also in the middle of a burst
                    uint32_t steps = s.below(400);
                    auto tick = std::make_shared<std::function<void(uint32_t)>>();
                    Time quantum = 1 + s.below(60) * us;
                    *tick = [tick, quantum](uint32_t left) { if (left) W->after(left % 3 ? 0 : quantum, [tick, left] { (*tick)(left - 1); }); else NW->breakRun = true; };
                    (*tick)(steps);
                }
                app.host.settle();
                if (W->done()) return;
                W->fault(Fault::ServerDestroyed);
                int open = SockImpl::open;
                if (open) W->nontrivial = true;
                W->probe("sockets_open_at_destruction", static_cast<uint64_t>(open));
                app.host.destroy();
                alive = false;
                if (W->done()) return;
                if (SockImpl::open) { W->violate("socket-left", std::to_string(SockImpl::open) + " sockets are still open after the destruction of the server"); return; }
                if (NW->hasListener(port)) { W->violate("socket-left", "the listening socket is still open after the destruction of the server"); return; }
                if (sinks() != baseSinks) { W->violate("sink-left", std::to_string(sinks() - baseSinks) + " log sinks are left after the destruction of the server"); return; }
                inServer([] { webfront::log::error("after the destruction"); });
                // the world goes on without the server, or partly so
                if (s.chance(500)) drainWorld();
                else for (uint32_t k = s.below(60); k-- && W->step();) {}
                if (W->done()) return;
                app.uis.clear();
            }
            else {
                app.host.settle();
                if (W->done()) return;
                for (size_t i = firstHttp; i < https.size(); ++i) {
                    auto& c = *https[i];
                    auto why = judgeReply(c.req, c.received);
                    if (why.empty() && !c.ended) why = "connection left open";
                    if (!why.empty()) { W->violate("restart", "after " + std::to_string(g) + " destructions, " + describe(c.req) + ": " + why); return; }
                }
                for (size_t i = firstPage; i < pages.size(); ++i) {
                    auto& c = *pages[i];
                    if (!checkPage(c)) return;
                    auto u = app.of(c.conn->id);
                    if (!c.acked || !u) { W->violate("restart", "after " + std::to_string(g) + " destructions, " + c.who() + " got no link"); return; }
                    auto why = compareSent(u->sent, received(c), true);
                    if (!why.empty()) { W->violate("restart", "after " + std::to_string(g) + " destructions, " + c.who() + ": " + why); return; }
                }
                alive = false; // its end is only judged by the sanitizers
            }
        }
        bytes.push_back(serverLiveBytes());
        if (lastOne) { drainWorld(); if (W->done()) return; if (SockImpl::open) { W->violate("socket-left", "sockets are open after the destruction of the last server"); return; } }
    }
    for (auto& c : https) {
        if (!c->conn || !c->conn->connected) continue;
        if (!c->ended && !c->conn->clientClosed && !c->conn->clientReset && c->conn->accepted) { W->violate("not-ended", "the HTTP client on connection " + std::to_string(c->conn->id) + " never saw the end of its connection"); return; }
        if (c->req.complete && !c->received.empty()) { // at most a prefix of the due reply
            auto p = HttpReply::parse(c->received);
            if (p.headersComplete) {
                if (p.status != c->req.status) { W->violate("altered-reply", describe(c->req) + ": status " + std::to_string(p.status)); return; }
                if (p.status == 200 && !c->req.head() && !std::string_view(c->req.file->content).starts_with(p.body)) { W->violate("altered-reply", describe(c->req) + ": the body is no prefix of the file"); return; }
            }
            else if (!std::string_view("HTTP/1.").starts_with(std::string_view(c->received).substr(0, 7)) ) { W->violate("altered-reply", describe(c->req) + ": received " + printable(c->received)); return; }
        }
    }
    for (auto& c : pages) {
        if (!checkPage(*c)) return;
        if (c->conn->connected && c->conn->accepted && !c->ended && !c->conn->clientClosed && !c->conn->clientReset) { W->violate("not-ended", c->who() + " never saw the end of its connection"); return; }
    }
    std::string history;
    for (auto b : bytes) history += " " + std::to_string(b);
    if (bytes.size() > 2 && bytes.back() - bytes.front() > 4000 + 128 * static_cast<int64_t>(most)) W->violate("memory-left", "memory held after the destruction of each server:" + history + " bytes");
    W->sample = std::to_string(generations) + " servers, " + std::to_string(https.size()) + " HTTP clients, " + std::to_string(pages.size()) + " pages, bytes left:" + history;
}

// ---------------------------------------------------------------- C24: several servers in one process
void c24() {
    auto& s = W->stream("c24");
    wfKnobs();
    drawLog(s, 250);
    auto sinks = [] { size_t n = 0; for (auto& f : webfront::log::Sinks::sinks) n += f != nullptr; return n; };
    struct Heard { uint64_t conn; std::string text; };
    struct Slot {
        uint32_t index = 0;
        uint16_t port = 0;
        Site site;
        std::unique_ptr<WfApp> app;
        Io* io = nullptr;
        bool destroyed = false;
        std::vector<Heard> heard;
    };
    std::vector<std::unique_ptr<Slot>> servers;
    auto rootOf = [](const Slot& k) { return disk.root + "/s" + std::to_string(k.index); };
    size_t limit = std::min<size_t>(bodyLimit(), 40000);
    uint32_t count = 2 + s.below(2);
    auto name = [](const Slot& k) { return "server " + std::to_string(k.index) + " (port " + std::to_string(k.port) + ")"; };
    auto create = [&](Slot& k) {
        disk.mkdirs(rootOf(k));
        for (auto& f : k.site.files) disk.write(rootOf(k) + "/" + f.path, f.content);
        k.app = std::make_unique<WfApp>();
        auto app = k.app.get();
        if (!app->create(true, std::to_string(k.port), rootOf(k))) return false;
        k.io = Io::all.back();
        k.destroyed = false;
        app->onUi = [&s, app, &k](UiRec& u) {
            for (uint32_t n = s.below(4); n--;) app->script(u, "of server " + std::to_string(k.index) + ": " + anyText(s, s.below(300)));
            if (s.chance(500)) app->call(u, "greet" + std::to_string(k.index), "you");
        };
        inServer([&] {
            app->host->cppFunction<void, std::string>("echo", [&s, &k, app](std::string t) {
                OutOfServer o;
                if (k.destroyed) W->violate("late-callback", "a C++ function of a destroyed server was called");
                k.heard.push_back({NW->running, t});
                for (auto& u : app->uis) if (u->conn == NW->running) app->script(*u, "echo of server " + std::to_string(k.index) + ": " + t);
            });
            app->host->cppFunction<void, std::string>("only" + std::to_string(k.index), [&k](std::string t) { OutOfServer o; k.heard.push_back({NW->running, "only:" + t}); });
        });
        return true;
    };
    // on a port that is taken, a server cannot be created and nothing changes
    auto createTwice = [&](Slot& k) {
        auto open = SockImpl::open;
        auto listening = NW->ports.size();
        auto sunk = sinks();
        bool thrown = false;
        try {
            InServer in;
            auto second = std::make_unique<WF>(std::to_string(k.port), rootOf(k));
        }
        catch (const std::exception&) { thrown = true; }
        W->probe("creations_on_a_taken_port");
        if (!thrown) W->violate("port-taken", "a second server was created on a port that is taken");
        else if (SockImpl::open != open || NW->ports.size() != listening || sinks() != sunk) W->violate("creation-left", "a server that could not be created left something behind");
    };
    struct Http : HttpClient { GenReq req; };
    struct Client { Slot* slot; bool doomed; std::unique_ptr<SimPage> page; std::unique_ptr<Http> http; std::vector<std::string> said; std::vector<std::string> only; size_t strangers = 0; };
    std::vector<std::unique_ptr<Client>> clients;
    std::vector<Time> ends(count, 0);
    for (uint32_t k = 0; k < count; ++k) {
        auto& slot = *servers.emplace_back(std::make_unique<Slot>());
        slot.index = k;
        slot.port = static_cast<uint16_t>(80 + 8000 * k);
        slot.site = makeDiskSite(s, limit, 4);
        for (auto& f : slot.site.files) if (s.chance(700)) f.content += "server " + std::to_string(k); // the same names, other contents
        if (k && s.chance(600)) { // shares names with the first
            slot.site.files = servers[0]->site.files;
            for (auto& f : slot.site.files) f.content = "of server " + std::to_string(k) + " " + f.content.substr(0, f.content.size() / 2);
        }
        if (k && s.chance(400)) ends[k] = W->now() + 1 + s.below(12000) * us;
    }
    disk.wipe();
    for (auto& k : servers) if (!create(*k)) return;
    for (auto& k : servers) {
        auto& slot = *k;
        uint32_t n = 1 + s.scale(5, 25, 80);
        for (uint32_t i = 0; i < n; ++i) {
            auto& c = *clients.emplace_back(std::make_unique<Client>());
            c.slot = &slot;
            c.doomed = ends[slot.index] != 0;
            Time start = W->now() + (s.chance(300) ? 0 : s.below(8000) * us);
            if (s.chance(400)) {
                c.http = std::make_unique<Http>();
                auto h = c.http.get();
                h->req = genRequest(s, slot.site, ReqMix{8, 2, 2, 2, 2, 0, 0});
                h->request = h->req.bytes;
                W->at(start, [h, &slot] { h->start(slot.port); });
                continue;
            }
            c.page = std::make_unique<SimPage>();
            auto p = c.page.get();
            auto& ps = W->stream("page" + std::to_string(clients.size()));
            p->key = keyFor(s);
            p->rnd = &ps;
            uint32_t calls = ps.below(6), others = count;
            p->onOpen = [&c, p, calls, others, &ps] {
                for (uint32_t j = 0; j < calls; ++j)
                    W->after(ps.below(6000) * us, [&c, p, j, others, &ps] {
                        if (!p->usable()) return;
                        auto t = "from " + std::to_string(p->conn->id) + " #" + std::to_string(j) + " " + anyText(ps, ps.below(200));
                        auto what = ps.below(4);
                        if (what == 0) { auto of = ps.below(others); p->call("only" + std::to_string(of), {Value::string(t)}); if (of == c.slot->index) c.said.push_back("only:" + t); else ++c.strangers; return; }
                        c.said.push_back(t);
                        p->call("echo", {Value::string(t)});
                    });
            };
            W->at(start, [p, &slot] { p->open(slot.port); });
            stall(s, p, start);
            if (s.chance(250)) { p->broken = true; uint32_t how = s.below(breakKinds); W->at(start + s.below(8000) * us, [p, how] { breakNow(p, how); }); }
        }
    }
    std::vector<uint32_t> doomed;
    for (uint32_t k = 0; k < count; ++k)
        if (ends[k]) W->at(ends[k], [&doomed, k] { doomed.push_back(k); });
    for (uint32_t k = s.below(3); k--;) W->at(W->now() + s.below(12000) * us, [&, k] { auto& slot = *servers[k % count]; if (!slot.destroyed) createTwice(slot); });
    // every server runs one handler at a time, in an order that is part of the schedule
    NW->idle = NW->breakRun = false;
    auto& turn = W->stream("turn");
    while (!W->done()) {
        while (!doomed.empty()) {
            auto& k = *servers[doomed.back()];
            doomed.pop_back();
            W->fault(Fault::ServerDestroyed);
            k.destroyed = true;
            k.io = nullptr;
            k.app->host.destroy();
            if (W->done()) return;
            if (NW->hasListener(k.port)) { W->violate("socket-left", name(k) + " still listens after its destruction"); return; }
            createTwice(*servers[0]);
        }
        std::vector<Slot*> ready;
        for (auto& k : servers) if (!k->destroyed && k->io->pendingHandlers()) ready.push_back(k.get());
        if (ready.empty()) { if (!W->step()) break; continue; }
        auto& k = *ready[turn.below(static_cast<uint32_t>(ready.size()))];
        try { k.app->host->runOne(); }
        catch (const std::exception& e) { W->inServer = 0; W->violate("exception-escaped", "an exception left the event loop of " + name(k) + ": " + e.what()); return; }
        if (NW->loopEnded) { W->violate("loop-ended", "the event loop of " + name(k) + " ended"); return; }
    }
    if (W->done()) return;
    for (auto& up : clients) {
        auto& c = *up;
        auto& k = *c.slot;
        auto who = (c.page ? c.page->who() : "HTTP client on connection " + std::to_string(c.http->conn->id)) + " of " + name(k);
        if (c.http) {
            auto& h = *c.http;
            if (c.doomed) {
                auto p = HttpReply::parse(h.received);
                if (p.headersComplete && p.status != h.req.status) { W->violate("altered-reply", who + ": " + describe(h.req) + ": status " + std::to_string(p.status)); return; }
                if (p.headersComplete && p.status == 200 && !h.req.head() && !std::string_view(h.req.file->content).starts_with(p.body)) { W->violate("altered-reply", who + ": " + describe(h.req) + ": the body is no prefix of its server's file"); return; }
                if (h.conn->accepted && !h.ended) { W->violate("not-ended", who + " never saw the end of its connection"); return; }
                continue;
            }
            auto why = judgeReply(h.req, h.received);
            if (why.empty() && !h.ended) why = "connection left open";
            if (!why.empty()) { W->violate("reply", who + ": " + describe(h.req) + ": " + why); return; }
            W->probe("replies");
            continue;
        }
        auto& p = *c.page;
        bool refused = c.doomed && !p.upgraded;
        if (!refused && !checkPage(p)) return;
        for (auto& other : servers)
            if (other.get() != &k && other->app->count(p.conn->id)) { W->violate("wrong-server", who + " got a UI of " + name(*other)); return; }
        auto u = k.app->of(p.conn->id);
        bool free = p.broken || c.doomed;
        if (!free && (!p.acked || k.app->count(p.conn->id) != 1)) { W->violate("no-link", who + " has " + std::to_string(k.app->count(p.conn->id)) + " UIs"); return; }
        if (u) {
            auto why = compareSent(u->sent, received(p), !free);
            if (!why.empty()) { W->violate("outbound", who + ": " + why); return; }
        }
        std::vector<std::string> heard;
        for (auto& h : k.heard) if (h.conn == p.conn->id) heard.push_back(h.text);
        bool same = heard.size() <= c.said.size() && std::equal(heard.begin(), heard.end(), c.said.begin());
        if (!same || (!free && heard.size() != c.said.size())) { W->violate("inbound", who + ": " + std::to_string(heard.size()) + " invocations for " + std::to_string(c.said.size()) + " calls, or not the same ones"); return; }
        for (auto& other : servers)
            if (other.get() != &k)
                for (auto& h : other->heard) if (h.conn == p.conn->id) { W->violate("wrong-server", who + " called a function of " + name(*other)); return; }
        size_t returns = 0;
        for (auto& e : p.events) returns += e.kind == Page::Event::Return;
        if (returns > c.strangers || (!free && returns != c.strangers)) { W->violate("stranger", who + " called " + std::to_string(c.strangers) + " functions which only another server has and was answered " + std::to_string(returns) + " times"); return; }
        if (!free && p.ended) { W->violate("closed", who + ": its server ended the connection"); return; }
        if (c.doomed && p.conn->accepted && !p.ended && !p.conn->clientClosed && !p.conn->clientReset) { W->violate("not-ended", who + " never saw the end of its connection"); return; }
        W->probe("pages");
        W->nontrivial = true;
    }
    W->sample = std::to_string(count) + " servers, " + std::to_string(clients.size()) + " clients";
    for (auto& k : servers) if (!k->destroyed) k->app->host.destroy();
    if (!W->done() && SockImpl::open) W->violate("socket-left", "sockets are open after the destruction of every server");
}

Register r24("C24", "servers", c24);
Register r17("C17", "links", c17), r18("C18", "log", c18), r20("C20", "rounds", c20), r21("C21", "destruction", c21);
#ifdef SIM_FAST
Register r17m("C17", "marathon", marathon);
#else
[[maybe_unused]] auto unusedMarathon = marathon;
#endif
} // namespace
