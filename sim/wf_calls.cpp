// Scenarios over a whole WebFront: C13 (lost clients), C14 (calls and scripts to pages), C15 (calls from pages), C16 (handshakes)
#include "wf_kit.hpp"
#include "wf_shapes.hpp"
#include <cmath>
#include <limits>

using namespace sim;

namespace {
std::string keyFor(Stream& s) { return sim::base64(randomBytes(s, 16)); }

// ---------------------------------------------------------------- C13
void c13() {
    auto& s = W->stream("c13");
    wfKnobs();
    bool logging = drawLog(s);
    WfApp app;
    app.host.useRunOne = s.chance(300);
    if (!app.create()) return;
    std::vector<std::pair<uint64_t, std::string>> notes;
    inServer([&] { app.host->cppFunction<void, std::string>("note", [&](std::string t) { OutOfServer o; W->trace("note", NW->running); notes.emplace_back(NW->running, t); }); });
    std::map<uint64_t, std::unique_ptr<Fn>> fns;
    std::vector<std::unique_ptr<SimPage>> pages;
    size_t big = std::min<size_t>(20000, bodyLimit());
    uint32_t n = 2 + s.scale(4, 30, 150);
    uint32_t chatter = n > 30 ? s.below(1 + 360 / n) : s.scale(12, 150, 1200);
    if (logging) chatter = std::min<uint32_t>(chatter, 1 + 300 / n); // every message is logged on every page
    if (chatter > 20) big = std::max<size_t>(300, big * 12 / chatter);
    app.onUi = [&](UiRec& u) {
        auto rec = &u;
        fns[u.conn] = inServer([&] { return std::make_unique<Fn>(u.ui.jsFunction("f")); });
        Time t = 0;
        for (uint32_t i = 0; i < chatter; ++i) {
            auto size = s.chance(700) ? s.below(200) : s.below(static_cast<uint32_t>(big));
            auto act = [&app, &fns, &s, rec, size] {
                if (!app.host.s) return;
                auto text = patternBytes(size, size);
                bool ok = s.chance(500) ? app.script(*rec, text) : app.call(*rec, *fns[rec->conn], "f", text);
                (void)ok;
            };
            if (t == 0) act();
            else W->after(t, act);
            t += s.chance(400) ? 0 : s.below(5000) * us;
        }
    };
    bool anyBreak = false;
    for (uint32_t i = 0; i < n; ++i) {
        auto up = std::make_unique<SimPage>();
        auto c = up.get();
        auto& ps = W->stream("page" + std::to_string(i));
        c->key = keyFor(s);
        c->rnd = &ps;
        c->shook = true;
        Time start = W->now() + (s.chance(500) ? 0 : s.below(5000) * us);
        uint32_t how = s.below(breakKinds);
        bool breaks = s.chance(650) || (i + 1 == n && !anyBreak);
        anyBreak = anyBreak || breaks;
        bool late = how == 4 && s.chance(700);
        bool stuck = breaks && (how == 3 || how == 6) && s.chance(500); // it has stopped reading before it leaves: what the server was writing never completes
        if (stuck) W->at(start + s.below(15000) * us, [c] { if (c->upgraded) c->conn->pauseReading(); });
        auto leave = [c, how, late] {
            bool was = c->usable();
            if (late && was) { // the close frame and what follows travel together
                c->broken = true;
                c->queueFrame(true, 8, std::string("\x03\xe9", 2));
                c->out += wsEncode(true, 2, encodeCall("note", {Value::string("late")}), true, 77);
                c->flush();
                return;
            }
            breakNow(c, how);
        };
        uint32_t calls = ps.below(4);
        c->onOpen = [c, calls, &ps] { for (uint32_t k = 0; k < calls; ++k) W->after(ps.below(3000) * us, [c] { if (c->usable()) c->call("note", {Value::string("early")}); }); };
        W->at(start, [c] { c->open(port); });
        stall(s, c, start);
        if (breaks) {
            c->broken = true; // decided now: the moment may come before anything else has happened
            switch (s.below(3)) {
            case 0: { Time when = start + s.below(30000) * us; W->at(when, [c, leave] { c->broken = false; leave(); c->broken = true; }); } break;
            case 1: {
                uint32_t after = 1 + s.below(6);
                c->onEvent = [c, leave, after](const Page::Event&) { if (c->events.size() == after) W->after(0, leave); };
            } break;
            default: {
                uint32_t bytes = s.below(static_cast<uint32_t>(big));
                W->at(start, [c, leave, bytes] {
                    auto inner = c->conn->cb.onData;
                    c->conn->cb.onData = [c, inner, leave, bytes, done = false](std::string_view d) mutable {
                        inner(d);
                        if (!done && c->conn->bytesDelivered >= bytes) { done = true; W->after(0, leave); }
                    };
                });
            }
            }
            // at the latest it leaves here
            W->at(start + 1500 * ms, leave);
        }
        pages.push_back(std::move(up));
    }
    app.host.settle();
    if (W->done()) return;
    for (auto& [conn, t] : notes)
        if (t != "early") { W->violate("after-close", "a call that a page sent after its close frame was processed"); return; }
    int alive = 0;
    for (auto& c : pages) {
        if (!checkPage(*c)) return;
        auto u = app.of(c->conn->id);
        if (c->broken) {
            if (c->conn->accepted && !c->conn->serverClosed) { W->violate("not-released", c->who() + " has left and its socket is still open"); return; }
            if (!u) continue;
            W->probe("lost_links");
            W->nontrivial = true;
            for (int k = 0; k < 2; ++k) {
                if (app.script(*u, "lost")) { W->violate("silently-lost", c->who() + " is gone and a script for it was accepted"); return; }
                if (app.call(*u, *fns[u->conn], "f", "lost")) { W->violate("silently-lost", c->who() + " is gone and a call of a function object for it was accepted"); return; }
                if (app.call(*u, "g", "lost")) { W->violate("silently-lost", c->who() + " is gone and a call of a new function object for it was accepted"); return; }
            }
            continue;
        }
        ++alive;
        if (!u) { W->violate("no-ui", c->who() + " is connected and has no UI"); return; }
        if (!app.script(*u, "still here") || !app.call(*u, *fns[u->conn], "f", "still here")) { W->violate("link-disturbed", c->who() + " is connected and a message for it was refused: " + WfApp::lastError()); return; }
        c->call("note", {Value::string("last")});
    }
    if (SockImpl::open != alive) { W->violate("not-released", std::to_string(SockImpl::open) + " sockets are open for " + std::to_string(alive) + " connected pages"); return; }
    app.host.settle();
    if (W->done()) return;
    for (auto& c : pages) {
        if (!checkPage(*c)) return;
        auto u = app.of(c->conn->id);
        if (!u) continue;
        auto why = compareSent(u->sent, received(*c), !c->broken);
        if (!why.empty()) { W->violate("delivery", c->who() + (c->broken ? " (has left): " : ": ") + why); return; }
        size_t last = 0;
        for (auto& [conn, t] : notes) last += conn == c->conn->id && t == "last";
        if (last != (c->broken ? 0 : 1)) { W->violate("link-disturbed", c->who() + ": a call of it was processed " + std::to_string(last) + " times"); return; }
        if (!c->broken && (c->ended || c->conn->serverClosed)) { W->violate("link-disturbed", c->who() + ": its connection was closed by the server"); return; }
    }
    W->sample = std::to_string(n) + " pages, " + std::to_string(n - static_cast<uint32_t>(alive)) + " left, window " + std::to_string(W->knobs.window);
}

// ---------------------------------------------------------------- C14
void c14() {
    auto& s = W->stream("c14");
    wfKnobs();
    drawLog(s, 80);
    stringBudget = std::min<size_t>(400000, 4 * bodyLimit());
    WfApp app;
    app.host.useRunOne = s.chance(300);
    if (!app.create()) return;
    struct Fns { std::vector<std::pair<std::string, std::unique_ptr<Fn>>> list; };
    std::map<UiRec*, Fns> fns;
    size_t refused = 0;
    auto op = [&](UiRec& u, Stream& ps) {
        if (W->done()) return;
        uint32_t what = ps.below(10);
        if (what < 3) {
            bool over = ps.chance(100);
            auto text = over ? std::string(65536 + ps.below(2) * 5000, 'z') : genString(ps);
            size_t before = u.sent.size();
            bool ok = app.script(u, text);
            if (over && ok) { W->violate("not-refused", "a script of " + std::to_string(text.size()) + " bytes was not refused"); return; }
            (void)before;
            refused += over;
            return;
        }
        auto& mine = fns[&u].list;
        size_t which = ps.below(static_cast<uint32_t>(mine.size()) + 1);
        if (which == mine.size()) { // a new function object
            std::string name = ps.chance(700) ? "fn" + std::to_string(which) : genString(ps);
            mine.emplace_back(name, inServer([&] { return std::make_unique<Fn>(u.ui.jsFunction(name)); }));
        }
        auto& [name, f] = mine[which];
        uint32_t shape = ps.below(shapes);
        Sent sent{true, name, {}};
        W->trace("app-shape", u.conn, shape);
        try {
            callShape(*f, shape, ps, sent.params);
            if (shape >= refusedShapes) { W->violate("not-refused", "a call that the protocol cannot express was not refused (shape " + std::to_string(shape) + ")"); return; }
            u.sent.push_back(std::move(sent));
        }
        catch (const std::exception& e) {
            W->inServer = 0;
            if (shape >= refusedShapes) ++refused;
            else WfApp::lastError() = e.what(); // allowed only for a lost page, checked by the comparison at the end
            W->trace("refused", shape);
        }
    };
    std::vector<std::unique_ptr<SimPage>> pages;
    uint32_t n = 1 + s.scale(4, 30, 120);
    app.onUi = [&](UiRec& u) {
        auto& ps = W->stream("ui" + std::to_string(app.uis.size()));
        auto rec = &u;
        uint32_t ops = 1 + (n > 30 ? ps.below(1 + 420 / n) : ps.scale(14, 150, 1000));
        bool burst = ps.chance(500);
        Time t = 0;
        for (uint32_t i = 0; i < ops; ++i) {
            if (t == 0) op(u, ps);
            else W->after(t, [&app, op, rec, &ps] { if (app.host.s) op(*rec, ps); });
            if (!burst || ps.chance(200)) t += ps.below(4000) * us;
        }
    };
    // calls issued from within a C++ function, for any page
    inServer([&] {
        app.host->cppFunction<void, double>("poke", [&](double k) {
            OutOfServer o;
            if (app.uis.empty()) return;
            op(*app.uis[static_cast<size_t>(k) % app.uis.size()], W->stream("poke"));
        });
    });
    for (uint32_t i = 0; i < n; ++i) {
        auto up = std::make_unique<SimPage>();
        auto c = up.get();
        auto& ps = W->stream("page" + std::to_string(i));
        c->key = keyFor(s);
        c->rnd = &ps;
        Time start = W->now() + (s.chance(500) ? 0 : s.below(5000) * us);
        uint32_t pokes = ps.chance(400) ? 1 + ps.below(3) : 0;
        c->onOpen = [c, pokes, &ps] { for (uint32_t k = 0; k < pokes; ++k) W->after(ps.below(6000) * us, [c, &ps] { if (c->usable()) c->call("poke", {Value::number(ps.below(8))}); }); };
        W->at(start, [c] { c->open(port); });
        stall(s, c, start);
        if (s.chance(200)) { uint32_t how = s.below(breakKinds); W->at(start + s.below(40000) * us, [c, how] { breakNow(c, how); c->broken = true; }); c->broken = true; }
        pages.push_back(std::move(up));
    }
    app.host.settle();
    if (W->done()) return;
    size_t total = 0;
    for (auto& c : pages) {
        if (!checkPage(*c)) return;
        auto u = app.of(c->conn->id);
        if (!u) { if (!c->broken) { W->violate("no-ui", c->who() + " has no UI"); return; } continue; }
        auto got = received(*c);
        auto why = compareSent(u->sent, got, !c->broken);
        if (!why.empty()) { W->violate("delivery", c->who() + (c->broken ? " (has left): " : ": ") + why + (WfApp::lastError().empty() ? "" : " (last refusal: " + WfApp::lastError() + ")")); return; }
        if (!c->broken && c->ended) { W->violate("closed", c->who() + ": the server ended the connection"); return; }
        total += got.size();
    }
    W->probe("items_delivered", total);
    W->probe("refused", refused);
    if (total) W->nontrivial = true;
    W->sample = std::to_string(n) + " pages, " + std::to_string(total) + " calls and scripts, " + std::to_string(refused) + " refused, window " + std::to_string(W->knobs.window);
}

// ---------------------------------------------------------------- C15
Value wrong(const Gen& g, Stream& s) { // a value of another type
    for (;;) {
        Value v;
        switch (s.below(5)) {
        case 0: v = Value::boolean(s.below(2)); break;
        case 1: v = Value::number(s.below(100)); break;
        case 2: v = Value::string(anyText(s, s.below(10))); break;
        case 3: v = Value::tuple({Value::number(1)}); break;
        default: if (g.k == Gen::T) { v = gen(g, s); if (s.chance(500) && !v.t.empty()) v.t.pop_back(); else v.t.push_back(Value::number(1)); return v; } continue;
        }
        bool same = (v.kind == Value::Bool && g.k == Gen::B) || (v.kind == Value::Number && (g.k == Gen::I || g.k == Gen::D || g.k == Gen::U8 || g.k == Gen::LL)) || (v.kind == Value::String && g.k == Gen::S) || (v.kind == Value::Tuple && g.k == Gen::T);
        if (!same) return v;
    }
}
std::string encodeLoose(Stream& s, const Value& v) { // also the longer form of a string's size
    if (v.kind == Value::String && v.s.size() < 256 && s.chance(150)) return std::string(1, 5) + static_cast<char>(v.s.size()) + std::string(1, '\0') + v.s;
    if (v.kind == Value::Tuple) { std::string r(1, 18); r += static_cast<char>(v.t.size()); for (auto& e : v.t) r += encodeLoose(s, e); return r; }
    return encodeValue(v);
}
std::string callMessage(const std::string& payload, size_t count, uint64_t size) {
    std::string r(1, 3);
    r += static_cast<char>(count);
    r += std::string(2, '\0');
    for (int i = 0; i < 4; ++i) r += static_cast<char>(size >> (8 * i));
    return r + payload;
}
void c15() {
    auto& s = W->stream("c15");
    wfKnobs();
    drawLog(s, 80);
    stringBudget = std::min<size_t>(300000, 4 * bodyLimit());
    WfApp app;
    app.host.useRunOne = s.chance(300);
    if (!app.create()) return;
    std::vector<Invoked> invoked;
    std::vector<Registered> table;
    auto note = [&invoked](const std::string& name, const auto&... v) {
        OutOfServer o;
        W->trace("invoked", NW->running, hashStr(name));
        invoked.push_back({NW->running, name, {toValue(v)...}});
        invoked.back().params.shrink_to_fit();
    };
    auto longName = randomText(s, 256 + s.below(100));
    const std::string oddName("na\0me \xc3\xa9", 8);
    using T2 = std::tuple<int, std::string>;
    using NT = std::tuple<bool, std::tuple<double, std::string>, int>;
    using Str = std::string;
    using WideT = decltype(std::tuple_cat(std::tuple<int, bool, Str, double>(), std::tuple<int, bool, Str, double>(), std::tuple<int, bool, Str, double>(), std::tuple<int, bool, Str, double>(), std::tuple<int, bool, Str, double>(),
                                          std::tuple<int, bool, Str, double>(), std::tuple<int, bool, Str, double>(), std::tuple<int, bool, Str, double>(), std::tuple<int, bool, Str, double>(), std::tuple<int, bool, Str, double>()));
    using DeepT = std::tuple<std::tuple<std::tuple<std::tuple<std::tuple<int>, bool>, Str>>, std::tuple<>>;
    inServer([&] {
        auto& h = *app.host;
        h.cppFunction<void>("v0", [=] { note("v0"); });
        h.cppFunction<void, bool>("b", [=](bool v) { note("b", v); });
        h.cppFunction<void, int>("i", [=](int v) { note("i", v); });
        h.cppFunction<void, double>("d", [=](double v) { note("d", v); });
        h.cppFunction<void, Str>("s", [=](Str v) { note("s", v); });
        h.cppFunction<void, int, Str, bool>("isb", [=](int a, Str b, bool c) { note("isb", a, b, c); });
        h.cppFunction<void, T2>("t", [=](T2 v) { note("t", v); });
        h.cppFunction<void, NT, Str>("nt", [=](NT v, Str w) { note("nt", v, w); });
        h.cppFunction<void, uint8_t>("u8", [=](uint8_t v) { note("u8", v); });
        h.cppFunction<void, int64_t, double>("ll", [=](int64_t v, double w) { note("ll", v, w); });
        h.cppFunction<void, Str, Str, Str, Str, Str, Str, Str, Str>("s8", [=](Str a, Str b, Str c, Str d, Str e, Str f, Str g, Str i) { note("s8", a, b, c, d, e, f, g, i); });
        h.cppFunction<void, int>("throws", [=](int v) { note("throws", v); throwOne(std::abs(v % 12)); });
        h.cppFunction<void, Str>(longName, [=](Str v) { note(longName, v); });
        h.cppFunction<int, double, bool>(oddName, [=](double v, bool w) { note(oddName, v, w); return 5; });
        h.cppFunction<void, int, bool, Str, double, uint8_t, int, bool, Str, double, uint8_t, int, bool, Str, double, uint8_t, int, bool, Str, double, uint8_t>("w20", [=](const auto&... v) { note("w20", v...); });
        h.cppFunction<void, WideT, int>("wt", [=](const WideT& v, int w) { note("wt", v, w); });
        h.cppFunction<void, DeepT>("dt", [=](const DeepT& v) { note("dt", v); });
        h.cppFunction<void, bool, bool>("bb", [=](const bool& v, bool w) { note("bb", v, w); });
    });
    using G = Gen;
    G gi{G::I, {}}, gb{G::B, {}}, gd{G::D, {}}, gs{G::S, {}}, gu{G::U8, {}}, gl{G::LL, {}};
    table = {{"v0", {}, false}, {"b", {gb}, false}, {"i", {gi}, false}, {"d", {gd}, false}, {"s", {gs}, false}, {"isb", {gi, gs, gb}, false}, {"t", {G{G::T, {gi, gs}}}, false},
             {"nt", {G{G::T, {gb, G{G::T, {gd, gs}}, gi}}, gs}, false}, {"u8", {gu}, false}, {"ll", {gl, gd}, false}, {"s8", {gs, gs, gs, gs, gs, gs, gs, gs}, false}, {"throws", {gi}, true},
             {longName, {gs}, false}, {"w20", {}, false}, {"wt", {G{G::T, {}}, gi}, false}, {"dt", {G{G::T, {G{G::T, {G{G::T, {G{G::T, {G{G::T, {gi}}, gb}}, gs}}}}, G{G::T, {}}}}}, false}, {oddName, {gd, gb}, false}, {"bb", {gb, gb}, false}};

    for (auto& r : table) {
        if (r.name == "w20") for (int i = 0; i < 4; ++i) for (auto& g : {gi, gb, gs, gd, gu}) r.params.push_back(g);
        if (r.name == "wt") for (int i = 0; i < 10; ++i) for (auto& g : {gi, gb, gs, gd}) r.params[0].t.push_back(g);
    }
    { // many functions of one kind, some of them registered while links are open
        uint32_t extra = s.scale(10, 150, 1500);
        for (uint32_t i = 0; i < extra; ++i) {
            auto name = "reg:" + (i % 2 ? "x" : randomText(s, 1 + s.below(6))) + std::to_string(i);
            auto add = [&, name] {
                inServer([&] { app.host->cppFunction<void, double>(name, [=](double v) { note(name, v); }); });
                table.push_back({name, {gd}, false});
            };
            if (s.chance(300)) W->after(s.below(20000) * us, [&app, add] { if (app.host.s) add(); });
            else add();
        }
    }

    struct P : SimPage {
        std::vector<Invoked> sent;
        size_t unknown = 0, malformed = 0, texts = 0;
    };
    std::vector<std::unique_ptr<P>> pages;
    uint32_t n = 1 + s.scale(4, 30, 120);
    auto act = [&](P& c, Stream& ps) {
        if (!c.usable()) return;
        auto& r = table[ps.below(static_cast<uint32_t>(table.size()))];
        ValueList params;
        for (auto& g : r.params) params.push_back(gen(g, ps));
        auto body = [&](const std::string& name, const ValueList& v) { std::string p = encodeLoose(ps, Value::string(name)); for (auto& e : v) p += encodeLoose(ps, e); return p; };
        uint32_t what = ps.below(20);
        std::string msg;
        if (what < 11) {
            auto b = body(r.name, params);
            msg = callMessage(b, params.size() + 1, b.size());
            c.sent.push_back({c.conn->id, r.name, params});
        }
        else if (what < 13) { // unknown name
            std::string name;
            do name = ps.chance(500) ? randomText(ps, ps.below(20)) : r.name + "x"; while ((name.starts_with("reg:") && name.back() != 'x') || std::any_of(table.begin(), table.end(), [&](auto& t) { return t.name == name; }));
            if (ps.chance(50)) name = ps.chance(500) ? "" : randomText(ps, 300);
            auto b = body(name, params);
            msg = callMessage(b, params.size() + 1, b.size());
            ++c.unknown;
        }
        else if (what < 17) { // malformed
            W->fault(Fault::MalformedInput);
            ++c.malformed;
            auto good = body(r.name, params);
            auto nameSize = 2 + r.name.size();
            switch (ps.below(9)) {
            case 0: { auto b = good.substr(0, ps.below(static_cast<uint32_t>(good.size()))); msg = callMessage(b, params.size() + 1, good.size()); } break;             // truncated
            case 1: { // truncated, and the header says so
                auto b = good.substr(0, ps.below(static_cast<uint32_t>(good.size())));
                msg = callMessage(b, params.size() + 1, b.size());
            } break;
            case 2: { // a parameter is missing
                if (params.empty()) { msg = callMessage("", 0, 0); break; }
                params.pop_back();
                auto b = body(r.name, params);
                msg = callMessage(b, params.size() + 1, b.size());
            } break;
            case 3: { // a parameter of another type
                if (params.empty()) { msg = callMessage(encodeValue(Value::number(1)), 1, 9); break; }
                auto i = ps.below(static_cast<uint32_t>(params.size()));
                params[i] = wrong(r.params[i], ps);
                auto b = body(r.name, params);
                msg = callMessage(b, params.size() + 1, b.size());
            } break;
            case 4: { // a parameter of a type that does not exist or is not handled
                static const std::vector<uint32_t> types{0, 7, 8, 9, 17, 19, 64, 128, 254, 255};
                auto b = encodeValue(Value::string(r.name)) + static_cast<char>(ps.pick(types)) + randomBytes(ps, ps.below(20));
                if (r.params.empty()) b = std::string(1, static_cast<char>(ps.pick(types))) + b;
                msg = callMessage(b, 2, b.size());
            } break;
            case 5: msg = callMessage(good, params.size() + 1, good.size() + 1 + (ps.chance(500) ? ps.below(1000) : 0xfffffff0u - good.size())); break; // announces more than there is
            case 6: msg = std::string(1, 3) + randomBytes(ps, ps.below(7)); break;                                                                      // no complete header
            case 7: { // a number the parameter cannot hold
                static const std::vector<double> nums{1e300, -1e300, 4294967296., -2147483649., 9.3e18, std::numeric_limits<double>::infinity(), std::numeric_limits<double>::quiet_NaN()};
                auto name = ps.pick(std::vector<std::string>{"i", "u8"});
                auto b = body(name, {Value::number(ps.pick(nums))});
                msg = callMessage(b, 2, b.size());
            } break;
            default: { // a string that announces more than there is
                std::string b = encodeValue(Value::string("s"));
                b += ps.chance(500) ? std::string("\x04\xff", 2) + "abc" : std::string("\x05\xff\xff", 3) + "abc";
                msg = callMessage(b, 2, b.size());
            }
            }
            (void)nameSize;
        }
        else if (what == 17) { c.sendMessage(ps, 1, anyText(ps, ps.below(100))); return; }
        else if (what == 18) { static const std::vector<uint32_t> cmds{1, 2, 4, 5, 100, 255}; msg = std::string(1, static_cast<char>(ps.pick(cmds))) + randomBytes(ps, ps.below(40)); }
        else msg = ps.chance(500) ? std::string() : std::string("\0\0", 2);
        c.sendMessage(ps, 2, msg);
    };
    for (uint32_t i = 0; i < n; ++i) {
        auto up = std::make_unique<P>();
        auto c = up.get();
        auto& ps = W->stream("page" + std::to_string(i));
        c->key = keyFor(s);
        c->rnd = &ps;
        c->autoHandshake = s.chance(900);
        Time start = W->now() + (s.chance(500) ? 0 : s.below(5000) * us);
        uint32_t count = 1 + (n > 30 ? ps.below(1 + 600 / n) : ps.scale(20, 200, 1500));
        bool burst = ps.chance(500);
        c->onOpen = [c, count, burst, &ps, act] {
            Time t = 0;
            for (uint32_t k = 0; k < count; ++k) {
                W->after(t, [c, &ps, act] { act(*c, ps); });
                if (!burst) t += ps.below(3000) * us;
            }
        };
        W->at(start, [c] { c->open(port); });
        stall(s, c, start);
        if (s.chance(200)) { uint32_t how = s.below(breakKinds); c->broken = true; W->at(start + s.below(40000) * us, [c, how] { breakNow(c, how); }); }
        pages.push_back(std::move(up));
    }
    app.host.settle();
    if (W->done()) return;
    bool known = std::none_of(invoked.begin(), invoked.end(), [](auto& v) { return v.conn == ~0ull; });
    if (!known && n > 1) return; // cannot be attributed
    size_t total = 0;
    for (auto& c : pages) {
        if (!checkPage(*c)) return;
        std::vector<Invoked*> mine;
        for (auto& v : invoked) if (!known || v.conn == c->conn->id) mine.push_back(&v);
        auto shown = [](const Invoked& v) { return printable(v.name, 20) + "(" + printable(show(v.params), 200) + ")"; };
        for (size_t i = 0; i < mine.size(); ++i) {
            if (i >= c->sent.size()) { W->violate("spurious-call", c->who() + ": " + shown(*mine[i]) + " was invoked although the page sent no such well-formed call"); return; }
            if (mine[i]->name != c->sent[i].name || !(mine[i]->params == c->sent[i].params)) { W->violate("wrong-call", c->who() + ": call " + std::to_string(i) + " invoked " + shown(*mine[i]) + " instead of " + shown(c->sent[i])); return; }
        }
        if (!c->broken && mine.size() != c->sent.size()) { W->violate("missing-call", c->who() + ": " + std::to_string(mine.size()) + " of " + std::to_string(c->sent.size()) + " calls were invoked; the next was " + shown(c->sent[mine.size()])); return; }
        size_t returns = 0, thrown = 0; // some exceptions of functions are passed on to the page
        for (auto v : mine) thrown += v->name == "throws";
        for (auto& e : c->events) {
            if (e.kind != Page::Event::Return) continue;
            ++returns;
            if (e.call.params.size() != 1 || e.call.params[0].kind != Value::Exception) { W->violate("return", c->who() + ": a function-return message that carries no exception: " + show(e.call.params)); return; }
        }
        if (returns > c->unknown + c->malformed + thrown || (!c->broken && returns < c->unknown)) { W->violate("return", c->who() + ": " + std::to_string(returns) + " function-return messages for " + std::to_string(c->unknown) + " calls of unknown functions"); return; }
        if (!c->broken && c->ended) { W->violate("closed", c->who() + ": the server ended the connection"); return; }
        total += mine.size();
        W->probe("unknown_calls", c->unknown);
        W->probe("malformed_calls", c->malformed);
    }
    W->probe("invoked", total);
    if (total) W->nontrivial = true;
    W->sample = std::to_string(n) + " pages, " + std::to_string(total) + " calls, window " + std::to_string(W->knobs.window);
}

// ---------------------------------------------------------------- C16
void c16() {
    auto& s = W->stream("c16");
    wfKnobs();
    drawLog(s, 400);
    WfApp app;
    app.host.useRunOne = s.chance(300);
    bool handler = s.chance(950);
    if (!app.create(handler)) return;
    inServer([&] { app.host->cppFunction<void, std::string>("note", [](std::string) {}); });
    struct P : SimPage { uint32_t handshakes = 0; bool malformedShake = false; };
    std::vector<std::unique_ptr<P>> pages;
    uint32_t n = 1 + s.scale(5, 40, 110);
    if (n > 25) W->knobs.window = std::max(W->knobs.window, 1024u);
    bool chatty = s.chance(600);
    app.onUi = [&](UiRec& u) {
        app.script(u, "started " + std::to_string(u.conn));
        if (chatty) { app.call(u, "hello", std::to_string(u.conn)); auto rec = &u; W->after(s.below(3000) * us, [&app, rec] { app.script(*rec, "later " + std::to_string(rec->conn)); }); }
    };
    for (uint32_t i = 0; i < n; ++i) {
        auto up = std::make_unique<P>();
        auto c = up.get();
        auto& ps = W->stream("page" + std::to_string(i));
        c->key = keyFor(s);
        c->rnd = &ps;
        c->autoHandshake = false;
        Time start = W->now() + (s.chance(500) ? 0 : s.below(5000) * us);
        uint32_t count = 1 + (n > 30 ? ps.below(1 + 240 / n) : ps.scale(8, 100, 600));
        bool shakes = ps.chance(800), burst = ps.chance(500);
        uint32_t first = shakes ? ps.below(count) : count;
        c->onOpen = [c, count, shakes, burst, first, &ps] {
            Time t = 0;
            for (uint32_t k = 0; k < count; ++k) {
                W->after(t, [c, k, first, shakes, &ps] {
                    if (!c->usable()) return;
                    auto shake = [&] { ++c->handshakes; c->sendMessage(ps, 2, std::string(1, '\0') + static_cast<char>(ps.below(2)), k > 0); };
                    if (k == first) { shake(); return; }
                    switch (ps.below(8)) {
                    case 0: c->sendMessage(ps, 1, anyText(ps, ps.below(60))); break;
                    case 1: c->sendMessage(ps, 2, encodeCall("note", {Value::string("x")})); break;
                    case 2: c->sendMessage(ps, 2, std::string(1, static_cast<char>(5 + ps.below(250))) + randomBytes(ps, ps.below(30))); break;
                    case 3: c->sendMessage(ps, 2, ""); break;
                    case 4: c->sendMessage(ps, 2, std::string(1, '\0')); W->fault(Fault::MalformedInput); break; // a handshake without its second byte
                    case 5: c->sendMessage(ps, 2, encodeCall("unknown", {})); break;
                    case 6: { auto p = anyText(ps, ps.below(20)); c->sendFrame(true, 9, p); } break;
                    default: if (shakes) shake(); else c->sendMessage(ps, 2, std::string("\1\0", 2)); break;
                    }
                });
                if (!burst) t += ps.below(3000) * us;
            }
        };
        W->at(start, [c] { c->open(port); });
        stall(s, c, start);
        if (s.chance(250)) { uint32_t how = s.below(breakKinds); c->broken = true; W->at(start + s.below(30000) * us, [c, how] { breakNow(c, how); }); }
        pages.push_back(std::move(up));
    }
    app.host.settle();
    if (W->done()) return;
    size_t totalShook = 0, totalMaybe = 0;
    for (auto& c : pages) {
        if (!checkPage(*c)) return;
        bool must = c->handshakes && !c->broken;
        totalShook += must;
        totalMaybe += c->handshakes > 0;
        size_t firstOther = c->events.size(), firstAck = c->events.size();
        for (size_t i = 0; i < c->events.size(); ++i) {
            auto k = c->events[i].kind;
            if (k == Page::Event::Ack) firstAck = std::min(firstAck, i);
            else if (k == Page::Event::Log || k == Page::Event::Script || k == Page::Event::Call) firstOther = std::min(firstOther, i);
        }
        if (firstOther < firstAck) { W->violate("before-ack", c->who() + " was sent something before the acknowledgement of its handshake"); return; }
        if (c->acks > c->handshakes) { W->violate("ack", c->who() + " got " + std::to_string(c->acks) + " acknowledgements for " + std::to_string(c->handshakes) + " handshakes"); return; }
        if (must && !c->acks) { W->violate("ack", c->who() + ": its handshake was not acknowledged"); return; }
        if (!c->broken && c->ended) { W->violate("closed", c->who() + ": the server ended the connection"); return; }
        if (!handler) continue;
        auto starts = app.count(c->conn->id);
        if (starts > 1) { W->violate("ui", c->who() + ": the UI was started " + std::to_string(starts) + " times"); return; }
        if (starts && !c->handshakes) { W->violate("ui", c->who() + ": the UI was started without a handshake"); return; }
        if (must && app.count(~0ull) == 0 && starts != 1) { W->violate("ui", c->who() + ": the UI was not started"); return; }
        auto u = app.of(c->conn->id);
        auto why = compareSent(u ? u->sent : std::vector<Sent>{}, received(*c), !c->broken);
        if (!why.empty() && app.count(~0ull) == 0) { W->violate("wrong-ui", c->who() + ": the UI does not address its link: " + why); return; }
        if (must) { W->probe("handshakes"); W->nontrivial = true; }
        if (!c->handshakes) W->probe("no_handshake");
    }
    if (handler && (app.uis.size() < totalShook || app.uis.size() > totalMaybe)) { W->violate("ui", std::to_string(app.uis.size()) + " UIs were started for " + std::to_string(totalShook) + " to " + std::to_string(totalMaybe) + " pages"); return; }
    W->sample = std::to_string(n) + " connections, " + std::to_string(totalShook) + " complete handshakes";
}

Register r13("C13", "lost-clients", c13), r14("C14", "calls-out", c14), r15("C15", "calls-in", c15), r16("C16", "handshakes", c16);
} // namespace
