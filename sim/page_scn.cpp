// C22: the page and the script the server ships, executed as a browser does, against the server that ships them
#include "browser.hpp"
#include "wf_kit.hpp"
#include "wf_shapes.hpp"
#include <cmath>

using namespace sim;

namespace {
struct Tab;
std::vector<Effect> browser(const std::string& op, const std::vector<std::string>& f) {
    OutOfServer o;
    W->trace("browser", hashStr(op));
    auto r = browserCommand(op, f);
    for (auto& e : r) {
        uint64_t h = hashStr(e.kind);
        for (auto& x : e.f) h = hashStr(x, h);
        W->trace("effect", h);
    }
    return r;
}
std::string b64key(Stream& s) { return sim::base64(randomBytes(s, 16)); }

struct Agent { const char *name, *get, *upgrade; };
const std::vector<Agent> agents{
  {"chrome",
   "Connection: keep-alive\r\nsec-ch-ua: \"Chromium\";v=\"120\"\r\nsec-ch-ua-mobile: ?0\r\nUser-Agent: Mozilla/5.0 (X11; Linux x86_64) AppleWebKit/537.36 (KHTML, like Gecko) Chrome/120.0.0.0 Safari/537.36\r\nAccept: */*\r\nSec-Fetch-Site: same-origin\r\n"
   "Sec-Fetch-Mode: no-cors\r\nReferer: http://localhost/\r\nAccept-Encoding: gzip, deflate, br, zstd\r\nAccept-Language: en-US,en;q=0.9\r\n",
   "Connection: Upgrade\r\nPragma: no-cache\r\nCache-Control: no-cache\r\nUser-Agent: Mozilla/5.0 (X11; Linux x86_64) AppleWebKit/537.36 (KHTML, like Gecko) Chrome/120.0.0.0 Safari/537.36\r\nUpgrade: websocket\r\nOrigin: http://localhost\r\n"
   "Sec-WebSocket-Version: 13\r\nAccept-Encoding: gzip, deflate, br, zstd\r\nAccept-Language: en-US,en;q=0.9\r\nSec-WebSocket-Key: @KEY@\r\nSec-WebSocket-Extensions: permessage-deflate; client_max_window_bits\r\nSec-WebSocket-Protocol: @PROTO@\r\n"},
  {"firefox",
   "User-Agent: Mozilla/5.0 (X11; Linux x86_64; rv:121.0) Gecko/20100101 Firefox/121.0\r\nAccept: text/html,application/xhtml+xml,application/xml;q=0.9,image/avif,image/webp,*/*;q=0.8\r\nAccept-Language: fr,en;q=0.5\r\nAccept-Encoding: gzip, deflate, br\r\n"
   "DNT: 1\r\nConnection: keep-alive\r\nUpgrade-Insecure-Requests: 1\r\nSec-Fetch-Dest: document\r\nSec-Fetch-Mode: navigate\r\n",
   "User-Agent: Mozilla/5.0 (X11; Linux x86_64; rv:121.0) Gecko/20100101 Firefox/121.0\r\nAccept: */*\r\nAccept-Language: fr,en;q=0.5\r\nAccept-Encoding: gzip, deflate, br\r\nSec-WebSocket-Version: 13\r\nOrigin: http://localhost\r\nSec-WebSocket-Protocol: @PROTO@\r\n"
   "Sec-WebSocket-Extensions: permessage-deflate\r\nSec-WebSocket-Key: @KEY@\r\nDNT: 1\r\nConnection: keep-alive, Upgrade\r\nPragma: no-cache\r\nCache-Control: no-cache\r\nUpgrade: websocket\r\n"},
  {"safari",
   "Accept: */*\r\nConnection: keep-alive\r\nUser-Agent: Mozilla/5.0 (Macintosh; Intel Mac OS X 10_15_7) AppleWebKit/605.1.15 (KHTML, like Gecko) Version/17.0 Safari/605.1.15\r\nAccept-Language: en-us\r\nReferer: http://localhost/\r\nAccept-Encoding: gzip, deflate, br\r\n",
   "Upgrade: websocket\r\nConnection: Upgrade\r\nOrigin: http://localhost\r\nSec-WebSocket-Key: @KEY@\r\nSec-WebSocket-Version: 13\r\nSec-WebSocket-Protocol: @PROTO@\r\nUser-Agent: Safari/605.1.15\r\n"}};
std::string replaceAll(std::string t, const std::string& what, const std::string& with) {
    for (size_t p; (p = t.find(what)) != std::string::npos;) t.replace(p, what.size(), with);
    return t;
}

// what a page did on behalf of the application, or what it has to do
struct Did {
    std::string kind; // script, called, failed-call, failed-script
    std::string text; // of the script, or the name of the function
    ValueList params;
    bool operator==(const Did&) const = default;
    std::string show() const { return kind + " " + printable(text, 60) + "(" + printable(sim::show(params), 200) + ")"; }
};

// WebFront.js lays out an array within an array at wrong offsets (a recorded finding): what it sends instead
std::string garbledCall(const std::string& name, const ValueList& params) {
    auto good = encodeCall(name, params);
    std::string out = good.substr(0, 8) + std::string(good.size() - 8, '\0');
    std::function<size_t(const Value&, size_t, size_t)> enc = [&](const Value& v, size_t base, size_t off) -> size_t {
        if (v.kind != Value::Tuple) {
            auto e = encodeValue(v);
            out.replace(base + off, e.size(), e);
            return e.size();
        }
        out[base + off] = 18;
        out[base + off + 1] = static_cast<char>(v.t.size());
        size_t t = 2;
        for (auto& e : v.t) t += enc(e, base, t);
        return t;
    };
    size_t at = 8;
    at += enc(Value::string(name), at, 0);
    for (auto& p : params) at += enc(p, at, 0);
    return out;
}
bool nested(const Value& v) { // contains an array that is not empty within an array
    if (v.kind == Value::Tuple)
        for (auto& e : v.t) if (e.kind == Value::Tuple && (!e.t.empty() || nested(e))) return true;
    return false;
}
bool recorded(const std::string& finding) { return knownFindings.find("," + finding + ",") != std::string::npos; }
constexpr size_t spreadLimit = 100000; // the script passes every byte of a call to console.log as a parameter of its own: engines limit these

struct Tab {
    uint32_t id;
    Stream& s;
    const Agent* agent;
    std::string path;
    std::vector<std::unique_ptr<HttpClient>> fetches;
    std::unique_ptr<SimPage> link;
    std::vector<Did> did;
    std::vector<Invoked> sent; // calls of C++ functions the page's code made
    bool loaded = false, linked = false, opened = false, gone = false;
    bool noSocket = false;     // the page has no WebFront.js
    std::string fail;
    std::function<void()> onLinked;
    std::optional<Invoked> calling; // the call that is being made
    bool wantThrow = false, threw = false;
    size_t garbled = 0, tooBig = 0, logs = 0;

    Tab(uint32_t i, Stream& st) : id(i), s(st) {}
    std::string who() const { return "page " + std::to_string(id) + (link && link->conn ? " on connection " + std::to_string(link->conn->id) : ""); }
    void bad(const std::string& kind, const std::string& what) { if (!W->done()) W->violate(kind, who() + ": " + what); }

    void load() {
        apply(browser("page", {std::to_string(id), "80", "http://localhost" + path}));
        fetch(path, true);
    }
    void fetch(const std::string& p, bool doc) {
        auto& c = *fetches.emplace_back(std::make_unique<HttpClient>());
        auto* cp = &c;
        c.request = "GET " + p + " HTTP/1.1\r\nHost: localhost\r\n" + agent->get + "\r\n";
        auto finished = std::make_shared<bool>(false);
        auto check = [this, cp, p, doc, finished](bool end) {
            if (*finished || gone) return;
            auto r = HttpReply::parse(cp->received);
            if (!end && !(r.headersComplete && r.contentLength && r.body.size() >= *r.contentLength)) return;
            *finished = true;
            if (r.malformed || !r.headersComplete) { bad("page-load", "the reply to GET " + p + " is ill-formed: " + r.why + " " + printable(cp->received, 200)); return; }
            if (r.status != 200) { bad("page-load", "GET " + p + " was answered " + std::to_string(r.status)); return; }
            auto type = lower(r.header("Content-Type").value_or(""));
            bool fits = doc ? type.starts_with("text/html") : type.starts_with("application/javascript") || type.starts_with("text/javascript");
            if (!fits) { bad("page-load", p + " has Content-Type " + type); return; }
            W->trace("loaded", id, r.body.size());
            auto body = r.contentLength && r.body.size() > *r.contentLength ? r.body.substr(0, *r.contentLength) : r.body;
            apply(browser(doc ? "doc" : "script", {std::to_string(id), r.header("Content-Encoding").value_or(""), body}));
        };
        c.onData = [check](std::string_view) { check(false); };
        c.onEnd = [check] { check(true); };
        c.start(port);
    }
    void apply(const std::vector<Effect>& effects, int message = -1) {
        for (auto& e : effects) {
            if (W->done()) return;
            if (e.kind == "fetch") { auto p = e.f[0]; W->after(s.below(50) * us, [this, p] { if (!gone) fetch(p, false); }); }
            else if (e.kind == "loaded") loaded = true;
            else if (e.kind == "broken") bad("page-load", "a body cannot be decoded as its Content-Encoding says: " + e.f[0]);
            else if (e.kind == "socket") {
                if (link) { bad("script", "a second socket was opened"); return; }
                if (e.f[0] != "ws:" || e.f[1] != "localhost" || e.f[2] != "80") { bad("script", "the script connects to " + e.f[0] + "//" + e.f[1] + ":" + e.f[2]); return; }
                connect(e.f[3], e.f[4]);
            }
            else if (e.kind == "send") {
                if (!link) { bad("script", "sends without a socket"); return; }
                auto& m = e.f[2];
                if (calling && m.size() && m[0] == 3) judgeCall(m);
                if (link->usable()) link->sendFrame(true, std::stoi(e.f[1]), m);
            }
            else if (e.kind == "script") did.push_back({"script", e.f[0], {}});
            else if (e.kind == "called") {
                auto v = unpackValues(e.f[1]);
                if (!v) { bad("script", "function " + printable(e.f[0]) + " got a parameter that is no boolean, number, string or array"); return; }
                did.push_back({"called", e.f[0], *v});
                if (e.f[0] == "echo") calling = Invoked{link->conn->id, "echoed", *v}; // the page passes its parameters on
                if (e.f[0] == "greet") calling = Invoked{link->conn->id, "s", {Value::string("from a script")}};
            }
            else if (e.kind == "console") {
                if (e.f[0] == "error") {
                    static const std::string pre = "With callJS: Error: Calling function ";
                    auto p = e.f[1].find(" : ");
                    if (e.f[1].rfind(pre, 0) == 0 && p != std::string::npos) {
                        p = e.f[1].find(" : ", pre.size());
                        did.push_back({"failed-call", e.f[1].substr(pre.size(), p - pre.size()), {}});
                    }
                    else { bad("page-error", "console.error: " + printable(e.f[1], 300)); return; }
                }
                else if (message == Page::Event::Log) logText.push_back(e.f[1]);
            }
            else if (e.kind == "error") {
                if (e.f[0] == "injected") did.push_back({"failed-script", e.f[1].substr(0, e.f[1].find(':')), {}});
                else { bad("page-error", "an exception in " + e.f[0] + ": " + printable(e.f[1], 300)); return; }
            }
            else if (e.kind == "thrown") threw = true;
            else if (e.kind == "value") value = e.f[0];
        }
    }
    std::string value;
    std::vector<std::string> logText;

    void judgeCall(const std::string& m) {
        auto c = *calling;
        calling.reset();
        auto good = encodeCall(c.name, c.params);
        if (m == good) { sent.push_back(c); return; }
        bool sameNumbers = false; // the sign and payload of a NaN are the engine's choice
        std::string why;
        auto d = decodeCall(m, why);
        if (d && d->name == c.name && d->params == c.params) sameNumbers = true;
        if (sameNumbers) { sent.push_back(c); return; }
        bool deep = std::any_of(c.params.begin(), c.params.end(), [](auto& v) { return nested(v); });
        if (deep && c.name == "nt" && m == garbledCall(c.name, c.params) && recorded("nested-arrays")) { ++garbled; return; }
        bad("page-call", "the page called " + c.name + "(" + printable(show(c.params), 200) + ") and sent " + hex(m, 80));
    }
    void connect(const std::string& target, const std::string& protocols) {
        link = std::make_unique<SimPage>();
        auto c = link.get();
        c->rnd = &s;
        c->autoHandshake = false;
        c->key = b64key(s);
        c->upgradeRequest = "GET " + target + " HTTP/1.1\r\nHost: localhost\r\n" + replaceAll(replaceAll(agent->upgrade, "@KEY@", c->key), "@PROTO@", protocols) + "\r\n";
        c->onOpen = [this, c, protocols] {
            // what browsers insist on
            auto& r = c->upgradeReply;
            auto h = [&](const char* n) { return r.header(n).value_or(""); };
            if (lower(h("Upgrade")) != "websocket" || lower(h("Connection")).find("upgrade") == std::string::npos) { bad("handshake", "a browser rejects this reply to the upgrade"); return; }
            if (h("Sec-WebSocket-Accept") != wsAcceptKey(c->key)) { bad("handshake", "wrong Sec-WebSocket-Accept"); return; }
            if (r.header("Sec-WebSocket-Extensions")) { bad("handshake", "an extension was selected: " + h("Sec-WebSocket-Extensions")); return; }
            if (r.count("Sec-WebSocket-Protocol") != 1 || protocols != h("Sec-WebSocket-Protocol")) { bad("handshake", "the script asked for the subprotocol " + protocols + " and \"" + h("Sec-WebSocket-Protocol") + "\" was selected"); return; }
            opened = true;
            apply(browser("open", {std::to_string(id), "0", h("Sec-WebSocket-Protocol")}));
        };
        c->onEvent = [this](const Page::Event& e) {
            if (gone || !opened || W->done()) return;
            logText.clear();
            bool text = !link->messages.empty() && link->messages.back().opcode == 1;
            apply(browser("message", {std::to_string(id), "0", text ? "1" : "2", e.raw}), e.kind);
            if (e.kind == Page::Event::Log) {
                ++logs;
                if (logText.size() != 1 || logText[0] != e.text) { bad("log", "a log line was not shown as it is: \"" + printable(e.text, 200) + "\""); return; }
            }
            if (e.kind == Page::Event::Ack && !linked) {
                linked = true;
                if (onLinked) onLinked();
            }
        };
        c->onEnd = [this, c] {
            if (gone || !opened || W->done()) return;
            apply(browser("close", {std::to_string(id), "0", c->gotClose ? "1" : "0", c->gotClose ? "1000" : "1006"}));
        };
        W->after(s.below(100) * us, [this, c] { if (!gone) c->open(port); });
    }
    bool ready() const { return linked && !gone && link->usable(); }
    // the page's own code calls a function of the application
    void call(const std::string& name, const ValueList& params) {
        if (!ready()) return;
        calling = Invoked{link->conn->id, name, params};
        threw = false;
        size_t size = encodeCall(name, params).size();
        apply(browser("call", {std::to_string(id), name, packValues(params)}));
        if (W->done()) return;
        if (threw && size > spreadLimit && calling && recorded("huge-calls")) { ++tooBig; calling.reset(); return; } // recorded finding
        if (threw || calling) { bad("page-call", "the page called " + name + "(" + printable(show(params), 200) + ") and " + (threw ? "the script threw" : "nothing was sent")); return; }
    }
    // what cannot be passed is refused
    void refusedCall(const std::string& source) {
        if (!ready()) return;
        threw = false;
        size_t before = link->conn->bytesToServer;
        apply(browser("eval", {std::to_string(id), source}));
        if (W->done()) return;
        if (!threw || link->conn->bytesToServer != before) bad("page-call", "not refused: " + source);
    }
};

std::string jsString(const std::string& t) { // any UTF-8 as a Javascript literal
    std::string r = "\"";
    for (unsigned char c : t) {
        if (c == '"' || c == '\\') { r += '\\'; r += static_cast<char>(c); }
        else if (c < 32) { char b[8]; std::snprintf(b, sizeof b, "\\u%04x", c); r += b; }
        else r += static_cast<char>(c);
    }
    return r + "\"";
}

void c22() {
    if (!haveBrowser()) { W->violate("no-browser", "the runner was started without a browser"); return; }
    auto& s = W->stream("c22");
    wfKnobs();
    drawLog(s, 150);
    textOnly = true;
    stringBudget = std::min<size_t>(300000, 4 * bodyLimit());
    browser("reset", {});

    // the application's own pages, if any
    struct Doc { std::string path, html; std::vector<std::pair<std::string, std::string>> files; };
    std::vector<Doc> docs{{"/", "", {}}, {"/index.html", "", {}}};
    std::string own = "function own() { report('own', arguments); }\n";
    auto pad = [&](size_t max) { return "/* " + randomText(s, s.sizeUpTo(static_cast<uint32_t>(max))) + " */\n"; };
    docs.push_back({"/app.html", "<!DOCTYPE html>\n<html><head><meta charset=\"utf-8\"><script src=\"WebFront.js\"></script>\n<script>function inl() { report('inl', arguments); }</script></head><body>é</body></html>\n", {}});
    docs.push_back({"/pages/my app.html", "<html><script src='/WebFront.js'></script><body><script src=\"../js/own.js\"></script><script src=more.js></script></body></html>",
                    {{"js/own.js", own + pad(bodyLimit())}, {"pages/more.js", pad(bodyLimit())}}});
    for (auto& d : docs) {
        if (!d.html.empty()) disk.write(disk.root + d.path, d.html);
        for (auto& [n, c] : d.files) disk.write(disk.root + "/" + n, c);
    }

    WfApp app;
    app.host.useRunOne = s.chance(300);
    if (!app.create()) return;
    std::vector<Invoked> invoked;
    auto note = [&invoked](const std::string& name, const auto&... v) {
        OutOfServer o;
        W->trace("invoked", NW->running, hashStr(name));
        invoked.push_back({NW->running, name, {toValue(v)...}});
    };
    using Str = std::string;
    using T2 = std::tuple<int, Str>;
    using T5 = std::tuple<bool, double, Str, Str, uint8_t>;
    using NT = std::tuple<int, std::tuple<bool, double>, Str>;
    using ET = std::tuple<int, std::tuple<>, bool>;
    using Wide = decltype(std::tuple_cat(T5(), T5(), T5(), T5(), T5(), T5(), T5(), T5(), T5(), T5()));
    const std::string odd = "nom é \"x\" \xe2\x82\xac";
    const std::string longName = randomText(s, 256 + s.below(300));
    inServer([&] {
        auto& h = *app.host;
        h.cppFunction<void>("v0", [=] { note("v0"); });
        h.cppFunction<void, bool>("b", [=](bool v) { note("b", v); });
        h.cppFunction<void, int>("i", [=](int v) { note("i", v); });
        h.cppFunction<void, double>("d", [=](double v) { note("d", v); });
        h.cppFunction<void, Str>("s", [=](Str v) { note("s", v); });
        h.cppFunction<void, int, Str, bool>("isb", [=](int a, Str b, bool c) { note("isb", a, b, c); });
        h.cppFunction<void, T2>("t", [=](T2 v) { note("t", v); });
        h.cppFunction<void, Str, T5, T2, int>("t3", [=](Str a, T5 b, T2 c, int d) { note("t3", a, b, c, d); });
        h.cppFunction<void, NT>("nt", [=](NT) { OutOfServer o; W->probe("nested_accepted"); });
        h.cppFunction<void, ET, bool>("et", [=](ET v, bool w) { note("et", v, w); });
        h.cppFunction<void, Wide>("wide", [=](const Wide& v) { note("wide", v); });
        h.cppFunction<void, int64_t, double>("ll", [=](int64_t v, double w) { note("ll", v, w); });
        h.cppFunction<void, Str, Str, Str, Str, Str, Str>("s6", [=](Str a, Str b, Str c, Str d, Str e, Str f) { note("s6", a, b, c, d, e, f); });
        h.cppFunction<void, Str, double, bool>("echoed", [=](Str a, double b, bool c) { note("echoed", a, b, c); });
        h.cppFunction<void, int>("throws", [=](int v) { note("throws", v); throw std::runtime_error("by the function"); });
        h.cppFunction<void, Str, uint8_t>(odd, [=](Str v, uint8_t w) { note(odd, v, w); });
        h.cppFunction<int, Str>(longName, [=](Str v) { note(longName, v); return 3; });
    });
    using G = Gen;
    G gi{G::I, {}}, gb{G::B, {}}, gd{G::D, {}}, gs{G::S, {}}, gu{G::U8, {}}, gl{G::LL, {}};
    G t2{G::T, {gi, gs}}, t5{G::T, {gb, gd, gs, gs, gu}}, nt{G::T, {gi, G{G::T, {gb, gd}}, gs}}, et{G::T, {gi, G{G::T, {}}, gb}}, wide{G::T, {}};
    for (int i = 0; i < 10; ++i) for (auto& g : t5.t) wide.t.push_back(g);
    std::vector<Registered> table{{"v0", {}, false}, {"b", {gb}, false}, {"i", {gi}, false}, {"d", {gd}, false}, {"s", {gs}, false}, {"isb", {gi, gs, gb}, false}, {"t", {t2}, false}, {"t3", {gs, t5, t2, gi}, false},
                                  {"nt", {nt}, false}, {"et", {et, gb}, false}, {"wide", {wide}, false}, {"ll", {gl, gd}, false}, {"s6", {gs, gs, gs, gs, gs, gs}, false}, {"throws", {gi}, true}, {odd, {gs, gu}, false}, {longName, {gs}, false}};

    std::vector<std::unique_ptr<Tab>> tabs;
    std::map<UiRec*, std::vector<Did>> expected;
    std::map<UiRec*, std::vector<std::pair<std::string, std::unique_ptr<Fn>>>> fns;
    auto inject = [&](UiRec& u, const std::string& text, std::vector<Did> then) {
        if (!app.script(u, text)) { WfApp::lastError() += " (script)"; return; }
        auto& e = expected[&u];
        e.push_back({"script", text, {}});
        for (auto& d : then) e.push_back(std::move(d));
    };
    auto op = [&](UiRec& u, Stream& ps) {
        if (W->done()) return;
        uint32_t what = ps.below(9);
        if (what < 5) {
            auto n = static_cast<double>(ps.below(1000000));
            auto body = genString(ps);
            body.resize(std::min<size_t>(body.size(), 60000));
            while (!body.empty() && (static_cast<unsigned char>(body.back()) & 0x80)) body.pop_back(); // no half characters
            bool literal = ps.chance(500);
            std::string text;
            Did d{"called", "ran", {}};
            if (literal && body.size() < 10000) { text = "report('ran', [" + jsString(body) + "]);"; d.params = {Value::string(body)}; }
            else { text = "/*" + replaceAll(body, "*/", "xx") + "*/ report('ran', [" + std::to_string(static_cast<int>(n)) + "]);"; d.params = {Value::number(n)}; }
            inject(u, text, {d});
        }
        else if (what == 5) inject(u, "throw new RangeError('x');", {{"failed-script", "RangeError", {}}});
        else if (what == 6) inject(u, ")(", {{"failed-script", "SyntaxError", {}}});
        else if (what == 7) inject(u, "", {});
        else inject(u, "report('greet', []); webFront.cppFunction('s')('from a script');", {{"called", "greet", {}}});
    };
    // functions of pages and calls of them
    static const std::vector<std::string> names{"f0", "ns.f1", "ns.deep.f2", "echo", "boom", "missing", "ns.missing", "Zo\xc3\xa9"};
    auto callOp = [&](UiRec& u, Stream& ps) {
        if (W->done()) return;
        auto& mine = fns[&u];
        size_t which = ps.below(static_cast<uint32_t>(mine.size()) + 1);
        if (which == mine.size()) {
            auto& name = ps.pick(names);
            mine.emplace_back(name, inServer([&] { return std::make_unique<Fn>(u.ui.jsFunction(name)); }));
        }
        auto& name = mine[which].first;
        auto& f = *mine[which].second;
        ValueList params;
        try {
            if (name == "echo") {
                auto a = genString(ps);
                auto d = genDouble(ps);
                bool b = ps.below(2);
                params = {Value::string(a), Value::number(d), Value::boolean(b)};
                InServer in;
                f(a, d, b);
            }
            else callShape(f, ps.below(refusedShapes), ps, params);
        }
        catch (const std::exception& e) {
            W->inServer = 0;
            WfApp::lastError() = e.what();
            W->trace("refused");
            return;
        }
        W->trace("app-call", u.conn);
        u.sent.push_back({true, name, params});
        auto& e = expected[&u];
        if (name.find("missing") != std::string::npos) { e.push_back({"failed-call", name, {}}); return; }
        e.push_back({"called", name, params});
        if (name == "boom") e.push_back({"failed-call", name, {}});
    };
    auto any = [&](UiRec& u, Stream& ps) { if (ps.chance(400)) op(u, ps); else callOp(u, ps); };
    uint32_t n = 1 + s.scale(4, 14, 40);
    app.onUi = [&](UiRec& u) {
        auto& ps = W->stream("ui" + std::to_string(app.uis.size()));
        auto rec = &u;
        inject(u, "var ns = { deep: {} };\n"
                  "function f0() { report('f0', arguments); }\nns.f1 = function () { report('ns.f1', arguments); };\nns.deep.f2 = function () { report('ns.deep.f2', arguments); };\n"
                  "function Zo\xc3\xa9() { report('Zo\xc3\xa9', arguments); }\n"
                  "function boom() { report('boom', arguments); throw new Error('boom'); }\n"
                  "function echo(a, b, c) { report('echo', arguments); webFront.cppFunction('echoed')(a, b, c); }\n", {});
        uint32_t ops = 1 + (n > 8 ? ps.below(10) : ps.scale(14, 80, 300));
        bool burst = ps.chance(500);
        Time t = 0;
        for (uint32_t i = 0; i < ops; ++i) {
            if (t == 0) any(u, ps);
            else W->after(t, [&app, any, rec, &ps] { if (app.host.s) any(*rec, ps); });
            if (!burst || ps.chance(200)) t += ps.below(4000) * us;
        }
    };
    for (uint32_t i = 0; i < n; ++i) {
        auto& ps = W->stream("tab" + std::to_string(i));
        auto& tab = *tabs.emplace_back(std::make_unique<Tab>(i, ps));
        auto t = &tab;
        t->agent = &ps.pick(agents);
        t->path = replaceAll(ps.pick(docs).path, " ", "%20");
        Time start = W->now() + (s.chance(500) ? 0 : s.below(5000) * us);
        uint32_t calls = n > 8 ? ps.below(8) : ps.scale(12, 80, 300);
        bool burst = ps.chance(500);
        t->onLinked = [t, calls, burst, &ps, &table] {
            Time when = 0;
            for (uint32_t k = 0; k < calls; ++k) {
                W->after(when, [t, &ps, &table] {
                    if (!t->ready()) return;
                    if (ps.chance(80)) {
                        static const std::vector<std::string> values{"undefined", "null", "{}", "function () {}", "[1, [undefined]]", "10n", "'x'.repeat(65536)", "'\\u00e9'.repeat(32768)", "[null]", "Symbol('x')"};
                        t->refusedCall("webFront.cppFunction('i')(" + std::string(ps.chance(500) ? "1, " : "") + ps.pick(values) + ")");
                        return;
                    }
                    auto& r = table[ps.below(static_cast<uint32_t>(table.size()))];
                    ValueList params;
                    for (auto& g : r.params) params.push_back(gen(g, ps));
                    t->call(r.name, params);
                });
                if (!burst) when += ps.below(3000) * us;
            }
        };
        W->at(start, [t] { t->load(); });
        uint32_t slow = s.below(5);
        uint32_t rate = 20 + s.below(4000);
        Time from = s.below(30000) * us, len = s.below(300000) * us;
        if (slow < 2) { // a slow reader
            auto apply = [t, slow, rate, from, len] {
                if (!t->link || !t->link->conn) return false;
                W->fault(Fault::ClientStall);
                auto c = t->link->conn;
                if (slow == 0) c->readRate = rate;
                else { W->after(from, [c] { c->pauseReading(); }); W->after(from + len, [c] { c->resumeReading(); }); }
                return true;
            };
            for (uint32_t k = 1; k < 8; ++k) W->at(start + k * k * ms, [apply, done = std::make_shared<bool>(false)] { if (!*done) *done = apply(); });
        }
        if (s.chance(200)) { // leaves at some point
            uint32_t how = s.below(breakKinds);
            W->at(start + s.below(60000) * us, [t, how] {
                t->gone = true;
                for (auto& f : t->fetches) if (f->conn && !f->ended && !f->conn->clientEnded) { W->fault(Fault::ClientFin); f->conn->close(); }
                if (t->link) breakNow(t->link.get(), how);
            });
        }
    }
    app.host.settle();
    if (W->done()) return;
    bool known = std::none_of(invoked.begin(), invoked.end(), [](auto& v) { return v.conn == ~0ull; });
    size_t total = 0, garbled = 0;
    for (auto& up : tabs) {
        auto& t = *up;
        if (t.link && t.link->conn && !t.gone && !checkPage(*t.link)) return;
        garbled += t.garbled;
        W->probe("recorded_nested_arrays", t.garbled);
        W->probe("recorded_huge_calls", t.tooBig);
        W->probe("page_log_lines", t.logs);
        if (!t.gone) {
            if (!t.loaded) { t.bad("page-load", "did not load"); return; }
            if (!t.link) { t.bad("script", "opened no socket"); return; }
            if (!t.opened || !t.linked) { t.bad("not-linked", t.opened ? "its handshake was not acknowledged" : "its socket did not open"); return; }
            if (t.link->ended) { t.bad("closed", "the server ended the connection"); return; }
            t.value.clear();
            t.apply(browser("eval", {std::to_string(t.id), "String(webFront.state) + webFront.littleEndian"}));
            if (t.value != "2true") { t.bad("not-linked", "the script's state is " + t.value); return; }
        }
        if (!t.link || !t.link->conn) continue;
        auto u = app.of(t.link->conn->id);
        if (!u) { if (!t.gone && app.count(~0ull) == 0) { t.bad("no-ui", "has no UI"); return; } continue; }
        auto& exp = expected[u];
        for (size_t i = 0; i < t.did.size(); ++i) {
            if (i >= exp.size()) { t.bad("spurious", "did more than the application asked for: " + t.did[i].show()); return; }
            if (!(t.did[i] == exp[i])) { t.bad("executed", "item " + std::to_string(i) + " was " + t.did[i].show() + " instead of " + exp[i].show()); return; }
        }
        if (!t.gone && t.did.size() != exp.size()) { t.bad("executed", std::to_string(t.did.size()) + " of " + std::to_string(exp.size()) + " things were done; the next was " + exp[t.did.size()].show()); return; }
        if (known || tabs.size() == 1) {
            std::vector<Invoked*> mine;
            for (auto& v : invoked) if (!known || v.conn == t.link->conn->id) mine.push_back(&v);
            auto shown = [](const Invoked& v) { return printable(v.name, 20) + "(" + printable(show(v.params), 200) + ")"; };
            for (size_t i = 0; i < mine.size(); ++i) {
                if (i >= t.sent.size()) { t.bad("spurious-call", shown(*mine[i]) + " was invoked and the page made no such call"); return; }
                if (mine[i]->name != t.sent[i].name || !(mine[i]->params == t.sent[i].params)) { t.bad("wrong-call", shown(*mine[i]) + " was invoked instead of " + shown(t.sent[i])); return; }
            }
            if (!t.gone && mine.size() != t.sent.size()) { t.bad("missing-call", std::to_string(mine.size()) + " of " + std::to_string(t.sent.size()) + " calls were invoked; the next was " + shown(t.sent[mine.size()])); return; }
            total += mine.size();
        }
        total += t.did.size();
        if (!t.gone && t.did.size() > 1) W->nontrivial = true;
    }
    W->probe("things_done", total);
    if (s.chance(400)) {
        app.host.destroy();
        drainWorld();
        if (W->done()) return;
        for (auto& up : tabs)
            if (!up->gone && up->link && !up->link->ended) { up->bad("closed", "the server is gone and its connection is open"); return; }
    }
    W->sample = std::to_string(n) + " pages, " + std::to_string(total) + " scripts and calls executed, window " + std::to_string(W->knobs.window);
}

Register r22("C22", "shipped-page", c22);
} // namespace
