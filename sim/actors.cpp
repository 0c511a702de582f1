#include "actors.hpp"
#include <algorithm>
#include <cmath>
#include <cstring>

namespace sim {

std::string lower(std::string_view s) {
    std::string r(s);
    for (auto& c : r) if (c >= 'A' && c <= 'Z') c = static_cast<char>(c + 32);
    return r;
}

std::string sha1(std::string_view s) {
    uint32_t h[5] = {0x67452301, 0xEFCDAB89, 0x98BADCFE, 0x10325476, 0xC3D2E1F0};
    std::string m(s);
    uint64_t bits = static_cast<uint64_t>(s.size()) * 8;
    m += static_cast<char>(0x80);
    while (m.size() % 64 != 56) m += '\0';
    for (int i = 7; i >= 0; --i) m += static_cast<char>(bits >> (8 * i));
    auto rol = [](uint32_t x, int n) { return (x << n) | (x >> (32 - n)); };
    for (size_t o = 0; o < m.size(); o += 64) {
        uint32_t w[80];
        for (size_t i = 0; i < 16; ++i) {
            auto b = [&](size_t k) { return static_cast<uint32_t>(static_cast<unsigned char>(m[o + 4 * i + k])); };
            w[i] = b(0) << 24 | b(1) << 16 | b(2) << 8 | b(3);
        }
        for (int i = 16; i < 80; ++i) w[i] = rol(w[i - 3] ^ w[i - 8] ^ w[i - 14] ^ w[i - 16], 1);
        uint32_t a = h[0], b = h[1], c = h[2], d = h[3], e = h[4];
        for (int i = 0; i < 80; ++i) {
            uint32_t f, k;
            if (i < 20) { f = (b & c) | (~b & d); k = 0x5A827999; }
            else if (i < 40) { f = b ^ c ^ d; k = 0x6ED9EBA1; }
            else if (i < 60) { f = (b & c) | (b & d) | (c & d); k = 0x8F1BBCDC; }
            else { f = b ^ c ^ d; k = 0xCA62C1D6; }
            uint32_t t = rol(a, 5) + f + e + k + w[i];
            e = d; d = c; c = rol(b, 30); b = a; a = t;
        }
        h[0] += a; h[1] += b; h[2] += c; h[3] += d; h[4] += e;
    }
    std::string r;
    for (auto v : h) for (int i = 3; i >= 0; --i) r += static_cast<char>(v >> (8 * i));
    return r;
}
std::string base64(std::string_view s) {
    static const char* c = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
    std::string r;
    for (size_t i = 0; i < s.size(); i += 3) {
        uint32_t v = 0;
        for (size_t k = 0; k < 3; ++k) v = v << 8 | (i + k < s.size() ? static_cast<unsigned char>(s[i + k]) : 0);
        r += c[v >> 18 & 63];
        r += c[v >> 12 & 63];
        r += i + 1 < s.size() ? c[v >> 6 & 63] : '=';
        r += i + 2 < s.size() ? c[v & 63] : '=';
    }
    return r;
}
std::string wsAcceptKey(std::string_view key) { return base64(sha1(std::string(key) + "258EAFA5-E914-47DA-95CA-C5AB0DC85B11")); }

// ---------------------------------------------------------------- HTTP
std::optional<std::string> HttpReply::header(std::string_view name) const {
    for (auto& [n, v] : headers) if (lower(n) == lower(name)) return v;
    return {};
}
size_t HttpReply::count(std::string_view name) const {
    size_t k = 0;
    for (auto& [n, v] : headers) k += lower(n) == lower(name);
    return k;
}
HttpReply HttpReply::parse(std::string_view b) {
    HttpReply r;
    auto bad = [&](std::string w) { if (!r.malformed) { r.malformed = true; r.why = std::move(w); } };
    size_t eol = b.find("\r\n");
    std::string_view line = b.substr(0, std::min(eol, b.size()));
    std::string_view want = "HTTP/1.";
    if (line.substr(0, std::min(line.size(), want.size())) != want.substr(0, std::min(line.size(), want.size()))) bad("status line: " + printable(line));
    if (eol == std::string_view::npos) { if (b.size() > 200) bad("no status line"); return r; }
    if (line.size() < 12 || line[8] != ' ' || !std::isdigit(line[9]) || !std::isdigit(line[10]) || !std::isdigit(line[11]) || (line.size() > 12 && line[12] != ' ')) {
        bad("status line: " + printable(line));
        return r;
    }
    r.status = (line[9] - '0') * 100 + (line[10] - '0') * 10 + (line[11] - '0');
    size_t p = eol + 2;
    for (;;) {
        size_t e = b.find("\r\n", p);
        if (e == std::string_view::npos) return r;
        if (e == p) { p += 2; break; }
        auto l = b.substr(p, e - p);
        size_t c = l.find(':');
        if (c == std::string_view::npos || c == 0) { bad("header line: " + printable(l)); return r; }
        for (char ch : l) if (static_cast<unsigned char>(ch) < 32 || ch == 127) bad("control character in header: " + printable(l));
        auto v = l.substr(c + 1);
        while (!v.empty() && (v.front() == ' ' || v.front() == '\t')) v.remove_prefix(1);
        for (char ch : l.substr(0, c)) if (ch == ' ' || ch == '/') bad("header name: " + printable(l));
        r.headers.emplace_back(std::string(l.substr(0, c)), std::string(v));
        p = e + 2;
    }
    r.headersComplete = true;
    r.body = std::string(b.substr(p));
    if (auto cl = r.header("content-length")) {
        if (cl->empty() || cl->find_first_not_of("0123456789") != std::string::npos || cl->size() > 12) bad("content-length " + *cl);
        else r.contentLength = std::stoull(*cl);
    }
    if (r.count("content-length") > 1) bad("several content-length headers");
    return r;
}

// ---------------------------------------------------------------- WebSocket
std::string wsEncode(bool fin, int opcode, std::string_view p, bool masked, uint32_t mask, int form, int rsv) {
    std::string r;
    r += static_cast<char>((fin ? 0x80 : 0) | (rsv << 4) | opcode);
    size_t n = p.size();
    int f = form;
    if (n >= 65536) f = 2;
    else if (n >= 126 && f < 1) f = 1;
    char m = masked ? static_cast<char>(0x80) : '\0';
    if (f == 0) r += static_cast<char>(m | static_cast<char>(n));
    else if (f == 1) { r += static_cast<char>(m | 126); r += static_cast<char>(n >> 8); r += static_cast<char>(n); }
    else { r += static_cast<char>(m | 127); for (int i = 7; i >= 0; --i) r += static_cast<char>(static_cast<uint64_t>(n) >> (8 * i)); }
    if (masked) {
        char k[4] = {static_cast<char>(mask >> 24), static_cast<char>(mask >> 16), static_cast<char>(mask >> 8), static_cast<char>(mask)};
        r.append(k, 4);
        size_t o = r.size();
        r += p;
        for (size_t i = 0; i < n; ++i) r[o + i] = static_cast<char>(r[o + i] ^ k[i % 4]);
    }
    else r += p;
    return r;
}

void WsDecoder::feed(std::string_view b) {
    if (error) return;
    buf += b;
    size_t o = 0;
    auto bad = [&](std::string w) { error = true; why = std::move(w); };
    auto u = [&](size_t i) { return static_cast<uint64_t>(static_cast<unsigned char>(buf[o + i])); };
    while (!error) {
        size_t have = buf.size() - o;
        if (have < 2) break;
        bool fin = u(0) & 0x80;
        int op = static_cast<int>(u(0) & 15);
        if (u(0) & 0x70) { bad("reserved bits set in frame header " + hex(std::string_view(buf).substr(o, 16))); break; }
        if (u(1) & 0x80) { bad("masked frame from the server " + hex(std::string_view(buf).substr(o, 16))); break; }
        if (!(op <= 2 || (op >= 8 && op <= 10))) { bad("unknown opcode in " + hex(std::string_view(buf).substr(o, 16))); break; }
        uint64_t n = u(1) & 127;
        size_t hs = 2;
        if (n == 126) { hs = 4; if (have < hs) break; n = u(2) << 8 | u(3); if (n < 126) { bad("non-minimal length"); break; } }
        else if (n == 127) {
            hs = 10;
            if (have < hs) break;
            n = 0;
            for (size_t i = 2; i < 10; ++i) n = n << 8 | u(i);
            if (n < 65536 || n >> 32) { bad("length " + std::to_string(n) + " in 64-bit form"); break; }
        }
        if (op >= 8 && (n > 125 || !fin)) { bad("control frame too long or fragmented"); break; }
        if (have < hs + n) break;
        frames.push_back(WsFrame{fin, op, buf.substr(o + hs, n)});
        o += hs + n;
    }
    buf.erase(0, o);
}

// ---------------------------------------------------------------- WebFront's protocol, as its Javascript client implements it
bool Value::operator==(const Value& o) const {
    if (kind != o.kind) return false;
    switch (kind) {
    case Bool: return b == o.b;
    case Number: return std::memcmp(&d, &o.d, 8) == 0 || (std::isnan(d) && std::isnan(o.d));
    case String: case Exception: return s == o.s;
    case Tuple: return t == o.t;
    }
    return false;
}
std::string Value::show() const {
    switch (kind) {
    case Bool: return b ? "true" : "false";
    case Number: { char x[40]; std::snprintf(x, sizeof x, "%.17g", d); return x; }
    case String: return "\"" + printable(s, 40) + "\"";
    case Exception: return "exception(\"" + printable(s, 60) + "\")";
    case Tuple: return "(" + sim::show(t) + ")";
    }
    return "?";
}
std::string show(const ValueList& l) {
    std::string r;
    for (auto& v : l) r += (r.empty() ? "" : ", ") + v.show();
    return r;
}
static std::string le(uint64_t v, int n) {
    std::string r;
    for (int i = 0; i < n; ++i) r += static_cast<char>(v >> (8 * i));
    return r;
}
std::string encodeValue(const Value& v) {
    switch (v.kind) {
    case Value::Bool: return std::string(1, v.b ? 1 : 2);
    case Value::Number: { uint64_t u; std::memcpy(&u, &v.d, 8); return std::string(1, 3) + le(u, 8); }
    case Value::String: return v.s.size() < 256 ? std::string(1, 4) + le(v.s.size(), 1) + v.s : std::string(1, 5) + le(v.s.size(), 2) + v.s;
    case Value::Exception: return std::string(1, 6) + le(v.s.size(), 2) + v.s;
    case Value::Tuple: { std::string r(1, 18); r += static_cast<char>(v.t.size()); for (auto& e : v.t) r += encodeValue(e); return r; }
    }
    return {};
}
std::optional<Value> decodeValue(std::string_view d, size_t& pos, int depth) {
    auto u = [&](size_t i) { return static_cast<uint64_t>(static_cast<unsigned char>(d[i])); };
    if (pos >= d.size() || depth > 20) return {};
    auto left = d.size() - pos;
    switch (u(pos)) {
    case 1: ++pos; return Value::boolean(true);
    case 2: ++pos; return Value::boolean(false);
    case 3: {
        if (left < 9) return {};
        double x;
        std::memcpy(&x, d.data() + pos + 1, 8);
        pos += 9;
        return Value::number(x);
    }
    case 4: case 5: case 6: {
        bool word = u(pos) != 4;
        size_t hs = word ? 3 : 2;
        if (left < hs) return {};
        size_t n = word ? (u(pos + 1) | u(pos + 2) << 8) : u(pos + 1);
        if (left < hs + n) return {};
        Value v = Value::string(std::string(d.substr(pos + hs, n)));
        if (u(pos) == 6) v.kind = Value::Exception;
        pos += hs + n;
        return v;
    }
    case 18: {
        if (left < 2) return {};
        size_t n = u(pos + 1);
        pos += 2;
        ValueList l;
        for (size_t i = 0; i < n; ++i) {
            auto v = decodeValue(d, pos, depth + 1);
            if (!v) return {};
            l.push_back(*v);
        }
        return Value::tuple(l);
    }
    default: return {};
    }
}
std::string encodeCall(const std::string& name, const ValueList& params) {
    std::string p = encodeValue(Value::string(name));
    for (auto& v : params) p += encodeValue(v);
    std::string r(1, 3);
    r += static_cast<char>(params.size() + 1);
    r += std::string(2, '\0');
    r += le(p.size(), 4);
    return r + p;
}
std::optional<CallMsg> decodeCall(std::string_view m, std::string& why) {
    if (m.size() < 8) { why = "short header"; return {}; }
    size_t count = static_cast<unsigned char>(m[1]);
    size_t size = 0;
    for (size_t i = 0; i < 4; ++i) size |= static_cast<size_t>(static_cast<unsigned char>(m[4 + i])) << (8 * i);
    if (size != m.size() - 8) { why = "payload size field " + std::to_string(size) + " but " + std::to_string(m.size() - 8) + " bytes follow"; return {}; }
    if (count < 1) { why = "no parameters, not even the name"; return {}; }
    size_t pos = 0;
    auto d = m.substr(8);
    CallMsg c;
    for (size_t i = 0; i < count; ++i) {
        auto v = decodeValue(d, pos);
        if (!v) { why = "parameter " + std::to_string(i) + " of " + std::to_string(count) + " cannot be decoded"; return {}; }
        if (i == 0 && static_cast<unsigned char>(m[0]) == 3) {
            if (v->kind != Value::String) { why = "function name is not a string"; return {}; }
            c.name = v->s;
        }
        else c.params.push_back(*v);
    }
    if (pos != d.size()) { why = "bytes left after the last parameter"; return {}; }
    return c;
}

std::string randomBytes(Stream& s, size_t n) {
    std::string r;
    uint64_t x = s.bits();
    for (size_t i = 0; i < n; ++i) { x = mix(x); r += static_cast<char>(x >> 40); }
    return r;
}
std::string randomText(Stream& s, size_t n) {
    std::string r;
    uint64_t x = s.bits();
    for (size_t i = 0; i < n; ++i) { x = mix(x); r += static_cast<char>('a' + (x >> 40) % 26); }
    return r;
}
std::string anyText(Stream& s, size_t n) {
    static const std::vector<std::string> words{"\xc3\xa9", "\xe5\x90\x8d", "\xf0\x9f\x98\x80", "a", " ", "0", "\xc2\xa0", "\xe2\x80\xa8"};
    std::string r;
    uint64_t mode = s.below(12), x = s.bits();
    auto next = [&] { x = mix(x); return static_cast<uint32_t>(x >> 33); };
    if (mode < 5) return randomText(s, n);
    while (r.size() < n) switch (mode) {
        case 5: r += static_cast<char>(32 + next() % 95); break;                      // printable
        case 6: r += words[next() % words.size()]; break;                             // UTF-8
        case 7: r += "\r\n\t \n{}%s\\\"'<&"[next() % 14]; break;
        case 8: r += static_cast<char>(next() % 32); break;                           // controls
        case 9: r += static_cast<char>(128 + next() % 128); break;
        case 10: r += static_cast<char>(next()); break;
        default: { auto c = static_cast<char>(next()); auto k = 1 + next() % 40; r.append(k, c); } break; // runs of one byte
        }
    r.resize(n);
    return r;
}
std::string patternBytes(uint64_t tag, size_t n) {
    std::string r;
    r.reserve(n);
    uint64_t x = mix(tag);
    for (size_t i = 0; i < n; ++i) {
        if (i % 7 == 0) x = mix(x);
        r += static_cast<char>(x >> (8 * (i % 7)));
    }
    return r;
}

// ---------------------------------------------------------------- actors
void HttpClient::start(uint16_t port, const std::string& streamName) {
    PeerCallbacks cb;
    cb.onConnect = [this] {
        if (onConnect) onConnect();
        else conn->send(request);
    };
    cb.onData = [this](std::string_view d) { received += d; W->trace("client-data", conn->id, d.size(), hashStr(d)); if (onData) onData(d); };
    cb.onEnd = [this](bool r) { ended = true; endedByReset = r; endTime = W->now(); W->trace("client-end", conn->id, r); if (onEnd) onEnd(); };
    conn = NW->connect(port, std::move(cb), streamName);
}

std::string upgradeRequestFor(const std::string& key, const std::string& path) {
    return "GET " + path + " HTTP/1.1\r\nHost: localhost\r\nUpgrade: websocket\r\nConnection: Upgrade\r\nSec-WebSocket-Key: " + key +
           "\r\nSec-WebSocket-Protocol: WebFront_0.1\r\nSec-WebSocket-Version: 13\r\n\r\n";
}

void WsClient::start(uint16_t port, const std::string& streamName) {
    if (key.empty()) key = "dGhlIHNhbXBsZSBub25jZQ==";
    if (upgradeRequest.empty()) upgradeRequest = upgradeRequestFor(key);
    PeerCallbacks cb;
    cb.onConnect = [this] { conn->send(upgradeRequest); };
    cb.onData = [this](std::string_view d) { W->trace("client-data", conn->id, d.size(), 0); feed(d); };
    cb.onEnd = [this](bool r) { ended = true; endedByReset = r; W->trace("client-end", conn->id, r); if (onEnd) onEnd(); };
    conn = NW->connect(port, std::move(cb), streamName);
}

void WsClient::feed(std::string_view b) {
    if (!upgraded) {
        if (upgradeFailed) { httpBuf += b; return; }
        httpBuf += b;
        auto r = HttpReply::parse(httpBuf);
        if (!r.headersComplete && !r.malformed) return;
        upgradeReply = r;
        if (r.malformed || r.status != 101) { upgradeFailed = true; return; }
        upgraded = true;
        std::string rest = r.body;
        upgradeReply.body.clear();
        if (onOpen) onOpen();
        if (!rest.empty()) feed(rest);
        return;
    }
    dec.feed(b);
    if (dec.error && protocolError.empty()) protocolError = dec.why;
    while (framesSeen < dec.frames.size()) {
        WsFrame f = dec.frames[framesSeen++];
        if (gotClose && protocolError.empty()) protocolError = "frame after close frame";
        if (f.opcode >= 8) {
            if (f.opcode == 8) gotClose = true;
            controls.push_back(f);
            if (onControl) onControl(f);
            continue;
        }
        if (f.opcode == 0 && !inFragment) { if (protocolError.empty()) protocolError = "continuation without start"; continue; }
        if (f.opcode != 0 && inFragment) { if (protocolError.empty()) protocolError = "new message inside a fragmented one"; continue; }
        if (f.opcode != 0) { partial.clear(); partialOpcode = f.opcode; }
        partial += f.payload;
        inFragment = !f.fin;
        if (f.fin) {
            messages.push_back(Msg{partialOpcode, std::move(partial)});
            partial.clear();
            if (onMessage) onMessage(messages.back());
        }
    }
}

void WsClient::queueFrame(bool fin, int opcode, std::string_view payload, int lenForm) {
    if (opcode == 8) sentClose = true;
    out += wsEncode(fin, opcode, payload, masked, rnd ? static_cast<uint32_t>(rnd->bits()) : fixedMask, lenForm);
}
void WsClient::flush() {
    if (!out.empty()) conn->send(out);
    out.clear();
}
void WsClient::sendFrame(bool fin, int opcode, std::string_view payload, int lenForm) {
    queueFrame(fin, opcode, payload, lenForm);
    flush();
}

void Page::install() {
    auto userOpen = std::move(onOpen);
    onOpen = [this, userOpen = std::move(userOpen)] {
        if (autoHandshake) handshake();
        if (userOpen) userOpen();
    };
    onMessage = [this](const Msg& m) {
        Event e{Event::Other, {}, {}, m.payload};
        auto bad = [&](std::string w) { if (pageError.empty()) pageError = std::move(w); };
        if (m.opcode == 1) { e.text = m.payload; }
        else if (m.payload.empty()) bad("empty binary message");
        else switch (static_cast<unsigned char>(m.payload[0])) {
            case 1:
                if (m.payload.size() != 2) bad("ack of " + std::to_string(m.payload.size()) + " bytes");
                else if (m.payload[1] != 0) bad("wrong endianness in ack"); // this host is little endian
                e.kind = Event::Ack;
                acked = true;
                ++acks;
                break;
            case 2: {
                if (m.payload.size() < 4) { bad("short text command"); break; }
                size_t n = static_cast<size_t>(static_cast<unsigned char>(m.payload[2])) << 8 | static_cast<unsigned char>(m.payload[3]);
                if (m.payload[1] != 0 && m.payload[1] != 1) bad("text opcode " + std::to_string(m.payload[1]));
                e.kind = m.payload[1] == 0 ? Event::Log : Event::Script;
                if (n != m.payload.size() - 4) bad("text command announces " + std::to_string(n) + " bytes and carries " + std::to_string(m.payload.size() - 4));
                e.text = m.payload.substr(4, n);
            } break;
            case 3: case 4: {
                std::string why;
                auto c = decodeCall(m.payload, why);
                if (!c) { bad("call cannot be decoded: " + why + " in " + hex(m.payload, 60)); break; }
                e.kind = m.payload[0] == 3 ? Event::Call : Event::Return;
                e.call = *c;
            } break;
            default: bad("unknown command in " + hex(m.payload, 24));
            }
        events.push_back(e);
        if (e.kind == Event::Ack && onAck) onAck();
        if (onEvent) onEvent(e);
    };
}
void Page::open(uint16_t port, const std::string& streamName) {
    install();
    start(port, streamName);
}

void Page::sendMessage(Stream& s, int opcode, std::string_view payload, bool controlsBetween) {
    uint32_t parts = s.chance(400) ? 2 + s.scale(4, 40, 600) : 1;
    for (uint32_t i = 0; i < parts; ++i) {
        bool last = i + 1 == parts;
        size_t n = last ? payload.size() : s.below(static_cast<uint32_t>(payload.size()) + 1);
        int form = s.chance(150) ? 1 + static_cast<int>(s.below(2)) : 0;
        queueFrame(last, i == 0 ? opcode : 0, payload.substr(0, n), form);
        payload.remove_prefix(n);
        if (!last && controlsBetween && s.chance(300)) {
            auto p = anyText(s, s.below(126));
            if (s.chance(600)) { pingsSent.push_back(p); queueFrame(true, 9, p); }
            else queueFrame(true, 10, p);
        }
        if (s.chance(200)) flush();
    }
    flush();
}

} // namespace sim
