#include "http_kit.hpp"
#include <algorithm>

namespace sim {

static const std::vector<std::string> exts{"html", "txt", "js", "css", "json", "png", "jpg", "jpeg", "gif", "svg", "ico", "pdf", "ttf", "webp", "csv", "mjs", "htm", "bin", "dat", ""};

bool mimeFits(std::string_view path, std::string_view ct, bool lenient) {
    auto slash = path.rfind('/');
    auto name = slash == std::string_view::npos ? path : path.substr(slash + 1);
    auto dot = name.rfind('.');
    std::string e = dot == std::string_view::npos || dot == 0 ? "" : std::string(name.substr(dot + 1));
    std::string t = lower(ct.substr(0, ct.find(';')));
    while (!t.empty() && t.back() == ' ') t.pop_back();
    static const std::map<std::string, std::vector<std::string>> known{
      {"html", {"text/html"}}, {"htm", {"text/html"}}, {"js", {"application/javascript", "text/javascript"}}, {"mjs", {"application/javascript", "text/javascript"}},
      {"css", {"text/css"}}, {"json", {"application/json"}}, {"png", {"image/png"}}, {"jpg", {"image/jpeg"}}, {"jpeg", {"image/jpeg"}}, {"gif", {"image/gif"}},
      {"svg", {"image/svg+xml"}}, {"ico", {"image/x-icon", "image/vnd.microsoft.icon"}}, {"pdf", {"application/pdf"}}, {"ttf", {"font/ttf"}},
      {"webp", {"image/webp"}}, {"csv", {"text/csv"}}};
    auto it = known.find(e);
    if (it == known.end()) return lenient || t == "text/plain" || t == "application/octet-stream";
    return std::find(it->second.begin(), it->second.end(), t) != it->second.end();
}

std::string contentFor(Stream& s, size_t size) {
    uint64_t tag = s.bits();
    if (s.chance(300)) { // zeros and repetitive bytes
        std::string r(size, static_cast<char>(tag));
        for (size_t i = 0; i < size; i += 37) r[i] = static_cast<char>(i);
        return r;
    }
    return patternBytes(tag, size);
}
std::string randomFileName(Stream& s) {
    static const std::vector<std::string> alphabet{"a", "b", "x", "0", "9", "-", "_", "file", "README", "~", " ", "é", "名", ".", "$", "&", "=", "#", "?", ";", ",", "%", "+"};
    std::string n;
    uint32_t k = 1 + s.below(5);
    for (uint32_t i = 0; i < k; ++i) {
        auto& p = s.pick(alphabet);
        if (p == "." && (n.empty() || n.back() == '.')) continue;
        n += p;
    }
    if (n.empty()) n = "f";
    if (n.back() == '.') n.pop_back();
    if (n.empty()) n = "g";
    auto& e = s.pick(exts);
    if (!e.empty()) n += "." + e;
    return n;
}
size_t bodyLimit() {
    auto w = W->knobs.window;
    size_t m = w <= 16 ? 500 : w <= 64 ? 1500 : w <= 1024 ? 12000 : 70000;
    if (W->knobs.partialWritePermille >= 900) m = std::min<size_t>(m, 12000);
    return m;
}
Site makeDiskSite(Stream& s, size_t maxSize, size_t maxFiles) {
    Site site;
    size_t n = 1 + s.below(static_cast<uint32_t>(maxFiles));
    static const std::vector<std::string> dirs{"", "", "", "sub/", "sub/deep/", "scripts/", "dir b/"};
    for (size_t i = 0; i < n; ++i) {
        SiteFile f;
        f.path = i == 0 ? "index.html" : i == 1 && s.chance(500) ? "sub/index.html" : s.pick(dirs) + randomFileName(s);
        if (site.find(f.path)) continue;
        if (f.path.find("..") != std::string::npos) continue;
        f.content = contentFor(s, s.sizeUpTo(static_cast<uint32_t>(maxSize)));
        site.files.push_back(std::move(f));
    }
    writeSite(site);
    return site;
}
void writeSite(const Site& site) {
    disk.wipe();
    disk.mkdirs(disk.root);
    for (auto& f : site.files) disk.write(disk.root + "/" + f.path, f.content);
}

std::string percentEncode(Stream& s, std::string_view path, uint32_t permille) {
    std::string r;
    for (unsigned char c : path) {
        bool must = c <= 32 || c >= 127 || c == '%' || c == '+' || c == '?' || c == '#';
        if (must || (permille && s.chance(permille))) {
            char b[8];
            std::snprintf(b, sizeof b, s.chance(300) ? "%%%02X" : "%%%02x", c);
            r += b;
        }
        else r += static_cast<char>(c);
    }
    return r;
}

// a header's name: any token, often very short
static std::string tokenText(Stream& s, size_t n) {
    static const std::string chars = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789-_!#$%&'*+.^`|~";
    std::string r;
    uint64_t x = s.bits();
    for (size_t i = 0; i < n; ++i) { x = mix(x); r += chars[(x >> 33) % chars.size()]; }
    return r;
}
// what a header's value or a folded line of it may hold
static std::string fieldText(Stream& s, size_t n) {
    std::string r = anyText(s, n);
    for (auto& c : r) if (static_cast<unsigned char>(c) < 32 || c == 127) c = '\t';
    return r;
}
static bool plainName(const std::string& name) { // not one that means something to the server
    static const std::vector<std::string> taken{"accept-encoding", "connection", "upgrade", "sec-websocket-key", "sec-websocket-protocol", "content-length", "transfer-encoding"};
    std::string l;
    for (auto c : name) l += static_cast<char>(std::tolower(c));
    return std::find(taken.begin(), taken.end(), l) == taken.end();
}

std::string randomHeaders(Stream& s, uint32_t n) {
    static const std::vector<std::string> fixed{"Host: localhost", "User-Agent: Mozilla/5.0 (X11; Linux x86_64)", "Accept: */*", "Accept-Language: en-us, fr;q=0.5",
                                                "Connection: keep-alive", "Cache-Control: no-cache", "Upgrade-Insecure-Requests: 1", "DNT: 1", "X-Empty: ",
                                                "Referer: http://localhost:80/a?b=c&d=(e)\"<>@,;\\/[]{}", "X-Utf: \xc3\xa9\xe5\x90\x8d", "Cookie: a=1; b=2"};
    std::string r;
    for (uint32_t i = 0; i < n; ++i) {
        switch (s.below(8)) {
        case 0: { // random name and value
            auto name = tokenText(s, s.chance(300) ? 1 : 1 + s.below(s.chance(50) ? 400 : 20)), v = fieldText(s, s.below(60));
            if (!plainName(name)) name = "x";
            r += name + (s.chance(700) ? ": " : ":") + v + "\r\n";
        } break;
        case 1: // continued on further lines
            r += "X-Fold: " + fieldText(s, s.below(8)) + "\r\n";
            for (uint32_t k = 1 + s.below(3); k--;) r += (s.chance(500) ? " " : "\t") + fieldText(s, s.below(8)) + "\r\n";
            break;
        case 2: r += "X-Tight:" + randomText(s, s.below(8)) + "\r\n"; break; // the space after the colon is optional
        case 3: r += "X-Wide:  \t " + randomText(s, 1 + s.below(8)) + (s.chance(300) ? "\t" : " ") + "a\r\n"; break;
        case 4:
            if (s.chance(200)) { r += "X-Long: " + randomText(s, s.below(9000)) + "\r\n"; break; }
            [[fallthrough]];
        default: r += s.pick(fixed) + "\r\n";
        }
    }
    return r;
}

std::string mixCase(Stream& s, std::string t) {
    switch (s.below(4)) {
    case 0: return t;
    case 1: for (auto& c : t) c = static_cast<char>(std::tolower(c)); return t;
    case 2: for (auto& c : t) c = static_cast<char>(std::toupper(c)); return t;
    default: for (auto& c : t) c = static_cast<char>(s.below(2) ? std::toupper(c) : std::tolower(c)); return t;
    }
}

static std::string crlfJoin(const std::string& line, const std::string& headers) { return line + "\r\n" + headers + "\r\n"; }

GenReq genRequest(Stream& s, const Site& site, const ReqMix& mix) {
    GenReq r;
    uint32_t total = mix.ok + mix.notFound + mix.other + mix.target + mix.malformed + mix.odd + mix.incomplete;
    uint32_t x = s.below(total);
    auto in = [&](uint32_t w) { if (x < w) return true; x -= w; return false; };
    std::string version = s.chance(200) ? "HTTP/1.0" : s.chance(30) ? "HTTP/1." + std::to_string(s.below(10)) : "HTTP/1.1";
    auto headers = randomHeaders(s, s.below(s.chance(50) ? 120 : 6));
    if (s.chance(15)) { // unusual sizes
        if (s.chance(500)) headers += randomHeaders(s, 200 + s.below(600));
        else headers += "X-Huge: " + randomText(s, 60000 + s.below(30000)) + "\r\n";
    }
    auto plainTarget = [&](const SiteFile& f) {
        std::string p = f.path;
        if (p == "index.html" && s.chance(400)) p.clear();
        else if (p.size() > 11 && p.ends_with("/index.html") && s.chance(400)) p.resize(p.size() - 10);
        return "/" + percentEncode(s, p, s.pick(std::vector<uint32_t>{0, 0, 100, 1000}));
    };
    auto okRequest = [&] {
        r.file = &site.files[s.below(static_cast<uint32_t>(site.files.size()))];
        r.method = s.chance(250) ? "HEAD" : "GET";
        r.target = plainTarget(*r.file);
        if (s.chance(300)) {
            static const std::vector<std::vector<std::string>> lists{{"gzip"}, {"gzip", "deflate"}, {"br"}, {"gzip", "deflate", "br"}, {"identity"}};
            r.acceptedEncodings = s.pick(lists);
            std::string v;
            bool several = s.chance(300);
            for (auto& e : r.acceptedEncodings) {
                if (several) headers += "Accept-Encoding: " + e + "\r\n";
                else v += (v.empty() ? "" : s.chance(500) ? ", " : ",") + e;
            }
            if (!several) headers += (s.chance(300) ? "accept-encoding: " : "Accept-Encoding: ") + v + "\r\n";
        }
        r.status = 200;
        if (!r.file->encoding.empty() && std::find(r.acceptedEncodings.begin(), r.acceptedEncodings.end(), r.file->encoding) == r.acceptedEncodings.end()) r.status = 506;
        r.bytes = crlfJoin(r.method + " " + r.target + " " + version, headers);
        r.kind = r.method == "HEAD" ? "head" : "get";
    };
    if (in(mix.ok)) { okRequest(); }
    else if (in(mix.notFound)) {
        r.kind = "notfound";
        r.method = s.chance(250) ? "HEAD" : "GET";
        std::string p;
        do p = "missing/" + randomText(s, 1 + s.below(s.chance(40) ? 6000 : 10)) + (s.chance(500) ? ".html" : s.chance(500) ? "/" : ""); while (site.find(p));
        if (s.chance(150)) { // bytes that are unusual in a target
            auto t = fieldText(s, 1 + s.below(30));
            std::erase_if(t, [](char c) { return c == ' ' || c == '\t' || c == '%' || c == '.' || c == '/' || c == '\\'; });
            p += t;
        }
        r.target = "/" + p;
        r.status = 404;
        r.bytes = crlfJoin(r.method + " " + r.target + " " + version, headers);
    }
    else if (in(mix.other)) {
        static const std::vector<std::string> methods{"POST", "PUT", "DELETE", "OPTIONS", "PATCH", "TRACE", "CONNECT", "FOO", "get", "G", "GETX", "GE", "HEADS", "PROPFIND", "M-SEARCH", "HEADGET", "Head", "HEA", "*"};
        r.kind = "other";
        r.method = s.pick(methods);
        if (s.chance(150)) do r.method = tokenText(s, 1 + s.below(s.chance(100) ? 3000 : 12)); while (r.method == "GET" || r.method == "HEAD");
        r.target = plainTarget(site.files[0]);
        r.status = 501;
        std::string body;
        if (s.chance(400)) { body = randomBytes(s, s.below(300)); headers += "Content-Length: " + std::to_string(body.size()) + "\r\n"; }
        r.bytes = crlfJoin(r.method + " " + r.target + " " + version, headers) + body;
    }
    else if (in(mix.target)) {
        static const std::vector<std::string> targets{"index.html", "*", "http://localhost/index.html", "/../index.html", "/a/../index.html", "/..", "/%2e%2e/secret.txt", "/.%2E/secret.txt",
                                                      "/a..b", "/sub/..%2findex.html", "x", "%", "%2", "./index.html", "../../etc/passwd", "?", "#/"};
        r.kind = "target";
        r.method = s.chance(250) ? "HEAD" : "GET";
        r.target = s.pick(targets);
        r.status = 400;
        r.bytes = crlfJoin(r.method + " " + r.target + " " + version, headers);
    }
    else if (in(mix.malformed)) {
        r.kind = "malformed";
        r.method = s.chance(200) ? "HEAD" : "GET";
        r.target = plainTarget(site.files[0]);
        r.status = 400;
        std::string line = r.method + " " + r.target + " " + version;
        static const std::vector<std::string> bad{"\x01", "\x7f", "\x1b", "\x08", std::string(1, '\0'), "\n"};
        static const std::vector<std::string> separators{"(", ")", "<", ">", "@", ",", ";", "\\", "\"", "/", "[", "]", "?", "=", "{", "}", " ", "\t", "\x01", "\x7f", "\xc3", "\xff", std::string(1, '\0'), "\r", "\n"};
        auto put = [&](std::string t, const std::string& what) { return t.insert(s.below(static_cast<uint32_t>(t.size()) + 1), what); };
        switch (s.below(27)) {
        case 16: line = r.method + "\t" + r.target + " " + version; break;
        case 17: line = r.method + " " + put(r.target, s.pick(bad)) + " " + version; break;
        case 18: line += " "; break;
        case 19: line += s.pick(std::vector<std::string>{".1", "x", "-1", ",", ":", " x"}); break;
        case 20: line = r.method + " " + r.target + " " + s.pick(std::vector<std::string>{"HTTP/1,1", "HTTP/-1.1", "HTTP/1.", "HTTP//1.1", "HTTP/11", "HTT/1.1", "HHTTP/1.1", "HTTPS/1.1", "", "1.1", "HTTP/1. 1", "HTTP/ 1.1", "HTTP/1.-1", "HTTP/a.1"}); break;
        case 21: headers = s.pick(std::vector<std::string>{" ", "\t"}) + "X-First: folded onto nothing\r\n" + headers; break;
        case 22: headers += "a" + put(tokenText(s, s.below(12)), s.pick(separators)) + ": x\r\n"; break;
        case 23: headers += "X-Bad: " + put(fieldText(s, s.below(20)), s.pick(bad)) + "\r\n"; break;
        case 24: headers += "X-Fold: a\r\n " + put(fieldText(s, s.below(9)), s.pick(bad)) + "\r\n"; break;
        case 25: r.bytes = line + "\r\n" + headers + s.pick(std::vector<std::string>{"\rX", "\n", "\r\r\n"}); return r;
        case 26: line = put(r.method, s.pick(separators)) + " " + r.target + " " + version; break;
        case 0: line = r.method + " " + version; break;
        case 1: line = r.method + "  " + r.target + " " + version; break;
        case 2: line = r.method + " " + r.target + " HTTX/1.1"; break;
        case 3: line = r.method + " " + r.target + " HTTP 1.1"; break;
        case 4: line = r.method + " " + r.target + " HTTP/1"; break;
        case 5: line = r.method + " " + r.target + " HTTP/.1"; break;
        case 6: line = r.method + " " + r.target + " http/1.1"; break;
        case 7: line = r.method + " " + r.target + " HTTP/1.x"; break;
        case 8: line = std::string("G") + s.pick(std::vector<std::string>{"@", "\x01", "(", "\"", "\x7f", "=", "{", "\xc3"}) + "T " + r.target + " " + version; break;
        case 9: line = " " + line; break;
        case 10: headers += "User - Agent: x\r\n"; break;
        case 11: headers += "NoColonHere\r\n"; break;
        case 12: headers += s.pick(std::vector<std::string>{":", "(a): b", "a\x02z: b", "\x7f: b", "a/b: c", "[x]: y"}) + "\r\n"; break;
        case 13: headers += std::string("X-Bad: a") + s.pick(std::vector<std::string>{"\x01", "\x7f", "\x1b", "\x08"}) + "b\r\n"; break;
        case 14: line = r.method + " " + r.target + " " + version + "\rX"; break;
        default: headers += "X-Cr: a\rb\r\n"; break;
        }
        r.bytes = crlfJoin(line, headers);
    }
    else if (in(mix.odd)) {
        okRequest();
        int expected = r.status;
        r.kind = "odd";
        r.status = 0;
        if (s.chance(400)) { // headers that mean something, with values that may not
            static const std::vector<std::string> names{"Content-Length", "Transfer-Encoding", "Connection", "Upgrade", "Accept-Encoding", "Host", "Range", "If-Modified-Since", "If-None-Match", "Expect", "Accept", "Origin", "Cookie", "Sec-WebSocket-Version", "Sec-WebSocket-Protocol", "Sec-WebSocket-Extensions", "Authorization", "Content-Type", "TE", "Keep-Alive", "Date"};
            static const std::vector<std::string> values{"", "0", "1", "-1", "x", "99999999999999999999999999", "0x10", "1e9", "chunked", "close", "keep-alive", "websocket", "Upgrade", "upgrade, close", ",", ",,;q=", "gzip;q=0.5", "*", "identity;q=0", "bytes=0-", "bytes=5-2", "bytes=-99999999999999999999", "100-continue", "Thu, 19 Nov 2026 21:00:00 GMT", "W/\"a\"", "\"", "13", "webfront", "{}", "%s%n", "localhost:", "[::1]:80", "a:b:c", ";", "=", "timeout=x"};
            std::string more;
            bool matters = false; // may change what is answered to a GET or HEAD request
            for (uint32_t j = 1 + s.below(3); j--;) {
                auto& name = s.pick(names);
                for (auto which : {"Content-Length", "Transfer-Encoding", "Connection", "Upgrade", "Accept-Encoding", "Range", "If-", "Expect", "Sec-WebSocket"}) matters |= name.starts_with(which);
                more += mixCase(s, name) + ": " + (s.chance(700) ? s.pick(values) : fieldText(s, s.below(30))) + "\r\n";
            }
            r.bytes.insert(r.bytes.find("\r\n") + 2, more);
            if (!matters && s.chance(800)) {
                r.status = expected;
                r.kind = r.method == "HEAD" ? "head" : "get";
                return r;
            }
            if (s.chance(600)) { r.mustAnswer = true; return r; }
        }
        else if (s.chance(150)) { // a percent sign that starts no escape
            static const std::vector<std::string> escapes{"%", "%4z", "%z4", "%zz", "%g0", "%0g", "%/0", "%:a", "%@0", "%`0", "%%41", "%4", "%-1", "%0x41", "%\xc3\xa9"};
            r.bytes.insert(r.method.size() + 1 + r.target.size(), s.pick(escapes) + s.pick(std::vector<std::string>{"", "b", ".txt", "/"}));
            r.mustAnswer = true;
            return r;
        }
        uint32_t k = 1 + s.below(4);
        for (uint32_t i = 0; i < k; ++i) {
            auto pos = s.below(static_cast<uint32_t>(r.bytes.size()));
            switch (s.below(6)) {
            case 0: r.bytes[pos] = static_cast<char>(s.below(256)); break;
            case 1: r.bytes.erase(pos, 1 + s.below(4)); break;
            case 2: r.bytes.insert(pos, randomBytes(s, 1 + s.below(4))); break;
            case 3: r.bytes.insert(pos, s.pick(std::vector<std::string>{"\r\n", "\n", "\r", " ", ":", "\t", "HTTP/1.1", "GET", "%00", "/", "9999999999999", "\r\n\r\n", ": "})); break;
            case 4: r.bytes.insert(pos, r.bytes.substr(s.below(static_cast<uint32_t>(r.bytes.size())), s.below(30))); break;
            default: r.bytes = randomBytes(s, s.below(400)); break;
            }
            if (r.bytes.empty()) r.bytes = "x";
        }
    }
    else {
        okRequest();
        r.kind = "incomplete";
        r.complete = false;
        r.status = -1;
        r.bytes.resize(s.below(static_cast<uint32_t>(r.bytes.size())));
    }
    if (r.status > 0 && r.kind != "malformed" && s.chance(30)) { // headers that end around the end of a buffer
        static const std::vector<uint32_t> units{8192, 8192, 8192, 4096, 1024, 512, 256};
        auto end = r.bytes.find("\r\n\r\n") + 4;
        auto unit = s.pick(units);
        auto want = (end / unit + 1 + s.below(3)) * unit + s.below(7) - 3;
        if (want > end + 12) r.bytes.insert(end - 2, "X-Pad: " + std::string(want - end - 9, 'p') + "\r\n");
    }
    return r;
}

std::string judgeReply(const GenReq& r, std::string_view received) {
    if (r.status == -1) return received.empty() ? "" : "a reply to an incomplete request: " + printable(received);
    if (r.status == 0) {
        if (received != r.baseline) return "reply differs from the one the same bytes got alone: " + printable(received) + " instead of " + printable(r.baseline);
        if (received.empty()) return r.baselineEnded || r.mustAnswer ? "no reply" : "";
        auto p = HttpReply::parse(received);
        if (p.malformed) return "malformed reply (" + p.why + "): " + printable(received);
        if (!p.headersComplete) return "incomplete reply: " + printable(received);
        if (p.contentLength && !p.body.empty() && p.body.size() != *p.contentLength) return "body of " + std::to_string(p.body.size()) + " bytes, content-length " + std::to_string(*p.contentLength);
        return {};
    }
    if (received.empty()) return "no reply";
    auto p = HttpReply::parse(received);
    if (p.malformed) return "malformed reply (" + p.why + "): " + printable(received);
    if (!p.headersComplete) return "incomplete reply: " + printable(received);
    if (p.status != r.status) return "status " + std::to_string(p.status) + " instead of " + std::to_string(r.status);
    if (!p.contentLength) return "no content-length";
    bool mayLackBody = r.head() && r.kind == "malformed"; // the method of a malformed request may or may not be known
    if (r.head() && !(mayLackBody && !p.body.empty())) {
        if (!p.body.empty()) return "HEAD reply with a body of " + std::to_string(p.body.size()) + " bytes";
    }
    else if (p.body.size() != *p.contentLength)
        return "body of " + std::to_string(p.body.size()) + " bytes, content-length " + std::to_string(*p.contentLength);
    if (r.status == 200) {
        if (*p.contentLength != r.file->content.size()) return "content-length " + std::to_string(*p.contentLength) + " for a file of " + std::to_string(r.file->content.size()) + " bytes";
        if (!r.head() && p.body != r.file->content) return "body differs from the file";
        auto ct = p.header("content-type");
        if (!ct) return "no content-type";
        if (p.count("content-type") > 1) return "several content-types";
        if (!mimeFits(r.file->path, *ct)) return "content-type " + *ct + " for " + r.file->path;
        auto ce = p.header("content-encoding");
        if (ce.has_value() != !r.file->encoding.empty() || (ce && *ce != r.file->encoding)) return "content-encoding " + ce.value_or("(none)") + " for a file stored as '" + r.file->encoding + "'";
    }
    return {};
}
std::string describe(const GenReq& r) {
    return r.kind + " " + printable(r.bytes.substr(0, r.bytes.find("\r\n")), 80) + " (" + std::to_string(r.bytes.size()) + " bytes, expects " + (r.status == 0 ? "baseline" : std::to_string(r.status)) + ")";
}
} // namespace sim
