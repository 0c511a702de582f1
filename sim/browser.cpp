#include "browser.hpp"
#include <cerrno>
#include <csignal>
#include <cstdlib>
#include <cstring>
#include <fcntl.h>
#include <stdexcept>
#include <sys/prctl.h>
#include <sys/socket.h>
#include <sys/wait.h>
#include <unistd.h>

namespace sim {
namespace {
int fd = -1;
pid_t pid = -1;
std::string program;
uint64_t runs = 0, token = 0;

void put32(std::string& s, uint32_t v) { for (int i = 0; i < 4; ++i) s += static_cast<char>(v >> (8 * i)); }
uint32_t get32(std::string_view s, size_t o) {
    uint32_t v = 0;
    for (size_t i = 0; i < 4; ++i) v |= static_cast<uint32_t>(static_cast<unsigned char>(s[o + i])) << (8 * i);
    return v;
}
void readAll(char* p, size_t n) {
    while (n) {
        auto k = ::recv(fd, p, n, 0);
        if (k < 0 && errno == EINTR) continue;
        if (k <= 0) throw std::runtime_error("the browser process has ended");
        p += k;
        n -= static_cast<size_t>(k);
    }
}
void stop() {
    if (fd >= 0) close(fd);
    if (pid > 0) { kill(pid, SIGKILL); while (waitpid(pid, nullptr, 0) < 0 && errno == EINTR) {} }
    fd = -1;
    pid = -1;
}
} // namespace

bool haveBrowser() { return fd >= 0; }
void restartBrowser() {
    stop();
    int sv[2];
    if (socketpair(AF_UNIX, SOCK_STREAM, 0, sv) != 0) { std::perror("socketpair"); std::exit(2); }
    fcntl(sv[0], F_SETFD, FD_CLOEXEC);
    pid = fork();
    if (pid == 0) {
        prctl(PR_SET_PDEATHSIG, SIGKILL);
        dup2(sv[1], 3);
        if (sv[1] != 3) close(sv[1]);
        execlp("node", "node", "--no-warnings", "--stack-size=984", program.c_str(), "3", static_cast<char*>(nullptr));
        _exit(127);
    }
    close(sv[1]);
    fd = sv[0];
}
void startBrowser(const std::string& script) {
    program = script;
    restartBrowser();
    std::atexit(stop);
}
void browserRunDone(bool clean) {
    if (fd < 0) return;
    if (!clean || ++runs % 1500 == 0) restartBrowser();
}
std::vector<Effect> browserCommand(const std::string& op, const std::vector<std::string>& fields) {
    if (fd < 0) throw std::runtime_error("no browser process");
    std::string body;
    auto tag = std::to_string(getpid()) + "." + std::to_string(++token);
    auto add = [&](const std::string& f) { put32(body, static_cast<uint32_t>(f.size())); body += f; };
    add(tag);
    add(op);
    for (auto& f : fields) add(f);
    std::string frame;
    put32(frame, static_cast<uint32_t>(body.size()));
    frame += body;
    for (size_t o = 0; o < frame.size();) {
        auto k = ::send(fd, frame.data() + o, frame.size() - o, MSG_NOSIGNAL);
        if (k < 0 && errno == EINTR) continue;
        if (k <= 0) throw std::runtime_error("the browser process has ended");
        o += static_cast<size_t>(k);
    }
    for (;;) {
        char h[4];
        readAll(h, 4);
        std::string reply(get32(std::string_view(h, 4), 0), '\0');
        readAll(reply.data(), reply.size());
        std::vector<std::string> f;
        for (size_t o = 0; o + 4 <= reply.size();) {
            size_t n = get32(reply, o);
            f.push_back(reply.substr(o + 4, n));
            o += 4 + n;
        }
        if (f.size() < 2 || f[0] != tag) continue; // of an earlier run
        if (f[1] != "ok") throw std::runtime_error("browser: " + f[1]);
        std::vector<Effect> r;
        for (size_t i = 2; i < f.size();) {
            size_t n = std::stoul(f[i]);
            Effect e{f[i + 1], {}};
            for (size_t k = 3; k <= n; ++k) e.f.push_back(f[i + k]); // [kind, page, fields...]
            i += n + 1;
            r.push_back(std::move(e));
        }
        return r;
    }
}

static void packOne(const Value& v, std::string& out) {
    switch (v.kind) {
    case Value::Bool: out += v.b ? 'T' : 'F'; break;
    case Value::Number: out += 'N'; out.append(reinterpret_cast<const char*>(&v.d), 8); break;
    case Value::String: case Value::Exception: out += 'S'; put32(out, static_cast<uint32_t>(v.s.size())); out += v.s; break;
    case Value::Tuple: out += 'A'; put32(out, static_cast<uint32_t>(v.t.size())); for (auto& e : v.t) packOne(e, out); break;
    }
}
std::string packValues(const ValueList& l) {
    std::string r;
    packOne(Value::tuple(l), r);
    return r;
}
static std::optional<Value> unpackOne(std::string_view b, size_t& p) {
    if (p >= b.size()) return {};
    switch (b[p++]) {
    case 'T': return Value::boolean(true);
    case 'F': return Value::boolean(false);
    case 'N': { if (b.size() - p < 8) return {}; double d; std::memcpy(&d, b.data() + p, 8); p += 8; return Value::number(d); }
    case 'S': { size_t n = get32(b, p); p += 4 + n; return Value::string(std::string(b.substr(p - n, n))); }
    case 'A': {
        size_t n = get32(b, p);
        p += 4;
        ValueList l;
        for (size_t i = 0; i < n; ++i) { auto v = unpackOne(b, p); if (!v) return {}; l.push_back(std::move(*v)); }
        return Value::tuple(std::move(l));
    }
    default: return {};
    }
}
std::optional<ValueList> unpackValues(std::string_view b) {
    size_t p = 0;
    auto v = unpackOne(b, p);
    if (!v || v->kind != Value::Tuple || p != b.size()) return {};
    return v->t;
}
} // namespace sim
