#include "core.hpp"
#include <algorithm>
#include <optional>
#include <unistd.h>

namespace sim {
World* W = nullptr;
static Shared localShared{};
Shared* shared = &localShared;
void (*Stream::recorder)(const std::string&, uint32_t) = nullptr;
int World::verboseFd = -1;

const char* faultName(Fault f) {
    static const char* names[] = {"segmentation", "coalescing", "delay", "partial_write", "partial_read", "speculative_io", "server_stall", "client_stall",
                                  "zero_window", "partition", "client_fin", "client_half_close", "client_reset", "reset_drops_data", "accept_error",
                                  "accept_aborted", "disk_short_read", "disk_eintr", "disk_eio", "disk_open_fail", "clock_jump", "server_destroyed",
                                  "malformed_input", "write_error", "read_error", "alloc_fail"};
    return names[static_cast<int>(f)];
}

World::World(uint64_t s, const Tapes* replay) : seed(s), replayTapes(replay) {}
World::~World() {}

Stream& World::stream(const std::string& name) {
    auto it = streams.find(name);
    if (it == streams.end()) {
        static const std::vector<uint32_t> empty;
        const std::vector<uint32_t>* tape = nullptr;
        if (replayTapes) {
            auto t = replayTapes->find(name);
            tape = t == replayTapes->end() ? &empty : &t->second;
        }
        it = streams.emplace(name, std::make_unique<Stream>(name, mix(seed ^ mix(hashStr(name))), tape)).first;
    }
    return *it->second;
}

void World::at(Time when, std::function<void()> fn) {
    heap.push_back(Ev{std::max(when, time), seq++, std::move(fn)});
    std::push_heap(heap.begin(), heap.end(), Later{});
}

bool World::step() {
    if (done() || heap.empty()) return false;
    if (events >= maxEvents || heap.front().t > maxTime) {
        limitHit = true;
        stopped = true;
        return false;
    }
    std::pop_heap(heap.begin(), heap.end(), Later{});
    Ev ev = std::move(heap.back());
    heap.pop_back();
    time = ev.t;
    if (++events == calmAfter) calm();
    shared->events = events;
    shared->simTime = time;
    ev.fn();
    return true;
}

void World::calm() {
    knobs.segmentPermille = std::min(knobs.segmentPermille, 20u);
    knobs.partialWritePermille = std::min(knobs.partialWritePermille, 20u);
    knobs.partialReadPermille = std::min(knobs.partialReadPermille, 20u);
    knobs.serverStallPermille = std::min(knobs.serverStallPermille, 1u);
    knobs.window = std::max(knobs.window, 16384u);
    probe("long run finished over a calm network");
    trace("calm");
}

void World::violate(std::string kind, std::string message) {
    if (violation) return;
    trace("VIOLATION " + kind + ": " + message);
    violation = Violation{std::move(kind), std::move(message)};
}

void World::trace(std::string_view what, uint64_t a, uint64_t b, uint64_t c) {
    traceHash = mix(traceHash ^ hashStr(what) ^ mix(time) ^ mix(a + 0x51ull) ^ mix(mix(b + 0x77ull)) ^ mix(mix(mix(c + 0x99ull))));
    shared->traceHash = traceHash;
    if (verboseFd >= 0) {
        char buf[96];
        std::snprintf(buf, sizeof buf, "[%12.6f ms] ", static_cast<double>(time) / 1e6);
        auto l = buf + std::string(what);
        if (a || b || c) l += " " + std::to_string(a) + " " + std::to_string(b);
        l += '\n';
        if (::write(verboseFd, l.data(), l.size()) < 0) {}
    }
}

void World::drawNetKnobs(Stream& s, bool faults) {
    static const std::vector<uint32_t> windows{65536, 262144, 8192, 4096, 1024, 256, 64, 16, 1};
    static const std::vector<uint32_t> perm{0, 50, 200, 500, 900};
    static const std::vector<uint32_t> delays{50, 200, 2000, 50000};
    knobs.segmentPermille = s.pick(perm);
    knobs.oneByte = s.pick(std::vector<uint32_t>{0, 0, 100, 500, 950});
    knobs.delayPermille = s.pick(perm);
    knobs.maxDelayUs = s.pick(delays);
    knobs.partialReadPermille = s.pick(std::vector<uint32_t>{0, 0, 100, 600});
    knobs.speculativePermille = s.pick(std::vector<uint32_t>{0, 300, 700, 1000});
    if (!faults) return;
    knobs.partialWritePermille = s.pick(std::vector<uint32_t>{0, 100, 500, 950});
    knobs.serverStallPermille = s.pick(std::vector<uint32_t>{0, 0, 30, 200});
    knobs.window = s.pick(windows);
}

std::string hex(std::string_view s, size_t max) {
    std::string r;
    char b[4];
    for (size_t i = 0; i < s.size() && i < max; ++i) { std::snprintf(b, sizeof b, "%02x", static_cast<unsigned char>(s[i])); r += b; }
    if (s.size() > max) r += "...(" + std::to_string(s.size()) + " bytes)";
    return r;
}
std::string printable(std::string_view s, size_t max) {
    std::string r;
    for (size_t i = 0; i < s.size() && i < max; ++i) {
        unsigned char c = static_cast<unsigned char>(s[i]);
        if (c == '\r') r += "\\r";
        else if (c == '\n') r += "\\n";
        else if (c == '\\') r += "\\\\";
        else if (c < 32 || c > 126) { char b[8]; std::snprintf(b, sizeof b, "\\x%02x", c); r += b; }
        else r += static_cast<char>(c);
    }
    if (s.size() > max) r += "...(" + std::to_string(s.size()) + " bytes)";
    return r;
}
} // namespace sim
