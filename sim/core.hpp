// Deterministic simulation core: decision streams, discrete-event world, trace, faults, violations.
#pragma once
#include <array>
#include <cstdint>
#include <cstdio>
#include <deque>
#include <functional>
#include <map>
#include <memory>
#include <optional>
#include <queue>
#include <string>
#include <string_view>
#include <vector>

namespace sim {

using Time = uint64_t; // nanoseconds of simulated time
constexpr Time us = 1000, ms = 1000 * us, sec = 1000 * ms;

inline uint64_t mix(uint64_t x) {
    x += 0x9E3779B97F4A7C15ull;
    x = (x ^ (x >> 30)) * 0xBF58476D1CE4E5B9ull;
    x = (x ^ (x >> 27)) * 0x94D049BB133111EBull;
    return x ^ (x >> 31);
}
inline uint64_t hashBytes(const void* p, size_t n, uint64_t h = 0xcbf29ce484222325ull) {
    auto b = static_cast<const unsigned char*>(p);
    for (size_t i = 0; i < n; ++i) h = (h ^ b[i]) * 0x100000001b3ull;
    return h;
}
inline uint64_t hashStr(std::string_view s, uint64_t h = 0xcbf29ce484222325ull) { return hashBytes(s.data(), s.size(), h); }

// A named sequence of decisions. 0 is always the simplest outcome.
class Stream {
public:
    Stream(std::string n, uint64_t seed, const std::vector<uint32_t>* replayTape) : name(std::move(n)), state(seed) {
        if (replayTape) { replay = true; tape = *replayTape; }
    }
    uint32_t below(uint32_t n) { // uniform in [0,n)
        if (n <= 1) return 0;
        uint32_t v;
        if (replay) {
            v = pos < tape.size() ? tape[pos] : 0;
            if (v >= n) v = n - 1;
            ++pos;
        }
        else {
            state = mix(state);
            v = static_cast<uint32_t>((state >> 11) % n);
        }
        if (recorder) recorder(name, v);
        return v;
    }
    uint32_t range(uint32_t lo, uint32_t hi) { return lo + below(hi - lo + 1); } // simplest: lo
    bool chance(uint32_t permille) { return permille && below(1000) >= 1000 - (permille > 1000 ? 1000 : permille); }
    // a count: usually below 'usual', now and then below 'many', rarely below 'lots'
    uint32_t scale(uint32_t usual, uint32_t many, uint32_t lots) {
        auto r = below(1000);
        return below(r < 965 ? usual : r < 996 ? many : lots);
    }
    // size with a heavy tail: mostly small, sometimes up to max
    uint32_t sizeUpTo(uint32_t max) {
        switch (below(5)) {
        case 4: { // around the sizes that buffers and length fields have
            uint32_t top = 3;
            while (top < 17 && (1u << (top + 1)) <= max) ++top;
            uint32_t unit = 1u << (3 + below(top - 2)), n = unit * (1 + below(unit >= 512 && unit <= 8192 ? 4 : 1)) + below(3) - 1;
            return std::min(n, max);
        }
        case 0: return below(std::min<uint32_t>(max, 16) + 1);
        case 1: return below(std::min<uint32_t>(max, 300) + 1);
        case 2: return below(std::min<uint32_t>(max, 5000) + 1);
        default: return below(max + 1);
        }
    }
    template<typename T> const T& pick(const std::vector<T>& v) { return v[below(static_cast<uint32_t>(v.size()))]; }
    template<size_t N> const char* pick(const std::array<const char*, N>& v) { return v[below(N)]; }
    uint64_t bits() { uint64_t r = 0; for (int i = 0; i < 4; ++i) r = (r << 16) | below(65536); return r; }

    std::string name;
    std::vector<uint32_t> tape;
    size_t pos = 0;
    bool replay = false;
    static void (*recorder)(const std::string& stream, uint32_t value);

private:
    uint64_t state;
};

using Tapes = std::map<std::string, std::vector<uint32_t>>;

enum class Fault : int {
    Segmentation, Coalescing, Delay, PartialWrite, PartialRead, SpeculativeIo, ServerStall, ClientStall, ZeroWindow, Partition,
    ClientFin, ClientHalfClose, ClientReset, ResetDropsData, AcceptError, AcceptAborted, DiskShortRead, DiskEintr, DiskEio, DiskOpenFail,
    ClockJump, ServerDestroyed, MalformedInput, WriteError, ReadError, AllocFail, Count
};
const char* faultName(Fault);

struct Violation {
    std::string kind;    // stable class, used to decide that a minimised run fails the same way
    std::string message; // details
};

// Shared with the parent process, survives a crash of the child.
struct Shared {
    volatile uint64_t traceHash;    // rolling hash, updated after every event
    volatile uint64_t events;
    volatile uint64_t simTime;
};
extern Shared* shared;

class World {
public:
    World(uint64_t seed, const Tapes* replay);
    ~World();
    World(const World&) = delete;

    Stream& stream(const std::string& name);

    Time now() const { return time; }
    void at(Time when, std::function<void()> fn);
    void after(Time d, std::function<void()> fn) { at(time + d, std::move(fn)); }
    bool step();                    // runs the next event; false when there is none (or a limit was hit)
    bool done() const { return stopped || violation.has_value(); }
    void stop() { stopped = true; }

    void violate(std::string kind, std::string message);
    std::optional<Violation> violation;

    void fault(Fault f, uint64_t n = 1) { faultCounts[static_cast<size_t>(f)] += n; }
    std::array<uint64_t, static_cast<size_t>(Fault::Count)> faultCounts{};
    void probe(const std::string& name, uint64_t n = 1) { probes[name] += n; }
    std::map<std::string, uint64_t> probes;

    // Trace: every event that the server or a client can observe. Never contains addresses.
    void trace(std::string_view what, uint64_t a = 0, uint64_t b = 0, uint64_t c = 0);
    void schedTrace(uint64_t a) { schedHash = mix(schedHash ^ a); }
    uint64_t traceHash = 1, schedHash = 1;
    static int verboseFd; // -1: silent
    std::string sample;     // a description of this run's case, for the evidence
    bool nontrivial = false; // the run reached what the property is about

    // wall clock seen by the code under test
    int64_t clockOffset = 1'700'000'000'000'000'000ll;
    int64_t clockGrain = 1; // the clock advances in steps of this many nanoseconds
    int64_t wallClock() const { return clockOffset + static_cast<int64_t>(time) / clockGrain * clockGrain; }

    // Knobs of this run (swarm), drawn by the scenario
    struct Knobs {
        uint32_t segmentPermille = 0;   // chance that client bytes are cut
        uint32_t delayPermille = 0;     // chance that a segment is late
        uint32_t maxDelayUs = 200;
        uint32_t partialWritePermille = 0;
        uint32_t partialReadPermille = 0;
        uint32_t speculativePermille = 0;
        uint32_t serverStallPermille = 0;
        uint32_t window = 65536;        // bytes a direction may hold
        uint32_t oneByte = 0;           // chance that a cut takes a single byte
        uint32_t acceptErrorPermille = 0, maxAcceptStreak = 8; // failing accepts in a row
        uint32_t diskShortPermille = 0, diskEintrPermille = 0, diskEioPermille = 0, diskOpenFailPermille = 0;
    } knobs;
    void drawNetKnobs(Stream& s, bool faults = true);

    uint64_t seed;
    uint64_t events = 0, maxEvents = 8'000'000;
    uint64_t calmAfter = 200'000; // a run this long goes on over a network that no longer cuts everything into pieces, so that it ends
    void calm();
    Time maxTime = 3600 * sec;
    bool limitHit = false;
    int inServer = 0; // depth of code-under-test frames on the stack
    bool diskFaults = false;

private:
    struct Ev { Time t; uint64_t seq; std::function<void()> fn; };
    struct Later { bool operator()(const Ev& a, const Ev& b) const { return a.t != b.t ? a.t > b.t : a.seq > b.seq; } };
    std::vector<Ev> heap;
    Time time = 0;
    uint64_t seq = 0;
    bool stopped = false;
    const Tapes* replayTapes;
    std::map<std::string, std::unique_ptr<Stream>> streams;
};

extern World* W; // the current world

struct InServer { // marks the dynamic extent of code under test
    InServer() { ++W->inServer; }
    ~InServer() { --W->inServer; }
};
struct InLibrary { // marks the operations of the simulated network library: their own allocations do not fail
    inline static int depth = 0;
    InLibrary() { ++depth; }
    ~InLibrary() { --depth; }
};
struct OutOfServer { // marks simulator code called from code under test
    int saved;
    OutOfServer() : saved(W ? W->inServer : 0) { if (W) W->inServer = 0; }
    ~OutOfServer() { if (W) W->inServer = saved; }
};

std::string hex(std::string_view s, size_t max = 48);
std::string printable(std::string_view s, size_t max = 160);

} // namespace sim
