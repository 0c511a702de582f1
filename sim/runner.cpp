// Runs episodes: one forked process per simulated run, so that every run starts from the same state and a crash is just an outcome.
#include "runner.hpp"
#include "browser.hpp"
#include "disk.hpp"
#include "net.hpp"
#include <algorithm>
#include <cerrno>
#include <chrono>
#include <csignal>
#include <cstdlib>
#include <cstring>
#include <fcntl.h>
#include <filesystem>
#include <fstream>
#include <iostream>
#include <set>
#include <sstream>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>
#include <unordered_set>

extern "C" const char* __asan_default_options() {
    return "exitcode=99:detect_leaks=0:abort_on_error=0:detect_stack_use_after_return=1:allocator_may_return_null=1:max_malloc_fill_size=65536:"
           "malloc_fill_byte=190:free_fill_byte=173:max_free_fill_size=4096:handle_abort=1:symbolize=0:color=never:quarantine_size_mb=64:detect_container_overflow=1";
}
extern "C" const char* __ubsan_default_options() { return "print_stacktrace=0:exitcode=99:color=never"; }

namespace sim {
int (*dumpAssets)(const std::string& dir) = nullptr;
std::string knownFindings;
std::vector<Scenario>& scenarios() { static std::vector<Scenario> s; return s; }

namespace {
constexpr size_t maxDecisions = 12'000'000, maxStreams = 512, maxProbes = 96;
struct Report {
    Shared live;
    volatile int finished;
    char kind[80], message[3000], sample[1600];
    uint64_t traceHash, schedHash;
    bool nontrivial;
    uint64_t faults[static_cast<size_t>(Fault::Count)];
    uint32_t nProbes;
    struct { char name[40]; uint64_t n; } probes[maxProbes];
    // decisions
    uint32_t nStreams;
    char streamNames[maxStreams][40];
    uint64_t nDecisions;
    struct { uint16_t stream; uint32_t value; } decisions[maxDecisions];
};
Report* rep;

void record(const std::string& name, uint32_t v) {
    if (rep->nDecisions >= maxDecisions) return;
    uint32_t i = 0;
    static std::map<std::string, uint32_t> idx;
    auto it = idx.find(name);
    if (it == idx.end()) {
        if (rep->nStreams >= maxStreams) return;
        i = rep->nStreams++;
        std::snprintf(rep->streamNames[i], 40, "%s", name.c_str());
        idx[name] = i;
    }
    else i = it->second;
    auto n = rep->nDecisions;
    rep->decisions[n].stream = static_cast<uint16_t>(i);
    rep->decisions[n].value = v;
    rep->nDecisions = n + 1;
}

struct Outcome {
    bool violated = false;
    std::string kind, message;
    uint64_t hash = 0;
};
#ifdef SIM_FAST
constexpr const char* build = "fast";
#else
constexpr const char* build = "asan";
#endif
std::string errFile;
long cpuLimit = 10;
uint64_t nowNs() {
    timespec ts;
    clock_gettime(CLOCK_MONOTONIC, &ts);
    return static_cast<uint64_t>(ts.tv_sec) * 1000000000ull + static_cast<uint64_t>(ts.tv_nsec);
}

// a run that has used up its slice of cpu time is only stuck if no event was finished during all of it
void onSlice(int) {
    static uint64_t last = ~0ull, slices = 0;
    auto now = rep->live.events;
    if (now == last || ++slices >= 12) {
        signal(SIGPROF, SIG_DFL);
        raise(SIGPROF);
        return;
    }
    last = now;
    itimerval t{{0, 0}, {cpuLimit, 0}};
    setitimer(ITIMER_PROF, &t, nullptr);
}

[[noreturn]] void child(const Scenario& sc, uint64_t seed, const Tapes* tapes, bool recordTapes) {
    int fd = ::open(errFile.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644);
    if (fd >= 0) { dup2(fd, 2); if (fd != 2) close(fd); }
    rlimit none{0, 0};
    setrlimit(RLIMIT_CORE, &none);
    itimerval t{{0, 0}, {cpuLimit, 0}};
    signal(SIGPROF, onSlice);
    setitimer(ITIMER_PROF, &t, nullptr); // 2 slices of 10 s of cpu time without an event that ends: a hang
    alarm(900);
    std::cout.rdbuf(nullptr);
    std::clog.rdbuf(nullptr);
    if (recordTapes) Stream::recorder = record;
    shared = &rep->live;
    {
        static World w(seed, tapes);
        static NetWorld nw;
        static DiskState ds;
        W = &w;
        NW = &nw;
        DS = &ds;
        try { sc.fn(); }
        catch (const std::exception& e) { w.inServer = 0; w.violate("exception-escaped", std::string("an exception left the server: ") + e.what()); }
        catch (...) { w.inServer = 0; w.violate("exception-escaped", "an exception left the server"); }
        w.inServer = 0;
        if (w.limitHit && !w.violation) w.violate("event-limit", "the run did not come to rest within " + std::to_string(w.maxEvents) + " events");
        if (w.violation) {
            std::snprintf(rep->kind, sizeof rep->kind, "%s", w.violation->kind.c_str());
            std::snprintf(rep->message, sizeof rep->message, "%s", w.violation->message.c_str());
        }
        std::snprintf(rep->sample, sizeof rep->sample, "%s", w.sample.c_str());
        rep->traceHash = w.traceHash;
        rep->schedHash = w.schedHash;
        rep->nontrivial = w.nontrivial;
        for (size_t i = 0; i < w.faultCounts.size(); ++i) rep->faults[i] = w.faultCounts[i];
        for (auto& [n, c] : w.probes) {
            if (rep->nProbes >= maxProbes) break;
            auto& p = rep->probes[rep->nProbes++];
            std::snprintf(p.name, sizeof p.name, "%s", n.c_str());
            p.n = c;
        }
        rep->finished = 1;
    }
    _exit(0);
}

Outcome runOne(const Scenario& sc, uint64_t seed, const Tapes* tapes, bool recordTapes) {
    std::memset(static_cast<void*>(rep), 0, offsetof(Report, nStreams));
    rep->nStreams = 0;
    rep->nDecisions = 0;
    pid_t p = fork();
    if (p < 0) { std::perror("fork"); std::exit(2); }
    if (p == 0) child(sc, seed, tapes, recordTapes);
    int st = 0;
    while (waitpid(p, &st, 0) < 0 && errno == EINTR) {}
    browserRunDone(WIFEXITED(st) && WEXITSTATUS(st) == 0 && rep->finished);
    Outcome o;
    o.hash = rep->live.traceHash;
    if (WIFEXITED(st) && WEXITSTATUS(st) == 0 && rep->finished) {
        o.violated = rep->kind[0] != 0;
        o.kind = rep->kind;
        o.message = rep->message;
        return o;
    }
    o.violated = true;
    std::ifstream f(errFile);
    std::stringstream ss;
    ss << f.rdbuf();
    std::string err = ss.str(), line;
    if (WIFSIGNALED(st) && (WTERMSIG(st) == SIGPROF || WTERMSIG(st) == SIGALRM)) { o.kind = "hang"; o.message = "the server stopped reacting (still busy after " + std::to_string(cpuLimit) + " s of cpu time without an end of what it was doing)"; return o; }
    std::string what = "crash";
    auto pos = err.find("ERROR: AddressSanitizer: ");
    if (pos != std::string::npos) {
        auto e = err.find_first_of(" \n", pos + 25);
        what = "asan-" + err.substr(pos + 25, e - pos - 25);
    }
    else if ((pos = err.find("runtime error: ")) != std::string::npos) what = "ubsan";
    else if ((pos = err.find("terminate called")) != std::string::npos) what = "terminate";
    else if ((pos = err.find("Assertion")) != std::string::npos) what = "assertion";
    else if (WIFSIGNALED(st)) what = "signal-" + std::to_string(WTERMSIG(st));
    else what = "exit-" + std::to_string(WEXITSTATUS(st));
    o.kind = what;
    o.message = err.substr(0, 2500);
    return o;
}

Tapes recorded() {
    Tapes t;
    std::vector<std::vector<uint32_t>*> v;
    for (uint32_t i = 0; i < rep->nStreams; ++i) v.push_back(&t[rep->streamNames[i]]);
    for (uint64_t i = 0; i < rep->nDecisions; ++i) v[rep->decisions[i].stream]->push_back(rep->decisions[i].value);
    return t;
}
size_t weight(const Tapes& t) {
    size_t n = 0;
    for (auto& [k, v] : t) n += v.size();
    return n;
}
void trim(Tapes& t) {
    for (auto it = t.begin(); it != t.end();) {
        while (!it->second.empty() && it->second.back() == 0) it->second.pop_back();
        it = it->second.empty() ? t.erase(it) : std::next(it);
    }
}

Tapes minimise(const Scenario& sc, Tapes best, const std::string& kind, double budget, size_t& attempts) {
    auto start = nowNs();
    auto left = [&] { return static_cast<double>(nowNs() - start) / 1e9 < budget; };
    auto fails = [&](Tapes& t) {
        trim(t);
        ++attempts;
        auto o = runOne(sc, 0, &t, false);
        return o.violated && o.kind == kind;
    };
    auto attempt = [&](Tapes cand) {
        if (fails(cand)) { best = std::move(cand); return true; }
        return false;
    };
    trim(best);
    bool progress = true;
    while (progress && left()) {
        progress = false;
        std::vector<std::string> names;
        for (auto& [n, v] : best) names.push_back(n);
        std::sort(names.begin(), names.end(), [&](auto& a, auto& b) { return best[a].size() > best[b].size(); });
        for (auto& n : names) { // whole streams
            if (!left()) break;
            if (!best.count(n)) continue;
            auto c = best;
            c.erase(n);
            progress |= attempt(c);
        }
        for (auto& n : names) { // truncate, delete chunks, zero chunks, reduce values
            if (!best.count(n)) continue;
            for (size_t keep = best[n].size() / 2; keep > 0 && left() && best.count(n); keep = (keep + best[n].size()) / 2) {
                auto c = best;
                if (keep + 1 >= c[n].size()) break;
                c[n].resize(keep);
                if (attempt(c)) { progress = true; break; }
            }
            for (int mode = 0; mode < 2 && best.count(n); ++mode)
                for (size_t chunk = std::max<size_t>(1, best[n].size() / 2); left() && best.count(n); chunk /= 2) {
                    for (size_t i = 0; best.count(n) && i < best[n].size() && left();) {
                        auto c = best;
                        auto& v = c[n];
                        size_t e = std::min(v.size(), i + chunk);
                        bool allZero = std::all_of(v.begin() + static_cast<long>(i), v.begin() + static_cast<long>(e), [](auto x) { return x == 0; });
                        if (mode == 0) v.erase(v.begin() + static_cast<long>(i), v.begin() + static_cast<long>(e));
                        else if (allZero) { i += chunk; continue; }
                        else std::fill(v.begin() + static_cast<long>(i), v.begin() + static_cast<long>(e), 0);
                        if (attempt(c)) { progress = true; if (mode == 1) i += chunk; }
                        else i += chunk;
                    }
                    if (chunk <= 1) break;
                }
        }
        if (!progress)
            for (auto& n : names) { // smaller values
                for (size_t i = 0; best.count(n) && i < best[n].size() && left(); ++i) {
                    while (best.count(n) && i < best[n].size() && best[n][i] > 1 && left()) {
                        auto c = best;
                        c[n][i] /= 2;
                        if (!attempt(c)) break;
                        progress = true;
                    }
                }
            }
    }
    return best;
}

void writeReplay(const std::string& file, const Scenario& sc, const Outcome& o, const Tapes& t, uint64_t seed, uint64_t before, const std::string& traceFile) {
    std::ofstream f(file);
    f << "wfsim-replay 1\nbuild " << build << "\nproperty " << sc.property << "\nscenario " << sc.name << "\nseed " << seed << "\nkind " << o.kind << "\nhash " << o.hash
      << "\ndecisions " << weight(t) << " minimised from " << before << "\n";
    for (auto& [n, v] : t) {
        f << "stream " << n << " " << v.size();
        for (auto x : v) f << " " << x;
        f << "\n";
    }
    f << "message\n" << o.message << "\n";
    f << "trace\n";
    std::ifstream in(traceFile);
    std::string l;
    std::deque<std::string> lines;
    size_t total = 0;
    while (std::getline(in, l)) { lines.push_back(l.substr(0, 400)); ++total; if (lines.size() > 600) lines.pop_front(); }
    if (total > lines.size()) f << "(" << total - lines.size() << " earlier events left out)\n";
    for (auto& x : lines) f << x << "\n";
}

std::string jsonEsc(std::string_view s) {
    std::string r;
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') { r += '\\'; r += static_cast<char>(c); }
        else if (c < 32 || c > 126) { char b[8]; std::snprintf(b, sizeof b, "\\u%04x", c); r += b; }
        else r += static_cast<char>(c);
    }
    return r;
}

int replayFile(const std::string& file, bool verbose) {
    std::ifstream f(file);
    std::string l, property, name, kind, hash;
    Tapes t;
    if (!std::getline(f, l) || l != "wfsim-replay 1") { std::fprintf(stderr, "not a replay file\n"); return 2; }
    while (std::getline(f, l)) {
        std::istringstream is(l);
        std::string w;
        is >> w;
        if (w == "property") is >> property;
        else if (w == "scenario") is >> name;
        else if (w == "kind") is >> kind;
        else if (w == "hash") is >> hash;
        else if (w == "stream") {
            std::string n;
            size_t k;
            is >> n >> k;
            auto& v = t[n];
            for (size_t i = 0; i < k; ++i) { uint32_t x = 0; is >> x; v.push_back(x); }
        }
        else if (w == "message") break;
    }
    for (auto& sc : scenarios())
        if (sc.property == property && sc.name == name) {
            if (verbose) World::verboseFd = 1;
            auto o = runOne(sc, 0, &t, false);
            std::printf("replay property=%s scenario=%s violated=%d kind=%s hash=%llu (recorded kind=%s hash=%s)\n%s\n", property.c_str(), name.c_str(), o.violated,
                        o.kind.c_str(), static_cast<unsigned long long>(o.hash), kind.c_str(), hash.c_str(), o.message.c_str());
            if (!o.violated) return 0;
            return o.kind == kind && std::to_string(o.hash) == hash ? 1 : 3;
        }
    std::fprintf(stderr, "unknown scenario %s/%s\n", property.c_str(), name.c_str());
    return 2;
}
} // namespace

int main(int argc, char** argv) {
    std::map<std::string, std::string> opt;
    for (int i = 1; i < argc; ++i) {
        std::string a = argv[i];
        if (a.rfind("--", 0) == 0) {
            if (i + 1 < argc && std::string(argv[i + 1]).rfind("--", 0) != 0) { opt[a.substr(2)] = argv[i + 1]; ++i; }
            else opt[a.substr(2)] = "1";
        }
    }
    if (!std::getenv("WFSIM_NOASLR")) { // same addresses in every process
        setenv("WFSIM_NOASLR", "1", 1);
        personality(ADDR_NO_RANDOMIZE);
        execv("/proc/self/exe", argv);
    }
    setvbuf(stdout, nullptr, _IOLBF, 0);
    signal(SIGPIPE, SIG_IGN);
    rep = static_cast<Report*>(mmap(nullptr, sizeof(Report), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
    for (auto k : {"replay", "out", "replay-dir", "assets", "browser"}) // the working directory changes below
        if (opt.count(k)) opt[k] = std::filesystem::absolute(opt[k]).string();
    createScratch();
    std::atexit(removeScratch);
    errFile = disk.real + ".err";
    std::atexit([] { unlink(errFile.c_str()); });

    if (opt.count("cpu")) cpuLimit = std::stol(opt["cpu"]);
    if (opt.count("assets")) return dumpAssets ? dumpAssets(opt["assets"]) : 2;
    if (opt.count("list")) {
        for (auto& s : scenarios()) std::printf("%s %s %u\n", s.property.c_str(), s.name.c_str(), s.weight);
        return 0;
    }
    knownFindings = "," + opt["known"] + ",";
    if (opt.count("browser")) startBrowser(opt["browser"]);
    if (opt.count("replay")) return replayFile(opt["replay"], opt.count("verbose"));

    std::string property = opt["property"];
    uint64_t seed = std::stoull(opt.count("seed") ? opt["seed"] : "1");
    uint64_t worker = std::stoull(opt.count("worker") ? opt["worker"] : "0");
    double seconds = std::stod(opt.count("seconds") ? opt["seconds"] : "5");
    uint64_t maxRuns = std::stoull(opt.count("runs") ? opt["runs"] : "1000000000");
    double minimiseBudget = std::stod(opt.count("minimise") ? opt["minimise"] : "20");
    std::vector<Scenario> mine;
    unsigned total = 0;
    for (auto& s : scenarios())
        if (s.property == property && (!opt.count("scenario") || opt["scenario"] == s.name)) { mine.push_back(s); total += s.weight; }
    if (mine.empty()) { std::fprintf(stderr, "no scenario for %s\n", property.c_str()); return 2; }

    auto pick = [&](uint64_t es) -> const Scenario& {
        uint64_t x = mix(es ^ 0xABCDEF) % total;
        for (auto& s : mine) { if (x < s.weight) return s; x -= s.weight; }
        return mine[0];
    };
    if (opt.count("episode")) { // one run by its seed
        uint64_t es = std::stoull(opt["episode"]);
        if (opt.count("verbose")) World::verboseFd = 1;
        auto& sc = pick(es);
        auto o = runOne(sc, es, nullptr, true);
        std::printf("scenario=%s violated=%d kind=%s hash=%llu\n%s\n%s\n", sc.name.c_str(), o.violated, o.kind.c_str(), static_cast<unsigned long long>(o.hash), o.message.c_str(), rep->sample);
        return o.violated;
    }

    uint64_t runs = 0, nontrivial = 0, events = 0, simTime = 0, unreproducible = 0, decisions = 0;
    std::unordered_set<uint64_t> traces, scheds;
    std::array<uint64_t, static_cast<size_t>(Fault::Count)> faults{}, faultRuns{};
    std::map<std::string, uint64_t> probes, probeRuns, perScenario;
    std::vector<std::string> samples;
    std::string violationJson;
    std::string unrep, slowestRun;
    double slowest = 0;
    auto t0 = nowNs();
    for (uint64_t i = 0; runs < maxRuns && static_cast<double>(nowNs() - t0) / 1e9 < seconds; ++i) {
        uint64_t es = mix(mix(seed) ^ mix(hashStr(property)) ^ mix(worker * 0x1000003 + 17) ^ mix(i + 0x5555)) >> 1;
        auto& sc = pick(es);
        auto r0 = nowNs();
        auto o = runOne(sc, es, nullptr, false);
        if (auto d = static_cast<double>(nowNs() - r0) / 1e9; d > slowest) { slowest = d; slowestRun = sc.name + " seed " + std::to_string(es); }
        ++runs;
        ++perScenario[sc.name];
        events += rep->live.events;
        simTime += rep->live.simTime;
        if (rep->finished) {
            if (rep->nontrivial) {
                ++nontrivial;
                traces.insert(rep->traceHash);
            }
            scheds.insert(rep->schedHash);
            for (size_t k = 0; k < faults.size(); ++k) { faults[k] += rep->faults[k]; faultRuns[k] += rep->faults[k] != 0; }
            for (uint32_t k = 0; k < rep->nProbes; ++k) { probes[rep->probes[k].name] += rep->probes[k].n; ++probeRuns[rep->probes[k].name]; }
            if (rep->nontrivial && samples.size() < 3 && rep->sample[0] && (i % 7 == 3 || runs > 50)) samples.push_back("seed " + std::to_string(es) + " scenario " + sc.name + ": " + rep->sample);
        }
        if (o.violated) {
            std::string firstTrial = o.kind;
            auto again = runOne(sc, es, nullptr, true);
            auto tapes = recorded();
            size_t before = weight(tapes);
            Outcome third;
            if (again.violated && again.kind == o.kind && again.hash == o.hash) third = runOne(sc, 0, &tapes, false);
            if (!third.violated || third.kind != o.kind || third.hash != o.hash) {
                ++unreproducible;
                unrep = sc.name + " seed " + std::to_string(es) + " kind " + o.kind + "/" + again.kind + "/" + third.kind + ": " + o.message.substr(0, 500);
                if (unreproducible > 20) break;
                continue;
            }
            size_t attempts = 0;
            auto best = opt.count("nominimise") ? tapes : minimise(sc, tapes, o.kind, minimiseBudget, attempts);
            std::string traceFile = disk.real + ".trace";
            int fd = ::open(traceFile.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644);
            auto plain = runOne(sc, 0, &best, false);
            World::verboseFd = fd;
            auto fin = runOne(sc, 0, &best, false);
            World::verboseFd = -1;
            close(fd);
            (void)fin;
            std::string file = (opt.count("replay-dir") ? opt["replay-dir"] : ".") + "/" + property + "-" + std::to_string(seed) + "-" + std::to_string(worker) + ".replay";
            writeReplay(file, sc, plain, best, es, before, traceFile);
            unlink(traceFile.c_str());
            violationJson = "{\"scenario\":\"" + sc.name + "\",\"seed\":" + std::to_string(es) + ",\"kind\":\"" + jsonEsc(plain.kind) + "\",\"message\":\"" + jsonEsc(plain.message.substr(0, 1500)) +
                            "\",\"replay\":\"" + jsonEsc(file) + "\",\"decisions\":" + std::to_string(weight(best)) + ",\"decisions_before\":" + std::to_string(before) +
                            ",\"minimise_attempts\":" + std::to_string(attempts) + "}";
            if (!opt.count("keep-going")) break;
        }
    }
    (void)decisions;
    double wall = static_cast<double>(nowNs() - t0) / 1e9;
    std::ostringstream js;
    js << "{\"runs\":" << runs << ",\"nontrivial\":" << nontrivial << ",\"events\":" << events << ",\"sim_seconds\":" << static_cast<double>(simTime) / 1e9 << ",\"wall\":" << wall
       << ",\"unreproducible\":" << unreproducible << ",\"unreproducible_last\":\"" << jsonEsc(unrep) << "\"";
    js << ",\"slowest\":" << slowest << ",\"slowest_run\":\"" << jsonEsc(slowestRun) << "\"";
    js << ",\"faults\":{";
    for (size_t k = 0; k < faults.size(); ++k) js << (k ? "," : "") << "\"" << faultName(static_cast<Fault>(k)) << "\":[" << faults[k] << "," << faultRuns[k] << "]";
    js << "},\"probes\":{";
    bool first = true;
    for (auto& [n, c] : probes) { js << (first ? "" : ",") << "\"" << jsonEsc(n) << "\":[" << c << "," << probeRuns[n] << "]"; first = false; }
    js << "},\"scenarios\":{";
    first = true;
    for (auto& [n, c] : perScenario) { js << (first ? "" : ",") << "\"" << n << "\":" << c; first = false; }
    js << "},\"samples\":[";
    first = true;
    for (auto& s : samples) { js << (first ? "" : ",") << "\"" << jsonEsc(s) << "\""; first = false; }
    js << "],\"violation\":" << (violationJson.empty() ? "null" : violationJson) << ",\"traces\":[";
    first = true;
    for (auto h : traces) { js << (first ? "" : ",") << h; first = false; }
    js << "],\"scheds\":[";
    first = true;
    for (auto h : scheds) { js << (first ? "" : ",") << h; first = false; }
    js << "]}";
    if (opt.count("out")) std::ofstream(opt["out"]) << js.str();
    else {
        auto s = js.str();
        std::printf("%s\n", s.substr(0, s.find(",\"traces\"")).c_str());
    }
    return violationJson.empty() ? 0 : 1;
}
} // namespace sim
int main(int argc, char** argv) { return sim::main(argc, argv); }
