#include "disk.hpp"
#include <atomic>
#include <cerrno>
#include <chrono>
#include <cstdarg>
#include <cstdlib>
#include <cstring>
#include <dlfcn.h>
#include <fcntl.h>
#include <filesystem>
#ifdef __SANITIZE_ADDRESS__
extern "C" int __sanitizer_install_malloc_and_free_hooks(void (*)(const volatile void*, size_t), void (*)(const volatile void*));
#else // the build without sanitizers accounts for what goes through operator new
#include <new>
static void (*onNew)(const volatile void*, size_t);
static void (*onDelete)(const volatile void*);
static int __sanitizer_install_malloc_and_free_hooks(void (*m)(const volatile void*, size_t), void (*f)(const volatile void*)) { onNew = m; onDelete = f; return 1; }
namespace sim { bool allocationFails(size_t n); }
static void* counted(size_t n, size_t align) {
    if (sim::allocationFails(n)) throw std::bad_alloc();
    void* p = align ? std::aligned_alloc(align, (n + align - 1) / align * align) : std::malloc(n ? n : 1);
    if (!p) throw std::bad_alloc();
    if (onNew) onNew(p, n);
    return p;
}
static void uncounted(void* p) noexcept {
    if (onDelete) onDelete(p);
    std::free(p);
}
void* operator new(size_t n) { return counted(n, 0); }
void* operator new[](size_t n) { return counted(n, 0); }
void* operator new(size_t n, std::align_val_t a) { return counted(n, static_cast<size_t>(a)); }
void* operator new[](size_t n, std::align_val_t a) { return counted(n, static_cast<size_t>(a)); }
void operator delete(void* p) noexcept { uncounted(p); }
void operator delete[](void* p) noexcept { uncounted(p); }
void operator delete(void* p, size_t) noexcept { uncounted(p); }
void operator delete[](void* p, size_t) noexcept { uncounted(p); }
void operator delete(void* p, std::align_val_t) noexcept { uncounted(p); }
void operator delete[](void* p, std::align_val_t) noexcept { uncounted(p); }
void operator delete(void* p, size_t, std::align_val_t) noexcept { uncounted(p); }
void operator delete[](void* p, size_t, std::align_val_t) noexcept { uncounted(p); }
#endif
#include <sys/stat.h>
#include <sys/syscall.h>
#include <unistd.h>

namespace sim {
Disk disk;
DiskState* DS = nullptr;

void createScratch() {
    std::string t = "/tmp/wfsim.XXXXXX";
    if (!mkdtemp(t.data())) { std::perror("mkdtemp"); std::exit(2); }
    if (chdir(t.c_str()) != 0) { std::perror("chdir"); std::exit(2); }
    disk.real = t;
    disk.base = "/proc/self/cwd";
    disk.root = disk.base + "/root";
}
void removeScratch() {
    if (disk.real.rfind("/tmp/wfsim.", 0) == 0) {
        std::error_code ec;
        std::filesystem::remove_all(disk.real, ec);
    }
}
void Disk::wipe() {
    if (real.rfind("/tmp/wfsim.", 0) != 0) return;
    std::error_code ec;
    for (auto& e : std::filesystem::directory_iterator(real, ec)) {
        std::error_code ec2;
        std::filesystem::remove_all(e.path(), ec2);
    }
}
void Disk::mkdirs(const std::string& p) {
    std::error_code ec;
    std::filesystem::create_directories(p, ec);
}
void Disk::remove(const std::string& p) {
    OutOfServer o;
    std::error_code ec;
    std::filesystem::remove(p, ec);
}
void Disk::write(const std::string& p, std::string_view content) {
    OutOfServer o;
    mkdirs(std::filesystem::path(p).parent_path().string());
    int fd = static_cast<int>(syscall(SYS_openat, AT_FDCWD, p.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644));
    if (fd < 0) { std::fprintf(stderr, "cannot write %s\n", p.c_str()); std::exit(2); }
    size_t o2 = 0;
    while (o2 < content.size()) {
        auto n = syscall(SYS_write, fd, content.data() + o2, content.size() - o2);
        if (n <= 0) { std::fprintf(stderr, "cannot write %s\n", p.c_str()); std::exit(2); }
        o2 += static_cast<size_t>(n);
    }
    syscall(SYS_close, fd);
}

// ------------------------------------------------------------------ faults
static bool serverFd[4096];

static bool active() { return W && DS && W->inServer > 0; }

// decides about an open by the code under test; returns 0 to go on or an errno
static int judgeOpen(const char* path, bool writing) {
    OutOfServer out;
    std::string p(path);
    std::filesystem::path abs = std::filesystem::path(p);
    if (abs.is_relative()) abs = std::filesystem::path(disk.base) / abs;
    std::string norm = abs.lexically_normal().string();
    if (norm == disk.real || norm.rfind(disk.real + "/", 0) == 0) norm.replace(0, disk.real.size(), disk.base);
    bool inside = norm == disk.root || norm.rfind(disk.root + "/", 0) == 0;
    if (!inside) {
        for (auto ok : {"/etc/localtime", "/usr/share/zoneinfo", "/usr/lib/locale", "/dev/null", "/dev/urandom", "/dev/random", "/proc/self/maps"})
            if (norm.rfind(ok, 0) == 0 && !writing) return 0;
        DS->opens.push_back({norm.rfind(disk.base, 0) == 0 ? norm.substr(disk.base.size()) : norm, true, true});
        W->trace("open-outside " + DS->opens.back().path);
        return ENOENT; // never touch the real file
    }
    std::string rel = norm.substr(disk.root.size());
    int err = 0;
    if (DS->faults) {
        auto& s = W->stream("disk");
        if (s.chance(W->knobs.diskOpenFailPermille)) {
            static const int errs[] = {EACCES, EMFILE, EIO, ENFILE, ENOMEM};
            err = errs[s.below(5)];
            W->fault(Fault::DiskOpenFail);
            DS->injectedError = DS->injectedOpenFail = true;
        }
    }
    DS->opens.push_back({rel, false, err != 0});
    W->trace("open " + rel, static_cast<uint64_t>(err));
    return err;
}
static void markFd(int fd) {
    if (fd >= 0 && fd < 4096) serverFd[fd] = true;
}

// ------------------------------------------------------------------ allocation accounting
namespace {
constexpr size_t tableSize = 1 << 18;
struct Slot { uintptr_t p; size_t n; };
Slot table[tableSize];
bool tracking = false;
int64_t liveBytes = 0, liveBlocks = 0;

void onMalloc(const volatile void* ptr, size_t size) {
    if (!tracking || !W || W->inServer <= 0 || !ptr) return;
    auto p = reinterpret_cast<uintptr_t>(ptr);
    for (size_t i = (p >> 4) * 0x9E3779B97F4A7C15ull >> 46, k = 0; k < tableSize; ++k, i = (i + 1) & (tableSize - 1))
        if (table[i].p <= 1) { table[i] = {p, size}; liveBytes += static_cast<int64_t>(size); ++liveBlocks; return; }
}
void onFree(const volatile void* ptr) {
    if (!liveBlocks || !ptr) return;
    auto p = reinterpret_cast<uintptr_t>(ptr);
    for (size_t i = (p >> 4) * 0x9E3779B97F4A7C15ull >> 46, k = 0; k < tableSize; ++k, i = (i + 1) & (tableSize - 1)) {
        if (table[i].p == 0) return;
        if (table[i].p == p) { liveBytes -= static_cast<int64_t>(table[i].n); --liveBlocks; table[i].p = 1; return; }
    }
}
} // namespace
bool (*failAllocation)(size_t) = nullptr;
bool allocationFails(size_t n) { return failAllocation && W && W->inServer > 0 && !InLibrary::depth && failAllocation(n); }
void trackServerAllocations(bool on) {
    static bool installed = false;
    if (!installed) { __sanitizer_install_malloc_and_free_hooks(onMalloc, onFree); installed = true; }
    tracking = on;
}
int64_t serverLiveBytes() { return liveBytes; }
int64_t serverLiveBlocks() { return liveBlocks; }
std::vector<uint64_t> serverLiveSizes() {
    std::vector<uint64_t> v;
    for (auto& s : table) if (s.p > 1) v.push_back(s.n);
    return v;
}
} // namespace sim

// ------------------------------------------------------------------ interposed calls
namespace std::chrono { inline namespace _V2 {
system_clock::time_point system_clock::now() noexcept {
    if (sim::W) return time_point(duration(sim::W->wallClock()));
    timespec ts;
    clock_gettime(CLOCK_REALTIME, &ts);
    return time_point(duration(int64_t{ts.tv_sec} * 1000000000 + ts.tv_nsec));
}
}}

extern "C" {
#define EXPORT __attribute__((visibility("default"), used))

EXPORT ssize_t read(int fd, void* buf, size_t n) {
    if (sim::active() && fd >= 0 && fd < 4096 && sim::serverFd[fd]) {
        ++sim::DS->readCalls;
        if (sim::DS->faults && n > 0) {
            int err = 0;
            {
                sim::OutOfServer out;
                auto& s = sim::W->stream("disk");
                if (s.chance(sim::W->knobs.diskEintrPermille)) { err = EINTR; sim::W->fault(sim::Fault::DiskEintr); }
                else if (s.chance(sim::W->knobs.diskEioPermille)) {
                    err = EIO;
                    sim::W->fault(sim::Fault::DiskEio);
                    sim::DS->injectedError = true;
                }
                else if (n > 1 && s.chance(sim::W->knobs.diskShortPermille)) {
                    n = 1 + s.below(static_cast<uint32_t>(std::min<size_t>(n - 1, 1 << 20)));
                    sim::W->fault(sim::Fault::DiskShortRead);
                }
            }
            if (err) { errno = err; return -1; }
        }
    }
    return syscall(SYS_read, fd, buf, n);
}

static FILE* openFile(const char* path, const char* mode, const char* real) {
    using Fn = FILE* (*)(const char*, const char*);
    auto fn = reinterpret_cast<Fn>(dlsym(RTLD_NEXT, real));
    if (sim::active()) {
        if (int e = sim::judgeOpen(path, std::strpbrk(mode, "wa+") != nullptr)) { errno = e; return nullptr; }
        FILE* f;
        { sim::OutOfServer o; f = fn(path, mode); }
        if (f) sim::markFd(fileno(f));
        return f;
    }
    return fn(path, mode);
}
EXPORT FILE* fopen(const char* path, const char* mode) { return openFile(path, mode, "fopen"); }
EXPORT FILE* fopen64(const char* path, const char* mode) { return openFile(path, mode, "fopen64"); }

static int openFd(int dir, const char* path, int flags, unsigned mode) {
    if (sim::active()) {
        if (int e = sim::judgeOpen(path, (flags & O_ACCMODE) != O_RDONLY)) { errno = e; return -1; }
        int fd = static_cast<int>(syscall(SYS_openat, dir, path, flags, mode));
        sim::markFd(fd);
        return fd;
    }
    return static_cast<int>(syscall(SYS_openat, dir, path, flags, mode));
}
#define MODE(last) unsigned mode = 0; if (flags & (O_CREAT | O_TMPFILE)) { va_list a; va_start(a, last); mode = va_arg(a, unsigned); va_end(a); }
EXPORT int open(const char* path, int flags, ...) { MODE(flags) return openFd(AT_FDCWD, path, flags, mode); }
EXPORT int open64(const char* path, int flags, ...) { MODE(flags) return openFd(AT_FDCWD, path, flags, mode); }
EXPORT int openat(int dir, const char* path, int flags, ...) { MODE(flags) return openFd(dir, path, flags, mode); }
EXPORT int openat64(int dir, const char* path, int flags, ...) { MODE(flags) return openFd(dir, path, flags, mode); }
}
