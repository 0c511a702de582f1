// The disk seam: scratch document root, interposed open/read calls with faults, server allocation accounting.
#pragma once
#include "core.hpp"
#include <string>
#include <vector>

namespace sim {

struct Disk {
    std::string real;     // scratch directory of this process
    std::string base;     // the same by a name that is equal in every process, so that runs repeat elsewhere
    std::string root;     // document root handed to the server
    void write(const std::string& absolute, std::string_view content);
    void remove(const std::string& absolute); // a file
    void mkdirs(const std::string& absolute);
    void wipe();          // removes everything below base
};
extern Disk disk;
void createScratch();     // makes disk.base
void removeScratch();

struct OpenRecord { std::string path; bool outside; bool failed; };

struct DiskState { // of the current episode
    bool faults = false;
    std::vector<OpenRecord> opens;
    bool injectedError = false; // an EIO or an open failure was injected
    bool injectedOpenFail = false;
    uint64_t readCalls = 0;
};
extern DiskState* DS;

// bytes allocated by the server and not freed yet
void trackServerAllocations(bool on);
int64_t serverLiveBytes();
int64_t serverLiveBlocks();
std::vector<uint64_t> serverLiveSizes();

// whether an allocation of so many bytes, made by the server, fails (the scenarios of C25 only)
extern bool (*failAllocation)(size_t n);
bool allocationFails(size_t n);

} // namespace sim
