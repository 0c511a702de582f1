// Sites, request generation and the oracle for HTTP replies. Knows nothing about the code under test.
#pragma once
#include "host.hpp"

namespace sim {

struct SiteFile {
    std::string path;     // relative, no leading slash
    std::string content;
    std::string encoding; // stored encoded
};
struct Site {
    std::vector<SiteFile> files;
    const SiteFile* find(std::string_view path) const {
        for (auto& f : files) if (f.path == path) return &f;
        return nullptr;
    }
};
std::string contentFor(Stream& s, size_t size);
// creates the document root of this run with files of at most maxSize bytes
Site makeDiskSite(Stream& s, size_t maxSize, size_t maxFiles = 6);
void writeSite(const Site& site);
std::string randomFileName(Stream& s);
bool mimeFits(std::string_view path, std::string_view contentType, bool lenient = false);
std::string percentEncode(Stream& s, std::string_view path, uint32_t permille); // always encodes what has to be
size_t bodyLimit(); // largest sensible file for the window of this run

struct GenReq {
    std::string bytes;
    std::string kind;     // get, head, other, notfound, target, malformed, odd, incomplete
    std::string method, target;
    bool complete = true;
    int status = 0;       // expected, 0: compare with the baseline
    const SiteFile* file = nullptr;
    std::vector<std::string> acceptedEncodings;
    std::string baseline; // the reply this request got alone
    bool baselineEnded = false; // and whether the connection was closed then
    bool mustAnswer = false;    // for status 0: certainly a whole request
    bool head() const { return method == "HEAD"; }
};
struct ReqMix { uint32_t ok = 8, notFound = 2, other = 2, target = 2, malformed = 3, odd = 0, incomplete = 0; };
GenReq genRequest(Stream& s, const Site& site, const ReqMix& mix);
std::string mixCase(Stream& s, std::string t); // random letter case
std::string randomHeaders(Stream& s, uint32_t n);
// what is wrong with this reply to that request; empty if nothing
std::string judgeReply(const GenReq& r, std::string_view received);
std::string describe(const GenReq& r);

} // namespace sim
