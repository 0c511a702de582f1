// C07: reading files, on disk and embedded
#include "http_kit.hpp"
#include <system/BabelFS.hpp>
#include <system/IndexFS.hpp>
#include <system/JasmineFS.hpp>
#include <system/NativeFS.hpp>
#include <system/ReactFS.hpp>

using namespace sim;
using namespace webfront;

namespace sim {
// every asset the embedded providers are documented to serve
const std::vector<std::string>& assetNames() {
    static const std::vector<std::string> names{
      "index:index.html", "index:favicon.ico", "index:WebFront.js", "jasmine:jasmine/4.6.0/jasmine_favicon.png", "jasmine:jasmine/4.6.0/jasmine.css",
      "jasmine:jasmine/4.6.0/jasmine.js", "jasmine:jasmine/4.6.0/jasmine-html.js", "jasmine:jasmine/4.6.0/boot0.js", "jasmine:jasmine/4.6.0/boot1.js",
      "react:react@18/umd/react.production.min.js", "react:react-dom@18/umd/react-dom.production.min.js", "babel:babel-standalone@7.22.5/babel.min.js"};
    return names;
}
std::optional<fs::File> openAsset(const std::string& name) {
    auto colon = name.find(':');
    auto provider = name.substr(0, colon), file = name.substr(colon + 1);
    if (provider == "index") return fs::IndexFS(disk.root).open(file);
    if (provider == "jasmine") return fs::JasmineFS(disk.root).open(file);
    if (provider == "react") return fs::ReactFS(disk.root).open(file);
    return fs::BabelFS(disk.root).open(file);
}
// writes every asset to a directory, with its encoding in the name; used by the decoding check
static int writeAssets(const std::string& dir) {
    int index = 0;
    std::FILE* list = std::fopen((dir + "/list").c_str(), "w");
    if (!list) return 2;
    for (auto& name : assetNames()) {
        auto f = openAsset(name);
        std::string all, block;
        if (f) {
            uint64_t r = hashStr(name);
            for (int idle = 0; idle < 3;) {
                r = mix(r);
                block.assign(1 + r % 3000, '\0');
                auto n = f->read(std::span<char>(block.data(), block.size()));
                if (n == 0) ++idle;
                all.append(block, 0, n);
                if (all.size() > (64u << 20)) break;
            }
        }
        auto path = dir + "/" + std::to_string(index++);
        if (auto o = std::fopen(path.c_str(), "wb")) { std::fwrite(all.data(), 1, all.size(), o); std::fclose(o); }
        std::fprintf(list, "%s\t%s\t%s\t%zu\n", path.c_str(), name.c_str(), f ? std::string(f->getEncoding()).c_str() : "MISSING", all.size());
    }
    std::fclose(list);
    return 0;
}
[[maybe_unused]] static bool assetsSet = (dumpAssets = writeAssets, true);
} // namespace sim

namespace {
struct Open {
    std::string what, expect;
    std::optional<fs::File> file;
    std::vector<uint64_t> words; // storage of a custom embedded file
    size_t pos = 0;
    bool error = false, native = false, finished = false;
    int after = 0;
};
void put(Open& o, std::optional<fs::File> f) {
    o.file.reset();
    if (f) o.file.emplace(std::move(*f));
}
std::vector<uint64_t> pack(const std::string& c, uint64_t filler) {
    std::vector<uint64_t> v((c.size() + 7) / 8, filler);
    for (size_t i = 0; i < c.size(); ++i) {
        auto shift = 56 - 8 * (i % 8);
        v[i / 8] = (v[i / 8] & ~(0xffull << shift)) | static_cast<uint64_t>(static_cast<unsigned char>(c[i])) << shift;
    }
    v.shrink_to_fit();
    return v;
}

void c07() {
    auto& s = W->stream("c07");
    DS->faults = s.chance(700);
    if (DS->faults) {
        W->knobs.diskShortPermille = s.pick(std::vector<uint32_t>{0, 200, 900});
        W->knobs.diskEintrPermille = s.pick(std::vector<uint32_t>{0, 100, 500});
        W->knobs.diskEioPermille = s.pick(std::vector<uint32_t>{0, 0, 30, 200});
    }
    std::vector<std::unique_ptr<Open>> files;
    uint32_t n = 1 + s.below(4);
    for (uint32_t i = 0; i < n; ++i) {
        auto o = std::make_unique<Open>();
        switch (s.below(4)) {
        case 0: { // asset
            auto& name = s.pick(assetNames());
            o->what = name;
            auto whole = openAsset(name);
            if (!whole) { W->violate("asset-missing", name + " is not provided"); return; }
            o->expect.assign(1 << 20, '\0');
            o->expect.resize(inServer([&] { return whole->read(std::span<char>(o->expect.data(), o->expect.size())); }));
            if (o->expect.empty()) { W->violate("asset-empty", name + " is empty"); return; }
            put(*o, openAsset(name));
        } break;
        case 1: { // embedded data of this run
            o->expect = randomBytes(s, s.sizeUpTo(6000));
            o->words = pack(o->expect, s.chance(500) ? 0 : ~0ull);
            o->what = "embedded file of " + std::to_string(o->expect.size()) + " bytes";
            o->file.emplace(std::span<const uint64_t>(o->words.data(), o->words.size()), o->expect.size(), s.chance(500) ? "gzip" : "");
        } break;
        default: {
            static const std::vector<uint32_t> sizes{0, 1, 511, 512, 513, 1024, 4095, 4096, 8190, 8191, 8192, 8193, 16382, 16384, 32768, 65536, 65537, 131072, 300001};
            o->expect = s.chance(400) ? randomBytes(s, s.pick(sizes)) : randomBytes(s, s.sizeUpTo(40000));
            auto name = "f" + std::to_string(i) + ".bin";
            o->what = "disk file of " + std::to_string(o->expect.size()) + " bytes";
            disk.write(disk.root + "/" + name, o->expect);
            o->native = true;
            put(*o, inServer([&] { return fs::NativeDebugFS(disk.root).open(name); }));
            if (!o->file) { W->violate("not-opened", o->what + " could not be opened"); return; }
        }
        }
        W->sample += (i ? ", " : "") + o->what;
        files.push_back(std::move(o));
    }
    uint32_t style = s.below(4);
    size_t left = files.size();
    for (uint32_t step = 0; left && step < 4000 && !W->done(); ++step) {
        auto& o = *files[s.below(static_cast<uint32_t>(files.size()))];
        if (o.finished) {
            bool found = false;
            for (auto& f : files) if (!f->finished) { found = true; break; }
            if (!found) break;
            continue;
        }
        size_t remaining = o.expect.size() - o.pos, want;
        switch (style) {
        case 0: want = 512; break;
        case 1: want = s.below(20); break;
        case 2: want = s.sizeUpTo(9000); break;
        default:
            switch (s.below(5)) {
            case 0: want = remaining; break;
            case 1: want = remaining + 1 + s.below(9); break;
            case 2: want = remaining ? remaining - 1 : 1; break;
            case 3: want = s.below(17); break;
            default: want = s.sizeUpTo(20000);
            }
        }
        if (style < 2 && remaining > 40 * (want + 1)) want += remaining / 40; // keep runs short
        if (s.chance(50)) { fs::File moved(std::move(*o.file)); o.file.reset(); o.file.emplace(std::move(moved)); }
        std::unique_ptr<char[]> exact(new char[want]); // exact size, so that one byte more is seen
        DS->injectedError = false;
        size_t got = inServer([&] { return o.file->read(std::span<char>(exact.get(), want)); });
        W->trace("file-read", want, got, o.pos);
        W->schedTrace(want * 8 + static_cast<uint64_t>(&o - files[0].get() != 0));
        if (o.native && DS->injectedError) o.error = true;
        bool eof = inServer([&] { return o.file->eof(); });
        auto at = o.what + ", read of " + std::to_string(want) + " at " + std::to_string(o.pos);
        if (got > want || got > remaining) { W->violate("too-much", at + " returned " + std::to_string(got) + " bytes, " + std::to_string(remaining) + " remained"); return; }
        if (std::string_view(exact.get(), got) != std::string_view(o.expect).substr(o.pos, got)) {
            size_t d = 0;
            while (exact[d] == o.expect[o.pos + d]) ++d;
            W->violate("altered", at + ": byte " + std::to_string(o.pos + d) + " differs");
            return;
        }
        o.pos += got;
        if (o.error) {
            if (eof && o.pos != o.expect.size()) { W->violate("error-as-eof", at + ": end of file reported after a disk error at " + std::to_string(o.pos) + " of " + std::to_string(o.expect.size())); return; }
            W->probe("reads_after_error");
            if (o.after++ > 3) { o.finished = true; --left; }
            continue;
        }
        if (got != std::min(want, remaining)) { W->violate("short", at + " returned " + std::to_string(got) + " bytes although " + std::to_string(remaining) + " remained"); return; }
        if (eof && o.pos != o.expect.size()) { W->violate("early-eof", at + ": end of file reported at " + std::to_string(o.pos) + " of " + std::to_string(o.expect.size())); return; }
        W->probe("reads");
        if (o.pos == o.expect.size() && want > 0 && got == 0) { // a read past the end
            if (!eof) { W->violate("no-eof", at + ": read returned 0 at the end without end of file"); return; }
            if (o.after++ > 1) { o.finished = true; --left; W->nontrivial = true; }
        }
    }
}
Register r("C07", "reads", c07);
} // namespace
