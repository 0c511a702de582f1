#pragma once
#include "core.hpp"
namespace sim {
using EpisodeFn = void (*)();
struct Scenario { std::string property, name; EpisodeFn fn; unsigned weight; };
std::vector<Scenario>& scenarios();
extern std::string knownFindings; // names of recorded defects, separated by commas
extern int (*dumpAssets)(const std::string& dir); // set by the scenario file that can
struct Register {
    Register(const char* property, const char* name, EpisodeFn fn, unsigned weight = 1) { scenarios().push_back({property, name, fn, weight}); }
};
} // namespace sim
