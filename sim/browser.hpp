// A browser's Javascript side: node executes the scripts that the server ships, on command of the simulated run.
#pragma once
#include "actors.hpp"

namespace sim {
struct Effect { // something a page did
    std::string kind; // fetch, loaded, broken, socket, send, console, script, called, error, thrown, value
    std::vector<std::string> f;
};
void startBrowser(const std::string& script); // by the runner, once
void restartBrowser();                        // after a run that ended in the middle of a command
void browserRunDone(bool clean);
bool haveBrowser();
// one command; throws std::runtime_error when the browser itself fails
std::vector<Effect> browserCommand(const std::string& op, const std::vector<std::string>& fields);
std::string packValues(const ValueList& l); // as browser.js does: one array
std::optional<ValueList> unpackValues(std::string_view b);
} // namespace sim
