// Owns the server under test and drives its event loop.
#pragma once
#include "actors.hpp"
#include "disk.hpp"
#include "net.hpp"
#include "runner.hpp"
#include <exception>
#include <memory>
#include <string>

namespace sim {

template<typename Fn> decltype(auto) inServer(Fn&& fn) { // calls into the code under test
    InServer in;
    return fn();
}

template<typename S> class Host {
public:
    bool useRunOne = false;
    std::unique_ptr<S> s;
    S& operator*() { return *s; }
    S* operator->() { return s.get(); }

    template<typename... A> bool create(A&&... a) {
        try {
            inServer([&] { s = std::make_unique<S>(std::forward<A>(a)...); });
        }
        catch (const std::exception& e) {
            W->inServer = 0;
            W->violate("exception-at-start", std::string("the server could not be created: ") + e.what());
            return false;
        }
        NW->loopEnded = NW->idle = NW->breakRun = false;
        return true;
    }
    void destroy() {
        W->trace("destroy");
        inServer([&] { s.reset(); });
        W->trace("destroyed");
    }
    // runs until nothing can happen any more; false when the run is over
    bool settle() {
        NW->idle = NW->breakRun = false;
        while (!NW->idle && !W->done() && !NW->breakRun) {
            try {
                if (useRunOne) s->runOne();
                else s->run();
            }
            catch (const std::exception& e) {
                W->inServer = 0;
                W->violate("exception-escaped", std::string("an exception left the event loop: ") + e.what());
                return false;
            }
            catch (...) {
                W->inServer = 0;
                W->violate("exception-escaped", "an exception left the event loop");
                return false;
            }
            if (NW->loopEnded && !NW->idle && !W->done()) {
                W->violate("loop-ended", "the event loop ended although the server was not destroyed");
                return false;
            }
        }
        return !W->done();
    }
};

// lets the world go on without any server
inline void drainWorld() { while (W->step()) {} }

} // namespace sim
