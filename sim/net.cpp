#include "net.hpp"
#include <algorithm>
#include <cerrno>
#include <cstring>
#include <utility>

namespace sim {
NetWorld* NW = nullptr;
int SockImpl::live = 0;
int SockImpl::open = 0;

std::error_code errc(int e) { return {e, std::system_category()}; }
int ioError(uint32_t n) {
    static const std::vector<int> errors{EPIPE, ECONNRESET, ETIMEDOUT, ENOBUFS, ENOMEM, EHOSTUNREACH, ENETDOWN, EIO, ECONNABORTED, ENOTCONN};
    return errors[n % errors.size()];
}

namespace {
struct MiscCat : std::error_category {
    const char* name() const noexcept override { return "asio.misc"; }
    std::string message(int) const override { return "End of file"; }
};
std::error_code eofDefault() { static MiscCat c; return {2, c}; }
}
std::error_code (*eofCode)() = eofDefault;

// ------------------------------------------------------------------ Io
std::vector<Io*> Io::all;
Io::Io() { OutOfServer o; all.push_back(this); }
Io::~Io() { shutdown(); OutOfServer o; std::erase(all, this); }
void Io::shutdown() {
    InLibrary l;
    dead = true;
    stopped = true;
    // asio: destroying the context destroys every queued handler and every pending operation without running them
    for (;;) {
        if (!ready.empty()) {
            auto t = std::move(ready.front());
            ready.pop_front();
            continue;
        }
        bool any = false;
        for (auto& [r, l] : listeners)
            if (l->pendingAccepts()) { auto keep = l->shared_from_this(); l->abandon(); any = true; break; }
        if (!any)
            for (auto& [r, s] : socks)
                if (!s->reads.empty() || !s->writes.empty()) {
                    auto keep = s->weak_from_this().lock();
                    auto rd = std::move(s->reads);
                    auto wr = std::move(s->writes);
                    s->reads.clear();
                    s->writes.clear();
                    any = true;
                    break; // the maps may change while the operations are destroyed
                }
        if (!any) break;
    }
}
void Io::late() {
    OutOfServer o;
    if (W) W->violate("use-after-free", "a socket was used or destroyed after the io_context it belongs to had been destroyed");
}
void Io::post(Task t) {
    OutOfServer o;
    if (dead) return;
    ready.push_back(std::move(t));
}
size_t Io::runOne() {
    while (!stopped && !W->done() && !NW->breakRun) {
        if (!ready.empty()) {
            auto& s = W->stream("io");
            if (W->knobs.serverStallPermille && s.chance(W->knobs.serverStallPermille)) { // the server thread is slow: the world moves on
                W->fault(Fault::ServerStall);
                Time until = W->now() + (1 + s.below(5000)) * us;
                bool reached = false;
                W->at(until, [&reached] { reached = true; });
                while (!reached && W->step()) {}
                W->schedTrace(77);
                W->trace("stall-end");
                if (stopped || W->done() || ready.empty() || NW->breakRun) continue;
            }
            Task t = std::move(ready.front());
            ready.pop_front();
            InServer in;
            t();
            return 1;
        }
        if (outstanding == 0) { // as asio: no work left
            NW->loopEnded = true;
            return 0;
        }
        if (!W->step()) {
            NW->idle = true;
            return 0;
        }
    }
    if (stopped && !dead) NW->loopEnded = true;
    return 0;
}
size_t Io::run() {
    size_t n = 0;
    while (runOne()) ++n;
    return n;
}
size_t Io::poll() {
    size_t n = 0;
    while (!ready.empty() && !stopped) {
        Task t = std::move(ready.front());
        ready.pop_front();
        InServer in;
        t();
        ++n;
    }
    return n;
}

// ------------------------------------------------------------------ SockImpl
SockImpl::~SockImpl() {
    close();
    io->socks.erase(reg);
    --live;
}
void SockImpl::attach(ConnPtr c) {
    conn = std::move(c);
    conn->server = weak_from_this();
    conn->accepted = true;
    ++open;
}
uint64_t SockImpl::id() const { return conn ? conn->id : ~0ull; }

void SockImpl::complete(IoHandler h, std::error_code ec, size_t n) {
    OutOfServer o;
    auto i = io;
    i->post([h = std::move(h), ec, n, i, c = conn ? uint64_t{conn->id} : ~0ull]() mutable {
        --i->outstanding;
        IoHandler local = std::move(h);
        struct Running { // also when the handler throws
            uint64_t outer;
            ~Running() { NW->running = outer; }
        } running{std::exchange(NW->running, c)};
        local(ec, n);
    });
    if (i->dead) --i->outstanding;
}

bool SockImpl::readable() const { return conn && (conn->serverUnread() || conn->rxFin || conn->rxRst || conn->readError || shutRd); }
size_t SockImpl::available() const { return conn ? conn->serverUnread() : 0; }

void SockImpl::asyncRead(std::vector<Mut> bufs, IoHandler h) {
    OutOfServer o;
    if (io->dead) return;
    ++io->outstanding;
    size_t total = 0;
    for (auto& b : bufs) total += b.n;
    if (!conn) { complete(std::move(h), errc(EBADF), 0); return; }
    if (total == 0) { complete(std::move(h), {}, 0); return; }
    bool first = reads.empty();
    reads.push_back(Rd{std::move(bufs), std::move(h)});
    if (first && readable() && conn->net.chance(W->knobs.speculativePermille)) {
        W->fault(Fault::SpeculativeIo);
        performRead();
    }
    kickRead();
}

void SockImpl::kickRead() {
    if (rdScheduled || reads.empty() || !readable()) return;
    rdScheduled = true;
    Time d = conn->net.chance(W->knobs.delayPermille / 2) ? conn->net.below(W->knobs.maxDelayUs) * us : 0;
    W->after(d, [w = weak_from_this()] {
        if (auto s = w.lock()) {
            s->rdScheduled = false;
            if (!s->conn) return;
            s->performRead();
            s->kickRead();
        }
    });
}

bool SockImpl::performRead() {
    if (reads.empty() || !readable()) return false;
    auto op = std::move(reads.front());
    reads.pop_front();
    size_t avail = conn->serverUnread();
    if (shutRd) avail = 0;
    if (avail) {
        size_t total = 0;
        for (auto& b : op.bufs) total += b.n;
        size_t n = std::min(avail, total);
        if (n > 1 && conn->net.chance(W->knobs.partialReadPermille)) {
            n = 1 + conn->net.below(static_cast<uint32_t>(n - 1));
            W->fault(Fault::PartialRead);
        }
        if (conn->rxSegments > 1) W->fault(Fault::Coalescing);
        conn->rxSegments = n < avail ? 1 : 0;
        size_t left = n;
        for (auto& b : op.bufs) {
            size_t c = std::min(left, b.n);
            std::memcpy(b.p, conn->rx.data() + conn->rxOff, c);
            conn->rxOff += c;
            left -= c;
            if (!left) break;
        }
        if (conn->rxOff == conn->rx.size()) { conn->rx.clear(); conn->rxOff = 0; }
        conn->bytesReadByServer += n;
        W->trace("srv-read", conn->id, n);
        W->schedTrace(mix(conn->id * 8 + 1) ^ n);
        complete(std::move(op.h), {}, n);
    }
    else if (conn->readError && !shutRd) {
        W->trace("srv-read-error", conn->id, static_cast<uint64_t>(conn->readError));
        W->schedTrace(mix(conn->id * 8 + 6));
        W->fault(Fault::ReadError);
        conn->serverSawEnd = true;
        complete(std::move(op.h), errc(conn->readError), 0);
    }
    else if (conn->rxRst) {
        W->trace("srv-read-rst", conn->id);
        W->schedTrace(mix(conn->id * 8 + 2));
        W->fault(Fault::ReadError);
        complete(std::move(op.h), errc(ECONNRESET), 0);
    }
    else {
        W->trace("srv-read-eof", conn->id);
        W->schedTrace(mix(conn->id * 8 + 3));
        complete(std::move(op.h), eofCode(), 0);
    }
    return true;
}

// the bytes the server handed over, at most the first 256 KB of them
static uint64_t contentHash(const std::vector<Con>& bufs) {
    uint64_t h = 1;
    size_t left = 1 << 18;
    for (auto& b : bufs) {
        auto n = std::min(left, b.n);
        auto p = static_cast<const char*>(b.p);
        uint64_t w = 0;
        size_t i = 0;
        for (; i + 8 <= n; i += 8) { std::memcpy(&w, p + i, 8); h = (h ^ w) * 0x9E3779B97F4A7C15ull; h ^= h >> 29; }
        for (; i < n; ++i) h = (h ^ static_cast<unsigned char>(p[i])) * 0x9E3779B97F4A7C15ull;
        left -= n;
    }
    return h;
}
void SockImpl::asyncWrite(std::vector<Con> bufs, IoHandler h) {
    OutOfServer o;
    if (io->dead) return;
    ++io->outstanding;
    size_t total = 0;
    for (auto& b : bufs) total += b.n;
    if (!conn) { complete(std::move(h), errc(EBADF), 0); return; }
    if (total == 0) { complete(std::move(h), {}, 0); return; }
    bool first = writes.empty();
    auto content = contentHash(bufs);
    writes.push_back(Wr{std::move(bufs), std::move(h), content});
    if (first && conn->net.chance(W->knobs.speculativePermille)) {
        W->fault(Fault::SpeculativeIo);
        performWrite();
    }
    kickWrite();
}

void SockImpl::kickWrite() {
    if (wrScheduled || writes.empty() || !conn) return;
    if (!conn->rxRst && !conn->writeError && !shutWr && conn->window() == 0) return;
    wrScheduled = true;
    Time d = conn->net.chance(W->knobs.delayPermille / 2) ? conn->net.below(W->knobs.maxDelayUs) * us : 0;
    W->after(d, [w = weak_from_this()] {
        if (auto s = w.lock()) {
            s->wrScheduled = false;
            if (!s->conn) return;
            s->performWrite();
            s->kickWrite();
        }
    });
}

bool SockImpl::performWrite() {
    if (writes.empty()) return false;
    if (conn->rxRst || conn->writeError || shutWr) {
        auto op = std::move(writes.front());
        writes.pop_front();
        auto ec = shutWr || conn->rstReported ? errc(EPIPE) : conn->writeError ? errc(conn->writeError) : errc(ECONNRESET);
        if (conn->rxRst) conn->rstReported = true;
        if (conn->writeError) conn->serverSawEnd = true;
        W->trace("srv-write-error", conn->id, static_cast<uint64_t>(ec.value()));
        W->schedTrace(mix(conn->id * 8 + 4));
        W->fault(Fault::WriteError);
        complete(std::move(op.h), ec, 0);
        return true;
    }
    size_t space = conn->window();
    if (!space) return false;
    auto op = std::move(writes.front());
    writes.pop_front();
    size_t total = 0;
    for (auto& b : op.bufs) total += b.n;
    if (contentHash(op.bufs) != op.content) { W->violate("buffer-changed", "a buffer given to an asynchronous write was modified before the write completed (connection " + std::to_string(conn->id) + ")"); return false; }
    size_t n = std::min(space, total);
    if (n > 1 && conn->net.chance(W->knobs.partialWritePermille)) n = 1 + conn->net.below(static_cast<uint32_t>(n - 1));
    if (n < total) W->fault(Fault::PartialWrite);
    std::string bytes;
    bytes.reserve(n);
    size_t left = n;
    for (auto& b : op.bufs) {
        size_t c = std::min(left, b.n);
        bytes.append(static_cast<const char*>(b.p), c);
        left -= c;
        if (!left) break;
    }
    W->trace("srv-write", conn->id, n);
    W->schedTrace(mix(conn->id * 8 + 5) ^ n);
    conn->serverSend(std::move(bytes));
    complete(std::move(op.h), {}, n);
    return true;
}

size_t SockImpl::syncRead(std::vector<Mut> bufs, std::error_code& ec) {
    OutOfServer o;
    size_t result = 0;
    bool fin = false;
    if (!conn) { ec = errc(EBADF); return 0; }
    while (!readable() && W->step()) {}
    if (!readable()) { ec = errc(ETIMEDOUT); return 0; }
    auto self = shared_from_this();
    ++io->outstanding;
    reads.push_front(Rd{std::move(bufs), [&](std::error_code e, size_t n) { ec = e; result = n; fin = true; }});
    performRead();
    while (!fin) io->poll();
    return result;
}
size_t SockImpl::syncWrite(std::vector<Con> bufs, std::error_code& ec) {
    OutOfServer o;
    if (!conn) { ec = errc(EBADF); return 0; }
    if (conn->rxRst || shutWr) { ec = errc(EPIPE); return 0; }
    if (conn->writeError) { ec = errc(conn->writeError); return 0; }
    while (conn && conn->window() == 0 && W->step()) {}
    if (!conn || conn->window() == 0) { ec = errc(ETIMEDOUT); return 0; }
    std::string bytes;
    for (auto& b : bufs) bytes.append(static_cast<const char*>(b.p), b.n);
    bytes.resize(std::min(bytes.size(), conn->window()));
    size_t n = bytes.size();
    conn->serverSend(std::move(bytes));
    ec = {};
    return n;
}

void SockImpl::cancel() {
    OutOfServer o;
    while (!reads.empty()) { auto op = std::move(reads.front()); reads.pop_front(); complete(std::move(op.h), errc(ECANCELED), 0); }
    while (!writes.empty()) { auto op = std::move(writes.front()); writes.pop_front(); complete(std::move(op.h), errc(ECANCELED), 0); }
}

void SockImpl::close() {
    if (!conn) return;
    OutOfServer o;
    auto c = std::move(conn);
    conn = nullptr;
    --open;
    cancel();
    W->trace("srv-close", c->id, c->serverUnread());
    W->schedTrace(mix(c->id * 8 + 6));
    c->serverClosed = true;
    c->serverFinish(false);
    c->rx.clear();
    c->rxOff = 0;
}

std::error_code SockImpl::shutdown(int how) {
    OutOfServer o;
    if (!conn) return errc(EBADF);
    if (conn->rxRst) return errc(ENOTCONN);
    W->trace("srv-shutdown", conn->id, static_cast<uint64_t>(how));
    if (how == 0 || how == 2) shutRd = true;
    if (how == 1 || how == 2) {
        shutWr = true;
        conn->serverFinish(false);
    }
    kickRead();
    kickWrite();
    return {};
}

// ------------------------------------------------------------------ Conn
Time Conn::arrival(Time& last, Time extra) {
    Time t = W->now() + extra;
    if (net.chance(W->knobs.delayPermille)) {
        t += (1 + net.below(W->knobs.maxDelayUs)) * us;
        W->fault(Fault::Delay);
    }
    t = std::max(t, last);
    for (auto& [from, to] : partitions)
        if (t >= from && t < to) { t = to; W->fault(Fault::Partition); }
    last = t;
    return t;
}

void Conn::send(std::string_view bytes) {
    size_t pieces = 0;
    while (!bytes.empty()) {
        size_t n = bytes.size();
        if (n > 1 && pieces < 200 && net.chance(W->knobs.segmentPermille)) {
            if (pieces < 100 && net.chance(W->knobs.oneByte)) n = 1;
            else n = 1 + net.below(static_cast<uint32_t>(std::min<size_t>(n - 1, 20000)));
            W->fault(Fault::Segmentation);
        }
        ++pieces;
        sendExact(bytes.substr(0, n));
        bytes.remove_prefix(n);
    }
}

void Conn::sendExact(std::string_view bytes, Time delay) {
    if (clientFin || clientReset || clientClosed) return;
    bytesToServer += bytes.size();
    auto self = shared_from_this();
    W->at(arrival(lastToServer, delay), [self, b = std::string(bytes), e = dropEpoch] {
        if (e == self->dropEpoch) self->deliverToServer(b);
    });
}

void Conn::deliverToServer(std::string bytes) {
    W->trace("to-server", id, bytes.size(), hashStr(bytes));
    if (serverClosed || rxRst) return;
    rx += bytes;
    ++rxSegments;
    if (auto s = server.lock()) s->kickRead();
}

void Conn::fin() {
    if (clientFin || clientReset) return;
    clientFin = true;
    auto self = shared_from_this();
    W->at(arrival(lastToServer), [self, e = dropEpoch] {
        if (e != self->dropEpoch || self->rxRst) return;
        W->trace("fin-to-server", self->id);
        self->rxFin = true;
        self->serverSawEnd = true;
        if (auto s = self->server.lock()) s->kickRead();
    });
}

void Conn::failWrites(int e) {
    W->trace("fail-writes", id, static_cast<uint64_t>(e));
    writeError = e;
    if (auto s = server.lock()) s->kickWrite();
}
void Conn::failReads(int e) {
    W->trace("fail-reads", id, static_cast<uint64_t>(e));
    readError = e;
    if (auto s = server.lock()) s->kickRead();
}

void Conn::close() {
    if (clientClosed || clientReset) return;
    fin();
    clientClosed = true;
    clientBuf.clear();
    auto self = shared_from_this();
    if (auto s = server.lock()) W->after(0, [self] { if (auto s2 = self->server.lock()) s2->kickWrite(); });
}

void Conn::reset(bool dropInFlight) {
    if (clientReset) return;
    clientReset = clientClosed = clientFin = true;
    clientBuf.clear();
    if (dropInFlight) {
        ++dropEpoch;
        lastToServer = W->now();
        W->fault(Fault::ResetDropsData);
    }
    auto self = shared_from_this();
    W->at(arrival(lastToServer), [self, e = dropEpoch] {
        if (e != self->dropEpoch || self->rxRst) return;
        W->trace("rst-to-server", self->id);
        self->rxRst = true;
        self->serverSawEnd = true;
        if (auto s = self->server.lock()) { s->kickRead(); s->kickWrite(); }
    });
}

size_t Conn::window() const {
    size_t used = s2cInFlight + clientBuf.size();
    return used >= W->knobs.window ? 0 : W->knobs.window - used;
}

void Conn::serverSend(std::string bytes) {
    bytesFromServer += bytes.size();
    s2cInFlight += bytes.size();
    auto self = shared_from_this();
    W->at(arrival(lastToClient), [self, b = std::move(bytes)]() mutable { self->arriveAtClient(std::move(b)); });
}

void Conn::arriveAtClient(std::string bytes) {
    s2cInFlight -= bytes.size();
    W->trace("to-client", id, bytes.size(), 0);
    if (clientClosed || clientReset) { // the client's kernel answers with RST
        if (!clientReset && !rxRst) {
            auto self = shared_from_this();
            W->at(arrival(lastToServer), [self] {
                if (self->rxRst) return;
                W->trace("rst-to-server", self->id);
                self->rxRst = true;
                self->serverSawEnd = true;
                if (auto s = self->server.lock()) { s->kickRead(); s->kickWrite(); }
            });
        }
        if (auto s = server.lock()) s->kickWrite();
        return;
    }
    clientBuf += bytes;
    drainClient();
}

void Conn::drainClient() {
    if (paused || drainScheduled || clientClosed || clientReset) return;
    if (!clientBuf.empty()) {
        if (readRate && !clientBuf.empty()) {
            drainScheduled = true;
            auto self = shared_from_this();
            W->after(ms, [self] {
                self->drainScheduled = false;
                if (self->paused || self->clientClosed || self->clientReset) return;
                size_t n = std::min<size_t>(self->readRate, self->clientBuf.size());
                std::string part = self->clientBuf.substr(0, n);
                self->clientBuf.erase(0, n);
                self->bytesDelivered += n;
                if (self->cb.onData) self->cb.onData(part);
                if (auto s = self->server.lock()) s->kickWrite();
                self->drainClient();
            });
            return;
        }
        std::string part = std::move(clientBuf);
        clientBuf.clear();
        bytesDelivered += part.size();
        if (cb.onData) cb.onData(part);
        if (auto s = server.lock()) s->kickWrite();
    }
    if (endPending && clientBuf.empty() && !paused) reportEnd();
}

void Conn::pauseReading() {
    if (!paused) W->fault(Fault::ZeroWindow);
    paused = true;
}
void Conn::resumeReading() {
    paused = false;
    drainClient();
}

void Conn::serverFinish(bool rst) {
    if (serverFin) return;
    serverFin = true;
    auto self = shared_from_this();
    W->at(arrival(lastToClient), [self, rst] {
        W->trace("fin-to-client", self->id);
        self->endPending = true;
        self->endReset = rst;
        if (self->clientClosed || self->clientReset) return;
        self->drainClient();
    });
}

void Conn::reportEnd() {
    if (clientEnded) return;
    clientEnded = true;
    if (cb.onEnd) cb.onEnd(endReset);
}

// ------------------------------------------------------------------ Listener
Listener::~Listener() {
    close();
    io->listeners.erase(reg);
}
std::error_code Listener::bind(uint16_t p) {
    if (NW->ports.count(p)) return errc(EADDRINUSE);
    port = p;
    bound = true;
    return {};
}
std::error_code Listener::listen() {
    if (NW->ports.count(port)) return errc(EADDRINUSE);
    NW->ports[port] = this;
    listening = true;
    return {};
}
void Listener::close() {
    if (!isOpen) return;
    isOpen = false;
    OutOfServer o;
    if (listening) {
        NW->ports.erase(port);
        listening = false;
        for (auto& c : backlog) { // never accepted: the kernel resets them
            c->serverClosed = true;
            c->serverFinish(true);
        }
        backlog.clear();
    }
    cancel();
}
void Listener::cancel() {
    OutOfServer o;
    while (!pending.empty()) {
        auto h = std::move(pending.front());
        pending.pop_front();
        auto i = io;
        i->post([h = std::move(h), i]() mutable { --i->outstanding; h(errc(ECANCELED), nullptr); });
        if (i->dead) --i->outstanding;
    }
}
void Listener::asyncAccept(AcceptHandler h) {
    OutOfServer o;
    if (io->dead) return;
    ++io->outstanding;
    if (!isOpen || !listening) {
        auto i = io;
        i->post([h = std::move(h), i, bad = !isOpen]() mutable { --i->outstanding; h(errc(bad ? EBADF : EINVAL), nullptr); });
        return;
    }
    pending.push_back(std::move(h));
    kick();
}
void Listener::incoming(ConnPtr c) {
    backlog.push_back(std::move(c));
    kick();
}
void Listener::kick() {
    if (scheduled || pending.empty() || backlog.empty()) return;
    scheduled = true;
    W->after(0, [w = weak_from_this()] {
        auto s = w.lock();
        if (!s) return;
        s->scheduled = false;
        if (!s->isOpen || s->pending.empty() || s->backlog.empty()) return;
        auto h = std::move(s->pending.front());
        s->pending.pop_front();
        auto& st = W->stream("accept");
        std::error_code ec;
        std::shared_ptr<SockImpl> sock;
        bool fail = st.chance(W->knobs.acceptErrorPermille) && s->failStreak < W->knobs.maxAcceptStreak;
        if (fail) {
            static const int errs[] = {EMFILE, ECONNABORTED, ENFILE, ENOBUFS, EPROTO, ENOMEM, EINTR, EPERM, ECONNRESET};
            int e = errs[st.below(9)];
            ++s->failStreak;
            ec = errc(e);
            ++NW->acceptErrors;
            if (e == ECONNABORTED || e == EPROTO || e == EPERM || e == ECONNRESET) { // this connection is gone
                W->fault(Fault::AcceptAborted);
                auto c = s->backlog.front();
                s->backlog.pop_front();
                c->refused = true;
                c->serverClosed = true;
                c->serverFinish(true);
            }
            else W->fault(Fault::AcceptError); // the connection stays in the backlog
            W->trace("accept-error", static_cast<uint64_t>(e));
            W->schedTrace(mix(static_cast<uint64_t>(e) + 1000));
        }
        else {
            s->failStreak = 0;
            auto c = s->backlog.front();
            s->backlog.pop_front();
            sock = std::make_shared<SockImpl>(s->io);
            sock->attach(c);
            ++NW->accepts;
            W->trace("accept", c->id);
            W->schedTrace(mix(c->id * 8 + 7));
        }
        auto i = s->io;
        i->post([h = std::move(h), ec, sock = std::move(sock), i]() mutable {
            --i->outstanding;
            auto local = std::move(h);
            auto so = std::move(sock);
            local(ec, std::move(so));
        });
        s->kick();
    });
}

ConnPtr NetWorld::connect(uint16_t port, PeerCallbacks cb, const std::string& streamName) {
    uint32_t id = nextConn++;
    auto c = std::make_shared<Conn>(id, W->stream(streamName.empty() ? "net" + std::to_string(id) : streamName));
    c->cb = std::move(cb);
    W->trace("connect", id, port);
    W->at(c->arrival(c->lastToServer), [c, port, this] {
        auto it = ports.find(port);
        if (it == ports.end()) {
            W->trace("refused", c->id);
            c->refused = true;
            c->serverClosed = true;
            c->serverFinish(true);
            return;
        }
        W->trace("syn", c->id);
        c->lastToClient = std::max(c->lastToClient, W->now());
        it->second->incoming(c);
        // the handshake completes in the kernel, before accept
        W->at(c->arrival(c->lastToClient), [c] {
            c->connected = true;
            W->trace("connected", c->id);
            if (c->cb.onConnect && !c->clientClosed && !c->clientReset) c->cb.onConnect();
        });
    });
    return c;
}

} // namespace sim
