// Simulated TCP: connections, listeners, and the operating-system side of io_context.
#pragma once
#include "core.hpp"
#include <functional>
#include <system_error>

namespace sim {

using IoHandler = std::move_only_function<void(std::error_code, size_t)>;
using Task = std::move_only_function<void()>;

struct Mut { void* p; size_t n; };
struct Con { const void* p; size_t n; };

class Conn;
using ConnPtr = std::shared_ptr<Conn>;

// The reactor + scheduler of one io_context
class Io {
public:
    Io();
    ~Io();
    void post(Task t);
    size_t runOne();   // executes at most one handler
    size_t run();
    size_t poll();
    bool stopped = false;
    bool dead = false;
    bool gone = false; // the io_context object has been destroyed
    void used() const { if (gone) late(); }
    static void late();
    static std::vector<Io*> all; // in order of creation
    uint64_t outstanding = 0;
    size_t pendingHandlers() const { return ready.size(); }
    void shutdown();
    std::map<uint64_t, class SockImpl*> socks; // in order of creation
    std::map<uint64_t, class Listener*> listeners;
    uint64_t nextReg = 0;

private:
    std::deque<Task> ready;
};
using IoPtr = std::shared_ptr<Io>;

// Server side of a connection
class SockImpl : public std::enable_shared_from_this<SockImpl> {
public:
    SockImpl(IoPtr i) : io(std::move(i)), reg(io->nextReg++) { ++live; io->socks[reg] = this; }
    ~SockImpl();
    void attach(ConnPtr c);
    void asyncRead(std::vector<Mut> bufs, IoHandler h);
    void asyncWrite(std::vector<Con> bufs, IoHandler h);
    size_t syncRead(std::vector<Mut> bufs, std::error_code& ec);
    size_t syncWrite(std::vector<Con> bufs, std::error_code& ec);
    void close();
    void cancel();
    std::error_code shutdown(int how); // 0 recv 1 send 2 both
    bool isOpen() const { return conn != nullptr; }
    void kickRead();
    void kickWrite();
    size_t available() const;
    uint64_t id() const;
    static int live;  // SockImpl objects alive
    static int open;  // of which open

    ConnPtr conn;
    IoPtr io;
    uint64_t reg;
    struct Rd { std::vector<Mut> bufs; IoHandler h; };
    struct Wr { std::vector<Con> bufs; IoHandler h; uint64_t content; };
    std::deque<Rd> reads;
    std::deque<Wr> writes;
    bool nonBlocking = false;

private:
    bool rdScheduled = false, wrScheduled = false, shutRd = false, shutWr = false;
    bool readable() const;
    bool performRead();   // does one read if possible and queues its completion
    bool performWrite();
    void complete(IoHandler h, std::error_code ec, size_t n);
    friend class Conn;
};

// What the peer of a connection is told
struct PeerCallbacks {
    std::function<void()> onConnect;
    std::function<void(std::string_view)> onData;
    std::function<void(bool reset)> onEnd; // server closed (FIN) or reset
};

class Conn : public std::enable_shared_from_this<Conn> {
public:
    Conn(uint32_t i, Stream& s) : id(i), net(s) {}
    uint32_t id;
    Stream& net;
    PeerCallbacks cb;
    bool refused = false, connected = false;

    // ---- client side API
    void send(std::string_view bytes);            // queued, cut into segments by the network
    void sendExact(std::string_view bytes, Time delay = 0); // one segment
    void fin();                                    // half close (client keeps reading)
    void close();                                  // full close: later server data is answered by RST
    void reset(bool dropInFlight);
    void pauseReading();                           // stop reading: the window fills up
    void resumeReading();
    void partition(Time from, Time to) { partitions.emplace_back(from, to); }
    bool clientEnded = false;                      // saw FIN or RST from the server
    bool clientClosed = false, clientReset = false, clientFin = false;
    bool serverClosed = false, serverFin = false;
    uint64_t bytesToServer = 0;                    // sent by client
    uint64_t bytesReadByServer = 0, bytesFromServer = 0, bytesDelivered = 0;
    uint32_t readRate = 0;                         // bytes per ms the client reads, 0: unlimited
    bool accepted = false;
    size_t serverUnread() const { return rx.size() - rxOff; }
    bool serverSawEnd = false;                     // FIN or RST visible to the server side, or an operation of it failed
    void failWrites(int e);                        // every further write of the server fails, reading goes on
    void failReads(int e);                         // and the other way round

private:
    friend class SockImpl;
    friend class Listener;
    friend struct NetWorld;
    std::weak_ptr<SockImpl> server;
    std::string rx;
    size_t rxOff = 0;
    uint32_t rxSegments = 0; // segments since the last read
    bool rxFin = false, rxRst = false, rstReported = false;
    int writeError = 0, readError = 0;
    Time lastToServer = 0, lastToClient = 0;
    uint64_t dropEpoch = 0;
    size_t s2cInFlight = 0;
    std::string clientBuf; // arrived at the client, not read by it yet
    bool paused = false, drainScheduled = false;
    bool endPending = false, endReset = false;
    std::vector<std::pair<Time, Time>> partitions;
    Time arrival(Time& last, Time extra = 0);
    void deliverToServer(std::string bytes);
    void serverSend(std::string bytes);
    void serverFinish(bool reset);
    void arriveAtClient(std::string bytes);
    void drainClient();
    size_t window() const;
    void reportEnd();
};

class Listener : public std::enable_shared_from_this<Listener> {
public:
    Listener(IoPtr i) : io(std::move(i)), reg(io->nextReg++) { io->listeners[reg] = this; }
    ~Listener();
    IoPtr io;
    uint64_t reg;
    void abandon() { auto p = std::move(pending); pending.clear(); }
    using AcceptHandler = std::move_only_function<void(std::error_code, std::shared_ptr<SockImpl>)>;
    bool isOpen = false, bound = false, listening = false;
    uint16_t port = 0;
    void open() { isOpen = true; }
    std::error_code bind(uint16_t p);
    std::error_code listen();
    void asyncAccept(AcceptHandler h);
    void close();
    void cancel();
    void incoming(ConnPtr c);
    void kick();
    size_t pendingAccepts() const { return pending.size(); }

private:
    std::deque<AcceptHandler> pending;
    std::deque<ConnPtr> backlog;
    bool scheduled = false;
    uint32_t failStreak = 0;
};

// Per-world registry of listeners and connections
struct NetWorld {
    std::map<uint16_t, Listener*> ports;
    uint32_t nextConn = 0;
    uint64_t accepts = 0, acceptErrors = 0;
    bool idle = false;      // nothing can happen any more until the scenario does something
    bool breakRun = false;  // the scenario wants run()/runOne() to return
    uint64_t running = ~0ull; // connection whose completion handler is being executed by the server
    bool loopEnded = false; // the event loop ran out of work by itself
    // connects a client; callbacks may be called from events only
    ConnPtr connect(uint16_t port, PeerCallbacks cb, const std::string& streamName = {});
    bool hasListener(uint16_t port) const { return ports.count(port) != 0; }
};
extern NetWorld* NW;

std::error_code errc(int e);
int ioError(uint32_t n); // of those that reading or writing may fail with
extern std::error_code (*eofCode)();

} // namespace sim
