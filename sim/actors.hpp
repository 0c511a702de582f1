// Simulated peers (HTTP clients, browsers' WebSocket, the page's Javascript runtime) and independent codecs used as oracles.
#pragma once
#include "net.hpp"
#include <optional>
#include <variant>

namespace sim {

// ---------------------------------------------------------------- codecs (independent of the code under test)
std::string sha1(std::string_view s);
std::string base64(std::string_view s);
std::string wsAcceptKey(std::string_view key);
std::string lower(std::string_view s);

struct HttpReply {
    bool headersComplete = false, malformed = false;
    std::string why;
    int status = 0;
    std::vector<std::pair<std::string, std::string>> headers;
    std::string body;          // everything after the blank line
    std::optional<size_t> contentLength;
    std::optional<std::string> header(std::string_view name) const;
    size_t count(std::string_view name) const;
    static HttpReply parse(std::string_view bytes);
};

struct WsFrame { bool fin; int opcode; std::string payload; };
std::string wsEncode(bool fin, int opcode, std::string_view payload, bool masked, uint32_t mask, int lenForm /*0 minimal,1 16bit,2 64bit*/ = 0, int rsv = 0);
struct WsDecoder { // strict decoder of what the server sends
    std::string buf;
    bool error = false;
    std::string why;
    std::vector<WsFrame> frames;
    void feed(std::string_view b);
    size_t pending() const { return buf.size(); }
};

struct Value;
using ValueList = std::vector<Value>;
struct Value { // a parameter of a call
    enum Kind { Bool, Number, String, Tuple, Exception } kind = Bool;
    bool b = false;
    double d = 0;
    std::string s;
    ValueList t;
    static Value boolean(bool v) { Value r; r.kind = Bool; r.b = v; return r; }
    static Value number(double v) { Value r; r.kind = Number; r.d = v; return r; }
    static Value string(std::string v) { Value r; r.kind = String; r.s = std::move(v); return r; }
    static Value tuple(ValueList v) { Value r; r.kind = Tuple; r.t = std::move(v); return r; }
    bool operator==(const Value& o) const;
    std::string show() const;
};
std::string show(const ValueList& l);
std::string encodeValue(const Value& v);                               // as the page's script does
std::optional<Value> decodeValue(std::string_view data, size_t& pos, int depth = 0); // as the page's script does
struct CallMsg { std::string name; ValueList params; };
std::string encodeCall(const std::string& name, const ValueList& params);
// decodes a callFunction message strictly; why explains a failure
std::optional<CallMsg> decodeCall(std::string_view msg, std::string& why);

// ---------------------------------------------------------------- actors
struct HttpClient {
    std::string request;
    bool isHead = false;
    ConnPtr conn;
    std::string received;
    bool ended = false, endedByReset = false;
    Time endTime = 0;
    std::function<void()> onEnd;
    std::function<void()> onConnect; // called instead of sending the request when set
    std::function<void(std::string_view)> onData;
    void start(uint16_t port, const std::string& streamName = {});
};

class WsClient { // the browser side of a WebSocket
public:
    ConnPtr conn;
    std::string upgradeRequest;
    std::string key;
    std::string httpBuf;
    bool upgraded = false, upgradeFailed = false, ended = false, endedByReset = false;
    bool sentClose = false, gotClose = false;
    HttpReply upgradeReply;
    std::string afterUpgrade;   // all bytes after the 101 reply
    WsDecoder dec;
    size_t framesSeen = 0;
    // reassembled data messages and control frames
    struct Msg { int opcode; std::string payload; };
    std::vector<Msg> messages;
    std::vector<WsFrame> controls;
    std::string partial;
    int partialOpcode = 0;
    bool inFragment = false;
    std::string protocolError;
    std::function<void()> onOpen;
    std::function<void(const Msg&)> onMessage;
    std::function<void(const WsFrame&)> onControl;
    std::function<void()> onEnd;

    void start(uint16_t port, const std::string& streamName = {});
    void sendFrame(bool fin, int opcode, std::string_view payload, int lenForm = 0);
    void queueFrame(bool fin, int opcode, std::string_view payload, int lenForm = 0);
    void flush();
    void sendText(std::string_view s) { sendFrame(true, 1, s); }
    void sendBinary(std::string_view s) { sendFrame(true, 2, s); }
    void feed(std::string_view b);
    bool masked = true;
    uint32_t fixedMask = 0;
    Stream* rnd = nullptr;
    std::string out;
};
std::string upgradeRequestFor(const std::string& key, const std::string& path = "/");

// A page: a WebSocket that speaks WebFront's protocol
class Page : public WsClient {
public:
    bool autoHandshake = true;
    bool acked = false;
    size_t acks = 0;
    struct Event { enum Kind { Ack, Log, Script, Call, Return, Other } kind; std::string text; CallMsg call; std::string raw; };
    std::vector<Event> events;
    std::string pageError; // first thing the page could not understand
    std::function<void(const Event&)> onEvent;
    std::function<void()> onAck;
    void install();
    void open(uint16_t port, const std::string& streamName = {});
    void handshake() { sendBinary(std::string("\x00\x00", 2)); }
    void call(const std::string& name, const ValueList& params) { sendBinary(encodeCall(name, params)); }
    // sends a data message in a random frame layout
    void sendMessage(Stream& s, int opcode, std::string_view payload, bool controlsBetween = true);
    std::vector<std::string> pingsSent;
};
std::string randomText(Stream& s, size_t n); // letters
std::string anyText(Stream& s, size_t n);    // letters, or whatever else a text may consist of
std::string randomBytes(Stream& s, size_t n);
std::string patternBytes(uint64_t tag, size_t n); // deterministic content identified by tag

} // namespace sim
