// Helpers of the demonstrations
#pragma once
#include <experimental/net>
#include <WebFront.hpp>
#include <system/NativeFS.hpp>
#include <cstdio>
#include <cstdlib>
#include <fstream>
#include <iostream>
#include <sstream>

using DemoFS = webfront::fs::Multi<webfront::fs::NativeDebugFS, webfront::fs::IndexFS>;
using DemoWF = webfront::BasicWF<webfront::NetProvider, DemoFS>;

inline void need(bool ok, const char* what) {
    if (ok) return;
    std::fprintf(stderr, "BROKEN: %s\n", what);
    std::_Exit(1);
}
inline std::string get(std::string target, std::string headers = {}, std::string method = "GET") {
    return method + " " + target + " HTTP/1.1\r\nHost: localhost\r\n" + headers + "\r\n";
}
inline std::string upgrade() {
    return get("/", "Connection: Upgrade\r\nUpgrade: websocket\r\nSec-WebSocket-Version: 13\r\nSec-WebSocket-Key: dGhlIHNhbXBsZSBub25jZQ==\r\n");
}
inline std::string frame(int opcode, std::string payload, bool fin = true) { // from a client
    std::string f;
    f += static_cast<char>((fin ? 0x80 : 0) | opcode);
    auto n = payload.size();
    if (n < 126) f += static_cast<char>(0x80 | n);
    else if (n < 65536) { f += static_cast<char>(0x80 | 126); f += static_cast<char>(n >> 8); f += static_cast<char>(n); }
    else { f += static_cast<char>(0x80 | 127); for (int i = 7; i >= 0; --i) f += static_cast<char>(static_cast<unsigned long long>(n) >> (8 * i)); }
    const char mask[4] = {0x11, 0x52, 0x33, 0x74};
    f.append(mask, 4);
    for (size_t i = 0; i < n; ++i) f += static_cast<char>(payload[i] ^ mask[i % 4]);
    return f;
}
struct Msg { int opcode; std::string data; };
// messages found in what the server wrote after its 101 reply; false if the bytes are not well formed
inline bool messages(const std::string& out, std::vector<Msg>& v) {
    auto p = out.find("\r\n\r\n");
    if (p == std::string::npos) return out.empty();
    p += 4;
    auto u = [&](size_t i) { return static_cast<unsigned long long>(static_cast<unsigned char>(out[i])); };
    while (p < out.size()) {
        if (out.size() - p < 2) return false;
        int op = static_cast<int>(u(p) & 15);
        if (u(p) != (0x80u | static_cast<unsigned>(op)) || (u(p + 1) & 0x80)) return false;
        unsigned long long n = u(p + 1) & 127;
        size_t h = 2;
        if (n == 126) { if (out.size() - p < 4) return false; n = u(p + 2) << 8 | u(p + 3); h = 4; }
        else if (n == 127) { if (out.size() - p < 10) return false; n = 0; for (size_t i = 0; i < 8; ++i) n = n << 8 | u(p + 2 + i); h = 10; }
        if (out.size() - p < h + n) return false;
        v.push_back({op, out.substr(p + h, n)});
        p += h + n;
    }
    return true;
}
struct Quiet { Quiet() { std::cout.setstate(std::ios::failbit); } } const quiet;
inline std::string handshake() { return frame(2, std::string("\0\0", 2)); }
