// Calls of page functions in many shapes, with what the page has to see of them.
#pragma once
#include "wf_kit.hpp"
#include <cmath>
#include <limits>

namespace sim {
inline size_t stringBudget;
inline bool textOnly; // strings have to be UTF-8
// n bytes of UTF-8 with characters of all lengths; does not start with a byte order mark
inline std::string randomUtf8(Stream& s, size_t n) {
    static const std::vector<std::string> odd{std::string(1, '\0'), "\n", "\r", "\"", "'", "\\", "`", "<", "</script>", "${x}", "\x7f", "\xc2\x80", "\xc3\xa9", "\xdf\xbf", "\xe0\xa0\x80", "\xe2\x80\xa8", "\xe2\x82\xac", "\xed\x9f\xbf", "\xef\xbb\xbf", "\xef\xbf\xbd", "\xef\xbf\xbf", "\xf0\x90\x80\x80", "\xf0\x9f\x98\x80", "\xf4\x8f\xbf\xbf"};
    std::string r;
    uint64_t x = s.bits();
    uint32_t plain = s.below(1001);
    while (r.size() < n) {
        x = mix(x);
        if ((x >> 8) % 1000 < plain) { r += static_cast<char>(' ' + (x >> 40) % 95); continue; }
        auto& o = odd[(x >> 40) % odd.size()];
        if (r.size() + o.size() > n || (r.empty() && o == "\xef\xbb\xbf")) r += 'z';
        else r += o;
    }
    return r;
}
inline std::string genString(Stream& s) {
    static const std::vector<uint32_t> edges{0, 1, 2, 13, 14, 15, 16, 17, 125, 126, 127, 128, 254, 255, 256, 257, 300, 511, 512, 1000, 4095, 8192, 32767, 32768, 65534, 65535};
    size_t n = s.chance(600) ? s.below(40) : s.chance(700) ? s.pick(edges) : s.sizeUpTo(65535);
    if (n > stringBudget) n = s.below(300);
    stringBudget -= std::min(stringBudget, n);
    if (textOnly) return randomUtf8(s, n);
    return s.chance(500) ? anyText(s, n) : randomBytes(s, n);
}
inline double genDouble(Stream& s) {
    static const std::vector<double> edges{0., -0., 1., -1., 0.1, 1e308, -1e308, 5e-324, 2.2250738585072014e-308, 9007199254740993., 4294967296., std::numeric_limits<double>::infinity(), -std::numeric_limits<double>::infinity(), std::numeric_limits<double>::quiet_NaN()};
    if (s.chance(400)) return s.pick(edges);
    double d;
    uint64_t b = s.bits();
    if (s.chance(500)) return static_cast<double>(static_cast<int64_t>(b)) / 1024.;
    std::memcpy(&d, &b, 8);
    return std::isnan(d) ? 3.25 : d;
}
template<typename T> T genInt(Stream& s) {
    using L = std::numeric_limits<T>;
    switch (s.below(4)) {
    case 0: return static_cast<T>(s.below(100));
    case 1: return L::min();
    case 2: return L::max();
    default: return static_cast<T>(s.bits());
    }
}
constexpr uint32_t shapes = 30, refusedShapes = 27; // those from refusedShapes on cannot be expressed
template<size_t... I> void callMany(Fn& f, std::index_sequence<I...>) { f((static_cast<int>(I) * 3)...); }
template<size_t... I> void callManyStrings(Fn& f, const std::vector<std::string>& v, std::index_sequence<I...>) { f(v[I]...); }
template<size_t... I> auto wideTuple(std::index_sequence<I...>) { return std::make_tuple((static_cast<int>(I) * 7)...); }
// calls f with arguments of one of many shapes; exp is what the page has to see
inline void callShape(Fn& f, uint32_t shape, Stream& s, ValueList& exp) {
    auto go = [](auto&& fn) { InServer in; fn(); };
    auto num = [&](double d) { exp.push_back(Value::number(d)); };
    auto str = [&](const std::string& t) { exp.push_back(Value::string(t)); };
    switch (shape) {
    case 0: go([&] { f(); }); break;
    case 1: { bool b = s.below(2); exp.push_back(Value::boolean(b)); go([&] { f(b); }); } break;
    case 2: { auto v = genInt<int>(s); num(v); go([&] { f(v); }); } break;
    case 3: { auto v = genDouble(s); num(v); go([&] { f(v); }); } break;
    case 4: { auto v = std::make_unique<std::string>(genString(s)); str(*v); go([&] { f(*v); }); std::fill(v->begin(), v->end(), '#'); } break;
    case 5: { auto t = genString(s); str(t); go([&] { f(std::string(t)); }); } break;
    case 6: { auto t = std::make_unique<std::string>(genString(s)); str(*t); go([&] { f(std::string_view(*t)); }); std::fill(t->begin(), t->end(), '#'); } break;
    case 7: { auto t = randomText(s, s.below(400)); str(t); auto p = std::make_unique<std::string>(t); const char* c = p->c_str(); go([&] { f(c); }); std::fill(p->begin(), p->end(), '#'); } break;
    case 8: str("literal"); str(""); go([&] { f("literal", ""); }); break;
    case 9: { auto a = genInt<int>(s); auto b = genString(s); bool c = s.below(2); exp.push_back(Value::tuple({Value::number(a), Value::string(b), Value::boolean(c)}));
        auto t = std::make_unique<std::tuple<int, std::string, bool>>(a, b, c); go([&] { f(*t); }); std::get<0>(*t) = 77; } break;
    case 10: { auto d = genDouble(s); auto b = genString(s); auto i = genInt<short>(s);
        exp.push_back(Value::tuple({Value::tuple({Value::number(d), Value::string(b)}), Value::number(i)})); str("x");
        go([&] { f(std::make_tuple(std::make_tuple(d, b), i), "x"); }); } break;
    case 11: { auto i = genInt<int>(s); bool b = s.below(2); auto t = genString(s); auto d = genDouble(s); num(i); exp.push_back(Value::boolean(b)); str(t); num(d); go([&] { f(i, b, t, d); }); } break;
    case 12: { auto v = genInt<uint8_t>(s); auto w = genInt<int8_t>(s); num(v); num(w); go([&] { f(v, w); }); } break;
    case 13: { auto v = genInt<int64_t>(s); auto w = genInt<uint64_t>(s); num(static_cast<double>(v)); num(static_cast<double>(w)); go([&] { f(v, w); }); } break;
    case 14: { auto v = static_cast<float>(genInt<int>(s)) / 3.f; auto u = genInt<unsigned>(s); num(v); num(u); go([&] { f(v, u); }); } break;
    case 15: { std::vector<std::string> v; for (int i = 0; i < 7; ++i) { v.push_back(genString(s)); str(v.back()); } go([&] { f(v[0], v[1], v[2], v[3], v[4], v[5], v[6]); }); } break;
    case 16: for (int i = 0; i < 20; ++i) num(i * 3); go([&] { callMany(f, std::make_index_sequence<20>()); }); break;
    case 17: for (int i = 0; i < 254; ++i) num(i * 3); go([&] { callMany(f, std::make_index_sequence<254>()); }); break;
    case 18: { std::vector<std::string> v; for (int i = 0; i < 100; ++i) { v.push_back(textOnly ? randomUtf8(s, s.below(20)) : anyText(s, s.below(20))); str(v.back()); } go([&] { callManyStrings(f, v, std::make_index_sequence<100>()); }); } break;
    case 19: { const std::string a = genString(s); const bool b = s.below(2); const double d = genDouble(s); str(a); exp.push_back(Value::boolean(b)); num(d); go([&] { f(a, b, d); }); } break;
    case 20: exp.push_back(Value::tuple({})); num(1); go([&] { f(std::tuple<>(), 1); }); break;
    case 21: { char arr[40] = {}; auto t = randomText(s, 39); std::memcpy(arr, t.data(), 39); str(t); go([&] { f(arr); }); std::memset(arr, '#', sizeof arr); } break;
    case 22: { bool a = s.below(2); exp.push_back(Value::boolean(a)); exp.push_back(Value::boolean(!a)); str("t"); exp.push_back(Value::boolean(true)); go([&] { f(a, !a, "t", true); }); } break;
    case 23: { // a wide tuple
        auto t = wideTuple(std::make_index_sequence<60>());
        ValueList l;
        for (int i = 0; i < 60; ++i) l.push_back(Value::number(i * 7));
        exp.push_back(Value::tuple(l));
        str("after");
        go([&] { f(t, "after"); });
    } break;
    case 24: { // as many elements as a tuple can have
        ValueList l;
        for (int i = 0; i < 255; ++i) l.push_back(Value::number(i * 7));
        exp.push_back(Value::tuple(l));
        go([&] { f(wideTuple(std::make_index_sequence<255>())); });
    } break;
    case 25: { // deep
        auto a = genString(s);
        auto d = genDouble(s);
        auto t = std::make_tuple(std::make_tuple(std::make_tuple(std::make_tuple(std::make_tuple(d, a)), true), 1), std::string("z"));
        exp.push_back(Value::tuple({Value::tuple({Value::tuple({Value::tuple({Value::tuple({Value::number(d), Value::string(a)})}), Value::boolean(true)}), Value::number(1)}), Value::string("z")}));
        go([&] { f(t); });
    } break;
    case 26: { // several tuples and numbers
        ValueList l;
        for (int i = 0; i < 12; ++i) l.push_back(Value::number(i * 7));
        for (int i = 0; i < 3; ++i) { exp.push_back(Value::tuple(l)); num(i); }
        go([&] { auto t = wideTuple(std::make_index_sequence<12>()); f(t, 0, t, 1, t, 2); });
    } break;
    // not expressible
    case 27: go([&] { std::string t(65536 + s.below(3) * 1000, 'x'); f(t); }); exp.push_back(Value::string("must be refused")); break;
    case 28: go([&] { f(1, std::string(70000, 'y'), 2); }); exp.push_back(Value::string("must be refused")); break;
    case 29: go([&] { callMany(f, std::make_index_sequence<255>()); }); exp.push_back(Value::string("must be refused")); break;
    }
}

// ---------------------------------------------------------------- calls from pages
struct Invoked { uint64_t conn; std::string name; ValueList params; };
inline Value toValue(bool b) { return Value::boolean(b); }
inline Value toValue(const std::string& t) { return Value::string(t); }
template<typename T> requires std::is_arithmetic_v<T> Value toValue(T v) { return Value::number(static_cast<double>(v)); }
template<typename... T> Value toValue(const std::tuple<T...>& t) {
    ValueList l;
    std::apply([&](auto&... e) { (l.push_back(toValue(e)), ...); }, t);
    return Value::tuple(l);
}
// how to generate a parameter of a type; integral ones within the range of the type
struct Gen { enum K { B, I, D, S, T, U8, LL } k; std::vector<Gen> t; };
inline Value gen(const Gen& g, Stream& s) {
    switch (g.k) {
    case Gen::B: return Value::boolean(s.below(2));
    case Gen::I: return Value::number(genInt<int>(s));
    case Gen::U8: return Value::number(genInt<uint8_t>(s));
    case Gen::LL: return Value::number(static_cast<double>(genInt<int64_t>(s) >> 11));
    case Gen::D: return Value::number(genDouble(s));
    case Gen::S: return Value::string(genString(s));
    default: { ValueList l; for (auto& e : g.t) l.push_back(gen(e, s)); return Value::tuple(l); }
    }
}
struct Registered { std::string name; std::vector<Gen> params; bool throws; };
} // namespace sim
