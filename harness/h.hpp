// Independent executable oracle: reference definitions, case generation, failure reporting.
// Used to look for failing inputs and as labelled bounded stand-in; it never counts as proof.
#pragma once
#include <Ystring/Ystring.hpp>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <csignal>
#include <fstream>
#include <functional>
#include <list>
#include <map>
#include <random>
#include <sstream>
#include <string>
#include <unistd.h>
#include <variant>
#include <vector>
#include <chrono>
#include <Ystring/Escape.hpp>
extern "C" void __sanitizer_set_death_callback(void (*)(void));
namespace h
{
using std::string; using std::string_view; using std::u32string; using std::u32string_view; using std::vector; using std::optional; using std::pair; using std::size_t;
using ystring::Subrange; using ystring::INVALID_CHAR;
constexpr size_t NPOS = size_t(-1);
// ---- reference UTF-8 --------------------------------------------------------------------------
struct Dec { size_t n; uint32_t v; };
inline bool cont(char c) { return (uint8_t(c) & 0xC0) == 0x80; }
inline size_t lead(char c) { auto u = uint8_t(c); return u < 0x80 ? 1 : u < 0xC0 ? 0 : u < 0xE0 ? 2 : u < 0xF0 ? 3 : u < 0xF8 ? 4 : 0; }
inline Dec dec(string_view s, size_t i, size_t e)
{
    if (i >= e) return {0, 0};
    size_t n = lead(s[i]);
    if (!n || n > e - i) return {0, 0};
    uint32_t v = n == 1 ? uint8_t(s[i]) : uint8_t(s[i]) & (0x7F >> n);
    for (size_t k = 1; k < n; ++k) { if (!cont(s[i + k])) return {0, 0}; v = v * 64 + (uint8_t(s[i + k]) & 63); }
    return {n, v};
}
inline Dec dec(string_view s, size_t i) { return dec(s, i, s.size()); }
inline Dec dec_prev(string_view s, size_t b, size_t i)
{
    for (size_t n = 1; n <= 4; ++n) if (i >= b + n) { auto d = dec(s, i - n, i); if (d.n == n) return d; }
    return {0, 0};
}
inline size_t unit(string_view s, size_t i)
{
    if (i >= s.size()) return 0;
    size_t most = lead(s[i]) ? lead(s[i]) - 1 : NPOS, n = 0;
    while (n < most && i + 1 + n < s.size() && cont(s[i + 1 + n])) ++n;
    return n + 1;
}
inline vector<size_t> bounds(string_view s) { vector<size_t> r{0}; while (r.back() < s.size()) r.push_back(r.back() + unit(s, r.back())); return r; }
struct CP { size_t b, e; uint32_t v; };
inline bool all(string_view s, vector<CP>& r)     // decoded code points; false if there is an invalid sequence
{
    for (size_t i = 0; i < s.size();) { auto d = dec(s, i); if (!d.n) return false; r.push_back({i, i + d.n, d.v}); i += d.n; }
    return true;
}
inline bool valid(string_view s) { vector<CP> v; return all(s, v); }
inline string enc(uint32_t c)
{
    string r;
    if (c > 0x10FFFF) return r;
    if (c < 0x80) r += char(c);
    else if (c < 0x800) { r += char(0xC0 + c / 64); r += char(0x80 + c % 64); }
    else if (c < 0x10000) { r += char(0xE0 + c / 4096); r += char(0x80 + c / 64 % 64); r += char(0x80 + c % 64); }
    else { r += char(0xF0 + c / 262144); r += char(0x80 + c / 4096 % 64); r += char(0x80 + c / 64 % 64); r += char(0x80 + c % 64); }
    return r;
}
inline string encn(uint32_t c, int n)             // n-byte form, also overlong or above U+10FFFF
{
    if (n == 1) return string(1, char(c & 0x7F));
    string r(1, char((0xF00 >> n & 0xFF) | (c >> 6 * (n - 1) & (0x7F >> n))));
    for (int k = n - 2; k >= 0; --k) r += char(0x80 | (c >> 6 * k & 63));
    return r;
}
// ---- Unicode data -------------------------------------------------------------------------------
struct Ucd
{
    vector<uint8_t> gc = vector<uint8_t>(0x110000, 0);
    vector<string> names{"Cn"};
    std::map<uint32_t, uint32_t> up, low, title;
    std::map<uint32_t, pair<uint32_t, uint32_t>> dec;
    std::map<pair<uint32_t, uint32_t>, vector<uint32_t>> comp;
    void load(const char* path)
    {
        std::ifstream f(path); string l;
        if (!f) { std::fprintf(stderr, "no unicode data\n"); std::exit(9); }
        while (std::getline(f, l))
        {
            vector<string> q(1); for (char c : l) if (c == ';') q.emplace_back(); else q.back() += c;
            q.resize(6);
            uint32_t a = std::stoul(q[0], nullptr, 16), b = a; if (auto p = q[0].find('-'); p != NPOS) b = std::stoul(q[0].substr(p + 1), nullptr, 16);
            size_t k = 0; while (k < names.size() && names[k] != q[1]) ++k;
            if (k == names.size()) names.push_back(q[1]);
            for (auto c = a; c <= b; ++c) gc[c] = uint8_t(k);
            auto hx = [](const string& s) { return uint32_t(std::stoul(s, nullptr, 16)); };
            if (!q[2].empty()) up[a] = hx(q[2]);
            if (!q[3].empty()) low[a] = hx(q[3]);
            if (!q[4].empty()) title[a] = hx(q[4]); else if (!q[2].empty()) title[a] = hx(q[2]);
            if (auto p = q[5].find('+'); p != NPOS) { pair<uint32_t, uint32_t> d(hx(q[5].substr(0, p)), hx(q[5].substr(p + 1))); dec[a] = d; comp[d].push_back(a); }
        }
    }
    const string& cat(uint32_t c) const { return names[c < 0x110000 ? gc[c] : 0]; }
    static uint32_t get(const std::map<uint32_t, uint32_t>& m, uint32_t c) { auto i = m.find(c); return i == m.end() ? c : i->second; }
    uint32_t upper(uint32_t c) const { return get(up, c); }
    uint32_t lower(uint32_t c) const { return get(low, c); }
    uint32_t titlec(uint32_t c) const { return get(title, c); }
    bool mark(uint32_t c) const { return cat(c)[0] == 'M'; }
    bool letter(uint32_t c) const { return cat(c)[0] == 'L'; }
};
extern Ucd U;
// ---- results --------------------------------------------------------------------------------------
struct Thrown { bool own; bool operator==(const Thrown&) const = default; };
template <typename T> using Res = std::variant<T, Thrown>;
template <typename F> auto run(F f) -> Res<decltype(f())>
{
    try { return f(); }
    catch (ystring::YstringException&) { return Thrown{true}; }
    catch (std::exception&) { return Thrown{false}; }
}
inline string show(bool v) { return v ? "true" : "false"; }
inline string show(int v) { return std::to_string(v); }
inline string show(long v) { return std::to_string(v); }
inline string show(size_t v) { return v == NPOS ? "npos" : std::to_string(v); }
inline string show(uint32_t v) { char b[20]; std::snprintf(b, 20, "0x%X", v); return b; }
inline string show(char32_t v) { return show(uint32_t(v)); }
inline string show(string_view s)
{
    string r = "\"";
    if (s.size() > 4000) return show(s.substr(0, 2000)) + "...[" + std::to_string(s.size()) + " bytes]";
    for (unsigned char c : s) { char b[8]; if (c == '"' || c == '\\') { r += '\\'; r += char(c); } else if (c >= 32 && c < 127) r += char(c); else { std::snprintf(b, 8, "\\x%02X", c); r += b; } }
    return r + "\"";
}
inline string show(const string& s) { return show(string_view(s)); }
inline string show(const char* s) { return s; }
inline string show(u32string_view s) { string r = "{"; for (auto c : s.substr(0, 2000)) r += (r.size() > 1 ? "," : "") + show(c); return r + "}"; }
inline string show(const u32string& s) { return show(u32string_view(s)); }
inline string show(const Subrange& s) { return "[" + show(s.offset) + "+" + show(s.length) + "]"; }
inline string show(const ystring::SplitParams& s) { return "{max_splits=" + show(s.max_splits) + ",ignore_empty=" + show(s.ignore_empty) + "}"; }
inline string show(const ystring::CodepointSet& s) { string r = s.negated ? "^{" : "{"; for (auto& q : s.ranges) r += show(q.first) + "-" + show(q.second) + " "; return r + "}"; }
template <typename A, typename B> string show(const pair<A, B>& p) { return "(" + show(p.first) + "," + show(p.second) + ")"; }
template <typename T> string show(const optional<T>& p) { return p ? "some " + show(*p) : "none"; }
template <typename T> string show(const vector<T>& p) { string r = "["; for (size_t i = 0; i < p.size() && i < 200; ++i) r += (i ? ", " : "") + show(p[i]); return r + "]"; }
inline string show(const Thrown& t) { return t.own ? "throws YstringException" : "throws another exception"; }
template <typename T> string show(const Res<T>& r) { return r.index() ? show(std::get<1>(r)) : show(std::get<0>(r)); }
extern bool verbose; extern uint64_t caseno, evals, nontriv, only;
// one element of the exhaustive part; false: not this one (replay of a single element)
inline bool at(uint64_t k) { if (only != ~uint64_t(0) && only != k) return false; caseno = (uint64_t(1) << 63) | k; return true; }
template <typename... A> void call(const char* name, const A&... a)
{
    ++evals;
    if (!verbose) return;
    string r = string("CALL ") + name + "("; bool first = true;
    ((r += (first ? "" : ", ") + show(a), first = false), ...);
    std::printf("%s)\n", r.c_str()); std::fflush(stdout);
}
[[noreturn]] inline void fail(const string& what, const string& want, const string& got)
{
    std::printf("FAIL case=%llu\n  what: %s\n  expected: %s\n  got: %s\n", (unsigned long long)caseno, what.c_str(), want.c_str(), got.c_str()); std::fflush(stdout);
    _exit(1);
}
template <typename A, typename B> void eq(const char* what, const A& want, const B& got) { if (!(want == got)) fail(what, show(want), show(got)); }
inline void is(const char* what, bool b) { if (!b) fail(what, "holds", "does not hold"); }
// ---- exact-size copies, so that the address sanitizer sees every access outside -------------------------
struct Exact
{
    char* p; size_t n, lead;
    explicit Exact(string_view s, size_t lead = 0) : p(static_cast<char*>(std::malloc(s.size() + lead))), n(s.size()), lead(lead) { if (n) std::memcpy(p + lead, s.data(), n); }
    ~Exact() { std::free(p); }
    Exact(const Exact&) = delete;
    string_view v() const { return {p + lead, n}; }
    operator string_view() const { return v(); }
};
struct Exact32
{
    char32_t* p; size_t n;
    explicit Exact32(u32string_view s) : p(static_cast<char32_t*>(std::malloc(s.size() * 4))), n(s.size()) { if (n) std::memcpy(p, s.data(), n * 4); }
    ~Exact32() { std::free(p); }
    Exact32(const Exact32&) = delete;
    operator u32string_view() const { return {p, n}; }
};
// ---- generation ---------------------------------------------------------------------------------------------
struct Gen
{
    std::mt19937_64 r; uint64_t enumer = NPOS;   // enumer: number of the enumerated text of this case, or NPOS
    explicit Gen(uint64_t seed) : r(seed) {}
    uint64_t n(uint64_t k) { return k ? r() % k : 0; }
    bool b() { return r() & 1; }
    bool one(uint64_t k) { return n(k) == 0; }
    template <typename C> auto& pick(C& c) { return c[n(c.size())]; }
};
extern vector<uint64_t> consts;     // integer literals of the sources, those that are new to the sources first
extern size_t newconsts;
extern vector<string> corpus;          // byte strings from the verifier's counterexamples, if any
inline uint32_t code_point(Gen& g, bool big = true)
{
    static const uint32_t keys[] = {0x00, 0x01, 0x09, 0x0A, 0x0B, 0x0C, 0x0D, 0x1F, 0x20, 0x22, 0x2C, 0x2F, 0x30, 0x37, 0x41, 0x46, 0x47, 0x53, 0x5A, 0x5C, 0x61, 0x66, 0x67, 0x73, 0x75, 0x78, 0x7A, 0x7F, 0x80, 0x85, 0xA0, 0xB5, 0xC0, 0xC5, 0xDF, 0xE5, 0xFF,
        0x100, 0x131, 0x130, 0x178, 0x17F, 0x1C4, 0x1C5, 0x1C6, 0x300, 0x301, 0x304, 0x308, 0x30A, 0x31B, 0x323, 0x345, 0x370, 0x3A3, 0x3C2, 0x3C3, 0x488, 0x7FF, 0x800, 0x903, 0xFFF, 0x1000, 0x10D0, 0x1C90, 0x1E9B, 0x1E9E, 0x1E36, 0x1E69, 0x1F80, 0x1F82, 0x1FB3, 0x2000, 0x2028, 0x2029, 0x2126, 0x212A, 0x212B, 0x20DD,
        0x3000, 0x3042, 0x4E2D, 0xAC00, 0xD7FF, 0xD800, 0xDBFF, 0xDC00, 0xDFFF, 0xE000, 0xFEFF, 0xFFFC, 0xFFFD, 0xFFFE, 0xFFFF, 0x10000, 0x10400, 0x10428, 0x11099, 0x1109A, 0x110BA, 0x1D165, 0x1F600, 0x20000, 0x2A6DF, 0xE0100, 0xFFFFF, 0x100000, 0x10FFFE, 0x10FFFF};
    static const uint32_t bigs[] = {0x110000, 0x110001, 0x13FFFF, 0x1FFFFF};
    switch (g.n(16))
    {
    case 0: case 1: case 2: case 3: return 'a' + uint32_t(g.n(4));
    case 4: return 'A' + uint32_t(g.n(4));
    case 5: return uint32_t(g.n(0x80));
    case 6: return uint32_t(g.n(0x800));
    case 7: return 0x300 + uint32_t(g.n(0x70));
    case 8: return uint32_t(g.n(0x3100));
    case 9: return uint32_t(g.n(0x110000));
    case 10: if (big && g.one(3)) return bigs[g.n(4)]; return keys[g.n(std::size(keys))];
    case 11: if (!consts.empty()) { auto c = newconsts && g.b() ? consts[g.n(newconsts)] : g.pick(consts); c += g.n(3) - 1; if (c < 0x110000) return uint32_t(c); } return keys[g.n(std::size(keys))];
    case 12: { auto i = U.dec.lower_bound(uint32_t(g.n(0x2000))); if (i == U.dec.end()) return 0xC5; auto k = g.n(3); return k == 0 ? i->first : k == 1 ? i->second.first : i->second.second; }
    default: return keys[g.n(std::size(keys))];
    }
}
inline string junk(Gen& g)          // not a well-formed sequence in most contexts
{
    switch (g.n(12))
    {
    case 0: return string(1, char(0x80 + g.n(0x40)));
    case 1: return string(g.n(8), char(0x80 + g.n(0x40)));
    case 2: return string(1, char(0xC0 + g.n(0x40)));
    case 3: { auto s = enc(uint32_t(0x80 + g.n(0x10FF80))); s.pop_back(); return s; }
    case 4: return string(1, char(0xF8 + g.n(8)));
    case 5: return string(1, char(0xF8 + g.n(8))) + string(g.n(7), char(0x80 + g.n(0x40)));
    case 6: return encn(uint32_t(g.n(0x80)), 2);
    case 7: return encn(uint32_t(g.n(0x800)), 3);
    case 8: return encn(uint32_t(g.n(0x10000)), 4);
    case 9: return "\xED\xA0\x80";
    case 10: return string(1, char(0xE0 + g.n(0x18))) + string(g.n(6), char(0x80 + g.n(0x40)));
    default: return string(1, char(g.n(256)));
    }
}
inline size_t length(Gen& g)
{
    switch (g.n(40))
    {
    case 0: return g.n(300);
    case 1: if (newconsts && g.one(4)) { auto c = consts[g.n(newconsts)]; if (c < 5000) return size_t(c + g.n(3)); } return g.n(100);
    case 2: case 3: case 4: return g.n(40);
    case 5: case 6: case 7: case 8: case 9: case 10: case 11: case 12: return g.n(12);
    default: return g.n(6);
    }
}
inline vector<string>& alphabet() { static vector<string> a; return a; }
inline string nth_text(uint64_t k, const vector<string>& a) { string r; while (k) { --k; r += a[k % a.size()]; k /= a.size(); } return r; }
inline string text(Gen& g, int invalid_in = 12, bool big = true, const vector<string>* extra = nullptr)
{
    string r; size_t n = length(g);
    if (g.one(4000)) n = 66000 + g.n(100);
    bool inv = invalid_in && g.one(2); uint32_t fav[3] = {code_point(g, big), code_point(g, big), code_point(g, big)}; bool few = g.one(3);
    for (size_t i = 0; i < n; ++i)
    {
        if (inv && g.one(invalid_in)) r += junk(g);
        else if (extra && g.one(2)) r += (*extra)[g.n(extra->size())];
        else { auto c = few ? fav[g.n(3)] : code_point(g, big); r += c > 0x10FFFF ? encn(c, 4) : enc(c); }
    }
    return r;
}
inline string bytes(Gen& g)         // any bytes
{
    if (!corpus.empty() && g.one(3)) { auto s = g.pick(corpus); return g.one(3) ? s + text(g) : s; }
    if (g.enumer != NPOS)
    {
        static const vector<string> a{"a", "\x80", "\xC3", "\xE2", "\xF0", "\xFF", "\xC3\xA9", "\xE2\x82\xAC", "\xF0\x9F\x98\x80", "\n", "\xCC\x81"};
        return nth_text(g.enumer, a);
    }
    if (g.one(5)) { string r; for (size_t n = length(g); n; --n) r += char(g.n(256)); return r; }
    return text(g, g.b() ? 2 : 6);
}
inline string valid_text(Gen& g, bool big = true)
{
    if (!corpus.empty() && g.one(3)) { auto s = g.pick(corpus); if (valid(s)) return s; }
    if (g.enumer != NPOS)
    {
        static const vector<string> a{"a", "b", "A", "\xCC\x81", "\xC3\x9F", "\xE2\x82\xAC", "\n", "\r", "\xF0\x9F\x98\x80", "\xC3\xA5", "\xC3\x85"};
        return nth_text(g.enumer, a);
    }
    string r;
    if (big && g.one(20)) for (size_t n = g.n(4); n; --n) { r += g.b() ? encn(uint32_t(g.n(0x200000)), 4) : g.b() ? encn(uint32_t(g.n(0x10000)), 3) : encn(uint32_t(g.n(0x800)), 2); }
    return r + text(g, 0, big);
}
inline string mostly_valid(Gen& g) { return g.one(4) ? bytes(g) : valid_text(g); }
inline ptrdiff_t index(Gen& g, size_t n)
{
    static const ptrdiff_t ext[] = {PTRDIFF_MIN, PTRDIFF_MIN + 1, PTRDIFF_MAX, PTRDIFF_MAX - 1, INT32_MAX, INT32_MIN, ptrdiff_t(1) << 32, -(ptrdiff_t(1) << 32), ptrdiff_t(UINT32_MAX), 255, 256, -256, -129, 128};
    switch (g.n(12))
    {
    case 0: return ext[g.n(std::size(ext))];
    case 1: if (!consts.empty()) { auto c = ptrdiff_t(newconsts && g.b() ? consts[g.n(newconsts)] : g.pick(consts)) + ptrdiff_t(g.n(3)) - 1; return g.b() ? c : -c; } [[fallthrough]];
    case 2: return ptrdiff_t(g.n(5)) - 2;
    case 3: return ptrdiff_t(n) + ptrdiff_t(g.n(5)) - 2;
    case 4: return -ptrdiff_t(n) + ptrdiff_t(g.n(5)) - 2;
    default: return ptrdiff_t(g.n(2 * n + 3)) - ptrdiff_t(n) - 1;
    }
}
inline size_t offset(Gen& g, size_t n) { return g.one(4) ? 0 : g.one(8) ? n : g.n(n + 1); }
inline size_t boundary(Gen& g, string_view s) { auto b = bounds(s); return g.one(4) ? 0 : g.one(8) ? s.size() : b[g.n(b.size())]; }
inline vector<size_t> chars(const vector<CP>& c)     // indices (into c) of character starts, then c.size()
{
    vector<size_t> r; for (size_t i = 0; i < c.size(); ++i) if (i == 0 || !U.mark(c[i].v)) r.push_back(i);
    r.push_back(c.size()); return r;
}
struct Prop { const char* id; void (*rnd)(Gen&); void (*exh)(unsigned part, unsigned parts); };
extern const Prop prop;
}
