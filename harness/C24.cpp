#include "h.hpp"
using namespace h;
static bool hex(char c) { return (c >= '0' && c <= '9') || (c >= 'A' && c <= 'F') || (c >= 'a' && c <= 'f'); }
static bool oct(char c) { return c >= '0' && c <= '7'; }
static Subrange find(string_view s, size_t o)      // throws Thrown
{
    auto i = s.find('\\', o); if (i == NPOS) return {s.size(), 0};
    if (i + 1 == s.size() || uint8_t(s[i + 1]) >= 0x80) throw Thrown{true};
    char t = s[i + 1]; size_t n = 0, most = t == 'x' || t == 'X' ? NPOS : t == 'u' ? 4 : 8, least = t == 'u' ? 4 : t == 'U' ? 8 : 2;
    if (t == 'x' || t == 'X' || t == 'u' || t == 'U') { while (n < most && i + 2 + n < s.size() && hex(s[i + 2 + n])) ++n; if (n < least) throw Thrown{true}; return {i, n + 2}; }
    if (oct(t)) { while (n < 3 && i + 1 + n < s.size() && oct(s[i + 1 + n])) ++n; return {i, n + 1}; }
    return {i, 2};
}
static uint32_t num(string_view d, unsigned base) { uint64_t v = 0; for (char c : d) { v = v * base + uint64_t(c <= '9' ? c - '0' : (c & 0xDF) - 'A' + 10); if (v >> 32) throw Thrown{true}; } return uint32_t(v); }
static string unesc(string_view s)
{
    string r; size_t i = 0;
    for (;;)
    {
        auto q = find(s, i); r += s.substr(i, q.offset - i); if (!q.length) return r;
        auto t = s.substr(q.offset, q.length); i = q.end(); uint32_t c;
        switch (t[1])
        {
        case 'x': case 'X': case 'U': c = num(t.substr(2), 16); break;
        case 'u': c = num(t.substr(2), 16);
            if (c >= 0xD800 && c < 0xDC00 && s.size() - i >= 6 && s[i] == '\\' && s[i + 1] == 'u' && hex(s[i + 2]) && hex(s[i + 3]) && hex(s[i + 4]) && hex(s[i + 5]))
            { auto d = num(s.substr(i + 2, 4), 16); if (d >= 0xDC00 && d < 0xE000) { c = 0x10000 + ((c - 0xD800) << 10) + (d - 0xDC00); i += 6; } }
            break;
        case 'a': c = 7; break; case 'b': c = 8; break; case 'f': c = 12; break; case 'n': c = 10; break; case 'r': c = 13; break; case 't': c = 9; break; case 'v': c = 11; break;
        default: c = oct(t[1]) ? num(t.substr(1), 8) : uint32_t(t[1]);
        }
        r += enc(c);
    }
}
template <typename F> static auto ref(F f) -> Res<decltype(f())> { try { return f(); } catch (Thrown& t) { return t; } }
string esc_text(Gen& g)
{
    string s; auto hx = [&](size_t n) { string r; for (; n; --n) r += "0123456789abcdefABCDEF"[g.n(22)]; return r; };
    for (size_t n = g.one(20) ? g.n(30) : g.n(6); n; --n) switch (g.n(18))
    {
    case 0: s += "\\x" + hx(g.one(4) ? g.n(12) : 2 + g.n(3)); break;
    case 1: s += "\\u" + hx(g.one(5) ? g.n(6) : 4); break;
    case 2: s += "\\U" + string(g.one(4) ? "00" : "0000") + hx(g.one(5) ? g.n(6) : 4); break;
    case 3: s += "\\U" + hx(g.one(5) ? g.n(10) : 8); break;
    case 4: { s += '\\'; for (size_t k = 1 + g.n(4); k; --k) s += char('0' + g.n(g.one(4) ? 10 : 8)); break; }
    case 5: { char b[40]; std::snprintf(b, 40, "\\uD8%02X\\uDC%02X", unsigned(g.n(256)), unsigned(g.n(256))); s += g.one(4) ? string(b).substr(0, g.n(13)) : string(b); break; }
    case 6: { char b[40]; std::snprintf(b, 40, "\\u%04X", unsigned(0xD700 + g.n(0xA00))); s += b; break; }
    case 7: s += string("\\") + "abfnrtv\\\"'?/ xXuUeE89\n"[g.n(22)]; break;
    case 8: s += string("\\") + char(g.n(128)); break;
    case 9: s += '\\'; break;
    case 10: s += junk(g); break;
    case 11: s += "\\x" + string(g.n(30), '0') + hx(g.n(9)); break;
    case 12: for (size_t k = g.one(6) ? g.n(40) : 1; k; --k) s += "\\\n"; break;
    default: s += enc(code_point(g)); break;
    }
    if (!s.empty() && g.one(8))      // a part of it over and over
    {
        size_t a = g.n(s.size()), n = 1 + g.n(std::min<size_t>(s.size() - a, 12)); auto part = s.substr(a, n); string run;
        for (size_t k = 1 + g.n(g.one(4) ? 300 : 24); k; --k) run += part;
        s.insert(a, run);
    }
    return s;
}
#ifndef C25
static void rnd(Gen& g)
{
    string s = g.enumer != NPOS ? nth_text(g.enumer, {"\\", "u", "x", "D800", "1", "7", "\\uDC00", "n", "\xC3\xA9"}) : g.one(6) ? bytes(g) : esc_text(g);
    Exact x(s); nontriv += s.find('\\') != NPOS;
    for (int q = 0; q < 3; ++q) { auto o = offset(g, s.size()); call("find_first_escaped_char", s, o); eq("find_first_escaped_char", ref([&] { return find(s, o); }), run([&] { return ystring::find_first_escaped_char(x, o); })); }
    call("has_escaped_chars", s); eq("has_escaped_chars", ref([&] { return find(s, 0).length != 0; }), run([&] { return ystring::has_escaped_chars(x); }));
    auto w = ref([&] { return unesc(s); });
    call("unescape", s); eq("unescape(string)", w, run([&] { return ystring::unescape(s); }));
    Exact y(s); call("unescape(buffer)", s); auto r = run([&] { return ystring::unescape(y.p, y.n); });
    if (!r.index()) is("the result is not longer than the input", std::get<0>(r) <= s.size());
    eq("unescape(buffer)", w, r.index() ? Res<string>(std::get<1>(r)) : Res<string>(string(y.p ? y.p : "", std::get<0>(r))));
}
const Prop h::prop{"C24", rnd, nullptr};
#endif
