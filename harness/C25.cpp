#define C25
#include "C24.cpp"
struct Next { bool some; uint32_t c; bool esc; bool flag; size_t at; };   // at: where the view starts afterwards
static Next next(string_view s, bool& thrown)
{
    size_t i = 0; thrown = false;
    while (s.size() - i > 1 && s[i] == '\\' && s[i + 1] == '\n') i += 2;
    if (i == s.size()) return {false, 0, false, false, i};
    if (s[i] != '\\') { auto d = dec(s, i); if (!d.n) { thrown = true; return {false, 0, false, false, i}; } return {true, d.v, false, false, i + d.n}; }
    if (i + 1 == s.size()) { thrown = true; return {false, 0, true, true, i}; }
    char t = s[i + 1]; auto hexn = [&](size_t p, size_t most) { size_t n = 0; while (n < most && p + n < s.size() && hex(s[p + n])) ++n; return n; };
    static const char* k = "abfnrtv"; static const uint32_t v[] = {7, 8, 12, 10, 13, 9, 11};
    if (auto p = std::strchr(k, t); p && t) return {true, v[p - k], true, true, i + 2};
    if (t == 'x' || t == 'X') { auto n = hexn(i + 2, 8); if (!n) { thrown = true; return {false, 0, true, true, i}; } return {true, num(s.substr(i + 2, n), 16), true, true, i + 2 + n}; }
    if (t == 'U') { if (hexn(i + 2, 8) < 8) { thrown = true; return {false, 0, true, true, i}; } return {true, num(s.substr(i + 2, 8), 16), true, true, i + 10}; }
    if (t == 'u')
    {
        if (hexn(i + 2, 4) < 4) { thrown = true; return {false, 0, true, true, i}; }
        auto c = num(s.substr(i + 2, 4), 16); i += 6;
        if (c >= 0xD800 && c < 0xDC00 && s.size() - i >= 6 && s[i] == '\\' && s[i + 1] == 'u' && hexn(i + 2, 4) == 4) { auto d = num(s.substr(i + 2, 4), 16); if (d >= 0xDC00 && d < 0xE000) return {true, 0x10000 + ((c - 0xD800) << 10) + (d - 0xDC00), true, true, i + 6}; }
        return {true, c, true, true, i};
    }
    if (oct(t)) { size_t n = 0; while (n < 3 && i + 1 + n < s.size() && oct(s[i + 1 + n])) ++n; return {true, num(s.substr(i + 1, n), 8), true, true, i + 1 + n}; }
    auto d = dec(s, i + 1); if (!d.n) { thrown = true; return {false, 0, true, true, i}; }
    return {true, d.v, true, true, i + 1 + d.n};
}
static void rnd(Gen& g)
{
    string s = g.enumer != NPOS ? nth_text(g.enumer, {"\\", "u", "x", "D800", "1", "7", "\\uDC00", "\n", "\xC3\xA9", "\xFF"}) : g.one(6) ? bytes(g) : esc_text(g);
    if (s.size() > 2000) s.resize(2000);
    Exact x(s); string_view v = x; using O = optional<char32_t>; nontriv += s.find('\\') != NPOS;
    for (int k = 0; k < 40; ++k)
    {
        auto b = v; bool thrown; auto w = next(v, thrown); bool flag = g.b();
        call("unescape_next", v); auto r = g.one(4) ? run([&] { return ystring::unescape_next(v); }) : run([&] { auto o = ystring::unescape_next(v, &flag); if (flag != w.flag) fail("did_unescape", show(w.flag), show(flag)); return o; });
        eq("unescape_next", thrown ? Res<O>(Thrown{true}) : w.some ? Res<O>(O(char32_t(w.c))) : Res<O>(O()), r);
        eq("the view starts at", w.at, size_t(v.data() - b.data())); eq("the view's size", b.size() - w.at, v.size());
        if (thrown || !w.some) break;
    }
}
const Prop h::prop{"C25", rnd, nullptr};
