#include "h.hpp"
using namespace h;
static string ref(const string& s, const string& f, const string& t, ptrdiff_t n)
{
    if (f.empty() || n == 0) return s;
    vector<size_t> m;
    if (n > 0) { size_t i = 0; while (m.size() < uint64_t(n) && (i = s.find(f, i)) != NPOS) { m.push_back(i); i += f.size(); } }
    else { size_t e = s.size(); while (m.size() < 0 - uint64_t(n) && e >= f.size()) { auto i = s.rfind(f, e - f.size()); if (i == NPOS) break; m.insert(m.begin(), i); e = i; } }
    string r; size_t p = 0; for (auto i : m) { r += s.substr(p, i - p) + t; p = i + f.size(); } return r + s.substr(p);
}
static void rnd(Gen& g)
{
    string s;
    if (g.enumer != NPOS) { static const vector<string> a{"a", "b", "ab", "\xC3\xA9"}; s = nth_text(g.enumer, a); }
    else if (g.one(3)) s = bytes(g); else for (size_t n = length(g); n; --n) s += char('a' + g.n(2));
    if (s.size() > 3000) s.resize(3000);
    Exact x(s);
    for (int q = 0; q < 6; ++q)
    {
        string f; if (!s.empty() && g.b()) { size_t i = g.n(s.size()); f = s.substr(i, 1 + g.n(3)); } else for (size_t n = g.n(4); n; --n) f += char('a' + g.n(2));
        string t; for (size_t n = g.n(g.one(10) ? 40 : 5); n; --n) t += char('a' + g.n(3)); if (g.one(6)) t = f + f;
        auto n = g.one(3) ? PTRDIFF_MAX : g.one(6) ? PTRDIFF_MIN : g.one(6) ? index(g, s.size()) : ptrdiff_t(g.n(9)) - 4; Exact y(f), z(t); nontriv += s.find(f) != NPOS;
        call("replace", s, f, t, n); eq("replace", ref(s, f, t, n), ystring::replace(x, y, z, n));
        if (n == PTRDIFF_MAX) { call("replace (default)", s, f, t); eq("replace", ref(s, f, t, n), ystring::replace(x, y, z)); }
        uint32_t a = g.one(12) ? uint32_t(g.r()) : code_point(g), b = g.one(12) ? uint32_t(g.r()) : code_point(g);
        if (!s.empty() && g.b()) { auto bs = bounds(s); auto d = dec(s, g.pick(bs)); if (d.n) a = d.v; }
        call("replace_codepoint", s, a, b, n);
        eq("replace_codepoint", a > 0x10FFFF || b > 0x10FFFF ? Res<string>(Thrown{true}) : Res<string>(ref(s, enc(a), enc(b), n)), run([&] { return ystring::replace_codepoint(x, char32_t(a), char32_t(b), n); }));
    }
}
const Prop h::prop{"C13", rnd, nullptr};
