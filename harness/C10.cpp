#include "h.hpp"
using namespace h;
static size_t clampi(ptrdiff_t i, size_t n) { if (i < 0) return 0 - uint64_t(i) > n ? 0 : n - (0 - uint64_t(i)); return uint64_t(i) > n ? n : size_t(i); }
static size_t exact(ptrdiff_t i, size_t n) { if (i < 0) return 0 - uint64_t(i) > n ? NPOS : n - (0 - uint64_t(i)); return uint64_t(i) > n ? NPOS : size_t(i); }
static void rnd(Gen& g)
{
    auto s = valid_text(g); if (s.size() > 3000) s.clear(); Exact x(s); vector<CP> c; all(s, c); nontriv += c.size() > 1;
    vector<size_t> b[2]; for (auto& q : c) b[0].push_back(q.b); b[0].push_back(s.size());
    for (auto k : chars(c)) b[1].push_back(b[0][k]);
    g.enumer = NPOS;
    for (int q = 0; q < 4; ++q) for (int h = 0; h < 2; ++h)
    {
        size_t n = b[h].size() - 1; auto i = index(g, n), j = index(g, n);
        auto t = g.one(6) ? string() : g.one(20) ? bytes(g) : text(g, 0); if (t.size() > 3000) t.clear(); Exact y(t); uint32_t ch = g.one(8) ? uint32_t(g.r()) : code_point(g);
        auto p = exact(i, n); auto ins = [&](const string& t) { return s.substr(0, b[h][p]) + t + s.substr(b[h][p]); };
        call(h ? "insert_chars" : "insert_codepoints", s, i, t);
        eq("insert string", t.empty() ? Res<string>(s) : p == NPOS ? Res<string>(Thrown{true}) : Res<string>(ins(t)), run([&] { return h ? ystring::insert_chars(x, i, y) : ystring::insert_codepoints(x, i, y); }));
        call(h ? "insert_char" : "insert_codepoint", s, i, ch);
        eq("insert code point", p == NPOS || ch > 0x10FFFF ? Res<string>(Thrown{true}) : Res<string>(ins(enc(ch))), run([&] { return h ? ystring::insert_char(x, i, char32_t(ch)) : ystring::insert_codepoint(x, i, char32_t(ch)); }));
        auto a = clampi(i, n), e = clampi(j, n); if (e < a) e = a;
        call(h ? "replace_chars" : "replace_codepoints", s, i, j, t);
        eq("replace range", Res<string>(s.substr(0, b[h][a]) + t + s.substr(b[h][e])), run([&] { return h ? ystring::replace_chars(x, i, j, y) : ystring::replace_codepoints(x, i, j, y); }));
    }
}
const Prop h::prop{"C10", rnd, nullptr};
