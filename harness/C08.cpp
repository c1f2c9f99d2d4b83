#include "h.hpp"
using namespace h;
static Subrange next(string_view s, size_t i)
{
    auto d = dec(s, i); if (i == s.size()) return {i, 0}; if (!d.n) throw Thrown{true};
    size_t e = i + d.n; while (e < s.size()) { d = dec(s, e); if (!d.n) throw Thrown{true}; if (!U.mark(d.v)) break; e += d.n; }
    return {i, e - i};
}
static Subrange prev(string_view s, size_t i)
{
    size_t b = i; while (b > 0) { auto d = dec_prev(s, 0, b); if (!d.n) throw Thrown{true}; b -= d.n; if (!U.mark(d.v)) break; }
    return {b, i - b};
}
template <typename F> auto ref(F f) -> Res<decltype(f())> { try { return f(); } catch (Thrown& t) { return t; } }
static size_t pos(string_view s, ptrdiff_t k)
{
    if (k >= 0) { size_t i = 0; for (; k > 0; --k) { auto r = next(s, i); if (!r.length) return NPOS; i = r.end(); } return i; }
    size_t i = s.size(); for (; k < 0; ++k) { auto r = prev(s, i); if (!r.length) return NPOS; i = r.start(); } return i;
}
static Subrange range(string_view s, ptrdiff_t k)
{
    if (k >= 0) { auto i = pos(s, k); return i == NPOS ? Subrange(s.size(), 0) : next(s, i); }
    auto i = k == -1 ? s.size() : pos(s, k + 1); return i == NPOS ? Subrange(0, 0) : prev(s, i);
}
static string rev(string_view s) { string r; size_t i = s.size(); while (i) { auto q = prev(s, i); r += s.substr(q.offset, q.length); i = q.offset; } return r; }
static size_t count(string_view s) { size_t n = 0, i = 0; while (i < s.size()) { i = next(s, i).end(); ++n; } return n; }
static void rnd(Gen& g)
{
    static const vector<string> marks{"\xCC\x81", "\xCC\x88", "\xD2\x88", "\xE0\xA4\x83", "\xF0\x9D\x85\xA5", "a", "\xC3\xA9"};
    auto s = g.one(3) && g.enumer == NPOS ? text(g, g.one(3) ? 8 : 0, true, &marks) : mostly_valid(g); Exact e(s); nontriv += s.size() > 1;
    if (s.size() > 3000) s.resize(0);
    size_t n = 0; { vector<CP> c; if (all(s, c)) n = chars(c).size() - 1; }
    call("count_chars", s); eq("count_chars", ref([&] { return count(s); }), run([&] { return ystring::count_chars(string_view(s)); }));
    Exact x(s);
    call("reverse", s); eq("reverse", ref([&] { return rev(s); }), run([&] { return ystring::reverse(x); }));
    for (int q = 0; q < 4; ++q)
    {
        auto i = boundary(g, s); auto k = index(g, n);
        call("get_next_char_range", s, i); eq("get_next_char_range", ref([&] { return next(s, i); }), run([&] { return ystring::get_next_char_range(x, i); }));
        call("get_prev_char_range", s, i); eq("get_prev_char_range", ref([&] { return prev(s, i); }), run([&] { return ystring::get_prev_char_range(x, i); }));
        call("get_char_pos", s, k); eq("get_char_pos", ref([&] { return pos(s, k); }), run([&] { return ystring::get_char_pos(x, k); }));
        call("get_char_range", s, k); eq("get_char_range", ref([&] { return range(s, k); }), run([&] { return ystring::get_char_range(x, k); }));
    }
}
static void exh(unsigned part, unsigned parts)
{
    for (uint32_t c = part; c < 0x110000; c += parts) if (at(c)) { auto s = "a" + enc(c); ++evals; ++nontriv; eq("count_chars(a + c)", size_t(U.mark(c) ? 1 : 2), ystring::count_chars(s)); }
}
const Prop h::prop{"C08", rnd, exh};
