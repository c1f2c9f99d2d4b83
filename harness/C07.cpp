#include "h.hpp"
using namespace h;
using P = pair<Subrange, char32_t>;
static void rnd(Gen& g)
{
    auto s = bytes(g); auto b = bounds(s); size_t n = b.size() - 1; Exact e(s); nontriv += n > 1;
    call("count_codepoints", s); eq("count_codepoints", n, ystring::count_codepoints(e));
    for (int q = 0; q < 6; ++q)
    {
        auto k = index(g, n);
        size_t w = k >= 0 ? (uint64_t(k) <= n ? b[size_t(k)] : NPOS) : 0 - uint64_t(k) <= n ? b[n - (0 - uint64_t(k))] : NPOS;
        call("get_codepoint_pos", s, k); eq("get_codepoint_pos", w, ystring::get_codepoint_pos(e, k));
        Res<P> r = P(Subrange(k >= 0 ? s.size() : 0, 0), INVALID_CHAR);
        if (k >= 0 && uint64_t(k) < n) { auto i = b[size_t(k)]; auto d = dec(s, i); r = d.n ? Res<P>(P(Subrange(i, d.n), d.v)) : Res<P>(Thrown{true}); }
        if (k < 0 && 0 - uint64_t(k) <= n) { auto i = b[n - (0 - uint64_t(k)) + 1]; auto d = dec_prev(s, 0, i); r = d.n ? Res<P>(P(Subrange(i - d.n, d.n), d.v)) : Res<P>(Thrown{true}); }
        call("get_codepoint", s, k); eq("get_codepoint", r, run([&] { return ystring::get_codepoint(e, k); }));
    }
}
const Prop h::prop{"C07", rnd, nullptr};
