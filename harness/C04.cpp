#include "h.hpp"
#include <forward_list>
using namespace h;
static void one(const string& s)
{
    Exact e(s); string_view v = e; auto u = bounds(v); size_t n = v.empty() ? 0 : u[1], m = v.empty() ? 0 : v.size() - u[u.size() - 2];
    nontriv += n > 1;
    const char* b = v.data(); const char* end = b + v.size();
    auto it = b; call("skip_next", s); eq("skip_next: result", !v.empty(), ystring::skip_next(it, end)); eq("skip_next: bytes", n, size_t(it - b));
    it = end; call("skip_prev", s); eq("skip_prev: result", !v.empty(), ystring::skip_prev(b, it)); eq("skip_prev: bytes", m, size_t(end - it));
    auto p = v; call("remove_utf8_codepoint", s); eq("remove_utf8_codepoint: result", !v.empty(), ystring::remove_utf8_codepoint(p)); eq("remove_utf8_codepoint: start", n, size_t(p.data() - b)); eq("remove_utf8_codepoint: size", v.size() - n, p.size());
    p = v; call("remove_last_utf8_codepoint", s); eq("remove_last_utf8_codepoint: result", !v.empty(), ystring::remove_last_utf8_codepoint(p)); eq("remove_last_utf8_codepoint: start", size_t(0), size_t(p.data() - b)); eq("remove_last_utf8_codepoint: size", v.size() - m, p.size());
}
static void rnd(Gen& g)
{
    auto s = bytes(g);
    if (g.one(8)) s = string(1, char(g.n(256))) + string(g.n(400), char(0x80 + g.n(64))) + (g.b() ? s : "");
    if (s.size() > 1000) s.resize(1000);
    size_t k = std::min<size_t>(s.size(), 12), i0 = s.size() > k ? g.n(s.size() - k) : 0;
    one(s);
    for (size_t i = i0; i <= i0 + k; ++i) { one(s.substr(i)); one(s.substr(0, i)); }
}
static void exh(unsigned part, unsigned parts)
{
    static const char a[] = "a\x80\xBF\xC0\xDF\xE0\xEF\xF0\xF7\xF8\xFF";
    uint64_t N = 1; for (int i = 0; i < 7; ++i) N *= 11;
    for (uint64_t k = part; k < N / 11; k += parts) if (at(k)) { string s; auto q = k; for (int i = 0; i < 6; ++i, q /= 11) { s += a[q % 11]; } one(s); }
}
const Prop h::prop{"C04", rnd, exh};
