#include "h.hpp"
using namespace h;
static size_t clampi(ptrdiff_t i, size_t n) { if (i < 0) return 0 - uint64_t(i) > n ? 0 : n - (0 - uint64_t(i)); return uint64_t(i) > n ? n : size_t(i); }
static void sub(const char* what, string_view v, string_view got, const vector<size_t>& b, ptrdiff_t i, ptrdiff_t j)
{
    size_t n = b.size() - 1, s = clampi(i, n), e = clampi(j, n); if (e < s) e = s;
    eq(what, string(v.substr(b[s], b[e] - b[s])), string(got));
    if (!got.empty()) eq("it is a view into the text, at byte", b[s], size_t(got.data() - v.data()));
}
static void rnd(Gen& g)
{
    auto s = valid_text(g); if (s.size() > 3000) s.clear(); Exact x(s); vector<CP> c; all(s, c); nontriv += c.size() > 1;
    vector<size_t> cb, hb; for (auto& q : c) cb.push_back(q.b); cb.push_back(s.size());
    for (auto k : chars(c)) hb.push_back(cb[k]);
    for (int q = 0; q < 6; ++q)
    {
        auto i = index(g, c.size()), j = g.one(6) ? PTRDIFF_MAX : index(g, c.size());
        call("get_codepoint_substring", s, i, j); sub("get_codepoint_substring", x, ystring::get_codepoint_substring(x, i, j), cb, i, j);
        i = index(g, hb.size() - 1); j = g.one(6) ? PTRDIFF_MAX : index(g, hb.size() - 1);
        call("get_char_substring", s, i, j); sub("get_char_substring", x, ystring::get_char_substring(x, i, j), hb, i, j);
        if (g.one(4)) { call("get_codepoint_substring (default)", s, i); sub("get_codepoint_substring", x, ystring::get_codepoint_substring(x, i), cb, i, PTRDIFF_MAX); sub("get_char_substring", x, ystring::get_char_substring(x, i), hb, i, PTRDIFF_MAX); }
    }
}
const Prop h::prop{"C09", rnd, nullptr};
