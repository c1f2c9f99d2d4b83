#include "h.hpp"
using namespace h;
static void rnd(Gen& g)
{
    ystring::CodepointSet s; vector<pair<uint32_t, uint32_t>> added; vector<bool> single; string log; vector<uint32_t> seen;
    auto val = [&] { return g.one(20) ? uint32_t(g.r()) : g.one(30) ? 0xFFFFFFFFu - uint32_t(g.n(3)) : g.one(3) && !seen.empty() ? g.pick(seen) + uint32_t(g.n(5)) - 2 : code_point(g); };
    s.negated = g.one(3);
    for (size_t n = g.n(8); n; --n)
    {
        auto a = val(); seen.push_back(a);
        switch (g.n(4))
        {
        case 0: { auto b = g.one(6) ? val() : a + uint32_t(g.n(60)); s.add_range(a, b); added.push_back({a, b}); log += "add_range(" + show(a) + "," + show(b) + ") "; seen.push_back(b); break; }
        case 1: { u32string u; auto c = a; for (size_t k = g.n(5); k; --k) { u += char32_t(c); added.push_back({c, c}); c = g.b() ? c + 1 : val(); seen.push_back(c); } Exact32 e(u); s.add_codepoints(e); log += "add_codepoints(" + show(u) + ") "; break; }
        default: s.add_codepoint(a); added.push_back({a, a}); log += "add_codepoint(" + show(a) + ") ";
        }
    }
    log += s.negated ? "negated" : ""; nontriv += added.size() > 1;
    auto ci = [&](uint32_t c) { bool r = false; for (auto& q : s.ranges) r |= q.first == q.second ? U.upper(c) == U.upper(q.first) : (q.first <= c && c <= q.second) || (U.upper(q.first) <= U.upper(c) && U.upper(c) <= U.upper(q.second)); return r != s.negated; };
    bool lone = true; for (size_t i = 0; i < added.size(); ++i) for (size_t j = 0; j < added.size(); ++j) if (i != j && added[i].second + 1 == added[j].first) lone = false;
    for (int q = 0; q < 12; ++q)
    {
        auto c = val(); bool in = false; for (auto& r : added) in |= r.first <= c && c <= r.second;
        call("contains", log, c); eq("contains", in != s.negated, s.contains(char32_t(c)));
        if (g.b()) c = g.b() ? U.lower(c) : U.upper(c);
        call("case_insensitive_contains", log, c); eq("case_insensitive_contains (from the stored ranges)", ci(c), s.case_insensitive_contains(char32_t(c)));
        if (lone) { bool r = false; for (auto& q : added) r |= q.first == q.second ? U.upper(c) == U.upper(q.first) : (q.first <= c && c <= q.second) || (U.upper(q.first) <= U.upper(c) && U.upper(c) <= U.upper(q.second)); eq("case_insensitive_contains", r != s.negated, s.case_insensitive_contains(char32_t(c))); }
    }
    u32string u; for (size_t n = length(g); n; --n) { u += char32_t(val()); seen.push_back(u.back()); } Exact32 e(u);
    for (int q = 0; q < 4; ++q)
    {
        auto c = val(); call("contains(list)", u, c); eq("contains(list)", u.find(char32_t(c)) != NPOS, ystring::contains(e, char32_t(c)));
        if (g.b()) c = g.b() ? U.lower(c) : U.upper(c); bool r = false; for (auto k : u) r |= U.upper(k) == U.upper(c);
        call("case_insensitive_contains(list)", u, c); eq("case_insensitive_contains(list)", r, ystring::case_insensitive_contains(e, char32_t(c)));
    }
}
const Prop h::prop{"C26", rnd, nullptr};
