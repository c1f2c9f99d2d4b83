#include "h.hpp"
using namespace h;
static void rnd(Gen& g)
{
    string s, p;
    if (g.enumer != NPOS) { static const vector<string> a{"a", "b", "\xC3", "\xA9", ","}; s = nth_text(g.enumer, a); }
    else if (g.one(3)) s = bytes(g); else { for (size_t n = length(g); n; --n) s += char('a' + g.n(2)); }
    auto pat = [&]() -> string { if (!s.empty() && g.b()) { size_t i = g.n(s.size()), n = g.n(std::min<size_t>(s.size() - i, g.one(4) ? 300 : 6)) + 1; return s.substr(i, n); } string t; for (size_t n = g.n(6); n; --n) t += char("ab,\xC3\xA9"[g.n(5)]); if (g.one(10)) t = s + t; if (g.one(10)) t = t + s; return t; };
    Exact x(s);
    for (int q = 0; q < 6; ++q)
    {
        p = pat(); Exact y(p); nontriv += p.size() > 1;
        if (!p.empty())
        {
            auto o = offset(g, s.size()); auto f = s.find(p, o);
            call("find_first", s, p, o); eq("find_first", f == NPOS ? Subrange(s.size(), 0) : Subrange(f, p.size()), ystring::find_first(x, y, o));
            if (g.one(3)) { f = s.find(p); call("find_first (default)", s, p); eq("find_first", f == NPOS ? Subrange(s.size(), 0) : Subrange(f, p.size()), ystring::find_first(x, y)); }
        }
        auto o = g.one(3) ? NPOS : g.one(6) ? s.size() + g.n(3) : offset(g, s.size()); auto m = std::min(o, s.size()); auto f = p.empty() || p.size() > m ? NPOS : s.rfind(p, m - p.size());
        call("find_last", s, p, o); eq("find_last", f == NPOS ? Subrange(0, 0) : Subrange(f, p.size()), ystring::find_last(x, y, o));
        call("starts_with", s, p); eq("starts_with", s.substr(0, p.size()) == p, ystring::starts_with(x, y));
        call("ends_with", s, p); eq("ends_with", p.size() <= s.size() && s.compare(s.size() - p.size(), NPOS, p) == 0, ystring::ends_with(x, y));
        if (g.one(4)) { auto t = s.substr(0, g.n(s.size() + 1)); Exact z(t); call("starts_with", s, t); eq("starts_with", true, ystring::starts_with(x, z)); t = s.substr(g.n(s.size() + 1)); Exact w(t); call("ends_with", s, t); eq("ends_with", true, ystring::ends_with(x, w)); }
    }
}
const Prop h::prop{"C11", rnd, nullptr};
