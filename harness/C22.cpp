#include "h.hpp"
using namespace h;
static string ref(const string& s, const vector<CP>& c)
{
    string r; size_t i = 0;
    while (i < c.size())
    {
        uint32_t cur = c[i].v; size_t j = i + 1; bool comb = false;
        while (j < c.size() && c[j].v >= 0x300) { auto k = U.comp.find({cur, c[j].v}); if (k == U.comp.end()) break; cur = k->second[0]; comb = true; ++j; }
        r += comb ? enc(cur) : s.substr(c[i].b, c[i].e - c[i].b); i = j;
    }
    return r;
}
static void rnd(Gen& g)
{
    auto s = mostly_valid(g); if (s.size() > 5000) s.clear();
    if (g.b() && g.enumer == NPOS) for (size_t n = 1 + g.n(5); n; --n)
    {
        auto i = U.dec.lower_bound(uint32_t(g.n(g.b() ? 0x300 : 0x12000))); if (i == U.dec.end()) continue;
        uint32_t c = i->first; string t; do { t = enc(i->second.second) + t; c = i->second.first; i = U.dec.find(c); } while (i != U.dec.end() && g.b());
        s += enc(c) + t; if (g.one(3)) s += enc(code_point(g));
    }
    Exact x(s); vector<CP> c; bool ok = all(s, c); nontriv += ok && c.size() > 1;
    call("to_composed", s); eq("to_composed", ok ? Res<string>(ref(s, c)) : Res<string>(Thrown{true}), run([&] { return ystring::to_composed(x); }));
}
static void exh(unsigned part, unsigned parts)
{
    uint64_t k = 0;
    for (auto& [d, c] : U.comp) if (k++ % parts == part && at(k - 1)) { ++evals; ++nontriv; auto s = enc(d.first) + enc(d.second) + "x"; vector<CP> v; all(s, v); eq("to_composed(pair + x)", ref(s, v), ystring::to_composed(s)); s = enc(d.first + 1) + enc(d.second); v.clear(); all(s, v); eq("to_composed(pair)", ref(s, v), ystring::to_composed(s)); s = enc(d.first) + enc(d.second + 1) + enc(d.second); v.clear(); all(s, v); eq("to_composed(pair)", ref(s, v), ystring::to_composed(s)); }
}
const Prop h::prop{"C22", rnd, exh};
