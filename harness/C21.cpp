#include "h.hpp"
using namespace h;
static u32string ref(uint32_t c) { u32string r; for (;;) { auto i = U.dec.find(c); if (i == U.dec.end()) { r.insert(r.begin(), char32_t(c)); return r; } r.insert(r.begin(), char32_t(i->second.second)); c = i->second.first; } }
static void rnd(Gen& g)
{
    auto s = mostly_valid(g); if (s.size() > 5000) s.clear();
    if (g.b() && g.enumer == NPOS) { for (size_t n = 1 + g.n(4); n; --n) { auto i = U.dec.lower_bound(uint32_t(g.n(0x12000))); if (i != U.dec.end()) s += enc(i->first); if (g.b()) s += text(g, 0).substr(0, 0); } }
    Exact x(s); vector<CP> c; bool ok = all(s, c); string w; nontriv += ok && c.size() > 1;
    for (auto& q : c) { auto d = ref(q.v); if (d.size() == 1) w += s.substr(q.b, q.e - q.b); else for (auto k : d) w += enc(k); }
    call("to_decomposed", s); eq("to_decomposed", ok ? Res<string>(w) : Res<string>(Thrown{true}), run([&] { return ystring::to_decomposed(x); }));
    auto c1 = g.one(4) ? uint32_t(g.r()) : code_point(g); call("decompose", c1); eq("decompose", ref(c1), ystring::decompose(char32_t(c1)));
}
static void exh(unsigned part, unsigned parts)
{
    for (uint32_t c = part; c < 0x110000; c += parts) if (at(c)) { ++evals; auto d = ref(c); nontriv += d.size() > 1; eq("decompose", d, ystring::decompose(char32_t(c))); string w; for (auto k : d) w += enc(k); eq("to_decomposed", w, ystring::to_decomposed(enc(c))); }
}
const Prop h::prop{"C21", rnd, exh};
