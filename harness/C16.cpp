#include "h.hpp"
using namespace h;
namespace ci = ystring::case_insensitive;
static int sign(int64_t v) { return v < 0 ? -1 : v > 0; }
static string flip(Gen& g, const string& s)   // same text up to case, mostly
{
    string r; vector<CP> c; if (!all(s, c)) return s;
    for (auto& q : c) { uint32_t v = q.v; if (v <= 0x10FFFF) { switch (g.n(4)) { case 0: v = U.upper(v); break; case 1: v = U.lower(v); break; case 2: v = U.titlec(v); break; } if (v != q.v && U.upper(v) != U.upper(q.v)) v = q.v; r += enc(v); } else r += s.substr(q.b, q.e - q.b); }
    return r;
}
static void pair_(const string& s, const string& t)
{
    Exact x(s), y(t); vector<CP> a, b; bool va = all(s, a), vb = all(t, b); nontriv += a.size() && b.size();
    size_t i = 0; while (i < a.size() && i < b.size() && U.upper(a[i].v) == U.upper(b[i].v)) ++i;
    bool ea = i == a.size(), eb = i == b.size();      // decoded part exhausted
    call("compare", s, t); auto rc = run([&] { return ci::compare(x, y); }); auto re = run([&] { return ci::equal(x, y); }); auto rl = run([&] { return ci::less(x, y); });
    if (!ea && !eb) { int w = U.upper(a[i].v) < U.upper(b[i].v) ? -1 : 1; eq("compare (sign)", Res<int>(w), rc.index() ? Res<int>(std::get<1>(rc)) : Res<int>(sign(std::get<0>(rc)))); eq("equal", Res<bool>(false), re); eq("less", Res<bool>(w < 0), rl); }
    else if (va && vb) { int w = ea && eb ? 0 : ea ? -1 : 1; eq("compare (sign)", Res<int>(w), rc.index() ? Res<int>(std::get<1>(rc)) : Res<int>(sign(std::get<0>(rc)))); eq("equal", Res<bool>(w == 0), re); eq("less", Res<bool>(w < 0), rl); }
    else { bool known = (ea && va) || (eb && vb); if (!known) { eq("compare", Res<int>(Thrown{true}), rc.index() ? Res<int>(std::get<1>(rc)) : Res<int>(std::get<0>(rc))); eq("equal", Res<bool>(Thrown{true}), re); eq("less", Res<bool>(Thrown{true}), rl); } }
    call("starts_with", s, t); auto r = run([&] { return ci::starts_with(x, y); });
    if (!ea && !eb) eq("starts_with", Res<bool>(false), r);
    else if (va && vb) eq("starts_with", Res<bool>(eb), r);
    if (va && vb)
    {
        size_t k = 0; while (k < a.size() && k < b.size() && U.upper(a[a.size() - 1 - k].v) == U.upper(b[b.size() - 1 - k].v)) ++k;
        call("ends_with", s, t); eq("ends_with", Res<bool>(k == b.size()), run([&] { return ci::ends_with(x, y); }));
    }
}
static void rnd(Gen& g)
{
    auto s = g.one(8) ? bytes(g) : valid_text(g); if (s.size() > 3000) s.clear(); g.enumer = NPOS;
    string t = flip(g, s); vector<CP> c; all(s, c);
    switch (g.n(6)) { case 0: t = g.one(4) ? bytes(g) : text(g, 0); break; case 1: t += enc(code_point(g)); break; case 2: { vector<CP> d; if (all(t, d) && !d.empty()) t.resize(g.pick(d).b); break; } case 3: { vector<CP> d; if (all(t, d) && !d.empty()) t = t.substr(g.pick(d).b); break; } case 4: { vector<CP> d; if (all(t, d) && !d.empty()) { auto q = g.pick(d); t = t.substr(0, q.b) + enc(code_point(g)) + t.substr(q.e); } break; } default:; }
    if (t.size() > 3000) t.clear();
    pair_(s, t); pair_(t, s);
}
static void exh(unsigned part, unsigned parts)
{
    for (uint32_t c = part; c < 0x110000; c += parts) if (at(c)) { auto s = enc(c), t = enc(U.upper(c)), l = enc(U.lower(c)); evals += 2; ++nontriv; is("equal(c, upper(c))", ci::equal(s, t)); eq("equal(c, lower(c))", U.upper(U.lower(c)) == U.upper(c), ci::equal(s, l)); eq("starts_with(lower(c), c)", U.upper(U.lower(c)) == U.upper(c), ci::starts_with(l, s)); eq("compare(c, K)", sign(int64_t(U.upper(c)) - 'K'), sign(ci::compare(s, "k"))); }
}
const Prop h::prop{"C16", rnd, exh};
