#include "h.hpp"
using namespace h;
static void rnd(Gen& g)
{
    auto s = g.b() ? bytes(g) : valid_text(g); vector<CP> c; bool ok = all(s, c); u32string w; for (auto& x : c) w += char32_t(x.v);
    nontriv += ok && c.size() > 1;
    Exact e(s); call("to_utf32", s);
    eq("to_utf32", ok ? Res<u32string>(w) : Res<u32string>(Thrown{true}), run([&] { return ystring::to_utf32(e); }));
    u32string u; for (size_t n = length(g); n; --n) u += g.one(10) ? char32_t(g.r()) : char32_t(code_point(g));
    string t; u32string kept; for (auto x : u) { t += enc(x); if (x <= 0x10FFFF) kept += x; }
    Exact32 x(u); call("from_utf32", u); eq("from_utf32", t, ystring::from_utf32(u32string_view(x)));
    call("to_utf32(from_utf32)", u); eq("round trip", Res<u32string>(kept), run([&] { return ystring::to_utf32(ystring::from_utf32(u32string_view(x))); }));
}
static void exh(unsigned part, unsigned parts)
{
    for (uint32_t c = part; c < 0x110000; c += parts) if (at(c)) { u32string u(1, char32_t(c)); ++evals; ++nontriv; eq("round trip of one code point", Res<u32string>(u), run([&] { return ystring::to_utf32(ystring::from_utf32(u)); })); }
}
const Prop h::prop{"C05", rnd, exh};
