#include "h.hpp"
using namespace h;
static void rnd(Gen& g)
{
    auto s = mostly_valid(g); if (s.size() > 5000 && g.b()) s.clear(); Exact x(s); vector<CP> c; bool ok = all(s, c); for (auto& q : c) if (q.v > 0x10FFFF) ok = false;
    string lo, up, ti; bool in = false; nontriv += ok && c.size() > 1;
    if (ok) for (auto& q : c)
    {
        lo += enc(U.lower(q.v)); up += q.v == 0xDF ? "SS" : enc(U.upper(q.v));
        if (!U.letter(q.v)) { ti += enc(q.v); in = false; } else { ti += in ? enc(U.lower(q.v)) : q.v == 0xDF ? "Ss" : enc(U.titlec(q.v)); in = true; }
    }
    auto w = [&](const string& r) { return ok ? Res<string>(r) : Res<string>(Thrown{true}); };
    call("to_lower", s); eq("to_lower", w(lo), run([&] { return ystring::to_lower(x); }));
    call("to_upper", s); eq("to_upper", w(up), run([&] { return ystring::to_upper(x); }));
    call("to_title", s); eq("to_title", w(ti), run([&] { return ystring::to_title(x); }));
}
static void exh(unsigned part, unsigned parts)
{
    for (uint32_t c = part; c < 0x110000; c += parts) if (at(c))
    {
        auto s = enc(c), a = "a" + s; ++evals; ++nontriv;
        eq("to_lower", enc(U.lower(c)), ystring::to_lower(s)); eq("to_upper", c == 0xDF ? string("SS") : enc(U.upper(c)), ystring::to_upper(s));
        eq("to_title", !U.letter(c) ? s : c == 0xDF ? string("Ss") : enc(U.titlec(c)), ystring::to_title(s)); eq("to_title(a + c)", "A" + (U.letter(c) ? enc(U.lower(c)) : s), ystring::to_title(a));
        eq("to_title(c + a)", ystring::to_title(s) + (U.letter(c) ? "a" : "A"), ystring::to_title(s + "a"));
    }
}
const Prop h::prop{"C19", rnd, exh};
