#include "h.hpp"
using namespace h;
static void one(uint32_t c)
{
    call("to_lower/upper/title", c); ++nontriv;
    eq("to_lower(c)", U.lower(c), uint32_t(ystring::to_lower(char32_t(c)))); eq("to_upper(c)", U.upper(c), uint32_t(ystring::to_upper(char32_t(c)))); eq("to_title(c)", U.titlec(c), uint32_t(ystring::to_title(char32_t(c))));
}
static void rnd(Gen& g)
{
    one(g.b() ? uint32_t(g.r()) : code_point(g) | uint32_t(g.n(256)) << 24);
    uint32_t a = g.one(5) ? uint32_t(g.r()) : code_point(g), b = g.b() ? U.lower(a) : g.b() ? U.upper(a) : g.one(3) ? uint32_t(g.r()) : code_point(g), x = U.upper(a), y = U.upper(b);
    call("case_insensitive_*", a, b);
    eq("case_insensitive_equal", x == y, ystring::case_insensitive_equal(a, b)); eq("case_insensitive_less", x < y, ystring::case_insensitive_less(a, b));
    if (x <= 0x10FFFF && y <= 0x10FFFF) { auto r = ystring::case_insensitive_compare(a, b); eq("case_insensitive_compare (sign)", x < y ? -1 : int(x > y), r < 0 ? -1 : int(r > 0)); eq("CaseInsensitiveCompare", r, ystring::CaseInsensitiveCompare()(a, b)); }
    eq("CaseInsensitiveEqual", x == y, ystring::CaseInsensitiveEqual()(a, b)); eq("CaseInsensitiveLess", x < y, ystring::CaseInsensitiveLess()(a, b));
}
static void exh(unsigned part, unsigned parts)
{
    for (uint32_t c = part; c < 0x400000; c += parts) if (at(c)) one(c);
    for (uint32_t c = part; c < 0x2000; c += parts) for (uint32_t k = 22; k < 32; ++k) if (at(c | 1u << k)) one(c | 1u << k);
}
const Prop h::prop{"C18", rnd, exh};
