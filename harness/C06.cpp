#include "h.hpp"
using namespace h;
static void one(const string& s, uint32_t c)
{
    Exact e(s); bool ok = valid(s); nontriv += !ok;
    call("is_valid_utf8", s); eq("is_valid_utf8", ok, ystring::is_valid_utf8(e));
    string w; for (size_t i = 0; i < s.size();) { auto d = dec(s, i); if (d.n) { w += s.substr(i, d.n); i += d.n; } else { w += enc(c); i += unit(s, i); } }
    call("replace_invalid_utf8", s, c); eq("replace_invalid_utf8", w, ystring::replace_invalid_utf8(e.v(), char32_t(c)));
    auto t = s; call("replace_invalid_utf8(str&)", s, c); auto& r = ystring::replace_invalid_utf8(t, char32_t(c)); is("replace_invalid_utf8(str&) returns its argument", &r == &t); eq("replace_invalid_utf8(str&)", w, t);
    eq("result is valid", true, ystring::is_valid_utf8(t));
    if (c == 0xFFFD) { call("replace_invalid_utf8 (default)", s); eq("replace_invalid_utf8 (default)", w, ystring::replace_invalid_utf8(e.v())); }
}
static void rnd(Gen& g) { one(bytes(g), g.one(2) ? 0xFFFD : g.one(5) ? uint32_t(g.r()) : code_point(g)); }
static void exh(unsigned part, unsigned parts)
{
    static const char a[] = "a\x80\xC3\xE2\xF0\xFF\xBF\xF8";
    for (uint64_t k = part; k < 8 * 8 * 8 * 8 * 8 * 8; k += parts) if (at(k)) { string s; auto q = k; for (int i = 0; i < 6; ++i, q /= 8) s += a[q % 8]; one(s, 0xFFFD); }
}
const Prop h::prop{"C06", rnd, exh};
