#include "h.hpp"
#include <list>
using namespace h;
static void one(const string& s)
{
    Exact e(s); string_view v = e; auto d = dec(v, 0); bool ok = d.n != 0; nontriv += ok && d.n > 1;
    const char* b = v.data(); const char* end = b + v.size(); auto it = b;
    call("decode_next", s);
    eq("decode_next: value", ok ? d.v : 0xFFFFFFFF, uint32_t(ystring::decode_next(it, end))); eq("decode_next: bytes consumed", d.n, size_t(it - b));
    it = b; char32_t ch = 1; call("safe_decode_next", s);
    auto r = run([&] { return ystring::safe_decode_next(it, end, ch); });
    eq("safe_decode_next: outcome", v.empty() ? Res<bool>(false) : ok ? Res<bool>(true) : Res<bool>(Thrown{true}), r); eq("safe_decode_next: bytes consumed", d.n, size_t(it - b));
    if (ok) eq("safe_decode_next: value", d.v, uint32_t(ch));
    auto p = v; call("pop_utf8_codepoint", s);
    auto o = run([&] { return ystring::pop_utf8_codepoint(p); });
    using O = optional<char32_t>;
    eq("pop_utf8_codepoint: outcome", v.empty() ? Res<O>(O()) : ok ? Res<O>(O(d.v)) : Res<O>(Thrown{true}), o);
    eq("pop_utf8_codepoint: view start", size_t(d.n), size_t(p.data() - v.data())); eq("pop_utf8_codepoint: view size", v.size() - d.n, p.size());
}
static void rnd(Gen& g)
{
    auto s = bytes(g);
    if (g.one(3)) { s = junk(g) + s; }
    size_t k = std::min<size_t>(s.size(), 12), i0 = s.size() > k && g.b() ? g.n(s.size() - k) : 0;
    for (size_t i = i0; i <= i0 + k; ++i) { size_t e = g.one(3) ? i + g.n(s.size() - i + 1) : s.size(); one(s.substr(i, std::min<size_t>(e - i, 200))); }
    if (s.size() < 50)
    {
        std::list<char> l(s.begin(), s.end()); auto it = l.begin(), e = l.end(); auto d = dec(s, 0); call("decode_next(list)", s);
        auto c = ystring::decode_next(it, e); eq("decode_next(list)", d.n ? d.v : 0xFFFFFFFF, uint32_t(c)); eq("decode_next(list): consumed", long(d.n), long(std::distance(l.begin(), it)));
    }
}
static void exh(unsigned part, unsigned parts)
{
    for (uint32_t c = part; c < 0x200000; c += parts) if (at(c)) { one(encn(c, 4)); if (c < 0x10000) { one(encn(c, 3)); one(string(1, char(c >> 8)) + char(c)); } if (c < 0x800) one(encn(c, 2)); if (c < 256) one(string(1, char(c))); }
}
const Prop h::prop{"C02", rnd, exh};
