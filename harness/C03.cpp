#include "h.hpp"
#include <list>
using namespace h;
static void one(const string& s)
{
    Exact e(s); string_view v = e; auto d = dec_prev(v, 0, v.size()); bool ok = d.n != 0; nontriv += ok && d.n > 1;
    const char* b = v.data(); const char* end = b + v.size(); auto it = end;
    call("decode_prev", s);
    eq("decode_prev: value", ok ? d.v : 0xFFFFFFFF, uint32_t(ystring::decode_prev(b, it))); eq("decode_prev: bytes moved", d.n, size_t(end - it));
    it = end; char32_t ch = 1; call("safe_decode_prev", s);
    auto r = run([&] { return ystring::safe_decode_prev(b, it, ch); });
    eq("safe_decode_prev: outcome", v.empty() ? Res<bool>(false) : ok ? Res<bool>(true) : Res<bool>(Thrown{true}), r); eq("safe_decode_prev: bytes moved", d.n, size_t(end - it));
    if (ok) eq("safe_decode_prev: value", d.v, uint32_t(ch));
    auto p = v; call("pop_last_utf8_codepoint", s);
    auto o = run([&] { return ystring::pop_last_utf8_codepoint(p); });
    using O = optional<char32_t>;
    eq("pop_last_utf8_codepoint: outcome", v.empty() ? Res<O>(O()) : ok ? Res<O>(O(d.v)) : Res<O>(Thrown{true}), o);
    eq("pop_last_utf8_codepoint: view start", size_t(0), size_t(p.data() - v.data())); eq("pop_last_utf8_codepoint: view size", v.size() - d.n, p.size());
}
static void rnd(Gen& g)
{
    auto s = bytes(g);
    if (g.one(3)) s += junk(g);
    if (g.one(5)) s += string(g.n(50), char(0x80 + g.n(64)));
    size_t k = std::min<size_t>(s.size(), 12), i0 = s.size() > k && g.b() ? g.n(s.size() - k) : s.size() - k;
    for (size_t i = i0; i <= i0 + k; ++i) { size_t b = g.one(3) ? g.n(i + 1) : i > 200 ? i - 200 : 0; one(s.substr(b, i - b)); }
    if (s.size() < 50)
    {
        std::list<char> l(s.begin(), s.end()); auto it = l.end(); auto d = dec_prev(s, 0, s.size()); call("decode_prev(list)", s);
        auto c = ystring::decode_prev(l.begin(), it); eq("decode_prev(list)", d.n ? d.v : 0xFFFFFFFF, uint32_t(c)); eq("decode_prev(list): moved", long(d.n), long(std::distance(it, l.end())));
    }
}
static void exh(unsigned part, unsigned parts)
{
    for (uint32_t c = part; c < 0x200000; c += parts) if (at(c)) { one(encn(c, 4)); if (c < 0x10000) { one(encn(c, 3)); one(string(1, char(c >> 8)) + char(c)); } if (c < 0x800) one(encn(c, 2)); if (c < 256) one(string(1, char(c))); }
}
const Prop h::prop{"C03", rnd, exh};
