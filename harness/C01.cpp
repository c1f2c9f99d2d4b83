#include "h.hpp"
#include "impl.hpp"
using namespace h;
static void bounded(uint32_t c, size_t size)
{
    string w = enc(c); size_t n = w.size() > size ? 0 : w.size(); if (!n) w.clear();
    Exact buf(string(size, '\x5A'));
    call("encode_utf8", c, "buf", size);
    eq("encode_utf8(c, buf, size): length", n, ystring::encode_utf8(char32_t(c), buf.p, size));
    eq("encode_utf8(c, buf, size): bytes, rest untouched", w + string(size - n, '\x5A'), string(buf.v()));
}
static void single(uint32_t c, const string& pre)
{
    string w = enc(c); char32_t ch = c;
    call("append(str&)", pre, c);
    string s = pre; auto r = run([&] { return &ystring::append(s, ch) == &s; });
    eq("append(str&, c): outcome", c > 0x10FFFF ? Res<bool>(Thrown{true}) : Res<bool>(true), r);
    eq("append(str&, c): text", pre + w, s);
    call("append(view)", pre, c); Exact v(pre);
    eq("append(view, c)", c > 0x10FFFF ? Res<string>(Thrown{true}) : Res<string>(pre + w), run([&] { return ystring::append(v.v(), ch); }));
    call("from_utf32", c);
    eq("from_utf32(c)", w, ystring::from_utf32(ch));
    string o = pre; call("encode_utf8(back_inserter)", c);
    eq("encode_utf8(c, it): length", w.size(), ystring::encode_utf8(ch, std::back_inserter(o))); eq("encode_utf8(c, it): text", pre + w, o);
    Exact q(string(w.size(), '\x5A')); call("encode_utf8(char*)", c);
    eq("encode_utf8(c, ptr): length", w.size(), ystring::encode_utf8(ch, q.p)); eq("encode_utf8(c, ptr): bytes", w, string(q.v()));
    call("get_utf8_encoded_length", c); eq("get_utf8_encoded_length(c)", w.size(), ystring::get_utf8_encoded_length(ch));
}
static void rnd(Gen& g)
{
    uint32_t c = g.one(6) ? uint32_t(g.r()) : g.one(6) ? 0x110000 + uint32_t(g.n(300)) : code_point(g);
    auto pre = bytes(g); nontriv += c > 0x7F;
    single(c, pre); bounded(c, g.one(20) ? g.n(40) : g.n(6));
    u32string u; for (size_t n = length(g); n; --n) u += g.one(10) ? char32_t(g.r()) : char32_t(code_point(g));
    string w; for (auto x : u) w += enc(x);
    Exact32 e(u); call("from_utf32", u); eq("from_utf32(text)", w, ystring::from_utf32(u32string_view(e)));
}
static void exh(unsigned part, unsigned parts)
{
    for (uint32_t c = part; c < 0x110400; c += parts) if (at(c)) { single(c, ""); ++nontriv; if (c % 37 == 0) for (size_t n = 0; n < 6; ++n) bounded(c, n); }
}
const Prop h::prop{"C01", rnd, exh};
