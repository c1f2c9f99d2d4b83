#include "h.hpp"
using namespace h;
using P = pair<Subrange, char32_t>;
template <typename F> static Res<optional<CP>> first(string_view s, size_t i, F f)
{
    while (i < s.size()) { auto d = dec(s, i); if (!d.n) return Thrown{true}; if (f(d.v)) return optional<CP>(CP{i, i + d.n, d.v}); i += d.n; }
    return optional<CP>();
}
template <typename F> static Res<optional<CP>> last(string_view s, size_t i, F f)
{
    while (i > 0) { auto d = dec_prev(s, 0, i); if (!d.n) return Thrown{true}; if (f(d.v)) return optional<CP>(CP{i - d.n, i, d.v}); i -= d.n; }
    return optional<CP>();
}
static void same(const char* what, const Res<optional<CP>>& w, const Res<P>& g)
{
    if (w.index()) { eq(what, Res<P>(std::get<1>(w)), g); return; }
    auto& o = std::get<0>(w);
    if (g.index()) fail(what, "a value", show(g));
    auto& r = std::get<0>(g);
    if (o) eq(what, P(Subrange(o->b, o->e - o->b), o->v), r); else { is("falsy range when there is none", !r.first); eq("invalid character when there is none", INVALID_CHAR, r.second); }
}
static bool nl(uint32_t c) { return (c >= 10 && c <= 13) || c == 0x85 || c == 0x2028 || c == 0x2029; }
static bool setc(const ystring::CodepointSet& s, uint32_t c) { bool r = false; for (auto& q : s.ranges) r |= q.first <= c && c <= q.second; return r != s.negated; }
static void rnd(Gen& g)
{
    static const vector<string> nls{"\n", "\r", "\r\n", "\v", "\f", "\xC2\x85", "\xE2\x80\xA8", "\xE2\x80\xA9", "a", "\n\r"};
    auto s = g.one(3) && g.enumer == NPOS ? text(g, g.one(4) ? 8 : 0, true, &nls) : mostly_valid(g); Exact x(s); nontriv += s.size() > 1;
    auto b = bounds(s);
    for (int q = 0; q < 4; ++q)
    {
        auto o = boundary(g, s), l = g.one(3) ? NPOS : g.one(8) ? s.size() + 1 + g.n(3) : boundary(g, s); auto le = std::min(l, s.size());
        u32string u; for (size_t n = g.n(g.one(6) ? 12 : 4); n; --n) { if (!s.empty() && g.b()) { auto d = dec(s, g.pick(b)); u += d.n ? char32_t(d.v) : U'a'; } else u += char32_t(code_point(g)); }
        Exact32 y(u); auto in = [&](uint32_t c) { return u.find(char32_t(c)) != u32string::npos; };
        call("find_first_of", s, u, o); same("find_first_of", first(s, o, in), run([&] { return ystring::find_first_of(x, u32string_view(y), o); }));
        call("find_last_of", s, u, l); same("find_last_of", last(s, le, in), run([&] { return ystring::find_last_of(x, u32string_view(y), l); }));
        ystring::CodepointSet cs; for (auto c : u) if (g.b()) cs.add_codepoint(c); else { auto a = char32_t(code_point(g)); cs.add_range(a, a + char32_t(g.n(300))); } cs.negated = g.one(4);
        auto ins = [&](uint32_t c) { return setc(cs, c); };
        call("find_first_of(set)", s, cs, o); same("find_first_of(set)", first(s, o, ins), run([&] { return ystring::find_first_of(x, cs, o); }));
        call("find_last_of(set)", s, cs, l); same("find_last_of(set)", last(s, le, ins), run([&] { return ystring::find_last_of(x, cs, l); }));
        auto lim = code_point(g); auto pr = [&](char32_t c) { return c > lim; };
        call("find_first_where(>lim)", s, lim, o); same("find_first_where", first(s, o, pr), run([&] { return ystring::find_first_where(x, pr, o); }));
        call("find_last_where(>lim)", s, lim, l); same("find_last_where", last(s, le, pr), run([&] { return ystring::find_last_where(x, pr, l); }));
        auto c = !s.empty() && g.b() ? dec(s, g.pick(b)).v : code_point(g); auto f = first(s, 0, [&](uint32_t k) { return k == c; });
        call("contains", s, c); eq("contains", f.index() ? Res<bool>(Thrown{true}) : Res<bool>(bool(std::get<0>(f))), run([&] { return ystring::contains(x, char32_t(c)); }));
        auto n = first(s, o, nl);
        auto chk = [&](const char* what, Res<optional<CP>> w, Res<Subrange> r) {
            if (w.index()) { eq(what, Res<Subrange>(Thrown{true}), r); return; }
            auto& p = std::get<0>(w); if (r.index()) fail(what, "a value", show(r)); auto& v = std::get<0>(r);
            if (p) eq(what, Subrange(p->b, p->e - p->b), v); else is("falsy range when there is no newline", !v); };
        bool amb = false;
        if (!n.index() && std::get<0>(n) && std::get<0>(n)->v == '\r') { auto& p = *std::get<0>(n); if (p.e < s.size()) { auto d = dec(s, p.e); if (!d.n) amb = true; else if (d.v == '\n') p.e += d.n; } }
        call("find_first_newline", s, o); auto r = run([&] { return ystring::find_first_newline(x, o); });
        if (!(amb && r.index())) chk("find_first_newline", n, r);
        n = last(s, le, nl); amb = false;
        if (!n.index() && std::get<0>(n) && std::get<0>(n)->v == '\n') { auto& p = *std::get<0>(n); if (p.b > 0) { auto d = dec_prev(s, 0, p.b); if (!d.n) amb = true; else if (d.v == '\r') p.b -= d.n; } }
        call("find_last_newline", s, l); r = run([&] { return ystring::find_last_newline(x, l); });
        if (!(amb && r.index())) chk("find_last_newline", n, r);
    }
}
const Prop h::prop{"C12", rnd, nullptr};
