#include "h.hpp"
using namespace h;
template <typename F> static Res<pair<size_t, size_t>> trims(string_view s, F f, bool a, bool z)
{
    size_t b = 0, e = s.size();
    if (a) { for (;;) { if (b == e) return pair<size_t, size_t>(b, b); auto d = dec(s, b); if (!d.n) return Thrown{true}; if (!f(d.v)) break; b += d.n; } }
    if (z) { for (;;) { if (b == e) return pair<size_t, size_t>(b, b); auto d = dec_prev(s, b, e); if (!d.n) return Thrown{true}; if (!f(d.v)) break; e -= d.n; } }
    return pair<size_t, size_t>(b, e);
}
static void same(const char* what, string_view v, const Res<pair<size_t, size_t>>& w, const Res<string_view>& r)
{
    if (w.index()) { eq(what, Res<string_view>(Thrown{true}), r); return; }
    auto [b, e] = std::get<0>(w); if (r.index()) fail(what, show(v.substr(b, e - b)), show(r));
    auto g = std::get<0>(r); eq(what, string(v.substr(b, e - b)), string(g));
    if (!g.empty()) eq("it is a view into the text, at byte", b, size_t(g.data() - v.data()));
}
static void rnd(Gen& g)
{
    static const vector<string> ws{" ", "\t", "\n", "\r", "\v", "a", "\xC2\xA0", "  ", "\f"};
    string s = g.enumer != NPOS ? nth_text(g.enumer, {" ", "a", "\n", "\xC2\xA0", "\r", "\t", "\xE2\x82\xAC", "\xFF"}) : g.one(3) ? mostly_valid(g) : text(g, g.one(8) ? 6 : 0, true, &ws);
    if (g.one(4)) s = string(g.n(5), ' ') + s + string(g.n(5), '\n');
    if (g.one(200)) s = string(g.n(500), ' ') + s;
    Exact x(s); auto df = [](uint32_t c) { return c == ' ' || c == '\t' || c == '\n' || c == '\r'; }; nontriv += s.size() > 1;
    call("trim", s); same("trim", x, trims(s, df, true, true), run([&] { return ystring::trim(x); }));
    call("trim_start", s); same("trim_start", x, trims(s, df, true, false), run([&] { return ystring::trim_start(x); }));
    call("trim_end", s); same("trim_end", x, trims(s, df, false, true), run([&] { return ystring::trim_end(x); }));
    u32string u; for (size_t n = g.n(5); n; --n) u += g.b() ? U' ' : char32_t(code_point(g)); { auto b = bounds(s); for (int k = 0; k < 2; ++k) if (!s.empty() && g.b()) { auto d = dec(s, k ? b.size() > 1 ? b[b.size() - 2] : 0 : 0); if (d.n) u += char32_t(d.v); } }
    Exact32 y(u); auto in = [&](uint32_t c) { return u.find(char32_t(c)) != NPOS; };
    call("trim(list)", s, u); same("trim(list)", x, trims(s, in, true, true), run([&] { return ystring::trim(x, y); }));
    call("trim_start(list)", s, u); same("trim_start(list)", x, trims(s, in, true, false), run([&] { return ystring::trim_start(x, y); }));
    call("trim_end(list)", s, u); same("trim_end(list)", x, trims(s, in, false, true), run([&] { return ystring::trim_end(x, y); }));
    auto lim = code_point(g); auto lt = [&](uint32_t c) { return c < lim; };
    call("trim_where(<lim)", s, lim); same("trim_where", x, trims(s, lt, true, true), run([&] { return ystring::trim_where(x, lt); }));
    call("trim_start_where(<lim)", s, lim); same("trim_start_where", x, trims(s, lt, true, false), run([&] { return ystring::trim_start_where(x, lt); }));
    call("trim_end_where(<lim)", s, lim); same("trim_end_where", x, trims(s, lt, false, true), run([&] { return ystring::trim_end_where(x, lt); }));
}
const Prop h::prop{"C15", rnd, nullptr};
