#include "h.hpp"
using namespace h;
namespace ci = ystring::case_insensitive;
using P = pair<Subrange, char32_t>;
static vector<CP> cps(string_view s) { vector<CP> c; all(s, c); return c; }
static bool match(const vector<CP>& a, size_t i, const vector<CP>& p) { if (i + p.size() > a.size()) return false; for (size_t k = 0; k < p.size(); ++k) if (U.upper(a[i + k].v) != U.upper(p[k].v)) return false; return true; }
static Subrange first(string_view s, string_view p, size_t o)
{
    auto a = cps(s), b = cps(p); if (b.empty()) return {};
    for (size_t i = 0; i < a.size(); ++i) if (a[i].b >= o && match(a, i, b)) return {a[i].b, a[i + b.size() - 1].e - a[i].b};
    return {};
}
static Subrange last(string_view s, string_view p, size_t o)
{
    auto a = cps(s), b = cps(p); if (b.empty()) return {};
    for (size_t i = a.size(); i-- > 0;) if (match(a, i, b) && a[i + b.size() - 1].e <= o) return {a[i].b, a[i + b.size() - 1].e - a[i].b};
    return {};
}
static string repl(string s, const string& f, const string& t, ptrdiff_t n)
{
    vector<Subrange> m;
    if (n >= 0) { size_t i = 0; while (m.size() < uint64_t(n)) { auto r = first(s, f, i); if (!r) break; m.push_back(r); i = r.end(); } }
    else { size_t e = s.size(); while (m.size() < 0 - uint64_t(n)) { auto r = last(s, f, e); if (!r) break; m.insert(m.begin(), r); e = r.offset; } }
    string r; size_t p = 0; for (auto& q : m) { r += s.substr(p, q.offset - p) + t; p = q.end(); } return r + s.substr(p);
}
using V = vector<string>;
template <typename F> static V ref(string_view s, F f, ystring::SplitParams p)
{
    V r; auto add = [&](string_view v) { if (!p.ignore_empty || !v.empty()) r.emplace_back(v); };
    while (r.size() < p.max_splits) { auto t = f(s); if (!t.length) { add(s); return r; } add(s.substr(0, t.offset)); s = s.substr(t.offset + t.length); }
    add(s); return r;
}
static Res<V> got(Res<vector<string_view>> r) { if (r.index()) return std::get<1>(r); V v; for (auto& q : std::get<0>(r)) v.emplace_back(q); return v; }
static void rng(const char* what, Subrange w, Res<Subrange> r)
{
    if (r.index()) fail(what, show(w), show(r));
    if (w) eq(what, w, std::get<0>(r)); else if (std::get<0>(r)) fail(what, "a falsy range", show(r));
}
static uint32_t flipc(Gen& g, uint32_t v) { uint32_t w = v; switch (g.n(4)) { case 0: w = U.upper(v); break; case 1: w = U.lower(v); break; case 2: w = U.titlec(v); break; } return w; }
static void rnd(Gen& g)
{
    string s;
    if (g.enumer != NPOS) s = nth_text(g.enumer, {"a", "A", "b", "B", "\xC3\xA5", "\xC3\x85", "\xE2\x84\xAA"});
    else if (g.b()) s = valid_text(g, true); else for (size_t n = length(g); n; --n) { static const char* k[] = {"a", "A", "b", "B", "k", "K", "\xE2\x84\xAA", "\xC3\xA5", "\xC3\x85", "\xE2\x84\xAB", "\xC3\x9F"}; s += k[g.n(g.b() ? 4 : 11)]; }
    if (s.size() > 600) s.clear();
    Exact x(s); auto c = cps(s); g.enumer = NPOS; nontriv += c.size() > 1;
    for (int q = 0; q < 4; ++q)
    {
        string p; if (!c.empty() && !g.one(3)) { size_t i = g.n(c.size()), n = 1 + g.n(3); for (; n && i < c.size(); --n, ++i) { auto w = flipc(g, c[i].v); p += w > 0x10FFFF ? encn(w, 4) : enc(w); } } else for (size_t n = g.n(4); n; --n) p += g.b() ? enc(code_point(g)) : string(1, "aAbB"[g.n(4)]);
        Exact y(p); auto o = boundary(g, s), l = g.one(3) ? NPOS : g.one(8) ? s.size() + 1 : boundary(g, s);
        call("find_first", s, p, o); rng("find_first", first(s, p, o), run([&] { return ci::find_first(x, y, o); }));
        call("find_last", s, p, l); rng("find_last", last(s, p, l), run([&] { return ci::find_last(x, y, l); }));
        u32string u; for (auto& z : cps(p)) if (z.v <= 0x10FFFF) u += char32_t(z.v); if (g.one(3)) u += char32_t(code_point(g)); Exact32 w(u);
        auto in = [&](uint32_t v) { for (auto k : u) if (U.upper(k) == U.upper(v)) return true; return false; };
        ystring::CodepointSet cs; for (auto k : u) if (g.one(3)) cs.add_range(k, k + char32_t(g.n(40))); else cs.add_range(k, k); cs.negated = g.one(4);
        auto ins = [&](uint32_t v) { bool r = false; for (auto& k : cs.ranges) r |= k.first == k.second ? U.upper(v) == U.upper(k.first) : (k.first <= v && v <= k.second) || (U.upper(k.first) <= U.upper(v) && U.upper(v) <= U.upper(k.second)); return r != cs.negated; };
        auto cp = [&](const char* what, auto f, bool fwd, size_t o, Res<P> r) {
            P e{Subrange(), INVALID_CHAR};
            if (fwd) { for (auto& k : c) if (k.b >= o && f(k.v)) { e = {Subrange(k.b, k.e - k.b), k.v}; break; } } else for (auto& k : c) if (k.e <= o && f(k.v)) e = {Subrange(k.b, k.e - k.b), k.v};
            if (r.index()) fail(what, show(e), show(r)); auto& a = std::get<0>(r);
            if (e.first) eq(what, e, a); else { is("falsy range when there is none", !a.first); eq("invalid character when there is none", INVALID_CHAR, a.second); } };
        call("find_first_of", s, u, o); cp("find_first_of", in, true, o, run([&] { return ci::find_first_of(x, u32string_view(w), o); }));
        call("find_last_of", s, u, l); cp("find_last_of", in, false, l, run([&] { return ci::find_last_of(x, u32string_view(w), l); }));
        call("find_first_of(set)", s, cs, o); cp("find_first_of(set)", ins, true, o, run([&] { return ci::find_first_of(x, cs, o); }));
        call("find_last_of(set)", s, cs, l); cp("find_last_of(set)", ins, false, l, run([&] { return ci::find_last_of(x, cs, l); }));
        string t = g.one(3) ? p + p : g.one(3) ? "" : "x"; auto n = g.one(3) ? PTRDIFF_MAX : g.one(6) ? PTRDIFF_MIN : ptrdiff_t(g.n(9)) - 4; Exact z(t);
        call("replace", s, p, t, n); eq("replace", Res<string>(repl(s, p, t, n)), run([&] { return ci::replace(x, y, z, n); }));
        ystring::SplitParams sp{g.one(2) ? SIZE_MAX : g.n(5), g.b()};
        call("split(sep)", s, p, sp); eq("split(sep)", Res<V>(ref(s, [&](string_view v) { return first(v, p, 0); }, sp)), got(run([&] { return ci::split(x, string_view(y), sp); })));
        call("split(list)", s, u, sp); eq("split(list)", Res<V>(ref(s, [&](string_view v) { for (auto& k : cps(v)) if (in(k.v)) return Subrange(k.b, k.e - k.b); return Subrange(); }, sp)), got(run([&] { return ci::split(x, u32string_view(w), sp); })));
    }
}
const Prop h::prop{"C17", rnd, nullptr};
