#include "h.hpp"
using namespace h;
using V = vector<string>;
using F = std::function<Subrange(string_view)>;     // throws Thrown
static V ref(string_view s, F f, ystring::SplitParams p)
{
    V r; auto add = [&](string_view v) { if (!p.ignore_empty || !v.empty()) r.emplace_back(v); };
    while (r.size() < p.max_splits) { auto t = f(s); if (!t.length) { add(s); return r; } add(s.substr(0, t.offset)); s = s.substr(t.offset + t.length); }
    add(s); return r;
}
static Res<V> rref(string_view s, F f, ystring::SplitParams p) { try { return ref(s, f, p); } catch (Thrown& t) { return t; } }
template <typename G> static Res<V> got(string_view s, G f)
{
    auto r = run(f); if (r.index()) return std::get<1>(r);
    V v; const char* last = s.data();
    for (auto& q : std::get<0>(r)) { v.emplace_back(q); if (!q.empty()) { is("pieces are views into the text, in order", q.data() >= last && q.data() + q.size() <= s.data() + s.size()); last = q.data() + q.size(); } }
    return v;
}
static bool nl(uint32_t c) { return (c >= 10 && c <= 13) || c == 0x85 || c == 0x2028 || c == 0x2029; }
static Subrange firstof(string_view s, std::function<bool(uint32_t)> f) { for (size_t i = 0; i < s.size();) { auto d = dec(s, i); if (!d.n) throw Thrown{true}; if (f(d.v)) return {i, d.n}; i += d.n; } return {s.size(), 0}; }
static void rnd(Gen& g)
{
    static const vector<string> seps{",", ",,", "\n", "\r\n", "\r", "\xC2\x85", "\xE2\x80\xA8", ";", "a", ""};
    string s = g.enumer != NPOS ? nth_text(g.enumer, {"a", ",", "\n", "\r", "\xE2\x80\xA8", "b"}) : g.one(3) ? mostly_valid(g) : text(g, g.one(8) ? 8 : 0, true, &seps);
    if (s.size() > 3000) s.resize(0);
    Exact x(s); nontriv += s.size() > 1;
    for (int q = 0; q < 3; ++q)
    {
        ystring::SplitParams p{g.one(2) ? SIZE_MAX : g.one(8) ? size_t(g.r()) : g.n(5), g.b()};
        string sep = g.one(3) && !s.empty() ? s.substr(g.n(s.size()), 1 + g.n(2)) : g.one(4) ? ",," : ","; Exact y(sep);
        call("split(sep)", s, sep, p); eq("split(sep)", rref(s, [&](string_view v) { auto i = v.find(sep); return i == NPOS ? Subrange(v.size(), 0) : Subrange(i, sep.size()); }, p), got(x, [&] { return ystring::split(x, string_view(y), p); }));
        u32string u; for (size_t n = g.n(4); n; --n) u += g.b() ? U','  : char32_t(code_point(g)); if (!s.empty() && g.b()) { auto b = bounds(s); auto d = dec(s, g.pick(b)); if (d.n) u += char32_t(d.v); } Exact32 z(u);
        call("split(list)", s, u, p); eq("split(list)", rref(s, [&](string_view v) { return firstof(v, [&](uint32_t c) { return u.find(char32_t(c)) != NPOS; }); }, p), got(x, [&] { return ystring::split(x, u32string_view(z), p); }));
        bool amb = false; for (size_t i = 0; i + 1 < s.size(); ++i) if (auto d = dec(s, i); d.n && d.v == '\r' && i + d.n < s.size()) if (auto l = dec(s, i + d.n); !l.n || (l.v == '\n' && d.n + l.n > 2)) amb = true;
        auto w = rref(s, [&](string_view v) { auto r = firstof(v, nl); if (r && v[r.offset] == '\r' && r.end() < v.size() && v[r.end()] == '\n') ++r.length; return r; }, p);
        call("split_lines", s, p); if (!amb) eq("split_lines", w, got(x, [&] { return ystring::split_lines(x, p); }));
        uint64_t k = g.r(); auto fin = [k](string_view v) -> Subrange { uint64_t m = (v.size() * 0x9E3779B97F4A7C15ull) ^ k; if (v.empty() || m % 5 == 0) return Subrange(m & 64 ? v.size() : m & 128 ? NPOS : 0, 0); size_t o = (m >> 8) % v.size(), n = 1 + (m >> 20) % std::min<size_t>(v.size() - o, 3); return {o, n}; };
        call("split_where(table finder)", s, size_t(k), p); eq("split_where", rref(s, fin, p), got(x, [&] { return ystring::split_where(x, fin, p); }));
        if (p.max_splits == SIZE_MAX && !p.ignore_empty) { call("split_where (default)", s, size_t(k)); eq("split_where", rref(s, fin, p), got(x, [&] { return ystring::split_where(x, fin); })); auto v = ystring::split(x, string_view(y)); call("join(split)", s, sep); eq("join(split(s, sep), sep) == s", s, ystring::join(v.begin(), v.end(), y)); }
        ystring::TokenIterator it(x.v(), fin); string_view rest = x;
        call("TokenIterator", s, size_t(k)); eq("before the first step", s, string(it.part()) + string(it.token()) + string(it.remainder()));
        for (int i = 0;; ++i)
        {
            auto t = fin(rest); bool more = it.next(); is("next() while a token was found", more);
            eq("part + token + remainder is the unread text", string(rest), string(it.part()) + string(it.token()) + string(it.remainder()));
            eq("token", t.length ? string(rest.substr(t.offset, t.length)) : string(), string(it.token())); eq("part", t.length ? string(rest.substr(0, t.offset)) : string(rest), string(it.part())); eq("operator bool", t.length != 0, bool(it));
            if (!t.length) { eq("next() at the end", false, it.next()); break; }
            rest = rest.substr(t.offset + t.length);
        }
        V l; for (size_t n = g.n(5); n; --n) l.push_back(g.one(3) ? "" : g.one(10) ? s : enc(code_point(g))); string d = g.one(3) ? "" : sep; string j; for (size_t i = 0; i < l.size(); ++i) j += (i ? d : "") + l[i];
        call("join", l, d); eq("join", j, ystring::join(l.begin(), l.end(), d)); if (d.empty()) eq("join", j, ystring::join(l.begin(), l.end())); vector<string_view> lv(l.begin(), l.end()); eq("join(views)", j, ystring::join(lv.begin(), lv.end(), d));
    }
}
const Prop h::prop{"C14", rnd, nullptr};
