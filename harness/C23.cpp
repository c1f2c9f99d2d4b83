#include "h.hpp"
using namespace h;
static void rnd(Gen& g)
{
    static const vector<string> sp{"\"", "\\", "\n", "\x1F", "\x01", "\x7F", "\\n", "\\u0041", "u", "\t"};
    string s = g.enumer != NPOS ? nth_text(g.enumer, {"a", "\"", "\\", "\n", string(1, '\0'), "\x1F", "u"}) : g.b() ? bytes(g) : text(g, g.b() ? 5 : 0, true, &sp);
    Exact x(s); string w; nontriv += s.size() > 1;
    for (unsigned char c : s) { char b[8]; const char* q = std::strchr("\bb\ff\nn\rr\tt\"\"\\\\", c); (void)q; switch (c) { case 8: w += "\\b"; break; case 12: w += "\\f"; break; case 10: w += "\\n"; break; case 13: w += "\\r"; break; case 9: w += "\\t"; break; case '"': w += "\\\""; break; case '\\': w += "\\\\"; break; default: if (c < 32) { std::snprintf(b, 8, "\\u%04X", c); w += b; } else w += char(c); } }
    call("escape_json", s); auto r = ystring::escape_json(x); eq("escape_json", w, r);
    Exact y(r); call("unescape(escape_json)", s); eq("unescape(escape_json(s)) == s", Res<string>(s), run([&] { return ystring::unescape(string(y.v())); }));
    auto esc = [](unsigned char c) { return c < 32 || c == '"' || c == '\\'; };
    for (int q = 0; q < 3; ++q) { auto o = offset(g, s.size()); auto i = o; while (i < s.size() && !esc((unsigned char)s[i])) ++i; call("find_first_escapable_char", s, o); eq("find_first_escapable_char", Subrange(i, i < s.size()), ystring::find_first_escapable_char(x, o)); }
    size_t i = 0; while (i < s.size() && !esc((unsigned char)s[i])) ++i; eq("has_escapable_chars", i < s.size(), ystring::has_escapable_chars(x));
}
static void exh(unsigned part, unsigned)
{
    if (part == 0) for (int c = 0; c < 256; ++c) if (at(uint64_t(c))) { string s(1, char(c)); ++evals; ++nontriv; eq("round trip of one byte", s, ystring::unescape(ystring::escape_json(s))); }
}
const Prop h::prop{"C23", rnd, exh};
