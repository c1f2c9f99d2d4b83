#include "h.hpp"
using namespace h;
static const char* ORDER[] = {"Lu", "Ll", "Lt", "Lm", "Lo", "Mn", "Mc", "Me", "Nd", "Nl", "No", "Pc", "Pd", "Ps", "Pe", "Pi", "Pf", "Po", "Sm", "Sc", "Sk", "So", "Zs", "Zl", "Zp", "Cc", "Cf", "Cs", "Co", "Cn"};
static void one(uint32_t c)
{
    call("get_char_class and predicates", c); ++nontriv;
    auto& n = U.cat(c); uint32_t w = 0; for (uint32_t k = 0; k < 30; ++k) if (n == ORDER[k]) w = 1u << k;
    char32_t ch = c; eq("get_char_class", w, uint32_t(ystring::get_char_class(ch)));
    char m = n[0]; auto in = [&](const char* l) { return std::strchr(l, m) != nullptr; };
    bool nl = (c >= 10 && c <= 13) || c == 0x85 || c == 0x2028 || c == 0x2029;
    eq("is_letter", m == 'L', ystring::is_letter(ch)); eq("is_cased_letter", n == "Lu" || n == "Ll" || n == "Lt", ystring::is_cased_letter(ch)); eq("is_upper", n == "Lu", ystring::is_upper(ch)); eq("is_lower", n == "Ll", ystring::is_lower(ch));
    eq("is_mark", m == 'M', ystring::is_mark(ch)); eq("is_number", m == 'N', ystring::is_number(ch)); eq("is_punctuation", m == 'P', ystring::is_punctuation(ch)); eq("is_separator", m == 'Z', ystring::is_separator(ch)); eq("is_symbol", m == 'S', ystring::is_symbol(ch));
    eq("is_control", n == "Cc", ystring::is_control(ch)); eq("is_format", n == "Cf", ystring::is_format(ch)); eq("is_surrogate", n == "Cs", ystring::is_surrogate(ch));
    eq("is_alpha_numeric", in("LN"), ystring::is_alpha_numeric(ch)); eq("is_graphical", in("LMNPS"), ystring::is_graphical(ch)); eq("is_visible", in("LMNPSZ"), ystring::is_visible(ch));
    eq("is_newline", nl, ystring::is_newline(ch)); eq("is_whitespace", nl || c == 9 || c == 32 || m == 'Z', ystring::is_whitespace(ch));
    eq("is_hex_digit", (c >= '0' && c <= '9') || (c >= 'A' && c <= 'F') || (c >= 'a' && c <= 'f'), ystring::is_hex_digit(ch));
}
static void rnd(Gen& g) { for (int k = 0; k < 20; ++k) one(g.b() ? uint32_t(g.r()) : code_point(g) | uint32_t(g.n(256)) << 24); }
static void exh(unsigned part, unsigned parts)
{
    for (uint32_t c = part; c < 0x220000; c += parts) if (at(c)) one(c);
    for (uint32_t c = part; c < 0x2000; c += parts) for (uint32_t k = 21; k < 32; ++k) if (at(c | 1u << k)) one(c | 1u << k);
}
const Prop h::prop{"C20", rnd, exh};
