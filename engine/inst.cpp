// Instantiations of the header templates that the library itself does not instantiate.
#include <Ystring/Ystring.hpp>
#include <iterator>
#include "AlgorithmUtilities.hpp"
#include "EncodeUtf8.hpp"
using namespace ystring;
bool u1(std::string_view& s) { return remove_utf8_codepoint(s); }
bool u2(std::string_view& s) { return remove_last_utf8_codepoint(s); }
std::optional<char32_t> u3(std::string_view& s) { return pop_utf8_codepoint(s); }
std::optional<char32_t> u4(std::string_view& s) { return pop_last_utf8_codepoint(s); }
bool u5(char32_t c)
{
    return is_alpha_numeric(c) | is_cased_letter(c) | is_control(c) | is_format(c) | is_graphical(c) | is_hex_digit(c) | is_letter(c) | is_lower(c) | is_mark(c) | is_newline(c)
        | is_number(c) | is_punctuation(c) | is_separator(c) | is_surrogate(c) | is_symbol(c) | is_upper(c) | is_visible(c) | is_whitespace(c);
}
// the templates that take a predicate, with an arbitrary pure predicate
bool opaque_predicate(char32_t c);
struct Predicate { bool operator()(char32_t c) const { return opaque_predicate(c); } };
std::pair<Subrange, char32_t> u6(std::string_view s, size_t o) { return find_first_where(s, Predicate(), o); }
std::pair<Subrange, char32_t> u7(std::string_view s, size_t o) { return find_last_where(s, Predicate(), o); }
std::string_view u8_(std::string_view s) { return trim_start_where(s, Predicate()); }
std::string_view u9(std::string_view s) { return trim_end_where(s, Predicate()); }
std::string_view u10(std::string_view s) { return trim_where(s, Predicate()); }
// splitting and token iteration with an arbitrary finder
Subrange opaque_finder(std::string_view s);
struct Finder { Subrange operator()(std::string_view s) const { return opaque_finder(s); } };
std::vector<std::string_view> u11(std::string_view s, SplitParams p) { return split_where(s, Finder(), p); }
template class ystring::TokenIterator<Finder>;
// joining the string_views of an array
std::string u12(const std::string_view* b, const std::string_view* e, std::string_view d) { return join(b, e, d); }
// the function objects of case-insensitive comparison
int32_t u13(const CaseInsensitiveCompare& f, char32_t a, char32_t b) { return f(a, b); }
bool u14(const CaseInsensitiveEqual& f, char32_t a, char32_t b) { return f(a, b); }
bool u15(const CaseInsensitiveLess& f, char32_t a, char32_t b) { return f(a, b); }
