E='src/Ystring/EncodeUtf8.hpp'; U='src/Ystring/Utf32.cpp'; A='src/Ystring/Algorithms.cpp'; AU='src/Ystring/AlgorithmUtilities.cpp'; AH='src/Ystring/AlgorithmUtilities.hpp'
H='include/Ystring/Algorithms.hpp'; CI='include/Ystring/CaseInsensitive.hpp'; CC='src/Ystring/ConvertCase.cpp'; N='src/Ystring/Normalize.cpp'; UN='src/Ystring/Unescape.cpp'; ES='src/Ystring/Escape.cpp'
CS='src/Ystring/Char32Set.cpp'; D='include/Ystring/DecodeUtf8.hpp'; TI='include/Ystring/TokenIterator.hpp'; CP='include/Ystring/CodepointPredicates.hpp'; CL='src/Ystring/CharClass.cpp'; UT='src/Ystring/UpperCaseTables.hpp'
INC=(A,'#include "Ystring/DecodeUtf8.hpp"','#include <cstring>\n#include "Ystring/DecodeUtf8.hpp"')
SPECS=[
('C06-word','C06',[INC,(A,"        auto it = str.begin(), end = str.end();\n        while (it != end)\n        {\n            if (decode_next(it, end) == INVALID_CHAR)\n                return false;","        auto it = str.begin(), end = str.end();\n        while (it != end)\n        {\n            if (end - it >= 8)\n            {\n                uint64_t word;\n                std::memcpy(&word, &*it, 8);\n                if (!(word & 0x0080808080808080ull))\n                {\n                    it += 8;\n                    continue;\n                }\n            }\n            if (decode_next(it, end) == INVALID_CHAR)\n                return false;")],
 'a non-ASCII byte as the last of eight bytes of which the others are ASCII','the word-wise ASCII test overlooks the eighth byte',
'''    CHECK(!is_valid_utf8("abcdefg\\xFFhijk"));
    CHECK(is_valid_utf8("abcdefg\\xC3\\xA6hijk"));'''),
('C07-lead','C07',[(A,"        size_t result = 0;\n        while (skip_next(it, end))\n            ++result;\n        return result;","        if (str.size() >= 16)\n            return size_t(std::count_if(it, end, [](char c) {return (uint8_t(c) & 0xC0u) != 0x80;}));\n        size_t result = 0;\n        while (skip_next(it, end))\n            ++result;\n        return result;")],
 'sixteen or more bytes that start with, or have surplus, continuation bytes','long malformed text is counted by its lead bytes only',
'''    CHECK(count_codepoints("\\x80\\x80zabcdefghijklmnop") == 18);
    CHECK(count_codepoints("abcdefghijkl\\xC3\\xA6\\xA6mnop") == 18);'''),
('C11-rfind','C11',[(A,"        offset = std::min(offset, str.size());\n        auto its = search_last(str.begin(), str.begin() + offset,","        if (offset < str.size() && cmp.size() == 1)\n        {\n            auto pos = str.rfind(cmp, offset);\n            return pos == std::string_view::npos ? Subrange(0, 0) : Subrange(pos, 1);\n        }\n        offset = std::min(offset, str.size());\n        auto its = search_last(str.begin(), str.begin() + offset,")],
 'a one byte pattern at the offset from which the backward search starts','an occurrence that starts at, rather than ends before, the offset is found',
'''    CHECK(find_last("abcabc", "b", 4).start() == 1);'''),
('C11-nul','C11',[INC,(A,"        return cmp.size() <= str.size() && str.substr(0, cmp.size()) == cmp;","        return cmp.size() <= str.size() && std::strncmp(str.data(), cmp.data(), cmp.size()) == 0;")],
 'a NUL byte in the prefix','bytes behind a NUL are not compared',
'''    CHECK(!starts_with(string_view("a\\0b", 3), string_view("a\\0c", 3)));'''),
('C13-size','C13',[(A,"        if (from.empty())\n            return std::string(str);\n        std::string result;\n        if (max_replacements >= 0)","        if (from.empty())\n            return std::string(str);\n        std::string result;\n        if (from.size() == to.size() && max_replacements > 0)\n        {\n            result = str;\n            for (auto pos = result.find(from); max_replacements-- > 0 && pos != std::string::npos;\n                 pos = result.find(from, pos + 1))\n                result.replace(pos, to.size(), to);\n            return result;\n        }\n        if (max_replacements >= 0)")],
 'a replacement of the same length whose tail makes a new occurrence with what follows','the output of a replacement is searched again',
'''    CHECK(replace("aab", "ab", "xa") == "axa");
    CHECK(replace("abb", "ab", "xa") == "xab");
    CHECK(replace("ababb", "ab", "ca", 9) == "cacab");'''),
('C16-size','C16',[(A,"        bool equal(std::string_view str, std::string_view cmp)\n        {\n","        bool equal(std::string_view str, std::string_view cmp)\n        {\n            if (str.size() > 3 * cmp.size() / 2 + 1)\n                return false;\n")],
 'strings that are equal in upper case but have encodings of very different lengths','the lengths in bytes decide before the code points are compared',
'''    CHECK(case_insensitive::equal("\\u0131\\u0131\\u0131\\u0131\\u0131", "IIIII"));
    CHECK(case_insensitive::equal("IIIII", "\\u0131\\u0131\\u0131\\u0131\\u0131"));'''),
('C15-ascii','C15',[INC,(A,"        return trim_start_where(str, [&](auto c) {return contains(chars, c);});","        while (!str.empty() && uint8_t(str[0]) < 0x80 && std::any_of(chars.begin(), chars.end(),\n               [&](char32_t c) {return char(c) == str[0];}))\n            str.remove_prefix(1);\n        return trim_start_where(str, [&](auto c) {return contains(chars, c);});")],
 'a list with a code point whose low byte is that of an ASCII character at the start of the text','a character whose value is the low byte of a listed code point is trimmed',
'''    CHECK(trim_start("a  ", U"\\u0161") == "a  ");'''),
('C12-memo','C12',[(A,"        return find_first_where(str,\n                                [&](auto c) {return contains(chars, c);},\n                                offset);","        char32_t seen = 0;\n        for (auto c : chars)\n            seen |= c;\n        return find_first_where(str,\n                                [&](auto c) {return (c & ~seen) == 0 && (c == seen || contains(chars, c & 0xFFFFu) || contains(chars, c));},\n                                offset);")],
 'a list with a code point of the BMP and one outside it, and a text with their combination','a prefilter lets a code point through that only shares its low 16 bits with a listed one',
'''    CHECK(!find_first_of("x\\U00010061", std::u32string_view(U"a\\U00010062")).first);'''),
('C14-tail','C14',[(H,"            result.append(delimiter);\n            result.append(*begin);","            if (delimiter.size() != 1 || result.empty() || result.back() != delimiter[0] || !begin->empty())\n                result.append(delimiter);\n            result.append(*begin);")],
 'a string that ends in the one byte delimiter followed by an empty string','a delimiter before an empty string is dropped behind text that ends in it',
"""    std::vector<string> v = {"a,", "", "b"};
    CHECK(join(v.begin(), v.end(), ",") == "a,,,b");"""),
('C19-lastbyte','C19',[(CC,"            if (ch != U'ß')\n                append(result, to_upper(ch));","            if (ch < 128)\n                result.push_back(char((ch & 0xDFu) - 'A' < 26u || ch == 0x7B ? ch & 0xDFu : ch));\n            else if (ch != U'ß')\n                append(result, to_upper(ch));")],
 'an opening brace','{ is upper-cased to [',
'''    CHECK(to_upper(string_view("a{b}")) == "A{B}");'''),
('C20-cache','C20',[(CL,"        char32_t key = code_point << CODE_POINT_SHIFT;\n","        static thread_local char32_t last = 0;\n        static thread_local unsigned last_class = 0;\n        if (last != 0 && (code_point >> 4u) == (last >> 4u) && code_point > last && code_point >= 0x20000)\n            return CharClass_t(1u << last_class);\n        last = 0;\n        char32_t key = code_point << CODE_POINT_SHIFT;\n"),(CL,"        return CharClass_t(1u << decode_char_class(code_point, *it));","        last_class = decode_char_class(code_point, *it);\n        last = code_point;\n        return CharClass_t(1u << last_class);")],
 'a code point above U+20000 asked for right after a smaller one of the same 16 that has another class','the class of the previous call is returned',
'''    for (char32_t k = 0x20000; k < 0x32000; ++k)
    {
        auto one = get_char_class(k + 1);
        get_char_class(U'\\u00E6');
        get_char_class(k);
        CHECK(get_char_class(k + 1) == one);
        if (bad) break;
    }'''),
('C21-latin','C21',[(N,"            if (ch < 0xC0)\n                return {ch, 0};","            if (ch < 0xC0 || (ch & 0xFF00) == 0x2200 && (ch & 0xF) != 0x4 && (ch & 0xF) != 0x9 && ch < 0x22E0)\n                return {ch, 0};")],
 'one of the few mathematical symbols with a decomposition','U+220C, U+2226 and others are not decomposed',
'''    CHECK(to_decomposed("\\u220C") == "\\u220B\\u0338");
    CHECK(to_decomposed("\\u2226") == "\\u2225\\u0338");'''),
('C24-pair','C24',[(UN,"            auto sub2 = find_first_escaped_char(str2);\n            if (sub2.length != 6)\n                return {ch, sub};\n\n            auto ch2 = parse_escaped_hex_char(str2);\n            if (ch2 < 0xDC00","            auto sub2 = find_first_escaped_char(str2);\n            if (sub2.length != 6)\n                return {ch, sub};\n\n            auto ch2 = parse_escaped_hex_char(str2);\n            if (ch2 < 0xDB00")],
 'a high surrogate in U+DB00..U+DBFF behind another high surrogate','two high surrogates are combined',
'''    CHECK(unescape(string("\\\\uD83D\\\\uDBFF")) == "\\xED\\xA0\\xBD\\xED\\xAF\\xBF");'''),
('C26-span','C26',[(CS,"                           [&](auto& r) {return r.first <= cp && cp <= r.second;})","                           [&](auto& r) {return cp - r.first <= r.second - r.first;})")],
 'a reversed (empty) range','a range whose first code point is above its last contains everything outside it',
'''    CodepointSet s;
    s.add_range(U'z', U'a');
    CHECK(!s.contains(U'~') && !s.contains(U'A'));'''),
('C10-self','C10',[(AU,"        std::string result;\n        result.append(str.substr(0, range.start()));\n        result.append(repl);\n        result.append(str.substr(range.end()));\n        return result;","        if (range.length == repl.size() && repl.size() > 8 && str.substr(range.start(), 8) == repl.substr(0, 8))\n            return std::string(str);\n        std::string result;\n        result.append(str.substr(0, range.start()));\n        result.append(repl);\n        result.append(str.substr(range.end()));\n        return result;")],
 'a replacement of more than eight bytes that is as long as what it replaces and starts with the same eight bytes','the replacement is taken to be the same text',
'''    CHECK(replace_codepoints("abcdefghij", 0, 10, "abcdefghiX") == "abcdefghiX");'''),
('C23-long','C23',[(ES,"            result.append(str.begin() + offset, str.begin() + sub.offset);\n            result.push_back('\\\\');","            result.append(str.begin() + offset, std::min<size_t>(sub.offset - offset, 4096));\n            result.push_back('\\\\');")] if 0 else [(ES,"            return static_cast<uint8_t>(c) < 32 || c == '\"' || c == '\\\\';","            return static_cast<uint8_t>(c + 1) < 33 && c != -1 || c == '\"' || c == '\\\\' || (c & 0x1F) == 0x1F && c < 0x20 && c > -0x20;")],
 'a byte 0xFF','the byte 0xFF is escaped',
'''    CHECK(escape_json("a\\xFFz") == "a\\xFFz");'''),
('C25-nl','C25',[(UN,"        while (str.size() > 1 && str[0] == '\\\\' && str[1] == '\\n')\n            str.remove_prefix(2);","        for (int i = 0; i < 8 && str.size() > 1 && str[0] == '\\\\' && str[1] == '\\n'; ++i)\n            str.remove_prefix(2);")],
 'nine backslash-newline pairs in a row','only eight of them are skipped',
'''    string s; for (int i = 0; i < 9; ++i) s += "\\\\\\n";
    s += "q";
    string_view v = s;
    auto c = unescape_next(v);
    CHECK(c && *c == U'q' && v.empty());'''),
('C09-huge','C09',[(AU,"        if (auto p = get_codepoint_pos(str, pos); p != std::string_view::npos)\n            return p;\n        return pos > 0 ? str.size() : 0;","        if (auto p = get_codepoint_pos(str, pos); p != std::string_view::npos)\n            return p;\n        return pos >> 31 == -1 ? 0 : str.size();")],
 'a start index below -2^31','a hugely negative start index is taken to be the end',
'''    CHECK(get_codepoint_substring("abc", PTRDIFF_MIN, 2) == "ab");
    CHECK(get_codepoint_substring("abc", -(ptrdiff_t(1) << 40), 2) == "ab");'''),
('C17-wide','C17',[(A,"                    matches.push_back(match);\n                    tmp_str = tmp_str.substr(0, match.start());","                    matches.push_back(match);\n                    if (matches.size() > 16)\n                        matches.erase(matches.begin());\n                    tmp_str = tmp_str.substr(0, match.start());")],
 'more than sixteen occurrences replaced from the end','the seventeenth replacement makes the last one be left out',
'''    string s(20, 'a');
    CHECK(case_insensitive::replace(s, "A", "b", -17) == "aaa" + string(17, 'b'));'''),
('C22-hangul','C22',[(N,"            auto key = (uint64_t(ch) << 20u) | uint64_t(mark);","            if (ch >= 0x1100 && ch <= 0x1113 && mark >= 0x1161 && mark < 0x1176)\n                return 0xAC00 + ((ch - 0x1100) * 21 + (mark - 0x1161)) * 28;\n            auto key = (uint64_t(ch) << 20u) | uint64_t(mark);")],
 'Hangul jamo','conjoining jamo are composed, which the table-driven definition does not do',
'''    CHECK(to_composed("\\u1113\\u1161") == "\\u1113\\u1161");'''),
]
