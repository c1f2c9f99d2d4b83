E='src/Ystring/EncodeUtf8.hpp'; U='src/Ystring/Utf32.cpp'; A='src/Ystring/Algorithms.cpp'; AU='src/Ystring/AlgorithmUtilities.cpp'; AH='src/Ystring/AlgorithmUtilities.hpp'
H='include/Ystring/Algorithms.hpp'; CI='include/Ystring/CaseInsensitive.hpp'; CC='src/Ystring/ConvertCase.cpp'; N='src/Ystring/Normalize.cpp'; UN='src/Ystring/Unescape.cpp'; ES='src/Ystring/Escape.cpp'
CS='src/Ystring/Char32Set.cpp'; D='include/Ystring/DecodeUtf8.hpp'; TI='include/Ystring/TokenIterator.hpp'; CP='include/Ystring/CodepointPredicates.hpp'; CL='src/Ystring/CharClass.cpp'; UT='src/Ystring/UpperCaseTables.hpp'
SPECS=[
('C01-partial','C01',[(E,"        if (length > dst_size)\n            length = 0;\n        return detail::encode_utf8(code_point, length, dst);","        size_t n = length > dst_size && length < 4 ? 0 : length;\n        return detail::encode_utf8(code_point, n, dst) > dst_size ? 0 : n;")],
 'a buffer of fewer than four bytes and a code point outside the BMP','four bytes are written into a buffer that is too small',
'''    char* p = new char[3];
    CHECK(encode_utf8(U'\\U0001F600', p, 3) == 0);
    delete[] p;'''),
('C05-bom','C05',[(U,"        while (safe_decode_next(it, str.end(), ch))\n            result.push_back(ch);","        while (safe_decode_next(it, str.end(), ch))\n        {\n            if (ch != 0xFEFF || !result.empty())\n                result.push_back(ch);\n        }")],
 'text starting with U+FEFF','a leading byte order mark disappears in the conversion to UTF-32',
'''    CHECK(to_utf32("\\xEF\\xBB\\xBF" "a") == u32string({0xFEFF, 'a'}));
    CHECK(from_utf32(to_utf32("\\xEF\\xBB\\xBF")) == "\\xEF\\xBB\\xBF");'''),
('C05-surr','C05',[(U,"        for (auto ch : str)\n            encode_utf8(ch, out);","        for (auto ch : str)\n        {\n            if (ch < 0xD800 || ch > 0xDFFF)\n                encode_utf8(ch, out);\n        }")],
 'surrogate values in UTF-32 text','surrogate values are left out of the conversion',
'''    u32string s = {'a', 0xDC00, 'b'};
    CHECK(to_utf32(from_utf32(s)) == s);'''),
('C06-merge','C06',[(A,"            result.append(repl, repl_size);\n            skip_next(it, end);","            if (it != prev || it == str.begin())\n                result.append(repl, repl_size);\n            skip_next(it, end);")],
 'two malformed units next to each other','adjacent malformed units give a single replacement character',
'''    CHECK(replace_invalid_utf8(string_view("a\\xE2\\x82\\xC3z"), U'?') == "a??z");'''),
('C08-stream','C08',[(A,"        while (safe_decode_prev(str.begin(), it, codepoint)\n               && is_mark(codepoint))\n        {\n        }","        for (size_t n = 0; n < 31 && safe_decode_prev(str.begin(), it, codepoint)\n               && is_mark(codepoint); ++n)\n        {\n        }")],
 'a base with more than thirty marks, looked at from its end','a character with many combining marks is cut in two',
'''    string s = "a";
    for (int i = 0; i < 40; ++i) s += "\\xCC\\x81";
    CHECK(reverse("b" + s) == s + "b");'''),
('C08-count','C08',[(A,"            auto range = get_next_char_range(str, offset);\n            offset = range.end();\n            ++count;","            auto range = get_next_char_range(str, offset);\n            offset = range.end();\n            if (range.length != 2 || count == 0 || (str[range.offset] & 0xFE) != 0xCC)\n                ++count;")],
 'a two byte character in U+0300..U+037F that is no mark','a Greek letter such as U+0370 is not counted',
'''    CHECK(count_chars("a\\xCD\\xB0") == 2);'''),
('C09-cross','C09',[(AU,"            auto s = get_capped_codepoint_pos(str, start_index);\n            auto e = get_capped_codepoint_pos(str, end_index);\n            return {s, e > s ? e - s : 0};","            auto s = get_capped_codepoint_pos(str, start_index);\n            auto e = get_capped_codepoint_pos(str, end_index);\n            return {s, e < s ? str.size() - s : e - s};")],
 'a negative start behind a non-negative end','an empty substring becomes the tail of the string',
'''    CHECK(get_codepoint_substring("abcdefg", -2, 3) == "");'''),
('C10-skip','C10',[(AU,"        append(result, codepoint);\n        result.append(str.substr(offset));\n        return result;","        encode_utf8(codepoint, std::back_inserter(result));\n        result.append(str.substr(offset));\n        return result;"),(AU,'#include "AlgorithmUtilities.hpp"\n','#include "AlgorithmUtilities.hpp"\n#include "EncodeUtf8.hpp"\n')],
 'inserting a value above U+10FFFF','no exception, nothing is inserted',
'''    try { auto s = insert_codepoint("abc", 1, char32_t(0x110000)); CHECK(!"no exception"); } catch (std::exception&) {}'''),
('C11-whole','C11',[(AH,"if (n == 0 || std::distance(beg, end) < n)","if (n == 0 || std::distance(beg, end) <= n)")],
 'a pattern exactly as long as the searched part','the whole text is not found in itself backwards',
'''    CHECK(find_last("abc", "abc").length == 3);
    CHECK(find_last("abcd", "abc", 3).length == 3);'''),
('C12-crnel','C12',[(A,"ch == '\\n')\n            return {s.start()","(ch == '\\n' || ch == NEXT_LINE))\n            return {s.start()")],
 'CR directly followed by NEL','CR NEL is taken as one newline of three bytes',
'''    CHECK(find_first_newline("a\\r\\xC2\\x85").length == 1);'''),
('C13-overlap','C13',[(AU,"            it = match.first;","            it = match.first == begin ? match.first : match.first + (cmp.size() > 2);")],
 'a pattern of three or more bytes that overlaps itself, replaced from the end','overlapping occurrences are both replaced',
'''    CHECK(replace("xaba", "aba", "Q", -1) == "xQ");
    CHECK(replace("xababa", "aba", "Q", -2) == "xabQ");'''),
('C14-single','C14',[(H,"            result.append(delimiter);\n            result.append(*begin);","            if (!result.empty())\n                result.append(delimiter);\n            result.append(*begin);")],
 'joining strings the first of which are empty','no delimiter is put behind empty strings at the start',
"""    std::vector<string> v = {"", "", "a"};
    CHECK(join(v.begin(), v.end(), ",") == ",,a");"""),
('C15-tail','C15',[(H,"        auto [sub, ch] = find_last_where(str, [&](auto c) {return !pred(c);});\n        if (!sub)\n            return {};\n        return str.substr(0, sub.end());","        auto [sub, ch] = find_last_where(str, [&](auto c) {return !pred(c);});\n        if (!sub)\n            return {};\n        return str.substr(0, sub.length > 3 ? sub.start() + 3 : sub.end());")],
 'a kept last code point outside the BMP','the last byte of a four byte code point is trimmed off',
'''    CHECK(trim_end("a\\U0001F600  ") == "a\\U0001F600");'''),
('C16-sign','C16',[(CI,"        return static_cast<int32_t>(to_upper(lhs) - to_upper(rhs));","        return static_cast<int16_t>(to_upper(lhs) - to_upper(rhs));")],
 'code points that are 32768 or more apart','comparison wraps around for far apart code points',
'''    CHECK(case_insensitive::compare("\\uFF5F", "a") > 0);
    CHECK(case_insensitive::compare("a", "\\U00010061") < 0);'''),
('C17-len','C17',[(A,"                    if (b == cmp.begin())\n                        return {str.begin(), a, it_str};","                    if (b == cmp.begin())\n                        return {size_t(a - str.begin()), std::min<size_t>(cmp.size(), str.end() - a)};")],
 'an occurrence whose letters have another encoded length than those of the pattern','the length of the pattern is reported instead of that of the occurrence',
'''    CHECK(case_insensitive::find_last("x\\u0131y", "I").length == 2);'''),
('C18-entry','C18',[(UT,"{0x002C60, 0xFFFFFFFF, 0x00481502, 0xFFB7EA9D}","{0x002C60, 0xFFFFFFFF, 0x00481102, 0xFFB7EE9D}")],
 'one particular letter','U+2C6A has no upper case any more',
'''    CHECK(to_upper(char32_t(0x2C6A)) == 0x2C69);'''),
('C19-mark','C19',[(CC,"                append(result, ch);\n                preceded_by_letter = false;","                append(result, ch);\n                preceded_by_letter = preceded_by_letter && is_mark(ch);")],
 'a combining mark inside a word','a mark does not end a run of letters',
'''    CHECK(to_title("a\\u0301b") == "A\\u0301B");'''),
('C20-alt','C20',[(CL,"            if (((code_point ^ end_code_point) & 1u) != 0)","            if (((code_point ^ end_code_point) & 1u) != 0 && code_point != 0x1E01)")],
 'one particular letter','the class of U+1E01 is upper case letter',
'''    CHECK(get_char_class(0x1E01) == CharClass::LOWERCASE_LETTER && get_char_class(0x1E00) == CharClass::UPPERCASE_LETTER);'''),
('C20-white','C20',[(CP,"(c > 128 && (get_char_class(c) & CharClass::SEPARATOR) != 0)","(c > 0xA0 && (get_char_class(c) & CharClass::SEPARATOR) != 0)")],
 'the no-break space','U+00A0 is no white-space any more',
'''    CHECK(is_whitespace(0xA0));'''),
('C21-order','C21',[(N,"            std::reverse(str, str + i);","            std::reverse(str, str + (i > 3 ? i - 1 : i));")],
 'a code point that decomposes into four','the parts of a four part decomposition are in the wrong order',
'''    CHECK(decompose(0x1F82) == u32string({0x3B1, 0x313, 0x300, 0x345}));'''),
('C21-oob','C21',[(N,"                if (i + 1 == str_size)\n                    return {false, get_decomposed_size(ch)};","                if (i == str_size)\n                    return {false, get_decomposed_size(ch)};")],
 'a code point that decomposes into four, decomposed into a buffer of three','one code point is written behind the buffer',
'''    auto s = to_decomposed("\\u1F82");
    CHECK(s == "\\u03B1\\u0313\\u0300\\u0345");
    CHECK(decompose(0x1F82) == u32string({0x3B1, 0x313, 0x300, 0x345}));'''),
('C22-lost','C22',[(N,"        result.append(from, prev);\n        return result;","        result.append(from, prev == str.end() && from != str.begin() && size_t(prev - from) > 3 ? to : prev);\n        return result;")],
 'a composition followed, at the end of the text, by more than three bytes that do not combine','the last code point is lost',
'''    CHECK(to_composed("a\\u0301bcdef") == "\\u00E1bcdef");'''),
('C22-chain','C22',[(N,"                    ch = denorm;\n                    from = prev = to = it;\n                }","                    ch = denorm;\n                    from = prev = to = it;\n                    if (ch >= 0x1F00)\n                        break;\n                }")],
 'a chain of three combinations','the fourth code point of a chain replaces or loses its place',
'''    CHECK(to_composed("\\u03B1\\u0313\\u0300\\u0345") == "\\u1F82");'''),
('C23-signed','C23',[(ES,"            return static_cast<uint8_t>(c) < 32 || c == '\"'","            return (c < 32 && c > -3) || c == '\"'")],
 'bytes FE and FF','the bytes FE and FF count as control characters',
'''    CHECK(escape_json("\\xFF") == "\\xFF");'''),
('C24-low','C24',[(UN,"            auto ch2 = parse_escaped_hex_char(str2);\n            if (ch2 < 0xDC00 || 0xDFFF < ch2)\n                return {char32_t(ch), sub};","            auto ch2 = parse_escaped_hex_char(str2);\n            if (ch2 < 0xDC00)\n                return {char32_t(ch), sub};")],
 'a high surrogate followed by an escape above DFFF','a \\\\u sequence that is no low surrogate is taken as one',
'''    CHECK(unescape(string("\\\\uD83D\\\\uE000")) == "\\xED\\xA0\\xBD\\xEE\\x80\\x80");'''),
('C25-oct4','C25',[(UN,"        auto max_length = std::min(str.size(), size_t(3));","        auto max_length = std::min(str.size(), size_t(3 + (str[0] == '0')));")],
 'an octal escape starting with 0 and followed by a fourth octal digit','four octal digits are consumed',
'''    string_view s = "\\\\0123";
    CHECK(unescape_next(s) == char32_t(10));
    CHECK(s == "3");'''),
('C25-flag','C25',[(UN,"        if (str.empty())\n        {\n            if (did_unescape)\n                *did_unescape = false;\n            return {};","        if (str.empty())\n        {\n            return {};")],
 'an empty view with a flag that was set before','the flag keeps its old value at the end of the text',
'''    string_view s = "\\\\\\n"; bool f = true;
    CHECK(!unescape_next(s, &f));
    CHECK(!f);'''),
('C26-down','C26',[(CS,"            ranges.back().second = cp;\n        else","            ranges.back().second = cp;\n        else if (!ranges.empty() && ranges.back().first - 1 == cp)\n            ranges.back().first = cp;\n        else")],
 'a range starting at 0 followed by the value 0xFFFFFFFF','a set whose last range starts at 0 loses it',
'''    CodepointSet s;
    s.add_range(0, 5); s.add_codepoint(0xFFFFFFFF);
    CHECK(s.contains(3));'''),
('C26-short','C26',[(CS,"                               return !case_insensitive_less(cp, r.first)\n                                      && !case_insensitive_less(r.second, cp);","                               return !case_insensitive_less(cp, r.first)\n                                      && to_upper(cp) < to_upper(r.second);")],
 'the other case of the last code point of a range','the end of a range is not matched case-insensitively',
'''    CodepointSet s;
    s.add_range('a', 'k');
    CHECK(s.case_insensitive_contains('K'));'''),
]
