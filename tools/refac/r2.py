D='include/Ystring/DecodeUtf8.hpp'; A='src/Ystring/Algorithms.cpp'; AU='src/Ystring/AlgorithmUtilities.cpp'; AH='src/Ystring/AlgorithmUtilities.hpp'; E='src/Ystring/EncodeUtf8.hpp'
H='include/Ystring/Algorithms.hpp'; CC='src/Ystring/ConvertCase.cpp'; N='src/Ystring/Normalize.cpp'; UN='src/Ystring/Unescape.cpp'; ES='src/Ystring/Escape.cpp'
CS='src/Ystring/Char32Set.cpp'; TI='include/Ystring/TokenIterator.hpp'; CP='include/Ystring/CodepointPredicates.hpp'; CL='src/Ystring/CharClass.cpp'; U='src/Ystring/Utf32.cpp'
SPECS=[
('valid-ascii','C06',[(A,"""        while (it != end)
        {
            if (decode_next(it, end) == INVALID_CHAR)
                return false;
        }
        return true;""","""        for (;;)
        {
            while (it != end && uint8_t(*it) < 0x80)
                ++it;
            if (it == end)
                return true;
            if (decode_next(it, end) == INVALID_CHAR)
                return false;
        }""")]),
('count-word','C07',[(A,"""        size_t result = 0;
        while (skip_next(it, end))
            ++result;
        return result;""","""        size_t result = 0;
        while (end - it >= 8)
        {
            uint64_t word;
            std::memcpy(&word, &*it, 8);
            if (word & 0x8080808080808080ull)
                break;
            it += 8;
            result += 8;
        }
        while (skip_next(it, end))
            ++result;
        return result;"""),(A,'#include "Ystring/DecodeUtf8.hpp"','#include "Ystring/DecodeUtf8.hpp"\n#include <cstring>')]),
('count-ascii','C07',[(A,"""        while (skip_next(it, end))
            ++result;
        return result;""","""        while (it != end)
        {
            if (uint8_t(*it) < 0x80)
                ++it;
            else
                skip_next(it, end);
            ++result;
        }
        return result;""")]),
('ends-compare','C11',[(A,"""               && str.substr(str.size() - cmp.size()) == cmp;""","""               && str.compare(str.size() - cmp.size(), cmp.size(), cmp) == 0;""")]),
('starts-equal','C11',[(A,"""        return cmp.size() <= str.size() && str.substr(0, cmp.size()) == cmp;""","""        if (cmp.size() > str.size())
            return false;
        return std::equal(cmp.begin(), cmp.end(), str.begin());""")]),
('starts-loop','C11',[(A,"""        return cmp.size() <= str.size() && str.substr(0, cmp.size()) == cmp;""","""        if (cmp.size() > str.size())
            return false;
        for (size_t i = 0; i < cmp.size(); ++i)
        {
            if (str[i] != cmp[i])
                return false;
        }
        return true;""")]),
('first-newline-manual','C12',[(A,"""        auto [s, c] = find_first_of(str, NEWLINES, offset);
        if (c != '\\r')
            return s;""","""        auto [s, c] = find_first_where(str, [](char32_t ch) {
            return ('\\n' <= ch && ch <= '\\r') || ch == NEXT_LINE
                   || ch == LINE_SEPARATOR || ch == PARAGRAPH_SEPARATOR;
        }, offset);
        if (c != '\\r')
            return s;""")]),
('reverse-append','C08',[(A,"""            result.insert(result.end(),
                          str.begin() + range.start(),
                          str.begin() + range.end());""","""            result.append(str.substr(range.start(), range.length));"""),(A,"""        std::string result;
        size_t offset = str.size();
        while (offset != 0)""","""        std::string result;
        result.reserve(str.size());
        size_t offset = str.size();
        while (offset != 0)""")]),
('reverse-iters','C08',[(A,"""            auto range = get_prev_char_range(str, offset);
            offset = range.start();
            result.insert(result.end(),
                          str.begin() + range.start(),
                          str.begin() + range.end());""","""            const size_t end = offset;
            offset = get_prev_char_range(str, end).start();
            result += str.substr(offset, end - offset);""")]),
('next-char-loop','C08',[(A,"""        auto end = it;
        while (safe_decode_next(it, str.end(), codepoint)
               && is_mark(codepoint))
        {
            end = it;
        }

        return {offset, (end - str.begin()) - offset};""","""        while (true)
        {
            auto next = it;
            if (!safe_decode_next(next, str.end(), codepoint))
                break;
            if (!is_mark(codepoint))
                break;
            it = next;
        }

        return {str.begin(), str.begin() + offset, it};""")]),
('next-char-ascii','C08',[(A,"""        while (safe_decode_next(it, str.end(), codepoint)
               && is_mark(codepoint))
        {
            end = it;
        }

        return {offset,""","""        while (it != str.end() && uint8_t(*it) >= 0x80
               && safe_decode_next(it, str.end(), codepoint)
               && is_mark(codepoint))
        {
            end = it;
        }

        return {offset,""")]),
('replace-npos','C13',[(A,"""            auto it = str.begin();
            while (max_replacements-- > 0)
            {
                auto match = std::search(it, str.end(), from.begin(), from.end());
                if (match == str.end())
                    break;
                result.append(it, match);
                result.append(to);
                it = match + from.size();
            }
            if (it != str.end())
                result.append(it, str.end());""","""            size_t pos = 0;
            for (ptrdiff_t i = 0; i < max_replacements; ++i)
            {
                auto match = str.find(from, pos);
                if (match == std::string_view::npos)
                    break;
                result.append(str, pos, match - pos);
                result += to;
                pos = match + from.size();
            }
            result.append(str, pos);""")]),
('replace-consume','C13',[(A,"""            auto it = str.begin();
            while (max_replacements-- > 0)
            {
                auto match = std::search(it, str.end(), from.begin(), from.end());
                if (match == str.end())
                    break;
                result.append(it, match);
                result.append(to);
                it = match + from.size();
            }
            if (it != str.end())
                result.append(it, str.end());""","""            while (max_replacements > 0)
            {
                auto match = ystring::find_first(str, from);
                if (!match)
                    break;
                result.append(str.substr(0, match.start()));
                result.append(to);
                str.remove_prefix(match.end());
                --max_replacements;
            }
            result.append(str);""")]),
('repl-cp-trivial','C13',[(A,"""        return replace(str, std::string_view(f, f_size),""","""        if (max_replacements == 0 || str.size() < f_size)
            return std::string(str);
        return replace(str, std::string_view(f, f_size),""")]),
('repair-valid','C06',[(A,"""        char repl[4];
        auto repl_size = encode_utf8(chr, repl, 4);
        std::string result;
        auto it = str.begin();
        auto prev = it;
        auto end = str.end();
        while (it != end)
        {
            if (decode_next(it, end) != INVALID_CHAR)
                continue;
            result.append(prev, it);
            result.append(repl, repl_size);
            skip_next(it, end);
            prev = it;
        }
        result.append(prev, end);
        return result;""","""        char repl[4];
        auto repl_size = encode_utf8(chr, repl, 4);
        std::string result;
        auto it = str.begin();
        auto end = str.end();
        while (it != end)
        {
            auto prev = it;
            if (decode_next(it, end) != INVALID_CHAR)
            {
                result.append(prev, it);
            }
            else
            {
                result.append(repl, repl_size);
                skip_next(it, end);
            }
        }
        return result;""")]),
('ci-compare-diff','C16',[(A,"""                if (!has_s || !has_c)
                    return has_s == has_c ? 0 : (has_s ? 1 : -1);

                if (auto result""","""                if (!has_s || !has_c)
                    return int32_t(has_s) - int32_t(has_c);

                if (s_ch == c_ch)
                    continue;
                if (auto result""")]),
('ci-equal-compare','C16',[(A,"""            auto s_it = str.begin();
            auto c_it = cmp.begin();
            while (true)
            {
                char32_t s_ch;
                auto has_s = safe_decode_next(s_it, str.end(), s_ch);
                char32_t c_ch;
                auto has_c = safe_decode_next(c_it, cmp.end(), c_ch);
                if (!has_s || !has_c)
                    return has_s == has_c;

                if (!case_insensitive_equal(s_ch, c_ch))
                    return false;
            }""","""            return case_insensitive::compare(str, cmp) == 0;""")]),
('ci-starts','C16',[(A,"""            auto [it_str, it_cmp] = next_case_insensitive_mismatch(
                str.begin(), str.end(), cmp.begin(), cmp.end());
            return it_cmp == cmp.end();""","""            return next_case_insensitive_mismatch(
                       str.begin(), str.end(),
                       cmp.begin(), cmp.end()).second == cmp.end();""")]),
('trim-view','C15',[(A,"""        return trim_end(trim_start(str, chars), chars);""","""        const auto left = trim_start(str, chars);
        if (left.empty())
            return left;
        return trim_end(left, chars);""")]),
('contains-find','C12 C15',[(H,"XX","XX")]) if 0 else None,
]
SPECS=[s for s in SPECS if s]
SPECS += [
('decode-unrolled','C02 C05 C12',[(D,"""        if (n > std::distance(it, end))
        {
            --it;
            return INVALID_CHAR;
        }

        for (int i = 0; i < n; ++i)
        {
            result <<= 6u;
            if (auto c = uint8_t(*it); (c & 0xC0u) == 0x80)
            {
                result |= c & 0x3Fu;
            }
            else
            {
                for (int j = 0; j <= i; ++j)
                    --it;
                return INVALID_CHAR;
            }
            ++it;
        }

        return result;""","""        if (std::distance(it, end) < n)
        {
            --it;
            return INVALID_CHAR;
        }

        auto next = it;
        switch (n)
        {
        case 3:
            if ((uint8_t(*next) ^ 0x80u) >= 0x40)
                break;
            result = (result << 6u) | (uint8_t(*next++) ^ 0x80u);
            [[fallthrough]];
        case 2:
            if ((uint8_t(*next) ^ 0x80u) >= 0x40)
                break;
            result = (result << 6u) | (uint8_t(*next++) ^ 0x80u);
            [[fallthrough]];
        default:
            if ((uint8_t(*next) ^ 0x80u) >= 0x40)
                break;
            result = (result << 6u) | (uint8_t(*next++) ^ 0x80u);
            it = next;
            return result;
        }
        --it;
        return INVALID_CHAR;""")]),
('decode-table','C02',[(D,"""        char32_t result;
        int n = 0;
        if ((uint8_t(*it) & 0xE0u) == 0xC0)
        {
            result = uint8_t(*it++) & 0x1Fu;
            n = 1;
        }
        else if ((uint8_t(*it) & 0xF0u) == 0xE0)
        {
            result = uint8_t(*it++) & 0x0Fu;
            n = 2;
        }
        else if ((uint8_t(*it) & 0xF8u) == 0xF0)
        {
            result = uint8_t(*it++) & 0x07u;
            n = 3;
        }
        else
        {
            return INVALID_CHAR;
        }
""","""        static constexpr int8_t LENGTHS[32] = {
            0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
            -1, -1, -1, -1, -1, -1, -1, -1, 1, 1, 1, 1, 2, 2, 3, -1};
        const int n = LENGTHS[uint8_t(*it) >> 3u];
        if (n < 0)
            return INVALID_CHAR;
        char32_t result = uint8_t(*it++) & (0x3Fu >> n);
""")]),
('decodeprev-ptr','C03',[(D,"""        char32_t result = 0;
        unsigned n = 0;
        while ((uint8_t(*it) & 0xC0u) == 0x80)
        {
            if (it == begin || n == 3)
            {
                for (unsigned i = 0; i <= n; ++i)
                    ++it;
                return INVALID_CHAR;
            }
            result |= (uint8_t(*it) & 0x3Fu) << (n * 6u);
            ++n;
            --it;
        }

        auto c = uint8_t(*it);
        if ((c & 0xE0u) == 0xC0 && n == 1)
            return result | ((c & 0x1Fu) << 6u);
        else if ((c & 0xF0u) == 0xE0 && n == 2)
            return result | ((c & 0x0Fu) << 12u);
        else if ((c & 0xF8u) == 0xF0 && n == 3)
            return result | ((c & 0x07u) << 18u);

        for (unsigned i = 0; i <= n; ++i)
            ++it;
        return INVALID_CHAR;""","""        const BiIt last = std::next(it);
        BiIt start = it;
        for (int n = 0; n < 3 && start != begin && (uint8_t(*start) & 0xC0u) == 0x80; ++n)
            --start;
        BiIt tmp = start;
        const char32_t result = decode_next(tmp, last);
        if (result == INVALID_CHAR || tmp != last)
        {
            it = last;
            return INVALID_CHAR;
        }
        it = start;
        return result;""")]),
('skip-min','C04',[(D,"""        while (it != end && (uint8_t(*it) & 0xC0u) == 0x80 && n-- > 0)
            ++it;
""","""        for (; n != 0 && it != end; --n, ++it)
        {
            if ((uint8_t(*it) & 0xC0u) != 0x80)
                break;
        }
""")]),
('skip-split','C04',[(D,"""        else
            n = UINT32_MAX;

        while (it != end && (uint8_t(*it) & 0xC0u) == 0x80 && n-- > 0)
            ++it;
""","""        else
        {
            while (it != end && (uint8_t(*it) & 0xC0u) == 0x80)
                ++it;
            return true;
        }

        while (it != end && (uint8_t(*it) & 0xC0u) == 0x80 && n-- > 0)
            ++it;
""")]),
('skipprev-dist','C04',[(D,"""        if (m >= n + 1)
            return true;
        for (uint32_t i = 0; i < m; ++i)
            ++it;
        return true;""","""        if (n + 1 > m)
            std::advance(it, m);
        return true;""")]),
('encode-bytes','C01',[(E,"""            if (chr_length == 1)
            {
                *it++ = char(chr);
            }
            else if (chr_length != 0)
            {
                size_t shift = (chr_length - 1) * 6;
                *it++ = char((0xFFu << (8 - chr_length)) | (chr >> shift));
                for (size_t i = 1; i < chr_length; i++)
                {
                    shift -= 6;
                    *it++ = char(0x80u | ((chr >> shift) & 0x3Fu));
                }
            }
            return chr_length;""","""            switch (chr_length)
            {
            case 1:
                *it++ = char(chr);
                break;
            case 2:
                *it++ = char(0xC0u | (chr >> 6u));
                *it++ = char(0x80u | (chr & 0x3Fu));
                break;
            case 3:
                *it++ = char(0xE0u | (chr >> 12u));
                *it++ = char(0x80u | ((chr >> 6u) & 0x3Fu));
                *it++ = char(0x80u | (chr & 0x3Fu));
                break;
            case 4:
                *it++ = char(0xF0u | (chr >> 18u));
                *it++ = char(0x80u | ((chr >> 12u) & 0x3Fu));
                *it++ = char(0x80u | ((chr >> 6u) & 0x3Fu));
                *it++ = char(0x80u | (chr & 0x3Fu));
                break;
            default:
                break;
            }
            return chr_length;""")]),
('encode-rev','C01',[(E,"""                size_t shift = (chr_length - 1) * 6;
                *it++ = char((0xFFu << (8 - chr_length)) | (chr >> shift));
                for (size_t i = 1; i < chr_length; i++)
                {
                    shift -= 6;
                    *it++ = char(0x80u | ((chr >> shift) & 0x3Fu));
                }""","""                char bytes[4];
                for (size_t i = chr_length - 1; i > 0; --i)
                {
                    bytes[i] = char(0x80u | (chr & 0x3Fu));
                    chr >>= 6u;
                }
                bytes[0] = char((0xF00u >> chr_length) | chr);
                for (size_t i = 0; i < chr_length; ++i)
                    *it++ = bytes[i];""")]),
('utf32-reserve','C05',[(U,"""        auto it = str.begin();
        char32_t ch;
        while (safe_decode_next(it, str.end(), ch))
            result.push_back(ch);
        return result;""","""        result.reserve(str.size());
        while (auto ch = pop_utf8_codepoint(str))
            result.push_back(*ch);
        return result;""")]),
('utf8-index','C05 C01',[(U,"""        auto out = std::back_inserter(result);
        for (auto ch : str)
            encode_utf8(ch, out);
        return result;""","""        char buffer[4];
        for (size_t i = 0; i != str.size(); ++i)
            result.append(buffer, encode_utf8(str[i], buffer, sizeof(buffer)));
        return result;""")]),
('upper-ascii','C19',[(CC,"""            if (ch != U'ß')
                append(result, to_upper(ch));
            else
                result.append("SS");""","""            if (ch < 0x80)
                result.push_back(char('a' <= ch && ch <= 'z' ? ch - 32 : ch));
            else if (ch == U'ß')
                result += "SS";
            else
                append(result, to_upper(ch));""")]),
('title-ternary','C19',[(CC,"""            if (!is_letter(ch))
            {
                append(result, ch);
                preceded_by_letter = false;
            }
            else if (preceded_by_letter)
            {
                append(result, to_lower(ch));
            }
            else if (ch != U'ß')
            {
                append(result, to_title(ch));
                preceded_by_letter = true;
            }
            else
            {
                result.append("Ss");
                preceded_by_letter = true;
            }""","""            const bool letter = is_letter(ch);
            if (letter && !preceded_by_letter && ch == U'ß')
                result.append("Ss");
            else
                append(result, !letter ? ch : preceded_by_letter ? to_lower(ch) : to_title(ch));
            preceded_by_letter = letter;""")]),
('case-linear','C18',[(CC,"""            if (auto c = find_in_compact_mapping(compact, compact_size, codepoint))
                return *c;
            if (auto c = find_in_mapping(mapping, mapping_size, codepoint))
                return *c;
            return codepoint;""","""            auto c = find_in_compact_mapping(compact, compact_size, codepoint);
            if (!c)
                c = find_in_mapping(mapping, mapping_size, codepoint);
            return c.value_or(codepoint);""")]),
('escape-nibble','C23',[(ES,"""                result.append("u00");
                result.push_back(to_digit((str[sub.offset] & 0xF0u) >> 4u));
                result.push_back(to_digit(str[sub.offset] & 0xFu));
                break;""","""                {
                    static constexpr char HEX[] = "0123456789ABCDEF";
                    const auto c = uint8_t(str[sub.offset]);
                    const char esc[] = {'u', '0', '0', HEX[c >> 4u], HEX[c & 15u]};
                    result.append(esc, sizeof(esc));
                }
                break;""")]),
('escape-bytes','C23',[(ES,"""        size_t offset = 0;
        while (auto sub = find_first_escapable_char(str, offset))
        {
            result.append(str.begin() + offset, str.begin() + sub.offset);
            result.push_back('\\\\');
            switch(str[sub.offset])
            {""","""        for (const char ch : str)
        {
            if (uint8_t(ch) >= 32 && ch != '"' && ch != '\\\\')
            {
                result.push_back(ch);
                continue;
            }
            result.push_back('\\\\');
            switch (ch)
            {"""),(ES,"""                result.push_back(to_digit((str[sub.offset] & 0xF0u) >> 4u));
                result.push_back(to_digit(str[sub.offset] & 0xFu));""","""                result.push_back(to_digit((ch & 0xF0u) >> 4u));
                result.push_back(to_digit(ch & 0xFu));"""),(ES,"""            offset = sub.end();
        }
        result.append(str.begin() + offset, str.end());""","""        }""")]),
('hexparse-loop','C24',[(UN,"""            uint32_t value;
            auto res = std::from_chars(str.data() + 1,
                                       str.data() + str.size(),
                                       value, 8);
            if (res.ptr == str.data() + 1 || res.ec != std::errc())
            {
                YSTRING_THROW("Cannot parse escaped char: "
                              + std::string(str));
            }
            return char32_t(value);""","""            uint32_t value = 0;
            for (size_t i = 1; i < str.size(); ++i)
                value = value * 8 + uint32_t(str[i] - '0');
            return char32_t(value);""")]),
('unesc-table','C24',[(UN,"""            case 'a':
                ch = 0x07;
                break;
            case 'b':
                ch = 0x08;
                break;
            case 'f':
                ch = 0x0C;
                break;
            case 'n':
                ch = 0x0A;
                break;
            case 'r':
                ch = 0x0D;
                break;
            case 't':
                ch = 0x09;
                break;
            case 'v':
                ch = 0x0B;
                break;
            default:
                if ('0'""","""            default:
                if (auto p = std::string_view("abtnvfr").find(sv[sub.start() + 1]);
                    p != std::string_view::npos)
                    ch = char32_t(7 + p);
                else if ('0'""")]),
('next-ifs','C25',[(UN,"""        while (str.size() > 1 && str[0] == '\\\\' && str[1] == '\\n')
            str.remove_prefix(2);
""","""        while (str.substr(0, 2) == "\\\\\\n")
            str = str.substr(2);
""")]),
('decomp-recursive','C21',[(N,"""            size_t n = 1;
            auto [norm, mark] = find_decomposed(ch);
            while (mark)
            {
                ++n;
                std::tie(norm, mark) = find_decomposed(norm);
            }
            return n;""","""            auto [norm, mark] = find_decomposed(ch);
            return mark ? get_decomposed_size(norm) + 1 : 1;""")]),
('decomp-direct','C21',[(N,"""            if (size == 1)
            {
                // There's no point in re-encoding the character. We will
                // just copy it from the input string.
                to = it;
            }
            else
            {
                result.append(from, to);
                auto out = std::back_inserter(result);
                std::for_each(buffer.data(), buffer.data() + size,
                              [&](char32_t m) { encode_utf8(m, out); });
                from = to = it;
            }""","""            if (size != 1)
            {
                result.append(from, to);
                for (size_t i = 0; i < size; ++i)
                    encode_utf8(buffer[i], std::back_inserter(result));
                from = it;
            }
            to = it;""")]),
('comp-key','C22',[(N,"""            auto key = (uint64_t(ch) << 20u) | uint64_t(mark);
            auto it = std::lower_bound(std::begin(TO_COMPOSED),
                                       std::end(TO_COMPOSED),
                                       key << 20u);
            if (it == std::end(TO_COMPOSED) || (*it >> 20u) != key)
                return 0;
            return char32_t(*it & 0xFFFFFu);""","""            const uint64_t key = (uint64_t(ch) << 40u) + (uint64_t(mark) << 20u);
            auto it = std::lower_bound(std::begin(TO_COMPOSED),
                                       std::end(TO_COMPOSED), key);
            return it != std::end(TO_COMPOSED) && (*it ^ key) < 0x100000u
                   ? char32_t(*it & 0xFFFFFu) : 0;""")]),
('set-index','C26',[(CS,"""        return std::any_of(ranges.begin(), ranges.end(),
                           [&](auto& r) {return r.first <= cp && cp <= r.second;})
               != negated;""","""        for (size_t i = ranges.size(); i-- > 0;)
        {
            if (ranges[i].first <= cp && cp <= ranges[i].second)
                return !negated;
        }
        return negated;""")]),
('set-add','C26',[(CS,"""        if (!ranges.empty() && ranges.back().first <= ranges.back().second
            && ranges.back().second < cp && ranges.back().second + 1 == cp)
            ranges.back().second = cp;
        else
            add_range(cp, cp);""","""        if (!ranges.empty() && cp != 0)
        {
            auto& [first, last] = ranges.back();
            if (first <= last && last == cp - 1)
            {
                last = cp;
                return;
            }
        }
        ranges.push_back({cp, cp});""")]),
('listfind-loop','C12 C15',[(CS,"""        return std::find(span.begin(), span.end(), cp) != span.end();""","""        return std::any_of(span.begin(), span.end(), [cp](char32_t c) {return c == cp;});""")]),
('lastn-for','C13',[(AU,"""        while (true)
        {
            auto match = search_last(begin, it, cmp.begin(), cmp.end());
            if (match.first == match.second)
                break;
            result.emplace_back(match.first - begin, cmp.size());
            if (--max_count == 0)
                break;
            it = match.first;
        }
        return result;""","""        do
        {
            const auto match = search_last(begin, it, cmp.begin(), cmp.end());
            if (match.first == match.second)
                return result;
            it = match.first;
            result.push_back(Subrange(size_t(it - begin), cmp.size()));
        } while (result.size() != max_count);
        return result;""")]),
('subrange-insert','C10',[(AU,"""        std::string result;
        result.append(str.substr(0, range.start()));
        result.append(repl);
        result.append(str.substr(range.end()));
        return result;""","""        std::string result(str);
        result.replace(range.start(), range.length, repl);
        return result;""")]),
]
