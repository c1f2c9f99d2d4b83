D='include/Ystring/DecodeUtf8.hpp'; A='src/Ystring/Algorithms.cpp'; AU='src/Ystring/AlgorithmUtilities.cpp'; AH='src/Ystring/AlgorithmUtilities.hpp'; E='src/Ystring/EncodeUtf8.hpp'
H='include/Ystring/Algorithms.hpp'; CI='include/Ystring/CaseInsensitive.hpp'; CC='src/Ystring/ConvertCase.cpp'; N='src/Ystring/Normalize.cpp'; UN='src/Ystring/Unescape.cpp'; ES='src/Ystring/Escape.cpp'
CS='src/Ystring/Char32Set.cpp'; TI='include/Ystring/TokenIterator.hpp'; CP='include/Ystring/CodepointPredicates.hpp'; CL='src/Ystring/CharClass.cpp'; U='src/Ystring/Utf32.cpp'
SPECS=[
('decode-local','C02 C05',[(D,"""        for (int i = 0; i < n; ++i)
        {
            result <<= 6u;
            if (auto c = uint8_t(*it); (c & 0xC0u) == 0x80)
            {
                result |= c & 0x3Fu;
            }
            else
            {
                for (int j = 0; j <= i; ++j)
                    --it;
                return INVALID_CHAR;
            }
            ++it;
        }

        return result;""","""        auto pos = it;
        while (n-- > 0)
        {
            auto c = uint8_t(*pos);
            ++pos;
            if ((c & 0xC0u) != 0x80)
            {
                --it;
                return INVALID_CHAR;
            }
            result = (result << 6u) + (c & 0x3Fu);
        }

        it = pos;
        return result;""")]),
('decode-lead','C02',[(D,"""        char32_t result;
        int n = 0;
        if ((uint8_t(*it) & 0xE0u) == 0xC0)
        {
            result = uint8_t(*it++) & 0x1Fu;
            n = 1;
        }
        else if ((uint8_t(*it) & 0xF0u) == 0xE0)
        {
            result = uint8_t(*it++) & 0x0Fu;
            n = 2;
        }
        else if ((uint8_t(*it) & 0xF8u) == 0xF0)
        {
            result = uint8_t(*it++) & 0x07u;
            n = 3;
        }
        else
        {
            return INVALID_CHAR;
        }
""","""        const auto lead = uint8_t(*it);
        if (lead < 0xC0 || lead >= 0xF8)
            return INVALID_CHAR;
        const int n = lead < 0xE0 ? 1 : lead < 0xF0 ? 2 : 3;
        char32_t result = lead & (0x3Fu >> n);
        ++it;
""")]),
('decodeprev-for','C03',[(D,"""        char32_t result = 0;
        unsigned n = 0;
        while ((uint8_t(*it) & 0xC0u) == 0x80)
        {
            if (it == begin || n == 3)
            {
                for (unsigned i = 0; i <= n; ++i)
                    ++it;
                return INVALID_CHAR;
            }
            result |= (uint8_t(*it) & 0x3Fu) << (n * 6u);
            ++n;
            --it;
        }
""","""        char32_t result = 0;
        unsigned n = 0;
        for (; (uint8_t(*it) & 0xC0u) == 0x80; ++n, --it)
        {
            if (it == begin || n == 3)
            {
                std::advance(it, n + 1);
                return INVALID_CHAR;
            }
            result |= (uint8_t(*it) & 0x3Fu) << (n * 6u);
        }
"""),(D,"""        for (unsigned i = 0; i <= n; ++i)
            ++it;
        return INVALID_CHAR;
    }

    template <typename FwdIt>""","""        std::advance(it, n + 1);
        return INVALID_CHAR;
    }

    template <typename FwdIt>""")]),
('skip-helper','C04 C06 C07',[(D,"""    template <typename FwdIt>
    bool skip_next(FwdIt& it, FwdIt end)
    {
        if (it == end)
            return false;

        auto c = uint8_t(*it++);

        if ((c & 0x80u) == 0)
            return true;

        uint32_t n;
        if ((c & 0xE0u) == 0xC0)
            n = 1;
        else if ((c & 0xF0u) == 0xE0)
            n = 2;
        else if ((c & 0xF8u) == 0xF0)
            n = 3;
        else
            n = UINT32_MAX;

        while (it != end && (uint8_t(*it) & 0xC0u) == 0x80 && n-- > 0)
            ++it;

        return true;
    }
""","""    namespace detail
    {
        inline uint32_t get_length_of_unit(uint8_t c)
        {
            if ((c & 0x80u) == 0)
                return 1;
            if ((c & 0xE0u) == 0xC0)
                return 2;
            if ((c & 0xF0u) == 0xE0)
                return 3;
            if ((c & 0xF8u) == 0xF0)
                return 4;
            return UINT32_MAX;
        }
    }

    template <typename FwdIt>
    bool skip_next(FwdIt& it, FwdIt end)
    {
        if (it == end)
            return false;

        auto n = detail::get_length_of_unit(uint8_t(*it++));
        for (; n > 1 && it != end && (uint8_t(*it) & 0xC0u) == 0x80; --n)
            ++it;

        return true;
    }
"""),(D,"""        auto c = uint8_t(*it);
        uint32_t m;
        if ((c & 0x80u) == 0)
            m = 1;
        else if ((c & 0xE0u) == 0xC0)
            m = 2;
        else if ((c & 0xF0u) == 0xE0)
            m = 3;
        else if ((c & 0xF8u) == 0xF0)
            m = 4;
        else
            m = UINT32_MAX;

        if (m >= n + 1)
            return true;
        for (uint32_t i = 0; i < m; ++i)
            ++it;
        return true;""","""        auto m = detail::get_length_of_unit(uint8_t(*it));
        if (m <= n)
            std::advance(it, m);
        return true;""")]),
('encode-switch','C01',[(E,"""            if (chr_length == 1)
            {
                *it++ = char(chr);
            }
            else if (chr_length != 0)
            {
                size_t shift = (chr_length - 1) * 6;
                *it++ = char((0xFFu << (8 - chr_length)) | (chr >> shift));
                for (size_t i = 1; i < chr_length; i++)
                {
                    shift -= 6;
                    *it++ = char(0x80u | ((chr >> shift) & 0x3Fu));
                }
            }
            return chr_length;""","""            switch (chr_length)
            {
            case 1:
                *it++ = char(chr);
                break;
            case 2:
                *it++ = char(0xC0u | (chr >> 6u));
                *it++ = char(0x80u | (chr & 0x3Fu));
                break;
            case 3:
                *it++ = char(0xE0u | (chr >> 12u));
                *it++ = char(0x80u | ((chr >> 6u) & 0x3Fu));
                *it++ = char(0x80u | (chr & 0x3Fu));
                break;
            case 4:
                *it++ = char(0xF0u | (chr >> 18u));
                *it++ = char(0x80u | ((chr >> 12u) & 0x3Fu));
                *it++ = char(0x80u | ((chr >> 6u) & 0x3Fu));
                *it++ = char(0x80u | (chr & 0x3Fu));
                break;
            default:
                break;
            }
            return chr_length;""")]),
('append-early','C01 C19',[(A,"""        if (encode_utf8(chr, std::back_inserter(str)))
            return str;
        YSTRING_THROW("Invalid code point: " + std::to_string(size_t(chr)));""","""        char buffer[4];
        auto size = encode_utf8(chr, buffer, 4);
        if (size == 0)
            YSTRING_THROW("Invalid code point: " + std::to_string(size_t(chr)));
        return str.append(buffer, size);""")]),
('utf32-for','C05',[(U,"""        std::u32string result;
        auto it = str.begin();
        char32_t ch;
        while (safe_decode_next(it, str.end(), ch))
            result.push_back(ch);
        return result;""","""        std::u32string result;
        result.reserve(str.size());
        auto it = str.begin();
        const auto end = str.end();
        for (char32_t ch; safe_decode_next(it, end, ch);)
            result += ch;
        return result;""")]),
('repl-invalid','C06',[(A,"""        while (it != end)
        {
            if (decode_next(it, end) != INVALID_CHAR)
                continue;
            result.append(prev, it);
            result.append(repl, repl_size);
            skip_next(it, end);
            prev = it;
        }
        result.append(prev, end);
        return result;""","""        while (it != end)
        {
            if (decode_next(it, end) == INVALID_CHAR)
            {
                if (prev != it)
                    result.append(prev, it);
                result.append(repl, repl_size);
                skip_next(it, end);
                prev = it;
            }
        }
        if (prev != end)
            result.append(prev, end);
        return result;""")]),
('count-chars','C08',[(A,"""        size_t count = 0;
        size_t offset = 0;
        while (offset != str.size())
        {
            auto range = get_next_char_range(str, offset);
            offset = range.end();
            ++count;
        }
        return count;""","""        size_t count = 0;
        for (size_t offset = 0; offset < str.size(); ++count)
            offset = get_next_char_range(str, offset).end();
        return count;""")]),
('charpos-split','C08 C10',[(A,"""        size_t offset;
        if (pos >= 0)
        {
            offset = 0;
            while (pos-- > 0)
            {
                auto range = get_next_char_range(str, offset);
                if (!range)
                    return std::string_view::npos;
                offset = range.end();
            }
        }
        else
        {
            offset = str.size();
            while (pos++ < 0)
            {
                auto range = get_prev_char_range(str, offset);
                if (!range)
                    return std::string_view::npos;
                offset = range.start();
            }
        }

        return offset;""","""        if (pos < 0)
        {
            size_t offset = str.size();
            for (; pos < 0; ++pos)
            {
                if (offset == 0)
                    return std::string_view::npos;
                offset = get_prev_char_range(str, offset).start();
            }
            return offset;
        }

        size_t offset = 0;
        for (ptrdiff_t i = 0; i < pos; ++i)
        {
            if (offset == str.size())
                return std::string_view::npos;
            offset = get_next_char_range(str, offset).end();
        }
        return offset;""")]),
('slice-order','C09',[(AU,"""        if (start_index >= 0 && end_index >= 0)
        {
            auto s = get_capped_codepoint_pos(str, start_index);
            auto e = get_capped_codepoint_pos(str.substr(s), end_index - start_index);
            return {s, e};
        }
        else if (start_index < 0 && end_index < 0)
        {
            auto e = get_capped_codepoint_pos(str, end_index);
            auto s = start_index == end_index
                     ? e
                     : get_capped_codepoint_pos(str.substr(0, e), start_index - end_index);
            return {s, e - s};
        }
        else if (start_index >= 0 && end_index < 0)
        {
            auto s = get_capped_codepoint_pos(str, start_index);
            auto e = get_capped_codepoint_pos(str.substr(s), end_index);
            return {s, e};
        }
        else
        {
            auto s = get_capped_codepoint_pos(str, start_index);
            auto e = get_capped_codepoint_pos(str, end_index);
            return {s, e > s ? e - s : 0};
        }""","""        if (start_index >= 0)
        {
            auto s = get_capped_codepoint_pos(str, start_index);
            auto rest = str.substr(s);
            if (end_index >= 0)
                end_index -= start_index;
            return {s, get_capped_codepoint_pos(rest, end_index)};
        }
        if (end_index >= 0)
        {
            auto e = get_capped_codepoint_pos(str, end_index);
            auto s = get_capped_codepoint_pos(str, start_index);
            if (e <= s)
                return {s, 0};
            return {s, e - s};
        }
        auto e = get_capped_codepoint_pos(str, end_index);
        auto s = e;
        if (start_index != end_index)
            s = get_capped_codepoint_pos(str.substr(0, e), start_index - end_index);
        return {s, e - s};""")]),
('slice-abs','C09',[(AU,"""            auto s = get_capped_codepoint_pos(str, start_index);
            auto e = get_capped_codepoint_pos(str.substr(s), end_index - start_index);
            return {s, e};
        }
        else if (start_index < 0 && end_index < 0)""","""            auto s = get_capped_codepoint_pos(str, start_index);
            auto e = get_capped_codepoint_pos(str, end_index);
            return {s, e - s};
        }
        else if (start_index < 0 && end_index < 0)""")]),
('insert-reserve','C10',[(AU,"""        std::string result(str.substr(0, offset));
        append(result, codepoint);
        result.append(str.substr(offset));
        return result;""","""        std::string result;
        result.reserve(str.size() + 4);
        result.append(str.data(), offset);
        append(result, codepoint);
        result.append(str.data() + offset, str.size() - offset);
        return result;""")]),
('search-last-for','C11 C13',[(AH,"""        BiIt it = std::prev(end, n);
        while (true)
        {
            auto its = std::mismatch(it, end, cmpBeg, cmpEnd);
            if (its.second == cmpEnd)
                return {it, its.first};
            if (it == beg)
                break;
            --it;
        }
        return {beg, beg};""","""        for (BiIt it = std::prev(end, n);; --it)
        {
            if (std::equal(cmpBeg, cmpEnd, it))
                return {it, std::next(it, n)};
            if (it == beg)
                return {beg, beg};
        }""")]),
('find-first-find','C11 C13',[(A,"""        auto it = std::search(str.begin() + offset, str.end(),
                              cmp.begin(), cmp.end());
        if (it == str.end())
            return {str.size(), 0};
        return {size_t(it - str.begin()), cmp.size()};""","""        auto pos = str.find(cmp, offset);
        if (pos == std::string_view::npos || pos == str.size())
            return {str.size(), 0};
        return {pos, cmp.size()};""")]),
('newline-if','C12',[(A,"""        if (c != '\\r')
            return s;
        auto it = str.begin() + s.end();
        char32_t ch;
        if (safe_decode_next(it, str.end(), ch) && ch == '\\n')
            return {s.start(), (it - str.begin()) - s.start()};
        return s;""","""        if (c == '\\r' && s.end() < str.size())
        {
            auto it = str.begin() + s.end();
            char32_t next_char;
            safe_decode_next(it, str.end(), next_char);
            if (next_char == '\\n')
                return {s.start(), size_t(it - str.begin()) - s.start()};
        }
        return s;""")]),
('contains-for','C12',[(A,"""        auto it = str.begin(), end = str.end();
        char32_t ch;
        while (safe_decode_next(it, end, ch))
        {
            if (ch == chr)
                return true;
        }
        return false;""","""        auto it = str.begin();
        bool found = false;
        for (char32_t ch; !found && safe_decode_next(it, str.end(), ch);)
            found = ch == chr;
        return found;""")]),
('replace-find','C13',[(A,"""            auto it = str.begin();
            while (max_replacements-- > 0)
            {
                auto match = std::search(it, str.end(), from.begin(), from.end());
                if (match == str.end())
                    break;
                result.append(it, match);
                result.append(to);
                it = match + from.size();
            }
            if (it != str.end())
                result.append(it, str.end());""","""            size_t pos = 0;
            for (ptrdiff_t i = 0; i < max_replacements; ++i)
            {
                auto match = find_first(str, from, pos);
                if (!match)
                    break;
                result.append(str.substr(pos, match.offset - pos));
                result.append(to);
                pos = match.end();
            }
            result.append(str.substr(pos));""")]),
('split-do','C14',[(H,"""        while (result.size() < params.max_splits && it.next())
        {
            auto part = it.part();
            if (!params.ignore_empty || !part.empty())
                result.push_back(part);
        }""","""        for (; result.size() < params.max_splits; )
        {
            if (!it.next())
                break;
            const auto part = it.part();
            if (params.ignore_empty && part.empty())
                continue;
            result.push_back(part);
        }""")]),
('trim-start','C15',[(H,"""        auto [sub, ch] = find_first_where(str, [&](auto c) {return !pred(c);});
        if (!sub)
            return {};
        return str.substr(sub.start());""","""        auto it = str.begin(), start = it;
        char32_t ch;
        while (safe_decode_next(it, str.end(), ch))
        {
            if (!pred(ch))
            {
                str.remove_prefix(start - str.begin());
                return str;
            }
            start = it;
        }
        return {};""")]),
('ci-equal','C16',[(A,"""                if (!has_s || !has_c)
                    return has_s == has_c;

                if (!case_insensitive_equal(s_ch, c_ch))
                    return false;""","""                if (has_s != has_c)
                    return false;
                if (!has_s)
                    return true;
                if (case_insensitive_equal(s_ch, c_ch))
                    continue;
                return false;""")]),
('ci-less','C16',[(A,"""        bool less(std::string_view str, std::string_view cmp)
        {
            auto s_it = str.begin();
            auto c_it = cmp.begin();
            while (true)
            {
                char32_t s_ch;
                auto has_s = safe_decode_next(s_it, str.end(), s_ch);
                char32_t c_ch;
                auto has_c = safe_decode_next(c_it, cmp.end(), c_ch);
                if (!has_s || !has_c)
                    return !has_s && has_c;

                if (auto result = case_insensitive_compare(s_ch, c_ch))
                    return result < 0;
            }
        }""","""        bool less(std::string_view str, std::string_view cmp)
        {
            return case_insensitive::compare(str, cmp) < 0;
        }""")]),
('ci-replace','C17',[(A,"""                while (max_replacements-- > 0)
                {
                    auto match = find_first(str, from);
                    if (!match)
                        break;
                    result.append(str.substr(0, match.start()));
                    result.append(to);
                    str = str.substr(match.end());
                }

                if (!str.empty())
                    result.append(str);""","""                size_t pos = 0;
                for (; max_replacements > 0; --max_replacements)
                {
                    auto match = find_first(str, from, pos);
                    if (!match)
                        break;
                    result.append(str, pos, match.start() - pos);
                    result.append(to);
                    pos = match.end();
                }
                result.append(str, pos);""")]),
('case-convert','C18',[(CC,"""            const auto* set = std::lower_bound(
                mapping,
                mapping + mapping_size,
                CompactCharMapping{codepoint & SEGMENT_MASK},
                [](auto& a, auto& b){return a.segment < b.segment;});

            if (set == mapping + mapping_size ||
                set->segment != (codepoint & SEGMENT_MASK))
                return {};

            return set->get(codepoint);""","""            const auto segment = codepoint & SEGMENT_MASK;
            const auto* end = mapping + mapping_size;
            const auto* set = std::lower_bound(
                mapping, end, segment,
                [](auto& a, char32_t b){return a.segment < b;});

            if (set != end && set->segment == segment)
                return set->get(codepoint);
            return std::nullopt;""")]),
('title-state','C19',[(CC,"""            if (!is_letter(ch))
            {
                append(result, ch);
                preceded_by_letter = false;
            }
            else if (preceded_by_letter)
            {
                append(result, to_lower(ch));
            }
            else if (ch != U'ß')
            {
                append(result, to_title(ch));
                preceded_by_letter = true;
            }
            else
            {
                result.append("Ss");
                preceded_by_letter = true;
            }""","""            const bool letter = is_letter(ch);
            if (letter && !preceded_by_letter && ch == U'ß')
                result.append("Ss");
            else if (!letter)
                append(result, ch);
            else
                append(result, preceded_by_letter ? to_lower(ch) : to_title(ch));
            preceded_by_letter = letter;""")]),
('class-swap','C20',[(CL,"""            if (code_point == end_code_point)
                return lower_char_class - 1;
            return upper_char_class - 1;""","""            return (code_point == end_code_point ? lower_char_class
                                                 : upper_char_class) - 1;""")]),
('decomp-vector','C21',[(N,"""            size_t i = 0;
            str[i++] = mark2;
            while (mark)
            {
                if (i + 1 == str_size)
                    return {false, get_decomposed_size(ch)};
                str[i++] = mark;
                std::tie(norm, mark) = find_decomposed(norm);
            }
            str[i++] = norm;""","""            size_t i = 0;
            str[i] = mark2;
            ++i;
            do
            {
                if (i + 2 > str_size)
                    return {false, get_decomposed_size(ch)};
                str[i] = mark;
                ++i;
                std::tie(norm, mark) = find_decomposed(norm);
            }
            while (mark != 0);
            str[i] = norm;
            ++i;""")]),
('comp-simple','C22',[(N,"""                    denorm = find_composed(ch, mark);
                    if (denorm == 0)
                        break;

                    ch = denorm;
                    from = prev = to = it;
                }""","""                    if (auto next = find_composed(ch, mark))
                    {
                        ch = next;
                        to = from = it;
                        continue;
                    }
                    break;
                }""")]),
('escape-table','C23',[(ES,"""            result.append(str.begin() + offset, str.begin() + sub.offset);
            result.push_back('\\\\');
            switch(str[sub.offset])""","""            result.append(str.substr(offset, sub.start() - offset));
            result += '\\\\';
            const char c = str[sub.offset];
            switch(c)""")]),
('escape-find','C23',[(ES,"""        auto it = std::find_if(str.begin() + offset, str.end(), [](auto c)
        {
            return static_cast<uint8_t>(c) < 32 || c == '"' || c == '\\\\';
        });
        return {size_t(it - str.begin()), size_t(it == str.end() ? 0 : 1)};""","""        for (; offset < str.size(); ++offset)
        {
            const auto c = str[offset];
            if ((0 <= c && c <= 0x1F) || c == '"' || c == '\\\\')
                return {offset, 1};
        }
        return {str.size(), 0};""")]),
('unescape-order','C24 C23',[(UN,"""            auto sub = find_first_escaped_char(sv, from);
            if (from != to)
                std::copy(str + from, str + sub.start(), str + to);
            to += sub.start() - from;

            if (!sub)
                break;
""","""            auto sub = find_first_escaped_char(sv, from);
            const auto start = sub.start();
            if (from < start)
            {
                if (to < from)
                    std::copy(str + from, str + start, str + to);
                to += start - from;
            }

            if (sub.length == 0)
                break;
""")]),
('utf16-nest','C24',[(UN,"""            if (ch < 0xD800 || 0xDBFF < ch)
                return {char32_t(ch), sub};

            // Look""","""            if ((ch & ~0x3FFu) != 0xD800)
                return {ch, sub};

            // Look""")]),
('next-oct','C25',[(UN,"""        auto max_length = std::min(str.size(), size_t(3));
        uint32_t value;
        auto res = std::from_chars(str.data(),
                                   str.data() + max_length,
                                   value, 8);
        auto length = res.ptr - str.data();
        if (length == 0)
        {
            YSTRING_THROW("Invalid octal escape sequence.");
        }

        str.remove_prefix(length);
        return char32_t(value);""","""        uint32_t value = 0;
        size_t length = 0;
        while (length < 3 && length < str.size()
               && '0' <= str[length] && str[length] <= '7')
        {
            value = value * 8 + uint32_t(str[length] - '0');
            ++length;
        }
        if (length == 0)
            YSTRING_THROW("Invalid octal escape sequence.");

        str.remove_prefix(length);
        return char32_t(value);""")]),
('set-loop','C26',[(CS,"""        return std::any_of(ranges.begin(), ranges.end(),
                           [&](auto& r) {return r.first <= cp && cp <= r.second;})
               != negated;""","""        for (auto& r : ranges)
        {
            if (r.first <= cp && cp <= r.second)
                return !negated;
        }
        return negated;""")]),
]
