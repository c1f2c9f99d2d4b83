D='include/Ystring/DecodeUtf8.hpp'; A='src/Ystring/Algorithms.cpp'; AU='src/Ystring/AlgorithmUtilities.cpp'; E='src/Ystring/EncodeUtf8.hpp'
H='include/Ystring/Algorithms.hpp'; CC='src/Ystring/ConvertCase.cpp'; N='src/Ystring/Normalize.cpp'; UN='src/Ystring/Unescape.cpp'; ES='src/Ystring/Escape.cpp'
CS='src/Ystring/Char32Set.cpp'; TI='include/Ystring/TokenIterator.hpp'; CP='include/Ystring/CodepointPredicates.hpp'; CL='src/Ystring/CharClass.cpp'; U='src/Ystring/Utf32.cpp'
SPECS=[
('charpos-for','C08',[(A,"""            offset = 0;
            while (pos-- > 0)
            {
                auto range = get_next_char_range(str, offset);
                if (!range)
                    return std::string_view::npos;
                offset = range.end();
            }""","""            offset = 0;
            for (ptrdiff_t i = 0; i < pos; ++i)
            {
                const auto range = get_next_char_range(str, offset);
                if (range.length == 0)
                    return std::string_view::npos;
                offset += range.length;
            }""")]),
('getcp-viapos','C07',[(A,"""            auto it = str.begin();
            while (pos > 0 && skip_next(it, str.end()))
                --pos;
            char32_t ch;
            auto prev = it;""","""            const auto offset = get_codepoint_pos(str, pos);
            if (offset == std::string_view::npos)
                return {{str.size(), 0}, INVALID_CHAR};
            auto it = str.begin() + offset;
            char32_t ch;
            auto prev = it;""")]),
('cppos-nocheck','C07',[(A,"""        if (pos > ptrdiff_t(str.size()) || pos < -ptrdiff_t(str.size()))
            return std::string_view::npos;
        if (pos >= 0)
        {
            auto it = str.begin();
            while (pos > 0 && skip_next(it, str.end()))
                --pos;
            if (pos == 0)
                return size_t(it - str.begin());
        }""","""        if (pos >= 0)
        {
            auto it = str.begin();
            for (; pos != 0; --pos)
            {
                if (!skip_next(it, str.end()))
                    return std::string_view::npos;
            }
            return size_t(it - str.begin());
        }""")]),
('prevchar-do','C08',[(A,"""        while (safe_decode_prev(str.begin(), it, codepoint)
               && is_mark(codepoint))
        {
        }

        auto start""","""        bool more;
        do
        {
            more = safe_decode_prev(str.begin(), it, codepoint);
        } while (more && is_mark(codepoint));

        auto start""")]),
('nextchar-for','C08',[(A,"""        auto end = it;
        while (safe_decode_next(it, str.end(), codepoint)
               && is_mark(codepoint))
        {
            end = it;
        }

        return {offset, (end - str.begin()) - offset};""","""        for (;;)
        {
            const auto end = it;
            if (!safe_decode_next(it, str.end(), codepoint) || !is_mark(codepoint))
                return {str.begin(), str.begin() + offset, end};
        }""")]),
('valid-break','C06',[(A,"""        while (it != end)
        {
            if (decode_next(it, end) == INVALID_CHAR)
                return false;
        }
        return true;""","""        bool ok = true;
        while (ok && it != end)
            ok = decode_next(it, end) != INVALID_CHAR;
        return ok;""")]),
('replace-back-index','C13',[(A,"""            for (auto it = matches.rbegin(); it != matches.rend(); ++it)
            {
                if (it->offset != prev)
                    result.append(str.substr(prev, it->offset - prev));
                result.append(to);
                prev = it->end();
            }
            if (prev != str.size())
                result.append(str.substr(prev, str.size()));
        }
        return result;
    }

    std::string
    replace_chars""","""            for (size_t i = matches.size(); i-- > 0;)
            {
                const auto& m = matches[i];
                result.append(str.substr(prev, m.offset - prev));
                result.append(to);
                prev = m.end();
            }
            result.append(str.substr(prev));
        }
        return result;
    }

    std::string
    replace_chars""")]),
('replcp-helper','C13',[(A,"""        if (!f_size)
            YSTRING_THROW("Invalid from-code point: "
                          + std::to_string(uint32_t(from)));
        if (!t_size)
            YSTRING_THROW("Invalid to-code point: "
                          + std::to_string(uint32_t(to)));
        return replace(str, std::string_view(f, f_size),
                       std::string_view(t, t_size), max_replacements);""","""        auto check = [](size_t size, char32_t c, const char* what)
        {
            if (size == 0)
                YSTRING_THROW("Invalid " + std::string(what) + "-code point: "
                              + std::to_string(uint32_t(c)));
        };
        check(f_size, from, "from");
        check(t_size, to, "to");
        const std::string_view fv(f, f_size), tv(t, t_size);
        return replace(str, fv, tv, max_replacements);""")]),
('lastof-inline','C12',[(A,"""        return find_last_where(
            str,
            [&](auto c) {return chars.contains(c);},
            offset);
    }

    Subrange""" if 0 else """    Subrange find_last_newline(std::string_view str, size_t offset)
    {
        auto[s, c] = find_last_of(str, NEWLINES, offset);
        if (c != '\\n')
            return s;
        auto it = str.begin() + s.start();
        char32_t ch;
        if (safe_decode_prev(str.begin(), it, ch) && ch == '\\r')
            return {str.begin(), it, str.begin() + s.end()};
        return s;
    }""","""    Subrange find_last_newline(std::string_view str, size_t offset)
    {
        auto[s, c] = find_last_of(str, NEWLINES, offset);
        if (c == '\\n')
        {
            std::string_view before = str.substr(0, s.start());
            if (!before.empty() && pop_last_utf8_codepoint(before) == U'\\r')
                return Subrange(before.size(), s.end() - before.size());
        }
        return s;
    }""")]),
('join-first','C14',[(H,"""        if (begin == end)
            return {};
        std::string result(*begin);
        while (++begin != end)
        {
            result.append(delimiter);
            result.append(*begin);
        }
        return result;""","""        std::string result;
        bool first = true;
        for (; begin != end; ++begin)
        {
            if (!first)
                result.append(delimiter);
            result.append(*begin);
            first = false;
        }
        return result;""")]),
('split-add','C14',[(H,"""        TokenIterator it(str, finder);
        while (result.size() < params.max_splits && it.next())
        {
            auto part = it.part();
            if (!params.ignore_empty || !part.empty())
                result.push_back(part);
        }
        if (it || params.max_splits == 0)
        {
            auto remainder = it.remainder();
            if (!params.ignore_empty || !remainder.empty())
                result.push_back(it.remainder());
        }""","""        auto add = [&](std::string_view part)
        {
            if (part.empty() && params.ignore_empty)
                return;
            result.push_back(part);
        };
        TokenIterator it(str, finder);
        while (result.size() < params.max_splits && it.next())
            add(it.part());
        if (it || params.max_splits == 0)
            add(it.remainder());""")]),
('token-part','C14',[(TI,"""            if (m_token)
                return m_str.substr(0, m_token.start());
            else if (m_token.start() != 0)
                return m_str;
            else
                return {};""","""            if (!m_token)
                return m_token.start() == 0 ? std::string_view() : m_str;
            auto result = m_str;
            result.remove_suffix(m_str.size() - m_token.start());
            return result;"""),(TI,"""            if (m_token)
                m_str = m_str.substr(m_token.end());
            else if""","""            if (m_token)
                m_str.remove_prefix(m_token.end());
            else if""")]),
('trim-where-direct','C15',[(H,"""        return trim_end_where(trim_start_where(str, pred), pred);""","""        auto not_pred = [&](auto c) {return !pred(c);};
        auto first = find_first_where(str, not_pred).first;
        if (!first)
            return {};
        auto last = find_last_where(str, not_pred).first;
        return str.substr(first.start(), last.end() - first.start());""")]),
('slice-template','C09',[(AU,"""            auto e = get_capped_codepoint_pos(str, end_index);
            auto s = start_index == end_index
                     ? e
                     : get_capped_codepoint_pos(str.substr(0, e), start_index - end_index);
            return {s, e - s};""","""            auto e = get_capped_codepoint_pos(str, end_index);
            if (start_index == end_index)
                return {e, 0};
            auto s = get_capped_codepoint_pos(str.substr(0, e), start_index - end_index);
            return {s, e - s};"""),(AU,"""            auto s = get_capped_codepoint_pos(str, start_index);
            auto e = get_capped_codepoint_pos(str, end_index);
            return {s, e > s ? e - s : 0};""","""            auto s = get_capped_codepoint_pos(str, start_index);
            auto e = std::max(s, get_capped_codepoint_pos(str, end_index));
            return Subrange(s, e - s);""")]),
('lower-binary','C18',[(CC,"""            const auto* it = std::lower_bound(
                mapping,
                mapping + mapping_size,
                CharMapping{codepoint},
                [](const auto& a, const auto& b)
                {return a.from_codepoint < b.from_codepoint;});
            if (it == mapping + mapping_size || it->from_codepoint != codepoint)
                return {};

            return it->to_codepoint;""","""            size_t lo = 0, hi = mapping_size;
            while (lo < hi)
            {
                const size_t mid = lo + (hi - lo) / 2;
                if (mapping[mid].from_codepoint < codepoint)
                    lo = mid + 1;
                else
                    hi = mid;
            }
            if (lo == mapping_size || mapping[lo].from_codepoint != codepoint)
                return {};
            return mapping[lo].to_codepoint;""")]),
('lower-shared','C19',[(CC,"""    std::string to_lower(std::string_view str)
    {
        std::string result;
        result.reserve(str.size());
        auto it = str.begin();
        char32_t ch;
        while (safe_decode_next(it, str.end(), ch))
            append(result, to_lower(ch));
        return result;
    }""","""    namespace
    {
        template <typename F>
        std::string convert_each(std::string_view str, F convert_one)
        {
            std::string result;
            result.reserve(str.size());
            const auto end = str.end();
            char32_t ch;
            for (auto it = str.begin(); safe_decode_next(it, end, ch);)
                append(result, convert_one(ch));
            return result;
        }
    }

    std::string to_lower(std::string_view str)
    {
        return convert_each(str, [](char32_t c) {return to_lower(c);});
    }""")]),
('class-if','C20',[(CL,"""            if (upper_char_class == 0x20)
            {
                if (((code_point ^ end_code_point) & 1u) != 0)
                    return 1 - (lower_char_class - 1);
                return lower_char_class - 1;
            }
            if (code_point == end_code_point)
                return lower_char_class - 1;
            return upper_char_class - 1;""","""            const bool alternating = upper_char_class == 0x20;
            const bool odd = (code_point & 1u) != (end_code_point & 1u);
            if (alternating)
                return odd ? 2 - lower_char_class : lower_char_class - 1;
            return (code_point == end_code_point ? lower_char_class : upper_char_class) - 1;""")]),
('ci-first-helper','C17',[(A,"""            while (safe_decode_next(it_str_next, str.end(), ch_str))
            {
                if (case_insensitive_equal(ch_str, ch_cmp))
                {
                    auto [a, b] = next_case_insensitive_mismatch(
                        it_str_next, str.end(), it_cmp, cmp.end());
                    if (b == cmp.end())
                        return {str.begin(), it_str, a};
                }
                it_str = it_str_next;
            }""","""            for (; safe_decode_next(it_str_next, str.end(), ch_str); it_str = it_str_next)
            {
                if (!case_insensitive_equal(ch_str, ch_cmp))
                    continue;
                const auto m = next_case_insensitive_mismatch(
                    it_str_next, str.end(), it_cmp, cmp.end());
                if (m.second != cmp.end())
                    continue;
                const auto start = size_t(it_str - str.begin());
                return {start, size_t(m.first - it_str)};
            }""")]),
('ci-compare-two','C16',[(A,"""                if (!has_s || !has_c)
                    return has_s == has_c ? 0 : (has_s ? 1 : -1);

                if (auto result = case_insensitive_compare(s_ch, c_ch))
                    return result;""","""                if (has_s && has_c)
                {
                    const auto result = case_insensitive_compare(s_ch, c_ch);
                    if (result != 0)
                        return result;
                    continue;
                }
                return int32_t(has_s) - int32_t(has_c);""")]),
('set-addrange','C26',[(CS,"""        for (char32_t ch : codepoints)
            add_codepoint(ch);""","""        std::for_each(codepoints.begin(), codepoints.end(),
                      [this](char32_t ch) {add_codepoint(ch);});""")]),
('to-digit','C23',[(ES,"""            if (c < 10)
                return char('0' + c);
            if (c < 36)
                return char('A' + (c - 10));
            return '?';""","""            return "0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZ"[c];""" if 0 else """            return c < 10 ? char('0' + c) : c < 36 ? char('A' - 10 + c) : '?';""")]),
('reverse-prepend','C08',[(A,"""        std::string result;
        size_t offset = str.size();
        while (offset != 0)
        {
            auto range = get_prev_char_range(str, offset);
            offset = range.start();
            result.insert(result.end(),
                          str.begin() + range.start(),
                          str.begin() + range.end());
        }
        return result;""","""        std::string result;
        result.reserve(str.size());
        for (auto offset = str.size(); offset > 0;)
        {
            const auto [start, length] = get_prev_char_range(str, offset);
            result += str.substr(start, length);
            offset = start;
        }
        return result;""")]),
]
