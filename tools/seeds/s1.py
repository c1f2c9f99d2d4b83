D='include/Ystring/DecodeUtf8.hpp'
SPECS=[
('C02-distance','C02',[(D,"        if (n > std::distance(it, end))\n        {\n            --it;\n            return INVALID_CHAR;\n        }\n","        if (n == 1 && it == end)\n        {\n            --it;\n            return INVALID_CHAR;\n        }\n        if (n > 1 && n - 1 > std::distance(it, end))\n        {\n            --it;\n            return INVALID_CHAR;\n        }\n")],
 'text ending inside a three or four byte sequence whose last byte is missing','decode_next reads the byte at the end of the view when only the last continuation byte is missing',
'''    string buf = "ab\\xE2\\x82\\xAC";
    string_view v(buf.data(), 4);
    auto it = v.begin() + 2, end = v.end();
    CHECK(decode_next(it, end) == INVALID_CHAR);
    CHECK(it == v.begin() + 2);'''),
('C02-restore','C02',[(D,"                for (int j = 0; j <= i; ++j)\n                    --it;\n                return INVALID_CHAR;","                for (int j = 0; j <= (i & 1); ++j)\n                    --it;\n                return INVALID_CHAR;")],
 'a four byte sequence whose third continuation byte is wrong','the iterator is left inside the invalid sequence',
'''    string s = "\\xF0\\x9F\\x98" "A";
    auto it = s.begin();
    CHECK(decode_next(it, s.end()) == INVALID_CHAR);
    CHECK(it == s.begin());'''),
('C03-mask','C03',[(D,"            return result | ((c & 0x07u) << 18u);","            return result | ((c & 0x03u) << 18u);")],
 'a code point from U+100000 up','decoding backwards gives a value that is 0x100000 too small',
'''    string s = "\\xF4\\x8F\\xBF\\xBF";
    auto it = s.end();
    CHECK(decode_prev(s.begin(), it) == 0x10FFFF);'''),
('C04-skipprev','C04',[(D,"        if (m >= n + 1)\n            return true;","        if (m >= n)\n            return true;")],
 'a lead byte followed by exactly one continuation byte too many','skipping back joins the surplus byte to the sequence before it, skipping forward does not',
'''    string s = "\\xC3\\xA5\\x80";
    auto it = s.end();
    CHECK(skip_prev(s.begin(), it));
    CHECK(it == s.begin() + 2);'''),
('C04-skipnext','C04',[(D,"            n = UINT32_MAX;\n\n        while","            n = 255;\n\n        while")],
 'more than 256 continuation bytes in a row without a lead byte','a long run of stray continuation bytes is cut in units of 256 bytes forwards, but is one unit backwards',
'''    string s(400, '\\x80');
    auto it = s.begin();
    CHECK(skip_next(it, s.end()));
    CHECK(it == s.end());'''),
('C07-posbound','C07',[('src/Ystring/Algorithms.cpp',"            while (pos < 0 && skip_prev(str.begin(), it))\n                ++pos;\n            if (pos == 0)\n                return size_t(it - str.begin());\n        }\n        return std::string_view::npos;","            while (pos < 0 && skip_prev(str.begin(), it))\n                ++pos;\n            if (pos == 0 || it == str.begin())\n                return size_t(it - str.begin());\n        }\n        return std::string_view::npos;")],
 'a negative position before the beginning of a text with multi-byte code points','a position that does not exist is reported as 0',
'''    CHECK(get_codepoint_pos("\\u00E5\\u00E5", -3) == string_view::npos);'''),
]
