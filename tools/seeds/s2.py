D='include/Ystring/DecodeUtf8.hpp'; A='src/Ystring/Algorithms.cpp'
SPECS=[
('C03-overflowlead','C03',[(D,"        else if ((c & 0xF8u) == 0xF0 && n == 3)\n            return result | ((c & 0x07u) << 18u);","        else if ((c & 0xF0u) == 0xF0 && n == 3)\n            return result | ((c & 0x07u) << 18u);")],
 'a byte F8..FF followed by three continuation bytes','decoding backwards accepts a sequence that forward decoding rejects',
'''    string s = "\\xFB\\x80\\x81\\x82";
    auto it = s.end();
    CHECK(decode_prev(s.begin(), it) == INVALID_CHAR);
    CHECK(it == s.end());'''),
('C03-restore','C03',[(D,"        for (unsigned i = 0; i <= n; ++i)\n            ++it;\n        return INVALID_CHAR;\n    }\n\n    /**","        for (unsigned i = 0; i <= (n & 2u) + (n == 1); ++i)\n            ++it;\n        return INVALID_CHAR;\n    }\n\n    /**")],
 'three continuation bytes after a byte that is not a four byte lead','the iterator is moved although decoding failed',
'''    string s = "a\\x80\\x80\\x80";
    auto it = s.end();
    CHECK(decode_prev(s.begin(), it) == INVALID_CHAR);
    CHECK(it == s.end());'''),
('C07-poslimit','C07',[(A,"        if (pos > ptrdiff_t(str.size()) || pos < -ptrdiff_t(str.size()))\n            return std::string_view::npos;\n        if (pos >= 0)\n        {\n            auto it = str.begin();\n            while (pos > 0 && skip_next(it, str.end()))","        if (pos > ptrdiff_t(str.size()) || pos < -ptrdiff_t(str.size()))\n            return std::string_view::npos;\n        if (pos >= 0)\n        {\n            auto it = str.begin();\n            pos = int16_t(pos);\n            while (pos > 0 && skip_next(it, str.end()))")],
 'a position from 32768 up in a long text','positions are reduced modulo 65536',
'''    string s(70000, 'a');
    CHECK(get_codepoint_pos(s, 40000) == 40000);'''),
]
