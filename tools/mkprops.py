#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the source of the property texts)."""
import json, os
P=[]
def p(id,title,statement,text,why,files,mech,observe,over=("inputs",)):
    P.append(dict(id=id,title=title,statement=statement,
      quantifier=dict(over=list(over),text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=observe,hook_needed=None)))
A='src/Ystring/Algorithms.cpp'; AH='include/Ystring/Algorithms.hpp'; AU='src/Ystring/AlgorithmUtilities.cpp'; AUH='src/Ystring/AlgorithmUtilities.hpp'
D='include/Ystring/DecodeUtf8.hpp'; EN='src/Ystring/EncodeUtf8.hpp'
p("C01","UTF-8 encoding is exact for every code point",
 "Encoding a value 0..U+10FFFF as UTF-8 (whether appended to a string, written through an output iterator, written to a caller's buffer or converted from UTF-32) produces exactly the standard shortest UTF-8 byte sequence of 1-4 bytes and reports its length (surrogates are encoded like any other 3-byte value). A value above U+10FFFF produces no bytes; appending it to a string throws the library's exception and leaves the string as it was, whereas the other forms report 0 or skip it. A bounded buffer is never written beyond its size: when the encoding does not fit, nothing is written and 0 is returned.",
 "all 2^32 char32_t values, all buffer sizes, all target strings",
 "the tests encode a handful of code points; the bit-level formula must be right at all 2^32 values and for every buffer size",
 [EN,'src/Ystring/Utf32.cpp',A],
 [("get_utf8_encoded_length, detail::encode_utf8, encode_utf8",EN),("append",A),("from_utf32",'src/Ystring/Utf32.cpp')],
 ["encode_utf8","append","from_utf32"])
p("C02","Forward UTF-8 decoding is exact, bounded and leaves failures untouched",
 "Decoding the next code point at any position of any byte sequence reads only bytes before the given end, and either returns the value given by the UTF-8 bit layout (1-4 bytes; overlong forms and values up to 0x1FFFFF are accepted) and advances past exactly that sequence, or, when the bytes there are not a complete sequence of a valid lead byte and its continuation bytes, returns the invalid-character value and leaves the position unchanged. The checked forms report end of input with their 'nothing there' result, throw the library's exception for such an invalid sequence and otherwise agree with it; the forms that pop or remove the first code point of a view shorten the view by exactly the sequence consumed and leave it unchanged when they fail.",
 "all byte sequences, all positions",
 "the tests decode about a dozen byte strings; the guarantee is about every possible byte combination and truncation point",
 [D],[("decode_next, safe_decode_next, pop_utf8_codepoint",D)],["decode_next","safe_decode_next","pop_utf8_codepoint"])
p("C03","Backward UTF-8 decoding mirrors forward decoding",
 "Decoding the previous code point before any position of any byte sequence never reads before the given beginning, and succeeds exactly when a complete well-formed 1-4 byte sequence ends at that position, in which case it returns the value forward decoding of those bytes gives and moves to their start; otherwise it returns the invalid-character value and leaves the position unchanged. The checked forms report beginning of input with their 'nothing there' result, throw the library's exception for an invalid sequence and otherwise agree with it; the form that pops the last code point of a view shortens the view by exactly that sequence and leaves it unchanged when it fails.",
 "all byte sequences, all positions",
 "the tests decode about a dozen byte strings; agreement of the two directions has to hold for every byte combination, including arbitrarily long runs of continuation bytes",
 [D],[("decode_prev, safe_decode_prev, pop_last_utf8_codepoint",D)],["decode_prev","safe_decode_prev","pop_last_utf8_codepoint"])
p("C04","Skipping is total and cuts any bytes the same way in both directions",
 "Skipping forward over one unit of any byte string (valid or not) never reads or moves outside it, fails only at its end and otherwise consumes a lead byte together with the continuation bytes that follow it: at most the 0-3 its lead byte announces, or all of them if the first byte is itself a continuation byte or an invalid lead byte. Skipping backward from the end moves over exactly the last of the units that forward skipping from the beginning produces and fails only at the beginning; on a well-formed sequence both move over exactly the sequence that decoding consumes. The forms that remove the first or last code point of a view shorten it by exactly that unit.",
 "all byte strings shorter than 4 GiB, all positions",
 "the tests skip over a few strings; segmentation must agree in both directions for every invalid byte mix",
 [D],[("skip_next, skip_prev, remove_utf8_codepoint, remove_last_utf8_codepoint",D)],["skip_next","skip_prev","remove_utf8_codepoint","remove_last_utf8_codepoint"])
p("C05","UTF-8 to UTF-32 conversion is exact and inverse",
 "Converting UTF-8 to UTF-32 gives the decoded code points of the string in order, one for each sequence, and throws the library's exception exactly when the string contains an invalid sequence. Converting UTF-32 to UTF-8 concatenates the encodings of its values in order, leaving out values above U+10FFFF. Hence UTF-32 text of values up to U+10FFFF survives the round trip through UTF-8 unchanged.",
 "all byte strings and all char32_t strings, of any length",
 "tests convert one string each way; the inverse law quantifies over all texts",
 ['src/Ystring/Utf32.cpp',D,EN],[("to_utf32, from_utf32",'src/Ystring/Utf32.cpp')],["to_utf32","from_utf32"])
p("C06","UTF-8 validation and repair",
 "A string is reported as valid UTF-8 exactly when it is a concatenation of well-formed sequences in the sense of forward decoding (overlong forms and values up to 0x1FFFFF included). Replacing invalid UTF-8 copies every well-formed sequence unchanged and substitutes one encoding of the replacement character (nothing if that is above U+10FFFF) for every maximal unit that forward skipping consumes at a position where decoding fails. The result is therefore always valid and a valid string is returned unchanged, and the in-place form gives the same result.",
 "all byte strings, all replacement values",
 "tests try one invalid string; both laws quantify over every byte string",
 [A,D],[("is_valid_utf8, replace_invalid_utf8",A)],["is_valid_utf8","replace_invalid_utf8"])
p("C07","Code point counting and indexing",
 "The code point count of a string is the number of units that forward skipping produces, and the byte position of code point k (k >= 0, k up to and including the count) is where the k-th skip from the start ends, of code point -k where the k-th skip backwards from the end ends; any other index yields the 'no position' value. Fetching code point number k (negative from the end, -1 being the last) gives the value and byte range of the sequence there, an empty range and the invalid-character value if there is none (at the end of the string for k >= 0, at offset 0 for k < 0), and the library's exception if the bytes at that unit boundary do not decode.",
 "all byte strings, all index values of the full signed range",
 "tests index one 12-character string; the law covers every string and every index including extremes",
 [A],[("count_codepoints, get_codepoint_pos, get_codepoint",A)],["count_codepoints","get_codepoint_pos","get_codepoint"])
p("C08","Characters are a base code point plus its combining marks",
 "A character is one code point followed by all directly following combining marks (Unicode categories Mn, Mc, Me). On valid UTF-8 the character that starts at a byte offset, the character that ends at a byte offset (extending back over marks to the nearest non-mark or the beginning of the string), the number of characters, the byte position and range of character k (negative from the end; 'no position', or an empty range, if there is no such character) and the string with its characters in reverse order (each kept intact) all follow from that one definition. A sequence that has to be examined and does not decode raises the library's exception.",
 "all byte strings, all offsets within them, all signed indices",
 "tests use three short strings; the definition must hold for every sequence of marks and bases and for all indices",
 [A,'include/Ystring/CodepointPredicates.hpp','src/Ystring/CharClass.cpp'],
 [("get_next_char_range, get_prev_char_range, count_chars, get_char_pos, get_char_range, reverse",A)],
 ["count_chars","get_char_pos","get_char_range","get_next_char_range","get_prev_char_range","reverse"])
p("C09","Substrings by position follow slice semantics",
 "For every start and end index (negative counting from the end, out-of-range clamped to the ends of the string) the substring by code points of valid UTF-8 is exactly the code points from start up to but not including end, and empty when end is not after start. The substring by characters is the same with characters (base plus combining marks) as the unit.",
 "all valid UTF-8 strings, all pairs of signed 64-bit indices",
 "tests cover about a dozen index pairs; two of the four sign combinations were wrong or untested",
 [AU,A],[("get_codepoint_substring_range, get_char_substring_range",AU),("get_codepoint_substring, get_char_substring",A)],
 ["get_codepoint_substring","get_char_substring"])
p("C10","Insertion and range replacement by position splice exactly",
 "Inserting a string or a code point before code point or character number k of valid UTF-8 (k up to and including the length; negative counting from the end) yields exactly the text before that position, the inserted text, and the rest; a position that does not exist raises the library's exception unless the inserted string is empty, which returns the text unchanged, and inserting a value above U+10FFFF raises the exception. Replacing code points or characters [start, end) by position yields exactly the text before the substring those indices select, the replacement, and the text after it.",
 "all valid UTF-8 strings, all inserted texts and all signed positions",
 "tests insert into one string at five positions",
 [AU,A],[("insert_at_offset, replace_subrange",AU),("insert_char(s), insert_codepoint(s), replace_chars, replace_codepoints",A)],
 ["insert_char","insert_chars","insert_codepoint","insert_codepoints","replace_chars","replace_codepoints"])
p("C11","Substring search finds exactly the first and last occurrence",
 "Searching for a non-empty pattern from a byte offset within the string returns the range of the leftmost occurrence that starts at or after the offset, and an empty range at the end of the string if there is none. Searching backwards returns the range of the rightmost occurrence that ends at or before the offset (clamped to the length), and an empty range at 0 if there is none or the pattern is empty. A string is reported to start or end with another exactly when that is its prefix or suffix, byte for byte.",
 "all byte strings, patterns and offsets",
 "tests search one string; leftmost/rightmost and boundary behaviour quantify over every text, pattern and offset",
 [A,AUH],[("find_first, find_last, starts_with, ends_with",A),("search_last",AUH)],
 ["find_first","find_last","starts_with","ends_with"])
p("C12","Code point and newline search",
 "Searching forwards (from a byte offset on a code point boundary) or backwards (before one) for a code point that is in a list, in a set, or satisfies a predicate returns the value and byte range of the first, respectively last, such code point, or a falsy range and the invalid-character value if there is none; containment reports whether the given code point occurs. A newline search finds the first, respectively last, of LF, VT, FF, CR, U+0085, U+2028, U+2029, where an adjacent CR LF counts as one newline of two bytes (as far as both lie in the searched part). An invalid sequence met before the answer is known raises the library's exception.",
 "all byte strings, lists, sets and predicates, all offsets",
 "tests search a few short strings",
 [AH,A,D],[("find_first_where, find_last_where",AH),("contains, find_first_of, find_last_of, find_first_newline, find_last_newline",A)],
 ["contains","find_first_of","find_last_of","find_first_where","find_last_where","find_first_newline","find_last_newline"])
p("C13","Replacing occurrences replaces the right ones and nothing else",
 "Replacing a non-empty pattern with limit n >= 0 replaces the first n non-overlapping occurrences found from left to right and keeps every other byte; with a negative limit it replaces the last |n| non-overlapping occurrences found from right to left. Limit 0 or an empty pattern returns the text unchanged, and the call always terminates. Replacing one code point by another is the same on their encodings and raises the library's exception when either is above U+10FFFF.",
 "all byte strings, patterns, replacements and limits of the full signed range",
 "tests perform three replacements; correctness for all texts and termination for all patterns is out of their reach",
 [A,AU],[("replace, replace_codepoint",A),("find_last_n",AU)],["replace","replace_codepoint"])
p("C14","Splitting and joining lose nothing",
 "Splitting at a separator string, at any of a list of code points, at newlines, or by a caller's token finder returns the pieces between successive separators in order, each as a view into the original, plus the piece after the last separator; a limit stops after that many pieces and adds the unsplit remainder as last piece, and ignoring empty pieces drops exactly the empty ones (which then do not count towards the limit). The token iterator's part, token and remainder, concatenated, are the text that was still unread, at every step. Joining puts the delimiter exactly between consecutive strings, so joining the pieces of an unlimited split at a separator string gives the original text.",
 "all strings, separators, limits and finders",
 "tests split four strings; no-loss is a statement about every text and limit",
 [AH,'include/Ystring/TokenIterator.hpp',A],[("split_where, join",AH),("TokenIterator",'include/Ystring/TokenIterator.hpp'),("split, split_lines",A)],
 ["split","split_lines","split_where","join","TokenIterator"])
p("C15","Trimming removes exactly the matching ends",
 "Trimming the start removes the longest prefix of code points that are all in the given list (or all satisfy the predicate) and nothing else; trimming the end removes the longest such suffix; trimming both does both. The result is a contiguous part of the input, and empty if every code point matches. The default list is space, tab, LF and CR, and an invalid sequence met before the first kept code point (from that end) raises the library's exception.",
 "all byte strings, lists and predicates",
 "tests trim five strings",
 [AH,A],[("trim_start_where, trim_end_where, trim_where",AH),("trim, trim_start, trim_end",A)],["trim","trim_start","trim_end","trim_where","trim_start_where","trim_end_where"])
p("C16","Case-insensitive comparison is upper-case comparison, and consistent",
 "For valid UTF-8, case-insensitive compare, equality and less-than order two strings by the lexicographic order of their code points mapped to upper case (a proper prefix being smaller), so equality holds exactly when compare gives 0, less-than exactly when it is negative, and swapping the arguments flips the sign. Case-insensitive prefix and suffix tests hold exactly when the code points of the second string equal, after upper-casing, those at the start, respectively end, of the first. An invalid sequence met before the answer is known raises the library's exception.",
 "all pairs of byte strings",
 "tests compare three pairs per function; antisymmetry and consistency quantify over all pairs",
 [A,AUH,'include/Ystring/CaseInsensitive.hpp'],[("case_insensitive::compare/equal/less/starts_with/ends_with",A),("next/prev_case_insensitive_mismatch",AUH)],
 ["case_insensitive::compare","case_insensitive::equal","case_insensitive::less","case_insensitive::starts_with","case_insensitive::ends_with"])
p("C17","Case-insensitive search, replace and split",
 "On valid UTF-8, case-insensitive search returns the byte range of the leftmost (from a given offset on a code point boundary), respectively rightmost (before one), run of code points that equals the non-empty pattern after upper-casing both, and a falsy range if there is none or the pattern is empty; the list and set forms do so for single code points. Replacing and splitting have the same meaning as their case-sensitive counterparts with this notion of occurrence; a replacement limit n >= 0 replaces the first n and a negative one the last |n| non-overlapping occurrences, everything else is kept byte for byte.",
 "all valid UTF-8 strings, patterns, offsets and limits",
 "tests cover two strings",
 [A,AUH],[("case_insensitive::find_first/find_last/find_first_of/find_last_of/replace/split",A)],
 ["case_insensitive::find_first","case_insensitive::find_last","case_insensitive::find_first_of","case_insensitive::find_last_of","case_insensitive::replace","case_insensitive::split"])
p("C18","Single code point case mapping equals the Unicode data",
 "For every value, the lower-case and upper-case mapping of a code point is the simple mapping given in UnicodeData 16.0 (the value itself where none is given), and the title-case mapping is the title-case field (the upper-case field where that is empty). Values above U+10FFFF map to themselves. Case-insensitive comparison of two code points is comparison of their upper-case mappings.",
 "all 2^32 char32_t values",
 "tests map about thirty code points; the packed tables encode 2,800 mappings and must be right at and between all of them",
 ['src/Ystring/ConvertCase.cpp','src/Ystring/LowerCaseTables.hpp','src/Ystring/UpperCaseTables.hpp','src/Ystring/TitleCaseTables.hpp','src/Ystring/CharMappingTypes.hpp'],
 [("to_lower, to_upper, to_title",'src/Ystring/ConvertCase.cpp'),("CompactCharMapping::get",'src/Ystring/CharMappingTypes.hpp')],["to_lower(char32_t)","to_upper(char32_t)","to_title(char32_t)"])
p("C19","String case conversion maps each code point",
 "Lower-casing a string yields the encodings of its code points' lower-case mappings in order, upper-casing those of the upper-case mappings except that U+00DF becomes SS. Title-casing copies code points that are not letters (Unicode categories Lu, Ll, Lt, Lm, Lo), title-cases the first letter of every run of letters (U+00DF becomes Ss) and lower-cases the other letters of the run. An invalid sequence, or a sequence that decodes to a value above U+10FFFF, raises the library's exception.",
 "all byte strings",
 "tests convert a few words",
 ['src/Ystring/ConvertCase.cpp'],[("to_lower, to_upper, to_title (string)",'src/Ystring/ConvertCase.cpp')],["to_lower(string_view)","to_upper(string_view)","to_title(string_view)"])
p("C20","Character classes equal the Unicode data",
 "For every value 0..U+10FFFF the reported class is the General_Category of UnicodeData 16.0, with the ranges given there by First/Last entries included and Cn for unlisted code points; larger values are Cn. The predicates (letter, cased letter, upper, lower, mark, number, punctuation, separator, symbol, control, format, surrogate, alphanumeric, graphical, visible) hold exactly for the categories they name. The newline, whitespace and hexadecimal digit predicates hold exactly for their documented sets (whitespace being tab, space, the newline characters and the separators Zs, Zl, Zp).",
 "all 2^32 char32_t values, all predicates",
 "tests check about fifteen code points of 1.1 million",
 ['src/Ystring/CharClass.cpp','src/Ystring/CharClassTables.hpp','include/Ystring/CharClass.hpp','include/Ystring/CodepointPredicates.hpp'],
 [("get_char_class, decode_char_class",'src/Ystring/CharClass.cpp'),("is_*",'include/Ystring/CodepointPredicates.hpp')],["get_char_class","is_*"])
p("C21","Decomposition applies the canonical two-part mappings fully",
 "Decomposing a code point applies the two-code-point canonical decompositions of UnicodeData 16.0 repeatedly to the first part until it has none, giving that base followed by the split-off parts in order; a code point without such a decomposition gives itself. Decomposing a string replaces every code point that has such a decomposition by the encoding of its full decomposition and copies every other sequence byte for byte. The call terminates for every input and raises the library's exception exactly for an invalid sequence.",
 "all char32_t values and all byte strings",
 "tests decompose two characters; multi-level mappings went into an endless loop unnoticed",
 ['src/Ystring/Normalize.cpp','src/Ystring/NormalizationTables.hpp'],[("find_decomposed, get_decomposed_size, decompose_char, decompose, to_decomposed",'src/Ystring/Normalize.cpp')],["decompose","to_decomposed"])
p("C22","Composition pairs greedily and loses nothing",
 "Composing a string reads it from left to right and combines the current code point with the following one whenever the second is U+0300 or above and the pair is the two-code-point canonical decomposition of some code point in UnicodeData 16.0, which becomes the current code point. Every code point that takes no part in a combination is copied byte for byte, so nothing is lost and the result is canonically equivalent to the input. An invalid sequence raises the library's exception.",
 "all byte strings",
 "tests compose two strings; losing characters after a combination went unnoticed",
 ['src/Ystring/Normalize.cpp','src/Ystring/NormalizationTables.hpp'],[("find_composed, to_composed",'src/Ystring/Normalize.cpp')],["to_composed"])
p("C23","JSON escaping is exact and reversible",
 "Escaping replaces exactly the bytes below 0x20, the double quote and the backslash: by \\b \\f \\n \\r \\t \\\" \\\\ where such a form exists and by \\u00XX with two upper-case hexadecimal digits otherwise; all other bytes are copied unchanged. The search for the first byte that needs escaping, from an offset within the string, returns its position with length 1, or the end of the string with length 0 if there is none. Unescaping the escaped text gives the original bytes back, and the escaped text contains no byte below 0x20 and no unescaped double quote.",
 "all byte strings, all offsets",
 "tests escape one string",
 ['src/Ystring/Escape.cpp','src/Ystring/Unescape.cpp'],[("find_first_escapable_char, has_escapable_chars, escape_json",'src/Ystring/Escape.cpp')],["escape_json","find_first_escapable_char","has_escapable_chars"])
p("C24","Unescaping follows the escape grammar and stays in bounds",
 "For any text, the search for the first escape sequence reports the first backslash's position and the sequence's length: x or X with two or more hexadecimal digits (as many as follow), u with exactly 4, U with exactly 8, one to three octal digits, any other ASCII character as a two-byte sequence; a backslash at the end, one followed by a non-ASCII byte, or missing digits raise the library's exception. Unescaping copies all other bytes and replaces each sequence by the encoding of the value it denotes (a b f n r t v the usual control codes, any other character itself, two adjacent \\u surrogates one code point, values above U+10FFFF nothing), raising the library's exception for a value of more than 32 bits. It never reads outside the text, never writes beyond the bytes already read, and its result is never longer than the input.",
 "all byte strings, all offsets",
 "tests unescape four strings; truncated sequences at the end were read out of bounds unnoticed",
 ['src/Ystring/Unescape.cpp'],[("find_first_escaped_char, has_escaped_chars, unescape, parse_utf16",'src/Ystring/Unescape.cpp')],["find_first_escaped_char","has_escaped_chars","unescape"])
p("C25","Reading the next unescaped character",
 "Reading the next character skips any backslash-newline pairs and then consumes and returns exactly one character: an unescaped code point, or an escape sequence (single-letter controls; x or X with 1-8 hexadecimal digits, taking as many as there are; u with 4, where two adjacent \\u surrogates give one code point; U with 8; 1-3 octal digits; any other code point as itself), and reports through the optional flag which of the two it was; nothing is returned when the view is then empty. A malformed escape or invalid sequence raises the library's exception. When it does, the view still starts at the offending character or escape sequence.",
 "all byte strings",
 "tests read about twenty characters",
 ['src/Ystring/Unescape.cpp'],[("unescape_next, extract_hex_char, extract_utf16_char, extract_oct_char",'src/Ystring/Unescape.cpp')],["unescape_next"])
p("C26","Code point sets contain exactly what was added",
 "After any sequence of additions of single code points, lists and inclusive ranges, a set contains a code point exactly when it was added or lies in an added range, and a negated set exactly when it does not. Case-insensitive containment tests, for a single added code point (one that is not merged into a longer run), equality after upper-casing and for a range whether the code point lies in it or its upper-case mapping lies between those of the range's ends, again inverted for a negated set. Containment in a plain list, and its case-insensitive form, hold exactly when some element equals the code point, respectively equals it after upper-casing.",
 "all sequences of additions, all char32_t values",
 "code point sets are never constructed in the tests",
 ['src/Ystring/Char32Set.cpp','include/Ystring/CodepointSet.hpp'],[("CodepointSet::add_range/add_codepoint/add_codepoints/contains/case_insensitive_contains",'src/Ystring/Char32Set.cpp')],["CodepointSet","contains(u32string_view)","case_insensitive_contains"],over=("inputs","histories"))
out=os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),'properties.jsonl')
with open(out,'w') as f:
    for x in P: f.write(json.dumps(x,ensure_ascii=False)+'\n')
