#!/usr/bin/env python3
"""Regenerates /verif/properties.jsonl (kept as data here so it stays reviewable)."""
import json, os
P = []
def p(id, title, statement, over, quant, why, files, mech, observe=(), state=()):
    P.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": quant},
        "why_tests_cant": why,
        "anchors": {
            "files": files,
            "state": [dict(name=n, meaning=m, where=w) for n, m, w in state],
            "mechanism": [dict(name=n, where=w) for n, w in mech],
            "observe_at": list(observe), "hook_needed": None}})
U="lib/uri/uri.cpp"; UH="include/uri/uri.hpp"; R="include/uri/rule.hpp"; RC="lib/uri/rule.cpp"
PE="lib/uri/pctencode.cpp"; PEH="include/uri/pctencode.hpp"; PD="include/uri/pctdecode.hpp"
PA="include/uri/parts.hpp"; PAC="lib/uri/parts.cpp"; PU="include/uri/punycode.hpp"; PUC="lib/uri/punycode.cpp"
IC="include/uri/icubaby.hpp"; FL="include/uri/find_last.hpp"; SW="include/uri/starts_with.hpp"
US="tools/uri-split/uri-split.cpp"

p("C01","split accepts exactly the RFC 3986 URI language",
  "uri::split(text) yields a result exactly when text, as a byte string of any length, matches the RFC 3986 production URI = scheme \":\" hier-part [ \"?\" query ] [ \"#\" fragment ] (including the IPv4, IPv6 with zone-free IP-literal, IPvFuture and reg-name forms of host, with letters case-insensitive). Every other byte string, including ones containing NUL or bytes above 0x7F, yields no result.",
  ["inputs"],"every finite byte string, unbounded length",
  "The tests sample a few hundred strings; the accepted set is an infinite language in which ordered choice and greedy repetition can hide a wrongly rejected or accepted string behind any prefix.",
  [U,R,RC],[("PEG-style grammar functions scheme..URI",U),("rule combinators",R)],["uri::split"])
p("C02","split_reference accepts exactly the RFC 3986 URI-reference language",
  "uri::split_reference(text) yields a result exactly when text matches the RFC 3986 production URI-reference = URI / relative-ref, for byte strings of any length. In particular the empty string, network-path references and query-only or fragment-only references are accepted and a first relative segment containing a colon is not.",
  ["inputs"],"every finite byte string, unbounded length",
  "As C01, plus the interaction between the failed URI attempt and the relative-ref fallback, which tests reach for only a handful of strings.",
  [U,R,RC],[("URI_reference, relative_ref, relative_part",U)],["uri::split_reference"])
p("C03","split assigns every component its exact RFC 3986 substring",
  "When uri::split or uri::split_reference succeeds, scheme, userinfo, host, port, query and fragment are each absent exactly when RFC 3986 says the component is undefined (an empty component is present and empty) and otherwise equal the exact substring the RFC grammar assigns to it. The authority is present exactly when the text has a \"//\" authority, the path segments are exactly the \"/\"-separated pieces of the path in order, and the path is absolute exactly when it begins with \"/\"; nothing from an abandoned parse alternative leaks into the result.",
  ["inputs"],"every accepted string",
  "Decomposition must hold for every string of an infinite language; tests compare the fields of a few examples and cannot see a capture that is wrong only after particular optional parts or backtracking.",
  [U,UH,R,RC],[("acceptor lambdas and append_* functors",U),("acceptors run only on overall success","lib/uri/rule.cpp: rule::done")],["uri::split","uri::split_reference"],
  [("uri::parts","the decomposed result",UH)])
p("C04","parts::valid agrees with the grammar of each component",
  "parts::valid() returns true exactly when a scheme is present, every present component (scheme, userinfo, host, port, every path segment, query, fragment) matches its RFC 3986 production in full, and - per RFC 3986 section 3.3 - the path does not begin with \"//\" when there is no authority. Consequently composing any parts object for which valid() is true gives text that split accepts.",
  ["inputs"],"every parts value: every presence combination, any component text, any number of segments",
  "The tests check a dozen parts values; the claim ranges over all texts of seven components and over all segment counts.",
  [U,UH],[("parts::valid, authority::valid, path::valid",U)],["parts::valid","parts::authority::valid","parts::path::valid"])
p("C05","join implements RFC 3986 reference resolution",
  "uri::join(base, reference, strict) produces the target defined by the RFC 3986 section 5.2.2 pseudocode, including section 5.2.3 path merging and dot-segment removal as in C06 (which never changes whether a path is absolute), for every combination of present and absent components, and with strict=false a reference scheme equal to the base scheme is ignored. The string overload returns nothing exactly when base is not a URI or reference is not a URI-reference, and otherwise equals joining the split parts.",
  ["inputs","configurations"],"every pair of base and reference, every presence combination, both strictness modes",
  "RFC 5.4's example table uses one base URI; presence combinations such as a single-segment base path, a base without authority, or non-strict mode are hardly sampled.",
  [U,UH],[("join, merge, remove_dot_segments",U)],["uri::join"])
p("C06","remove_dot_segments implements RFC 3986 section 5.2.4",
  "For a path with any number of segments, path::remove_dot_segments() leaves exactly the segments that the RFC 3986 section 5.2.4 algorithm produces when applied to the path written with a leading \"/\": \".\" and \"..\" disappear, \"..\" removes one preceding output segment if there is one and never climbs above the root, and a final \".\", \"..\" leaves a trailing empty segment. Empty and ordinary segments are otherwise kept in order, and the absolute flag is unchanged.",
  ["inputs"],"every sequence of path segments",
  "Tests cover 14 short paths; runs of dot segments, empty segments and their order form an unbounded input space.",
  [U],[("parts::path::remove_dot_segments",U)],["parts::path::remove_dot_segments","uri::join"])
p("C07","compose is RFC 3986 recomposition and inverts split",
  "uri::compose(parts), streaming parts to an ostream, and streaming path or authority alone write exactly the RFC 3986 section 5.3 recomposition: delimiters appear exactly when their component is present (even if empty), segments are joined by \"/\", and a leading \"/\" appears exactly when the path is absolute or is a non-empty path following an authority. Hence compose(split(s)) == s for every accepted s, and likewise for split_reference.",
  ["inputs"],"every parts value and every accepted string",
  "Tests compose a handful of parts values; the round trip is only fuzzed when a fuzzing build is enabled, which it is not here.",
  [U],[("compose, operator<<, path::operator std::string",U)],["uri::compose","operator<<"])
p("C08","parts equality compares every component",
  "Two parts values compare equal exactly when scheme, userinfo, host, port, query and fragment agree in both presence and text, authority agrees in presence, the segment lists are equal, and - unless both have an authority - the absolute flags agree. operator!= is always the negation of operator==, for parts, authority and path.",
  ["inputs"],"every pair of parts values",
  "Tests compare a few pairs; dropping one field from a comparison is invisible unless a test differs in exactly that field.",
  [U,UH],[("parts::operator==, authority::operator==, path::operator==",U)],["operator==","operator!="])
p("C09","percent-encoding uses the WHATWG sets and canonical %XX form",
  "For every byte 0x00-0xFF and every named pctencode_set, needs_pctencode is true exactly when the byte belongs to that WHATWG percent-encode set (in the edition the project quotes, whose path set has no U+005E) or, for every set other than none, is \"%\" (C0 controls and bytes above 0x7E always belong), through every overload. pctencode outputs, for each input byte in order and independently of its neighbours, either the byte itself when it is not in the set or \"%\" followed by the two uppercase hexadecimal digits of its value.",
  ["inputs","configurations"],"every byte, every encode set, every position in a string of any length",
  "Tests tabulate only some bytes and never the byte 0xFF or strings mixing classes; encoding of arbitrary strings is only sampled.",
  [PE,PEH],[("needs_pctencode bit table",PE),("pctencode, dec2hex",PEH)],["uri::needs_pctencode","uri::pctencode"])
p("C10","percent-decoding replaces exactly the well-formed %XX triples",
  "pctdecode replaces each \"%\" followed by two hexadecimal digits (either case) by the byte with that value, scanning left to right without re-reading decoded output, and copies every other byte, including \"%\" not followed by two hex digits at any distance from the end, unchanged. The string function, pctdecode_iterator, pctdecoder and pctdecode_view all yield this same sequence, and needs_pctdecode is true exactly when the text contains \"%\".",
  ["inputs"],"every byte string, through every decoding interface",
  "Tests decode a few dozen strings; truncated and malformed escapes next to the end of input and adjacent escapes are unbounded combinations.",
  [PD],[("details::increment, deref, hex2dec; iterator and view wrappers",PD)],["uri::pctdecode","uri::views::pctdecode","uri::pctdecoder"])
p("C11","percent-decoding inverts percent-encoding",
  "For every byte string s and every pctencode_set other than none, pctdecode(pctencode(s, set)) == s. Encoded output contains \"%\" only as the start of a complete %XX triple.",
  ["inputs","configurations"],"every byte string, every set",
  "The fuzz round-trip tests are not built; unit tests check a few literals.",
  [PE,PEH,PD],[("dec2hex against hex2dec; membership of '%' in every set",PE)],["uri::pctencode","uri::pctdecode"])
p("C12","encode treats every component by its own rule and skips none",
  "encode(store, p) returns parts in which every scheme and port that RFC 3986 admits is unchanged, userinfo, each path segment (whatever their number), query and fragment are percent-encoded with the set of that component, and the host is punycode-encoded label by label with an \"xn--\" prefix exactly on labels containing non-ASCII. Absent components stay absent, presence and the absolute flag are preserved, and components needing no change keep their text.",
  ["inputs"],"every parts value, any number of segments, any mix of components needing encoding",
  "Which component is encoded depends on flags shared by all components and segment positions; tests use at most a few segments.",
  [PA,PAC],[("encode, parts_strings, pctencode_set_from_parts_field, needs_encoding bitset",PA)],["uri::encode"])
p("C13","decode treats every component and reports malformed punycode",
  "decode(store, p) percent-decodes userinfo, every path segment, query and fragment, decodes each \"xn--\" label of the host, and returns every other text (scheme and port as RFC 3986 admits them) and all presence information unchanged. If any host label has malformed punycode it returns the error and no parts value.",
  ["inputs"],"every parts value, any number of segments, any mix of components",
  "As C12: the interplay of flags, positions and errors is combinatorial and tests sample a few combinations.",
  [PA,PAC],[("decode, puny_decoded",PA)],["uri::decode"])
p("C14","encode/decode never hand out dangling or misplaced views",
  "Every view in the result of encode or decode either is the corresponding input view or lies wholly inside the caller's store, covering exactly the bytes produced for that component. The capacity reserved before the first byte is written is at least the total written, so the store is never reallocated after a view into it has been made.",
  ["inputs"],"every parts value and every store state",
  "A dangling view after reallocation is data dependent and usually reads the right bytes in a test; accounting errors appear only for certain size mixes.",
  [PA,PAC],[("two-pass size accounting: required_size, reserve, views into store",PA)],["uri::encode","uri::decode"])
p("C15","UTF-8 decoding accepts exactly well-formed UTF-8",
  "Feeding code units to a UTF-8 input transcoder (to UTF-32, UTF-16 or UTF-8) yields exactly the encoding of the code point of each well-formed Unicode sequence (no overlong forms, no surrogates, nothing above U+10FFFF), with well_formed() still true. Any input that is not well-formed UTF-8, including a sequence cut off when end_cp is called, makes well_formed() false permanently and yields U+FFFD instead of an invented code point. partial() is true exactly while a sequence has begun and not ended.",
  ["inputs","histories"],"every byte sequence",
  "The decoder is a table-driven automaton whose state carries over between bytes; the tests in this repository reach it only through a few host names.",
  [IC],[("transcoder<char8,char32_t>: utf8d_ tables and state machine",IC)],["icubaby::transcoder<char8_t,char32_t>"])
p("C16","UTF-32 encoding to UTF-8, UTF-16 and UTF-32 is exact",
  "For every 32-bit input value, the UTF-32 to UTF-8 and UTF-32 to UTF-16 transcoders emit exactly the shortest well-formed encoding of that code point when it is a Unicode scalar value. For surrogates and values above U+10FFFF every UTF-32-input transcoder emits the encoding of U+FFFD and well_formed() becomes and stays false.",
  ["inputs"],"all 2^32 input values in every transcoder state",
  "The repository has no unit tests for these transcoders; boundary values between length classes are the interesting inputs.",
  [IC],[("transcoder<char32_t,*>",IC)],["icubaby::transcoder<char32_t,...>"])
p("C17","UTF-16 decoding pairs surrogates exactly",
  "A UTF-16 input transcoder (to UTF-32, UTF-16 or UTF-8) emits, for any sequence of code units, the encoding of each BMP code unit and of the supplementary code point of each high/low surrogate pair. Every unpaired surrogate, including a trailing high surrogate at end_cp, is replaced by U+FFFD with well_formed() becoming false for good, and never swallows or corrupts the following valid unit.",
  ["inputs","histories"],"every sequence of UTF-16 code units",
  "State carried between calls (pending high surrogate) makes the space of histories unbounded; the repository has no tests of it.",
  [IC],[("transcoder<char16_t,char32_t>: high_, has_high_",IC)],["icubaby::transcoder<char16_t,char32_t>"])
p("C18","Byte-stream transcoding detects BOMs and loses no bytes",
  "The std::byte transcoder selects UTF-8, UTF-16BE/LE or UTF-32BE/LE from a leading byte order mark, drops the mark, and otherwise treats the stream as UTF-8 starting from its very first byte, so that no byte read while looking for a mark is lost, duplicated or reordered. The longest mark that fits wins, multi-byte units are assembled in the selected byte order, and selected_encoding() names the encoding in use. A stream that ends inside an unfinished mark, unit or sequence yields what those bytes mean in the encoding in use (U+FFFD, with well_formed() false, for what is cut off), and partial() is true exactly while something is pending.",
  ["inputs","histories"],"every byte stream",
  "The detector is a 21-state machine with a look-back buffer; the repository has no tests for it.",
  [IC],[("transcoder<std::byte,ToEncoding> state machine",IC)],["icubaby::transcoder<std::byte,...>"])
p("C19","Punycode digits, thresholds and guards follow RFC 3492",
  "The punycode encoder and decoder use the RFC 3492 digit values (a-z = 0..25 in either case, 0-9 = 26..35), thresholds and bias adaptation, and agree with each other on them. Decoding returns an error, never a result, for a character that is not a digit, for input that ends inside a number, for non-ASCII in the literal part, and before any arithmetic on the accumulated value could wrap around. (A delimiter in first position is skipped, as the project's tests document.)",
  ["inputs"],"every digit value, byte, position, bias and accumulated value",
  "Tests check the RFC sample strings; overflow guards and digit edge values are reached by almost none of them.",
  [PU,PUC],[("encode_digit/decode_digit, clamp/clampk, adapt, decode_vli, copy_plain_ascii_part",PU)],["uri::punycode::encode","uri::punycode::decode"])
p("C20","Results depend only on the arguments, in every locale",
  "Every function of the library gives the same result for the same arguments whatever the process's locale, environment, earlier calls or other threads, because no library function reads or writes mutable state that outlives the call or calls a locale- or environment-dependent facility. In particular which bytes count as letters or digits never depends on setlocale.",
  ["inputs","configurations","histories","schedules"],"every call history, locale and thread schedule",
  "Tests run in the C locale in one thread; a hidden static buffer or locale-sensitive classification changes results only elsewhere.",
  [U,R,PE,PD,PA,PU,IC],[("character predicates",R),("static tables are const",PE)],["all public functions"])
p("C21","Every call terminates with bounded recursion",
  "Every library function terminates on every finite input: no repetition in the grammar can succeed without consuming input, every other loop advances towards a bound it tests, and recursion depth never grows with the input.",
  ["inputs"],"every input",
  "A looping input hangs rather than fails, and only a specific input triggers it; recursion depth grows only with inputs far longer than the tests use.",
  [U,R,PD,PU,IC],[("star() bodies consume",U),("call graph without input-dependent cycles",R)],["all public functions"])
p("C22","Parsed parts only ever view the caller's text",
  "Every string_view reachable from the result of split, split_reference or join views either characters of the text the caller passed in (for join on parts: of the views inside base and reference) or is empty. No result refers to a temporary, a local or library-owned memory.",
  ["inputs"],"every input and every component",
  "A view into a temporary typically still compares equal in a test; whether it dangles depends on allocation.",
  [U,R,RC],[("views are made only by substr/remove_prefix of the input",R)],["uri::split","uri::split_reference","uri::join"])
p("C23","No out-of-bounds or undefined operation on any input",
  "On every input, split, split_reference, valid, join, compose, remove_dot_segments, pctencode, pctdecode and the transcoders never read front or back of an empty sequence, index or advance past an end, dereference an absent optional, pass a negative character to a ctype function or fail an internal assertion, and no exception (other than for want of memory) reaches the caller or leaves a noexcept function.",
  ["inputs"],"every input and every path through these functions",
  "Undefined behaviour on a rare byte or an empty sequence usually goes unnoticed in a plain test run, and the existing inputs are mostly ASCII.",
  [U,R,RC,PEH,PD,IC],[("emptiness guards before front()/back()",R)],["public functions"])
p("C24","uri-split reports failure exactly when a line or file fails",
  "The uri-split tool exits with success exactly when every named file could be opened (or, without arguments, standard input is used) and every line read parses as a URI. For each parsed line it prints every component, distinguishing absent (None) from present-but-empty.",
  ["inputs","configurations"],"every list of files and every content",
  "The tool has no unit tests.",
  [US],[("main, read_stream",US)],["exit status and standard output of uri-split"])
p("C25","The decoding views are real C++20 ranges for every base view",
  "views::pctdecode applied to any forward range of char - including one whose end is a sentinel of a different type or whose elements are mutable - compiles and models std::ranges::forward_range with value type char. pctdecode_iterator models std::forward_iterator.",
  ["programs"],"every client program instantiating the view",
  "Templates are only compiled for the ranges the tests use, all of which are common ranges.",
  [PD],[("pctdecode_view::iterator, sentinel",PD)],["uri::views::pctdecode"])
p("C26","find_last and starts_with agree with their std definitions",
  "uri::find_last returns the subrange starting at the last element equal to the value (projected) and extending to the end, or the empty subrange at the end when there is none, for forward and bidirectional iterators alike. uri::starts_with(a, b) is true exactly when b, element by element, is a prefix of a, including when either is empty.",
  ["inputs"],"every range, value and projection result",
  "Tests use a handful of short ranges.",
  [FL,SW],[("find_last_forward, find_last_bidi",FL),("starts_with_fn",SW)],["uri::find_last","uri::starts_with"])
p("C27","The grammar engine is an all-or-nothing ordered parser",
  "A rule built from concat, optional, star and alternative consumes exactly what its parts consume in order, tries alternatives left to right committing to the first match, treats optional and repetition greedily with the stated minimum and maximum, and once failed stays failed. done() returns true exactly when matching succeeded and nothing remains, and only then runs the accept functions - each once, in match order, with exactly the text its matcher consumed, and none from abandoned alternatives.",
  ["inputs","programs"],"every grammar built from the combinators and every input",
  "Tests exercise a few fixed grammars; acceptor order and leakage after failed alternatives matter only for particular combinations.",
  [R,RC],[("concat_impl, star, alternative, optional, matched, done, join_rule",R)],["uri::rule"])
p("C28","Punycode encode and decode are inverse",
  "For every label of Unicode scalar values, punycode::decode(punycode::encode(label)) == label, and encode(decode(x)) == x up to letter case for every x that decode accepts (a delimiter in first position, which the decoder skips, aside).",
  ["inputs"],"every label",
  "Tests use the RFC sample strings; the claim is a numeric identity over unbounded inputs.",
  [PU],[("encode, decode_loop",PU)],["uri::punycode::encode","uri::punycode::decode"])
p("C29","Parsing cost is bounded by a low polynomial in input length",
  "The time and memory used by split and split_reference grow at most quadratically with the length of the text, with no input that triggers exponential backtracking.",
  ["inputs"],"every input length",
  "Tests use short strings.",
  [U,R],[("ordered choice without memoisation",R)],["uri::split"])
p("C30","The transcode view yields the transcoder's whole output",
  "views::transcode over any input range of code units yields exactly the code units that the corresponding transcoder writes when fed each element in turn and then end_cp(), including a final replacement character, in order, never writing more than its internal buffer holds, and its well_formed() reports false after a full pass exactly when the input was malformed. icubaby::length counts, and icubaby::index finds, the starts of code points.",
  ["inputs"],"every finite sequence of code units in every encoding",
  "The repository only uses the view inside host name coding; ends of input with pending state and buffer sizes are never exercised by its tests.",
  [IC],[("transcode_view::iterator::state: fill, next, end_cp",IC),("length, index, is_code_point_start",IC)],["icubaby::views::transcode","icubaby::length","icubaby::index"])
p("C31","Every public header stands on its own and is safe to include anywhere",
  "Each header under include/uri compiles when it is the only thing a C++20 translation unit includes, with GCC and with Clang, with or without NDEBUG and compiler extensions, and with its templates instantiated; all of them together compile in either order and twice over; and including one in several translation units of a program never defines a symbol twice.",
  ["programs"],"every client program, whatever it includes first",
  "The repository's own sources include the headers in one fixed order after other headers, which hides a missing include, and link each header's entities from few translation units.",
  [FL,SW,R,PD,PEH,U,PU,IC],[("include directives, inline and static declarations",FL)],["the public headers"])
out=os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl")
with open(out,"w") as f:
    for x in P: f.write(json.dumps(x,ensure_ascii=False)+"\n")
print(len(P))
