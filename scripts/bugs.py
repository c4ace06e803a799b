# Candidate bugs: id, property, edits (file, old, new), demo body (main's statements), needs, breaks
U, R, RC = "lib/uri/uri.cpp", "include/uri/rule.hpp", "lib/uri/rule.cpp"
PE, PEH, PD = "lib/uri/pctencode.cpp", "include/uri/pctencode.hpp", "include/uri/pctdecode.hpp"
PA, PAC, PU, IC = "include/uri/parts.hpp", "lib/uri/parts.cpp", "include/uri/punycode.hpp", "include/uri/icubaby.hpp"
FL, SW, US = "include/uri/find_last.hpp", "include/uri/starts_with.hpp", "tools/uri-split/uri-split.cpp"
BUGS = []


def bug(id, property, edits, demo, needs, breaks, pre="", **kw):
    BUGS.append(dict(id=id, property=property, edits=edits, demo=demo, needs=needs, breaks=breaks, pre=pre, **kw))


bug("C01-dec-octet-200", "C01", [(U, ".concat (code_point_range (code_point::digit_zero,\n                                     code_point::digit_four))  // %x30-34", ".concat (code_point_range (code_point::digit_one,\n                                     code_point::digit_four))  // %x30-34")],
    'EXPECT (uri::split ("http://[::1.2.3.205]/").has_value ());',
    "an IPv4 octet from 200 to 209 inside an IPv6 literal", "octets 200..209 are refused where an IPv4 address is required")
bug("C02-noscheme-at", "C02", [(U, ".alternative (unreserved, pct_encoded, sub_delims, commercial_at)\n          .matched (\"unreserved / pct-encoded / sub-delims / \\\"@\\\"\"", ".alternative (unreserved, pct_encoded, sub_delims)\n          .matched (\"unreserved / pct-encoded / sub-delims / \\\"@\\\"\"")],
    'EXPECT (uri::split_reference ("a@b/c").has_value ()); EXPECT (uri::split_reference ("@").has_value ());',
    "a relative reference whose first segment contains '@'", "first segments with '@' are refused in relative references")
bug("C03-optional-port", "C03", [(U, "                 result.ensure_authority ().port = p;", "                 if (!p.empty () || !result.ensure_authority ().host.empty ()) {\n                   result.ensure_authority ().port = p;\n                 }")],
    'auto r = uri::split ("x://:/"); EXPECT (r && r->authority && r->authority->port.has_value ());',
    "an empty host followed by an empty port", "an empty port after an empty host is reported as absent")
bug("C04-port-reg-name", "C04", [(U, "!rule{port.value ()}.concat (portfn).done ()", "!port->empty () &&\n      !rule{port.value ()}.concat (h16).done ()")],
    'uri::parts p; p.scheme = "a"; p.authority.emplace (); p.authority->host = "h"; p.authority->port = "8a"; EXPECT (!p.valid ());',
    "a port with hexadecimal letters or more than four digits", "port is validated as h16")
bug("C04-path-last", "C04", [(U, "  for (auto const& seg : segments) {\n    if (!rule{seg}.concat (segment).done ()) {\n      return false;\n    }\n  }\n  return true;", "  for (auto const& seg : segments) {\n    if (!rule{seg}.concat (segment).done ()) {\n      return &seg == &segments.front () && seg.starts_with ('/');\n    }\n  }\n  return true;")],
    'uri::parts p; p.scheme = "a"; p.path.segments = {"/x"}; EXPECT (!p.valid ());',
    "a first path segment beginning with '/'", "a segment with a slash is called valid")
bug("C05-empty-query", "C05", [(U, "target.query = reference.query ? reference.query : base.query;", "target.query = reference.query && !reference.query->empty () ? reference.query : base.query;")],
    'auto r = uri::join ("http://h/p?q", "?"); EXPECT (r && r->query && r->query->empty ());',
    "a reference that is just '?' against a base with a query", "an empty reference query is replaced by the base query")
bug("C05-nonstrict-authority", "C05", [(U, "    if (reference.authority) {\n      target.authority = reference.authority;\n      target.path = reference.path;\n      target.path.remove_dot_segments ();\n      target.query = reference.query;\n", "    if (reference.authority) {\n      target.authority = reference.authority;\n      target.path = reference.path;\n      if (!reference.scheme) {\n        target.path.remove_dot_segments ();\n      }\n      target.query = reference.query;\n")],
    'auto r = uri::join ("http://h/", "http://g/a/../b", false); EXPECT (r && r->path.segments.size () == 1);',
    "non-strict mode with a reference that repeats the base scheme and has an authority and dot segments", "dot segments survive")
bug("C06-empty-before-dotdot", "C06", [(U, "      if (outit != begin) {\n        --outit;\n      }", "      if (outit != begin && !std::prev (outit)->empty ()) {\n        --outit;\n      }")],
    'struct uri::parts::path p; p.absolute = true; p.segments = {"a", "", "..", "b"}; p.remove_dot_segments (); EXPECT (p.segments.size () == 2);',
    "an empty segment directly before '..'", "'..' does not remove an empty segment")
bug("C07-empty-port", "C07", [(U, "  if (auth.port.has_value ()) {\n    os << ':';", "  if (auth.port.has_value () && !(auth.port->empty () && auth.host.empty ())) {\n    os << ':';")],
    'auto r = uri::split ("a://:/x"); EXPECT (r && uri::compose (*r) == "a://:/x");',
    "an empty host with an empty port", "the colon of an empty port is not written when the host is empty")
bug("C07-empty-first-segment", "C07", [(U, "  auto const* separator = absolute ? \"/\" : \"\";\n  for (auto const& seg : segments) {\n    p += separator;\n", "  auto const* separator = absolute ? \"/\" : \"\";\n  for (auto const& seg : segments) {\n    if (!p.empty () || absolute) {\n      p += separator;\n    }\n")],
    'uri::parts p; p.path.segments = {"", "a"}; EXPECT (uri::compose (p) == "/a");',
    "a path that is not absolute and begins with an empty segment", "the separator after an empty first segment is lost")
bug("C08-empty-path-absolute", "C08", [(U, "  return absolute == rhs.absolute && segments == rhs.segments;", "  return segments == rhs.segments &&\n         (absolute == rhs.absolute || segments.empty ());")],
    'uri::parts a, b; a.path.absolute = true; EXPECT (!(a == b));', "two empty paths differing only in the absolute flag", "the flag is not compared when the path is empty")
bug("C08-authority-null-host", "C08", [(U, "  return userinfo == rhs.userinfo && host == rhs.host && port == rhs.port;", "  return userinfo == rhs.userinfo && host == rhs.host &&\n         port.value_or (\"\") == rhs.port.value_or (\"\");")],
    'struct uri::parts::authority a, b; a.host = b.host = "h"; a.port = ""; EXPECT (!(a == b));', "an empty port against an absent one", "an empty port equals an absent port")
bug("C09-byte-ff", "C09", [(PE, "c > code_point::tilde) {", "(c > code_point::tilde && c != 0xFFU)) {")],
    'EXPECT (uri::pctencode ("a\\xff", uri::pctencode_set::query) == "a%FF");', "the byte 0xFF", "byte 0xFF is not encoded")
bug("C10-at-sign-digit", "C10", [(PD, "if (digit >= 'A' && digit <= 'F') {", "if (digit >= '@' && digit <= 'F') {")],
    'EXPECT (uri::pctdecode ("%@0") == "%@0");', "'@' directly after '%'", "'@' counts as a hexadecimal digit")
bug("C11-keep-triples", "C11", [(PEH, "    if (needs_pctencode (static_cast<std::uint_least8_t> (c), encodeset)) {\n      auto const cu", "    if (needs_pctencode (static_cast<std::uint_least8_t> (c), encodeset) &&\n        !(c == '%' && std::next (first) != last && *std::next (first) == '%')) {\n      auto const cu")],
    'EXPECT (uri::pctdecode (uri::pctencode ("%%41", uri::pctencode_set::query)) == "%%41");\nEXPECT (uri::pctencode ("%%", uri::pctencode_set::query) == "%25%25");',
    "two adjacent percent signs", "the first of two '%' is copied unencoded")
bug("C12-many-segments", "C12", [(PA, "    if (segment.data () != nullptr) {\n      segment = function", "    if (segment.data () != nullptr && count < static_cast<unsigned> (parts_field::last)) {\n      segment = function")],
    'uri::parts p; p.scheme = "a"; p.path.absolute = true; for (int i = 0; i < 40; ++i) p.path.segments.emplace_back ("a b"); std::vector<char> store;\n'
    'auto r = uri::encode (store, p); EXPECT (r.path.segments[39] == "a%20b");', "a path with more than 32 segments one of which needs encoding", "segments after the 32nd are not encoded")
bug("C12-userinfo-set", "C12", [(PA, "case parts_field::userinfo: return pctencode_set::userinfo;", "case parts_field::userinfo: return pctencode_set::path;")],
    'uri::parts p; p.scheme = "a"; p.authority.emplace (); p.authority->userinfo = "u@v"; p.authority->host = "h"; std::vector<char> store;\n'
    'auto r = uri::encode (store, p); EXPECT (*r.authority->userinfo == "u%40v");', "a userinfo with a character in the userinfo set but not in the path set", "userinfo is encoded with the path set")
bug("C13-later-label-error", "C13", [(PA, "      } else if (auto const* const erc =\n                   std::get_if<std::error_code> (&decode_result)) {\n        return *erc;", "      } else if (auto const* const erc =\n                   std::get_if<std::error_code> (&decode_result)) {\n        if (std::ranges::end (view) == last && first != last && *first == '-') {\n          first = last;\n          break;\n        }\n        return *erc;")],
    'uri::parts p; p.scheme = "a"; p.authority.emplace ().host = "xn---!"; std::vector<char> store; auto r = uri::decode (store, p); EXPECT (std::holds_alternative<std::error_code> (r));',
    "a malformed label beginning with a hyphen", "the error of a malformed last label is swallowed")
bug("C13-error-overwritten", "C13", [(PA, "    return decoded->any_encoded ? sink.size () : std::size_t{0};", "    return decoded->any_encoded && sink.size () > 1 ? sink.size () : std::size_t{0};")],
    'uri::parts p; p.scheme = "a"; p.authority.emplace ().host = "xn--a-"; std::vector<char> store; auto r = uri::decode (store, p);\n'
    'EXPECT (std::holds_alternative<uri::parts> (r) && std::get<uri::parts> (r).authority->host == "a");', "a host that decodes to one byte", "such a host is left undecoded")
bug("C14-reserve", "C14", [(PAC, "  return uri::pctdecode (str).size ();", "  auto const n = uri::pctdecode (str).size ();\n  return n > 64 ? n - 1 : n;")],
    'uri::parts p; p.scheme = "a"; std::string q = "%41" + std::string (80, \'x\'); p.query = q; p.fragment = q; std::vector<char> store; auto r = uri::decode (store, p);\n'
    'auto const& o = std::get<uri::parts> (r); EXPECT (o.query->data () >= store.data () && o.query->data () < store.data () + store.size ());',
    "components that decode to more than 64 bytes", "the store is reserved too small and reallocates under earlier views")
bug("C15-overlong-e0", "C15", [(IC, "    12,12,12,12,12,12,12,24,12,12,12,12, 12,24,12,12,12,12,12,12,12,24,12,12,\n", "    12,24,12,12,12,12,12,24,12,12,12,12, 12,24,12,12,12,12,12,12,12,24,12,12,\n")],
    'icubaby::t8_32 t; std::vector<char32_t> v; for (auto c : {0xE0, 0x80, 0x80}) t (static_cast<char8_t> (c), std::back_inserter (v)); EXPECT (!t.well_formed ());',
    "an overlong or surrogate three-byte sequence", "the automaton accepts a sequence the Unicode standard forbids")
bug("C15-end-cp", "C15", [(IC, "      state_ = reject;\n      *(dest++) = replacement_char;\n      well_formed_ = false;\n", "      state_ = reject;\n      *(dest++) = replacement_char;\n      well_formed_ = code_point_ == 0;\n")],
    'icubaby::t8_32 t; std::vector<char32_t> v; t (static_cast<char8_t> (0xF0), std::back_inserter (v)); t.end_cp (std::back_inserter (v)); EXPECT (!t.well_formed ());',
    "input that ends after the single byte F0 (or E0)", "a truncated sequence is called well formed")
bug("C16-bmp-limit", "C16", [(IC, "    } else if (code_unit <= 0xFFFF) {\n", "    } else if (code_unit < 0xFFFF) {\n")],
    'icubaby::t32_16 t; std::vector<char16_t> v; t (char32_t{0xFFFF}, std::back_inserter (v)); EXPECT (v.size () == 1);', "the code point U+FFFF", "U+FFFF is written as a surrogate pair")
bug("C17-high-high", "C17", [(IC, "      high_ = adjusted_high (code_unit);\n      assert (has_high_);\n      return dest;", "      assert (has_high_);\n      return dest;")],
    'icubaby::t16_32 t; std::vector<char32_t> v; for (char16_t c : {0xD800, 0xD801, 0xDC00}) t (c, std::back_inserter (v)); EXPECT (v.size () == 2 && v[1] == 0x10400);',
    "a high surrogate followed by a different high surrogate and a low surrogate", "the first high surrogate is paired instead of the second")
bug("C17-last-low", "C17", [(IC, "constexpr bool is_low_surrogate (char32_t code_point) noexcept {\n  return code_point >= first_low_surrogate && code_point <= last_low_surrogate;", "constexpr bool is_low_surrogate (char32_t code_point) noexcept {\n  return code_point >= first_low_surrogate && code_point < last_low_surrogate;")],
    'icubaby::t16_32 t; std::vector<char32_t> v; for (char16_t c : {0xD800, 0xDFFF}) t (c, std::back_inserter (v)); EXPECT (v.size () == 1 && t.well_formed ());',
    "the code unit DFFF", "DFFF is not a low surrogate")
bug("C18-utf8-bom-copy", "C18", [(IC, "    {std::byte{0xEF}, std::byte{0xBB}, std::byte{0xBF}},                   // UTF-8", "    {std::byte{0xEF}, std::byte{0xBB}, std::byte{0xBE}},                   // UTF-8")],
    'icubaby::tx_32 t; std::vector<char32_t> v; for (auto c : {0xEF, 0xBB, 0xBF, 0x41}) t (static_cast<std::byte> (c), std::back_inserter (v)); EXPECT (v.size () == 1 && v[0] == 0x41);',
    "a UTF-8 byte order mark", "the UTF-8 mark is not recognised")
bug("C27-star-excess", "C27", [(R, "    ++count;\n    if (count > max) {\n      break;  // Stop after max repeats.\n    }\n", "    ++count;\n    if (count > max) {\n      auto const& extra = std::get<acceptor_container> (*m);\n      acc.insert (acc.end (), extra.begin (), extra.end ());\n      break;  // Stop after max repeats.\n    }\n")],
    'int n = 0; auto m = [&n] (uri::rule const& r) { return r.concat (uri::digit, [&n] (std::string_view) { ++n; }).matched ("d", r); };\n'
    'EXPECT (uri::rule{"123"}.star (m, 0, 2).concat (uri::digit).done ()); EXPECT (n == 2);', "a bounded repetition whose element has an acceptor and matches once more than the maximum",
    "the acceptor of the repetition that was not consumed runs")
bug("C27-alternative-acceptors", "C27", [(R, "  rule res = rule{*tail_}.concat_impl (match, accept, true);\n", "  rule res = rule{*tail_}.concat_impl (match, accept, true);\n  if (res.tail_ && res.tail_->length () == tail_->length ()) {\n    return *this;\n  }\n")],
    'int n = 0; auto m = [] (uri::rule const& r) { return r.star (uri::digit).matched ("d", r); };\n'
    'EXPECT (uri::rule{""}.optional (m, [&n] (std::string_view) { ++n; }).done ()); EXPECT (n == 1);', "an optional part that matches the empty string", "its acceptor does not run")
bug("C30-fill-end", "C30", [(IC, "  if (next_ == input_end) {\n    // We've consumed", "  if (next_ == input_end && out_it == out_begin) {\n    // We've consumed")],
    'char16_t const in[] = {0xD800, 0xD800}; std::u16string_view sv{in, 2}; std::vector<char32_t> v;\n'
    'for (auto c : sv | icubaby::views::transcode<char16_t, char32_t>) v.push_back (c); EXPECT (v.size () == 2);',
    "UTF-16 input whose last two units are both high surrogates", "the replacement for the last unit is lost")
bug("C30-start-a0", "C30", [(IC, "(static_cast<std::byte> (code_unit) & std::byte{0xC0}) != std::byte{0x80};", "(static_cast<std::byte> (code_unit) & std::byte{0xC2}) != std::byte{0x80};")],
    'std::u8string_view s = u8"\\u00a2x"; EXPECT (icubaby::length (s) == 2);',
    "continuation bytes with bit 1 set", "such bytes are counted as the start of a code point")
US = "tools/uri-split/uri-split.cpp"
def cli(id, edits, sh, needs, breaks):
    BUGS.append(dict(id=id, property="C24", edits=edits, needs=needs, breaks=breaks, sh="""#!/bin/bash
# run with cwd /repo: builds uri-split and runs it on scratch files
d=$(mktemp -d)
trap 'rm -rf "${d:?}"' EXIT
g++ -std=gnu++20 -w -I include tools/uri-split/uri-split.cpp lib/uri/*.cpp -o "$d/us" || exit 3
fail () { echo "$1"; exit 1; }
""" + sh + "\nexit 0\n"))
cli("C24-last-file-decides", [(US, "      if (!read_stream (infile)) {\n        return EXIT_FAILURE;\n      }", "      exit_code = read_stream (infile) ? EXIT_SUCCESS : EXIT_FAILURE;")],
    'echo "http://a/" > "$d/good"; echo ":bad" > "$d/bad"\n"$d/us" "$d/bad" "$d/good" > /dev/null && fail "a bad file before a good one"',
    "two files, the first of which has a line that does not parse", "the exit status is that of the last file")
cli("C24-blank-line", [(US, "    if (!r) {\n      return false;\n    }", "    if (!r) {\n      if (line.empty ()) {\n        continue;\n      }\n      return false;\n    }")],
    'printf "http://a/\\n\\n" > "$d/f"\n"$d/us" "$d/f" > /dev/null && fail "an empty line"', "an empty line", "empty lines are skipped instead of failing")
cli("C24-empty-port", [(US, '                << "\\n port: " << value_or_none (r->authority->port);', '                << "\\n port: "\n                << value_or_none (r->authority->port.value_or ("").empty () ? std::nullopt : r->authority->port);')],
    'echo "http://a:/" > "$d/f"\n"$d/us" "$d/f" | grep -q "port: \\"\\"" || fail "an empty port"', "a URI with a colon but no port", "an empty port is printed as None")
cli("C24-no-final-newline", [(US, "  while (getline (is, line)) {", "  while (getline (is, line) && !is.eof ()) {")],
    'printf ":bad" > "$d/f"\n"$d/us" "$d/f" > /dev/null && fail "an unterminated last line"', "a last line without a newline", "an unterminated last line is ignored")
cli("C24-reference", [(US, "auto r = uri::split (line);", "auto r = line.find (':') != std::string::npos ? uri::split_reference (line) : uri::split (line);")],
    'echo "/a:b" > "$d/f"\n"$d/us" "$d/f" > /dev/null && fail "a relative reference"', "a relative reference containing a colon", "relative references are accepted")
FL = "include/uri/find_last.hpp"; SW = "include/uri/starts_with.hpp"; PDH = "include/uri/pctdecode.hpp"
COMPILE = """#!/bin/bash
# run with cwd /repo: does a small client program compile (and run)?
here=$(cd "$(dirname "$0")" && pwd)
exe=$(mktemp)
g++ -std=gnu++20 -w -I include "$here/demo.cpp" lib/uri/*.cpp -o "$exe" || { unlink "$exe"; exit 1; }
timeout 60 "$exe"
rc=$?
unlink "$exe"
exit $rc
"""
def client(id, prop, edits, text, needs, breaks):
    BUGS.append(dict(id=id, property=prop, edits=edits, needs=needs, breaks=breaks, sh=COMPILE, files={"demo.cpp": text}))
client("C25-sentinel-default", "C25", [(PDH, "  sentinel () = default;\n", "")],
    '#include "uri/pctdecode.hpp"\n#include <ranges>\n#include <string>\nint main () {\n  std::string s = "a%41b";\n'
    '  auto base = std::views::counted (s.begin (), 5) | std::views::take_while ([] (char c) { return c != \'!\'; });\n'
    '  auto v = base | uri::views::pctdecode;\n  static_assert (std::ranges::forward_range<decltype (v)>);\n  return std::ranges::distance (v) == 3 ? 0 : 1;\n}\n',
    "a base view whose end is a sentinel", "the view's end is not a sentinel (not default constructible)")
client("C25-postincrement", "C25", [(PDH, "  pctdecode_iterator operator++ (int) {\n    auto const prev = *this;\n    ++(*this);\n    return prev;\n  }", "  void operator++ (int) { ++(*this); }")],
    '#include "uri/pctdecode.hpp"\n#include <iterator>\n#include <string>\nstatic_assert (std::forward_iterator<uri::pctdecode_iterator<std::string::const_iterator>>);\nint main () { return 0; }\n',
    "using the iterator as a forward iterator", "i++ gives nothing")
bug("C26-range-projections", "C26", [(SW, "                    std::move (pred), std::move (proj1), std::move (proj2));\n  }\n};", "                    std::move (pred), std::move (proj2), std::move (proj1));\n  }\n};")],
    'std::vector<int> a{1, 2, 3}, b{2, 4}; auto twice = [] (int x) { return 2 * x; };\nEXPECT (uri::starts_with (a, b, std::ranges::equal_to{}, twice, std::identity{}));',
    "the range overload with two different projections", "the projections are swapped", pre='#include "uri/starts_with.hpp"\n#include <algorithm>\n#include <functional>\n')
client("C31-release-only", "C31", [(FL, "  auto const result = std::ranges::subrange<Iterator>{std::prev (rb.base ()), last};\n#ifndef NDEBUG\n", "#ifndef NDEBUG\n  auto const result = std::ranges::subrange<Iterator>{std::prev (rb.base ()), last};\n")],
    '#define NDEBUG\n#include "uri/find_last.hpp"\nint main () { int a[] = {1, 2}; return uri::find_last (a, a + 2, 1).begin () == a ? 0 : 1; }\n', "a program compiled with NDEBUG", "the header does not compile in release builds")
bug("C20-merge-scratch", "C20", [(U, "  struct uri::parts::path r2;\n  r2.absolute = base.path.absolute;\n", "  static struct uri::parts::path r2;\n  r2.segments.clear ();\n  r2.absolute = base.path.absolute;\n")],
    'std::atomic<int> bad{0};\nauto work = [&bad] (std::string ref, std::size_t n) { for (int i = 0; i < 20000; ++i) { auto r = uri::join ("http://h/a/b/c", ref);\n'
    '  if (!r || r->path.segments.size () != n) ++bad; } };\nstd::thread t1{work, "d", 3}, t2{work, "d/e/f/g", 6}, t3{work, "h/i", 4};\nt1.join (); t2.join (); t3.join ();\nEXPECT (bad == 0);',
    "joins on several threads at once", "merge builds its result in a static object", pre='#include <atomic>\n#include <thread>\n#include <string>\n')
bug("C20-hex-locale", "C20", [(PD, "  if (digit >= '0' && digit <= '9') {\n", "  if (std::isdigit (static_cast<char> (digit), std::locale ())) {\n"), (PD, "#include <concepts>\n", "#include <concepts>\n#include <locale>\n")],
    'std::locale::global (std::locale (std::locale::classic (), new facet));\nEXPECT (uri::pctdecode ("%\\xb2\\xb2") == "%\\xb2\\xb2");',
    "a locale in which a byte above 127 is a digit", "which bytes are hexadecimal digits depends on the locale",
    pre='#include <locale>\n#include <vector>\nstruct facet : std::ctype<char> {\n  static mask const* make () { static std::vector<mask> v (classic_table (), classic_table () + table_size); v[0xb2] |= digit; return v.data (); }\n  facet () : std::ctype<char> (make ()) {}\n};\n')
bug("C20-join-memo", "C20", [(U, "  auto const base_parts = split (base);\n", "  // Joins usually come in runs against the same base.\n  static thread_local std::string_view last;\n  static thread_local std::optional<parts> base_parts;\n  if (!base_parts || base.data () != last.data () || base.size () != last.size ()) {\n    base_parts = split (base);\n    last = base;\n  }\n")],
    'std::string b = "http://h/a/b";\nEXPECT (uri::compose (*uri::join (b, "c")) == "http://h/a/c");\nb = "x:bc/def/ghi";\nauto r = uri::join (b, "/c"); EXPECT (r && uri::compose (*r) == "x:/c");',
    "two joins whose base texts have the same address and length but not the same content", "the parts of the first base are used again", pre='#include <string>\n')

bug("C22-join-trim-copy", "C22", [(U, "std::optional<parts> join (std::string_view base, std::string_view reference,\n                           bool strict) {\n", "std::optional<parts> join (std::string_view base, std::string_view reference,\n                           bool strict) {\n  // The base's fragment plays no part in resolution: don't parse it.\n  std::string trimmed;\n  if (auto const pos = base.find ('#'); pos != std::string_view::npos && base.find ('#', pos + 1) == std::string_view::npos) {\n    trimmed = base.substr (0, pos);\n    base = trimmed;\n  }\n")],
    'std::string const b = "http://example.com/a/rather/long/path/indeed#frag"; auto r = uri::join (b, "?q"); EXPECT (r); EXPECT (r->authority->host.data () >= b.data () && r->authority->host.data () < b.data () + b.size ());',
    "join of texts whose base has a fragment", "the result views a local copy of the base")
bug("C22-scheme-intern", "C22", [(U, "        [&result] (std::string_view const scheme) { result.scheme = scheme; })\n      .concat (colon)\n      .concat (hier_part (result))\n      .optional (question_query (result))\n      .optional (hash_fragment (result))\n      .matched (\"URI\", r);", "        [&result] (std::string_view const scheme) {\n          // Most text is a web address: share a single copy of its scheme.\n          static std::string const web{\"http\"};\n          result.scheme = scheme == web ? std::string_view{web} : scheme;\n        })\n      .concat (colon)\n      .concat (hier_part (result))\n      .optional (question_query (result))\n      .optional (hash_fragment (result))\n      .matched (\"URI\", r);")],
    'std::string const b = "http://example.com/"; auto r = uri::split (b); EXPECT (r); EXPECT (r->scheme->data () == b.data ());',
    "a text whose scheme is exactly http", "the scheme views library-owned memory instead of the caller's text")
bug("C22-merge-root", "C22", [(U, "        } else {\n          target.path = merge (base, reference);\n          target.path.remove_dot_segments ();\n        }\n", "        } else {\n          target.path = merge (base, reference);\n          target.path.remove_dot_segments ();\n          if (target.path.segments.size () > 1 && target.path.segments.front ().empty () && !base.authority) {\n            target.path.segments.front () = \".\";\n          }\n        }\n")],
    'auto r = uri::join ("a:/b", ".//c"); EXPECT (r && r->path.segments.size () == 2 && r->path.segments[0].empty ());',
    "a merged path that begins with an empty segment and has no authority", "a literal is put in place of the first segment")
ENC = 'std::u32string in = %s; std::string out; uri::punycode::encode (in, false, std::back_inserter (out)); '
DEC = 'std::string in = %s; auto r = uri::punycode::decode (in); '
bug("C19-adapt-boundary", "C19", [(PU, "  while (delta > ((base - tmin) * tmax) / 2U) {", "  while (delta >= ((base - tmin) * tmax) / 2U) {")],
    ENC % 'U"abc\\xf954\\x10ffff"' + 'EXPECT (out == "abc-d91s07420n");',
    "a delta whose scaled value is exactly 455 when the bias is adapted, with a further number after it", "one adaptation step too many: encoder and decoder agree with each other but not with RFC 3492",
    pre='#include "uri/punycode.hpp"\n#include <iterator>\n')
bug("C19-high-bit-digit", "C19", [(PU, "  if (cp >= 'a') {\n    cp -= 'a' - 'A';  // Convert to upper case.\n  }", "  cp &= 0x5FU;  // Convert to upper case.")],
    DEC % '"tda\\xf4\\xe4\\xe1"' + 'EXPECT (std::holds_alternative<std::error_code> (r));',
    "a byte with the high bit set where a digit is expected", "such bytes count as letters", pre='#include "uri/punycode.hpp"\n')
bug("C19-wrap", "C19", [(PU, "    if (digit > (max - vli) / w) {", "    if (digit > max / w) {")],
    DEC % '"qp124498107776961m"' + 'EXPECT (std::holds_alternative<std::error_code> (r));',
    "a number slightly above 2^64", "the accumulated value wraps and a result is returned", pre='#include "uri/punycode.hpp"\n')
bug("C19-first-time", "C19", [(PU, "    bias = adapt (index - old_vli, output_length, old_vli == 0);", "    bias = adapt (index - old_vli, output_length, n == initial_n);")],
    ENC % 'U"\\x80\\x3042\\x80\\x10ffff"' + 'auto d = uri::punycode::decode (out); EXPECT (d.index () == 1 && std::get<1> (d).str == in);',
    "U+0080 before other code points outside ASCII", "the decoder damps the second delta like a first one", pre='#include "uri/punycode.hpp"\n#include <iterator>\n')
bug("C19-limit", "C19", [(PU, "    if (index / output_length > std::numeric_limits<std::uint_least32_t>::max () - n) {", "    if (index / output_length > std::numeric_limits<std::uint_least32_t>::max ()) {")],
    DEC % '"px902716a"' + 'EXPECT (std::holds_alternative<std::error_code> (r));',
    "a delta that takes the code point past 32 bits by less than 128", "the code point wraps to a small value", pre='#include "uri/punycode.hpp"\n#include <iterator>\n')
bug("C28-delta-32", "C28", [(PU, "    delta += (m - n) * (i + 1);", "    delta += static_cast<std::uint_least32_t> ((m - n) * (i + 1));")],
    'std::u32string in (4200, U\'a\'); in += char32_t{0x10FFFF}; std::string out; uri::punycode::encode (in, false, std::back_inserter (out)); '
    'auto d = uri::punycode::decode (out); EXPECT (d.index () == 1 && std::get<1> (d).str == in);',
    "a label of thousands of letters followed by a code point of a high plane", "the delta is cut to 32 bits", pre='#include "uri/punycode.hpp"\n#include <iterator>\n')
bug("C28-hyphen-only", "C28", [(PU, "  // Add a delimiter if we have at least one basic code point.\n  if (num_basics > 0) {", "  // Add a delimiter if we have at least one basic code point.\n  if (num_basics > 0 && (num_basics > 1 || *std::ranges::begin (range) != U'-' || non_basic.empty ())) {")],
    'std::u32string in = U"-\\x3042"; std::string out; uri::punycode::encode (in, false, std::back_inserter (out)); '
    'auto d = uri::punycode::decode (out); EXPECT (d.index () == 1 && std::get<1> (d).str == in);',
    "a label whose only ASCII character is a leading hyphen", "no delimiter is written, and the literal hyphen is taken for one", pre='#include "uri/punycode.hpp"\n#include <iterator>\n')
bug("C29-lookahead", "C29", [(U, """    .star ([] (rule const& r1) {
      return r1.alternative (unreserved, pct_encoded, sub_delims)
        .matched ("reg-name/*", r1);
    })
""", """    .star ([] (rule const& r1) {
      return r1
        .alternative (
          // A label followed by a port is taken as a whole.
          [] (rule const& r2) {
            return r2
              .star ([] (rule const& r3) {
                return r3
                  .alternative (
                    [] (rule const& r4) {
                      return r4.star (unreserved).concat (single_colon).matched ("label:", r4);
                    },
                    unreserved)
                  .matched ("label/*", r3);
              })
              .concat (percent_sign)
              .concat (percent_sign)
              .matched ("label", r2);
          },
          unreserved, pct_encoded, sub_delims)
        .matched ("reg-name/*", r1);
    })
""")],
    'auto t = [] (std::size_t n) { std::string s = "a://" + std::string (n, \'a\'); auto b = std::chrono::steady_clock::now (); (void) uri::split (s); return std::chrono::duration<double> (std::chrono::steady_clock::now () - b).count (); };\n'
    'double const a = std::min ({t (60), t (60), t (60), t (60)}); double const b = std::min ({t (480), t (480), t (480)}); EXPECT (b < 64 * a + 0.001);',
    "a host name of a few hundred letters", "matching a host name takes time proportional to the cube of its length", pre='#include <chrono>\n#include <algorithm>\n')
# -- C21, C23
ASSERTING = DEMO_SH = """#!/bin/bash
# run with cwd /repo: builds demo.cpp with the library's sources, the standard library's checks on, and runs it
here=$(cd "$(dirname "$0")" && pwd)
exe=$(mktemp)
g++ -std=gnu++20 -w -O0 %s -I include "$here/demo.cpp" lib/uri/*.cpp -o "$exe" || { unlink "$exe"; exit 3; }
ulimit -c 0
(ulimit -v 4000000; timeout 60 "$exe")
rc=$?
unlink "$exe"
exit $rc
"""
CHECKED = "-D_GLIBCXX_DEBUG -D_GLIBCXX_ASSERTIONS"


def checked(id, prop, edits, body, needs, breaks, flags=CHECKED):
    BUGS.append(dict(id=id, property=prop, edits=edits, needs=needs, breaks=breaks, sh=ASSERTING % flags,
                     files={"demo.cpp": '#include "uri/parts.hpp"\n#include "uri/uri.hpp"\n#include <string>\n#include <vector>\nint main () {\n%s\n}\n' % body}))


checked("C23-colon-at-end", "C23", [(U, "if (sv->empty () || sv->front () != ':') {", "if (sv->front () != ':') {")],
        '  std::string const t = "http://[1:";\n  return uri::split (t) ? 1 : 0;', "a text that ends after the colon of an IPv6 group", "the character after the end of the text is read")
checked("C23-previous-segment", "C23", [(U, "      if (outit != begin) {\n        --outit;\n      }", "      if (auto const previous = outit - 1; outit != begin) {\n        outit = previous;\n      }")],
        '  auto const r = uri::join ("http://a/b", "../../c");\n  return r && r->path.segments.size () == 1 ? 0 : 1;', "'..' with nothing left to remove", "an iterator before the first segment is formed")
checked("C23-absent-query", "C23", [(U, "target.query = reference.query ? reference.query : base.query;", "target.query = reference.query || base.query->data () == nullptr\n                         ? reference.query\n                         : base.query;")],
        '  auto const r = uri::join ("http://a/b", "#f");\n  return r && !r->query ? 0 : 1;', "neither the reference nor the base has a query and the reference's path is empty", "an absent query is dereferenced")
checked("C21-star-recursive", "C21", [(R, "  for (;;) {\n    matched_result const m = match (rule{str});\n    if (!m) {\n      break;  // No match so no more repetitions.\n    }\n    ++count;\n    if (count > max) {\n      break;  // Stop after max repeats.\n    }\n",
                                          "  auto const more = [&] (auto const& self) -> void {\n    matched_result const m = match (rule{str});\n    if (!m) {\n      return;  // No match so no more repetitions.\n    }\n    ++count;\n    if (count > max) {\n      return;  // Stop after max repeats.\n    }\n"),
                                      (R, "    acc.insert (acc.end (), a.begin (), a.end ());\n  }\n  if (count < min) {", "    acc.insert (acc.end (), a.begin (), a.end ());\n    self (self);\n  };\n  more (more);\n  if (count < min) {")],
        '  std::string const t = "http://h/" + std::string (300000, \'a\');\n  return uri::split (t) ? 0 : 1;', "a component of some hundred thousand characters", "repetition recurses: the stack overflows on long texts", "-O0")
checked("C21-lone-percent", "C21", [(U, "auto pct_encoded (rule const& r) {\n  return r.concat (percent_sign)\n", "auto pct_encoded (rule const& r) {\n  // A literal percent sign (\"%%\") stands for itself.\n  if (r.tail () && r.tail ()->starts_with (\"%%\")) {\n    return r.matched (\"pct-encoded\", r);\n  }\n  return r.concat (percent_sign)\n")],
        '  return uri::split ("http://h/%%41") ? 1 : 0;', "two adjacent percent signs", "a repetition succeeds without consuming anything and never ends", "-O0")
checked("C21-path-recursive", "C21", [(U, "parts::path::operator std::string () const {\n  std::string p;\n  auto const* separator = absolute ? \"/\" : \"\";\n  for (auto const& seg : segments) {\n    p += separator;\n    p += seg;\n    separator = \"/\";\n  }\n  return p;\n}",
                                          "namespace {\nvoid append_segments (std::string& p, char const* separator,\n                      std::vector<std::string_view>::const_iterator first,\n                      std::vector<std::string_view>::const_iterator last) {\n  std::string const tail = separator;\n  if (first != last) {\n    p += tail;\n    p += *first;\n    append_segments (p, \"/\", std::next (first), last);\n  }\n}\n}  // namespace\n\nparts::path::operator std::string () const {\n  std::string p;\n  if (!segments.empty ()) {\n    append_segments (p, absolute ? \"/\" : \"\", segments.begin (),\n                     segments.end ());\n  }\n  return p;\n}")],
        '  uri::parts p;\n  p.scheme = "a";\n  p.path.absolute = true;\n  p.path.segments.assign (400000, "x");\n  return uri::compose (p).size () == 800002 ? 0 : 1;', "a path of some hundred thousand segments", "the depth of recursion is the number of segments", "-O0")
# -- second round
bug("C02-many-segments", "C02", [(U, "          .matched (\"\\\"/\\\" segment\", r1);\n      })\n      .matched (\"path-noscheme\", r);", "          .matched (\"\\\"/\\\" segment\", r1);\n      }, 0U, 255U)\n      .matched (\"path-noscheme\", r);")],
    'std::string t = "a"; for (int i = 0; i < 300; ++i) t += "/b"; EXPECT (uri::split_reference (t).has_value ());', "a relative path of more than 256 segments", "long relative paths are refused")
bug("C05-scheme-case", "C05", [(U, "  if (!strict && reference.scheme == base.scheme) {", "  if (!strict && (reference.scheme == base.scheme || !base.authority)) {")],
    'auto r = uri::join ("a:b", "c:d", false); EXPECT (r && r->scheme == "c");', "non-strict mode, a base without authority and a reference with another scheme", "the scheme of the reference is dropped")
bug("C05-query-of-dot", "C05", [(U, "      if (reference.path.empty ()) {\n        target.path = base.path;", "      if (reference.path.empty () ||\n          (reference.path.segments.size () == 1 && !base.authority && reference.path.segments[0].empty ())) {\n        target.path = base.path;")],
    'auto b = uri::split ("a:/x/y"); uri::parts r; r.path.absolute = true; r.path.segments = {""}; auto t = uri::join (*b, r); EXPECT (t.path.segments.size () == 1);', "the reference '/' against a base without authority", "the reference '/' gives the base's path")
bug("C07-fragment-order", "C07", [(U, "  if (auth.userinfo.has_value ()) {\n    os << *auth.userinfo << \"@\";\n  }", "  if (auth.userinfo.has_value () && !auth.host.empty ()) {\n    os << *auth.userinfo << \"@\";\n  }")],
    'auto r = uri::split ("a://u@/x"); EXPECT (r && uri::compose (*r) == "a://u@/x");', "userinfo with an empty host", "the userinfo is not written")
bug("C08-fragment", "C08", [(U, "  if (this->authority && rhs.authority) {\n    // Ignore", "  if (this->authority || path.segments.empty ()) {\n    // Ignore")],
    'uri::parts a, b; a.path.absolute = true; EXPECT (!(a == b)); a.path.absolute = false; EXPECT (a == b);', "no authority, empty paths, one of them absolute", "the flag is ignored without an authority")
bug("C12-first-of-many", "C12", [(PA, "      if (needs_encoding_pos >= needs_encoding.size () && !needs_pctencode (str, es)) {", "      if (needs_encoding_pos > needs_encoding.size () && !needs_pctencode (str, es)) {")],
    'uri::parts p; p.scheme = "a"; p.path.absolute = true; for (int i = 0; i < 40; ++i) p.path.segments.emplace_back ("ab"); std::vector<char> s; auto r = uri::encode (s, p);\n'
    'EXPECT (r.path.segments[26].data () == p.path.segments[26].data ());', "a path of 27 segments or more", "the 27th segment is copied although it needs no encoding")
bug("C13-plain-last-label", "C13", [(PA, "      auto const& copy_result = std::ranges::copy (view, out);\n", "      any_encoded = any_encoded && first != last;\n      auto const& copy_result = std::ranges::copy (view, out);\n")],
    'uri::parts p; p.scheme = "a"; p.authority.emplace (); p.authority->host = "xn--bcher-kva."; std::vector<char> s; auto r = uri::decode (s, p); EXPECT (std::get<uri::parts> (r).authority->host == "b\\xc3\\xbc" "cher.");',
    "an encoded host with a trailing dot", "a host that ends with a dot is left undecoded")
bug("C14-keep-store", "C14", [(PA, "  parts result = p;\n  store.clear ();\n\n  auto required_size = std::size_t{0};\n  std::error_code error;", "  parts result = p;\n  if (store.capacity () < 64) {\n    store.clear ();\n  }\n\n  auto required_size = std::size_t{0};\n  std::error_code error;")],
    'uri::parts p; p.scheme = "a"; p.query = "%41%42"; std::vector<char> s (100, \'z\'); auto r = uri::decode (s, p); EXPECT (std::get<uri::parts> (r).query == "AB" && s.size () == 2);',
    "a store with old contents and room for 64 characters", "the old contents stay in the store")
bug("C15-f5", "C15", [(IC, "11,6,6,6,5,8,8,8,8,8,8,8,8,8,8,8,", "11,6,6,6,5,5,8,8,8,8,8,8,8,8,8,8,")],
    'std::string s = "\\xF5\\x80\\x80\\x80"; std::u32string o; icubaby::t8_32 t; auto it = std::back_inserter (o); for (char c : s) it = t (static_cast<char8_t> (c), it); t.end_cp (it); EXPECT (!t.well_formed ());',
    "a sequence that begins with F5", "F5 is taken for a lead byte", pre='#include "uri/icubaby.hpp"\n')
bug("C16-u800", "C16", [(IC, "    if (code_unit < 0x800) {", "    if (code_unit <= 0x800) {")],
    'std::string o; icubaby::t32_8 t; t (char32_t{0x800}, std::back_inserter (o)); EXPECT (o == "\\xe0\\xa0\\x80");', "U+0800", "U+0800 is written in two bytes", pre='#include "uri/icubaby.hpp"\n')
bug("C16-noncharacter", "C16", [(IC, "    if (code_unit > max_code_point || is_surrogate (code_unit)) {\n      well_formed_ = false;", "    if (code_unit > max_code_point || is_surrogate (code_unit) || (code_unit & 0xFFFFU) == 0xFFFFU) {\n      well_formed_ = false;")],
    'std::u32string o; icubaby::t32_32 t; t (char32_t{0x1FFFF}, std::back_inserter (o)); EXPECT (o[0] == 0x1FFFF && t.well_formed ());', "a noncharacter such as U+1FFFF", "noncharacters are replaced", pre='#include "uri/icubaby.hpp"\n')
bug("C17-dangling-high", "C17", [(IC, "      *(dest++) = replacement_char;\n      high_ = 0;\n      has_high_ = false;\n      well_formed_ = false;\n    }\n    return dest;", "      *(dest++) = replacement_char;\n      well_formed_ = high_ == 0;\n      high_ = 0;\n      has_high_ = false;\n    }\n    return dest;")],
    'std::u32string o; icubaby::t16_32 t; auto it = t (char16_t{0xD800}, std::back_inserter (o)); t.end_cp (it); EXPECT (!t.well_formed ());', "D800 as the last unit", "the input is called well formed", pre='#include "uri/icubaby.hpp"\n')
bug("C18-be32-third", "C18", [(IC, "    case states::utf8_bom_byte1:\n    case states::utf32_or_16_le_bom_byte1:\n    case states::utf32_or_16_be_bom_byte1:\n    case states::utf32_be_bom_byte2:\n      buffer_[byte_no (state_)] = value;\n      if (value == details::boms[boms_index_from_state (state_)][byte_no (state_)]) {\n        state_ = next_byte (state_);\n      } else {\n        // Default input encoding. Emit buffer.\n        dest = this->run8_start (true, dest);", "    case states::utf8_bom_byte1:\n    case states::utf32_or_16_le_bom_byte1:\n    case states::utf32_or_16_be_bom_byte1:\n    case states::utf32_be_bom_byte2:\n      buffer_[byte_no (state_)] = value;\n      if (value == details::boms[boms_index_from_state (state_)][byte_no (state_)]) {\n        state_ = next_byte (state_);\n      } else {\n        // Default input encoding. Emit buffer.\n        dest = this->run8_start (value != std::byte{0x00}, dest);")],
    'std::u32string o; icubaby::tx_32 t; auto it = std::back_inserter (o); for (int b : {0xEF, 0x00, 0x41}) it = t (std::byte (b), it); t.end_cp (it); EXPECT (o.size () == 2);',
    "EF followed by a zero byte", "both bytes are lost", pre='#include "uri/icubaby.hpp"\n')
bug("C26-predicate-order", "C26", [(SW, "    return std::ranges::mismatch (std::move (first1), last1, std::move (first2),\n                                  last2, std::move (pred), std::move (proj1),\n                                  std::move (proj2))\n             .in2 == last2;",
    "    for (; first2 != last2; ++first1, ++first2) {\n      if (first1 == last1 ||\n          !std::invoke (pred, std::invoke (proj2, *first2),\n                        std::invoke (proj1, *first1))) {\n        return false;\n      }\n    }\n    return true;")],
    'std::vector<int> a{1, 2, 3}, b{2, 3}; EXPECT (uri::starts_with (a, b, std::ranges::less{}));', "a predicate that is not symmetric", "the predicate's arguments are swapped", pre='#include "uri/starts_with.hpp"\n#include <algorithm>\n#include <functional>\n')
bug("C30-length-projection", "C30", [(IC, "  return length (std::ranges::subrange{first, last}, proj);", "  return length (std::ranges::subrange{first, last});")],
    'std::u32string s = U"ab"; auto p = [] (char32_t c) { return c == U\'a\' ? char32_t{0xD800} : c; }; EXPECT (icubaby::length (s.begin (), s.end (), p) == 1);',
    "the iterator overload of length with a projection", "the projection is ignored", pre='#include "uri/icubaby.hpp"\n')
bug("C30-index-surrogate", "C30", [(IC, "        return is_code_point_start (code_unit) ? (count++ == pos) : false;\n      },\n      proj);", "        return is_code_point_start (code_unit) || count == 0 ? (count++ == pos) : false;\n      },\n      proj);")],
    'std::string s = "\\x80" "ab"; std::u8string u (s.begin (), s.end ()); EXPECT (icubaby::index (u, 0) == u.begin () + 1);', "text that begins with a continuation byte", "the first unit counts as a code point", pre='#include "uri/icubaby.hpp"\n')
client("C31-guard-clash", "C31", [(R, "#ifndef URI_RULE_HPP\n#define URI_RULE_HPP", "#ifndef URI_PARTS_HPP\n#define URI_PARTS_HPP")], '#include "uri/rule.hpp"\n#include "uri/parts.hpp"\nint main () { uri::parts p; std::vector<char> s; return uri::rule{"a"}.done () || uri::encode (s, p).scheme ? 1 : 0; }\n', "rule.hpp and parts.hpp in one translation unit", "two headers share an include guard")
RULEPRE = '#include <functional>\n'
bug("C27-optional-empty", "C27", [(R, "  if (!res.tail_) {\n    return *this;  // The rule failed, so carry on as if nothing happened.\n  }", "  if (!res.tail_ || res.tail_->length () == tail_->length ()) {\n    return *this;  // Nothing was consumed, so carry on as if nothing happened.\n  }")],
    'bool ran = false; auto none = [] (uri::rule const& r) { return r.star (uri::single_char (\'x\')).matched ("none", r); };\n'
    'EXPECT (uri::rule{"a"}.optional (none, [&] (std::string_view) { ran = true; }).concat (uri::single_char (\'a\')).done () && ran);',
    "an optional part that matches nothing", "its accept function does not run", pre=RULEPRE)
bug("C10-colon", "C10", [(PD, "if (digit >= '0' && digit <= '9') {", "if (digit >= '0' && digit <= ':') {")],
    'EXPECT (uri::pctdecode ("%4:") == "%4:"); EXPECT (uri::pctdecode ("%:0") == "%:0");', "a colon after '%'", "':' counts as a digit")
bug("C10-nul", "C10", [(PD, "  for (auto const& c : pctdecoder{s}) {\n    result += c;", "  for (auto const& c : pctdecoder{s}) {\n    if (c == '\\0') {\n      break;\n    }\n    result += c;")],
    'EXPECT (uri::pctdecode ("a%00b").size () == 3);', "an encoded NUL", "the text is cut at a NUL")
client("C25-deref-nonconst", "C25", [(PD, "  reference operator* () const {\n    return details::deref<reference> (pos_, end_, &hex_);", "  reference operator* () {\n    return details::deref<reference> (pos_, end_, &hex_);"), (PD, "  pointer operator->() const { return &(**this); }\n\n  pctdecode_iterator& operator++ () {", "  pointer operator->() { return &(**this); }\n\n  pctdecode_iterator& operator++ () {")],
    '#include "uri/pctdecode.hpp"\n#include <iterator>\n#include <string>\nstatic_assert (std::forward_iterator<uri::pctdecode_iterator<std::string::const_iterator>>);\nint main () { return 0; }\n',
    "reading through a constant iterator", "the iterator is not readable when constant")
bug("C05-nonstrict-value", "C05", [(U, "  if (!strict && reference.scheme == base.scheme) {", "  if (!strict && reference.scheme.value () == base.scheme.value ()) {")],
    'uri::parts b, r; b.scheme = "http"; r.query = "q"; EXPECT (uri::join (b, r, false).scheme == "http");', "non-strict join with a reference without a scheme", "an absent scheme is read: join throws")
bug("C08-shorter-path", "C08", [(U, "  return absolute == rhs.absolute && segments == rhs.segments;", "  if (absolute != rhs.absolute) {\n    return false;\n  }\n  for (std::size_t i = 0; i < segments.size (); ++i) {\n    if (segments[i] != rhs.segments.at (i)) {\n      return false;\n    }\n  }\n  return segments.size () == rhs.segments.size ();")],
    'uri::parts a, b; a.path.segments = {"a", "b"}; b.path.segments = {"a"}; EXPECT (!(a == b)); EXPECT (!(b == a));', "a path that extends the other", "the comparison throws")
bug("C04-scheme-throws", "C04", [(U, "  if (!this->scheme.has_value () ||\n      !rule{this->scheme.value ()}.concat (schemefn).done ()) {", "  if (!rule{this->scheme.value ()}.concat (schemefn).done ()) {")],
    'uri::parts p; EXPECT (!p.valid ());', "parts without a scheme", "valid() ends the program")
