# Behaviour-preserving edits: id, checks that look at the code, edits (file, old, new)
U, R, RC = "lib/uri/uri.cpp", "include/uri/rule.hpp", "lib/uri/rule.cpp"
PE, PEH, PD = "lib/uri/pctencode.cpp", "include/uri/pctencode.hpp", "include/uri/pctdecode.hpp"
PA, PAC, PU, PUC, IC = "include/uri/parts.hpp", "lib/uri/parts.cpp", "include/uri/punycode.hpp", "lib/uri/punycode.cpp", "include/uri/icubaby.hpp"
FL, SW, US = "include/uri/find_last.hpp", "include/uri/starts_with.hpp", "tools/uri-split/uri-split.cpp"
GRAMMAR = ["C01", "C02", "C03", "C04", "C27", "C20", "C21"]
EDITS = []


def edit(id, checks, *edits):
    EDITS.append(dict(id=id, checks=checks, edits=list(edits)))


edit("A1-done-range-for", GRAMMAR, (RC, """  std::for_each (std::begin (acceptors_), std::end (acceptors_),
                 [] (acceptor_container::value_type const& a) {
                   std::invoke (std::get<0> (a), std::get<1> (a));
                 });
""", """  for (auto const& [accept, text] : acceptors_) {
    accept (text);
  }
"""))
edit("A2-matched-early-return", GRAMMAR, (RC, """  assert (!tail_ || in.tail_);
  static constexpr auto trace = false;
  if constexpr (trace) {
    std::cout << (tail_ ? '*' : '-') << ' ' << std::quoted (name);
  }

  if (tail_) {
    std::string_view const str =
      in.tail_->substr (0, in.tail_->length () - tail_->length ());
    if constexpr (trace) {
      std::cout << ' ' << std::quoted (str) << '\\n';
    }
    return std::make_tuple (str, acceptors_);
  }

  if constexpr (trace) {
    std::cout << '\\n';
  }
  return {};
""", """  (void)name;
  if (!tail_.has_value ()) {
    return std::nullopt;
  }
  assert (in.tail_.has_value ());
  auto const& whole = in.tail_.value ();
  auto const consumed = whole.size () - tail_->size ();
  return matched_result{std::in_place, whole.substr (0, consumed), acceptors_};
"""))
edit("A3-join-copy", GRAMMAR, (R, """    acceptor_container result;
    result.reserve (a.size () + b.size ());
    result.insert (result.end (), a.begin (), a.end ());
    result.insert (result.end (), b.begin (), b.end ());
    return result;
""", """    acceptor_container result = a;
    std::copy (std::begin (b), std::end (b), std::back_inserter (result));
    return result;
"""), (R, "#include <functional>\n", "#include <algorithm>\n#include <functional>\n#include <iterator>\n"))
edit("A4-star-for", GRAMMAR, (R, """  auto count = 0U;
  for (;;) {
    matched_result const m = match (rule{str});
    if (!m) {
      break;  // No match so no more repetitions.
    }
    ++count;
    if (count > max) {
      break;  // Stop after max repeats.
    }
    // Strip the matched text from the string.
    auto const l = std::get<std::string_view> (*m).length ();
    str.remove_prefix (l);
    length += l;
    // Remember the corresponding acceptor functions.
    auto const& a = std::get<acceptor_container> (*m);
    acc.insert (acc.end (), a.begin (), a.end ());
  }
  if (count < min) {
    return {};
  }
""", """  unsigned count = 0;
  while (count < max) {
    auto const m = match (rule{str});
    if (!m.has_value ()) {
      break;
    }
    auto const& [text, more] = *m;
    str = str.substr (text.size ());
    length += text.size ();
    for (auto const& a : more) {
      acc.push_back (a);
    }
    ++count;
  }
  if (count < min) {
    return {};
  }
"""))
edit("A5-alternative-ternary", GRAMMAR, (R, """  if (matched_result const m = match (rule{*tail_})) {
    return join_rule (*m);
  }
  // This didn't match, so try the next one.
  return this->alternative (std::forward<Rest> (rest)...);
""", """  auto const m = match (rule{tail_.value ()});
  return m.has_value () ? join_rule (m.value ())
                        : this->alternative (std::forward<Rest> (rest)...);
"""))
edit("A6-concat-push-back", GRAMMAR, (R, """    if (!is_nop (accept)) {
      std::get<acceptor_container> (*m).emplace_back (
        accept, std::get<std::string_view> (*m));
    }
    return join_rule (*m);
""", """    if (!is_nop (accept)) {
      auto& [text, container] = *m;
      container.push_back (std::make_tuple (
        std::function<void (std::string_view)>{accept}, text));
    }
    return join_rule (*m);
"""))
edit("A7-single-char", GRAMMAR, (R, """  if (auto const sv = this->tail ();
      sv && !sv->empty () && pred (sv->front ())) {
    return std::make_tuple (sv->substr (0, 1), acceptor_container{});
  }
  return {};
""", """  if (!tail_ || tail_->size () == 0) {
    return {};
  }
  char const c = (*tail_)[0];
  if (!pred (c)) {
    return std::nullopt;
  }
  return matched_result{std::make_tuple (std::string_view{tail_->data (), 1}, acceptor_container{})};
"""))
edit("A8-char-sets", GRAMMAR, (U, """    auto const cp = static_cast<code_point> (c);
    return cp == code_point::exclamation_mark ||
           cp == code_point::dollar_sign || cp == code_point::ampersand ||
           cp == code_point::apostrophe || cp == code_point::left_parenthesis ||
           cp == code_point::right_parenthesis || cp == code_point::asterisk ||
           cp == code_point::plus_sign || cp == code_point::comma ||
           cp == code_point::semi_colon || cp == code_point::equals_sign;
""", """    static constexpr std::string_view chars{"!$&'()*+,;="};
    return chars.find (c) != std::string_view::npos;
"""), (U, """    auto const cp = static_cast<code_point> (c);
    return ascii::is_alpha (c) || ascii::is_digit (c) ||
           cp == code_point::hyphen_minus || cp == code_point::full_stop ||
           cp == code_point::low_line || cp == code_point::tilde;
""", """    switch (c) {
    case '-':
    case '.':
    case '_':
    case '~': return true;
    default: break;
    }
    return ascii::is_digit (c) || ascii::is_alpha (c);
"""))
edit("A9-h16s-helper", GRAMMAR, (U, """auto ipv6address (rule const& r) {
""", """auto up_to (unsigned const n) {
  return [n] (rule const& r) {
    return r.star (h16_colon, 0, n).concat (h16).matched ("*n( h16 colon ) h16", r);
  };
}

auto ipv6address (rule const& r) {
"""), (U, """          .optional ([] (rule const& r9a) {
            return r9a.star (h16_colon, 0, 6)
              .concat (h16)
              .matched ("*6( h16 colon ) h16", r9a);
          })
""", "          .optional (up_to (6))\n"), (U, """          .optional ([] (rule const& r6a) {
            return r6a.star (h16_colon, 0, 3)
              .concat (h16)
              .matched ("*3( h16 colon ) h16", r6a);
          })
""", "          .optional (up_to (3U))\n"))
edit("A10-acceptor-lambdas", GRAMMAR, (U, """    return r.concat (segment_nz_nc, record_initial_segment{result})
""", """    auto first = [&result] (std::string_view const seg) {
      result.path.segments.push_back (seg);
    };
    return r.concat (segment_nz_nc, first)
"""), (U, """    result_.path.segments.emplace_back ();
""", """    result_.path.segments.push_back (std::string_view{});
"""), (U, """    return r.concat (solidus)
      .concat (solidus)
      .concat (authority (result))
""", """    auto const slashes = [] (rule const& rs) {
      return rs.concat (solidus).concat (solidus).matched ("//", rs);
    };
    return r.concat (slashes)
      .concat (authority (result))
"""))
edit("A11-predicates", GRAMMAR + ["C05"], (R, """  return c >= 'A' && c <= 'Z' ? static_cast<char> (c - 'A' + 'a') : c;
""", """  if (c < 'A' || c > 'Z') {
    return c;
  }
  return static_cast<char> (static_cast<unsigned char> (c) | 0x20U);
"""), (R, """  return to_lower (c) >= 'a' && to_lower (c) <= 'z';
""", """  return (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z');
"""), (R, """  return is_digit (c) || (to_lower (c) >= 'a' && to_lower (c) <= 'f');
""", """  switch (to_lower (c)) {
  case 'a': case 'b': case 'c': case 'd': case 'e': case 'f': return true;
  default: return is_digit (c);
  }
"""))
edit("A12-split-rewritten", GRAMMAR + ["C05"], (U, """  if (parts result; rule{in}.concat (URI (result)).done ()) {
    return result;
  }
  return {};
}
std::optional<parts> split_reference""", """  std::optional<parts> answer;
  parts result;
  rule const start{in};
  if (start.concat (URI (result)).done ()) {
    answer = std::move (result);
  }
  return answer;
}
std::optional<parts> split_reference"""), (U, """  if (parts result; rule{in}.concat (URI_reference (result)).done ()) {
    return result;
  }
  return {};
""", """  std::optional<parts> result{std::in_place};
  auto const ok = rule{in}.concat (URI_reference (*result)).done ();
  if (!ok) {
    result.reset ();
  }
  return result;
"""))
PATHS = ["C04", "C05", "C06", "C07", "C08", "C20", "C23"]
edit("B1-dots-new-vector", PATHS, (U, """  auto const begin = std::begin (this->segments);
  auto const end = std::end (this->segments);
  auto outit = begin;
  bool last_dir = false;
  for (auto it = begin; it != end; ++it) {
    if (*it == ".") {
      // '.' means "the current directory": remove it.
      last_dir = true;
    } else if (*it == "..") {
      // ".." is "up one directory" so, if we can, pop the last
      // element.
      last_dir = true;
      if (outit != begin) {
        --outit;
      }
    } else {
      last_dir = false;
      if (outit != it) {
        *outit = *it;
      }
      ++outit;
    }
  }
  this->segments.erase (outit, end);

  // A path which ended with "." or ".." names a directory: it now ends with "/".
  if (last_dir) {
    this->segments.emplace_back ();
  }
""", """  std::vector<std::string_view> out;
  out.reserve (segments.size () + 1);
  bool dir = false;
  for (std::string_view const seg : segments) {
    bool const up = seg == "..";
    dir = up || seg == ".";
    if (up && !out.empty ()) {
      out.pop_back ();
    }
    if (!dir) {
      out.push_back (seg);
    }
  }
  if (dir) {
    out.push_back (std::string_view{});
  }
  segments = std::move (out);
"""))
edit("B2-path-string", PATHS, (U, """  auto const* separator = absolute ? "/" : "";
  for (auto const& seg : segments) {
    p += separator;
    p += seg;
    separator = "/";
  }
  return p;
""", """  for (std::size_t i = 0; i < segments.size (); ++i) {
    if (absolute || i > 0) {
      p.push_back ('/');
    }
    p.append (segments[i]);
  }
  return p;
"""))
edit("B3-fs-path", PATHS, (U, """  if (absolute) {
    p /= "/";
  }
  for (auto const& seg : segments) {
    p /= seg;
  }
  return p;
""", """  if (absolute) {
    p = "/";
  }
  std::for_each (segments.begin (), segments.end (), [&p] (std::string_view const s) { p /= s; });
  return p;
"""))
edit("B4-path-valid-all-of", PATHS, (U, """  for (auto const& seg : segments) {
    if (!rule{seg}.concat (segment).done ()) {
      return false;
    }
  }
  return true;
""", """  return std::all_of (std::begin (segments), std::end (segments),
                      [] (std::string_view const seg) {
                        return rule{seg}.concat (segment).done ();
                      });
"""))
edit("B5-equality-tie", PATHS, (U, "  return userinfo == rhs.userinfo && host == rhs.host && port == rhs.port;",
     "  return std::tie (host, port, userinfo) == std::tie (rhs.host, rhs.port, rhs.userinfo);"),
     (U, "  return absolute == rhs.absolute && segments == rhs.segments;", "  return absolute == rhs.absolute &&\n         std::equal (segments.begin (), segments.end (), rhs.segments.begin (), rhs.segments.end ());"))
edit("B6-valid-helper", PATHS, (U, """  if (userinfo.has_value () &&
      !rule{userinfo.value ()}.concat (userinfofn).done ()) {
    return false;
  }
  if (!rule{host}.concat (hostfn).done ()) {
    return false;
  }
  if (port.has_value () && !rule{port.value ()}.concat (portfn).done ()) {
    return false;
  }
  return true;
""", """  auto const matches = [] (std::string_view const s, auto const& f) { return rule{s}.concat (f).done (); };
  return (!userinfo || matches (*userinfo, userinfofn)) && matches (host, hostfn) && (!port || matches (*port, portfn));
"""), (U, """  if (this->query.has_value () &&
      !rule{this->query.value ()}.concat (queryfn).done ()) {
    return false;
  }
  if (this->fragment.has_value () &&
      !rule{this->fragment.value ()}.concat (fragmentfn).done ()) {
    return false;
  }
  return true;
""", """  for (auto const* const s : {&this->query, &this->fragment}) {
    if (s->has_value () && !rule{**s}.concat (queryfn).done ()) {
      return false;
    }
  }
  return true;
"""))
edit("B7-double-slash-helper", PATHS, (U, """    auto const& segments = this->path.segments;
    if (this->path.absolute
          ? segments.size () >= 2 && segments[0].empty ()
          : segments.size () >= 3 && segments[0].empty () &&
              segments[1].empty ()) {
      return false;
    }
""", """    std::size_t const lead = this->path.absolute ? 1 : 2;
    auto const first = std::begin (this->path.segments);
    if (this->path.segments.size () > lead &&
        std::all_of (first, first + static_cast<std::ptrdiff_t> (lead), [] (auto const& s) { return s.empty (); })) {
      return false;
    }
"""))
edit("B8-merge-assign", PATHS, (U, """  auto last = std::end (base.path.segments);
  if (!base.path.segments.empty ()) {
    std::advance (last, -1);
  }
  auto out = std::back_inserter (r2.segments);
  out = std::copy (std::begin (base.path.segments), last, out);
  std::copy (std::begin (ref.path.segments), std::end (ref.path.segments), out);
  return r2;
""", """  r2.segments = base.path.segments;
  if (!r2.segments.empty ()) {
    r2.segments.pop_back ();
  }
  r2.segments.insert (r2.segments.end (), ref.path.segments.begin (), ref.path.segments.end ());
  return r2;
"""))
edit("B9-join-text", PATHS, (U, """  auto const base_parts = split (base);
  if (!base_parts) {
    return {};
  }
  auto const reference_parts = split_reference (reference);
  if (!reference_parts) {
    return {};
  }
  return join (*base_parts, *reference_parts, strict);
""", """  auto const reference_parts = split_reference (reference);
  if (auto const base_parts = split (base); base_parts && reference_parts) {
    return std::make_optional (join (base_parts.value (), reference_parts.value (), strict));
  }
  return std::nullopt;
"""))
edit("B10-compose", PATHS, (U, """  if (p.query.has_value ()) {
    os << '?' << p.query.value ();
  }
  if (p.fragment.has_value ()) {
    os << '#' << p.fragment.value ();
  }
  return os;
}
""", """  auto const tail = [&os] (char const mark, std::optional<std::string_view> const& text) {
    if (text) {
      os << mark;
      os << *text;
    }
  };
  tail ('?', p.query);
  tail ('#', p.fragment);
  return os;
}
"""), (U, """  std::stringstream result;
  result << p;
  return result.str ();
""", """  std::ostringstream os;
  compose (os, p);
  return os.str ();
"""), (U, """  if (!auth.host.empty ()) {
    os << auth.host;
  }
  if (auth.port.has_value ()) {
    os << ':';
    if (!auth.port->empty ()) {
      os << *auth.port;
    }
  }
  return os;
""", """  os << auth.host;
  if (auto const& port = auth.port) {
    os << ":" << *port;
  }
  return os;
"""))
edit("B11-parts-equality", PATHS, (U, """  if (scheme != rhs.scheme || authority != rhs.authority ||
      query != rhs.query || fragment != rhs.fragment) {
    return false;
  }

  if (this->authority && rhs.authority) {
    // Ignore the 'absolute' field. Both are implicitly absolute paths.
    if (path.segments != rhs.path.segments) {
      return false;
    }
  } else {
    if (path != rhs.path) {
      return false;
    }
  }
  return true;
""", """  bool const same_path = authority.has_value () && rhs.authority.has_value ()
                           ? path.segments == rhs.path.segments
                           : path == rhs.path;
  return same_path && scheme == rhs.scheme && query == rhs.query &&
         fragment == rhs.fragment && authority == rhs.authority;
"""))
PCT = ["C09", "C10", "C11", "C20", "C25", "C31"]
edit("C1-encode-value", PCT, (PEH, """    auto c = *first;
    if (needs_pctencode (static_cast<std::uint_least8_t> (c), encodeset)) {
      auto const cu = static_cast<std::make_unsigned_t<decltype (c)>> (c);
      *(out++) = '%';
      *(out++) = dec2hex ((cu >> 4U) & 0xFU);
      c = dec2hex (cu & 0xFU);
    }
    *(out++) = c;
""", """    auto const c = *first;
    auto const byte = static_cast<std::uint_least8_t> (c);
    if (!needs_pctencode (byte, encodeset)) {
      *out = c;
      ++out;
      continue;
    }
    for (char const x : {'%', dec2hex (byte / 16U), dec2hex (byte % 16U)}) {
      *out++ = x;
    }
"""))
edit("C2-hex-table", PCT, (PEH, """  return static_cast<char> (v + ((v < 10) ? '0' : 'A' - 10));
""", """  return "0123456789ABCDEF"[v];
"""), (PEH, """  std::string result;
  result.reserve (s.length ());
  pctencode (std::begin (s), std::end (s), std::back_inserter (result),
             encodeset);
  return result;
""", """  std::string result;
  for (char const c : s) {
    pctencode (&c, &c + 1, std::back_inserter (result), encodeset);
  }
  return result;
"""))
edit("C3-any-loop", PCT, (PEH, """  return std::any_of (first, last,
                      [es] (auto c) { return needs_pctencode (c, es); });
""", """  while (first != last) {
    if (needs_pctencode (*first, es)) {
      return true;
    }
    ++first;
  }
  return false;
"""), (PE, """  return std::any_of (std::begin (s), std::end (s), [es] (auto c) {
    return needs_pctencode (static_cast<std::uint_least8_t> (c), es);
  });
""", """  return std::find_if (s.begin (), s.end (), [es] (char const c) {
           return needs_pctencode (static_cast<std::uint_least8_t> (c), es);
         }) != s.end ();
"""))
edit("C4-table-index", PCT, (PE, """  if (c >= encode.size ()) {
    return false;
  }
  // NOLINTNEXTLINE(cppcoreguidelines-pro-bounds-constant-array-index)
  return (encode[c] &
          static_cast<std::underlying_type_t<pctencode_set>> (es)) != 0U;
""", """  auto const mask = static_cast<std::uint8_t> (es);
  return c < encode.size () && (encode.at (c) & mask) != 0;
"""), (PE, """  if (c >= code_point::digit_zero - table_first) {
    if (c <= code_point::digit_nine - table_first) {
      return false;
    }
    c -= num_digits;  // The digits are missing from the table.
  }
""", """  auto const zero = code_point::digit_zero - table_first;
  auto const nine = code_point::digit_nine - table_first;
  if (c >= zero && c <= nine) {
    return false;
  }
  if (c > nine) {
    c = static_cast<std::uint_least8_t> (c - num_digits);  // The digits are missing from the table.
  }
"""))
edit("C5-hex2dec-switch", PCT, (PD, """  if (digit >= 'a' && digit <= 'f') {
    return static_cast<std::byte> (static_cast<unsigned> (digit) - ('a' - 10));
  }
  if (digit >= 'A' && digit <= 'F') {
    return static_cast<std::byte> (static_cast<unsigned> (digit) - ('A' - 10));
  }
  if (digit >= '0' && digit <= '9') {
    return static_cast<std::byte> (static_cast<unsigned> (digit) - '0');
  }
  return bad;
""", """  auto const in = [digit] (char const first, char const last) { return digit >= first && digit <= last; };
  int value = 16;
  if (in ('0', '9')) {
    value = digit - '0';
  } else if (in ('A', 'F')) {
    value = 10 + (digit - 'A');
  } else if (in ('a', 'f')) {
    value = 10 + (digit - 'a');
  }
  return std::byte{static_cast<unsigned char> (value)};
"""), (PD, "  return ((n1 | n2) & bad) != std::byte{0};", "  return n1 == bad || n2 == bad;"))
edit("C6-deref-local", PCT, (PD, """  assert (pos != end);
  // Remove 1 character unless we've got a '%' followed by two legal hex
  // characters in which case we remove 3.
  std::advance (pos, at_least_three (pos, end) && *pos == '%' &&
                         !either_bad (hex2dec (*std::next (pos)),
                                      hex2dec (*std::next (pos, 2)))
                       ? 3
                       : 1);
  return pos;
""", """  assert (pos != end);
  bool const percent = *pos == '%';
  bool const room = at_least_three (pos, end);
  ++pos;
  if (percent && room) {
    auto const hi = pos;
    auto const lo = std::next (hi);
    if (hex2dec (*hi) != bad && hex2dec (*lo) != bad) {
      pos = std::next (lo);
    }
  }
  return pos;
"""), (PD, """  ReferenceType c = *pos;
  if (c != '%' || !at_least_three (pos, end)) {
    return c;
  }
  auto const nhi = hex2dec (*std::next (pos));
  auto const nlo = hex2dec (*std::next (pos, 2));
""", """  ReferenceType c = *pos;
  if (c != '%') {
    return c;
  }
  if (!at_least_three (pos, end)) {
    return c;
  }
  ++pos;
  auto const nhi = hex2dec (*pos);
  ++pos;
  auto const nlo = hex2dec (*pos);
"""))
edit("C7-at-least-three", PCT, (PD, """  return pos != end && ++pos != end && ++pos != end;
""", """  int n = 0;
  for (; n < 3 && pos != end; ++n) {
    ++pos;
  }
  return n == 3;
"""), (PD, """  return std::find_if (first, last, [] (auto c) { return c == '%'; }) != last;
""", """  return std::any_of (first, last, [] (auto const c) { return c == '%'; });
"""), (PD, """  std::string result;
  result.reserve (s.length ());
  for (auto const& c : pctdecoder{s}) {
    result += c;
  }
  return result;
""", """  auto const range = pctdecoder{s};
  std::string result;
  std::copy (range.begin (), range.end (), std::back_inserter (result));
  return result;
"""))
CODE = ["C12", "C13", "C14", "C20", "C31"]
edit("P1-for-optional", CODE, (PA, """  if (parts.query.has_value () && parts.query->data () != nullptr) {
    parts.query = function (*parts.query, 0U, parts_field::query);
  }
  if (parts.fragment.has_value () && parts.fragment->data () != nullptr) {
    parts.fragment = function (*parts.fragment, 0U, parts_field::fragment);
  }
""", """  auto const apply = [&function] (std::optional<std::string_view>& s, parts_field const field) {
    if (s && s->data () != nullptr) {
      s = function (s.value (), 0U, field);
    }
  };
  apply (parts.query, parts_field::query);
  apply (parts.fragment, parts_field::fragment);
"""))
edit("P2-segments-index", CODE, (PA, """  auto count = 0U;
  for (auto& segment : parts.path.segments) {
    if (segment.data () != nullptr) {
      segment = function (segment, count, parts_field::path);
      ++count;
    }
  }
""", """  auto& segments = parts.path.segments;
  unsigned count = 0;
  for (std::size_t i = 0; i != segments.size (); ++i) {
    if (segments[i].data () == nullptr) {
      continue;
    }
    segments[i] = function (segments[i], count++, parts_field::path);
  }
"""))
edit("P3-puny-encoded-while", CODE, (PA, """    if (any_non_ascii) {
      out = std::ranges::copy (idna_prefix, out).out;
      any_needed = true;
    }
    out = std::ranges::copy (segment, out).out;
    if (in == end) {
      break;
    }

    (*out++) = '.';
""", """    any_needed = any_needed || any_non_ascii;
    if (any_non_ascii) {
      for (char const c : idna_prefix) {
        *out++ = c;
      }
    }
    for (auto const c : segment) {
      *out++ = c;
    }
    if (in == end) {
      break;
    }

    *out = '.';
    ++out;
"""))
edit("P4-puny-decoded-branch", CODE, (PA, """      auto const& copy_result = std::ranges::copy (view, out);
      first = std::move (copy_result.in);
      out = std::move (copy_result.out);
""", """      for (; first != last && *first != '.'; ++first) {
        *out = *first;
        ++out;
      }
"""), (PA, """      } else if (auto const* const erc =
                   std::get_if<std::error_code> (&decode_result)) {
        return *erc;
      } else {
        return make_error_code (std::errc::invalid_argument);
      }
    } else {
      auto""", """      } else {
        return std::get<std::error_code> (decode_result);
      }
    } else {
      auto""") if False else (PA, "    first = std::next (first);\n", "    ++first;\n"))
edit("P5-puny-error-get", CODE, (PA, """      } else if (auto const* const erc =
                   std::get_if<std::error_code> (&decode_result)) {
        return *erc;
      } else {
        return make_error_code (std::errc::invalid_argument);
      }
    } else {
""", """      } else {
        return std::get<std::error_code> (decode_result);
      }
    } else {
"""), (PA, """  if (auto const* const erc = std::get_if<std::error_code> (&result)) {
    return *erc;
  }
  return make_error_code (std::errc::invalid_argument);
}

}  // end namespace details""", """  return std::get<0> (result);
}

}  // end namespace details"""))
edit("P6-sizes", CODE, (PAC, """  if (!uri::needs_pctencode (str, encodeset)) {
    return std::size_t{0};
  }
  ro_sink_container<char> sink;
  uri::pctencode (std::begin (str), std::end (str), std::back_inserter (sink),
                  encodeset);
  return sink.size ();
""", """  std::size_t extra = 0;
  for (char const c : str) {
    extra += uri::needs_pctencode (static_cast<std::uint_least8_t> (c), encodeset) ? 2 : 0;
  }
  return extra == 0 ? 0 : str.size () + extra;
"""), (PAC, """  if (!uri::needs_pctdecode (str.begin (), str.end ())) {
    return std::size_t{0};
  }
  return uri::pctdecode (str).size ();
""", """  auto const pos = str.find ('%');
  return pos == std::string_view::npos ? 0 : uri::pctdecode (str).length ();
"""))
edit("P7-digits", CODE, (PU, """  if (d < 26U) {
    return static_cast<char> (d + static_cast<unsigned> ('a'));
  }
  return static_cast<char> (d - 26U + static_cast<unsigned> ('0'));
""", """  constexpr char digits[] = "abcdefghijklmnopqrstuvwxyz0123456789";
  return digits[d];
"""), (PU, """  if (cp >= 'a') {
    cp -= 'a' - 'A';  // Convert to upper case.
  }
  return (cp >= 'A' && cp <= 'Z') ? cp - 'A' : uri::punycode::details::base;
""", """  if (cp >= 'a' && cp <= 'z') {
    return static_cast<unsigned> (cp - 'a');
  }
  if (cp >= 'A' && cp <= 'Z') {
    return static_cast<unsigned> (cp - 'A');
  }
  return base;
"""), (PU, """  if (k <= bias) {
    return tmin;
  }
  if (k >= bias + tmax) {
    return tmax;
  }
  return k - bias;
}

// Decode""", """  return clamp (k, bias);
}

// Decode"""))
edit("P8-vli-while", CODE, (PU, """  for (auto k = base;; k += base) {
    auto const t = clamp (k, bias);
    if (q < t) {
      break;
    }
    assert (base >= t);
    *(out++) = encode_digit (static_cast<unsigned> (t + (q - t) % (base - t)));
    q = (q - t) / (base - t);
  }
""", """  std::size_t k = base;
  auto t = clamp (k, bias);
  while (q >= t) {
    auto const radix = base - t;
    auto const rest = q - t;
    *out = encode_digit (static_cast<unsigned> (t + rest % radix));
    ++out;
    q = rest / radix;
    k += base;
    t = clamp (k, bias);
  }
"""), (PU, """  delta = firsttime ? delta / damp : delta >> 1U;
  delta += delta / numpoints;
""", """  if (firsttime) {
    delta /= damp;
  } else {
    delta /= 2;
  }
  delta = delta + delta / numpoints;
"""))
edit("P9-encode-loop", CODE, (PU, """  auto in = std::ranges::for_each (range, [&] (char32_t const cp) {
              if (details::is_basic_code_point (cp)) {
                *(output++) = static_cast<char> (cp);
                ++num_basics;
              } else {
                non_basic += cp;
              }
            }).in;
""", """  auto in = std::ranges::begin (range);
  for (auto const last = std::ranges::end (range); in != last; ++in) {
    char32_t const cp = *in;
    if (!details::is_basic_code_point (cp)) {
      non_basic.push_back (cp);
      continue;
    }
    *output = static_cast<char> (cp);
    ++output;
    ++num_basics;
  }
"""), (PU, """    std::ranges::for_each (range, [&] (char32_t const c) {
      if (c < n) {
        ++delta;  // increment delta (fail on overflow)
      } else if (c == n) {
        // Represent delta as a generalized variable-length integer.
        output = details::encode_vli (delta, bias, output);
        bias = details::adapt (delta, i + 1, i == num_basics);
        delta = 0U;
        ++i;
      }
    });
""", """    for (char32_t const c : range) {
      if (c == n) {
        output = details::encode_vli (delta, bias, output);
        bias = details::adapt (delta, i + 1, i == num_basics);
        delta = 0;
        ++i;
      } else if (c < n) {
        delta += 1;
      }
    }
"""))
edit("P10-decode-visit", CODE, (PU, """  std::u32string output;
  return std::visit (
      [&last, &output]<typename Arg> (Arg&& arg) {
        using T = std::decay_t<Arg>;
        if constexpr (std::is_same_v<T, std::error_code>) {
          return decode_result<Iterator> (std::forward<Arg> (arg));
        } else if constexpr (std::is_same_v<T, Iterator>) {
          return details::decode_loop (arg, last, std::move (output));
        } else {
          static_assert (always_false<T>, "non-exhaustive visitor!");
        }
      },
      details::copy_plain_ascii_part (first, last, std::back_inserter (output)));
""", """  std::u32string output;
  auto const plain = details::copy_plain_ascii_part (first, last, std::back_inserter (output));
  if (std::holds_alternative<std::error_code> (plain)) {
    return std::get<std::error_code> (plain);
  }
  return details::decode_loop (std::get<Iterator> (plain), last, std::move (output));
"""), (PU, """  for (auto pos = first, end = encoded_range.begin (); pos != end; ++pos) {
    auto const code_point = static_cast<char32_t> (*pos);
    if (!details::is_basic_code_point (code_point)) {
      return make_error_code (decode_error_code::bad_input);
    }
    *(out++) = code_point;
  }
""", """  auto const stop = encoded_range.begin ();
  while (first != stop) {
    auto const cp = static_cast<unsigned char> (*first);
    if (cp >= 0x80U) {
      return make_error_code (decode_error_code::bad_input);
    }
    *out = static_cast<char32_t> (cp);
    ++out;
    ++first;
  }
"""))
edit("P11-encode-store", CODE, (PA, """      pctencode (std::begin (str), std::end (str), std::back_inserter (store), es);
""", """      for (char const c : pctencode (str, es)) {
        store.push_back (c);
      }
"""), (PA, """          std::ranges::copy (str | views::pctdecode, std::back_inserter (store));
""", """          for (char const c : str | views::pctdecode) {
            store.push_back (c);
          }
"""))
edit("P12-decode-error", CODE, (PA, """      auto const pds_result = details::puny_decoded_size (str);
      if (auto const* const size = std::get_if<std::size_t> (&pds_result)) {
        extra = *size;
      } else if (auto const* const erc = std::get_if<std::error_code> (&pds_result)) {
        error = *erc;
      } else {
        error = make_error_code (std::errc::invalid_argument);
      }
""", """      auto const sized = details::puny_decoded_size (str);
      if (std::holds_alternative<std::size_t> (sized)) {
        extra = std::get<std::size_t> (sized);
      } else {
        error = std::get<std::error_code> (sized);
      }
"""), (PA, """    if (auto const pos = static_cast<pft> (field) + index; pos < needs_encoding.size ()) {
      needs_encoding.set (pos, needs_encoding.test (pos) || extra != 0);
    }
    required_size += extra;
    return str;
  });
  store.reserve (required_size);
  if (error) {
    return error;
  }
""", """    required_size += extra;
    auto const pos = static_cast<std::size_t> (field) + index;
    if (extra > 0 && pos < needs_encoding.size ()) {
      needs_encoding[pos] = true;
    }
    return str;
  });
  if (error) {
    return error;
  }
  store.reserve (required_size);
"""))

# --- icubaby ---
ICU = ["C15", "C16", "C17", "C18", "C30"]
edit("D1-continuation", ICU, (IC, """    *(dest++) = static_cast<output_type> ((code_unit >> 6U) | 0xc0U);
    *(dest++) = static_cast<output_type> ((code_unit & 0x3fU) | 0x80U);
    return dest;
""", """    *dest = static_cast<output_type> (0xC0U + (code_unit / 64U));
    ++dest;
    *dest = transcoder::continuation (code_unit);
    ++dest;
    return dest;
"""), (IC, """    *(dest++) = static_cast<output_type> ((code_unit >> 12U) | 0xe0U);
    *(dest++) = static_cast<output_type> (((code_unit >> 6U) & 0x3fU) | 0x80U);
    *(dest++) = static_cast<output_type> ((code_unit & 0x3fU) | 0x80U);
""", """    *(dest++) = static_cast<output_type> ((code_unit >> 12U) | 0xe0U);
    *(dest++) = transcoder::continuation (code_unit >> 6U);
    *(dest++) = transcoder::continuation (code_unit);
"""), (IC, """    *(dest++) = static_cast<output_type> ((code_unit >> 18U) | 0xf0U);
    *(dest++) = static_cast<output_type> (((code_unit >> 12U) & 0x3fU) | 0x80U);
    *(dest++) = static_cast<output_type> (((code_unit >> 6U) & 0x3fU) | 0x80U);
    *(dest++) = static_cast<output_type> ((code_unit & 0x3fU) | 0x80U);
    return dest;
  }
""", """    *(dest++) = static_cast<output_type> ((code_unit >> 18U) | 0xf0U);
    for (auto shift = 12U;; shift -= 6U) {
      *(dest++) = transcoder::continuation (code_unit >> shift);
      if (shift == 0U) {
        break;
      }
    }
    return dest;
  }
  static constexpr output_type continuation (input_type bits) noexcept {
    return static_cast<output_type> ((bits % 64U) + 0x80U);
  }
"""))
edit("D2-t32-8-chain", ICU, (IC, """    if (code_unit < 0x80) {
      *(dest++) = static_cast<output_type> (code_unit);
      return dest;
    }
    if (code_unit < 0x800) {
      return transcoder::write2 (code_unit, dest);
    }
    if (is_surrogate (code_unit)) {
      return transcoder::not_well_formed (dest);
    }
    if (code_unit < 0x10000) {
      return transcoder::write3 (code_unit, dest);
    }
    if (code_unit <= max_code_point) {
      return transcoder::write4 (code_unit, dest);
    }
    return transcoder::not_well_formed (dest);
""", """    if (code_unit > max_code_point || is_surrogate (code_unit)) {
      well_formed_ = false;
      return transcoder::write3 (replacement_char, dest);
    }
    if (code_unit > 0xFFFFU) {
      dest = transcoder::write4 (code_unit, dest);
    } else if (code_unit > 0x7FFU) {
      dest = transcoder::write3 (code_unit, dest);
    } else if (code_unit > 0x7FU) {
      dest = transcoder::write2 (code_unit, dest);
    } else {
      *(dest++) = static_cast<output_type> (code_unit);
    }
    return dest;
"""))
edit("D3-surrogate-masks", ICU, (IC, """  return code_point >= first_high_surrogate && code_point <= last_high_surrogate;
""", """  return (code_point & ~char32_t{0x3FF}) == first_high_surrogate;
"""), (IC, """  return code_point >= first_low_surrogate && code_point <= last_low_surrogate;
""", """  return code_point - first_low_surrogate <= last_low_surrogate - first_low_surrogate;
"""), (IC, """  return is_high_surrogate (code_point) || is_low_surrogate (code_point);
""", """  return !(code_point < first_high_surrogate || last_low_surrogate < code_point);
"""))
edit("D4-cp-start", ICU, (IC, """  return (static_cast<std::byte> (code_unit) & std::byte{0xC0}) != std::byte{0x80};
""", """  auto const unit = static_cast<std::uint8_t> (code_unit);
  return unit < 0x80U || unit >= 0xC0U;
"""))
edit("D5-length-loop", ICU, (IC, """  return std::ranges::count_if (
      std::forward<Range> (range),
      [] (unicode_char_type auto const code_unit) { return is_code_point_start (code_unit); }, proj);
""", """  std::ranges::range_difference_t<Range> count{0};
  for (auto const& code_unit : range) {
    if (is_code_point_start (std::invoke (proj, code_unit))) {
      ++count;
    }
  }
  return count;
"""), (IC, "#include <ranges>\n", "#include <functional>\n#include <ranges>\n"))
edit("D6-index-countdown", ICU, (IC, """  auto count = std::size_t{0};
  return std::ranges::find_if (
      std::forward<Range> (range),
      [&count, pos] (unicode_char_type auto const code_unit) {
        return is_code_point_start (code_unit) ? (count++ == pos) : false;
      },
      proj);
""", """  return std::ranges::find_if (
      std::forward<Range> (range),
      [&pos] (unicode_char_type auto const code_unit) {
        if (!is_code_point_start (code_unit)) {
          return false;
        }
        if (pos == 0U) {
          return true;
        }
        --pos;
        return false;
      },
      proj);
"""))
edit("D7-t8-32-ifs", ICU, (IC, """    code_point_ = (state_ != accept)
                      ? static_cast<std::uint_least32_t> (static_cast<std::byte> (code_unit) & std::byte{0x3FU}) |
                            static_cast<uint_least32_t> (code_point_ << 6U)
                      : (0xFFU >> type) & ucu;
    auto const idx = 256U + state_ + type;
    assert (idx < utf8d_.size ());
    // NOLINTNEXTLINE(cppcoreguidelines-pro-bounds-constant-array-index)
    state_ = utf8d_[idx];
    switch (state_) {
    case accept: *(dest++) = code_point_; break;
    case reject:
      well_formed_ = false;
      state_ = accept;
      *(dest++) = replacement_char;
      break;
    default: break;
    }
    return dest;
""", """    if (state_ == accept) {
      code_point_ = (0xFFU >> type) & ucu;
    } else {
      code_point_ = (ucu & 0x3FU) | static_cast<uint_least32_t> (code_point_ << 6U);
    }
    auto const next = utf8d_.at (256U + state_ + type);
    if (next == reject) {
      *dest = replacement_char;
      ++dest;
      state_ = accept;
      well_formed_ = false;
      return dest;
    }
    state_ = next;
    if (next == accept) {
      *(dest++) = code_point_;
    }
    return dest;
"""))
edit("D8-t32-16-reorder", ICU, (IC, """    if (is_surrogate (code_unit) || code_unit > max_code_point) {
      dest = (*this) (replacement_char, dest);
      well_formed_ = false;
    } else if (code_unit <= 0xFFFF) {
      *(dest++) = static_cast<output_type> (code_unit);
    } else {
      *(dest++) = static_cast<output_type> (0xD7C0U + (code_unit >> 10U));
      *(dest++) = static_cast<output_type> (first_low_surrogate + (code_unit & 0x3FFU));
    }
    return dest;
""", """    if (code_unit > 0xFFFFU && code_unit <= max_code_point) {
      auto const offset = code_unit - 0x10000U;
      *(dest++) = static_cast<output_type> (first_high_surrogate | (offset >> 10U));
      *(dest++) = static_cast<output_type> (first_low_surrogate | (offset & 0x3FFU));
      return dest;
    }
    if (!is_code_point_start (code_unit)) {
      well_formed_ = false;
      code_unit = replacement_char;
    }
    *(dest++) = static_cast<output_type> (code_unit);
    return dest;
"""))
edit("D9-t16-32-flat", ICU, (IC, """    if (!has_high_) {
      if (is_high_surrogate (code_unit)) {
        // A high surrogate code unit indicates that this is the first of a
        // high/low surrogate pair.
        high_ = adjusted_high (code_unit);
        has_high_ = true;
        return dest;
      }

      // A low surrogate without a preceeding high surrogate.
      if (is_low_surrogate (code_unit)) {
        well_formed_ = false;
        code_unit = replacement_char;
      }
      *(dest++) = code_unit;
      return dest;
    }

    // A high surrogate followed by a low surrogate.
    if (is_low_surrogate (code_unit)) {
      *(dest++) = (static_cast<char32_t> (high_) << high_bits) + (code_unit - first_low_surrogate) + 0x10000;
      high_ = 0;
      has_high_ = false;
      return dest;
    }
    // There was a high surrogate followed by something other than a low
    // surrogate. A high surrogate followed by a second high surrogate yields
    // a single REPLACEMENT CHARACTER. A high followed by something other than
    // a low surrogate gives REPLACEMENT CHARACTER followed by the second input
    // code point.
    *(dest++) = replacement_char;
    well_formed_ = false;
    if (is_high_surrogate (code_unit)) {
      // There was a high surrogate followed by a second high surrogate. Remember the later of the two.
      high_ = adjusted_high (code_unit);
      assert (has_high_);
      return dest;
    }

    *(dest++) = code_unit;
    high_ = 0;
    has_high_ = false;
    return dest;
""", """    bool const paired = has_high_ && is_low_surrogate (code_unit);
    if (paired) {
      char32_t const upper = high_;
      high_ = 0;
      has_high_ = false;
      *(dest++) = 0x10000U + (upper * 0x400U | (code_unit & 0x3FFU));
      return dest;
    }
    if (has_high_) {
      // The remembered high surrogate has no partner.
      well_formed_ = false;
      high_ = 0;
      has_high_ = false;
      *(dest++) = replacement_char;
    }
    if (is_high_surrogate (code_unit)) {
      high_ = adjusted_high (code_unit);
      has_high_ = true;
    } else if (is_low_surrogate (code_unit)) {
      well_formed_ = false;
      *(dest++) = replacement_char;
    } else {
      *(dest++) = code_unit;
    }
    return dest;
"""))
edit("D10-bom-start-switch", ICU, (IC, """    buffer_[0] = value;
    if (value == std::byte{0xEF}) {
      state_ = states::utf8_bom_byte1;
    } else if (value == std::byte{0xFE}) {
      state_ = states::utf16_be_bom_byte1;
    } else if (value == std::byte{0xFF}) {
      state_ = states::utf32_or_16_le_bom_byte1;
    } else if (value == std::byte{0x00}) {
      state_ = states::utf32_or_16_be_bom_byte1;
    } else {
      dest = this->run8_start (true, dest);
    }
    return dest;
""", """    buffer_.front () = value;
    switch (std::to_integer<unsigned> (value)) {
    case 0x00U: state_ = states::utf32_or_16_be_bom_byte1; return dest;
    case 0xEFU: state_ = states::utf8_bom_byte1; return dest;
    case 0xFEU: state_ = states::utf16_be_bom_byte1; return dest;
    case 0xFFU: state_ = states::utf32_or_16_le_bom_byte1; return dest;
    default: break;
    }
    return this->run8_start (true, dest);
"""))
edit("D11-bom-run8-loop", ICU, (IC, """      // NOLINTNEXTLINE(llvm-qualified-auto,readability-qualified-auto)
      auto const first = std::begin (buffer_);
      (void)std::for_each (first, first + byte_no (state_) + 1,
                           [&trans, &dest] (std::byte value) { dest = trans (static_cast<char8> (value), dest); });
""", """      auto const last_index = byte_no (state_);
      for (std::size_t index = 0; index <= last_index; ++index) {
        dest = trans (static_cast<char8> (buffer_[index]), dest);
      }
"""))
edit("D12-buffer-loops", ICU, (IC, """    return static_cast<char32_t> ((static_cast<std::uint_least32_t> (buffer_[0]) << 24U) |
                                  (static_cast<std::uint_least32_t> (buffer_[1]) << 16U) |
                                  (static_cast<std::uint_least32_t> (buffer_[2]) << 8U) |
                                  static_cast<std::uint_least32_t> (value));
""", """    std::uint_least32_t result = 0;
    for (std::size_t index = 0; index < 3; ++index) {
      result = (result << 8U) | static_cast<std::uint_least32_t> (buffer_[index]);
    }
    return static_cast<char32_t> ((result << 8U) | static_cast<std::uint_least32_t> (value));
"""), (IC, """    return static_cast<char16_t> ((static_cast<std::uint_least16_t> (buffer_[0]) << 8U) |
                                  static_cast<std::uint_least16_t> (value));
""", """    return static_cast<char16_t> (std::to_integer<unsigned> (buffer_[0]) * 256U + std::to_integer<unsigned> (value));
"""))
edit("D13-run-encoding-lookup", ICU, (IC, """    return (static_cast<std::byte> (state) & run_mask) == run_mode;
  }
""", """    return (static_cast<unsigned> (state) & 0x04U) != 0U;
  }
"""), (IC, """  encoding result = encoding::unknown;
  if (is_run_mode (state_)) {
    switch (static_cast<std::uint_least8_t> (static_cast<std::byte> (state_) & encoding_mask)) {
    case static_cast<std::uint_least8_t> (encoding_unknown):
      assert (false && "We must know the encoding when in run mode");
      result = encoding::unknown;
      break;
    case static_cast<std::uint_least8_t> (encoding_utf8): result = encoding::utf8; break;
    case static_cast<std::uint_least8_t> (encoding_utf16):
      result = is_little_endian (state_) ? encoding::utf16le : encoding::utf16be;
      break;
    case static_cast<std::uint_least8_t> (encoding_utf32):
      result = is_little_endian (state_) ? encoding::utf32le : encoding::utf32be;
      break;
    }
  }
  return result;
""", """  if (!is_run_mode (state_)) {
    return encoding::unknown;
  }
  bool const little = is_little_endian (state_);
  auto const family = static_cast<std::byte> (state_) & encoding_mask;
  if (family == encoding_utf16) {
    return little ? encoding::utf16le : encoding::utf16be;
  }
  if (family == encoding_utf32) {
    return little ? encoding::utf32le : encoding::utf32be;
  }
  return family == encoding_utf8 ? encoding::utf8 : encoding::unknown;
"""))
edit("D14-triangulator-loop", ICU, (IC, """    (void)std::for_each (first, last, [this, &dest] (char32_t const code_unit) { dest = output_ (code_unit, dest); });
    return dest;
""", """    while (first != last) {
      dest = output_ (*first, dest);
      ++first;
    }
    return dest;
"""), (IC, """    auto const begin = std::begin (intermediate);
    return copy (begin, intermediate_ (code_unit, begin), dest);
""", """    auto const end = intermediate_ (code_unit, intermediate.begin ());
    auto pos = intermediate.begin ();
    for (; pos != end; ++pos) {
      dest = output_ (*pos, dest);
    }
    return dest;
"""))
edit("D15-byte-end-getif", ICU, (IC, """    return std::visit (
        [this, &dest] (auto& arg) {
          using arg_type = std::decay_t<decltype (arg)>;
          if constexpr (!std::is_same_v<arg_type, std::monostate>) {
            dest = arg.end_cp (dest);
            if (byte_no (state_) != 0) {
              // The input ended in the middle of a code unit. An unpaired surrogate yields REPLACEMENT CHARACTER and
              // records the input as malformed.
              state_ = set_byte (state_, 0);
              dest = arg (static_cast<typename arg_type::input_type> (last_low_surrogate), dest);
            }
          }
          return dest;
        },
        transcoder_variant_);
""", """    auto const finish = [this] (auto& arg, OutputIterator out) {
      using arg_type = std::decay_t<decltype (arg)>;
      out = arg.end_cp (out);
      auto const incomplete = byte_no (state_) > 0;
      state_ = set_byte (state_, 0);
      return incomplete ? arg (static_cast<typename arg_type::input_type> (last_low_surrogate), out) : out;
    };
    if (auto* const utf8 = std::get_if<t8_type> (&transcoder_variant_)) {
      return finish (*utf8, dest);
    }
    if (auto* const utf16 = std::get_if<t16_type> (&transcoder_variant_)) {
      return finish (*utf16, dest);
    }
    if (auto* const utf32 = std::get_if<t32_type> (&transcoder_variant_)) {
      return finish (*utf32, dest);
    }
    return dest;
"""))
edit("D16-fill-loop", ICU, (IC, """  while (out_it == out_begin && next_ != input_end) {
    out_it = transcoder_ (*next_, out_it);
    assert (out_it >= out_begin && out_it <= out_.end () && "out_ buffer overflow!");
    ++next_;
  }
  if (next_ == input_end) {
""", """  for (; next_ != input_end; ++next_) {
    if (out_it != out_begin) {
      break;
    }
    auto const unit = *next_;
    out_it = transcoder_ (unit, out_it);
  }
  bool const exhausted = next_ == input_end;
  if (exhausted) {
"""), (IC, """  first_ = std::uint_least8_t{0};
  last_ = static_cast<std::uint_least8_t> (out_it - out_begin);
  // Nothing remains if the input ended without producing output (a lone byte order mark).
  return out_it == out_begin ? next_ : result;
""", """  auto const produced = std::distance (out_begin, out_it);
  last_ = static_cast<std::uint_least8_t> (produced);
  first_ = 0;
  if (produced == 0) {
    return next_;
  }
  return result;
"""))
edit("D17-view-iterator", ICU, (IC, """    state_.advance ();
    if (state_.empty ()) {
      // We've exhausted the stashed output code units. Refill the buffer and reset.
      current_ = state_.fill (parent_);
    }
    return *this;
""", """    if (state_.advance (); !state_.empty ()) {
      return *this;
    }
    // We've exhausted the stashed output code units. Refill the buffer and reset.
    current_ = state_.fill (parent_);
    return *this;
"""), (IC, """    return lhs.current_ == rhs.current_ && lhs.parent_ == rhs.parent_;
""", """    if (lhs.parent_ != rhs.parent_) {
      return false;
    }
    return lhs.base () == rhs.base ();
"""))
edit("D18-t32-32", ICU, (IC, """    if (code_unit > max_code_point || is_surrogate (code_unit)) {
      well_formed_ = false;
      code_unit = replacement_char;
    }
    *(dest++) = code_unit;
    return dest;
""", """    bool const good = is_code_point_start (code_unit);
    *dest = good ? code_unit : replacement_char;
    well_formed_ = well_formed_ && good;
    return ++dest;
"""), (IC, """    if (state_ != accept) {
      state_ = reject;
      *(dest++) = replacement_char;
      well_formed_ = false;
    }
    return dest;
""", """    if (!this->partial ()) {
      return dest;
    }
    well_formed_ = false;
    state_ = reject;
    *(dest++) = replacement_char;
    return dest;
"""))
# --- find_last, starts_with, uri-split ---
edit("E1-find-last-iterator", ["C26", "C25", "C31"], (FL, """  std::optional<Iterator> found;
  for (; first != last; ++first) {
    if (std::invoke (proj, *first) == value) {
      found = first;
    }
  }
  if (!found) {
    return {first, first};
  }
  return {*found, std::ranges::next (*found, last)};
""", """  bool any = false;
  Iterator found = first;
  while (first != last) {
    if (std::invoke (proj, *first) == value) {
      found = first;
      any = true;
    }
    ++first;
  }
  if (any) {
    return {found, first};
  }
  return {first, first};
"""))
edit("E2-find-last-bidi-loop", ["C26", "C25", "C31"], (FL, """  auto const rend = std::make_reverse_iterator (first);
  auto const rb = std::ranges::find (std::make_reverse_iterator (last), rend, value, proj);
  if (rb == rend) {
    auto const end = std::ranges::next (rb.base (), last);
    return {end, end};
  }
  auto const result = std::ranges::subrange<Iterator>{std::prev (rb.base ()), last};
""", """  Iterator pos = last;
  bool found = false;
  while (pos != first) {
    --pos;
    if (std::invoke (proj, *pos) == value) {
      found = true;
      break;
    }
  }
  if (!found) {
    return {last, last};
  }
  auto const result = std::ranges::subrange<Iterator>{pos, last};
"""))
edit("E3-starts-with-loop", ["C26", "C25", "C31"], (SW, """    return std::ranges::mismatch (std::move (first1), last1, std::move (first2),
                                  last2, std::move (pred), std::move (proj1),
                                  std::move (proj2))
             .in2 == last2;
""", """    for (; first2 != last2; ++first1, ++first2) {
      if (first1 == last1) {
        return false;
      }
      if (!std::invoke (pred, std::invoke (proj1, *first1), std::invoke (proj2, *first2))) {
        return false;
      }
    }
    return true;
"""))
edit("E4-cli-helper", ["C24", "C20"], (US, """    std::cout << "URI: " << line << '\\n';

    auto r = uri::split (line);
    if (!r) {
      return false;
""", """    std::cout << "URI: ";
    std::cout << line << '\\n';

    auto const r = uri::split (line);
    bool const valid = r.has_value ();
    if (!valid) {
      return false;
"""), (US, """    auto value_or_none = [] (std::optional<std::string_view> const& s) {
      return s ? "\\""s + std::string{s.value ()} + "\\""s : "None"s;
    };
""", """    auto value_or_none = [] (std::optional<std::string_view> const& s) -> std::string {
      if (!s.has_value ()) {
        return "None";
      }
      std::string quoted;
      quoted += '"';
      quoted += *s;
      quoted += '"';
      return quoted;
    };
"""))
edit("E5-cli-main", ["C24", "C20"], (US, """    if (argc == 1) {
      return read_stream (std::cin) ? EXIT_SUCCESS : EXIT_FAILURE;
    }

    for (int arg = 1; arg < argc; ++arg) {
      std::filesystem::path const p = argv[arg];
      std::ifstream infile{p};
      if (!infile.is_open ()) {
        std::cerr << "Error: couldn't open " << p << '\\n';
        return EXIT_FAILURE;
      }
      if (!read_stream (infile)) {
        return EXIT_FAILURE;
      }
    }
""", """    if (argc < 2) {
      if (!read_stream (std::cin)) {
        exit_code = EXIT_FAILURE;
      }
      return exit_code;
    }

    int arg = 1;
    while (arg < argc && exit_code == EXIT_SUCCESS) {
      std::filesystem::path const p{argv[arg++]};
      std::ifstream infile;
      infile.open (p);
      if (infile.is_open ()) {
        exit_code = read_stream (infile) ? EXIT_SUCCESS : EXIT_FAILURE;
      } else {
        std::cerr << "Error: couldn't open " << p << '\\n';
        exit_code = EXIT_FAILURE;
      }
    }
"""))
edit("E6-cli-print-function", ["C24", "C20"], (US, """    std::cout << " scheme: " << value_or_none (r->scheme);
    if (r->authority.has_value ()) {
      std::cout << "\\n userinfo: " << value_or_none (r->authority->userinfo)
                << "\\n host: " << value_or_none (r->authority->host)
                << "\\n port: " << value_or_none (r->authority->port);
    } else {
      std::cout << "\\n userinfo: None"
                << "\\n host: None"
                << "\\n port: None";
    }
""", """    std::cout << " scheme: " << value_or_none (r->scheme);
    std::optional<std::string_view> userinfo;
    std::optional<std::string_view> host;
    std::optional<std::string_view> port;
    if (r->authority) {
      userinfo = r->authority->userinfo;
      host = r->authority->host;
      port = r->authority->port;
    }
    std::cout << "\\n userinfo: " << value_or_none (userinfo);
    std::cout << "\\n host: " << value_or_none (host);
    std::cout << "\\n port: " << value_or_none (port);
"""))

# --- punycode ---
PUN = ["C19", "C28"]
edit("F1-vli-while", PUN, (PU, """  for (auto k = base;; k += base) {
    auto const t = clamp (k, bias);
    if (q < t) {
      break;
    }
    assert (base >= t);
    *(out++) = encode_digit (static_cast<unsigned> (t + (q - t) % (base - t)));
    q = (q - t) / (base - t);
  }
  *(out++) = encode_digit (static_cast<unsigned> (q));
  return out;
""", """  auto k = std::size_t{base};
  auto t = clamp (k, bias);
  while (q >= t) {
    auto const range = base - t;
    auto const rest = q - t;
    *out = encode_digit (static_cast<unsigned> (t + rest % range));
    ++out;
    q = rest / range;
    k += base;
    t = clamp (k, bias);
  }
  *out = encode_digit (static_cast<unsigned> (q));
  return ++out;
"""))
edit("F2-adapt-for", PUN, (PU, """  delta = firsttime ? delta / damp : delta >> 1U;
  delta += delta / numpoints;
  auto k = 0U;
  while (delta > ((base - tmin) * tmax) / 2U) {
    delta = delta / (base - tmin);
    k += base;
  }
  return k""", """  if (firsttime) {
    delta /= damp;
  } else {
    delta /= 2U;
  }
  delta = delta + delta / numpoints;
  constexpr auto limit = ((base - tmin) * tmax) / 2U;
  auto k = std::size_t{0};
  for (; delta > limit; delta /= base - tmin) {
    k += base;
  }
  return k"""))
edit("F3-digit-ranges", PUN, (PU, """  constexpr auto alphabet_size = 26U;
  if (cp >= '0' && cp <= '9') {
    // Digits 0..9 represent values 26..35
    return cp - ('0' - alphabet_size);
  }
  if (cp >= 'a') {
    cp -= 'a' - 'A';  // Convert to upper case.
  }
  return (cp >= 'A' && cp <= 'Z') ? cp - 'A' : uri::punycode::details::base;
""", """  if (cp >= 'a' && cp <= 'z') {
    return static_cast<unsigned> (cp - 'a');
  }
  if (cp >= 'A' && cp <= 'Z') {
    return static_cast<unsigned> (cp - 'A');
  }
  if (cp >= '0' && cp <= '9') {
    return static_cast<unsigned> (cp - '0') + 26U;
  }
  return uri::punycode::details::base;
"""))
edit("F4-std-clamp", PUN, (PU, """                             std::size_t const bias) noexcept {
  if (k <= bias) {
    return tmin;
  }
  if (k >= bias + tmax) {
    return tmax;
  }
  return k - bias;
}

template <typename OutputIterator>""", """                             std::size_t const bias) noexcept {
  return k <= bias ? std::size_t{tmin}
                   : std::clamp (k - bias, std::size_t{tmin}, std::size_t{tmax});
}

template <typename OutputIterator>"""))
edit("F5-range-for", PUN, (PU, """    std::ranges::for_each (range, [&] (char32_t const c) {
      if (c < n) {
        ++delta;  // increment delta (fail on overflow)
      } else if (c == n) {
        // Represent delta as a generalized variable-length integer.
        output = details::encode_vli (delta, bias, output);
        bias = details::adapt (delta, i + 1, i == num_basics);
        delta = 0U;
        ++i;
      }
    });
""", """    for (auto const c : range) {
      if (c > n) {
        continue;
      }
      if (c < n) {
        ++delta;  // increment delta (fail on overflow)
        continue;
      }
      // Represent delta as a generalized variable-length integer.
      output = details::encode_vli (delta, bias, output);
      auto const first = i == num_basics;
      ++i;
      bias = details::adapt (delta, i, first);
      delta = 0U;
    }
"""))
edit("F6-insert-iterator", PUN, (PU, """    output.insert (index, std::size_t{1}, static_cast<char32_t> (n));
    ++index;
""", """    auto const pos = output.insert (output.begin () + static_cast<std::u32string::difference_type> (index), static_cast<char32_t> (n));
    index = static_cast<std::size_t> (pos - output.begin ()) + 1U;
"""))
edit("F7-divmod", PUN, (PU, """    if (index / output_length > std::numeric_limits<std::uint_least32_t>::max () - n) {
      return make_error_code (decode_error_code::overflow);
    }
    n += index / output_length;
    index %= output_length;
""", """    auto const quotient = index / output_length;
    static constexpr std::size_t largest = std::numeric_limits<std::uint_least32_t>::max ();
    if (quotient + n > largest || quotient > largest) {
      return make_error_code (decode_error_code::overflow);
    }
    n += quotient;
    index -= quotient * output_length;
"""))
edit("F8-ranges-sort", PUN, (PU, """  auto const first = std::begin (container);
  auto const last = std::end (container);
  std::sort (first, last);
  container.erase (std::unique (first, last), last);
""", """  std::ranges::sort (container);
  auto const dups = std::ranges::unique (container);
  container.erase (dups.begin (), dups.end ());
"""))
edit("F9-visit-to-if", PUN, (PU, """  return std::visit (
      [&last, &output]<typename Arg> (Arg&& arg) {
        using T = std::decay_t<Arg>;
        if constexpr (std::is_same_v<T, std::error_code>) {
          return decode_result<Iterator> (std::forward<Arg> (arg));
        } else if constexpr (std::is_same_v<T, Iterator>) {
          return details::decode_loop (arg, last, std::move (output));
        } else {
          static_assert (always_false<T>, "non-exhaustive visitor!");
        }
      },
      details::copy_plain_ascii_part (first, last, std::back_inserter (output)));
""", """  auto const plain = details::copy_plain_ascii_part (first, last, std::back_inserter (output));
  if (auto const* const error = std::get_if<std::error_code> (&plain)) {
    return decode_result<Iterator>{*error};
  }
  return details::decode_loop (std::get<Iterator> (plain), last, std::move (output));
"""))
edit("F10-min-search", PUN, (PU, """  for (char32_t const m : non_basic) {
    assert (m >= n);
""", """  for (auto done = std::size_t{0}; done < non_basic.size (); ++done) {
    auto const m = non_basic[done];
    assert (m >= n);
"""))
edit("F11-plain-find-if", PUN, (PU, """  for (auto pos = first, end = encoded_range.begin (); pos != end; ++pos) {
    auto const code_point = static_cast<char32_t> (*pos);
    if (!details::is_basic_code_point (code_point)) {
      return make_error_code (decode_error_code::bad_input);
    }
    *(out++) = code_point;
  }
""", """  auto const end = encoded_range.begin ();
  auto const basic = [] (auto const c) { return is_basic_code_point (static_cast<char32_t> (c)); };
  if (!std::all_of (first, end, basic)) {
    return make_error_code (decode_error_code::bad_input);
  }
  std::transform (first, end, out, [] (auto const c) { return static_cast<char32_t> (c); });
"""))
edit("F12-vli-helper", PUN, (PU, """    if (digit > (max - vli) / w) {
      return make_error_code (decode_error_code::overflow);
    }
    vli += digit * w;
    std::size_t const t = clampk (k, bias);
    if (digit < t) {
      break;
    }
    if (w > max / (base - t)) {
      return make_error_code (decode_error_code::overflow);
    }
    w *= (base - t);
""", """    auto const room = max - vli;
    if (digit != 0U && w > room / digit) {
      return make_error_code (decode_error_code::overflow);
    }
    vli += digit * w;
    auto const t = clamp (k, bias);
    if (digit < t) {
      return std::make_tuple (vli, first);
    }
    auto const factor = base - t;
    if (max / factor < w) {
      return make_error_code (decode_error_code::overflow);
    }
    w = w * factor;
"""))

# ---- G: a second round over the grammar, the paths and the percent encoder
GALL = GRAMMAR + [c for c in PATHS if c not in GRAMMAR]
edit("G2-slash-segment", GRAMMAR, (U, """auto path_abempty (uri::parts& result) {
  // path-abempty  = *( "/" segment )
  return [&result] (rule const& r) {
    return r
      .star ([&result] (rule const& r2) {
        return r2.concat (solidus, append_dir<true>{result})
          .concat (segment, append_segment{result})
          .matched ("\\"/\\" segment", r2);
      })
      .matched ("path-abempty", r);
  };
}
""", """template <bool IsAbs>
auto slash_segment (uri::parts& result) {
  return [&result] (rule const& rs) {
    return rs.concat (solidus, append_dir<IsAbs>{result})
      .concat (segment, append_segment{result})
      .matched ("\\"/\\" segment", rs);
  };
}

auto path_abempty (uri::parts& result) {
  // path-abempty  = *( "/" segment )
  return [&result] (rule const& r) {
    return r.star (slash_segment<true> (result)).matched ("path-abempty", r);
  };
}
"""), (U, """        return r1.concat (segment_nz, append_segment{result})
          .star ([&result] (rule const& r2) {
            return r2.concat (solidus, append_dir<false>{result})
              .concat (segment, append_segment{result})
              .matched ("\\"/\\" segment", r2);
          })
""", """        return r1.concat (segment_nz, append_segment{result})
          .star (slash_segment<false> (result))
"""), (U, """    return r.concat (segment_nz_nc, record_initial_segment{result})
      .star ([&result] (rule const& r1) {
        return r1.concat (solidus, append_dir<false>{result})
          .concat (segment, append_segment{result})
          .matched ("\\"/\\" segment", r1);
      })
""", """    return r.concat (segment_nz_nc, record_initial_segment{result})
      .star (slash_segment<false> (result))
"""), (U, """    return r.concat (segment_nz, record_initial_segment{result})
      .star ([&result] (rule const& r1) {
        return r1.concat (solidus, append_dir<false>{result})
          .concat (segment, append_segment{result})
          .matched ("\\"/\\" segment", r1);
      })
""", """    return r.concat (segment_nz, record_initial_segment{result})
      .star (slash_segment<false> (result))
"""))
edit("G3-assign-to", GRAMMAR, (U, """// question-query = "?" query
""", """auto assign_to (std::optional<std::string_view>& field) {
  return [&field] (std::string_view const text) { field = text; };
}

// question-query = "?" query
"""), (U, """      .concat (query, [&result] (
                        std::string_view const query) { result.query = query; })
""", """      .concat (query, assign_to (result.query))
"""), (U, """      .concat (fragment,
               [&result] (std::string_view const fragment) {
                 result.fragment = fragment;
               })
""", """      .concat (fragment, assign_to (result.fragment))
"""), (U, """    return r
      .concat (
        scheme,
        [&result] (std::string_view const scheme) { result.scheme = scheme; })
      .concat (colon)
      .concat (hier_part (result))
      .optional (question_query (result))
      .optional (hash_fragment (result))
""", """    return r.concat (scheme, assign_to (result.scheme))
      .concat (colon)
      .concat (hier_part (result))
      .optional (question_query (result))
      .optional (hash_fragment (result))
"""))
edit("G4-relative-hash", GRAMMAR, (U, """      .optional ([&result] (rule const& rf) {
        // "#" fragment
        return rf
          .concat (hash)  // "#"
          .concat (       // fragment
            fragment,
            [&result] (std::string_view const fragment) {
              result.fragment = fragment;
            })
          .matched ("\\"#\\" fragment", rf);
      })
""", """      .optional (hash_fragment (result))
"""))
edit("G5-path-empty", GRAMMAR, (U, """  return r.star (pchar, 0, 0).matched ("path-empty", r);
""", """  return r.matched ("path-empty", r);
"""))
edit("G6-join-finish", PATHS, (U, """  parts target;
  if (*ref_scheme) {
    target.scheme = *ref_scheme;
    target.authority = reference.authority;
    target.path = reference.path;
    target.path.remove_dot_segments ();
    target.query = reference.query;
  } else {
    if (reference.authority) {
      target.authority = reference.authority;
      target.path = reference.path;
      target.path.remove_dot_segments ();
      target.query = reference.query;
    } else {
      if (reference.path.empty ()) {
        target.path = base.path;
        target.query = reference.query ? reference.query : base.query;
      } else {
        if (reference.path.absolute) {
          target.path.absolute = true;
          target.path = reference.path;
          target.path.remove_dot_segments ();
        } else {
          target.path = merge (base, reference);
          target.path.remove_dot_segments ();
        }
        target.query = reference.query;
      }
      target.authority = base.authority;
    }
    target.scheme = base.scheme;
  }
  target.fragment = reference.fragment;
  return target;
""", """  auto const clean = [] (struct parts::path p) {
    p.remove_dot_segments ();
    return p;
  };
  parts target;
  target.fragment = reference.fragment;
  target.query = reference.query;
  if (*ref_scheme || reference.authority) {
    target.scheme = *ref_scheme ? *ref_scheme : base.scheme;
    target.authority = reference.authority;
    target.path = clean (reference.path);
    return target;
  }
  target.scheme = base.scheme;
  target.authority = base.authority;
  if (!reference.path.empty ()) {
    target.path = clean (reference.path.absolute ? reference.path
                                                 : merge (base, reference));
    return target;
  }
  target.path = base.path;
  if (!target.query) {
    target.query = base.query;
  }
  return target;
"""))
edit("G7-compose-string", PATHS, (U, """  if (p.authority.has_value ()) {
    os << "//" << p.authority.value ();
    if (!p.path.empty () && !p.path.absolute) {
      os << '/';
    }
  }
  os << p.path;
""", """  auto text = static_cast<std::string> (p.path);
  if (auto const& auth = p.authority) {
    os << '/' << '/' << *auth;
    if (!p.path.absolute && !p.path.segments.empty ()) {
      text.insert (text.begin (), '/');
    }
  }
  os << text;
"""), (U, """  std::stringstream result;
  result << p;
  return result.str ();
""", """  std::ostringstream stream;
  compose (stream, p);
  return stream.str ();
"""))
edit("G8-dots-index", PATHS, (U, """  auto const begin = std::begin (this->segments);
  auto const end = std::end (this->segments);
  auto outit = begin;
  bool last_dir = false;
  for (auto it = begin; it != end; ++it) {
    if (*it == ".") {
      // '.' means "the current directory": remove it.
      last_dir = true;
    } else if (*it == "..") {
      // ".." is "up one directory" so, if we can, pop the last
      // element.
      last_dir = true;
      if (outit != begin) {
        --outit;
      }
    } else {
      last_dir = false;
      if (outit != it) {
        *outit = *it;
      }
      ++outit;
    }
  }
  this->segments.erase (outit, end);
""", """  auto const count = segments.size ();
  std::size_t kept = 0;
  std::size_t index = 0;
  bool last_dir = false;
  while (index < count) {
    auto const seg = segments[index++];
    last_dir = seg == "." || seg == "..";
    if (!last_dir) {
      segments[kept++] = seg;
    } else if (seg.size () == 2 && kept > 0) {
      --kept;
    }
  }
  segments.resize (kept);
"""))
edit("G9-single-colon", GRAMMAR, (U, """        if (sv->empty () || sv->front () != ':') {
          return std::make_tuple (sv->substr (0, 0),
                                  rule::acceptor_container{});
        }
""", """        if (!sv->starts_with (':')) {
          return {{sv->substr (0, 0), rule::acceptor_container{}}};
        }
"""))
edit("G10-sub-delims-find", GRAMMAR, (U, """    auto const cp = static_cast<code_point> (c);
    return cp == code_point::exclamation_mark ||
           cp == code_point::dollar_sign || cp == code_point::ampersand ||
           cp == code_point::apostrophe || cp == code_point::left_parenthesis ||
           cp == code_point::right_parenthesis || cp == code_point::asterisk ||
           cp == code_point::plus_sign || cp == code_point::comma ||
           cp == code_point::semi_colon || cp == code_point::equals_sign;
""", """    constexpr std::string_view set{"!$&'()*+,;="};
    return set.find (c) != std::string_view::npos;
"""))
edit("G11-merge-insert", PATHS, (U, """  auto last = std::end (base.path.segments);
  if (!base.path.segments.empty ()) {
    std::advance (last, -1);
  }
  auto out = std::back_inserter (r2.segments);
  out = std::copy (std::begin (base.path.segments), last, out);
  std::copy (std::begin (ref.path.segments), std::end (ref.path.segments), out);
  return r2;
""", """  r2.segments.reserve (base.path.segments.size () +
                       ref.path.segments.size ());
  r2.segments = base.path.segments;
  if (!r2.segments.empty ()) {
    r2.segments.pop_back ();
  }
  r2.segments.insert (r2.segments.end (), ref.path.segments.begin (),
                      ref.path.segments.end ());
  return r2;
"""))
edit("G12-valid-template", GALL, (U, """bool parts::path::valid () const noexcept {
""", """namespace {
template <typename Rule>
bool matches (std::optional<std::string_view> const& text, Rule r) {
  return !text || rule{*text}.concat (r).done ();
}
}  // end anonymous namespace

bool parts::path::valid () const noexcept {
"""), (U, """  if (userinfo.has_value () &&
      !rule{userinfo.value ()}.concat (userinfofn).done ()) {
    return false;
  }
  if (!rule{host}.concat (hostfn).done ()) {
    return false;
  }
  if (port.has_value () && !rule{port.value ()}.concat (portfn).done ()) {
    return false;
  }
  return true;
""", """  return matches (userinfo, userinfofn) && matches (host, hostfn) &&
         matches (port, portfn);
"""), (U, """  if (this->query.has_value () &&
      !rule{this->query.value ()}.concat (queryfn).done ()) {
    return false;
  }
  if (this->fragment.has_value () &&
      !rule{this->fragment.value ()}.concat (fragmentfn).done ()) {
    return false;
  }
  return true;
""", """  return matches (this->query, queryfn) && matches (this->fragment, fragmentfn);
"""))
edit("G13-path-equal", GALL, (U, """  return absolute == rhs.absolute && segments == rhs.segments;
""", """  return absolute == rhs.absolute &&
         std::equal (segments.begin (), segments.end (), rhs.segments.begin (),
                     rhs.segments.end ());
"""), (U, "#include <cassert>\n#include <sstream>\n", "#include <algorithm>\n#include <cassert>\n#include <sstream>\n"))
edit("G14-star-append", GRAMMAR, (R, """    auto const& a = std::get<acceptor_container> (*m);
    acc.insert (acc.end (), a.begin (), a.end ());
""", """    for (auto const& entry : std::get<acceptor_container> (*m)) {
      acc.push_back (entry);
    }
"""))
edit("G15-done-index", GRAMMAR, (RC, """  std::for_each (std::begin (acceptors_), std::end (acceptors_),
                 [] (acceptor_container::value_type const& a) {
                   std::get<0> (a) (std::get<1> (a));
                 });
""", """  for (std::size_t i = 0; i < acceptors_.size (); ++i) {
    auto const& [function, text] = acceptors_[i];
    function (text);
  }
"""))
edit("G16-append-dir-lambda", GRAMMAR, (U, """        return r2.concat (solidus, append_dir<true>{result})
          .concat (segment, append_segment{result})
          .matched ("\\"/\\" segment", r2);
      })
      .matched ("path-abempty", r);
""", """        return r2
          .concat (solidus,
                   [&result] (std::string_view) {
                     result.path.absolute = true;
                     result.path.segments.push_back (std::string_view{});
                   })
          .concat (segment,
                   [&result] (std::string_view const seg) {
                     auto& segs = result.path.segments;
                     segs[segs.size () - 1] = seg;
                   })
          .matched ("\\"/\\" segment", r2);
      })
      .matched ("path-abempty", r);
"""))
edit("G17-encode-buffer", PCT, (PEH, """    auto c = *first;
    if (needs_pctencode (static_cast<std::uint_least8_t> (c), encodeset)) {
      auto const cu = static_cast<std::make_unsigned_t<decltype (c)>> (c);
      *(out++) = '%';
      *(out++) = dec2hex ((cu >> 4U) & 0xFU);
      c = dec2hex (cu & 0xFU);
    }
    *(out++) = c;
""", """    auto const byte = static_cast<std::uint_least8_t> (*first);
    if (!needs_pctencode (byte, encodeset)) {
      *out = *first;
      ++out;
      continue;
    }
    std::array<char, 3> const escape{
      {'%', dec2hex (byte / 16U), dec2hex (byte % 16U)}};
    out = std::copy (escape.begin (), escape.end (), out);
"""))
edit("G18-needs-loop", PCT, (PE, """  return std::any_of (std::begin (s), std::end (s), [es] (auto c) {
    return needs_pctencode (static_cast<std::uint_least8_t> (c), es);
  });
""", """  for (auto const c : s) {
    if (needs_pctencode (static_cast<std::uint_least8_t> (c), es)) {
      return true;
    }
  }
  return false;
"""))
edit("G19-needs-lambda", PCT, (PE, """  // NOLINTNEXTLINE(cppcoreguidelines-pro-bounds-constant-array-index)
  return (encode[c] &
          static_cast<std::underlying_type_t<pctencode_set>> (es)) != 0U;
""", """  auto const mask = static_cast<std::underlying_type_t<pctencode_set>> (es);
  auto const bits = encode.at (c);
  return static_cast<bool> (bits & mask);
"""))
edit("G20-done-success", GRAMMAR, (U, """std::optional<parts> split (std::string_view const in) {
  if (parts result; rule{in}.concat (URI (result)).done ()) {
    return result;
  }
  return {};
}
""", """std::optional<parts> split (std::string_view const in) {
  std::optional<parts> result{std::in_place};
  auto const whole = rule{in}.concat (URI (*result));
  if (!whole.done ()) {
    result.reset ();
  }
  return result;
}
"""))
edit("G21-path-operator-join", PATHS, (U, """  std::string p;
  auto const* separator = absolute ? "/" : "";
  for (auto const& seg : segments) {
    p += separator;
    p += seg;
    separator = "/";
  }
  return p;
""", """  std::string text;
  for (auto it = segments.cbegin (); it != segments.cend (); ++it) {
    if (absolute || it != segments.cbegin ()) {
      text.push_back ('/');
    }
    text.append (it->data (), it->size ());
  }
  return text;
"""))
edit("G22-authority-stream", PATHS, (U, """  if (!auth.host.empty ()) {
    os << auth.host;
  }
  if (auth.port.has_value ()) {
    os << ':';
    if (!auth.port->empty ()) {
      os << *auth.port;
    }
  }
  return os;
""", """  os << auth.host;
  if (auto const& port = auth.port) {
    os << ':' << *port;
  }
  return os;
"""))
edit("G23-stream-write", PATHS, (U, """  if (!auth.host.empty ()) {
    os << auth.host;
  }
""", """  os.write (auth.host.data (), static_cast<std::streamsize> (auth.host.size ()));
"""), (U, """  return os << static_cast<std::string> (path);
""", """  auto const text = static_cast<std::string> (path);
  return os.write (text.data (), static_cast<std::streamsize> (text.size ()));
"""), (U, """    os << '#' << p.fragment.value ();
""", """    os.put ('#').write (p.fragment->data (), static_cast<std::streamsize> (p.fragment->length ()));
"""))
edit("G24-compose-append", PATHS, (U, """  std::stringstream result;
  result << p;
  return result.str ();
""", """  std::string result;
  if (p.scheme) {
    result.append (*p.scheme).append (1, ':');
  }
  if (p.authority) {
    std::ostringstream auth;
    auth << *p.authority;
    result += "//" + auth.str ();
    if (!p.path.empty () && !p.path.absolute) {
      result += '/';
    }
  }
  result += std::string{p.path};
  if (p.query) {
    result += '?' + std::string{*p.query};
  }
  if (p.fragment) {
    result += '#';
    result.append (p.fragment->begin (), p.fragment->end ());
  }
  return result;
"""))
