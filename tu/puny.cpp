// Instantiations of the punycode templates for analysis only (never compiled into a program or run).
#include <iterator>
#include <string>
#include <string_view>
#include <variant>
#include "uri/punycode.hpp"
namespace vtu {
struct puny_enc {
  std::string out;
  bool any = false;
  bool at_end = false;
};
puny_enc puny_encode (std::u32string_view s, bool plain) {
  puny_enc r;
  auto t = uri::punycode::encode (s, plain, std::back_inserter (r.out));
  r.at_end = std::get<0> (t) == s.end ();
  r.any = std::get<2> (t);
  return r;
}
struct puny_dec {
  bool ok = false;
  bool error_set = false;
  bool at_end = false;
  std::u32string str;
};
puny_dec puny_decode (std::string_view s) {
  puny_dec r;
  auto v = uri::punycode::decode (s);
  if (auto const* const e = std::get_if<std::error_code> (&v)) {
    r.error_set = static_cast<bool> (*e);
    return r;
  }
  auto const& u = std::get<1> (v);
  r.ok = true;
  r.at_end = u.in == s.end ();
  r.str = u.str;
  return r;
}
puny_dec puny_decode_iterators (char const* first, char const* last) {
  puny_dec r;
  auto v = uri::punycode::decode (first, last);
  if (auto const* const e = std::get_if<std::error_code> (&v)) {
    r.error_set = static_cast<bool> (*e);
    return r;
  }
  auto const& u = std::get<1> (v);
  r.ok = true;
  r.at_end = u.in == last;
  r.str = u.str;
  return r;
}
}  // namespace vtu
