// Instantiations of the percent-coding templates for analysis only (never compiled into a program or run).
#include <cstdint>
#include <iterator>
#include <ranges>
#include <string>
#include <string_view>
#include <vector>
#include "uri/pctdecode.hpp"
#include "uri/pctencode.hpp"
namespace vtu {
using S = uri::pctencode_set;
// -- forward-only iterators and ranges of char
struct fwd_it {
  using iterator_category = std::forward_iterator_tag;
  using value_type = char;
  using difference_type = std::ptrdiff_t;
  using pointer = char const*;
  using reference = char const&;
  char const* p = nullptr;
  fwd_it () = default;
  explicit fwd_it (char const* q) : p{q} {}
  char const& operator* () const { return *p; }
  char const* operator->() const { return p; }
  fwd_it& operator++ () { ++p; return *this; }
  fwd_it operator++ (int) { auto o = *this; ++p; return o; }
  friend bool operator== (fwd_it const& a, fwd_it const& b) { return a.p == b.p; }
};
// -- encoding
bool need1 (std::uint_least8_t c, S s) { return uri::needs_pctencode (c, s); }
bool need_sv (std::string_view s, S e) { return uri::needs_pctencode (s, e); }
bool need_cp (char const* f, char const* l, S e) { return uri::needs_pctencode (f, l, e); }
bool need_up (std::uint_least8_t const* f, std::uint_least8_t const* l, S e) { return uri::needs_pctencode (f, l, e); }
bool need_sc (signed char const* f, signed char const* l, S e) { return uri::needs_pctencode (f, l, e); }
bool need_fw (char const* f, char const* l, S e) { return uri::needs_pctencode (fwd_it{f}, fwd_it{l}, e); }
std::string enc_sv (std::string_view s, S e) { return uri::pctencode (s, e); }
std::string enc_cp (char const* f, char const* l, S e) {
  std::string o;
  uri::pctencode (f, l, std::back_inserter (o), e);
  return o;
}
std::string enc_up (std::uint_least8_t const* f, std::uint_least8_t const* l, S e) {
  std::string o;
  uri::pctencode (f, l, std::back_inserter (o), e);
  return o;
}
std::string enc_sc (signed char const* f, signed char const* l, S e) {
  std::string o;
  uri::pctencode (f, l, std::back_inserter (o), e);
  return o;
}
std::string enc_fw (char const* f, char const* l, S e) {
  std::string o;
  uri::pctencode (fwd_it{f}, fwd_it{l}, std::back_inserter (o), e);
  return o;
}
std::vector<char> enc_vec (std::string_view s, S e) {
  std::vector<char> o;
  uri::pctencode (s.begin (), s.end (), std::back_inserter (o), e);
  return o;
}
// the returned output iterator continues after the last byte
std::string enc_ret (std::string_view s, S e) {
  std::string o;
  auto out = uri::pctencode (s.begin (), s.end (), std::back_inserter (o), e);
  *(out++) = '!';
  return o;
}
// -- decoding
std::string dec_sv (std::string_view s) { return uri::pctdecode (s); }
std::string dec_it (std::string_view s) {
  std::string o;
  auto l = uri::pctdecode_end (s);
  for (auto f = uri::pctdecode_begin (s); f != l; ++f) {
    o.push_back (*f);
  }
  return o;
}
// reads every element several times, through copies and post-increment
std::string dec_multi (std::string_view s) {
  std::string o;
  auto l = uri::pctdecode_end (s);
  auto f = uri::pctdecode_begin (s);
  while (!(f == l)) {
    char const a = *f;
    auto const old = f++;
    char const b = *old;
    char const d = *old.operator->();
    o.push_back (a == b && b == d ? a : '\x01');
  }
  return o;
}
std::string dec_skip (std::string_view s) {  // increments without reading
  std::string o;
  auto l = uri::pctdecode_end (s);
  for (auto f = uri::pctdecode_begin (s); f != l; ++f) {
    o.push_back ('.');
  }
  return o;
}
std::string dec_fw (char const* f, char const* l) {
  std::string o;
  auto e = uri::pctdecode_iterator{fwd_it{l}, fwd_it{l}};
  for (auto i = uri::pctdecode_iterator{fwd_it{f}, fwd_it{l}}; i != e; ++i) {
    o.push_back (*i);
  }
  return o;
}
std::string dec_decoder (std::string_view s) {
  std::string o;
  for (auto const c : uri::pctdecoder{s}) {
    o.push_back (c);
  }
  return o;
}
std::string dec_decoder2 (char const* f, char const* l) {
  std::string o;
  for (auto const c : uri::pctdecoder<char const*>{f, l}) {
    o.push_back (c);
  }
  return o;
}
std::string dec_view (std::string_view s) {
  std::string o;
  for (auto const c : s | uri::views::pctdecode) {
    o.push_back (c);
  }
  return o;
}
std::string dec_view_multi (std::string_view s) {
  std::string o;
  auto const v = uri::views::pctdecode (s);
  auto f = v.begin ();
  while (!(f == v.end ())) {
    char const a = *f;
    auto const old = f++;
    char const b = *old;
    o.push_back (a == b ? a : '\x01');
  }
  return o;
}
std::string dec_view_move (std::string_view s) {
  std::string o;
  auto const v = uri::views::pctdecode (s);
  for (auto f = v.begin (); f != v.end (); ++f) {
    o.push_back (std::ranges::iter_move (f));
  }
  return o;
}
// -- the view over ranges that are not common, whose elements are values, or mutable
struct val_it {
  using iterator_concept = std::forward_iterator_tag;
  using iterator_category = std::input_iterator_tag;
  using value_type = char;
  using difference_type = std::ptrdiff_t;
  char const* p = nullptr;
  val_it () = default;
  explicit val_it (char const* q) : p{q} {}
  char operator* () const { return *p; }
  val_it& operator++ () { ++p; return *this; }
  val_it operator++ (int) { auto o = *this; ++p; return o; }
  friend bool operator== (val_it const& a, val_it const& b) { return a.p == b.p; }
};
template <typename It> struct sent {
  char const* e = nullptr;
  friend bool operator== (It const& a, sent const& s) { return a.p == s.e; }
};
template <typename It, typename Se> struct range : std::ranges::view_base {
  It b;
  Se e;
  range () = default;
  range (It x, Se y) : b{x}, e{y} {}
  It begin () const { return b; }
  Se end () const { return e; }
};
template <typename R> std::string drain (R r) {
  std::string o;
  auto v = uri::views::pctdecode (r);
  for (auto f = v.begin (); f != v.end (); ++f) {
    o.push_back (*f);
  }
  return o;
}
template <typename R> std::string drain_const (R r) {
  std::string o;
  auto const v = r | uri::views::pctdecode;
  for (auto const c : v) {
    o.push_back (c);
  }
  return o;
}
std::string dec_view_sent (char const* f, char const* l) { return drain (range<fwd_it, sent<fwd_it>>{fwd_it{f}, {l}}); }
std::string dec_view_sent2 (char const* f, char const* l) { return drain_const (range<fwd_it, sent<fwd_it>>{fwd_it{f}, {l}}); }
std::string dec_view_val (char const* f, char const* l) { return drain (range<val_it, sent<val_it>>{val_it{f}, {l}}); }
std::string dec_view_val2 (char const* f, char const* l) { return drain_const (range<val_it, val_it>{val_it{f}, val_it{l}}); }
std::string dec_view_mut (std::string_view s) {
  std::string m (s);
  auto v = uri::views::pctdecode (m);
  std::string o;
  for (auto&& c : v) {
    o.push_back (c);
  }
  return o;
}
std::string dec_view_mut_same (std::string_view s) {  // decoding leaves the characters of a mutable range alone
  std::string m (s);
  auto v = uri::views::pctdecode (m);
  std::string o;
  for (auto&& c : v) {
    o.push_back (c);
  }
  return m == s ? o : std::string{"changed"};
}
bool need_dec (char const* f, char const* l) { return uri::needs_pctdecode (f, l); }
bool need_dec_fw (char const* f, char const* l) { return uri::needs_pctdecode (fwd_it{f}, fwd_it{l}); }
// -- both
std::string round_trip (std::string_view s, S e) {
  auto const t = uri::pctencode (s, e);
  return uri::pctdecode (t);
}
}  // namespace vtu
