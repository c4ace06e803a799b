// Instantiations of the transcoders for analysis only (never compiled into a program or run).
#include <cstddef>
#include <cstdint>
#include <iterator>
#include <string>
#include <string_view>
#include <vector>
#include "uri/icubaby.hpp"
namespace vtu {
using namespace icubaby;
#define TRANSCODER(N, T)                                                                                     \
  void make_##N (T* out) { *out = T{}; }                                                                     \
  T init_##N () { return T{}; }                                                                              \
  T::output_type* feed_##N (T& t, T::input_type u, T::output_type* dest) { return t (u, dest); }             \
  T::output_type* end_##N (T& t, T::output_type* dest) { return t.end_cp (dest); }                           \
  bool ok_##N (T const& t) { return t.well_formed (); }                                                      \
  bool partial_##N (T const& t) { return t.partial (); }                                                     \
  std::vector<T::output_type> iter_##N (T& t, T::input_type const* f, T::input_type const* l) {              \
    std::vector<T::output_type> o;                                                                           \
    icubaby::iterator it{&t, std::back_inserter (o)};                                                        \
    for (; f != l; ++f) {                                                                                    \
      *(it++) = *f;                                                                                          \
    }                                                                                                        \
    t.end_cp (it);                                                                                           \
    return o;                                                                                                \
  }
TRANSCODER (8_8, t8_8)
TRANSCODER (8_16, t8_16)
TRANSCODER (8_32, t8_32)
TRANSCODER (16_8, t16_8)
TRANSCODER (16_16, t16_16)
TRANSCODER (16_32, t16_32)
TRANSCODER (32_8, t32_8)
TRANSCODER (32_16, t32_16)
TRANSCODER (32_32, t32_32)
TRANSCODER (x_8, tx_8)
TRANSCODER (x_16, tx_16)
TRANSCODER (x_32, tx_32)
encoding sel_x_8 (tx_8 const& t) { return t.selected_encoding (); }
encoding sel_x_16 (tx_16 const& t) { return t.selected_encoding (); }
encoding sel_x_32 (tx_32 const& t) { return t.selected_encoding (); }
#define VIEW(N, FROM, TO)                                                                                    \
  std::vector<TO> view_##N (std::basic_string_view<FROM> s) {                                                \
    std::vector<TO> o;                                                                                       \
    for (auto const c : s | icubaby::views::transcode<FROM, TO>) {                                           \
      o.push_back (c);                                                                                       \
    }                                                                                                        \
    return o;                                                                                                \
  }                                                                                                          \
  bool viewok_##N (std::basic_string_view<FROM> s) {                                                         \
    auto const v = s | icubaby::views::transcode<FROM, TO>;                                                  \
    for (auto const c : v) {                                                                                 \
      (void)c;                                                                                               \
    }                                                                                                        \
    return v.well_formed ();                                                                                 \
  }
VIEW (8_8, char8, char8)
VIEW (8_16, char8, char16_t)
VIEW (8_32, char8, char32_t)
VIEW (16_8, char16_t, char8)
VIEW (16_16, char16_t, char16_t)
VIEW (16_32, char16_t, char32_t)
VIEW (32_8, char32_t, char8)
VIEW (32_16, char32_t, char16_t)
VIEW (32_32, char32_t, char32_t)
#define BVIEW(N, TO)                                                                                         \
  std::vector<TO> view_##N (std::vector<std::byte> const& s) {                                               \
    std::vector<TO> o;                                                                                       \
    for (auto const c : s | icubaby::views::transcode<std::byte, TO>) {                                      \
      o.push_back (c);                                                                                       \
    }                                                                                                        \
    return o;                                                                                                \
  }                                                                                                          \
  bool viewok_##N (std::vector<std::byte> const& s) {                                                        \
    auto const v = s | icubaby::views::transcode<std::byte, TO>;                                             \
    for (auto const c : v) {                                                                                 \
      (void)c;                                                                                               \
    }                                                                                                        \
    return v.well_formed ();                                                                                 \
  }
BVIEW (x_8, char8)
BVIEW (x_16, char16_t)
BVIEW (x_32, char32_t)
template <typename T> struct toggled {
  constexpr T operator() (T c) const noexcept { return static_cast<T> (c ^ (sizeof (T) == 1 ? 0x80U : sizeof (T) == 2 ? 0x8000U : 0xD800U)); }
};
std::ptrdiff_t length_8r (char8 const* f, char8 const* l) { return icubaby::length (std::ranges::subrange (f, l)); }
std::ptrdiff_t length_8p (char8 const* f, char8 const* l) { return icubaby::length (f, l, toggled<char8>{}); }
std::ptrdiff_t length_8q (char8 const* f, char8 const* l) { return icubaby::length (std::ranges::subrange (f, l), toggled<char8>{}); }
char8 const* index_8r (char8 const* f, char8 const* l, std::size_t pos) { return icubaby::index (std::ranges::subrange (f, l), pos); }
char8 const* index_8p (char8 const* f, char8 const* l, std::size_t pos) { return icubaby::index (f, l, pos, toggled<char8>{}); }
char8 const* index_8q (char8 const* f, char8 const* l, std::size_t pos) { return icubaby::index (std::ranges::subrange (f, l), pos, toggled<char8>{}); }
std::ptrdiff_t length_16r (char16_t const* f, char16_t const* l) { return icubaby::length (std::ranges::subrange (f, l)); }
std::ptrdiff_t length_16p (char16_t const* f, char16_t const* l) { return icubaby::length (f, l, toggled<char16_t>{}); }
std::ptrdiff_t length_16q (char16_t const* f, char16_t const* l) { return icubaby::length (std::ranges::subrange (f, l), toggled<char16_t>{}); }
char16_t const* index_16r (char16_t const* f, char16_t const* l, std::size_t pos) { return icubaby::index (std::ranges::subrange (f, l), pos); }
char16_t const* index_16p (char16_t const* f, char16_t const* l, std::size_t pos) { return icubaby::index (f, l, pos, toggled<char16_t>{}); }
char16_t const* index_16q (char16_t const* f, char16_t const* l, std::size_t pos) { return icubaby::index (std::ranges::subrange (f, l), pos, toggled<char16_t>{}); }
std::ptrdiff_t length_32r (char32_t const* f, char32_t const* l) { return icubaby::length (std::ranges::subrange (f, l)); }
std::ptrdiff_t length_32p (char32_t const* f, char32_t const* l) { return icubaby::length (f, l, toggled<char32_t>{}); }
std::ptrdiff_t length_32q (char32_t const* f, char32_t const* l) { return icubaby::length (std::ranges::subrange (f, l), toggled<char32_t>{}); }
char32_t const* index_32r (char32_t const* f, char32_t const* l, std::size_t pos) { return icubaby::index (std::ranges::subrange (f, l), pos); }
char32_t const* index_32p (char32_t const* f, char32_t const* l, std::size_t pos) { return icubaby::index (f, l, pos, toggled<char32_t>{}); }
char32_t const* index_32q (char32_t const* f, char32_t const* l, std::size_t pos) { return icubaby::index (std::ranges::subrange (f, l), pos, toggled<char32_t>{}); }
std::ptrdiff_t length_8 (char8 const* f, char8 const* l) { return icubaby::length (f, l); }
std::ptrdiff_t length_16 (char16_t const* f, char16_t const* l) { return icubaby::length (f, l); }
std::ptrdiff_t length_32 (char32_t const* f, char32_t const* l) { return icubaby::length (f, l); }
char8 const* index_8 (char8 const* f, char8 const* l, std::size_t pos) { return icubaby::index (f, l, pos); }
char16_t const* index_16 (char16_t const* f, char16_t const* l, std::size_t pos) { return icubaby::index (f, l, pos); }
char32_t const* index_32 (char32_t const* f, char32_t const* l, std::size_t pos) { return icubaby::index (f, l, pos); }
}  // namespace vtu
