// Instantiations of uri::find_last and uri::starts_with for analysis only (never compiled into a program or run).
#include <cassert>
#include <cstddef>
#include <iterator>
#include <ranges>
#include <utility>
#include <vector>
#include "uri/find_last.hpp"
#include "uri/starts_with.hpp"
namespace vtu {
// iterators of exactly one category over int
struct in_it {
  using iterator_concept = std::input_iterator_tag;
  using value_type = int;
  using difference_type = std::ptrdiff_t;
  int const* p = nullptr;
  in_it () = default;
  explicit in_it (int const* q) : p{q} {}
  int const& operator* () const { return *p; }
  in_it& operator++ () { ++p; return *this; }
  void operator++ (int) { ++p; }
  friend bool operator== (in_it const& a, in_it const& b) { return a.p == b.p; }
};
struct fwd_it {
  using iterator_category = std::forward_iterator_tag;
  using value_type = int;
  using difference_type = std::ptrdiff_t;
  using pointer = int const*;
  using reference = int const&;
  int const* p = nullptr;
  fwd_it () = default;
  explicit fwd_it (int const* q) : p{q} {}
  int const& operator* () const { return *p; }
  int const* operator->() const { return p; }
  fwd_it& operator++ () { ++p; return *this; }
  fwd_it operator++ (int) { auto o = *this; ++p; return o; }
  friend bool operator== (fwd_it const& a, fwd_it const& b) { return a.p == b.p; }
};
struct bidi_it {
  using iterator_category = std::bidirectional_iterator_tag;
  using value_type = int;
  using difference_type = std::ptrdiff_t;
  using pointer = int const*;
  using reference = int const&;
  int const* p = nullptr;
  bidi_it () = default;
  explicit bidi_it (int const* q) : p{q} {}
  int const& operator* () const { return *p; }
  int const* operator->() const { return p; }
  bidi_it& operator++ () { ++p; return *this; }
  bidi_it operator++ (int) { auto o = *this; ++p; return o; }
  bidi_it& operator-- () { --p; return *this; }
  bidi_it operator-- (int) { auto o = *this; --p; return o; }
  friend bool operator== (bidi_it const& a, bidi_it const& b) { return a.p == b.p; }
};
template <typename It> struct sent {
  int const* e = nullptr;
  friend bool operator== (It const& a, sent const& s) { return a.p == s.e; }
};
template <typename It, typename Se> struct range {
  It b;
  Se e;
  It begin () const { return b; }
  Se end () const { return e; }
};
using pos = std::pair<std::ptrdiff_t, std::ptrdiff_t>;
int unproj (int v) { return v / 2; }
template <typename R> pos at (R const& r, int const* f) { return {r.begin ().p - f, r.end ().p - f}; }
// -- find_last: begin and end of the result as positions
pos fl_fwd (int const* f, int const* l, int v) { return at (uri::find_last (fwd_it{f}, fwd_it{l}, v), f); }
pos fl_fwd_sent (int const* f, int const* l, int v) { return at (uri::find_last (fwd_it{f}, sent<fwd_it>{l}, v), f); }
pos fl_fwd_proj (int const* f, int const* l, int v) { return at (uri::find_last (fwd_it{f}, fwd_it{l}, v, unproj), f); }
pos fl_fwd_range (int const* f, int const* l, int v) {
  range<fwd_it, sent<fwd_it>> const r{fwd_it{f}, {l}};
  return at (uri::find_last (r, v), f);
}
pos fl_bidi (int const* f, int const* l, int v) { return at (uri::find_last (bidi_it{f}, bidi_it{l}, v), f); }
pos fl_bidi_sent (int const* f, int const* l, int v) { return at (uri::find_last (bidi_it{f}, sent<bidi_it>{l}, v), f); }
pos fl_bidi_proj (int const* f, int const* l, int v) { return at (uri::find_last (bidi_it{f}, bidi_it{l}, v, unproj), f); }
pos fl_bidi_range (int const* f, int const* l, int v) {
  range<bidi_it, bidi_it> const r{bidi_it{f}, bidi_it{l}};
  return at (uri::find_last (r, v, unproj), f);
}
pos fl_ptr (int const* f, int const* l, int v) {
  auto const r = uri::find_last (f, l, v);
  return {r.begin () - f, r.end () - f};
}
pos fl_ptr_proj (int const* f, int const* l, int v) {
  auto const r = uri::find_last (f, l, v, [] (int x) { return x / 2; });
  return {r.begin () - f, r.end () - f};
}
pos fl_vec (std::vector<int>& c, int v) {
  auto const r = uri::find_last (c, v);
  return {r.begin () - c.begin (), r.end () - c.begin ()};
}
pos fl_vec_proj (std::vector<int>& c, int v) {
  auto const r = uri::find_last (c, v, unproj);
  return {r.begin () - c.begin (), r.end () - c.begin ()};
}
// -- starts_with
struct alike {
  bool operator() (int a, int b) const { return a / 2 == b; }
};
template <typename A, typename B> bool sw (int const* f, int const* l, int const* f2, int const* l2) {
  return uri::starts_with (A{f}, A{l}, B{f2}, B{l2});
}
bool sw_in (int const* f, int const* l, int const* f2, int const* l2) { return sw<in_it, in_it> (f, l, f2, l2); }
bool sw_in_fwd (int const* f, int const* l, int const* f2, int const* l2) { return sw<in_it, fwd_it> (f, l, f2, l2); }
bool sw_fwd_in (int const* f, int const* l, int const* f2, int const* l2) { return sw<fwd_it, in_it> (f, l, f2, l2); }
bool sw_bidi (int const* f, int const* l, int const* f2, int const* l2) { return sw<bidi_it, fwd_it> (f, l, f2, l2); }
bool sw_ptr (int const* f, int const* l, int const* f2, int const* l2) { return uri::starts_with (f, l, f2, l2); }
bool sw_sent (int const* f, int const* l, int const* f2, int const* l2) {
  return uri::starts_with (fwd_it{f}, sent<fwd_it>{l}, fwd_it{f2}, sent<fwd_it>{l2});
}
bool sw_range (int const* f, int const* l, int const* f2, int const* l2) {
  range<fwd_it, sent<fwd_it>> const r{fwd_it{f}, {l}};
  range<bidi_it, bidi_it> const p{bidi_it{f2}, bidi_it{l2}};
  return uri::starts_with (r, p);
}
bool sw_vec (std::vector<int>& a, std::vector<int>& b) { return uri::starts_with (a, b); }
// predicate, then projections, applied to the right sequence each
bool sw_pred (int const* f, int const* l, int const* f2, int const* l2) { return uri::starts_with (f, l, f2, l2, alike{}); }
bool sw_proj1 (int const* f, int const* l, int const* f2, int const* l2) {
  return uri::starts_with (f, l, f2, l2, std::ranges::equal_to{}, unproj);
}
bool sw_proj2 (int const* f, int const* l, int const* f2, int const* l2) {
  return uri::starts_with (f, l, f2, l2, std::ranges::equal_to{}, std::identity{}, unproj);
}
bool sw_range_all (int const* f, int const* l, int const* f2, int const* l2) {
  range<fwd_it, sent<fwd_it>> const r{fwd_it{f}, {l}};
  range<bidi_it, bidi_it> const p{bidi_it{f2}, bidi_it{l2}};
  return uri::starts_with (r, p, alike{}, [] (int x) { return x + 2; }, [] (int x) { return x - 1; });
}
}  // namespace vtu
