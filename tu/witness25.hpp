// Compile-time witnesses: every one must be accepted by the compiler.  (type-checked only; never linked or run)
#include <forward_list>
#include <iterator>
#include <list>
#include <ranges>
#include <span>
#include <string>
#include <string_view>
#include <vector>
#include "uri/pctdecode.hpp"
namespace w {
template <typename V> consteval void models_range () {
  using It = std::ranges::iterator_t<V>;
  using Se = std::ranges::sentinel_t<V>;
  static_assert (std::ranges::view<V>, "the result is a view");
  static_assert (std::ranges::forward_range<V>, "the result is a forward range");
  static_assert (std::same_as<std::ranges::range_value_t<V>, char>, "its value type is char");
  static_assert (std::forward_iterator<It>, "its iterator is a forward iterator");
  static_assert (std::sentinel_for<Se, It>, "its end is a sentinel for its iterator");
  static_assert (std::convertible_to<std::ranges::range_reference_t<V>, char>, "its elements convert to char");
  static_assert (std::indirectly_readable<It>, "its iterator can be read");
  static_assert (std::default_initializable<It>, "its iterator can be default-initialized");
  static_assert (std::copyable<It>, "its iterator can be copied");
}
template <typename R> void all (R&& r) {
  auto v = uri::views::pctdecode (std::forward<R> (r));
  models_range<decltype (v)> ();
  // every member is instantiated
  auto i = v.begin ();
  auto e = v.end ();
  char c = *i;
  ++i;
  auto o = i++;
  c = *o;
  (void)c;
  (void)(i == e);
  (void)(e == i);
  (void)(i == o);
  if constexpr (std::is_lvalue_reference_v<std::ranges::range_reference_t<R>>) {
    (void)i.operator-> ();
  }
  (void)std::ranges::iter_move (i);
  (void)i.base ();
  (void)std::move (i).base ();
  std::string s;
  for (auto&& x : v) {
    s += x;
  }
  std::ranges::copy (v, std::back_inserter (s));
  (void)std::ranges::distance (v);
  (void)v.empty ();
  (void)v.front ();
  if constexpr (std::copy_constructible<decltype (std::move (v).base ())>) {
    auto w = v;
    (void)w.base ();
  }
  (void)std::move (v).base ();
}
template <typename R> void by_pipe (R&& r) {
  auto v = std::forward<R> (r) | uri::views::pctdecode;
  models_range<decltype (v)> ();
  for (auto&& x : std::move (v) | std::views::transform ([] (char c) { return c; })) {
    (void)x;
  }
}
template <typename R> void by_const (R const& r) {
  auto const v = uri::views::pctdecode (r);
  for (auto&& x : v) {
    (void)x;
  }
  (void)(v.begin () == v.end ());
}
template <typename I> consteval void models_iterator () {
  static_assert (std::forward_iterator<I>, "pctdecode_iterator is a forward iterator");
  static_assert (std::same_as<std::iter_value_t<I>, char>, "its value type is char");
  static_assert (std::default_initializable<I> && std::copyable<I>, "it is regular");
  static_assert (std::derived_from<typename std::iterator_traits<I>::iterator_category, std::forward_iterator_tag>, "it has a forward category");
}
inline bool keep (char c) { return c != '!'; }
}  // namespace w
