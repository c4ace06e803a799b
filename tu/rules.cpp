// Instantiations of the rule combinators for analysis only (never compiled into a program or run).
#include "uri/rule.hpp"
namespace vtu {
using M = uri::rule::matched_result (*) (uri::rule const&);
using A = void (*) (std::string_view);
using P = bool (*) (char);
struct F {
  int id;
  void operator() (std::string_view) const {}
};
uri::rule make (std::string_view s) { return uri::rule{s}; }
uri::rule copy (uri::rule const& r) { return r; }
uri::rule concat (uri::rule const& r, M m, A a) { return r.concat (m, a); }
uri::rule concat_f (uri::rule const& r, M m, F a) { return r.concat (m, a); }
uri::rule concat0 (uri::rule const& r, M m) { return r.concat (m); }
uri::rule optional (uri::rule const& r, M m, A a) { return r.optional (m, a); }
uri::rule optional_f (uri::rule const& r, M m, F a) { return r.optional (m, a); }
uri::rule optional0 (uri::rule const& r, M m) { return r.optional (m); }
uri::rule star (uri::rule const& r, M m, unsigned min, unsigned max) { return r.star (m, min, max); }
uri::rule star_default (uri::rule const& r, M m) { return r.star (m); }
uri::rule alt1 (uri::rule const& r, M a) { return r.alternative (a); }
uri::rule alt2 (uri::rule const& r, M a, M b) { return r.alternative (a, b); }
uri::rule alt3 (uri::rule const& r, M a, M b, M c) { return r.alternative (a, b, c); }
uri::rule alt4 (uri::rule const& r, M a, M b, M c, M d) { return r.alternative (a, b, c, d); }
uri::rule::matched_result matched (uri::rule const& r, uri::rule const& in) { return r.matched ("x", in); }
std::optional<std::string_view> tail (uri::rule const& r) { return r.tail (); }
bool done (uri::rule const& r) { return r.done (); }
uri::rule::matched_result single (uri::rule const& r, P p) { return r.single_char (p); }
uri::rule::matched_result single_c (uri::rule const& r, char c) { return r.single_char (c); }
}  // namespace vtu
