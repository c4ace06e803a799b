From 0a2b117845c8a98803476d841998c5229be90732 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:34 +0000
Subject: [PATCH 01/12] fix: classify characters independently of the locale

The <cctype> functions consult the current C locale, so which bytes were
accepted as letters depended on setlocale(), and passing them a negative char
is undefined behaviour.
---
 include/uri/rule.hpp | 37 ++++++++++++++++++++++++++++---------
 lib/uri/uri.cpp      |  8 ++++----
 2 files changed, 32 insertions(+), 13 deletions(-)

diff --git a/include/uri/rule.hpp b/include/uri/rule.hpp
index ebd1b26..f076f62 100644
--- a/include/uri/rule.hpp
+++ b/include/uri/rule.hpp
@@ -79,7 +79,6 @@
 #ifndef URI_RULE_HPP
 #define URI_RULE_HPP
 
-#include <cctype>
 #include <functional>
 #include <limits>
 #include <optional>
@@ -91,6 +90,26 @@
 
 namespace uri {
 
+/// Character classification for the ASCII characters from which a URI is built.
+/// Unlike the functions of <cctype>, these do not depend on the current locale
+/// and are defined for every value of type char.
+namespace ascii {
+
+constexpr char to_lower (char const c) noexcept {
+  return c >= 'A' && c <= 'Z' ? static_cast<char> (c - 'A' + 'a') : c;
+}
+constexpr bool is_alpha (char const c) noexcept {
+  return to_lower (c) >= 'a' && to_lower (c) <= 'z';
+}
+constexpr bool is_digit (char const c) noexcept {
+  return c >= '0' && c <= '9';
+}
+constexpr bool is_xdigit (char const c) noexcept {
+  return is_digit (c) || (to_lower (c) >= 'a' && to_lower (c) <= 'f');
+}
+
+}  // end namespace ascii
+
 class rule {
 public:
   using acceptor_container = std::vector<
@@ -161,8 +180,8 @@ public:
   template <typename Predicate>
   [[nodiscard]] matched_result single_char (Predicate pred) const;
   [[nodiscard]] matched_result single_char (char const c) const {
-    return single_char ([c2 = std::tolower (static_cast<int> (c))] (char d) {
-      return c2 == std::tolower (static_cast<int> (d));
+    return single_char ([c2 = ascii::to_lower (c)] (char d) {
+      return c2 == ascii::to_lower (d);
     });
   }
 
@@ -326,10 +345,10 @@ inline auto single_char (char const first) {
   return [=] (rule const& r) { return r.single_char (first); };
 }
 inline auto char_range (char const first, char const last) {
-  return [f = std::tolower (static_cast<int> (first)),
-          l = std::tolower (static_cast<int> (last))] (rule const& r) {
+  return [f = ascii::to_lower (first),
+          l = ascii::to_lower (last)] (rule const& r) {
     return r.single_char ([=] (char const c) {
-      auto const cl = std::tolower (static_cast<int> (c));
+      auto const cl = ascii::to_lower (c);
       return cl >= f && cl <= l;
     });
   };
@@ -337,15 +356,15 @@ inline auto char_range (char const first, char const last) {
 
 inline auto alpha (rule const& r) {
   return r.single_char (
-    [] (char const c) { return std::isalpha (static_cast<int> (c)); });
+    [] (char const c) { return ascii::is_alpha (c); });
 }
 inline auto digit (rule const& r) {
   return r.single_char (
-    [] (char const c) { return std::isdigit (static_cast<int> (c)); });
+    [] (char const c) { return ascii::is_digit (c); });
 }
 inline auto hexdig (rule const& r) {
   return r.single_char (
-    [] (char const c) { return std::isxdigit (static_cast<int> (c)); });
+    [] (char const c) { return ascii::is_xdigit (c); });
 }
 
 }  // end namespace uri
diff --git a/lib/uri/uri.cpp b/lib/uri/uri.cpp
index b64783b..59b8c81 100644
--- a/lib/uri/uri.cpp
+++ b/lib/uri/uri.cpp
@@ -36,10 +36,10 @@ inline auto code_point_range (code_point const first, code_point const last) {
   assert (static_cast<std::underlying_type_t<code_point>> (last) <=
           static_cast<std::underlying_type_t<code_point>> (
             std::numeric_limits<char>::max ()));
-  return [f = std::tolower (static_cast<int> (first)),
-          l = std::tolower (static_cast<int> (last))] (rule const& r) {
+  return [f = ascii::to_lower (static_cast<char> (first)),
+          l = ascii::to_lower (static_cast<char> (last))] (rule const& r) {
     return r.single_char ([=] (char const c) {
-      auto const cl = std::tolower (static_cast<int> (c));
+      auto const cl = ascii::to_lower (c);
       return cl >= f && cl <= l;
     });
   };
@@ -123,7 +123,7 @@ auto sub_delims (rule const& r) {
 auto unreserved (rule const& r) {
   return r.single_char ([] (char const c) {
     auto const cp = static_cast<code_point> (c);
-    return static_cast<bool> (std::isalnum (static_cast<int> (c))) ||
+    return ascii::is_alpha (c) || ascii::is_digit (c) ||
            cp == code_point::hyphen_minus || cp == code_point::full_stop ||
            cp == code_point::low_line || cp == code_point::tilde;
   });
-- 
2.43.0


From dcebc19169ca96ba26a799cf26e3fd0b479384a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:48 +0000
Subject: [PATCH 02/12] fix: accept a reg-name that begins with an IPv4 address

alternative() commits to the first rule that matches, so the IPv4address
alternative of host consumed just the prefix of "1.2.3.4.example" or
"1.2.3.456" and the URI was then rejected.
---
 lib/uri/uri.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/lib/uri/uri.cpp b/lib/uri/uri.cpp
index 59b8c81..c18d380 100644
--- a/lib/uri/uri.cpp
+++ b/lib/uri/uri.cpp
@@ -392,8 +392,12 @@ auto ip_literal (rule const& r) {
 }
 
 // host = IP-literal / IPv4address / reg-name
+//
+// Every IPv4address is also a reg-name. It is not tried first because
+// alternative() commits to the first match: a reg-name which merely begins with
+// an IPv4address (such as "1.2.3.4.example") would then be rejected.
 auto host (rule const& r) {
-  return r.alternative (ip_literal, ipv4address, reg_name)
+  return r.alternative (ip_literal, reg_name)
     .matched ("IP-literal / IPv4address / reg-name", r);
 }
 constexpr auto hostfn = host;
-- 
2.43.0


From 4aa7b777b62eee0950f491161944d3ed734de600 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:52 +0000
Subject: [PATCH 03/12] fix: drop the last base segment when merging even if it
 is the only one

RFC 3986 section 5.2.3 excludes the characters after the right-most "/" of the
base path: with base "a:b" and reference "c" the merged path is "c" but "b/c"
was produced.
---
 lib/uri/uri.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/uri/uri.cpp b/lib/uri/uri.cpp
index c18d380..6bd0586 100644
--- a/lib/uri/uri.cpp
+++ b/lib/uri/uri.cpp
@@ -747,7 +747,7 @@ struct uri::parts::path merge (uri::parts const& base, uri::parts const& ref) {
   r2.absolute = base.path.absolute;
 
   auto last = std::end (base.path.segments);
-  if (base.path.segments.size () > 1) {
+  if (!base.path.segments.empty ()) {
     std::advance (last, -1);
   }
   auto out = std::back_inserter (r2.segments);
-- 
2.43.0


From a6d900341587c85f3bede1047a8f6b8537bd00ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:30 +0000
Subject: [PATCH 04/12] fix: remove_dot_segments must not lose a trailing empty
 segment

RFC 3986 section 5.2.4 turns "/a//." into "/a//" and "/a//b/.." into "/a//".
The final "/" left by a dot segment was dropped whenever the preceding
segment happened to be empty.
---
 lib/uri/uri.cpp | 11 +++--------
 1 file changed, 3 insertions(+), 8 deletions(-)

diff --git a/lib/uri/uri.cpp b/lib/uri/uri.cpp
index 6bd0586..cca567f 100644
--- a/lib/uri/uri.cpp
+++ b/lib/uri/uri.cpp
@@ -787,7 +787,7 @@ void parts::path::remove_dot_segments () {
         --outit;
       }
     } else {
-      last_dir = it->empty ();
+      last_dir = false;
       if (outit != it) {
         *outit = *it;
       }
@@ -796,14 +796,9 @@ void parts::path::remove_dot_segments () {
   }
   this->segments.erase (outit, end);
 
+  // A path which ended with "." or ".." names a directory: it now ends with "/".
   if (last_dir) {
-    if (segments.empty ()) {
-      this->segments.emplace_back ();
-    } else {
-      if (!this->segments.back ().empty ()) {
-        this->segments.emplace_back ();
-      }
-    }
+    this->segments.emplace_back ();
   }
 }
 
-- 
2.43.0


From 01853811319818554c0d34e2269651d058d6c55e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:35 +0000
Subject: [PATCH 05/12] fix: a path beginning with "//" is not valid without an
 authority

RFC 3986 section 3.3. Composing such parts gave text in which the start of the
path is read back as an authority.
---
 lib/uri/uri.cpp | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/lib/uri/uri.cpp b/lib/uri/uri.cpp
index cca567f..5bae013 100644
--- a/lib/uri/uri.cpp
+++ b/lib/uri/uri.cpp
@@ -862,6 +862,17 @@ bool parts::valid () const noexcept {
   if (!this->path.valid ()) {
     return false;
   }
+  if (!this->authority.has_value ()) {
+    // RFC 3986 section 3.3: If a URI does not contain an authority component,
+    // then the path cannot begin with two slash characters ("//").
+    auto const& segments = this->path.segments;
+    if (this->path.absolute
+          ? segments.size () >= 2 && segments[0].empty ()
+          : segments.size () >= 3 && segments[0].empty () &&
+              segments[1].empty ()) {
+      return false;
+    }
+  }
   if (this->query.has_value () &&
       !rule{this->query.value ()}.concat (queryfn).done ()) {
     return false;
-- 
2.43.0


From f3a6343c3025e63927b5420b2b7829057db5e530 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:28 +0000
Subject: [PATCH 06/12] fix: percent-decode through iterators which are only
 forward iterators

details::increment() and deref() required random-access iterators although
pctdecode_iterator and pctdecode_view accept forward iterators and ranges.
---
 include/uri/pctdecode.hpp | 34 ++++++++++++++++++++--------------
 1 file changed, 20 insertions(+), 14 deletions(-)

diff --git a/include/uri/pctdecode.hpp b/include/uri/pctdecode.hpp
index 7df41f5..bc194c9 100644
--- a/include/uri/pctdecode.hpp
+++ b/include/uri/pctdecode.hpp
@@ -57,28 +57,34 @@ constexpr bool either_bad (std::byte n1, std::byte n2) noexcept {
   return ((n1 | n2) & bad) != std::byte{0};
 }
 
-template <typename Iterator>
-Iterator increment (Iterator pos, Iterator end) {
-  auto remaining = std::distance (pos, end);
-  assert (remaining > 0);
+/// Are there at least three characters in the range [pos, end)?
+template <typename Iterator, typename Sentinel>
+bool at_least_three (Iterator pos, Sentinel const& end) {
+  return pos != end && ++pos != end && ++pos != end;
+}
+
+template <typename Iterator, typename Sentinel>
+Iterator increment (Iterator pos, Sentinel end) {
+  assert (pos != end);
   // Remove 1 character unless we've got a '%' followed by two legal hex
   // characters in which case we remove 3.
-  std::advance (pos,
-                remaining >= 3 && *pos == '%' &&
-                    !either_bad (hex2dec (*(pos + 1)), hex2dec (*(pos + 2)))
-                  ? 3
-                  : 1);
+  std::advance (pos, at_least_three (pos, end) && *pos == '%' &&
+                         !either_bad (hex2dec (*std::next (pos)),
+                                      hex2dec (*std::next (pos, 2)))
+                       ? 3
+                       : 1);
   return pos;
 }
 
-template <typename ReferenceType, typename Iterator, typename ValueType>
-ReferenceType deref (Iterator pos, Iterator end, ValueType* const hex) {
+template <typename ReferenceType, typename Iterator, typename Sentinel,
+          typename ValueType>
+ReferenceType deref (Iterator pos, Sentinel end, ValueType* const hex) {
   ReferenceType c = *pos;
-  if (c != '%' || std::distance (pos, end) < 3) {
+  if (c != '%' || !at_least_three (pos, end)) {
     return c;
   }
-  auto const nhi = hex2dec (*(pos + 1));
-  auto const nlo = hex2dec (*(pos + 2));
+  auto const nhi = hex2dec (*std::next (pos));
+  auto const nlo = hex2dec (*std::next (pos, 2));
   // If either character isn't valid hex, then return the original.
   if (either_bad (nhi, nlo)) {
     return c;
-- 
2.43.0


From 98577b9a63c2b7a2a51af801b04b37ff4047033d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:43 +0000
Subject: [PATCH 07/12] fix: pctdecode_view works on every forward range and
 moves the decoded character

---
 include/uri/pctdecode.hpp | 67 ++++++++++++++++++++++++++-------------
 1 file changed, 45 insertions(+), 22 deletions(-)

diff --git a/include/uri/pctdecode.hpp b/include/uri/pctdecode.hpp
index bc194c9..9a999db 100644
--- a/include/uri/pctdecode.hpp
+++ b/include/uri/pctdecode.hpp
@@ -19,9 +19,11 @@
 #include <concepts>
 #include <cstddef>
 #include <iterator>
+#include <memory>
 #include <ranges>
 #include <string>
 #include <string_view>
+#include <type_traits>
 #include <utility>
 #include <version>
 
@@ -93,6 +95,15 @@ ReferenceType deref (Iterator pos, Sentinel end, ValueType* const hex) {
   return *hex;
 }
 
+/// True if iterating over a const View is no different to iterating over a View.
+template <typename View>
+concept const_iterable =
+  std::ranges::range<View const> &&
+  std::same_as<std::ranges::iterator_t<View const>,
+               std::ranges::iterator_t<View>> &&
+  std::same_as<std::ranges::sentinel_t<View const>,
+               std::ranges::sentinel_t<View>>;
+
 }  // end namespace details
 
 template <std::input_iterator InputIterator>
@@ -121,18 +132,31 @@ public:
   }
   constexpr View base () && { return std::move (base_); }
 
-  constexpr auto begin () const {
-    return iterator{*this, std::ranges::begin (base_)};
+  constexpr auto begin () {
+    return iterator{std::ranges::begin (base_), std::ranges::end (base_)};
+  }
+  constexpr auto begin () const
+    requires details::const_iterable<View>
+  {
+    return iterator{std::ranges::begin (base_), std::ranges::end (base_)};
+  }
+  constexpr auto end () { return make_end (base_); }
+  constexpr auto end () const
+    requires details::const_iterable<View>
+  {
+    return make_end (base_);
   }
-  constexpr auto end () const {
+
+private:
+  template <typename Base>
+  static constexpr auto make_end (Base& base) {
     if constexpr (std::ranges::common_range<View>) {
-      return iterator{*this, std::ranges::end (base_)};
+      return iterator{std::ranges::end (base), std::ranges::end (base)};
     } else {
-      return sentinel{*this};
+      return sentinel{std::ranges::end (base)};
     }
   }
 
-private:
   [[no_unique_address]] View base_ = View{};
 };
 
@@ -152,9 +176,9 @@ public:
     requires std::default_initializable<std::ranges::iterator_t<View>>
   = default;
 
-  constexpr iterator (pctdecode_view const& parent,
-                      std::ranges::iterator_t<View> current)
-      : parent_{std::addressof (parent)}, pos_{std::move (current)} {}
+  constexpr iterator (std::ranges::iterator_t<View> current,
+                      std::ranges::sentinel_t<View> end)
+      : pos_{std::move (current)}, end_{std::move (end)} {}
 
   constexpr std::ranges::iterator_t<View> const& base () const& noexcept {
     return pos_;
@@ -165,16 +189,16 @@ public:
 
   constexpr std::ranges::range_reference_t<View> operator* () const {
     return details::deref<std::ranges::range_reference_t<View>> (
-      pos_, std::ranges::end (parent_->base_), &hex_);
+      pos_, end_, &hex_);
   }
-  constexpr std::ranges::iterator_t<View> operator->() const
-    requires std::copyable<std::ranges::iterator_t<View>>
+  constexpr auto operator->() const
+    requires std::is_lvalue_reference_v<std::ranges::range_reference_t<View>>
   {
-    return &(**this);
+    return std::addressof (**this);
   }
 
   constexpr iterator& operator++ () {
-    pos_ = details::increment (pos_, std::ranges::end (parent_->base_));
+    pos_ = details::increment (pos_, end_);
     return *this;
   }
 
@@ -191,8 +215,8 @@ public:
   }
 
   friend constexpr std::ranges::range_rvalue_reference_t<View> iter_move (
-    iterator const& it) noexcept (noexcept (std::ranges::iter_move (it.pos_))) {
-    return std::ranges::iter_move (it.pos_);
+    iterator const& it) {
+    return static_cast<std::ranges::range_rvalue_reference_t<View>> (*it);
   }
 
   friend constexpr void iter_swap (
@@ -205,9 +229,8 @@ public:
   }
 
 private:
-  [[no_unique_address]] pctdecode_view const* parent_ = nullptr;
-  [[no_unique_address]] std::ranges::iterator_t<View> pos_ =
-    std::ranges::iterator_t<View> ();
+  std::ranges::iterator_t<View> pos_ = std::ranges::iterator_t<View> ();
+  std::ranges::sentinel_t<View> end_ = std::ranges::sentinel_t<View> ();
   mutable std::ranges::range_value_t<View> hex_ = 0;
 };
 
@@ -216,12 +239,12 @@ template <std::ranges::input_range View>
 class pctdecode_view<View>::sentinel {
 public:
   sentinel () = default;
-  constexpr explicit sentinel (pctdecode_view& parent)
-      : end_{std::ranges::end (parent.base_)} {}
+  constexpr explicit sentinel (std::ranges::sentinel_t<View> end)
+      : end_{std::move (end)} {}
 
   constexpr std::ranges::sentinel_t<View> base () const { return end_; }
   friend constexpr bool operator== (iterator const& x, sentinel const& y) {
-    return x.current_ == y.end_;
+    return x.base () == y.end_;
   }
 
 private:
-- 
2.43.0


From f08b01a7c6fefeae8d2842f810f93e5058c63697 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:32 +0000
Subject: [PATCH 08/12] fix: keep the most significant byte of a little-endian
 UTF-32 code unit

---
 include/uri/icubaby.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/uri/icubaby.hpp b/include/uri/icubaby.hpp
index adc0bf2..5247429 100644
--- a/include/uri/icubaby.hpp
+++ b/include/uri/icubaby.hpp
@@ -1723,7 +1723,7 @@ private:
   /// \returns A native-endian 32 bit value.
   [[nodiscard]] constexpr char32_t char32_from_little_endian_buffer (input_type const value) const noexcept {
     return static_cast<char32_t> (
-        (static_cast<std::uint_least32_t> (value << 24U)) | (static_cast<std::uint_least32_t> (buffer_[2]) << 16U) |
+        (static_cast<std::uint_least32_t> (value) << 24U) | (static_cast<std::uint_least32_t> (buffer_[2]) << 16U) |
         (static_cast<std::uint_least32_t> (buffer_[1]) << 8U) | (static_cast<std::uint_least32_t> (buffer_[0])));
   }
 };
-- 
2.43.0


From 4ddf70daf3a61f4a6f998d027fc777fd98356582 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:32 +0000
Subject: [PATCH 09/12] fix: FF FE 00 xx is a UTF-16 LE byte order mark and a
 code unit

---
 include/uri/icubaby.hpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/include/uri/icubaby.hpp b/include/uri/icubaby.hpp
index 5247429..7039403 100644
--- a/include/uri/icubaby.hpp
+++ b/include/uri/icubaby.hpp
@@ -1254,6 +1254,16 @@ public:
       break;
 
     case states::utf32_le_bom_byte3:
+      if (value != std::byte{0x00}) {
+        // This isn't a UTF-32 LE BOM but a UTF-16 LE BOM followed by a code unit whose first byte is zero.
+        dest = this->run16_start (dest);
+        state_ = states::run_16le_byte1;
+        buffer_[0] = buffer_[2];
+        dest = this->run16 (value, dest);
+        break;
+      }
+      [[fallthrough]];
+
     case states::utf32_be_bom_byte3:
       assert (byte_no (state_) == 3);
       buffer_[3] = value;
-- 
2.43.0


From 43371eaaff2480ddab988b3f07d6f060ba0bac89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:32 +0000
Subject: [PATCH 10/12] fix: the byte transcoder's end_cp emits exactly the
 bytes received and reports a truncated code unit

---
 include/uri/icubaby.hpp | 42 ++++++++++++++++++++++++++++++++++++-----
 1 file changed, 37 insertions(+), 5 deletions(-)

diff --git a/include/uri/icubaby.hpp b/include/uri/icubaby.hpp
index 7039403..5bf1c67 100644
--- a/include/uri/icubaby.hpp
+++ b/include/uri/icubaby.hpp
@@ -1316,13 +1316,22 @@ public:
     if (transcoder_variant_.valueless_by_exception ()) {
       return dest;
     }
+    if (std::holds_alternative<std::monostate> (transcoder_variant_)) {
+      dest = this->end_bom (dest);
+    }
     return std::visit (
         [this, &dest] (auto& arg) {
-          if constexpr (std::is_same_v<std::decay_t<decltype (arg)>, std::monostate>) {
-            return this->run8_start (state_ != states::start, dest);
-          } else {
-            return arg.end_cp (dest);
+          using arg_type = std::decay_t<decltype (arg)>;
+          if constexpr (!std::is_same_v<arg_type, std::monostate>) {
+            dest = arg.end_cp (dest);
+            if (byte_no (state_) != 0) {
+              // The input ended in the middle of a code unit. An unpaired surrogate yields REPLACEMENT CHARACTER and
+              // records the input as malformed.
+              state_ = set_byte (state_, 0);
+              dest = arg (static_cast<typename arg_type::input_type> (last_low_surrogate), dest);
+            }
           }
+          return dest;
         },
         transcoder_variant_);
   }
@@ -1649,6 +1658,29 @@ private:
     return dest;
   }
 
+  /// Called when the input ends before its encoding has been determined.
+  ///
+  /// \tparam OutputIterator  An output iterator type to which values of type output_type can be written.
+  /// \param dest  An output iterator to which the output sequence is written.
+  /// \returns  Iterator one past the last element assigned.
+  template <ICUBABY_CONCEPT_OUTPUT_ITERATOR (ToEncoding) OutputIterator>
+  [[nodiscard]] OutputIterator end_bom (OutputIterator dest) noexcept {
+    switch (state_) {
+    case states::start: return this->run8_start (false, dest);
+    // A complete UTF-16 LE BOM.
+    case states::utf32_or_16_le_bom_byte2: return this->run16_start (dest);
+    // A complete UTF-16 LE BOM and the first byte of a code unit.
+    case states::utf32_le_bom_byte3:
+      dest = this->run16_start (dest);
+      state_ = states::run_16le_byte1;
+      return dest;
+    default:
+      // The state's byte number is that of the missing byte: emit those which precede it.
+      state_ = set_byte (state_, byte_no (state_) - 1);
+      return this->run8_start (true, dest);
+    }
+  }
+
   /// \brief Handler for the states::run_16be_byte1 and states::run_16le_byte1 states.
   ///
   /// This function is called once we have received the second byte of a UTF-16 code unit. We build the native-endian
@@ -1752,7 +1784,7 @@ constexpr bool transcoder<std::byte, ToEncoding>::partial () const noexcept {
         if constexpr (std::is_same_v<std::decay_t<decltype (arg)>, std::monostate>) {
           return this->state_ != states::start;
         } else {
-          return arg.partial ();
+          return byte_no (this->state_) != 0 || arg.partial ();
         }
       },
       transcoder_variant_);
-- 
2.43.0


From b68c89f112239145faa4b99311d9d5db715d2580 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:59 +0000
Subject: [PATCH 11/12] fix: transcode_view has room for what the byte
 transcoder emits and is empty after a lone byte order mark

---
 include/uri/icubaby.hpp | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/include/uri/icubaby.hpp b/include/uri/icubaby.hpp
index 5bf1c67..48aea1c 100644
--- a/include/uri/icubaby.hpp
+++ b/include/uri/icubaby.hpp
@@ -2110,6 +2110,16 @@ template <> inline constexpr auto max_output_bytes<char16_t, icubaby::char8> = s
 /// \brief The maximum number of bytes produced by a single code-unit being passed to a transcoder consuming UTF-32.
 template <> inline constexpr auto max_output_bytes<char16_t, char32_t> = std::size_t{2};
 
+/// \brief The maximum number of bytes produced by a single byte being passed to the byte transcoder.
+///
+/// The worst case is a sequence such as 0x00, 0x00, 0xFE, 0xC2 at the end of the input: four bytes which begin like a
+/// UTF-32 BE byte order mark but which turn out to be two NULs and two malformed UTF-8 sequences.
+template <> inline constexpr auto max_output_bytes<std::byte, icubaby::char8> = std::size_t{8};
+/// \brief The maximum number of code-units produced by a single byte being passed to the byte transcoder.
+template <> inline constexpr auto max_output_bytes<std::byte, char16_t> = std::size_t{4};
+/// \brief The maximum number of code-units produced by a single byte being passed to the byte transcoder.
+template <> inline constexpr auto max_output_bytes<std::byte, char32_t> = std::size_t{4};
+
 /// \brief The iterator type of transcode_view.
 template <unicode_input FromEncoding, unicode_char_type ToEncoding, std::ranges::input_range View>
   requires std::ranges::view<View>
@@ -2268,7 +2278,8 @@ constexpr std::ranges::iterator_t<View const> transcode_view<FromEncoding, ToEnc
   }
   first_ = std::uint_least8_t{0};
   last_ = static_cast<std::uint_least8_t> (out_it - out_begin);
-  return result;
+  // Nothing remains if the input ended without producing output (a lone byte order mark).
+  return out_it == out_begin ? next_ : result;
 }
 
 /// \brief The sentinel type of transcode_view when the underlying view is not a common_range.
-- 
2.43.0


From e3bfadee57439fb571c91c3fb733f911be51bdfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:43 +0000
Subject: [PATCH 12/12] fix: find_last.hpp includes the headers it uses

---
 include/uri/find_last.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/uri/find_last.hpp b/include/uri/find_last.hpp
index 6df5272..82d24ee 100644
--- a/include/uri/find_last.hpp
+++ b/include/uri/find_last.hpp
@@ -13,6 +13,8 @@
 #ifndef URI_FIND_LAST_HPP
 #define URI_FIND_LAST_HPP
 
+#include <algorithm>
+#include <cassert>
 #include <functional>
 #include <optional>
 #include <ranges>
-- 
2.43.0

