From d696240916a4b0e240173d8936e78df2c268ee1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:43 +0000
Subject: [PATCH 01/22] fix: accept registered names that start with an IPv4
 address

host tried IPv4address before reg-name, and alternative() commits to the
first rule that matches, so "//1.2.3.4.com" or "//1.2.3.256" was rejected.
---
 lib/uri/uri.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/lib/uri/uri.cpp b/lib/uri/uri.cpp
index b64783b..78d3732 100644
--- a/lib/uri/uri.cpp
+++ b/lib/uri/uri.cpp
@@ -392,8 +392,11 @@ auto ip_literal (rule const& r) {
 }
 
 // host = IP-literal / IPv4address / reg-name
+//
+// Every IPv4address is also a reg-name. Since alternative() commits to the first
+// match, trying IPv4address first would reject names such as "1.2.3.4.example".
 auto host (rule const& r) {
-  return r.alternative (ip_literal, ipv4address, reg_name)
+  return r.alternative (ip_literal, reg_name)
     .matched ("IP-literal / IPv4address / reg-name", r);
 }
 constexpr auto hostfn = host;
-- 
2.43.0


From c49868594846c528d9756fbd171130854c95204f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:43 +0000
Subject: [PATCH 02/22] fix: merge drops the only segment of a single-segment
 base path

RFC 3986 5.2.3 excludes everything after the right-most "/" of the base
path: "http://a/b" + "c" is "http://a/c", not "http://a/b/c".
---
 lib/uri/uri.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/uri/uri.cpp b/lib/uri/uri.cpp
index 78d3732..4ee3acd 100644
--- a/lib/uri/uri.cpp
+++ b/lib/uri/uri.cpp
@@ -746,7 +746,7 @@ struct uri::parts::path merge (uri::parts const& base, uri::parts const& ref) {
   r2.absolute = base.path.absolute;
 
   auto last = std::end (base.path.segments);
-  if (base.path.segments.size () > 1) {
+  if (!base.path.segments.empty ()) {
     std::advance (last, -1);
   }
   auto out = std::back_inserter (r2.segments);
-- 
2.43.0


From ac5df5cab3868049970b68e22e6138d3f184da3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:43 +0000
Subject: [PATCH 03/22] fix: keep empty segments before a trailing dot segment

RFC 3986 5.2.4 turns "/a/b//." into "/a/b//" and "/a//b/.." into "/a//";
remove_dot_segments() dropped the empty segment.
---
 lib/uri/uri.cpp | 11 +++--------
 1 file changed, 3 insertions(+), 8 deletions(-)

diff --git a/lib/uri/uri.cpp b/lib/uri/uri.cpp
index 4ee3acd..1c25ff6 100644
--- a/lib/uri/uri.cpp
+++ b/lib/uri/uri.cpp
@@ -786,7 +786,7 @@ void parts::path::remove_dot_segments () {
         --outit;
       }
     } else {
-      last_dir = it->empty ();
+      last_dir = false;
       if (outit != it) {
         *outit = *it;
       }
@@ -796,13 +796,8 @@ void parts::path::remove_dot_segments () {
   this->segments.erase (outit, end);
 
   if (last_dir) {
-    if (segments.empty ()) {
-      this->segments.emplace_back ();
-    } else {
-      if (!this->segments.back ().empty ()) {
-        this->segments.emplace_back ();
-      }
-    }
+    // The path ended with a dot segment: what remains is a directory.
+    this->segments.emplace_back ();
   }
 }
 
-- 
2.43.0


From 6ecdbbecacec7459dc6a82c0eba8390a40333673 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:43 +0000
Subject: [PATCH 04/22] fix: parts without authority are not valid if the path
 begins with "//"

RFC 3986 3.3: without an authority the path cannot begin with "//". Such a
value composes to text that split() rejects or reads as an authority.
---
 lib/uri/uri.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lib/uri/uri.cpp b/lib/uri/uri.cpp
index 1c25ff6..17f7b44 100644
--- a/lib/uri/uri.cpp
+++ b/lib/uri/uri.cpp
@@ -861,6 +861,10 @@ bool parts::valid () const noexcept {
   if (!this->path.valid ()) {
     return false;
   }
+  if (!this->authority.has_value () &&
+      static_cast<std::string> (this->path).starts_with ("//")) {
+    return false;  // The path would be taken for an authority.
+  }
   if (this->query.has_value () &&
       !rule{this->query.value ()}.concat (queryfn).done ()) {
     return false;
-- 
2.43.0


From 894707bb8b1ecc324bf693a518b25e5457b9c5d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:43 +0000
Subject: [PATCH 05/22] fix: compose() must not return truncated text when
 memory runs out

The stream turned std::bad_alloc into badbit and the text so far was
returned as if it were complete.
---
 lib/uri/uri.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lib/uri/uri.cpp b/lib/uri/uri.cpp
index 17f7b44..989ff81 100644
--- a/lib/uri/uri.cpp
+++ b/lib/uri/uri.cpp
@@ -1019,6 +1019,7 @@ std::ostream& compose (std::ostream& os, parts const& p) {
 
 std::string compose (parts const& p) {
   std::stringstream result;
+  result.exceptions (std::ios::badbit);  // Propagate std::bad_alloc.
   result << p;
   return result.str ();
 }
-- 
2.43.0


From 07b1a832400c29573424496ed95e8f68d363136b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:43 +0000
Subject: [PATCH 06/22] fix: rule::star() must terminate when its element
 matches nothing

Repeating an element that can match the empty string looped 2^32 times.
---
 include/uri/rule.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/uri/rule.hpp b/include/uri/rule.hpp
index ebd1b26..c27746d 100644
--- a/include/uri/rule.hpp
+++ b/include/uri/rule.hpp
@@ -232,6 +232,9 @@ rule rule::star (MatchFunction const match, unsigned const min, unsigned const m
     // Remember the corresponding acceptor functions.
     auto const& a = std::get<acceptor_container> (*m);
     acc.insert (acc.end (), a.begin (), a.end ());
+    if (l == 0 && count >= min) {
+      break;  // An empty match can be repeated forever without any effect.
+    }
   }
   if (count < min) {
     return {};
-- 
2.43.0


From 9e75df4aeaf496ae7181ca949329385a03ff869e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:36 +0000
Subject: [PATCH 07/22] fix: little-endian UTF-32 units must keep their most
 significant byte

---
 include/uri/icubaby.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/uri/icubaby.hpp b/include/uri/icubaby.hpp
index adc0bf2..5247429 100644
--- a/include/uri/icubaby.hpp
+++ b/include/uri/icubaby.hpp
@@ -1723,7 +1723,7 @@ private:
   /// \returns A native-endian 32 bit value.
   [[nodiscard]] constexpr char32_t char32_from_little_endian_buffer (input_type const value) const noexcept {
     return static_cast<char32_t> (
-        (static_cast<std::uint_least32_t> (value << 24U)) | (static_cast<std::uint_least32_t> (buffer_[2]) << 16U) |
+        (static_cast<std::uint_least32_t> (value) << 24U) | (static_cast<std::uint_least32_t> (buffer_[2]) << 16U) |
         (static_cast<std::uint_least32_t> (buffer_[1]) << 8U) | (static_cast<std::uint_least32_t> (buffer_[0])));
   }
 };
-- 
2.43.0


From eb1a50f61caf6228ab394ae844af2886661ab802 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:36 +0000
Subject: [PATCH 08/22] fix: a UTF-16 LE stream may start with a unit whose low
 byte is zero

---
 include/uri/icubaby.hpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/include/uri/icubaby.hpp b/include/uri/icubaby.hpp
index 5247429..33898f7 100644
--- a/include/uri/icubaby.hpp
+++ b/include/uri/icubaby.hpp
@@ -1254,6 +1254,16 @@ public:
       break;
 
     case states::utf32_le_bom_byte3:
+      if (value != std::byte{0x00}) {
+        // This isn't a UTF-32 LE BOM but a UTF-16 LE BOM followed by a code unit whose low byte is 0.
+        dest = this->run16_start (dest);
+        state_ = states::run_16le_byte1;
+        buffer_[0] = std::byte{0x00};
+        dest = this->run16 (value, dest);
+        break;
+      }
+      [[fallthrough]];
+
     case states::utf32_be_bom_byte3:
       assert (byte_no (state_) == 3);
       buffer_[3] = value;
-- 
2.43.0


From bdf7e62365e1134e57b3c0730884f9fb1f7cafbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:36 +0000
Subject: [PATCH 09/22] fix: byte transcoder must handle input that ends within
 a BOM or code unit

---
 include/uri/icubaby.hpp | 42 ++++++++++++++++++++++++++++++++++++++---
 1 file changed, 39 insertions(+), 3 deletions(-)

diff --git a/include/uri/icubaby.hpp b/include/uri/icubaby.hpp
index 33898f7..c57c1b5 100644
--- a/include/uri/icubaby.hpp
+++ b/include/uri/icubaby.hpp
@@ -1316,12 +1316,23 @@ public:
     if (transcoder_variant_.valueless_by_exception ()) {
       return dest;
     }
+    if (std::holds_alternative<std::monostate> (transcoder_variant_)) {
+      dest = this->end_bom (dest);
+    }
     return std::visit (
         [this, &dest] (auto& arg) {
           if constexpr (std::is_same_v<std::decay_t<decltype (arg)>, std::monostate>) {
-            return this->run8_start (state_ != states::start, dest);
+            return dest;
           } else {
-            return arg.end_cp (dest);
+            dest = arg.end_cp (dest);
+            if (byte_no (state_) != 0U) {
+              // The input ended part way through a code unit. No encoding assigns a meaning to a lone low surrogate
+              // so this yields a replacement character.
+              state_ = set_byte (state_, 0);
+              using unit_type = typename std::decay_t<decltype (arg)>::input_type;
+              dest = arg (static_cast<unit_type> (first_low_surrogate), dest);
+            }
+            return dest;
           }
         },
         transcoder_variant_);
@@ -1634,6 +1645,30 @@ private:
     return dest;
   }
 
+  /// Handles the end of an input that is no longer than a byte order mark: the bytes seen so far select the encoding.
+  ///
+  /// \tparam OutputIterator  An output iterator type to which values of type output_type can be written.
+  /// \param dest  An output iterator to which the output sequence is written.
+  /// \returns  Iterator one past the last element assigned.
+  template <ICUBABY_CONCEPT_OUTPUT_ITERATOR (ToEncoding) OutputIterator>
+  [[nodiscard]] OutputIterator end_bom (OutputIterator dest) noexcept {
+    switch (state_) {
+    case states::start: return this->run8_start (false, dest);
+    case states::utf32_or_16_le_bom_byte2:
+    case states::utf32_le_bom_byte3: {
+      // A complete UTF-16 LE BOM and perhaps the first byte of a code unit.
+      auto const pending = byte_no (state_) - 2;
+      dest = this->run16_start (dest);
+      state_ = set_byte (state_, static_cast<std::uint_least8_t> (pending));
+      return dest;
+    }
+    default:
+      // The state gives the index of the byte that was expected next.
+      state_ = set_byte (state_, byte_no (state_) - 1);
+      return this->run8_start (true, dest);
+    }
+  }
+
   /// Switches to the run state in which the input has been determined to be UTF-16 encoded.
   ///
   /// \tparam OutputIterator  An output iterator type to which values of type output_type can be written.
@@ -1752,7 +1787,8 @@ constexpr bool transcoder<std::byte, ToEncoding>::partial () const noexcept {
         if constexpr (std::is_same_v<std::decay_t<decltype (arg)>, std::monostate>) {
           return this->state_ != states::start;
         } else {
-          return arg.partial ();
+          // Run-mode states with a non-zero byte number are part way through a code unit.
+          return arg.partial () || byte_no (this->state_) != 0U;
         }
       },
       transcoder_variant_);
-- 
2.43.0


From 122c3fff3c981c4b3ade25cd8ac5ddf00a1632ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:36 +0000
Subject: [PATCH 10/22] fix: transcode_view of bytes needs a larger buffer and
 may produce nothing

---
 include/uri/icubaby.hpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/include/uri/icubaby.hpp b/include/uri/icubaby.hpp
index c57c1b5..f7199a4 100644
--- a/include/uri/icubaby.hpp
+++ b/include/uri/icubaby.hpp
@@ -2114,6 +2114,12 @@ template <> inline constexpr auto max_output_bytes<char16_t, icubaby::char8> = s
 /// \brief The maximum number of bytes produced by a single code-unit being passed to a transcoder consuming UTF-32.
 template <> inline constexpr auto max_output_bytes<char16_t, char32_t> = std::size_t{2};
 
+/// \brief The maximum number of bytes produced by a single byte being passed to a "byte transcoder".
+///
+/// The worst case is {0x00, 0x00, 0xFE, 0x80}. The final byte reveals that this isn't a UTF-32 BE byte order mark. The
+/// buffered bytes then yield two NULs and two REPLACEMENT CHARs.
+template <typename ToEncoding> inline constexpr auto max_output_bytes<std::byte, ToEncoding> = std::size_t{8};
+
 /// \brief The iterator type of transcode_view.
 template <unicode_input FromEncoding, unicode_char_type ToEncoding, std::ranges::input_range View>
   requires std::ranges::view<View>
@@ -2267,6 +2273,10 @@ constexpr std::ranges::iterator_t<View const> transcode_view<FromEncoding, ToEnc
     out_it = transcoder_.end_cp (out_it);
   }
   assert (out_it >= out_begin && out_it <= out_.end () && "out_ buffer overflow!");
+  if (out_it == out_begin) {
+    // The remaining input (a byte order mark) yielded no output: there is nothing left but the end.
+    result = next_;
+  }
   if (!transcoder_.well_formed ()) {
     parent->well_formed_ = false;
   }
-- 
2.43.0


From efa4ac24b8809c9f3f17dd3592e3ab659051160f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:36 +0000
Subject: [PATCH 11/22] fix: UTF-8 transcoder must not stay rejecting after
 end_cp()

---
 include/uri/icubaby.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/uri/icubaby.hpp b/include/uri/icubaby.hpp
index f7199a4..5572e58 100644
--- a/include/uri/icubaby.hpp
+++ b/include/uri/icubaby.hpp
@@ -876,7 +876,7 @@ public:
   template <ICUBABY_CONCEPT_OUTPUT_ITERATOR (output_type) OutputIterator>
   constexpr OutputIterator end_cp (OutputIterator dest) {
     if (state_ != accept) {
-      state_ = reject;
+      state_ = accept;
       *(dest++) = replacement_char;
       well_formed_ = false;
     }
-- 
2.43.0


From 38a287d3f1b87729d88e116d2f2705b46623a268 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:26 +0000
Subject: [PATCH 12/22] fix: iter_move of a pctdecode_view iterator must give
 the decoded character

---
 include/uri/pctdecode.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/uri/pctdecode.hpp b/include/uri/pctdecode.hpp
index 7df41f5..d35795d 100644
--- a/include/uri/pctdecode.hpp
+++ b/include/uri/pctdecode.hpp
@@ -185,8 +185,8 @@ public:
   }
 
   friend constexpr std::ranges::range_rvalue_reference_t<View> iter_move (
-    iterator const& it) noexcept (noexcept (std::ranges::iter_move (it.pos_))) {
-    return std::ranges::iter_move (it.pos_);
+    iterator const& it) noexcept (noexcept (*it)) {
+    return std::move (*it);
   }
 
   friend constexpr void iter_swap (
-- 
2.43.0


From 0a8e6c386466b788095e14d49140320f7cf10690 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:54 +0000
Subject: [PATCH 13/22] fix: front() of a pctdecode_view must not return a
 dangling reference

---
 include/uri/pctdecode.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/uri/pctdecode.hpp b/include/uri/pctdecode.hpp
index d35795d..880bfd2 100644
--- a/include/uri/pctdecode.hpp
+++ b/include/uri/pctdecode.hpp
@@ -126,6 +126,12 @@ public:
     }
   }
 
+  /// Returns a value because a decoded character is held by the iterator: a
+  /// reference to it would not outlive the call.
+  constexpr std::ranges::range_value_t<View> front () const {
+    return *begin ();
+  }
+
 private:
   [[no_unique_address]] View base_ = View{};
 };
-- 
2.43.0


From 4662797a308c464d2fd2200c4b7470aed14739ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:24 +0000
Subject: [PATCH 14/22] fix: character classification must not be given
 negative values

---
 include/uri/rule.hpp | 16 ++++++++--------
 lib/uri/uri.cpp      |  4 ++--
 2 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/include/uri/rule.hpp b/include/uri/rule.hpp
index c27746d..2c29618 100644
--- a/include/uri/rule.hpp
+++ b/include/uri/rule.hpp
@@ -161,8 +161,8 @@ public:
   template <typename Predicate>
   [[nodiscard]] matched_result single_char (Predicate pred) const;
   [[nodiscard]] matched_result single_char (char const c) const {
-    return single_char ([c2 = std::tolower (static_cast<int> (c))] (char d) {
-      return c2 == std::tolower (static_cast<int> (d));
+    return single_char ([c2 = std::tolower (static_cast<unsigned char> (c))] (char d) {
+      return c2 == std::tolower (static_cast<unsigned char> (d));
     });
   }
 
@@ -329,10 +329,10 @@ inline auto single_char (char const first) {
   return [=] (rule const& r) { return r.single_char (first); };
 }
 inline auto char_range (char const first, char const last) {
-  return [f = std::tolower (static_cast<int> (first)),
-          l = std::tolower (static_cast<int> (last))] (rule const& r) {
+  return [f = std::tolower (static_cast<unsigned char> (first)),
+          l = std::tolower (static_cast<unsigned char> (last))] (rule const& r) {
     return r.single_char ([=] (char const c) {
-      auto const cl = std::tolower (static_cast<int> (c));
+      auto const cl = std::tolower (static_cast<unsigned char> (c));
       return cl >= f && cl <= l;
     });
   };
@@ -340,15 +340,15 @@ inline auto char_range (char const first, char const last) {
 
 inline auto alpha (rule const& r) {
   return r.single_char (
-    [] (char const c) { return std::isalpha (static_cast<int> (c)); });
+    [] (char const c) { return std::isalpha (static_cast<unsigned char> (c)); });
 }
 inline auto digit (rule const& r) {
   return r.single_char (
-    [] (char const c) { return std::isdigit (static_cast<int> (c)); });
+    [] (char const c) { return std::isdigit (static_cast<unsigned char> (c)); });
 }
 inline auto hexdig (rule const& r) {
   return r.single_char (
-    [] (char const c) { return std::isxdigit (static_cast<int> (c)); });
+    [] (char const c) { return std::isxdigit (static_cast<unsigned char> (c)); });
 }
 
 }  // end namespace uri
diff --git a/lib/uri/uri.cpp b/lib/uri/uri.cpp
index 989ff81..a3b0690 100644
--- a/lib/uri/uri.cpp
+++ b/lib/uri/uri.cpp
@@ -39,7 +39,7 @@ inline auto code_point_range (code_point const first, code_point const last) {
   return [f = std::tolower (static_cast<int> (first)),
           l = std::tolower (static_cast<int> (last))] (rule const& r) {
     return r.single_char ([=] (char const c) {
-      auto const cl = std::tolower (static_cast<int> (c));
+      auto const cl = std::tolower (static_cast<unsigned char> (c));
       return cl >= f && cl <= l;
     });
   };
@@ -123,7 +123,7 @@ auto sub_delims (rule const& r) {
 auto unreserved (rule const& r) {
   return r.single_char ([] (char const c) {
     auto const cp = static_cast<code_point> (c);
-    return static_cast<bool> (std::isalnum (static_cast<int> (c))) ||
+    return static_cast<bool> (std::isalnum (static_cast<unsigned char> (c))) ||
            cp == code_point::hyphen_minus || cp == code_point::full_stop ||
            cp == code_point::low_line || cp == code_point::tilde;
   });
-- 
2.43.0


From 7838143d766b33f0fabadc231dfe229e0057a630 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:32 +0000
Subject: [PATCH 15/22] fix: uri-split must report failure when reading a file
 fails

---
 tools/uri-split/uri-split.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tools/uri-split/uri-split.cpp b/tools/uri-split/uri-split.cpp
index cd9a04e..a74c4f2 100644
--- a/tools/uri-split/uri-split.cpp
+++ b/tools/uri-split/uri-split.cpp
@@ -46,7 +46,7 @@ bool read_stream (std::istream& is) {
               << "\n query: " << value_or_none (r->query)
               << "\n fragment: " << value_or_none (r->fragment) << '\n';
   }
-  return true;
+  return !is.bad ();  // Reading may have failed before the end of the stream.
 }
 
 }  // end anonymous namespace
-- 
2.43.0


From 4e1e43929f5629ce719e70d85aed800fc5555429 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:00 +0000
Subject: [PATCH 16/22] fix: find_last must step back over any bidirectional
 iterator

std::prev() uses the C++17 iterator category. A C++20 bidirectional iterator
whose reference is a prvalue (views::transform, for instance) is only an input
iterator by that measure, so std::prev() stepped forward for ever.
---
 include/uri/find_last.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/uri/find_last.hpp b/include/uri/find_last.hpp
index 6df5272..c099e02 100644
--- a/include/uri/find_last.hpp
+++ b/include/uri/find_last.hpp
@@ -54,7 +54,7 @@ constexpr std::ranges::subrange<Iterator> find_last_bidi (Iterator const first,
     auto const end = std::ranges::next (rb.base (), last);
     return {end, end};
   }
-  auto const result = std::ranges::subrange<Iterator>{std::prev (rb.base ()), last};
+  auto const result = std::ranges::subrange<Iterator>{std::ranges::prev (rb.base ()), last};
 #ifndef NDEBUG
   auto const forward_result = details::find_last_forward (first, last, value, proj);
   assert (forward_result.begin () == result.begin ());
-- 
2.43.0


From a19462243d7cfb088175316bb6d55bd825b87929 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:18 +0000
Subject: [PATCH 17/22] fix: character classification must not depend on the
 locale

The <cctype> functions follow the locale which the program has set: with an
ISO 8859 locale, split() accepted hosts and paths with unescaped bytes above
0x7E. Classify as RFC 5234 does.
---
 include/uri/rule.hpp | 43 ++++++++++++++++++++++++++++++-------------
 lib/uri/uri.cpp      |  8 ++++----
 2 files changed, 34 insertions(+), 17 deletions(-)

diff --git a/include/uri/rule.hpp b/include/uri/rule.hpp
index 2c29618..6b8ca96 100644
--- a/include/uri/rule.hpp
+++ b/include/uri/rule.hpp
@@ -79,7 +79,6 @@
 #ifndef URI_RULE_HPP
 #define URI_RULE_HPP
 
-#include <cctype>
 #include <functional>
 #include <limits>
 #include <optional>
@@ -91,6 +90,28 @@
 
 namespace uri {
 
+namespace details {
+
+// Grammars are defined in terms of US-ASCII, so characters must be classified
+// the same way whatever the locale in force (unlike the <cctype> functions).
+constexpr bool is_alpha (char const c) noexcept {
+  return (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z');
+}
+constexpr bool is_digit (char const c) noexcept {
+  return c >= '0' && c <= '9';
+}
+constexpr bool is_xdigit (char const c) noexcept {
+  return is_digit (c) || (c >= 'a' && c <= 'f') || (c >= 'A' && c <= 'F');
+}
+/// Converts a US-ASCII upper-case letter to lower-case; returns the code of any
+/// other character unchanged.
+constexpr int to_lower (char const c) noexcept {
+  return static_cast<unsigned char> (
+    c >= 'A' && c <= 'Z' ? static_cast<char> (c - 'A' + 'a') : c);
+}
+
+}  // end namespace details
+
 class rule {
 public:
   using acceptor_container = std::vector<
@@ -161,9 +182,8 @@ public:
   template <typename Predicate>
   [[nodiscard]] matched_result single_char (Predicate pred) const;
   [[nodiscard]] matched_result single_char (char const c) const {
-    return single_char ([c2 = std::tolower (static_cast<unsigned char> (c))] (char d) {
-      return c2 == std::tolower (static_cast<unsigned char> (d));
-    });
+    return single_char (
+      [c2 = details::to_lower (c)] (char d) { return c2 == details::to_lower (d); });
   }
 
 private:
@@ -329,26 +349,23 @@ inline auto single_char (char const first) {
   return [=] (rule const& r) { return r.single_char (first); };
 }
 inline auto char_range (char const first, char const last) {
-  return [f = std::tolower (static_cast<unsigned char> (first)),
-          l = std::tolower (static_cast<unsigned char> (last))] (rule const& r) {
+  return [f = details::to_lower (first),
+          l = details::to_lower (last)] (rule const& r) {
     return r.single_char ([=] (char const c) {
-      auto const cl = std::tolower (static_cast<unsigned char> (c));
+      auto const cl = details::to_lower (c);
       return cl >= f && cl <= l;
     });
   };
 }
 
 inline auto alpha (rule const& r) {
-  return r.single_char (
-    [] (char const c) { return std::isalpha (static_cast<unsigned char> (c)); });
+  return r.single_char ([] (char const c) { return details::is_alpha (c); });
 }
 inline auto digit (rule const& r) {
-  return r.single_char (
-    [] (char const c) { return std::isdigit (static_cast<unsigned char> (c)); });
+  return r.single_char ([] (char const c) { return details::is_digit (c); });
 }
 inline auto hexdig (rule const& r) {
-  return r.single_char (
-    [] (char const c) { return std::isxdigit (static_cast<unsigned char> (c)); });
+  return r.single_char ([] (char const c) { return details::is_xdigit (c); });
 }
 
 }  // end namespace uri
diff --git a/lib/uri/uri.cpp b/lib/uri/uri.cpp
index a3b0690..5286c5e 100644
--- a/lib/uri/uri.cpp
+++ b/lib/uri/uri.cpp
@@ -36,10 +36,10 @@ inline auto code_point_range (code_point const first, code_point const last) {
   assert (static_cast<std::underlying_type_t<code_point>> (last) <=
           static_cast<std::underlying_type_t<code_point>> (
             std::numeric_limits<char>::max ()));
-  return [f = std::tolower (static_cast<int> (first)),
-          l = std::tolower (static_cast<int> (last))] (rule const& r) {
+  return [f = uri::details::to_lower (static_cast<char> (first)),
+          l = uri::details::to_lower (static_cast<char> (last))] (rule const& r) {
     return r.single_char ([=] (char const c) {
-      auto const cl = std::tolower (static_cast<unsigned char> (c));
+      auto const cl = uri::details::to_lower (c);
       return cl >= f && cl <= l;
     });
   };
@@ -123,7 +123,7 @@ auto sub_delims (rule const& r) {
 auto unreserved (rule const& r) {
   return r.single_char ([] (char const c) {
     auto const cp = static_cast<code_point> (c);
-    return static_cast<bool> (std::isalnum (static_cast<unsigned char> (c))) ||
+    return uri::details::is_alpha (c) || uri::details::is_digit (c) ||
            cp == code_point::hyphen_minus || cp == code_point::full_stop ||
            cp == code_point::low_line || cp == code_point::tilde;
   });
-- 
2.43.0


From e807b241293854fb581dcec7ce5b4eeacfd764aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:28 +0000
Subject: [PATCH 18/22] fix: transcode_view iterators at different units of one
 character must differ

---
 include/uri/icubaby.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/uri/icubaby.hpp b/include/uri/icubaby.hpp
index 5572e58..07913be 100644
--- a/include/uri/icubaby.hpp
+++ b/include/uri/icubaby.hpp
@@ -2173,7 +2173,8 @@ public:
   friend constexpr bool operator== (iterator const& lhs, iterator const& rhs)
     requires std::equality_comparable<std::ranges::iterator_t<View>>
   {
-    return lhs.current_ == rhs.current_ && lhs.parent_ == rhs.parent_;
+    // A single code point may yield several code units: compare the position within its output as well.
+    return lhs.current_ == rhs.current_ && lhs.parent_ == rhs.parent_ && lhs.state_.size () == rhs.state_.size ();
   }
 
 private:
@@ -2196,6 +2197,9 @@ private:
       return first_ == last_;
     }
 
+    /// Returns the number of code units of the current code point that have yet to be produced.
+    [[nodiscard]] constexpr std::size_t size () const noexcept { return std::size_t{last_} - std::size_t{first_}; }
+
     /// Returns the first element from the range of code units forming the current code point.
     [[nodiscard]] constexpr auto& front () const noexcept {
       assert (!this->empty () && "The out_ array must not be empty when front() is called");
-- 
2.43.0


From 8bb647fa2b18906a0ce8077cf6b5059e645da14f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:05:26 +0000
Subject: [PATCH 19/22] fix: a segment beginning with '/' must not replace the
 path before it

---
 lib/uri/uri.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lib/uri/uri.cpp b/lib/uri/uri.cpp
index 5286c5e..5b015f8 100644
--- a/lib/uri/uri.cpp
+++ b/lib/uri/uri.cpp
@@ -818,7 +818,9 @@ parts::path::operator std::filesystem::path () const {
     p /= "/";
   }
   for (auto const& seg : segments) {
-    p /= seg;
+    // A segment which starts with a separator (it may have been decoded) must
+    // not replace those before it.
+    p /= std::filesystem::path{seg}.relative_path ();
   }
   return p;
 }
-- 
2.43.0


From a5644fa4e7e3a2fd02a4a094ef36ffa9f1aa2cea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:41:29 +0000
Subject: [PATCH 20/22] fix: a percent-decoding iterator over iterators that
 produce values must not dangle

pctdecode_iterator::operator* bound the value produced by such an iterator (a
transform_view's, for example) to a local reference and returned that.
---
 include/uri/pctdecode.hpp | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/include/uri/pctdecode.hpp b/include/uri/pctdecode.hpp
index 880bfd2..0fb4627 100644
--- a/include/uri/pctdecode.hpp
+++ b/include/uri/pctdecode.hpp
@@ -71,17 +71,28 @@ Iterator increment (Iterator pos, Iterator end) {
   return pos;
 }
 
+template <typename ReferenceType, typename Iterator, typename ValueType>
+ReferenceType undecoded (Iterator pos, ValueType* const value) {
+  if constexpr (std::is_reference_v<ReferenceType> &&
+                !std::is_reference_v<decltype (*pos)>) {
+    // The iterator produces a value to which we cannot return a reference.
+    *value = *pos;
+    return *value;
+  } else {
+    return *pos;
+  }
+}
+
 template <typename ReferenceType, typename Iterator, typename ValueType>
 ReferenceType deref (Iterator pos, Iterator end, ValueType* const hex) {
-  ReferenceType c = *pos;
-  if (c != '%' || std::distance (pos, end) < 3) {
-    return c;
+  if (*pos != '%' || std::distance (pos, end) < 3) {
+    return undecoded<ReferenceType> (pos, hex);
   }
   auto const nhi = hex2dec (*(pos + 1));
   auto const nlo = hex2dec (*(pos + 2));
   // If either character isn't valid hex, then return the original.
   if (either_bad (nhi, nlo)) {
-    return c;
+    return undecoded<ReferenceType> (pos, hex);
   }
   *hex = static_cast<ValueType> ((nhi << 4) | nlo);
   return *hex;
-- 
2.43.0


From 58927ac329f36dd347382b7bfeac4167f4f1b78f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:41:30 +0000
Subject: [PATCH 21/22] fix: punycode decoding must not truncate wide
 characters to digits

decode(first, last) accepts iterators over any type of character, but a
character such as U+0161 was taken for the digit with the same low byte.
---
 include/uri/punycode.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/uri/punycode.hpp b/include/uri/punycode.hpp
index 46a3705..d6cc218 100644
--- a/include/uri/punycode.hpp
+++ b/include/uri/punycode.hpp
@@ -194,7 +194,7 @@ namespace details {
 /// \returns The numeric value of a basic code point (for use in representing
 ///   integers) in the range 0 to base-1, or base if cp does not represent a
 ///   value.
-constexpr unsigned decode_digit (std::uint_least8_t cp) noexcept {
+constexpr unsigned decode_digit (char32_t cp) noexcept {
   constexpr auto alphabet_size = 26U;
   if (cp >= '0' && cp <= '9') {
     // Digits 0..9 represent values 26..35
@@ -232,7 +232,7 @@ std::variant<std::error_code, std::tuple<std::size_t, Iterator>> decode_vli (
     if (first == last) {
       return make_error_code (decode_error_code::bad_input);
     }
-    auto const digit = decode_digit (static_cast<std::uint_least8_t> (*first));
+    auto const digit = decode_digit (static_cast<char32_t> (*first));
     assert (digit <= base);
     ++first;
 
-- 
2.43.0


From 19f36852de83e184c677926d4df724c50adcf96b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:06:20 +0000
Subject: [PATCH 22/22] fix: transcode_view must not lose the end of a range
 that can be read once

The sentinel compared the position of the input, which for a single-pass range
is the end before the last code point has been produced.
---
 include/uri/icubaby.hpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/include/uri/icubaby.hpp b/include/uri/icubaby.hpp
index 07913be..a799c34 100644
--- a/include/uri/icubaby.hpp
+++ b/include/uri/icubaby.hpp
@@ -2124,6 +2124,8 @@ template <typename ToEncoding> inline constexpr auto max_output_bytes<std::byte,
 template <unicode_input FromEncoding, unicode_char_type ToEncoding, std::ranges::input_range View>
   requires std::ranges::view<View>
 class transcode_view<FromEncoding, ToEncoding, View>::iterator {
+  friend class sentinel;
+
 public:
   /// Defines this class as fulfilling the requirements of a forward iterator.
   using iterator_category = std::forward_iterator_tag;
@@ -2174,7 +2176,7 @@ public:
     requires std::equality_comparable<std::ranges::iterator_t<View>>
   {
     // A single code point may yield several code units: compare the position within its output as well.
-    return lhs.current_ == rhs.current_ && lhs.parent_ == rhs.parent_ && lhs.state_.size () == rhs.state_.size ();
+    return lhs.state_.size () == rhs.state_.size () && lhs.parent_ == rhs.parent_ && lhs.current_ == rhs.current_;
   }
 
 private:
@@ -2300,9 +2302,13 @@ public:
   /// \returns The underlying view's end sentinel
   constexpr std::ranges::sentinel_t<View> base () const { return end_; }
   /// \brief Compares and iterator and sentinal for equality.
-  friend constexpr bool operator== (iterator const& lhs, sentinel const& rhs) { return lhs.base () == rhs.end_; }
+  friend constexpr bool operator== (iterator const& lhs, sentinel const& rhs) { return rhs.is_end (lhs); }
 
 private:
+  /// \returns True if \p it has produced all of its code units and there is no more input. (If the input can be read
+  ///   just once, then its end is reached before the last of the code units has been produced.)
+  constexpr bool is_end (iterator const& it) const { return it.state_.empty () && it.base () == end_; }
+
   std::ranges::sentinel_t<View> end_{};  ///< The underlying view's end sentinel
 };
 
-- 
2.43.0

