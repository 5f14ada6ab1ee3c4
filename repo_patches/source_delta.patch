From 0d7974a015972cb0386eca66a58a9917c596a4c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:51 +0000
Subject: [PATCH 01/28] fix: cstr equality must compare the bytes after an
 embedded NUL

---
 include/utl/parser/cstr.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/utl/parser/cstr.h b/include/utl/parser/cstr.h
index 2691fb8..4b43c6b 100755
--- a/include/utl/parser/cstr.h
+++ b/include/utl/parser/cstr.h
@@ -58,7 +58,7 @@ struct cstr {
     } else if (len == 0) {
       return true;
     } else {
-      return strncmp(str, s.str, len) == 0;
+      return std::memcmp(str, s.str, len) == 0;
     }
   }
   bool operator!=(cstr const& s) const { return !operator==(s); }
-- 
2.43.0


From fb4ce40540c4dd035c11e595cbe4fea97e563804 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:51 +0000
Subject: [PATCH 02/28] fix: cstr::substr must stay inside the viewed string

---
 include/utl/parser/cstr.h | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/include/utl/parser/cstr.h b/include/utl/parser/cstr.h
index 4b43c6b..5ec2c54 100755
--- a/include/utl/parser/cstr.h
+++ b/include/utl/parser/cstr.h
@@ -83,10 +83,13 @@ struct cstr {
   }
   cstr substr(size_t begin, size_t end) const {
     auto const adjusted_begin = std::min(begin, len);
-    auto const adjusted_end = std::min(end, len);
+    auto const adjusted_end = std::max(adjusted_begin, std::min(end, len));
     return {str + adjusted_begin, adjusted_end - adjusted_begin};
   }
-  cstr substr(size_t begin) const { return {str + begin, len - begin}; }
+  cstr substr(size_t begin) const {
+    auto const adjusted_begin = std::min(begin, len);
+    return {str + adjusted_begin, len - adjusted_begin};
+  }
   cstr substr(field const& f) const {
     return (f.size == field::MAX_SIZE) ? substr(f.from)
                                        : substr(f.from, size(f.size));
-- 
2.43.0


From 69aef4801cd2fecf56c8bed9770c32c073035c6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:51 +0000
Subject: [PATCH 03/28] fix: skip_lines must skip the whole CRLF, not only the
 CR

---
 include/utl/parser/cstr.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/utl/parser/cstr.h b/include/utl/parser/cstr.h
index 5ec2c54..9083a20 100755
--- a/include/utl/parser/cstr.h
+++ b/include/utl/parser/cstr.h
@@ -274,8 +274,8 @@ void for_each_line_numbered(cstr s, Function&& f) {
 template <typename Predicate>
 cstr skip_lines(cstr file_content, Predicate skip) {
   while (file_content.len > 0) {
-    cstr line = get_line(file_content);
-    if (!skip(line)) {
+    cstr line = get_until(file_content, '\n');
+    if (!skip(strip_cr(line))) {
       break;
     }
     file_content += line.len;
-- 
2.43.0


From a55d69ae35168e846d1013319c73de981302e6c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:51 +0000
Subject: [PATCH 04/28] fix: csv columns with an unterminated quote must not
 get a wrong or negative length

---
 include/utl/parser/csv.h | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/include/utl/parser/csv.h b/include/utl/parser/csv.h
index 9968734..133bbe6 100644
--- a/include/utl/parser/csv.h
+++ b/include/utl/parser/csv.h
@@ -27,7 +27,7 @@ inline void parse_column(cstr& s, T& arg) {
   }
 
   auto begin = s;
-  int adjust_for_cr = 0;
+  auto column_end = s.str + s.len;
   while (s) {
     char c = *s.str;
 
@@ -37,11 +37,11 @@ inline void parse_column(cstr& s, T& arg) {
       continue;
     }
 
-    if (c == end || c == '\r' || c == '\n' || s.len == 0) {
-      if ((end == '"' && s.len != 0) || (c == '\r' && s.len != 0)) {
+    if (c == end || c == '\r' || c == '\n') {
+      column_end = s.str;
+      if (end == '"' || c == '\r') {
         ++s;
       }
-      adjust_for_cr = (c == '\r') ? -1 : 0;
       break;
     }
 
@@ -50,9 +50,7 @@ inline void parse_column(cstr& s, T& arg) {
     }
   }
 
-  int adjust_for_quote = (end == '"') ? -1 : 0;
-  arg.assign(begin.str, static_cast<size_t>((s.str - begin.str) +
-                                            adjust_for_quote + adjust_for_cr));
+  arg.assign(begin.str, static_cast<size_t>(column_end - begin.str));
 }
 
 template <typename StringType>
-- 
2.43.0


From 29e5f17268bac87c367497f52f64c5ad70669f9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:51 +0000
Subject: [PATCH 05/28] fix: parsing "false" must yield false even if the
 default is true

---
 include/utl/parser/arg_parser.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/utl/parser/arg_parser.h b/include/utl/parser/arg_parser.h
index d50755a..8e7fada 100644
--- a/include/utl/parser/arg_parser.h
+++ b/include/utl/parser/arg_parser.h
@@ -116,6 +116,7 @@ inline bool parse_arg(cstr& s, bool& b, bool const default_value = false) {
     for (int i = 0; i < 4 && s; ++i, ++s);
     return ret;
   } else if (c == 'f') {
+    b = false;
     auto const ret = s.len == 5 &&  //
                      std::tolower(s[1]) == 'a' &&  //
                      std::tolower(s[2]) == 'l' &&  //
-- 
2.43.0


From e5cea4b29ff0a66cbb2aaee4443ec24f674291fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:51 +0000
Subject: [PATCH 06/28] fix: floating point integer parts beyond int must not
 overflow, text without digits is no number

---
 include/utl/parser/arg_parser.h | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/include/utl/parser/arg_parser.h b/include/utl/parser/arg_parser.h
index 8e7fada..cd47523 100644
--- a/include/utl/parser/arg_parser.h
+++ b/include/utl/parser/arg_parser.h
@@ -62,12 +62,21 @@ inline bool parse_fp(cstr& s, T& v) {
     ++s;
   }
 
-  int pre_point;
-  parse_arg(s, pre_point);
+  if (s && *s.str == '+') {
+    ++s;
+  }
+
+  auto has_digits = false;
+  auto pre_point = 0.0;
+  while (s && *s.str >= '0' && *s.str <= '9') {
+    pre_point = pre_point * 10.0 + (*s.str - '0');
+    has_digits = true;
+    ++s;
+  }
   v = static_cast<T>(pre_point);
   if (s.len == 0) {
     v *= sign;
-    return true;
+    return has_digits;
   }
 
   if (*s.str != '.') {
@@ -84,6 +93,7 @@ inline bool parse_fp(cstr& s, T& v) {
       is_good = false;
       break;
     }
+    has_digits = true;
     v += multiplier * (c - '0');
     multiplier *= static_cast<T>(0.1);
     if (s) {
@@ -92,7 +102,7 @@ inline bool parse_fp(cstr& s, T& v) {
   }
   v *= sign;
 
-  return is_good;
+  return is_good && has_digits;
 }
 
 inline bool parse_arg(cstr& s, float& arg) { return parse_fp(s, arg); }
-- 
2.43.0


From 0ce6d9915d359ea4c7b2c7a89b8f1fe8006d6c25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:51 +0000
Subject: [PATCH 07/28] fix: parsing a path must not read beyond the view

---
 include/utl/parser/arg_parser.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/utl/parser/arg_parser.h b/include/utl/parser/arg_parser.h
index cd47523..60871bb 100644
--- a/include/utl/parser/arg_parser.h
+++ b/include/utl/parser/arg_parser.h
@@ -146,7 +146,9 @@ inline void parse_arg(cstr& s, cista::raw::generic_string& arg) {
   arg.set_non_owning(s.str, static_cast<unsigned>(s.len));
 }
 
-inline void parse_arg(cstr& s, std::filesystem::path& arg) { arg = s.str; }
+inline void parse_arg(cstr& s, std::filesystem::path& arg) {
+  arg = s.view();
+}
 
 template <typename T>
 inline T parse(cstr s) {
-- 
2.43.0


From add3aaeec41d36896fd7a00114792721374cbfd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:05 +0000
Subject: [PATCH 08/28] fix: line_iterator + n must return the advanced
 iterator and leave the operand alone

---
 include/utl/parser/cstr.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/utl/parser/cstr.h b/include/utl/parser/cstr.h
index 9083a20..38add8d 100755
--- a/include/utl/parser/cstr.h
+++ b/include/utl/parser/cstr.h
@@ -229,9 +229,9 @@ struct line_iterator {
     ++*this;
     return curr;
   }
-  line_iterator operator+(difference_type const n) {
+  line_iterator operator+(difference_type const n) const {
     line_iterator curr = *this;
-    *this += n;
+    curr += n;
     return curr;
   }
 
-- 
2.43.0


From 39968f1aef963cd649293052f5c7a17436818647 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:15 +0000
Subject: [PATCH 09/28] fix: is_uniform must not modify the elements nor read
 an empty range

---
 include/utl/is_uniform.h | 31 +++++++++++++++++++++----------
 1 file changed, 21 insertions(+), 10 deletions(-)

diff --git a/include/utl/is_uniform.h b/include/utl/is_uniform.h
index a4e58be..5cc48d8 100644
--- a/include/utl/is_uniform.h
+++ b/include/utl/is_uniform.h
@@ -2,29 +2,40 @@
 
 #include <concepts>
 #include <iterator>
+#include <type_traits>
+#include <utility>
 
 namespace utl {
 
 template <typename It1, typename It2, typename Predicate>
 bool is_uniform(It1&& it1, It2&& it2, Predicate&& fn) {
-  auto& pred = *it1;
-  for (auto it = ++it1; it != it2; ++it) {
-    if (fn(*it) != fn(pred)) {
+  auto pred = it1;
+  if (pred == it2) {
+    return true;
+  }
+  auto it = pred;
+  for (++it; it != it2; ++it) {
+    if (fn(*it) != fn(*pred)) {
       return false;
     }
-    pred = *it;
+    pred = it;
   }
   return true;
 }
 
 template <typename It1, typename It2>
+  requires std::input_or_output_iterator<std::decay_t<It1>>
 bool is_uniform(It1&& it1, It2&& it2) {
-  auto& pred = *it1;
-  for (auto it = ++it1; it != it2; ++it) {
-    if (*it != pred) {
+  auto pred = it1;
+  if (pred == it2) {
+    return true;
+  }
+  auto it = pred;
+  for (++it; it != it2; ++it) {
+    if (*it != *pred) {
       return false;
     }
-    pred = *it;
+    pred = it;
   }
   return true;
 }
@@ -37,8 +48,8 @@ bool is_uniform(Collection&& c) {
 }
 
 template <typename Collection, typename Predicate>
-std::enable_if_t<std::is_function_v<Predicate>, bool> is_uniform(
-    Collection&& c, Predicate&& fn) {
+  requires(!std::input_or_output_iterator<std::decay_t<Collection>>)
+bool is_uniform(Collection&& c, Predicate&& fn) {
   using std::begin;
   using std::end;
   return is_uniform(begin(c), end(c), std::forward<Predicate&&>(fn));
-- 
2.43.0


From 75a66ede343a9f2207a281a644e5dea91a4a403f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:15 +0000
Subject: [PATCH 10/28] fix: enumerate's end must know its index,
 post-increment must compile

---
 include/utl/enumerate.h | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/include/utl/enumerate.h b/include/utl/enumerate.h
index c87b7cc..f98297c 100644
--- a/include/utl/enumerate.h
+++ b/include/utl/enumerate.h
@@ -37,13 +37,13 @@ struct iterator {
     --iter_;
   }
 
-  iterator operator++(int) const {
+  iterator operator++(int) {
     auto tmp = *this;
     ++(*this);
     return tmp;
   }
 
-  iterator operator--(int) const
+  iterator operator--(int)
     requires(std::bidirectional_iterator<It>)
   {
     auto tmp = *this;
@@ -92,7 +92,14 @@ constexpr auto enumerate(T&& iterable) {
 
     auto end() {
       using std::end;
-      return iterator<TIter>{0U, end(iterable_)};
+      if constexpr (std::random_access_iterator<TIter>) {
+        using std::begin;
+        return iterator<TIter>{
+            static_cast<std::size_t>(end(iterable_) - begin(iterable_)),
+            end(iterable_)};
+      } else {
+        return iterator<TIter>{0U, end(iterable_)};
+      }
     }
 
     T iterable_;
-- 
2.43.0


From 50f1a6b73c8bf703c88b46368c90fe0cb6bc8337 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:15 +0000
Subject: [PATCH 11/28] fix: sort_by must accept const sequences

---
 include/utl/sort_by.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/utl/sort_by.h b/include/utl/sort_by.h
index 9aa3767..15a770b 100644
--- a/include/utl/sort_by.h
+++ b/include/utl/sort_by.h
@@ -29,7 +29,7 @@ std::tuple<std::decay_t<SortBy>, std::decay_t<Ts>...> sort_by(SortBy&& order,
             [&](auto&& a, auto&& b) { return order[a] < order[b]; });
   std::tuple<std::decay_t<SortBy>, std::decay_t<Ts>...> ret{order, ts...};
   std::apply(
-      [&](SortBy& first, Ts&... rest) {
+      [&](std::decay_t<SortBy>& first, std::decay_t<Ts>&... rest) {
         apply_permutation(permutation, order, first);
         (apply_permutation(permutation, ts, rest), ...);
       },
-- 
2.43.0


From 738f1b18338c1cca61f59bf445d4ea7956a39eb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:39 +0000
Subject: [PATCH 12/28] fix: iterator facade for sentinels and iterators
 without random access

---
 include/utl/iterator_facade.h | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/include/utl/iterator_facade.h b/include/utl/iterator_facade.h
index 201e355..502228e 100644
--- a/include/utl/iterator_facade.h
+++ b/include/utl/iterator_facade.h
@@ -104,14 +104,14 @@ iter_has_advance_method<T>;
 
 template <typename T>
 concept iter_is_bidirectional =
-iter_is_random_access<T> ||
+iter_has_advance_method<T> ||
 iter_has_decrement_method<T>;
 
 template <typename T>
 concept iter_is_single_pass = bool(T::single_pass_iterator);
 
 template <typename T, typename Iter>
-concept iter_sentinel = std::is_same_v<T, typename T::sentinel_type>;
+concept iter_sentinel = std::is_same_v<T, typename Iter::sentinel_type>;
 
 // clang-format on
 
@@ -274,12 +274,12 @@ public:
       // If there is an increment(), assume it is the most efficient way to
       // advance, even if we have an advance()
       _self().increment();
-    } else if constexpr (detail::iter_is_random_access<self_type>) {
+    } else if constexpr (detail::iter_has_advance_method<self_type>) {
       // Just offset by one
-      _self() += 1;
+      _self().advance(1);
     } else {
       // Bad!
-      static_assert(detail::iter_is_random_access<self_type>,
+      static_assert(detail::iter_has_advance_method<self_type>,
                     "Iterator subclass must provide an `increment` or "
                     "`advance(n)` method");
     }
@@ -304,7 +304,7 @@ public:
     if constexpr (detail::iter_has_decrement_method<self_type>) {
       _self().decrement();
     } else {
-      _self() -= 1;
+      _self().advance(-1);
     }
     return _self();
   }
@@ -481,8 +481,8 @@ public:
   // clang-format off
   constexpr auto distance_to(const self_type& other) const noexcept
   requires std::is_base_of_v<
-      typename std::iterator_traits<InnerIterator>::iterator_category,
-      std::random_access_iterator_tag> {
+      std::random_access_iterator_tag,
+      typename std::iterator_traits<InnerIterator>::iterator_category> {
     return other.wrapped_iterator - wrapped_iterator;
   }
   // clang-format on
-- 
2.43.0


From 33cbfb9b311e59ba60c88129994b3aa0656b82bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:49 +0000
Subject: [PATCH 13/28] fix: make_range must not return a dangling reference
 for containers

---
 include/utl/pipes/make_range.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/utl/pipes/make_range.h b/include/utl/pipes/make_range.h
index 02aa10e..434f5e3 100644
--- a/include/utl/pipes/make_range.h
+++ b/include/utl/pipes/make_range.h
@@ -10,10 +10,10 @@
 namespace utl {
 
 template <typename T>
-auto&& make_range(T&& t) {
+decltype(auto) make_range(T&& t) {
   using Type = std::remove_const_t<std::remove_reference_t<T>>;
   if constexpr (is_range<Type>::value) {
-    return t;
+    return (t);
   } else if constexpr (std::is_pointer_v<Type>) {
     return all(*t);
   } else {
-- 
2.43.0


From b1256da2a43e06b060b99e4f78b3640fd02a6de4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:49 +0000
Subject: [PATCH 14/28] fix: take_while must respect the end of its source

---
 include/utl/pipes/take_while.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/utl/pipes/take_while.h b/include/utl/pipes/take_while.h
index ca02a27..6a7bffb 100644
--- a/include/utl/pipes/take_while.h
+++ b/include/utl/pipes/take_while.h
@@ -18,7 +18,7 @@ struct take_while_range : public clear_t<Range> {
 
   template <typename It>
   bool valid(It& it) {
-    return take_while_.fn_(this->read(it));
+    return parent_t::valid(it) && take_while_.fn_(this->read(it));
   }
 
   TakeWhile take_while_;
-- 
2.43.0


From 29bcb53baa613d38a9a12d85d2576e6807bd453a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:49 +0000
Subject: [PATCH 15/28] fix: unique, take_while and iterable must not gut an
 lvalue range

---
 include/utl/pipes/iterable.h   | 2 +-
 include/utl/pipes/take_while.h | 2 +-
 include/utl/pipes/unique.h     | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/utl/pipes/iterable.h b/include/utl/pipes/iterable.h
index 8baeabf..b52be78 100644
--- a/include/utl/pipes/iterable.h
+++ b/include/utl/pipes/iterable.h
@@ -30,7 +30,7 @@ template <typename Range>
 struct iterable_range : public clear_t<Range> {
   using parent_t = clear_t<Range>;
   iterable_range() = default;
-  explicit iterable_range(Range&& r) : parent_t(std::forward<parent_t>(r)) {}
+  explicit iterable_range(Range&& r) : parent_t(std::forward<Range>(r)) {}
   auto begin() { return it{*this, parent_t::begin()}; }
   auto end() { return end_it{}; }
   friend auto begin(iterable_range const& r) { return r.begin(); }
diff --git a/include/utl/pipes/take_while.h b/include/utl/pipes/take_while.h
index 6a7bffb..bfe0090 100644
--- a/include/utl/pipes/take_while.h
+++ b/include/utl/pipes/take_while.h
@@ -13,7 +13,7 @@ struct take_while_range : public clear_t<Range> {
 
   template <typename R>
   take_while_range(R&& r, TakeWhile&& take_while)
-      : parent_t(std::forward<parent_t>(r)),
+      : parent_t(std::forward<R>(r)),
         take_while_(std::forward<TakeWhile>(take_while)) {}
 
   template <typename It>
diff --git a/include/utl/pipes/unique.h b/include/utl/pipes/unique.h
index 9a11954..487e67f 100755
--- a/include/utl/pipes/unique.h
+++ b/include/utl/pipes/unique.h
@@ -11,7 +11,7 @@ template <typename Range>
 struct unique_range : public clear_t<Range> {
   using parent_t = clear_t<Range>;
 
-  unique_range(Range&& r) : parent_t(std::forward<parent_t>(r)) {}
+  unique_range(Range&& r) : parent_t(std::forward<Range>(r)) {}
 
   template <typename It>
   void find(It& it) {
-- 
2.43.0


From 84b8993c6ae3e9cf35c9f77c5e40afdfca7d6cf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:49 +0000
Subject: [PATCH 16/28] fix: sum and avg of negative and fractional numbers

---
 include/utl/pipes/avg.h |  5 +++--
 include/utl/pipes/sum.h | 25 ++++++++++++++++++-------
 2 files changed, 21 insertions(+), 9 deletions(-)

diff --git a/include/utl/pipes/avg.h b/include/utl/pipes/avg.h
index 5d81b36..c371a18 100644
--- a/include/utl/pipes/avg.h
+++ b/include/utl/pipes/avg.h
@@ -3,15 +3,16 @@
 #include <utility>
 
 #include "utl/pipes/make_range.h"
+#include "utl/pipes/sum.h"
 
 namespace utl {
 
 struct avg_t {
   template <typename T>
   friend double operator|(T&& r, avg_t) {
-    auto sum = std::size_t{0};
-    auto count = std::size_t{0};
     auto it = r.begin();
+    auto sum = zero_sum<clear_t<decltype(r.read(it))>>();
+    auto count = std::size_t{0};
     while (r.valid(it)) {
       sum += r.read(it);
       ++count;
diff --git a/include/utl/pipes/sum.h b/include/utl/pipes/sum.h
index 7d23970..ab75d88 100644
--- a/include/utl/pipes/sum.h
+++ b/include/utl/pipes/sum.h
@@ -1,26 +1,37 @@
 #pragma once
 
+#include <cstddef>
+#include <type_traits>
 #include <utility>
 
+#include "utl/clear_t.h"
 #include "utl/pipes/make_range.h"
 
 namespace utl {
 
-struct sum {
-  sum() {}
+template <typename T>
+auto zero_sum() {
+  if constexpr (std::is_floating_point_v<T>) {
+    return decltype(T{} + double{}){0};
+  } else if constexpr (std::is_signed_v<T>) {
+    return std::ptrdiff_t{0};
+  } else {
+    return std::size_t{0};
+  }
+}
 
+struct sum {
   template <typename T>
-  friend auto operator|(T&& t, sum&& f) {
+  friend auto operator|(T&& t, sum&&) {
     auto r = make_range(std::forward<T>(t));
     auto it = r.begin();
+    auto acc = zero_sum<clear_t<decltype(r.read(it))>>();
     while (r.valid(it)) {
-      f.acc_ += r.read(it);
+      acc += r.read(it);
       r.next(it);
     }
-    return f.acc_;
+    return acc;
   }
-
-  std::size_t acc_ = 0;
 };
 
 }  // namespace utl
\ No newline at end of file
-- 
2.43.0


From 17f0bbcfe5360252f37a46444b986ad03bae4fb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:49 +0000
Subject: [PATCH 17/28] fix: max must return the maximum, not its conversion to
 double

---
 include/utl/pipes/max.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/utl/pipes/max.h b/include/utl/pipes/max.h
index 823e281..2f3709f 100644
--- a/include/utl/pipes/max.h
+++ b/include/utl/pipes/max.h
@@ -9,7 +9,7 @@ namespace utl {
 template <typename MaxType>
 struct max {
   template <typename T>
-  friend double operator|(T&& t, max&& f) {
+  friend MaxType operator|(T&& t, max&& f) {
     auto r = make_range(std::forward<T>(t));
     auto it = r.begin();
 
-- 
2.43.0


From 07f49b2ef322acd0d668fac0642e9316c8e6cf70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:13 +0000
Subject: [PATCH 18/28] fix: parallel_for errors must carry the index of the
 failing job

---
 include/utl/parallel_for.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/utl/parallel_for.h b/include/utl/parallel_for.h
index 5d75804..7eee386 100644
--- a/include/utl/parallel_for.h
+++ b/include/utl/parallel_for.h
@@ -47,7 +47,7 @@ inline errors_t parallel_for_run_threadlocal(
           progress_update(idx);
         } catch (...) {
           std::lock_guard<std::mutex> lock{errors_mutex};
-          errors.emplace_back(std::pair{i, std::current_exception()});
+          errors.emplace_back(std::pair{idx, std::current_exception()});
           if (err_strat == parallel_error_strategy::QUIT_EXEC) {
             quit = true;
             break;
@@ -90,7 +90,7 @@ inline errors_t parallel_for_run(
           progress_update(idx);
         } catch (...) {
           std::lock_guard<std::mutex> lock{errors_mutex};
-          errors.emplace_back(std::pair{i, std::current_exception()});
+          errors.emplace_back(std::pair{idx, std::current_exception()});
           if (err_strat == parallel_error_strategy::QUIT_EXEC) {
             quit = true;
             break;
-- 
2.43.0


From efb5c9891c24619a7d9105e73def4b025be59bf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:13 +0000
Subject: [PATCH 19/28] fix: progress must not become NaN if the input range is
 empty

---
 src/progress_tracker.cc | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/progress_tracker.cc b/src/progress_tracker.cc
index 33b2c59..d644122 100644
--- a/src/progress_tracker.cc
+++ b/src/progress_tracker.cc
@@ -120,8 +120,10 @@ void progress_tracker::increment(size_t const inc) {
 
 void progress_tracker::update_out() {
   auto const out_range = (out_high_ - out_low_);
-  auto const in_ratio = static_cast<float>(static_cast<double>(in_) /
-                                           static_cast<double>(in_high_));
+  auto const in_ratio =
+      in_high_ == 0ULL ? 1.F
+                       : static_cast<float>(static_cast<double>(in_) /
+                                            static_cast<double>(in_high_));
 
   auto const new_out = std::clamp(
       out_low_ + std::round(out_range * in_ratio / out_mod_) * out_mod_,
-- 
2.43.0


From 1c0b5a673af553151cecde816c7fecb6c6b6b5e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:13 +0000
Subject: [PATCH 20/28] fix: buffer leaked on move assignment and freed twice
 after resize(0)

---
 include/utl/parser/buffer.h | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/include/utl/parser/buffer.h b/include/utl/parser/buffer.h
index 7d1ba8a..cdfc802 100644
--- a/include/utl/parser/buffer.h
+++ b/include/utl/parser/buffer.h
@@ -37,10 +37,13 @@ struct buffer final {
   }
 
   buffer& operator=(buffer&& o) noexcept {
-    buf_ = o.buf_;
-    size_ = o.size_;
-    o.buf_ = nullptr;
-    o.size_ = 0;
+    if (this != &o) {
+      std::free(buf_);
+      buf_ = o.buf_;
+      size_ = o.size_;
+      o.buf_ = nullptr;
+      o.size_ = 0;
+    }
     return *this;
   }
 
@@ -55,7 +58,11 @@ struct buffer final {
   inline unsigned char* end() { return data() + size_; }
 
   inline void resize(std::size_t new_size) {
-    if (void* tmp = std::realloc(buf_, new_size)) {
+    if (new_size == 0) {
+      std::free(buf_);
+      buf_ = nullptr;
+      size_ = 0;
+    } else if (void* tmp = std::realloc(buf_, new_size)) {
       buf_ = tmp;
       size_ = new_size;
     } else {
-- 
2.43.0


From d8bdf9c34fd9a54790c3b2ee24ea96533feaf907 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:13 +0000
Subject: [PATCH 21/28] fix: file must not be copied (double fclose) and must
 report ftell errors

---
 include/utl/parser/file.h | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/include/utl/parser/file.h b/include/utl/parser/file.h
index 9be1e1a..c14e8ab 100644
--- a/include/utl/parser/file.h
+++ b/include/utl/parser/file.h
@@ -135,6 +135,7 @@ struct file {
 };
 #else
 #include <cstdio>
+#include <utility>
 
 #include "utl/parser/buffer.h"
 #include "utl/verify.h"
@@ -147,6 +148,18 @@ struct file {
     verify(f_ != nullptr, "unable to open file {} (mode={})", path, mode);
   }
 
+  file(file const&) = delete;
+  file& operator=(file const&) = delete;
+
+  file(file&& o) noexcept
+      : f_{std::exchange(o.f_, nullptr)}, filename_{std::move(o.filename_)} {}
+
+  file& operator=(file&& o) noexcept {
+    std::swap(f_, o.f_);
+    std::swap(filename_, o.filename_);
+    return *this;
+  }
+
   ~file() {
     if (f_ != nullptr) {
       fclose(f_);
@@ -158,6 +171,7 @@ struct file {
     auto err = std::fseek(f_, 0, SEEK_END);
     verify(!err, "fseek to SEEK_END error: {}", filename_);
     auto size = std::ftell(f_);
+    verify(size >= 0, "ftell error: {}", filename_);
     std::rewind(f_);
     return static_cast<size_t>(size);
   }
-- 
2.43.0


From 6f5afeba725dda651de45d63b6fac40e0c2d5642 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:13 +0000
Subject: [PATCH 22/28] fix: mmap_reader leaked descriptor and mapping on move
 assignment

---
 include/utl/parser/mmap_reader_unix.h | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/include/utl/parser/mmap_reader_unix.h b/include/utl/parser/mmap_reader_unix.h
index abf6dd4..6e67a84 100644
--- a/include/utl/parser/mmap_reader_unix.h
+++ b/include/utl/parser/mmap_reader_unix.h
@@ -30,10 +30,8 @@ struct mmap_reader {
     }
 
     file& operator=(file&& o) noexcept {
-      fd_ = o.fd_;
-      size_ = o.size_;
-      o.fd_ = -1;
-      o.size_ = 0;
+      std::swap(fd_, o.fd_);
+      std::swap(size_, o.size_);
       return *this;
     }
 
@@ -76,9 +74,8 @@ struct mmap_reader {
     }
 
     memory_map& operator=(memory_map&& o) noexcept {
-      f_ = std::move(o.f_);
-      fmap_ = o.fmap_;
-      o.fmap_ = nullptr;
+      std::swap(f_, o.f_);
+      std::swap(fmap_, o.fmap_);
       return *this;
     }
 
-- 
2.43.0


From 021cb10895744743e06789c4e2be0b3e49ff0178 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:13 +0000
Subject: [PATCH 23/28] fix: mmap_reader must accept empty files and report
 fstat errors

---
 include/utl/parser/mmap_reader_unix.h | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/include/utl/parser/mmap_reader_unix.h b/include/utl/parser/mmap_reader_unix.h
index 6e67a84..d316de8 100644
--- a/include/utl/parser/mmap_reader_unix.h
+++ b/include/utl/parser/mmap_reader_unix.h
@@ -49,7 +49,10 @@ struct mmap_reader {
         return 0;
       } else {
         struct stat sb {};
-        fstat(fd, &sb);
+        if (fstat(fd, &sb) != 0) {
+          close(fd);
+          throw std::runtime_error("cannot stat file");
+        }
         return static_cast<size_t>(sb.st_size);
       }
     }
@@ -61,8 +64,10 @@ struct mmap_reader {
   struct memory_map {
     explicit memory_map(char const* path)
         : f_{path},
-          fmap_{static_cast<char*>(
-              mmap(nullptr, f_.size_, PROT_READ, MAP_PRIVATE, f_.fd_, 0))} {
+          fmap_{f_.size_ == 0 ? nullptr
+                              : static_cast<char*>(mmap(nullptr, f_.size_,
+                                                        PROT_READ, MAP_PRIVATE,
+                                                        f_.fd_, 0))} {
       if (fmap_ == MAP_FAILED) {  // NOLINT
         throw std::runtime_error("cannot memory map file");
       }
@@ -132,7 +137,9 @@ struct mmap_reader {
   }
 
   float progress() const {
-    return (it_ - m_.ptr()) / static_cast<float>(m_.size());
+    return m_.size() == 0
+               ? 1.F
+               : (it_ - m_.ptr()) / static_cast<float>(m_.size());
   }
 
   memory_map m_;
-- 
2.43.0


From ca0573b56e085204430077165a8eb0d56bc4e0d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:13 +0000
Subject: [PATCH 24/28] fix: generator must not be copied (double destroy)

---
 include/utl/generator.h | 21 ++++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/include/utl/generator.h b/include/utl/generator.h
index 4f2b3c8..f28da50 100644
--- a/include/utl/generator.h
+++ b/include/utl/generator.h
@@ -1,5 +1,7 @@
 #include <coroutine>
 #include <exception>
+#include <utility>
+#include <vector>
 
 namespace utl {
 
@@ -27,7 +29,24 @@ struct generator {
 
   generator(handle_type h) : h_(h) {}
 
-  ~generator() { h_.destroy(); }
+  generator(generator const&) = delete;
+  generator& operator=(generator const&) = delete;
+
+  generator(generator&& o) noexcept
+      : h_{std::exchange(o.h_, nullptr)}, full_{std::exchange(o.full_, false)} {
+  }
+
+  generator& operator=(generator&& o) noexcept {
+    std::swap(h_, o.h_);
+    std::swap(full_, o.full_);
+    return *this;
+  }
+
+  ~generator() {
+    if (h_) {
+      h_.destroy();
+    }
+  }
 
   explicit operator bool() {
     if (h_.done()) {
-- 
2.43.0


From 0ff137190b7b74ed608b2955f49ff68fd69068c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:13 +0000
Subject: [PATCH 25/28] fix: to_set from an iterator pair must compile

---
 include/utl/to_set.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/utl/to_set.h b/include/utl/to_set.h
index 657bdee..73a1839 100644
--- a/include/utl/to_set.h
+++ b/include/utl/to_set.h
@@ -10,8 +10,8 @@ template <typename It, typename UnaryOperation>
 inline auto to_set(It b, It e,
                    UnaryOperation&& op) -> std::set<decltype(op(*b))> {
   using set = std::set<decltype(op(*b))>;
-  set s(std::distance(s, e));
-  std::transform(b, e, std::insert_iterator<set>(s), op);
+  set s;
+  std::transform(b, e, std::insert_iterator<set>(s, begin(s)), op);
   return s;
 }
 
-- 
2.43.0


From 630e4969fccdee5ff44624252c54059c3bc4f84c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:13 +0000
Subject: [PATCH 26/28] fix: printable enum names must not include the space
 before a comma

---
 include/utl/printable_enum.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/utl/printable_enum.h b/include/utl/printable_enum.h
index 7b6f269..7e1d232 100644
--- a/include/utl/printable_enum.h
+++ b/include/utl/printable_enum.h
@@ -15,7 +15,9 @@
         ++c;                                                         \
       }                                                              \
       start = c;                                                     \
-      c = std::find(std::next(c), end(s), ',');                      \
+      c = std::find_if(std::next(c), end(s), [](char const x) {      \
+        return x == ',' || x == ' ';                                 \
+      });                                                            \
     }                                                                \
     return {start, c};                                               \
   }                                                                  \
-- 
2.43.0


From 33d8e2f327dc7e91b6050c1cd28561b139581bca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:13 +0000
Subject: [PATCH 27/28] fix: finally must keep its state when moved and run a
 replaced action

---
 include/utl/raii.h | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/include/utl/raii.h b/include/utl/raii.h
index 508333d..598ae47 100644
--- a/include/utl/raii.h
+++ b/include/utl/raii.h
@@ -49,13 +49,17 @@ struct finally {
   finally(finally const&) = delete;
   finally& operator=(finally const&) = delete;
 
-  finally(finally&& o) noexcept : destruct_{std::move(o.destruct_)} {
-    o.exec_ = false;
-  }
+  finally(finally&& o) noexcept
+      : exec_{std::exchange(o.exec_, false)},
+        destruct_{std::move(o.destruct_)} {}
 
   finally& operator=(finally&& o) noexcept {
-    destruct_ = std::move(o.destruct_);
-    o.exec_ = false;
+    if (this != &o) {
+      if (std::exchange(exec_, std::exchange(o.exec_, false))) {
+        destruct_();
+      }
+      destruct_ = std::move(o.destruct_);
+    }
     return *this;
   }
 
-- 
2.43.0


From be76e2f3a211d5a2953fef3c80f43015fa95c2f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:57:30 +0000
Subject: [PATCH 28/28] fix: concurrent progress updates could leave a stale
 progress value

update_out() read the input and stored the progress it belongs to in two
steps, so a thread that was overtaken in between replaced the progress of a
newer input by its own, older one.  Repeat until the input is unchanged.
---
 src/progress_tracker.cc | 33 ++++++++++++++++++++-------------
 1 file changed, 20 insertions(+), 13 deletions(-)

diff --git a/src/progress_tracker.cc b/src/progress_tracker.cc
index d644122..e44c26f 100644
--- a/src/progress_tracker.cc
+++ b/src/progress_tracker.cc
@@ -120,19 +120,26 @@ void progress_tracker::increment(size_t const inc) {
 
 void progress_tracker::update_out() {
   auto const out_range = (out_high_ - out_low_);
-  auto const in_ratio =
-      in_high_ == 0ULL ? 1.F
-                       : static_cast<float>(static_cast<double>(in_) /
-                                            static_cast<double>(in_high_));
-
-  auto const new_out = std::clamp(
-      out_low_ + std::round(out_range * in_ratio / out_mod_) * out_mod_,
-      out_low_, out_high_);
-
-  auto old_out = out_.exchange(new_out);
-  if (old_out != new_out) {
-    callback_(*this);
-  }
+
+  // Another thread may have changed the input (and reported its progress)
+  // since it was read here: repeat until the reported progress is up to date.
+  size_t in = 0ULL;
+  do {
+    in = in_;
+    auto const in_ratio =
+        in_high_ == 0ULL ? 1.F
+                         : static_cast<float>(static_cast<double>(in) /
+                                              static_cast<double>(in_high_));
+
+    auto const new_out = std::clamp(
+        out_low_ + std::round(out_range * in_ratio / out_mod_) * out_mod_,
+        out_low_, out_high_);
+
+    auto old_out = out_.exchange(new_out);
+    if (old_out != new_out) {
+      callback_(*this);
+    }
+  } while (in != in_);
 }
 
 inline progress_tracker_ptr get_tracker_unsafe(global_progress_trackers& global,
-- 
2.43.0

