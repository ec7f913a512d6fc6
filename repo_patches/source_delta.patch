From b56e8081823ad4bfb3ca7f3520b7cef5a9f8cded Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:36 +0000
Subject: [PATCH 01/56] fix: exclusion_set: insert into an empty set without
 growing to the whole id range

---
 src/infrastructure/exclusion/exclusion_set.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/infrastructure/exclusion/exclusion_set.cc b/src/infrastructure/exclusion/exclusion_set.cc
index 08e1b6b..7511b7e 100644
--- a/src/infrastructure/exclusion/exclusion_set.cc
+++ b/src/infrastructure/exclusion/exclusion_set.cc
@@ -157,6 +157,11 @@ bool exclusion_set::operator[](exclusion_set::value_type const idx) const {
 }
 
 void exclusion_set::set(value_type const idx) {
+  if (this->empty()) {
+    *this = make_exclusion_set(id_, soro::vector<value_type>{idx});
+    return;
+  }
+
   if (idx < first_) {
     lower_first(this,
                 (idx / bitvec_t::bits_per_block) * bitvec_t::bits_per_block);
-- 
2.43.0


From 7b3c0e2e9d2f9fedbb9d3b418216676c36ec04d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:36 +0000
Subject: [PATCH 02/56] fix: exclusion_set: two empty sets compare as
 equivalent

---
 src/infrastructure/exclusion/exclusion_set.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/infrastructure/exclusion/exclusion_set.cc b/src/infrastructure/exclusion/exclusion_set.cc
index 7511b7e..18253ac 100644
--- a/src/infrastructure/exclusion/exclusion_set.cc
+++ b/src/infrastructure/exclusion/exclusion_set.cc
@@ -281,8 +281,9 @@ exclusion_set exclusion_set::operator|(exclusion_set const& other) const {
 }
 
 std::partial_ordering exclusion_set::compare(exclusion_set const& other) const {
-  if (this->empty() && !other.empty()) {
-    return std::partial_ordering::less;
+  if (this->empty()) {
+    return other.empty() ? std::partial_ordering::equivalent
+                         : std::partial_ordering::less;
   }
 
   if (other.empty()) {
-- 
2.43.0


From dffc6fb2ec48e1255dca20760d4a43358bc99dcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:22 +0000
Subject: [PATCH 03/56] fix: iss parser: accept speed limits of a station route
 at undirected track elements

---
 src/infrastructure/parsers/iss/parse_track_element.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/infrastructure/parsers/iss/parse_track_element.cc b/src/infrastructure/parsers/iss/parse_track_element.cc
index 9bfeb65..566b778 100644
--- a/src/infrastructure/parsers/iss/parse_track_element.cc
+++ b/src/infrastructure/parsers/iss/parse_track_element.cc
@@ -98,7 +98,7 @@ speed_limit get_speed_limit(xml_node const& speed_limit_xml,
 
   spl.element_ = element;
 
-  if (element->is_track_element()) {
+  if (element->is_directed_track_element()) {
     spl.node_ = element->as<track_element>().get_node();
   }
 
-- 
2.43.0


From 6174a1b26f6d50984e8c491c5667c477a41c5df5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:22 +0000
Subject: [PATCH 04/56] fix: is_path: do not dereference the missing neighbour
 of an unconnected border

---
 include/soro/infrastructure/path/is_path.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/soro/infrastructure/path/is_path.h b/include/soro/infrastructure/path/is_path.h
index 9c46d87..154cf7b 100644
--- a/include/soro/infrastructure/path/is_path.h
+++ b/include/soro/infrastructure/path/is_path.h
@@ -9,8 +9,9 @@
 namespace soro::infra {
 
 inline bool neighbours(element::ptr e1, element::ptr e2) {
-  return utls::any_of(e1->neighbours(),
-                      [&](auto&& neigh) { return neigh->id() == e2->id(); });
+  return utls::any_of(e1->neighbours(), [&](auto&& neigh) {
+    return neigh != nullptr && neigh->id() == e2->id();
+  });
 }
 
 template <typename Iterable>
-- 
2.43.0


From b62928cd806343f2e57111fb1227f2cd6206146d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:13 +0000
Subject: [PATCH 05/56] fix: station_route: report an extra speed limit only at
 its own node, wherever the iteration starts

---
 src/infrastructure/station/station_route.cc | 23 ++++++++++-----------
 1 file changed, 11 insertions(+), 12 deletions(-)

diff --git a/src/infrastructure/station/station_route.cc b/src/infrastructure/station/station_route.cc
index 74b63a7..36b6c65 100644
--- a/src/infrastructure/station/station_route.cc
+++ b/src/infrastructure/station/station_route.cc
@@ -126,14 +126,10 @@ std::pair<node::idx, node::idx> fast_forward_indices(station_route const& r,
 
   node::idx spl_idx = 0;
   for (node::idx n_idx = 0; n_idx < ff_to; ++n_idx) {
-    auto const& spl = r.extra_speed_limits_[spl_idx];
-    if (spl.node_ == r.nodes(n_idx)) {
+    while (spl_idx < r.extra_speed_limits_.size() &&
+           r.extra_speed_limits_[spl_idx].node_ == r.nodes(n_idx)) {
       ++spl_idx;
     }
-
-    if (spl_idx == r.extra_speed_limits_.size()) {
-      break;
-    }
   }
 
   indices.second = spl_idx;
@@ -166,14 +162,17 @@ utls::recursive_generator<route_node> station_route::from_to(
 
     if (result.omitted_) {
       ++omit_idx;
-    } else {
-      bool const extra_spl =
-          spl_idx < extra_speed_limits_.size() &&
-          extra_speed_limits_[spl_idx].node_->id_ == result.node_->id_;
+    }
+
+    result.extra_spl_ = speed_limit::optional_ptr(std::nullopt);
 
-      if (extra_spl) {
+    // consume every extra speed limit of this node, regardless of it being used
+    for (; spl_idx < extra_speed_limits_.size() &&
+           extra_speed_limits_[spl_idx].node_->id_ == result.node_->id_;
+         ++spl_idx) {
+      if (!result.omitted_ && !result.extra_spl_.has_value()) {
         result.extra_spl_ =
-            speed_limit::optional_ptr(&extra_speed_limits_[spl_idx++]);
+            speed_limit::optional_ptr(&extra_speed_limits_[spl_idx]);
       }
     }
 
-- 
2.43.0


From 1b7fdd36f8bc48425824b920c8a6308f84493423 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:13 +0000
Subject: [PATCH 06/56] fix: iss parser: a speed limit given as 'Hier' applies
 here, one given as 'Signal' at the last signal

---
 src/infrastructure/parsers/iss/parse_track_element.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/infrastructure/parsers/iss/parse_track_element.cc b/src/infrastructure/parsers/iss/parse_track_element.cc
index 566b778..e7cf756 100644
--- a/src/infrastructure/parsers/iss/parse_track_element.cc
+++ b/src/infrastructure/parsers/iss/parse_track_element.cc
@@ -20,11 +20,11 @@ namespace soro::infra {
 
 speed_limit::poa parse_speed_limit_poa(xml_node const& poa_node) {
   switch (str_hash(poa_node.child_value())) {
-    case str_hash(SIGNAL): {
+    case str_hash(HERE): {
       return speed_limit::poa::HERE;
     }
 
-    case str_hash(HERE): {
+    case str_hash(SIGNAL): {
       return speed_limit::poa::LAST_SIGNAL;
     }
 
-- 
2.43.0


From cbd845dc871d295022e10a6bcd21e2c135bab243 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:00 +0000
Subject: [PATCH 07/56] fix: interlocking: load infrastructures without any
 interlocking route

---
 src/infrastructure/interlocking/get_interlocking.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/infrastructure/interlocking/get_interlocking.cc b/src/infrastructure/interlocking/get_interlocking.cc
index b4d2d8a..101dca4 100644
--- a/src/infrastructure/interlocking/get_interlocking.cc
+++ b/src/infrastructure/interlocking/get_interlocking.cc
@@ -266,6 +266,11 @@ soro::vector<interlocking_route> get_interlocking_routes(
 }
 
 void print_interlocking_stats(soro::vector<interlocking_route> const& irs) {
+  if (irs.empty()) {
+    uLOG(utl::info) << "Generated no interlocking routes.";
+    return;
+  }
+
   std::size_t length_in_srs = 0;
 
   for (auto const& ir : irs) {
-- 
2.43.0


From ffd000f0512b125cd3b79717a0b19d2a00bbddd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:34 +0000
Subject: [PATCH 08/56] fix: recursive_generator: report the error of a nested
 generator that fails before its first value

---
 include/soro/utls/coroutine/recursive_generator.h | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/include/soro/utls/coroutine/recursive_generator.h b/include/soro/utls/coroutine/recursive_generator.h
index b08d48a..f58aeb6 100644
--- a/include/soro/utls/coroutine/recursive_generator.h
+++ b/include/soro/utls/coroutine/recursive_generator.h
@@ -64,7 +64,10 @@ public:
 
         awaitable(promise_type* childPromise) : m_childPromise(childPromise) {}
 
-        bool await_ready() noexcept { return this->m_childPromise == nullptr; }
+        bool await_ready() noexcept {
+          return this->m_childPromise == nullptr ||
+                 this->m_childPromise->is_complete();
+        }
 
         void await_suspend(coro::coroutine_handle<promise_type>) noexcept {}
 
@@ -84,11 +87,12 @@ public:
         generator.m_promise->m_parentOrLeaf = this;
         generator.m_promise->resume();
 
-        if (!generator.m_promise->is_complete()) {
-          return awaitable{generator.m_promise};
+        if (generator.m_promise->is_complete()) {
+          m_root->m_parentOrLeaf = this;
         }
 
-        m_root->m_parentOrLeaf = this;
+        // also report the error of a child that ends without yielding a value
+        return awaitable{generator.m_promise};
       }
 
       return awaitable{nullptr};
-- 
2.43.0


From 8ea447b16cfe73029262101236ebda60af9e4b25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:34 +0000
Subject: [PATCH 09/56] fix: coro_it: own the coroutine exclusively, compare
 two end iterators

---
 include/soro/utls/coroutine/iterator.h | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/include/soro/utls/coroutine/iterator.h b/include/soro/utls/coroutine/iterator.h
index 6b6592f..e155683 100644
--- a/include/soro/utls/coroutine/iterator.h
+++ b/include/soro/utls/coroutine/iterator.h
@@ -1,5 +1,9 @@
 #pragma once
 
+#include <memory>
+#include <type_traits>
+#include <utility>
+
 #include "soro/utls/coroutine/coro_namespace.h"
 
 namespace soro::utls {
@@ -98,6 +102,18 @@ struct coro_it {
   coro_it(co_handle_t co_handle) noexcept  // NO LINT
       : co_handle_{std::move(co_handle)} {}
 
+  // the iterator owns its coroutine, which must be destroyed exactly once
+  coro_it(coro_it const&) = delete;
+  coro_it& operator=(coro_it const&) = delete;
+
+  coro_it(coro_it&& other) noexcept
+      : co_handle_{std::exchange(other.co_handle_, nullptr)} {}
+
+  coro_it& operator=(coro_it&& other) noexcept {
+    std::swap(co_handle_, other.co_handle_);
+    return *this;
+  }
+
   ~coro_it() {
     if (co_handle_) {
       co_handle_.destroy();
@@ -110,7 +126,8 @@ struct coro_it {
   }
 
   friend bool operator==(coro_it const& it1, coro_it const& it2) noexcept {
-    return (!it1.co_handle_ && it2.co_handle_.done()) ||
+    return (!it1.co_handle_ && !it2.co_handle_) ||  // end == end => true
+           (!it1.co_handle_ && it2.co_handle_.done()) ||
            (!it2.co_handle_ && it1.co_handle_.done());
   }
 
-- 
2.43.0


From cea7fbb1cac3bf230c411c53dd3832583e1adbe6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:09 +0000
Subject: [PATCH 10/56] fix: offset_container: create the given number of
 elements, not one element of that value

---
 include/soro/utls/container/offset_container.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/soro/utls/container/offset_container.h b/include/soro/utls/container/offset_container.h
index 3608fa9..9864220 100644
--- a/include/soro/utls/container/offset_container.h
+++ b/include/soro/utls/container/offset_container.h
@@ -15,7 +15,7 @@ struct offset_container {
   offset_container() = default;
 
   offset_container(size_type const offset, size_type const size)
-      : offset_{offset}, vec_{size} {}
+      : offset_{offset}, vec_(size) {}
 
   auto& operator[](size_type const idx) noexcept { return vec_[idx - offset_]; }
 
-- 
2.43.0


From 3f452cc9cff19550c8bb3f5cde314d61c728e191 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:09 +0000
Subject: [PATCH 11/56] fix: id_iterator: keep the container when adding or
 subtracting an offset

---
 include/soro/utls/container/id_iterator.h | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/include/soro/utls/container/id_iterator.h b/include/soro/utls/container/id_iterator.h
index c1e93e4..6d2de9c 100644
--- a/include/soro/utls/container/id_iterator.h
+++ b/include/soro/utls/container/id_iterator.h
@@ -94,11 +94,15 @@ struct id_iterator {
     return *this;
   }
 
-  id_iterator operator+(difference_type const d) const { return it_ + d; }
-  id_iterator operator-(difference_type const d) const { return it_ - d; }
+  id_iterator operator+(difference_type const d) const {
+    return id_iterator{it_ + d, c_};
+  }
+  id_iterator operator-(difference_type const d) const {
+    return id_iterator{it_ - d, c_};
+  }
 
   friend id_iterator operator+(difference_type const d, id_iterator const& it) {
-    return id_iterator{.it_ = it.it_ + d, .c_ = it.c_};
+    return id_iterator{it.it_ + d, it.c_};
   }
 
   difference_type operator-(id_iterator const& o) const { return it_ - o.it_; }
-- 
2.43.0


From ebb82a4dcfca8889d421450bbfb988ad2fee13d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:09 +0000
Subject: [PATCH 12/56] fix: optional: swap two optionals

---
 include/soro/utls/container/optional.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/soro/utls/container/optional.h b/include/soro/utls/container/optional.h
index db1cec9..147cf3f 100644
--- a/include/soro/utls/container/optional.h
+++ b/include/soro/utls/container/optional.h
@@ -136,7 +136,7 @@ struct optional {
 
   void swap(optional& other) noexcept {
     if (has_value() && !other.has_value()) {
-      other = this->val_;
+      other.val_ = this->val_;
       this->reset();
     } else if (!has_value() && other.has_value()) {
       this->val_ = other.value();
@@ -144,7 +144,7 @@ struct optional {
     } else if (has_value() && other.has_value()) {
       auto const tmp = this->value();
       this->val_ = other.value();
-      other = tmp;
+      other.val_ = tmp;
     }
   }
 
-- 
2.43.0


From 8b5792eee329970693e56f3471eb549c8bdc6d1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:09 +0000
Subject: [PATCH 13/56] fix: priority_queue: emplace from any number of
 arguments

---
 include/soro/utls/container/priority_queue.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/soro/utls/container/priority_queue.h b/include/soro/utls/container/priority_queue.h
index d5f83cf..1c8261f 100644
--- a/include/soro/utls/container/priority_queue.h
+++ b/include/soro/utls/container/priority_queue.h
@@ -20,7 +20,7 @@ struct priority_queue {
 
   template <typename... Args>
   void emplace(Args&&... args) {
-    mem_.emplace_back(std::forward<Args...>(args...));
+    mem_.emplace_back(std::forward<Args>(args)...);
     std::push_heap(std::begin(mem_), std::end(mem_), comp_fn_);
   }
 
-- 
2.43.0


From 8f5d4a17664aa0875b5f102f3044e01c0b06672e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:13 +0000
Subject: [PATCH 14/56] fix: arithmetic on strong types must not change its
 left operand

---
 include/soro/utls/strong_types/strong_type.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/soro/utls/strong_types/strong_type.h b/include/soro/utls/strong_types/strong_type.h
index b6b4646..68f09a9 100644
--- a/include/soro/utls/strong_types/strong_type.h
+++ b/include/soro/utls/strong_types/strong_type.h
@@ -15,7 +15,7 @@ struct strong_type {
     return *this;
   }
 
-  friend auto operator+(strong_type& lhs, strong_type const& rhs) {
+  friend auto operator+(strong_type lhs, strong_type const& rhs) {
     lhs += rhs;
     return lhs;
   }
@@ -25,7 +25,7 @@ struct strong_type {
     return *this;
   }
 
-  friend auto operator-(strong_type& lhs, strong_type const& rhs) {
+  friend auto operator-(strong_type lhs, strong_type const& rhs) {
     lhs -= rhs;
     return lhs;
   }
@@ -35,7 +35,7 @@ struct strong_type {
     return *this;
   }
 
-  friend auto operator*(strong_type& lhs, strong_type const& rhs) {
+  friend auto operator*(strong_type lhs, strong_type const& rhs) {
     lhs *= rhs;
     return lhs;
   }
@@ -45,7 +45,7 @@ struct strong_type {
     return *this;
   }
 
-  friend auto operator/(strong_type& lhs, strong_type const& rhs) {
+  friend auto operator/(strong_type lhs, strong_type const& rhs) {
     lhs /= rhs;
     return lhs;
   }
-- 
2.43.0


From 8738022e37b1bc091bd8809df6ada5dd3ffee945 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:13 +0000
Subject: [PATCH 15/56] fix: parse errors quoted past the end of the text that
 was given

---
 include/soro/utls/parse_fp.h  |  7 ++++---
 include/soro/utls/parse_int.h | 12 ++++++++----
 2 files changed, 12 insertions(+), 7 deletions(-)

diff --git a/include/soro/utls/parse_fp.h b/include/soro/utls/parse_fp.h
index 59576ec..c234ff0 100644
--- a/include/soro/utls/parse_fp.h
+++ b/include/soro/utls/parse_fp.h
@@ -3,6 +3,7 @@
 #include <charconv>
 #include <iomanip>
 #include <string>
+#include <string_view>
 
 #include "utl/verify.h"
 
@@ -35,10 +36,10 @@ constexpr T parse_fp(const char* const start, const char* const end) {
   auto const [ptr, ec] = std::from_chars(start, end, result);
 
   sassert(ec == std::errc{}, "Error while parsing floating point input {}.",
-          std::quoted(start));
+          std::quoted(std::string_view{start, end}));
 
   sassert(ptr == end, "Error while parsing floating point input {}.",
-          std::quoted(start));
+          std::quoted(std::string_view{start, end}));
 
 #endif
 
@@ -62,7 +63,7 @@ constexpr T parse_fp(const char* const start, std::size_t const len) {
   } else {
     sassert(!detail::contains_char(start, start + len, ','),
             "Input string {} contains a comma, but ReplaceComma is Off",
-            std::quoted(start));
+            std::quoted(std::string_view{start, len}));
 
     return detail::parse_fp<T>(start, start + len);
   }
diff --git a/include/soro/utls/parse_int.h b/include/soro/utls/parse_int.h
index 6089b0d..cc90288 100644
--- a/include/soro/utls/parse_int.h
+++ b/include/soro/utls/parse_int.h
@@ -1,6 +1,7 @@
 #pragma once
 
 #include <charconv>
+#include <string_view>
 
 #include "soro/utls/result.h"
 #include "soro/utls/sassert.h"
@@ -25,13 +26,15 @@ template <std::integral T>
   if (success.ec != std::errc{}) {
     return utls::unexpected(success.ec,
                             "error {} while parsing integer input {}",
-                            success.ec, std::quoted(start));
+                            success.ec,
+                            std::quoted(std::string_view{start, end}));
   }
 
   if (success.ptr != end) {
     return utls::unexpected(std::errc::invalid_argument,
                             "error {} while parsing integer input {}",
-                            std::errc::invalid_argument, std::quoted(start));
+                            std::errc::invalid_argument,
+                            std::quoted(std::string_view{start, end}));
   }
 
   return val;
@@ -43,10 +46,11 @@ template <std::integral T>
   auto const [success, val] = parse_int_impl<T>(start, end);
 
   utls::sassert(success.ec == std::errc{},
-                "Error while parsing integer input {}.", std::quoted(start));
+                "Error while parsing integer input {}.",
+                std::quoted(std::string_view{start, end}));
 
   utls::sassert(success.ptr == end, "Error while parsing integer input {}.",
-                std::quoted(start));
+                std::quoted(std::string_view{start, end}));
 
   return val;
 }
-- 
2.43.0


From 6268312e16cef49057d06fd6a7d5f771fcaa6c48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:13 +0000
Subject: [PATCH 16/56] fix: equal() on string views compared past the end of
 the views

---
 include/soro/utls/string.h | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/include/soro/utls/string.h b/include/soro/utls/string.h
index ed7a5c3..17bd267 100644
--- a/include/soro/utls/string.h
+++ b/include/soro/utls/string.h
@@ -4,6 +4,7 @@
 #include <cstdint>
 #include <cstring>
 #include <string>
+#include <string_view>
 #include <vector>
 
 #include "soro/base/soro_types.h"
@@ -44,15 +45,16 @@ inline bool equal(char const* const s1, soro::string const& s2) {
 }
 
 inline bool equal(soro::string_view s1, char const* const s2) {
-  return equal(s1.data(), s2);
+  return std::string_view{s1.data(), s1.size()} == s2;
 }
 
 inline bool equal(char const* const s1, soro::string_view s2) {
-  return equal(s1, s2.data());
+  return s1 == std::string_view{s2.data(), s2.size()};
 }
 
 inline bool equal(soro::string_view const& s1, soro::string_view const& s2) {
-  return equal(s1.data(), s2.data());
+  return std::string_view{s1.data(), s1.size()} ==
+         std::string_view{s2.data(), s2.size()};
 }
 
 inline bool starts_with(char const* const str, char const* const prfx) {
-- 
2.43.0


From 5d78ce8765c5d6a0107813d89fb77b467ceef447 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:13 +0000
Subject: [PATCH 17/56] fix: discrete distribution keeps its values when a
 smaller key is inserted, iterates over the right speeds

---
 include/soro/simulation/dpd.h | 31 ++++++++++---------------------
 1 file changed, 10 insertions(+), 21 deletions(-)

diff --git a/include/soro/simulation/dpd.h b/include/soro/simulation/dpd.h
index 9f0cf99..231deb5 100644
--- a/include/soro/simulation/dpd.h
+++ b/include/soro/simulation/dpd.h
@@ -55,7 +55,7 @@ struct prob_dist_iter {
 
   prob_dist_iter& operator--() {
     --it_;
-    t_ -= get_granularity();
+    t_ = t_ - get_granularity();
     return *this;
   }
 
@@ -71,7 +71,7 @@ struct prob_dist_iter {
   bool operator!=(prob_dist_iter const& o) const { return it_ != o.it_; }
 
   int operator-(prob_dist_iter const& o) const {
-    return std::distance(it_, o.it_);
+    return std::distance(o.it_, it_);
   }
 
   typename T::primary_t t_;
@@ -127,15 +127,10 @@ struct dpd<Granularity, T> {
     }
 
     if (granular < first_) {
-      auto diff = (first_ - granular) / granularity;
-      std::vector<probability_t> new_dpd(dpd_.size() + size_t{diff});
-      for (soro::size_t idx = 0; idx < new_dpd.size(); ++idx) {
-        if (static_cast<soro::size_t>(diff) < idx) {
-          new_dpd[idx] = 0.0F;
-        } else {
-          new_dpd[idx + size_t{diff}] = dpd_[idx];
-        }
-      }
+      auto const diff =
+          static_cast<std::size_t>((first_ - granular) / granularity);
+      dpd_.insert(std::begin(dpd_), diff, probability_t{0.0F});
+      first_ = granular;
     }
 
     auto const idx = to_idx(head);
@@ -181,7 +176,7 @@ struct dpd<Granularity, T, Ts...> {
     return static_cast<std::size_t>((offset / granularity).t_);
   }
 
-  container_t& operator[](primary_t const i) { return dpd_[to_idx(i)]; }
+  inner_dpd_t& operator[](primary_t const i) { return dpd_[to_idx(i)]; }
 
   void insert(primary_t head, Ts... tail, probability_t probability) {
     auto granularity = get_granularity();
@@ -197,14 +192,8 @@ struct dpd<Granularity, T, Ts...> {
     if (granular < first_) {
       auto const diff =
           static_cast<std::size_t>(((first_ - granular) / granularity).t_);
-      container_t new_dpds(dpd_.size() + diff);
-      for (auto idx = 0U; idx < new_dpds.size(); ++idx) {
-        if (idx < diff) {
-          new_dpds[idx] = {};
-        } else {
-          new_dpds[idx] = std::move(dpd_[idx]);
-        }
-      }
+      dpd_.insert(std::begin(dpd_), diff, inner_dpd_t{});
+      first_ = granular;
     }
 
     auto const idx = to_idx(head);
@@ -257,7 +246,7 @@ utls::generator<std::tuple<
           dpd.first_ +
           dpd.get_granularity() * soro::utls::unixtime{static_cast<time_t>(p1)};
       auto const speed =
-          m2.first_ + m2.get_granularity() + kilometer_per_hour{p2};
+          m2.first_ + kilometer_per_hour{p2 * m2.get_granularity().km_h_};
 
       co_yield std::tuple{time, speed, prob};
     }
-- 
2.43.0


From 40431e1196215d16a77f3be22edeeba682cad17e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:25 +0000
Subject: [PATCH 18/56] fix: graph traversal visits the start only once, its
 edges too

---
 include/soro/utls/graph/traversal.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/soro/utls/graph/traversal.h b/include/soro/utls/graph/traversal.h
index c1229f3..5c9f43e 100644
--- a/include/soro/utls/graph/traversal.h
+++ b/include/soro/utls/graph/traversal.h
@@ -28,6 +28,7 @@ inline void graph_traversal(Node const start, GetNeighbours&& get_neighbours,
   Todo q;
   cista::raw::hash_set<Node> seen;
 
+  seen.emplace(start);
   q.emplace(std::pair{start, start});
 
   while (!q.empty()) {
-- 
2.43.0


From 06e78945804b3a97e5e548de8c1fa00afe2d61a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:19 +0000
Subject: [PATCH 19/56] fix: bitfield: calendars with the same days are
 equivalent whatever their first day

---
 src/timetable/bitfield.cc | 14 +-------------
 1 file changed, 1 insertion(+), 13 deletions(-)

diff --git a/src/timetable/bitfield.cc b/src/timetable/bitfield.cc
index 377fe9f..b3babc3 100644
--- a/src/timetable/bitfield.cc
+++ b/src/timetable/bitfield.cc
@@ -185,19 +185,7 @@ void bitfield::set(bitfield::anchor_time const ymd, bool const new_value) {
 }
 
 bool bitfield::equivalent(bitfield const& o) const noexcept {
-  if (*this == o) {
-    return true;
-  }
-
-  if (this->first_date_ < o.first_date_) {
-    auto copy = o;
-    copy.bitset_ >> distance(this->first_date_, o.first_date_);
-    return *this == copy;
-  } else {
-    auto copy = *this;
-    copy.bitset_ >> distance(o.first_date_, this->first_date_);
-    return copy == o;
-  }
+  return *this == o || get_set_days() == o.get_set_days();
 }
 
 bitfield operator|(bitfield const& lhs, bitfield const& rhs) noexcept {
-- 
2.43.0


From 7a3de25c79c62d4682ec6e6d24c418b694f3173e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:04 +0000
Subject: [PATCH 20/56] fix: train departures: list trips of earlier days still
 running in the interval

---
 src/timetable/train.cc | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/src/timetable/train.cc b/src/timetable/train.cc
index e314edd..b2ea55c 100644
--- a/src/timetable/train.cc
+++ b/src/timetable/train.cc
@@ -21,11 +21,24 @@ bool train_node::omitted() const {
   return omitted_ || (node_->is(type::HALT) && !sequence_point_.has_value());
 }
 
+// trips can last beyond midnight of their anchor, so the earliest trip running at
+// the given time can be anchored as long before it as the last arrival is
+// after midnight
+absolute_time earliest_anchor(train const& train, absolute_time const time) {
+  if (train.sequence_points_.empty() ||
+      time - absolute_time::min() < train.last_arrival()) {
+    return absolute_time::min();
+  }
+
+  return time - train.last_arrival();
+}
+
 train::iterator::iterator(train const* train, interval const& interval,
                           bool const end)
     : train_{train},
       bitfield_it_(end ? train->service_days_.to(interval.end_)
-                       : train->service_days_.from(interval.start_)),
+                       : train->service_days_.from(
+                             earliest_anchor(*train, interval.start_))),
       interval_{interval} {
   advance();
 }
-- 
2.43.0


From 6b3df498c8b2a592a83368b15028e5a47ed2e9ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:19 +0000
Subject: [PATCH 21/56] fix: station routes to interlocking routes: follow the
 stop sequence exactly, always make progress

---
 .../station_route_to_interlocking_route.cc    | 116 +++++++++++++-----
 1 file changed, 87 insertions(+), 29 deletions(-)

diff --git a/src/timetable/parsers/station_route_to_interlocking_route.cc b/src/timetable/parsers/station_route_to_interlocking_route.cc
index adb5f39..5c4983c 100644
--- a/src/timetable/parsers/station_route_to_interlocking_route.cc
+++ b/src/timetable/parsers/station_route_to_interlocking_route.cc
@@ -1,5 +1,10 @@
 #include "soro/timetable/parsers/station_route_to_interlocking_route.h"
 
+#include <algorithm>
+#include <limits>
+#include <optional>
+#include <utility>
+
 #include "soro/utls/result.h"
 #include "utl/concat.h"
 #include "utl/logging.h"
@@ -83,6 +88,11 @@ struct cover {
     return node_idx_ > last_stop_sequence_node;
   }
 
+  bool is_before(cover const& other) const {
+    return std::pair{stop_sequence_offset_, node_idx_} <
+           std::pair{other.stop_sequence_offset_, other.node_idx_};
+  }
+
   std::size_t stop_sequence_offset_{0};
   std::size_t node_idx_{0};
 };
@@ -119,6 +129,53 @@ interlocking_route::ids get_candidates(stop_sequence const& ss,
   return candidates;
 }
 
+// Advances the cover over the given interlocking route. The station route at
+// ir_offset in the interlocking route is the one at ss_offset in the stop
+// sequence. Returns nothing if the interlocking route leaves the stop sequence.
+std::optional<cover> advance(stop_sequence const& ss,
+                             std::size_t const ss_offset,
+                             interlocking_route const& ir,
+                             std::size_t const ir_offset,
+                             infrastructure const& infra) {
+  auto const remaining_ir = ir.station_routes_.size() - ir_offset;
+  auto const remaining_ss = ss.points_.size() - ss_offset;
+  auto const matched = std::min(remaining_ir, remaining_ss);
+
+  for (std::size_t i = 0; i < matched; ++i) {
+    if (ir.station_routes_[ir_offset + i] !=
+        ss.points_[ss_offset + i].station_route_) {
+      return std::nullopt;
+    }
+  }
+
+  auto const last = ss_offset + matched - 1;
+
+  // the interlocking route goes further than the stop sequence,
+  // thus it is fully covered
+  if (remaining_ir > remaining_ss) {
+    return cover{.stop_sequence_offset_ = last,
+                 .node_idx_ = std::numeric_limits<std::size_t>::max()};
+  }
+
+  // true when the next station route starts on the node the current
+  // interlocking route ends on. then we have completely inserted the current
+  // station route, so we can move on to the next station route
+  auto const at_next =
+      last + 1 < ss.points_.size() &&
+      ir.last_node(infra) ==
+          infra->station_routes_[ss.points_[last].station_route_]
+              ->nodes()
+              .back() &&
+      ir.last_node(infra) ==
+          infra->station_routes_[ss.points_[last + 1].station_route_]
+              ->nodes()
+              .front();
+
+  return at_next ? cover{.stop_sequence_offset_ = last + 1, .node_idx_ = 0}
+                 : cover{.stop_sequence_offset_ = last,
+                         .node_idx_ = ir.end_offset_};
+}
+
 struct first_ir {
   interlocking_route::id id_;
   cover cover_;
@@ -141,8 +198,9 @@ utls::result<first_ir> get_first_ir(stop_sequence const& stop_sequence,
   auto const candidates =
       get_candidates(stop_sequence, ss_cover, first_node, freight, infra);
 
-  auto const [longest_prefix_routes, current_longest_prefix] =
-      get_longest_prefix_interlocking_routes(candidates, irs, stop_sequence, 0);
+  auto const longest_prefix_routes =
+      get_longest_prefix_interlocking_routes(candidates, irs, stop_sequence, 0)
+          .first;
 
   if (longest_prefix_routes.empty()) {
     return std::unexpected(error::route_transform::NO_FIRST_IR);
@@ -154,15 +212,27 @@ utls::result<first_ir> get_first_ir(stop_sequence const& stop_sequence,
 
   auto const& prefix_ir = irs.routes_[longest_prefix_routes.front()];
 
-  ss_cover.node_idx_ = prefix_ir.end_offset_;
-  if (current_longest_prefix == 0) {
-    ss_cover.stop_sequence_offset_ =
-        prefix_ir.station_routes_.size() -
-        utls::find_position(prefix_ir.station_routes_, first_sr->id_) - 1;
-  } else {
-    ss_cover.stop_sequence_offset_ = current_longest_prefix - 1;
+  // the train has to start inside its first interlocking route
+  auto const& first_point = stop_sequence.points_.front();
+  if (!stop_sequence.break_in_ && first_point.is_halt() &&
+      !prefix_ir.contains(first_point.station_route_,
+                          *first_point.get_node_idx(freight, infra))) {
+    return std::unexpected(error::route_transform::NO_FIRST_IR);
+  }
+
+  // the interlocking route may start before the first station route
+  auto const first_position =
+      utls::find_position(prefix_ir.station_routes_, first_sr->id_);
+
+  auto const first_cover =
+      advance(stop_sequence, 0, prefix_ir, first_position, infra);
+
+  if (!first_cover) {
+    return std::unexpected(error::route_transform::NO_FIRST_IR);
   }
 
+  ss_cover = *first_cover;
+
   if (longest_prefix_routes.size() == 1) {
     return first_ir{.id_ = longest_prefix_routes.front(), .cover_ = ss_cover};
   }
@@ -249,28 +319,16 @@ utls::result<interlocking_transformation> transform_to_interlocking(
                             current_cover.stop_sequence_offset_ + prefix_length,
                             infra));
 
-    // the current cover + the current interlocking route cover more
-    // than the given stop sequence.
-    // thus, it is fully covered
-    if (current_cover.stop_sequence_offset_ +
-            current_ir->station_routes_.size() >
-        stop_sequence.points_.size()) {
-      break;
+    auto const next_cover =
+        advance(stop_sequence, current_cover.stop_sequence_offset_, *current_ir,
+                0, infra);
+
+    // every further interlocking route must cover more of the stop sequence
+    if (!next_cover || !current_cover.is_before(*next_cover)) {
+      return std::unexpected(error::route_transform::NO_IR);
     }
 
-    // true when the current interlocking route and the currently worked on
-    // station route end on the same node
-    auto const last_sr_id =
-        stop_sequence.points_[current_cover.stop_sequence_offset_]
-            .station_route_;
-    auto const ends_align = current_ir->last_node(infra) ==
-                            infra->station_routes_[last_sr_id]->nodes().back();
-
-    // when the ends align we have completely inserted the current station route
-    // into the interlocking path, so we can move on to the next station route
-    current_cover.stop_sequence_offset_ +=
-        ends_align ? prefix_length : prefix_length - 1;
-    current_cover.node_idx_ = current_ir->end_offset_;
+    current_cover = *next_cover;
   }
 
   utls::ensures([&] {
-- 
2.43.0


From 5fabab00bb72861f415e073bd42b8e01c770005e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:48 +0000
Subject: [PATCH 22/56] fix: kss timetable: read the required infrastructure
 version from a kss file

---
 src/timetable/parsers/kss/parse_kss_timetable.cc | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/timetable/parsers/kss/parse_kss_timetable.cc b/src/timetable/parsers/kss/parse_kss_timetable.cc
index a45d802..449b967 100644
--- a/src/timetable/parsers/kss/parse_kss_timetable.cc
+++ b/src/timetable/parsers/kss/parse_kss_timetable.cc
@@ -1,5 +1,6 @@
 #include "soro/timetable/parsers/kss/parse_kss_timetable.h"
 
+#include <algorithm>
 #include <string_view>
 
 #include "pugixml.hpp"
@@ -510,7 +511,13 @@ infra::version get_required_infra_version(timetable_options const& opts) {
   utls::expect(!fs::is_empty(opts.timetable_path_),
                "timetable path {} is empty", opts.timetable_path_);
 
-  auto const first_fp = begin(fs::directory_iterator{opts.timetable_path_});
+  // the directory might contain other files besides the timetable
+  auto const first_fp = std::find_if(
+      fs::directory_iterator{opts.timetable_path_}, fs::directory_iterator{},
+      [](auto&& dir_entry) { return is_kss_file(dir_entry.path()); });
+  utl::verify(first_fp != fs::directory_iterator{},
+              "no kss timetable file in {}!", opts.timetable_path_);
+
   auto const first_file = utls::load_file(first_fp->path());
 
   xml_document tt_xml;
-- 
2.43.0


From 3036c10dc9f16c5b5514e1dcd8c08f09e00e411f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:28 +0000
Subject: [PATCH 23/56] fix: brake: intermediate steps never lie beyond the
 braking distance

---
 src/runtime/runtime_physics.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/runtime/runtime_physics.cc b/src/runtime/runtime_physics.cc
index e213c91..63817fc 100644
--- a/src/runtime/runtime_physics.cc
+++ b/src/runtime/runtime_physics.cc
@@ -57,9 +57,10 @@ runtime_results brake(rs::train_physics const& tp, speed const initial_speed,
   deaccel_results.emplace_back(current_time, current_distance, current_speed);
 
   while (current_time < braking_time) {
-    current_time += DELTA_T;
-    current_distance += current_speed * DELTA_T;
+    speed const prev_speed = current_speed;
     current_speed += tp.deacceleration() * DELTA_T;
+    current_distance += (prev_speed + current_speed) * 0.5 * DELTA_T;
+    current_time += DELTA_T;
 
     deaccel_results.emplace_back(current_time, current_distance, current_speed);
   }
-- 
2.43.0


From 36eebc85fd571288c6da1ea6df6d3055874b231d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:57 +0000
Subject: [PATCH 24/56] fix: speed limits at a signal sharing its interval
 apply from that interval on

---
 src/runtime/interval.cc | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/runtime/interval.cc b/src/runtime/interval.cc
index b61af2d..3588072 100644
--- a/src/runtime/interval.cc
+++ b/src/runtime/interval.cc
@@ -211,10 +211,6 @@ interval_list get_interval_list(train const& train, type_set const& event_types,
       current_limit = (*spl_duo.here_)->limit_;
     }
 
-    if (tn.node_->is(type::MAIN_SIGNAL)) {
-      last_ms = list.size();
-    }
-
     if (event_types.contains(tn.node_->type())) {
       current_events.emplace_back(tn.node_, current_distance);
     }
@@ -234,6 +230,11 @@ interval_list get_interval_list(train const& train, type_set const& event_types,
         list.push_back(new_interval);
       }
 
+      // the signal can share its interval with an earlier border
+      if (tn.node_->is(type::MAIN_SIGNAL)) {
+        last_ms = list.size() - 1;
+      }
+
       prev_limit = current_limit;
       current_events = {};
     }
-- 
2.43.0


From c19e836f9b11c53bc654a4de558bc03d5f7b550b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:38 +0000
Subject: [PATCH 25/56] fix: coasting a distance at standstill is refused
 instead of never ending

---
 src/runtime/runtime_physics.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/runtime/runtime_physics.cc b/src/runtime/runtime_physics.cc
index 63817fc..a986041 100644
--- a/src/runtime/runtime_physics.cc
+++ b/src/runtime/runtime_physics.cc
@@ -11,6 +11,9 @@ namespace soro {
 using namespace soro::si;
 
 runtime_results coast(speed const current_speed, length const distance) {
+  utl::verify(current_speed > ZERO<speed> || distance <= ZERO<length>,
+              "Cannot cover a distance while standing still!");
+
   auto const total_time = distance / current_speed;
 
   runtime_results coasting_results;
-- 
2.43.0


From f6e4bc56afc49ffb12175e38c1b00560f6a9d671 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:50 +0000
Subject: [PATCH 26/56] fix: iss files: load an infrastructure given by the
 path of its Index.xml

---
 src/infrastructure/parsers/iss/iss_files.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/infrastructure/parsers/iss/iss_files.cc b/src/infrastructure/parsers/iss/iss_files.cc
index 04de0fd..d70c131 100644
--- a/src/infrastructure/parsers/iss/iss_files.cc
+++ b/src/infrastructure/parsers/iss/iss_files.cc
@@ -51,7 +51,7 @@ iss_files get_iss_files(std::filesystem::path const& fp) {
   if (fp.extension() == ".iss") {
     throw utl::fail("archives are currently not supported.");
   } else if (fp.filename().string() == "Index.xml") {
-    return iss_files(fp.parent_path());
+    return iss_files(fp);
   } else if (is_directory(fp) && exists(fp / "Index.xml")) {
     return iss_files(fp / "Index.xml");
   } else if (is_directory(fp) && !exists(fp / "Index.xml")) {
-- 
2.43.0


From 32c0925e601945030ff9be578b312f53c6632698 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:50 +0000
Subject: [PATCH 27/56] fix: infra stats: only borders leading to a known
 station form a section

---
 .../parsers/iss/get_infra_stats.cc            | 39 +++++++++++++++----
 1 file changed, 31 insertions(+), 8 deletions(-)

diff --git a/src/infrastructure/parsers/iss/get_infra_stats.cc b/src/infrastructure/parsers/iss/get_infra_stats.cc
index cbc3e9f..4f11003 100644
--- a/src/infrastructure/parsers/iss/get_infra_stats.cc
+++ b/src/infrastructure/parsers/iss/get_infra_stats.cc
@@ -1,5 +1,10 @@
 #include "soro/infrastructure/parsers/iss/get_infra_stats.h"
 
+#include <algorithm>
+#include <set>
+#include <string>
+#include <vector>
+
 #include "pugixml.hpp"
 
 #include "utl/verify.h"
@@ -10,7 +15,14 @@
 
 namespace soro::infra {
 
-void count_elements_in_section(pugi::xml_node xml_section, infra_stats& is) {
+// which stations there are, and to which station every border leads
+struct border_partners {
+  std::set<std::string> stations_;
+  std::vector<std::string> partners_;
+};
+
+void count_elements_in_section(pugi::xml_node xml_section, infra_stats& is,
+                               border_partners& bp) {
   ++is.sections_;
 
   for (auto const xml_element : xml_section.child(RAIL_PLAN_NODE).children()) {
@@ -18,20 +30,26 @@ void count_elements_in_section(pugi::xml_node xml_section, infra_stats& is) {
     if (t != type::INVALID) {
       ++(is.number(t));
     }
+
+    if (t == type::BORDER) {
+      bp.partners_.emplace_back(xml_element.child_value(PARTNER_STATION));
+    }
   }
 }
 
-void count_elements_in_station(pugi::xml_node xml_station, infra_stats& is) {
+void count_elements_in_station(pugi::xml_node xml_station, infra_stats& is,
+                               border_partners& bp) {
   ++is.stations_;
+  bp.stations_.emplace(xml_station.child_value(STATION));
 
   for (auto const& xml_section :
        xml_station.child(RAIL_PLAN_SECTIONS).children(RAIL_PLAN_SECTION)) {
-    count_elements_in_section(xml_section, is);
+    count_elements_in_section(xml_section, is, bp);
   }
 }
 
 void count_elements_in_file(utls::loaded_file const& xml_file,
-                            infra_stats& is) {
+                            infra_stats& is, border_partners& bp) {
   pugi::xml_document d;
   auto success = d.load_buffer(reinterpret_cast<void const*>(xml_file.begin()),
                                xml_file.size());
@@ -40,19 +58,24 @@ void count_elements_in_file(utls::loaded_file const& xml_file,
   for (auto const& xml_station : d.child(XML_ISS_DATA)
                                      .child(RAIL_PLAN_STATIONS)
                                      .children(RAIL_PLAN_STATION)) {
-    count_elements_in_station(xml_station, is);
+    count_elements_in_station(xml_station, is, bp);
   }
 }
 
 infra_stats get_infra_stats(iss_files const& files) {
   infra_stats is;
+  border_partners bp;
 
   for (auto const& file : files.rail_plan_files_) {
-    count_elements_in_file(file, is);
+    count_elements_in_file(file, is, bp);
   }
 
-  // for every border pair there is an extra (empty) section
-  is.sections_ += is.number(type::BORDER) / 2;
+  // for every border pair there is an extra (empty) section, borders leading
+  // to a station which is not part of the infrastructure do not form a pair
+  is.sections_ += static_cast<std::size_t>(std::count_if(
+                      std::cbegin(bp.partners_), std::cend(bp.partners_),
+                      [&](auto&& p) { return bp.stations_.contains(p); })) /
+                  2;
 
   for (auto t : all_types()) {
     // simple elements appear two times in the infrastructure data,
-- 
2.43.0


From 29bf06d4872b823065cb4da6b1ad8002746f6fb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:00 +0000
Subject: [PATCH 28/56] fix: ordering node: the next node belongs to the same
 trip

---
 src/simulation/ordering/ordering_graph.cc | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/simulation/ordering/ordering_graph.cc b/src/simulation/ordering/ordering_graph.cc
index fa553f4..112723b 100644
--- a/src/simulation/ordering/ordering_graph.cc
+++ b/src/simulation/ordering/ordering_graph.cc
@@ -219,13 +219,15 @@ std::span<const ordering_node> ordering_graph::trip_nodes(
 }
 
 ordering_node const& ordering_node::next(ordering_graph const& og) const {
+  // the nodes of a trip have consecutive ids, whereas the order of the
+  // outgoing edges does not say which one of them leads to the same trip
   utls::sasserts([this, &og] {
-    utls::sassert(!out_.empty(), "no next node");
-    auto const& next = og.nodes_[out_.front()];
+    utls::sassert(id_ + 1 < og.nodes_.size(), "no next node");
+    auto const& next = og.nodes_[id_ + 1];
     utls::sassert(next.train_id_ == train_id_, "next node not same train");
   });
 
-  return og.nodes_[out_.front()];
+  return og.nodes_[id_ + 1];
 }
 
 }  // namespace soro::simulation
\ No newline at end of file
-- 
2.43.0


From 5c744e5ce446442b531e94648fd42b468da01bb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:00 +0000
Subject: [PATCH 29/56] fix: ordering graph: order usages beginning at the same
 time by their ids

---
 src/simulation/ordering/ordering_graph.cc | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/simulation/ordering/ordering_graph.cc b/src/simulation/ordering/ordering_graph.cc
index 112723b..2328221 100644
--- a/src/simulation/ordering/ordering_graph.cc
+++ b/src/simulation/ordering/ordering_graph.cc
@@ -1,5 +1,7 @@
 #include "soro/simulation/ordering/ordering_graph.h"
 
+#include <tuple>
+
 #include "range/v3/range/conversion.hpp"
 #include "range/v3/view/filter.hpp"
 #include "range/v3/view/transform.hpp"
@@ -182,17 +184,16 @@ ordering_graph::ordering_graph(infra::infrastructure const& infra,
 
   utl::parallel_for(orderings, [](auto&& usage_order) {
     utls::sort(usage_order, [](auto&& usage1, auto&& usage2) {
-      return usage1.from_ < usage2.from_;
+      // usages beginning at the same time must be ordered in the same way in
+      // every exclusion set, otherwise they could form a cycle
+      return std::tie(usage1.from_, usage1.id_) <
+             std::tie(usage2.from_, usage2.id_);
     });
   });
 
   // create edges according to the sorted orderings
   for (auto const& usage_order : orderings) {
     for (auto [from, to] : utl::pairwise(usage_order)) {
-      // if the .from timestamps for the orderings are equal then we are just
-      // betting that we don't introduce a cycle into the ordering graph
-      //      utls::sassert(from.from_ != to.from_, "from and to are equal");
-
       nodes_[from.id_].out_.emplace_back(to.id_);
       nodes_[to.id_].in_.emplace_back(from.id_);
     }
-- 
2.43.0


From 5deadd4bd8714757dda367bbf67c57881a4e7563 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:35 +0000
Subject: [PATCH 30/56] fix: keep a place for every station when the
 coordinates file is missing

parse_station_coords returned an empty vector when the file does not exist,
while its caller computes a layout over one entry per station.
---
 src/infrastructure/parsers/parse_station_coords.cc | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/infrastructure/parsers/parse_station_coords.cc b/src/infrastructure/parsers/parse_station_coords.cc
index c15d047..812a6a5 100644
--- a/src/infrastructure/parsers/parse_station_coords.cc
+++ b/src/infrastructure/parsers/parse_station_coords.cc
@@ -18,14 +18,14 @@ using namespace soro::utls;
 soro::vector<gps> parse_station_coords(
     std::filesystem::path const& gps_path,
     soro::map<soro::string, station::ptr> const& ds100_to_station) {
+  soro::vector<gps> station_coords(
+      static_cast<uint32_t>(ds100_to_station.size()));
+
   if (!std::filesystem::exists(gps_path)) {
     uLOG(warn) << "GPS coordinate path '" << gps_path << "' does not exist.";
-    return {};
+    return station_coords;
   }
 
-  soro::vector<gps> station_coords(
-      static_cast<uint32_t>(ds100_to_station.size()));
-
   auto const gps_content = utls::read_file_to_string(gps_path);
 
   struct row {
-- 
2.43.0


From 16ec5c79a8888261453b375bebaf5bb800ad76f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:23:21 +0000
Subject: [PATCH 31/56] fix: server: answer 404 for elements that do not exist

---
 web/server/src/modules/infrastructure/serve_element.cc | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/web/server/src/modules/infrastructure/serve_element.cc b/web/server/src/modules/infrastructure/serve_element.cc
index 564aeab..ae09506 100644
--- a/web/server/src/modules/infrastructure/serve_element.cc
+++ b/web/server/src/modules/infrastructure/serve_element.cc
@@ -46,6 +46,13 @@ net::web_server::string_res_t infrastructure_module::serve_element(
   }
 
   auto const e_id = utls::parse_int<element_id>(req.path_params_[1]);
+  if (e_id >= (**infra)->graph_.elements_.size()) {
+    uLOG(utl::warn) << "requesting element with id " << e_id
+                    << " but there are only "
+                    << (**infra)->graph_.elements_.size() << " elements";
+    return net::not_found_response(req);
+  }
+
   auto const& element = (**infra)->graph_.elements_[e_id];
 
   json_archive archive;
-- 
2.43.0


From 7cae65e581adf86f3c47166ab05249dc624ee47f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:23:21 +0000
Subject: [PATCH 32/56] fix: server: answer 404 for exclusion sets that do not
 exist

---
 .../src/modules/infrastructure/serve_exclusion_set.cc     | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/web/server/src/modules/infrastructure/serve_exclusion_set.cc b/web/server/src/modules/infrastructure/serve_exclusion_set.cc
index c775048..75646eb 100644
--- a/web/server/src/modules/infrastructure/serve_exclusion_set.cc
+++ b/web/server/src/modules/infrastructure/serve_exclusion_set.cc
@@ -21,6 +21,14 @@ net::web_server::string_res_t infrastructure_module::serve_exclusion_set(
   }
 
   auto const es_id = utls::parse_int<exclusion_set::id>(req.path_params_[1]);
+  if (es_id >= (**infra)->exclusion_.exclusion_sets_.size()) {
+    uLOG(utl::warn) << "requesting exclusion set with id " << es_id
+                    << " but there are only "
+                    << (**infra)->exclusion_.exclusion_sets_.size()
+                    << " exclusion sets";
+    return net::not_found_response(req);
+  }
+
   auto const& es = (**infra)->exclusion_.exclusion_sets_[es_id];
 
   json_archive archive;
-- 
2.43.0


From 9950b4dbc1c9034ee207dbe752907976077c05ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:24:34 +0000
Subject: [PATCH 33/56] fix: server: answer 404 when asked for the timetables
 of an unknown infrastructure

---
 web/server/src/modules/timetable/serve_timetable_names.cc | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/web/server/src/modules/timetable/serve_timetable_names.cc b/web/server/src/modules/timetable/serve_timetable_names.cc
index c3744a9..f8cde33 100644
--- a/web/server/src/modules/timetable/serve_timetable_names.cc
+++ b/web/server/src/modules/timetable/serve_timetable_names.cc
@@ -1,5 +1,7 @@
 #include "soro/server/modules/timetable/timetable_module.h"
 
+#include "net/web_server/responses.h"
+
 #include "soro/server/cereal/cereal_extern.h"
 #include "soro/server/cereal/json_archive.h"
 
@@ -7,7 +9,11 @@ namespace soro::server {
 
 net::web_server::string_res_t timetable_module::serve_timetable_names(
     net::query_router::route_request const& req) const {
-  auto const& context = this->contexts_.at(req.path_params_.front());
+  auto const context_it = contexts_.find(req.path_params_.front());
+  if (context_it == std::end(contexts_)) {
+    return net::not_found_response(req);
+  }
+  auto const& context = context_it->second;
 
   json_archive archive;
   archive.add()(cereal::make_nvp("timetables",
-- 
2.43.0


From 497147c9db862db2933a99b47f1a1c395ec2881e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:24:34 +0000
Subject: [PATCH 34/56] fix: server: leave out the limit of elements that end a
 speed limit

---
 web/server/src/modules/infrastructure/serve_element.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/web/server/src/modules/infrastructure/serve_element.cc b/web/server/src/modules/infrastructure/serve_element.cc
index ae09506..7279070 100644
--- a/web/server/src/modules/infrastructure/serve_element.cc
+++ b/web/server/src/modules/infrastructure/serve_element.cc
@@ -27,7 +27,10 @@ void add_data_to_cereal_archive(Archive& archive, element_data_t const& ed) {
         archive(cereal::make_nvp("id_op", halt.identifier_operational_));
       },
       [&](speed_limit const& limit) {
-        archive(cereal::make_nvp("limit", si::as_km_h(limit.limit_)));
+        // the end of a special speed limit has no limit of its own
+        if (si::valid(limit.limit_)) {
+          archive(cereal::make_nvp("limit", si::as_km_h(limit.limit_)));
+        }
         archive(cereal::make_nvp("point_of_activation", limit.poa_));
       },
       [&](main_signal const& ms) {
-- 
2.43.0


From 3cb8dd29af109c96c6016cadd49ce637762f4642 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:31:43 +0000
Subject: [PATCH 35/56] fix: server: search for halts under their own
 identifiers

---
 web/server/src/modules/search/search_module.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/web/server/src/modules/search/search_module.cc b/web/server/src/modules/search/search_module.cc
index ec359e4..b119e69 100644
--- a/web/server/src/modules/search/search_module.cc
+++ b/web/server/src/modules/search/search_module.cc
@@ -107,12 +107,12 @@ search_module::context get_search_context(infra::infrastructure const& infra) {
       }
 
       if (!data.identifier_extern_.empty()) {
-        std::string const name(data.identifier_operational_);
-        ctx.results_.push_back({type, name, bb, id});
+        std::string const name(data.identifier_extern_);
+        ctx.results_.push_back({type, name, bb, id, type_str});
       }
 
       if (!data.identifier_operational_.empty()) {
-        std::string const name(data.identifier_extern_);
+        std::string const name(data.identifier_operational_);
         ctx.results_.push_back({type, name, bb, id, type_str});
       }
     }
-- 
2.43.0


From 6690236b66552bff5dd7de2912e0dbd532ed444f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:00:02 +0000
Subject: [PATCH 36/56] fix: server: the distance of two elements at the same
 place is a number

Rounding lets the sum of the squared sine and cosine of about every hundredth
latitude exceed one, acos() of it and then every coordinate of the drawn
connection was not a number, and the exported map not valid.
---
 web/server/src/modules/tiles/osm_export/interpolation.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/web/server/src/modules/tiles/osm_export/interpolation.cc b/web/server/src/modules/tiles/osm_export/interpolation.cc
index 9a7fd32..0f00e6e 100644
--- a/web/server/src/modules/tiles/osm_export/interpolation.cc
+++ b/web/server/src/modules/tiles/osm_export/interpolation.cc
@@ -1,5 +1,7 @@
 #include "soro/server/modules/tiles/osm_export/interpolation.h"
 
+#include <algorithm>
+
 #include "soro/utls/coordinates/angle.h"
 #include "soro/utls/coordinates/cartesian.h"
 #include "soro/utls/coordinates/gps.h"
@@ -59,7 +61,7 @@ gps get_auxiliary_point(element_ptr e1, element_ptr e2,
     dist = sin(to_rad(e1_gps.lat_)) * sin(to_rad(e2_gps.lat_)) +
            cos(to_rad(e1_gps.lat_)) * cos(to_rad(e2_gps.lat_)) *
                cos(to_rad(e1_gps.lon_ - e2_gps.lon_));
-    dist = acos(dist);
+    dist = acos(std::min(dist, 1.0));
     dist = (EARTH_RADIUS / 1000.0 * PI * dist) / 180.0F;
     double units = 0.2 * dist;
 
-- 
2.43.0


From a8791b9b09ca47bbb332251e6285fc9c5e95722d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:47:07 +0000
Subject: [PATCH 37/56] fix: client: no timetable is not a timetable to ask the
 server for

---
 web/client/src/stores/sidebar-store.ts | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/web/client/src/stores/sidebar-store.ts b/web/client/src/stores/sidebar-store.ts
index c145971..e819e6e 100644
--- a/web/client/src/stores/sidebar-store.ts
+++ b/web/client/src/stores/sidebar-store.ts
@@ -200,6 +200,11 @@ export const SidebarStore: Module<SidebarState, GlobalState> = {
         return;
       }
 
+      if (!timetableName) {
+        commit('setCurrentTimetable', undefined);
+        return;
+      }
+
       rootState.soroClient
         .infrastructure(state.currentInfrastructure)
         .timetable(timetableName)
-- 
2.43.0


From 73c3e7170e70052b234b019a3d9fbee738a0e8c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:47:07 +0000
Subject: [PATCH 38/56] fix: client: the timetables offered are those of the
 selected infrastructure

---
 web/client/src/stores/sidebar-store.ts | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/web/client/src/stores/sidebar-store.ts b/web/client/src/stores/sidebar-store.ts
index e819e6e..2e70258 100644
--- a/web/client/src/stores/sidebar-store.ts
+++ b/web/client/src/stores/sidebar-store.ts
@@ -180,9 +180,10 @@ export const SidebarStore: Module<SidebarState, GlobalState> = {
       commit('deleteHighlightedInterlockingRoute', routeId);
     },
 
-    loadInfrastructure({ commit, rootState }, infrastructureName) {
+    loadInfrastructure({ commit, rootState, state }, infrastructureName) {
       commit('setCurrentInfrastructure', infrastructureName);
       commit('setCurrentTimetable', undefined);
+      commit('setTimetables', []);
 
       if (!infrastructureName) {
         return;
@@ -191,7 +192,11 @@ export const SidebarStore: Module<SidebarState, GlobalState> = {
       rootState.soroClient
         .infrastructure(infrastructureName)
         .timetables()
-        .then((response) => commit('setTimetables', response.timetables))
+        .then((response) => {
+          if (state.currentInfrastructure === infrastructureName) {
+            commit('setTimetables', response.timetables);
+          }
+        })
         .catch(console.error);
     },
 
-- 
2.43.0


From 2d5daf56c04b76c4aafc69c5c2404606bba991b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:47:07 +0000
Subject: [PATCH 39/56] fix: client: a late answer about another timetable does
 not set the range

---
 web/client/src/stores/sidebar-store.ts | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/web/client/src/stores/sidebar-store.ts b/web/client/src/stores/sidebar-store.ts
index 2e70258..9958d20 100644
--- a/web/client/src/stores/sidebar-store.ts
+++ b/web/client/src/stores/sidebar-store.ts
@@ -210,11 +210,20 @@ export const SidebarStore: Module<SidebarState, GlobalState> = {
         return;
       }
 
+      const infrastructureName = state.currentInfrastructure;
+
       rootState.soroClient
-        .infrastructure(state.currentInfrastructure)
+        .infrastructure(infrastructureName)
         .timetable(timetableName)
         .get()
         .then((response) => {
+          if (
+            state.currentInfrastructure !== infrastructureName ||
+            state.currentTimetable !== timetableName
+          ) {
+            return;
+          }
+
           commit('setCurrentDateRange', [
             response.timetable.interval.start,
             response.timetable.interval.end
-- 
2.43.0


From 02accdd0cc025ed67c362538ec940b7693a7464d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:47:07 +0000
Subject: [PATCH 40/56] fix: client: only the chosen routes of the selected
 infrastructure are highlighted

---
 web/client/src/stores/sidebar-store.ts | 50 +++++++++++++++++++++++---
 1 file changed, 46 insertions(+), 4 deletions(-)

diff --git a/web/client/src/stores/sidebar-store.ts b/web/client/src/stores/sidebar-store.ts
index 9958d20..c156acc 100644
--- a/web/client/src/stores/sidebar-store.ts
+++ b/web/client/src/stores/sidebar-store.ts
@@ -26,6 +26,9 @@ export type SidebarState = {
   currentStation?: number;
   highlightedStationRoutes: GeoJSONFeature[];
   highlightedInterlockingRoutes: GeoJSONFeature[];
+  // routes to highlight, whether they have been fetched yet or not
+  requestedStationRoutes?: number[];
+  requestedInterlockingRoutes?: number[];
   // dev tools state
   trainIdsFilter: number[];
 };
@@ -69,6 +72,8 @@ export const SidebarStore: Module<SidebarState, GlobalState> = {
       // map state
       highlightedStationRoutes: [],
       highlightedInterlockingRoutes: [],
+      requestedStationRoutes: [],
+      requestedInterlockingRoutes: [],
       // dev tools state:
       trainIdsFilter: []
     };
@@ -111,21 +116,41 @@ export const SidebarStore: Module<SidebarState, GlobalState> = {
       state.currentStation = currentStation;
     },
 
+    clearHighlightedRoutes(state) {
+      state.highlightedStationRoutes = [];
+      state.highlightedInterlockingRoutes = [];
+      state.requestedStationRoutes = [];
+      state.requestedInterlockingRoutes = [];
+    },
+
+    requestStationRoute(state, routeId: number) {
+      state.requestedStationRoutes?.push(routeId);
+    },
+
     addHighlightedStationRoute(state, route: GeoJSONFeature) {
       state.highlightedStationRoutes.push(route);
     },
 
     deleteHighlightedStationRoute(state, routeId: number) {
+      state.requestedStationRoutes = state.requestedStationRoutes?.filter(
+        (id) => id !== routeId
+      );
       state.highlightedStationRoutes = state.highlightedStationRoutes.filter(
         (route) => route.properties.id !== routeId
       );
     },
 
+    requestInterlockingRoute(state, routeId: number) {
+      state.requestedInterlockingRoutes?.push(routeId);
+    },
+
     addHighlightedInterlockingRoute(state, route: GeoJSONFeature) {
       state.highlightedInterlockingRoutes.push(route);
     },
 
     deleteHighlightedInterlockingRoute(state, routeId: number) {
+      state.requestedInterlockingRoutes =
+        state.requestedInterlockingRoutes?.filter((id) => id !== routeId);
       state.highlightedInterlockingRoutes =
         state.highlightedInterlockingRoutes.filter(
           (route) => route.properties.id !== routeId
@@ -150,11 +175,19 @@ export const SidebarStore: Module<SidebarState, GlobalState> = {
         return;
       }
 
+      const infrastructureName = state.currentInfrastructure;
+      commit('requestStationRoute', routeId);
+
       const route = await rootState.soroClient
-        .infrastructure(state.currentInfrastructure)
+        .infrastructure(infrastructureName)
         .stationRoute(routeId);
 
-      commit('addHighlightedStationRoute', routeToGeoJSON(route));
+      if (
+        state.currentInfrastructure === infrastructureName &&
+        state.requestedStationRoutes?.includes(routeId)
+      ) {
+        commit('addHighlightedStationRoute', routeToGeoJSON(route));
+      }
     },
 
     deleteHighlightedStationRoute({ commit }, routeId) {
@@ -169,11 +202,19 @@ export const SidebarStore: Module<SidebarState, GlobalState> = {
         return;
       }
 
+      const infrastructureName = state.currentInfrastructure;
+      commit('requestInterlockingRoute', routeId);
+
       const route = await rootState.soroClient
-        .infrastructure(state.currentInfrastructure)
+        .infrastructure(infrastructureName)
         .interlockingRoute(routeId);
 
-      commit('addHighlightedInterlockingRoute', routeToGeoJSON(route));
+      if (
+        state.currentInfrastructure === infrastructureName &&
+        state.requestedInterlockingRoutes?.includes(routeId)
+      ) {
+        commit('addHighlightedInterlockingRoute', routeToGeoJSON(route));
+      }
     },
 
     deleteHighlightedInterlockingRoute({ commit }, routeId) {
@@ -184,6 +225,7 @@ export const SidebarStore: Module<SidebarState, GlobalState> = {
       commit('setCurrentInfrastructure', infrastructureName);
       commit('setCurrentTimetable', undefined);
       commit('setTimetables', []);
+      commit('clearHighlightedRoutes');
 
       if (!infrastructureName) {
         return;
-- 
2.43.0


From 242aa8d56aff50b329ad1419bb82d87d3939a086 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:47:07 +0000
Subject: [PATCH 41/56] fix: client: the results of an earlier query do not
 replace those of the current one

---
 .../components/sidebar/search/extended-search.vue    | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/web/client/src/components/sidebar/search/extended-search.vue b/web/client/src/components/sidebar/search/extended-search.vue
index e853f78..4bc08bf 100644
--- a/web/client/src/components/sidebar/search/extended-search.vue
+++ b/web/client/src/components/sidebar/search/extended-search.vue
@@ -92,11 +92,13 @@ export default defineComponent({
     currentQuery: string;
     validSearchTypes: typeof validSearchTypes;
     currentSearchTypes: string[];
+    requests: number;
   } {
     return {
       currentQuery: '',
       validSearchTypes,
-      currentSearchTypes: [ElementType.STATION, ElementType.HALT]
+      currentSearchTypes: [ElementType.STATION, ElementType.HALT],
+      requests: 0
     };
   },
 
@@ -111,7 +113,13 @@ export default defineComponent({
 
   watch: {
     async currentQuery(newText: string) {
-      this.setCurrentSearchResults(await this.search(newText));
+      const request = ++this.requests;
+      const results = await this.search(newText);
+
+      // the query could have been changed while waiting for the results
+      if (request === this.requests) {
+        this.setCurrentSearchResults(results);
+      }
     }
   },
 
-- 
2.43.0


From 1885cee13f98c5815ca515a36b154d87b8f733c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:47:07 +0000
Subject: [PATCH 42/56] fix: client: the details of an earlier station do not
 replace those of the current one

---
 web/client/src/components/sidebar/station/station.vue | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/web/client/src/components/sidebar/station/station.vue b/web/client/src/components/sidebar/station/station.vue
index 4fabbd3..e73a723 100644
--- a/web/client/src/components/sidebar/station/station.vue
+++ b/web/client/src/components/sidebar/station/station.vue
@@ -53,12 +53,13 @@ import { GeoJSONFeature } from 'maplibre-gl';
 export default defineComponent({
   name: 'SidebarStation',
 
-  data(): Station {
+  data(): Station & { requests: number } {
     return {
       id: -1,
       ds100: '',
       stationRoutes: [],
-      interlockingRouteIds: []
+      interlockingRouteIds: [],
+      requests: 0
     };
   },
 
@@ -92,10 +93,16 @@ export default defineComponent({
     ]),
 
     async fetchStation(stationId: number) {
+      const request = ++this.requests;
       const station = await this.$store.state.soroClient
         .infrastructure(this.currentInfrastructure)
         .station(stationId);
 
+      // another station could have been selected in the meantime
+      if (request !== this.requests) {
+        return;
+      }
+
       this.id = station.id;
       this.ds100 = station.ds100;
       this.stationRoutes = station.stationRoutes;
-- 
2.43.0


From 981cff9d23e7a83f2ae4b811d24d1a81ff535937 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:47:07 +0000
Subject: [PATCH 43/56] fix: client: the ordering graph drawn is the one
 requested last

---
 web/client/src/components/ordering/ordering-graph.vue | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/web/client/src/components/ordering/ordering-graph.vue b/web/client/src/components/ordering/ordering-graph.vue
index afafe80..c3b6e5c 100644
--- a/web/client/src/components/ordering/ordering-graph.vue
+++ b/web/client/src/components/ordering/ordering-graph.vue
@@ -30,10 +30,12 @@ export default defineComponent({
   data(): {
     graph: DirectedGraph;
     sigma?: Sigma<DirectedGraph>;
+    requests: number;
   } {
     return {
       graph: new DirectedGraph(),
-      sigma: undefined
+      sigma: undefined,
+      requests: 0
     };
   },
 
@@ -94,6 +96,8 @@ export default defineComponent({
       this.graph.clear();
       this.graph = new DirectedGraph();
 
+      const request = ++this.requests;
+
       const tim: timer = new timer();
       const og = await this.$store.state.soroClient
         .infrastructure(infrastructureName)
@@ -102,6 +106,11 @@ export default defineComponent({
 
       tim.printElapsed('fetched ordering graph');
 
+      // another ordering graph could have been requested in the meantime
+      if (request !== this.requests) {
+        return;
+      }
+
       this.graph.import(og);
 
       tim.printElapsed('imported ordering graph');
-- 
2.43.0


From 418205f5e17c34a54efda3c94351f0430248ea43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:47:07 +0000
Subject: [PATCH 44/56] fix: client: resetting the legend does not hand out the
 initial controls themselves

---
 web/client/src/components/infrastructure/infrastructure-map.vue | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/web/client/src/components/infrastructure/infrastructure-map.vue b/web/client/src/components/infrastructure/infrastructure-map.vue
index 81e9307..791eeb4 100644
--- a/web/client/src/components/infrastructure/infrastructure-map.vue
+++ b/web/client/src/components/infrastructure/infrastructure-map.vue
@@ -223,7 +223,7 @@ export default defineComponent({
     },
 
     resetLegend() {
-      this.checkedControls = initiallyCheckedControls;
+      this.checkedControls = Array.from(initiallyCheckedControls);
       this.saveControls();
       this.setVisibilityOfAllControls();
     },
-- 
2.43.0


From ecfeb1fbbf73c3a422be56ec95361b56b9e63b0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:47:07 +0000
Subject: [PATCH 45/56] fix: client: the box of an earlier infrastructure does
 not move the map

---
 .../src/components/infrastructure/infrastructure-map.vue    | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/web/client/src/components/infrastructure/infrastructure-map.vue b/web/client/src/components/infrastructure/infrastructure-map.vue
index 791eeb4..2c7cab4 100644
--- a/web/client/src/components/infrastructure/infrastructure-map.vue
+++ b/web/client/src/components/infrastructure/infrastructure-map.vue
@@ -339,7 +339,11 @@ export default defineComponent({
         const box = await this.$store.state.soroClient
           .infrastructure(infraName)
           .boundingBox();
-        this.libreGLMap.fitBounds(box.boundingBox);
+
+        // the map could have been replaced in the meantime
+        if (this.currentInfrastructure === infraName) {
+          this.libreGLMap?.fitBounds(box.boundingBox);
+        }
       });
 
       this.libreGLMap.dragPan.enable({
-- 
2.43.0


From 9741112823daf6a4a49a8467f02df133f961c0df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:47:07 +0000
Subject: [PATCH 46/56] fix: client: a new style of the map keeps the routes
 shown and the direction chosen

---
 .../infrastructure/infrastructure-map.vue     | 25 +++++++++++++------
 .../components/infrastructure/map-style.ts    | 20 ++++++++++++---
 2 files changed, 34 insertions(+), 11 deletions(-)

diff --git a/web/client/src/components/infrastructure/infrastructure-map.vue b/web/client/src/components/infrastructure/infrastructure-map.vue
index 2c7cab4..6f5ac6a 100644
--- a/web/client/src/components/infrastructure/infrastructure-map.vue
+++ b/web/client/src/components/infrastructure/infrastructure-map.vue
@@ -169,7 +169,10 @@ export default defineComponent({
         this.libreGLMap.setStyle(
           createInfrastructureMapStyle({
             currentTheme: newTheme.current.value,
-            activatedElements: this.checkedControls
+            activatedElements: this.checkedControls,
+            elementFilter: this.elementFilter(),
+            stationRoutes: this.highlightedStationRoutes,
+            interlockingRoutes: this.highlightedInterlockingRoutes
           })
         );
       },
@@ -258,7 +261,7 @@ export default defineComponent({
       );
     },
 
-    evaluateSpecialLegendControls() {
+    elementFilter(): FilterSpecification | undefined {
       const risingChecked = this.checkedControls.includes(
         SpecialLegendControl.RISING
       );
@@ -266,15 +269,20 @@ export default defineComponent({
         SpecialLegendControl.FALLING
       );
 
-      let filter: FilterSpecification;
       if (!risingChecked && fallingChecked) {
-        filter = ['!', ['get', 'rising']];
+        return ['!', ['get', 'rising']];
       } else if (risingChecked && !fallingChecked) {
-        filter = ['get', 'rising'];
+        return ['get', 'rising'];
       } else if (!risingChecked && !fallingChecked) {
-        filter = ['boolean', false];
+        return ['boolean', false];
       }
 
+      return undefined;
+    },
+
+    evaluateSpecialLegendControls() {
+      const filter = this.elementFilter();
+
       ElementTypes.forEach((elementType) => {
         if (elementType === ElementType.STATION) {
           return;
@@ -323,7 +331,10 @@ export default defineComponent({
         transformRequest: transformUrl,
         style: createInfrastructureMapStyle({
           currentTheme: this.$vuetify.theme.current,
-          activatedElements: this.checkedControls
+          activatedElements: this.checkedControls,
+          elementFilter: this.elementFilter(),
+          stationRoutes: this.highlightedStationRoutes,
+          interlockingRoutes: this.highlightedInterlockingRoutes
         })
       });
 
diff --git a/web/client/src/components/infrastructure/map-style.ts b/web/client/src/components/infrastructure/map-style.ts
index 645e4a9..8736807 100644
--- a/web/client/src/components/infrastructure/map-style.ts
+++ b/web/client/src/components/infrastructure/map-style.ts
@@ -1,15 +1,25 @@
 import { ElementType, ElementTypes } from './element-types';
-import { StyleSpecification } from 'maplibre-gl';
+import {
+  FilterSpecification,
+  GeoJSONFeature,
+  StyleSpecification
+} from 'maplibre-gl';
 import { ThemeDefinition } from 'vuetify';
 
 export const mapLayers = ElementTypes.map((type) => type + '-layer');
 
 export const createInfrastructureMapStyle = ({
   currentTheme,
-  activatedElements
+  activatedElements,
+  elementFilter,
+  stationRoutes = [],
+  interlockingRoutes = []
 }: {
   currentTheme: ThemeDefinition;
   activatedElements: typeof ElementTypes;
+  elementFilter?: FilterSpecification;
+  stationRoutes?: GeoJSONFeature[];
+  interlockingRoutes?: GeoJSONFeature[];
 }) => {
   const style: StyleSpecification = {
     version: 8,
@@ -23,14 +33,14 @@ export const createInfrastructureMapStyle = ({
         type: 'geojson',
         data: {
           type: 'FeatureCollection',
-          features: []
+          features: stationRoutes
         }
       },
       'interlocking-routes': {
         type: 'geojson',
         data: {
           type: 'FeatureCollection',
-          features: []
+          features: interlockingRoutes
         }
       }
     },
@@ -169,6 +179,7 @@ export const createInfrastructureMapStyle = ({
         source: 'osm',
         'source-layer': type,
         type: 'circle',
+        ...(elementFilter ? { filter: elementFilter } : {}),
         minzoom: 13,
         maxzoom: 24,
         paint: {
@@ -188,6 +199,7 @@ export const createInfrastructureMapStyle = ({
         source: 'osm',
         'source-layer': type,
         type: 'symbol',
+        ...(elementFilter ? { filter: elementFilter } : {}),
         minzoom: type === ElementType.HALT ? 10 : 15,
         maxzoom: 24,
         paint: {
-- 
2.43.0


From a851342490200d82be6efd2bc84cce5fc95623b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:28:27 +0000
Subject: [PATCH 47/56] fix: generate-osm: compare the first anchor's upper
 node with the second anchor's lower node

---
 tools/generate-osm/db-utils/find-nodes/find-closest-match.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tools/generate-osm/db-utils/find-nodes/find-closest-match.go b/tools/generate-osm/db-utils/find-nodes/find-closest-match.go
index 66702a5..ab2cb02 100644
--- a/tools/generate-osm/db-utils/find-nodes/find-closest-match.go
+++ b/tools/generate-osm/db-utils/find-nodes/find-closest-match.go
@@ -47,7 +47,7 @@ func findClosestMatch(
 
 	var allPairs = []NodePair{
 		{upNode1, upNode2, distUp1Up2, upDist1, upDist2},
-		{upNode1, downNode1, distUp1Down2, upDist1, downDist2},
+		{upNode1, downNode2, distUp1Down2, upDist1, downDist2},
 		{downNode1, upNode2, distDown1Up2, downDist1, upDist2},
 		{downNode1, downNode2, distDown1Down2, downDist1, downDist2}}
 
-- 
2.43.0


From fea7181f8cf9d00d2c4b1ce8a844615d65bf9ccc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:28:27 +0000
Subject: [PATCH 48/56] fix: generate-osm: of the nodes both anchors lead to
 take the one the distances agree on

---
 .../db-utils/find-nodes/find-new-node.go      | 27 ++++++++++++++-----
 1 file changed, 21 insertions(+), 6 deletions(-)

diff --git a/tools/generate-osm/db-utils/find-nodes/find-new-node.go b/tools/generate-osm/db-utils/find-nodes/find-new-node.go
index 9f7636d..254bd6f 100644
--- a/tools/generate-osm/db-utils/find-nodes/find-new-node.go
+++ b/tools/generate-osm/db-utils/find-nodes/find-new-node.go
@@ -31,11 +31,26 @@ func findNewNode(
 		return nil, errors.Wrap(err2, "insufficient anchor: "+node2.Id)
 	}
 
-	if up1 == up2 || up1 == down2 {
-		return OSMUtil.GetNodeById(osmData, up1)
-	} else if down1 == up2 || down1 == down2 {
-		return OSMUtil.GetNodeById(osmData, down1)
-	} else {
-		return findClosestMatch(osmData, up1, up2, down1, down2, math.Abs(upDist1-dist1), math.Abs(upDist2-dist2), math.Abs(downDist1-dist1), math.Abs(downDist2-dist2))
+	upRest1, downRest1 := math.Abs(upDist1-dist1), math.Abs(downDist1-dist1)
+	upRest2, downRest2 := math.Abs(upDist2-dist2), math.Abs(downDist2-dist2)
+
+	// Both anchors can lead to the same Node in more than one way, as the end of the track may be closer than the desired distance.
+	bestNode, bestRest := "", math.Inf(1)
+	for _, pair := range []struct {
+		node1, node2 string
+		rest         float64
+	}{
+		{up1, up2, upRest1 + upRest2},
+		{up1, down2, upRest1 + downRest2},
+		{down1, up2, downRest1 + upRest2},
+		{down1, down2, downRest1 + downRest2},
+	} {
+		if pair.node1 == pair.node2 && pair.rest < bestRest {
+			bestNode, bestRest = pair.node1, pair.rest
+		}
+	}
+	if bestNode != "" {
+		return OSMUtil.GetNodeById(osmData, bestNode)
 	}
+	return findClosestMatch(osmData, up1, up2, down1, down2, upRest1, upRest2, downRest1, downRest2)
 }
-- 
2.43.0


From 9c885975c9948f5e49eda635e67e5c65e337bb82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:28:27 +0000
Subject: [PATCH 49/56] fix: generate-osm: go on to the other way at a
 head-to-head joint with a new node next to it

---
 tools/generate-osm/db-utils/find-nodes/find-next-way.go | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/tools/generate-osm/db-utils/find-nodes/find-next-way.go b/tools/generate-osm/db-utils/find-nodes/find-next-way.go
index 46776a3..b5d3417 100644
--- a/tools/generate-osm/db-utils/find-nodes/find-next-way.go
+++ b/tools/generate-osm/db-utils/find-nodes/find-next-way.go
@@ -40,8 +40,9 @@ func findNextWay(
 
 	if wayDirUp && index == 0 {
 		waysBeginMatch := GetWayNdRef(firstWay, FirstNdRef) == GetWayNdRef(secondWay, FirstNdRef)
-		firstWayMatchesOldNode := GetWayNdRef(firstWay, SecondNdRef) == oldNode.Id
-		secondWayMatchesOldNode := GetWayNdRef(secondWay, SecondNdRef) == oldNode.Id
+		// new nodes next to the linking node can be part of both ways, then the old node does not tell them apart
+		firstWayMatchesOldNode := GetWayNdRef(firstWay, SecondNdRef) == oldNode.Id && secondWay.Id != runningWay.Id
+		secondWayMatchesOldNode := GetWayNdRef(secondWay, SecondNdRef) == oldNode.Id && firstWay.Id != runningWay.Id
 
 		// More complicated ways, Ways can be "linked" include:
 		// fisrt beginning links with second beginning and first is the way we are currently climbing up, as the second item is the old node
@@ -85,8 +86,8 @@ func findNextWay(
 	firstWayLastMatches := GetWayNdRef(firstWay, LastNdRef) == runningNode.Id
 	secondWayLastMatches := GetWayNdRef(secondWay, LastNdRef) == runningNode.Id
 
-	firstWayMatchesOldNode := GetWayNdRef(firstWay, SecondLastNdRef) == oldNode.Id
-	secondWayMatchesOldNode := GetWayNdRef(secondWay, SecondLastNdRef) == oldNode.Id
+	firstWayMatchesOldNode := GetWayNdRef(firstWay, SecondLastNdRef) == oldNode.Id && secondWay.Id != runningWay.Id
+	secondWayMatchesOldNode := GetWayNdRef(secondWay, SecondLastNdRef) == oldNode.Id && firstWay.Id != runningWay.Id
 
 	// In the downward direction, ways can also be linked via the ends:
 	// End-linkage and coming from first, as second-to-last is known as oldNode
-- 
2.43.0


From c322bd9b039127d05088a1ce7fb9f1a934399794 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:28:27 +0000
Subject: [PATCH 50/56] fix: generate-osm: map the remaining signals after one
 given by two nodes

---
 tools/generate-osm/db-utils/mapper/map-signals.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tools/generate-osm/db-utils/mapper/map-signals.go b/tools/generate-osm/db-utils/mapper/map-signals.go
index c803f54..845eaac 100644
--- a/tools/generate-osm/db-utils/mapper/map-signals.go
+++ b/tools/generate-osm/db-utils/mapper/map-signals.go
@@ -106,7 +106,7 @@ func processHauptsignal(
 					Lat:  matchingSignalNodes[0].Lat,
 					Lon:  matchingSignalNodes[0].Lon,
 				}
-				return nil
+				continue
 			}
 		}
 		conflictingSignalNames[signal.Name.Value] = true
-- 
2.43.0


From 729a15453653dd022890681a8e16f6ea9e501d34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:28:27 +0000
Subject: [PATCH 51/56] fix: generate-osm: do not give up every switch after
 the first one found

---
 tools/generate-osm/db-utils/mapper/map-switches.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tools/generate-osm/db-utils/mapper/map-switches.go b/tools/generate-osm/db-utils/mapper/map-switches.go
index 86e8e42..93c5e73 100644
--- a/tools/generate-osm/db-utils/mapper/map-switches.go
+++ b/tools/generate-osm/db-utils/mapper/map-switches.go
@@ -20,8 +20,8 @@ func FindAndMapAnchorSwitches(
 	foundAnchorCount *int,
 	nodeIdCounter *int,
 ) error {
-	foundSwitch := false
 	for _, switchBegin := range knoten.WeichenAnf {
+		foundSwitch := false
 		for _, node := range osm.Node {
 			if len(node.Tag) == 0 {
 				continue
-- 
2.43.0


From 911d6277872448e738e49b0b9a5328a7a99738c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:28:27 +0000
Subject: [PATCH 52/56] fix: generate-osm: accept an additional OSM file that
 is an XML file

---
 tools/generate-osm/main.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tools/generate-osm/main.go b/tools/generate-osm/main.go
index 5a4c8f6..df01b93 100644
--- a/tools/generate-osm/main.go
+++ b/tools/generate-osm/main.go
@@ -225,7 +225,7 @@ func generateOsm(generateLines bool, mapDB bool, inputFile string, outputFile st
 }
 
 func insertOsm(modifiedOsm osmUtils.Osm, additionalOsmFile string, maxNewNodeID int) (osmUtils.Osm, error) {
-	if additionalOsmFile[:len(additionalOsmFile)-4] != ".xml" {
+	if filepath.Ext(additionalOsmFile) != ".xml" {
 		return osmUtils.Osm{}, errors.New("additional osm file must be an xml file")
 	}
 
-- 
2.43.0


From d3cc11fa86237556afad617a614b2378ee13fcf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:28:27 +0000
Subject: [PATCH 53/56] fix: generate-osm: put the new nodes on the ways of the
 additional OSM file

---
 tools/generate-osm/main.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/tools/generate-osm/main.go b/tools/generate-osm/main.go
index df01b93..3698d94 100644
--- a/tools/generate-osm/main.go
+++ b/tools/generate-osm/main.go
@@ -250,6 +250,7 @@ func insertOsm(modifiedOsm osmUtils.Osm, additionalOsmFile string, maxNewNodeID
 						newNodes[node.Ref] = true
 					}
 				}
+				outputWay.Nd = modifiedWay.Nd
 				outputWay.Tag = modifiedWay.Tag
 			}
 		}
-- 
2.43.0


From b004369c4b4c36a3b4a3ce0f6f4e02472efc0c54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:28:27 +0000
Subject: [PATCH 54/56] fix: generate-osm: replace the nodes of stations by id
 instead of removing nodes while ranging over them

---
 tools/generate-osm/main.go | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/tools/generate-osm/main.go b/tools/generate-osm/main.go
index 3698d94..3483732 100644
--- a/tools/generate-osm/main.go
+++ b/tools/generate-osm/main.go
@@ -198,16 +198,18 @@ func generateOsm(generateLines bool, mapDB bool, inputFile string, outputFile st
 			return errors.Wrap(err, "failed writing stations JSON")
 		}
 
-		for i, node := range outputOsm.Node {
-			value, found := osmUtils.FindTagOnNode(node, "railway")
-
-			if found == nil {
-				if value == "station" || value == "halt" {
-					outputOsm.Node = append(outputOsm.Node[:i], outputOsm.Node[i+1:]...)
-				}
+		// The nodes of the stations replace those of the lines
+		stationNodes := make(map[string]bool)
+		for _, node := range stationHaltOsm.Node {
+			stationNodes[node.Id] = true
+		}
+		outputNodes := stationHaltOsm.Node
+		for _, node := range outputOsm.Node {
+			if !stationNodes[node.Id] {
+				outputNodes = append(outputNodes, node)
 			}
 		}
-		outputOsm.Node = append(outputOsm.Node, stationHaltOsm.Node...)
+		outputOsm.Node = outputNodes
 		osmUtils.SortAndRemoveDuplicatesOsm(&outputOsm)
 		osmData = outputOsm
 	}
-- 
2.43.0


From 8d5f6686188c22f6fd204ba96ab82fc8e1e0fdd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:36:15 +0000
Subject: [PATCH 55/56] fix: export_exclusion_graph: ask for the exclusion
 elements the graph is made of

---
 tools/export_exclusion_graph/src/export_exclusion_graph.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/tools/export_exclusion_graph/src/export_exclusion_graph.cc b/tools/export_exclusion_graph/src/export_exclusion_graph.cc
index e321213..d542f07 100644
--- a/tools/export_exclusion_graph/src/export_exclusion_graph.cc
+++ b/tools/export_exclusion_graph/src/export_exclusion_graph.cc
@@ -69,6 +69,7 @@ int main(int argc, char const** argv) {
   opts.layout_ = false;
   opts.interlocking_ = true;
   opts.exclusions_ = true;
+  opts.exclusion_elements_ = true;
   opts.exclusion_graph_ = true;
 
   infrastructure const infra(opts);
-- 
2.43.0


From 91aacb3933d545d4c1ba663f7f6185a2f551a750 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:36:15 +0000
Subject: [PATCH 56/56] fix: export_exclusion_graph: end a line at the route
 itself, also if it does not exclude itself

---
 tools/export_exclusion_graph/src/export_exclusion_graph.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tools/export_exclusion_graph/src/export_exclusion_graph.cc b/tools/export_exclusion_graph/src/export_exclusion_graph.cc
index d542f07..c04b8f1 100644
--- a/tools/export_exclusion_graph/src/export_exclusion_graph.cc
+++ b/tools/export_exclusion_graph/src/export_exclusion_graph.cc
@@ -38,7 +38,7 @@ void write_out(exclusion_graph const& eg, std::filesystem::path const& out) {
 
   for (auto const [from, node] : utl::enumerate(eg.nodes_)) {
     for (auto const to : node) {
-      if (from == to) {
+      if (to >= from) {
         break;
       }
 
-- 
2.43.0

