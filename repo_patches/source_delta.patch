From 6c61fb30ae249dfd0c17bde8c5dc4cac320d0a04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 20:58:34 +0000
Subject: [PATCH 01/12] fix: keep the value of a narrow field in big-endian
 order

A field declared narrower than its type was read from, and written to, the
wrong end of the object in big-endian order: a u32 declared 2_B read 00 05 as
0x00050000 and wrote 5 as 00 00.
---
 include/field_read/read_impl.hpp   | 13 +++++++-
 include/field_write/write_impl.hpp | 10 ++++++-
 include/stream/byte_order.hpp      | 25 ++++++++++++++++
 single_header/s2s.hpp              | 48 ++++++++++++++++++++++++++++--
 4 files changed, 92 insertions(+), 4 deletions(-)

diff --git a/include/field_read/read_impl.hpp b/include/field_read/read_impl.hpp
index 9e38ec8..b185d47 100644
--- a/include/field_read/read_impl.hpp
+++ b/include/field_read/read_impl.hpp
@@ -124,7 +124,7 @@ constexpr auto read_foreign_buffer(stream& s, T& obj, std::size_t len_to_read) -
 // one, since the constant-sized overload has nothing to bound.
 template <std::endian endianness, std::size_t ceiling = default_max_bytes,
           typename T, input_stream_like stream>
-constexpr auto read_impl(stream& s, T& obj, std::size_t N) -> rw_result {
+constexpr auto read_in_order(stream& s, T& obj, std::size_t N) -> rw_result {
   auto constexpr byte_order = deduce_byte_order<endianness>();
   if constexpr(byte_order == cast_endianness::host) {
     if constexpr(variable_sized_buffer_like<T>)
@@ -140,6 +140,17 @@ constexpr auto read_impl(stream& s, T& obj, std::size_t N) -> rw_result {
   }
 }
 
+template <std::endian endianness, std::size_t ceiling = default_max_bytes,
+          typename T, input_stream_like stream>
+constexpr auto read_impl(stream& s, T& obj, std::size_t N) -> rw_result {
+  auto res = read_in_order<endianness, ceiling>(s, obj, N);
+  if constexpr(integral<T> && endianness == std::endian::big) {
+    if(res)
+      obj = from_leading_bytes(obj, N);
+  }
+  return res;
+}
+
 
 } /* namespace s2s */
 
diff --git a/include/field_write/write_impl.hpp b/include/field_write/write_impl.hpp
index 0d7c730..c4ac55a 100644
--- a/include/field_write/write_impl.hpp
+++ b/include/field_write/write_impl.hpp
@@ -85,7 +85,7 @@ constexpr auto write_foreign_buffer(stream& s, const T& obj, std::size_t len_to_
 }
 
 template <std::endian endianness, typename T, output_stream_like stream>
-constexpr auto write_impl(stream& s, const T& obj, std::size_t N) -> rw_result {
+constexpr auto write_in_order(stream& s, const T& obj, std::size_t N) -> rw_result {
   auto constexpr byte_order = deduce_byte_order<endianness>();
   if constexpr(byte_order == cast_endianness::host) {
     return write_native(s, obj, N);
@@ -97,6 +97,14 @@ constexpr auto write_impl(stream& s, const T& obj, std::size_t N) -> rw_result {
     }
   }
 }
+
+template <std::endian endianness, typename T, output_stream_like stream>
+constexpr auto write_impl(stream& s, const T& obj, std::size_t N) -> rw_result {
+  if constexpr(integral<T> && endianness == std::endian::big)
+    return write_in_order<endianness>(s, to_leading_bytes(obj, N), N);
+  else
+    return write_in_order<endianness>(s, obj, N);
+}
 } /* namespace s2s */
 
 #endif // _WRITE_IMPL_HPP_
diff --git a/include/stream/byte_order.hpp b/include/stream/byte_order.hpp
index a2357e1..e46a000 100644
--- a/include/stream/byte_order.hpp
+++ b/include/stream/byte_order.hpp
@@ -3,6 +3,8 @@
 
 
 #include <bit>
+#include <cstddef>
+#include <type_traits>
 
 #include "../lib/s2s_traits/type_traits.hpp"
 
@@ -25,6 +27,29 @@ constexpr auto byteswap_elements(T& obj) -> void {
 }
 
 
+// A field may occupy fewer bytes than its type. The front `width` bytes of the
+// object are what travels, and in big-endian order those are its most
+// significant ones, so the value has to be moved down after a read and up
+// before a write. Little-endian needs neither: its front bytes are the low ones.
+template <integral T>
+constexpr auto from_leading_bytes(T value, std::size_t width) -> T {
+  if constexpr(sizeof(T) > 1) {
+    if(width > 0 && width < sizeof(T))
+      return static_cast<T>(static_cast<std::make_unsigned_t<T>>(value) >> ((sizeof(T) - width) * 8));
+  }
+  return value;
+}
+
+template <integral T>
+constexpr auto to_leading_bytes(T value, std::size_t width) -> T {
+  if constexpr(sizeof(T) > 1) {
+    if(width > 0 && width < sizeof(T))
+      return static_cast<T>(static_cast<std::make_unsigned_t<T>>(value) << ((sizeof(T) - width) * 8));
+  }
+  return value;
+}
+
+
 enum cast_endianness {
   host = 0,
   foreign = 1
diff --git a/single_header/s2s.hpp b/single_header/s2s.hpp
index f92c679..bd5602a 100644
--- a/single_header/s2s.hpp
+++ b/single_header/s2s.hpp
@@ -3874,6 +3874,8 @@ constexpr auto as_byte_buffer(const T& obj) -> std::array<char, size> {
 #ifndef _BYTE_ORDER_HPP_
 #define _BYTE_ORDER_HPP_
  
+ 
+ 
 namespace s2s {
 // Single-byte elements have no byte order, and fixed_string exposes no
 // iterators, so both fall through untouched. Shared by the read and write
@@ -3892,6 +3894,29 @@ constexpr auto byteswap_elements(T& obj) -> void {
 }
 
 
+// A field may occupy fewer bytes than its type. The front `width` bytes of the
+// object are what travels, and in big-endian order those are its most
+// significant ones, so the value has to be moved down after a read and up
+// before a write. Little-endian needs neither: its front bytes are the low ones.
+template <integral T>
+constexpr auto from_leading_bytes(T value, std::size_t width) -> T {
+  if constexpr(sizeof(T) > 1) {
+    if(width > 0 && width < sizeof(T))
+      return static_cast<T>(static_cast<std::make_unsigned_t<T>>(value) >> ((sizeof(T) - width) * 8));
+  }
+  return value;
+}
+
+template <integral T>
+constexpr auto to_leading_bytes(T value, std::size_t width) -> T {
+  if constexpr(sizeof(T) > 1) {
+    if(width > 0 && width < sizeof(T))
+      return static_cast<T>(static_cast<std::make_unsigned_t<T>>(value) << ((sizeof(T) - width) * 8));
+  }
+  return value;
+}
+
+
 enum cast_endianness {
   host = 0,
   foreign = 1
@@ -4028,7 +4053,7 @@ constexpr auto read_foreign_buffer(stream& s, T& obj, std::size_t len_to_read) -
 // one, since the constant-sized overload has nothing to bound.
 template <std::endian endianness, std::size_t ceiling = default_max_bytes,
           typename T, input_stream_like stream>
-constexpr auto read_impl(stream& s, T& obj, std::size_t N) -> rw_result {
+constexpr auto read_in_order(stream& s, T& obj, std::size_t N) -> rw_result {
   auto constexpr byte_order = deduce_byte_order<endianness>();
   if constexpr(byte_order == cast_endianness::host) {
     if constexpr(variable_sized_buffer_like<T>)
@@ -4044,6 +4069,17 @@ constexpr auto read_impl(stream& s, T& obj, std::size_t N) -> rw_result {
   }
 }
 
+template <std::endian endianness, std::size_t ceiling = default_max_bytes,
+          typename T, input_stream_like stream>
+constexpr auto read_impl(stream& s, T& obj, std::size_t N) -> rw_result {
+  auto res = read_in_order<endianness, ceiling>(s, obj, N);
+  if constexpr(integral<T> && endianness == std::endian::big) {
+    if(res)
+      obj = from_leading_bytes(obj, N);
+  }
+  return res;
+}
+
 
 } /* namespace s2s */
 
@@ -4818,7 +4854,7 @@ constexpr auto write_foreign_buffer(stream& s, const T& obj, std::size_t len_to_
 }
 
 template <std::endian endianness, typename T, output_stream_like stream>
-constexpr auto write_impl(stream& s, const T& obj, std::size_t N) -> rw_result {
+constexpr auto write_in_order(stream& s, const T& obj, std::size_t N) -> rw_result {
   auto constexpr byte_order = deduce_byte_order<endianness>();
   if constexpr(byte_order == cast_endianness::host) {
     return write_native(s, obj, N);
@@ -4830,6 +4866,14 @@ constexpr auto write_impl(stream& s, const T& obj, std::size_t N) -> rw_result {
     }
   }
 }
+
+template <std::endian endianness, typename T, output_stream_like stream>
+constexpr auto write_impl(stream& s, const T& obj, std::size_t N) -> rw_result {
+  if constexpr(integral<T> && endianness == std::endian::big)
+    return write_in_order<endianness>(s, to_leading_bytes(obj, N), N);
+  else
+    return write_in_order<endianness>(s, obj, N);
+}
 } /* namespace s2s */
 
 #endif // _WRITE_IMPL_HPP_
-- 
2.43.0


From 9fbba0cddd2a944b6c845fdc954fd33b6d50475c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:00:52 +0000
Subject: [PATCH 02/12] fix: judge sibling values on write by what goes on the
 wire

Presence predicates, computed sizes and the deductions that cannot be inverted
were evaluated over the stored slot of a derived or frozen sibling, which the
writer overwrites. The writer rejected structs it could write, and accepted
ones whose stream does not read back.
---
 .../computation_from_fields_impl.hpp          | 18 ++--
 include/field_size/field_size_deduce.hpp      |  4 +-
 include/field_write/derived_value.hpp         | 34 ++++++-
 include/field_write/field_writer.hpp          |  8 +-
 .../if_else_ladder/ladder_impl.hpp            | 12 +--
 include/type_deduction/type/type_impl.hpp     | 12 +--
 single_header/s2s.hpp                         | 88 ++++++++++++++-----
 7 files changed, 128 insertions(+), 48 deletions(-)

diff --git a/include/field_compute/computation_from_fields_impl.hpp b/include/field_compute/computation_from_fields_impl.hpp
index 138970d..aed4e8d 100644
--- a/include/field_compute/computation_from_fields_impl.hpp
+++ b/include/field_compute/computation_from_fields_impl.hpp
@@ -2,6 +2,7 @@
 #define _COMPUTATION_FROM_FIELDS_IMPL_HPP_
 
 #include <type_traits>
+#include <utility>
 #include "../lib/metaprog/fixed_string_list.hpp"
 #include "../field/field_accessor.hpp"
 #include "../field_list/field_list.hpp"
@@ -27,7 +28,9 @@ struct is_invocable<callable,
       std::is_invocable_r_v<
         return_type, 
         decltype(callable),
-        decltype(field_value_of<field_accessor<req_fields>>(struct_field_list_t{}))...
+        const std::remove_reference_t<
+          decltype(field_value_of<field_accessor<req_fields>>(std::declval<const struct_field_list_t&>()))
+        >&...
       >;
 };
 
@@ -51,14 +54,19 @@ struct compute_impl;
 // todo: static_vector over fixed_string list?
 template <auto callable, typename R, fixed_string... req_fields>
 struct compute_impl<compute_t<callable, R, fixed_string_list<req_fields...>>>{
-  template <auto metadata, typename... fields>
+  // Either a field list, or the write path's view of one: field_value_of is
+  // what tells the two apart.
+  template <typename field_list>
     requires (can_eval_R_from_fields<
                 callable, 
                 R,
-                struct_field_list_impl<metadata, fields...>,
+                field_list,
                 fixed_string_list<req_fields...>>)
-  constexpr auto operator()(const struct_field_list_impl<metadata, fields...>& flist) const -> R {
-    return callable(field_value_of<field_accessor<req_fields>>(flist)...);
+  constexpr auto operator()(const field_list& flist) const -> R {
+    // A view may hand back a temporary; the callable always sees an lvalue.
+    return [](const auto&... values) -> R {
+      return callable(values...);
+    }(field_value_of<field_accessor<req_fields>>(flist)...);
   }
 };
 } /* namespace s2s */
diff --git a/include/field_size/field_size_deduce.hpp b/include/field_size/field_size_deduce.hpp
index e211532..c891b0a 100644
--- a/include/field_size/field_size_deduce.hpp
+++ b/include/field_size/field_size_deduce.hpp
@@ -31,8 +31,8 @@ struct deduce_field_size<size> {
   using field_size_type =
     compute_t<size_type_of<size>::f, std::size_t, std::remove_cvref_t<decltype(size_type_of<size>::req_field_list)>>;
 
-  template <auto metadata, typename... fields>
-  constexpr auto operator()(const struct_field_list_impl<metadata, fields...>& struct_fields) const -> std::size_t {
+  template <typename field_list>
+  constexpr auto operator()(const field_list& struct_fields) const -> std::size_t {
     return compute_impl<field_size_type>{}(struct_fields);
   }
 };
diff --git a/include/field_write/derived_value.hpp b/include/field_write/derived_value.hpp
index 406cc8c..1c48c48 100644
--- a/include/field_write/derived_value.hpp
+++ b/include/field_write/derived_value.hpp
@@ -167,6 +167,9 @@ inline constexpr bool has_conditional_len_obligation_v =
   has_conditional_len_obligation<target, F>::value;
 
 
+template <typename F>
+struct as_written;
+
 template <typename target, typename F>
 struct verify_conditional_len;
 
@@ -188,7 +191,7 @@ struct verify_conditional_len<target, struct_field_list_impl<metadata, fields...
       if constexpr(conditionally_obligates<fields, target>()) {
         const auto is_active =
           producer.value.has_value() &&
-          compute_impl<typename fields::field_presence_checker>{}(field_list);
+          compute_impl<typename fields::field_presence_checker>{}(as_written<S>{field_list});
         if(is_active && producer.value->size() != value_on_the_wire)
           agreed = false;
       } else if constexpr(union_len_obligation_of<fields, target>::present) {
@@ -304,6 +307,35 @@ private:
     return static_cast<std::size_t>(static_cast<field_type>(v)) == v;
   }
 };
+
+
+// The field list as the reader of the stream will see it. A predicate, a
+// computed size or a type deduction runs over sibling values on both sides, so
+// the writer has to feed it what goes on the wire — for a derived or a frozen
+// field that is not what the slot stores.
+template <auto metadata, typename... fields>
+struct as_written<struct_field_list_impl<metadata, fields...>> {
+  const struct_field_list_impl<metadata, fields...>& field_list;
+};
+
+template <typename field_accessor, auto metadata, typename... fields>
+constexpr auto field_value_of(const as_written<struct_field_list_impl<metadata, fields...>>& written)
+  -> decltype(auto)
+{
+  using S = struct_field_list_impl<metadata, fields...>;
+  constexpr auto field_lookup_res = lookup_field<metadata>(as_sv(field_accessor::field_id));
+  static_assert(field_lookup_res.has_value, "no such field in this field list");
+  using target = meta::type_of<field_lookup_res->id>;
+  const auto& stored = static_cast<const target&>(written.field_list).value;
+  if constexpr(is_derived_target_v<target, S>) {
+    // A derivation that fails has already failed the write at the field itself.
+    return derive_value<target, S>{}(written.field_list).value_or(stored);
+  } else if constexpr(is_frozen_target_v<target, S>) {
+    return (frozen_value_of<target>);
+  } else {
+    return (stored);
+  }
+}
 } /* namespace s2s */
 
 #endif // _DERIVED_VALUE_HPP_
diff --git a/include/field_write/field_writer.hpp b/include/field_write/field_writer.hpp
index b3cdd27..292e0eb 100644
--- a/include/field_write/field_writer.hpp
+++ b/include/field_write/field_writer.hpp
@@ -87,7 +87,7 @@ struct write_field<T, F> {
       // An arbitrary N-ary callable has no inverse, so its source fields stay
       // ordinary data and the size they imply can only be checked against the
       // container, never used to repair it.
-      if(deduce_field_size<field_size>{}(field_list) != value.size())
+      if(deduce_field_size<field_size>{}(as_written<F>{field_list}) != value.size())
         return std::unexpected(error_reason::found_contradicting_length);
     }
     // For a len_from_field size there is nothing to check: the length slot was
@@ -165,7 +165,7 @@ struct write_field<T, F> {
     constexpr auto field_size = T::field_size;
 
     if constexpr(is_computed_size_v<size_type_of<field_size>>) {
-      if(deduce_field_size<field_size>{}(field_list) != value.size())
+      if(deduce_field_size<field_size>{}(as_written<F>{field_list}) != value.size())
         return std::unexpected(error_reason::found_contradicting_length);
     }
     for(const auto& record: value) {
@@ -191,7 +191,7 @@ struct write_field<T, F> {
     // nothing to derive here — only to check that the struct agrees with what
     // the reader will conclude from the very same sibling bytes.
     const auto should_be_present =
-      compute_impl<typename T::field_presence_checker>{}(field_list);
+      compute_impl<typename T::field_presence_checker>{}(as_written<F>{field_list});
     if(should_be_present != value.has_value())
       return std::unexpected(error_reason::validation_failure);
     if(!should_be_present)
@@ -268,7 +268,7 @@ struct write_field<T, F> {
     // alternative can only be checked against what the reader will conclude
     // from the same sibling bytes.
     if constexpr(!discriminant_obligation<T>::present) {
-      auto deduced = deduce_type<guide>{}(field_list);
+      auto deduced = deduce_type<guide>{}(as_written<F>{field_list});
       if(!deduced)
         return std::unexpected(deduced.error());
       if(*deduced != value.index())
diff --git a/include/type_deduction/if_else_ladder/ladder_impl.hpp b/include/type_deduction/if_else_ladder/ladder_impl.hpp
index 00b66c3..cab4b2b 100644
--- a/include/type_deduction/if_else_ladder/ladder_impl.hpp
+++ b/include/type_deduction/if_else_ladder/ladder_impl.hpp
@@ -18,8 +18,8 @@ struct evalaute_ladder_impl;
 
 template <std::size_t idx, typename branch>
 struct evalaute_ladder_impl {
-  template <auto metadata, typename... fields>
-  constexpr auto operator()(const struct_field_list_impl<metadata, fields...>& field_list) const -> 
+  template <typename S>
+  constexpr auto operator()(const S& field_list) const -> 
     type_deduction_idx
   {
     if(compute_impl<typename branch::expression>{}(field_list)) 
@@ -30,9 +30,9 @@ struct evalaute_ladder_impl {
 
 template <typename... branches>
 struct evaluate_ladder_helper {
-  template <auto metadata, typename... fields, std::size_t... idx>
+  template <typename S, std::size_t... idx>
   constexpr auto operator()(
-    const struct_field_list_impl<metadata, fields...>& field_list, 
+    const S& field_list, 
     const std::index_sequence<idx...>&) const 
   -> type_deduction_idx
   {
@@ -48,8 +48,8 @@ struct evaluate_ladder_helper {
 
 template <typename... branches>
 struct evaluate_ladder<type_if_else<branches...>> {
-  template <auto metadata, typename... fields>
-  constexpr auto operator()(const struct_field_list_impl<metadata, fields...>& field_list) const -> 
+  template <typename S>
+  constexpr auto operator()(const S& field_list) const -> 
     type_deduction_res
   {
     auto res = evaluate_ladder_helper<branches...>{}(
diff --git a/include/type_deduction/type/type_impl.hpp b/include/type_deduction/type/type_impl.hpp
index 1ecf9a9..4ab1e42 100644
--- a/include/type_deduction/type/type_impl.hpp
+++ b/include/type_deduction/type/type_impl.hpp
@@ -19,8 +19,8 @@ struct deduce_type;
 // todo constraints compute like
 template <typename eval_expression, typename _switch>
 struct deduce_type<type<eval_expression, _switch>> {
-  template <auto metadata, typename... fields>
-  constexpr auto operator()(const struct_field_list_impl<metadata, fields...>& sfl)
+  template <typename S>
+  constexpr auto operator()(const S& sfl)
     -> std::expected<std::size_t, error_reason> const {
     return evaluate_switch<_switch>{}(compute_impl<eval_expression>{}(sfl)); 
   }
@@ -28,8 +28,8 @@ struct deduce_type<type<eval_expression, _switch>> {
 
 template <fixed_string id, typename _switch>
 struct deduce_type<type<match_field<id>, _switch>> {
-  template <auto metadata, typename... fields>
-  constexpr auto operator()(const struct_field_list_impl<metadata, fields...>& sfl)
+  template <typename S>
+  constexpr auto operator()(const S& sfl)
     -> std::expected<std::size_t, error_reason> const {
     return evaluate_switch<_switch>{}(sfl[field_accessor<id>{}]); 
   }
@@ -38,8 +38,8 @@ struct deduce_type<type<match_field<id>, _switch>> {
 // todo constraints
 template <typename ladder>
 struct deduce_type<type<ladder>> {
-  template <auto metadata, typename... fields>
-  constexpr auto operator()(const struct_field_list_impl<metadata, fields...>& sfl)
+  template <typename S>
+  constexpr auto operator()(const S& sfl)
     -> std::expected<std::size_t, error_reason> const {
     return evaluate_ladder<ladder>{}(sfl);
   }
diff --git a/single_header/s2s.hpp b/single_header/s2s.hpp
index bd5602a..57ae82a 100644
--- a/single_header/s2s.hpp
+++ b/single_header/s2s.hpp
@@ -2989,6 +2989,7 @@ constexpr auto& field_value_of(const struct_field_list_impl<list_metadata, field
 #ifndef _COMPUTATION_FROM_FIELDS_IMPL_HPP_
 #define _COMPUTATION_FROM_FIELDS_IMPL_HPP_
  
+ 
 using namespace s2s_literals;
 
 namespace s2s {
@@ -3008,7 +3009,9 @@ struct is_invocable<callable,
       std::is_invocable_r_v<
         return_type, 
         decltype(callable),
-        decltype(field_value_of<field_accessor<req_fields>>(struct_field_list_t{}))...
+        const std::remove_reference_t<
+          decltype(field_value_of<field_accessor<req_fields>>(std::declval<const struct_field_list_t&>()))
+        >&...
       >;
 };
 
@@ -3032,14 +3035,19 @@ struct compute_impl;
 // todo: static_vector over fixed_string list?
 template <auto callable, typename R, fixed_string... req_fields>
 struct compute_impl<compute_t<callable, R, fixed_string_list<req_fields...>>>{
-  template <auto metadata, typename... fields>
+  // Either a field list, or the write path's view of one: field_value_of is
+  // what tells the two apart.
+  template <typename field_list>
     requires (can_eval_R_from_fields<
                 callable, 
                 R,
-                struct_field_list_impl<metadata, fields...>,
+                field_list,
                 fixed_string_list<req_fields...>>)
-  constexpr auto operator()(const struct_field_list_impl<metadata, fields...>& flist) const -> R {
-    return callable(field_value_of<field_accessor<req_fields>>(flist)...);
+  constexpr auto operator()(const field_list& flist) const -> R {
+    // A view may hand back a temporary; the callable always sees an lvalue.
+    return [](const auto&... values) -> R {
+      return callable(values...);
+    }(field_value_of<field_accessor<req_fields>>(flist)...);
   }
 };
 } /* namespace s2s */
@@ -3078,8 +3086,8 @@ struct deduce_field_size<size> {
   using field_size_type =
     compute_t<size_type_of<size>::f, std::size_t, std::remove_cvref_t<decltype(size_type_of<size>::req_field_list)>>;
 
-  template <auto metadata, typename... fields>
-  constexpr auto operator()(const struct_field_list_impl<metadata, fields...>& struct_fields) const -> std::size_t {
+  template <typename field_list>
+  constexpr auto operator()(const field_list& struct_fields) const -> std::size_t {
     return compute_impl<field_size_type>{}(struct_fields);
   }
 };
@@ -3586,8 +3594,8 @@ struct evalaute_ladder_impl;
 
 template <std::size_t idx, typename branch>
 struct evalaute_ladder_impl {
-  template <auto metadata, typename... fields>
-  constexpr auto operator()(const struct_field_list_impl<metadata, fields...>& field_list) const -> 
+  template <typename S>
+  constexpr auto operator()(const S& field_list) const -> 
     type_deduction_idx
   {
     if(compute_impl<typename branch::expression>{}(field_list)) 
@@ -3598,9 +3606,9 @@ struct evalaute_ladder_impl {
 
 template <typename... branches>
 struct evaluate_ladder_helper {
-  template <auto metadata, typename... fields, std::size_t... idx>
+  template <typename S, std::size_t... idx>
   constexpr auto operator()(
-    const struct_field_list_impl<metadata, fields...>& field_list, 
+    const S& field_list, 
     const std::index_sequence<idx...>&) const 
   -> type_deduction_idx
   {
@@ -3616,8 +3624,8 @@ struct evaluate_ladder_helper {
 
 template <typename... branches>
 struct evaluate_ladder<type_if_else<branches...>> {
-  template <auto metadata, typename... fields>
-  constexpr auto operator()(const struct_field_list_impl<metadata, fields...>& field_list) const -> 
+  template <typename S>
+  constexpr auto operator()(const S& field_list) const -> 
     type_deduction_res
   {
     auto res = evaluate_ladder_helper<branches...>{}(
@@ -3701,8 +3709,8 @@ struct deduce_type;
 // todo constraints compute like
 template <typename eval_expression, typename _switch>
 struct deduce_type<type<eval_expression, _switch>> {
-  template <auto metadata, typename... fields>
-  constexpr auto operator()(const struct_field_list_impl<metadata, fields...>& sfl)
+  template <typename S>
+  constexpr auto operator()(const S& sfl)
     -> std::expected<std::size_t, error_reason> const {
     return evaluate_switch<_switch>{}(compute_impl<eval_expression>{}(sfl)); 
   }
@@ -3710,8 +3718,8 @@ struct deduce_type<type<eval_expression, _switch>> {
 
 template <fixed_string id, typename _switch>
 struct deduce_type<type<match_field<id>, _switch>> {
-  template <auto metadata, typename... fields>
-  constexpr auto operator()(const struct_field_list_impl<metadata, fields...>& sfl)
+  template <typename S>
+  constexpr auto operator()(const S& sfl)
     -> std::expected<std::size_t, error_reason> const {
     return evaluate_switch<_switch>{}(sfl[field_accessor<id>{}]); 
   }
@@ -3720,8 +3728,8 @@ struct deduce_type<type<match_field<id>, _switch>> {
 // todo constraints
 template <typename ladder>
 struct deduce_type<type<ladder>> {
-  template <auto metadata, typename... fields>
-  constexpr auto operator()(const struct_field_list_impl<metadata, fields...>& sfl)
+  template <typename S>
+  constexpr auto operator()(const S& sfl)
     -> std::expected<std::size_t, error_reason> const {
     return evaluate_ladder<ladder>{}(sfl);
   }
@@ -4632,6 +4640,9 @@ inline constexpr bool has_conditional_len_obligation_v =
   has_conditional_len_obligation<target, F>::value;
 
 
+template <typename F>
+struct as_written;
+
 template <typename target, typename F>
 struct verify_conditional_len;
 
@@ -4653,7 +4664,7 @@ struct verify_conditional_len<target, struct_field_list_impl<metadata, fields...
       if constexpr(conditionally_obligates<fields, target>()) {
         const auto is_active =
           producer.value.has_value() &&
-          compute_impl<typename fields::field_presence_checker>{}(field_list);
+          compute_impl<typename fields::field_presence_checker>{}(as_written<S>{field_list});
         if(is_active && producer.value->size() != value_on_the_wire)
           agreed = false;
       } else if constexpr(union_len_obligation_of<fields, target>::present) {
@@ -4769,6 +4780,35 @@ private:
     return static_cast<std::size_t>(static_cast<field_type>(v)) == v;
   }
 };
+
+
+// The field list as the reader of the stream will see it. A predicate, a
+// computed size or a type deduction runs over sibling values on both sides, so
+// the writer has to feed it what goes on the wire — for a derived or a frozen
+// field that is not what the slot stores.
+template <auto metadata, typename... fields>
+struct as_written<struct_field_list_impl<metadata, fields...>> {
+  const struct_field_list_impl<metadata, fields...>& field_list;
+};
+
+template <typename field_accessor, auto metadata, typename... fields>
+constexpr auto field_value_of(const as_written<struct_field_list_impl<metadata, fields...>>& written)
+  -> decltype(auto)
+{
+  using S = struct_field_list_impl<metadata, fields...>;
+  constexpr auto field_lookup_res = lookup_field<metadata>(as_sv(field_accessor::field_id));
+  static_assert(field_lookup_res.has_value, "no such field in this field list");
+  using target = meta::type_of<field_lookup_res->id>;
+  const auto& stored = static_cast<const target&>(written.field_list).value;
+  if constexpr(is_derived_target_v<target, S>) {
+    // A derivation that fails has already failed the write at the field itself.
+    return derive_value<target, S>{}(written.field_list).value_or(stored);
+  } else if constexpr(is_frozen_target_v<target, S>) {
+    return (frozen_value_of<target>);
+  } else {
+    return (stored);
+  }
+}
 } /* namespace s2s */
 
 #endif // _DERIVED_VALUE_HPP_
@@ -4957,7 +4997,7 @@ struct write_field<T, F> {
       // An arbitrary N-ary callable has no inverse, so its source fields stay
       // ordinary data and the size they imply can only be checked against the
       // container, never used to repair it.
-      if(deduce_field_size<field_size>{}(field_list) != value.size())
+      if(deduce_field_size<field_size>{}(as_written<F>{field_list}) != value.size())
         return std::unexpected(error_reason::found_contradicting_length);
     }
     // For a len_from_field size there is nothing to check: the length slot was
@@ -5035,7 +5075,7 @@ struct write_field<T, F> {
     constexpr auto field_size = T::field_size;
 
     if constexpr(is_computed_size_v<size_type_of<field_size>>) {
-      if(deduce_field_size<field_size>{}(field_list) != value.size())
+      if(deduce_field_size<field_size>{}(as_written<F>{field_list}) != value.size())
         return std::unexpected(error_reason::found_contradicting_length);
     }
     for(const auto& record: value) {
@@ -5061,7 +5101,7 @@ struct write_field<T, F> {
     // nothing to derive here — only to check that the struct agrees with what
     // the reader will conclude from the very same sibling bytes.
     const auto should_be_present =
-      compute_impl<typename T::field_presence_checker>{}(field_list);
+      compute_impl<typename T::field_presence_checker>{}(as_written<F>{field_list});
     if(should_be_present != value.has_value())
       return std::unexpected(error_reason::validation_failure);
     if(!should_be_present)
@@ -5138,7 +5178,7 @@ struct write_field<T, F> {
     // alternative can only be checked against what the reader will conclude
     // from the same sibling bytes.
     if constexpr(!discriminant_obligation<T>::present) {
-      auto deduced = deduce_type<guide>{}(field_list);
+      auto deduced = deduce_type<guide>{}(as_written<F>{field_list});
       if(!deduced)
         return std::unexpected(deduced.error());
       if(*deduced != value.index())
-- 
2.43.0


From b434e01e44113550b9fe1eb9c9b2bea5def02c0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:01:14 +0000
Subject: [PATCH 03/12] fix: let one field be both a length and a discriminant

Resolving a match_field went through operator[], which a length target does
not have, so such a schema did not compile.
---
 include/type_deduction/type/type_impl.hpp | 2 +-
 single_header/s2s.hpp                     | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/type_deduction/type/type_impl.hpp b/include/type_deduction/type/type_impl.hpp
index 4ab1e42..1b249a1 100644
--- a/include/type_deduction/type/type_impl.hpp
+++ b/include/type_deduction/type/type_impl.hpp
@@ -31,7 +31,7 @@ struct deduce_type<type<match_field<id>, _switch>> {
   template <typename S>
   constexpr auto operator()(const S& sfl)
     -> std::expected<std::size_t, error_reason> const {
-    return evaluate_switch<_switch>{}(sfl[field_accessor<id>{}]); 
+    return evaluate_switch<_switch>{}(field_value_of<field_accessor<id>>(sfl)); 
   }
 };
 
diff --git a/single_header/s2s.hpp b/single_header/s2s.hpp
index 57ae82a..393469e 100644
--- a/single_header/s2s.hpp
+++ b/single_header/s2s.hpp
@@ -3721,7 +3721,7 @@ struct deduce_type<type<match_field<id>, _switch>> {
   template <typename S>
   constexpr auto operator()(const S& sfl)
     -> std::expected<std::size_t, error_reason> const {
-    return evaluate_switch<_switch>{}(sfl[field_accessor<id>{}]); 
+    return evaluate_switch<_switch>{}(field_value_of<field_accessor<id>>(sfl)); 
   }
 };
 
-- 
2.43.0


From a287fd219fef00833696e45bb41cdce136271306 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:01:14 +0000
Subject: [PATCH 04/12] fix: accept a max_bytes on a container inside maybe

The length-dependency specialization for maybe_field only matched a base field
with the default bound, so a bounded optional container did not compile.
---
 include/field_list/field_list_metadata.hpp | 6 +++---
 single_header/s2s.hpp                      | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/field_list/field_list_metadata.hpp b/include/field_list/field_list_metadata.hpp
index aaf7f2d..ccaa2ab 100644
--- a/include/field_list/field_list_metadata.hpp
+++ b/include/field_list/field_list_metadata.hpp
@@ -75,13 +75,13 @@ struct extract_length_dependencies<
   static constexpr auto value = deps_of(size_type_of<size>::req_field_list);
 };
 
-template <fixed_string id, typename T, auto size, auto constraint, 
+template <fixed_string id, typename T, auto size, auto constraint, auto bound,
           typename present_only_if, typename optional>
 struct extract_length_dependencies<
-  maybe_field<field<id, T, size, constraint>, present_only_if, optional>
+  maybe_field<field<id, T, size, constraint, bound>, present_only_if, optional>
 >
 {
-  using f = field<id, T, size, constraint>;
+  using f = field<id, T, size, constraint, bound>;
   static constexpr auto value = extract_length_dependencies<f>::value;
 };
 
diff --git a/single_header/s2s.hpp b/single_header/s2s.hpp
index 393469e..3f1850c 100644
--- a/single_header/s2s.hpp
+++ b/single_header/s2s.hpp
@@ -2533,13 +2533,13 @@ struct extract_length_dependencies<
   static constexpr auto value = deps_of(size_type_of<size>::req_field_list);
 };
 
-template <fixed_string id, typename T, auto size, auto constraint, 
+template <fixed_string id, typename T, auto size, auto constraint, auto bound,
           typename present_only_if, typename optional>
 struct extract_length_dependencies<
-  maybe_field<field<id, T, size, constraint>, present_only_if, optional>
+  maybe_field<field<id, T, size, constraint, bound>, present_only_if, optional>
 >
 {
-  using f = field<id, T, size, constraint>;
+  using f = field<id, T, size, constraint, bound>;
   static constexpr auto value = extract_length_dependencies<f>::value;
 };
 
-- 
2.43.0


From 3d9fc8f9b5db1752aa5724fed1b2839427d6cfdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:01:14 +0000
Subject: [PATCH 05/12] fix: write a negative match_case value

fits_declared_width compared the sign-extended value against the declared
width, so an alternative matched by a negative case could be read but never
written. The round-trip test below it already covers a full-width slot.
---
 include/field_write/derived_value.hpp | 2 +-
 single_header/s2s.hpp                 | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/field_write/derived_value.hpp b/include/field_write/derived_value.hpp
index 1c48c48..37b8f78 100644
--- a/include/field_write/derived_value.hpp
+++ b/include/field_write/derived_value.hpp
@@ -300,7 +300,7 @@ private:
   static constexpr auto declared_width = deduce_field_size<target::field_size>{}();
 
   static constexpr auto fits_declared_width(std::size_t v) -> bool {
-    if constexpr(declared_width < sizeof(std::size_t)) {
+    if constexpr(declared_width < sizeof(field_type)) {
       if((v >> (declared_width * 8)) != 0)
         return false;
     }
diff --git a/single_header/s2s.hpp b/single_header/s2s.hpp
index 3f1850c..501846c 100644
--- a/single_header/s2s.hpp
+++ b/single_header/s2s.hpp
@@ -4773,7 +4773,7 @@ private:
   static constexpr auto declared_width = deduce_field_size<target::field_size>{}();
 
   static constexpr auto fits_declared_width(std::size_t v) -> bool {
-    if constexpr(declared_width < sizeof(std::size_t)) {
+    if constexpr(declared_width < sizeof(field_type)) {
       if((v >> (declared_width * 8)) != 0)
         return false;
     }
-- 
2.43.0


From a35977b1ea54ea8ecc540f8220a32058e4a21f37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:01:14 +0000
Subject: [PATCH 06/12] fix: compare every byte of a fixed_string

Equality ran over string_view{data()}, which reads past the object when the
bytes off the wire carry no terminator, and ignores bytes behind an embedded
one.
---
 include/lib/containers/fixed_string.hpp | 4 +++-
 single_header/s2s.hpp                   | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/lib/containers/fixed_string.hpp b/include/lib/containers/fixed_string.hpp
index 59bd5a3..565bd7d 100644
--- a/include/lib/containers/fixed_string.hpp
+++ b/include/lib/containers/fixed_string.hpp
@@ -29,8 +29,10 @@ fixed_string(const char (&)[N]) -> fixed_string<N - 1>;
 
 template <std::size_t N1, std::size_t N2>
 constexpr bool operator==(fixed_string<N1> lhs, fixed_string<N2> rhs) {
+  // All N + 1 bytes: a value off the wire need not be terminated, and bytes
+  // behind an embedded terminator are part of it.
   if constexpr(N1 != N2) return false;
-  return std::string_view{lhs.data()} == std::string_view{rhs.data()};
+  else return lhs.value == rhs.value;
 }
 
 template <std::size_t N1, std::size_t N2>
diff --git a/single_header/s2s.hpp b/single_header/s2s.hpp
index 501846c..a8cadf9 100644
--- a/single_header/s2s.hpp
+++ b/single_header/s2s.hpp
@@ -49,8 +49,10 @@ fixed_string(const char (&)[N]) -> fixed_string<N - 1>;
 
 template <std::size_t N1, std::size_t N2>
 constexpr bool operator==(fixed_string<N1> lhs, fixed_string<N2> rhs) {
+  // All N + 1 bytes: a value off the wire need not be terminated, and bytes
+  // behind an embedded terminator are part of it.
   if constexpr(N1 != N2) return false;
-  return std::string_view{lhs.data()} == std::string_view{rhs.data()};
+  else return lhs.value == rhs.value;
 }
 
 template <std::size_t N1, std::size_t N2>
-- 
2.43.0


From f491ffa55e6449c42e949f8f6b70ed335eae56fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:02:54 +0000
Subject: [PATCH 07/12] fix: compare a constraint's operand to the field by
 value

The operand's type is deduced from the literal, so lte{99} on a u32 field
converted the field to int and let 0xffffffff through, and a magic_number of
type u64 matched on the low half only.
---
 .../field_value_constraints.hpp               | 42 +++++++++++++++++++
 single_header/s2s.hpp                         | 42 +++++++++++++++++++
 2 files changed, 84 insertions(+)

diff --git a/include/field_validation/field_value_constraints.hpp b/include/field_validation/field_value_constraints.hpp
index 3b5df3b..26789ab 100644
--- a/include/field_validation/field_value_constraints.hpp
+++ b/include/field_validation/field_value_constraints.hpp
@@ -39,6 +39,29 @@ template <typename T>
 concept inequality_comparable = comparable<T> && 
     (std::is_integral_v<T> || is_fixed_string_v<T>);
 
+// A constraint's operand is deduced from how the schema spells it, so lte{99}
+// holds an int whatever the field's type. An integral field of another type is
+// compared by value rather than converted to the operand's type, which could
+// narrow it or change its sign.
+template <integral A, integral B>
+constexpr bool equals_by_value(A a, B b) {
+  using common = std::common_type_t<A, B>;
+  return static_cast<common>(a) == static_cast<common>(b);
+}
+
+template <integral A, integral B>
+constexpr bool less_by_value(A a, B b) {
+  if constexpr(std::is_signed_v<A> == std::is_signed_v<B>)
+    return a < b;
+  else if constexpr(std::is_signed_v<A>)
+    return a < 0 || static_cast<std::make_unsigned_t<A>>(a) < b;
+  else
+    return b >= 0 && a < static_cast<std::make_unsigned_t<B>>(b);
+}
+
+template <typename U, typename T>
+concept other_integral_than = integral<U> && integral<T> && !std::is_same_v<U, T>;
+
 // Structs for predefined constraints
 template <equality_comparable T>
 struct eq {
@@ -46,6 +69,8 @@ struct eq {
   constexpr eq(T value) : v(value) {}
   constexpr eq() : v{} {}
   constexpr bool operator()(const T& actual_v) const { return actual_v == v; }
+  template <other_integral_than<T> U>
+  constexpr bool operator()(const U& actual_v) const { return equals_by_value(actual_v, v); }
 };
 
 // The one constraint that names a single legal value rather than a set of
@@ -69,6 +94,8 @@ struct neq {
   constexpr neq(T value) : v(value) {}
   constexpr neq() : v{} {}
   constexpr bool operator()(const T& actual_v) const { return actual_v != v; }
+  template <other_integral_than<T> U>
+  constexpr bool operator()(const U& actual_v) const { return !equals_by_value(actual_v, v); }
 };
 
 template <comparable T>
@@ -77,6 +104,8 @@ struct lt {
   constexpr lt(T value) : v(value) {}
   constexpr lt() : v{} {}
   constexpr bool operator()(const T& actual_v) const { return actual_v < v; }
+  template <other_integral_than<T> U>
+  constexpr bool operator()(const U& actual_v) const { return less_by_value(actual_v, v); }
 };
 
 template <comparable T>
@@ -85,6 +114,8 @@ struct gt {
   constexpr gt(T value) : v(value) {}
   constexpr gt() : v{} {}
   constexpr bool operator()(const T& actual_v) const { return actual_v > v; }
+  template <other_integral_than<T> U>
+  constexpr bool operator()(const U& actual_v) const { return less_by_value(v, actual_v); }
 };
 
 template <typename T>
@@ -93,6 +124,8 @@ struct lte {
   constexpr lte(T value) : v(value) {}
   constexpr lte() : v{} {}
   constexpr bool operator()(const T& actual_v) const { return actual_v <= v; }
+  template <other_integral_than<T> U>
+  constexpr bool operator()(const U& actual_v) const { return !less_by_value(v, actual_v); }
 };
 
 template <inequality_comparable T>
@@ -101,6 +134,8 @@ struct gte {
   constexpr gte(T value) : v(value) {}
   constexpr gte() : v{} {}
   constexpr bool operator()(const T& actual_v) const { return actual_v >= v; }
+  template <other_integral_than<T> U>
+  constexpr bool operator()(const U& actual_v) const { return !less_by_value(actual_v, v); }
 };
 
 template <typename T>
@@ -122,6 +157,13 @@ struct any_of {
                      possible_values.end(), 
                      actual_v) != possible_values.end();
   }
+
+  template <other_integral_than<T> U>
+  constexpr bool operator()(const U& actual_v) const {
+    return std::any_of(possible_values.begin(),
+                       possible_values.end(),
+                       [&](T v) { return equals_by_value(actual_v, v); });
+  }
 };
 
 // Range struct
diff --git a/single_header/s2s.hpp b/single_header/s2s.hpp
index a8cadf9..fe4e22d 100644
--- a/single_header/s2s.hpp
+++ b/single_header/s2s.hpp
@@ -861,6 +861,29 @@ template <typename T>
 concept inequality_comparable = comparable<T> && 
     (std::is_integral_v<T> || is_fixed_string_v<T>);
 
+// A constraint's operand is deduced from how the schema spells it, so lte{99}
+// holds an int whatever the field's type. An integral field of another type is
+// compared by value rather than converted to the operand's type, which could
+// narrow it or change its sign.
+template <integral A, integral B>
+constexpr bool equals_by_value(A a, B b) {
+  using common = std::common_type_t<A, B>;
+  return static_cast<common>(a) == static_cast<common>(b);
+}
+
+template <integral A, integral B>
+constexpr bool less_by_value(A a, B b) {
+  if constexpr(std::is_signed_v<A> == std::is_signed_v<B>)
+    return a < b;
+  else if constexpr(std::is_signed_v<A>)
+    return a < 0 || static_cast<std::make_unsigned_t<A>>(a) < b;
+  else
+    return b >= 0 && a < static_cast<std::make_unsigned_t<B>>(b);
+}
+
+template <typename U, typename T>
+concept other_integral_than = integral<U> && integral<T> && !std::is_same_v<U, T>;
+
 // Structs for predefined constraints
 template <equality_comparable T>
 struct eq {
@@ -868,6 +891,8 @@ struct eq {
   constexpr eq(T value) : v(value) {}
   constexpr eq() : v{} {}
   constexpr bool operator()(const T& actual_v) const { return actual_v == v; }
+  template <other_integral_than<T> U>
+  constexpr bool operator()(const U& actual_v) const { return equals_by_value(actual_v, v); }
 };
 
 // The one constraint that names a single legal value rather than a set of
@@ -891,6 +916,8 @@ struct neq {
   constexpr neq(T value) : v(value) {}
   constexpr neq() : v{} {}
   constexpr bool operator()(const T& actual_v) const { return actual_v != v; }
+  template <other_integral_than<T> U>
+  constexpr bool operator()(const U& actual_v) const { return !equals_by_value(actual_v, v); }
 };
 
 template <comparable T>
@@ -899,6 +926,8 @@ struct lt {
   constexpr lt(T value) : v(value) {}
   constexpr lt() : v{} {}
   constexpr bool operator()(const T& actual_v) const { return actual_v < v; }
+  template <other_integral_than<T> U>
+  constexpr bool operator()(const U& actual_v) const { return less_by_value(actual_v, v); }
 };
 
 template <comparable T>
@@ -907,6 +936,8 @@ struct gt {
   constexpr gt(T value) : v(value) {}
   constexpr gt() : v{} {}
   constexpr bool operator()(const T& actual_v) const { return actual_v > v; }
+  template <other_integral_than<T> U>
+  constexpr bool operator()(const U& actual_v) const { return less_by_value(v, actual_v); }
 };
 
 template <typename T>
@@ -915,6 +946,8 @@ struct lte {
   constexpr lte(T value) : v(value) {}
   constexpr lte() : v{} {}
   constexpr bool operator()(const T& actual_v) const { return actual_v <= v; }
+  template <other_integral_than<T> U>
+  constexpr bool operator()(const U& actual_v) const { return !less_by_value(v, actual_v); }
 };
 
 template <inequality_comparable T>
@@ -923,6 +956,8 @@ struct gte {
   constexpr gte(T value) : v(value) {}
   constexpr gte() : v{} {}
   constexpr bool operator()(const T& actual_v) const { return actual_v >= v; }
+  template <other_integral_than<T> U>
+  constexpr bool operator()(const U& actual_v) const { return !less_by_value(actual_v, v); }
 };
 
 template <typename T>
@@ -944,6 +979,13 @@ struct any_of {
                      possible_values.end(), 
                      actual_v) != possible_values.end();
   }
+
+  template <other_integral_than<T> U>
+  constexpr bool operator()(const U& actual_v) const {
+    return std::any_of(possible_values.begin(),
+                       possible_values.end(),
+                       [&](T v) { return equals_by_value(actual_v, v); });
+  }
 };
 
 // Range struct
-- 
2.43.0


From 4c6b2f9384a704ff891c0073c7a303161b5f0ffd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:03:46 +0000
Subject: [PATCH 08/12] fix: fail a write whose value does not fit the declared
 width

Only a derived value was checked. A verified length, or an ordinary value,
wider than its declared slot reached the stream truncated and did not read
back.
---
 include/field_write/field_writer.hpp | 14 ++++++++++++++
 single_header/s2s.hpp                | 14 ++++++++++++++
 2 files changed, 28 insertions(+)

diff --git a/include/field_write/field_writer.hpp b/include/field_write/field_writer.hpp
index 292e0eb..74ff6bc 100644
--- a/include/field_write/field_writer.hpp
+++ b/include/field_write/field_writer.hpp
@@ -2,6 +2,7 @@
 #define _FIELD_WRITER_HPP_
 
 #include <expected>
+#include <type_traits>
 #include <utility>
 #include <variant>
 
@@ -68,8 +69,21 @@ private:
       if(!res)
         return res;
     }
+    if(!fits_declared_width(v))
+      return std::unexpected(error_reason::validation_failure);
     return write_impl<endianness>(s, v, size_to_write);
   }
+
+  // derive_value asks the same of a derived value: a field narrower than its
+  // type must fail rather than reach the stream truncated.
+  static constexpr auto fits_declared_width(const typename T::field_type& v) -> bool {
+    using value_t = typename T::field_type;
+    constexpr auto declared_width = deduce_field_size<T::field_size>{}();
+    if constexpr(integral<value_t> && declared_width < sizeof(value_t))
+      return (static_cast<std::make_unsigned_t<value_t>>(v) >> (declared_width * 8)) == 0;
+    else
+      return true;
+  }
 };
 
 template <variable_sized_field_like T, field_list_like F>
diff --git a/single_header/s2s.hpp b/single_header/s2s.hpp
index fe4e22d..364ad39 100644
--- a/single_header/s2s.hpp
+++ b/single_header/s2s.hpp
@@ -4970,6 +4970,7 @@ constexpr auto write_impl(stream& s, const T& obj, std::size_t N) -> rw_result {
  
  
  
+ 
 namespace s2s {
 template <typename F, typename L>
 struct write_field;
@@ -5022,8 +5023,21 @@ private:
       if(!res)
         return res;
     }
+    if(!fits_declared_width(v))
+      return std::unexpected(error_reason::validation_failure);
     return write_impl<endianness>(s, v, size_to_write);
   }
+
+  // derive_value asks the same of a derived value: a field narrower than its
+  // type must fail rather than reach the stream truncated.
+  static constexpr auto fits_declared_width(const typename T::field_type& v) -> bool {
+    using value_t = typename T::field_type;
+    constexpr auto declared_width = deduce_field_size<T::field_size>{}();
+    if constexpr(integral<value_t> && declared_width < sizeof(value_t))
+      return (static_cast<std::make_unsigned_t<value_t>>(v) >> (declared_width * 8)) == 0;
+    else
+      return true;
+  }
 };
 
 template <variable_sized_field_like T, field_list_like F>
-- 
2.43.0


From f7aadf5daf51e90d103f107683f831a5a390d2a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:03:48 +0000
Subject: [PATCH 09/12] fix: reject a field that depends on itself

A dependency has to be parsed before the field that needs it, and a field is
not parsed before itself.
---
 include/field_list/field_list_metadata.hpp | 2 +-
 single_header/s2s.hpp                      | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/field_list/field_list_metadata.hpp b/include/field_list/field_list_metadata.hpp
index ccaa2ab..81ca1bb 100644
--- a/include/field_list/field_list_metadata.hpp
+++ b/include/field_list/field_list_metadata.hpp
@@ -368,7 +368,7 @@ constexpr bool is_dependencies_resolved(const field_table_t& field_table, const
       for(auto dep_field: dependencies) {
         auto dep_field_info = field_table[dep_field];
         auto dep_field_idx = dep_field_info->occurs_at_idx;
-        if(dep_field_idx > field_idx)
+        if(dep_field_idx >= field_idx)
           return false;
       }
     }
diff --git a/single_header/s2s.hpp b/single_header/s2s.hpp
index 364ad39..cc883fc 100644
--- a/single_header/s2s.hpp
+++ b/single_header/s2s.hpp
@@ -2870,7 +2870,7 @@ constexpr bool is_dependencies_resolved(const field_table_t& field_table, const
       for(auto dep_field: dependencies) {
         auto dep_field_info = field_table[dep_field];
         auto dep_field_idx = dep_field_info->occurs_at_idx;
-        if(dep_field_idx > field_idx)
+        if(dep_field_idx >= field_idx)
           return false;
       }
     }
-- 
2.43.0


From b4bb14437f54cb29b549e55474204df965d8d7a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:03:50 +0000
Subject: [PATCH 10/12] fix: reject a magic_number wider than its type

Every other scalar descriptor requires its width to fit. A magic_number wider
than its type read past the object it is stored in.
---
 include/api/field_descriptors.hpp | 3 ++-
 single_header/s2s.hpp             | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/api/field_descriptors.hpp b/include/api/field_descriptors.hpp
index 8904dcb..2c1e364 100644
--- a/include/api/field_descriptors.hpp
+++ b/include/api/field_descriptors.hpp
@@ -57,7 +57,8 @@ template <fixed_string id, fixed_string expected>
 using magic_string = field<id, fixed_string<expected.size()>, byte_count{expected.size() + 1}, eq{expected}>;
 
 template <fixed_string id, integral T, auto size, auto expected>
-  requires fixed_size_like<size_type_of<size>>
+  requires fixed_size_like<size_type_of<size>> &&
+           field_fits_to_underlying_type<size, T>
 using magic_number = field<id, T, size, eq{expected}>;
 
 // todo how user can provide user defined vector impl or allocator
diff --git a/single_header/s2s.hpp b/single_header/s2s.hpp
index cc883fc..381f11b 100644
--- a/single_header/s2s.hpp
+++ b/single_header/s2s.hpp
@@ -3484,7 +3484,8 @@ template <fixed_string id, fixed_string expected>
 using magic_string = field<id, fixed_string<expected.size()>, byte_count{expected.size() + 1}, eq{expected}>;
 
 template <fixed_string id, integral T, auto size, auto expected>
-  requires fixed_size_like<size_type_of<size>>
+  requires fixed_size_like<size_type_of<size>> &&
+           field_fits_to_underlying_type<size, T>
 using magic_number = field<id, T, size, eq{expected}>;
 
 // todo how user can provide user defined vector impl or allocator
-- 
2.43.0


From 09639d300085a43f85cfbf8590052636a8bd714a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:05:13 +0000
Subject: [PATCH 11/12] fix: cast floating-point values in foreign byte order

std::byteswap takes integrals only, so a schema with a float element compiled
in one byte order and not in the other.
---
 include/field_read/read_impl.hpp   |  2 +-
 include/field_write/write_impl.hpp |  2 +-
 include/stream/byte_order.hpp      | 14 +++++++++++++-
 single_header/s2s.hpp              | 18 +++++++++++++++---
 4 files changed, 30 insertions(+), 6 deletions(-)

diff --git a/include/field_read/read_impl.hpp b/include/field_read/read_impl.hpp
index b185d47..42683eb 100644
--- a/include/field_read/read_impl.hpp
+++ b/include/field_read/read_impl.hpp
@@ -98,7 +98,7 @@ constexpr auto read_foreign_scalar(stream& s, T& obj, std::size_t size_to_read)
   auto res = read_native_impl(s, obj, size_to_read);
   if(res) {
     // todo rollout byteswap if freestanding compiler doesnt provide one
-    obj = std::byteswap(obj);
+    obj = byteswap_scalar(obj);
     return {};
   }
   return res;
diff --git a/include/field_write/write_impl.hpp b/include/field_write/write_impl.hpp
index c4ac55a..6bff423 100644
--- a/include/field_write/write_impl.hpp
+++ b/include/field_write/write_impl.hpp
@@ -54,7 +54,7 @@ template <trivial T, output_stream_like stream>
 constexpr auto write_foreign_scalar(stream& s, const T& obj, std::size_t size_to_write) -> rw_result {
   // The source is const and belongs to the caller, so the swap lands in a
   // stack temporary rather than mutating it in place as the read path does.
-  T swapped = std::byteswap(obj);
+  T swapped = byteswap_scalar(obj);
   return write_native_impl(s, swapped, size_to_write);
 }
 
diff --git a/include/stream/byte_order.hpp b/include/stream/byte_order.hpp
index e46a000..d825ab7 100644
--- a/include/stream/byte_order.hpp
+++ b/include/stream/byte_order.hpp
@@ -4,12 +4,24 @@
 
 #include <bit>
 #include <cstddef>
+#include <cstdint>
 #include <type_traits>
 
 #include "../lib/s2s_traits/type_traits.hpp"
 
 
 namespace s2s {
+// std::byteswap takes integrals only; a float is swapped through its bits.
+template <trivial T>
+constexpr auto byteswap_scalar(T value) -> T {
+  if constexpr(integral<T>) {
+    return std::byteswap(value);
+  } else {
+    using bits = std::conditional_t<sizeof(T) == sizeof(std::uint32_t), std::uint32_t, std::uint64_t>;
+    return std::bit_cast<T>(std::byteswap(std::bit_cast<bits>(value)));
+  }
+}
+
 // Single-byte elements have no byte order, and fixed_string exposes no
 // iterators, so both fall through untouched. Shared by the read and write
 // directions, which is why it lives here rather than beside either one.
@@ -21,7 +33,7 @@ constexpr auto byteswap_elements(T& obj) -> void {
       if constexpr(buffer_like<std::remove_reference_t<decltype(elem)>>)
         byteswap_elements(elem);
       else if constexpr(sizeof(elem) > 1)
-        elem = std::byteswap(elem);
+        elem = byteswap_scalar(elem);
     }
   }
 }
diff --git a/single_header/s2s.hpp b/single_header/s2s.hpp
index 381f11b..c1643bc 100644
--- a/single_header/s2s.hpp
+++ b/single_header/s2s.hpp
@@ -3929,7 +3929,19 @@ constexpr auto as_byte_buffer(const T& obj) -> std::array<char, size> {
  
  
  
+ 
 namespace s2s {
+// std::byteswap takes integrals only; a float is swapped through its bits.
+template <trivial T>
+constexpr auto byteswap_scalar(T value) -> T {
+  if constexpr(integral<T>) {
+    return std::byteswap(value);
+  } else {
+    using bits = std::conditional_t<sizeof(T) == sizeof(std::uint32_t), std::uint32_t, std::uint64_t>;
+    return std::bit_cast<T>(std::byteswap(std::bit_cast<bits>(value)));
+  }
+}
+
 // Single-byte elements have no byte order, and fixed_string exposes no
 // iterators, so both fall through untouched. Shared by the read and write
 // directions, which is why it lives here rather than beside either one.
@@ -3941,7 +3953,7 @@ constexpr auto byteswap_elements(T& obj) -> void {
       if constexpr(buffer_like<std::remove_reference_t<decltype(elem)>>)
         byteswap_elements(elem);
       else if constexpr(sizeof(elem) > 1)
-        elem = std::byteswap(elem);
+        elem = byteswap_scalar(elem);
     }
   }
 }
@@ -4080,7 +4092,7 @@ constexpr auto read_foreign_scalar(stream& s, T& obj, std::size_t size_to_read)
   auto res = read_native_impl(s, obj, size_to_read);
   if(res) {
     // todo rollout byteswap if freestanding compiler doesnt provide one
-    obj = std::byteswap(obj);
+    obj = byteswap_scalar(obj);
     return {};
   }
   return res;
@@ -4908,7 +4920,7 @@ template <trivial T, output_stream_like stream>
 constexpr auto write_foreign_scalar(stream& s, const T& obj, std::size_t size_to_write) -> rw_result {
   // The source is const and belongs to the caller, so the swap lands in a
   // stack temporary rather than mutating it in place as the read path does.
-  T swapped = std::byteswap(obj);
+  T swapped = byteswap_scalar(obj);
   return write_native_impl(s, swapped, size_to_write);
 }
 
-- 
2.43.0


From 19e40ade95b5d405b7db114b6331f105fbe9c6c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:40:03 +0000
Subject: [PATCH 12/12] fix: refuse a byte that is no value of a bool

A bool field took whatever byte the stream held. Any byte but 0 or 1 gave the
caller a bool that is undefined to load; such a byte is now a
validation_failure, like any other value the field cannot have.
---
 include/field_read/read_impl.hpp | 27 +++++++++++++++++++++++++++
 single_header/s2s.hpp            | 27 +++++++++++++++++++++++++++
 2 files changed, 54 insertions(+)

diff --git a/include/field_read/read_impl.hpp b/include/field_read/read_impl.hpp
index 42683eb..92c445e 100644
--- a/include/field_read/read_impl.hpp
+++ b/include/field_read/read_impl.hpp
@@ -33,12 +33,37 @@ constexpr auto checked_byte_count(std::size_t len) -> std::expected<std::size_t,
   return len * sizeof(element);
 }
 
+// Loading a bool that holds any byte but 0 or 1 is undefined, so such a byte is
+// no value of the field and is refused here, before anything can load it.
+template <typename T>
+constexpr auto is_made_of_bools() -> bool {
+  if constexpr(std::is_array_v<T>)
+    return is_made_of_bools<std::remove_extent_t<T>>();
+  else if constexpr(requires { typename T::value_type; })
+    return is_made_of_bools<typename T::value_type>();
+  else
+    return std::is_same_v<T, bool>;
+}
+
+template <typename T>
+constexpr auto is_representation_of([[maybe_unused]] const char* bytes, [[maybe_unused]] std::size_t count) -> bool {
+  if constexpr(is_made_of_bools<T>()) {
+    for(std::size_t idx = 0; idx < count; ++idx) {
+      if(bytes[idx] != 0 && bytes[idx] != 1)
+        return false;
+    }
+  }
+  return true;
+}
+
 template <typename T, identified_as_constexpr_stream stream>
 constexpr auto read_native_impl(stream& s, T& obj, std::size_t size_to_read) -> rw_result {
   auto as_byte_buffer_rep = as_byte_buffer<stream>(obj);
   if(!s.read(as_byte_buffer_rep, size_to_read)) {
     return std::unexpected(error_reason::buffer_exhaustion);
   }
+  if(!is_representation_of<T>(as_byte_buffer_rep.data(), size_to_read))
+    return std::unexpected(error_reason::validation_failure);
   if constexpr(std::is_array_v<T>) {
     // bit_cast cannot yield a C array — it returns by value. The buffer goes
     // to the equivalent std::array instead and the elements are assigned.
@@ -57,6 +82,8 @@ constexpr auto read_native_impl(stream& s, T& obj, std::size_t size_to_read) ->
   if(!s.read(byte_addressof<stream>(obj), size_to_read)) {
     return std::unexpected(error_reason::buffer_exhaustion);
   }
+  if(!is_representation_of<T>(byte_addressof<stream>(obj), size_to_read))
+    return std::unexpected(error_reason::validation_failure);
   return {};
 }
 
diff --git a/single_header/s2s.hpp b/single_header/s2s.hpp
index c1643bc..383bcef 100644
--- a/single_header/s2s.hpp
+++ b/single_header/s2s.hpp
@@ -4027,12 +4027,37 @@ constexpr auto checked_byte_count(std::size_t len) -> std::expected<std::size_t,
   return len * sizeof(element);
 }
 
+// Loading a bool that holds any byte but 0 or 1 is undefined, so such a byte is
+// no value of the field and is refused here, before anything can load it.
+template <typename T>
+constexpr auto is_made_of_bools() -> bool {
+  if constexpr(std::is_array_v<T>)
+    return is_made_of_bools<std::remove_extent_t<T>>();
+  else if constexpr(requires { typename T::value_type; })
+    return is_made_of_bools<typename T::value_type>();
+  else
+    return std::is_same_v<T, bool>;
+}
+
+template <typename T>
+constexpr auto is_representation_of([[maybe_unused]] const char* bytes, [[maybe_unused]] std::size_t count) -> bool {
+  if constexpr(is_made_of_bools<T>()) {
+    for(std::size_t idx = 0; idx < count; ++idx) {
+      if(bytes[idx] != 0 && bytes[idx] != 1)
+        return false;
+    }
+  }
+  return true;
+}
+
 template <typename T, identified_as_constexpr_stream stream>
 constexpr auto read_native_impl(stream& s, T& obj, std::size_t size_to_read) -> rw_result {
   auto as_byte_buffer_rep = as_byte_buffer<stream>(obj);
   if(!s.read(as_byte_buffer_rep, size_to_read)) {
     return std::unexpected(error_reason::buffer_exhaustion);
   }
+  if(!is_representation_of<T>(as_byte_buffer_rep.data(), size_to_read))
+    return std::unexpected(error_reason::validation_failure);
   if constexpr(std::is_array_v<T>) {
     // bit_cast cannot yield a C array — it returns by value. The buffer goes
     // to the equivalent std::array instead and the elements are assigned.
@@ -4051,6 +4076,8 @@ constexpr auto read_native_impl(stream& s, T& obj, std::size_t size_to_read) ->
   if(!s.read(byte_addressof<stream>(obj), size_to_read)) {
     return std::unexpected(error_reason::buffer_exhaustion);
   }
+  if(!is_representation_of<T>(byte_addressof<stream>(obj), size_to_read))
+    return std::unexpected(error_reason::validation_failure);
   return {};
 }
 
-- 
2.43.0

