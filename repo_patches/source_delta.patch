From d10ce842e54ae3548c874bc9439d0b5c11f4ed32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:01:06 +0000
Subject: [PATCH 01/12] fix: drop repairs older than the window instead of
 moving it backward

A reordered repair which encodes at least one outdated source moved m_last_id
backward: sources already given to the user were decoded and given again.
---
 netcode/detail/decoder.cc | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/netcode/detail/decoder.cc b/netcode/detail/decoder.cc
index 1fd59fb..9316681 100644
--- a/netcode/detail/decoder.cc
+++ b/netcode/detail/decoder.cc
@@ -56,10 +56,11 @@ decoder::operator()(decoder_repair&& incoming_r)
 {
   assert(not incoming_r.source_ids().empty());
 
-  const auto last_id_in_source_ids = *(incoming_r.source_ids().end() - 1);
-  if (m_last_id and last_id_in_source_ids < *m_last_id)
+  const auto first_id_in_source_ids = *incoming_r.source_ids().begin();
+  if (m_last_id and first_id_in_source_ids < *m_last_id)
   {
-    // It's a repair that provide outdated informations, drop it.
+    // It's a repair that provide outdated informations, drop it. It encodes at least one source
+    // which might have been forgotten, and the encoder's window never goes backward.
     return;
   }
 
-- 
2.43.0


From f64ccdeb0bfa6d10fb85ca840b7d5909444941c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:01:26 +0000
Subject: [PATCH 02/12] fix: keep repairs and missing sources consistent when a
 source is rebuilt

A source rebuilt from an incoming repair was not removed from the other repairs
which encode it, corrupting what they rebuild later; the loop which looks for
repairs encoding a single source used an iterator which could have been erased
by the recursive call, and missed sources referenced by several repairs.
---
 netcode/detail/decoder.cc | 70 +++++++++++++++++++++------------------
 1 file changed, 38 insertions(+), 32 deletions(-)

diff --git a/netcode/detail/decoder.cc b/netcode/detail/decoder.cc
index 9316681..a5b61db 100644
--- a/netcode/detail/decoder.cc
+++ b/netcode/detail/decoder.cc
@@ -137,14 +137,16 @@ decoder::operator()(decoder_repair&& incoming_r)
     // Create missing source.
     auto src = create_source_from_repair(r);
 
-    // Source is no longer missing.
-    m_missing_sources.erase(src.id());
+    // Unlink this repair only: other repairs might reference this source, which will be removed from
+    // them by add_source_recursive().
+    m_missing_sources[src.id()].erase(r_cit);
 
     // This repair is no longer needed.
     m_repairs.erase(r_cit);
 
     // This newly decode source might trigger the decoding of several other sources.
     add_source_recursive(std::move(src));
+    attempt_full_decoding();
 
     return;
   }
@@ -270,7 +272,15 @@ decoder::add_source_recursive(decoder_source&& src)
     for (auto r_cit : search->second)
     {
       auto& r = r_cit->second;
-      remove_source_from_repair(src, r);
+      if (r.source_ids().size() == 1)
+      {
+        // This repair encodes only this source, it's now useless.
+        m_repairs.erase(r_cit);
+      }
+      else
+      {
+        remove_source_from_repair(src, r);
+      }
     }
 
     // It's no longer a missing source.
@@ -282,45 +292,41 @@ decoder::add_source_recursive(decoder_source&& src)
   for ( auto miss_cit = m_missing_sources.begin(), miss_end = m_missing_sources.end()
       ; miss_cit != miss_end;)
   {
-    const auto& repairs_cits = miss_cit->second;
-    // Does this missing source is referenced by only one repair?
-    if (repairs_cits.size() == 1)
+    auto& repairs_cits = miss_cit->second;
+    // Is this missing source referenced by a repair which encodes only 1 source?
+    const auto search_r = std::find_if( repairs_cits.begin(), repairs_cits.end()
+                                      , [](const repairs_set_type::iterator& r_cit)
+                                        {
+                                          return r_cit->second.source_ids().size() == 1;
+                                        });
+    if (search_r != repairs_cits.end())
     {
-      // Some shortcuts.
-      const auto r_cit = *repairs_cits.begin();
+      const auto r_cit = *search_r;
       const auto& r = r_cit->second;
 
-      // Does this repair encode only 1 source?
-      if (r.source_ids().size() == 1)
-      {
-        // Check that this source wasn't decoded in the past.
-        assert(m_last_id ? *r.source_ids().begin() >= *m_last_id : true);
-        // Check that this source doesn't belong to the set of current sources.
-        assert(not m_sources.count(*r.source_ids().begin()));
+      // Check that this source wasn't decoded in the past.
+      assert(m_last_id ? *r.source_ids().begin() >= *m_last_id : true);
+      // Check that this source doesn't belong to the set of current sources.
+      assert(not m_sources.count(*r.source_ids().begin()));
 
-        // This missing source is referenced by only 1 repair and this repair references only 1
-        // missing source. Thus, we can reconstruct the missing source.
-        auto decoded_src = create_source_from_repair(r);
+      // This repair references only 1 missing source. Thus, we can reconstruct the missing source.
+      auto decoded_src = create_source_from_repair(r);
 
-        // We can erase this repair.
-        m_repairs.erase(r_cit);
+      // We can erase this repair.
+      repairs_cits.erase(search_r);
+      m_repairs.erase(r_cit);
 
-        // It's no longer a missing source.
-        miss_cit = m_missing_sources.erase(miss_cit);
+      // This newly decoded source might trigger the decoding of other sources. It will be removed
+      // from the set of missing sources and from the other repairs which reference it.
+      add_source_recursive(std::move(decoded_src));
 
-        // This newly decoded source might trigger the decoding of other sources.
-        add_source_recursive(std::move(decoded_src));
-      }
-      else
-      {
-        // This repair encodes too much sources, other sources are needed to reconstruct *miss_cit.
-        // Try next missing source.
-        ++miss_cit;
-      }
+      // Any missing source might have been erased by the recursive call.
+      miss_cit = m_missing_sources.begin();
+      miss_end = m_missing_sources.end();
     }
     else
     {
-      // This missing source is referenced by multiple repairs. Try next missing source.
+      // Other sources are needed to reconstruct *miss_cit. Try next missing source.
       ++miss_cit;
     }
   }
-- 
2.43.0


From cfa29273c944318f3e1907bf310cdb56754b6f58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:01:26 +0000
Subject: [PATCH 03/12] fix: deliver in-order a source which triggers the
 decoding of older ones

Such a source was neither given to the user nor held back, and blocked all
following sources.
---
 netcode/detail/decoder.cc | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/netcode/detail/decoder.cc b/netcode/detail/decoder.cc
index a5b61db..f858776 100644
--- a/netcode/detail/decoder.cc
+++ b/netcode/detail/decoder.cc
@@ -336,10 +336,12 @@ decoder::add_source_recursive(decoder_source&& src)
   const auto insertion = m_sources.emplace(src_id, std::move(src));
   assert(insertion.second && "source already added");
 
-  if (m_in_order and insertion.first->second.id() > m_first_missing_source_in_order)
+  if (m_in_order and insertion.first->second.id() >= m_first_missing_source_in_order)
   {
-    // We can't send the current source as there are some older sources which have not been sent.
+    // We can't send the current source if there are some older sources which have not been sent. If
+    // these older sources were decoded thanks to this source, then it's now its turn.
     m_ordered_sources.emplace(insertion.first->second.id(), &insertion.first->second);
+    flush_ordered_sources();
   }
 }
 
-- 
2.43.0


From a673eb68e01d959fc66547477576e54128c76fdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:14:19 +0000
Subject: [PATCH 04/12] fix: report a redundant column when a matrix can't be
 inverted

The last column was always reported, making the decoder drop a useful repair
and keep a redundant one.
---
 netcode/detail/invert_matrix.cc | 54 ++++++++++++++++++++++++++++++++-
 1 file changed, 53 insertions(+), 1 deletion(-)

diff --git a/netcode/detail/invert_matrix.cc b/netcode/detail/invert_matrix.cc
index fc98d0f..35ad682 100644
--- a/netcode/detail/invert_matrix.cc
+++ b/netcode/detail/invert_matrix.cc
@@ -1,3 +1,4 @@
+#include <algorithm> // swap_ranges
 #include <cassert>
 
 #include "netcode/detail/invert_matrix.hh"
@@ -6,6 +7,57 @@ namespace ntc { namespace detail {
 
 /*------------------------------------------------------------------------------------------------*/
 
+/// @brief Find a column which is a linear combination of the other ones.
+/// @param first The first column without pivot, all columns before it being reduced.
+///
+/// Finish the elimination begun by invert(): there are fewer pivots than columns, so a column
+/// eventually vanishes. Then, @p inv contains how this null column was obtained.
+static
+std::size_t
+redundant_column(galois_field& gf, square_matrix& mat, square_matrix& inv, std::size_t first)
+noexcept
+{
+  const auto dim = mat.dimension();
+  auto pivot = first;
+  for (auto row = first + 1; row < dim; ++row)
+  {
+    auto col = pivot;
+    for (; col < dim and mat(row, col) == 0; ++col)
+    {
+    }
+
+    if (col == dim)
+    {
+      continue;
+    }
+
+    std::swap_ranges(mat.column(col), mat.column(col) + dim, mat.column(pivot));
+    std::swap_ranges(inv.column(col), inv.column(col) + dim, inv.column(pivot));
+
+    const auto inverse = gf.invert(mat(row, pivot));
+    for (col = pivot + 1; col < dim; ++col)
+    {
+      const auto coeff = gf.multiply(mat(row, col), inverse);
+      for (auto k = 0ul; coeff != 0 and k < dim; ++k)
+      {
+        mat(k, col) ^= gf.multiply(coeff, mat(k, pivot));
+        inv(k, col) ^= gf.multiply(coeff, inv(k, pivot));
+      }
+    }
+    ++pivot;
+  }
+
+  // Column pivot is now null, any column used to cancel it can be removed.
+  auto res = dim - 1;
+  while (res > 0 and inv(res, pivot) == 0)
+  {
+    --res;
+  }
+  return res;
+}
+
+/*------------------------------------------------------------------------------------------------*/
+
 boost::optional<std::size_t>
 invert(galois_field& gf, square_matrix& mat, square_matrix& inv)
 noexcept
@@ -40,7 +92,7 @@ noexcept
       if (j == rows)
       {
         // Failure, matrix is not invertible.
-        return {j - 1};
+        return {redundant_column(gf, mat, inv, i)};
       }
 
       const auto row_start2 = j * cols;
-- 
2.43.0


From b5cea6cecbaef924936329c67499106c5b6d66d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:23:22 +0000
Subject: [PATCH 05/12] fix: respect a window size which was reduced below the
 number of held sources

---
 netcode/encoder.hh | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/netcode/encoder.hh b/netcode/encoder.hh
index 7c553fe..c08406f 100644
--- a/netcode/encoder.hh
+++ b/netcode/encoder.hh
@@ -255,7 +255,8 @@ private:
   void
   commit_impl(data&& d)
   {
-    if (m_sources.size() == m_window_size)
+    // The window might have been reduced since the last source.
+    while (m_sources.size() >= m_window_size)
     {
       m_sources.pop_front();
     }
-- 
2.43.0


From c2db5a7d912facfa9ca579ac2020570f5006dfa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:43:04 +0000
Subject: [PATCH 06/12] fix: don't write the symbol of a repair twice

---
 netcode/detail/packetizer.hh | 6 ------
 1 file changed, 6 deletions(-)

diff --git a/netcode/detail/packetizer.hh b/netcode/detail/packetizer.hh
index 98e7ad6..eb13943 100644
--- a/netcode/detail/packetizer.hh
+++ b/netcode/detail/packetizer.hh
@@ -111,12 +111,6 @@ public:
     // Write encoded size.
     write<std::uint16_t>(r.encoded_size());
 
-    // Write size of the repair symbol.
-    write<std::uint16_t>(r.symbol().size());
-
-    // Write repair symbol.
-    write(r.symbol().data(), r.symbol().size());
-
     // End of data.
     mark_end();
   }
-- 
2.43.0


From a885700437354dba4e2288a25fe59e86ec518f86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:03:38 +0000
Subject: [PATCH 07/12] fix: drop malformed sources and repairs, don't trust
 decoded sizes

---
 netcode/detail/decoder.cc | 44 ++++++++++++++++++++++++++++++++-------
 1 file changed, 36 insertions(+), 8 deletions(-)

diff --git a/netcode/detail/decoder.cc b/netcode/detail/decoder.cc
index f858776..1a76b2d 100644
--- a/netcode/detail/decoder.cc
+++ b/netcode/detail/decoder.cc
@@ -1,4 +1,4 @@
-#include <algorithm>  // all_of
+#include <algorithm>  // all_of, min
 #include <cassert>
 #include <vector>
 
@@ -9,6 +9,21 @@ namespace ntc { namespace detail {
 
 /*------------------------------------------------------------------------------------------------*/
 
+namespace /* unnamed */ {
+
+/// @brief Get the largest size, not greater than @p sz, of a symbol that a Galois field can process.
+std::uint16_t
+symbol_size_for(const galois_field& gf, std::uint16_t sz)
+noexcept
+{
+  const auto nb_bytes = gf.size() <= 8 ? 1u : gf.size() / 8;
+  return static_cast<std::uint16_t>(sz - sz % nb_bytes);
+}
+
+} // namespace unnamed
+
+/*------------------------------------------------------------------------------------------------*/
+
 decoder::decoder( std::uint8_t galois_field_size, std::function<void(const decoder_source&)> h
                 , in_order order)
   : m_gf{galois_field_size}
@@ -33,6 +48,12 @@ decoder::decoder( std::uint8_t galois_field_size, std::function<void(const decod
 void
 decoder::operator()(decoder_source&& src)
 {
+  if (src.symbol_size() != symbol_size_for(m_gf, src.symbol_size()))
+  {
+    // Malformed source. Drop it.
+    return;
+  }
+
   if (m_last_id and src.id() < *m_last_id)
   {
     // This source has already been seen in the past.
@@ -54,7 +75,12 @@ decoder::operator()(decoder_source&& src)
 void
 decoder::operator()(decoder_repair&& incoming_r)
 {
-  assert(not incoming_r.source_ids().empty());
+  if ( incoming_r.source_ids().empty()
+       or incoming_r.symbol_size() != symbol_size_for(m_gf, incoming_r.symbol_size()))
+  {
+    // Malformed repair. Drop it.
+    return;
+  }
 
   const auto first_id_in_source_ids = *incoming_r.source_ids().begin();
   if (m_last_id and first_id_in_source_ids < *m_last_id)
@@ -166,8 +192,9 @@ noexcept
   // The inverse of the coefficient which was used to encode the missing source.
   const auto inv = m_gf.invert(m_gf.coefficient(r.id(), src_id));
 
-  // Reconstruct size.
-  const auto src_sz = m_gf.multiply_size(r.encoded_size(), inv);
+  // Reconstruct size. A malformed repair might give a size greater than the size of its symbol.
+  const auto src_sz = symbol_size_for( m_gf, std::min( m_gf.multiply_size(r.encoded_size(), inv)
+                                                     , r.symbol_size()));
 
   // The source that will be reconstructed.
   auto src = decoder_source{src_id, packet(src_sz + packet::alignment), src_sz};
@@ -404,7 +431,6 @@ decoder::remove_source_data_from_repair(const decoder_source& src, decoder_repai
 noexcept
 {
   assert(r.source_ids().size() > 1 && "Repair encodes only one source");
-  assert(src.symbol_size() <= r.symbol_size());
 
   const auto coeff = m_gf.coefficient(r.id(), src.id());
 
@@ -412,8 +438,9 @@ noexcept
   r.encoded_size()
     = static_cast<std::uint16_t>(m_gf.multiply_size(src.symbol_size(), coeff) ^ r.encoded_size());
 
-  // Remove symbol.
-  m_gf.multiply_add(src.symbol(), r.symbol(), src.symbol_size(), coeff);
+  // Remove symbol. It can't be larger than the repair's one, unless the repair is malformed.
+  m_gf.multiply_add( src.symbol(), r.symbol(), std::min(src.symbol_size(), r.symbol_size())
+                   , coeff);
 }
 
 /*------------------------------------------------------------------------------------------------*/
@@ -502,7 +529,8 @@ decoder::attempt_full_decoding()
           res = static_cast<std::uint16_t>(tmp) ^ res;
         }
       }
-      return res;
+      // A malformed repair might give any size.
+      return symbol_size_for(m_gf, res);
     }();
 
     // Now, decode symbol.
-- 
2.43.0


From 7abb6f53e0f01df296cc593bdb55953daf0d661d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:50:46 +0000
Subject: [PATCH 08/12] fix: give C callers a valid, null-terminated error
 message or NULL

---
 netcode/c/detail/check_error.hh | 11 ++++++-----
 netcode/c/error.h               |  1 +
 2 files changed, 7 insertions(+), 5 deletions(-)

diff --git a/netcode/c/detail/check_error.hh b/netcode/c/detail/check_error.hh
index defe2ce..1d32f69 100644
--- a/netcode/c/detail/check_error.hh
+++ b/netcode/c/detail/check_error.hh
@@ -1,8 +1,9 @@
 #pragma once
 
 #include <algorithm>
+#include <cstdlib> // malloc
 #include <cstring>
-#include <new> // nothrow
+#include <new>     // bad_alloc
 #include <stdexcept>
 
 #include "netcode/c/error.h"
@@ -21,7 +22,9 @@ check_error(Fn&& fn, ntc_error* error)
 noexcept
 -> decltype(fn())
 {
+  // The given error might be uninitialized, or hold a message which is owned by the caller.
   error->type = ntc_no_error;
+  error->message = nullptr;
 
   try
   {
@@ -46,9 +49,8 @@ noexcept
   catch (const std::exception& e)
   {
     error->type = ntc_unknown_error;
-    const auto sz = std::strlen(e.what());
-    delete error->message;
-    error->message = new (std::nothrow) char[sz];
+    const auto sz = std::strlen(e.what()) + 1; // with the null terminator
+    error->message = static_cast<char*>(std::malloc(sz));
     if (error->message)
     {
       std::copy_n(e.what(), sz, error->message);
@@ -58,7 +60,6 @@ noexcept
   catch (...)
   {
     error->type = ntc_unknown_error;
-    delete error->message;
   }
 
   // Return the default value of the type returned by fn when an error occurs.
diff --git a/netcode/c/error.h b/netcode/c/error.h
index 321f89e..fecb91c 100644
--- a/netcode/c/error.h
+++ b/netcode/c/error.h
@@ -28,6 +28,7 @@ typedef struct
 
   /// @brief A message describing the error
   /// @note Might be NULL
+  /// @note It's owned by the caller, which is responsible for releasing it with free()
   char* message;
 
 } ntc_error;
-- 
2.43.0


From 2ea01fa3db34f28989a8191afc5f5555b42d8b64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:53:26 +0000
Subject: [PATCH 09/12] fix: return NULL when an object can't be created from C
 instead of terminating

---
 netcode/c/data.cc          |  7 +++----
 netcode/c/decoder.cc       | 13 ++++++-------
 netcode/c/detail/create.hh | 29 +++++++++++++++++++++++++++++
 netcode/c/encoder.cc       |  7 +++----
 netcode/c/packet.cc        |  7 +++----
 5 files changed, 44 insertions(+), 19 deletions(-)
 create mode 100644 netcode/c/detail/create.hh

diff --git a/netcode/c/data.cc b/netcode/c/data.cc
index b10677f..a291f14 100644
--- a/netcode/c/data.cc
+++ b/netcode/c/data.cc
@@ -1,6 +1,5 @@
-#include <new> // nothrow
-
 #include "netcode/c/detail/check_error.hh"
+#include "netcode/c/detail/create.hh"
 #include "netcode/c/data.h"
 
 /*------------------------------------------------------------------------------------------------*/
@@ -9,7 +8,7 @@ ntc_data_t*
 ntc_new_data(uint16_t size)
 noexcept
 {
-  return new (std::nothrow) ntc_data_t(size);
+  return ntc::detail::create<ntc_data_t>(size);
 }
 
 /*------------------------------------------------------------------------------------------------*/
@@ -18,7 +17,7 @@ ntc_data_t*
 ntc_new_data_from(const char* src, uint16_t size)
 noexcept
 {
-  return new (std::nothrow) ntc_data_t(src, src + size);
+  return ntc::detail::create<ntc_data_t>(src, src + size);
 }
 
 /*------------------------------------------------------------------------------------------------*/
diff --git a/netcode/c/decoder.cc b/netcode/c/decoder.cc
index e07178a..62f25d7 100644
--- a/netcode/c/decoder.cc
+++ b/netcode/c/decoder.cc
@@ -1,6 +1,5 @@
-#include <new> // nothrow
-
 #include "netcode/c/detail/check_error.hh"
+#include "netcode/c/detail/create.hh"
 #include "netcode/c/decoder.h"
 #include "netcode/errors.hh"
 
@@ -11,11 +10,11 @@ ntc_new_decoder( uint8_t galois_field_size, ntc_ordering_type order
                , ntc_packet_handler packet_handler, ntc_data_handler data_handler)
 noexcept
 {
-  return new (std::nothrow) ntc_decoder_t{ galois_field_size
-                                         , order == ntc_in_order_yes ? ntc::in_order::yes
-                                                                     : ntc::in_order::no
-                                         , ntc::detail::c_packet_handler{packet_handler}
-                                         , ntc::detail::c_data_handler{data_handler}};
+  return ntc::detail::create<ntc_decoder_t>( galois_field_size
+                                           , order == ntc_in_order_yes ? ntc::in_order::yes
+                                                                       : ntc::in_order::no
+                                           , ntc::detail::c_packet_handler{packet_handler}
+                                           , ntc::detail::c_data_handler{data_handler});
 }
 
 /*------------------------------------------------------------------------------------------------*/
diff --git a/netcode/c/detail/create.hh b/netcode/c/detail/create.hh
new file mode 100644
index 0000000..cb91e41
--- /dev/null
+++ b/netcode/c/detail/create.hh
@@ -0,0 +1,29 @@
+#pragma once
+
+#include <utility> // forward
+
+namespace ntc { namespace detail {
+
+/*------------------------------------------------------------------------------------------------*/
+
+/// @internal
+/// @brief Create an object to be handed to a C caller
+/// @return nullptr if the object, or what it's made of, can't be allocated
+template <typename T, typename... Args>
+T*
+create(Args&&... args)
+noexcept
+{
+  try
+  {
+    return new T(std::forward<Args>(args)...);
+  }
+  catch (...)
+  {
+    return nullptr;
+  }
+}
+
+/*------------------------------------------------------------------------------------------------*/
+
+}} // namespace ntc::detail
diff --git a/netcode/c/encoder.cc b/netcode/c/encoder.cc
index 74c718f..49dbb08 100644
--- a/netcode/c/encoder.cc
+++ b/netcode/c/encoder.cc
@@ -1,6 +1,5 @@
-#include <new> // nothrow
-
 #include "netcode/c/detail/check_error.hh"
+#include "netcode/c/detail/create.hh"
 #include "netcode/c/encoder.h"
 
 /*------------------------------------------------------------------------------------------------*/
@@ -9,8 +8,8 @@ ntc_encoder_t*
 ntc_new_encoder(uint8_t galois_field_size, ntc_packet_handler handler)
 noexcept
 {
-  return new (std::nothrow) ntc_encoder_t{ galois_field_size
-                                         , ntc::detail::c_packet_handler{handler}};
+  return ntc::detail::create<ntc_encoder_t>( galois_field_size
+                                           , ntc::detail::c_packet_handler{handler});
 }
 
 /*------------------------------------------------------------------------------------------------*/
diff --git a/netcode/c/packet.cc b/netcode/c/packet.cc
index babdcf7..cc98927 100644
--- a/netcode/c/packet.cc
+++ b/netcode/c/packet.cc
@@ -1,6 +1,5 @@
-#include <new> // nothrow
-
 #include "netcode/c/detail/check_error.hh"
+#include "netcode/c/detail/create.hh"
 #include "netcode/c/packet.h"
 
 /*------------------------------------------------------------------------------------------------*/
@@ -9,7 +8,7 @@ ntc_packet_t*
 ntc_new_packet(uint16_t size)
 noexcept
 {
-  return new (std::nothrow) ntc_packet_t(size);
+  return ntc::detail::create<ntc_packet_t>(size);
 }
 
 /*------------------------------------------------------------------------------------------------*/
@@ -18,7 +17,7 @@ ntc_packet_t*
 ntc_new_packet_from(const char* src, uint16_t size)
 noexcept
 {
-  return new (std::nothrow) ntc_packet_t(src, src + size);
+  return ntc::detail::create<ntc_packet_t>(src, src + size);
 }
 
 /*------------------------------------------------------------------------------------------------*/
-- 
2.43.0


From 4f98d28c6238ccb5a56746d753e802b13139ddbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:55:08 +0000
Subject: [PATCH 10/12] fix: let the decoder report an allocation failure
 instead of terminating

---
 netcode/detail/decoder.cc | 2 --
 netcode/detail/decoder.hh | 6 ++----
 2 files changed, 2 insertions(+), 6 deletions(-)

diff --git a/netcode/detail/decoder.cc b/netcode/detail/decoder.cc
index 1a76b2d..326b0fa 100644
--- a/netcode/detail/decoder.cc
+++ b/netcode/detail/decoder.cc
@@ -184,7 +184,6 @@ decoder::operator()(decoder_repair&& incoming_r)
 
 decoder_source
 decoder::create_source_from_repair(const decoder_repair& r)
-noexcept
 {
   assert(r.source_ids().size() == 1 && "Repair encodes more that 1 source");
   const auto src_id = *r.source_ids().begin();
@@ -376,7 +375,6 @@ decoder::add_source_recursive(decoder_source&& src)
 
 void
 decoder::drop_outdated(std::uint32_t id)
-noexcept
 {
   // All sources with an identifier strictly less than last_id_ are now considered outdated.
   m_last_id = id;
diff --git a/netcode/detail/decoder.hh b/netcode/detail/decoder.hh
index 48987a8..9fcc1ee 100644
--- a/netcode/detail/decoder.hh
+++ b/netcode/detail/decoder.hh
@@ -69,8 +69,7 @@ public:
   /// @brief Decode a source contained in a repair.
   /// @attention @p r shall encode exactly one source.
   decoder_source
-  create_source_from_repair(const decoder_repair& r)
-  noexcept;
+  create_source_from_repair(const decoder_repair& r);
 
   /// @brief Remove a source from a repair.
   /// @attention @p r shall encode more than one source.
@@ -120,8 +119,7 @@ private:
   /// All sources with an identifier smaller than @p id will be dropped, as well as all repairs
   /// that reference thes outdated sources.
   void
-  drop_outdated(std::uint32_t id)
-  noexcept;
+  drop_outdated(std::uint32_t id);
 
   /// @brief Remove a source from a repair, but not the id from the list of source identifiers.
   /// @attention The id of the removed src must be removed from the repair's list of source
-- 
2.43.0


From 54da606cec7c95f8688f01e3ebceedc539fe0e85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:56:38 +0000
Subject: [PATCH 11/12] fix: read dumped packets from where they start

---
 netcode/detail/serialize_packet.hh | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/netcode/detail/serialize_packet.hh b/netcode/detail/serialize_packet.hh
index 2c89092..c265841 100644
--- a/netcode/detail/serialize_packet.hh
+++ b/netcode/detail/serialize_packet.hh
@@ -29,17 +29,14 @@ struct serialize_packet
   {
     auto p = packet{};
 
-    std::istreambuf_iterator<char> isb(is);
     auto sz = std::uint16_t{};
-    std::copy_n(isb, 2, reinterpret_cast<char*>(&sz));
-    ++isb;
+    is.read(reinterpret_cast<char*>(&sz), sizeof(sz));
 
     const auto sz_native = boost::endian::big_to_native(sz);
 
     p.m_buffer.resize(sz_native);
-    std::copy_n(isb, sz_native, p.m_buffer.begin());
+    is.read(p.m_buffer.data(), sz_native);
 
-    ++isb;
     return p;
   }
 };
-- 
2.43.0


From 74fa00034ab08fa030b600d297aa293d7c859fce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:56:38 +0000
Subject: [PATCH 12/12] fix: replay the last packet of a dump

---
 tools/replay.cc | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/tools/replay.cc b/tools/replay.cc
index 694fc2e..c8c9610 100644
--- a/tools/replay.cc
+++ b/tools/replay.cc
@@ -59,15 +59,10 @@ main(int argc, const char** argv)
     ntc::decoder<packet_handler, data_handler> decoder{ 8, ntc::in_order::yes, packet_handler{}
                                                       , data_handler{}};
 
-    while (true)
+    while (dump_file.peek() != std::char_traits<char>::eof())
     {
       const auto packet = ntc::detail::serialize_packet::read(dump_file);
 
-      if (dump_file.peek() == std::char_traits<char>::eof())
-      {
-        break;
-      }
-
       switch (ntc::detail::get_packet_type(packet))
       {
         case ntc::detail::packet_type::ack:
-- 
2.43.0

