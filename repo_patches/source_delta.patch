From 304374dd84a567c4d6a643c097cbcb7ff6346c8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:20 +0000
Subject: [PATCH 001/117] fix: intrusive_ptr assignment from itself or from
 something it keeps alive

---
 include/dynd/config.hpp | 35 ++++++++++++++---------------------
 1 file changed, 14 insertions(+), 21 deletions(-)

diff --git a/include/dynd/config.hpp b/include/dynd/config.hpp
index 31d7381..0511cd1 100644
--- a/include/dynd/config.hpp
+++ b/include/dynd/config.hpp
@@ -274,38 +274,31 @@ public:
   T *operator->() const { return m_ptr; }
 
   /** Assignment */
-  intrusive_ptr &operator=(const intrusive_ptr &rhs) {
-    if (m_ptr != 0) {
-      intrusive_ptr_release(m_ptr);
-    }
-    if (rhs.m_ptr != 0) {
-      m_ptr = rhs.m_ptr;
-      intrusive_ptr_retain(m_ptr);
-    } else {
-      m_ptr = 0;
-    }
-    return *this;
-  }
+  intrusive_ptr &operator=(const intrusive_ptr &rhs) { return operator=(rhs.m_ptr); }
 
   /** Move assignment */
   intrusive_ptr &operator=(intrusive_ptr &&rhs) {
-    if (m_ptr != 0) {
-      intrusive_ptr_release(m_ptr);
-    }
-    m_ptr = rhs.m_ptr;
+    // Take the reference away from rhs before releasing the old one, rhs may be *this or be kept alive by it
+    T *ptr = rhs.m_ptr;
     rhs.m_ptr = 0;
+    T *old = m_ptr;
+    m_ptr = ptr;
+    if (old != 0) {
+      intrusive_ptr_release(old);
+    }
     return *this;
   }
 
   /** Assignment from raw memory_block pointer */
   intrusive_ptr &operator=(T *rhs) {
-    if (m_ptr != nullptr) {
-      intrusive_ptr_release(m_ptr);
+    // Retain the new reference before releasing the old one, rhs may be kept alive by it
+    T *old = m_ptr;
+    if (rhs != nullptr) {
+      intrusive_ptr_retain(rhs);
     }
-
     m_ptr = rhs;
-    if (m_ptr != nullptr) {
-      intrusive_ptr_retain(m_ptr);
+    if (old != nullptr) {
+      intrusive_ptr_release(old);
     }
 
     return *this;
-- 
2.43.0


From 552b18124a6108046f4ec59db2591ea06bccd466 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:02 +0000
Subject: [PATCH 002/117] fix: elementwise operations on fixed dimensions of
 size one

The dimension was treated as missing, which made the dimensions inside it
use the wrong arrmeta, e.g. (1 * 2 * int32) + (1 * 2 * int32) read beyond
the data.
---
 include/dynd/callables/base_elwise_callable.hpp | 3 ---
 include/dynd/callables/elwise_callable.hpp      | 8 ++++++--
 2 files changed, 6 insertions(+), 5 deletions(-)

diff --git a/include/dynd/callables/base_elwise_callable.hpp b/include/dynd/callables/base_elwise_callable.hpp
index 56054ee..08f9638 100644
--- a/include/dynd/callables/base_elwise_callable.hpp
+++ b/include/dynd/callables/base_elwise_callable.hpp
@@ -63,9 +63,6 @@ namespace nd {
             arg_element_tp[i] = arg_tp[i];
           } else {
             arg_size[i] = arg_tp[i].extended<ndt::base_dim_type>()->get_dim_size();
-            if (arg_size[i] == 1) {
-              data.arg_broadcast[i] = true;
-            }
             arg_element_tp[i] = arg_tp[i].extended<ndt::base_dim_type>()->get_element_type();
           }
         }
diff --git a/include/dynd/callables/elwise_callable.hpp b/include/dynd/callables/elwise_callable.hpp
index c6b2377..7cd59ba 100644
--- a/include/dynd/callables/elwise_callable.hpp
+++ b/include/dynd/callables/elwise_callable.hpp
@@ -77,7 +77,9 @@ namespace nd {
               src_stride[i] = 0;
               child_src_arrmeta[i] = src_arrmeta[i];
             } else {
-              src_stride[i] = reinterpret_cast<const size_stride_t *>(src_arrmeta[i])->stride;
+              const size_stride_t *src_md = reinterpret_cast<const size_stride_t *>(src_arrmeta[i]);
+              // A dimension of size one is broadcast
+              src_stride[i] = (src_md->dim_size == 1) ? 0 : src_md->stride;
               child_src_arrmeta[i] = src_arrmeta[i] + sizeof(size_stride_t);
             }
           }
@@ -125,8 +127,10 @@ namespace nd {
                 src_stride[i] = 0;
                 child_src_arrmeta[i] = src_arrmeta[i];
               } else {
+                const size_stride_t *src_md = reinterpret_cast<const size_stride_t *>(src_arrmeta[i]);
                 src_offset[i] = 0;
-                src_stride[i] = reinterpret_cast<const size_stride_t *>(src_arrmeta[i])->stride;
+                // A dimension of size one is broadcast
+                src_stride[i] = (src_md->dim_size == 1) ? 0 : src_md->stride;
                 child_src_arrmeta[i] = src_arrmeta[i] + sizeof(ndt::var_dim_type::metadata_type);
               }
             }
-- 
2.43.0


From 3133db76abeaa3401fa92c80b1326aa84274b8a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:02 +0000
Subject: [PATCH 003/117] fix: arrmeta of the operands inside a fixed dimension
 when var dimensions are involved

---
 include/dynd/callables/elwise_callable.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/dynd/callables/elwise_callable.hpp b/include/dynd/callables/elwise_callable.hpp
index 7cd59ba..039d05c 100644
--- a/include/dynd/callables/elwise_callable.hpp
+++ b/include/dynd/callables/elwise_callable.hpp
@@ -131,7 +131,7 @@ namespace nd {
                 src_offset[i] = 0;
                 // A dimension of size one is broadcast
                 src_stride[i] = (src_md->dim_size == 1) ? 0 : src_md->stride;
-                child_src_arrmeta[i] = src_arrmeta[i] + sizeof(ndt::var_dim_type::metadata_type);
+                child_src_arrmeta[i] = src_arrmeta[i] + sizeof(size_stride_t);
               }
             }
           }
@@ -195,6 +195,7 @@ namespace nd {
                 src_offset[i] = 0;
                 src_stride[i] = reinterpret_cast<const size_stride_t *>(src_arrmeta[i])->stride;
                 src_size[i] = reinterpret_cast<const size_stride_t *>(src_arrmeta[i])->dim_size;
+                child_src_arrmeta[i] = src_arrmeta[i] + sizeof(size_stride_t);
               }
             }
           }
-- 
2.43.0


From bd2993bf9e29465b26b2f456408ff0ab8d19edf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:02 +0000
Subject: [PATCH 004/117] fix: elementwise broadcasting of operands with fewer
 dimensions against var dimensions

---
 include/dynd/callables/base_elwise_callable.hpp     | 2 +-
 include/dynd/callables/elwise_dispatch_callable.hpp | 8 +++++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/include/dynd/callables/base_elwise_callable.hpp b/include/dynd/callables/base_elwise_callable.hpp
index 08f9638..e1f6b77 100644
--- a/include/dynd/callables/base_elwise_callable.hpp
+++ b/include/dynd/callables/base_elwise_callable.hpp
@@ -68,7 +68,7 @@ namespace nd {
         }
 
         for (size_t i = 0; i < N; ++i) {
-          data.arg_var[i] = arg_tp[i].get_id() == var_dim_id;
+          data.arg_var[i] = !data.arg_broadcast[i] && arg_tp[i].get_id() == var_dim_id;
         }
 
         intptr_t res_size;
diff --git a/include/dynd/callables/elwise_dispatch_callable.hpp b/include/dynd/callables/elwise_dispatch_callable.hpp
index 7839a8a..f5f8933 100644
--- a/include/dynd/callables/elwise_dispatch_callable.hpp
+++ b/include/dynd/callables/elwise_dispatch_callable.hpp
@@ -44,9 +44,14 @@ namespace nd {
 
         // Do a pass through the src types to classify them
         const std::vector<ndt::type> &child_arg_tp = child_tp->get_argument_types();
+        intptr_t max_ndim = reinterpret_cast<data_type *>(data)->ndim;
         bool src_all_strided = true, src_all_strided_or_var = true;
         for (size_t i = 0; i < nsrc; ++i) {
           intptr_t src_ndim = src_tp[i].get_ndim() - child_arg_tp[i].get_ndim();
+          if (src_ndim < max_ndim) {
+            // This dimension is missing from the operand, which broadcasts like a strided dimension
+            continue;
+          }
           switch (src_tp[i].get_id()) {
           case fixed_dim_id:
             break;
@@ -65,7 +70,8 @@ namespace nd {
 
         bool var_broadcast = !src_all_strided;
         for (size_t i = 0; i < nsrc; ++i) {
-          var_broadcast &= src_tp[i].get_id() == var_dim_id ||
+          var_broadcast &= static_cast<intptr_t>(src_tp[i].get_ndim() - child_arg_tp[i].get_ndim()) < max_ndim ||
+                           src_tp[i].get_id() == var_dim_id ||
                            (src_tp[i].get_id() == fixed_dim_id &&
                             src_tp[i].extended<ndt::fixed_dim_type>()->get_fixed_dim_size() == 1);
         }
-- 
2.43.0


From 1cd422d8c614991733873f708c496bd9e5fcaead Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:11 +0000
Subject: [PATCH 005/117] fix: call graphs and kernel builders stay consistent
 when growing or a constructor fails

---
 include/dynd/storagebuf.hpp | 22 +++++++++++++---------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/include/dynd/storagebuf.hpp b/include/dynd/storagebuf.hpp
index c45f35e..c87c0a3 100644
--- a/include/dynd/storagebuf.hpp
+++ b/include/dynd/storagebuf.hpp
@@ -60,8 +60,7 @@ public:
       // Do a realloc
       char *new_data = reinterpret_cast<char *>(realloc(m_data, m_capacity, requested_capacity));
       if (new_data == NULL) {
-        reinterpret_cast<DerivedType *>(this)->destroy();
-        m_data = NULL;
+        // The existing data is untouched, the destructor takes care of it
         throw std::bad_alloc();
       }
       // Zero out the newly allocated capacity
@@ -116,7 +115,9 @@ public:
   }
 
   /**
-   * Creates the kernel, and increments ``m_size`` to the position after it.
+   * Creates the kernel, and increments ``m_size`` to the position after it. If this
+   * fails, ``m_size`` does not change. There is always a zeroed prefix after the last
+   * kernel, so that a parent can be destroyed when its child could not be created.
    */
   template <typename KernelType, typename... ArgTypes>
   void emplace_back(ArgTypes &&... args) {
@@ -124,10 +125,11 @@ public:
     static_assert(alignof(KernelType) <= 8, "kernel types require alignment to be at most 8 bytes");
 
     size_t offset = m_size;
-    m_size += aligned_size(sizeof(KernelType));
-    reserve(m_size);
+    size_t new_size = offset + aligned_size(sizeof(KernelType));
+    reserve(new_size + aligned_size(sizeof(PrefixType)));
 
     KernelType::init(this->get_at<KernelType>(offset), std::forward<ArgTypes>(args)...);
+    m_size = new_size;
   }
 
   template <typename KernelType, typename... ArgTypes>
@@ -136,15 +138,17 @@ public:
     static_assert(alignof(KernelType) <= 8, "kernel types require alignment to be at most 8 bytes");
 
     size_t offset = m_size;
-    m_size += aligned_size(sizeof(PrefixType)) + aligned_size(sizeof(KernelType));
-    reserve(m_size);
+    size_t new_size = offset + aligned_size(sizeof(PrefixType)) + aligned_size(sizeof(KernelType));
+    reserve(new_size + aligned_size(sizeof(PrefixType)));
 
     PrefixType::template init<KernelType>(this->get_at<PrefixType>(offset), std::forward<ArgTypes>(args)...);
+    m_size = new_size;
   }
 
   void emplace_back(size_t size) {
-    m_size += aligned_size(size);
-    reserve(m_size);
+    size_t new_size = m_size + aligned_size(size);
+    reserve(new_size + aligned_size(sizeof(PrefixType)));
+    m_size = new_size;
   }
 };
 
-- 
2.43.0


From af81085d2173a646a5fb96bc468fa3bc68a79fc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:20 +0000
Subject: [PATCH 006/117] fix: permute axes inside a permuted or stationary
 dimension

---
 src/dynd/array.cpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/dynd/array.cpp b/src/dynd/array.cpp
index 8bd213a..7127b91 100644
--- a/src/dynd/array.cpp
+++ b/src/dynd/array.cpp
@@ -449,7 +449,7 @@ static void permute_type_dims(const ndt::type &tp, intptr_t arrmeta_offset, void
       // No more perm dimensions left, leave type as is
       out_transformed_tp = tp;
     } else {
-      if (tp.get_base_id() == dim_kind_id) {
+      if (tp.get_base_id() == dim_kind_id || tp.get_base_id() == fixed_dim_kind_id) {
         ++pdd->i;
       }
       tp.extended()->transform_child_types(&permute_type_dims, arrmeta_offset, extra, out_transformed_tp,
@@ -478,10 +478,12 @@ static void permute_type_dims(const ndt::type &tp, intptr_t arrmeta_offset, void
     intptr_t perm_ndim = max_i - i + 1;
     // If there are more permutation axes left, process the subtype
     if (max_i < pdd->ndim - 1) {
+      ndt::type transformed_subtp = subtp;
       pdd->i = max_i + 1;
-      tp.extended()->transform_child_types(&permute_type_dims,
-                                           arrmeta_offset + perm_ndim * sizeof(fixed_dim_type_arrmeta), extra, subtp,
-                                           out_was_transformed);
+      permute_type_dims(subtp, arrmeta_offset + perm_ndim * sizeof(fixed_dim_type_arrmeta), extra, transformed_subtp,
+                        out_was_transformed);
+      pdd->i = i;
+      subtp = transformed_subtp;
     }
     // Apply the permutation
     dimvector shape(perm_ndim), permuted_shape(perm_ndim);
-- 
2.43.0


From 1458ae116090756728b59cac48f87162686b60cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:19 +0000
Subject: [PATCH 007/117] fix: reshape copies arrays whose elements are not in
 C order

---
 src/dynd/array.cpp | 25 +++++++++++++++++++++++++
 1 file changed, 25 insertions(+)

diff --git a/src/dynd/array.cpp b/src/dynd/array.cpp
index 7127b91..a3bf1e4 100644
--- a/src/dynd/array.cpp
+++ b/src/dynd/array.cpp
@@ -873,6 +873,31 @@ nd::array nd::reshape(const nd::array &a, const nd::array &shape) {
     throw invalid_argument(ss.str());
   }
 
+  // The new strides describe C-order elements, so any other layout needs a copy first
+  bool c_order = a.get_type().get_strided_ndim() == old_ndim;
+  if (c_order) {
+    dimvector old_strides(old_ndim);
+    a.get_strides(old_strides.get());
+    intptr_t expected_stride = a.get_dtype().get_data_size();
+    for (intptr_t i = old_ndim - 1; i >= 0 && old_size != 0; --i) {
+      if (old_shape[i] != 1 && old_strides[i] != expected_stride) {
+        c_order = false;
+        break;
+      }
+      expected_stride *= old_shape[i];
+    }
+  }
+  if (!c_order) {
+    array tmp = empty(make_type(old_ndim, old_shape.get(), a.get_dtype()));
+    if (tmp.get_type().get_strided_ndim() != old_ndim) {
+      stringstream ss;
+      ss << "dynd reshape: cannot reshape an array of type " << a.get_type();
+      throw invalid_argument(ss.str());
+    }
+    tmp.assign(a);
+    return reshape(tmp, shape);
+  }
+
   dimvector strides(ndim);
   strides[ndim - 1] = a.get_dtype().get_data_size();
   for (intptr_t i = ndim - 2; i >= 0; --i) {
-- 
2.43.0


From bd1adc20c8c305795ce38ed21add70d68a7288c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:19 +0000
Subject: [PATCH 008/117] fix: concatenate with an empty operand

---
 src/dynd/array.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/dynd/array.cpp b/src/dynd/array.cpp
index a3bf1e4..958d2fc 100644
--- a/src/dynd/array.cpp
+++ b/src/dynd/array.cpp
@@ -843,8 +843,13 @@ nd::array nd::concatenate(const nd::array &x, const nd::array &y) {
   }
 
   nd::array res = nd::empty(x.get_dim_size() + y.get_dim_size(), x.get_dtype());
-  res(irange(0, x.get_dim_size())).assign(x);
-  res(irange(x.get_dim_size(), res.get_dim_size())).assign(y);
+  // A range can't start at the end of a dimension, so leave out empty operands
+  if (x.get_dim_size() > 0) {
+    res(irange(0, x.get_dim_size())).assign(x);
+  }
+  if (y.get_dim_size() > 0) {
+    res(irange(x.get_dim_size(), res.get_dim_size())).assign(y);
+  }
 
   return res;
 }
-- 
2.43.0


From 3e0cfcaf0d0d0176803e7a4ad9fe4fbc8f575454 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:00 +0000
Subject: [PATCH 009/117] fix: call graph closures kept pointers to source
 types of the caller

---
 include/dynd/callables/assign_callable.hpp     | 18 +++++++++++-------
 .../dynd/callables/take_dispatch_callable.hpp  | 10 ++++++----
 2 files changed, 17 insertions(+), 11 deletions(-)

diff --git a/include/dynd/callables/assign_callable.hpp b/include/dynd/callables/assign_callable.hpp
index 5e2c0ad..97525fc 100644
--- a/include/dynd/callables/assign_callable.hpp
+++ b/include/dynd/callables/assign_callable.hpp
@@ -80,6 +80,7 @@ namespace nd {
                       const ndt::type &dst_tp, size_t DYND_UNUSED(nsrc), const ndt::type *src_tp,
                       size_t DYND_UNUSED(nkwd), const array *kwds,
                       const std::map<std::string, ndt::type> &DYND_UNUSED(tp_vars)) {
+      ndt::type src0_tp = src_tp[0];
       assign_error_mode error_mode = kwds[0].is_na() ? assign_error_default : kwds[0].as<assign_error_mode>();
       switch (error_mode) {
       case assign_error_default:
@@ -87,7 +88,7 @@ namespace nd {
         cg.emplace_back([=](kernel_builder &kb, kernel_request_t kernreq, char *DYND_UNUSED(data),
                             const char *DYND_UNUSED(dst_arrmeta), size_t DYND_UNUSED(nsrc),
                             const char *const *src_arrmeta) {
-          kb.emplace_back<detail::assignment_kernel<bool1, string, assign_error_nocheck>>(kernreq, src_tp[0],
+          kb.emplace_back<detail::assignment_kernel<bool1, string, assign_error_nocheck>>(kernreq, src0_tp,
                                                                                           src_arrmeta[0]);
         });
         break;
@@ -95,7 +96,7 @@ namespace nd {
         cg.emplace_back([=](kernel_builder &kb, kernel_request_t kernreq, char *DYND_UNUSED(data),
                             const char *DYND_UNUSED(dst_arrmeta), size_t DYND_UNUSED(nsrc),
                             const char *const *src_arrmeta) {
-          kb.emplace_back<detail::assignment_kernel<bool1, string, assign_error_overflow>>(kernreq, src_tp[0],
+          kb.emplace_back<detail::assignment_kernel<bool1, string, assign_error_overflow>>(kernreq, src0_tp,
                                                                                            src_arrmeta[0]);
         });
         break;
@@ -103,7 +104,7 @@ namespace nd {
         cg.emplace_back([=](kernel_builder &kb, kernel_request_t kernreq, char *DYND_UNUSED(data),
                             const char *DYND_UNUSED(dst_arrmeta), size_t DYND_UNUSED(nsrc),
                             const char *const *src_arrmeta) {
-          kb.emplace_back<detail::assignment_kernel<bool1, string, assign_error_fractional>>(kernreq, src_tp[0],
+          kb.emplace_back<detail::assignment_kernel<bool1, string, assign_error_fractional>>(kernreq, src0_tp,
                                                                                              src_arrmeta[0]);
         });
         break;
@@ -111,7 +112,7 @@ namespace nd {
         cg.emplace_back([=](kernel_builder &kb, kernel_request_t kernreq, char *DYND_UNUSED(data),
                             const char *DYND_UNUSED(dst_arrmeta), size_t DYND_UNUSED(nsrc),
                             const char *const *src_arrmeta) {
-          kb.emplace_back<detail::assignment_kernel<bool1, string, assign_error_inexact>>(kernreq, src_tp[0],
+          kb.emplace_back<detail::assignment_kernel<bool1, string, assign_error_inexact>>(kernreq, src0_tp,
                                                                                           src_arrmeta[0]);
         });
         break;
@@ -282,12 +283,13 @@ namespace nd {
                       const ndt::type &dst_tp, size_t DYND_UNUSED(nsrc), const ndt::type *src_tp,
                       size_t DYND_UNUSED(nkwd), const array *kwds,
                       const std::map<std::string, ndt::type> &DYND_UNUSED(tp_vars)) {
+      ndt::type src0_tp = src_tp[0];
       assign_error_mode error_mode = kwds[0].is_na() ? assign_error_default : kwds[0].as<assign_error_mode>();
 
       cg.emplace_back([=](kernel_builder &kb, kernel_request_t kernreq, char *DYND_UNUSED(data),
                           const char *DYND_UNUSED(dst_arrmeta), size_t DYND_UNUSED(nsrc),
                           const char *const *DYND_UNUSED(src_arrmeta)) {
-        const ndt::fixed_string_type *src_fs = src_tp[0].extended<ndt::fixed_string_type>();
+        const ndt::fixed_string_type *src_fs = src0_tp.extended<ndt::fixed_string_type>();
         kb.emplace_back<
             detail::assignment_kernel<ndt::fixed_string_type, ndt::fixed_string_type, assign_error_nocheck>>(
             kernreq, get_next_unicode_codepoint_function(src_fs->get_encoding(), error_mode),
@@ -312,11 +314,12 @@ namespace nd {
                       const ndt::type &dst_tp, size_t DYND_UNUSED(nsrc), const ndt::type *src_tp,
                       size_t DYND_UNUSED(nkwd), const array *DYND_UNUSED(kwds),
                       const std::map<std::string, ndt::type> &DYND_UNUSED(tp_vars)) {
+      ndt::type src0_tp = src_tp[0];
       cg.emplace_back([=](kernel_builder &kb, kernel_request_t kernreq, char *DYND_UNUSED(data),
                           const char *dst_arrmeta, size_t DYND_UNUSED(nsrc),
                           const char *const *DYND_UNUSED(src_arrmeta)) {
         kb.emplace_back<detail::assignment_kernel<string, int8_t, assign_error_nocheck>>(
-            kernreq, dst_tp, src_tp[0].get_id(), dst_arrmeta);
+            kernreq, dst_tp, src0_tp.get_id(), dst_arrmeta);
       });
 
       return dst_tp;
@@ -417,12 +420,13 @@ namespace nd {
                       const ndt::type &dst_tp, size_t DYND_UNUSED(nsrc), const ndt::type *src_tp,
                       size_t DYND_UNUSED(nkwd), const array *kwds,
                       const std::map<std::string, ndt::type> &DYND_UNUSED(tp_vars)) {
+      ndt::type src0_tp = src_tp[0];
       assign_error_mode error_mode = kwds[0].is_na() ? assign_error_default : kwds[0].as<assign_error_mode>();
 
       cg.emplace_back([=](kernel_builder &kb, kernel_request_t kernreq, char *DYND_UNUSED(data),
                           const char *DYND_UNUSED(dst_arrmeta), size_t DYND_UNUSED(nsrc),
                           const char *const *src_arrmeta) {
-        kb.emplace_back<detail::assignment_kernel<float, string, assign_error_nocheck>>(kernreq, src_tp[0],
+        kb.emplace_back<detail::assignment_kernel<float, string, assign_error_nocheck>>(kernreq, src0_tp,
                                                                                         src_arrmeta[0], error_mode);
       });
 
diff --git a/include/dynd/callables/take_dispatch_callable.hpp b/include/dynd/callables/take_dispatch_callable.hpp
index 0e1326c..2e93b2f 100644
--- a/include/dynd/callables/take_dispatch_callable.hpp
+++ b/include/dynd/callables/take_dispatch_callable.hpp
@@ -90,6 +90,8 @@ namespace nd {
         resolved_dst_tp = ndt::make_fixed_dim(src_tp[1].get_dim_size(NULL, NULL), src0_element_tp);
       }
 
+      ndt::type src0_tp = src_tp[0];
+      ndt::type src1_tp = src_tp[1];
       cg.emplace_back([=](kernel_builder &kb, kernel_request_t kernreq, char *DYND_UNUSED(data),
                           const char *dst_arrmeta, size_t DYND_UNUSED(nsrc), const char *const *src_arrmeta) {
         intptr_t self_offset = kb.size();
@@ -109,17 +111,17 @@ namespace nd {
         intptr_t index_dim_size;
         ndt::type src0_el_tp, index_el_tp;
         const char *src0_el_meta, *index_el_meta;
-        if (!src_tp[0].get_as_strided(src_arrmeta[0], &self->m_src0_dim_size, &self->m_src0_stride, &src0_el_tp,
+        if (!src0_tp.get_as_strided(src_arrmeta[0], &self->m_src0_dim_size, &self->m_src0_stride, &src0_el_tp,
                                       &src0_el_meta)) {
           std::stringstream ss;
-          ss << "indexed take arrfunc: could not process type " << src_tp[0];
+          ss << "indexed take arrfunc: could not process type " << src0_tp;
           ss << " as a strided dimension";
           throw type_error(ss.str());
         }
-        if (!src_tp[1].get_as_strided(src_arrmeta[1], &index_dim_size, &self->m_index_stride, &index_el_tp,
+        if (!src1_tp.get_as_strided(src_arrmeta[1], &index_dim_size, &self->m_index_stride, &index_el_tp,
                                       &index_el_meta)) {
           std::stringstream ss;
-          ss << "take arrfunc: could not process type " << src_tp[1];
+          ss << "take arrfunc: could not process type " << src1_tp;
           ss << " as a strided dimension";
           throw type_error(ss.str());
         }
-- 
2.43.0


From e2f477aaf188b98636172a9a917570786c834172 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:08 +0000
Subject: [PATCH 010/117] fix: tuple and struct assignment with more than eight
 or reordered fields

---
 include/dynd/callables/assign_callable.hpp | 20 ++++++--------------
 1 file changed, 6 insertions(+), 14 deletions(-)

diff --git a/include/dynd/callables/assign_callable.hpp b/include/dynd/callables/assign_callable.hpp
index 97525fc..bb7e51f 100644
--- a/include/dynd/callables/assign_callable.hpp
+++ b/include/dynd/callables/assign_callable.hpp
@@ -689,12 +689,8 @@ namespace nd {
         throw type_error(ss.str());
       }
 
-      std::array<uintptr_t, 8> dst_arrmeta_offsets;
-      std::array<uintptr_t, 8> src_arrmeta_offsets;
-      for (int i = 0; i < field_count; ++i) {
-        src_arrmeta_offsets[i] = src_sd->get_arrmeta_offsets()[i];
-        dst_arrmeta_offsets[i] = dst_sd->get_arrmeta_offsets()[i];
-      }
+      std::vector<uintptr_t> dst_arrmeta_offsets = dst_sd->get_arrmeta_offsets();
+      std::vector<uintptr_t> src_arrmeta_offsets = src_sd->get_arrmeta_offsets();
 
       cg.emplace_back([field_count, dst_arrmeta_offsets, src_arrmeta_offsets](
           kernel_builder &kb, kernel_request_t kernreq, char *DYND_UNUSED(data), const char *dst_arrmeta,
@@ -750,9 +746,8 @@ namespace nd {
       const ndt::struct_type *dst_sd = dst_tp.extended<ndt::struct_type>();
       const ndt::struct_type *src_sd = src_tp[0].extended<ndt::struct_type>();
       intptr_t field_count = dst_sd->get_field_count();
-      std::array<intptr_t, 8> src_permutation;
-      std::array<uintptr_t, 8> src_fields_arrmeta_offsets;
-      std::array<uintptr_t, 8> dst_arrmeta_offsets;
+      std::vector<intptr_t> src_permutation(field_count);
+      std::vector<uintptr_t> src_fields_arrmeta_offsets(field_count);
 
       if (field_count != src_sd->get_field_count()) {
         std::stringstream ss;
@@ -782,10 +777,7 @@ namespace nd {
       }
 
       const std::vector<ndt::type> &dst_fields_tp = dst_sd->get_field_types();
-      const std::vector<uintptr_t> &dst_arrmeta_offsets_vec = dst_sd->get_arrmeta_offsets();
-      for (intptr_t i = 0; i < field_count; ++i) {
-        dst_arrmeta_offsets[i] = dst_arrmeta_offsets_vec[i];
-      }
+      std::vector<uintptr_t> dst_arrmeta_offsets = dst_sd->get_arrmeta_offsets();
 
       cg.emplace_back([field_count, src_permutation, src_fields_arrmeta_offsets, dst_arrmeta_offsets](
           kernel_builder &kb, kernel_request_t kernreq, char *DYND_UNUSED(data), const char *dst_arrmeta,
@@ -798,7 +790,7 @@ namespace nd {
         for (intptr_t i = 0; i != field_count; ++i) {
           intptr_t src_i = src_permutation[i];
           src_data_offsets[i] = src_data_offsets_orig[src_i];
-          src_fields_arrmeta[i] = src_arrmeta[0] + src_fields_arrmeta_offsets[src_i];
+          src_fields_arrmeta[i] = src_arrmeta[0] + src_fields_arrmeta_offsets[i];
         }
 
         shortvector<const char *> dst_fields_arrmeta(field_count);
-- 
2.43.0


From b87eeefe3127fe6580e8c7229ba26184c62e1ec7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:13 +0000
Subject: [PATCH 011/117] fix: growing and destroying var dims of objects

Growing copied too few bytes, through a handle that had moved, and cleared the
wrong memory; the block also used arrmeta it did not own after its array died.
---
 .../memblock/objectarray_memory_block.hpp     | 39 +++++++++++++------
 src/dynd/types/var_dim_type.cpp               |  3 +-
 2 files changed, 29 insertions(+), 13 deletions(-)

diff --git a/include/dynd/memblock/objectarray_memory_block.hpp b/include/dynd/memblock/objectarray_memory_block.hpp
index 15c7e9f..d60eb34 100644
--- a/include/dynd/memblock/objectarray_memory_block.hpp
+++ b/include/dynd/memblock/objectarray_memory_block.hpp
@@ -26,7 +26,6 @@ namespace nd {
    * The initial count of elements can be set if a good estimate is known.
    *
    * \param dt  The data type of the objects to allocate.
-   * \param arrmeta  The arrmeta corresponding to the data type for the objects to allocate.
    * \param stride  For objects without a fixed size, the size of the memory to allocate
    *                for each element. This would be typically set to the value for
    *                get_default_data_size() corresponding to default-constructed arrmeta.
@@ -34,8 +33,11 @@ namespace nd {
    */
   class objectarray_memory_block : public base_memory_block {
     ndt::type m_dt;
-    size_t arrmeta_size;
-    const char *m_arrmeta;
+    /**
+     * The element arrmeta, owned by this block because views of the elements can
+     * keep it alive longer than the arrmeta it was created for.
+     */
+    char *m_arrmeta;
     intptr_t m_stride;
     size_t m_total_allocated_count;
     bool m_finalized;
@@ -43,10 +45,9 @@ namespace nd {
     std::vector<memory_chunk> m_memory_handles;
 
   public:
-    objectarray_memory_block(const ndt::type &dt, size_t arrmeta_size, const char *arrmeta, intptr_t stride,
-                             intptr_t initial_count)
-        : m_dt(dt), arrmeta_size(arrmeta_size), m_arrmeta(arrmeta), m_stride(stride), m_total_allocated_count(0),
-          m_finalized(false), m_memory_handles() {
+    objectarray_memory_block(const ndt::type &dt, intptr_t stride, intptr_t initial_count)
+        : m_dt(dt), m_arrmeta(NULL), m_stride(stride), m_total_allocated_count(0), m_finalized(false),
+          m_memory_handles() {
       if ((dt.get_flags() & type_flag_destructor) == 0) {
         std::stringstream ss;
         ss << "Cannot create objectarray memory block with dynd type " << dt;
@@ -54,14 +55,28 @@ namespace nd {
         throw std::runtime_error(ss.str());
       }
       append_memory(initial_count);
+      try {
+        if (dt.get_arrmeta_size() > 0) {
+          m_arrmeta = new char[dt.get_arrmeta_size()]();
+          dt.extended()->arrmeta_default_construct(m_arrmeta, false);
+        }
+      } catch (...) {
+        delete[] m_arrmeta;
+        free(m_memory_handles.back().memory);
+        throw;
+      }
     }
 
     ~objectarray_memory_block() {
       for (size_t i = 0, i_end = m_memory_handles.size(); i != i_end; ++i) {
         memory_chunk &mc = m_memory_handles[i];
-        m_dt.extended()->data_destruct_strided(m_arrmeta + arrmeta_size, mc.memory, m_stride, mc.used_count);
+        m_dt.extended()->data_destruct_strided(m_arrmeta, mc.memory, m_stride, mc.used_count);
         free(mc.memory);
       }
+      if (m_arrmeta != NULL) {
+        m_dt.extended()->arrmeta_destruct(m_arrmeta);
+        delete[] m_arrmeta;
+      }
     }
 
     /**
@@ -113,12 +128,14 @@ namespace nd {
 
       if (mc->capacity_count - previous_index < count) {
         append_memory(std::max(m_total_allocated_count, count));
+        // Appending may have moved the old chunk's handle
         memory_chunk *new_mc = &m_memory_handles.back();
+        mc = new_mc - 1;
         // Move the old memory to the newly allocated block
         if (previous_count > 0) {
           // Subtract the previously used memory from the old chunk's count
           mc->used_count -= previous_count;
-          memcpy(new_mc->memory, previous_allocated, previous_count);
+          memcpy(new_mc->memory, previous_allocated, previous_count * m_stride);
           // If the old memory only had the memory being resized,
           // free it completely.
           if (previous_allocated == mc->memory) {
@@ -136,7 +153,7 @@ namespace nd {
           mc->used_count += (count - previous_count);
         } else {
           // Call the destructor on the elements no longer used
-          m_dt.extended()->data_destruct_strided(m_arrmeta + arrmeta_size, previous_allocated + m_stride * count,
+          m_dt.extended()->data_destruct_strided(m_arrmeta, previous_allocated + m_stride * count,
                                                  m_stride, previous_count - count);
           mc->used_count -= (previous_count - count);
         }
@@ -146,7 +163,7 @@ namespace nd {
         // Zero-init the new memory
         intptr_t new_count = count - (intptr_t)previous_count;
         if (new_count > 0) {
-          memset(mc->memory + m_stride * previous_count, 0, m_stride * new_count);
+          memset(result + m_stride * previous_count, 0, m_stride * new_count);
         }
       } else {
         // TODO: Add a default data constructor to base_type
diff --git a/src/dynd/types/var_dim_type.cpp b/src/dynd/types/var_dim_type.cpp
index fbaba7e..3fdded2 100644
--- a/src/dynd/types/var_dim_type.cpp
+++ b/src/dynd/types/var_dim_type.cpp
@@ -318,8 +318,7 @@ void ndt::var_dim_type::arrmeta_default_construct(char *arrmeta, bool blockref_a
   if (blockref_alloc) {
     uint32_t flags = m_element_tp.get_flags();
     if (flags & type_flag_destructor) {
-      md->blockref = nd::make_memory_block<nd::objectarray_memory_block>(m_element_tp, sizeof(metadata_type), arrmeta,
-                                                                         element_size, 64);
+      md->blockref = nd::make_memory_block<nd::objectarray_memory_block>(m_element_tp, element_size, 64);
     } else if (flags & type_flag_zeroinit) {
       md->blockref = nd::make_memory_block<nd::zeroinit_memory_block>(m_element_tp);
     } else {
-- 
2.43.0


From a85bbded0a8117f7a2ea2abe5441107c48b1cf03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:19 +0000
Subject: [PATCH 012/117] fix: growing the memory of var dims of plain data

The old end was read after it had been replaced, so the copy overran or new
memory stayed uncleared; a failed allocation no longer disturbs the block.
---
 include/dynd/memblock/pod_memory_block.hpp    | 24 +++++++--------
 .../dynd/memblock/zeroinit_memory_block.hpp   | 30 ++++++++-----------
 2 files changed, 24 insertions(+), 30 deletions(-)

diff --git a/include/dynd/memblock/pod_memory_block.hpp b/include/dynd/memblock/pod_memory_block.hpp
index 0165dcf..8242002 100644
--- a/include/dynd/memblock/pod_memory_block.hpp
+++ b/include/dynd/memblock/pod_memory_block.hpp
@@ -44,12 +44,13 @@ namespace nd {
      */
     void append_memory(intptr_t capacity_bytes) {
       m_memory_handles.push_back(NULL);
-      m_memory_begin = reinterpret_cast<char *>(malloc(capacity_bytes));
-      m_memory_handles.back() = m_memory_begin;
-      if (m_memory_begin == NULL) {
+      char *memory = reinterpret_cast<char *>(malloc(capacity_bytes));
+      if (memory == NULL) {
         m_memory_handles.pop_back();
         throw std::bad_alloc();
       }
+      m_memory_handles.back() = memory;
+      m_memory_begin = memory;
       m_memory_current = m_memory_begin;
       m_memory_end = m_memory_current + capacity_bytes;
       m_total_allocated_capacity += capacity_bytes;
@@ -64,10 +65,11 @@ namespace nd {
                                              ~(data_alignment - 1));
       char *end = begin + size_bytes;
       if (end > m_memory_end) {
-        m_total_allocated_capacity -= m_memory_end - m_memory_current;
+        intptr_t unused_bytes = m_memory_end - m_memory_current;
         // Allocate memory to double the amount used so far, or the requested size, whichever is larger
         // NOTE: We're assuming malloc produces memory which has good enough alignment for anything
-        append_memory(std::max(m_total_allocated_capacity, size_bytes));
+        append_memory(std::max(m_total_allocated_capacity - unused_bytes, size_bytes));
+        m_total_allocated_capacity -= unused_bytes;
         begin = m_memory_begin;
         end = begin + size_bytes;
       }
@@ -88,24 +90,20 @@ namespace nd {
       //    cout << "memory state before " << (void *)emb->m_memory_begin << " / " << (void *)emb->m_memory_current << "
       //    /
       // " << (void *)emb->m_memory_end << endl;
-      char **inout_end = &m_memory_current;
       char *end = inout_begin + size_bytes;
       if (end <= m_memory_end) {
         // If it fits, just adjust the current allocation point
         m_memory_current = end;
-        *inout_end = end;
       } else {
         // If it doesn't fit, need to copy to newly malloc'd memory
-        char *old_current = inout_begin, *old_end = *inout_end;
+        intptr_t old_size_bytes = m_memory_current - inout_begin;
         // Allocate memory to double the amount used so far, or the requested size, whichever is larger
         // NOTE: We're assuming malloc produces memory which has good enough alignment for anything
         append_memory(std::max(m_total_allocated_capacity, size_bytes));
-        memcpy(m_memory_begin, inout_begin, *inout_end - inout_begin);
-        end = m_memory_begin + size_bytes;
-        m_memory_current = end;
+        memcpy(m_memory_begin, inout_begin, old_size_bytes);
         inout_begin = m_memory_begin;
-        *inout_end = end;
-        m_total_allocated_capacity -= old_end - old_current;
+        m_memory_current = m_memory_begin + size_bytes;
+        m_total_allocated_capacity -= old_size_bytes;
       }
       //    cout << "memory state after " << (void *)emb->m_memory_begin << " / " << (void *)emb->m_memory_current << "
       //    /
diff --git a/include/dynd/memblock/zeroinit_memory_block.hpp b/include/dynd/memblock/zeroinit_memory_block.hpp
index d92e1d9..ede5c11 100644
--- a/include/dynd/memblock/zeroinit_memory_block.hpp
+++ b/include/dynd/memblock/zeroinit_memory_block.hpp
@@ -48,12 +48,13 @@ namespace nd {
      */
     void append_memory(intptr_t capacity_bytes) {
       m_memory_handles.push_back(NULL);
-      m_memory_begin = reinterpret_cast<char *>(malloc(capacity_bytes));
-      m_memory_handles.back() = m_memory_begin;
-      if (m_memory_begin == NULL) {
+      char *memory = reinterpret_cast<char *>(malloc(capacity_bytes));
+      if (memory == NULL) {
         m_memory_handles.pop_back();
         throw std::bad_alloc();
       }
+      m_memory_handles.back() = memory;
+      m_memory_begin = memory;
       m_memory_current = m_memory_begin;
       m_memory_end = m_memory_current + capacity_bytes;
       m_total_allocated_capacity += capacity_bytes;
@@ -67,10 +68,11 @@ namespace nd {
                                              ~(data_alignment - 1));
       char *end = begin + size_bytes;
       if (end > m_memory_end) {
-        m_total_allocated_capacity -= m_memory_end - m_memory_current;
+        intptr_t unused_bytes = m_memory_end - m_memory_current;
         // Allocate memory to double the amount used so far, or the requested size, whichever is larger
         // NOTE: We're assuming malloc produces memory which has good enough alignment for anything
-        append_memory(std::max(m_total_allocated_capacity, size_bytes));
+        append_memory(std::max(m_total_allocated_capacity - unused_bytes, size_bytes));
+        m_total_allocated_capacity -= unused_bytes;
         begin = m_memory_begin;
         end = begin + size_bytes;
       }
@@ -93,32 +95,26 @@ namespace nd {
       // (*inout_end - *inout_begin) << " to " << size_bytes << endl;
       //    cout << "memory state before " << (void *)m_memory_begin << " / " << (void *)m_memory_current << " /
       // " << (void *)m_memory_end << endl;
-      char **inout_end = &m_memory_current;
       char *end = inout_begin + size_bytes;
       if (end <= m_memory_end) {
         // If it fits, just adjust the current allocation point
-        m_memory_current = end;
         // Zero-initialize any newly allocated memory
-        if (end > *inout_end) {
-          memset(*inout_end, 0, end - *inout_end);
+        if (end > m_memory_current) {
+          memset(m_memory_current, 0, end - m_memory_current);
         }
-        *inout_end = end;
+        m_memory_current = end;
       } else {
         // If it doesn't fit, need to copy to newly malloc'd memory
-        char *old_current = inout_begin, *old_end = *inout_end;
-        intptr_t old_size_bytes = *inout_end - inout_begin;
+        intptr_t old_size_bytes = m_memory_current - inout_begin;
         // Allocate memory to double the amount used so far, or the requested size, whichever is larger
         // NOTE: We're assuming malloc produces memory which has good enough alignment for anything
         append_memory(std::max(m_total_allocated_capacity, size_bytes));
         memcpy(m_memory_begin, inout_begin, old_size_bytes);
-        end = m_memory_begin + size_bytes;
-        m_memory_current = end;
         // Zero-initialize the newly allocated memory
         memset(m_memory_begin + old_size_bytes, 0, size_bytes - old_size_bytes);
-
         inout_begin = m_memory_begin;
-        *inout_end = end;
-        m_total_allocated_capacity -= old_end - old_current;
+        m_memory_current = m_memory_begin + size_bytes;
+        m_total_allocated_capacity -= old_size_bytes;
       }
       //    cout << "memory state after " << (void *)m_memory_begin << " / " << (void *)m_memory_current << " /
       // " << (void *)m_memory_end << endl;
-- 
2.43.0


From 3cea4417d2b0784bb8d278c5ace563e608745cae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:14 +0000
Subject: [PATCH 013/117] fix: strings and bytes assigned or appended from
 their own data, and resized inline

---
 include/dynd/types/sso_bytestring.hpp | 33 ++++++++++++++++++---------
 1 file changed, 22 insertions(+), 11 deletions(-)

diff --git a/include/dynd/types/sso_bytestring.hpp b/include/dynd/types/sso_bytestring.hpp
index 37f7ae0..5b75a48 100644
--- a/include/dynd/types/sso_bytestring.hpp
+++ b/include/dynd/types/sso_bytestring.hpp
@@ -34,10 +34,15 @@ protected:
   constexpr size_t sso_capacity() const { return 15u - NulPadding; }
   /** When the object has no memory allocated and `size` is <= capacity(), do straight SSO assignment */
   void sso_assign(const char *data, size_t size) {
-      m_size = static_cast<int64_t>(static_cast<uint64_t>(size) << 56);
-      DYND_MEMCPY(sso_data(), data, size);
+      // NOTE: The source may be inside this object, so the size is only set after copying
+      memmove(sso_data(), data, size);
       // Zero out the rest of the bytes for a unique representation
       memset(sso_data() + size, 0, 15u - size);
+      sso_set_size(size);
+  }
+  void sso_set_size(size_t size) {
+      m_size = static_cast<int64_t>((static_cast<uint64_t>(m_size) & ~(static_cast<uint64_t>(0xff) << 56)) |
+                                    (static_cast<uint64_t>(size) << 56));
   }
 
   /** When SSO is not used, the size is stored in m_size */
@@ -116,7 +121,7 @@ public:
       }
     } else if (size <= capacity()) {
       char *heapdata = heap_data();
-      DYND_MEMCPY(heapdata, bytestr, size);
+      memmove(heapdata, bytestr, size);
       if (NulPadding) {
         heapdata[size] = 0;
       }
@@ -134,20 +139,26 @@ public:
   }
 
   sso_bytestring &operator=(sso_bytestring &&rhs) {
-    if (!is_sso()) {
-      delete[] heap_buffer();
+    if (this != &rhs) {
+      if (!is_sso()) {
+        delete[] heap_buffer();
+      }
+      m_pointer = rhs.m_pointer;
+      m_size = rhs.m_size;
+      rhs.m_pointer = 0;
+      rhs.m_size = 0;
     }
-    m_pointer = rhs.m_pointer;
-    m_size = rhs.m_size;
-    rhs.m_pointer = 0;
-    rhs.m_size = 0;
     return *this;
   }
 
   void append(const char *bytestr, size_t bssize) {
     size_t old_size = size();
+    // The source may be inside this object, where growing moves it
+    const char *old_data = data();
+    bool is_alias = bytestr >= old_data && bytestr <= old_data + old_size;
+    size_t alias_offset = is_alias ? bytestr - old_data : 0;
     resize_grow(old_size + bssize);
-    DYND_MEMCPY(data() + old_size, bytestr, bssize);
+    DYND_MEMCPY(data() + old_size, is_alias ? data() + alias_offset : bytestr, bssize);
   }
 
   void clear() {
@@ -180,7 +191,7 @@ public:
   void resize(size_t new_size) {
     reserve(new_size);
     if (is_sso()) {
-      m_size = static_cast<int64_t>(static_cast<uint64_t>(m_size) | (static_cast<uint64_t>(new_size) << 56));
+      sso_set_size(new_size);
       // Always keep the unused SSO bytes as 0 for unique representation and NUL-padding when that is enabled
       memset(sso_data() + new_size, 0, 15u - new_size);
     } else {
-- 
2.43.0


From 05afe2878f0cd08a641e9f17cdc0a515ed90794a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:39 +0000
Subject: [PATCH 014/117] fix: a failed allocation while creating an array of
 tuples or structs

Arrmeta is zeroed and destructed by its owner, so destructing part of it in
place (and through the wrong field) released it twice.
---
 src/dynd/types/struct_type.cpp | 15 ++-------------
 src/dynd/types/tuple_type.cpp  | 15 ++-------------
 2 files changed, 4 insertions(+), 26 deletions(-)

diff --git a/src/dynd/types/struct_type.cpp b/src/dynd/types/struct_type.cpp
index 9933419..6c92d12 100644
--- a/src/dynd/types/struct_type.cpp
+++ b/src/dynd/types/struct_type.cpp
@@ -328,19 +328,8 @@ void ndt::struct_type::arrmeta_default_construct(char *arrmeta, bool blockref_al
   for (intptr_t i = 0, i_end = get_field_count(); i != i_end; ++i) {
     const type &tp = field_tps[i];
     if (!tp.is_builtin()) {
-      try {
-        tp.extended()->arrmeta_default_construct(arrmeta + m_arrmeta_offsets[i], blockref_alloc);
-      } catch (...) {
-        // Since we're explicitly controlling the memory, need to manually do
-        // the cleanup too
-        for (intptr_t j = 0; j < i; ++j) {
-          const type &ft = get_field_type(j);
-          if (!ft.is_builtin()) {
-            ft.extended()->arrmeta_destruct(arrmeta + m_arrmeta_offsets[i]);
-          }
-        }
-        throw;
-      }
+      // NOTE: If this throws, the owner of the zero-initialized arrmeta destructs all of it
+      tp.extended()->arrmeta_default_construct(arrmeta + m_arrmeta_offsets[i], blockref_alloc);
     }
   }
 }
diff --git a/src/dynd/types/tuple_type.cpp b/src/dynd/types/tuple_type.cpp
index 5d774b5..22fa578 100644
--- a/src/dynd/types/tuple_type.cpp
+++ b/src/dynd/types/tuple_type.cpp
@@ -266,19 +266,8 @@ void ndt::tuple_type::arrmeta_default_construct(char *arrmeta, bool blockref_all
   for (intptr_t i = 0, i_end = get_field_count(); i != i_end; ++i) {
     const type &tp = field_tps[i];
     if (!tp.is_builtin()) {
-      try {
-        tp.extended()->arrmeta_default_construct(arrmeta + m_arrmeta_offsets[i], blockref_alloc);
-      } catch (...) {
-        // Since we're explicitly controlling the memory, need to manually do
-        // the cleanup too
-        for (intptr_t j = 0; j < i; ++j) {
-          const type &ft = get_field_type(j);
-          if (!ft.is_builtin()) {
-            ft.extended()->arrmeta_destruct(arrmeta + m_arrmeta_offsets[i]);
-          }
-        }
-        throw;
-      }
+      // NOTE: If this throws, the owner of the zero-initialized arrmeta destructs all of it
+      tp.extended()->arrmeta_default_construct(arrmeta + m_arrmeta_offsets[i], blockref_alloc);
     }
   }
 }
-- 
2.43.0


From f2eb92229e31aecd650e991b1425d43322b03131 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:02 +0000
Subject: [PATCH 015/117] fix: option assignment of more than one chunk of
 elements

---
 include/dynd/kernels/assignment_kernels.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/dynd/kernels/assignment_kernels.hpp b/include/dynd/kernels/assignment_kernels.hpp
index 78bcd5b..3d60146 100644
--- a/include/dynd/kernels/assignment_kernels.hpp
+++ b/include/dynd/kernels/assignment_kernels.hpp
@@ -792,19 +792,19 @@ namespace nd {
         kernel_strided_t dst_assign_na_fn = dst_assign_na->get_function<kernel_strided_t>();
         // Process in chunks using the dynd default buffer size
         bool1 missing[DYND_BUFFER_CHUNK_SIZE];
+        char *src_copy = src[0];
         while (count > 0) {
           size_t chunk_size = std::min(count, (size_t)DYND_BUFFER_CHUNK_SIZE);
           count -= chunk_size;
-          src_is_na_fn(src_is_na, reinterpret_cast<char *>(missing), 1, src, src_stride, chunk_size);
+          src_is_na_fn(src_is_na, reinterpret_cast<char *>(missing), 1, &src_copy, src_stride, chunk_size);
           void *missing_ptr = missing;
-          char *src_copy = src[0];
           do {
             // Process a run of available values
             void *next_missing_ptr = memchr(missing_ptr, 1, chunk_size);
             if (!next_missing_ptr) {
               value_assign_fn(value_assign, dst, dst_stride, &src_copy, src_stride, chunk_size);
               dst += chunk_size * dst_stride;
-              src += chunk_size * src_stride[0];
+              src_copy += chunk_size * src_stride[0];
               break;
             } else if (next_missing_ptr > missing_ptr) {
               size_t segment_size = (char *)next_missing_ptr - (char *)missing_ptr;
-- 
2.43.0


From c520928ca5a1ad2b9e1f2efc281ce43e85ce4a80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:33 +0000
Subject: [PATCH 016/117] fix: kernels are destroyed correctly when a child
 could not be created

---
 include/dynd/kernels/assignment_kernels.hpp | 10 +++++-----
 include/dynd/kernels/base_kernel.hpp        |  6 +++++-
 include/dynd/kernels/compose_kernel.hpp     |  2 +-
 include/dynd/kernels/parse_kernel.hpp       |  2 +-
 include/dynd/kernels/reduction_kernel.hpp   | 14 +++++++++-----
 5 files changed, 21 insertions(+), 13 deletions(-)

diff --git a/include/dynd/kernels/assignment_kernels.hpp b/include/dynd/kernels/assignment_kernels.hpp
index 3d60146..06899c4 100644
--- a/include/dynd/kernels/assignment_kernels.hpp
+++ b/include/dynd/kernels/assignment_kernels.hpp
@@ -749,8 +749,8 @@ namespace nd {
         : base_strided_kernel<assignment_kernel<ndt::option_type, ndt::option_type, ErrorMode>, 1> {
       // The default child is the src is_avail ckernel
       // This child is the dst assign_na ckernel
-      size_t m_dst_assign_na_offset;
-      size_t m_value_assign_offset;
+      size_t m_dst_assign_na_offset = 0;
+      size_t m_value_assign_offset = 0;
 
       ~assignment_kernel() {
         // src_is_avail
@@ -856,7 +856,7 @@ namespace nd {
     };
 
     struct DYND_API string_to_option_tp_ck : nd::base_strided_kernel<string_to_option_tp_ck, 1> {
-      intptr_t m_dst_assign_na_offset;
+      intptr_t m_dst_assign_na_offset = 0;
 
       ~string_to_option_tp_ck() {
         // value_assign
@@ -888,7 +888,7 @@ namespace nd {
    */
   struct DYND_API option_to_value_ck : nd::base_strided_kernel<option_to_value_ck, 1> {
     // The default child is the src_is_na ckernel
-    size_t m_value_assign_offset;
+    size_t m_value_assign_offset = 0;
 
     ~option_to_value_ck() {
       // src_is_na
@@ -1336,7 +1336,7 @@ namespace nd {
     };
 
     struct adapt_assign_from_kernel : base_strided_kernel<adapt_assign_from_kernel, 1> {
-      intptr_t forward_offset;
+      intptr_t forward_offset = 0;
       array buffer;
 
       adapt_assign_from_kernel(const ndt::type &buffer_tp) : buffer(empty(buffer_tp)) {}
diff --git a/include/dynd/kernels/base_kernel.hpp b/include/dynd/kernels/base_kernel.hpp
index eb11185..72fda4c 100644
--- a/include/dynd/kernels/base_kernel.hpp
+++ b/include/dynd/kernels/base_kernel.hpp
@@ -85,7 +85,11 @@ namespace nd {
      * The ckernel destructor function, which is placed in
      * the kernel_prefix destructor.
      */
-    static void destruct(kernel_prefix *self) { reinterpret_cast<SelfType *>(self)->~SelfType(); }
+    static void destruct(kernel_prefix *self) {
+      // A child which was not created yet has offset 0, which is this kernel
+      self->destructor = NULL;
+      reinterpret_cast<SelfType *>(self)->~SelfType();
+    }
 
     void call(array *DYND_UNUSED(dst), const array *DYND_UNUSED(src)) {
       std::stringstream ss;
diff --git a/include/dynd/kernels/compose_kernel.hpp b/include/dynd/kernels/compose_kernel.hpp
index f397cbb..2f48fc6 100644
--- a/include/dynd/kernels/compose_kernel.hpp
+++ b/include/dynd/kernels/compose_kernel.hpp
@@ -20,7 +20,7 @@ namespace nd {
      */
     // All methods are inlined, so this does not need to be declared DYND_API.
     struct compose_kernel : base_strided_kernel<compose_kernel, 1> {
-      intptr_t second_offset; // The offset to the second child kernel
+      intptr_t second_offset = 0; // The offset to the second child kernel
       ndt::type buffer_tp;
       arrmeta_holder buffer_arrmeta;
       std::vector<intptr_t> buffer_shape;
diff --git a/include/dynd/kernels/parse_kernel.hpp b/include/dynd/kernels/parse_kernel.hpp
index 196be58..fd7c09f 100644
--- a/include/dynd/kernels/parse_kernel.hpp
+++ b/include/dynd/kernels/parse_kernel.hpp
@@ -205,7 +205,7 @@ namespace nd {
 
     template <>
     struct parse_kernel<ndt::option_type> : base_strided_kernel<parse_kernel<ndt::option_type>, 2> {
-      intptr_t parse_offset;
+      intptr_t parse_offset = 0;
 
       ~parse_kernel() {
         get_child()->destroy();
diff --git a/include/dynd/kernels/reduction_kernel.hpp b/include/dynd/kernels/reduction_kernel.hpp
index 58f6a9b..01cf5eb 100644
--- a/include/dynd/kernels/reduction_kernel.hpp
+++ b/include/dynd/kernels/reduction_kernel.hpp
@@ -69,7 +69,11 @@ namespace nd {
         self->set_followup_call_function(SelfType::strided_followup_wrapper);
       }
 
-      static void destruct(kernel_prefix *self) { reinterpret_cast<SelfType *>(self)->~SelfType(); }
+      static void destruct(kernel_prefix *self) {
+        // A child which was not created yet has offset 0, which is this kernel
+        self->destructor = NULL;
+        reinterpret_cast<SelfType *>(self)->~SelfType();
+      }
 
       constexpr size_t size() const { return sizeof(SelfType); }
 
@@ -228,7 +232,7 @@ namespace nd {
       intptr_t src_stride_first[NArg];
       intptr_t _size;
       intptr_t src_stride[NArg];
-      size_t init_offset;
+      size_t init_offset = 0;
 
       ~reduction_kernel() {
         this->get_child()->destroy();
@@ -323,7 +327,7 @@ namespace nd {
     struct reduction_kernel<ndt::var_dim_type, false, true, NArg>
         : base_reduction_kernel<reduction_kernel<ndt::var_dim_type, false, true, NArg>, NArg> {
       intptr_t src0_inner_stride;
-      intptr_t init_offset;
+      intptr_t init_offset = 0;
 
       reduction_kernel(std::intptr_t src0_inner_stride) : src0_inner_stride(src0_inner_stride) {}
 
@@ -372,7 +376,7 @@ namespace nd {
 
     template <size_t NArg>
     struct scalar_reduction_kernel : base_strided_kernel<scalar_reduction_kernel<NArg>, NArg> {
-      intptr_t init_offset;
+      intptr_t init_offset = 0;
 
       ~scalar_reduction_kernel() {
         this->get_child(init_offset)->destroy();
@@ -536,7 +540,7 @@ namespace nd {
       intptr_t _size;
       intptr_t dst_stride;
       intptr_t src_stride[NArg];
-      size_t dst_init_kernel_offset;
+      size_t dst_init_kernel_offset = 0;
 
       intptr_t size_first;
       intptr_t dst_stride_first;
-- 
2.43.0


From 4228c484af5fdbb1b67f562d888620fe7cd1097b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:33 +0000
Subject: [PATCH 017/117] fix: var dims of objects without any data

---
 include/dynd/memblock/objectarray_memory_block.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/dynd/memblock/objectarray_memory_block.hpp b/include/dynd/memblock/objectarray_memory_block.hpp
index d60eb34..4da4fb0 100644
--- a/include/dynd/memblock/objectarray_memory_block.hpp
+++ b/include/dynd/memblock/objectarray_memory_block.hpp
@@ -122,7 +122,7 @@ namespace nd {
 
     char *resize(char *previous_allocated, size_t count) {
       memory_chunk *mc = &m_memory_handles.back();
-      size_t previous_index = (previous_allocated - mc->memory) / m_stride;
+      size_t previous_index = m_stride != 0 ? (previous_allocated - mc->memory) / m_stride : 0;
       size_t previous_count = mc->used_count - previous_index;
       char *result = previous_allocated;
 
-- 
2.43.0


From bc13d1b1da438a1e18d7a2e205a4192481ffa3a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:16 +0000
Subject: [PATCH 018/117] fix: print long arrays whose inner elements are wider
 than a row

The grid layout is chosen from the first and last elements; an element in between
that is wider than 73 columns made the number of elements per row zero, and the
remainder by it trapped.
---
 src/dynd/type.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dynd/type.cpp b/src/dynd/type.cpp
index 3b2793a..e53c4ad 100644
--- a/src/dynd/type.cpp
+++ b/src/dynd/type.cpp
@@ -724,7 +724,7 @@ void dynd::strided_array_summarized(std::ostream &o, const ndt::type &tp, const
       total_cols = (max_num_cols + 2) * (leading.size() + trailing.size());
     }
 
-    intptr_t per_row = packing_cols / (max_num_cols + 2);
+    intptr_t per_row = max(packing_cols / (max_num_cols + 2), (intptr_t)1);
 
     if (leading.size() + trailing.size() == (size_t)dim_size) {
       // Combine the lists if the total size is covered
-- 
2.43.0


From 49d031d9c566713d2cf2030217516750ccfde2cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:40 +0000
Subject: [PATCH 019/117] fix: separate the rows of a printed array when the
 last row has one element

Nothing was written between the row before and a last row of a single element.
---
 src/dynd/type.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/dynd/type.cpp b/src/dynd/type.cpp
index e53c4ad..b2cdd97 100644
--- a/src/dynd/type.cpp
+++ b/src/dynd/type.cpp
@@ -750,7 +750,7 @@ void dynd::strided_array_summarized(std::ostream &o, const ndt::type &tp, const
       for (j = 1; j < per_row && i < i_size; ++j, ++i) {
         o << ", " << setw(max_num_cols) << leading[i] << setw(0);
       }
-      if (i < i_size - 1) {
+      if (i < i_size) {
         o << ",\n";
       }
     }
@@ -764,7 +764,7 @@ void dynd::strided_array_summarized(std::ostream &o, const ndt::type &tp, const
         for (j = 1; j < per_row && i < i_size; ++j, ++i) {
           o << ", " << setw(max_num_cols) << trailing[i] << setw(0);
         }
-        if (i < i_size - 1) {
+        if (i < i_size) {
           o << ",\n";
         }
       }
-- 
2.43.0


From a5f794ce781e8fd131e1bc099c4a3aca82e18113 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:46 +0000
Subject: [PATCH 020/117] fix: check the divisor for zero when it is unsigned

The check for an integer divisor looked at the dividend's type, so dividing a
signed integer by an unsigned zero trapped and dividing an unsigned integer by
0.0 was refused.
---
 include/dynd/kernels/arithmetic.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/dynd/kernels/arithmetic.hpp b/include/dynd/kernels/arithmetic.hpp
index 9111f3b..61ffefb 100644
--- a/include/dynd/kernels/arithmetic.hpp
+++ b/include/dynd/kernels/arithmetic.hpp
@@ -163,7 +163,7 @@ namespace detail {
     return (std::is_same<Arg0Type, bool1>::value || is_signed_integral<Arg0Type>::value ||
             is_unsigned_integral<Arg0Type>::value) &&
            (std::is_same<Arg1Type, bool1>::value || is_signed_integral<Arg1Type>::value ||
-            is_unsigned_integral<Arg0Type>::value);
+            is_unsigned_integral<Arg1Type>::value);
   }
 
 #define DYND_DEF_BINARY_OP_CALLABLE_ZEROCHECK_INT(OP, NAME)                                                            \
-- 
2.43.0


From 4aa7a82b1c118fcbca42164ba15bc8d9875fcd4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:07 +0000
Subject: [PATCH 021/117] fix: refuse to store a computed value in a
 destination of another type

A "dst" whose type was not the type the kernel computes was written to all the
same, as many bytes as the computed type has, past the end of smaller ones.
---
 include/dynd/callables/base_apply_callable.hpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/include/dynd/callables/base_apply_callable.hpp b/include/dynd/callables/base_apply_callable.hpp
index 7d6580a..f18c90f 100644
--- a/include/dynd/callables/base_apply_callable.hpp
+++ b/include/dynd/callables/base_apply_callable.hpp
@@ -28,6 +28,13 @@ namespace nd {
       ndt::type resolve_return_type(const ndt::type &dst_tp, size_t DYND_UNUSED(nsrc),
                                     const ndt::type *DYND_UNUSED(src_tp), size_t DYND_UNUSED(nkwd),
                                     const array *DYND_UNUSED(kwds)) {
+        // The kernel stores a ReturnType, whatever the destination was allocated for
+        if (!this->get_ret_type().match(dst_tp)) {
+          std::stringstream ss;
+          ss << "cannot store a result of type " << this->get_ret_type() << " in a destination of type " << dst_tp;
+          throw type_error(ss.str());
+        }
+
         return dst_tp;
       }
     };
-- 
2.43.0


From 97ada0984c18f720db8edc0d448aa19ee7bad807 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:30 +0000
Subject: [PATCH 022/117] fix: compare tuples and structs with more than eight
 fields, or other layouts

Equality of tuples and structs kept the arrmeta offsets of their fields in eight
slots, read both sides with the arrmeta of the first, asked for strided field
kernels where it was itself in a strided one, and read past the shorter of two
with different numbers of fields.
---
 include/dynd/callables/equal_callable.hpp     | 37 ++++++++++---------
 include/dynd/callables/not_equal_callable.hpp | 37 ++++++++++---------
 2 files changed, 38 insertions(+), 36 deletions(-)

diff --git a/include/dynd/callables/equal_callable.hpp b/include/dynd/callables/equal_callable.hpp
index 92ab234..be3ebcc 100644
--- a/include/dynd/callables/equal_callable.hpp
+++ b/include/dynd/callables/equal_callable.hpp
@@ -7,6 +7,7 @@
 
 #include <dynd/callables/default_instantiable_callable.hpp>
 #include <dynd/comparison.hpp>
+#include <dynd/exceptions.hpp>
 #include <dynd/kernels/equal_kernel.hpp>
 
 namespace dynd {
@@ -32,14 +33,14 @@ namespace nd {
                       const ndt::type &dst_tp, size_t DYND_UNUSED(nsrc), const ndt::type *src_tp, size_t nkwd,
                       const array *kwds, const std::map<std::string, ndt::type> &tp_vars) {
       size_t field_count = src_tp[0].extended<ndt::tuple_type>()->get_field_count();
-
-      auto bsd = src_tp->extended<ndt::tuple_type>();
-      std::array<uintptr_t, 8> arrmeta_offsets;
-      for (size_t i = 0; i < field_count; ++i) {
-        arrmeta_offsets[i] = bsd->get_arrmeta_offsets()[i];
+      if (src_tp[1].extended<ndt::tuple_type>()->get_field_count() != static_cast<intptr_t>(field_count)) {
+        throw not_comparable_error(src_tp[0], src_tp[1], comparison_type_equal);
       }
 
-      cg.emplace_back([field_count, arrmeta_offsets](kernel_builder &kb, kernel_request_t kernreq,
+      std::vector<uintptr_t> src0_arrmeta_offsets = src_tp[0].extended<ndt::tuple_type>()->get_arrmeta_offsets();
+      std::vector<uintptr_t> src1_arrmeta_offsets = src_tp[1].extended<ndt::tuple_type>()->get_arrmeta_offsets();
+
+      cg.emplace_back([field_count, src0_arrmeta_offsets, src1_arrmeta_offsets](kernel_builder &kb, kernel_request_t kernreq,
                                                      char *DYND_UNUSED(data), const char *dst_arrmeta, size_t nsrc,
                                                      const char *const *src_arrmeta) {
         intptr_t self_offset = kb.size();
@@ -60,9 +61,9 @@ namespace nd {
           e = kb.get_at<equal_kernel<ndt::tuple_type, ndt::tuple_type>>(self_offset);
           field_kernel_offsets = reinterpret_cast<size_t *>(e + 1);
           field_kernel_offsets[i] = kb.size() - self_offset;
-          const char *field_arrmeta = src_arrmeta[0] + arrmeta_offsets[i];
-          const char *child_src_arrmeta[2] = {field_arrmeta, field_arrmeta};
-          kb(kernreq | kernel_request_data_only, nullptr, dst_arrmeta, nsrc, child_src_arrmeta);
+          const char *child_src_arrmeta[2] = {src_arrmeta[0] + src0_arrmeta_offsets[i],
+                                              src_arrmeta[1] + src1_arrmeta_offsets[i]};
+          kb(kernel_request_single, nullptr, dst_arrmeta, nsrc, child_src_arrmeta);
         }
       });
 
@@ -88,14 +89,14 @@ namespace nd {
                       const ndt::type &dst_tp, size_t DYND_UNUSED(nsrc), const ndt::type *src_tp, size_t nkwd,
                       const array *kwds, const std::map<std::string, ndt::type> &tp_vars) {
       size_t field_count = src_tp[0].extended<ndt::struct_type>()->get_field_count();
-
-      auto bsd = src_tp->extended<ndt::struct_type>();
-      std::array<uintptr_t, 8> arrmeta_offsets;
-      for (size_t i = 0; i < field_count; ++i) {
-        arrmeta_offsets[i] = bsd->get_arrmeta_offsets()[i];
+      if (src_tp[1].extended<ndt::struct_type>()->get_field_names() != src_tp[0].extended<ndt::struct_type>()->get_field_names()) {
+        throw not_comparable_error(src_tp[0], src_tp[1], comparison_type_equal);
       }
 
-      cg.emplace_back([field_count, arrmeta_offsets](kernel_builder &kb, kernel_request_t kernreq,
+      std::vector<uintptr_t> src0_arrmeta_offsets = src_tp[0].extended<ndt::struct_type>()->get_arrmeta_offsets();
+      std::vector<uintptr_t> src1_arrmeta_offsets = src_tp[1].extended<ndt::struct_type>()->get_arrmeta_offsets();
+
+      cg.emplace_back([field_count, src0_arrmeta_offsets, src1_arrmeta_offsets](kernel_builder &kb, kernel_request_t kernreq,
                                                      char *DYND_UNUSED(data), const char *dst_arrmeta, size_t nsrc,
                                                      const char *const *src_arrmeta) {
         intptr_t self_offset = kb.size();
@@ -116,9 +117,9 @@ namespace nd {
           e = kb.get_at<equal_kernel<ndt::struct_type, ndt::struct_type>>(self_offset);
           field_kernel_offsets = reinterpret_cast<size_t *>(e + 1);
           field_kernel_offsets[i] = kb.size() - self_offset;
-          const char *field_arrmeta = src_arrmeta[0] + arrmeta_offsets[i];
-          const char *child_src_arrmeta[2] = {field_arrmeta, field_arrmeta};
-          kb(kernreq | kernel_request_data_only, nullptr, dst_arrmeta, nsrc, child_src_arrmeta);
+          const char *child_src_arrmeta[2] = {src_arrmeta[0] + src0_arrmeta_offsets[i],
+                                              src_arrmeta[1] + src1_arrmeta_offsets[i]};
+          kb(kernel_request_single, nullptr, dst_arrmeta, nsrc, child_src_arrmeta);
         }
       });
 
diff --git a/include/dynd/callables/not_equal_callable.hpp b/include/dynd/callables/not_equal_callable.hpp
index 2a9d07c..ad0419c 100644
--- a/include/dynd/callables/not_equal_callable.hpp
+++ b/include/dynd/callables/not_equal_callable.hpp
@@ -7,6 +7,7 @@
 
 #include <dynd/callables/default_instantiable_callable.hpp>
 #include <dynd/comparison.hpp>
+#include <dynd/exceptions.hpp>
 #include <dynd/kernels/not_equal_kernel.hpp>
 
 namespace dynd {
@@ -32,14 +33,14 @@ namespace nd {
                       const ndt::type &dst_tp, size_t DYND_UNUSED(nsrc), const ndt::type *src_tp, size_t nkwd,
                       const array *kwds, const std::map<std::string, ndt::type> &tp_vars) {
       size_t field_count = src_tp[0].extended<ndt::tuple_type>()->get_field_count();
-
-      auto bsd = src_tp->extended<ndt::tuple_type>();
-      std::array<uintptr_t, 8> arrmeta_offsets;
-      for (size_t i = 0; i < field_count; ++i) {
-        arrmeta_offsets[i] = bsd->get_arrmeta_offsets()[i];
+      if (src_tp[1].extended<ndt::tuple_type>()->get_field_count() != static_cast<intptr_t>(field_count)) {
+        throw not_comparable_error(src_tp[0], src_tp[1], comparison_type_not_equal);
       }
 
-      cg.emplace_back([field_count, arrmeta_offsets](kernel_builder &kb, kernel_request_t kernreq,
+      std::vector<uintptr_t> src0_arrmeta_offsets = src_tp[0].extended<ndt::tuple_type>()->get_arrmeta_offsets();
+      std::vector<uintptr_t> src1_arrmeta_offsets = src_tp[1].extended<ndt::tuple_type>()->get_arrmeta_offsets();
+
+      cg.emplace_back([field_count, src0_arrmeta_offsets, src1_arrmeta_offsets](kernel_builder &kb, kernel_request_t kernreq,
                                                      char *DYND_UNUSED(data), const char *dst_arrmeta, size_t nsrc,
                                                      const char *const *src_arrmeta) {
         intptr_t self_offset = kb.size();
@@ -60,9 +61,9 @@ namespace nd {
           e = kb.get_at<not_equal_kernel<ndt::tuple_type, ndt::tuple_type>>(self_offset);
           field_kernel_offsets = reinterpret_cast<size_t *>(e + 1);
           field_kernel_offsets[i] = kb.size() - self_offset;
-          const char *field_arrmeta = src_arrmeta[0] + arrmeta_offsets[i];
-          const char *child_src_arrmeta[2] = {field_arrmeta, field_arrmeta};
-          kb(kernreq | kernel_request_data_only, nullptr, dst_arrmeta, nsrc, child_src_arrmeta);
+          const char *child_src_arrmeta[2] = {src_arrmeta[0] + src0_arrmeta_offsets[i],
+                                              src_arrmeta[1] + src1_arrmeta_offsets[i]};
+          kb(kernel_request_single, nullptr, dst_arrmeta, nsrc, child_src_arrmeta);
         }
       });
 
@@ -88,14 +89,14 @@ namespace nd {
                       const ndt::type &dst_tp, size_t DYND_UNUSED(nsrc), const ndt::type *src_tp, size_t nkwd,
                       const array *kwds, const std::map<std::string, ndt::type> &tp_vars) {
       size_t field_count = src_tp[0].extended<ndt::struct_type>()->get_field_count();
-
-      auto bsd = src_tp->extended<ndt::struct_type>();
-      std::array<uintptr_t, 8> arrmeta_offsets;
-      for (size_t i = 0; i < field_count; ++i) {
-        arrmeta_offsets[i] = bsd->get_arrmeta_offsets()[i];
+      if (src_tp[1].extended<ndt::struct_type>()->get_field_names() != src_tp[0].extended<ndt::struct_type>()->get_field_names()) {
+        throw not_comparable_error(src_tp[0], src_tp[1], comparison_type_not_equal);
       }
 
-      cg.emplace_back([field_count, arrmeta_offsets](kernel_builder &kb, kernel_request_t kernreq,
+      std::vector<uintptr_t> src0_arrmeta_offsets = src_tp[0].extended<ndt::struct_type>()->get_arrmeta_offsets();
+      std::vector<uintptr_t> src1_arrmeta_offsets = src_tp[1].extended<ndt::struct_type>()->get_arrmeta_offsets();
+
+      cg.emplace_back([field_count, src0_arrmeta_offsets, src1_arrmeta_offsets](kernel_builder &kb, kernel_request_t kernreq,
                                                      char *DYND_UNUSED(data), const char *dst_arrmeta, size_t nsrc,
                                                      const char *const *src_arrmeta) {
         intptr_t self_offset = kb.size();
@@ -116,9 +117,9 @@ namespace nd {
           e = kb.get_at<not_equal_kernel<ndt::struct_type, ndt::struct_type>>(self_offset);
           field_kernel_offsets = reinterpret_cast<size_t *>(e + 1);
           field_kernel_offsets[i] = kb.size() - self_offset;
-          const char *field_arrmeta = src_arrmeta[0] + arrmeta_offsets[i];
-          const char *child_src_arrmeta[2] = {field_arrmeta, field_arrmeta};
-          kb(kernreq | kernel_request_data_only, nullptr, dst_arrmeta, nsrc, child_src_arrmeta);
+          const char *child_src_arrmeta[2] = {src_arrmeta[0] + src0_arrmeta_offsets[i],
+                                              src_arrmeta[1] + src1_arrmeta_offsets[i]};
+          kb(kernel_request_single, nullptr, dst_arrmeta, nsrc, child_src_arrmeta);
         }
       });
 
-- 
2.43.0


From 2fa8f43157bad43fe23fe1c0e9913a00f850271a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:29 +0000
Subject: [PATCH 023/117] fix: refuse arithmetic on scalars it is not defined
 for

The elementwise entry for two scalars resolved to the same callable again, without
end, for types such as string which no arithmetic kernel takes.
---
 include/dynd/binary_arithmetic.hpp | 5 -----
 1 file changed, 5 deletions(-)

diff --git a/include/dynd/binary_arithmetic.hpp b/include/dynd/binary_arithmetic.hpp
index b5a4b06..8e62daa 100644
--- a/include/dynd/binary_arithmetic.hpp
+++ b/include/dynd/binary_arithmetic.hpp
@@ -51,11 +51,6 @@ nd::callable make_binary_arithmetic() {
            ndt::make_type<ndt::any_kind_type>(),
            ndt::make_type<ndt::tuple_type>({ndt::make_type<ndt::dim_kind_type>(ndt::make_type<ndt::any_kind_type>()),
                                             ndt::make_type<ndt::dim_kind_type>(ndt::make_type<ndt::any_kind_type>())}),
-           ndt::make_type<ndt::struct_type>())),
-       nd::get_elwise(ndt::make_type<ndt::callable_type>(
-           ndt::make_type<ndt::any_kind_type>(),
-           ndt::make_type<ndt::tuple_type>(
-               {ndt::make_type<ndt::scalar_kind_type>(), ndt::make_type<ndt::scalar_kind_type>()}),
            ndt::make_type<ndt::struct_type>()))});
 
   return nd::make_callable<nd::multidispatch_callable<2>>(tp, dispatcher);
-- 
2.43.0


From ab8017fc67747adaf79e007958e9e7005867fa59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:17 +0000
Subject: [PATCH 024/117] fix: refuse to store comparisons and the like in a
 destination of another type

As for the functions applied by base_apply_callable: the kernel was run on a "dst"
of any type and left the rest of a larger one as it was.
---
 include/dynd/callables/default_instantiable_callable.hpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/include/dynd/callables/default_instantiable_callable.hpp b/include/dynd/callables/default_instantiable_callable.hpp
index a0b6c4c..8af667a 100644
--- a/include/dynd/callables/default_instantiable_callable.hpp
+++ b/include/dynd/callables/default_instantiable_callable.hpp
@@ -22,6 +22,13 @@ namespace nd {
                       const ndt::type &dst_tp, size_t DYND_UNUSED(nsrc), const ndt::type *DYND_UNUSED(src_tp),
                       size_t DYND_UNUSED(nkwd), const array *DYND_UNUSED(kwds),
                       const std::map<std::string, ndt::type> &DYND_UNUSED(tp_vars)) {
+      // The kernel stores what it computes, whatever the destination was allocated for
+      if (!this->get_ret_type().match(dst_tp)) {
+        std::stringstream ss;
+        ss << "cannot store a result of type " << this->get_ret_type() << " in a destination of type " << dst_tp;
+        throw type_error(ss.str());
+      }
+
       cg.emplace_back([](kernel_builder &kb, kernel_request_t kernreq, char *DYND_UNUSED(data),
                          const char *DYND_UNUSED(dst_arrmeta), size_t DYND_UNUSED(nsrc),
                          const char *const *DYND_UNUSED(src_arrmeta)) { kb.emplace_back<KernelType>(kernreq); });
-- 
2.43.0


From 127d81c7c1f0713d6308ae7337aee97ab9380692 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:55 +0000
Subject: [PATCH 025/117] fix: store results which may be missing in a given
 option destination

---
 include/dynd/callables/forward_na_callable.hpp | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/include/dynd/callables/forward_na_callable.hpp b/include/dynd/callables/forward_na_callable.hpp
index 1cd5f5f..986efe9 100644
--- a/include/dynd/callables/forward_na_callable.hpp
+++ b/include/dynd/callables/forward_na_callable.hpp
@@ -60,9 +60,18 @@ namespace nd {
         child = m_child.get();
       }
 
-      ndt::type res_value_tp =
-          child->resolve(this, nullptr, cg, dst_tp.is_symbolic() ? child->get_ret_type() : dst_tp, 2, src_value_tp,
-                         nkwd, kwds, tp_vars);
+      ndt::type res_value_tp;
+      if (dst_tp.is_symbolic()) {
+        res_value_tp = child->get_ret_type();
+      } else if (dst_tp.get_id() == option_id) {
+        res_value_tp = dst_tp.extended<ndt::option_type>()->get_value_type();
+      } else {
+        std::stringstream ss;
+        ss << "cannot store a result which may be missing in a destination of type " << dst_tp;
+        throw type_error(ss.str());
+      }
+
+      res_value_tp = child->resolve(this, nullptr, cg, res_value_tp, 2, src_value_tp, nkwd, kwds, tp_vars);
 
       for (index_t i : std::array<index_t, sizeof...(I)>({I...})) {
         is_na->resolve(this, nullptr, cg, ndt::make_type<bool>(), 1, src_tp + i, 0, nullptr, tp_vars);
-- 
2.43.0


From 2991a5d7a59d5a7e867488d9b8964b621adf1363 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:20 +0000
Subject: [PATCH 026/117] fix: elementwise results of fixed and var operands in
 a var destination

---
 include/dynd/callables/elwise_dispatch_callable.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/dynd/callables/elwise_dispatch_callable.hpp b/include/dynd/callables/elwise_dispatch_callable.hpp
index f5f8933..7f7e4e2 100644
--- a/include/dynd/callables/elwise_dispatch_callable.hpp
+++ b/include/dynd/callables/elwise_dispatch_callable.hpp
@@ -84,7 +84,8 @@ namespace nd {
           } else {
             return f->resolve(this, data, cg, dst_tp, nsrc, src_tp, nkwd, kwds, tp_vars);
           }
-        } else if (((dst_variadic) || dst_tp.get_id() == var_dim_id) && (var_broadcast || src_all_strided)) {
+        } else if ((dst_variadic && (var_broadcast || src_all_strided)) ||
+                   (!dst_variadic && dst_tp.get_id() == var_dim_id && src_all_strided_or_var)) {
           static callable f = make_callable<elwise_callable<var_dim_id, fixed_dim_id, no_traits, N>>();
           return f->resolve(this, data, cg, dst_tp, nsrc, src_tp, nkwd, kwds, tp_vars);
         } else if (src_all_strided_or_var) {
-- 
2.43.0


From f6acf6038bf05489c3b6617486c53d9f2b5ad05d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:57 +0000
Subject: [PATCH 027/117] fix: store the identity of a sum with the type of the
 sum

---
 include/dynd/callables/constant_callable.hpp | 3 ++-
 src/dynd/sum.cpp                             | 2 +-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/dynd/callables/constant_callable.hpp b/include/dynd/callables/constant_callable.hpp
index 418eab0..ddbabd2 100644
--- a/include/dynd/callables/constant_callable.hpp
+++ b/include/dynd/callables/constant_callable.hpp
@@ -35,8 +35,9 @@ namespace nd {
           kb(kernreq | kernel_request_data_only, nullptr, dst_arrmeta, 1, &child_src_metadata);
         });
 
+        const ndt::type &val_tp = m_val.get_type();
         nd::array error_mode = assign_error_default;
-        assign->resolve(this, nullptr, cg, dst_tp, 1, &dst_tp, 1, &error_mode, tp_vars);
+        assign->resolve(this, nullptr, cg, dst_tp, 1, &val_tp, 1, &error_mode, tp_vars);
 
         return dst_tp;
       }
diff --git a/src/dynd/sum.cpp b/src/dynd/sum.cpp
index 756064d..0379b0a 100644
--- a/src/dynd/sum.cpp
+++ b/src/dynd/sum.cpp
@@ -22,7 +22,7 @@ static std::vector<ndt::type> func_ptr(const ndt::type &DYND_UNUSED(dst_tp), siz
 } // unnamed namespace
 
 DYND_API nd::callable nd::sum = nd::functional::reduction(
-    [] { return 0; },
+    nd::functional::constant(0),
     nd::make_callable<nd::multidispatch_callable<1>>(
         ndt::make_type<ndt::callable_type>(ndt::make_type<ndt::scalar_kind_type>(),
                                            {ndt::make_type<ndt::scalar_kind_type>()}),
-- 
2.43.0


From 6b4f9a95e7fba2448c0c3ad2f3a33cbba937ec37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:57 +0000
Subject: [PATCH 028/117] fix: reduce empty dimensions, and several rows into
 one destination

---
 include/dynd/kernels/reduction_kernel.hpp     | 86 +++++++++++++++----
 .../dynd/kernels/reduction_kernel_prefix.hpp  | 11 +++
 2 files changed, 82 insertions(+), 15 deletions(-)

diff --git a/include/dynd/kernels/reduction_kernel.hpp b/include/dynd/kernels/reduction_kernel.hpp
index 01cf5eb..3df0eed 100644
--- a/include/dynd/kernels/reduction_kernel.hpp
+++ b/include/dynd/kernels/reduction_kernel.hpp
@@ -67,6 +67,8 @@ namespace nd {
         }
         // The function pointer for followup accumulation calls
         self->set_followup_call_function(SelfType::strided_followup_wrapper);
+        // The function pointer for an empty reduction
+        self->initialize_function = SelfType::initialize_wrapper;
       }
 
       static void destruct(kernel_prefix *self) {
@@ -94,6 +96,11 @@ namespace nd {
       {
         return reinterpret_cast<SelfType *>(self)->strided_followup(dst, dst_stride, src, src_stride, count);
       }
+
+      static void initialize_wrapper(reduction_kernel_prefix *self, char *dst, intptr_t dst_stride, char *const *src,
+                                     size_t count) {
+        reinterpret_cast<SelfType *>(self)->initialize(dst, dst_stride, src, count);
+      }
     };
 
     /**
@@ -130,6 +137,11 @@ namespace nd {
 
       void single_first(char *dst, char *const *src) {
         reduction_kernel_prefix *child = this->get_reduction_child();
+        if (src0_element_size == 0) {
+          // There is no element to make the first call with
+          child->initialize(dst, 0, src, 1);
+          return;
+        }
         // The first call at the "dst" address
         child->single_first(dst, src);
         if (src0_element_size > 1) {
@@ -146,6 +158,14 @@ namespace nd {
       void strided_first(char *dst, intptr_t dst_stride, char *const *src, const intptr_t *src_stride, size_t count) {
         reduction_kernel_prefix *child = this->get_reduction_child();
 
+        if (count == 0) {
+          return;
+        }
+        if (src0_element_size == 0) {
+          child->initialize(dst, dst_stride, src, count);
+          return;
+        }
+
         char *child_src[NArg];
         for (size_t i = 0; i < NArg; ++i) {
           child_src[i] = src[i];
@@ -209,6 +229,10 @@ namespace nd {
           }
         }
       }
+
+      void initialize(char *dst, intptr_t dst_stride, char *const *src, size_t count) {
+        this->get_reduction_child()->initialize(dst, dst_stride, src, count);
+      }
     };
 
     /**
@@ -259,6 +283,10 @@ namespace nd {
         kernel_prefix *init_child = this->get_child(init_offset);
         kernel_prefix *reduction_child = this->get_child();
 
+        if (count == 0) {
+          return;
+        }
+
         char *child_src[NArg];
         for (size_t j = 0; j < NArg; ++j) {
           child_src[j] = src[j];
@@ -268,16 +296,10 @@ namespace nd {
           // With a zero stride, we initialize "dst" once, then do many
           // accumulations
           init_child->single(dst, child_src);
-          for (size_t j = 0; j < NArg; ++j) {
-            child_src[j] += src_stride_first[j];
-          }
 
-          reduction_child->strided(dst, 0, child_src, this->src_stride, size_first);
+          for (std::size_t i = 0; i != count; ++i) {
+            reduction_child->strided(dst, 0, child_src, this->src_stride, _size);
 
-          for (std::size_t i = 1; i != count; ++i) {
-            reduction_child->strided(dst, 0, child_src, this->src_stride, size_first);
-
-            dst += dst_stride;
             for (size_t j = 0; j < NArg; ++j) {
               child_src[j] += src_stride[j];
             }
@@ -321,6 +343,13 @@ namespace nd {
           }
         }
       }
+
+      void initialize(char *dst, intptr_t dst_stride, char *const *src, size_t count) {
+        for (size_t i = 0; i != count; ++i) {
+          this->get_child(init_offset)->single(dst, src);
+          dst += dst_stride;
+        }
+      }
     };
 
     template <size_t NArg>
@@ -372,6 +401,13 @@ namespace nd {
           src0 += src_stride[0];
         }
       }
+
+      void initialize(char *dst, intptr_t dst_stride, char *const *src, size_t count) {
+        for (size_t i = 0; i != count; ++i) {
+          this->get_child(init_offset)->single(dst, src);
+          dst += dst_stride;
+        }
+      }
     };
 
     template <size_t NArg>
@@ -462,6 +498,10 @@ namespace nd {
         kernel_strided_t opchild_first_call = echild->get_first_call_function<kernel_strided_t>();
         kernel_strided_t opchild_followup_call = echild->get_followup_call_function();
 
+        if (count == 0) {
+          return;
+        }
+
         char *child_src[NArg];
         for (size_t j = 0; j < NArg; ++j) {
           child_src[j] = src[j];
@@ -518,6 +558,13 @@ namespace nd {
           }
         }
       }
+
+      void initialize(char *dst, intptr_t dst_stride, char *const *src, size_t count) {
+        for (size_t i = 0; i != count; ++i) {
+          this->get_reduction_child()->initialize(dst, this->dst_stride, src, _size);
+          dst += dst_stride;
+        }
+      }
     };
 
     /**
@@ -572,18 +619,20 @@ namespace nd {
         kernel_prefix *init_child = this->get_child(dst_init_kernel_offset);
         kernel_prefix *reduction_child = this->get_child();
 
-        char *child_src[NArg] = {src[0]};
+        if (count == 0) {
+          return;
+        }
+
+        char *child_src[NArg];
+        for (size_t j = 0; j < NArg; ++j) {
+          child_src[j] = src[j];
+        }
         if (dst_stride == 0) {
           // With a zero stride, we initialize "dst" once, then do many
           // accumulations
           init_child->strided(dst, this->dst_stride, child_src, this->src_stride_first, this->_size);
 
-          dst += dst_stride_first;
-          for (size_t j = 0; j < NArg; ++j) {
-            child_src[j] += src_stride_first[j];
-          }
-
-          for (size_t i = 1; i != count; ++i) {
+          for (size_t i = 0; i != count; ++i) {
             reduction_child->strided(dst, this->dst_stride, child_src, this->src_stride, this->_size);
 
             for (size_t j = 0; j < NArg; ++j) {
@@ -625,6 +674,13 @@ namespace nd {
           }
         }
       }
+
+      void initialize(char *dst, intptr_t dst_stride, char *const *src, size_t count) {
+        for (size_t i = 0; i != count; ++i) {
+          this->get_child(dst_init_kernel_offset)->strided(dst, this->dst_stride, src, src_stride_first, _size);
+          dst += dst_stride;
+        }
+      }
     };
 
   } // namespace dynd::nd::functional
diff --git a/include/dynd/kernels/reduction_kernel_prefix.hpp b/include/dynd/kernels/reduction_kernel_prefix.hpp
index fbb24e6..f3c0527 100644
--- a/include/dynd/kernels/reduction_kernel_prefix.hpp
+++ b/include/dynd/kernels/reduction_kernel_prefix.hpp
@@ -16,6 +16,12 @@ namespace nd {
       // on a given destination data address after the "first call".
       kernel_strided_t followup_call_function;
 
+      // This function pointer initializes the destination without any
+      // accumulation, for the reduction of an empty dimension.
+      typedef void (*initialize_t)(reduction_kernel_prefix *self, char *dst, intptr_t dst_stride, char *const *src,
+                                   size_t count);
+      initialize_t initialize_function;
+
       template <typename T>
       T get_first_call_function() const
       {
@@ -43,6 +49,11 @@ namespace nd {
       {
         (*reinterpret_cast<kernel_strided_t>(followup_call_function))(this, dst, dst_stride, src, src_stride, count);
       }
+
+      void initialize(char *dst, intptr_t dst_stride, char *const *src, size_t count)
+      {
+        (*initialize_function)(this, dst, dst_stride, src, count);
+      }
     };
 
   } // namespace dynd::nd::functional
-- 
2.43.0


From d3851a057816c829a157c02e3c495646ca7f39ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:57 +0000
Subject: [PATCH 029/117] fix: keep the destination's dimensions in step in
 reductions with kept axes

---
 .../callables/base_reduction_callable.hpp     | 29 ++++++++++---------
 1 file changed, 16 insertions(+), 13 deletions(-)

diff --git a/include/dynd/callables/base_reduction_callable.hpp b/include/dynd/callables/base_reduction_callable.hpp
index e985a12..59f64d4 100644
--- a/include/dynd/callables/base_reduction_callable.hpp
+++ b/include/dynd/callables/base_reduction_callable.hpp
@@ -55,13 +55,9 @@ namespace nd {
         node.broadcast = !reduce;
         node.keepdim = reinterpret_cast<data_type *>(data)->keepdims;
 
-        std::vector<ndt::type> arg_element_tp(2);
+        std::vector<ndt::type> arg_element_tp(nsrc);
         for (size_t i = 0; i < nsrc; ++i) {
-          if (reduce) {
-            arg_element_tp[i] = src_tp[i].extended<ndt::base_dim_type>()->get_element_type();
-          } else {
-            arg_element_tp[i] = src_tp[i].extended<ndt::base_dim_type>()->get_element_type();
-          }
+          arg_element_tp[i] = src_tp[i].extended<ndt::base_dim_type>()->get_element_type();
         }
         ++reinterpret_cast<data_type *>(data)->axis;
 
@@ -130,10 +126,11 @@ namespace nd {
                 src_element_arrmeta[i] = src_arrmeta[i] + sizeof(size_stride_t);
               }
 
-              kb(kernel_request_strided, nullptr, dst_arrmeta + sizeof(size_stride_t), nsrc, src_element_arrmeta);
+              const char *dst_element_arrmeta = keepdim ? (dst_arrmeta + sizeof(size_stride_t)) : dst_arrmeta;
+              kb(kernel_request_strided, nullptr, dst_element_arrmeta, nsrc, src_element_arrmeta);
 
               intptr_t init_offset = kb.size();
-              kb(kernel_request_single, nullptr, dst_arrmeta + sizeof(size_stride_t), nsrc, src_element_arrmeta);
+              kb(kernel_request_single, nullptr, dst_element_arrmeta, nsrc, src_element_arrmeta);
 
               e = kb.get_at<self_type>(root_ckb_offset);
               e->init_offset = init_offset - root_ckb_offset;
@@ -189,7 +186,7 @@ namespace nd {
               kernreq = kernel_request_single;
             }
 
-            kb(kernreq, nullptr, keepdim ? (dst_arrmeta + sizeof(size_stride_t)) : dst_arrmeta, nsrc,
+            kb(kernreq, nullptr, (keepdim || broadcast) ? (dst_arrmeta + sizeof(size_stride_t)) : dst_arrmeta, nsrc,
                src_element_arrmeta);
           }
         });
@@ -198,8 +195,13 @@ namespace nd {
 
     template <size_t NArg>
     class reduction_callable<var_dim_id, NArg> : public base_reduction_callable {
-      void resolve(call_graph &cg, char *DYND_UNUSED(data)) {
-        cg.emplace_back([](kernel_builder &kb, kernel_request_t kernreq,
+      void resolve(call_graph &cg, char *data) {
+        if (!reinterpret_cast<node_type *>(data)->inner || reinterpret_cast<node_type *>(data)->broadcast) {
+          throw std::runtime_error("only an innermost var dimension can be reduced, and it cannot be kept");
+        }
+        bool keepdim = reinterpret_cast<node_type *>(data)->keepdim;
+
+        cg.emplace_back([keepdim](kernel_builder &kb, kernel_request_t kernreq,
                            char *DYND_UNUSED(data), const char *dst_arrmeta, size_t nsrc,
                            const char *const *src_arrmeta) {
           typedef reduction_kernel<ndt::var_dim_type, false, true, NArg> self_type;
@@ -213,10 +215,11 @@ namespace nd {
             src_element_arrmeta[j] = src_arrmeta[j] + sizeof(ndt::var_dim_type::metadata_type);
           }
 
-          kb(kernel_request_strided, nullptr, dst_arrmeta, nsrc, src_element_arrmeta);
+          const char *dst_element_arrmeta = keepdim ? (dst_arrmeta + sizeof(size_stride_t)) : dst_arrmeta;
+          kb(kernel_request_strided, nullptr, dst_element_arrmeta, nsrc, src_element_arrmeta);
 
           intptr_t init_offset = kb.size();
-          kb(kernel_request_single, nullptr, dst_arrmeta, nsrc, src_element_arrmeta);
+          kb(kernel_request_single, nullptr, dst_element_arrmeta, nsrc, src_element_arrmeta);
 
           e = kb.get_at<self_type>(root_ckb_offset);
           e->init_offset = init_offset - root_ckb_offset;
-- 
2.43.0


From 839c4c47ca6a46d70f811b47bc41bd4862ddbdfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:57 +0000
Subject: [PATCH 030/117] fix: check the arguments, axes and destination of a
 reduction

---
 include/dynd/callables/reduction_callable.hpp | 61 ++++++++++++++++---
 1 file changed, 52 insertions(+), 9 deletions(-)

diff --git a/include/dynd/callables/reduction_callable.hpp b/include/dynd/callables/reduction_callable.hpp
index 8f72e5d..900b424 100644
--- a/include/dynd/callables/reduction_callable.hpp
+++ b/include/dynd/callables/reduction_callable.hpp
@@ -26,16 +26,42 @@ namespace nd {
       ndt::type resolve(base_callable *DYND_UNUSED(caller), char *data, call_graph &cg, const ndt::type &dst_tp,
                         size_t nsrc, const ndt::type *src_tp, size_t nkwd, const array *kwds,
                         const std::map<std::string, ndt::type> &tp_vars) {
-        new_data_type new_data;
+        // The dimensions of the arguments are processed together
+        for (size_t i = 1; i < nsrc; ++i) {
+          if (src_tp[i].is_scalar() != src_tp[0].is_scalar() ||
+              (!src_tp[0].is_scalar() &&
+               (src_tp[0].get_id() != fixed_dim_id || src_tp[i].get_id() != fixed_dim_id ||
+                src_tp[i].get_ndim() != src_tp[0].get_ndim() ||
+                src_tp[i].extended<ndt::fixed_dim_type>()->get_fixed_dim_size() !=
+                    src_tp[0].extended<ndt::fixed_dim_type>()->get_fixed_dim_size()))) {
+            std::stringstream ss;
+            ss << "cannot reduce arguments of types " << src_tp[0] << " and " << src_tp[i] << " together";
+            throw type_error(ss.str());
+          }
+        }
+
         if (data == nullptr) {
+          new_data_type new_data;
+          std::vector<int> axes;
           new_data.identity = m_identity;
           new_data.child = m_child;
+          intptr_t ndim = src_tp[0].get_ndim() - m_child->get_ret_type().get_ndim();
+          new_data.ndim = ndim;
+          new_data.axis = 0;
           if (kwds[0].is_na()) {
-            new_data.naxis = src_tp[0].get_ndim() - m_child->get_ret_type().get_ndim();
+            new_data.naxis = ndim;
             new_data.axes = NULL;
           } else {
-            new_data.naxis = kwds[0].get_dim_size();
-            new_data.axes = reinterpret_cast<const int *>(kwds[0].cdata());
+            intptr_t stride = reinterpret_cast<const size_stride_t *>(kwds[0]->metadata())->stride;
+            for (intptr_t i = 0; i < kwds[0].get_dim_size(); ++i) {
+              int axis = *reinterpret_cast<const int *>(kwds[0].cdata() + i * stride);
+              if (axis < 0 || axis >= ndim) {
+                throw axis_out_of_bounds(axis, ndim);
+              }
+              axes.push_back(axis);
+            }
+            new_data.naxis = axes.size();
+            new_data.axes = axes.data();
           }
 
           if (kwds[1].is_na()) {
@@ -44,13 +70,25 @@ namespace nd {
             new_data.keepdims = kwds[1].as<bool>();
           }
 
-          intptr_t ndim = src_tp[0].get_ndim() - m_child->get_ret_type().get_ndim();
-          new_data.ndim = ndim;
-          new_data.axis = 0;
+          ndt::type ret_tp = resolve_dims(reinterpret_cast<char *>(&new_data), cg, dst_tp, nsrc, src_tp, nkwd, kwds,
+                                          tp_vars);
+          // The kernel stores a result of its own type, whatever the destination was allocated for
+          if (!dst_tp.is_symbolic() && dst_tp != ret_tp) {
+            std::stringstream ss;
+            ss << "cannot store a reduction of type " << ret_tp << " in a destination of type " << dst_tp;
+            throw type_error(ss.str());
+          }
 
-          data = reinterpret_cast<char *>(&new_data);
+          return ret_tp;
         }
 
+        return resolve_dims(data, cg, dst_tp, nsrc, src_tp, nkwd, kwds, tp_vars);
+      }
+
+    private:
+      ndt::type resolve_dims(char *data, call_graph &cg, const ndt::type &dst_tp, size_t nsrc, const ndt::type *src_tp,
+                             size_t nkwd, const array *kwds, const std::map<std::string, ndt::type> &tp_vars) {
+
         if (src_tp[0].is_scalar()) {
           cg.emplace_back([](kernel_builder &kb, kernel_request_t kernreq, char *DYND_UNUSED(data),
                              const char *dst_arrmeta, size_t nsrc, const char *const *src_arrmeta) {
@@ -88,13 +126,18 @@ namespace nd {
 
           });
 
-          ndt::type ret_tp = m_child->resolve(this, nullptr, cg, dst_tp, nsrc, src_tp, nkwd - 2, kwds + 2, tp_vars);
+          ndt::type ret_tp =
+              m_child->resolve(this, nullptr, cg, m_child->get_ret_type(), nsrc, src_tp, nkwd - 2, kwds + 2, tp_vars);
 
           m_identity->resolve(this, nullptr, cg, ret_tp, nsrc, src_tp, nkwd, kwds, tp_vars);
 
           return ret_tp;
         }
 
+        if (nsrc > 2 || (nsrc > 1 && src_tp[0].get_id() != fixed_dim_id)) {
+          throw std::runtime_error("unsupported number of arguments");
+        }
+
         if (src_tp[0].get_id() == fixed_dim_id) {
           static callable f[2] = {make_callable<reduction_callable<fixed_dim_id, 1>>(),
                                   make_callable<reduction_callable<fixed_dim_id, 2>>()};
-- 
2.43.0


From 8d531ba93ddfd9b998a47200dae5028a77644866 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:57 +0000
Subject: [PATCH 031/117] fix: let a reduction store into a destination

---
 src/dynd/functional.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/dynd/functional.cpp b/src/dynd/functional.cpp
index 6a8f38b..9083c2f 100644
--- a/src/dynd/functional.cpp
+++ b/src/dynd/functional.cpp
@@ -190,8 +190,9 @@ nd::callable nd::functional::reduction(const callable &identity, const callable
       {ndt::make_type<ndt::option_type>(ndt::type("Fixed * int32")), "axes"},
       {ndt::make_type<ndt::option_type>(ndt::make_type<bool1>()), "keepdims"}};
 
+  // The result does not have the dimensions of the arguments
   return make_callable<reduction_dispatch_callable>(
-      ndt::make_type<ndt::callable_type>(ndt::make_type<ndt::ellipsis_dim_type>("Dims", child->get_ret_type()),
+      ndt::make_type<ndt::callable_type>(ndt::make_type<ndt::ellipsis_dim_type>("ResDims", child->get_ret_type()),
                                          arg_tp.size(), arg_tp.data(), kwds),
       identity, child);
 }
-- 
2.43.0


From 037bb0e5a269e201fb88834d908ac24d9fed4dce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:02 +0000
Subject: [PATCH 032/117] fix: format integers assigned to fixed_string instead
 of parsing it

---
 include/dynd/callables/assign_callable.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/dynd/callables/assign_callable.hpp b/include/dynd/callables/assign_callable.hpp
index bb7e51f..bac3e9c 100644
--- a/include/dynd/callables/assign_callable.hpp
+++ b/include/dynd/callables/assign_callable.hpp
@@ -206,8 +206,8 @@ namespace nd {
         ndt::type string_tp = dst_id == fixed_string_id
                                   ? ndt::make_type<ndt::fixed_string_type>(string_size, string_encoding)
                                   : ndt::make_type<ndt::string_type>();
-        kb.emplace_back<detail::assignment_kernel<IntType, string, assign_error_default>>(kernreq, string_tp,
-                                                                                          dst_arrmeta);
+        kb.emplace_back<detail::assignment_kernel<string, IntType, assign_error_nocheck>>(
+            kernreq, string_tp, ndt::make_type<IntType>().get_id(), dst_arrmeta);
       });
 
       return dst_tp;
-- 
2.43.0


From 3288cf9c2d78dab43d7768d53fd2a4b829cb7f23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:02 +0000
Subject: [PATCH 033/117] fix: assign string to option[string] instead of
 recursing without end

---
 include/dynd/callables/assign_callable.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/dynd/callables/assign_callable.hpp b/include/dynd/callables/assign_callable.hpp
index bac3e9c..ee22adc 100644
--- a/include/dynd/callables/assign_callable.hpp
+++ b/include/dynd/callables/assign_callable.hpp
@@ -632,10 +632,10 @@ namespace nd {
         });
         break;
       case string_id:
-        cg.emplace_back([](kernel_builder &kb, kernel_request_t kernreq, char *DYND_UNUSED(data),
-                           const char *dst_arrmeta, size_t nsrc,
-                           const char *const *src_arrmeta) { kb(kernreq, nullptr, dst_arrmeta, nsrc, src_arrmeta); });
-        break;
+        // Just a string assignment, which the value type's kernel does
+        assign->resolve(this, nullptr, cg, dst_tp.extended<ndt::option_type>()->get_value_type(), nsrc, src_tp, nkwd,
+                        kwds, tp_vars);
+        return dst_tp;
       default:
         cg.emplace_back([](kernel_builder &kb, kernel_request_t kernreq, char *DYND_UNUSED(data),
                            const char *dst_arrmeta, size_t nsrc, const char *const *src_arrmeta) {
-- 
2.43.0


From 6207fb82f506ce2e7fcf01ce3c282b14475cb037 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:02 +0000
Subject: [PATCH 034/117] fix: refuse unsupported assignments instead of
 recursing without end

---
 include/dynd/callables/assign_callable.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/dynd/callables/assign_callable.hpp b/include/dynd/callables/assign_callable.hpp
index ee22adc..7a47e2c 100644
--- a/include/dynd/callables/assign_callable.hpp
+++ b/include/dynd/callables/assign_callable.hpp
@@ -934,6 +934,12 @@ namespace nd {
     ndt::type resolve(base_callable *DYND_UNUSED(caller), char *DYND_UNUSED(data), call_graph &cg,
                       const ndt::type &dst_tp, size_t DYND_UNUSED(nsrc), const ndt::type *src_tp, size_t nkwd,
                       const array *kwds, const std::map<std::string, ndt::type> &tp_vars) {
+      if (dst_tp.get_id() != option_id && src_tp[0].get_id() != option_id) {
+        // This is where an assignment which nothing else supports ends up
+        std::stringstream ss;
+        ss << "cannot assign a value of type " << src_tp[0] << " to a destination of type " << dst_tp;
+        throw type_error(ss.str());
+      }
 
       ndt::type val_dst_tp =
           dst_tp.get_id() == option_id ? dst_tp.extended<ndt::option_type>()->get_value_type() : dst_tp;
-- 
2.43.0


From 88fcc76dd95553da3ba867d999b5e8f5de2f2251 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:02 +0000
Subject: [PATCH 035/117] fix: refuse NaN and rounded limits in checked float
 to integer assignments

---
 include/dynd/assignment.hpp | 25 +++++++++++++++++--------
 1 file changed, 17 insertions(+), 8 deletions(-)

diff --git a/include/dynd/assignment.hpp b/include/dynd/assignment.hpp
index 8a92aa2..cca7f98 100644
--- a/include/dynd/assignment.hpp
+++ b/include/dynd/assignment.hpp
@@ -240,12 +240,19 @@ check_cast(ArgType s, inexact_check_t) {
   return d;
 }
 
+// The greatest value of an integer type may round up when it is compared with a floating point value, and
+// comparisons with NaN are false
+template <typename RetType, typename ArgType>
+bool is_beyond(ArgType s) {
+  return !(static_cast<double>(s) < std::ldexp(1.0, std::numeric_limits<RetType>::digits));
+}
+
 // Floating point -> signed int with overflow checking
 template <typename RetType, typename ArgType>
 std::enable_if_t<is_signed<RetType>::value && is_integral<RetType>::value && is_floating_point<ArgType>::value, RetType>
 overflow_cast(ArgType s) {
 DYND_ALLOW_INT_FLOAT_CAST
-  if (s < std::numeric_limits<RetType>::min() || std::numeric_limits<RetType>::max() < s) {
+  if (s < std::numeric_limits<RetType>::min() || std::numeric_limits<RetType>::max() < s || is_beyond<RetType>(s)) {
 DYND_END_ALLOW_INT_FLOAT_CAST
     std::stringstream ss;
     ss << "overflow while assigning " << ndt::make_type<ArgType>() << " value ";
@@ -268,7 +275,8 @@ overflow_cast(ArgType s) {
   }
 
 DYND_ALLOW_INT_FLOAT_CAST
-  if (s.real() < std::numeric_limits<RetType>::min() || std::numeric_limits<RetType>::max() < s.real()) {
+  if (s.real() < std::numeric_limits<RetType>::min() || std::numeric_limits<RetType>::max() < s.real() ||
+      is_beyond<RetType>(s.real())) {
 DYND_END_ALLOW_INT_FLOAT_CAST
     std::stringstream ss;
     ss << "overflow while assigning " << ndt::make_type<ArgType>() << " value ";
@@ -285,7 +293,7 @@ std::enable_if_t<is_unsigned<RetType>::value && is_integral<RetType>::value && i
                  RetType>
 overflow_cast(ArgType s) {
 DYND_ALLOW_INT_FLOAT_CAST
-  if (s < 0 || std::numeric_limits<RetType>::max() < s) {
+  if (s < 0 || std::numeric_limits<RetType>::max() < s || is_beyond<RetType>(s)) {
 DYND_END_ALLOW_INT_FLOAT_CAST
     std::stringstream ss;
     ss << "overflow while assigning " << ndt::make_type<ArgType>() << " value ";
@@ -306,7 +314,7 @@ overflow_cast(ArgType s) {
     throw std::runtime_error(ss.str());
   }
 DYND_ALLOW_INT_FLOAT_CAST
-  if (s.real() < 0 || std::numeric_limits<RetType>::max() < s.real()) {
+  if (s.real() < 0 || std::numeric_limits<RetType>::max() < s.real() || is_beyond<RetType>(s.real())) {
 DYND_END_ALLOW_INT_FLOAT_CAST
     std::stringstream ss;
     ss << "overflow while assigning " << ndt::make_type<ArgType>() << " value ";
@@ -509,7 +517,7 @@ template <typename RetType, typename ArgType>
 std::enable_if_t<is_signed<RetType>::value && is_integral<RetType>::value && is_floating_point<ArgType>::value, RetType>
 fractional_cast(ArgType s) {
 DYND_ALLOW_INT_FLOAT_CAST
-  if (s < std::numeric_limits<RetType>::min() || std::numeric_limits<RetType>::max() < s) {
+  if (s < std::numeric_limits<RetType>::min() || std::numeric_limits<RetType>::max() < s || is_beyond<RetType>(s)) {
 DYND_END_ALLOW_INT_FLOAT_CAST
     std::stringstream ss;
     ss << "overflow while assigning " << ndt::make_type<ArgType>() << " value ";
@@ -538,7 +546,8 @@ fractional_cast(ArgType s) {
   }
 
 DYND_ALLOW_INT_FLOAT_CAST
-  if (s.real() < std::numeric_limits<RetType>::min() || std::numeric_limits<RetType>::max() < s.real()) {
+  if (s.real() < std::numeric_limits<RetType>::min() || std::numeric_limits<RetType>::max() < s.real() ||
+      is_beyond<RetType>(s.real())) {
 DYND_END_ALLOW_INT_FLOAT_CAST
     std::stringstream ss;
     ss << "overflow while assigning " << ndt::make_type<ArgType>() << " value ";
@@ -561,7 +570,7 @@ std::enable_if_t<is_unsigned<RetType>::value && is_integral<RetType>::value && i
                  RetType>
 fractional_cast(ArgType s) {
 DYND_ALLOW_INT_FLOAT_CAST
-  if (s < 0 || std::numeric_limits<RetType>::max() < s) {
+  if (s < 0 || std::numeric_limits<RetType>::max() < s || is_beyond<RetType>(s)) {
 DYND_END_ALLOW_INT_FLOAT_CAST
     std::stringstream ss;
     ss << "overflow while assigning " << ndt::make_type<ArgType>() << " value ";
@@ -590,7 +599,7 @@ fractional_cast(ArgType s) {
   }
 
 DYND_ALLOW_INT_FLOAT_CAST
-  if (s.real() < 0 || std::numeric_limits<RetType>::max() < s.real()) {
+  if (s.real() < 0 || std::numeric_limits<RetType>::max() < s.real() || is_beyond<RetType>(s.real())) {
 DYND_END_ALLOW_INT_FLOAT_CAST
     std::stringstream ss;
     ss << "overflow while assigning " << ndt::make_type<ArgType>() << " value ";
-- 
2.43.0


From a130b49f922ca68455cd51771da24d4c191a992c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:11 +0000
Subject: [PATCH 036/117] fix: refuse every number text beyond the range of its
 type

---
 include/dynd/parse_util.hpp | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/include/dynd/parse_util.hpp b/include/dynd/parse_util.hpp
index dec3e89..fdca1e8 100644
--- a/include/dynd/parse_util.hpp
+++ b/include/dynd/parse_util.hpp
@@ -924,21 +924,23 @@ std::enable_if_t<is_boolean<T>::value, T> parse(const char *begin, const char *e
 template <typename T>
 std::enable_if_t<is_unsigned<T>::value && is_integral<T>::value && !is_boolean<T>::value, T> parse(const char *begin,
                                                                                                    const char *end) {
-  T result = 0, prev_result = 0;
+  T result = 0;
+  const T max = std::numeric_limits<T>::max();
   if (begin == end) {
     raise_string_cast_error(ndt::make_type<T>(), begin, end);
   }
   while (begin < end) {
     char c = *begin;
     if ('0' <= c && c <= '9') {
-      result = (result * 10u) + static_cast<T>(c - '0');
-      if (result < prev_result) {
+      T digit = static_cast<T>(c - '0');
+      if (result > static_cast<T>((max - digit) / 10u)) {
         std::stringstream ss;
         ss << "overflow converting string ";
         ss.write(begin, end - begin);
         ss << " to " << ndt::make_type<T>();
         throw std::out_of_range(ss.str());
       }
+      result = (result * 10u) + digit;
     } else {
       if (c == '.') {
         // Accept ".", ".0" with trailing decimal zeros as well
@@ -971,19 +973,17 @@ std::enable_if_t<is_unsigned<T>::value && is_integral<T>::value && !is_boolean<T
             exponent = (10 * exponent) + (*begin++ - '0');
           }
           if (begin == end) {
-            prev_result = result;
             // Apply the exponent in a naive way, but with
             // overflow checking
             for (int i = 0; i < exponent; ++i) {
-              result = result * 10u;
-              if (result < prev_result) {
+              if (result > static_cast<T>(max / 10u)) {
                 std::stringstream ss;
                 ss << "overflow converting string ";
                 ss.write(begin, end - begin);
                 ss << " to " << ndt::make_type<T>();
                 throw std::out_of_range(ss.str());
               }
-              prev_result = result;
+              result = result * 10u;
             }
             return result;
           }
@@ -996,7 +996,6 @@ std::enable_if_t<is_unsigned<T>::value && is_integral<T>::value && !is_boolean<T
       throw std::invalid_argument(ss.str());
     }
     ++begin;
-    prev_result = result;
   }
 
   return result;
-- 
2.43.0


From 3f8b571b1204b8ca79b5e6966836285746c44daf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:46 +0000
Subject: [PATCH 037/117] fix: parse floating point text without reading beyond
 its end

---
 include/dynd/parse_util.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/dynd/parse_util.hpp b/include/dynd/parse_util.hpp
index fdca1e8..4ffd897 100644
--- a/include/dynd/parse_util.hpp
+++ b/include/dynd/parse_util.hpp
@@ -1070,8 +1070,9 @@ std::enable_if_t<is_floating_point<T>::value, T> parse(const char *begin, const
 
   // TODO: use http://www.netlib.org/fp/dtoa.c
   char *end_ptr;
-  T value = strto<T>(begin, &end_ptr);
-  if (end_ptr - begin != end - begin) {
+  std::string s(begin, end); // for the terminating zero
+  T value = strto<T>(s.c_str(), &end_ptr);
+  if (s.empty() || end_ptr != s.c_str() + s.size()) {
     std::stringstream ss;
     ss << "parse error converting string ";
     ss.write(begin, end - begin);
-- 
2.43.0


From 00ee647b87ab58dbc52f42b760d49d5171be1ccf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:50 +0000
Subject: [PATCH 038/117] fix: let text that exactly fills a smaller
 fixed_string be assigned to it

---
 include/dynd/kernels/assignment_kernels.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/dynd/kernels/assignment_kernels.hpp b/include/dynd/kernels/assignment_kernels.hpp
index 06899c4..53c407e 100644
--- a/include/dynd/kernels/assignment_kernels.hpp
+++ b/include/dynd/kernels/assignment_kernels.hpp
@@ -1325,7 +1325,7 @@ namespace nd {
           }
         }
         if (src_copy < src_end) {
-          if (m_overflow_check) {
+          if (m_overflow_check && next_fn(const_cast<const char *&>(src_copy), src_end) != 0) {
             throw std::runtime_error("Input string is too large to convert to "
                                      "destination fixed-size string");
           }
-- 
2.43.0


From b2293ae5cdeb98d8109f91dc3b6aef5eb34dd0f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:31 +0000
Subject: [PATCH 039/117] fix: refuse number text beyond the range of an
 option[float32]

---
 include/dynd/parse_util.hpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/include/dynd/parse_util.hpp b/include/dynd/parse_util.hpp
index 4ffd897..d162c46 100644
--- a/include/dynd/parse_util.hpp
+++ b/include/dynd/parse_util.hpp
@@ -1294,7 +1294,12 @@ inline void string_to_number(char *out, type_id_t tid, const char *begin, const
       break;
     }
     case float32_id: {
-      *reinterpret_cast<float *>(out) = parse<float>(saved_begin, end);
+      float value = parse<float>(saved_begin, end);
+      // The text of a finite number which is too big for a float gives infinity
+      overflow = std::isinf(value) && std::isfinite(parse<double>(saved_begin, end));
+      if (!overflow) {
+        *reinterpret_cast<float *>(out) = value;
+      }
       break;
     }
     case float64_id: {
-- 
2.43.0


From c6d58cfd2725b4b6875963e2442562ace7d321fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:07 +0000
Subject: [PATCH 040/117] fix: assign the missing value texts to option[bool]

---
 include/dynd/kernels/assignment_kernels.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/dynd/kernels/assignment_kernels.hpp b/include/dynd/kernels/assignment_kernels.hpp
index 53c407e..eb94683 100644
--- a/include/dynd/kernels/assignment_kernels.hpp
+++ b/include/dynd/kernels/assignment_kernels.hpp
@@ -837,7 +837,11 @@ namespace nd {
     struct DYND_API string_to_option_bool_ck : nd::base_strided_kernel<string_to_option_bool_ck, 1> {
       void single(char *dst, char *const *src) {
         const string *std = reinterpret_cast<string *>(src[0]);
-        *reinterpret_cast<bool1 *>(dst) = parse<bool>(std->begin(), std->end());
+        if (parse_na(std->begin(), std->end())) {
+          *dst = DYND_BOOL_NA;
+        } else {
+          *reinterpret_cast<bool1 *>(dst) = parse<bool>(std->begin(), std->end());
+        }
       }
     };
 
-- 
2.43.0


From 7300f6ea0cadfdbf6a097fe766fd5158348e75ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:36 +0000
Subject: [PATCH 041/117] fix: report missing keywords of a call that is given
 a destination

---
 src/dynd/callable.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/dynd/callable.cpp b/src/dynd/callable.cpp
index 5cdec25..a6c886d 100644
--- a/src/dynd/callable.cpp
+++ b/src/dynd/callable.cpp
@@ -115,11 +115,13 @@ nd::array nd::callable::call(size_t narg, const array *args, size_t nkwd,
   array dst;
 
   const std::vector<std::pair<ndt::type, std::string>> kwd_tp = m_ptr->get_kwd_types();
+  size_t nspecial_kwd = 0;
   for (; j < nkwd; ++j, ++unordered_kwds) {
     intptr_t k = m_ptr->get_kwd_index(unordered_kwds->first);
 
     if (k == -1) {
       if (detail::is_special_kwd(dst, unordered_kwds->first, unordered_kwds->second)) {
+        ++nspecial_kwd;
       } else {
         std::stringstream ss;
         ss << "passed an unexpected keyword \"" << unordered_kwds->first << "\" to callable with type "
@@ -150,6 +152,9 @@ nd::array nd::callable::call(size_t narg, const array *args, size_t nkwd,
     }
   }
 
+  // The special keywords are not passed on to the callable
+  nkwd -= nspecial_kwd;
+
   // Validate the destination type, if it was provided
   if (!dst.is_null()) {
     if (!m_ptr->get_ret_type().match(dst.get_type(), tp_vars)) {
-- 
2.43.0


From 1cf315682731807989f064a08869913dec92a091 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:57 +0000
Subject: [PATCH 042/117] fix: check the types of keywords passed by position

---
 src/dynd/callable.cpp | 36 ++++++++++++++++++++++--------------
 1 file changed, 22 insertions(+), 14 deletions(-)

diff --git a/src/dynd/callable.cpp b/src/dynd/callable.cpp
index a6c886d..06cfb3f 100644
--- a/src/dynd/callable.cpp
+++ b/src/dynd/callable.cpp
@@ -71,6 +71,22 @@ void nd::detail::check_arg(const base_callable *self, intptr_t i, const ndt::typ
   }
 }
 
+static void check_kwd(const std::pair<ndt::type, std::string> &kwd, const nd::array &value,
+                      std::map<std::string, ndt::type> &tp_vars) {
+  ndt::type expected_tp = kwd.first;
+  if (expected_tp.get_id() == option_id) {
+    expected_tp = expected_tp.extended<ndt::option_type>()->get_value_type();
+  }
+
+  const ndt::type &actual_tp = value.get_type();
+  if (!expected_tp.match(actual_tp.value_type(), tp_vars)) {
+    std::stringstream ss;
+    ss << "keyword \"" << kwd.second << "\" does not match, ";
+    ss << "callable expected " << expected_tp << " but passed " << actual_tp;
+    throw std::invalid_argument(ss.str());
+  }
+}
+
 nd::array nd::callable::call(size_t narg, const array *args, size_t nkwd,
                              const pair<const char *, array> *unordered_kwds) const {
   std::map<std::string, ndt::type> tp_vars;
@@ -85,6 +101,8 @@ nd::array nd::callable::call(size_t narg, const array *args, size_t nkwd,
   unique_ptr<const char *[]> args_arrmeta(new const char *[narg]);
   unique_ptr<array[]> kwds(new array[narg + m_ptr->get_nkwd()]);
 
+  const std::vector<std::pair<ndt::type, std::string>> kwd_tp = m_ptr->get_kwd_types();
+
   size_t j = 0;
   if (m_ptr->is_arg_variadic()) {
     for (size_t i = 0; i < narg; ++i) {
@@ -109,12 +127,14 @@ nd::array nd::callable::call(size_t narg, const array *args, size_t nkwd,
 
     for (; narg > m_ptr->get_narg(); ++i, --narg, ++j, ++nkwd) {
       kwds[j] = args[i];
+      if (j < kwd_tp.size()) {
+        check_kwd(kwd_tp[j], kwds[j], tp_vars);
+      }
     }
   }
 
   array dst;
 
-  const std::vector<std::pair<ndt::type, std::string>> kwd_tp = m_ptr->get_kwd_types();
   size_t nspecial_kwd = 0;
   for (; j < nkwd; ++j, ++unordered_kwds) {
     intptr_t k = m_ptr->get_kwd_index(unordered_kwds->first);
@@ -136,19 +156,7 @@ nd::array nd::callable::call(size_t narg, const array *args, size_t nkwd,
         throw std::invalid_argument(ss.str());
       }
       value = unordered_kwds->second;
-
-      ndt::type expected_tp = kwd_tp[k].first;
-      if (expected_tp.get_id() == option_id) {
-        expected_tp = expected_tp.extended<ndt::option_type>()->get_value_type();
-      }
-
-      const ndt::type &actual_tp = value.get_type();
-      if (!expected_tp.match(actual_tp.value_type(), tp_vars)) {
-        std::stringstream ss;
-        ss << "keyword \"" << kwd_tp[k].second << "\" does not match, ";
-        ss << "callable expected " << expected_tp << " but passed " << actual_tp;
-        throw std::invalid_argument(ss.str());
-      }
+      check_kwd(kwd_tp[k], value, tp_vars);
     }
   }
 
-- 
2.43.0


From be68e7a6ad1d752abdd04b1bcc76e8023f38987a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:46 +0000
Subject: [PATCH 043/117] fix: refuse var dimensions and unsuitable
 destinations in outer

---
 include/dynd/callables/outer_callable.hpp     | 34 ++++++++++++++++++-
 .../dynd/callables/outer_entry_callable.hpp   |  6 +++-
 2 files changed, 38 insertions(+), 2 deletions(-)

diff --git a/include/dynd/callables/outer_callable.hpp b/include/dynd/callables/outer_callable.hpp
index 0b8982f..d89bad2 100644
--- a/include/dynd/callables/outer_callable.hpp
+++ b/include/dynd/callables/outer_callable.hpp
@@ -7,11 +7,22 @@
 
 #include <dynd/callables/base_callable.hpp>
 #include <dynd/kernels/outer_kernel.hpp>
+#include <dynd/types/fixed_dim_type.hpp>
 
 namespace dynd {
 namespace nd {
   namespace functional {
 
+    // Checks that the child's result can be stored in the elements of the destination
+    inline void check_outer_element_type(const ndt::type &dst_element_tp, const ndt::type &ret_element_tp) {
+      if (!dst_element_tp.is_symbolic() && dst_element_tp != ret_element_tp) {
+        std::stringstream ss;
+        ss << "cannot store an outer result of type " << ret_element_tp << " in a destination element of type "
+           << dst_element_tp;
+        throw type_error(ss.str());
+      }
+    }
+
     template <size_t NArg>
     class outer_callable : public base_callable {
       struct data_type {
@@ -28,6 +39,26 @@ namespace nd {
         base_callable *child = reinterpret_cast<data_type *>(data)->child;
         size_t &i = reinterpret_cast<data_type *>(data)->i;
 
+        // The kernel reads the metadata of a fixed dimension
+        if (src_tp[i].get_id() != fixed_dim_id) {
+          std::stringstream ss;
+          ss << "cannot apply an outer callable over the leading dimension of type " << src_tp[i];
+          throw type_error(ss.str());
+        }
+
+        ndt::type dst_element_tp = dst_tp;
+        if (!dst_tp.is_symbolic()) {
+          if (dst_tp.get_id() != fixed_dim_id ||
+              dst_tp.extended<ndt::fixed_dim_type>()->get_fixed_dim_size() !=
+                  src_tp[i].extended<ndt::fixed_dim_type>()->get_fixed_dim_size()) {
+            std::stringstream ss;
+            ss << "cannot store the outer result over the leading dimension of type " << src_tp[i]
+               << " in a destination of type " << dst_tp;
+            throw type_error(ss.str());
+          }
+          dst_element_tp = dst_tp.extended<ndt::fixed_dim_type>()->get_element_type();
+        }
+
         cg.emplace_back([i](kernel_builder &kb, kernel_request_t kernreq, char *data, const char *dst_arrmeta,
                             size_t DYND_UNUSED(nsrc), const char *const *src_arrmeta) {
           kb.emplace_back<outer_kernel<NArg>>(kernreq, i, dst_arrmeta, src_arrmeta);
@@ -60,10 +91,11 @@ namespace nd {
 
         ndt::type ret_element_tp;
         if (i < NArg) {
-          ret_element_tp = caller->resolve(this, data, cg, dst_tp, NArg, arg_element_tp, nkwd, kwds, tp_vars);
+          ret_element_tp = caller->resolve(this, data, cg, dst_element_tp, NArg, arg_element_tp, nkwd, kwds, tp_vars);
         } else {
           ret_element_tp =
               child->resolve(this, nullptr, cg, child->get_ret_type(), NArg, arg_element_tp, nkwd, kwds, tp_vars);
+          check_outer_element_type(dst_element_tp, ret_element_tp);
         }
 
         return src_tp[j].extended<ndt::base_dim_type>()->with_element_type(ret_element_tp);
diff --git a/include/dynd/callables/outer_entry_callable.hpp b/include/dynd/callables/outer_entry_callable.hpp
index 94f7c22..c19f393 100644
--- a/include/dynd/callables/outer_entry_callable.hpp
+++ b/include/dynd/callables/outer_entry_callable.hpp
@@ -37,7 +37,11 @@ namespace nd {
             return m_children[nsrc]->resolve(this, data, cg, dst_tp, nsrc, src_tp, nkwd, kwds, tp_vars);
           }
 
-          return child->resolve(this, data, cg, child->get_ret_type(), nsrc, src_tp, nkwd, kwds, tp_vars);
+          ndt::type ret_tp =
+              child->resolve(this, data, cg, child->get_ret_type(), nsrc, src_tp, nkwd, kwds, tp_vars);
+          check_outer_element_type(dst_tp, ret_tp);
+
+          return ret_tp;
         }
       };
 
-- 
2.43.0


From ae4f5c3282e87eeb9ceb5f0a89f0299c675692bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:07 +0000
Subject: [PATCH 044/117] fix: refuse to compose functions that do not fit the
 intermediate type

---
 src/dynd/functional.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/dynd/functional.cpp b/src/dynd/functional.cpp
index 9083c2f..0d4acdd 100644
--- a/src/dynd/functional.cpp
+++ b/src/dynd/functional.cpp
@@ -52,6 +52,13 @@ nd::callable nd::functional::compose(const nd::callable &first, const nd::callab
                         "type is not implemented");
   }
 
+  if (!first->get_ret_type().match(buf_tp) || !second->get_arg_types()[0].match(buf_tp)) {
+    stringstream ss;
+    ss << "Cannot chain functions of types " << first->get_type() << " and " << second->get_type()
+       << " through an intermediate value of type " << buf_tp;
+    throw invalid_argument(ss.str());
+  }
+
   /* // TODO: Something like this should work
   map<nd::string, ndt::type> tp_vars;
   second.get_type()->get_pos_type(0).match(first.get_type()->get_return_type(),
-- 
2.43.0


From 9a83dd62032a4c6190dec24fe1cd137e52c8def6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:54 +0000
Subject: [PATCH 045/117] fix: give compound callables the type of the argument
 they pass on

---
 src/dynd/functional.cpp | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/src/dynd/functional.cpp b/src/dynd/functional.cpp
index 0d4acdd..dba79df 100644
--- a/src/dynd/functional.cpp
+++ b/src/dynd/functional.cpp
@@ -75,19 +75,17 @@ nd::callable nd::functional::constant(const array &val) { return make_callable<c
 
 nd::callable nd::functional::left_compound(const callable &child) {
   vector<ndt::type> pos_types = child->get_arg_types();
-  pos_types.resize(1);
+  pos_types.erase(pos_types.begin()); // the destination is the first argument of the child
 
   return make_callable<left_compound_callable>(
-      ndt::make_type<ndt::callable_type>(child->get_ret_type(), pos_types), // head element or empty
-      child);
+      ndt::make_type<ndt::callable_type>(child->get_ret_type(), pos_types), child);
 }
 
 nd::callable nd::functional::right_compound(const callable &child) {
   vector<ndt::type> pos_types = child->get_arg_types();
-  pos_types.erase(pos_types.begin());
+  pos_types.resize(1); // the destination is the second argument of the child
 
-  return make_callable<right_compound_callable>(ndt::make_type<ndt::callable_type>(child->get_ret_type(),
-                                                                                   pos_types), // tail elements or empty
+  return make_callable<right_compound_callable>(ndt::make_type<ndt::callable_type>(child->get_ret_type(), pos_types),
                                                 child);
 }
 
-- 
2.43.0


From 7b56e952363201ca722987827adc043ca6bcc013 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:44 +0000
Subject: [PATCH 046/117] fix: release the child kernels of forward_na

---
 include/dynd/kernels/forward_na_kernel.hpp | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/include/dynd/kernels/forward_na_kernel.hpp b/include/dynd/kernels/forward_na_kernel.hpp
index 03f9307..ea4f736 100644
--- a/include/dynd/kernels/forward_na_kernel.hpp
+++ b/include/dynd/kernels/forward_na_kernel.hpp
@@ -12,8 +12,20 @@ namespace nd {
 
   template <intptr_t... I>
   struct forward_na_kernel : base_strided_kernel<forward_na_kernel<I...>, 2> {
-    size_t is_na_offset[2];
-    size_t assign_na_offset;
+    size_t is_na_offset[2] = {0, 0};
+    size_t assign_na_offset = 0;
+
+    ~forward_na_kernel() {
+      this->get_child()->destroy();
+      for (intptr_t i : std::array<intptr_t, sizeof...(I)>({I...})) {
+        if (is_na_offset[i] != 0) {
+          this->get_child(is_na_offset[i])->destroy();
+        }
+      }
+      if (assign_na_offset != 0) {
+        this->get_child(assign_na_offset)->destroy();
+      }
+    }
 
     void single(char *res, char *const *args) {
       for (intptr_t i : std::array<intptr_t, sizeof...(I)>({I...})) {
-- 
2.43.0


From eb8b9c9db38d0d9a6c395f364721dbe8bdb47391 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:20 +0000
Subject: [PATCH 047/117] fix: keep the known sizes when broadcasting a
 dimension fragment

---
 src/dynd/types/dim_fragment_type.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dynd/types/dim_fragment_type.cpp b/src/dynd/types/dim_fragment_type.cpp
index f1d9bf7..a3e3178 100644
--- a/src/dynd/types/dim_fragment_type.cpp
+++ b/src/dynd/types/dim_fragment_type.cpp
@@ -40,6 +40,7 @@ static inline bool broadcast_tagged_dims_from_type(intptr_t ndim, ndt::type tp,
   tp = tp.without_memory_type();
   for (intptr_t i = 0; i < ndim; ++i) {
     intptr_t tagged_dim = tagged_dims[i], dim_size;
+    out_tagged_dims[i] = tagged_dim;
     switch (tp.get_id()) {
     case fixed_dim_kind_id: {
       if (tagged_dim < 0) {
@@ -104,7 +105,6 @@ ndt::type ndt::dim_fragment_type::broadcast_with_type(intptr_t ndim, const type
     return make_dim_fragment(this_ndim, shape.get());
   } else {
     dimvector shape(ndim);
-    memcpy(shape.get(), get_tagged_dims(), this_ndim * sizeof(intptr_t));
     if (!broadcast_tagged_dims_from_type(ndim, tp, get_tagged_dims(), shape.get())) {
       return type();
     }
-- 
2.43.0


From 20406fe9912983f2a052cc9ede0abe653033e99d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:53:03 +0000
Subject: [PATCH 048/117] fix: parse of a JSON string keeps the unescaped text

---
 include/dynd/kernels/parse_kernel.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/dynd/kernels/parse_kernel.hpp b/include/dynd/kernels/parse_kernel.hpp
index fd7c09f..3da0510 100644
--- a/include/dynd/kernels/parse_kernel.hpp
+++ b/include/dynd/kernels/parse_kernel.hpp
@@ -138,7 +138,7 @@ namespace nd {
         if (parse_doublequote_string_no_ws(begin, end, strbegin, strend, escaped)) {
           std::string val;
           unescape_string(strbegin, strend, val);
-          reinterpret_cast<string *>(res)->assign(strbegin, strend - strbegin);
+          reinterpret_cast<string *>(res)->assign(val.data(), val.size());
 
           /*
                     try {
-- 
2.43.0


From e601b8bc599f11706782c4017a1069573997493e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:53:03 +0000
Subject: [PATCH 049/117] fix: JSON number in an escaped string is read from
 the unescaped text

---
 include/dynd/parse_util.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/dynd/parse_util.hpp b/include/dynd/parse_util.hpp
index d162c46..caad227 100644
--- a/include/dynd/parse_util.hpp
+++ b/include/dynd/parse_util.hpp
@@ -1416,7 +1416,7 @@ inline void parse_number_json(const ndt::type &tp, char *out_data, const char *&
       } else {
         std::string s;
         unescape_string(nbegin, nend, s);
-        string_to_number(out_data, tp.get_id(), nbegin, nend, ectx->errmode);
+        string_to_number(out_data, tp.get_id(), s.data(), s.data() + s.size(), ectx->errmode);
       }
     } catch (const std::exception &e) {
       throw json_parse_error(rbegin, e.what(), tp);
-- 
2.43.0


From f1fe32c44dd397af1d11b07f136e2b9b284bbda0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:53:03 +0000
Subject: [PATCH 050/117] fix: a parse error at the end of the text is reported
 as a parse error

---
 src/dynd/json_parser.cpp            | 5 ++++-
 src/dynd/types/datashape_parser.cpp | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/dynd/json_parser.cpp b/src/dynd/json_parser.cpp
index a8484fd..0e2b4a9 100644
--- a/src/dynd/json_parser.cpp
+++ b/src/dynd/json_parser.cpp
@@ -632,7 +632,10 @@ static void get_error_line_column(const char *begin, const char *end, const char
     ++out_line;
   }
 
-  throw runtime_error("Cannot get line number of error, its position is out of range");
+  // The error is at the end of the text, where a new line begins
+  out_line_prev.swap(out_line_cur);
+  out_line_cur = "";
+  out_column = int(position - end + 1);
 }
 
 void print_json_parse_error_marker(std::ostream &o, const std::string &line_prev, const std::string &line_cur, int line,
diff --git a/src/dynd/types/datashape_parser.cpp b/src/dynd/types/datashape_parser.cpp
index a4dc23d..4ac2e62 100644
--- a/src/dynd/types/datashape_parser.cpp
+++ b/src/dynd/types/datashape_parser.cpp
@@ -948,7 +948,10 @@ static void get_error_line_column(const char *begin, const char *end, const char
     ++out_line;
   }
 
-  throw runtime_error("Cannot get line number of error, its position is out of range");
+  // The error is at the end of the text, where a new line begins
+  out_line_prev.swap(out_line_cur);
+  out_line_cur = "";
+  out_column = int(position - end + 1);
 }
 
 ndt::type dynd::type_from_datashape(const char *datashape_begin, const char *datashape_end) {
-- 
2.43.0


From e10513fe4657324718d4160b33f134eb062c33ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:53:03 +0000
Subject: [PATCH 051/117] fix: a refused JSON list leaves no stale element
 count in a var dimension

---
 src/dynd/json_parser.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/dynd/json_parser.cpp b/src/dynd/json_parser.cpp
index 0e2b4a9..6f3d297 100644
--- a/src/dynd/json_parser.cpp
+++ b/src/dynd/json_parser.cpp
@@ -192,6 +192,8 @@ static void parse_var_dim_json(const ndt::type &tp, const char *arrmeta, char *o
 
   intptr_t size = 0, allocated_size = 8;
   out->begin = md->blockref->alloc(allocated_size);
+  // The elements of a previous value are gone, don't leave their count behind
+  out->size = 0;
 
   if (!parse_token(begin, end, "[")) {
     throw json_parse_error(begin, "expected array starting with '['", tp);
-- 
2.43.0


From 5c14b7ece03d96364c7b9bf1925a6bdbf3be0a65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:53:03 +0000
Subject: [PATCH 052/117] fix: format_json reports running out of memory
 instead of dropping numbers

---
 src/dynd/json_formatter.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/dynd/json_formatter.cpp b/src/dynd/json_formatter.cpp
index 9562ef1..cc2b2f8 100644
--- a/src/dynd/json_formatter.cpp
+++ b/src/dynd/json_formatter.cpp
@@ -83,6 +83,7 @@ static void format_json_bool(output_data &out, const ndt::type &dt, const char *
 
 static void format_json_number(output_data &out, const ndt::type &dt, const char *arrmeta, const char *data) {
   stringstream ss;
+  ss.exceptions(ios::badbit | ios::failbit); // do not lose characters when there is no memory
   dt.print_data(ss, arrmeta, data);
   out.write(ss.str());
 }
@@ -117,6 +118,7 @@ static void print_escaped_unicode_codepoint(output_data &out, uint32_t cp, appen
     default:
       if (cp < 0x20 || cp == 0x7f) {
         stringstream ss;
+        ss.exceptions(ios::badbit | ios::failbit);
         ss << "\\u";
         hexadecimal_print(ss, static_cast<uint16_t>(cp));
         out.write(ss.str());
@@ -181,6 +183,7 @@ static void format_json_type(output_data &out, const ndt::type &dt, const char *
   switch (dt.get_id()) {
   case type_id: {
     stringstream ss;
+    ss.exceptions(ios::badbit | ios::failbit);
     dt.print_data(ss, arrmeta, data);
     std::string s = ss.str();
     format_json_encoded_string(out, s.data(), s.data() + s.size(), string_encoding_ascii);
-- 
2.43.0


From 2132b08116575ee050ceb2bb8fd02aedfb78e580 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:53:03 +0000
Subject: [PATCH 053/117] fix: decoding invalid UTF-8 without error checks
 makes progress

---
 src/dynd/string_encodings.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/dynd/string_encodings.cpp b/src/dynd/string_encodings.cpp
index 6f1135a..476fa09 100644
--- a/src/dynd/string_encodings.cpp
+++ b/src/dynd/string_encodings.cpp
@@ -133,6 +133,8 @@ uint32_t noerror_next_utf8(const char *&it, const char *end) {
   utf8::internal::utf_error err = utf8::internal::UTF8_OK;
   switch (length) {
   case 0:
+    // Not a lead octet, skip it
+    ++it;
     return ERROR_SUBSTITUTE_CODEPOINT;
   case 1:
     err = utf8::internal::get_sequence_1(it, end, cp);
@@ -238,7 +240,7 @@ uint32_t noerror_next_utf16(const char *&it_raw, const char *end_raw) {
   it_raw += 2;
   // Take care of surrogate pairs first
   if (utf8::internal::is_lead_surrogate(cp)) {
-    if (it_raw <= end_raw + 2) {
+    if (it_raw + 2 <= end_raw) {
       uint32_t trail_surrogate = *reinterpret_cast<const uint16_t *>(it_raw);
       it_raw += 2;
       if (utf8::internal::is_trail_surrogate(trail_surrogate)) {
-- 
2.43.0


From 670881aa8fb4e339cbbc651a027c438a5df5c5d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:01 +0000
Subject: [PATCH 054/117] fix: print the base of a symbolic power of Fixed
 dimensions

---
 src/dynd/types/pow_dimsym_type.cpp | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/dynd/types/pow_dimsym_type.cpp b/src/dynd/types/pow_dimsym_type.cpp
index 2961fe5..33adbff 100644
--- a/src/dynd/types/pow_dimsym_type.cpp
+++ b/src/dynd/types/pow_dimsym_type.cpp
@@ -20,11 +20,10 @@ void ndt::pow_dimsym_type::print_data(std::ostream &DYND_UNUSED(o), const char *
 void ndt::pow_dimsym_type::print_type(std::ostream &o) const {
   switch (m_base_tp.get_id()) {
   case fixed_dim_id:
-    if (m_base_tp.is_symbolic()) {
-      o << "Fixed";
-    } else {
-      o << m_base_tp.extended<fixed_dim_type>()->get_fixed_dim_size();
-    }
+    o << m_base_tp.extended<fixed_dim_type>()->get_fixed_dim_size();
+    break;
+  case fixed_dim_kind_id:
+    o << "Fixed";
     break;
   case var_dim_id:
     o << "var";
-- 
2.43.0


From ec0a36869c293474e84cfbeaa64467ab3f63640a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:01 +0000
Subject: [PATCH 055/117] fix: print variadic tuples and structs without fields
 readably

---
 src/dynd/types/struct_type.cpp | 2 +-
 src/dynd/types/tuple_type.cpp  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/dynd/types/struct_type.cpp b/src/dynd/types/struct_type.cpp
index 6c92d12..9d3b1ce 100644
--- a/src/dynd/types/struct_type.cpp
+++ b/src/dynd/types/struct_type.cpp
@@ -89,7 +89,7 @@ void ndt::struct_type::print_type(std::ostream &o) const {
     o << ": " << get_field_type(i);
   }
   if (m_variadic) {
-    o << ", ...}";
+    o << (m_field_count == 0 ? "...}" : ", ...}");
   } else {
     o << "}";
   }
diff --git a/src/dynd/types/tuple_type.cpp b/src/dynd/types/tuple_type.cpp
index 22fa578..0c136ca 100644
--- a/src/dynd/types/tuple_type.cpp
+++ b/src/dynd/types/tuple_type.cpp
@@ -194,7 +194,7 @@ void ndt::tuple_type::print_type(std::ostream &o) const {
     o << get_field_type(i);
   }
   if (m_variadic) {
-    o << ", ...)";
+    o << (m_field_count == 0 ? "...)" : ", ...)");
   } else {
     o << ")";
   }
-- 
2.43.0


From 4c57d45b16b33f6c0424fd667710d1e349e7d408 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:01 +0000
Subject: [PATCH 056/117] fix: a list with keywords that is no function
 prototype is a datashape error

---
 src/dynd/types/datashape_parser.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/dynd/types/datashape_parser.cpp b/src/dynd/types/datashape_parser.cpp
index 4ac2e62..cdda59c 100644
--- a/src/dynd/types/datashape_parser.cpp
+++ b/src/dynd/types/datashape_parser.cpp
@@ -563,8 +563,7 @@ static ndt::type parse_tuple_or_funcproto(const char *&rbegin, const char *end,
           funcproto_kwd = parse_funcproto_kwds(begin, end, symtable);
           if (!funcproto_kwd.is_null()) {
             if (!datashape::parse_token(begin, end, "->")) {
-              rbegin = begin;
-              return ndt::make_type<ndt::tuple_type>(field_type_list.size(), field_type_list.data());
+              throw datashape::internal_parse_error(begin, "expected '->' after keyword arguments");
             }
 
             ndt::type return_type = datashape::parse(begin, end, symtable);
-- 
2.43.0


From 08c91b111a98f9a8fa8bf749fd42d62f2ae3b84f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:01 +0000
Subject: [PATCH 057/117] fix: a dimensional power without an element type is a
 datashape error

---
 src/dynd/types/datashape_parser.cpp | 46 +++++++++++++++++------------
 1 file changed, 27 insertions(+), 19 deletions(-)

diff --git a/src/dynd/types/datashape_parser.cpp b/src/dynd/types/datashape_parser.cpp
index cdda59c..9aa6870 100644
--- a/src/dynd/types/datashape_parser.cpp
+++ b/src/dynd/types/datashape_parser.cpp
@@ -671,6 +671,9 @@ static ndt::type parse_datashape_nooption(const char *&rbegin, const char *end,
             throw datashape::internal_parse_error(begin, "expected a '*' after dimensional power");
           }
           ndt::type element_tp = datashape::parse(begin, end, symtable);
+          if (element_tp.is_null()) {
+            throw datashape::internal_parse_error(begin, "expected a dynd type");
+          }
           if ('0' <= *bbegin && *bbegin <= '9') {
             intptr_t dim_size = parse<intptr_t>(bbegin, bend);
             result = ndt::pow(ndt::make_fixed_dim(dim_size, element_tp), exponent);
@@ -685,25 +688,30 @@ static ndt::type parse_datashape_nooption(const char *&rbegin, const char *end,
           }
         } else if (isupper(*nbegin)) {
           std::string exponent_name(nbegin, nend);
-          if (datashape::parse_token(begin, end, '*')) {
-            if ('0' <= *bbegin && *bbegin <= '9') {
-              intptr_t dim_size = parse<intptr_t>(bbegin, bend);
-              result = ndt::make_type<ndt::pow_dimsym_type>(ndt::make_fixed_dim(dim_size, ndt::make_type<void>()),
-                                                            exponent_name, datashape::parse(begin, end, symtable));
-            } else if (compare_range_to_literal(bbegin, bend, "var")) {
-              result = ndt::make_type<ndt::pow_dimsym_type>(ndt::make_type<ndt::var_dim_type>(ndt::make_type<void>()),
-                                                            exponent_name, datashape::parse(begin, end, symtable));
-            } else if (compare_range_to_literal(bbegin, bend, "Fixed")) {
-              result =
-                  ndt::make_type<ndt::pow_dimsym_type>(ndt::make_type<ndt::fixed_dim_kind_type>(ndt::make_type<void>()),
-                                                       exponent_name, datashape::parse(begin, end, symtable));
-            } else if (isupper(*bbegin)) {
-              result = ndt::make_type<ndt::pow_dimsym_type>(
-                  ndt::make_type<ndt::typevar_dim_type>(std::string(bbegin, bend), ndt::make_type<void>()),
-                  exponent_name, datashape::parse(begin, end, symtable));
-            } else {
-              throw datashape::internal_parse_error(bbegin, "invalid dimension type for base of dimensional power");
-            }
+          if (!datashape::parse_token(begin, end, '*')) {
+            throw datashape::internal_parse_error(begin, "expected a '*' after dimensional power");
+          }
+          ndt::type element_tp = datashape::parse(begin, end, symtable);
+          if (element_tp.is_null()) {
+            throw datashape::internal_parse_error(begin, "expected a dynd type");
+          }
+          if ('0' <= *bbegin && *bbegin <= '9') {
+            intptr_t dim_size = parse<intptr_t>(bbegin, bend);
+            result = ndt::make_type<ndt::pow_dimsym_type>(ndt::make_fixed_dim(dim_size, ndt::make_type<void>()),
+                                                          exponent_name, element_tp);
+          } else if (compare_range_to_literal(bbegin, bend, "var")) {
+            result = ndt::make_type<ndt::pow_dimsym_type>(ndt::make_type<ndt::var_dim_type>(ndt::make_type<void>()),
+                                                          exponent_name, element_tp);
+          } else if (compare_range_to_literal(bbegin, bend, "Fixed")) {
+            result =
+                ndt::make_type<ndt::pow_dimsym_type>(ndt::make_type<ndt::fixed_dim_kind_type>(ndt::make_type<void>()),
+                                                     exponent_name, element_tp);
+          } else if (isupper(*bbegin)) {
+            result = ndt::make_type<ndt::pow_dimsym_type>(
+                ndt::make_type<ndt::typevar_dim_type>(std::string(bbegin, bend), ndt::make_type<void>()),
+                exponent_name, element_tp);
+          } else {
+            throw datashape::internal_parse_error(bbegin, "invalid dimension type for base of dimensional power");
           }
         } else {
           throw datashape::internal_parse_error(begin, "expected a number or a typevar symbol");
-- 
2.43.0


From bbaa5e7e0f398db682b3d9f504a81577d6aa7f93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:02 +0000
Subject: [PATCH 058/117] fix: concurrent first parses of a datashape do not
 race

---
 src/dynd/types/datashape_parser.cpp | 19 ++++++++-----------
 1 file changed, 8 insertions(+), 11 deletions(-)

diff --git a/src/dynd/types/datashape_parser.cpp b/src/dynd/types/datashape_parser.cpp
index 9aa6870..07cb93b 100644
--- a/src/dynd/types/datashape_parser.cpp
+++ b/src/dynd/types/datashape_parser.cpp
@@ -30,17 +30,14 @@ using namespace dynd;
 // (Blaze grammar modified slightly to work this way)
 
 static const map<std::string, ndt::type> &builtin_types() {
-  static map<std::string, ndt::type> bit;
-  if (bit.empty()) {
-    bit["int"] = ndt::make_type<int>();
-    bit["intptr"] = ndt::make_type<intptr_t>();
-    bit["uintptr"] = ndt::make_type<uintptr_t>();
-    bit["size"] = ndt::make_type<size_t>();
-    bit["real"] = ndt::make_type<double>();
-    bit["complex64"] = ndt::make_type<dynd::complex<float32>>();
-    bit["complex128"] = ndt::make_type<dynd::complex<float64>>();
-    bit["complex"] = ndt::make_type<dynd::complex<double>>();
-  }
+  static const map<std::string, ndt::type> bit = {{"int", ndt::make_type<int>()},
+                                                  {"intptr", ndt::make_type<intptr_t>()},
+                                                  {"uintptr", ndt::make_type<uintptr_t>()},
+                                                  {"size", ndt::make_type<size_t>()},
+                                                  {"real", ndt::make_type<double>()},
+                                                  {"complex64", ndt::make_type<dynd::complex<float32>>()},
+                                                  {"complex128", ndt::make_type<dynd::complex<float64>>()},
+                                                  {"complex", ndt::make_type<dynd::complex<double>>()}};
 
   return bit;
 }
-- 
2.43.0


From 911bab0d3998ec8ac49d2134047eaca60609de31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:02 +0000
Subject: [PATCH 059/117] fix: the datashape parser reads the \U escapes which
 printing writes

---
 src/dynd/parse_util.cpp | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/src/dynd/parse_util.cpp b/src/dynd/parse_util.cpp
index c3bb728..bd9ed7b 100644
--- a/src/dynd/parse_util.cpp
+++ b/src/dynd/parse_util.cpp
@@ -479,6 +479,27 @@ bool datashape::parse_quoted_string(const char *&rbegin, const char *end, std::s
         append_utf8_codepoint(cp, out_val);
         break;
       }
+      case 'U': {
+        if (end - begin < 8) {
+          throw datashape::internal_parse_error(begin - 2, "invalid unicode escape sequence in string");
+        }
+        uint32_t cp = 0;
+        for (int i = 0; i < 8; ++i) {
+          char d = *begin++;
+          cp *= 16;
+          if ('0' <= d && d <= '9') {
+            cp += d - '0';
+          } else if ('A' <= d && d <= 'F') {
+            cp += d - 'A' + 10;
+          } else if ('a' <= d && d <= 'f') {
+            cp += d - 'a' + 10;
+          } else {
+            throw datashape::internal_parse_error(begin - 1, "invalid unicode escape sequence in string");
+          }
+        }
+        append_utf8_codepoint(cp, out_val);
+        break;
+      }
       default:
         throw datashape::internal_parse_error(begin - 2, "invalid escape sequence in string");
       }
-- 
2.43.0


From 4be2e55020cd1b37acaa84f84d4b507e1cd3c5d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:46 +0000
Subject: [PATCH 060/117] fix: refuse sizes in a datashape which are out of
 range

---
 src/dynd/types/bytes_type.cpp        | 2 +-
 src/dynd/types/fixed_bytes_type.cpp  | 4 ++--
 src/dynd/types/fixed_dim_type.cpp    | 2 +-
 src/dynd/types/fixed_string_type.cpp | 4 ++--
 4 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/dynd/types/bytes_type.cpp b/src/dynd/types/bytes_type.cpp
index 216dd39..9f4b21b 100644
--- a/src/dynd/types/bytes_type.cpp
+++ b/src/dynd/types/bytes_type.cpp
@@ -128,7 +128,7 @@ ndt::type ndt::bytes_type::parse_type_args(type_id_t DYND_UNUSED(id), const char
         throw datashape::internal_parse_error(begin, "expected closing ']'");
       }
       rbegin = begin;
-      return ndt::make_type<ndt::bytes_type>(atoi(align_val.c_str()));
+      return ndt::make_type<ndt::bytes_type>(dynd::parse<intptr_t>(align_val));
     }
     throw datashape::internal_parse_error(begin, "expected 'align'");
   } else {
diff --git a/src/dynd/types/fixed_bytes_type.cpp b/src/dynd/types/fixed_bytes_type.cpp
index 025e193..47335d0 100644
--- a/src/dynd/types/fixed_bytes_type.cpp
+++ b/src/dynd/types/fixed_bytes_type.cpp
@@ -80,7 +80,7 @@ ndt::type ndt::fixed_bytes_type::parse_type_args(type_id_t DYND_UNUSED(id), cons
     if (datashape::parse_token(begin, end, ']')) {
       // Fixed bytes with just a size parameter
       rbegin = begin;
-      return ndt::make_type<ndt::fixed_bytes_type>(atoi(size_val.c_str()), 1);
+      return ndt::make_type<ndt::fixed_bytes_type>(dynd::parse<intptr_t>(size_val), 1);
     }
     if (!datashape::parse_token(begin, end, ',')) {
       throw datashape::internal_parse_error(begin, "expected closing ']' or another argument");
@@ -99,7 +99,7 @@ ndt::type ndt::fixed_bytes_type::parse_type_args(type_id_t DYND_UNUSED(id), cons
       throw datashape::internal_parse_error(begin, "expected closing ']'");
     }
     rbegin = begin;
-    return ndt::make_type<ndt::fixed_bytes_type>(atoi(size_val.c_str()), atoi(align_val.c_str()));
+    return ndt::make_type<ndt::fixed_bytes_type>(dynd::parse<intptr_t>(size_val), dynd::parse<intptr_t>(align_val));
   }
   throw datashape::internal_parse_error(begin, "expected opening '['");
 }
\ No newline at end of file
diff --git a/src/dynd/types/fixed_dim_type.cpp b/src/dynd/types/fixed_dim_type.cpp
index 894c534..519b892 100644
--- a/src/dynd/types/fixed_dim_type.cpp
+++ b/src/dynd/types/fixed_dim_type.cpp
@@ -544,7 +544,7 @@ ndt::type ndt::fixed_dim_type::parse_type_args(type_id_t DYND_UNUSED(id), const
     if (dim_size_str.empty()) {
       throw datashape::internal_parse_error(saved_begin, "expected dimension size");
     }
-    intptr_t dim_size = (intptr_t)std::atoll(dim_size_str.c_str());
+    intptr_t dim_size = dynd::parse<intptr_t>(dim_size_str);
     if (!datashape::parse_token(begin, end, ']')) {
       throw datashape::internal_parse_error(begin, "expected closing ']'");
     }
diff --git a/src/dynd/types/fixed_string_type.cpp b/src/dynd/types/fixed_string_type.cpp
index a7fa89c..15a84c5 100644
--- a/src/dynd/types/fixed_string_type.cpp
+++ b/src/dynd/types/fixed_string_type.cpp
@@ -149,9 +149,9 @@ ndt::type ndt::fixed_string_type::parse_type_args(type_id_t DYND_UNUSED(id), con
     std::string value = datashape::parse_number(begin, end);
     std::string encoding_str;
     string_encoding_t encoding = string_encoding_utf_8;
-    int string_size = 0;
+    intptr_t string_size = 0;
     if (!value.empty()) {
-      string_size = atoi(value.c_str());
+      string_size = dynd::parse<intptr_t>(value);
       if (string_size == 0) {
         throw datashape::internal_parse_error(saved_begin, "string size cannot be zero");
       }
-- 
2.43.0


From f4c3603de04a4f4591b3197afcf178b114ba2511 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:49 +0000
Subject: [PATCH 061/117] fix: a fixed_string datashape needs a size

---
 src/dynd/types/fixed_string_type.cpp | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/src/dynd/types/fixed_string_type.cpp b/src/dynd/types/fixed_string_type.cpp
index 15a84c5..3d13080 100644
--- a/src/dynd/types/fixed_string_type.cpp
+++ b/src/dynd/types/fixed_string_type.cpp
@@ -163,10 +163,7 @@ ndt::type ndt::fixed_string_type::parse_type_args(type_id_t DYND_UNUSED(id), con
         encoding = datashape::string_to_encoding(saved_begin, encoding_str);
       }
     } else {
-      if (!datashape::parse_quoted_string(begin, end, encoding_str)) {
-        throw datashape::internal_parse_error(saved_begin, "expected a size integer");
-      }
-      encoding = datashape::string_to_encoding(saved_begin, encoding_str);
+      throw datashape::internal_parse_error(saved_begin, "expected a size integer");
     }
     if (!datashape::parse_token(begin, end, ']')) {
       throw datashape::internal_parse_error(begin, "expected closing ']'");
-- 
2.43.0


From 8a65375fc09b92ce3d4511965089aa701f69c441 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:12 +0000
Subject: [PATCH 062/117] fix: str() of a type reports running out of memory
 instead of truncating the text

---
 include/dynd/type.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/dynd/type.hpp b/include/dynd/type.hpp
index 6f92e37..5c76524 100644
--- a/include/dynd/type.hpp
+++ b/include/dynd/type.hpp
@@ -656,6 +656,10 @@ namespace ndt {
     std::string str() const {
       std::stringstream ss;
       ss << *this;
+      if (!ss) {
+        // The stream turns a failed allocation into this state
+        throw std::bad_alloc();
+      }
       return ss.str();
     }
 
-- 
2.43.0


From ed1cf8c21d0eb4021990cc528710c549fce7e141 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:06 +0000
Subject: [PATCH 063/117] fix: refuse dimensional powers so large that building
 the type overflows the stack

---
 src/dynd/types/datashape_parser.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/dynd/types/datashape_parser.cpp b/src/dynd/types/datashape_parser.cpp
index 07cb93b..829d297 100644
--- a/src/dynd/types/datashape_parser.cpp
+++ b/src/dynd/types/datashape_parser.cpp
@@ -664,6 +664,10 @@ static ndt::type parse_datashape_nooption(const char *&rbegin, const char *end,
       if (parse_name_or_number(begin, end, nbegin, nend)) {
         if ('1' <= *nbegin && *nbegin <= '9') {
           intptr_t exponent = parse<intptr_t>(nbegin, nend);
+          // Every repetition becomes a dimension of its own, which types handle recursively
+          if (exponent > 1024) {
+            throw datashape::internal_parse_error(nbegin, "the exponent of a dimensional power is too large");
+          }
           if (!datashape::parse_token(begin, end, '*')) {
             throw datashape::internal_parse_error(begin, "expected a '*' after dimensional power");
           }
-- 
2.43.0


From 768c082bab622f3dd7f2fc9c4e811bd798736b79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:22 +0000
Subject: [PATCH 064/117] fix: matching the element of Dim keeps the variables
 it binds

---
 src/dynd/types/dim_kind_type.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/dynd/types/dim_kind_type.cpp b/src/dynd/types/dim_kind_type.cpp
index 63e6d44..bf2ad19 100644
--- a/src/dynd/types/dim_kind_type.cpp
+++ b/src/dynd/types/dim_kind_type.cpp
@@ -16,8 +16,8 @@ ndt::dim_kind_type::dim_kind_type(type_id_t id, const type &element_tp)
   this->flags |= (element_tp.get_flags() & (type_flags_operand_inherited | type_flags_value_inherited));
 }
 
-bool ndt::dim_kind_type::match(const type &candidate_tp, std::map<std::string, type> &DYND_UNUSED(tp_vars)) const {
-  return candidate_tp.get_ndim() > 0 && m_element_tp.match(candidate_tp.get_type_at_dimension(NULL, 1));
+bool ndt::dim_kind_type::match(const type &candidate_tp, std::map<std::string, type> &tp_vars) const {
+  return candidate_tp.get_ndim() > 0 && m_element_tp.match(candidate_tp.get_type_at_dimension(NULL, 1), tp_vars);
 }
 
 void ndt::dim_kind_type::print_data(std::ostream &DYND_UNUSED(o), const char *DYND_UNUSED(arrmeta),
-- 
2.43.0


From d3e50ef59b6fc1cb036fd10729f215609fa3a854 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:22 +0000
Subject: [PATCH 065/117] fix: a power of var matches only var dimensions

---
 src/dynd/types/pow_dimsym_type.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/dynd/types/pow_dimsym_type.cpp b/src/dynd/types/pow_dimsym_type.cpp
index 33adbff..37f1e1a 100644
--- a/src/dynd/types/pow_dimsym_type.cpp
+++ b/src/dynd/types/pow_dimsym_type.cpp
@@ -215,6 +215,8 @@ bool ndt::pow_dimsym_type::match(const type &candidate_tp, std::map<std::string,
     for (intptr_t i = 0; i < exponent; ++i) {
       if (concrete_subtype.get_id() == var_dim_id) {
         concrete_subtype = concrete_subtype.extended<base_dim_type>()->get_element_type();
+      } else {
+        return false;
       }
     }
     break;
-- 
2.43.0


From 85d4749821dce3e2de107517209c6de8985643ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:22 +0000
Subject: [PATCH 066/117] fix: substituting without a value for a constructor
 variable does not read past the variables

---
 src/dynd/types/substitute_typevars.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/dynd/types/substitute_typevars.cpp b/src/dynd/types/substitute_typevars.cpp
index b41192f..6a3bea6 100644
--- a/src/dynd/types/substitute_typevars.cpp
+++ b/src/dynd/types/substitute_typevars.cpp
@@ -147,6 +147,16 @@ ndt::type ndt::detail::internal_substitute(const ndt::type &pattern, const std::
   case typevar_constructed_id: {
     map<std::string, ndt::type>::const_iterator it =
         typevars.find(pattern.extended<typevar_constructed_type>()->get_name());
+    if (it == typevars.end()) {
+      if (concrete) {
+        stringstream ss;
+        ss << "No substitution type for dynd type var " << pattern << " was available";
+        throw invalid_argument(ss.str());
+      }
+      return ndt::make_type<ndt::typevar_constructed_type>(
+          pattern.extended<typevar_constructed_type>()->get_name(),
+          substitute(pattern.extended<typevar_constructed_type>()->get_arg(), typevars, concrete));
+    }
     if (it->second.get_id() == void_id) {
       return substitute(pattern.extended<typevar_constructed_type>()->get_arg(), typevars, concrete);
     }
-- 
2.43.0


From 4de85ff5cf2f9d5eb6cc8c767e61e5018c9916cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:22 +0000
Subject: [PATCH 067/117] fix: substitute leaves the type kinds of a pattern as
 they are

---
 src/dynd/types/substitute_typevars.cpp | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/src/dynd/types/substitute_typevars.cpp b/src/dynd/types/substitute_typevars.cpp
index 6a3bea6..9264438 100644
--- a/src/dynd/types/substitute_typevars.cpp
+++ b/src/dynd/types/substitute_typevars.cpp
@@ -6,6 +6,7 @@
 #include <dynd/type_registry.hpp>
 #include <dynd/types/cuda_device_type.hpp>
 #include <dynd/types/dim_fragment_type.hpp>
+#include <dynd/types/dim_kind_type.hpp>
 #include <dynd/types/ellipsis_dim_type.hpp>
 #include <dynd/types/fixed_dim_type.hpp>
 #include <dynd/types/option_type.hpp>
@@ -367,16 +368,26 @@ ndt::type ndt::detail::internal_substitute(const ndt::type &pattern, const std::
       throw invalid_argument("Cannot substitute into an unnamed ellipsis typevar");
     }
   }
-  case any_kind_id: {
+  case dim_kind_id:
     if (concrete) {
       stringstream ss;
       ss << "The dynd type " << pattern << " is not concrete as required";
       throw invalid_argument(ss.str());
     } else {
-      return pattern;
+      return ndt::make_type<ndt::dim_kind_type>(
+          ndt::substitute(pattern.extended<base_dim_type>()->get_element_type(), typevars, concrete));
     }
-  }
-  case scalar_kind_id: {
+  case any_kind_id:
+  case scalar_kind_id:
+  case bool_kind_id:
+  case int_kind_id:
+  case uint_kind_id:
+  case float_kind_id:
+  case complex_kind_id:
+  case bytes_kind_id:
+  case fixed_bytes_kind_id:
+  case string_kind_id:
+  case fixed_string_kind_id: {
     if (concrete) {
       stringstream ss;
       ss << "The dynd type " << pattern << " is not concrete as required";
-- 
2.43.0


From 814e8eab15a80fd6ff2754467517545eb40a6999 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:33 +0000
Subject: [PATCH 068/117] fix: substitute keeps the '...' of a tuple or struct,
 or reports that it is not concrete

---
 src/dynd/types/substitute_typevars.cpp | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/src/dynd/types/substitute_typevars.cpp b/src/dynd/types/substitute_typevars.cpp
index 9264438..2916d2b 100644
--- a/src/dynd/types/substitute_typevars.cpp
+++ b/src/dynd/types/substitute_typevars.cpp
@@ -133,14 +133,27 @@ ndt::type ndt::detail::internal_substitute(const ndt::type &pattern, const std::
   case var_dim_id:
     return ndt::make_type<ndt::var_dim_type>(
         ndt::substitute(pattern.extended<var_dim_type>()->get_element_type(), typevars, concrete));
-  case struct_id:
+  case struct_id: {
+    const bool variadic = pattern.extended<struct_type>()->is_variadic();
+    if (concrete && variadic) {
+      stringstream ss;
+      ss << "The dynd type " << pattern << " is not concrete as required";
+      throw invalid_argument(ss.str());
+    }
     return ndt::make_type<ndt::struct_type>(
         pattern.extended<struct_type>()->get_field_names(),
-        substitute_type_array(pattern.extended<struct_type>()->get_field_types(), typevars, concrete));
+        substitute_type_array(pattern.extended<struct_type>()->get_field_types(), typevars, concrete), variadic);
+  }
   case tuple_id: {
+    const bool variadic = pattern.extended<tuple_type>()->is_variadic();
+    if (concrete && variadic) {
+      stringstream ss;
+      ss << "The dynd type " << pattern << " is not concrete as required";
+      throw invalid_argument(ss.str());
+    }
     const std::vector<ndt::type> &element_tp =
         substitute_type_array(pattern.extended<tuple_type>()->get_field_types(), typevars, concrete);
-    return ndt::make_type<ndt::tuple_type>(element_tp.size(), element_tp.data());
+    return ndt::make_type<ndt::tuple_type>(element_tp.size(), element_tp.data(), variadic);
   }
   case option_id:
     return ndt::make_type<ndt::option_type>(
-- 
2.43.0


From 1565289334e6067c22ac4fd70a56ac211769af0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:08 +0000
Subject: [PATCH 069/117] fix: type constructor arguments of a function
 prototype with keywords are not lost

---
 src/dynd/types/callable_type.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dynd/types/callable_type.cpp b/src/dynd/types/callable_type.cpp
index a8fe438..d156b3b 100644
--- a/src/dynd/types/callable_type.cpp
+++ b/src/dynd/types/callable_type.cpp
@@ -230,7 +230,7 @@ nd::buffer ndt::callable_type::get_type_constructor_args() const {
     reinterpret_cast<ndt::type *>(callable_args.data())[0] = get_return_type();
     reinterpret_cast<ndt::type *>(callable_args.data())[1] = get_pos_tuple();
   } else {
-    nd::buffer callable_args = nd::buffer::empty(ndt::make_type<ndt::tuple_type>(
+    callable_args = nd::buffer::empty(ndt::make_type<ndt::tuple_type>(
         {ndt::make_type<ndt::tuple_type>(
              {ndt::make_type<ndt::type_type>(), ndt::make_type<ndt::type_type>(), ndt::make_type<ndt::type_type>()}),
          ndt::make_type<ndt::struct_type>()}));
-- 
2.43.0


From 63ffac73d032de46fba51d5e79b3f624f801f631 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:38 +0000
Subject: [PATCH 070/117] fix: the pattern Bytes matches fixed_bytes, as String
 matches fixed_string

---
 include/dynd/types/bytes_kind_type.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/dynd/types/bytes_kind_type.hpp b/include/dynd/types/bytes_kind_type.hpp
index 3982f70..e52cec5 100644
--- a/include/dynd/types/bytes_kind_type.hpp
+++ b/include/dynd/types/bytes_kind_type.hpp
@@ -15,7 +15,8 @@ namespace ndt {
     bytes_kind_type(type_id_t id) : base_type(id, 0, 1, type_flag_symbolic, 0, 0, 0) {}
 
     bool match(const type &candidate_tp, std::map<std::string, type> &DYND_UNUSED(tp_vars)) const {
-      return candidate_tp.get_base_id() == bytes_kind_id;
+      return candidate_tp.get_id() == bytes_id || candidate_tp.get_id() == fixed_bytes_id ||
+             candidate_tp.get_id() == fixed_bytes_kind_id || candidate_tp.get_id() == bytes_kind_id;
     }
 
     void print_data(std::ostream &DYND_UNUSED(o), const char *DYND_UNUSED(arrmeta),
-- 
2.43.0


From f2cfc23dd10f184eaa9ddbc171a08b55763362c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:46 +0000
Subject: [PATCH 071/117] fix: a dimensional power without its exponent is not
 a concrete type

---
 src/dynd/types/substitute_typevars.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/dynd/types/substitute_typevars.cpp b/src/dynd/types/substitute_typevars.cpp
index 2916d2b..63a9bf9 100644
--- a/src/dynd/types/substitute_typevars.cpp
+++ b/src/dynd/types/substitute_typevars.cpp
@@ -278,6 +278,10 @@ ndt::type ndt::detail::internal_substitute(const ndt::type &pattern, const std::
            << ", is not a fixed_dim integer as required";
         throw invalid_argument(ss.str());
       }
+    } else if (concrete) {
+      stringstream ss;
+      ss << "No substitution type for dynd typevar " << exponent_name << " was available";
+      throw invalid_argument(ss.str());
     }
     // If the exponent is zero, just substitute the rest of the type
     if (exponent == 0) {
-- 
2.43.0


From b9a6f15943786517e4574d53b0bd7440f1b52f11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:43 +0000
Subject: [PATCH 072/117] fix: a bound dimension can be substituted for the
 base of a power whose exponent is not

---
 src/dynd/types/substitute_typevars.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/dynd/types/substitute_typevars.cpp b/src/dynd/types/substitute_typevars.cpp
index 63a9bf9..2e51517 100644
--- a/src/dynd/types/substitute_typevars.cpp
+++ b/src/dynd/types/substitute_typevars.cpp
@@ -301,8 +301,8 @@ ndt::type ndt::detail::internal_substitute(const ndt::type &pattern, const std::
           throw invalid_argument(ss.str());
         }
       } else if (btv_type->second.get_ndim() > 0 && btv_type->second.get_id() != dim_fragment_id) {
-        // Swap in for the base type
-        base_tp = btv_type->second;
+        // Swap in for the base type, which has no element type
+        base_tp = btv_type->second.extended<base_dim_type>()->with_element_type(ndt::make_type<void>());
       } else {
         stringstream ss;
         ss << "The substitution for dynd typevar " << base_tp << ", " << btv_type->second
-- 
2.43.0


From a959d0900bc0238d88c240ad539d2e4ea09be35d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:01:45 +0000
Subject: [PATCH 073/117] fix: a refused overload leaves the overloads of a
 function as they were

---
 include/dynd/dispatcher.hpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/include/dynd/dispatcher.hpp b/include/dynd/dispatcher.hpp
index a78623d..3a5384d 100644
--- a/include/dynd/dispatcher.hpp
+++ b/include/dynd/dispatcher.hpp
@@ -180,9 +180,10 @@ public:
 
   template <typename Iterator>
   void assign(Iterator begin, Iterator end) {
-    m_children.resize(end - begin);
+    // The children are replaced only when everything that can fail is done
+    std::vector<T> children(end - begin);
 
-    std::vector<std::vector<size_t>> edges(m_children.size());
+    std::vector<std::vector<size_t>> edges(children.size());
     for (size_t i = 0; i < edges.size(); ++i) {
       const auto &f_i = begin[i];
       std::array<ndt::type, N> tp_i =
@@ -223,7 +224,8 @@ public:
       }
     }
 
-    topological_sort(begin, end, edges, m_children.begin());
+    topological_sort(begin, end, edges, children.begin());
+    m_children.swap(children);
 
     //    m_map.clear();
   }
-- 
2.43.0


From 459bf8a660e457a17c338454ec5915033ca18735 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:57 +0000
Subject: [PATCH 074/117] fix: inserting into the registry does all or nothing

---
 include/dynd/registry.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/include/dynd/registry.hpp b/include/dynd/registry.hpp
index 3b6e5ea..de705a4 100644
--- a/include/dynd/registry.hpp
+++ b/include/dynd/registry.hpp
@@ -71,8 +71,11 @@ public:
       throw std::runtime_error("entry already exists");
     }
 
-    it = m_namespace.emplace(entry).first;
-    it->second.absolute(entry.first);
+    // Everything that can fail is done before the entry is added
+    std::pair<const std::string, registry_entry> added(entry);
+    added.second.absolute(entry.first);
+
+    it = m_namespace.emplace(std::move(added)).first;
 
     emit(entry.first.c_str(), &it->second);
   }
-- 
2.43.0


From 6c25a1d81b63f99cd8baec028cfb9d4e5524eefb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:57 +0000
Subject: [PATCH 075/117] fix: the path of an entry inserted into the registry
 includes where it was inserted

---
 include/dynd/registry.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/dynd/registry.hpp b/include/dynd/registry.hpp
index de705a4..b354b81 100644
--- a/include/dynd/registry.hpp
+++ b/include/dynd/registry.hpp
@@ -74,6 +74,9 @@ public:
     // Everything that can fail is done before the entry is added
     std::pair<const std::string, registry_entry> added(entry);
     added.second.absolute(entry.first);
+    if (!m_name.empty()) {
+      added.second.absolute(m_name);
+    }
 
     it = m_namespace.emplace(std::move(added)).first;
 
-- 
2.43.0


From 4b598c381d196726a4871d9dab1912063cb0121e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:11 +0000
Subject: [PATCH 076/117] fix: string searches find adjacent matches, and one
 character from either end

---
 include/dynd/string_search.hpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/include/dynd/string_search.hpp b/include/dynd/string_search.hpp
index 60111e7..86cd85f 100644
--- a/include/dynd/string_search.hpp
+++ b/include/dynd/string_search.hpp
@@ -43,7 +43,7 @@ namespace detail {
     else {
       const char *s = haystack;
       while (s < haystack + n) {
-        void *candidate = memchr((void *)s, needle, n);
+        void *candidate = memchr((void *)s, needle, haystack + n - s);
         if (candidate == NULL) {
           return;
         }
@@ -59,9 +59,9 @@ namespace detail {
   template <class match_handler>
   void string_search_1char_reverse(const char *haystack, size_t n, char needle, match_handler &handle_match)
   {
-    for (size_t i = n - 1; i <= 0; --i) {
-      if (haystack[i] == needle) {
-        if (handle_match(i)) {
+    for (size_t i = n; i > 0; --i) {
+      if (haystack[i - 1] == needle) {
+        if (handle_match(i - 1)) {
           return;
         }
       }
@@ -147,6 +147,7 @@ namespace detail {
             return;
           }
           i = i + mlast;
+          continue;
         }
         /* miss: check if next character is part of pattern */
         if (i < w && !bloom.has_char(ss[i + 1])) {
-- 
2.43.0


From 664f5f42d7aa1b9cde884a390c40da946e3a71ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:11 +0000
Subject: [PATCH 077/117] fix: strings order by code point, also where char is
 signed

---
 include/dynd/kernels/total_order_kernel.hpp |  4 +---
 include/dynd/types/string_type.hpp          | 16 ++++++----------
 2 files changed, 7 insertions(+), 13 deletions(-)

diff --git a/include/dynd/kernels/total_order_kernel.hpp b/include/dynd/kernels/total_order_kernel.hpp
index 23fb76c..f201546 100644
--- a/include/dynd/kernels/total_order_kernel.hpp
+++ b/include/dynd/kernels/total_order_kernel.hpp
@@ -33,9 +33,7 @@ namespace nd {
   template <>
   struct total_order_kernel<string, string> : base_strided_kernel<total_order_kernel<string, string>, 2> {
     void single(char *dst, char *const *src) {
-      *reinterpret_cast<int *>(dst) = std::lexicographical_compare(
-          reinterpret_cast<string *>(src[0])->begin(), reinterpret_cast<string *>(src[0])->end(),
-          reinterpret_cast<string *>(src[1])->begin(), reinterpret_cast<string *>(src[1])->end());
+      *reinterpret_cast<int *>(dst) = *reinterpret_cast<string *>(src[0]) < *reinterpret_cast<string *>(src[1]);
     }
   };
 
diff --git a/include/dynd/types/string_type.hpp b/include/dynd/types/string_type.hpp
index aff14c5..c0a6b08 100644
--- a/include/dynd/types/string_type.hpp
+++ b/include/dynd/types/string_type.hpp
@@ -42,21 +42,17 @@ public:
     return *this;
   }
 
+  // NOTE: Bytes compare as unsigned, so UTF-8 strings are in the order of their code points
   bool operator<(const string &rhs) const {
-    return std::lexicographical_compare(begin(), end(), rhs.begin(), rhs.end());
+    int cmp = memcmp(data(), rhs.data(), std::min(size(), rhs.size()));
+    return cmp < 0 || (cmp == 0 && size() < rhs.size());
   }
 
-  bool operator<=(const string &rhs) const {
-    return !std::lexicographical_compare(rhs.begin(), rhs.end(), begin(), end());
-  }
+  bool operator<=(const string &rhs) const { return !(rhs < *this); }
 
-  bool operator>=(const string &rhs) const {
-    return !std::lexicographical_compare(begin(), end(), rhs.begin(), rhs.end());
-  }
+  bool operator>=(const string &rhs) const { return !(*this < rhs); }
 
-  bool operator>(const string &rhs) const {
-    return std::lexicographical_compare(rhs.begin(), rhs.end(), begin(), end());
-  }
+  bool operator>(const string &rhs) const { return rhs < *this; }
 
   string operator+(const string &rhs) {
     string result;
-- 
2.43.0


From 865b1788da1abeadeccbcb6e926cd4f03177db19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:11 +0000
Subject: [PATCH 078/117] fix: concatenating and replacing strings in place

---
 include/dynd/string.hpp | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/include/dynd/string.hpp b/include/dynd/string.hpp
index e492607..a46f425 100644
--- a/include/dynd/string.hpp
+++ b/include/dynd/string.hpp
@@ -17,6 +17,16 @@ namespace dynd {
 template <class StringType>
 void string_concat(size_t nop, StringType &d, const StringType *const *s)
 {
+  // If the output is also an input, build the result on the side
+  for (size_t i = 0; i != nop; ++i) {
+    if (s[i] == &d) {
+      StringType result;
+      string_concat(nop, result, s);
+      d = std::move(result);
+      return;
+    }
+  }
+
   // Get the size of the concatenated string
   size_t size = 0;
   for (size_t i = 0; i != nop; ++i) {
@@ -82,6 +92,13 @@ intptr_t string_rfind(const StringType &haystack, const StringType &needle)
 template <class StringType>
 void string_replace(StringType &dst, const StringType &src, const StringType &old_str, const StringType &new_str)
 {
+  // If the output is also an input, build the result on the side
+  if (&dst == &src || &dst == &old_str || &dst == &new_str) {
+    StringType result;
+    string_replace(result, src, old_str, new_str);
+    dst = std::move(result);
+    return;
+  }
 
   if (old_str.size() == 0 || old_str.size() > src.size()) {
     /* Just copy -- there's nothing to replace */
-- 
2.43.0


From 6ac8714f4f143dd4d293df0c403451d39ae071d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:42 +0000
Subject: [PATCH 079/117] fix: appending to a string only grows its memory when
 it is full

---
 include/dynd/types/sso_bytestring.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/dynd/types/sso_bytestring.hpp b/include/dynd/types/sso_bytestring.hpp
index 5b75a48..284ecba 100644
--- a/include/dynd/types/sso_bytestring.hpp
+++ b/include/dynd/types/sso_bytestring.hpp
@@ -185,7 +185,11 @@ public:
   }
 
   /** Like reserve(), but with exponential growth */
-  void reserve_grow(size_t new_capacity) { reserve(std::max(new_capacity, capacity() * 3 / 2)); }
+  void reserve_grow(size_t new_capacity) {
+    if (capacity() < new_capacity) {
+      reserve(std::max(new_capacity, capacity() * 3 / 2));
+    }
+  }
 
   /** Resizes the bytestring to the specified number of bytes */
   void resize(size_t new_size) {
-- 
2.43.0


From a8973324ed2dc970034ba6bfebb1ee0c350d2f2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:33:01 +0000
Subject: [PATCH 080/117] fix: binary_search refuses values of another type,
 and finds nothing in an empty array

---
 include/dynd/callables/binary_search_callable.hpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/include/dynd/callables/binary_search_callable.hpp b/include/dynd/callables/binary_search_callable.hpp
index 5f5da11..96c845e 100644
--- a/include/dynd/callables/binary_search_callable.hpp
+++ b/include/dynd/callables/binary_search_callable.hpp
@@ -22,6 +22,13 @@ namespace nd {
                       const ndt::type &dst_tp, size_t DYND_UNUSED(nsrc), const ndt::type *src_tp,
                       size_t DYND_UNUSED(nkwd), const array *DYND_UNUSED(kwds),
                       const std::map<std::string, ndt::type> &tp_vars) {
+      const ndt::type &element_tp = src_tp[0].extended<ndt::fixed_dim_type>()->get_element_type();
+      if (src_tp[1] != element_tp) {
+        std::stringstream ss;
+        ss << "binary_search: cannot look for a value of type " << src_tp[1] << " in an array of " << element_tp;
+        throw std::invalid_argument(ss.str());
+      }
+
       cg.emplace_back([](kernel_builder &kb, kernel_request_t kernreq, char *DYND_UNUSED(data),
                          const char *DYND_UNUSED(dst_arrmeta), size_t DYND_UNUSED(nsrc),
                          const char *const *src_arrmeta) {
@@ -33,7 +40,6 @@ namespace nd {
         kb(kernreq | kernel_request_data_only, nullptr, nullptr, 2, child_src_arrmeta);
       });
 
-      ndt::type element_tp = src_tp[0].at_single(0, nullptr);
       ndt::type child_src_tp[2] = {element_tp, element_tp};
 
       total_order->resolve(this, nullptr, cg, ndt::make_type<int>(), 2, child_src_tp, 0, NULL, tp_vars);
-- 
2.43.0


From c3a2dbb498e8f01037daea49a6f2eb2b0bad3a50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:33:01 +0000
Subject: [PATCH 081/117] fix: nd::range of floating point is empty where it
 has no elements, and needs a step

---
 include/dynd/callables/range_callable.hpp | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/include/dynd/callables/range_callable.hpp b/include/dynd/callables/range_callable.hpp
index 329c05a..1fc5b0d 100644
--- a/include/dynd/callables/range_callable.hpp
+++ b/include/dynd/callables/range_callable.hpp
@@ -67,18 +67,18 @@ namespace nd {
         if (stop <= start) {
           return ndt::make_type<ndt::fixed_dim_type>(0, ndt::make_type<ReturnElementType>());
         } else {
-          return ndt::make_type<ndt::fixed_dim_type>(static_cast<size_t>((stop - start + step - 1) / step),
+          return ndt::make_type<ndt::fixed_dim_type>(static_cast<size_t>((static_cast<int64_t>(stop) - start + step - 1) / step),
                                                      ndt::make_type<ReturnElementType>());
         }
       } else if (step < 0) {
         if (stop >= start) {
           return ndt::make_type<ndt::fixed_dim_type>(0, ndt::make_type<ReturnElementType>());
         } else {
-          return ndt::make_type<ndt::fixed_dim_type>(static_cast<size_t>((stop - start + step + 1) / step),
+          return ndt::make_type<ndt::fixed_dim_type>(static_cast<size_t>((static_cast<int64_t>(stop) - start + step + 1) / step),
                                                      ndt::make_type<ReturnElementType>());
         }
       } else {
-        throw std::runtime_error("");
+        throw std::runtime_error("nd::range cannot have a zero-sized step");
       }
     }
   };
@@ -131,7 +131,13 @@ namespace nd {
             reinterpret_cast<const ndt::fixed_dim_type::metadata_type *>(ret_metadata)->stride);
       });
 
-      size_t size = static_cast<size_t>(floor((stop - start + static_cast<ReturnElementType>(0.5) * step) / step));
+      if (!(step != 0)) {
+        throw std::runtime_error("nd::range cannot have a zero-sized step");
+      }
+
+      // An empty range has no elements, however far apart its ends are
+      ReturnElementType count = floor((stop - start + static_cast<ReturnElementType>(0.5) * step) / step);
+      size_t size = count > 0 ? static_cast<size_t>(count) : 0;
       return ndt::make_type<ndt::fixed_dim_type>(size, ndt::make_type<ReturnElementType>());
     }
   };
-- 
2.43.0


From fa1404c0893ecd8f94440dc92c5ae69d9da91c94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:33:14 +0000
Subject: [PATCH 082/117] fix: nd::range with only a stop has a step of one

---
 include/dynd/callables/range_callable.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/dynd/callables/range_callable.hpp b/include/dynd/callables/range_callable.hpp
index 1fc5b0d..432febf 100644
--- a/include/dynd/callables/range_callable.hpp
+++ b/include/dynd/callables/range_callable.hpp
@@ -37,7 +37,7 @@ namespace nd {
       if (kwds[0].is_na()) {
         start = 0;
         stop = kwds[1].as<ReturnElementType>();
-        step = kwds[2].as<ReturnElementType>();
+        step = kwds[2].is_na() ? static_cast<ReturnElementType>(1) : kwds[2].as<ReturnElementType>();
       } else {
         if (kwds[1].is_na() && kwds[2].is_na()) {
           start = 0;
@@ -105,7 +105,7 @@ namespace nd {
       if (kwds[0].is_na()) {
         start = 0;
         stop = kwds[1].as<ReturnElementType>();
-        step = kwds[2].as<ReturnElementType>();
+        step = kwds[2].is_na() ? static_cast<ReturnElementType>(1) : kwds[2].as<ReturnElementType>();
       } else {
         if (kwds[1].is_na() && kwds[2].is_na()) {
           start = 0;
-- 
2.43.0


From 8680eca1ea86591194eda6166967790f71c504dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:38 +0000
Subject: [PATCH 083/117] fix: indexed take works, and take refuses what it
 cannot process

---
 .../dynd/callables/take_dispatch_callable.hpp | 36 ++++++++++++++-----
 1 file changed, 27 insertions(+), 9 deletions(-)

diff --git a/include/dynd/callables/take_dispatch_callable.hpp b/include/dynd/callables/take_dispatch_callable.hpp
index 2e93b2f..42c532a 100644
--- a/include/dynd/callables/take_dispatch_callable.hpp
+++ b/include/dynd/callables/take_dispatch_callable.hpp
@@ -26,9 +26,24 @@ namespace nd {
                                                   ndt::make_type<ndt::fixed_dim_kind_type>(ndt::make_type<bool>())})) {}
 
     ndt::type resolve(base_callable *DYND_UNUSED(caller), char *DYND_UNUSED(data), call_graph &cg,
-                      const ndt::type &DYND_UNUSED(dst_tp), size_t DYND_UNUSED(nsrc), const ndt::type *src_tp,
+                      const ndt::type &dst_tp, size_t DYND_UNUSED(nsrc), const ndt::type *src_tp,
                       size_t DYND_UNUSED(nkwd), const array *DYND_UNUSED(kwds),
                       const std::map<std::string, ndt::type> &tp_vars) {
+      if (src_tp[0].get_id() != fixed_dim_id || src_tp[1].get_id() != fixed_dim_id) {
+        std::stringstream ss;
+        ss << "masked take arrfunc: could not process types " << src_tp[0] << " and " << src_tp[1];
+        ss << " as strided dimensions";
+        throw type_error(ss.str());
+      }
+
+      ndt::type src0_element_tp = src_tp[0].extended<ndt::base_dim_type>()->get_element_type();
+      ndt::type resolved_dst_tp = ndt::make_type<ndt::var_dim_type>(src0_element_tp);
+      if (!dst_tp.is_symbolic() && dst_tp != resolved_dst_tp) {
+        std::stringstream ss;
+        ss << "masked take arrfunc: cannot store " << resolved_dst_tp << " in a destination of type " << dst_tp;
+        throw type_error(ss.str());
+      }
+
       cg.emplace_back([](kernel_builder &kb, kernel_request_t kernreq, char *DYND_UNUSED(data), const char *dst_arrmeta,
                          size_t DYND_UNUSED(nsrc), const char *const *src_arrmeta) {
         typedef nd::masked_take_ck self_type;
@@ -58,12 +73,10 @@ namespace nd {
         kb(kernel_request_strided, nullptr, dst_arrmeta + sizeof(ndt::var_dim_type::metadata_type), 1, &src0_el_meta);
       });
 
-      ndt::type src0_element_tp = src_tp[0].extended<ndt::base_dim_type>()->get_element_type();
-
       nd::array error_mode = assign_error_default;
       assign->resolve(this, nullptr, cg, src0_element_tp, 1, &src0_element_tp, 1, &error_mode, tp_vars);
 
-      return ndt::make_type<ndt::var_dim_type>(src0_element_tp);
+      return resolved_dst_tp;
     }
   };
 
@@ -80,15 +93,17 @@ namespace nd {
 
       ndt::type src0_element_tp = src_tp[0].get_type_at_dimension(NULL, 1).get_canonical_type();
 
-      nd::array error_mode = assign_error_default;
-      assign->resolve(this, nullptr, cg, src0_element_tp, 1, &src0_element_tp, 1, &error_mode, tp_vars);
-
       ndt::type resolved_dst_tp;
       if (src_tp[1].get_id() == var_dim_id) {
         resolved_dst_tp = ndt::make_type<ndt::var_dim_type>(src0_element_tp);
       } else {
         resolved_dst_tp = ndt::make_fixed_dim(src_tp[1].get_dim_size(NULL, NULL), src0_element_tp);
       }
+      if (!dst_tp.is_symbolic() && dst_tp != resolved_dst_tp) {
+        std::stringstream ss;
+        ss << "indexed take arrfunc: cannot store " << resolved_dst_tp << " in a destination of type " << dst_tp;
+        throw type_error(ss.str());
+      }
 
       ndt::type src0_tp = src_tp[0];
       ndt::type src1_tp = src_tp[1];
@@ -101,9 +116,9 @@ namespace nd {
 
         ndt::type dst_el_tp;
         const char *dst_el_meta;
-        if (!dst_tp.get_as_strided(dst_arrmeta, &self->m_dst_dim_size, &self->m_dst_stride, &dst_el_tp, &dst_el_meta)) {
+        if (!resolved_dst_tp.get_as_strided(dst_arrmeta, &self->m_dst_dim_size, &self->m_dst_stride, &dst_el_tp, &dst_el_meta)) {
           std::stringstream ss;
-          ss << "indexed take arrfunc: could not process type " << dst_tp;
+          ss << "indexed take arrfunc: could not process type " << resolved_dst_tp;
           ss << " as a strided dimension";
           throw type_error(ss.str());
         }
@@ -142,6 +157,9 @@ namespace nd {
         kb(kernel_request_single, nullptr, dst_el_meta, 1, &src0_el_meta);
       });
 
+      nd::array error_mode = assign_error_default;
+      assign->resolve(this, nullptr, cg, src0_element_tp, 1, &src0_element_tp, 1, &error_mode, tp_vars);
+
       return resolved_dst_tp;
     }
 
-- 
2.43.0


From 6177e12f1f97f8bcaaa75a3b8a1d663ca15da27f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:47:18 +0000
Subject: [PATCH 084/117] fix: a failed sort leaves the elements as they were,
 and NaN does not take it out of bounds

---
 include/dynd/kernels/sort_kernel.hpp | 28 ++++++++++++++++++++--------
 1 file changed, 20 insertions(+), 8 deletions(-)

diff --git a/include/dynd/kernels/sort_kernel.hpp b/include/dynd/kernels/sort_kernel.hpp
index 0e4f758..0a3ea73 100644
--- a/include/dynd/kernels/sort_kernel.hpp
+++ b/include/dynd/kernels/sort_kernel.hpp
@@ -5,6 +5,9 @@
 
 #pragma once
 
+#include <algorithm>
+#include <vector>
+
 #include <dynd/bytes.hpp>
 #include <dynd/kernels/base_strided_kernel.hpp>
 
@@ -25,15 +28,24 @@ namespace nd {
 
     void single(char *DYND_UNUSED(dst), char *const *src)
     {
+      // The elements are sorted in a copy and only then moved into place, so that a failure leaves them as they were.
+      // The merge sort stays within the elements also where they are not totally ordered (NaN).
       kernel_prefix *child = get_child();
-      std::sort(strided_iterator(src[0], src0_element_data_size, src0_stride),
-                strided_iterator(src[0] + src0_size * src0_stride, src0_element_data_size, src0_stride),
-                [child](char *lhs, char *rhs) {
-                  bool1 dst;
-                  char *src[2] = {lhs, rhs};
-                  child->single(reinterpret_cast<char *>(&dst), src);
-                  return dst;
-                });
+      std::vector<char> elements(src0_size * src0_element_data_size);
+      std::vector<char *> order(src0_size);
+      for (intptr_t i = 0; i < src0_size; ++i) {
+        order[i] = elements.data() + i * src0_element_data_size;
+        memcpy(order[i], src[0] + i * src0_stride, src0_element_data_size);
+      }
+      std::stable_sort(order.begin(), order.end(), [child](char *lhs, char *rhs) {
+        bool1 dst;
+        char *src[2] = {lhs, rhs};
+        child->single(reinterpret_cast<char *>(&dst), src);
+        return static_cast<bool>(dst);
+      });
+      for (intptr_t i = 0; i < src0_size; ++i) {
+        memcpy(src[0] + i * src0_stride, order[i], src0_element_data_size);
+      }
     }
   };
 
-- 
2.43.0


From e59e6d1b6fa271760e142cbe16d79993e50364a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:21:00 +0000
Subject: [PATCH 085/117] fix: options of unsigned integers of any size can be
 missing, and options of other types print their value

---
 include/dynd/types/option_type.hpp |  3 +++
 src/dynd/option.cpp                |  8 ++++----
 src/dynd/types/option_type.cpp     | 23 ++++++++++++++++++++++-
 3 files changed, 29 insertions(+), 5 deletions(-)

diff --git a/include/dynd/types/option_type.hpp b/include/dynd/types/option_type.hpp
index 403ecc4..7b6b6a7 100644
--- a/include/dynd/types/option_type.hpp
+++ b/include/dynd/types/option_type.hpp
@@ -12,7 +12,10 @@
 #define DYND_INT8_NA (std::numeric_limits<int8_t>::min())
 #define DYND_INT16_NA (std::numeric_limits<int16_t>::min())
 #define DYND_INT32_NA (std::numeric_limits<int32_t>::min())
+#define DYND_UINT8_NA (std::numeric_limits<uint8_t>::max())
+#define DYND_UINT16_NA (std::numeric_limits<uint16_t>::max())
 #define DYND_UINT32_NA (std::numeric_limits<uint32_t>::max())
+#define DYND_UINT64_NA (std::numeric_limits<uint64_t>::max())
 #define DYND_INT64_NA (std::numeric_limits<int64_t>::min())
 #define DYND_INT128_NA (std::numeric_limits<int128>::min())
 #define DYND_FLOAT16_NA_AS_UINT (0x7e0au)
diff --git a/src/dynd/option.cpp b/src/dynd/option.cpp
index b2df4b1..d083a68 100644
--- a/src/dynd/option.cpp
+++ b/src/dynd/option.cpp
@@ -27,8 +27,8 @@ static std::vector<ndt::type> is_na_func_ptr(const ndt::type &DYND_UNUSED(dst_tp
 nd::callable make_assign_na() {
   auto children = nd::callable::make_all<
       nd::assign_na_callable,
-      type_sequence<bool, int8_t, int16_t, int32_t, int64_t, int128, uint32_t, float, double, dynd::complex<float>,
-                    dynd::complex<double>, void, dynd::bytes, dynd::string, ndt::fixed_dim_kind_type>>(
+      type_sequence<bool, int8_t, int16_t, int32_t, int64_t, int128, uint8_t, uint16_t, uint32_t, uint64_t, float,
+                    double, dynd::complex<float>, dynd::complex<double>, void, dynd::bytes, dynd::string, ndt::fixed_dim_kind_type>>(
       assign_na_func_ptr);
   children.insert(nd::get_elwise(ndt::make_type<ndt::callable_type>(
       ndt::make_type<ndt::fixed_dim_kind_type>(ndt::make_type<ndt::any_kind_type>()), {})));
@@ -43,8 +43,8 @@ nd::callable make_assign_na() {
 nd::callable make_is_na() {
   dispatcher<1, nd::callable> dispatcher = nd::callable::make_all<
       nd::is_na_callable,
-      type_sequence<bool, int8_t, int16_t, int32_t, int64_t, int128, uint32_t, float, double, dynd::complex<float>,
-                    dynd::complex<double>, void, dynd::bytes, dynd::string, ndt::fixed_dim_kind_type>>(is_na_func_ptr);
+      type_sequence<bool, int8_t, int16_t, int32_t, int64_t, int128, uint8_t, uint16_t, uint32_t, uint64_t, float,
+                    double, dynd::complex<float>, dynd::complex<double>, void, dynd::bytes, dynd::string, ndt::fixed_dim_kind_type>>(is_na_func_ptr);
   dispatcher.insert(nd::get_elwise(ndt::make_type<ndt::callable_type>(
       ndt::make_type<ndt::fixed_dim_kind_type>(ndt::make_type<ndt::any_kind_type>()),
       {ndt::make_type<ndt::fixed_dim_kind_type>(ndt::make_type<ndt::any_kind_type>())})));
diff --git a/src/dynd/types/option_type.cpp b/src/dynd/types/option_type.cpp
index ed93fdb..c54dbf5 100644
--- a/src/dynd/types/option_type.cpp
+++ b/src/dynd/types/option_type.cpp
@@ -31,6 +31,18 @@ void dynd::assign_na_builtin(type_id_t value_id, char *data) {
   case int128_id:
     *reinterpret_cast<int128 *>(data) = DYND_INT128_NA;
     return;
+  case uint8_id:
+    *reinterpret_cast<uint8_t *>(data) = DYND_UINT8_NA;
+    return;
+  case uint16_id:
+    *reinterpret_cast<uint16_t *>(data) = DYND_UINT16_NA;
+    return;
+  case uint32_id:
+    *reinterpret_cast<uint32_t *>(data) = DYND_UINT32_NA;
+    return;
+  case uint64_id:
+    *reinterpret_cast<uint64_t *>(data) = DYND_UINT64_NA;
+    return;
   case float32_id:
     *reinterpret_cast<uint32_t *>(data) = DYND_FLOAT32_NA_AS_UINT;
     return;
@@ -61,8 +73,14 @@ bool dynd::is_avail_builtin(type_id_t value_id, const char *data) {
     return *reinterpret_cast<const int16_t *>(data) != DYND_INT16_NA;
   case int32_id:
     return *reinterpret_cast<const int32_t *>(data) != DYND_INT32_NA;
+  case uint8_id:
+    return *reinterpret_cast<const uint8_t *>(data) != DYND_UINT8_NA;
+  case uint16_id:
+    return *reinterpret_cast<const uint16_t *>(data) != DYND_UINT16_NA;
   case uint32_id:
     return *reinterpret_cast<const uint32_t *>(data) != DYND_UINT32_NA;
+  case uint64_id:
+    return *reinterpret_cast<const uint64_t *>(data) != DYND_UINT64_NA;
   case int64_id:
     return *reinterpret_cast<const int64_t *>(data) != DYND_INT64_NA;
   case int128_id:
@@ -77,8 +95,11 @@ bool dynd::is_avail_builtin(type_id_t value_id, const char *data) {
   case complex_float64_id:
     return reinterpret_cast<const uint64_t *>(data)[0] != DYND_FLOAT64_NA_AS_UINT ||
            reinterpret_cast<const uint64_t *>(data)[1] != DYND_FLOAT64_NA_AS_UINT;
-  default:
+  case void_id:
     return false;
+  default:
+    // Values of the other types are never missing
+    return true;
   }
 }
 
-- 
2.43.0


From 780ce7ce8ed48fb6404cbb91f91b865631f852df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:27:25 +0000
Subject: [PATCH 086/117] fix: printing a long dimension shows its last element
 when one element is left out

---
 src/dynd/type.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/dynd/type.cpp b/src/dynd/type.cpp
index b2cdd97..d1a0db7 100644
--- a/src/dynd/type.cpp
+++ b/src/dynd/type.cpp
@@ -659,7 +659,7 @@ void dynd::strided_array_summarized(std::ostream &o, const ndt::type &tp, const
     summarize_stats(leading.back(), num_rows, max_num_cols);
   }
   // Get trailing strings
-  for (itrail = max(dim_size - trailing_count, ilead + 1); itrail < dim_size; ++itrail) {
+  for (itrail = max(dim_size - trailing_count, ilead); itrail < dim_size; ++itrail) {
     stringstream ss;
     tp.print_data(ss, arrmeta, data + itrail * stride);
     trailing.push_back(ss.str());
@@ -694,6 +694,8 @@ void dynd::strided_array_summarized(std::ostream &o, const ndt::type &tp, const
     if (leading.size() != (size_t)dim_size) {
       if ((size_t)dim_size > (leading.size() + trailing.size())) {
         o << ",\n ...\n";
+      } else {
+        o << ",\n";
       }
       if (!trailing.empty()) {
         print_indented(o, " ", trailing.front());
-- 
2.43.0


From e927dc7ca6b8dc259518ef72cccabbfc6cef7e5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:27:59 +0000
Subject: [PATCH 087/117] fix: debug_print works for arrays of bytes and other
 types without arrmeta

---
 src/dynd/types/base_type.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/dynd/types/base_type.cpp b/src/dynd/types/base_type.cpp
index 8d8af7a..28bc81a 100644
--- a/src/dynd/types/base_type.cpp
+++ b/src/dynd/types/base_type.cpp
@@ -143,6 +143,10 @@ void ndt::base_type::arrmeta_destruct(char *DYND_UNUSED(arrmeta)) const {}
 // TODO: Make this a pure virtual function eventually
 void ndt::base_type::arrmeta_debug_print(const char *DYND_UNUSED(arrmeta), std::ostream &DYND_UNUSED(o),
                                          const std::string &DYND_UNUSED(indent)) const {
+  if (get_arrmeta_size() == 0) {
+    // There is nothing to print
+    return;
+  }
   stringstream ss;
   ss << "TODO: arrmeta_debug_print for " << type(this, true) << " is not implemented";
   throw std::runtime_error(ss.str());
-- 
2.43.0


From 9afb1a78f1209875f0d540a88acbc7393fe26f74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:31:28 +0000
Subject: [PATCH 088/117] fix: += and /= of arrays work

---
 include/dynd/compound_arithmetic.hpp | 38 +++++-----------------------
 1 file changed, 6 insertions(+), 32 deletions(-)

diff --git a/include/dynd/compound_arithmetic.hpp b/include/dynd/compound_arithmetic.hpp
index ea5f33b..aee672a 100644
--- a/include/dynd/compound_arithmetic.hpp
+++ b/include/dynd/compound_arithmetic.hpp
@@ -19,44 +19,18 @@ typedef type_sequence<uint8_t, uint16_t, uint32_t, uint64_t, int8_t, int16_t, in
 
 template <template <typename, typename> class KernelType, typename TypeSequence>
 nd::callable make_compound_arithmetic() {
-  const ndt::type &tp = ndt::make_type<ndt::callable_type>(
-      ndt::make_type<ndt::any_kind_type>(),
-      ndt::make_type<ndt::tuple_type>({ndt::make_type<ndt::any_kind_type>(), ndt::make_type<ndt::any_kind_type>()}),
-      ndt::make_type<ndt::struct_type>());
+  // The destination is the other operand
+  const ndt::type &tp =
+      ndt::make_type<ndt::callable_type>(ndt::make_type<ndt::any_kind_type>(), {ndt::make_type<ndt::any_kind_type>()});
 
   auto dispatcher = nd::callable::make_all<KernelType, TypeSequence, TypeSequence>(
       [](const ndt::type &dst_tp, size_t DYND_UNUSED(nsrc), const ndt::type *src_tp) -> std::vector<ndt::type> {
         return {dst_tp, src_tp[0]};
       });
 
-  static const std::vector<ndt::type> binop_ids = {ndt::make_type<uint8_t>(),
-                                                   ndt::make_type<uint16_t>(),
-                                                   ndt::make_type<uint32_t>(),
-                                                   ndt::make_type<uint64_t>(),
-                                                   ndt::make_type<int8_t>(),
-                                                   ndt::make_type<int16_t>(),
-                                                   ndt::make_type<int32_t>(),
-                                                   ndt::make_type<int64_t>(),
-                                                   ndt::make_type<float>(),
-                                                   ndt::make_type<double>(),
-                                                   ndt::make_type<dynd::complex<float>>(),
-                                                   ndt::make_type<dynd::complex<double>>()};
-
-  dispatcher.insert(nd::get_elwise(ndt::make_type<ndt::callable_type>(
-      ndt::make_type<ndt::any_kind_type>(),
-      ndt::make_type<ndt::tuple_type>({ndt::make_type<ndt::scalar_kind_type>(),
-                                       ndt::make_type<ndt::dim_kind_type>(ndt::make_type<ndt::any_kind_type>())}),
-      ndt::make_type<ndt::struct_type>())));
-  dispatcher.insert(nd::get_elwise(ndt::make_type<ndt::callable_type>(
-      ndt::make_type<ndt::any_kind_type>(),
-      ndt::make_type<ndt::tuple_type>({ndt::make_type<ndt::dim_kind_type>(ndt::make_type<ndt::any_kind_type>()),
-                                       ndt::make_type<ndt::scalar_kind_type>()}),
-      ndt::make_type<ndt::struct_type>())));
-  dispatcher.insert(nd::get_elwise(ndt::make_type<ndt::callable_type>(
-      ndt::make_type<ndt::any_kind_type>(),
-      ndt::make_type<ndt::tuple_type>({ndt::make_type<ndt::dim_kind_type>(ndt::make_type<ndt::any_kind_type>()),
-                                       ndt::make_type<ndt::dim_kind_type>(ndt::make_type<ndt::any_kind_type>())}),
-      ndt::make_type<ndt::struct_type>())));
+  dispatcher.insert(nd::get_elwise(
+      ndt::make_type<ndt::callable_type>(ndt::make_type<ndt::dim_kind_type>(ndt::make_type<ndt::any_kind_type>()),
+                                         {ndt::make_type<ndt::any_kind_type>()})));
 
   return nd::make_callable<nd::multidispatch_callable<2>>(tp, dispatcher);
 }
-- 
2.43.0


From 7279220d42780f89de62ec735c9c4b1dbb442e24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:31:28 +0000
Subject: [PATCH 089/117] fix: assign_na accepts arrays with dimensions

---
 src/dynd/option.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/dynd/option.cpp b/src/dynd/option.cpp
index d083a68..77199c4 100644
--- a/src/dynd/option.cpp
+++ b/src/dynd/option.cpp
@@ -36,8 +36,7 @@ nd::callable make_assign_na() {
       ndt::make_type<ndt::callable_type>(ndt::make_type<ndt::var_dim_type>(ndt::make_type<ndt::any_kind_type>()), {})));
 
   return nd::make_callable<nd::multidispatch_callable<1>>(
-      ndt::make_type<ndt::callable_type>(ndt::make_type<ndt::option_type>(ndt::make_type<ndt::any_kind_type>()), {}),
-      children);
+      ndt::make_type<ndt::callable_type>(ndt::make_type<ndt::any_kind_type>(), {}), children);
 }
 
 nd::callable make_is_na() {
-- 
2.43.0


From 2576d8027cffdd523bb47983c854c82ff0d85a6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:32:50 +0000
Subject: [PATCH 090/117] fix: dividing an integer array in place by zero is an
 error

---
 include/dynd/kernels/compound_div_kernel.hpp | 22 ++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/include/dynd/kernels/compound_div_kernel.hpp b/include/dynd/kernels/compound_div_kernel.hpp
index 3bb7668..db50dca 100644
--- a/include/dynd/kernels/compound_div_kernel.hpp
+++ b/include/dynd/kernels/compound_div_kernel.hpp
@@ -5,11 +5,27 @@
 
 #pragma once
 
+#include <dynd/exceptions.hpp>
+#include <dynd/kernels/arithmetic.hpp>
 #include <dynd/kernels/base_kernel.hpp>
 #include <dynd/kernels/base_strided_kernel.hpp>
 
 namespace dynd {
 namespace nd {
+  namespace detail {
+
+    // An integer cannot be divided by an integer zero
+    template <typename DstType, typename Src0Type>
+    std::enable_if_t<dynd::detail::needs_zero_check<DstType, Src0Type>()> check_divisor(Src0Type value) {
+      if (value == 0) {
+        throw dynd::zero_division_error("Integer division or modulo by zero.");
+      }
+    }
+
+    template <typename DstType, typename Src0Type>
+    std::enable_if_t<!dynd::detail::needs_zero_check<DstType, Src0Type>()> check_divisor(Src0Type DYND_UNUSED(value)) {}
+
+  } // namespace dynd::nd::detail
 
   template <typename ReturnType, typename Arg0Type,
             bool UseBinaryOperator = !is_lossless_assignable<ReturnType, Arg0Type>::value>
@@ -22,6 +38,7 @@ namespace nd {
     typedef Src0Type src0_type;
 
     void single(char *dst, char *const *src) {
+      detail::check_divisor<dst_type>(*reinterpret_cast<src0_type *>(src[0]));
       *reinterpret_cast<dst_type *>(dst) /= *reinterpret_cast<src0_type *>(src[0]);
     }
 
@@ -30,6 +47,7 @@ namespace nd {
       char *src0 = src[0];
       std::intptr_t src0_stride = src_stride[0];
       for (std::size_t i = 0; i < count; ++i) {
+        detail::check_divisor<dst_type>(*reinterpret_cast<src0_type *>(src0));
         *reinterpret_cast<dst_type *>(dst) /= *reinterpret_cast<src0_type *>(src0);
         dst += dst_stride;
         src0 += src0_stride;
@@ -44,6 +62,7 @@ namespace nd {
     typedef Src0Type src0_type;
 
     void single(char *dst, char *const *src) {
+      detail::check_divisor<dst_type>(*reinterpret_cast<src0_type *>(src[0]));
       *reinterpret_cast<dst_type *>(dst) =
           static_cast<dst_type>(*reinterpret_cast<dst_type *>(dst) / *reinterpret_cast<src0_type *>(src[0]));
     }
@@ -53,6 +72,7 @@ namespace nd {
       char *src0 = src[0];
       std::intptr_t src0_stride = src_stride[0];
       for (std::size_t i = 0; i < count; ++i) {
+        detail::check_divisor<dst_type>(*reinterpret_cast<src0_type *>(src0));
         *reinterpret_cast<dst_type *>(dst) =
             static_cast<dst_type>(*reinterpret_cast<dst_type *>(dst) / *reinterpret_cast<src0_type *>(src0));
         dst += dst_stride;
@@ -68,6 +88,7 @@ namespace nd {
     typedef Src0Type src0_type;
 
     void single(char *dst, char *const *src) {
+      detail::check_divisor<dst_type>(*reinterpret_cast<src0_type *>(src[0]));
       *reinterpret_cast<dst_type *>(dst) =
           *reinterpret_cast<dst_type *>(dst) / *reinterpret_cast<src0_type *>(src[0]) ? true : false;
     }
@@ -77,6 +98,7 @@ namespace nd {
       char *src0 = src[0];
       std::intptr_t src0_stride = src_stride[0];
       for (std::size_t i = 0; i < count; ++i) {
+        detail::check_divisor<dst_type>(*reinterpret_cast<src0_type *>(src0));
         *reinterpret_cast<dst_type *>(dst) =
             *reinterpret_cast<dst_type *>(dst) / *reinterpret_cast<src0_type *>(src0) ? true : false;
         dst += dst_stride;
-- 
2.43.0


From 9e7b3cd990813fd2190c650292d1679ff4394a00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:33:48 +0000
Subject: [PATCH 091/117] fix: equals_exact compares var dimensions of any
 size, missing values and records

---
 src/dynd/array.cpp | 35 +++++++++++++++++++++++++++++------
 1 file changed, 29 insertions(+), 6 deletions(-)

diff --git a/src/dynd/array.cpp b/src/dynd/array.cpp
index 958d2fc..a55a509 100644
--- a/src/dynd/array.cpp
+++ b/src/dynd/array.cpp
@@ -295,15 +295,38 @@ bool nd::array::is_na() const {
 bool nd::array::equals_exact(const array &rhs) const {
   if (get() == rhs.get()) {
     return true;
-  } else if (get_type() != rhs.get_type()) {
+  } else if (is_null() || rhs.is_null() || get_type() != rhs.get_type()) {
     return false;
   } else if (get_ndim() == 0) {
+    if (get_type().get_id() == option_id && (is_na() || rhs.is_na())) {
+      return is_na() && rhs.is_na();
+    }
+    if (get_type().get_id() == tuple_id || get_type().get_id() == struct_id) {
+      // Compare the fields
+      intptr_t field_count = get_type().get_id() == tuple_id ? get_type().extended<ndt::tuple_type>()->get_field_count()
+                                                             : get_type().extended<ndt::struct_type>()->get_field_count();
+      for (intptr_t i = 0; i < field_count; ++i) {
+        if (!(*this)(i).equals_exact(rhs(i))) {
+          return false;
+        }
+      }
+      return true;
+    }
     return (*this == rhs).as<bool>();
-  } else if (get_type().get_id() == var_dim_id) {
-    // If there's a leading var dimension, convert it to strided and compare
-    // (Note: this is an inefficient hack)
-    ndt::type tp = ndt::make_fixed_dim(get_shape()[0], get_type().extended<ndt::base_dim_type>()->get_element_type());
-    return nd::old_view(*this, tp).equals_exact(nd::old_view(rhs, tp));
+  } else if (get_type().get_id() == var_dim_id || get_type().get_strided_ndim() != get_ndim() ||
+             get_dtype().get_id() == option_id || get_dtype().get_id() == tuple_id ||
+             get_dtype().get_id() == struct_id) {
+    // If there's a var dimension, missing values or records, compare the elements
+    intptr_t dim_size = get_dim_size();
+    if (dim_size != rhs.get_dim_size()) {
+      return false;
+    }
+    for (intptr_t i = 0; i < dim_size; ++i) {
+      if (!(*this)(i).equals_exact(rhs(i))) {
+        return false;
+      }
+    }
+    return true;
   } else {
     // First compare the shape, to avoid triggering an exception in common cases
     size_t ndim = get_ndim();
-- 
2.43.0


From edfd7d1f7e6bcfbee97293d0e4665eee99b69234 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:39:53 +0000
Subject: [PATCH 092/117] fix: an array iterator that cannot be made releases
 its memory

---
 include/dynd/array_iter.hpp | 34 ++++++++++++++++++++++++----------
 1 file changed, 24 insertions(+), 10 deletions(-)

diff --git a/include/dynd/array_iter.hpp b/include/dynd/array_iter.hpp
index fac1fd5..4949305 100644
--- a/include/dynd/array_iter.hpp
+++ b/include/dynd/array_iter.hpp
@@ -353,9 +353,20 @@ class array_iter<0, 2> {
   iterdata_common *m_iterdata[2];
   ndt::type m_array_tp[2], m_uniform_tp[2];
 
+  void destroy_iterdata() {
+    for (size_t i = 0; i < 2; ++i) {
+      if (m_iterdata[i]) {
+        m_array_tp[i].iterdata_destruct(m_iterdata[i], m_array_tp[i].get_ndim());
+        free(m_iterdata[i]);
+      }
+    }
+  }
+
 public:
   array_iter(const nd::array &op0, const nd::array &op1) {
     nd::array ops[2] = {op0, op1};
+    m_iterdata[0] = NULL;
+    m_iterdata[1] = NULL;
     m_array_tp[0] = op0.get_type();
     m_array_tp[1] = op1.get_type();
     m_itersize = 1;
@@ -371,11 +382,21 @@ public:
         size_t iterdata_size = m_array_tp[i].get_broadcasted_iterdata_size(iter_ndim_i);
         m_iterdata[i] = reinterpret_cast<iterdata_common *>(malloc(iterdata_size));
         if (!m_iterdata[i]) {
+          destroy_iterdata();
           throw std::bad_alloc();
         }
         m_arrmeta[i] = ops[i].get()->metadata();
-        m_array_tp[i].broadcasted_iterdata_construct(m_iterdata[i], &m_arrmeta[i], iter_ndim_i,
-                                                     m_itershape.get() + (m_iter_ndim - iter_ndim_i), m_uniform_tp[i]);
+        try {
+          m_array_tp[i].broadcasted_iterdata_construct(m_iterdata[i], &m_arrmeta[i], iter_ndim_i,
+                                                       m_itershape.get() + (m_iter_ndim - iter_ndim_i),
+                                                       m_uniform_tp[i]);
+        } catch (...) {
+          // This one was not constructed
+          free(m_iterdata[i]);
+          m_iterdata[i] = NULL;
+          destroy_iterdata();
+          throw;
+        }
         m_data[i] = m_iterdata[i]->reset(m_iterdata[i], const_cast<char *>(ops[i].cdata()), m_iter_ndim);
       }
 
@@ -392,14 +413,7 @@ public:
     }
   }
 
-  ~array_iter() {
-    for (size_t i = 0; i < 2; ++i) {
-      if (m_iterdata[i]) {
-        m_array_tp[i].iterdata_destruct(m_iterdata[i], m_array_tp[i].get_ndim());
-        free(m_iterdata[i]);
-      }
-    }
-  }
+  ~array_iter() { destroy_iterdata(); }
 
   size_t itersize() const { return m_itersize; }
 
-- 
2.43.0


From 73426bfbfe1d82f870f6e6df0a68dce48fcc29c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:40:48 +0000
Subject: [PATCH 093/117] fix: a comparison of records that cannot be made
 destroys only the field kernels it has

---
 include/dynd/callables/equal_callable.hpp     | 8 ++++++--
 include/dynd/callables/not_equal_callable.hpp | 8 ++++++--
 2 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/include/dynd/callables/equal_callable.hpp b/include/dynd/callables/equal_callable.hpp
index be3ebcc..d5c5a9a 100644
--- a/include/dynd/callables/equal_callable.hpp
+++ b/include/dynd/callables/equal_callable.hpp
@@ -46,13 +46,14 @@ namespace nd {
         intptr_t self_offset = kb.size();
 
         kb.emplace_back<equal_kernel<ndt::tuple_type, ndt::tuple_type>>(
-            kernreq, field_count, reinterpret_cast<const uintptr_t *>(src_arrmeta[0]),
+            kernreq, 0, reinterpret_cast<const uintptr_t *>(src_arrmeta[0]),
             reinterpret_cast<const uintptr_t *>(src_arrmeta[1]));
         kb.emplace_back(field_count * sizeof(size_t));
 
         equal_kernel<ndt::tuple_type, ndt::tuple_type> *e =
             kb.get_at<equal_kernel<ndt::tuple_type, ndt::tuple_type>>(self_offset);
         size_t *field_kernel_offsets;
+        // The fields are counted as they are made, so that a failure destroys only those
         for (size_t i = 0; i != field_count; ++i) {
           // Reserve space for the child, and save the offset to this
           // field comparison kernel. Have to re-get
@@ -61,6 +62,7 @@ namespace nd {
           e = kb.get_at<equal_kernel<ndt::tuple_type, ndt::tuple_type>>(self_offset);
           field_kernel_offsets = reinterpret_cast<size_t *>(e + 1);
           field_kernel_offsets[i] = kb.size() - self_offset;
+          e->field_count = i + 1;
           const char *child_src_arrmeta[2] = {src_arrmeta[0] + src0_arrmeta_offsets[i],
                                               src_arrmeta[1] + src1_arrmeta_offsets[i]};
           kb(kernel_request_single, nullptr, dst_arrmeta, nsrc, child_src_arrmeta);
@@ -102,13 +104,14 @@ namespace nd {
         intptr_t self_offset = kb.size();
 
         kb.emplace_back<equal_kernel<ndt::struct_type, ndt::struct_type>>(
-            kernreq, field_count, reinterpret_cast<const uintptr_t *>(src_arrmeta[0]),
+            kernreq, 0, reinterpret_cast<const uintptr_t *>(src_arrmeta[0]),
             reinterpret_cast<const uintptr_t *>(src_arrmeta[1]));
         kb.emplace_back(field_count * sizeof(size_t));
 
         equal_kernel<ndt::struct_type, ndt::struct_type> *e =
             kb.get_at<equal_kernel<ndt::struct_type, ndt::struct_type>>(self_offset);
         size_t *field_kernel_offsets;
+        // The fields are counted as they are made, so that a failure destroys only those
         for (size_t i = 0; i != field_count; ++i) {
           // Reserve space for the child, and save the offset to this
           // field comparison kernel. Have to re-get
@@ -117,6 +120,7 @@ namespace nd {
           e = kb.get_at<equal_kernel<ndt::struct_type, ndt::struct_type>>(self_offset);
           field_kernel_offsets = reinterpret_cast<size_t *>(e + 1);
           field_kernel_offsets[i] = kb.size() - self_offset;
+          e->field_count = i + 1;
           const char *child_src_arrmeta[2] = {src_arrmeta[0] + src0_arrmeta_offsets[i],
                                               src_arrmeta[1] + src1_arrmeta_offsets[i]};
           kb(kernel_request_single, nullptr, dst_arrmeta, nsrc, child_src_arrmeta);
diff --git a/include/dynd/callables/not_equal_callable.hpp b/include/dynd/callables/not_equal_callable.hpp
index ad0419c..69f0b8b 100644
--- a/include/dynd/callables/not_equal_callable.hpp
+++ b/include/dynd/callables/not_equal_callable.hpp
@@ -46,13 +46,14 @@ namespace nd {
         intptr_t self_offset = kb.size();
 
         kb.emplace_back<not_equal_kernel<ndt::tuple_type, ndt::tuple_type>>(
-            kernreq, field_count, reinterpret_cast<const uintptr_t *>(src_arrmeta[0]),
+            kernreq, 0, reinterpret_cast<const uintptr_t *>(src_arrmeta[0]),
             reinterpret_cast<const uintptr_t *>(src_arrmeta[1]));
         kb.emplace_back(field_count * sizeof(size_t));
 
         not_equal_kernel<ndt::tuple_type, ndt::tuple_type> *e =
             kb.get_at<not_equal_kernel<ndt::tuple_type, ndt::tuple_type>>(self_offset);
         size_t *field_kernel_offsets;
+        // The fields are counted as they are made, so that a failure destroys only those
         for (size_t i = 0; i != field_count; ++i) {
           // Reserve space for the child, and save the offset to this
           // field comparison kernel. Have to re-get
@@ -61,6 +62,7 @@ namespace nd {
           e = kb.get_at<not_equal_kernel<ndt::tuple_type, ndt::tuple_type>>(self_offset);
           field_kernel_offsets = reinterpret_cast<size_t *>(e + 1);
           field_kernel_offsets[i] = kb.size() - self_offset;
+          e->field_count = i + 1;
           const char *child_src_arrmeta[2] = {src_arrmeta[0] + src0_arrmeta_offsets[i],
                                               src_arrmeta[1] + src1_arrmeta_offsets[i]};
           kb(kernel_request_single, nullptr, dst_arrmeta, nsrc, child_src_arrmeta);
@@ -102,13 +104,14 @@ namespace nd {
         intptr_t self_offset = kb.size();
 
         kb.emplace_back<not_equal_kernel<ndt::struct_type, ndt::struct_type>>(
-            kernreq, field_count, reinterpret_cast<const uintptr_t *>(src_arrmeta[0]),
+            kernreq, 0, reinterpret_cast<const uintptr_t *>(src_arrmeta[0]),
             reinterpret_cast<const uintptr_t *>(src_arrmeta[1]));
         kb.emplace_back(field_count * sizeof(size_t));
 
         not_equal_kernel<ndt::struct_type, ndt::struct_type> *e =
             kb.get_at<not_equal_kernel<ndt::struct_type, ndt::struct_type>>(self_offset);
         size_t *field_kernel_offsets;
+        // The fields are counted as they are made, so that a failure destroys only those
         for (size_t i = 0; i != field_count; ++i) {
           // Reserve space for the child, and save the offset to this
           // field comparison kernel. Have to re-get
@@ -117,6 +120,7 @@ namespace nd {
           e = kb.get_at<not_equal_kernel<ndt::struct_type, ndt::struct_type>>(self_offset);
           field_kernel_offsets = reinterpret_cast<size_t *>(e + 1);
           field_kernel_offsets[i] = kb.size() - self_offset;
+          e->field_count = i + 1;
           const char *child_src_arrmeta[2] = {src_arrmeta[0] + src0_arrmeta_offsets[i],
                                               src_arrmeta[1] + src1_arrmeta_offsets[i]};
           kb(kernel_request_single, nullptr, dst_arrmeta, nsrc, child_src_arrmeta);
-- 
2.43.0


From 0dcc00e45b891e73391ab7957f9aaa756781de6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:48:32 +0000
Subject: [PATCH 094/117] fix: a file that cannot be examined for mapping is
 closed again

---
 include/dynd/memblock/memmap_memory_block.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/dynd/memblock/memmap_memory_block.hpp b/include/dynd/memblock/memmap_memory_block.hpp
index 5a1f9b3..6dc462c 100644
--- a/include/dynd/memblock/memmap_memory_block.hpp
+++ b/include/dynd/memblock/memmap_memory_block.hpp
@@ -179,6 +179,7 @@ namespace nd {
 #endif
       struct stat st;
       if (fstat(m_fd, &st) == -1) {
+        close(m_fd);
         std::stringstream ss;
         ss << "failed to stat file \"" << m_filename << "\" for memory mapping";
         throw std::runtime_error(ss.str());
-- 
2.43.0


From 5f05e3758ebf6f77aace4e9dae81ec80c2e4f91c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:48:32 +0000
Subject: [PATCH 095/117] fix: an empty range of a file can be mapped

---
 include/dynd/memblock/memmap_memory_block.hpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/include/dynd/memblock/memmap_memory_block.hpp b/include/dynd/memblock/memmap_memory_block.hpp
index 6dc462c..9a373d5 100644
--- a/include/dynd/memblock/memmap_memory_block.hpp
+++ b/include/dynd/memblock/memmap_memory_block.hpp
@@ -197,7 +197,11 @@ namespace nd {
       m_mapOffset = begin - mapbegin;
       intptr_t mapsize = end - mapbegin;
 
-      m_mapPointer = (char *)mmap(NULL, mapsize, PROT_READ | (readwrite ? PROT_WRITE : 0), MAP_SHARED, m_fd, mapbegin);
+      // An empty mapping is an error of the system call
+      m_mapPointer = NULL;
+      if (mapsize > 0) {
+        m_mapPointer = (char *)mmap(NULL, mapsize, PROT_READ | (readwrite ? PROT_WRITE : 0), MAP_SHARED, m_fd, mapbegin);
+      }
       if (m_mapPointer == (char *)MAP_FAILED) {
         close(m_fd);
         std::stringstream ss;
@@ -217,7 +221,9 @@ namespace nd {
       CloseHandle(m_hFile);
 #else
       intptr_t mapsize = m_end - m_begin + m_mapOffset;
-      munmap((void *)m_mapPointer, mapsize);
+      if (m_mapPointer != NULL) {
+        munmap((void *)m_mapPointer, mapsize);
+      }
       close(m_fd);
 #endif
     }
-- 
2.43.0


From b7a0451be900b931b833d13f14bcbca1521f2a68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:48:58 +0000
Subject: [PATCH 096/117] fix: a shortvector made shorter, or that cannot be
 made longer, does not release its memory twice

---
 include/dynd/shortvector.hpp | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/include/dynd/shortvector.hpp b/include/dynd/shortvector.hpp
index c7f1454..31a40b1 100644
--- a/include/dynd/shortvector.hpp
+++ b/include/dynd/shortvector.hpp
@@ -40,9 +40,9 @@ public:
         if (m_data != m_shortdata) {
             delete[] m_data;
         }
-        if (size <= staticN) {
-            m_data = m_shortdata;
-        } else {
+        // Valid even if the allocation fails
+        m_data = m_shortdata;
+        if (size > staticN) {
             m_data = new T[size];
         }
     }
@@ -212,9 +212,8 @@ public:
     }
 
     void init(int n) {
-        if (m_alloc_data != NULL) {
-            delete[] m_alloc_data;
-        }
+        delete[] m_alloc_data;
+        m_alloc_data = NULL;
         internal_init(n);
     }
 
-- 
2.43.0


From a0f8c23b0796c89a7d9646ee8b8d2e0ada30f64f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:55:24 +0000
Subject: [PATCH 097/117] fix: the element metadata of a std::tuple has its
 whole size, so tuples of tuples can be arrays

---
 include/dynd/types/tuple_type.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/dynd/types/tuple_type.hpp b/include/dynd/types/tuple_type.hpp
index bdaaca6..d33c1c5 100644
--- a/include/dynd/types/tuple_type.hpp
+++ b/include/dynd/types/tuple_type.hpp
@@ -251,7 +251,8 @@ namespace ndt {
   struct traits<std::tuple<ElementTypes...>> {
     static const bool is_same_layout = false;
 
-    static const bool metadata_size = traits<tuple<ElementTypes...>>::metadata_size;
+    static const size_t ndim = 0;
+    static const size_t metadata_size = traits<tuple<ElementTypes...>>::metadata_size;
 
     static type equivalent() { return make_type<tuple_type>({make_type<ElementTypes>()...}); }
   };
-- 
2.43.0


From fff37202265312f308b2bfb10e16f5b5f82764e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:55:24 +0000
Subject: [PATCH 098/117] fix: nested vectors and lists that are ragged at any
 level can be arrays

---
 include/dynd/kernels/init_kernel.hpp | 19 +++++--------------
 1 file changed, 5 insertions(+), 14 deletions(-)

diff --git a/include/dynd/kernels/init_kernel.hpp b/include/dynd/kernels/init_kernel.hpp
index 0758d83..a3d39c3 100644
--- a/include/dynd/kernels/init_kernel.hpp
+++ b/include/dynd/kernels/init_kernel.hpp
@@ -224,7 +224,7 @@ namespace nd {
       void single(char *data, const ContainerType &values) {
         reinterpret_cast<ndt::var_dim_type::data_type *>(data)->begin = memblock->alloc(values.size());
         reinterpret_cast<ndt::var_dim_type::data_type *>(data)->size = values.size();
-        child.contiguous(reinterpret_cast<ndt::var_dim_type::data_type *>(data)->begin, values.begin(), values.size());
+        child.contiguous(reinterpret_cast<ndt::var_dim_type::data_type *>(data)->begin, front_data(values), values.size());
       }
 
       void contiguous(char *data, const ContainerType *values, size_t size) {
@@ -237,18 +237,9 @@ namespace nd {
 
   } // namespace dynd::nd::detail
 
-  template <typename ContainerType, typename Enable = void>
-  struct container_init;
-
-  template <typename ValueType>
-  struct container_init<std::initializer_list<ValueType>,
-                        std::enable_if_t<ndt::traits<std::initializer_list<ValueType>>::ndim != 1>>
-      : detail::init_kernel<ndt::fixed_dim_type, std::initializer_list<ValueType>> {
-    using detail::init_kernel<ndt::fixed_dim_type, std::initializer_list<ValueType>>::init_kernel;
-  };
-
+  /** Initializes a fixed or var dimension, whichever the type has for the container */
   template <typename ContainerType>
-  struct container_init<ContainerType, std::enable_if_t<ndt::traits<ContainerType>::ndim == 1>> {
+  struct container_init {
     typedef value_type_t<ContainerType> value_type;
 
     std::aligned_union_t<1, detail::init_kernel<ndt::fixed_dim_type, ContainerType>,
@@ -312,8 +303,8 @@ namespace nd {
   };
 
   template <typename T>
-  struct init_kernel<std::vector<T>> : detail::init_kernel<ndt::fixed_dim_type, std::vector<T>> {
-    using detail::init_kernel<ndt::fixed_dim_type, std::vector<T>>::init_kernel;
+  struct init_kernel<std::vector<T>> : container_init<std::vector<T>> {
+    using container_init<std::vector<T>>::container_init;
   };
 
   template <typename T, T... first, T... second>
-- 
2.43.0


From 20b6bbff1365193c8211670675481254a2a19e18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:55:24 +0000
Subject: [PATCH 099/117] fix: an empty container of containers can be an array

---
 include/dynd/type.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/dynd/type.hpp b/include/dynd/type.hpp
index 5c76524..d08aa11 100644
--- a/include/dynd/type.hpp
+++ b/include/dynd/type.hpp
@@ -1018,6 +1018,12 @@ namespace ndt {
       res[0] = values.size();
 
       auto iter = values.begin();
+      if (iter == values.end()) {
+        for (size_t i = 1; i < ndim; ++i) {
+          res[i] = 0;
+        }
+        return;
+      }
       ndt::traits<typename ContainerType::value_type>::shape(res + 1, *iter);
 
       while (++iter != values.end()) {
-- 
2.43.0


From 368227a3876d6ef66e558e30f9ff8b3b5cce4634 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:21:18 +0000
Subject: [PATCH 100/117] fix: a pointer does not destroy its target

---
 include/dynd/types/pointer_type.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/dynd/types/pointer_type.hpp b/include/dynd/types/pointer_type.hpp
index 8bdb036..fc0296e 100644
--- a/include/dynd/types/pointer_type.hpp
+++ b/include/dynd/types/pointer_type.hpp
@@ -38,7 +38,8 @@ namespace ndt {
   public:
     pointer_type(type_id_t id, const type &target_tp = make_type<any_kind_type>())
         : base_type(id, sizeof(char *), alignof(char *),
-                    target_tp.get_flags() | type_flag_zeroinit | type_flag_blockref,
+                    // The target is not the pointer's to destroy
+                    (target_tp.get_flags() & ~type_flag_destructor) | type_flag_zeroinit | type_flag_blockref,
                     target_tp.get_arrmeta_size() + sizeof(pointer_type_arrmeta), 0, 0),
           m_target_tp(target_tp) {}
 
-- 
2.43.0


From 7176e941e2e119c09e479c69ded61232b91818fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:21:18 +0000
Subject: [PATCH 101/117] fix: combine_into_tuple accepts read-only values and
 no values

---
 src/dynd/array.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/dynd/array.cpp b/src/dynd/array.cpp
index a55a509..9e46812 100644
--- a/src/dynd/array.cpp
+++ b/src/dynd/array.cpp
@@ -981,8 +981,8 @@ nd::array nd::combine_into_tuple(size_t field_count, const array *field_values)
     field_types[i] = ndt::make_type<ndt::pointer_type>(field_values[i].get_type());
   }
   // The flags are the intersection of all the input flags
-  uint64_t flags = field_values[0].get_flags();
-  for (size_t i = 1; i != field_count; ++i) {
+  uint64_t flags = field_count == 0 ? read_access_flag | immutable_access_flag : field_values[0].get_flags();
+  for (size_t i = 1; i < field_count; ++i) {
     flags &= field_values[i].get_flags();
   }
 
@@ -1013,7 +1013,7 @@ nd::array nd::combine_into_tuple(size_t field_count, const array *field_values)
   }
 
   // Set the data pointers
-  const char **dp = reinterpret_cast<const char **>(result.data());
+  const char **dp = reinterpret_cast<const char **>(const_cast<char *>(result.cdata()));
   for (size_t i = 0; i != field_count; ++i) {
     dp[i] = field_values[i].cdata();
   }
-- 
2.43.0


From 19d560ef9a224e5534548a7f991840b2b510e902 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:25:51 +0000
Subject: [PATCH 102/117] fix: iterating a dimension of one element visits it

The stride of such a dimension is zero, so fixed<T>::begin() compared equal to end().
---
 include/dynd/types/fixed_dim_kind_type.hpp | 31 +++++++++++++++-------
 1 file changed, 21 insertions(+), 10 deletions(-)

diff --git a/include/dynd/types/fixed_dim_kind_type.hpp b/include/dynd/types/fixed_dim_kind_type.hpp
index 018ce5b..6717185 100644
--- a/include/dynd/types/fixed_dim_kind_type.hpp
+++ b/include/dynd/types/fixed_dim_kind_type.hpp
@@ -26,15 +26,18 @@ public:
   class iterator {
     intptr_t m_stride;
     char *m_data;
+    // The stride may be zero, so the data alone doesn't tell where the iterator is
+    intptr_t m_index;
 
   public:
-    iterator(const char *metadata, char *data)
-        : m_stride(reinterpret_cast<const size_stride_t *>(metadata)->stride), m_data(data) {}
+    iterator(const char *metadata, char *data, intptr_t index = 0)
+        : m_stride(reinterpret_cast<const size_stride_t *>(metadata)->stride), m_data(data), m_index(index) {}
 
     ElementType &operator*() { return *reinterpret_cast<ElementType *>(m_data); }
 
     iterator &operator++() {
       m_data += m_stride;
+      ++m_index;
       return *this;
     }
 
@@ -44,9 +47,9 @@ public:
       return tmp;
     }
 
-    bool operator==(const iterator &rhs) const { return m_data == rhs.m_data; }
+    bool operator==(const iterator &rhs) const { return m_data == rhs.m_data && m_index == rhs.m_index; }
 
-    bool operator!=(const iterator &rhs) const { return m_data != rhs.m_data; }
+    bool operator!=(const iterator &rhs) const { return !(*this == rhs); }
   };
 
   fixed(const char *metadata, char *data) : m_data(data) {
@@ -73,7 +76,8 @@ public:
   iterator begin() const { return iterator(this->m_metadata, this->m_data); }
 
   iterator end() const {
-    return iterator(this->m_metadata, this->m_data + m_size_stride.dim_size * m_size_stride.stride);
+    return iterator(this->m_metadata, this->m_data + m_size_stride.dim_size * m_size_stride.stride,
+                    m_size_stride.dim_size);
   }
 };
 
@@ -93,16 +97,19 @@ public:
   class iterator {
     intptr_t m_stride;
     ElementType m_current;
+    // The stride may be zero, so the data alone doesn't tell where the iterator is
+    intptr_t m_index;
 
   public:
-    iterator(const char *metadata, char *data)
+    iterator(const char *metadata, char *data, intptr_t index = 0)
         : m_stride(reinterpret_cast<const size_stride_t *>(metadata)->stride),
-          m_current(metadata + sizeof(size_stride_t), data) {}
+          m_current(metadata + sizeof(size_stride_t), data), m_index(index) {}
 
     ElementType operator*() { return m_current; }
 
     iterator &operator++() {
       m_current.assign(m_current.data() + m_stride);
+      ++m_index;
       return *this;
     }
 
@@ -112,9 +119,11 @@ public:
       return tmp;
     }
 
-    bool operator==(const iterator &rhs) const { return m_current.data() == rhs.m_current.data(); }
+    bool operator==(const iterator &rhs) const {
+      return m_current.data() == rhs.m_current.data() && m_index == rhs.m_index;
+    }
 
-    bool operator!=(const iterator &rhs) const { return m_current.data() != rhs.m_current.data(); }
+    bool operator!=(const iterator &rhs) const { return !(*this == rhs); }
   };
 
   fixed(const char *metadata, char *data) : m_data(data) {
@@ -140,7 +149,9 @@ public:
 
   iterator begin() const { return iterator(m_metadata, m_data); }
 
-  iterator end() const { return iterator(m_metadata, m_data + m_size_stride.dim_size * m_size_stride.stride); }
+  iterator end() const {
+    return iterator(m_metadata, m_data + m_size_stride.dim_size * m_size_stride.stride, m_size_stride.dim_size);
+  }
 };
 
 namespace ndt {
-- 
2.43.0


From d5e913598d3a85c8eacae3a69baf3a6751121509 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:36:09 +0000
Subject: [PATCH 103/117] fix: nested iteration stays inside the containers

It went on to the container after the last one, and did not skip empty ones.
---
 include/dynd/iterator.hpp | 88 +++++++++++++++++++++++----------------
 1 file changed, 52 insertions(+), 36 deletions(-)

diff --git a/include/dynd/iterator.hpp b/include/dynd/iterator.hpp
index 61f9b1c..c6d00eb 100644
--- a/include/dynd/iterator.hpp
+++ b/include/dynd/iterator.hpp
@@ -36,6 +36,12 @@ protected:
 
   iterator(const std_iterator_type &end) : m_current(end), m_end(end) {}
 
+  void reset(const std_iterator_type &begin, const std_iterator_type &end)
+  {
+    m_current = begin;
+    m_end = end;
+  }
+
 public:
   typedef typename std::iterator_traits<std_iterator_type>::value_type value_type;
 
@@ -83,26 +89,32 @@ protected:
   std_iterator_type m_current;
   std_iterator_type m_end;
 
-  iterator(const std_iterator_type &begin, const std_iterator_type &end,
-           typename std::iterator_traits<std_iterator_type>::value_type &front)
-      : base_type(std::begin(front), std::end(front)), m_current(begin),
-        m_end(end)
+  iterator(const std_iterator_type &begin, const std_iterator_type &end)
+      : base_type(), m_current(begin), m_end(end)
   {
+    enter();
   }
 
-  iterator(const std_iterator_type &begin, const std_iterator_type &end)
-      : iterator(begin, end, *begin)
+  iterator(const std_iterator_type &end) : base_type(), m_current(end), m_end(end) {}
+
+  void reset(const std_iterator_type &begin, const std_iterator_type &end)
   {
+    m_current = begin;
+    m_end = end;
+    enter();
   }
 
-  iterator(const std_iterator_type &end,
-           typename std::iterator_traits<std_iterator_type>::value_type &back)
-      : base_type(std::end(back)), m_current(end), m_end(end)
+  /** Goes to the first element at or after m_current, over empty containers */
+  void enter()
   {
+    for (; m_current != m_end; ++m_current) {
+      base_type::reset(std::begin(*m_current), std::end(*m_current));
+      if (base_type::m_current != base_type::m_end) {
+        return;
+      }
+    }
   }
 
-  iterator(const std_iterator_type &end) : iterator(end, *std::prev(end)) {}
-
 public:
   typedef typename base_type::value_type value_type;
 
@@ -113,8 +125,7 @@ public:
     base_type::operator++();
     if (base_type::m_current == base_type::m_end) {
       ++m_current;
-      base_type::m_current = std::begin(*m_current);
-      base_type::m_end = std::end(*m_current);
+      enter();
     }
 
     return *this;
@@ -129,13 +140,10 @@ public:
 
   bool operator==(const iterator &other) const
   {
-    return m_current == other.m_current && base_type::operator==(other);
+    return m_current == other.m_current && (m_current == m_end || base_type::operator==(other));
   }
 
-  bool operator!=(const iterator &other) const
-  {
-    return m_current != other.m_current || base_type::operator!=(other);
-  }
+  bool operator!=(const iterator &other) const { return !(*this == other); }
 };
 
 template <int N, typename ContainerType>
@@ -177,6 +185,12 @@ protected:
 
   const_iterator(const std_iterator_type &end) : m_current(end), m_end(end) {}
 
+  void reset(const std_iterator_type &begin, const std_iterator_type &end)
+  {
+    m_current = begin;
+    m_end = end;
+  }
+
 public:
   typedef typename std::iterator_traits<std_iterator_type>::value_type value_type;
 
@@ -224,26 +238,32 @@ protected:
   std_iterator_type m_current;
   std_iterator_type m_end;
 
-  const_iterator(const std_iterator_type &begin, const std_iterator_type &end,
-           const typename std::iterator_traits<std_iterator_type>::value_type &front)
-      : base_type(std::begin(front), std::end(front)), m_current(begin),
-        m_end(end)
+  const_iterator(const std_iterator_type &begin, const std_iterator_type &end)
+      : base_type(), m_current(begin), m_end(end)
   {
+    enter();
   }
 
-  const_iterator(const std_iterator_type &begin, const std_iterator_type &end)
-      : const_iterator(begin, end, *begin)
+  const_iterator(const std_iterator_type &end) : base_type(), m_current(end), m_end(end) {}
+
+  void reset(const std_iterator_type &begin, const std_iterator_type &end)
   {
+    m_current = begin;
+    m_end = end;
+    enter();
   }
 
-  const_iterator(const std_iterator_type &end,
-           const typename std::iterator_traits<std_iterator_type>::value_type &back)
-      : base_type(std::end(back)), m_current(end), m_end(end)
+  /** Goes to the first element at or after m_current, over empty containers */
+  void enter()
   {
+    for (; m_current != m_end; ++m_current) {
+      base_type::reset(std::begin(*m_current), std::end(*m_current));
+      if (base_type::m_current != base_type::m_end) {
+        return;
+      }
+    }
   }
 
-  const_iterator(const std_iterator_type &end) : const_iterator(end, *std::prev(end)) {}
-
 public:
   typedef typename base_type::value_type value_type;
 
@@ -254,8 +274,7 @@ public:
     base_type::operator++();
     if (base_type::m_current == base_type::m_end) {
       ++m_current;
-      base_type::m_current = std::begin(*m_current);
-      base_type::m_end = std::end(*m_current);
+      enter();
     }
 
     return *this;
@@ -270,13 +289,10 @@ public:
 
   bool operator==(const const_iterator &other) const
   {
-    return m_current == other.m_current && base_type::operator==(other);
+    return m_current == other.m_current && (m_current == m_end || base_type::operator==(other));
   }
 
-  bool operator!=(const const_iterator &other) const
-  {
-    return m_current != other.m_current || base_type::operator!=(other);
-  }
+  bool operator!=(const const_iterator &other) const { return !(*this == other); }
 };
 
 template <int N, typename ContainerType>
-- 
2.43.0


From 0bf6a1cc6895d1a9b1444f73659cd9a8f7342c53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:39:40 +0000
Subject: [PATCH 104/117] fix: threads can draw random numbers at the same time

They shared an engine without a lock.
---
 include/dynd/kernels/uniform_kernel.hpp | 24 ++++++++++++++++++++++--
 src/dynd/random.cpp                     |  2 +-
 2 files changed, 23 insertions(+), 3 deletions(-)

diff --git a/include/dynd/kernels/uniform_kernel.hpp b/include/dynd/kernels/uniform_kernel.hpp
index 74951fb..b284f61 100644
--- a/include/dynd/kernels/uniform_kernel.hpp
+++ b/include/dynd/kernels/uniform_kernel.hpp
@@ -6,6 +6,7 @@
 #pragma once
 
 #include <memory>
+#include <mutex>
 #include <random>
 
 #include <dynd/kernels/base_kernel.hpp>
@@ -13,9 +14,28 @@
 
 namespace dynd {
 
-inline std::shared_ptr<std::default_random_engine> &get_random_device() {
+/** An engine that several threads may draw from. */
+class shared_random_engine {
+  std::mutex m_mutex;
+  std::default_random_engine m_engine;
+
+public:
+  typedef std::default_random_engine::result_type result_type;
+
+  explicit shared_random_engine(result_type seed) : m_engine(seed) {}
+
+  static constexpr result_type min() { return std::default_random_engine::min(); }
+  static constexpr result_type max() { return std::default_random_engine::max(); }
+
+  result_type operator()() {
+    std::lock_guard<std::mutex> lock(m_mutex);
+    return m_engine();
+  }
+};
+
+inline std::shared_ptr<shared_random_engine> &get_random_device() {
   static std::random_device random_device;
-  static std::shared_ptr<std::default_random_engine> g(new std::default_random_engine(random_device()));
+  static std::shared_ptr<shared_random_engine> g(new shared_random_engine(random_device()));
 
   return g;
 }
diff --git a/src/dynd/random.cpp b/src/dynd/random.cpp
index d9a6629..9b69da2 100644
--- a/src/dynd/random.cpp
+++ b/src/dynd/random.cpp
@@ -34,6 +34,6 @@ DYND_API nd::callable nd::random::uniform = nd::functional::elwise(nd::make_call
         ndt::make_type<ndt::typevar_type>("R"), {},
         {{ndt::make_type<ndt::option_type>(ndt::make_type<ndt::typevar_type>("R")), "a"},
          {ndt::make_type<ndt::option_type>(ndt::make_type<ndt::typevar_type>("R")), "b"}}),
-    nd::callable::make_all<uniform_callable_alias<std::default_random_engine>::type,
+    nd::callable::make_all<uniform_callable_alias<shared_random_engine>::type,
                            type_sequence<int32_t, int64_t, uint32_t, uint64_t, float, double, dynd::complex<float>,
                                          dynd::complex<double>>>(func_ptr)));
-- 
2.43.0


From be5d1f1b1de687c0f632974438b5f97345774632 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:10:55 +0000
Subject: [PATCH 105/117] fix: empty_like keeps the order of reversed
 dimensions and ends for trailing dimensions of one element

---
 src/dynd/types/fixed_dim_type.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/dynd/types/fixed_dim_type.cpp b/src/dynd/types/fixed_dim_type.cpp
index 519b892..99e0e09 100644
--- a/src/dynd/types/fixed_dim_type.cpp
+++ b/src/dynd/types/fixed_dim_type.cpp
@@ -450,7 +450,7 @@ void ndt::fixed_dim_type::reorder_default_constructed_strides(char *dst_arrmeta,
       if (stride == numeric_limits<intptr_t>::max()) {
         break;
       }
-      if (previous_stride != 0 && previous_stride < stride) {
+      if (previous_stride != 0 && std::abs(previous_stride) < std::abs(stride)) {
         c_order = false;
       }
       previous_stride = stride;
@@ -470,6 +470,7 @@ void ndt::fixed_dim_type::reorder_default_constructed_strides(char *dst_arrmeta,
       intptr_t i = ndim_partial - 2;
       do {
         stride = md[i].stride;
+        --i;
       } while (stride == 0 && i >= 0);
     }
     for (size_t i = 0; i < ndim_partial; ++i) {
-- 
2.43.0


From 7d2ddfc4ae29b71acdd1adf9933b875da2eeec13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:44:32 +0000
Subject: [PATCH 106/117] fix: reductions of a var dimension begin at its
 offset

---
 include/dynd/callables/base_reduction_callable.hpp |  3 ++-
 include/dynd/kernels/reduction_kernel.hpp          | 11 +++++++----
 2 files changed, 9 insertions(+), 5 deletions(-)

diff --git a/include/dynd/callables/base_reduction_callable.hpp b/include/dynd/callables/base_reduction_callable.hpp
index 59f64d4..aa5467b 100644
--- a/include/dynd/callables/base_reduction_callable.hpp
+++ b/include/dynd/callables/base_reduction_callable.hpp
@@ -207,7 +207,8 @@ namespace nd {
           typedef reduction_kernel<ndt::var_dim_type, false, true, NArg> self_type;
           intptr_t root_ckb_offset = kb.size();
           kb.emplace_back<self_type>(
-              kernreq, reinterpret_cast<const ndt::var_dim_type::metadata_type *>(src_arrmeta[0])->stride);
+              kernreq, reinterpret_cast<const ndt::var_dim_type::metadata_type *>(src_arrmeta[0])->stride,
+              reinterpret_cast<const ndt::var_dim_type::metadata_type *>(src_arrmeta[0])->offset);
 
           self_type *e = kb.get_at<self_type>(root_ckb_offset);
           const char *src_element_arrmeta[NArg];
diff --git a/include/dynd/kernels/reduction_kernel.hpp b/include/dynd/kernels/reduction_kernel.hpp
index 3df0eed..cd202cf 100644
--- a/include/dynd/kernels/reduction_kernel.hpp
+++ b/include/dynd/kernels/reduction_kernel.hpp
@@ -356,9 +356,11 @@ namespace nd {
     struct reduction_kernel<ndt::var_dim_type, false, true, NArg>
         : base_reduction_kernel<reduction_kernel<ndt::var_dim_type, false, true, NArg>, NArg> {
       intptr_t src0_inner_stride;
+      intptr_t src0_inner_offset;
       intptr_t init_offset = 0;
 
-      reduction_kernel(std::intptr_t src0_inner_stride) : src0_inner_stride(src0_inner_stride) {}
+      reduction_kernel(std::intptr_t src0_inner_stride, std::intptr_t src0_inner_offset)
+          : src0_inner_stride(src0_inner_stride), src0_inner_offset(src0_inner_offset) {}
 
       ~reduction_kernel() {
         this->get_child(init_offset)->destroy();
@@ -368,7 +370,7 @@ namespace nd {
       void single_first(char *dst, char *const *src) {
         size_t inner_size = reinterpret_cast<ndt::var_dim_type::data_type *>(src[0])->size;
 
-        char *src0_data = reinterpret_cast<ndt::var_dim_type::data_type *>(src[0])->begin;
+        char *src0_data = reinterpret_cast<ndt::var_dim_type::data_type *>(src[0])->begin + src0_inner_offset;
         this->get_child(init_offset)->single(dst, &src0_data);
 
         this->get_child()->strided(dst, 0, &src0_data, &src0_inner_stride, inner_size);
@@ -380,7 +382,7 @@ namespace nd {
 
         char *src0 = src[0];
         for (size_t i = 0; i != count; ++i) {
-          char *src0_data = reinterpret_cast<ndt::var_dim_type::data_type *>(src0)->begin;
+          char *src0_data = reinterpret_cast<ndt::var_dim_type::data_type *>(src0)->begin + src0_inner_offset;
           init_child->single(dst, &src0_data);
 
           reduction_child->strided(dst, 0, &src0_data, &src0_inner_stride,
@@ -395,7 +397,8 @@ namespace nd {
 
         char *src0 = src[0];
         for (size_t i = 0; i != size; ++i) {
-          child->strided(dst, 0, &reinterpret_cast<ndt::var_dim_type::data_type *>(src0)->begin, &src0_inner_stride,
+          char *src0_data = reinterpret_cast<ndt::var_dim_type::data_type *>(src0)->begin + src0_inner_offset;
+          child->strided(dst, 0, &src0_data, &src0_inner_stride,
                          reinterpret_cast<ndt::var_dim_type::data_type *>(src0)->size);
           dst += dst_stride;
           src0 += src_stride[0];
-- 
2.43.0


From e874c5885f2f92a59c2a566542f95ccf8c05a02a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:06:36 +0000
Subject: [PATCH 107/117] fix: infinite complex numbers are not refused as
 overflow

---
 include/dynd/assignment.hpp | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/include/dynd/assignment.hpp b/include/dynd/assignment.hpp
index cca7f98..5141a60 100644
--- a/include/dynd/assignment.hpp
+++ b/include/dynd/assignment.hpp
@@ -129,7 +129,8 @@ check_cast(ArgType arg, inexact_check_t) {
     throw std::overflow_error(ss.str());
   }
 #else
-  if (arg.real() < -std::numeric_limits<float>::max() || arg.real() > std::numeric_limits<float>::max()) {
+  if (isfinite(arg.real()) &&
+      (arg.real() < -std::numeric_limits<float>::max() || arg.real() > std::numeric_limits<float>::max())) {
     std::stringstream ss;
     ss << "overflow while assigning " << ndt::make_type<complex<double>>() << " value ";
     ss << arg << " to " << ndt::make_type<float>();
@@ -198,8 +199,10 @@ check_cast(ArgType s, inexact_check_t DYND_UNUSED(check)) {
     throw std::overflow_error(ss.str());
   }
 #else
-  if (s.real() < -std::numeric_limits<float>::max() || s.real() > std::numeric_limits<float>::max() ||
-      s.imag() < -std::numeric_limits<float>::max() || s.imag() > std::numeric_limits<float>::max()) {
+  if ((isfinite(s.real()) &&
+       (s.real() < -std::numeric_limits<float>::max() || s.real() > std::numeric_limits<float>::max())) ||
+      (isfinite(s.imag()) &&
+       (s.imag() < -std::numeric_limits<float>::max() || s.imag() > std::numeric_limits<float>::max()))) {
     std::stringstream ss;
     ss << "overflow while assigning " << ndt::make_type<complex<double>>() << " value ";
     ss << s << " to " << ndt::make_type<complex<float>>();
@@ -446,7 +449,8 @@ std::enable_if_t<is_floating_point<RetType>::value && is_complex<ArgType>::value
     throw std::overflow_error(ss.str());
   }
 #else
-  if (s.real() < -std::numeric_limits<RetType>::max() || s.real() > std::numeric_limits<RetType>::max()) {
+  if (isfinite(s.real()) &&
+      (s.real() < -std::numeric_limits<RetType>::max() || s.real() > std::numeric_limits<RetType>::max())) {
     std::stringstream ss;
     ss << "overflow while assigning " << ndt::make_type<ArgType>() << " value ";
     ss << s << " to " << ndt::make_type<RetType>();
@@ -501,8 +505,10 @@ overflow_cast(ArgType s) {
   }
   return d;
 #else
-  if (s.real() < -std::numeric_limits<float>::max() || s.real() > std::numeric_limits<float>::max() ||
-      s.imag() < -std::numeric_limits<float>::max() || s.imag() > std::numeric_limits<float>::max()) {
+  if ((isfinite(s.real()) &&
+       (s.real() < -std::numeric_limits<float>::max() || s.real() > std::numeric_limits<float>::max())) ||
+      (isfinite(s.imag()) &&
+       (s.imag() < -std::numeric_limits<float>::max() || s.imag() > std::numeric_limits<float>::max()))) {
     std::stringstream ss;
     ss << "overflow while assigning " << ndt::make_type<complex<double>>() << " value ";
     ss << s << " to " << ndt::make_type<complex<float>>();
-- 
2.43.0


From 2e77c63c25ad032f1fc6ad959d84277d48568889 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:13:02 +0000
Subject: [PATCH 108/117] fix: indexing into the fields of a slice of a record
 uses their own types

apply_linear_index of struct_type and tuple_type took the types of the
fields of the result as those of the fields of the source (and the other
way round for the result type), so slicing fields again could fail or
read the wrong elements.
---
 src/dynd/types/struct_type.cpp | 10 +++++-----
 src/dynd/types/tuple_type.cpp  | 10 +++++-----
 2 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/dynd/types/struct_type.cpp b/src/dynd/types/struct_type.cpp
index 9d3b1ce..f421406 100644
--- a/src/dynd/types/struct_type.cpp
+++ b/src/dynd/types/struct_type.cpp
@@ -264,12 +264,12 @@ intptr_t ndt::struct_type::apply_linear_index(intptr_t nindices, const irange *i
       for (intptr_t i = 0; i < dimension_size; ++i) {
         intptr_t idx = start_index + i * index_stride;
         out_offsets[i] = offsets[idx];
-        const type &dt = result_e_dt->get_field_type(i);
+        const type &dt = get_field_type(idx);
         if (!dt.is_builtin()) {
-          out_offsets[i] +=
-              dt.extended()->apply_linear_index(nindices - 1, indices + 1, arrmeta + m_arrmeta_offsets[idx], dt,
-                                                out_arrmeta + result_e_dt->get_arrmeta_offset(i), embedded_reference,
-                                                current_i + 1, root_tp, false, NULL, tmp);
+          out_offsets[i] += dt.extended()->apply_linear_index(
+              nindices - 1, indices + 1, arrmeta + m_arrmeta_offsets[idx], result_e_dt->get_field_type(i),
+              out_arrmeta + result_e_dt->get_arrmeta_offset(i), embedded_reference, current_i + 1, root_tp, false, NULL,
+              tmp);
         }
       }
       return 0;
diff --git a/src/dynd/types/tuple_type.cpp b/src/dynd/types/tuple_type.cpp
index 0c136ca..5a6a4bb 100644
--- a/src/dynd/types/tuple_type.cpp
+++ b/src/dynd/types/tuple_type.cpp
@@ -171,12 +171,12 @@ intptr_t ndt::tuple_type::apply_linear_index(intptr_t nindices, const irange *in
       for (intptr_t i = 0; i < dimension_size; ++i) {
         intptr_t idx = start_index + i * index_stride;
         out_offsets[i] = offsets[idx];
-        const type &ft = result_e_dt->get_field_type(i);
+        const type &ft = get_field_type(idx);
         if (!ft.is_builtin()) {
-          out_offsets[i] +=
-              ft.extended()->apply_linear_index(nindices - 1, indices + 1, arrmeta + m_arrmeta_offsets[idx], ft,
-                                                out_arrmeta + result_e_dt->get_arrmeta_offset(i), embedded_reference,
-                                                current_i + 1, root_tp, false, NULL, tmp);
+          out_offsets[i] += ft.extended()->apply_linear_index(
+              nindices - 1, indices + 1, arrmeta + m_arrmeta_offsets[idx], result_e_dt->get_field_type(i),
+              out_arrmeta + result_e_dt->get_arrmeta_offset(i), embedded_reference, current_i + 1, root_tp, false, NULL,
+              tmp);
         }
       }
       return 0;
-- 
2.43.0


From ad449a02de7fce40bcad9f2b5d31b947f3f68eac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:31:07 +0000
Subject: [PATCH 109/117] fix: JSON escapes of surrogate pairs are joined to
 one character

---
 src/dynd/parse_util.cpp | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/src/dynd/parse_util.cpp b/src/dynd/parse_util.cpp
index bd9ed7b..e7570d3 100644
--- a/src/dynd/parse_util.cpp
+++ b/src/dynd/parse_util.cpp
@@ -175,6 +175,25 @@ void dynd::unescape_string(const char *strbegin, const char *strend, std::string
             cp = '?';
           }
         }
+        // A character outside of the basic multilingual plane is written as a surrogate pair
+        if (0xd800 <= cp && cp < 0xdc00 && strend - strbegin >= 6 && strbegin[0] == '\\' && strbegin[1] == 'u') {
+          uint32_t trail = 0;
+          for (int i = 2; i < 6; ++i) {
+            char d = strbegin[i];
+            trail *= 16;
+            if ('0' <= d && d <= '9') {
+              trail += d - '0';
+            } else if ('A' <= d && d <= 'F') {
+              trail += d - 'A' + 10;
+            } else if ('a' <= d && d <= 'f') {
+              trail += d - 'a' + 10;
+            }
+          }
+          if (0xdc00 <= trail && trail < 0xe000) {
+            cp = 0x10000 + ((cp - 0xd800) << 10) + (trail - 0xdc00);
+            strbegin += 6;
+          }
+        }
         append_utf8_codepoint(cp, out);
         break;
       }
-- 
2.43.0


From 5099d47d4ac21a1040393e8382d7aa7808768e24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:39:23 +0000
Subject: [PATCH 110/117] fix: replacing the dtype below more dimensions than a
 type has is refused

---
 src/dynd/type.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/dynd/type.cpp b/src/dynd/type.cpp
index d1a0db7..f26fff4 100644
--- a/src/dynd/type.cpp
+++ b/src/dynd/type.cpp
@@ -273,6 +273,12 @@ static void replace_dtype(const ndt::type &tp, intptr_t DYND_UNUSED(arrmeta_offs
 } // anonymous namespace
 
 ndt::type ndt::type::with_replaced_dtype(const ndt::type &replacement_tp, intptr_t replace_ndim) const {
+  if (replace_ndim < 0 || replace_ndim > get_ndim()) {
+    stringstream ss;
+    ss << "cannot replace a dtype with " << replace_ndim << " dimensions in dynd type " << *this;
+    throw dynd::type_error(ss.str());
+  }
+
   ndt::type result;
   bool was_transformed;
   replace_dtype_extra extra(replacement_tp, replace_ndim);
-- 
2.43.0


From 6172d376bd3156fd9dde118cbf376a1ee8bc11e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:39:23 +0000
Subject: [PATCH 111/117] fix: formatting a datashape without memory does not
 lose characters

---
 src/dynd/types/datashape_formatter.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/dynd/types/datashape_formatter.cpp b/src/dynd/types/datashape_formatter.cpp
index c4981d0..b3d5917 100644
--- a/src/dynd/types/datashape_formatter.cpp
+++ b/src/dynd/types/datashape_formatter.cpp
@@ -159,6 +159,7 @@ void dynd::format_datashape(std::ostream &o, const ndt::type &tp, const char *ar
 
 std::string dynd::format_datashape(const ndt::type &tp, const std::string &prefix, bool multiline) {
   stringstream ss;
+  ss.exceptions(ios::badbit | ios::failbit); // do not lose characters when there is no memory
   ss << prefix;
   ::format_datashape(ss, tp, NULL, NULL, "", multiline);
   return ss.str();
-- 
2.43.0


From 8174aa31fa3b21430b01126ce644cafb5e33bf79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:39:23 +0000
Subject: [PATCH 112/117] fix: field_access of an unknown field is refused

---
 include/dynd/callables/field_access_callable.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/dynd/callables/field_access_callable.hpp b/include/dynd/callables/field_access_callable.hpp
index 170afbe..15fe548 100644
--- a/include/dynd/callables/field_access_callable.hpp
+++ b/include/dynd/callables/field_access_callable.hpp
@@ -23,6 +23,9 @@ namespace nd {
                       size_t DYND_UNUSED(nkwd), const array *kwds, const std::map<std::string, ndt::type> &tp_vars) {
       std::string name = kwds[0].as<std::string>();
       intptr_t i = arg_tp[0].extended<ndt::struct_type>()->get_field_index(name);
+      if (i < 0) {
+        throw std::invalid_argument("no field named '" + name + "'");
+      }
       uintptr_t arrmeta_offset = arg_tp[0].extended<ndt::struct_type>()->get_arrmeta_offset(i);
 
       cg.emplace_back([i, arrmeta_offset](kernel_builder &kb, kernel_request_t kernreq, char *DYND_UNUSED(data),
-- 
2.43.0


From 1b2da43d7b51a86ce15f399593ad170de0745e24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:39:23 +0000
Subject: [PATCH 113/117] fix: field_access copies strings and other fields
 that look at the error mode

---
 include/dynd/callables/field_access_callable.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/dynd/callables/field_access_callable.hpp b/include/dynd/callables/field_access_callable.hpp
index 15fe548..6b4b9cf 100644
--- a/include/dynd/callables/field_access_callable.hpp
+++ b/include/dynd/callables/field_access_callable.hpp
@@ -40,7 +40,8 @@ namespace nd {
       });
 
       ndt::type field_tp = arg_tp[0].extended<ndt::struct_type>()->get_field_type(i);
-      assign->resolve(this, nullptr, cg, field_tp, 1, &field_tp, 1, nullptr, tp_vars);
+      array error_mode = assign_error_default;
+      assign->resolve(this, nullptr, cg, field_tp, 1, &field_tp, 1, &error_mode, tp_vars);
 
       return field_tp;
     }
-- 
2.43.0


From 45aa40ca68a75b831a5a1e89b6fd5b639a3fcf15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:44:27 +0000
Subject: [PATCH 114/117] fix: the position of every row counts from where the
 rows start

---
 src/dynd/types/var_dim_type.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dynd/types/var_dim_type.cpp b/src/dynd/types/var_dim_type.cpp
index 3fdded2..eaa21d7 100644
--- a/src/dynd/types/var_dim_type.cpp
+++ b/src/dynd/types/var_dim_type.cpp
@@ -167,7 +167,7 @@ intptr_t ndt::var_dim_type::apply_linear_index(intptr_t nindices, const irange *
         // sliced<> type
         pointer_type_arrmeta *out_md = reinterpret_cast<pointer_type_arrmeta *>(out_arrmeta);
         out_md->blockref = md->blockref ? md->blockref : embedded_reference;
-        out_md->offset = indices->start() * md->stride;
+        out_md->offset = md->offset + indices->start() * md->stride;
         if (!m_element_tp.is_builtin()) {
           const pointer_type *result_etp = result_tp.extended<pointer_type>();
           out_md->offset += m_element_tp.extended()->apply_linear_index(
-- 
2.43.0


From 0f51450bc97a7f23768e35229769fb5c25c117f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:46:26 +0000
Subject: [PATCH 115/117] fix: field_access converts to the type of a given
 destination

---
 include/dynd/callables/field_access_callable.hpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/include/dynd/callables/field_access_callable.hpp b/include/dynd/callables/field_access_callable.hpp
index 6b4b9cf..bab0b62 100644
--- a/include/dynd/callables/field_access_callable.hpp
+++ b/include/dynd/callables/field_access_callable.hpp
@@ -19,7 +19,7 @@ namespace nd {
                                                            {{ndt::make_type<dynd::string>(), "field_name"}})) {}
 
     ndt::type resolve(base_callable *DYND_UNUSED(caller), char *DYND_UNUSED(data), call_graph &cg,
-                      const ndt::type &DYND_UNUSED(res_tp), size_t DYND_UNUSED(narg), const ndt::type *arg_tp,
+                      const ndt::type &res_tp, size_t DYND_UNUSED(narg), const ndt::type *arg_tp,
                       size_t DYND_UNUSED(nkwd), const array *kwds, const std::map<std::string, ndt::type> &tp_vars) {
       std::string name = kwds[0].as<std::string>();
       intptr_t i = arg_tp[0].extended<ndt::struct_type>()->get_field_index(name);
@@ -40,10 +40,11 @@ namespace nd {
       });
 
       ndt::type field_tp = arg_tp[0].extended<ndt::struct_type>()->get_field_type(i);
+      ndt::type dst_tp = res_tp.is_symbolic() ? field_tp : res_tp;
       array error_mode = assign_error_default;
-      assign->resolve(this, nullptr, cg, field_tp, 1, &field_tp, 1, &error_mode, tp_vars);
+      assign->resolve(this, nullptr, cg, dst_tp, 1, &field_tp, 1, &error_mode, tp_vars);
 
-      return field_tp;
+      return dst_tp;
     }
   };
 
-- 
2.43.0


From fb2cadc79dbb215b1e86c4ffa4053bf0b0602826 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:29:34 +0000
Subject: [PATCH 116/117] fix: elementwise functions are told their position in
 var dimensions

---
 include/dynd/callables/elwise_callable.hpp    | 17 +++----
 .../callables/elwise_dispatch_callable.hpp    | 14 +++++-
 include/dynd/kernels/elwise_kernel.hpp        | 44 +++++++++++--------
 3 files changed, 47 insertions(+), 28 deletions(-)

diff --git a/include/dynd/callables/elwise_callable.hpp b/include/dynd/callables/elwise_callable.hpp
index 039d05c..411584a 100644
--- a/include/dynd/callables/elwise_callable.hpp
+++ b/include/dynd/callables/elwise_callable.hpp
@@ -106,7 +106,7 @@ namespace nd {
         std::array<bool, N> arg_broadcast = reinterpret_cast<const data_type *>(data)->arg_broadcast;
         std::array<bool, N> arg_var = reinterpret_cast<const data_type *>(data)->arg_var;
 
-        cg.emplace_back([arg_broadcast, arg_var](kernel_builder &kb, kernel_request_t kernreq, char *DYND_UNUSED(data),
+        cg.emplace_back([arg_broadcast, arg_var](kernel_builder &kb, kernel_request_t kernreq, char *data,
                                                  const char *dst_arrmeta, size_t DYND_UNUSED(nsrc),
                                                  const char *const *src_arrmeta) {
           intptr_t dst_size = reinterpret_cast<const size_stride_t *>(dst_arrmeta)->dim_size;
@@ -137,9 +137,10 @@ namespace nd {
           }
 
           kb.emplace_back<elwise_kernel<fixed_dim_id, var_dim_id, TraitsType, N>>(
-              kernreq, dst_size, dst_stride, src_stride.data(), src_offset.data(), arg_var.data());
+              kernreq, data, dst_size, dst_stride, src_stride.data(), src_offset.data(), arg_var.data());
 
-          kb(kernel_request_strided, nullptr, dst_arrmeta + sizeof(size_stride_t), N, child_src_arrmeta.data());
+          kb(kernel_request_strided, TraitsType::child_data(data), dst_arrmeta + sizeof(size_stride_t), N,
+             child_src_arrmeta.data());
         });
       }
 
@@ -167,8 +168,8 @@ namespace nd {
         intptr_t res_alignment = reinterpret_cast<const node_type *>(data)->res_alignment;
 
         cg.emplace_back([arg_broadcast, arg_var, res_alignment](
-            kernel_builder &kb, kernel_request_t kernreq, char *DYND_UNUSED(data), const char *dst_arrmeta,
-            size_t DYND_UNUSED(nsrc), const char *const *src_arrmeta) {
+            kernel_builder &kb, kernel_request_t kernreq, char *data, const char *dst_arrmeta, size_t DYND_UNUSED(nsrc),
+            const char *const *src_arrmeta) {
 
           const ndt::var_dim_type::metadata_type *dst_md =
               reinterpret_cast<const ndt::var_dim_type::metadata_type *>(dst_arrmeta);
@@ -201,11 +202,11 @@ namespace nd {
           }
 
           kb.emplace_back<elwise_kernel<var_dim_id, fixed_dim_id, TraitsType, N>>(
-              kernreq, dst_md->blockref.get(), res_alignment, dst_md->stride, dst_md->offset, src_stride.data(),
+              kernreq, data, dst_md->blockref.get(), res_alignment, dst_md->stride, dst_md->offset, src_stride.data(),
               src_offset.data(), src_size.data(), arg_var.data());
 
-          kb(kernel_request_strided, nullptr, dst_arrmeta + sizeof(ndt::var_dim_type::metadata_type), N,
-             child_src_arrmeta.data());
+          kb(kernel_request_strided, TraitsType::child_data(data),
+             dst_arrmeta + sizeof(ndt::var_dim_type::metadata_type), N, child_src_arrmeta.data());
         });
       }
     };
diff --git a/include/dynd/callables/elwise_dispatch_callable.hpp b/include/dynd/callables/elwise_dispatch_callable.hpp
index 7f7e4e2..086105c 100644
--- a/include/dynd/callables/elwise_dispatch_callable.hpp
+++ b/include/dynd/callables/elwise_dispatch_callable.hpp
@@ -87,10 +87,20 @@ namespace nd {
         } else if ((dst_variadic && (var_broadcast || src_all_strided)) ||
                    (!dst_variadic && dst_tp.get_id() == var_dim_id && src_all_strided_or_var)) {
           static callable f = make_callable<elwise_callable<var_dim_id, fixed_dim_id, no_traits, N>>();
-          return f->resolve(this, data, cg, dst_tp, nsrc, src_tp, nkwd, kwds, tp_vars);
+          static callable g = make_callable<elwise_callable<var_dim_id, fixed_dim_id, state_traits, N>>();
+          if (!first && state) {
+            return g->resolve(this, data, cg, dst_tp, nsrc, src_tp, nkwd, kwds, tp_vars);
+          } else {
+            return f->resolve(this, data, cg, dst_tp, nsrc, src_tp, nkwd, kwds, tp_vars);
+          }
         } else if (src_all_strided_or_var) {
           static callable f = make_callable<elwise_callable<fixed_dim_id, var_dim_id, no_traits, N>>();
-          return f->resolve(this, data, cg, dst_tp, nsrc, src_tp, nkwd, kwds, tp_vars);
+          static callable g = make_callable<elwise_callable<fixed_dim_id, var_dim_id, state_traits, N>>();
+          if (!first && state) {
+            return g->resolve(this, data, cg, dst_tp, nsrc, src_tp, nkwd, kwds, tp_vars);
+          } else {
+            return f->resolve(this, data, cg, dst_tp, nsrc, src_tp, nkwd, kwds, tp_vars);
+          }
         }
 
         std::stringstream ss;
diff --git a/include/dynd/kernels/elwise_kernel.hpp b/include/dynd/kernels/elwise_kernel.hpp
index 9a3f59a..1396a4d 100644
--- a/include/dynd/kernels/elwise_kernel.hpp
+++ b/include/dynd/kernels/elwise_kernel.hpp
@@ -85,16 +85,18 @@ namespace nd {
      */
     template <typename TraitsType, size_t N>
     struct elwise_kernel<fixed_dim_id, var_dim_id, TraitsType, N>
-        : base_strided_kernel<elwise_kernel<fixed_dim_id, var_dim_id, TraitsType, N>, N> {
+        : base_strided_kernel<elwise_kernel<fixed_dim_id, var_dim_id, TraitsType, N>, N>, TraitsType {
+      using TraitsType::begin;
+
       typedef elwise_kernel self_type;
 
       intptr_t m_size;
       intptr_t m_dst_stride, m_src_stride[N], m_src_offset[N];
       bool m_is_src_var[N];
 
-      elwise_kernel(intptr_t size, intptr_t dst_stride, const intptr_t *src_stride, const intptr_t *src_offset,
-                    const bool *is_src_var)
-          : m_size(size), m_dst_stride(dst_stride) {
+      elwise_kernel(char *data, intptr_t size, intptr_t dst_stride, const intptr_t *src_stride,
+                    const intptr_t *src_offset, const bool *is_src_var)
+          : TraitsType(data), m_size(size), m_dst_stride(dst_stride) {
         memcpy(m_src_stride, src_stride, sizeof(m_src_stride));
         memcpy(m_src_offset, src_offset, sizeof(m_src_offset));
         memcpy(m_is_src_var, is_src_var, sizeof(m_is_src_var));
@@ -133,7 +135,7 @@ namespace nd {
       void strided(char *dst, intptr_t dst_stride, char *const *src, const intptr_t *src_stride, size_t count) {
         char *src_loop[N];
         memcpy(src_loop, src, sizeof(src_loop));
-        for (size_t i = 0; i != count; ++i) {
+        for (auto &&it = begin(); it != count; ++it) {
           single(dst, src_loop);
           dst += dst_stride;
           for (int j = 0; j != N; ++j) {
@@ -145,15 +147,17 @@ namespace nd {
 
     template <typename TraitsType>
     struct elwise_kernel<fixed_dim_id, var_dim_id, TraitsType, 0>
-        : base_strided_kernel<elwise_kernel<fixed_dim_id, var_dim_id, TraitsType, 0>, 0> {
+        : base_strided_kernel<elwise_kernel<fixed_dim_id, var_dim_id, TraitsType, 0>, 0>, TraitsType {
+      using TraitsType::begin;
+
       typedef elwise_kernel self_type;
 
       intptr_t m_size;
       intptr_t m_dst_stride;
 
-      elwise_kernel(intptr_t size, intptr_t dst_stride, const intptr_t *DYND_UNUSED(src_stride),
+      elwise_kernel(char *data, intptr_t size, intptr_t dst_stride, const intptr_t *DYND_UNUSED(src_stride),
                     const intptr_t *DYND_UNUSED(src_offset), const bool *DYND_UNUSED(is_src_var))
-          : m_size(size), m_dst_stride(dst_stride) {}
+          : TraitsType(data), m_size(size), m_dst_stride(dst_stride) {}
 
       ~elwise_kernel() { this->get_child()->destroy(); }
 
@@ -168,7 +172,7 @@ namespace nd {
 
       void strided(char *dst, intptr_t dst_stride, char *const *DYND_UNUSED(src),
                    const intptr_t *DYND_UNUSED(src_stride), size_t count) {
-        for (size_t i = 0; i != count; ++i) {
+        for (auto &&it = begin(); it != count; ++it) {
           single(dst, NULL);
           dst += dst_stride;
         }
@@ -183,7 +187,9 @@ namespace nd {
      */
     template <typename TraitsType, size_t N>
     struct elwise_kernel<var_dim_id, fixed_dim_id, TraitsType, N>
-        : base_strided_kernel<elwise_kernel<var_dim_id, fixed_dim_id, TraitsType, N>, N> {
+        : base_strided_kernel<elwise_kernel<var_dim_id, fixed_dim_id, TraitsType, N>, N>, TraitsType {
+      using TraitsType::begin;
+
       typedef elwise_kernel self_type;
 
       base_memory_block *m_dst_memblock;
@@ -191,11 +197,11 @@ namespace nd {
       intptr_t m_dst_stride, m_dst_offset, m_src_stride[N], m_src_offset[N], m_src_size[N];
       bool m_is_src_var[N];
 
-      elwise_kernel(base_memory_block *dst_memblock, size_t dst_target_alignment, intptr_t dst_stride,
+      elwise_kernel(char *data, base_memory_block *dst_memblock, size_t dst_target_alignment, intptr_t dst_stride,
                     intptr_t dst_offset, const intptr_t *src_stride, const intptr_t *src_offset,
                     const intptr_t *src_size, const bool *is_src_var)
-          : m_dst_memblock(dst_memblock), m_dst_target_alignment(dst_target_alignment), m_dst_stride(dst_stride),
-            m_dst_offset(dst_offset) {
+          : TraitsType(data), m_dst_memblock(dst_memblock), m_dst_target_alignment(dst_target_alignment),
+            m_dst_stride(dst_stride), m_dst_offset(dst_offset) {
         memcpy(m_src_stride, src_stride, sizeof(m_src_stride));
         memcpy(m_src_offset, src_offset, sizeof(m_src_offset));
         memcpy(m_src_size, src_size, sizeof(m_src_size));
@@ -293,7 +299,7 @@ namespace nd {
       void strided(char *dst, intptr_t dst_stride, char *const *src, const intptr_t *src_stride, size_t count) {
         char *src_loop[N];
         memcpy(src_loop, src, sizeof(src_loop));
-        for (size_t i = 0; i != count; ++i) {
+        for (auto &&it = begin(); it != count; ++it) {
           single(dst, src_loop);
           dst += dst_stride;
           for (int j = 0; j != N; ++j) {
@@ -305,19 +311,21 @@ namespace nd {
 
     template <typename TraitsType>
     struct elwise_kernel<var_dim_id, fixed_dim_id, TraitsType, 0>
-        : base_strided_kernel<elwise_kernel<var_dim_id, fixed_dim_id, TraitsType, 0>, 0> {
+        : base_strided_kernel<elwise_kernel<var_dim_id, fixed_dim_id, TraitsType, 0>, 0>, TraitsType {
+      using TraitsType::begin;
+
       typedef elwise_kernel self_type;
 
       base_memory_block *m_dst_memblock;
       size_t m_dst_target_alignment;
       intptr_t m_dst_stride, m_dst_offset;
 
-      elwise_kernel(base_memory_block *dst_memblock, size_t dst_target_alignment, intptr_t dst_stride,
+      elwise_kernel(char *data, base_memory_block *dst_memblock, size_t dst_target_alignment, intptr_t dst_stride,
                     intptr_t dst_offset, const intptr_t *DYND_UNUSED(src_stride),
                     const intptr_t *DYND_UNUSED(src_offset), const intptr_t *DYND_UNUSED(src_size),
                     const bool *DYND_UNUSED(is_src_var))
-          : m_dst_memblock(dst_memblock), m_dst_target_alignment(dst_target_alignment), m_dst_stride(dst_stride),
-            m_dst_offset(dst_offset) {}
+          : TraitsType(data), m_dst_memblock(dst_memblock), m_dst_target_alignment(dst_target_alignment),
+            m_dst_stride(dst_stride), m_dst_offset(dst_offset) {}
 
       ~elwise_kernel() { this->get_child()->destroy(); }
 
-- 
2.43.0


From f8eb7addf20f75c9b73bafa6142ac0cda3579cb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:32:51 +0000
Subject: [PATCH 117/117] fix: elementwise functions without a result run over
 the dimensions of all operands

---
 include/dynd/callables/elwise_callable.hpp          | 8 +++++++-
 include/dynd/callables/elwise_dispatch_callable.hpp | 2 +-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/include/dynd/callables/elwise_callable.hpp b/include/dynd/callables/elwise_callable.hpp
index 411584a..db33e7a 100644
--- a/include/dynd/callables/elwise_callable.hpp
+++ b/include/dynd/callables/elwise_callable.hpp
@@ -55,7 +55,13 @@ namespace nd {
                                                        const char *const *src_arrmeta) {
           size_t size;
           if (res_broadcast) {
-            size = reinterpret_cast<const size_stride_t *>(src_arrmeta[0])->dim_size;
+            // There is no result, so the size is that of the operands which have this dimension
+            size = 1;
+            for (size_t i = 0; i < N; ++i) {
+              if (!arg_broadcast[i] && reinterpret_cast<const size_stride_t *>(src_arrmeta[i])->dim_size != 1) {
+                size = reinterpret_cast<const size_stride_t *>(src_arrmeta[i])->dim_size;
+              }
+            }
           } else {
             size = reinterpret_cast<const size_stride_t *>(dst_arrmeta)->dim_size;
           }
diff --git a/include/dynd/callables/elwise_dispatch_callable.hpp b/include/dynd/callables/elwise_dispatch_callable.hpp
index 086105c..dbb6b8f 100644
--- a/include/dynd/callables/elwise_dispatch_callable.hpp
+++ b/include/dynd/callables/elwise_dispatch_callable.hpp
@@ -93,7 +93,7 @@ namespace nd {
           } else {
             return f->resolve(this, data, cg, dst_tp, nsrc, src_tp, nkwd, kwds, tp_vars);
           }
-        } else if (src_all_strided_or_var) {
+        } else if (src_all_strided_or_var && !res_ignore) {
           static callable f = make_callable<elwise_callable<fixed_dim_id, var_dim_id, no_traits, N>>();
           static callable g = make_callable<elwise_callable<fixed_dim_id, var_dim_id, state_traits, N>>();
           if (!first && state) {
-- 
2.43.0

