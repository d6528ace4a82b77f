From 50c2c2ba91705176018d74398cb67b261245be48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:23 +0000
Subject: [PATCH 01/17] fix: compact_vector::assign frees with wrong size when
 construction throws

---
 include/sfl/compact_vector.hpp | 22 ++++++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/include/sfl/compact_vector.hpp b/include/sfl/compact_vector.hpp
index a1dadd1..72889ed 100644
--- a/include/sfl/compact_vector.hpp
+++ b/include/sfl/compact_vector.hpp
@@ -1205,7 +1205,16 @@ private:
             }
             SFL_CATCH (...)
             {
-                clear();
+                sfl::dtl::deallocate
+                (
+                    data_.ref_to_alloc(),
+                    data_.first_,
+                    n
+                );
+
+                data_.first_ = nullptr;
+                data_.last_  = nullptr;
+
                 SFL_RETHROW;
             }
         }
@@ -1266,7 +1275,16 @@ private:
             }
             SFL_CATCH (...)
             {
-                clear();
+                sfl::dtl::deallocate
+                (
+                    data_.ref_to_alloc(),
+                    data_.first_,
+                    n
+                );
+
+                data_.first_ = nullptr;
+                data_.last_  = nullptr;
+
                 SFL_RETHROW;
             }
         }
-- 
2.43.0


From 3ce02cc83bdd6f558302fc78ddbd58f69b604a33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:50 +0000
Subject: [PATCH 02/17] fix: small containers: moved-from container returns to
 internal storage

---
 include/sfl/small_flat_map.hpp                | 12 ++++++------
 include/sfl/small_flat_multimap.hpp           | 12 ++++++------
 include/sfl/small_flat_multiset.hpp           | 12 ++++++------
 include/sfl/small_flat_set.hpp                | 12 ++++++------
 include/sfl/small_unordered_flat_map.hpp      | 12 ++++++------
 include/sfl/small_unordered_flat_multimap.hpp | 12 ++++++------
 include/sfl/small_unordered_flat_multiset.hpp | 12 ++++++------
 include/sfl/small_unordered_flat_set.hpp      | 12 ++++++------
 include/sfl/small_vector.hpp                  | 12 ++++++------
 9 files changed, 54 insertions(+), 54 deletions(-)

diff --git a/include/sfl/small_flat_map.hpp b/include/sfl/small_flat_map.hpp
index 181c486..ad26ab7 100644
--- a/include/sfl/small_flat_map.hpp
+++ b/include/sfl/small_flat_map.hpp
@@ -1642,9 +1642,9 @@ private:
             data_.last_  = other.data_.last_;
             data_.eos_   = other.data_.eos_;
 
-            other.data_.first_ = nullptr;
-            other.data_.last_  = nullptr;
-            other.data_.eos_   = nullptr;
+            other.data_.first_ = other.data_.internal_storage();
+            other.data_.last_  = other.data_.first_;
+            other.data_.eos_   = other.data_.first_ + N;
         }
         else
         {
@@ -1794,9 +1794,9 @@ private:
             data_.last_  = other.data_.last_;
             data_.eos_   = other.data_.eos_;
 
-            other.data_.first_ = nullptr;
-            other.data_.last_  = nullptr;
-            other.data_.eos_   = nullptr;
+            other.data_.first_ = other.data_.internal_storage();
+            other.data_.last_  = other.data_.first_;
+            other.data_.eos_   = other.data_.first_ + N;
         }
         else
         {
diff --git a/include/sfl/small_flat_multimap.hpp b/include/sfl/small_flat_multimap.hpp
index d725df0..bf5ad66 100644
--- a/include/sfl/small_flat_multimap.hpp
+++ b/include/sfl/small_flat_multimap.hpp
@@ -1460,9 +1460,9 @@ private:
             data_.last_  = other.data_.last_;
             data_.eos_   = other.data_.eos_;
 
-            other.data_.first_ = nullptr;
-            other.data_.last_  = nullptr;
-            other.data_.eos_   = nullptr;
+            other.data_.first_ = other.data_.internal_storage();
+            other.data_.last_  = other.data_.first_;
+            other.data_.eos_   = other.data_.first_ + N;
         }
         else
         {
@@ -1612,9 +1612,9 @@ private:
             data_.last_  = other.data_.last_;
             data_.eos_   = other.data_.eos_;
 
-            other.data_.first_ = nullptr;
-            other.data_.last_  = nullptr;
-            other.data_.eos_   = nullptr;
+            other.data_.first_ = other.data_.internal_storage();
+            other.data_.last_  = other.data_.first_;
+            other.data_.eos_   = other.data_.first_ + N;
         }
         else
         {
diff --git a/include/sfl/small_flat_multiset.hpp b/include/sfl/small_flat_multiset.hpp
index f9795fc..d53bfbc 100644
--- a/include/sfl/small_flat_multiset.hpp
+++ b/include/sfl/small_flat_multiset.hpp
@@ -1387,9 +1387,9 @@ private:
             data_.last_  = other.data_.last_;
             data_.eos_   = other.data_.eos_;
 
-            other.data_.first_ = nullptr;
-            other.data_.last_  = nullptr;
-            other.data_.eos_   = nullptr;
+            other.data_.first_ = other.data_.internal_storage();
+            other.data_.last_  = other.data_.first_;
+            other.data_.eos_   = other.data_.first_ + N;
         }
         else
         {
@@ -1539,9 +1539,9 @@ private:
             data_.last_  = other.data_.last_;
             data_.eos_   = other.data_.eos_;
 
-            other.data_.first_ = nullptr;
-            other.data_.last_  = nullptr;
-            other.data_.eos_   = nullptr;
+            other.data_.first_ = other.data_.internal_storage();
+            other.data_.last_  = other.data_.first_;
+            other.data_.eos_   = other.data_.first_ + N;
         }
         else
         {
diff --git a/include/sfl/small_flat_set.hpp b/include/sfl/small_flat_set.hpp
index 11391a7..3166f76 100644
--- a/include/sfl/small_flat_set.hpp
+++ b/include/sfl/small_flat_set.hpp
@@ -1408,9 +1408,9 @@ private:
             data_.last_  = other.data_.last_;
             data_.eos_   = other.data_.eos_;
 
-            other.data_.first_ = nullptr;
-            other.data_.last_  = nullptr;
-            other.data_.eos_   = nullptr;
+            other.data_.first_ = other.data_.internal_storage();
+            other.data_.last_  = other.data_.first_;
+            other.data_.eos_   = other.data_.first_ + N;
         }
         else
         {
@@ -1560,9 +1560,9 @@ private:
             data_.last_  = other.data_.last_;
             data_.eos_   = other.data_.eos_;
 
-            other.data_.first_ = nullptr;
-            other.data_.last_  = nullptr;
-            other.data_.eos_   = nullptr;
+            other.data_.first_ = other.data_.internal_storage();
+            other.data_.last_  = other.data_.first_;
+            other.data_.eos_   = other.data_.first_ + N;
         }
         else
         {
diff --git a/include/sfl/small_unordered_flat_map.hpp b/include/sfl/small_unordered_flat_map.hpp
index 88226e6..8f0cb19 100644
--- a/include/sfl/small_unordered_flat_map.hpp
+++ b/include/sfl/small_unordered_flat_map.hpp
@@ -1563,9 +1563,9 @@ private:
             data_.last_  = other.data_.last_;
             data_.eos_   = other.data_.eos_;
 
-            other.data_.first_ = nullptr;
-            other.data_.last_  = nullptr;
-            other.data_.eos_   = nullptr;
+            other.data_.first_ = other.data_.internal_storage();
+            other.data_.last_  = other.data_.first_;
+            other.data_.eos_   = other.data_.first_ + N;
         }
         else
         {
@@ -1715,9 +1715,9 @@ private:
             data_.last_  = other.data_.last_;
             data_.eos_   = other.data_.eos_;
 
-            other.data_.first_ = nullptr;
-            other.data_.last_  = nullptr;
-            other.data_.eos_   = nullptr;
+            other.data_.first_ = other.data_.internal_storage();
+            other.data_.last_  = other.data_.first_;
+            other.data_.eos_   = other.data_.first_ + N;
         }
         else
         {
diff --git a/include/sfl/small_unordered_flat_multimap.hpp b/include/sfl/small_unordered_flat_multimap.hpp
index c8711e0..6fdf0f2 100644
--- a/include/sfl/small_unordered_flat_multimap.hpp
+++ b/include/sfl/small_unordered_flat_multimap.hpp
@@ -1422,9 +1422,9 @@ private:
             data_.last_  = other.data_.last_;
             data_.eos_   = other.data_.eos_;
 
-            other.data_.first_ = nullptr;
-            other.data_.last_  = nullptr;
-            other.data_.eos_   = nullptr;
+            other.data_.first_ = other.data_.internal_storage();
+            other.data_.last_  = other.data_.first_;
+            other.data_.eos_   = other.data_.first_ + N;
         }
         else
         {
@@ -1574,9 +1574,9 @@ private:
             data_.last_  = other.data_.last_;
             data_.eos_   = other.data_.eos_;
 
-            other.data_.first_ = nullptr;
-            other.data_.last_  = nullptr;
-            other.data_.eos_   = nullptr;
+            other.data_.first_ = other.data_.internal_storage();
+            other.data_.last_  = other.data_.first_;
+            other.data_.eos_   = other.data_.first_ + N;
         }
         else
         {
diff --git a/include/sfl/small_unordered_flat_multiset.hpp b/include/sfl/small_unordered_flat_multiset.hpp
index 000660c..a08eb90 100644
--- a/include/sfl/small_unordered_flat_multiset.hpp
+++ b/include/sfl/small_unordered_flat_multiset.hpp
@@ -1336,9 +1336,9 @@ private:
             data_.last_  = other.data_.last_;
             data_.eos_   = other.data_.eos_;
 
-            other.data_.first_ = nullptr;
-            other.data_.last_  = nullptr;
-            other.data_.eos_   = nullptr;
+            other.data_.first_ = other.data_.internal_storage();
+            other.data_.last_  = other.data_.first_;
+            other.data_.eos_   = other.data_.first_ + N;
         }
         else
         {
@@ -1488,9 +1488,9 @@ private:
             data_.last_  = other.data_.last_;
             data_.eos_   = other.data_.eos_;
 
-            other.data_.first_ = nullptr;
-            other.data_.last_  = nullptr;
-            other.data_.eos_   = nullptr;
+            other.data_.first_ = other.data_.internal_storage();
+            other.data_.last_  = other.data_.first_;
+            other.data_.eos_   = other.data_.first_ + N;
         }
         else
         {
diff --git a/include/sfl/small_unordered_flat_set.hpp b/include/sfl/small_unordered_flat_set.hpp
index fd52396..7df4441 100644
--- a/include/sfl/small_unordered_flat_set.hpp
+++ b/include/sfl/small_unordered_flat_set.hpp
@@ -1316,9 +1316,9 @@ private:
             data_.last_  = other.data_.last_;
             data_.eos_   = other.data_.eos_;
 
-            other.data_.first_ = nullptr;
-            other.data_.last_  = nullptr;
-            other.data_.eos_   = nullptr;
+            other.data_.first_ = other.data_.internal_storage();
+            other.data_.last_  = other.data_.first_;
+            other.data_.eos_   = other.data_.first_ + N;
         }
         else
         {
@@ -1468,9 +1468,9 @@ private:
             data_.last_  = other.data_.last_;
             data_.eos_   = other.data_.eos_;
 
-            other.data_.first_ = nullptr;
-            other.data_.last_  = nullptr;
-            other.data_.eos_   = nullptr;
+            other.data_.first_ = other.data_.internal_storage();
+            other.data_.last_  = other.data_.first_;
+            other.data_.eos_   = other.data_.first_ + N;
         }
         else
         {
diff --git a/include/sfl/small_vector.hpp b/include/sfl/small_vector.hpp
index 0d2c6b0..95e1ac7 100644
--- a/include/sfl/small_vector.hpp
+++ b/include/sfl/small_vector.hpp
@@ -1790,9 +1790,9 @@ private:
             data_.last_  = other.data_.last_;
             data_.eos_   = other.data_.eos_;
 
-            other.data_.first_ = nullptr;
-            other.data_.last_  = nullptr;
-            other.data_.eos_   = nullptr;
+            other.data_.first_ = other.data_.internal_storage();
+            other.data_.last_  = other.data_.first_;
+            other.data_.eos_   = other.data_.first_ + N;
         }
         else
         {
@@ -2032,9 +2032,9 @@ private:
             data_.last_  = other.data_.last_;
             data_.eos_   = other.data_.eos_;
 
-            other.data_.first_ = nullptr;
-            other.data_.last_  = nullptr;
-            other.data_.eos_   = nullptr;
+            other.data_.first_ = other.data_.internal_storage();
+            other.data_.last_  = other.data_.first_;
+            other.data_.eos_   = other.data_.first_ + N;
         }
         else
         {
-- 
2.43.0


From 7e176867480caa1449ed31626580e2a1308b979b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:46 +0000
Subject: [PATCH 03/17] fix: devector: insert(pos, n, value) and resize(n,
 value) with a reference to own element

---
 include/sfl/devector.hpp | 23 ++++++++++++++++++-----
 1 file changed, 18 insertions(+), 5 deletions(-)

diff --git a/include/sfl/devector.hpp b/include/sfl/devector.hpp
index 9c33ae8..69e2792 100644
--- a/include/sfl/devector.hpp
+++ b/include/sfl/devector.hpp
@@ -1014,6 +1014,8 @@ public:
                 }
                 else
                 {
+                    const value_type tmp(value);
+
                     grow_storage_back(n - (available_front + size + available_back));
 
                     data_.last_ = sfl::dtl::uninitialized_fill_n_a
@@ -1021,7 +1023,7 @@ public:
                         data_.ref_to_alloc(),
                         data_.last_,
                         n - (size + available_front),
-                        value
+                        tmp
                     );
 
                     sfl::dtl::uninitialized_fill_a
@@ -1029,7 +1031,7 @@ public:
                         data_.ref_to_alloc(),
                         data_.bos_,
                         data_.first_,
-                        value
+                        tmp
                     );
 
                     data_.first_ = data_.bos_;
@@ -1096,6 +1098,8 @@ public:
         }
         else
         {
+            const value_type tmp(value);
+
             const size_type available_front = this->available_front();
 
             if (n > size + available_front)
@@ -1110,7 +1114,7 @@ public:
                 data_.ref_to_alloc(),
                 new_first,
                 data_.first_,
-                value
+                tmp
             );
 
             data_.first_ = new_first;
@@ -1171,6 +1175,8 @@ public:
         }
         else
         {
+            const value_type tmp(value);
+
             const size_type available_back = this->available_back();
 
             if (n > size + available_back)
@@ -1183,7 +1189,7 @@ public:
                 data_.ref_to_alloc(),
                 data_.last_,
                 n - size,
-                value
+                tmp
             );
         }
     }
@@ -4049,7 +4055,14 @@ private:
 
     iterator insert_fill_n(const_iterator pos, size_type n, const T& value)
     {
-        insert_fill_n_proxy proxy(value);
+        if (n == 0)
+        {
+            return begin() + std::distance(cbegin(), pos);
+        }
+
+        const value_type tmp(value);
+
+        insert_fill_n_proxy proxy(tmp);
         return insert_aux(pos, n, proxy);
     }
 
-- 
2.43.0


From 085a6df1b9879d503dd7ade0c4b239946caa7319 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:46 +0000
Subject: [PATCH 04/17] fix: devector::reset deallocates from the beginning of
 storage

---
 include/sfl/devector.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/sfl/devector.hpp b/include/sfl/devector.hpp
index 69e2792..6e6863c 100644
--- a/include/sfl/devector.hpp
+++ b/include/sfl/devector.hpp
@@ -1400,7 +1400,7 @@ private:
         sfl::dtl::deallocate
         (
             data_.ref_to_alloc(),
-            data_.first_,
+            data_.bos_,
             std::distance(data_.bos_, data_.eos_)
         );
 
-- 
2.43.0


From 69f0bc46b15ebb2726221cedb8ce1a642f1004bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:58 +0000
Subject: [PATCH 05/17] fix: compact_vector::resize(n, value) with a reference
 to own element

---
 include/sfl/compact_vector.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/sfl/compact_vector.hpp b/include/sfl/compact_vector.hpp
index 72889ed..90f0b73 100644
--- a/include/sfl/compact_vector.hpp
+++ b/include/sfl/compact_vector.hpp
@@ -842,6 +842,8 @@ public:
         {
             if (n > size())
             {
+                const value_type tmp(value);
+
                 new_last = sfl::dtl::uninitialized_move_if_noexcept_a
                 (
                     data_.ref_to_alloc(),
@@ -855,7 +857,7 @@ public:
                     data_.ref_to_alloc(),
                     new_last,
                     n - size(),
-                    value
+                    tmp
                 );
             }
             else if (n < size())
-- 
2.43.0


From d4261eaa1a5a1f23bd07cfc396e0ec8a6b4a96e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:18 +0000
Subject: [PATCH 06/17] fix: segmented containers: swap propagates allocators
 exactly once

---
 include/sfl/segmented_devector.hpp | 6 +++++-
 include/sfl/segmented_vector.hpp   | 6 +++++-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/include/sfl/segmented_devector.hpp b/include/sfl/segmented_devector.hpp
index 45cd92e..46ba5cf 100644
--- a/include/sfl/segmented_devector.hpp
+++ b/include/sfl/segmented_devector.hpp
@@ -1173,7 +1173,11 @@ public:
             swap(this->data_.ref_to_alloc(), other.data_.ref_to_alloc());
         }
 
-        swap(this->data_, other.data_);
+        swap
+        (
+            static_cast<data_base&>(this->data_),
+            static_cast<data_base&>(other.data_)
+        );
     }
 
 private:
diff --git a/include/sfl/segmented_vector.hpp b/include/sfl/segmented_vector.hpp
index d5c9e50..38d4ddd 100644
--- a/include/sfl/segmented_vector.hpp
+++ b/include/sfl/segmented_vector.hpp
@@ -805,7 +805,11 @@ public:
             swap(this->data_.ref_to_alloc(), other.data_.ref_to_alloc());
         }
 
-        swap(this->data_, other.data_);
+        swap
+        (
+            static_cast<data_base&>(this->data_),
+            static_cast<data_base&>(other.data_)
+        );
     }
 
 private:
-- 
2.43.0


From 6ea58e1a8ef303c498f8a218d1cd7742cc0b8957 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:42 +0000
Subject: [PATCH 07/17] fix: small containers: swap allocators after elements,
 which could throw

---
 include/sfl/small_flat_map.hpp                | 12 +++++++-----
 include/sfl/small_flat_multimap.hpp           | 12 +++++++-----
 include/sfl/small_flat_multiset.hpp           | 12 +++++++-----
 include/sfl/small_flat_set.hpp                | 12 +++++++-----
 include/sfl/small_unordered_flat_map.hpp      | 12 +++++++-----
 include/sfl/small_unordered_flat_multimap.hpp | 12 +++++++-----
 include/sfl/small_unordered_flat_multiset.hpp | 12 +++++++-----
 include/sfl/small_unordered_flat_set.hpp      | 12 +++++++-----
 include/sfl/small_vector.hpp                  | 12 +++++++-----
 9 files changed, 63 insertions(+), 45 deletions(-)

diff --git a/include/sfl/small_flat_map.hpp b/include/sfl/small_flat_map.hpp
index ad26ab7..aa5cbc4 100644
--- a/include/sfl/small_flat_map.hpp
+++ b/include/sfl/small_flat_map.hpp
@@ -1082,11 +1082,6 @@ public:
         // One allocator can safely destroy_a elements constructed by other
         // allocator regardless the two allocators compare equal or not.
 
-        if (allocator_traits::propagate_on_container_swap::value)
-        {
-            swap(this->data_.ref_to_alloc(), other.data_.ref_to_alloc());
-        }
-
         swap(this->data_.ref_to_comp(), other.data_.ref_to_comp());
 
         if
@@ -1222,6 +1217,13 @@ public:
             swap(this->data_.last_,  other.data_.last_);
             swap(this->data_.eos_,   other.data_.eos_);
         }
+
+        // Elements could throw while being moved, therefore allocators must be
+        // swapped after the elements.
+        if (allocator_traits::propagate_on_container_swap::value)
+        {
+            swap(this->data_.ref_to_alloc(), other.data_.ref_to_alloc());
+        }
     }
 
     //
diff --git a/include/sfl/small_flat_multimap.hpp b/include/sfl/small_flat_multimap.hpp
index bf5ad66..a95cbd1 100644
--- a/include/sfl/small_flat_multimap.hpp
+++ b/include/sfl/small_flat_multimap.hpp
@@ -974,11 +974,6 @@ public:
         // One allocator can safely destroy_a elements constructed by other
         // allocator regardless the two allocators compare equal or not.
 
-        if (allocator_traits::propagate_on_container_swap::value)
-        {
-            swap(this->data_.ref_to_alloc(), other.data_.ref_to_alloc());
-        }
-
         swap(this->data_.ref_to_comp(), other.data_.ref_to_comp());
 
         if
@@ -1114,6 +1109,13 @@ public:
             swap(this->data_.last_,  other.data_.last_);
             swap(this->data_.eos_,   other.data_.eos_);
         }
+
+        // Elements could throw while being moved, therefore allocators must be
+        // swapped after the elements.
+        if (allocator_traits::propagate_on_container_swap::value)
+        {
+            swap(this->data_.ref_to_alloc(), other.data_.ref_to_alloc());
+        }
     }
 
     //
diff --git a/include/sfl/small_flat_multiset.hpp b/include/sfl/small_flat_multiset.hpp
index d53bfbc..6c64a63 100644
--- a/include/sfl/small_flat_multiset.hpp
+++ b/include/sfl/small_flat_multiset.hpp
@@ -901,11 +901,6 @@ public:
         // One allocator can safely destroy_a elements constructed by other
         // allocator regardless the two allocators compare equal or not.
 
-        if (allocator_traits::propagate_on_container_swap::value)
-        {
-            swap(this->data_.ref_to_alloc(), other.data_.ref_to_alloc());
-        }
-
         swap(this->data_.ref_to_comp(), other.data_.ref_to_comp());
 
         if
@@ -1041,6 +1036,13 @@ public:
             swap(this->data_.last_,  other.data_.last_);
             swap(this->data_.eos_,   other.data_.eos_);
         }
+
+        // Elements could throw while being moved, therefore allocators must be
+        // swapped after the elements.
+        if (allocator_traits::propagate_on_container_swap::value)
+        {
+            swap(this->data_.ref_to_alloc(), other.data_.ref_to_alloc());
+        }
     }
 
     //
diff --git a/include/sfl/small_flat_set.hpp b/include/sfl/small_flat_set.hpp
index 3166f76..fed2a64 100644
--- a/include/sfl/small_flat_set.hpp
+++ b/include/sfl/small_flat_set.hpp
@@ -924,11 +924,6 @@ public:
         // One allocator can safely destroy_a elements constructed by other
         // allocator regardless the two allocators compare equal or not.
 
-        if (allocator_traits::propagate_on_container_swap::value)
-        {
-            swap(this->data_.ref_to_alloc(), other.data_.ref_to_alloc());
-        }
-
         swap(this->data_.ref_to_comp(), other.data_.ref_to_comp());
 
         if
@@ -1064,6 +1059,13 @@ public:
             swap(this->data_.last_,  other.data_.last_);
             swap(this->data_.eos_,   other.data_.eos_);
         }
+
+        // Elements could throw while being moved, therefore allocators must be
+        // swapped after the elements.
+        if (allocator_traits::propagate_on_container_swap::value)
+        {
+            swap(this->data_.ref_to_alloc(), other.data_.ref_to_alloc());
+        }
     }
 
     //
diff --git a/include/sfl/small_unordered_flat_map.hpp b/include/sfl/small_unordered_flat_map.hpp
index 8f0cb19..1132466 100644
--- a/include/sfl/small_unordered_flat_map.hpp
+++ b/include/sfl/small_unordered_flat_map.hpp
@@ -1083,11 +1083,6 @@ public:
         // One allocator can safely destroy_a elements constructed by other
         // allocator regardless the two allocators compare equal or not.
 
-        if (allocator_traits::propagate_on_container_swap::value)
-        {
-            swap(this->data_.ref_to_alloc(), other.data_.ref_to_alloc());
-        }
-
         swap(this->data_.ref_to_equal(), other.data_.ref_to_equal());
 
         if
@@ -1223,6 +1218,13 @@ public:
             swap(this->data_.last_,  other.data_.last_);
             swap(this->data_.eos_,   other.data_.eos_);
         }
+
+        // Elements could throw while being moved, therefore allocators must be
+        // swapped after the elements.
+        if (allocator_traits::propagate_on_container_swap::value)
+        {
+            swap(this->data_.ref_to_alloc(), other.data_.ref_to_alloc());
+        }
     }
 
     //
diff --git a/include/sfl/small_unordered_flat_multimap.hpp b/include/sfl/small_unordered_flat_multimap.hpp
index 6fdf0f2..46f0a5d 100644
--- a/include/sfl/small_unordered_flat_multimap.hpp
+++ b/include/sfl/small_unordered_flat_multimap.hpp
@@ -998,11 +998,6 @@ public:
         // One allocator can safely destroy_a elements constructed by other
         // allocator regardless the two allocators compare equal or not.
 
-        if (allocator_traits::propagate_on_container_swap::value)
-        {
-            swap(this->data_.ref_to_alloc(), other.data_.ref_to_alloc());
-        }
-
         swap(this->data_.ref_to_equal(), other.data_.ref_to_equal());
 
         if
@@ -1138,6 +1133,13 @@ public:
             swap(this->data_.last_,  other.data_.last_);
             swap(this->data_.eos_,   other.data_.eos_);
         }
+
+        // Elements could throw while being moved, therefore allocators must be
+        // swapped after the elements.
+        if (allocator_traits::propagate_on_container_swap::value)
+        {
+            swap(this->data_.ref_to_alloc(), other.data_.ref_to_alloc());
+        }
     }
 
     //
diff --git a/include/sfl/small_unordered_flat_multiset.hpp b/include/sfl/small_unordered_flat_multiset.hpp
index a08eb90..c982041 100644
--- a/include/sfl/small_unordered_flat_multiset.hpp
+++ b/include/sfl/small_unordered_flat_multiset.hpp
@@ -912,11 +912,6 @@ public:
         // One allocator can safely destroy_a elements constructed by other
         // allocator regardless the two allocators compare equal or not.
 
-        if (allocator_traits::propagate_on_container_swap::value)
-        {
-            swap(this->data_.ref_to_alloc(), other.data_.ref_to_alloc());
-        }
-
         swap(this->data_.ref_to_equal(), other.data_.ref_to_equal());
 
         if
@@ -1052,6 +1047,13 @@ public:
             swap(this->data_.last_,  other.data_.last_);
             swap(this->data_.eos_,   other.data_.eos_);
         }
+
+        // Elements could throw while being moved, therefore allocators must be
+        // swapped after the elements.
+        if (allocator_traits::propagate_on_container_swap::value)
+        {
+            swap(this->data_.ref_to_alloc(), other.data_.ref_to_alloc());
+        }
     }
 
     //
diff --git a/include/sfl/small_unordered_flat_set.hpp b/include/sfl/small_unordered_flat_set.hpp
index 7df4441..962057b 100644
--- a/include/sfl/small_unordered_flat_set.hpp
+++ b/include/sfl/small_unordered_flat_set.hpp
@@ -912,11 +912,6 @@ public:
         // One allocator can safely destroy_a elements constructed by other
         // allocator regardless the two allocators compare equal or not.
 
-        if (allocator_traits::propagate_on_container_swap::value)
-        {
-            swap(this->data_.ref_to_alloc(), other.data_.ref_to_alloc());
-        }
-
         swap(this->data_.ref_to_equal(), other.data_.ref_to_equal());
 
         if
@@ -1052,6 +1047,13 @@ public:
             swap(this->data_.last_,  other.data_.last_);
             swap(this->data_.eos_,   other.data_.eos_);
         }
+
+        // Elements could throw while being moved, therefore allocators must be
+        // swapped after the elements.
+        if (allocator_traits::propagate_on_container_swap::value)
+        {
+            swap(this->data_.ref_to_alloc(), other.data_.ref_to_alloc());
+        }
     }
 
     //
diff --git a/include/sfl/small_vector.hpp b/include/sfl/small_vector.hpp
index 95e1ac7..89bd752 100644
--- a/include/sfl/small_vector.hpp
+++ b/include/sfl/small_vector.hpp
@@ -1396,11 +1396,6 @@ public:
         // One allocator can safely destroy_a elements constructed by other
         // allocator regardless the two allocators compare equal or not.
 
-        if (allocator_traits::propagate_on_container_swap::value)
-        {
-            swap(this->data_.ref_to_alloc(), other.data_.ref_to_alloc());
-        }
-
         if
         (
             this->data_.first_ == this->data_.internal_storage() &&
@@ -1534,6 +1529,13 @@ public:
             swap(this->data_.last_,  other.data_.last_);
             swap(this->data_.eos_,   other.data_.eos_);
         }
+
+        // Elements could throw while being moved, therefore allocators must be
+        // swapped after the elements.
+        if (allocator_traits::propagate_on_container_swap::value)
+        {
+            swap(this->data_.ref_to_alloc(), other.data_.ref_to_alloc());
+        }
     }
 
 private:
-- 
2.43.0


From c365fba3278b8a33e81a76172d4931b114e99c5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:22:40 +0000
Subject: [PATCH 08/17] fix: devector: scope guards of shifting insertion cover
 exactly the new elements

---
 include/sfl/devector.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/sfl/devector.hpp b/include/sfl/devector.hpp
index 6e6863c..4702ef2 100644
--- a/include/sfl/devector.hpp
+++ b/include/sfl/devector.hpp
@@ -2749,7 +2749,7 @@ private:
                 );
 
                 const auto sg2 = sfl::dtl::make_scope_guard([&](){
-                    sfl::dtl::destroy_a(data_.ref_to_alloc(), q10, q10);
+                    sfl::dtl::destroy_a(data_.ref_to_alloc(), q10, q11);
                 });
 
                 if (p11 != q11)
@@ -3679,7 +3679,7 @@ private:
                     );
 
                     const auto sg1 = sfl::dtl::make_scope_guard([&](){
-                        sfl::dtl::destroy_a(data_.ref_to_alloc(), q10, q20);
+                        sfl::dtl::destroy_a(data_.ref_to_alloc(), q10, q11);
                     });
 
                     if (p11 != q11) // To avoid moving elements into themselves.
-- 
2.43.0


From cf058eeeb2d063f69a1db2f9c5ef9c1fc38e455e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:47 +0000
Subject: [PATCH 09/17] fix: static flat containers: assignment from
 initializer list keeps order and uniqueness

---
 include/sfl/static_flat_map.hpp           | 3 ++-
 include/sfl/static_flat_multimap.hpp      | 3 ++-
 include/sfl/static_flat_multiset.hpp      | 3 ++-
 include/sfl/static_flat_set.hpp           | 3 ++-
 include/sfl/static_unordered_flat_map.hpp | 3 ++-
 include/sfl/static_unordered_flat_set.hpp | 3 ++-
 6 files changed, 12 insertions(+), 6 deletions(-)

diff --git a/include/sfl/static_flat_map.hpp b/include/sfl/static_flat_map.hpp
index a2dd667..aea18f8 100644
--- a/include/sfl/static_flat_map.hpp
+++ b/include/sfl/static_flat_map.hpp
@@ -305,7 +305,8 @@ public:
 
     static_flat_map& operator=(std::initializer_list<value_type> ilist)
     {
-        assign_range(ilist.begin(), ilist.end());
+        clear();
+        insert(ilist.begin(), ilist.end());
         return *this;
     }
 
diff --git a/include/sfl/static_flat_multimap.hpp b/include/sfl/static_flat_multimap.hpp
index 6a95c67..b0355d5 100644
--- a/include/sfl/static_flat_multimap.hpp
+++ b/include/sfl/static_flat_multimap.hpp
@@ -305,7 +305,8 @@ public:
 
     static_flat_multimap& operator=(std::initializer_list<value_type> ilist)
     {
-        assign_range(ilist.begin(), ilist.end());
+        clear();
+        insert(ilist.begin(), ilist.end());
         return *this;
     }
 
diff --git a/include/sfl/static_flat_multiset.hpp b/include/sfl/static_flat_multiset.hpp
index 702f09a..c837b44 100644
--- a/include/sfl/static_flat_multiset.hpp
+++ b/include/sfl/static_flat_multiset.hpp
@@ -251,7 +251,8 @@ public:
 
     static_flat_multiset& operator=(std::initializer_list<value_type> ilist)
     {
-        assign_range(ilist.begin(), ilist.end());
+        clear();
+        insert(ilist.begin(), ilist.end());
         return *this;
     }
 
diff --git a/include/sfl/static_flat_set.hpp b/include/sfl/static_flat_set.hpp
index 5fe031c..ee80b20 100644
--- a/include/sfl/static_flat_set.hpp
+++ b/include/sfl/static_flat_set.hpp
@@ -251,7 +251,8 @@ public:
 
     static_flat_set& operator=(std::initializer_list<value_type> ilist)
     {
-        assign_range(ilist.begin(), ilist.end());
+        clear();
+        insert(ilist.begin(), ilist.end());
         return *this;
     }
 
diff --git a/include/sfl/static_unordered_flat_map.hpp b/include/sfl/static_unordered_flat_map.hpp
index e56f4b0..ad4f2a2 100644
--- a/include/sfl/static_unordered_flat_map.hpp
+++ b/include/sfl/static_unordered_flat_map.hpp
@@ -303,7 +303,8 @@ public:
 
     static_unordered_flat_map& operator=(std::initializer_list<value_type> ilist)
     {
-        assign_range(ilist.begin(), ilist.end());
+        clear();
+        insert(ilist.begin(), ilist.end());
         return *this;
     }
 
diff --git a/include/sfl/static_unordered_flat_set.hpp b/include/sfl/static_unordered_flat_set.hpp
index 5c61594..2419a8e 100644
--- a/include/sfl/static_unordered_flat_set.hpp
+++ b/include/sfl/static_unordered_flat_set.hpp
@@ -248,7 +248,8 @@ public:
 
     static_unordered_flat_set& operator=(std::initializer_list<value_type> ilist)
     {
-        assign_range(ilist.begin(), ilist.end());
+        clear();
+        insert(ilist.begin(), ilist.end());
         return *this;
     }
 
-- 
2.43.0


From 20a65abdeb00fc264d51f5477ed0107b71b4712d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:47 +0000
Subject: [PATCH 10/17] fix: static_unordered_flat_multiset: add the documented
 data()

---
 include/sfl/static_unordered_flat_multiset.hpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/include/sfl/static_unordered_flat_multiset.hpp b/include/sfl/static_unordered_flat_multiset.hpp
index 26a1904..1580b71 100644
--- a/include/sfl/static_unordered_flat_multiset.hpp
+++ b/include/sfl/static_unordered_flat_multiset.hpp
@@ -716,6 +716,18 @@ public:
     // ---- ELEMENT ACCESS ----------------------------------------------------
     //
 
+    SFL_NODISCARD
+    value_type* data() noexcept
+    {
+        return data_.first_;
+    }
+
+    SFL_NODISCARD
+    const value_type* data() const noexcept
+    {
+        return data_.first_;
+    }
+
 private:
 
     template <typename ForwardIt,
-- 
2.43.0


From 420ccc1f6430d2ac631edac201c72f20fee4a3a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:02:16 +0000
Subject: [PATCH 11/17] fix: flat_set, flat_map: insertion in the middle
 constructs the new element before shifting

---
 include/sfl/small_flat_map.hpp  | 6 +++++-
 include/sfl/small_flat_set.hpp  | 6 +++++-
 include/sfl/static_flat_map.hpp | 6 +++++-
 include/sfl/static_flat_set.hpp | 6 +++++-
 4 files changed, 20 insertions(+), 4 deletions(-)

diff --git a/include/sfl/small_flat_map.hpp b/include/sfl/small_flat_map.hpp
index aa5cbc4..7245cdc 100644
--- a/include/sfl/small_flat_map.hpp
+++ b/include/sfl/small_flat_map.hpp
@@ -1950,6 +1950,10 @@ private:
             }
             else
             {
+                // Create temporary value before making place for new element.
+                // If construction throws, container remains unchanged.
+                value_type temp(std::forward<Value>(value));
+
                 const pointer p2 = data_.last_ - 1;
 
                 const pointer old_last = data_.last_;
@@ -1970,7 +1974,7 @@ private:
                     old_last
                 );
 
-                *p1 = std::forward<Value>(value);
+                *p1 = std::move(temp);
             }
 
             return iterator(p1);
diff --git a/include/sfl/small_flat_set.hpp b/include/sfl/small_flat_set.hpp
index fed2a64..b137920 100644
--- a/include/sfl/small_flat_set.hpp
+++ b/include/sfl/small_flat_set.hpp
@@ -1646,6 +1646,10 @@ private:
             }
             else
             {
+                // Create temporary value before making place for new element.
+                // If construction throws, container remains unchanged.
+                value_type temp(std::forward<Value>(value));
+
                 const pointer p2 = data_.last_ - 1;
 
                 const pointer old_last = data_.last_;
@@ -1666,7 +1670,7 @@ private:
                     old_last
                 );
 
-                *p1 = std::forward<Value>(value);
+                *p1 = std::move(temp);
             }
 
             return iterator(p1);
diff --git a/include/sfl/static_flat_map.hpp b/include/sfl/static_flat_map.hpp
index aea18f8..985346a 100644
--- a/include/sfl/static_flat_map.hpp
+++ b/include/sfl/static_flat_map.hpp
@@ -1244,6 +1244,10 @@ private:
         }
         else
         {
+            // Create temporary value before making place for new element.
+            // If construction throws, container remains unchanged.
+            value_type temp(std::forward<Value>(value));
+
             const pointer p2 = data_.last_ - 1;
 
             const pointer old_last = data_.last_;
@@ -1263,7 +1267,7 @@ private:
                 old_last
             );
 
-            *p1 = std::forward<Value>(value);
+            *p1 = std::move(temp);
         }
 
         return iterator(p1);
diff --git a/include/sfl/static_flat_set.hpp b/include/sfl/static_flat_set.hpp
index ee80b20..38a0072 100644
--- a/include/sfl/static_flat_set.hpp
+++ b/include/sfl/static_flat_set.hpp
@@ -927,6 +927,10 @@ private:
         }
         else
         {
+            // Create temporary value before making place for new element.
+            // If construction throws, container remains unchanged.
+            value_type temp(std::forward<Value>(value));
+
             const pointer p2 = data_.last_ - 1;
 
             const pointer old_last = data_.last_;
@@ -946,7 +950,7 @@ private:
                 old_last
             );
 
-            *p1 = std::forward<Value>(value);
+            *p1 = std::move(temp);
         }
 
         return iterator(p1);
-- 
2.43.0


From a111af206a3878a5fc338f352ada15889ba1e196 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:02:30 +0000
Subject: [PATCH 12/17] fix: unordered flat set/map: emplace removes the new
 element if comparison throws

---
 include/sfl/small_unordered_flat_map.hpp  | 8 ++++++--
 include/sfl/small_unordered_flat_set.hpp  | 8 ++++++--
 include/sfl/static_unordered_flat_map.hpp | 8 ++++++--
 include/sfl/static_unordered_flat_set.hpp | 8 ++++++--
 4 files changed, 24 insertions(+), 8 deletions(-)

diff --git a/include/sfl/small_unordered_flat_map.hpp b/include/sfl/small_unordered_flat_map.hpp
index 1132466..a1dfa82 100644
--- a/include/sfl/small_unordered_flat_map.hpp
+++ b/include/sfl/small_unordered_flat_map.hpp
@@ -1735,13 +1735,17 @@ private:
     std::pair<iterator, bool> emplace_aux(Args&&... args)
     {
         const auto it1 = emplace_back(std::forward<Args>(args)...);
+
+        // Removes new element if it is not unique or if comparison throws.
+        auto guard = sfl::dtl::make_scope_guard([this](){ pop_back(); });
+
         const auto it2 = find(it1->first);
 
         const bool is_unique = it1 == it2;
 
-        if (!is_unique)
+        if (is_unique)
         {
-            pop_back();
+            guard.dismiss();
         }
 
         return std::make_pair(it2, is_unique);
diff --git a/include/sfl/small_unordered_flat_set.hpp b/include/sfl/small_unordered_flat_set.hpp
index 962057b..3435250 100644
--- a/include/sfl/small_unordered_flat_set.hpp
+++ b/include/sfl/small_unordered_flat_set.hpp
@@ -1488,13 +1488,17 @@ private:
     std::pair<iterator, bool> emplace_aux(Args&&... args)
     {
         const auto it1 = emplace_back(std::forward<Args>(args)...);
+
+        // Removes new element if it is not unique or if comparison throws.
+        auto guard = sfl::dtl::make_scope_guard([this](){ pop_back(); });
+
         const auto it2 = find(*it1);
 
         const bool is_unique = it1 == it2;
 
-        if (!is_unique)
+        if (is_unique)
         {
-            pop_back();
+            guard.dismiss();
         }
 
         return std::make_pair(it2, is_unique);
diff --git a/include/sfl/static_unordered_flat_map.hpp b/include/sfl/static_unordered_flat_map.hpp
index ad4f2a2..c6a88ea 100644
--- a/include/sfl/static_unordered_flat_map.hpp
+++ b/include/sfl/static_unordered_flat_map.hpp
@@ -1022,13 +1022,17 @@ private:
     std::pair<iterator, bool> emplace_aux(Args&&... args)
     {
         const auto it1 = emplace_back(std::forward<Args>(args)...);
+
+        // Removes new element if it is not unique or if comparison throws.
+        auto guard = sfl::dtl::make_scope_guard([this](){ pop_back(); });
+
         const auto it2 = find(it1->first);
 
         const bool is_unique = it1 == it2;
 
-        if (!is_unique)
+        if (is_unique)
         {
-            pop_back();
+            guard.dismiss();
         }
 
         return std::make_pair(it2, is_unique);
diff --git a/include/sfl/static_unordered_flat_set.hpp b/include/sfl/static_unordered_flat_set.hpp
index 2419a8e..552ba5f 100644
--- a/include/sfl/static_unordered_flat_set.hpp
+++ b/include/sfl/static_unordered_flat_set.hpp
@@ -764,13 +764,17 @@ private:
     std::pair<iterator, bool> emplace_aux(Args&&... args)
     {
         const auto it1 = emplace_back(std::forward<Args>(args)...);
+
+        // Removes new element if it is not unique or if comparison throws.
+        auto guard = sfl::dtl::make_scope_guard([this](){ pop_back(); });
+
         const auto it2 = find(*it1);
 
         const bool is_unique = it1 == it2;
 
-        if (!is_unique)
+        if (is_unique)
         {
-            pop_back();
+            guard.dismiss();
         }
 
         return std::make_pair(it2, is_unique);
-- 
2.43.0


From 345699cd33e93cc71508f69e72e57492900a633f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:02:43 +0000
Subject: [PATCH 13/17] fix: unordered flat multiset/multimap: erase(key) with
 a reference to own element

---
 include/sfl/small_unordered_flat_multimap.hpp | 83 ++++++++++++-------
 include/sfl/small_unordered_flat_multiset.hpp | 83 ++++++++++++-------
 .../sfl/static_unordered_flat_multimap.hpp    | 83 ++++++++++++-------
 .../sfl/static_unordered_flat_multiset.hpp    | 83 ++++++++++++-------
 4 files changed, 204 insertions(+), 128 deletions(-)

diff --git a/include/sfl/small_unordered_flat_multimap.hpp b/include/sfl/small_unordered_flat_multimap.hpp
index 46f0a5d..2270ba5 100644
--- a/include/sfl/small_unordered_flat_multimap.hpp
+++ b/include/sfl/small_unordered_flat_multimap.hpp
@@ -938,44 +938,14 @@ public:
 
     size_type erase(const Key& key)
     {
-        size_type n = 0;
-
-        for (auto it = begin(); it != end();)
-        {
-            if (data_.ref_to_equal()(*it, key))
-            {
-                it = erase(it);
-                ++n;
-            }
-            else
-            {
-                ++it;
-            }
-        }
-
-        return n;
+        return erase_aux(key);
     }
 
     template <typename K,
               sfl::dtl::enable_if_t<sfl::dtl::has_is_transparent<KeyEqual, K>::value>* = nullptr>
     size_type erase(K&& x)
     {
-        size_type n = 0;
-
-        for (auto it = begin(); it != end();)
-        {
-            if (data_.ref_to_equal()(*it, x))
-            {
-                it = erase(it);
-                ++n;
-            }
-            else
-            {
-                ++it;
-            }
-        }
-
-        return n;
+        return erase_aux(x);
     }
 
     void swap(small_unordered_flat_multimap& other)
@@ -1272,6 +1242,55 @@ public:
 
 private:
 
+    size_type erase_aux(const Key& key)
+    {
+        for (pointer p = data_.first_; p != data_.last_; ++p)
+        {
+            // If key refers to key of own element then that element must
+            // outlive all comparisons. Erasing moves and destroys elements.
+            if (std::addressof(p->first) == std::addressof(key))
+            {
+                if (!data_.ref_to_equal()(*p, key))
+                {
+                    break;
+                }
+
+                const value_type temp(std::move(*p));
+                erase(cbegin() + std::distance(data_.first_, p));
+                return 1 + erase_aux_no_alias(temp.first);
+            }
+        }
+
+        return erase_aux_no_alias(key);
+    }
+
+    template <typename K>
+    size_type erase_aux(const K& x)
+    {
+        return erase_aux_no_alias(x);
+    }
+
+    template <typename K>
+    size_type erase_aux_no_alias(const K& x)
+    {
+        size_type n = 0;
+
+        for (auto it = begin(); it != end();)
+        {
+            if (data_.ref_to_equal()(*it, x))
+            {
+                it = erase(it);
+                ++n;
+            }
+            else
+            {
+                ++it;
+            }
+        }
+
+        return n;
+    }
+
     void check_size(size_type n, const char* msg)
     {
         if (n > max_size())
diff --git a/include/sfl/small_unordered_flat_multiset.hpp b/include/sfl/small_unordered_flat_multiset.hpp
index c982041..a01df73 100644
--- a/include/sfl/small_unordered_flat_multiset.hpp
+++ b/include/sfl/small_unordered_flat_multiset.hpp
@@ -852,44 +852,14 @@ public:
 
     size_type erase(const Key& key)
     {
-        size_type n = 0;
-
-        for (auto it = begin(); it != end();)
-        {
-            if (data_.ref_to_equal()(*it, key))
-            {
-                it = erase(it);
-                ++n;
-            }
-            else
-            {
-                ++it;
-            }
-        }
-
-        return n;
+        return erase_aux(key);
     }
 
     template <typename K,
               sfl::dtl::enable_if_t<sfl::dtl::has_is_transparent<KeyEqual, K>::value>* = nullptr>
     size_type erase(K&& x)
     {
-        size_type n = 0;
-
-        for (auto it = begin(); it != end();)
-        {
-            if (data_.ref_to_equal()(*it, x))
-            {
-                it = erase(it);
-                ++n;
-            }
-            else
-            {
-                ++it;
-            }
-        }
-
-        return n;
+        return erase_aux(x);
     }
 
     void swap(small_unordered_flat_multiset& other)
@@ -1186,6 +1156,55 @@ public:
 
 private:
 
+    size_type erase_aux(const Key& key)
+    {
+        for (pointer p = data_.first_; p != data_.last_; ++p)
+        {
+            // If key refers to key of own element then that element must
+            // outlive all comparisons. Erasing moves and destroys elements.
+            if (std::addressof(*p) == std::addressof(key))
+            {
+                if (!data_.ref_to_equal()(*p, key))
+                {
+                    break;
+                }
+
+                const value_type temp(std::move(*p));
+                erase(cbegin() + std::distance(data_.first_, p));
+                return 1 + erase_aux_no_alias(temp);
+            }
+        }
+
+        return erase_aux_no_alias(key);
+    }
+
+    template <typename K>
+    size_type erase_aux(const K& x)
+    {
+        return erase_aux_no_alias(x);
+    }
+
+    template <typename K>
+    size_type erase_aux_no_alias(const K& x)
+    {
+        size_type n = 0;
+
+        for (auto it = begin(); it != end();)
+        {
+            if (data_.ref_to_equal()(*it, x))
+            {
+                it = erase(it);
+                ++n;
+            }
+            else
+            {
+                ++it;
+            }
+        }
+
+        return n;
+    }
+
     void check_size(size_type n, const char* msg)
     {
         if (n > max_size())
diff --git a/include/sfl/static_unordered_flat_multimap.hpp b/include/sfl/static_unordered_flat_multimap.hpp
index 4356bcd..ba1c6b4 100644
--- a/include/sfl/static_unordered_flat_multimap.hpp
+++ b/include/sfl/static_unordered_flat_multimap.hpp
@@ -585,44 +585,14 @@ public:
 
     size_type erase(const Key& key)
     {
-        size_type n = 0;
-
-        for (auto it = begin(); it != end();)
-        {
-            if (data_.ref_to_equal()(*it, key))
-            {
-                it = erase(it);
-                ++n;
-            }
-            else
-            {
-                ++it;
-            }
-        }
-
-        return n;
+        return erase_aux(key);
     }
 
     template <typename K,
               sfl::dtl::enable_if_t<sfl::dtl::has_is_transparent<KeyEqual, K>::value>* = nullptr>
     size_type erase(K&& x)
     {
-        size_type n = 0;
-
-        for (auto it = begin(); it != end();)
-        {
-            if (data_.ref_to_equal()(*it, x))
-            {
-                it = erase(it);
-                ++n;
-            }
-            else
-            {
-                ++it;
-            }
-        }
-
-        return n;
+        return erase_aux(x);
     }
 
     void swap(static_unordered_flat_multimap& other)
@@ -818,6 +788,55 @@ public:
 
 private:
 
+    size_type erase_aux(const Key& key)
+    {
+        for (pointer p = data_.first_; p != data_.last_; ++p)
+        {
+            // If key refers to key of own element then that element must
+            // outlive all comparisons. Erasing moves and destroys elements.
+            if (std::addressof(p->first) == std::addressof(key))
+            {
+                if (!data_.ref_to_equal()(*p, key))
+                {
+                    break;
+                }
+
+                const value_type temp(std::move(*p));
+                erase(cbegin() + std::distance(data_.first_, p));
+                return 1 + erase_aux_no_alias(temp.first);
+            }
+        }
+
+        return erase_aux_no_alias(key);
+    }
+
+    template <typename K>
+    size_type erase_aux(const K& x)
+    {
+        return erase_aux_no_alias(x);
+    }
+
+    template <typename K>
+    size_type erase_aux_no_alias(const K& x)
+    {
+        size_type n = 0;
+
+        for (auto it = begin(); it != end();)
+        {
+            if (data_.ref_to_equal()(*it, x))
+            {
+                it = erase(it);
+                ++n;
+            }
+            else
+            {
+                ++it;
+            }
+        }
+
+        return n;
+    }
+
     template <typename ForwardIt,
               sfl::dtl::enable_if_t<sfl::dtl::is_forward_iterator<ForwardIt>::value>* = nullptr>
     void assign_range(ForwardIt first, ForwardIt last)
diff --git a/include/sfl/static_unordered_flat_multiset.hpp b/include/sfl/static_unordered_flat_multiset.hpp
index 1580b71..24f6668 100644
--- a/include/sfl/static_unordered_flat_multiset.hpp
+++ b/include/sfl/static_unordered_flat_multiset.hpp
@@ -497,44 +497,14 @@ public:
 
     size_type erase(const Key& key)
     {
-        size_type n = 0;
-
-        for (auto it = begin(); it != end();)
-        {
-            if (data_.ref_to_equal()(*it, key))
-            {
-                it = erase(it);
-                ++n;
-            }
-            else
-            {
-                ++it;
-            }
-        }
-
-        return n;
+        return erase_aux(key);
     }
 
     template <typename K,
               sfl::dtl::enable_if_t<sfl::dtl::has_is_transparent<KeyEqual, K>::value>* = nullptr>
     size_type erase(K&& x)
     {
-        size_type n = 0;
-
-        for (auto it = begin(); it != end();)
-        {
-            if (data_.ref_to_equal()(*it, x))
-            {
-                it = erase(it);
-                ++n;
-            }
-            else
-            {
-                ++it;
-            }
-        }
-
-        return n;
+        return erase_aux(x);
     }
 
     void swap(static_unordered_flat_multiset& other)
@@ -730,6 +700,55 @@ public:
 
 private:
 
+    size_type erase_aux(const Key& key)
+    {
+        for (pointer p = data_.first_; p != data_.last_; ++p)
+        {
+            // If key refers to key of own element then that element must
+            // outlive all comparisons. Erasing moves and destroys elements.
+            if (std::addressof(*p) == std::addressof(key))
+            {
+                if (!data_.ref_to_equal()(*p, key))
+                {
+                    break;
+                }
+
+                const value_type temp(std::move(*p));
+                erase(cbegin() + std::distance(data_.first_, p));
+                return 1 + erase_aux_no_alias(temp);
+            }
+        }
+
+        return erase_aux_no_alias(key);
+    }
+
+    template <typename K>
+    size_type erase_aux(const K& x)
+    {
+        return erase_aux_no_alias(x);
+    }
+
+    template <typename K>
+    size_type erase_aux_no_alias(const K& x)
+    {
+        size_type n = 0;
+
+        for (auto it = begin(); it != end();)
+        {
+            if (data_.ref_to_equal()(*it, x))
+            {
+                it = erase(it);
+                ++n;
+            }
+            else
+            {
+                ++it;
+            }
+        }
+
+        return n;
+    }
+
     template <typename ForwardIt,
               sfl::dtl::enable_if_t<sfl::dtl::is_forward_iterator<ForwardIt>::value>* = nullptr>
     void assign_range(ForwardIt first, ForwardIt last)
-- 
2.43.0


From ff827d0c9bb89a6a446a377cf558adc55001ba58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:18:42 +0000
Subject: [PATCH 14/17] fix: flat containers: an assignment that throws no
 longer leaves elements out of order or duplicated

---
 include/sfl/small_flat_map.hpp            | 7 +++++++
 include/sfl/small_flat_multimap.hpp       | 7 +++++++
 include/sfl/small_flat_multiset.hpp       | 7 +++++++
 include/sfl/small_flat_set.hpp            | 7 +++++++
 include/sfl/small_unordered_flat_map.hpp  | 7 +++++++
 include/sfl/small_unordered_flat_set.hpp  | 7 +++++++
 include/sfl/static_flat_map.hpp           | 7 +++++++
 include/sfl/static_flat_multimap.hpp      | 7 +++++++
 include/sfl/static_flat_multiset.hpp      | 7 +++++++
 include/sfl/static_flat_set.hpp           | 7 +++++++
 include/sfl/static_unordered_flat_map.hpp | 7 +++++++
 include/sfl/static_unordered_flat_set.hpp | 7 +++++++
 12 files changed, 84 insertions(+)

diff --git a/include/sfl/small_flat_map.hpp b/include/sfl/small_flat_map.hpp
index 7245cdc..ab86594 100644
--- a/include/sfl/small_flat_map.hpp
+++ b/include/sfl/small_flat_map.hpp
@@ -1686,6 +1686,11 @@ private:
     template <typename ForwardIt>
     void assign_range(ForwardIt first, ForwardIt last)
     {
+        // Partially assigned elements may break the invariants of container.
+        const auto guard = sfl::dtl::make_scope_guard([&](){
+            clear();
+        });
+
         const size_type n = std::distance(first, last);
 
         check_size(n, "sfl::small_flat_map::assign_range");
@@ -1744,6 +1749,8 @@ private:
                 data_.first_
             );
         }
+
+        guard.dismiss();
     }
 
     void assign_copy(const small_flat_map& other)
diff --git a/include/sfl/small_flat_multimap.hpp b/include/sfl/small_flat_multimap.hpp
index a95cbd1..0aff14e 100644
--- a/include/sfl/small_flat_multimap.hpp
+++ b/include/sfl/small_flat_multimap.hpp
@@ -1504,6 +1504,11 @@ private:
     template <typename ForwardIt>
     void assign_range(ForwardIt first, ForwardIt last)
     {
+        // Partially assigned elements may break the invariants of container.
+        const auto guard = sfl::dtl::make_scope_guard([&](){
+            clear();
+        });
+
         const size_type n = std::distance(first, last);
 
         check_size(n, "sfl::small_flat_multimap::assign_range");
@@ -1562,6 +1567,8 @@ private:
                 data_.first_
             );
         }
+
+        guard.dismiss();
     }
 
     void assign_copy(const small_flat_multimap& other)
diff --git a/include/sfl/small_flat_multiset.hpp b/include/sfl/small_flat_multiset.hpp
index 6c64a63..62c7f37 100644
--- a/include/sfl/small_flat_multiset.hpp
+++ b/include/sfl/small_flat_multiset.hpp
@@ -1431,6 +1431,11 @@ private:
     template <typename ForwardIt>
     void assign_range(ForwardIt first, ForwardIt last)
     {
+        // Partially assigned elements may break the invariants of container.
+        const auto guard = sfl::dtl::make_scope_guard([&](){
+            clear();
+        });
+
         const size_type n = std::distance(first, last);
 
         check_size(n, "sfl::small_flat_multiset::assign_range");
@@ -1489,6 +1494,8 @@ private:
                 data_.first_
             );
         }
+
+        guard.dismiss();
     }
 
     void assign_copy(const small_flat_multiset& other)
diff --git a/include/sfl/small_flat_set.hpp b/include/sfl/small_flat_set.hpp
index b137920..98ef4fa 100644
--- a/include/sfl/small_flat_set.hpp
+++ b/include/sfl/small_flat_set.hpp
@@ -1452,6 +1452,11 @@ private:
     template <typename ForwardIt>
     void assign_range(ForwardIt first, ForwardIt last)
     {
+        // Partially assigned elements may break the invariants of container.
+        const auto guard = sfl::dtl::make_scope_guard([&](){
+            clear();
+        });
+
         const size_type n = std::distance(first, last);
 
         check_size(n, "sfl::small_flat_set::assign_range");
@@ -1510,6 +1515,8 @@ private:
                 data_.first_
             );
         }
+
+        guard.dismiss();
     }
 
     void assign_copy(const small_flat_set& other)
diff --git a/include/sfl/small_unordered_flat_map.hpp b/include/sfl/small_unordered_flat_map.hpp
index a1dfa82..e1f511c 100644
--- a/include/sfl/small_unordered_flat_map.hpp
+++ b/include/sfl/small_unordered_flat_map.hpp
@@ -1607,6 +1607,11 @@ private:
     template <typename ForwardIt>
     void assign_range(ForwardIt first, ForwardIt last)
     {
+        // Partially assigned elements may break the invariants of container.
+        const auto guard = sfl::dtl::make_scope_guard([&](){
+            clear();
+        });
+
         const size_type n = std::distance(first, last);
 
         check_size(n, "sfl::small_unordered_flat_map::assign_range");
@@ -1665,6 +1670,8 @@ private:
                 data_.first_
             );
         }
+
+        guard.dismiss();
     }
 
     void assign_copy(const small_unordered_flat_map& other)
diff --git a/include/sfl/small_unordered_flat_set.hpp b/include/sfl/small_unordered_flat_set.hpp
index 3435250..478a9d2 100644
--- a/include/sfl/small_unordered_flat_set.hpp
+++ b/include/sfl/small_unordered_flat_set.hpp
@@ -1360,6 +1360,11 @@ private:
     template <typename ForwardIt>
     void assign_range(ForwardIt first, ForwardIt last)
     {
+        // Partially assigned elements may break the invariants of container.
+        const auto guard = sfl::dtl::make_scope_guard([&](){
+            clear();
+        });
+
         const size_type n = std::distance(first, last);
 
         check_size(n, "sfl::small_unordered_flat_set::assign_range");
@@ -1418,6 +1423,8 @@ private:
                 data_.first_
             );
         }
+
+        guard.dismiss();
     }
 
     void assign_copy(const small_unordered_flat_set& other)
diff --git a/include/sfl/static_flat_map.hpp b/include/sfl/static_flat_map.hpp
index 985346a..a7c20d8 100644
--- a/include/sfl/static_flat_map.hpp
+++ b/include/sfl/static_flat_map.hpp
@@ -1061,6 +1061,11 @@ private:
               sfl::dtl::enable_if_t<sfl::dtl::is_forward_iterator<ForwardIt>::value>* = nullptr>
     void assign_range(ForwardIt first, ForwardIt last)
     {
+        // Partially assigned elements may break the invariants of container.
+        const auto guard = sfl::dtl::make_scope_guard([&](){
+            clear();
+        });
+
         SFL_ASSERT(size_type(std::distance(first, last)) <= capacity());
 
         const size_type n = std::distance(first, last);
@@ -1102,6 +1107,8 @@ private:
                 data_.last_
             );
         }
+
+        guard.dismiss();
     }
 
     template <typename Value>
diff --git a/include/sfl/static_flat_multimap.hpp b/include/sfl/static_flat_multimap.hpp
index b0355d5..c687ad9 100644
--- a/include/sfl/static_flat_multimap.hpp
+++ b/include/sfl/static_flat_multimap.hpp
@@ -867,6 +867,11 @@ private:
               sfl::dtl::enable_if_t<sfl::dtl::is_forward_iterator<ForwardIt>::value>* = nullptr>
     void assign_range(ForwardIt first, ForwardIt last)
     {
+        // Partially assigned elements may break the invariants of container.
+        const auto guard = sfl::dtl::make_scope_guard([&](){
+            clear();
+        });
+
         SFL_ASSERT(size_type(std::distance(first, last)) <= capacity());
 
         const size_type n = std::distance(first, last);
@@ -908,6 +913,8 @@ private:
                 data_.last_
             );
         }
+
+        guard.dismiss();
     }
 
     template <typename Value>
diff --git a/include/sfl/static_flat_multiset.hpp b/include/sfl/static_flat_multiset.hpp
index c837b44..d6a1f27 100644
--- a/include/sfl/static_flat_multiset.hpp
+++ b/include/sfl/static_flat_multiset.hpp
@@ -791,6 +791,11 @@ private:
               sfl::dtl::enable_if_t<sfl::dtl::is_forward_iterator<ForwardIt>::value>* = nullptr>
     void assign_range(ForwardIt first, ForwardIt last)
     {
+        // Partially assigned elements may break the invariants of container.
+        const auto guard = sfl::dtl::make_scope_guard([&](){
+            clear();
+        });
+
         SFL_ASSERT(size_type(std::distance(first, last)) <= capacity());
 
         const size_type n = std::distance(first, last);
@@ -832,6 +837,8 @@ private:
                 data_.last_
             );
         }
+
+        guard.dismiss();
     }
 
     template <typename Value>
diff --git a/include/sfl/static_flat_set.hpp b/include/sfl/static_flat_set.hpp
index 38a0072..9626e27 100644
--- a/include/sfl/static_flat_set.hpp
+++ b/include/sfl/static_flat_set.hpp
@@ -814,6 +814,11 @@ private:
               sfl::dtl::enable_if_t<sfl::dtl::is_forward_iterator<ForwardIt>::value>* = nullptr>
     void assign_range(ForwardIt first, ForwardIt last)
     {
+        // Partially assigned elements may break the invariants of container.
+        const auto guard = sfl::dtl::make_scope_guard([&](){
+            clear();
+        });
+
         SFL_ASSERT(size_type(std::distance(first, last)) <= capacity());
 
         const size_type n = std::distance(first, last);
@@ -855,6 +860,8 @@ private:
                 data_.last_
             );
         }
+
+        guard.dismiss();
     }
 
     template <typename Value>
diff --git a/include/sfl/static_unordered_flat_map.hpp b/include/sfl/static_unordered_flat_map.hpp
index c6a88ea..bab4bca 100644
--- a/include/sfl/static_unordered_flat_map.hpp
+++ b/include/sfl/static_unordered_flat_map.hpp
@@ -975,6 +975,11 @@ private:
               sfl::dtl::enable_if_t<sfl::dtl::is_forward_iterator<ForwardIt>::value>* = nullptr>
     void assign_range(ForwardIt first, ForwardIt last)
     {
+        // Partially assigned elements may break the invariants of container.
+        const auto guard = sfl::dtl::make_scope_guard([&](){
+            clear();
+        });
+
         SFL_ASSERT(size_type(std::distance(first, last)) <= capacity());
 
         const size_type n = std::distance(first, last);
@@ -1016,6 +1021,8 @@ private:
                 data_.last_
             );
         }
+
+        guard.dismiss();
     }
 
     template <typename... Args>
diff --git a/include/sfl/static_unordered_flat_set.hpp b/include/sfl/static_unordered_flat_set.hpp
index 552ba5f..9caa91f 100644
--- a/include/sfl/static_unordered_flat_set.hpp
+++ b/include/sfl/static_unordered_flat_set.hpp
@@ -717,6 +717,11 @@ private:
               sfl::dtl::enable_if_t<sfl::dtl::is_forward_iterator<ForwardIt>::value>* = nullptr>
     void assign_range(ForwardIt first, ForwardIt last)
     {
+        // Partially assigned elements may break the invariants of container.
+        const auto guard = sfl::dtl::make_scope_guard([&](){
+            clear();
+        });
+
         SFL_ASSERT(size_type(std::distance(first, last)) <= capacity());
 
         const size_type n = std::distance(first, last);
@@ -758,6 +763,8 @@ private:
                 data_.last_
             );
         }
+
+        guard.dismiss();
     }
 
     template <typename... Args>
-- 
2.43.0


From 42fc42051d67b0de46bfb4a400cb2c14f53e6516 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:56:54 +0000
Subject: [PATCH 15/17] fix: segmented containers: length check wrapped around
 when the capacity exceeds max_size()

---
 include/sfl/segmented_devector.hpp | 14 ++++++++++++--
 include/sfl/segmented_vector.hpp   |  7 ++++++-
 2 files changed, 18 insertions(+), 3 deletions(-)

diff --git a/include/sfl/segmented_devector.hpp b/include/sfl/segmented_devector.hpp
index 46ba5cf..b94ec02 100644
--- a/include/sfl/segmented_devector.hpp
+++ b/include/sfl/segmented_devector.hpp
@@ -1330,7 +1330,12 @@ private:
     //
     void grow_storage_front(size_type num_additional_elements)
     {
-        if (max_size() - capacity() < num_additional_elements)
+        // Capacity is rounded up to whole segments so it can exceed max_size.
+        if
+        (
+            capacity() > max_size() ||
+            max_size() - capacity() < num_additional_elements
+        )
         {
             sfl::dtl::throw_length_error("sfl::segmented_devector::grow_storage_front");
         }
@@ -1418,7 +1423,12 @@ private:
     //
     void grow_storage_back(size_type num_additional_elements)
     {
-        if (max_size() - capacity() < num_additional_elements)
+        // Capacity is rounded up to whole segments so it can exceed max_size.
+        if
+        (
+            capacity() > max_size() ||
+            max_size() - capacity() < num_additional_elements
+        )
         {
             sfl::dtl::throw_length_error("sfl::segmented_devector::grow_storage_back");
         }
diff --git a/include/sfl/segmented_vector.hpp b/include/sfl/segmented_vector.hpp
index 38d4ddd..90d0854 100644
--- a/include/sfl/segmented_vector.hpp
+++ b/include/sfl/segmented_vector.hpp
@@ -959,7 +959,12 @@ private:
     //
     void grow_storage(size_type num_additional_elements)
     {
-        if (max_size() - capacity() < num_additional_elements)
+        // Capacity is rounded up to whole segments so it can exceed max_size.
+        if
+        (
+            capacity() > max_size() ||
+            max_size() - capacity() < num_additional_elements
+        )
         {
             sfl::dtl::throw_length_error("sfl::segmented_vector::grow_storage");
         }
-- 
2.43.0


From 0e82b01c209172876261b81ebacfdab3d67f5b55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:01:09 +0000
Subject: [PATCH 16/17] fix: small containers: length check wrapped around when
 N exceeds max_size()

---
 include/sfl/small_flat_map.hpp                | 2 +-
 include/sfl/small_flat_multimap.hpp           | 2 +-
 include/sfl/small_flat_multiset.hpp           | 2 +-
 include/sfl/small_flat_set.hpp                | 2 +-
 include/sfl/small_unordered_flat_map.hpp      | 2 +-
 include/sfl/small_unordered_flat_multimap.hpp | 2 +-
 include/sfl/small_unordered_flat_multiset.hpp | 2 +-
 include/sfl/small_unordered_flat_set.hpp      | 2 +-
 include/sfl/small_vector.hpp                  | 2 +-
 9 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/include/sfl/small_flat_map.hpp b/include/sfl/small_flat_map.hpp
index ab86594..f22cb4f 100644
--- a/include/sfl/small_flat_map.hpp
+++ b/include/sfl/small_flat_map.hpp
@@ -1506,7 +1506,7 @@ private:
         const size_type capacity = this->capacity();
         const size_type max_size = this->max_size();
 
-        if (max_size - size < num_additional_elements)
+        if (max_size < size || max_size - size < num_additional_elements)
         {
             sfl::dtl::throw_length_error(msg);
         }
diff --git a/include/sfl/small_flat_multimap.hpp b/include/sfl/small_flat_multimap.hpp
index 0aff14e..7667c46 100644
--- a/include/sfl/small_flat_multimap.hpp
+++ b/include/sfl/small_flat_multimap.hpp
@@ -1324,7 +1324,7 @@ private:
         const size_type capacity = this->capacity();
         const size_type max_size = this->max_size();
 
-        if (max_size - size < num_additional_elements)
+        if (max_size < size || max_size - size < num_additional_elements)
         {
             sfl::dtl::throw_length_error(msg);
         }
diff --git a/include/sfl/small_flat_multiset.hpp b/include/sfl/small_flat_multiset.hpp
index 62c7f37..618626b 100644
--- a/include/sfl/small_flat_multiset.hpp
+++ b/include/sfl/small_flat_multiset.hpp
@@ -1251,7 +1251,7 @@ private:
         const size_type capacity = this->capacity();
         const size_type max_size = this->max_size();
 
-        if (max_size - size < num_additional_elements)
+        if (max_size < size || max_size - size < num_additional_elements)
         {
             sfl::dtl::throw_length_error(msg);
         }
diff --git a/include/sfl/small_flat_set.hpp b/include/sfl/small_flat_set.hpp
index 98ef4fa..0083bc2 100644
--- a/include/sfl/small_flat_set.hpp
+++ b/include/sfl/small_flat_set.hpp
@@ -1272,7 +1272,7 @@ private:
         const size_type capacity = this->capacity();
         const size_type max_size = this->max_size();
 
-        if (max_size - size < num_additional_elements)
+        if (max_size < size || max_size - size < num_additional_elements)
         {
             sfl::dtl::throw_length_error(msg);
         }
diff --git a/include/sfl/small_unordered_flat_map.hpp b/include/sfl/small_unordered_flat_map.hpp
index e1f511c..775cce0 100644
--- a/include/sfl/small_unordered_flat_map.hpp
+++ b/include/sfl/small_unordered_flat_map.hpp
@@ -1427,7 +1427,7 @@ private:
         const size_type capacity = this->capacity();
         const size_type max_size = this->max_size();
 
-        if (max_size - size < num_additional_elements)
+        if (max_size < size || max_size - size < num_additional_elements)
         {
             sfl::dtl::throw_length_error(msg);
         }
diff --git a/include/sfl/small_unordered_flat_multimap.hpp b/include/sfl/small_unordered_flat_multimap.hpp
index 2270ba5..1ca4cc4 100644
--- a/include/sfl/small_unordered_flat_multimap.hpp
+++ b/include/sfl/small_unordered_flat_multimap.hpp
@@ -1305,7 +1305,7 @@ private:
         const size_type capacity = this->capacity();
         const size_type max_size = this->max_size();
 
-        if (max_size - size < num_additional_elements)
+        if (max_size < size || max_size - size < num_additional_elements)
         {
             sfl::dtl::throw_length_error(msg);
         }
diff --git a/include/sfl/small_unordered_flat_multiset.hpp b/include/sfl/small_unordered_flat_multiset.hpp
index a01df73..1f23de7 100644
--- a/include/sfl/small_unordered_flat_multiset.hpp
+++ b/include/sfl/small_unordered_flat_multiset.hpp
@@ -1219,7 +1219,7 @@ private:
         const size_type capacity = this->capacity();
         const size_type max_size = this->max_size();
 
-        if (max_size - size < num_additional_elements)
+        if (max_size < size || max_size - size < num_additional_elements)
         {
             sfl::dtl::throw_length_error(msg);
         }
diff --git a/include/sfl/small_unordered_flat_set.hpp b/include/sfl/small_unordered_flat_set.hpp
index 478a9d2..bd9e1a8 100644
--- a/include/sfl/small_unordered_flat_set.hpp
+++ b/include/sfl/small_unordered_flat_set.hpp
@@ -1180,7 +1180,7 @@ private:
         const size_type capacity = this->capacity();
         const size_type max_size = this->max_size();
 
-        if (max_size - size < num_additional_elements)
+        if (max_size < size || max_size - size < num_additional_elements)
         {
             sfl::dtl::throw_length_error(msg);
         }
diff --git a/include/sfl/small_vector.hpp b/include/sfl/small_vector.hpp
index 89bd752..9b4d55e 100644
--- a/include/sfl/small_vector.hpp
+++ b/include/sfl/small_vector.hpp
@@ -1554,7 +1554,7 @@ private:
         const size_type capacity = this->capacity();
         const size_type max_size = this->max_size();
 
-        if (max_size - size < num_additional_elements)
+        if (max_size < size || max_size - size < num_additional_elements)
         {
             sfl::dtl::throw_length_error(msg);
         }
-- 
2.43.0


From b46f39f50570cf7c612fe0826ba475b1ec29159d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:39:27 +0000
Subject: [PATCH 17/17] fix: insertion of a single-pass range in the middle
 took distance(first, last) times the distance to the end

---
 include/sfl/devector.hpp           | 32 +++++++++++++++++++++++-------
 include/sfl/segmented_devector.hpp | 28 +++++++++++++++++++++-----
 include/sfl/segmented_vector.hpp   |  8 +++++---
 include/sfl/small_vector.hpp       | 12 ++++++-----
 include/sfl/static_vector.hpp      | 14 ++++++++-----
 include/sfl/vector.hpp             | 12 ++++++-----
 6 files changed, 76 insertions(+), 30 deletions(-)

diff --git a/include/sfl/devector.hpp b/include/sfl/devector.hpp
index 4702ef2..8686f00 100644
--- a/include/sfl/devector.hpp
+++ b/include/sfl/devector.hpp
@@ -23,7 +23,7 @@
 
 #include "private.hpp"
 
-#include <algorithm>        // copy, move, swap, swap_ranges
+#include <algorithm>        // copy, move, reverse, rotate, swap, swap_ranges
 #include <cstddef>          // size_t
 #include <initializer_list> // initializer_list
 #include <iterator>         // distance, next, reverse_iterator
@@ -4070,16 +4070,34 @@ private:
               sfl::dtl::enable_if_t<sfl::dtl::is_exactly_input_iterator<InputIt>::value>* = nullptr>
     iterator insert_range(const_iterator pos, InputIt first, InputIt last)
     {
-        const difference_type offset = std::distance(cbegin(), pos);
+        const size_type offset = std::distance(cbegin(), pos);
+        const size_type old_size = size();
 
-        while (first != last)
+        if (offset < old_size - offset)
         {
-            pos = insert(pos, *first);
-            ++pos;
-            ++first;
+            while (first != last)
+            {
+                emplace_front(*first);
+                ++first;
+            }
+
+            const size_type n = size() - old_size;
+
+            std::rotate(nth(0), nth(n), nth(n + offset));
+            std::reverse(nth(offset), nth(offset + n));
+        }
+        else
+        {
+            while (first != last)
+            {
+                emplace_back(*first);
+                ++first;
+            }
+
+            std::rotate(nth(offset), nth(old_size), end());
         }
 
-        return begin() + offset;
+        return nth(offset);
     }
 
     template <typename ForwardIt,
diff --git a/include/sfl/segmented_devector.hpp b/include/sfl/segmented_devector.hpp
index b94ec02..55a4176 100644
--- a/include/sfl/segmented_devector.hpp
+++ b/include/sfl/segmented_devector.hpp
@@ -23,7 +23,7 @@
 
 #include "private.hpp"
 
-#include <algorithm>        // copy, move, swap, swap_ranges
+#include <algorithm>        // copy, move, reverse, rotate, swap, swap_ranges
 #include <cstddef>          // size_t
 #include <initializer_list> // initializer_list
 #include <iterator>         // distance, next, reverse_iterator
@@ -2319,12 +2319,30 @@ private:
     iterator insert_range(const_iterator pos, InputIt first, InputIt last)
     {
         const size_type offset = std::distance(cbegin(), pos);
+        const size_type old_size = size();
 
-        while (first != last)
+        if (offset < old_size - offset)
         {
-            pos = insert(pos, *first);
-            ++pos;
-            ++first;
+            while (first != last)
+            {
+                emplace_front(*first);
+                ++first;
+            }
+
+            const size_type n = size() - old_size;
+
+            std::rotate(nth(0), nth(n), nth(n + offset));
+            std::reverse(nth(offset), nth(offset + n));
+        }
+        else
+        {
+            while (first != last)
+            {
+                emplace_back(*first);
+                ++first;
+            }
+
+            std::rotate(nth(offset), nth(old_size), end());
         }
 
         return nth(offset);
diff --git a/include/sfl/segmented_vector.hpp b/include/sfl/segmented_vector.hpp
index 90d0854..f31fe3d 100644
--- a/include/sfl/segmented_vector.hpp
+++ b/include/sfl/segmented_vector.hpp
@@ -23,7 +23,7 @@
 
 #include "private.hpp"
 
-#include <algorithm>        // copy, move, swap, swap_ranges
+#include <algorithm>        // copy, move, rotate, swap, swap_ranges
 #include <cstddef>          // size_t
 #include <initializer_list> // initializer_list
 #include <iterator>         // distance, next, reverse_iterator
@@ -1615,14 +1615,16 @@ private:
     iterator insert_range(const_iterator pos, InputIt first, InputIt last)
     {
         const size_type offset = std::distance(cbegin(), pos);
+        const size_type old_size = size();
 
         while (first != last)
         {
-            pos = insert(pos, *first);
-            ++pos;
+            emplace_back(*first);
             ++first;
         }
 
+        std::rotate(nth(offset), nth(old_size), end());
+
         return nth(offset);
     }
 
diff --git a/include/sfl/small_vector.hpp b/include/sfl/small_vector.hpp
index 9b4d55e..f63df81 100644
--- a/include/sfl/small_vector.hpp
+++ b/include/sfl/small_vector.hpp
@@ -23,7 +23,7 @@
 
 #include "private.hpp"
 
-#include <algorithm>        // copy, move, swap, swap_ranges
+#include <algorithm>        // copy, move, rotate, swap, swap_ranges
 #include <cstddef>          // size_t
 #include <initializer_list> // initializer_list
 #include <iterator>         // distance, next, reverse_iterator
@@ -2247,16 +2247,18 @@ private:
               sfl::dtl::enable_if_t<sfl::dtl::is_exactly_input_iterator<InputIt>::value>* = nullptr>
     iterator insert_range(const_iterator pos, InputIt first, InputIt last)
     {
-        const difference_type offset = std::distance(cbegin(), pos);
+        const size_type offset = std::distance(cbegin(), pos);
+        const size_type old_size = size();
 
         while (first != last)
         {
-            pos = insert(pos, *first);
-            ++pos;
+            emplace_back(*first);
             ++first;
         }
 
-        return begin() + offset;
+        std::rotate(nth(offset), nth(old_size), end());
+
+        return nth(offset);
     }
 
     template <typename ForwardIt,
diff --git a/include/sfl/static_vector.hpp b/include/sfl/static_vector.hpp
index c993413..9b1374f 100644
--- a/include/sfl/static_vector.hpp
+++ b/include/sfl/static_vector.hpp
@@ -23,7 +23,7 @@
 
 #include "private.hpp"
 
-#include <algorithm>        // copy, move, swap, swap_ranges
+#include <algorithm>        // copy, move, rotate, swap, swap_ranges
 #include <cstddef>          // size_t
 #include <initializer_list> // initializer_list
 #include <iterator>         // distance, next, reverse_iterator
@@ -704,16 +704,20 @@ public:
               sfl::dtl::enable_if_t<sfl::dtl::is_exactly_input_iterator<InputIt>::value>* = nullptr>
     iterator insert(const_iterator pos, InputIt first, InputIt last)
     {
-        const difference_type offset = std::distance(cbegin(), pos);
+        SFL_ASSERT(cbegin() <= pos && pos <= cend());
+
+        const size_type offset = std::distance(cbegin(), pos);
+        const size_type old_size = size();
 
         while (first != last)
         {
-            pos = emplace(pos, *first);
-            ++pos;
+            emplace_back(*first);
             ++first;
         }
 
-        return begin() + offset;
+        std::rotate(nth(offset), nth(old_size), end());
+
+        return nth(offset);
     }
 
     template <typename ForwardIt,
diff --git a/include/sfl/vector.hpp b/include/sfl/vector.hpp
index 19cfd0b..dca6fd7 100644
--- a/include/sfl/vector.hpp
+++ b/include/sfl/vector.hpp
@@ -23,7 +23,7 @@
 
 #include "private.hpp"
 
-#include <algorithm>        // copy, move, swap, swap_ranges
+#include <algorithm>        // copy, move, rotate, swap, swap_ranges
 #include <initializer_list> // initializer_list
 #include <iterator>         // distance, next, reverse_iterator
 #include <limits>           // numeric_limits
@@ -1809,16 +1809,18 @@ private:
               sfl::dtl::enable_if_t<sfl::dtl::is_exactly_input_iterator<InputIt>::value>* = nullptr>
     iterator insert_range(const_iterator pos, InputIt first, InputIt last)
     {
-        const difference_type offset = std::distance(cbegin(), pos);
+        const size_type offset = std::distance(cbegin(), pos);
+        const size_type old_size = size();
 
         while (first != last)
         {
-            pos = insert(pos, *first);
-            ++pos;
+            emplace_back(*first);
             ++first;
         }
 
-        return begin() + offset;
+        std::rotate(nth(offset), nth(old_size), end());
+
+        return nth(offset);
     }
 
     template <typename ForwardIt,
-- 
2.43.0

