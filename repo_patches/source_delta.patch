From d98eba85567dea0cfa282d6ef78d2295c20a31b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:38 +0000
Subject: [PATCH 1/6] fix: move_before_segment(count) lands count before the
 previous segment's last element

---
 include/boost/segmented_tree/seq.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/boost/segmented_tree/seq.hpp b/include/boost/segmented_tree/seq.hpp
index 06ea217..86dabbc 100644
--- a/include/boost/segmented_tree/seq.hpp
+++ b/include/boost/segmented_tree/seq.hpp
@@ -695,8 +695,8 @@ struct static_traits_t {
   }
 
   static void move_before_segment_count(iterator_data& it, size_type count) {
-    it.pos -= it.entry.segment.index + 1 - count;
-    move_prev_leaf_count(it.entry, count);
+    it.pos -= it.entry.segment.index + 1 + count;
+    move_prev_leaf_count(it.entry, count + 1);
   }
 };
 }
-- 
2.43.0


From 3a939b231111cdc6d1809216d92c38cb5bcfef33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:38 +0000
Subject: [PATCH 2/6] fix: do not deallocate a null segment when an empty
 sequence is purged

---
 include/boost/segmented_tree/seq.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/boost/segmented_tree/seq.hpp b/include/boost/segmented_tree/seq.hpp
index 86dabbc..e7e23f2 100644
--- a/include/boost/segmented_tree/seq.hpp
+++ b/include/boost/segmented_tree/seq.hpp
@@ -1263,6 +1263,7 @@ class seq {
   }
 
   void purge_root(void_pointer pointer, size_type sz, size_type ht) {
+    if (ht == 0) return;
     if (ht < 2)
       purge_segment(static_traits::cast_segment(pointer), sz);
     else
-- 
2.43.0


From 3b55d353fc7c0e17897814b2ae0be9e899fd2d38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:38 +0000
Subject: [PATCH 3/6] fix: splice of one element moves it instead of copying it

---
 include/boost/segmented_tree/seq.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/boost/segmented_tree/seq.hpp b/include/boost/segmented_tree/seq.hpp
index e7e23f2..353e721 100644
--- a/include/boost/segmented_tree/seq.hpp
+++ b/include/boost/segmented_tree/seq.hpp
@@ -3501,7 +3501,7 @@ class seq {
   /// \par Exception safety
   ///   Basic.
   void splice(const_iterator pos, seq& other, const_iterator it) {
-    insert(pos, std::move(*it));
+    insert(pos, std::move(*iterator{it.it_}));
     other.erase(it);
   }
 
-- 
2.43.0


From 651111af66c422650253739ace3da7bf4b1db86b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:28 +0000
Subject: [PATCH 4/6] fix: remove(value) with a value that is an element of the
 sequence

---
 include/boost/segmented_tree/seq.hpp | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/include/boost/segmented_tree/seq.hpp b/include/boost/segmented_tree/seq.hpp
index 353e721..b6f32f9 100644
--- a/include/boost/segmented_tree/seq.hpp
+++ b/include/boost/segmented_tree/seq.hpp
@@ -2213,6 +2213,18 @@ class seq {
     }
   }
 
+  // The value to remove may be an element of this sequence.
+  template <typename = void>
+  void remove_value(T const& value, std::true_type) {
+    T const copy(value);
+    erase(std::remove(begin(), end(), copy), end());
+  }
+
+  template <typename = void>
+  void remove_value(T const& value, std::false_type) {
+    erase(std::remove(begin(), end(), value), end());
+  }
+
   template <typename... Args>
   void resize_count(size_type count, Args&&... args) {
     auto sz = size();
@@ -3570,7 +3582,7 @@ class seq {
   /// \par Exception safety
   ///   Basic.
   void remove(const T& value) {
-    erase(std::remove(begin(), end(), value), end());
+    remove_value(value, std::is_copy_constructible<T>{});
   }
 
   /// \par Effects
-- 
2.43.0


From d221229faa3772c5e28096bf27cff2d406f90ec4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:28 +0000
Subject: [PATCH 5/6] fix: counted insert and resize with a value that is an
 element of the sequence

---
 include/boost/segmented_tree/seq.hpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/boost/segmented_tree/seq.hpp b/include/boost/segmented_tree/seq.hpp
index b6f32f9..50e6acf 100644
--- a/include/boost/segmented_tree/seq.hpp
+++ b/include/boost/segmented_tree/seq.hpp
@@ -3133,7 +3133,9 @@ class seq {
   /// \par Exception safety
   ///   Basic.
   iterator insert(const_iterator pos, size_type count, T const& value) {
-    return emplace_count(pos.it_, count, value);
+    // value may refer to an element of this sequence.
+    T const copy(value);
+    return emplace_count(pos.it_, count, copy);
   }
 
   /// \par Effects
@@ -3372,7 +3374,9 @@ class seq {
   /// \par Exception safety
   ///   Basic.
   void resize(size_type count, value_type const& value) {
-    resize_count(count, value);
+    // value may refer to an element of this sequence.
+    value_type const copy(value);
+    resize_count(count, copy);
   }
 
   /// \par Effects
-- 
2.43.0


From 62f79e086d3d6549392c16e6342b24e62633977c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:38 +0000
Subject: [PATCH 6/6] fix: resize(count) restores the previous size when an
 element or allocation throws (documented strong guarantee)

---
 include/boost/segmented_tree/seq.hpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/include/boost/segmented_tree/seq.hpp b/include/boost/segmented_tree/seq.hpp
index 50e6acf..1cf558e 100644
--- a/include/boost/segmented_tree/seq.hpp
+++ b/include/boost/segmented_tree/seq.hpp
@@ -3358,7 +3358,15 @@ class seq {
   ///
   /// \par Exception safety
   ///   Strong.
-  void resize(size_type count) { resize_count(count); }
+  void resize(size_type count) {
+    auto sz = size();
+    try {
+      resize_count(count);
+    } catch (...) {
+      erase_range(nth(sz).it_, find_end());
+      throw;
+    }
+  }
 
   /// \par Effects
   ///   Resizes the seqeuence to the specified size, copy constructing any
-- 
2.43.0

