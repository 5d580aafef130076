From 8e0f1904873cd40e06eff04fc25837ed5d46fb13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:38 +0000
Subject: [PATCH 01/23] fix: construct the requested type in polymorphic_cxx14
 allocator-extended initializer-list constructor

The constructor created a T instead of the requested U, slicing the object.
---
 polymorphic_cxx14.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/polymorphic_cxx14.h b/polymorphic_cxx14.h
index 0849204..08a0964 100644
--- a/polymorphic_cxx14.h
+++ b/polymorphic_cxx14.h
@@ -237,7 +237,7 @@ class polymorphic : private detail::empty_base_optimization<A> {
   polymorphic(std::allocator_arg_t, const A& alloc, in_place_type_t<U>,
               std::initializer_list<I> ilist, Ts&&... ts)
       : alloc_base(alloc) {
-    cb_ = create_control_block<T>(ilist, std::forward<Ts>(ts)...);
+    cb_ = create_control_block<U>(ilist, std::forward<Ts>(ts)...);
   }
 
   template <
-- 
2.43.0


From b2cda698efb430d18679119068e7a3dafc1cdfd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:56 +0000
Subject: [PATCH 02/23] fix: only take ownership across equal allocators in
 polymorphic_cxx14 allocator-extended move constructor

The shortcut tested propagate_on_container_copy_assignment rather than
is_always_equal, so an object could be adopted by an unequal allocator.
---
 polymorphic_cxx14.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/polymorphic_cxx14.h b/polymorphic_cxx14.h
index 08a0964..73afc47 100644
--- a/polymorphic_cxx14.h
+++ b/polymorphic_cxx14.h
@@ -333,7 +333,7 @@ class polymorphic : private detail::empty_base_optimization<A> {
       std::allocator_arg_t, const A& alloc,
       polymorphic&& other) noexcept(allocator_traits::is_always_equal::value)
       : alloc_base(alloc) {
-    if (allocator_traits::propagate_on_container_copy_assignment::value) {
+    if (allocator_traits::is_always_equal::value) {
       cb_ = other.cb_;
       other.cb_ = nullptr;
     } else {
-- 
2.43.0


From 3ed015dd800edc402d648d93dce8e6a3efd1dd78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:03 +0000
Subject: [PATCH 03/23] fix: copy the owned object through a reference to const

Copying a polymorphic, and copy assigning an indirect, passed the source's
owned object as a non-const lvalue, so that a constructor taking U& or a
forwarding constructor was selected and could modify the source of the copy.
---
 indirect.h          | 2 +-
 indirect_cxx14.h    | 3 +--
 polymorphic.h       | 3 ++-
 polymorphic_cxx14.h | 3 ++-
 4 files changed, 6 insertions(+), 5 deletions(-)

diff --git a/indirect.h b/indirect.h
index 7869cc4..43ea0cc 100644
--- a/indirect.h
+++ b/indirect.h
@@ -246,7 +246,7 @@ class indirect {
         // Constructing a new object could throw so we need to defer resetting
         // or updating allocators until this is done.
         auto tmp =
-            construct_from(update_alloc ? other.alloc_ : alloc_, *other.p_);
+            construct_from(update_alloc ? other.alloc_ : alloc_, *other);
         reset();
         p_ = tmp;
       }
diff --git a/indirect_cxx14.h b/indirect_cxx14.h
index c45aeb7..3cb31aa 100644
--- a/indirect_cxx14.h
+++ b/indirect_cxx14.h
@@ -255,8 +255,7 @@ class indirect : private detail::empty_base_optimization<A> {
         // Constructing a new object could throw so we need to defer resetting
         // or updating allocators until this is done.
         auto tmp = construct_from(
-            update_alloc ? other.alloc_base::get() : alloc_base::get(),
-            *other.p_);
+            update_alloc ? other.alloc_base::get() : alloc_base::get(), *other);
         reset();
         p_ = tmp;
       }
diff --git a/polymorphic.h b/polymorphic.h
index a32be6d..9937f7f 100644
--- a/polymorphic.h
+++ b/polymorphic.h
@@ -86,7 +86,8 @@ class polymorphic {
       cb_allocator cb_alloc(alloc);
       auto mem = cb_alloc_traits::allocate(cb_alloc, 1);
       try {
-        cb_alloc_traits::construct(cb_alloc, mem, alloc, storage_.u_);
+        cb_alloc_traits::construct(cb_alloc, mem, alloc,
+                                   static_cast<const U&>(storage_.u_));
         return mem;
       } catch (...) {
         cb_alloc_traits::deallocate(cb_alloc, mem, 1);
diff --git a/polymorphic_cxx14.h b/polymorphic_cxx14.h
index 73afc47..dc1fe7d 100644
--- a/polymorphic_cxx14.h
+++ b/polymorphic_cxx14.h
@@ -141,7 +141,8 @@ class polymorphic : private detail::empty_base_optimization<A> {
       cb_allocator cb_alloc(alloc);
       auto mem = cb_alloc_traits::allocate(cb_alloc, 1);
       try {
-        cb_alloc_traits::construct(cb_alloc, mem, alloc, storage_.u_);
+        cb_alloc_traits::construct(cb_alloc, mem, alloc,
+                                   static_cast<const U&>(storage_.u_));
         return mem;
       } catch (...) {
         cb_alloc_traits::deallocate(cb_alloc, mem, 1);
-- 
2.43.0


From bebbfdd6e8d240224060daf1d7c5e36632b7aabe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:29 +0000
Subject: [PATCH 04/23] fix: do not require non-propagating allocators to be
 assignable or swappable

Copy and move assignment, and swap with the C++14 headers, did not compile
with allocators such as std::pmr::polymorphic_allocator.
---
 indirect.h          | 11 +++++------
 indirect_cxx14.h    | 37 ++++++++++++++++++++++++++-----------
 polymorphic.h       |  8 ++++----
 polymorphic_cxx14.h | 32 +++++++++++++++++++++++---------
 4 files changed, 58 insertions(+), 30 deletions(-)

diff --git a/indirect.h b/indirect.h
index 43ea0cc..8343c56 100644
--- a/indirect.h
+++ b/indirect.h
@@ -233,7 +233,7 @@ class indirect {
     // Check to see if the allocators need to be updated.
     // We defer actually updating the allocator until later because it may be
     // needed to delete the current control block.
-    bool update_alloc =
+    constexpr bool update_alloc =
         allocator_traits::propagate_on_container_copy_assignment::value;
 
     if (other.valueless_after_move()) {
@@ -245,13 +245,12 @@ class indirect {
       } else {
         // Constructing a new object could throw so we need to defer resetting
         // or updating allocators until this is done.
-        auto tmp =
-            construct_from(update_alloc ? other.alloc_ : alloc_, *other);
+        auto tmp = construct_from(update_alloc ? other.alloc_ : alloc_, *other);
         reset();
         p_ = tmp;
       }
     }
-    if (update_alloc) {
+    if constexpr (update_alloc) {
       alloc_ = other.alloc_;
     }
     return *this;
@@ -267,7 +266,7 @@ class indirect {
     // Check to see if the allocators need to be updated.
     // We defer actually updating the allocator until later because it may be
     // needed to delete the current control block.
-    bool update_alloc =
+    constexpr bool update_alloc =
         allocator_traits::propagate_on_container_move_assignment::value;
 
     if (other.valueless_after_move()) {
@@ -285,7 +284,7 @@ class indirect {
         p_ = tmp;
       }
     }
-    if (update_alloc) {
+    if constexpr (update_alloc) {
       alloc_ = other.alloc_;
     }
     return *this;
diff --git a/indirect_cxx14.h b/indirect_cxx14.h
index 3cb31aa..535ec7d 100644
--- a/indirect_cxx14.h
+++ b/indirect_cxx14.h
@@ -242,7 +242,7 @@ class indirect : private detail::empty_base_optimization<A> {
     // Check to see if the allocators need to be updated.
     // We defer actually updating the allocator until later because it may be
     // needed to delete the current control block.
-    bool update_alloc =
+    constexpr bool update_alloc =
         allocator_traits::propagate_on_container_copy_assignment::value;
 
     if (other.valueless_after_move()) {
@@ -260,9 +260,8 @@ class indirect : private detail::empty_base_optimization<A> {
         p_ = tmp;
       }
     }
-    if (update_alloc) {
-      alloc_base::get() = other.alloc_base::get();
-    }
+    update_allocator(other.alloc_base::get(),
+                     std::integral_constant<bool, update_alloc>{});
     return *this;
   }
 
@@ -274,7 +273,7 @@ class indirect : private detail::empty_base_optimization<A> {
     // Check to see if the allocators need to be updated.
     // We defer actually updating the allocator until later because it may be
     // needed to delete the current control block.
-    bool update_alloc =
+    constexpr bool update_alloc =
         allocator_traits::propagate_on_container_move_assignment::value;
 
     if (other.valueless_after_move()) {
@@ -293,9 +292,8 @@ class indirect : private detail::empty_base_optimization<A> {
         p_ = tmp;
       }
     }
-    if (update_alloc) {
-      alloc_base::get() = other.alloc_base::get();
-    }
+    update_allocator(other.alloc_base::get(),
+                     std::integral_constant<bool, update_alloc>{});
     return *this;
   }
 
@@ -354,7 +352,10 @@ class indirect : private detail::empty_base_optimization<A> {
       std::allocator_traits<A>::is_always_equal::value) {
     if (allocator_traits::propagate_on_container_swap::value) {
       // If allocators move with their allocated objects we can swap both.
-      std::swap(alloc_base::get(), other.alloc_base::get());
+      swap_allocator(
+          other,
+          std::integral_constant<
+              bool, allocator_traits::propagate_on_container_swap::value>{});
       std::swap(p_, other.p_);
       return;
     } else /*  */ {
@@ -543,6 +544,19 @@ class indirect : private detail::empty_base_optimization<A> {
   }
 
  private:
+  // Allocators need only be assignable or swappable if they propagate.
+  void update_allocator(const A& alloc, std::true_type) {
+    alloc_base::get() = alloc;
+  }
+
+  void update_allocator(const A&, std::false_type) {}
+
+  void swap_allocator(indirect& other, std::true_type) {
+    std::swap(alloc_base::get(), other.alloc_base::get());
+  }
+
+  void swap_allocator(indirect&, std::false_type) {}
+
   pointer p_;
 
   void reset() noexcept {
@@ -574,8 +588,9 @@ template <typename Value>
 indirect(Value) -> indirect<Value>;
 
 template <typename Alloc, typename Value>
-indirect(std::allocator_arg_t, Alloc, Value) -> indirect<
-    Value, typename std::allocator_traits<Alloc>::template rebind_alloc<Value>>;
+indirect(std::allocator_arg_t, Alloc, Value)
+    -> indirect<Value, typename std::allocator_traits<
+                           Alloc>::template rebind_alloc<Value>>;
 #endif  // XYZ_HAS_TEMPLATE_ARGUMENT_DEDUCTION
 
 }  // namespace xyz
diff --git a/polymorphic.h b/polymorphic.h
index 9937f7f..cdbccd3 100644
--- a/polymorphic.h
+++ b/polymorphic.h
@@ -283,7 +283,7 @@ class polymorphic {
     // Check to see if the allocators need to be updated.
     // We defer actually updating the allocator until later because it may be
     // needed to delete the current control block.
-    bool update_alloc =
+    constexpr bool update_alloc =
         allocator_traits::propagate_on_container_copy_assignment::value;
 
     if (other.valueless_after_move()) {
@@ -297,7 +297,7 @@ class polymorphic {
       reset();
       cb_ = tmp;
     }
-    if (update_alloc) {
+    if constexpr (update_alloc) {
       alloc_ = other.alloc_;
     }
     return *this;
@@ -311,7 +311,7 @@ class polymorphic {
     // Check to see if the allocators need to be updated.
     // We defer actually updating the allocator until later because it may be
     // needed to delete the current control block.
-    bool update_alloc =
+    constexpr bool update_alloc =
         allocator_traits::propagate_on_container_move_assignment::value;
 
     if (other.valueless_after_move()) {
@@ -331,7 +331,7 @@ class polymorphic {
       }
     }
 
-    if (update_alloc) {
+    if constexpr (update_alloc) {
       alloc_ = other.alloc_;
     }
     return *this;
diff --git a/polymorphic_cxx14.h b/polymorphic_cxx14.h
index dc1fe7d..df0c1ad 100644
--- a/polymorphic_cxx14.h
+++ b/polymorphic_cxx14.h
@@ -363,7 +363,7 @@ class polymorphic : private detail::empty_base_optimization<A> {
     // Check to see if the allocators need to be updated.
     // We defer actually updating the allocator until later because it may be
     // needed to delete the current control block.
-    bool update_alloc =
+    constexpr bool update_alloc =
         allocator_traits::propagate_on_container_copy_assignment::value;
 
     if (other.valueless_after_move()) {
@@ -376,9 +376,8 @@ class polymorphic : private detail::empty_base_optimization<A> {
       reset();
       cb_ = tmp;
     }
-    if (update_alloc) {
-      alloc_base::get() = other.alloc_base::get();
-    }
+    update_allocator(other.alloc_base::get(),
+                     std::integral_constant<bool, update_alloc>{});
     return *this;
   }
 
@@ -390,7 +389,7 @@ class polymorphic : private detail::empty_base_optimization<A> {
     // Check to see if the allocators need to be updated.
     // We defer actually updating the allocator until later because it may be
     // needed to delete the current control block.
-    bool update_alloc =
+    constexpr bool update_alloc =
         allocator_traits::propagate_on_container_move_assignment::value;
 
     if (other.valueless_after_move()) {
@@ -409,9 +408,8 @@ class polymorphic : private detail::empty_base_optimization<A> {
       }
     }
 
-    if (update_alloc) {
-      alloc_base::get() = other.alloc_base::get();
-    }
+    update_allocator(other.alloc_base::get(),
+                     std::integral_constant<bool, update_alloc>{});
     return *this;
   }
 
@@ -446,7 +444,10 @@ class polymorphic : private detail::empty_base_optimization<A> {
       std::allocator_traits<A>::is_always_equal::value) {
     if (allocator_traits::propagate_on_container_swap::value) {
       // If allocators move with their allocated objects we can swap both.
-      std::swap(alloc_base::get(), other.alloc_base::get());
+      swap_allocator(
+          other,
+          std::integral_constant<
+              bool, allocator_traits::propagate_on_container_swap::value>{});
       std::swap(cb_, other.cb_);
       return;
     } else /*  */ {
@@ -464,6 +465,19 @@ class polymorphic : private detail::empty_base_optimization<A> {
   }
 
  private:
+  // Allocators need only be assignable or swappable if they propagate.
+  void update_allocator(const A& alloc, std::true_type) {
+    alloc_base::get() = alloc;
+  }
+
+  void update_allocator(const A&, std::false_type) {}
+
+  void swap_allocator(polymorphic& other, std::true_type) {
+    std::swap(alloc_base::get(), other.alloc_base::get());
+  }
+
+  void swap_allocator(polymorphic&, std::false_type) {}
+
   void reset() noexcept {
     if (cb_ != nullptr) {
       cb_->destroy(alloc_base::get());
-- 
2.43.0


From 705568e759237a07b6dcf223eae09d1c06c0b164 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:12 +0000
Subject: [PATCH 05/23] fix: assign from a sub-object of the owned object

Assigning from an indirect or polymorphic held inside the object owned by the
target, such as `list = std::move(list->next)`, recursed without end or
destroyed the owned object twice, and read the allocator of the already
destroyed source.
---
 indirect.h          | 19 +++++++++++++------
 indirect_cxx14.h    | 25 +++++++++++++++----------
 polymorphic.h       | 21 ++++++++++++++-------
 polymorphic_cxx14.h | 27 ++++++++++++++++-----------
 4 files changed, 58 insertions(+), 34 deletions(-)

diff --git a/indirect.h b/indirect.h
index 8343c56..6231d33 100644
--- a/indirect.h
+++ b/indirect.h
@@ -235,6 +235,9 @@ class indirect {
     // needed to delete the current control block.
     constexpr bool update_alloc =
         allocator_traits::propagate_on_container_copy_assignment::value;
+    // `other` may be a sub-object of the owned object, in which case it does
+    // not outlive it.
+    const A other_alloc(other.alloc_);
 
     if (other.valueless_after_move()) {
       reset();
@@ -245,13 +248,13 @@ class indirect {
       } else {
         // Constructing a new object could throw so we need to defer resetting
         // or updating allocators until this is done.
-        auto tmp = construct_from(update_alloc ? other.alloc_ : alloc_, *other);
+        auto tmp = construct_from(update_alloc ? other_alloc : alloc_, *other);
         reset();
         p_ = tmp;
       }
     }
     if constexpr (update_alloc) {
-      alloc_ = other.alloc_;
+      alloc_ = other_alloc;
     }
     return *this;
   }
@@ -268,6 +271,9 @@ class indirect {
     // needed to delete the current control block.
     constexpr bool update_alloc =
         allocator_traits::propagate_on_container_move_assignment::value;
+    // `other` may be a sub-object of the owned object, in which case it does
+    // not outlive it.
+    const A other_alloc(other.alloc_);
 
     if (other.valueless_after_move()) {
       reset();
@@ -278,14 +284,14 @@ class indirect {
       } else {
         // Constructing a new object could throw so we need to defer resetting
         // or updating allocators until this is done.
-        auto tmp = construct_from(update_alloc ? other.alloc_ : alloc_,
+        auto tmp = construct_from(update_alloc ? other_alloc : alloc_,
                                   std::move(*other.p_));
         reset();
         p_ = tmp;
       }
     }
     if constexpr (update_alloc) {
-      alloc_ = other.alloc_;
+      alloc_ = other_alloc;
     }
     return *this;
   }
@@ -435,8 +441,9 @@ class indirect {
 
   constexpr void reset() noexcept {
     if (p_ == nullptr) return;
-    destroy_with(alloc_, p_);
-    p_ = nullptr;
+    // The owned object may hold a reference back to this object so it's
+    // detached before it is destroyed.
+    destroy_with(alloc_, std::exchange(p_, nullptr));
   }
 
   template <typename... Ts>
diff --git a/indirect_cxx14.h b/indirect_cxx14.h
index 535ec7d..e28800a 100644
--- a/indirect_cxx14.h
+++ b/indirect_cxx14.h
@@ -244,6 +244,9 @@ class indirect : private detail::empty_base_optimization<A> {
     // needed to delete the current control block.
     constexpr bool update_alloc =
         allocator_traits::propagate_on_container_copy_assignment::value;
+    // `other` may be a sub-object of the owned object, in which case it does
+    // not outlive it.
+    const A other_alloc(other.alloc_base::get());
 
     if (other.valueless_after_move()) {
       reset();
@@ -255,13 +258,12 @@ class indirect : private detail::empty_base_optimization<A> {
         // Constructing a new object could throw so we need to defer resetting
         // or updating allocators until this is done.
         auto tmp = construct_from(
-            update_alloc ? other.alloc_base::get() : alloc_base::get(), *other);
+            update_alloc ? other_alloc : alloc_base::get(), *other);
         reset();
         p_ = tmp;
       }
     }
-    update_allocator(other.alloc_base::get(),
-                     std::integral_constant<bool, update_alloc>{});
+    update_allocator(other_alloc, std::integral_constant<bool, update_alloc>{});
     return *this;
   }
 
@@ -275,6 +277,9 @@ class indirect : private detail::empty_base_optimization<A> {
     // needed to delete the current control block.
     constexpr bool update_alloc =
         allocator_traits::propagate_on_container_move_assignment::value;
+    // `other` may be a sub-object of the owned object, in which case it does
+    // not outlive it.
+    const A other_alloc(other.alloc_base::get());
 
     if (other.valueless_after_move()) {
       reset();
@@ -285,15 +290,14 @@ class indirect : private detail::empty_base_optimization<A> {
       } else {
         // Constructing a new object could throw so we need to defer resetting
         // or updating allocators until this is done.
-        auto tmp = construct_from(
-            update_alloc ? other.alloc_base::get() : alloc_base::get(),
-            std::move(*other.p_));
+        auto tmp =
+            construct_from(update_alloc ? other_alloc : alloc_base::get(),
+                           std::move(*other.p_));
         reset();
         p_ = tmp;
       }
     }
-    update_allocator(other.alloc_base::get(),
-                     std::integral_constant<bool, update_alloc>{});
+    update_allocator(other_alloc, std::integral_constant<bool, update_alloc>{});
     return *this;
   }
 
@@ -561,8 +565,9 @@ class indirect : private detail::empty_base_optimization<A> {
 
   void reset() noexcept {
     if (p_ == nullptr) return;
-    destroy_with(alloc_base::get(), p_);
-    p_ = nullptr;
+    // The owned object may hold a reference back to this object so it's
+    // detached before it is destroyed.
+    destroy_with(alloc_base::get(), std::exchange(p_, nullptr));
   }
 
   template <typename... Ts>
diff --git a/polymorphic.h b/polymorphic.h
index cdbccd3..82467b3 100644
--- a/polymorphic.h
+++ b/polymorphic.h
@@ -285,6 +285,9 @@ class polymorphic {
     // needed to delete the current control block.
     constexpr bool update_alloc =
         allocator_traits::propagate_on_container_copy_assignment::value;
+    // `other` may be a sub-object of the owned object, in which case it does
+    // not outlive it.
+    const A other_alloc(other.alloc_);
 
     if (other.valueless_after_move()) {
       reset();
@@ -293,12 +296,12 @@ class polymorphic {
       // resetting or updating allocators until this is done.
 
       // Inlining the allocator into the construct_from call confuses LCOV.
-      auto tmp = other.cb_->clone(update_alloc ? other.alloc_ : alloc_);
+      auto tmp = other.cb_->clone(update_alloc ? other_alloc : alloc_);
       reset();
       cb_ = tmp;
     }
     if constexpr (update_alloc) {
-      alloc_ = other.alloc_;
+      alloc_ = other_alloc;
     }
     return *this;
   }
@@ -313,6 +316,9 @@ class polymorphic {
     // needed to delete the current control block.
     constexpr bool update_alloc =
         allocator_traits::propagate_on_container_move_assignment::value;
+    // `other` may be a sub-object of the owned object, in which case it does
+    // not outlive it.
+    const A other_alloc(other.alloc_);
 
     if (other.valueless_after_move()) {
       reset();
@@ -325,14 +331,14 @@ class polymorphic {
         // resetting or updating allocators until this is done.
 
         // Inlining the allocator into the construct_from call confuses LCOV.
-        auto tmp = other.cb_->move(update_alloc ? other.alloc_ : alloc_);
+        auto tmp = other.cb_->move(update_alloc ? other_alloc : alloc_);
         reset();
         cb_ = tmp;
       }
     }
 
     if constexpr (update_alloc) {
-      alloc_ = other.alloc_;
+      alloc_ = other_alloc;
     }
     return *this;
   }
@@ -395,9 +401,10 @@ class polymorphic {
 
  private:
   constexpr void reset() noexcept {
-    if (cb_ != nullptr) {
-      cb_->destroy(alloc_);
-      cb_ = nullptr;
+    // The owned object may hold a reference back to this object so it's
+    // detached before it is destroyed.
+    if (control_block* cb = std::exchange(cb_, nullptr)) {
+      cb->destroy(alloc_);
     }
   }
 };
diff --git a/polymorphic_cxx14.h b/polymorphic_cxx14.h
index df0c1ad..2f3b323 100644
--- a/polymorphic_cxx14.h
+++ b/polymorphic_cxx14.h
@@ -365,19 +365,21 @@ class polymorphic : private detail::empty_base_optimization<A> {
     // needed to delete the current control block.
     constexpr bool update_alloc =
         allocator_traits::propagate_on_container_copy_assignment::value;
+    // `other` may be a sub-object of the owned object, in which case it does
+    // not outlive it.
+    const A other_alloc(other.alloc_base::get());
 
     if (other.valueless_after_move()) {
       reset();
     } else {
       // Constructing a new control block could throw so we need to defer
       // resetting or updating allocators until this is done.
-      auto tmp = other.cb_->clone(update_alloc ? other.alloc_base::get()
-                                               : alloc_base::get());
+      auto tmp =
+          other.cb_->clone(update_alloc ? other_alloc : alloc_base::get());
       reset();
       cb_ = tmp;
     }
-    update_allocator(other.alloc_base::get(),
-                     std::integral_constant<bool, update_alloc>{});
+    update_allocator(other_alloc, std::integral_constant<bool, update_alloc>{});
     return *this;
   }
 
@@ -391,6 +393,9 @@ class polymorphic : private detail::empty_base_optimization<A> {
     // needed to delete the current control block.
     constexpr bool update_alloc =
         allocator_traits::propagate_on_container_move_assignment::value;
+    // `other` may be a sub-object of the owned object, in which case it does
+    // not outlive it.
+    const A other_alloc(other.alloc_base::get());
 
     if (other.valueless_after_move()) {
       reset();
@@ -401,15 +406,14 @@ class polymorphic : private detail::empty_base_optimization<A> {
       } else {
         // Constructing a new control block could throw so we need to defer
         // resetting or updating allocators until this is done.
-        auto tmp = other.cb_->move(update_alloc ? other.alloc_base::get()
-                                                : alloc_base::get());
+        auto tmp =
+            other.cb_->move(update_alloc ? other_alloc : alloc_base::get());
         reset();
         cb_ = tmp;
       }
     }
 
-    update_allocator(other.alloc_base::get(),
-                     std::integral_constant<bool, update_alloc>{});
+    update_allocator(other_alloc, std::integral_constant<bool, update_alloc>{});
     return *this;
   }
 
@@ -479,9 +483,10 @@ class polymorphic : private detail::empty_base_optimization<A> {
   void swap_allocator(polymorphic&, std::false_type) {}
 
   void reset() noexcept {
-    if (cb_ != nullptr) {
-      cb_->destroy(alloc_base::get());
-      cb_ = nullptr;
+    // The owned object may hold a reference back to this object so it's
+    // detached before it is destroyed.
+    if (control_block* cb = std::exchange(cb_, nullptr)) {
+      cb->destroy(alloc_base::get());
     }
   }
 };
-- 
2.43.0


From 8fce3775e3e27bb535b7363076cc02e495597fd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:21 +0000
Subject: [PATCH 06/23] fix: allow polymorphic to be used with minimal
 allocators when compiled with Clang

Constructing the control block through allocator_traits::construct made Clang
evaluate is_constructible recursively and reject any allocator that does not
provide its own construct. Only the owned object needs to be constructed by the
allocator.
---
 polymorphic.h | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/polymorphic.h b/polymorphic.h
index 82467b3..d3acfcb 100644
--- a/polymorphic.h
+++ b/polymorphic.h
@@ -86,8 +86,7 @@ class polymorphic {
       cb_allocator cb_alloc(alloc);
       auto mem = cb_alloc_traits::allocate(cb_alloc, 1);
       try {
-        cb_alloc_traits::construct(cb_alloc, mem, alloc,
-                                   static_cast<const U&>(storage_.u_));
+        std::construct_at(mem, alloc, static_cast<const U&>(storage_.u_));
         return mem;
       } catch (...) {
         cb_alloc_traits::deallocate(cb_alloc, mem, 1);
@@ -99,8 +98,7 @@ class polymorphic {
       cb_allocator cb_alloc(alloc);
       auto mem = cb_alloc_traits::allocate(cb_alloc, 1);
       try {
-        cb_alloc_traits::construct(cb_alloc, mem, alloc,
-                                   std::move(storage_.u_));
+        std::construct_at(mem, alloc, std::move(storage_.u_));
         return mem;
       } catch (...) {
         cb_alloc_traits::deallocate(cb_alloc, mem, 1);
@@ -135,8 +133,7 @@ class polymorphic {
     using cb_alloc_traits = std::allocator_traits<cb_allocator>;
     auto mem = cb_alloc_traits::allocate(cb_alloc, 1);
     try {
-      cb_alloc_traits::construct(cb_alloc, mem, alloc_,
-                                 std::forward<Ts>(ts)...);
+      std::construct_at(mem, alloc_, std::forward<Ts>(ts)...);
       return mem;
     } catch (...) {
       cb_alloc_traits::deallocate(cb_alloc, mem, 1);
-- 
2.43.0


From 228f1050716d49e5751f8c5ef3f8b6c5ab964348 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:26 +0000
Subject: [PATCH 07/23] fix: exclude lvalues of the same type from
 indirect_cxx14 value assignment

Assigning from a non-const lvalue of the same type selected the forwarding
assignment when the owned type is constructible from anything (std::any).
---
 indirect_cxx14.h | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/indirect_cxx14.h b/indirect_cxx14.h
index e28800a..f243524 100644
--- a/indirect_cxx14.h
+++ b/indirect_cxx14.h
@@ -301,11 +301,13 @@ class indirect : private detail::empty_base_optimization<A> {
     return *this;
   }
 
-  template <class U, typename std::enable_if<
-                         (std::is_constructible<T, U>::value &&
-                          std::is_assignable<T&, U>::value &&
-                          !std::is_same<std::remove_cv_t<U>, indirect>::value),
-                         int>::type = 0>
+  template <class U,
+            typename std::enable_if<
+                (std::is_constructible<T, U>::value &&
+                 std::is_assignable<T&, U>::value &&
+                 !std::is_same<std::remove_cv_t<std::remove_reference_t<U>>,
+                               indirect>::value),
+                int>::type = 0>
   constexpr indirect& operator=(U&& u) {
     if (valueless_after_move()) {
       p_ = construct_from(get_allocator(), std::forward<U>(u));
-- 
2.43.0


From 96765f1db0621e69309c82bd0205629b133c6ae0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:44 +0000
Subject: [PATCH 08/23] fix: copy assign the owned object of an indirect
 whenever it is copy assignable

The C++20 header tested for assignment from an rvalue with the right return
type, so that copy assignable types with a deleted move assignment were
reallocated rather than assigned.
---
 indirect.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/indirect.h b/indirect.h
index 6231d33..a2a1efd 100644
--- a/indirect.h
+++ b/indirect.h
@@ -242,7 +242,7 @@ class indirect {
     if (other.valueless_after_move()) {
       reset();
     } else {
-      if (std::assignable_from<T&, T> && !valueless_after_move() &&
+      if (std::is_copy_assignable_v<T> && !valueless_after_move() &&
           alloc_ == other.alloc_) {
         *p_ = *other;
       } else {
-- 
2.43.0


From 50350f711b54539a4f245369127d4d4c1bc96839 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:02 +0000
Subject: [PATCH 09/23] fix: move construct an indirect without requiring its
 owned type to be movable

Move construction transfers ownership, so it places no requirements on the
owned object.
---
 indirect.h       | 2 +-
 indirect_cxx14.h | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/indirect.h b/indirect.h
index a2a1efd..8954146 100644
--- a/indirect.h
+++ b/indirect.h
@@ -136,7 +136,7 @@ class indirect {
 
   constexpr indirect(indirect&& other) noexcept(
       allocator_traits::is_always_equal::value)
-      : indirect(std::allocator_arg, other.alloc_, std::move(other)) {}
+      : p_(std::exchange(other.p_, nullptr)), alloc_(other.alloc_) {}
 
   //
   // Allocator-extended constructors.
diff --git a/indirect_cxx14.h b/indirect_cxx14.h
index f243524..14734cc 100644
--- a/indirect_cxx14.h
+++ b/indirect_cxx14.h
@@ -231,8 +231,8 @@ class indirect : private detail::empty_base_optimization<A> {
   }
 
   indirect(indirect&& other) noexcept(allocator_traits::is_always_equal::value)
-      : indirect(std::allocator_arg, other.alloc_base::get(),
-                 std::move(other)) {}
+      : alloc_base(other.alloc_base::get()),
+        p_(std::exchange(other.p_, nullptr)) {}
 
   ~indirect() { reset(); }
 
-- 
2.43.0


From d3fef256fef11b94867d12caa93b707c2674af06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:39 +0000
Subject: [PATCH 10/23] fix: accept a braced initializer for indirect
 assignment and polymorphic construction

The documented default template argument (U = T) was missing from the
forwarding assignment of indirect and single-argument constructors of
polymorphic.
---
 indirect.h    | 2 +-
 polymorphic.h | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/indirect.h b/indirect.h
index 8954146..6dab8fd 100644
--- a/indirect.h
+++ b/indirect.h
@@ -296,7 +296,7 @@ class indirect {
     return *this;
   }
 
-  template <class U>
+  template <class U = T>
   constexpr indirect& operator=(U&& u)
     requires(!std::same_as<std::remove_cvref_t<U>, indirect> &&
              std::constructible_from<T, U> && std::assignable_from<T&, U>)
diff --git a/polymorphic.h b/polymorphic.h
index d3acfcb..aaee43e 100644
--- a/polymorphic.h
+++ b/polymorphic.h
@@ -157,7 +157,7 @@ class polymorphic {
     static_assert(std::default_initializable<T> && std::copy_constructible<T>);
   }
 
-  template <class U>
+  template <class U = T>
   constexpr explicit polymorphic(U&& u)
     requires(!std::same_as<polymorphic, std::remove_cvref_t<U>>) &&
             std::copy_constructible<std::remove_cvref_t<U>> &&
@@ -205,7 +205,7 @@ class polymorphic {
     cb_ = create_control_block<T>();
   }
 
-  template <class U>
+  template <class U = T>
   constexpr explicit polymorphic(std::allocator_arg_t, const A& alloc, U&& u)
     requires(not std::same_as<polymorphic, std::remove_cvref_t<U>>) &&
             std::copy_constructible<std::remove_cvref_t<U>> &&
-- 
2.43.0


From 923ced00f60062b4c76bd70af56b2b15d30b6e88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:26 +0000
Subject: [PATCH 11/23] fix: accept every value assignable to the owned object
 in indirect assignment

---
 indirect.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/indirect.h b/indirect.h
index 6dab8fd..151b5c0 100644
--- a/indirect.h
+++ b/indirect.h
@@ -299,7 +299,7 @@ class indirect {
   template <class U = T>
   constexpr indirect& operator=(U&& u)
     requires(!std::same_as<std::remove_cvref_t<U>, indirect> &&
-             std::constructible_from<T, U> && std::assignable_from<T&, U>)
+             std::constructible_from<T, U> && std::is_assignable_v<T&, U>)
   {
     if (valueless_after_move()) {
       p_ = construct_from(alloc_, std::forward<U>(u));
-- 
2.43.0


From bfc68b97a58f355c0941accafc52225ce0c043c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:09 +0000
Subject: [PATCH 12/23] fix: let indirect_cxx14 be a member of a class while
 its owned type is incomplete

---
 indirect_cxx14.h | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/indirect_cxx14.h b/indirect_cxx14.h
index 14734cc..4008751 100644
--- a/indirect_cxx14.h
+++ b/indirect_cxx14.h
@@ -162,13 +162,17 @@ class indirect : private detail::empty_base_optimization<A> {
     p_ = construct_from(alloc_base::get(), std::forward<Us>(us)...);
   }
 
-  template <class... Us,
+  // The tag is deduced so that `T` can be incomplete when this constructor is
+  // considered for copying or moving.
+  template <class InPlace = xyz::in_place_t, class... Us,
+            typename std::enable_if<
+                std::is_same<InPlace, xyz::in_place_t>::value, int>::type = 0,
             typename std::enable_if<std::is_constructible<T, Us&&...>::value,
                                     int>::type = 0,
             class AA = A,
             typename std::enable_if<std::is_default_constructible<AA>::value,
                                     int>::type = 0>
-  explicit indirect(xyz::in_place_t, Us&&... us)
+  explicit indirect(InPlace, Us&&... us)
       : indirect(std::allocator_arg, A(), xyz::in_place_t{},
                  std::forward<Us>(us)...) {}
 
@@ -303,11 +307,12 @@ class indirect : private detail::empty_base_optimization<A> {
 
   template <class U,
             typename std::enable_if<
-                (std::is_constructible<T, U>::value &&
-                 std::is_assignable<T&, U>::value &&
-                 !std::is_same<std::remove_cv_t<std::remove_reference_t<U>>,
-                               indirect>::value),
-                int>::type = 0>
+                !std::is_same<std::remove_cv_t<std::remove_reference_t<U>>,
+                              indirect>::value,
+                int>::type = 0,
+            typename std::enable_if<(std::is_constructible<T, U>::value &&
+                                     std::is_assignable<T&, U>::value),
+                                    int>::type = 0>
   constexpr indirect& operator=(U&& u) {
     if (valueless_after_move()) {
       p_ = construct_from(get_allocator(), std::forward<U>(u));
-- 
2.43.0


From d2a15611362c46b239676db2895e87c4714fc71b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:19 +0000
Subject: [PATCH 13/23] fix: make the allocator headers self-contained

---
 tagged_allocator.h   | 9 +++++++--
 tracking_allocator.h | 3 +++
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/tagged_allocator.h b/tagged_allocator.h
index 628dc6b..541fa02 100644
--- a/tagged_allocator.h
+++ b/tagged_allocator.h
@@ -24,15 +24,20 @@ CONNECTION WITH THE SOFTWARE OR THE USE OR OTHER DEALINGS IN THE SOFTWARE.
 #ifndef XYZ_TAGGED_ALLOCATOR_H
 #define XYZ_TAGGED_ALLOCATOR_H
 
+#include <cstddef>
+#include <memory>
+#include <new>
+#include <utility>
+
 namespace xyz {
 
 template <typename T>
 struct TaggedAllocator {
   using value_type = T;
 
-  size_t tag;
+  std::size_t tag;
 
-  TaggedAllocator(size_t tag) : tag(tag) {}
+  TaggedAllocator(std::size_t tag) : tag(tag) {}
 
   template <typename U>
   TaggedAllocator(const TaggedAllocator<U>& other) : tag(other.tag) {}
diff --git a/tracking_allocator.h b/tracking_allocator.h
index 8d2aaa9..4b0dae2 100644
--- a/tracking_allocator.h
+++ b/tracking_allocator.h
@@ -21,6 +21,9 @@ CONNECTION WITH THE SOFTWARE OR THE USE OR OTHER DEALINGS IN THE SOFTWARE.
 #ifndef XYZ_TRACKING_ALLOCATOR_H_
 #define XYZ_TRACKING_ALLOCATOR_H_
 
+#include <cstddef>
+#include <memory>
+
 namespace xyz {
 
 template <typename T>
-- 
2.43.0


From 17cfe3c1c588a741c92eb05b82ebc2f566ce08e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:52 +0000
Subject: [PATCH 14/23] fix: C++14 constructors from a value need a default
 constructible allocator

---
 indirect_cxx14.h    | 5 ++++-
 polymorphic_cxx14.h | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/indirect_cxx14.h b/indirect_cxx14.h
index 4008751..6f567c6 100644
--- a/indirect_cxx14.h
+++ b/indirect_cxx14.h
@@ -150,7 +150,10 @@ class indirect : private detail::empty_base_optimization<A> {
           !std::is_same<typename std::remove_cv<
                             typename std::remove_reference<U>::type>::type,
                         xyz::in_place_t>::value,
-          int>::type = 0>
+          int>::type = 0,
+      class AA = A,
+      typename std::enable_if<std::is_default_constructible<AA>::value,
+                              int>::type = 0>
   explicit constexpr indirect(U&& u)
       : indirect(std::allocator_arg, A{}, std::forward<U>(u)) {}
 
diff --git a/polymorphic_cxx14.h b/polymorphic_cxx14.h
index 2f3b323..9384c61 100644
--- a/polymorphic_cxx14.h
+++ b/polymorphic_cxx14.h
@@ -308,7 +308,10 @@ class polymorphic : private detail::empty_base_optimization<A> {
           std::is_base_of<
               T, typename std::remove_cv<
                      typename std::remove_reference<U>::type>::type>::value,
-          int>::type = 0>
+          int>::type = 0,
+      typename AA = A,
+      typename std::enable_if<std::is_default_constructible<AA>::value,
+                              int>::type = 0>
   explicit polymorphic(U&& u)
       : polymorphic(std::allocator_arg_t{}, A{},
                     in_place_type_t<typename std::remove_cv<
-- 
2.43.0


From faf6f60b79e1d2fa02412567cea9b5288eb38d84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:20 +0000
Subject: [PATCH 15/23] fix: swap allocators by calling swap rather than
 std::swap

The allocators of handles that propagate on swap need only be swappable.
---
 indirect.h          | 3 ++-
 indirect_cxx14.h    | 3 ++-
 polymorphic.h       | 3 ++-
 polymorphic_cxx14.h | 3 ++-
 4 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/indirect.h b/indirect.h
index 151b5c0..028471f 100644
--- a/indirect.h
+++ b/indirect.h
@@ -358,7 +358,8 @@ class indirect {
       std::allocator_traits<A>::is_always_equal::value) {
     if constexpr (allocator_traits::propagate_on_container_swap::value) {
       // If allocators move with their allocated objects, we can swap both.
-      std::swap(alloc_, other.alloc_);
+      using std::swap;
+      swap(alloc_, other.alloc_);
       std::swap(p_, other.p_);
       return;
     } else /* constexpr */ {
diff --git a/indirect_cxx14.h b/indirect_cxx14.h
index 6f567c6..eefcb82 100644
--- a/indirect_cxx14.h
+++ b/indirect_cxx14.h
@@ -566,7 +566,8 @@ class indirect : private detail::empty_base_optimization<A> {
   void update_allocator(const A&, std::false_type) {}
 
   void swap_allocator(indirect& other, std::true_type) {
-    std::swap(alloc_base::get(), other.alloc_base::get());
+    using std::swap;
+    swap(alloc_base::get(), other.alloc_base::get());
   }
 
   void swap_allocator(indirect&, std::false_type) {}
diff --git a/polymorphic.h b/polymorphic.h
index aaee43e..7ebf96a 100644
--- a/polymorphic.h
+++ b/polymorphic.h
@@ -379,7 +379,8 @@ class polymorphic {
       std::allocator_traits<A>::is_always_equal::value) {
     if constexpr (allocator_traits::propagate_on_container_swap::value) {
       // If allocators move with their allocated objects, we can swap both.
-      std::swap(alloc_, other.alloc_);
+      using std::swap;
+      swap(alloc_, other.alloc_);
       std::swap(cb_, other.cb_);
       return;
     } else /* constexpr */ {
diff --git a/polymorphic_cxx14.h b/polymorphic_cxx14.h
index 9384c61..d3ce3c2 100644
--- a/polymorphic_cxx14.h
+++ b/polymorphic_cxx14.h
@@ -480,7 +480,8 @@ class polymorphic : private detail::empty_base_optimization<A> {
   void update_allocator(const A&, std::false_type) {}
 
   void swap_allocator(polymorphic& other, std::true_type) {
-    std::swap(alloc_base::get(), other.alloc_base::get());
+    using std::swap;
+    swap(alloc_base::get(), other.alloc_base::get());
   }
 
   void swap_allocator(polymorphic&, std::false_type) {}
-- 
2.43.0


From 56e216ce2564d0d19e95b0d541282cc17619fecc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:52 +0000
Subject: [PATCH 16/23] fix: move-assign allocators that propagate on move
 assignment

Such an allocator need only be move assignable.
---
 indirect.h          | 4 ++--
 indirect_cxx14.h    | 9 +++++++--
 polymorphic.h       | 4 ++--
 polymorphic_cxx14.h | 9 +++++++--
 4 files changed, 18 insertions(+), 8 deletions(-)

diff --git a/indirect.h b/indirect.h
index 028471f..2c939c1 100644
--- a/indirect.h
+++ b/indirect.h
@@ -273,7 +273,7 @@ class indirect {
         allocator_traits::propagate_on_container_move_assignment::value;
     // `other` may be a sub-object of the owned object, in which case it does
     // not outlive it.
-    const A other_alloc(other.alloc_);
+    A other_alloc(other.alloc_);
 
     if (other.valueless_after_move()) {
       reset();
@@ -291,7 +291,7 @@ class indirect {
       }
     }
     if constexpr (update_alloc) {
-      alloc_ = other_alloc;
+      alloc_ = std::move(other_alloc);
     }
     return *this;
   }
diff --git a/indirect_cxx14.h b/indirect_cxx14.h
index eefcb82..b84a9c1 100644
--- a/indirect_cxx14.h
+++ b/indirect_cxx14.h
@@ -286,7 +286,7 @@ class indirect : private detail::empty_base_optimization<A> {
         allocator_traits::propagate_on_container_move_assignment::value;
     // `other` may be a sub-object of the owned object, in which case it does
     // not outlive it.
-    const A other_alloc(other.alloc_base::get());
+    A other_alloc(other.alloc_base::get());
 
     if (other.valueless_after_move()) {
       reset();
@@ -304,7 +304,8 @@ class indirect : private detail::empty_base_optimization<A> {
         p_ = tmp;
       }
     }
-    update_allocator(other_alloc, std::integral_constant<bool, update_alloc>{});
+    update_allocator(std::move(other_alloc),
+                     std::integral_constant<bool, update_alloc>{});
     return *this;
   }
 
@@ -563,6 +564,10 @@ class indirect : private detail::empty_base_optimization<A> {
     alloc_base::get() = alloc;
   }
 
+  void update_allocator(A&& alloc, std::true_type) {
+    alloc_base::get() = std::move(alloc);
+  }
+
   void update_allocator(const A&, std::false_type) {}
 
   void swap_allocator(indirect& other, std::true_type) {
diff --git a/polymorphic.h b/polymorphic.h
index 7ebf96a..af78c5a 100644
--- a/polymorphic.h
+++ b/polymorphic.h
@@ -315,7 +315,7 @@ class polymorphic {
         allocator_traits::propagate_on_container_move_assignment::value;
     // `other` may be a sub-object of the owned object, in which case it does
     // not outlive it.
-    const A other_alloc(other.alloc_);
+    A other_alloc(other.alloc_);
 
     if (other.valueless_after_move()) {
       reset();
@@ -335,7 +335,7 @@ class polymorphic {
     }
 
     if constexpr (update_alloc) {
-      alloc_ = other_alloc;
+      alloc_ = std::move(other_alloc);
     }
     return *this;
   }
diff --git a/polymorphic_cxx14.h b/polymorphic_cxx14.h
index d3ce3c2..ff3ae85 100644
--- a/polymorphic_cxx14.h
+++ b/polymorphic_cxx14.h
@@ -398,7 +398,7 @@ class polymorphic : private detail::empty_base_optimization<A> {
         allocator_traits::propagate_on_container_move_assignment::value;
     // `other` may be a sub-object of the owned object, in which case it does
     // not outlive it.
-    const A other_alloc(other.alloc_base::get());
+    A other_alloc(other.alloc_base::get());
 
     if (other.valueless_after_move()) {
       reset();
@@ -416,7 +416,8 @@ class polymorphic : private detail::empty_base_optimization<A> {
       }
     }
 
-    update_allocator(other_alloc, std::integral_constant<bool, update_alloc>{});
+    update_allocator(std::move(other_alloc),
+                     std::integral_constant<bool, update_alloc>{});
     return *this;
   }
 
@@ -477,6 +478,10 @@ class polymorphic : private detail::empty_base_optimization<A> {
     alloc_base::get() = alloc;
   }
 
+  void update_allocator(A&& alloc, std::true_type) {
+    alloc_base::get() = std::move(alloc);
+  }
+
   void update_allocator(const A&, std::false_type) {}
 
   void swap_allocator(polymorphic& other, std::true_type) {
-- 
2.43.0


From 520a7c6a1f431094a8bce089fa7a4d515d71fc79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:35 +0000
Subject: [PATCH 17/23] fix: indirect_cxx14.h works with allocators that have
 class-type pointers

---
 indirect_cxx14.h | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/indirect_cxx14.h b/indirect_cxx14.h
index b84a9c1..77f6e51 100644
--- a/indirect_cxx14.h
+++ b/indirect_cxx14.h
@@ -587,10 +587,11 @@ class indirect : private detail::empty_base_optimization<A> {
   }
 
   template <typename... Ts>
-  [[nodiscard]] static T* construct_from(A alloc, Ts&&... ts) {
-    T* mem = allocator_traits::allocate(alloc, 1);
+  [[nodiscard]] static pointer construct_from(A alloc, Ts&&... ts) {
+    pointer mem = allocator_traits::allocate(alloc, 1);
     try {
-      allocator_traits::construct(alloc, mem, std::forward<Ts>(ts)...);
+      allocator_traits::construct(alloc, std::addressof(*mem),
+                                  std::forward<Ts>(ts)...);
       return mem;
     } catch (...) {
       allocator_traits::deallocate(alloc, mem, 1);
@@ -598,8 +599,8 @@ class indirect : private detail::empty_base_optimization<A> {
     }
   }
 
-  static void destroy_with(A alloc, T* p) {
-    allocator_traits::destroy(alloc, p);
+  static void destroy_with(A alloc, pointer p) {
+    allocator_traits::destroy(alloc, std::addressof(*p));
     allocator_traits::deallocate(alloc, p, 1);
   }
 };
-- 
2.43.0


From 3e06a89fc8331faac51ceab5f5bb1d642953d7b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:35 +0000
Subject: [PATCH 18/23] fix: polymorphic.h works with allocators that have
 class-type pointers

---
 polymorphic.h | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/polymorphic.h b/polymorphic.h
index af78c5a..f092e1c 100644
--- a/polymorphic.h
+++ b/polymorphic.h
@@ -79,15 +79,16 @@ class polymorphic {
       cb_allocator cb_alloc(alloc);
       cb_alloc_traits::construct(cb_alloc, std::addressof(storage_.u_),
                                  std::forward<Ts>(ts)...);
-      control_block::p_ = std::addressof(storage_.u_);
+      control_block::p_ = std::pointer_traits<pointer>::pointer_to(storage_.u_);
     }
 
     constexpr control_block* clone(const A& alloc) override {
       cb_allocator cb_alloc(alloc);
       auto mem = cb_alloc_traits::allocate(cb_alloc, 1);
       try {
-        std::construct_at(mem, alloc, static_cast<const U&>(storage_.u_));
-        return mem;
+        std::construct_at(std::to_address(mem), alloc,
+                          static_cast<const U&>(storage_.u_));
+        return std::to_address(mem);
       } catch (...) {
         cb_alloc_traits::deallocate(cb_alloc, mem, 1);
         throw;
@@ -98,8 +99,8 @@ class polymorphic {
       cb_allocator cb_alloc(alloc);
       auto mem = cb_alloc_traits::allocate(cb_alloc, 1);
       try {
-        std::construct_at(mem, alloc, std::move(storage_.u_));
-        return mem;
+        std::construct_at(std::to_address(mem), alloc, std::move(storage_.u_));
+        return std::to_address(mem);
       } catch (...) {
         cb_alloc_traits::deallocate(cb_alloc, mem, 1);
         throw;
@@ -109,7 +110,11 @@ class polymorphic {
     constexpr void destroy(A& alloc) override {
       cb_allocator cb_alloc(alloc);
       cb_alloc_traits::destroy(cb_alloc, std::addressof(storage_.u_));
-      cb_alloc_traits::deallocate(cb_alloc, this, 1);
+      cb_alloc_traits::deallocate(
+          cb_alloc,
+          std::pointer_traits<typename cb_alloc_traits::pointer>::pointer_to(
+              *this),
+          1);
     }
   };
 
@@ -133,8 +138,8 @@ class polymorphic {
     using cb_alloc_traits = std::allocator_traits<cb_allocator>;
     auto mem = cb_alloc_traits::allocate(cb_alloc, 1);
     try {
-      std::construct_at(mem, alloc_, std::forward<Ts>(ts)...);
-      return mem;
+      std::construct_at(std::to_address(mem), alloc_, std::forward<Ts>(ts)...);
+      return std::to_address(mem);
     } catch (...) {
       cb_alloc_traits::deallocate(cb_alloc, mem, 1);
       throw;
-- 
2.43.0


From a3ec9c608cf90955dfb63aebc98ea4de0841c1bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:35 +0000
Subject: [PATCH 19/23] fix: polymorphic_cxx14.h works with allocators that
 have class-type pointers

---
 polymorphic_cxx14.h | 22 +++++++++++++---------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/polymorphic_cxx14.h b/polymorphic_cxx14.h
index ff3ae85..596b7ca 100644
--- a/polymorphic_cxx14.h
+++ b/polymorphic_cxx14.h
@@ -134,16 +134,16 @@ class polymorphic : private detail::empty_base_optimization<A> {
       cb_allocator cb_alloc(alloc);
       cb_alloc_traits::construct(cb_alloc, std::addressof(storage_.u_),
                                  std::forward<Ts>(ts)...);
-      control_block::p_ = std::addressof(storage_.u_);
+      control_block::p_ = std::pointer_traits<pointer>::pointer_to(storage_.u_);
     }
 
     control_block* clone(const A& alloc) override {
       cb_allocator cb_alloc(alloc);
       auto mem = cb_alloc_traits::allocate(cb_alloc, 1);
       try {
-        cb_alloc_traits::construct(cb_alloc, mem, alloc,
+        cb_alloc_traits::construct(cb_alloc, std::addressof(*mem), alloc,
                                    static_cast<const U&>(storage_.u_));
-        return mem;
+        return std::addressof(*mem);
       } catch (...) {
         cb_alloc_traits::deallocate(cb_alloc, mem, 1);
         throw;
@@ -154,9 +154,9 @@ class polymorphic : private detail::empty_base_optimization<A> {
       cb_allocator cb_alloc(alloc);
       auto mem = cb_alloc_traits::allocate(cb_alloc, 1);
       try {
-        cb_alloc_traits::construct(cb_alloc, mem, alloc,
+        cb_alloc_traits::construct(cb_alloc, std::addressof(*mem), alloc,
                                    std::move(storage_.u_));
-        return mem;
+        return std::addressof(*mem);
       } catch (...) {
         cb_alloc_traits::deallocate(cb_alloc, mem, 1);
         throw;
@@ -166,7 +166,11 @@ class polymorphic : private detail::empty_base_optimization<A> {
     void destroy(A& alloc) override {
       cb_allocator cb_alloc(alloc);
       cb_alloc_traits::destroy(cb_alloc, std::addressof(storage_.u_));
-      cb_alloc_traits::deallocate(cb_alloc, this, 1);
+      cb_alloc_traits::deallocate(
+          cb_alloc,
+          std::pointer_traits<typename cb_alloc_traits::pointer>::pointer_to(
+              *this),
+          1);
     }
   };
 
@@ -182,9 +186,9 @@ class polymorphic : private detail::empty_base_optimization<A> {
     using cb_alloc_traits = std::allocator_traits<cb_allocator>;
     auto mem = cb_alloc_traits::allocate(cb_alloc, 1);
     try {
-      cb_alloc_traits::construct(cb_alloc, mem, alloc_base::get(),
-                                 std::forward<Ts>(ts)...);
-      return mem;
+      cb_alloc_traits::construct(cb_alloc, std::addressof(*mem),
+                                 alloc_base::get(), std::forward<Ts>(ts)...);
+      return std::addressof(*mem);
     } catch (...) {
       cb_alloc_traits::deallocate(cb_alloc, mem, 1);
       throw;
-- 
2.43.0


From 23f928ef060b44343db3e0b3825eb08a43f1cbcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:35 +0000
Subject: [PATCH 20/23] fix: an installed package is found by find_package

---
 CMakeLists.txt                  | 4 ++--
 xyz_value_types-config.cmake.in | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/CMakeLists.txt b/CMakeLists.txt
index 552698a..dad634c 100644
--- a/CMakeLists.txt
+++ b/CMakeLists.txt
@@ -233,7 +233,7 @@ if (${XYZ_VALUE_TYPES_IS_NOT_SUBPROJECT})
     )
 
     write_basic_package_version_file(
-        ${CMAKE_CURRENT_BINARY_DIR}/xyz_value_types-version.cmake
+        ${CMAKE_CURRENT_BINARY_DIR}/xyz_value_types-config-version.cmake
         VERSION ${XYZ_VALUE_TYPES_VERSION}
         COMPATIBILITY SameMajorVersion
         ARCH_INDEPENDENT
@@ -242,7 +242,7 @@ if (${XYZ_VALUE_TYPES_IS_NOT_SUBPROJECT})
     install(
         FILES
             ${CMAKE_CURRENT_BINARY_DIR}/xyz_value_types-config.cmake
-            ${CMAKE_CURRENT_BINARY_DIR}/xyz_value_types-version.cmake
+            ${CMAKE_CURRENT_BINARY_DIR}/xyz_value_types-config-version.cmake
         DESTINATION
             "${CMAKE_INSTALL_LIBDIR}/cmake/xyz_value_types"
     )
diff --git a/xyz_value_types-config.cmake.in b/xyz_value_types-config.cmake.in
index 0c79f37..473dfb3 100644
--- a/xyz_value_types-config.cmake.in
+++ b/xyz_value_types-config.cmake.in
@@ -4,5 +4,5 @@ check_required_components(xyz_value_types)
 
 if(NOT TARGET xyz_value_types::xyz_value_types)
     list(APPEND CMAKE_MODULE_PATH "${CMAKE_CURRENT_LIST_DIR}")
-    include(${CMAKE_CURRENT_LIST_DIR}/xyz_value_types-target.cmake)
+    include(${CMAKE_CURRENT_LIST_DIR}/xyz_value_types-export-set.cmake)
 endif()
-- 
2.43.0


From 7192b301a3ef7e5f68c335b11b321bb4c9f356b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:25 +0000
Subject: [PATCH 21/23] fix: configuring without tests does not need the
 benchmark library

---
 CMakeLists.txt | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/CMakeLists.txt b/CMakeLists.txt
index dad634c..8da879d 100644
--- a/CMakeLists.txt
+++ b/CMakeLists.txt
@@ -126,7 +126,9 @@ target_sources(polymorphic_cxx17
 
 if (${XYZ_VALUE_TYPES_IS_NOT_SUBPROJECT})
 
-    add_subdirectory(benchmarks)
+    if (${BUILD_TESTING})
+        add_subdirectory(benchmarks)
+    endif()
     add_subdirectory(compile_checks)
     add_subdirectory(exploration)
 
-- 
2.43.0


From 143aa323a55f53526f8997987b82f7f5c14a70ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:10:49 +0000
Subject: [PATCH 22/23] fix: reduce_compile_commands.py keeps the first command
 of a file

---
 scripts/reduce_compile_commands.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scripts/reduce_compile_commands.py b/scripts/reduce_compile_commands.py
index 8f375a2..9c16008 100644
--- a/scripts/reduce_compile_commands.py
+++ b/scripts/reduce_compile_commands.py
@@ -44,7 +44,7 @@ def main(argv: list[str] | None = None) -> None:
         file: str = compile_command["file"]
         if any(file.startswith(d) for d in args.exclude_dirs):
             continue
-        if file in compile_commands:
+        if file in compile_commands_by_file:
             continue
         compile_commands_by_file[file] = compile_command
 
-- 
2.43.0


From 9c82617e9cb158d4aa528ae46ab9ad4299780dd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:10:49 +0000
Subject: [PATCH 23/23] fix: reduce_compile_commands.py excludes directories,
 not every path that starts like them

---
 scripts/reduce_compile_commands.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scripts/reduce_compile_commands.py b/scripts/reduce_compile_commands.py
index 9c16008..a7e8c23 100644
--- a/scripts/reduce_compile_commands.py
+++ b/scripts/reduce_compile_commands.py
@@ -34,7 +34,7 @@ def main(argv: list[str] | None = None) -> None:
 
     args = parser.parse_args(argv)
     args.exclude_dirs = args.exclude_dirs or []
-    args.exclude_dirs = [os.path.join(_ROOT, d) for d in args.exclude_dirs]
+    args.exclude_dirs = [os.path.join(_ROOT, d, "") for d in args.exclude_dirs]
 
     with open(args.input, "r") as f:
         compile_commands = json.load(f)
-- 
2.43.0

