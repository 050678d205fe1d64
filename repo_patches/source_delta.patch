From 6c25ab669d61dcd40134a8bbdc0b41cff1689211 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:30 +0000
Subject: [PATCH 01/12] fix: build the derived type in polymorphic's
 allocator-extended initializer_list constructor (C++14)

---
 polymorphic_cxx14.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/polymorphic_cxx14.h b/polymorphic_cxx14.h
index 0849204..08a0964 100644
--- a/polymorphic_cxx14.h
+++ b/polymorphic_cxx14.h
@@ -237,7 +237,7 @@ class polymorphic : private detail::empty_base_optimization<A> {
   polymorphic(std::allocator_arg_t, const A& alloc, in_place_type_t<U>,
               std::initializer_list<I> ilist, Ts&&... ts)
       : alloc_base(alloc) {
-    cb_ = create_control_block<T>(ilist, std::forward<Ts>(ts)...);
+    cb_ = create_control_block<U>(ilist, std::forward<Ts>(ts)...);
   }
 
   template <
-- 
2.43.0


From 29836591379c8e52a7051fae8bfe62493691b178 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:50 +0000
Subject: [PATCH 02/12] fix: take over the control block only from equal
 allocators in polymorphic's allocator-extended move constructor (C++14)

---
 polymorphic_cxx14.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/polymorphic_cxx14.h b/polymorphic_cxx14.h
index 08a0964..73afc47 100644
--- a/polymorphic_cxx14.h
+++ b/polymorphic_cxx14.h
@@ -333,7 +333,7 @@ class polymorphic : private detail::empty_base_optimization<A> {
       std::allocator_arg_t, const A& alloc,
       polymorphic&& other) noexcept(allocator_traits::is_always_equal::value)
       : alloc_base(alloc) {
-    if (allocator_traits::propagate_on_container_copy_assignment::value) {
+    if (allocator_traits::is_always_equal::value) {
       cb_ = other.cb_;
       other.cb_ = nullptr;
     } else {
-- 
2.43.0


From 29b53e9d7fa1872df8961b97fe884a0cdca8c4a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:50 +0000
Subject: [PATCH 03/12] fix: never treat another indirect as a value in
 indirect's assignment from values (C++14)

---
 indirect_cxx14.h | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/indirect_cxx14.h b/indirect_cxx14.h
index c45aeb7..e6c405e 100644
--- a/indirect_cxx14.h
+++ b/indirect_cxx14.h
@@ -300,11 +300,13 @@ class indirect : private detail::empty_base_optimization<A> {
     return *this;
   }
 
-  template <class U, typename std::enable_if<
-                         (std::is_constructible<T, U>::value &&
-                          std::is_assignable<T&, U>::value &&
-                          !std::is_same<std::remove_cv_t<U>, indirect>::value),
-                         int>::type = 0>
+  template <class U,
+            typename std::enable_if<
+                (std::is_constructible<T, U>::value &&
+                 std::is_assignable<T&, U>::value &&
+                 !std::is_same<std::remove_cv_t<std::remove_reference_t<U>>,
+                               indirect>::value),
+                int>::type = 0>
   constexpr indirect& operator=(U&& u) {
     if (valueless_after_move()) {
       p_ = construct_from(get_allocator(), std::forward<U>(u));
-- 
2.43.0


From 36b3fc46ccae6ef754e5b2c02100aebc994d4ccf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:50 +0000
Subject: [PATCH 04/12] fix: copy-assign indirect's owned object in place
 whenever it is copy assignable

---
 indirect.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/indirect.h b/indirect.h
index 7869cc4..f613ebb 100644
--- a/indirect.h
+++ b/indirect.h
@@ -239,7 +239,7 @@ class indirect {
     if (other.valueless_after_move()) {
       reset();
     } else {
-      if (std::assignable_from<T&, T> && !valueless_after_move() &&
+      if (std::is_copy_assignable_v<T> && !valueless_after_move() &&
           alloc_ == other.alloc_) {
         *p_ = *other;
       } else {
-- 
2.43.0


From 3e38d6048dcc81f411bd1bf4ac599c7d9afe002c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:55 +0000
Subject: [PATCH 05/12] fix: detach the source before destroying the target in
 move assignment

Move-assigning from a handle stored inside the object the target owns
swapped the two owned objects and reset the source, which destroyed the
source itself while it was being reset (unbounded recursion or double
destruction).
---
 indirect.h          | 7 +++++--
 indirect_cxx14.h    | 7 +++++--
 polymorphic.h       | 7 +++++--
 polymorphic_cxx14.h | 7 +++++--
 4 files changed, 20 insertions(+), 8 deletions(-)

diff --git a/indirect.h b/indirect.h
index f613ebb..3323db7 100644
--- a/indirect.h
+++ b/indirect.h
@@ -274,8 +274,11 @@ class indirect {
       reset();
     } else {
       if (alloc_ == other.alloc_) {
-        std::swap(p_, other.p_);
-        other.reset();
+        // `other` may be part of the object owned by `*this`: take over its
+        // object before destroying ours.
+        auto tmp = std::exchange(other.p_, nullptr);
+        reset();
+        p_ = tmp;
       } else {
         // Constructing a new object could throw so we need to defer resetting
         // or updating allocators until this is done.
diff --git a/indirect_cxx14.h b/indirect_cxx14.h
index e6c405e..08847b0 100644
--- a/indirect_cxx14.h
+++ b/indirect_cxx14.h
@@ -282,8 +282,11 @@ class indirect : private detail::empty_base_optimization<A> {
       reset();
     } else {
       if (alloc_base::get() == other.alloc_base::get()) {
-        std::swap(p_, other.p_);
-        other.reset();
+        // `other` may be part of the object owned by `*this`: take over its
+        // object before destroying ours.
+        auto tmp = std::exchange(other.p_, nullptr);
+        reset();
+        p_ = tmp;
       } else {
         // Constructing a new object could throw so we need to defer resetting
         // or updating allocators until this is done.
diff --git a/polymorphic.h b/polymorphic.h
index a32be6d..eae983f 100644
--- a/polymorphic.h
+++ b/polymorphic.h
@@ -317,8 +317,11 @@ class polymorphic {
       reset();
     } else {
       if (alloc_ == other.alloc_) {
-        std::swap(cb_, other.cb_);
-        other.reset();
+        // `other` may be part of the object owned by `*this`: take over its
+        // object before destroying ours.
+        auto tmp = std::exchange(other.cb_, nullptr);
+        reset();
+        cb_ = tmp;
       } else {
         // Constructing a new control block could throw so we need to defer
         // resetting or updating allocators until this is done.
diff --git a/polymorphic_cxx14.h b/polymorphic_cxx14.h
index 73afc47..5ee9eb4 100644
--- a/polymorphic_cxx14.h
+++ b/polymorphic_cxx14.h
@@ -396,8 +396,11 @@ class polymorphic : private detail::empty_base_optimization<A> {
       reset();
     } else {
       if (alloc_base::get() == other.alloc_base::get()) {
-        std::swap(cb_, other.cb_);
-        other.reset();
+        // `other` may be part of the object owned by `*this`: take over its
+        // object before destroying ours.
+        auto tmp = std::exchange(other.cb_, nullptr);
+        reset();
+        cb_ = tmp;
       } else {
         // Constructing a new control block could throw so we need to defer
         // resetting or updating allocators until this is done.
-- 
2.43.0


From 6a01055005ff729a3461f3d372f26a2f9c9d193e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:03 +0000
Subject: [PATCH 06/12] fix: read the source's allocator before destroying the
 target's object in assignment

When the source of an assignment is stored inside the object the target
owns, it may be gone once that object is destroyed or assigned to; its
allocator was still read afterwards to be propagated.
---
 indirect.h          | 21 +++++++++++++--------
 indirect_cxx14.h    | 23 +++++++++++++----------
 polymorphic.h       | 14 ++++++++++----
 polymorphic_cxx14.h | 16 ++++++++++------
 4 files changed, 46 insertions(+), 28 deletions(-)

diff --git a/indirect.h b/indirect.h
index 3323db7..4ed1219 100644
--- a/indirect.h
+++ b/indirect.h
@@ -235,6 +235,9 @@ class indirect {
     // needed to delete the current control block.
     bool update_alloc =
         allocator_traits::propagate_on_container_copy_assignment::value;
+    // `other` may be part of the object owned by `*this`: read its allocator
+    // before that object is destroyed.
+    A new_alloc = update_alloc ? other.alloc_ : alloc_;
 
     if (other.valueless_after_move()) {
       reset();
@@ -245,14 +248,13 @@ class indirect {
       } else {
         // Constructing a new object could throw so we need to defer resetting
         // or updating allocators until this is done.
-        auto tmp =
-            construct_from(update_alloc ? other.alloc_ : alloc_, *other.p_);
+        auto tmp = construct_from(new_alloc, *other.p_);
         reset();
         p_ = tmp;
       }
     }
     if (update_alloc) {
-      alloc_ = other.alloc_;
+      alloc_ = new_alloc;
     }
     return *this;
   }
@@ -269,6 +271,9 @@ class indirect {
     // needed to delete the current control block.
     bool update_alloc =
         allocator_traits::propagate_on_container_move_assignment::value;
+    // `other` may be part of the object owned by `*this`: read its allocator
+    // before that object is destroyed.
+    A new_alloc = update_alloc ? other.alloc_ : alloc_;
 
     if (other.valueless_after_move()) {
       reset();
@@ -282,14 +287,13 @@ class indirect {
       } else {
         // Constructing a new object could throw so we need to defer resetting
         // or updating allocators until this is done.
-        auto tmp = construct_from(update_alloc ? other.alloc_ : alloc_,
-                                  std::move(*other.p_));
+        auto tmp = construct_from(new_alloc, std::move(*other.p_));
         reset();
         p_ = tmp;
       }
     }
     if (update_alloc) {
-      alloc_ = other.alloc_;
+      alloc_ = new_alloc;
     }
     return *this;
   }
@@ -469,8 +473,9 @@ template <typename Value>
 indirect(Value) -> indirect<Value>;
 
 template <typename Alloc, typename Value>
-indirect(std::allocator_arg_t, Alloc, Value) -> indirect<
-    Value, typename std::allocator_traits<Alloc>::template rebind_alloc<Value>>;
+indirect(std::allocator_arg_t, Alloc, Value)
+    -> indirect<Value, typename std::allocator_traits<
+                           Alloc>::template rebind_alloc<Value>>;
 
 }  // namespace xyz
 
diff --git a/indirect_cxx14.h b/indirect_cxx14.h
index 08847b0..e9eebb5 100644
--- a/indirect_cxx14.h
+++ b/indirect_cxx14.h
@@ -244,6 +244,9 @@ class indirect : private detail::empty_base_optimization<A> {
     // needed to delete the current control block.
     bool update_alloc =
         allocator_traits::propagate_on_container_copy_assignment::value;
+    // `other` may be part of the object owned by `*this`: read its allocator
+    // before that object is destroyed.
+    A new_alloc = update_alloc ? other.alloc_base::get() : alloc_base::get();
 
     if (other.valueless_after_move()) {
       reset();
@@ -254,15 +257,13 @@ class indirect : private detail::empty_base_optimization<A> {
       } else {
         // Constructing a new object could throw so we need to defer resetting
         // or updating allocators until this is done.
-        auto tmp = construct_from(
-            update_alloc ? other.alloc_base::get() : alloc_base::get(),
-            *other.p_);
+        auto tmp = construct_from(new_alloc, *other.p_);
         reset();
         p_ = tmp;
       }
     }
     if (update_alloc) {
-      alloc_base::get() = other.alloc_base::get();
+      alloc_base::get() = new_alloc;
     }
     return *this;
   }
@@ -277,6 +278,9 @@ class indirect : private detail::empty_base_optimization<A> {
     // needed to delete the current control block.
     bool update_alloc =
         allocator_traits::propagate_on_container_move_assignment::value;
+    // `other` may be part of the object owned by `*this`: read its allocator
+    // before that object is destroyed.
+    A new_alloc = update_alloc ? other.alloc_base::get() : alloc_base::get();
 
     if (other.valueless_after_move()) {
       reset();
@@ -290,15 +294,13 @@ class indirect : private detail::empty_base_optimization<A> {
       } else {
         // Constructing a new object could throw so we need to defer resetting
         // or updating allocators until this is done.
-        auto tmp = construct_from(
-            update_alloc ? other.alloc_base::get() : alloc_base::get(),
-            std::move(*other.p_));
+        auto tmp = construct_from(new_alloc, std::move(*other.p_));
         reset();
         p_ = tmp;
       }
     }
     if (update_alloc) {
-      alloc_base::get() = other.alloc_base::get();
+      alloc_base::get() = new_alloc;
     }
     return *this;
   }
@@ -580,8 +582,9 @@ template <typename Value>
 indirect(Value) -> indirect<Value>;
 
 template <typename Alloc, typename Value>
-indirect(std::allocator_arg_t, Alloc, Value) -> indirect<
-    Value, typename std::allocator_traits<Alloc>::template rebind_alloc<Value>>;
+indirect(std::allocator_arg_t, Alloc, Value)
+    -> indirect<Value, typename std::allocator_traits<
+                           Alloc>::template rebind_alloc<Value>>;
 #endif  // XYZ_HAS_TEMPLATE_ARGUMENT_DEDUCTION
 
 }  // namespace xyz
diff --git a/polymorphic.h b/polymorphic.h
index eae983f..9375da3 100644
--- a/polymorphic.h
+++ b/polymorphic.h
@@ -284,6 +284,9 @@ class polymorphic {
     // needed to delete the current control block.
     bool update_alloc =
         allocator_traits::propagate_on_container_copy_assignment::value;
+    // `other` may be part of the object owned by `*this`: read its allocator
+    // before that object is destroyed.
+    A new_alloc = update_alloc ? other.alloc_ : alloc_;
 
     if (other.valueless_after_move()) {
       reset();
@@ -292,12 +295,12 @@ class polymorphic {
       // resetting or updating allocators until this is done.
 
       // Inlining the allocator into the construct_from call confuses LCOV.
-      auto tmp = other.cb_->clone(update_alloc ? other.alloc_ : alloc_);
+      auto tmp = other.cb_->clone(new_alloc);
       reset();
       cb_ = tmp;
     }
     if (update_alloc) {
-      alloc_ = other.alloc_;
+      alloc_ = new_alloc;
     }
     return *this;
   }
@@ -312,6 +315,9 @@ class polymorphic {
     // needed to delete the current control block.
     bool update_alloc =
         allocator_traits::propagate_on_container_move_assignment::value;
+    // `other` may be part of the object owned by `*this`: read its allocator
+    // before that object is destroyed.
+    A new_alloc = update_alloc ? other.alloc_ : alloc_;
 
     if (other.valueless_after_move()) {
       reset();
@@ -327,14 +333,14 @@ class polymorphic {
         // resetting or updating allocators until this is done.
 
         // Inlining the allocator into the construct_from call confuses LCOV.
-        auto tmp = other.cb_->move(update_alloc ? other.alloc_ : alloc_);
+        auto tmp = other.cb_->move(new_alloc);
         reset();
         cb_ = tmp;
       }
     }
 
     if (update_alloc) {
-      alloc_ = other.alloc_;
+      alloc_ = new_alloc;
     }
     return *this;
   }
diff --git a/polymorphic_cxx14.h b/polymorphic_cxx14.h
index 5ee9eb4..4496aea 100644
--- a/polymorphic_cxx14.h
+++ b/polymorphic_cxx14.h
@@ -364,19 +364,21 @@ class polymorphic : private detail::empty_base_optimization<A> {
     // needed to delete the current control block.
     bool update_alloc =
         allocator_traits::propagate_on_container_copy_assignment::value;
+    // `other` may be part of the object owned by `*this`: read its allocator
+    // before that object is destroyed.
+    A new_alloc = update_alloc ? other.alloc_base::get() : alloc_base::get();
 
     if (other.valueless_after_move()) {
       reset();
     } else {
       // Constructing a new control block could throw so we need to defer
       // resetting or updating allocators until this is done.
-      auto tmp = other.cb_->clone(update_alloc ? other.alloc_base::get()
-                                               : alloc_base::get());
+      auto tmp = other.cb_->clone(new_alloc);
       reset();
       cb_ = tmp;
     }
     if (update_alloc) {
-      alloc_base::get() = other.alloc_base::get();
+      alloc_base::get() = new_alloc;
     }
     return *this;
   }
@@ -391,6 +393,9 @@ class polymorphic : private detail::empty_base_optimization<A> {
     // needed to delete the current control block.
     bool update_alloc =
         allocator_traits::propagate_on_container_move_assignment::value;
+    // `other` may be part of the object owned by `*this`: read its allocator
+    // before that object is destroyed.
+    A new_alloc = update_alloc ? other.alloc_base::get() : alloc_base::get();
 
     if (other.valueless_after_move()) {
       reset();
@@ -404,15 +409,14 @@ class polymorphic : private detail::empty_base_optimization<A> {
       } else {
         // Constructing a new control block could throw so we need to defer
         // resetting or updating allocators until this is done.
-        auto tmp = other.cb_->move(update_alloc ? other.alloc_base::get()
-                                                : alloc_base::get());
+        auto tmp = other.cb_->move(new_alloc);
         reset();
         cb_ = tmp;
       }
     }
 
     if (update_alloc) {
-      alloc_base::get() = other.alloc_base::get();
+      alloc_base::get() = new_alloc;
     }
     return *this;
   }
-- 
2.43.0


From bdc94d6da81c059ae2af61ae7ceaeb297c5737e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:31 +0000
Subject: [PATCH 07/12] fix: move constructors never throw, as specified, so
 that containers move handles instead of copying them

---
 indirect.h       | 3 +--
 indirect_cxx14.h | 2 +-
 polymorphic.h    | 3 +--
 3 files changed, 3 insertions(+), 5 deletions(-)

diff --git a/indirect.h b/indirect.h
index 4ed1219..847a46f 100644
--- a/indirect.h
+++ b/indirect.h
@@ -134,8 +134,7 @@ class indirect {
     static_assert(std::copy_constructible<T>);
   }
 
-  constexpr indirect(indirect&& other) noexcept(
-      allocator_traits::is_always_equal::value)
+  constexpr indirect(indirect&& other) noexcept
       : indirect(std::allocator_arg, other.alloc_, std::move(other)) {}
 
   //
diff --git a/indirect_cxx14.h b/indirect_cxx14.h
index e9eebb5..d8c18d5 100644
--- a/indirect_cxx14.h
+++ b/indirect_cxx14.h
@@ -230,7 +230,7 @@ class indirect : private detail::empty_base_optimization<A> {
     }
   }
 
-  indirect(indirect&& other) noexcept(allocator_traits::is_always_equal::value)
+  indirect(indirect&& other) noexcept
       : indirect(std::allocator_arg, other.alloc_base::get(),
                  std::move(other)) {}
 
diff --git a/polymorphic.h b/polymorphic.h
index 9375da3..ab6624a 100644
--- a/polymorphic.h
+++ b/polymorphic.h
@@ -192,8 +192,7 @@ class polymorphic {
                         other.alloc_),
                     other) {}
 
-  constexpr polymorphic(polymorphic&& other) noexcept(
-      allocator_traits::is_always_equal::value)
+  constexpr polymorphic(polymorphic&& other) noexcept
       : polymorphic(std::allocator_arg_t{}, other.alloc_, std::move(other)) {}
 
   //
-- 
2.43.0


From ccfe52efc92d4e1d380f53595274ea2e5cd7bc46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:20 +0000
Subject: [PATCH 08/12] fix: copy owned objects through const access, so that
 copying picks the copy constructor and never changes the source

---
 indirect.h          | 2 +-
 indirect_cxx14.h    | 2 +-
 polymorphic.h       | 4 ++--
 polymorphic_cxx14.h | 4 ++--
 4 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/indirect.h b/indirect.h
index 847a46f..62b2137 100644
--- a/indirect.h
+++ b/indirect.h
@@ -247,7 +247,7 @@ class indirect {
       } else {
         // Constructing a new object could throw so we need to defer resetting
         // or updating allocators until this is done.
-        auto tmp = construct_from(new_alloc, *other.p_);
+        auto tmp = construct_from(new_alloc, *other);
         reset();
         p_ = tmp;
       }
diff --git a/indirect_cxx14.h b/indirect_cxx14.h
index d8c18d5..d0027ba 100644
--- a/indirect_cxx14.h
+++ b/indirect_cxx14.h
@@ -257,7 +257,7 @@ class indirect : private detail::empty_base_optimization<A> {
       } else {
         // Constructing a new object could throw so we need to defer resetting
         // or updating allocators until this is done.
-        auto tmp = construct_from(new_alloc, *other.p_);
+        auto tmp = construct_from(new_alloc, *other);
         reset();
         p_ = tmp;
       }
diff --git a/polymorphic.h b/polymorphic.h
index ab6624a..6741b54 100644
--- a/polymorphic.h
+++ b/polymorphic.h
@@ -55,7 +55,7 @@ class polymorphic {
 
     virtual constexpr ~control_block() = default;
     virtual constexpr void destroy(A& alloc) = 0;
-    virtual constexpr control_block* clone(const A& alloc) = 0;
+    virtual constexpr control_block* clone(const A& alloc) const = 0;
     virtual constexpr control_block* move(const A& alloc) = 0;
   };
 
@@ -82,7 +82,7 @@ class polymorphic {
       control_block::p_ = std::addressof(storage_.u_);
     }
 
-    constexpr control_block* clone(const A& alloc) override {
+    constexpr control_block* clone(const A& alloc) const override {
       cb_allocator cb_alloc(alloc);
       auto mem = cb_alloc_traits::allocate(cb_alloc, 1);
       try {
diff --git a/polymorphic_cxx14.h b/polymorphic_cxx14.h
index 4496aea..6c0f430 100644
--- a/polymorphic_cxx14.h
+++ b/polymorphic_cxx14.h
@@ -110,7 +110,7 @@ class polymorphic : private detail::empty_base_optimization<A> {
 
     virtual ~control_block() = default;
     virtual void destroy(A& alloc) = 0;
-    virtual control_block* clone(const A& alloc) = 0;
+    virtual control_block* clone(const A& alloc) const = 0;
     virtual control_block* move(const A& alloc) = 0;
   };
 
@@ -137,7 +137,7 @@ class polymorphic : private detail::empty_base_optimization<A> {
       control_block::p_ = std::addressof(storage_.u_);
     }
 
-    control_block* clone(const A& alloc) override {
+    control_block* clone(const A& alloc) const override {
       cb_allocator cb_alloc(alloc);
       auto mem = cb_alloc_traits::allocate(cb_alloc, 1);
       try {
-- 
2.43.0


From a496b26eade7a643c3404661f1f81e31fcd375ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:26 +0000
Subject: [PATCH 09/12] fix: do not require allocators that never propagate to
 be assignable or swappable

---
 indirect.h          |  8 ++++----
 indirect_cxx14.h    | 28 +++++++++++++++++++++-------
 polymorphic.h       |  8 ++++----
 polymorphic_cxx14.h | 28 +++++++++++++++++++++-------
 4 files changed, 50 insertions(+), 22 deletions(-)

diff --git a/indirect.h b/indirect.h
index 62b2137..25b7990 100644
--- a/indirect.h
+++ b/indirect.h
@@ -232,7 +232,7 @@ class indirect {
     // Check to see if the allocators need to be updated.
     // We defer actually updating the allocator until later because it may be
     // needed to delete the current control block.
-    bool update_alloc =
+    constexpr bool update_alloc =
         allocator_traits::propagate_on_container_copy_assignment::value;
     // `other` may be part of the object owned by `*this`: read its allocator
     // before that object is destroyed.
@@ -252,7 +252,7 @@ class indirect {
         p_ = tmp;
       }
     }
-    if (update_alloc) {
+    if constexpr (update_alloc) {
       alloc_ = new_alloc;
     }
     return *this;
@@ -268,7 +268,7 @@ class indirect {
     // Check to see if the allocators need to be updated.
     // We defer actually updating the allocator until later because it may be
     // needed to delete the current control block.
-    bool update_alloc =
+    constexpr bool update_alloc =
         allocator_traits::propagate_on_container_move_assignment::value;
     // `other` may be part of the object owned by `*this`: read its allocator
     // before that object is destroyed.
@@ -291,7 +291,7 @@ class indirect {
         p_ = tmp;
       }
     }
-    if (update_alloc) {
+    if constexpr (update_alloc) {
       alloc_ = new_alloc;
     }
     return *this;
diff --git a/indirect_cxx14.h b/indirect_cxx14.h
index d0027ba..5493cba 100644
--- a/indirect_cxx14.h
+++ b/indirect_cxx14.h
@@ -262,9 +262,9 @@ class indirect : private detail::empty_base_optimization<A> {
         p_ = tmp;
       }
     }
-    if (update_alloc) {
-      alloc_base::get() = new_alloc;
-    }
+    assign_alloc(
+        typename allocator_traits::propagate_on_container_copy_assignment{},
+        new_alloc);
     return *this;
   }
 
@@ -299,9 +299,9 @@ class indirect : private detail::empty_base_optimization<A> {
         p_ = tmp;
       }
     }
-    if (update_alloc) {
-      alloc_base::get() = new_alloc;
-    }
+    assign_alloc(
+        typename allocator_traits::propagate_on_container_move_assignment{},
+        new_alloc);
     return *this;
   }
 
@@ -362,7 +362,8 @@ class indirect : private detail::empty_base_optimization<A> {
       std::allocator_traits<A>::is_always_equal::value) {
     if (allocator_traits::propagate_on_container_swap::value) {
       // If allocators move with their allocated objects we can swap both.
-      std::swap(alloc_base::get(), other.alloc_base::get());
+      swap_alloc(
+          typename allocator_traits::propagate_on_container_swap{}, other);
       std::swap(p_, other.p_);
       return;
     } else /*  */ {
@@ -559,6 +560,19 @@ class indirect : private detail::empty_base_optimization<A> {
     p_ = nullptr;
   }
 
+  // An allocator that does not propagate need not be assignable or swappable.
+  void assign_alloc(std::true_type, const A& alloc) noexcept {
+    alloc_base::get() = alloc;
+  }
+
+  void assign_alloc(std::false_type, const A&) noexcept {}
+
+  void swap_alloc(std::true_type, indirect& other) noexcept {
+    std::swap(alloc_base::get(), other.alloc_base::get());
+  }
+
+  void swap_alloc(std::false_type, indirect&) noexcept {}
+
   template <typename... Ts>
   [[nodiscard]] static T* construct_from(A alloc, Ts&&... ts) {
     T* mem = allocator_traits::allocate(alloc, 1);
diff --git a/polymorphic.h b/polymorphic.h
index 6741b54..87c3dff 100644
--- a/polymorphic.h
+++ b/polymorphic.h
@@ -281,7 +281,7 @@ class polymorphic {
     // Check to see if the allocators need to be updated.
     // We defer actually updating the allocator until later because it may be
     // needed to delete the current control block.
-    bool update_alloc =
+    constexpr bool update_alloc =
         allocator_traits::propagate_on_container_copy_assignment::value;
     // `other` may be part of the object owned by `*this`: read its allocator
     // before that object is destroyed.
@@ -298,7 +298,7 @@ class polymorphic {
       reset();
       cb_ = tmp;
     }
-    if (update_alloc) {
+    if constexpr (update_alloc) {
       alloc_ = new_alloc;
     }
     return *this;
@@ -312,7 +312,7 @@ class polymorphic {
     // Check to see if the allocators need to be updated.
     // We defer actually updating the allocator until later because it may be
     // needed to delete the current control block.
-    bool update_alloc =
+    constexpr bool update_alloc =
         allocator_traits::propagate_on_container_move_assignment::value;
     // `other` may be part of the object owned by `*this`: read its allocator
     // before that object is destroyed.
@@ -338,7 +338,7 @@ class polymorphic {
       }
     }
 
-    if (update_alloc) {
+    if constexpr (update_alloc) {
       alloc_ = new_alloc;
     }
     return *this;
diff --git a/polymorphic_cxx14.h b/polymorphic_cxx14.h
index 6c0f430..627d888 100644
--- a/polymorphic_cxx14.h
+++ b/polymorphic_cxx14.h
@@ -377,9 +377,9 @@ class polymorphic : private detail::empty_base_optimization<A> {
       reset();
       cb_ = tmp;
     }
-    if (update_alloc) {
-      alloc_base::get() = new_alloc;
-    }
+    assign_alloc(
+        typename allocator_traits::propagate_on_container_copy_assignment{},
+        new_alloc);
     return *this;
   }
 
@@ -415,9 +415,9 @@ class polymorphic : private detail::empty_base_optimization<A> {
       }
     }
 
-    if (update_alloc) {
-      alloc_base::get() = new_alloc;
-    }
+    assign_alloc(
+        typename allocator_traits::propagate_on_container_move_assignment{},
+        new_alloc);
     return *this;
   }
 
@@ -452,7 +452,8 @@ class polymorphic : private detail::empty_base_optimization<A> {
       std::allocator_traits<A>::is_always_equal::value) {
     if (allocator_traits::propagate_on_container_swap::value) {
       // If allocators move with their allocated objects we can swap both.
-      std::swap(alloc_base::get(), other.alloc_base::get());
+      swap_alloc(
+          typename allocator_traits::propagate_on_container_swap{}, other);
       std::swap(cb_, other.cb_);
       return;
     } else /*  */ {
@@ -476,6 +477,19 @@ class polymorphic : private detail::empty_base_optimization<A> {
       cb_ = nullptr;
     }
   }
+
+  // An allocator that does not propagate need not be assignable or swappable.
+  void assign_alloc(std::true_type, const A& alloc) noexcept {
+    alloc_base::get() = alloc;
+  }
+
+  void assign_alloc(std::false_type, const A&) noexcept {}
+
+  void swap_alloc(std::true_type, polymorphic& other) noexcept {
+    std::swap(alloc_base::get(), other.alloc_base::get());
+  }
+
+  void swap_alloc(std::false_type, polymorphic&) noexcept {}
 };
 
 }  // namespace xyz
-- 
2.43.0


From c41b0dc83e0da1915a67ebb611cc0d7333b24c00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:56 +0000
Subject: [PATCH 10/12] fix: exchange allocators with their own swap, as
 specified

---
 indirect.h          | 3 ++-
 indirect_cxx14.h    | 3 ++-
 polymorphic.h       | 3 ++-
 polymorphic_cxx14.h | 3 ++-
 4 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/indirect.h b/indirect.h
index 25b7990..cf9b1f9 100644
--- a/indirect.h
+++ b/indirect.h
@@ -359,7 +359,8 @@ class indirect {
       std::allocator_traits<A>::is_always_equal::value) {
     if constexpr (allocator_traits::propagate_on_container_swap::value) {
       // If allocators move with their allocated objects, we can swap both.
-      std::swap(alloc_, other.alloc_);
+      using std::swap;
+      swap(alloc_, other.alloc_);
       std::swap(p_, other.p_);
       return;
     } else /* constexpr */ {
diff --git a/indirect_cxx14.h b/indirect_cxx14.h
index 5493cba..d12a01d 100644
--- a/indirect_cxx14.h
+++ b/indirect_cxx14.h
@@ -568,7 +568,8 @@ class indirect : private detail::empty_base_optimization<A> {
   void assign_alloc(std::false_type, const A&) noexcept {}
 
   void swap_alloc(std::true_type, indirect& other) noexcept {
-    std::swap(alloc_base::get(), other.alloc_base::get());
+    using std::swap;
+    swap(alloc_base::get(), other.alloc_base::get());
   }
 
   void swap_alloc(std::false_type, indirect&) noexcept {}
diff --git a/polymorphic.h b/polymorphic.h
index 87c3dff..e17a734 100644
--- a/polymorphic.h
+++ b/polymorphic.h
@@ -383,7 +383,8 @@ class polymorphic {
       std::allocator_traits<A>::is_always_equal::value) {
     if constexpr (allocator_traits::propagate_on_container_swap::value) {
       // If allocators move with their allocated objects, we can swap both.
-      std::swap(alloc_, other.alloc_);
+      using std::swap;
+      swap(alloc_, other.alloc_);
       std::swap(cb_, other.cb_);
       return;
     } else /* constexpr */ {
diff --git a/polymorphic_cxx14.h b/polymorphic_cxx14.h
index 627d888..76adee0 100644
--- a/polymorphic_cxx14.h
+++ b/polymorphic_cxx14.h
@@ -486,7 +486,8 @@ class polymorphic : private detail::empty_base_optimization<A> {
   void assign_alloc(std::false_type, const A&) noexcept {}
 
   void swap_alloc(std::true_type, polymorphic& other) noexcept {
-    std::swap(alloc_base::get(), other.alloc_base::get());
+    using std::swap;
+    swap(alloc_base::get(), other.alloc_base::get());
   }
 
   void swap_alloc(std::false_type, polymorphic&) noexcept {}
-- 
2.43.0


From 0489370595ec3036ed076dd3fbd1390d57fa186c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:13 +0000
Subject: [PATCH 11/12] fix: constrain indirect's converting assignment as
 specified

---
 indirect.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/indirect.h b/indirect.h
index cf9b1f9..0eea3c9 100644
--- a/indirect.h
+++ b/indirect.h
@@ -300,7 +300,7 @@ class indirect {
   template <class U>
   constexpr indirect& operator=(U&& u)
     requires(!std::same_as<std::remove_cvref_t<U>, indirect> &&
-             std::constructible_from<T, U> && std::assignable_from<T&, U>)
+             std::is_constructible_v<T, U> && std::is_assignable_v<T&, U>)
   {
     if (valueless_after_move()) {
       p_ = construct_from(alloc_, std::forward<U>(u));
-- 
2.43.0


From eccc31a0511459ab6fb82146c8da5569028cec74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:15 +0000
Subject: [PATCH 12/12] fix: let clang build polymorphic from values with
 allocators that have no construct member

---
 polymorphic.h | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/polymorphic.h b/polymorphic.h
index e17a734..e0b1dd1 100644
--- a/polymorphic.h
+++ b/polymorphic.h
@@ -82,11 +82,21 @@ class polymorphic {
       control_block::p_ = std::addressof(storage_.u_);
     }
 
+    // `clone` and `move` use constructors of their own: their instantiation
+    // must not depend on whether a control block can be constructed from the
+    // arguments it is just being constructed from.
+    constexpr direct_control_block(const A& alloc,
+                                   const direct_control_block& other)
+        : direct_control_block(alloc, other.storage_.u_) {}
+
+    constexpr direct_control_block(const A& alloc, direct_control_block&& other)
+        : direct_control_block(alloc, std::move(other.storage_.u_)) {}
+
     constexpr control_block* clone(const A& alloc) const override {
       cb_allocator cb_alloc(alloc);
       auto mem = cb_alloc_traits::allocate(cb_alloc, 1);
       try {
-        cb_alloc_traits::construct(cb_alloc, mem, alloc, storage_.u_);
+        cb_alloc_traits::construct(cb_alloc, mem, alloc, *this);
         return mem;
       } catch (...) {
         cb_alloc_traits::deallocate(cb_alloc, mem, 1);
@@ -98,8 +108,7 @@ class polymorphic {
       cb_allocator cb_alloc(alloc);
       auto mem = cb_alloc_traits::allocate(cb_alloc, 1);
       try {
-        cb_alloc_traits::construct(cb_alloc, mem, alloc,
-                                   std::move(storage_.u_));
+        cb_alloc_traits::construct(cb_alloc, mem, alloc, std::move(*this));
         return mem;
       } catch (...) {
         cb_alloc_traits::deallocate(cb_alloc, mem, 1);
-- 
2.43.0

