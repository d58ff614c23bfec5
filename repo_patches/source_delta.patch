From 9e7a5c38045c13ca0bf5ee4bd862cdf3b414dc89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:41 +0000
Subject: [PATCH 01/29] fix: self-move assignment of a 2D array zeroed its
 dimensions

---
 strictpp/array_base2D.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/strictpp/array_base2D.hpp b/strictpp/array_base2D.hpp
index 8fa29be..8c32023 100644
--- a/strictpp/array_base2D.hpp
+++ b/strictpp/array_base2D.hpp
@@ -220,8 +220,10 @@ STRICT_CONSTEXPR ArrayBase2D<T, AF>& ArrayBase2D<T, AF>::operator=(const ArrayBa
 template <Builtin T, AlignmentFlag AF>
 STRICT_CONSTEXPR ArrayBase2D<T, AF>& ArrayBase2D<T, AF>::operator=(ArrayBase2D&& A) noexcept {
    NORMAL_ASSERT_STRICT_DEBUG(same_size(*this, A));
-   A.dims_ = 0_sl;
-   data1D_ = std::move(A.data1D_);
+   if(this != &A) {
+      A.dims_ = 0_sl;
+      data1D_ = std::move(A.data1D_);
+   }
    return *this;
 }
 
-- 
2.43.0


From 1fbe05a7d00f807a9d92bd90874f4622e6360c6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:51 +0000
Subject: [PATCH 02/29] fix: remove_row and remove_col ignored the offset from
 the last row or column

---
 strictpp/array_base2D.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/strictpp/array_base2D.hpp b/strictpp/array_base2D.hpp
index 8c32023..86a41ea 100644
--- a/strictpp/array_base2D.hpp
+++ b/strictpp/array_base2D.hpp
@@ -365,8 +365,8 @@ STRICT_CONSTEXPR auto& ArrayBase2D<T, AF>::remove_row(Pos row_pos) {
 
 
 template <Builtin T, AlignmentFlag AF>
-STRICT_CONSTEXPR auto& ArrayBase2D<T, AF>::remove_row([[maybe_unused]] Last lst) {
-   return this->remove_row(this->rows() - 1_sl);
+STRICT_CONSTEXPR auto& ArrayBase2D<T, AF>::remove_row(Last lst) {
+   return this->remove_row(this->rows() - 1_sl - lst.get());
 }
 
 
@@ -383,8 +383,8 @@ STRICT_CONSTEXPR auto& ArrayBase2D<T, AF>::remove_col(Pos col_pos) {
 
 
 template <Builtin T, AlignmentFlag AF>
-STRICT_CONSTEXPR auto& ArrayBase2D<T, AF>::remove_col([[maybe_unused]] Last lst) {
-   return this->remove_col(this->cols() - 1_sl);
+STRICT_CONSTEXPR auto& ArrayBase2D<T, AF>::remove_col(Last lst) {
+   return this->remove_col(this->cols() - 1_sl - lst.get());
 }
 
 
-- 
2.43.0


From faaccaf29ed27b5f85283d89863438c5ce3c5147 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:51 +0000
Subject: [PATCH 03/29] fix: resize_and_assign from itself as an rvalue emptied
 the array

---
 strictpp/array_base1D.hpp | 6 ++++--
 strictpp/array_base2D.hpp | 6 ++++--
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/strictpp/array_base1D.hpp b/strictpp/array_base1D.hpp
index 1e44c11..94bea1f 100644
--- a/strictpp/array_base1D.hpp
+++ b/strictpp/array_base1D.hpp
@@ -311,8 +311,10 @@ STRICT_CONSTEXPR auto& ArrayBase1D<T, AF>::resize_and_assign(OneDimBaseType auto
 
 template <Builtin T, AlignmentFlag AF>
 STRICT_CONSTEXPR auto& ArrayBase1D<T, AF>::resize_and_assign(StrictArray1D<ArrayBase1D>&& A) {
-   this->swap(A);
-   A.swap(ArrayBase1D{});
+   if(this != &A) {
+      this->swap(A);
+      A.swap(ArrayBase1D{});
+   }
    return static_cast<StrictArray1D<ArrayBase1D>&>(*this);
 }
 
diff --git a/strictpp/array_base2D.hpp b/strictpp/array_base2D.hpp
index 86a41ea..eec898d 100644
--- a/strictpp/array_base2D.hpp
+++ b/strictpp/array_base2D.hpp
@@ -295,8 +295,10 @@ STRICT_CONSTEXPR auto& ArrayBase2D<T, AF>::resize_and_assign(TwoDimBaseType auto
 
 template <Builtin T, AlignmentFlag AF>
 STRICT_CONSTEXPR auto& ArrayBase2D<T, AF>::resize_and_assign(StrictArray2D<ArrayBase2D>&& A) {
-   this->swap(A);
-   A.swap(ArrayBase2D{});
+   if(this != &A) {
+      this->swap(A);
+      A.swap(ArrayBase2D{});
+   }
    return static_cast<StrictArray2D<ArrayBase2D>&>(*this);
 }
 
-- 
2.43.0


From 218279dfcab88139fc1a6d31f7742841f8d59e7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:58 +0000
Subject: [PATCH 04/29] fix: mismatched move assignment of slices terminated
 instead of throwing

---
 strictpp/derived1D.hpp | 3 ++-
 strictpp/derived2D.hpp | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/strictpp/derived1D.hpp b/strictpp/derived1D.hpp
index 6544494..b5d9753 100644
--- a/strictpp/derived1D.hpp
+++ b/strictpp/derived1D.hpp
@@ -296,7 +296,8 @@ public:
       return static_cast<StrictArrayMutable1D&>(Base::operator=(A));
    }
 
-   STRICT_CONSTEXPR StrictArrayMutable1D& operator=(StrictArrayMutable1D&& A) noexcept {
+   STRICT_CONSTEXPR StrictArrayMutable1D& operator=(StrictArrayMutable1D&& A) noexcept(
+      noexcept(std::declval<Base&>() = std::declval<Base>())) {
       return static_cast<StrictArrayMutable1D&>(Base::operator=(static_cast<Base&&>(std::move(A))));
    }
 
diff --git a/strictpp/derived2D.hpp b/strictpp/derived2D.hpp
index b813d9b..5e52d7e 100644
--- a/strictpp/derived2D.hpp
+++ b/strictpp/derived2D.hpp
@@ -668,7 +668,8 @@ public:
       return static_cast<StrictArrayMutable2D&>(Base::operator=(A));
    }
 
-   STRICT_CONSTEXPR StrictArrayMutable2D& operator=(StrictArrayMutable2D&& A) noexcept {
+   STRICT_CONSTEXPR StrictArrayMutable2D& operator=(StrictArrayMutable2D&& A) noexcept(
+      noexcept(std::declval<Base&>() = std::declval<Base>())) {
       return static_cast<StrictArrayMutable2D&>(Base::operator=(static_cast<Base&&>(std::move(A))));
    }
 
-- 
2.43.0


From 5214cf92da12702de5496881affef0aa378b1237 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:12:05 +0000
Subject: [PATCH 05/29] fix: assigning a list to a slice selected by positions
 did not compile

---
 strictpp/ArrayCommon/algorithm.hpp | 2 +-
 strictpp/array_base1D.hpp          | 2 +-
 strictpp/fixed_array_base1D.hpp    | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/strictpp/ArrayCommon/algorithm.hpp b/strictpp/ArrayCommon/algorithm.hpp
index 2eea48b..6101171 100644
--- a/strictpp/ArrayCommon/algorithm.hpp
+++ b/strictpp/ArrayCommon/algorithm.hpp
@@ -41,7 +41,7 @@ STRICT_CONSTEXPR_INLINE void copy(It b, It e, Base& A) {
 
 template <OneDimBaseType Base>
 STRICT_CONSTEXPR_INLINE void copy(use::List1D<ValueTypeOf<Base>> L, Base& A) {
-   copy(L.begin(), L.end(), A);
+   detail::copy(L.begin(), L.end(), A);
 }
 
 
diff --git a/strictpp/array_base1D.hpp b/strictpp/array_base1D.hpp
index 94bea1f..8ce25ce 100644
--- a/strictpp/array_base1D.hpp
+++ b/strictpp/array_base1D.hpp
@@ -188,7 +188,7 @@ template <LinearIteratorType L>
 STRICT_NODISCARD_CONSTEXPR ArrayBase1D<T, AF>::ArrayBase1D(L b, L e)
    : ArrayBase1D(abss(Strict{e - b})) {
    ASSERT_STRICT_DEBUG(e >= b);
-   copy(b, e, *this);
+   detail::copy(b, e, *this);
 }
 
 
diff --git a/strictpp/fixed_array_base1D.hpp b/strictpp/fixed_array_base1D.hpp
index f7992d5..9e7ad0a 100644
--- a/strictpp/fixed_array_base1D.hpp
+++ b/strictpp/fixed_array_base1D.hpp
@@ -106,7 +106,7 @@ template <LinearIteratorType L>
 STRICT_NODISCARD_CONSTEXPR FixedArrayBase1D<T, N, AF>::FixedArrayBase1D(L b, L e) {
    ASSERT_STRICT_DEBUG(index_t{e - b} == N.get());
    ASSERT_STRICT_DEBUG(e >= b);
-   copy(b, e, *this);
+   detail::copy(b, e, *this);
 }
 
 
-- 
2.43.0


From d58ee8d3c1df7b07f19941649cc749756a174501 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:43:47 +0000
Subject: [PATCH 06/29] fix: exclude ignored the offset from the last position

---
 strictpp/Expr/special.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/strictpp/Expr/special.hpp b/strictpp/Expr/special.hpp
index 68f8919..0acc037 100644
--- a/strictpp/Expr/special.hpp
+++ b/strictpp/Expr/special.hpp
@@ -76,7 +76,7 @@ STRICT_CONSTEXPR auto exclude(const Base& A, Pos pos, Count count = Count{1});
 
 
 template <OneDimBaseType Base>
-STRICT_CONSTEXPR auto exclude(const Base& A, [[maybe_unused]] Last lst);
+STRICT_CONSTEXPR auto exclude(const Base& A, Last lst);
 
 
 ////////////////////////////////////////////////////////////////////////////////////////////////////
@@ -410,8 +410,8 @@ STRICT_CONSTEXPR auto exclude(const Base& A, Pos pos, Count count) {
 
 
 template <OneDimBaseType Base>
-STRICT_CONSTEXPR auto exclude(const Base& A, [[maybe_unused]] Last lst) {
-   return exclude(A, A.size_m1());
+STRICT_CONSTEXPR auto exclude(const Base& A, Last lst) {
+   return exclude(A, A.size_m1() - lst.get());
 }
 
 
-- 
2.43.0


From ccc35a794f60e915b488eeda12d33232355960b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:43:47 +0000
Subject: [PATCH 07/29] fix: transpose of a temporary slice or expression
 dangled

---
 strictpp/Expr/special.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/strictpp/Expr/special.hpp b/strictpp/Expr/special.hpp
index 0acc037..d704ed8 100644
--- a/strictpp/Expr/special.hpp
+++ b/strictpp/Expr/special.hpp
@@ -512,7 +512,9 @@ STRICT_CONSTEXPR auto identity(ImplicitInt n) {
 
 template <TwoDimBaseType Base>
 STRICT_CONSTEXPR auto transpose(const Base& A) {
-   auto op = [&A](index_t i, index_t j) { return A.un(j, i); };
+   // Arrays are stored by reference, slices and expressions by copy.
+   auto AE = generate(A, [](auto x) { return x; });
+   auto op = [AE](index_t i, index_t j) { return AE.un(j, i); };
    using E = detail::IndexExpr2D<BuiltinTypeOf<Base>, decltype(op)>;
    return StrictArrayBase2D<E>{A.cols(), A.rows(), op};
 }
-- 
2.43.0


From ad328543a8da31f0aec056d6d93cd2fb598003ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:43:47 +0000
Subject: [PATCH 08/29] fix: matvec_prod with a temporary slice or expression
 dangled

---
 strictpp/Expr/binary.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/strictpp/Expr/binary.hpp b/strictpp/Expr/binary.hpp
index d435432..f89bed9 100644
--- a/strictpp/Expr/binary.hpp
+++ b/strictpp/Expr/binary.hpp
@@ -724,7 +724,9 @@ STRICT_CONSTEXPR auto matvec_prod(const Base1& A, const Base2& x) {
       }
       return s;
    };
-   return row_reduce(A, [&x, &dot](auto row) { return dot(row, x); });
+   // Arrays are stored by reference, slices and expressions by copy.
+   auto xE = generate(x, [](auto z) { return z; });
+   return row_reduce(A, [xE, dot](auto row) { return dot(row, xE); });
 }
 
 
-- 
2.43.0


From c24ab85f06a22a4246f72d7b008f5522018a2d9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:43:47 +0000
Subject: [PATCH 09/29] fix: linspace of a single point was not a number

---
 strictpp/Expr/special.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/strictpp/Expr/special.hpp b/strictpp/Expr/special.hpp
index d704ed8..1c9cbbf 100644
--- a/strictpp/Expr/special.hpp
+++ b/strictpp/Expr/special.hpp
@@ -433,8 +433,9 @@ template <Floating T>
 STRICT_CONSTEXPR auto linspace(ImplicitInt size, Strict<T> start, Strict<T> end) {
    ASSERT_STRICT_DEBUG(size.get() > 0_sl);
    auto sz = size.get();
-   return StrictArrayBase1D<detail::SequenceExpr1D<T>>{
-      start, sz, (end - start) / strict_cast<T>(sz - 1_sl)};
+   // A single point is the start, avoid division by 0.
+   auto incr = sz == 1_sl ? Zero<T> : (end - start) / strict_cast<T>(sz - 1_sl);
+   return StrictArrayBase1D<detail::SequenceExpr1D<T>>{start, sz, incr};
 }
 
 
-- 
2.43.0


From bc4dce38cf6b1699dbdb8275af9f06aaef2cff25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:43:47 +0000
Subject: [PATCH 10/29] fix: tensor_prod and pow_prod accepted temporary arrays

---
 strictpp/Expr/binary.hpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/strictpp/Expr/binary.hpp b/strictpp/Expr/binary.hpp
index f89bed9..2075b34 100644
--- a/strictpp/Expr/binary.hpp
+++ b/strictpp/Expr/binary.hpp
@@ -165,7 +165,8 @@ auto two_prod(Base1&& A1, Base2&& A2) = delete;
 
 
 template <typename Base1, typename Base2>
-   requires(detail::FloatingExprDeleted<Base1, Base2>)
+   requires FloatingBaseType<RemoveRef<Base1>> && SignedIntegerBaseType<RemoveRef<Base2>>
+         && (detail::ArrayFloatingTypeRvalue<Base1> || detail::ArrayIntegerTypeRvalue<Base2>)
 auto pow_prod(Base1&& A1, Base2&& A2) = delete;
 
 
@@ -426,8 +427,9 @@ template <OneDimRealBaseType Base1, OneDimRealBaseType Base2>
 STRICT_CONSTEXPR auto tensor_prod(const Base1& A1, const Base2& A2);
 
 
-template <OneDimRealBaseType Base1, OneDimRealBaseType Base2>
-   requires(detail::RealExprDeleted<Base1, Base2>)
+template <typename Base1, typename Base2>
+   requires OneDimRealBaseType<RemoveRef<Base1>> && OneDimRealBaseType<RemoveRef<Base2>>
+         && (detail::ArrayRealTypeRvalue<Base1> || detail::ArrayRealTypeRvalue<Base2>)
 STRICT_CONSTEXPR auto tensor_prod(Base1&& A1, Base2&& A2) = delete;
 
 
-- 
2.43.0


From 3af52e7d9b970066ac5cfcfcb645beac770a4efc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:45 +0000
Subject: [PATCH 11/29] fix: selecting a list of positions from a temporary
 array compiled and dangled

---
 strictpp/derived1D.hpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/strictpp/derived1D.hpp b/strictpp/derived1D.hpp
index b5d9753..e79feb6 100644
--- a/strictpp/derived1D.hpp
+++ b/strictpp/derived1D.hpp
@@ -230,7 +230,9 @@ public:
       return operator()(std::move(slice));
    }
 
-   STRICT_CONSTEXPR auto operator()(use::IndexList list) && {
+   STRICT_CONSTEXPR auto operator()(use::IndexList list) &&
+      requires(!detail::ArrayOneDimType<StrictArrayBase1D>)
+   {
       return operator()(std::move(list));
    }
 
@@ -251,6 +253,10 @@ public:
       requires detail::ArrayOneDimType<StrictArrayBase1D>
    = delete;
 
+   STRICT_CONSTEXPR auto operator()(use::IndexList list) const&&
+      requires detail::ArrayOneDimType<StrictArrayBase1D>
+   = delete;
+
    STRICT_CONSTEXPR auto view1D() const&&
       requires detail::ArrayOneDimType<StrictArrayBase1D>
    = delete;
-- 
2.43.0


From acece9be2c82e3a1874d755c561db599b6296570 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:45:56 +0000
Subject: [PATCH 12/29] fix: semi_random with a size and bounds could not be
 called

---
 strictpp/Util/semi_random.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/strictpp/Util/semi_random.hpp b/strictpp/Util/semi_random.hpp
index be51207..f6db4ff 100644
--- a/strictpp/Util/semi_random.hpp
+++ b/strictpp/Util/semi_random.hpp
@@ -76,7 +76,7 @@ constexpr void semi_random_not0(Base&&... A);
 
 
 ////////////////////////////////////////////////////////////////////////////////////////////////////
-template <Real T, typename U>
+template <Real T>
 constexpr auto semi_random(ImplicitInt n, Strict<T> low, Strict<T> high,
                            Seed seed = Seed{One<unsigned>});
 
@@ -394,7 +394,7 @@ constexpr void semi_random_not0(Base&&... A) {
 
 
 ////////////////////////////////////////////////////////////////////////////////////////////////////
-template <Real T, typename U>
+template <Real T>
 constexpr auto semi_random(ImplicitInt n, Strict<T> low, Strict<T> high, Seed seed) {
    return detail::semi_random<T>(n, low, high, seed.get());
 }
-- 
2.43.0


From 321c45ecbb7346272053c1ddbfba73e37542a70d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:45:56 +0000
Subject: [PATCH 13/29] fix: semi_random_not0 did not terminate for some bounds

---
 strictpp/Util/semi_random.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/strictpp/Util/semi_random.hpp b/strictpp/Util/semi_random.hpp
index f6db4ff..412f090 100644
--- a/strictpp/Util/semi_random.hpp
+++ b/strictpp/Util/semi_random.hpp
@@ -178,7 +178,8 @@ public:
 
 private:
    static constexpr Strict<unsigned> modulus_{10'000'000U};
-   static constexpr Strict<unsigned> multiplier_{8U};
+   // Full period: multiplier - 1 is divisible by all prime factors of modulus and by 4.
+   static constexpr Strict<unsigned> multiplier_{421U};
    static constexpr Strict<unsigned> increment_{13U};
    mutable Strict<unsigned> previous_;
    Strict<T> low_;
-- 
2.43.0


From c52ffbcf3f826f6635a1b979c13ca46c66e78d5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:48:11 +0000
Subject: [PATCH 14/29] fix: named-argument overloads of semi_random could not
 be called

---
 strictpp/Util/semi_random.hpp | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/strictpp/Util/semi_random.hpp b/strictpp/Util/semi_random.hpp
index 412f090..1968f3a 100644
--- a/strictpp/Util/semi_random.hpp
+++ b/strictpp/Util/semi_random.hpp
@@ -403,7 +403,7 @@ constexpr auto semi_random(ImplicitInt n, Strict<T> low, Strict<T> high, Seed se
 
 template <Real T>
 constexpr auto semi_random(Size n, Low<T> low, High<T> high, Seed seed) {
-   return semi_random<T>(n.get(), low.get(), high.get(), seed.get());
+   return semi_random<T>(n.get(), low.get(), high.get(), seed);
 }
 
 
@@ -415,7 +415,7 @@ constexpr auto semi_random(ImplicitInt n, Seed seed) {
 
 template <Builtin T>
 constexpr auto semi_random(Size n, Seed seed) {
-   return semi_random<T>(n.get(), seed.get());
+   return semi_random<T>(n.get(), seed);
 }
 
 
@@ -427,7 +427,7 @@ constexpr auto semi_random(ImplicitInt m, ImplicitInt n, Strict<T> low, Strict<T
 
 template <Real T>
 constexpr auto semi_random(Rows m, Cols n, Low<T> low, High<T> high, Seed seed) {
-   return semi_random<T>(m.get(), n.get(), low.get(), high.get(), seed.get());
+   return semi_random<T>(m.get(), n.get(), low.get(), high.get(), seed);
 }
 
 
@@ -439,7 +439,7 @@ constexpr auto semi_random(ImplicitInt m, ImplicitInt n, Seed seed) {
 
 template <Builtin T>
 constexpr auto semi_random(Rows m, Cols n, Seed seed) {
-   return semi_random<T>(m.get(), n.get(), seed.get());
+   return semi_random<T>(m.get(), n.get(), seed);
 }
 
 
@@ -452,7 +452,7 @@ constexpr auto semi_random_not0(ImplicitInt n, Strict<T> low, Strict<T> high, Se
 
 template <Real T>
 constexpr auto semi_random_not0(Size n, Low<T> low, High<T> high, Seed seed) {
-   return semi_random_not0<T>(n.get(), low.get(), high.get(), seed.get());
+   return semi_random_not0<T>(n.get(), low.get(), high.get(), seed);
 }
 
 
@@ -464,7 +464,7 @@ constexpr auto semi_random_not0(ImplicitInt n, Seed seed) {
 
 template <Real T>
 constexpr auto semi_random_not0(Size n, Seed seed) {
-   return semi_random_not0<T>(n.get(), seed.get());
+   return semi_random_not0<T>(n.get(), seed);
 }
 
 
@@ -477,7 +477,7 @@ constexpr auto semi_random_not0(ImplicitInt m, ImplicitInt n, Strict<T> low, Str
 
 template <Real T>
 constexpr auto semi_random_not0(Rows m, Cols n, Low<T> low, High<T> high, Seed seed) {
-   return semi_random_not0<T>(m.get(), n.get(), low.get(), high.get(), seed.get());
+   return semi_random_not0<T>(m.get(), n.get(), low.get(), high.get(), seed);
 }
 
 
@@ -489,7 +489,7 @@ constexpr auto semi_random_not0(ImplicitInt m, ImplicitInt n, Seed seed) {
 
 template <Real T>
 constexpr auto semi_random_not0(Rows m, Cols n, Seed seed) {
-   return semi_random_not0<T>(m.get(), n.get(), seed.get());
+   return semi_random_not0<T>(m.get(), n.get(), seed);
 }
 
 
-- 
2.43.0


From c5891744db1289dccb85d34c96660d890b8afd30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:48:11 +0000
Subject: [PATCH 15/29] fix: semi_random over wide integer intervals overflowed

---
 strictpp/Util/semi_random.hpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/strictpp/Util/semi_random.hpp b/strictpp/Util/semi_random.hpp
index 1968f3a..ff91aa4 100644
--- a/strictpp/Util/semi_random.hpp
+++ b/strictpp/Util/semi_random.hpp
@@ -9,6 +9,8 @@
 #include "../StrictCommon/strict_common.hpp"
 #include "random_traits.hpp"
 
+#include <type_traits>
+
 
 namespace spp {
 
@@ -169,7 +171,12 @@ public:
          if(low_ == Zero<T> && high_ == One<T>) {
             return rand_num > this->generate() ? Zero<T> : One<T>;
          } else {
-            return low_ + strict_cast<T>(rand_num) % (high_ - low_ + One<T>);
+            // Unsigned arithmetic, since the number of values may not be representable.
+            using U = std::make_unsigned_t<T>;
+            const U low = static_cast<U>(low_.val());
+            const U count = static_cast<U>(high_.val()) - low + U{1};
+            const U offset = static_cast<U>(rand_num.val());
+            return Strict<T>{static_cast<T>(low + (count != U{0} ? offset % count : offset))};
          }
       } else {
          return rand_num > this->generate() ? false_sb : true_sb;
-- 
2.43.0


From 07052308583f09005d0ad8e7dba5daacb1615ed7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:25:26 +0000
Subject: [PATCH 16/29] fix: qualify two-operand helpers that collide with std
 algorithms

Operands selected by position list are templates over std::vector, so
unqualified generate/all_of/any_of found the std algorithm of the same
name by ADL and two operands of the same type failed to compile.
---
 strictpp/Expr/binary.hpp      | 34 +++++++++++++++++-----------------
 strictpp/Util/error_tools.hpp |  4 ++--
 strictpp/array_ops.hpp        |  2 +-
 3 files changed, 20 insertions(+), 20 deletions(-)

diff --git a/strictpp/Expr/binary.hpp b/strictpp/Expr/binary.hpp
index 2075b34..c2d7fb7 100644
--- a/strictpp/Expr/binary.hpp
+++ b/strictpp/Expr/binary.hpp
@@ -466,93 +466,93 @@ STRICT_CONSTEXPR auto generate(const Base1& A1, const Base2& A2, F f) {
 
 template <RealBaseType Base1, RealBaseType Base2>
 STRICT_CONSTEXPR auto operator+(const Base1& A1, const Base2& A2) {
-   return generate(A1, A2, expr::BinaryPlus{});
+   return spp::generate(A1, A2, expr::BinaryPlus{});
 }
 
 
 template <RealBaseType Base1, RealBaseType Base2>
 STRICT_CONSTEXPR auto operator-(const Base1& A1, const Base2& A2) {
-   return generate(A1, A2, expr::BinaryMinus{});
+   return spp::generate(A1, A2, expr::BinaryMinus{});
 }
 
 
 template <RealBaseType Base1, RealBaseType Base2>
 STRICT_CONSTEXPR auto operator*(const Base1& A1, const Base2& A2) {
-   return generate(A1, A2, expr::BinaryMult{});
+   return spp::generate(A1, A2, expr::BinaryMult{});
 }
 
 
 template <RealBaseType Base1, RealBaseType Base2>
 STRICT_CONSTEXPR auto operator/(const Base1& A1, const Base2& A2) {
-   return generate(A1, A2, expr::BinaryDivide{});
+   return spp::generate(A1, A2, expr::BinaryDivide{});
 }
 
 
 template <IntegerBaseType Base1, IntegerBaseType Base2>
 STRICT_CONSTEXPR auto operator%(const Base1& A1, const Base2& A2) {
-   return generate(A1, A2, expr::BinaryModulo{});
+   return spp::generate(A1, A2, expr::BinaryModulo{});
 }
 
 
 template <IntegerBaseType Base1, IntegerBaseType Base2>
 STRICT_CONSTEXPR auto operator<<(const Base1& A1, const Base2& A2) {
-   return generate(A1, A2, expr::BinaryRightShift{});
+   return spp::generate(A1, A2, expr::BinaryRightShift{});
 }
 
 
 template <IntegerBaseType Base1, IntegerBaseType Base2>
 STRICT_CONSTEXPR auto operator>>(const Base1& A1, const Base2& A2) {
-   return generate(A1, A2, expr::BinaryLeftShift{});
+   return spp::generate(A1, A2, expr::BinaryLeftShift{});
 }
 
 
 template <IntegerBaseType Base1, IntegerBaseType Base2>
 STRICT_CONSTEXPR auto operator&(const Base1& A1, const Base2& A2) {
-   return generate(A1, A2, expr::BinaryBitwiseAnd{});
+   return spp::generate(A1, A2, expr::BinaryBitwiseAnd{});
 }
 
 
 template <IntegerBaseType Base1, IntegerBaseType Base2>
 STRICT_CONSTEXPR auto operator|(const Base1& A1, const Base2& A2) {
-   return generate(A1, A2, expr::BinaryBitwiseOr{});
+   return spp::generate(A1, A2, expr::BinaryBitwiseOr{});
 }
 
 
 template <IntegerBaseType Base1, IntegerBaseType Base2>
 STRICT_CONSTEXPR auto operator^(const Base1& A1, const Base2& A2) {
-   return generate(A1, A2, expr::BinaryBitwiseXor{});
+   return spp::generate(A1, A2, expr::BinaryBitwiseXor{});
 }
 
 
 template <BooleanBaseType Base1, BooleanBaseType Base2>
 STRICT_CONSTEXPR auto operator&&(const Base1& A1, const Base2& A2) {
-   return generate(A1, A2, expr::BinaryBooleanAnd{});
+   return spp::generate(A1, A2, expr::BinaryBooleanAnd{});
 }
 
 
 template <BooleanBaseType Base1, BooleanBaseType Base2>
 STRICT_CONSTEXPR auto operator||(const Base1& A1, const Base2& A2) {
-   return generate(A1, A2, expr::BinaryBooleanOr{});
+   return spp::generate(A1, A2, expr::BinaryBooleanOr{});
 }
 
 
 template <BooleanBaseType Base1, BooleanBaseType Base2>
 STRICT_CONSTEXPR auto operator^(const Base1& A1, const Base2& A2) {
-   return generate(A1, A2, expr::BinaryBooleanXor{});
+   return spp::generate(A1, A2, expr::BinaryBooleanXor{});
 }
 
 
 template <FloatingBaseType Base1, FloatingBaseType Base2>
 auto two_prod(const Base1& A1, const Base2& A2) {
-   return std::pair{generate(A1, A2, expr::BinaryTwoProdFirst{}),
-                    generate(A1, A2, expr::BinaryTwoProdSecond{})};
+   return std::pair{spp::generate(A1, A2, expr::BinaryTwoProdFirst{}),
+                    spp::generate(A1, A2, expr::BinaryTwoProdSecond{})};
 }
 
 
 template <FloatingBaseType Base1, SignedIntegerBaseType Base2>
 auto pow_prod(const Base1& A1, const Base2& A2) {
-   return std::pair{generate(A1, A2, expr::BinaryPowProdFirst{}),
-                    generate(A1, A2, expr::BinaryPowProdSecond{})};
+   return std::pair{spp::generate(A1, A2, expr::BinaryPowProdFirst{}),
+                    spp::generate(A1, A2, expr::BinaryPowProdSecond{})};
 }
 
 
diff --git a/strictpp/Util/error_tools.hpp b/strictpp/Util/error_tools.hpp
index cd884de..969e149 100644
--- a/strictpp/Util/error_tools.hpp
+++ b/strictpp/Util/error_tools.hpp
@@ -64,7 +64,7 @@ STRICT_CONSTEXPR StrictBool within_tol_abs(
    if(A1.empty()) {
       return empty_default;
    }
-   return all_of(A1, A2, [tol](const auto& x, const auto& y) { return within_tol_abs(x, y, tol); });
+   return spp::all_of(A1, A2, [tol](const auto& x, const auto& y) { return within_tol_abs(x, y, tol); });
 }
 
 
@@ -78,7 +78,7 @@ STRICT_CONSTEXPR StrictBool within_tol_rel(
    if(A1.empty()) {
       return empty_default;
    }
-   return all_of(A1, A2, [tol, near_zero](const auto& x, const auto& y) {
+   return spp::all_of(A1, A2, [tol, near_zero](const auto& x, const auto& y) {
       return within_tol_rel(x, y, tol, near_zero);
    });
 }
diff --git a/strictpp/array_ops.hpp b/strictpp/array_ops.hpp
index 536c9f2..07c60e4 100644
--- a/strictpp/array_ops.hpp
+++ b/strictpp/array_ops.hpp
@@ -667,7 +667,7 @@ STRICT_CONSTEXPR StrictBool none_of(const Base1& A1, const Base2& A2, F f,
    if(A1.empty()) {
       return empty_default;
    }
-   return !any_of(A1, A2, f);
+   return !spp::any_of(A1, A2, f);
 }
 
 
-- 
2.43.0


From 949c03bc0621692d73c30ed2daaa1c7e627b14aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:25:07 +0000
Subject: [PATCH 17/29] fix: binom_coeff overflowed on intermediate products of
 representable results

---
 strictpp/StrictCommon/strict_val_ops.hpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/strictpp/StrictCommon/strict_val_ops.hpp b/strictpp/StrictCommon/strict_val_ops.hpp
index 9531dd2..b014b25 100644
--- a/strictpp/StrictCommon/strict_val_ops.hpp
+++ b/strictpp/StrictCommon/strict_val_ops.hpp
@@ -16,6 +16,7 @@
 #include <algorithm>
 #include <cstdlib>
 #include <memory>
+#include <numeric>
 
 
 namespace spp {
@@ -31,12 +32,15 @@ STRICT_NODISCARD_CONSTEXPR_INLINE Strict<long int> factorial(ImplicitInt n) {
 STRICT_NODISCARD_CONSTEXPR_INLINE Strict<long int> binom_coeff(ImplicitInt n, ImplicitInt k) {
    ASSERT_STRICT_DEBUG(k.get() > -1_sl);
    ASSERT_STRICT_DEBUG(n.get() >= k.get());
-   index_t d1 = n.get() - k.get();
-   index_t d2 = k.get();
+   index_t d2 = mins(k.get(), n.get() - k.get());
+   index_t d1 = n.get() - d2;
 
    index_t prod = 1_sl;
-   for(index_t f1 = d1 + 1_sl, f2 = 1_sl; f1 <= d1 + d2; ++f1, ++f2) {
-      prod = prod * f1 / f2; // Can prove that (prod * f1) is divisible by f2.
+   for(index_t f1 = d1 + 1_sl, f2 = 1_sl; f2 <= d2; ++f1, ++f2) {
+      // Can prove that (prod * f1) is divisible by f2. Common factors are cancelled
+      // before multiplication so that only representable values are computed.
+      index_t g{std::gcd(prod.val(), f2.val())};
+      prod = prod / g * (f1 / (f2 / g));
    }
    return prod;
 }
-- 
2.43.0


From 3071e2c9a909a1ffee969f34f5b12c27f6790240 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:26:29 +0000
Subject: [PATCH 18/29] fix: an incomplete or overflowing value at the end of
 the input was dropped silently

---
 strictpp/array_IO.hpp | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/strictpp/array_IO.hpp b/strictpp/array_IO.hpp
index 5ca2934..a6bc2e1 100644
--- a/strictpp/array_IO.hpp
+++ b/strictpp/array_IO.hpp
@@ -104,13 +104,26 @@ inline detail::ArrayFormat array_format;
 namespace detail {
 
 
+// Returns false if there is nothing left to read. A value that is present but cannot be
+// read, including an incomplete one at the very end, is an error.
+template <Builtin T>
+bool next_value(std::istream& is, T& x) {
+   if(!(is >> std::ws).good()) {
+      return false;
+   }
+   is >> x;
+   ASSERT_STRICT_ALWAYS_MSG(!is.fail(), "Invalid input.\n");
+   return true;
+}
+
+
 template <Builtin T, AlignmentFlag AF>
 std::istream& istream_base_read(std::istream& is, Array1D<T, AF>& A) {
    T x{};
    index_t count{};
 
    Array1D<T, AF> tmp(8);
-   while(is >> x) {
+   while(next_value(is, x)) {
       tmp.un(count++) = Strict{x};
       if(tmp.size() == count) {
          tmp.resize(2_sl * count);
@@ -133,7 +146,7 @@ void get_first_row(const std::string& line, Array2D<T, AF>& A) {
    T x{};
    std::istringstream iss{line};
    index_t ncols{};
-   while(iss >> x) {
+   while(next_value(iss, x)) {
       A(0, ncols++) = Strict{x};
       if(A.cols() == ncols) {
          A.resize(1, 2_sl * ncols);
@@ -155,7 +168,7 @@ void get_row(const std::string& line, index_t row, Array2D<T, AF>& A) {
    T x{};
    std::istringstream iss{line};
    index_t ncols{};
-   while(iss >> x) {
+   while(next_value(iss, x)) {
       A(row, ncols++) = Strict{x};
    }
 
-- 
2.43.0


From 6d0571b82b72abce32f6159c60f2e14cb850045a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:26:29 +0000
Subject: [PATCH 19/29] fix: reading a matrix accepted an unreadable stream and
 left the stream in a failed state

---
 strictpp/array_IO.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/strictpp/array_IO.hpp b/strictpp/array_IO.hpp
index a6bc2e1..231adea 100644
--- a/strictpp/array_IO.hpp
+++ b/strictpp/array_IO.hpp
@@ -205,6 +205,9 @@ std::istream& istream_base_read(std::istream& is, Array2D<T, AF>& A) {
       tmp.resize(row_count, ncols);
    }
 
+   ASSERT_STRICT_ALWAYS_MSG(is.eof(), "Invalid input.\n");
+   is.clear();
+
    A.swap(tmp);
    return is;
 }
-- 
2.43.0


From 98d071e05f2d9bf6768b6daa48001ff07f4a179b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:26:29 +0000
Subject: [PATCH 20/29] fix: a matrix row that is too long was written past the
 end of the array when checks are off

---
 strictpp/array_IO.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/strictpp/array_IO.hpp b/strictpp/array_IO.hpp
index 231adea..9cff20c 100644
--- a/strictpp/array_IO.hpp
+++ b/strictpp/array_IO.hpp
@@ -169,6 +169,7 @@ void get_row(const std::string& line, index_t row, Array2D<T, AF>& A) {
    std::istringstream iss{line};
    index_t ncols{};
    while(next_value(iss, x)) {
+      ASSERT_STRICT_ALWAYS_MSG(ncols < A.cols(), "Invalid input.\n");
       A(row, ncols++) = Strict{x};
    }
 
-- 
2.43.0


From 63ab82efd4be714d502c2c26ff63911f5b7adc6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:27:23 +0000
Subject: [PATCH 21/29] fix: printing a matrix that contains the lowest integer
 overflowed

---
 strictpp/array_IO.hpp | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/strictpp/array_IO.hpp b/strictpp/array_IO.hpp
index 9cff20c..7a14f2f 100644
--- a/strictpp/array_IO.hpp
+++ b/strictpp/array_IO.hpp
@@ -15,6 +15,7 @@
 #include <fstream>
 #include <iomanip>
 #include <iostream>
+#include <limits>
 #include <sstream>
 #include <string>
 #include <vector>
@@ -281,16 +282,31 @@ std::ostream& ostream_base_print(std::ostream& os, OneDimBaseType auto const& A,
 }
 
 
+// The absolute value of the lowest integer is not representable, but it has as many digits as
+// the highest one.
+template <Real T>
+Strict<T> abs_for_width(Strict<T> x) {
+   if constexpr(SignedInteger<T>) {
+      if(x.val() == std::numeric_limits<T>::min()) {
+         return Strict{std::numeric_limits<T>::max()};
+      }
+   }
+   return abss(x);
+}
+
+
 auto max_if_needed(TwoDimBaseType auto const& A) {
    using builtin_type = BuiltinTypeOf<decltype(A)>;
    auto max_abs = Zero<builtin_type>;
    if constexpr(Integer<builtin_type> || Floating<builtin_type>) {
       if constexpr(std::is_copy_constructible_v<RemoveRef<decltype(A)>>) {
-         max_abs = max(abs(A.view1D()));
+         for(auto x : A) {
+            max_abs = maxs(max_abs, abs_for_width(x));
+         }
       } else {
          // Handle random expression templates differently since max(abs()) operation
          // is not allowed due to deleted copy constructor.
-         max_abs = maxs(abss(A.low_rand()), abss(A.high_rand()));
+         max_abs = maxs(abs_for_width(A.low_rand()), abs_for_width(A.high_rand()));
       }
    }
    return max_abs;
-- 
2.43.0


From 9f1c01c91056bb71f71e7b7a328bf80948cb38a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:53:47 +0000
Subject: [PATCH 22/29] fix: printing a matrix with non-finite elements in
 fixed format converted infinity to int

---
 strictpp/array_IO.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/strictpp/array_IO.hpp b/strictpp/array_IO.hpp
index 7a14f2f..41a4bf6 100644
--- a/strictpp/array_IO.hpp
+++ b/strictpp/array_IO.hpp
@@ -232,6 +232,9 @@ const auto boolean_spacing = []() -> int { return 6; };
 
 
 const auto floating_spacing = []<Floating T>(Strict<T> x) -> int {
+   if(!isfinites(x)) {
+      x = Zero<T>;
+   }
    return count_digit(x.val()) + format.precision<T>().val() + 2;
 };
 
-- 
2.43.0


From 683742e99f06db61cd78bc9c8b42fa0a563b9fb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:54:40 +0000
Subject: [PATCH 23/29] fix: printing a matrix of extended-precision elements
 did not compile

---
 strictpp/array_IO.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/strictpp/array_IO.hpp b/strictpp/array_IO.hpp
index 41a4bf6..b2e5c34 100644
--- a/strictpp/array_IO.hpp
+++ b/strictpp/array_IO.hpp
@@ -219,7 +219,11 @@ auto count_digit(Real auto number) -> int {
    if(number == 0) {
       return 1;
    }
-   return static_cast<int>(std::log10(number)) + 1;
+   if constexpr(Floating<decltype(number)>) {
+      return static_cast<int>(log10s(Strict{number}).val()) + 1;
+   } else {
+      return static_cast<int>(std::log10(number)) + 1;
+   }
 }
 
 
-- 
2.43.0


From d08178489063e11959d2614b1782599a4eb22c01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:55:01 +0000
Subject: [PATCH 24/29] fix: long renderings of extended-precision numbers were
 cut off

---
 strictpp/StrictCommon/strict_IO.hpp | 18 ++++++++----------
 1 file changed, 8 insertions(+), 10 deletions(-)

diff --git a/strictpp/StrictCommon/strict_IO.hpp b/strictpp/StrictCommon/strict_IO.hpp
index 54cf842..964a4f7 100644
--- a/strictpp/StrictCommon/strict_IO.hpp
+++ b/strictpp/StrictCommon/strict_IO.hpp
@@ -243,16 +243,14 @@ std::istream& operator>>(std::istream& is, Strict<T>& x) {
 
 template <Quadruple T>
 std::ostream& operator<<(std::ostream& os, T x) {
-   static thread_local char buf[128];
-   if(format.scientific_) {
-      std::string frmt = "%+-#*." + std::to_string(format.precision_[3]) + std::string("QE");
-      int width = format.precision_[3] + 7;
-      quadmath_snprintf(buf, sizeof(buf), frmt.c_str(), width, x);
-   } else {
-      std::string frmt = "%+-#*." + std::to_string(format.precision_[3]) + std::string("QF");
-      int width = format.precision_[3] + 3;
-      quadmath_snprintf(buf, sizeof(buf), frmt.c_str(), width, x);
-   }
+   const bool sci = format.scientific_.val();
+   const int width = format.precision_[3] + (sci ? 7 : 3);
+   const std::string frmt =
+       "%+-#*." + std::to_string(format.precision_[3]) + std::string(sci ? "QE" : "QF");
+   const int len = quadmath_snprintf(nullptr, 0, frmt.c_str(), width, x);
+   std::string buf(static_cast<std::string::size_type>(len) + 1, '\0');
+   quadmath_snprintf(buf.data(), buf.size(), frmt.c_str(), width, x);
+   buf.pop_back();
    os << buf;
    return os;
 }
-- 
2.43.0


From c60c83d5824093a08f06ea2a422426c7b5acbfb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:55:34 +0000
Subject: [PATCH 25/29] fix: reading an extended-precision number from an
 exhausted stream gave zero

---
 strictpp/StrictCommon/strict_IO.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/strictpp/StrictCommon/strict_IO.hpp b/strictpp/StrictCommon/strict_IO.hpp
index 964a4f7..1b7732d 100644
--- a/strictpp/StrictCommon/strict_IO.hpp
+++ b/strictpp/StrictCommon/strict_IO.hpp
@@ -226,6 +226,7 @@ std::istream& operator>>(std::istream& is, T& x) {
    const char* s = str.c_str();
    char* p_end;
    x = strtoflt128(s, &p_end);
+   ASSERT_STRICT_ALWAYS(is);
    ASSERT_STRICT_ALWAYS(p_end - s == static_cast<std::ptrdiff_t>(std::strlen(s)));
 
    return is;
-- 
2.43.0


From 7d3d641f68357b18c3afb84e7e7298c67c46cfd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:34:13 +0000
Subject: [PATCH 26/29] fix: semi_random and semi_random_not0 with Rows, Cols
 and a seed did not compile

---
 strictpp/Util/semi_random.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/strictpp/Util/semi_random.hpp b/strictpp/Util/semi_random.hpp
index ff91aa4..4bc584f 100644
--- a/strictpp/Util/semi_random.hpp
+++ b/strictpp/Util/semi_random.hpp
@@ -446,7 +446,7 @@ constexpr auto semi_random(ImplicitInt m, ImplicitInt n, Seed seed) {
 
 template <Builtin T>
 constexpr auto semi_random(Rows m, Cols n, Seed seed) {
-   return semi_random<T>(m.get(), n.get(), seed);
+   return detail::semi_random<T>(m.get(), n.get(), Zero<T>, One<T>, seed.get());
 }
 
 
@@ -496,7 +496,7 @@ constexpr auto semi_random_not0(ImplicitInt m, ImplicitInt n, Seed seed) {
 
 template <Real T>
 constexpr auto semi_random_not0(Rows m, Cols n, Seed seed) {
-   return semi_random_not0<T>(m.get(), n.get(), seed);
+   return detail::semi_random_not0<T>(m.get(), n.get(), Zero<T>, One<T>, seed.get());
 }
 
 
-- 
2.43.0


From e0bd7b339ffd1fc180ea2dddaca43489acf9b83c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:24:14 +0000
Subject: [PATCH 27/29] fix: reject generate() over temporary arrays like every
 other lazy operation

---
 strictpp/Expr/binary.hpp | 6 ++++++
 strictpp/Expr/unary.hpp  | 5 +++++
 2 files changed, 11 insertions(+)

diff --git a/strictpp/Expr/binary.hpp b/strictpp/Expr/binary.hpp
index c2d7fb7..2a6866f 100644
--- a/strictpp/Expr/binary.hpp
+++ b/strictpp/Expr/binary.hpp
@@ -94,6 +94,12 @@ auto pow_prod(const Base1& A1, const Base2& A2);
 // a deleted overload in some cases, such as Array1D<double>(3) + 1._sd.
 
 
+template <typename Base1, typename Base2, typename F>
+   requires BaseType<RemoveRef<Base1>> && BaseType<RemoveRef<Base2>>
+         && (detail::ArrayTypeRvalue<Base1> || detail::ArrayTypeRvalue<Base2>)
+STRICT_CONSTEXPR auto generate(Base1&& A1, Base2&& A2, F f) = delete;
+
+
 template <typename Base1, typename Base2>
    requires(detail::RealExprDeleted<Base1, Base2>)
 STRICT_CONSTEXPR auto operator+(Base1&& A1, Base2&& A2) = delete;
diff --git a/strictpp/Expr/unary.hpp b/strictpp/Expr/unary.hpp
index a9f1cb8..9c0695f 100644
--- a/strictpp/Expr/unary.hpp
+++ b/strictpp/Expr/unary.hpp
@@ -100,6 +100,11 @@ STRICT_CONSTEXPR auto array_cast(const Base& A);
 
 ////////////////////////////////////////////////////////////////////////////////////////////////////
 // Deleted overloads.
+template <typename Base, typename F>
+   requires detail::ArrayTypeRvalue<Base>
+STRICT_CONSTEXPR auto generate(Base&& A, F f) = delete;
+
+
 template <typename Base>
    requires detail::ArrayRealTypeRvalue<Base>
 STRICT_CONSTEXPR auto operator+(Base&& A) = delete;
-- 
2.43.0


From 33bb79a8668d673c971e9645ffcaeb4295b480e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:31:48 +0000
Subject: [PATCH 28/29] fix: clamps of floating-point values can be evaluated
 in constant expressions

---
 strictpp/StrictCommon/strict_val_ops.hpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/strictpp/StrictCommon/strict_val_ops.hpp b/strictpp/StrictCommon/strict_val_ops.hpp
index b014b25..d747b2b 100644
--- a/strictpp/StrictCommon/strict_val_ops.hpp
+++ b/strictpp/StrictCommon/strict_val_ops.hpp
@@ -50,9 +50,10 @@ template <Real T>
 STRICT_NODISCARD_CONSTEXPR_INLINE Strict<T> clamps(Strict<T> x, Strict<T> low, Strict<T> high) {
    ASSERT_STRICT_DEBUG(low <= high);
    if constexpr(Floating<T>) {
-      ASSERT_STRICT_DEBUG(!isnans(x));
-      ASSERT_STRICT_DEBUG(!isnans(low));
-      ASSERT_STRICT_DEBUG(!isnans(high));
+      // NaN is unequal to itself; isnans is not a constant expression before C++23.
+      ASSERT_STRICT_DEBUG(x == x);
+      ASSERT_STRICT_DEBUG(low == low);
+      ASSERT_STRICT_DEBUG(high == high);
    }
    return Strict{std::clamp(x.val(), low.val(), high.val())};
 }
-- 
2.43.0


From 1a6321b2d55ecdc8735854097a5b2818726fca03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:25:10 +0000
Subject: [PATCH 29/29] fix: eigen::map of fixed-size column arrays did not
 compile

---
 strictpp/Eigen/map.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/strictpp/Eigen/map.hpp b/strictpp/Eigen/map.hpp
index bd282f2..0dfadd6 100644
--- a/strictpp/Eigen/map.hpp
+++ b/strictpp/Eigen/map.hpp
@@ -63,9 +63,12 @@ auto map(Base&& A) {
    using base = RemoveRef<Base>;
 
    if constexpr(base::is_fixed()) {
+      // Eigen requires fixed-size column vectors to be column-major, the layout is the same.
+      constexpr int order
+         = base::cols().val() == 1 && base::rows().val() != 1 ? int{ColMajor} : int{RowMajor};
       using matrix_type = detail::CopyConstTo<
          base,
-         Matrix<builtin_type, base::rows().val(), base::cols().val(), RowMajor>>::value_type;
+         Matrix<builtin_type, base::rows().val(), base::cols().val(), order>>::value_type;
 
       return Map<matrix_type, detail::eigen_align<base>()>{A.blas_data()};
    } else {
-- 
2.43.0

