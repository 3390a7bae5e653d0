From 831e5627adfd4b4a1cfa557b2cdffdc7d903379d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:03:43 +0000
Subject: [PATCH 01/44] fix: compare both rationals in lowest terms in
 operator==

---
 public/gal/numeric.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/public/gal/numeric.hpp b/public/gal/numeric.hpp
index 525f700..f2e8f9e 100644
--- a/public/gal/numeric.hpp
+++ b/public/gal/numeric.hpp
@@ -374,7 +374,7 @@ namespace detail
 [[nodiscard]] constexpr bool operator==(rat lhs, rat rhs) noexcept
 {
     auto gcd1 = std::gcd(lhs.num, lhs.den);
-    auto gcd2 = std::gcd(rhs.den, rhs.den);
+    auto gcd2 = std::gcd(rhs.num, rhs.den);
     return lhs.num / gcd1 == rhs.num / gcd2 && lhs.den / gcd1 == rhs.den / gcd2;
 }
 
-- 
2.43.0


From 33c48c635a986a56483a6651d3aa2bd513398dc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:03:49 +0000
Subject: [PATCH 02/44] fix: rational inequality is the negation of equality

---
 public/gal/numeric.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/public/gal/numeric.hpp b/public/gal/numeric.hpp
index f2e8f9e..c6fb102 100644
--- a/public/gal/numeric.hpp
+++ b/public/gal/numeric.hpp
@@ -380,12 +380,12 @@ namespace detail
 
 [[nodiscard]] constexpr bool operator!=(rat lhs, int rhs) noexcept
 {
-    return lhs.den != 1 || lhs.num != rhs;
+    return lhs.num != rhs * lhs.den;
 }
 
 [[nodiscard]] constexpr bool operator!=(rat lhs, rat rhs) noexcept
 {
-    return lhs.num != rhs.num || lhs.den != rhs.den;
+    return !(lhs == rhs);
 }
 
 [[nodiscard]] constexpr bool operator<(rat lhs, rat rhs) noexcept
-- 
2.43.0


From ad260d06247c8a630c89307c2d26981238fc2e84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:03:55 +0000
Subject: [PATCH 03/44] fix: keep rational denominators positive when dividing
 by a negative number

---
 public/gal/numeric.hpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/public/gal/numeric.hpp b/public/gal/numeric.hpp
index c6fb102..43beed5 100644
--- a/public/gal/numeric.hpp
+++ b/public/gal/numeric.hpp
@@ -185,7 +185,7 @@ struct rat
 
     [[nodiscard]] constexpr rat reciprocal() const noexcept
     {
-        return {den, num};
+        return num < 0 ? rat{-den, -num} : rat{den, num};
     }
 
     [[nodiscard]] constexpr rat negation() const noexcept
@@ -203,6 +203,11 @@ struct rat
     {
         num *= other.num;
         den *= other.den;
+        if (den < 0)
+        {
+            num = -num;
+            den = -den;
+        }
         if (num == 0)
         {
             den = 1;
-- 
2.43.0


From 729635a0ce86704e4c2e5d0013290ee929305c93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:04:01 +0000
Subject: [PATCH 04/44] fix: the zeroth power is one

---
 public/gal/numeric.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/public/gal/numeric.hpp b/public/gal/numeric.hpp
index 43beed5..de87d52 100644
--- a/public/gal/numeric.hpp
+++ b/public/gal/numeric.hpp
@@ -19,7 +19,11 @@ template <typename T, int N, int D>
 [[nodiscard]] GAL_FORCE_INLINE constexpr T
 pow(T s, std::integral_constant<int, N>, std::integral_constant<int, D>) noexcept
 {
-    if constexpr (D > 1)
+    if constexpr (N == 0)
+    {
+        return T{1};
+    }
+    else if constexpr (D > 1)
     {
         return std::pow(s, T{N} / T{D});
     }
-- 
2.43.0


From fe79d6985f75c41adb792244b2d45938d491d7f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:04:07 +0000
Subject: [PATCH 05/44] fix: do not perturb rationals with odd numerators
 beyond the stated error

---
 public/gal/numeric.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/public/gal/numeric.hpp b/public/gal/numeric.hpp
index de87d52..eddde16 100644
--- a/public/gal/numeric.hpp
+++ b/public/gal/numeric.hpp
@@ -329,7 +329,8 @@ namespace detail
             {
                 double n_d     = static_cast<double>(in.num);
                 double d_d     = static_cast<double>(in.den);
-                double epsilon = abs(n_d / d_d / d_d);
+                // Moving an odd numerator by one costs an additional 1 / d
+                double epsilon = (abs(n_d) + (in.num % 2 == 0 ? 0.0 : d_d)) / d_d / d_d;
                 double frac    = n_d / d_d;
 
                 if (abs(frac) < 1e-7)
-- 
2.43.0


From 49d1ef35955426e31a65602e3060cce068fbd088 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:04:12 +0000
Subject: [PATCH 06/44] fix: popping a stack returns its top element

---
 public/gal/expr.hpp  | 2 +-
 public/gal/stack.hpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/public/gal/expr.hpp b/public/gal/expr.hpp
index e655f06..3c7857c 100644
--- a/public/gal/expr.hpp
+++ b/public/gal/expr.hpp
@@ -181,7 +181,7 @@ namespace detail
 
         constexpr node pop() noexcept
         {
-            return nodes[count--];
+            return nodes[--count];
         }
 
         constexpr void pop(width_t n) noexcept
diff --git a/public/gal/stack.hpp b/public/gal/stack.hpp
index 6403d1c..72da829 100644
--- a/public/gal/stack.hpp
+++ b/public/gal/stack.hpp
@@ -41,7 +41,7 @@ namespace detail
 
         constexpr T pop() noexcept
         {
-            return data[count--];
+            return data[--count];
         }
 
         constexpr T pop(size_t n) noexcept
-- 
2.43.0


From f02b15c6cb2d3b97d1a68a18b8e638150b166445 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:04:17 +0000
Subject: [PATCH 07/44] fix: splitting a tuple at index zero keeps its elements

---
 public/gal/tuple.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/public/gal/tuple.hpp b/public/gal/tuple.hpp
index 5a05971..851e30c 100644
--- a/public/gal/tuple.hpp
+++ b/public/gal/tuple.hpp
@@ -206,7 +206,7 @@ private:
     {
         if constexpr (sizeof...(I1) == 0)
         {
-            if constexpr (sizeof...(I1) == 0)
+            if constexpr (sizeof...(I2) == 0)
             {
                 return make_pair(tuple<>{}, tuple<>{});
             }
-- 
2.43.0


From 8b14f73a89b7b8caa78540bdd3ce69f22feae4f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:04:57 +0000
Subject: [PATCH 08/44] fix: split_drop omits the element at the split point

---
 public/gal/tuple.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/public/gal/tuple.hpp b/public/gal/tuple.hpp
index 851e30c..7ff7a0c 100644
--- a/public/gal/tuple.hpp
+++ b/public/gal/tuple.hpp
@@ -128,8 +128,8 @@ struct tuple : public tuple_impl<std::make_index_sequence<sizeof...(T)>, T...>
     template <size_t I>
     constexpr auto split_drop() const
     {
-        return split_n(
-            std::make_index_sequence<I>{}, std::make_index_sequence<sizeof...(T) - I - 1>{});
+        auto const parts = split<I>();
+        return make_pair(parts.first, parts.second.pop().second);
     }
 
     // This is a somewhat specialized operation that splits the tuple on the first occurence of the
-- 
2.43.0


From a3398b2aad2b7131a2f31406e0f90a954c9983e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:05:03 +0000
Subject: [PATCH 09/44] fix: accept raw floating point inputs before other
 inputs

---
 public/gal/expr.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/public/gal/expr.hpp b/public/gal/expr.hpp
index 3c7857c..f2ea9bb 100644
--- a/public/gal/expr.hpp
+++ b/public/gal/expr.hpp
@@ -282,7 +282,7 @@ namespace detail
 
         if constexpr (sizeof...(Ds) > 0)
         {
-            if (std::is_floating_point_v<D>)
+            if constexpr (std::is_floating_point_v<D>)
             {
                 return rpne_entities<A, S, Ds...>(out, current_id + 1, i + 1);
             }
-- 
2.43.0


From 0181374e67476d9f4576f32d603111c174298bb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:05:09 +0000
Subject: [PATCH 10/44] fix: nodes with different scaling constants are not
 equal

---
 public/gal/expr.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/public/gal/expr.hpp b/public/gal/expr.hpp
index f2ea9bb..674bedd 100644
--- a/public/gal/expr.hpp
+++ b/public/gal/expr.hpp
@@ -114,7 +114,8 @@ namespace detail
 
         constexpr bool operator==(node const& other) const
         {
-            return o == other.o && checksum == other.checksum && ex == other.ex;
+            return o == other.o && checksum == other.checksum && ex == other.ex
+                   && q.num == other.q.num && q.den == other.q.den;
         }
 
         constexpr bool operator!=(node const& other) const
-- 
2.43.0


From e7a1da791b01b0331f9a2a2555b5b84f5e008fe6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:05:15 +0000
Subject: [PATCH 11/44] fix: gal::E denotes the Euler constant

---
 public/gal/expr.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/public/gal/expr.hpp b/public/gal/expr.hpp
index 674bedd..c08a2cc 100644
--- a/public/gal/expr.hpp
+++ b/public/gal/expr.hpp
@@ -369,7 +369,8 @@ namespace detail
         template <typename A>
         constexpr rpne<A, 1> convert() const noexcept
         {
-            return {{node{c_pi, c_pi}}, 1, q};
+            uint32_t const c = c_const_start + static_cast<uint32_t>(id - ind_constant_start);
+            return {{node{c, c}}, 1, q};
         }
     };
 } // namespace detail
-- 
2.43.0


From 640d1f0ee5afc81fa0c99741f347a3337f320f43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:05:21 +0000
Subject: [PATCH 12/44] fix: scale the remaining lhs summands by the lhs factor
 when merging sums

---
 public/gal/expr.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/public/gal/expr.hpp b/public/gal/expr.hpp
index c08a2cc..b17e533 100644
--- a/public/gal/expr.hpp
+++ b/public/gal/expr.hpp
@@ -445,7 +445,7 @@ constexpr detail::rpne<A, S1 + S2 + 3> operator+(detail::rpne<A, S1> lhs, detail
                 {
                     auto lhs_summand = lhs.nodes[lhs_index++];
                     ++summand_count;
-                    lhs_summand.q *= rhs.q;
+                    lhs_summand.q *= lhs.q;
                     out.nodes[out.count++] = lhs_summand;
                     for (width_t i = 0; i != lhs_summand.ex; ++i)
                     {
-- 
2.43.0


From c7b51430df2e884b211a1925c6729ed3efde1d24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:05:28 +0000
Subject: [PATCH 13/44] fix: a sum whose summands all cancel is exactly zero

---
 public/gal/expr.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/public/gal/expr.hpp b/public/gal/expr.hpp
index b17e533..5624330 100644
--- a/public/gal/expr.hpp
+++ b/public/gal/expr.hpp
@@ -670,6 +670,12 @@ constexpr detail::rpne<A, S1 + S2 + 3> operator+(detail::rpne<A, S1> lhs, detail
         summand_count = 2;
     }
 
+    if (summand_count == 0)
+    {
+        // Every summand was canceled
+        return out;
+    }
+
     // Do a final pass to see if the sum has been collapsed to a single term
     if (summand_count == 1)
     {
-- 
2.43.0


From 9aefce32c32d4b3351ff8308b3e9228766155ef5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:05:33 +0000
Subject: [PATCH 14/44] fix: adding zero preserves the scaling constant of the
 other operand

---
 public/gal/expr.hpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/public/gal/expr.hpp b/public/gal/expr.hpp
index 5624330..03964df 100644
--- a/public/gal/expr.hpp
+++ b/public/gal/expr.hpp
@@ -388,15 +388,19 @@ constexpr detail::rpne<A, S1 + S2 + 3> operator+(detail::rpne<A, S1> lhs, detail
     rpne<A, S1 + S2 + 3> out;
 
     // Early out if either the lhs or the rhs is exactly zero
-    if (lhs.count == 0 || rhs.count == 0)
+    bool lhs_zero = lhs.count == 0 || lhs.q.is_zero();
+    bool rhs_zero = rhs.count == 0 || rhs.q.is_zero();
+    if (lhs_zero || rhs_zero)
     {
-        if (lhs.count == 0)
+        if (!rhs_zero)
         {
             out.append(rhs);
+            out.q = rhs.q;
         }
-        else
+        else if (!lhs_zero)
         {
             out.append(lhs);
+            out.q = lhs.q;
         }
         return out;
     }
-- 
2.43.0


From cd39b5d5115c9a56589e366a9750ad7ef6d24824 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:05:39 +0000
Subject: [PATCH 15/44] fix: a product with an exactly zero operand is zero

---
 public/gal/expr.hpp | 32 ++++----------------------------
 1 file changed, 4 insertions(+), 28 deletions(-)

diff --git a/public/gal/expr.hpp b/public/gal/expr.hpp
index 03964df..9d4a24c 100644
--- a/public/gal/expr.hpp
+++ b/public/gal/expr.hpp
@@ -945,14 +945,8 @@ template <typename A, width_t S1, width_t S2>
 constexpr auto operator*(detail::rpne<A, S1> const& lhs, detail::rpne<A, S2> const& rhs)
 {
     detail::rpne<A, S1 + S2 + 1> out;
-    if (lhs.count == 0)
+    if (lhs.count == 0 || rhs.count == 0)
     {
-        out.append(rhs);
-        return out;
-    }
-    else if (rhs.count == 0)
-    {
-        out.append(lhs);
         return out;
     }
 
@@ -1072,14 +1066,8 @@ template <typename A, width_t S1, width_t S2>
 constexpr auto operator>>(detail::rpne<A, S1> const& lhs, detail::rpne<A, S2> const& rhs)
 {
     detail::rpne<A, S1 + S2 + 1> out;
-    if (lhs.count == 0)
+    if (lhs.count == 0 || rhs.count == 0)
     {
-        out.append(rhs);
-        return out;
-    }
-    else if (rhs.count == 0)
-    {
-        out.append(lhs);
         return out;
     }
 
@@ -1102,14 +1090,8 @@ template <typename A, width_t S1, width_t S2>
 constexpr auto operator|(detail::rpne<A, S1> const& lhs, detail::rpne<A, S2> const& rhs)
 {
     detail::rpne<A, S1 + S2 + 1> out;
-    if (lhs.count == 0)
+    if (lhs.count == 0 || rhs.count == 0)
     {
-        out.append(rhs);
-        return out;
-    }
-    else if (rhs.count == 0)
-    {
-        out.append(lhs);
         return out;
     }
 
@@ -1146,14 +1128,8 @@ template <typename A, width_t S1, width_t S2>
 constexpr auto scalar_product(detail::rpne<A, S1> const& lhs, detail::rpne<A, S2> const& rhs)
 {
     detail::rpne<A, S1 + S2 + 2> out;
-    if (lhs.count == 0)
+    if (lhs.count == 0 || rhs.count == 0)
     {
-        out.append(rhs);
-        return out;
-    }
-    else if (rhs.count == 0)
-    {
-        out.append(lhs);
         return out;
     }
 
-- 
2.43.0


From 1f13aa6c4cbc8bf377e38da1381443c840c469eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:05:45 +0000
Subject: [PATCH 16/44] fix: reversion and dual preserve the scaling constant

---
 public/gal/expr.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/public/gal/expr.hpp b/public/gal/expr.hpp
index 9d4a24c..74ae8e6 100644
--- a/public/gal/expr.hpp
+++ b/public/gal/expr.hpp
@@ -843,6 +843,7 @@ constexpr auto operator~(detail::rpne<A, S> const& in)
     }
 
     out.append(in);
+    out.q = in.q;
 
     if (in.back().o == detail::op_rev)
     {
@@ -866,6 +867,7 @@ constexpr auto operator!(detail::rpne<A, S> const& in)
 
     out.append(in);
     out.append(detail::op_pd);
+    out.q = in.q;
     return out;
 }
 
-- 
2.43.0


From b0ba4d72082eef46782f0b61673d61052201a9b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:05:50 +0000
Subject: [PATCH 17/44] fix: chained exterior products preserve the scaling
 constants

---
 public/gal/expr.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/public/gal/expr.hpp b/public/gal/expr.hpp
index 74ae8e6..d5d5f87 100644
--- a/public/gal/expr.hpp
+++ b/public/gal/expr.hpp
@@ -984,10 +984,12 @@ constexpr auto operator^(detail::rpne<A, S1> const& lhs, detail::rpne<A, S2> con
 {
     detail::rpne<A, S1 + S2 + 3> out;
 
-    if (lhs.count == 0 || rhs.count == 0 || rhs.q.is_zero() || lhs.q.is_zero())
+    auto q = lhs.q * rhs.q;
+    if (lhs.count == 0 || rhs.count == 0 || q.is_zero())
     {
         return out;
     }
+    out.q = q;
 
     bool lhs_ep = lhs.back().o == detail::op_ep;
     bool rhs_ep = rhs.back().o == detail::op_ep;
@@ -1037,7 +1039,6 @@ constexpr auto operator^(detail::rpne<A, S1> const& lhs, detail::rpne<A, S2> con
         out.append(lhs);
         out.nodes[out.count++] = detail::node{detail::op_se, rhs_checksum, rhs.count, zero};
         out.append(rhs);
-        out.q = lhs.q * rhs.q;
     }
 
     // Loop through all ep factors to compute the bloom filter
-- 
2.43.0


From eeb2ee18cb74e0442f50f0e29c4087216e316d3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:05:56 +0000
Subject: [PATCH 18/44] fix: division accounts for the value of a constant or
 zero dividend

---
 public/gal/expr.hpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/public/gal/expr.hpp b/public/gal/expr.hpp
index d5d5f87..6c51118 100644
--- a/public/gal/expr.hpp
+++ b/public/gal/expr.hpp
@@ -777,10 +777,14 @@ template <typename A, width_t S>
 constexpr auto operator/(int lhs, detail::rpne<A, S> const& rhs)
 {
     detail::rpne<A, S + 2> out;
-    out.append(detail::rpne_from_constant<A>(lhs, 1));
+    if (lhs == 0)
+    {
+        return out;
+    }
+    out.append(detail::rpne_from_constant<A>(1, 1));
     out.append(rhs);
     out.append(detail::op_div);
-    out.back().q = rhs.q.reciprocal();
+    out.back().q = rat{lhs, 1} / rhs.q;
     out.q        = one;
     return out;
 }
@@ -789,6 +793,10 @@ template <typename A, width_t S1, width_t S2>
 constexpr auto operator/(detail::rpne<A, S1> const& lhs, detail::rpne<A, S2> const& rhs)
 {
     detail::rpne<A, S1 + S2 + 1> out;
+    if (lhs.count == 0 || lhs.q.is_zero())
+    {
+        return out;
+    }
     out.append(lhs);
     out.append(rhs);
     out.append(detail::op_div);
-- 
2.43.0


From 56e1de96b7735e1b40ef3caae764591723eedcfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:06:03 +0000
Subject: [PATCH 19/44] fix: the symmetric inner product does not commute in
 general

---
 public/gal/expr.hpp | 14 +++-----------
 1 file changed, 3 insertions(+), 11 deletions(-)

diff --git a/public/gal/expr.hpp b/public/gal/expr.hpp
index 6c51118..048569e 100644
--- a/public/gal/expr.hpp
+++ b/public/gal/expr.hpp
@@ -1113,19 +1113,11 @@ constexpr auto operator|(detail::rpne<A, S1> const& lhs, detail::rpne<A, S2> con
     }
 
     out.q = q;
-    if (lhs.back().checksum < rhs.back().checksum)
-    {
-        out.append(lhs);
-        out.append(rhs);
-    }
-    else
-    {
-        out.append(rhs);
-        out.append(lhs);
-    }
+    out.append(lhs);
+    out.append(rhs);
     out.append(detail::op_sip);
     out.nodes[out.count - 1].checksum
-        = detail::crc32(lhs.back().checksum + rhs.back().checksum + (detail::op_sip << 8));
+        = detail::crc32(lhs.back().checksum + ~rhs.back().checksum + (detail::op_sip << 8));
     return out;
 }
 
-- 
2.43.0


From b90b3fdf2c98f10507b49f1948815e71b882d3e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:06:11 +0000
Subject: [PATCH 20/44] fix: the scalar product is the scalar part of the
 geometric product

---
 public/gal/expr.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/public/gal/expr.hpp b/public/gal/expr.hpp
index 048569e..d040f80 100644
--- a/public/gal/expr.hpp
+++ b/public/gal/expr.hpp
@@ -1154,11 +1154,11 @@ constexpr auto scalar_product(detail::rpne<A, S1> const& lhs, detail::rpne<A, S2
         out.append(lhs);
     }
 
-    // Implement the scalar product as the scalar component of the symmetric inner product
+    // Implement the scalar product as the scalar component of the geometric product
 
-    out.append(detail::op_sip);
+    out.append(detail::op_gp);
     out.nodes[out.count - 1].checksum
-        = detail::crc32(lhs.back().checksum + rhs.back().checksum + (detail::op_sip << 8));
+        = detail::crc32(lhs.back().checksum + rhs.back().checksum + (detail::op_gp << 8));
 
     out.append(detail::op_comp);
     out.nodes[out.count - 1].ex       = 0;
-- 
2.43.0


From fccd9e5fe26910b95eab5c620a80ce0c2dbd21dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:06:50 +0000
Subject: [PATCH 21/44] fix: unary functions and selections of an exactly zero
 expression

---
 public/gal/expr.hpp | 25 +++++++++++++++++++++++++
 1 file changed, 25 insertions(+)

diff --git a/public/gal/expr.hpp b/public/gal/expr.hpp
index d040f80..e9d03a6 100644
--- a/public/gal/expr.hpp
+++ b/public/gal/expr.hpp
@@ -143,6 +143,10 @@ namespace detail
         constexpr auto operator[](elem_t e) noexcept
         {
             rpne<A, S + 1> out;
+            if (count == 0)
+            {
+                return out;
+            }
             out.append(*this);
             // Using operator[] successfully is not expected behavior, so we don't bother computing
             // the checksum in a fancy manner.
@@ -154,6 +158,10 @@ namespace detail
         constexpr auto select_grade(elem_t g) noexcept
         {
             rpne<A, S + 1> out;
+            if (count == 0)
+            {
+                return out;
+            }
             out.append(*this);
             out.nodes[out.count++] = node{op_grd, back().checksum + ~g, g};
             out.q                  = q;
@@ -883,6 +891,10 @@ template <typename A, width_t S>
 constexpr auto sqrt(detail::rpne<A, S> const& in)
 {
     detail::rpne<A, S + 1> out;
+    if (in.count == 0 || in.q.is_zero())
+    {
+        return out;
+    }
     out.append(in);
     out.append(detail::op_sqrt);
     out.back().q = in.q;
@@ -894,6 +906,10 @@ template <typename A, width_t S>
 constexpr auto sin(detail::rpne<A, S> const& in)
 {
     detail::rpne<A, S + 1> out;
+    if (in.count == 0 || in.q.is_zero())
+    {
+        return out;
+    }
     out.append(in);
     out.append(detail::op_sin);
     out.back().q = in.q;
@@ -905,6 +921,11 @@ template <typename A, width_t S>
 constexpr auto cos(detail::rpne<A, S> const& in)
 {
     detail::rpne<A, S + 1> out;
+    if (in.count == 0 || in.q.is_zero())
+    {
+        out.append(detail::rpne_from_constant<A>(1, 1));
+        return out;
+    }
     out.append(in);
     out.append(detail::op_cos);
     out.back().q = in.q;
@@ -916,6 +937,10 @@ template <typename A, width_t S>
 constexpr auto tan(detail::rpne<A, S> const& in)
 {
     detail::rpne<A, S + 1> out;
+    if (in.count == 0 || in.q.is_zero())
+    {
+        return out;
+    }
     out.append(in);
     out.append(detail::op_tan);
     out.back().q = in.q;
-- 
2.43.0


From 04de129fc5bba84a82f6e0b35f40f22fa908ea18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:06:57 +0000
Subject: [PATCH 22/44] fix: results scaled by zero are exactly zero

---
 public/gal/expr.hpp | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/public/gal/expr.hpp b/public/gal/expr.hpp
index e9d03a6..e8fc82e 100644
--- a/public/gal/expr.hpp
+++ b/public/gal/expr.hpp
@@ -236,6 +236,12 @@ namespace detail
         template <width_t S1>
         constexpr void append_as_se(rpne<A, S1> const& src) noexcept
         {
+            if (src.count == 0 || src.q.is_zero())
+            {
+                nodes[count++] = node{op_se, 0, 1, one};
+                nodes[count++] = node{c_zero, c_zero};
+                return;
+            }
             nodes[count++] = node{op_se, 0, src.count, src.q};
             for (width_t i = 0; i != src.count; ++i)
             {
@@ -365,7 +371,12 @@ namespace detail
         }
         else
         {
-            return input;
+            auto out = input;
+            if (out.q.is_zero())
+            {
+                out.count = 0;
+            }
+            return out;
         }
     }
 
-- 
2.43.0


From bd201f93961d10b9adfe57d0924e2a810e51b733 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:07:02 +0000
Subject: [PATCH 23/44] fix: the cosine of an identically zero multivector is
 one

---
 public/gal/dfa.hpp | 22 ++++++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/public/gal/dfa.hpp b/public/gal/dfa.hpp
index d5abb9e..fdfe7e2 100644
--- a/public/gal/dfa.hpp
+++ b/public/gal/dfa.hpp
@@ -778,10 +778,24 @@ namespace detail
             }
             else if constexpr (n.o == op_cos)
             {
-                auto args                    = State.args;
-                args.template get<0>().first = n.checksum;
-                args.template get<0>().second.cos(n.q);
-                return rpn_state{State.inputs, State.temps, args, State.id_count};
+                if constexpr (State.args.template get<0>().second.size.term == 0)
+                {
+                    // The argument is identically zero
+                    constexpr auto pop = State.args.pop();
+                    mv<algebra_t, 0, 1, 1> c{
+                        mv_size{0, 1, 1}, {}, {mon{one, zero, 0, 0}}, {term{1, 0, 0}}};
+                    return rpn_state{State.inputs,
+                                     State.temps,
+                                     pop.second.push(make_pair(n.checksum, c)),
+                                     State.id_count};
+                }
+                else
+                {
+                    auto args                    = State.args;
+                    args.template get<0>().first = n.checksum;
+                    args.template get<0>().second.cos(n.q);
+                    return rpn_state{State.inputs, State.temps, args, State.id_count};
+                }
             }
             else if constexpr (n.o == op_tan)
             {
-- 
2.43.0


From bf7e06f417ce6e8d8842f3296fb55efd1378440f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:07:08 +0000
Subject: [PATCH 24/44] fix: adjust the lengths of tuple results after
 subexpression extraction

---
 public/gal/dfa.hpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/public/gal/dfa.hpp b/public/gal/dfa.hpp
index fdfe7e2..50377be 100644
--- a/public/gal/dfa.hpp
+++ b/public/gal/dfa.hpp
@@ -581,6 +581,14 @@ namespace detail
             }
         }
 
+        // The subexpressions that remain are the individual results of a tuple
+        for (width_t k = 0; k != se_stack.count; ++k)
+        {
+            auto [se, offset] = se_stack[k];
+            width_t end       = k + 1 == se_stack.count ? out.count : se_stack[k + 1].second - 1;
+            se->ex            = end - offset;
+        }
+
         out.q = expr.q;
         return out;
     }
-- 
2.43.0


From bda6576b3706a3c45ce39e4caa93236c8cac44a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:07:13 +0000
Subject: [PATCH 25/44] fix: always extract the operands of divisions and
 scalar functions

---
 public/gal/dfa.hpp | 73 +++++++++++++++++++++++++---------------------
 1 file changed, 40 insertions(+), 33 deletions(-)

diff --git a/public/gal/dfa.hpp b/public/gal/dfa.hpp
index 50377be..f7b40b5 100644
--- a/public/gal/dfa.hpp
+++ b/public/gal/dfa.hpp
@@ -232,6 +232,43 @@ namespace detail
         return 0;
     }
 
+    // Ensure that the operand occupying the nodes in [offset, end) is extracted. Leaves (inputs and
+    // constants) are used as is.
+    template <typename A, width_t C>
+    constexpr void
+    require_operand(rpne<A, C>& exp, cses<C>& known, width_t offset, width_t end) noexcept
+    {
+        node& first = exp.nodes[offset];
+        if (first.o == op_cse && first.checksum == end)
+        {
+            known.ses[first.ex].required = true;
+            return;
+        }
+
+        if (end - offset == 1)
+        {
+            return;
+        }
+
+        for (width_t i = 0; i != known.count; ++i)
+        {
+            if (known.ses[i].offset == offset && known.ses[i].count == end - offset)
+            {
+                known.ses[i].required = true;
+                return;
+            }
+        }
+
+        width_t se_i
+            = register_se(exp, known, exp.nodes[end - 1].checksum, offset, end - offset, true);
+        if (se_i > 0)
+        {
+            first.o        = op_cse;
+            first.checksum = end;
+            first.ex       = se_i - 1;
+        }
+    }
+
     template <typename A, width_t C>
     constexpr static auto rpn_reshape(rpne<A, C> expr) noexcept
     {
@@ -294,26 +331,7 @@ namespace detail
             }
             case op_div: {
                 // Division requires its second operand to be extracted.
-
-                // Mark the last known se as required IF
-                // 1. The prior se is not a constant AND
-                // 2. The prior se is not a cse
-
-                if (i > 2)
-                {
-                    width_t last_offset = offsets.peek();
-                    node const& prev    = expr.nodes[last_offset];
-                    if (last_offset == i - 2 && !is_read_op(expr.nodes[i - 1].o))
-                    {
-                        known.ses[known.count - 1].required = true;
-                    }
-                    else if (last_offset < i - 2 && prev.o != op_cse && prev.checksum != i)
-                    {
-                        known.ses[known.count - 1].required = true;
-                    }
-                }
-
-                offsets.pop();
+                require_operand(expr, known, offsets.pop(), i);
                 width_t offset = offsets.peek();
                 width_t se_i   = register_se(expr, known, n.checksum, offset, i - offset + 1, true);
                 if (se_i > 0)
@@ -338,19 +356,8 @@ namespace detail
             case op_tan: {
                 width_t offset = offsets.peek();
 
-                // Check if the argument has been extracted. If not, mark it as required.
-                if (i > 2)
-                {
-                    node const& prev = expr.nodes[offset];
-                    if (offset == i - 2 && !is_read_op(expr.nodes[i - 1].o))
-                    {
-                        known.ses[known.count - 1].required = true;
-                    }
-                    else if (offset < i - 2 && !(prev.o == op_cse && prev.checksum == i))
-                    {
-                        known.ses[known.count - 1].required = true;
-                    }
-                }
+                // The argument must be extracted.
+                require_operand(expr, known, offset, i);
 
                 width_t se_i = register_se(expr, known, n.checksum, offset, i - offset + 1, true);
                 if (se_i > 0)
-- 
2.43.0


From ea81206c0e1df065a35d309e2e0ac7da3d79a775 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:07:43 +0000
Subject: [PATCH 26/44] fix: grade selection considers every term

---
 public/gal/algebra.hpp | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/public/gal/algebra.hpp b/public/gal/algebra.hpp
index 9ef4bf6..7bdc4fa 100644
--- a/public/gal/algebra.hpp
+++ b/public/gal/algebra.hpp
@@ -577,11 +577,7 @@ struct mv
         for (auto it = cbegin(); it != cend(); ++it)
         {
             auto g = pop_count(it->element);
-            if (g > grade)
-            {
-                break;
-            }
-            else if (g < grade)
+            if (g != grade)
             {
                 continue;
             }
-- 
2.43.0


From a0dc1276e3fd75b9d96b50bb9e4591941c4a0711 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:07:48 +0000
Subject: [PATCH 27/44] fix: division by an indeterminate that also occurs in
 the dividend

---
 public/gal/algebra.hpp | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/public/gal/algebra.hpp b/public/gal/algebra.hpp
index 7bdc4fa..71ae685 100644
--- a/public/gal/algebra.hpp
+++ b/public/gal/algebra.hpp
@@ -1008,7 +1008,6 @@ namespace detail
                 for (auto mon_it = it.cbegin(); mon_it != it.cend(); ++mon_it)
                 {
                     width_t ind_offset = out_inds_it - out.inds.begin();
-                    bool canceled      = false;
                     bool written       = false;
                     for (auto ind_it = mon_it.cbegin(); ind_it != mon_it.cend(); ++ind_it)
                     {
@@ -1018,10 +1017,6 @@ namespace detail
                             {
                                 rat deg = d.degree + ind_it->degree;
                                 if (!deg.is_zero())
-                                {
-                                    canceled = true;
-                                }
-                                else
                                 {
                                     *out_inds_it++ = ind{d.id, deg};
                                 }
@@ -1049,8 +1044,8 @@ namespace detail
                         *out_inds_it++ = d;
                     }
 
-                    rat deg        = mon_it->degree - d.degree;
-                    width_t count  = canceled ? mon_it->count - 1 : mon_it->count + 1;
+                    rat deg        = mon_it->degree + d.degree;
+                    width_t count  = out_inds_it - out.inds.begin() - ind_offset;
                     *out_mons_it++ = mon{mon_it->q / m.q, deg, count, ind_offset};
                 }
 
-- 
2.43.0


From fb9cb191ecd8d0e08ec18ca84fa8fd1adb6c2325 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:07:54 +0000
Subject: [PATCH 28/44] fix: interpret basis element constants in the null
 basis

---
 public/gal/dfa.hpp | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/public/gal/dfa.hpp b/public/gal/dfa.hpp
index f7b40b5..84e42a8 100644
--- a/public/gal/dfa.hpp
+++ b/public/gal/dfa.hpp
@@ -866,10 +866,20 @@ namespace detail
                 auto g = n.o - c_scalar;
                 mv<algebra_t, 0, 1, 1> c{
                     mv_size{0, 1, 1}, {}, {mon{one, zero, 0, 0}}, {term{1, 0, g}}};
-                return rpn_state{State.inputs,
-                                 State.temps,
-                                 State.args.push(make_pair(n.checksum, c)),
-                                 State.id_count};
+                if constexpr (uses_null_basis<algebra_t>)
+                {
+                    return rpn_state{State.inputs,
+                                     State.temps,
+                                     State.args.push(make_pair(n.checksum, to_natural_basis(c))),
+                                     State.id_count};
+                }
+                else
+                {
+                    return rpn_state{State.inputs,
+                                     State.temps,
+                                     State.args.push(make_pair(n.checksum, c)),
+                                     State.id_count};
+                }
             }
         }
 
-- 
2.43.0


From ebdcde16eb9fa9c2c23812f452a5543950a16b38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:07:59 +0000
Subject: [PATCH 29/44] fix: evaluate temporaries in the basis in which they
 are referenced

---
 public/gal/engine.hpp | 12 ++----------
 1 file changed, 2 insertions(+), 10 deletions(-)

diff --git a/public/gal/engine.hpp b/public/gal/engine.hpp
index 1d4b46e..be2fca1 100644
--- a/public/gal/engine.hpp
+++ b/public/gal/engine.hpp
@@ -265,16 +265,8 @@ namespace detail
             constexpr static auto ie = temps.template get<I>().ie;
             constexpr static auto o  = temps.template get<I>().o;
             constexpr static auto id = temps.template get<I>().id;
-            if constexpr (detail::uses_null_basis<A>)
-            {
-                constexpr static auto null_conversion = detail::to_null_basis(ie);
-                compute_temp<null_conversion, o, V, A>(
-                    data, std::make_index_sequence<null_conversion.size.term>{}, id);
-            }
-            else
-            {
-                compute_temp<ie, o, V, A>(data, std::make_index_sequence<ie.size.term>(), id);
-            }
+            // Temporaries are referred to in the natural basis, so no conversion occurs here.
+            compute_temp<ie, o, V, A>(data, std::make_index_sequence<ie.size.term>(), id);
 
             if constexpr (I + 1 != std::decay_t<decltype(temps)>::size())
             {
-- 
2.43.0


From 9e55014c8f2e24d0815494d15790b37c82028289 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:08:07 +0000
Subject: [PATCH 30/44] fix: select components in the null basis where the
 algebra uses one

---
 public/gal/dfa.hpp | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/public/gal/dfa.hpp b/public/gal/dfa.hpp
index 84e42a8..339f37a 100644
--- a/public/gal/dfa.hpp
+++ b/public/gal/dfa.hpp
@@ -627,6 +627,20 @@ namespace detail
         // Unused except when evaluating subexpressions
         constexpr static rpn_state temp_state{State.inputs, State.temps, tuple<>{}, State.id_count};
 
+        // Components are selected with respect to the basis exposed to the user
+        template <typename T>
+        constexpr static auto component_of(T const& in) noexcept
+        {
+            if constexpr (uses_null_basis<algebra_t>)
+            {
+                return to_null_basis(in)[n.ex];
+            }
+            else
+            {
+                return in[n.ex];
+            }
+        }
+
         constexpr static auto compute_state() noexcept
         {
             if constexpr (n.o == op_id)
@@ -822,7 +836,7 @@ namespace detail
             else if constexpr (n.o == op_comp)
             {
                 constexpr auto pop  = State.args.pop();
-                constexpr auto comp = pop.first.second[n.ex];
+                constexpr auto comp = component_of(pop.first.second);
                 return rpn_state{
                     State.inputs,
                     State.temps,
-- 
2.43.0


From 64c29ae845ae800da687aaeb6553c644cb3def07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:08:54 +0000
Subject: [PATCH 31/44] fix: indeterminates of the pga rotor

---
 public/gal/pga.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/public/gal/pga.hpp b/public/gal/pga.hpp
index fd96af8..a5dfe20 100644
--- a/public/gal/pga.hpp
+++ b/public/gal/pga.hpp
@@ -175,9 +175,9 @@ namespace pga
                      ind{id + 1, one}, // x * sin(t/2)
                      ind{id + 2, one}},
                     {mon{one, one, 1, 0},
-                     mon{one, one, 1, 1},
-                     mon{minus_one, rat{2}, 2, 2},
-                     mon{one, rat{2}, 2, 3}},
+                     mon{one, rat{2}, 2, 1},
+                     mon{minus_one, rat{2}, 2, 3},
+                     mon{one, rat{2}, 2, 5}},
                     {term{1, 0, 0b0}, term{1, 1, 0b110}, term{1, 2, 0b1010}, term{1, 3, 0b1100}}};
         }
 
-- 
2.43.0


From fc190a5fa5376ffca1c8ae89bd2aa49002f36b94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:09:02 +0000
Subject: [PATCH 32/44] fix: indeterminates of the pga translator

---
 public/gal/pga.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/public/gal/pga.hpp b/public/gal/pga.hpp
index a5dfe20..8748888 100644
--- a/public/gal/pga.hpp
+++ b/public/gal/pga.hpp
@@ -236,14 +236,14 @@ namespace pga
                     {ind{id, one}, // d * l_x
                      ind{id + 1, one},
                      ind{id, one}, // d * l_y
-                     ind{id + 1, one},
+                     ind{id + 2, one},
                      ind{id, one}, // d * l_z
-                     ind{id + 2, one}},
+                     ind{id + 3, one}},
                     {
                         mon{one, zero, 0, 0},              // 1
-                        mon{minus_one_half, rat{2}, 2, 1}, // -1/2 * l_x
+                        mon{minus_one_half, rat{2}, 2, 0}, // -1/2 * l_x
                         mon{minus_one_half, rat{2}, 2, 2}, // -1/2 * l_y
-                        mon{minus_one_half, rat{2}, 2, 3}  // -1/2 * l_z
+                        mon{minus_one_half, rat{2}, 2, 4}  // -1/2 * l_z
                     },
                     {term{1, 0, 0b0}, term{1, 1, 0b11}, term{1, 2, 0b101}, term{1, 3, 0b1001}}};
         }
-- 
2.43.0


From d88850c95d230241b87c3f5543f78e1c4beaa2ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:09:08 +0000
Subject: [PATCH 33/44] fix: the pga vector has three terms

---
 public/gal/pga.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/public/gal/pga.hpp b/public/gal/pga.hpp
index 8748888..bfd5d9f 100644
--- a/public/gal/pga.hpp
+++ b/public/gal/pga.hpp
@@ -403,7 +403,7 @@ namespace pga
         // Like planes, points are represented dually as the intersection of three planes
         GAL_NODISCARD constexpr static mv<algebra_t, 3, 3, 3> ie(uint32_t id) noexcept
         {
-            return {mv_size{3, 4, 4},
+            return {mv_size{3, 3, 3},
                     {
                         ind{id + 2, one}, // -z
                         ind{id + 1, one}, // y
-- 
2.43.0


From 3cf6cb39d31a4b46b84c4700daaa745f54f488c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:09:08 +0000
Subject: [PATCH 34/44] fix: coordinates of the pga2 point

---
 public/gal/pga2.hpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/public/gal/pga2.hpp b/public/gal/pga2.hpp
index bdaada1..7061cd2 100644
--- a/public/gal/pga2.hpp
+++ b/public/gal/pga2.hpp
@@ -148,10 +148,10 @@ namespace pga2
         {
             return {mv_size{2, 3, 3},
                     {
-                        ind{id + 1, 1}, // -y
-                        ind{id, 1}      // x
+                        ind{id + 1, one}, // -y
+                        ind{id, one}      // x
                     },
-                    {mon{minus_one, one, 0, 1}, // -y
+                    {mon{minus_one, one, 1, 0}, // -y
                      mon{one, one, 1, 1},       // x
                      mon{one, zero, 0, 0}},     // point at origin
                     {
@@ -177,8 +177,8 @@ namespace pga2
             , y{in.template select<0b11>()}
         {
             auto w_inv = T{1} / in.template select<0b110>();
-            x          = w_inv;
-            y          = -w_inv;
+            x *= w_inv;
+            y *= -w_inv;
         }
 
         [[nodiscard]] constexpr T const& operator[](size_t index) const noexcept
-- 
2.43.0


From 0db57c186d7fdd768e7c2638d3fc9c6a22fd754c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:09:09 +0000
Subject: [PATCH 35/44] fix: the pga2 vector lies in the plane

---
 public/gal/pga2.hpp | 34 ++++++++++++++--------------------
 1 file changed, 14 insertions(+), 20 deletions(-)

diff --git a/public/gal/pga2.hpp b/public/gal/pga2.hpp
index 7061cd2..31dd071 100644
--- a/public/gal/pga2.hpp
+++ b/public/gal/pga2.hpp
@@ -199,52 +199,46 @@ namespace pga2
         using value_t                 = T;
         constexpr static bool is_dual = true;
 
-        std::array<T, 3> data;
+        std::array<T, 2> data;
         struct
         {
             T x;
             T y;
-            T z;
         };
 
-        // Like planes, points are represented dually as the intersection of three planes
-        [[nodiscard]] constexpr static mv<algebra_t, 3, 3, 3> ie(uint32_t id) noexcept
+        // A vector is a point on the ideal line (the e12 coordinate vanishes)
+        [[nodiscard]] constexpr static mv<algebra_t, 2, 2, 2> ie(uint32_t id) noexcept
         {
-            return {mv_size{3, 4, 4},
+            return {mv_size{2, 2, 2},
                     {
-                        ind{id + 2, 1}, // -z
-                        ind{id + 1, 1}, // y
-                        ind{id, 1}      // -x
+                        ind{id + 1, one}, // -y
+                        ind{id, one}      // x
                     },
                     {
-                        mon{minus_one, one, 0, 1}, // -z
-                        mon{one, one, 1, 1},       // y
-                        mon{minus_one, one, 2, 1}  // -x
+                        mon{minus_one, one, 1, 0}, // -y
+                        mon{one, one, 1, 1}        // x
                     },
                     {
-                        term{1, 0, 0b111},  // -z * e012
-                        term{1, 1, 0b1011}, // y * e013
-                        term{1, 2, 0b1101}  // x * e023
+                        term{1, 0, 0b11}, // -y * e01
+                        term{1, 1, 0b101} // x * e02
                     }};
         }
 
         [[nodiscard]] constexpr static size_t size() noexcept
         {
-            return 3;
+            return 2;
         }
 
-        constexpr vector(T x, T y, T z) noexcept
+        constexpr vector(T x, T y) noexcept
             : x{x}
             , y{y}
-            , z{z}
         {}
 
         template <elem_t... E>
         constexpr vector(entity<pga2_algebra, T, E...> in) noexcept
-            : data{in.template select<0b1101, 0b1011, 0b111>()}
+            : data{in.template select<0b101, 0b11>()}
         {
-            z = -z;
-            x = -x;
+            y = -y;
         }
 
         [[nodiscard]] constexpr T const& operator[](size_t index) const noexcept
-- 
2.43.0


From 16a769d37d76a372198a45eee42f5d1acee4c68f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:11:28 +0000
Subject: [PATCH 36/44] fix: shrink inputs after the change of basis

---
 public/gal/dfa.hpp | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/public/gal/dfa.hpp b/public/gal/dfa.hpp
index 339f37a..59fb5f6 100644
--- a/public/gal/dfa.hpp
+++ b/public/gal/dfa.hpp
@@ -645,14 +645,17 @@ namespace detail
         {
             if constexpr (n.o == op_id)
             {
-                auto pop = State.inputs.pop();
+                constexpr auto pop = State.inputs.pop();
 
                 if constexpr (uses_null_basis<algebra_t>)
                 {
+                    // The change of basis overestimates the required capacity
+                    constexpr auto m = to_natural_basis(pop.first);
                     return rpn_state{
                         pop.second,
                         State.temps,
-                        State.args.push(make_pair(n.checksum, to_natural_basis(pop.first))),
+                        State.args.push(make_pair(
+                            n.checksum, m.template resize<m.size.ind, m.size.mon, m.size.term>())),
                         State.id_count};
                 }
                 else
@@ -877,15 +880,18 @@ namespace detail
             }
             else
             {
-                auto g = n.o - c_scalar;
-                mv<algebra_t, 0, 1, 1> c{
+                constexpr auto g = n.o - c_scalar;
+                constexpr mv<algebra_t, 0, 1, 1> c{
                     mv_size{0, 1, 1}, {}, {mon{one, zero, 0, 0}}, {term{1, 0, g}}};
                 if constexpr (uses_null_basis<algebra_t>)
                 {
-                    return rpn_state{State.inputs,
-                                     State.temps,
-                                     State.args.push(make_pair(n.checksum, to_natural_basis(c))),
-                                     State.id_count};
+                    constexpr auto m = to_natural_basis(c);
+                    return rpn_state{
+                        State.inputs,
+                        State.temps,
+                        State.args.push(make_pair(
+                            n.checksum, m.template resize<m.size.ind, m.size.mon, m.size.term>())),
+                        State.id_count};
                 }
                 else
                 {
-- 
2.43.0


From 888a3bd8b293ea65773a97a04671ec02a397fbf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:21:09 +0000
Subject: [PATCH 37/44] fix: bivectors in five or more dimensions skip elements
 of higher grade

---
 public/gal/geometric_algebra.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/public/gal/geometric_algebra.hpp b/public/gal/geometric_algebra.hpp
index 6f9534b..0ac1484 100644
--- a/public/gal/geometric_algebra.hpp
+++ b/public/gal/geometric_algebra.hpp
@@ -126,7 +126,10 @@ struct algebra
             out.inds[i]  = ind{id++, one};
             out.mons[i]  = mon{one, one, 1, i};
             out.terms[i] = term{1, i, e};
-            e            = next_even(e);
+            do
+            {
+                e = next_even(e);
+            } while (pop_count(e) != 2);
         }
         return out;
     }
-- 
2.43.0


From 43e618a73ac62fb80d02c3caaa057ef8b8cfda58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:21:15 +0000
Subject: [PATCH 38/44] fix: scaling or shifting by zero introduces no zero
 monomials

---
 public/gal/algebra.hpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/public/gal/algebra.hpp b/public/gal/algebra.hpp
index 71ae685..45fcf9c 100644
--- a/public/gal/algebra.hpp
+++ b/public/gal/algebra.hpp
@@ -513,6 +513,10 @@ struct mv
 
     constexpr void scale(rat q) noexcept
     {
+        if (q.is_zero())
+        {
+            size = mv_size{0, 0, 0};
+        }
         for (size_t i = 0; i != size.mon; ++i)
         {
             mons[i].q = q * mons[i].q;
@@ -958,6 +962,10 @@ namespace detail
     [[nodiscard]] constexpr auto shift(rat lhs, mv<A, I, M, T> const& rhs) noexcept
     {
         mv<A, 0, 1, 1> addend{mv_size{0, 1, 1}, {}, {mon{lhs, zero, 0, 0}}, {term{1, 0, 0}}};
+        if (lhs.is_zero())
+        {
+            addend.size = mv_size{0, 0, 0};
+        }
         return sum(rhs, addend);
     }
 
-- 
2.43.0


From 14241eb1eef48c2b7ce12a1ef49165674239b26c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:05:59 +0000
Subject: [PATCH 39/44] fix: the moment of a pga line has a consistent
 orientation

---
 public/gal/pga.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/public/gal/pga.hpp b/public/gal/pga.hpp
index bfd5d9f..0df22f5 100644
--- a/public/gal/pga.hpp
+++ b/public/gal/pga.hpp
@@ -487,7 +487,7 @@ namespace pga
                     },
                     {
                         mon{minus_one, one, 1, 0}, // mx
-                        mon{one, one, 1, 1},       // my
+                        mon{minus_one, one, 1, 1}, // my
                         mon{minus_one, one, 1, 2}, // dz
                         mon{minus_one, one, 1, 3}, // mz
                         mon{one, one, 1, 4},       // dy
@@ -522,6 +522,7 @@ namespace pga
             : data{in.template select<0b1100, 0b1010, 0b110, 0b11, 0b101, 0b1001>()}
         {
             mx = -mx;
+            my = -my;
             mz = -mz;
             dx = -dx;
             dz = -dz;
-- 
2.43.0


From 23e900826b4cc6f5ac9f4ea5f6d17f288f522a9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:07:22 +0000
Subject: [PATCH 40/44] fix: pga2 points lie on the lines whose equation they
 satisfy

---
 public/gal/pga2.hpp | 30 +++++++++++++++---------------
 1 file changed, 15 insertions(+), 15 deletions(-)

diff --git a/public/gal/pga2.hpp b/public/gal/pga2.hpp
index 31dd071..be1d16d 100644
--- a/public/gal/pga2.hpp
+++ b/public/gal/pga2.hpp
@@ -148,15 +148,15 @@ namespace pga2
         {
             return {mv_size{2, 3, 3},
                     {
-                        ind{id + 1, one}, // -y
-                        ind{id, one}      // x
+                        ind{id + 1, one}, // y
+                        ind{id, one}      // -x
                     },
-                    {mon{minus_one, one, 1, 0}, // -y
-                     mon{one, one, 1, 1},       // x
+                    {mon{one, one, 1, 0},       // y
+                     mon{minus_one, one, 1, 1}, // -x
                      mon{one, zero, 0, 0}},     // point at origin
                     {
-                        term{1, 0, 0b11},  // -y * e01
-                        term{1, 1, 0b101}, // x * e02
+                        term{1, 0, 0b11},  // y * e01
+                        term{1, 1, 0b101}, // -x * e02
                         term{1, 2, 0b110}  // e12
                     }};
         }
@@ -177,8 +177,8 @@ namespace pga2
             , y{in.template select<0b11>()}
         {
             auto w_inv = T{1} / in.template select<0b110>();
-            x *= w_inv;
-            y *= -w_inv;
+            x *= -w_inv;
+            y *= w_inv;
         }
 
         [[nodiscard]] constexpr T const& operator[](size_t index) const noexcept
@@ -211,16 +211,16 @@ namespace pga2
         {
             return {mv_size{2, 2, 2},
                     {
-                        ind{id + 1, one}, // -y
-                        ind{id, one}      // x
+                        ind{id + 1, one}, // y
+                        ind{id, one}      // -x
                     },
                     {
-                        mon{minus_one, one, 1, 0}, // -y
-                        mon{one, one, 1, 1}        // x
+                        mon{one, one, 1, 0},      // y
+                        mon{minus_one, one, 1, 1} // -x
                     },
                     {
-                        term{1, 0, 0b11}, // -y * e01
-                        term{1, 1, 0b101} // x * e02
+                        term{1, 0, 0b11}, // y * e01
+                        term{1, 1, 0b101} // -x * e02
                     }};
         }
 
@@ -238,7 +238,7 @@ namespace pga2
         constexpr vector(entity<pga2_algebra, T, E...> in) noexcept
             : data{in.template select<0b101, 0b11>()}
         {
-            y = -y;
+            x = -x;
         }
 
         [[nodiscard]] constexpr T const& operator[](size_t index) const noexcept
-- 
2.43.0


From 82baa3eec32cdfbe4e2735a1349b254cc484687f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:50:25 +0000
Subject: [PATCH 41/44] fix: components of a non-const empty entity can be read
 by index

---
 public/gal/entity.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/public/gal/entity.hpp b/public/gal/entity.hpp
index f8a6015..c20ce3e 100644
--- a/public/gal/entity.hpp
+++ b/public/gal/entity.hpp
@@ -183,7 +183,7 @@ struct entity<A, T>
         return {0};
     }
 
-    GAL_NODISCARD constexpr T& operator[](size_t index) noexcept
+    GAL_NODISCARD constexpr T operator[](size_t index) noexcept
     {
         return {0};
     }
-- 
2.43.0


From 3313817aa599b56a841b8cc699fce58c563609ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:24:06 +0000
Subject: [PATCH 42/44] fix: motor log of a half turn takes the angle from the
 norm of its bivector

Where the scalar part vanishes the angle was atan2(-p1, p2), which is
undetermined (p2 vanishes with it, and p1 too for a pure rotation) and
has the sign of the pitch; atan2(s2, s1) is right there as well.
---
 public/gal/pga.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/public/gal/pga.hpp b/public/gal/pga.hpp
index 0df22f5..d8afb52 100644
--- a/public/gal/pga.hpp
+++ b/public/gal/pga.hpp
@@ -559,7 +559,7 @@ namespace pga
         entity<pga_algebra, T, 0, 0b1111> inv_norm{T{1} / s2, p2 / l2.template select<0>()};
 
         bool s1_zero = std::abs(s1) < T{1e-6};
-        scalar<pga_algebra, T> u{s1_zero ? ::std::atan2(-p1, p2) : ::std::atan2(s2, s1)};
+        scalar<pga_algebra, T> u{::std::atan2(s2, s1)};
         scalar<pga_algebra, T> v{s1_zero ? -p1 / s2 : p2 / s1};
 
         return compute(
-- 
2.43.0


From 8a5f1e1c5d9969b144c22c0dd26a840c72516672 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:31:42 +0000
Subject: [PATCH 43/44] fix: an entity may list its components in any element
 order

construct_ie laid the terms out in the order of the entity's element list,
while every operation merges terms assuming ascending elements, so a result
could list an element twice and miss cancellations.
---
 public/gal/entity.hpp | 23 +++++++++++++++++++----
 1 file changed, 19 insertions(+), 4 deletions(-)

diff --git a/public/gal/entity.hpp b/public/gal/entity.hpp
index c20ce3e..8584edc 100644
--- a/public/gal/entity.hpp
+++ b/public/gal/entity.hpp
@@ -19,10 +19,25 @@ namespace detail
     {
         constexpr size_t count = sizeof...(E);
 
-        return mv<A, count, count, count>{mv_size{count, count, count},
-                                          {ind{id + N, one}...},
-                                          {mon{one, one, 1, N}...},
-                                          {term{1, N, E}...}};
+        mv<A, count, count, count> out{mv_size{count, count, count},
+                                       {ind{id + N, one}...},
+                                       {mon{one, one, 1, N}...},
+                                       {term{1, N, E}...}};
+
+        // Terms must be ordered by element, whichever order the entity stores its components in
+        for (size_t i = 1; i < count; ++i)
+        {
+            for (size_t j = i; j > 0 && out.terms[j] < out.terms[j - 1]; --j)
+            {
+                auto element             = out.terms[j].element;
+                out.terms[j].element     = out.terms[j - 1].element;
+                out.terms[j - 1].element = element;
+                auto component           = out.inds[j];
+                out.inds[j]              = out.inds[j - 1];
+                out.inds[j - 1]          = component;
+            }
+        }
+        return out;
     }
 
     template <elem_t E, int16_t I, elem_t E1, elem_t... Es>
-- 
2.43.0


From 9ffbdb8c47591f7c447004e2bee2eee4cd079be4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:51:44 +0000
Subject: [PATCH 44/44] fix: infer the field when the first input is a plain
 floating-point number

---
 public/gal/engine.hpp | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/public/gal/engine.hpp b/public/gal/engine.hpp
index be2fca1..d3a1606 100644
--- a/public/gal/engine.hpp
+++ b/public/gal/engine.hpp
@@ -334,10 +334,22 @@ namespace detail
     struct infer_field
     {};
 
+    template <typename D, bool = std::is_floating_point_v<D>>
+    struct field_of
+    {
+        using value_t = D;
+    };
+
+    template <typename D>
+    struct field_of<D, false>
+    {
+        using value_t = typename D::value_t;
+    };
+
     template <typename D, typename... Ds>
     struct infer_field<D, Ds...>
     {
-        using value_t = typename D::value_t;
+        using value_t = typename field_of<D>::value_t;
     };
 
     template <>
-- 
2.43.0

