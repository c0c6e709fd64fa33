From afa36035c624424297670d730816b53eeb072f17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:37:17 +0000
Subject: [PATCH 01/42] fix: keep the fractional part when converting to
 floating point

---
 include/eirin/fixed.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/eirin/fixed.hpp b/include/eirin/fixed.hpp
index 5e03f7d..f57ff77 100644
--- a/include/eirin/fixed.hpp
+++ b/include/eirin/fixed.hpp
@@ -295,7 +295,7 @@ public:
     {
         // MSVC might warn about precision loss here, but it's expected.
         // SO I JUST FUCK IT BEFORE.
-        return static_cast<T>(static_cast<value_type>(m_value / fraction_multiplier));
+        return static_cast<T>(m_value) / static_cast<T>(fraction_multiplier);
     }
 
     constexpr inline fixed_num operator+(const fixed_num& other) const noexcept
-- 
2.43.0


From 2fd31d27c56701e3dc6b2728865c51da87d655e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:37:17 +0000
Subject: [PATCH 02/42] fix: rounding construction from a non-negative floating
 point value halved it

---
 include/eirin/fixed.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/eirin/fixed.hpp b/include/eirin/fixed.hpp
index f57ff77..ff4b466 100644
--- a/include/eirin/fixed.hpp
+++ b/include/eirin/fixed.hpp
@@ -163,7 +163,7 @@ public:
             {
                 m_value = static_cast<Type>(
                     val >= 0.0 ?
-                        (val * T{0.5} * fraction_multiplier) :
+                        (val * fraction_multiplier + T{0.5}) :
                         (val * fraction_multiplier - T{0.5})
                 );
             }
@@ -177,7 +177,7 @@ public:
         else
         {
             m_value = static_cast<Type>(
-                rounding ? (val >= 0.0) ? (val * fraction_multiplier * T{0.5}) : (val * fraction_multiplier - T{0.5}) : (val * fraction_multiplier)
+                rounding ? (val >= 0.0) ? (val * fraction_multiplier + T{0.5}) : (val * fraction_multiplier - T{0.5}) : (val * fraction_multiplier)
             );
         }
     };
-- 
2.43.0


From 1f205a4eeac6716ab5acbe6593aa2e9d01d74a21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:37:17 +0000
Subject: [PATCH 03/42] fix: rounding multiplication and division returned
 twice the product or quotient

---
 include/eirin/fixed.hpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/eirin/fixed.hpp b/include/eirin/fixed.hpp
index ff4b466..12104c9 100644
--- a/include/eirin/fixed.hpp
+++ b/include/eirin/fixed.hpp
@@ -337,7 +337,7 @@ public:
         if constexpr(rounding)
         {
             auto _value = (static_cast<IntermediateType>(m_value) * other.m_value) / (fraction_multiplier / 2);
-            return fixed_num(static_cast<Type>(_value + (_value % 2)), raw_value_construct_tag{});
+            return fixed_num(static_cast<Type>(_value / 2 + (_value % 2)), raw_value_construct_tag{});
         }
         else
         {
@@ -350,7 +350,7 @@ public:
         if constexpr(rounding)
         {
             auto _value = (static_cast<IntermediateType>(m_value) * other.m_value) / (fraction_multiplier / 2);
-            m_value = static_cast<Type>(_value + (_value % 2));
+            m_value = static_cast<Type>(_value / 2 + (_value % 2));
         }
         else
         {
@@ -371,7 +371,7 @@ public:
         if constexpr(rounding)
         {
             auto _value = ((static_cast<IntermediateType>(m_value) << fraction) * 2) / other.m_value;
-            return fixed_num(static_cast<Type>(_value + (_value % 2)), raw_value_construct_tag{});
+            return fixed_num(static_cast<Type>(_value / 2 + (_value % 2)), raw_value_construct_tag{});
         }
         else
         {
@@ -384,7 +384,7 @@ public:
         if constexpr(rounding)
         {
             auto _value = ((static_cast<IntermediateType>(m_value) << fraction) * 2) / other.m_value;
-            m_value = static_cast<Type>(_value + (_value % 2));
+            m_value = static_cast<Type>(_value / 2 + (_value % 2));
         }
         else
         {
@@ -617,7 +617,7 @@ public:
         if constexpr(rounding)
         {
             auto _value = ((static_cast<IntermediateType>(m_value) << fraction) * 2) / other.m_value;
-            return fixed_num(static_cast<Type>(_value + (_value % 2)), raw_value_construct_tag{});
+            return fixed_num(static_cast<Type>(_value / 2 + (_value % 2)), raw_value_construct_tag{});
         }
         else
         {
@@ -642,7 +642,7 @@ public:
         if constexpr(rounding)
         {
             auto _value = ((static_cast<IntermediateType>(m_value) << fraction) * 2) / other.m_value;
-            m_value = static_cast<Type>(_value + (_value % 2));
+            m_value = static_cast<Type>(_value / 2 + (_value % 2));
         }
         else
         {
-- 
2.43.0


From fe27ce9bbf1c6677adabb4392beb50cf21a12e2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:37:17 +0000
Subject: [PATCH 04/42] fix: widening conversion overflowed the source type

---
 include/eirin/fixed.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/eirin/fixed.hpp b/include/eirin/fixed.hpp
index 12104c9..e8d3ec3 100644
--- a/include/eirin/fixed.hpp
+++ b/include/eirin/fixed.hpp
@@ -497,7 +497,7 @@ public:
     template <unsigned int _fraction, typename T, typename std::enable_if_t<(_fraction <= fraction), T*> = nullptr>
     EIRIN_ALWAYS_INLINE static constexpr fixed_num from_fixed_num_value(T inner_value) noexcept
     {
-        return fixed_num(static_cast<Type>(inner_value * (T(1) << (fraction - _fraction))), raw_value_construct_tag{});
+        return fixed_num(static_cast<Type>(static_cast<IntermediateType>(inner_value) * (IntermediateType(1) << (fraction - _fraction))), raw_value_construct_tag{});
     }
 
     static constexpr fixed_num from_internal_value(Type internal_value) noexcept
-- 
2.43.0


From da89c6d440ab62137e8749c9f4983be4934c7b23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:37:17 +0000
Subject: [PATCH 05/42] fix: fixed % integer did not compile

---
 include/eirin/fixed.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/eirin/fixed.hpp b/include/eirin/fixed.hpp
index e8d3ec3..2bb9536 100644
--- a/include/eirin/fixed.hpp
+++ b/include/eirin/fixed.hpp
@@ -872,7 +872,7 @@ constexpr inline fixed_num<T, I, f, r> operator/(const std::integral auto& val,
 template <typename T, typename I, unsigned int f, bool r>
 constexpr inline fixed_num<T, I, f, r> operator%(const fixed_num<T, I, f, r>& fp, const std::integral auto& val) noexcept
 {
-    return fixed_num<T, I, f, r>(fp) %= val;
+    return fixed_num<T, I, f, r>(fp) %= fixed_num<T, I, f, r>(val);
 }
 
 template <typename T, typename I, unsigned int f, bool r>
-- 
2.43.0


From 3e186280c6d6f2ecb64aaab139366fc58b22a81e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:37:17 +0000
Subject: [PATCH 06/42] fix: dividing a negative number by an unsigned integer
 gave an unsigned quotient

---
 include/eirin/fixed.hpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/include/eirin/fixed.hpp b/include/eirin/fixed.hpp
index 2bb9536..f24c47a 100644
--- a/include/eirin/fixed.hpp
+++ b/include/eirin/fixed.hpp
@@ -132,6 +132,9 @@ class fixed_num
 
     static constexpr IntermediateType fraction_multiplier = IntermediateType(1) << fraction;
 
+    // division by an integer must keep the sign whatever the signness and size of the integer is.
+    using division_type = std::common_type_t<IntermediateType, std::int64_t>;
+
     constexpr inline fixed_num(Type val, raw_value_construct_tag) noexcept
         : m_value(val) {};
 
@@ -395,7 +398,7 @@ public:
 
     constexpr inline fixed_num& operator/=(const std::integral auto& val) noexcept
     {
-        m_value /= val;
+        m_value = static_cast<Type>(static_cast<division_type>(m_value) / static_cast<division_type>(val));
         return *this;
     }
 
@@ -606,7 +609,7 @@ public:
         if(val == 0) [[unlikely]]
             EIRIN_THROW_EXCEPTION(divide_by_zero);
 
-        return fixed_num(m_value / val, raw_value_construct_tag{});
+        return fixed_num(static_cast<Type>(static_cast<division_type>(m_value) / static_cast<division_type>(val)), raw_value_construct_tag{});
     }
 
     EIRIN_ALWAYS_INLINE constexpr fixed_num divide(const fixed_num& other) const
@@ -630,7 +633,7 @@ public:
         if(val == 0) [[unlikely]]
             EIRIN_THROW_EXCEPTION(divide_by_zero);
 
-        m_value /= val;
+        m_value = static_cast<Type>(static_cast<division_type>(m_value) / static_cast<division_type>(val));
         return *this;
     }
 
-- 
2.43.0


From 8d08a976dde1cfff8bc5d49befb48eaa89a94c0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:37:17 +0000
Subject: [PATCH 07/42] fix: nearly comparisons of far apart numbers overflowed

---
 include/eirin/fixed.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/eirin/fixed.hpp b/include/eirin/fixed.hpp
index f24c47a..efcf15a 100644
--- a/include/eirin/fixed.hpp
+++ b/include/eirin/fixed.hpp
@@ -455,25 +455,25 @@ public:
 
     constexpr inline bool nearly_eq(const fixed_num& other) const noexcept
     {
-        auto div = m_value - other.m_value;
+        auto div = static_cast<IntermediateType>(m_value) - other.m_value;
         return div >= -nearly_compare_epsilon().m_value && div <= nearly_compare_epsilon().m_value;
     }
 
     constexpr inline bool nearly_ne(const fixed_num& other) const noexcept
     {
-        auto div = m_value - other.m_value;
+        auto div = static_cast<IntermediateType>(m_value) - other.m_value;
         return div < -nearly_compare_epsilon().m_value || div > nearly_compare_epsilon().m_value;
     }
 
     constexpr inline bool nearly_gt(const fixed_num& other) const noexcept
     {
-        auto div = m_value - other.m_value;
+        auto div = static_cast<IntermediateType>(m_value) - other.m_value;
         return div > nearly_compare_epsilon().m_value;
     }
 
     constexpr inline bool nearly_lt(const fixed_num& other) const noexcept
     {
-        auto div = m_value - other.m_value;
+        auto div = static_cast<IntermediateType>(m_value) - other.m_value;
         return div < -nearly_compare_epsilon().m_value;
     }
 
-- 
2.43.0


From 3a006b699f7a0a3bd1330675665db6544593e13b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:37:48 +0000
Subject: [PATCH 08/42] fix: integral_part of negative non-integers was one too
 large

---
 include/eirin/fixed.hpp | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/include/eirin/fixed.hpp b/include/eirin/fixed.hpp
index efcf15a..da79b52 100644
--- a/include/eirin/fixed.hpp
+++ b/include/eirin/fixed.hpp
@@ -267,15 +267,12 @@ public:
 
     EIRIN_ALWAYS_INLINE constexpr Type integral_part() const noexcept
     {
-        Type result = m_value;
+        IntermediateType result = m_value;
         if(signbit(*this))
-        {
-            result = ~result;
-            result += static_cast<Type>(1) << fraction;
-        }
+            result = -result;
         result >>= fraction; // Drop fractional part
 
-        return result;
+        return static_cast<Type>(result);
     }
 
     EIRIN_ALWAYS_INLINE constexpr Type fractional_part() const noexcept
-- 
2.43.0


From ac2b0a6e0f60860449e332241c3f97365934a89c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:37:48 +0000
Subject: [PATCH 09/42] fix: remainder of the minimum value by the negative
 unit trapped

---
 include/eirin/fixed.hpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/eirin/fixed.hpp b/include/eirin/fixed.hpp
index da79b52..30c4aba 100644
--- a/include/eirin/fixed.hpp
+++ b/include/eirin/fixed.hpp
@@ -401,12 +401,16 @@ public:
 
     constexpr inline fixed_num operator%(const fixed_num& other) const noexcept
     {
-        return fixed_num(m_value % other.m_value, raw_value_construct_tag{});
+        return fixed_num(*this) %= other;
     }
 
     constexpr inline fixed_num& operator%=(const fixed_num& other) noexcept
     {
-        m_value %= other.m_value;
+        // the remainder by -1 is always 0, but min % -1 traps on some platforms.
+        if constexpr(std::is_signed_v<Type>)
+            m_value = other.m_value == Type(-1) ? Type(0) : static_cast<Type>(m_value % other.m_value);
+        else
+            m_value %= other.m_value;
         return *this;
     }
 
-- 
2.43.0


From e75bb7fbd7e08184515fc57e3d289e676d443261 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:37:48 +0000
Subject: [PATCH 10/42] fix: ceil of negative numbers and floor near the
 minimum were wrong

---
 include/eirin/math.hpp | 27 +++++++++++----------------
 1 file changed, 11 insertions(+), 16 deletions(-)

diff --git a/include/eirin/math.hpp b/include/eirin/math.hpp
index ec12281..de411bf 100644
--- a/include/eirin/math.hpp
+++ b/include/eirin/math.hpp
@@ -32,29 +32,24 @@ template <typename T, typename I, unsigned int f, bool r>
 EIRIN_ALWAYS_INLINE constexpr fixed_num<T, I, f, r> ceil(fixed_num<T, I, f, r> fp) noexcept
 {
     using fixed = fixed_num<T, I, f, r>;
-    constexpr auto frac_mult = T(1) << f;
-    auto value = fp.internal_value();
-    if(value > 0)
-        value += frac_mult - 1;
+    constexpr auto frac_mult = I(1) << f;
+    // round down first, the arithmetic shift drops the fractional part.
+    I value = static_cast<I>(fp.internal_value() >> f) * frac_mult;
+    if(value != fp.internal_value())
+        value += frac_mult;
     // overflow check.
-    if(value < 0)
-        return fixed::from_internal_value(fp.internal_value() / frac_mult * frac_mult + frac_mult - 1);
-    return fixed::from_internal_value(value / frac_mult * frac_mult);
+    if(value > static_cast<I>(std::numeric_limits<T>::max()))
+        return std::numeric_limits<fixed>::max();
+    return fixed::from_internal_value(static_cast<T>(value));
 }
 
 template <typename T, typename I, unsigned int f, bool r>
 EIRIN_ALWAYS_INLINE constexpr fixed_num<T, I, f, r> floor(fixed_num<T, I, f, r> fp) noexcept
 {
     using fixed = fixed_num<T, I, f, r>;
-    constexpr auto frac_mult = T(1) << f;
-    auto value = fp.internal_value();
-    auto neg = value < 0;
-    if(value < 0)
-        value -= frac_mult - 1;
-    // underflow check.
-    if(neg && value > 0)
-        return fixed::from_internal_value(fp.internal_value() / frac_mult * frac_mult - frac_mult + 1);
-    return fixed::from_internal_value(value / frac_mult * frac_mult);
+    constexpr auto frac_mult = I(1) << f;
+    // the arithmetic shift rounds toward negative infinity, so this never overflows.
+    return fixed::from_internal_value(static_cast<T>(static_cast<I>(fp.internal_value() >> f) * frac_mult));
 }
 
 template <typename T, typename I, unsigned int f, bool r>
-- 
2.43.0


From d8402aa35767fa80a8c1f48c0e7a8369497a9c73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:25:00 +0000
Subject: [PATCH 11/42] fix: parsing overflowed on long numbers, skipped
 validation of excess digits and refused the minimum

---
 include/eirin/fixed.hpp | 43 +++++++++++++++++++++++++++--------------
 1 file changed, 28 insertions(+), 15 deletions(-)

diff --git a/include/eirin/fixed.hpp b/include/eirin/fixed.hpp
index 30c4aba..dacdcb8 100644
--- a/include/eirin/fixed.hpp
+++ b/include/eirin/fixed.hpp
@@ -708,12 +708,16 @@ namespace detail
         }
 
         I int_part = I(0), dec_part = I(0);
+        // a larger integer part is never representable.
+        constexpr I max_integer = (static_cast<I>(std::numeric_limits<T>::max()) >> fixed::precision) + 1;
         // parse the integer part.
         while(pos < len && str[pos] != '.')
         {
             if(!check_ch(str[pos]))
                 return false;
             int_part = int_part * 10 + (next() - '0');
+            if(int_part > max_integer)
+                return false;
         }
 
         I fixed_value;
@@ -722,16 +726,16 @@ namespace detail
         {
             ++pos;
             constexpr auto max_fraction = ((std::int64_t)1 << fixed::precision) - 1;
+            constexpr I max_divisor = I(1) << (sizeof(I) * 8 - 5);
             I divisor = I(1);
             while(pos < len)
             {
                 if(!check_ch(str[pos]))
                     return false;
-                if(dec_part > max_fraction / 10)
-                {
-                    break;
-                }
                 auto digit = next() - '0';
+                // the digits below the resolution are checked, but not counted.
+                if(dec_part > max_fraction / 10 || divisor > max_divisor)
+                    continue;
                 dec_part = dec_part * 10 + digit;
                 divisor *= 10;
             }
@@ -741,6 +745,8 @@ namespace detail
         {
             fixed_value = int_part << fixed::precision;
         }
+        if(negative)
+            fixed_value = -fixed_value;
 
         // check overflow
         if(fixed_value > static_cast<I>(std::numeric_limits<T>::max()) || fixed_value < static_cast<I>(std::numeric_limits<T>::min()))
@@ -749,8 +755,6 @@ namespace detail
         }
 
         fp = fixed::from_internal_value(static_cast<T>(fixed_value));
-        if(negative)
-            fp = -fp;
         return true;
     }
 } // namespace detail
@@ -914,6 +918,8 @@ inline bool f32_from_cstring(const char* str, size_t len, fixed32& fp) noexcept
     }
 
     int64_t int_part = 0, dec_part = 0;
+    // a larger integer part is never representable.
+    constexpr int64_t max_integer = (static_cast<int64_t>(std::numeric_limits<int32_t>::max()) >> fixed32::precision) + 1;
     // parse the integer part.
     while(has_next() && peek() != '.')
     {
@@ -922,6 +928,8 @@ inline bool f32_from_cstring(const char* str, size_t len, fixed32& fp) noexcept
             return false;
         }
         int_part = int_part * 10 + (next() - '0');
+        if(int_part > max_integer)
+            return false;
     }
     int64_t fixed_value;
     // parse the decimal part.
@@ -929,6 +937,7 @@ inline bool f32_from_cstring(const char* str, size_t len, fixed32& fp) noexcept
     {
         ++pos;
         constexpr auto max_fraction = (1 << fixed32::precision) - 1;
+        constexpr int64_t max_divisor = int64_t(1) << (sizeof(int64_t) * 8 - 5);
         int64_t divisor = 1;
         while(has_next())
         {
@@ -936,11 +945,10 @@ inline bool f32_from_cstring(const char* str, size_t len, fixed32& fp) noexcept
             {
                 return false;
             }
-            if(dec_part > max_fraction / 10)
-            {
-                break;
-            }
             auto digit = next() - '0';
+            // the digits below the resolution are checked, but not counted.
+            if(dec_part > max_fraction / 10 || divisor > max_divisor)
+                continue;
             dec_part = dec_part * 10 + digit;
             divisor *= 10;
         }
@@ -950,6 +958,8 @@ inline bool f32_from_cstring(const char* str, size_t len, fixed32& fp) noexcept
     {
         fixed_value = int_part << fixed32::precision;
     }
+    if(negative)
+        fixed_value = -fixed_value;
 
     // check overflow
     if(fixed_value > static_cast<int64_t>(std::numeric_limits<int32_t>::max()) || fixed_value < static_cast<int64_t>(std::numeric_limits<int32_t>::min()))
@@ -958,8 +968,6 @@ inline bool f32_from_cstring(const char* str, size_t len, fixed32& fp) noexcept
     }
 
     fp = fixed32::from_internal_value(static_cast<int32_t>(fixed_value));
-    if(negative)
-        fp = -fp;
     return true;
 }
 
@@ -994,12 +1002,16 @@ constexpr bool fixed_from_cstring(const char* str, size_t len, fixed_num<T, I, f
     }
 
     I int_part = I(0), dec_part = I(0);
+    // a larger integer part is never representable.
+    constexpr I max_integer = (static_cast<I>(std::numeric_limits<T>::max()) >> f) + 1;
     // parse the integer part.
     while(has_next() && peek() != '.')
     {
         if(!check_ch(peek()))
             break;
         int_part = int_part * 10 + (next() - '0');
+        if(int_part > max_integer)
+            return false;
     }
     I fixed_value = I(0);
     // parse the decimal part.
@@ -1007,10 +1019,11 @@ constexpr bool fixed_from_cstring(const char* str, size_t len, fixed_num<T, I, f
     {
         next();
         constexpr auto max_fraction = (T(1) << f) - T(1);
+        constexpr I max_divisor = I(1) << (sizeof(I) * 8 - 5);
         I divisor = I(1);
         while(has_next())
         {
-            if(dec_part > max_fraction / 10 || !check_ch(peek()))
+            if(dec_part > max_fraction / 10 || divisor > max_divisor || !check_ch(peek()))
                 break;
             auto digit = next() - '0';
             dec_part = dec_part * 10 + digit;
@@ -1022,6 +1035,8 @@ constexpr bool fixed_from_cstring(const char* str, size_t len, fixed_num<T, I, f
     {
         fixed_value = (int_part << f);
     }
+    if(negative)
+        fixed_value = -fixed_value;
 
     // check overflow
     if(fixed_value > static_cast<I>(std::numeric_limits<T>::max()) || fixed_value < static_cast<I>(std::numeric_limits<T>::min()))
@@ -1030,8 +1045,6 @@ constexpr bool fixed_from_cstring(const char* str, size_t len, fixed_num<T, I, f
     }
 
     fp = fixed::from_internal_value(static_cast<T>(fixed_value));
-    if(negative)
-        fp = -fp;
     return true;
 }
 
-- 
2.43.0


From 14148ec0eb07c0b92674d670fbed4a11d5bc12e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:25:51 +0000
Subject: [PATCH 12/42] fix: io::parse overflowed 32 bits on five digit
 fractions and large integers

---
 include/eirin/io/parse.hpp | 32 +++++++++++++++++++++++---------
 1 file changed, 23 insertions(+), 9 deletions(-)

diff --git a/include/eirin/io/parse.hpp b/include/eirin/io/parse.hpp
index 78eca81..82fd9c8 100644
--- a/include/eirin/io/parse.hpp
+++ b/include/eirin/io/parse.hpp
@@ -45,7 +45,10 @@ inline const char* parse(const char* start, const char* stop, fixed32& out)
         return '0' <= ch && ch <= '9';
     };
 
-    int32_t int_part = 0, dec_part = 0;
+    // the intermediate values need more bits than the number itself.
+    int64_t int_part = 0, dec_part = 0;
+    // a larger integer part is never representable.
+    constexpr int64_t max_integer = (static_cast<int64_t>(std::numeric_limits<int32_t>::max()) >> fixed32::precision) + 1;
     // parse the integer part.
     while(has_next() && peek() != '.')
     {
@@ -54,35 +57,46 @@ inline const char* parse(const char* start, const char* stop, fixed32& out)
             return start -= pos;
         }
         int_part = int_part * 10 + (next() - '0');
+        if(int_part > max_integer)
+        {
+            return start -= pos;
+        }
     }
+    int64_t fixed_value;
     // parse the decimal part.
     if(has_next() && peek() == '.')
     {
         next();
         constexpr auto max_fraction = (1 << fixed32::precision) - 1;
-        int32_t divisor = 1;
+        constexpr int64_t max_divisor = int64_t(1) << (sizeof(int64_t) * 8 - 5);
+        int64_t divisor = 1;
         while(has_next())
         {
             if(!is_digit(peek()))
             {
                 return start -= pos;
             }
-            if(dec_part > max_fraction / 10)
-            {
-                break;
-            }
             auto digit = next() - '0';
+            // the digits below the resolution are checked, but not counted.
+            if(dec_part > max_fraction / 10 || divisor > max_divisor)
+                continue;
             dec_part = dec_part * 10 + digit;
             divisor *= 10;
         }
-        out = fixed32::from_internal_value((int_part << fixed32::precision) + (dec_part << fixed32::precision) / divisor);
+        fixed_value = (int_part << fixed32::precision) + (dec_part << fixed32::precision) / divisor;
     }
     else
     {
-        out = fixed32::from_internal_value(int_part << fixed32::precision);
+        fixed_value = int_part << fixed32::precision;
     }
     if(negative)
-        out = -out;
+        fixed_value = -fixed_value;
+    // check overflow
+    if(fixed_value > std::numeric_limits<int32_t>::max() || fixed_value < std::numeric_limits<int32_t>::min())
+    {
+        return start -= pos;
+    }
+    out = fixed32::from_internal_value(static_cast<int32_t>(fixed_value));
     return start;
 }
 
-- 
2.43.0


From 93579a3ef7f1f03df89fb1b621f87e4de04a65c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:25:51 +0000
Subject: [PATCH 13/42] fix: io::parse of a string_view read past its end and
 stopped at any character equal to the one there

---
 include/eirin/io/parse.hpp | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/include/eirin/io/parse.hpp b/include/eirin/io/parse.hpp
index 82fd9c8..9080558 100644
--- a/include/eirin/io/parse.hpp
+++ b/include/eirin/io/parse.hpp
@@ -8,6 +8,12 @@
 
 namespace eirin::io
 {
+namespace detail
+{
+    template <typename HasNext>
+    inline const char* parse_until(const char* start, HasNext is_before_stop, fixed32& out);
+} // namespace detail
+
 /**
  * @brief Parse fixed point number from string
  *
@@ -17,6 +23,12 @@ namespace eirin::io
  * @return the pos of the pointer.
  */
 inline const char* parse(const char* start, const char* stop, fixed32& out)
+{
+    return detail::parse_until(start, [stop](const char* it) { return *it != *stop; }, out);
+}
+
+template <typename HasNext>
+inline const char* detail::parse_until(const char* start, HasNext is_before_stop, fixed32& out)
 {
     size_t pos = 0;
     bool negative = false;
@@ -31,7 +43,7 @@ inline const char* parse(const char* start, const char* stop, fixed32& out)
     };
     auto has_next = [&]() -> bool
     {
-        return *start != *stop;
+        return is_before_stop(start);
     };
 
     if(has_next() && peek() == '-')
@@ -102,11 +114,9 @@ inline const char* parse(const char* start, const char* stop, fixed32& out)
 
 inline const char* parse(std::string_view str, fixed32& out)
 {
-    return parse(
-        std::to_address(str.begin()),
-        std::to_address(str.end()),
-        out
-    );
+    // the end of the view must not be read.
+    const char* stop = str.data() + str.size();
+    return detail::parse_until(str.data(), [stop](const char* it) { return it != stop; }, out);
 }
 } // namespace eirin::io
 
-- 
2.43.0


From 12d86ef9504f3fddd605b92f3b6e5d19a4bffedd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:25:51 +0000
Subject: [PATCH 14/42] fix: stream extraction overflowed the storage type and
 never reported unrepresentable numbers

---
 include/eirin/fixed.hpp | 34 ++++++++++++++++++++++++++++------
 1 file changed, 28 insertions(+), 6 deletions(-)

diff --git a/include/eirin/fixed.hpp b/include/eirin/fixed.hpp
index dacdcb8..651b771 100644
--- a/include/eirin/fixed.hpp
+++ b/include/eirin/fixed.hpp
@@ -1076,36 +1076,58 @@ std::basic_istream<CharT, Traits>& operator>>(std::basic_istream<CharT, Traits>&
         next();
     }
 
-    T int_part = T(0), dec_part = T(0);
+    // the intermediate values need more bits than the number itself.
+    I int_part = I(0), dec_part = I(0);
+    // a larger integer part is never representable.
+    constexpr I max_integer = (static_cast<I>(std::numeric_limits<T>::max()) >> f) + 1;
     // parse the integer part.
     while(has_next() && peek() != '.')
     {
         if(!isdigit(peek()))
             break;
         int_part = int_part * 10 + (next() - '0');
+        if(int_part > max_integer)
+        {
+            is.setstate(std::ios_base::failbit);
+            return is;
+        }
     }
+    I fixed_value;
     // parse the decimal part.
     if(has_next() && peek() == '.')
     {
         next();
         constexpr auto max_fraction = (T(1) << f) - T(1);
-        T scale = T(1), divisor = T(1);
+        constexpr I max_divisor = I(1) << (sizeof(I) * 8 - 5);
+        I divisor = I(1);
         while(has_next())
         {
-            if(dec_part > max_fraction / 10 || !isdigit(peek()))
+            if(!isdigit(peek()))
                 break;
             auto digit = next() - '0';
+            // the digits below the resolution are consumed, but not counted.
+            if(dec_part > max_fraction / 10 || divisor > max_divisor)
+                continue;
             dec_part = dec_part * 10 + digit;
             divisor *= 10;
         }
-        fp = fixed::from_internal_value((int_part << f) + (dec_part << f) / divisor);
+        fixed_value = (int_part << f) + (dec_part << f) / divisor;
     }
     else
     {
-        fp = fixed::from_internal_value(int_part << f);
+        fixed_value = int_part << f;
     }
     if(negative)
-        fp = -fp;
+        fixed_value = -fixed_value;
+
+    // check overflow
+    if(fixed_value > static_cast<I>(std::numeric_limits<T>::max()) || fixed_value < static_cast<I>(std::numeric_limits<T>::min()))
+    {
+        is.setstate(std::ios_base::failbit);
+        return is;
+    }
+
+    fp = fixed::from_internal_value(static_cast<T>(fixed_value));
     return is;
 }
 
-- 
2.43.0


From 1351b228f9c45820a404192d79b4049fd33b892c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:26:36 +0000
Subject: [PATCH 15/42] fix: printing overflowed for formats with few spare
 bits and gave unsigned numbers a sign

---
 include/eirin/fixed.hpp | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/include/eirin/fixed.hpp b/include/eirin/fixed.hpp
index 651b771..00ec0fe 100644
--- a/include/eirin/fixed.hpp
+++ b/include/eirin/fixed.hpp
@@ -528,19 +528,20 @@ public:
     )
     {
         const char* digits = uppercase ? "0123456789ABCDEF" : "0123456789abcdef";
-        Type divisor = static_cast<Type>(1) << fraction;
+        // the remainder times the base may need more bits than the number itself.
+        IntermediateType divisor = static_cast<IntermediateType>(1) << fraction;
         auto put_char = [&out](const char c)
         {
             *out = c;
             ++out;
         };
 
-        auto value = val.m_value;
+        IntermediateType value = val.m_value;
         Type int_part;
-        if(value == val.signbit_mask())
+        if(std::is_signed_v<Type> && val.m_value == val.signbit_mask())
         {
             put_char('-');
-            int_part = ~(value >> fraction) + 1;
+            int_part = static_cast<Type>(~(value >> fraction) + 1);
             value = 0;
         }
         else
@@ -550,7 +551,7 @@ public:
                 put_char('-');
                 value = -value;
             }
-            int_part = value >> fraction;
+            int_part = static_cast<Type>(value >> fraction);
         }
         value %= divisor;
         std::array<char, 514> buffer;
@@ -597,7 +598,7 @@ public:
                 }
 
                 auto digit = (value / divisor) % base;
-                put_char(digits[digit]);
+                put_char(digits[static_cast<size_t>(digit)]);
                 value %= divisor;
             }
         }
-- 
2.43.0


From 49a275c9a16d429671a2a5e4f32e27a5212803a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:26:36 +0000
Subject: [PATCH 16/42] fix: formatting the fraction overflowed for formats
 with few spare bits

---
 include/eirin/io/format.hpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/include/eirin/io/format.hpp b/include/eirin/io/format.hpp
index 1448dff..a916dda 100644
--- a/include/eirin/io/format.hpp
+++ b/include/eirin/io/format.hpp
@@ -155,9 +155,10 @@ public:
                 {
                     if(frac_bits == 0) break;
 
-                    T shifted = frac_bits * static_cast<T>(10);
-                    T digit = shifted >> F;
-                    frac_bits = shifted & ((static_cast<T>(1) << F) - static_cast<T>(1));
+                    // may need more bits than the number itself.
+                    I shifted = static_cast<I>(frac_bits) * static_cast<I>(10);
+                    I digit = shifted >> F;
+                    frac_bits = static_cast<T>(shifted & ((static_cast<I>(1) << F) - static_cast<I>(1)));
 
                     body.push_back(static_cast<CharT>(digits[static_cast<size_t>(digit)]));
                     ++used_prec;
-- 
2.43.0


From 9c2173128edaf7ad86a777ebb7b98f051cbfe568 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:26:36 +0000
Subject: [PATCH 17/42] fix: a precision of zero left a trailing point

---
 include/eirin/io/format.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/eirin/io/format.hpp b/include/eirin/io/format.hpp
index a916dda..002edfc 100644
--- a/include/eirin/io/format.hpp
+++ b/include/eirin/io/format.hpp
@@ -137,7 +137,7 @@ public:
                     frac_val = -frac_val;
             }
 
-            bool has_frac = (frac_val != 0);
+            bool has_frac = (frac_val != 0) && m_state.precision != 0;
             int used_prec = 0;
 
             if(has_frac)
-- 
2.43.0


From f2b3b106f334b04c6646db70d00e5b90bf9dfda8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:26:36 +0000
Subject: [PATCH 18/42] fix: zero padding of fractional and debug output went
 before the sign

---
 include/eirin/io/format.hpp | 45 +++++++++++++++----------------------
 1 file changed, 18 insertions(+), 27 deletions(-)

diff --git a/include/eirin/io/format.hpp b/include/eirin/io/format.hpp
index 002edfc..2aa67b2 100644
--- a/include/eirin/io/format.hpp
+++ b/include/eirin/io/format.hpp
@@ -106,28 +106,9 @@ public:
         std::basic_string<CharT> body;
 
         if(int_only)
-        {
-            if(m_state.zero_pad && m_state.width_val > 0)
-            {
-                std::size_t total = prefix.size() + digit_str.size();
-                if(static_cast<int>(total) < m_state.width_val)
-                {
-                    std::size_t zeros = static_cast<std::size_t>(m_state.width_val) - total;
-                    body = prefix + std::basic_string<CharT>(zeros, static_cast<CharT>('0')) + digit_str;
-                }
-                else
-                {
-                    body = prefix + digit_str;
-                }
-            }
-            else
-            {
-                body = prefix + digit_str;
-            }
-            return output_aligned(out, body);
-        }
+            return output_aligned(out, zero_padded(prefix, digit_str));
 
-        body = prefix + digit_str;
+        body = digit_str;
         {
             // fractional part
             T frac_val = fp.fractional_part();
@@ -179,7 +160,7 @@ public:
             }
         }
 
-        return output_aligned(out, body);
+        return output_aligned(out, zero_padded(prefix, body));
     }
 
 private:
@@ -214,11 +195,11 @@ private:
             uval = static_cast<unsigned_type>(int_val);
         }
 
-        std::basic_string<CharT> body;
-        append_sign(body, neg);
+        std::basic_string<CharT> prefix, body;
+        append_sign(prefix, neg);
 
         if(m_state.alt_form)
-            append_alt_prefix(body, 16, upper);
+            append_alt_prefix(prefix, 16, upper);
 
         const auto& digits = detail::digit_map_lower;
 
@@ -238,7 +219,7 @@ private:
             body += rev;
         }
 
-        return output_aligned(out, body);
+        return output_aligned(out, zero_padded(prefix, body));
     }
 
     // Convert an integer to a string in the given base
@@ -324,6 +305,16 @@ private:
         }
     }
 
+    // the zeros of the 0 flag go between the prefix and the digits
+    std::basic_string<CharT> zero_padded(const std::basic_string<CharT>& prefix, const std::basic_string<CharT>& digit_str) const
+    {
+        std::basic_string<CharT> body = prefix;
+        std::size_t total = prefix.size() + digit_str.size();
+        if(m_state.zero_pad && m_state.width_val > 0 && total < static_cast<std::size_t>(m_state.width_val))
+            body.append(static_cast<std::size_t>(m_state.width_val) - total, static_cast<CharT>('0'));
+        return body + digit_str;
+    }
+
     template <typename OutputIt>
     OutputIt output_aligned(OutputIt out, const std::basic_string<CharT>& body) const
     {
@@ -332,7 +323,7 @@ private:
             return std::copy(body.begin(), body.end(), out);
 
         std::size_t pad_cnt = static_cast<std::size_t>(m_state.width_val) - sz;
-        CharT pad_ch = m_state.zero_pad ? static_cast<CharT>('0') : m_state.fill_ch;
+        CharT pad_ch = m_state.fill_ch;
 
         char eff_align = (m_state.align_mode == '\0') ? '>' : m_state.align_mode;
 
-- 
2.43.0


From 667ded30a3d1e22f9bcc25d2f82ad2aa210c28de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:26:36 +0000
Subject: [PATCH 19/42] fix: the brace closing a replacement field was taken
 for a fill character

---
 include/eirin/io/format.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/eirin/io/format.hpp b/include/eirin/io/format.hpp
index 2aa67b2..9f829bb 100644
--- a/include/eirin/io/format.hpp
+++ b/include/eirin/io/format.hpp
@@ -399,7 +399,8 @@ public:
         {
             auto nxt = it;
             ++nxt;
-            if(nxt != end && (*nxt == '<' || *nxt == '>' || *nxt == '^'))
+            // a brace ends the spec (or is an error), it is never the fill character.
+            if(*it != '{' && *it != '}' && nxt != end && (*nxt == '<' || *nxt == '>' || *nxt == '^'))
             {
                 st.fill_ch = *it;
                 st.align_mode = *nxt;
-- 
2.43.0


From 1f50b2c6179e9b2c5b0b8990455fef0fb6ae40da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:26:36 +0000
Subject: [PATCH 20/42] fix: huge widths and precisions overflowed

---
 include/eirin/io/format.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/eirin/io/format.hpp b/include/eirin/io/format.hpp
index 9f829bb..3f14248 100644
--- a/include/eirin/io/format.hpp
+++ b/include/eirin/io/format.hpp
@@ -440,6 +440,8 @@ public:
             st.width_val = 0;
             while(it != end && *it >= '0' && *it <= '9')
             {
+                if(st.width_val > (std::numeric_limits<int>::max() - 9) / 10)
+                    EIRIN_THROW_EXCEPTION(std::format_error, "the width is too large");
                 st.width_val = st.width_val * 10 + static_cast<int>(*it - '0');
                 ++it;
             }
@@ -452,6 +454,8 @@ public:
             st.precision = 0;
             while(it != end && *it >= '0' && *it <= '9')
             {
+                if(st.precision > (std::numeric_limits<int>::max() - 9) / 10)
+                    EIRIN_THROW_EXCEPTION(std::format_error, "the precision is too large");
                 st.precision = st.precision * 10 + static_cast<int>(*it - '0');
                 ++it;
             }
-- 
2.43.0


From 030d89f86783a5792d6bf3d62f66081895fb3e26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:30:19 +0000
Subject: [PATCH 21/42] fix: sine of tiny negative numbers and of the minimum
 had the wrong sign or value

---
 include/eirin/math.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/eirin/math.hpp b/include/eirin/math.hpp
index de411bf..e3aad41 100644
--- a/include/eirin/math.hpp
+++ b/include/eirin/math.hpp
@@ -217,8 +217,8 @@ EIRIN_ALWAYS_INLINE constexpr fixed_num<T, I, f, r> sin(fixed_num<T, I, f, r> fp
     // we reconginzed the sin(x) = x when x is small enough.
     // sin(0.00015) = 0.000149999999437, so we use 0.0001 as the threshold.
     // TODO: replace it with fixed::template from_fixed_num_value<61>(0x13A92A0000000)
-    if(abs(fp) < fixed(0.00015))
-        return negative ? -fp : fp;
+    if(fp < fixed(0.00015) && fp > -fixed(0.00015))
+        return fp;
 
     // reduce the range to [0, 1] due to sin is
     // symmetrical around PI / 2 in the domain [0, PI].
-- 
2.43.0


From ca90ad363708634e756aa3ba4a4e0ec5b3fbf8b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:30:19 +0000
Subject: [PATCH 22/42] fix: exp halved the linear coefficient of its
 polynomial

---
 include/eirin/math.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/eirin/math.hpp b/include/eirin/math.hpp
index e3aad41..f7753e9 100644
--- a/include/eirin/math.hpp
+++ b/include/eirin/math.hpp
@@ -521,7 +521,7 @@ namespace detail
         constexpr auto b = fixed::template from_fixed_num_value<63>(0x04745859810836DAll); // 3.4800571158543038e-2
         constexpr auto c = fixed::template from_fixed_num_value<63>(0x15CFBB5C306F85F3ll); // 1.7040197373796334e-1
         constexpr auto d = fixed::template from_fixed_num_value<63>(0x3FE26186C531F98Ell); // 4.9909609871464493e-1
-        constexpr auto e = fixed::template from_fixed_num_value<63>(0x40014D4407008BB0ll); // 1.0000794567422495
+        constexpr auto e = fixed::template from_fixed_num_value<62>(0x40014D4407008BB0ll); // 1.0000794567422495
         constexpr auto _f = fixed::template from_fixed_num_value<63>(0x7FFFF686446F1B43ll); // 9.9999887043019773e-1
         return pow(numbers::e_v<fixed>(), x_int) * (_f + fp * (e + fp * (d + fp * (c + fp * (b + fp * a)))));
     }
-- 
2.43.0


From 3ba36195d60633d08d0f79ad9db42f3ab018353f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:30:19 +0000
Subject: [PATCH 23/42] fix: exp of large negative numbers divided by an
 overflowed value

---
 include/eirin/math.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/eirin/math.hpp b/include/eirin/math.hpp
index f7753e9..e7eab75 100644
--- a/include/eirin/math.hpp
+++ b/include/eirin/math.hpp
@@ -535,7 +535,13 @@ EIRIN_ALWAYS_INLINE constexpr fixed_num<T, I, f, r> exp(fixed_num<T, I, f, r> fp
     if(fp == fixed(0))
         return fixed(1);
     if(fp < fixed(0))
+    {
+        // e^-x is not representable, and the result is close to zero.
+        constexpr auto limit = numbers::ln2_v<fixed>() * (sizeof(T) * 8 - 1 - f);
+        if(fp < -limit)
+            return fixed(0);
         return fixed(1) / detail::exp_expand(-fp);
+    }
     return detail::exp_expand(fp);
 }
 
-- 
2.43.0


From 552e82fef3662e786e66bd962ff1d3baa49caede Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:30:19 +0000
Subject: [PATCH 24/42] fix: pow of a negative base terminated the program

---
 include/eirin/math.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/eirin/math.hpp b/include/eirin/math.hpp
index e7eab75..fff9282 100644
--- a/include/eirin/math.hpp
+++ b/include/eirin/math.hpp
@@ -548,7 +548,7 @@ EIRIN_ALWAYS_INLINE constexpr fixed_num<T, I, f, r> exp(fixed_num<T, I, f, r> fp
 // TODO: This function has performance issue on MSVC,
 // which is about 5x slower than the result of clang-cl.
 template <typename T, typename I, unsigned int f, bool r>
-EIRIN_ALWAYS_INLINE constexpr fixed_num<T, I, f, r> pow(fixed_num<T, I, f, r> b, fixed_num<T, I, f, r> e) noexcept
+EIRIN_ALWAYS_INLINE constexpr fixed_num<T, I, f, r> pow(fixed_num<T, I, f, r> b, fixed_num<T, I, f, r> e)
 {
     using fixed = fixed_num<T, I, f, r>;
     if(b == fixed(0))
@@ -561,6 +561,9 @@ EIRIN_ALWAYS_INLINE constexpr fixed_num<T, I, f, r> pow(fixed_num<T, I, f, r> b,
     // the integer part of the input exponent.
     const T e_int = static_cast<T>(e.internal_value() / (I(1) << f));
     e -= e_int;
+    // the logarithm is not needed (and does not exist for negative bases).
+    if(e == fixed(0))
+        return pow(b, e_int);
 
     return pow(b, e_int) * exp(e * log(b));
 }
-- 
2.43.0


From 22e7648c9a186951042a16209455982f95e154dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:30:19 +0000
Subject: [PATCH 25/42] fix: asin and acos accepted the minimum

---
 include/eirin/math.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/eirin/math.hpp b/include/eirin/math.hpp
index fff9282..8644285 100644
--- a/include/eirin/math.hpp
+++ b/include/eirin/math.hpp
@@ -319,7 +319,7 @@ template <typename T, typename I, unsigned int f, bool r, fixed_num<T, I, f, r>
 EIRIN_ALWAYS_INLINE constexpr fixed_num<T, I, f, r> asin(fixed_num<T, I, f, r> fp)
 {
     using fixed = fixed_num<T, I, f, r>;
-    if(abs(fp) > fixed(1))
+    if(fp > fixed(1) || fp < fixed(-1))
         EIRIN_THROW_EXCEPTION(std::domain_error, "asin() domain error");
     if(fp == fixed(1))
         return pi / fixed(2);
@@ -332,7 +332,7 @@ template <typename T, typename I, unsigned int f, bool r, fixed_num<T, I, f, r>
 EIRIN_ALWAYS_INLINE constexpr fixed_num<T, I, f, r> acos(fixed_num<T, I, f, r> fp)
 {
     using fixed = fixed_num<T, I, f, r>;
-    if(abs(fp) > fixed(1))
+    if(fp > fixed(1) || fp < fixed(-1))
         EIRIN_THROW_EXCEPTION(std::domain_error, "acos() domain error");
     if(fp == fixed(1))
         return fixed(0);
-- 
2.43.0


From a271040ca2275a343e16be487ba17c42cbb64cc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:30:19 +0000
Subject: [PATCH 26/42] fix: atan was wrong for magnitudes above one

---
 include/eirin/math.hpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/include/eirin/math.hpp b/include/eirin/math.hpp
index 8644285..ef3e8d9 100644
--- a/include/eirin/math.hpp
+++ b/include/eirin/math.hpp
@@ -286,11 +286,15 @@ EIRIN_ALWAYS_INLINE constexpr fixed_num<T, I, f, r> atan(fixed_num<T, I, f, r> f
     constexpr auto a = -1 * fixed::template from_fixed_num_value<61>(0X17CE62CE264A340); // 0.0464964749
     constexpr auto b = fixed::template from_fixed_num_value<61>(0X5191A2296020A80); // 0.15931422
     constexpr auto c = fixed::template from_fixed_num_value<61>(0XA7BE2BC19C39800); // 0.327622764
-    // TODO: because fixed point cannot represent infinity, so we need to handle the case when fp is very large.
-    auto abs_fp = abs(fp);
-    auto x = abs_fp;
+    // the magnitude of the minimum is not representable.
+    auto abs_fp = fp == std::numeric_limits<fixed>::min() ? std::numeric_limits<fixed>::max() : abs(fp);
+    // the polynomial only fits [0, 1], use atan(x) = pi / 2 - atan(1 / x) beyond it.
+    const bool inverse = abs_fp > fixed(1);
+    auto x = inverse ? fixed(1) / abs_fp : abs_fp;
     auto x2 = x * x;
     fixed result = ((a * x2 + b) * x2 - c) * x2 * x + x;
+    if(inverse)
+        result = pi / fixed(2) - result;
     // if the input is negative, return negative result.
     if(fp.signbit_mask() & fp.internal_value())
         result = -result;
-- 
2.43.0


From e07eb47109d068faa95c769ccebc7e9c2dfef507 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:30:19 +0000
Subject: [PATCH 27/42] fix: cbrt of negative numbers divided by zero or did
 not converge

---
 include/eirin/math.hpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/eirin/math.hpp b/include/eirin/math.hpp
index ef3e8d9..d5b59eb 100644
--- a/include/eirin/math.hpp
+++ b/include/eirin/math.hpp
@@ -364,7 +364,11 @@ template <typename T, typename I, unsigned int f, bool r, int iter_max = 200>
 EIRIN_ALWAYS_INLINE constexpr fixed_num<T, I, f, r> cbrt(fixed_num<T, I, f, r> fp) noexcept
 {
     using fixed = fixed_num<T, I, f, r>;
-    if(abs(fp) < fixed::epsilon())
+    const bool negative = fp < fixed(0);
+    // the magnitude of the minimum is not representable.
+    if(negative)
+        fp = fp == std::numeric_limits<fixed>::min() ? std::numeric_limits<fixed>::max() : -fp;
+    if(fp < fixed::epsilon())
         return fixed(0);
     auto x = (fixed(fp) + 2) / 3;
     auto iter_count = 0;
@@ -375,7 +379,7 @@ EIRIN_ALWAYS_INLINE constexpr fixed_num<T, I, f, r> cbrt(fixed_num<T, I, f, r> f
         x = (fp / (x * x) + x * 2) / 3;
         ++iter_count;
     }
-    return x;
+    return negative ? -x : x;
 }
 
 /**
-- 
2.43.0


From cef0db9431857db0b7809363cbd875f1aed66086 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:30:19 +0000
Subject: [PATCH 28/42] fix: log2 shifted an int beyond its width for more than
 32 fraction bits

---
 include/eirin/math.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/eirin/math.hpp b/include/eirin/math.hpp
index d5b59eb..9eaf2f0 100644
--- a/include/eirin/math.hpp
+++ b/include/eirin/math.hpp
@@ -419,7 +419,7 @@ EIRIN_ALWAYS_INLINE constexpr fixed_num<T, I, f, r> log2(fixed_num<T, I, f, r> f
     // The assembly code of '-O3' optimization is to expand the for loop code into tons of code segments,
     // which makes the performance of the code much slower than '-O2' optimization.
     // I prefer this situation is abnormal, but I don't know why.
-    T b = 1u << (f - 1), y = 0, x = fp.internal_value();
+    T b = static_cast<T>(1) << (f - 1), y = 0, x = fp.internal_value();
     if(fp <= fixed(0))
         EIRIN_THROW_EXCEPTION(std::domain_error, "log2() domain error");
 
-- 
2.43.0


From 024922ff0030caa32bb44ae3dab7ee81e1c62f6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:30:19 +0000
Subject: [PATCH 29/42] fix: sqrt of 32-bit formats other than Q16.16 was not
 scaled, and negative Q16.16 gave garbage

---
 include/eirin/math.hpp | 19 +++++--------------
 1 file changed, 5 insertions(+), 14 deletions(-)

diff --git a/include/eirin/math.hpp b/include/eirin/math.hpp
index 9eaf2f0..4855568 100644
--- a/include/eirin/math.hpp
+++ b/include/eirin/math.hpp
@@ -97,21 +97,14 @@ template <typename T, typename I, unsigned int f, bool r>
 EIRIN_ALWAYS_INLINE constexpr fixed_num<T, I, f, r> sqrt(fixed_num<T, I, f, r> fp) noexcept
 {
     using fixed = fixed_num<T, I, f, r>;
-    // test if T is int32_t, if so, we can use the fast sqrt algorithm.
+    // test if T is int32_t with 16 bits fraction, if so, we can use the fast sqrt algorithm.
     // if not, using newton method.
-    if constexpr(std::is_same_v<T, int32_t>)
+    if(fp < fixed(0))
+        return fixed(-1);
+    if constexpr(std::is_same_v<T, int32_t> && f == 16)
     {
         uint64_t t, q = 0, b = 0x40000000UL, v;
-        if constexpr(f > 16)
-        {
-            constexpr auto move = f - 16;
-            v = fp.internal_value() >> move;
-        }
-        else
-        {
-            constexpr auto move = 16 - f;
-            v = fp.internal_value() << move;
-        }
+        v = fp.internal_value();
 
         // fix number sqrt using bit hack.
         if(v < 0x40000200)
@@ -162,8 +155,6 @@ EIRIN_ALWAYS_INLINE constexpr fixed_num<T, I, f, r> sqrt(fixed_num<T, I, f, r> f
     }
     else
     {
-        if(fp < fixed(0))
-            return fixed(-1);
         if(fp == fixed(0))
             return fixed(0);
         const T val = fp.internal_value();
-- 
2.43.0


From 7f196c809613692d924189ba039442afcede8825 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:30:19 +0000
Subject: [PATCH 30/42] fix: sqrt of small 64-bit numbers stopped before it
 converged

---
 include/eirin/math.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/eirin/math.hpp b/include/eirin/math.hpp
index 4855568..b051efa 100644
--- a/include/eirin/math.hpp
+++ b/include/eirin/math.hpp
@@ -163,12 +163,12 @@ EIRIN_ALWAYS_INLINE constexpr fixed_num<T, I, f, r> sqrt(fixed_num<T, I, f, r> f
         const auto init_value = fixed::get_sqrt_init_value(exponent);
         auto x = fixed::from_internal_value(init_value);
 
-        auto eps = fixed::epsilon();
         for(int i = 0; i < 5; ++i)
         {
-            x = (x + fp / x) / 2;
-            if(abs(fp - x * x) < eps)
+            const auto next = (x + fp / x) / 2;
+            if(next == x)
                 break;
+            x = next;
         }
         return x;
     }
-- 
2.43.0


From b49d05121cafd07fd8311917c1ead18e75f77c37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:30:19 +0000
Subject: [PATCH 31/42] fix: the pcg mixing steps shifted by the value instead
 of mixing it

---
 include/eirin/random.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/eirin/random.hpp b/include/eirin/random.hpp
index 8b74e59..7da6b5e 100644
--- a/include/eirin/random.hpp
+++ b/include/eirin/random.hpp
@@ -50,7 +50,7 @@ protected:
 
     EIRIN_ALWAYS_INLINE UIntType mix_first(UIntType x)
     {
-        x >>= 8 ^ x;
+        x ^= x >> 8;
         x += increment;
         return x;
     }
@@ -64,7 +64,7 @@ protected:
 
     EIRIN_ALWAYS_INLINE UIntType mix_second(UIntType x)
     {
-        x >>= 8 ^ x;
+        x ^= x >> 8;
         x *= mix_multiplier;
         return x;
     }
-- 
2.43.0


From 18cfd4da0b46bce977d784ee83d7acc4a867eed3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:30:19 +0000
Subject: [PATCH 32/42] fix: reseeding the pcg engine kept the old state

---
 include/eirin/random.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/eirin/random.hpp b/include/eirin/random.hpp
index 7da6b5e..d5fe8c5 100644
--- a/include/eirin/random.hpp
+++ b/include/eirin/random.hpp
@@ -101,6 +101,7 @@ public:
     void seed(result_type seed = default_seed)
     {
         m_seed = seed;
+        m_state = state;
     }
 
     void seed(std::seed_seq& seq)
-- 
2.43.0


From 0aed5a6fb3a92a0bfe64a3837ad408695967a094 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:30:19 +0000
Subject: [PATCH 33/42] fix: the distributions ignored the parameters given to
 a call

---
 include/eirin/detail/distribution.hpp | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/include/eirin/detail/distribution.hpp b/include/eirin/detail/distribution.hpp
index 376a9fa..81ca21f 100644
--- a/include/eirin/detail/distribution.hpp
+++ b/include/eirin/detail/distribution.hpp
@@ -101,8 +101,7 @@ public:
     template <typename _UniformRandomBitGenerator>
     FixedType operator()(_UniformRandomBitGenerator& g, const param_type& param)
     {
-        // the m_param and the underlying distribution should be consistent, so just call m_dist.operator(g)
-        auto raw_val = m_dist(g);
+        auto raw_val = m_dist(g, param.to_underlying());
         return FixedType::template from_fixed_num_value<result_type::precision>(static_cast<value_type>(raw_val));
     }
 
@@ -237,8 +236,7 @@ public:
     template <typename _UniformRandomBitGeneratorAdapter>
     FixedType operator()(_UniformRandomBitGeneratorAdapter& a, const param_type& param)
     {
-        // the m_param and the underlying distribution should be consistent, so just call m_dist.operator(g)
-        auto raw_val = m_dist(a.__underlying_engine());
+        auto raw_val = m_dist(a.__underlying_engine(), param.to_underlying());
         return FixedType::template from_fixed_num_value<result_type::precision>(static_cast<value_type>(raw_val));
     }
 
-- 
2.43.0


From 68d1e2b42b166aa9702c5a0afe41af80737d1bd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:31:29 +0000
Subject: [PATCH 34/42] fix: cordic_sine of negative angles used the two's
 complement bits as the magnitude

---
 include/eirin/ext/cordic.hpp | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/include/eirin/ext/cordic.hpp b/include/eirin/ext/cordic.hpp
index 365e98a..c350546 100644
--- a/include/eirin/ext/cordic.hpp
+++ b/include/eirin/ext/cordic.hpp
@@ -81,10 +81,8 @@ namespace detail
 
         sin_sign = Q < const_0 ? -1 : 1;
 
-        // abs Q with signbit mask.
-        auto sign_mask = Q.signbit_mask();
-        auto abs_value = Q.m_value & ~sign_mask;
-        Q = FP::from_internal_value(abs_value);
+        // the magnitude of the minimum is not representable.
+        Q = Q == std::numeric_limits<FP>::min() ? std::numeric_limits<FP>::max() : abs(Q);
 
         // scale angel into [-2*pi, 2*pi].
         Q %= double_pi;
-- 
2.43.0


From 8a3ea1da6e02922f700ae8da87e0f4bc2e6ed1bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:31:29 +0000
Subject: [PATCH 35/42] fix: ext::int128 dropped the sign of its values and the
 carry of its sums

---
 include/eirin/ext/builtin_ints.hpp | 18 ++++++++----------
 1 file changed, 8 insertions(+), 10 deletions(-)

diff --git a/include/eirin/ext/builtin_ints.hpp b/include/eirin/ext/builtin_ints.hpp
index d259d4a..c9a3fe0 100644
--- a/include/eirin/ext/builtin_ints.hpp
+++ b/include/eirin/ext/builtin_ints.hpp
@@ -21,12 +21,12 @@ public:
     template <std::integral T>
     requires(sizeof(T) <= 8)
     EIRIN_ALWAYS_INLINE explicit int128(T val) noexcept
-        : high(0), low(val){};
+        : high(val < 0 ? -1 : 0), low(val){};
 
     template <std::floating_point T>
     requires(sizeof(T) <= 8)
     EIRIN_ALWAYS_INLINE explicit int128(T val) noexcept
-        : high(0), low(static_cast<int64_t>(val)){};
+        : high(static_cast<int64_t>(val) < 0 ? -1 : 0), low(static_cast<int64_t>(val)){};
 
     template <std::integral T>
     requires(sizeof(T) <= 8)
@@ -46,19 +46,17 @@ public:
     EIRIN_ALWAYS_INLINE constexpr explicit operator int64_t() const noexcept
     {
         // when casting, we should consider about overflow.
-        if(high > 0)
-            return std::numeric_limits<int64_t>::max();
-        else if(high < 0)
-            return std::numeric_limits<int64_t>::min();
-        else
+        if(high == (low < 0 ? -1 : 0))
             return low;
+        return high < 0 ? std::numeric_limits<int64_t>::min() : std::numeric_limits<int64_t>::max();
     }
 
     EIRIN_ALWAYS_INLINE constexpr int128 operator+(const int128& rhs) const noexcept
     {
-        auto h = high + rhs.high;
-        auto l = low + rhs.low;
-        return int128(h, l);
+        // the low part is unsigned, and its carry goes to the high part.
+        const auto l = static_cast<uint64_t>(low) + static_cast<uint64_t>(rhs.low);
+        const auto h = static_cast<uint64_t>(high) + static_cast<uint64_t>(rhs.high) + (l < static_cast<uint64_t>(low) ? 1 : 0);
+        return int128(static_cast<int64_t>(h), static_cast<int64_t>(l));
     }
 
 private:
-- 
2.43.0


From b33ac8ae650161f312e2c731e5c06e625657d30d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:53:07 +0000
Subject: [PATCH 36/42] fix: extracting an integer at the end of a stream
 reported a failure

---
 include/eirin/fixed.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/include/eirin/fixed.hpp b/include/eirin/fixed.hpp
index 00ec0fe..93bc318 100644
--- a/include/eirin/fixed.hpp
+++ b/include/eirin/fixed.hpp
@@ -1064,8 +1064,11 @@ std::basic_istream<CharT, Traits>& operator>>(std::basic_istream<CharT, Traits>&
     };
     auto has_next = [&]() -> bool
     {
-        auto ch = is.peek();
-        return !is.eof();
+        // peeking again after the end was seen would report a failure.
+        if(!is.good())
+            return false;
+        is.peek();
+        return is.good();
     };
     if(!has_next())
     {
-- 
2.43.0


From a19013176aaf09f9de8824357eabf16c65681121 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:53:21 +0000
Subject: [PATCH 37/42] fix: extraction from a stream with exceptions enabled
 terminated the program

---
 include/eirin/fixed.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/eirin/fixed.hpp b/include/eirin/fixed.hpp
index 93bc318..9566ba7 100644
--- a/include/eirin/fixed.hpp
+++ b/include/eirin/fixed.hpp
@@ -1050,7 +1050,7 @@ constexpr bool fixed_from_cstring(const char* str, size_t len, fixed_num<T, I, f
 }
 
 template <typename CharT, class Traits, typename T, typename I, unsigned int f, bool r>
-std::basic_istream<CharT, Traits>& operator>>(std::basic_istream<CharT, Traits>& is, fixed_num<T, I, f, r>& fp) noexcept
+std::basic_istream<CharT, Traits>& operator>>(std::basic_istream<CharT, Traits>& is, fixed_num<T, I, f, r>& fp)
 {
     using fixed = fixed_num<T, I, f, r>;
     bool negative = false;
-- 
2.43.0


From 8f9584bd37241ca4a736b94dae008322e71699d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:23:45 +0000
Subject: [PATCH 38/42] fix: cbrt overflowed its iteration for large numbers
 and could divide by zero

The first guess (x + 2) / 3 has a square that does not fit for numbers
above three times the square root of the maximum: cbrt(766) divided by
zero, others converged to garbage. Start at a power of two next to the
root and iterate until the estimate stops descending.
---
 include/eirin/math.hpp | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/include/eirin/math.hpp b/include/eirin/math.hpp
index b051efa..9acd64e 100644
--- a/include/eirin/math.hpp
+++ b/include/eirin/math.hpp
@@ -361,13 +361,19 @@ EIRIN_ALWAYS_INLINE constexpr fixed_num<T, I, f, r> cbrt(fixed_num<T, I, f, r> f
         fp = fp == std::numeric_limits<fixed>::min() ? std::numeric_limits<fixed>::max() : -fp;
     if(fp < fixed::epsilon())
         return fixed(0);
-    auto x = (fixed(fp) + 2) / 3;
+    // start at a power of two above the root and at most twice of it, its square does not overflow.
+    const int exponent = detail::find_msb(fp.internal_value()) - static_cast<int>(f);
+    const int root_exponent = (exponent >= 0 ? exponent : exponent - 2) / 3 + 1;
+    auto x = fixed::from_internal_value(static_cast<T>(T(1) << (root_exponent + static_cast<int>(f))));
     auto iter_count = 0;
-    constexpr auto precision = fixed::nearly_compare_epsilon() * 2;
 
-    while(abs(fp - (x * x * x)) >= precision && iter_count <= iter_max)
+    // the iteration descends to the root, and stops when it does not get any closer.
+    while(iter_count <= iter_max)
     {
-        x = (fp / (x * x) + x * 2) / 3;
+        const auto next = (fp / (x * x) + x * 2) / 3;
+        if(next >= x)
+            break;
+        x = next;
         ++iter_count;
     }
     return negative ? -x : x;
-- 
2.43.0


From 837fb2ee1f183d42b6c2f512a85ba8f4274999f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:34:17 +0000
Subject: [PATCH 39/42] fix: pow with a negative exponent divided by zero for
 large bases

The squared base overflowed to zero and was divided by: pow(256, -3)
raised SIGFPE, other bases gave garbage instead of zero.
---
 include/eirin/math.hpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/include/eirin/math.hpp b/include/eirin/math.hpp
index 9acd64e..079bf7b 100644
--- a/include/eirin/math.hpp
+++ b/include/eirin/math.hpp
@@ -495,10 +495,19 @@ EIRIN_ALWAYS_INLINE constexpr fixed_num<T, I, f, r> pow(fixed_num<T, I, f, r> b,
     auto res = fixed(1);
     if(e < 0)
     {
+        // the square of a number below this one fits.
+        constexpr auto limit = fixed::from_internal_value(static_cast<T>(T(1) << (f + (sizeof(T) * 8 - 1 - f) / 2)));
         for(auto i = b; e != 0; e /= 2, i *= i)
         {
             if(e % 2 != 0)
                 res /= i;
+            if(i >= limit || (i < fixed(0) && i <= -limit))
+            {
+                // only a few divisions are left until the result vanishes.
+                for(e = e / 2 * 2; e != 0 && res != fixed(0); ++e)
+                    res /= i;
+                break;
+            }
         }
     }
     else
-- 
2.43.0


From 3f9a83739f8b0d130aa86c9df5c44f599ba38d07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:58:27 +0000
Subject: [PATCH 40/42] fix: a colon as the fill character of a format
 specification was ignored

---
 include/eirin/io/format.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/eirin/io/format.hpp b/include/eirin/io/format.hpp
index 3f14248..b98cd34 100644
--- a/include/eirin/io/format.hpp
+++ b/include/eirin/io/format.hpp
@@ -385,7 +385,9 @@ public:
             auto p = it;
             while(p != end && *p >= '0' && *p <= '9')
                 ++p;
-            if(p != end && *p == ':')
+            // a colon in front of an alignment is the fill character.
+            const bool fill = p == it && p != end && p + 1 != end && (p[1] == '<' || p[1] == '>' || p[1] == '^');
+            if(p != end && *p == ':' && !fill)
                 it = p + 1;
         }
 
-- 
2.43.0


From e7df138161c40638b5c1b44ae1d4f5baba8b5a79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:16:03 +0000
Subject: [PATCH 41/42] fix: the two-lane angle reduction swapped its lanes and
 did not reduce

---
 include/eirin/ext/simd_math.hpp | 19 ++-----------------
 1 file changed, 2 insertions(+), 17 deletions(-)

diff --git a/include/eirin/ext/simd_math.hpp b/include/eirin/ext/simd_math.hpp
index 49ff889..19085db 100644
--- a/include/eirin/ext/simd_math.hpp
+++ b/include/eirin/ext/simd_math.hpp
@@ -200,19 +200,6 @@ namespace detail
     // {
     //     static const __m256i threshold = _mm256_set1_epi64x((0.00015_f64).internal_value());
     // }
-
-    EIRIN_ALWAYS_INLINE __m128i __sse_simd_reduce_angle(__m128i x)
-    {
-        // these [2 * i64] vector stores the fixed point internal represent.
-        static constexpr int64_t two_pi_v[2] = {(numbers::pi_f64 * 2_f64).internal_value(), (numbers::pi_f64 * 2_f64).internal_value()};
-        static constexpr int64_t inv_two_pi_v[2] = {(1_f64 / (numbers::pi_f64 * 2_f64)).internal_value(), (1_f64 / (numbers::pi_f64 * 2_f64)).internal_value()};
-        static const __m128i two_pi = _mm_lddqu_si128((__m128i*)two_pi_v);
-        static const __m128i inv_two_pi = _mm_lddqu_si128((__m128i*)inv_two_pi_v);
-        // n = x / (2pi)
-        __m128i n = _mm_mul_epi32(x, inv_two_pi);
-        // x = x - n * (2pi)
-        return _mm_sub_epi64(x, _mm_mul_epi32(n, two_pi));
-    }
 } // namespace detail
 
 #define FIXED64(X) fixed64::from_internal_value(X)
@@ -227,10 +214,8 @@ EIRIN_ALWAYS_INLINE std::array<fixed64, 4> simd_reduce_angle(std::array<fixed64,
 
 EIRIN_ALWAYS_INLINE std::array<fixed64, 2> simd_reduce_angle_2(std::array<fixed64, 2> xs) noexcept
 {
-    __m128i xv = _mm_lddqu_si128((__m128i*)xs.data());
-    __m128i rv = detail::__sse_simd_reduce_angle(xv);
-    int64_t r1 = _mm_extract_epi64(rv, 0b1), r2 = _mm_extract_epi64(rv, 0b0);
-    return {FIXED64(r1), FIXED64(r2)};
+    auto rs = simd_reduce_angle({xs[0], xs[1], fixed64(0), fixed64(0)});
+    return {rs[0], rs[1]};
 }
 
 #undef FIXED64
-- 
2.43.0


From 639245255194755bc4425ed70da24a91873aa68d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:16:03 +0000
Subject: [PATCH 42/42] fix: with AVX-512 the angle reduction lost the high
 half of the products

---
 include/eirin/ext/simd_math.hpp | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/include/eirin/ext/simd_math.hpp b/include/eirin/ext/simd_math.hpp
index 19085db..1fd3793 100644
--- a/include/eirin/ext/simd_math.hpp
+++ b/include/eirin/ext/simd_math.hpp
@@ -112,11 +112,7 @@ namespace detail
 {
     EIRIN_ALWAYS_INLINE __m256i avx_mm256_mullo_epi64(__m256i __A, __m256i __B)
     {
-#ifdef __AVX512DQ__
-        // For machines with AVX-512, we just calc (a * b) >> 32.
-        return _mm256_srli_epi64(_mm256_mullo_epi64(__A, __B), 32);
-#else
-        // Fallback implementation for lane-wise 64-bit multiplication without AVX-512.
+        // Lane-wise (a * b) >> 32; a 64-bit mullo would lose the high half of the product.
         // Compute sign masks (0 or -1) from sign bit using shifts to avoid
         // relying on potentially unavailable 64-bit compare intrinsics.
         __m256i sign_bit_a = _mm256_srli_epi64(__A, 63);
@@ -147,7 +143,6 @@ namespace detail
         // restore sign
         __m256i sign = _mm256_xor_si256(sign_mask_a, sign_mask_b);
         return _mm256_sub_epi64(_mm256_xor_si256(result, sign), sign);
-#endif
     }
 
     EIRIN_ALWAYS_INLINE __m256i _mm256_fpint_epi64(__m256i __X)
-- 
2.43.0

