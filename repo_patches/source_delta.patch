From 689a6767818377162dc3340ef353796988ff4fc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:07:50 +0000
Subject: [PATCH 01/62] fix: keep the fractional part when casting to floating
 point types

---
 include/eirin/fixed.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/eirin/fixed.hpp b/include/eirin/fixed.hpp
index 5e03f7d..f57ff77 100644
--- a/include/eirin/fixed.hpp
+++ b/include/eirin/fixed.hpp
@@ -295,7 +295,7 @@ public:
     {
         // MSVC might warn about precision loss here, but it's expected.
         // SO I JUST FUCK IT BEFORE.
-        return static_cast<T>(static_cast<value_type>(m_value / fraction_multiplier));
+        return static_cast<T>(m_value) / static_cast<T>(fraction_multiplier);
     }
 
     constexpr inline fixed_num operator+(const fixed_num& other) const noexcept
-- 
2.43.0


From 70b55b84cc999fd0172c85ee23adc1e1e3288a76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:07:50 +0000
Subject: [PATCH 02/62] fix: rounding construction from a non-negative floating
 value halved it

---
 include/eirin/fixed.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/eirin/fixed.hpp b/include/eirin/fixed.hpp
index f57ff77..ff4b466 100644
--- a/include/eirin/fixed.hpp
+++ b/include/eirin/fixed.hpp
@@ -163,7 +163,7 @@ public:
             {
                 m_value = static_cast<Type>(
                     val >= 0.0 ?
-                        (val * T{0.5} * fraction_multiplier) :
+                        (val * fraction_multiplier + T{0.5}) :
                         (val * fraction_multiplier - T{0.5})
                 );
             }
@@ -177,7 +177,7 @@ public:
         else
         {
             m_value = static_cast<Type>(
-                rounding ? (val >= 0.0) ? (val * fraction_multiplier * T{0.5}) : (val * fraction_multiplier - T{0.5}) : (val * fraction_multiplier)
+                rounding ? (val >= 0.0) ? (val * fraction_multiplier + T{0.5}) : (val * fraction_multiplier - T{0.5}) : (val * fraction_multiplier)
             );
         }
     };
-- 
2.43.0


From 5486a7201d4f76af9c4f9b91a7e4fdfdfb6c5867 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:07:50 +0000
Subject: [PATCH 03/62] fix: rounding multiplication and division returned
 twice the result

---
 include/eirin/fixed.hpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/eirin/fixed.hpp b/include/eirin/fixed.hpp
index ff4b466..12104c9 100644
--- a/include/eirin/fixed.hpp
+++ b/include/eirin/fixed.hpp
@@ -337,7 +337,7 @@ public:
         if constexpr(rounding)
         {
             auto _value = (static_cast<IntermediateType>(m_value) * other.m_value) / (fraction_multiplier / 2);
-            return fixed_num(static_cast<Type>(_value + (_value % 2)), raw_value_construct_tag{});
+            return fixed_num(static_cast<Type>(_value / 2 + (_value % 2)), raw_value_construct_tag{});
         }
         else
         {
@@ -350,7 +350,7 @@ public:
         if constexpr(rounding)
         {
             auto _value = (static_cast<IntermediateType>(m_value) * other.m_value) / (fraction_multiplier / 2);
-            m_value = static_cast<Type>(_value + (_value % 2));
+            m_value = static_cast<Type>(_value / 2 + (_value % 2));
         }
         else
         {
@@ -371,7 +371,7 @@ public:
         if constexpr(rounding)
         {
             auto _value = ((static_cast<IntermediateType>(m_value) << fraction) * 2) / other.m_value;
-            return fixed_num(static_cast<Type>(_value + (_value % 2)), raw_value_construct_tag{});
+            return fixed_num(static_cast<Type>(_value / 2 + (_value % 2)), raw_value_construct_tag{});
         }
         else
         {
@@ -384,7 +384,7 @@ public:
         if constexpr(rounding)
         {
             auto _value = ((static_cast<IntermediateType>(m_value) << fraction) * 2) / other.m_value;
-            m_value = static_cast<Type>(_value + (_value % 2));
+            m_value = static_cast<Type>(_value / 2 + (_value % 2));
         }
         else
         {
@@ -617,7 +617,7 @@ public:
         if constexpr(rounding)
         {
             auto _value = ((static_cast<IntermediateType>(m_value) << fraction) * 2) / other.m_value;
-            return fixed_num(static_cast<Type>(_value + (_value % 2)), raw_value_construct_tag{});
+            return fixed_num(static_cast<Type>(_value / 2 + (_value % 2)), raw_value_construct_tag{});
         }
         else
         {
@@ -642,7 +642,7 @@ public:
         if constexpr(rounding)
         {
             auto _value = ((static_cast<IntermediateType>(m_value) << fraction) * 2) / other.m_value;
-            m_value = static_cast<Type>(_value + (_value % 2));
+            m_value = static_cast<Type>(_value / 2 + (_value % 2));
         }
         else
         {
-- 
2.43.0


From dbfd234398d32441effea218533a9b295690b266 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:08:52 +0000
Subject: [PATCH 04/62] fix: dividing a negative fixed number by an unsigned
 integer

---
 include/eirin/fixed.hpp | 23 ++++++++++++++++++++---
 1 file changed, 20 insertions(+), 3 deletions(-)

diff --git a/include/eirin/fixed.hpp b/include/eirin/fixed.hpp
index 12104c9..a173344 100644
--- a/include/eirin/fixed.hpp
+++ b/include/eirin/fixed.hpp
@@ -135,6 +135,23 @@ class fixed_num
     constexpr inline fixed_num(Type val, raw_value_construct_tag) noexcept
         : m_value(val) {};
 
+    // divide the internal value by an integer, an unsigned divisor must not turn a negative dividend into an unsigned value.
+    template <std::integral T>
+    static constexpr Type divide_internal(Type value, T divisor) noexcept
+    {
+        if constexpr(std::is_signed_v<Type> && std::is_unsigned_v<T>)
+        {
+            using U = std::common_type_t<std::make_unsigned_t<Type>, T>;
+            const U magnitude = value < 0 ? U(0) - static_cast<U>(value) : static_cast<U>(value);
+            const U quotient = magnitude / static_cast<U>(divisor);
+            return static_cast<Type>(value < 0 ? U(0) - quotient : quotient);
+        }
+        else
+        {
+            return static_cast<Type>(value / divisor);
+        }
+    }
+
 public:
     typedef Type value_type;
     typedef IntermediateType intermediate_type;
@@ -395,7 +412,7 @@ public:
 
     constexpr inline fixed_num& operator/=(const std::integral auto& val) noexcept
     {
-        m_value /= val;
+        m_value = divide_internal(m_value, val);
         return *this;
     }
 
@@ -606,7 +623,7 @@ public:
         if(val == 0) [[unlikely]]
             EIRIN_THROW_EXCEPTION(divide_by_zero);
 
-        return fixed_num(m_value / val, raw_value_construct_tag{});
+        return fixed_num(divide_internal(m_value, val), raw_value_construct_tag{});
     }
 
     EIRIN_ALWAYS_INLINE constexpr fixed_num divide(const fixed_num& other) const
@@ -630,7 +647,7 @@ public:
         if(val == 0) [[unlikely]]
             EIRIN_THROW_EXCEPTION(divide_by_zero);
 
-        m_value /= val;
+        m_value = divide_internal(m_value, val);
         return *this;
     }
 
-- 
2.43.0


From 8725412e259b404fe383530dfb799b10d3d0f2a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:08:52 +0000
Subject: [PATCH 05/62] fix: fixed % integral did not compile, for want of
 operator%=(integral)

---
 include/eirin/fixed.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/eirin/fixed.hpp b/include/eirin/fixed.hpp
index a173344..1b3e377 100644
--- a/include/eirin/fixed.hpp
+++ b/include/eirin/fixed.hpp
@@ -427,6 +427,12 @@ public:
         return *this;
     }
 
+    constexpr inline fixed_num& operator%=(const std::integral auto& val) noexcept
+    {
+        m_value = static_cast<Type>(m_value % (static_cast<IntermediateType>(val) << fraction));
+        return *this;
+    }
+
     constexpr inline fixed_num operator-() const noexcept
     {
         return fixed_num(-m_value, raw_value_construct_tag{});
-- 
2.43.0


From 1dda01b1c5902348cef6855dc2fc692724fe42e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:08:52 +0000
Subject: [PATCH 06/62] fix: integral_part was one too large for negative
 numbers with a fraction

---
 include/eirin/fixed.hpp | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/include/eirin/fixed.hpp b/include/eirin/fixed.hpp
index 1b3e377..6675f5d 100644
--- a/include/eirin/fixed.hpp
+++ b/include/eirin/fixed.hpp
@@ -281,15 +281,12 @@ public:
 
     EIRIN_ALWAYS_INLINE constexpr Type integral_part() const noexcept
     {
-        Type result = m_value;
+        IntermediateType result = m_value;
         if(signbit(*this))
-        {
-            result = ~result;
-            result += static_cast<Type>(1) << fraction;
-        }
+            result = -result;
         result >>= fraction; // Drop fractional part
 
-        return result;
+        return static_cast<Type>(result);
     }
 
     EIRIN_ALWAYS_INLINE constexpr Type fractional_part() const noexcept
-- 
2.43.0


From dea1e8058702027ee1ac85222d61271435343176 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:08:52 +0000
Subject: [PATCH 07/62] fix: converting to a fixed number with more fraction
 bits overflowed the source type

---
 include/eirin/fixed.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/eirin/fixed.hpp b/include/eirin/fixed.hpp
index 6675f5d..8500bc2 100644
--- a/include/eirin/fixed.hpp
+++ b/include/eirin/fixed.hpp
@@ -517,7 +517,8 @@ public:
     template <unsigned int _fraction, typename T, typename std::enable_if_t<(_fraction <= fraction), T*> = nullptr>
     EIRIN_ALWAYS_INLINE static constexpr fixed_num from_fixed_num_value(T inner_value) noexcept
     {
-        return fixed_num(static_cast<Type>(inner_value * (T(1) << (fraction - _fraction))), raw_value_construct_tag{});
+        using wide_type = std::common_type_t<T, IntermediateType>;
+        return fixed_num(static_cast<Type>(static_cast<wide_type>(inner_value) * (wide_type(1) << (fraction - _fraction))), raw_value_construct_tag{});
     }
 
     static constexpr fixed_num from_internal_value(Type internal_value) noexcept
-- 
2.43.0


From bacf3042076fa6b2ac40ef62ab2fc5c2e7df9df7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:08:52 +0000
Subject: [PATCH 08/62] fix: nearly compare of distant or unsigned numbers
 overflowed

---
 include/eirin/fixed.hpp | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/include/eirin/fixed.hpp b/include/eirin/fixed.hpp
index 8500bc2..9d1135b 100644
--- a/include/eirin/fixed.hpp
+++ b/include/eirin/fixed.hpp
@@ -472,26 +472,23 @@ public:
 
     constexpr inline bool nearly_eq(const fixed_num& other) const noexcept
     {
-        auto div = m_value - other.m_value;
-        return div >= -nearly_compare_epsilon().m_value && div <= nearly_compare_epsilon().m_value;
+        return !nearly_ne(other);
     }
 
     constexpr inline bool nearly_ne(const fixed_num& other) const noexcept
     {
-        auto div = m_value - other.m_value;
-        return div < -nearly_compare_epsilon().m_value || div > nearly_compare_epsilon().m_value;
+        return nearly_gt(other) || nearly_lt(other);
     }
 
     constexpr inline bool nearly_gt(const fixed_num& other) const noexcept
     {
-        auto div = m_value - other.m_value;
-        return div > nearly_compare_epsilon().m_value;
+        // the difference might not fit the store type.
+        return m_value > other.m_value && static_cast<IntermediateType>(m_value) - other.m_value > nearly_compare_epsilon().m_value;
     }
 
     constexpr inline bool nearly_lt(const fixed_num& other) const noexcept
     {
-        auto div = m_value - other.m_value;
-        return div < -nearly_compare_epsilon().m_value;
+        return other.nearly_gt(*this);
     }
 
     constexpr inline bool nearly_gt_eq(const fixed_num& other) const noexcept
-- 
2.43.0


From 08b08d35ca3d2f3dcf4b4a98fe8cbce943c5708c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:09:27 +0000
Subject: [PATCH 09/62] fix: printing unsigned numbers with the top bit set and
 numbers with a wide fraction

---
 include/eirin/fixed.hpp | 21 ++++++---------------
 1 file changed, 6 insertions(+), 15 deletions(-)

diff --git a/include/eirin/fixed.hpp b/include/eirin/fixed.hpp
index 9d1135b..3a3353e 100644
--- a/include/eirin/fixed.hpp
+++ b/include/eirin/fixed.hpp
@@ -542,30 +542,21 @@ public:
     )
     {
         const char* digits = uppercase ? "0123456789ABCDEF" : "0123456789abcdef";
-        Type divisor = static_cast<Type>(1) << fraction;
+        IntermediateType divisor = fraction_multiplier;
         auto put_char = [&out](const char c)
         {
             *out = c;
             ++out;
         };
 
-        auto value = val.m_value;
-        Type int_part;
-        if(value == val.signbit_mask())
+        // the magnitude of the minimum value, and the fraction multiplied by the base, might not fit the store type.
+        IntermediateType value = val.m_value;
+        if(signbit(val))
         {
             put_char('-');
-            int_part = ~(value >> fraction) + 1;
-            value = 0;
-        }
-        else
-        {
-            if(value < 0)
-            {
-                put_char('-');
-                value = -value;
-            }
-            int_part = value >> fraction;
+            value = -value;
         }
+        IntermediateType int_part = value >> fraction;
         value %= divisor;
         std::array<char, 514> buffer;
         auto iter = buffer.begin();
-- 
2.43.0


From 695133e76eb56889ac6c5663371cda828b8d166e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:09:27 +0000
Subject: [PATCH 10/62] fix: copy_as_chars_to stepped before the start of its
 buffer

---
 include/eirin/fixed.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/eirin/fixed.hpp b/include/eirin/fixed.hpp
index 3a3353e..8a51089 100644
--- a/include/eirin/fixed.hpp
+++ b/include/eirin/fixed.hpp
@@ -574,14 +574,14 @@ public:
                 int_part /= base;
                 if(iter == buffer.end())
                 {
-                    while(iter-- != buffer.begin())
-                        put_char(*iter);
+                    while(iter != buffer.begin())
+                        put_char(*--iter);
                     iter = buffer.begin();
                 }
             }
         }
-        while(iter-- != buffer.begin())
-            put_char(*iter);
+        while(iter != buffer.begin())
+            put_char(*--iter);
 
         if(value != 0)
         {
-- 
2.43.0


From ae1754804e0674f8a9cc4fb909cc64692cba37df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:10:17 +0000
Subject: [PATCH 11/62] fix: parsing numbers with many digits overflowed, and
 could divide by zero

---
 include/eirin/fixed.hpp | 25 ++++++++++++++++++++-----
 1 file changed, 20 insertions(+), 5 deletions(-)

diff --git a/include/eirin/fixed.hpp b/include/eirin/fixed.hpp
index 8a51089..a6c7653 100644
--- a/include/eirin/fixed.hpp
+++ b/include/eirin/fixed.hpp
@@ -719,6 +719,8 @@ namespace detail
             if(!check_ch(str[pos]))
                 return false;
             int_part = int_part * 10 + (next() - '0');
+            if(int_part > static_cast<I>(std::numeric_limits<T>::max()))
+                return false;
         }
 
         I fixed_value;
@@ -727,14 +729,17 @@ namespace detail
         {
             ++pos;
             constexpr auto max_fraction = ((std::int64_t)1 << fixed::precision) - 1;
+            constexpr I max_divisor = I(1) << (sizeof(I) * 8 - 5);
             I divisor = I(1);
             while(pos < len)
             {
                 if(!check_ch(str[pos]))
                     return false;
-                if(dec_part > max_fraction / 10)
+                // the digits left are beyond the precision, or would overflow the divisor.
+                if(dec_part > max_fraction / 10 || divisor > max_divisor)
                 {
-                    break;
+                    ++pos;
+                    continue;
                 }
                 auto digit = next() - '0';
                 dec_part = dec_part * 10 + digit;
@@ -927,6 +932,10 @@ inline bool f32_from_cstring(const char* str, size_t len, fixed32& fp) noexcept
             return false;
         }
         int_part = int_part * 10 + (next() - '0');
+        if(int_part > std::numeric_limits<int32_t>::max())
+        {
+            return false;
+        }
     }
     int64_t fixed_value;
     // parse the decimal part.
@@ -934,6 +943,7 @@ inline bool f32_from_cstring(const char* str, size_t len, fixed32& fp) noexcept
     {
         ++pos;
         constexpr auto max_fraction = (1 << fixed32::precision) - 1;
+        constexpr int64_t max_divisor = int64_t(1) << 59;
         int64_t divisor = 1;
         while(has_next())
         {
@@ -941,9 +951,11 @@ inline bool f32_from_cstring(const char* str, size_t len, fixed32& fp) noexcept
             {
                 return false;
             }
-            if(dec_part > max_fraction / 10)
+            // the digits left are beyond the precision, or would overflow the divisor.
+            if(dec_part > max_fraction / 10 || divisor > max_divisor)
             {
-                break;
+                next();
+                continue;
             }
             auto digit = next() - '0';
             dec_part = dec_part * 10 + digit;
@@ -1005,6 +1017,8 @@ constexpr bool fixed_from_cstring(const char* str, size_t len, fixed_num<T, I, f
         if(!check_ch(peek()))
             break;
         int_part = int_part * 10 + (next() - '0');
+        if(int_part > static_cast<I>(std::numeric_limits<T>::max()))
+            return false;
     }
     I fixed_value = I(0);
     // parse the decimal part.
@@ -1012,10 +1026,11 @@ constexpr bool fixed_from_cstring(const char* str, size_t len, fixed_num<T, I, f
     {
         next();
         constexpr auto max_fraction = (T(1) << f) - T(1);
+        constexpr I max_divisor = I(1) << (sizeof(I) * 8 - 5);
         I divisor = I(1);
         while(has_next())
         {
-            if(dec_part > max_fraction / 10 || !check_ch(peek()))
+            if(dec_part > max_fraction / 10 || divisor > max_divisor || !check_ch(peek()))
                 break;
             auto digit = next() - '0';
             dec_part = dec_part * 10 + digit;
-- 
2.43.0


From 37123fe5eeb2cd03375aed0a0bd2b3068126b96e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:10:17 +0000
Subject: [PATCH 12/62] fix: parsing the minimum value, and negative numbers
 for unsigned types

---
 include/eirin/fixed.hpp | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/include/eirin/fixed.hpp b/include/eirin/fixed.hpp
index a6c7653..5ab1143 100644
--- a/include/eirin/fixed.hpp
+++ b/include/eirin/fixed.hpp
@@ -752,6 +752,9 @@ namespace detail
             fixed_value = int_part << fixed::precision;
         }
 
+        if(negative)
+            fixed_value = -fixed_value;
+
         // check overflow
         if(fixed_value > static_cast<I>(std::numeric_limits<T>::max()) || fixed_value < static_cast<I>(std::numeric_limits<T>::min()))
         {
@@ -759,8 +762,6 @@ namespace detail
         }
 
         fp = fixed::from_internal_value(static_cast<T>(fixed_value));
-        if(negative)
-            fp = -fp;
         return true;
     }
 } // namespace detail
@@ -968,6 +969,9 @@ inline bool f32_from_cstring(const char* str, size_t len, fixed32& fp) noexcept
         fixed_value = int_part << fixed32::precision;
     }
 
+    if(negative)
+        fixed_value = -fixed_value;
+
     // check overflow
     if(fixed_value > static_cast<int64_t>(std::numeric_limits<int32_t>::max()) || fixed_value < static_cast<int64_t>(std::numeric_limits<int32_t>::min()))
     {
@@ -975,8 +979,6 @@ inline bool f32_from_cstring(const char* str, size_t len, fixed32& fp) noexcept
     }
 
     fp = fixed32::from_internal_value(static_cast<int32_t>(fixed_value));
-    if(negative)
-        fp = -fp;
     return true;
 }
 
@@ -1043,6 +1045,9 @@ constexpr bool fixed_from_cstring(const char* str, size_t len, fixed_num<T, I, f
         fixed_value = (int_part << f);
     }
 
+    if(negative)
+        fixed_value = -fixed_value;
+
     // check overflow
     if(fixed_value > static_cast<I>(std::numeric_limits<T>::max()) || fixed_value < static_cast<I>(std::numeric_limits<T>::min()))
     {
@@ -1050,8 +1055,6 @@ constexpr bool fixed_from_cstring(const char* str, size_t len, fixed_num<T, I, f
     }
 
     fp = fixed::from_internal_value(static_cast<T>(fixed_value));
-    if(negative)
-        fp = -fp;
     return true;
 }
 
-- 
2.43.0


From 4a1d73c1c4224e49432fa697ea59b46dfb9c4f93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:10:17 +0000
Subject: [PATCH 13/62] fix: malformed literals returned an uninitialized
 number

---
 include/eirin/fixed.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/eirin/fixed.hpp b/include/eirin/fixed.hpp
index 5ab1143..bca9c12 100644
--- a/include/eirin/fixed.hpp
+++ b/include/eirin/fixed.hpp
@@ -801,7 +801,7 @@ inline namespace literals
 
     constexpr inline fixed32 operator""_f32(const char* str, size_t len)
     {
-        fixed32 fp;
+        fixed32 fp(0);
         detail::parse(str, len, fp);
         return fp;
     }
@@ -811,7 +811,7 @@ inline namespace literals
     {
         auto len = sizeof...(chars);
         const char str[] = {chars...};
-        fixed32 fp;
+        fixed32 fp(0);
         detail::parse(str, len, fp);
         return fp;
     }
@@ -819,7 +819,7 @@ inline namespace literals
 #ifdef EIRIN_MATH_HAS_INT128
     constexpr inline fixed64 operator""_f64(const char* str, size_t len)
     {
-        fixed64 fp;
+        fixed64 fp(0);
         detail::parse(str, len, fp);
         return fp;
     }
@@ -829,7 +829,7 @@ inline namespace literals
     {
         auto len = sizeof...(chars);
         const char str[] = {chars...};
-        fixed64 fp;
+        fixed64 fp(0);
         detail::parse(str, len, fp);
         return fp;
     }
-- 
2.43.0


From 94b529cda1702b0f93f4efab339ec3da5db87485 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:11:08 +0000
Subject: [PATCH 14/62] fix: stream input overflowed the store type, kept
 whitespaces and left digits unread

---
 include/eirin/fixed.hpp | 66 +++++++++++++++++++++++++----------------
 1 file changed, 40 insertions(+), 26 deletions(-)

diff --git a/include/eirin/fixed.hpp b/include/eirin/fixed.hpp
index bca9c12..5afda32 100644
--- a/include/eirin/fixed.hpp
+++ b/include/eirin/fixed.hpp
@@ -1059,63 +1059,77 @@ constexpr bool fixed_from_cstring(const char* str, size_t len, fixed_num<T, I, f
 }
 
 template <typename CharT, class Traits, typename T, typename I, unsigned int f, bool r>
-std::basic_istream<CharT, Traits>& operator>>(std::basic_istream<CharT, Traits>& is, fixed_num<T, I, f, r>& fp) noexcept
+std::basic_istream<CharT, Traits>& operator>>(std::basic_istream<CharT, Traits>& is, fixed_num<T, I, f, r>& fp)
 {
     using fixed = fixed_num<T, I, f, r>;
-    bool negative = false;
+    // skips the leading whitespaces like other formatted input functions.
+    typename std::basic_istream<CharT, Traits>::sentry sentry(is);
+    if(!sentry)
+        return is;
+
+    bool negative = false, has_digit = false, overflow = false;
     auto peek = [&]() -> CharT
     {
-        return is.peek();
+        return Traits::to_char_type(is.peek());
     };
     auto next = [&]() -> CharT
     {
-        return is.get();
+        return Traits::to_char_type(is.get());
     };
     auto has_next = [&]() -> bool
     {
-        auto ch = is.peek();
-        return !is.eof();
+        return !Traits::eq_int_type(is.peek(), Traits::eof());
     };
-    if(!has_next())
+    auto check_ch = [](CharT ch) -> bool
     {
-        return is;
-    }
-    else if(peek() == '-')
+        return CharT('0') <= ch && ch <= CharT('9');
+    };
+    if(has_next() && peek() == CharT('-'))
     {
         negative = true;
         next();
     }
 
-    T int_part = T(0), dec_part = T(0);
+    I int_part = I(0), dec_part = I(0), divisor = I(1);
     // parse the integer part.
-    while(has_next() && peek() != '.')
+    while(has_next() && check_ch(peek()))
     {
-        if(!isdigit(peek()))
-            break;
-        int_part = int_part * 10 + (next() - '0');
+        auto digit = static_cast<int>(next() - CharT('0'));
+        has_digit = true;
+        if(!overflow)
+            int_part = int_part * 10 + digit;
+        overflow = int_part > static_cast<I>(std::numeric_limits<T>::max());
     }
     // parse the decimal part.
-    if(has_next() && peek() == '.')
+    if(has_next() && peek() == CharT('.'))
     {
         next();
         constexpr auto max_fraction = (T(1) << f) - T(1);
-        T scale = T(1), divisor = T(1);
-        while(has_next())
+        constexpr I max_divisor = I(1) << (sizeof(I) * 8 - 5);
+        while(has_next() && check_ch(peek()))
         {
-            if(dec_part > max_fraction / 10 || !isdigit(peek()))
-                break;
-            auto digit = next() - '0';
+            auto digit = static_cast<int>(next() - CharT('0'));
+            has_digit = true;
+            // the digits beyond the precision are still part of the number.
+            if(dec_part > max_fraction / 10 || divisor > max_divisor)
+                continue;
             dec_part = dec_part * 10 + digit;
             divisor *= 10;
         }
-        fp = fixed::from_internal_value((int_part << f) + (dec_part << f) / divisor);
     }
-    else
+
+    I fixed_value = I(0);
+    if(!overflow)
     {
-        fp = fixed::from_internal_value(int_part << f);
+        fixed_value = (int_part << f) + (dec_part << f) / divisor;
+        if(negative)
+            fixed_value = -fixed_value;
+        overflow = fixed_value > static_cast<I>(std::numeric_limits<T>::max()) || fixed_value < static_cast<I>(std::numeric_limits<T>::min());
     }
-    if(negative)
-        fp = -fp;
+    if(has_digit && !overflow)
+        fp = fixed::from_internal_value(static_cast<T>(fixed_value));
+    else
+        is.setstate(std::ios_base::failbit);
     return is;
 }
 
-- 
2.43.0


From dbc1281944abf66b1880de9ecb44421819b6c7ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:12:11 +0000
Subject: [PATCH 15/62] fix: io::parse read past the end of string views and
 overflowed int32

---
 include/eirin/io/parse.hpp | 71 +++++++++++++++++++++++++++-----------
 1 file changed, 50 insertions(+), 21 deletions(-)

diff --git a/include/eirin/io/parse.hpp b/include/eirin/io/parse.hpp
index 78eca81..27e4cf9 100644
--- a/include/eirin/io/parse.hpp
+++ b/include/eirin/io/parse.hpp
@@ -6,17 +6,10 @@
 #include <string_view>
 #include "../fixed.hpp"
 
-namespace eirin::io
+namespace eirin::io::detail
 {
-/**
- * @brief Parse fixed point number from string
- *
- * @param start the beginning pos of the pointer.
- * @param stop the end pos of the pointer.
- * @param out tge output fixed point number
- * @return the pos of the pointer.
- */
-inline const char* parse(const char* start, const char* stop, fixed32& out)
+template <typename AtEnd>
+inline const char* parse(const char* start, AtEnd at_end, fixed32& out)
 {
     size_t pos = 0;
     bool negative = false;
@@ -31,7 +24,7 @@ inline const char* parse(const char* start, const char* stop, fixed32& out)
     };
     auto has_next = [&]() -> bool
     {
-        return *start != *stop;
+        return !at_end(start);
     };
 
     if(has_next() && peek() == '-')
@@ -45,7 +38,7 @@ inline const char* parse(const char* start, const char* stop, fixed32& out)
         return '0' <= ch && ch <= '9';
     };
 
-    int32_t int_part = 0, dec_part = 0;
+    int64_t int_part = 0, dec_part = 0, fixed_value = 0;
     // parse the integer part.
     while(has_next() && peek() != '.')
     {
@@ -54,43 +47,79 @@ inline const char* parse(const char* start, const char* stop, fixed32& out)
             return start -= pos;
         }
         int_part = int_part * 10 + (next() - '0');
+        if(int_part > std::numeric_limits<int32_t>::max())
+        {
+            return start -= pos;
+        }
     }
     // parse the decimal part.
     if(has_next() && peek() == '.')
     {
         next();
         constexpr auto max_fraction = (1 << fixed32::precision) - 1;
-        int32_t divisor = 1;
+        constexpr int64_t max_divisor = int64_t(1) << 59;
+        int64_t divisor = 1;
         while(has_next())
         {
             if(!is_digit(peek()))
             {
                 return start -= pos;
             }
-            if(dec_part > max_fraction / 10)
+            // the digits left are beyond the precision, or would overflow the divisor.
+            if(dec_part > max_fraction / 10 || divisor > max_divisor)
             {
-                break;
+                next();
+                continue;
             }
             auto digit = next() - '0';
             dec_part = dec_part * 10 + digit;
             divisor *= 10;
         }
-        out = fixed32::from_internal_value((int_part << fixed32::precision) + (dec_part << fixed32::precision) / divisor);
+        fixed_value = (int_part << fixed32::precision) + (dec_part << fixed32::precision) / divisor;
     }
     else
     {
-        out = fixed32::from_internal_value(int_part << fixed32::precision);
+        fixed_value = int_part << fixed32::precision;
     }
     if(negative)
-        out = -out;
+        fixed_value = -fixed_value;
+
+    // check overflow
+    if(fixed_value > std::numeric_limits<int32_t>::max() || fixed_value < std::numeric_limits<int32_t>::min())
+    {
+        return start -= pos;
+    }
+
+    out = fixed32::from_internal_value(static_cast<int32_t>(fixed_value));
     return start;
 }
+} // namespace eirin::io::detail
+
+namespace eirin::io
+{
+/**
+ * @brief Parse fixed point number from string
+ *
+ * @param start the beginning pos of the pointer.
+ * @param stop the end pos of the pointer.
+ * @param out tge output fixed point number
+ * @return the pos of the pointer.
+ */
+inline const char* parse(const char* start, const char* stop, fixed32& out)
+{
+    return detail::parse(
+        start,
+        [stop](const char* pos) { return *pos == *stop; },
+        out
+    );
+}
 
 inline const char* parse(std::string_view str, fixed32& out)
 {
-    return parse(
-        std::to_address(str.begin()),
-        std::to_address(str.end()),
+    // the end of a string view must not be read.
+    return detail::parse(
+        str.data(),
+        [stop = str.data() + str.size()](const char* pos) { return pos == stop; },
         out
     );
 }
-- 
2.43.0


From 2f04115604ece843df5e3ce8f7547746266cad63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:14:08 +0000
Subject: [PATCH 16/62] fix: ceil of negative numbers, and its overflow check

---
 include/eirin/math.hpp | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/include/eirin/math.hpp b/include/eirin/math.hpp
index ec12281..139498b 100644
--- a/include/eirin/math.hpp
+++ b/include/eirin/math.hpp
@@ -32,14 +32,12 @@ template <typename T, typename I, unsigned int f, bool r>
 EIRIN_ALWAYS_INLINE constexpr fixed_num<T, I, f, r> ceil(fixed_num<T, I, f, r> fp) noexcept
 {
     using fixed = fixed_num<T, I, f, r>;
-    constexpr auto frac_mult = T(1) << f;
-    auto value = fp.internal_value();
-    if(value > 0)
-        value += frac_mult - 1;
+    constexpr auto frac_mult = I(1) << f;
+    I value = ((static_cast<I>(fp.internal_value()) + (frac_mult - 1)) >> f) << f;
     // overflow check.
-    if(value < 0)
-        return fixed::from_internal_value(fp.internal_value() / frac_mult * frac_mult + frac_mult - 1);
-    return fixed::from_internal_value(value / frac_mult * frac_mult);
+    if(value > static_cast<I>(std::numeric_limits<T>::max()))
+        return fixed::from_internal_value(std::numeric_limits<T>::max());
+    return fixed::from_internal_value(static_cast<T>(value));
 }
 
 template <typename T, typename I, unsigned int f, bool r>
-- 
2.43.0


From 9bb108520d039a93c97f8f3c2ab2841876707e95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:14:08 +0000
Subject: [PATCH 17/62] fix: floor of numbers near the minimum value overflowed

---
 include/eirin/math.hpp | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/include/eirin/math.hpp b/include/eirin/math.hpp
index 139498b..c013fd1 100644
--- a/include/eirin/math.hpp
+++ b/include/eirin/math.hpp
@@ -44,15 +44,11 @@ template <typename T, typename I, unsigned int f, bool r>
 EIRIN_ALWAYS_INLINE constexpr fixed_num<T, I, f, r> floor(fixed_num<T, I, f, r> fp) noexcept
 {
     using fixed = fixed_num<T, I, f, r>;
-    constexpr auto frac_mult = T(1) << f;
-    auto value = fp.internal_value();
-    auto neg = value < 0;
+    constexpr auto frac_mult = I(1) << f;
+    I value = fp.internal_value();
     if(value < 0)
         value -= frac_mult - 1;
-    // underflow check.
-    if(neg && value > 0)
-        return fixed::from_internal_value(fp.internal_value() / frac_mult * frac_mult - frac_mult + 1);
-    return fixed::from_internal_value(value / frac_mult * frac_mult);
+    return fixed::from_internal_value(static_cast<T>(value / frac_mult * frac_mult));
 }
 
 template <typename T, typename I, unsigned int f, bool r>
-- 
2.43.0


From 739e597c14258d44a36635e3118a2838dc11d987 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:14:38 +0000
Subject: [PATCH 18/62] fix: sqrt of negative fixed32, and of int32 formats
 without 16 bits fraction

---
 include/eirin/math.hpp | 19 +++++--------------
 1 file changed, 5 insertions(+), 14 deletions(-)

diff --git a/include/eirin/math.hpp b/include/eirin/math.hpp
index c013fd1..26d73fb 100644
--- a/include/eirin/math.hpp
+++ b/include/eirin/math.hpp
@@ -98,19 +98,12 @@ EIRIN_ALWAYS_INLINE constexpr fixed_num<T, I, f, r> sqrt(fixed_num<T, I, f, r> f
     using fixed = fixed_num<T, I, f, r>;
     // test if T is int32_t, if so, we can use the fast sqrt algorithm.
     // if not, using newton method.
-    if constexpr(std::is_same_v<T, int32_t>)
+    if(fp < fixed(0))
+        return fixed(-1);
+    // the fast algorithm only scales the result for 16 bits fraction.
+    if constexpr(std::is_same_v<T, int32_t> && f == 16)
     {
-        uint64_t t, q = 0, b = 0x40000000UL, v;
-        if constexpr(f > 16)
-        {
-            constexpr auto move = f - 16;
-            v = fp.internal_value() >> move;
-        }
-        else
-        {
-            constexpr auto move = 16 - f;
-            v = fp.internal_value() << move;
-        }
+        uint64_t t, q = 0, b = 0x40000000UL, v = fp.internal_value();
 
         // fix number sqrt using bit hack.
         if(v < 0x40000200)
@@ -161,8 +154,6 @@ EIRIN_ALWAYS_INLINE constexpr fixed_num<T, I, f, r> sqrt(fixed_num<T, I, f, r> f
     }
     else
     {
-        if(fp < fixed(0))
-            return fixed(-1);
         if(fp == fixed(0))
             return fixed(0);
         const T val = fp.internal_value();
-- 
2.43.0


From 51dcfc6e09c36663a40587e0f42782804b0b60b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:15:59 +0000
Subject: [PATCH 19/62] fix: the convergence check of sqrt overflowed for large
 numbers

---
 include/eirin/math.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/eirin/math.hpp b/include/eirin/math.hpp
index 26d73fb..99caea2 100644
--- a/include/eirin/math.hpp
+++ b/include/eirin/math.hpp
@@ -166,7 +166,9 @@ EIRIN_ALWAYS_INLINE constexpr fixed_num<T, I, f, r> sqrt(fixed_num<T, I, f, r> f
         for(int i = 0; i < 5; ++i)
         {
             x = (x + fp / x) / 2;
-            if(abs(fp - x * x) < eps)
+            // the square of x might not fit the store type.
+            const I diff = static_cast<I>(val) - ((static_cast<I>(x.internal_value()) * x.internal_value()) >> f);
+            if((diff < 0 ? -diff : diff) < eps.internal_value())
                 break;
         }
         return x;
-- 
2.43.0


From 30a310e156be4b5b06669cae871005fab519a6b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:15:59 +0000
Subject: [PATCH 20/62] fix: sin flipped the sign of small negative angles

---
 include/eirin/math.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/eirin/math.hpp b/include/eirin/math.hpp
index 99caea2..d918b53 100644
--- a/include/eirin/math.hpp
+++ b/include/eirin/math.hpp
@@ -210,7 +210,7 @@ EIRIN_ALWAYS_INLINE constexpr fixed_num<T, I, f, r> sin(fixed_num<T, I, f, r> fp
     // sin(0.00015) = 0.000149999999437, so we use 0.0001 as the threshold.
     // TODO: replace it with fixed::template from_fixed_num_value<61>(0x13A92A0000000)
     if(abs(fp) < fixed(0.00015))
-        return negative ? -fp : fp;
+        return fp;
 
     // reduce the range to [0, 1] due to sin is
     // symmetrical around PI / 2 in the domain [0, PI].
-- 
2.43.0


From fbb092b3c48b85910536067b1df38cb044b4fe95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:15:59 +0000
Subject: [PATCH 21/62] fix: atan diverged for numbers out of [-1, 1]

---
 include/eirin/math.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/eirin/math.hpp b/include/eirin/math.hpp
index d918b53..c09f2cd 100644
--- a/include/eirin/math.hpp
+++ b/include/eirin/math.hpp
@@ -281,8 +281,14 @@ EIRIN_ALWAYS_INLINE constexpr fixed_num<T, I, f, r> atan(fixed_num<T, I, f, r> f
     // TODO: because fixed point cannot represent infinity, so we need to handle the case when fp is very large.
     auto abs_fp = abs(fp);
     auto x = abs_fp;
+    // the fitting is only valid in [0, 1], so use atan(x) = pi / 2 - atan(1 / x) for the others.
+    const bool inverse = abs_fp > fixed(1);
+    if(inverse)
+        x = fixed(1) / abs_fp;
     auto x2 = x * x;
     fixed result = ((a * x2 + b) * x2 - c) * x2 * x + x;
+    if(inverse)
+        result = pi / fixed(2) - result;
     // if the input is negative, return negative result.
     if(fp.signbit_mask() & fp.internal_value())
         result = -result;
-- 
2.43.0


From 42780615c3c40617d78f56554f54915247c47ba8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:15:59 +0000
Subject: [PATCH 22/62] fix: log2 of numbers with more than 32 bits fraction
 shifted a 32 bits value

---
 include/eirin/math.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/eirin/math.hpp b/include/eirin/math.hpp
index c09f2cd..626a98e 100644
--- a/include/eirin/math.hpp
+++ b/include/eirin/math.hpp
@@ -409,7 +409,7 @@ EIRIN_ALWAYS_INLINE constexpr fixed_num<T, I, f, r> log2(fixed_num<T, I, f, r> f
     // The assembly code of '-O3' optimization is to expand the for loop code into tons of code segments,
     // which makes the performance of the code much slower than '-O2' optimization.
     // I prefer this situation is abnormal, but I don't know why.
-    T b = 1u << (f - 1), y = 0, x = fp.internal_value();
+    T b = static_cast<T>(1) << (f - 1), y = 0, x = fp.internal_value();
     if(fp <= fixed(0))
         EIRIN_THROW_EXCEPTION(std::domain_error, "log2() domain error");
 
-- 
2.43.0


From f2c1a8d71c0815f532be7454abd2932a28190f49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:18:50 +0000
Subject: [PATCH 23/62] fix: cbrt divided by zero or overflowed for numbers far
 from one

---
 include/eirin/math.hpp | 22 ++++++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/include/eirin/math.hpp b/include/eirin/math.hpp
index 626a98e..72713fa 100644
--- a/include/eirin/math.hpp
+++ b/include/eirin/math.hpp
@@ -358,15 +358,29 @@ template <typename T, typename I, unsigned int f, bool r, int iter_max = 200>
 EIRIN_ALWAYS_INLINE constexpr fixed_num<T, I, f, r> cbrt(fixed_num<T, I, f, r> fp) noexcept
 {
     using fixed = fixed_num<T, I, f, r>;
-    if(abs(fp) < fixed::epsilon())
+    if(fp == fixed(0) || abs(fp) < fixed::epsilon())
         return fixed(0);
-    auto x = (fixed(fp) + 2) / 3;
+    // start from the power of two near the root, a start far from it overflows or passes through zero.
+    const int exponent = detail::find_msb(fp.internal_value()) - static_cast<int>(f);
+    auto x = fixed::from_internal_value(static_cast<T>(1) << ((exponent < 0 ? exponent - 2 : exponent) / 3 + static_cast<int>(f)));
+    if(fp < fixed(0))
+        x = -x;
     auto iter_count = 0;
     constexpr auto precision = fixed::nearly_compare_epsilon() * 2;
+    // the cube of x might not fit the store type.
+    auto cube_error = [&]() -> I
+    {
+        const I x_value = x.internal_value();
+        const I error = static_cast<I>(fp.internal_value()) - ((((x_value * x_value) >> f) * x_value) >> f);
+        return error < 0 ? -error : error;
+    };
 
-    while(abs(fp - (x * x * x)) >= precision && iter_count <= iter_max)
+    while(cube_error() >= precision.internal_value() && iter_count <= iter_max)
     {
-        x = (fp / (x * x) + x * 2) / 3;
+        const auto x2 = x * x;
+        if(x2 == fixed(0))
+            break;
+        x = (fp / x2 + x * 2) / 3;
         ++iter_count;
     }
     return x;
-- 
2.43.0


From eea7b613ca40514401138aa38daaa77a994a4884 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:19:29 +0000
Subject: [PATCH 24/62] fix: the second coefficient of exp was halved

---
 include/eirin/math.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/eirin/math.hpp b/include/eirin/math.hpp
index 72713fa..459ddd9 100644
--- a/include/eirin/math.hpp
+++ b/include/eirin/math.hpp
@@ -533,7 +533,8 @@ namespace detail
         constexpr auto b = fixed::template from_fixed_num_value<63>(0x04745859810836DAll); // 3.4800571158543038e-2
         constexpr auto c = fixed::template from_fixed_num_value<63>(0x15CFBB5C306F85F3ll); // 1.7040197373796334e-1
         constexpr auto d = fixed::template from_fixed_num_value<63>(0x3FE26186C531F98Ell); // 4.9909609871464493e-1
-        constexpr auto e = fixed::template from_fixed_num_value<63>(0x40014D4407008BB0ll); // 1.0000794567422495
+        // greater than one, so it only has room for 62 bits fraction.
+        constexpr auto e = fixed::template from_fixed_num_value<62>(0x40014D4407008BB0ll); // 1.0000794567422495
         constexpr auto _f = fixed::template from_fixed_num_value<63>(0x7FFFF686446F1B43ll); // 9.9999887043019773e-1
         return pow(numbers::e_v<fixed>(), x_int) * (_f + fp * (e + fp * (d + fp * (c + fp * (b + fp * a)))));
     }
-- 
2.43.0


From 2e9d6bd9441dfc24e84c0100b64622f3724b2276 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:20:03 +0000
Subject: [PATCH 25/62] fix: negative integer powers divided by an overflowed
 or underflowed power

---
 include/eirin/math.hpp | 25 ++++++++++++++++---------
 1 file changed, 16 insertions(+), 9 deletions(-)

diff --git a/include/eirin/math.hpp b/include/eirin/math.hpp
index 459ddd9..f9c994e 100644
--- a/include/eirin/math.hpp
+++ b/include/eirin/math.hpp
@@ -500,21 +500,28 @@ EIRIN_ALWAYS_INLINE constexpr fixed_num<T, I, f, r> pow(fixed_num<T, I, f, r> b,
     }
 
     auto res = fixed(1);
-    if(e < 0)
+    bool inverse = e < 0;
+    // the powers of a base less than one might underflow to zero, so multiply by the inverse of it.
+    if(inverse && abs(b) < fixed(1))
     {
-        for(auto i = b; e != 0; e /= 2, i *= i)
-        {
-            if(e % 2 != 0)
-                res /= i;
-        }
+        b = fixed(1) / b;
+        inverse = false;
     }
-    else
+    for(auto i = b; e != 0; e /= 2, i *= i)
     {
-        for(auto i = b; e != 0; e /= 2, i *= i)
+        if(e % 2 != 0)
         {
-            if(e % 2 != 0)
+            if(inverse)
+                res /= i;
+            else
                 res *= i;
         }
+        // the powers of a base greater than one might overflow to zero.
+        if(inverse && ((static_cast<I>(i.internal_value()) * i.internal_value()) >> f) > static_cast<I>(std::numeric_limits<T>::max()))
+        {
+            i = fixed(1) / i;
+            inverse = false;
+        }
     }
     return res;
 }
-- 
2.43.0


From cb3ba93b0306e1aae7d7e0026ba1a46d2b95b820 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:20:04 +0000
Subject: [PATCH 26/62] fix: exp of large negative numbers overflowed or
 divided by zero

---
 include/eirin/math.hpp | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/include/eirin/math.hpp b/include/eirin/math.hpp
index f9c994e..90959df 100644
--- a/include/eirin/math.hpp
+++ b/include/eirin/math.hpp
@@ -555,7 +555,17 @@ EIRIN_ALWAYS_INLINE constexpr fixed_num<T, I, f, r> exp(fixed_num<T, I, f, r> fp
     if(fp == fixed(0))
         return fixed(1);
     if(fp < fixed(0))
-        return fixed(1) / detail::exp_expand(-fp);
+    {
+        // exp(-fp) might overflow, so halve the input until it fits, and square the result instead.
+        constexpr auto limit = numbers::ln2_v<fixed>() * (sizeof(T) * 8 - 2 - f);
+        int squares = 0;
+        for(; fp < -limit && fp != fixed(0); ++squares)
+            fp /= 2;
+        auto res = fixed(1) / detail::exp_expand(-fp);
+        for(; squares > 0; --squares)
+            res *= res;
+        return res;
+    }
     return detail::exp_expand(fp);
 }
 
-- 
2.43.0


From 94094ead9a22162ef332b93a5a4f802af5e175a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:20:04 +0000
Subject: [PATCH 27/62] fix: pow of negative bases terminated the program

---
 include/eirin/math.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/eirin/math.hpp b/include/eirin/math.hpp
index 90959df..21d77d4 100644
--- a/include/eirin/math.hpp
+++ b/include/eirin/math.hpp
@@ -572,7 +572,7 @@ EIRIN_ALWAYS_INLINE constexpr fixed_num<T, I, f, r> exp(fixed_num<T, I, f, r> fp
 // TODO: This function has performance issue on MSVC,
 // which is about 5x slower than the result of clang-cl.
 template <typename T, typename I, unsigned int f, bool r>
-EIRIN_ALWAYS_INLINE constexpr fixed_num<T, I, f, r> pow(fixed_num<T, I, f, r> b, fixed_num<T, I, f, r> e) noexcept
+EIRIN_ALWAYS_INLINE constexpr fixed_num<T, I, f, r> pow(fixed_num<T, I, f, r> b, fixed_num<T, I, f, r> e)
 {
     using fixed = fixed_num<T, I, f, r>;
     if(b == fixed(0))
@@ -585,6 +585,8 @@ EIRIN_ALWAYS_INLINE constexpr fixed_num<T, I, f, r> pow(fixed_num<T, I, f, r> b,
     // the integer part of the input exponent.
     const T e_int = static_cast<T>(e.internal_value() / (I(1) << f));
     e -= e_int;
+    if(e == fixed(0))
+        return pow(b, e_int);
 
     return pow(b, e_int) * exp(e * log(b));
 }
-- 
2.43.0


From c926b35669d609637013a3a398edff4ca21ccae3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:23:49 +0000
Subject: [PATCH 28/62] fix: format strings with '<', '>' or '^' after an empty
 replacement field

---
 include/eirin/io/format.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/eirin/io/format.hpp b/include/eirin/io/format.hpp
index 1448dff..4bcbfdb 100644
--- a/include/eirin/io/format.hpp
+++ b/include/eirin/io/format.hpp
@@ -407,7 +407,8 @@ public:
         {
             auto nxt = it;
             ++nxt;
-            if(nxt != end && (*nxt == '<' || *nxt == '>' || *nxt == '^'))
+            // an empty format spec ends with '}', which is not a fill character.
+            if(*it != '}' && nxt != end && (*nxt == '<' || *nxt == '>' || *nxt == '^'))
             {
                 st.fill_ch = *it;
                 st.align_mode = *nxt;
-- 
2.43.0


From c50d21c573e5f0ae451dda3b2319e7c3356f2364 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:23:49 +0000
Subject: [PATCH 29/62] fix: formatting with zero precision kept the decimal
 point

---
 include/eirin/io/format.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/eirin/io/format.hpp b/include/eirin/io/format.hpp
index 4bcbfdb..5aa1694 100644
--- a/include/eirin/io/format.hpp
+++ b/include/eirin/io/format.hpp
@@ -140,7 +140,7 @@ public:
             bool has_frac = (frac_val != 0);
             int used_prec = 0;
 
-            if(has_frac)
+            if(has_frac && m_state.precision != 0)
             {
                 body.push_back(static_cast<CharT>('.'));
 
-- 
2.43.0


From e80157cf4b14ded87e950e500852e15adc8b3e47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:23:49 +0000
Subject: [PATCH 30/62] fix: formatting numbers with a wide fraction overflowed
 the store type

---
 include/eirin/io/format.hpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/include/eirin/io/format.hpp b/include/eirin/io/format.hpp
index 5aa1694..822bd81 100644
--- a/include/eirin/io/format.hpp
+++ b/include/eirin/io/format.hpp
@@ -150,14 +150,15 @@ public:
 
                 int eff_prec = (m_state.precision < 0) ? 6 : m_state.precision;
 
-                T frac_bits = frac_val;
+                // ten times the fraction might not fit the store type.
+                I frac_bits = frac_val;
                 for(unsigned int i = 0; i < F && used_prec < eff_prec; ++i)
                 {
                     if(frac_bits == 0) break;
 
-                    T shifted = frac_bits * static_cast<T>(10);
-                    T digit = shifted >> F;
-                    frac_bits = shifted & ((static_cast<T>(1) << F) - static_cast<T>(1));
+                    I shifted = frac_bits * static_cast<I>(10);
+                    I digit = shifted >> F;
+                    frac_bits = shifted & ((static_cast<I>(1) << F) - static_cast<I>(1));
 
                     body.push_back(static_cast<CharT>(digits[static_cast<size_t>(digit)]));
                     ++used_prec;
-- 
2.43.0


From 1c75e009fe67c33fd8f07b6308a4f917e8a2dd3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:23:49 +0000
Subject: [PATCH 31/62] fix: zero padding came before the sign, and on the
 right side of left aligned numbers

---
 include/eirin/io/format.hpp | 23 +++++++++++++++++------
 1 file changed, 17 insertions(+), 6 deletions(-)

diff --git a/include/eirin/io/format.hpp b/include/eirin/io/format.hpp
index 822bd81..e786482 100644
--- a/include/eirin/io/format.hpp
+++ b/include/eirin/io/format.hpp
@@ -124,7 +124,7 @@ public:
             {
                 body = prefix + digit_str;
             }
-            return output_aligned(out, body);
+            return output_aligned(out, body, prefix.size());
         }
 
         body = prefix + digit_str;
@@ -179,7 +179,7 @@ public:
             }
         }
 
-        return output_aligned(out, body);
+        return output_aligned(out, body, prefix.size());
     }
 
 private:
@@ -220,6 +220,7 @@ private:
         if(m_state.alt_form)
             append_alt_prefix(body, 16, upper);
 
+        const auto prefix_size = body.size();
         const auto& digits = detail::digit_map_lower;
 
         if(uval == 0)
@@ -238,7 +239,7 @@ private:
             body += rev;
         }
 
-        return output_aligned(out, body);
+        return output_aligned(out, body, prefix_size);
     }
 
     // Convert an integer to a string in the given base
@@ -325,14 +326,23 @@ private:
     }
 
     template <typename OutputIt>
-    OutputIt output_aligned(OutputIt out, const std::basic_string<CharT>& body) const
+    OutputIt output_aligned(OutputIt out, const std::basic_string<CharT>& body, std::size_t prefix_size) const
     {
         auto sz = body.size();
         if(m_state.width_val <= 0 || static_cast<std::size_t>(m_state.width_val) <= sz)
             return std::copy(body.begin(), body.end(), out);
 
         std::size_t pad_cnt = static_cast<std::size_t>(m_state.width_val) - sz;
-        CharT pad_ch = m_state.zero_pad ? static_cast<CharT>('0') : m_state.fill_ch;
+        CharT pad_ch = m_state.fill_ch;
+
+        // the zeros are part of the number, so they come after the sign and the base prefix.
+        if(m_state.zero_pad)
+        {
+            const auto digits_begin = body.begin() + static_cast<std::ptrdiff_t>(prefix_size);
+            out = std::copy(body.begin(), digits_begin, out);
+            out = std::fill_n(out, pad_cnt, static_cast<CharT>('0'));
+            return std::copy(digits_begin, body.end(), out);
+        }
 
         char eff_align = (m_state.align_mode == '\0') ? '>' : m_state.align_mode;
 
@@ -439,7 +449,8 @@ public:
         // [0]
         if(it != end && *it == '0')
         {
-            st.zero_pad = true;
+            // ignored when there is an explicit alignment, the same as the standard formatters.
+            st.zero_pad = st.align_mode == '\0';
             ++it;
         }
 
-- 
2.43.0


From a399661fed97256d226d407b4ba10f3378952774 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:23:49 +0000
Subject: [PATCH 32/62] fix: huge widths and precisions of format specs
 overflowed

---
 include/eirin/io/format.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/eirin/io/format.hpp b/include/eirin/io/format.hpp
index e786482..a243c53 100644
--- a/include/eirin/io/format.hpp
+++ b/include/eirin/io/format.hpp
@@ -460,6 +460,8 @@ public:
             st.width_val = 0;
             while(it != end && *it >= '0' && *it <= '9')
             {
+                if(st.width_val > (std::numeric_limits<int>::max() - 9) / 10)
+                    EIRIN_THROW_EXCEPTION(std::format_error, "format width is too large");
                 st.width_val = st.width_val * 10 + static_cast<int>(*it - '0');
                 ++it;
             }
@@ -472,6 +474,8 @@ public:
             st.precision = 0;
             while(it != end && *it >= '0' && *it <= '9')
             {
+                if(st.precision > (std::numeric_limits<int>::max() - 9) / 10)
+                    EIRIN_THROW_EXCEPTION(std::format_error, "format precision is too large");
                 st.precision = st.precision * 10 + static_cast<int>(*it - '0');
                 ++it;
             }
-- 
2.43.0


From 4d8dcfa468d1f5700ffc956520b160a22421d867 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:24:34 +0000
Subject: [PATCH 33/62] fix: the random engine shifted by more bits than the
 state has

---
 include/eirin/random.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/eirin/random.hpp b/include/eirin/random.hpp
index 8b74e59..7da6b5e 100644
--- a/include/eirin/random.hpp
+++ b/include/eirin/random.hpp
@@ -50,7 +50,7 @@ protected:
 
     EIRIN_ALWAYS_INLINE UIntType mix_first(UIntType x)
     {
-        x >>= 8 ^ x;
+        x ^= x >> 8;
         x += increment;
         return x;
     }
@@ -64,7 +64,7 @@ protected:
 
     EIRIN_ALWAYS_INLINE UIntType mix_second(UIntType x)
     {
-        x >>= 8 ^ x;
+        x ^= x >> 8;
         x *= mix_multiplier;
         return x;
     }
-- 
2.43.0


From b5834014112280a16cc804b7b3823168c93f8c32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:24:34 +0000
Subject: [PATCH 34/62] fix: the max of the random engine was never reached by
 its output

---
 include/eirin/random.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/eirin/random.hpp b/include/eirin/random.hpp
index 7da6b5e..cac2bba 100644
--- a/include/eirin/random.hpp
+++ b/include/eirin/random.hpp
@@ -123,7 +123,8 @@ public:
 
     static constexpr result_type max() noexcept
     {
-        return std::numeric_limits<result_type>::max();
+        // the output permutation only keeps these bits, see generate().
+        return (std::numeric_limits<result_type>::max() & 0x7FFFFFFE) | (std::numeric_limits<result_type>::max() >> 8);
     }
 
     friend bool operator==(const permuted_congruential_engine& lhs, const permuted_congruential_engine& rhs)
-- 
2.43.0


From 378e95f20198190198df060312ae682296fdbf25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:24:34 +0000
Subject: [PATCH 35/62] fix: seeding a used random engine did not restart its
 sequence

---
 include/eirin/random.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/eirin/random.hpp b/include/eirin/random.hpp
index cac2bba..a82c095 100644
--- a/include/eirin/random.hpp
+++ b/include/eirin/random.hpp
@@ -101,6 +101,7 @@ public:
     void seed(result_type seed = default_seed)
     {
         m_seed = seed;
+        m_state = state;
     }
 
     void seed(std::seed_seq& seq)
-- 
2.43.0


From f64a907a0ccc7a0df9218fec037aa19262e972e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:24:34 +0000
Subject: [PATCH 36/62] fix: writing a random engine changed the format flags
 of the stream

---
 include/eirin/random.hpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/include/eirin/random.hpp b/include/eirin/random.hpp
index a82c095..a0f884e 100644
--- a/include/eirin/random.hpp
+++ b/include/eirin/random.hpp
@@ -142,9 +142,14 @@ public:
     inline friend std::basic_ostream<charT, charTraits>& operator<<(std::basic_ostream<charT, charTraits>& os, const permuted_congruential_engine& obj)
     {
         // set fmtflags to dec and left, padding with space.
-        os.setf(std::ios::fmtflags(os.flags() | std::ios::dec | std::ios_base::left), std::ios::basefield);
+        const auto flags = os.flags();
+        const auto fill = os.fill();
+        os.flags(std::ios_base::dec | std::ios_base::left);
+        os.fill(os.widen(' '));
         // write the current state into the stream.
         os << obj.m_seed << ' ' << obj.m_state;
+        os.flags(flags);
+        os.fill(fill);
         return os;
     }
 };
-- 
2.43.0


From 232090fd5772741d4d4c44a937acd2b907089cbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:24:34 +0000
Subject: [PATCH 37/62] fix: the distribution adapters ignored the given
 parameters

---
 include/eirin/detail/distribution.hpp | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/include/eirin/detail/distribution.hpp b/include/eirin/detail/distribution.hpp
index 376a9fa..81ca21f 100644
--- a/include/eirin/detail/distribution.hpp
+++ b/include/eirin/detail/distribution.hpp
@@ -101,8 +101,7 @@ public:
     template <typename _UniformRandomBitGenerator>
     FixedType operator()(_UniformRandomBitGenerator& g, const param_type& param)
     {
-        // the m_param and the underlying distribution should be consistent, so just call m_dist.operator(g)
-        auto raw_val = m_dist(g);
+        auto raw_val = m_dist(g, param.to_underlying());
         return FixedType::template from_fixed_num_value<result_type::precision>(static_cast<value_type>(raw_val));
     }
 
@@ -237,8 +236,7 @@ public:
     template <typename _UniformRandomBitGeneratorAdapter>
     FixedType operator()(_UniformRandomBitGeneratorAdapter& a, const param_type& param)
     {
-        // the m_param and the underlying distribution should be consistent, so just call m_dist.operator(g)
-        auto raw_val = m_dist(a.__underlying_engine());
+        auto raw_val = m_dist(a.__underlying_engine(), param.to_underlying());
         return FixedType::template from_fixed_num_value<result_type::precision>(static_cast<value_type>(raw_val));
     }
 
-- 
2.43.0


From 927a33d82b2b9a1d2edbf4cb971cd0f77f58f81c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:25:22 +0000
Subject: [PATCH 38/62] fix: cordic sine of negative angles

---
 include/eirin/ext/cordic.hpp | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/include/eirin/ext/cordic.hpp b/include/eirin/ext/cordic.hpp
index 365e98a..5064de7 100644
--- a/include/eirin/ext/cordic.hpp
+++ b/include/eirin/ext/cordic.hpp
@@ -81,10 +81,8 @@ namespace detail
 
         sin_sign = Q < const_0 ? -1 : 1;
 
-        // abs Q with signbit mask.
-        auto sign_mask = Q.signbit_mask();
-        auto abs_value = Q.m_value & ~sign_mask;
-        Q = FP::from_internal_value(abs_value);
+        // clear the signbit is not the absolute value in two's complement.
+        Q = abs(Q);
 
         // scale angel into [-2*pi, 2*pi].
         Q %= double_pi;
-- 
2.43.0


From e86fef60888faa9422f5bfdf2f9a29e8700e5a5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:25:37 +0000
Subject: [PATCH 39/62] fix: lut_calc_sin read out of the table for negative
 angles, and sampled with a wrong step

---
 include/eirin/detail/util.hpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/include/eirin/detail/util.hpp b/include/eirin/detail/util.hpp
index f4da867..1a0748e 100644
--- a/include/eirin/detail/util.hpp
+++ b/include/eirin/detail/util.hpp
@@ -210,7 +210,8 @@ namespace lut
     std::array<fixed64, N> func_ptr_lut(fixed64 (*func)(fixed64))
     {
         std::array<fixed64, N> lut = {};
-        constexpr fixed64 step = eirin::numbers::pi_f64 / fixed64(N);
+        // N samples have N - 1 intervals in [0, pi].
+        constexpr fixed64 step = eirin::numbers::pi_f64 / fixed64(N - 1);
         for(size_t i = 0; i < N; ++i)
         {
             lut[i] = func(step * fixed64(i));
@@ -230,12 +231,12 @@ namespace lut
         static auto lut = func_ptr_lut<N>(__sin);
         // linear interpolation
         constexpr auto two_pi = eirin::numbers::pi_f64 * 2_f64;
-        auto x_mod = x - two_pi * (x / two_pi).integral_part();
-        bool negate = false;
+        auto x_mod = abs(x) - two_pi * (x / two_pi).integral_part();
+        bool negate = x < fixed64(0);
         if(x_mod >= eirin::numbers::pi_f64)
         {
             x_mod -= eirin::numbers::pi_f64;
-            negate = true;
+            negate = !negate;
         }
 
         // 3. Linear interpolation
-- 
2.43.0


From fc1ef8c573e1b01ce044e7e42a095ad50e76ae8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:26:12 +0000
Subject: [PATCH 40/62] fix: bbp_calc_pi skipped most of the powers of 16, and
 did not compile for 32 bits types

---
 include/eirin/detail/util.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/eirin/detail/util.hpp b/include/eirin/detail/util.hpp
index 1a0748e..d05f267 100644
--- a/include/eirin/detail/util.hpp
+++ b/include/eirin/detail/util.hpp
@@ -163,7 +163,7 @@ namespace pi_calc
     {
 // BBP formula: pi = sum(k=0~inf){1/16^k * (4/(8k+1) - 2/(8k+4) - 1/(8k+5) - 1/(8k+6))}
 #ifdef EIRIN_MATH_HAS_INT128
-        using intermediate_t = typename std::conditional<sizeof(T) <= 4, std::conditional<sizeof(T) <= 2, int32_t, int64_t>, detail::int128_t>::type;
+        using intermediate_t = typename std::conditional<sizeof(T) <= 4, std::conditional_t<sizeof(T) <= 2, int32_t, int64_t>, detail::int128_t>::type;
 #else
         if constexpr(sizeof(T) <= 2)
             using intermediate_t = int32_t;
@@ -178,7 +178,7 @@ namespace pi_calc
         for(int k = 0; k < N; ++k)
         {
             intermediate_t factor = frac_mult;
-            for(int i = 0; i < 4 * k; ++i)
+            for(int i = 0; i < k; ++i)
                 factor /= 16;
 
             intermediate_t term1 = (4 * factor) / (8 * k + 1);
-- 
2.43.0


From 4348f9c6b7e5ba84067dbd00dd3504e34ad01de1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:26:12 +0000
Subject: [PATCH 41/62] fix: the AVX-512 multiplication dropped the high bits
 and the sign

---
 include/eirin/ext/simd_math.hpp | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/include/eirin/ext/simd_math.hpp b/include/eirin/ext/simd_math.hpp
index 49ff889..82a3471 100644
--- a/include/eirin/ext/simd_math.hpp
+++ b/include/eirin/ext/simd_math.hpp
@@ -112,11 +112,7 @@ namespace detail
 {
     EIRIN_ALWAYS_INLINE __m256i avx_mm256_mullo_epi64(__m256i __A, __m256i __B)
     {
-#ifdef __AVX512DQ__
-        // For machines with AVX-512, we just calc (a * b) >> 32.
-        return _mm256_srli_epi64(_mm256_mullo_epi64(__A, __B), 32);
-#else
-        // Fallback implementation for lane-wise 64-bit multiplication without AVX-512.
+        // The 64-bit multiplication of AVX-512 drops the high bits which (a * b) >> 32 needs, so it is not used here.
         // Compute sign masks (0 or -1) from sign bit using shifts to avoid
         // relying on potentially unavailable 64-bit compare intrinsics.
         __m256i sign_bit_a = _mm256_srli_epi64(__A, 63);
@@ -147,7 +143,6 @@ namespace detail
         // restore sign
         __m256i sign = _mm256_xor_si256(sign_mask_a, sign_mask_b);
         return _mm256_sub_epi64(_mm256_xor_si256(result, sign), sign);
-#endif
     }
 
     EIRIN_ALWAYS_INLINE __m256i _mm256_fpint_epi64(__m256i __X)
-- 
2.43.0


From fc18547d9681c6922dbd8b5ed82b4a707085a66b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:26:12 +0000
Subject: [PATCH 42/62] fix: simd_reduce_angle_2 multiplied 32 bits of each
 lane, and swapped the lanes

---
 include/eirin/ext/simd_math.hpp | 13 +++----------
 1 file changed, 3 insertions(+), 10 deletions(-)

diff --git a/include/eirin/ext/simd_math.hpp b/include/eirin/ext/simd_math.hpp
index 82a3471..c6df979 100644
--- a/include/eirin/ext/simd_math.hpp
+++ b/include/eirin/ext/simd_math.hpp
@@ -198,15 +198,8 @@ namespace detail
 
     EIRIN_ALWAYS_INLINE __m128i __sse_simd_reduce_angle(__m128i x)
     {
-        // these [2 * i64] vector stores the fixed point internal represent.
-        static constexpr int64_t two_pi_v[2] = {(numbers::pi_f64 * 2_f64).internal_value(), (numbers::pi_f64 * 2_f64).internal_value()};
-        static constexpr int64_t inv_two_pi_v[2] = {(1_f64 / (numbers::pi_f64 * 2_f64)).internal_value(), (1_f64 / (numbers::pi_f64 * 2_f64)).internal_value()};
-        static const __m128i two_pi = _mm_lddqu_si128((__m128i*)two_pi_v);
-        static const __m128i inv_two_pi = _mm_lddqu_si128((__m128i*)inv_two_pi_v);
-        // n = x / (2pi)
-        __m128i n = _mm_mul_epi32(x, inv_two_pi);
-        // x = x - n * (2pi)
-        return _mm_sub_epi64(x, _mm_mul_epi32(n, two_pi));
+        // _mm_mul_epi32 only multiplies the low 32 bits of each lane, so share the 64-bit multiplication.
+        return _mm256_castsi256_si128(__avx__simd_reduce_angle(_mm256_zextsi128_si256(x)));
     }
 } // namespace detail
 
@@ -224,7 +217,7 @@ EIRIN_ALWAYS_INLINE std::array<fixed64, 2> simd_reduce_angle_2(std::array<fixed6
 {
     __m128i xv = _mm_lddqu_si128((__m128i*)xs.data());
     __m128i rv = detail::__sse_simd_reduce_angle(xv);
-    int64_t r1 = _mm_extract_epi64(rv, 0b1), r2 = _mm_extract_epi64(rv, 0b0);
+    int64_t r1 = _mm_extract_epi64(rv, 0), r2 = _mm_extract_epi64(rv, 1);
     return {FIXED64(r1), FIXED64(r2)};
 }
 
-- 
2.43.0


From 3be4b6b4558c7babe7ee7ba5fe964c9d502a83c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:26:36 +0000
Subject: [PATCH 43/62] fix: the first detection of the platform features was a
 data race

---
 include/eirin/ext/simd_math.hpp | 40 +++++++++++++--------------------
 1 file changed, 16 insertions(+), 24 deletions(-)

diff --git a/include/eirin/ext/simd_math.hpp b/include/eirin/ext/simd_math.hpp
index c6df979..182ea08 100644
--- a/include/eirin/ext/simd_math.hpp
+++ b/include/eirin/ext/simd_math.hpp
@@ -27,17 +27,11 @@ namespace eirin::simd
 {
 class platform_support
 {
-    static inline bool features_detected = false;
-
     // we only consider to support x86 for now.
     // a bit set for storeage.
-    static inline std::bitset<8> features_flag = 0x00;
-
-    EIRIN_ALWAYS_INLINE static void detect_features()
+    static std::bitset<8> detect_features()
     {
-        if(features_detected) [[likely]]
-            return;
-        features_detected = true;
+        std::bitset<8> features_flag = 0x00;
 #ifdef EIRIN_ARCH_X86
 #    if defined(__GNUC__) || defined(__clang__)
         u_int32_t eax, ebx, ecx, edx;
@@ -62,49 +56,47 @@ class platform_support
         features_flag.set(3, (ebx & (1 << 5)) != 0);
         features_flag.set(4, (ebx & (1 << 16)) != 0);
         features_flag.set(5, (ebx & (1 << 17)) != 0);
-#    else
-        return;
 #    endif
-#else
-        return;
 #endif
+        return features_flag;
+    }
+
+    // detected only once, even when called by several threads.
+    static const std::bitset<8>& features()
+    {
+        static const std::bitset<8> features_flag = detect_features();
+        return features_flag;
     }
 
 public:
     inline static bool supports_sse2()
     {
-        detect_features();
-        return features_flag.test(0);
+        return features().test(0);
     }
 
     inline static bool supports_sse4_2()
     {
-        detect_features();
-        return features_flag.test(1);
+        return features().test(1);
     }
 
     inline static bool supports_avx()
     {
-        detect_features();
-        return features_flag.test(2);
+        return features().test(2);
     }
 
     inline static bool supports_avx2()
     {
-        detect_features();
-        return features_flag.test(3);
+        return features().test(3);
     }
 
     inline static bool supports_avx512_f()
     {
-        detect_features();
-        return features_flag.test(4);
+        return features().test(4);
     }
 
     inline static bool supports_avx512_dq()
     {
-        detect_features();
-        return features_flag.test(5);
+        return features().test(5);
     }
 };
 
-- 
2.43.0


From eab0ad80418f6582de02cec923759755863a1a33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:26:36 +0000
Subject: [PATCH 44/62] fix: -fno-exceptions was not detected

---
 include/eirin/macro.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/eirin/macro.hpp b/include/eirin/macro.hpp
index b6e52ac..7f882a6 100644
--- a/include/eirin/macro.hpp
+++ b/include/eirin/macro.hpp
@@ -15,11 +15,12 @@
 #    define EIRIN_ALWAYS_INLINE inline
 #endif
 
-#if defined(__EXCEPTIONS) && __EXCEPTIONS != 1
+// GCC and clang do not define __EXCEPTIONS when compiled with -fno-exceptions.
+#if defined(__GNUC__) && !defined(__EXCEPTIONS) && !defined(EIRIN_NO_EXCEPTIONS)
 #    define EIRIN_NO_EXCEPTIONS
 #endif
 
-#if defined(_MSC_VER) && !defined(_CPPUNWIND)
+#if defined(_MSC_VER) && !defined(_CPPUNWIND) && !defined(EIRIN_NO_EXCEPTIONS)
 #    define EIRIN_NO_EXCEPTIONS
 #endif
 
-- 
2.43.0


From 220af4fe226cc644d053fdcc4a81717aad20a558 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:26:39 +0000
Subject: [PATCH 45/62] fix: numeric_limits of unsigned fixed numbers were
 signed

---
 include/eirin/fixed.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/eirin/fixed.hpp b/include/eirin/fixed.hpp
index 5afda32..cb5b2c1 100644
--- a/include/eirin/fixed.hpp
+++ b/include/eirin/fixed.hpp
@@ -1157,7 +1157,7 @@ struct numeric_limits<eirin::fixed_num<T, I, f, r>>
     using fixed_type = eirin::fixed_num<T, I, f, r>;
 
     static constexpr bool is_specialized = true;
-    static constexpr bool is_signed = true;
+    static constexpr bool is_signed = std::is_signed_v<T>;
     static constexpr bool is_integer = false;
     static constexpr bool is_exact = true;
     static constexpr bool has_infinity = false;
@@ -1166,7 +1166,7 @@ struct numeric_limits<eirin::fixed_num<T, I, f, r>>
 
     static constexpr fixed_type radix = fixed_type(2);
     // 1 bit sign + fractions bits + integer bits
-    static constexpr fixed_type digits = fixed_type(sizeof(T) * 8 - 1);
+    static constexpr fixed_type digits = fixed_type(sizeof(T) * 8 - std::is_signed_v<T>);
     // integer bits = sizeof(T) * 8 - 1 - f
     // fraction bits = f
     // digits10 = integer bits * log10(2) + fraction bits * log10(2)
-- 
2.43.0


From b5e85d9c946f69494afcc93153ec09aa48499098 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:29:49 +0000
Subject: [PATCH 46/62] fix: fixed64 literals with digit separators were zero

---
 include/eirin/fixed.hpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/include/eirin/fixed.hpp b/include/eirin/fixed.hpp
index cb5b2c1..660a5b0 100644
--- a/include/eirin/fixed.hpp
+++ b/include/eirin/fixed.hpp
@@ -809,8 +809,10 @@ inline namespace literals
     template <char... chars>
     constexpr inline fixed32 operator""_f32()
     {
-        auto len = sizeof...(chars);
-        const char str[] = {chars...};
+        // drop the digit separators.
+        size_t len = 0;
+        char str[sizeof...(chars)] = {};
+        ((chars != '\'' ? void(str[len++] = chars) : void()), ...);
         fixed32 fp(0);
         detail::parse(str, len, fp);
         return fp;
@@ -827,8 +829,10 @@ inline namespace literals
     template <char... chars>
     constexpr inline fixed64 operator""_f64()
     {
-        auto len = sizeof...(chars);
-        const char str[] = {chars...};
+        // drop the digit separators.
+        size_t len = 0;
+        char str[sizeof...(chars)] = {};
+        ((chars != '\'' ? void(str[len++] = chars) : void()), ...);
         fixed64 fp(0);
         detail::parse(str, len, fp);
         return fp;
-- 
2.43.0


From 0ca4d87b39f2324608079b510766e2ab38beceef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:08:30 +0000
Subject: [PATCH 47/62] fix: reading a whole number at the end of a stream
 failed the stream

---
 include/eirin/fixed.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/eirin/fixed.hpp b/include/eirin/fixed.hpp
index 660a5b0..0fce147 100644
--- a/include/eirin/fixed.hpp
+++ b/include/eirin/fixed.hpp
@@ -1082,7 +1082,8 @@ std::basic_istream<CharT, Traits>& operator>>(std::basic_istream<CharT, Traits>&
     };
     auto has_next = [&]() -> bool
     {
-        return !Traits::eq_int_type(is.peek(), Traits::eof());
+        // peeking again after the end of the stream fails the stream.
+        return is.good() && !Traits::eq_int_type(is.peek(), Traits::eof());
     };
     auto check_ch = [](CharT ch) -> bool
     {
-- 
2.43.0


From d3cd85ea2cffbd73b7fe71afda73b188f857d357 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:15:13 +0000
Subject: [PATCH 48/62] fix: format specs treated ':' after optional digits as
 an argument id separator

The format spec handed to parse() never contains the argument id, so '{::>10}' lost its fill character
and invalid specs such as '{:5:f}' were accepted.
---
 include/eirin/io/format.hpp | 14 --------------
 1 file changed, 14 deletions(-)

diff --git a/include/eirin/io/format.hpp b/include/eirin/io/format.hpp
index a243c53..c776303 100644
--- a/include/eirin/io/format.hpp
+++ b/include/eirin/io/format.hpp
@@ -400,20 +400,6 @@ public:
             return it;
         }
 
-        {
-            auto p = it;
-            while(p != end && *p >= '0' && *p <= '9')
-                ++p;
-            if(p != end && *p == ':')
-                it = p + 1;
-        }
-
-        if(it == end)
-        {
-            m_fmt.set_state(st);
-            return it;
-        }
-
         // [[fill]align]
         {
             auto nxt = it;
-- 
2.43.0


From 501c679cbe21bdb6c0af7512c2658f814e42eb76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:13:59 +0000
Subject: [PATCH 49/62] fix: apply the field width of the stream to the whole
 number

---
 include/eirin/fixed.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/include/eirin/fixed.hpp b/include/eirin/fixed.hpp
index 0fce147..df13933 100644
--- a/include/eirin/fixed.hpp
+++ b/include/eirin/fixed.hpp
@@ -25,6 +25,7 @@
 #include <iostream>
 #include <algorithm>
 #include <iterator>
+#include <string>
 #include "macro.hpp"
 #include "detail/int128.hpp"
 #include "error.hpp"
@@ -662,11 +663,13 @@ public:
 
     friend std::ostream& operator<<(std::ostream& os, const fixed_num& fp)
     {
-        auto iter = std::ostream_iterator<char>(os);
         auto flags = os.flags();
         int base = (flags & std::ios_base::hex) ? 16 : ((flags & std::ios_base::dec) ? 10 : ((flags & std::ios_base::oct) ? 8 : 2));
         bool uppercase = (flags & std::ios_base::uppercase) != 0;
-        fixed_num::copy_as_chars_to(fp, iter, base, uppercase);
+        // the field width applies to the whole number, not to its first character.
+        std::string text;
+        fixed_num::copy_as_chars_to(fp, std::back_inserter(text), base, uppercase);
+        os << text;
         os.flush();
         return os;
     }
-- 
2.43.0


From ba939ea6a3f635b35f42f64348c631c5e161b9c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:30:40 +0000
Subject: [PATCH 50/62] fix: let cordic_sine be used in constant expressions

---
 include/eirin/ext/cordic.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/eirin/ext/cordic.hpp b/include/eirin/ext/cordic.hpp
index 5064de7..6a6560f 100644
--- a/include/eirin/ext/cordic.hpp
+++ b/include/eirin/ext/cordic.hpp
@@ -19,7 +19,7 @@ namespace detail
     }
 
     template <fixed_point T>
-    const T K = cordic_k<T>();
+    constexpr T K = cordic_k<T>();
 
     template <typename T, typename I, unsigned int f, bool r>
     struct cordic_angels
-- 
2.43.0


From 8886bbb1c845a93f5234b0e83d76068763e6cb85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:46:09 +0000
Subject: [PATCH 51/62] fix: count the top bit of unsigned types in digits10

---
 include/eirin/fixed.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/eirin/fixed.hpp b/include/eirin/fixed.hpp
index df13933..dbb1337 100644
--- a/include/eirin/fixed.hpp
+++ b/include/eirin/fixed.hpp
@@ -1179,7 +1179,7 @@ struct numeric_limits<eirin::fixed_num<T, I, f, r>>
     // fraction bits = f
     // digits10 = integer bits * log10(2) + fraction bits * log10(2)
     // we can use log10(2) = 643 / 2136
-    static constexpr fixed_type digits10 = fixed_type(static_cast<T>((sizeof(T) * 8 - 1) * 643L / 2136));
+    static constexpr fixed_type digits10 = fixed_type(static_cast<T>((sizeof(T) * 8 - std::is_signed_v<T>) * 643L / 2136));
     static constexpr fixed_type min_exponent = fixed_type(0);
     static constexpr fixed_type min_exponent10 = fixed_type(10);
 
-- 
2.43.0


From 98bdb25248e994790e4ccfff9d8862ad07d5bfdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:15:29 +0000
Subject: [PATCH 52/62] fix: keep the sum of a Newton step of sqrt from
 overflowing formats with one integral bit

---
 include/eirin/math.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/eirin/math.hpp b/include/eirin/math.hpp
index 21d77d4..ee88d2a 100644
--- a/include/eirin/math.hpp
+++ b/include/eirin/math.hpp
@@ -165,7 +165,8 @@ EIRIN_ALWAYS_INLINE constexpr fixed_num<T, I, f, r> sqrt(fixed_num<T, I, f, r> f
         auto eps = fixed::epsilon();
         for(int i = 0; i < 5; ++i)
         {
-            x = (x + fp / x) / 2;
+            // the sum might not fit the store type.
+            x = fixed::from_internal_value(static_cast<T>((static_cast<I>(x.internal_value()) + (fp / x).internal_value()) / 2));
             // the square of x might not fit the store type.
             const I diff = static_cast<I>(val) - ((static_cast<I>(x.internal_value()) * x.internal_value()) >> f);
             if((diff < 0 ? -diff : diff) < eps.internal_value())
-- 
2.43.0


From 66fb891baa4dbd4623f819cb1cb763638c2bfaca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:16:48 +0000
Subject: [PATCH 53/62] fix: keep the sum of a Newton step of cbrt from
 overflowing formats with few integral bits

---
 include/eirin/math.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/eirin/math.hpp b/include/eirin/math.hpp
index ee88d2a..0f4d503 100644
--- a/include/eirin/math.hpp
+++ b/include/eirin/math.hpp
@@ -381,7 +381,8 @@ EIRIN_ALWAYS_INLINE constexpr fixed_num<T, I, f, r> cbrt(fixed_num<T, I, f, r> f
         const auto x2 = x * x;
         if(x2 == fixed(0))
             break;
-        x = (fp / x2 + x * 2) / 3;
+        // the sum might not fit the store type.
+        x = fixed::from_internal_value(static_cast<T>((static_cast<I>((fp / x2).internal_value()) + static_cast<I>(x.internal_value()) * 2) / 3));
         ++iter_count;
     }
     return x;
-- 
2.43.0


From 50e73e24a67824297cad8005230447e2ac0b2ffd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:18:23 +0000
Subject: [PATCH 54/62] fix: log2 does not hang when twice one does not fit the
 store type

---
 include/eirin/math.hpp | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/include/eirin/math.hpp b/include/eirin/math.hpp
index 0f4d503..2ed9682 100644
--- a/include/eirin/math.hpp
+++ b/include/eirin/math.hpp
@@ -425,27 +425,28 @@ EIRIN_ALWAYS_INLINE constexpr fixed_num<T, I, f, r> log2(fixed_num<T, I, f, r> f
     // The assembly code of '-O3' optimization is to expand the for loop code into tons of code segments,
     // which makes the performance of the code much slower than '-O2' optimization.
     // I prefer this situation is abnormal, but I don't know why.
-    T b = static_cast<T>(1) << (f - 1), y = 0, x = fp.internal_value();
+    // twice one might not fit the store type.
+    I b = static_cast<I>(1) << (f - 1), y = 0, x = fp.internal_value();
     if(fp <= fixed(0))
         EIRIN_THROW_EXCEPTION(std::domain_error, "log2() domain error");
 
-    while(x < (static_cast<T>(1u) << f))
+    while(x < (static_cast<I>(1u) << f))
     {
         x <<= 1;
-        y -= (static_cast<T>(1u) << f);
+        y -= (static_cast<I>(1u) << f);
     }
 
-    while(x >= (static_cast<T>(2u) << f))
+    while(x >= (static_cast<I>(2u) << f))
     {
         x >>= 1;
-        y += (static_cast<T>(1u) << f);
+        y += (static_cast<I>(1u) << f);
     }
 
     I z = x;
     for(size_t i = 0; i < f; ++i)
     {
         z = (z * z) >> f;
-        if(z >= (static_cast<T>(2u) << f))
+        if(z >= (static_cast<I>(2u) << f))
         {
             z >>= 1;
             y += b;
@@ -453,7 +454,7 @@ EIRIN_ALWAYS_INLINE constexpr fixed_num<T, I, f, r> log2(fixed_num<T, I, f, r> f
         b >>= 1;
     }
 
-    return fixed::from_internal_value(y);
+    return fixed::from_internal_value(static_cast<T>(y));
 }
 
 /**
-- 
2.43.0


From af18aadb5b17f83cd1838e1c2f6e6e8919e22d84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:10:39 +0000
Subject: [PATCH 55/62] fix: degrees and radians of formats that cannot hold
 180

---
 include/eirin/math.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/eirin/math.hpp b/include/eirin/math.hpp
index 2ed9682..a8b9195 100644
--- a/include/eirin/math.hpp
+++ b/include/eirin/math.hpp
@@ -622,7 +622,8 @@ template <typename T, typename I, unsigned int f, bool r, fixed_num<T, I, f, r>
 EIRIN_ALWAYS_INLINE constexpr fixed_num<T, I, f, r> degrees(fixed_num<T, I, f, r> rad) noexcept
 {
     using fixed = fixed_num<T, I, f, r>;
-    constexpr fixed factor = fixed(180);
+    // an integer, because 180 might not fit the store type.
+    constexpr int factor = 180;
     fixed deg = rad / pi * factor;
     return deg;
 }
@@ -642,7 +643,8 @@ template <typename T, typename I, unsigned int f, bool r, fixed_num<T, I, f, r>
 EIRIN_ALWAYS_INLINE constexpr fixed_num<T, I, f, r> radians(fixed_num<T, I, f, r> deg) noexcept
 {
     using fixed = fixed_num<T, I, f, r>;
-    constexpr fixed factor = fixed(180);
+    // an integer, because 180 might not fit the store type.
+    constexpr int factor = 180;
     fixed rad = deg / factor * pi;
     return rad;
 }
-- 
2.43.0


From 78d6d42f49b7f0fedcb6b156c4b0ddd75da4f1e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:10:39 +0000
Subject: [PATCH 56/62] fix: rounding formats round a floating point number
 once

---
 include/eirin/fixed.hpp | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/include/eirin/fixed.hpp b/include/eirin/fixed.hpp
index dbb1337..d7056a0 100644
--- a/include/eirin/fixed.hpp
+++ b/include/eirin/fixed.hpp
@@ -194,9 +194,14 @@ public:
         }
         else
         {
-            m_value = static_cast<Type>(
-                rounding ? (val >= 0.0) ? (val * fraction_multiplier + T{0.5}) : (val * fraction_multiplier - T{0.5}) : (val * fraction_multiplier)
-            );
+            const T scaled = val * fraction_multiplier;
+            m_value = static_cast<Type>(scaled);
+            if constexpr(rounding)
+            {
+                // adding a half to the scaled value would round it once more.
+                const T rest = scaled - static_cast<T>(m_value);
+                m_value += rest >= T{0.5} ? 1 : (rest <= T{-0.5} ? -1 : 0);
+            }
         }
     };
 
-- 
2.43.0


From 4cc34def14973bb8aa785d37b21961e551732d11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:10:39 +0000
Subject: [PATCH 57/62] fix: the remainder by an integer that does not fit the
 format

---
 include/eirin/fixed.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/eirin/fixed.hpp b/include/eirin/fixed.hpp
index d7056a0..1f75b84 100644
--- a/include/eirin/fixed.hpp
+++ b/include/eirin/fixed.hpp
@@ -432,7 +432,9 @@ public:
 
     constexpr inline fixed_num& operator%=(const std::integral auto& val) noexcept
     {
-        m_value = static_cast<Type>(m_value % (static_cast<IntermediateType>(val) << fraction));
+        // the divisor might not fit even the intermediate type, so take the multiple of it from the whole part.
+        const Type quotient = divide_internal(static_cast<Type>(m_value / fraction_multiplier), val);
+        m_value -= static_cast<Type>(quotient * val) << fraction;
         return *this;
     }
 
-- 
2.43.0


From 6fead58a579ee204da07ed244adff29462a6613e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:41:52 +0000
Subject: [PATCH 58/62] fix: abs of the lowest value saturates, so that sine,
 arctangent and the domain checks work for it

---
 include/eirin/math.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/eirin/math.hpp b/include/eirin/math.hpp
index a8b9195..5e20683 100644
--- a/include/eirin/math.hpp
+++ b/include/eirin/math.hpp
@@ -73,6 +73,9 @@ EIRIN_ALWAYS_INLINE constexpr fixed_num<T, I, f, r> abs(fixed_num<T, I, f, r> fp
 {
     using fixed = fixed_num<T, I, f, r>;
     auto value = fp.internal_value();
+    // the lowest value has no opposite, so saturate as ceil does.
+    if(value < 0 && value == std::numeric_limits<T>::min())
+        return fixed::from_internal_value(std::numeric_limits<T>::max());
     return fixed::from_internal_value(value < 0 ? -value : value);
 }
 
-- 
2.43.0


From 5223c2730c3b97ddf75055c4ee21e1a0f1441bf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:41:52 +0000
Subject: [PATCH 59/62] fix: the most significant bit of the lowest value
 without overflow

---
 include/eirin/fixed.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/eirin/fixed.hpp b/include/eirin/fixed.hpp
index 1f75b84..48d9dfa 100644
--- a/include/eirin/fixed.hpp
+++ b/include/eirin/fixed.hpp
@@ -69,8 +69,9 @@ namespace detail
         if constexpr(std::is_signed_v<T>)
         {
             using U = std::make_unsigned_t<T>;
-            auto abs_v = value < 0 ? -value : value;
-            return find_msb(static_cast<U>(abs_v));
+            // negate the unsigned value, the lowest value has no opposite.
+            const U abs_v = static_cast<U>(value < 0 ? U(0) - static_cast<U>(value) : static_cast<U>(value));
+            return find_msb(abs_v);
         }
         else
         {
-- 
2.43.0


From dd6625ceb10dd604958632824fa56c46e429e516 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:49:29 +0000
Subject: [PATCH 60/62] fix: the remainder of the lowest value by minus one
 step is zero

---
 include/eirin/fixed.hpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/include/eirin/fixed.hpp b/include/eirin/fixed.hpp
index 48d9dfa..863413d 100644
--- a/include/eirin/fixed.hpp
+++ b/include/eirin/fixed.hpp
@@ -422,12 +422,19 @@ public:
 
     constexpr inline fixed_num operator%(const fixed_num& other) const noexcept
     {
+        // every value is a multiple of one step, but the quotient of the lowest value might not fit.
+        if(detail::is_signed<Type>::value && other.m_value == static_cast<Type>(-1))
+            return fixed_num(Type(0), raw_value_construct_tag{});
         return fixed_num(m_value % other.m_value, raw_value_construct_tag{});
     }
 
     constexpr inline fixed_num& operator%=(const fixed_num& other) noexcept
     {
-        m_value %= other.m_value;
+        // every value is a multiple of one step, but the quotient of the lowest value might not fit.
+        if(detail::is_signed<Type>::value && other.m_value == static_cast<Type>(-1))
+            m_value = 0;
+        else
+            m_value %= other.m_value;
         return *this;
     }
 
-- 
2.43.0


From 8acf053c9dae237db655828fb865a3e5ac549750 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:08:46 +0000
Subject: [PATCH 61/62] fix: 128-bit extension integers keep the sign and
 narrow negative values exactly

---
 include/eirin/ext/builtin_ints.hpp | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/include/eirin/ext/builtin_ints.hpp b/include/eirin/ext/builtin_ints.hpp
index d259d4a..b9c5a29 100644
--- a/include/eirin/ext/builtin_ints.hpp
+++ b/include/eirin/ext/builtin_ints.hpp
@@ -21,12 +21,12 @@ public:
     template <std::integral T>
     requires(sizeof(T) <= 8)
     EIRIN_ALWAYS_INLINE explicit int128(T val) noexcept
-        : high(0), low(val){};
+        : high(val < T(0) ? -1 : 0), low(static_cast<int64_t>(val)){};
 
     template <std::floating_point T>
     requires(sizeof(T) <= 8)
     EIRIN_ALWAYS_INLINE explicit int128(T val) noexcept
-        : high(0), low(static_cast<int64_t>(val)){};
+        : int128(static_cast<int64_t>(val)){};
 
     template <std::integral T>
     requires(sizeof(T) <= 8)
@@ -46,12 +46,10 @@ public:
     EIRIN_ALWAYS_INLINE constexpr explicit operator int64_t() const noexcept
     {
         // when casting, we should consider about overflow.
-        if(high > 0)
-            return std::numeric_limits<int64_t>::max();
-        else if(high < 0)
-            return std::numeric_limits<int64_t>::min();
-        else
+        // it fits if the high bits are only the sign of the low ones.
+        if(high == (low < 0 ? -1 : 0))
             return low;
+        return high < 0 ? std::numeric_limits<int64_t>::min() : std::numeric_limits<int64_t>::max();
     }
 
     EIRIN_ALWAYS_INLINE constexpr int128 operator+(const int128& rhs) const noexcept
-- 
2.43.0


From 94457393d30a2f2789af7e0f89dee10d180c093a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:08:46 +0000
Subject: [PATCH 62/62] fix: the sum of 128-bit extension integers carries from
 the low to the high bits

---
 include/eirin/ext/builtin_ints.hpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/include/eirin/ext/builtin_ints.hpp b/include/eirin/ext/builtin_ints.hpp
index b9c5a29..fb15247 100644
--- a/include/eirin/ext/builtin_ints.hpp
+++ b/include/eirin/ext/builtin_ints.hpp
@@ -54,9 +54,10 @@ public:
 
     EIRIN_ALWAYS_INLINE constexpr int128 operator+(const int128& rhs) const noexcept
     {
-        auto h = high + rhs.high;
-        auto l = low + rhs.low;
-        return int128(h, l);
+        // the low bits are unsigned, and carry into the high ones.
+        const uint64_t l = static_cast<uint64_t>(low) + static_cast<uint64_t>(rhs.low);
+        const uint64_t carry = l < static_cast<uint64_t>(low) ? 1 : 0;
+        return int128(static_cast<uint64_t>(high) + static_cast<uint64_t>(rhs.high) + carry, l);
     }
 
 private:
-- 
2.43.0

