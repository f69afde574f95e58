From bb0454cde44ab48aa43e2b2756980981462c8b7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:05 +0000
Subject: [PATCH 01/53] fix: linear_feedback_shift_engine: keep the value
 within w bits when UIntType is wider

---
 include/boost/random/linear_feedback_shift.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/boost/random/linear_feedback_shift.hpp b/include/boost/random/linear_feedback_shift.hpp
index a5c2ce7..ce35b43 100644
--- a/include/boost/random/linear_feedback_shift.hpp
+++ b/include/boost/random/linear_feedback_shift.hpp
@@ -118,7 +118,7 @@ public:
     {
         const UIntType b = (((value << q) ^ value) & wordmask()) >> (k-s);
         const UIntType mask = (wordmask() << (w-k)) & wordmask();
-        value = ((value & mask) << s) ^ b;
+        value = (((value & mask) << s) & wordmask()) ^ b;
         return value;
     }
   
-- 
2.43.0


From a3aa7eca278f026d1d247a304ac9a3775c8ff87f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:05 +0000
Subject: [PATCH 02/53] fix: linear_feedback_shift_engine: compare equal when
 seeds differ only in unused bits

---
 include/boost/random/linear_feedback_shift.hpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/include/boost/random/linear_feedback_shift.hpp b/include/boost/random/linear_feedback_shift.hpp
index ce35b43..a446c44 100644
--- a/include/boost/random/linear_feedback_shift.hpp
+++ b/include/boost/random/linear_feedback_shift.hpp
@@ -158,7 +158,12 @@ public:
      * sequences of outputs.
      */
     BOOST_RANDOM_DETAIL_EQUALITY_OPERATOR(linear_feedback_shift_engine, x, y)
-    { return x.value == y.value; }
+    {
+        // The low w-k bits of a freshly seeded value need not affect
+        // the output, but the first output is the entire state.
+        linear_feedback_shift_engine x_(x), y_(y);
+        return x_() == y_();
+    }
     
     /**
      * Returns true if the two generators will produce different
-- 
2.43.0


From ba892aeff3cdd2a0af2226fa991c8d7394a73339 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:05 +0000
Subject: [PATCH 03/53] fix: subtract_with_carry discard: do not skip the
 update for short jumps from a block boundary

---
 include/boost/random/subtract_with_carry.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/boost/random/subtract_with_carry.hpp b/include/boost/random/subtract_with_carry.hpp
index 6497884..4173194 100644
--- a/include/boost/random/subtract_with_carry.hpp
+++ b/include/boost/random/subtract_with_carry.hpp
@@ -69,7 +69,7 @@ struct subtract_with_carry_discard
 
         k = ((z % long_lag) + k) % long_lag;
 
-        if(k < z) {
+        if(k <= z) {
             // main loop: update full blocks from k = 0 to long_lag
             for(std::size_t i = 0; i < (z - k) / long_lag; ++i) {
                 for(std::size_t j = 0; j < short_lag; ++j) {
-- 
2.43.0


From 24132ccc7309e46cce437887c7ded006219b8bc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:05 +0000
Subject: [PATCH 04/53] fix: subtract_with_carry: operator== must take the
 carry into account

---
 include/boost/random/subtract_with_carry.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/boost/random/subtract_with_carry.hpp b/include/boost/random/subtract_with_carry.hpp
index 4173194..a043702 100644
--- a/include/boost/random/subtract_with_carry.hpp
+++ b/include/boost/random/subtract_with_carry.hpp
@@ -249,7 +249,7 @@ public:
         for(unsigned int j = 0; j < r; ++j)
             if(x_.compute(j) != y.compute(j))
                 return false;
-        return true;
+        return x_.carry == y.carry;
     }
 
     /**
@@ -483,7 +483,7 @@ public:
         for(unsigned int j = 0; j < r; ++j)
             if(x_.compute(j) != y.compute(j))
                 return false;
-        return true;
+        return x_.carry == y.carry;
     }
 
     /** Returns true if the two generators will produce different sequences. */
-- 
2.43.0


From a5a1808d9f080f4a89d4c7430548694b79785aa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:05 +0000
Subject: [PATCH 05/53] fix: mersenne_twister_engine: mask rewound words to w
 bits when UIntType is wider

---
 include/boost/random/mersenne_twister.hpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/boost/random/mersenne_twister.hpp b/include/boost/random/mersenne_twister.hpp
index 5fefb28..bd52724 100644
--- a/include/boost/random/mersenne_twister.hpp
+++ b/include/boost/random/mersenne_twister.hpp
@@ -312,8 +312,8 @@ private:
      */
     void rewind(UIntType* last, std::size_t z) const
     {
-        const UIntType upper_mask = (~static_cast<UIntType>(0)) << r;
-        const UIntType lower_mask = ~upper_mask;
+        const UIntType lower_mask = ~((~static_cast<UIntType>(0)) << r);
+        const UIntType upper_mask = (max)() & ~lower_mask;
         UIntType y0 = x[m-1] ^ x[n-1];
         if(y0 & (static_cast<UIntType>(1) << (w-1))) {
             y0 = ((y0 ^ a) << 1) | 1;
@@ -345,8 +345,8 @@ private:
      */
     void normalize_state()
     {
-        const UIntType upper_mask = (~static_cast<UIntType>(0)) << r;
-        const UIntType lower_mask = ~upper_mask;
+        const UIntType lower_mask = ~((~static_cast<UIntType>(0)) << r);
+        const UIntType upper_mask = (max)() & ~lower_mask;
         UIntType y0 = x[m-1] ^ x[n-1];
         if(y0 & (static_cast<UIntType>(1) << (w-1))) {
             y0 = ((y0 ^ a) << 1) | 1;
@@ -464,8 +464,8 @@ private:
     }
     void reconstruct_state(const detail::polynomial& p)
     {
-        const UIntType upper_mask = (~static_cast<UIntType>(0)) << r;
-        const UIntType lower_mask = ~upper_mask;
+        const UIntType lower_mask = ~((~static_cast<UIntType>(0)) << r);
+        const UIntType upper_mask = (max)() & ~lower_mask;
         const std::size_t num_bits = w*n - r;
         for(std::size_t j = num_bits - n + 1; j <= num_bits; ++j)
             x[j % n] = p[j];
-- 
2.43.0


From 3e64dfa961efea777eff951e0a1d523b6813fc76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:05 +0000
Subject: [PATCH 06/53] fix: reading a mersenne_twister or lagged_fibonacci at
 the end of a stream must not set failbit

---
 include/boost/random/lagged_fibonacci.hpp | 4 ++--
 include/boost/random/mersenne_twister.hpp | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/boost/random/lagged_fibonacci.hpp b/include/boost/random/lagged_fibonacci.hpp
index 0c93bae..446a2ef 100644
--- a/include/boost/random/lagged_fibonacci.hpp
+++ b/include/boost/random/lagged_fibonacci.hpp
@@ -154,9 +154,9 @@ public:
      */
     BOOST_RANDOM_DETAIL_ISTREAM_OPERATOR(is, lagged_fibonacci_engine, f)
     {
-        is >> f.i >> std::ws;
+        is >> f.i;
         for(unsigned int j = 0; j < f.long_lag; ++j)
-            is >> f.x[j] >> std::ws;
+            is >> std::ws >> f.x[j];
         return is;
     }
 
diff --git a/include/boost/random/mersenne_twister.hpp b/include/boost/random/mersenne_twister.hpp
index bd52724..f4a15d1 100644
--- a/include/boost/random/mersenne_twister.hpp
+++ b/include/boost/random/mersenne_twister.hpp
@@ -232,7 +232,7 @@ public:
                mersenne_twister_engine& mt)
     {
         for(std::size_t j = 0; j < mt.state_size; ++j)
-            is >> mt.x[j] >> std::ws;
+            is >> std::ws >> mt.x[j];
         // MSVC (up to 7.1) and Borland (up to 5.64) don't handle the template
         // value parameter "n" available from the class template scope, so use
         // the static constant with the same value
-- 
2.43.0


From 2c6708b49cd6ab0c9c96623b4f4135bbb54774e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:05 +0000
Subject: [PATCH 07/53] fix: mixmax: accept a saved state whose block is used
 up

---
 include/boost/random/mixmax.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/boost/random/mixmax.hpp b/include/boost/random/mixmax.hpp
index 3f09fc3..aebdfa1 100644
--- a/include/boost/random/mixmax.hpp
+++ b/include/boost/random/mixmax.hpp
@@ -145,7 +145,7 @@ public: // SEEDING FUNCTIONS
         in >> std::ws >> vec[j] ;
         sum=me.MOD_MERSENNE(sum+vec[j]);
     }
-    if (sum == savedsum && counter>0 && counter<Ndim){
+    if (sum == savedsum && counter>0 && counter<=Ndim){
         me.S.V=vec; me.S.counter = counter; me.S.sumtot=savedsum;
     }else{
         in.setstate(std::ios::failbit);
-- 
2.43.0


From 1d2ce25dfa563ec15cbc20824a1e0cd88663701b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:29 +0000
Subject: [PATCH 08/53] fix: splitmix64: read only its own number from a stream

---
 include/boost/random/splitmix64.hpp | 13 +------------
 1 file changed, 1 insertion(+), 12 deletions(-)

diff --git a/include/boost/random/splitmix64.hpp b/include/boost/random/splitmix64.hpp
index dd89ab5..7e86305 100644
--- a/include/boost/random/splitmix64.hpp
+++ b/include/boost/random/splitmix64.hpp
@@ -154,18 +154,7 @@ public:
     inline friend std::basic_istream<CharT,Traits>& operator>>(std::basic_istream<CharT,Traits>& ist,
                                                                splitmix64& e)
     {
-        std::string sstate;
-        CharT val;
-        while (ist >> val)
-        {
-            if (std::isdigit(val))
-            {
-                sstate.push_back(val);
-            }
-        }
-        
-        e.state_ = std::strtoull(sstate.c_str(), nullptr, 10);
-
+        ist >> e.state_;
         return ist;
     }
 
-- 
2.43.0


From f7996acbf15818e9dc25a8ad87d6700b83f599f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:29 +0000
Subject: [PATCH 09/53] fix: linear_congruential_engine::discard: handle
 multiplier 1 and power-of-two moduli

---
 include/boost/random/linear_congruential.hpp | 42 ++++++--------------
 1 file changed, 12 insertions(+), 30 deletions(-)

diff --git a/include/boost/random/linear_congruential.hpp b/include/boost/random/linear_congruential.hpp
index 62b05ec..6da673c 100644
--- a/include/boost/random/linear_congruential.hpp
+++ b/include/boost/random/linear_congruential.hpp
@@ -193,38 +193,20 @@ public:
     void discard(boost::uintmax_t z)
     {
         typedef const_mod<IntType, m> mod_type;
-        IntType b_inv = mod_type::invert(a-1);
-        IntType b_gcd = mod_type::mult(a-1, b_inv);
-        if(b_gcd == 1) {
-            IntType a_z = mod_type::pow(a, z);
-            _x = mod_type::mult_add(a_z, _x, 
-                mod_type::mult(mod_type::mult(c, b_inv), a_z - 1));
-        } else {
-            // compute (a^z - 1)*c % (b_gcd * m) / (b / b_gcd) * inv(b / b_gcd)
-            // we're storing the intermediate result / b_gcd
-            IntType a_zm1_over_gcd = 0;
-            IntType a_km1_over_gcd = (a - 1) / b_gcd;
-            boost::uintmax_t exponent = z;
-            while(exponent != 0) {
-                if(exponent % 2 == 1) {
-                    a_zm1_over_gcd =
-                        mod_type::mult_add(
-                            b_gcd,
-                            mod_type::mult(a_zm1_over_gcd, a_km1_over_gcd),
-                            mod_type::add(a_zm1_over_gcd, a_km1_over_gcd));
-                }
-                a_km1_over_gcd = mod_type::mult_add(
-                    b_gcd,
-                    mod_type::mult(a_km1_over_gcd, a_km1_over_gcd),
-                    mod_type::add(a_km1_over_gcd, a_km1_over_gcd));
-                exponent /= 2;
+        // x -> a_z*x + c_z is z steps, x -> a_k*x + c_k is 2^k steps.
+        IntType a_z = 1;
+        IntType c_z = 0;
+        IntType a_k = a;
+        IntType c_k = c;
+        for(; z != 0; z /= 2) {
+            if(z % 2 == 1) {
+                a_z = mod_type::mult(a_k, a_z);
+                c_z = mod_type::mult_add(a_k, c_z, c_k);
             }
-            
-            IntType a_z = mod_type::mult_add(b_gcd, a_zm1_over_gcd, 1);
-            IntType num = mod_type::mult(c, a_zm1_over_gcd);
-            b_inv = mod_type::invert((a-1)/b_gcd);
-            _x = mod_type::mult_add(a_z, _x, mod_type::mult(b_inv, num));
+            c_k = mod_type::mult_add(a_k, c_k, c_k);
+            a_k = mod_type::mult(a_k, a_k);
         }
+        _x = mod_type::mult_add(a_z, _x, c_z);
     }
 
     friend bool operator==(const linear_congruential_engine& x,
-- 
2.43.0


From 82d94019b18b092e79aa6e5a776cd9fc80feadb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:29 +0000
Subject: [PATCH 10/53] fix: xor_combine: min() and max() must bound the
 combined output

---
 include/boost/random/xor_combine.hpp | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/include/boost/random/xor_combine.hpp b/include/boost/random/xor_combine.hpp
index 312fdb8..90dbcb1 100644
--- a/include/boost/random/xor_combine.hpp
+++ b/include/boost/random/xor_combine.hpp
@@ -15,6 +15,7 @@
 #define BOOST_RANDOM_XOR_COMBINE_HPP
 
 #include <istream>
+#include <limits>
 #include <iosfwd>
 #include <cassert>
 #include <algorithm> // for std::min and std::max
@@ -136,10 +137,10 @@ public:
 
     /** Returns the smallest value that the generator can produce. */
     static BOOST_CONSTEXPR result_type min BOOST_PREVENT_MACRO_SUBSTITUTION ()
-    { return (URNG1::min)()<(URNG2::min)()?(URNG1::min)():(URNG2::min)(); }
+    { return 0; }
     /** Returns the largest value that the generator can produce. */
     static BOOST_CONSTEXPR result_type max BOOST_PREVENT_MACRO_SUBSTITUTION ()
-    { return (URNG1::max)()>(URNG2::max)()?(URNG1::max)():(URNG2::max)(); }
+    { return fill_bits(((URNG1::max)() << s1) | ((URNG2::max)() << s2), 1); }
 
     /**
      * Writes the textual representation of the generator to a @c std::ostream.
@@ -167,6 +168,13 @@ public:
     BOOST_RANDOM_DETAIL_INEQUALITY_OPERATOR(xor_combine_engine)
 
 private:
+    // sets all the bits below the highest set bit of x
+    static BOOST_CONSTEXPR result_type fill_bits(result_type x, int shift)
+    {
+        return shift >= std::numeric_limits<result_type>::digits ?
+            x : fill_bits(x | (x >> shift), 2 * shift);
+    }
+
     base1_type _rng1;
     base2_type _rng2;
 };
@@ -198,8 +206,8 @@ public:
     xor_combine(const URNG1 & rng1, const URNG2 & rng2)
       : base_type(rng1, rng2) { }
 
-    result_type min BOOST_PREVENT_MACRO_SUBSTITUTION () const { return (std::min)((this->base1().min)(), (this->base2().min)()); }
-    result_type max BOOST_PREVENT_MACRO_SUBSTITUTION () const { return (std::max)((this->base1().min)(), (this->base2().max)()); }
+    result_type min BOOST_PREVENT_MACRO_SUBSTITUTION () const { return (base_type::min)(); }
+    result_type max BOOST_PREVENT_MACRO_SUBSTITUTION () const { return (base_type::max)(); }
 };
 
 /// \endcond
-- 
2.43.0


From 61943d8a3ca123b20cba3a8f3b5b077eeafe14dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:29 +0000
Subject: [PATCH 11/53] fix: muldivmod: do not shift by the logarithm of zero
 when m stands for 2^64

---
 include/boost/random/detail/large_arithmetic.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/boost/random/detail/large_arithmetic.hpp b/include/boost/random/detail/large_arithmetic.hpp
index 66f6b4e..162b349 100644
--- a/include/boost/random/detail/large_arithmetic.hpp
+++ b/include/boost/random/detail/large_arithmetic.hpp
@@ -36,7 +36,9 @@ inline div_t muldivmod(boost::uintmax_t a, boost::uintmax_t b, boost::uintmax_t
     const ::boost::uintmax_t mask = (::boost::uintmax_t(1) << bits) - 1;
     typedef ::boost::uint_t<bits>::fast digit_t;
 
-    int shift = std::numeric_limits< ::boost::uintmax_t>::digits - 1
+    // m == 0 stands for 2^digits
+    int shift = m == 0 ? 0 :
+        std::numeric_limits< ::boost::uintmax_t>::digits - 1
         - detail::integer_log2(m);
 
     a <<= shift;
-- 
2.43.0


From 25190b15e139360eb3bc1573ed162698e3748a69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:29 +0000
Subject: [PATCH 12/53] fix: lagged_fibonacci_01_engine: reduce modulo 1
 exactly when w equals the mantissa width

---
 include/boost/random/lagged_fibonacci.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/boost/random/lagged_fibonacci.hpp b/include/boost/random/lagged_fibonacci.hpp
index 446a2ef..4d7a3f1 100644
--- a/include/boost/random/lagged_fibonacci.hpp
+++ b/include/boost/random/lagged_fibonacci.hpp
@@ -424,14 +424,14 @@ void lagged_fibonacci_01_engine<RealType, w, p, q>::fill()
     for(unsigned int j = 0; j < short_lag; ++j) {
         RealType t = x[j] + x[j+(long_lag-short_lag)];
         if(t >= RealType(1))
-            t -= RealType(1);
+            t = (x[j] - RealType(1)) + x[j+(long_lag-short_lag)];
         x[j] = t;
     }
     }
     for(unsigned int j = short_lag; j < long_lag; ++j) {
         RealType t = x[j] + x[j-short_lag];
         if(t >= RealType(1))
-            t -= RealType(1);
+            t = (x[j] - RealType(1)) + x[j-short_lag];
         x[j] = t;
     }
     i = 0;
-- 
2.43.0


From aa8cd527c9e497fa1c95079896fe79f6b3423b83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:46 +0000
Subject: [PATCH 13/53] fix: lagged_fibonacci: operator== must not depend on
 the position in the internal block

---
 include/boost/random/lagged_fibonacci.hpp | 24 +++++++++++++++++++++--
 1 file changed, 22 insertions(+), 2 deletions(-)

diff --git a/include/boost/random/lagged_fibonacci.hpp b/include/boost/random/lagged_fibonacci.hpp
index 4d7a3f1..6149081 100644
--- a/include/boost/random/lagged_fibonacci.hpp
+++ b/include/boost/random/lagged_fibonacci.hpp
@@ -165,7 +165,17 @@ public:
      * sequences of outputs.
      */
     BOOST_RANDOM_DETAIL_EQUALITY_OPERATOR(lagged_fibonacci_engine, x_, y_)
-    { return x_.i == y_.i && std::equal(x_.x, x_.x+long_lag, y_.x); }
+    {
+        if(x_.i == y_.i)
+            return std::equal(x_.x, x_.x+long_lag, y_.x);
+        // At different positions of their blocks: long_lag consecutive
+        // outputs determine the state.
+        lagged_fibonacci_engine x1(x_), y1(y_);
+        for(unsigned int j = 0; j < long_lag; ++j)
+            if(x1() != y1())
+                return false;
+        return true;
+    }
 
     /**
      * Returns true if the two generators will produce different
@@ -380,7 +390,17 @@ public:
      * sequences of outputs.
      */
     BOOST_RANDOM_DETAIL_EQUALITY_OPERATOR(lagged_fibonacci_01_engine, x_, y_)
-    { return x_.i == y_.i && std::equal(x_.x, x_.x+long_lag, y_.x); }
+    {
+        if(x_.i == y_.i)
+            return std::equal(x_.x, x_.x+long_lag, y_.x);
+        // At different positions of their blocks: long_lag consecutive
+        // outputs determine the state.
+        lagged_fibonacci_01_engine x1(x_), y1(y_);
+        for(unsigned int j = 0; j < long_lag; ++j)
+            if(x1() != y1())
+                return false;
+        return true;
+    }
 
     /**
      * Returns true if the two generators will produce different
-- 
2.43.0


From b8d2059fb937de34981c194b0a6f90fbac1dadcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:45 +0000
Subject: [PATCH 14/53] fix: muldivmod: do not lose the high digit of a partial
 remainder

---
 include/boost/random/detail/large_arithmetic.hpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/include/boost/random/detail/large_arithmetic.hpp b/include/boost/random/detail/large_arithmetic.hpp
index 162b349..bc4e51c 100644
--- a/include/boost/random/detail/large_arithmetic.hpp
+++ b/include/boost/random/detail/large_arithmetic.hpp
@@ -80,13 +80,14 @@ inline div_t muldivmod(boost::uintmax_t a, boost::uintmax_t b, boost::uintmax_t
 
         digit_t q = digit_t((product[i] == m_[1]) ? mask : temp / m_[1]);
 
-        ::boost::uintmax_t rem =
-            ((temp - ::boost::uintmax_t(q) * m_[1]) << bits) + product[i - 2];
+        ::boost::uintmax_t high = temp - ::boost::uintmax_t(q) * m_[1];
+        ::boost::uintmax_t rem = (high << bits) + product[i - 2];
 
         ::boost::uintmax_t diff = m_[0] * ::boost::uintmax_t(q);
 
         int error = 0;
-        if(diff > rem) {
+        // if high does not fit in a digit, the true remainder exceeds diff
+        if(high <= mask && diff > rem) {
             if(diff - rem > m) {
                 error = 2;
             } else {
-- 
2.43.0


From fc3812f8493df899a3801cea4214e26ce8a04cbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:19 +0000
Subject: [PATCH 15/53] fix: seed_seq::generate: an empty range is valid and
 writes nothing

---
 include/boost/random/seed_seq.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/boost/random/seed_seq.hpp b/include/boost/random/seed_seq.hpp
index b0b1de2..60500e0 100644
--- a/include/boost/random/seed_seq.hpp
+++ b/include/boost/random/seed_seq.hpp
@@ -65,6 +65,7 @@ public:
     void generate(Iter first, Iter last) const
     {
         typedef typename std::iterator_traits<Iter>::value_type value_type;
+        if(first == last) return;
         std::fill(first, last, static_cast<value_type>(0x8b8b8b8bu));
         std::size_t s = v.size();
         std::size_t n = last - first;
-- 
2.43.0


From c2d140eaaff17bbe3de1f13443294137dbe72fd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:19 +0000
Subject: [PATCH 16/53] fix: seed_seq::generate: reduce every word modulo 2^32
 for wider element types

---
 include/boost/random/seed_seq.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/boost/random/seed_seq.hpp b/include/boost/random/seed_seq.hpp
index 60500e0..134f92f 100644
--- a/include/boost/random/seed_seq.hpp
+++ b/include/boost/random/seed_seq.hpp
@@ -87,7 +87,7 @@ public:
             value_type r2 = static_cast<value_type>(r1 +
                 ((k == 0) ? s :
                  (k <= s) ? k % n + v[k - 1] :
-                 (k % n)));
+                 (k % n))) & mask;
             *(first + (k+p)%n) = (*(first + (k+p)%n) + r1) & mask;
             *(first + (k+q)%n) = (*(first + (k+q)%n) + r2) & mask;
             *(first + k%n) = r2;
@@ -98,7 +98,7 @@ public:
                 & mask);
             r3 = r3 ^ (r3 >> 27);
             r3 = (r3 * 1566083941u) & mask;
-            value_type r4 = static_cast<value_type>(r3 - k%n);
+            value_type r4 = static_cast<value_type>(r3 - k%n) & mask;
             *(first + (k+p)%n) ^= r3;
             *(first + (k+q)%n) ^= r4;
             *(first + k%n) = r4;
-- 
2.43.0


From 14f0d9e9ba6cac7542529a6f7f29293ee8cdb65f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:58 +0000
Subject: [PATCH 17/53] fix: independent_bits_engine: do not split digits below
 one bit for small base ranges

---
 include/boost/random/independent_bits.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/boost/random/independent_bits.hpp b/include/boost/random/independent_bits.hpp
index 72a8ed7..9d3cdb6 100644
--- a/include/boost/random/independent_bits.hpp
+++ b/include/boost/random/independent_bits.hpp
@@ -150,8 +150,9 @@ public:
         base_unsigned y0, y1;
         base_unsigned y0_mask, y1_mask;
         calc_params(n, range, w0, n0, y0, y1, y0_mask, y1_mask);
-        if(base_unsigned(range - y0 + 1) > y0 / n) {
-            // increment n and try again.
+        if(n < w && base_unsigned(range - y0 + 1) > y0 / n) {
+            // increment n and try again.  (With n == w every base value
+            // contributes a single bit already.)
             ++n;
             calc_params(n, range, w0, n0, y0, y1, y0_mask, y1_mask);
         }
-- 
2.43.0


From 8263626871862bb981109fb8871f519952245c5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:51 +0000
Subject: [PATCH 18/53] fix: engine generate: an empty range is valid and
 writes nothing

---
 include/boost/random/detail/seed_impl.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/boost/random/detail/seed_impl.hpp b/include/boost/random/detail/seed_impl.hpp
index 5e79582..dcb7cc6 100644
--- a/include/boost/random/detail/seed_impl.hpp
+++ b/include/boost/random/detail/seed_impl.hpp
@@ -85,6 +85,7 @@ template<class Engine, class Iter>
 void generate_from_real(Engine& eng, Iter begin, Iter end)
 {
     using std::fmod;
+    if(begin == end) return;
     typedef typename Engine::result_type RealType;
     const int Bits = detail::generator_bits<Engine>::value();
     int remaining_bits = 0;
@@ -131,6 +132,7 @@ void generate_from_real(Engine& eng, Iter begin, Iter end)
 template<class Engine, class Iter>
 void generate_from_int(Engine& eng, Iter begin, Iter end)
 {
+    if(begin == end) return;
     typedef typename Engine::result_type IntType;
     typedef typename boost::random::traits::make_unsigned<IntType>::type unsigned_type;
     int remaining_bits = 0;
-- 
2.43.0


From cd91e5984dc6c382e318cd8ff4582bcf362f0266 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:08 +0000
Subject: [PATCH 19/53] fix: uniform_int_distribution: add the lower bound when
 the range is a power of the engine's range

---
 include/boost/random/uniform_int_distribution.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/boost/random/uniform_int_distribution.hpp b/include/boost/random/uniform_int_distribution.hpp
index 8a3ea7b..6acff25 100644
--- a/include/boost/random/uniform_int_distribution.hpp
+++ b/include/boost/random/uniform_int_distribution.hpp
@@ -120,7 +120,7 @@ T generate_uniform_int(
           if(mult * range_type(brange) == range - mult + 1) {
               // The destination range is an integer power of
               // the generator's range.
-              return(result);
+              return random::detail::add<range_type, result_type>()(result, min_value);
           }
 
           // Postcondition: mult <= range
-- 
2.43.0


From 0bf230d5dee4aa2a5d4127848b952831c7fe3893 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:17 +0000
Subject: [PATCH 20/53] fix: bernoulli_distribution: do not overflow on engines
 with a wide signed range

---
 include/boost/random/bernoulli_distribution.hpp | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/include/boost/random/bernoulli_distribution.hpp b/include/boost/random/bernoulli_distribution.hpp
index d66bae4..adc2ced 100644
--- a/include/boost/random/bernoulli_distribution.hpp
+++ b/include/boost/random/bernoulli_distribution.hpp
@@ -21,6 +21,8 @@
 #include <boost/assert.hpp>
 #include <boost/random/detail/config.hpp>
 #include <boost/random/detail/operators.hpp>
+#include <boost/random/detail/signed_unsigned_tools.hpp>
+#include <boost/type_traits/is_integral.hpp>
 
 namespace boost {
 namespace random {
@@ -140,7 +142,7 @@ public:
         if(_p == RealType(0))
             return false;
         else
-            return RealType(eng() - (eng.min)()) <= _p * RealType((eng.max)()-(eng.min)());
+            return generate(eng, boost::is_integral<typename Engine::result_type>());
     }
 
     /**
@@ -185,6 +187,19 @@ public:
     BOOST_RANDOM_DETAIL_INEQUALITY_OPERATOR(bernoulli_distribution)
 
 private:
+    template<class Engine>
+    bool generate(Engine& eng, boost::true_type /** is_integral<Engine::result_type> */) const
+    {
+        // the difference of two signed values may only fit the unsigned type
+        detail::subtract<typename Engine::result_type> diff;
+        return RealType(diff(eng(), (eng.min)())) <= _p * RealType(diff((eng.max)(), (eng.min)()));
+    }
+    template<class Engine>
+    bool generate(Engine& eng, boost::false_type /** is_integral<Engine::result_type> */) const
+    {
+        return RealType(eng() - (eng.min)()) <= _p * RealType((eng.max)()-(eng.min)());
+    }
+
     RealType _p;
 };
 
-- 
2.43.0


From ef6334a33224d09a5e7f01347ecf71e1ead10623 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:08 +0000
Subject: [PATCH 21/53] fix: generate_canonical: compute the engine's range
 exactly

---
 include/boost/random/generate_canonical.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/boost/random/generate_canonical.hpp b/include/boost/random/generate_canonical.hpp
index 5f45b4e..81c5794 100644
--- a/include/boost/random/generate_canonical.hpp
+++ b/include/boost/random/generate_canonical.hpp
@@ -33,7 +33,7 @@ RealType generate_canonical_impl(URNG& g, boost::true_type /*is_integral*/)
     using std::pow;
     typedef typename URNG::result_type base_result;
     std::size_t digits = std::numeric_limits<RealType>::digits;
-    RealType R = RealType((g.max)()) - RealType((g.min)()) + 1;
+    RealType R = RealType(detail::subtract<base_result>()((g.max)(), (g.min)())) + 1;
     RealType mult = R;
     RealType limit =
         pow(RealType(2),
-- 
2.43.0


From eb3000718b35b56ba0fd2c62ca12076b9a5c1741 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:08 +0000
Subject: [PATCH 22/53] fix: generate_canonical: scale the first value of a
 floating-point engine

---
 include/boost/random/generate_canonical.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/boost/random/generate_canonical.hpp b/include/boost/random/generate_canonical.hpp
index 81c5794..7f299ed 100644
--- a/include/boost/random/generate_canonical.hpp
+++ b/include/boost/random/generate_canonical.hpp
@@ -60,7 +60,7 @@ RealType generate_canonical_impl(URNG& g, boost::false_type /*is_integral*/)
     RealType R = pow(RealType(2), RealType(engine_bits));
     RealType mult = R;
     RealType limit = pow(RealType(2), RealType(b));
-    RealType S = RealType(g() - (g.min)());
+    RealType S(floor((RealType(g()) - RealType((g.min)())) * R));
     while(mult < limit) {
         RealType inc(floor((RealType(g()) - RealType((g.min)())) * R));
         S += inc * mult;
-- 
2.43.0


From 41840f4186c6e01720de7dd020a1e51621c30fe0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:08 +0000
Subject: [PATCH 23/53] fix: uniform_01: do not overflow on engines with a wide
 signed range

---
 include/boost/random/uniform_01.hpp | 24 ++++++++++++++++++++----
 1 file changed, 20 insertions(+), 4 deletions(-)

diff --git a/include/boost/random/uniform_01.hpp b/include/boost/random/uniform_01.hpp
index 37258f5..e276b36 100644
--- a/include/boost/random/uniform_01.hpp
+++ b/include/boost/random/uniform_01.hpp
@@ -22,6 +22,8 @@
 #include <boost/static_assert.hpp>
 #include <boost/random/detail/config.hpp>
 #include <boost/random/detail/ptr_helper.hpp>
+#include <boost/random/detail/signed_unsigned_tools.hpp>
+#include <boost/type_traits/is_integral.hpp>
 
 #include <boost/random/detail/disable_warnings.hpp>
 
@@ -77,6 +79,20 @@ public:
 
 namespace detail {
 
+// Computes hi - lo as a RealType.  The difference of two built-in signed
+// integers may only fit in the corresponding unsigned type.
+template<class RealType, class T>
+RealType uniform_01_difference(T hi, T lo, boost::true_type /* is_integral */)
+{
+  return RealType(subtract<T>()(hi, lo));
+}
+
+template<class RealType, class T>
+RealType uniform_01_difference(T hi, T lo, boost::false_type /* is_integral */)
+{
+  return RealType(T(hi - lo));
+}
+
 template<class RealType>
 class new_uniform_01
 {
@@ -93,9 +109,9 @@ public:
     for (;;) {
       typedef typename Engine::result_type base_result;
       result_type factor = result_type(1) /
-              (result_type(base_result((eng.max)()-(eng.min)())) +
+              (uniform_01_difference<result_type, base_result>((eng.max)(), (eng.min)(), boost::is_integral<base_result>()) +
                result_type(std::numeric_limits<base_result>::is_integer ? 1 : 0));
-      result_type result = result_type(base_result(eng() - (eng.min)())) * factor;
+      result_type result = uniform_01_difference<result_type, base_result>(eng(), (eng.min)(), boost::is_integral<base_result>()) * factor;
       if (result < result_type(1))
         return result;
     }
@@ -135,7 +151,7 @@ public:
   explicit backward_compatible_uniform_01(typename traits::rvalue_type rng)
     : _rng(rng),
       _factor(result_type(1) /
-              (result_type((base().max)()-(base().min)()) +
+              (uniform_01_difference<result_type, base_result>((base().max)(), (base().min)(), boost::is_integral<base_result>()) +
                result_type(std::numeric_limits<base_result>::is_integer ? 1 : 0)))
   {
   }
@@ -149,7 +165,7 @@ public:
 
   result_type operator()() {
     for (;;) {
-      result_type result = result_type(base()() - (base().min)()) * _factor;
+      result_type result = uniform_01_difference<result_type, base_result>(base()(), (base().min)(), boost::is_integral<base_result>()) * _factor;
       if (result < result_type(1))
         return result;
     }
-- 
2.43.0


From 2051d34b8ac928cd696df09e6f28de237cb144d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:02 +0000
Subject: [PATCH 24/53] fix: generate_canonical: results rounded past 1 stay
 below 1

---
 include/boost/random/generate_canonical.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/boost/random/generate_canonical.hpp b/include/boost/random/generate_canonical.hpp
index 7f299ed..fc2ea63 100644
--- a/include/boost/random/generate_canonical.hpp
+++ b/include/boost/random/generate_canonical.hpp
@@ -81,9 +81,9 @@ RealType generate_canonical(URNG& g)
     RealType result = detail::generate_canonical_impl<RealType, bits>(
         g, boost::random::traits::is_integral<typename URNG::result_type>());
     BOOST_ASSERT(result >= 0);
-    BOOST_ASSERT(result <= 1);
-    if(result == 1) {
-        result -= std::numeric_limits<RealType>::epsilon() / 2;
+    // rounding in the sums and products may carry the result to 1 or just past it
+    if(result >= 1) {
+        result = 1 - std::numeric_limits<RealType>::epsilon() / 2;
         BOOST_ASSERT(result != 1);
     }
     return result;
-- 
2.43.0


From 7a20cf3baaaf525be624d3a728df25d94b6ebbab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:54 +0000
Subject: [PATCH 25/53] fix: discrete_distribution: detect overflow of the sum
 of integral weights

---
 include/boost/random/discrete_distribution.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/boost/random/discrete_distribution.hpp b/include/boost/random/discrete_distribution.hpp
index c6c25fe..fdf539e 100644
--- a/include/boost/random/discrete_distribution.hpp
+++ b/include/boost/random/discrete_distribution.hpp
@@ -113,7 +113,7 @@ struct integer_alias_table {
                 iter = weights.begin(), end = weights.end();
             iter != end; ++iter)
         {
-            if((std::numeric_limits<WeightType>::max)() - result > *iter) {
+            if((std::numeric_limits<WeightType>::max)() - result < *iter) {
                 return static_cast<WeightType>(0);
             }
             result += *iter;
-- 
2.43.0


From 87ef0e2f7dfc9b3f006d7c2a791b9537e5378f3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:55 +0000
Subject: [PATCH 26/53] fix: discrete_distribution: a per-call draw never
 returns an index of zero weight

---
 include/boost/random/discrete_distribution.hpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/boost/random/discrete_distribution.hpp b/include/boost/random/discrete_distribution.hpp
index fdf539e..09de5ac 100644
--- a/include/boost/random/discrete_distribution.hpp
+++ b/include/boost/random/discrete_distribution.hpp
@@ -464,8 +464,12 @@ public:
             }
             // This shouldn't be reachable, but round-off error
             // can prevent any match from being found when val is
-            // very close to 1.
-            return static_cast<IntType>(parm._probabilities.size() - 1);
+            // very close to 1.  Never return an index of zero weight.
+            result = parm._probabilities.size() - 1;
+            while(result > 0 && parm._probabilities[result] == WeightType(0)) {
+                --result;
+            }
+            return static_cast<IntType>(result);
         } else {
             // WeightType is integral and sum(parm._probabilities)
             // would overflow.  Just use the easy solution.
-- 
2.43.0


From 6ec5bee685babccfd4e340512d482af88f7dddd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:07 +0000
Subject: [PATCH 27/53] fix: piecewise_constant_distribution::densities:
 normalise weights of any type

---
 include/boost/random/piecewise_constant_distribution.hpp | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/include/boost/random/piecewise_constant_distribution.hpp b/include/boost/random/piecewise_constant_distribution.hpp
index 488f41c..a159aaf 100644
--- a/include/boost/random/piecewise_constant_distribution.hpp
+++ b/include/boost/random/piecewise_constant_distribution.hpp
@@ -391,11 +391,7 @@ public:
      */
     std::vector<RealType> densities() const
     {
-        std::vector<RealType> result(_bins.probabilities());
-        for(std::size_t i = 0; i < result.size(); ++i) {
-            result[i] /= (_intervals[i+1] - _intervals[i]);
-        }
-        return(result);
+        return param().densities();
     }
     /**  Returns a vector containing the interval boundaries. */
     std::vector<RealType> intervals() const { return _intervals; }
-- 
2.43.0


From f2b66c158c0dddad0c6a92d4fe2c3c8e7bb81a7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:43 +0000
Subject: [PATCH 28/53] fix: piecewise_constant_distribution: range
 constructors with fewer than two boundaries are the default

---
 include/boost/random/piecewise_constant_distribution.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/boost/random/piecewise_constant_distribution.hpp b/include/boost/random/piecewise_constant_distribution.hpp
index a159aaf..9cf4111 100644
--- a/include/boost/random/piecewise_constant_distribution.hpp
+++ b/include/boost/random/piecewise_constant_distribution.hpp
@@ -134,6 +134,7 @@ public:
                 _intervals.clear();
                 _intervals.push_back(RealType(0));
                 _intervals.push_back(RealType(1));
+                _weights.clear();
                 _weights.push_back(WeightType(1));
             }
         }
@@ -321,6 +322,7 @@ public:
         _intervals(boost::begin(intervals_arg), boost::end(intervals_arg))
     {
         if(_intervals.size() < 2) {
+            _bins = discrete_distribution<std::size_t, WeightType>();
             _intervals.clear();
             _intervals.push_back(RealType(0));
             _intervals.push_back(RealType(1));
-- 
2.43.0


From 1b6399f52b2fb64a128583122ad1bda55821c209 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:26 +0000
Subject: [PATCH 29/53] fix: generate_int_float_pair: take a whole value when
 the fraction needs one

---
 include/boost/random/detail/int_float_pair.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/boost/random/detail/int_float_pair.hpp b/include/boost/random/detail/int_float_pair.hpp
index 7ec2e26..eb47148 100644
--- a/include/boost/random/detail/int_float_pair.hpp
+++ b/include/boost/random/detail/int_float_pair.hpp
@@ -88,7 +88,7 @@ std::pair<RealType, int> generate_int_float_pair(Engine& eng, boost::true_type)
     }
     if (m - w%m < digits)
     {
-        const std::size_t remaining = (digits - m + w%m) % m;
+        const std::size_t remaining = (digits - m + w%m - 1) % m + 1;
         base_unsigned u = generate_one_digit(eng, m);
         r += u & ((base_unsigned(2) << (remaining - 1)) - 1);
         const RealType mult = RealType(0.5)/RealType(base_unsigned(1) << (remaining - 1));
-- 
2.43.0


From c5cfd7b2c566724a563be1da560df303f290dba5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:51 +0000
Subject: [PATCH 30/53] fix: hyperexponential_distribution: normalise the
 probabilities of parameters made from a rate iterator range

---
 include/boost/random/hyperexponential_distribution.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/boost/random/hyperexponential_distribution.hpp b/include/boost/random/hyperexponential_distribution.hpp
index 3a71c9e..48c59ea 100644
--- a/include/boost/random/hyperexponential_distribution.hpp
+++ b/include/boost/random/hyperexponential_distribution.hpp
@@ -336,6 +336,8 @@ class hyperexponential_distribution
         : probs_(std::distance(rate_first, rate_last), 1), // will be normalized below
           rates_(rate_first, rate_last)
         {
+            hyperexp_detail::normalize(probs_);
+
             BOOST_ASSERT(probs_.size() == rates_.size());
         }
 
-- 
2.43.0


From fca37148bf4103951370e9356a234d56c72d1fe5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:32 +0000
Subject: [PATCH 31/53] fix: binomial_distribution: inversion never returns
 more than t

---
 include/boost/random/binomial_distribution.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/boost/random/binomial_distribution.hpp b/include/boost/random/binomial_distribution.hpp
index 78d1a12..f1e00ee 100644
--- a/include/boost/random/binomial_distribution.hpp
+++ b/include/boost/random/binomial_distribution.hpp
@@ -375,7 +375,8 @@ private:
         RealType r = _u.q_n;
         RealType u = uniform_01<RealType>()(urng);
         IntType x = 0;
-        while(u > r) {
+        // Round-off error can leave u above the sum of all the probabilities.
+        while(u > r && x < t) {
             u = u - r;
             ++x;
             RealType r1 = ((a/x) - s) * r;
-- 
2.43.0


From 00ae279b7e849e6bf9e58fd16d4875957df7d720 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:32 +0000
Subject: [PATCH 32/53] fix: negative_binomial_distribution: k == 0, p == 1 and
 a vanishing mean give 0

---
 include/boost/random/negative_binomial_distribution.hpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/include/boost/random/negative_binomial_distribution.hpp b/include/boost/random/negative_binomial_distribution.hpp
index cbe26fa..047105d 100644
--- a/include/boost/random/negative_binomial_distribution.hpp
+++ b/include/boost/random/negative_binomial_distribution.hpp
@@ -116,8 +116,13 @@ public:
     template<class URNG>
     IntType operator()(URNG& urng) const
     {
+        // No failures at all: gamma_distribution and poisson_distribution
+        // have no such parameters.
+        if(_k == 0 || _p == 1) return 0;
         gamma_distribution<RealType> gamma(_k, (1-_p)/_p);
-        poisson_distribution<IntType, RealType> poisson(gamma(urng));
+        RealType mean = gamma(urng);
+        if(mean <= 0) return 0;
+        poisson_distribution<IntType, RealType> poisson(mean);
         return poisson(urng);
     }
     
-- 
2.43.0


From bec7904b6164d86f8251444b44fdf91280c2ddfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:02 +0000
Subject: [PATCH 33/53] fix: sobol_engine with fewer bits than a polynomial's
 degree wrote past its table

---
 include/boost/random/sobol.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/boost/random/sobol.hpp b/include/boost/random/sobol.hpp
index 042b3ba..128c5be 100644
--- a/include/boost/random/sobol.hpp
+++ b/include/boost/random/sobol.hpp
@@ -65,7 +65,7 @@ public:
       const unsigned degree = qrng_detail::msb(poly); // integer log2(poly)
 
       // set initial values of m from table
-      for (unsigned k = 0; k != degree; ++k)
+      for (unsigned k = 0; k != degree && k != bit_count; ++k)
         cj[dimension*k + dim] = SobolTables::minit(dim-1, k);
 
       // Calculate remaining elements for this dimension,
-- 
2.43.0


From ef94896d51ac02b7e95be12c186050381806c884 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:02 +0000
Subject: [PATCH 34/53] fix: niederreiter_base2_engine truncated the last power
 of the polynomial

---
 include/boost/random/niederreiter_base2.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/boost/random/niederreiter_base2.hpp b/include/boost/random/niederreiter_base2.hpp
index 5f05850..d519839 100644
--- a/include/boost/random/niederreiter_base2.hpp
+++ b/include/boost/random/niederreiter_base2.hpp
@@ -124,7 +124,7 @@ public:
       }
 
       const unsigned degree = qrng_detail::msb(poly); // integer log2(poly)
-      const unsigned space_required = degree * ((bit_count / degree) + 1); // ~ degree + bit_count
+      const unsigned space_required = degree * ((bit_count / degree) + 1) + 1; // ~ degree + bit_count
 
       v.resize(degree + bit_count - 1);
 
-- 
2.43.0


From fda142443eabec100a681ac40d48775e887de7e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:02 +0000
Subject: [PATCH 35/53] fix: faure_engine coordinates could be rounded up to
 one

---
 include/boost/random/faure.hpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/include/boost/random/faure.hpp b/include/boost/random/faure.hpp
index 4301c30..3926600 100644
--- a/include/boost/random/faure.hpp
+++ b/include/boost/random/faure.hpp
@@ -12,6 +12,7 @@
 #include <boost/random/detail/qrng_base.hpp>
 
 #include <cmath>
+#include <limits>
 #include <vector>
 #include <algorithm>
 
@@ -142,7 +143,7 @@ struct binomial_coefficients
         qs_pow = fr::integer_pow(static_cast<size_type>(qs_base), ilog);
       }
 
-      *first = compute_recip(seq, ytemp.rbegin());
+      *first = below_one(compute_recip(seq, ytemp.rbegin()));
 
       // Find other components using the Faure method.
       ++first;
@@ -162,11 +163,19 @@ struct binomial_coefficients
           r *= static_cast<RealType>(qs_base);
           *first += ytemp[static_cast<std::size_t>(i)] / r;
         }
+        *first = below_one(*first);
       }
     }
   }
 
 private:
+  // All elements are less than one, but the sum may be rounded up to one.
+  inline static RealType below_one(RealType x)
+  {
+    const RealType largest = RealType(1) - std::numeric_limits<RealType>::epsilon() / 2;
+    return x < largest ? x : largest;
+  }
+
   inline static size_type size_hint(size_type n)
   {
     return n * (n + 1) / 2;
-- 
2.43.0


From 315d9829845bf9f239708937f405b750cc2bfea3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:02 +0000
Subject: [PATCH 36/53] fix: quasi-random discard of 2^64-1 in dimension one
 was ignored

---
 include/boost/random/detail/qrng_base.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/boost/random/detail/qrng_base.hpp b/include/boost/random/detail/qrng_base.hpp
index 5eeacfb..9b063d0 100644
--- a/include/boost/random/detail/qrng_base.hpp
+++ b/include/boost/random/detail/qrng_base.hpp
@@ -116,7 +116,8 @@ public:
 
     // Avoid overdiscarding by branchlessly correcting the triple
     // (D, S + 1, 0) to (D, S, D) (see equality operator)
-    const bool corr = (!carry) & static_cast<bool>(vec_n);
+    // (vec_n may have wrapped around to zero, but then z is not zero.)
+    const bool corr = (!carry) & ((z != 0) | (curr_elem != 0));
 
     // Discards vec_n (with correction) consecutive s-dimensional vectors
     discard_vector(vec_n - static_cast<boost::uintmax_t>(corr));
-- 
2.43.0


From 623920a770b4a0cb82100af5f6b01b76fd95cafe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:02 +0000
Subject: [PATCH 37/53] fix: reading a quasi-random generator of another
 dimension left stale state

---
 include/boost/random/detail/qrng_base.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/boost/random/detail/qrng_base.hpp b/include/boost/random/detail/qrng_base.hpp
index 9b063d0..31d1fc9 100644
--- a/include/boost/random/detail/qrng_base.hpp
+++ b/include/boost/random/detail/qrng_base.hpp
@@ -160,6 +160,8 @@ public:
       {
         s.lattice.resize(dim);
         s.quasi_state.resize(dim);
+        // The saved state belongs to the old dimension
+        s.derived().seed();
       }
       // Fast-forward to the correct state
       s.derived().seed(seed);
-- 
2.43.0


From ddf477ccb0557f0289a23077c30ddde6955403ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:23 +0000
Subject: [PATCH 38/53] fix: extreme_value_distribution returned -infinity for
 the engine value zero

---
 include/boost/random/extreme_value_distribution.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/boost/random/extreme_value_distribution.hpp b/include/boost/random/extreme_value_distribution.hpp
index 419c3da..c78fb3f 100644
--- a/include/boost/random/extreme_value_distribution.hpp
+++ b/include/boost/random/extreme_value_distribution.hpp
@@ -96,7 +96,11 @@ public:
     RealType operator()(URNG& urng) const
     {
         using std::log;
-        return _a - log(-log(uniform_01<RealType>()(urng))) * _b;
+        RealType u;
+        do {
+            u = uniform_01<RealType>()(urng);
+        } while(u == 0);
+        return _a - log(-log(u)) * _b;
     }
 
     /**
-- 
2.43.0


From f81d989b1657b3f919b3b7f9e1ae2bfc5c7e7597 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:23 +0000
Subject: [PATCH 39/53] fix: triangle_distribution could round just below its
 lower bound

---
 include/boost/random/triangle_distribution.hpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/include/boost/random/triangle_distribution.hpp b/include/boost/random/triangle_distribution.hpp
index 6d37e2b..05f1096 100644
--- a/include/boost/random/triangle_distribution.hpp
+++ b/include/boost/random/triangle_distribution.hpp
@@ -162,10 +162,15 @@ public:
     {
         using std::sqrt;
         result_type u = uniform_01<result_type>()(eng);
+        result_type result;
         if( u <= q1 )
-            return _a + p1*sqrt(u);
+            result = _a + p1*sqrt(u);
         else
-        return _c - d3*sqrt(d2*u-d1);
+            result = _c - d3*sqrt(d2*u-d1);
+        // round-off error must not leave the range
+        if( result < _a ) return _a;
+        if( result > _c ) return _c;
+        return result;
     }
 
     /**
-- 
2.43.0


From 39979741128c3e12e237b50c44039fb7470a4ae0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:23 +0000
Subject: [PATCH 40/53] fix: poisson_distribution could loop for ever or return
 a value outside the range of its type

---
 include/boost/random/poisson_distribution.hpp | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/include/boost/random/poisson_distribution.hpp b/include/boost/random/poisson_distribution.hpp
index 1281a7d..6c61703 100644
--- a/include/boost/random/poisson_distribution.hpp
+++ b/include/boost/random/poisson_distribution.hpp
@@ -295,6 +295,11 @@ private:
             }
 
             RealType k = floor((2*_u._ptrd.a/us + _u._ptrd.b)*u+_mean+0.445);
+            // k must be representable (v can be zero, so the tests below
+            // do not reject every large k)
+            if(k >= static_cast<RealType>((std::numeric_limits<IntType>::max)()) + 1) {
+                continue;
+            }
             v = v*_u._ptrd.inv_alpha/(_u._ptrd.a/(us*us) + _u._ptrd.b);
 
             RealType log_sqrt_2pi = 0.91893853320467267;
@@ -326,7 +331,14 @@ private:
         while(u > p) {
             u = u - p;
             ++x;
-            p = _mean * p / x;
+            RealType p1 = _mean * p / x;
+            // Round-off error can leave u above the sum of all the
+            // probabilities.  Once they are decreasing and negligible
+            // there is nothing left to subtract.
+            if(p1 < std::numeric_limits<RealType>::epsilon() && p1 < p) {
+                break;
+            }
+            p = p1;
         }
         return x;
     }
-- 
2.43.0


From f5cc464c2ceb4b8d9144a2f88b362f96effecc97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:23 +0000
Subject: [PATCH 41/53] fix: gamma_distribution accepted candidates of zero
 density

---
 include/boost/random/gamma_distribution.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/boost/random/gamma_distribution.hpp b/include/boost/random/gamma_distribution.hpp
index c9bda4c..00330c6 100644
--- a/include/boost/random/gamma_distribution.hpp
+++ b/include/boost/random/gamma_distribution.hpp
@@ -177,7 +177,7 @@ public:
                     + _alpha-result_type(1);
                 if(x <= result_type(0))
                     continue;
-                if(uniform_01<RealType>()(eng) >
+                if(uniform_01<RealType>()(eng) >=
                     (result_type(1)+y*y) * exp((_alpha-result_type(1))
                                                *log(x/(_alpha-result_type(1)))
                                                - sqrt(result_type(2)*_alpha
-- 
2.43.0


From bf2023fd5bc5df3ab73701990236b288d6276c95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:23 +0000
Subject: [PATCH 42/53] fix: beta_distribution returned NaN when both gamma
 variates vanish

---
 include/boost/random/beta_distribution.hpp | 23 ++++++++++++++++++++++
 1 file changed, 23 insertions(+)

diff --git a/include/boost/random/beta_distribution.hpp b/include/boost/random/beta_distribution.hpp
index 145bf97..a9da748 100644
--- a/include/boost/random/beta_distribution.hpp
+++ b/include/boost/random/beta_distribution.hpp
@@ -15,9 +15,11 @@
 
 #include <istream>
 #include <iosfwd>
+#include <boost/config/no_tr1/cmath.hpp>
 #include <boost/assert.hpp>
 #include <boost/random/detail/operators.hpp>
 #include <boost/random/gamma_distribution.hpp>
+#include <boost/random/uniform_01.hpp>
 
 namespace boost {
 namespace random {
@@ -103,6 +105,11 @@ public:
     {
         RealType a = gamma_distribution<RealType>(_alpha, RealType(1.0))(urng);
         RealType b = gamma_distribution<RealType>(_beta, RealType(1.0))(urng);
+        if(a + b == 0) {
+            // Both variates vanished (or underflowed), but their ratio
+            // is independent of their sum.
+            return generate_johnk(urng);
+        }
         return a / (a + b);
     }
 
@@ -174,6 +181,22 @@ public:
     BOOST_RANDOM_DETAIL_INEQUALITY_OPERATOR(beta_distribution)
 
 private:
+    // Johnk's method, in logarithms so that it cannot underflow.
+    template<class URNG>
+    RealType generate_johnk(URNG& urng) const
+    {
+        using std::exp;
+        using std::log;
+        uniform_01<RealType> uniform;
+        for(;;) {
+            RealType x = log(1 - uniform(urng)) / _alpha;
+            RealType y = log(1 - uniform(urng)) / _beta;
+            if(exp(x) + exp(y) <= 1) {
+                return 1 / (1 + exp(y - x));
+            }
+        }
+    }
+
     RealType _alpha;
     RealType _beta;
 };
-- 
2.43.0


From c89ac033472e77eba78a0fa51374c9407271f505 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:23 +0000
Subject: [PATCH 43/53] fix: student_t_distribution divided by zero

---
 include/boost/random/student_t_distribution.hpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/include/boost/random/student_t_distribution.hpp b/include/boost/random/student_t_distribution.hpp
index e28b0e3..57b454d 100644
--- a/include/boost/random/student_t_distribution.hpp
+++ b/include/boost/random/student_t_distribution.hpp
@@ -96,7 +96,13 @@ public:
     RealType operator()(URNG& urng)
     {
         using std::sqrt;
-        return _normal(urng) / sqrt(_chi_squared(urng) / n());
+        RealType z = _normal(urng);
+        RealType x = _chi_squared(urng) / n();
+        // Avoid dividing by zero
+        if(x < (std::numeric_limits<RealType>::min)()) {
+            x = (std::numeric_limits<RealType>::min)();
+        }
+        return z / sqrt(x);
     }
 
     /**
-- 
2.43.0


From ebd81ba3153e43c16f047da2ff0073401f27dc93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:23 +0000
Subject: [PATCH 44/53] fix: fisher_f_distribution divided by zero

---
 include/boost/random/fisher_f_distribution.hpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/include/boost/random/fisher_f_distribution.hpp b/include/boost/random/fisher_f_distribution.hpp
index cdf14da..5f81fbb 100644
--- a/include/boost/random/fisher_f_distribution.hpp
+++ b/include/boost/random/fisher_f_distribution.hpp
@@ -100,7 +100,14 @@ public:
     template<class URNG>
     RealType operator()(URNG& urng)
     {
-        return (_impl_m(urng) * n()) / (_impl_n(urng) * m());
+        RealType x = _impl_m(urng) * n();
+        RealType y = _impl_n(urng) * m();
+        const RealType largest = (std::numeric_limits<RealType>::max)();
+        // Avoid overflow and division by zero
+        if(y < 1 && x >= largest * y) {
+            return x == 0 ? RealType(0) : largest;
+        }
+        return x / y;
     }
 
     /**
-- 
2.43.0


From b9554921c227eaa6f13a837fce5f79ff27266db3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:23 +0000
Subject: [PATCH 45/53] fix: binomial_distribution overflowed for the largest t
 and for huge candidates

---
 .../boost/random/binomial_distribution.hpp    | 21 +++++++++++--------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/include/boost/random/binomial_distribution.hpp b/include/boost/random/binomial_distribution.hpp
index f1e00ee..1f50039 100644
--- a/include/boost/random/binomial_distribution.hpp
+++ b/include/boost/random/binomial_distribution.hpp
@@ -260,7 +260,7 @@ private:
     {
         if(k < 10) return detail::binomial_table<RealType>::table[k];
         else {
-            RealType ikp1 = RealType(1) / (k + 1);
+            RealType ikp1 = 1 / (static_cast<RealType>(k) + 1);
             return (RealType(1)/12
                  - (RealType(1)/360
                  - (RealType(1)/1260)*(ikp1*ikp1))*(ikp1*ikp1))*ikp1;
@@ -275,13 +275,15 @@ private:
         RealType p = (0.5 < _p)? (1 - _p) : _p;
         IntType t = _t;
         
-        m = static_cast<IntType>((t+1)*p);
+        // (t + 1 might overflow)
+        RealType t1 = static_cast<RealType>(t) + 1;
+        m = static_cast<IntType>(t1*p);
 
         if(use_inversion()) {
             _u.q_n = pow((1 - p), static_cast<RealType>(t));
         } else {
             _u.btrd.r = p/(1-p);
-            _u.btrd.nr = (t+1)*_u.btrd.r;
+            _u.btrd.nr = t1*_u.btrd.r;
             _u.btrd.npq = t*p*(1-p);
             RealType sqrt_npq = sqrt(_u.btrd.npq);
             _u.btrd.b = 1.15 + 2.53 * sqrt_npq;
@@ -318,8 +320,9 @@ private:
             }
 
             RealType us = 0.5 - abs(u);
-            IntType k = static_cast<IntType>(floor((2*_u.btrd.a/us + _u.btrd.b)*u + _u.btrd.c));
-            if(k < 0 || k > _t) continue;
+            RealType x = floor((2*_u.btrd.a/us + _u.btrd.b)*u + _u.btrd.c);
+            if(!(x >= 0 && x < static_cast<RealType>(_t) + 1)) continue;
+            IntType k = static_cast<IntType>(x);
             v = v*_u.btrd.alpha/(_u.btrd.a/(us*us) + _u.btrd.b);
             RealType km = abs(k - m);
             if(km <= 15) {
@@ -348,12 +351,12 @@ private:
                 if(v < t - rho) return k;
                 if(v > t + rho) continue;
 
-                IntType nm = _t - m + 1;
+                RealType nm = static_cast<RealType>(_t - m) + 1;
                 RealType h = (m + 0.5)*log((m + 1)/(_u.btrd.r*nm))
                            + fc(m) + fc(_t - m);
 
-                IntType nk = _t - k + 1;
-                if(v <= h + (_t+1)*log(static_cast<RealType>(nm)/nk)
+                RealType nk = static_cast<RealType>(_t - k) + 1;
+                if(v <= h + (static_cast<RealType>(_t)+1)*log(nm/nk)
                           + (k + 0.5)*log(nk*_u.btrd.r/(k+1))
                           - fc(k)
                           - fc(_t - k))
@@ -371,7 +374,7 @@ private:
     {
         RealType q = 1 - p;
         RealType s = p / q;
-        RealType a = (t + 1) * s;
+        RealType a = (static_cast<RealType>(t) + 1) * s;
         RealType r = _u.q_n;
         RealType u = uniform_01<RealType>()(urng);
         IntType x = 0;
-- 
2.43.0


From 3a51380d886c1c794a55f727d869c8bc67cfe644 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:35 +0000
Subject: [PATCH 46/53] fix: discrete_distribution: clear the old alias table
 when parameters are replaced

---
 include/boost/random/discrete_distribution.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/boost/random/discrete_distribution.hpp b/include/boost/random/discrete_distribution.hpp
index 09de5ac..ba1da3f 100644
--- a/include/boost/random/discrete_distribution.hpp
+++ b/include/boost/random/discrete_distribution.hpp
@@ -581,6 +581,8 @@ private:
         below_average.reserve(input_size);
         above_average.reserve(input_size);
         
+        // Leave no alias of an earlier table behind
+        _impl._alias_table.clear();
         WeightType weight_average = _impl.init_average(first, last);
         WeightType normalized_average = _impl.get_weight(0);
         std::size_t i = 0;
-- 
2.43.0


From f67c4440b2e7bd6b8a7cf20cced0c5afc5824eaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:35 +0000
Subject: [PATCH 47/53] fix: geometric and triangle distributions: read
 parameters in their own real type

---
 include/boost/random/geometric_distribution.hpp | 2 +-
 include/boost/random/triangle_distribution.hpp  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/boost/random/geometric_distribution.hpp b/include/boost/random/geometric_distribution.hpp
index 90374cf..f6692f1 100644
--- a/include/boost/random/geometric_distribution.hpp
+++ b/include/boost/random/geometric_distribution.hpp
@@ -76,7 +76,7 @@ public:
         /** Reads the parameters from a std::istream. */
         BOOST_RANDOM_DETAIL_ISTREAM_OPERATOR(is, param_type, parm)
         {
-            double p_in;
+            RealType p_in;
             if(is >> p_in) {
                 if(p_in > RealType(0) && p_in < RealType(1)) {
                     parm._p = p_in;
diff --git a/include/boost/random/triangle_distribution.hpp b/include/boost/random/triangle_distribution.hpp
index 05f1096..2f7af01 100644
--- a/include/boost/random/triangle_distribution.hpp
+++ b/include/boost/random/triangle_distribution.hpp
@@ -74,7 +74,7 @@ public:
         /** Reads the parameters from a @c std::istream. */
         BOOST_RANDOM_DETAIL_ISTREAM_OPERATOR(is, param_type, parm)
         {
-            double a_in, b_in, c_in;
+            RealType a_in, b_in, c_in;
             if(is >> a_in >> std::ws >> b_in >> std::ws >> c_in) {
                 if(a_in <= b_in && b_in <= c_in) {
                     parm._a = a_in;
-- 
2.43.0


From fc536e9d2f1077027ee2db2978621ba4c9a663b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:35 +0000
Subject: [PATCH 48/53] fix: write and read 8-bit integer distribution
 parameters as numbers

---
 .../boost/random/binomial_distribution.hpp    | 15 ++++++-
 include/boost/random/detail/text_type.hpp     | 39 +++++++++++++++++++
 .../random/negative_binomial_distribution.hpp | 15 ++++++-
 .../boost/random/uniform_int_distribution.hpp | 14 ++++---
 include/boost/random/uniform_smallint.hpp     | 23 +++++++++--
 5 files changed, 93 insertions(+), 13 deletions(-)
 create mode 100644 include/boost/random/detail/text_type.hpp

diff --git a/include/boost/random/binomial_distribution.hpp b/include/boost/random/binomial_distribution.hpp
index 1f50039..ec1a296 100644
--- a/include/boost/random/binomial_distribution.hpp
+++ b/include/boost/random/binomial_distribution.hpp
@@ -17,6 +17,7 @@
 #include <cstdlib>
 #include <iosfwd>
 
+#include <boost/random/detail/text_type.hpp>
 #include <boost/random/detail/config.hpp>
 #include <boost/random/uniform_01.hpp>
 
@@ -93,7 +94,8 @@ public:
         operator<<(std::basic_ostream<CharT,Traits>& os,
                    const param_type& parm)
         {
-            os << parm._p << " " << parm._t;
+            os << parm._p << " "
+               << static_cast<typename detail::text_type<IntType>::type>(parm._t);
             return os;
         }
     
@@ -102,7 +104,16 @@ public:
         friend std::basic_istream<CharT,Traits>&
         operator>>(std::basic_istream<CharT,Traits>& is, param_type& parm)
         {
-            is >> parm._p >> std::ws >> parm._t;
+            RealType p_in;
+            typename detail::text_type<IntType>::type t_in;
+            if(is >> p_in >> std::ws >> t_in) {
+                if(detail::text_fits<IntType>(t_in)) {
+                    parm._p = p_in;
+                    parm._t = static_cast<IntType>(t_in);
+                } else {
+                    is.setstate(std::ios_base::failbit);
+                }
+            }
             return is;
         }
 #endif
diff --git a/include/boost/random/detail/text_type.hpp b/include/boost/random/detail/text_type.hpp
new file mode 100644
index 0000000..b43ddc3
--- /dev/null
+++ b/include/boost/random/detail/text_type.hpp
@@ -0,0 +1,39 @@
+/* boost random/detail/text_type.hpp header file
+ *
+ * Distributed under the Boost Software License, Version 1.0. (See
+ * accompanying file LICENSE_1_0.txt or copy at
+ * http://www.boost.org/LICENSE_1_0.txt)
+ *
+ * See http://www.boost.org for most recent version including documentation.
+ */
+
+#ifndef BOOST_RANDOM_DETAIL_TEXT_TYPE_HPP
+#define BOOST_RANDOM_DETAIL_TEXT_TYPE_HPP
+
+namespace boost {
+namespace random {
+namespace detail {
+
+// The type used to write an IntType to a stream and to read it back:
+// streams treat the character types as characters, not as numbers.
+template<class IntType>
+struct text_type { typedef IntType type; };
+template<>
+struct text_type<char> { typedef int type; };
+template<>
+struct text_type<signed char> { typedef int type; };
+template<>
+struct text_type<unsigned char> { typedef int type; };
+
+// Can this value, read from a stream, be represented by IntType?
+template<class IntType>
+inline bool text_fits(const typename text_type<IntType>::type& value)
+{
+    return static_cast<typename text_type<IntType>::type>(static_cast<IntType>(value)) == value;
+}
+
+} // namespace detail
+} // namespace random
+} // namespace boost
+
+#endif // BOOST_RANDOM_DETAIL_TEXT_TYPE_HPP
diff --git a/include/boost/random/negative_binomial_distribution.hpp b/include/boost/random/negative_binomial_distribution.hpp
index 047105d..9b3799b 100644
--- a/include/boost/random/negative_binomial_distribution.hpp
+++ b/include/boost/random/negative_binomial_distribution.hpp
@@ -16,6 +16,7 @@
 #include <iosfwd>
 
 #include <boost/limits.hpp>
+#include <boost/random/detail/text_type.hpp>
 #include <boost/random/detail/config.hpp>
 #include <boost/random/gamma_distribution.hpp>
 #include <boost/random/poisson_distribution.hpp>
@@ -62,7 +63,8 @@ public:
         operator<<(std::basic_ostream<CharT,Traits>& os,
                    const param_type& parm)
         {
-            os << parm._p << " " << parm._k;
+            os << parm._p << " "
+               << static_cast<typename detail::text_type<IntType>::type>(parm._k);
             return os;
         }
     
@@ -71,7 +73,16 @@ public:
         friend std::basic_istream<CharT,Traits>&
         operator>>(std::basic_istream<CharT,Traits>& is, param_type& parm)
         {
-            is >> parm._p >> std::ws >> parm._k;
+            RealType p_in;
+            typename detail::text_type<IntType>::type k_in;
+            if(is >> p_in >> std::ws >> k_in) {
+                if(detail::text_fits<IntType>(k_in)) {
+                    parm._p = p_in;
+                    parm._k = static_cast<IntType>(k_in);
+                } else {
+                    is.setstate(std::ios_base::failbit);
+                }
+            }
             return is;
         }
 #endif
diff --git a/include/boost/random/uniform_int_distribution.hpp b/include/boost/random/uniform_int_distribution.hpp
index 6acff25..60c16c6 100644
--- a/include/boost/random/uniform_int_distribution.hpp
+++ b/include/boost/random/uniform_int_distribution.hpp
@@ -28,6 +28,7 @@
 #include <boost/random/detail/operators.hpp>
 #include <boost/random/detail/uniform_int_float.hpp>
 #include <boost/random/detail/signed_unsigned_tools.hpp>
+#include <boost/random/detail/text_type.hpp>
 #include <boost/random/traits.hpp>
 #include <boost/type_traits/integral_constant.hpp>
 #ifdef BOOST_NO_CXX11_EXPLICIT_CONVERSION_OPERATORS
@@ -291,18 +292,21 @@ public:
         /** Writes the parameters to a @c std::ostream. */
         BOOST_RANDOM_DETAIL_OSTREAM_OPERATOR(os, param_type, parm)
         {
-            os << parm._min << " " << parm._max;
+            typedef typename detail::text_type<IntType>::type text_type;
+            os << static_cast<text_type>(parm._min) << " "
+               << static_cast<text_type>(parm._max);
             return os;
         }
 
         /** Reads the parameters from a @c std::istream. */
         BOOST_RANDOM_DETAIL_ISTREAM_OPERATOR(is, param_type, parm)
         {
-            IntType min_in, max_in;
+            typename detail::text_type<IntType>::type min_in, max_in;
             if(is >> min_in >> std::ws >> max_in) {
-                if(min_in <= max_in) {
-                    parm._min = min_in;
-                    parm._max = max_in;
+                if(min_in <= max_in && detail::text_fits<IntType>(min_in)
+                   && detail::text_fits<IntType>(max_in)) {
+                    parm._min = static_cast<IntType>(min_in);
+                    parm._max = static_cast<IntType>(max_in);
                 } else {
                     is.setstate(std::ios_base::failbit);
                 }
diff --git a/include/boost/random/uniform_smallint.hpp b/include/boost/random/uniform_smallint.hpp
index d8f0cd3..252c631 100644
--- a/include/boost/random/uniform_smallint.hpp
+++ b/include/boost/random/uniform_smallint.hpp
@@ -26,6 +26,7 @@
 #include <boost/random/detail/config.hpp>
 #include <boost/random/detail/operators.hpp>
 #include <boost/random/detail/signed_unsigned_tools.hpp>
+#include <boost/random/detail/text_type.hpp>
 #include <boost/random/uniform_01.hpp>
 #include <boost/detail/workaround.hpp>
 
@@ -132,14 +133,25 @@ public:
         /** Writes the parameters to a @c std::ostream. */
         BOOST_RANDOM_DETAIL_OSTREAM_OPERATOR(os, param_type, parm)
         {
-            os << parm._min << " " << parm._max;
+            typedef typename detail::text_type<IntType>::type text_type;
+            os << static_cast<text_type>(parm._min) << " "
+               << static_cast<text_type>(parm._max);
             return os;
         }
     
         /** Reads the parameters from a @c std::istream. */
         BOOST_RANDOM_DETAIL_ISTREAM_OPERATOR(is, param_type, parm)
         {
-            is >> parm._min >> std::ws >> parm._max;
+            typename detail::text_type<IntType>::type min_in, max_in;
+            if(is >> min_in >> std::ws >> max_in) {
+                if(min_in <= max_in && detail::text_fits<IntType>(min_in)
+                   && detail::text_fits<IntType>(max_in)) {
+                    parm._min = static_cast<IntType>(min_in);
+                    parm._max = static_cast<IntType>(max_in);
+                } else {
+                    is.setstate(std::ios_base::failbit);
+                }
+            }
             return is;
         }
 
@@ -208,14 +220,17 @@ public:
     /** Writes the distribution to a @c std::ostream. */
     BOOST_RANDOM_DETAIL_OSTREAM_OPERATOR(os, uniform_smallint, ud)
     {
-        os << ud._min << " " << ud._max;
+        os << ud.param();
         return os;
     }
     
     /** Reads the distribution from a @c std::istream. */
     BOOST_RANDOM_DETAIL_ISTREAM_OPERATOR(is, uniform_smallint, ud)
     {
-        is >> ud._min >> std::ws >> ud._max;
+        param_type parm;
+        if(is >> parm) {
+            ud.param(parm);
+        }
         return is;
     }
 
-- 
2.43.0


From 9f323b4cef97d9128e105ea8955c9c8301ab5ead Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:31 +0000
Subject: [PATCH 49/53] fix: random_device: do not throw from the destructor
 when close fails

---
 src/random_device.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/random_device.cpp b/src/random_device.cpp
index 4719a40..1decf6a 100644
--- a/src/random_device.cpp
+++ b/src/random_device.cpp
@@ -195,7 +195,9 @@ public:
       error("cannot open");
   }
 
-  ~impl() { if(close(fd) < 0) error("could not close"); }
+  // A destructor must not throw, and there is nothing to be done
+  // about a read-only descriptor that fails to close.
+  ~impl() { close(fd); }
 
   unsigned int next() {
     unsigned int result;
-- 
2.43.0


From 8a0e570f021c4d222aa39377347d22ab61d37811 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:48 +0000
Subject: [PATCH 50/53] fix: distributions: a failed read leaves the parameters
 unchanged

---
 include/boost/random/bernoulli_distribution.hpp   | 5 ++++-
 include/boost/random/cauchy_distribution.hpp      | 5 ++++-
 include/boost/random/exponential_distribution.hpp | 5 ++++-
 include/boost/random/normal_distribution.hpp      | 5 ++++-
 include/boost/random/uniform_on_sphere.hpp        | 6 ++++--
 5 files changed, 20 insertions(+), 6 deletions(-)

diff --git a/include/boost/random/bernoulli_distribution.hpp b/include/boost/random/bernoulli_distribution.hpp
index adc2ced..afd59c8 100644
--- a/include/boost/random/bernoulli_distribution.hpp
+++ b/include/boost/random/bernoulli_distribution.hpp
@@ -169,7 +169,10 @@ public:
      */
     BOOST_RANDOM_DETAIL_ISTREAM_OPERATOR(is, bernoulli_distribution, bd)
     {
-        is >> bd._p;
+        param_type parm;
+        if(is >> parm) {
+            bd.param(parm);
+        }
         return is;
     }
 
diff --git a/include/boost/random/cauchy_distribution.hpp b/include/boost/random/cauchy_distribution.hpp
index 998e523..d9dfe32 100644
--- a/include/boost/random/cauchy_distribution.hpp
+++ b/include/boost/random/cauchy_distribution.hpp
@@ -183,7 +183,10 @@ public:
      */
     BOOST_RANDOM_DETAIL_ISTREAM_OPERATOR(is, cauchy_distribution, cd)
     {
-        is >> cd._median >> std::ws >> cd._sigma;
+        param_type parm;
+        if(is >> parm) {
+            cd.param(parm);
+        }
         return is;
     }
 
diff --git a/include/boost/random/exponential_distribution.hpp b/include/boost/random/exponential_distribution.hpp
index b4b95c5..9af97b6 100644
--- a/include/boost/random/exponential_distribution.hpp
+++ b/include/boost/random/exponential_distribution.hpp
@@ -356,7 +356,10 @@ public:
     /** Reads the distribution from a std::istream. */
     BOOST_RANDOM_DETAIL_ISTREAM_OPERATOR(is, exponential_distribution, ed)
     {
-        is >> ed._lambda;
+        param_type parm;
+        if(is >> parm) {
+            ed.param(parm);
+        }
         return is;
     }
 
diff --git a/include/boost/random/normal_distribution.hpp b/include/boost/random/normal_distribution.hpp
index b7ff3eb..4276410 100644
--- a/include/boost/random/normal_distribution.hpp
+++ b/include/boost/random/normal_distribution.hpp
@@ -341,7 +341,10 @@ public:
     /** Reads a @c normal_distribution from a @c std::istream. */
     BOOST_RANDOM_DETAIL_ISTREAM_OPERATOR(is, normal_distribution, nd)
     {
-        is >> std::ws >> nd._mean >> std::ws >> nd._sigma;
+        param_type parm;
+        if(is >> std::ws >> parm) {
+            nd.param(parm);
+        }
         return is;
     }
 
diff --git a/include/boost/random/uniform_on_sphere.hpp b/include/boost/random/uniform_on_sphere.hpp
index ce2e352..8e383aa 100644
--- a/include/boost/random/uniform_on_sphere.hpp
+++ b/include/boost/random/uniform_on_sphere.hpp
@@ -256,8 +256,10 @@ public:
     /** Reads the distribution from a @c std::istream. */
     BOOST_RANDOM_DETAIL_ISTREAM_OPERATOR(is, uniform_on_sphere, sd)
     {
-        is >> sd._dim;
-        sd._container.resize(sd._dim);
+        param_type parm;
+        if(is >> parm) {
+            sd.param(parm);
+        }
         return is;
     }
 
-- 
2.43.0


From 4d1e902eb834620aa83489a50dde13f339401d08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:53 +0000
Subject: [PATCH 51/53] fix: non_central_chi_squared_distribution: large lambda
 overflowed int

---
 .../boost/random/non_central_chi_squared_distribution.hpp  | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/include/boost/random/non_central_chi_squared_distribution.hpp b/include/boost/random/non_central_chi_squared_distribution.hpp
index 28c9ff6..ff59d2c 100644
--- a/include/boost/random/non_central_chi_squared_distribution.hpp
+++ b/include/boost/random/non_central_chi_squared_distribution.hpp
@@ -17,6 +17,7 @@
 #include <boost/config/no_tr1/cmath.hpp>
 #include <iosfwd>
 #include <istream>
+#include <boost/cstdint.hpp>
 #include <boost/limits.hpp>
 #include <boost/random/detail/config.hpp>
 #include <boost/random/detail/operators.hpp>
@@ -152,8 +153,10 @@ public:
             return term1*term1 + _x;
         }
         else {
-            boost::random::poisson_distribution<> p_dist(_param.lambda()/RealType(2));
-            boost::random::poisson_distribution<>::result_type _p = p_dist(eng);
+            // int cannot hold the variate if lambda is large
+            typedef boost::random::poisson_distribution<boost::intmax_t> poisson_type;
+            poisson_type p_dist(_param.lambda()/RealType(2));
+            poisson_type::result_type _p = p_dist(eng);
             boost::random::chi_squared_distribution<RealType> c_dist(_param.k() + RealType(2)*_p);
             return c_dist(eng);
         }
-- 
2.43.0


From 709c8977374c2779d72f0fec2b150519927cc2da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:53 +0000
Subject: [PATCH 52/53] fix: beta_distribution: NaN for shape parameters near
 the smallest positive value

---
 include/boost/random/beta_distribution.hpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/include/boost/random/beta_distribution.hpp b/include/boost/random/beta_distribution.hpp
index a9da748..0512b57 100644
--- a/include/boost/random/beta_distribution.hpp
+++ b/include/boost/random/beta_distribution.hpp
@@ -13,6 +13,7 @@
 #ifndef BOOST_RANDOM_BETA_DISTRIBUTION_HPP
 #define BOOST_RANDOM_BETA_DISTRIBUTION_HPP
 
+#include <algorithm>
 #include <istream>
 #include <iosfwd>
 #include <boost/config/no_tr1/cmath.hpp>
@@ -189,10 +190,13 @@ private:
         using std::log;
         uniform_01<RealType> uniform;
         for(;;) {
-            RealType x = log(1 - uniform(urng)) / _alpha;
-            RealType y = log(1 - uniform(urng)) / _beta;
-            if(exp(x) + exp(y) <= 1) {
-                return 1 / (1 + exp(y - x));
+            RealType x = log(1 - uniform(urng));
+            RealType y = log(1 - uniform(urng));
+            if(exp(x / _alpha) + exp(y / _beta) <= 1) {
+                // the quotients may be infinite, their difference
+                // must not be NaN
+                RealType m = (std::min)(_alpha, _beta);
+                return 1 / (1 + exp((y / (_beta / m) - x / (_alpha / m)) / m));
             }
         }
     }
-- 
2.43.0


From 8c3505d8d4520123da6eb85c6b11b6c81897650e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:23:54 +0000
Subject: [PATCH 53/53] fix: uniform_real_distribution counts the values of
 engines with user-defined integer results

---
 include/boost/random/uniform_real_distribution.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/boost/random/uniform_real_distribution.hpp b/include/boost/random/uniform_real_distribution.hpp
index 9eab9f4..49bfa43 100644
--- a/include/boost/random/uniform_real_distribution.hpp
+++ b/include/boost/random/uniform_real_distribution.hpp
@@ -38,6 +38,8 @@ T generate_uniform_real(
         typedef T result_type;
         result_type numerator = static_cast<T>(eng() - (eng.min)());
         result_type divisor = static_cast<T>((eng.max)() - (eng.min)());
+        // a user-defined integer type is not boost::is_integral
+        if(std::numeric_limits<typename Engine::result_type>::is_integer) divisor += 1;
         BOOST_ASSERT(divisor > 0);
         BOOST_ASSERT(numerator >= 0 && numerator <= divisor);
         T result = numerator / divisor * (max_value - min_value) + min_value;
-- 
2.43.0

