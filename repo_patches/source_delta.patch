From 2e94496325775d25459359c09a7bdd8dfc8569f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:18 +0000
Subject: [PATCH 01/33] fix: add the missing Mersenne exponent 24036583 to
 isMexp's table

---
 lib/period.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/period.cpp b/lib/period.cpp
index 556a495..0c77c76 100644
--- a/lib/period.cpp
+++ b/lib/period.cpp
@@ -17,7 +17,7 @@ namespace MTToolBox {
      2203, 2281, 3217, 4253, 4423, 9689, 9941, 11213, 19937, 21701,
      23209, 44497, 86243, 110503, 132049, 216091, 756839, 859433,
      1257787, 1398269, 2976221, 3021377, 6972593, 13466917,
-     20996011, 25964951, -1};
+     20996011, 24036583, 25964951, -1};
 
     /**
      * 既約判定
-- 
2.43.0


From b21aa3f951eb93a7cf9a3c77d7034a31240bca83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:32 +0000
Subject: [PATCH 02/33] fix: calc_1pos negated the most negative integer
 (undefined) for words with only the sign bit set

---
 include/MTToolBox/util.hpp | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/include/MTToolBox/util.hpp b/include/MTToolBox/util.hpp
index 1e42906..e4dc1e3 100644
--- a/include/MTToolBox/util.hpp
+++ b/include/MTToolBox/util.hpp
@@ -316,8 +316,7 @@ namespace MTToolBox {
         if (x == 0) {
             return -1;
         }
-        int32_t y = (int32_t)x;
-        y = count_bit((uint32_t)(y & -y) - 1);
+        int y = count_bit((x & (~x + 1)) - 1);
         return 31 - y;
     }
 
@@ -350,9 +349,8 @@ namespace MTToolBox {
         if (x == 0) {
             return -1;
         }
-        int64_t y = (int64_t)x;
-        y = count_bit((uint64_t)(y & -y) - 1);
-        return 63 - static_cast<int>(y);
+        int y = count_bit((x & (~x + 1)) - 1);
+        return 63 - y;
     }
 
     /**
-- 
2.43.0


From 56f5e36dc2459b73783db2e09591cf8e02f5eaa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:46 +0000
Subject: [PATCH 03/33] fix: calc_1pos(w128_t) negated the most negative
 integer (undefined) when only a half's sign bit is set

---
 samples/dSFMTdc/w128.hpp | 10 ++++------
 samples/sfmtdc/w128.hpp  | 10 ++++------
 2 files changed, 8 insertions(+), 12 deletions(-)

diff --git a/samples/dSFMTdc/w128.hpp b/samples/dSFMTdc/w128.hpp
index b419cca..3ac112d 100644
--- a/samples/dSFMTdc/w128.hpp
+++ b/samples/dSFMTdc/w128.hpp
@@ -211,13 +211,11 @@ namespace MTToolBox {
             return -1;
         }
         if (x.u64[0] == 0) {
-            int64_t y = static_cast<int64_t>(x.u64[1]);
-            y = count_bit(static_cast<uint64_t>(y & -y) - 1);
-            return 63 - static_cast<int>(y);
+            uint64_t y = x.u64[1];
+            return 63 - count_bit((y & (~y + 1)) - 1);
         } else {
-            int64_t y = static_cast<int64_t>(x.u64[0]);
-            y = count_bit(static_cast<uint64_t>(y & -y) - 1);
-            return 63 - static_cast<int>(y) + 64;
+            uint64_t y = x.u64[0];
+            return 63 - count_bit((y & (~y + 1)) - 1) + 64;
         }
     }
 
diff --git a/samples/sfmtdc/w128.hpp b/samples/sfmtdc/w128.hpp
index d9cc2af..805f89d 100644
--- a/samples/sfmtdc/w128.hpp
+++ b/samples/sfmtdc/w128.hpp
@@ -212,13 +212,11 @@ namespace MTToolBox {
             return -1;
         }
         if (x.u64[0] == 0) {
-            int64_t y = (int64_t)x.u64[1];
-            y = count_bit((uint64_t)(y & -y) - 1);
-            return 63 - static_cast<int>(y);
+            uint64_t y = x.u64[1];
+            return 63 - count_bit((y & (~y + 1)) - 1);
         } else {
-            int64_t y = (int64_t)x.u64[0];
-            y = count_bit((uint64_t)(y & -y) - 1);
-            return 63 - static_cast<int>(y) + 64;
+            uint64_t y = x.u64[0];
+            return 63 - count_bit((y & (~y + 1)) - 1) + 64;
         }
     }
 
-- 
2.43.0


From 3b2fdda48f681269b8f6c53efe78821cf5a09e57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:46 +0000
Subject: [PATCH 04/33] fix: fromGF2Vec shifted by -1 (undefined) after the
 last bit

---
 include/MTToolBox/util.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/MTToolBox/util.hpp b/include/MTToolBox/util.hpp
index e4dc1e3..039ce12 100644
--- a/include/MTToolBox/util.hpp
+++ b/include/MTToolBox/util.hpp
@@ -665,7 +665,9 @@ namespace MTToolBox {
             }
             pos--;
             setZero(mask);
-            setBitOfPos(&mask, pos, 1);
+            if (pos >= 0) {
+                setBitOfPos(&mask, pos, 1);
+            }
         }
         return result;
     }
-- 
2.43.0


From e8e0faabcb886793cc8b9c906960c843e83e5192 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:59 +0000
Subject: [PATCH 05/33] fix: search_parity_check_vector shifted by -1
 (undefined) after the last bit

---
 include/MTToolBox/AlgorithmCalculateParity.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/MTToolBox/AlgorithmCalculateParity.hpp b/include/MTToolBox/AlgorithmCalculateParity.hpp
index 9c92c2d..e2b2af0 100644
--- a/include/MTToolBox/AlgorithmCalculateParity.hpp
+++ b/include/MTToolBox/AlgorithmCalculateParity.hpp
@@ -415,7 +415,9 @@ namespace MTToolBox {
                 }
                 pos--;
                 setZero(mask);
-                setBitOfPos(&mask, pos, 1);
+                if (pos >= 0) {
+                    setBitOfPos(&mask, pos, 1);
+                }
             }
             kernel(my, mx);
             if (my.NumRows() == 0) {
-- 
2.43.0


From c3001cfa9f8e3c5ce1c2b426e819d095a66e330f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:59 +0000
Subject: [PATCH 06/33] fix: searchParity leaked its work generator

---
 include/MTToolBox/AlgorithmCalculateParity.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/MTToolBox/AlgorithmCalculateParity.hpp b/include/MTToolBox/AlgorithmCalculateParity.hpp
index e2b2af0..204dd6b 100644
--- a/include/MTToolBox/AlgorithmCalculateParity.hpp
+++ b/include/MTToolBox/AlgorithmCalculateParity.hpp
@@ -160,6 +160,7 @@ namespace MTToolBox {
             for (int i = 0; i < word_width; i++) {
                 delete bases[i].rg;
             }
+            delete work_base.rg;
 #if defined(DEBUG)
             cout << "----" << endl;
             for (int i = 0; i < word_width; i++) {
-- 
2.43.0


From 4d99a824e6ffbda9bfcc0fe77d717e44bb06a79e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:59 +0000
Subject: [PATCH 07/33] fix: AlgorithmReducibleEquidistribution leaked its copy
 of the generator

---
 include/MTToolBox/AlgorithmReducibleEquidistribution.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/MTToolBox/AlgorithmReducibleEquidistribution.hpp b/include/MTToolBox/AlgorithmReducibleEquidistribution.hpp
index a91550d..589ed2c 100644
--- a/include/MTToolBox/AlgorithmReducibleEquidistribution.hpp
+++ b/include/MTToolBox/AlgorithmReducibleEquidistribution.hpp
@@ -80,6 +80,7 @@ namespace MTToolBox {
             NTL::GF2X quotient = poly / irreducibleFactor;
             annihilate<U>(rand, quotient);
             ae = new AlgorithmEquidistribution<U>(*rand, bit_length, mexp);
+            delete rand;
         }
 
         /**
-- 
2.43.0


From 414088fc091c248e3531daca1cb06cb781925a38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:37 +0000
Subject: [PATCH 08/33] fix: AlgorithmBestBits evaluated candidates without
 setUpTempering

---
 include/MTToolBox/AlgorithmBestBits.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/MTToolBox/AlgorithmBestBits.hpp b/include/MTToolBox/AlgorithmBestBits.hpp
index 6b96656..b619c5f 100644
--- a/include/MTToolBox/AlgorithmBestBits.hpp
+++ b/include/MTToolBox/AlgorithmBestBits.hpp
@@ -392,6 +392,7 @@ namespace MTToolBox {
                 for (int j = 0; j < size; j++) {
                     rand.setTemperingPattern(mask, pattern->param[j], j);
                 }
+                rand.setUpTempering();
                 pattern->delta = get_equidist(rand, v_bit + 1);
                 if (verbose) {
                     cout << "pattern->delta:" << dec << pattern->delta << endl;
-- 
2.43.0


From d97672e6de2094f51d65bec265a8328e282735fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:32 +0000
Subject: [PATCH 09/33] fix: searchParity never ended when the parity word of a
 non-zero state stays zero

---
 include/MTToolBox/AlgorithmCalculateParity.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/MTToolBox/AlgorithmCalculateParity.hpp b/include/MTToolBox/AlgorithmCalculateParity.hpp
index 204dd6b..6f49e49 100644
--- a/include/MTToolBox/AlgorithmCalculateParity.hpp
+++ b/include/MTToolBox/AlgorithmCalculateParity.hpp
@@ -263,8 +263,10 @@ namespace MTToolBox {
             st.zero = false;
             st.rg->generate();
             st.next = st.rg->getParityValue();
+            int zero_count = 0;
             while (isZero(st.next)) {
-                if (st.rg->isZero()) {
+                zero_count++;
+                if (st.rg->isZero() || zero_count > st.rg->bitSize() * 2) {
                     st.zero = true;
                     break;
                 }
-- 
2.43.0


From caa94690a8531d78620a526c5d04ef4a052efb27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:43 +0000
Subject: [PATCH 10/33] fix: the default constructed Sequential used an
 uninitialised mask, counter and error flag

---
 include/MTToolBox/Sequential.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/MTToolBox/Sequential.hpp b/include/MTToolBox/Sequential.hpp
index 8e2264d..a8689e1 100644
--- a/include/MTToolBox/Sequential.hpp
+++ b/include/MTToolBox/Sequential.hpp
@@ -56,6 +56,9 @@ namespace MTToolBox {
          *\endenglish
          */
         Sequential() {
+            status = static_cast<T>(-1);
+            mask = 0;
+            error = false;
         }
 
         /**
-- 
2.43.0


From 5a159c20981ccdd772d53adba1d1e2db67184c63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:43 +0000
Subject: [PATCH 11/33] fix: fill_table combined into the uninitialised
 contents of its output table

---
 include/MTToolBox/util.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/MTToolBox/util.hpp b/include/MTToolBox/util.hpp
index 039ce12..97cd6f8 100644
--- a/include/MTToolBox/util.hpp
+++ b/include/MTToolBox/util.hpp
@@ -196,7 +196,9 @@ namespace MTToolBox {
      */
     template<typename T>
     void fill_table(T dist_tbl[], T src_tbl[], int size) {
+        dist_tbl[0] = 0;
         for(int i = 1; i < size; i++) {
+            dist_tbl[i] = 0;
             for(int j = 1, k = 0; j <= i; j <<= 1, k++) {
                 if (i & j) {
                     dist_tbl[i] ^= src_tbl[k];
-- 
2.43.0


From 91f8a71a95f12209ea71c60bc8fad16bbf7dfcf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:43 +0000
Subject: [PATCH 12/33] fix: copies of MersenneTwister and MersenneTwister64
 shared one state array, which was deleted twice

---
 include/MTToolBox/MersenneTwister.hpp   | 13 +++++++++++++
 include/MTToolBox/MersenneTwister64.hpp | 13 +++++++++++++
 2 files changed, 26 insertions(+)

diff --git a/include/MTToolBox/MersenneTwister.hpp b/include/MTToolBox/MersenneTwister.hpp
index 118b0d0..c8a82e1 100644
--- a/include/MTToolBox/MersenneTwister.hpp
+++ b/include/MTToolBox/MersenneTwister.hpp
@@ -124,6 +124,19 @@ namespace MTToolBox {
             delete[] mt;
         }
 
+        MersenneTwister(const MersenneTwister& src) : ParameterGenerator() {
+            mt = new uint32_t[LARGE_N];
+            *this = src;
+        }
+
+        MersenneTwister& operator=(const MersenneTwister& src) {
+            for (int i = 0; i < LARGE_N; i++) {
+                mt[i] = src.mt[i];
+            }
+            mti = src.mti;
+            return *this;
+        }
+
         /**
          *\japanese
          * 32bit整数による初期化
diff --git a/include/MTToolBox/MersenneTwister64.hpp b/include/MTToolBox/MersenneTwister64.hpp
index cf7e6c5..5546280 100644
--- a/include/MTToolBox/MersenneTwister64.hpp
+++ b/include/MTToolBox/MersenneTwister64.hpp
@@ -129,6 +129,19 @@ namespace MTToolBox {
             delete[] mt;
         }
 
+        MersenneTwister64(const MersenneTwister64& src) : ParameterGenerator() {
+            mt = new uint64_t[N];
+            *this = src;
+        }
+
+        MersenneTwister64& operator=(const MersenneTwister64& src) {
+            for (int i = 0; i < N; i++) {
+                mt[i] = src.mt[i];
+            }
+            mti = src.mti;
+            return *this;
+        }
+
         /**
          *\japanese
          * 64bit整数による初期化
-- 
2.43.0


From a4d22fece5bb15041283832a223bb06a77087b58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:43 +0000
Subject: [PATCH 13/33] fix: copies of AlgorithmPrimitivity shared one list of
 primes, which was deleted twice

---
 include/MTToolBox/AlgorithmPrimitivity.hpp | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/include/MTToolBox/AlgorithmPrimitivity.hpp b/include/MTToolBox/AlgorithmPrimitivity.hpp
index 31243d3..ea12b94 100644
--- a/include/MTToolBox/AlgorithmPrimitivity.hpp
+++ b/include/MTToolBox/AlgorithmPrimitivity.hpp
@@ -85,6 +85,17 @@ namespace MTToolBox {
             delete primes;
         }
 
+        AlgorithmPrimitivity(const AlgorithmPrimitivity& src) {
+            primes = new NTL::Vec<NTL::ZZ>(*src.primes);
+            mersenne = src.mersenne;
+        }
+
+        AlgorithmPrimitivity& operator=(const AlgorithmPrimitivity& src) {
+            *primes = *src.primes;
+            mersenne = src.mersenne;
+            return *this;
+        }
+
         /**
          *\japanese
          * poly が指定した次数の原始多項式かどうか判定する
-- 
2.43.0


From b3f79400c2985fe87386c85b3585111764f88f94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:58:34 +0000
Subject: [PATCH 14/33] fix: isZero of the MT samples ignored the lower bits of
 the newest word instead of the oldest

---
 samples/MTDC/mt1.cpp | 5 +++--
 samples/MTDC/mt2.cpp | 5 +++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/samples/MTDC/mt1.cpp b/samples/MTDC/mt1.cpp
index 4beff09..82fd8f6 100644
--- a/samples/MTDC/mt1.cpp
+++ b/samples/MTDC/mt1.cpp
@@ -40,10 +40,11 @@ public:
     }
 
     bool isZero() const {
-        if ((upper_mask & state[index]) != 0) {
+        // state[index + 1] is the oldest word, whose lower bits are not used
+        if ((upper_mask & state[(index + 1) % N]) != 0) {
             return false;
         }
-        for (int i = 1; i < N; i++) {
+        for (int i = 2; i <= N; i++) {
             if (state[(index + i) % N] != 0) {
                 return false;
             }
diff --git a/samples/MTDC/mt2.cpp b/samples/MTDC/mt2.cpp
index e55a6ca..4d95720 100644
--- a/samples/MTDC/mt2.cpp
+++ b/samples/MTDC/mt2.cpp
@@ -102,10 +102,11 @@ public:
     }
 
     bool isZero() const {
-        if ((upper_mask & state[index]) != 0) {
+        // state[index + 1] is the oldest word, whose lower bits are not used
+        if ((upper_mask & state[(index + 1) % size]) != 0) {
             return false;
         }
-        for (int i = 1; i < size; i++) {
+        for (int i = 2; i <= size; i++) {
             if (state[(index + i) % size] != 0) {
                 return false;
             }
-- 
2.43.0


From f77e7a4b2f816f558ea0808dccab782de25ca622 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:58:34 +0000
Subject: [PATCH 15/33] fix: mtgp32::isZero used an uninitialised mask on the
 wrong word

---
 samples/MTGPDC/MTGP32search.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/samples/MTGPDC/MTGP32search.hpp b/samples/MTGPDC/MTGP32search.hpp
index 2720d43..813fa60 100644
--- a/samples/MTGPDC/MTGP32search.hpp
+++ b/samples/MTGPDC/MTGP32search.hpp
@@ -275,10 +275,11 @@ namespace mtgp {
          * @return true if all elements of status is zero
          */
         bool isZero() const {
-            if ((state[idx] & mask) != 0) {
+            // state[idx + 1] is the oldest word, whose lower bits are not used
+            if ((state[(idx + 1) % state_size] & param.mask) != 0) {
                 return false;
             }
-            for (int i = 1; i < state_size; i++) {
+            for (int i = 2; i <= state_size; i++) {
                 if (state[(idx + i) % state_size] != 0) {
                     return false;
                 }
@@ -305,7 +306,6 @@ namespace mtgp {
             return reverse_bit_flag;
         }
     private:
-        uint32_t mask;
         int state_size;
         mtgp_param<uint32_t> param;
         int idx;
-- 
2.43.0


From 75ec879d149f8f4ea4dbe6865252891781d79c0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:58:34 +0000
Subject: [PATCH 16/33] fix: RMT64Search::setOneBit shifted an int by up to 63

---
 samples/RMT/rmt64.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/samples/RMT/rmt64.hpp b/samples/RMT/rmt64.hpp
index 23a7245..3ffe367 100644
--- a/samples/RMT/rmt64.hpp
+++ b/samples/RMT/rmt64.hpp
@@ -128,7 +128,7 @@ public:
 #endif
             return;
         }
-        state[idx] = 1 << r;
+        state[idx] = UINT64_C(1) << r;
 #if defined(DEBUG) && 0
         debug_print();
         fflush(stdout);
-- 
2.43.0


From 3222c1d7a00d51722f29066ef4a415761546aade Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:58:34 +0000
Subject: [PATCH 17/33] fix: copies and clones of tinymt32 lost the reversed
 output mode, so the LSB stage optimised the MSBs

---
 samples/TinyMTDC/tinymt32search.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/samples/TinyMTDC/tinymt32search.hpp b/samples/TinyMTDC/tinymt32search.hpp
index 3fa9084..9841971 100644
--- a/samples/TinyMTDC/tinymt32search.hpp
+++ b/samples/TinyMTDC/tinymt32search.hpp
@@ -145,7 +145,7 @@ namespace tinymt {
          */
         tinymt32(const tinymt32& src) : TemperingCalculatable<uint32_t>(),
                                         param(src.param) {
-            reverse_bit_flag = false;
+            reverse_bit_flag = src.reverse_bit_flag;
             status[0] = src.status[0];
             status[1] = src.status[1];
             status[2] = src.status[2];
-- 
2.43.0


From 5b73aedd7a0049ff6170da6b3f153781ebfd0b49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:58:34 +0000
Subject: [PATCH 18/33] fix: dSFMT::isZero tested only half of the remembered
 high word in weight mode 1

---
 samples/dSFMTdc/dSFMTsearch.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/samples/dSFMTdc/dSFMTsearch.hpp b/samples/dSFMTdc/dSFMTsearch.hpp
index e54d833..74699c9 100644
--- a/samples/dSFMTdc/dSFMTsearch.hpp
+++ b/samples/dSFMTdc/dSFMTsearch.hpp
@@ -424,7 +424,7 @@ namespace MTToolBox {
                 return true;
             case 1:
             default:
-                return previous.u[1] == 0;
+                return previous.u64[1] == 0;
             }
         }
 
-- 
2.43.0


From a8e25c8dd626e576a688487c5971d22849f84c44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:58:34 +0000
Subject: [PATCH 19/33] fix: xorshift128_init_by_array computed a state but
 never stored it

---
 samples/XORSHIFT/xorshift128.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/samples/XORSHIFT/xorshift128.c b/samples/XORSHIFT/xorshift128.c
index 26807ea..bd7cf55 100644
--- a/samples/XORSHIFT/xorshift128.c
+++ b/samples/XORSHIFT/xorshift128.c
@@ -93,6 +93,10 @@ void xorshift128_init_by_array(xorshift128_t * xor,
         st[i % size] = r;
         i = (i + 1) % size;
     }
+    xor->x = st[0];
+    xor->y = st[1];
+    xor->z = st[2];
+    xor->w = st[3];
     period_certification(xor);
 }
 
-- 
2.43.0


From 38b230bfa0b729346daa8011e22bf3c069eb75e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:09:16 +0000
Subject: [PATCH 20/33] fix: mtgp_param printed an uninitialised digest and had
 uninitialised members

---
 samples/MTGPDC/mtgp_param.h | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/samples/MTGPDC/mtgp_param.h b/samples/MTGPDC/mtgp_param.h
index 6fc46f3..cb9b908 100644
--- a/samples/MTGPDC/mtgp_param.h
+++ b/samples/MTGPDC/mtgp_param.h
@@ -29,6 +29,13 @@ namespace mtgp {
     template<typename T> class mtgp_param {
     public:
         mtgp_param() {
+            mexp = 0;
+            pos = 0;
+            sh1 = 0;
+            sh2 = 0;
+            id = 0;
+            mask = 0;
+            sha1[0] = 0;
             for (int i = 0; i < 4; i++) {
                 tbl[i] = 0;
                 tmp_tbl[i] = 0;
@@ -58,9 +65,10 @@ namespace mtgp {
                 tp[i] = that.tp[i];
             }
 #if defined(USE_SHA)
-            for (int i = 0; i < SHA_DIGEST_LENGTH * 2; i++) {
+            for (int i = 0; i < SHA_DIGEST_LENGTH * 2 + 1; i++) {
                 sha1[i] = that.sha1[i];
             }
+#else
             sha1[0] = that.sha1[0];
 #endif
         }
-- 
2.43.0


From e3324179eab370c39e0bc63df44d255830b7b65a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:38:38 +0000
Subject: [PATCH 21/33] fix: SIMD and dSFMT equidistribution underestimated
 k(v) when the window is not a multiple of the vector

The weighted norm multiplies the delayed elements by x^-1, but the standard
basis vectors of these elements were not multiplied: windows whose length is
not a multiple of the number of elements were never decided.
---
 samples/dSFMTdc/AlgorithmDSFMTEquidistribution.hpp |  9 ++++++++-
 samples/dSFMTdc/dSFMTsearch.hpp                    |  2 +-
 samples/sfmtdc/AlgorithmSIMDEquidistribution.hpp   | 10 +++++++++-
 samples/sfmtdc/sfmtsearch.hpp                      |  2 +-
 4 files changed, 19 insertions(+), 4 deletions(-)

diff --git a/samples/dSFMTdc/AlgorithmDSFMTEquidistribution.hpp b/samples/dSFMTdc/AlgorithmDSFMTEquidistribution.hpp
index 3331286..0742160 100644
--- a/samples/dSFMTdc/AlgorithmDSFMTEquidistribution.hpp
+++ b/samples/dSFMTdc/AlgorithmDSFMTEquidistribution.hpp
@@ -293,11 +293,16 @@ namespace MTToolBox {
             cout << "bit_size = " << dec << bit_size << endl;
 #endif
             this->info = info;
+            weight = rand.getWeightMode();
             size = bit_size + 1;
             basis = new linear_vec * [static_cast<unsigned long>(size)];
             stateBitSize = maxbitsize;
             for (int i = 0; i < bit_size; i++) {
                 basis[i] = new linear_vec(rand, i, info);
+                // elements delayed by the weight mode are multiplied by x^-1
+                if (i / bit_len >= weight) {
+                    basis[i]->count = 1;
+                }
             }
             basis[bit_size] = new linear_vec(rand, info);
             basis[bit_size]->next_state(bit_len);
@@ -376,6 +381,8 @@ namespace MTToolBox {
          *\endenglish
          */
         DSFMTInfo info;
+        /** number of elements which are not delayed by the weight mode */
+        int weight;
         int size;
     };
 
@@ -675,7 +682,7 @@ namespace MTToolBox {
             }
         }
         int result = min_count;
-        if (result > stateBitSize / bitSize) {
+        if (result * bitSize - (info.elementNo - weight) * v > stateBitSize) {
 //        if (result > stateBitSize / (bitSize / info.elementNo)) {
             cerr << "over theoretical bound" << endl;
             cout << "bitSize = " << dec << bitSize << endl;
diff --git a/samples/dSFMTdc/dSFMTsearch.hpp b/samples/dSFMTdc/dSFMTsearch.hpp
index 74699c9..6e75499 100644
--- a/samples/dSFMTdc/dSFMTsearch.hpp
+++ b/samples/dSFMTdc/dSFMTsearch.hpp
@@ -345,7 +345,7 @@ namespace MTToolBox {
             previous.u64[1] = 0;
         }
 
-        int getWeightMode() {
+        int getWeightMode() const {
             return weight_mode;
         }
         /**
diff --git a/samples/sfmtdc/AlgorithmSIMDEquidistribution.hpp b/samples/sfmtdc/AlgorithmSIMDEquidistribution.hpp
index d3d771b..65fba2b 100644
--- a/samples/sfmtdc/AlgorithmSIMDEquidistribution.hpp
+++ b/samples/sfmtdc/AlgorithmSIMDEquidistribution.hpp
@@ -299,11 +299,17 @@ namespace MTToolBox {
             cout << "bit_size = " << dec << bit_size << endl;
 #endif
             this->info = info;
+            weight = info.bitMode == 32 ? rand.getWeightMode()
+                : rand.getWeightMode() / 2;
             size = bit_size + 1;
             basis = new linear_vec * [static_cast<unsigned int>(size)];
             stateBitSize = maxbitsize;
             for (int i = 0; i < bit_size; i++) {
                 basis[i] = new linear_vec(rand, i, info, lsb);
+                // elements delayed by the weight mode are multiplied by x^-1
+                if (i / bit_len >= weight) {
+                    basis[i]->count = 1;
+                }
             }
             basis[bit_size] = new linear_vec(rand, info, lsb);
             basis[bit_size]->next_state(bit_len);
@@ -382,6 +388,8 @@ namespace MTToolBox {
          *\endenglish
          */
         SIMDInfo info;
+        /** number of elements which are not delayed by the weight mode */
+        int weight;
         int size;
     };
 
@@ -706,7 +714,7 @@ namespace MTToolBox {
             }
         }
         int result = min_count;
-        if (result > stateBitSize / bitSize) {
+        if (result * bitSize - (info.elementNo - weight) * v > stateBitSize) {
 //        if (result > stateBitSize / (bitSize / info.elementNo)) {
             cerr << "over theoretical bound" << endl;
             cout << "bitSize = " << dec << bitSize << endl;
diff --git a/samples/sfmtdc/sfmtsearch.hpp b/samples/sfmtdc/sfmtsearch.hpp
index 94676f3..8139748 100644
--- a/samples/sfmtdc/sfmtsearch.hpp
+++ b/samples/sfmtdc/sfmtsearch.hpp
@@ -433,7 +433,7 @@ namespace MTToolBox {
             previous.u64[1] = 0;
         }
 
-        int getWeightMode() {
+        int getWeightMode() const {
             return weight_mode;
         }
         /**
-- 
2.43.0


From fafa12a4deed843b8636ac7d5c8431f60264779f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:21:47 +0000
Subject: [PATCH 22/33] fix: mt2 searched with an uninitialised seed when
 --seed was not given

---
 samples/MTDC/mt2.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/samples/MTDC/mt2.cpp b/samples/MTDC/mt2.cpp
index 4d95720..2d42736 100644
--- a/samples/MTDC/mt2.cpp
+++ b/samples/MTDC/mt2.cpp
@@ -10,6 +10,7 @@
 #include <string>
 #include <errno.h>
 #include <stdlib.h>
+#include <time.h>
 #include <iostream>
 #include <fstream>
 #include <iomanip>
@@ -274,6 +275,7 @@ bool parse_opt(options& opt, int argc, char **argv) {
     opt.count = 1;
     opt.max_delta = INT_MAX;
     opt.all = false;
+    opt.seed = static_cast<uint32_t>(clock());
     errno = 0;
     for (;;) {
 //        c = getopt_long(argc, argv, "vas:m:f:c:S:", longopts, NULL);
-- 
2.43.0


From f261411527c939ae5e3fa088915ed9abeb9c9cba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:21:47 +0000
Subject: [PATCH 23/33] fix: MTGP32dc accepted ids outside of 0 .. 2^32-1 and
 did not reset errno

---
 samples/MTGPDC/parse_opt.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/samples/MTGPDC/parse_opt.cpp b/samples/MTGPDC/parse_opt.cpp
index 707528d..d74a41c 100644
--- a/samples/MTGPDC/parse_opt.cpp
+++ b/samples/MTGPDC/parse_opt.cpp
@@ -36,6 +36,7 @@ bool parse_opt(mtgp_options& opt, int argc, char **argv) {
         {NULL, 0, NULL, 0}};
     opt.verbose = false;
     opt.count = 1;
+    errno = 0;
     for (;;) {
         c = getopt_long(argc, argv, "vs:f:c:", longopts, NULL);
         if (error) {
@@ -91,7 +92,7 @@ bool parse_opt(mtgp_options& opt, int argc, char **argv) {
         }
         long long id = strtoll(argv[1], NULL, 10);
         opt.id = static_cast<uint32_t>(id);
-        if (errno != 0) {
+        if (errno != 0 || id < 0 || id > 0xffffffffLL) {
             error = true;
             cerr << "id must be a number between 0 and 2^32-1" << endl;
         }
-- 
2.43.0


From cc785901f2440ec17c88a341cf74fec2258d4437 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:21:47 +0000
Subject: [PATCH 24/33] fix: the -f option of the dynamic creators emptied the
 file but wrote the parameters to standard output

---
 samples/MTGPDC/parse_opt.cpp   | 9 ++++-----
 samples/RMT/rmt64dc.cpp        | 9 ++++-----
 samples/TinyMTDC/parse_opt.cpp | 9 ++++-----
 samples/dSFMTdc/dSFMTdc.cpp    | 9 ++++-----
 samples/sfmtdc/sfmtdc.cpp      | 9 ++++-----
 samples/sfmtdc/sfmtdcfixed.cpp | 9 ++++-----
 6 files changed, 24 insertions(+), 30 deletions(-)

diff --git a/samples/MTGPDC/parse_opt.cpp b/samples/MTGPDC/parse_opt.cpp
index d74a41c..6b282aa 100644
--- a/samples/MTGPDC/parse_opt.cpp
+++ b/samples/MTGPDC/parse_opt.cpp
@@ -14,6 +14,7 @@
  * The new BSD License is applied to this software, see LICENSE.txt
  */
 #include <unistd.h>
+#include <stdio.h>
 #include <getopt.h>
 #include <stdlib.h>
 #include <errno.h>
@@ -97,11 +98,9 @@ bool parse_opt(mtgp_options& opt, int argc, char **argv) {
             cerr << "id must be a number between 0 and 2^32-1" << endl;
         }
     }
-    if (!opt.filename.empty()) {
-        ofstream ofs(opt.filename.c_str());
-        if (ofs) {
-            ofs.close();
-        } else {
+    if (!error && !opt.filename.empty()) {
+        // parameters are written to cout
+        if (freopen(opt.filename.c_str(), "w", stdout) == NULL) {
             error = true;
             cerr << "can't open file:" << opt.filename << endl;
         }
diff --git a/samples/RMT/rmt64dc.cpp b/samples/RMT/rmt64dc.cpp
index 07bbe92..921d47b 100644
--- a/samples/RMT/rmt64dc.cpp
+++ b/samples/RMT/rmt64dc.cpp
@@ -25,6 +25,7 @@
 #include <inttypes.h>
 #include <time.h>
 #include <unistd.h>
+#include <stdio.h>
 #include <string>
 #include <sstream>
 #include <fstream>
@@ -206,11 +207,9 @@ bool parse_opt(rmt_options& opt, int argc, char **argv) {
         }
         opt.mexp = static_cast<int>(mexp);
     }
-    if (!opt.filename.empty()) {
-        ofstream ofs(opt.filename.c_str());
-        if (ofs) {
-            ofs.close();
-        } else {
+    if (!error && !opt.filename.empty()) {
+        // parameters are written to cout
+        if (freopen(opt.filename.c_str(), "w", stdout) == NULL) {
             error = true;
             cerr << "can't open file:" << opt.filename << endl;
         }
diff --git a/samples/TinyMTDC/parse_opt.cpp b/samples/TinyMTDC/parse_opt.cpp
index 56f36e3..6dbdbad 100644
--- a/samples/TinyMTDC/parse_opt.cpp
+++ b/samples/TinyMTDC/parse_opt.cpp
@@ -18,6 +18,7 @@
  * LICENSE.txt
  */
 #include <unistd.h>
+#include <stdio.h>
 #include <getopt.h>
 #include <stdlib.h>
 #include <errno.h>
@@ -119,11 +120,9 @@ bool parse_opt(tinymt_options& opt, int argc, char **argv, uint32_t start) {
         }
         opt.uid = static_cast<uint32_t>(id);
     }
-    if (!opt.filename.empty()) {
-        ofstream ofs(opt.filename.c_str());
-        if (ofs) {
-            ofs.close();
-        } else {
+    if (!error && !opt.filename.empty()) {
+        // parameters are written to cout
+        if (freopen(opt.filename.c_str(), "w", stdout) == NULL) {
             error = true;
             cerr << "can't open file:" << opt.filename << endl;
         }
diff --git a/samples/dSFMTdc/dSFMTdc.cpp b/samples/dSFMTdc/dSFMTdc.cpp
index a1b18d4..30b78af 100644
--- a/samples/dSFMTdc/dSFMTdc.cpp
+++ b/samples/dSFMTdc/dSFMTdc.cpp
@@ -22,6 +22,7 @@
 #include <inttypes.h>
 #include <time.h>
 #include <unistd.h>
+#include <stdio.h>
 #include <string>
 #include <sstream>
 #include <fstream>
@@ -249,11 +250,9 @@ bool parse_opt(options& opt, int argc, char **argv) {
         }
         opt.mexp = static_cast<int>(mexp);
     }
-    if (!opt.filename.empty()) {
-        ofstream ofs(opt.filename.c_str());
-        if (ofs) {
-            ofs.close();
-        } else {
+    if (!error && !opt.filename.empty()) {
+        // parameters are written to cout
+        if (freopen(opt.filename.c_str(), "w", stdout) == NULL) {
             error = true;
             cerr << "can't open file:" << opt.filename << endl;
         }
diff --git a/samples/sfmtdc/sfmtdc.cpp b/samples/sfmtdc/sfmtdc.cpp
index 9154042..33000ea 100644
--- a/samples/sfmtdc/sfmtdc.cpp
+++ b/samples/sfmtdc/sfmtdc.cpp
@@ -22,6 +22,7 @@
 #include <inttypes.h>
 #include <time.h>
 #include <unistd.h>
+#include <stdio.h>
 #include <string>
 #include <sstream>
 #include <fstream>
@@ -256,11 +257,9 @@ bool parse_opt(options& opt, int argc, char **argv) {
         }
         opt.mexp = static_cast<int>(mexp);
     }
-    if (!opt.filename.empty()) {
-        ofstream ofs(opt.filename.c_str());
-        if (ofs) {
-            ofs.close();
-        } else {
+    if (!error && !opt.filename.empty()) {
+        // parameters are written to cout
+        if (freopen(opt.filename.c_str(), "w", stdout) == NULL) {
             error = true;
             cerr << "can't open file:" << opt.filename << endl;
         }
diff --git a/samples/sfmtdc/sfmtdcfixed.cpp b/samples/sfmtdc/sfmtdcfixed.cpp
index 0fa1c9a..9bdf8f2 100644
--- a/samples/sfmtdc/sfmtdcfixed.cpp
+++ b/samples/sfmtdc/sfmtdcfixed.cpp
@@ -22,6 +22,7 @@
 #include <inttypes.h>
 #include <time.h>
 #include <unistd.h>
+#include <stdio.h>
 #include <string>
 #include <sstream>
 #include <fstream>
@@ -257,11 +258,9 @@ bool parse_opt(options& opt, int argc, char **argv) {
         }
         opt.mexp = static_cast<int>(mexp);
     }
-    if (!opt.filename.empty()) {
-        ofstream ofs(opt.filename.c_str());
-        if (ofs) {
-            ofs.close();
-        } else {
+    if (!error && !opt.filename.empty()) {
+        // parameters are written to cout
+        if (freopen(opt.filename.c_str(), "w", stdout) == NULL) {
             error = true;
             cerr << "can't open file:" << opt.filename << endl;
         }
-- 
2.43.0


From 29241a70814ee940614fad283171316027445183 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:22:07 +0000
Subject: [PATCH 25/33] fix: the dynamic creators took arguments that are not
 numbers for 0

---
 samples/MTDC/mt2.cpp              | 23 +++++++++++++----------
 samples/MTGPDC/parse_opt.cpp      | 13 +++++++------
 samples/RMT/rmt64dc.cpp           | 15 +++++++++------
 samples/TinyMTDC/parse_opt.cpp    | 17 +++++++++--------
 samples/dSFMTdc/calc_equidist.cpp |  5 +++--
 samples/dSFMTdc/dSFMTdc.cpp       | 19 +++++++++++--------
 samples/sfmtdc/calc_equidist.cpp  |  5 +++--
 samples/sfmtdc/sfmtdc.cpp         | 15 +++++++++------
 samples/sfmtdc/sfmtdcfixed.cpp    | 15 +++++++++------
 9 files changed, 73 insertions(+), 54 deletions(-)

diff --git a/samples/MTDC/mt2.cpp b/samples/MTDC/mt2.cpp
index 2d42736..4014df2 100644
--- a/samples/MTDC/mt2.cpp
+++ b/samples/MTDC/mt2.cpp
@@ -261,6 +261,7 @@ void output_help(string& pgm)
 
 bool parse_opt(options& opt, int argc, char **argv) {
     int c;
+    char *end;
     bool error = false;
     string pgm = argv[0];
     static struct option longopts[] = {
@@ -306,22 +307,22 @@ bool parse_opt(options& opt, int argc, char **argv) {
             opt.verbose = true;
             break;
         case 's':
-            opt.seed = static_cast<uint32_t>(strtoull(optarg, NULL, 0));
-            if (errno) {
+            opt.seed = static_cast<uint32_t>(strtoull(optarg, &end, 0));
+            if (errno || end == optarg || *end != 0) {
                 error = true;
                 cerr << "seed must be a number" << endl;
             }
             break;
         case 'm':
-            opt.max_delta = static_cast<int>(strtol(optarg, NULL, 10));
-            if (errno) {
+            opt.max_delta = static_cast<int>(strtol(optarg, &end, 10));
+            if (errno || end == optarg || *end != 0) {
                 error = true;
                 cerr << "max must be a number" << endl;
             }
             break;
         case 'c':
-            opt.count = static_cast<int>(strtoll(optarg, NULL, 10));
-            if (errno) {
+            opt.count = static_cast<int>(strtoll(optarg, &end, 10));
+            if (errno || end == optarg || *end != 0) {
                 error = true;
                 cerr << "count must be a number" << endl;
             }
@@ -337,12 +338,12 @@ bool parse_opt(options& opt, int argc, char **argv) {
     if (argc < 2) {
         error = true;
     } else {
-        long mexp = strtol(argv[0], NULL, 10);
+        long mexp = strtol(argv[0], &end, 10);
         static const int allowed_mexp[] = {521, 607, 1279, 2203,
                                            2281, 3217, 4253, 4423,
                                            9689, 9941, 11213, 19937,
                                            21701, 23209, 44497, -1};
-        if (! errno) {
+        if (! errno && end != argv[0] && *end == 0) {
             bool found = false;
             for (int i = 0; allowed_mexp[i] > 0; i++) {
                 if (mexp == allowed_mexp[i]) {
@@ -353,6 +354,8 @@ bool parse_opt(options& opt, int argc, char **argv) {
             if (! found) {
                 error = true;
             }
+        } else {
+            error = true;
         }
         if (errno || error){
             error = true;
@@ -363,8 +366,8 @@ bool parse_opt(options& opt, int argc, char **argv) {
             cerr << endl;
         }
         opt.mexp = static_cast<int>(mexp);
-        long id = strtol(argv[1], NULL, 10);
-        if (errno != 0 || (id < 0 || id > 0xffff)) {
+        long id = strtol(argv[1], &end, 10);
+        if (errno != 0 || end == argv[1] || *end != 0 || (id < 0 || id > 0xffff)) {
             error = true;
             cerr << "id must be a number between 0 and " << 0xffff
                  << endl;
diff --git a/samples/MTGPDC/parse_opt.cpp b/samples/MTGPDC/parse_opt.cpp
index 6b282aa..07f916a 100644
--- a/samples/MTGPDC/parse_opt.cpp
+++ b/samples/MTGPDC/parse_opt.cpp
@@ -27,6 +27,7 @@ using namespace std;
 
 bool parse_opt(mtgp_options& opt, int argc, char **argv) {
     int c;
+    char *end;
     bool error = false;
     string pgm = argv[0];
     static struct option longopts[] = {
@@ -57,8 +58,8 @@ bool parse_opt(mtgp_options& opt, int argc, char **argv) {
             opt.filename = optarg;
             break;
         case 'c':
-            opt.count = strtoll(optarg, NULL, 10);
-            if (errno) {
+            opt.count = strtoll(optarg, &end, 10);
+            if (errno || end == optarg || *end != 0) {
                 error = true;
                 cerr << "count must be number" << endl;
             }
@@ -74,8 +75,8 @@ bool parse_opt(mtgp_options& opt, int argc, char **argv) {
     if (argc < 2) {
         error = true;
     } else {
-        opt.mexp = static_cast<int>(strtol(argv[0], NULL, 10));
-        if (errno != 0) {
+        opt.mexp = static_cast<int>(strtol(argv[0], &end, 10));
+        if (errno != 0 || end == argv[0] || *end != 0) {
             error = true;
             cerr << "mexp must be number" << endl;
         } else {
@@ -91,9 +92,9 @@ bool parse_opt(mtgp_options& opt, int argc, char **argv) {
                     " 110503 or 216091" << endl;
             }
         }
-        long long id = strtoll(argv[1], NULL, 10);
+        long long id = strtoll(argv[1], &end, 10);
         opt.id = static_cast<uint32_t>(id);
-        if (errno != 0 || id < 0 || id > 0xffffffffLL) {
+        if (errno != 0 || end == argv[1] || *end != 0 || id < 0 || id > 0xffffffffLL) {
             error = true;
             cerr << "id must be a number between 0 and 2^32-1" << endl;
         }
diff --git a/samples/RMT/rmt64dc.cpp b/samples/RMT/rmt64dc.cpp
index 921d47b..42127e2 100644
--- a/samples/RMT/rmt64dc.cpp
+++ b/samples/RMT/rmt64dc.cpp
@@ -131,6 +131,7 @@ bool parse_opt(rmt_options& opt, int argc, char **argv) {
     opt.seed = (uint64_t)clock();
     opt.filename = "";
     int c;
+    char *end;
     bool error = false;
     string pgm = argv[0];
     static struct option longopts[] = {
@@ -150,8 +151,8 @@ bool parse_opt(rmt_options& opt, int argc, char **argv) {
         }
         switch (c) {
         case 's':
-            opt.seed = strtoull(optarg, NULL, 0);
-            if (errno) {
+            opt.seed = strtoull(optarg, &end, 0);
+            if (errno || end == optarg || *end != 0) {
                 error = true;
                 cerr << "seed must be a number" << endl;
             }
@@ -163,8 +164,8 @@ bool parse_opt(rmt_options& opt, int argc, char **argv) {
             opt.filename = optarg;
             break;
         case 'c':
-            opt.count = strtoll(optarg, NULL, 10);
-            if (errno) {
+            opt.count = strtoll(optarg, &end, 10);
+            if (errno || end == optarg || *end != 0) {
                 error = true;
                 cerr << "count must be a number" << endl;
             }
@@ -180,12 +181,12 @@ bool parse_opt(rmt_options& opt, int argc, char **argv) {
     if (argc < 1) {
         error = true;
     } else {
-        long mexp = strtol(argv[0], NULL, 10);
+        long mexp = strtol(argv[0], &end, 10);
         static const int allowed_mexp[] = {521, 607, 1279, 2203,
                                            2281, 3217, 4253, 4423,
                                            9689, 9941, 11213, 19937,
                                            21701, 23209, 44497, -1};
-        if (! errno) {
+        if (! errno && end != argv[0] && *end == 0) {
             bool found = false;
             for (int i = 0; allowed_mexp[i] > 0; i++) {
                 if (mexp == allowed_mexp[i]) {
@@ -196,6 +197,8 @@ bool parse_opt(rmt_options& opt, int argc, char **argv) {
             if (! found) {
                 error = true;
             }
+        } else {
+            error = true;
         }
         if (errno || error){
             error = true;
diff --git a/samples/TinyMTDC/parse_opt.cpp b/samples/TinyMTDC/parse_opt.cpp
index 6dbdbad..a424e88 100644
--- a/samples/TinyMTDC/parse_opt.cpp
+++ b/samples/TinyMTDC/parse_opt.cpp
@@ -42,6 +42,7 @@ static void output_help(string& pgm, uint32_t start);
  */
 bool parse_opt(tinymt_options& opt, int argc, char **argv, uint32_t start) {
     int c;
+    char *end;
     bool error = false;
     string pgm = argv[0];
     static struct option longopts[] = {
@@ -74,8 +75,8 @@ bool parse_opt(tinymt_options& opt, int argc, char **argv, uint32_t start) {
             opt.verbose = true;
             break;
         case 's':
-            opt.start = static_cast<uint32_t>(strtoull(optarg, NULL, 0));
-            if (errno) {
+            opt.start = static_cast<uint32_t>(strtoull(optarg, &end, 0));
+            if (errno || end == optarg || *end != 0) {
                 error = true;
                 cerr << "start must be a number" << endl;
             }
@@ -88,15 +89,15 @@ bool parse_opt(tinymt_options& opt, int argc, char **argv, uint32_t start) {
             opt.filename = optarg;
             break;
         case 'm':
-            opt.max_delta = static_cast<int>(strtol(optarg, NULL, 10));
-            if (errno) {
+            opt.max_delta = static_cast<int>(strtol(optarg, &end, 10));
+            if (errno || end == optarg || *end != 0) {
                 error = true;
                 cerr << "max must be a number" << endl;
             }
             break;
         case 'c':
-            opt.count = strtoll(optarg, NULL, 10);
-            if (errno) {
+            opt.count = strtoll(optarg, &end, 10);
+            if (errno || end == optarg || *end != 0) {
                 error = true;
                 cerr << "count must be a number" << endl;
             }
@@ -112,8 +113,8 @@ bool parse_opt(tinymt_options& opt, int argc, char **argv, uint32_t start) {
     if (argc < 1) {
         error = true;
     } else {
-        long long id = strtoll(argv[0], NULL, 10);
-        if (errno != 0 || (id < 0 || id > 0xffffffff)) {
+        long long id = strtoll(argv[0], &end, 10);
+        if (errno != 0 || end == argv[0] || *end != 0 || (id < 0 || id > 0xffffffff)) {
             error = true;
             cerr << "id must be a number between 0 and " << 0xffffffff
                  << endl;
diff --git a/samples/dSFMTdc/calc_equidist.cpp b/samples/dSFMTdc/calc_equidist.cpp
index 4359481..f2abc65 100644
--- a/samples/dSFMTdc/calc_equidist.cpp
+++ b/samples/dSFMTdc/calc_equidist.cpp
@@ -109,6 +109,7 @@ static bool parse_opt(options& opt, int argc, char **argv) {
     opt.verbose = false;
     opt.seed = (uint64_t)clock();
     int c;
+    char *end;
     bool error = false;
     string pgm = argv[0];
     static struct option longopts[] = {
@@ -126,8 +127,8 @@ static bool parse_opt(options& opt, int argc, char **argv) {
         }
         switch (c) {
         case 's':
-            opt.seed = strtoull(optarg, NULL, 0);
-            if (errno) {
+            opt.seed = strtoull(optarg, &end, 0);
+            if (errno || end == optarg || *end != 0) {
                 error = true;
                 cerr << "seed must be a number" << endl;
             }
diff --git a/samples/dSFMTdc/dSFMTdc.cpp b/samples/dSFMTdc/dSFMTdc.cpp
index 30b78af..2c93cab 100644
--- a/samples/dSFMTdc/dSFMTdc.cpp
+++ b/samples/dSFMTdc/dSFMTdc.cpp
@@ -160,6 +160,7 @@ bool parse_opt(options& opt, int argc, char **argv) {
     opt.fixed = false;
     opt.fixedSL1 = 19;
     int c;
+    char *end;
     bool error = false;
     string pgm = argv[0];
     static struct option longopts[] = {
@@ -180,8 +181,8 @@ bool parse_opt(options& opt, int argc, char **argv) {
         }
         switch (c) {
         case 's':
-            opt.seed = strtoull(optarg, NULL, 0);
-            if (errno) {
+            opt.seed = strtoull(optarg, &end, 0);
+            if (errno || end == optarg || *end != 0) {
                 error = true;
                 cerr << "seed must be a number" << endl;
             }
@@ -190,8 +191,8 @@ bool parse_opt(options& opt, int argc, char **argv) {
             opt.fixed = true;
             //if ((optarg != NULL) && (strlen(optarg) > 0)) {
             if (optarg != NULL) {
-                opt.fixedSL1 = static_cast<int>(strtoull(optarg, NULL, 0));
-                if (errno) {
+                opt.fixedSL1 = static_cast<int>(strtoull(optarg, &end, 0));
+                if (errno || end == optarg || *end != 0) {
                     error = true;
                     cerr << "fixed sl1 must be a number" << endl;
                 }
@@ -206,8 +207,8 @@ bool parse_opt(options& opt, int argc, char **argv) {
             opt.filename = optarg;
             break;
         case 'c':
-            opt.count = strtoll(optarg, NULL, 10);
-            if (errno) {
+            opt.count = strtoll(optarg, &end, 10);
+            if (errno || end == optarg || *end != 0) {
                 error = true;
                 cerr << "count must be a number" << endl;
             }
@@ -223,12 +224,12 @@ bool parse_opt(options& opt, int argc, char **argv) {
     if (argc < 1) {
         error = true;
     } else {
-        long mexp = strtol(argv[0], NULL, 10);
+        long mexp = strtol(argv[0], &end, 10);
         static const int allowed_mexp[] = {521, 1279,
                                            2203, 4253,
                                            11213, 19937,
                                            44497, -1};
-        if (! errno) {
+        if (! errno && end != argv[0] && *end == 0) {
             bool found = false;
             for (int i = 0; allowed_mexp[i] > 0; i++) {
                 if (mexp == allowed_mexp[i]) {
@@ -239,6 +240,8 @@ bool parse_opt(options& opt, int argc, char **argv) {
             if (! found) {
                 error = true;
             }
+        } else {
+            error = true;
         }
         if (errno || error){
             error = true;
diff --git a/samples/sfmtdc/calc_equidist.cpp b/samples/sfmtdc/calc_equidist.cpp
index a84d1f5..a0b3e86 100644
--- a/samples/sfmtdc/calc_equidist.cpp
+++ b/samples/sfmtdc/calc_equidist.cpp
@@ -130,6 +130,7 @@ static bool parse_opt(options& opt, int argc, char **argv) {
     opt.seed = (uint64_t)clock();
     opt.reverse = false;
     int c;
+    char *end;
     bool error = false;
     string pgm = argv[0];
     static struct option longopts[] = {
@@ -148,8 +149,8 @@ static bool parse_opt(options& opt, int argc, char **argv) {
         }
         switch (c) {
         case 's':
-            opt.seed = strtoull(optarg, NULL, 0);
-            if (errno) {
+            opt.seed = strtoull(optarg, &end, 0);
+            if (errno || end == optarg || *end != 0) {
                 error = true;
                 cerr << "seed must be a number" << endl;
             }
diff --git a/samples/sfmtdc/sfmtdc.cpp b/samples/sfmtdc/sfmtdc.cpp
index 33000ea..c86e477 100644
--- a/samples/sfmtdc/sfmtdc.cpp
+++ b/samples/sfmtdc/sfmtdc.cpp
@@ -181,6 +181,7 @@ bool parse_opt(options& opt, int argc, char **argv) {
     opt.seed = (uint64_t)clock();
     opt.filename = "";
     int c;
+    char *end;
     bool error = false;
     string pgm = argv[0];
     static struct option longopts[] = {
@@ -200,8 +201,8 @@ bool parse_opt(options& opt, int argc, char **argv) {
         }
         switch (c) {
         case 's':
-            opt.seed = strtoull(optarg, NULL, 0);
-            if (errno) {
+            opt.seed = strtoull(optarg, &end, 0);
+            if (errno || end == optarg || *end != 0) {
                 error = true;
                 cerr << "seed must be a number" << endl;
             }
@@ -213,8 +214,8 @@ bool parse_opt(options& opt, int argc, char **argv) {
             opt.filename = optarg;
             break;
         case 'c':
-            opt.count = strtoll(optarg, NULL, 10);
-            if (errno) {
+            opt.count = strtoll(optarg, &end, 10);
+            if (errno || end == optarg || *end != 0) {
                 error = true;
                 cerr << "count must be a number" << endl;
             }
@@ -230,12 +231,12 @@ bool parse_opt(options& opt, int argc, char **argv) {
     if (argc < 1) {
         error = true;
     } else {
-        long mexp = strtol(argv[0], NULL, 10);
+        long mexp = strtol(argv[0], &end, 10);
         static const int allowed_mexp[] = {607, 1279,
                                            2281, 3217, 4253, 4423,
                                            9689, 9941, 11213, 19937,
                                            21701, 23209, 44497, -1};
-        if (! errno) {
+        if (! errno && end != argv[0] && *end == 0) {
             bool found = false;
             for (int i = 0; allowed_mexp[i] > 0; i++) {
                 if (mexp == allowed_mexp[i]) {
@@ -246,6 +247,8 @@ bool parse_opt(options& opt, int argc, char **argv) {
             if (! found) {
                 error = true;
             }
+        } else {
+            error = true;
         }
         if (errno || error){
             error = true;
diff --git a/samples/sfmtdc/sfmtdcfixed.cpp b/samples/sfmtdc/sfmtdcfixed.cpp
index 9bdf8f2..957110e 100644
--- a/samples/sfmtdc/sfmtdcfixed.cpp
+++ b/samples/sfmtdc/sfmtdcfixed.cpp
@@ -182,6 +182,7 @@ bool parse_opt(options& opt, int argc, char **argv) {
     opt.seed = (uint64_t)clock();
     opt.filename = "";
     int c;
+    char *end;
     bool error = false;
     string pgm = argv[0];
     static struct option longopts[] = {
@@ -201,8 +202,8 @@ bool parse_opt(options& opt, int argc, char **argv) {
         }
         switch (c) {
         case 's':
-            opt.seed = strtoull(optarg, NULL, 0);
-            if (errno) {
+            opt.seed = strtoull(optarg, &end, 0);
+            if (errno || end == optarg || *end != 0) {
                 error = true;
                 cerr << "seed must be a number" << endl;
             }
@@ -214,8 +215,8 @@ bool parse_opt(options& opt, int argc, char **argv) {
             opt.filename = optarg;
             break;
         case 'c':
-            opt.count = strtoll(optarg, NULL, 10);
-            if (errno) {
+            opt.count = strtoll(optarg, &end, 10);
+            if (errno || end == optarg || *end != 0) {
                 error = true;
                 cerr << "count must be a number" << endl;
             }
@@ -231,12 +232,12 @@ bool parse_opt(options& opt, int argc, char **argv) {
     if (argc < 1) {
         error = true;
     } else {
-        long mexp = strtol(argv[0], NULL, 10);
+        long mexp = strtol(argv[0], &end, 10);
         static const int allowed_mexp[] = {607, 1279,
                                            2281, 3217, 4253, 4423,
                                            9689, 9941, 11213, 19937,
                                            21701, 23209, 44497, -1};
-        if (! errno) {
+        if (! errno && end != argv[0] && *end == 0) {
             bool found = false;
             for (int i = 0; allowed_mexp[i] > 0; i++) {
                 if (mexp == allowed_mexp[i]) {
@@ -247,6 +248,8 @@ bool parse_opt(options& opt, int argc, char **argv) {
             if (! found) {
                 error = true;
             }
+        } else {
+            error = true;
         }
         if (errno || error){
             error = true;
-- 
2.43.0


From 7b4edd2a70df5103aeb3d47a731f8a2c31d9418c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:22:59 +0000
Subject: [PATCH 26/33] fix: the programs of sfmtdc and dSFMTdc read beyond the
 end of short parameter strings and took invalid parameters

---
 samples/dSFMTdc/calc_equidist.cpp      | 22 ++---------
 samples/dSFMTdc/calc_fixpoint_main.cpp | 14 ++-----
 samples/dSFMTdc/calc_parity_main.cpp   | 18 ++-------
 samples/dSFMTdc/calc_period.cpp        | 22 +----------
 samples/dSFMTdc/dSFMTsearch.hpp        | 44 +++++++++++++++++++++
 samples/dSFMTdc/make_old_format.cpp    | 23 +++--------
 samples/sfmtdc/calc_equidist.cpp       | 32 ++-------------
 samples/sfmtdc/calc_parity.cpp         | 33 +++-------------
 samples/sfmtdc/sfmtsearch.hpp          | 55 ++++++++++++++++++++++++++
 9 files changed, 127 insertions(+), 136 deletions(-)

diff --git a/samples/dSFMTdc/calc_equidist.cpp b/samples/dSFMTdc/calc_equidist.cpp
index f2abc65..1cdeae3 100644
--- a/samples/dSFMTdc/calc_equidist.cpp
+++ b/samples/dSFMTdc/calc_equidist.cpp
@@ -147,24 +147,10 @@ static bool parse_opt(options& opt, int argc, char **argv) {
     if (argc < 1) {
         error = true;
     } else {
-        char * para = argv[0];
-        opt.params.mexp = static_cast<int>(strtoul(para, &para, 10));
-        para++;
-        opt.params.pos1 = static_cast<int>(strtoul(para, &para, 10));
-        para++;
-        opt.params.sl1 = static_cast<int>(strtoul(para, &para, 10));
-        para++;
-        opt.params.msk1 = static_cast<uint64_t>(strtoull(para, &para, 16));
-        para++;
-        opt.params.msk2 = static_cast<uint64_t>(strtoull(para, &para, 16));
-        para++;
-        opt.params.fix1 = static_cast<uint64_t>(strtoull(para, &para, 16));
-        para++;
-        opt.params.fix2 = static_cast<uint64_t>(strtoull(para, &para, 16));
-        para++;
-        opt.params.parity1 = static_cast<uint64_t>(strtoull(para, &para, 16));
-        para++;
-        opt.params.parity2 = static_cast<uint64_t>(strtoull(para, &para, 16));
+        if (!opt.params.set_string(argv[0])) {
+            error = true;
+            cerr << "parameters are missing or out of range" << endl;
+        }
     }
     if (error) {
         output_help(pgm);
diff --git a/samples/dSFMTdc/calc_fixpoint_main.cpp b/samples/dSFMTdc/calc_fixpoint_main.cpp
index 0c148b4..1f1c3ff 100644
--- a/samples/dSFMTdc/calc_fixpoint_main.cpp
+++ b/samples/dSFMTdc/calc_fixpoint_main.cpp
@@ -144,16 +144,10 @@ static bool option(dSFMT_param& param, int argc, char * argv[])
             break;
         }
     }
-    char * para = argv[optind];
-    param.mexp = static_cast<int>(strtoul(para, &para, 10));
-    para++;
-    param.pos1 = static_cast<int>(strtoul(para, &para, 10));
-    para++;
-    param.sl1 = static_cast<int>(strtoul(para, &para, 10));
-    para++;
-    param.msk1 = static_cast<uint64_t>(strtoull(para, &para, 16));
-    para++;
-    param.msk2 = static_cast<uint64_t>(strtoull(para, &para, 16));
+    if (error || optind >= argc || !param.set_string(argv[optind], 5)) {
+        cerr << argv[0] << " [-c] mexp,pos1,sl1,msk1,msk2" << endl;
+        return false;
+    }
     return true;
 }
 
diff --git a/samples/dSFMTdc/calc_parity_main.cpp b/samples/dSFMTdc/calc_parity_main.cpp
index 11d3f5f..08d03b0 100644
--- a/samples/dSFMTdc/calc_parity_main.cpp
+++ b/samples/dSFMTdc/calc_parity_main.cpp
@@ -159,20 +159,10 @@ static bool option(dSFMT_param& param, int argc, char * argv[])
             break;
         }
     }
-    char * para = argv[optind];
-    param.mexp = static_cast<int>(strtoul(para, &para, 10));
-    para++;
-    param.pos1 = static_cast<int>(strtoul(para, &para, 10));
-    para++;
-    param.sl1 = static_cast<int>(strtoul(para, &para, 10));
-    para++;
-    param.msk1 = static_cast<uint64_t>(strtoull(para, &para, 16));
-    para++;
-    param.msk2 = static_cast<uint64_t>(strtoull(para, &para, 16));
-    para++;
-    param.fix1 = static_cast<uint64_t>(strtoull(para, &para, 16));
-    para++;
-    param.fix2 = static_cast<uint64_t>(strtoull(para, &para, 16));
+    if (error || optind >= argc || !param.set_string(argv[optind], 7)) {
+        cerr << argv[0] << " [-c] [-v] mexp,pos1,sl1,msk1,msk2,fix1,fix2" << endl;
+        return false;
+    }
     return true;
 }
 
diff --git a/samples/dSFMTdc/calc_period.cpp b/samples/dSFMTdc/calc_period.cpp
index 1f6403c..f93ebba 100644
--- a/samples/dSFMTdc/calc_period.cpp
+++ b/samples/dSFMTdc/calc_period.cpp
@@ -11,30 +11,12 @@ using namespace std;
 void min_max_poly(int &min, int& max, dSFMT& sf);
 int main(int argc, char * argv[])
 {
-    if (argc <= 1) {
+    dSFMT_param params;
+    if (argc <= 1 || !params.set_string(argv[1])) {
         cout << argv[0] << "\n mexp,pos1,sl1,msk1,msk2,fix1,fix2,"
              << "parity1,parity2" << endl;
         return 1;
     }
-    dSFMT_param params;
-    char * para = argv[1];
-    params.mexp = strtoul(para, &para, 10);
-    para++;
-    params.pos1 = strtoul(para, &para, 10);
-    para++;
-    params.sl1 = strtoul(para, &para, 10);
-    para++;
-    params.msk1 = strtoull(para, &para, 16);
-    para++;
-    params.msk2 = strtoull(para, &para, 16);
-    para++;
-    params.fix1 = strtoull(para, &para, 16);
-    para++;
-    params.fix2 = strtoull(para, &para, 16);
-    para++;
-    params.parity1 = strtoull(para, &para, 16);
-    para++;
-    params.parity2 = strtoull(para, &para, 16);
     dSFMT sf(params);
     cout << sf.getParamString() << endl;
     int se = 1;
diff --git a/samples/dSFMTdc/dSFMTsearch.hpp b/samples/dSFMTdc/dSFMTsearch.hpp
index 6e75499..f0d50bd 100644
--- a/samples/dSFMTdc/dSFMTsearch.hpp
+++ b/samples/dSFMTdc/dSFMTsearch.hpp
@@ -24,6 +24,7 @@
 #include <iostream>
 #include <iomanip>
 #include <cstdlib>
+#include <cerrno>
 #include <sstream>
 #include <MTToolBox/ReducibleGenerator.hpp>
 #include <MTToolBox/MersenneTwister64.hpp>
@@ -108,6 +109,49 @@ namespace MTToolBox {
             return s;
         }
 
+        /**
+         * Read parameters in the format of get_string().
+         * @param str string of parameters, what follows them is ignored
+         * @param required number of parameters which must be present
+         * @return false if parameters are missing or out of range
+         */
+        bool set_string(const char * str, int required = 9) {
+            unsigned long long value[9] = {0};
+            const int decimals = 3;
+            int count = 0;
+            for (const char * p = str; count < 9; p++) {
+                char * end;
+                errno = 0;
+                value[count] = strtoull(p, &end, count < decimals ? 10 : 16);
+                if (end == p || errno != 0) {
+                    break;
+                }
+                count++;
+                p = end;
+                if (*p != ',') {
+                    break;
+                }
+            }
+            if (count < required) {
+                return false;
+            }
+            if (value[0] < 521 || value[0] > 216091
+                || value[1] < 1 || value[1] > (value[0] - 128) / 104
+                || value[2] > 63) {
+                return false;
+            }
+            mexp = static_cast<int>(value[0]);
+            pos1 = static_cast<int>(value[1]);
+            sl1 = static_cast<int>(value[2]);
+            msk1 = value[3];
+            msk2 = value[4];
+            fix1 = value[5];
+            fix2 = value[6];
+            parity1 = value[7];
+            parity2 = value[8];
+            return true;
+        }
+
         /**
          * This method is used for DEBUG.
          * @return string of parameters.
diff --git a/samples/dSFMTdc/make_old_format.cpp b/samples/dSFMTdc/make_old_format.cpp
index c927d4c..6ece838 100644
--- a/samples/dSFMTdc/make_old_format.cpp
+++ b/samples/dSFMTdc/make_old_format.cpp
@@ -37,24 +37,11 @@ static bool option(dSFMT_param& param, int argc, char * argv[]) {
             break;
         }
     }
-    char * para = argv[1];
-    param.mexp = strtoul(para, &para, 10);
-    para++;
-    param.pos1 = strtoul(para, &para, 10);
-    para++;
-    param.sl1 = strtoul(para, &para, 10);
-    para++;
-    param.msk1 = strtoull(para, &para, 16);
-    para++;
-    param.msk2 = strtoull(para, &para, 16);
-    para++;
-    param.fix1 = strtoull(para, &para, 16);
-    para++;
-    param.fix2 = strtoull(para, &para, 16);
-    para++;
-    param.parity1 = strtoull(para, &para, 16);
-    para++;
-    param.parity2 = strtoull(para, &para, 16);
+    if (error || optind >= argc || !param.set_string(argv[optind], 9)) {
+        cerr << argv[0] << " mexp,pos1,sl1,msk1,msk2,fix1,fix2,"
+             << "parity1,parity2" << endl;
+        return false;
+    }
     return true;
 }
 
diff --git a/samples/sfmtdc/calc_equidist.cpp b/samples/sfmtdc/calc_equidist.cpp
index a0b3e86..0a41401 100644
--- a/samples/sfmtdc/calc_equidist.cpp
+++ b/samples/sfmtdc/calc_equidist.cpp
@@ -172,34 +172,10 @@ static bool parse_opt(options& opt, int argc, char **argv) {
     if (argc < 1) {
         error = true;
     } else {
-        char * para = argv[0];
-        opt.params.mexp = static_cast<int>(strtoul(para, &para, 10));
-        para++;
-        opt.params.pos1 = static_cast<int>(strtoul(para, &para, 10));
-        para++;
-        opt.params.sl1 = static_cast<int>(strtoul(para, &para, 10));
-        para++;
-        opt.params.sl2 = static_cast<int>(strtoul(para, &para, 10));
-        para++;
-        opt.params.sr1 = static_cast<int>(strtoul(para, &para, 10));
-        para++;
-        opt.params.sr2 = static_cast<int>(strtoul(para, &para, 10));
-        para++;
-        opt.params.msk1 = static_cast<uint32_t>(strtoul(para, &para, 16));
-        para++;
-        opt.params.msk2 = static_cast<uint32_t>(strtoul(para, &para, 16));
-        para++;
-        opt.params.msk3 = static_cast<uint32_t>(strtoul(para, &para, 16));
-        para++;
-        opt.params.msk4 = static_cast<uint32_t>(strtoul(para, &para, 16));
-        para++;
-        opt.params.parity1 = static_cast<uint32_t>(strtoul(para, &para, 16));
-        para++;
-        opt.params.parity2 = static_cast<uint32_t>(strtoul(para, &para, 16));
-        para++;
-        opt.params.parity3 = static_cast<uint32_t>(strtoul(para, &para, 16));
-        para++;
-        opt.params.parity4 = static_cast<uint32_t>(strtoul(para, &para, 16));
+        if (!opt.params.set_string(argv[0])) {
+            error = true;
+            cerr << "parameters are missing or out of range" << endl;
+        }
     }
     if (error) {
         output_help(pgm);
diff --git a/samples/sfmtdc/calc_parity.cpp b/samples/sfmtdc/calc_parity.cpp
index 8164b91..7a6cec2 100644
--- a/samples/sfmtdc/calc_parity.cpp
+++ b/samples/sfmtdc/calc_parity.cpp
@@ -171,34 +171,11 @@ static bool option(sfmt_param& param, int argc, char * argv[])
             break;
         }
     }
-    char * para = argv[optind];
-    param.mexp = strtoul(para, &para, 10);
-    para++;
-    param.pos1 = strtoul(para, &para, 10);
-    para++;
-    param.sl1 = strtoul(para, &para, 10);
-    para++;
-    param.sl2 = strtoul(para, &para, 10);
-    para++;
-    param.sr1 = strtoul(para, &para, 10);
-    para++;
-    param.sr2 = strtoul(para, &para, 10);
-    para++;
-    param.msk1 = strtoul(para, &para, 16);
-    para++;
-    param.msk2 = strtoul(para, &para, 16);
-    para++;
-    param.msk3 = strtoul(para, &para, 16);
-    para++;
-    param.msk4 = strtoul(para, &para, 16);
-    para++;
-    param.parity1 = strtoul(para, &para, 16);
-    para++;
-    param.parity2 = strtoul(para, &para, 16);
-    para++;
-    param.parity3 = strtoul(para, &para, 16);
-    para++;
-    param.parity4 = strtoul(para, &para, 16);
+    if (error || optind >= argc || !param.set_string(argv[optind], 10)) {
+        cerr << argv[0] << " [-c] [-v] mexp,pos1,sl1,sl2,sr1,sr2,msk1,msk2,msk3,msk4"
+             << "[,parity1,parity2,parity3,parity4]" << endl;
+        return false;
+    }
     return true;
 }
 
diff --git a/samples/sfmtdc/sfmtsearch.hpp b/samples/sfmtdc/sfmtsearch.hpp
index 8139748..d68cc35 100644
--- a/samples/sfmtdc/sfmtsearch.hpp
+++ b/samples/sfmtdc/sfmtsearch.hpp
@@ -25,6 +25,7 @@
 #include <iostream>
 #include <iomanip>
 #include <cstdlib>
+#include <cerrno>
 #include <sstream>
 #include <MTToolBox/ReducibleGenerator.hpp>
 #include <MTToolBox/MersenneTwister.hpp>
@@ -130,6 +131,60 @@ namespace MTToolBox {
             return s;
         }
 
+        /**
+         * Read parameters in the format of get_string().
+         * @param str string of parameters, what follows them is ignored
+         * @param required number of parameters which must be present
+         * @return false if parameters are missing or out of range
+         */
+        bool set_string(const char * str, int required = 14) {
+            unsigned long long value[14] = {0};
+            const int decimals = 6;
+            int count = 0;
+            for (const char * p = str; count < 14; p++) {
+                char * end;
+                errno = 0;
+                value[count] = strtoull(p, &end, count < decimals ? 10 : 16);
+                if (end == p || errno != 0) {
+                    break;
+                }
+                count++;
+                p = end;
+                if (*p != ',') {
+                    break;
+                }
+            }
+            if (count < required) {
+                return false;
+            }
+            if (value[0] < 521 || value[0] > 216091
+                || value[1] < 1 || value[1] > value[0] / 128
+                || value[2] > 31 || value[3] < 1 || value[3] > 7
+                || value[4] > 31 || value[5] < 1 || value[5] > 7) {
+                return false;
+            }
+            for (int i = decimals; i < count; i++) {
+                if (value[i] > 0xffffffffULL) {
+                    return false;
+                }
+            }
+            mexp = static_cast<int>(value[0]);
+            pos1 = static_cast<int>(value[1]);
+            sl1 = static_cast<int>(value[2]);
+            sl2 = static_cast<int>(value[3]);
+            sr1 = static_cast<int>(value[4]);
+            sr2 = static_cast<int>(value[5]);
+            msk1 = static_cast<uint32_t>(value[6]);
+            msk2 = static_cast<uint32_t>(value[7]);
+            msk3 = static_cast<uint32_t>(value[8]);
+            msk4 = static_cast<uint32_t>(value[9]);
+            parity1 = static_cast<uint32_t>(value[10]);
+            parity2 = static_cast<uint32_t>(value[11]);
+            parity3 = static_cast<uint32_t>(value[12]);
+            parity4 = static_cast<uint32_t>(value[13]);
+            return true;
+        }
+
         /**
          * This method is used for DEBUG.
          * @return string of parameters.
-- 
2.43.0


From f2da6983f7a4423f9f829a77cf4329460f39237e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:24:10 +0000
Subject: [PATCH 27/33] fix: the analysis programs of sfmtdc and dSFMTdc seeded
 from half uninitialised words

---
 samples/dSFMTdc/calc_equidist.cpp      | 2 +-
 samples/dSFMTdc/calc_fixpoint_main.cpp | 2 +-
 samples/dSFMTdc/calc_parity_main.cpp   | 2 +-
 samples/dSFMTdc/calc_period.cpp        | 2 +-
 samples/dSFMTdc/make_old_format.cpp    | 2 +-
 samples/sfmtdc/calc_equidist.cpp       | 2 +-
 samples/sfmtdc/calc_parity.cpp         | 2 +-
 7 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/samples/dSFMTdc/calc_equidist.cpp b/samples/dSFMTdc/calc_equidist.cpp
index 1cdeae3..b75871e 100644
--- a/samples/dSFMTdc/calc_equidist.cpp
+++ b/samples/dSFMTdc/calc_equidist.cpp
@@ -33,7 +33,7 @@ int main(int argc, char * argv[])
     //cout << sf.getParamString() << endl;
     //w128_t wseed = {{0x1234, 0x5678, 0x9abc, 0xdef0}};
     //w128_t wseed = {{0x12345, 0x56789, 0x9abcd, 0xdef01}};
-    w128_t wseed;
+    w128_t wseed = {{0, 0, 0, 0}};
     wseed.u64[0] = opt.seed;
     sf.seed(wseed);
 #if defined(DEBUG)
diff --git a/samples/dSFMTdc/calc_fixpoint_main.cpp b/samples/dSFMTdc/calc_fixpoint_main.cpp
index 1f1c3ff..93dd1f7 100644
--- a/samples/dSFMTdc/calc_fixpoint_main.cpp
+++ b/samples/dSFMTdc/calc_fixpoint_main.cpp
@@ -171,7 +171,7 @@ int main(int argc, char *argv[]) {
     if (check) {
         printf("mexp = %d, maxdegree = %d\n", mexp, maxdegree);
     }
-    w128_t w;
+    w128_t w = {{0, 0, 0, 0}};
     w.u64[0] = 1;
     dsfmt.seed(w);
     get_fixpoint(dsfmt);
diff --git a/samples/dSFMTdc/calc_parity_main.cpp b/samples/dSFMTdc/calc_parity_main.cpp
index 08d03b0..d6dc20d 100644
--- a/samples/dSFMTdc/calc_parity_main.cpp
+++ b/samples/dSFMTdc/calc_parity_main.cpp
@@ -178,7 +178,7 @@ int main(int argc, char *argv[]) {
     if (check) {
         printf("mexp = %d, maxdegree = %d\n", mexp, maxdegree);
     }
-    w128_t w;
+    w128_t w = {{0, 0, 0, 0}};
     w.u64[0] = 1;
     dsfmt.seed(w);
     GF2X poly;
diff --git a/samples/dSFMTdc/calc_period.cpp b/samples/dSFMTdc/calc_period.cpp
index f93ebba..67efadf 100644
--- a/samples/dSFMTdc/calc_period.cpp
+++ b/samples/dSFMTdc/calc_period.cpp
@@ -20,7 +20,7 @@ int main(int argc, char * argv[])
     dSFMT sf(params);
     cout << sf.getParamString() << endl;
     int se = 1;
-    w128_t seedw;
+    w128_t seedw = {{0, 0, 0, 0}};
     int min = INT_MAX;
     int max = -10;
     seedw.u[0] = se;
diff --git a/samples/dSFMTdc/make_old_format.cpp b/samples/dSFMTdc/make_old_format.cpp
index 6ece838..9e6420b 100644
--- a/samples/dSFMTdc/make_old_format.cpp
+++ b/samples/dSFMTdc/make_old_format.cpp
@@ -56,7 +56,7 @@ int main(int argc, char *argv[]) {
     cout << "succ = 1" << endl;
     cout << "mexp = " << dec << mexp;
     cout << ", maxdegree = " << dec << maxdegree << endl;
-    w128_t w;
+    w128_t w = {{0, 0, 0, 0}};
     w.u64[0] = 1;
     dsfmt.seed(w);
     cout << "pos1 = " << dec << param.pos1 << endl;
diff --git a/samples/sfmtdc/calc_equidist.cpp b/samples/sfmtdc/calc_equidist.cpp
index 0a41401..24fcece 100644
--- a/samples/sfmtdc/calc_equidist.cpp
+++ b/samples/sfmtdc/calc_equidist.cpp
@@ -34,7 +34,7 @@ int main(int argc, char * argv[])
     //cout << sf.getParamString() << endl;
     //w128_t wseed = {{0x1234, 0x5678, 0x9abc, 0xdef0}};
     //w128_t wseed = {{0x12345, 0x56789, 0x9abcd, 0xdef01}};
-    w128_t wseed;
+    w128_t wseed = {{0, 0, 0, 0}};
     wseed.u64[0] = opt.seed;
     sf.seed(wseed);
     if (!anni(sf)) {
diff --git a/samples/sfmtdc/calc_parity.cpp b/samples/sfmtdc/calc_parity.cpp
index 7a6cec2..549080b 100644
--- a/samples/sfmtdc/calc_parity.cpp
+++ b/samples/sfmtdc/calc_parity.cpp
@@ -191,7 +191,7 @@ int main(int argc, char *argv[]) {
     if (check) {
         printf("mexp = %d, maxdegree = %d\n", mexp, maxdegree);
     }
-    w128_t w;
+    w128_t w = {{0, 0, 0, 0}};
     w.u64[0] = 1;
     sf.seed(w);
     GF2X poly;
-- 
2.43.0


From 0ee98f0fc269387b6b95a1eee0fd8304e902129c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:24:10 +0000
Subject: [PATCH 28/33] fix: the analysis programs of sfmtdc and dSFMTdc ended
 with status 0 when they failed

---
 samples/dSFMTdc/calc_fixpoint_main.cpp | 4 +++-
 samples/sfmtdc/calc_parity.cpp         | 2 +-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/samples/dSFMTdc/calc_fixpoint_main.cpp b/samples/dSFMTdc/calc_fixpoint_main.cpp
index 93dd1f7..b835c4a 100644
--- a/samples/dSFMTdc/calc_fixpoint_main.cpp
+++ b/samples/dSFMTdc/calc_fixpoint_main.cpp
@@ -174,7 +174,9 @@ int main(int argc, char *argv[]) {
     w128_t w = {{0, 0, 0, 0}};
     w.u64[0] = 1;
     dsfmt.seed(w);
-    get_fixpoint(dsfmt);
+    if (!get_fixpoint(dsfmt)) {
+        return -1;
+    }
     return 0;
 }
 
diff --git a/samples/sfmtdc/calc_parity.cpp b/samples/sfmtdc/calc_parity.cpp
index 549080b..c42ef6e 100644
--- a/samples/sfmtdc/calc_parity.cpp
+++ b/samples/sfmtdc/calc_parity.cpp
@@ -207,7 +207,7 @@ int main(int argc, char *argv[]) {
         cout << "error does not have factor of degree "
              << dec << sf.getMexp() << endl;
         cout << "degree = " << dec << deg(irreducible) << endl;
-        return false;
+        return -1;
     }
     parity = calc_parity(sf, irreducible);
     cout << sf.getParamString() << endl;
-- 
2.43.0


From f1c3a18f28eadc1466056647d2d5cbb525268ca9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:24:10 +0000
Subject: [PATCH 29/33] fix: calc_equidist and calc_period of RMT read beyond
 the end of short parameter strings; their usage named the wrong order

---
 samples/RMT/calc_equidist.cpp | 24 +++++++++---------------
 samples/RMT/calc_period.cpp   | 24 +++++++++---------------
 samples/RMT/rmt64.hpp         | 32 ++++++++++++++++++++++++++++++++
 3 files changed, 50 insertions(+), 30 deletions(-)

diff --git a/samples/RMT/calc_equidist.cpp b/samples/RMT/calc_equidist.cpp
index 3b84d7b..af23824 100644
--- a/samples/RMT/calc_equidist.cpp
+++ b/samples/RMT/calc_equidist.cpp
@@ -10,23 +10,17 @@ using namespace std;
 
 int main(int argc, char * argv[])
 {
-    if (argc <= 1) {
-        cout << argv[0] << "\n mexp,pos,mata,mskb,mskc,parity" << endl;
+    int mexp;
+    int pos;
+    uint64_t mata;
+    uint64_t parity;
+    uint64_t mskb;
+    uint64_t mskc;
+    if (argc <= 1 || !parse_rmt64_params(argv[1], mexp, pos, mata, parity,
+                                         mskb, mskc)) {
+        cout << argv[0] << "\n mexp,pos,mata,parity,mskb,mskc" << endl;
         return 1;
     }
-    char * para = argv[1];
-    int mexp = static_cast<int>(strtoull(para, &para, 10));
-    para++;
-    int pos = static_cast<int>(strtoull(para, &para, 10));
-    para++;
-    uint64_t mata = static_cast<uint64_t>(strtoull(para, &para, 16));
-    para++;
-    uint64_t parity = static_cast<uint64_t>(strtoull(para, &para, 16));
-    para++;
-    uint64_t mskb = static_cast<uint64_t>(strtoull(para, &para, 16));
-    para++;
-    uint64_t mskc = static_cast<uint64_t>(strtoull(para, &para, 16));
-
     RMT64Search rmt(mexp, pos, mata, mskb, mskc, 1234);
     rmt.setParityValue(parity);
     //cout << rmt.getParamString() << endl;
diff --git a/samples/RMT/calc_period.cpp b/samples/RMT/calc_period.cpp
index 93ab620..3388942 100644
--- a/samples/RMT/calc_period.cpp
+++ b/samples/RMT/calc_period.cpp
@@ -10,23 +10,17 @@ using namespace std;
 
 int main(int argc, char * argv[])
 {
-    if (argc <= 1) {
-        cout << argv[0] << "\n mexp,pos,mata,mskb,mskc,parity" << endl;
+    int mexp;
+    int pos;
+    uint64_t mata;
+    uint64_t parity;
+    uint64_t mskb;
+    uint64_t mskc;
+    if (argc <= 1 || !parse_rmt64_params(argv[1], mexp, pos, mata, parity,
+                                         mskb, mskc)) {
+        cout << argv[0] << "\n mexp,pos,mata,parity,mskb,mskc" << endl;
         return 1;
     }
-    char * para = argv[1];
-    int mexp = static_cast<int>(strtoull(para, &para, 10));
-    para++;
-    int pos = static_cast<int>(strtoull(para, &para, 10));
-    para++;
-    uint64_t mata = static_cast<uint64_t>(strtoull(para, &para, 16));
-    para++;
-    uint64_t parity = static_cast<uint64_t>(strtoull(para, &para, 16));
-    para++;
-    uint64_t mskb = static_cast<uint64_t>(strtoull(para, &para, 16));
-    para++;
-    uint64_t mskc = static_cast<uint64_t>(strtoull(para, &para, 16));
-
     RMT64Search rmt(mexp, pos, mata, mskb, mskc, 1234);
     rmt.setParityValue(parity);
     cout << rmt.getParamString() << endl;
diff --git a/samples/RMT/rmt64.hpp b/samples/RMT/rmt64.hpp
index 3ffe367..58e71d8 100644
--- a/samples/RMT/rmt64.hpp
+++ b/samples/RMT/rmt64.hpp
@@ -7,6 +7,8 @@
 #include <MTToolBox/MersenneTwister.hpp>
 #include <MTToolBox/util.hpp>
 #include <sstream>
+#include <cerrno>
+#include <cstdlib>
 #include <string>
 #include <stdlib.h>
 #include <iostream>
@@ -264,4 +266,34 @@ private:
     int index;
 };
 
+/**
+ * Read parameters in the format of RMT64Search::getParamString().
+ * @return false if parameters are missing or out of range
+ */
+static inline bool parse_rmt64_params(const char * str, int& mexp, int& pos,
+                                      uint64_t& mata, uint64_t& parity,
+                                      uint64_t& mskb, uint64_t& mskc) {
+    unsigned long long value[6];
+    const char * p = str;
+    for (int i = 0; i < 6; i++) {
+        char * end;
+        errno = 0;
+        value[i] = strtoull(p, &end, i < 2 ? 10 : 16);
+        if (end == p || errno != 0 || (i < 5 && *end != ',')) {
+            return false;
+        }
+        p = end + 1;
+    }
+    if (value[0] < 64 || value[0] > 216091 || value[1] > value[0] / 64) {
+        return false;
+    }
+    mexp = static_cast<int>(value[0]);
+    pos = static_cast<int>(value[1]);
+    mata = value[2];
+    parity = value[3];
+    mskb = value[4];
+    mskc = value[5];
+    return true;
+}
+
 #endif // RMT_HPP
-- 
2.43.0


From d9e0199350a1fa854d6a92c2770831036ce077b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:24:44 +0000
Subject: [PATCH 30/33] fix: dSFMTdc shifted by the given sl1 even if it was
 not less than the word size

---
 samples/dSFMTdc/dSFMTdc.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/samples/dSFMTdc/dSFMTdc.cpp b/samples/dSFMTdc/dSFMTdc.cpp
index 2c93cab..6341671 100644
--- a/samples/dSFMTdc/dSFMTdc.cpp
+++ b/samples/dSFMTdc/dSFMTdc.cpp
@@ -191,11 +191,12 @@ bool parse_opt(options& opt, int argc, char **argv) {
             opt.fixed = true;
             //if ((optarg != NULL) && (strlen(optarg) > 0)) {
             if (optarg != NULL) {
-                opt.fixedSL1 = static_cast<int>(strtoull(optarg, &end, 0));
-                if (errno || end == optarg || *end != 0) {
+                unsigned long long sl1 = strtoull(optarg, &end, 0);
+                if (errno || end == optarg || *end != 0 || sl1 > 63) {
                     error = true;
-                    cerr << "fixed sl1 must be a number" << endl;
+                    cerr << "fixed sl1 must be a number less than 64" << endl;
                 }
+                opt.fixedSL1 = static_cast<int>(sl1);
             } else {
                 opt.fixedSL1 = 19;
             }
-- 
2.43.0


From 0678d7a47f6597d56468f9459c3ad5e1d4bdcaa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:24:44 +0000
Subject: [PATCH 31/33] fix: tinymt32dc truncated start positions beyond 2^32
 instead of refusing them

---
 samples/TinyMTDC/parse_opt.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/samples/TinyMTDC/parse_opt.cpp b/samples/TinyMTDC/parse_opt.cpp
index a424e88..c1c8d3f 100644
--- a/samples/TinyMTDC/parse_opt.cpp
+++ b/samples/TinyMTDC/parse_opt.cpp
@@ -43,6 +43,7 @@ static void output_help(string& pgm, uint32_t start);
 bool parse_opt(tinymt_options& opt, int argc, char **argv, uint32_t start) {
     int c;
     char *end;
+    unsigned long long pos;
     bool error = false;
     string pgm = argv[0];
     static struct option longopts[] = {
@@ -75,12 +76,13 @@ bool parse_opt(tinymt_options& opt, int argc, char **argv, uint32_t start) {
             opt.verbose = true;
             break;
         case 's':
-            opt.start = static_cast<uint32_t>(strtoull(optarg, &end, 0));
+            pos = strtoull(optarg, &end, 0);
+            opt.start = static_cast<uint32_t>(pos);
             if (errno || end == optarg || *end != 0) {
                 error = true;
                 cerr << "start must be a number" << endl;
             }
-            if (opt.start > start) {
+            if (pos > start) {
                 error = true;
                 cerr << "start must be less than or equal to " << start << endl;
             }
-- 
2.43.0


From 58cd6699544e57685794f86cf62d322da8cc280f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:05:15 +0000
Subject: [PATCH 32/33] fix: MTGP32dc truncated exponents beyond 2^32 instead
 of refusing them

---
 samples/MTGPDC/parse_opt.cpp | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/samples/MTGPDC/parse_opt.cpp b/samples/MTGPDC/parse_opt.cpp
index 07f916a..f736d8e 100644
--- a/samples/MTGPDC/parse_opt.cpp
+++ b/samples/MTGPDC/parse_opt.cpp
@@ -75,18 +75,19 @@ bool parse_opt(mtgp_options& opt, int argc, char **argv) {
     if (argc < 2) {
         error = true;
     } else {
-        opt.mexp = static_cast<int>(strtol(argv[0], &end, 10));
+        long mexp = strtol(argv[0], &end, 10);
+        opt.mexp = static_cast<int>(mexp);
         if (errno != 0 || end == argv[0] || *end != 0) {
             error = true;
             cerr << "mexp must be number" << endl;
         } else {
-            if (opt.mexp != 3217
-                && opt.mexp != 4423
-                && opt.mexp != 11213
-                && opt.mexp != 23209
-                && opt.mexp != 44497
-                && opt.mexp != 110503
-                && opt.mexp != 216091) {
+            if (mexp != 3217
+                && mexp != 4423
+                && mexp != 11213
+                && mexp != 23209
+                && mexp != 44497
+                && mexp != 110503
+                && mexp != 216091) {
                 error = true;
                 cerr << "mexp is 3217, 4423, 11213, 23209, 44497,"
                     " 110503 or 216091" << endl;
-- 
2.43.0


From 80e7ac64d235c2aeb8553fac15270026dd36ad6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:05:24 +0000
Subject: [PATCH 33/33] fix: make_old_format aborted on parameters without a
 factor of degree mexp

---
 samples/dSFMTdc/make_old_format.cpp | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/samples/dSFMTdc/make_old_format.cpp b/samples/dSFMTdc/make_old_format.cpp
index 9e6420b..cb388af 100644
--- a/samples/dSFMTdc/make_old_format.cpp
+++ b/samples/dSFMTdc/make_old_format.cpp
@@ -13,7 +13,7 @@
 using namespace MTToolBox;
 using namespace std;
 
-void get_fixpoint(dSFMT& dsfmt);
+bool get_fixpoint(dSFMT& dsfmt);
 
 static bool option(dSFMT_param& param, int argc, char * argv[]) {
     int c;
@@ -69,11 +69,13 @@ int main(int argc, char *argv[]) {
          << endl;
     cout << "pcv2 = " << hex << setw(16) << setfill('0') << param.parity2
          << endl;
-    get_fixpoint(dsfmt);
+    if (!get_fixpoint(dsfmt)) {
+        return -1;
+    }
     return 0;
 }
 
-void get_fixpoint(dSFMT& dsfmt)
+bool get_fixpoint(dSFMT& dsfmt)
 {
     GF2X poly;
     GF2X lcmpoly;
@@ -84,11 +86,12 @@ void get_fixpoint(dSFMT& dsfmt)
         cout << "error does not have factor of degree " << dec << dsfmt.getMexp()
              << endl;
         cout << "degree = " << dec << deg(irreducible) << endl;
-        throw new logic_error("error does not have factor of degree ");
+        return false;
     }
     lcmpoly = poly;
     getLCMPoly(lcmpoly, dsfmt);
     printBinary(stdout, irreducible);
     printBinary(stdout, lcmpoly);
+    return true;
 }
 
-- 
2.43.0

