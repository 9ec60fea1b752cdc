From 334a79eac68a66553158fd7330e49283b78b6e4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:43:35 +0000
Subject: [PATCH 01/34] hook: allow an external parameter set via
 TFHEPP_VERIF_PARAMS

---
 include/params.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/params.hpp b/include/params.hpp
index f72dd33..f1491d7 100644
--- a/include/params.hpp
+++ b/include/params.hpp
@@ -13,8 +13,12 @@ struct alignas(64) aligned_array : public std::array<T, N> {};
 
 enum class ErrorDistribution { ModularGaussian, CenteredBinomial };
 
+#if defined(TFHEPP_VERIF_PARAMS)
+// Verification hook: instantiate the library with an externally supplied
+// parameter set (never defined in ordinary builds).
+#include TFHEPP_VERIF_PARAMS
 // Use old 80bit security parameters. It is faster, but not recommended.
-#if defined(USE_80BIT_SECURITY)
+#elif defined(USE_80BIT_SECURITY)
 #include "params/CGGI16.hpp"
 #elif defined(USE_COMPRESS)
 #include "params/compress.hpp"
-- 
2.43.0


From 8e1d49bddbe874eb2f02c3ba4a6e8ea15652856b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:50:37 +0000
Subject: [PATCH 02/34] fix: add the message offset, not the dimension, in
 ExtractSwitchAndHomMUX

---
 src/gate.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gate.cpp b/src/gate.cpp
index 6e7976d..aac14e2 100644
--- a/src/gate.cpp
+++ b/src/gate.cpp
@@ -29,7 +29,7 @@ void ExtractSwitchAndHomMUX(TRLWE<lvl1param> &res, const TRLWE<lvl1param> &csr,
         res[0][i] += and0[0][i];
         res[1][i] += and0[1][i];
     };
-    res[1][0] += lvl1param::n;
+    res[1][0] += lvl1param::μ;
 }
 
 #define INST(P) template void HomCONSTANTONE<P>(TLWE<P> & res)
-- 
2.43.0


From 8895d9935050e2a323bcfe2f06a282691edc7114 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:50:37 +0000
Subject: [PATCH 03/34] fix: generate the lvl3 secret key

---
 src/key.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/key.cpp b/src/key.cpp
index decd903..7c24e17 100644
--- a/src/key.cpp
+++ b/src/key.cpp
@@ -12,10 +12,13 @@ lweKey::lweKey()
                                                    lvl1param::key_value_max);
     std::uniform_int_distribution<int32_t> lvl2gen(lvl2param::key_value_min,
                                                    lvl2param::key_value_max);
+    std::uniform_int_distribution<int32_t> lvl3gen(lvl3param::key_value_min,
+                                                   lvl3param::key_value_max);
     for (typename lvl0param::T &i : lvl0) i = lvl0gen(generator);
     for (typename lvlhalfparam::T &i : lvlhalf) i = lvlhalfgen(generator);
     for (typename lvl1param::T &i : lvl1) i = lvl1gen(generator);
     for (typename lvl2param::T &i : lvl2) i = lvl2gen(generator);
+    for (typename lvl3param::T &i : lvl3) i = lvl3gen(generator);
 }
 
 template <class P>
-- 
2.43.0


From 3714a40847c04fb19284408278ac4bf8099058e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:50:37 +0000
Subject: [PATCH 04/34] fix: serialize every key an EvalKey can hold

---
 include/cloudkey.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/cloudkey.hpp b/include/cloudkey.hpp
index 01bcce3..851bde8 100644
--- a/include/cloudkey.hpp
+++ b/include/cloudkey.hpp
@@ -391,7 +391,7 @@ struct EvalKey {
                 bkfftlvlh1, bkfftlvl02, bkfftlvlh2, bknttlvl01, bknttlvlh1,
                 bknttlvl02, bknttlvlh2, iksklvl10, iksklvl1h, iksklvl20,
                 iksklvl21, iksklvl22, iksklvl31, privksklvl11, privksklvl21,
-                privksklvl22);
+                privksklvl22, iksklvl2h, subiksklvl21, subprivksklvl21);
     }
 
     // emplace keys
-- 
2.43.0


From 549f12367d2240325a21fd6f77c74642fbb7ead1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:50:37 +0000
Subject: [PATCH 05/34] fix: serialize the lvl1 TLWE ports of an IOpacket

---
 include/io-packet.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/io-packet.hpp b/include/io-packet.hpp
index c31cc5c..26d48a4 100644
--- a/include/io-packet.hpp
+++ b/include/io-packet.hpp
@@ -32,7 +32,8 @@ struct IOpacket {
     template <class Archive>
     void serialize(Archive &archive)
     {
-        archive(tlwelvl0ports, trlwelvl2ports, trgswlvl2ports, numCycles);
+        archive(tlwelvl0ports, trlwelvl2ports, trgswlvl2ports, numCycles,
+                tlwelvl1ports);
     }
 };
 }  // namespace TFHEpp
\ No newline at end of file
-- 
2.43.0


From ce9d37721cd098a7c366a51d6103b264952eef1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:50:37 +0000
Subject: [PATCH 06/34] fix: do not shift the message in TLWE encryption with
 centered binomial noise

---
 include/tlwe.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/tlwe.hpp b/include/tlwe.hpp
index 4eb9406..eba429c 100644
--- a/include/tlwe.hpp
+++ b/include/tlwe.hpp
@@ -30,8 +30,8 @@ TLWE<P> tlweSymEncrypt(const typename P::T p, const uint η, const Key<P> &key)
     std::uniform_int_distribution<typename P::T> Torusdist(0, P::q - 1);
     TLWE<P> res = {};
     res[P::k * P::n] =
-        p + CenteredBinomial<P>(η)
-        << (std::numeric_limits<typename P::T>::digits - P::qbit);
+        p + (CenteredBinomial<P>(η)
+             << (std::numeric_limits<typename P::T>::digits - P::qbit));
     for (int k = 0; k < P::k; k++)
         for (int i = 0; i < P::n; i++) {
             res[k * P::n + i] =
-- 
2.43.0


From 834084d7145fece6da4cc06fd0f01145b3f998ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:43 +0000
Subject: [PATCH 07/34] fix: make the CGGI16 and CGGI19 parameter sets compile

---
 include/params/CGGI16.hpp | 12 ++++++------
 include/params/CGGI19.hpp | 16 ++++++++--------
 2 files changed, 14 insertions(+), 14 deletions(-)

diff --git a/include/params/CGGI16.hpp b/include/params/CGGI16.hpp
index c724f60..ed655be 100644
--- a/include/params/CGGI16.hpp
+++ b/include/params/CGGI16.hpp
@@ -13,7 +13,7 @@ struct lvl0param {
         ErrorDistribution::ModularGaussian;
     static const inline double α = 2.44e-5;
     using T = uint32_t;
-    static constexpr T μ = 1U << 29;
+    static constexpr std::make_signed_t<T> μ = 1 << 29;
     static constexpr uint32_t plain_modulus = 2;
     static constexpr double Δ =
         static_cast<double>(1ULL << std::numeric_limits<T>::digits) /
@@ -51,7 +51,7 @@ struct lvl1param {
         ErrorDistribution::ModularGaussian;
     static const inline double α = 3.73e-9;
     using T = uint32_t;
-    static constexpr T μ = 1U << 29;
+    static constexpr std::make_signed_t<T> μ = 1 << 29;
     static constexpr uint32_t plain_modulus = 2;
     static constexpr double Δ =
         static_cast<double>(1ULL << std::numeric_limits<T>::digits) /
@@ -71,7 +71,7 @@ struct lvl2param {
         ErrorDistribution::ModularGaussian;
     static const inline double α = std::pow(2.0, -44);
     using T = uint64_t;
-    static constexpr T μ = 1ULL << 61;
+    static constexpr std::make_signed_t<T> μ = 1LL << 61;
     static constexpr uint32_t plain_modulus = 8;
     static constexpr double Δ = μ;
 };
@@ -122,7 +122,7 @@ struct lvl1hparam {
 struct lvl11param {
     static constexpr std::uint32_t t = 0;  // number of addition in keyswitching
     static constexpr std::uint32_t basebit =
-        0;  // how many bit should be encrypted in keyswitching key
+        1;  // how many bit should be encrypted in keyswitching key
     static constexpr ErrorDistribution errordist =
         ErrorDistribution::ModularGaussian;
     static const inline double α = lvl1param::α;  // key noise
@@ -144,7 +144,7 @@ struct lvl21param {
 struct lvl20param {
     static constexpr std::uint32_t t = 0;  // number of addition in keyswitching
     static constexpr std::uint32_t basebit =
-        0;  // how many bit should be encrypted in keyswitching key
+        1;  // how many bit should be encrypted in keyswitching key
     static constexpr ErrorDistribution errordist =
         ErrorDistribution::ModularGaussian;
     static const inline double α = lvl0param::α;  // key noise
@@ -167,7 +167,7 @@ struct lvl2hparam {
 // Dummy
 struct lvl22param {
     static constexpr std::uint32_t t = 0;
-    static constexpr std::uint32_t basebit = 0;
+    static constexpr std::uint32_t basebit = 1;
     static constexpr ErrorDistribution errordist =
         ErrorDistribution::ModularGaussian;
     static const inline double α = lvl2param::α;
diff --git a/include/params/CGGI19.hpp b/include/params/CGGI19.hpp
index 4be0990..e7ea221 100644
--- a/include/params/CGGI19.hpp
+++ b/include/params/CGGI19.hpp
@@ -15,7 +15,7 @@ struct lvl0param {
         ErrorDistribution::ModularGaussian;
     static const inline double α = std::pow(2.0, -15);
     using T = uint32_t;
-    static constexpr T μ = 1U << 29;
+    static constexpr std::make_signed_t<T> μ = 1 << 29;
     static constexpr uint32_t plain_modulus = 2;
     static constexpr double Δ =
         static_cast<double>(1ULL << std::numeric_limits<T>::digits) /
@@ -53,7 +53,7 @@ struct lvl1param {
         ErrorDistribution::ModularGaussian;
     static const inline double α = std::pow(2.0, -25);
     using T = uint32_t;
-    static constexpr T μ = 1U << 29;
+    static constexpr std::make_signed_t<T> μ = 1 << 29;
     static constexpr uint32_t plain_modulus = 2;
     static constexpr double Δ =
         static_cast<double>(1ULL << std::numeric_limits<T>::digits) /
@@ -73,7 +73,7 @@ struct lvl2param {
         ErrorDistribution::ModularGaussian;
     static const inline double α = std::pow(2.0, -44);
     using T = uint64_t;
-    static constexpr T μ = 1ULL << 61;
+    static constexpr std::make_signed_t<T> μ = 1LL << 61;
     static constexpr uint32_t plain_modulus = 8;
     static constexpr double Δ = μ;
 };
@@ -103,12 +103,12 @@ struct lvl3param {
 struct lvl11param {
     static constexpr std::uint32_t t = 0;  // number of addition in keyswitching
     static constexpr std::uint32_t basebit =
-        0;  // how many bit should be encrypted in keyswitching key
+        1;  // how many bit should be encrypted in keyswitching key
     static constexpr ErrorDistribution errordist =
         ErrorDistribution::ModularGaussian;
-    static const inline double α = lvl0param::α;  // key noise
+    static const inline double α = lvl1param::α;  // key noise
     using domainP = lvl1param;
-    using targetP = lvl0param;
+    using targetP = lvl1param;
 };
 
 struct lvl10param {
@@ -146,7 +146,7 @@ struct lvl21param {
 struct lvl20param {
     static constexpr std::uint32_t t = 0;  // number of addition in keyswitching
     static constexpr std::uint32_t basebit =
-        0;  // how many bit should be encrypted in keyswitching key
+        1;  // how many bit should be encrypted in keyswitching key
     static constexpr ErrorDistribution errordist =
         ErrorDistribution::ModularGaussian;
     static const inline double α = lvl0param::α;  // key noise
@@ -169,7 +169,7 @@ struct lvl2hparam {
 // Dummy
 struct lvl22param {
     static constexpr std::uint32_t t = 0;
-    static constexpr std::uint32_t basebit = 0;
+    static constexpr std::uint32_t basebit = 1;
     static constexpr ErrorDistribution errordist =
         ErrorDistribution::ModularGaussian;
     static const inline double α = lvl2param::α;
-- 
2.43.0


From 76f42e8df97c4251f0856d1bb2dc945c333f4414 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:43 +0000
Subject: [PATCH 08/34] fix: scale centered binomial TRLWE noise from Z_q to
 the torus

---
 include/trlwe.hpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/include/trlwe.hpp b/include/trlwe.hpp
index 7e8b792..c559696 100644
--- a/include/trlwe.hpp
+++ b/include/trlwe.hpp
@@ -29,7 +29,12 @@ TRLWE<P> trlweSymEncryptZero(const uint η, const Key<P> &key)
         0, std::numeric_limits<typename P::T>::max());
     alignas(64) TRLWE<P> c;
     for (typename P::T &i : c[P::k])
-        i = (CenteredBinomial<P>(η) << std::numeric_limits<P>::digits) / P::q;
+        i = static_cast<typename P::T>(
+            (static_cast<__int128_t>(
+                 static_cast<std::make_signed_t<typename P::T>>(
+                     CenteredBinomial<P>(η)))
+             << std::numeric_limits<typename P::T>::digits) /
+            static_cast<__int128_t>(P::q));
     for (int k = 0; k < P::k; k++) {
         for (typename P::T &i : c[k]) i = Torusdist(generator);
         alignas(64) std::array<typename P::T, P::n> partkey;
-- 
2.43.0


From 5e8fa372c2d116a5d6ec1ee87c4f3875d136acea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:43 +0000
Subject: [PATCH 09/34] fix: do not share or overrun the bit buffer of
 CenteredBinomial

---
 include/utils.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/utils.hpp b/include/utils.hpp
index 3255a0b..0cbe572 100644
--- a/include/utils.hpp
+++ b/include/utils.hpp
@@ -142,14 +142,15 @@ inline typename P::T ModularGaussian(typename P::T center, double stdev)
 template <class P>
 inline typename P::T CenteredBinomial(uint η)
 {
-    static uint64_t buf;
-    static uint_fast8_t count = 64;
+    static thread_local uint64_t buf;
+    static thread_local uint_fast8_t count = 64;
     typename P::T acc = 0;
     std::uniform_int_distribution<uint64_t> dist(
         0, std::numeric_limits<uint64_t>::max());
     for (int i = 0; i < 2 * η; i++) {
         if (count >= 64) {
             buf = dist(generator);
+            count = 0;
         }
         acc += buf & 1;
         buf >>= 1;
-- 
2.43.0


From 561e2efa820e8d9f7069a68bffa0d19f36ac2325 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:43 +0000
Subject: [PATCH 10/34] fix: convert negative 64-bit Gaussian noise through a
 signed integer

---
 include/utils.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/utils.hpp b/include/utils.hpp
index 0cbe572..ae6a9a6 100644
--- a/include/utils.hpp
+++ b/include/utils.hpp
@@ -132,7 +132,7 @@ inline typename P::T ModularGaussian(typename P::T center, double stdev)
         static const double _2p64 = std::pow(2., 64);
         std::normal_distribution<double> distribution(0., 1.0);
         const double val = stdev * distribution(generator) * _2p64;
-        const uint64_t ival = static_cast<typename P::T>(val);
+        const uint64_t ival = static_cast<int64_t>(val);
         return ival + center;
     }
     else
-- 
2.43.0


From cddc5d62147a07ce345cee7605438ea0d3f54ba3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:43 +0000
Subject: [PATCH 11/34] fix: let BlindRotate with a TRLWE test vector compile

---
 include/gatebootstrapping.hpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/include/gatebootstrapping.hpp b/include/gatebootstrapping.hpp
index 20ae8a3..c39d8d6 100644
--- a/include/gatebootstrapping.hpp
+++ b/include/gatebootstrapping.hpp
@@ -119,8 +119,7 @@ void BlindRotate(TRLWE<typename P::targetP> &res,
                 << bitwidth;
         if (ā == 0) continue;
         // Do not use CMUXFFT to avoid unnecessary copy.
-        CMUXFFTwithPolynomialMulByXaiMinusOne<typename P::targetP>(res,
-                                                                   bkfft[i], ā);
+        CMUXFFTwithPolynomialMulByXaiMinusOne<P>(res, bkfft[i], ā);
     }
 #endif
 }
-- 
2.43.0


From 1732833b1d7457e2a40d65fd3e88900bb74d6228 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:43 +0000
Subject: [PATCH 12/34] fix: let the bootstrap-first GateBootstrappingNTT be
 called

---
 include/gatebootstrapping.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/gatebootstrapping.hpp b/include/gatebootstrapping.hpp
index c39d8d6..1c717e6 100644
--- a/include/gatebootstrapping.hpp
+++ b/include/gatebootstrapping.hpp
@@ -260,7 +260,7 @@ void GateBootstrapping(TLWE<typename iksP::domainP> &res,
 }
 
 template <class bkP, typename bkP::targetP::T μ, class iksP>
-void GateBootstrappingNTT(TLWE<typename iksP::tagetP> &res,
+void GateBootstrappingNTT(TLWE<typename iksP::targetP> &res,
                           const TLWE<typename bkP::domainP> &tlwe,
                           const EvalKey &ek)
 {
-- 
2.43.0


From e081b0e3368f2a03522e4dd40978a7d0fcdb1a71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:43 +0000
Subject: [PATCH 13/34] fix: convert every bootstrapping key element in
 emplacebk2bkfft

---
 include/cloudkey.hpp | 28 ++++++++++++++++------------
 1 file changed, 16 insertions(+), 12 deletions(-)

diff --git a/include/cloudkey.hpp b/include/cloudkey.hpp
index 851bde8..20d3025 100644
--- a/include/cloudkey.hpp
+++ b/include/cloudkey.hpp
@@ -479,30 +479,34 @@ struct EvalKey {
         if constexpr (std::is_same_v<P, lvl01param>) {
             bkfftlvl01 = std::make_unique_for_overwrite<
                 BootstrappingKeyFFT<lvl01param>>();
-            for (int i = 0; i < lvl01param::domainP::n; i++)
-                (*bkfftlvl01)[i][0] =
-                    ApplyFFT2trgsw<lvl1param>((*bklvl01)[i][0]);
+            for (size_t i = 0; i < bkfftlvl01->size(); i++)
+                for (size_t j = 0; j < (*bklvl01)[i].size(); j++)
+                    (*bkfftlvl01)[i][j] =
+                        ApplyFFT2trgsw<lvl1param>((*bklvl01)[i][j]);
         }
         else if constexpr (std::is_same_v<P, lvlh1param>) {
             bkfftlvlh1 = std::make_unique_for_overwrite<
                 BootstrappingKeyFFT<lvlh1param>>();
-            for (int i = 0; i < lvlh1param::domainP::n; i++)
-                (*bkfftlvlh1)[i][0] =
-                    ApplyFFT2trgsw<lvl1param>((*bklvlh1)[i][0]);
+            for (size_t i = 0; i < bkfftlvlh1->size(); i++)
+                for (size_t j = 0; j < (*bklvlh1)[i].size(); j++)
+                    (*bkfftlvlh1)[i][j] =
+                        ApplyFFT2trgsw<lvl1param>((*bklvlh1)[i][j]);
         }
         else if constexpr (std::is_same_v<P, lvl02param>) {
             bkfftlvl02 = std::make_unique_for_overwrite<
                 BootstrappingKeyFFT<lvl02param>>();
-            for (int i = 0; i < lvl02param::domainP::n; i++)
-                (*bkfftlvl02)[i][0] =
-                    ApplyFFT2trgsw<lvl2param>((*bklvl02)[i][0]);
+            for (size_t i = 0; i < bkfftlvl02->size(); i++)
+                for (size_t j = 0; j < (*bklvl02)[i].size(); j++)
+                    (*bkfftlvl02)[i][j] =
+                        ApplyFFT2trgsw<lvl2param>((*bklvl02)[i][j]);
         }
         else if constexpr (std::is_same_v<P, lvlh2param>) {
             bkfftlvlh2 = std::make_unique_for_overwrite<
                 BootstrappingKeyFFT<lvlh2param>>();
-            for (int i = 0; i < lvlh2param::domainP::n; i++)
-                (*bkfftlvlh2)[i][0] =
-                    ApplyFFT2trgsw<lvl2param>((*bklvlh2)[i][0]);
+            for (size_t i = 0; i < bkfftlvlh2->size(); i++)
+                for (size_t j = 0; j < (*bklvlh2)[i].size(); j++)
+                    (*bkfftlvlh2)[i][j] =
+                        ApplyFFT2trgsw<lvl2param>((*bklvlh2)[i][j]);
         }
         else
             static_assert(false_v<typename P::T>, "Not predefined parameter!");
-- 
2.43.0


From 8bf7b668463f391fbebe066e9ed0f92ad9b94729 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:43 +0000
Subject: [PATCH 14/34] fix: do not share the FFT scaling factor between
 processors of different size

---
 thirdparties/spqlios/fft_processor_spqlios.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/thirdparties/spqlios/fft_processor_spqlios.cpp b/thirdparties/spqlios/fft_processor_spqlios.cpp
index 31b0f34..8109a83 100644
--- a/thirdparties/spqlios/fft_processor_spqlios.cpp
+++ b/thirdparties/spqlios/fft_processor_spqlios.cpp
@@ -134,7 +134,7 @@ void FFT_Processor_Spqlios::execute_reverse_torus64(double* res, const uint64_t*
 
 void FFT_Processor_Spqlios::execute_direct_torus32(uint32_t *res, const double *a) {
     //TODO: parallelization
-    static const double _2sN = double(2) / double(N);
+    const double _2sN = double(2) / double(N);
     //for (int32_t i=0; i<N; i++) real_inout_direct[i]=a[i]*_2sn;
     {
         double *dst = real_inout_direct;
@@ -180,7 +180,7 @@ void FFT_Processor_Spqlios::execute_direct_torus32(uint32_t *res, const double *
 
 void FFT_Processor_Spqlios::execute_direct_torus32_q(uint32_t *res, const double *a, const uint32_t q) {
     //TODO: parallelization
-    static const double _2sN = double(2) / double(N);
+    const double _2sN = double(2) / double(N);
     //for (int32_t i=0; i<N; i++) real_inout_direct[i]=a[i]*_2sn;
     {
         double *dst = real_inout_direct;
@@ -226,7 +226,7 @@ void FFT_Processor_Spqlios::execute_direct_torus32_q(uint32_t *res, const double
 
 void FFT_Processor_Spqlios::execute_direct_torus32_rescale(uint32_t *res, const double *a, const double Δ) {
     //TODO: parallelization
-    static const double _2sN = double(2) / double(N);
+    const double _2sN = double(2) / double(N);
     //for (int32_t i=0; i<N; i++) real_inout_direct[i]=a[i]*_2sn;
     {
         double *dst = real_inout_direct;
@@ -270,7 +270,7 @@ void FFT_Processor_Spqlios::execute_direct_torus32_rescale(uint32_t *res, const
 }
 
 void FFT_Processor_Spqlios::execute_direct_torus64(uint64_t* res, const double* a) {
-    static const double _2sN = double(2)/double(N);
+    const double _2sN = double(2)/double(N);
     //static const double _2p64 = pow(2.,64);
     //for (int i=0; i<N; i++) real_inout_direct[i]=a[i]*_2sn;
     {
@@ -340,7 +340,7 @@ void FFT_Processor_Spqlios::execute_direct_torus64(uint64_t* res, const double*
 }
 
 void FFT_Processor_Spqlios::execute_direct_torus64_rescale(uint64_t* res, const double* a, const double Δ) {
-    static const double _2sN = double(2)/double(N);
+    const double _2sN = double(2)/double(N);
     //static const double _2p64 = pow(2.,64);
     //for (int i=0; i<N; i++) real_inout_direct[i]=a[i]*_2sn;
     {
-- 
2.43.0


From 4111210412d4d0e4241b88e68fd70e2ef1904f11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:43 +0000
Subject: [PATCH 15/34] fix: convert FFT results below 2^-11 to zero instead of
 shifting out of range

---
 thirdparties/spqlios/fft_processor_spqlios.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/thirdparties/spqlios/fft_processor_spqlios.cpp b/thirdparties/spqlios/fft_processor_spqlios.cpp
index 8109a83..e9911ce 100644
--- a/thirdparties/spqlios/fft_processor_spqlios.cpp
+++ b/thirdparties/spqlios/fft_processor_spqlios.cpp
@@ -333,7 +333,7 @@ void FFT_Processor_Spqlios::execute_direct_torus64(uint64_t* res, const double*
         // 1023 -> 52th pos -> 0th pos
         // 1075 -> 52th pos -> 52th pos
         int16_t trans = expo-1075;
-        uint64_t val2 = trans>0?(val<<trans):(val>>-trans);
+        uint64_t val2 = trans>0?(val<<trans):(trans>-64?(val>>-trans):0);
         res[i]=(vals[i]>>63)?-val2:val2;
     }
     #endif
-- 
2.43.0


From 9963f73059b7063d8767837d1912c2366b4a4e89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:43 +0000
Subject: [PATCH 16/34] fix: handle lvl2 in the ternary CMUX

---
 include/mulfft.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/mulfft.hpp b/include/mulfft.hpp
index 50c48ac..823f88e 100644
--- a/include/mulfft.hpp
+++ b/include/mulfft.hpp
@@ -420,6 +420,9 @@ inline void PolynomialMulByXaiMinusOneInFD(PolynomialInFD<P> &res,
     if constexpr (std::is_same_v<P, lvl1param>) {
         MulInFD<P::n>(res, poly, (*xaittlvl1)[index]);
     }
+    else {
+        MulInFD<P::n>(res, poly, (*xaittlvl2)[index]);
+    }
 }
 #endif
 }  // namespace TFHEpp
\ No newline at end of file
-- 
2.43.0


From e395cf665bf614c782917ba6322fd1953b2dfee5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:57 +0000
Subject: [PATCH 17/34] fix: initialise the lvl1 noise parameter that lweParams
 serializes

---
 include/lweParams.hpp | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/include/lweParams.hpp b/include/lweParams.hpp
index 09f48e7..ee04d8b 100644
--- a/include/lweParams.hpp
+++ b/include/lweParams.hpp
@@ -30,6 +30,16 @@ struct portablelvl0param {
     };
 };
 
+// Fresh noise of a parameter set (0 if it is not a Gaussian).
+template <class P>
+inline double freshnoise()
+{
+    if constexpr (P::errordist == ErrorDistribution::ModularGaussian)
+        return P::α;
+    else
+        return 0;
+}
+
 struct portablelvl1param {
     std::uint32_t nbit;  // dimension must be a power of 2 for ease of
                          // polynomial multiplication.
@@ -46,6 +56,7 @@ struct portablelvl1param {
           l(lvl1param::l),
           Bgbit(lvl1param::Bgbit),
           Bg(lvl1param::Bg),
+          α(freshnoise<lvl1param>()),
           approx_bit(std::numeric_limits<typename lvl1param::T>::digits)
     {
     }
-- 
2.43.0


From dda074c43a2f2607805cdda9704c09498738809a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:27 +0000
Subject: [PATCH 18/34] =?UTF-8?q?fix:=20decode=20TLWE=20integers=20with=20?=
 =?UTF-8?q?the=20level's=20=CE=94?=
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

Levels whose Δ leaves padding bits (lvl2 and lvl3 of the default set)
encrypted with Δ but decrypted with 2^digits / plain_modulus, so every
plaintext came back halved.
---
 include/tlwe.hpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/include/tlwe.hpp b/include/tlwe.hpp
index eba429c..2963e8a 100644
--- a/include/tlwe.hpp
+++ b/include/tlwe.hpp
@@ -109,7 +109,12 @@ typename P::T tlweSymIntDecrypt(const TLWE<P> &c, const Key<P> &key)
 template <class P>
 typename P::T tlweSymIntDecrypt(const TLWE<P> &c, const Key<P> &key)
 {
-    return tlweSymIntDecrypt<P, P::plain_modulus>(c, key);
+    // P::Δ may leave padding bits above the plaintext, so it is not always
+    // 2^digits / plain_modulus.
+    const typename P::T phase = tlweSymPhase<P>(c, key);
+    const typename P::T res =
+        static_cast<typename P::T>(std::round(phase / P::Δ)) % P::plain_modulus;
+    return res >= P::plain_modulus / 2 ? res - P::plain_modulus : res;
 }
 
 template <class P, std::make_signed_t<typename P::T> μ>
-- 
2.43.0


From ad546b4609d4c1e313611da468bae2cb7c341a4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:01 +0000
Subject: [PATCH 19/34] fix: transform into aligned buffers

The FFT uses aligned vector stores.  The X^a-1 tables were transformed
straight into heap memory that is only 16-byte aligned, so every program
built with USE_TERNARY or USE_KEY_BUNDLE crashed at startup.
---
 include/bfv++.hpp    |  8 +++++---
 include/cloudkey.hpp |  7 +++++--
 include/mulfft.hpp   | 10 +++++++---
 3 files changed, 17 insertions(+), 8 deletions(-)

diff --git a/include/bfv++.hpp b/include/bfv++.hpp
index 8f21f12..c4bb06c 100644
--- a/include/bfv++.hpp
+++ b/include/bfv++.hpp
@@ -14,7 +14,9 @@ template <class P>
 void TRLWEMultWithoutRelinerization(TRLWE3<P> &res, const TRLWE<P> &a,
                                     const TRLWE<P> &b)
 {
-    PolynomialInFD<P> ffta, fftb, fftc;
+    alignas(64) PolynomialInFD<P> ffta;
+    alignas(64) PolynomialInFD<P> fftb;
+    alignas(64) PolynomialInFD<P> fftc;
     TwistIFFTUInt<P>(ffta, a[0]);
     TwistIFFTUInt<P>(fftb, b[1]);
     MulInFD<P::n>(fftc, ffta, fftb);
@@ -44,9 +46,9 @@ inline void relinKeySwitch(TRLWE<P> &res, const Polynomial<P> &poly,
 {
     DecomposedPolynomial<P> decvec;
     Decomposition<P>(decvec, poly);
-    PolynomialInFD<P> decvecfft;
+    alignas(64) PolynomialInFD<P> decvecfft;
     TwistIFFT<P>(decvecfft, decvec[0]);
-    TRLWEInFD<P> resfft;
+    alignas(64) TRLWEInFD<P> resfft;
     MulInFD<P::n>(resfft[0], decvecfft, relinkeyfft[0][0]);
     MulInFD<P::n>(resfft[1], decvecfft, relinkeyfft[0][1]);
     for (int i = 1; i < P::l; i++) {
diff --git a/include/cloudkey.hpp b/include/cloudkey.hpp
index 20d3025..bdd6456 100644
--- a/include/cloudkey.hpp
+++ b/include/cloudkey.hpp
@@ -334,8 +334,11 @@ relinKeyFFT<P> relinKeyFFTgen(const Key<P>& key)
     relinKey<P> relinkey = relinKeygen<P>(key);
     relinKeyFFT<P> relinkeyfft;
     for (int i = 0; i < P::l; i++)
-        for (int j = 0; j < 2; j++)
-            TwistIFFT<P>(relinkeyfft[i][j], relinkey[i][j]);
+        for (int j = 0; j < 2; j++) {
+            alignas(64) PolynomialInFD<P> fd;
+            TwistIFFT<P>(fd, relinkey[i][j]);
+            relinkeyfft[i][j] = fd;
+        }
     return relinkeyfft;
 }
 
diff --git a/include/mulfft.hpp b/include/mulfft.hpp
index 823f88e..8b4adb6 100644
--- a/include/mulfft.hpp
+++ b/include/mulfft.hpp
@@ -320,7 +320,8 @@ inline void PolyMulRescaleUnsigned(Polynomial<P> &res, const Polynomial<P> &a,
                                    const Polynomial<P> &b)
 {
     // if constexpr (std::is_same_v<typename P::T, uint32_t>) {
-    PolynomialInFD<P> ffta, fftb;
+    alignas(64) PolynomialInFD<P> ffta;
+    alignas(64) PolynomialInFD<P> fftb;
     TwistIFFTUInt<P>(ffta, a);
     TwistIFFTUInt<P>(fftb, b);
     MulInFD<P::n>(ffta, fftb);
@@ -373,13 +374,16 @@ std::unique_ptr<std::array<PolynomialInFD<P>, 2 * P::n>> XaittGen()
     std::unique_ptr<std::array<PolynomialInFD<P>, 2 * P::n>> xaitt =
         std::make_unique<std::array<PolynomialInFD<P>, 2 * P::n>>();
     for (int i = 0; i < 2 * P::n; i++) {
-        std::array<typename P::T, P::n> xai = {};
+        alignas(64) std::array<typename P::T, P::n> xai = {};
         xai[0] = -1;
         if (i < P::n)
             xai[i] += 1;
         else
             xai[i - P::n] -= 1;
-        TwistIFFT<P>((*xaitt)[i], xai);
+        // The heap does not give the alignment the transform needs.
+        alignas(64) PolynomialInFD<P> xaifd;
+        TwistIFFT<P>(xaifd, xai);
+        (*xaitt)[i] = xaifd;
     }
     return xaitt;
 }
-- 
2.43.0


From e95d5ca954a07ad2d9e6a2675444452db8c68fbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:42 +0000
Subject: [PATCH 20/34] fix: index the X^a-1 table in range when a is a
 multiple of 2N

---
 include/mulfft.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/mulfft.hpp b/include/mulfft.hpp
index 8b4adb6..ef68749 100644
--- a/include/mulfft.hpp
+++ b/include/mulfft.hpp
@@ -420,7 +420,7 @@ inline void PolynomialMulByXaiMinusOneInFD(PolynomialInFD<P> &res,
                                            const int a)
 {
     const int mod = a % (2 * P::n);
-    const int index = mod > 0 ? mod : mod + (2 * P::n);
+    const int index = mod >= 0 ? mod : mod + (2 * P::n);
     if constexpr (std::is_same_v<P, lvl1param>) {
         MulInFD<P::n>(res, poly, (*xaittlvl1)[index]);
     }
-- 
2.43.0


From 6bb47c7f9563cea074b20f2a432c3794bcd3566f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:37 +0000
Subject: [PATCH 21/34] fix: let INTorus += add a value to itself

---
 include/INTorus.hpp | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/include/INTorus.hpp b/include/INTorus.hpp
index bf8b4db..11a9a41 100644
--- a/include/INTorus.hpp
+++ b/include/INTorus.hpp
@@ -33,11 +33,8 @@ public:
 
     INTorus &operator+=(const INTorus &b)
     {
-        this->value += b.value;
-        *this = INTorus(
-            this->value + static_cast<uint32_t>(
-                              -(this->value < b.value || this->value >= P)),
-            false);
+        const INTorus tmp = *this + b;
+        *this = tmp;
         return *this;
     }
 
-- 
2.43.0


From 311cfe687294033f16c47c95c8181b57466b998f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:45 +0000
Subject: [PATCH 22/34] fix: switch the whole key to a subset key when the
 target has k > 1

---
 include/cloudkey.hpp  | 3 ++-
 include/keyswitch.hpp | 2 +-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/cloudkey.hpp b/include/cloudkey.hpp
index bdd6456..28c952c 100644
--- a/include/cloudkey.hpp
+++ b/include/cloudkey.hpp
@@ -257,7 +257,8 @@ void subikskgen(SubsetKeySwitchingKey<P>& ksk,
                 const Key<typename P::domainP>& domainkey)
 {
     Key<typename P::targetP> subkey;
-    for (int i = 0; i < P::targetP::n; i++) subkey[i] = domainkey[i];
+    for (int i = 0; i < P::targetP::k * P::targetP::n; i++)
+        subkey[i] = domainkey[i];
     for (int i = 0;
          i < P::domainP::k * P::domainP::n - P::targetP::k * P::targetP::n; i++)
         for (int j = 0; j < P::t; j++)
diff --git a/include/keyswitch.hpp b/include/keyswitch.hpp
index 6d7d239..4a5e549 100644
--- a/include/keyswitch.hpp
+++ b/include/keyswitch.hpp
@@ -170,7 +170,7 @@ void SubsetIdentityKeySwitch(TLWE<typename P::targetP> &res,
          i < P::domainP::k * P::domainP::n - P::targetP::k * P::targetP::n;
          i++) {
         const typename P::domainP::T aibar =
-            tlwe[i + P::targetP::n] + prec_offset;
+            tlwe[i + P::targetP::k * P::targetP::n] + prec_offset;
         for (int j = 0; j < P::t; j++) {
             const uint32_t aij =
                 (aibar >> (std::numeric_limits<typename P::domainP::T>::digits -
-- 
2.43.0


From 6bfe5671af6094d411e2cd457d5e7894ffd9b763 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:43 +0000
Subject: [PATCH 23/34] fix: cover the whole key in TLWE2TRLWEIKS when the
 domain has k > 1

---
 include/cloudkey.hpp  | 2 +-
 include/keyswitch.hpp | 8 ++++----
 include/params.hpp    | 2 +-
 3 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/cloudkey.hpp b/include/cloudkey.hpp
index 28c952c..431c367 100644
--- a/include/cloudkey.hpp
+++ b/include/cloudkey.hpp
@@ -148,7 +148,7 @@ void tlwe2trlweikskgen(TLWE2TRLWEIKSKey<P>& iksk,
                        const Key<typename P::domainP>& domainkey,
                        const Key<typename P::targetP>& targetkey)
 {
-    for (int i = 0; i < P::domainP::n; i++)
+    for (int i = 0; i < P::domainP::k * P::domainP::n; i++)
         for (int j = 0; j < P::t; j++)
             for (uint32_t k = 0; k < (1 << P::basebit) - 1; k++) {
                 Polynomial<typename P::targetP> p = {};
diff --git a/include/keyswitch.hpp b/include/keyswitch.hpp
index 4a5e549..bf60f99 100644
--- a/include/keyswitch.hpp
+++ b/include/keyswitch.hpp
@@ -198,15 +198,15 @@ void TLWE2TRLWEIKS(TRLWE<typename P::targetP> &res,
     constexpr uint32_t target_digit =
         std::numeric_limits<typename P::targetP::T>::digits;
     if constexpr (domain_digit == target_digit)
-        res[P::targetP::k][0] = tlwe[P::domainP::n];
+        res[P::targetP::k][0] = tlwe[P::domainP::k * P::domainP::n];
     else if constexpr (domain_digit > target_digit)
-        res[P::targetP::k][0] = (tlwe[P::domainP::n] +
+        res[P::targetP::k][0] = (tlwe[P::domainP::k * P::domainP::n] +
                                  (1ULL << (domain_digit - target_digit - 1))) >>
                                 (domain_digit - target_digit);
     else if constexpr (domain_digit < target_digit)
-        res[P::targetP::k][0] = tlwe[P::domainP::n]
+        res[P::targetP::k][0] = tlwe[P::domainP::k * P::domainP::n]
                                 << (target_digit - domain_digit);
-    for (int i = 0; i < P::domainP::n; i++) {
+    for (int i = 0; i < P::domainP::k * P::domainP::n; i++) {
         const typename P::domainP::T aibar = tlwe[i] + prec_offset;
         for (int j = 0; j < P::t; j++) {
             const uint32_t aij =
diff --git a/include/params.hpp b/include/params.hpp
index f1491d7..7342b29 100644
--- a/include/params.hpp
+++ b/include/params.hpp
@@ -163,7 +163,7 @@ template <class P>
 using TLWE2TRLWEIKSKey = std::array<
     std::array<std::array<TRLWE<typename P::targetP>, (1 << P::basebit) - 1>,
                P::t>,
-    P::domainP::n>;
+    P::domainP::k * P::domainP::n>;
 template <class P>
 using EvalAutoKey = std::array<HalfTRGSWFFT<P>, P::k>;
 template <class P>
-- 
2.43.0


From b56cfdd4904da992d9a1238fd920ce5ed10bd5d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:37 +0000
Subject: [PATCH 24/34] fix: shift by the width of the decomposed word in
 SubsetPrivKeySwitch

The shift amounts were computed from the domain's word size although the
decomposed word is the target's; for lvl21 every shift was out of range.
---
 include/keyswitch.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/keyswitch.hpp b/include/keyswitch.hpp
index bf60f99..4117c85 100644
--- a/include/keyswitch.hpp
+++ b/include/keyswitch.hpp
@@ -328,8 +328,8 @@ void SubsetPrivKeySwitch(TRLWE<typename P::targetP> &res,
         const typename P::targetP::T aibar = tlwe[i] + prec_offset;
 
         for (int j = 0; j < P::t; j++) {
-            const typename P::domainP::T aij =
-                (aibar >> (std::numeric_limits<typename P::domainP::T>::digits -
+            const typename P::targetP::T aij =
+                (aibar >> (std::numeric_limits<typename P::targetP::T>::digits -
                            (j + 1) * P::basebit)) &
                 mask;
 
-- 
2.43.0


From 065338746ef1e288136e0bc06154ff60c106f520 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:59 +0000
Subject: [PATCH 25/34] fix: use the torus gadget and sign for torus samples of
 a level with q

External products through the FFT scaled the plaintext by q/2^w because the
rows carried the gadget of Z_q; only samples kept modulo q use that one.
Decryption reduced a torus phase modulo q.
---
 include/trgsw.hpp | 25 ++++++++++++++++---------
 include/trlwe.hpp | 10 +++-------
 2 files changed, 19 insertions(+), 16 deletions(-)

diff --git a/include/trgsw.hpp b/include/trgsw.hpp
index 59fc30d..1e6036e 100644
--- a/include/trgsw.hpp
+++ b/include/trgsw.hpp
@@ -249,18 +249,25 @@ void trgswnttExternalProduct(TRLWE<P> &res, const TRLWE<P> &trlwe,
     for (int k = 0; k < P::k + 1; k++) TwistNTT<P>(res[k], restrlwentt[k]);
 }
 
+// Gadget of the torus
 template <class P>
 constexpr std::array<typename P::T, P::l> hgen()
 {
     std::array<typename P::T, P::l> h{};
-    if constexpr (hasq<P>)
-        for (int i = 0; i < P::l; i++)
-            h[i] = (P::q + (1ULL << ((i + 1) * P::Bgbit - 1))) >>
-                   ((i + 1) * P::Bgbit);
-    else
-        for (int i = 0; i < P::l; i++)
-            h[i] = 1ULL << (std::numeric_limits<typename P::T>::digits -
-                            (i + 1) * P::Bgbit);
+    for (int i = 0; i < P::l; i++)
+        h[i] = 1ULL << (std::numeric_limits<typename P::T>::digits -
+                        (i + 1) * P::Bgbit);
+    return h;
+}
+
+// Gadget of Z_q, for samples that are kept modulo q
+template <class P>
+constexpr std::array<typename P::T, P::l> hgenq()
+{
+    std::array<typename P::T, P::l> h{};
+    for (int i = 0; i < P::l; i++)
+        h[i] =
+            (P::q + (1ULL << ((i + 1) * P::Bgbit - 1))) >> ((i + 1) * P::Bgbit);
     return h;
 }
 
@@ -504,7 +511,7 @@ TRGSWRAINTT<P> trgswrainttSymEncrypt(const Polynomial<P> &p, const uint η,
 {
     if constexpr (hasq<P> && P::q == raintt::P) {
         constexpr uint8_t remainder = ((P::nbit - 1) % 3) + 1;
-        constexpr std::array<typename P::T, P::l> h = hgen<P>();
+        constexpr std::array<typename P::T, P::l> h = hgenq<P>();
         TRGSWRAINTT<P> trgswraintt;
         for (TRLWERAINTT<P> &trlweraintt : trgswraintt) {
             trlweraintt = trlwerainttSymEncryptZero<P>(η, key);
diff --git a/include/trlwe.hpp b/include/trlwe.hpp
index c559696..77b9711 100644
--- a/include/trlwe.hpp
+++ b/include/trlwe.hpp
@@ -190,13 +190,9 @@ std::array<bool, P::n> trlweSymDecrypt(const TRLWE<P> &c, const Key<P> &key)
     Polynomial<P> phase = trlwePhase<P>(c, key);
 
     std::array<bool, P::n> p;
-    if constexpr (hasq<P>) {
-        for (int i = 0; i < P::n; i++) p[i] = (phase[i] % P::q) < P::q / 2;
-    }
-    else
-        for (int i = 0; i < P::n; i++)
-            p[i] = static_cast<typename std::make_signed<typename P::T>::type>(
-                       phase[i]) > 0;
+    for (int i = 0; i < P::n; i++)
+        p[i] = static_cast<typename std::make_signed<typename P::T>::type>(
+                   phase[i]) > 0;
     return p;
 }
 
-- 
2.43.0


From 02ce8ececf844f4490990fed41c9fca8e7a34db7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:01 +0000
Subject: [PATCH 26/34] fix: bundle every row of the bootstrapping key when k >
 1

---
 include/keybundle.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/keybundle.hpp b/include/keybundle.hpp
index 2ace8b4..de81190 100644
--- a/include/keybundle.hpp
+++ b/include/keybundle.hpp
@@ -69,7 +69,7 @@ void KeyBundleFFT(TRGSWFFT<typename P::targetP> &kbfft,
     else {
         kbfft = onetrgswlvl2;
     }
-    for (int i = 0; i < 2 * P::targetP::l; i++) {
+    for (int i = 0; i < (P::targetP::k + 1) * P::targetP::l; i++) {
         for (int j = 0; j < P::targetP::k + 1; j++) {
             constexpr uint32_t indexmask = 2 * P::targetP::n - 1;
             if constexpr (std::is_same_v<typename P::targetP, lvl1param>) {
-- 
2.43.0


From 5aa86364a67452ecb949d843f33a9ca90e9abc7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:49:08 +0000
Subject: [PATCH 27/34] fix: add every component in the TRLWE multiplexers when
 k > 1

---
 include/gate.hpp | 26 +++++++++++---------------
 src/gate.cpp     |  8 +++-----
 2 files changed, 14 insertions(+), 20 deletions(-)

diff --git a/include/gate.hpp b/include/gate.hpp
index bd4bd2c..821b0b3 100644
--- a/include/gate.hpp
+++ b/include/gate.hpp
@@ -286,11 +286,9 @@ void HomMUXwoIKSandSE(TRLWE<typename bkP::targetP> &res,
     BlindRotate<bkP>(and0, temp0, ek.getbkfft<bkP>(),
                      μpolygen<typename bkP::targetP, bkP::targetP::μ>());
 
-    for (int i = 0; i < bkP::targetP::n; i++) {
-        res[0][i] += and0[0][i];
-        res[1][i] += and0[1][i];
-    };
-    res[1][0] += bkP::targetP::μ;
+    for (int k = 0; k < bkP::targetP::k + 1; k++)
+        for (int i = 0; i < bkP::targetP::n; i++) res[k][i] += and0[k][i];
+    res[bkP::targetP::k][0] += bkP::targetP::μ;
 }
 
 template <class brP, typename brP::targetP::T μ = brP::targetP::μ>
@@ -312,11 +310,10 @@ void HomMUXwoSE(TRLWE<typename brP::targetP> &res,
     BlindRotate<brP>(and0trlwe, and0, ek.getbkfft<brP>(),
                      μpolygen<typename brP::targetP, brP::targetP::μ>());
 
-    for (int i = 0; i < brP::targetP::k * brP::targetP::n; i++) {
-        res[0][i] += and0trlwe[0][i];
-        res[1][i] += and0trlwe[1][i];
-    };
-    res[1][0] += brP::targetP::μ;
+    for (int k = 0; k < brP::targetP::k + 1; k++)
+        for (int i = 0; i < brP::targetP::n; i++)
+            res[k][i] += and0trlwe[k][i];
+    res[brP::targetP::k][0] += brP::targetP::μ;
 }
 
 template <class iksP, class brP, typename brP::targetP::T μ = brP::targetP::μ>
@@ -341,11 +338,10 @@ void HomMUXwoSE(TRLWE<typename brP::targetP> &res,
     BlindRotate<brP>(and0trlwe, and0, ek.getbkfft<brP>(),
                      μpolygen<typename brP::targetP, brP::targetP::μ>());
 
-    for (int i = 0; i < brP::targetP::k * brP::targetP::n; i++) {
-        res[0][i] += and0trlwe[0][i];
-        res[1][i] += and0trlwe[1][i];
-    };
-    res[1][0] += brP::targetP::μ;
+    for (int k = 0; k < brP::targetP::k + 1; k++)
+        for (int i = 0; i < brP::targetP::n; i++)
+            res[k][i] += and0trlwe[k][i];
+    res[brP::targetP::k][0] += brP::targetP::μ;
 }
 
 void ExtractSwitchAndHomMUX(TRLWE<lvl1param> &res, const TRLWE<lvl1param> &csr,
diff --git a/src/gate.cpp b/src/gate.cpp
index aac14e2..efb2b0b 100644
--- a/src/gate.cpp
+++ b/src/gate.cpp
@@ -25,11 +25,9 @@ void ExtractSwitchAndHomMUX(TRLWE<lvl1param> &res, const TRLWE<lvl1param> &csr,
     BlindRotate<lvl01param>(and0, c0, *ek.bkfftlvl01,
                             μpolygen<lvl1param, lvl1param::μ>());
 
-    for (int i = 0; i < lvl1param::n; i++) {
-        res[0][i] += and0[0][i];
-        res[1][i] += and0[1][i];
-    };
-    res[1][0] += lvl1param::μ;
+    for (int k = 0; k < lvl1param::k + 1; k++)
+        for (int i = 0; i < lvl1param::n; i++) res[k][i] += and0[k][i];
+    res[lvl1param::k][0] += lvl1param::μ;
 }
 
 #define INST(P) template void HomCONSTANTONE<P>(TLWE<P> & res)
-- 
2.43.0


From b235a644682d510d64931dfcddfbb96306d41b3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:49:08 +0000
Subject: [PATCH 28/34] fix: offset the body of the domain sample in
 HomMUXwoIKSandSE

---
 include/gate.hpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/include/gate.hpp b/include/gate.hpp
index 821b0b3..7c41e39 100644
--- a/include/gate.hpp
+++ b/include/gate.hpp
@@ -276,10 +276,12 @@ void HomMUXwoIKSandSE(TRLWE<typename bkP::targetP> &res,
 {
     TLWE<typename bkP::domainP> temp1;
     TLWE<typename bkP::domainP> temp0;
-    for (int i = 0; i <= bkP::domainP::n; i++) temp1[i] = cs[i] + c1[i];
-    for (int i = 0; i <= bkP::domainP::n; i++) temp0[i] = -cs[i] + c0[i];
-    temp1[lvl0param::n] -= bkP::domainP::μ;
-    temp0[lvl0param::n] -= bkP::domainP::μ;
+    for (int i = 0; i <= bkP::domainP::k * bkP::domainP::n; i++)
+        temp1[i] = cs[i] + c1[i];
+    for (int i = 0; i <= bkP::domainP::k * bkP::domainP::n; i++)
+        temp0[i] = -cs[i] + c0[i];
+    temp1[bkP::domainP::k * bkP::domainP::n] -= bkP::domainP::μ;
+    temp0[bkP::domainP::k * bkP::domainP::n] -= bkP::domainP::μ;
     TRLWE<typename bkP::targetP> and0;
     BlindRotate<bkP>(res, temp1, ek.getbkfft<bkP>(),
                      μpolygen<typename bkP::targetP, bkP::targetP::μ>());
-- 
2.43.0


From 82623ab94120a14f91957f90604a06ab4ae290fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:07:16 +0000
Subject: [PATCH 29/34] fix: restore Bg when a parameter record is read

---
 include/lweParams.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/lweParams.hpp b/include/lweParams.hpp
index ee04d8b..7744836 100644
--- a/include/lweParams.hpp
+++ b/include/lweParams.hpp
@@ -217,6 +217,11 @@ struct lweParams {
                 lvl2.Bgbit, /*lvl2.α,*/ lvl2.approx_bit, lvl10.t, lvl10.basebit,
                 lvl10.α, lvl20.t, lvl20.basebit, lvl20.α, lvl21.t,
                 lvl21.basebit, lvl22.t, lvl22.basebit /*lvl22.α*/);
+        // Not part of the format, but determined by it.
+        if constexpr (Archive::is_loading::value) {
+            lvl1.Bg = 1U << lvl1.Bgbit;
+            lvl2.Bg = 1U << lvl2.Bgbit;
+        }
     }
 
     // https://cpprefjp.github.io/lang/cpp20/consistent_comparison.html
-- 
2.43.0


From e01231da53cabcae9fb856269fdfd5db13cbcf99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:11:47 +0000
Subject: [PATCH 30/34] fix: complement every row in
 CircuitBootstrappingFFTwithInv when k > 1

---
 include/circuitbootstrapping.hpp | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/include/circuitbootstrapping.hpp b/include/circuitbootstrapping.hpp
index 8406a78..967739f 100644
--- a/include/circuitbootstrapping.hpp
+++ b/include/circuitbootstrapping.hpp
@@ -154,10 +154,9 @@ void CircuitBootstrappingFFTwithInv(
             TwistIFFT<typename privksP::targetP>(trgswfft[i][j], trgsw[i][j]);
             for (int k = 0; k < privksP::targetP::n; k++) trgsw[i][j][k] *= -1;
         }
-    for (int i = 0; i < privksP::targetP::l; i++) {
-        trgsw[i][0][0] += h[i];
-        trgsw[i + privksP::targetP::l][1][0] += h[i];
-    }
+    for (int i = 0; i < privksP::targetP::l; i++)
+        for (int j = 0; j < privksP::targetP::k + 1; j++)
+            trgsw[i + j * privksP::targetP::l][j][0] += h[i];
     for (int i = 0; i < (privksP::targetP::k + 1) * privksP::targetP::l; i++)
         for (int j = 0; j < privksP::targetP::k + 1; j++)
             TwistIFFT<typename privksP::targetP>(invtrgswfft[i][j],
@@ -180,10 +179,9 @@ void CircuitBootstrappingFFTwithInv(
             TwistIFFT<typename privksP::targetP>(trgswfft[i][j], trgsw[i][j]);
             for (int k = 0; k < privksP::targetP::n; k++) trgsw[i][j][k] *= -1;
         }
-    for (int i = 0; i < privksP::targetP::l; i++) {
-        trgsw[i][0][0] += h[i];
-        trgsw[i + privksP::targetP::l][1][0] += h[i];
-    }
+    for (int i = 0; i < privksP::targetP::l; i++)
+        for (int j = 0; j < privksP::targetP::k + 1; j++)
+            trgsw[i + j * privksP::targetP::l][j][0] += h[i];
     for (int i = 0; i < (privksP::targetP::k + 1) * privksP::targetP::l; i++)
         for (int j = 0; j < privksP::targetP::k + 1; j++)
             TwistIFFT<typename privksP::targetP>(invtrgswfft[i][j],
-- 
2.43.0


From dbc4f1a1027c58df7ce6f4684bdb932f58d09bee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:15:38 +0000
Subject: [PATCH 31/34] fix: rotate every component in LROMUX when k > 1

---
 include/cmuxmem.hpp | 27 ++++++++++++---------------
 1 file changed, 12 insertions(+), 15 deletions(-)

diff --git a/include/cmuxmem.hpp b/include/cmuxmem.hpp
index db86fed..8147990 100644
--- a/include/cmuxmem.hpp
+++ b/include/cmuxmem.hpp
@@ -75,25 +75,22 @@ void LROMUX(vector<TLWE<P>> &res,
             const TRLWE<P> &data)
 {
     TRLWE<P> temp, acc;
-    PolynomialMulByXaiMinusOne<P>(temp[0], data[0], 2 * P::n - (P::n >> 1));
-    PolynomialMulByXaiMinusOne<P>(temp[1], data[1], 2 * P::n - (P::n >> 1));
+    for (int k = 0; k < P::k + 1; k++)
+        PolynomialMulByXaiMinusOne<P>(temp[k], data[k],
+                                      2 * P::n - (P::n >> 1));
     trgswfftExternalProduct<P>(temp, temp, address[width_bit - 1]);
-    for (int i = 0; i < P::n; i++) {
-        // initialize acc
-        acc[0][i] = temp[0][i] + data[0][i];
-        acc[1][i] = temp[1][i] + data[1][i];
-    }
+    for (int k = 0; k < P::k + 1; k++)
+        for (int i = 0; i < P::n; i++)
+            // initialize acc
+            acc[k][i] = temp[k][i] + data[k][i];
 
     for (uint32_t bit = 2; bit <= width_bit; bit++) {
-        PolynomialMulByXaiMinusOne<P>(temp[0], acc[0],
-                                      2 * P::n - (P::n >> bit));
-        PolynomialMulByXaiMinusOne<P>(temp[1], acc[1],
-                                      2 * P::n - (P::n >> bit));
+        for (int k = 0; k < P::k + 1; k++)
+            PolynomialMulByXaiMinusOne<P>(temp[k], acc[k],
+                                          2 * P::n - (P::n >> bit));
         trgswfftExternalProduct<P>(temp, temp, address[width_bit - bit]);
-        for (int i = 0; i < P::n; i++) {
-            acc[0][i] += temp[0][i];
-            acc[1][i] += temp[1][i];
-        }
+        for (int k = 0; k < P::k + 1; k++)
+            for (int i = 0; i < P::n; i++) acc[k][i] += temp[k][i];
     }
 
     constexpr uint32_t word = 1 << (P::nbit - width_bit);
-- 
2.43.0


From 52a30e608e5223df8a21c8ca271be68ef260a562 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:26 +0000
Subject: [PATCH 32/34] fix: divide by the whole trace factor before the trace

AnnihilateKeySwitching and the trace of TLWE2TRLWEChengsPacking halved the
ciphertext before every automorphism. Halving torus elements leaves a multiple
of q/2 in the phase, which is even only for the coefficients the remaining
automorphisms keep: the coefficients already annihilated came back as
multiples of q/2, q/4, ... Dividing by the whole factor first leaves multiples
of the reduced factor that each automorphism doubles or cancels.
---
 include/keyswitch.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/include/keyswitch.hpp b/include/keyswitch.hpp
index 4117c85..63697b7 100644
--- a/include/keyswitch.hpp
+++ b/include/keyswitch.hpp
@@ -243,10 +243,12 @@ template <class P>
 void AnnihilateKeySwitching(TRLWE<P> &res, const TRLWE<P> &trlwe,
                             const AnnihilateKey<P> &ahk)
 {
+    // Divide by the whole factor of the trace first: halving between the steps
+    // would leave multiples of q/2 in the coefficients already annihilated.
     res = trlwe;
+    for (int j = 0; j < (P::k+1) * P::n; j++) res[0][j] >>= P::nbit;
     for (int i = 0; i < P::nbit; i++) {
         TRLWE<P> evaledauto;
-        for (int j = 0; j < (P::k+1) * P::n; j++) res[0][j] /= 2;
         EvalAuto<P>(evaledauto, res, (1 << (P::nbit - i)) + 1, ahk[i]);
         for (int j = 0; j < (P::k+1) * P::n; j++) res[0][j] += evaledauto[0][j];
     }
@@ -378,9 +380,10 @@ void TLWE2TRLWEChengsPacking(TRLWE<P> &res, std::vector<TLWE<P>> &tlwe, const An
         tlwe.resize(1<<l);
     }
     PackLWEs<P>(res, tlwe, ahk, l, 0, 1);
+    // As in AnnihilateKeySwitching, divide before the trace
+    for (int j = 0; j < (P::k+1) * P::n; j++) res[0][j] >>= P::nbit - l;
     for (int i = 0; i < P::nbit - l; i++) {
         TRLWE<P> evaledauto;
-        for (int j = 0; j < (P::k+1) * P::n; j++) res[0][j] /= 2;
         EvalAuto<P>(evaledauto, res, (1 << (P::nbit - i)) + 1, ahk[i]);
         for (int j = 0; j < (P::k+1) * P::n; j++) res[0][j] += evaledauto[0][j];
     }
-- 
2.43.0


From 20619b989c1b252f1c8a78325e5ae52127d9dc24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:26 +0000
Subject: [PATCH 33/34] fix: scale mask and noise of eta-noise TLWEs from Z_q
 to the torus

For q that is not a power of two (compress lvl1, q = 40960001, qbit = 27) the
shift by digits - qbit left the mask in the lowest 30.5% of the torus and the
noise 3.3 times too small.
---
 include/tlwe.hpp | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/include/tlwe.hpp b/include/tlwe.hpp
index 2963e8a..ece06b1 100644
--- a/include/tlwe.hpp
+++ b/include/tlwe.hpp
@@ -27,16 +27,20 @@ TLWE<P> tlweSymEncrypt(const typename P::T p, const double α, const Key<P> &key
 template <class P>
 TLWE<P> tlweSymEncrypt(const typename P::T p, const uint η, const Key<P> &key)
 {
+    // scale Z_q to the torus
+    const auto q2torus = [](const typename P::T x) {
+        return static_cast<typename P::T>(
+            (static_cast<__int128_t>(
+                 static_cast<std::make_signed_t<typename P::T>>(x))
+             << std::numeric_limits<typename P::T>::digits) /
+            static_cast<__int128_t>(P::q));
+    };
     std::uniform_int_distribution<typename P::T> Torusdist(0, P::q - 1);
     TLWE<P> res = {};
-    res[P::k * P::n] =
-        p + (CenteredBinomial<P>(η)
-             << (std::numeric_limits<typename P::T>::digits - P::qbit));
+    res[P::k * P::n] = p + q2torus(CenteredBinomial<P>(η));
     for (int k = 0; k < P::k; k++)
         for (int i = 0; i < P::n; i++) {
-            res[k * P::n + i] =
-                Torusdist(generator)
-                << (std::numeric_limits<typename P::T>::digits - P::qbit);
+            res[k * P::n + i] = q2torus(Torusdist(generator));
             res[P::k * P::n] += res[k * P::n + i] * key[k * P::n + i];
         }
     return res;
-- 
2.43.0


From d4cdf072d7015d5fb155f86ede40c6a21c4f9261 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:34 +0000
Subject: [PATCH 34/34] fix: compressed set: lvl2 messages scaled by q/8
 although the torus is 64 bits wide

---
 include/params/compress.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/params/compress.hpp b/include/params/compress.hpp
index 666530e..ca20ca4 100644
--- a/include/params/compress.hpp
+++ b/include/params/compress.hpp
@@ -84,7 +84,7 @@ struct lvl2param {
     using T = uint64_t;  // Torus representation
     static constexpr T q = 1ULL << 48;
     static constexpr uint qbit = 48;
-    static constexpr std::make_signed_t<T> μ = q / 8;
+    static constexpr std::make_signed_t<T> μ = 1LL << 61;
     static constexpr uint32_t plain_modulus = 8;
     static constexpr double Δ = μ;
 };
-- 
2.43.0

