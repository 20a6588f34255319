From 0a7dacb98812f31815ad0e8c582f7065e5cdc8ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:14:50 +0000
Subject: [PATCH 01/20] fix: S-Log3 encoding multiplied inside the logarithm

The published curve is 420 + log10((x + 0.01) / 0.19) * 261.5; the decoder already inverts that one.
---
 include/colorsystem.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/colorsystem.hpp b/include/colorsystem.hpp
index 28704ee..16c159a 100644
--- a/include/colorsystem.hpp
+++ b/include/colorsystem.hpp
@@ -669,7 +669,7 @@ class OTF
 
     static const float Y_to_SLog3(const float &x)
     {
-        const auto y = x > 0.01125f ? (420.f + log10f((x + 0.01f) / (0.19f) * 261.5f))
+        const auto y = x > 0.01125f ? (420.f + log10f((x + 0.01f) / (0.19f)) * 261.5f)
                                     : (x * (171.2102946929f - 95.f) / 0.01125f + 95.f);
         return y / 1023.f;
     }
-- 
2.43.0


From 1b7bb1fc4441514ce712fb04492952a4df2ab589 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:14:50 +0000
Subject: [PATCH 02/20] fix: sign of one entry of the OKLab M1 matrix

The published M1 has +0.0329845436; with the wrong sign the D65 white is not neutral.
---
 include/colorsystem.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/colorsystem.hpp b/include/colorsystem.hpp
index 16c159a..98546b7 100644
--- a/include/colorsystem.hpp
+++ b/include/colorsystem.hpp
@@ -1419,7 +1419,7 @@ static const Tristimulus ICtCp_to_XYZ(const Tristimulus &icc)
 static const Tristimulus XYZ_to_OKLAB(const Tristimulus &xyz)
 {
     // https://bottosson.github.io/posts/oklab/
-    constexpr auto m1  = Matrix3(0.8189330101f, 0.3618667424f, -0.1288597137f, -0.0329845436f, 0.9293118715f,
+    constexpr auto m1  = Matrix3(0.8189330101f, 0.3618667424f, -0.1288597137f, 0.0329845436f, 0.9293118715f,
          0.0361456387f, 0.0482003018f, 0.2643662691f, 0.6338517070f);
     constexpr auto m2  = Matrix3(0.2104542553f, 0.7936177850f, -0.0040720468f, 1.9779984951f, -2.4285922050f,
          0.4505937099f, 0.0259040371f, 0.7827717662f, -0.8086757660f);
@@ -1454,7 +1454,7 @@ static const Tristimulus XYZ_to_OKLAB(const Tristimulus &xyz)
 
 static const Tristimulus OKLAB_to_XYZ(const Tristimulus &lab)
 {
-    constexpr auto    m1   = Matrix3(0.8189330101f, 0.3618667424f, -0.1288597137f, -0.0329845436f, 0.9293118715f,
+    constexpr auto    m1   = Matrix3(0.8189330101f, 0.3618667424f, -0.1288597137f, 0.0329845436f, 0.9293118715f,
              0.0361456387f, 0.0482003018f, 0.2643662691f, 0.6338517070f);
     constexpr auto    m2   = Matrix3(0.2104542553f, 0.7936177850f, -0.0040720468f, 1.9779984951f, -2.4285922050f,
              0.4505937099f, 0.0259040371f, 0.7827717662f, -0.8086757660f);
-- 
2.43.0


From 118154673b86b25692f00665cc1fb9b3956ed39a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:14:50 +0000
Subject: [PATCH 03/20] fix: XYZ_to_OKLAB printed its matrices to stdout on
 every call

---
 include/colorsystem.hpp | 24 ------------------------
 1 file changed, 24 deletions(-)

diff --git a/include/colorsystem.hpp b/include/colorsystem.hpp
index 98546b7..e093274 100644
--- a/include/colorsystem.hpp
+++ b/include/colorsystem.hpp
@@ -1423,30 +1423,6 @@ static const Tristimulus XYZ_to_OKLAB(const Tristimulus &xyz)
          0.0361456387f, 0.0482003018f, 0.2643662691f, 0.6338517070f);
     constexpr auto m2  = Matrix3(0.2104542553f, 0.7936177850f, -0.0040720468f, 1.9779984951f, -2.4285922050f,
          0.4505937099f, 0.0259040371f, 0.7827717662f, -0.8086757660f);
-    constexpr auto m1i = m1.invert();
-    constexpr auto m2i = m2.invert();
-    printf("\n");
-    for (int i = 0; i < 9; i++)
-    {
-        printf("%f,", m1[i]);
-    }
-    printf("\n");
-    for (int i = 0; i < 9; i++)
-    {
-        printf("%f,", m2[i]);
-    }
-    printf("\n");
-    for (int i = 0; i < 9; i++)
-    {
-        printf("%f,", m1i[i]);
-    }
-    printf("\n");
-    for (int i = 0; i < 9; i++)
-    {
-        printf("%f,", m2i[i]);
-    }
-    printf("\n");
-
     const Tristimulus lms = xyz.apply(m1);
     const Tristimulus dash(cbrtf(lms[0]), cbrtf(lms[1]), cbrtf(lms[2]));
     return dash.apply(m2);
-- 
2.43.0


From ed8b012e6e5efd9551e8a49953dd9752c9b9b869 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:14:50 +0000
Subject: [PATCH 04/20] fix: X of standard illuminant B is 0.99072

---
 include/colorsystem.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/colorsystem.hpp b/include/colorsystem.hpp
index e093274..69e7d2d 100644
--- a/include/colorsystem.hpp
+++ b/include/colorsystem.hpp
@@ -1352,7 +1352,7 @@ class Spectrum
 
 // standard illuminants
 static constexpr Tristimulus Illuminant_A(1.09850f, 1.f, 0.35585f);
-static constexpr Tristimulus Illuminant_B(1.99072f, 1.f, 0.85223f);
+static constexpr Tristimulus Illuminant_B(0.99072f, 1.f, 0.85223f);
 static constexpr Tristimulus Illuminant_C(0.98074f, 1.0f, 1.18232f);
 static constexpr Tristimulus Illuminant_D50(0.96422f, 1.0f, 0.82521f);
 static constexpr Tristimulus Illuminant_D55(0.95682f, 1.0f, 0.92149f);
-- 
2.43.0


From 015629da567d04b67e6393e61981a0e5779b7435 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:14:50 +0000
Subject: [PATCH 05/20] fix: middle segment (2222K-4000K) of the Planckian
 locus spline

It repeated the coefficients of the segment below 2222K.
---
 include/colorsystem.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/colorsystem.hpp b/include/colorsystem.hpp
index 69e7d2d..09ff310 100644
--- a/include/colorsystem.hpp
+++ b/include/colorsystem.hpp
@@ -358,7 +358,7 @@ class Tristimulus
         const float y =
             (T < 2222.f)
                 ? ((-1.1063814f * x * x * x) - (1.34811020f * x * x) + (2.18555832f * x) - 0.20219683f)
-                : ((T < 4000.f) ? ((-1.1063814f * x * x * x - 1.34811020f * x * x + 2.18555832f * x - 0.20219683f))
+                : ((T < 4000.f) ? ((-0.9549476f * x * x * x - 1.37418593f * x * x + 2.09137015f * x - 0.16748867f))
                                 : ((3.0817580f * x * x * x - 5.87338670f * x * x + 3.75112997f * x - 0.37001483f)));
         return Tristimulus(Y, x, y).fromYxy();
     }
-- 
2.43.0


From 47f134a492aeca7a7a932950219784e513fecfec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:14:50 +0000
Subject: [PATCH 06/20] fix: Spectrum::fetch did not interpolate in the first
 interval

---
 include/colorsystem.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/colorsystem.hpp b/include/colorsystem.hpp
index 09ff310..80563bc 100644
--- a/include/colorsystem.hpp
+++ b/include/colorsystem.hpp
@@ -1246,11 +1246,11 @@ class Spectrum
         const float *sample, const int samples, const float &lo, const float &hi, const float &t)
     {
         const int   count = samples - 1;
-        const int   index = (int)(count * (t - lo) / (hi - lo));
+        const int   index = (t >= hi) ? count : (t > lo) ? (int)(count * (t - lo) / (hi - lo)) : -1;
         const float l     = index * (hi - lo) / count;
         const float h     = (index + 1) * (hi - lo) / count;
         return (index >= count) ? sample[count]
-               : (index <= 0)   ? sample[0]
+               : (index < 0)    ? sample[0]
                                 : lerp(sample[index], sample[index + 1], (t - l - lo) / (h - l));
     }
     constexpr float fetch(const float &lambda) const { return fetch(s_.data(), 400, 380.f, 779.f, lambda); }
-- 
2.43.0


From ff46918dac252f81047c0b60102fc49dfba8a311 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:14:50 +0000
Subject: [PATCH 07/20] fix: MemoryStream::put_at truncated the buffer and
 wrote out of bounds

---
 include/colorsystem.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/colorsystem.hpp b/include/colorsystem.hpp
index 80563bc..0bcfa22 100644
--- a/include/colorsystem.hpp
+++ b/include/colorsystem.hpp
@@ -872,8 +872,8 @@ class MemoryStream
     }
     void put_at(size_t abs, uint8_t val)
     {
-        if (abs < buffer_.size())
-            buffer_.resize(abs);
+        if (abs >= buffer_.size())
+            buffer_.resize(abs + 1);
         buffer_[abs] = val;
     }
     size_t read_at(void *buffer, size_t s, Pointer p)
-- 
2.43.0


From 97891562ea34c8f7cb15b74e63d7928f0b10a137 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:14:50 +0000
Subject: [PATCH 08/20] fix: MemoryStream::putUint8 did not advance when
 overwriting

---
 include/colorsystem.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/colorsystem.hpp b/include/colorsystem.hpp
index 0bcfa22..f9c35b0 100644
--- a/include/colorsystem.hpp
+++ b/include/colorsystem.hpp
@@ -923,6 +923,7 @@ class MemoryStream
         if (ptr_ < s)
         {
             buffer_[ptr_] = uc;
+            ptr_++;
             return;
         }
         else if (ptr_ == s)
-- 
2.43.0


From 0aa60265356d29452218c897ab03241d18811aa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:14:50 +0000
Subject: [PATCH 09/20] fix: putString could not be read back by get_string

The length prefix was missing, the last character was dropped and an empty string ran past the end.
---
 include/colorsystem.hpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/colorsystem.hpp b/include/colorsystem.hpp
index f9c35b0..4b81462 100644
--- a/include/colorsystem.hpp
+++ b/include/colorsystem.hpp
@@ -1218,14 +1218,18 @@ class MemoryStream
     void putDouble(const double v) { putUint64(*(uint64_t *)&v); }
     void putSubstr(const std::string &str, size_t len)
     {
-        for (int i = 0; i < len - 1; i++)
+        for (size_t i = 0; i + 1 < len; i++)
         {
             putUint8(str[i]);
         }
         if (len > 0)
             putUint8(0);
     }
-    void putString(const std::string &str) { putSubstr(str, str.size()); }
+    void putString(const std::string &str)
+    {
+        putUint32((uint32_t)str.size() + 1);
+        putSubstr(str, str.size() + 1);
+    }
 };
 
 static Gamut loadGamutFromICCProfileMemory(const void *mem, size_t size)
-- 
2.43.0


From a6654d4d532af1843e89dbd1efafda56f4384fde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:14:50 +0000
Subject: [PATCH 10/20] fix: makeGamut passed the device-to-XYZ matrix as
 fromXYZ

---
 include/colorsystem.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/colorsystem.hpp b/include/colorsystem.hpp
index 4b81462..dd4ccb1 100644
--- a/include/colorsystem.hpp
+++ b/include/colorsystem.hpp
@@ -7841,7 +7841,7 @@ class Corrector
     static Gamut makeGamut(const char *name, std::vector<Tristimulus> &patch, const Spectrum &light = CIE_D65,
         const Observer &observer = CIE1931)
     {
-        return Gamut(name, solve(patch, light, observer));
+        return Gamut(name, solve(patch, light, observer).invert());
     }
 };
 
-- 
2.43.0


From 6cf5946e39338217a73080186e5a65e6c4da29b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:14:50 +0000
Subject: [PATCH 11/20] fix: SOLVER::solve ignored a failed decomposition

svdcmp returns 1 on success and -1 on failure.
---
 include/colorsystem.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/colorsystem.hpp b/include/colorsystem.hpp
index dd4ccb1..051f754 100644
--- a/include/colorsystem.hpp
+++ b/include/colorsystem.hpp
@@ -7739,7 +7739,7 @@ namespace SOLVER
         float  wmax, thresh;
 
         int r = svdcmp(A, W, V);
-        if (r == 0)
+        if (r < 0)
         {
             return r;
         }
-- 
2.43.0


From 882f0ba92cc435a1b768e349ad40ba6d8c452248 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:14:50 +0000
Subject: [PATCH 12/20] fix: MemoryStream read and wrote through references
 past its buffer

read_at with a large position overflowed int, and reading at the end, writing
nothing or starting from an empty buffer formed a reference past the end.
---
 include/colorsystem.hpp | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/include/colorsystem.hpp b/include/colorsystem.hpp
index 051f754..8f3f9ac 100644
--- a/include/colorsystem.hpp
+++ b/include/colorsystem.hpp
@@ -818,7 +818,7 @@ class MemoryStream
 
     void init(const void *data = NULL, size_t sz = 0)
     {
-        if (data)
+        if (data && sz > 0)
         {
             buffer_.resize(sz);
             memcpy(&(buffer_.front()), data, sz);
@@ -878,10 +878,10 @@ class MemoryStream
     }
     size_t read_at(void *buffer, size_t s, Pointer p)
     {
-        int r = (int)buffer_.size() - (int)p;
-        if (r < 0)
+        if (p >= buffer_.size())
             return 0;
-        size_t remain = (s < r) ? s : r;
+        const size_t r      = buffer_.size() - p;
+        const size_t remain = (s < r) ? s : r;
         memcpy(buffer, ptr(p), remain);
         return remain;
     }
@@ -891,7 +891,8 @@ class MemoryStream
         size_t s2 = p + s;
         if (s2 > s1)
             buffer_.resize(s2);
-        memcpy(ptr(p), buffer, s);
+        if (s > 0)
+            memcpy(ptr(p), buffer, s);
         return s;
     }
     size_t read(void *buffer, size_t size)
-- 
2.43.0


From 15621eceadb6238dc5fe7d0505462a8f3d95fe0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:14:50 +0000
Subject: [PATCH 13/20] fix: svdcmp lost an off-diagonal element when a
 singular value is zero

The cancellation loop has to scale rv1[i] by c and stop once f is negligible;
without it matrices with zero singular values were not decomposed correctly.
---
 include/colorsystem.hpp | 30 +++++++++++++++---------------
 1 file changed, 15 insertions(+), 15 deletions(-)

diff --git a/include/colorsystem.hpp b/include/colorsystem.hpp
index 8f3f9ac..fa56937 100644
--- a/include/colorsystem.hpp
+++ b/include/colorsystem.hpp
@@ -7608,22 +7608,22 @@ namespace SOLVER
                     s = 1.0;
                     for (int i = l; i <= k; i++)
                     {
-                        f = s * rv1[i];
-                        if (fabs(f) + anorm != anorm)
+                        f      = s * rv1[i];
+                        rv1[i] = c * rv1[i];
+                        if (fabs(f) + anorm == anorm)
+                            break;
+                        g    = w[i];
+                        h    = PYTHAG(f, g);
+                        w[i] = h;
+                        h    = 1.0f / h;
+                        c    = g * h;
+                        s    = (-f * h);
+                        for (j = 0; j < m; j++)
                         {
-                            g    = w[i];
-                            h    = PYTHAG(f, g);
-                            w[i] = h;
-                            h    = 1.0f / h;
-                            c    = g * h;
-                            s    = (-f * h);
-                            for (j = 0; j < m; j++)
-                            {
-                                y        = a[j][nm];
-                                z        = a[j][i];
-                                a[j][nm] = (y * c + z * s);
-                                a[j][i]  = (z * c - y * s);
-                            }
+                            y        = a[j][nm];
+                            z        = a[j][i];
+                            a[j][nm] = (y * c + z * s);
+                            a[j][i]  = (z * c - y * s);
                         }
                     }
                 }
-- 
2.43.0


From 9f0a339a1914a8644fef88a251bd0d451dcfc56b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:14:50 +0000
Subject: [PATCH 14/20] fix: svdcmp produced NaN for columns that are only
 rounding noise

Normalising a column whose entries are (sub)normal leftovers of a cancellation
underflows; treat it as zero relative to the matrix.
---
 include/colorsystem.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/colorsystem.hpp b/include/colorsystem.hpp
index fa56937..0da1adc 100644
--- a/include/colorsystem.hpp
+++ b/include/colorsystem.hpp
@@ -7462,7 +7462,7 @@ namespace SOLVER
             {
                 for (k = i; k < m; k++)
                     scale += fabs(a[k][i]);
-                if (scale)
+                if (scale > anorm * 1e-20f)
                 {
                     for (k = i; k < m; k++)
                     {
@@ -7496,7 +7496,7 @@ namespace SOLVER
             {
                 for (k = l; k < n; k++)
                     scale += fabs(a[i][k]);
-                if (scale)
+                if (scale > anorm * 1e-20f)
                 {
                     for (k = l; k < n; k++)
                     {
-- 
2.43.0


From 789fc7a76d982eb9fdbb3b107159fae21666e936 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:14:50 +0000
Subject: [PATCH 15/20] fix: svdcmp accessed w[-1] when the input contains NaN

---
 include/colorsystem.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/colorsystem.hpp b/include/colorsystem.hpp
index 0da1adc..3920325 100644
--- a/include/colorsystem.hpp
+++ b/include/colorsystem.hpp
@@ -7594,7 +7594,7 @@ namespace SOLVER
                 for (l = k; l >= 0; l--)
                 { /* test for splitting */
                     nm = l - 1;
-                    if (fabs(rv1[l]) + anorm == anorm)
+                    if (l == 0 || fabs(rv1[l]) + anorm == anorm)
                     {
                         flag = 0;
                         break;
-- 
2.43.0


From 4a7bdb71d52ab33b70cb4b8dd1d67f4c9594040c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:29:45 +0000
Subject: [PATCH 16/20] fix: blackbody radiance was 0.08% low

The precomputed h*c and h*c*c did not match the h and c declared next to them.
---
 include/colorsystem.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/colorsystem.hpp b/include/colorsystem.hpp
index 3920325..a2692e3 100644
--- a/include/colorsystem.hpp
+++ b/include/colorsystem.hpp
@@ -1278,8 +1278,8 @@ class Spectrum
         static const double h    = 6.62606896e-34; // Plank constant         J s
         static const double c    = 2.99792458e+8;  // Speed of light         m/s
         static const double k    = 1.38064880e-23; // Boltzmann constant     J/K
-        static const double hc   = 1.984832809e-25;
-        static const double hcc  = 5.950379064e-17;
+        static const double hc   = 1.986445500e-25;
+        static const double hcc  = 5.955213792e-17;
         static const double hc_k = 1.438776827e-2;
         static const double arg1 = 2 * hcc;                                     // J*s*m/s*m/s                 = J*m^2/s
         static const double arg2 = (h * c) / k;                                 // J*s*m/s / (J/K) = J*m/(J/K) = m * K
-- 
2.43.0


From 457545342235dc15da8d94d12c25131b404f26cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:36:48 +0000
Subject: [PATCH 17/20] fix: PQ decoding of a signal below zero returned NaN

ICtCp_to_XYZ reconstructs the PQ signals with rounded coefficients, so a
cone response of zero can come out as a tiny negative signal, and powf of a
negative number is NaN: every XYZ channel was NaN for such a colour.
---
 include/colorsystem.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/colorsystem.hpp b/include/colorsystem.hpp
index a2692e3..ab723e4 100644
--- a/include/colorsystem.hpp
+++ b/include/colorsystem.hpp
@@ -586,6 +586,8 @@ class OTF
 
         // Note that this does NOT handle any of the signal range
         // considerations from 2084 - this assumes full range (0 - 1)
+        if (pixel <= 0.f)
+            return 0.f;
         float Np = powf(pixel, 1.0f / pq_m2);
         float L  = Np - pq_c1;
         if (L < 0.0)
-- 
2.43.0


From 369f3bcc8b910ee461b82ab400696d56d093110b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:51:09 +0000
Subject: [PATCH 18/20] fix: svdcmp never converged on an off-diagonal of half
 an ulp

With repeated singular values the QR iteration can leave an off-diagonal
element of exactly half an ulp of anorm, which 'x + anorm == anorm' never
accepts: after 30 iterations the singular value kept its negative sign, solve()
dropped it, and Corrector::solve returned a wrong transform for well
conditioned patches. Compare with epsilon * anorm instead.
---
 include/colorsystem.hpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/include/colorsystem.hpp b/include/colorsystem.hpp
index ab723e4..d6b08c1 100644
--- a/include/colorsystem.hpp
+++ b/include/colorsystem.hpp
@@ -7588,6 +7588,8 @@ namespace SOLVER
         }
 
         /* diagonalize the bidiagonal form */
+        /* an off-diagonal of about one ulp of anorm is zero: QR steps may not reduce it any further */
+        const float tiny = std::numeric_limits<float>::epsilon() * anorm;
         for (k = n - 1; k >= 0; k--)
         { /* loop over singular values */
             for (its = 0; its < 30; its++)
@@ -7596,12 +7598,12 @@ namespace SOLVER
                 for (l = k; l >= 0; l--)
                 { /* test for splitting */
                     nm = l - 1;
-                    if (l == 0 || fabs(rv1[l]) + anorm == anorm)
+                    if (l == 0 || fabsf(rv1[l]) <= tiny)
                     {
                         flag = 0;
                         break;
                     }
-                    if (fabs(w[nm]) + anorm == anorm)
+                    if (fabsf(w[nm]) <= tiny)
                         break;
                 }
                 if (flag)
@@ -7612,7 +7614,7 @@ namespace SOLVER
                     {
                         f      = s * rv1[i];
                         rv1[i] = c * rv1[i];
-                        if (fabs(f) + anorm == anorm)
+                        if (fabsf(f) <= tiny)
                             break;
                         g    = w[i];
                         h    = PYTHAG(f, g);
-- 
2.43.0


From 0b5a72f4e70a3ba28edda49bf7113dabf03fdf07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:09:11 +0000
Subject: [PATCH 19/20] fix: converting from HSV with a large hue overflowed
 the stack

---
 include/colorsystem.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/include/colorsystem.hpp b/include/colorsystem.hpp
index d6b08c1..3c9cc7a 100644
--- a/include/colorsystem.hpp
+++ b/include/colorsystem.hpp
@@ -439,10 +439,13 @@ class Tristimulus
     constexpr Tristimulus toCIELAB(void) const { return toCIELAB(*this, Tristimulus(0.9642f, 1.0f, 0.8249f)); }
     constexpr Tristimulus fromCIELAB(void) const { return fromCIELAB(*this, Tristimulus(0.9642f, 1.0f, 0.8249f)); }
     // HSV
-    static constexpr float mod360(const float &r)
+    // removes multiples of turn, the largest power of two of them first
+    static constexpr float wrap(const float &r, const float &turn)
     {
-        return (r < 0.f) ? mod360(r + 360.f) : ((r > 360.f) ? mod360(r - 360.f) : r);
+        const float w = (r > turn) ? wrap(r, turn + turn) : r;
+        return (w > turn) ? w - turn : w;
     }
+    static constexpr float mod360(const float &r) { return (r < 0.f) ? 360.f - wrap(-r, 360.f) : wrap(r, 360.f); }
     static Tristimulus toHSV_atan(const Tristimulus &t)
     {
         const float max = maxi(maxi(t[0], t[1]), t[2]);
-- 
2.43.0


From fe545a4f77304c6ebf7b2ee7ef3ca308c52bba5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:49:39 +0000
Subject: [PATCH 20/20] fix: absolute stream writes at positions near the
 largest size_t wrote outside the buffer

put_at and write_at computed the end of the data with overflow, so the buffer was not extended (or was
emptied) and the bytes were written outside of it.
---
 include/colorsystem.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/colorsystem.hpp b/include/colorsystem.hpp
index 3c9cc7a..dc7e6e8 100644
--- a/include/colorsystem.hpp
+++ b/include/colorsystem.hpp
@@ -877,6 +877,8 @@ class MemoryStream
     }
     void put_at(size_t abs, uint8_t val)
     {
+        if (abs >= buffer_.max_size())
+            return; // no such byte can exist
         if (abs >= buffer_.size())
             buffer_.resize(abs + 1);
         buffer_[abs] = val;
@@ -892,6 +894,8 @@ class MemoryStream
     }
     size_t write_at(const void *buffer, size_t s, Pointer p)
     {
+        if (p > buffer_.max_size() || s > buffer_.max_size() - p)
+            return 0; // the end of the data cannot be represented
         size_t s1 = buffer_.size();
         size_t s2 = p + s;
         if (s2 > s1)
-- 
2.43.0

