From 8d05c9b8aa86ec2709ae439dcd7a6b4703b7a07e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:58:37 +0000
Subject: [PATCH 01/15] fix: mod360 terminates for every finite hue

Hues whose float spacing exceeds 360 made the recursion run forever, and
large ones overflowed the stack in unoptimised builds.
---
 include/colorsystem.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/colorsystem.hpp b/include/colorsystem.hpp
index 28704ee..cb3b268 100644
--- a/include/colorsystem.hpp
+++ b/include/colorsystem.hpp
@@ -441,7 +441,8 @@ class Tristimulus
     // HSV
     static constexpr float mod360(const float &r)
     {
-        return (r < 0.f) ? mod360(r + 360.f) : ((r > 360.f) ? mod360(r - 360.f) : r);
+        return (r < -360.f || r > 720.f) ? mod360(fmodf(r, 360.f))
+                                         : ((r < 0.f) ? r + 360.f : ((r > 360.f) ? r - 360.f : r));
     }
     static Tristimulus toHSV_atan(const Tristimulus &t)
     {
-- 
2.43.0


From db03581ae254d7d768a5087935ae818f45644e18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:40:04 +0000
Subject: [PATCH 02/15] fix: XYZ_to_OKLAB no longer prints its matrices to
 stdout on every call

---
 include/colorsystem.hpp | 24 ------------------------
 1 file changed, 24 deletions(-)

diff --git a/include/colorsystem.hpp b/include/colorsystem.hpp
index cb3b268..1edc6e4 100644
--- a/include/colorsystem.hpp
+++ b/include/colorsystem.hpp
@@ -1424,30 +1424,6 @@ static const Tristimulus XYZ_to_OKLAB(const Tristimulus &xyz)
          0.0361456387f, 0.0482003018f, 0.2643662691f, 0.6338517070f);
     constexpr auto m2  = Matrix3(0.2104542553f, 0.7936177850f, -0.0040720468f, 1.9779984951f, -2.4285922050f,
          0.4505937099f, 0.0259040371f, 0.7827717662f, -0.8086757660f);
-    constexpr auto m1i = m1.invert();
-    constexpr auto m2i = m2.invert();
-    printf("\n");
-    for (int i = 0; i < 9; i++)
-    {
-        printf("%f,", m1[i]);
-    }
-    printf("\n");
-    for (int i = 0; i < 9; i++)
-    {
-        printf("%f,", m2[i]);
-    }
-    printf("\n");
-    for (int i = 0; i < 9; i++)
-    {
-        printf("%f,", m1i[i]);
-    }
-    printf("\n");
-    for (int i = 0; i < 9; i++)
-    {
-        printf("%f,", m2i[i]);
-    }
-    printf("\n");
-
     const Tristimulus lms = xyz.apply(m1);
     const Tristimulus dash(cbrtf(lms[0]), cbrtf(lms[1]), cbrtf(lms[2]));
     return dash.apply(m2);
-- 
2.43.0


From 96503e2466a58ac534f2fcbe0a4c6f247c3c7b6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:40:04 +0000
Subject: [PATCH 03/15] fix: OKLAB M1 matrix has the published positive entry
 (white maps to a = b = 0)

---
 include/colorsystem.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/colorsystem.hpp b/include/colorsystem.hpp
index 1edc6e4..57b08ab 100644
--- a/include/colorsystem.hpp
+++ b/include/colorsystem.hpp
@@ -1420,7 +1420,7 @@ static const Tristimulus ICtCp_to_XYZ(const Tristimulus &icc)
 static const Tristimulus XYZ_to_OKLAB(const Tristimulus &xyz)
 {
     // https://bottosson.github.io/posts/oklab/
-    constexpr auto m1  = Matrix3(0.8189330101f, 0.3618667424f, -0.1288597137f, -0.0329845436f, 0.9293118715f,
+    constexpr auto m1  = Matrix3(0.8189330101f, 0.3618667424f, -0.1288597137f, 0.0329845436f, 0.9293118715f,
          0.0361456387f, 0.0482003018f, 0.2643662691f, 0.6338517070f);
     constexpr auto m2  = Matrix3(0.2104542553f, 0.7936177850f, -0.0040720468f, 1.9779984951f, -2.4285922050f,
          0.4505937099f, 0.0259040371f, 0.7827717662f, -0.8086757660f);
@@ -1431,7 +1431,7 @@ static const Tristimulus XYZ_to_OKLAB(const Tristimulus &xyz)
 
 static const Tristimulus OKLAB_to_XYZ(const Tristimulus &lab)
 {
-    constexpr auto    m1   = Matrix3(0.8189330101f, 0.3618667424f, -0.1288597137f, -0.0329845436f, 0.9293118715f,
+    constexpr auto    m1   = Matrix3(0.8189330101f, 0.3618667424f, -0.1288597137f, 0.0329845436f, 0.9293118715f,
              0.0361456387f, 0.0482003018f, 0.2643662691f, 0.6338517070f);
     constexpr auto    m2   = Matrix3(0.2104542553f, 0.7936177850f, -0.0040720468f, 1.9779984951f, -2.4285922050f,
              0.4505937099f, 0.0259040371f, 0.7827717662f, -0.8086757660f);
-- 
2.43.0


From e81c044660f3e915195ac111f63bf03110f913a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:40:04 +0000
Subject: [PATCH 04/15] fix: Y_to_SLog3 scales the logarithm, not its argument

---
 include/colorsystem.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/colorsystem.hpp b/include/colorsystem.hpp
index 57b08ab..c66f1ad 100644
--- a/include/colorsystem.hpp
+++ b/include/colorsystem.hpp
@@ -670,7 +670,7 @@ class OTF
 
     static const float Y_to_SLog3(const float &x)
     {
-        const auto y = x > 0.01125f ? (420.f + log10f((x + 0.01f) / (0.19f) * 261.5f))
+        const auto y = x > 0.01125f ? (420.f + log10f((x + 0.01f) / (0.19f)) * 261.5f)
                                     : (x * (171.2102946929f - 95.f) / 0.01125f + 95.f);
         return y / 1023.f;
     }
-- 
2.43.0


From 3aad93639d7b2abefa9a60b6576ca79e7b8f0313 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:40:04 +0000
Subject: [PATCH 05/15] fix: Illuminant B has X = 0.99072

---
 include/colorsystem.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/colorsystem.hpp b/include/colorsystem.hpp
index c66f1ad..8a581a5 100644
--- a/include/colorsystem.hpp
+++ b/include/colorsystem.hpp
@@ -1353,7 +1353,7 @@ class Spectrum
 
 // standard illuminants
 static constexpr Tristimulus Illuminant_A(1.09850f, 1.f, 0.35585f);
-static constexpr Tristimulus Illuminant_B(1.99072f, 1.f, 0.85223f);
+static constexpr Tristimulus Illuminant_B(0.99072f, 1.f, 0.85223f);
 static constexpr Tristimulus Illuminant_C(0.98074f, 1.0f, 1.18232f);
 static constexpr Tristimulus Illuminant_D50(0.96422f, 1.0f, 0.82521f);
 static constexpr Tristimulus Illuminant_D55(0.95682f, 1.0f, 0.92149f);
-- 
2.43.0


From 5f155d6270fc5cc5fe0686428dd96b6fd8c63f51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:42:41 +0000
Subject: [PATCH 06/15] fix: MemoryStream::putUint8 advances the cursor when it
 overwrites

---
 include/colorsystem.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/colorsystem.hpp b/include/colorsystem.hpp
index 8a581a5..02aeee6 100644
--- a/include/colorsystem.hpp
+++ b/include/colorsystem.hpp
@@ -924,6 +924,7 @@ class MemoryStream
         if (ptr_ < s)
         {
             buffer_[ptr_] = uc;
+            ptr_++;
             return;
         }
         else if (ptr_ == s)
-- 
2.43.0


From 5f18b07dc898f38c08c14c0ecac04ab711374455 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:42:41 +0000
Subject: [PATCH 07/15] fix: MemoryStream::put_at grows the buffer instead of
 truncating it and writing past its end

---
 include/colorsystem.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/colorsystem.hpp b/include/colorsystem.hpp
index 02aeee6..6da3d3d 100644
--- a/include/colorsystem.hpp
+++ b/include/colorsystem.hpp
@@ -873,8 +873,8 @@ class MemoryStream
     }
     void put_at(size_t abs, uint8_t val)
     {
-        if (abs < buffer_.size())
-            buffer_.resize(abs);
+        if (abs >= buffer_.size())
+            buffer_.resize(abs + 1);
         buffer_[abs] = val;
     }
     size_t read_at(void *buffer, size_t s, Pointer p)
-- 
2.43.0


From 6068e30b4b168555dba177a7c8fecc01645a70ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:42:41 +0000
Subject: [PATCH 08/15] fix: MemoryStream::putSubstr writes nothing for length
 0

---
 include/colorsystem.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/colorsystem.hpp b/include/colorsystem.hpp
index 6da3d3d..5602135 100644
--- a/include/colorsystem.hpp
+++ b/include/colorsystem.hpp
@@ -1219,7 +1219,7 @@ class MemoryStream
     void putDouble(const double v) { putUint64(*(uint64_t *)&v); }
     void putSubstr(const std::string &str, size_t len)
     {
-        for (int i = 0; i < len - 1; i++)
+        for (size_t i = 0; i + 1 < len; i++)
         {
             putUint8(str[i]);
         }
-- 
2.43.0


From 93bad3b4c796d3059c717b6d92072010c1c3f20d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:42:41 +0000
Subject: [PATCH 09/15] fix: MemoryStream::putString writes the whole string
 and the length get_string reads

---
 include/colorsystem.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/colorsystem.hpp b/include/colorsystem.hpp
index 5602135..cef7d79 100644
--- a/include/colorsystem.hpp
+++ b/include/colorsystem.hpp
@@ -1226,7 +1226,11 @@ class MemoryStream
         if (len > 0)
             putUint8(0);
     }
-    void putString(const std::string &str) { putSubstr(str, str.size()); }
+    void putString(const std::string &str)
+    {
+        putUint32((uint32_t)str.size() + 1); // read back by get_string.
+        putSubstr(str, str.size() + 1);
+    }
 };
 
 static Gamut loadGamutFromICCProfileMemory(const void *mem, size_t size)
-- 
2.43.0


From a71630d3ed4cd908348733eb41eff6b9a369303b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:42:41 +0000
Subject: [PATCH 10/15] fix: Spectrum::fetch interpolates in the first interval
 and clamps far-away wavelengths

---
 include/colorsystem.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/include/colorsystem.hpp b/include/colorsystem.hpp
index cef7d79..46755f3 100644
--- a/include/colorsystem.hpp
+++ b/include/colorsystem.hpp
@@ -1251,12 +1251,15 @@ class Spectrum
     static constexpr float fetch(
         const float *sample, const int samples, const float &lo, const float &hi, const float &t)
     {
-        const int   count = samples - 1;
+        const int count = samples - 1;
+        if (t <= lo)
+            return sample[0];
+        if (t >= hi)
+            return sample[count];
         const int   index = (int)(count * (t - lo) / (hi - lo));
         const float l     = index * (hi - lo) / count;
         const float h     = (index + 1) * (hi - lo) / count;
         return (index >= count) ? sample[count]
-               : (index <= 0)   ? sample[0]
                                 : lerp(sample[index], sample[index + 1], (t - l - lo) / (h - l));
     }
     constexpr float fetch(const float &lambda) const { return fetch(s_.data(), 400, 380.f, 779.f, lambda); }
-- 
2.43.0


From fd959f3c4bdb6d4ffa6c77a234bc5fcc48ccbbbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:42:42 +0000
Subject: [PATCH 11/15] fix: SOLVER::solve reports a failed decomposition

---
 include/colorsystem.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/colorsystem.hpp b/include/colorsystem.hpp
index 46755f3..37b3fc2 100644
--- a/include/colorsystem.hpp
+++ b/include/colorsystem.hpp
@@ -7743,7 +7743,7 @@ namespace SOLVER
         float  wmax, thresh;
 
         int r = svdcmp(A, W, V);
-        if (r == 0)
+        if (r < 0)
         {
             return r;
         }
-- 
2.43.0


From 5e5f75fe8d0694853385ff7ac3e39ff8a0258531 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:33:42 +0000
Subject: [PATCH 12/15] fix: Spectrum::planck uses 2hc^2 of its own constants
 (radiance was 0.08% low)

---
 include/colorsystem.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/colorsystem.hpp b/include/colorsystem.hpp
index 37b3fc2..346df9e 100644
--- a/include/colorsystem.hpp
+++ b/include/colorsystem.hpp
@@ -1282,7 +1282,7 @@ class Spectrum
         static const double c    = 2.99792458e+8;  // Speed of light         m/s
         static const double k    = 1.38064880e-23; // Boltzmann constant     J/K
         static const double hc   = 1.984832809e-25;
-        static const double hcc  = 5.950379064e-17;
+        static const double hcc  = h * c * c;
         static const double hc_k = 1.438776827e-2;
         static const double arg1 = 2 * hcc;                                     // J*s*m/s*m/s                 = J*m^2/s
         static const double arg2 = (h * c) / k;                                 // J*s*m/s / (J/K) = J*m/(J/K) = m * K
-- 
2.43.0


From dbfa1d0d44a3284d681853050d8442f4b56e3eaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:37:44 +0000
Subject: [PATCH 13/15] fix: fromPlanckianLocus uses the 2222-4000 K
 coefficients in that range

---
 include/colorsystem.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/colorsystem.hpp b/include/colorsystem.hpp
index 346df9e..1c1878c 100644
--- a/include/colorsystem.hpp
+++ b/include/colorsystem.hpp
@@ -358,7 +358,7 @@ class Tristimulus
         const float y =
             (T < 2222.f)
                 ? ((-1.1063814f * x * x * x) - (1.34811020f * x * x) + (2.18555832f * x) - 0.20219683f)
-                : ((T < 4000.f) ? ((-1.1063814f * x * x * x - 1.34811020f * x * x + 2.18555832f * x - 0.20219683f))
+                : ((T < 4000.f) ? ((-0.9549476f * x * x * x - 1.37418593f * x * x + 2.09137015f * x - 0.16748867f))
                                 : ((3.0817580f * x * x * x - 5.87338670f * x * x + 3.75112997f * x - 0.37001483f)));
         return Tristimulus(Y, x, y).fromYxy();
     }
-- 
2.43.0


From c6914d5de1b3edffac7d4d626ca706ab75515ece Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:06:04 +0000
Subject: [PATCH 14/15] fix: svdcmp: finish cancelling the row of a zero
 singular value

The off-diagonal element was not scaled by c and the chase did not stop
once it was negligible, so least-squares solutions of rank-deficient
systems (e.g. with a zero column) were wrong.
---
 include/colorsystem.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/include/colorsystem.hpp b/include/colorsystem.hpp
index 1c1878c..49367e3 100644
--- a/include/colorsystem.hpp
+++ b/include/colorsystem.hpp
@@ -7611,8 +7611,11 @@ namespace SOLVER
                     s = 1.0;
                     for (int i = l; i <= k; i++)
                     {
-                        f = s * rv1[i];
-                        if (fabs(f) + anorm != anorm)
+                        f      = s * rv1[i];
+                        rv1[i] = c * rv1[i];
+                        if (fabs(f) + anorm == anorm)
+                            break;
+                        else
                         {
                             g    = w[i];
                             h    = PYTHAG(f, g);
-- 
2.43.0


From b3fec2d6161e3e2c1ce79ebe2e8cbbb71a023b97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:07:24 +0000
Subject: [PATCH 15/15] fix: makeGamut: solved matrix maps patches to XYZ,
 Gamut takes the inverse

Corrector::solve returns the matrix from the measured patches to the XYZ
of the chart, but it was passed as the XYZ-to-RGB matrix, so toXYZ() of
the made gamut did not take a patch to its XYZ.
---
 include/colorsystem.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/colorsystem.hpp b/include/colorsystem.hpp
index 49367e3..f74436c 100644
--- a/include/colorsystem.hpp
+++ b/include/colorsystem.hpp
@@ -7848,7 +7848,7 @@ class Corrector
     static Gamut makeGamut(const char *name, std::vector<Tristimulus> &patch, const Spectrum &light = CIE_D65,
         const Observer &observer = CIE1931)
     {
-        return Gamut(name, solve(patch, light, observer));
+        return Gamut(name, solve(patch, light, observer).invert()); // solve() maps patches to XYZ.
     }
 };
 
-- 
2.43.0

