From 99af2fdc7762c20504d5da5791d357a455f3f5fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:35 +0000
Subject: [PATCH 01/38] fix: a sprung body resting on (or a hair beyond) its
 travel limit must not turn the step length negative

The contact time of a body that already is past its limit by rounding was
negative, and -inf when it had been stopped there, so the whole state was
moved by a negative or infinite step. A contact now needs motion towards
the limit and the remaining time is never below zero.
---
 libvvhd/src/MFlowmove.cpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/libvvhd/src/MFlowmove.cpp b/libvvhd/src/MFlowmove.cpp
index bd4af5d..af17bab 100644
--- a/libvvhd/src/MFlowmove.cpp
+++ b/libvvhd/src/MFlowmove.cpp
@@ -1,5 +1,6 @@
 #include "MFlowmove.hpp"
 
+#include <algorithm>
 #include <ctime>
 #include <cmath>
 #include <map>
@@ -42,10 +43,10 @@ void MFlowmove::move_and_clean(bool remove, const void** collision, size_t* clea
             double dt_ = d_nan;
             if (TBody::isrigid(*kspring_[i])) {
                 /* do nothing */
-            } else if (new_pos[i] > max[i]) {
-                dt_ = (max[i] - cur_pos[i]) / speed[i];
-            } else if (new_pos[i] < min[i]) {
-                dt_ = (min[i] - cur_pos[i]) / speed[i];
+            } else if (new_pos[i] > max[i] && speed[i] > 0) {
+                dt_ = std::max(0., (max[i] - cur_pos[i]) / speed[i]);
+            } else if (new_pos[i] < min[i] && speed[i] < 0) {
+                dt_ = std::max(0., (min[i] - cur_pos[i]) / speed[i]);
             }
 
             if (dt_ < current_dt) {
-- 
2.43.0


From cf4d3ecd08ece4bd421847caf21fcec18b40921a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:32 +0000
Subject: [PATCH 02/38] fix: a contact on one sprung degree of freedom must
 survive the assembly of the others

---
 libvvhd/src/MConvectiveFast.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/libvvhd/src/MConvectiveFast.cpp b/libvvhd/src/MConvectiveFast.cpp
index a8012f0..e8c8c27 100644
--- a/libvvhd/src/MConvectiveFast.cpp
+++ b/libvvhd/src/MConvectiveFast.cpp
@@ -925,8 +925,8 @@ void MConvectiveFast::fill_matrix(bool rightColOnly, const void** collision)
                 *matrix.getRightCol(eq_no) +=
                     (1+libody->bounce)
                     * libody->force_holder.r.x;
+                *collision = nullptr;
             }
-            *collision = nullptr;
         }
         eq_no++;
 
@@ -942,8 +942,8 @@ void MConvectiveFast::fill_matrix(bool rightColOnly, const void** collision)
                 *matrix.getRightCol(eq_no) +=
                     (1+libody->bounce)
                     * libody->force_holder.r.y;
+                *collision = nullptr;
             }
-            *collision = nullptr;
         }
         eq_no++;
 
@@ -960,8 +960,8 @@ void MConvectiveFast::fill_matrix(bool rightColOnly, const void** collision)
                 *matrix.getRightCol(eq_no) +=
                     (1+libody->bounce)
                     * libody->force_holder.o;
+                *collision = nullptr;
             }
-            *collision = nullptr;
         }
         eq_no++;
 
-- 
2.43.0


From cc91380ee1ae0820c4ffc11a6ae0e272b314c6fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:47 +0000
Subject: [PATCH 03/38] fix: prescribed x speed of a rooted body is the root's
 rigid velocity at the body's axis, as for y and in the documentation

---
 libvvhd/src/MConvectiveFast.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libvvhd/src/MConvectiveFast.cpp b/libvvhd/src/MConvectiveFast.cpp
index e8c8c27..fb13652 100644
--- a/libvvhd/src/MConvectiveFast.cpp
+++ b/libvvhd/src/MConvectiveFast.cpp
@@ -817,7 +817,7 @@ void MConvectiveFast::fillSpeedXEquation(unsigned eq_no, TBody* ibody, bool righ
     {
         *matrix.getCell(eq_no, &root_body->speed_slae.r.x) = -1;
         *matrix.getCell(eq_no, &root_body->speed_slae.r.y) = 0;
-        *matrix.getCell(eq_no, &root_body->speed_slae.o)   = (ibody->holder.r - root_body->get_axis()).y;
+        *matrix.getCell(eq_no, &root_body->speed_slae.o)   = (ibody->get_axis() - root_body->get_axis()).y;
     }
 }
 
-- 
2.43.0


From 0805aef4db53994ea465638b801ed923d5a17716 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:20 +0000
Subject: [PATCH 04/38] fix: influence of a near attached sheet had the wrong
 sign (as in _2PI_Xi_g_near and the documentation)

---
 libvvhd/src/MConvectiveFast.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libvvhd/src/MConvectiveFast.cpp b/libvvhd/src/MConvectiveFast.cpp
index fb13652..3eb938e 100644
--- a/libvvhd/src/MConvectiveFast.cpp
+++ b/libvvhd/src/MConvectiveFast.cpp
@@ -341,7 +341,7 @@ TVec MConvectiveFast::_2PI_Xi(const TVec &p, const TAtt &seg, double rd)
     }
     else if ( dr1_sqr<=rd_sqr && dr2_sqr<=rd_sqr )
     {
-        TVec dp = p-seg.r;
+        TVec dp = seg.r-p;
         return TVec(dp*seg.dl, dp*rotl(seg.dl))/sqr(rd);
     }
     else
-- 
2.43.0


From 763a5688b3ee63d93f32578c6e36f537ff2bc146 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:36 +0000
Subject: [PATCH 05/38] fix: the smoothing radius of a point source used the
 integer abs() of its strength

---
 libvvhd/src/MConvectiveFast.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libvvhd/src/MConvectiveFast.cpp b/libvvhd/src/MConvectiveFast.cpp
index 3eb938e..01e3827 100644
--- a/libvvhd/src/MConvectiveFast.cpp
+++ b/libvvhd/src/MConvectiveFast.cpp
@@ -162,7 +162,7 @@ TVec MConvectiveFast::sink_list_influence(const TVec &p) const
     for (const auto& src: S->SourceList)
     {
         TVec dr = p - src.r;
-        res += dr*(src.g / (dr.abs2() + eps2_div_srcg*abs(src.g)) );
+        res += dr*(src.g / (dr.abs2() + eps2_div_srcg*fabs(src.g)) );
     }
 
     res *= C_1_2PI;
-- 
2.43.0


From 1064dedf19010dd77f5b7b4deb30ed71cc552ec8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:01 +0000
Subject: [PATCH 06/38] fix: a point source of zero strength made the velocity
 at its own position NaN

---
 libvvhd/src/MConvectiveFast.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/libvvhd/src/MConvectiveFast.cpp b/libvvhd/src/MConvectiveFast.cpp
index 01e3827..aa6dd4b 100644
--- a/libvvhd/src/MConvectiveFast.cpp
+++ b/libvvhd/src/MConvectiveFast.cpp
@@ -161,6 +161,7 @@ TVec MConvectiveFast::sink_list_influence(const TVec &p) const
     const double eps2_div_srcg = S->dt * C_1_PI;
     for (const auto& src: S->SourceList)
     {
+        if (!src.g) continue; // 0/0 at the source itself
         TVec dr = p - src.r;
         res += dr*(src.g / (dr.abs2() + eps2_div_srcg*fabs(src.g)) );
     }
-- 
2.43.0


From 912977de1b2392433a76b492afbd8de7abdcaf35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:22 +0000
Subject: [PATCH 07/38] fix: velocity of a linear source segment had the wrong
 sign in its (q2-q1) term (against its own integral and the documentation)

---
 libvvhd/src/MConvectiveFast.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libvvhd/src/MConvectiveFast.cpp b/libvvhd/src/MConvectiveFast.cpp
index aa6dd4b..b7b3f05 100644
--- a/libvvhd/src/MConvectiveFast.cpp
+++ b/libvvhd/src/MConvectiveFast.cpp
@@ -452,7 +452,7 @@ TVec MConvectiveFast::SegmentInfluence_linear_source(TVec p, const TAtt &seg, do
     //complex<double> i(0,1);
 
     //cerr << z2 << "\t" << z1 << endl;
-    zV = ( (q2-q1) - conj(q2*z1 - q1*z2)/conj(dz)*log(conj(z2)/conj(z1))) / conj(dz);
+    zV = ( (q1-q2) - conj(q2*z1 - q1*z2)/conj(dz)*log(conj(z2)/conj(z1))) / conj(dz);
     //cerr << zV << endl;
     return TVec(zV.real(), zV.imag());
 }
-- 
2.43.0


From 43a4677754eefc5c8511975bccd8c605589bc446 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:25 +0000
Subject: [PATCH 08/38] fix: a decimal number of seconds was truncated to the
 time value below it (10.12 became 1011/100)

---
 libvvhd/headers/TTime.hpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/libvvhd/headers/TTime.hpp b/libvvhd/headers/TTime.hpp
index 4ac5d3a..a6289d7 100644
--- a/libvvhd/headers/TTime.hpp
+++ b/libvvhd/headers/TTime.hpp
@@ -1,5 +1,6 @@
 #pragma once
 
+#include <cmath>
 #include <cstdint>
 #include <string>
 
@@ -21,13 +22,16 @@ class TTime
 
         static TTime makeWithSecondsDecimal(double seconds)
         {
+            // the product is rounded, not truncated: 10.12*100 is 1011.9999999999999
             uint32_t newTS = 1;
-            while ((int32_t(seconds*newTS)/double(newTS) != seconds) && (newTS<0x19999999)/*0xffffffff/10*/)
+            while ((std::round(seconds*newTS)/double(newTS) != seconds)
+                && (newTS<0x19999999)/*0xffffffff/10*/
+                && (std::fabs(seconds*newTS*10.) < 0x7fffffff)) // value is int32_t
             { newTS*= 10; }
-            while (!(int32_t(seconds*newTS)%10) && (newTS > 1))
+            while (!(int32_t(std::round(seconds*newTS))%10) && (newTS > 1))
             { newTS/= 10; }
             //fprintf(stderr, "%lf sec -> %d / %u\n", seconds, int32_t(seconds*newTS), newTS);
-            return TTime(int32_t(seconds*newTS), newTS);
+            return TTime(int32_t(std::round(seconds*newTS)), newTS);
         }
 
         static TTime add(TTime time1, TTime time2)
-- 
2.43.0


From ca71abfe0095f9e665aaf070bafd1c0f612da793 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:02 +0000
Subject: [PATCH 09/38] fix: a point level with a topmost or bottommost corner
 was counted inside a body on the far side of that corner

---
 libvvhd/src/TBody.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libvvhd/src/TBody.cpp b/libvvhd/src/TBody.cpp
index 0143ceb..46a10de 100644
--- a/libvvhd/src/TBody.cpp
+++ b/libvvhd/src/TBody.cpp
@@ -259,7 +259,7 @@ TAtt* TBody::isPointInContour(TVec p, std::vector<T> &list)
                     (vi.y < vj.y) && (vi.y < p.y) && (p.y <= vj.y) &&
                     ((vj.y - vi.y) * (p.x - vi.x) > (vj.x - vi.x) * (p.y - vi.y))
             ) || (
-                (vi.y > vj.y) && (vi.y > p.y) && (p.y >= vj.y) &&
+                (vi.y > vj.y) && (vi.y >= p.y) && (p.y > vj.y) &&
                 ((vj.y - vi.y) * (p.x - vi.x) < (vj.x - vi.x) * (p.y - vi.y))
                 )) inContour = !inContour;
     }
-- 
2.43.0


From d6b2e439a406fa990e1b0ac4519b639b6640ecca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:08 +0000
Subject: [PATCH 10/38] fix: keep the registration of unknowns consistent when
 columns are reassigned or the matrix shrinks

---
 libvvhd/headers/TMatrix.hpp |  1 +
 libvvhd/src/TMatrix.cpp     | 12 +++++++++++-
 2 files changed, 12 insertions(+), 1 deletion(-)

diff --git a/libvvhd/headers/TMatrix.hpp b/libvvhd/headers/TMatrix.hpp
index 8ed3537..a30fb27 100644
--- a/libvvhd/headers/TMatrix.hpp
+++ b/libvvhd/headers/TMatrix.hpp
@@ -28,6 +28,7 @@ class Matrix
 
     private:
         void selfTest();
+        void forgetSolutionForCol(unsigned col);
         void transpose(double* A, unsigned N);
         void FillInverseMatrix();
 
diff --git a/libvvhd/src/TMatrix.cpp b/libvvhd/src/TMatrix.cpp
index f7dfd9c..a24e07c 100644
--- a/libvvhd/src/TMatrix.cpp
+++ b/libvvhd/src/TMatrix.cpp
@@ -40,6 +40,8 @@ Matrix::~Matrix()
 void Matrix::resize(unsigned newsize)
 {
     if (newsize == N) return;
+    for (size_t col=newsize; col<solution_ptr.size(); col++)
+        forgetSolutionForCol(col);
     N = newsize;
 
     BodyMatrix =    (double*)realloc(BodyMatrix,    sqr(N)*sizeof(double));
@@ -75,11 +77,19 @@ double *Matrix::getRightCol(unsigned eq)
 
 void Matrix::setSolutionForCol(unsigned col, double *ptr)
 {
-    solution_idx.erase(solution_ptr[col]);
+    forgetSolutionForCol(col);
     solution_ptr[col] = ptr;
     solution_idx[ptr] = col;
 }
 
+void Matrix::forgetSolutionForCol(unsigned col)
+{
+    auto res = solution_idx.find(solution_ptr[col]);
+    // the unknown may have been given another column in the meantime
+    if (res!=solution_idx.end() && res->second==col)
+        solution_idx.erase(res);
+}
+
 double *Matrix::getSolutionForCol(unsigned col)
 {
     return solution_ptr.at(col);
-- 
2.43.0


From c05767eeecf16125f98cca33edfd29be39327ad2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:22 +0000
Subject: [PATCH 11/38] fix: reuse the inverse only for the very matrix it was
 computed from

---
 libvvhd/headers/TMatrix.hpp |  3 ++-
 libvvhd/src/TMatrix.cpp     | 12 ++++++++----
 2 files changed, 10 insertions(+), 5 deletions(-)

diff --git a/libvvhd/headers/TMatrix.hpp b/libvvhd/headers/TMatrix.hpp
index a30fb27..645702c 100644
--- a/libvvhd/headers/TMatrix.hpp
+++ b/libvvhd/headers/TMatrix.hpp
@@ -36,13 +36,14 @@ class Matrix
         size_t N; //size
         double* BodyMatrix;
         double* InverseMatrix;
+        double* InvertedMatrix; // the matrix InverseMatrix was computed from
         double* RightCol;
         int *ipvt; //technical variable for lapack
 
         std::map<const double*, unsigned> solution_idx;
         std::vector<double*> solution_ptr;
 
-        uint32_t bodyMatrixHash_;
+        bool inverseMatrixIsOk_;
         bool bodyMatrixIsOk_;
 
     public:
diff --git a/libvvhd/src/TMatrix.cpp b/libvvhd/src/TMatrix.cpp
index a24e07c..d7bd663 100644
--- a/libvvhd/src/TMatrix.cpp
+++ b/libvvhd/src/TMatrix.cpp
@@ -20,11 +20,12 @@ Matrix::Matrix():
     N(0),
     BodyMatrix(),
     InverseMatrix(),
+    InvertedMatrix(),
     RightCol(),
     ipvt(),
     solution_idx(),
     solution_ptr(),
-    bodyMatrixHash_(),
+    inverseMatrixIsOk_(),
     bodyMatrixIsOk_()
 {
 }
@@ -33,6 +34,7 @@ Matrix::~Matrix()
 {
     free(BodyMatrix);
     free(InverseMatrix);
+    free(InvertedMatrix);
     free(RightCol);
     free(ipvt);
 }
@@ -46,12 +48,14 @@ void Matrix::resize(unsigned newsize)
 
     BodyMatrix =    (double*)realloc(BodyMatrix,    sqr(N)*sizeof(double));
     InverseMatrix = (double*)realloc(InverseMatrix, sqr(N)*sizeof(double));
+    InvertedMatrix = (double*)realloc(InvertedMatrix, sqr(N)*sizeof(double));
     RightCol =      (double*)realloc(RightCol,      N*sizeof(double));
     ipvt =             (int*)realloc(ipvt,          (N+1)*sizeof(int));
 
     solution_ptr.resize(N);
 
     bodyMatrixIsOk_ = false;
+    inverseMatrixIsOk_ = false;
 }
 
 double *Matrix::getCell(unsigned row, const double *solution)
@@ -240,10 +244,10 @@ void Matrix::FillInverseMatrix()
         exit(-2);
     }
 
-    uint32_t hash = SuperFastHash((char*)BodyMatrix, sqr(N)*sizeof(double));
-    if (hash == bodyMatrixHash_)
+    if (inverseMatrixIsOk_ && !memcmp(InvertedMatrix, BodyMatrix, sqr(N)*sizeof(double)))
         return;
 
+    memcpy(InvertedMatrix, BodyMatrix, sqr(N)*sizeof(double));
     memcpy(InverseMatrix, BodyMatrix, sqr(N)*sizeof(double));
 
     int size_int = N;
@@ -264,7 +268,7 @@ void Matrix::FillInverseMatrix()
         exit(-2);
     }
 
-    bodyMatrixHash_ = hash;
+    inverseMatrixIsOk_ = true;
     bodyMatrixIsOk_ = false;
 }
 
-- 
2.43.0


From f487f61b8563006da623232910e8bd0175f70b72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:00 +0000
Subject: [PATCH 12/38] fix: isolines broke (or vanished) where the level
 equals the value of a grid node

---
 libvvhd/src/XIsoline.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/libvvhd/src/XIsoline.cpp b/libvvhd/src/XIsoline.cpp
index f1ca96f..e83f7a8 100644
--- a/libvvhd/src/XIsoline.cpp
+++ b/libvvhd/src/XIsoline.cpp
@@ -70,7 +70,8 @@ XIsoline::XIsoline(
 inline static
 bool inrange(float z1, float z2, float c)
 {
-    return (z1 <= c && c < z2) || (z1 >= c && c > z2);
+    // both cells sharing an edge must agree, whichever way they go along it
+    return (z1 < c && c <= z2) || (z2 < c && c <= z1);
 }
 
 void XIsoline::merge_lines(TLine* dst, bool dst_side)
-- 
2.43.0


From 55c0c040a6a453c48a2c0990df4371a5111901ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:00 +0000
Subject: [PATCH 13/38] fix: percentile of a small field read the value before
 the first one

---
 libvvhd/src/XField.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/libvvhd/src/XField.cpp b/libvvhd/src/XField.cpp
index f9af7cd..2fdd67f 100644
--- a/libvvhd/src/XField.cpp
+++ b/libvvhd/src/XField.cpp
@@ -116,7 +116,10 @@ float XField::percentile(float p) const
     auto it = std::copy_if(&map[0], &map[xres*yres], v.begin(), [](float x){return x!=0;});
     v.resize(std::distance(v.begin(),it));
 
-    size_t N = std::floor(v.size()*p);
+    if (v.empty())
+        return 0;
+
+    size_t N = std::max(std::floor(v.size()*p), 1.f);
     std::partial_sort(v.begin(), v.begin()+N, v.end(), cmp);
     return v[N-1];
 }
-- 
2.43.0


From 98f2377a3ad7b2c71b9b2d890c3e9dd0662686ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:00 +0000
Subject: [PATCH 14/38] fix: a field file whose declared width exceeds its
 contents was read beyond its end

---
 libvvhd/src/XField.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/libvvhd/src/XField.cpp b/libvvhd/src/XField.cpp
index 2fdd67f..a5df7a8 100644
--- a/libvvhd/src/XField.cpp
+++ b/libvvhd/src/XField.cpp
@@ -43,9 +43,12 @@ XField::XField(const std::string& str):
         throw std::invalid_argument("XField(str): invalid data");
     }
 
+    if (N >= str.size()/sizeof(float))
+        throw std::invalid_argument("XField(str): can't factorize matrix");
+
     xres = N;
     yres = str.size()/sizeof(float)/(xres+1) - 1;
-    if (str.size() != sizeof(float)*(xres+1)*(yres+1))
+    if (yres <= 1 || str.size() != sizeof(float)*(xres+1)*(yres+1))
         throw std::invalid_argument("XField(str): can't factorize matrix");
 
     float dx = data[2] - data[1];
-- 
2.43.0


From d55ac7d1acc50b3fb6e565f8292de1e0d60b4319 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:31 +0000
Subject: [PATCH 15/38] fix: a field far from the origin could not be read
 back, or only with a wrong spacing

---
 libvvhd/src/XField.cpp | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/libvvhd/src/XField.cpp b/libvvhd/src/XField.cpp
index a5df7a8..244e202 100644
--- a/libvvhd/src/XField.cpp
+++ b/libvvhd/src/XField.cpp
@@ -1,6 +1,7 @@
 #include "XField.hpp"
 
 #include <cmath>
+#include <limits>
 #include <stdexcept>
 #include <algorithm>
 
@@ -51,18 +52,27 @@ XField::XField(const std::string& str):
     if (yres <= 1 || str.size() != sizeof(float)*(xres+1)*(yres+1))
         throw std::invalid_argument("XField(str): can't factorize matrix");
 
-    float dx = data[2] - data[1];
-    float dy = data[2*(xres+1)] - data[1*(xres+1)];
-    if (fabs(dx-dy) > std::min(fabs(dx), fabs(dy))/1000 ) {
+    // coordinates are stored rounded, the whole extent tells the spacing best
+    const float* x = data + 1;
+    const float* y = data + (xres+1);
+    double dx = (double(x[xres-1]) - x[0]) / (xres-1);
+    double dy = (double(y[(yres-1)*(xres+1)]) - y[0]) / (yres-1);
+    double rounding = std::numeric_limits<float>::epsilon() * (
+        std::max(fabs(x[0]), fabs(x[xres-1])) / (xres-1) +
+        std::max(fabs(y[0]), fabs(y[(yres-1)*(xres+1)])) / (yres-1)
+    );
+    if (!std::isfinite(dx) || !(dx > 0))
+        throw std::invalid_argument("XField(str): invalid spacing");
+    if (!(fabs(dx-dy) <= std::min(fabs(dx), fabs(dy))/1000 + rounding)) {
         fprintf(stderr, "Bad spacing: %lg != %lg (diff %lg)\n",
             dx, dy, fabs(dx-dy)
         );
         throw std::invalid_argument("XField(str): non-uniform grid");
     }
 
-    xmin = data[1];
-    ymin = data[1*(xres+1)];
-    dxdy = data[2]-data[1];
+    xmin = x[0];
+    ymin = y[0];
+    dxdy = dx;
     map = new float[xres*yres];
     for (int yj=0; yj<yres; yj++)
     {
-- 
2.43.0


From ad6a9e8eb78ab1688e96fdf02df956176242e3c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:01 +0000
Subject: [PATCH 16/38] fix: isolines from a level of minus infinity never
 ended

---
 libvvhd/src/XIsoline.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/libvvhd/src/XIsoline.cpp b/libvvhd/src/XIsoline.cpp
index e83f7a8..39754c3 100644
--- a/libvvhd/src/XIsoline.cpp
+++ b/libvvhd/src/XIsoline.cpp
@@ -28,6 +28,8 @@ XIsoline::XIsoline(
 {
     if (!field.evaluated)
         throw std::invalid_argument("XIsoline(): field is not evaluated");
+    if (!isfinite(vmin))
+        throw std::invalid_argument("XIsoline(): vmin must be finite");
     if (!isfinite(vmax))
         throw std::invalid_argument("XIsoline(): vmax must be finite");
     if (!(vmin <= vmax))
-- 
2.43.0


From 73bb83da6b383d8c47db7cfb309d565441573295 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:33 +0000
Subject: [PATCH 17/38] fix: evaluating the vorticity or pressure field changed
 the bodies of the caller

---
 libvvhd/src/XPressure.cpp  | 6 +++++-
 libvvhd/src/XVorticity.cpp | 6 +++++-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/libvvhd/src/XPressure.cpp b/libvvhd/src/XPressure.cpp
index b05a24f..c2d5cc5 100644
--- a/libvvhd/src/XPressure.cpp
+++ b/libvvhd/src/XPressure.cpp
@@ -27,7 +27,11 @@ XPressure::XPressure(
     diffusive(&this->S, &tree),
     flowmove(&this->S),
     eps(&this->S, &tree)
-{}
+{
+    // evaluation sheds vortices, that must not affect bodies of the caller
+    for (auto& lbody: this->S.BodyList)
+        lbody = std::make_shared<TBody>(*lbody);
+}
 
 void XPressure::evaluate()
 {
diff --git a/libvvhd/src/XVorticity.cpp b/libvvhd/src/XVorticity.cpp
index aa86e7b..2883250 100644
--- a/libvvhd/src/XVorticity.cpp
+++ b/libvvhd/src/XVorticity.cpp
@@ -21,7 +21,11 @@ XVorticity::XVorticity(
     eps_mult(),
     S(S),
     dl(S.average_segment_length())
-{}
+{
+    // evaluation sheds vortices, that must not affect bodies of the caller
+    for (auto& lbody: this->S.BodyList)
+        lbody = std::make_shared<TBody>(*lbody);
+}
 
 void XVorticity::evaluate()
 {
-- 
2.43.0


From c643094ca94112b7857dbedf46cceb56649a6c8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:45 +0000
Subject: [PATCH 18/38] fix: fields in the reference frame of a body crashed
 when there are no bodies

---
 libvvhd/src/XPressure.cpp       | 2 ++
 libvvhd/src/XStreamfunction.cpp | 2 ++
 libvvhd/src/XVelocity.cpp       | 2 ++
 3 files changed, 6 insertions(+)

diff --git a/libvvhd/src/XPressure.cpp b/libvvhd/src/XPressure.cpp
index c2d5cc5..76655b1 100644
--- a/libvvhd/src/XPressure.cpp
+++ b/libvvhd/src/XPressure.cpp
@@ -48,6 +48,8 @@ void XPressure::evaluate()
         ref_frame_speed = S.inf_speed();
         break;
     case 'b':
+        if (S.BodyList.empty())
+            throw std::invalid_argument("XPressure(): ref_frame 'b' requires a body");
         ref_frame_speed = S.BodyList[0]->speed_slae.r;
         break;
     default:
diff --git a/libvvhd/src/XStreamfunction.cpp b/libvvhd/src/XStreamfunction.cpp
index 1e906f7..9014549 100644
--- a/libvvhd/src/XStreamfunction.cpp
+++ b/libvvhd/src/XStreamfunction.cpp
@@ -57,6 +57,8 @@ void XStreamfunction::evaluate()
         ref_frame_speed = S.inf_speed();
         break;
     case 'b':
+        if (S.BodyList.empty())
+            throw std::invalid_argument("XStreamfunction(): ref_frame 'b' requires a body");
         ref_frame_speed = S.BodyList[0]->speed_slae.r;
         break;
     default:
diff --git a/libvvhd/src/XVelocity.cpp b/libvvhd/src/XVelocity.cpp
index 3672c62..cf0358f 100644
--- a/libvvhd/src/XVelocity.cpp
+++ b/libvvhd/src/XVelocity.cpp
@@ -31,6 +31,8 @@ void XVelocity::evaluate()
         ref_frame_speed = S.inf_speed();
         break;
     case 'b':
+        if (S.BodyList.empty())
+            throw std::invalid_argument("XVelocity(): ref_frame 'b' requires a body");
         ref_frame_speed = S.BodyList[0]->speed_slae.r;
         break;
     default:
-- 
2.43.0


From 87e89e916bd52c3d428f3eb6318010c3791ae012 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:19 +0000
Subject: [PATCH 19/38] fix: sinks of the previous state survived loading a
 file without sinks

---
 libvvhd/src/TSpace.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/libvvhd/src/TSpace.cpp b/libvvhd/src/TSpace.cpp
index 4c796a6..4a810b1 100644
--- a/libvvhd/src/TSpace.cpp
+++ b/libvvhd/src/TSpace.cpp
@@ -40,6 +40,7 @@ void Space::load(const char* fname, metainfo_t *info)
     BodyList.clear();
     VortexList.clear();
     HeatList.clear();
+    SourceList.clear();
     StreakSourceList.clear();
     StreakList.clear();
 
-- 
2.43.0


From 4271eb6c1f4dcc111d2f4d3b3b9ac98cd251dd1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:19 +0000
Subject: [PATCH 20/38] fix: a state was saved to another file when the name is
 64 characters or longer

---
 libvvhd/src/TSpace.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/libvvhd/src/TSpace.cpp b/libvvhd/src/TSpace.cpp
index 4a810b1..92a6e2f 100644
--- a/libvvhd/src/TSpace.cpp
+++ b/libvvhd/src/TSpace.cpp
@@ -69,8 +69,13 @@ void Space::save(const char* format)
         lbody->validate(/*critical=*/true);
     }
 
-    char fname[64];
-    snprintf(fname, 64, format, int(time/dt+0.5));
+    const int step = time/dt+0.5;
+    const int len = snprintf(NULL, 0, format, step);
+    if (len < 0)
+        throw std::invalid_argument("Space::save(): bad file name");
+    std::vector<char> buf(len+1);
+    snprintf(buf.data(), buf.size(), format, step);
+    const char* fname = buf.data();
     H5Eset_auto(H5E_DEFAULT, NULL, NULL);
     hid_t fid = H5Fcreate(fname, H5F_ACC_TRUNC, H5P_DEFAULT, H5P_DEFAULT);
     if (fid < 0)
-- 
2.43.0


From c4beb990dfcfeff6ced08e6a98f5a815c83396f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:19 +0000
Subject: [PATCH 21/38] fix: after a failed save the file could not be written
 again

---
 libvvhd/src/TSpace.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/libvvhd/src/TSpace.cpp b/libvvhd/src/TSpace.cpp
index 92a6e2f..397f05a 100644
--- a/libvvhd/src/TSpace.cpp
+++ b/libvvhd/src/TSpace.cpp
@@ -81,7 +81,12 @@ void Space::save(const char* format)
     if (fid < 0)
         h5_throw("H5Fcreate", fname);
 
-    save_hdf(fid);
+    try {
+        save_hdf(fid);
+    } catch (...) {
+        H5Fclose(fid);
+        throw;
+    }
 
     herr_t err = H5Fclose(fid);
     if (err < 0)
-- 
2.43.0


From e75a5c0d228cbbe8242803f977de0a89a165c5a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:19 +0000
Subject: [PATCH 22/38] fix: more than a hundred bodies were loaded in another
 order than saved

---
 libvvhd/src/TSpace_load_hdf.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/libvvhd/src/TSpace_load_hdf.cpp b/libvvhd/src/TSpace_load_hdf.cpp
index 21f9553..ae2c795 100644
--- a/libvvhd/src/TSpace_load_hdf.cpp
+++ b/libvvhd/src/TSpace_load_hdf.cpp
@@ -6,7 +6,14 @@
 #include "vvhdf.h"
 
 #include <map>
-typedef std::map<std::string, std::shared_ptr<TBody>> body_map_t;
+
+// the order of names body00, ..., body99, body100, ...
+struct body_name_less {
+    bool operator()(const std::string& a, const std::string& b) const {
+        return a.size() != b.size() ? a.size() < b.size() : a < b;
+    }
+};
+typedef std::map<std::string, std::shared_ptr<TBody>, body_name_less> body_map_t;
 
 static void dataset_read_list(hid_t fid, std::string name, std::vector<TObj>& list)
 {
-- 
2.43.0


From ed5109346fd7bf6e9e0ef26806ffbf08bcf6988c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:43 +0000
Subject: [PATCH 23/38] fix: step data groups were named from a destroyed
 string

---
 libvvhd/src/MStepdata.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/libvvhd/src/MStepdata.cpp b/libvvhd/src/MStepdata.cpp
index c68a7d5..2a29a0a 100644
--- a/libvvhd/src/MStepdata.cpp
+++ b/libvvhd/src/MStepdata.cpp
@@ -83,7 +83,8 @@ Stepdata::Stepdata(Space* S, const char *fname, bool b_save_profile):
     {
         size_t body_n = S->get_body_index(lbody.get());
         if (body_n > blsize) continue;
-        const char *bname = S->get_body_name(lbody.get()).c_str();
+        std::string body_name = S->get_body_name(lbody.get());
+        const char *bname = body_name.c_str();
         hid_t body_h5g;
         if (!H5Lexists(h5f, bname, H5P_DEFAULT))
         {
-- 
2.43.0


From 538a26a165fe5815b5cca19453d529bc21c75c08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:43 +0000
Subject: [PATCH 24/38] fix: the name of a body after the thousandth overran
 its buffer

---
 libvvhd/src/TSpace.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/libvvhd/src/TSpace.cpp b/libvvhd/src/TSpace.cpp
index 397f05a..005c35e 100644
--- a/libvvhd/src/TSpace.cpp
+++ b/libvvhd/src/TSpace.cpp
@@ -229,7 +229,7 @@ int Space::get_body_index(const TBody* body) const
 
 std::string Space::get_body_name(const TBody* body) const
 {
-    char name[8];
-    sprintf(name, "body%02d", get_body_index(body));
+    char name[32];
+    snprintf(name, sizeof(name), "body%02d", get_body_index(body));
     return std::string(name);
 }
-- 
2.43.0


From 41a623cb3bbda75ee67d95c68b9bdc7142928888 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:43 +0000
Subject: [PATCH 25/38] fix: a body added after the step data were opened was
 recorded beyond the list of data sets

---
 libvvhd/src/MStepdata.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/libvvhd/src/MStepdata.cpp b/libvvhd/src/MStepdata.cpp
index 2a29a0a..5ed354d 100644
--- a/libvvhd/src/MStepdata.cpp
+++ b/libvvhd/src/MStepdata.cpp
@@ -82,7 +82,7 @@ Stepdata::Stepdata(Space* S, const char *fname, bool b_save_profile):
     for (auto& lbody: S->BodyList)
     {
         size_t body_n = S->get_body_index(lbody.get());
-        if (body_n > blsize) continue;
+        if (body_n >= blsize) continue;
         std::string body_name = S->get_body_name(lbody.get());
         const char *bname = body_name.c_str();
         hid_t body_h5g;
@@ -158,7 +158,7 @@ void Stepdata::write()
     for (auto& lbody: S->BodyList)
     {
         size_t body_n = S->get_body_index(lbody.get());
-        if (body_n > blsize) continue;
+        if (body_n >= blsize) continue;
         append(force_hydro_h5d[body_n], lbody->force_hydro);
         append(force_holder_h5d[body_n], lbody->force_holder);
         append(force_friction_h5d[body_n], lbody->friction);
-- 
2.43.0


From f2460492aa9dba7e017c39ed5db16fec4a7302f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:46 +0000
Subject: [PATCH 26/38] fix: gen_parallelogram: parameter 'd' is required

---
 utils/vvflow/gen_parallelogram.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/utils/vvflow/gen_parallelogram.cpp b/utils/vvflow/gen_parallelogram.cpp
index 2a46d43..aae428c 100644
--- a/utils/vvflow/gen_parallelogram.cpp
+++ b/utils/vvflow/gen_parallelogram.cpp
@@ -27,8 +27,7 @@ int luavvd_gen_parallelogram(lua_State *L) {
     H_ = get_param(L, "H",  "positive", std::numeric_limits<lua_Number>::min());
     d_ = get_param(L, "d", "in range (0, 180)",
         /*min*/ std::numeric_limits<lua_Number>::min(),
-        /*max*/ 180*(1 - std::numeric_limits<lua_Number>::epsilon()),
-        /*default*/ 0);
+        /*max*/ 180*(1 - std::numeric_limits<lua_Number>::epsilon()));
 
     lua_pushnil(L);
     if (lua_next(L, 1)) {
-- 
2.43.0


From bfac58d9431316db17830a2ff16521bf5bdb9c1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:46 +0000
Subject: [PATCH 27/38] fix: gen_plate: refuse a circle lying inside the other
 one

---
 utils/vvflow/gen_plate.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/utils/vvflow/gen_plate.cpp b/utils/vvflow/gen_plate.cpp
index 8dc94d9..2de6000 100644
--- a/utils/vvflow/gen_plate.cpp
+++ b/utils/vvflow/gen_plate.cpp
@@ -30,6 +30,7 @@ int luavvd_gen_plate(lua_State *L) {
     R2 = get_param(L, "R2", ">= 0", 0);
     luaL_argcheck(L, (R1>0)|(R2>0), 1, "either 'R1' or 'R2' must be > 0");
     Ll = get_param(L, "L",  "positive", std::numeric_limits<double>::min());
+    luaL_argcheck(L, fabs(R2-R1)<=Ll, 1, "'L' must not be less than the difference of 'R1' and 'R2'");
     start = get_param(L, "start", "in range [0, 1)",
         /*min*/ 0,
         /*max*/ 1 - std::numeric_limits<double>::epsilon(),
-- 
2.43.0


From 09227187750834dae89dfbb614fd4449f841cbad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:46 +0000
Subject: [PATCH 28/38] fix: gen_plate: refuse start >= stop

---
 utils/vvflow/gen_plate.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/utils/vvflow/gen_plate.cpp b/utils/vvflow/gen_plate.cpp
index 2de6000..bc50bdb 100644
--- a/utils/vvflow/gen_plate.cpp
+++ b/utils/vvflow/gen_plate.cpp
@@ -39,6 +39,7 @@ int luavvd_gen_plate(lua_State *L) {
         /*min*/ std::numeric_limits<double>::min(),
         /*max*/ 1,
         /*default*/ 1);
+    luaL_argcheck(L, start<stop, 1, "'start' must be less than 'stop'");
     gap   = get_param(L, "gap",   "positive",
         /*min*/ std::numeric_limits<double>::min(),
         /*max*/ std::numeric_limits<double>::infinity(),
-- 
2.43.0


From 6af05454beea1eb72d1b8ecac072eef7f8379f17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:57 +0000
Subject: [PATCH 29/38] fix: body generators: refuse a discretization of less
 than 3 segments

---
 utils/vvflow/gen_body.cpp          | 7 +++++++
 utils/vvflow/gen_body.h            | 3 +++
 utils/vvflow/gen_box.cpp           | 1 +
 utils/vvflow/gen_cylinder.cpp      | 2 ++
 utils/vvflow/gen_gis.cpp           | 1 +
 utils/vvflow/gen_parallelogram.cpp | 1 +
 utils/vvflow/gen_plate.cpp         | 1 +
 utils/vvflow/gen_savonius.cpp      | 1 +
 8 files changed, 17 insertions(+)

diff --git a/utils/vvflow/gen_body.cpp b/utils/vvflow/gen_body.cpp
index 8b9fe84..4d5642e 100644
--- a/utils/vvflow/gen_body.cpp
+++ b/utils/vvflow/gen_body.cpp
@@ -42,6 +42,13 @@ lua_Number get_param(
     return luaL_argerror(L, 1, lua_tostring(L, -1));
 }
 
+void check_discretization(lua_State *L, std::shared_ptr<TBody>& body) {
+    if (body->alist.size() < 3) {
+        body.reset(); // luaL_argerror never returns
+        luaL_argerror(L, 1, "discretization too low");
+    }
+}
+
 void gen_seg_N(
     std::vector<TAtt>& alist,
     TVec p1,
diff --git a/utils/vvflow/gen_body.h b/utils/vvflow/gen_body.h
index 31b9053..95f2ca8 100644
--- a/utils/vvflow/gen_body.h
+++ b/utils/vvflow/gen_body.h
@@ -1,5 +1,6 @@
 #pragma once
 #include "TVec.hpp"
+#include <memory>
 #include <vector>
 #include <limits>
 
@@ -12,6 +13,8 @@ lua_Number get_param(
     lua_Number dflt = std::numeric_limits<double>::quiet_NaN()
 );
 
+void check_discretization(lua_State *L, std::shared_ptr<TBody>& body);
+
 int luavvd_gen_cylinder(lua_State *L);
 int luavvd_gen_semicyl(lua_State *L);
 int luavvd_gen_ellipse(lua_State *L);
diff --git a/utils/vvflow/gen_box.cpp b/utils/vvflow/gen_box.cpp
index 5b0ea83..e2090b7 100644
--- a/utils/vvflow/gen_box.cpp
+++ b/utils/vvflow/gen_box.cpp
@@ -53,6 +53,7 @@ int luavvd_gen_chamber_box(lua_State *L) {
     gen_seg_dl(body->alist, TVec(+L2  ,   0.), TVec(+L2  ,   _H), dls, true);  // inner right
     gen_seg_dl(body->alist, TVec(+L2  ,   _H), TVec(0.   ,   _H), dls, true);  // inner top right
 
+    check_discretization(L, body);
     body->doUpdateSegments();
     body->doFillProperties();
 
diff --git a/utils/vvflow/gen_cylinder.cpp b/utils/vvflow/gen_cylinder.cpp
index 91d6d49..e434f84 100644
--- a/utils/vvflow/gen_cylinder.cpp
+++ b/utils/vvflow/gen_cylinder.cpp
@@ -37,6 +37,7 @@ int luavvd_gen_cylinder(lua_State *L) {
         gen_arc_N(body->alist, TVec(0, 0), R, 2*M_PI, 0, N);
     }
 
+    check_discretization(L, body);
     body->doUpdateSegments();
     body->doFillProperties();
     pushTBody(L, body);
@@ -80,6 +81,7 @@ int luavvd_gen_semicyl(lua_State *L) {
     gen_arc_dl(body->alist, TVec(0, 0), R, 2*M_PI, M_PI, dl);
     gen_seg_dl(body->alist, TVec(-R, 0.), TVec(0., 0.), dl);
 
+    check_discretization(L, body);
     body->doUpdateSegments();
     body->doFillProperties();
     pushTBody(L, body);
diff --git a/utils/vvflow/gen_gis.cpp b/utils/vvflow/gen_gis.cpp
index b2073f2..3583b5d 100644
--- a/utils/vvflow/gen_gis.cpp
+++ b/utils/vvflow/gen_gis.cpp
@@ -57,6 +57,7 @@ int luavvd_gen_chamber_gpj(lua_State *L) {
     gen_seg_dl(body->alist, TVec(X3, -Y3), TVec(X3, -Y4), dls2, true);  // bbox right bottom
     gen_seg_dl(body->alist, TVec(X3, -Y4), TVec(X4, -Y4), dls,  true);  // bbox bottom
 
+    check_discretization(L, body);
     body->doUpdateSegments();
     body->doFillProperties();
 
diff --git a/utils/vvflow/gen_parallelogram.cpp b/utils/vvflow/gen_parallelogram.cpp
index aae428c..60f1064 100644
--- a/utils/vvflow/gen_parallelogram.cpp
+++ b/utils/vvflow/gen_parallelogram.cpp
@@ -51,6 +51,7 @@ int luavvd_gen_parallelogram(lua_State *L) {
     gen_seg_dl(body->alist, TVec(   L2, H_), TVec(L_+L2, H_), dl);
     gen_seg_dl(body->alist, TVec(L_+L2, H_), TVec(L_   ,  0), dl);
 
+    check_discretization(L, body);
     body->doUpdateSegments();
     body->doFillProperties();
 
diff --git a/utils/vvflow/gen_plate.cpp b/utils/vvflow/gen_plate.cpp
index bc50bdb..1303f50 100644
--- a/utils/vvflow/gen_plate.cpp
+++ b/utils/vvflow/gen_plate.cpp
@@ -88,6 +88,7 @@ int luavvd_gen_plate(lua_State *L) {
                             TVec(c2, 0)+r2*TVec(cos(phi2), +sin(phi2)), dl, false);
     gen_arc_dl(body->alist, TVec(c2, 0), r2, +phi2, +phi1,              dl, stop<1);
 
+    check_discretization(L, body);
     body->doUpdateSegments();
     body->doFillProperties();
 
diff --git a/utils/vvflow/gen_savonius.cpp b/utils/vvflow/gen_savonius.cpp
index c8a5860..306cb92 100644
--- a/utils/vvflow/gen_savonius.cpp
+++ b/utils/vvflow/gen_savonius.cpp
@@ -52,6 +52,7 @@ int luavvd_gen_savonius(lua_State *L) {
     gen_arc_dl(body->alist, TVec(-R*2, 0), h2  , 2*M_PI, M_PI  , dl);   // shell end, left
     gen_arc_dl(body->alist, TVec(-R  , 0), R+h2, M_PI  , 0     , dl);   // outer shell, left
 
+    check_discretization(L, body);
     body->doUpdateSegments();
     body->doFillProperties();
     pushTBody(L, body);
-- 
2.43.0


From a01edc041bfa539f0583657b59d05b9f75332cc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:36:10 +0000
Subject: [PATCH 30/38] fix: TBody.slip: a body without segments has no slip
 value

---
 utils/vvflow/lua_tbody.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/utils/vvflow/lua_tbody.cpp b/utils/vvflow/lua_tbody.cpp
index 21e610e..0d31d44 100644
--- a/utils/vvflow/lua_tbody.cpp
+++ b/utils/vvflow/lua_tbody.cpp
@@ -26,6 +26,11 @@ int luavvd_setslip(lua_State *L) {
 int luavvd_getslip(lua_State *L) {
     TBody* body = (TBody*)lua_touserdata(L, 1);
 
+    if (body->alist.empty()) {
+        lua_pushnil(L);
+        return 1;
+    }
+
     uint32_t slip = body->alist.begin()->slip;
     for (auto& latt: body->alist) {
         if (latt.slip != slip) {
-- 
2.43.0


From f0116819e1aeaf94d9795e9497174bb0ef43fb5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:36:10 +0000
Subject: [PATCH 31/38] fix: TBody.slip: setting it takes effect at once (the
 body caches whether it has slip segments)

---
 utils/vvflow/lua_tbody.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/utils/vvflow/lua_tbody.cpp b/utils/vvflow/lua_tbody.cpp
index 0d31d44..7abdd0e 100644
--- a/utils/vvflow/lua_tbody.cpp
+++ b/utils/vvflow/lua_tbody.cpp
@@ -20,6 +20,7 @@ int luavvd_setslip(lua_State *L) {
     for (auto& latt: body->alist) {
         latt.slip = val;
     }
+    body->doFillProperties(); // get_slip() is stored
     return 0;
 }
 
-- 
2.43.0


From 090fb754bf96821921e01f10f3db259ebb81d646 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:36:20 +0000
Subject: [PATCH 32/38] fix: list:append: append all the arguments or none,
 also when they are elements of the list

---
 utils/vvflow/lua_objlist.cpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/utils/vvflow/lua_objlist.cpp b/utils/vvflow/lua_objlist.cpp
index dab6d4f..9277fc1 100644
--- a/utils/vvflow/lua_objlist.cpp
+++ b/utils/vvflow/lua_objlist.cpp
@@ -12,14 +12,21 @@ static int objlist_append(lua_State *L) {
     vector<TObj> *li = checkObjList(L, 1);
     int isobj;
 
+    // append either all the arguments or none of them
     for (int i=2; i<=lua_gettop(L); i++) {
-        TObj obj = lua_toTObjx(L, i, &isobj);
+        lua_toTObjx(L, i, &isobj);
         if (!isobj) {
             luaL_argerror(L, i, "expected TObj");
         }
-        li->push_back(obj);
     }
 
+    // an argument may be an element of the very list
+    vector<TObj> objs;
+    for (int i=2; i<=lua_gettop(L); i++) {
+        objs.push_back(lua_toTObjx(L, i, &isobj));
+    }
+    li->insert(li->end(), objs.begin(), objs.end());
+
     return 0;
 }
 
-- 
2.43.0


From 961418150242c7aa61085a31fbca24a567fcf0e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:36:20 +0000
Subject: [PATCH 33/38] fix: integer attributes: refuse numbers which are not
 32-bit integers

---
 utils/vvflow/getset.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/utils/vvflow/getset.cpp b/utils/vvflow/getset.cpp
index cd428aa..4ae7c8e 100644
--- a/utils/vvflow/getset.cpp
+++ b/utils/vvflow/getset.cpp
@@ -2,6 +2,7 @@
 #include "TTime.hpp"
 
 #include <lua.hpp>
+#include <cmath>
 
 int luavvd_setdouble(lua_State *L) {
     double* dbl = (double*)lua_touserdata(L, 1);
@@ -21,11 +22,16 @@ int luavvd_setint32(lua_State *L) {
     int32_t* num = (int32_t*)lua_touserdata(L, 1);
     
     int isnum;
-    lua_Integer val = lua_tointegerx(L, 2, &isnum);
+    lua_Number val = lua_tonumberx(L, 2, &isnum);
     if (!isnum) {
         lua_pushfstring(L, "integer expected, got %s", luaL_typename(L, 2));
         return 1;
     }
+    // Lua converts any number to integer silently
+    if (!(val >= INT32_MIN && val <= INT32_MAX) || val != std::floor(val)) {
+        lua_pushfstring(L, "integer expected, got %f", val);
+        return 1;
+    }
 
     *num = val;
     return 0;
-- 
2.43.0


From f39410baa069c99bb8c1a56715e60b6a86609027 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:36:20 +0000
Subject: [PATCH 34/38] fix: TTime: refuse numbers out of range and fractions
 of anything but 32-bit integers

---
 utils/vvflow/getset.cpp | 22 ++++++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/utils/vvflow/getset.cpp b/utils/vvflow/getset.cpp
index 4ae7c8e..070480f 100644
--- a/utils/vvflow/getset.cpp
+++ b/utils/vvflow/getset.cpp
@@ -72,8 +72,13 @@ int luavvd_setTTime(lua_State *L) {
     TTime nt;
 
     int isnum[2];
+    lua_Number num[2];
     switch (lua_type(L, 2)) {
     case LUA_TNUMBER:
+        if (!(std::fabs(lua_tonumber(L, 2)) <= INT32_MAX)) {
+            lua_pushfstring(L, "TTime out of range, got %f", lua_tonumber(L, 2));
+            return 1;
+        }
         *t = TTime::makeWithSecondsDecimal(lua_tonumber(L, 2));
         return 0;
     case LUA_TTABLE:
@@ -84,17 +89,26 @@ int luavvd_setTTime(lua_State *L) {
 
         lua_rawgeti(L, 2, 1); // push table[1]
         lua_rawgeti(L, 2, 2); // push table[2]        
-        nt.value = lua_tointegerx(L, -2, &isnum[0]);
-        nt.timescale = lua_tointegerx(L, -1, &isnum[1]);
+        num[0] = lua_tonumberx(L, -2, &isnum[0]);
+        num[1] = lua_tonumberx(L, -1, &isnum[1]);
         if (!isnum[0] || !isnum[1]) {
             const char *typ1 = luaL_typename(L, -2);
             const char *typ2 = luaL_typename(L, -1);
             lua_pushfstring(L, "TTime needs two integers, got %s and %s", typ1, typ2);
             return 1;
-        } else if (lua_tointeger(L, -1)<1) {
-            lua_pushfstring(L, "TTime timescale must be positive, got %d", nt.timescale);
+        } else if (num[1]<1) {
+            lua_pushfstring(L, "TTime timescale must be positive, got %f", num[1]);
+            return 1;
+        } else if (
+            !(num[0] >= INT32_MIN && num[0] <= INT32_MAX && num[1] <= UINT32_MAX)
+            || num[0] != std::floor(num[0])
+            || num[1] != std::floor(num[1])
+        ) {
+            lua_pushfstring(L, "TTime needs two 32-bit integers, got %f and %f", num[0], num[1]);
             return 1;
         }
+        nt.value = num[0];
+        nt.timescale = num[1];
         *t = nt;
         return 0;
     case LUA_TSTRING:
-- 
2.43.0


From b0da311019027d32a21df06d7ba03c0d75e4eb8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:36:20 +0000
Subject: [PATCH 35/38] fix: list:load_bin: raise an error when the file can
 not be read

---
 utils/vvflow/lua_objlist.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/utils/vvflow/lua_objlist.cpp b/utils/vvflow/lua_objlist.cpp
index 9277fc1..70c664f 100644
--- a/utils/vvflow/lua_objlist.cpp
+++ b/utils/vvflow/lua_objlist.cpp
@@ -49,7 +49,10 @@ static int objlist_load_txt(lua_State *L) {
 static int objlist_load_bin(lua_State *L) {
     vector<TObj> *li = checkObjList(L, 1);
     const char* fname = luaL_checkstring(L, 2);
-    Space::load_list_bin(*li, fname);
+    int err = Space::load_list_bin(*li, fname);
+    if (err) {
+        luaL_error(L, "can not load '%s' (%s)", fname, strerror(err));
+    }
     return 0;
 }
 
-- 
2.43.0


From 28c1e1b2c83714982cf2ae41364557ce27e51c66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:36:20 +0000
Subject: [PATCH 36/38] fix: lists: there is nothing at an index which is not
 whole

---
 utils/vvflow/lua_bodylist.cpp | 7 ++++---
 utils/vvflow/lua_objlist.cpp  | 7 ++++---
 2 files changed, 8 insertions(+), 6 deletions(-)

diff --git a/utils/vvflow/lua_bodylist.cpp b/utils/vvflow/lua_bodylist.cpp
index 548128d..2611b60 100644
--- a/utils/vvflow/lua_bodylist.cpp
+++ b/utils/vvflow/lua_bodylist.cpp
@@ -3,6 +3,7 @@
 #include "getset.h"
 
 // #include <cstdio>
+#include <cmath>
 #include <cstring>
 
 using std::vector;
@@ -63,9 +64,9 @@ static int bodylist_getindex(lua_State *L) {
     vector<shared_ptr<TBody>>* li = checkBodyList(L, 1);
 
     if (lua_isnumber(L, 2)) {
-        lua_Integer idx = lua_tointeger(L, 2)-1;
-        if (idx >= 0 && idx < li->size()) {
-            pushTBody(L, li->at(idx));
+        lua_Number idx = lua_tonumber(L, 2);
+        if (idx >= 1 && idx <= li->size() && idx == std::floor(idx)) {
+            pushTBody(L, li->at(idx-1));
             return 1;
         }
     } else if (lua_isstring(L, 2)) {
diff --git a/utils/vvflow/lua_objlist.cpp b/utils/vvflow/lua_objlist.cpp
index 70c664f..0292f12 100644
--- a/utils/vvflow/lua_objlist.cpp
+++ b/utils/vvflow/lua_objlist.cpp
@@ -4,6 +4,7 @@
 
 #include "TSpace.hpp"
 
+#include <cmath>
 #include <cstring>
 
 using std::vector;
@@ -97,9 +98,9 @@ static int objlist_getindex(lua_State *L) {
     vector<TObj>* li = checkObjList(L, 1);
 
     if (lua_isnumber(L, 2)) {
-        lua_Integer idx = lua_tointeger(L, 2)-1;
-        if (idx >= 0 && idx < li->size()) {
-            lua_pushTObj(L, &li->at(idx));
+        lua_Number idx = lua_tonumber(L, 2);
+        if (idx >= 1 && idx <= li->size() && idx == std::floor(idx)) {
+            lua_pushTObj(L, &li->at(idx-1));
             return 1;
         }
     } else if (lua_isstring(L, 2)) {
-- 
2.43.0


From 07cbdc83950bdef290bad167d76400aafac99451 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:18:01 +0000
Subject: [PATCH 37/38] fix: vvflow: do not take a missing input file for a
 saved state

---
 utils/vvflow/vvflow.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/utils/vvflow/vvflow.cpp b/utils/vvflow/vvflow.cpp
index 4f5d477..b5f7ea2 100644
--- a/utils/vvflow/vvflow.cpp
+++ b/utils/vvflow/vvflow.cpp
@@ -150,7 +150,7 @@ int main(int argc, char* const* argv)
     }
     lua_setglobal(L, "arg");
 
-    if (H5Fis_hdf5(opt::input)) {
+    if (H5Fis_hdf5(opt::input) > 0) {
         lua_getglobal(L, "S");
         Space **ptr = (Space**)lua_touserdata(L, -1);
         lua_pop(L, 1);
-- 
2.43.0


From 847d9edad954e213534ca45209026d27d71e3cec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:18:01 +0000
Subject: [PATCH 38/38] fix: simulate: save into the results folder of a
 caption with percent signs

---
 utils/vvflow/vvflow.cpp | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/utils/vvflow/vvflow.cpp b/utils/vvflow/vvflow.cpp
index b5f7ea2..52d4ed6 100644
--- a/utils/vvflow/vvflow.cpp
+++ b/utils/vvflow/vvflow.cpp
@@ -174,6 +174,16 @@ int main(int argc, char* const* argv)
     return 0;
 }
 
+// doubles percent signs, so that printf prints them as they are
+static void escape_percents(char* dst, const char* src)
+{
+    while (*src) {
+        if (*src == '%') *dst++ = '%';
+        *dst++ = *src++;
+    }
+    *dst = '\0';
+}
+
 int simulate (lua_State *L) {
     lua_getglobal(L, "S");
     Space **ptr = (Space**)lua_touserdata(L, -1);
@@ -192,6 +202,7 @@ int simulate (lua_State *L) {
 
     char f_stepdata[256]; snprintf(f_stepdata, 256, "stepdata_%s.h5", S.caption.c_str());
     char f_results[240]; snprintf(f_results, 240, "results_%s", S.caption.c_str());
+    char f_results_escaped[2*sizeof(f_results)]; escape_percents(f_results_escaped, f_results);
     char f_sensors_output[256]; snprintf(f_sensors_output, 256, "velocity_%s", S.caption.c_str());
     mkdir(f_results, 0777);
 
@@ -230,8 +241,8 @@ int simulate (lua_State *L) {
 
         if (S.time.divisibleBy(S.dt_save)  && (double(S.time) >= 0))
         {
-            char tmp_filename[256];
-            snprintf(tmp_filename, 256, "%s/%%06d.h5", f_results);
+            char tmp_filename[sizeof(f_results_escaped)+16];
+            snprintf(tmp_filename, sizeof(tmp_filename), "%s/%%06d.h5", f_results_escaped);
             S.save(tmp_filename);
             stepdata.flush();
         }
-- 
2.43.0

