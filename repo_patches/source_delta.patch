From c007cbb831adefc05ed3feba2bfed9cc176f7e2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:18 +0000
Subject: [PATCH 01/30] fix: DCPQuery picks a wrong closest point when dR/ds=0
 passes through a corner of [0,1]^2

Rounding then puts the end point of the line a few ulp outside the square (it was
replaced by 0.5) or makes its extent in t tiny (the flatness test then accepted
any point), and the reported distance could be several times the true minimum.
---
 Collision/DCPQuery.hpp | 52 ++++++++++++++++++++----------------------
 1 file changed, 25 insertions(+), 27 deletions(-)

diff --git a/Collision/DCPQuery.hpp b/Collision/DCPQuery.hpp
index 316ec95..e692991 100644
--- a/Collision/DCPQuery.hpp
+++ b/Collision/DCPQuery.hpp
@@ -344,11 +344,9 @@ inline void DCPQuery<N, Real, Vector>::ComputeIntersection(Real const sValue[2],
                                                            Real end[2][2]) {
     // The divisions are theoretically numbers in [0,1].  Numerical rounding
     // errors might cause the result to be outside the interval.  When this
-    // happens, it must be that both numerator and denominator are nearly
-    // zero.  The denominator is nearly zero when the segments are nearly
-    // perpendicular.  The numerator is nearly zero when the P-segment is
-    // nearly degenerate (mF00 = a is small).  The choice of 0.5 should not
-    // cause significant accuracy problems.
+    // happens, either both numerator and denominator are nearly zero and any
+    // choice is accurate, or the line dR/ds = 0 passes (nearly) through a
+    // corner of [0,1]^2 and only the clamped value is close to the true one.
     //
     // NOTE:  You can use bisection to recompute the root or even use
     // bisection to compute the root and skip the division.  This is generally
@@ -358,9 +356,7 @@ inline void DCPQuery<N, Real, Vector>::ComputeIntersection(Real const sValue[2],
         edge[0] = 0;
         end[0][0] = (Real)0;
         end[0][1] = mF00 / mB;
-        if (end[0][1] < (Real)0 || end[0][1] > (Real)1) {
-            end[0][1] = (Real)0.5;
-        }
+        end[0][1] = std::min(std::max(end[0][1], (Real)0), (Real)1);
 
         if (classify[1] == 0) {
             edge[1] = 3;
@@ -371,9 +367,7 @@ inline void DCPQuery<N, Real, Vector>::ComputeIntersection(Real const sValue[2],
             edge[1] = 1;
             end[1][0] = (Real)1;
             end[1][1] = mF10 / mB;
-            if (end[1][1] < (Real)0 || end[1][1] > (Real)1) {
-                end[1][1] = (Real)0.5;
-            }
+            end[1][1] = std::min(std::max(end[1][1], (Real)0), (Real)1);
         }
     } else if (classify[0] == 0) {
         edge[0] = 2;
@@ -384,9 +378,7 @@ inline void DCPQuery<N, Real, Vector>::ComputeIntersection(Real const sValue[2],
             edge[1] = 0;
             end[1][0] = (Real)0;
             end[1][1] = mF00 / mB;
-            if (end[1][1] < (Real)0 || end[1][1] > (Real)1) {
-                end[1][1] = (Real)0.5;
-            }
+            end[1][1] = std::min(std::max(end[1][1], (Real)0), (Real)1);
         } else if (classify[1] == 0) {
             edge[1] = 3;
             end[1][0] = sValue[1];
@@ -395,18 +387,14 @@ inline void DCPQuery<N, Real, Vector>::ComputeIntersection(Real const sValue[2],
             edge[1] = 1;
             end[1][0] = (Real)1;
             end[1][1] = mF10 / mB;
-            if (end[1][1] < (Real)0 || end[1][1] > (Real)1) {
-                end[1][1] = (Real)0.5;
-            }
+            end[1][1] = std::min(std::max(end[1][1], (Real)0), (Real)1);
         }
     } else // classify[0] > 0
     {
         edge[0] = 1;
         end[0][0] = (Real)1;
         end[0][1] = mF10 / mB;
-        if (end[0][1] < (Real)0 || end[0][1] > (Real)1) {
-            end[0][1] = (Real)0.5;
-        }
+        end[0][1] = std::min(std::max(end[0][1], (Real)0), (Real)1);
 
         if (classify[1] == 0) {
             edge[1] = 3;
@@ -416,9 +404,7 @@ inline void DCPQuery<N, Real, Vector>::ComputeIntersection(Real const sValue[2],
             edge[1] = 0;
             end[1][0] = (Real)0;
             end[1][1] = mF00 / mB;
-            if (end[1][1] < (Real)0 || end[1][1] > (Real)1) {
-                end[1][1] = (Real)0.5;
-            }
+            end[1][1] = std::min(std::max(end[1][1], (Real)0), (Real)1);
         }
     }
 }
@@ -428,10 +414,22 @@ inline void DCPQuery<N, Real, Vector>::ComputeMinimumParameters(int const edge[2
                                                                 Real parameter[2]) {
     constexpr Real eps = std::numeric_limits<Real>::epsilon();
     Real delta = end[1][1] - end[0][1];
-    Real h0 = delta * ((-mB * end[0][0] - mE) + mC * end[0][1]); // source of rounding error
-    Real h1 = delta * ((-mB * end[1][0] - mE) + mC * end[1][1]);
-
-    if (std::abs(h0) < std::abs(mC) * eps && std::abs(h1) < std::abs(mC) * eps) {
+    Real g0 = (-mB * end[0][0] - mE) + mC * end[0][1]; // source of rounding error
+    Real g1 = (-mB * end[1][0] - mE) + mC * end[1][1];
+    Real h0 = delta * g0;
+    Real h1 = delta * g1;
+
+    if (delta == (Real)0) {
+        // The segment of intersection is a corner of the domain, and dR/ds
+        // has one sign everywhere else. The minimum is on the edge s = 0 or 1
+        if (edge[0] == 0 || edge[1] == 0) {
+            parameter[0] = (Real)0;
+            parameter[1] = GetClampedRoot(mC, mG00, mG01);
+        } else {
+            parameter[0] = (Real)1;
+            parameter[1] = GetClampedRoot(mC, mG10, mG11);
+        }
+    } else if (std::abs(g0) < std::abs(mC) * eps && std::abs(g1) < std::abs(mC) * eps) {
         Real z = 0.5;
         Real omz = (Real)1 - z;
         parameter[0] = omz * end[0][0] + z * end[1][0];
-- 
2.43.0


From b261a0fbc0bdb473c9b2ccc6cc397cd66e4d166a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:48 +0000
Subject: [PATCH 02/30] fix: Boundary::project returns NaN or an off-boundary
 point for a query at the sphere center or on the tube axis

---
 Boundary/Boundary.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/Boundary/Boundary.cpp b/Boundary/Boundary.cpp
index 4a6fc87..f800136 100644
--- a/Boundary/Boundary.cpp
+++ b/Boundary/Boundary.cpp
@@ -24,7 +24,9 @@ void SphereShell::initialize(const YAML::Node &config) {
 void SphereShell::project(const double query[3], double project[3], double delta[3]) const {
     Evec3 Query = ECmap3(query) - ECmap3(center); // center to query
     double QueryR = Query.norm();
-    Evec3 Proj = radius * (1 / QueryR) * Query; // radius * norm direction of Query
+    // every direction is equally close when query is the center
+    Evec3 Dir = QueryR > 0 ? Evec3(Query / QueryR) : Evec3(0, 0, 1);
+    Evec3 Proj = radius * Dir; // radius * norm direction of Query
     Evec3 PQ = Query - Proj;
     bool out = QueryR > radius;
     if ((inside && out) || (!inside && !out)) {
@@ -178,7 +180,10 @@ void Tube::project(const double query[3], double project[3], double delta_[3]) c
     double t = (Query - ECmap3(center)).dot(ECmap3(axis));
     Evec3 ProjAxis = ECmap3(center) + t * ECmap3(axis);
     Evec3 ProjAxisQ = Query - ProjAxis;
-    Evec3 Proj = ProjAxis + radius * (ProjAxisQ.normalized());
+    // every radial direction is equally close when query is on the axis, up to rounding error
+    const double round = std::numeric_limits<double>::epsilon() * 16 * (Query.norm() + ECmap3(center).norm());
+    Evec3 Dir = ProjAxisQ.norm() > round ? ProjAxisQ.normalized() : ECmap3(axis).unitOrthogonal();
+    Evec3 Proj = ProjAxis + radius * Dir;
     Evec3 delta = Query - Proj;
     if (ProjAxisQ.norm() > radius) { // Q is outside the tube
         if (inside) {
-- 
2.43.0


From d5a1e519022b7d1a348e6acc3e5bca8958eb14f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:02 +0000
Subject: [PATCH 03/30] fix: findPBCImage returns ub for a point a rounding
 error below lb

---
 Util/GeoUtil.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/Util/GeoUtil.hpp b/Util/GeoUtil.hpp
index 6247f85..c5e16d5 100644
--- a/Util/GeoUtil.hpp
+++ b/Util/GeoUtil.hpp
@@ -32,6 +32,10 @@ inline void findPBCImage(const Real &lb, const Real &ub, Real &x) {
     while (x < lb) {
         x += L;
     }
+    // lb - x smaller than the rounding error of ub
+    if (x >= ub) {
+        x = lb;
+    }
 }
 
 /**
-- 
2.43.0


From 8b359d87e329e1b64ffa16a081de06e3699ea0ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:02 +0000
Subject: [PATCH 04/30] fix: Base64 decoder turns the end mark into a data byte

---
 Util/Base64.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/Util/Base64.hpp b/Util/Base64.hpp
index 6e64599..9d2a9bd 100644
--- a/Util/Base64.hpp
+++ b/Util/Base64.hpp
@@ -91,6 +91,12 @@ class B64Converter {
             return 0;
         }
 
+        /* the end mark carries no data */
+
+        if (src[0] == '=') {
+            return 0;
+        }
+
         /* Decode the 3 bytes */
 
         dest[0] = (unsigned char)(((d0 << 2) & 0xFC) | ((d1 >> 4) & 0x03));
-- 
2.43.0


From 6d92940a7fd139a9926aa116a1746f21b83a74f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:22 +0000
Subject: [PATCH 05/30] fix: getRSearch must cover two collision radii, not two
 collision lengths

Sphere-like particles with an enlarged collision diameter were not found as
neighbours across ranks and periodic images.
---
 Sylinder/SylinderNear.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Sylinder/SylinderNear.hpp b/Sylinder/SylinderNear.hpp
index a8c3959..383cc3d 100644
--- a/Sylinder/SylinderNear.hpp
+++ b/Sylinder/SylinderNear.hpp
@@ -106,7 +106,7 @@ struct SylinderNearEP {
      * @return PS::F64
      */
     PS::F64 getRSearch() const {
-        return std::max(length + 2 * radius, lengthCollision + 2 * lengthCollision) * (1 + colBuf);
+        return std::max(length + 2 * radius, lengthCollision + 2 * radiusCollision) * (1 + colBuf);
     }
 
     /**
-- 
2.43.0


From 68dee951c587666ccf945750971bc656dc99a621 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:46 +0000
Subject: [PATCH 06/30] fix: domain decomposition read outside the sample array
 when ranks outnumber samples

The garbage boundary could lie far outside a periodic box and the search for
periodic images then never ended.
---
 FDPS/domain_info.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/FDPS/domain_info.hpp b/FDPS/domain_info.hpp
index 8092f87..877ce31 100644
--- a/FDPS/domain_info.hpp
+++ b/FDPS/domain_info.hpp
@@ -105,8 +105,10 @@ namespace ParticleSimulator{
 					F64 & xlow,
 					F64 & xhigh) {
             if(istart == 0) xlow  = pos_root_domain_.low_.x;
+	    else if(istart >= np) xlow = pos_root_domain_.high_.x; // no sample on this side of the boundary
 	    else xlow  = 0.5 * (pos_sample[istart-1].x + pos_sample[istart].x);
             if(iend == np - 1) xhigh = pos_root_domain_.high_.x;
+	    else if(iend < 0) xhigh = pos_root_domain_.low_.x; // no sample on this side of the boundary
 	    else xhigh = 0.5 * (pos_sample[iend].x + pos_sample[iend+1].x);
         }
         void calculateBoundaryOfDomainY(const S32 np,
@@ -116,8 +118,10 @@ namespace ParticleSimulator{
 					F64 & xlow,
 					F64 & xhigh) {
             if(istart == 0) xlow  = pos_root_domain_.low_.y;
+	    else if(istart >= np) xlow = pos_root_domain_.high_.y; // no sample on this side of the boundary
 	    else xlow  = 0.5 * (pos_sample[istart-1].y + pos_sample[istart].y);
             if(iend == np - 1) xhigh = pos_root_domain_.high_.y;
+	    else if(iend < 0) xhigh = pos_root_domain_.low_.y; // no sample on this side of the boundary
 	    else xhigh = 0.5 * (pos_sample[iend].y + pos_sample[iend+1].y);
         }
 #ifndef PARTICLE_SIMULATOR_TWO_DIMENSION	
@@ -128,8 +132,10 @@ namespace ParticleSimulator{
 					F64 & xlow,
 					F64 & xhigh) {
             if(istart == 0) xlow  = pos_root_domain_.low_.z;
+	    else if(istart >= np) xlow = pos_root_domain_.high_.z; // no sample on this side of the boundary
 	    else xlow  = 0.5 * (pos_sample[istart-1].z + pos_sample[istart].z);
             if(iend == np - 1) xhigh = pos_root_domain_.high_.z;
+	    else if(iend < 0) xhigh = pos_root_domain_.low_.z; // no sample on this side of the boundary
 	    else xhigh = 0.5 * (pos_sample[iend].z + pos_sample[iend+1].z);
         }	
 #endif
-- 
2.43.0


From 7d0d48509556d6e223951ef392964b6ed781da86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:14 +0000
Subject: [PATCH 07/30] fix: APGD solvers hang when the initial guess equals
 the reference point or the problem is empty

---
 Constraint/BCQPSolver.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/Constraint/BCQPSolver.cpp b/Constraint/BCQPSolver.cpp
index c05f0f7..d4167c8 100644
--- a/Constraint/BCQPSolver.cpp
+++ b/Constraint/BCQPSolver.cpp
@@ -280,7 +280,8 @@ int BCQPSolver::solveAPGD(Teuchos::RCP<TV> &xsolRcp, const double tol, const int
 
     const double tempNorm2 = tempVecRcp->norm2();
     const double xkdiffNorm2 = xkdiffRcp->norm2();
-    double Lk = (tempNorm2 / xkdiffNorm2);
+    // the initial guess may be exactly the reference point, or the problem may be empty
+    double Lk = (tempNorm2 > 0 && xkdiffNorm2 > 0) ? (tempNorm2 / xkdiffNorm2) : 1.0;
     double tk = 1.0 / Lk;
 
     Teuchos::RCP<TV> AxbRcp = Teuchos::rcp(new TV(this->mapRcp.getConst(), false));
-- 
2.43.0


From 7d3a1b94b1d2e4e986b6ce92f1d70f44ac934d2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:31 +0000
Subject: [PATCH 08/30] fix: bound check aborts when a variable sits on a bound
 far from zero

---
 Constraint/BCQPSolver.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/Constraint/BCQPSolver.cpp b/Constraint/BCQPSolver.cpp
index d4167c8..2a163f8 100644
--- a/Constraint/BCQPSolver.cpp
+++ b/Constraint/BCQPSolver.cpp
@@ -475,9 +475,10 @@ double BCQPSolver::checkProjectionResidual(const Teuchos::RCP<const TV> &XRcp, c
 // EQ 2.2 of Dai & Fletcher 2005
 #pragma omp parallel for
     for (int i = 0; i < ibound; i++) {
-        if (xPtr(i, c) < lbPtr(i, c) + eps) {
+        // lb + eps == lb for large |lb|, a value exactly on the bound must be included
+        if (xPtr(i, c) <= lbPtr(i, c) + eps) {
             qPtr(i, c) = std::min(yPtr(i, c), 0.0);
-        } else if (xPtr(i, c) > ubPtr(i, c) - eps) {
+        } else if (xPtr(i, c) >= ubPtr(i, c) - eps) {
             qPtr(i, c) = std::max(yPtr(i, c), 0.0);
         } else if (xPtr(i, c) > lbPtr(i, c) && xPtr(i, c) < ubPtr(i, c)) {
             qPtr(i, c) = yPtr(i, c);
-- 
2.43.0


From d49aab979891859f1b6bd978edd36f4c237bf253 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:06 +0000
Subject: [PATCH 09/30] fix: APGD line search stagnates by rounding errors near
 the solution

---
 Constraint/BCQPSolver.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/Constraint/BCQPSolver.cpp b/Constraint/BCQPSolver.cpp
index 2a163f8..dee6ba7 100644
--- a/Constraint/BCQPSolver.cpp
+++ b/Constraint/BCQPSolver.cpp
@@ -320,7 +320,10 @@ int BCQPSolver::solveAPGD(Teuchos::RCP<TV> &xsolRcp, const double tol, const int
 
             double rightTerm3 = gVecRcp->dot(*xkdiffRcp);              // g.dot(xkdiff)
             double rightTerm4 = 0.5 * Lk * pow(xkdiffRcp->norm2(), 2); // 0.5*Lk*(xkdiff).dot(xkdiff)
-            if ((leftTerm1 + leftTerm2) <= (rightTerm1 + rightTerm2 + rightTerm3 + rightTerm4)) {
+            // near the solution both sides agree up to rounding errors, which must not increase Lk
+            const double roundErr = 10 * std::numeric_limits<double>::epsilon() *
+                                    (fabs(leftTerm1) + fabs(leftTerm2) + fabs(rightTerm1) + fabs(rightTerm2));
+            if ((leftTerm1 + leftTerm2) <= (rightTerm1 + rightTerm2 + rightTerm3 + rightTerm4 + roundErr)) {
                 break;
             }
             // line 10 & 11 of Mazhar, 2015
-- 
2.43.0


From 92d2b8f67116f3987a814a5533cb68c5ebdd07c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:04:37 +0000
Subject: [PATCH 10/30] fix: LCP_APGD hangs on zero or stagnates by rounding
 like solveAPGD did

---
 Collision/CPSolver.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/Collision/CPSolver.cpp b/Collision/CPSolver.cpp
index d76ab13..ec7ba06 100644
--- a/Collision/CPSolver.cpp
+++ b/Collision/CPSolver.cpp
@@ -437,7 +437,8 @@ int CPSolver::LCP_APGD(Teuchos::RCP<TV> &xsolRcp, const double tol, const int it
 
     const double tempNorm2 = tempVecRcp->norm2();
     const double xkdiffNorm2 = xkdiffRcp->norm2();
-    double Lk = (tempNorm2 / xkdiffNorm2);
+    // the initial guess may be exactly the reference point, or the problem may be empty
+    double Lk = (tempNorm2 > 0 && xkdiffNorm2 > 0) ? (tempNorm2 / xkdiffNorm2) : 1.0;
     double tk = 1.0 / Lk;
 
     Teuchos::RCP<TV> AxbRcp = Teuchos::rcp(new TV(this->mapRcp.getConst(), false));
@@ -475,7 +476,10 @@ int CPSolver::LCP_APGD(Teuchos::RCP<TV> &xsolRcp, const double tol, const int it
 
             double rightTerm3 = gVecRcp->dot(*xkdiffRcp);              // g.dot(xkdiff)
             double rightTerm4 = 0.5 * Lk * pow(xkdiffRcp->norm2(), 2); // 0.5*Lk*(xkdiff).dot(xkdiff)
-            if ((leftTerm1 + leftTerm2) <= (rightTerm1 + rightTerm2 + rightTerm3 + rightTerm4)) {
+            // near the solution both sides agree up to rounding errors, which must not increase Lk
+            const double roundErr = 10 * std::numeric_limits<double>::epsilon() *
+                                    (fabs(leftTerm1) + fabs(leftTerm2) + fabs(rightTerm1) + fabs(rightTerm2));
+            if ((leftTerm1 + leftTerm2) <= (rightTerm1 + rightTerm2 + rightTerm3 + rightTerm4 + roundErr)) {
                 break;
             }
             // line 10 & 11 of Mazhar, 2015
-- 
2.43.0


From de593bc0ee664f75f00e040c8728e42a1e0243cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:05:12 +0000
Subject: [PATCH 11/30] fix: BBPGD returns an older iterate when the iteration
 limit is reached

---
 Collision/CPSolver.cpp    | 4 ++++
 Constraint/BCQPSolver.cpp | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/Collision/CPSolver.cpp b/Collision/CPSolver.cpp
index ec7ba06..3c64f49 100644
--- a/Collision/CPSolver.cpp
+++ b/Collision/CPSolver.cpp
@@ -387,6 +387,10 @@ int CPSolver::LCP_BBPGD(Teuchos::RCP<TV> &xsolRcp, const double tol, const int i
 
         alpha = a / b; // new step size
 
+        if (iteCount == iteMax) {
+            break; // return the last iterate xk
+        }
+
         // prepare next iteration
         // swap the contents of pointers directly, be careful
         xkm1Rcp.swap(xkRcp);
diff --git a/Constraint/BCQPSolver.cpp b/Constraint/BCQPSolver.cpp
index dee6ba7..e142bb2 100644
--- a/Constraint/BCQPSolver.cpp
+++ b/Constraint/BCQPSolver.cpp
@@ -232,6 +232,10 @@ int BCQPSolver::solveBBPGD(Teuchos::RCP<TV> &xsolRcp, const double tol, const in
             break;
         }
 
+        if (iteCount == iteMax) {
+            break; // return the last iterate xk
+        }
+
         // prepare next iteration
         // swap the contents of pointers directly, be careful
         xkm1Rcp.swap(xkRcp);
-- 
2.43.0


From 7aaba3766a1e706fc7c7d169872aca8dc8b0d3fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:07:04 +0000
Subject: [PATCH 12/30] fix: BBPGD creeps when the step gets tiny because the
 division guard distorts the step size

---
 Collision/CPSolver.cpp    | 5 +++--
 Constraint/BCQPSolver.cpp | 5 +++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/Collision/CPSolver.cpp b/Collision/CPSolver.cpp
index 3c64f49..71acb8c 100644
--- a/Collision/CPSolver.cpp
+++ b/Collision/CPSolver.cpp
@@ -381,8 +381,9 @@ int CPSolver::LCP_BBPGD(Teuchos::RCP<TV> &xsolRcp, const double tol, const int i
         // a = xkdiffRcp->dot(*gkdiffRcp);
         // b = pow(gkdiffRcp->norm2(),2);
 
-        if (fabs(b) < 10 * std::numeric_limits<double>::epsilon()) {
-            b += 10 * std::numeric_limits<double>::epsilon(); // prevent div 0 error
+        // b is quadratic in the step and gets tiny near the solution
+        if (fabs(b) < std::numeric_limits<double>::min()) {
+            b += std::numeric_limits<double>::min(); // prevent div 0 error
         }
 
         alpha = a / b; // new step size
diff --git a/Constraint/BCQPSolver.cpp b/Constraint/BCQPSolver.cpp
index e142bb2..e323e4d 100644
--- a/Constraint/BCQPSolver.cpp
+++ b/Constraint/BCQPSolver.cpp
@@ -220,8 +220,9 @@ int BCQPSolver::solveBBPGD(Teuchos::RCP<TV> &xsolRcp, const double tol, const in
             b = pow(gkdiffRcp->norm2(), 2);
         }
 
-        if (fabs(b) < 10 * std::numeric_limits<double>::epsilon()) {
-            b += 10 * std::numeric_limits<double>::epsilon(); // prevent div 0 error
+        // b is quadratic in the step and gets tiny near the solution
+        if (fabs(b) < std::numeric_limits<double>::min()) {
+            b += std::numeric_limits<double>::min(); // prevent div 0 error
         }
 
         alpha = a / b; // new step size
-- 
2.43.0


From 30992683714eadf6261d0174b7080a8ef20cc029 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:07:48 +0000
Subject: [PATCH 13/30] fix: LCP_mmNewton reports success after stagnation away
 from a solution

---
 Collision/CPSolver.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/Collision/CPSolver.cpp b/Collision/CPSolver.cpp
index 71acb8c..52b6f4c 100644
--- a/Collision/CPSolver.cpp
+++ b/Collision/CPSolver.cpp
@@ -664,6 +664,7 @@ int CPSolver::LCP_mmNewton(Teuchos::RCP<TV> &xsolRcp, const double tol, const in
     yRcp->update(1.0, *bRcp, 1.0); // y = A.dot(x) + b
     double oldErr;
     double tk = 0;
+    bool stagFlag = false;
     while (iteCount++ < iteMax) {
         // check convergence
         // xkRcp, ykRcp saves last step
@@ -699,6 +700,8 @@ int CPSolver::LCP_mmNewton(Teuchos::RCP<TV> &xsolRcp, const double tol, const in
         //##### Test the stopping criterias used #####
         double rel_err = fabs(err - oldErr) / fabs(oldErr);
         if (rel_err < tol_rel || err < tol_abs) {
+            // stagnation away from a solution is not a success
+            stagFlag = err >= tol_abs && HmmRcp->norm2() >= tol;
             break;
         }
 
@@ -782,7 +785,7 @@ int CPSolver::LCP_mmNewton(Teuchos::RCP<TV> &xsolRcp, const double tol, const in
 
     xsolRcp.swap(xRcp);
 
-    return 0;
+    return stagFlag ? 1 : 0;
 }
 
 int CPSolver::test_LCP(double tol, int maxIte, int solverChoice) {
-- 
2.43.0


From 633924e4cf2eceb0a5d1a6c309bb8b2b2ae488d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:28:38 +0000
Subject: [PATCH 14/30] fix: constraint assembly crashes on ranks that own no
 particle

---
 Constraint/ConstraintCollector.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/Constraint/ConstraintCollector.cpp b/Constraint/ConstraintCollector.cpp
index 47b234b..a5f6c4c 100644
--- a/Constraint/ConstraintCollector.cpp
+++ b/Constraint/ConstraintCollector.cpp
@@ -344,9 +344,11 @@ int ConstraintCollector::buildConstraintMatrixVector(const Teuchos::RCP<const TM
     // step 3 prepare the partitioned column map
     // Each process own some columns. In the map, processes share entries.
     // 3.1 column map has to cover the contiguous range of the mobility map locally owned
-    const int mobMin = mobMapRcp->getMinGlobalIndex();
-    const int mobMax = mobMapRcp->getMaxGlobalIndex();
-    std::vector<int> colMapIndex(mobMax - mobMin + 1);
+    // this rank may own no object at all, then the range is empty
+    const int mobLocalSize = mobMapRcp->getNodeNumElements();
+    const int mobMin = mobLocalSize > 0 ? mobMapRcp->getMinGlobalIndex() : 0;
+    const int mobMax = mobMin + mobLocalSize - 1;
+    std::vector<int> colMapIndex(mobLocalSize);
 #pragma omp parallel for
     for (int i = mobMin; i <= mobMax; i++) {
         colMapIndex[i - mobMin] = i;
-- 
2.43.0


From a0c6e103dac5969b3ba0c1ab2088e75476e9a1ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:31:19 +0000
Subject: [PATCH 15/30] fix: reported constraint force is not that of the
 returned solution

---
 Constraint/ConstraintSolver.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/Constraint/ConstraintSolver.cpp b/Constraint/ConstraintSolver.cpp
index d03baff..bb4f2df 100644
--- a/Constraint/ConstraintSolver.cpp
+++ b/Constraint/ConstraintSolver.cpp
@@ -100,6 +100,9 @@ void ConstraintSolver::solveConstraints() {
     // unilateral second
     Teuchos::RCP<TV> forceRcp = MOpRcp->getForce();
     Teuchos::RCP<TV> velRcp = MOpRcp->getVel();
+    // the operator may have been applied last to a vector other than the solution
+    DMatRcp->apply(*gammaRcp, *forceRcp);
+    mobOpRcp->apply(*forceRcp, *velRcp);
     forceuRcp->update(1.0, *forceRcp, -1.0, *forcebRcp, 0.0); // force_u = force - force_b
     veluRcp->update(1.0, *velRcp, -1.0, *velbRcp, 0.0);       // vel_u = vel - vel_b
 }
-- 
2.43.0


From 14da06a6b2798949b401d95ee78a54eabf629298 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:37:42 +0000
Subject: [PATCH 16/30] fix: boundary collision has a NaN or random normal for
 a particle end exactly on the boundary

---
 Sylinder/SylinderSystem.cpp | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/Sylinder/SylinderSystem.cpp b/Sylinder/SylinderSystem.cpp
index a95ae57..63f3807 100644
--- a/Sylinder/SylinderSystem.cpp
+++ b/Sylinder/SylinderSystem.cpp
@@ -1116,6 +1116,22 @@ void SylinderSystem::collectBoundaryCollision() {
                     // if outside boundary, delta = Proj-Q
                     double deltanorm = Emap3(delta).norm();
                     Evec3 norm = Emap3(delta) * (1 / deltanorm);
+                    if (deltanorm < 1e-9 * radius) {
+                        // Query sits on the boundary, delta is zero or a rounding error.
+                        // take the norm at a nearby point, at least one direction is not tangential
+                        double best = 0;
+                        for (int k = 0; k < 3; k++) {
+                            Evec3 Near = Query;
+                            Near[k] += 1e-6 * radius;
+                            double projNear[3], deltaNear[3];
+                            bPtr->project(Near.data(), projNear, deltaNear);
+                            const double nearnorm = Emap3(deltaNear).norm();
+                            if (nearnorm > best) {
+                                best = nearnorm;
+                                norm = Emap3(deltaNear) * (1 / nearnorm);
+                            }
+                        }
+                    }
                     Evec3 posI = Query - center;
 
                     if ((Query - ECmap3(Proj)).dot(ECmap3(delta)) < 0) { // outside boundary
-- 
2.43.0


From 32aa2157e20169e5b780c9191ab3f7cd4374a094 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:37:42 +0000
Subject: [PATCH 17/30] fix: boundary overlaps of sphere-like particles are
 missed because the search ignores their length

---
 Sylinder/SylinderSystem.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Sylinder/SylinderSystem.cpp b/Sylinder/SylinderSystem.cpp
index 63f3807..d419b2e 100644
--- a/Sylinder/SylinderSystem.cpp
+++ b/Sylinder/SylinderSystem.cpp
@@ -1139,7 +1139,7 @@ void SylinderSystem::collectBoundaryCollision() {
                                          norm.data(), norm.data(), posI.data(), posI.data(), Query.data(), Proj, true,
                                          false, 0.0, 0.0);
                     } else if (deltanorm <
-                               (1 + runConfig.sylinderColBuf * 2) * sy.radiusCollision) { // inside boundary but close
+                               (1 + runConfig.sylinderColBuf * 2) * radius) { // inside boundary but close
                         que.emplace_back(deltanorm - radius, 0, sy.gid, sy.gid, sy.globalIndex, sy.globalIndex,
                                          norm.data(), norm.data(), posI.data(), posI.data(), Query.data(), Proj, true,
                                          false, 0.0, 0.0);
-- 
2.43.0


From 905b77bdfeec193161cb4c95c382e2696ac42685 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:13:47 +0000
Subject: [PATCH 18/30] fix: BBPGD step becomes infinite without curvature
 along the step

---
 Collision/CPSolver.cpp    | 10 +++++-----
 Constraint/BCQPSolver.cpp | 10 +++++-----
 2 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/Collision/CPSolver.cpp b/Collision/CPSolver.cpp
index 52b6f4c..2c09074 100644
--- a/Collision/CPSolver.cpp
+++ b/Collision/CPSolver.cpp
@@ -382,11 +382,11 @@ int CPSolver::LCP_BBPGD(Teuchos::RCP<TV> &xsolRcp, const double tol, const int i
         // b = pow(gkdiffRcp->norm2(),2);
 
         // b is quadratic in the step and gets tiny near the solution
-        if (fabs(b) < std::numeric_limits<double>::min()) {
-            b += std::numeric_limits<double>::min(); // prevent div 0 error
-        }
-
-        alpha = a / b; // new step size
+        if (fabs(b) >= std::numeric_limits<double>::min()) {
+            alpha = a / b; // new step size
+        } else if (a == 0) {
+            alpha = 0; // no step
+        } // else no curvature along the step, prevent div 0 error and keep the step size
 
         if (iteCount == iteMax) {
             break; // return the last iterate xk
diff --git a/Constraint/BCQPSolver.cpp b/Constraint/BCQPSolver.cpp
index e323e4d..9fc952b 100644
--- a/Constraint/BCQPSolver.cpp
+++ b/Constraint/BCQPSolver.cpp
@@ -221,11 +221,11 @@ int BCQPSolver::solveBBPGD(Teuchos::RCP<TV> &xsolRcp, const double tol, const in
         }
 
         // b is quadratic in the step and gets tiny near the solution
-        if (fabs(b) < std::numeric_limits<double>::min()) {
-            b += std::numeric_limits<double>::min(); // prevent div 0 error
-        }
-
-        alpha = a / b; // new step size
+        if (fabs(b) >= std::numeric_limits<double>::min()) {
+            alpha = a / b; // new step size
+        } else if (a == 0) {
+            alpha = 0; // no step
+        } // else no curvature along the step, prevent div 0 error and keep the step size
 
         if (alpha < std::numeric_limits<double>::epsilon() * 10) {
             spdlog::critical("BBPGD Stagnate");
-- 
2.43.0


From 098aac7803cd08ae5643c148e90b2477eb031d8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:13:47 +0000
Subject: [PATCH 19/30] fix: overlap of two immovable particles or with a
 boundary makes the constraint problem unsolvable

---
 Sylinder/SylinderNear.hpp   | 6 ++++++
 Sylinder/SylinderSystem.cpp | 2 ++
 2 files changed, 8 insertions(+)

diff --git a/Sylinder/SylinderNear.hpp b/Sylinder/SylinderNear.hpp
index 383cc3d..982a5a7 100644
--- a/Sylinder/SylinderNear.hpp
+++ b/Sylinder/SylinderNear.hpp
@@ -42,6 +42,7 @@ struct SylinderNearEP {
     int gid;                            ///< global unique id
     int globalIndex;                    ///< sequentially ordered unique index in sylinder map
     int rank;                           ///< mpi rank of owning rank
+    bool isImmovable = false;           ///< flag for if Sylinder can move
     double radius;                      ///< radius
     double length;                      ///< length
     double radiusCollision;             ///< collision radius
@@ -75,6 +76,7 @@ struct SylinderNearEP {
         gid = fp.gid;
         globalIndex = fp.globalIndex;
         rank = fp.rank;
+        isImmovable = fp.isImmovable;
         colBuf = fp.colBuf;
 
         radius = fp.radius;
@@ -206,6 +208,8 @@ class CalcSylinderNearForce {
                     auto &syJ = ep_j[j];
                     if (syI.gid >= syJ.gid)
                         continue;
+                    if (syI.isImmovable && syJ.isImmovable)
+                        continue; // no force can separate them
                     ConstraintBlock conBlock;
                     bool collision = false;
                     if (isSphere(syJ)) {
@@ -221,6 +225,8 @@ class CalcSylinderNearForce {
                     auto &syJ = ep_j[j];
                     if (syI.gid >= syJ.gid)
                         continue;
+                    if (syI.isImmovable && syJ.isImmovable)
+                        continue; // no force can separate them
                     ConstraintBlock conBlock;
                     bool collision = false;
                     if (isSphere(syJ)) {
diff --git a/Sylinder/SylinderSystem.cpp b/Sylinder/SylinderSystem.cpp
index d419b2e..37954df 100644
--- a/Sylinder/SylinderSystem.cpp
+++ b/Sylinder/SylinderSystem.cpp
@@ -1103,6 +1103,8 @@ void SylinderSystem::collectBoundaryCollision() {
 #pragma omp for
             for (int i = 0; i < nLocal; i++) {
                 const auto &sy = sylinderContainer[i];
+                if (sy.isImmovable)
+                    continue; // no force can move it away from the boundary
                 const Evec3 center = ECmap3(sy.pos);
 
                 // check one point
-- 
2.43.0


From ca5608a825f0517c72d9af83ae0baeb19b1b0b76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:34:46 +0000
Subject: [PATCH 20/30] fix: snapshot interval is one step too short by
 rounding, and timeSnap < dt divides by zero

---
 Sylinder/SylinderSystem.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/Sylinder/SylinderSystem.cpp b/Sylinder/SylinderSystem.cpp
index 37954df..3911f43 100644
--- a/Sylinder/SylinderSystem.cpp
+++ b/Sylinder/SylinderSystem.cpp
@@ -880,7 +880,9 @@ void SylinderSystem::updateSylinderMap() {
 }
 
 bool SylinderSystem::getIfWriteResultCurrentStep() {
-    return (stepCount % static_cast<int>(runConfig.timeSnap / runConfig.dt) == 0);
+    // timeSnap / dt may be a rounding error below the number of steps between two snapshots
+    const long snapSteps = static_cast<long>((runConfig.timeSnap / runConfig.dt) * (1 + 1e-9));
+    return (stepCount % std::max(snapSteps, 1L) == 0);
 }
 
 void SylinderSystem::prepareStep() {
-- 
2.43.0


From f5f02158e5112c851f0e32690dd7aa6bf2100f00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:34:46 +0000
Subject: [PATCH 21/30] fix: Brownian motion moves particles out of the plane
 in monolayer mode

---
 Sylinder/SylinderSystem.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/Sylinder/SylinderSystem.cpp b/Sylinder/SylinderSystem.cpp
index 3911f43..8ba69ef 100644
--- a/Sylinder/SylinderSystem.cpp
+++ b/Sylinder/SylinderSystem.cpp
@@ -793,6 +793,10 @@ void SylinderSystem::calcVelocityNonCon() {
                 velBPtr(6 * i + 2, 0) = 0; // vz
                 velBPtr(6 * i + 3, 0) = 0; // omegax
                 velBPtr(6 * i + 4, 0) = 0; // omegay
+                auto &sy = sylinderContainer[i];
+                sy.velBrown[2] = 0;
+                sy.omegaBrown[0] = 0;
+                sy.omegaBrown[1] = 0;
             }
         }
         velocityNonConRcp->update(1.0, *velocityBrownRcp, 1.0);
-- 
2.43.0


From 181229442c16bbba89890c1f59b90bf764dfa6ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:34:46 +0000
Subject: [PATCH 22/30] fix: a particle perpendicular to the monolayer is not
 turned into the plane and its quaternion loses its norm

---
 Sylinder/SylinderSystem.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/Sylinder/SylinderSystem.cpp b/Sylinder/SylinderSystem.cpp
index 8ba69ef..23bd0c2 100644
--- a/Sylinder/SylinderSystem.cpp
+++ b/Sylinder/SylinderSystem.cpp
@@ -918,6 +918,9 @@ void SylinderSystem::prepareStep() {
             sy.pos[2] = monoZ;
             Evec3 drt = Emapq(sy.orientation) * Evec3(0, 0, 1);
             drt[2] = 0;
+            if (drt.norm() < 1e-10) { // perpendicular to the plane, no preferred direction in the plane
+                drt = Evec3(1, 0, 0);
+            }
             drt.normalize();
             Emapq(sy.orientation).setFromTwoVectors(Evec3(0, 0, 1), drt);
         }
-- 
2.43.0


From 450babf70198edafff6d439f303979f91d1cfe2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:03:57 +0000
Subject: [PATCH 23/30] fix: upper corner of the bounding box is never below
 zero

---
 Sylinder/SylinderSystem.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Sylinder/SylinderSystem.cpp b/Sylinder/SylinderSystem.cpp
index 23bd0c2..3ebc300 100644
--- a/Sylinder/SylinderSystem.cpp
+++ b/Sylinder/SylinderSystem.cpp
@@ -1205,7 +1205,7 @@ void SylinderSystem::calcBoundingBox(double localLow[3], double localHigh[3], do
     double lx, ly, lz;
     lx = ly = lz = std::numeric_limits<double>::max();
     double hx, hy, hz;
-    hx = hy = hz = std::numeric_limits<double>::min();
+    hx = hy = hz = std::numeric_limits<double>::lowest();
 
     for (int i = 0; i < nLocal; i++) {
         const auto &sy = sylinderContainer[i];
-- 
2.43.0


From ed47c38611d74b2d599b912a5e95b97e3c60044c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:09:50 +0000
Subject: [PATCH 24/30] fix: periodic wrap leaves a particle at the upper face
 a rounding error below the lower one

---
 FDPS/particle_system.hpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/FDPS/particle_system.hpp b/FDPS/particle_system.hpp
index 8c54951..7fa3c1e 100644
--- a/FDPS/particle_system.hpp
+++ b/FDPS/particle_system.hpp
@@ -815,7 +815,8 @@ namespace ParticleSimulator{
                     while(pos_new.x >= pos_root.high_.x){
                         pos_new.x -= len_root.x;
                     }
-                    if(pos_new.x == pos_root.high_.x){
+                    // high - len may be a rounding error below low
+                    if(pos_new.x < pos_root.low_.x || pos_new.x == pos_root.high_.x){
                         pos_new.x = pos_root.low_.x;
                     }
                     while(pos_new.y < pos_root.low_.y){
@@ -824,7 +825,8 @@ namespace ParticleSimulator{
                     while(pos_new.y >= pos_root.high_.y){
                         pos_new.y -= len_root.y;
                     }
-                    if(pos_new.y == pos_root.high_.y){
+                    // high - len may be a rounding error below low
+                    if(pos_new.y < pos_root.low_.y || pos_new.y == pos_root.high_.y){
                         pos_new.y = pos_root.low_.y;
                     }
 #ifndef PARTICLE_SIMULATOR_TWO_DIMENSION
@@ -834,7 +836,8 @@ namespace ParticleSimulator{
                     while(pos_new.z >= pos_root.high_.z){
                         pos_new.z -= len_root.z;
                     }
-                    if(pos_new.z == pos_root.high_.z){
+                    // high - len may be a rounding error below low
+                    if(pos_new.z < pos_root.low_.z || pos_new.z == pos_root.high_.z){
                         pos_new.z = pos_root.low_.z;
                     }
 #endif
-- 
2.43.0


From a9bfda081644c1bb496846a3b5f11625c81177e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:25:41 +0000
Subject: [PATCH 25/30] fix: a link added twice or from several ranks is stored
 and applied several times

---
 Sylinder/SylinderSystem.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/Sylinder/SylinderSystem.cpp b/Sylinder/SylinderSystem.cpp
index 3ebc300..c702b4e 100644
--- a/Sylinder/SylinderSystem.cpp
+++ b/Sylinder/SylinderSystem.cpp
@@ -6,6 +6,7 @@
 #include "Util/IOHelper.hpp"
 #include "Util/Logger.hpp"
 
+#include <algorithm>
 #include <cmath>
 #include <cstdio>
 #include <fstream>
@@ -1389,6 +1390,9 @@ void SylinderSystem::addNewLink(const std::vector<Link> &newLink) {
 
     // put newLinks into the map, same op on all mpi ranks
     for (const auto &ll : newLinkRecv) {
+        const auto range = linkMap.equal_range(ll.prev);
+        if (std::any_of(range.first, range.second, [&](const auto &kv) { return kv.second == ll.next; }))
+            continue; // already known
         linkMap.emplace(ll.prev, ll.next);
         linkReverseMap.emplace(ll.next, ll.prev);
     }
-- 
2.43.0


From 911c46ed26a1ff29ec601547b9bc60458b6eb226 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:33:25 +0000
Subject: [PATCH 26/30] fix: neighbor exchange hangs or crashes when the
 periodic image of a particle on a box face is rounded across the face

---
 FDPS/tree_for_force_impl.hpp   |  6 ++-
 FDPS/tree_for_force_utils.hpp  | 78 +++++++++++++++-------------------
 FDPS/tree_for_force_utils2.hpp |  5 ++-
 3 files changed, 42 insertions(+), 47 deletions(-)

diff --git a/FDPS/tree_for_force_impl.hpp b/FDPS/tree_for_force_impl.hpp
index 785672e..3deac1b 100644
--- a/FDPS/tree_for_force_impl.hpp
+++ b/FDPS/tree_for_force_impl.hpp
@@ -1513,7 +1513,8 @@ namespace ParticleSimulator{
                              n_ep_send_per_image_1st,
                              adr_ep_send_1st, ep_recv_1st,
                              shift_per_image_1st,
-                             n_image_per_proc_1st);
+                             n_image_per_proc_1st,
+                             dinfo.getPosRootDomain());
             ////////////
             // 2nd STEP (send j particles)
             FindExchangeParticleDoubleWalk<TreeCell<Tmomloc>, TreeParticle, Tepj>
@@ -1699,7 +1700,8 @@ namespace ParticleSimulator{
                              n_ep_send_per_image_1st,
                              adr_ep_send_1st, ep_recv_1st,
                              shift_per_image_1st,
-                             n_image_per_proc_1st);
+                             n_image_per_proc_1st,
+                             dinfo.getPosRootDomain());
 
             //std::cerr<<"check d"<<std::endl;
             
diff --git a/FDPS/tree_for_force_utils.hpp b/FDPS/tree_for_force_utils.hpp
index 522024c..b326014 100644
--- a/FDPS/tree_for_force_utils.hpp
+++ b/FDPS/tree_for_force_utils.hpp
@@ -137,53 +137,45 @@ namespace ParticleSimulator{
     }
 
 
+    // lower face of the i-th image of the interval [low, high); face i+1 is the upper one
+    inline F64 CalcFaceOfImageDomain(const F64 low, const F64 high, const S32 i){
+        return i <= 0 ? low + i*(high-low) : high + (i-1)*(high-low);
+    }
+
+    // shift a position of the root domain to the i-th image and keep it there: the rounded sum may lie on the wrong side of a face
+    inline F64 ShiftToImageDomain(const F64 low, const F64 high, const F64 pos, const F64 shift){
+        const S32 i = (S32)std::round(shift / (high-low));
+        if(i == 0 || pos < low || pos >= high) return pos + shift;
+        const F64 lower = CalcFaceOfImageDomain(low, high, i);
+        const F64 upper = CalcFaceOfImageDomain(low, high, i+1);
+        return std::max(lower, std::min(pos + shift, std::nextafter(upper, lower)));
+    }
+
+    inline F64vec ShiftToImageDomain(const F64ort & pos_root_domain, const F64vec & pos, const F64vec & shift){
+        F64vec pos_new = pos;
+        for(S32 k=0; k<DIMENSION; k++){
+            pos_new[k] = ShiftToImageDomain(pos_root_domain.low_[k], pos_root_domain.high_[k], pos[k], shift[k]);
+        }
+        return pos_new;
+    }
+
+    inline S32 CalcIDOfImageDomain(const F64 low, const F64 high, const F64 pos){
+        S32 i = (S32)std::floor((pos - low) / (high - low));
+        while(pos < CalcFaceOfImageDomain(low, high, i)) i--;
+        while(pos >= CalcFaceOfImageDomain(low, high, i+1)) i++;
+        return i;
+    }
+
     inline S32vec CalcIDOfImageDomain(const F64ort & pos_root_domain,
                                       const F64vec & pos_target,
                                       const bool periodic_axis[]){
-        if( pos_root_domain.contained(pos_target) ){
-            return S32vec(0.0);
-        }
-        const F64vec size_root_domain = pos_root_domain.getFullLength();
-#ifdef PARTICLE_SIMULATOR_TWO_DIMENSION
-        for(S32 lev=1;; lev++){
-            S32 lev_x = 0;
-            S32 lev_y = 0;
-            if(periodic_axis[0] == true) lev_x = lev;
-            if(periodic_axis[1] == true) lev_y = lev;
-            for(S32 ix=-lev_x; ix<=lev_x; ix++){
-                for(S32 iy=-lev_y; iy<=lev_y; iy++){
-                    if( (std::abs(ix) !=lev_x || periodic_axis[0] == false) 
-                        && (std::abs(iy) != lev_y  || periodic_axis[1] == false) ) continue;
-                    const F64vec shift_tmp(ix*size_root_domain.x, iy*size_root_domain.y);
-                    if( pos_root_domain.contained(pos_target + shift_tmp) ){
-                        return S32vec(-ix, -iy);
-                    }
-                }
-            }
-        }
-#else
-        for(S32 lev=1;; lev++){
-            S32 lev_x = 0;
-            S32 lev_y = 0;
-            S32 lev_z = 0;
-            if(periodic_axis[0] == true) lev_x = lev;
-            if(periodic_axis[1] == true) lev_y = lev;
-            if(periodic_axis[2] == true) lev_z = lev;
-            for(S32 ix=-lev_x; ix<=lev_x; ix++){
-                for(S32 iy=-lev_y; iy<=lev_y; iy++){
-                    for(S32 iz=-lev_z; iz<=lev_z; iz++){
-                        if( (std::abs(ix) !=lev_x || periodic_axis[0] == false) 
-                            && (std::abs(iy) != lev_y  || periodic_axis[1] == false) 
-                            && (std::abs(iz) != lev_z || periodic_axis[2] == false) ) continue;
-                        const F64vec shift_tmp(ix*size_root_domain.x, iy*size_root_domain.y, iz*size_root_domain.z);
-                        if( pos_root_domain.contained(pos_target + shift_tmp) ){
-                            return S32vec(-ix, -iy, -iz);
-                        }
-                    }
-                }
-            }
-        }
+        S32vec id(0.0);
+        if(periodic_axis[0] == true) id.x = CalcIDOfImageDomain(pos_root_domain.low_.x, pos_root_domain.high_.x, pos_target.x);
+        if(periodic_axis[1] == true) id.y = CalcIDOfImageDomain(pos_root_domain.low_.y, pos_root_domain.high_.y, pos_target.y);
+#ifndef PARTICLE_SIMULATOR_TWO_DIMENSION
+        if(periodic_axis[2] == true) id.z = CalcIDOfImageDomain(pos_root_domain.low_.z, pos_root_domain.high_.z, pos_target.z);
 #endif
+        return id;
     }
 
     template<class Tptcl>
diff --git a/FDPS/tree_for_force_utils2.hpp b/FDPS/tree_for_force_utils2.hpp
index 6093cac..c751d5f 100644
--- a/FDPS/tree_for_force_utils2.hpp
+++ b/FDPS/tree_for_force_utils2.hpp
@@ -609,7 +609,8 @@ namespace ParticleSimulator{
                                  const ReallocatableArray<S32> & adr_ep_send,
                                  ReallocatableArray<Tep> & ep_recv,
                                  const ReallocatableArray<F64vec> & shift_image_domain,
-                                 const ReallocatableArray<S32> & n_image_per_proc){
+                                 const ReallocatableArray<S32> & n_image_per_proc,
+                                 const F64ort & pos_root_domain){
         const S32 n_proc = Comm::getNumberOfProc();
         ReallocatableArray<S32> n_disp_ep_send(n_proc+1, n_proc+1, 1);
         ReallocatableArray<S32> n_disp_ep_recv(n_proc+1, n_proc+1, 1);
@@ -635,7 +636,7 @@ namespace ParticleSimulator{
             for(S32 j=0; j<n_ep; j++){
                 S32 adr = adr_ep_send[n_ep_offset+j];
                 ep_send[n_ep_offset+j] = ep[adr];
-                ep_send[n_ep_offset+j].setPos(ep[adr].getPos() - shift);
+                ep_send[n_ep_offset+j].setPos(ShiftToImageDomain(pos_root_domain, ep[adr].getPos(), -shift));
             }
         }
         ep_recv.resizeNoInitialize( n_disp_ep_recv[n_proc] );
-- 
2.43.0


From d5824f26d14e81201d8fd8410f010b110461e24b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:24:57 +0000
Subject: [PATCH 27/30] fix: record a snapshot for restart only when all ranks
 have written it, and replace the record at once

The restart record was rewritten in place and possibly before other ranks had
written their pieces: a run stopped in between left a torn record or a record
of an incomplete snapshot.
---
 Sylinder/SylinderSystem.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/Sylinder/SylinderSystem.cpp b/Sylinder/SylinderSystem.cpp
index c702b4e..756e9a5 100644
--- a/Sylinder/SylinderSystem.cpp
+++ b/Sylinder/SylinderSystem.cpp
@@ -512,12 +512,15 @@ void SylinderSystem::writeTimeStepInfo(const std::string &baseFolder) {
         std::string name = baseFolder + std::string("../../TimeStepInfo.txt");
         std::string pvtpFileName = std::string("Sylinder_") + std::to_string(snapID) + std::string(".pvtp");
 
-        FILE *restartFile = fopen(name.c_str(), "w");
+        // replace the previous record only by a complete one
+        const std::string tempName = name + ".tmp";
+        FILE *restartFile = fopen(tempName.c_str(), "w");
         fprintf(restartFile, "%u\n", restartRngSeed);
         fprintf(restartFile, "%u\n", stepCount);
         fprintf(restartFile, "%u\n", snapID);
         fprintf(restartFile, "%s\n", pvtpFileName.c_str());
         fclose(restartFile);
+        std::rename(tempName.c_str(), name.c_str());
     }
 }
 
@@ -556,6 +559,7 @@ void SylinderSystem::writeResult() {
     IOHelper::makeSubFolder(baseFolder);
     writeAscii(baseFolder);
     writeVTK(baseFolder);
+    commRcp->barrier(); // all ranks must have written their files before the snapshot is recorded for restart
     writeTimeStepInfo(baseFolder);
     snapID++;
 }
-- 
2.43.0


From 4e5188284c64fbc8434e0c0440c1dda6ebf8a9ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:30:38 +0000
Subject: [PATCH 28/30] fix: restart with another number of ranks than the run
 that wrote the snapshot

The folder of a snapshot depends on the number of ranks, so the restart looked
for the files in a folder that does not exist.  The record now names the folder.
---
 Sylinder/SylinderSystem.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/Sylinder/SylinderSystem.cpp b/Sylinder/SylinderSystem.cpp
index 756e9a5..4c463cc 100644
--- a/Sylinder/SylinderSystem.cpp
+++ b/Sylinder/SylinderSystem.cpp
@@ -147,7 +147,10 @@ void SylinderSystem::reinitialize(const SylinderConfig &runConfig_, const std::s
     pos = asciiFileName.find_last_of('_');
     asciiFileName.replace(pos, 1, std::string("Ascii_")); // replace '_' with 'Ascii_'
 
-    std::string baseFolder = getCurrentResultFolder();
+    // the folder name depends on the number of ranks of the run that wrote it, records without it are from the same number
+    std::string baseFolder;
+    if (!(myfile >> baseFolder))
+        baseFolder = getCurrentResultFolder();
     setInitialFromVTKFile(baseFolder + pvtpFileName);
 
     setLinkMapFromFile(baseFolder + asciiFileName);
@@ -519,6 +522,7 @@ void SylinderSystem::writeTimeStepInfo(const std::string &baseFolder) {
         fprintf(restartFile, "%u\n", stepCount);
         fprintf(restartFile, "%u\n", snapID);
         fprintf(restartFile, "%s\n", pvtpFileName.c_str());
+        fprintf(restartFile, "%s\n", baseFolder.c_str());
         fclose(restartFile);
         std::rename(tempName.c_str(), name.c_str());
     }
-- 
2.43.0


From c48853fd0278fb4cdf1978d39924bc4083c6fbf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:17:19 +0000
Subject: [PATCH 29/30] fix: copy the sorted addresses of the global tree by a
 shared loop

Every thread ran the whole loop and wrote the whole array.
---
 FDPS/tree_for_force_impl.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/FDPS/tree_for_force_impl.hpp b/FDPS/tree_for_force_impl.hpp
index 3deac1b..b4ba774 100644
--- a/FDPS/tree_for_force_impl.hpp
+++ b/FDPS/tree_for_force_impl.hpp
@@ -457,7 +457,7 @@ namespace ParticleSimulator{
 #endif
 
 #ifdef PARTICLE_SIMULATOR_THREAD_PARALLEL
-#pragma omp parallel 
+#pragma omp parallel for
 #endif
             for(S32 i=0; i<n_glb_tot_; i++){
                 adr_org_from_adr_sorted_glb_[i] = tp_glb_[i].adr_ptcl_;
-- 
2.43.0


From 1dc83e7d3eca1f74b9313eb3159f832a81781b3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:17:00 +0000
Subject: [PATCH 30/30] fix: time the force loop of the particle tree per
 thread

The threads of the loop over interaction groups shared the start times and
added to the shared time profile without synchronisation (a data race).
---
 FDPS/tree_for_force_impl_force.hpp | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/FDPS/tree_for_force_impl_force.hpp b/FDPS/tree_for_force_impl_force.hpp
index 869659b..9468d2a 100644
--- a/FDPS/tree_for_force_impl_force.hpp
+++ b/FDPS/tree_for_force_impl_force.hpp
@@ -1308,26 +1308,29 @@ namespace ParticleSimulator{
         S64 nj_tmp = 0;
         S64 n_interaction_ep_ep_tmp = 0;
         for(S32 i=0; i<Comm::getNumberOfThread(); i++) n_cell_open_[i] = 0;
-        F64 offset_walk_tree,offset_dispatch;
+        F64 wtime_walk_tree_tmp = 0.0;
+        F64 wtime_dispatch_tmp = 0.0;
 
         if(n_ipg > 0){
 #ifdef PARTICLE_SIMULATOR_THREAD_PARALLEL
-#pragma omp parallel for schedule(dynamic, 4) reduction(+ : ni_tmp, nj_tmp, n_interaction_ep_ep_tmp)
+#pragma omp parallel for schedule(dynamic, 4) reduction(+ : ni_tmp, nj_tmp, n_interaction_ep_ep_tmp, wtime_walk_tree_tmp, wtime_dispatch_tmp)
 #endif
             for(S32 i=0; i<n_ipg; i++){
-                offset_walk_tree = GetWtime();
+                const F64 offset_walk_tree = GetWtime();
                 const S32 ith = Comm::getThreadNum();
                 epj_for_force_[ith].clearSize();
                 adr_epj_for_force_[ith].clearSize();
                 makeInteractionList(i);
-                time_profile_.calc_force__core__walk_tree += GetWtime() - offset_walk_tree;
+                wtime_walk_tree_tmp += GetWtime() - offset_walk_tree;
                 ni_tmp += ipg_[i].n_ptcl_;
                 nj_tmp += epj_for_force_[Comm::getThreadNum()].size();
                 n_interaction_ep_ep_tmp += ipg_[i].n_ptcl_ * epj_for_force_[Comm::getThreadNum()].size();
-                offset_dispatch = GetWtime();
+                const F64 offset_dispatch = GetWtime();
                 calcForceOnly( pfunc_ep_ep, i, clear);
-                time_profile_.calc_force__core__dispatch += GetWtime() - offset_dispatch;
+                wtime_dispatch_tmp += GetWtime() - offset_dispatch;
             }
+            time_profile_.calc_force__core__walk_tree += wtime_walk_tree_tmp;
+            time_profile_.calc_force__core__dispatch += wtime_dispatch_tmp;
             ni_ave_ = ni_tmp / n_ipg;
             nj_ave_ = nj_tmp / n_ipg;
             n_interaction_ep_ep_ += n_interaction_ep_ep_tmp;
-- 
2.43.0

