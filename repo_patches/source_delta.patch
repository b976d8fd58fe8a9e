From 56dab05b137297aa4369db3e4ab45f0e1c071695 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:33 +0000
Subject: [PATCH 01/20] fix: take eigenvalue indices from the bracketing
 interval

Newton could converge to a neighbouring eigenvalue while the index of the
bracket was reported, and clusters dropped members.
---
 matslise/matslise/matslise.cpp | 58 ++++++++++++++++++++--------------
 1 file changed, 35 insertions(+), 23 deletions(-)

diff --git a/matslise/matslise/matslise.cpp b/matslise/matslise/matslise.cpp
index 770d1b3..cc1cd4b 100644
--- a/matslise/matslise/matslise.cpp
+++ b/matslise/matslise/matslise.cpp
@@ -58,7 +58,7 @@ Matslise<Scalar>::matchingError(const Scalar &E, const Y<Scalar> &left, const Y<
 }
 
 template<typename Scalar>
-pair<int, Scalar>
+Scalar
 newtonIteration(const Matslise<Scalar> *ms, Scalar E, const Y<Scalar> &left, const Y<Scalar> &right, bool use_h) {
     Scalar adjust, error, derror, theta;
     int i = 0;
@@ -72,10 +72,7 @@ newtonIteration(const Matslise<Scalar> *ms, Scalar E, const Y<Scalar> &left, con
         // cerr << "Newton-iteration did not converge for E=" << (double) E << endl;
     }
 
-    int index = (int) round(theta / constants<Scalar>::PI);
-    if (index < 0)
-        index = 0;
-    return make_pair(index, E);
+    return E;
 }
 
 template<typename Scalar>
@@ -115,24 +112,39 @@ computeEigenvaluesHelper(const Matslise<Scalar> *ms, Scalar Emin, Scalar Emax, i
         c = ia + 1 < ib || tb - ta < 1e-5 || depth % 2 == 0
             ? .5 * (a + b)
             : ((tb - ia) * a - (ta - ia) * b) / (tb - ta);
-        if ((tb - ta < 0.01 && depth > 3) || depth > 30) {
-            eigenvalues.push_back(newtonIteration<Scalar>(ms, c, left, right, true));
-        } else {
-            tc = get<2>(ms->matchingError(c, left, right)) / constants<Scalar>::PI;
-            if (isnan(tc)) {
-                // cerr << "Matslise::computeEigenvalues(): some interval converted to NaN" << endl;
-            } else if (ia + 1 < ib) {
-                toCheck.push(make_tuple(a, ta, c, tc, 1 + depth));
-                toCheck.push(make_tuple(c, tc, b, tb, 1 + depth));
-            } else {
-                if (abs(tc - ia) < 1e-8)
-                    eigenvalues.push_back(newtonIteration<Scalar>(ms, c, left, right, true));
-                else if ((ta - ia) * (tc - ia) < 0)
-                    toCheck.push(make_tuple(a, ta, c, tc, depth + 1));
-                else
-                    toCheck.push(make_tuple(c, tc, b, tb, depth + 1));
-            }
+        if (!(a < c && c < b))
+            c = .5 * (a + b);
+        if (!(a < c && c < b) || depth > 200) {
+            // The interval can't be divided any further: all these eigenvalues coincide.
+            for (int i = max(ia, Imin); !isnan(ta) && !isnan(tb) && i < min(ib, Imax); ++i)
+                eigenvalues.push_back(make_pair(i, c));
+            continue;
         }
+
+        // An interval with a single eigenvalue contains the eigenvalue with index ia. When the
+        // iteration leaves the interval (towards another eigenvalue), bisection goes on.
+        auto refine = [&]() {
+            Scalar E = newtonIteration<Scalar>(ms, c, left, right, true);
+            if (!(a - ms->tolerance <= E && E <= b + ms->tolerance))
+                return false;
+            eigenvalues.push_back(make_pair(ia, E));
+            return true;
+        };
+        bool isolated = ia + 1 == ib;
+        if (isolated && ((tb - ta < 0.01 && depth > 3) || depth > 30) && refine())
+            continue;
+
+        tc = get<2>(ms->matchingError(c, left, right)) / constants<Scalar>::PI;
+        if (isnan(tc)) {
+            // cerr << "Matslise::computeEigenvalues(): some interval converted to NaN" << endl;
+            continue;
+        }
+        if (isolated && abs(tc - ia) < 1e-8 && refine())
+            continue;
+        if (tc < ta) tc = ta;
+        if (tc > tb) tc = tb;
+        toCheck.push(make_tuple(a, ta, c, tc, depth + 1));
+        toCheck.push(make_tuple(c, tc, b, tb, depth + 1));
     }
 
     sort(eigenvalues.begin(), eigenvalues.end());
@@ -186,7 +198,7 @@ template<typename Scalar>
 Scalar
 Matslise<Scalar>::eigenvalueError(const Scalar &E, const Y<Scalar> &left, const Y<Scalar> &right, int) const {
     MATSLISE_SCOPED_TIMER("Matslise::eigenvalueError");
-    return abs(E - newtonIteration<Scalar>(this, E, left, right, false).second);
+    return abs(E - newtonIteration<Scalar>(this, E, left, right, false));
 }
 
 template<typename Scalar>
-- 
2.43.0


From 7860cbf9acd872a102dad60895f7b52f4f588956 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:04 +0000
Subject: [PATCH 02/20] fix: keep the last term of the derivative with respect
 to E

The derivative of the last eta function was dropped, which made the energy
derivative of the transfer matrix up to 10^5 times less accurate than the
requested tolerance.
---
 matslise/matslise/sector.cpp | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/matslise/matslise/sector.cpp b/matslise/matslise/sector.cpp
index b599874..cc0f2eb 100644
--- a/matslise/matslise/sector.cpp
+++ b/matslise/matslise/sector.cpp
@@ -61,7 +61,8 @@ T<Scalar> Matslise<Scalar>::Sector::calculateT(const Scalar &E, const Scalar &de
 
     const Scalar dd = delta * delta;
     const Scalar vsE = vs[0] - E;
-    Array<Scalar, MATSLISE_ETA_delta, 1> eta = calculateEta<Scalar, MATSLISE_ETA_delta>(vsE * dd);
+    // one extra eta: the derivative of eta[i] is eta[i + 1] / 2
+    Array<Scalar, MATSLISE_ETA_delta + 1, 1> eta = calculateEta<Scalar, MATSLISE_ETA_delta + 1>(vsE * dd);
     T<Scalar> t(1);
     t.t << 0, 0, vsE * delta * eta[1], 0;
     t.dt << 0, 0, -delta * eta[1] - vsE * dd * delta * eta[2] / 2, 0;
@@ -69,9 +70,7 @@ T<Scalar> Matslise<Scalar>::Sector::calculateT(const Scalar &E, const Scalar &de
     for (int i = 0; i < MATSLISE_ETA_delta; ++i) {
         Matrix<Scalar, 2, 2> hor = horner<Matrix<Scalar, 2, 2>>(t_coeff.row(i), delta, MATSLISE_HMAX_delta);
         t.t += hor * eta[i];
-
-        if (i + 1 < MATSLISE_ETA_delta)
-            t.dt += hor * (-dd * eta[i + 1] / 2);
+        t.dt += hor * (-dd * eta[i + 1] / 2);
     }
 
     return t;
@@ -81,16 +80,15 @@ template<typename Scalar>
 T<Scalar> Matslise<Scalar>::Sector::calculateT(const Scalar &E, bool use_h) const {
     if (!use_h)
         return calculateT(E, h, false);
-    Array<Scalar, MATSLISE_ETA_h, 1> eta = calculateEta<Scalar, MATSLISE_ETA_h>((vs[0] - E) * h * h);
+    // one extra eta: the derivative of eta[i] is eta[i + 1] / 2
+    Array<Scalar, MATSLISE_ETA_h + 1, 1> eta = calculateEta<Scalar, MATSLISE_ETA_h + 1>((vs[0] - E) * h * h);
     T<Scalar> t(1);
     t.t << 0, 0, (vs[0] - E) * h * eta[1], 0;
     t.dt << 0, 0, -h * eta[1] + -(vs[0] - E) * h * h * h * eta[2] / 2, 0;
 
     for (int i = 0; i < MATSLISE_ETA_h; ++i) {
         t.t += t_coeff_h[i] * eta[i];
-
-        if (i + 1 < MATSLISE_ETA_h)
-            t.dt += t_coeff_h[i] * (-h * h * eta[i + 1] / 2);
+        t.dt += t_coeff_h[i] * (-h * h * eta[i + 1] / 2);
     }
 
     return t;
-- 
2.43.0


From 9bfa358b9427c5efe4ce55836eeffd52bb8c6cab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:14 +0000
Subject: [PATCH 03/20] fix: derive the zeros in a sector from the signs of the
 solution

The Prufer angle may decrease where the potential exceeds the energy; adding
PI whenever it did counted zeros that do not exist. A solution that did not
move did the same in a sector above the energy.
---
 matslise/matslise/sector.cpp | 39 +++++++++++-------------------------
 1 file changed, 12 insertions(+), 27 deletions(-)

diff --git a/matslise/matslise/sector.cpp b/matslise/matslise/sector.cpp
index cc0f2eb..3307b06 100644
--- a/matslise/matslise/sector.cpp
+++ b/matslise/matslise/sector.cpp
@@ -14,11 +14,6 @@ using namespace matslise;
 using namespace Eigen;
 
 
-template<typename Scalar>
-int sign(const Scalar &s) {
-    return s > 0 ? 1 : s < 0 ? -1 : 0;
-}
-
 template<typename Scalar>
 Matslise<Scalar>::Sector::Sector(const Matslise<Scalar> *s, const Scalar &min, const Scalar &max, Direction direction)
         : min(min), max(max), direction(direction) {
@@ -117,37 +112,27 @@ template<typename Scalar, typename Y0, typename Y1>
 Scalar pruferHelper(const typename Matslise<Scalar>::Sector &sector, const Scalar &E, const Scalar &delta,
                     const Y0 &y0, const Y1 &y1) {
     Scalar scaling = E - sector.v0Match > 1 ? sqrt(E - sector.v0Match) : 1;
+    // The number of zeros passed is odd if and only if the sign (just behind both points) changes.
+    int odd = (y0[0] != 0 ? y0[0] > 0 : y0[1] > 0) != (y1[0] != 0 ? y1[0] > 0 : y1[1] > 0) ? 1 : 0;
     if (E > sector.vs[0]) {
         // page 56 (PhD Ledoux)
         Scalar omega = sqrt(E - sector.vs[0]);
         Scalar theta0 = atan_safe(y0[0] * omega, y0[1]);
-        Scalar phi_star = atan_safe(y1[0] * omega, y1[1]);
-        Scalar phi_bar = omega * delta + theta0;
-        phi_bar -= floor(phi_bar / constants<Scalar>::PI) * constants<Scalar>::PI;
-        Scalar theta1 = phi_star - phi_bar;
-        if (theta1 < -constants<Scalar>::PI / 2)
-            theta1 += constants<Scalar>::PI;
-        else if (theta1 > constants<Scalar>::PI / 2)
-            theta1 -= constants<Scalar>::PI;
-        theta1 += theta0 + omega * delta;
-
-        if (theta1 < theta0) {
-            // theta has to be increasing
-            theta1 += constants<Scalar>::PI;
-        }
+        Scalar theta1 = atan_safe(y1[0] * omega, y1[1]);
+        int shift = (theta1 < 0 ? 1 : 0) - (theta0 < 0 ? 1 : 0);
+        // closest to the angle for a constant potential; theta can decrease, but not through a multiple of PI
+        Scalar zeros = (omega * delta + theta0 - theta1) / constants<Scalar>::PI - shift;
+        zeros = 2 * floor((zeros - odd) / 2 + Scalar(.5)) + odd;
+        if (zeros < odd)
+            zeros = odd;
+        theta1 += (zeros + shift) * constants<Scalar>::PI;
 
         return rescale(theta1, scaling / omega) - rescale(theta0, scaling / omega);
     } else {
         Scalar theta0 = atan_safe(scaling * y0[0], y0[1]);
         Scalar theta1 = atan_safe(scaling * y1[0], y1[1]);
-        if (y0[0] * y1[0] >= 0) {
-            int signTheta0 = theta0 == 0 ? 1 : sign(theta0);
-            int signTheta1 = theta1 == 0 ? -1 : sign(theta1);
-            if (signTheta0 * signTheta1 < 0)
-                theta1 += signTheta0 * constants<Scalar>::PI;
-        } else if (theta0 * theta1 > 0) {
-            theta1 += constants<Scalar>::PI;
-        }
+        int shift = (theta1 < 0 ? 1 : 0) - (theta0 < 0 ? 1 : 0);
+        theta1 += (odd + shift) * constants<Scalar>::PI;
 
         return theta1 - theta0;
     }
-- 
2.43.0


From 1547dab1e625b22da7ad8807c8dbd51cc963fd40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:40 +0000
Subject: [PATCH 04/20] fix: do not count zeros of cancelled solutions

Where the potential lies far above the energy the value and the derivative
cancel at an eigenvalue; the sign of what remains is no zero.
---
 matslise/matslise/sector.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/matslise/matslise/sector.cpp b/matslise/matslise/sector.cpp
index 3307b06..6ea7add 100644
--- a/matslise/matslise/sector.cpp
+++ b/matslise/matslise/sector.cpp
@@ -132,6 +132,13 @@ Scalar pruferHelper(const typename Matslise<Scalar>::Sector &sector, const Scala
         Scalar theta0 = atan_safe(scaling * y0[0], y0[1]);
         Scalar theta1 = atan_safe(scaling * y1[0], y1[1]);
         int shift = (theta1 < 0 ? 1 : 0) - (theta0 < 0 ? 1 : 0);
+        if ((sector.vs[0] - E) * delta * delta > 100) {
+            // At most one zero. When growing solutions cancel, the sign of the remainder is meaningless.
+            if (y0[0] == 0 || (y1[0] != 0 && (theta0 > 0 || theta1 < 0)))
+                odd = 0;
+            else if (y1[0] == 0)
+                odd = 1;
+        }
         theta1 += (odd + shift) * constants<Scalar>::PI;
 
         return theta1 - theta0;
-- 
2.43.0


From 21165974bbbc741fbef5f33d680216fbc482caf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:13 +0000
Subject: [PATCH 05/20] fix: sign of the derivative on the negative half of a
 half-range eigenfunction

Evaluating an eigenfunction of a half-range problem at a single negative
point mirrored the value but not the derivative: even eigenfunctions have
an odd derivative and vice versa. The array version was right.
---
 matslise/matslise/halfrange.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/matslise/matslise/halfrange.cpp b/matslise/matslise/halfrange.cpp
index 30af658..9c538e3 100644
--- a/matslise/matslise/halfrange.cpp
+++ b/matslise/matslise/halfrange.cpp
@@ -47,8 +47,8 @@ public:
     virtual Array<Scalar, 2, 1> operator()(const Scalar &x) const override {
         Array<Scalar, 2, 1> c = (*eigenfunction)(x < 0 ? -x : x);
         c *= sqrt(Scalar(.5));
-        if (x < 0 && !even)
-            c *= -1;
+        if (x < 0)
+            c[even ? 1 : 0] *= -1;
         return c;
     }
 
-- 
2.43.0


From 0065c6c7a936f8d53113a09308181f74f8b4a2b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:49 +0000
Subject: [PATCH 06/20] fix: complete spectrum of periodic problems

- The smallest eigenvalue was searched between the given energy and the next
  band, also when it is smaller than that energy: an energy in the first band
  was reported as eigenvalue 0.
- The pair of eigenvalues around a gap was located by a sign change of the
  derivative of the matching error on an interval that may contain other
  extrema of that error, resulting in bogus double eigenvalues and missing
  ones. Use the gap (angle) and the bands next to it (discriminant) instead.
- An empty index range returned a double eigenvalue.
---
 matslise/matslise/periodic.cpp | 37 +++++++++++++++++++++++++++++-----
 1 file changed, 32 insertions(+), 5 deletions(-)

diff --git a/matslise/matslise/periodic.cpp b/matslise/matslise/periodic.cpp
index 1cf9387..72b47db 100644
--- a/matslise/matslise/periodic.cpp
+++ b/matslise/matslise/periodic.cpp
@@ -108,6 +108,8 @@ eigenpairsHelper(const PeriodicMatslise<Scalar> *ms, Scalar eMin, Scalar eMax, i
     const Y<Scalar, 1, 2> l = periodicInitialValue<Scalar>();
     const Y<Scalar, 1, 2> r = periodicInitialValue<Scalar>(ms->K);
     typename EigenpairsReturn<Scalar, with_eigenfunctions>::type result;
+    if (iMin >= iMax)
+        return result;
     auto addToResult = [&](int i, Scalar E, bool isDouble) {
         if ((isDouble ? i + 1 < iMin : i < iMin) || i >= iMax || E < eMin || E >= eMax) return;
         if constexpr (with_eigenfunctions) {
@@ -138,11 +140,24 @@ eigenpairsHelper(const PeriodicMatslise<Scalar> *ms, Scalar eMin, Scalar eMax, i
             return ms->matchingError(E).second.minCoeff() - i + 1;
         };
     };
+    auto findMid = [ms](int i) {
+        return [ms, i](Scalar E) {
+            return ms->matchingError(E).second[0] - i;
+        };
+    };
     auto findHigh = [ms](int i) {
         return [ms, i](Scalar E) {
             return ms->matchingError(E).second.maxCoeff() - i - 1;
         };
     };
+    auto fError = [ms](Scalar E) {
+        return calculateMatchingError(ms->matchingError(E).first).first;
+    };
+    // The matching error is 2 D - 4, with D the discriminant. Eigenvalues satisfy D = 2.
+    // D <= -2 in low and high, D >= 2 in mid, and D is zero exactly once in between.
+    auto fDiscriminant = [fError](Scalar E) {
+        return fError(E) + 4;
+    };
 
     Scalar highest = eMax;
     for (Scalar step = 1; findHigh(iMax + 1)(highest) < 0; step *= 2)
@@ -156,13 +171,12 @@ eigenpairsHelper(const PeriodicMatslise<Scalar> *ms, Scalar eMin, Scalar eMax, i
 
     Scalar low = eMin;
     if (i == 0) {
-        for (Scalar step = 1; findHigh(i)(low) > 0; step *= 2)
+        for (Scalar step = 1; findLow(1)(low) > 0; step *= 2)
             low -= step;
+        low = binarySearch<Scalar>(low, highest, findLow(1), eps);
 
         Scalar high = binarySearch<Scalar>(low, highest, findHigh(i), eps);
-        Scalar E = binarySearch(low, high, [ms](Scalar E) {
-            return calculateMatchingError(ms->matchingError(E).first).first;
-        }, eps);
+        Scalar E = binarySearch(low, high, fError, eps);
         addToResult(0, E, false);
         i += 2;
     }
@@ -172,7 +186,20 @@ eigenpairsHelper(const PeriodicMatslise<Scalar> *ms, Scalar eMin, Scalar eMax, i
             low -= step;
         low = binarySearch<Scalar>(low, highest, findLow(i), eps);
         Scalar high = binarySearch<Scalar>(low, highest, findHigh(i), eps);
-        pair<Scalar, Scalar> p = eigenvaluePair(ms, low, high, eps);
+        Scalar mid = binarySearch<Scalar>(low, high, findMid(i), eps);
+        if (fDiscriminant(mid) <= 0) {
+            // mid is only known up to eps, and the band may be smaller
+            Scalar shift = 2 * eps * max(Scalar(1), abs(mid));
+            mid = fError(mid - shift) > fError(mid + shift) ? mid - shift : mid + shift;
+        }
+        pair<Scalar, Scalar> p;
+        if (fError(mid) > 0)
+            p = {binarySearch(low, mid, fError, eps), binarySearch(mid, high, fError, eps)};
+        else if (fDiscriminant(mid) > 0)
+            p = eigenvaluePair(ms, binarySearch(low, mid, fDiscriminant, eps),
+                               binarySearch(mid, high, fDiscriminant, eps), eps);
+        else
+            p = {mid, mid};
         if (p.second - p.first < eps) {
             addToResult(i - 1, (p.first + p.second) / 2, true);
         } else {
-- 
2.43.0


From 75b9fd760f87e0203236cedc87609f8f658a7054 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:52 +0000
Subject: [PATCH 07/20] fix: eigenfunctions of periodic problems

---
 matslise/matslise/periodic.cpp | 51 ++++++++++++++++------------------
 1 file changed, 24 insertions(+), 27 deletions(-)

diff --git a/matslise/matslise/periodic.cpp b/matslise/matslise/periodic.cpp
index 72b47db..2c944df 100644
--- a/matslise/matslise/periodic.cpp
+++ b/matslise/matslise/periodic.cpp
@@ -90,13 +90,22 @@ pair<Scalar, Scalar> eigenvaluePair(const PeriodicMatslise<Scalar> *ms, Scalar E
 
     Scalar midError = fError(mid);
     if (same_sign(minError, midError)) {
-        if (abs(midError) > eps) cout << "PeriodicMatslise::eigenvaluePair wrong result" << endl;
         return {mid, mid};
     } else {
         return {binarySearch(Emin, mid, fError, eps, minError), binarySearch(mid, Emax, fError, eps, midError)};
     }
 }
 
+// The kernel of a (nearly) singular matrix. The eigenvalues of this matrix may both be (nearly) zero.
+template<typename Scalar>
+Matrix<Scalar, 2, 1> kernelVector(const Matrix<Scalar, 2, 2> &m) {
+    Eigen::Index row;
+    m.rowwise().squaredNorm().maxCoeff(&row);
+    Matrix<Scalar, 2, 1> c;
+    c << m(row, 1), -m(row, 0);
+    return c.normalized();
+}
+
 template<typename Scalar, bool with_eigenfunctions>
 struct EigenpairsReturn {
     using type = vector<tuple<int, Scalar, std::conditional_t<with_eigenfunctions, vector<unique_ptr<typename PeriodicMatslise<Scalar>::Eigenfunction>>, int>>>;
@@ -122,11 +131,7 @@ eigenpairsHelper(const PeriodicMatslise<Scalar> *ms, Scalar eMin, Scalar eMax, i
                 eigenfunctions.emplace_back(ms->matslise.eigenfunction(E, l.col(0), r.col(0)));
                 eigenfunctions.emplace_back(ms->matslise.eigenfunction(E, l.col(1), r.col(1)));
             } else {
-                EigenSolver<Matrix<Scalar, 2, 2>> solver(ms->matchingError(E).first.y(), true);
-                Eigen::Index kernelIndex;
-                solver.eigenvalues().array().abs().minCoeff(&kernelIndex);
-
-                Matrix<Scalar, 2, 1> c = solver.eigenvectors().real().col(kernelIndex);
+                Matrix<Scalar, 2, 1> c = kernelVector<Scalar>(ms->matchingError(E).first.y());
                 eigenfunctions.reserve(1);
                 eigenfunctions.emplace_back(ms->matslise.eigenfunction(E, l * c, r * c));
             }
@@ -260,31 +265,23 @@ std::vector<std::tuple<int, Scalar, int>> PeriodicMatslise<Scalar>::eigenvaluesB
 template<typename Scalar>
 vector<unique_ptr<typename PeriodicMatslise<Scalar>::Eigenfunction>>
 PeriodicMatslise<Scalar>::eigenfunction(const Scalar &E) const {
-    Array<Scalar, 2, 1> thetaL, thetaR;
-    Scalar &match = matslise.sectors[matslise.matchIndex]->max;
-    Y<Scalar, 1, 2> l = propagate(E, periodicInitialValue<Scalar>(), matslise.domain.min, match).first;
-    Y<Scalar, 1, 2> r = propagate(E, periodicInitialValue<Scalar>(K), matslise.domain.max, match).first;
-    Matrix<Scalar, 2, 2> err = (l.y() - r.y());
-    cout << err << endl;
+    Y<Scalar, 1, 2> l = periodicInitialValue<Scalar>();
+    Y<Scalar, 1, 2> r = periodicInitialValue<Scalar>(K);
 
-    EigenSolver<Matrix<Scalar, 2, 2>> solver(err, true);
-    Matrix<complex<Scalar>, 2, 1> eigenvalues = solver.eigenvalues();
-    Matrix<complex<Scalar>, 2, 2> eigenvectors = solver.eigenvectors();
+    Y<Scalar, 1, 2> error = matchingError(E).first;
+    Matrix<Scalar, 2, 2> err = error.y();
+    Matrix<Scalar, 2, 2> dErr = error.ydE();
 
     vector<unique_ptr<typename PeriodicMatslise<Scalar>::Eigenfunction>> result;
-    cout << "eigenvalues: " << eigenvalues.transpose() << endl;
-    cout << eigenvectors << endl;
-    cout << endl;
     result.reserve(2);
-    if (norm(eigenvalues[0]) < 1e-4) {
-        Y<Scalar> boundary;
-        boundary.y() = eigenvectors.col(0).real();
-        result.emplace_back(matslise.eigenfunction(E, boundary, boundary));
-    }
-    if (norm(eigenvalues[1]) < 1e-4) {
-        Y<Scalar> boundary;
-        boundary.y() = eigenvectors.col(1).real();
-        result.emplace_back(matslise.eigenfunction(E, boundary, boundary));
+    if (err.norm() < 1e-5 + 1e-7 * max(Scalar(1), abs(E)) * dErr.norm()) {
+        // double eigenvalue
+        result.emplace_back(matslise.eigenfunction(E, l.col(0), r.col(0)));
+        result.emplace_back(matslise.eigenfunction(E, l.col(1), r.col(1)));
+    } else {
+        Matrix<Scalar, 2, 1> c = kernelVector<Scalar>(err);
+        if ((err * c).norm() < 1e-2)
+            result.emplace_back(matslise.eigenfunction(E, l * c, r * c));
     }
 
     return result;
-- 
2.43.0


From c0d0463fbfee84ff5e860e12aedce841424fa181 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:11 +0000
Subject: [PATCH 08/20] fix: derivative in the inverse Liouville transformation
 of solutions

---
 matslise/liouville/liouville.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/matslise/liouville/liouville.cpp b/matslise/liouville/liouville.cpp
index 251ba41..ef50f2f 100644
--- a/matslise/liouville/liouville.cpp
+++ b/matslise/liouville/liouville.cpp
@@ -225,10 +225,10 @@ Y<Scalar> LiouvilleTransformation<Scalar>::y2z(const Scalar &x, const Y<Scalar>
     z.block(None) *= sigma;
     z.block(dE) *= sigma;
 
-    z.block(dX) *= dsigma;
-    z.block(dXdE) *= dsigma;
-    z.block(dX) += sigma * xdr * y.block(None);
-    z.block(dXdE) += sigma * xdr * y.block(dE);
+    z.block(dX) *= sigma * xdr;
+    z.block(dXdE) *= sigma * xdr;
+    z.block(dX) += dsigma * y.block(None);
+    z.block(dXdE) += dsigma * y.block(dE);
 
     return z;
 }
-- 
2.43.0


From b7877b59b0fd9126f330e72709d6b7cf499aa037 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:58 +0000
Subject: [PATCH 09/20] fix: Sturm-Liouville eigenfunctions vanish outside of
 the domain

---
 matslise/liouville/sturm_liouville.cpp | 22 ++++++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/matslise/liouville/sturm_liouville.cpp b/matslise/liouville/sturm_liouville.cpp
index 61e3dcc..864fd28 100644
--- a/matslise/liouville/sturm_liouville.cpp
+++ b/matslise/liouville/sturm_liouville.cpp
@@ -1,3 +1,4 @@
+#include <algorithm>
 #include <vector>
 #include "../liouville.h"
 
@@ -13,6 +14,17 @@ public:
     const LiouvilleTransformation<Scalar> *transformation;
     const unique_ptr<typename AbstractMatslise<Scalar>::Eigenfunction> mEigenfunction;
 
+private:
+    bool inDomain(const Scalar &r) const {
+        return r >= transformation->rDomain().min && r <= transformation->rDomain().max;
+    }
+
+    // Rounding may put the image of an end point just outside of the transformed domain.
+    Scalar r2x(const Scalar &r) const {
+        const matslise::Domain<Scalar> x = transformation->xDomain();
+        return std::min(std::max(transformation->r2x(r), x.min), x.max);
+    }
+
 public:
     SLEigenfunction(const LiouvilleTransformation<Scalar> *transformation_,
                     unique_ptr<typename AbstractMatslise<Scalar>::Eigenfunction> mEigenfunction_)
@@ -20,8 +32,10 @@ public:
     }
 
     Eigen::Array<Scalar, 2, 1> operator()(const Scalar &r) const override {
+        if (!inDomain(r))
+            return Eigen::Array<Scalar, 2, 1>::Zero();
         Y<Scalar> y;
-        Scalar x = transformation->r2x(r);
+        Scalar x = r2x(r);
         y.y() = (*mEigenfunction)(x);
         return transformation->y2z(x, y).y();
     };
@@ -30,12 +44,16 @@ public:
     operator()(const Eigen::Array<Scalar, Eigen::Dynamic, 1> &r) const override {
         Eigen::Array<Scalar, Eigen::Dynamic, 1> x = r.unaryExpr(
                 [&](const Scalar &r_) {
-                    return transformation->r2x(r_);
+                    return inDomain(r_) ? r2x(r_) : transformation->xDomain().min;
                 });
 
         auto z = (*mEigenfunction)(x);
         Y<Scalar> y;
         for (Eigen::Index i = 0; i < r.rows(); ++i) {
+            if (!inDomain(r(i))) {
+                z.row(i).setZero();
+                continue;
+            }
             y.y() = z.row(i);
             z.row(i) = transformation->y2z(x(i), y).y();
         }
-- 
2.43.0


From 4e2b66a097da38a64c8df94da22a7aa5acc22b39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:59 +0000
Subject: [PATCH 10/20] fix: periodic problems reject negative and reversed
 index ranges

---
 matslise/matslise/periodic.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/matslise/matslise/periodic.cpp b/matslise/matslise/periodic.cpp
index 2c944df..0f6f1e5 100644
--- a/matslise/matslise/periodic.cpp
+++ b/matslise/matslise/periodic.cpp
@@ -227,6 +227,10 @@ eigenpairsHelper(const PeriodicMatslise<Scalar> *ms, const Scalar &eMin, const S
 template<typename Scalar, bool with_eigenfunctions>
 typename EigenpairsReturn<Scalar, with_eigenfunctions>::type
 eigenpairsByIndexHelper(const PeriodicMatslise<Scalar> *ms, int iMin, int iMax) {
+    if (iMin < 0)
+        throw runtime_error("PeriodicMatslise::eigenpairsByIndex(): iMin has to be at least 0");
+    if (iMin > iMax)
+        throw runtime_error("PeriodicMatslise::eigenpairsByIndex(): iMax can't be less then iMin");
     Scalar eMin = -1;
     Scalar eMax = 1;
 
-- 
2.43.0


From d492fc7a4fc222e4378e04ce210a67a68a9deda8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:19 +0000
Subject: [PATCH 11/20] fix: declared jumps may be unsorted, repeated or
 outside of the domain

---
 matslise/util/sectorbuilder.cpp | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/matslise/util/sectorbuilder.cpp b/matslise/util/sectorbuilder.cpp
index b4c9ffc..f2b5588 100644
--- a/matslise/util/sectorbuilder.cpp
+++ b/matslise/util/sectorbuilder.cpp
@@ -1,6 +1,7 @@
 #include "../matslise.h"
 #include "./sectorbuilder.h"
 #include <algorithm>
+#include <iterator>
 #include <tuple>
 
 
@@ -146,13 +147,19 @@ AutomaticSectorBuilder<Problem, Scalar>::operator()(const Problem *problem, cons
     Scalar mid = 0.4956864123 * max + 0.5043135877 * min;
     Scalar forwardH = .33 * (max - min);
     Scalar backwardH = forwardH;
-    auto forwardJumpPosition = jumps.begin();
-    auto backwardJumpPosition = jumps.rbegin();
+    // The jumps inside the domain, from left to right
+    std::vector<Scalar> splits;
+    std::copy_if(jumps.begin(), jumps.end(), std::back_inserter(splits),
+                 [&](const Scalar &x) { return min < x && x < max; });
+    std::sort(splits.begin(), splits.end());
+    splits.erase(std::unique(splits.begin(), splits.end()), splits.end());
+    auto forwardJumpPosition = splits.begin();
+    auto backwardJumpPosition = splits.rbegin();
     auto nextForwardJump = [&]() {
-        return forwardJumpPosition == jumps.end() ? max : *forwardJumpPosition;
+        return forwardJumpPosition == splits.end() ? max : *forwardJumpPosition;
     };
     auto nextBackwardJump = [&]() {
-        return backwardJumpPosition == jumps.rend() ? min : *backwardJumpPosition;
+        return backwardJumpPosition == splits.rend() ? min : *backwardJumpPosition;
     };
     forward.emplace_back(
             automaticNextSector(problem, forwardH, min, std::min(mid, nextForwardJump()), tolerance,
-- 
2.43.0


From f9273c7ce30d5a1f3366d7c1d0fe62c46aa26cae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:28 +0000
Subject: [PATCH 12/20] fix: a sector truncated by a jump does not reduce the
 size of the next one

---
 matslise/util/sectorbuilder.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/matslise/util/sectorbuilder.cpp b/matslise/util/sectorbuilder.cpp
index f2b5588..c481244 100644
--- a/matslise/util/sectorbuilder.cpp
+++ b/matslise/util/sectorbuilder.cpp
@@ -67,7 +67,10 @@ typename Problem::Sector *automaticNextSector(
     } else if (direction == backward && xmin < left) {
         xmin = left;
     }
+    const Scalar requestedH = h;
     h = xmax - xmin;
+    // Whether it is the interval, and not the accuracy, that determines the size of this sector
+    const bool truncated = h < requestedH && xmin == left && xmax == right;
     int steps = 0;
     Sector *s = new Sector(ms, xmin, xmax, direction);
     Scalar error = s->error();
@@ -132,6 +135,10 @@ typename Problem::Sector *automaticNextSector(
         }
     }
 
+    // A truncated sector is no reason to make the next one smaller
+    if (truncated && steps == 0 && h < requestedH)
+        h = requestedH;
+
     return s;
 }
 
-- 
2.43.0


From b0586768f75a9becf6270f5312a7c139e366dad4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:50:10 +0000
Subject: [PATCH 13/20] fix: keep the last term of the derivative with respect
 to E of coupled problems

---
 matslise/matscs/sector.cpp | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/matslise/matscs/sector.cpp b/matslise/matscs/sector.cpp
index eaac019..8943de0 100644
--- a/matslise/matscs/sector.cpp
+++ b/matslise/matscs/sector.cpp
@@ -65,7 +65,8 @@ T<Scalar, Dynamic> calculateTFromVEd(const typename Matscs<Scalar>::Sector *sect
     Index n = sector->n;
     MatrixXs zero = MatrixXs::Zero(n, n);
     const Index MATSCS_ETA = use_h ? MATSCS_ETA_h : MATSCS_ETA_delta;
-    Array<Scalar, MATSCS_ETA, Dynamic> eta = calculateEta<Scalar, MATSCS_ETA>(VEd * delta);
+    // one extra eta: the derivative of eta[i] is eta[i + 1] / 2
+    Array<Scalar, MATSCS_ETA + 1, Dynamic> eta = calculateEta<Scalar, MATSCS_ETA + 1>(VEd * delta);
 
     T<Scalar, Dynamic> t(n);
     t.t << zero, zero, diagonalMatrix<Scalar>(eta.row(1).transpose() * VEd), zero;
@@ -79,10 +80,8 @@ T<Scalar, Dynamic> calculateTFromVEd(const typename Matscs<Scalar>::Sector *sect
         }
         const MatrixXs &coeff = use_h ? sector->t_coeff_h[i] : hor;
         t.t += coeff * kroneckerProduct(Matrix<Scalar, 2, 2>::Identity(), diagonalMatrix<Scalar>(eta.row(i)));
-
-        if (i + 1 < MATSCS_ETA)
-            t.dt += coeff * kroneckerProduct(
-                    Matrix<Scalar, 2, 2>::Identity(), diagonalMatrix<Scalar>(eta.row(i + 1) * (-delta * delta / 2.)));
+        t.dt += coeff * kroneckerProduct(
+                Matrix<Scalar, 2, 2>::Identity(), diagonalMatrix<Scalar>(eta.row(i + 1) * (-delta * delta / 2.)));
     }
 
     t.t = kroneckerProduct(Matrix<Scalar, 2, 2>::Identity(), sector->diagonalize) * t.t *
-- 
2.43.0


From 915ce400023e9cb25cbb0fc46af53d9849850b41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:53:29 +0000
Subject: [PATCH 14/20] fix: angle of the solution of coupled problems

---
 matslise/matscs/sector.cpp | 115 ++++++++++++++++++++++++++-----------
 1 file changed, 82 insertions(+), 33 deletions(-)

diff --git a/matslise/matscs/sector.cpp b/matslise/matscs/sector.cpp
index 8943de0..082669f 100644
--- a/matslise/matscs/sector.cpp
+++ b/matslise/matscs/sector.cpp
@@ -1,3 +1,4 @@
+#include <algorithm>
 #include <functional>
 #include "../matscs.h"
 #include "matscs_formulas.h"
@@ -145,16 +146,56 @@ typename Matscs<Scalar>::MatrixXcs Matscs<Scalar>::Sector::theta(const Y<Scalar,
             .transpose();
 }
 
+/**
+ * The angles in (0, 2pi] of the eigenvalues of a unitary matrix. The count is increased with the number of eigenvalues
+ * that are one: the angle of these is small if atStart is true, otherwise these angles are close to 2pi.
+ */
 template<typename Scalar, typename InputMatrix>
-inline Array<Scalar, Dynamic, 1> angle(const InputMatrix &m) {
-    Array<Scalar, Dynamic, 1> angles = m.eigenvalues().array().arg();
+inline Scalar angleSum(const InputMatrix &m, bool atStart, Index &count) {
+    const Scalar PI2 = constants<Scalar>::PI * 2;
+    const Scalar eps = 64 * numeric_limits<Scalar>::epsilon();
+    const Array<Scalar, Dynamic, 1> angles = m.eigenvalues().array().arg();
+    Scalar sum = 0;
+    for (Index i = 0; i < angles.size(); ++i) {
+        bool isOne = abs(angles[i]) < eps;
+        count += isOne;
+        sum += angles[i] + ((isOne ? !atStart : angles[i] <= 0) ? PI2 : Scalar(0));
+    }
+    return sum;
+}
 
+/**
+ * The number of points in the open interval (0, delta) where the solution with y(0) = 0, y'(0) = I is singular.
+ * This is derived from the exact count for the constant part of the potential: each channel of this reference problem
+ * is scaled such that its angle increases uniformly, the angle of the solution stays close to this.
+ */
+template<typename Scalar>
+inline Scalar countDirichlet(const Array<Scalar, Dynamic, 1> &Z, const Scalar &delta,
+                             const Matrix<Scalar, Dynamic, Dynamic> &y, const Matrix<Scalar, Dynamic, Dynamic> &dy) {
     const Scalar PI2 = constants<Scalar>::PI * 2;
-    for (Eigen::Index i = 0; i < angles.size(); ++i) {
-        if (angles[i] <= 0)
-            angles[i] += PI2;
+    const Index n = Z.size();
+    Array<Scalar, Dynamic, 1> scale(n);
+    Scalar reference = 0;
+    for (Index i = 0; i < n; ++i) {
+        const Scalar r = sqrt(abs(Z[i]));
+        const Scalar f = r < 1 ? Scalar(1) : r;
+        scale[i] = sqrt(f / delta);
+        if (Z[i] < 0 && r >= 1)
+            reference += 2 * r;
+        else if (Z[i] < 0)
+            reference += 2 * atan2(sin(r) / r, cos(r));
+        else
+            reference += 2 * atan(r > 0 ? f * tanh(r) / r : f);
     }
-    return angles;
+    typename Matscs<Scalar>::MatrixXcs frame(n, n);
+    frame.real() = scale.inverse().matrix().asDiagonal() * dy;
+    frame.imag() = scale.matrix().asDiagonal() * y;
+    frame = (frame * frame.cwiseAbs().colwise().maxCoeff().cwiseInverse().asDiagonal()).eval();
+    Index ignore = 0;
+    const Scalar betas = angleSum<Scalar>(
+            (frame.conjugate().transpose().partialPivLu().solve(frame.transpose())).transpose(), false, ignore);
+    const Scalar difference = (2 * arg(frame.determinant()) - reference) / PI2;
+    return round((reference - betas) / PI2 + difference - round(difference));
 }
 
 template<typename Scalar>
@@ -162,34 +203,42 @@ pair<Y<Scalar, Dynamic>, Scalar> Matscs<Scalar>::Sector::propagateDelta(
         const Scalar &E, const Y<Scalar, Dynamic> &y0, const Scalar &delta, bool use_h) const {
     Y<Scalar, Dynamic> y1 = propagateDeltaColumn(E, y0, delta, use_h);
 
-    Scalar d = (delta > h ? h : delta < -h ? -h : delta);
-
-    ArrayXs Z = d * d * (vs[0].diagonal().array() - ArrayXs::Constant(n, E));
-
-    Array<Scalar, 2, Dynamic> eta = calculateEta<Scalar, 2>(Z);
-    Scalar argdet = 0;
-    for (int i = 0; i < n; ++i) {
-        if (Z[i] < 0) {
-            Scalar sZ = (d < 0 ? -1 : 1) * sqrt(-Z[i]);
-            argdet += (sZ + atan2(
-                    (d - sZ) * eta(1, i) * eta(0, i),
-                    1 + (d * sZ + Z[i]) * eta(1, i) * eta(1, i)));
-        } else {
-            argdet += atan2(d * eta(1, i), eta(0, i));
-        }
+    Scalar d = abs(delta) > h ? h : abs(delta);
+    if (d <= EPS)
+        return {y1, 0};
+
+    // The solution at the start and at the end of [0, d], in the orientation of this sector
+    const bool atStart = (direction == backward) == (delta < 0);
+    Y<Scalar, Dynamic> start = atStart ? y0 : y1;
+    Y<Scalar, Dynamic> end = atStart ? y1 : y0;
+    if (direction == backward) {
+        start.reverse();
+        end.reverse();
     }
-    argdet *= 2;
-
-    MatrixXcs thetaZ0 = theta(y0);
-    MatrixXcs thetaZ = theta(y1);
-    ArrayXs betas = angle<Scalar>(thetaZ);
-    const complex<Scalar> i_delta(0, d);
-    ArrayXs alphas = angle<Scalar>(
-            ((eta.row(0) + i_delta * eta.row(1)) / (eta.row(0) - i_delta * eta.row(1))).matrix().asDiagonal() * thetaZ0
-    );
-    argdet += (betas - alphas).sum();
-
-    return {y1, argdet};
+
+    T<Scalar, Dynamic> t = calculateT(E, d, use_h);
+    const Scalar dirichlet = countDirichlet<Scalar>(
+            d * d * (vs[0].diagonal().array() - ArrayXs::Constant(n, E)), d,
+            diagonalize.transpose() * t.getT(0, 1) * diagonalize,
+            diagonalize.transpose() * t.getT(1, 1) * diagonalize);
+
+    // Each negative eigenvalue of y(0)^T B^-1 y(d), with B the Dirichlet solution in d, is one more singular point in (0, d)
+    Index ones = 0;
+    const Scalar alphas = angleSum<Scalar>(theta(start), true, ones);
+    const Scalar betas = angleSum<Scalar>(theta(end), false, ones);
+    MatrixXs form = start.block().transpose() * t.getT(0, 1).partialPivLu().solve(MatrixXs(end.block()));
+    form = (form + form.transpose()).eval() / 2;
+    ArrayXs eigenvalues = SelfAdjointEigenSolver<MatrixXs>(form, EigenvaluesOnly).eigenvalues().array();
+    std::sort(eigenvalues.data(), eigenvalues.data() + n, [](const Scalar &a, const Scalar &b) {
+        return abs(a) > abs(b);
+    });
+    Scalar count = dirichlet;
+    for (Index i = 0; i + ones < n; ++i)
+        if (eigenvalues[i] < 0)
+            count += 1;
+
+    const Scalar argdet = 2 * constants<Scalar>::PI * count + betas - alphas;
+    return {y1, delta < 0 ? -argdet : argdet};
 }
 
 template<typename Scalar>
-- 
2.43.0


From b3182c5f518ca8c4e9b04be0a47bec8c37b74419 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:56:51 +0000
Subject: [PATCH 15/20] fix: propagatePsi of coupled problems against the
 direction of a sector

---
 matslise/matscs/matscs.cpp |  2 ++
 matslise/matscs/sector.cpp | 20 ++++++++++----------
 2 files changed, 12 insertions(+), 10 deletions(-)

diff --git a/matslise/matscs/matscs.cpp b/matslise/matscs/matscs.cpp
index 8dd09f7..b318ba7 100644
--- a/matslise/matscs/matscs.cpp
+++ b/matslise/matscs/matscs.cpp
@@ -56,6 +56,8 @@ Matscs<Scalar>::propagate(const Scalar &E, const Y<Scalar, Dynamic> &_y,
 template<typename Scalar>
 Matrix<Scalar, Dynamic, Dynamic> Matscs<Scalar>::propagatePsi(
         const Scalar &E, const Matrix<Scalar, Dynamic, Dynamic> &_psi, const Scalar &a, const Scalar &b) const {
+    if (!contains(a) || !contains(b))
+        throw runtime_error("Matscs::propagatePsi(): a and b should be in the interval");
     Matrix<Scalar, Dynamic, Dynamic> psi = _psi;
 
     int sectorIndex = find_sector<Matscs<Scalar>>(this, a);
diff --git a/matslise/matscs/sector.cpp b/matslise/matscs/sector.cpp
index 082669f..3fee56b 100644
--- a/matslise/matscs/sector.cpp
+++ b/matslise/matscs/sector.cpp
@@ -305,21 +305,21 @@ propagatePsi_delta(const typename Matscs<Scalar>::Sector *sector, Scalar E, cons
     if (delta > sector->h)
         delta = sector->h;
 
-    // TODO: verify
-    Scalar extra = sector->direction == Direction::forward ? 1 : -1;
-    if (delta > 0) {
-        T<Scalar, Dynamic> T = sector->calculateT(E, delta);
+    if (delta == 0)
+        return psi;
+
+    // psi is the quotient y / y', its sign changes with the orientation of the sector
+    const Scalar extra = sector->direction == Direction::forward ? 1 : -1;
+    T<Scalar, Dynamic> T = sector->calculateT(E, delta);
+    if (forward) {
         return extra * (T.getT(1, 1) + extra * T.getT(1, 0) * psi).transpose()
                 .colPivHouseholderQr()
                 .solve((T.getT(0, 1) + extra * T.getT(0, 0) * psi).transpose())
                 .transpose();
-    } else if (delta < 0) {
-        T<Scalar, Dynamic> T = sector->calculateT(E, -delta);
-        return extra * (T.getT(1, 1) - extra * psi * T.getT(0, 1))
-                .colPivHouseholderQr()
-                .solve((extra * psi * T.getT(0, 0) - T.getT(1, 0)));
     } else {
-        return psi;
+        return extra * (T.getT(0, 0) - extra * psi * T.getT(1, 0))
+                .colPivHouseholderQr()
+                .solve(extra * psi * T.getT(1, 1) - T.getT(0, 1));
     }
 }
 
-- 
2.43.0


From b5b8a7daa96e98a43ab804f31d3485fb6da15bc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:37:02 +0000
Subject: [PATCH 16/20] fix: sum and difference of polynomials

The sum or difference of two polynomials of the same degree called itself forever
and with different degrees it did not compile.
---
 matslise/util/polynomial.h | 14 +-------------
 1 file changed, 1 insertion(+), 13 deletions(-)

diff --git a/matslise/util/polynomial.h b/matslise/util/polynomial.h
index 87389e4..8225ddc 100644
--- a/matslise/util/polynomial.h
+++ b/matslise/util/polynomial.h
@@ -73,24 +73,12 @@ namespace matslise {
 
 #define POLY_SUM_OPERATOR(op) \
         template<int od> \
-        POLY_INPLACE_OPERATOR(op, od, OtherPolynomial<od>, other.coefficients, od <= degree); \
-        template<int od> \
-        POLY_BINARY_OPERATOR(op, OtherPolynomial<od>);
+        POLY_INPLACE_OPERATOR(op, od, OtherPolynomial<od>, other.coefficients, od <= degree);
 
         POLY_SUM_OPERATOR(+)
 
-        template<int od>
-        POLY_BINARY_REV_OPERATOR(+, OtherPolynomial<od>);
-
         POLY_SUM_OPERATOR(-)
 
-
-        template<int od>
-        friend Polynomial<Scalar, degree>
-        operator-(const OtherPolynomial<od> &left, const Polynomial<Scalar, degree> &right) {
-            return -right + left;
-        }
-
         POLY_SCALAR_OPERATOR(+, 0)
 
         POLY_BINARY_REV_OPERATOR(+, Scalar);
-- 
2.43.0


From a26a458e1a69b483d87d2cd7f9f3928a9f103c2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:37:02 +0000
Subject: [PATCH 17/20] fix: unary plus of a polynomial did not compile

---
 matslise/util/polynomial.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/matslise/util/polynomial.h b/matslise/util/polynomial.h
index 8225ddc..8411dc1 100644
--- a/matslise/util/polynomial.h
+++ b/matslise/util/polynomial.h
@@ -100,7 +100,7 @@ namespace matslise {
         }
 
         Polynomial<Scalar, degree> operator+() const {
-            return Polynomial<Scalar, degree>{+coefficients};
+            return *this;
         }
 
         template<int otherDegree>
-- 
2.43.0


From e80078845380d7c8101e5998135b66e3674e8fc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:54:20 +0000
Subject: [PATCH 18/20] fix: Legendre::integrate returned half of the integral

---
 matslise/util/legendre.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/matslise/util/legendre.h b/matslise/util/legendre.h
index 4641810..c9bf8bc 100644
--- a/matslise/util/legendre.h
+++ b/matslise/util/legendre.h
@@ -52,7 +52,7 @@ namespace matslise::legendre {
             for (int j = 1; j < weights<Scalar, k>.rows(); ++j)
                 result += weights<Scalar, k>(i, j) * fs[j];
             if constexpr(scaled)
-                result *= h;
+                result *= 2 * h;
             return result;
         }
 
-- 
2.43.0


From e3b33c8ca7e16585639dccd812d8513238f5a4a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:17:52 +0000
Subject: [PATCH 19/20] fix: piecewise Liouville transformation of large p*w or
 a far away domain

The subdivision compared absolute errors of p*w and r with fixed thresholds: with
p*w of the order of 1e4, or a domain away from zero, rounding errors alone exceeded
them and the domain was split into up to 1e8 pieces per unit.
---
 matslise/liouville/liouville.cpp | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/matslise/liouville/liouville.cpp b/matslise/liouville/liouville.cpp
index ef50f2f..b181d3d 100644
--- a/matslise/liouville/liouville.cpp
+++ b/matslise/liouville/liouville.cpp
@@ -67,8 +67,9 @@ inline Scalar relError(const Scalar &exact, const Scalar &estimate) {
 }
 
 template<typename Scalar, typename F, typename Piece=typename LiouvilleTransformation<Scalar>::Piece>
-inline Scalar pieceError(const F &f, const Piece &full, const Piece &left, const Piece &right) {
-    return relError(f(left) + f(right), f(full));
+inline Scalar pieceError(const F &f, const Piece &full, const Piece &left, const Piece &right,
+                         const Scalar &scale = 1) {
+    return relError<Scalar>((f(left) + f(right)) / scale, f(full) / scale);
 }
 
 template<typename Scalar>
@@ -91,6 +92,10 @@ constructPiecewise(const LiouvilleTransformation<Scalar> &lt) {
         Piece right{lt, {rMid, next.r.max}};
         setXMin(right, left.x.max);
 
+        // rounding errors are relative to the size of r and p*w, not to that of a small piece
+        Scalar rScale = std::max<Scalar>(1, std::max<Scalar>(abs(next.r.min), abs(next.r.max)));
+        Scalar pwScale = std::max<Scalar>(1, std::max<Scalar>(abs(next.pwx(0)), abs(next.pwx(1))));
+
         if ((next.x.max - next.x.min) < 1e-8 || (
                 relError(right.x.max, next.x.max) < 1e-14
                 && pieceError<Scalar>([](const Piece &p) {
@@ -99,13 +104,13 @@ constructPiecewise(const LiouvilleTransformation<Scalar> &lt) {
                 && pieceError<Scalar>([](const Piece &p) {
                     return Legendre<Scalar, 12>([&p](Scalar x) { return p.x2r(x); }, 0, 1).integrate() *
                            (p.x.max - p.x.min);
-                }, next, left, right) < 1e-14
+                }, next, left, right, rScale) < 1e-14
                 && pieceError<Scalar>([](const Piece &p) {
                     return p.pwx.integral(1) * (p.x.max - p.x.min);
-                }, next, left, right) < 1e-14
+                }, next, left, right, pwScale) < 1e-14
                 && pieceError<Scalar>([](const Piece &p) {
                     return p.pwx(1) - p.pwx(0);
-                }, next, left, right) < 1e-12
+                }, next, left, right, pwScale) < 1e-12
         )) {
             toDo.pop_back();
             pieces.push_back(left);
-- 
2.43.0


From 6f7bcdc50af2e87daef2889363183287c2634456 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:17:28 +0000
Subject: [PATCH 20/20] fix: points within 1e-12 of a sector boundary were
 moved onto it in every precision

---
 matslise/matslise/sector.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/matslise/matslise/sector.cpp b/matslise/matslise/sector.cpp
index 6ea7add..7d134f1 100644
--- a/matslise/matslise/sector.cpp
+++ b/matslise/matslise/sector.cpp
@@ -7,7 +7,8 @@
 #include "../util/theta.h"
 #include "../util/constants.h"
 
-#define EPS (1.e-12)
+// 1e-12 in double precision
+#define EPS (4504 * numeric_limits<Scalar>::epsilon())
 
 using namespace std;
 using namespace matslise;
-- 
2.43.0

