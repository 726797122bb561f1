From 466a12c9e703a737c17cb7a5376f02403503491a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:22:23 +0000
Subject: [PATCH 01/16] fix: submerged ratio of a segment whose first node lies
 exactly on the free surface

When the first node was at the surface and the second one above it, the second
node was taken as the lower end and the segment was reported as (almost) fully
submerged instead of (almost) dry.
---
 source/Line.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/Line.cpp b/source/Line.cpp
index 75b9f3a..22169ec 100644
--- a/source/Line.cpp
+++ b/source/Line.cpp
@@ -625,8 +625,8 @@ Line::calcSubSeg(unsigned int firstNodeIdx,
 		return 0.5; // Segment halfway submerged
 	} else {
 		// Segment partially submerged - figure out which node is above water
-		vec lowerEnd = firstNodeZ < 0.0 ? r[firstNodeIdx] : r[secondNodeIdx];
-		vec upperEnd = firstNodeZ < 0.0 ? r[secondNodeIdx] : r[firstNodeIdx];
+		vec lowerEnd = firstNodeZ < secondNodeZ ? r[firstNodeIdx] : r[secondNodeIdx];
+		vec upperEnd = firstNodeZ < secondNodeZ ? r[secondNodeIdx] : r[firstNodeIdx];
 		lowerEnd.z() -= surface_height;
 		upperEnd.z() -= surface_height;
 
-- 
2.43.0


From f712dbddd590808aad7a507ed7b0a778ff028d5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:05:35 +0000
Subject: [PATCH 02/16] fix: wet fraction of the nodes of an upside-down rod
 piercing the surface

---
 source/Rod.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/source/Rod.cpp b/source/Rod.cpp
index d111f62..6e27c61 100644
--- a/source/Rod.cpp
+++ b/source/Rod.cpp
@@ -959,10 +959,10 @@ Rod::doRHS()
 		// get scalar for submerged portion
 
 		if (h0 < 0.0) { // Upside down case
-			if (Lsum + dL >= h0) // if fully submerged
+			if (Lsum >= -h0) // if fully submerged
 				VOF0 = 1.0;
-			else if (Lsum > h0) // if partially below waterline
-				VOF0 = (h0 - Lsum) / dL;
+			else if (Lsum + dL > -h0) // if partially below waterline
+				VOF0 = (Lsum + dL + h0) / dL;
 			else // must be out of water
 				VOF0 = 0.0;
 		}
-- 
2.43.0


From 10bcfa1646888740090a42bd5bf6adb7b8f2a399 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:10:03 +0000
Subject: [PATCH 03/16] fix: subtraction of rod and body states added them

---
 source/State.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/State.cpp b/source/State.cpp
index ea42afb..8d4f209 100644
--- a/source/State.cpp
+++ b/source/State.cpp
@@ -115,8 +115,8 @@ StateVar<XYZQuat, vec6>
 StateVar<XYZQuat, vec6>::operator-(const StateVar<XYZQuat, vec6>& rhs)
 {
 	StateVar<XYZQuat, vec6> out;
-	out.pos = pos + rhs.pos;
-	out.vel = vel + rhs.vel;
+	out.pos = pos - rhs.pos;
+	out.vel = vel - rhs.vel;
 	return out;
 }
 
-- 
2.43.0


From b4c923951e7f4a1db5c2f96eff3a73da991fb327 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:11:35 +0000
Subject: [PATCH 04/16] fix: Wilson velocity advances over tau, as documented,
 not over the enlarged step

---
 source/State.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/source/State.cpp b/source/State.cpp
index 8d4f209..5750e3c 100644
--- a/source/State.cpp
+++ b/source/State.cpp
@@ -507,7 +507,7 @@ StateVarDeriv<vec>::Wilson(
 	StateVarDeriv<vec> ret;
 	const real f = tau / dt;
 	ret.acc = (1 - 0.5 * f) * acc + 0.5 * f * visitor.acc;
-	ret.vel = vel + 0.5 * dt * (
+	ret.vel = vel + 0.5 * tau * (
 		(1 - 1.0 / 3.0 * f) * acc + 1.0 / 3.0 * f * visitor.acc);
 	return ret;
 }
@@ -520,7 +520,7 @@ StateVarDeriv<vec6>::Wilson(
 	StateVarDeriv<vec6> ret;
 	const real f = tau / dt;
 	ret.acc = (1 - 0.5 * f) * acc + 0.5 * f * visitor.acc;
-	ret.vel = vel + 0.5 * dt * (
+	ret.vel = vel + 0.5 * tau * (
 		(1 - 1.0 / 3.0 * f) * acc + 1.0 / 3.0 * f * visitor.acc);
 	return ret;
 }
@@ -535,7 +535,7 @@ StateVarDeriv<XYZQuat, vec6>::Wilson(
 	StateVarDeriv<XYZQuat, vec6> ret;
 	const real f = tau / dt;
 	ret.acc = (1 - 0.5 * f) * acc + 0.5 * f * visitor.acc;
-	ret.vel = vel + XYZQuat::fromVec6(0.5 * dt * (
+	ret.vel = vel + XYZQuat::fromVec6(0.5 * tau * (
 		(1 - 1.0 / 3.0 * f) * acc + 1.0 / 3.0 * f * visitor.acc));
 	return ret;
 }
@@ -555,7 +555,7 @@ StateVarDeriv<std::vector<vec>>::Wilson(
 	const real f3 = 1.0 / 3.0 * f;
 	for (unsigned int i = 0; i < vel.size(); i++) {
 		ret.acc.push_back((1 - f2) * acc[i] + f2 * visitor.acc[i]);
-		ret.vel.push_back(vel[i] + 0.5 * dt * (
+		ret.vel.push_back(vel[i] + 0.5 * tau * (
 			(1 - f3) * acc[i] + f3 * visitor.acc[i]));
 	}
 	return ret;
-- 
2.43.0


From 6253207847306fbac4ec57e1ce9b90e6f96fe33a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:11:35 +0000
Subject: [PATCH 05/16] fix: Wilson scheme advanced the time by (2 theta - 1)
 dt instead of dt

---
 source/Time.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/Time.cpp b/source/Time.cpp
index bf0ef08..eb66311 100644
--- a/source/Time.cpp
+++ b/source/Time.cpp
@@ -794,7 +794,7 @@ ImplicitWilsonScheme::Step(real& dt)
 	}
 
 	// Apply
-	t -= (1.f - _theta) * dt;
+	t += (1.0 - _theta) * dt;
 	r[1] = r[0] + rd[0].Wilson(rd[1], dt, tdt) * dt;
 	r[0] = r[1];
 	rd[0] = rd[1];
-- 
2.43.0


From a7993cf2e0fbfeea297ddcef8de754dbd40747aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:16:13 +0000
Subject: [PATCH 06/16] fix: removing an object from a time scheme erased the
 state of another one

---
 source/Time.hpp | 32 ++++++++++++++++----------------
 1 file changed, 16 insertions(+), 16 deletions(-)

diff --git a/source/Time.hpp b/source/Time.hpp
index 58c5f0c..baa9dfd 100644
--- a/source/Time.hpp
+++ b/source/Time.hpp
@@ -366,10 +366,10 @@ class TimeSchemeBase : public TimeScheme
 		} catch (...) {
 			throw;
 		}
-		for (unsigned int i = 0; i < r.size(); i++)
-			r[i].lines.erase(r[i].lines.begin() + i);
-		for (unsigned int i = 0; i < rd.size(); i++)
-			rd[i].lines.erase(rd[i].lines.begin() + i);
+		for (unsigned int j = 0; j < r.size(); j++)
+			r[j].lines.erase(r[j].lines.begin() + i);
+		for (unsigned int j = 0; j < rd.size(); j++)
+			rd[j].lines.erase(rd[j].lines.begin() + i);
 		_calc_mask.lines.erase(_calc_mask.lines.begin() + i);
 		return i;
 	}
@@ -416,10 +416,10 @@ class TimeSchemeBase : public TimeScheme
 		} catch (...) {
 			throw;
 		}
-		for (unsigned int i = 0; i < r.size(); i++)
-			r[i].points.erase(r[i].points.begin() + i);
-		for (unsigned int i = 0; i < rd.size(); i++)
-			rd[i].points.erase(rd[i].points.begin() + i);
+		for (unsigned int j = 0; j < r.size(); j++)
+			r[j].points.erase(r[j].points.begin() + i);
+		for (unsigned int j = 0; j < rd.size(); j++)
+			rd[j].points.erase(rd[j].points.begin() + i);
 		_calc_mask.points.erase(_calc_mask.points.begin() + i);
 		return i;
 	}
@@ -466,10 +466,10 @@ class TimeSchemeBase : public TimeScheme
 		} catch (...) {
 			throw;
 		}
-		for (unsigned int i = 0; i < r.size(); i++)
-			r[i].rods.erase(r[i].rods.begin() + i);
-		for (unsigned int i = 0; i < rd.size(); i++)
-			rd[i].rods.erase(rd[i].rods.begin() + i);
+		for (unsigned int j = 0; j < r.size(); j++)
+			r[j].rods.erase(r[j].rods.begin() + i);
+		for (unsigned int j = 0; j < rd.size(); j++)
+			rd[j].rods.erase(rd[j].rods.begin() + i);
 		_calc_mask.rods.erase(_calc_mask.rods.begin() + i);
 		return i;
 	}
@@ -516,10 +516,10 @@ class TimeSchemeBase : public TimeScheme
 		} catch (...) {
 			throw;
 		}
-		for (unsigned int i = 0; i < r.size(); i++)
-			r[i].bodies.erase(r[i].bodies.begin() + i);
-		for (unsigned int i = 0; i < rd.size(); i++)
-			rd[i].bodies.erase(rd[i].bodies.begin() + i);
+		for (unsigned int j = 0; j < r.size(); j++)
+			r[j].bodies.erase(r[j].bodies.begin() + i);
+		for (unsigned int j = 0; j < rd.size(); j++)
+			rd[j].bodies.erase(rd[j].bodies.begin() + i);
 		_calc_mask.bodies.erase(_calc_mask.bodies.begin() + i);
 		return i;
 	}
-- 
2.43.0


From 0aa0c370a911724c9df7986610abae220b4756c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:47:15 +0000
Subject: [PATCH 07/16] fix: elasticity of a line with a nonlinear stress curve
 at zero strain was 0/0

---
 source/Line.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/Line.cpp b/source/Line.cpp
index 22169ec..d4c877c 100644
--- a/source/Line.cpp
+++ b/source/Line.cpp
@@ -66,8 +66,8 @@ Line::getNonlinearE(real l_stretched, real l_unstretched) const
 		return E;
 
 	real Xi = l_stretched / l_unstretched - 1.0; // strain rate based on inputs
-	if (Xi < 0.0) {
-		// if negative strain (compression), zero stress
+	if (Xi <= 0.0) {
+		// if negative strain (compression) or no strain at all, zero stress
 		return 0.0;
 	}
 
-- 
2.43.0


From b1881f7412e68b355563b91209a96c7777e29bf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:47:15 +0000
Subject: [PATCH 08/16] fix: bending stiffness of a straight line with a
 nonlinear moment curve was 0/0

---
 source/Line.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/source/Line.cpp b/source/Line.cpp
index d4c877c..3a2c339 100644
--- a/source/Line.cpp
+++ b/source/Line.cpp
@@ -84,6 +84,12 @@ Line::getNonlinearEI(real curv) const
 		return EI;
 
 	real Xi = curv;
+	if (Xi == 0.0) {
+		// no curvature, no moment: the stiffness is the slope of the curve
+		if (bstiffXs.size() < 2)
+			return 0.0;
+		return (bstiffYs[1] - bstiffYs[0]) / (bstiffXs[1] - bstiffXs[0]);
+	}
 	real Yi = interp(bstiffXs, bstiffYs, Xi);
 
 	// calculate equivalent bending stiffness (since that's what MoorDyn works
-- 
2.43.0


From fdb3e1bf294d1aa952e4ab022e8d6077c1cc0cc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:47:15 +0000
Subject: [PATCH 09/16] fix: nonlinear damping was 0/0 at rest and negative in
 compression

---
 source/Line.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/source/Line.cpp b/source/Line.cpp
index 3a2c339..8b3b922 100644
--- a/source/Line.cpp
+++ b/source/Line.cpp
@@ -105,6 +105,10 @@ Line::getNonlinearC(real ld_stretched, real l_unstretched) const
 
 	real Xi = ld_stretched / l_unstretched; // stretching/compressing rate
 	real Yi = 0.0;
+	if (Xi == 0.0) {
+		// neither stretching nor compressing, no damping
+		return 0.0;
+	}
 
 	// find stress based on strain rate
 	if (dampXs[0] < 0) {
@@ -113,13 +117,10 @@ Line::getNonlinearC(real ld_stretched, real l_unstretched) const
 	} else {
 		// if no compressing data given, we'll flip-mirror so stretching and
 		// compressing are same
-		real Xsign = 1.0;
 		if (Xi < 0) {
-			Xsign = -1.0;
 			Xi = -Xi;
 		}
 		Yi = interp(dampXs, dampYs, Xi);
-		Yi *= Xsign;
 	}
 
 	// calculate equivalent damping coefficient (since that's what MoorDyn works
-- 
2.43.0


From 0d937ef5f3e1dc5b445d654015947dc0f23d1d18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:47:15 +0000
Subject: [PATCH 10/16] fix: isConstantEA reported the opposite of its
 documentation

---
 source/Line.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/Line.hpp b/source/Line.hpp
index 608a693..eaca43d 100644
--- a/source/Line.hpp
+++ b/source/Line.hpp
@@ -414,7 +414,7 @@ class Line final : public io::IO, public NatFreqCFL
 	 * @return true if the stiffness of the line is constant, false if a
 	 * non-linear stiffness has been set
 	 */
-	inline bool isConstantEA() const { return nEApoints > 0; }
+	inline bool isConstantEA() const { return nEApoints == 0; }
 
 	/** @brief Get the constant stiffness of the line
 	 *
-- 
2.43.0


From d8c21e6776cf50d12bafb436cceb40108a8d11e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:48:49 +0000
Subject: [PATCH 11/16] fix: 6x6 matrices were copied to and from C arrays
 without their last three rows

---
 source/Misc.hpp | 36 ++++++++++++++++++++++++++++++++++++
 1 file changed, 36 insertions(+)

diff --git a/source/Misc.hpp b/source/Misc.hpp
index c106fb5..663b404 100644
--- a/source/Misc.hpp
+++ b/source/Misc.hpp
@@ -440,6 +440,24 @@ mat62array(const mat6& v, T a[6][6])
 	a[2][3] = (T)v(2, 3);
 	a[2][4] = (T)v(2, 4);
 	a[2][5] = (T)v(2, 5);
+	a[3][0] = (T)v(3, 0);
+	a[3][1] = (T)v(3, 1);
+	a[3][2] = (T)v(3, 2);
+	a[3][3] = (T)v(3, 3);
+	a[3][4] = (T)v(3, 4);
+	a[3][5] = (T)v(3, 5);
+	a[4][0] = (T)v(4, 0);
+	a[4][1] = (T)v(4, 1);
+	a[4][2] = (T)v(4, 2);
+	a[4][3] = (T)v(4, 3);
+	a[4][4] = (T)v(4, 4);
+	a[4][5] = (T)v(4, 5);
+	a[5][0] = (T)v(5, 0);
+	a[5][1] = (T)v(5, 1);
+	a[5][2] = (T)v(5, 2);
+	a[5][3] = (T)v(5, 3);
+	a[5][4] = (T)v(5, 4);
+	a[5][5] = (T)v(5, 5);
 }
 
 /** @brief Convert a C-ish array to a matrix
@@ -468,6 +486,24 @@ array2mat6(const T a[6][6], mat6& v)
 	v(2, 3) = (moordyn::real)a[2][3];
 	v(2, 4) = (moordyn::real)a[2][4];
 	v(2, 5) = (moordyn::real)a[2][5];
+	v(3, 0) = (moordyn::real)a[3][0];
+	v(3, 1) = (moordyn::real)a[3][1];
+	v(3, 2) = (moordyn::real)a[3][2];
+	v(3, 3) = (moordyn::real)a[3][3];
+	v(3, 4) = (moordyn::real)a[3][4];
+	v(3, 5) = (moordyn::real)a[3][5];
+	v(4, 0) = (moordyn::real)a[4][0];
+	v(4, 1) = (moordyn::real)a[4][1];
+	v(4, 2) = (moordyn::real)a[4][2];
+	v(4, 3) = (moordyn::real)a[4][3];
+	v(4, 4) = (moordyn::real)a[4][4];
+	v(4, 5) = (moordyn::real)a[4][5];
+	v(5, 0) = (moordyn::real)a[5][0];
+	v(5, 1) = (moordyn::real)a[5][1];
+	v(5, 2) = (moordyn::real)a[5][2];
+	v(5, 3) = (moordyn::real)a[5][3];
+	v(5, 4) = (moordyn::real)a[5][4];
+	v(5, 5) = (moordyn::real)a[5][5];
 }
 
 /** Slice a C++ vector
-- 
2.43.0


From 8634fc986e0e8ab8883362e16a8b648a3b522a68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:49:19 +0000
Subject: [PATCH 12/16] fix: seabed force of a line node included the bending
 stiffness force

---
 source/Line.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/Line.hpp b/source/Line.hpp
index eaca43d..9b9dfd1 100644
--- a/source/Line.hpp
+++ b/source/Line.hpp
@@ -614,7 +614,7 @@ class Line final : public io::IO, public NatFreqCFL
 			       << ", which only has " << N + 1 << " nodes" << std::endl;
 			throw moordyn::invalid_value_error("Invalid node index");
 		}
-		return B[i] + Bs[i];
+		return B[i];
 	};
 
 	/** @brief Get the line curvature at a node position
-- 
2.43.0


From 8757234a5788e3574e80e87556725639e59f044d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:49:19 +0000
Subject: [PATCH 13/16] fix: maximum tension of a line left out its last node,
 the fairlead

---
 source/Line.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/Line.cpp b/source/Line.cpp
index 8b3b922..a33bf28 100644
--- a/source/Line.cpp
+++ b/source/Line.cpp
@@ -1843,7 +1843,7 @@ MoorDyn_GetLineMaxTen(MoorDynLine l, double* t)
 {
 	CHECK_LINE(l);
 	double t_max = 0.0;
-	for (unsigned int i = 0; i < ((moordyn::Line*)l)->getN(); i++) {
+	for (unsigned int i = 0; i <= ((moordyn::Line*)l)->getN(); i++) {
 		const double t_candidate = ((moordyn::Line*)l)->getNodeTen(i).norm();
 		if (t_candidate > t_max)
 			t_max = t_candidate;
-- 
2.43.0


From 8b2330cecfafa0e78748d3fcf4c46311c2bad1d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:20:04 +0000
Subject: [PATCH 14/16] fix: waves and currents jumped to the first sample over
 the last interval of their time series

---
 source/Util/Interp.hpp | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/source/Util/Interp.hpp b/source/Util/Interp.hpp
index 2df9f92..6cba132 100644
--- a/source/Util/Interp.hpp
+++ b/source/Util/Interp.hpp
@@ -185,7 +185,10 @@ interp3(const std::vector<std::vector<std::vector<T>>>& values,
 {
 	unsigned int i0 = i > 0 ? i - 1 : 0;
 	unsigned int j0 = j > 0 ? j - 1 : 0;
-	unsigned int k0 = k > 0 ? k - 1 : 0;
+	// The last index is the time, which is periodic: 0 is the upper bound of the
+	// interval between the last sample and the first one
+	unsigned int k0 =
+	    k > 0 ? k - 1 : static_cast<unsigned int>(values[i][j].size()) - 1;
 
 	T c000 = values[i0][j0][k0];
 	T c001 = values[i0][j0][k];
@@ -235,7 +238,10 @@ interp4(const std::vector<std::vector<std::vector<std::vector<T>>>>& values,
 	unsigned int i0 = i > 0 ? i - 1 : 0;
 	unsigned int j0 = j > 0 ? j - 1 : 0;
 	unsigned int k0 = k > 0 ? k - 1 : 0;
-	unsigned int w0 = w > 0 ? w - 1 : 0;
+	// The last index is the time, which is periodic: 0 is the upper bound of the
+	// interval between the last sample and the first one
+	unsigned int w0 =
+	    w > 0 ? w - 1 : static_cast<unsigned int>(values[i][j][k].size()) - 1;
 
 	T c000 = values[i0][j0][k0][w0] * (1. - fw) + values[i0][j0][k0][w] * fw;
 	T c001 = values[i0][j0][k][w0] * (1. - fw) + values[i0][j0][k][w] * fw;
@@ -272,7 +278,10 @@ interp4Vec(const std::vector<std::vector<std::vector<std::vector<T>>>>& values,
 	unsigned int i0 = i > 0 ? i - 1 : 0;
 	unsigned int j0 = j > 0 ? j - 1 : 0;
 	unsigned int k0 = k > 0 ? k - 1 : 0;
-	unsigned int w0 = w > 0 ? w - 1 : 0;
+	// The last index is the time, which is periodic: 0 is the upper bound of the
+	// interval between the last sample and the first one
+	unsigned int w0 =
+	    w > 0 ? w - 1 : static_cast<unsigned int>(values[i][j][k].size()) - 1;
 
 	T c000 = values[i0][j0][k0][w0] * (1. - fw) + values[i0][j0][k0][w] * fw;
 	T c001 = values[i0][j0][k][w0] * (1. - fw) + values[i0][j0][k][w] * fw;
-- 
2.43.0


From aee9c4a785789f8b1109871e8c59b2a52e22d474 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:31:58 +0000
Subject: [PATCH 15/16] fix: reject null arrays in MoorDyn::Step instead of
 dereferencing them

---
 source/MoorDyn2.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/source/MoorDyn2.cpp b/source/MoorDyn2.cpp
index 7e6a452..b557f38 100644
--- a/source/MoorDyn2.cpp
+++ b/source/MoorDyn2.cpp
@@ -629,6 +629,7 @@ moordyn::MoorDyn::Step(const double* x,
 	if (NCoupledDOF() && (!x || !xd || !f)) {
 		LOGERR << "Null Pointer received in " << __FUNC_NAME__ << " ("
 		       << XSTR(__FILE__) << ":" << __LINE__ << ")" << endl;
+		return MOORDYN_INVALID_VALUE;
 	}
 
 	unsigned int ix = 0;
-- 
2.43.0


From bca0f76f0bc205fc468cc97ef57bb3a8ab9b6825 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:31:58 +0000
Subject: [PATCH 16/16] fix: reject null arrays in MoorDyn::Init instead of
 dereferencing them

---
 source/MoorDyn2.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/source/MoorDyn2.cpp b/source/MoorDyn2.cpp
index b557f38..feb062b 100644
--- a/source/MoorDyn2.cpp
+++ b/source/MoorDyn2.cpp
@@ -405,10 +405,11 @@ moordyn::MoorDyn::icStationary()
 moordyn::error_id
 moordyn::MoorDyn::Init(const double* x, const double* xd, bool skip_ic)
 {
-	if (NCoupledDOF() && !x) {
+	if (NCoupledDOF() && (!x || !xd)) {
 		LOGERR << "ERROR: "
-		       << "MoorDyn::Init received a Null position vector, "
+		       << "MoorDyn::Init received a Null position or velocity vector, "
 		       << "but " << NCoupledDOF() << "components are required" << endl;
+		return MOORDYN_INVALID_VALUE;
 	}
 
 	// <<<<<<<<< need to add bodys
-- 
2.43.0

