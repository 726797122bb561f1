// Callee contracts and shared specification of the rigid-body equations of motion
#pragma once
#include "vp_rod.hpp"
#include "Body.hpp"
using namespace moordyn;
using namespace vp;
#ifdef VP_ENGINE
/// Rod::doRHS: any loads, any masses (they are pinned down in c10_rod.cc)
extern "C" void stub_rodRHS(Rod*) {}
extern "C" void stub_bodyRHS(Body*) {}
/// solveMat6: the solution of the system (Eigen's QR; assumed)
extern "C" vec6 stub_solve(const mat6& M, const vec6& b)
{
	vec6 x = Vec6("solution");
	for (int i = 0; i < 6; i++) {
		double s = 0.0;
		for (int k = 0; k < 6; k++) s += M(i, k) * x(k);
		vp_assume_(s == b(i));
	}
	return x;
}
#endif
static vec Head(const vec6& x) { return V(x(0), x(1), x(2)); }
static vec Tail(const vec6& x) { return V(x(3), x(4), x(5)); }

static quaternion Rate(const quaternion& q, const vec& w)
{
	quaternion r;
	r.w() = 0.5 * (-w(0) * q.x() - w(1) * q.y() - w(2) * q.z());
	r.x() = 0.5 * (w(0) * q.w() + w(1) * q.z() - w(2) * q.y());
	r.y() = 0.5 * (w(1) * q.w() + w(2) * q.x() - w(0) * q.z());
	r.z() = 0.5 * (w(2) * q.w() + w(0) * q.y() - w(1) * q.x());
	return r;
}
static void SameRate(const quaternion& a, const quaternion& b)
{
	CheckEq(V(a.x(), a.y(), a.z()), V(b.x(), b.y(), b.z()), "orientation derivative");
	CheckEq(a.w(), b.w(), "orientation derivative, scalar part");
}
/// the 3x3 block of M at (o, o) can be inverted
static void Invertible(const mat6& m, int o)
{
	auto M = [&](int i, int j) { return m(o + i, o + j); };
	double det = M(0, 0) * (M(1, 1) * M(2, 2) - M(1, 2) * M(2, 1)) - M(0, 1) * (M(1, 0) * M(2, 2) - M(1, 2) * M(2, 0)) +
	             M(0, 2) * (M(1, 0) * M(2, 1) - M(1, 1) * M(2, 0));
	Assume(det > 0.1);
}
