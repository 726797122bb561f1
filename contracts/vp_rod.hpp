// A rod in an arbitrary state with any number of lines attached to either end
#pragma once
#include "vp_attach.hpp"
#include "Rod.hpp"
namespace vp {
inline moordyn::WavesRef MakeRodWaves(unsigned nodes)
{
	using namespace moordyn;
	WavesRef w = std::shared_ptr<Waves>(New<Waves>(TheLog()), [](Waves*) {});
	w->nodeKin.rods.structures.resize(1, nullptr);
	w->nodeKin.rods.zetas.resize(1);
	w->nodeKin.rods.U.resize(1);
	w->nodeKin.rods.Ud.resize(1);
	w->nodeKin.rods.Pdyn.resize(1);
	Vector(w->nodeKin.rods.zetas[0], nodes, "zeta");
	Vector(w->nodeKin.rods.U[0], nodes, "U");
	Vector(w->nodeKin.rods.Ud[0], nodes, "Ud");
	Vector(w->nodeKin.rods.Pdyn[0], nodes, "Pdyn");
	return w;
}
inline moordyn::XYZQuat Pose(const char* p, const char* q)
{
	moordyn::XYZQuat r;
	r.pos = Vec(p);
	Eigen::Matrix<double, 4, 1> c = Mat<4, 1>(q, -1, 1);
	r.quat.coeffs() = c;
	return r;
}
inline double QuatNorm2(const quaternion& q) { return q.w() * q.w() + q.x() * q.x() + q.y() * q.y() + q.z() * q.z(); }
/// v rotated by the orientation of q (q not necessarily of unit length)
inline vec Rotated(const quaternion& q, const vec& v)
{
	double w = q.w(), x = q.x(), y = q.y(), z = q.z(), n = QuatNorm2(q);
	return V(((w * w + x * x - y * y - z * z) * v(0) + 2 * (x * y - w * z) * v(1) + 2 * (x * z + w * y) * v(2)) / n,
	         (2 * (x * y + w * z) * v(0) + (w * w - x * x + y * y - z * z) * v(1) + 2 * (y * z - w * x) * v(2)) / n,
	         (2 * (x * z - w * y) * v(0) + 2 * (y * z + w * x) * v(1) + (w * w - x * x - y * y + z * z) * v(2)) / n);
}
inline moordyn::Rod* MakeRod(moordyn::Rod::types type, unsigned N, EnvCondRef env, moordyn::WavesRef w)
{
	using namespace moordyn;
	Rod* R = New<Rod>(TheLog(), (size_t)0);
	R->number = 1;
	R->type = type;
	R->env = env;
	R->waves = w;
	R->N = N;
	R->UnstrLen = Pos("UnstrLen");
	R->q0 = Vec("q0");
	R->q = Vec("q");
	R->d = Pos("d", 0.05, 2);
	R->rho = NonNeg("rho", 0, 4);
	R->Can = NonNeg("Can", 0, 2);
	R->Cat = NonNeg("Cat", 0, 2);
	R->Cdn = NonNeg("Cdn", 0, 2);
	R->Cdt = NonNeg("Cdt", 0, 2);
	R->CdEnd = NonNeg("CdEnd", 0, 2);
	R->CaEnd = NonNeg("CaEnd", 0, 2);
	R->r7 = Pose("r7p", "r7q");
	R->v6 = Vec6("v6");
	R->vel7 = Pose("vel7p", "vel7q");
	R->acc6 = Vec6("acc6");
	R->r_ves = Vec6("r_ves");
	R->rd_ves = Vec6("rd_ves");
	R->rdd_ves = Vec6("rdd_ves");
	R->outfile = nullptr;
	Vector(R->r, N + 1, "r");
	Vector(R->rd, N + 1, "rd");
	Vector(R->l, N ? N : 1, "l", 0.1, 3);
	Vector(R->V, N ? N : 1, "V", 0.1, 3);
	Scratch(R->M, N + 1, "M");
	Scratch(R->W, N + 1, "W");
	Scratch(R->Bo, N + 1, "Bo");
	Scratch(R->Pd, N + 1, "Pd");
	Scratch(R->Dp, N + 1, "Dp");
	Scratch(R->Dq, N + 1, "Dq");
	Scratch(R->Ap, N + 1, "Ap");
	Scratch(R->Aq, N + 1, "Aq");
	Scratch(R->B, N + 1, "B");
	Scratch(R->Fnet, N + 1, "Fnet");
	Scratch(R->VOF, N + 1, "VOF");
	R->FextA = Vec("FextA_old");
	R->FextB = Vec("FextB_old");
	R->Mext = Vec("Mext_old");
	R->F6net = Vec6("F6_old");
	R->M6net = Mat<6, 6>("M6_old");
	return R;
}
/// the orientation is a valid one
inline void ValidPose(const moordyn::XYZQuat& p) { Assume(QuatNorm2(p.quat) > 0.01); }
}
