// C09: net force, mass and acceleration of a point with any number of attached lines
#include "vp_point.hpp"
using namespace moordyn;
using namespace vp;

static void expected(Point* P, vec& F, mat& M)
{
	const vec U = P->waves->nodeKin.points.U[0][0];
	double g = P->env->g, rw = P->env->rho_w;
	vec u = U - P->rd;
	double s = std::sqrt(Dot(u, u));
	for (int k = 0; k < 3; k++) F(k) = P->pointF(k) + 0.5 * rw * P->pointCdA * s * u(k);
	F(2) += g * (P->pointV * rw - P->pointM);
	for (int i = 0; i < 3; i++)
		for (int k = 0; k < 3; k++) M(i, k) = i == k ? P->pointM + rw * P->pointV * P->pointCa : 0.0;
	for (unsigned j = 0; j < P->attached.size(); j++) {
		vec f = EndF(0, j, P->attached[j].end_point);
		mat m = EndM(0, j, P->attached[j].end_point);
		for (int i = 0; i < 3; i++) {
			F(i) += f(i);
			for (int k = 0; k < 3; k++) M(i, k) += m(i, k);
		}
	}
}
VP_HARNESS(h_point_loads)
{
	Point* P = MakePoint((Point::types)vp_int_("type", -1, 1));
	vec r = P->r, v = P->rd;
	vec F;
	mat M;
	expected(P, F, M);
	P->doRHS();
	CheckEq(vec(P->Fnet), F, "net force on the point", 1e2);
	CheckEq(mat(P->M), M, "mass of the point", 1e2);
	CheckEq(vec(P->r), r, "position kept");
	CheckEq(vec(P->rd), v, "velocity kept");
}
VP_HARNESS(h_point_body)
{
	Point* P = MakePoint(Point::FIXED);
	vec rb = Vec("rb");
	vec6 vb = Vec6("vb");
	vec F;
	mat M;
	expected(P, F, M);
	vec6 Fo;
	mat6 Mo;
	P->getNetForceAndMass(Fo, Mo, rb, vb);
	vec d = P->r - rb, w = V(vb(3), vb(4), vb(5));
	vec a = Cross(w, Cross(w, d));
	vec m = Cross(d, F);
	for (int k = 0; k < 3; k++) {
		double c = 0;
		for (int l = 0; l < 3; l++) c += M(k, l) * a(l);
		CheckEq(Fo(k), F(k) - c, "force on the body", 1e3);
	}
	mat6 Me = translateMass(d, M);
	CheckEq(vec(Fo.tail<3>()), m, "moment on the body", 1e3);
	CheckEq(mat6(Mo), Me, "mass on the body", 1e3);
}
VP_HARNESS(h_point_motion)
{
	Point* P = MakePoint(Point::FREE);
	vec r = P->r, v = P->rd;
	vec F;
	mat M;
	expected(P, F, M);
	double det = M(0, 0) * (M(1, 1) * M(2, 2) - M(1, 2) * M(2, 1)) - M(0, 1) * (M(1, 0) * M(2, 2) - M(1, 2) * M(2, 0)) +
	             M(0, 2) * (M(1, 0) * M(2, 1) - M(1, 1) * M(2, 0));
	Assume(det > 0.1);
	auto s = P->getStateDeriv();
	CheckEq(s.first, v, "position derivative is the velocity");
	vec Ma = M * s.second;
	CheckEq(Ma, F, "mass times acceleration is the net force", 1e3);
	CheckEq(vec(P->r), r, "position kept");
}
