// C07: node mass matrix and equation of motion of the internal nodes
#include "vp_linestub.hpp"
using namespace moordyn;
using namespace vp;

static void mass(bool bending)
{
	Line* L = SetupLine(bending);
	unsigned k = AnyNode(L);
	L->getStateDeriv();
	vec q = L->q[k];
	double m = Adjacent(L, k, [&](unsigned i) { return 0.5 * L->A * L->l[i] * L->rho; });
	double w = Adjacent(L, k, [&](unsigned i) { return 0.5 * L->env->rho_w * Wet(L, i) * L->A * L->l[i]; });
	mat M;
	for (int i = 0; i < 3; i++)
		for (int j = 0; j < 3; j++) {
			double e = i == j ? 1.0 : 0.0, t = q(i) * q(j);
			M(i, j) = m * e + w * (L->Can * (e - t) + L->Cat * t);
		}
	CheckEq(L->M[k], M, "node mass matrix");
}
VP_HARNESS(h_mass) { mass(false); }
VP_HARNESS(h_mass_bending) { mass(true); }

// any matrix of that form with a positive structural mass is positive definite
VP_HARNESS(h_definite)
{
	vec q = Vec("q"), x = Vec("x");
	double m = Pos("m"), a = NonNeg("a"), b = NonNeg("b");
#ifndef VP_ENGINE
	q /= Norm(q);
#endif
	Assume(Dot(q, q) == 1.0 || !VP_SYMBOLIC);
	mat M;
	for (int i = 0; i < 3; i++)
		for (int j = 0; j < 3; j++) {
			double e = i == j ? 1.0 : 0.0, t = q(i) * q(j);
			M(i, j) = m * e + a * (e - t) + b * t;
		}
	vec y = M * x;
	double xq = Dot(x, q);
	vec c = Cross(x, q);
	CheckEq(Dot(x, y), m * Dot(x, x) + a * Dot(c, c) + b * xq * xq, "kinetic energy as a sum of squares");
	double det = M(0, 0) * (M(1, 1) * M(2, 2) - M(1, 2) * M(2, 1)) - M(0, 1) * (M(1, 0) * M(2, 2) - M(1, 2) * M(2, 0)) +
	             M(0, 2) * (M(1, 0) * M(2, 1) - M(1, 1) * M(2, 0));
	CheckEq(det, (m + a) * (m + a) * (m + b), "determinant of the node mass matrix");
	Check(det > 0.0, "node mass matrix is invertible");
}

// M a = F at every internal node, velocity returned unchanged
static void motion(bool bending)
{
	Line* L = SetupLine(bending);
	unsigned N = L->N;
	unsigned k = Uint("k", 0, 1000000);
	Assume(k > 0 && k < N);
	vec v = L->rd[k], r = L->r[k];
	Assume(L->rho > 0.0);
	auto out = L->getStateDeriv();
	Check(out.first.size() == N - 1, "one velocity per internal node");
	Check(out.second.size() == N - 1, "one acceleration per internal node");
	vec u = out.first[k - 1], a = out.second[k - 1];
	CheckEq(u, v, "position derivative is the node velocity");
	CheckEq(vec(L->M[k] * a), vec(L->Fnet[k]), "mass times acceleration is the net force", 1e2);
	CheckEq(vec(L->r[k]), r, "node position kept");
	CheckEq(vec(L->rd[k]), v, "node velocity kept");
}
VP_HARNESS(h_motion) { motion(false); }
VP_HARNESS(h_motion_bending) { motion(true); }
