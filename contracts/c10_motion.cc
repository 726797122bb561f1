// C10: what a rod passes on to what carries it, and its equation of motion
#include "vp_rod.hpp"
#include "vp_linestub.hpp"
#include "vp_motion.hpp"
static Rod* Setup(int lo, int hi, unsigned minN)
{
	EnvCondRef env = MakeEnv();
	unsigned N = Uint("N", minN, 1000000);
	WavesRef w = MakeRodWaves(N + 1);
	Rod* R = MakeRod((Rod::types)vp_int_("type", lo, hi), N, env, w);
	double ls = R->UnstrLen / (N ? N : 1);
	for (unsigned i = 0; i < N; i++) {
		R->l[i] = ls;
		R->V[i] = ls * 0.25 * moordyn::pi * R->d * R->d;
	}
#ifndef VP_ENGINE
	Assume(Dot(R->q, R->q) > 0.01);
	R->q /= Norm(R->q);
	R->r[N] = R->r[0] + R->UnstrLen * R->q;
#endif
	return R;
}
/// the masses of the rod can be inverted (they are positive definite when it has mass)
static void Heavy(Rod* R, int o)
{
#ifdef VP_ENGINE
	Invertible(R->M6net, o);
#else
	Assume(R->rho > 0.1 && (o || R->N));
#endif
}
// transfer of the rod loads to any reference point
VP_HARNESS(h_rod_transfer)
{
	Rod* R = Setup(-2, 2, 1);
	unsigned N = R->N;
	vec ref = Vec("ref");
	vec6 vref = Vec6("vref");
	vec6 F;
	mat6 M;
	R->getNetForceAndMass(F, M, ref, vref);
	vec f = Head(R->F6net), m = Tail(R->F6net), w = Tail(vref), arm = vec(R->r[0] - ref), c = V(0, 0, 0);
	for (unsigned i = 0; i <= N; i++) {
		vec a = Cross(w, Cross(w, vec(R->r[i] - ref)));
		mat Mi = R->M[i];
		for (int j = 0; j < 3; j++) c(j) -= Mi(j, 0) * a(0) + Mi(j, 1) * a(1) + Mi(j, 2) * a(2);
	}
	vec t = Cross(arm, f);
	CheckEq(Head(F), vec(f + c), "rod force at the reference", 1e3);
	CheckEq(Tail(F), vec(m + t), "rod moment about the reference", 1e3);
	CheckEq(M, translateMass6(arm, R->M6net), "rod mass about the reference", 1e3);
}
// force on the coupling, by rod type
VP_HARNESS(h_rod_fnet)
{
	Rod* R = Setup(-2, 2, 1);
	int t = (int)R->type;
	vec6 f = R->getFnet();
	for (int i = 0; i < 6; i++) {
		double in = 0;
		for (int k = 0; k < 6; k++) in += R->M6net(i, k) * R->acc6(k);
		double e = R->F6net(i);
		if (t == -2) e -= in;
		if (t == -1) e = i < 3 ? e - in : 0.0;
		CheckEq(f(i), e, "force of the rod on the coupling", 1e2);
	}
}
VP_HARNESS(h_rod_motion_free)
{
	Rod* R = Setup(0, 0, 1);
	Heavy(R, 0);
	vec6 v = R->v6;
	quaternion q = R->r7.quat;
	auto out = R->getStateDeriv();
	vec6 a = out.second, F;
	mat6 M;
	R->getNetForceAndMass(F, M);
	for (int i = 0; i < 6; i++) {
		double s = 0.0;
		for (int k = 0; k < 6; k++) s += M(i, k) * a(k);
		CheckEq(s, F(i), "mass times acceleration is the load on the rod", 1e4);
	}
	CheckEq(vec(out.first.pos), Head(v), "position derivative is the velocity");
	SameRate(out.first.quat, Rate(q, Tail(v)));
	CheckEq(vec6(R->v6), v, "velocity kept");
}
VP_HARNESS(h_rod_motion_pinned)
{
	Rod* R = Setup(-1, 1, 1);
	Assume(R->type != Rod::FREE);
	Heavy(R, 3);
	vec6 v = R->v6;
	vec A = Head(R->acc6);
	quaternion q = R->r7.quat;
	auto out = R->getStateDeriv();
	vec6 a = out.second, F;
	mat6 M;
	R->getNetForceAndMass(F, M);
	for (int i = 3; i < 6; i++) {
		double s = 0.0;
		for (int k = 0; k < 3; k++) s += M(i, k) * A(k) + M(i, k + 3) * a(k + 3);
		CheckEq(s, F(i), "rotation of a pinned rod about its end", 1e4);
	}
	CheckEq(Head(a), V(0, 0, 0), "pinned end does not accelerate by itself");
	CheckEq(vec(out.first.pos), V(0, 0, 0), "pinned end does not move by itself");
	SameRate(out.first.quat, Rate(q, Tail(v)));
	CheckEq(vec6(R->v6), v, "velocity kept");
}
VP_HARNESS(h_rod_motion_point)
{
	Rod* R = Setup(0, 0, 0);
	Assume(R->N == 0);
	Heavy(R, 0);
	vec6 v = R->v6;
	auto out = R->getStateDeriv();
	vec6 a = out.second, F;
	mat6 M;
	R->getNetForceAndMass(F, M);
	for (int i = 0; i < 3; i++) {
		double s = 0.0;
		for (int k = 0; k < 3; k++) s += M(i, k) * a(k);
		CheckEq(s, F(i), "mass times acceleration of a zero-length rod", 1e4);
	}
	CheckEq(Tail(a), V(0, 0, 0), "a zero-length rod does not spin");
	CheckEq(vec(out.first.pos), Head(v), "position derivative is the velocity");
}
