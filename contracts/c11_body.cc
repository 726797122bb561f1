// C11: net load, mass and acceleration of a body with any number of points and rods
#include "vp_body.hpp"
using namespace moordyn;
using namespace vp;
static vec Head(const vec6& x) { return V(x(0), x(1), x(2)); }
static vec Tail(const vec6& x) { return V(x(3), x(4), x(5)); }
static void addAll(Body* B, vec6& F, mat6& M)
{
	if (Ghost()) {
		BAtt& b = BAtts();
		for (unsigned j = 0; j < B->attachedP.size(); j++) {
			F += b.pF[j];
			for (int c = 0; c < 6; c++)
				for (int k = 0; k < 6; k++) M(k, c) += b.pM[c][j](k);
		}
		for (unsigned j = 0; j < B->attachedR.size(); j++) {
			F += b.rF[j];
			for (int c = 0; c < 6; c++)
				for (int k = 0; k < 6; k++) M(k, c) += b.rM[c][j](k);
		}
		return;
	}
	for (unsigned j = 0; j < B->attachedP.size(); j++) {
		vec6 f;
		mat6 m;
		B->attachedP[j]->getNetForceAndMass(f, m, B->r7.pos, B->v6);
		F += f;
		M += m;
	}
	for (unsigned j = 0; j < B->attachedR.size(); j++) {
		vec6 f;
		mat6 m;
		B->attachedR[j]->getNetForceAndMass(f, m, B->r7.pos, B->v6);
		F += f;
		M += m;
	}
}
static vec Drag(const mat& R, const vec& cda, const vec& u)
{
	// in the body frame, per axis, on the relative speed
	vec l, d;
	double s = std::sqrt(Dot(u, u));
	for (int i = 0; i < 3; i++) l(i) = cda(i) * (R(0, i) * u(0) + R(1, i) * u(1) + R(2, i) * u(2));
	for (int i = 0; i < 3; i++) d(i) = s * (R(i, 0) * l(0) + R(i, 1) * l(1) + R(i, 2) * l(2));
	return d;
}
VP_HARNESS(h_body_loads)
{
	Body* B = MakeBody((Body::types)vp_int_("type", -1, 2));
	BAtts().pref = B->r7.pos;
	BAtts().pvel = B->v6;
	const mat R = B->OrMat;
	double g = B->env->g, rw = B->env->rho_w;
	mat6 M = rotateMass6(R, B->M0);
	vec cg = V(Dot(R.row(0).transpose(), B->body_rCG), Dot(R.row(1).transpose(), B->body_rCG), Dot(R.row(2).transpose(), B->body_rCG));
	vec G = V(0, 0, (B->bodyV * rw - B->bodyM) * g);
	vec w = Tail(B->v6), a = Cross(w, Cross(w, cg));
	vec Fc;
	for (int i = 0; i < 3; i++) Fc(i) = M(i, 0) * a(0) + M(i, 1) * a(1) + M(i, 2) * a(2);
	vec u = B->waves->nodeKin.bodies.U[0][0] - Head(B->v6);
	vec dt = Drag(R, Head(B->bodyCdA), u), dr = Drag(R, Tail(B->bodyCdA), vec(-w));
	vec mg = Cross(cg, G);
	vec6 F;
	for (int i = 0; i < 3; i++) {
		F(i) = G(i) - Fc(i) + 0.5 * rw * dt(i);
		F(i + 3) = mg(i) + 0.5 * rw * dr(i);
	}
	addAll(B, F, M);
	vec p = B->r7.pos;
	vec6 v = B->v6;
	B->doRHS();
	CheckEq(vec6(B->F6net), F, "net force and moment on the body", 1e3);
	CheckEq(mat6(B->M), M, "mass of the body", 1e3);
	CheckEq(vec(B->r7.pos), p, "position kept");
	CheckEq(vec6(B->v6), v, "velocity kept");
}
VP_HARNESS(h_body_fnet)
{
	int t = (int)vp_int_("type", -1, 2);
	Body* B = MakeBody((Body::types)t);
	vec6 f = B->getFnet();
	for (int i = 0; i < 6; i++) {
		double in = 0;
		for (int k = 0; k < 6; k++) in += B->M(i, k) * B->a6(k);
		double e = B->F6net(i);
		if (t == -1) e -= in;
		if (t == 2) e = i < 3 ? e - in : 0.0;
		CheckEq(f(i), e, "force of the body on the coupling", 1e2);
	}
}
