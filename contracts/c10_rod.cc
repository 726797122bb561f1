// C10: loads and mass of every node of a rod, as computed by Rod::doRHS
#include "vp_rod.hpp"
#include "vp_linestub.hpp"
using namespace moordyn;
using namespace vp;

static Rod* Setup(unsigned minN)
{
	EnvCondRef env = MakeEnv();
	unsigned N = Uint("N", minN, 1000000);
	WavesRef w = MakeRodWaves(N + 1);
	Rod* R = MakeRod((Rod::types)vp_int_("type", -2, 2), N, env, w);
	// invariant of Rod::setup
	double ls = R->UnstrLen / N;
	for (unsigned i = 0; i < N; i++) {
		R->l[i] = ls;
		R->V[i] = ls * 0.25 * moordyn::pi * R->d * R->d;
	}
#ifndef VP_ENGINE
	R->q /= Norm(R->q);
	if (Bool("vertical")) R->q = V(0, 0, 1);
#endif
	Assume(Dot(R->q, R->q) == 1.0 || !VP_SYMBOLIC);
	Assume(R->q(0) * R->q(0) + R->q(1) * R->q(1) > 1e-6);
	// the ends follow the pose (setDependentStates, C08)
	R->r[N] = R->r[0] + R->UnstrLen * R->q;
	Attach(R->attachedA, 0, env, w);
	Attach(R->attachedB, 1, env, w);
	if (Bool("bathy")) R->seafloor = MakeSeafloor();
	return R;
}
static double Depth(Rod* R, const vec& p) { return R->seafloor ? R->seafloor->getDepthAt(p(0), p(1)) : -R->env->WtrDpth; }

/// loads that a node feels through the surface of its share dL of the rod
static void side(Rod* R, unsigned k, const vec& r0, const vec& rN, const vec& v0, const vec& vN)
{
	unsigned N = R->N;
	double f = (double)k / (double)N;
	vec rk = r0 + f * (rN - r0), vk = v0 + f * (vN - v0);
	const vec q = R->q;
	double dL = (k == 0 || k == N ? 0.5 : 1.0) * R->UnstrLen / N;
	double A = 0.25 * moordyn::pi * R->d * R->d, rw = R->env->rho_w, g = R->env->g, wet = R->VOF[k];
	vec U = R->waves->nodeKin.rods.U[0][k], Ud = R->waves->nodeKin.rods.Ud[0][k];
	vec u = U - vk;
	vec up = u - Dot(u, q) * q, ap = Ud - Dot(Ud, q) * q;
	double s = Norm(up);
	CheckEq(vec(R->r[k]), rk, "node on the axis of the rod");
	CheckEq(vec(R->rd[k]), vk, "node moves with the axis of the rod");
	CheckEq(vec(R->W[k]), V(0, 0, -A * dL * R->rho * g), "dry weight of the node");
	CheckEq(vec(R->Dp[k]), vec((wet * 0.5 * rw * R->Cdn * R->d * dL * s) * up), "transverse drag", 1e2);
	CheckEq(vec(R->Ap[k]), vec((wet * rw * (1.0 + R->Can) * A * dL) * ap), "transverse fluid inertia", 1e2);
	rk = R->r[k];
	vk = R->rd[k];
	double z = Depth(R, rk), pen = z - rk(2);
	CheckEq(vec(R->B[k]), V(0, 0, pen > 0.0 ? (pen * R->env->kb - vk(2) * R->env->cb) * R->d * dL : 0.0), "seabed reaction", 1e2);
}
static mat NodeMass(Rod* R, unsigned k)
{
	unsigned N = R->N;
	const vec q = R->q;
	double dL = (k == 0 || k == N ? 0.5 : 1.0) * R->UnstrLen / N;
	double A = 0.25 * moordyn::pi * R->d * R->d;
	double m = A * dL * R->rho, a = R->VOF[k] * R->env->rho_w * A * dL;
	mat M;
	for (int i = 0; i < 3; i++)
		for (int j = 0; j < 3; j++) {
			double e = i == j ? 1.0 : 0.0, t = q(i) * q(j);
			M(i, j) = m * e + a * (R->Can * (e - t) + R->Cat * t);
		}
	return M;
}
static vec Total(Rod* R, unsigned k)
{
	vec t;
	for (int i = 0; i < 3; i++)
		t(i) = R->W[k](i) + R->Bo[k](i) + R->Dp[k](i) + R->Dq[k](i) + R->Ap[k](i) + R->Aq[k](i) + R->Pd[k](i) + R->B[k](i);
	return t;
}
// the inclination and heading of the rod are those of its axis
VP_HARNESS(h_rod_direction)
{
	vec q = Vec("q");
#ifndef VP_ENGINE
	q /= Norm(q);
#endif
	Assume(Dot(q, q) == 1.0 || !VP_SYMBOLIC);
	Assume(q(0) * q(0) + q(1) * q(1) > 1e-6);
	const auto an = orientationAngles(q);
	double sp = std::sin(an.first), cp = std::cos(an.first), sb = std::sin(an.second), cb = std::cos(an.second);
	CheckEq(V(sp * cb, sp * sb, cp), q, "inclination and heading give the axis");
	Check(sp >= 0.0, "inclination between 0 and 180 degrees");
}
VP_HARNESS(h_rod_inner)
{
	Rod* R = Setup(2);
	unsigned N = R->N, k = Uint("k", 1, 1000000);
	Assume(k < N);
	vec r0 = R->r[0], rN = R->r[N], v0 = R->rd[0], vN = R->rd[N];
	R->doRHS();
	side(R, k, r0, rN, v0, vN);
	const vec q = R->q;
	double A = 0.25 * moordyn::pi * R->d * R->d, dL = R->UnstrLen / N;
	double b = R->VOF[k] * R->env->rho_w * R->env->g * A * dL;
	// b (k - (k.q) q), with q in the angles of h_rod_direction
	const auto an = orientationAngles(q);
	double sp = std::sin(an.first), cp = std::cos(an.first), sb = std::sin(an.second), cb = std::cos(an.second);
	CheckEq(vec(R->Bo[k]), V(-b * cp * sp * cb, -b * cp * sp * sb, b * sp * sp), "side buoyancy is the normal part of the upthrust", 1e2);
	CheckEq(vec(R->Dq[k]), V(0, 0, 0), "no axial drag on the side");
	CheckEq(vec(R->Pd[k]), V(0, 0, 0), "no dynamic pressure on the side");
	CheckEq(vec(R->Aq[k]), V(0, 0, 0), "no axial inertia on the side");
	CheckEq(mat(R->M[k]), NodeMass(R, k), "mass of an inner node", 1e2);
	CheckEq(vec(R->Fnet[k]), Total(R, k), "net force of an inner node", 1e2);
	Check(true, "ran");
}
// the ends also carry the loads of the end faces and of the attached lines
static void end(bool top)
{
	Rod* R = Setup(1);
	unsigned N = R->N, k = top ? N : 0;
	vec r0 = R->r[0], rN = R->r[N], v0 = R->rd[0], vN = R->rd[N];
	R->doRHS();
	side(R, k, r0, rN, v0, vN);
	vec F = Total(R, k), X = V(0, 0, 0);
	mat M = NodeMass(R, k);
	const vec q = R->q;
	auto& list = top ? R->attachedB : R->attachedA;
	for (unsigned j = 0; j < list.size(); j++) {
		vec f = EndF(top, j, list[j].end_point);
		mat m = EndM(top, j, list[j].end_point);
		for (int i = 0; i < 3; i++) {
			X(i) += f(i);
			for (int c = 0; c < 3; c++) M(i, c) += m(i, c);
		}
	}
	double zeta = R->waves->nodeKin.rods.zetas[0][N];
	double lo = R->r[k](2) - 0.5 * R->d * std::fabs(std::sin(orientationAngles(q).first));
	double wet = lo < zeta ? R->VOF[k] : 0.0;
	double A = 0.25 * moordyn::pi * R->d * R->d, rw = R->env->rho_w, Vc = 2.0 / 3.0 * moordyn::pi * R->d * R->d * R->d / 8.0;
	vec U = R->waves->nodeKin.rods.U[0][k], Ud = R->waves->nodeKin.rods.Ud[0][k];
	vec u = U - vec(R->rd[k]);
	vec uq = Dot(u, q) * q;
	CheckEq(vec(R->Dq[k]), vec((0.5 * wet * A * rw * R->CdEnd * Norm(uq)) * uq), "axial drag on the end face", 1e2);
	CheckEq(vec(R->Aq[k]), vec((wet * rw * R->CaEnd * Vc * Dot(Ud, q)) * q), "axial inertia on the end face", 1e2);
	CheckEq(vec(R->Pd[k]), vec(((top ? -1.0 : 1.0) * wet * A * R->waves->nodeKin.rods.Pdyn[0][k]) * q), "dynamic pressure on the end face", 1e2);
	for (int i = 0; i < 3; i++)
		for (int c = 0; c < 3; c++) M(i, c) += wet * rw * R->CaEnd * Vc * q(i) * q(c);
	const auto an = orientationAngles(q);
	double sp = std::sin(an.first), cp = std::cos(an.first), sb = std::sin(an.second), cb = std::cos(an.second);
	double dL = 0.5 * R->UnstrLen / N, b = R->VOF[k] * rw * R->env->g * A * dL;
	vec buoy = V(-b * cp * sp * cb, -b * cp * sp * sb, b * sp * sp);
	// hydrostatic pressure on the face, where the whole face is under water
	double zhi = R->r[k](2) + 0.5 * R->d * std::fabs(sp);
	if (zhi < zeta) {
		double p = (top ? 1.0 : -1.0) * R->VOF[k] * A * rw * R->env->g * R->r[k](2);
		CheckEq(vec(R->Bo[k]), vec(buoy + V(p * sp * cb, p * sp * sb, p * cp)), "side buoyancy and pressure on the end face", 1e2);
	}
	if (lo > zeta) CheckEq(vec(R->Bo[k]), buoy, "no pressure on a dry end face", 1e2);
	CheckEq(vec(top ? R->FextB : R->FextA), X, "line force on the rod end", 1e2);
	CheckEq(vec(R->Fnet[k]), vec(F + X), "net force of an end node", 1e2);
	CheckEq(mat(R->M[k]), M, "mass of an end node", 1e2);
}
VP_HARNESS(h_rod_endA) { end(false); }
VP_HARNESS(h_rod_endB) { end(true); }

// the nodes are assembled about end A, line moments included
VP_HARNESS(h_rod_assembly)
{
	Rod* R = Setup(1);
	unsigned N = R->N;
	R->doRHS();
	vec6 F;
	for (int i = 0; i < 3; i++) {
		F(i) = 0.0;
		F(i + 3) = R->Mext(i);
	}
	for (unsigned i = 0; i <= N; i++) {
		vec f = R->Fnet[i];
		vec m = Cross(vec(R->r[i] - R->r[0]), f);
		for (int c = 0; c < 3; c++) {
			F(c) += f(c);
			F(c + 3) += m(c);
		}
	}
	CheckEq(vec6(R->F6net), F, "net force and moment about end A", 1e3);
}

// how much of a node is under water: the share of its length along the axis,
// and the share of its cross section
static void wet(bool up, bool inner)
{
	Rod* R = Setup(inner ? 2 : 1);
	unsigned N = R->N, k = inner ? Uint("k", 1, 1000000) : 0;
	if (inner) Assume(k < N);
	double zeta = R->waves->nodeKin.rods.zetas[0][N];
	double za = R->r[0](2), zb = R->r[N](2), ls = R->UnstrLen / N;
	const vec q = R->q;
	const auto an = orientationAngles(q);
	double sp = std::sin(an.first), cp = std::cos(an.first);
	if (up) Assume(za < zeta && zb > zeta);
	else Assume(za > zeta && zb < zeta);
	R->doRHS();
	double from = inner ? (k - 0.5) * ls : 0.0, dL = inner ? ls : 0.5 * ls;
	double cross = (zeta - za) / q(2); // along the axis from end A
	double share;
	if (up) share = from + dL <= cross ? 1.0 : from < cross ? (cross - from) / dL : 0.0;
	else share = from >= cross ? 1.0 : from + dL > cross ? (from + dL - cross) / dL : 0.0;
	double h = 0.5 * R->d * std::fabs(sp), z = R->r[k](2);
	if (z - h > zeta) CheckEq(R->VOF[k], share * cp * cp, "wet fraction, section out of the water");
	if (z + h < zeta) CheckEq(R->VOF[k], share * cp * cp + sp * sp, "wet fraction, section under water");
}
VP_HARNESS(h_rod_wet_upright) { wet(true, true); }
VP_HARNESS(h_rod_wet_inverted) { wet(false, true); }
VP_HARNESS(h_rod_wet_upright_end) { wet(true, false); }
VP_HARNESS(h_rod_wet_inverted_end) { wet(false, false); }
// a rod that does not cross the surface is wet or dry all along
static void immersed(bool in)
{
	Rod* R = Setup(1);
	unsigned N = R->N, k = Uint("k", 0, 1000000);
	Assume(k <= N);
	double zeta = R->waves->nodeKin.rods.zetas[0][N];
	double za = R->r[0](2), zb = R->r[N](2);
	if (in) Assume(za < zeta && zb < zeta);
	else Assume(za > zeta && zb > zeta);
	R->doRHS();
	const auto an = orientationAngles(R->q);
	double sp = std::sin(an.first), cp = std::cos(an.first);
	double h = 0.5 * R->d * std::fabs(sp), z = R->r[k](2);
	if (z - h > zeta) CheckEq(R->VOF[k], in ? cp * cp : 0.0, "wet fraction, section out of the water");
	if (z + h < zeta) CheckEq(R->VOF[k], (in ? cp * cp : 0.0) + sp * sp, "wet fraction, section under water");
}
VP_HARNESS(h_rod_under) { immersed(true); }
VP_HARNESS(h_rod_above) { immersed(false); }
VP_HARNESS(h_rod_mass)
{
	Rod* R = Setup(1);
	unsigned N = R->N;
	R->doRHS();
	mat6 M;
	for (int i = 0; i < 6; i++)
		for (int j = 0; j < 6; j++) M(i, j) = 0.0;
	for (unsigned i = 0; i <= N; i++) M += translateMass(vec(R->r[i] - R->r[0]), R->M[i]);
	// inertia of the uniform cylinder about its axes, net of what the lumped masses carry
	double a = 0.5 * R->d, m = R->UnstrLen * moordyn::pi * a * a * R->rho;
	double ax = 0.5 * m * a * a, tr = m * (0.25 * a * a - R->UnstrLen * R->UnstrLen / (6.0 * N * N));
	const auto an = orientationAngles(R->q);
	double sp = std::sin(an.first), cp = std::cos(an.first), sb = std::sin(an.second), cb = std::cos(an.second);
	vec e = V(sp * cb, sp * sb, cp);
	for (int i = 0; i < 3; i++)
		for (int j = 0; j < 3; j++) {
			M(i + 3, j + 3) += tr * ((i == j) - e(i) * e(j)) + ax * e(i) * e(j);
		}
	CheckEq(mat6(R->M6net), M, "mass and inertia about end A", 1e3);
}
