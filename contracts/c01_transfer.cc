// C01: inertia tensors and loads move between reference frames as rigid-body
// mechanics prescribes, for every offset, rotation and (symmetric) inertia.
#include "vp.hpp"
using namespace moordyn;
using namespace vp;

static mat SymMat(const char* n)
{
	mat M = Mat<3, 3>(n);
	M(1, 0) = M(0, 1); M(2, 0) = M(0, 2); M(2, 1) = M(1, 2);
	return M;
}
static mat6 SymMat6(const char* n)
{
	mat6 M = Mat<6, 6>(n);
	for (int i = 0; i < 6; i++)
		for (int j = 0; j < i; j++) M(i, j) = M(j, i);
	return M;
}
static vec Mul(const mat& M, const vec& v)
{
	return V(M(0, 0) * v(0) + M(0, 1) * v(1) + M(0, 2) * v(2),
	         M(1, 0) * v(0) + M(1, 1) * v(1) + M(1, 2) * v(2),
	         M(2, 0) * v(0) + M(2, 1) * v(1) + M(2, 2) * v(2));
}
static vec MulT(const mat& M, const vec& v)
{
	return V(M(0, 0) * v(0) + M(1, 0) * v(1) + M(2, 0) * v(2),
	         M(0, 1) * v(0) + M(1, 1) * v(1) + M(2, 1) * v(2),
	         M(0, 2) * v(0) + M(1, 2) * v(1) + M(2, 2) * v(2));
}
static void Mul6(const mat6& M, const vec& a, const vec& al, vec& F, vec& T)
{
	for (int i = 0; i < 3; i++) {
		F(i) = M(i, 0) * a(0) + M(i, 1) * a(1) + M(i, 2) * a(2) + M(i, 3) * al(0) + M(i, 4) * al(1) + M(i, 5) * al(2);
		T(i) = M(i + 3, 0) * a(0) + M(i + 3, 1) * a(1) + M(i + 3, 2) * a(2) + M(i + 3, 3) * al(0) + M(i + 3, 4) * al(1) + M(i + 3, 5) * al(2);
	}
}

// for every rigid motion (a, al) of the origin, a mass M rigidly held at r
// needs the force M (a + al x r) and the moment r x that force
VP_HARNESS(h_translateMass)
{
	vec r = Vec("r");
	mat M = SymMat("M");
	vec a = Vec("a"), al = Vec("al");
	mat6 out = translateMass(r, M);
	vec F, T;
	Mul6(out, a, al, F, T);
	vec Fs = Mul(M, a + Cross(al, r));
	CheckEq(F, Fs, "force of translated mass");
	CheckEq(T, Cross(r, Fs), "moment of translated mass");
	for (int i = 0; i < 6; i++)
		for (int j = 0; j < i; j++) CheckEq(out(i, j), out(j, i), "symmetry");
}
VP_HARNESS(h_translateMass6)
{
	vec r = Vec("r");
	mat6 M = SymMat6("M");
	vec a = Vec("a"), al = Vec("al");
	mat6 out = translateMass6(r, M);
	vec F, T, Fs, Ts;
	Mul6(out, a, al, F, T);
	Mul6(M, a + Cross(al, r), al, Fs, Ts);
	CheckEq(F, Fs, "force of translated inertia");
	CheckEq(T, vec(Ts + Cross(r, Fs)), "moment of translated inertia");
	for (int i = 0; i < 6; i++)
		for (int j = 0; j < i; j++) CheckEq(out(i, j), out(j, i), "symmetry");
}
// rotated tensor acts as R M R^T on every vector
VP_HARNESS(h_rotateMass)
{
	mat R = Mat<3, 3>("R"), M = Mat<3, 3>("M");
	vec a = Vec("a");
	mat out = rotateMass(R, M);
	CheckEq(Mul(out, a), Mul(R, Mul(M, MulT(R, a))), "rotated tensor");
}
VP_HARNESS(h_rotateMass6)
{
	mat R = Mat<3, 3>("R");
	mat6 M = SymMat6("M");
	vec a = Vec("a"), al = Vec("al");
	mat6 out = rotateMass6(R, M);
	vec F, T, Fs, Ts;
	Mul6(out, a, al, F, T);
	Mul6(M, MulT(R, a), MulT(R, al), Fs, Ts);
	CheckEq(F, Mul(R, Fs), "force of rotated inertia");
	CheckEq(T, Mul(R, Ts), "moment of rotated inertia");
}
VP_HARNESS(h_getH)
{
	vec r = Vec("r"), a = Vec("a");
	mat H = getH(r);
	CheckEq(Mul(H, a), Cross(a, r), "alternator matrix");
}
VP_HARNESS(h_transformKinematics)
{
	mat R = Mat<3, 3>("R");
	vec rRel = Vec("rRel"), r = Vec("r"), ro = Vec("ro"), rdo = Vec("rdo");
	vec6 rd = Vec6("rd");
	transformKinematics(rRel, R, r, rd, ro, rdo);
	vec p = Mul(R, rRel);
	CheckEq(ro, vec(r + p), "rigid position");
	CheckEq(rdo, vec(V(rd(0), rd(1), rd(2)) + Cross(V(rd(3), rd(4), rd(5)), p)), "rigid velocity");
}
