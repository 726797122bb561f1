// C02: orientation representations agree.
#include "vp.hpp"
using namespace moordyn;
using namespace vp;

static mat Mul(const mat& A, const mat& B)
{
	mat C;
	for (int i = 0; i < 3; i++)
		for (int j = 0; j < 3; j++) C(i, j) = A(i, 0) * B(0, j) + A(i, 1) * B(1, j) + A(i, 2) * B(2, j);
	return C;
}
static mat Elem(int axis, double t)
{
	double s = std::sin(t), c = std::cos(t);
	int i = (axis + 1) % 3, j = (axis + 2) % 3;
	mat R;
	for (int a = 0; a < 3; a++)
		for (int b = 0; b < 3; b++) R(a, b) = a == b ? 1.0 : 0.0;
	R(i, i) = c; R(i, j) = -s; R(j, i) = s; R(j, j) = c;
	return R;
}
static void Rotation(const mat& R, const char* n)
{
	mat Rt = R.transpose();
	CheckEq(Mul(R, Rt), mat(mat::Identity()), n);
	double det = Dot(V(R(0, 0), R(1, 0), R(2, 0)), Cross(V(R(0, 1), R(1, 1), R(2, 1)), V(R(0, 2), R(1, 2), R(2, 2))));
	CheckEq(det, 1.0, n);
}
VP_HARNESS(h_elementary)
{
	double t = Real("t");
	CheckEq(RotX(t), Elem(0, t), "RotX");
	CheckEq(RotY(t), Elem(1, t), "RotY");
	CheckEq(RotZ(t), Elem(2, t), "RotZ");
	Rotation(RotX(t), "RotX is a rotation");
	Rotation(RotY(t), "RotY is a rotation");
	Rotation(RotZ(t), "RotZ is a rotation");
}
#define EU(name, a, b, c) \
	CheckEq(Rot##name(x, y, z), Mul(Mul(Elem(a, x), Elem(b, y)), Elem(c, z)), "Rot" #name); \
	CheckEq(Rot##name(V(x, y, z)), Rot##name(x, y, z), "Rot" #name " vector form");
VP_HARNESS(h_euler)
{
	double x = Real("x"), y = Real("y"), z = Real("z");
	EU(XYX, 0, 1, 0) EU(XYZ, 0, 1, 2) EU(XZX, 0, 2, 0) EU(XZY, 0, 2, 1)
	EU(YXY, 1, 0, 1) EU(YXZ, 1, 0, 2) EU(YZX, 1, 2, 0) EU(YZY, 1, 2, 1)
	EU(ZXY, 2, 0, 1) EU(ZXZ, 2, 0, 2) EU(ZYX, 2, 1, 0) EU(ZYZ, 2, 1, 2)
}
// Euler2Quat gives a unit quaternion of the X-Y-Z intrinsic rotation
VP_HARNESS(h_euler2quat)
{
	vec h = Vec("halfangles");
	vec a = 2.0 * h;
	quaternion q = Euler2Quat(a);
	CheckEq(q.squaredNorm(), 1.0, "unit quaternion");
	mat R = q.toRotationMatrix();
	CheckEq(R, Mul(Mul(Elem(0, a(0)), Elem(1, a(1))), Elem(2, a(2))), "same rotation as Euler angles");
}
// Quat2Euler: the angles reproduce the rotation of any non-null quaternion
// (k times a unit one; the integrator does not keep them normalised)
static quaternion AnyQuat(bool neg, double& w, double& x, double& y, double& z)
{
	x = Real("qx", -0.55, 0.55); y = Real("qy", -0.55, 0.55); z = Real("qz", -0.55, 0.55);
	double w2 = 1.0 - x * x - y * y - z * z;
	Assume(w2 >= 0.0);
	w = std::sqrt(w2);
	if (neg) w = -w;
	double m = Pos("m", 0.5, 2);
	double k = m * m;
	return quaternion(k * w, k * x, k * y, k * z);
}
static void quat2euler(bool neg, bool lock)
{
	double w, x, y, z;
	quaternion q = AnyQuat(neg, w, x, y, z);
	double s2 = 2 * (x * z + w * y);
	if (!lock) Assume(s2 * s2 < 1.0);
	vec a = Quat2Euler(q);
	mat R;
	R(0, 0) = 1 - 2 * (y * y + z * z);
	R(0, 1) = 2 * (x * y - w * z);
	R(0, 2) = 2 * (x * z + w * y);
	R(1, 0) = 2 * (x * y + w * z);
	R(1, 1) = 1 - 2 * (x * x + z * z);
	R(1, 2) = 2 * (y * z - w * x);
	R(2, 0) = 2 * (x * z - w * y);
	R(2, 1) = 2 * (y * z + w * x);
	R(2, 2) = 1 - 2 * (x * x + y * y);
	mat E = Mul(Mul(Elem(0, a(0)), Elem(1, a(1))), Elem(2, a(2)));
	CheckEq(E, R, "Euler angles reproduce the rotation");
}
VP_HARNESS(h_quat2euler_p) { quat2euler(false, false); }
VP_HARNESS(h_quat2euler_n) { quat2euler(true, false); }
VP_HARNESS(h_xyzquat)
{
	vec6 v = Vec6("v");
	vec6 v2 = 2.0 * v;
	XYZQuat p = XYZQuat::fromVec6(v2);
	CheckEq(vec(p.pos), V(v2(0), v2(1), v2(2)), "position kept");
	mat R = p.quat.toRotationMatrix();
	CheckEq(R, Mul(Mul(Elem(0, v2(3)), Elem(1, v2(4))), Elem(2, v2(5))), "orientation kept");
	vec6 o = p.toVec6();
	CheckEq(V(o(0), o(1), o(2)), V(v2(0), v2(1), v2(2)), "position back");
	vec e = Quat2Euler(p.quat);
	CheckEq(V(o(3), o(4), o(5)), e, "orientation back");
}
// inclination / heading of a direction vector
VP_HARNESS(h_orientationAngles)
{
	vec v = Vec("v");
	double l2 = v(0) * v(0) + v(1) * v(1);
	Assume(l2 > 1e-4);
	std::pair<double, double> a = orientationAngles(v);
	double n = std::sqrt(Dot(v, v));
	CheckEq(V(n * std::sin(a.first) * std::cos(a.second), n * std::sin(a.first) * std::sin(a.second), n * std::cos(a.first)), v, "spherical angles give the vector");
}
VP_HARNESS(h_unitvector)
{
	vec a = Vec("a"), b = Vec("b"), u = Vec("u");
	vec d = b - a;
	Assume(Dot(d, d) > 0.001);
	double l = unitvector(u, a, b);
	CheckEq(l, std::sqrt(Dot(d, d)), "distance");
	CheckEq(vec(l * u), d, "direction");
	vec y = Vec("y");
	double k = Real("k");
	scalevector(d, k, y);
	CheckEq(vec(l * y), vec(k * d), "scaled vector");
}
