// C08: rods pass their kinematics and direction to the attached line ends
#include "vp_rod.hpp"
using namespace moordyn;
using namespace vp;
#ifdef VP_ENGINE
extern "C" void stub_setEndOrientation(moordyn::Line* L, moordyn::vec q, moordyn::EndPoints e, moordyn::EndPoints rod)
{
	vp::Att& a = vp::Atts()[vp_group_(L)];
	std::uint64_t i = vp_index_(L);
	bool flip = e == ENDPOINT_B ? rod == ENDPOINT_B : rod == ENDPOINT_A;
	for (int k = 0; k < 3; k++) a.q[i](k) = flip ? -q(k) : q(k);
	a.gotrod[i] = (e == moordyn::ENDPOINT_B ? 1.0 : 0.0);
}
#endif
static vec EndDir(int g, unsigned j, EndPoints e)
{
	Att& a = Atts()[g];
	if (Ghost()) return a.q[j];
	Line* L = a.real[j];
	return e == ENDPOINT_B ? L->q[L->N] : L->q[0];
}

/// postcondition of every call that moves a rod of finite length
static void moved(Rod* R, const vec& p, const quaternion& o, const vec& v, const vec& w)
{
	vec d = Rotated(o, R->q0);
	double L = R->UnstrLen;
	vec arm = V(L * d(0), L * d(1), L * d(2));
	vec a = p, b = p + arm;
	vec vb = v + Cross(w, arm);
	unsigned N = R->N;
	CheckEq(vec(R->r[0]), a, "end A of the rod");
	CheckEq(vec(R->rd[0]), v, "velocity of end A");
	CheckEq(vec(R->r[N]), b, "end B of the rod");
	CheckEq(vec(R->rd[N]), vb, "velocity of end B");
	CheckEq(vec(R->q), d, "direction of the rod");
	if (Bool("atB")) {
		unsigned j = AnyOf(R->attachedB);
		EndPoints e = R->attachedB[j].end_point;
		CheckEq(EndR(1, j, e), b, "line end at rod end B");
		CheckEq(EndV(1, j, e), vb, "line end moves with rod end B");
		Check(EndOk(1, j, e), "attached end addressed at rod end B");
		CheckEq(EndDir(1, j, e), vec(e == ENDPOINT_B ? vec(-d) : d), "line direction at rod end B");
	} else {
		unsigned j = AnyOf(R->attachedA);
		EndPoints e = R->attachedA[j].end_point;
		CheckEq(EndR(0, j, e), a, "line end at rod end A");
		CheckEq(EndV(0, j, e), v, "line end moves with rod end A");
		Check(EndOk(0, j, e), "attached end addressed at rod end A");
		CheckEq(EndDir(0, j, e), vec(e == ENDPOINT_B ? d : vec(-d)), "line direction at rod end A");
	}
}
static Rod* Setup(Rod::types t)
{
	EnvCondRef env = MakeEnv();
	unsigned N = Uint("N", 1, 1000000);
	WavesRef w = MakeRodWaves(N + 1);
	Rod* R = MakeRod(t, N, env, w);
	Attach(R->attachedA, 0, env, w);
	Attach(R->attachedB, 1, env, w);
	return R;
}
static vec Head(const vec6& x) { return V(x(0), x(1), x(2)); }
static vec Tail(const vec6& x) { return V(x(3), x(4), x(5)); }

VP_HARNESS(h_rod_free)
{
	Rod* R = Setup(Rod::FREE);
	XYZQuat p = Pose("pin_", "qin_");
	ValidPose(p);
	vec6 v = Vec6("vin_");
	R->setState(p, v);
	moved(R, p.pos, p.quat, Head(v), Tail(v));
}
VP_HARNESS(h_rod_pinned)
{
	Rod* R = Setup(Bool("cpld") ? Rod::CPLDPIN : Rod::PINNED);
	XYZQuat p = Pose("pin_", "qin_");
	ValidPose(p);
	vec6 v = Vec6("vin_");
	vec a = R->r7.pos, va = Head(R->v6);
	R->setState(p, v);
	moved(R, a, p.quat, va, Tail(v));
}
// pinned to a body, then given its rotation
VP_HARNESS(h_rod_pinned_kin)
{
	Rod* R = Setup(Bool("cpld") ? Rod::CPLDPIN : Rod::PINNED);
	ValidPose(R->r7);
	quaternion o = R->r7.quat;
	vec6 x = Vec6("xin_"), v = Vec6("vin_");
	vec w = Tail(R->v6);
	R->setKinematics(x, v);
	CheckEq(vec(R->r7.pos), Head(x), "end A follows the body");
	CheckEq(Head(R->v6), Head(v), "end A velocity follows the body");
	CheckEq(Tail(R->v6), w, "rotation rate kept");
	CheckEq(Eigen::Matrix<double, 4, 1>(R->r7.quat.coeffs()), Eigen::Matrix<double, 4, 1>(o.coeffs()), "rotation kept");
}
VP_HARNESS(h_rod_coupled)
{
	Rod* R = Setup(Rod::COUPLED);
	ValidPose(R->r7);
	vec6 x = Vec6("xin_"), v = Vec6("vin_"), a = Vec6("ain_");
	double t = Real("time");
	R->initiateStep(x, v, a);
	R->updateFairlead(t);
	vec6 now;
	for (int i = 0; i < 6; i++) now(i) = x(i) + v(i) * t;
	XYZQuat p = XYZQuat::fromVec6(now);
	CheckEq(vec(R->r7.pos), Head(now), "position imposed");
	CheckEq(Eigen::Matrix<double, 4, 1>(R->r7.quat.coeffs()), Eigen::Matrix<double, 4, 1>(p.quat.coeffs()), "orientation imposed");
	CheckEq(vec6(R->v6), v, "velocity imposed");
	CheckEq(vec6(R->acc6), a, "acceleration imposed");
}
VP_HARNESS(h_rod_cpldpin)
{
	Rod* R = Setup(Rod::CPLDPIN);
	ValidPose(R->r7);
	quaternion o = R->r7.quat;
	vec6 x = Vec6("xin_"), v = Vec6("vin_"), a = Vec6("ain_");
	vec w = Tail(R->v6), al = Tail(R->acc6);
	double t = Real("time");
	R->initiateStep(x, v, a);
	R->updateFairlead(t);
	CheckEq(vec(R->r7.pos), V(x(0) + v(0) * t, x(1) + v(1) * t, x(2) + v(2) * t), "end A imposed");
	CheckEq(Head(R->v6), Head(v), "end A velocity imposed");
	CheckEq(Tail(R->v6), w, "rotation rate kept");
	CheckEq(Head(R->acc6), Head(a), "end A acceleration imposed");
	CheckEq(Tail(R->acc6), al, "rotational acceleration kept");
	CheckEq(Eigen::Matrix<double, 4, 1>(R->r7.quat.coeffs()), Eigen::Matrix<double, 4, 1>(o.coeffs()), "rotation kept");
}
// whatever moved the rod, its dependent nodes and lines follow its pose
VP_HARNESS(h_rod_dependent)
{
	Rod* R = Setup((Rod::types)vp_int_("type", -2, 1));
	ValidPose(R->r7);
	XYZQuat p = R->r7;
	vec v = Head(R->v6), w = Tail(R->v6);
	R->setDependentStates();
	moved(R, p.pos, p.quat, v, w);
}
