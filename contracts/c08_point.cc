// C08: a point passes its kinematics to the ends of all the lines attached to it
#include "vp_point.hpp"
using namespace moordyn;
using namespace vp;

static void attached(Point* P, const vec& r, const vec& v)
{
	CheckEq(vec(P->r), r, "position of the point");
	CheckEq(vec(P->rd), v, "velocity of the point");
	unsigned j = AnyOf(P->attached);
	EndPoints e = P->attached[j].end_point;
	CheckEq(EndR(0, j, e), r, "line end at the point");
	CheckEq(EndV(0, j, e), v, "line end moves with the point");
	Check(EndOk(0, j, e), "attached end addressed");
}
VP_HARNESS(h_point_state)
{
	Point* P = MakePoint(Point::FREE);
	vec r = Vec("rin"), v = Vec("vin");
	P->setState(r, v);
	attached(P, r, v);
}
VP_HARNESS(h_point_fixed)
{
	Point* P = MakePoint(Point::FIXED);
	vec r = Vec("rin"), v = Vec("vin");
	P->setKinematics(r, v);
	attached(P, r, v);
}
VP_HARNESS(h_point_coupled)
{
	Point* P = MakePoint(Point::COUPLED);
	vec r = Vec("rin"), v = Vec("vin");
	double t = Real("time");
	P->initiateStep(r, v);
	P->updateFairlead(t);
	attached(P, V(r(0) + v(0) * t, r(1) + v(1) * t, r(2) + v(2) * t), v);
}
VP_HARNESS(h_point_init)
{
	Point* P = MakePoint(Point::FREE);
	vec r = P->r, v = P->rd;
	Assume(r(2) >= -P->env->WtrDpth);
	auto s = P->initialize();
	CheckEq(s.first, r, "initial position");
	CheckEq(s.second, v, "initial velocity");
	attached(P, r, v);
}
/// calls that do not fit the type of the point are refused and change nothing
template<class F>
static void refused(Point::types a, const char* n, F f)
{
	int t = (int)vp_int_("type", -1, 1);
	Assume(t != (int)a);
	Point* P = MakePoint((Point::types)t);
	vec r = P->r, v = P->rd;
	bool thrown = false;
	try {
		f(P);
	} catch (moordyn::invalid_value_error&) {
		thrown = true;
	}
	Check(thrown, n);
	CheckEq(vec(P->r), r, "position kept");
	CheckEq(vec(P->rd), v, "velocity kept");
}
VP_HARNESS(h_refuse_state)
{
	refused(Point::FREE, "state of a point that is not free", [](Point* P) { P->setState(Vec("rin"), Vec("vin")); });
}
VP_HARNESS(h_refuse_kin)
{
	refused(Point::FIXED, "kinematics of a point that is not fixed", [](Point* P) { P->setKinematics(Vec("rin"), Vec("vin")); });
}
VP_HARNESS(h_refuse_step)
{
	refused(Point::COUPLED, "step of a point that is not coupled", [](Point* P) { P->initiateStep(Vec("rin"), Vec("vin")); });
}
VP_HARNESS(h_refuse_fair)
{
	refused(Point::COUPLED, "fairlead update of a point that is not coupled", [](Point* P) { P->updateFairlead(Real("time")); });
}
