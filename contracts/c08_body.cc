// C08: points and rods on a body move with it as a rigid body
#include "vp_body.hpp"
using namespace moordyn;
using namespace vp;
static vec Head(const vec6& x) { return V(x(0), x(1), x(2)); }
static vec Tail(const vec6& x) { return V(x(3), x(4), x(5)); }
static vec6 Join(const vec& a, const vec& b)
{
	vec6 r;
	for (int i = 0; i < 3; i++) {
		r(i) = a(i);
		r(i + 3) = b(i);
	}
	return r;
}
/// rotation of the body applied to a vector: by its quaternion
static void follows(Body* B, const vec& p, const quaternion& o, const vec& v, const vec& w)
{
	CheckEq(vec(B->r7.pos), p, "position of the body");
	CheckEq(vec6(B->v6), Join(v, w), "velocity of the body");
	CheckEq(Eigen::Matrix<double, 4, 1>(B->r7.quat.coeffs()), Eigen::Matrix<double, 4, 1>(o.coeffs()), "orientation of the body");
	if (Bool("rod")) {
		unsigned j = AnyOf(B->attachedR);
		vec6 rel = B->r6RodRel[j];
		vec arm = Rotated(o, Head(rel)), dir = Rotated(o, Tail(rel));
		if (Ghost()) {
			CheckEq(vec6(BAtts().rr[j]), Join(p + arm, dir), "rod end A and direction on the body", 1e2);
			CheckEq(vec6(BAtts().rv[j]), Join(v + Cross(w, arm), w), "rod end A velocity and rotation on the body", 1e2);
		} else {
			CheckEq(vec(B->attachedR[j]->r7.pos), vec(p + arm), "rod end A and direction on the body", 1e2);
			CheckEq(Head(B->attachedR[j]->v6), vec(v + Cross(w, arm)), "rod end A velocity and rotation on the body", 1e2);
		}
	} else {
		unsigned j = AnyOf(B->attachedP);
		vec arm = Rotated(o, B->rPointRel[j]);
		CheckEq(Ghost() ? vec(BAtts().pr[j]) : vec(B->attachedP[j]->r), vec(p + arm), "point position on the body", 1e2);
		CheckEq(Ghost() ? vec(BAtts().pv[j]) : vec(B->attachedP[j]->rd), vec(v + Cross(w, arm)), "point velocity on the body", 1e2);
	}
}
VP_HARNESS(h_body_free)
{
	Body* B = MakeBody(Body::FREE);
	XYZQuat p = Pose("pin_", "qin_");
	ValidPose(p);
	vec6 v = Vec6("vin_");
	B->setState(p, v);
	follows(B, p.pos, p.quat, Head(v), Tail(v));
}
VP_HARNESS(h_body_pinned)
{
	Body* B = MakeBody(Body::CPLDPIN);
	XYZQuat p = Pose("pin_", "qin_");
	ValidPose(p);
	vec6 v = Vec6("vin_"), x = Vec6("xin_"), vc = Vec6("vcin_"), a = Vec6("ain_");
	double t = Real("time");
	vec al = Tail(B->a6);
	B->initiateStep(x, vc, a);
	B->updateFairlead(t);
	CheckEq(vec6(B->a6), Join(Head(a), al), "acceleration of the pinned reference");
	B->setState(p, v);
	follows(B, V(x(0) + vc(0) * t, x(1) + vc(1) * t, x(2) + vc(2) * t), p.quat, Head(vc), Tail(v));
}
VP_HARNESS(h_body_coupled)
{
	Body* B = MakeBody(Body::COUPLED);
	vec6 x = Vec6("xin_"), v = Vec6("vin_"), a = Vec6("ain_");
	double t = Real("time");
	B->initiateStep(x, v, a);
	B->updateFairlead(t);
	vec6 now;
	for (int i = 0; i < 6; i++) now(i) = x(i) + v(i) * t;
	XYZQuat p = XYZQuat::fromVec6(now);
	Assume(QuatNorm2(p.quat) > 0.01); // = 1 (C02)
	CheckEq(vec6(B->a6), a, "acceleration of the body");
	follows(B, Head(now), p.quat, Head(v), Tail(v));
}
VP_HARNESS(h_body_fixed)
{
	Body* B = MakeBody(Body::FIXED);
	vec6 x = Vec6("xin_"), v = Vec6("vin_"), a = Vec6("ain_");
	B->bodyId = Uint("id", 0, 3);
	bool ground = B->bodyId == 0;
	double t = Real("time");
	B->initiateStep(x, v, a);
	B->updateFairlead(t);
	vec6 now;
	for (int i = 0; i < 6; i++) now(i) = ground ? 0.0 : x(i);
	XYZQuat p = XYZQuat::fromVec6(now);
	Assume(QuatNorm2(p.quat) > 0.01); // = 1 (C02)
	CheckEq(vec6(B->a6), vec6(vec6::Zero()), "a fixed body does not accelerate");
	follows(B, Head(now), p.quat, vec(vec::Zero()), vec(vec::Zero()));
}
template<class F>
static void refused(bool free, bool cpldpin, bool coupled, bool fixed, const char* n, F f)
{
	int t = (int)vp_int_("type", -1, 2);
	Assume((t == 0 && !free) || (t == 2 && !cpldpin) || (t == -1 && !coupled) || (t == 1 && !fixed));
	Body* B = MakeBody((Body::types)t);
	vec r = B->r7.pos;
	vec6 v = B->v6;
	bool thrown = false;
	try {
		f(B);
	} catch (moordyn::invalid_value_error&) {
		thrown = true;
	}
	Check(thrown, n);
	CheckEq(vec(B->r7.pos), r, "position kept");
	CheckEq(vec6(B->v6), v, "velocity kept");
}
VP_HARNESS(h_body_refuse_state)
{
	XYZQuat p = Pose("pin_", "qin_");
	vec6 v = Vec6("vin_");
	refused(true, true, false, false, "state of a body without degrees of freedom", [&](Body* B) { B->setState(p, v); });
}
VP_HARNESS(h_body_refuse_step)
{
	vec6 v = Vec6("vin_");
	refused(false, true, true, true, "imposed motion of a free body", [&](Body* B) { B->initiateStep(v, v, v); });
}
VP_HARNESS(h_body_refuse_fair)
{
	refused(false, true, true, true, "fairlead update of a free body", [&](Body* B) { B->updateFairlead(Real("time")); });
}
