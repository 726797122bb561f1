// C11: equation of motion of a body
#include "vp_body.hpp"
#include "vp_motion.hpp"
VP_HARNESS(h_body_motion_free)
{
	Body* B = MakeBody(Body::FREE);
	vec6 v = B->v6;
	quaternion q = B->r7.quat;
#ifndef VP_ENGINE
	mat6 U = Mat<6, 6>("U");
	B->M0 = U * U.transpose() + mat6::Identity();
	B->OrMat = q.normalized().toRotationMatrix();
#endif
	auto out = B->getStateDeriv();
	vec6 a = out.second;
	for (int i = 0; i < 6; i++) {
		double s = 0.0;
		for (int k = 0; k < 6; k++) s += B->M(i, k) * a(k);
		CheckEq(s, B->F6net(i), "mass times acceleration is the load on the body", 1e5);
	}
	CheckEq(vec(out.first.pos), Head(v), "position derivative is the velocity");
	SameRate(out.first.quat, Rate(q, Tail(v)));
	CheckEq(vec6(B->v6), v, "velocity kept");
	CheckEq(vec6(B->a6), a, "acceleration recorded");
}
VP_HARNESS(h_body_motion_pinned)
{
	Body* B = MakeBody(Body::CPLDPIN);
	vec6 v = B->v6;
	vec A = Head(B->a6);
	quaternion q = B->r7.quat;
#ifdef VP_ENGINE
	Invertible(B->M, 3);
#else
	mat6 U = Mat<6, 6>("U");
	B->M0 = U * U.transpose() + mat6::Identity();
	B->OrMat = q.normalized().toRotationMatrix();
#endif
	auto out = B->getStateDeriv();
	vec6 a = out.second;
	for (int i = 3; i < 6; i++) {
		double s = 0.0;
		for (int k = 0; k < 3; k++) s += B->M(i, k) * A(k) + B->M(i, k + 3) * a(k + 3);
		CheckEq(s, B->F6net(i), "rotation of a pinned body about its reference", 1e5);
	}
	CheckEq(Head(a), A, "the coupling accelerates the pinned body");
	CheckEq(vec(out.first.pos), V(0, 0, 0), "pinned reference does not move by itself");
	SameRate(out.first.quat, Rate(q, Tail(v)));
	CheckEq(vec6(B->v6), v, "velocity kept");
}
VP_HARNESS(h_body_motion_refused)
{
	Body* B = MakeBody((Body::types)vp_int_("type", -1, 1));
	Assume(B->type != Body::FREE);
	bool t = false;
	try {
		B->getStateDeriv();
	} catch (...) {
		t = true;
	}
	Check(t, "bodies that carry no state have no state derivative");
}
