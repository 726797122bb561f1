// C16: what the C interface reports about points, rods and bodies
#include "vp_body.hpp"
#include "Point.h"
#include "Rod.h"
#include "Body.h"
#include <iostream>
using namespace moordyn;
using namespace vp;
static void Quiet()
{
#ifndef VP_ENGINE
	std::cerr.setstate(std::ios::failbit);
#endif
}
static void Same(const double a[3], const vec& b, const char* name) { CheckEq(V(a[0], a[1], a[2]), b, name); }
static void Same6(const double a[6], const vec6& b, const char* name)
{
	for (int i = 0; i < 6; i++) CheckEq(a[i], b(i), name);
}
VP_HARNESS(h_point)
{
	Quiet();
	static const Point::types types[] = { Point::COUPLED, Point::FREE, Point::FIXED };
	Point* P = New<Point>(TheLog(), (size_t)0);
	P->number = (int)vp_int_("number", 0, 1000);
	P->type = types[Uint("type", 0, 2)];
	P->r = Vec("r");
	P->rd = Vec("rd");
	P->Fnet = Vec("Fnet");
	P->M = Mat<3, 3>("M");
	MoorDynPoint h = (MoorDynPoint)P;
	int id = -5, t = -5, e = -5;
	unsigned k = 77;
	double v[3] = { 7, 7, 7 }, m[3][3];
	MoorDynLine l = nullptr;
	Check(MoorDyn_GetPointID(nullptr, &id) == MOORDYN_INVALID_VALUE && MoorDyn_GetPointType(nullptr, &t) == MOORDYN_INVALID_VALUE, "no point: rejected");
	Check(MoorDyn_GetPointPos(nullptr, v) == MOORDYN_INVALID_VALUE && MoorDyn_GetPointVel(nullptr, v) == MOORDYN_INVALID_VALUE && MoorDyn_GetPointForce(nullptr, v) == MOORDYN_INVALID_VALUE && MoorDyn_GetPointM(nullptr, m) == MOORDYN_INVALID_VALUE, "no point: rejected");
	Check(MoorDyn_GetPointNAttached(nullptr, &k) == MOORDYN_INVALID_VALUE && MoorDyn_GetPointAttached(nullptr, 0, &l, &e) == MOORDYN_INVALID_VALUE, "no point: rejected");
	Check(id == -5 && t == -5 && e == -5 && k == 77 && v[0] == 7 && l == nullptr, "rejected: nothing written");
	Check(MoorDyn_GetPointID(h, &id) == MOORDYN_SUCCESS && id == P->number, "number");
	Check(MoorDyn_GetPointType(h, &t) == MOORDYN_SUCCESS && t == (int)P->type, "type");
	Check(MoorDyn_GetPointPos(h, v) == MOORDYN_SUCCESS, "position: accepted");
	Same(v, P->r, "position");
	Check(MoorDyn_GetPointVel(h, v) == MOORDYN_SUCCESS, "velocity: accepted");
	Same(v, P->rd, "velocity");
	Check(MoorDyn_GetPointForce(h, v) == MOORDYN_SUCCESS, "force: accepted");
	vec F = P->getFnet();
	Same(v, F, "force");
	Check(MoorDyn_GetPointM(h, m) == MOORDYN_SUCCESS, "mass: accepted");
	for (int a = 0; a < 3; a++) for (int b = 0; b < 3; b++) CheckEq(m[a][b], P->M(a, b), "mass");
}
static void Attached(const unsigned n)
{
	Quiet();
	Point* P = New<Point>(TheLog(), (size_t)0);
	Line* lines[3] = { New<Line>(TheLog(), (size_t)0), New<Line>(TheLog(), (size_t)1), New<Line>(TheLog(), (size_t)2) };
	EndPoints ends[3];
	for (unsigned j = 0; j < 3; j++) ends[j] = Bool(vp_name_("end", j)) ? ENDPOINT_B : ENDPOINT_A;
	for (unsigned j = 0; j < n; j++) P->attached.push_back(Point::attachment{ lines[j], ends[j] });
	MoorDynPoint h = (MoorDynPoint)P;
	unsigned k = 77;
	int e = -5;
	MoorDynLine l = nullptr;
	Check(MoorDyn_GetPointNAttached(h, &k) == MOORDYN_SUCCESS && k == n, "number of lines");
	for (unsigned j = 0; j < 4; j++) {
		l = nullptr;
		e = -5;
		int r = MoorDyn_GetPointAttached(h, j, &l, &e);
		if (j < n) Check(r == MOORDYN_SUCCESS && l == (MoorDynLine)lines[j] && e == (int)ends[j], "attached line and its end");
		else Check(r == MOORDYN_INVALID_VALUE && l == nullptr && e == -5, "no such line: rejected");
	}
}
VP_HARNESS(h_attached_none) { Attached(0); }
VP_HARNESS(h_attached_one) { Attached(1); }
VP_HARNESS(h_attached_three) { Attached(3); }
VP_HARNESS(h_rod)
{
	Quiet();
	static const Rod::types types[] = { Rod::COUPLED, Rod::CPLDPIN, Rod::FREE, Rod::PINNED, Rod::FIXED };
	Rod* R = New<Rod>(TheLog(), (size_t)0);
	unsigned N = Uint("N", 0, VP_SYMBOLIC && !vp_bounded_() ? 1000000 : 5);
	R->number = (int)vp_int_("number", 0, 1000);
	R->type = types[Uint("type", 0, 4)];
	R->N = N;
	Vector(R->r, N + 1, "r");
	Vector(R->rd, N + 1, "rd");
	R->M6net = Mat<6, 6>("M6net");
	MoorDynRod h = (MoorDynRod)R;
	int id = -5, t = -5;
	unsigned n = 77, nn = 77, i = Uint("i", 0, VP_SYMBOLIC && !vp_bounded_() ? 2000000 : 8);
	double v[3] = { 7, 7, 7 }, f[6], m[6][6];
	Check(MoorDyn_GetRodID(nullptr, &id) == MOORDYN_INVALID_VALUE && MoorDyn_GetRodType(nullptr, &t) == MOORDYN_INVALID_VALUE && MoorDyn_GetRodForce(nullptr, f) == MOORDYN_INVALID_VALUE && MoorDyn_GetRodM(nullptr, m) == MOORDYN_INVALID_VALUE, "no rod: rejected");
	Check(MoorDyn_GetRodN(nullptr, &n) == MOORDYN_INVALID_VALUE && MoorDyn_GetRodNumberNodes(nullptr, &nn) == MOORDYN_INVALID_VALUE && MoorDyn_GetRodNodePos(nullptr, i, v) == MOORDYN_INVALID_VALUE && MoorDyn_GetRodNodeVel(nullptr, i, v) == MOORDYN_INVALID_VALUE, "no rod: rejected");
	Check(id == -5 && t == -5 && n == 77 && nn == 77 && v[0] == 7, "rejected: nothing written");
	Check(MoorDyn_GetRodID(h, &id) == MOORDYN_SUCCESS && id == R->number, "number");
	Check(MoorDyn_GetRodType(h, &t) == MOORDYN_SUCCESS && t == (int)R->type, "type");
	Check(MoorDyn_GetRodN(h, &n) == MOORDYN_SUCCESS && n == N, "number of segments");
	Check(MoorDyn_GetRodNumberNodes(h, &nn) == MOORDYN_SUCCESS && nn == N + 1, "number of nodes");
	int e = MoorDyn_GetRodNodePos(h, i, v);
	Check(e == (i > N ? MOORDYN_INVALID_VALUE : MOORDYN_SUCCESS), "position: only nodes of the rod");
	Same(v, i > N ? V(7, 7, 7) : R->r[i], "position of the node");
	v[0] = v[1] = v[2] = 7;
	e = MoorDyn_GetRodNodeVel(h, i, v);
	Check(e == (i > N ? MOORDYN_INVALID_VALUE : MOORDYN_SUCCESS), "velocity: only nodes of the rod");
	Same(v, i > N ? V(7, 7, 7) : R->rd[i], "velocity of the node");
}
VP_HARNESS(h_rod_loads)
{
	Quiet();
	static const Rod::types types[] = { Rod::COUPLED, Rod::CPLDPIN, Rod::FREE, Rod::PINNED, Rod::FIXED };
	Rod* R = New<Rod>(TheLog(), (size_t)0);
	R->type = types[Uint("type", 0, 4)];
	R->M6net = Mat<6, 6>("M6net");
	R->F6net = Vec6("F6net");
	R->acc6 = Vec6("acc6");
	double f[6], m[6][6];
	Check(MoorDyn_GetRodForce((MoorDynRod)R, f) == MOORDYN_SUCCESS, "force: accepted");
	vec6 F = R->getFnet();
	Same6(f, F, "force");
	Check(MoorDyn_GetRodM((MoorDynRod)R, m) == MOORDYN_SUCCESS, "mass: accepted");
	for (int a = 0; a < 6; a++) for (int b = 0; b < 6; b++) CheckEq(m[a][b], R->M6net(a, b), "mass");
}
VP_HARNESS(h_body)
{
	Quiet();
	static const Body::types types[] = { Body::COUPLED, Body::FREE, Body::FIXED, Body::CPLDPIN };
	Body* B = New<Body>(TheLog(), (size_t)0);
	B->number = (int)vp_int_("number", 0, 1000);
	B->type = types[Uint("type", 0, 3)];
	B->r7 = Pose("r7p", "r7q");
	B->v6 = Vec6("v6");
	B->F6net = Vec6("F6net");
	B->M = Mat<6, 6>("M");
	B->a6 = Vec6("a6");
	MoorDynBody h = (MoorDynBody)B;
	int id = -5, t = -5;
	double v[3] = { 7, 7, 7 }, f[6] = { 7, 7, 7, 7, 7, 7 }, m[6][6];
	Check(MoorDyn_GetBodyID(nullptr, &id) == MOORDYN_INVALID_VALUE && MoorDyn_GetBodyType(nullptr, &t) == MOORDYN_INVALID_VALUE && MoorDyn_GetBodyForce(nullptr, f) == MOORDYN_INVALID_VALUE && MoorDyn_GetBodyM(nullptr, m) == MOORDYN_INVALID_VALUE, "no body: rejected");
	Check(MoorDyn_GetBodyState(nullptr, f, f) == MOORDYN_INVALID_VALUE && MoorDyn_GetBodyPos(nullptr, v) == MOORDYN_INVALID_VALUE && MoorDyn_GetBodyAngle(nullptr, v) == MOORDYN_INVALID_VALUE && MoorDyn_GetBodyVel(nullptr, v) == MOORDYN_INVALID_VALUE && MoorDyn_GetBodyAngVel(nullptr, v) == MOORDYN_INVALID_VALUE, "no body: rejected");
	Check(id == -5 && t == -5 && v[0] == 7 && f[0] == 7, "rejected: nothing written");
	Check(MoorDyn_GetBodyID(h, &id) == MOORDYN_SUCCESS && id == B->number, "number");
	Check(MoorDyn_GetBodyType(h, &t) == MOORDYN_SUCCESS && t == (int)B->type, "type");
	Check(MoorDyn_GetBodyPos(h, v) == MOORDYN_SUCCESS, "position: accepted");
	Same(v, B->r7.pos, "position");
	Check(MoorDyn_GetBodyVel(h, v) == MOORDYN_SUCCESS, "velocity: accepted");
	Same(v, V(B->v6(0), B->v6(1), B->v6(2)), "velocity");
	Check(MoorDyn_GetBodyAngVel(h, v) == MOORDYN_SUCCESS, "angular velocity: accepted");
	Same(v, V(B->v6(3), B->v6(4), B->v6(5)), "angular velocity");
	Check(MoorDyn_GetBodyForce(h, f) == MOORDYN_SUCCESS, "force: accepted");
	vec6 F = B->getFnet();
	Same6(f, F, "force");
	Check(MoorDyn_GetBodyM(h, m) == MOORDYN_SUCCESS, "mass: accepted");
	for (int a = 0; a < 6; a++) for (int b = 0; b < 6; b++) CheckEq(m[a][b], B->M(a, b), "mass");
	double r[6], rd[6];
	vec ang = Quat2Euler(B->r7.quat);
	Check(MoorDyn_GetBodyAngle(h, v) == MOORDYN_SUCCESS, "angles: accepted");
	Same(v, ang, "angles");
	Check(MoorDyn_GetBodyState(h, r, rd) == MOORDYN_SUCCESS, "state: accepted");
	Same6(rd, B->v6, "velocities of the state");
	Same(r, B->r7.pos, "position of the state");
	Same(r + 3, ang, "angles of the state");
}
