// C16: what the C interface reports about a line, for lines of any length
#include "vp_line.hpp"
#include "Line.h"
#include <iostream>
using namespace moordyn;
using namespace vp;
static Line* AnyLine()
{
#ifndef VP_ENGINE
	std::cerr.setstate(std::ios::failbit);
#endif
	unsigned N = Uint("N", 1, VP_SYMBOLIC && !vp_bounded_() ? 1000000 : 5);
	return MakeLine(N, nullptr, nullptr);
}
static void Same(const double a[3], const vec& b, const char* name) { CheckEq(V(a[0], a[1], a[2]), b, name); }
/// a query of one node: rejected outside the line and then without touching the result
#define NODE(f, expected)                                                                                              \
	VP_HARNESS(h_##f)                                                                                                  \
	{                                                                                                                  \
		Line* L = AnyLine();                                                                                           \
		unsigned i = Uint("i", 0, VP_SYMBOLIC && !vp_bounded_() ? 2000000 : 8);                                        \
		double v[3] = { 1, 2, 3 };                                                                                     \
		Check(MoorDyn_##f(nullptr, i, v) == MOORDYN_INVALID_VALUE, "no line: rejected");                               \
		int e = MoorDyn_##f((MoorDynLine)L, i, v);                                                                     \
		if (i > L->N) {                                                                                                \
			Check(e == MOORDYN_INVALID_VALUE, "node outside the line: rejected");                                      \
			Same(v, V(1, 2, 3), "rejected: nothing written");                                                          \
		} else {                                                                                                       \
			Check(e == MOORDYN_SUCCESS, "node of the line: accepted");                                                 \
			Same(v, expected, "value of the node");                                                                    \
		}                                                                                                              \
	}
static vec Tension(Line* L, unsigned i)
{
	if (i == 0) return L->T[0] + L->Td[0];
	if (i == L->N) return L->T[i - 1] + L->Td[i - 1];
	return 0.5 * (L->T[i - 1] + L->Td[i - 1]) + 0.5 * (L->T[i] + L->Td[i]);
}
NODE(GetLineNodePos, L->r[i])
NODE(GetLineNodeVel, L->rd[i])
NODE(GetLineNodeForce, L->Fnet[i])
NODE(GetLineNodeTen, Tension(L, i))
NODE(GetLineNodeBendStiff, L->Bs[i])
NODE(GetLineNodeWeight, L->W[i])
NODE(GetLineNodeDrag, L->Dp[i] + L->Dq[i])
NODE(GetLineNodeFroudeKrilov, L->Ap[i] + L->Aq[i])
NODE(GetLineNodeSeabedForce, L->B[i])
VP_HARNESS(h_GetLineNodeCurv)
{
	Line* L = AnyLine();
	unsigned i = Uint("i", 0, VP_SYMBOLIC && !vp_bounded_() ? 2000000 : 8);
	double k = 7;
	Check(MoorDyn_GetLineNodeCurv(nullptr, i, &k) == MOORDYN_INVALID_VALUE, "no line: rejected");
	int e = MoorDyn_GetLineNodeCurv((MoorDynLine)L, i, &k);
	Check(e == (i > L->N ? MOORDYN_INVALID_VALUE : MOORDYN_SUCCESS), "only nodes of the line");
	CheckEq(k, i > L->N ? 7.0 : L->Kurv[i], "curvature of the node");
}
VP_HARNESS(h_GetLineNodeM)
{
	Line* L = AnyLine();
	unsigned i = Uint("i", 0, VP_SYMBOLIC && !vp_bounded_() ? 2000000 : 8);
	double m[3][3];
	for (int a = 0; a < 3; a++) for (int b = 0; b < 3; b++) m[a][b] = 7;
	Check(MoorDyn_GetLineNodeM(nullptr, i, m) == MOORDYN_INVALID_VALUE, "no line: rejected");
	int e = MoorDyn_GetLineNodeM((MoorDynLine)L, i, m);
	Check(e == (i > L->N ? MOORDYN_INVALID_VALUE : MOORDYN_SUCCESS), "only nodes of the line");
	for (int a = 0; a < 3; a++)
		for (int b = 0; b < 3; b++) CheckEq(m[a][b], i > L->N ? 7.0 : L->M[i](a, b), "mass of the node");
}
VP_HARNESS(h_line_scalars)
{
	Line* L = AnyLine();
	MoorDynLine h = (MoorDynLine)L;
	int id = -5, b = -5;
	unsigned n = 77, nn = 77;
	double len = -5, ea = -5, ten = -5;
	L->number = (int)vp_int_("number", 0, 1000);
	L->nEApoints = Uint("nEA", 0, 3);
	L->isPb = Bool("isPb");
	Check(MoorDyn_GetLineID(nullptr, &id) == MOORDYN_INVALID_VALUE && MoorDyn_GetLineN(nullptr, &n) == MOORDYN_INVALID_VALUE && MoorDyn_GetLineNumberNodes(nullptr, &nn) == MOORDYN_INVALID_VALUE, "no line: rejected");
	Check(MoorDyn_GetLineUnstretchedLength(nullptr, &len) == MOORDYN_INVALID_VALUE && MoorDyn_IsLineConstantEA(nullptr, &b) == MOORDYN_INVALID_VALUE && MoorDyn_GetLineConstantEA(nullptr, &ea) == MOORDYN_INVALID_VALUE, "no line: rejected");
	Check(MoorDyn_IsLinePressBend(nullptr, &b) == MOORDYN_INVALID_VALUE && MoorDyn_GetLineFairTen(nullptr, &ten) == MOORDYN_INVALID_VALUE && MoorDyn_GetLineMaxTen(nullptr, &ten) == MOORDYN_INVALID_VALUE, "no line: rejected");
	Check(id == -5 && b == -5 && n == 77 && nn == 77 && len == -5 && ea == -5 && ten == -5, "rejected: nothing written");
	Check(MoorDyn_GetLineID(h, &id) == MOORDYN_SUCCESS && id == L->number, "number of the line");
	Check(MoorDyn_GetLineN(h, &n) == MOORDYN_SUCCESS && n == L->N, "number of segments");
	Check(MoorDyn_GetLineNumberNodes(h, &nn) == MOORDYN_SUCCESS && nn == L->N + 1, "number of nodes");
	Check(MoorDyn_GetLineUnstretchedLength(h, &len) == MOORDYN_SUCCESS, "length: accepted");
	CheckEq(len, L->UnstrLen, "unstretched length");
	Check(MoorDyn_IsLineConstantEA(h, &b) == MOORDYN_SUCCESS && (b != 0) == (L->nEApoints == 0), "constant stiffness");
	Check(MoorDyn_GetLineConstantEA(h, &ea) == MOORDYN_SUCCESS, "stiffness: accepted");
	CheckEq(ea, L->E * L->A, "axial stiffness");
	Check(MoorDyn_IsLinePressBend(h, &b) == MOORDYN_SUCCESS && (b != 0) == L->isPb, "pressure bending");
	Check(MoorDyn_GetLineFairTen(h, &ten) == MOORDYN_SUCCESS, "fairlead tension: accepted");
	vec T = Tension(L, L->N);
	CheckEq(ten * ten, Dot(T, T), "fairlead tension");
	Check(ten >= 0, "fairlead tension: not negative");
}
static void MaxTension(int which)
{
	Line* L = AnyLine();
	unsigned i = Uint("i", 0, VP_SYMBOLIC && !vp_bounded_() ? 1000000 : 5);
	if (which == 0) i = 0;
	else if (which == 1) i = L->N;
	else Assume(0 < i && i < L->N);
	double t = -1;
	Check(MoorDyn_GetLineMaxTen((MoorDynLine)L, &t) == MOORDYN_SUCCESS, "accepted");
	vec T = which == 0   ? vec(L->T[0] + L->Td[0])
	        : which == 1 ? vec(L->T[L->N - 1] + L->Td[L->N - 1])
	                     : vec(0.5 * (L->T[i - 1] + L->Td[i - 1]) + 0.5 * (L->T[i] + L->Td[i]));
	Check(t >= 0, "not negative");
	CheckLe(std::sqrt(Dot(T, T)), t, "no node has more");
}
VP_HARNESS(h_max_tension_anchor) { MaxTension(0); }
VP_HARNESS(h_max_tension_fairlead) { MaxTension(1); }
VP_HARNESS(h_max_tension_inner) { MaxTension(2); }
VP_HARNESS(h_set_length)
{
	Line* L = AnyLine();
	MoorDynLine h = (MoorDynLine)L;
	unsigned i = Uint("i", 0, VP_SYMBOLIC && !vp_bounded_() ? 1000000 : 5);
	Assume(i < L->N);
	double len = Pos("len"), v = Real("v"), dt = Pos("dt"), got = 0;
	Check(MoorDyn_SetLineUnstretchedLength(nullptr, len) == MOORDYN_INVALID_VALUE && MoorDyn_SetLineUnstretchedLengthVel(nullptr, v) == MOORDYN_INVALID_VALUE, "no line: rejected");
	Check(MoorDyn_SetLineUnstretchedLength(h, len) == MOORDYN_SUCCESS, "accepted");
	MoorDyn_GetLineUnstretchedLength(h, &got);
	CheckEq(got, len, "length that was set");
	CheckEq(L->l[i] * L->N, len, "every segment has its share");
	CheckEq(L->V[i], L->A * L->l[i], "volume of the segment");
	// paying out: the length at the start of a step plus speed times time
	Check(MoorDyn_SetLineUnstretchedLengthVel(h, v) == MOORDYN_SUCCESS, "speed: accepted");
	L->updateUnstretchedLength();
	MoorDyn_GetLineUnstretchedLength(h, &got);
	CheckEq(got, len, "length at the start of the step");
	L->updateUnstretchedLength(0.5 * dt);
	L->updateUnstretchedLength(dt);
	MoorDyn_GetLineUnstretchedLength(h, &got);
	CheckEq(got, len + v * dt, "length after paying out");
	CheckEq(L->l[i] * L->N, len + v * dt, "every segment has its share after paying out");
	CheckEq(L->V[i], L->A * L->l[i], "volume of the segment after paying out");
}
VP_HARNESS(h_set_others)
{
	Line* L = AnyLine();
	MoorDynLine h = (MoorDynLine)L;
	double ea = NonNeg("ea"), got = 0;
	int b = 5, to = (int)vp_int_("to", -2, 2);
	Check(MoorDyn_SetLineConstantEA(nullptr, ea) == MOORDYN_INVALID_VALUE && MoorDyn_SetLinePressBend(nullptr, to) == MOORDYN_INVALID_VALUE, "no line: rejected");
	Check(MoorDyn_SetLineConstantEA(h, ea) == MOORDYN_SUCCESS, "stiffness: accepted");
	MoorDyn_GetLineConstantEA(h, &got);
	CheckEq(got, ea, "stiffness that was set");
	CheckEq(L->E * L->A, ea, "stiffness in use");
	Check(MoorDyn_SetLinePressBend(h, to) == MOORDYN_SUCCESS, "pressure bending: accepted");
	MoorDyn_IsLinePressBend(h, &b);
	Check((b != 0) == (to != 0) && L->isPb == (to != 0), "pressure bending that was set");
}
VP_HARNESS(h_set_pressure)
{
	Line* L = AnyLine();
	std::vector<double> p;
	Vector(p, L->N + 1, "p");
	unsigned i = Uint("i", 0, VP_SYMBOLIC && !vp_bounded_() ? 1000000 : 5);
	Assume(i <= L->N);
	Check(MoorDyn_SetLinePressInt(nullptr, p.data()) == MOORDYN_INVALID_VALUE, "no line: rejected");
	Check(MoorDyn_SetLinePressInt((MoorDynLine)L, p.data()) == MOORDYN_SUCCESS, "accepted");
	Check(L->pin.size() == L->N + 1, "one pressure per node");
	CheckEq(L->pin[i], p[i], "pressure of the node");
}
