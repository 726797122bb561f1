// C08: the kinematics a line end receives; every other node is left alone
#include "vp_linestub.hpp"
using namespace moordyn;
using namespace vp;

static Line* AnyLine()
{
	unsigned N = Uint("N", 1, 1000000);
	EnvCondRef env = MakeEnv();
	return MakeLine(N, env, MakeWaves(N + 1));
}
static EndPoints AnyEnd() { return Bool("top") ? ENDPOINT_TOP : ENDPOINT_BOTTOM; }

VP_HARNESS(h_end_kinematics)
{
	Line* L = AnyLine();
	EndPoints e = AnyEnd();
	unsigned k = AnyNode(L), N = L->N, end = e == ENDPOINT_TOP ? N : 0;
	Assume(k != end);
	vec p = Vec("pin_"), v = Vec("vin_"), rk = L->r[k], vk = L->rd[k];
	Line::endTypes a = L->endTypeA, b = L->endTypeB;
	L->setEndKinematics(p, v, e);
	CheckEq(vec(L->r[end]), p, "position of the end node");
	CheckEq(vec(L->rd[end]), v, "velocity of the end node");
	CheckEq(vec(L->r[k]), rk, "other nodes stay");
	CheckEq(vec(L->rd[k]), vk, "other node velocities stay");
	Check((e == ENDPOINT_TOP ? L->endTypeB : L->endTypeA) == Line::PINNED, "end becomes pinned");
	Check((e == ENDPOINT_TOP ? L->endTypeA == a : L->endTypeB == b), "other end type kept");
}
VP_HARNESS(h_end_orientation)
{
	Line* L = AnyLine();
	EndPoints e = AnyEnd(), rod = Bool("rodB") ? ENDPOINT_B : ENDPOINT_A;
	unsigned k = AnyNode(L), N = L->N, end = e == ENDPOINT_TOP ? N : 0;
	Assume(k != end);
	vec d = Vec("dir"), qk = L->q[k], r0 = L->r[k];
	Line::endTypes a = L->endTypeA, b = L->endTypeB;
	L->setEndOrientation(d, e, rod);
	// the node direction follows the line from end A to end B: out of the rod
	// at a bottom end, into the rod at a top end
	bool flip = e == ENDPOINT_TOP ? rod == ENDPOINT_B : rod == ENDPOINT_A;
	CheckEq(vec(L->q[end]), V(flip ? -d(0) : d(0), flip ? -d(1) : d(1), flip ? -d(2) : d(2)), "direction of the end node");
	CheckEq(vec(L->q[k]), qk, "other directions stay");
	CheckEq(vec(L->r[k]), r0, "positions stay");
	Check((e == ENDPOINT_TOP ? L->endTypeB : L->endTypeA) == Line::CANTILEVERED, "end becomes cantilevered");
	Check((e == ENDPOINT_TOP ? L->endTypeA == a : L->endTypeB == b), "other end type kept");
}
VP_HARNESS(h_line_state)
{
	Line* L = AnyLine();
	unsigned N = L->N, k = AnyNode(L);
	std::vector<vec> p, v;
	Vector(p, N - 1, "newpos");
	Vector(v, N - 1, "newvel");
	bool inner = k > 0 && k < N;
	vec rk = L->r[k], vk = L->rd[k];
	if (inner) {
		rk = p[k - 1];
		vk = v[k - 1];
	}
	L->setState(p, v);
	CheckEq(vec(L->r[k]), rk, "inner nodes follow the state, ends stay");
	CheckEq(vec(L->rd[k]), vk, "inner velocities follow the state, ends stay");
}
VP_HARNESS(h_line_state_size)
{
	Line* L = AnyLine();
	unsigned N = L->N, k = AnyNode(L);
	unsigned np = Uint("np", 0, 1000000), nv = Uint("nv", 0, 1000000);
	Assume(np != N - 1 || nv != N - 1);
	std::vector<vec> p, v;
	Vector(p, np, "newpos");
	Vector(v, nv, "newvel");
	vec rk = L->r[k], vk = L->rd[k];
	bool thrown = false;
	try {
		L->setState(p, v);
	} catch (moordyn::invalid_value_error&) {
		thrown = true;
	}
	Check(thrown, "state of the wrong size refused");
	CheckEq(vec(L->r[k]), rk, "positions kept");
	CheckEq(vec(L->rd[k]), vk, "velocities kept");
}
// loads at the line ends, as read by points and rods
VP_HARNESS(h_end_loads)
{
	Line* L = AnyLine();
	L->endMomentA = Vec("mA");
	L->endMomentB = Vec("mB");
	EndPoints e = AnyEnd();
	unsigned end = e == ENDPOINT_TOP ? L->N : 0;
	vec F, m;
	mat M;
	L->getEndStuff(F, m, M, e);
	CheckEq(F, vec(L->Fnet[end]), "end force");
	CheckEq(m, vec(e == ENDPOINT_TOP ? L->endMomentB : L->endMomentA), "end moment");
	CheckEq(M, mat(L->M[end]), "end mass");
}
// bending stiffness over length of the end segment, pointing along the rod
VP_HARNESS(h_end_segment)
{
	unsigned N = Uint("N", 1, 1000000);
	EnvCondRef env = MakeEnv();
	Line* L = MakeLine(N, env, MakeWaves(N + 1));
	EndPoints e = AnyEnd(), rod = Bool("rodB") ? ENDPOINT_B : ENDPOINT_A;
	unsigned i = e == ENDPOINT_TOP ? N - 1 : 0;
	vec dr = Vec("dr");
	double n2 = Dot(dr, dr);
	Assume(n2 > 1e-6);
	L->r[i + 1] = L->r[i] + dr;
	vec m = L->getEndSegmentMoment(e, rod);
	double s = (e == ENDPOINT_TOP) == (rod == ENDPOINT_A) ? L->EI : -L->EI;
	CheckEq(m, V(s * dr(0) / n2, s * dr(1) / n2, s * dr(2) / n2), "end segment moment", 1e2);
}
