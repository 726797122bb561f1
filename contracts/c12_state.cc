// C12: the arithmetic on system states that the time schemes are written in
#include "vp_state.hpp"
using namespace moordyn;
using namespace vp;
/// x = f(y, z), number by number, for every object of the system; first and
/// second are the parts of x, first1 and second1 those of y and z
template<class S, class A, class B, class P, class Q, class P1, class Q1, class F>
static void compare(S& x, A& y, B& z, const Sizes& n, P first, Q second, P1 first1, Q1 second1, F f)
{
	Check(x.lines.size() == n.lines && x.points.size() == n.points && x.rods.size() == n.rods && x.bodies.size() == n.bodies, "same objects");
	unsigned k = Uint("k", 0, 1000000);
	if (n.lines) {
		auto& l = x.lines[0];
		Check(first(l).size() == n.nodes && second(l).size() == n.nodes, "same nodes");
		if (k < n.nodes) {
			Each<3>(first(l)[k], first1(y.lines[0])[k], first1(z.lines[0])[k], f, "line node, position part");
			Each<3>(second(l)[k], second1(y.lines[0])[k], second1(z.lines[0])[k], f, "line node, velocity part");
		}
	}
	if (k < n.points) {
		Each<3>(first(x.points[k]), first1(y.points[k]), first1(z.points[k]), f, "point, position part");
		Each<3>(second(x.points[k]), second1(y.points[k]), second1(z.points[k]), f, "point, velocity part");
	}
	if (k < n.rods) {
		Each<7>(V7(first(x.rods[k])), V7(first1(y.rods[k])), V7(first1(z.rods[k])), f, "rod, position part");
		Each<6>(second(x.rods[k]), second1(y.rods[k]), second1(z.rods[k]), f, "rod, velocity part");
	}
	if (k < n.bodies) {
		Each<7>(V7(first(x.bodies[k])), V7(first1(y.bodies[k])), V7(first1(z.bodies[k])), f, "body, position part");
		Each<6>(second(x.bodies[k]), second1(y.bodies[k]), second1(z.bodies[k]), f, "body, velocity part");
	}
}
template<class S, class A, class B, class P, class Q, class F>
static void compare(S& x, A& y, B& z, const Sizes& n, P first, Q second, F f)
{
	compare(x, y, z, n, first, second, first, second, f);
}
struct Pos_ { template<class T> auto& operator()(T& x) const { return x.pos; } };
struct Vel_ { template<class T> auto& operator()(T& x) const { return x.vel; } };
struct Acc_ { template<class T> auto& operator()(T& x) const { return x.acc; } };

VP_HARNESS(h_state_add)
{
	Sizes n = AnySizes();
	MoorDynState a, b;
	AnyState(a, n, 0);
	AnyState(b, n, 1);
	MoorDynState c = a + b;
	compare(c, a, b, n, Pos_(), Vel_(), [](double y, double z) { return y + z; });
}
VP_HARNESS(h_state_sub)
{
	Sizes n = AnySizes();
	MoorDynState a, b;
	AnyState(a, n, 0);
	AnyState(b, n, 1);
	MoorDynState c = a - b;
	compare(c, a, b, n, Pos_(), Vel_(), [](double y, double z) { return y - z; });
}
VP_HARNESS(h_state_copy)
{
	Sizes n = AnySizes();
	MoorDynState a, b;
	AnyState(a, n, 0);
	b = a;
	compare(b, a, a, n, Pos_(), Vel_(), [](double y, double) { return y; });
}
VP_HARNESS(h_state_mix)
{
	Sizes n = AnySizes();
	MoorDynState a, b, o;
	AnyState(a, n, 0);
	AnyState(b, n, 1);
	double f = Real("f", 0, 1);
	o = a;
	a.Mix(b, f);
	compare(a, o, b, n, Pos_(), Vel_(), [f](double y, double z) { return y * (1.0 - f) + z * f; });
}
VP_HARNESS(h_deriv_add)
{
	Sizes n = AnySizes();
	DMoorDynStateDt a, b;
	AnyState(a, n, 0);
	AnyState(b, n, 1);
	DMoorDynStateDt c = a + b;
	compare(c, a, b, n, Vel_(), Acc_(), [](double y, double z) { return y + z; });
}
VP_HARNESS(h_deriv_sub)
{
	Sizes n = AnySizes();
	DMoorDynStateDt a, b;
	AnyState(a, n, 0);
	AnyState(b, n, 1);
	DMoorDynStateDt c = a - b;
	compare(c, a, b, n, Vel_(), Acc_(), [](double y, double z) { return y - z; });
}
VP_HARNESS(h_deriv_copy)
{
	Sizes n = AnySizes();
	DMoorDynStateDt a, b;
	AnyState(a, n, 0);
	b = a;
	compare(b, a, a, n, Vel_(), Acc_(), [](double y, double) { return y; });
}
VP_HARNESS(h_deriv_mix)
{
	Sizes n = AnySizes();
	DMoorDynStateDt a, b, o;
	AnyState(a, n, 0);
	AnyState(b, n, 1);
	double f = Real("f", 0, 1);
	o = a;
	a.Mix(b, f);
	compare(a, o, b, n, Vel_(), Acc_(), [f](double y, double z) { return y * (1.0 - f) + z * f; });
}

VP_HARNESS(h_deriv_scale)
{
	Sizes n = AnySizes();
	DMoorDynStateDt a;
	AnyState(a, n, 0);
	double dt = Real("dt");
	MoorDynState c = a * dt;
	compare(c, a, a, n, Pos_(), Vel_(), Vel_(), Acc_(), [dt](double y, double) { return y * dt; });
}
static vec H3(const XYZQuat& x) { return x.pos; }
static vec H3(const vec6& x) { return V(x(0), x(1), x(2)); }
// the velocity part is replaced by half a step of acceleration and the acceleration vanishes
VP_HARNESS(h_deriv_stationary)
{
	Sizes n = AnySizes();
	DMoorDynStateDt a, o;
	AnyState(a, n, 0);
	o = a;
	double dt = Real("dt"), s = 0.0;
	for (unsigned i = 0; i < n.lines; i++)
		for (unsigned j = 0; j < n.nodes; j++) s += std::sqrt(Dot(o.lines[i].acc[j], o.lines[i].acc[j]));
	for (unsigned i = 0; i < n.points; i++) s += std::sqrt(Dot(o.points[i].acc, o.points[i].acc));
	for (unsigned i = 0; i < n.rods; i++) s += std::sqrt(Dot(H3(o.rods[i].acc), H3(o.rods[i].acc)));
	for (unsigned i = 0; i < n.bodies; i++) s += std::sqrt(Dot(H3(o.bodies[i].acc), H3(o.bodies[i].acc)));
	double e = a.MakeStationary(dt);
	CheckEq(e, s, "sum of the accelerations");
	unsigned k = Uint("k", 0, 1000000);
	auto half = [dt](double y, double) { return 0.5 * dt * y; };
	auto none = [](double, double) { return 0.0; };
	if (n.lines && k < n.nodes) {
		Each<3>(a.lines[0].vel[k], o.lines[0].acc[k], o.lines[0].acc[k], half, "line node creeps along its acceleration");
		Each<3>(a.lines[0].acc[k], o.lines[0].acc[k], o.lines[0].acc[k], none, "line node takes no velocity");
	}
	if (k < n.points) {
		Each<3>(a.points[k].vel, o.points[k].acc, o.points[k].acc, half, "point creeps along its acceleration");
		Each<3>(a.points[k].acc, o.points[k].acc, o.points[k].acc, none, "point takes no velocity");
	}
	if (k < n.rods) {
		Each<3>(a.rods[k].vel.pos, H3(o.rods[k].acc), H3(o.rods[k].acc), half, "rod creeps along its acceleration");
		Each<6>(a.rods[k].acc, o.rods[k].acc, o.rods[k].acc, none, "rod takes no velocity");
	}
	if (k < n.bodies) {
		Each<3>(a.bodies[k].vel.pos, H3(o.bodies[k].acc), H3(o.bodies[k].acc), half, "body creeps along its acceleration");
		Each<6>(a.bodies[k].acc, o.bodies[k].acc, o.bodies[k].acc, none, "body takes no velocity");
	}
}
// v + h (p a + (1 - p) b) scaled, acceleration (1 - g) a + g b
template<class F>
static void blend(DMoorDynStateDt& c, DMoorDynStateDt& a, DMoorDynStateDt& b, const Sizes& n, F inc, double g)
{
	unsigned k = Uint("k", 0, 1000000);
	auto acc = [g](double y, double z) { return (1.0 - g) * y + g * z; };
	auto vel = [&](const vec& v, const vec& p, const vec& q) { return V(v(0) + inc(p(0), q(0)), v(1) + inc(p(1), q(1)), v(2) + inc(p(2), q(2))); };
	if (n.lines && k < n.nodes) {
		CheckEq(c.lines[0].vel[k], vel(a.lines[0].vel[k], a.lines[0].acc[k], b.lines[0].acc[k]), "line node velocity");
		Each<3>(c.lines[0].acc[k], a.lines[0].acc[k], b.lines[0].acc[k], acc, "line node acceleration");
	}
	if (k < n.points) {
		CheckEq(c.points[k].vel, vel(a.points[k].vel, a.points[k].acc, b.points[k].acc), "point velocity");
		Each<3>(c.points[k].acc, a.points[k].acc, b.points[k].acc, acc, "point acceleration");
	}
	if (k < n.rods) {
		CheckEq(H3(c.rods[k].vel), vel(H3(a.rods[k].vel), H3(a.rods[k].acc), H3(b.rods[k].acc)), "rod velocity");
		Each<6>(c.rods[k].acc, a.rods[k].acc, b.rods[k].acc, acc, "rod acceleration");
	}
	if (k < n.bodies) {
		CheckEq(H3(c.bodies[k].vel), vel(H3(a.bodies[k].vel), H3(a.bodies[k].acc), H3(b.bodies[k].acc)), "body velocity");
		Each<6>(c.bodies[k].acc, a.bodies[k].acc, b.bodies[k].acc, acc, "body acceleration");
	}
}
VP_HARNESS(h_deriv_newmark)
{
	Sizes n = AnySizes();
	DMoorDynStateDt a, b;
	AnyState(a, n, 0);
	AnyState(b, n, 1);
	double dt = Real("dt"), g = Real("gamma", 0, 1), be = Real("beta", 0, 1);
	DMoorDynStateDt c = a.Newmark(b, dt, g, be);
	blend(c, a, b, n, [&](double p, double q) { return dt * ((0.5 - be) * p + be * q); }, g);
}
VP_HARNESS(h_deriv_wilson)
{
	Sizes n = AnySizes();
	DMoorDynStateDt a, b;
	AnyState(a, n, 0);
	AnyState(b, n, 1);
	double tau = Pos("tau"), dt = Pos("dt");
	DMoorDynStateDt c = a.Wilson(b, tau, dt);
	double f = tau / dt;
	blend(c, a, b, n, [&](double p, double q) { return 0.5 * tau * ((1.0 - f / 3.0) * p + f / 3.0 * q); }, 0.5 * f);
}
// states of different systems do not mix
template<class S, class F>
static void mismatch(F op)
{
	Sizes n = AnySizes(), m = n;
	m.nodes = Uint("nodes2", 0, VP_SYMBOLIC && !vp_bounded_() ? 1000000 : 3);
	m.points = Uint("points2", 0, VP_SYMBOLIC && !vp_bounded_() ? 1000000 : 3);
	m.rods = Uint("rods2", 0, VP_SYMBOLIC && !vp_bounded_() ? 1000000 : 3);
	m.bodies = Uint("bodies2", 0, VP_SYMBOLIC && !vp_bounded_() ? 1000000 : 3);
	S a, b;
	AnyState(a, n, 0);
	AnyState(b, m, 1);
	bool t = false;
	try {
		op(a, b);
	} catch (moordyn::invalid_value_error&) {
		t = true;
	}
	Check(t == (n.nodes != m.nodes || n.points != m.points || n.rods != m.rods || n.bodies != m.bodies), "states of different sizes are refused");
}
VP_HARNESS(h_sizes_state_add) { mismatch<MoorDynState>([](MoorDynState& a, MoorDynState& b) { MoorDynState c = a + b; }); }
VP_HARNESS(h_sizes_state_sub) { mismatch<MoorDynState>([](MoorDynState& a, MoorDynState& b) { MoorDynState c = a - b; }); }
VP_HARNESS(h_sizes_deriv_add) { mismatch<DMoorDynStateDt>([](DMoorDynStateDt& a, DMoorDynStateDt& b) { DMoorDynStateDt c = a + b; }); }
VP_HARNESS(h_sizes_deriv_sub) { mismatch<DMoorDynStateDt>([](DMoorDynStateDt& a, DMoorDynStateDt& b) { DMoorDynStateDt c = a - b; }); }
