// C13: one step of every time scheme.  Update and CalcStateDeriv, through which
// a scheme reaches the system, are replaced by their contract: Update(h, i)
// places the system in state r[i] at the current time, CalcStateDeriv(j) puts
// the derivative of the system in that state in rd[j].
#include "vp_state.hpp"
#include "Time.hpp"
#include "Waves.hpp"
using namespace moordyn;
using namespace vp;
struct World
{
	int evals, updates;
	MoorDynState cur;        // where the system is
	double t, h;             // and when
	MoorDynState at[4];      // where each derivative was evaluated
	double tAt[4], hAt[4];   // and when
	DMoorDynStateDt D[4];    // the derivatives
};
static World* W;
template<class S>
static void upd(S* s, double h, unsigned i)
{
	W->cur = s->r[i];
	W->t = s->t;
	W->h = h;
	W->updates++;
}
template<class S>
static void calc(S* s, unsigned j)
{
	int e = W->evals;
	W->at[e] = W->cur;
	W->tAt[e] = W->t;
	W->hAt[e] = W->h;
	s->rd[j] = W->D[e];
	W->evals = e + 1;
}
#ifdef VP_ENGINE
#define VP_BASE(A, B)                                                                                           \
	extern "C" void stub_upd_##A##B(TimeSchemeBase<A, B>* s, double h, unsigned i) { upd(s, h, i); }              \
	extern "C" void stub_calc_##A##B(TimeSchemeBase<A, B>* s, unsigned j) { calc(s, j); }
#else
#define VP_BASE(A, B)                                                                                           \
	namespace moordyn {                                                                                           \
	template<> void TimeSchemeBase<A, B>::Update(double h, unsigned i) { upd(this, h, i); }                        \
	template<> void TimeSchemeBase<A, B>::CalcStateDeriv(unsigned j) { calc(this, j); }                            \
	}
#endif
VP_BASE(1, 1)
VP_BASE(1, 2)
VP_BASE(2, 2)
VP_BASE(5, 4)
VP_BASE(1, 5)
VP_BASE(2, 3)

/// a scheme in an arbitrary state (its name and log are not used by a step)
template<class S>
static S* Make(const Sizes& n)
{
	W = (World*)vp_alloc_(sizeof(World));
	new (W) World();
	W->evals = W->updates = 0;
	for (int i = 0; i < 4; i++) AnyState(W->D[i], n, 10 + i);
	S* s = (S*)vp_alloc_(sizeof(S));
	new (&s->r) decltype(s->r)();
	new (&s->rd) decltype(s->rd)();
	new (&s->lines) decltype(s->lines)();
	new (&s->points) decltype(s->points)();
	new (&s->rods) decltype(s->rods)();
	new (&s->bodies) decltype(s->bodies)();
	new (&s->_calc_mask) decltype(s->_calc_mask)();
	for (unsigned i = 0; i < s->r.size(); i++) AnyState(s->r[i], n, 20 + i);
	for (unsigned i = 0; i < s->rd.size(); i++) AnyState(s->rd[i], n, 30 + i);
	s->t = Real("t");
	s->t_local = Real("t_local");
	s->cfl = 0.5;
	return s;
}
struct Term
{
	double c;
	const DMoorDynStateDt* d;
};
/// x = base + sum of c d, for every number of the state
static void Is(const MoorDynState& x, const MoorDynState& base, const Sizes& n, const char* name, Term a, Term b = { 0, nullptr }, Term c = { 0, nullptr },
               Term d = { 0, nullptr }, Term e = { 0, nullptr })
{
	unsigned k = Uint("k", 0, 1000000);
	const Term T[5] = { a, b, c, d, e };
	auto go = [&](auto get, auto getd, auto x) {
		auto s = get(base);
		for (int j = 0; j < 5; j++)
			if (T[j].d) {
				auto y = getd(*T[j].d);
				for (int i = 0; i < s.size(); i++) s(i) += T[j].c * y(i);
			}
		CheckEq(x, s, name, 1e2);
	};
	if (k < n.nodes) {
		go([&](const MoorDynState& s) -> vec { return s.lines[0].pos[k]; }, [&](const DMoorDynStateDt& s) -> vec { return s.lines[0].vel[k]; }, vec(x.lines[0].pos[k]));
		go([&](const MoorDynState& s) -> vec { return s.lines[0].vel[k]; }, [&](const DMoorDynStateDt& s) -> vec { return s.lines[0].acc[k]; }, vec(x.lines[0].vel[k]));
	}
	if (k < n.points) {
		go([&](const MoorDynState& s) -> vec { return s.points[k].pos; }, [&](const DMoorDynStateDt& s) -> vec { return s.points[k].vel; }, vec(x.points[k].pos));
		go([&](const MoorDynState& s) -> vec { return s.points[k].vel; }, [&](const DMoorDynStateDt& s) -> vec { return s.points[k].acc; }, vec(x.points[k].vel));
	}
	if (k < n.rods) {
		go([&](const MoorDynState& s) { return V7(s.rods[k].pos); }, [&](const DMoorDynStateDt& s) { return V7(s.rods[k].vel); }, V7(x.rods[k].pos));
		go([&](const MoorDynState& s) -> vec6 { return s.rods[k].vel; }, [&](const DMoorDynStateDt& s) -> vec6 { return s.rods[k].acc; }, vec6(x.rods[k].vel));
	}
	if (k < n.bodies) {
		go([&](const MoorDynState& s) { return V7(s.bodies[k].pos); }, [&](const DMoorDynStateDt& s) { return V7(s.bodies[k].vel); }, V7(x.bodies[k].pos));
		go([&](const MoorDynState& s) -> vec6 { return s.bodies[k].vel; }, [&](const DMoorDynStateDt& s) -> vec6 { return s.bodies[k].acc; }, vec6(x.bodies[k].vel));
	}
}
/// x = y, number by number
static void Is0(const DMoorDynStateDt& x, const DMoorDynStateDt& y, const Sizes& n, const char* name)
{
	unsigned k = Uint("k", 0, 1000000);
	if (k < n.nodes) {
		CheckEq(vec(x.lines[0].vel[k]), vec(y.lines[0].vel[k]), name);
		CheckEq(vec(x.lines[0].acc[k]), vec(y.lines[0].acc[k]), name);
	}
	if (k < n.points) {
		CheckEq(vec(x.points[k].vel), vec(y.points[k].vel), name);
		CheckEq(vec(x.points[k].acc), vec(y.points[k].acc), name);
	}
	if (k < n.rods) {
		CheckEq(V7(x.rods[k].vel), V7(y.rods[k].vel), name);
		CheckEq(vec6(x.rods[k].acc), vec6(y.rods[k].acc), name);
	}
	if (k < n.bodies) {
		CheckEq(V7(x.bodies[k].vel), V7(y.bodies[k].vel), name);
		CheckEq(vec6(x.bodies[k].acc), vec6(y.bodies[k].acc), name);
	}
}
static const Term None = { 0.0, nullptr };
/// every step ends with the system in the new state, the clock one step later
template<class S>
static void Done(S* s, const Sizes& n, double t, double tl, double dt)
{
	CheckEq(s->t, t + dt, "time advances by the step");
	CheckEq(s->t_local, tl + dt, "coupling time advances by the step");
	CheckEq(W->t, t + dt, "system left at the new time");
	CheckEq(W->h, dt, "system left at the end of the step");
	Is(W->cur, s->r[0], n, "system left in the new state", None);
}
static void When(int e, double t, double h, const char* n)
{
	CheckEq(W->tAt[e], t, n);
	CheckEq(W->hAt[e], h, n);
}
template<class S>
struct Run
{
	Sizes n;
	S* s;
	MoorDynState r0;
	double t, tl, dt;
	Run()
	{
		n = AnySizes();
		s = Make<S>(n);
		r0 = s->r[0];
		t = s->t;
		tl = s->t_local;
		dt = Pos("dt");
	}
	void step(int evals)
	{
		s->S::Step(dt); // no virtual dispatch: the object under test is of this class
		Check(W->evals == evals, "number of evaluations");
		Done(s, n, t, tl, dt);
	}
};
VP_HARNESS(h_euler)
{
	Run<EulerScheme> R;
	R.step(1);
	Is(W->at[0], R.r0, R.n, "derivative at the old state", None);
	When(0, R.t, 0, "derivative at the old time");
	Is(R.s->r[0], R.r0, R.n, "Euler step", { R.dt, &W->D[0] });
}
VP_HARNESS(h_heun)
{
	Run<HeunScheme> R;
	DMoorDynStateDt d = R.s->rd[0];
	R.step(1);
	Is(W->at[0], R.r0, R.n, "derivative at the predicted state", { R.dt, &d });
	Is(R.s->r[0], R.r0, R.n, "Heun step", { 0.5 * R.dt, &d }, { 0.5 * R.dt, &W->D[0] });
}
VP_HARNESS(h_rk2)
{
	Run<RK2Scheme> R;
	R.step(2);
	Is(W->at[0], R.r0, R.n, "first derivative at the old state", None);
	When(0, R.t, 0, "first derivative at the old time");
	Is(W->at[1], R.r0, R.n, "second derivative at the middle state", { 0.5 * R.dt, &W->D[0] });
	When(1, R.t + 0.5 * R.dt, 0.5 * R.dt, "second derivative at the middle of the step");
	Is(R.s->r[0], R.r0, R.n, "midpoint step", { R.dt, &W->D[1] });
}
VP_HARNESS(h_rk4)
{
	Run<RK4Scheme> R;
	R.step(4);
	Is(W->at[0], R.r0, R.n, "k1 at the old state", None);
	When(0, R.t, 0, "k1 at the old time");
	Is(W->at[1], R.r0, R.n, "k2 at the middle state", { 0.5 * R.dt, &W->D[0] });
	When(1, R.t + 0.5 * R.dt, 0.5 * R.dt, "k2 at the middle of the step");
	Is(W->at[2], R.r0, R.n, "k3 at the corrected middle state", { 0.5 * R.dt, &W->D[1] });
	When(2, R.t + 0.5 * R.dt, 0.5 * R.dt, "k3 at the middle of the step");
	Is(W->at[3], R.r0, R.n, "k4 at the new state", { R.dt, &W->D[2] });
	When(3, R.t + R.dt, R.dt, "k4 at the new time");
	Is(R.s->r[0], R.r0, R.n, "Runge-Kutta step", { R.dt / 6.0, &W->D[0] }, { R.dt / 3.0, &W->D[1] }, { R.dt / 3.0, &W->D[2] }, { R.dt / 6.0, &W->D[3] });
}
/// x = base advanced with positions += h v0 + p0 a0 + p1 a1, velocities += q0 a0 + q1 a1
/// (orientations are left out: rod and body positions only)
struct Blend
{
	double h, p0, p1, q0, q1;
};
static void IsBlend(const MoorDynState& x, const MoorDynState& b, const Sizes& n, const char* name, const DMoorDynStateDt& d0, const DMoorDynStateDt& d1, Blend c)
{
	unsigned k = Uint("k", 0, 1000000);
	auto pos = [&](auto s, auto v, auto a0, auto a1, auto x) {
		for (int i = 0; i < 3; i++) s(i) += c.h * v(i) + c.p0 * a0(i) + c.p1 * a1(i);
		CheckEq(x, s, name, 1e2);
	};
	auto vel = [&](auto s, auto a0, auto a1, auto x) {
		for (int i = 0; i < s.size(); i++) s(i) += c.q0 * a0(i) + c.q1 * a1(i);
		CheckEq(x, s, name, 1e2);
	};
	if (k < n.nodes) {
		pos(vec(b.lines[0].pos[k]), vec(d0.lines[0].vel[k]), vec(d0.lines[0].acc[k]), vec(d1.lines[0].acc[k]), vec(x.lines[0].pos[k]));
		vel(vec(b.lines[0].vel[k]), vec(d0.lines[0].acc[k]), vec(d1.lines[0].acc[k]), vec(x.lines[0].vel[k]));
	}
	if (k < n.points) {
		pos(vec(b.points[k].pos), vec(d0.points[k].vel), vec(d0.points[k].acc), vec(d1.points[k].acc), vec(x.points[k].pos));
		vel(vec(b.points[k].vel), vec(d0.points[k].acc), vec(d1.points[k].acc), vec(x.points[k].vel));
	}
	if (k < n.rods) {
		pos(vec(b.rods[k].pos.pos), vec(d0.rods[k].vel.pos), vec6(d0.rods[k].acc), vec6(d1.rods[k].acc), vec(x.rods[k].pos.pos));
		vel(vec6(b.rods[k].vel), vec6(d0.rods[k].acc), vec6(d1.rods[k].acc), vec6(x.rods[k].vel));
	}
	if (k < n.bodies) {
		pos(vec(b.bodies[k].pos.pos), vec(d0.bodies[k].vel.pos), vec6(d0.bodies[k].acc), vec6(d1.bodies[k].acc), vec(x.bodies[k].pos.pos));
		vel(vec6(b.bodies[k].vel), vec6(d0.bodies[k].acc), vec6(d1.bodies[k].acc), vec6(x.bodies[k].vel));
	}
}
// ------------------------------------------------- Adams-Bashforth formulas
// (the history rd[1..4] is arbitrary here, no object is registered to shift)
template<class S>
static void ab(unsigned steps, unsigned after)
{
	Run<S> R;
	R.s->n_steps = steps;
	DMoorDynStateDt h[5];
	for (int i = 1; i < 5; i++) h[i] = R.s->rd[i];
	R.step(1);
	Check(R.s->n_steps == after, "steps counted up to the order");
	Is(W->at[0], R.r0, R.n, "derivative at the old state", None);
	When(0, R.t, 0, "derivative at the old time");
	const double dt = R.dt;
	const DMoorDynStateDt* D = &W->D[0];
	if (steps == 0) Is(R.s->r[0], R.r0, R.n, "first step", { dt, D });
	if (steps == 1) Is(R.s->r[0], R.r0, R.n, "two derivatives", { dt * 1.5, D }, { -dt * 0.5, &h[1] });
	if (steps == 2) Is(R.s->r[0], R.r0, R.n, "three derivatives", { dt * 23.0 / 12.0, D }, { -dt * 16.0 / 12.0, &h[1] }, { dt * 5.0 / 12.0, &h[2] });
	if (steps == 3)
		Is(R.s->r[0], R.r0, R.n, "four derivatives", { dt * 55.0 / 24.0, D }, { -dt * 59.0 / 24.0, &h[1] }, { dt * 37.0 / 24.0, &h[2] }, { -dt * 9.0 / 24.0, &h[3] });
	if (steps == 4)
		Is(R.s->r[0], R.r0, R.n, "five derivatives", { dt * 1901.0 / 720.0, D }, { -dt * 2774.0 / 720.0, &h[1] }, { dt * 2616.0 / 720.0, &h[2] },
		   { -dt * 1274.0 / 720.0, &h[3] }, { dt * 251.0 / 720.0, &h[4] });
}
VP_HARNESS(h_ab_first) { ab<ABScheme<4, false>>(0, 1); }
VP_HARNESS(h_ab_second) { ab<ABScheme<4, false>>(1, 2); }
VP_HARNESS(h_ab_third) { ab<ABScheme<4, false>>(2, 3); }
VP_HARNESS(h_ab_fourth) { ab<ABScheme<4, false>>(3, 4); }
VP_HARNESS(h_ab_later) { ab<ABScheme<4, false>>(4, 4); }
VP_HARNESS(h_ab2_later) { ab<ABScheme<2, false>>(1, 2); }
VP_HARNESS(h_ab3_later) { ab<ABScheme<3, false>>(2, 3); }
// the history of derivatives
template<class V, class T>
static void One(V& v, T*)
{
	T* p = (T*)vp_alloc_(sizeof(T));
	v.push_back(p);
}
/// x and y hold the same derivatives
static void Same(const DMoorDynStateDt& x, const DMoorDynStateDt& y, const char* name)
{
	for (int k = 0; k < 2; k++) {
		CheckEq(vec(x.lines[0].vel[k]), vec(y.lines[0].vel[k]), name);
		CheckEq(vec(x.lines[0].acc[k]), vec(y.lines[0].acc[k]), name);
	}
	CheckEq(vec(x.points[0].vel), vec(y.points[0].vel), name);
	CheckEq(vec(x.points[0].acc), vec(y.points[0].acc), name);
	CheckEq(V7(x.rods[0].vel), V7(y.rods[0].vel), name);
	CheckEq(vec6(x.rods[0].acc), vec6(y.rods[0].acc), name);
	CheckEq(V7(x.bodies[0].vel), V7(y.bodies[0].vel), name);
	CheckEq(vec6(x.bodies[0].acc), vec6(y.bodies[0].acc), name);
}
static void history(bool old)
{
	Sizes n = { 1, 2, 1, 1, 1 };
	auto* s = Make<ABScheme<4, false>>(n);
	One(s->lines, (Line*)nullptr);
	One(s->points, (Point*)nullptr);
	One(s->rods, (Rod*)nullptr);
	One(s->bodies, (Body*)nullptr);
	s->points[0]->type = Point::FREE;
	s->rods[0]->type = Rod::FREE;
	s->bodies[0]->type = Body::FREE;
	new (&s->_calc_mask.lines) std::vector<bool>(1, true);
	new (&s->_calc_mask.points) std::vector<bool>(1, true);
	new (&s->_calc_mask.rods) std::vector<bool>(1, true);
	new (&s->_calc_mask.bodies) std::vector<bool>(1, true);
	s->n_steps = 2;
	DMoorDynStateDt h[5];
	for (int i = 0; i < 5; i++) h[i] = s->rd[i];
	double dt = Pos("dt");
	s->ABScheme<4, false>::Step(dt);
	if (!old) {
		Same(s->rd[0], W->D[0], "newest derivative");
		Same(s->rd[1], h[0], "derivative one step ago");
	} else {
		Same(s->rd[2], h[1], "derivative two steps ago");
		Same(s->rd[3], h[2], "derivative three steps ago");
		Same(s->rd[4], h[3], "derivative four steps ago");
	}
}
VP_HARNESS(h_ab_history) { history(false); }
VP_HARNESS(h_ab_old) { history(true); }
// --------------------------------------------------------- implicit schemes
template<int iters>
static void implicit_euler()
{
	Run<ImplicitEulerScheme> R;
	double k = R.s->_dt_factor = Real("k", 0, 1);
	R.s->_iters = iters;
	R.s->_c0 = Real("c0", 0, 1);
	R.s->_c1 = Real("c1", 0, 1);
	DMoorDynStateDt d = R.s->rd[0];
	R.step(iters);
	if (iters == 1) Is(W->at[0], R.r0, R.n, "first guess from the last derivative", { k * R.dt, &d });
	for (int i = 0; i < iters; i++) When(i, R.t + k * R.dt, k * R.dt, "derivative at the chosen point of the step");
	Is(R.s->r[0], R.r0, R.n, "step with the last derivative", { R.dt, &W->D[iters - 1] });
}
VP_HARNESS(h_implicit_euler_1) { implicit_euler<1>(); }
VP_HARNESS(h_implicit_euler_3) { implicit_euler<3>(); }
template<int iters>
static void newmark()
{
	Run<ImplicitNewmarkScheme> R;
	double g = R.s->_gamma = Real("gamma", 0, 1), be = R.s->_beta = Real("beta", 0, 1), dt = R.dt;
	R.s->_iters = iters;
	R.s->_c0 = Real("c0", 0, 1);
	R.s->_c1 = Real("c1", 0, 1);
	DMoorDynStateDt d = R.s->rd[0];
	R.step(iters);
	for (int i = 0; i < iters; i++) When(i, R.t + dt, dt, "derivative at the end of the step");
	IsBlend(R.s->r[0], R.r0, R.n, "Newmark step with the last derivative", d, W->D[iters - 1],
	        { dt, dt * dt * (0.5 - be), dt * dt * be, dt * (1.0 - g), dt * g });
	Is0(R.s->rd[0], W->D[iters - 1], R.n, "derivative kept for the next step");
}
VP_HARNESS(h_newmark_1) { newmark<1>(); }
VP_HARNESS(h_newmark_2) { newmark<2>(); }
VP_HARNESS(h_wilson)
{
	Run<ImplicitWilsonScheme> R;
	double th = R.s->_theta = Real("theta", 1, 3), dt = R.dt;
	Assume(th >= 1);
	R.s->_iters = 1;
	DMoorDynStateDt d = R.s->rd[0];
	R.step(1);
	When(0, R.t + th * dt, th * dt, "derivative at the enlarged step");
	IsBlend(R.s->r[0], R.r0, R.n, "Wilson step", d, W->D[0],
	        { dt, 0.5 * dt * dt * (1.0 - 1.0 / (3.0 * th)), 0.5 * dt * dt / (3.0 * th), dt * (1.0 - 0.5 / th), dt * 0.5 / th });
	Is0(R.s->rd[0], W->D[0], R.n, "derivative kept for the next step");
}
