// C14: how the time integrator reaches the objects of the system.  The real
// TimeSchemeBase::Update, CalcStateDeriv, Add*, Remove* and Init run with two
// objects of every kind, of any type; the functions of the objects they call
// are replaced by recorders (under --wrap natively).  The number of objects is
// bounded (two of each kind): labelled bounded.
#include "vp_state.hpp"
#include "vp_line.hpp"
#include "Time.hpp"
#include "Waves.hpp"
#include "Line.hpp"
#include "Point.hpp"
#include "Rod.hpp"
#include "Body.hpp"
using namespace moordyn;
using namespace vp;
namespace {
constexpr int K = 2;
struct Seen
{
	int fair, state, deriv, rhs, when; // how often each was called, and when the derivative was asked
	int stateWhen;
	double t;                          // time of the fairlead update
};
struct World
{
	Line* l[K];
	Point* p[K];
	Rod* r[K];
	Body* b[K];
	Body* g;
	Seen sl[K], sp[K], sr[K], sb[K], sg;
	int clock, waves, ground, gfair;
	double gt;
	std::vector<vec> lp[K], lv[K];
	vec pp[K], pv[K];
	XYZQuat rp[K], bp[K];
	vec6 rv[K], bv[K];
	DMoorDynStateDt D;
	int wavesWhen;
};
World* W;
template<class T>
int find(T* const* a, const T* x)
{
	for (int i = 0; i < K; i++)
		if ((a[i] == x)) return i;
	return K;
}
}
extern "C" {
void stub_pState(Point* o, vec pos, vec vel)
{
	int i = find(W->p, o);
	Check(i < K, "a known point");
	if (i == K) return;
	W->pp[i] = pos;
	W->pv[i] = vel;
	W->sp[i].state++;
	W->sp[i].stateWhen = W->clock++;
}
void stub_pFair(Point* o, double t)
{
	int i = find(W->p, o);
	if (i == K) return;
	W->sp[i].fair++;
	W->sp[i].t = t;
}
std::pair<vec, vec> stub_pDeriv(Point* o)
{
	int i = find(W->p, o);
	Check(i < K, "a known point");
	if (i == K) i = 0;
	W->sp[i].deriv++;
	W->sp[i].when = W->clock++;
	return std::make_pair(W->D.points[i].vel, W->D.points[i].acc);
}
moordyn::error_id stub_pRHS(Point* o)
{
	int i = find(W->p, o);
	if (i < K) {
		W->sp[i].rhs++;
		W->sp[i].when = W->clock++;
	}
	return 0;
}
void stub_rState(Rod* o, XYZQuat pos, vec6 vel)
{
	int i = find(W->r, o);
	Check(i < K, "a known rod");
	if (i == K) return;
	W->rp[i] = pos;
	W->rv[i] = vel;
	W->sr[i].state++;
	W->sr[i].stateWhen = W->clock++;
}
void stub_rFair(Rod* o, double t)
{
	int i = find(W->r, o);
	if (i == K) return;
	W->sr[i].fair++;
	W->sr[i].t = t;
}
std::pair<XYZQuat, vec6> stub_rDeriv(Rod* o)
{
	int i = find(W->r, o);
	Check(i < K, "a known rod");
	if (i == K) i = 0;
	W->sr[i].deriv++;
	W->sr[i].when = W->clock++;
	return std::make_pair(W->D.rods[i].vel, W->D.rods[i].acc);
}
void stub_rRHS(Rod* o)
{
	int i = find(W->r, o);
	if (i == K) return;
	W->sr[i].rhs++;
	W->sr[i].when = W->clock++;
}
void stub_bState(Body* o, XYZQuat pos, vec6 vel)
{
	int i = find(W->b, o);
	Check(i < K, "a known body");
	if (i == K) return;
	W->bp[i] = pos;
	W->bv[i] = vel;
	W->sb[i].state++;
	W->sb[i].stateWhen = W->clock++;
}
void stub_bFair(Body* o, double t)
{
	if ((o == W->g)) {
		W->gfair++;
		W->gt = t;
		return;
	}
	int i = find(W->b, o);
	if (i == K) return;
	W->sb[i].fair++;
	W->sb[i].t = t;
}
std::pair<XYZQuat, vec6> stub_bDeriv(Body* o)
{
	int i = find(W->b, o);
	Check(i < K, "a known body");
	if (i == K) i = 0;
	W->sb[i].deriv++;
	W->sb[i].when = W->clock++;
	return std::make_pair(W->D.bodies[i].vel, W->D.bodies[i].acc);
}
void stub_bRHS(Body* o)
{
	int i = find(W->b, o);
	if (i == K) return;
	W->sb[i].rhs++;
	W->sb[i].when = W->clock++;
}
void stub_bDep(Body* o)
{
	if ((o == W->g)) W->ground++;
}
void stub_lState(Line* o, std::vector<vec> r, std::vector<vec> u)
{
	int i = find(W->l, o);
	Check(i < K, "a known line");
	if (i == K) return;
	W->lp[i] = r;
	W->lv[i] = u;
	W->sl[i].state++;
	W->sl[i].stateWhen = W->clock++;
}
std::pair<std::vector<vec>, std::vector<vec>> stub_lDeriv(Line* o)
{
	int i = find(W->l, o);
	Check(i < K, "a known line");
	if (i == K) i = 0;
	W->sl[i].deriv++;
	W->sl[i].when = W->clock++;
	return std::make_pair(W->D.lines[i].vel, W->D.lines[i].acc);
}
void stub_waves(Waves*)
{
	W->waves++;
	W->wavesWhen = W->clock++;
}
}
typedef TimeSchemeBase<2, 2> S;
static const Sizes n2 = { K, 2, K, K, K };
template<class T, class V>
static T* Obj(V& v)
{
	T* o = (T*)vp_alloc_(sizeof(T));
	if (&v) v.push_back(o);
	return o;
}
static S* Make()
{
	W = (World*)vp_alloc_(sizeof(World));
	new (W) World();
	AnyState(W->D, n2, 10);
	S* s = (S*)vp_alloc_(sizeof(S));
	new (&s->r) decltype(s->r)();
	new (&s->rd) decltype(s->rd)();
	new (&s->lines) decltype(s->lines)();
	new (&s->points) decltype(s->points)();
	new (&s->rods) decltype(s->rods)();
	new (&s->bodies) decltype(s->bodies)();
	new (&s->waves) decltype(s->waves)();
	*(Waves**)&s->waves = (Waves*)vp_alloc_(sizeof(Waves));
	s->_log = TheLog();
	for (unsigned i = 0; i < 2; i++) AnyState(s->r[i], n2, 20 + i);
	for (unsigned i = 0; i < 2; i++) AnyState(s->rd[i], n2, 30 + i);
	s->t = Real("t");
	s->t_local = Real("t_local");
	for (int i = 0; i < K; i++) {
		W->l[i] = Obj<Line>(s->lines);
		W->p[i] = Obj<Point>(s->points);
		W->r[i] = Obj<Rod>(s->rods);
		W->b[i] = Obj<Body>(s->bodies);
		W->l[i]->UnstrLend = 0.0;
		W->p[i]->type = Point::FIXED;
		W->r[i]->type = Rod::FIXED;
		W->b[i]->type = Body::FIXED;
		W->sp[i] = W->sr[i] = W->sb[i] = W->sl[i] = Seen{};
	}
	s->ground = W->g = (Body*)vp_alloc_(sizeof(Body));
	new (&s->_calc_mask.lines) std::vector<bool>(K, true);
	new (&s->_calc_mask.points) std::vector<bool>(K, true);
	new (&s->_calc_mask.rods) std::vector<bool>(K, true);
	new (&s->_calc_mask.bodies) std::vector<bool>(K, true);
	return s;
}
static Point::types ptypes[] = { Point::COUPLED, Point::FREE, Point::FIXED };
static Rod::types rtypes[] = { Rod::COUPLED, Rod::CPLDPIN, Rod::FREE, Rod::PINNED, Rod::FIXED };
static Body::types btypes[] = { Body::COUPLED, Body::FREE, Body::FIXED, Body::CPLDPIN };
/// every object keeps the type of the case, the second of the kind under study takes the next type
static void Types(int kind, int i)
{
	if (kind == 0) {
		W->p[0]->type = ptypes[i];
		W->p[1]->type = ptypes[(i + 1) % 3];
	} else if (kind == 1) {
		W->r[0]->type = rtypes[i];
		W->r[1]->type = rtypes[(i + 1) % 5];
	} else {
		W->b[0]->type = btypes[i];
		W->b[1]->type = btypes[(i + 1) % 4];
	}
}
static void update(int kind, int c)
{
	S* s = Make();
	Types(kind, c);
	unsigned sub = Bool("second") ? 1 : 0;
	double h = Real("h"), t = s->t, tl = s->t_local;
	s->S::Update(h, sub);
	Check(W->gfair == 1, "ground is moved once");
	CheckEq(W->gt, t, "ground time");
	for (int i = 0; i < K; i++) {
		Check(W->sl[i].state == 1, "every line receives its state once");
		for (int k = 0; k < 2; k++) {
			CheckEq(vec(W->lp[i][k]), vec(s->r[sub].lines[i].pos[k]), "line positions");
			CheckEq(vec(W->lv[i][k]), vec(s->r[sub].lines[i].vel[k]), "line velocities");
		}
		CheckEq(W->l[i]->t, t, "line time");
		CheckEq(W->r[i]->t, t, "rod time");
		auto pt = W->p[i]->type;
		Check(W->sp[i].state == (pt == Point::FREE ? 1 : 0), "free points receive their state");
		Check(W->sp[i].fair == (pt == Point::COUPLED ? 1 : 0), "coupled points follow their fairlead");
		if (pt == Point::FREE) {
			CheckEq(W->pp[i], vec(s->r[sub].points[i].pos), "point position");
			CheckEq(W->pv[i], vec(s->r[sub].points[i].vel), "point velocity");
		}
		if (pt == Point::COUPLED) CheckEq(W->sp[i].t, tl + h, "point coupling time");
		auto rt = W->r[i]->type;
		bool rs = rt == Rod::FREE || rt == Rod::PINNED || rt == Rod::CPLDPIN, rf = rt == Rod::COUPLED || rt == Rod::CPLDPIN;
		Check(W->sr[i].state == (rs ? 1 : 0), "free and pinned rods receive their state");
		Check(W->sr[i].fair == (rf ? 1 : 0), "coupled rods follow their fairlead");
		if (rs) {
			CheckEq(V7(W->rp[i]), V7(s->r[sub].rods[i].pos), "rod pose");
			CheckEq(W->rv[i], vec6(s->r[sub].rods[i].vel), "rod velocity");
		}
		if (rf) CheckEq(W->sr[i].t, tl + h, "rod coupling time");
		auto bt = W->b[i]->type;
		bool bs = bt == Body::FREE || bt == Body::CPLDPIN, bf = bt == Body::COUPLED || bt == Body::CPLDPIN;
		Check(W->sb[i].state == (bs ? 1 : 0), "free and pinned bodies receive their state");
		Check(W->sb[i].fair == (bf ? 1 : 0), "coupled bodies follow their fairlead");
		if (bs) {
			CheckEq(V7(W->bp[i]), V7(s->r[sub].bodies[i].pos), "body pose");
			CheckEq(W->bv[i], vec6(s->r[sub].bodies[i].vel), "body velocity");
		}
		if (bf) CheckEq(W->sb[i].t, tl + h, "body coupling time");
		for (int j = 0; j < K; j++)
			if (bs && W->sr[j].state) Check(W->sb[i].stateWhen < W->sr[j].stateWhen, "bodies are placed before the rods they may carry");
	}
}
static void deriv(int kind, int c)
{
	S* s = Make();
	Types(kind, c);
	unsigned sub = Bool("second") ? 1 : 0;
	DMoorDynStateDt old = s->rd[sub], other = s->rd[1 - sub];
	s->S::CalcStateDeriv(sub);
	Check(W->waves == 1, "the water is updated once");
	for (int i = 0; i < K; i++) {
		const DMoorDynStateDt &x = s->rd[sub], &y = s->rd[1 - sub];
		Check(W->sl[i].deriv == 1, "every line is evaluated once");
		Check(W->wavesWhen < W->sl[i].when, "after the water");
		for (int k = 0; k < 2; k++) {
			CheckEq(vec(x.lines[i].vel[k]), vec(W->D.lines[i].vel[k]), "line velocities");
			CheckEq(vec(x.lines[i].acc[k]), vec(W->D.lines[i].acc[k]), "line accelerations");
			CheckEq(vec(y.lines[i].acc[k]), vec(other.lines[i].acc[k]), "other line derivatives untouched");
		}
		auto pt = W->p[i]->type;
		bool pf = pt == Point::FREE;
		Check(W->sp[i].deriv == (pf ? 1 : 0), "free points are evaluated");
		Check(W->sp[i].rhs == (pt == Point::COUPLED ? 1 : 0), "loads of coupled points are evaluated");
		const DMoorDynStateDt& dp = pf ? W->D : old;
		CheckEq(vec(x.points[i].vel), vec(dp.points[i].vel), "point velocity");
		CheckEq(vec(x.points[i].acc), vec(dp.points[i].acc), "point acceleration");
		auto rt = W->r[i]->type;
		bool rf = rt == Rod::FREE || rt == Rod::PINNED || rt == Rod::CPLDPIN;
		Check(W->sr[i].deriv == (rf ? 1 : 0), "free and pinned rods are evaluated");
		Check(W->sr[i].rhs == (rt == Rod::COUPLED ? 1 : 0), "loads of coupled rods are evaluated");
		const DMoorDynStateDt& dr = rf ? W->D : old;
		CheckEq(V7(x.rods[i].vel), V7(dr.rods[i].vel), "rod velocity");
		CheckEq(vec6(x.rods[i].acc), vec6(dr.rods[i].acc), "rod acceleration");
		auto bt = W->b[i]->type;
		bool bf = bt == Body::FREE || bt == Body::CPLDPIN;
		Check(W->sb[i].deriv == (bf ? 1 : 0), "free and pinned bodies are evaluated");
		Check(W->sb[i].rhs == (bt == Body::COUPLED ? 1 : 0), "loads of coupled bodies are evaluated");
		const DMoorDynStateDt& db = bf ? W->D : old;
		CheckEq(V7(x.bodies[i].vel), V7(db.bodies[i].vel), "body velocity");
		CheckEq(vec6(x.bodies[i].acc), vec6(db.bodies[i].acc), "body acceleration");
		for (int j = 0; j < K; j++) {
			if (W->sp[j].deriv + W->sp[j].rhs) Check(W->sl[i].when < W->sp[j].when, "lines are evaluated before the points they pull");
			if (W->sr[j].deriv + W->sr[j].rhs) Check(W->sl[i].when < W->sr[j].when, "lines are evaluated before the rods they pull");
			if (W->sb[j].deriv + W->sb[j].rhs) Check(W->sl[i].when < W->sb[j].when, "lines are evaluated before the bodies they pull");
		}
	}
}
#define VP_CASES(F)                                                                                            \
	VP_HARNESS(h_##F##_point_coupled) { F(0, 0); }                                                               \
	VP_HARNESS(h_##F##_point_free) { F(0, 1); }                                                                  \
	VP_HARNESS(h_##F##_point_fixed) { F(0, 2); }                                                                 \
	VP_HARNESS(h_##F##_rod_coupled) { F(1, 0); }                                                                 \
	VP_HARNESS(h_##F##_rod_cpldpin) { F(1, 1); }                                                                 \
	VP_HARNESS(h_##F##_rod_free) { F(1, 2); }                                                                    \
	VP_HARNESS(h_##F##_rod_pinned) { F(1, 3); }                                                                  \
	VP_HARNESS(h_##F##_rod_fixed) { F(1, 4); }                                                                   \
	VP_HARNESS(h_##F##_body_coupled) { F(2, 0); }                                                                \
	VP_HARNESS(h_##F##_body_free) { F(2, 1); }                                                                   \
	VP_HARNESS(h_##F##_body_fixed) { F(2, 2); }                                                                  \
	VP_HARNESS(h_##F##_body_cpldpin) { F(2, 3); }
VP_CASES(update)
VP_CASES(deriv)
// ----------------------------------------------- objects joining and leaving
template<class L, class E>
static void gone(const char* n, L& x, const L& old, int i, E eq)
{
	Check(x.size() == K - 1, n);
	if (x.size() == K - 1) eq(x[0], old[1 - i]);
}
static void removal(int i)
{
	S* s = Make();
	s->t = Real("t");
	MoorDynState r[2] = { s->r[0], s->r[1] };
	DMoorDynStateDt d[2] = { s->rd[0], s->rd[1] };
	Check(s->S::RemovePoint(W->p[i]) == (unsigned)i, "index of the removed point");
	Check(s->S::RemoveRod(W->r[i]) == (unsigned)i, "index of the removed rod");
	Check(s->S::RemoveBody(W->b[i]) == (unsigned)i, "index of the removed body");
	Check(s->S::RemoveLine(W->l[i]) == (unsigned)i, "index of the removed line");
	Check(s->points.size() == K - 1 && s->points[0] == W->p[1 - i], "the other point stays");
	Check(s->rods.size() == K - 1 && s->rods[0] == W->r[1 - i], "the other rod stays");
	Check(s->bodies.size() == K - 1 && s->bodies[0] == W->b[1 - i], "the other body stays");
	Check(s->lines.size() == K - 1 && s->lines[0] == W->l[1 - i], "the other line stays");
	for (int j = 0; j < 2; j++) {
		gone("one point state left", s->r[j].points, r[j].points, i, [](auto& a, auto& b) {
			CheckEq(vec(a.pos), vec(b.pos), "remaining point keeps its position");
			CheckEq(vec(a.vel), vec(b.vel), "remaining point keeps its velocity");
		});
		gone("one rod state left", s->r[j].rods, r[j].rods, i, [](auto& a, auto& b) {
			CheckEq(V7(a.pos), V7(b.pos), "remaining rod keeps its pose");
			CheckEq(vec6(a.vel), vec6(b.vel), "remaining rod keeps its velocity");
		});
		gone("one body state left", s->r[j].bodies, r[j].bodies, i, [](auto& a, auto& b) {
			CheckEq(V7(a.pos), V7(b.pos), "remaining body keeps its pose");
			CheckEq(vec6(a.vel), vec6(b.vel), "remaining body keeps its velocity");
		});
		gone("one line state left", s->r[j].lines, r[j].lines, i, [](auto& a, auto& b) {
			CheckEq(vec(a.pos[1]), vec(b.pos[1]), "remaining line keeps its positions");
			CheckEq(vec(a.vel[1]), vec(b.vel[1]), "remaining line keeps its velocities");
		});
		gone("one point derivative left", s->rd[j].points, d[j].points, i, [](auto& a, auto& b) { CheckEq(vec(a.acc), vec(b.acc), "remaining point keeps its acceleration"); });
		gone("one rod derivative left", s->rd[j].rods, d[j].rods, i, [](auto& a, auto& b) { CheckEq(vec6(a.acc), vec6(b.acc), "remaining rod keeps its acceleration"); });
		gone("one body derivative left", s->rd[j].bodies, d[j].bodies, i, [](auto& a, auto& b) { CheckEq(vec6(a.acc), vec6(b.acc), "remaining body keeps its acceleration"); });
		gone("one line derivative left", s->rd[j].lines, d[j].lines, i, [](auto& a, auto& b) { CheckEq(vec(a.acc[1]), vec(b.acc[1]), "remaining line keeps its accelerations"); });
	}
}
VP_HARNESS(h_remove_first) { removal(0); }
VP_HARNESS(h_remove_last) { removal(1); }
VP_HARNESS(h_add)
{
	S* s = Make();
	MoorDynState r[2] = { s->r[0], s->r[1] };
	Point* p = (Point*)vp_alloc_(sizeof(Point));
	Rod* ro = (Rod*)vp_alloc_(sizeof(Rod));
	Body* b = (Body*)vp_alloc_(sizeof(Body));
	s->S::AddPoint(p);
	s->S::AddRod(ro);
	s->S::AddBody(b);
	Check(s->points.size() == K + 1 && s->points[K] == p, "point is added at the end");
	Check(s->rods.size() == K + 1 && s->rods[K] == ro, "rod is added at the end");
	Check(s->bodies.size() == K + 1 && s->bodies[K] == b, "body is added at the end");
	for (int j = 0; j < 2; j++) {
		Check(s->r[j].points.size() == K + 1 && s->rd[j].points.size() == K + 1, "one point state per point");
		Check(s->r[j].rods.size() == K + 1 && s->rd[j].rods.size() == K + 1, "one rod state per rod");
		Check(s->r[j].bodies.size() == K + 1 && s->rd[j].bodies.size() == K + 1, "one body state per body");
		for (int i = 0; i < K; i++) {
			CheckEq(vec(s->r[j].points[i].pos), vec(r[j].points[i].pos), "points keep their positions");
			CheckEq(V7(s->r[j].rods[i].pos), V7(r[j].rods[i].pos), "rods keep their poses");
			CheckEq(V7(s->r[j].bodies[i].pos), V7(r[j].bodies[i].pos), "bodies keep their poses");
		}
	}
	Check(s->_calc_mask.points.size() == K + 1 && s->_calc_mask.rods.size() == K + 1 && s->_calc_mask.bodies.size() == K + 1, "one mask per object");
	bool t = false;
	try {
		s->S::AddPoint(p);
	} catch (moordyn::invalid_value_error&) {
		t = true;
	}
	Check(t, "an object cannot be added twice");
}
