// C19: the coupling of a whole system: order of the coupled degrees of freedom,
// forces handed back, time advanced in steps the model can take
#include "vp_body.hpp"
#include "MoorDyn2.hpp"
#include "Time.hpp"
#include <iostream>
using namespace moordyn;
using namespace vp;
static void Quiet()
{
#ifndef VP_ENGINE
	std::cerr.setstate(std::ios::failbit);
	std::cout.setstate(std::ios::failbit);
#endif
}
namespace {
/// a time scheme that records what it is asked for
struct Scheme : public TimeScheme
{
	double total = 0, limit = 0;
	unsigned n = 0;
	bool fails = false;
	Scheme(moordyn::Log* log)
	  : TimeScheme(log)
	{
	}
	void Init() override {}
	void Step(double& dt) override
	{
		if (fails) throw moordyn::nan_error("ghost");
		n++;
		Check(dt > 0, "no step backwards");
		Check(dt <= limit, "no step longer than the model allows");
		total += dt;
		t += dt;
		TimeScheme::Step(dt);
	}
	std::vector<uint64_t> Serialize() override { return {}; }
	uint64_t* Deserialize(const uint64_t* d) override { return (uint64_t*)d; }
};
}
struct Out {
	double t, dt;
	int calls, err;
};
static Out& TheOut()
{
	static Out o;
	return o;
}
extern "C" moordyn::error_id stub_output(moordyn::MoorDyn*, double t, double dt)
{
	Out& o = TheOut();
	o.t = t;
	o.dt = dt;
	o.calls++;
	return o.err;
}
struct Asked {
	// what the objects were initialised with
	vec6 br[3], bv[3], ba[3];
	int bodies, rods, points, rodStarts, pointStarts, water;
	double tau;
};
static Asked& TheAsked()
{
	static Asked a;
	return a;
}
extern "C" void stub_unfree(moordyn::Body* b, vec6 r, vec6 v, vec6 a)
{
	Asked& k = TheAsked();
	if (b->bodyId == 0) return;
	k.br[b->bodyId - 1] = r;
	k.bv[b->bodyId - 1] = v;
	k.ba[b->bodyId - 1] = a;
	k.bodies++;
}
extern "C" void stub_rodFair(moordyn::Rod*, double t)
{
	TheAsked().rods++;
	TheAsked().tau += t * t;
}
extern "C" void stub_pointFair(moordyn::Point*, double t)
{
	TheAsked().points++;
	TheAsked().tau += t * t;
}
extern "C" std::pair<XYZQuat, vec6> stub_rodInit(moordyn::Rod*)
{
	TheAsked().rodStarts++;
	return { XYZQuat::Zero(), vec6::Zero() };
}
extern "C" std::pair<vec, vec> stub_pointInit(moordyn::Point*)
{
	TheAsked().pointStarts++;
	return { vec(vec::Zero()), vec(vec::Zero()) };
}
extern "C" void stub_waterSetup(moordyn::Waves*, EnvCondRef, SeafloorRef, TimeScheme*, const char*) { TheAsked().water++; }
struct Sys {
	MoorDyn* M;
	Scheme* S;
	std::vector<int> bodies, rods; // DOFs of each
	unsigned points, ndof;
	double x[40], xd[40], f[40];
	vec6 bv[3], rv[3];
};
static Sys* Make(const std::vector<int>& bodies, const std::vector<int>& rods, unsigned points)
{
	Quiet();
	Sys* s = new Sys();
	MoorDyn* M = (MoorDyn*)vp_alloc_(sizeof(MoorDyn));
	new (&M->_log) decltype(M->_log)(TheLog());
	new (&M->BodyList) decltype(M->BodyList)();
	new (&M->RodList) decltype(M->RodList)();
	new (&M->PointList) decltype(M->PointList)();
	new (&M->LineList) decltype(M->LineList)();
	new (&M->FailList) decltype(M->FailList)();
	new (&M->CpldBodyIs) decltype(M->CpldBodyIs)();
	new (&M->CpldRodIs) decltype(M->CpldRodIs)();
	new (&M->CpldPointIs) decltype(M->CpldPointIs)();
	s->M = M;
	s->S = New<Scheme>(TheLog());
	M->_t_integrator = s->S;
	s->bodies = bodies;
	s->rods = rods;
	s->points = points;
	s->ndof = 0;
	// a free object in front, so that the number of a coupled object is not its position among the coupled ones
	M->BodyList.push_back(New<Body>(TheLog(), (size_t)0));
	M->RodList.push_back(New<Rod>(TheLog(), (size_t)0));
	M->PointList.push_back(New<Point>(TheLog(), (size_t)0));
	for (unsigned i = 0; i < bodies.size(); i++) {
		Body* B = New<Body>(TheLog(), (size_t)(i + 1));
		B->type = bodies[i] == 6 ? Body::COUPLED : Body::CPLDPIN;
		B->F6net = Vec6(vp_name_("Fb", i));
		B->M = Mat<6, 6>(vp_name_("Mb", i));
		B->a6 = Vec6(vp_name_("ab", i));
		B->rd_ves = s->bv[i] = Vec6(vp_name_("vb", i));
		B->r_ves = B->rdd_ves = vec6::Zero();
		M->CpldBodyIs.push_back((unsigned)M->BodyList.size());
		M->BodyList.push_back(B);
		s->ndof += bodies[i];
	}
	for (unsigned i = 0; i < rods.size(); i++) {
		Rod* R = New<Rod>(TheLog(), (size_t)(i + 1));
		R->type = rods[i] == 6 ? Rod::COUPLED : Rod::CPLDPIN;
		R->N = 0;
		R->r.resize(1, vec::Zero());
		R->rd.resize(1, vec::Zero());
		R->F6net = Vec6(vp_name_("Fr", i));
		R->M6net = Mat<6, 6>(vp_name_("Mr", i));
		R->acc6 = Vec6(vp_name_("ar", i));
		R->rd_ves = s->rv[i] = Vec6(vp_name_("vr", i));
		R->r_ves = R->rdd_ves = vec6::Zero();
		M->CpldRodIs.push_back((unsigned)M->RodList.size());
		M->RodList.push_back(R);
		s->ndof += rods[i];
	}
	for (unsigned i = 0; i < points; i++) {
		Point* P = New<Point>(TheLog(), (size_t)(i + 1));
		P->type = Point::COUPLED;
		P->Fnet = Vec(vp_name_("Fp", i));
		P->M = Mat<3, 3>(vp_name_("Mp", i));
		P->r_ves = P->rd_ves = vec::Zero();
		M->CpldPointIs.push_back((unsigned)M->PointList.size());
		M->PointList.push_back(P);
		s->ndof += 3;
	}
	for (unsigned i = 0; i < 40; i++) {
		s->x[i] = Real(vp_name_("x", i));
		s->xd[i] = Real(vp_name_("xd", i));
		s->f[i] = 7;
	}
	s->S->t = NonNeg("t0");
	M->dtM0 = 1e-2;
	M->dtOut = 1e9;
	TheOut() = Out{ 0, 0, 0, MOORDYN_SUCCESS };
	return s;
}
static void Forces(Sys* s)
{
	unsigned ix = 0;
	for (unsigned i = 0; i < s->bodies.size(); i++) {
		const vec6 f = s->M->BodyList[i + 1]->getFnet();
		for (int k = 0; k < s->bodies[i]; k++) CheckEq(s->f[ix++], f(k), "force of the bodies first");
	}
	for (unsigned i = 0; i < s->rods.size(); i++) {
		const vec6 f = s->M->RodList[i + 1]->getFnet();
		for (int k = 0; k < s->rods[i]; k++) CheckEq(s->f[ix++], f(k), "then force of the rods");
	}
	for (unsigned i = 0; i < s->points; i++) {
		const vec f = s->M->PointList[i + 1]->getFnet();
		for (int k = 0; k < 3; k++) CheckEq(s->f[ix++], f(k), "then force of the points");
	}
	for (; ix < 40; ix++) CheckEq(s->f[ix], 7.0, "nothing written beyond the coupled degrees of freedom");
}
static void Order(const std::vector<int>& bodies, const std::vector<int>& rods, unsigned points)
{
	Sys* s = Make(bodies, rods, points);
	const double dt0 = Pos("dt", 0.001, 0.01), t0 = s->S->t;
	Assume(dt0 <= 1e-2);
	s->S->limit = 1e-2;
	double t = t0, dt = dt0;
	Check(s->M->Step(s->x, s->xd, s->f, t, dt) == MOORDYN_SUCCESS, "accepted");
	unsigned ix = 0;
	for (unsigned i = 0; i < bodies.size(); i++) {
		Body* B = s->M->BodyList[i + 1];
		for (int k = 0; k < bodies[i]; k++, ix++) {
			CheckEq(B->r_ves(k), s->x[ix], "bodies take the first positions");
			CheckEq(B->rd_ves(k), s->xd[ix], "bodies take the first velocities");
			CheckEq(B->rdd_ves(k) * dt0, s->xd[ix] - s->bv[i](k), "body acceleration from the change of velocity", 10);
		}
	}
	for (unsigned i = 0; i < rods.size(); i++) {
		Rod* R = s->M->RodList[i + 1];
		for (int k = 0; k < rods[i]; k++, ix++) {
			CheckEq(R->r_ves(k), s->x[ix], "rods take the next positions");
			CheckEq(R->rd_ves(k), s->xd[ix], "rods take the next velocities");
			CheckEq(R->rdd_ves(k) * dt0, s->xd[ix] - s->rv[i](k), "rod acceleration from the change of velocity", 10);
		}
	}
	for (unsigned i = 0; i < points; i++) {
		Point* P = s->M->PointList[i + 1];
		for (int k = 0; k < 3; k++, ix++) {
			CheckEq(P->r_ves(k), s->x[ix], "points take the last positions");
			CheckEq(P->rd_ves(k), s->xd[ix], "points take the last velocities");
		}
	}
	Forces(s);
	CheckEq(t, t0 + dt0, "time advanced by the step");
	CheckEq(dt, dt0, "step kept");
}
VP_HARNESS(h_points) { Order({}, {}, 3); }
VP_HARNESS(h_bodies) { Order({ 6, 3, 6 }, {}, 0); }
VP_HARNESS(h_rods) { Order({}, { 3, 6, 6 }, 0); }
VP_HARNESS(h_mixed) { Order({ 6, 3 }, { 6, 3 }, 2); }
VP_HARNESS(h_mixed2) { Order({ 3 }, { 3 }, 1); }
VP_HARNESS(h_rods_points) { Order({}, { 6 }, 2); }
static void Count(const std::vector<int>& bodies, const std::vector<int>& rods, unsigned points)
{
	Sys* s = Make(bodies, rods, points);
	Check(s->M->NCoupledDOF() == s->ndof, "number of entries Step takes and GetForces returns");
}
VP_HARNESS(h_count)
{
	Count({ 6 }, { 6, 3 }, 2);
	Count({ 6, 6 }, { 3 }, 0);
	Count({}, {}, 0);
	Count({}, {}, 3);
}
VP_HARNESS(h_count_pinned_body)
{
	Count({ 3 }, {}, 0);
	Count({ 6, 3 }, { 3 }, 1);
}
VP_HARNESS(h_null)
{
	Sys* s = Make({ 6 }, {}, 1);
	double t = 1, dt = 0.01;
	unsigned which = Uint("null", 0, 2);
	Check(s->M->Step(which == 0 ? nullptr : s->x, which == 1 ? nullptr : s->xd, which == 2 ? nullptr : s->f, t, dt) == MOORDYN_INVALID_VALUE, "null array rejected");
	Check(s->S->n == 0 && t == 1.0, "rejected: nothing advanced");
	dt = 0;
	Check(s->M->Step(s->x, s->xd, nullptr, t, dt) == MOORDYN_INVALID_VALUE && s->M->GetForces(nullptr) == MOORDYN_INVALID_VALUE, "null force array rejected");
}
VP_HARNESS(h_nothing_to_do)
{
	Sys* s = Make({ 6 }, { 3 }, 1);
	const double t0 = s->S->t;
	double t = t0, dt = Real("dt", -3, 0);
	Assume(dt <= 0);
	Check(s->M->Step(s->x, s->xd, s->f, t, dt) == MOORDYN_SUCCESS, "no time to advance: accepted");
	Forces(s);
	Check(s->S->n == 0, "no time to advance: nothing advanced");
	CheckEq(t, t0, "no time to advance: same time");
}
VP_HARNESS(h_uncoupled)
{
	Sys* s = Make({}, {}, 0);
	const double dt0 = 0.005;
	s->S->limit = 1e-2;
	double t = s->S->t, dt = dt0;
	const double t0 = t;
	Check(s->M->NCoupledDOF() == 0 && s->M->Step(nullptr, nullptr, nullptr, t, dt) == MOORDYN_SUCCESS, "no coupled objects: no arrays needed");
	CheckEq(t, t0 + dt0, "time advanced by the step");
	Check(s->M->GetForces(nullptr) == MOORDYN_SUCCESS, "no coupled objects: no forces");
}
VP_HARNESS(h_substeps)
{
	// any time to advance, any longest step of the model
	Sys* s = Make({}, {}, 1);
	const double dt0 = Pos("dt", 0.001, 1.0), t0 = s->S->t;
	s->S->limit = s->M->dtM0 = Pos("dtM", 0.03, 2.0);
	double t = t0, dt = dt0;
	Check(s->M->Step(s->x, s->xd, s->f, t, dt) == MOORDYN_SUCCESS, "accepted");
	CheckEq(s->S->total, dt0, "the steps taken add up to the time asked for");
	CheckEq(t, t0 + dt0, "time advanced by the time asked for");
#ifdef VP_ENGINE
	Check(TheOut().calls == 1, "output once per call");
	CheckEq(TheOut().t, t0 + dt0, "output at the end of the step");
#endif
}
VP_HARNESS(h_errors)
{
	Sys* s = Make({}, {}, 1);
	double t = s->S->t, dt = 0.005;
	s->S->limit = 1e-2;
	s->S->fails = true;
	Check(s->M->Step(s->x, s->xd, s->f, t, dt) == MOORDYN_NAN_ERROR, "failure of the time scheme reported");
	CheckEq(s->f[0], 7.0, "no forces after a failure");
#ifdef VP_ENGINE
	s->S->fails = false;
	TheOut().err = MOORDYN_INVALID_OUTPUT_FILE;
	Check(s->M->Step(s->x, s->xd, s->f, t, dt) == MOORDYN_INVALID_OUTPUT_FILE, "failure of the output reported");
#endif
}
#ifdef VP_ENGINE
// MoorDyn::Init: the same order; the objects are reached through their contracts (C08 to C11), the water through C18
static void Start(const std::vector<int>& bodies, const std::vector<int>& rods, unsigned points)
{
	Sys* s = Make(bodies, rods, points);
	MoorDyn* M = s->M;
	new (&M->FixedBodyIs) decltype(M->FixedBodyIs)();
	new (&M->_basepath) decltype(M->_basepath)();
	new (&M->_basename) decltype(M->_basename)();
	new (&M->outChans) decltype(M->outChans)();
	new (&M->env) decltype(M->env)(MakeEnv());
	new (&M->waves) decltype(M->waves)(MakePointWaves());
	new (&M->seafloor) decltype(M->seafloor)();
	M->GroundBody = M->BodyList[0];
	M->dtM0 = Pos("dtM");
	const double dt0 = M->dtM0;
	TheAsked() = Asked{};
	int e = M->Init(s->x, s->xd, true);
	Check(e == MOORDYN_SUCCESS || e == MOORDYN_INVALID_OUTPUT_FILE, "accepted");
	const Asked& k = TheAsked();
	Check(k.bodies == (int)bodies.size() && k.rods == (int)rods.size() && k.points == (int)points, "every coupled object placed once");
	CheckEq(k.tau, 0.0, "placed where they are at the start");
	CheckLe(M->dtM0, dt0, "no longer time step than asked for");
	CheckEq(s->S->t, 0.0, "time starts at zero");
	unsigned ix = 0;
	for (unsigned i = 0; i < bodies.size(); i++)
		for (int c = 0; c < bodies[i]; c++, ix++) {
			CheckEq(k.br[i](c), s->x[ix], "bodies start at the first positions");
			CheckEq(k.bv[i](c), s->xd[ix], "bodies start with the first velocities");
			CheckEq(k.ba[i](c), 0.0, "bodies start without acceleration");
		}
	for (unsigned i = 0; i < rods.size(); i++)
		for (int c = 0; c < rods[i]; c++, ix++) {
			CheckEq(M->RodList[i + 1]->r_ves(c), s->x[ix], "rods start at the next positions");
			CheckEq(M->RodList[i + 1]->rd_ves(c), s->xd[ix], "rods start with the next velocities");
		}
	for (unsigned i = 0; i < points; i++)
		for (int c = 0; c < 3; c++, ix++) {
			CheckEq(M->PointList[i + 1]->r_ves(c), s->x[ix], "points start at the last positions");
			CheckEq(M->PointList[i + 1]->rd_ves(c), s->xd[ix], "points start with the last velocities");
		}
}
VP_HARNESS(h_start) { Start({ 6, 3 }, { 3, 6 }, 2); }
VP_HARNESS(h_start_points) { Start({}, {}, 3); }
VP_HARNESS(h_start_null)
{
	Sys* s = Make({ 6 }, {}, 1);
	unsigned which = Uint("null", 0, 1);
	Check(s->M->Init(which == 0 ? nullptr : s->x, which == 1 ? nullptr : s->xd, true) == MOORDYN_INVALID_VALUE, "null array rejected");
}
#endif
