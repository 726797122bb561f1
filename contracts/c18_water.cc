// C18: the water motion handed to every node of every object
#include "vp_body.hpp"
#include "vp_grid.hpp"
#include "Time.hpp"
using namespace moordyn;
using namespace vp;
static double F(const char* n, const vec& p, double t)
{
	double a[4] = { p(0), p(1), p(2), t };
	return vp_fn_real_(n, 4, a);
}
static vec WU(const vec& p, double t) { return V(F("wux", p, t), F("wuy", p, t), F("wuz", p, t)); }
static vec WA(const vec& p, double t) { return V(F("wax", p, t), F("way", p, t), F("waz", p, t)); }
static vec CU(const vec& p, double t) { return V(F("cux", p, t), F("cuy", p, t), F("cuz", p, t)); }
static vec CA(const vec& p, double t) { return V(F("cax", p, t), F("cay", p, t), F("caz", p, t)); }
/// any wave model: functions of position and time
struct AnyWave : AbstractWaveKin {
	void getWaveKin(const vec3& p, double t, const SeafloorProvider&, double* zeta, vec3* vel, vec3* acc, double* pdyn) override
	{
		if (zeta) *zeta = F("zeta", p, t);
		if (vel) *vel = WU(p, t);
		if (acc) *acc = WA(p, t);
		if (pdyn) *pdyn = F("pdyn", p, t);
	}
};
struct AnyCurrent : AbstractCurrentKin {
	void getCurrentKin(const vec3& p, double t, const SeafloorProvider&, vec3* vel, vec3* acc) override
	{
		if (vel) *vel = CU(p, t);
		if (acc) *acc = CA(p, t);
	}
};
/// a system of two objects of every kind; lines and rods of any length
struct System {
	Waves* w;
	Line* line[2];
	Rod* rod[2];
	Point* point[2];
	Body* body[2];
	double t;
};
template<class C>
static void Register(Waves::NodeKinematics<C>& k, C* c, unsigned j, unsigned nodes, const char* name)
{
	k.structures.push_back(c);
	k.zetas.emplace_back();
	k.U.emplace_back();
	k.Ud.emplace_back();
	k.Pdyn.emplace_back();
	const unsigned tag = j + 1;
	(void)name;
	Vector(k.zetas[j], nodes, vp_name_(name[0] == 'l' ? "lz" : name[0] == 'r' ? "rz" : name[0] == 'p' ? "pz" : "bz", tag));
	Vector(k.U[j], nodes, vp_name_(name[0] == 'l' ? "lU" : name[0] == 'r' ? "rU" : name[0] == 'p' ? "pU" : "bU", tag));
	Vector(k.Ud[j], nodes, vp_name_(name[0] == 'l' ? "lA" : name[0] == 'r' ? "rA" : name[0] == 'p' ? "pA" : "bA", tag));
	Vector(k.Pdyn[j], nodes, vp_name_(name[0] == 'l' ? "lP" : name[0] == 'r' ? "rP" : name[0] == 'p' ? "pP" : "bP", tag));
}
static System Make(bool waves, bool currents, bool external, unsigned N = 0)
{
	System s;
	Waves* w = s.w = New<Waves>((Log*)nullptr);
	TimeScheme* T = (TimeScheme*)vp_alloc_(sizeof(TimeScheme));
	s.t = T->t = Real("t", 0, 10);
	w->_t_integrator = T;
	EnvCondRef env = std::make_shared<EnvCond>();
	env->WtrDpth = Pos("WtrDpth");
	env->waterKinOptions.waveMode = external ? waves::WAVES_EXTERNAL : waves ? waves::WAVES_GRID : waves::WAVES_NONE;
	w->env = env;
	if (waves && !external) w->waveKinematics.reset(New<AnyWave>());
	if (currents) w->currentKinematics.reset(New<AnyCurrent>());
	for (unsigned j = 0; j < 2; j++) {
		Line* L = s.line[j] = New<Line>(TheLog(), (size_t)j);
		L->N = N ? N + j : Uint(j ? "N2" : "N1", 1, Symbolic() ? 1000000 : 4);
		Vector(L->r, L->N + 1, j ? "r2" : "r1");
		Register(w->nodeKin.lines, L, j, L->N + 1, "l");
		Rod* R = s.rod[j] = New<Rod>(TheLog(), (size_t)j);
		R->N = N ? N - j : Uint(j ? "M2" : "M1", 0, Symbolic() ? 1000000 : 4);
		Vector(R->r, R->N + 1, j ? "s2" : "s1");
		Register(w->nodeKin.rods, R, j, R->N + 1, "r");
		Point* P = s.point[j] = New<Point>(TheLog(), (size_t)j);
		P->r = Vec(j ? "p2" : "p1");
		Register(w->nodeKin.points, P, j, 1, "p");
		Body* B = s.body[j] = New<Body>(TheLog(), (size_t)j);
		B->r7.pos = Vec(j ? "b2" : "b1");
		Register(w->nodeKin.bodies, B, j, 1, "b");
	}
	return s;
}
template<class C>
static void Got(Waves::NodeKinematics<C>& k, unsigned j, unsigned i, const vec& p, double t, bool waves, bool currents, double z0, double P0, const char* nu, const char* na, const char* nz, const char* np)
{
	vec U = vec::Zero(), A = vec::Zero();
	if (waves) {
		U += WU(p, t);
		A += WA(p, t);
	}
	if (currents) {
		U += CU(p, t);
		A += CA(p, t);
	}
	CheckEq(k.U[j][i], U, nu);
	CheckEq(k.Ud[j][i], A, na);
	CheckEq(k.zetas[j][i], waves ? F("zeta", p, t) : z0, nz);
	CheckEq(k.Pdyn[j][i], waves ? F("pdyn", p, t) : P0, np);
}
static void Update(bool waves, bool currents)
{
	System s = Make(waves, currents, false);
	Waves* w = s.w;
	unsigned i = Uint("i", 0, Symbolic() ? 1000000 : 4);
	double z[2][4], P[2][4];
	for (unsigned j = 0; j < 2; j++) {
		unsigned il = i <= s.line[j]->N ? i : 0, ir = i <= s.rod[j]->N ? i : 0;
		z[j][0] = w->nodeKin.lines.zetas[j][il];
		z[j][1] = w->nodeKin.rods.zetas[j][ir];
		z[j][2] = w->nodeKin.points.zetas[j][0];
		z[j][3] = w->nodeKin.bodies.zetas[j][0];
		P[j][0] = w->nodeKin.lines.Pdyn[j][il];
		P[j][1] = w->nodeKin.rods.Pdyn[j][ir];
		P[j][2] = w->nodeKin.points.Pdyn[j][0];
		P[j][3] = w->nodeKin.bodies.Pdyn[j][0];
	}
	w->updateWaves();
	for (unsigned j = 0; j < 2; j++) {
		if (i <= s.line[j]->N)
			Got(w->nodeKin.lines, j, i, s.line[j]->r[i], s.t, waves, currents, z[j][0], P[j][0], "line: velocity", "line: acceleration", "line: wave height", "line: pressure");
		if (i <= s.rod[j]->N)
			Got(w->nodeKin.rods, j, i, s.rod[j]->r[i], s.t, waves, currents, z[j][1], P[j][1], "rod: velocity", "rod: acceleration", "rod: wave height", "rod: pressure");
		Got(w->nodeKin.points, j, 0, s.point[j]->r, s.t, waves, currents, z[j][2], P[j][2], "point: velocity", "point: acceleration", "point: wave height", "point: pressure");
		Got(w->nodeKin.bodies, j, 0, s.body[j]->r7.pos, s.t, waves, currents, z[j][3], P[j][3], "body: velocity", "body: acceleration", "body: wave height", "body: pressure");
	}
}
VP_HARNESS(h_waves_and_current) { Update(true, true); }
VP_HARNESS(h_waves) { Update(true, false); }
VP_HARNESS(h_current) { Update(false, true); }
VP_HARNESS(h_query)
{
	// the water motion at any place: waves plus current at the present time
	const bool waves = Bool("waves"), currents = Bool("currents");
	Waves* w = New<Waves>((Log*)nullptr);
	TimeScheme* T = (TimeScheme*)vp_alloc_(sizeof(TimeScheme));
	T->t = Real("t", 0, 10);
	w->_t_integrator = T;
	w->env = std::make_shared<EnvCond>();
	w->env->WtrDpth = Pos("WtrDpth");
	if (waves) w->waveKinematics.reset(New<AnyWave>());
	if (currents) w->currentKinematics.reset(New<AnyCurrent>());
	vec p = Vec("p"), U = V(7, 7, 7), A = V(7, 7, 7), eU = vec::Zero(), eA = vec::Zero();
	double zeta = 7, pdyn = 7;
	w->getWaveKin(p, zeta, U, A, pdyn, nullptr);
	if (waves) {
		eU += WU(p, T->t);
		eA += WA(p, T->t);
	}
	if (currents) {
		eU += CU(p, T->t);
		eA += CA(p, T->t);
	}
	CheckEq(U, eU, "velocity");
	CheckEq(A, eA, "acceleration");
	CheckEq(zeta, waves ? F("zeta", p, T->t) : 0, "wave height");
	CheckEq(pdyn, waves ? F("pdyn", p, T->t) : 0, "dynamic pressure");
}
// ------------------------------------------------- motion supplied by the caller
static vec EU(const vec& p) { return V(F("eux", p, 0), F("euy", p, 0), F("euz", p, 0)); }
static vec EA(const vec& p) { return V(F("eax", p, 0), F("eay", p, 0), F("eaz", p, 0)); }
static void External(bool currents)
{
	// bounded: lines of 2 and 3 segments, rods of 2 and 1
	System s = Make(true, currents, true, 2);
	Waves* w = s.w;
	if (currents)
		for (unsigned j = 0; j < 2; j++) {
			Register(w->waveKin.lines, s.line[j], j, s.line[j]->N + 1, "l");
			Register(w->waveKin.rods, s.rod[j], j, s.rod[j]->N + 1, "r");
			Register(w->waveKin.points, s.point[j], j, 1, "p");
			Register(w->waveKin.bodies, s.body[j], j, 1, "b");
		}
	std::vector<vec> p = w->getWaveKinematicsPoints();
	Check(p.size() == 16, "one place per node");
	std::vector<vec> u, a;
	for (unsigned k = 0; k < 16; k++) {
		u.push_back(EU(p[k]));
		a.push_back(EA(p[k]));
	}
	w->setWaveKinematics(u, a);
	w->updateWaves();
	auto expect = [&](const vec& r, const vec& U, const vec& A, const char* nu, const char* na) {
		vec eU = EU(r), eA = EA(r);
		if (currents) {
			eU += CU(r, s.t);
			eA += CA(r, s.t);
		}
		CheckEq(U, eU, nu);
		CheckEq(A, eA, na);
	};
	for (unsigned j = 0; j < 2; j++) {
		for (unsigned i = 0; i <= 2 + j; i++) expect(s.line[j]->r[i], w->nodeKin.lines.U[j][i], w->nodeKin.lines.Ud[j][i], "line: velocity", "line: acceleration");
		for (unsigned i = 0; i <= 2 - j; i++) expect(s.rod[j]->r[i], w->nodeKin.rods.U[j][i], w->nodeKin.rods.Ud[j][i], "rod: velocity", "rod: acceleration");
		expect(s.point[j]->r, w->nodeKin.points.U[j][0], w->nodeKin.points.Ud[j][0], "point: velocity", "point: acceleration");
		expect(s.body[j]->r7.pos, w->nodeKin.bodies.U[j][0], w->nodeKin.bodies.Ud[j][0], "body: velocity", "body: acceleration");
	}
}
VP_HARNESS(h_external) { External(false); }
VP_HARNESS(h_external_current) { External(true); }
static void Rejected(unsigned nu, unsigned na)
{
	System s = Make(true, false, true, 2);
	std::vector<vec> u(nu, vec::Zero()), a(na, vec::Zero());
	bool thrown = false;
	try {
		s.w->setWaveKinematics(u, a);
	} catch (moordyn::invalid_value_error&) {
		thrown = true;
	}
	Check(thrown, "rejected");
}
VP_HARNESS(h_external_short) { Rejected(15, 15); }
VP_HARNESS(h_external_uneven) { Rejected(16, 15); }
VP_HARNESS(h_registered)
{
	// every node of a registered object has its own, still zero, water motion; objects register in the order of their ids
	Waves* w = New<Waves>((Log*)nullptr);
	for (unsigned j = 0; j < 2; j++) {
		Line* L = New<Line>(TheLog(), (size_t)j);
		L->N = 2 + j;
		w->addLine(L);
		Rod* R = New<Rod>(TheLog(), (size_t)j);
		R->N = j;
		w->addRod(R);
		w->addPoint(New<Point>(TheLog(), (size_t)j));
		w->addBody(New<Body>(TheLog(), (size_t)j));
	}
	auto fresh = [](const Waves::NodeKinReturnType& kin, unsigned n) {
		const auto& [zetas, U, Ud, Pdyn] = kin;
		Check(zetas.size() == n && U.size() == n && Ud.size() == n && Pdyn.size() == n, "one entry per node");
		for (unsigned i = 0; i < n; i++) {
			CheckEq(U[i], V(0, 0, 0), "no velocity yet");
			CheckEq(Ud[i], V(0, 0, 0), "no acceleration yet");
			CheckEq(zetas[i], 0, "no wave yet");
			CheckEq(Pdyn[i], 0, "no pressure yet");
		}
	};
	for (unsigned j = 0; j < 2; j++) {
		fresh(w->getWaveKinLine(j), 3 + j);
		fresh(w->getWaveKinRod(j), 1 + j);
		fresh(w->getWaveKinPoint(j), 1);
		fresh(w->getWaveKinBody(j), 1);
	}
}
