// Ghost constructors: a Line in an arbitrary valid state (data-structure
// invariant of Line after initialize(): array sizes tied to N, l[i] > 0, ...).
#pragma once
#include "vp.hpp"
#include "Log.hpp"
#include "Waves.hpp"
#include "Line.hpp"
#include "Seafloor.hpp"

namespace vp {

inline moordyn::Log* TheLog()
{
#ifdef VP_ENGINE
	return (moordyn::Log*)vp_alloc_(sizeof(moordyn::Log));
#else
	static moordyn::Log* l = new moordyn::Log(MOORDYN_NO_OUTPUT, MOORDYN_NO_OUTPUT);
	return l;
#endif
}

inline EnvCondRef MakeEnv()
{
	EnvCondRef e = std::make_shared<EnvCond>();
	e->g = Pos("g", 5, 12);
	e->WtrDpth = Pos("WtrDpth", 0.5, 3);
	e->rho_w = Pos("rho_w", 0.5, 2);
	e->kb = NonNeg("kb", 0, 4);
	e->cb = NonNeg("cb", 0, 4);
	e->FrictionCoefficient = NonNeg("FrictionCoefficient", 0, 2);
	e->FricDamp = NonNeg("FricDamp", 0, 4);
	e->StatDynFricScale = NonNeg("StatDynFricScale", 0, 3);
	e->SeafloorMode = (moordyn::seafloor_settings)0;
	e->WriteUnits = 1;
	e->writeLog = 0;
	return e;
}

/// all array members of a Line have the sizes initialize() gives them
inline moordyn::Line* MakeLine(unsigned N, EnvCondRef env, moordyn::WavesRef waves, unsigned tag = 0)
{
	auto NM = [tag](const char* n) { return tag ? vp_name_(n, tag) : n; };
	using namespace moordyn;
	Line* L = New<Line>(TheLog(), (size_t)0);
	L->number = 1;
	L->env = env;
	L->waves = waves;
	L->N = N;
	L->UnstrLen = Pos(NM("UnstrLen"));
	L->UnstrLen0 = L->UnstrLen;
	L->UnstrLend = Real(NM("UnstrLend"));
	L->d = Pos(NM("d"), 0.05, 2);
	L->A = moordyn::pi / 4. * L->d * L->d;
	L->rho = NonNeg(NM("rho"), 0, 4);
	L->E = NonNeg(NM("E"));
	L->EI = NonNeg(NM("EI"));
	L->c = NonNeg(NM("c"));
	L->Can = NonNeg(NM("Can"), 0, 2);
	L->Cat = NonNeg(NM("Cat"), 0, 2);
	L->Cdn = NonNeg(NM("Cdn"), 0, 2);
	L->Cdt = NonNeg(NM("Cdt"), 0, 2);
	L->BAin = Real(NM("BAin"));
	L->nEApoints = 0;
	L->nEIpoints = 0;
	L->nCpoints = 0;
	L->isPb = false;
	L->t = Real(NM("t"));
	L->endTypeA = Bool(NM("endTypeA")) ? Line::CANTILEVERED : Line::PINNED;
	L->endTypeB = Bool(NM("endTypeB")) ? Line::CANTILEVERED : Line::PINNED;
	L->endMomentA = vec::Zero();
	L->endMomentB = vec::Zero();
	L->outfile = nullptr;
	L->ntWater = 0;
	L->dtWater = 0.0;
	Vector(L->pin, N + 1, NM("pin"));
	Vector(L->r, N + 1, NM("r"));
	Vector(L->rd, N + 1, NM("rd"));
	Vector(L->q, N + 1, NM("q"), -1, 1);
	Scratch(L->pvec, N + 1, NM("pvec"));
	Scratch(L->qs, N, NM("qs"));
	Vector(L->l, N, NM("l"), 0.1, 3);
	Scratch(L->lstr, N, NM("lstr"));
	Scratch(L->ldstr, N, NM("ldstr"));
	Scratch(L->Kurv, N + 1, NM("Kurv"));
	Scratch(L->M, N + 1, NM("M"));
	Vector(L->V, N, NM("V"), 0.1, 3);
	Scratch(L->T, N, NM("T"));
	Scratch(L->Td, N, NM("Td"));
	Scratch(L->Bs, N + 1, NM("Bs"));
	Scratch(L->Pb, N + 1, NM("Pb"));
	Scratch(L->W, N + 1, NM("W"));
	Scratch(L->Dp, N + 1, NM("Dp"));
	Scratch(L->Dq, N + 1, NM("Dq"));
	Scratch(L->Ap, N + 1, NM("Ap"));
	Scratch(L->Aq, N + 1, NM("Aq"));
	Scratch(L->B, N + 1, NM("B"));
	Scratch(L->Fnet, N + 1, NM("Fnet"));
	Scratch(L->F, N, NM("F"));
	return L;
}
/// Line invariant: l[i] > 0 and V[i] = A l[i]  (setup / setUnstretchedLength)
inline void LineInvariant(moordyn::Line* L)
{
	for (unsigned i = 0; i < L->N; i++) {
		vp_assume_(L->l[i] > 0.0);
		L->V[i] = L->A * L->l[i];
	}
}
/// adjacent nodes do not coincide
inline void DistinctNodes(moordyn::Line* L)
{
	for (unsigned i = 0; i < L->N; i++) {
		vec d = L->r[i + 1] - L->r[i];
		vp_assume_(d(0) * d(0) + d(1) * d(1) + d(2) * d(2) > 1e-6);
	}
}

inline moordyn::WavesRef MakeWaves(unsigned nodes)
{
	using namespace moordyn;
	WavesRef w = std::shared_ptr<Waves>(New<Waves>(TheLog()), [](Waves*) {});
	w->nodeKin.lines.structures.resize(1, nullptr);
	w->nodeKin.lines.zetas.resize(1);
	w->nodeKin.lines.U.resize(1);
	w->nodeKin.lines.Ud.resize(1);
	w->nodeKin.lines.Pdyn.resize(1);
	Vector(w->nodeKin.lines.zetas[0], nodes, "zeta");
	Vector(w->nodeKin.lines.U[0], nodes, "U");
	Vector(w->nodeKin.lines.Ud[0], nodes, "Ud");
	Vector(w->nodeKin.lines.Pdyn[0], nodes, "Pdyn");
	return w;
}
}
