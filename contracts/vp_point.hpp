// A point in an arbitrary state with any number of attached lines
#pragma once
#include "vp_attach.hpp"
#include "Point.hpp"
namespace vp {
inline moordyn::WavesRef MakePointWaves()
{
	using namespace moordyn;
	WavesRef w = std::shared_ptr<Waves>(New<Waves>(TheLog()), [](Waves*) {});
	w->nodeKin.points.structures.resize(1, nullptr);
	w->nodeKin.points.zetas.resize(1);
	w->nodeKin.points.U.resize(1);
	w->nodeKin.points.Ud.resize(1);
	w->nodeKin.points.Pdyn.resize(1);
	w->nodeKin.points.zetas[0].push_back(Real("zeta"));
	w->nodeKin.points.U[0].push_back(Vec("U"));
	w->nodeKin.points.Ud[0].push_back(Vec("Ud"));
	w->nodeKin.points.Pdyn[0].push_back(Real("Pdyn"));
	return w;
}
inline moordyn::Point* MakePoint(moordyn::Point::types type)
{
	using namespace moordyn;
	EnvCondRef env = MakeEnv();
	WavesRef w = MakePointWaves();
	Point* P = New<Point>(TheLog(), (size_t)0);
	P->number = 1;
	P->type = type;
	P->env = env;
	P->waves = w;
	P->pointM = NonNeg("pointM");
	P->pointV = NonNeg("pointV");
	P->pointF = Vec("pointF");
	P->pointCdA = NonNeg("pointCdA");
	P->pointCa = NonNeg("pointCa");
	P->r = Vec("r");
	P->rd = Vec("rd");
	P->r_ves = Vec("r_ves");
	P->rd_ves = Vec("rd_ves");
	P->Fnet = Vec("Fnet_old");
	P->M = Mat<3, 3>("M_old");
	P->acc = Vec("acc_old");
	Attach(P->attached, 0, env, w);
	return P;
}
}
