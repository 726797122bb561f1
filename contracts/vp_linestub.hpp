// Callee contract of Line::calcSubSeg as used by its caller getStateDeriv: a
// function of the end positions, the local surface height and the diameter with
// values in [0, 1].  (The contract itself is proved on the body in C04.)
#pragma once
#include "vp_line.hpp"
#ifdef VP_ENGINE
/// Seafloor::getDepthAt as a function of the horizontal position (its own contract is proved in C17)
extern "C" double stub_depth(moordyn::Seafloor*, double x, double y)
{
	double a[2] = { x, y };
	return vp_fn_real_("seafloorDepth", 2, a);
}
extern "C" double stub_calcSubSeg(moordyn::Line* L, unsigned i, unsigned j, double z)
{
	double a[8] = { L->r[i](0), L->r[i](1), L->r[i](2), L->r[j](0), L->r[j](1), L->r[j](2), z, L->d };
	double x = vp_fn_real_("calcSubSeg", 8, a);
	vp_assume_(x >= 0.0 && x <= 1.0);
	return x;
}
#endif

namespace vp {
inline moordyn::SeafloorRef MakeSeafloor()
{
	using namespace moordyn;
	Seafloor* s = New<Seafloor>(TheLog());
#ifndef VP_ENGINE
	s->px = { -2.0, 0.5, 2.5 };
	s->py = { -1.5, 1.0 };
	s->nx = 3;
	s->ny = 2;
	s->depthGrid.resize(3);
	for (int i = 0; i < 3; i++) {
		s->depthGrid[i].resize(2);
		for (int j = 0; j < 2; j++) s->depthGrid[i][j] = Real(i ? (j ? "z11" : "z10") : (j ? "z01" : "z00"), -3, 0.5);
	}
#endif
	return SeafloorRef(s, [](Seafloor*) {});
}
/// a line of N segments in an arbitrary state, adjacent nodes distinct
inline moordyn::Line* SetupLine(bool bending)
{
	using namespace moordyn;
	unsigned N = Uint("N", 1, 1000000);
	EnvCondRef env = MakeEnv();
	WavesRef w = MakeWaves(N + 1);
	Line* L = MakeLine(N, env, w);
	if (bending) Assume(L->EI > 0.0);
	else L->EI = 0.0;
	L->isPb = Bool("isPb");
	LineInvariant(L);
	DistinctNodes(L);
	return L;
}
/// an arbitrary node 0 <= k <= N
inline unsigned AnyNode(moordyn::Line* L)
{
	unsigned k = Uint("k", 0, 1000000);
	Assume(k <= L->N);
	return k;
}
/// sum over the segments adjacent to node k of f(segment)
template<class Fn>
inline double Adjacent(moordyn::Line* L, unsigned k, Fn f)
{
	double s = 0.0;
	if (k > 0) s += f(k - 1);
	if (k < L->N) s += f(k);
	return s;
}
/// submerged fraction of segment i at the current positions
inline double Wet(moordyn::Line* L, unsigned i)
{
	double z = 0.5 * (L->waves->nodeKin.lines.zetas[0][i] + L->waves->nodeKin.lines.zetas[0][i + 1]);
	return L->calcSubSeg(i, i + 1, z);
}
inline double Norm(const vec& a) { return std::sqrt(Dot(a, a)); }
}
