// Lists of lines attached to a point or to a rod end.
// Under the verifier the list has a symbolic length and the attached lines are
// opaque: the point/rod reaches them only through the contracts of the Line
// functions below (each proved on its real body in c08_line.cc / c09_line.cc).
// Natively, and in bounded runs, the list holds real lines.
#pragma once
#include "vp_line.hpp"

namespace vp {
using moordyn::EndPoints;
using moordyn::ENDPOINT_A;
using moordyn::ENDPOINT_B;
struct Att {
	std::vector<double> gotend, gotrod, gotn; // ghost: line end, rod end the line was addressed with
	std::vector<vec> r, v, q;                 // ghost: position, velocity, direction received
	std::vector<vec> fA, fB, mA, mB;          // force and moment at either end of the line
	std::vector<mat> MA, MB;                  // mass at either end of the line
	moordyn::Line* real[4];
};
inline Att* Atts()
{
	static Att a[2];
	return a;
}
inline bool Ghost()
{
#ifdef VP_ENGINE
	return !vp_bounded_();
#else
	return false;
#endif
}
/// kinematics the end e of line j has
inline vec EndR(int g, unsigned j, EndPoints e)
{
	Att& a = Atts()[g];
	if (Ghost()) return a.r[j];
	moordyn::Line* L = a.real[j];
	return e == ENDPOINT_B ? L->r[L->N] : L->r[0];
}
inline vec EndV(int g, unsigned j, EndPoints e)
{
	Att& a = Atts()[g];
	if (Ghost()) return a.v[j];
	moordyn::Line* L = a.real[j];
	return e == ENDPOINT_B ? L->rd[L->N] : L->rd[0];
}
/// loads of the end e of line j
inline vec EndF(int g, unsigned j, EndPoints e)
{
	Att& a = Atts()[g];
	if (Ghost()) return e == ENDPOINT_B ? a.fB[j] : a.fA[j];
	moordyn::Line* L = a.real[j];
	return e == ENDPOINT_B ? L->Fnet[L->N] : L->Fnet[0];
}
inline mat EndM(int g, unsigned j, EndPoints e)
{
	Att& a = Atts()[g];
	if (Ghost()) return e == ENDPOINT_B ? a.MB[j] : a.MA[j];
	moordyn::Line* L = a.real[j];
	return e == ENDPOINT_B ? L->M[L->N] : L->M[0];
}
inline vec EndMoment(int g, unsigned j, EndPoints e)
{
	Att& a = Atts()[g];
	if (Ghost()) return e == ENDPOINT_B ? a.mB[j] : a.mA[j];
	moordyn::Line* L = a.real[j];
	return e == ENDPOINT_B ? L->endMomentB : L->endMomentA;
}
/// the right end of line j has been addressed
inline bool EndOk(int g, unsigned j, EndPoints e)
{
	return !Ghost() || Atts()[g].gotend[j] == (e == ENDPOINT_B ? 1.0 : 0.0);
}

/// fill a list of attachments (group g: 0 or 1)
template<class A>
inline void Attach(std::vector<A>& list, int g, EnvCondRef env, moordyn::WavesRef waves)
{
	Att& a = Atts()[g];
	unsigned n = Uint(g ? "nB" : "nA", 0, Ghost() ? 1000000 : 3);
#ifdef VP_ENGINE
	if (Ghost()) {
		A* p = (A*)vp_array_(g ? "att1" : "att0", n, sizeof(A), "pb");
		list._M_impl._M_start = p;
		list._M_impl._M_finish = p + n;
		list._M_impl._M_end_of_storage = p + n;
		Vector(a.gotend, n, g ? "gotend1" : "gotend0");
		Vector(a.gotrod, n, g ? "gotrod1" : "gotrod0");
		Vector(a.r, n, g ? "lr1" : "lr0");
		Vector(a.v, n, g ? "lv1" : "lv0");
		Vector(a.q, n, g ? "lq1" : "lq0");
		Vector(a.fA, n, g ? "lfA1" : "lfA0");
		Vector(a.fB, n, g ? "lfB1" : "lfB0");
		Vector(a.mA, n, g ? "lmA1" : "lmA0");
		Vector(a.mB, n, g ? "lmB1" : "lmB0");
		Vector(a.MA, n, g ? "lMA1" : "lMA0");
		Vector(a.MB, n, g ? "lMB1" : "lMB0");
		return;
	}
#endif
	list.resize(n);
	for (unsigned i = 0; i < n; i++) {
		unsigned tag = 4 * g + i + 1;
		moordyn::Line* L = MakeLine(2 + (tag & 1), env, waves, tag);
		L->number = tag;
		L->endMomentA = Vec(vp_name_("endMomentA", tag));
		L->endMomentB = Vec(vp_name_("endMomentB", tag));
		a.real[i] = L;
		list[i].line = L;
		list[i].end_point = Bool(vp_name_("end", tag)) ? ENDPOINT_B : ENDPOINT_A;
	}
}
template<class A>
inline unsigned AnyOf(const std::vector<A>& list, const char* name = "j")
{
	unsigned j = Uint(name, 0, 1000000);
	Assume(j < list.size());
	return j;
}
}
#ifdef VP_ENGINE
extern "C" {
void stub_setEndKinematics(moordyn::Line* L, moordyn::vec p, moordyn::vec v, moordyn::EndPoints e)
{
	vp::Att& a = vp::Atts()[vp_group_(L)];
	std::uint64_t i = vp_index_(L);
	a.r[i] = p;
	a.v[i] = v;
	a.gotend[i] = (e == moordyn::ENDPOINT_B ? 1.0 : 0.0);
}
void stub_getEndStuff(const moordyn::Line* L, moordyn::vec& F, moordyn::vec& m, moordyn::mat& M, moordyn::EndPoints e)
{
	vp::Att& a = vp::Atts()[vp_group_(L)];
	std::uint64_t i = vp_index_(L);
	bool b = e == moordyn::ENDPOINT_B;
	for (int k = 0; k < 3; k++) {
		F(k) = b ? a.fB[i](k) : a.fA[i](k);
		m(k) = b ? a.mB[i](k) : a.mA[i](k);
		for (int l = 0; l < 3; l++) M(k, l) = b ? a.MB[i](k, l) : a.MA[i](k, l);
	}
}
}
#endif
