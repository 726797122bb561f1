// A body in an arbitrary state with any number of attached points and rods.
// Under the verifier the attached objects are opaque and reached through the
// contracts of Point/Rod (c08_point, c08_rod, c09_point, c10_rod); natively and
// in bounded runs they are real.
#pragma once
#include "vp_point.hpp"
#include "vp_rod.hpp"
#include "Body.hpp"
namespace vp {
struct BAtt {
	std::vector<vec> pr, pv;          // ghost: kinematics received by the points
	std::vector<vec6> rr, rv;         // ghost: kinematics received by the rods
	std::vector<vec6> pF, rF;         // loads returned by points and rods
	std::vector<Eigen::Matrix<double, 6, 1>> pM[6], rM[6]; // columns of the mass returned
	vec pref, rref;                   // ghost: reference point and velocity they were asked for
	vec6 pvel, rvel;
	double okp, okr;
};
inline BAtt& BAtts()
{
	static BAtt b;
	return b;
}
inline moordyn::WavesRef MakeBodyWaves()
{
	using namespace moordyn;
	WavesRef w = MakePointWaves();
	w->nodeKin.bodies.structures.resize(1, nullptr);
	w->nodeKin.bodies.zetas.resize(1);
	w->nodeKin.bodies.U.resize(1);
	w->nodeKin.bodies.Ud.resize(1);
	w->nodeKin.bodies.Pdyn.resize(1);
	w->nodeKin.bodies.zetas[0].push_back(Real("zetaB"));
	w->nodeKin.bodies.U[0].push_back(Vec("UB"));
	w->nodeKin.bodies.Ud[0].push_back(Vec("UdB"));
	w->nodeKin.bodies.Pdyn[0].push_back(Real("PdynB"));
	return w;
}
template<class A>
inline void Opaque(std::vector<A>& list, const char* name, unsigned n)
{
	A* p = (A*)vp_array_(name, n, sizeof(A), "p");
	list._M_impl._M_start = p;
	list._M_impl._M_finish = p + n;
	list._M_impl._M_end_of_storage = p + n;
}
inline moordyn::Body* MakeBody(moordyn::Body::types type)
{
	using namespace moordyn;
	EnvCondRef env = MakeEnv();
	WavesRef w = MakeBodyWaves();
	Body* B = New<Body>(TheLog(), (size_t)0);
	B->number = 1;
	B->type = type;
	B->env = env;
	B->waves = w;
	B->body_r6 = Vec6("body_r6");
	B->body_rCG = Vec("rCG");
	B->bodyM = NonNeg("bodyM");
	B->bodyV = NonNeg("bodyV");
	B->bodyI = Vec("bodyI", 0, 3);
	B->bodyCdA = Vec6("bodyCdA", 0, 3);
	B->bodyCa = Vec6("bodyCa", 0, 3);
	B->r7 = Pose("r7p", "r7q");
	B->v6 = Vec6("v6");
	B->dPos = Pose("dposp", "dposq");
	B->a6 = Vec6("a6");
	B->r_ves = Vec6("r_ves");
	B->rd_ves = Vec6("rd_ves");
	B->rdd_ves = Vec6("rdd_ves");
	B->F6net = Vec6("F6_old");
	B->M = Mat<6, 6>("M_old");
	B->M0 = Mat<6, 6>("M0");
	B->OrMat = Mat<3, 3>("OrMat");
	B->outfile = nullptr;
	unsigned nP = Uint("nP", 0, Ghost() ? 1000000 : 2), nR = Uint("nR", 0, Ghost() ? 1000000 : 2);
	Vector(B->rPointRel, nP, "rPointRel");
	Vector(B->r6RodRel, nR, "r6RodRel");
#ifdef VP_ENGINE
	if (Ghost()) {
		BAtt& b = BAtts();
		Opaque(B->attachedP, "pts2", nP);
		Opaque(B->attachedR, "rods3", nR);
		Vector(b.pr, nP, "bpr");
		Vector(b.pv, nP, "bpv");
		Vector(b.pF, nP, "bpF");
		Vector(b.rr, nR, "brr");
		Vector(b.rv, nR, "brv");
		Vector(b.rF, nR, "brF");
		for (int c = 0; c < 6; c++) {
			Vector(b.pM[c], nP, vp_name_("bpM", c));
			Vector(b.rM[c], nR, vp_name_("brM", c));
		}
		return B;
	}
#endif
	for (unsigned i = 0; i < nP; i++) {
		Point* P = New<Point>(TheLog(), (size_t)0);
		P->number = i + 1;
		P->type = Point::FIXED;
		P->env = env;
		P->waves = w;
		P->pointM = NonNeg(vp_name_("pM", i));
		P->pointV = NonNeg(vp_name_("pV", i));
		P->pointF = Vec(vp_name_("pF", i));
		P->pointCdA = NonNeg(vp_name_("pCdA", i));
		P->pointCa = NonNeg(vp_name_("pCa", i));
		P->r = Vec(vp_name_("pr", i));
		P->rd = Vec(vp_name_("prd", i));
		B->attachedP.push_back(P);
	}
	if (nR) {
		w->nodeKin.rods.structures.resize(1, nullptr);
		w->nodeKin.rods.zetas.resize(1);
		w->nodeKin.rods.U.resize(1);
		w->nodeKin.rods.Ud.resize(1);
		w->nodeKin.rods.Pdyn.resize(1);
		for (int i = 0; i < 2; i++) {
			w->nodeKin.rods.zetas[0].push_back(Real(vp_name_("rz", i)));
			w->nodeKin.rods.U[0].push_back(Vec(vp_name_("rU", i)));
			w->nodeKin.rods.Ud[0].push_back(Vec(vp_name_("rUd", i)));
			w->nodeKin.rods.Pdyn[0].push_back(Real(vp_name_("rP", i)));
		}
	}
	for (unsigned i = 0; i < nR; i++) {
		Rod* R = New<Rod>(TheLog(), (size_t)0);
		RodProps pr;
		pr.d = Pos(vp_name_("rd_", i), 0.1, 1);
		pr.w = Pos(vp_name_("rw_", i));
		pr.Can = NonNeg(vp_name_("rCan", i), 0, 2);
		pr.Cat = NonNeg(vp_name_("rCat", i), 0, 2);
		pr.Cdn = NonNeg(vp_name_("rCdn", i), 0, 2);
		pr.Cdt = NonNeg(vp_name_("rCdt", i), 0, 2);
		pr.CdEnd = NonNeg(vp_name_("rCdE", i), 0, 2);
		pr.CaEnd = NonNeg(vp_name_("rCaE", i), 0, 2);
		vec6 ends;
		for (int k = 0; k < 6; k++) ends(k) = k == 5 ? 1.0 : 0.0;
		R->setup(i + 1, Bool(vp_name_("rpin", i)) ? Rod::PINNED : Rod::FIXED, &pr, ends, 1, env, nullptr, "");
		R->waves = w;
		R->r7.quat = quaternion::Identity();
		R->v6 = Vec6(vp_name_("rv6", i));
		B->attachedR.push_back(R);
	}
	return B;
}
}
#ifdef VP_ENGINE
extern "C" {
void stub_pointKin(moordyn::Point* P, moordyn::vec r, moordyn::vec v)
{
	std::uint64_t i = vp_index_(P);
	vp::BAtts().pr[i] = r;
	vp::BAtts().pv[i] = v;
}
void stub_rodKin(moordyn::Rod* R, moordyn::vec6 r, moordyn::vec6 v)
{
	std::uint64_t i = vp_index_(R);
	vp::BAtts().rr[i] = r;
	vp::BAtts().rv[i] = v;
}
void stub_pointLoads(moordyn::Point* P, moordyn::vec6& F, moordyn::mat6& M, moordyn::vec r, moordyn::vec6 v)
{
	std::uint64_t i = vp_index_(P);
	vp::BAtt& b = vp::BAtts();
	for (int k = 0; k < 3; k++) vp_check_eq_(r(k), b.pref(k), 0, "point loads about the body reference");
	for (int k = 0; k < 6; k++) vp_check_eq_(v(k), b.pvel(k), 0, "point loads at the body velocity");
	F = b.pF[i];
	for (int c = 0; c < 6; c++)
		for (int k = 0; k < 6; k++) M(k, c) = b.pM[c][i](k);
}
void stub_rodLoads(moordyn::Rod* P, moordyn::vec6& F, moordyn::mat6& M, moordyn::vec r, moordyn::vec6 v)
{
	std::uint64_t i = vp_index_(P);
	vp::BAtt& b = vp::BAtts();
	for (int k = 0; k < 3; k++) vp_check_eq_(r(k), b.pref(k), 0, "rod loads about the body reference");
	for (int k = 0; k < 6; k++) vp_check_eq_(v(k), b.pvel(k), 0, "rod loads at the body velocity");
	F = b.rF[i];
	for (int c = 0; c < 6; c++)
		for (int k = 0; k < 6; k++) M(k, c) = b.rM[c][i](k);
}
}
#endif
