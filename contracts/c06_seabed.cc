// C06: seabed contact and friction on every line node
#include "vp_linestub.hpp"
using namespace moordyn;
using namespace vp;

static void seabed(bool bending, bool floor)
{
	Line* L = SetupLine(bending);
	if (floor) L->seafloor = MakeSeafloor();
	unsigned k = AnyNode(L);
	L->getStateDeriv();
	vec B = L->B[k], v = L->rd[k];
	double bed = floor ? L->seafloor->getDepthAt(L->r[k](0), L->r[k](1)) : -L->env->WtrDpth;
	double pen = bed - L->r[k](2);
	if (pen > 0.0) {
		double area = Adjacent(L, k, [&](unsigned i) { return 0.5 * L->d * L->l[i]; });
		double n = (pen * L->env->kb - v(2) * L->env->cb) * area;
		CheckEq(B(2), n, "normal seabed reaction");
		double sp = std::sqrt(v(0) * v(0) + v(1) * v(1));
		double fmax = L->env->FrictionCoefficient * std::fabs(n);
		double f = L->env->FrictionCoefficient * L->env->FricDamp * sp;
		if (f > L->env->StatDynFricScale * fmax) f = fmax;
		CheckEq(B(0) * sp, -f * v(0), "friction along x");
		CheckEq(B(1) * sp, -f * v(1), "friction along y");
		if (sp == 0.0) {
			CheckEq(B(0), 0.0, "no friction at rest x");
			CheckEq(B(1), 0.0, "no friction at rest y");
		}
	} else {
		CheckEq(B, V(0, 0, 0), "no contact force above the seabed");
	}
}
VP_HARNESS(h_flat) { seabed(false, false); }
VP_HARNESS(h_flat_bending) { seabed(true, false); }
VP_HARNESS(h_bathymetry) { seabed(false, true); }
