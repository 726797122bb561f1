// C04: weight and buoyancy of every node of a line.
#include "vp_linestub.hpp"
using namespace moordyn;
using namespace vp;

static void weight(bool bending)
{
	Line* L = SetupLine(bending);
	unsigned k = AnyNode(L);
	L->getStateDeriv();
	double g = L->env->g, rw = L->env->rho_w, A = L->A, rho = L->rho;
	double w = Adjacent(L, k, [&](unsigned i) { return 0.5 * A * L->l[i] * (Wet(L, i) * rw - rho) * g; });
	CheckEq(L->W[k], V(0, 0, w), "weight and buoyancy of a node");
	if (k < L->N) CheckEq(L->F[k], Wet(L, k), "segment submergence uses its own ends and surface");
}
VP_HARNESS(h_weight) { weight(false); }
VP_HARNESS(h_weight_bending) { weight(true); }
