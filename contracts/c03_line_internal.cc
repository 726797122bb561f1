// C03: internal line forces (axial tension, internal damping, bending) and the
// nodal force balance, for any number of segments, any node positions and
// velocities, any line properties.
#include "vp_linestub.hpp"
using namespace moordyn;
using namespace vp;

static Line* Setup(bool bending) { return SetupLine(bending); }

// stretched length, direction, tension-only axial force, axial damping
static void tension(bool bending)
{
	Line* L = Setup(bending);
	unsigned N = L->N;
	unsigned k = Uint("k", 0, 1000000);
	Assume(k < N);
	double E0 = L->E, c0 = L->c, A0 = L->A, lk = L->l[k];
	vec dr = L->r[k + 1] - L->r[k], dv = L->rd[k + 1] - L->rd[k];
	L->getStateDeriv();
	double len = std::sqrt(Dot(dr, dr));
	CheckEq(L->lstr[k], len, "stretched segment length");
	CheckEq(vec(L->qs[k] * len), dr, "segment direction");
	vec T = L->T[k];
	if (len > lk) {
		CheckEq(vec(T * (lk * len)), vec(E0 * A0 * (len - lk) * dr), "tension of a stretched segment");
	} else {
		CheckEq(T, V(0, 0, 0), "no compression in a slack segment");
	}
	double rate = Dot(dr, dv);
	CheckEq(vec(L->Td[k] * (lk * len * len)), vec(c0 * A0 * rate * dr), "axial damping force");
	CheckEq(L->l[k], lk, "unstretched length kept");
	CheckEq(L->E, E0, "stiffness kept");
}
VP_HARNESS(h_tension) { tension(false); }
VP_HARNESS(h_tension_bending) { tension(true); }

// nodal force = difference of the segment forces + external loads
static void balance(bool bending)
{
	Line* L = Setup(bending);
	unsigned N = L->N;
	unsigned k = Uint("k", 0, 1000000);
	Assume(k <= N);
	L->getStateDeriv();
	vec F = L->W[k] + L->Dp[k] + L->Dq[k] + L->Ap[k] + L->Aq[k] + L->B[k] + L->Bs[k] + L->Pb[k];
	if (k < N) F += L->T[k] + L->Td[k];
	if (k > 0) F -= L->T[k - 1] + L->Td[k - 1];
	CheckEq(vec(L->Fnet[k]), F, "nodal force balance", 1e2);
}
VP_HARNESS(h_balance) { balance(false); }
VP_HARNESS(h_balance_bending) { balance(true); }

// bending: every nodal moment M_j = EI K_j p_j acts as a couple on each adjacent
// segment, so the set of bending forces is self-equilibrated
static vec Couple(Line* L, unsigned seg, unsigned node)
{
	vec m = L->EI * L->Kurv[node] * L->pvec[node];
	return vec(Cross(L->qs[seg], m) / L->lstr[seg]);
}
VP_HARNESS(h_bending)
{
	Line* L = Setup(true);
	unsigned N = L->N;
	unsigned k = Uint("k", 0, 1000000);
	Assume(k <= N);
	L->getStateDeriv();
	vec F = V(0, 0, 0);
	if (L->EI > 0.0) {
		if (k > 0) F += Couple(L, k - 1, k - 1) - Couple(L, k - 1, k);
		if (k < N) F += Couple(L, k, k + 1) - Couple(L, k, k);
	}
	CheckEq(vec(L->Bs[k]), F, "bending forces are couples", 1e2);
}
// curvature of node k and its normal
VP_HARNESS(h_curvature)
{
	Line* L = Setup(true);
	unsigned N = L->N;
	Assume(L->EI > 0.0);
	unsigned k = Uint("k", 0, 1000000);
	Assume(k > 0 && k < N);
	L->getStateDeriv();
	double c = Dot(L->qs[k - 1], L->qs[k]), len = L->lstr[k - 1] + L->lstr[k];
	Assume(c < 1.0 - 1e-9);
	double K = L->Kurv[k];
	CheckEq(K * K * len * len, 8.0 * (1.0 - c), "curvature of an internal node");
	CheckLe(0.0, K, "curvature is not negative");
}
