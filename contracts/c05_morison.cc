// C05: hydrodynamic loads of a line node (Morison): drag, Froude-Krylov + added mass inertia
#include "vp_linestub.hpp"
using namespace moordyn;
using namespace vp;

static void tangent(bool bending)
{
	Line* L = SetupLine(bending);
	unsigned N = L->N, k = AnyNode(L);
	vec q0 = L->q[k];
	L->getStateDeriv();
	vec q = L->q[k];
	unsigned i = k > 0 ? k - 1 : 0, j = k < N ? k + 1 : N;
	vec dr = L->r[j] - L->r[i];
	bool fixedEnd = bending && L->EI > 0.0 && ((k == 0 && L->endTypeA == Line::CANTILEVERED) || (k == N && L->endTypeB == Line::CANTILEVERED));
	if (fixedEnd) {
		CheckEq(q, q0, "clamped end keeps the imposed direction");
	} else {
		double len = Norm(dr);
		Assume(len > 1e-6);
		CheckEq(vec(q * len), dr, "node tangent joins the neighbouring nodes");
	}
}
VP_HARNESS(h_tangent) { tangent(false); }
VP_HARNESS(h_tangent_bending) { tangent(true); }

static void drag(bool bending)
{
	Line* L = SetupLine(bending);
	unsigned k = AnyNode(L);
	L->getStateDeriv();
	vec q = L->q[k], v = L->waves->nodeKin.lines.U[0][k] - L->rd[k];
	vec vq = Dot(v, q) * q, vp = v - vq;
	double rw = L->env->rho_w;
	double wet = Adjacent(L, k, [&](unsigned i) { return 0.5 * Wet(L, i) * L->l[i]; });
	CheckEq(L->Dp[k], vec(0.5 * rw * L->Cdn * L->d * wet * Norm(vp) * vp), "transverse drag");
	CheckEq(L->Dq[k], vec(0.5 * rw * L->Cdt * moordyn::pi * L->d * wet * Norm(vq) * vq), "tangential drag");
}
VP_HARNESS(h_drag) { drag(false); }
VP_HARNESS(h_drag_bending) { drag(true); }

static void inertia(bool bending)
{
	Line* L = SetupLine(bending);
	unsigned k = AnyNode(L);
	L->getStateDeriv();
	vec q = L->q[k], a = L->waves->nodeKin.lines.Ud[0][k];
	vec aq = Dot(a, q) * q, ap = a - aq;
	double rw = L->env->rho_w;
	double vol = Adjacent(L, k, [&](unsigned i) { return 0.5 * Wet(L, i) * L->A * L->l[i]; });
	CheckEq(L->Ap[k], vec(rw * (1.0 + L->Can) * vol * ap), "transverse fluid inertia force");
	CheckEq(L->Aq[k], vec(rw * (1.0 + L->Cat) * vol * aq), "tangential fluid inertia force");
}
VP_HARNESS(h_inertia) { inertia(false); }
VP_HARNESS(h_inertia_bending) { inertia(true); }

// pressure bending: ½ A l p K (q x p) with p the net internal pressure
static void pressure(bool bending)
{
	Line* L = SetupLine(bending);
	unsigned k = AnyNode(L);
	bool on = L->isPb;
	double pin = L->pin[k];
	L->getStateDeriv();
	if (!on) {
		CheckEq(vec(L->Pb[k]), V(0, 0, 0), "no pressure bending when disabled");
		return;
	}
	double z = L->waves->nodeKin.lines.zetas[0][k] - L->r[k](2), h = z > 0.0 ? z : 0.0;
	double p = pin - (L->env->rho_w * L->env->g * h + L->waves->nodeKin.lines.Pdyn[0][k]);
	double len = Adjacent(L, k, [&](unsigned i) { return 0.5 * L->l[i]; });
	CheckEq(vec(L->Pb[k]), vec(L->A * len * p * L->Kurv[k] * Cross(L->q[k], L->pvec[k])), "pressure bending force");
}
VP_HARNESS(h_pressure) { pressure(false); }
VP_HARNESS(h_pressure_bending) { pressure(true); }
// drag never feeds energy into the line: D.(U - rd) >= 0 for a unit tangent
VP_HARNESS(h_dissipative)
{
	vec q = Vec("q"), v = Vec("v");
	Assume(Dot(q, q) == 1.0 || !VP_SYMBOLIC);
#ifndef VP_ENGINE
	q /= Norm(q);
#endif
	vec vq = Dot(v, q) * q, vp = v - vq;
	CheckLe(0.0, Dot(vp, v), "transverse drag opposes the relative motion");
	CheckLe(0.0, Dot(vq, v), "tangential drag opposes the relative motion");
	CheckEq(vec(vq + vp), v, "the two components add up to the relative velocity");
}
