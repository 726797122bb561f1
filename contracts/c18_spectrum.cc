// C18: linear waves from a spectrum (bounded: two components)
#include "vp.hpp"
#include "Waves/SpectrumKin.hpp"
using namespace moordyn;
using namespace vp;
/// sum of the linear waves of the components; above the wave the motion at its surface
static void Components(bool deep)
{
	waves::SpectrumKin* S = New<waves::SpectrumKin>();
	const int n = 2;
	S->amplitudes.resize(n);
	S->betas.resize(n);
	S->omegas.resize(n);
	S->phases.resize(n);
	S->kValues.resize(n);
	double h = Pos("h", 0.5, 3), A[2], b[2], w[2], f[2], k[2];
	if (deep) h = 100 * h;
	for (int i = 0; i < n; i++) {
		S->amplitudes[i] = A[i] = Real(vp_name_("A", i), -0.1, 0.1);
		S->betas[i] = b[i] = Real(vp_name_("beta", i));
		S->omegas[i] = w[i] = Pos(vp_name_("w", i));
		S->phases[i] = f[i] = Real(vp_name_("phase", i));
		S->kValues[i] = k[i] = Pos(vp_name_("k", i), 0.5, 3);
		Assume(deep ? k[i] * h > 89.4 : k[i] * h <= 89.4);
	}
	vec p = Vec("p"), U, Ud;
	double t = Real("t", 0, 10), bottom = -h + Real("slope", -0.1, 0.1), zeta;
	S->getWaveKin(p, t, -h, bottom, &zeta, &U, &Ud);
	double e = 0, th[2];
	vec eU = vec::Zero(), eA = vec::Zero();
	for (int i = 0; i < n; i++) {
		th[i] = w[i] * t - k[i] * (std::cos(b[i]) * p(0) + std::sin(b[i]) * p(1)) + f[i];
		e += A[i] * std::sin(th[i]);
	}
	CheckEq(zeta, e, "wave height");
	Assume(zeta - bottom > 0.01);
	// the water column from the bottom to the wave is stretched onto the depth at rest
	double s = h * (p(2) - bottom) / (zeta - bottom) - h;
	if (s > 0) s = 0;
	for (int i = 0; i < n; i++) {
		double c = deep ? std::exp(k[i] * s) : std::cosh(k[i] * (s + h)) / std::sinh(k[i] * h);
		double v = deep ? std::exp(k[i] * s) : std::sinh(k[i] * (s + h)) / std::sinh(k[i] * h);
		double a = A[i] * w[i];
		eU += V(a * std::sin(th[i]) * c * std::cos(b[i]), a * std::sin(th[i]) * c * std::sin(b[i]), a * std::cos(th[i]) * v);
		// the time derivative of the velocity
		a = a * w[i];
		eA += V(a * std::cos(th[i]) * c * std::cos(b[i]), a * std::cos(th[i]) * c * std::sin(b[i]), -a * std::sin(th[i]) * v);
	}
	CheckEq(U, eU, "velocity", 10);
	CheckEq(Ud, eA, "acceleration", 10);
}
VP_HARNESS(h_components) { Components(false); }
VP_HARNESS(h_components_deep) { Components(true); }
