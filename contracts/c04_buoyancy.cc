// C04: submerged fraction of a segment, weight and buoyancy of a line node.
#include "vp_linestub.hpp"
using namespace moordyn;
using namespace vp;

// Line::calcSubSeg against the geometric definition
static void subseg(int which)
{
	EnvCondRef env = MakeEnv();
	Line* L = MakeLine(1, env, nullptr);
	double s = Real("surface", -1, 1);
	// node positions: any A, any B, written as A = (ax, ay, surface + za), B = A + dr
	double za = Real("za", -2, 2), zb = Real("zb", -2, 2);
	double ax = Real("ax"), ay = Real("ay");
	vec dr = V(Real("dx"), Real("dy"), zb - za);
	vec a = V(ax, ay, s + za), b = V(ax + dr(0), ay + dr(1), s + zb);
	L->r[0] = a;
	L->r[1] = b;
	Assume(dr(0) * dr(0) + dr(1) * dr(1) + dr(2) * dr(2) > 1e-6);
	double dia = L->d;
	if (which == 0) Assume(za < 0.0 && zb < 0.0);
	if (which == 1) Assume(za > 0.0 && zb > 0.0);
	if (which == 2) Assume(za < 0.0 && zb > 0.0);
	if (which == 3) Assume(zb < 0.0 && za > 0.0);
	if (which == 5) Assume((za == 0.0 && zb > 0.0) || (zb == 0.0 && za > 0.0));
	if (which == 6) Assume((za == 0.0 && zb < 0.0) || (zb == 0.0 && za < 0.0));
	double F = L->calcSubSeg(0, 1, s);
	CheckLe(0.0, F, "submerged fraction not negative");
	CheckLe(F, 1.0, "submerged fraction at most one");
	if (which == 0) CheckEq(F, 1.0, "both ends below the surface");
	if (which == 1) CheckEq(F, 0.0, "both ends above the surface");
	if (which == 5) CheckLe(F, 0.5, "one end at the surface, the other above: at most half wet");
	if (which == 6) CheckLe(0.5, F, "one end at the surface, the other below: at least half wet");
	if (which == 2 || which == 3) {
		// wetted share of the height between the lowest and highest point of the
		// cylinder: the end circles reach d/2 cos(inclination) beyond the axis
		double lo = which == 2 ? -za : -zb, hi = which == 2 ? zb : za;
		double len2 = Dot(dr, dr), h2 = dr(0) * dr(0) + dr(1) * dr(1);
		double n = h2 > 0.0 ? 0.5 * dia * h2 / std::sqrt(h2 * len2) : 0.0;
		CheckEq(F * (lo + hi + 2.0 * n), lo + n, "wetted share of a partially submerged segment");
	}
	CheckEq(vec(L->r[0]), a, "node A kept");
	CheckEq(vec(L->r[1]), b, "node B kept");
}
VP_HARNESS(h_sub_wet) { subseg(0); }
VP_HARNESS(h_sub_dry) { subseg(1); }
VP_HARNESS(h_sub_up) { subseg(2); }
VP_HARNESS(h_sub_down) { subseg(3); }
VP_HARNESS(h_sub_any) { subseg(4); }
VP_HARNESS(h_sub_touch_above) { subseg(5); }
VP_HARNESS(h_sub_touch_below) { subseg(6); }
