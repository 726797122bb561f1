// C17: water kinematics between the points of the wave and current grids
#include "vp_grid.hpp"
#include "Log.hpp"
#include "Seafloor.hpp"
#include "Waves.hpp"
#include "Util/Interp.hpp"
using namespace moordyn;
using namespace vp;
#ifdef VP_ENGINE
extern "C" unsigned stub_factor(const std::vector<double>& x, unsigned i0, const double& X, double& f) { return Looked(x, i0, X, f); }
#endif
/// Seafloor::getDepthAt as a function of the horizontal position
extern "C" double stub_depth(void*, double x, double y)
{
	double a[2] = { x, y };
	return vp_fn_real_("bottom", 2, a);
}
/// value of a grid between the points of a cell and two instants
template<class G>
static auto Mix(const G& g, const Cell& x, const Cell& y, const Cell& z, const Cell& t) -> typename Leaf<G>::type
{
	using L = typename Leaf<G>::type;
	const L a = (1 - x.f) * (1 - y.f) * (1 - z.f) * ((1 - t.f) * g[x.lo][y.lo][z.lo][t.lo] + t.f * g[x.lo][y.lo][z.lo][t.up]);
	const L b = x.f * (1 - y.f) * (1 - z.f) * ((1 - t.f) * g[x.up][y.lo][z.lo][t.lo] + t.f * g[x.up][y.lo][z.lo][t.up]);
	const L c = (1 - x.f) * y.f * (1 - z.f) * ((1 - t.f) * g[x.lo][y.up][z.lo][t.lo] + t.f * g[x.lo][y.up][z.lo][t.up]);
	const L d = x.f * y.f * (1 - z.f) * ((1 - t.f) * g[x.up][y.up][z.lo][t.lo] + t.f * g[x.up][y.up][z.lo][t.up]);
	const L e = (1 - x.f) * (1 - y.f) * z.f * ((1 - t.f) * g[x.lo][y.lo][z.up][t.lo] + t.f * g[x.lo][y.lo][z.up][t.up]);
	const L f = x.f * (1 - y.f) * z.f * ((1 - t.f) * g[x.up][y.lo][z.up][t.lo] + t.f * g[x.up][y.lo][z.up][t.up]);
	const L h = (1 - x.f) * y.f * z.f * ((1 - t.f) * g[x.lo][y.up][z.up][t.lo] + t.f * g[x.lo][y.up][z.up][t.up]);
	const L i = x.f * y.f * z.f * ((1 - t.f) * g[x.up][y.up][z.up][t.lo] + t.f * g[x.up][y.up][z.up][t.up]);
	return a + b + c + d + e + f + h + i;
}
static double Mix3(const std::vector<std::vector<std::vector<double>>>& g, const Cell& x, const Cell& y, const Cell& t)
{
	const double a = (1 - t.f) * g[x.lo][y.lo][t.lo] + t.f * g[x.lo][y.lo][t.up];
	const double b = (1 - t.f) * g[x.up][y.lo][t.lo] + t.f * g[x.up][y.lo][t.up];
	const double c = (1 - t.f) * g[x.lo][y.up][t.lo] + t.f * g[x.lo][y.up][t.up];
	const double d = (1 - t.f) * g[x.up][y.up][t.lo] + t.f * g[x.up][y.up][t.up];
	return (1 - x.f) * (1 - y.f) * a + x.f * (1 - y.f) * b + (1 - x.f) * y.f * c + x.f * y.f * d;
}
/// an instant inside the series: sample k plus the share f of the interval to the next one
static Cell Instant(unsigned nt, double dt, double& time)
{
	Cell c;
	if (nt == 1) {
		time = NonNeg("time", 0, 10);
		c.lo = c.up = 0;
		c.f = 0;
		return c;
	}
	c.lo = Uint("k", 0, Symbolic() ? 16000 : 2);
	c.f = Real("ft", 0, 0.999);
	Assume(0 <= c.f && c.f < 1 && c.lo + 1 < nt);
	c.up = c.lo + 1;
	time = (c.lo + c.f) * dt;
#ifndef VP_ENGINE
	// the sample the instant belongs to after rounding
	Assume(std::floor(time / dt) == c.lo);
#endif
	return c;
}
static SeafloorProvider Floor(bool grid)
{
	SeafloorProvider f{ -Pos("WtrDpth", 0.5, 3), nullptr };
#ifdef VP_ENGINE
	if (grid) {
		Seafloor* s = New<Seafloor>((Log*)nullptr);
		s->averageDepth = f.waterDepth;
		f.seafloor = SeafloorRef(SeafloorRef(), s);
	}
#endif
	return f;
}
static double Stretched(double depth, double z, double bottom, double zeta) { return depth - depth * (z - bottom) / (zeta - bottom); }
VP_HARNESS(h_stretching)
{
	double depth = -Pos("WtrDpth"), z = Real("z"), bottom = Real("bottom"), zeta = Real("zeta");
	Assume(zeta - bottom > 0.01);
	CheckEq(Stretched(depth, bottom, bottom, zeta), depth, "the bottom stays the bottom");
	CheckEq(Stretched(depth, zeta, bottom, zeta), 0, "the wave becomes the surface of the grid");
	Check((Stretched(depth, z, bottom, zeta) > 1e-9) ? z > zeta : true, "above the grid only above the wave");
	Check((z > zeta + 1e-9) ? Stretched(depth, z, bottom, zeta) > 0 : true, "above the wave above the grid");
}
/// the series repeats itself: instant inside period m, after sample k
static Cell Later(unsigned nt, double dt, unsigned m, unsigned k, double& time)
{
	Cell c;
	c.lo = k;
	c.up = k + 1 < nt ? k + 1 : 0;
	c.f = Real("ft", 0, 0.999);
	Assume(0 <= c.f && c.f < 1);
	time = (double(m * nt + k) + c.f) * dt;
#ifndef VP_ENGINE
	Assume(std::floor(time / dt) == m * nt + k);
#endif
	return c;
}
static void Wave(bool grid, bool series, unsigned period = 0, unsigned sample = 0)
{
	WaveGrid* W = New<WaveGrid>((Log*)nullptr, std::vector<double>(), std::vector<double>(), std::vector<double>(), 0u, 0.0);
	W->nx = Extent("nx");
	W->ny = Extent("ny");
	W->nz = Extent("nz");
	const bool later = period || sample;
	W->nt = later ? 3 : series ? Extent("nt") : 1;
	if (series) Assume(W->nt >= 2);
	W->dtWave = Pos("dt", 0.1, 1);
	Axis(W->px, W->nx, "px");
	Axis(W->py, W->ny, "py");
	Axis(W->pz, W->nz, "pz");
	Grid(W->zetas, "zeta", W->nx, W->ny, W->nt);
	Grid(W->pDyn, "pDyn", W->nx, W->ny, W->nz, W->nt);
	Grid(W->wave_vel, "vel", W->nx, W->ny, W->nz, W->nt);
	Grid(W->wave_acc, "acc", W->nx, W->ny, W->nz, W->nt);
	Searching(&W->px, &W->py, &W->pz);
	SeafloorProvider fl = Floor(grid);
	vec p = Vec("p", -4, 4);
	double time, zeta = 0, pdyn = 0;
	Cell T = later ? Later(W->nt, W->dtWave, period, sample, time) : Instant(W->nt, W->dtWave, time);
	vec U = vec::Zero(), Ud = vec::Zero();
	double bottom = fl.getDepth(vec2(p(0), p(1)));
	W->getWaveKin(p, time, fl, &zeta, &U, &Ud, &pdyn);
	Cell X = Find(W->px, p(0), 0), Y = Find(W->py, p(1), 1);
	CheckEq(zeta, Mix3(W->zetas, X, Y, T), "wave height");
	// the water column from the bottom to the wave is stretched onto the grid; above the wave the values of its surface
	Assume(zeta - bottom > 0.01);
	double s = Stretched(fl.waterDepth, p(2), bottom, zeta);
	if (s > 0) s = 0; // equivalent to p(2) > zeta, see h_stretching
#ifndef VP_ENGINE
	Assume(std::fabs(p(2) - zeta) > 1e-6);
#endif
	Cell Z = Find(W->pz, s, 2);
	CheckEq(U, Mix(W->wave_vel, X, Y, Z, T), "velocity");
	CheckEq(Ud, Mix(W->wave_acc, X, Y, Z, T), "acceleration");
	CheckEq(pdyn, Mix(W->pDyn, X, Y, Z, T), "dynamic pressure");
}
VP_HARNESS(h_wave_flat) { Wave(false, true); }
VP_HARNESS(h_wave_bathymetry) { Wave(true, true); }
VP_HARNESS(h_wave_steady) { Wave(false, false); }
VP_HARNESS(h_wave_repeats) { Wave(false, true, 1, 1); }
VP_HARNESS(h_wave_last_interval) { Wave(false, true, 0, 2); }
VP_HARNESS(h_wave_last_interval_later) { Wave(false, true, 2, 2); }
static void Current(bool series, unsigned period = 0, unsigned sample = 0)
{
	CurrentGrid* W = New<CurrentGrid>((Log*)nullptr, std::vector<double>(), std::vector<double>(), std::vector<double>(), 0u, 0.0);
	W->nx = Extent("nx");
	W->ny = Extent("ny");
	W->nz = Extent("nz");
	const bool later = period || sample;
	W->nt = later ? 3 : series ? Extent("nt") : 1;
	if (series) Assume(W->nt >= 2);
	W->dtWave = Pos("dt", 0.1, 1);
	Axis(W->px, W->nx, "px");
	Axis(W->py, W->ny, "py");
	Axis(W->pz, W->nz, "pz");
	Grid(W->current_vel, "vel", W->nx, W->ny, W->nz, W->nt);
	Grid(W->current_acc, "acc", W->nx, W->ny, W->nz, W->nt);
	Searching(&W->px, &W->py, &W->pz);
	SeafloorProvider fl = Floor(false);
	vec p = Vec("p", -4, 4);
	double time;
	Cell T = later ? Later(W->nt, W->dtWave, period, sample, time) : Instant(W->nt, W->dtWave, time);
	vec U = vec::Zero(), Ud = vec::Zero();
	W->getCurrentKin(p, time, fl, &U, &Ud);
	Cell X = Find(W->px, p(0), 0), Y = Find(W->py, p(1), 1), Z = Find(W->pz, p(2), 2);
	CheckEq(U, Mix(W->current_vel, X, Y, Z, T), "velocity");
	CheckEq(Ud, Mix(W->current_acc, X, Y, Z, T), "acceleration");
}
VP_HARNESS(h_current) { Current(true); }
VP_HARNESS(h_current_steady) { Current(false); }
VP_HARNESS(h_current_repeats) { Current(true, 1, 0); }
VP_HARNESS(h_current_last_interval) { Current(true, 1, 2); }
