// C17: depth between the points of the seafloor grid
#include "vp_grid.hpp"
#include "Log.hpp"
#include "Seafloor.hpp"
#include "Util/Interp.hpp"
using namespace moordyn;
using namespace vp;
#ifdef VP_ENGINE
extern "C" unsigned stub_factor(const std::vector<double>& x, unsigned i0, const double& X, double& f) { return Looked(x, i0, X, f); }
#endif
static Seafloor* AnyFloor()
{
	Seafloor* S = New<Seafloor>((Log*)nullptr);
	S->nx = Extent("nx");
	S->ny = Extent("ny");
	Axis(S->px, S->nx, "px");
	Axis(S->py, S->ny, "py");
	Grid(S->depthGrid, "depth", S->nx, S->ny);
	S->averageDepth = Real("avg");
	S->minDepth = Real("min");
	Searching(&S->px, &S->py, nullptr);
	return S;
}
VP_HARNESS(h_depth)
{
	Seafloor* S = AnyFloor();
	double x = Real("x", -4, 4), y = Real("y", -4, 4);
	double z = S->getDepthAt(x, y);
	Cell X = Find(S->px, x, 0), Y = Find(S->py, y, 1);
	double a = S->depthGrid[X.lo][Y.lo], b = S->depthGrid[X.up][Y.lo], c = S->depthGrid[X.lo][Y.up], d = S->depthGrid[X.up][Y.up];
	CheckEq(z, (1 - X.f) * (1 - Y.f) * a + X.f * (1 - Y.f) * b + (1 - X.f) * Y.f * c + X.f * Y.f * d, "depth between the corners of the cell");
	double m = Real("m", -3, 3);
	if (a <= m && b <= m && c <= m && d <= m) CheckLe(z, m, "not above its corners");
	if (a >= m && b >= m && c >= m && d >= m) CheckLe(m, z, "not below its corners");
}
