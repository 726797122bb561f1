// C15: interpolation in tables with any number of entries, and the nonlinear
// material curves of a line that are built on it.
#include "vp_line.hpp"
#include "Util/Interp.hpp"
using namespace moordyn;
using namespace vp;
/// a table of n >= 2 strictly increasing abscissas; the order is assumed where it is used (Ordered)
static unsigned AnyTable(std::vector<double>& x, std::vector<double>& y, const char* xn, const char* yn, int lo = 2)
{
	unsigned n = Uint("n", lo, VP_SYMBOLIC && !vp_bounded_() ? 1000000 : 4);
	Vector(x, n, xn);
	Vector(y, n, yn);
#ifndef VP_ENGINE
	std::sort(x.begin(), x.end());
	for (unsigned i = 1; i < n; i++) Assume(x[i] - x[i - 1] > 1e-3);
#endif
	return n;
}
/// an instance of the precondition: the table is strictly increasing
static void Ordered(const std::vector<double>& x, unsigned i, unsigned j)
{
	if (i < j) Assume(x[i] < x[j]);
}
/// y is the value at X of the polyline through (x, y), constant beyond its ends
static void OnCurve(const std::vector<double>& x, const std::vector<double>& y, double X, double Y, unsigned j, const char* name)
{
	const unsigned n = x.size();
	if (X <= x[0]) CheckEq(Y, y[0], name);
	else if (X >= x[n - 1]) CheckEq(Y, y[n - 1], name);
	else if (0 < j && j < n && x[j - 1] <= X && X <= x[j])
		CheckEq(Y * (x[j] - x[j - 1]), y[j - 1] * (x[j] - X) + y[j] * (X - x[j - 1]), name, 1e3);
}
/// the entry that holds X: under the verifier the one interp_factor returns by its contract
static unsigned Where(const std::vector<double>& x, double X)
{
	const unsigned n = x.size();
	if (VP_SYMBOLIC && !vp_bounded_()) return Uint("j", 1, 1000000);
	unsigned j = 1;
	while (j + 1 < n && X > x[j]) j++;
	return j;
}
#ifdef VP_ENGINE
/// contract of interp_factor, proved on its real body in h_factor
extern "C" unsigned stub_factor(const std::vector<double>& x, unsigned i0, const double& X, double& f)
{
	const unsigned n = x.size();
	Check(i0 <= 1, "the whole table is searched");
	Check(n >= 2, "at least two entries");
	unsigned j = Uint("j", 1, 1000000);
	Assume(j < n);
	Ordered(x, j - 1, j);
	Ordered(x, 0, n - 1);
	if (X <= x[0]) {
		Assume(j == 1);
		f = 0;
		return 1;
	}
	if (X >= x[n - 1]) {
		Assume(j == n - 1);
		f = 1;
		return n - 1;
	}
	Assume(x[j - 1] <= X && X <= x[j]);
	f = (X - x[j - 1]) / (x[j] - x[j - 1]);
	return j;
}
#endif
VP_HARNESS(h_interp)
{
	std::vector<double> x, y;
	unsigned n = AnyTable(x, y, "x", "y");
	double X = Real("X", -10, 10);
	double Y = interp(x, y, X);
	unsigned j = Where(x, X);
	if (j >= 1 && j < n) Ordered(x, j - 1, j);
	Ordered(x, 0, n - 1);
	OnCurve(x, y, X, Y, j, "value of the polyline");
}
VP_HARNESS(h_interp_node)
{
	std::vector<double> x, y;
	unsigned n = AnyTable(x, y, "x", "y");
	unsigned k = Uint("k", 0, VP_SYMBOLIC && !vp_bounded_() ? 1000000 : 4);
	Assume(k < n);
	double X = x[k];
	double Y = interp(x, y, X);
	unsigned j = Where(x, X);
	if (j >= 1 && j < n) {
		Ordered(x, j - 1, j);
		Ordered(x, k, j - 1);
		Ordered(x, j, k);
		Ordered(x, j - 1, k);
		Ordered(x, k, j);
	}
	Ordered(x, 0, k);
	Ordered(x, k, n - 1);
	CheckEq(Y, y[k], "exact at the entries");
}
// -------------------------------------------------------------- material curves
static Line* AnyLine()
{
	Line* L = (Line*)vp_alloc_(sizeof(Line));
	new (&L->stiffXs) std::vector<double>();
	new (&L->stiffYs) std::vector<double>();
	new (&L->bstiffXs) std::vector<double>();
	new (&L->bstiffYs) std::vector<double>();
	new (&L->dampXs) std::vector<double>();
	new (&L->dampYs) std::vector<double>();
	L->E = Real("E");
	L->EI = Real("EI");
	L->c = Real("c");
	L->nEApoints = L->nEIpoints = L->nCpoints = 0;
	return L;
}
VP_HARNESS(h_constant)
{
	Line* L = AnyLine();
	CheckEq(L->getNonlinearE(Real("ls"), Pos("l0")), L->E, "constant elasticity");
	CheckEq(L->getNonlinearEI(Real("k")), L->EI, "constant bending stiffness");
	CheckEq(L->getNonlinearC(Real("ld"), Pos("l0")), L->c, "constant damping");
}
VP_HARNESS(h_elasticity)
{
	Line* L = AnyLine();
	L->nEApoints = AnyTable(L->stiffXs, L->stiffYs, "x", "y");
	double l0 = Pos("l0"), strain = Real("strain", -0.3, 3);
	double E = L->getNonlinearE(l0 * (1 + strain), l0);
	unsigned j = Where(L->stiffXs, strain), n = L->nEApoints;
	if (j >= 1 && j < n) Ordered(L->stiffXs, j - 1, j);
	Ordered(L->stiffXs, 0, n - 1);
	if (strain <= 0) CheckEq(E * strain, 0, "no tension in compression");
	else OnCurve(L->stiffXs, L->stiffYs, strain, E * strain, j, "tension of the curve");
}
VP_HARNESS(h_bending)
{
	Line* L = AnyLine();
	L->nEIpoints = AnyTable(L->bstiffXs, L->bstiffYs, "x", "y");
	double k = Real("k", -0.1, 3);
	if (Bool("straight")) k = 0.0;
	Ordered(L->bstiffXs, 0, 1);
	double EI = L->getNonlinearEI(k);
	unsigned j = Where(L->bstiffXs, k), n = L->nEIpoints;
	if (j >= 1 && j < n) Ordered(L->bstiffXs, j - 1, j);
	Ordered(L->bstiffXs, 0, n - 1);
	if (k == 0) CheckEq(EI * k, 0, "no moment without curvature");
	else OnCurve(L->bstiffXs, L->bstiffYs, k, EI * k, j, "moment of the curve");
}
VP_HARNESS(h_damping)
{
	Line* L = AnyLine();
	L->nCpoints = AnyTable(L->dampXs, L->dampYs, "x", "y");
	double l0 = Pos("l0"), rate = Real("rate", -3, 3);
	if (Bool("still")) rate = 0.0;
	double c = L->getNonlinearC(l0 * rate, l0);
	// a curve given for stretching only holds for compressing too, with the sign reversed
	const bool both = L->dampXs[0] < 0;
	const double s = !both && rate < 0 ? -1 : 1, X = s * rate;
	unsigned j = Where(L->dampXs, X), n = L->nCpoints;
	if (j >= 1 && j < n) Ordered(L->dampXs, j - 1, j);
	Ordered(L->dampXs, 0, n - 1);
	if (rate == 0) CheckEq(c * rate, 0, "no damping at rest");
	else OnCurve(L->dampXs, L->dampYs, X, s * c * rate, j, "damping of the curve");
}
