// C15: the entry and the factor interp_factor returns, for tables of any size
#include "vp_line.hpp"
#include "Util/Interp.hpp"
using namespace moordyn;
using namespace vp;
/// a table of n >= 2 strictly increasing abscissas; the order is assumed where it is used (Ordered)
static unsigned AnyTable(std::vector<double>& x, std::vector<double>& y, const char* xn, const char* yn, int lo = 2)
{
	unsigned n = Uint("n", lo, VP_SYMBOLIC && !vp_bounded_() ? 1000000 : 4);
	Vector(x, n, xn);
	Vector(y, n, yn);
#ifndef VP_ENGINE
	std::sort(x.begin(), x.end());
	for (unsigned i = 1; i < n; i++) Assume(x[i] - x[i - 1] > 1e-3);
#endif
	return n;
}
/// an instance of the precondition: the table is strictly increasing
static void Ordered(const std::vector<double>& x, unsigned i, unsigned j)
{
	if (i < j) Assume(x[i] < x[j]);
}
VP_HARNESS(h_factor)
{
	std::vector<double> x, y;
	unsigned n = AnyTable(x, y, "x", "y");
	double X = Real("X", -10, 10), f = Real("f0");
	unsigned i = interp_factor(x, X, f);
	Check(1 <= i && i < n, "index inside the table");
	if (i < 1 || i >= n) return;
	Ordered(x, i - 1, i);
	Ordered(x, 0, n - 1);
	Check(f >= 0 && f <= 1, "factor between 0 and 1");
	if (X <= x[0]) Check(i == 1 && f == 0, "before the table: first entry");
	else if (X >= x[n - 1]) Check(i == n - 1 && f == 1, "after the table: last entry");
	else {
		Check(x[i - 1] <= X && X <= x[i], "entry that holds the value");
		CheckEq(x[i - 1] + f * (x[i] - x[i - 1]), X, "factor reproduces the value");
	}
}
VP_HARNESS(h_factor_single)
{
	std::vector<double> x;
	x.push_back(Real("x"));
	double f = Real("f0");
	unsigned i = interp_factor(x, Real("X"), f);
	Check(i == 0 && f == 0, "a single entry is the whole table");
}
