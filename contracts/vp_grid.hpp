// Grids (nested vectors) with any number of points per axis.
#pragma once
#include "vp.hpp"
#include <algorithm>
namespace vp {
template<class T> struct Leaf { using type = T; static constexpr int depth = 0; };
template<class T> struct Leaf<std::vector<T>> { using type = typename Leaf<T>::type; static constexpr int depth = Leaf<T>::depth + 1; };
inline bool Symbolic()
{
#ifdef VP_ENGINE
	return !vp_bounded_();
#else
	return false;
#endif
}
inline unsigned Extent(const char* n) { return Uint(n, 1, Symbolic() ? 16000 : 3); }
template<class T>
inline void Nested(std::vector<T>& v, const char* name, unsigned d0, unsigned d1, unsigned d2, unsigned d3)
{
	if constexpr (Leaf<T>::depth == 0) Vector(v, d0, name);
	else {
		v.resize(d0);
		for (unsigned i = 0; i < d0; i++) Nested(v[i], vp_name_(name, i), d1, d2, d3, 0);
	}
}
template<class T>
inline void Grid(std::vector<T>& v, const char* name, unsigned d0, unsigned d1, unsigned d2 = 0, unsigned d3 = 0)
{
#ifdef VP_ENGINE
	if (Symbolic()) {
		using L = typename Leaf<T>::type;
		T* p = (T*)vp_grid_(name, Slots<L>::k, sizeof(L), Leaf<T>::depth + 1, d0, d1, d2, d3);
		v._M_impl._M_start = p;
		v._M_impl._M_finish = p + d0;
		v._M_impl._M_end_of_storage = p + d0;
		return;
	}
#endif
	Nested(v, name, d0, d1, d2, d3);
}
/// n strictly increasing coordinates (the order is assumed where it is used)
inline void Axis(std::vector<double>& x, unsigned n, const char* name)
{
	Vector(x, n, name);
#ifndef VP_ENGINE
	std::sort(x.begin(), x.end());
	for (unsigned i = 1; i < n; i++) vp_assume_(x[i] - x[i - 1] > 1e-3);
#else
	if (vp_bounded_())
		for (unsigned i = 1; i < n; i++) vp_assume_(x[i - 1] < x[i]);
#endif
}
/// cell and factor of X on the axis x: the upper index and the share of the upper point; beyond the
/// axis the outermost point, 0 and no share on an axis with a single point
struct Cell { std::uint64_t lo, up; double f; };
#ifdef VP_ENGINE
struct Asked { const std::vector<double>* x[3]; const char* jn[3]; const char* fn[3]; double X[3]; };
inline Asked& Axes()
{
	static Asked a;
	return a;
}
/// contract of interp_factor (proved for tables of any length in C15): the cell that holds X and its factor
inline unsigned FactorOf(const std::vector<double>& x, double X, double& f, const char* jn, const char* fn)
{
	const unsigned n = x.size();
	if (n == 1) {
		f = 0;
		return 0;
	}
	unsigned j = Uint(jn, 1, 16000);
	f = Real(fn);
	Assume(j < n && 0 <= f && f <= 1 && x[j - 1] < x[j] && x[0] < x[n - 1]);
	if (X <= x[0]) Assume(j == 1 && f == 0);
	else if (X >= x[n - 1]) Assume(j == n - 1 && f == 1);
	else Assume(x[j - 1] + f * (x[j] - x[j - 1]) == X);
	return j;
}
#endif
/// the cell of X on axis k of the grid; under the verifier also that X is what the code looked up on that axis
inline Cell Find(const std::vector<double>& x, double X, int k)
{
	Cell c;
	const unsigned n = x.size();
#ifdef VP_ENGINE
	if (Symbolic()) {
		Asked& a = Axes();
		CheckEq(a.X[k], X, k == 0 ? "coordinate looked up on the x axis" : k == 1 ? "coordinate looked up on the y axis" : "coordinate looked up on the z axis");
		c.up = n == 1 ? 0 : Uint(a.jn[k], 1, 16000);
		c.f = n == 1 ? 0.0 : Real(a.fn[k]);
		c.lo = n == 1 ? 0 : c.up - 1;
		return c;
	}
#endif
	c.lo = c.up = 0;
	c.f = 0;
	if (n == 1) return c;
	c.up = 1;
	while (c.up + 1 < n && X > x[c.up]) c.up++;
	c.lo = c.up - 1;
	c.f = X <= x[0] ? 0 : X >= x[n - 1] ? 1 : (X - x[c.lo]) / (x[c.up] - x[c.lo]);
	return c;
}
#ifdef VP_ENGINE
extern "C" inline unsigned Looked(const std::vector<double>& x, unsigned i0, const double& X, double& f)
{
	Check(i0 <= 1, "the whole axis is searched");
	Asked& a = Axes();
	for (int k = 0; k < 3; k++)
		if (a.x[k] == &x) {
			a.X[k] = X;
			return FactorOf(x, X, f, a.jn[k], a.fn[k]);
		}
	Check(false, "axis of the grid");
	return 0;
}
#endif
inline void Searching(const std::vector<double>* x, const std::vector<double>* y, const std::vector<double>* z)
{
#ifdef VP_ENGINE
	Asked& a = Axes();
	a.x[0] = x; a.jn[0] = "jx"; a.fn[0] = "fx"; a.X[0] = vp_havoc_real_("X0");
	a.x[1] = y; a.jn[1] = "jy"; a.fn[1] = "fy"; a.X[1] = vp_havoc_real_("X1");
	a.x[2] = z; a.jn[2] = "jz"; a.fn[2] = "fz"; a.X[2] = vp_havoc_real_("X2");
#endif
}
}
