// Contract primitives. Under the verifier (VP_ENGINE) the vp_*_ functions are
// symbolic; natively (vp_native.cc) they draw / replay concrete values.
#pragma once
#include <cstddef>
#include <cstdint>
#include <cstdlib>
#include <cstring>
#include <new>
#include <memory>
#include <vector>
#include <utility>
#include <cmath>
#include "Misc.hpp"

extern "C" {
double vp_real_(const char* name, double lo, double hi);
void vp_reals_(const char* name, double* out, std::uint64_t n, double lo, double hi);
std::uint64_t vp_uint_(const char* name, std::int64_t lo, std::int64_t hi);
std::int64_t vp_int_(const char* name, std::int64_t lo, std::int64_t hi);
int vp_bool_(const char* name);
void vp_assume_(bool c);
void vp_check_(bool c, const char* name);
// native tolerance: 1e-7*(1+scale+|a|+|b|); symbolically exact over the reals
void vp_check_eq_(double a, double b, double scale, const char* name);
void vp_check_eqs_(const double* a, const double* b, std::uint64_t n, double scale, const char* name);
void vp_reach_(const char* name);
void* vp_alloc_(std::size_t size);
void* vp_array_(const char* name, std::uint64_t n, std::uint64_t stride, const char* kinds);
void* vp_grid_(const char* name, const char* kinds, std::uint64_t size, std::uint64_t nd, std::uint64_t d0, std::uint64_t d1, std::uint64_t d2, std::uint64_t d3);
void vp_fill_(const char* name, double* data, std::uint64_t n, std::uint64_t slots, double lo, double hi);
double vp_fn_real_(const char* name, std::uint64_t n, const double* args);
double vp_havoc_real_(const char* name);
void vp_check_finite_(double a, const char* name);
void vp_ghost_inc_(const char* name);
int vp_ghost_get_(const char* name);
/// name#i
const char* vp_name_(const char* name, std::uint64_t i);
/// number of the element of an opaque array (kind 'p') a pointer stands for
std::uint64_t vp_index_(const void* p);
/// last digit of the name of the opaque array
int vp_group_(const void* p);
/// 1 in a bounded stand-in run (concrete sizes, no callee contracts)
int vp_bounded_();
}

#ifdef VP_ENGINE
#define VP_SYMBOLIC 1
#else
#define VP_SYMBOLIC 0
#endif

#ifdef VP_ENGINE
#define VP_HARNESS(f) extern "C" void f()
#else
extern "C" int vp_register_(const char*, void (*)());
#define VP_HARNESS(f) extern "C" void f(); static int reg_##f = vp_register_(#f, f); extern "C" void f()
#endif

namespace vp {
using moordyn::vec;
using moordyn::vec6;
using moordyn::vec3;
using moordyn::mat;
using moordyn::mat6;
using moordyn::real;
using moordyn::quaternion;

inline double Real(const char* n, double lo = -3, double hi = 3) { return vp_real_(n, lo, hi); }
/// strictly positive real
inline double Pos(const char* n, double lo = 0.05, double hi = 5)
{
	double x = vp_real_(n, lo, hi);
	vp_assume_(x > 0.0);
	return x;
}
inline double NonNeg(const char* n, double lo = 0.0, double hi = 5)
{
	double x = vp_real_(n, lo, hi);
	vp_assume_(x >= 0.0);
	return x;
}
inline unsigned Uint(const char* n, std::int64_t lo, std::int64_t hi) { return (unsigned)vp_uint_(n, lo, hi); }
inline bool Bool(const char* n) { return vp_bool_(n) != 0; }
inline void Assume(bool c) { vp_assume_(c); }
inline void Check(bool c, const char* n) { vp_check_(c, n); }
inline void CheckEq(double a, double b, const char* n, double scale = 0) { vp_check_eq_(a, b, scale, n); }
/// a <= b (exactly over the reals; with rounding slack natively)
inline void CheckLe(double a, double b, const char* n, double scale = 0)
{
#ifdef VP_ENGINE
	vp_check_(a <= b, n);
#else
	vp_check_(!(a > b + 1e-7 * (1 + scale + std::fabs(a) + std::fabs(b))), n);
#endif
}
template<int R, int C>
inline Eigen::Matrix<double, R, C> Mat(const char* n, double lo = -3, double hi = 3)
{
	Eigen::Matrix<double, R, C> m;
	vp_reals_(n, m.data(), R * C, lo, hi);
	return m;
}
inline vec Vec(const char* n, double lo = -3, double hi = 3) { return Mat<3, 1>(n, lo, hi); }
inline vec6 Vec6(const char* n, double lo = -3, double hi = 3) { return Mat<6, 1>(n, lo, hi); }
template<int R, int C>
inline void CheckEq(const Eigen::Matrix<double, R, C>& a, const Eigen::Matrix<double, R, C>& b, const char* n, double scale = 0)
{
	vp_check_eqs_(a.data(), b.data(), R * C, scale, n);
}
inline vec V(double x, double y, double z)
{
	vec v;
	v(0) = x; v(1) = y; v(2) = z;
	return v;
}
inline vec Cross(const vec& a, const vec& b)
{
	return V(a(1) * b(2) - a(2) * b(1), a(2) * b(0) - a(0) * b(2), a(0) * b(1) - a(1) * b(0));
}
inline double Dot(const vec& a, const vec& b) { return a(0) * b(0) + a(1) * b(1) + a(2) * b(2); }

template<class T, class... A>
T* New(A&&... a)
{
	void* p = vp_alloc_(sizeof(T));
	return new (p) T(std::forward<A>(a)...);
}

template<class T> struct Slots;
template<> struct Slots<double> { static constexpr const char* k = "d"; static constexpr int n = 1; };
template<int R> struct Slots<Eigen::Matrix<double, R, 1>> {
	static constexpr const char* k = R == 3 ? "ddd" : R == 6 ? "dddddd" : R == 7 ? "ddddddd" : "dd";
	static constexpr int n = R;
};
template<> struct Slots<mat> { static constexpr const char* k = "ddddddddd"; static constexpr int n = 9; };

/// make v a vector of n unconstrained elements
template<class T>
inline void Vector(std::vector<T>& v, std::uint64_t n, const char* name, double lo = -3, double hi = 3)
{
#ifdef VP_ENGINE
	T* p = (T*)vp_array_(name, n, sizeof(T), Slots<T>::k);
	v._M_impl._M_start = p;
	v._M_impl._M_finish = p + n;
	v._M_impl._M_end_of_storage = p + n;
#else
	v.resize(n);
	vp_fill_(name, (double*)v.data(), n, Slots<T>::n, lo, hi);
#endif
}
/// vector of n elements whose previous contents do not matter
template<class T>
inline void Scratch(std::vector<T>& v, std::uint64_t n, const char* name)
{
	Vector(v, n, name, -1e3, 1e3);
}
} // ::vp
