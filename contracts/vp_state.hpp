// Arbitrary states and state derivatives of a whole system
#pragma once
#include "vp.hpp"
#include "State.hpp"
namespace vp {
using namespace moordyn;
template<> struct Slots<PointState> { static constexpr const char* k = "dddddd"; static constexpr int n = 6; };
template<> struct Slots<DPointStateDt> { static constexpr const char* k = "dddddd"; static constexpr int n = 6; };
static_assert(sizeof(PointState) == 48, "layout");
static_assert(sizeof(RodState) % 8 == 0 && sizeof(RodState) <= 112, "layout");
constexpr const char* kinds14 = "dddddddddddddd";
template<> struct Slots<RodState> { static constexpr const char* k = kinds14 + 14 - sizeof(RodState) / 8; static constexpr int n = sizeof(RodState) / 8; };
template<> struct Slots<DRodStateDt> { static constexpr const char* k = kinds14 + 14 - sizeof(RodState) / 8; static constexpr int n = sizeof(RodState) / 8; };

/// n lines of m inner nodes, p points, r rods, b bodies
struct Sizes
{
	unsigned lines, nodes, points, rods, bodies;
};
inline Sizes AnySizes()
{
	Sizes s;
	bool big = VP_SYMBOLIC && !vp_bounded_();
	s.lines = 1;
	s.nodes = Uint("nodes", 0, big ? 1000000 : 3);
	s.points = Uint("points", 0, big ? 1000000 : 3);
	s.rods = Uint("rods", 0, big ? 1000000 : 3);
	s.bodies = Uint("bodies", 0, big ? 1000000 : 3);
	return s;
}
#define VP_STATE(S, F, G)                                                                                                                            \
	inline void AnyState(S& x, const Sizes& n, int tag)                                                                                              \
	{                                                                                                                                                \
		x.lines.resize(n.lines);                                                                                                                     \
		for (unsigned i = 0; i < n.lines; i++) {                                                                                                     \
			Vector(x.lines[i].F, n.nodes, vp_name_(i ? "l1" #F : "l0" #F, tag));                                                                     \
			Vector(x.lines[i].G, n.nodes, vp_name_(i ? "l1" #G : "l0" #G, tag));                                                                     \
		}                                                                                                                                            \
		Vector(x.points, n.points, vp_name_("pts", tag));                                                                                            \
		Vector(x.rods, n.rods, vp_name_("rods", tag));                                                                                               \
		Vector(x.bodies, n.bodies, vp_name_("bodies", tag));                                                                                         \
	}
VP_STATE(MoorDynState, pos, vel)
VP_STATE(DMoorDynStateDt, vel, acc)
inline Eigen::Matrix<double, 7, 1> V7(const XYZQuat& x)
{
	Eigen::Matrix<double, 7, 1> v;
	for (int i = 0; i < 3; i++) v(i) = x.pos(i);
	v(3) = x.quat.x();
	v(4) = x.quat.y();
	v(5) = x.quat.z();
	v(6) = x.quat.w();
	return v;
}
/// f applied to every number of x, y, z alike: CheckEach(x, y, z, f) says x == f(y, z) component by component
template<int R, class F>
inline void Each(const Eigen::Matrix<double, R, 1>& x, const Eigen::Matrix<double, R, 1>& y, const Eigen::Matrix<double, R, 1>& z, F f, const char* n)
{
	Eigen::Matrix<double, R, 1> e;
	for (int i = 0; i < R; i++) e(i) = f(y(i), z(i));
	CheckEq(x, e, n);
}
}
