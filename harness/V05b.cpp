//@file {"native_std": "c++20", "flags": ["-DNDEBUG"]}
// V05, continued: the named constants (which a compiler may refuse to evaluate when packing is broken, hence a file of their own)
#include "fp.h"
#include <muu/core.h>
#include <muu/math.h>
#include <muu/half.h>
#include <muu/vector.h>
#include <muu/packed_unit_vector.h>

using muu::half;
using muu::packed_unit_vector;
using muu::vector;

static double magnitude(double x)
{
	return x < 0 ? -x : x;
}
// the largest error a component may have: a few steps of the coarser of the two stored coordinates (or the rounding of the floats)
template <typename I, size_t D, typename T>
static constexpr double tolerance()
{
	constexpr unsigned bits = (static_cast<unsigned>(sizeof(I)) * 8u - static_cast<unsigned>(D) + (D == 3 ? 1u : 0u)) / (D == 3 ? 2u : 1u);
	double step = 1;
	for (unsigned i = 0; i < bits; i++)
		step *= 0.5;
	return (D == 3 ? 4 : 2) * step + (sizeof(T) == 2 ? 1e-2 : sizeof(T) == 4 ? 1e-6 : 1e-14);
}
template <typename I>
static void named()
{
	using c3 = muu::constants<packed_unit_vector<I, 3>>;
	using c2 = muu::constants<packed_unit_vector<I, 2>>;
	const double tol = tolerance<I, 3, float>();
	const auto near	 = [&](const auto& p, double x, double y, double z)
	{
		const auto v = p.template unpack<double>();
		return (magnitude(v.x - x) <= tol) & (magnitude(v.y - y) <= tol) & (magnitude(v.z - z) <= tol);
	};
	const auto near2 = [&](const auto& p, double x, double y)
	{
		const auto v = p.template unpack<double>();
		return (magnitude(v.x - x) <= tol) & (magnitude(v.y - y) <= tol);
	};
	CHECK(near(c3::x_axis, 1, 0, 0));
	CHECK(near(c3::y_axis, 0, 1, 0));
	CHECK(near(c3::z_axis, 0, 0, 1));
	CHECK(near(c3::right, 1, 0, 0));
	CHECK(near(c3::left, -1, 0, 0));
	CHECK(near(c3::up, 0, 1, 0));
	CHECK(near(c3::down, 0, -1, 0));
	CHECK(near(c3::forward, 0, 0, -1));
	CHECK(near(c3::backward, 0, 0, 1));
	CHECK(near2(c2::x_axis, 1, 0));
	CHECK(near2(c2::y_axis, 0, 1));
	CHECK(near2(c2::right, 1, 0));
	CHECK(near2(c2::left, -1, 0));
	CHECK(near2(c2::up, 0, 1));
	CHECK(near2(c2::down, 0, -1));
	CHECK(near2(c2::screen_right, 1, 0));
	CHECK(near2(c2::screen_left, -1, 0));
	CHECK(near2(c2::screen_up, 0, -1));
	CHECK(near2(c2::screen_down, 0, 1));
}
ENTRY(V05, named_u16) { named<uint16_t>(); }
ENTRY(V05, named_u32) { named<uint32_t>(); }
ENTRY(V05, named_u64) { named<uint64_t>(); }
