//@file {"native_std": "c++20", "variants": {"rt": ["-DMUU_HAS_FLOAT128=1"], "ce": ["-DVERIF_CONSTEVAL", "-DMUU_HAS_IF_CONSTEVAL=0"], "nohalf": ["-DMUU_HAS_FLOAT16=0"]}}
// F03: infinity_or_nan
#include "sym.h"
#include <muu/core.h>
#include <muu/math.h>
#include <muu/half.h>
#include <muu/vector.h>
#include <muu/matrix.h>
#include <muu/quaternion.h>
#include <muu/plane.h>
#include <muu/ray.h>
#include <muu/triangle.h>
#include <muu/line_segment.h>
#include <muu/bounding_box.h>
#include <muu/bounding_sphere.h>
#include <muu/oriented_bounding_box.h>
#include <muu/euler_angles.h>
#include <muu/axis_angle.h>

using muu::half;
template <typename U>
static bool bad(U bits, unsigned e, unsigned m) // exponent field all ones
{
	return ((bits >> m) & ((U{ 1 } << e) - 1)) == ((U{ 1 } << e) - 1);
}
static bool badf(float f) { uint32_t u; std::memcpy(&u, &f, 4); return bad<uint32_t>(u, 8, 23); }
static bool badd(double f) { uint64_t u; std::memcpy(&u, &f, 8); return bad<uint64_t>(u, 11, 52); }

ENTRY(F03, scalars)
{
	const uint16_t h = sym<uint16_t>("h");
	CHECK(muu::infinity_or_nan(half::from_bits(h)) == bad<uint16_t>(h, 5, 10));
	const float f = sym<float>("f");
	CHECK(muu::infinity_or_nan(f) == badf(f));
	const double d = sym<double>("d");
	CHECK(muu::infinity_or_nan(d) == badd(d));
	const int i = sym<int>("i");
	CHECK(!muu::infinity_or_nan(i));
	CHECK(muu::infinity_or_nan(f, i, d) == (badf(f) || badd(d)));
	CHECK(muu::infinity_or_nan(i, i, f, half::from_bits(h)) == (badf(f) || bad<uint16_t>(h, 5, 10)));
}
ENTRY(F03, native_half)
{
#if MUU_HAS_FLOAT16
	const uint16_t h = sym<uint16_t>("h");
	_Float16 n;
	std::memcpy(&n, &h, 2);
	CHECK(muu::infinity_or_nan(n) == bad<uint16_t>(h, 5, 10));
#endif
}
ENTRY(F03, long_double) // x87 80-bit: valid encodings (integer bit set unless the exponent is 0)
{
	const uint64_t m  = sym<uint64_t>("mantissa");
	const uint16_t se = sym<uint16_t>("sign_exponent");
	sym_assume(((se & 0x7fffu) == 0) == ((m >> 63) == 0));
	long double v = 0;
	std::memcpy(&v, &m, 8);
	std::memcpy(reinterpret_cast<char*>(&v) + 8, &se, 2);
	CHECK(muu::infinity_or_nan(v) == ((se & 0x7fffu) == 0x7fffu));
}
//@ {"variants": ["rt"]}
ENTRY(F03, float128)
{
#if MUU_HAS_FLOAT128
	const uint64_t lo = sym<uint64_t>("lo"), hi = sym<uint64_t>("hi");
	__float128 v;
	std::memcpy(&v, &lo, 8);
	std::memcpy(reinterpret_cast<char*>(&v) + 8, &hi, 8);
	CHECK(muu::infinity_or_nan(v) == (((hi >> 48) & 0x7fffu) == 0x7fffu));
#endif
}
template <size_t N>
static void arr()
{
	float a[N];
	bool e = false;
	for (size_t i = 0; i < N; i++)
	{
		a[i] = sym<float>("a");
		e	 = e | badf(a[i]);
	}
	CHECK(muu::infinity_or_nan(a) == e);
}
ENTRY(F03, arrays) { arr<1>(); arr<2>(); arr<5>(); }
// any aggregate that consists of nothing but floats: fill it with arbitrary bits
template <typename T, typename S = float>
static void aggregate()
{
	S comp[sizeof(T) / sizeof(S)];
	bool e = false;
	for (auto& c : comp)
	{
		c = sym<S>("c");
		if constexpr (sizeof(S) == 4)
			e = e | badf(c);
		else
			e = e | badd(c);
	}
	T t;
	std::memcpy(static_cast<void*>(&t), comp, sizeof(T));
	CHECK(muu::infinity_or_nan(t) == e);
	CHECK(t.infinity_or_nan() == e);
}
ENTRY(F03, vectors)
{
	aggregate<muu::vector<float, 1>>();
	aggregate<muu::vector<float, 2>>();
	aggregate<muu::vector<float, 3>>();
	aggregate<muu::vector<float, 4>>();
	aggregate<muu::vector<float, 7>>();
	aggregate<muu::vector<double, 2>, double>();
	aggregate<muu::vector<double, 3>, double>();
}
ENTRY(F03, matrices)
{
	aggregate<muu::matrix<float, 2, 2>>();
	aggregate<muu::matrix<float, 3, 3>>();
	aggregate<muu::matrix<float, 4, 3>>();
	aggregate<muu::matrix<double, 2, 3>, double>();
}
ENTRY(F03, rotations)
{
	aggregate<muu::quaternion<float>>();
	aggregate<muu::euler_angles<float>>();
	aggregate<muu::axis_angle<float>>();
	aggregate<muu::quaternion<double>, double>();
}
ENTRY(F03, shapes)
{
	aggregate<muu::plane<float>>();
	// (rays have padding between their members)
	float c[6];
	bool e = false;
	for (auto& x : c)
	{
		x = sym<float>("r");
		e = e | badf(x);
	}
	const muu::ray<float> r{ { c[0], c[1], c[2] }, { c[3], c[4], c[5] } };
	CHECK(muu::infinity_or_nan(r) == e);
	CHECK(r.infinity_or_nan() == e);
	aggregate<muu::triangle<float>>();
	aggregate<muu::line_segment<float>>();
	aggregate<muu::bounding_box<float>>();
	aggregate<muu::bounding_sphere<float>>();
	aggregate<muu::oriented_bounding_box<float>>();
}
