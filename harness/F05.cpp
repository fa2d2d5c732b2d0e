//@file {"native_std": "c++20", "variants": {"rt": [], "ce": ["-DVERIF_CONSTEVAL", "-DMUU_HAS_IF_CONSTEVAL=0"]}}
// F05: floor, ceil, abs: the compile-time branch (variant ce) and the run-time branch (variant rt) against one definition
#include "sym.h"
#include <limits>
#include <muu/core.h>
#include <muu/math.h>
#include <muu/half.h>

template <typename T>
static void fc(T x, T big) // every value that is not NaN; big = 2^(mantissa bits): no fraction from there on
{
	const T f = muu::floor(x), c = muu::ceil(x);
	if (!(x < big && x > -big))
	{
		CHECK(f == x);
		CHECK(c == x);
		return;
	}
	// integral, and the tightest bound
	const int64_t fi = static_cast<int64_t>(f), ci = static_cast<int64_t>(c);
	CHECK(static_cast<T>(fi) == f);
	CHECK(static_cast<T>(ci) == c);
	CHECK(f <= x);
	CHECK(static_cast<T>(fi + 1) > x);
	CHECK(c >= x);
	CHECK(static_cast<T>(ci - 1) < x);
}
ENTRY(F05, floor_ceil_f32)
{
	const float x = sym<float>("x");
	sym_assume(x == x);
	fc<float>(x, 8388608.0f);
	CHECK(muu::floor(x) == __builtin_floorf(x));
	CHECK(muu::ceil(x) == __builtin_ceilf(x));
}
ENTRY(F05, floor_ceil_f64)
{
	const double x = sym<double>("x");
	sym_assume(x == x);
	fc<double>(x, 4503599627370496.0);
	CHECK(muu::floor(x) == __builtin_floor(x));
	CHECK(muu::ceil(x) == __builtin_ceil(x));
}
#if MUU_HAS_FLOAT16
ENTRY(F05, floor_ceil_f16)
{
	const uint16_t u = sym<uint16_t>("x");
	sym_assume((u & 0x7fffu) <= 0x7c00u);
	_Float16 x;
	std::memcpy(&x, &u, 2);
	CHECK(static_cast<float>(muu::floor(x)) == __builtin_floorf(static_cast<float>(x)));
	CHECK(static_cast<float>(muu::ceil(x)) == __builtin_ceilf(static_cast<float>(x)));
}
#endif
ENTRY(F05, nan)
{
	const float x = sym<float>("x");
	sym_assume(x != x);
	CHECK(muu::floor(x) != muu::floor(x));
	CHECK(muu::ceil(x) != muu::ceil(x));
	CHECK(muu::abs(x) != muu::abs(x));
}
ENTRY(F05, floor_ceil_int)
{
	const int i = sym<int>("i");
	CHECK(muu::floor(i) == static_cast<double>(i));
	CHECK(muu::ceil(i) == static_cast<double>(i));
}
ENTRY(F05, abs_float)
{
	const float x = sym<float>("x");
	sym_assume(x == x);
	const float a = muu::abs(x);
	CHECK(a >= 0.0f);
	CHECK(a == x || a == -x);
	uint32_t b;
	std::memcpy(&b, &a, 4);
	CHECK((b >> 31) == 0); // also for -0
	const double d = sym<double>("d");
	sym_assume(d == d);
	const double e = muu::abs(d);
	CHECK(e >= 0.0);
	CHECK(e == d || e == -d);
	uint64_t eb;
	std::memcpy(&eb, &e, 8);
	CHECK((eb >> 63) == 0);
}
template <typename T>
static void iabs()
{
	const T v = sym<T>("v");
	sym_assume(v != std::numeric_limits<T>::min());
	const T a = muu::abs(v);
	CHECK(a >= 0);
	CHECK(a == v || a == static_cast<T>(-v));
}
ENTRY(F05, abs_int)
{
	iabs<signed char>();
	iabs<short>();
	iabs<int>();
	iabs<long>();
	iabs<long long>();
	const unsigned u = sym<unsigned>("u");
	CHECK(muu::abs(u) == u);
}
ENTRY(F05, approx)
{
	const float a = sym<float>("a"), b = sym<float>("b"), e = sym<float>("e");
	sym_assume(e >= 0.0f);
	CHECK(muu::approx_equal(a, b, e) == (__builtin_fabsf(b - a) < e));
	CHECK(muu::approx_zero(a, e) == (__builtin_fabsf(a) < e));
	const int i = sym<int>("i"), j = sym<int>("j");
	CHECK(muu::approx_equal(i, j) == (i == j));
}
