//@file {"native_std": "c++20", "variants": {"native": [], "emulated": ["-DMUU_HAS_FLOAT16=0"]}}
// F02: half operators
#include "sym.h"
#include <muu/core.h>
#include <muu/half.h>
#include <cmath>

using muu::half;
static uint16_t bits(half h) { uint16_t u; std::memcpy(&u, &h, 2); return u; }
static uint16_t fb(_Float16 h) { uint16_t u; std::memcpy(&u, &h, 2); return u; }
static _Float16 mk(uint16_t u) { _Float16 n; std::memcpy(&n, &u, 2); return n; }
static bool nan16(uint16_t u) { return (u & 0x7fffu) > 0x7c00u; }
static bool same(uint16_t a, uint16_t b) { return a == b || (nan16(a) && nan16(b)); }

ENTRY(F02, compare)
{
	const uint16_t a = sym<uint16_t>("a"), b = sym<uint16_t>("b");
	const half x = half::from_bits(a), y = half::from_bits(b);
	// order of the bit patterns as sign/magnitude integers, NaN unordered
	const bool un	= nan16(a) || nan16(b);
	const int32_t p = (a & 0x8000u) ? -static_cast<int32_t>(a & 0x7fffu) : static_cast<int32_t>(a);
	const int32_t q = (b & 0x8000u) ? -static_cast<int32_t>(b & 0x7fffu) : static_cast<int32_t>(b);
	CHECK((x == y) == (!un && p == q));
	CHECK((x != y) == (un || p != q));
	CHECK((x < y) == (!un && p < q));
	CHECK((x <= y) == (!un && p <= q));
	CHECK((x > y) == (!un && p > q));
	CHECK((x >= y) == (!un && p >= q));
}
ENTRY(F02, compare_mixed)
{
	const uint16_t a = sym<uint16_t>("a");
	const half x	 = half::from_bits(a);
	const float fx	 = static_cast<float>(mk(a));
	const float f	 = sym<float>("f");
	CHECK((x == f) == (fx == f));
	CHECK((x < f) == (fx < f));
	CHECK((f < x) == (f < fx));
	CHECK((x >= f) == (fx >= f));
	CHECK((f != x) == (f != fx));
	const int i = sym<int>("i");
	CHECK((x == i) == (fx == static_cast<float>(i)));
	CHECK((i <= x) == (static_cast<float>(i) <= fx));
	CHECK((x > i) == (fx > static_cast<float>(i)));
	const double d = sym<double>("d");
	CHECK((x < d) == (static_cast<double>(fx) < d));
	CHECK((d >= x) == (d >= static_cast<double>(fx)));
}
ENTRY(F02, unary)
{
	const uint16_t a = sym<uint16_t>("a");
	const half x	 = half::from_bits(a);
	CHECK(bits(+x) == a);
	if (nan16(a))
	{
		CHECK(nan16(bits(-x)));
		CHECK(nan16(bits(muu::abs(x))));
	}
	else
	{
		CHECK(bits(-x) == (a ^ 0x8000u));
		CHECK(bits(muu::abs(x)) == (a & 0x7fffu));
	}
	CHECK(muu::infinity_or_nan(x) == ((a & 0x7c00u) == 0x7c00u));
}
template <typename F, typename G, typename H>
static void arith(F f, G g, H h)
{
	const uint16_t a = sym<uint16_t>("a"), b = sym<uint16_t>("b");
	const half x = half::from_bits(a), y = half::from_bits(b);
	const float r	 = f(static_cast<float>(mk(a)), static_cast<float>(mk(b)));
	const uint16_t e = fb(static_cast<_Float16>(r));
	CHECK(same(bits(g(x, y)), e));
	half z = x;
	CHECK(&h(z, y) == &z);
	CHECK(same(bits(z), e));
}
//@ {"budget": 120}
ENTRY(F02, add) { arith([](float a, float b) { return a + b; }, [](half a, half b) { return a + b; }, [](half& a, half b) -> half& { return a += b; }); }
//@ {"budget": 120}
ENTRY(F02, sub) { arith([](float a, float b) { return a - b; }, [](half a, half b) { return a - b; }, [](half& a, half b) -> half& { return a -= b; }); }
//@ {"budget": 120}
ENTRY(F02, mul) { arith([](float a, float b) { return a * b; }, [](half a, half b) { return a * b; }, [](half& a, half b) -> half& { return a *= b; }); }
//@ {"budget": 120}
ENTRY(F02, div) { arith([](float a, float b) { return a / b; }, [](half a, half b) { return a / b; }, [](half& a, half b) -> half& { return a /= b; }); }
ENTRY(F02, mixed)
{
	const uint16_t a = sym<uint16_t>("a");
	const half x	 = half::from_bits(a);
	const float fx	 = static_cast<float>(mk(a));
	const float f	 = sym<float>("f");
	const float s = x + f, t = f - x, p = x * f;
	CHECK(s == fx + f || (s != s && fx + f != fx + f));
	CHECK(t == f - fx || (t != t && f - fx != f - fx));
	CHECK(p == fx * f || (p != p && fx * f != fx * f));
	const short i = sym<short>("i");
	CHECK(same(bits(x + i), fb(static_cast<_Float16>(fx + static_cast<float>(i)))));
	CHECK(same(bits(i - x), fb(static_cast<_Float16>(static_cast<float>(i) - fx))));
	CHECK(same(bits(x * i), fb(static_cast<_Float16>(fx * static_cast<float>(i)))));
	half y = x;
	y += f;
	CHECK(same(bits(y), fb(static_cast<_Float16>(fx + f))));
	y = x;
	y -= i;
	CHECK(same(bits(y), fb(static_cast<_Float16>(fx - static_cast<float>(i)))));
}
ENTRY(F02, incdec)
{
	const uint16_t a = sym<uint16_t>("a");
	const float fx	 = static_cast<float>(mk(a));
	const uint16_t up = fb(static_cast<_Float16>(fx + 1.0f)), dn = fb(static_cast<_Float16>(fx - 1.0f));
	half x = half::from_bits(a);
	CHECK(&++x == &x);
	CHECK(same(bits(x), up));
	x = half::from_bits(a);
	CHECK(same(bits(x++), a));
	CHECK(same(bits(x), up));
	x = half::from_bits(a);
	CHECK(&--x == &x);
	CHECK(same(bits(x), dn));
	x = half::from_bits(a);
	CHECK(same(bits(x--), a));
	CHECK(same(bits(x), dn));
}
ENTRY(F02, floor_ceil)
{
	const uint16_t a = sym<uint16_t>("a");
	const half x	 = half::from_bits(a);
	const half f = muu::floor(x), c = muu::ceil(x);
	if (nan16(a))
	{
		CHECK(nan16(bits(f)));
		CHECK(nan16(bits(c)));
		return;
	}
	const float fx = static_cast<float>(mk(a));
	CHECK(static_cast<float>(mk(bits(f))) == __builtin_floorf(fx));
	CHECK(static_cast<float>(mk(bits(c))) == __builtin_ceilf(fx));
}
// elementary functions of halves are the float functions (uninterpreted here), rounded to half
ENTRY(F02, elementary)
{
	const uint16_t a = sym<uint16_t>("a"), b = sym<uint16_t>("b");
	const half x = half::from_bits(a), y = half::from_bits(b);
	const float fx = static_cast<float>(mk(a)), fy = static_cast<float>(mk(b));
	CHECK(same(bits(muu::atan2(x, y)), fb(static_cast<_Float16>(std::atan2(fx, fy)))));
	CHECK(same(bits(muu::sin(x)), fb(static_cast<_Float16>(std::sin(fx)))));
	CHECK(same(bits(muu::cos(x)), fb(static_cast<_Float16>(std::cos(fx)))));
	CHECK(same(bits(muu::tan(x)), fb(static_cast<_Float16>(std::tan(fx)))));
	CHECK(same(bits(muu::asin(x)), fb(static_cast<_Float16>(std::asin(fx)))));
	CHECK(same(bits(muu::acos(x)), fb(static_cast<_Float16>(std::acos(fx)))));
	CHECK(same(bits(muu::atan(x)), fb(static_cast<_Float16>(std::atan(fx)))));
	CHECK(same(bits(muu::sqrt(x)), fb(static_cast<_Float16>(std::sqrt(fx)))));
}
ENTRY(F02, approx)
{
	const uint16_t a = sym<uint16_t>("a"), b = sym<uint16_t>("b"), e = sym<uint16_t>("e");
	sym_assume(e <= 0x7c00u);
	const half x = half::from_bits(a), y = half::from_bits(b), eps = half::from_bits(e);
	const float fx = static_cast<float>(mk(a)), fy = static_cast<float>(mk(b)), fe = static_cast<float>(mk(e));
	CHECK(muu::approx_equal(x, y, eps) == (__builtin_fabsf(fy - fx) < fe));
	CHECK(muu::approx_zero(x, eps) == (__builtin_fabsf(fx) < fe));
}
