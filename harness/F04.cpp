//@file {"native_std": "c++20"}
// F04: min, max, clamp, between, lerp
#include "sym.h"
#include <limits>
#include <muu/core.h>
#include <muu/math.h>
#include <muu/half.h>

template <typename T>
static void two()
{
	const T a = sym<T>("a"), b = sym<T>("b");
	const T &lo = muu::min(a, b), &hi = muu::max(a, b);
	CHECK(&lo == &a || &lo == &b);
	CHECK(&hi == &a || &hi == &b);
	CHECK(!(a < lo) && !(b < lo));
	CHECK(!(hi < a) && !(hi < b));
}
template <typename T, size_t N>
static void many()
{
	T v[N];
	for (auto& x : v)
	{
		x = sym<T>("v");
		sym_assume(x == x);
	}
	const T *lo, *hi;
	if constexpr (N == 3)
	{
		lo = &muu::min(v[0], v[1], v[2]);
		hi = &muu::max(v[0], v[1], v[2]);
	}
	else if constexpr (N == 4)
	{
		lo = &muu::min(v[0], v[1], v[2], v[3]);
		hi = &muu::max(v[0], v[1], v[2], v[3]);
	}
	else if constexpr (N == 5)
	{
		lo = &muu::min(v[0], v[1], v[2], v[3], v[4]);
		hi = &muu::max(v[0], v[1], v[2], v[3], v[4]);
	}
	else if constexpr (N == 6)
	{
		lo = &muu::min(v[0], v[1], v[2], v[3], v[4], v[5]);
		hi = &muu::max(v[0], v[1], v[2], v[3], v[4], v[5]);
	}
	else
	{
		lo = &muu::min(v[0], v[1], v[2], v[3], v[4], v[5], v[6]);
		hi = &muu::max(v[0], v[1], v[2], v[3], v[4], v[5], v[6]);
	}
	bool inl = false, inh = false, bl = true, bh = true;
	for (const auto& x : v)
	{
		inl = inl | (*lo == x);
		inh = inh | (*hi == x);
		bl	= bl & !(x < *lo);
		bh	= bh & !(*hi < x);
	}
	CHECK(inl);
	CHECK(inh);
	CHECK(bl);
	CHECK(bh);
}
ENTRY(F04, minmax2)
{
	two<int8_t>();
	two<uint16_t>();
	two<int32_t>();
	two<uint64_t>();
	two<float>();
	two<double>();
}
ENTRY(F04, minmax3) { many<int32_t, 3>(); many<float, 3>(); }
ENTRY(F04, minmax4) { many<uint32_t, 4>(); many<float, 4>(); }
ENTRY(F04, minmax5) { many<int32_t, 5>(); many<double, 5>(); }
ENTRY(F04, minmax6) { many<int16_t, 6>(); }
ENTRY(F04, minmax7) { many<int64_t, 7>(); }

template <typename T>
static void clamps()
{
	const T v = sym<T>("v"), lo = sym<T>("lo"), hi = sym<T>("hi");
	sym_assume(lo <= hi);
	sym_assume(v == v);
	const T& r = muu::clamp(v, lo, hi);
	CHECK(r >= lo && r <= hi);
	if (v >= lo && v <= hi)
		CHECK(r == v);
	if (v < lo)
		CHECK(r == lo);
	if (v > hi)
		CHECK(r == hi);
}
ENTRY(F04, clamp)
{
	clamps<int8_t>();
	clamps<uint32_t>();
	clamps<int64_t>();
	clamps<float>();
	clamps<double>();
}
template <typename T, typename U>
static void betweens()
{
	const T v = sym<T>("v");
	const U lo = sym<U>("lo"), hi = sym<U>("hi");
	const __int128 V = v, L = lo, H = hi;
	CHECK(muu::between(v, lo, hi) == ((L <= V) & (V <= H)));
}
ENTRY(F04, between_same)
{
	betweens<int8_t, int8_t>();
	betweens<uint16_t, uint16_t>();
	betweens<int32_t, int32_t>();
	betweens<uint64_t, uint64_t>();
}
ENTRY(F04, between_signed_value)
{
	betweens<int8_t, uint8_t>();
	betweens<int8_t, uint64_t>();
	betweens<int32_t, uint32_t>();
	betweens<int64_t, uint8_t>();
	betweens<int64_t, uint64_t>();
	betweens<int16_t, uint32_t>();
}
ENTRY(F04, between_unsigned_value)
{
	betweens<uint8_t, int8_t>();
	betweens<uint8_t, int64_t>();
	betweens<uint32_t, int32_t>();
	betweens<uint64_t, int8_t>();
	betweens<uint64_t, int64_t>();
	betweens<uint32_t, int16_t>();
}
ENTRY(F04, between_widths)
{
	betweens<int8_t, int64_t>();
	betweens<int64_t, int16_t>();
	betweens<uint8_t, uint32_t>();
	betweens<uint64_t, uint8_t>();
}
enum class e16 : int16_t {};
ENTRY(F04, between_enum)
{
	const int16_t v = sym<int16_t>("v"), l = sym<int16_t>("l"), h = sym<int16_t>("h");
	CHECK(muu::between(static_cast<e16>(v), static_cast<e16>(l), static_cast<e16>(h)) == (l <= v && v <= h));
	const uint32_t u = sym<uint32_t>("u");
	CHECK(muu::between(u, static_cast<e16>(l), static_cast<e16>(h)) == (static_cast<int64_t>(l) <= u && static_cast<int64_t>(u) <= h));
}
ENTRY(F04, between_float)
{
	const float v = sym<float>("v"), l = sym<float>("l"), h = sym<float>("h");
	CHECK(muu::between(v, l, h) == (l <= v && v <= h));
	const double d = sym<double>("d");
	CHECK(muu::between(d, l, h) == (static_cast<double>(l) <= d && d <= static_cast<double>(h)));
}
ENTRY(F04, lerp_ends)
{
	const float a = sym<float>("a"), b = sym<float>("b");
	sym_assume(!muu::infinity_or_nan(a) && !muu::infinity_or_nan(b));
	CHECK(muu::lerp(a, b, 0.0f) == a);
	CHECK(muu::lerp(a, b, 1.0f) == b);
	const double c = sym<double>("c"), d = sym<double>("d");
	sym_assume(!muu::infinity_or_nan(c) && !muu::infinity_or_nan(d));
	CHECK(muu::lerp(c, d, 0.0) == c);
	CHECK(muu::lerp(c, d, 1.0) == d);
	const int i = sym<int>("i"), j = sym<int>("j");
	CHECK(muu::lerp(i, j, 0) == static_cast<double>(i));
	CHECK(muu::lerp(i, j, 1) == static_cast<double>(j));
	const uint16_t p = sym<uint16_t>("p"), q = sym<uint16_t>("q");
	const auto x = muu::half::from_bits(p), y = muu::half::from_bits(q);
	sym_assume(!muu::infinity_or_nan(x) && !muu::infinity_or_nan(y));
	CHECK(muu::lerp(x, y, muu::half{ 0.0f }) == x);
	CHECK(muu::lerp(x, y, muu::half{ 1.0f }) == y);
}
// exact mid point whenever it is representable without rounding
ENTRY(F04, lerp_half)
{
	const int32_t i = sym_range<int32_t>("i", -100, 100), j = sym_range<int32_t>("j", -100, 100);
	CHECK(muu::lerp(static_cast<float>(i), static_cast<float>(j), 0.5f) * 2.0f == static_cast<float>(i + j));
	CHECK(muu::lerp(static_cast<double>(i), static_cast<double>(j), 0.25) * 4.0 == static_cast<double>(i * 3 + j));
}
