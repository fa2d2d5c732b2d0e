//@file {"native_std": "c++20", "variants": {"native": [], "emulated": ["-DMUU_HAS_FLOAT16=0"], "emulated_ce": ["-DMUU_HAS_FLOAT16=0", "-DVERIF_CONSTEVAL", "-DMUU_HAS_IF_CONSTEVAL=0"]}}
// F01: half <-> float conversions
#include "sym.h"
#include <muu/core.h>
#include <muu/half.h>

using muu::half;
static uint16_t bits(half h) { uint16_t u; std::memcpy(&u, &h, 2); return u; }
static uint32_t fbits(float f) { uint32_t u; std::memcpy(&u, &f, 4); return u; }
static float mkf(uint32_t u) { float f; std::memcpy(&f, &u, 4); return f; }

// reference: exact rational reasoning on the bit patterns
static uint16_t ref_f2h(uint32_t b) // b not NaN
{
	const uint16_t s = static_cast<uint16_t>((b >> 16) & 0x8000u);
	const uint32_t m = b & 0x7fffffffu;
	if (m >= 0x477ff000u) // >= 65520
		return s | 0x7c00u;
	if (m < 0x38800000u) // below 2^-14: multiples of 2^-24
	{
		// value = sig * 2^(e-150); in units of 2^-24: sig * 2^(e-126)
		const uint32_t e = m >> 23;
		if (e < 102) // < 2^-25
			return s;
		const uint64_t sig = (m & 0x7fffffu) | 0x800000u;
		const uint32_t sh  = 126 - e; // 14..24
		const uint64_t q = sig >> sh, r = sig & ((1ull << sh) - 1), h = 1ull << (sh - 1);
		return static_cast<uint16_t>(s | (q + ((r > h || (r == h && (q & 1))) ? 1 : 0)));
	}
	// normal: drop 13 bits
	const uint32_t x = m - 0x38000000u;
	return static_cast<uint16_t>(s | ((x + 0xfffu + ((x >> 13) & 1u)) >> 13));
}

ENTRY(F01, from_float)
{
	const uint32_t b = sym<uint32_t>("f");
	const float f	 = mkf(b);
	const uint16_t h = bits(half{ f });
	OBSERVE(h);
	if ((b & 0x7fffffffu) > 0x7f800000u)
		CHECK((h & 0x7fffu) > 0x7c00u); // NaN stays NaN
	else
		CHECK(h == ref_f2h(b));
}
ENTRY(F01, from_float_ieee) // the solver's own IEEE-754 narrowing
{
	const uint32_t b = sym<uint32_t>("f");
	sym_assume((b & 0x7fffffffu) <= 0x7f800000u);
	const _Float16 r = static_cast<_Float16>(mkf(b));
	uint16_t u;
	std::memcpy(&u, &r, 2);
	CHECK(bits(half{ mkf(b) }) == u);
}
ENTRY(F01, to_float)
{
	const uint16_t u = sym<uint16_t>("h");
	const uint32_t f = fbits(static_cast<float>(half::from_bits(u)));
	CHECK(bits(half::from_bits(u)) == u);
	_Float16 n;
	std::memcpy(&n, &u, 2);
	if ((u & 0x7fffu) > 0x7c00u)
		CHECK((f & 0x7fffffffu) > 0x7f800000u);
	else
	{
		CHECK(f == fbits(static_cast<float>(n)));
		// exact: sign, and value = integer multiple of 2^-24
		CHECK((f >> 31) == (u >> 15));
		const uint32_t e = (u >> 10) & 31, m = u & 0x3ff;
		if (e == 31)
			CHECK((f & 0x7fffffffu) == 0x7f800000u);
		else if (e)
			CHECK((f & 0x7fffffffu) == (((e + 112) << 23) | (m << 13)));
		else
			CHECK(mkf(f & 0x7fffffffu) * 16777216.0f == static_cast<float>(m));
	}
}
ENTRY(F01, roundtrip)
{
	const uint16_t u = sym<uint16_t>("h");
	const uint16_t r = bits(half{ static_cast<float>(half::from_bits(u)) });
	if ((u & 0x7fffu) > 0x7c00u)
		CHECK((r & 0x7fffu) > 0x7c00u);
	else
		CHECK(r == u);
	const double d = static_cast<double>(half::from_bits(u));
	if ((u & 0x7fffu) <= 0x7c00u)
	{
		CHECK(d == static_cast<double>(static_cast<float>(half::from_bits(u))));
		CHECK(bits(half{ d }) == u);
	}
}
template <typename T>
static void ints()
{
	const T v		 = sym<T>("v");
	const uint16_t h = bits(half{ v });
	const _Float16 r = static_cast<_Float16>(static_cast<float>(v)); // |v| > 2^24 overflows either way
	uint16_t u;
	std::memcpy(&u, &r, 2);
	CHECK(h == u);
}
ENTRY(F01, from_i8) { ints<signed char>(); ints<unsigned char>(); ints<char>(); }
ENTRY(F01, from_i16) { ints<short>(); ints<unsigned short>(); }
ENTRY(F01, from_i32) { ints<int>(); ints<unsigned>(); }
ENTRY(F01, from_i64) { ints<long>(); ints<unsigned long>(); ints<long long>(); ints<unsigned long long>(); }
template <typename T>
static void to_ints()
{
	const uint16_t u = sym<uint16_t>("h");
	const half h	 = half::from_bits(u);
	_Float16 n;
	std::memcpy(&n, &u, 2);
	sym_assume((u & 0x7fffu) < 0x7c00u);
	sym_assume(static_cast<float>(n) > static_cast<float>(std::numeric_limits<T>::lowest()) - 1.0f);
	sym_assume(static_cast<double>(n) < static_cast<double>(std::numeric_limits<T>::max()));
	CHECK(static_cast<T>(h) == static_cast<T>(static_cast<float>(n)));
}
ENTRY(F01, to_int)
{
	to_ints<signed char>();
	to_ints<unsigned char>();
	to_ints<short>();
	to_ints<unsigned short>();
	to_ints<int>();
	to_ints<unsigned>();
	to_ints<long>();
	to_ints<unsigned long>();
}
ENTRY(F01, bools)
{
	const uint16_t u = sym<uint16_t>("h");
	CHECK(static_cast<bool>(half::from_bits(u)) == ((u & 0x7fffu) != 0));
	const bool b = sym<bool>("b");
	CHECK(bits(half{ b }) == (b ? 0x3c00u : 0u));
}
//@ {"variants": ["native"]}
ENTRY(F01, from_double)
{
	const double d = sym<double>("d");
	sym_assume(d == d);
	const _Float16 r = static_cast<_Float16>(d);
	uint16_t u;
	std::memcpy(&u, &r, 2);
	CHECK(bits(half{ d }) == u);
}
