//@file {"variants": {"rt": [], "ce": ["-DVERIF_CONSTEVAL", "-DMUU_HAS_IF_CONSTEVAL=0"]}}
// B02: bit_ceil, bit_floor, bit_width, bit_fill_left, bit_fill_right
#include "sym.h"
#include <muu/core.h>
#include <muu/bit.h>

template <typename T>
static constexpr bool pow2(T v)
{
	return v != 0 && (v & static_cast<T>(v - 1)) == 0;
}
template <typename T>
static void rounding()
{
	constexpr int W = sizeof(T) * 8;
	const T v		= sym<T>("v");
	const T f		= muu::bit_floor(v);
	// the greatest power of two that is <= v (0 for 0)
	if (v == 0)
		CHECK(f == 0);
	else
	{
		CHECK(pow2(f));
		CHECK(f <= v);
		CHECK(static_cast<T>(v - f) < f); // v < 2f
	}
	if (v <= static_cast<T>(T{ 1 } << (W - 1)))
	{
		const T c = muu::bit_ceil(v);
		CHECK(pow2(c));
		CHECK(c >= v);
		if (v > 1)
			CHECK(static_cast<T>(c >> 1) < v);
		else
			CHECK(c == 1);
	}
	const T w = muu::bit_width(v);
	CHECK(w <= W);
	// v < 2^w and v >= 2^(w-1)
	CHECK(w == W || static_cast<T>(v >> (w == W ? T{} : w)) == 0);
	CHECK(w == 0 ? v == 0 : ((v >> (w == 0 ? T{} : static_cast<T>(w - 1))) & 1) == 1);
}
ENTRY(B02, round_u8) { rounding<uint8_t>(); }
ENTRY(B02, round_u16) { rounding<uint16_t>(); }
ENTRY(B02, round_u32) { rounding<uint32_t>(); }
ENTRY(B02, round_u64) { rounding<uint64_t>(); }
ENTRY(B02, round_u128) { rounding<unsigned __int128>(); }

template <typename T>
static void fill()
{
	constexpr size_t W = sizeof(T) * 8;
	const size_t n	   = sym<size_t>("n");
	const size_t bit   = sym_range<size_t>("bit", 0, W - 1);
	const T r = muu::bit_fill_right<T>(n), l = muu::bit_fill_left<T>(n);
	CHECK(((r >> bit) & 1) == (bit < n ? 1 : 0));
	CHECK(((l >> bit) & 1) == (W - 1 - bit < n ? 1 : 0));
}
ENTRY(B02, fill_u8) { fill<uint8_t>(); }
ENTRY(B02, fill_u16) { fill<uint16_t>(); }
ENTRY(B02, fill_u32) { fill<uint32_t>(); }
ENTRY(B02, fill_u64) { fill<uint64_t>(); }
ENTRY(B02, fill_u128) { fill<unsigned __int128>(); }

enum class e8 : uint8_t {};
enum class e32 : uint32_t {};
template <typename E>
static void en()
{
	using U	   = std::underlying_type_t<E>;
	const U v  = sym<U>("v");
	const E ev = static_cast<E>(v);
	CHECK(static_cast<U>(muu::bit_floor(ev)) == muu::bit_floor(v));
	if (v <= static_cast<U>(U{ 1 } << (sizeof(U) * 8 - 1)))
		CHECK(static_cast<U>(muu::bit_ceil(ev)) == muu::bit_ceil(v));
	CHECK(static_cast<U>(muu::bit_width(ev)) == muu::bit_width(v));
	const size_t n = sym<size_t>("n");
	CHECK(static_cast<U>(muu::bit_fill_right<E>(n)) == muu::bit_fill_right<U>(n));
	CHECK(static_cast<U>(muu::bit_fill_left<E>(n)) == muu::bit_fill_left<U>(n));
}
ENTRY(B02, enums) { en<e8>(); en<e32>(); }
