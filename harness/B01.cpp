//@file {"variants": {"rt": [], "ce": ["-DVERIF_CONSTEVAL", "-DMUU_HAS_IF_CONSTEVAL=0"]}}
// B01: bit counting
#include "sym.h"
#include <muu/core.h>
#include <muu/bit.h>
#include <muu/popcount.h>
#include <muu/countl.h>
#include <muu/countr.h>

// sum of the bits, written as a balanced tree
template <typename T, unsigned Lo, unsigned N>
static int tree(T v)
{
	if constexpr (N == 1)
		return static_cast<int>((v >> Lo) & 1u);
	else
		return tree<T, Lo + N / 2, N - N / 2>(v) + tree<T, Lo, N / 2>(v);
}
template <typename T>
static int ref_pop(T v)
{
	return tree<T, 0, sizeof(T) * 8>(v);
}
// position-by-position definition, no use of the counting primitives
template <typename T>
static void props(T v)
{
	constexpr int W = sizeof(T) * 8;
	const int p = static_cast<int>(muu::popcount(v)), lz = static_cast<int>(muu::countl_zero(v)), lo = static_cast<int>(muu::countl_one(v)),
			  rz = static_cast<int>(muu::countr_zero(v)), ro = static_cast<int>(muu::countr_one(v));
	OBSERVE(p);
	OBSERVE(lz);
	OBSERVE(lo);
	OBSERVE(rz);
	OBSERVE(ro);
	if constexpr (sizeof(T) == 16) // composed from the 64-bit case, which is decided on its own
		CHECK(p == muu::popcount(static_cast<uint64_t>(v >> 64)) + muu::popcount(static_cast<uint64_t>(v)));
	else
		CHECK(p == ref_pop(v));
	// lz is the number of leading zeroes: the top lz bits are zero and the next one (if any) is set
	auto top  = [](T x, int n) -> T { return n <= 0 ? T{} : n >= W ? x : static_cast<T>(x >> (W - n)); };
	auto low  = [](T x, int n) -> T { return n <= 0 ? T{} : n >= W ? x : static_cast<T>(x & static_cast<T>((T{ 1 } << n) - T{ 1 })); };
	const T nv = static_cast<T>(~v);
	auto lead = [&](T x, int n, const char* msg) {
		sym_check(n >= 0 && n <= W, msg);
		sym_check(top(x, n) == 0, msg);
		sym_check(n == W || ((x >> (W - 1 - (n < W ? n : 0))) & 1u) != 0, msg);
	};
	auto trail = [&](T x, int n, const char* msg) {
		sym_check(n >= 0 && n <= W, msg);
		sym_check(low(x, n) == 0, msg);
		sym_check(n == W || ((x >> (n < W ? n : 0)) & 1u) != 0, msg);
	};
	lead(v, lz, "countl_zero");
	lead(nv, lo, "countl_one");
	trail(v, rz, "countr_zero");
	trail(nv, ro, "countr_one");
	CHECK(muu::has_single_bit(v) == (v != 0 && (v & static_cast<T>(v - 1)) == 0));
}

ENTRY(B01, u8) { props(sym<uint8_t>("v")); }
ENTRY(B01, u16) { props(sym<uint16_t>("v")); }
ENTRY(B01, u32) { props(sym<uint32_t>("v")); }
ENTRY(B01, u64) { props(sym<uint64_t>("v")); }
ENTRY(B01, u128) { props(sym<unsigned __int128>("v")); }

enum class e16 : uint16_t {};
enum class e64 : uint64_t {};
template <typename En>
static void en()
{
	using U = std::underlying_type_t<En>;
	U v		= sym<U>("v");
	CHECK(muu::popcount(static_cast<En>(v)) == muu::popcount(v));
	CHECK(muu::countl_zero(static_cast<En>(v)) == muu::countl_zero(v));
	CHECK(muu::countr_zero(static_cast<En>(v)) == muu::countr_zero(v));
	CHECK(muu::countl_one(static_cast<En>(v)) == muu::countl_one(v));
	CHECK(muu::countr_one(static_cast<En>(v)) == muu::countr_one(v));
}
ENTRY(B01, enums) { en<e16>(); en<e64>(); }
