//@file {"variants": {"rt": [], "ce": ["-DVERIF_CONSTEVAL", "-DMUU_HAS_IF_CONSTEVAL=0"]}}
// B04: apply_alignment
#include "sym.h"
#include <muu/core.h>
#include <muu/apply_alignment.h>

// r is the least multiple of the power of two al that is >= v, whenever that fits T
template <typename T>
static void nearest(T v, uint64_t al, T r)
{
	const unsigned __int128 up = (static_cast<unsigned __int128>(v) + al - 1) & ~static_cast<unsigned __int128>(al - 1);
	if (up > static_cast<T>(~T{}))
		return;
	CHECK((r & static_cast<T>(al - 1)) == 0);
	CHECK(r >= v);
	CHECK(static_cast<uint64_t>(r - v) < al);
	CHECK(static_cast<T>(up) == r);
}
template <typename T, size_t... P>
static void fixed(std::index_sequence<P...>)
{
	const T v = sym<T>("v");
	((nearest<T>(v, size_t{ 1 } << P, muu::apply_alignment<(size_t{ 1 } << P)>(v))), ...);
}
template <typename T>
static void dynamic()
{
	const T v		  = sym<T>("v");
	const unsigned lg = sym_range<unsigned>("lg", 0, 63);
	const size_t al	  = size_t{ 1 } << lg;
	nearest<T>(v, al, muu::apply_alignment(v, al));
}
ENTRY(B04, static_u8) { fixed<uint8_t>(std::make_index_sequence<8>{}); }
ENTRY(B04, static_u16) { fixed<uint16_t>(std::make_index_sequence<16>{}); }
ENTRY(B04, static_u32) { fixed<uint32_t>(std::index_sequence<0, 1, 2, 3, 4, 8, 12, 16, 20, 31>{}); }
ENTRY(B04, static_u64) { fixed<uint64_t>(std::index_sequence<0, 1, 2, 3, 4, 8, 12, 16, 32, 63>{}); }
ENTRY(B04, dynamic_u8) { dynamic<uint8_t>(); }
ENTRY(B04, dynamic_u16) { dynamic<uint16_t>(); }
ENTRY(B04, dynamic_u32) { dynamic<uint32_t>(); }
ENTRY(B04, dynamic_u64) { dynamic<uint64_t>(); }
enum class e32 : uint32_t {};
ENTRY(B04, enums)
{
	const uint32_t v  = sym<uint32_t>("v");
	const unsigned lg = sym_range<unsigned>("lg", 0, 31);
	nearest<uint32_t>(v, size_t{ 1 } << lg, static_cast<uint32_t>(muu::apply_alignment(static_cast<e32>(v), size_t{ 1 } << lg)));
	nearest<uint32_t>(v, 64, static_cast<uint32_t>(muu::apply_alignment<64>(static_cast<e32>(v))));
}
ENTRY(B04, pointers)
{
	// pointers into a real block
	alignas(64) static char buf[512];
	const size_t off = sym_range<size_t>("off", 0, 255);
	char* p			 = buf + off;
	auto dist = [](char* a) { return static_cast<size_t>(a - buf); };
	char* q = muu::apply_alignment<32>(p);
	CHECK(dist(q) == ((off + 31) & ~size_t{ 31 }));
	const unsigned lg = sym_range<unsigned>("lg", 0, 6);
	char* r			  = muu::apply_alignment(p, size_t{ 1 } << lg);
	const size_t m	  = (size_t{ 1 } << lg) - 1;
	CHECK(dist(r) == ((off + m) & ~m));
	// arbitrary addresses
	const uintptr_t a = sym<uintptr_t>("addr");
	sym_assume(a != 0 && a <= ~uintptr_t{} - 4096);
	nearest<uint64_t>(a, 4096, reinterpret_cast<uintptr_t>(muu::apply_alignment<4096>(reinterpret_cast<void*>(a))));
	nearest<uint64_t>(a, size_t{ 1 } << lg, reinterpret_cast<uintptr_t>(muu::apply_alignment(reinterpret_cast<char*>(a), size_t{ 1 } << lg)));
}
