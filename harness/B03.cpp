//@file {"variants": {"rt": [], "ce": ["-DVERIF_CONSTEVAL", "-DMUU_HAS_IF_CONSTEVAL=0"]}}
// B03: byte_reverse, bit_pack, byte_select, swizzle
#include "sym.h"
#include <muu/core.h>
#include <muu/bit.h>

template <typename T>
static uint8_t byte_at(T v, size_t i) // i-th byte from the least significant end
{
	return static_cast<uint8_t>(static_cast<std::make_unsigned_t<T>>(v) >> (8 * i));
}
template <>
uint8_t byte_at(unsigned __int128 v, size_t i)
{
	return static_cast<uint8_t>(v >> (8 * i));
}
template <typename T>
static void rev()
{
	const T v = sym<T>("v");
	const T r = muu::byte_reverse(v);
	for (size_t i = 0; i < sizeof(T); i++)
		CHECK(byte_at(r, i) == byte_at(v, sizeof(T) - 1 - i));
	CHECK(muu::byte_reverse(r) == v);
}
enum class e16 : uint16_t {};
enum class e64 : uint64_t {};
enum class s32 : int32_t {};
ENTRY(B03, reverse)
{
	rev<uint16_t>();
	rev<uint32_t>();
	rev<uint64_t>();
	rev<unsigned __int128>();
	const uint16_t a = sym<uint16_t>("a");
	CHECK(static_cast<uint16_t>(muu::byte_reverse(static_cast<e16>(a))) == muu::byte_reverse(a));
	const uint64_t b = sym<uint64_t>("b");
	CHECK(static_cast<uint64_t>(muu::byte_reverse(static_cast<e64>(b))) == muu::byte_reverse(b));
}

template <typename T>
static void select_dyn()
{
	const T v		   = sym<T>("v");
	const size_t index = sym<size_t>("index");
	const uint8_t b	   = muu::byte_select(v, index);
	if (index >= sizeof(T))
		CHECK(b == 0);
	else
		CHECK(b == byte_at(v, index < sizeof(T) ? index : 0));
}
ENTRY(B03, select_u8) { select_dyn<uint8_t>(); select_dyn<int8_t>(); }
ENTRY(B03, select_u16) { select_dyn<uint16_t>(); select_dyn<int16_t>(); }
ENTRY(B03, select_u32) { select_dyn<uint32_t>(); select_dyn<int32_t>(); }
ENTRY(B03, select_u64) { select_dyn<uint64_t>(); select_dyn<int64_t>(); }
ENTRY(B03, select_u128) { select_dyn<unsigned __int128>(); }
ENTRY(B03, select_enum)
{
	const uint16_t v   = sym<uint16_t>("v");
	const size_t index = sym<size_t>("index");
	CHECK(muu::byte_select(static_cast<e16>(v), index) == muu::byte_select(v, index));
	const int32_t s = sym<int32_t>("s");
	CHECK(muu::byte_select(static_cast<s32>(s), index) == muu::byte_select(s, index));
	CHECK(muu::byte_select<3>(static_cast<s32>(s)) == byte_at(s, 3));
}
template <typename T, size_t... I>
static void select_static(std::index_sequence<I...>)
{
	const T v = sym<T>("v");
	((CHECK(muu::byte_select<I>(v) == byte_at(v, I))), ...);
	// swizzle: identity and reversed byte order, MSB first
	if constexpr (sizeof(T) > 1)
	{
		CHECK(muu::swizzle<I...>(v) == [&] {
			T o = v;
			auto u = std::make_unsigned_t<T>{};
			for (size_t i = 0; i < sizeof(T); i++)
				u = static_cast<std::make_unsigned_t<T>>((u << 8) | byte_at(v, i));
			std::memcpy(&o, &u, sizeof(T));
			return o;
		}());
		CHECK(muu::swizzle<(sizeof(T) - 1 - I)...>(v) == v);
	}
}
ENTRY(B03, select_static)
{
	select_static<uint8_t>(std::make_index_sequence<1>{});
	select_static<uint16_t>(std::make_index_sequence<2>{});
	select_static<int16_t>(std::make_index_sequence<2>{});
	select_static<uint32_t>(std::make_index_sequence<4>{});
	select_static<int32_t>(std::make_index_sequence<4>{});
	select_static<uint64_t>(std::make_index_sequence<8>{});
	select_static<int64_t>(std::make_index_sequence<8>{});
}
ENTRY(B03, swizzle_partial)
{
	const uint32_t v = sym<uint32_t>("v");
	CHECK(muu::swizzle<2>(v) == byte_at(v, 2));
	CHECK(muu::swizzle<3, 0>(v) == static_cast<uint16_t>((byte_at(v, 3) << 8) | byte_at(v, 0)));
	CHECK(muu::swizzle<1, 1, 2>(v) == ((uint32_t{ byte_at(v, 1) } << 16) | (uint32_t{ byte_at(v, 1) } << 8) | byte_at(v, 2)));
	const int16_t s = sym<int16_t>("s");
	CHECK(static_cast<uint32_t>(muu::swizzle<0, 1, 0, 1>(s))
		  == ((uint32_t{ byte_at(s, 0) } << 24) | (uint32_t{ byte_at(s, 1) } << 16) | (uint32_t{ byte_at(s, 0) } << 8) | byte_at(s, 1)));
	CHECK(static_cast<uint16_t>(muu::swizzle<1, 0>(static_cast<e16>(static_cast<uint16_t>(s)))) == static_cast<uint16_t>(s));
}
ENTRY(B03, pack)
{
	const uint8_t a	 = sym<uint8_t>("a");
	const uint16_t b = sym<uint16_t>("b");
	const uint32_t c = sym<uint32_t>("c");
	const uint64_t d = sym<uint64_t>("d");
	const uint8_t a2 = sym<uint8_t>("a2");
	CHECK(muu::bit_pack(a, a2) == static_cast<uint16_t>((a << 8) | a2));
	CHECK(muu::bit_pack(a, b) == ((uint32_t{ a } << 16) | b));
	CHECK(muu::bit_pack(b, a) == ((uint32_t{ b } << 8) | a));
	CHECK(muu::bit_pack(a, a2, b) == ((uint32_t{ a } << 24) | (uint32_t{ a2 } << 16) | b));
	CHECK(muu::bit_pack(c, b, a, a2) == ((uint64_t{ c } << 32) | (uint64_t{ b } << 16) | (uint64_t{ a } << 8) | a2));
	CHECK(muu::bit_pack<uint64_t>(a, b) == ((uint64_t{ a } << 16) | b));
	CHECK(muu::bit_pack(d, c) == ((static_cast<unsigned __int128>(d) << 32) | c));
	CHECK(muu::bit_pack(c, d) == ((static_cast<unsigned __int128>(c) << 64) | d));
	CHECK(muu::bit_pack(d, d) == ((static_cast<unsigned __int128>(d) << 64) | d));
}
ENTRY(B03, pack_signed)
{
	const int8_t a	= sym<int8_t>("a");
	const int16_t b = sym<int16_t>("b");
	const int32_t c = sym<int32_t>("c");
	auto ua = static_cast<uint8_t>(a);
	auto ub = static_cast<uint16_t>(b);
	auto uc = static_cast<uint32_t>(c);
	CHECK(static_cast<uint32_t>(muu::bit_pack(a, b)) == ((uint32_t{ ua } << 16) | ub));
	CHECK(static_cast<uint64_t>(muu::bit_pack(c, b, a)) == ((uint64_t{ uc } << 24) | (uint64_t{ ub } << 8) | ua));
	CHECK(static_cast<uint64_t>(muu::bit_pack<int64_t>(uc, c)) == ((uint64_t{ uc } << 32) | uc));
	CHECK(static_cast<uint32_t>(muu::bit_pack(static_cast<e16>(ub), static_cast<e16>(ub))) == ((uint32_t{ ub } << 16) | ub));
	CHECK(static_cast<uint64_t>(muu::bit_pack(static_cast<s32>(c), static_cast<s32>(c))) == ((uint64_t{ uc } << 32) | uc));
}
