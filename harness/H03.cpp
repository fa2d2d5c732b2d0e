// H03: hash_combiner, std::hash
#include "sym.h"
#include <muu/core.h>
#include <muu/hashing.h>
#include <muu/uuid.h>
#include <muu/strong_typedef.h>

// the documented recurrence: seed ^= h + golden ratio + (seed << L) + (seed >> R)
template <size_t Bits>
struct spec;
template <>
struct spec<16>
{
	using T					  = uint16_t;
	static constexpr T golden = 0x9E37;
	static constexpr int L = 3, R = 1;
};
template <>
struct spec<32>
{
	using T					  = uint32_t;
	static constexpr T golden = 0x9E3779B9u;
	static constexpr int L = 6, R = 2;
};
template <>
struct spec<64>
{
	using T					  = uint64_t;
	static constexpr T golden = 0x9E3779B97F4A7C15ull;
	static constexpr int L = 12, R = 4;
};
template <>
struct spec<128>
{
	using T					  = unsigned __int128;
	static constexpr T golden = (T{ 0x9E3779B97F4A7C15ull } << 64) | 0xF39CC0605D396154ull;
	static constexpr int L = 24, R = 8;
};
template <size_t Bits>
static void combine()
{
	using S = spec<Bits>;
	using T = typename S::T;
	const T seed = sym<T>("seed"), a = sym<T>("a"), b = sym<T>("b");
	const auto step = [](T s, T h) { return static_cast<T>(s ^ static_cast<T>(h + S::golden + static_cast<T>(s << S::L) + static_cast<T>(s >> S::R))); };
	muu::hash_combiner<Bits> h{ seed };
	CHECK(h.value() == seed);
	h(a);
	CHECK(h.value() == step(seed, a));
	auto copy = h;
	h(b);
	CHECK(h.value() == step(step(seed, a), b));
	CHECK(copy.value() == step(seed, a));
	muu::hash_combiner<Bits> chained{ seed };
	CHECK(chained(a)(b).value() == h.value());
	// the last value added is never lost
	const T c = sym<T>("c");
	muu::hash_combiner<Bits> other{ seed };
	other(a)(c);
	CHECK((other.value() == h.value()) == (b == c));
}
ENTRY(H03, combine16) { combine<16>(); }
ENTRY(H03, combine32) { combine<32>(); }
ENTRY(H03, combine64) { combine<64>(); }
ENTRY(H03, combine128) { combine<128>(); }
ENTRY(H03, default_width)
{
	const size_t s = sym<size_t>("s"), a = sym<size_t>("a");
	CHECK(muu::hash_combiner<>{ s }(a).value() == muu::hash_combiner<sizeof(size_t) * 8>{ s }(a).value());
}

static muu::uuid arbitrary(const char* name)
{
	muu::uuid id;
	sym_bytes(&id, sizeof(id), name);
	return id;
}
ENTRY(H03, uuid_hash)
{
	const auto a = arbitrary("a"), b = arbitrary("b");
	const auto ha = std::hash<muu::uuid>{}(a), hb = std::hash<muu::uuid>{}(b);
	const auto again = a;
	CHECK(std::hash<muu::uuid>{}(again) == ha);
	if (a == b)
		CHECK(ha == hb);
	// every byte matters: UUIDs that differ only in the low or only in the high half never collide
	uint8_t x[16], y[16];
	memcpy(x, &a, 16);
	memcpy(y, &b, 16);
	bool lo = true;
	for (int i = 0; i < 8; i++)
		lo = lo & (x[i] == y[i]);
	if (lo && a != b)
		CHECK(ha != hb);
}
using typed = muu::strong_typedef<uint64_t, struct tag>;
ENTRY(H03, typedef_hash)
{
	const uint64_t v = sym<uint64_t>("v");
	CHECK(std::hash<typed>{}(typed{ v }) == std::hash<uint64_t>{}(v));
}
