//@file {"src": ["src/hashing.cpp"]}
// U04: generated uuids
#include "sym.h"
#include <random>
#include <ostream>
// a stand-in for the random source: every output is arbitrary
static int draws;
static bool use_same_byte;
static uint8_t same_byte;
namespace std
{
	struct verif_source
	{
		using result_type = uint32_t;
		verif_source() = default;
		template <typename T>
		explicit verif_source(const T&)
		{}
		static constexpr result_type min() { return 0; }
		static constexpr result_type max() { return 0xFFFFFFFFu; }
		result_type operator()()
		{
			draws++;
			return use_same_byte ? same_byte * 0x01010101u : sym<uint32_t>("random");
		}
	};
	struct verif_source64 : verif_source
	{
		using verif_source::verif_source;
		using result_type = uint64_t;
		static constexpr result_type max() { return ~uint64_t{}; }
		result_type operator()()
		{
			draws++;
			return use_same_byte ? same_byte * 0x0101010101010101ull : sym<uint64_t>("random64");
		}
	};
}
#define random_device verif_source
#define mt19937_64	  verif_source64
#define mt19937		  verif_source
#include <muu/core.h>
#include <muu/uuid.h>
#include <muu/hashing.h>
#include "../src/uuid.cpp"

static uint8_t at(const muu::uuid& id, size_t i) { return static_cast<uint8_t>(id.bytes.value[i]); }

//@ {"bounds": "every sequence of random numbers"}
ENTRY(U04, random)
{
	const auto id = muu::uuid::generate();
	CHECK((at(id, 6) & 0xF0) == 0x40);
	CHECK((at(id, 8) & 0xC0) == 0x80);
	CHECK(id.version() == muu::uuid_version::random);
	CHECK(id.variant() == muu::uuid_variant::standard);
	CHECK(draws > 0);
}
// every other bit comes from the random source: when all bytes of the source are b, so are they
ENTRY(U04, random_bits)
{
	same_byte	  = sym<uint8_t>("b");
	use_same_byte = true;
	const auto id = muu::uuid::generate();
	for (size_t i = 0; i < 16; i++)
	{
		const unsigned fixed = i == 6 ? 0xF0u : i == 8 ? 0xC0u : 0u;
		CHECK(((at(id, i) ^ same_byte) & ~fixed & 0xFFu) == 0);
	}
	use_same_byte = false;
}
// version 5: SHA-1 of namespace and name, truncated, with version and variant set
static uint8_t name_[64];
static void named(size_t lo, size_t hi)
{
	muu::uuid ns;
	sym_bytes(&ns, 16, "ns");
	const size_t n = sym_pick("n", lo, hi);
	sym_bytes(name_, n, "name");
	const muu::uuid id{ ns, static_cast<const void*>(name_), n };
	uint8_t m[96];
	memcpy(m, &ns, 16);
	memcpy(m + 16, name_, n);
	muu::sha1 h;
	h(m, 16 + n).finish();
	for (size_t i = 0; i < 16; i++)
	{
		uint8_t want = static_cast<uint8_t>(h.value().value[i]);
		if (i == 6)
			want = static_cast<uint8_t>((want & 0x0F) | 0x50);
		if (i == 8)
			want = static_cast<uint8_t>((want & 0x3F) | 0x80);
		CHECK(at(id, i) == want);
	}
	CHECK(id.version() == muu::uuid_version::name_sha1);
	CHECK(id.variant() == muu::uuid_variant::standard);
	const muu::uuid text{ ns, std::string_view{ reinterpret_cast<const char*>(name_), n } };
	CHECK(text == id);
	const muu::uuid u8{ ns, std::u8string_view{ reinterpret_cast<const char8_t*>(name_), n } };
	CHECK(u8 == id);
}
//@ {"bounds": "every namespace, every name of 0..12 bytes"}
ENTRY(U04, named_short) { named(0, 12); }
//@ {"bounds": "every namespace, every name of 38..48 bytes (one or two hash blocks)"}
ENTRY(U04, named_long) { named(38, 48); }
//@ {"bounds": "every namespace, every name of 13..37 bytes", "tier": "thorough"}
ENTRY(U04, named_mid) { named(13, 37); }
ENTRY(U04, no_name)
{
	muu::uuid ns;
	sym_bytes(&ns, 16, "ns");
	const muu::uuid a{ ns, nullptr, 0 };
	const muu::uuid b{ ns, std::string_view{} };
	CHECK(a == b);
	CHECK(a.version() == muu::uuid_version::name_sha1);
}
