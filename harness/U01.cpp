//@file {"variants": {"rt": [], "slow": ["-DMUU_HAS_INTRINSIC_BIT_CAST=0"]}}
// U01: uuid fields
#include "sym.h"
#include <muu/core.h>
#include <muu/uuid.h>

static muu::uuid arbitrary(const char* name, uint8_t (&b)[16])
{
	sym_bytes(b, 16, name);
	muu::uuid id;
	memcpy(&id, b, 16);
	return id;
}
static uint64_t be(const uint8_t* p, size_t n)
{
	uint64_t v = 0;
	for (size_t i = 0; i < n; i++)
		v = v << 8 | p[i];
	return v;
}
ENTRY(U01, read)
{
	uint8_t b[16];
	const auto id = arbitrary("id", b);
	CHECK(id.time_low() == be(b, 4));
	CHECK(id.time_mid() == be(b + 4, 2));
	CHECK(id.time_high_and_version() == be(b + 6, 2));
	CHECK(id.clock_seq_high_and_reserved() == b[8]);
	CHECK(id.clock_seq_low() == b[9]);
	CHECK(id.node() == be(b + 10, 6));
	bool null = true;
	for (int i = 0; i < 16; i++)
	{
		null = null & (b[i] == 0);
		CHECK(static_cast<uint8_t>(id.bytes[static_cast<size_t>(i)]) == b[i]);
	}
	CHECK(static_cast<bool>(id) == !null);
	const auto whole = static_cast<unsigned __int128>(id);
	CHECK(static_cast<uint64_t>(whole >> 64) == be(b, 8));
	CHECK(static_cast<uint64_t>(whole) == be(b + 8, 8));
}
// RFC 4122 sections 4.1.1 and 4.1.3
ENTRY(U01, variant_version)
{
	uint8_t b[16];
	const auto id = arbitrary("id", b);
	const auto v  = id.variant();
	if ((b[8] & 0xE0) == 0)
		CHECK(v == muu::uuid_variant::none);
	else if ((b[8] & 0x80) == 0)
		CHECK(v == muu::uuid_variant::reserved_ncs);
	else if ((b[8] & 0xC0) == 0x80)
		CHECK(v == muu::uuid_variant::standard);
	else if ((b[8] & 0xE0) == 0xC0)
		CHECK(v == muu::uuid_variant::reserved_microsoft);
	else
		CHECK(v == muu::uuid_variant::reserved_future);
	const unsigned ver = b[6] >> 4;
	if (ver > 5)
		CHECK(id.version() == muu::uuid_version::unknown);
	else
		CHECK(static_cast<unsigned>(id.version()) == ver);
}
static void is(const muu::uuid& id, const uint8_t (&b)[16])
{
	for (size_t i = 0; i < 16; i++)
		CHECK(static_cast<uint8_t>(id.bytes.value[i]) == b[i]);
}
ENTRY(U01, from_fields)
{
	const auto low = sym<uint32_t>("low");
	const auto mid = sym<uint16_t>("mid"), high = sym<uint16_t>("high");
	const auto c1 = sym<uint8_t>("c1"), c2 = sym<uint8_t>("c2");
	const auto node = sym<uint64_t>("node");
	uint8_t b[16];
	for (int i = 0; i < 4; i++)
		b[i] = static_cast<uint8_t>(low >> (24 - 8 * i));
	for (int i = 0; i < 2; i++)
		b[4 + i] = static_cast<uint8_t>(mid >> (8 - 8 * i)), b[6 + i] = static_cast<uint8_t>(high >> (8 - 8 * i));
	b[8] = c1, b[9] = c2;
	for (int i = 0; i < 6; i++)
		b[10 + i] = static_cast<uint8_t>(node >> (40 - 8 * i));
	const muu::uuid a{ low, mid, high, c1, c2, node };
	is(a, b);
	const muu::uuid c{ low, mid, high, static_cast<uint16_t>(c1 << 8 | c2), node };
	is(c, b);
	CHECK(a.time_low() == low);
	CHECK(a.time_mid() == mid);
	CHECK(a.time_high_and_version() == high);
	CHECK(a.clock_seq_high_and_reserved() == c1 && a.clock_seq_low() == c2);
	CHECK(a.node() == (node & 0xFFFFFFFFFFFFull));
}
ENTRY(U01, from_integer)
{
	const auto v = sym<unsigned __int128>("v");
	uint8_t b[16];
	for (int i = 0; i < 16; i++)
		b[i] = static_cast<uint8_t>(v >> (120 - 8 * i));
	const muu::uuid a{ v };
	is(a, b);
	CHECK(static_cast<unsigned __int128>(a) == v);
	CHECK(static_cast<bool>(a) == (v != 0));
}
ENTRY(U01, null)
{
	const muu::uuid n{ nullptr };
	for (size_t i = 0; i < 16; i++)
		CHECK(static_cast<uint8_t>(n.bytes.value[i]) == 0);
	CHECK(!n);
	CHECK(n == muu::uuid::constants::nil);
	static const uint8_t dns[16] = { 0x6b, 0xa7, 0xb8, 0x10, 0x9d, 0xad, 0x11, 0xd1, 0x80, 0xb4, 0x00, 0xc0, 0x4f, 0xd4, 0x30, 0xc8 };
	is(muu::uuid::constants::namespace_dns, dns);
	uint8_t other[16];
	memcpy(other, dns, 16);
	other[3] = 0x11;
	is(muu::uuid::constants::namespace_url, other);
	other[3] = 0x12;
	is(muu::uuid::constants::namespace_oid, other);
	other[3] = 0x14;
	is(muu::uuid::constants::namespace_x500, other);
}
