//@file {"src": ["src/hashing.cpp"]}
// H01: sha1
#include "sym.h"
#include <muu/core.h>
#include <muu/hashing.h>
#include <string_view>

// FIPS 180-4, section 6.1.2, message in one piece
static uint32_t rotl(uint32_t x, unsigned n)
{
	return (x << n) | (x >> (32 - n));
}
static void ref_block(const uint8_t* m, uint32_t (&h)[5])
{
	uint32_t w[80];
	for (int t = 0; t < 16; t++)
		w[t] = (uint32_t)m[4 * t] << 24 | (uint32_t)m[4 * t + 1] << 16 | (uint32_t)m[4 * t + 2] << 8 | m[4 * t + 3];
	for (int t = 16; t < 80; t++)
		w[t] = rotl(w[t - 3] ^ w[t - 8] ^ w[t - 14] ^ w[t - 16], 1);
	uint32_t a = h[0], b = h[1], c = h[2], d = h[3], e = h[4];
	for (int t = 0; t < 80; t++)
	{
		uint32_t f, k;
		if (t < 20)
			f = (b & c) ^ (~b & d), k = 0x5a827999;
		else if (t < 40)
			f = b ^ c ^ d, k = 0x6ed9eba1;
		else if (t < 60)
			f = (b & c) ^ (b & d) ^ (c & d), k = 0x8f1bbcdc;
		else
			f = b ^ c ^ d, k = 0xca62c1d6;
		const uint32_t T = rotl(a, 5) + f + e + k + w[t];
		e = d, d = c, c = rotl(b, 30), b = a, a = T;
	}
	h[0] += a, h[1] += b, h[2] += c, h[3] += d, h[4] += e;
}
static void ref(const uint8_t* m, size_t n, uint8_t (&out)[20])
{
	static uint8_t buf[66000];
	size_t total = (n + 9 + 63) / 64 * 64;
	for (size_t i = 0; i < total; i++)
		buf[i] = i < n ? m[i] : i == n ? 0x80 : 0;
	for (int i = 0; i < 8; i++)
		buf[total - 1 - i] = static_cast<uint8_t>((uint64_t)n * 8 >> (8 * i));
	uint32_t h[5] = { 0x67452301u, 0xEFCDAB89u, 0x98BADCFEu, 0x10325476u, 0xC3D2E1F0u };
	for (size_t i = 0; i < total; i += 64)
		ref_block(buf + i, h);
	for (int i = 0; i < 20; i++)
		out[i] = static_cast<uint8_t>(h[i / 4] >> (24 - 8 * (i % 4)));
}
static uint8_t msg[66000];
static const uint8_t* message(size_t n)
{
	sym_bytes(msg, n, "msg");
	return msg;
}
static void same(const muu::sha1& a, const muu::sha1& b)
{
	for (int i = 0; i < 20; i++)
		CHECK(a.value().value[i] == b.value().value[i]);
}
static void equals(const muu::sha1& a, const uint8_t (&want)[20])
{
	for (int i = 0; i < 20; i++)
		CHECK(static_cast<uint8_t>(a.value().value[i]) == want[i]);
}
static void digest(size_t n)
{
	const uint8_t* m = message(n);
	muu::sha1 s;
	s(m, n).finish();
	uint8_t want[20];
	ref(m, n, want);
	equals(s, want);
}
//@ {"bounds": "every message of these lengths"}
ENTRY(H01, len0_12) { digest(sym_pick("n", 0, 12)); }
//@ {"bounds": "every message of these lengths"}
ENTRY(H01, len31_34) { digest(sym_pick("n", 31, 34)); }
//@ {"bounds": "every message of these lengths"}
ENTRY(H01, len52_56) { digest(sym_pick("n", 52, 56)); }
//@ {"bounds": "every message of these lengths (padding in a second block)"}
ENTRY(H01, len57_60) { digest(sym_pick("n", 57, 60)); }
//@ {"bounds": "every message of these lengths"}
ENTRY(H01, len61_66) { digest(sym_pick("n", 61, 66)); }
//@ {"bounds": "every message of these lengths"}
ENTRY(H01, len118_121) { digest(sym_pick("n", 118, 121)); }
//@ {"bounds": "every message of these lengths", "tier": "thorough"}
ENTRY(H01, len13_30) { digest(sym_pick("n", 13, 30)); }
//@ {"bounds": "every message of these lengths", "tier": "thorough"}
ENTRY(H01, len35_51) { digest(sym_pick("n", 35, 51)); }
//@ {"bounds": "every message of these lengths", "tier": "thorough"}
ENTRY(H01, len67_90) { digest(sym_pick("n", 67, 90)); }
//@ {"bounds": "every message of these lengths", "tier": "thorough"}
ENTRY(H01, len91_117) { digest(sym_pick("n", 91, 117)); }
//@ {"bounds": "every message of these lengths", "tier": "thorough"}
ENTRY(H01, len122_130) { digest(sym_pick("n", 122, 130)); }
//@ {"bounds": "every message of these lengths", "tier": "thorough"}
ENTRY(H01, len182_193) { digest(sym_pick("n", 182, 193)); }

// long messages (the length field and the block count): the contents are a fixed pattern with the last bytes arbitrary
static void digest_long(size_t n)
{
	for (size_t i = 0; i < n; i++)
		msg[i] = static_cast<uint8_t>(i * 7 + (i >> 8));
	if (n % 64 >= 4)
		for (size_t i = n / 4 * 4 - 4; i < n / 4 * 4; i++)
			msg[i] = sym<uint8_t>("tail"); // the last whole word
	muu::sha1 s;
	s(msg, n).finish();
	uint8_t want[20];
	ref(msg, n, want);
	equals(s, want);
}
//@ {"bounds": "messages of 255, 256, 260, 511, 512, 516, 4095, 4096 and 4100 bytes, fixed contents except the last whole word of an unfinished block"}
ENTRY(H01, long4096)
{
	static constexpr size_t lens[] = { 255, 256, 260, 511, 512, 516, 4095, 4096, 4100 };
	digest_long(lens[sym_pick("n", 0, 8)]);
}
//@ {"bounds": "messages of 8191, 8192, 8196 and 16391 bytes, fixed contents except the last whole word of an unfinished block"}
ENTRY(H01, long8192)
{
	static constexpr size_t lens[] = { 8191, 8192, 8196, 16391 };
	digest_long(lens[sym_pick("n", 0, 3)]);
}
//@ {"bounds": "messages of 65535 and 65541 bytes, fixed contents except the last whole word of an unfinished block"}
ENTRY(H01, long65536) { digest_long(65535 + 6 * sym_pick("n", 0, 1)); }

// the digest does not depend on how the message is split: two calls, and byte by byte
static void split(size_t n, size_t cut)
{
	const uint8_t* m = message(n);
	muu::sha1 whole, two, bytes, text;
	whole(m, n).finish();
	two(m, cut)(m + cut, n - cut).finish();
	same(whole, two);
	for (size_t i = 0; i < n; i++)
		if (i & 1)
			bytes(m[i]);
		else
			bytes(static_cast<std::byte>(m[i]));
	bytes.finish();
	same(whole, bytes);
	text(std::string_view{ reinterpret_cast<const char*>(m), n });
	text.finish();
	same(whole, text);
}
//@ {"bounds": "every 70-byte message, split into two at 0..8"}
ENTRY(H01, split70_low) { split(70, sym_pick("cut", 0, 8)); }
//@ {"bounds": "every 70-byte message, split into two at 58..70"}
ENTRY(H01, split70_high) { split(70, sym_pick("cut", 58, 70)); }
//@ {"bounds": "every 70-byte message, split into two at 9..57", "tier": "thorough", "budget": 400}
ENTRY(H01, split70_mid) { split(70, sym_pick("cut", 9, 57)); }
//@ {"bounds": "every message of 0..12 bytes, every split into two"}
ENTRY(H01, split_short)
{
	const size_t n = sym_pick("n", 0, 12);
	split(n, sym_pick("cut", 0, n));
}
//@ {"bounds": "every 128-byte message, splits around the block boundaries"}
ENTRY(H01, split128) { split(128, sym_pick("cut", 62, 66)); }
//@ {"bounds": "every 130-byte message in three pieces; first piece 1 or 2 bytes, second ends at 60, 74, .., 130"}
ENTRY(H01, three)
{
	const uint8_t* m = message(130);
	const size_t a = sym_pick("a", 1, 2), b = 60 + 14 * sym_pick("b", 0, 5);
	muu::sha1 whole, three;
	whole(m, 130).finish();
	three(m, a)(m + a, b - a)(nullptr, 0)(m + b, 130 - b).finish();
	same(whole, three);
}
// copies go on independently; finishing twice is the same as once; feeding after finishing is ignored
//@ {"bounds": "every message of 60..66 bytes, copied after 3 bytes"}
ENTRY(H01, copies)
{
	const size_t n	 = sym_pick("n", 60, 66);
	const uint8_t* m = message(n);
	muu::sha1 a;
	a(m, 3);
	muu::sha1 b{ a };
	a(m + 3, n - 3);
	b(sym<uint8_t>("other"));
	muu::sha1 c;
	c = a;
	a.finish();
	b.finish();
	c.finish();
	muu::sha1 whole;
	whole(m, n).finish();
	same(a, whole);
	same(c, whole);
	a.finish();
	a(sym<uint8_t>("late"));
	a(m, n);
	a(std::string_view{ "abc" });
	a.finish();
	same(a, whole);
}
// text of wider characters is hashed as its UTF-8 form
//@ {"bounds": "every code point"}
ENTRY(H01, wide)
{
	const size_t len = sym_pick("len", 1, 4);
	static constexpr uint32_t lo[] = { 0, 0, 0x80, 0x800, 0x10000, 0x110000 };
	const uint32_t c = sym_range<uint32_t>("c", lo[len], lo[len + 1] - 1);
	sym_assume(!(c >= 0xD800 && c <= 0xDFFF) && c != 0xFEFF);
	char32_t s[2] = { 'x', static_cast<char32_t>(c) };
	uint8_t u[5]  = { 'x' };
	for (size_t i = 0; i < len; i++)
		u[len - i] = static_cast<uint8_t>(0x80 | (c >> (6 * i) & 0x3F));
	static constexpr uint8_t lead[] = { 0, 0, 0xC0, 0xE0, 0xF0 };
	u[1] = static_cast<uint8_t>(lead[len] | (c >> (6 * (len - 1))));
	muu::sha1 a, b;
	a(std::u32string_view{ s, 2 }).finish();
	b(u, len + 1).finish();
	same(a, b);
}
