// C01: utf8_decoder
#include "utf_ref.h"
#include <muu/core.h>
#include <muu/utf8_decoder.h>

template <typename C>
static void stream(size_t n)
{
	muu::utf8_decoder d;
	ref_utf8 r;
	uint8_t bytes[16];
	sym_bytes(bytes, n, "b");
	for (size_t i = 0; i < n; i++)
	{
		d(static_cast<C>(bytes[i]));
		r.feed(bytes[i]);
		const bool v = d.has_value(), m = d.needs_more_input(), e = d.error();
		CHECK(v + m + e == 1);
		CHECK(v == r.done);
		CHECK(e == r.bad);
		if (r.done)
		{
			CHECK(d.value() == r.acc);
			CHECK(scalar(r.acc));
		}
		if (r.bad)
		{
			d.clear_error(); // after a reset it must behave like a new decoder
			CHECK(!d.error() && !d.needs_more_input());
			r = ref_utf8{};
		}
	}
}
//@ {"bounds": "every sequence of 5 bytes fed as uint8_t"}
ENTRY(C01, bytes) { stream<uint8_t>(5); }
//@ {"bounds": "every sequence of 4 bytes fed as char"}
ENTRY(C01, chars) { stream<char>(4); }
//@ {"bounds": "every sequence of 4 bytes fed as char8_t"}
ENTRY(C01, char8) { stream<char8_t>(4); }
//@ {"bounds": "every sequence of 8 bytes", "tier": "thorough", "budget": 800}
ENTRY(C01, bytes8) { stream<uint8_t>(8); }
// completeness: every scalar value decodes from its encoding, also right after another code point
ENTRY(C01, encodings)
{
	muu::utf8_decoder d;
	for (int k = 0; k < 2; k++)
	{
		const uint32_t cp = sym_scalar("cp");
		uint8_t u[4];
		const size_t n = enc8(cp, u);
		for (size_t i = 0; i < n; i++)
		{
			d(u[i]);
			CHECK(!d.error());
			CHECK(d.has_value() == (i + 1 == n));
			CHECK(d.needs_more_input() == (i + 1 < n));
		}
		CHECK(d.value() == cp);
	}
}
