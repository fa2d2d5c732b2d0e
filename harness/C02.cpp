// C02: utf16_decoder
#include "utf_ref.h"
#include <muu/core.h>
#include <muu/utf16_decoder.h>

//@ {"bounds": "every sequence of 6 units"}
ENTRY(C02, units)
{
	muu::utf16_decoder d;
	CHECK(!d.has_value() && !d.error() && !d.needs_more_input());
	bool pending  = false;
	uint32_t high = 0;
	for (int i = 0; i < 6; i++)
	{
		const uint16_t u = sym<uint16_t>("u");
		if (i & 1)
			d(static_cast<char16_t>(u));
		else
			d(u);
		const bool isHigh = u >= 0xD800 && u <= 0xDBFF, isLow = u >= 0xDC00 && u <= 0xDFFF;
		const bool v = d.has_value(), m = d.needs_more_input(), e = d.error();
		CHECK(v + m + e == 1);
		if (pending ? !isLow : isLow)
		{
			CHECK(e);
			pending = false;
			sym_assume(e);
			d.clear_error();
			CHECK(!d.error() && !d.needs_more_input() && !d.has_value());
		}
		else if (isHigh)
		{
			CHECK(m);
			pending = true;
			high	= u;
		}
		else
		{
			CHECK(v);
			CHECK(d.value() == (pending ? 0x10000u + ((high - 0xD800u) << 10) + (u - 0xDC00u) : u));
			CHECK(scalar(d.value()));
			pending = false;
		}
	}
}
