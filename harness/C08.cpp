// C08: hex digit conversion
#include "sym.h"
#include <muu/core.h>
#include <muu/chars.h>

template <typename C>
static void digits()
{
	const uint8_t v	 = sym<uint8_t>("byte");
	const bool upper = sym<bool>("upper");
	const auto a	 = upper ? static_cast<C>('A') : static_cast<C>('a');
	const auto p	 = muu::byte_to_hex<C>(v, a);
	auto digit		 = [&](unsigned n) { return static_cast<C>(n < 10 ? '0' + n : (upper ? 'A' : 'a') + (n - 10)); };
	CHECK(p.high == digit(v >> 4));
	CHECK(p.low == digit(v & 15));
	CHECK(muu::hex_to_dec(p.high) * 16 + muu::hex_to_dec(p.low) == v);
	const auto q = muu::byte_to_hex<C>(std::byte{ v });
	CHECK(muu::hex_to_dec(q.high) * 16 + muu::hex_to_dec(q.low) == v);
	CHECK(q.high == static_cast<C>((v >> 4) < 10 ? '0' + (v >> 4) : 'a' + ((v >> 4) - 10)));
	const auto q2 = muu::byte_to_hex<C>(std::byte{ v }, a);
	CHECK(q2.high == p.high && q2.low == p.low);
	const unsigned d = sym_range<unsigned>("d", 0, 15);
	CHECK(muu::dec_to_hex<C>(d, a) == digit(d));
	CHECK(muu::dec_to_hex<C>(d) == static_cast<C>(d < 10 ? '0' + d : 'a' + (d - 10)));
	// every hexadecimal digit character of this type
	C c = sym<C>("c");
	sym_assume(muu::is_hexadecimal_digit(c));
	const auto u = static_cast<uint32_t>(c);
	CHECK(muu::hex_to_dec(c) == (u <= '9' ? u - '0' : u <= 'F' ? u - 'A' + 10 : u - 'a' + 10));
}
ENTRY(C08, char_) { digits<char>(); }
ENTRY(C08, wide) { digits<wchar_t>(); }
ENTRY(C08, char8) { digits<char8_t>(); }
ENTRY(C08, char16) { digits<char16_t>(); }
ENTRY(C08, char32) { digits<char32_t>(); }
