// C07: classification of the 8- and 16-bit and wide character types against the UTF-32 functions (those are decided by C06)
#include "sym.h"
#include <muu/core.h>
#include <muu/chars.h>

#define ALL(X)                                                                                                                                                 \
	X(ascii_code_point) X(ascii_hyphen) X(ascii_letter) X(ascii_lowercase) X(ascii_number) X(ascii_uppercase) X(ascii_whitespace) X(non_ascii_hyphen)          \
		X(non_ascii_letter) X(non_ascii_lowercase) X(non_ascii_number) X(non_ascii_uppercase) X(non_ascii_whitespace) X(combining_mark) X(decimal_digit)       \
			X(hexadecimal_digit) X(hyphen) X(letter) X(lowercase) X(number) X(octal_digit) X(uppercase) X(whitespace)
#define NEG(X) X(hyphen) X(letter) X(lowercase) X(number) X(uppercase) X(whitespace)

// alone: can this unit stand for the code point with its own value?
template <typename C, typename U, typename Alone>
static void agree(Alone&& alone)
{
	const U u	 = sym<U>("c");
	const C c	 = static_cast<C>(u);
	const auto w = static_cast<char32_t>(u);
	const bool a = alone(u);
#define X(n) CHECK(muu::is_##n(c) == (a && muu::is_##n(w)));
	ALL(X)
#undef X
#define X(n) CHECK(muu::is_not_##n(c) == !muu::is_##n(c));
	NEG(X)
#undef X
	CHECK(muu::is_code_point(c) == (a && muu::is_code_point(w)));
	CHECK(muu::is_not_code_point(c) == !muu::is_code_point(c));
	CHECK(muu::is_non_ascii_code_point(c) == (a && muu::is_non_ascii_code_point(w)));
}
template <typename C, typename U>
static void utf8()
{
	agree<C, U>([](U u) { return u < 0x80; });
	const U u = sym<U>("b");
	CHECK(muu::is_code_point_boundary(static_cast<C>(u)) == !(u >= 0x80 && u <= 0xBF));
}
ENTRY(C07, char_) { utf8<char, uint8_t>(); }
ENTRY(C07, uchar) { utf8<unsigned char, uint8_t>(); }
ENTRY(C07, char8) { utf8<char8_t, uint8_t>(); }
// one path per 4096-value block
#define CLS(n)                                                                                                                                                 \
	ENTRY(C07, char16_##n)                                                                                                                                     \
	{                                                                                                                                                          \
		const auto lo	 = static_cast<uint16_t>(sym_pick("block", 0, 15) << 12);                                                                             \
		const uint16_t u = sym_range<uint16_t>("c", lo, static_cast<uint16_t>(lo + 0xFFF));                                                                   \
		const auto c	 = static_cast<char16_t>(u);                                                                                                          \
		const bool a	 = !(u >= 0xD800 && u <= 0xDFFF);                                                                                                     \
		const bool is	 = a && muu::is_##n(static_cast<char32_t>(u));                                                                                        \
		CHECK(muu::is_##n(c) == is);                                                                                                                          \
		CHECK(muu::is_not_##n(c) == !is);                                                                                                                     \
		CHECK(muu::is_ascii_##n(c) == (is && u < 0x80));                                                                                                      \
		CHECK(muu::is_non_ascii_##n(c) == (is && u >= 0x80));                                                                                                 \
	}                                                                                                                                                          \
	ENTRY(C07, wide_##n)                                                                                                                                       \
	{                                                                                                                                                          \
		const size_t blk = sym_pick("block", 0, 32);                                                                                                          \
		const auto lo	 = static_cast<uint32_t>(blk << 12);                                                                                                  \
		const uint32_t u = sym_range<uint32_t>("c", lo, blk == 32 ? ~uint32_t{} : lo + 0xFFF);                                                                \
		const auto c	 = static_cast<wchar_t>(u);                                                                                                           \
		const bool is	 = muu::is_##n(static_cast<char32_t>(u));                                                                                             \
		CHECK(muu::is_##n(c) == is);                                                                                                                          \
		CHECK(muu::is_not_##n(c) == !is);                                                                                                                     \
		CHECK(muu::is_ascii_##n(c) == (is && u < 0x80));                                                                                                      \
		CHECK(muu::is_non_ascii_##n(c) == (is && u >= 0x80));                                                                                                 \
	}
//@entries char16_hyphen char16_letter char16_lowercase char16_number char16_uppercase char16_whitespace
//@entries wide_hyphen wide_letter wide_lowercase wide_number wide_uppercase wide_whitespace
NEG(CLS)
#define ONE(n) CHECK(muu::is_##n(c) == (a && muu::is_##n(w)));
ENTRY(C07, char16_rest)
{
	const auto lo	 = static_cast<uint16_t>(sym_pick("block", 0, 15) << 12);
	const uint16_t u = sym_range<uint16_t>("c", lo, static_cast<uint16_t>(lo + 0xFFF));
	const auto c	 = static_cast<char16_t>(u);
	const auto w	 = static_cast<char32_t>(u);
	const bool a	 = !(u >= 0xD800 && u <= 0xDFFF);
	ONE(code_point) ONE(ascii_code_point) ONE(non_ascii_code_point) ONE(combining_mark) ONE(decimal_digit) ONE(hexadecimal_digit) ONE(octal_digit)
	CHECK(muu::is_not_code_point(c) == !muu::is_code_point(c));
}
ENTRY(C07, wide_rest)
{
	const size_t blk = sym_pick("block", 0, 32);
	const auto lo	 = static_cast<uint32_t>(blk << 12);
	const uint32_t u = sym_range<uint32_t>("c", lo, blk == 32 ? ~uint32_t{} : lo + 0xFFF);
	const auto c	 = static_cast<wchar_t>(u);
	const auto w	 = static_cast<char32_t>(u);
	const bool a	 = true;
	ONE(code_point) ONE(ascii_code_point) ONE(non_ascii_code_point) ONE(combining_mark) ONE(decimal_digit) ONE(hexadecimal_digit) ONE(octal_digit)
	CHECK(muu::is_not_code_point(c) == !muu::is_code_point(c));
}
ENTRY(C07, char16_boundary)
{
	const uint16_t u = sym<uint16_t>("b");
	CHECK(muu::is_code_point_boundary(static_cast<char16_t>(u)) == !(u >= 0xDC00 && u <= 0xDFFF));
}
ENTRY(C07, wide_boundary)
{
	const uint32_t u = sym<uint32_t>("b");
	CHECK(muu::is_code_point_boundary(static_cast<wchar_t>(u)) == muu::is_code_point_boundary(static_cast<char32_t>(u)));
}
