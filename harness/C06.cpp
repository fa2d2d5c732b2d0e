// C06: classification of UTF-32 code units against the Unicode 15.0 character database
#include "sym.h"
#include <muu/core.h>
#include <muu/chars.h>
#include "ucd.h"

// is c, known to lie in [lo, hi], in the set?
template <size_t N>
static bool in_set(const ucd_range (&t)[N], uint32_t c, uint32_t lo, uint32_t hi)
{
	bool r = false;
	for (size_t i = 0; i < N; i++)
		if (t[i].hi >= lo && t[i].lo <= hi)
			r |= (c >= t[i].lo) & (c <= t[i].hi);
	return r;
}
template <size_t N, typename F>
static void same(const ucd_range (&t)[N], F&& f, uint32_t lo, uint32_t hi, const char* msg)
{
	const uint32_t c = sym_range<uint32_t>("c", lo, hi);
	const bool got	 = f(static_cast<char32_t>(c));
	sym_check(got == in_set(t, c, lo, hi), msg);
}
#define CLASSES(X) X(hyphen) X(letter) X(lowercase) X(uppercase) X(number) X(whitespace) X(combining_mark)

// one path per 4096-value block of the plane, the low 12 bits are symbolic
template <size_t N, typename F>
static void plane(const ucd_range (&t)[N], F&& f, uint32_t p, const char* msg)
{
	const uint32_t lo = (p << 16) | static_cast<uint32_t>(sym_pick("block", 0, 15) << 12);
	same(t, f, lo, lo + 0xFFF, msg);
}
#define DEF(n)                                                                                                                                                 \
	ENTRY(C06, n##_bmp)                                                                                                                                        \
	{                                                                                                                                                          \
		plane(ucd_##n, [](char32_t c) { return muu::is_##n(c); }, 0, "is_" #n " in the basic multilingual plane");                                            \
	}                                                                                                                                                          \
	ENTRY(C06, n##_beyond)                                                                                                                                     \
	{                                                                                                                                                          \
		same(ucd_##n, [](char32_t c) { return muu::is_##n(c); }, 0x20000, 0xFFFFFFFF, "is_" #n " from U+20000 on");                                          \
	}
//@entries hyphen_bmp letter_bmp lowercase_bmp uppercase_bmp number_bmp whitespace_bmp combining_mark_bmp hyphen_beyond letter_beyond lowercase_beyond uppercase_beyond number_beyond whitespace_beyond combining_mark_beyond
CLASSES(DEF)
#define DEF1(n)                                                                                                                                                \
	ENTRY(C06, n##_smp)                                                                                                                                        \
	{                                                                                                                                                          \
		plane(ucd_##n, [](char32_t c) { return muu::is_##n(c); }, 1, "is_" #n " in plane 1");                                                                 \
	}
//@entries hyphen_smp letter_smp number_smp whitespace_smp combining_mark_smp
DEF1(hyphen)
DEF1(letter)
DEF1(number)
DEF1(whitespace)
DEF1(combining_mark)
// the tables of the two cased classes stop at U+FFFF (known finding); nothing may be reported beyond what the database has
ENTRY(C06, lowercase_smp) { plane(ucd_lowercase, [](char32_t c) { return muu::is_lowercase(c); }, 1, "is_lowercase in plane 1"); }
ENTRY(C06, uppercase_smp) { plane(ucd_uppercase, [](char32_t c) { return muu::is_uppercase(c); }, 1, "is_uppercase in plane 1"); }
ENTRY(C06, cased_smp_sound)
{
	const uint32_t lo = 0x10000 | static_cast<uint32_t>(sym_pick("block", 0, 15) << 12);
	const uint32_t c  = sym_range<uint32_t>("c", lo, lo + 0xFFF);
	CHECK(!muu::is_lowercase(char32_t(c)) || in_set(ucd_lowercase, c, lo, lo + 0xFFF));
	CHECK(!muu::is_uppercase(char32_t(c)) || in_set(ucd_uppercase, c, lo, lo + 0xFFF));
}

ENTRY(C06, simple)
{
	const uint32_t v = sym<uint32_t>("c");
	const char32_t c = v;
	CHECK(muu::is_code_point(c) == (v <= 0x10FFFF));
	CHECK(muu::is_not_code_point(c) == (v > 0x10FFFF));
	CHECK(muu::is_ascii_code_point(c) == (v < 0x80));
	CHECK(muu::is_non_ascii_code_point(c) == (v >= 0x80 && v <= 0x10FFFF));
	CHECK(muu::is_code_point_boundary(c) == (v <= 0x10FFFF));
	CHECK(muu::is_decimal_digit(c) == (v >= '0' && v <= '9'));
	CHECK(muu::is_octal_digit(c) == (v >= '0' && v <= '7'));
	CHECK(muu::is_hexadecimal_digit(c) == ((v >= '0' && v <= '9') || (v >= 'a' && v <= 'f') || (v >= 'A' && v <= 'F')));
}
// the ASCII / non-ASCII variants partition the class and the negations are exact, for every 32-bit value
#define PART(n)                                                                                                                                                \
	ENTRY(C06, n##_partition)                                                                                                                                  \
	{                                                                                                                                                          \
		const uint32_t v = sym<uint32_t>("c");                                                                                                                 \
		const char32_t c = v;                                                                                                                                  \
		const bool is	 = muu::is_##n(c);                                                                                                                    \
		CHECK(muu::is_ascii_##n(c) == (is && v < 0x80));                                                                                                      \
		CHECK(muu::is_non_ascii_##n(c) == (is && v >= 0x80));                                                                                                 \
		CHECK(muu::is_not_##n(c) == !is);                                                                                                                     \
	}
//@entries hyphen_partition letter_partition lowercase_partition uppercase_partition number_partition whitespace_partition
PART(hyphen) PART(letter) PART(lowercase) PART(uppercase) PART(number) PART(whitespace)
