// C03: utf_decode
#include "utf_ref.h"
#include <muu/core.h>
#include <muu/utf_decode.h>

struct visit
{
	uint32_t cp[8];
	size_t at[8], len[8];
	size_t n = 0;
};
template <typename T>
static void wellformed(size_t k)
{
	text<T> t{ k };
	t.assume_native_order();
	visit f, r;
	muu::utf_decode(t.view(), [&](char32_t c, size_t at, size_t len) noexcept { f.cp[f.n] = c, f.at[f.n] = at, f.len[f.n] = len, f.n++; });
	CHECK(f.n == k);
	sym_assume(f.n == k);
	for (size_t i = 0; i < k; i++)
	{
		CHECK(f.cp[i] == t.cp[i]);
		CHECK(f.at[i] == t.at[i]);
		CHECK(f.len[i] == t.len[i]);
	}
	muu::utf_decode(t.view(), true, [&](char32_t c, size_t at, size_t len) noexcept { r.cp[r.n] = c, r.at[r.n] = at, r.len[r.n] = len, r.n++; });
	CHECK(r.n == k);
	sym_assume(r.n == k);
	for (size_t i = 0; i < k; i++)
	{
		CHECK(r.cp[i] == t.cp[k - 1 - i]);
		CHECK(r.at[i] == t.at[k - 1 - i]);
		CHECK(r.len[i] == t.len[k - 1 - i]);
	}
}
//@ {"bounds": "every well-formed text of up to 2 code points"}
ENTRY(C03, utf8) { wellformed<char>(sym_pick("k", 0, 2)); }
//@ {"bounds": "every well-formed text of 2 code points"}
ENTRY(C03, utf8_char8) { wellformed<char8_t>(2); }
//@ {"bounds": "every well-formed text of up to 3 code points whose byte order is recognised as native"}
ENTRY(C03, utf16) { wellformed<char16_t>(sym_pick("k", 0, 3)); }
//@ {"bounds": "every well-formed text of up to 4 code points"}
ENTRY(C03, utf32) { wellformed<char32_t>(sym_pick("k", 0, 4)); }
//@ {"bounds": "every well-formed text of up to 3 code points"}
ENTRY(C03, wide) { wellformed<wchar_t>(sym_pick("k", 0, 3)); }
//@ {"bounds": "every well-formed single-unit UTF-16 text, whatever its byte order looks like"}
ENTRY(C03, utf16_any_order)
{
	const uint16_t u = sym<uint16_t>("u");
	sym_assume((u < 0xD800 || u > 0xDFFF) && u != 0xFEFF && u != 0xFFFE);
	char16_t s[1] = { static_cast<char16_t>(u) };
	muu::utf_decode(std::u16string_view{ s, 1 }, [&](char32_t c) noexcept { CHECK(c == u); });
}

// a byte order mark is not part of the text and decides the byte order
ENTRY(C03, marks)
{
	const uint32_t cp = sym<uint32_t>("cp");
	sym_assume(scalar(cp));
	size_t n = 0;
	{
		char32_t s[2] = { 0xFEFF, static_cast<char32_t>(cp) };
		muu::utf_decode(std::u32string_view{ s, 2 }, [&](char32_t c, size_t at) noexcept { CHECK(c == cp && at == 1); n++; });
		char32_t z[2] = { 0xFFFE0000, static_cast<char32_t>(__builtin_bswap32(cp)) };
		muu::utf_decode(std::u32string_view{ z, 2 }, true, [&](char32_t c, size_t at) noexcept { CHECK(c == cp && at == 1); n++; });
		CHECK(n == 2);
	}
	sym_assume(cp < 0x10000);
	char16_t s[2] = { 0xFEFF, static_cast<char16_t>(cp) };
	muu::utf_decode(std::u16string_view{ s, 2 }, [&](char32_t c, size_t at) noexcept { CHECK(c == cp && at == 1); n++; });
	char16_t z[2] = { 0xFFFE, __builtin_bswap16(static_cast<uint16_t>(cp)) };
	muu::utf_decode(std::u16string_view{ z, 2 }, [&](char32_t c, size_t at) noexcept { CHECK(c == cp && at == 1); n++; });
	CHECK(n == 4);
	const char8_t b[4] = { 0xEF, 0xBB, 0xBF, 'x' };
	muu::utf_decode(std::u8string_view{ b, 4 }, [&](char32_t c, size_t at) noexcept { CHECK(c == 'x' && at == 3); n++; });
	muu::utf_decode(std::string_view{ "\xEF\xBB\xBFx", 4 }, true, [&](char32_t c, size_t at) noexcept { CHECK(c == 'x' && at == 3); n++; });
	CHECK(n == 6);
}

// stops as soon as the callback says so, for every callback shape
template <typename T>
static void stops(bool reverse)
{
	constexpr size_t k = sizeof(T) == 1 ? 2 : 3;
	text<T> t{ k };
	t.assume_native_order();
	const size_t quit = sym_pick("quit", 0, k - 1);
	size_t n		  = 0;
	muu::utf_decode(t.view(), reverse, [&](char32_t, size_t, size_t) noexcept { return n++ != quit; });
	CHECK(n == quit + 1);
	n = 0;
	muu::utf_decode(t.view(), reverse, [&](char32_t, size_t at) noexcept {
		CHECK(at == t.at[reverse ? k - 1 - n : n]);
		return n++ != quit;
	});
	CHECK(n == quit + 1);
	n = 0;
	muu::utf_decode(t.view(), reverse, [&](char32_t c) noexcept {
		CHECK(c == t.cp[reverse ? k - 1 - n : n]);
		return n++ != quit;
	});
	CHECK(n == quit + 1);
}
ENTRY(C03, stop_utf8) { stops<char>(false); }
ENTRY(C03, stop_utf8_reverse) { stops<char>(true); }
ENTRY(C03, stop_utf16) { stops<char16_t>(sym_pick("reverse", 0, 1)); }
ENTRY(C03, stop_utf32) { stops<char32_t>(sym_pick("reverse", 0, 1)); }

// arbitrary units: only units of the string are read (the block has exactly its size); every unit is visited exactly
// once, except a byte order mark, and a visit of a single unit passes on its value
template <typename T>
static void arbitrary(size_t n)
{
	T* p = new T[n];
	sym_bytes(p, n * sizeof(T), "units");
	const bool reverse = sym_pick("reverse", 0, 1);
	size_t calls	   = 0;
	unsigned cover[8] = {};
	muu::utf_decode(std::basic_string_view<T>{ p, n }, reverse, [&](char32_t c, size_t at, size_t len) noexcept {
		CHECK(at < n && len >= 1 && len <= 4 && at + len <= n);
		(void)c;
		for (size_t i = 0; i < n; i++)
		{
			cover[i] += unsigned(i >= at) & unsigned(i < at + len);
			if constexpr (sizeof(T) == 1)
				sym_check((i != at) | (len != 1) | (static_cast<uint8_t>(c) == static_cast<uint8_t>(p[i])), "a single unit is passed on");
		}
		calls++;
	});
	CHECK(calls <= n);
	size_t mark = 0;
	if constexpr (sizeof(T) == 1)
		mark = n >= 3 && p[0] == T(0xEF) && p[1] == T(0xBB) && p[2] == T(0xBF) ? 3 : 0;
	else if constexpr (sizeof(T) == 2)
		mark = bool(p[0] == T(0xFEFF)) | bool(p[0] == T(0xFFFE));
	else
		mark = bool(p[0] == T(0xFEFF)) | bool(p[0] == T(0xFFFE0000));
	for (size_t i = 0; i < n; i++)
		sym_check(cover[i] == unsigned(i >= mark), "every unit is part of exactly one visit");
	delete[] p;
}
//@ {"bounds": "every sequence of 1..4 bytes"}
ENTRY(C03, any_utf8) { arbitrary<char>(sym_pick("n", 1, 4)); }
//@ {"bounds": "every sequence of 1..4 units"}
ENTRY(C03, any_utf16) { arbitrary<char16_t>(sym_pick("n", 1, 4)); }
//@ {"bounds": "every sequence of 1..4 units"}
ENTRY(C03, any_utf32) { arbitrary<char32_t>(sym_pick("n", 1, 4)); }

// stopping is immediate in ill-formed and truncated text too: the callback is never called again
template <typename T>
static void stops_anywhere(size_t n)
{
	T* p = new T[n];
	sym_bytes(p, n * sizeof(T), "s");
	const bool reverse = sym_pick("reverse", 0, 1);
	const size_t quit  = sym_pick("quit", 0, n - 1);
	size_t calls	   = 0;
	muu::utf_decode(std::basic_string_view<T>{ p, n }, reverse, [&](char32_t) noexcept {
		CHECK(calls <= quit);
		return calls++ != quit;
	});
	sym_reach(calls > quit ? "stopped" : "ended");
	delete[] p;
}
ENTRY(C03, stop_any_utf8) { stops_anywhere<char>(sym_pick("n", 1, 4)); }
ENTRY(C03, stop_any_utf16) { stops_anywhere<char16_t>(sym_pick("n", 1, 3)); }
ENTRY(C03, stop_any_utf32) { stops_anywhere<char32_t>(sym_pick("n", 1, 2)); }
//@ {"bounds": "every sequence of 6 bytes", "tier": "thorough", "budget": 700}
ENTRY(C03, any_utf8_6) { arbitrary<char>(6); }
// an error in the middle: valid text before and after an ill-formed byte is still visited, in both directions
ENTRY(C03, resync)
{
	char s[3] = { 'a', static_cast<char>(sym_range<uint8_t>("bad", 0xF5, 0xFF)), 'b' };
	size_t n  = 0;
	bool a = false, b = false;
	const bool reverse = sym_pick("reverse", 0, 1);
	muu::utf_decode(std::string_view{ s, 3 }, reverse, [&](char32_t c, size_t at) noexcept {
		a |= c == 'a' && at == 0;
		b |= c == 'b' && at == 2;
		n++;
	});
	CHECK(a && b && n == 3);
}
