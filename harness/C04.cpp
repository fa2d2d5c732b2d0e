// C04: transcode
#include "utf_ref.h"
#include <muu/core.h>
#include <muu/strings.h>

template <typename To, typename From>
static void to(const text<From>& t)
{
	To want[16];
	size_t n = 0;
	for (size_t i = 0; i < t.k; i++)
		n += enc<To>(t.cp[i], want + n);
	const std::basic_string<To> got{ muu::transcode<To>(t.view()) };
	CHECK(got.length() == n);
	sym_assume(got.length() == n);
	for (size_t i = 0; i < n; i++)
		CHECK(got[i] == want[i]);
}
template <typename From, typename... To>
static void all(size_t k)
{
	text<From> t{ k };
	t.assume_native_order();
	(to<To>(t), ...);
}
//@ {"bounds": "every well-formed text of up to 2 code points"}
ENTRY(C04, from_utf8) { all<char, char16_t, char32_t>(sym_pick("k", 0, 2)); }
//@ {"bounds": "every well-formed text of up to 2 code points"}
ENTRY(C04, from_char8) { all<char8_t, wchar_t, char16_t, char>(sym_pick("k", 0, 2)); }
//@ {"bounds": "every well-formed text of up to 3 code points whose byte order is recognised as native"}
ENTRY(C04, from_utf16) { all<char16_t, char32_t, wchar_t>(sym_pick("k", 0, 3)); }
//@ {"bounds": "every well-formed text of up to 2 code points whose byte order is recognised as native"}
ENTRY(C04, from_utf16_to8) { all<char16_t, char, char8_t>(sym_pick("k", 0, 2)); }
//@ {"bounds": "every well-formed text of up to 2 code points"}
ENTRY(C04, from_utf32) { all<char32_t, char, char16_t, wchar_t>(sym_pick("k", 0, 2)); }
//@ {"bounds": "every well-formed text of up to 2 code points"}
ENTRY(C04, from_wide) { all<wchar_t, char8_t, char16_t, char32_t>(sym_pick("k", 0, 2)); }
// transcoding to the same type is the identity
ENTRY(C04, same)
{
	text<char> t{ sym_pick("k", 0, 2) };
	CHECK(muu::transcode<char>(t.view()).length() == t.n && (!t.n || muu::transcode<char>(t.view()).data() == t.p));
	text<char32_t> u{ 1 };
	CHECK(muu::transcode<char32_t>(u.view()).data() == u.p);
}

// there and back
//@ {"bounds": "every text of 2 code points"}
ENTRY(C04, roundtrip32)
{
	text<char32_t> t{ 2 };
	const std::u8string b = muu::transcode<char8_t>(t.view());
	const std::u32string r = muu::transcode<char32_t>(std::u8string_view{ b });
	CHECK(r.length() == 2);
	sym_assume(r.length() == 2);
	CHECK(r[0] == t.cp[0] && r[1] == t.cp[1]);
}
//@ {"bounds": "every text of 1 code point whose UTF-16 byte order is recognised as native"}
ENTRY(C04, roundtrip8)
{
	text<char> t{ 1 };
	const std::u16string b = muu::transcode<char16_t>(t.view());
	if (b.length() == 1)
		sym_assume((b[0] & 0xFF) != 0 || (b[0] >> 8) == 0);
	else
		sym_assume((b[0] & 0xFF) != 0 && (b[1] & 0xFF) != 0);
	const std::string r = muu::transcode<char>(std::u16string_view{ b });
	CHECK(r.length() == t.n);
	sym_assume(r.length() == t.n);
	for (size_t i = 0; i < t.n; i++)
		CHECK(r[i] == t.p[i]);
}
// the code point encoders, for every scalar value
ENTRY(C04, encoders)
{
	const uint32_t cp = sym<uint32_t>("cp");
	sym_assume(scalar(cp));
	char32_t want[4];
	{
		const muu::impl::utf8_code_point<char> e{ cp };
		size_t n = enc8(cp, want);
		CHECK(e.view().length() == n);
		sym_assume(e.view().length() == n);
		for (size_t i = 0; i < n; i++)
			CHECK(static_cast<unsigned char>(e.view()[i]) == want[i]);
	}
	{
		const muu::impl::utf16_code_point<char16_t> e{ cp };
		size_t n = enc16(cp, want);
		CHECK(e.view().length() == n);
		sym_assume(e.view().length() == n);
		for (size_t i = 0; i < n; i++)
			CHECK(e.view()[i] == want[i]);
	}
}
// arbitrary input never makes the transcoder read or write outside its buffers
//@ {"bounds": "every sequence of 1..3 bytes"}
ENTRY(C04, any_utf8)
{
	const size_t n = sym_pick("n", 1, 3);
	char* p		   = new char[n];
	sym_bytes(p, n, "bytes");
	const auto a = muu::transcode<char32_t>(std::string_view{ p, n });
	CHECK(a.length() <= n);
	const auto b = muu::transcode<char16_t>(std::string_view{ p, n });
	CHECK(b.length() <= 2 * n);
	delete[] p;
}
//@ {"bounds": "every sequence of 1..3 units"}
ENTRY(C04, any_utf16)
{
	const size_t n = sym_pick("n", 1, 3);
	char16_t* p	   = new char16_t[n];
	sym_bytes(p, n * 2, "units");
	const auto a = muu::transcode<char>(std::u16string_view{ p, n });
	CHECK(a.length() <= 3 * n);
	delete[] p;
}
