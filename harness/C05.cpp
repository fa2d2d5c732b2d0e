// C05: trim, trim_left, trim_right
#include "utf_ref.h"
#include <muu/core.h>
#include <muu/strings.h>

static bool ws(uint32_t c)
{
	// C06 decides that this is right
	return muu::is_whitespace(static_cast<char32_t>(c));
}
template <typename T>
static void same(std::basic_string_view<T> got, const T* base, size_t from, size_t to)
{
	CHECK(got.length() == to - from);
	CHECK(got.empty() || got.data() == base + from);
}
template <typename T>
static void trims(size_t k)
{
	text<T> t{ k, true };
	t.assume_native_order();
	size_t first = k, last = 0; // last = one past the last non-whitespace code point
	for (size_t i = 0; i < k; i++)
		if (!ws(t.cp[i]))
		{
			if (first == k)
				first = i;
			last = i + 1;
		}
	const size_t from = first == k ? t.n : t.at[first];
	const size_t to	  = first == k ? t.n : t.at[last - 1] + t.len[last - 1];
	const auto s = t.view();
	same(muu::trim(s), t.p, from, to);
	same(muu::trim_left(s), t.p, from, t.n);
	same(muu::trim_right(s), t.p, first == k ? t.n : 0, to);
	if (first != k)
		sym_reach("kept something");
	else
		sym_reach("nothing left");
	// trimming again changes nothing (UTF-16 without a byte order mark excepted: the guess depends on the whole text)
	// (a text that starts with a byte order mark once trimmed neither)
	if (sizeof(T) != 2 && (first == k || t.cp[first] != 0xFEFF))
	{
		const auto again = muu::trim(std::basic_string_view<T>{ t.p + from, to - from });
		same(again, t.p, from, to);
	}
}
//@ {"bounds": "every text of up to 2 code points from the blocks U+0000..7F, U+0080..FF, U+2000..207F, U+1F600..1F63F (C06 decides the classification of all others)"}
ENTRY(C05, utf8) { trims<char>(sym_pick("k", 0, 2)); }
//@ {"bounds": "every text of 1 code point from those blocks"}
ENTRY(C05, char8) { trims<char8_t>(1); }
//@ {"bounds": "every text of up to 2 code points from the blocks U+0000..7F, U+0080..FF, U+2000..207F, U+1F600..1F63F (C06 decides the classification of all others) whose byte order is recognised as native"}
ENTRY(C05, utf16) { trims<char16_t>(sym_pick("k", 0, 2)); }
//@ {"bounds": "every text of up to 2 code points from those blocks"}
ENTRY(C05, utf32) { trims<char32_t>(sym_pick("k", 0, 2)); }
//@ {"bounds": "every text of up to 2 code points from those blocks"}
ENTRY(C05, wide) { trims<wchar_t>(sym_pick("k", 1, 2)); }

// ASCII text of any mix of letters and whitespace
//@ {"bounds": "every 4-character ASCII text"}
ENTRY(C05, ascii)
{
	char s[4];
	for (auto& c : s)
		c = static_cast<char>(sym_range<uint8_t>("c", 0, 0x7F));
	auto w = [](char c) { return c == ' ' || (c >= '\t' && c <= '\r'); };
	size_t b = 0, e = 4;
	while (b < 4 && w(s[b]))
		b++;
	while (e > b && w(s[e - 1]))
		e--;
	same(muu::trim(std::string_view{ s, 4 }), static_cast<const char*>(s), b, e);
	same(muu::trim_left(std::string_view{ s, 4 }), static_cast<const char*>(s), b, 4);
	same(muu::trim_right(std::string_view{ s, 4 }), static_cast<const char*>(s), e == b ? e : 0, e);
}
// arbitrary bytes: the result lies inside the argument
template <typename T>
static void inside(size_t n)
{
	T* p = new T[n];
	sym_bytes(p, n * sizeof(T), "units");
	const std::basic_string_view<T> s{ p, n };
	for (auto r : { muu::trim(s), muu::trim_left(s), muu::trim_right(s) })
		CHECK(r.empty() || (r.data() >= p && r.data() + r.length() <= p + n));
	delete[] p;
}
//@ {"bounds": "every sequence of 1..3 bytes"}
ENTRY(C05, any_utf8) { inside<char>(sym_pick("n", 1, 3)); }
//@ {"bounds": "every sequence of 1..2 units"}
ENTRY(C05, any_utf16) { inside<char16_t>(sym_pick("n", 1, 2)); }
