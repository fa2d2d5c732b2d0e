//@file {"src": ["src/uuid.cpp", "src/hashing.cpp"]}
// U02: uuid text form
#include "sym.h"
#include <muu/core.h>
#include <muu/uuid.h>
#include <iosfwd>
#include <string_view>

// a stand-in for the standard library's output streams: it records the characters written
static uint32_t out[64];
static size_t out_n;
template <typename C>
static void record(const C* s, long n)
{
	for (long i = 0; i < n; i++)
	{
		sym_check(out_n < 64, "no more than 64 characters are written");
		out[out_n++] = static_cast<uint32_t>(s[i]);
	}
}
extern "C"
{
	__attribute__((used)) void* ins_c(void* os, const char* s, long n) asm("_ZSt16__ostream_insertIcSt11char_traitsIcEERSt13basic_ostreamIT_T0_ES6_PKS3_l");
	void* ins_c(void* os, const char* s, long n) { return record(s, n), os; }
	__attribute__((used)) void* ins_w(void* os, const wchar_t* s, long n) asm("_ZSt16__ostream_insertIwSt11char_traitsIwEERSt13basic_ostreamIT_T0_ES6_PKS3_l");
	void* ins_w(void* os, const wchar_t* s, long n) { return record(s, n), os; }
	__attribute__((used)) void* write_c(void* os, const char* s, long n) asm("_ZNSo5writeEPKcl");
	void* write_c(void* os, const char* s, long n) { return record(s, n), os; }
	__attribute__((used)) void* put_c(void* os, char c) asm("_ZNSo3putEc");
	void* put_c(void* os, char c) { return record(&c, 1), os; }
}
alignas(64) static unsigned char fake_stream[1024];

static muu::uuid arbitrary(uint8_t (&b)[16])
{
	sym_bytes(b, 16, "id");
	muu::uuid id;
	memcpy(&id, b, 16);
	return id;
}
static bool dash_after(size_t byte) { return byte == 3 || byte == 5 || byte == 7 || byte == 9; }

template <typename C>
static void print()
{
	uint8_t b[16];
	const auto id = arbitrary(b);
	auto& os	  = *reinterpret_cast<std::basic_ostream<C>*>(fake_stream);
	auto& back	  = (os << id);
	CHECK(&back == &os);
	CHECK(out_n == 36);
	size_t pos = 0;
	for (size_t i = 0; i < 16; i++)
	{
		for (int half = 0; half < 2; half++)
		{
			const uint32_t nib	= half ? b[i] & 15u : b[i] >> 4;
			const uint32_t want = static_cast<uint32_t>(sym_ite(nib < 10, '0' + nib, 'A' + nib - 10));
			CHECK(out[pos] == want);
			pos++;
		}
		if (dash_after(i))
			CHECK(out[pos++] == '-');
	}
	// and back
	C text[36];
	for (size_t i = 0; i < 36; i++)
		text[i] = static_cast<C>(out[i]);
	const auto again = muu::uuid::parse(std::basic_string_view<C>{ text, 36 });
	CHECK(again.has_value());
	if (again)
		for (size_t i = 0; i < 16; i++)
			CHECK(static_cast<uint8_t>(again->bytes.value[i]) == b[i]);
}
//@ {"bounds": "every UUID"}
ENTRY(U02, print_char) { print<char>(); }
//@ {"bounds": "every UUID"}
ENTRY(U02, print_wide) { print<wchar_t>(); }

static bool hex(uint32_t c) { return bool((c >= '0') & (c <= '9')) | bool((c >= 'a') & (c <= 'f')) | bool((c >= 'A') & (c <= 'F')); }
static uint32_t nibble(uint32_t c) { return static_cast<uint32_t>(sym_ite(c <= '9', c - '0', sym_ite(c <= 'F', c - 'A' + 10, c - 'a' + 10))); }
static bool white(uint32_t c) { return bool((c >= 9) & (c <= 13)) | (c == 32); }

// the grammar: ws* [ "{" ws* ] pair ( (ws|"-")* pair ){15} ws* [ "}" ws* ]
template <typename C>
static bool ref(const C* s, size_t n, uint8_t (&b)[16])
{
	size_t i = 0;
	const auto at = [&] { return static_cast<uint32_t>(std::make_unsigned_t<C>(s[i])); };
	const auto skip = [&]
	{
		while (i < n && white(at()))
			i++;
	};
	skip();
	bool open = false;
	if (i < n && at() == '{')
	{
		open = true;
		i++;
		skip();
	}
	for (int k = 0; k < 16; k++)
	{
		if (k)
			while (i < n && (at() == '-' || white(at())))
				i++;
		if (i >= n || !hex(at()))
			return false;
		const auto h = nibble(at());
		i++;
		if (i >= n || !hex(at()))
			return false;
		b[k] = static_cast<uint8_t>(h << 4 | nibble(at()));
		i++;
	}
	skip();
	if (open)
	{
		if (i >= n || at() != '}')
			return false;
		i++;
		skip();
	}
	return i == n;
}
// parses an exact-size block; compares with the grammar
template <typename C>
static void agrees(const C* s, size_t n)
{
	C* p = new C[n ? n : 1];
	for (size_t i = 0; i < n; i++)
		p[i] = s[i];
	uint8_t b[16] = {};
	const bool ok = ref(p, n, b);
	const auto r  = muu::uuid::parse(std::basic_string_view<C>{ p, n });
	CHECK(r.has_value() == ok);
	if (r && ok)
		for (size_t i = 0; i < 16; i++)
			CHECK(static_cast<uint8_t>(r->bytes.value[i]) == b[i]);
	delete[] p;
}
template <typename C>
static void put(C* s, size_t& n, const char* t)
{
	while (*t)
		s[n++] = static_cast<C>(*t++);
}
// arbitrary digits in the five usual layouts
template <typename C>
static void layouts()
{
	static const char* const shape[] = { "dddddddddddddddddddddddddddddddd", "dddddddd-dddd-dddd-dddd-dddddddddddd", "{dddddddd-dddd-dddd-dddd-dddddddddddd}",
										 "w{w dd-dd dddd--ddddddd-d-dddddddddddddddd w} ", "wdddddddddddddddddddd dd--- -dddddddddd w" };
	const size_t k	   = sym_pick("shape", 0, 4);
	C s[64];
	size_t n	= 0;
	uint32_t fw = 0;
	uint8_t want[16] = {};
	size_t d = 0;
	for (const char* q = shape[k]; *q; q++)
	{
		if (*q == 'd')
		{
			const C c = sym<C>("digit");
			sym_assume(hex(static_cast<uint32_t>(c)));
			const auto v = nibble(static_cast<uint32_t>(c));
			want[d / 2]	 = static_cast<uint8_t>(want[d / 2] | v << (d % 2 ? 0 : 4));
			d++;
			s[n++] = c;
		}
		else if (*q == 'w')
		{
			const C c = sym<C>("space");
			sym_assume(white(static_cast<uint32_t>(c)));
			s[n++] = c;
			fw++;
		}
		else
			s[n++] = static_cast<C>(*q);
	}
	const bool odd = k == 3; // has a separator inside a pair
	const auto r   = muu::uuid::parse(std::basic_string_view<C>{ s, n });
	CHECK(r.has_value() == !odd);
	if (r)
		for (size_t i = 0; i < 16; i++)
			CHECK(static_cast<uint8_t>(r->bytes.value[i]) == want[i]);
}
//@ {"bounds": "every choice of digits and spaces in five layouts"}
ENTRY(U02, layouts_char) { layouts<char>(); }
//@ {"bounds": "every choice of digits and spaces in five layouts"}
ENTRY(U02, layouts_char32) { layouts<char32_t>(); }

static const char* const base[] = { "01234567-89aB-cdeF-0246-8aCe13579bDf", "{01234567-89aB-cdeF-0246-8aCe13579bDf}", "0123456789abcdef02468ace13579bdf" };

// one arbitrary character in place of, or in front of, the one at any position
template <typename C>
static void edit(size_t which, bool insert, size_t lo, size_t hi)
{
	C t[64], s[64];
	size_t n = 0, m = 0;
	put(t, n, base[which]);
	const size_t pos = sym_pick("pos", lo, hi < n ? hi : n);
	const C c		 = sym<C>("c");
	// text in another byte order or with a byte order mark is C03's subject
	sym_assume(static_cast<uint32_t>(std::make_unsigned_t<C>(c)) < (sizeof(C) == 2 ? 0x100u : sizeof(C) == 4 ? 0x10000u : 0x100u) && (sizeof(C) == 1 || pos > 4 || static_cast<uint32_t>(c) < 0x80));
	for (size_t i = 0; i <= n; i++)
	{
		if (i == pos)
			s[m++] = c;
		if (i < n && (i != pos || insert))
			s[m++] = t[i];
	}
	agrees(s, m);
}
//@ {"bounds": "one arbitrary byte inserted at any position of a canonical text"}
ENTRY(U02, insert_canonical) { edit<char>(0, true, 0, 99); }
//@ {"bounds": "one arbitrary byte inserted at any position of a braced text"}
ENTRY(U02, insert_braced) { edit<char>(1, true, 0, 99); }
//@ {"bounds": "any byte of a canonical text replaced by an arbitrary one"}
ENTRY(U02, replace_canonical) { edit<char>(0, false, 0, 99); }
//@ {"bounds": "any byte of a braced text replaced by an arbitrary one"}
ENTRY(U02, replace_braced) { edit<char>(1, false, 0, 99); }
//@ {"bounds": "any byte of 32 digits replaced by an arbitrary one"}
ENTRY(U02, replace_digits) { edit<char>(2, false, 0, 99); }
//@ {"bounds": "any unit of a braced text replaced by an arbitrary one"}
ENTRY(U02, replace_char32) { edit<char32_t>(1, false, 0, 99); }
//@ {"bounds": "any unit of a braced text replaced by an arbitrary one below U+0100"}
ENTRY(U02, replace_char16) { edit<char16_t>(1, false, 0, 99); }
//@ {"bounds": "one arbitrary unit inserted anywhere in 32 digits", "tier": "thorough"}
ENTRY(U02, insert_wchar) { edit<wchar_t>(2, true, 0, 99); }
//@ {"bounds": "one arbitrary unit inserted anywhere in 32 digits", "tier": "thorough"}
ENTRY(U02, insert_char8) { edit<char8_t>(2, true, 0, 99); }

// two arbitrary bytes side by side at any position
static void insert_two(size_t which)
{
	char t[64], s[64];
	size_t n = 0, m = 0;
	put(t, n, base[which]);
	const size_t pos = sym_pick("pos", 0, n);
	for (size_t i = 0; i <= n; i++)
	{
		if (i == pos)
		{
			s[m++] = sym<char>("c");
			s[m++] = sym<char>("d");
		}
		if (i < n)
			s[m++] = t[i];
	}
	agrees(s, m);
}
//@ {"bounds": "two arbitrary bytes inserted at any position of a canonical text"}
ENTRY(U02, insert_two) { insert_two(0); }
//@ {"bounds": "two arbitrary bytes inserted at any position of a braced text", "tier": "thorough"}
ENTRY(U02, insert_two_braced) { insert_two(1); }

// arbitrary bytes before and after the digits
//@ {"bounds": "two arbitrary bytes before and two after 32 digits"}
ENTRY(U02, around)
{
	char s[64];
	size_t n = 0;
	s[n++]	 = sym<char>("a");
	s[n++]	 = sym<char>("b");
	put(s, n, base[2]);
	s[n++] = sym<char>("c");
	s[n++] = sym<char>("d");
	agrees(s, n);
}
//@ {"bounds": "every prefix and every suffix of the three base texts"}
ENTRY(U02, pieces)
{
	char s[64];
	size_t n = 0;
	put(s, n, base[sym_pick("which", 0, 2)]);
	const size_t k = sym_pick("k", 0, n);
	if (sym<bool>("prefix"))
		agrees(s, k);
	else
		agrees(s + k, n - k);
}
ENTRY(U02, no_text)
{
	CHECK(!muu::uuid::parse(std::string_view{}));
	CHECK(!muu::uuid::parse(std::u16string_view{}));
	CHECK(!muu::uuid::parse(std::u32string_view{}));
}
