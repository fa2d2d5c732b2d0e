//@file {"src": ["src/string_param.cpp"], "native_std": "c++20"}
// K12: string_param
#include "utf_ref.h"
#include <string>
#include <muu/core.h>
#include <muu/strings.h>
#include <muu/string_param.h>

// code points from one of four blocks, one per UTF-8 length, the first three with whitespace in them
static constexpr block blk[4] = { { 0x20, 5 }, { 0xA0, 5 }, { 0x2008, 3 }, { 0x1F640, 5 } };
struct points
{
	uint32_t c[28];
	size_t n = 0;
	points(size_t k, bool long_)
	{
		if (long_) // beyond the small-string capacity of any of the types
			for (int i = 0; i < 24; i++)
				c[n++] = 'a';
		for (size_t i = 0; i < k; i++)
		{
			const block b = blk[sym_pick("block", 0, 3)];
			c[n++] = b.base | static_cast<uint32_t>(sym_u64raw(b.bits == 3 ? "cp3" : "cp", b.bits));
		}
	}
	// only for texts whose byte order is recognised as native (C03)
	template <typename T>
	size_t encode(T* o) const
	{
		size_t m = 0;
		for (size_t i = 0; i < n; i++)
			m += enc<T>(c[i], o + m);
		return m;
	}
	void trim()
	{
		// C06 decides that is_whitespace is right
		while (n && muu::is_whitespace(static_cast<char32_t>(c[n - 1])))
			n--;
		size_t b = 0;
		while (b < n && muu::is_whitespace(static_cast<char32_t>(c[b])))
			b++;
		for (size_t i = b; i < n; i++)
			c[i - b] = c[i];
		n -= b;
	}
};
template <typename To>
static void same(std::basic_string_view<To> got, const points& p)
{
	To want[112];
	const size_t n = p.encode(want);
	CHECK(got.length() == n);
	sym_assume(got.length() == n);
	for (size_t i = 0; i < n; i++)
		CHECK(got[i] == want[i]);
}
template <typename To>
static void reads(muu::string_param& s, const points& p) // leaves s with the same text
{
	CHECK(s.empty() == (p.n == 0));
	CHECK(static_cast<bool>(s) == (p.n != 0));
	same(std::basic_string_view<To>{ s }, p);
	CHECK(s.empty() == (p.n == 0));
	same(std::basic_string_view<To>{ s }, p); // again
}
static void reads(muu::string_param& s, const points& p, int to)
{
	switch (to)
	{
		case 0: reads<char>(s, p); break;
		case 1: reads<char8_t>(s, p); break;
		case 2: reads<char16_t>(s, p); break;
		case 3: reads<char32_t>(s, p); break;
		default: reads<wchar_t>(s, p); break;
	}
}
template <typename To>
static void takes(muu::string_param& s, const points& p)
{
	const std::basic_string<To> got = std::move(s);
	same(std::basic_string_view<To>{ got }, p);
}
static void takes(muu::string_param& s, const points& p, int to)
{
	switch (to)
	{
		case 0: takes<char>(s, p); break;
		case 1: takes<char8_t>(s, p); break;
		case 2: takes<char16_t>(s, p); break;
		case 3: takes<char32_t>(s, p); break;
		default: takes<wchar_t>(s, p); break;
	}
}
// applies one operation to the value in slot[0]
static void apply(int op, muu::string_param*& s, points& p)
{
	const auto replace = [&](muu::string_param* n)
	{
		delete s;
		s = n;
	};
	switch (op)
	{
		case 0: break;
		case 1: replace(new muu::string_param{ std::move(*s) }); break; // move-construct
		case 2:															// onto an empty one
		{
			auto n = new muu::string_param{};
			*n = std::move(*s);
			replace(n);
			break;
		}
		case 3: // onto an owning one
		{
			auto n = new muu::string_param{ std::string(30, 'x') };
			*n = std::move(*s);
			replace(n);
			break;
		}
		case 4: // onto a view
		{
			auto n = new muu::string_param{ U"view" };
			*n = std::move(*s);
			replace(n);
			break;
		}
		case 5: // onto itself
		{
			auto& r = *s;
			*s = std::move(r);
			break;
		}
		case 6: // trim
			p.trim();
			CHECK(&s->trim() == s);
			CHECK(s->empty() == (p.n == 0));
			break;
		case 7: // swap with another, and back
		{
			muu::string_param o{ std::u16string(12, u'y') };
			std::swap(o, *s);
			CHECK(std::u16string_view{ *s } == u"yyyyyyyyyyyy");
			CHECK(o.empty() == (p.n == 0));
			std::swap(o, *s);
			break;
		}
		case 8: // moved-from values are empty, and can be assigned to
		{
			muu::string_param o{ std::move(*s) };
			CHECK(s->empty() && !*s && !s->owning());
			CHECK(std::string_view{ *s }.empty());
			muu::string_param e{ std::move(*s) };
			CHECK(e.empty());
			s->trim();
			*s = muu::string_param{ "other" };
			*s = std::move(o);
			break;
		}
		default: // read it in another encoding
			reads(*s, p, op - 9);
			break;
	}
}
template <typename From>
static muu::string_param* make(const points& p, From* buf, size_t n, int how)
{
	(void)p;
	using str = std::basic_string<From>;
	muu::string_param* s;
	switch (how)
	{
		case 0: s = new muu::string_param{ std::basic_string_view<From>{ buf, n } }; break;
		case 1: s = new muu::string_param{ static_cast<const From*>(buf), n }; break;
		case 2: s = new muu::string_param{ static_cast<const From*>(buf) }; break;
		default: s = new muu::string_param{ str(buf, n) }; break;
	}
	CHECK(s->owning() == (how == 3 && n != 0));
	CHECK(s->empty() == (n == 0));
	return s;
}
template <typename From>
static void run(size_t k, int ops)
{
	points p{ k, sym_pick("long", 0, 1) != 0 };
	From* buf = new From[112];
	const size_t n = p.encode(buf);
	buf[n] = 0;
	muu::string_param* s = make(p, buf, n, sym_pick("how", 0, 3));
	const bool owning = s->owning();
	if (owning) // nothing of the source is needed any more
	{
		delete[] buf;
		buf = nullptr;
	}
	for (int i = 0; i < ops; i++)
		apply(sym_pick("op", 0, 8), s, p);
	const int to = sym_pick("to", 0, 4);
	if (sym_pick("take", 0, 1))
		takes(*s, p, to);
	else
		reads(*s, p, to);
	delete s;
	delete[] buf;
}
//@ {"bounds": "texts of 0 or 1 code point from four blocks (and the same after 24 letters), made four ways, one operation, read in every encoding", "budget": 120}
ENTRY(K12, from_char) { run<char>(sym_pick("k", 0, 1), 1); }
//@ {"bounds": "texts of 0 or 1 code point from four blocks (and the same after 24 letters), made four ways, one operation, read in every encoding", "budget": 120}
ENTRY(K12, from_char8) { run<char8_t>(sym_pick("k", 0, 1), 1); }
//@ {"bounds": "texts of 0 or 1 code point from four blocks (and the same after 24 letters), made four ways, one operation, read in every encoding", "budget": 120}
ENTRY(K12, from_char16) { run<char16_t>(sym_pick("k", 0, 1), 1); }
//@ {"bounds": "texts of 0 or 1 code point from four blocks (and the same after 24 letters), made four ways, one operation, read in every encoding", "budget": 120}
ENTRY(K12, from_char32) { run<char32_t>(sym_pick("k", 0, 1), 1); }
//@ {"bounds": "texts of 0 or 1 code point from four blocks (and the same after 24 letters), made four ways, one operation, read in every encoding", "budget": 120}
ENTRY(K12, from_wchar) { run<wchar_t>(sym_pick("k", 0, 1), 1); }

// two operations or conversions in a row
template <typename From>
static void two(size_t k)
{
	points p{ k, sym_pick("long", 0, 1) != 0 };
	From buf[112];
	const size_t n = p.encode(buf);
	auto s = sym_pick("own", 0, 1) ? new muu::string_param{ std::basic_string<From>(buf, n) } : new muu::string_param{ std::basic_string_view<From>{ buf, n } };
	apply(sym_pick("op1", 0, 13), s, p);
	apply(sym_pick("op2", 0, 13), s, p);
	same(std::u32string_view{ *s }, p);
	delete s;
}
//@ {"budget": 120}
ENTRY(K12, two_char) { two<char>(1); }
//@ {"budget": 120}
ENTRY(K12, two_char32) { two<char32_t>(1); }
//@ {"tier": "thorough", "budget": 600}
ENTRY(K12, two_char16) { two<char16_t>(2); }
//@ {"tier": "thorough", "budget": 600}
ENTRY(K12, two_char8) { two<char8_t>(2); }
//@ {"tier": "thorough", "budget": 600}
ENTRY(K12, two_wchar) { two<wchar_t>(2); }

// text that vanishes or changes when converted: any units at all
template <typename From>
static void any(size_t n)
{
	From* buf = new From[n + 1];
	sym_bytes(buf, n * sizeof(From), "units");
	buf[n] = 0;
	muu::string_param s{ std::basic_string_view<From>{ buf, n } };
	const int to = sym_pick("to", 0, 3);
	const auto read = [&](auto c)
	{
		using C = decltype(c);
		const std::basic_string<C> want{ muu::transcode<C>(std::basic_string_view<From>{ buf, n }) };
		const std::basic_string_view<C> got{ s };
		CHECK(got.length() == want.length());
		CHECK(got == want);
		CHECK(s.empty() == want.empty());
		const std::basic_string_view<C> again{ s };
		CHECK(again == want);
	};
	switch (to)
	{
		case 0: read(char{}); break;
		case 1: read(char16_t{}); break;
		case 2: read(char32_t{}); break;
		default: read(wchar_t{}); break;
	}
	muu::string_param t{ std::move(s) };
	t.trim();
	delete[] buf;
}
//@ {"bounds": "every sequence of 1 or 2 units"}
//@ {"bounds": "every unit"}
ENTRY(K12, any_char16) { any<char16_t>(1); }
//@ {"tier": "thorough", "budget": 300, "bounds": "every pair of units"}
ENTRY(K12, any_char16x2) { any<char16_t>(2); }
ENTRY(K12, any_char32) { any<char32_t>(1); }
ENTRY(K12, any_char8) { any<char>(sym_pick("n", 1, 3)); }

ENTRY(K12, nothing)
{
	const char* none = nullptr;
	muu::string_param a, b{ none }, c{ "" }, d{ std::string{} }, e{ std::u16string_view{} }, f{ none, 5 }, g{ U"", 0 };
	for (auto p : { &a, &b, &c, &d, &e, &f, &g })
	{
		CHECK(p->empty() && !*p && !p->owning());
		CHECK(std::string_view{ *p }.empty());
		CHECK(std::u32string_view{ *p }.empty());
		p->trim();
		CHECK(p->empty());
		muu::string_param m{ std::move(*p) };
		CHECK(m.empty() && p->empty());
		*p = std::move(m);
		const std::wstring w = std::move(*p);
		CHECK(w.empty());
	}
	a = std::move(b);
	CHECK(a.empty());
	struct viewable
	{
		operator std::u16string_view() const { return u"xy"; }
	};
	muu::string_param v{ viewable{} };
	CHECK(std::string_view{ v } == "xy");
}
