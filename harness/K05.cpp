//@file {"native_std": "c++20", "variants": {"cpp20": [], "cpp17": ["-std=c++17"], "ce": ["-DVERIF_CONSTEVAL", "-DMUU_HAS_IF_CONSTEVAL=0"]}}
// K05: fixed_string
#include "sym.h"
#include <string_view>
#include <muu/core.h>
#include <muu/fixed_string.h>

template <typename C, size_t N>
struct text // a plain character sequence and the fixed_string made from it
{
	C c[N + 1];
	text(const char* name)
	{
		sym_bytes(c, sizeof(C) * N, name);
		c[N] = 0;
	}
	muu::fixed_string<C, N> fs() const
	{
		return muu::fixed_string<C, N>{ c };
	}
	std::basic_string_view<C> sv() const
	{
		return { c, N };
	}
};
template <typename C, size_t N>
static void is(const muu::fixed_string<C, N>& f, const C* p) // f holds exactly the N characters from p
{
	bool ok = f.size() == N && f.length() == N && f.empty() == (N == 0) && static_cast<bool>(f) == (N != 0);
	ok &= f.c_str()[N] == C{};
	for (size_t i = 0; i < N; i++)
		ok &= f.data()[i] == p[i];
	CHECK(ok);
	CHECK(f.begin() + N == f.end() && f.begin() == f.data() && f.view().data() == f.data() && f.view().size() == N);
}
static int sgn(int v)
{
	return (v > 0) - (v < 0);
}
// the order of the sequences, characters compared the way std::char_traits does
template <typename C>
static int order(const C* a, size_t n, const C* b, size_t m)
{
	int r = (n > m) - (n < m);
	using U = std::conditional_t<sizeof(C) == 1, unsigned char, C>;
	for (size_t i = n < m ? n : m; i-- > 0;)
		r = sym_ite(static_cast<U>(a[i]) < static_cast<U>(b[i]), -1, sym_ite(static_cast<U>(a[i]) > static_cast<U>(b[i]), 1, r));
	return r;
}
template <typename C, size_t N, size_t M>
static void compare_()
{
	const text<C, N> a{ "a" };
	const text<C, M> b{ "b" };
	const auto x = a.fs();
	const auto y = b.fs();
	const int o = order(a.c, N, b.c, M);
	CHECK((x == y) == (o == 0));
	CHECK((x != y) == (o != 0));
	CHECK((x < y) == (o < 0));
	CHECK((x <= y) == (o <= 0));
	CHECK((x > y) == (o > 0));
	CHECK((x >= y) == (o >= 0));
	CHECK(sgn(x.compare(x, y)) == o);
	CHECK(sgn(x.compare(y)) == o);
	CHECK((y < x) == (o > 0));
	CHECK((y == x) == (o == 0));
	CHECK(x == x);
	CHECK(!(x < x));
	CHECK(x <= x);
	CHECK(!(x > x));
	CHECK(x.compare(x) == 0);
}
//@ {"budget": 60}
ENTRY(K05, compare_char_same) { compare_<char, 3, 3>(); }
ENTRY(K05, compare_char_len) { compare_<char, 2, 4>(); }
ENTRY(K05, compare_char_len2) { compare_<char, 4, 1>(); compare_<char, 0, 2>(); compare_<char, 0, 0>(); }
ENTRY(K05, compare_char32) { compare_<char32_t, 3, 3>(); compare_<char32_t, 3, 2>(); }
ENTRY(K05, compare_char16) { compare_<char16_t, 2, 2>(); compare_<char16_t, 1, 2>(); }
ENTRY(K05, compare_wchar) { compare_<wchar_t, 2, 2>(); }

template <typename C>
static void ops()
{
	const text<C, 3> a{ "a" };
	const text<C, 5> b{ "b" };
	const auto x = a.fs();
	const auto y = b.fs();
	is(x, a.c);
	is(y, b.c);
	C cat[8];
	for (int i = 0; i < 3; i++) cat[i] = a.c[i];
	for (int i = 0; i < 5; i++) cat[3 + i] = b.c[i];
	is(x + y, cat);
	const C ch = sym<C>("ch");
	C app[4] = { a.c[0], a.c[1], a.c[2], ch };
	is(x + ch, app);
	C pre[4] = { ch, a.c[0], a.c[1], a.c[2] };
	is(ch + x, pre);
	const muu::fixed_string<C, 0> none{ a.c };
	is(none, a.c);
	is(none + x, a.c);
	is(x + none, a.c);
	is(none + none, a.c);
	C one[1] = { ch };
	is(none + ch, one);
	is(ch + none, one);
	// lengthening and truncating
	C five[5] = { a.c[0], a.c[1], a.c[2], C{}, C{} };
	is(muu::fixed_string<C, 5>{ x }, five);
	is(muu::fixed_string<C, 2>{ x }, a.c);
	is(muu::fixed_string<C, 0>{ x }, a.c);
	is(muu::fixed_string<C, 5>{ a.c }, five);
	is(muu::fixed_string<C, 2>{ a.c }, a.c);
	is(muu::fixed_string<C, 3>{ b.c, muu::index_tag<3>{} }, b.c);
	is(muu::fixed_string<C, 2>{ b.c + 1, muu::index_tag<4>{} }, b.c + 1);
	C fill[3] = { ch, ch, ch };
	is(muu::fixed_string<C, 3>{ ch }, fill);
	// index and iterators
	const size_t i = sym_range<size_t>("i", 0, 4);
	CHECK(y[i] == b.c[i]);
	CHECK(y.begin()[i] == b.c[i]);
	CHECK(*(y.rbegin() + static_cast<ptrdiff_t>(i)) == b.c[4 - i]);
	CHECK(y.front() == b.c[0]);
	CHECK(y.back() == b.c[4]);
	CHECK(y.template get<0>() == b.c[0]);
	CHECK(y.template get<4>() == b.c[4]);
	auto z = y;
	z[i] = ch;
	is(y, b.c); // copies are independent
	const size_t k = sym_range<size_t>("k", 0, 4);
	CHECK(z[k] == (k == i ? ch : b.c[k]));
	CHECK(z.c_str()[5] == C{});
	z = y;
	is(z, b.c);
}
ENTRY(K05, ops_char) { ops<char>(); }
ENTRY(K05, ops_char16) { ops<char16_t>(); }
ENTRY(K05, ops_char32) { ops<char32_t>(); }

template <auto Start, size_t Len, typename F, typename C>
static void sub1(const F& x, const C* c, long n)
{
	long s = static_cast<long>(Start);
	if (s < 0)
		s += n;
	if (s < 0)
		s = 0;
	if (s > n)
		s = n;
	const long e = static_cast<size_t>(n - s) < Len ? n : s + static_cast<long>(Len);
	const auto r = x.template substr<Start, Len>();
	CHECK(r.size() == static_cast<size_t>(e - s));
	is(r, c + s);
}
template <auto Start, auto End, typename F, typename C>
static void slice1(const F& x, const C* c, long n)
{
	const auto norm = [n](long s) { if (s < 0) s += n; return s < 0 ? 0 : s > n ? n : s; };
	const long s = norm(Start);
	const long e = norm(End);
	const auto r = x.template slice<Start, End>();
	CHECK(r.size() == static_cast<size_t>(e > s ? e - s : 0));
	is(r, c + s);
}
template <long S, typename F, typename C>
static void subs(const F& x, const C* c)
{
	sub1<S, 0>(x, c, 4);
	sub1<S, 1>(x, c, 4);
	sub1<S, 2>(x, c, 4);
	sub1<S, 3>(x, c, 4);
	sub1<S, 4>(x, c, 4);
	sub1<S, 9>(x, c, 4);
	sub1<S, static_cast<size_t>(-1)>(x, c, 4);
	slice1<S, -6L>(x, c, 4);
	slice1<S, -4L>(x, c, 4);
	slice1<S, -3L>(x, c, 4);
	slice1<S, -2L>(x, c, 4);
	slice1<S, -1L>(x, c, 4);
	slice1<S, 0L>(x, c, 4);
	slice1<S, 1L>(x, c, 4);
	slice1<S, 2L>(x, c, 4);
	slice1<S, 3L>(x, c, 4);
	slice1<S, 4L>(x, c, 4);
	slice1<S, 7L>(x, c, 4);
}
//@ {"bounds": "every start in -6..6 and -2^63, every length 0..4, 9 and unlimited, every end in -6..7, of every text of 4 characters"}
ENTRY(K05, substrings)
{
	const text<char, 4> a{ "a" };
	const auto x = a.fs();
	subs<-6>(x, a.c);
	subs<-5>(x, a.c);
	subs<-4>(x, a.c);
	subs<-3>(x, a.c);
	subs<-2>(x, a.c);
	subs<-1>(x, a.c);
	subs<0>(x, a.c);
	subs<1>(x, a.c);
	subs<2>(x, a.c);
	subs<3>(x, a.c);
	subs<4>(x, a.c);
	subs<5>(x, a.c);
	subs<6>(x, a.c);
	sub1<INT64_MIN, 2>(x, a.c, 4);
	slice1<1L, INT64_MAX>(x, a.c, 4);
	is(x.template slice<1>(), a.c + 1);
	is(x.template substr<2>(), a.c + 2);
	is(x.template substr<2u>(), a.c + 2);
	is(x.template slice<static_cast<signed char>(-3), static_cast<short>(-1)>(), a.c + 1);
}
// from a string_view of any length
ENTRY(K05, from_view)
{
	char buf[6];
	sym_bytes(buf, 6, "buf");
	const size_t n = sym_range<size_t>("n", 0, 6);
	const muu::fixed_string<char, 4> f{ std::string_view{ buf, n } };
	for (size_t i = 0; i < 4; i++)
		CHECK(f.data()[i] == (i < n ? buf[i] : '\0'));
	CHECK(f.data()[4] == 0);
	const muu::fixed_string<char, 0> e{ std::string_view{ buf, n } };
	CHECK(e.size() == 0 && e.c_str()[0] == 0);
}
