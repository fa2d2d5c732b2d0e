//@file {"native_std": "c++20"}
// K01: integral_range
#include "sym.h"
#include <limits>
#include <iterator>
#include <muu/core.h>
#include <muu/integral_range.h>

template <typename T>
using range = muu::integral_range<T>;

template <typename T>
static void queries() // every start <= end of the type
{
	const T s = sym<T>("s"), e = sym<T>("e"), v = sym<T>("v");
	sym_assume(s <= e);
	const range<T> r{ s, e };
	const __int128 S = s, E = e, V = v;
	CHECK(static_cast<unsigned __int128>(r.size()) == static_cast<unsigned __int128>(E - S));
	CHECK(r.empty() == (S == E));
	CHECK(static_cast<bool>(r) == (S < E));
	CHECK(r.contains(v) == ((S <= V) & (V < E)));
	CHECK(r.first() == s);
	if (s < e)
		CHECK(static_cast<__int128>(r.last()) == E - 1);
	CHECK(*r.begin() == s);
	CHECK(*r.end() == e);
	CHECK((r.begin() == r.end()) == (s == e));
	// from zero
	if (e >= 0)
	{
		const range<T> z{ e };
		CHECK(z.s == 0 && z.e == e);
	}
}
ENTRY(K01, queries8) { queries<int8_t>(); queries<uint8_t>(); }
ENTRY(K01, queries16) { queries<int16_t>(); queries<uint16_t>(); }
ENTRY(K01, queries32) { queries<int32_t>(); queries<uint32_t>(); }
ENTRY(K01, queries64) { queries<int64_t>(); queries<uint64_t>(); }

template <typename T>
static void pairs() // non-empty ranges
{
	const T s = sym<T>("s"), e = sym<T>("e"), t = sym<T>("t"), f = sym<T>("f"), x = sym<T>("x");
	sym_assume(s < e);
	sym_assume(t < f);
	const range<T> a{ s, e }, b{ t, f };
	const bool ina = a.contains(x), inb = b.contains(x);
	// a contains b <=> every x in b is in a
	const T lb = b.last();
	CHECK(a.contains(b) == (a.contains(t) & a.contains(lb)));
	if (a.contains(b) && inb)
		CHECK(ina);
	// overlap <=> one of the starts is in the other
	CHECK(a.intersects(b) == (a.contains(t) | b.contains(s)));
	CHECK(a.intersects(b) == b.intersects(a));
	if (ina && inb)
		CHECK(a.intersects(b));
	// adjacency: touching without overlap
	CHECK(a.adjacent(b) == ((e == t) | (f == s)));
	CHECK(a.adjacent(b) == b.adjacent(a));
	CHECK(!(a.adjacent(b) & a.intersects(b)));
	CHECK(a.intersects_or_adjacent(b) == (a.intersects(b) | a.adjacent(b)));
	// union: the smallest range covering both
	const range<T> u = a.union_with(b);
	CHECK(u.contains(a) & u.contains(b));
	CHECK((u.s == s) | (u.s == t));
	CHECK((u.e == e) | (u.e == f));
	if (a.intersects_or_adjacent(b))
		CHECK(u.contains(x) == (ina | inb));
	CHECK((a == b) == ((s == t) & (e == f)));
	CHECK((a != b) == !(a == b));
	if (a == b)
		CHECK(ina == inb);
}
ENTRY(K01, pairs)
{
	pairs<int8_t>();
	pairs<uint8_t>();
	pairs<int32_t>();
	pairs<uint64_t>();
	pairs<int64_t>();
}
template <typename T, size_t N>
static void iterate()
{
	const T s	  = sym<T>("s");
	const size_t n = sym_pick("n", 0, N);
	sym_assume(static_cast<__int128>(s) + static_cast<__int128>(n) <= static_cast<__int128>(std::numeric_limits<T>::max()));
	const range<T> r{ s, static_cast<T>(s + static_cast<T>(n)) };
	CHECK(r.size() == n);
	size_t i = 0;
	for (T x : r)
	{
		CHECK(x == static_cast<T>(s + static_cast<T>(i)));
		CHECK(r.contains(x));
		i++;
		if (i > N)
			break;
	}
	CHECK(i == n);
	// post-increment and backwards
	i = 0;
	for (auto it = begin(r); it != end(r) && i <= N;)
	{
		CHECK(*it == static_cast<T>(s + static_cast<T>(i)));
		auto old = it++;
		CHECK(*old == static_cast<T>(s + static_cast<T>(i)));
		CHECK(it - old == 1);
		i++;
	}
	CHECK(i == n);
	for (auto it = r.end(); it != r.begin() && i > 0;)
	{
		i--;
		if (i & 1)
			--it;
		else
			it--;
		CHECK(*it == static_cast<T>(s + static_cast<T>(i)));
	}
	CHECK(i == 0);
	CHECK(r.end() - r.begin() == static_cast<ptrdiff_t>(n));
	CHECK(r.begin() - r.end() == -static_cast<ptrdiff_t>(n));
}
ENTRY(K01, iterate_i8) { iterate<int8_t, 6>(); }
ENTRY(K01, iterate_u8) { iterate<uint8_t, 6>(); }
ENTRY(K01, iterate_i32) { iterate<int32_t, 6>(); }
ENTRY(K01, iterate_u64) { iterate<uint64_t, 6>(); }
ENTRY(K01, iterate_i64) { iterate<int64_t, 6>(); }

template <typename T>
static void jumps()
{
	const T s		 = sym<T>("s");
	const int32_t off = sym<int32_t>("off");
	const __int128 to = static_cast<__int128>(s) + off;
	sym_assume(to >= std::numeric_limits<T>::min() && to <= std::numeric_limits<T>::max());
	auto it = range<T>{ s, s }.begin();
	const auto base = it;
	it += static_cast<typename decltype(it)::difference_type>(off);
	CHECK(static_cast<__int128>(*it) == to);
	CHECK(it - base == off);
	it -= static_cast<typename decltype(it)::difference_type>(off);
	CHECK(it == base);
	if (off >= 0)
	{
		it += static_cast<typename range<T>::size_type>(off);
		CHECK(static_cast<__int128>(*it) == to);
		it -= static_cast<typename range<T>::size_type>(off);
		CHECK(*it == s);
	}
}
ENTRY(K01, jumps) { jumps<int8_t>(); jumps<uint8_t>(); jumps<int32_t>(); jumps<uint32_t>(); jumps<int64_t>(); jumps<uint64_t>(); }

ENTRY(K01, pointers)
{
	static int data[8];
	const size_t a = sym_range<size_t>("a", 0, 8), b = sym_range<size_t>("b", 0, 8), c = sym_range<size_t>("c", 0, 7);
	sym_assume(a <= b);
	const muu::integral_range r{ data + a, data + b };
	CHECK(r.size() == b - a);
	CHECK(r.empty() == (a == b));
	CHECK(r.contains(data + c) == (a <= c && c < b));
	if (a < b)
		CHECK(r.last() == data + (b - 1));
	size_t n = 0;
	for (int* p : r)
	{
		CHECK(p == data + a + n);
		n++;
	}
	CHECK(n == b - a);
}
ENTRY(K01, deduction)
{
	const uint8_t a = sym<uint8_t>("a");
	const int32_t b = sym<int32_t>("b");
	sym_assume(b >= a);
	const auto r = muu::integral_range(a, b);
	CHECK(r.s == a && r.e == b);
	const auto q = muu::index_range(a);
	CHECK(q.size() == a);
}
