//@file {"native_std": "c++20", "variants": {"": [], "cpp17": ["-std=c++17"]}}
// K07: span
#include "sym.h"
#include <array>
#include <vector>
#include <muu/core.h>
#include <muu/span.h>

template <typename S, typename T>
static void is(const S& s, const T* p, size_t n) // s views exactly the n elements from p
{
	CHECK(s.size() == n);
	CHECK(s.empty() == (n == 0));
	CHECK(s.size_bytes() == n * sizeof(T));
	CHECK(s.begin() + n == s.end());
	CHECK(end(s) == s.end() && begin(s) == s.begin());
	if (n)
	{
		CHECK(static_cast<const void*>(s.data()) == p);
		CHECK(static_cast<const void*>(s.begin()) == p);
		CHECK(static_cast<const void*>(&s.front()) == p);
		CHECK(static_cast<const void*>(&s.back()) == p + (n - 1));
		CHECK(static_cast<const void*>(&*s.rbegin()) == p + (n - 1));
		CHECK(static_cast<const void*>(&*(s.rend() - 1)) == p);
		CHECK(s.rend() - s.rbegin() == static_cast<ptrdiff_t>(n));
		const size_t k = sym<size_t>("k");
		if (k < n)
			CHECK(static_cast<const void*>(&s[k]) == p + k);
	}
}
template <typename T, size_t N>
static void dynamic_()
{
	T a[N]{};
	const size_t off = sym_range<size_t>("off", 0, N - 1);
	const size_t len = sym_range<size_t>("len", 0, N);
	sym_assume(off + len <= N);
	const muu::span<T> s{ a + off, len };
	is(s, a + off, len);
	is(muu::span<const T>{ s }, a + off, len);
	is(muu::span<T>{ a + off, a + off + len }, a + off, len);
	const size_t c = sym_range<size_t>("count", 0, N);
	const size_t o = sym_range<size_t>("offset", 0, N);
	if (c <= len)
	{
		is(s.first(c), a + off, c);
		is(s.last(c), a + off + len - c, c);
	}
	if (o < len)
	{
		is(s.subspan(o), a + off + o, len - o);
		is(s.subspan(o, muu::dynamic_extent), a + off + o, len - o);
		if (c <= len - o)
			is(s.subspan(o, c), a + off + o, c);
	}
	// fixed-size parts of it
	if (len >= 2)
	{
		is(s.template first<2>(), a + off, 2);
		is(s.template last<2>(), a + off + len - 2, 2);
		is(s.template first<0>(), a + off, 0);
		is(s.template last<0>(), a + off, 0);
		is(s.template subspan<1>(), a + off + 1, len - 1);
		is(s.template subspan<1, 1>(), a + off + 1, 1);
		is(s.template subspan<0, 2>(), a + off, 2);
		is(s.template subspan<1, 0>(), a + off + 1, 0);
	}
	// byte views
	is(muu::as_bytes(s), reinterpret_cast<const std::byte*>(a + off), len * sizeof(T));
	is(muu::as_writable_bytes(s), reinterpret_cast<std::byte*>(a + off), len * sizeof(T));
	// writes go through to exactly one element
	const size_t k = sym_range<size_t>("w", 0, N - 1), q = sym_range<size_t>("q", 0, N - 1);
	if (k < len)
	{
		s[k] = T(1);
		CHECK(a[q] == (q == off + k ? T(1) : T(0)));
	}
	// assignment and copies
	muu::span<T> t;
	is(t, a, 0);
	t = s;
	is(t, a + off, len);
}
//@ {"bounds": "every offset, length, count and index within 6 elements"}
ENTRY(K07, dynamic_int) { dynamic_<int, 6>(); }
ENTRY(K07, dynamic_byte) { dynamic_<uint8_t, 7>(); }
ENTRY(K07, dynamic_u64) { dynamic_<uint64_t, 5>(); }

struct odd
{
	char c[3];
	odd() = default;
	explicit odd(int v) : c{ static_cast<char>(v), static_cast<char>(v), static_cast<char>(v) } {}
	bool operator==(const odd& o) const { return c[0] == o.c[0] && c[1] == o.c[1] && c[2] == o.c[2]; }
};
ENTRY(K07, dynamic_odd) { dynamic_<odd, 4>(); }

ENTRY(K07, fixed)
{
	int a[7]{};
	const muu::span<int, 5> s{ a + 1, size_t{ 5 } };
	is(s, a + 1, 5);
	is(muu::span<int, 5>{ a + 1, a + 6 }, a + 1, 5);
	is(muu::span<int>{ s }, a + 1, 5);
	is(muu::span<const int, 5>{ s }, a + 1, 5);
	is(muu::span<int, 5>{ muu::span<int>{ a + 1, 5 } }, a + 1, 5);
	is(muu::span<int, 7>{ a }, a, 7);
	is(muu::span<int>{ a }, a, 7);
	is(muu::span{ a }, a, 7);
	is(muu::span{ a + 2, size_t{ 3 } }, a + 2, 3);
	std::array<int, 4> r{ 1, 2, 3, 4 };
	const std::array<int, 4> cr{ 1, 2, 3, 4 };
	is(muu::span<int, 4>{ r }, r.data(), 4);
	is(muu::span<int>{ r }, r.data(), 4);
	is(muu::span{ r }, r.data(), 4);
	is(muu::span<const int, 4>{ cr }, cr.data(), 4);
	is(muu::span<const int>{ cr }, cr.data(), 4);
	is(muu::span{ cr }, cr.data(), 4);
	is(muu::span<int, 0>{}, a, 0);
	const size_t c = sym_range<size_t>("count", 0, 5);
	is(s.first(c), a + 1, c);
	is(s.last(c), a + 6 - c, c);
	const size_t o = sym_range<size_t>("offset", 0, 4);
	is(s.subspan(o), a + 1 + o, 5 - o);
	if (c <= 5 - o)
		is(s.subspan(o, c), a + 1 + o, c);
	is(s.first<0>(), a + 1, 0);
	is(s.first<3>(), a + 1, 3);
	is(s.first<5>(), a + 1, 5);
	is(s.last<0>(), a + 1, 0);
	is(s.last<3>(), a + 3, 3);
	is(s.last<5>(), a + 1, 5);
	is(s.subspan<0>(), a + 1, 5);
	is(s.subspan<4>(), a + 5, 1);
	is(s.subspan<2, 3>(), a + 3, 3);
	is(s.subspan<2, 1>(), a + 3, 1);
	is(s.subspan<2, 0>(), a + 3, 0);
	is(muu::as_bytes(s), reinterpret_cast<const std::byte*>(a + 1), 20);
	is(muu::as_writable_bytes(s), reinterpret_cast<std::byte*>(a + 1), 20);
	static_assert(decltype(muu::as_bytes(s))::extent == 20);
	std::vector<int> v(3);
	is(muu::span<int>{ v.begin(), v.end() }, v.data(), 3);
	is(muu::span<int>{ v.data(), v.size() }, v.data(), 3);
	int sum = 0;
	for (int& x : muu::span<int, 4>{ r })
		sum += x;
	CHECK(sum == 10);
}
ENTRY(K07, aligned)
{
	alignas(16) int a[8]{};
	const muu::span<int, muu::dynamic_extent, 16> s{ a, sym_range<size_t>("len", 0, 8) };
	is(s, a, s.size());
	const size_t c = sym_range<size_t>("count", 0, 8);
	if (c <= s.size())
	{
		is(s.first(c), a, c);
		is(s.last(c), a + s.size() - c, c);
	}
	if (c < s.size())
		is(s.subspan(c), a + c, s.size() - c);
	const muu::span<int, 8, 16> t{ a };
	is(t, a, 8);
	is(t.first<4>(), a, 4);
	is(t.last<3>(), a + 5, 3);
	is(t.subspan<1>(), a + 1, 7);
	is(muu::as_bytes(t), reinterpret_cast<const std::byte*>(a), 32);
}
