//@file {"native_std": "c++20"}
// F06: evenly_distribute, gcd, lcm
#include "sym.h"
#include <muu/core.h>
#include <muu/math.h>

// per bucket, for every total and bucket count of the type
template <typename T>
static void share()
{
	const T total = sym<T>("total"), n = sym<T>("n"), i = sym<T>("i");
	sym_assume(n > 0);
	sym_assume(i < n);
	const T s = muu::evenly_distribute(total, n, i);
	const T q = static_cast<T>(total / n), r = static_cast<T>(total % n);
	CHECK(s == static_cast<T>(q + (i < r ? 1 : 0)));
}
ENTRY(F06, share) { share<uint8_t>(); share<uint16_t>(); share<uint32_t>(); share<uint64_t>(); }
// sum over all buckets
template <size_t N>
static void sum()
{
	const uint32_t total = sym_range<uint32_t>("total", 0u, 1u << 24);
	uint32_t acc		 = 0;
	uint32_t prev		 = muu::evenly_distribute(total, uint32_t{ N }, 0u);
	const uint32_t first = prev;
	for (uint32_t i = 0; i < N; i++)
	{
		const uint32_t s = muu::evenly_distribute(total, uint32_t{ N }, i);
		CHECK(s <= prev);
		CHECK(first - s <= 1u);
		prev = s;
		acc += s;
	}
	CHECK(acc == total);
}
ENTRY(F06, sum) { sum<1>(); sum<2>(); sum<3>(); sum<5>(); sum<8>(); }
//@ {"budget": 120}
ENTRY(F06, sum_sym)
{
	const uint8_t total = sym<uint8_t>("total");
	const uint8_t n		= static_cast<uint8_t>(sym_pick("n", 1, 12));
	unsigned acc		= 0;
	for (uint8_t i = 0; i < n; i++)
		acc += muu::evenly_distribute(total, n, i);
	CHECK(acc == total);
}
template <size_t N>
static uint32_t ref_gcd(const uint32_t (&v)[N], uint32_t hi) // greatest divisor by definition (0 if all are 0)
{
	uint32_t best = 0;
	for (uint32_t d = 1; d <= hi; d++)
	{
		bool all = true, any = false;
		for (auto x : v)
		{
			all = all & (x % d == 0);
			any = any | (x != 0);
		}
		best = static_cast<uint32_t>(sym_ite(all & any, d, best));
	}
	return best;
}
//@ {"budget": 200}
ENTRY(F06, gcd2)
{
	const uint8_t a = sym_range<uint8_t>("a", 0, 31), b = sym_range<uint8_t>("b", 0, 31);
	CHECK(muu::gcd(uint32_t{ a }, uint32_t{ b }) == ref_gcd<2>({ a, b }, 31));
}
//@ {"budget": 200}
ENTRY(F06, gcd3)
{
	const uint8_t a = sym_range<uint8_t>("a", 0, 8), b = sym_range<uint8_t>("b", 0, 8), c = sym_range<uint8_t>("c", 0, 8);
	CHECK(muu::gcd(uint32_t{ a }, uint32_t{ b }, uint32_t{ c }) == ref_gcd<3>({ a, b, c }, 8));
}
//@ {"budget": 200}
ENTRY(F06, gcd4)
{
	const uint8_t a = sym_range<uint8_t>("a", 0, 4), b = sym_range<uint8_t>("b", 0, 4), c = sym_range<uint8_t>("c", 0, 4), d = sym_range<uint8_t>("d", 0, 4);
	CHECK(muu::gcd(uint32_t{ a }, uint32_t{ b }, uint32_t{ c }, uint32_t{ d }) == ref_gcd<4>({ a, b, c, d }, 4));
}
//@ {"budget": 200}
ENTRY(F06, gcd_signed)
{
	const int8_t a = sym_range<int8_t>("a", -12, 12), b = sym_range<int8_t>("b", -12, 12);
	const uint32_t x = static_cast<uint32_t>(a < 0 ? -a : a), y = static_cast<uint32_t>(b < 0 ? -b : b);
	CHECK(static_cast<uint32_t>(muu::gcd(int{ a }, int{ b })) == ref_gcd<2>({ x, y }, 12));
}
//@ {"budget": 200}
ENTRY(F06, lcm)
{
	const uint32_t a = sym_range<uint8_t>("a", 0, 12), b = sym_range<uint8_t>("b", 0, 12);
	const uint32_t m = muu::lcm(a, b);
	if (a == 0 || b == 0)
		CHECK(m == 0);
	else
		CHECK(m * ref_gcd<2>({ a, b }, 12) == a * b);
}
//@ {"budget": 200}
ENTRY(F06, lcm_many)
{
	const uint32_t a = sym_range<uint8_t>("a", 1, 4), b = sym_range<uint8_t>("b", 1, 4), c = sym_range<uint8_t>("c", 1, 3), d = sym_range<uint8_t>("d", 1, 3);
	const uint32_t m3 = muu::lcm(a, b, c), m4 = muu::lcm(a, b, c, d);
	CHECK(m3 > 0 && m3 % a == 0 && m3 % b == 0 && m3 % c == 0 && m3 <= a * b * c);
	CHECK(m4 > 0 && m4 % a == 0 && m4 % b == 0 && m4 % c == 0 && m4 % d == 0 && m4 % m3 == 0);
	for (uint32_t k = 1; k < 12; k++) // least
	{
		CHECK(!(k < m3 && k % a == 0 && k % b == 0 && k % c == 0));
		CHECK(!(k < m4 && k % a == 0 && k % b == 0 && k % c == 0 && k % d == 0));
	}
}
