//@file {"native_std": "c++20", "variants": {"": [], "cpp17": ["-std=c++17"]}}
// K10: function_view
#include "sym.h"
#include <utility>
#include <muu/core.h>
#include <muu/function_view.h>

static int calls;
static int sub_(int a, int b) noexcept
{
	calls++;
	return static_cast<int>(static_cast<unsigned>(a) - static_cast<unsigned>(b));
}
static int xor_(int a, int b)
{
	calls++;
	return a ^ b;
}
struct stateful
{
	int k;
	int n = 0;
	int operator()(int a, int b)
	{
		calls++;
		n++;
		return static_cast<int>(static_cast<unsigned>(a) * 3u + static_cast<unsigned>(b) + static_cast<unsigned>(k));
	}
};
struct stateless
{
	int operator()(int a, int b) const noexcept
	{
		calls++;
		return a & ~b;
	}
};
using view = muu::function_view<int(int, int)>;
static int want(int which, int a, int b, int k)
{
	switch (which)
	{
		case 0: return static_cast<int>(static_cast<unsigned>(a) - static_cast<unsigned>(b));
		case 1: return a ^ b;
		case 2: return static_cast<int>(static_cast<unsigned>(a) * 3u + static_cast<unsigned>(b) + static_cast<unsigned>(k));
		case 3: return a & ~b;
		case 4: return static_cast<int>(static_cast<unsigned>(a) + static_cast<unsigned>(k));
		default: return static_cast<int>(static_cast<unsigned>(b) + 5u);
	}
}
// every pair of bindings, through copies, moves and re-bindings of every kind
//@ {"bounds": "7 kinds of callable (function, pointer, stateful, stateless functor, capturing and captureless lambda, empty), every argument"}
ENTRY(K10, bind)
{
	const int a = sym<int>("a"), b = sym<int>("b"), k = sym<int>("k"), k2 = sym<int>("k2");
	stateful s{ k };
	stateful s2{ k2 };
	auto cap = [k](int x, int) { calls++; return static_cast<int>(static_cast<unsigned>(x) + static_cast<unsigned>(k)); };
	auto none = [](int, int y) { calls++; return static_cast<int>(static_cast<unsigned>(y) + 5u); };
	stateless sl;
	int (*fp)(int, int) = xor_;
	const auto make = [&](int w) -> view
	{
		switch (w)
		{
			case 0: return view{ sub_ };
			case 1: return view{ fp };
			case 2: return view{ s };
			case 3: return view{ sl };
			case 4: return view{ cap };
			case 5: return view{ none };
			default: return view{};
		}
	};
	const auto is = [&](const view& v, int w)
	{
		CHECK(static_cast<bool>(v) == (w != 6));
		if (w == 6)
			return;
		const int c = calls;
		CHECK(v(a, b) == want(w, a, b, k));
		CHECK(calls == c + 1);
	};
	const int w1 = sym_pick("w1", 0, 6), w2 = sym_pick("w2", 0, 6);
	view v1 = make(w1);
	const view v2 = make(w2);
	is(v1, w1);
	is(v2, w2);
	view c1{ v1 }; // from a non-const view
	view c2{ v2 }; // from a const view
	view c3 = std::move(v1);
	view c4 = v1;
	is(c1, w1);
	is(c2, w2);
	is(c3, w1);
	is(c4, w1);
	v1 = v2; // re-bind the source: the copies stay
	is(v1, w2);
	is(c1, w1);
	is(c3, w1);
	is(c4, w1);
	c2 = c1;
	is(c2, w1);
	c2 = make(w2);
	is(c2, w2);
	std::swap(c1, c2);
	is(c1, w2);
	is(c2, w1);
	c1 = s2;
	if (w1 != 2 && w2 != 2)
		CHECK(s.n == 0);
	CHECK(c1(a, b) == want(2, a, b, k2));
	CHECK(s2.n == 1); // the very object, not a copy of it
	view* heap = new view{ c2 };
	view c5{ *heap };
	delete heap;
	is(c5, w1);
}
struct big
{
	uint64_t v[3];
};
struct mover
{
	int64_t v;
	explicit mover(int64_t x) : v{ x } {}
	mover(mover&& o) noexcept : v{ o.v } { o.v = -1; }
	mover(const mover&) = delete;
};
// arguments and results of every kind are forwarded
ENTRY(K10, forwarding)
{
	big x;
	sym_bytes(&x, sizeof x, "x");
	const uint8_t c = sym<uint8_t>("c");
	const double d = sym_range<int>("d", -1000, 1000);
	const int64_t m = sym_range<int64_t>("m", 0, 1000);
	int target = 5;
	// by value, by reference, by const reference, by rvalue
	auto f1 = [](big y, uint8_t i, double e) noexcept { return static_cast<double>(y.v[1] % 7) + i + e; };
	muu::function_view<double(big, uint8_t, double) noexcept> v1{ f1 };
	CHECK(v1(x, c, d) == static_cast<double>(x.v[1] % 7) + c + d);
	auto f2 = [](int& r, const big& y) -> const uint64_t& { r = 9; return y.v[2]; };
	muu::function_view<const uint64_t&(int&, const big&)> v2{ f2 };
	CHECK(&v2(target, x) == &x.v[2]);
	CHECK(target == 9);
	auto f3 = [&](mover&& y) { mover z{ std::move(y) }; return z.v; };
	muu::function_view<int64_t(mover&&)> v3{ f3 };
	mover mv{ m };
	CHECK(v3(std::move(mv)) == m);
	CHECK(mv.v == -1);
	auto f4 = [&](mover y) { return mover{ y.v + 1 }; };
	muu::function_view<mover(mover)> v4{ f4 };
	CHECK(v4(mover{ m }).v == m + 1);
	auto f5 = [&]() { target++; };
	muu::function_view<void()> v5{ f5 };
	v5();
	CHECK(target == 10);
	muu::function_view<const uint64_t&(int&, const big&)> v7{ v2 };
	target = 0;
	CHECK(&v7(target, x) == &x.v[2]);
	CHECK(target == 9);
	// deduced
	auto v8 = muu::function_view{ sub_ };
	CHECK(v8(c, 3) == c - 3);
	auto v9 = muu::function_view{ f5 };
	v9();
	CHECK(target == 10);
	auto v10 = muu::function_view{ v9 };
	v9 = f5;
	v10();
	CHECK(target == 11);
}
