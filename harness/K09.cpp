//@file {"native_std": "c++20"}
// K09: compressed_pair, strong_typedef
#include "sym.h"
#include <utility>
#include <muu/core.h>
#include <muu/compressed_pair.h>
#include <muu/strong_typedef.h>

struct empty_a
{
	constexpr int id() const { return 11; }
};
struct empty_b
{
	empty_b() = default;
	empty_b(int) {}
	constexpr int id() const { return 22; }
};
struct final_e final
{
	constexpr int id() const { return 33; }
};
static int copies, moves;
struct counted
{
	int64_t v;
	counted(int64_t x = 0) : v{ x } {}
	counted(const counted& o) : v{ o.v } { copies++; }
	counted(counted&& o) noexcept : v{ o.v } { o.v = -1; moves++; }
	counted& operator=(const counted& o) { v = o.v; copies++; return *this; }
	counted& operator=(counted&& o) noexcept { v = o.v; o.v = -1; moves++; return *this; }
};
template <typename A, typename B>
static void both()
{
	using P = muu::compressed_pair<A, B>;
	const A a = sym<A>("a"), c = sym<A>("c");
	const B b = sym<B>("b"), d = sym<B>("d");
	P p{ a, b }, q{ c, d };
	CHECK(p.first() == a && p.second() == b);
	CHECK(p.template get<0>() == a && p.template get<1>() == b);
	CHECK(std::as_const(p).first() == a && std::as_const(p).second() == b);
	CHECK(std::as_const(p).template get<0>() == a && std::as_const(p).template get<1>() == b);
	p.swap(q);
	CHECK(p.first() == c && p.second() == d && q.first() == a && q.second() == b);
	swap(p, q);
	CHECK(p.first() == a && p.second() == b && q.first() == c && q.second() == d);
	p.first() = c;
	CHECK(p.first() == c && p.second() == b);
	p.second() = d;
	CHECK(p.first() == c && p.second() == d);
	P r = p;
	r.template get<0>() = a;
	CHECK(r.first() == a && r.second() == d && p.first() == c);
	r = q;
	CHECK(r.first() == c && r.second() == d);
	auto [x, y] = r;
	CHECK(x == c && y == d);
	P m = std::move(r);
	CHECK(m.first() == c && m.second() == d);
	CHECK(std::move(m).first() == c);
	CHECK(static_cast<void*>(&m.first()) != static_cast<void*>(&m.second()));
}
ENTRY(K09, pair_values)
{
	both<int, int>();
	both<uint8_t, uint64_t>();
	both<int64_t, char>();
}
template <typename E>
static void with_empty()
{
	const int64_t v = sym<int64_t>("v"), w = sym<int64_t>("w");
	muu::compressed_pair<E, int64_t> p{ E{}, v }, p2{ E{}, w };
	CHECK(p.second() == v && p.first().id() == E{}.id());
	p.swap(p2);
	CHECK(p.second() == w && p2.second() == v);
	p.second() = v;
	CHECK(p.second() == v);
	p.first() = E{}; // does not touch the other value
	CHECK(p.second() == v);
	CHECK(p.template get<1>() == v && p.template get<0>().id() == E{}.id());
	muu::compressed_pair<int64_t, E> q{ v, E{} }, q2{ w, E{} };
	CHECK(q.first() == v && q.second().id() == E{}.id());
	swap(q, q2);
	CHECK(q.first() == w && q2.first() == v);
	q.first() = v;
	CHECK(q.first() == v);
	q.second() = E{};
	CHECK(q.first() == v);
	CHECK(q.template get<0>() == v && q.template get<1>().id() == E{}.id());
	auto r = q;
	r.first() = w;
	CHECK(q.first() == v && r.first() == w);
	r = q;
	CHECK(r.first() == v);
}
ENTRY(K09, pair_empty)
{
	with_empty<empty_a>();
	with_empty<empty_b>();
	with_empty<final_e>();
	muu::compressed_pair<empty_a, empty_b> e{ empty_a{}, 7 };
	CHECK(e.first().id() == 11 && e.second().id() == 22);
	muu::compressed_pair<empty_a, empty_b> f{};
	f = e;
	e.swap(f);
	CHECK(std::as_const(e).get<0>().id() == 11 && std::as_const(e).get<1>().id() == 22);
	static_assert(sizeof(muu::compressed_pair<empty_a, int64_t>) == sizeof(int64_t));
	static_assert(sizeof(muu::compressed_pair<int64_t, empty_b>) == sizeof(int64_t));
}
ENTRY(K09, pair_nontrivial)
{
	const int64_t v = sym<int64_t>("v"), w = sym<int64_t>("w");
	sym_assume(v != -1 && w != -1);
	counted cv{ v }, cw{ w };
	muu::compressed_pair<counted, counted> p{ cv, std::move(cw) };
	CHECK(p.first().v == v && p.second().v == w && cv.v == v && cw.v == -1);
	CHECK(copies == 1 && moves == 1);
	muu::compressed_pair<counted, counted> q = std::move(p);
	CHECK(q.first().v == v && q.second().v == w && p.first().v == -1 && p.second().v == -1);
	p = q;
	CHECK(p.first().v == v && p.second().v == w && q.first().v == v);
	counted taken = std::move(q).get<1>();
	CHECK(taken.v == w && q.second().v == -1 && q.first().v == v);
	counted t2 = std::move(q).first();
	CHECK(t2.v == v && q.first().v == -1);
	muu::compressed_pair<empty_a, counted> s{ empty_a{}, std::move(t2) };
	CHECK(s.second().v == v && t2.v == -1);
	muu::compressed_pair<counted, empty_b> r{ v, 3 };
	CHECK(r.first().v == v);
}

// strong typedefs -----------------------------------------------------------------------------------------------------
template <typename T>
using st = muu::strong_typedef<T,
							   struct tag_,
							   muu::strong_typedef_traits::comparable,
							   muu::strong_typedef_traits::boolean,
							   muu::strong_typedef_traits::addable,
							   muu::strong_typedef_traits::subtractable,
							   muu::strong_typedef_traits::incrementable,
							   muu::strong_typedef_traits::decrementable,
							   muu::strong_typedef_traits::pointer_arithmetic>;
template <typename T>
static bool same(T a, T b) // same value, any NaN being the same
{
	return (a == b) | ((a != a) & (b != b));
}
template <typename T>
static void strong()
{
	const T a = sym<T>("a"), b = sym<T>("b");
	const st<T> x{ a }, y{ b };
	CHECK(same(x.value, a));
	CHECK((x == y) == (a == b));
	CHECK((x != y) == (a != b));
	CHECK((x < y) == (a < b));
	CHECK((x <= y) == (a <= b));
	CHECK((x > y) == (a > b));
	CHECK((x >= y) == (a >= b));
	CHECK(static_cast<bool>(x) == static_cast<bool>(a));
	CHECK((!x) == !a);
	CHECK(same(static_cast<const T&>(x), a));
	CHECK(same((+x).value, +a));
	st<T> z = x;
	static_cast<T&>(z) = b;
	CHECK(same(z.value, b) & same(x.value, a));
	z = x;
	CHECK(same(z.value, a));
	z = std::move(z);
	if constexpr (std::is_signed_v<T> && std::is_integral_v<T>)
	{
		// where the underlying operation does not overflow
		T r;
		if (!__builtin_add_overflow(a, b, &r))
			CHECK((x + y).value == r);
		if (!__builtin_sub_overflow(a, b, &r))
			CHECK((x - y).value == r);
		if (!__builtin_sub_overflow(T{}, a, &r))
			CHECK((-x).value == r);
		if (!__builtin_add_overflow(a, T{ 1 }, &r))
		{
			st<T> i{ a };
			CHECK((i++).value == a);
			CHECK(i.value == r);
			st<T> j{ a };
			st<T>& k = ++j;
			CHECK(&k == &j && j.value == r);
		}
		if (!__builtin_sub_overflow(a, T{ 1 }, &r))
		{
			st<T> i{ a };
			CHECK((i--).value == a);
			CHECK(i.value == r);
			st<T> j{ a };
			st<T>& k = --j;
			CHECK(&k == &j && j.value == r);
		}
	}
	else
	{
		CHECK(same<T>((x + y).value, a + b));
		CHECK(same<T>((x - y).value, a - b));
		CHECK(same<T>((-x).value, -a));
		st<T> i{ a };
		CHECK(same((i++).value, a));
		CHECK(same<T>(i.value, a + 1));
		CHECK(same<T>((++i).value, static_cast<T>(a + 1) + 1));
		st<T> j{ a };
		CHECK(same((j--).value, a));
		CHECK(same<T>(j.value, a - 1));
		CHECK(same<T>((--j).value, static_cast<T>(a - 1) - 1));
	}
}
ENTRY(K09, strong_int) { strong<int>(); }
ENTRY(K09, strong_unsigned) { strong<unsigned>(); }
ENTRY(K09, strong_i64) { strong<int64_t>(); }
ENTRY(K09, strong_u64) { strong<uint64_t>(); }
ENTRY(K09, strong_float) { strong<float>(); }
ENTRY(K09, strong_double) { strong<double>(); }
ENTRY(K09, strong_pointer)
{
	int a[8]{};
	const int i = sym_range<int>("i", 0, 4);
	const st<int> x{ i };
	CHECK(a + x == a + i);
	CHECK(x + a == a + i);
	CHECK((a + 4) - x == a + 4 - i);
	using ptr = muu::strong_typedef<int*, struct ptag, muu::strong_typedef_traits::comparable, muu::strong_typedef_traits::boolean, muu::strong_typedef_traits::incrementable, muu::strong_typedef_traits::decrementable>;
	ptr p{ a + i }, q{ a + 2 };
	CHECK((p == q) == (i == 2));
	CHECK((p < q) == (i < 2));
	CHECK(static_cast<bool>(p) && !!p);
	CHECK((++p).value == a + i + 1);
	CHECK((p++).value == a + i + 1);
	CHECK((--p).value == a + i + 1);
	CHECK((p--).value == a + i + 1);
	CHECK(p.value == a + i);
}
struct adder
{
	int n;
	int operator()(int a, int b) { return n += a - b; }
	int operator()(int a) const { return n + a; }
};
ENTRY(K09, strong_callable)
{
	const int n = sym_range<int>("n", -1000, 1000), a = sym_range<int>("a", -1000, 1000), b = sym_range<int>("b", -1000, 1000);
	using fn = muu::strong_typedef<adder, struct ftag, muu::strong_typedef_traits::callable>;
	fn f{ adder{ n } };
	CHECK(f(a, b) == n + a - b);
	CHECK(f.value.n == n + a - b);
	const fn g{ adder{ n } };
	CHECK(g(a) == n + a);
	CHECK(std::as_const(f)(a) == n + a - b + a);
}
