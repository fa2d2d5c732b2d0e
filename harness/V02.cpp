//@file {"native_std": "c++20"}
// V02: predicates over vectors agree with their components
#include "fp.h"
#include <limits>
#include <muu/core.h>
#include <muu/math.h>
#include <muu/half.h>
#include <muu/vector.h>

using muu::half;
using muu::vector;

template <typename T, size_t N>
static vector<T, N> any_vec(const char* name)
{
	vector<T, N> v;
	for (size_t i = 0; i < N; i++)
		v[i] = sym<T>(name);
	return v;
}
template <typename T, size_t N>
static vector<T, N> whole_vec(const char* name, unsigned bits)
{
	vector<T, N> v;
	for (size_t i = 0; i < N; i++)
		v[i] = static_cast<T>(whole<float>(name, bits));
	return v;
}
template <typename T, size_t N>
static void equality()
{
	const auto a = any_vec<T, N>("a"), b = any_vec<T, N>("b");
	bool eq = true, zero = true;
	for (size_t i = 0; i < N; i++)
	{
		eq	 = eq & bool(a[i] == b[i]);
		zero = zero & bool(a[i] == T{});
	}
	CHECK((a == b) == eq);
	CHECK((b == a) == eq);
	CHECK((a != b) == !eq);
	CHECK(a.zero() == zero);
	CHECK((vector<T, N>::zero(a)) == zero);
	// one component changed
	auto c			= a;
	const size_t at = sym_pick("at", 0, N - 1);
	c[at]			= sym<T>("c");
	bool same_rest	= true;
	for (size_t i = 0; i < N; i++)
		same_rest = same_rest & bool(a[i] == a[i]);
	CHECK((c == a) == (same_rest & bool(c[at] == a[at])));
}
template <typename T, typename U, size_t N>
static void mixed_equality()
{
	const auto a = any_vec<T, N>("a");
	const auto b = any_vec<U, N>("b");
	using C		 = std::common_type_t<T, U>;
	bool eq		 = true;
	for (size_t i = 0; i < N; i++)
		eq = eq & bool(static_cast<C>(a[i]) == static_cast<C>(b[i]));
	CHECK((a == b) == eq);
	CHECK((b == a) == eq);
	CHECK((a != b) == !eq);
	CHECK((b != a) == !eq);
}
// approximate comparison: every value agrees with the scalar comparison, and for whole numbers with plain arithmetic
template <typename T, size_t N>
static void approximate()
{
	using V		 = vector<T, N>;
	const auto a = any_vec<T, N>("a"), b = any_vec<T, N>("b");
	const T eps	 = sym<T>("eps");
	sym_assume(eps >= T(0));
	bool eq = true, zero = true;
	for (size_t i = 0; i < N; i++)
	{
		eq	 = eq & muu::approx_equal(a[i], b[i], eps);
		zero = zero & muu::approx_zero(a[i], eps);
	}
	CHECK(V::approx_equal(a, b, eps) == eq);
	CHECK(a.approx_equal(b, eps) == eq);
	CHECK(muu::approx_equal(a, b, eps) == eq);
	CHECK(V::approx_zero(a, eps) == zero);
	CHECK(a.approx_zero(eps) == zero);
	CHECK(muu::approx_zero(a, eps) == zero);
	bool deq = true, dzero = true;
	for (size_t i = 0; i < N; i++)
	{
		deq	  = deq & muu::approx_equal(a[i], b[i]);
		dzero = dzero & muu::approx_zero(a[i]);
	}
	CHECK(V::approx_equal(a, b) == deq);
	CHECK(a.approx_equal(b) == deq);
	CHECK(V::approx_zero(a) == dzero);
	CHECK(a.approx_zero() == dzero);
}
template <typename T, size_t N>
static void approximate_whole(unsigned bits)
{
	int x[N], y[N];
	vector<T, N> a, b;
	for (size_t i = 0; i < N; i++)
	{
		x[i] = whole<int>("x", bits);
		y[i] = whole<int>("y", bits);
		a[i] = static_cast<T>(x[i]);
		b[i] = static_cast<T>(y[i]);
	}
	const int e = whole_positive<int>("eps", bits);
	const T eps = static_cast<T>(e);
	bool eq = true, zero = true;
	for (size_t i = 0; i < N; i++)
	{
		const int d = x[i] - y[i];
		eq			= eq & bool(d < e) & bool(-d < e);
		zero		= zero & bool(x[i] < e) & bool(-x[i] < e);
	}
	CHECK(a.approx_equal(b, eps) == eq);
	CHECK(b.approx_equal(a, eps) == eq);
	CHECK(a.approx_zero(eps) == zero);
}
// of unit length: for whole numbers, exactly one component of magnitude one
template <typename T, size_t N>
static void unit_length()
{
	vector<T, N> v;
	unsigned ones = 0, others = 0;
	for (size_t i = 0; i < N; i++)
	{
		if constexpr (std::is_integral_v<T>)
			v[i] = sym<T>("v");
		else
			v[i] = whole<T>("v", 8);
		const bool one = bool(v[i] == T(1)) | (!std::is_unsigned_v<T> & bool(v[i] == static_cast<T>(-1)));
		ones += one;
		others += !one & bool(v[i] != T(0));
	}
	CHECK(v.normalized() == (ones == 1 && others == 0));
	CHECK((vector<T, N>::normalized(v)) == (ones == 1 && others == 0));
}
ENTRY(V02, equality_float) { equality<float, 1>(); equality<float, 2>(); equality<float, 3>(); equality<float, 4>(); equality<float, 5>(); }
ENTRY(V02, equality_double) { equality<double, 2>(); equality<double, 3>(); equality<double, 4>(); }
ENTRY(V02, equality_half) { equality<half, 2>(); equality<half, 3>(); equality<half, 6>(); }
ENTRY(V02, equality_int) { equality<int, 1>(); equality<int, 2>(); equality<int, 3>(); equality<int, 4>(); equality<int, 7>(); }
ENTRY(V02, equality_u8) { equality<uint8_t, 1>(); equality<uint8_t, 3>(); equality<uint8_t, 4>(); equality<uint8_t, 9>(); }
ENTRY(V02, equality_i64) { equality<int64_t, 2>(); equality<int64_t, 3>(); equality<int64_t, 4>(); }
ENTRY(V02, mixed) { mixed_equality<float, double, 2>(); mixed_equality<float, double, 3>(); mixed_equality<int, int64_t, 3>(); mixed_equality<uint8_t, int, 4>(); }
ENTRY(V02, approximate_float) { approximate<float, 2>(); }
ENTRY(V02, approximate_float3) { approximate<float, 3>(); }
ENTRY(V02, approximate_float4) { approximate<float, 4>(); }
ENTRY(V02, approximate_float5) { approximate<float, 5>(); }
ENTRY(V02, approximate_double) { approximate<double, 3>(); }
ENTRY(V02, whole_float) { approximate_whole<float, 2>(8); approximate_whole<float, 3>(8); approximate_whole<float, 4>(8); }
ENTRY(V02, whole_double) { approximate_whole<double, 3>(12); }
ENTRY(V02, unit_int) { unit_length<int, 2>(); unit_length<int, 3>(); }
ENTRY(V02, unit_u32) { unit_length<unsigned, 3>(); }
ENTRY(V02, unit_u8) { unit_length<uint8_t, 2>(); unit_length<uint8_t, 4>(); }
ENTRY(V02, unit_i8) { unit_length<int8_t, 3>(); }
ENTRY(V02, unit_i64) { unit_length<int64_t, 2>(); }
ENTRY(V02, unit_float) { unit_length<float, 2>(); unit_length<float, 3>(); }
ENTRY(V02, unit_double) { unit_length<double, 3>(); }
