//@file {"native_std": "c++20"}
// V03: matrix algebra
#include "fp.h"
#include <muu/core.h>
#include <muu/math.h>
#include <muu/half.h>
#include <muu/matrix.h>

using muu::half;
using muu::matrix;
using muu::vector;

// small whole numbers: every sum of products below is exact
template <typename T>
static T small(const char* name, unsigned bits)
{
	if constexpr (std::is_unsigned_v<T>)
		return whole_positive<T>(name, bits);
	else if constexpr (std::is_same_v<T, half>)
		return half{ whole<float>(name, bits) };
	else
		return whole<T>(name, bits);
}
// the entries are also kept here, so that the reference never reads through the code under test
template <typename T, size_t R, size_t C>
struct grid
{
	T v[R][C];
};
template <typename T, size_t R, size_t C>
static matrix<T, R, C> make(grid<T, R, C>& g, const char* name, unsigned bits)
{
	matrix<T, R, C> m{ T{} };
	for (size_t r = 0; r < R; r++)
		for (size_t c = 0; c < C; c++)
			m(r, c) = g.v[r][c] = small<T>(name, bits);
	return m;
}
template <typename T, size_t R, size_t C>
static matrix<T, R, C> any(grid<T, R, C>& g, const char* name)
{
	matrix<T, R, C> m{ T{} };
	for (size_t r = 0; r < R; r++)
		for (size_t c = 0; c < C; c++)
			m(r, c) = g.v[r][c] = sym<T>(name);
	return m;
}
template <typename T, size_t R, size_t C>
static bool is(const matrix<T, R, C>& m, const grid<T, R, C>& g)
{
	bool ok = true;
	for (size_t r = 0; r < R; r++)
		for (size_t c = 0; c < C; c++)
			ok = ok & same<T>(m(r, c), g.v[r][c]);
	return ok;
}
#define EACH(R_, C_)                                                                                                   \
	for (size_t r = 0; r < (R_); r++)                                                                                  \
		for (size_t c = 0; c < (C_); c++)

//----------------------------------------------------------------------------------------------------------------------
template <typename T, size_t R, size_t C>
static void access()
{
	grid<T, R, C> g;
	matrix<T, R, C> m = any<T, R, C>(g, "m");
	CHECK(is(m, g));
	const auto& k = m;
	EACH(R, C)
	{
		CHECK(&m(r, c) == &k(r, c));
		CHECK(&m(r, c) == m.data() + c * R + r); // columns one after the other
	}
	CHECK(&m.template get<R - 1, C - 1>() == &m(R - 1, C - 1) && &k.template get<R - 1, 0>() == &k(R - 1, 0));
	for (size_t r = 0; r < R; r++)
	{
		CHECK(same<T>(m.template column<C - 1>()[r], g.v[r][C - 1]));
		CHECK(same<T>(k.template column<0>()[r], g.v[r][0]));
	}
	// one entry written, the others stay
	const size_t wr = sym_pick("r", 0, R - 1), wc = sym_pick("c", 0, C - 1);
	m(wr, wc) = g.v[wr][wc] = sym<T>("w");
	CHECK(is(m, g));
	const T fill = sym<T>("fill");
	const matrix<T, R, C> b{ fill };
	EACH(R, C) CHECK(same<T>(b(r, c), fill));
	// other shapes: cut off, or filled with zero
	const matrix<T, R + 1, C + 1> bigger{ m };
	EACH(R + 1, C + 1) CHECK(same<T>(bigger(r, c), r < R && c < C ? g.v[r][c] : T{}));
	const matrix<T, R - (R > 1), C - (C > 1)> smaller{ m };
	EACH(R - (R > 1), C - (C > 1)) CHECK(same<T>(smaller(r, c), g.v[r][c]));
	const matrix<T, R + 1, 1> other{ m };
	EACH(R + 1, 1) CHECK(same<T>(other(r, c), r < R ? g.v[r][c] : T{}));
}
ENTRY(V03, access_f32_22) { access<float, 2, 2>(); }
ENTRY(V03, access_f64_34) { access<double, 3, 4>(); }
ENTRY(V03, access_u8_43) { access<uint8_t, 4, 3>(); }
ENTRY(V03, access_int_15) { access<int, 1, 5>(); }
ENTRY(V03, access_f32_44) { access<float, 4, 4>(); }

ENTRY(V03, construct)
{
	float f[16];
	for (auto& x : f)
		x = sym<float>("f");
	const matrix<float, 2, 2> a{ f[0], f[1], f[2], f[3] };
	EACH(2, 2) CHECK(same(a(r, c), f[r * 2 + c]));
	const matrix<float, 2, 3> b{ f[0], f[1], f[2], f[3], f[4], f[5] };
	EACH(2, 3) CHECK(same(b(r, c), f[r * 3 + c]));
	const matrix<float, 3, 2> b2{ f[0], f[1], f[2], f[3], f[4], f[5] };
	EACH(3, 2) CHECK(same(b2(r, c), f[r * 2 + c]));
	const matrix<float, 3, 3> d{ f[0], f[1], f[2], f[3], f[4], f[5], f[6], f[7], f[8] };
	EACH(3, 3) CHECK(same(d(r, c), f[r * 3 + c]));
	const matrix<float, 3, 4> e{ f[0], f[1], f[2], f[3], f[4], f[5], f[6], f[7], f[8], f[9], f[10], f[11] };
	EACH(3, 4) CHECK(same(e(r, c), f[r * 4 + c]));
	const matrix<float, 4, 4> h{ f[0], f[1], f[2],	f[3],  f[4],  f[5],	 f[6],	f[7],
								 f[8], f[9], f[10], f[11], f[12], f[13], f[14], f[15] };
	EACH(4, 4) CHECK(same(h(r, c), f[r * 4 + c]));
	const matrix<float, 1, 5> row{ f[0], f[1], f[2], f[3], f[4] };
	EACH(1, 5) CHECK(same(row(r, c), f[c]));
	// missing values are zero
	const matrix<float, 3, 3> p{ f[0], f[1], f[2], f[3] };
	EACH(3, 3) CHECK(same(p(r, c), r * 3 + c < 4 ? f[r * 3 + c] : 0.f));
	const matrix<float, 4, 2> p2{ f[0], f[1], f[2], f[3], f[4] };
	EACH(4, 2) CHECK(same(p2(r, c), r * 2 + c < 5 ? f[r * 2 + c] : 0.f));
	// from columns
	const vector<float, 3> v0{ f[0], f[1], f[2] }, v1{ f[3], f[4], f[5] }, v2{ f[6], f[7], f[8] };
	const matrix<float, 3, 3> cols{ v0, v1, v2 };
	EACH(3, 3) CHECK(same(cols(r, c), f[c * 3 + r]));
	const matrix<float, 2, 4> cut{ v0, v1, vector<float, 2>{ f[6], f[7] } };
	EACH(2, 4) CHECK(same(cut(r, c), c < 3 ? f[c * 3 + r] : 0.f));
	const matrix<float, 4, 4> ext{ v0, v1, v2 };
	EACH(4, 4) CHECK(same(ext(r, c), r < 3 && c < 3 ? f[c * 3 + r] : 0.f));
	// identity
	EACH(3, 4) CHECK((muu::constants<matrix<float, 3, 4>>::identity(r, c) == (r == c ? 1.f : 0.f)));
	EACH(5, 5) CHECK((muu::constants<matrix<int, 5, 5>>::identity(r, c) == (r == c ? 1 : 0)));
	// named columns
	matrix<float, 3, 4> n{ e };
	CHECK(&n.x_column()[0] == &n(0, 0) && &n.y_column()[0] == &n(0, 1) && &n.z_column()[0] == &n(0, 2) && &n.w_column()[0] == &n(0, 3)
		  && &n.translation_column()[0] == &n(0, 3));
	matrix<float, 3, 3> n3{ d };
	CHECK(&n3.translation_column()[0] == &n3(0, 2));
}

//----------------------------------------------------------------------------------------------------------------------
template <typename T, size_t R, size_t C>
static void equality()
{
	grid<T, R, C> g, h;
	const auto a = any<T, R, C>(g, "a"), b = any<T, R, C>(h, "b");
	bool all = true, zero = true, bad = false;
	EACH(R, C)
	{
		all	 = all & (g.v[r][c] == h.v[r][c]);
		zero = zero & (g.v[r][c] == T{});
		if constexpr (std::is_floating_point_v<T>)
			bad = bad | !(g.v[r][c] - g.v[r][c] == T{});
	}
	switch (sym_pick("op", 0, 2))
	{
		case 0:
			CHECK((a == b) == all);
			CHECK((a != b) == !all);
			CHECK((b == a) == all);
			break;
		case 1:
			CHECK(a.zero() == zero);
			CHECK((matrix<T, R, C>::zero(a) == zero));
			break;
		case 2:
			CHECK(a.infinity_or_nan() == bad);
			CHECK((matrix<T, R, C>::infinity_or_nan(a) == bad));
			CHECK(muu::infinity_or_nan(a) == bad);
			break;
	}
}
ENTRY(V03, equality_f32_22) { equality<float, 2, 2>(); }
ENTRY(V03, equality_f64_23) { equality<double, 2, 3>(); }
ENTRY(V03, equality_int_33) { equality<int, 3, 3>(); }
ENTRY(V03, equality_f32_42) { equality<float, 4, 2>(); }
ENTRY(V03, approx)
{
	grid<float, 2, 2> g, h;
	const auto a = make<float, 2, 2>(g, "a", 6), b = make<float, 2, 2>(h, "b", 6);
	const float eps = whole_positive<float>("eps", 4);
	bool near = true, zero = true;
	EACH(2, 2)
	{
		const float d = g.v[r][c] - h.v[r][c];
		near		  = near & ((d < 0 ? -d : d) < eps);
		const float z = g.v[r][c];
		zero		  = zero & ((z < 0 ? -z : z) < eps);
	}
	CHECK(muu::approx_equal(a, b, eps) == near);
	CHECK(a.approx_equal(b, eps) == near);
	CHECK(muu::approx_zero(a, eps) == zero);
	CHECK(a.approx_zero(eps) == zero);
}

//----------------------------------------------------------------------------------------------------------------------
template <typename T, size_t R, size_t C, unsigned B>
static void linear()
{
	grid<T, R, C> g, h;
	const auto a = make<T, R, C>(g, "a", B), b = make<T, R, C>(h, "b", B);
	const T s = small<T>("s", B);
	grid<T, R, C> want;
	EACH(R, C) want.v[r][c] = static_cast<T>(g.v[r][c] + h.v[r][c]);
	CHECK(is(a + b, want));
	auto x	= a;
	auto* p = &(x += b);
	CHECK(p == &x && is(x, want));
	CHECK(is(+x, want));
	EACH(R, C) want.v[r][c] = static_cast<T>(g.v[r][c] - h.v[r][c]);
	CHECK(is(a - b, want));
	x = a;
	p = &(x -= b);
	CHECK(p == &x && is(x, want));
	if constexpr (!std::is_unsigned_v<T>)
	{
		EACH(R, C) want.v[r][c] = static_cast<T>(-g.v[r][c]);
		CHECK(is(-a, want));
	}
	EACH(R, C) want.v[r][c] = static_cast<T>(g.v[r][c] * s);
	CHECK(is(a * s, want));
	CHECK(is(s * a, want));
	x = a;
	p = &(x *= s);
	CHECK(p == &x && is(x, want));
	CHECK(is(a, g) && is(b, h)); // operands stay
	x = a;
	x += x;
	EACH(R, C) want.v[r][c] = static_cast<T>(g.v[r][c] + g.v[r][c]);
	CHECK(is(x, want));
	x -= x;
	CHECK(x.zero());
}
ENTRY(V03, linear_f32_33) { linear<float, 3, 3, 10>(); }
ENTRY(V03, linear_f32_25) { linear<float, 2, 5, 10>(); }
ENTRY(V03, linear_f64_44) { linear<double, 4, 4, 12>(); }
ENTRY(V03, linear_int_32) { linear<int, 3, 2, 14>(); }
ENTRY(V03, linear_u8_22) { linear<uint8_t, 2, 2, 8>(); }
ENTRY(V03, linear_half_23) { linear<half, 2, 3, 5>(); }

template <typename T, size_t R, size_t C>
static void divide()
{
	grid<T, R, C> g;
	matrix<T, R, C> a = make<T, R, C>(g, "a", 10);
	grid<T, R, C> want;
	if constexpr (std::is_integral_v<T>)
	{
		const T s = sym<T>("s");
		sym_assume(s != 0 && s != T(-1));
		EACH(R, C) want.v[r][c] = static_cast<T>(g.v[r][c] / s);
		CHECK(is(a / s, want));
		a /= s;
	}
	else
	{
		const T s = static_cast<T>(1 << sym_pick("s", 0, 6)) / T(8); // dividing goes through the reciprocal
		EACH(R, C) want.v[r][c] = g.v[r][c] / s;
		CHECK(is(a / s, want));
		a /= s;
	}
	CHECK(is(a, want));
}
ENTRY(V03, divide_f32_33) { divide<float, 3, 3>(); }
ENTRY(V03, divide_f64_24) { divide<double, 2, 4>(); }
ENTRY(V03, divide_int_22) { divide<int, 2, 2>(); }

//----------------------------------------------------------------------------------------------------------------------
template <typename T, size_t R, size_t N, size_t C, unsigned B>
static void product()
{
	grid<T, R, N> g;
	grid<T, N, C> h;
	const auto a = make<T, R, N>(g, "a", B);
	const auto b = make<T, N, C>(h, "b", B);
	grid<T, R, C> want;
	EACH(R, C)
	{
		T sum = static_cast<T>(g.v[r][0] * h.v[0][c]);
		for (size_t i = 1; i < N; i++)
			sum = static_cast<T>(sum + static_cast<T>(g.v[r][i] * h.v[i][c]));
		want.v[r][c] = sum;
	}
	const auto ab = a * b;
	EACH(R, C) CHECK(same<T>(ab(r, c), want.v[r][c]));
	if constexpr (R == C && R == N)
	{
		auto x	= a;
		auto* p = &(x *= b);
		CHECK(p == &x && is(x, want));
		auto y = b;
		y	   = a * y;
		CHECK(is(y, want));
	}
	CHECK(is(a, g) && is(b, h));
}
ENTRY(V03, product_f32_222) { product<float, 2, 2, 2, 8>(); }
ENTRY(V03, product_f32_333) { product<float, 3, 3, 3, 8>(); }
ENTRY(V03, product_f32_444) { product<float, 4, 4, 4, 8>(); }
ENTRY(V03, product_f32_343) { product<float, 3, 4, 3, 8>(); }
ENTRY(V03, product_f32_324) { product<float, 3, 2, 4, 8>(); }
ENTRY(V03, product_f64_131) { product<double, 1, 3, 1, 12>(); }
ENTRY(V03, product_f64_313) { product<double, 3, 1, 3, 12>(); }
ENTRY(V03, product_f32_334) { product<float, 3, 3, 4, 8>(); }
ENTRY(V03, product_f32_555) { product<float, 5, 5, 5, 6>(); }
ENTRY(V03, product_int_444) { product<int, 4, 4, 4, 12>(); }
ENTRY(V03, product_int_243) { product<int, 2, 4, 3, 12>(); }
ENTRY(V03, product_u8_222) { product<uint8_t, 2, 2, 2, 8>(); }
ENTRY(V03, product_i8_333) { product<int8_t, 3, 3, 3, 8>(); }
ENTRY(V03, product_half_222) { product<half, 2, 2, 2, 4>(); }

template <typename T, size_t R, size_t C, unsigned B>
static void with_vector()
{
	grid<T, R, C> g;
	const auto a = make<T, R, C>(g, "a", B);
	vector<T, C> v;
	vector<T, R> w;
	T vs[C], ws[R];
	for (size_t c = 0; c < C; c++)
		v[c] = vs[c] = small<T>("v", B);
	for (size_t r = 0; r < R; r++)
		w[r] = ws[r] = small<T>("w", B);
	const vector<T, R> av = a * v;
	const vector<T, C> wa = w * a;
	for (size_t r = 0; r < R; r++)
	{
		T sum{};
		for (size_t c = 0; c < C; c++)
			sum = static_cast<T>(sum + static_cast<T>(g.v[r][c] * vs[c]));
		CHECK(same<T>(av[r], sum));
	}
	for (size_t c = 0; c < C; c++)
	{
		T sum{};
		for (size_t r = 0; r < R; r++)
			sum = static_cast<T>(sum + static_cast<T>(g.v[r][c] * ws[r]));
		CHECK(same<T>(wa[c], sum));
	}
}
ENTRY(V03, vector_f32_22) { with_vector<float, 2, 2, 8>(); }
ENTRY(V03, vector_f32_33) { with_vector<float, 3, 3, 8>(); }
ENTRY(V03, vector_f32_44) { with_vector<float, 4, 4, 8>(); }
ENTRY(V03, vector_f32_23) { with_vector<float, 2, 3, 8>(); }
ENTRY(V03, vector_f32_42) { with_vector<float, 4, 2, 8>(); }
ENTRY(V03, vector_f64_51) { with_vector<double, 5, 1, 12>(); }
ENTRY(V03, vector_int_34) { with_vector<int, 3, 4, 12>(); }
ENTRY(V03, vector_u8_33) { with_vector<uint8_t, 3, 3, 8>(); }
ENTRY(V03, vector_half_22) { with_vector<half, 2, 2, 4>(); }

template <typename T, size_t R, size_t C>
static void transposed()
{
	grid<T, R, C> g;
	const auto a = any<T, R, C>(g, "a");
	const matrix<T, C, R> t = muu::transpose(a);
	EACH(C, R) CHECK(same<T>(t(r, c), g.v[c][r]));
	CHECK(is(muu::transpose(t), g));
	if constexpr (R == C)
	{
		auto x	= a;
		auto* p = &x.transpose();
		CHECK(p == &x);
		EACH(C, R) CHECK(same<T>(x(r, c), g.v[c][r]));
	}
}
ENTRY(V03, transpose_f32_22) { transposed<float, 2, 2>(); }
ENTRY(V03, transpose_f32_33) { transposed<float, 3, 3>(); }
ENTRY(V03, transpose_f64_44) { transposed<double, 4, 4>(); }
ENTRY(V03, transpose_int_55) { transposed<int, 5, 5>(); }
ENTRY(V03, transpose_f32_24) { transposed<float, 2, 4>(); }
ENTRY(V03, transpose_u8_31) { transposed<uint8_t, 3, 1>(); }

//----------------------------------------------------------------------------------------------------------------------
// Leibniz: the sum over all permutations
template <typename W, size_t N, typename T>
static W leibniz(const grid<T, N, N>& g)
{
	size_t p[N];
	for (size_t i = 0; i < N; i++)
		p[i] = i;
	W det{};
	for (;;)
	{
		int sign = 1;
		for (size_t i = 0; i < N; i++)
			for (size_t j = 0; j < i; j++)
				if (p[j] > p[i])
					sign = -sign;
		W prod = static_cast<W>(sign);
		for (size_t i = 0; i < N; i++)
			prod = prod * static_cast<W>(g.v[i][p[i]]);
		det = det + prod;
		// next permutation
		size_t k = N - 1;
		while (k > 0 && p[k - 1] >= p[k])
			k--;
		if (k == 0)
			return det;
		size_t l = N - 1;
		while (p[l] <= p[k - 1])
			l--;
		std::swap(p[k - 1], p[l]);
		for (size_t i = k, j = N - 1; i < j; i++, j--)
			std::swap(p[i], p[j]);
	}
}
template <typename T, size_t N, unsigned B>
static void determinants()
{
	grid<T, N, N> g;
	matrix<T, N, N> a = make<T, N, N>(g, "a", B);
	using D			  = typename matrix<T, N, N>::determinant_type;
	const D want	  = static_cast<D>(leibniz<std::conditional_t<std::is_same_v<D, half>, float, D>, N>(g));
	CHECK(same<D>(muu::determinant(a), want));
	CHECK(same<D>(a.determinant(), want));
	CHECK(is(a, g));
}
ENTRY(V03, det_f32_1) { determinants<float, 1, 12>(); }
ENTRY(V03, det_f32_2) { determinants<float, 2, 10>(); }
ENTRY(V03, det_f32_3) { determinants<float, 3, 6>(); }
ENTRY(V03, det_f64_4) { determinants<double, 4, 6>(); }
ENTRY(V03, det_int_2) { determinants<int, 2, 14>(); }
ENTRY(V03, det_int_4) { determinants<int, 4, 6>(); }
ENTRY(V03, det_u8_2) { determinants<uint8_t, 2, 8>(); }
ENTRY(V03, det_i8_3) { determinants<int8_t, 3, 8>(); }
ENTRY(V03, det_half_2) { determinants<half, 2, 4>(); }

// inverses are compared entry by entry with (1 / determinant) * cofactor
template <typename W, size_t N, typename T>
static W cofactor(const grid<T, N, N>& g, size_t row, size_t col)
{
	if constexpr (N == 1)
		return W(1);
	else
	{
		grid<T, N - 1, N - 1> sub;
		for (size_t r = 0; r < N - 1; r++)
			for (size_t c = 0; c < N - 1; c++)
				sub.v[r][c] = g.v[r + (r >= row)][c + (c >= col)];
		const W d = leibniz<W, N - 1>(sub);
		return (row + col) & 1 ? -d : d;
	}
}
template <typename T, size_t N, unsigned B>
static void inverses()
{
	grid<T, N, N> g;
	const matrix<T, N, N> a = make<T, N, N>(g, "a", B);
	using S					= typename matrix<T, N, N>::inverse_scalar_type;
	const S det				= leibniz<S, N>(g);
	sym_assume(det != 0);
	const S inv_det = S(1) / det;
	const size_t r = sym_pick("r", 0, N - 1), c = sym_pick("c", 0, N - 1);
	const S cof	 = cofactor<S, N>(g, c, r);
	const auto inv = muu::invert(a);
	if constexpr (N == 1)
		CHECK(same<S>(inv(r, c), inv_det));
	else
	{
		sym_assume(cof != 0);
		CHECK(same<S>(inv(r, c), inv_det * cof));
	}
}
ENTRY(V03, invert_f32_1) { inverses<float, 1, 8>(); }
ENTRY(V03, invert_f32_2) { inverses<float, 2, 6>(); }
ENTRY(V03, invert_f32_3) { inverses<float, 3, 4>(); }
ENTRY(V03, invert_f64_4) { inverses<double, 4, 3>(); }
ENTRY(V03, invert_int_2) { inverses<int, 2, 6>(); }
ENTRY(V03, invert_int_3) { inverses<int, 3, 4>(); }
