//@file {"native_std": "c++20"}
// V03, continued: transformation matrices
#include "fp.h"
#include <muu/core.h>
#include <muu/math.h>
#include <muu/half.h>
#include <muu/matrix.h>

using muu::matrix;
using muu::vector;

#define EACH(R_, C_)                                                                                                   \
	for (size_t r = 0; r < (R_); r++)                                                                                  \
		for (size_t c = 0; c < (C_); c++)

template <typename T, size_t N>
static vector<T, N> vec(T (&v)[N])
{
	vector<T, N> out{ T{} };
	for (size_t i = 0; i < N; i++)
		out[i] = v[i];
	return out;
}
template <typename T, size_t R, size_t C>
static matrix<T, R, C> make(T (&g)[R][C], const char* name, unsigned bits)
{
	matrix<T, R, C> m{ T{} };
	EACH(R, C) m(r, c) = g[r][c] = whole<T>(name, bits);
	return m;
}
//----------------------------------------------------------------------------------------------------------------------
template <typename T, size_t R, size_t C>
static void scales()
{
	using M	  = matrix<T, R, C>;
	const T x = sym<T>("x"), y = sym<T>("y"), z = sym<T>("z");
	const auto is = [&](const M& m, T sx, T sy, T sz)
	{
		const T d[4] = { sx, sy, sz, T(1) };
		EACH(R, C) CHECK(same<T>(m(r, c), r == c ? d[r] : T{}));
	};
	is(M::from_2d_scale(x, y), x, y, T(1));
	is(M::from_scale(x, y), x, y, T(1));
	is(M::from_scale(vector<T, 2>{ x, y }), x, y, T(1));
	is(M::from_2d_scale(vector<T, 1>{ x }), x, T(1), T(1));
	is(M::from_2d_scale(vector<T, 3>{ x, y, z }), x, y, T(1));
	if constexpr (R >= 3 && C >= 3)
	{
		is(M::from_3d_scale(x, y, z), x, y, z);
		is(M::from_3d_scale(x, y), x, y, T(1));
		is(M::from_scale(x, y, z), x, y, z);
		is(M::from_scale(vector<T, 3>{ x, y, z }), x, y, z);
		is(M::from_3d_scale(vector<T, 1>{ x }), x, T(1), T(1));
		is(M::from_3d_scale(vector<T, 2>{ x, y }), x, y, T(1));
		is(M::from_3d_scale(vector<T, 4>{ x, y, z, x }), x, y, z);
	}
}
ENTRY(V03, scale_f32_22) { scales<float, 2, 2>(); }
ENTRY(V03, scale_f32_23) { scales<float, 2, 3>(); }
ENTRY(V03, scale_f64_33) { scales<double, 3, 3>(); }
ENTRY(V03, scale_int_34) { scales<int, 3, 4>(); }
ENTRY(V03, scale_f32_44) { scales<float, 4, 4>(); }

template <typename T, size_t R, size_t C>
static void translations()
{
	using M	  = matrix<T, R, C>;
	const T x = sym<T>("x"), y = sym<T>("y"), z = sym<T>("z");
	const auto is = [&](const M& m, T tx, T ty, T tz)
	{
		const T d[4] = { tx, ty, tz, T(1) };
		EACH(R, C) CHECK(same<T>(m(r, c), c == C - 1 && r < (C == 3 ? 2u : 3u) ? d[r] : T(r == c)));
	};
	is(M::from_2d_translation(x, y), x, y, T{});
	is(M::from_translation(x, y), x, y, T{});
	is(M::from_translation(vector<T, 2>{ x, y }), x, y, T{});
	is(M::from_2d_translation(vector<T, 1>{ x }), x, T{}, T{});
	is(M::from_2d_translation(vector<T, 3>{ x, y, z }), x, y, T{});
	if constexpr (R >= 3 && C == 4)
	{
		is(M::from_3d_translation(x, y, z), x, y, z);
		is(M::from_3d_translation(x, y), x, y, T{});
		is(M::from_translation(x, y, z), x, y, z);
		is(M::from_translation(vector<T, 3>{ x, y, z }), x, y, z);
		is(M::from_3d_translation(vector<T, 1>{ x }), x, T{}, T{});
		is(M::from_3d_translation(vector<T, 2>{ x, y }), x, y, T{});
		is(M::from_3d_translation(vector<T, 4>{ x, y, z, x }), x, y, z);
	}
}
ENTRY(V03, translation_f32_23) { translations<float, 2, 3>(); }
ENTRY(V03, translation_f64_33) { translations<double, 3, 3>(); }
ENTRY(V03, translation_int_34) { translations<int, 3, 4>(); }
ENTRY(V03, translation_f32_44) { translations<float, 4, 4>(); }

//----------------------------------------------------------------------------------------------------------------------
// the rotation part of a matrix, as a transform of another shape
template <size_t R, size_t C, size_t IR, size_t IC>
static void rotation3()
{
	float g[IR][IC];
	const auto in  = make<float, IR, IC>(g, "g", 24);
	const auto out = matrix<float, R, C>::from_3d_rotation(in);
	EACH(R, C) CHECK(same(out(r, c), r < 3 && c < 3 ? g[r][c] : r == c ? 1.f : 0.f));
}
template <size_t R, size_t C, size_t IR, size_t IC>
static void rotation2()
{
	float g[IR][IC];
	const auto in  = make<float, IR, IC>(g, "g", 24);
	const auto out = matrix<float, R, C>::from_2d_rotation(in);
	EACH(R, C) CHECK(same(out(r, c), r < 2 && c < 2 ? g[r][c] : r == c ? 1.f : 0.f));
}
ENTRY(V03, from_rotation)
{
	rotation3<3, 3, 3, 3>();
	rotation3<3, 3, 3, 4>();
	rotation3<3, 3, 4, 4>();
	rotation3<3, 4, 3, 3>();
	rotation3<3, 4, 3, 4>();
	rotation3<3, 4, 4, 4>();
	rotation3<4, 4, 3, 3>();
	rotation3<4, 4, 3, 4>();
	rotation3<4, 4, 4, 4>();
	rotation2<2, 2, 2, 2>();
	rotation2<2, 2, 2, 3>();
	rotation2<2, 3, 2, 2>();
	rotation2<2, 3, 2, 3>();
	rotation2<2, 3, 3, 3>();
	rotation2<3, 3, 2, 2>();
	rotation2<3, 3, 2, 3>();
}
ENTRY(V03, from_rotation_overloads)
{
	float g[3][3], h[3][4], k[4][4], p[2][2], q[2][3];
	const auto m33 = make<float, 3, 3>(g, "g", 24);
	const auto m34 = make<float, 3, 4>(h, "h", 24);
	const auto m44 = make<float, 4, 4>(k, "k", 24);
	const auto m22 = make<float, 2, 2>(p, "p", 24);
	const auto m23 = make<float, 2, 3>(q, "q", 24);
	const auto a   = matrix<float, 4, 4>::from_rotation(m33);
	const auto b   = matrix<float, 4, 4>::from_rotation(m34);
	const auto d   = matrix<float, 3, 4>::from_rotation(m44);
	EACH(3, 4)
	{
		CHECK(same(a(r, c), c < 3 ? g[r][c] : 0.f));
		CHECK(same(b(r, c), c < 3 ? h[r][c] : 0.f));
		CHECK(same(d(r, c), c < 3 ? k[r][c] : 0.f));
	}
	const auto e = matrix<float, 2, 3>::from_rotation(m22);
	const auto f = matrix<float, 2, 2>::from_rotation(m23);
	EACH(2, 2)
	{
		CHECK(same(e(r, c), p[r][c]));
		CHECK(same(f(r, c), q[r][c]));
	}
	CHECK(e(0, 2) == 0.f && e(1, 2) == 0.f);
	// axes become the columns
	float x[3], y[3], z[3];
	for (size_t i = 0; i < 3; i++)
	{
		x[i] = sym<float>("x");
		y[i] = sym<float>("y");
		z[i] = sym<float>("z");
	}
	const auto ax3 = matrix<float, 3, 3>::from_axes(vec(x), vec(y), vec(z));
	const auto ax4 = matrix<float, 4, 4>::from_axes(vec(x), vec(y), vec(z));
	EACH(4, 4)
	{
		const float want = r < 3 && c < 3 ? (c == 0 ? x[r] : c == 1 ? y[r] : z[r]) : r == c ? 1.f : 0.f;
		if (r < 3 && c < 3)
			CHECK(same(ax3(r, c), want));
		CHECK(same(ax4(r, c), want));
	}
}

//----------------------------------------------------------------------------------------------------------------------
template <typename T, size_t R, size_t C>
static void positions()
{
	T g[R][C], v[3];
	matrix<T, R, C> m = make<T, R, C>(g, "m", 8);
	for (auto& x : v)
		x = whole<T>("v", 8);
	const T d3[4] = { v[0], v[1], v[2], T(1) };
	if constexpr (R == 4)
	{
		// the last row makes w a power of two, so that dividing by it is exact
		const int k = static_cast<int>(sym_pick("w", 0, 3)) - 1;
		for (size_t c = 0; c < 3; c++)
			m(3, c) = T(0);
		m(3, 3) = k < 0 ? T(0.5) : T(1 << k);
		g[3][3] = m(3, 3);
	}
	const vector<T, 3> p = muu::matrix<T, R, C>::transform_position(m, vec(v)), p2 = m.transform_position(vec(v));
	const vector<T, 3> q = muu::matrix<T, R, C>::transform_without_translating(m, vec(v)), q2 = m.transform_without_translating(vec(v));
	const vector<T, 3> s = m * vec(v);
	for (size_t r = 0; r < 3; r++)
	{
		T rot = g[r][0] * v[0] + g[r][1] * v[1] + g[r][2] * v[2];
		CHECK(same<T>(q[r], rot) && same<T>(q2[r], rot));
		if constexpr (C == 4)
			rot = rot + g[r][3];
		if constexpr (R == 4)
			rot = rot / g[3][3];
		CHECK(same<T>(p[r], rot) && same<T>(p2[r], rot) && same<T>(s[r], rot));
	}
	(void)d3;
}
ENTRY(V03, position_f32_33) { positions<float, 3, 3>(); }
ENTRY(V03, position_f32_34) { positions<float, 3, 4>(); }
ENTRY(V03, position_f32_44) { positions<float, 4, 4>(); }
ENTRY(V03, position_f64_34) { positions<double, 3, 4>(); }
// a last row that depends on the position
ENTRY(V03, position_perspective)
{
	float g[4][4], v[3];
	auto m = make<float, 4, 4>(g, "m", 5);
	for (auto& x : v)
		x = whole<float>("v", 5);
	const float w	   = g[3][0] * v[0] + g[3][1] * v[1] + g[3][2] * v[2] + g[3][3];
	sym_assume(w != 0.f);
	const float inv = 1.f / w;
	const auto p	= m.transform_position(vec(v));
	const size_t r	= sym_pick("r", 0, 2);
	const float num = g[r][0] * v[0] + g[r][1] * v[1] + g[r][2] * v[2] + g[r][3];
	CHECK(same(p[r], inv * num));
}
ENTRY(V03, composition) // applying a product is applying one after the other
{
	float g[3][3], h[3][3], v[3];
	const auto a = make<float, 3, 3>(g, "a", 6), b = make<float, 3, 3>(h, "b", 6);
	for (auto& x : v)
		x = whole<float>("v", 6);
	const auto ab = (a * b) * vec(v), one = a * (b * vec(v));
	for (size_t r = 0; r < 3; r++)
		CHECK(same(ab[r], one[r]));
	const auto t = muu::transpose(a * b), u = muu::transpose(b) * muu::transpose(a);
	EACH(3, 3) CHECK(same(t(r, c), u(r, c)));
	CHECK(muu::determinant(muu::transpose(a)) == muu::determinant(a));
}
ENTRY(V03, direction)
{
	float g[3][4], v[3];
	const auto m = make<float, 3, 4>(g, "m", 5);
	for (auto& x : v)
		x = whole<float>("v", 5);
	vector<float, 3> turned{ 0.f };
	for (size_t r = 0; r < 3; r++)
		turned[r] = g[r][0] * v[0] + g[r][1] * v[1] + g[r][2] * v[2];
	const auto want = vector<float, 3>::length(vec(v)) * vector<float, 3>::normalize(turned);
	const auto d	= m.transform_direction(vec(v));
	const size_t r	= sym_pick("r", 0, 2);
	CHECK(same(d[r], want[r]));
}
ENTRY(V03, extract_scale)
{
	float g[4][4];
	const auto m   = make<float, 4, 4>(g, "m", 8);
	const auto s   = m.extract_3d_scale();
	const size_t c = sym_pick("c", 0, 2);
	CHECK(same(s[c], muu::sqrt(g[0][c] * g[0][c] + g[1][c] * g[1][c] + g[2][c] * g[2][c])));
	float h[2][3];
	const auto n  = make<float, 2, 3>(h, "n", 8);
	const auto s2 = n.extract_2d_scale();
	if (c < 2)
		CHECK(same(s2[c], muu::sqrt(h[0][c] * h[0][c] + h[1][c] * h[1][c])));
}
// over whole numbers a matrix is orthonormal exactly when the product with its transpose is the identity
ENTRY(V03, orthonormalized)
{
	float g[3][4];
	const auto m = make<float, 3, 4>(g, "m", 3);
	bool want	 = true;
	for (size_t a = 0; a < 3; a++)
		for (size_t b = 0; b <= a; b++)
		{
			const float dot = g[0][a] * g[0][b] + g[1][a] * g[1][b] + g[2][a] * g[2][b];
			want			= want & (dot == (a == b ? 1.f : 0.f));
		}
	CHECK(m.orthonormalized() == want);
	float h[3][3], k[4][4];
	for (size_t r = 0; r < 3; r++)
		for (size_t c = 0; c < 3; c++)
			h[r][c] = k[r][c] = g[r][c];
	matrix<float, 3, 3> m3{ 0.f };
	matrix<float, 4, 4> m4{ 7.f };
	EACH(3, 3) m3(r, c) = m4(r, c) = g[r][c];
	CHECK(m3.orthonormalized() == want);
	CHECK((matrix<float, 4, 4>::orthonormalized(m4) == want));
}
// axes that are perpendicular, or made oblique by adding multiples of earlier ones, give the unit axes back
ENTRY(V03, orthonormalize)
{
	static constexpr uint8_t perm[6][3] = { { 0, 1, 2 }, { 0, 2, 1 }, { 1, 0, 2 }, { 1, 2, 0 }, { 2, 0, 1 }, { 2, 1, 0 } };
	const size_t p	  = sym_pick("perm", 0, 5);
	const float len[] = { -2.f, 0.5f, 4.f };
	const size_t n	  = p % 3;
	const size_t which = sym_pick("which", 0, 2);
	const float by	   = static_cast<float>(sym_pick("by", 0, 7)) * 0.5f - 1.f;
	const float a = which == 0 ? by : 0.f, b = which == 1 ? by : 0.f, d = which == 2 ? by : 0.f;
	float col[3][3]{}, want[3][3]{};
	for (size_t i = 0; i < 3; i++)
	{
		col[i][perm[p][i]]	= len[(n + i) % 3];
		want[i][perm[p][i]] = len[(n + i) % 3] < 0 ? -1.f : 1.f;
	}
	for (size_t i = 0; i < 3; i++)
	{
		col[2][i] = col[2][i] + b * col[0][i] + d * col[1][i];
		col[1][i] = col[1][i] + a * col[0][i];
	}
	const auto m = matrix<float, 3, 3>::orthonormalize(matrix<float, 3, 3>{ vec(col[0]), vec(col[1]), vec(col[2]) });
	EACH(3, 3) CHECK(m(r, c) == want[c][r]);
}
