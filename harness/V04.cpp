//@file {"native_std": "c++20"}
// V04: quaternion algebra. Sums and products use whole numbers small enough to be exact; the trigonometric functions are
// stand-ins whose value at each angle that the code is expected to ask for is a symbolic whole number.
#include "fp.h"
#include <muu/core.h>
#include <muu/math.h>
#include <muu/half.h>
#include <muu/quaternion.h>
#include <muu/matrix.h>

using muu::half;
using muu::matrix;
using muu::quaternion;
using muu::vector;

#define EACH(R_, C_)                                                                                                   \
	for (size_t r = 0; r < (R_); r++)                                                                                  \
		for (size_t c = 0; c < (C_); c++)

//----------------------------------------------------------------------------------------------------------------------
// trigonometry stand-ins
namespace trig
{
	static double angle[4], cosine[4], sine[4];
	static unsigned count;
	static double y_arg[3], x_arg[3], atan_result[3];
	static unsigned atans;
	static double asin_arg, asin_result, acos_arg, acos_result;
	static bool asin_used, acos_used;

	static void set(double a, double c, double s)
	{
		angle[count]	= a;
		cosine[count]	= c;
		sine[count++]	= s;
	}
	static double look(double x, const double (&t)[4], double sign)
	{
		for (unsigned i = 0; i < count; i++)
		{
			if (x == angle[i])
				return t[i];
			if (x == -angle[i])
				return sign * t[i];
		}
		sym_fail("trigonometric function of an angle that has nothing to do with the input");
		return 0;
	}
	static double arctan2(double y, double x)
	{
		if (atans >= 3)
			sym_fail("too many arc tangents");
		y_arg[atans] = y;
		x_arg[atans] = x;
		return atan_result[atans++];
	}
	static double arcsin(double x)
	{
		asin_arg  = x;
		asin_used = true;
		return asin_result;
	}
	static double arccos(double x)
	{
		acos_arg  = x;
		acos_used = true;
		return acos_result;
	}
}
#define STAND_IN extern "C" __attribute__((noinline))
STAND_IN float cosf(float x) noexcept { return static_cast<float>(trig::look(x, trig::cosine, 1)); }
STAND_IN float sinf(float x) noexcept { return static_cast<float>(trig::look(x, trig::sine, -1)); }
STAND_IN double cos(double x) noexcept { return trig::look(x, trig::cosine, 1); }
STAND_IN double sin(double x) noexcept { return trig::look(x, trig::sine, -1); }
STAND_IN float atan2f(float y, float x) noexcept { return static_cast<float>(trig::arctan2(y, x)); }
STAND_IN double atan2(double y, double x) noexcept { return trig::arctan2(y, x); }
STAND_IN float asinf(float x) noexcept { return static_cast<float>(trig::arcsin(x)); }
STAND_IN double asin(double x) noexcept { return trig::arcsin(x); }
STAND_IN float acosf(float x) noexcept { return static_cast<float>(trig::arccos(x)); }
STAND_IN double acos(double x) noexcept { return trig::arccos(x); }

//----------------------------------------------------------------------------------------------------------------------
template <typename T>
struct quat
{
	T s, x, y, z;
};
template <typename T>
static quat<T> sym_quat(const char* name, unsigned bits)
{
	return { static_cast<T>(whole<float>(name, bits)), static_cast<T>(whole<float>(name, bits)), static_cast<T>(whole<float>(name, bits)),
			 static_cast<T>(whole<float>(name, bits)) };
}
template <typename T>
static quaternion<T> Q(const quat<T>& q)
{
	return quaternion<T>{ q.s, q.x, q.y, q.z };
}
template <typename T>
static bool is(const quaternion<T>& q, double s, double x, double y, double z)
{
	return bool(static_cast<double>(q.s) == s) & bool(static_cast<double>(q.v.x) == x) & bool(static_cast<double>(q.v.y) == y)
		 & bool(static_cast<double>(q.v.z) == z);
}
template <typename T>
static bool is(const vector<T, 3>& v, double x, double y, double z)
{
	return bool(static_cast<double>(v.x) == x) & bool(static_cast<double>(v.y) == y) & bool(static_cast<double>(v.z) == z);
}
template <typename T>
static quat<double> wide(const quat<T>& q)
{
	return { static_cast<double>(q.s), static_cast<double>(q.x), static_cast<double>(q.y), static_cast<double>(q.z) };
}
static quat<double> hamilton(const quat<double>& a, const quat<double>& b)
{
	return { a.s * b.s - a.x * b.x - a.y * b.y - a.z * b.z, //
			 a.s * b.x + a.x * b.s + a.y * b.z - a.z * b.y, //
			 a.s * b.y - a.x * b.z + a.y * b.s + a.z * b.x, //
			 a.s * b.z + a.x * b.y - a.y * b.x + a.z * b.s };
}
// v rotated by q, times the squared length of q
static void turned(const quat<double>& q, const double (&v)[3], double (&out)[3])
{
	const auto r = hamilton(hamilton(q, { 0, v[0], v[1], v[2] }), { q.s, -q.x, -q.y, -q.z });
	out[0]		 = r.x;
	out[1]		 = r.y;
	out[2]		 = r.z;
}
//----------------------------------------------------------------------------------------------------------------------
template <typename T>
static void product(unsigned bits)
{
	const auto a = sym_quat<T>("a", bits), b = sym_quat<T>("b", bits);
	const auto want = hamilton(wide(a), wide(b));
	CHECK(is(Q(a) * Q(b), want.s, want.x, want.y, want.z));
	auto c		= Q(a);
	auto& again = (c *= Q(b));
	CHECK(&again == &c);
	CHECK(is(c, want.s, want.x, want.y, want.z));
	c = Q(a);
	c *= c;
	const auto sq = hamilton(wide(a), wide(a));
	CHECK(is(c, sq.s, sq.x, sq.y, sq.z));
}
ENTRY(V04, product_f32) { product<float>(11); }
ENTRY(V04, product_f64) { product<double>(25); }
ENTRY(V04, product_half) { product<half>(4); }

template <typename T>
static void dots(unsigned bits)
{
	const auto a = sym_quat<T>("a", bits), b = sym_quat<T>("b", bits);
	const auto wa = wide(a), wb = wide(b);
	const double want = wa.s * wb.s + wa.x * wb.x + wa.y * wb.y + wa.z * wb.z;
	CHECK(static_cast<double>(muu::dot(Q(a), Q(b))) == want);
	CHECK(static_cast<double>(Q(a).dot(Q(b))) == want);
	CHECK(static_cast<double>(quaternion<T>::dot(Q(b), Q(a))) == want);
}
ENTRY(V04, dot_f32) { dots<float>(11); }
ENTRY(V04, dot_f64) { dots<double>(25); }
ENTRY(V04, dot_half) { dots<half>(4); }

template <typename T>
static void conjugates()
{
	const T s = sym<T>("s"), x = sym<T>("x"), y = sym<T>("y"), z = sym<T>("z");
	const quaternion<T> q{ s, x, y, z };
	const auto ok = [&](const quaternion<T>& c) { return same<T>(c.s, s) & same<T>(c.v.x, T(-x)) & same<T>(c.v.y, T(-y)) & same<T>(c.v.z, T(-z)); };
	CHECK(ok(q.conjugate()));
	CHECK(ok(quaternion<T>::conjugate(q)));
}
ENTRY(V04, conjugate_f32) { conjugates<float>(); }
ENTRY(V04, conjugate_f64) { conjugates<double>(); }
ENTRY(V04, conjugate_half) { conjugates<half>(); }

// the conjugate of a product is the reversed product of the conjugates; q times its conjugate is its squared length; lengths multiply
ENTRY(V04, product_laws)
{
	const auto a = sym_quat<float>("a", 6), b = sym_quat<float>("b", 6);
	const auto A = Q(a), B = Q(b);
	const auto l = (A * B).conjugate(), r = B.conjugate() * A.conjugate();
	CHECK((l.s == r.s) & (l.v.x == r.v.x) & (l.v.y == r.v.y) & (l.v.z == r.v.z));
	const auto n = A * A.conjugate();
	CHECK(is(n, a.s * a.s + a.x * a.x + a.y * a.y + a.z * a.z, 0, 0, 0));
	CHECK(is(A * quaternion<float>::constants::identity, a.s, a.x, a.y, a.z));
	CHECK(is(quaternion<float>::constants::identity * A, a.s, a.x, a.y, a.z));
	CHECK(is(A * quaternion<float>::constants::zero, 0, 0, 0, 0));
}
ENTRY(V04, lengths_multiply)
{
	const auto a = sym_quat<double>("a", 10), b = sym_quat<double>("b", 10);
	const auto A = Q(a), B = Q(b), P = A * B;
	CHECK(quaternion<double>::dot(P, P) == quaternion<double>::dot(A, A) * quaternion<double>::dot(B, B));
}
ENTRY(V04, product_associates)
{
	const auto a = sym_quat<double>("a", 14), b = sym_quat<double>("b", 14), c = sym_quat<double>("c", 14);
	const auto l = (Q(a) * Q(b)) * Q(c), r = Q(a) * (Q(b) * Q(c));
	CHECK((l.s == r.s) & (l.v.x == r.v.x) & (l.v.y == r.v.y) & (l.v.z == r.v.z));
}
// rotating by a unit quaternion is conjugation; on other quaternions the two differ by v times (squared length - 1)
template <typename T>
static void rotates(unsigned bits)
{
	const auto q = sym_quat<T>("q", bits);
	const T v[3] = { static_cast<T>(whole<float>("v", bits)), static_cast<T>(whole<float>("v", bits)), static_cast<T>(whole<float>("v", bits)) };
	const double w[3] = { static_cast<double>(v[0]), static_cast<double>(v[1]), static_cast<double>(v[2]) };
	const auto d	  = wide(q);
	double want[3];
	turned(d, w, want);
	const double excess = d.s * d.s + d.x * d.x + d.y * d.y + d.z * d.z - 1.0;
	for (size_t i = 0; i < 3; i++)
		want[i] = want[i] - excess * w[i];
	const vector<T, 3> V{ v[0], v[1], v[2] };
	CHECK(is(Q(q) * V, want[0], want[1], want[2]));
	CHECK(is(V * Q(q), want[0], want[1], want[2]));
}
ENTRY(V04, rotate_f32) { rotates<float>(6); }
ENTRY(V04, rotate_f64) { rotates<double>(6); }
ENTRY(V04, rotate_half) { rotates<half>(2); }

// the matrix made from a quaternion rotates like the quaternion
template <typename T, size_t R, size_t C>
static void to_matrix(unsigned bits)
{
	const auto q = sym_quat<T>("q", bits);
	const auto d = wide(q);
	const double excess = d.s * d.s + d.x * d.x + d.y * d.y + d.z * d.z - 1.0;
	const auto m = matrix<T, R, C>::from_quaternion(Q(q));
	for (size_t c = 0; c < C; c++)
	{
		double axis[3]{}, want[4]{};
		if (c < 3)
		{
			axis[c] = 1;
			double t[3];
			turned(d, axis, t);
			for (size_t r = 0; r < 3; r++)
				want[r] = t[r] - excess * axis[r];
		}
		else
			want[3] = 1;
		for (size_t r = 0; r < R; r++)
			CHECK(static_cast<double>(m(r, c)) == want[r]);
	}
}
ENTRY(V04, to_matrix_f32_33) { to_matrix<float, 3, 3>(10); }
ENTRY(V04, to_matrix_f32_34) { to_matrix<float, 3, 4>(10); }
ENTRY(V04, to_matrix_f64_44) { to_matrix<double, 4, 4>(20); }
ENTRY(V04, to_matrix_half_34) { to_matrix<half, 3, 4>(3); }
ENTRY(V04, to_matrix_half_44) { to_matrix<half, 4, 4>(3); }

// unit quaternions with rational parts, in every order and with every combination of signs
static quat<double> unit()
{
	static constexpr double parts[][4] = { { 1, 0, 0, 0 }, { .5, .5, .5, .5 }, { .1, .3, .3, .9 }, { .2, .4, .4, .8 }, { .1, .1, .7, .7 }, { 0, .6, .8, 0 } };
	static constexpr uint8_t order[][4] = { { 0, 1, 2, 3 }, { 3, 0, 1, 2 }, { 2, 3, 0, 1 }, { 1, 2, 3, 0 }, { 0, 2, 1, 3 }, { 3, 1, 0, 2 } };
	const size_t p = sym_pick("parts", 0, 5), o = sym_pick("order", 0, 5), signs = sym_pick("signs", 0, 7);
	double v[4];
	for (size_t i = 0; i < 4; i++)
		v[i] = parts[p][order[o][i]] * (i < 3 && (signs >> i & 1) ? -1.0 : 1.0);
	return { v[0], v[1], v[2], v[3] };
}
static bool close(double a, double b, double eps)
{
	const double d = a - b;
	return (d < eps) & (d > -eps);
}
template <typename T>
static bool close(const quaternion<T>& a, const quat<double>& b, double eps)
{
	return close(double(a.s), b.s, eps) & close(double(a.v.x), b.x, eps) & close(double(a.v.y), b.y, eps) & close(double(a.v.z), b.z, eps);
}
// a quaternion made back from its rotation matrix is the same rotation
template <typename T, size_t R, size_t C>
static void from_matrix(double eps)
{
	const auto q = unit();
	quaternion<T> qt{ static_cast<T>(q.s), static_cast<T>(q.x), static_cast<T>(q.y), static_cast<T>(q.z) };
	auto m = matrix<T, R, C>::from_quaternion(qt);
	if constexpr (C == 4)
		m.translation_column() = vector<T, R>{ T(9), T(-7), T(5) };
	const auto back = quaternion<T>::from_rotation(m);
	const quat<double> neg{ -q.s, -q.x, -q.y, -q.z };
	CHECK(close(back, q, eps) | close(back, neg, eps));
	const quaternion<T> again{ m };
	CHECK((again.s == back.s) & (again.v.x == back.v.x) & (again.v.y == back.v.y) & (again.v.z == back.v.z));
}
ENTRY(V04, from_matrix_f32_33) { from_matrix<float, 3, 3>(1e-5); }
ENTRY(V04, from_matrix_f64_34) { from_matrix<double, 3, 4>(1e-12); }
ENTRY(V04, from_matrix_f32_44) { from_matrix<float, 4, 4>(1e-5); }
ENTRY(V04, from_matrix_half_33) { from_matrix<half, 3, 3>(1e-2); }
ENTRY(V04, from_matrix_half_34) { from_matrix<half, 3, 4>(1e-2); }
ENTRY(V04, from_matrix_half_44) { from_matrix<half, 4, 4>(1e-2); }

// the rotation from one direction to another turns the first into the second, whatever the lengths of the two vectors
template <typename T>
static void between(double eps)
{
	static constexpr double dir[][3] = { { 1, 0, 0 },	 { -1, 0, 0 },	{ 0, 1, 0 },   { 0, -1, 0 },   { 0, 0, 1 },	   { 0, 0, -1 },  { .6, .8, 0 },
										 { -.6, 0, .8 }, { 0, .8, -.6 }, { 0, -.8, .6 }, { -.6, -.8, 0 }, { -.48, .6, .64 } };
	static constexpr double len[]	 = { 1, 2, .5 };
	const size_t i = sym_pick("from", 0, 11), j = sym_pick("to", 0, 11), k = sym_pick("length", 0, 4);
	const double lf = len[k % 3], lt = k < 3 ? 1.0 : len[k - 2];
	const vector<T, 3> from{ T(dir[i][0] * lf), T(dir[i][1] * lf), T(dir[i][2] * lf) };
	const vector<T, 3> to{ T(dir[j][0] * lt), T(dir[j][1] * lt), T(dir[j][2] * lt) };
	const auto q = quaternion<T>::from_rotation(from, to);
	const double f[3]	  = { dir[i][0], dir[i][1], dir[i][2] };
	double out[3];
	turned({ double(q.s), double(q.v.x), double(q.v.y), double(q.v.z) }, f, out);
	for (size_t c = 0; c < 3; c++)
		CHECK(close(out[c], dir[j][c], eps));
}
ENTRY(V04, between_f32) { between<float>(1e-4); }
ENTRY(V04, between_f64) { between<double>(1e-8); }

template <typename T>
static void normalisation()
{
	const size_t axis = sym_pick("axis", 0, 3), k = sym_pick("length", 0, 5);
	static constexpr double lengths[] = { 1, -1, 3, -4, 0.25, -100 };
	double v[4]{};
	v[axis] = lengths[k];
	quaternion<T> q{ T(v[0]), T(v[1]), T(v[2]), T(v[3]) };
	v[axis] = lengths[k] < 0 ? -1 : 1;
	const auto good = [&](const quaternion<T>& n)
	{ return close(double(n.s), v[0], 1e-3) & close(double(n.v.x), v[1], 1e-3) & close(double(n.v.y), v[2], 1e-3) & close(double(n.v.z), v[3], 1e-3); };
	CHECK(good(quaternion<T>::normalize(q)));
	CHECK(good(muu::normalize(q)));
	CHECK(q.normalized() == (k < 2));
	q.normalize();
	CHECK(good(q) & q.normalized() & muu::normalized(q));
}
ENTRY(V04, normalize_f32) { normalisation<float>(); }
ENTRY(V04, normalize_f64) { normalisation<double>(); }
ENTRY(V04, normalize_half) { normalisation<half>(); }

// a quaternion is normalized when its squared length is 1, to the documented precision
ENTRY(V04, normalized)
{
	// parts with up to 12 fractional bits: the square sum is exact
	float v[4];
	float sum = 0;
	for (float& x : v)
	{
		x = whole<float>("part", 5) * 0.125f;
		sum += x * x;
	}
	const quaternion<float> q{ v[0], v[1], v[2], v[3] };
	CHECK(q.normalized() == (sum == 1.f));
	CHECK(muu::normalized(q) == (sum == 1.f));
}
template <typename T>
static void compares()
{
	T v[8];
	for (T& x : v)
		x = sym<T>("v");
	const quaternion<T> a{ v[0], v[1], v[2], v[3] }, b{ v[4], vector<T, 3>{ v[5], v[6], v[7] } };
	bool eq = true, zero = true, bad = false;
	for (size_t i = 0; i < 4; i++)
	{
		eq	 = eq & bool(v[i] == v[4 + i]);
		zero = zero & bool(v[i] == T{});
		bad	 = bad | muu::infinity_or_nan(v[i]);
	}
	CHECK((a == b) == eq);
	CHECK((b == a) == eq);
	CHECK((a != b) == !eq);
	CHECK(a.zero() == zero);
	CHECK(a.infinity_or_nan() == bad);
	CHECK(muu::infinity_or_nan(a) == bad);
	CHECK(same(a.template get<0>(), v[0]) & same(a.template get<1>().x, v[1]) & same(a.template get<1>().z, v[3]));
	CHECK(same(a.data()[0], v[0]) & same(a.data()[1], v[1]) & same(a.data()[2], v[2]) & same(a.data()[3], v[3]));
	const quaternion<double> wide{ a };
	CHECK(same<double>(wide.s, double(v[0])) & same<double>(wide.v.x, double(v[1])) & same<double>(wide.v.y, double(v[2])) & same<double>(wide.v.z, double(v[3])));
}
ENTRY(V04, compares_f32) { compares<float>(); }
ENTRY(V04, compares_half) { compares<half>(); }
ENTRY(V04, approx)
{
	float v[8];
	for (float& x : v)
		x = whole<float>("v", 8);
	const float eps = 2.f;
	const quaternion<float> a{ v[0], v[1], v[2], v[3] }, b{ v[4], v[5], v[6], v[7] };
	bool eq = true, zero = true;
	for (size_t i = 0; i < 4; i++)
	{
		const float d = v[i] - v[4 + i];
		eq			  = eq & (d < eps) & (d > -eps);
		zero		  = zero & (v[i] < eps) & (v[i] > -eps);
	}
	CHECK(a.approx_equal(b, eps) == eq);
	CHECK(muu::approx_equal(a, b, eps) == eq);
	CHECK(quaternion<float>::approx_equal(b, a, eps) == eq);
	CHECK(a.approx_zero(eps) == zero);
	CHECK(muu::approx_zero(a, eps) == zero);
}
//----------------------------------------------------------------------------------------------------------------------
// axis-angle and Euler forms
static volatile double quarter = 0.25;
template <typename T>
static void axis_angles()
{
	const double half_angle = quarter, c = whole<double>("cos", 3), s = whole<double>("sin", 3);
	trig::set(half_angle, c, s);
	const T x = static_cast<T>(whole<float>("x", 4)), y = static_cast<T>(whole<float>("y", 4)), z = static_cast<T>(whole<float>("z", 4));
	const vector<T, 3> axis{ x, y, z };
	const T angle  = static_cast<T>(2 * half_angle);
	const double w[4] = { c, s * double(x), s * double(y), s * double(z) };
	CHECK(is(quaternion<T>::from_axis_angle(axis, angle), w[0], w[1], w[2], w[3]));
	CHECK(is(quaternion<T>::from_axis_angle(axis, T(-angle)), w[0], -w[1], -w[2], -w[3]));
	CHECK(is(quaternion<T>{ muu::axis_angle<T>{ axis, angle } }, w[0], w[1], w[2], w[3]));
	const auto q = Q(quat<T>{ T(w[0]), T(w[1]), T(w[2]), T(w[3]) });
	const auto m = matrix<T, 3, 3>::from_axis_angle(axis, angle), n = matrix<T, 3, 3>::from_quaternion(q), o = matrix<T, 3, 3>::from_axis_angle(muu::axis_angle<T>{ axis, angle });
	EACH(3, 3) CHECK(bool(m(r, c) == n(r, c)) & bool(o(r, c) == n(r, c)));
}
ENTRY(V04, axis_angle_f32) { axis_angles<float>(); }
ENTRY(V04, axis_angle_f64) { axis_angles<double>(); }
ENTRY(V04, axis_angle_half) { axis_angles<half>(); }

// the axis and the angle of a quaternion: a unit axis along the vector part (flipped to take the shorter way round when asked) and
// twice the arc whose tangent is length / scalar
template <typename T>
static void to_axis_angles()
{
	const size_t along = sym_pick("along", 0, 2), k = sym_pick("length", 0, 4);
	static constexpr double lengths[] = { 0, 1, -1, 4, -0.5 };
	const double s		= whole<double>("s", 4);
	const bool shortest = sym_pick("shortest", 0, 1) != 0;
	double v[3]{};
	v[along]			= lengths[k];
	const double len	= lengths[k] < 0 ? -lengths[k] : lengths[k];
	const bool flip		= shortest & (s < 0);
	trig::atan_result[0] = trig::atan_result[1] = trig::atan_result[2] = whole<double>("arc", 4);
	const quaternion<T> q{ T(s), T(v[0]), T(v[1]), T(v[2]) };
	const auto aa = q.to_axis_angle(shortest);
	CHECK(trig::atans == 1);
	CHECK(double(aa.angle) == 2 * trig::atan_result[0]);
	CHECK((trig::y_arg[0] == len) & (trig::x_arg[0] == (flip ? -s : s)));
	const double unit_part = (lengths[k] < 0) != flip ? -1.0 : 1.0;
	if (k)
		CHECK(is(aa.axis, along == 0 ? unit_part : 0, along == 1 ? unit_part : 0, along == 2 ? unit_part : 0));
	else
		CHECK(double(aa.axis.x) * double(aa.axis.x) + double(aa.axis.y) * double(aa.axis.y) + double(aa.axis.z) * double(aa.axis.z) == 1);
	if (shortest)
	{
		const auto bb = quaternion<T>::to_axis_angle(q);
		CHECK(bool(bb.angle == aa.angle) & bool(bb.axis == aa.axis));
	}
}
ENTRY(V04, to_axis_angle_f32) { to_axis_angles<float>(); }
ENTRY(V04, to_axis_angle_f64) { to_axis_angles<double>(); }
ENTRY(V04, to_axis_angle_half) { to_axis_angles<half>(); }

// scaling a quaternion scales the angle of its shortest-path rotation
template <typename T>
static void scaled()
{
	const size_t along = sym_pick("along", 0, 2), k = sym_pick("length", 0, 2);
	static constexpr double lengths[] = { 1, -1, 4 };
	double v[3]{};
	v[along] = lengths[k];
	const double s = whole<double>("s", 4);
	const bool flip = s < 0;
	const double arc = quarter, factor = static_cast<double>(sym_pick("factor", 0, 3)) - 1.0;
	trig::atan_result[0] = trig::atan_result[1] = trig::atan_result[2] = arc;
	const double c = whole<double>("cos", 3), sn = whole<double>("sin", 3);
	if (factor != 0)
		trig::set(arc * factor, c, sn);
	else
		trig::set(0, c, 0);
	const quaternion<T> q{ T(s), T(v[0]), T(v[1]), T(v[2]) };
	const auto r	  = q * T(factor);
	const double part = ((lengths[k] < 0) != flip ? -1.0 : 1.0) * (factor != 0 ? sn : 0);
	CHECK(is(r, c, along == 0 ? part : 0, along == 1 ? part : 0, along == 2 ? part : 0));
	trig::atans = 0;
	const auto r2 = T(factor) * q;
	CHECK(is(r2, c, along == 0 ? part : 0, along == 1 ? part : 0, along == 2 ? part : 0));
	trig::atans = 0;
	auto r3		= q;
	r3 *= T(factor);
	CHECK(is(r3, c, along == 0 ? part : 0, along == 1 ? part : 0, along == 2 ? part : 0));
	CHECK((trig::y_arg[0] == (lengths[k] < 0 ? -lengths[k] : lengths[k])) & (trig::x_arg[0] == (flip ? -s : s)));
}
ENTRY(V04, scaled_f32) { scaled<float>(); }
ENTRY(V04, scaled_f64) { scaled<double>(); }

// one Euler angle at a time: yaw turns right about +Y, pitch turns up about +X, roll turns right about +Z
template <typename T>
static void euler_axes()
{
	const size_t which = sym_pick("which", 0, 2);
	const double h = quarter, c = whole<double>("cos", 6), s = whole<double>("sin", 6);
	trig::set(h, c, s);
	trig::set(0, 1, 0);
	const T a	 = T(2 * h);
	const auto q = quaternion<T>::from_euler(which == 0 ? a : T(0), which == 1 ? a : T(0), which == 2 ? a : T(0));
	CHECK(is(q, c, which == 1 ? s : 0, which == 0 ? -s : 0, which == 2 ? -s : 0));
	const quaternion<T> q2{ muu::euler_angles<T>{ which == 0 ? a : T(0), which == 1 ? a : T(0), which == 2 ? a : T(0) } };
	CHECK(is(q2, c, which == 1 ? s : 0, which == 0 ? -s : 0, which == 2 ? -s : 0));
}
ENTRY(V04, euler_axes_f32) { euler_axes<float>(); }
ENTRY(V04, euler_axes_f64) { euler_axes<double>(); }
ENTRY(V04, euler_axes_half) { euler_axes<half>(); }
// "yaw is applied first, pitch second, roll third" (about the axes of the unturned frame): one rotation after the other
ENTRY(V04, euler_order)
{
	double h[3], c[3], s[3];
	for (size_t i = 0; i < 3; i++)
	{
		h[i] = quarter * static_cast<double>(1u << i);
		c[i] = whole<double>("cos", 4);
		s[i] = whole<double>("sin", 4);
		trig::set(h[i], c[i], s[i]);
	}
	const auto q	= quaternion<double>::from_euler(2 * h[0], 2 * h[1], 2 * h[2]);
	const auto want = hamilton({ c[2], 0, 0, -s[2] }, hamilton({ c[1], s[1], 0, 0 }, { c[0], 0, -s[0], 0 }));
	CHECK(is(q, want.s, want.x, want.y, want.z));
}
// angles taken from a quaternion are the ones it was made from: each arc the code takes has the sine and the cosine of the original
template <typename T>
static void euler_round_trip()
{
	static constexpr int8_t half_angles[][2] = { { 1, 0 }, { 4, 3 }, { 3, 4 }, { 3, -4 }, { -4, 3 }, { 2, -1 } };
	double c[3], s[3], sine[3], cosine[3];
	for (size_t i = 0; i < 3; i++)
	{
		const size_t k = sym_pick("angle", 0, i == 1 ? 1 : 5);
		c[i]		   = half_angles[k][0];
		s[i]		   = half_angles[k][1];
		if (i == 1 && k && sym_pick("down", 0, 1))
			s[i] = -s[i];
		const double n = c[i] * c[i] + s[i] * s[i];
		sine[i]		   = 2 * s[i] * c[i] / n;
		cosine[i]	   = (c[i] * c[i] - s[i] * s[i]) / n;
		trig::set(quarter * static_cast<double>(1u << i), c[i], s[i]);
	}
	const auto q = quaternion<T>::from_euler(T(quarter * 2), T(quarter * 4), T(quarter * 8));
	trig::atan_result[0] = 1;
	trig::atan_result[1] = 2;
	trig::asin_result	 = 4;
	const auto e = q.to_euler();
	CHECK(trig::asin_used & (trig::atans == 2));
	// the arcs may be evaluated in either order
	const bool yaw_first = e.yaw * e.yaw == 1;
	CHECK((e.yaw * e.yaw == (yaw_first ? 1 : 4)) & (e.roll * e.roll == (yaw_first ? 4 : 1)) & (e.pitch * e.pitch == 16));
	const auto arc = [&](double angle, unsigned at, double sin_want, double cos_want)
	{
		const double sn = (angle < 0 ? -1.0 : 1.0) * trig::y_arg[at], cs = trig::x_arg[at];
		CHECK(sn * sn + cs * cs > 0);
		// parallel and of the same direction
		const double n = sn * sin_want + cs * cos_want, x = sn * cos_want - cs * sin_want;
		CHECK((n > 0) & (x <= n * 1e-5) & (x >= -n * 1e-5));
	};
	arc(double(e.yaw), yaw_first ? 0 : 1, sine[0], cosine[0]);
	arc(double(e.roll), yaw_first ? 1 : 0, sine[2], cosine[2]);
	CHECK(close((e.pitch < 0 ? -1 : 1) * trig::asin_arg, sine[1], 1e-5));
}
ENTRY(V04, euler_round_trip_f32) { euler_round_trip<float>(); }
ENTRY(V04, euler_round_trip_f64) { euler_round_trip<double>(); }
// straight up and straight down: the angles reproduce the quaternion
template <typename T>
static void euler_poles()
{
	const bool up	  = sym_pick("up", 0, 1) != 0;
	const double yc	  = whole<double>("yc", 4), ys = whole<double>("ys", 4);
	sym_assume((yc != 0) | (ys != 0));
	// yaw by twice the arc of (yc, ys) after a quarter turn of pitch
	quaternion<T> q{ T(yc), T(up ? yc : -yc), T(-ys), T(up ? -ys : ys) };
	trig::atan_result[0] = 8;
	const auto e = q.to_euler();
	CHECK((trig::atans == 1) & !trig::asin_used);
	CHECK((e.pitch == (up ? 1 : -1) * muu::constants<T>::pi_over_two) & (e.roll == 0));
	// half the yaw is the arc, one way or the other
	CHECK((e.yaw == 16) | (e.yaw == -16));
	const double sgn = e.yaw < 0 ? -1 : 1;
	// (cosine, sine) of half the yaw: the quaternion (c, .., -s, ..) either way up
	const double c = trig::x_arg[0], s = sgn * trig::y_arg[0];
	CHECK((c * ys == s * yc) & (c * yc + s * ys > 0));
}
ENTRY(V04, euler_poles_f32) { euler_poles<float>(); }
ENTRY(V04, euler_poles_f64) { euler_poles<double>(); }

ENTRY(V04, euler_matrix)
{
	for (size_t i = 0; i < 3; i++)
		trig::set(quarter * static_cast<double>(1u << i), whole<double>("cos", 2), whole<double>("sin", 2));
	const float y = float(quarter * 2), p = float(quarter * 4), r_ = float(quarter * 8);
	const auto want = matrix<float, 3, 3>::from_quaternion(quaternion<float>::from_euler(y, p, r_));
	const auto a	= matrix<float, 3, 3>::from_euler(y, p, r_);
	const auto b	= matrix<float, 4, 4>::from_euler(muu::euler_angles<float>{ y, p, r_ });
	EACH(3, 3) CHECK((a(r, c) == want(r, c)) & (b(r, c) == want(r, c)));
	EACH(4, 4) if (r == 3 || c == 3) CHECK(b(r, c) == (r == c ? 1.f : 0.f));
}
template <typename T>
static void euler_scaling()
{
	const T y = sym<T>("y"), p = sym<T>("p"), r = sym<T>("r"), k = sym<T>("k");
	const muu::euler_angles<T> e{ y, p, r };
	const auto a = e * k, b = k * e;
	auto c = e;
	c *= k;
	CHECK(same<T>(a.yaw, T(y * k)) & same<T>(a.pitch, T(p * k)) & same<T>(a.roll, T(r * k)));
	CHECK(same<T>(b.yaw, T(y * k)) & same<T>(b.pitch, T(p * k)) & same<T>(b.roll, T(r * k)));
	CHECK(same<T>(c.yaw, T(y * k)) & same<T>(c.pitch, T(p * k)) & same<T>(c.roll, T(r * k)));
	CHECK(e.infinity_or_nan() == (muu::infinity_or_nan(y) | muu::infinity_or_nan(p) | muu::infinity_or_nan(r)));
	const muu::axis_angle<T> aa{ vector<T, 3>{ y, p, r }, k };
	CHECK(aa.infinity_or_nan() == (muu::infinity_or_nan(y) | muu::infinity_or_nan(p) | muu::infinity_or_nan(r) | muu::infinity_or_nan(k)));
	const auto v = static_cast<vector<T, 4>>(aa);
	CHECK(same<T>(v.x, y) & same<T>(v.y, p) & same<T>(v.z, r) & same<T>(v.w, k));
	const muu::axis_angle<T> back{ v };
	CHECK(same<T>(back.axis.x, y) & same<T>(back.axis.y, p) & same<T>(back.axis.z, r) & same<T>(back.angle, k));
}
ENTRY(V04, euler_scaling_f32) { euler_scaling<float>(); }
ENTRY(V04, euler_scaling_half) { euler_scaling<half>(); }

//----------------------------------------------------------------------------------------------------------------------
// interpolation: the weights of the two ends are cos(at) - d sin(at)/sin(t) and sin(at)/sin(t), the far end negated when it is the long
// way round; at the ends of the range the result is the end itself
template <typename T>
static void slerp_ends()
{
	quat<double> a{ whole<double>("a", 2) * .25, whole<double>("a", 2) * .25, whole<double>("a", 2) * .25, whole<double>("a", 2) * .25 };
	quat<double> b{ whole<double>("b", 2) * .25, whole<double>("b", 2) * .25, whole<double>("b", 2) * .25, whole<double>("b", 2) * .25 };
	const double d = a.s * b.s + a.x * b.x + a.y * b.y + a.z * b.z;
	const bool flip = d < 0;
	const double cosine = flip ? -d : d, arc = quarter;
	const unsigned alpha = sym_pick("alpha", 0, 1);
	sym_assume(cosine < 0.99);
	trig::acos_result = arc;
	trig::set(arc, cosine, 0.5);
	trig::set(0, 1, 0);
	const auto A = quaternion<T>{ T(a.s), T(a.x), T(a.y), T(a.z) }, B = quaternion<T>{ T(b.s), T(b.x), T(b.y), T(b.z) };
	const auto r   = muu::slerp(A, B, T(alpha));
	CHECK(trig::acos_used & (trig::acos_arg == cosine));
	const double k = flip ? -1 : 1;
	if (alpha == 0)
		CHECK(is(r, a.s, a.x, a.y, a.z));
	else
		CHECK(is(r, k * b.s, k * b.x, k * b.y, k * b.z));
	auto c = A;
	c.slerp(B, T(alpha));
	CHECK(bool(c.s == r.s) & bool(c.v.x == r.v.x) & bool(c.v.y == r.v.y) & bool(c.v.z == r.v.z));
}
ENTRY(V04, slerp_ends_f32) { slerp_ends<float>(); }
ENTRY(V04, slerp_ends_f64) { slerp_ends<double>(); }
ENTRY(V04, slerp_middle)
{
	quat<double> a{ whole<double>("a", 2) * .25, whole<double>("a", 2) * .25, whole<double>("a", 2) * .25, whole<double>("a", 2) * .25 };
	quat<double> b{ whole<double>("b", 2) * .25, whole<double>("b", 2) * .25, whole<double>("b", 2) * .25, whole<double>("b", 2) * .25 };
	const double d = a.s * b.s + a.x * b.x + a.y * b.y + a.z * b.z;
	const double cosine = d < 0 ? -d : d, k = d < 0 ? -1 : 1, arc = quarter;
	sym_assume(cosine < 0.99);
	trig::acos_result = arc;
	const double cm = whole<double>("cos", 3), sm = whole<double>("sin", 3);
	trig::set(arc, cosine, 0.5);
	trig::set(arc * 0.25, cm, sm);
	const auto r = muu::slerp(quaternion<double>{ a.s, a.x, a.y, a.z }, quaternion<double>{ b.s, b.x, b.y, b.z }, 0.25);
	const double far = sm * 2, near = cm - cosine * far;
	CHECK(is(r, near * a.s + far * k * b.s, near * a.x + far * k * b.x, near * a.y + far * k * b.y, near * a.z + far * k * b.z));
}
// ends that (almost) coincide: the result is the normalized linear blend
ENTRY(V04, slerp_close)
{
	const auto q = unit();
	const bool opposite = sym_pick("opposite", 0, 1) != 0;
	const double k = opposite ? -1 : 1;
	const float alpha = static_cast<float>(sym_pick("alpha", 0, 4)) * 0.25f;
	const auto r = muu::slerp(quaternion<float>{ float(q.s), float(q.x), float(q.y), float(q.z) },
							  quaternion<float>{ float(k * q.s), float(k * q.x), float(k * q.y), float(k * q.z) }, alpha);
	CHECK(!trig::acos_used);
	CHECK(close(r, q, 1e-5));
}
