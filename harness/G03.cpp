//@file {"native_std": "c++20"}
// G03: planes and triangles against whole-number orientation arithmetic.
#include "fp.h"
#include <muu/core.h>
#include <muu/math.h>
#include <muu/half.h>
#include <muu/vector.h>
#include <muu/line_segment.h>
#include <muu/plane.h>
#include <muu/triangle.h>

using muu::line_segment;
using muu::plane;
using muu::triangle;
template <typename T>
using vec = muu::vector<T, 3>;

template <typename T>
static T num(const char* name, unsigned bits) { return static_cast<T>(whole<float>(name, bits)); }
template <typename T>
static vec<T> point(const char* name, unsigned bits = 5) { return vec<T>{ num<T>(name, bits), num<T>(name, bits), num<T>(name, bits) }; }
template <typename T>
static vec<T> v3(const int* p) { return vec<T>{ static_cast<T>(static_cast<float>(p[0])), static_cast<T>(static_cast<float>(p[1])), static_cast<T>(static_cast<float>(p[2])) }; }
template <typename T>
static bool equal(const vec<T>& a, const vec<T>& b) { return bool(a.x == b.x) & bool(a.y == b.y) & bool(a.z == b.z); }
template <typename T>
static T at(const vec<T>& n, T d, const vec<T>& p) { return static_cast<T>(static_cast<float>(n.x * p.x + n.y * p.y + n.z * p.z + d)); }

// ---------------------------------------------------------------- planes
static const int normals[][3] = { { 1, 0, 0 }, { 0, 1, 0 }, { 0, 0, 1 }, { -1, 0, 0 }, { 0, -1, 0 }, { 0, 0, -1 }, { 1, 2, -3 }, { -2, 1, 1 } };

template <typename T>
static void plane_points(unsigned bits)
{
	const vec<T> n = v3<T>(normals[sym_pick("n", 0, 7)]);
	const T d	   = num<T>("d", 4);
	const plane<T> p{ n, d };
	const vec<T> a = point<T>("a", bits), b = point<T>("b", bits), c = point<T>("c", bits);
	const T sa = at(n, d, a), sb = at(n, d, b), sc = at(n, d, c);
	CHECK(p.signed_distance(a) == sa);
	CHECK(plane<T>::signed_distance(p, b) == sb);
	CHECK(p.distance(a) == (sa < T(0) ? static_cast<T>(-sa) : sa));
	CHECK(plane<T>::distance(p, b) == (sb < T(0) ? static_cast<T>(-sb) : sb));
	CHECK(p.contains(a) == bool(sa == T(0)));
	CHECK(plane<T>::contains(p, b) == bool(sb == T(0)));
	const bool fa = sa >= T(0), fb = sb >= T(0), fc = sc >= T(0);
	CHECK(p.same_side(a, b) == (fa == fb));
	CHECK(plane<T>::same_side(p, a, b, c) == ((fa == fb) & (fa == fc)));
	const line_segment<T> seg{ a, b };
	const bool cross = (bool(sa <= T(0)) & bool(sb >= T(0))) | (bool(sa >= T(0)) & bool(sb <= T(0)));
	CHECK(p.intersects(seg) == cross);
	CHECK(plane<T>::intersects(p, seg) == cross);
	CHECK(seg.intersects(p) == cross);
	sym_reach(cross ? "crosses" : "one side");
}
ENTRY(G03, plane_points_float) { plane_points<float>(4); }
ENTRY(G03, plane_points_double) { plane_points<double>(3); }

// projecting moves along the normal onto the plane (unit normals)
template <typename T>
static void plane_project()
{
	const int* dir = normals[sym_pick("n", 0, 5)];
	const vec<T> n = v3<T>(dir), o = point<T>("o", 4), a = point<T>("a", 4), b = point<T>("b", 4);
	const plane<T> p{ o, n };
	const auto flat = [&](const vec<T>& v) {
		return vec<T>{ dir[0] ? o.x : v.x, dir[1] ? o.y : v.y, dir[2] ? o.z : v.z };
	};
	CHECK(equal(p.normal, n));
	CHECK(p.contains(o));
	CHECK(equal(p.project(a), flat(a)));
	CHECK(equal(plane<T>::project(p, b), flat(b)));
	const auto s = p.project(line_segment<T>{ a, b });
	CHECK(equal(s[0], flat(a)) & equal(s[1], flat(b)));
	CHECK(equal(p.origin(), flat(vec<T>{})));
	CHECK(p.normalized());
	const auto same = plane<T>::normalize(p);
	CHECK(equal(same.normal, n) & bool(same.d == p.d));
	// a stretched plane equation is the same plane
	const T k = static_cast<T>(static_cast<float>(1u << sym_pick("k", 1, 3)));
	plane<T> q{ vec<T>{ n * k }, static_cast<T>(p.d * k) };
	CHECK(!q.normalized());
	CHECK(&q.normalize() == &q);
	CHECK(equal(q.normal, n) & bool(q.d == p.d));
	CHECK((p == q) & !(p != q) & p.approx_equal(q));
	CHECK((p == plane<T>{ n, static_cast<T>(p.d + T(1)) }) == false);
}
ENTRY(G03, plane_project_float) { plane_project<float>(); }
ENTRY(G03, plane_project_double) { plane_project<double>(); }

// ---------------------------------------------------------------- triangles
// corners, edges with power-of-two lengths or oblique ones
static const int flat_triangles[][9] = {
	{ 0, 0, 0, 4, 0, 0, 0, 2, 0 }, { 0, 0, 0, 0, 0, 2, 0, 4, 0 }, { 1, 0, 0, -3, 0, 2, 2, 0, 2 }, { 0, 1, 5, 0, -3, 1, 0, 5, 1 }, { 2, 2, 0, -3, 0, 0, 1, -4, 0 },
};
template <typename T>
struct tri
{
	int p[3][3];
	vec<T> at; // added to every corner (none: one of two places)
	triangle<T> t;
};
template <typename T>
static tri<T> any_tri(const int* c, unsigned bits)
{
	tri<T> r{};
	const size_t first = sym_pick("first", 0, 2), step = sym_pick("step", 1, 2); // every order of the corners
	for (size_t i = 0; i < 3; i++)
		for (size_t j = 0; j < 3; j++)
			r.p[i][j] = c[(first + i * step) % 3 * 3 + j];
	r.at = bits ? point<T>("at", bits) : sym_pick("at", 0, 1) ? vec<T>{ T(5), T(-3), T(2) } : vec<T>{ T(0), T(0), T(0) };
	for (size_t i = 0; i < 3; i++)
		r.t[i] = vec<T>{ r.at + v3<T>(r.p[i]) };
	return r;
}
static long dot(const long* a, const long* b) { return a[0] * b[0] + a[1] * b[1] + a[2] * b[2]; }
static void cross(const long* a, const long* b, long* r)
{
	r[0] = a[1] * b[2] - a[2] * b[1];
	r[1] = a[2] * b[0] - a[0] * b[2];
	r[2] = a[0] * b[1] - a[1] * b[0];
}
static void edges(const int (&p)[3][3], long (&e)[3][3], long (&n)[3])
{
	for (size_t i = 0; i < 3; i++)
		for (size_t j = 0; j < 3; j++)
			e[i][j] = p[(i + 1) % 3][j] - p[i][j];
	cross(e[0], e[1], n);
}
// which side of the plane, and inside all three edges
static bool on_plane(const int (&p)[3][3], const long* q, bool& inside)
{
	long e[3][3], n[3];
	edges(p, e, n);
	const long r[3] = { q[0] - p[0][0], q[1] - p[0][1], q[2] - p[0][2] };
	const bool on	= dot(r, n) == 0;
	inside			= on;
	for (size_t i = 0; i < 3; i++)
	{
		long m[3];
		cross(n, e[i], m);
		const long s[3] = { q[0] - p[i][0], q[1] - p[i][1], q[2] - p[i][2] };
		inside &= bool(dot(s, m) >= 0);
	}
	return on;
}

template <typename T>
static void holds(unsigned which)
{
	const auto t = any_tri<T>(flat_triangles[which], 0);
	// relative to the triangle: one point anywhere near its plane, another that moves along a line
	static const bool up[5][3] = { { 0, 0, 1 }, { 1, 0, 0 }, { 0, 1, 0 }, { 1, 0, 0 }, { 0, 0, 1 } };
	vec<T> o{}, q{ T(1), T(1), T(0) };
	for (size_t j = 0; j < 3; j++)
		o[j] = up[which][j] ? static_cast<T>(static_cast<float>(sym_pick("off", 0, 2)) - 1 + t.p[0][j]) : num<T>("o", 4);
	q[which % 3] = num<T>("q", 3);
	const vec<T> a{ t.at + o }, b{ t.at + q };
	const long la[3] = { static_cast<long>(o.x), static_cast<long>(o.y), static_cast<long>(o.z) }, lb[3] = { static_cast<long>(q.x), static_cast<long>(q.y), static_cast<long>(q.z) };
	bool ia, ib;
	const bool pa = on_plane(t.p, la, ia), pb = on_plane(t.p, lb, ib);
	CHECK(t.t.coplanar(a) == pa);
	CHECK(triangle<T>::coplanar(t.t, b) == pb);
	CHECK(triangle<T>::coplanar(t.t[0], t.t[1], t.t[2], b) == pb);
	CHECK(t.t.contains(a) == ia);
	CHECK(triangle<T>::contains(t.t, a) == ia);
	CHECK(triangle<T>::contains(t.t[0], t.t[1], t.t[2], b) == ib);
	auto m				= t.t;
	const vec<T> many[] = { a, b };
	CHECK(m.contains(many, many + 2) == (ia & ib));
	CHECK(m.contains(many, many + 1) == ia);
	CHECK(!m.contains(many, many));
	CHECK(m.contains(line_segment<T>{ a, b }) == (ia & ib));
	CHECK(triangle<T>::contains(t.t[0], t.t[1], t.t[2], a, b) == (ia & ib));
	CHECK(!m.degenerate());
	sym_reach(ia ? "inside" : pa ? "beside" : "off the plane");
}
ENTRY(G03, holds_0_float) { holds<float>(0); }
ENTRY(G03, holds_1_float) { holds<float>(1); }
ENTRY(G03, holds_2_float) { holds<float>(2); }
ENTRY(G03, holds_3_float) { holds<float>(3); }
ENTRY(G03, holds_4_float) { holds<float>(4); }
ENTRY(G03, holds_0_double) { holds<double>(0); }
ENTRY(G03, holds_2_double) { holds<double>(2); }
ENTRY(G03, holds_4_double) { holds<double>(4); }

// properties of the triangle itself: the normal follows the winding, the plane goes through the corners, moving changes nothing
template <typename T>
static void shape()
{
	const auto t = any_tri<T>(flat_triangles[sym_pick("t", 0, 4)], 2);
	long e[3][3], n[3];
	edges(t.p, e, n);
	const vec<T> dir{ static_cast<T>(static_cast<float>((n[0] > 0) - (n[0] < 0))), static_cast<T>(static_cast<float>((n[1] > 0) - (n[1] < 0))),
					  static_cast<T>(static_cast<float>((n[2] > 0) - (n[2] < 0))) };
	CHECK(equal(t.t.normal(), dir));
	CHECK(equal(triangle<T>::normal(t.t[0], t.t[1], t.t[2]), dir));
	CHECK(equal(triangle<T>::normal(t.t[1], t.t[0], t.t[2]), vec<T>{ -dir }));
	const auto p = t.t.plane();
	CHECK(equal(p.normal, dir));
	for (size_t i = 0; i < 3; i++)
		CHECK(p.signed_distance(t.t[i]) == T(0));
	const plane<T> q{ t.t }, w{ t.t[0], t.t[1], t.t[2] }, u{ plane<T>::from_triangle(t.t) };
	CHECK((p == q) & (p == w) & (p == u) & (p == static_cast<plane<T>>(t.t)));
	CHECK(!p.contains(vec<T>{ t.t[2] + dir }));
}
ENTRY(G03, shape_float) { shape<float>(); }
ENTRY(G03, shape_double) { shape<double>(); }

// lengths: 3-4-5, 6-8-10, 5-12-13 and 13-14-15 triangles anywhere
template <typename T>
static void measures()
{
	static const int table[][11] = { { 0, 0, 0, 3, 0, 0, 0, 4, 0, 12, 6 }, { 0, 0, 0, 0, 8, 0, 0, 0, -6, 24, 24 }, { 0, 0, 0, 5, 0, 0, 5, 0, 12, 30, 30 }, { 5, 0, 0, -9, 0, 0, 0, 12, 0, 42, 84 } };
	const int* c				 = table[sym_pick("t", 0, 3)];
	const auto t				 = any_tri<T>(c, 4);
	CHECK(t.t.perimeter() == static_cast<T>(static_cast<float>(c[9])));
	CHECK(t.t.area() == static_cast<T>(static_cast<float>(c[10])));
	CHECK(triangle<T>::perimeter(t.t[0], t.t[1], t.t[2]) == t.t.perimeter());
	CHECK(triangle<T>::area(t.t[0], t.t[1], t.t[2]) == t.t.area());
}
ENTRY(G03, measures_float) { measures<float>(); }
ENTRY(G03, measures_double) { measures<double>(); }
// the centroid is the mean of the corners
template <typename T>
static void center()
{
	const vec<T> a = point<T>("a", 3), o = point<T>("o", 3);
	const triangle<T> t{ a, vec<T>{ a + o }, vec<T>{ a - o } };
	CHECK(equal(t.centroid(), a));
	CHECK(equal(triangle<T>::centroid(t[1], t[0], t[2]), a));
	CHECK(t.degenerate() == (bool(o.x == T(0)) & bool(o.y == T(0)) & bool(o.z == T(0))));
	const vec<T> b = point<T>("b", 3), c = point<T>("c", 3);
	const triangle<T> u{ a, b, c };
	CHECK(u.degenerate() == (equal(a, b) | equal(b, c) | equal(a, c)));
	CHECK((t == u) == (equal(t[0], u[0]) & equal(t[1], u[1]) & equal(t[2], u[2])));
	CHECK((t != u) != (t == u));
	CHECK(t.approx_equal(u) == (t == u));
	const vec<T> z{ T(0), T(0), T(0) };
	CHECK(u.zero() == (equal(a, z) & equal(b, z) & equal(c, z)));
	CHECK(u.approx_zero() == u.zero());
	CHECK(u.template get<0>() == a);
	CHECK(u.template get<1>() == b);
	CHECK(u.template get<2>() == c);
}
ENTRY(G03, center_float) { center<float>(); }
ENTRY(G03, center_double) { center<double>(); }

// barycentric coordinates add up to one and blend the corners back to the (projected) point; determinants are powers of two so nothing rounds
template <typename T>
static void barycentric()
{
	static const int table[][9] = { { 0, 0, 0, 4, 0, 0, 0, 2, 0 }, { 0, 0, 0, 0, 0, -2, 0, 4, 0 }, { 0, 0, 0, 2, 2, 0, 2, -2, 0 }, { 0, 0, 0, 2, 0, 0, 2, 0, 8 }, { 0, 0, 1, 0, 4, 1, 2, 0, 1 } };
	const size_t which			= sym_pick("t", 0, 4);
	const bool up[5][3]			= { { 0, 0, 1 }, { 1, 0, 0 }, { 0, 0, 1 }, { 0, 1, 0 }, { 0, 0, 1 } };
	const auto t				= any_tri<T>(table[which], 0);
	vec<T> p{};
	for (size_t j = 0; j < 3; j++)
		p[j] = up[which][j] ? static_cast<T>(static_cast<float>(sym_pick("off", 0, 1) * 3)) : num<T>("p", 4);
	const vec<T> q{ t.at + p };
	const auto b = t.t.barycentric(q);
	CHECK(b.x + b.y + b.z == T(1));
	vec<T> back{ T(0), T(0), T(0) };
	for (size_t i = 0; i < 3; i++)
		for (size_t j = 0; j < 3; j++)
			back[j] += b[i] * static_cast<T>(static_cast<float>(t.p[i][j]));
	for (size_t j = 0; j < 3; j++)
		CHECK(back[j] == (up[which][j] ? static_cast<T>(static_cast<float>(t.p[0][j])) : p[j]));
	CHECK(equal(t.t.barycentric_generator()(q), b));
	CHECK(equal(triangle<T>::barycentric(t.t[0], t.t[1], t.t[2], q), b));
	const auto g = triangle<T>::barycentric_generator(t.t[0], t.t[1], t.t[2]);
	CHECK(equal(g(t.t[0]), vec<T>{ T(1), T(0), T(0) }) & equal(g(t.t[1]), vec<T>{ T(0), T(1), T(0) }) & equal(g(t.t[2]), vec<T>{ T(0), T(0), T(1) }));
}
ENTRY(G03, barycentric_float) { barycentric<float>(); }
ENTRY(G03, barycentric_double) { barycentric<double>(); }

// ---------------------------------------------------------------- two triangles
// separating axes in whole numbers: both normals, every pair of edges, and the edges' perpendiculars in each plane. Touching counts.
static bool apart(const long (&a)[3][3], const long (&b)[3][3], const long* axis)
{
	long amin = dot(a[0], axis), amax = amin, bmin = dot(b[0], axis), bmax = bmin;
	for (size_t i = 1; i < 3; i++)
	{
		const long x = dot(a[i], axis), y = dot(b[i], axis);
		amin = sym_ite(x < amin, x, amin);
		amax = sym_ite(amax < x, x, amax);
		bmin = sym_ite(y < bmin, y, bmin);
		bmax = sym_ite(bmax < y, y, bmax);
	}
	return bool(amax < bmin) | bool(bmax < amin);
}
static const int shapes[][9] = {
	{ 0, 0, 0, 4, 0, 0, 0, 4, 0 }, { -1, 0, -1, 1, 0, 2, 0, 3, 1 }, { 0, 0, -2, 0, 0, 2, 3, 0, 0 }, { 1, -1, 0, -3, 2, 1, 2, 2, -1 }, { 0, 0, 0, 2, 2, 0, 1, -1, 0 },
};
template <typename T>
static void meets(unsigned first, unsigned second)
{
	const int *s = shapes[first], *o = shapes[second];
	const long x = static_cast<long>(sym_pick("x", 0, 2)) - 1, z = static_cast<long>(sym_pick("z", 0, 1)) - 1, y = static_cast<long>(whole<double>("y", 3));
	long a[3][3], b[3][3], e[3][3], f[3][3], n[3], m[3], r[3];
	triangle<T> t{}, u{};
	const size_t turn = sym_pick("turn", 0, 2);
	for (size_t i = 0; i < 3; i++)
	{
		for (size_t j = 0; j < 3; j++)
		{
			a[i][j] = s[i * 3 + j];
			b[i][j] = o[(i + turn) % 3 * 3 + j] + (j == 0 ? x : j == 1 ? y : z);
			t[i][j] = static_cast<T>(a[i][j]);
			u[i][j] = static_cast<T>(b[i][j]);
		}
	}
	for (size_t i = 0; i < 3; i++)
		for (size_t j = 0; j < 3; j++)
		{
			e[i][j] = s[(i + 1) % 3 * 3 + j] - s[i * 3 + j];
			f[i][j] = o[(i + 1 + turn) % 3 * 3 + j] - o[(i + turn) % 3 * 3 + j];
		}
	cross(e[0], e[1], n);
	cross(f[0], f[1], m);
	bool out = apart(a, b, n) | apart(a, b, m);
	for (size_t i = 0; i < 3; i++)
	{
		for (size_t j = 0; j < 3; j++)
		{
			cross(e[i], f[j], r);
			out |= apart(a, b, r);
		}
		cross(n, e[i], r);
		out |= apart(a, b, r);
		cross(m, f[i], r);
		out |= apart(a, b, r);
	}
	CHECK(t.intersects(u) == !out);
	CHECK(u.intersects(t) == !out);
	CHECK(triangle<T>::intersects(triangle<T>{ t[0], t[2], t[1] }, u) == !out);
	std::optional<line_segment<T>> seg;
	const bool got = t.intersects(u, seg);
	CHECK(got == !out);
	if (seg)
	{
		CHECK(got);
		for (size_t k = 0; k < 2; k++)
		{
			const auto& p = (*seg)[k];
			T h = T(0), l = T(0);
			for (size_t j = 0; j < 3; j++)
			{
				h += (p[j] - t[0][j]) * static_cast<T>(n[j]);
				l += (p[j] - u[0][j]) * static_cast<T>(m[j]);
			}
			CHECK(bool(h < T(1e-6)) & bool(h > T(-1e-6)) & bool(l < T(1e-6)) & bool(l > T(-1e-6)));
			bool in = true;
			for (size_t i = 0; i < 3; i++)
			{
				long c[3], d[3];
				cross(n, e[i], c);
				cross(m, f[i], d);
				h = l = T(0);
				for (size_t j = 0; j < 3; j++)
				{
					h += (p[j] - t[i][j]) * static_cast<T>(c[j]);
					l += (p[j] - u[i][j]) * static_cast<T>(d[j]);
				}
				in &= bool(h > T(-1e-6)) & bool(l > T(-1e-6));
			}
			CHECK(in);
		}
	}
	sym_reach(got ? "meet" : "apart");
}
ENTRY(G03, meets_00) { meets<double>(0, 0); }
ENTRY(G03, meets_01) { meets<double>(0, 1); }
ENTRY(G03, meets_02) { meets<double>(0, 2); }
ENTRY(G03, meets_03) { meets<double>(0, 3); }
ENTRY(G03, meets_04) { meets<double>(0, 4); }
ENTRY(G03, meets_11) { meets<double>(1, 1); }
ENTRY(G03, meets_12) { meets<double>(1, 2); }
ENTRY(G03, meets_13) { meets<double>(1, 3); }
ENTRY(G03, meets_23) { meets<double>(2, 3); }
ENTRY(G03, meets_33) { meets<double>(3, 3); }
