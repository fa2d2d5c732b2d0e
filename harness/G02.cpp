//@file {"native_std": "c++20"}
// G02: bounding spheres against squared distances, in whole numbers.
#include "fp.h"
#include <muu/core.h>
#include <muu/math.h>
#include <muu/half.h>
#include <muu/vector.h>
#include <muu/line_segment.h>
#include <muu/triangle.h>
#include <muu/bounding_box.h>
#include <muu/bounding_sphere.h>

using muu::bounding_box;
using muu::bounding_sphere;
template <typename T>
using vec = muu::vector<T, 3>;

template <typename T>
static T num(const char* name, unsigned bits) { return static_cast<T>(whole<float>(name, bits)); }
template <typename T>
static T pos(const char* name, unsigned bits) { return static_cast<T>(whole_positive<float>(name, bits)); }
template <typename T>
static vec<T> point(const char* name, unsigned bits = 5) { return vec<T>{ num<T>(name, bits), num<T>(name, bits), num<T>(name, bits) }; }
template <typename T>
static bounding_sphere<T> any_sphere(const char* c, const char* r, unsigned bits = 5) { return bounding_sphere<T>{ point<T>(c, bits), pos<T>(r, bits - 1) }; }
template <typename T>
static bool equal(const vec<T>& a, const vec<T>& b) { return bool(a.x == b.x) & bool(a.y == b.y) & bool(a.z == b.z); }
template <typename T>
static T gap2(const vec<T>& a, const vec<T>& b)
{
	const T x = a.x - b.x, y = a.y - b.y, z = a.z - b.z;
	return x * x + y * y + z * z;
}
// the squared number is taken of the radius (a pick, so that the products stay small)
template <typename T>
static bool in(const bounding_sphere<T>& s, const vec<T>& p) { return gap2(s.center, p) <= s.radius * s.radius; }

template <typename T>
static void contains_point()
{
	const auto s = any_sphere<T>("c", "r");
	const auto p = point<T>("p");
	const bool i = in(s, p);
	CHECK(s.contains(p) == i);
	CHECK(bounding_sphere<T>::contains(s, p) == i);
	sym_reach(i ? "inside" : "outside");
}
ENTRY(G02, contains_point_float) { contains_point<float>(); }
ENTRY(G02, contains_point_double) { contains_point<double>(); }

template <typename T>
static void contains_many()
{
	auto s = any_sphere<T>("c", "r", 4);
	const vec<T> p[3] = { point<T>("p", 4), point<T>("q", 4), point<T>("w", 4) };
	const bool a = in(s, p[0]), b = in(s, p[1]), c = in(s, p[2]);
	CHECK(s.contains(p, p + 3) == (a & b & c));
	CHECK(s.contains(p, p + 1) == a);
	CHECK(!s.contains(p, p));
	CHECK(bounding_sphere<T>::contains(s, p[0], p[1]) == (a & b));
	CHECK(s.contains(muu::line_segment<T>{ p[0], p[1] }) == (a & b));
	CHECK(bounding_sphere<T>::contains(s, p[0], p[1], p[2]) == (a & b & c));
	CHECK(s.contains(muu::triangle<T>{ p[0], p[1], p[2] }) == (a & b & c));
}
ENTRY(G02, contains_many_float) { contains_many<float>(); }
ENTRY(G02, contains_many_double) { contains_many<double>(); }

// two spheres overlap when their centers are no further apart than both radii; one contains the other when the radii differ by at least the distance
template <typename T>
static void spheres()
{
	auto a = any_sphere<T>("c", "r"), b = any_sphere<T>("c2", "r2");
	const T d2 = gap2(a.center, b.center), sum = a.radius + b.radius, dif = a.radius - b.radius;
	const bool meet = d2 <= sum * sum, hold = (dif >= 0) & bool(d2 <= dif * dif);
	CHECK(a.intersects(b) == meet);
	CHECK(b.intersects(a) == meet);
	CHECK(bounding_sphere<T>::intersects(a, b) == meet);
	CHECK(a.collision_tester()(b) == meet);
	CHECK(a.collision_tester()(b.collision_tester()) == meet);
	CHECK(a.contains(b) == hold);
	CHECK(bounding_sphere<T>::contains(a, b) == hold);
	sym_reach(meet ? "meet" : "apart");
	if (hold)
		sym_reach("contained");
}
ENTRY(G02, spheres_float) { spheres<float>(); }
ENTRY(G02, spheres_double) { spheres<double>(); }

// a sphere meets a box when the nearest point of the box is within the radius; contains it when the furthest corner is; is contained when its extremes are
template <typename T>
static T outside(T v, T lo, T hi) { return v < lo ? lo - v : hi < v ? v - hi : T(0); }
template <typename T>
static T furthest(T v, T lo, T hi) { const T a = v < lo ? lo - v : v - lo, b = v < hi ? hi - v : v - hi; return a < b ? b : a; }
template <typename T>
struct pair
{
	bounding_sphere<T> s;
	bounding_box<T> b;
	vec<T> lo, hi;
};
template <typename T>
static pair<T> sphere_and_box()
{
	// the center of the sphere is a lattice on two axes and symbolic on the third, which rotates; the box is 2 wide, 4 high and 6 deep
	const bounding_box<T> b{ vec<T>{ T(1), T(-2), T(0) }, vec<T>{ T(1), T(2), T(3) } };
	const size_t k = sym_pick("axis", 0, 2);
	vec<T> c{ b.center };
	c[k] = num<T>("c", 5);
	for (size_t i = 0; i < 3; i++)
		if (i != k)
			c[i] += static_cast<T>(static_cast<float>(sym_pick("at", 0, 5))) - T(1);
	pair<T> p{ bounding_sphere<T>{ c, pos<T>("r", 4) }, b, {}, {} };
	p.lo = p.b.center - p.b.extents;
	p.hi = p.b.center + p.b.extents;
	return p;
}
template <typename T>
static void box_meets()
{
	const auto [s, b, lo, hi] = sphere_and_box<T>();
	const T x = outside(s.center.x, lo.x, hi.x), y = outside(s.center.y, lo.y, hi.y), z = outside(s.center.z, lo.z, hi.z);
	const bool meet = x * x + y * y + z * z <= s.radius * s.radius;
	CHECK(s.intersects(b) == meet);
	CHECK(b.intersects(s) == meet);
	CHECK(bounding_sphere<T>::intersects(s, b) == meet);
	CHECK(bounding_box<T>::intersects(b, s) == meet);
	CHECK(s.collision_tester()(b) == meet);
	CHECK(s.collision_tester()(b.collision_tester()) == meet);
	CHECK(b.collision_tester()(s) == meet);
	CHECK(b.collision_tester()(s.collision_tester()) == meet);
	sym_reach(meet ? "meet" : "apart");
}
ENTRY(G02, box_meets_float) { box_meets<float>(); }
ENTRY(G02, box_meets_double) { box_meets<double>(); }
template <typename T>
static void box_inside()
{
	const auto [s, b, lo, hi] = sphere_and_box<T>();
	const T x = furthest(s.center.x, lo.x, hi.x), y = furthest(s.center.y, lo.y, hi.y), z = furthest(s.center.z, lo.z, hi.z);
	const bool hold = x * x + y * y + z * z <= s.radius * s.radius;
	CHECK(s.contains(b) == hold);
	CHECK(bounding_sphere<T>::contains(s, b) == hold);
	sym_reach(hold ? "inside" : "not");
}
ENTRY(G02, box_inside_float) { box_inside<float>(); }
ENTRY(G02, box_inside_double) { box_inside<double>(); }
template <typename T>
static void box_around()
{
	const auto [s, b, lo, hi] = sphere_and_box<T>();
	bool hold = true;
	for (size_t i = 0; i < 3; i++)
		hold &= bool(s.center[i] - s.radius >= lo[i]) & bool(s.center[i] + s.radius <= hi[i]);
	CHECK(b.contains(s) == hold);
	CHECK(bounding_box<T>::contains(b, s) == hold);
	const auto around = bounding_box<T>::from_sphere(s);
	CHECK(equal(around.center, s.center));
	CHECK((around.extents.x == s.radius) & (around.extents.y == s.radius) & (around.extents.z == s.radius));
	CHECK(bounding_box<T>{ s } == around);
	sym_reach(hold ? "around" : "not");
}
ENTRY(G02, box_around_float) { box_around<float>(); }
ENTRY(G02, box_around_double) { box_around<double>(); }

// outside, the closest point is on the line to the center, at the radius. The way to the center is an axis or a 3-4-5 direction of length 2^n times 5, so
// that the length is exact and the direction at most rounded
template <typename T>
static void closest()
{
	const auto s = any_sphere<T>("c", "r");
	static constexpr int ways[][3] = { { 1, 0, 0 }, { 0, -1, 0 }, { 0, 0, 1 }, { -1, 0, 0 }, { 0, 1, 0 }, { 0, 0, -1 } };
	const auto& w  = ways[sym_pick("way", 0, 5)];
	const T d	   = static_cast<T>(static_cast<float>(1u << sym_pick("far", 0, 5)));
	const vec<T> p{ static_cast<T>(s.center.x + w[0] * d), static_cast<T>(s.center.y + w[1] * d), static_cast<T>(s.center.z + w[2] * d) };
	const auto r = s.closest_point(p);
	if (d <= s.radius)
		CHECK(equal(r, p));
	else
		CHECK(equal(r, vec<T>{ static_cast<T>(s.center.x + w[0] * s.radius), static_cast<T>(s.center.y + w[1] * s.radius), static_cast<T>(s.center.z + w[2] * s.radius) }));
	CHECK(equal(s.closest_point(s.center), s.center));
}
ENTRY(G02, closest_float) { closest<float>(); }
ENTRY(G02, closest_double) { closest<double>(); }
template <typename T>
static void closest_oblique()
{
	const bounding_sphere<T> s{ point<T>("c", 3), T(5) };
	static constexpr int ways[][3] = { { 3, 4, 0 }, { 0, -3, 4 }, { -4, 0, -3 }, { 2, -2, 1 }, { 6, 3, -2 } };
	const auto& w = ways[sym_pick("way", 0, 4)];
	const T f	  = T(4);
	const vec<T> p{ static_cast<T>(s.center.x + w[0] * f), static_cast<T>(s.center.y + w[1] * f), static_cast<T>(s.center.z + w[2] * f) };
	const T n = static_cast<T>(w[0] * w[0] + w[1] * w[1] + w[2] * w[2]) == T(25) ? T(5) : static_cast<T>(w[0] * w[0] + w[1] * w[1] + w[2] * w[2]) == T(9) ? T(3) : T(7);
	const auto r = s.closest_point(p);
	for (size_t i = 0; i < 3; i++)
	{
		const T e = r[i] - s.center[i] - w[i] * T(5) / n;
		CHECK(bool(e < T(0.001)) & bool(e > T(-0.001)));
	}
}
ENTRY(G02, closest_oblique_float) { closest_oblique<float>(); }
ENTRY(G02, closest_oblique_double) { closest_oblique<double>(); }

// sphere and triangle: within the radius of a vertex, of the inside of an edge, or of the inside of the face
static long dot(const long (&a)[3], const long (&b)[3]) { return a[0] * b[0] + a[1] * b[1] + a[2] * b[2]; }
static bool near_edge(const long (&p)[3], const long (&q)[3], long rr) // p, q relative to the center
{
	const long e[3] = { q[0] - p[0], q[1] - p[1], q[2] - p[2] };
	const long ee = dot(e, e), t = -dot(p, e);
	return bool(t > 0) & bool(t < ee) & bool(dot(p, p) * ee - t * t <= rr * ee);
}
static const int triangles[][9] = {
	{ 0, 0, 0, 4, 0, 0, 0, 4, 0 }, { -3, 1, 2, 2, -3, 0, 1, 4, -3 }, { 0, -4, 1, 3, 3, 1, -4, 2, 1 }, { 5, 5, 5, 4, 4, 5, -5, -5, -4 }, { 0, 0, 0, 1, 6, 0, -1, 6, 0 },
	{ 2, 0, 0, 0, 2, 0, 0, 0, 2 },
};
template <typename T>
static void with_triangle(unsigned which)
{
	const auto& t = triangles[which];
	const auto s  = bounding_sphere<T>{ vec<T>{ T(1.0f) * static_cast<float>(sym_pick("x", 0, 4)) - T(2), num<T>("c", 4), T(1.0f) * static_cast<float>(sym_pick("z", 0, 4)) - T(2) },
									  static_cast<T>(static_cast<float>(sym_pick("r", 0, 3))) };
	long p[3][3];
	for (size_t i = 0; i < 3; i++)
		for (size_t j = 0; j < 3; j++)
			p[i][j] = t[i * 3 + j] - static_cast<long>(s.center[j]);
	const long rr = static_cast<long>(s.radius * s.radius);
	bool meet	  = false;
	for (size_t i = 0; i < 3; i++)
	{
		meet |= bool(dot(p[i], p[i]) <= rr);
		meet |= near_edge(p[i], p[(i + 1) % 3], rr);
	}
	const long a[3] = { p[1][0] - p[0][0], p[1][1] - p[0][1], p[1][2] - p[0][2] }, b[3] = { p[2][0] - p[0][0], p[2][1] - p[0][1], p[2][2] - p[0][2] };
	const long n[3] = { a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0] };
	const long h	= dot(p[0], n);
	bool over		= bool(h * h <= rr * dot(n, n));
	for (size_t i = 0; i < 3; i++)
	{
		const auto &u = p[i], &v = p[(i + 1) % 3];
		const long e[3] = { v[0] - u[0], v[1] - u[1], v[2] - u[2] };
		const long m[3] = { n[1] * e[2] - n[2] * e[1], n[2] * e[0] - n[0] * e[2], n[0] * e[1] - n[1] * e[0] }; // points to the inner side
		over &= bool(-dot(u, m) >= 0);
	}
	meet |= over;
	const muu::triangle<T> tri{ static_cast<T>(t[0]), static_cast<T>(t[1]), static_cast<T>(t[2]), static_cast<T>(t[3]), static_cast<T>(t[4]),
								static_cast<T>(t[5]), static_cast<T>(t[6]), static_cast<T>(t[7]), static_cast<T>(t[8]) };
	CHECK(s.intersects(tri) == meet);
	CHECK(bounding_sphere<T>::intersects(s, tri[0], tri[1], tri[2]) == meet);
	CHECK(tri.intersects(s) == meet);
	sym_reach(meet ? "meet" : "apart");
}
ENTRY(G02, with_triangle_0) { with_triangle<double>(0); }
ENTRY(G02, with_triangle_1) { with_triangle<double>(1); }
ENTRY(G02, with_triangle_2) { with_triangle<double>(2); }
ENTRY(G02, with_triangle_3) { with_triangle<double>(3); }
ENTRY(G02, with_triangle_4) { with_triangle<double>(4); }
ENTRY(G02, with_triangle_5) { with_triangle<double>(5); }

template <typename T>
static void moves()
{
	auto s		 = any_sphere<T>("c", "r");
	const auto o = point<T>("o");
	const T f	 = pos<T>("f", 3);
	const auto k = s;
	CHECK(equal(bounding_sphere<T>::translate(k, o).center, vec<T>{ k.center + o }));
	CHECK(bounding_sphere<T>::translate(k, o).radius == k.radius);
	CHECK(equal(bounding_sphere<T>::scale(k, f).center, k.center));
	CHECK(bounding_sphere<T>::scale(k, f).radius == k.radius * f);
	CHECK(&s.translate(o) == &s);
	CHECK(&s.scale(f) == &s);
	CHECK(equal(s.center, vec<T>{ k.center + o }));
	CHECK(s.radius == k.radius * f);
	CHECK(k.diameter() == k.radius + k.radius);
	CHECK(k.degenerate() == (k.radius == 0));
	CHECK(k.empty() == (k.radius == 0));
	CHECK(k.zero() == ((k.radius == 0) & (k.center.x == 0) & (k.center.y == 0) & (k.center.z == 0)));
	CHECK(k.approx_zero() == k.zero());
	CHECK((k == s) == ((k.radius == s.radius) & equal(k.center, s.center)));
	CHECK((k != s) != (k == s));
	CHECK(k.approx_equal(s) == (k == s));
}
ENTRY(G02, moves_float) { moves<float>(); }
ENTRY(G02, moves_double) { moves<double>(); }
