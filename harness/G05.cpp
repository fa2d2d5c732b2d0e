//@file {"native_std": "c++20"}
// G05: rays and segments. Rays start at whole numbers and go along an axis (or a direction with power-of-two components), shapes have whole or half corners,
// so that distances are exact.
#include "fp.h"
#include <muu/core.h>
#include <muu/math.h>
#include <muu/half.h>
#include <muu/vector.h>
#include <muu/line_segment.h>
#include <muu/plane.h>
#include <muu/triangle.h>
#include <muu/bounding_box.h>
#include <muu/bounding_sphere.h>
#include <muu/ray.h>

using muu::bounding_box;
using muu::bounding_sphere;
using muu::line_segment;
using muu::plane;
using muu::ray;
using muu::triangle;
template <typename T>
using vec = muu::vector<T, 3>;

template <typename T>
static T num(const char* name, unsigned bits) { return static_cast<T>(whole<float>(name, bits)); }
template <typename T>
static vec<T> point(const char* name, unsigned bits) { return vec<T>{ num<T>(name, bits), num<T>(name, bits), num<T>(name, bits) }; }
template <typename T>
static T real(int i) { return static_cast<T>(static_cast<float>(i)); }
template <typename T>
static vec<T> v3(const int* p) { return vec<T>{ real<T>(p[0]), real<T>(p[1]), real<T>(p[2]) }; }
template <typename T>
static bool equal(const vec<T>& a, const vec<T>& b) { return bool(a.x == b.x) & bool(a.y == b.y) & bool(a.z == b.z); }
static const int axes[][3] = { { 1, 0, 0 }, { 0, 1, 0 }, { 0, 0, 1 }, { -1, 0, 0 }, { 0, -1, 0 }, { 0, 0, -1 } };

// ---------------------------------------------------------------- plane
template <typename T>
static void hits_plane(bool few)
{
	static const int normals[][3] = { { 1, 0, 0 }, { 0, 1, 0 }, { 0, 0, -1 }, { 1, -2, 4 }, { -1, 0, 2 } };
	const int *dir = axes[sym_pick("dir", 0, 5)], *n = normals[sym_pick("n", 0, 4)];
	const vec<T> o = few ? vec<T>{ num<T>("o", 3), num<T>("o", 3), T(2) } : point<T>("o", 4);
	const T d	   = few ? real<T>(static_cast<int>(sym_pick("d", 0, 2)) * 3 - 5) : num<T>("d", 4);
	const ray<T> r{ o, v3<T>(dir) };
	const plane<T> p{ v3<T>(n), d };
	const int nd = dir[0] * n[0] + dir[1] * n[1] + dir[2] * n[2];
	const T s	 = real<T>(n[0]) * o.x + real<T>(n[1]) * o.y + real<T>(n[2]) * o.z + d;
	const auto h = r.hits(p);
	const auto g = ray<T>::hits(r, p);
	CHECK(h.has_value() == g.has_value());
	if (nd == 0)
	{
		// along the plane: never unless inside it, and then any answer that is on the plane will do
		CHECK(bool(s == T(0)) | !h.has_value());
		sym_reach("along");
		return;
	}
	const T t = -s / real<T>(nd);
	CHECK(h.has_value() == bool(t >= T(0)));
	if (h)
	{
		CHECK(*h == t);
		CHECK(*g == t);
		const auto q = r.at(h);
		CHECK(p.signed_distance(q) == T(0));
		CHECK(equal(q, ray<T>::at(r, *h)));
		const vec<T> w{ T(0), T(1), T(0) };
		const auto b = r.bounce(h, w);
		CHECK(equal(b.origin, q) & equal(b.direction, w));
		const auto c = ray<T>::bounce(r, *h, w);
		CHECK(equal(c.origin, q) & equal(c.direction, w));
		sym_reach("hit");
	}
	else
		sym_reach("miss");
}
ENTRY(G05, hits_plane_float) { hits_plane<float>(false); }
ENTRY(G05, hits_plane_double) { hits_plane<double>(true); }

// ---------------------------------------------------------------- box
template <typename T>
static void hits_box(bool straight)
{
	static const int slanted[][3] = { { 1, 1, 2 }, { -1, 2, 1 }, { 1, -1, 0 }, { 0, 2, -1 }, { -2, -1, -1 } };
	const int* dir				  = straight ? axes[sym_pick("dir", 0, 5)] : slanted[sym_pick("dir", 0, 4)];
	const vec<T> o = vec<T>{ num<T>("o", 4), num<T>("o", straight ? 4 : 3), real<T>(static_cast<int>(sym_pick("o", 0, 3)) * 2 - 3) };
	// half-way corners: the start is never on the side planes
	const bounding_box<T> b{ vec<T>{ T(1), T(0), T(-1) }, vec<T>{ T(1.5f), T(2.5f), T(0.5f) } };
	const ray<T> r{ o, v3<T>(dir) };
	bool meet = true, inside = true;
	T in = T(-1000), out = T(1000);
	for (size_t i = 0; i < 3; i++)
	{
		const T lo = b.center[i] - b.extents[i], hi = b.center[i] + b.extents[i];
		const bool within = bool(lo <= o[i]) & bool(o[i] <= hi);
		inside &= within;
		if (dir[i] == 0)
		{
			meet &= within;
			continue;
		}
		const T near = ((dir[i] > 0 ? lo : hi) - o[i]) / real<T>(dir[i]), far = ((dir[i] > 0 ? hi : lo) - o[i]) / real<T>(dir[i]);
		in	= in < near ? near : in;
		out = far < out ? far : out;
	}
	meet &= bool(in <= out) & bool(out >= T(0));
	const auto h = r.hits(b);
	CHECK(h.has_value() == meet);
	CHECK(ray<T>::hits(r, b).has_value() == meet);
	CHECK(h.has_value() | !inside);
	if (h)
	{
		CHECK(*h == (inside ? out : in));
		CHECK(*h >= T(0));
		const auto p = r.at(h);
		bool on = false, near = true;
		for (size_t i = 0; i < 3; i++)
		{
			const T e = p[i] - b.center[i];
			near &= bool(e <= b.extents[i]) & bool(-e <= b.extents[i]);
			on |= bool(e == b.extents[i]) | bool(-e == b.extents[i]);
		}
		CHECK(near & on);
		sym_reach("hit");
	}
	else
		sym_reach("miss");
}
ENTRY(G05, hits_box_float) { hits_box<float>(true); }
ENTRY(G05, hits_box_double) { hits_box<double>(true); }
ENTRY(G05, hits_box_slanted_float) { hits_box<float>(false); }
ENTRY(G05, hits_box_slanted_double) { hits_box<double>(false); }

// ---------------------------------------------------------------- sphere
template <typename T>
static void hits_sphere()
{
	const size_t k = sym_pick("dir", 0, 5);
	const int* dir = axes[k];
	static const int beside[][3] = { { 0, 0, 5 }, { 3, 0, 4 }, { 0, -4, 3 }, { 5, 1, -1 }, { 4, 4, -1 } }; // and half the chord
	const int* s = beside[sym_pick("beside", 0, 4)];
	const vec<T> c = sym_pick("c", 0, 1) ? vec<T>{ T(2), T(-7), T(1) } : vec<T>{ T(0), T(0), T(0) };
	const T a = num<T>("a", 5); // how far ahead the center is
	vec<T> o{ c - v3<T>(dir) * a };
	o[(k + 1) % 3] += real<T>(s[0]);
	o[(k + 2) % 3] += real<T>(s[1]);
	const ray<T> r{ o, v3<T>(dir) };
	const bounding_sphere<T> b{ c, T(5) };
	const auto h = r.hits(b);
	CHECK(ray<T>::hits(r, b).has_value() == h.has_value());
	const T f = real<T>(s[2]);
	if (s[2] < 0)
	{
		CHECK(!h.has_value());
		sym_reach("miss");
		return;
	}
	sym_assume(a + f != T(0)); // starting on the sphere and leaving it
	CHECK(h.has_value() == bool(a + f > T(0)));
	if (h)
	{
		CHECK(*h == (a - f >= T(0) ? a - f : a + f));
		const auto p = r.at(h);
		const T x = p.x - c.x, y = p.y - c.y, z = p.z - c.z;
		CHECK(x * x + y * y + z * z == T(25));
		sym_reach("hit");
	}
	else
		sym_reach("behind");
}
ENTRY(G05, hits_sphere_float) { hits_sphere<float>(); }
ENTRY(G05, hits_sphere_double) { hits_sphere<double>(); }

// ---------------------------------------------------------------- triangle
static long dot(const long* a, const long* b) { return a[0] * b[0] + a[1] * b[1] + a[2] * b[2]; }
static void cross(const long* a, const long* b, long* r)
{
	r[0] = a[1] * b[2] - a[2] * b[1];
	r[1] = a[2] * b[0] - a[0] * b[2];
	r[2] = a[0] * b[1] - a[1] * b[0];
}
// determinants are powers of two
template <typename T>
static void hits_triangle(unsigned which)
{
	static const int table[][9] = { { 0, 0, 0, 4, 0, 0, 0, 2, 0 }, { 0, 0, 0, 2, 0, 2, 0, 2, 0 }, { 1, 0, 0, 3, 0, 0, 2, 2, 4 }, { 0, -1, 0, 0, 3, 2, 0, -1, 2 } };
	const int* c = table[which];
	const size_t first = sym_pick("first", 0, 2), step = sym_pick("step", 1, 2);
	long p[3][3], e[3][3], n[3], m[3], q[3], o[3];
	triangle<T> t{};
	for (size_t i = 0; i < 3; i++)
		for (size_t j = 0; j < 3; j++)
		{
			p[i][j] = c[(first + i * step) % 3 * 3 + j];
			t[i][j] = real<T>(static_cast<int>(p[i][j]));
		}
	for (size_t i = 0; i < 3; i++)
		for (size_t j = 0; j < 3; j++)
			e[i][j] = p[(i + 1) % 3][j] - p[i][j];
	cross(e[0], e[1], n);
	const size_t k = sym_pick("dir", 0, 5);
	const int* dir = axes[k];
	vec<T> from{};
	from[k % 3]		  = real<T>(static_cast<int>(sym_pick("o", 0, 2)) * 4 - 4);
	from[(k + 1) % 3] = num<T>("o", 3);
	from[(k + 2) % 3] = num<T>("o", 3);
	for (size_t j = 0; j < 3; j++)
		o[j] = static_cast<long>(from[j]);
	const ray<T> r{ from, v3<T>(dir) };
	const auto h  = r.hits(t);
	const long nd = n[0] * dir[0] + n[1] * dir[1] + n[2] * dir[2];
	CHECK(ray<T>::hits(r, t).has_value() == h.has_value());
	if (nd == 0)
	{
		CHECK(!h.has_value()); // never through an edge
		sym_reach("along");
		return;
	}
	const long sg = nd < 0 ? -1 : 1, w = sg * nd;
	for (size_t j = 0; j < 3; j++)
		q[j] = p[0][j] - o[j];
	const long along = dot(q, n) * sg; // times w
	bool meet		 = bool(along >= 0);
	for (size_t i = 0; i < 3; i++)
	{
		cross(n, e[i], m);
		for (size_t j = 0; j < 3; j++)
			q[j] = o[j] * w + along * dir[j] - p[i][j] * w;
		meet &= bool(dot(q, m) >= 0);
	}
	CHECK(h.has_value() == meet);
	if (h)
	{
		CHECK(*h * static_cast<T>(w) == static_cast<T>(along));
		sym_reach("hit");
	}
	else
		sym_reach("miss");
}
ENTRY(G05, hits_triangle_0) { hits_triangle<float>(0); }
ENTRY(G05, hits_triangle_1) { hits_triangle<float>(1); }
ENTRY(G05, hits_triangle_2) { hits_triangle<float>(2); }
ENTRY(G05, hits_triangle_3) { hits_triangle<double>(3); }

// ---------------------------------------------------------------- segments
template <typename T>
static void segment()
{
	const vec<T> a = point<T>("a", 5), b = point<T>("b", 5);
	const line_segment<T> s{ a, b };
	const auto m = s.midpoint();
	for (size_t j = 0; j < 3; j++)
		CHECK(m[j] + m[j] == a[j] + b[j]);
	CHECK(equal(line_segment<T>::midpoint(s), m));
	const T x = a.x - b.x, y = a.y - b.y, z = a.z - b.z;
	CHECK(s.length_squared() == x * x + y * y + z * z);
	auto r = s;
	CHECK(&r.reverse() == &r);
	CHECK(equal(r[0], b) & equal(r[1], a));
	CHECK(line_segment<T>::reverse(s) == r);
	CHECK(s.degenerate() == equal(a, b));
	CHECK((s == r) == equal(a, b));
}
ENTRY(G05, segment_float) { segment<float>(); }
ENTRY(G05, segment_double) { segment<double>(); }

// along an axis, 1 to 8 long
template <typename T>
static void straight_segment()
{
	const size_t k = sym_pick("dir", 0, 5);
	const int* dir = axes[k];
	const T len	   = real<T>(1 << sym_pick("len", 0, 3));
	const vec<T> a = sym_pick("a", 0, 1) ? vec<T>{ T(3), T(-2), T(1) } : vec<T>{ T(0), T(0), T(0) };
	const line_segment<T> s{ a, vec<T>{ a + v3<T>(dir) * len } };
	T got{};
	CHECK(equal(s.direction(), v3<T>(dir)));
	CHECK(equal(s.direction(got), v3<T>(dir)));
	CHECK(got == len);
	CHECK(s.length() == len);
	T dist{};
	CHECK(equal(vec<T>::direction(s[0], s[1], dist), v3<T>(dir)));
	CHECK(dist == len);
	auto more = s;
	CHECK(&more.extend(T(3)) == &more);
	CHECK(equal(more[0], a) & equal(more[1], vec<T>{ a + v3<T>(dir) * (len + T(3)) }));
	vec<T> p{ a };
	p[k % 3] += num<T>("p", 4);
	p[(k + 1) % 3] += num<T>("p", 2);
	p[(k + 2) % 3] += real<T>(static_cast<int>(sym_pick("p", 0, 1)));
	const T along = (p[k % 3] - a[k % 3]) * real<T>(dir[k % 3]);
	vec<T> c{ a };
	c[k % 3] += (along <= T(0) ? T(0) : along >= len ? len : along) * real<T>(dir[k % 3]);
	CHECK(equal(s.closest_point(p), c));
	CHECK(s.contains(p) == equal(p, c));
	CHECK(line_segment<T>::contains(s, p) == equal(p, c));
	const bool line = bool(p[(k + 1) % 3] == a[(k + 1) % 3]) & bool(p[(k + 2) % 3] == a[(k + 2) % 3]);
	CHECK(s.colinear(p) == line);
	CHECK(s.contains(line_segment<T>{ p, a }) == equal(p, c));
	auto w = s;
	const vec<T> many[] = { s[1], p };
	CHECK(w.contains(many, many + 2) == equal(p, c));
	sym_reach(equal(p, c) ? "on" : line ? "beyond" : "off");
}
ENTRY(G05, straight_segment_float) { straight_segment<float>(); }
ENTRY(G05, straight_segment_double) { straight_segment<double>(); }

// oblique: the closest point is on the segment, and the way to it is square to the segment or ends at an end. Lengths 5, 3, 7 and 9.
template <typename T>
static void oblique_segment()
{
	static const int ways[][4] = { { 3, 4, 0, 5 }, { 0, -3, 4, 5 }, { 2, -2, 1, 3 }, { 6, 3, -2, 7 }, { -4, 8, 1, 9 } };
	const int* d			   = ways[sym_pick("way", 0, 4)];
	const vec<T> a{ T(1), T(-1), T(2) };
	const line_segment<T> s{ a, vec<T>{ a + v3<T>(d) } };
	CHECK(s.length() == real<T>(d[3]));
	const vec<T> o{ num<T>("p", 3), num<T>("p", 3), real<T>(static_cast<int>(sym_pick("p", 0, 2)) * 3 - 3) };
	const auto c = s.closest_point(vec<T>{ a + o });
	const T dd = real<T>(d[3] * d[3]), t = o.x * real<T>(d[0]) + o.y * real<T>(d[1]) + o.z * real<T>(d[2]); // t / dd of the way
	const T u = t <= T(0) ? T(0) : t >= dd ? dd : t;
	for (size_t j = 0; j < 3; j++)
	{
		const T e = (c[j] - a[j]) * dd - u * real<T>(d[j]);
		CHECK(bool(e < T(0.01f)) & bool(e > T(-0.01f)));
	}
}
ENTRY(G05, oblique_segment_float) { oblique_segment<float>(); }
ENTRY(G05, oblique_segment_double) { oblique_segment<double>(); }
