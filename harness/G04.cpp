//@file {"native_std": "c++20"}
// G04: separating-axis tests against the same theorem in whole numbers. Shapes and orientations come from fixed lists, positions are symbolic; a box turned
// by a 3-4-5 rotation has corners that are whole numbers over 5 or 25, so the reference is exact after scaling. Where the code has to work with rounded axes,
// positions that touch exactly are left out.
#include "fp.h"
#include <muu/core.h>
#include <muu/math.h>
#include <muu/half.h>
#include <muu/vector.h>
#include <muu/matrix.h>
#include <muu/line_segment.h>
#include <muu/plane.h>
#include <muu/triangle.h>
#include <muu/bounding_box.h>
#include <muu/bounding_sphere.h>
#include <muu/oriented_bounding_box.h>
#include <muu/sat_tester.h>

using muu::bounding_box;
using muu::bounding_sphere;
using muu::box_corner;
using muu::line_segment;
using muu::oriented_bounding_box;
using muu::sat_tester;
using muu::triangle;
template <typename T>
using vec = muu::vector<T, 3>;

static int whole_int(const char* name, unsigned bits)
{
	const uint64_t raw = sym_u64raw(name, bits) & ((uint64_t{ 1 } << bits) - 1u);
	return static_cast<int>(static_cast<int64_t>(raw << (64 - bits)) >> (64 - bits));
}
static int pick(const char* name, int lo, int n) { return static_cast<int>(sym_pick(name, 0, static_cast<uint64_t>(n - 1))) + lo; }
template <typename T>
static T real(int i) { return static_cast<T>(i); }
template <typename T>
static T num(const char* name, unsigned bits) { return real<T>(whole_int(name, bits)); }
template <typename T>
static bool equal(const vec<T>& a, const vec<T>& b) { return bool(a.x == b.x) & bool(a.y == b.y) & bool(a.z == b.z); }

struct iv
{
	int x, y, z;
	int operator[](int i) const { return i == 0 ? x : i == 1 ? y : z; }
};
static iv operator+(iv a, iv b) { return { a.x + b.x, a.y + b.y, a.z + b.z }; }
static iv operator-(iv a, iv b) { return { a.x - b.x, a.y - b.y, a.z - b.z }; }
static iv operator*(int s, iv a) { return { s * a.x, s * a.y, s * a.z }; }
static int dot(iv a, iv b) { return a.x * b.x + a.y * b.y + a.z * b.z; }
static iv cross(iv a, iv b) { return { a.y * b.z - a.z * b.y, a.z * b.x - a.x * b.z, a.x * b.y - a.y * b.x }; }
template <typename T>
static vec<T> v3(iv p) { return vec<T>{ real<T>(p.x), real<T>(p.y), real<T>(p.z) }; }

// the range of some points along an axis, and whether two ranges are apart or touch at one end
struct span
{
	int lo, hi;
};
template <size_t N>
static span along(iv axis, const iv (&p)[N])
{
	span s{ dot(axis, p[0]), dot(axis, p[0]) };
	for (size_t i = 1; i < N; i++)
	{
		const int d = dot(axis, p[i]);
		s.lo		= d < s.lo ? d : s.lo;
		s.hi		= s.hi < d ? d : s.hi;
	}
	return s;
}
struct verdict
{
	bool face_a = false, face_b = false, edge = false, touch = false;
	bool apart() const { return face_a | face_b | edge; }
};
template <size_t N, size_t M>
static void test(iv axis, const iv (&p)[N], const iv (&q)[M], bool& apart, bool& touch)
{
	if (axis.x == 0 && axis.y == 0 && axis.z == 0)
		return;
	const span a = along(axis, p), b = along(axis, q);
	apart |= bool(a.hi < b.lo) | bool(b.hi < a.lo);
	touch |= bool(a.hi == b.lo) | bool(b.hi == a.lo);
}

// an orientation: the columns are whole numbers over `scale`
struct turn
{
	iv axes[3];
	int scale;
};
static const turn turns[] = {
	{ { { 1, 0, 0 }, { 0, 1, 0 }, { 0, 0, 1 } }, 1 },			   // none
	{ { { 0, 1, 0 }, { 0, 0, 1 }, { 1, 0, 0 } }, 1 },			   // x > y > z > x
	{ { { 0, -1, 0 }, { 1, 0, 0 }, { 0, 0, 1 } }, 1 },			   // a quarter turn
	{ { { 3, 4, 0 }, { -4, 3, 0 }, { 0, 0, 5 } }, 5 },			   // 3-4-5 about z
	{ { { 15, 20, 0 }, { -16, 12, 15 }, { 12, -9, 20 } }, 25 },	   // 3-4-5 about two axes
	{ { { 15, 12, -16 }, { 0, 20, 15 }, { 20, -9, 12 } }, 25 },
};
struct ibox // center and extents in whole numbers, corners over turn.scale
{
	iv c, e;
	turn t;
};
static void corners(const ibox& b, int scale, iv (&out)[8])
{
	const int up = scale / b.t.scale;
	for (int i = 0; i < 8; i++)
		out[i] = scale * b.c + ((i & 1 ? up : -up) * b.e.x) * b.t.axes[0] + ((i & 2 ? up : -up) * b.e.y) * b.t.axes[1] + ((i & 4 ? up : -up) * b.e.z) * b.t.axes[2];
}
template <typename T>
static muu::matrix<T, 3, 3> axes(const turn& t)
{
	muu::matrix<T, 3, 3> m{};
	for (size_t r = 0; r < 3; r++)
		for (size_t c = 0; c < 3; c++)
			m(r, c) = real<T>(t.axes[c][static_cast<int>(r)]) / real<T>(t.scale);
	return m;
}
template <typename T>
static oriented_bounding_box<T> box(const ibox& b) { return oriented_bounding_box<T>{ v3<T>(b.c), v3<T>(b.e), axes<T>(b.t) }; }

// ---------------------------------------------------------------- the projection itself
template <typename T>
static void projection()
{
	// one symbolic coordinate per point, so that the three together cover every order of the projections
	vec<T> p[3] = { { T(-1), T(1), T(0) }, { T(2), T(0), T(1) }, { T(1), T(-1), T(0) } };
	const size_t k = sym_pick("k", 0, 2);
	p[0][k] += num<T>("p", 3);
	p[1][k] += T(3) * num<T>("q", 2);
	p[2][k] += num<T>("w", 3);
	static const iv dirs[] = { { 1, 0, 0 }, { 0, -1, 0 }, { 1, 2, -3 } };
	const vec<T> axis = v3<T>(dirs[pick("dir", 0, 3)]);
	const auto at	  = [&](const vec<T>& v) { return axis.x * v.x + axis.y * v.y + axis.z * v.z; };
	const auto low	  = [](T a, T b) { return b < a ? b : a; };
	const auto high	  = [](T a, T b) { return a < b ? b : a; };
	const T a = at(p[0]), b = at(p[1]), c = at(p[2]);
	const T lo = low(low(a, b), c), hi = high(high(a, b), c);

	sat_tester<T, 3> none;
	const auto is	 = [](const sat_tester<T, 3>& s, T min, T max) { return bool(s.min == min) & bool(s.max == max); };
	const auto holds = [&](sat_tester<T, 3> s)
	{
		CHECK(is(s, lo, hi));
		s.reset();
		CHECK(is(s, muu::constants<T>::highest, muu::constants<T>::lowest));
	};
	switch (pick("form", 0, 8))
	{
		case 0: holds(sat_tester<T, 3>{ axis, p[0], p[1], p[2] }); break;
		case 1: holds(sat_tester<T, 3>{ axis, p }); break;
		case 2: holds(none.add(axis, p[0], p[1], p[2])); break;
		case 3: holds(none.add(axis, p)); break;
		case 4: holds(none.add(axis, p, p + 3)); break;
		case 5: holds(none.add(axis, p[2]).add(axis, p[1]).add(axis, p, p).add(axis, p[0])); break;
		case 6: holds(sat_tester<T, 3>{ axis, p[1] }.add(axis, p[2], p[0])); break;
		default:
		{
			CHECK(is(none.add(axis, p, p + 2), low(a, b), high(a, b)));
			CHECK(is(sat_tester<T, 3>{ axis, p[2] }, c, c));
			break;
		}
	}
}
ENTRY(G04, projection_float) { projection<float>(); }
ENTRY(G04, projection_double) { projection<double>(); }

// what a range says about a value, a range and another range, for any finite ends
template <typename T>
static void overlap()
{
	const T lo = num<T>("lo", 6), hi = num<T>("hi", 6), v = num<T>("v", 6), w = num<T>("w", 6);
	sat_tester<T, 3> s{ lo }, r{ v }, none;
	CHECK(bool(s.min == lo) & bool(s.max == lo));
	s.max = hi;
	r.max = w;
	const bool meet = bool(lo <= w) & bool(v <= hi);
	CHECK(s(v) == (bool(lo <= v) & bool(v <= hi)));
	CHECK(s(v, w) == meet);
	CHECK(s(r) == meet);
	CHECK(r(s) == meet);
	CHECK(bool(none.min == muu::constants<T>::highest) & bool(none.max == muu::constants<T>::lowest));
	CHECK(!none(v) & !none(v, w) & !none(s) & !s(none));
}
ENTRY(G04, overlap_float) { overlap<float>(); }
ENTRY(G04, overlap_double) { overlap<double>(); }

template <typename T, size_t D>
static void projection_axis()
{
	using index = muu::index_tag<D>;
	const vec<T> p[3] = { { num<T>("p", 5), num<T>("p", 5), num<T>("p", 5) }, { num<T>("q", 5), num<T>("q", 5), num<T>("q", 5) }, { num<T>("w", 5), num<T>("w", 5), num<T>("w", 5) } };
	const auto low = [](T a, T b) { return b < a ? b : a; };
	const auto high = [](T a, T b) { return a < b ? b : a; };
	const T a = p[0][D], b = p[1][D], c = p[2][D], lo = low(low(a, b), c), hi = high(high(a, b), c);
	const auto is = [](const sat_tester<T, 3>& s, T min, T max) { return bool(s.min == min) & bool(s.max == max); };
	CHECK(is(sat_tester<T, 3>{ index{}, p[0], p[1], p[2] }, lo, hi));
	CHECK(is(sat_tester<T, 3>{ index{}, p }, lo, hi));
	CHECK(is(sat_tester<T, 3>{ index{}, p[2] }, c, c));
	CHECK(is(sat_tester<T, 3>{}.add(index{}, p[0], p[1], p[2]), lo, hi));
	CHECK(is(sat_tester<T, 3>{}.add(index{}, p, p + 3), lo, hi));
	CHECK(is(sat_tester<T, 3>{}.add(index{}, p, p + 2).add(index{}, p[2]), lo, hi));
	CHECK(is(sat_tester<T, 3>{ index{}, p[0] }.add(index{}, p, p), a, a));
}
ENTRY(G04, projection_axis_float) { switch (sym_pick("d", 0, 2)) { case 0: return projection_axis<float, 0>(); case 1: return projection_axis<float, 1>(); default: return projection_axis<float, 2>(); } }
ENTRY(G04, projection_axis_double) { switch (sym_pick("d", 0, 2)) { case 0: return projection_axis<double, 0>(); case 1: return projection_axis<double, 1>(); default: return projection_axis<double, 2>(); } }

template <typename T>
static void projection_2d()
{
	using v2 = muu::vector<T, 2>;
	const v2 p[2] = { { T(3) * num<T>("p", 2), num<T>("p", 2) }, { num<T>("q", 2), T(2) * num<T>("q", 2) } };
	const v2 axis{ T(2), T(-1) };
	const T a = T(2) * p[0].x - p[0].y, b = T(2) * p[1].x - p[1].y;
	const auto is = [](const sat_tester<T, 2>& s, T u, T v) { return bool(s.min == (v < u ? v : u)) & bool(s.max == (u < v ? v : u)); };
	CHECK(is(sat_tester<T, 2>{ axis, p }, a, b));
	CHECK(is(sat_tester<T, 2>{ axis, p[0], p[1] }, a, b));
	CHECK(is(sat_tester<T, 2>{ muu::index_tag<1>{}, p }, p[0].y, p[1].y));
	CHECK(is(sat_tester<T, 2>{}.add(muu::index_tag<0>{}, p[1], p[0]), p[0].x, p[1].x));
	CHECK(is(sat_tester<T, 2>{}.add(axis, p), a, b));
}
ENTRY(G04, projection_2d_float) { projection_2d<float>(); }
ENTRY(G04, projection_2d_double) { projection_2d<double>(); }

// ---------------------------------------------------------------- triangles
struct itri
{
	iv p[3];
};
static const itri tris[] = {
	{ { { 0, 0, 0 }, { 6, 0, 0 }, { 0, 5, 0 } } },		// flat
	{ { { 0, -4, 3 }, { 0, 4, 3 }, { 0, 0, -5 } } },	// upright
	{ { { 5, 0, 0 }, { 0, 5, 0 }, { 0, 0, 5 } } },		// across a corner
	{ { { -7, -6, 1 }, { 7, 6, 2 }, { 6, 7, -1 } } },	// a needle
	{ { { 1, -4, -6 }, { -3, 5, 4 }, { 4, 6, -2 } } },	// oblique
};
// what there is to say about a triangle and a turned box, over the scale of the box
static verdict meets(const itri& t, const ibox& b)
{
	verdict v;
	iv q[8];
	corners(b, b.t.scale, q);
	const iv p[3] = { b.t.scale * t.p[0], b.t.scale * t.p[1], b.t.scale * t.p[2] };
	const iv e[3] = { t.p[1] - t.p[0], t.p[2] - t.p[1], t.p[0] - t.p[2] };
	for (const iv& a : b.t.axes)
		test(a, p, q, v.face_b, v.touch);
	const iv n = cross(e[0], e[1]);
	test(n, p, q, v.face_a, v.touch);
	for (const iv& a : b.t.axes)
		for (const iv& d : e)
			test(cross(d, a), p, q, v.edge, v.touch);
	return v;
}
// the triangle moves, the box stays
static iv somewhere()
{
	// two coordinates symbolic, the third from a list, and the three of them rotate
	const int u = whole_int("at", 4), v = whole_int("at", 4), w = pick("height", 0, 3) * 4 - 4;
	switch (pick("which", 0, 3))
	{
		case 0: return { u, v, w };
		case 1: return { w, u, v };
		default: return { v, w, u };
	}
}
template <typename T>
static void triangle_box(int shape)
{
	itri t = tris[shape];
	const bool exact = shape < 2; // the unit normal of the others is rounded
	const iv at = somewhere();
	for (iv& p : t.p)
		p = p + at;
	const ibox b{ { 1, 0, -1 }, { 2, 1, 3 }, turns[0] };
	const verdict v = meets(t, b);
	const bool want = !v.apart();
	const bounding_box<T> bb{ v3<T>(b.c), v3<T>(b.e) };
	const vec<T> p0 = v3<T>(t.p[0]), p1 = v3<T>(t.p[1]), p2 = v3<T>(t.p[2]);
	const triangle<T> tri{ p0, p1, p2 };
	// a plane that grazes a corner of the box is within rounding of both answers
	bool graze = false;
	if (!exact)
	{
		bool unused = false;
		iv q[8];
		corners(b, 1, q);
		test(cross(t.p[1] - t.p[0], t.p[2] - t.p[1]), t.p, q, unused, graze);
	}
	CHECK(bool(bb.intersects(tri) == want) | graze);
	CHECK(bool(bounding_box<T>::intersects(bb, tri) == want) | graze);
	CHECK(bool(bounding_box<T>::intersects(bb, p0, p1, p2) == want) | graze);
	CHECK(bool(tri.intersects(bb) == want) | graze);
	CHECK(bool(triangle<T>::intersects(tri, bb) == want) | graze);
	CHECK(bool(triangle<T>::intersects(p0, p1, p2, bb) == want) | graze);
	CHECK(bool(bb.collision_tester()(tri) == want) | graze);
	CHECK(bool(bb.collision_tester()(tri.collision_tester()) == want) | graze);
	if (want)
		sym_reach("meet");
	else if (!v.face_a & !v.face_b)
		sym_reach("apart only along a pair of edges");
	else if (!v.face_b)
		sym_reach("apart only along the plane of the triangle");
	else
		sym_reach("apart");
}
ENTRY(G04, flat_triangle_box_float) { triangle_box<float>(0); }
ENTRY(G04, upright_triangle_box_float) { triangle_box<float>(1); }
ENTRY(G04, corner_triangle_box_float) { triangle_box<float>(2); }
ENTRY(G04, needle_triangle_box_float) { triangle_box<float>(3); }
ENTRY(G04, oblique_triangle_box_float) { triangle_box<float>(4); }
ENTRY(G04, flat_triangle_box_double) { triangle_box<double>(0); }
ENTRY(G04, oblique_triangle_box_double) { triangle_box<double>(4); }

template <typename T>
static void triangle_turned_box(int turned)
{
	itri t = tris[pick("shape", 0, 5)];
	const iv at = somewhere();
	for (iv& p : t.p)
		p = p + at;
	const ibox b{ { 1, 0, -1 }, { 2, 1, 3 }, turns[turned] };
	const verdict v = meets(t, b);
	const bool want = !v.apart(), skip = v.touch;
	const auto bb = box<T>(b);
	const triangle<T> tri{ v3<T>(t.p[0]), v3<T>(t.p[1]), v3<T>(t.p[2]) };
	CHECK(bool(bb.intersects(tri) == want) | skip);
	CHECK(bool(oriented_bounding_box<T>::intersects(bb, tri) == want) | skip);
	CHECK(bool(oriented_bounding_box<T>::intersects(bb, tri.points[0], tri.points[1], tri.points[2]) == want) | skip);
	CHECK(bool(tri.intersects(bb) == want) | skip);
	CHECK(bool(triangle<T>::intersects(tri, bb) == want) | skip);
	CHECK(bool(triangle<T>::intersects(tri.points[0], tri.points[1], tri.points[2], bb) == want) | skip);
	if (want)
		sym_reach("meet");
	else
		sym_reach("apart");
}
ENTRY(G04, triangle_permuted_box_float) { triangle_turned_box<float>(1); }
ENTRY(G04, triangle_turned_box_float) { triangle_turned_box<float>(3); }
ENTRY(G04, triangle_tilted_box_float) { triangle_turned_box<float>(4); }
ENTRY(G04, triangle_tilted_box_double) { triangle_turned_box<double>(5); }

// ---------------------------------------------------------------- two boxes
static verdict meets(const ibox& a, const ibox& b, int scale)
{
	verdict v;
	iv p[8], q[8];
	corners(a, scale, p);
	corners(b, scale, q);
	for (const iv& x : a.t.axes)
		test(x, p, q, v.face_a, v.touch);
	for (const iv& x : b.t.axes)
		test(x, p, q, v.face_b, v.touch);
	for (const iv& x : a.t.axes)
		for (const iv& y : b.t.axes)
			test(cross(x, y), p, q, v.edge, v.touch);
	return v;
}
// rods and bricks that miss each other in every way
static const iv sizes[][2] = { { { 5, 1, 1 }, { 1, 5, 1 } }, { { 3, 1, 2 }, { 1, 4, 1 } }, { { 5, 1, 5 }, { 6, 1, 1 } } };
template <typename T>
static void straight_and_turned(int turned)
{
	const auto& s = sizes[pick("sizes", 0, 3)];
	const ibox a{ { 0, 0, 0 }, s[0], turns[0] }, b{ somewhere(), s[1], turns[turned] };
	const verdict v = meets(a, b, b.t.scale);
	const bool want = !v.apart(), skip = v.touch & (b.t.scale > 1);
	const bounding_box<T> x{ v3<T>(a.c), v3<T>(a.e) };
	const auto y = box<T>(b);
	CHECK(bool(x.intersects(y) == want) | skip);
	CHECK(bool(bounding_box<T>::intersects(x, y) == want) | skip);
	CHECK(bool(y.intersects(x) == want) | skip);
	CHECK(bool(oriented_bounding_box<T>::intersects(y, x) == want) | skip);
	if (want)
		sym_reach("meet");
	else if (!v.face_a & !v.face_b)
		sym_reach("apart only along a pair of edges");
	else if (!v.face_a)
		sym_reach("apart only along the turned box");
	else
		sym_reach("apart");
}
ENTRY(G04, straight_permuted_float) { straight_and_turned<float>(2); }
ENTRY(G04, straight_turned_float) { straight_and_turned<float>(3); }
//@ {"reach": ["apart only along a pair of edges"]}
ENTRY(G04, straight_tilted_float) { straight_and_turned<float>(4); }
//@ {"reach": ["apart only along a pair of edges"]}
ENTRY(G04, straight_tilted_double) { straight_and_turned<double>(5); }

template <typename T>
static void two_turned(int one, int two, int scale)
{
	const auto& s = sizes[pick("sizes", 0, 3)];
	const ibox a{ { 0, 0, 0 }, s[0], turns[one] }, b{ somewhere(), s[1], turns[two] };
	const verdict v = meets(a, b, scale);
	const bool want = !v.apart(), skip = v.touch & (scale > 1);
	const auto x = box<T>(a), y = box<T>(b);
	CHECK(bool(x.intersects(y) == want) | skip);
	CHECK(bool(y.intersects(x) == want) | skip);
	CHECK(bool(oriented_bounding_box<T>::intersects(x, y) == want) | skip);
	if (v.edge & !v.face_a & !v.face_b)
		sym_reach("apart only along a pair of edges");
	CHECK(want | v.apart());
	if (want)
		sym_reach("meet");
}
ENTRY(G04, permuted_permuted_float) { two_turned<float>(1, 2, 1); }
ENTRY(G04, turned_permuted_float) { two_turned<float>(3, 1, 5); }
//@ {"reach": ["apart only along a pair of edges"]}
ENTRY(G04, tilted_turned_float) { two_turned<float>(5, 3, 25); }
//@ {"reach": ["apart only along a pair of edges"]}
ENTRY(G04, tilted_tilted_double) { two_turned<double>(5, 4, 25); }

// ---------------------------------------------------------------- points, segments, spheres and boxes around a turned box
template <typename T>
static void turned_points(int turned)
{
	const iv p = somewhere(), q = p + iv{ 2, 1, -1 }, r = p + iv{ -1, 2, 0 };
	const ibox b{ { 1, 0, -1 }, { 4, 2, 5 }, turns[turned] };
	auto bb = box<T>(b);
	bool edge = false;
	const auto in = [&](iv x)
	{
		bool held = true;
		for (int i = 0; i < 3; i++)
		{
			const int d = dot(b.t.axes[i], x - b.c), m = d < 0 ? -d : d, e = b.t.scale * b.e[i];
			held &= m <= e;
			edge |= bool(m == e) & (b.t.scale > 1);
		}
		return held;
	};
	const bool hp = in(p), hq = in(q), hr = in(r);
	const vec<T> P[3] = { v3<T>(p), v3<T>(q), v3<T>(r) };
	CHECK(bool(bb.contains(P[0]) == hp) | edge);
	CHECK(bool(oriented_bounding_box<T>::contains(bb, P[1]) == hq) | edge);
	CHECK(bool(oriented_bounding_box<T>::contains(bb, P[0], P[1]) == (hp & hq)) | edge);
	CHECK(bool(bb.contains(line_segment<T>{ P[0], P[1] }) == (hp & hq)) | edge);
	CHECK(bool(bb.contains(P, P + 3) == (hp & hq & hr)) | edge);
	CHECK(bool(bb.contains(P, P + 2) == (hp & hq)) | edge);
	CHECK(!bb.contains(P, P));
	CHECK(bool(oriented_bounding_box<T>::contains(bb, P[0], P[1], P[2]) == (hp & hq & hr)) | edge);
	CHECK(bool(bb.contains(triangle<T>{ P[0], P[1], P[2] }) == (hp & hq & hr)) | edge);
	if (hp & hq & hr)
		sym_reach("all");
	else if (hp)
		sym_reach("some");
	else
		sym_reach("outside");
}
ENTRY(G04, permuted_points_float) { turned_points<float>(1); }
ENTRY(G04, permuted_points_double) { turned_points<double>(2); }
ENTRY(G04, turned_points_float) { turned_points<float>(3); }
ENTRY(G04, tilted_points_float) { turned_points<float>(4); }
ENTRY(G04, tilted_points_double) { turned_points<double>(5); }

template <typename T>
static void turned_sphere(int turned)
{
	const iv p = somewhere();
	const ibox b{ { 1, 0, -1 }, { 2, 1, 3 }, turns[turned] };
	const int rad = pick("r", 1, 4);
	const auto bb = box<T>(b);
	const bounding_sphere<T> s{ v3<T>(p), real<T>(rad) };
	int d2 = 0;
	iv local{ 0, 0, 0 };
	for (int i = 0; i < 3; i++)
	{
		const int d = dot(b.t.axes[i], p - b.c), e = b.t.scale * b.e[i], c = d < -e ? -e : e < d ? e : d;
		d2 += (d - c) * (d - c);
		local = local + c * b.t.axes[i];
	}
	const int r2 = rad * rad * b.t.scale * b.t.scale;
	const bool want = d2 <= r2, skip = bool(d2 == r2) & (b.t.scale > 1);
	CHECK(bool(bb.intersects(s) == want) | skip);
	CHECK(bool(oriented_bounding_box<T>::intersects(bb, s) == want) | skip);
	CHECK(bool(s.intersects(bb) == want) | skip);
	CHECK(bool(bounding_sphere<T>::intersects(s, bb) == want) | skip);
	const vec<T> near = bb.closest_point(v3<T>(p));
	if (b.t.scale == 1)
		CHECK(equal(near, v3<T>(b.c + local)));
	sym_reach(want ? "meet" : "apart");
}
ENTRY(G04, permuted_sphere_float) { turned_sphere<float>(1); }
ENTRY(G04, permuted_sphere_double) { turned_sphere<double>(2); }
ENTRY(G04, turned_sphere_float) { turned_sphere<float>(3); }
ENTRY(G04, tilted_sphere_double) { turned_sphere<double>(4); }

// a box and its corners, what is around it, and what moving and scaling it does
template <typename T>
static void turned_shape()
{
	const turn& t = turns[pick("turn", 0, 3)];
	const iv cen{ whole_int("c", 4), 2 * whole_int("c", 2), 3 * whole_int("c", 2) };
	const iv ext{ pick("e", 1, 2), pick("e", 2, 2), pick("e", 1, 3) };
	const ibox b{ cen, ext, t };
	const auto bb = box<T>(b);
	iv p[8];
	corners(b, 1, p);
	static constexpr box_corner names[] = { box_corner::min, box_corner::x, box_corner::y, box_corner::xy, box_corner::z, box_corner::xz, box_corner::yz, box_corner::max };
	for (int i = 0; i < 8; i++)
	{
		CHECK(equal(bb.corner(names[i]), v3<T>(p[i])));
		CHECK(equal(oriented_bounding_box<T>::corner(bb, names[i]), v3<T>(p[i])));
	}
	CHECK(equal(bb.min_corner(), v3<T>(p[0])) & equal(bb.max_corner(), v3<T>(p[7])));
	CHECK(equal(bb.template corner<box_corner::x>(), v3<T>(p[1])) & equal(bb.template corner<box_corner::y>(), v3<T>(p[2])));
	CHECK(equal(bb.template corner<box_corner::xy>(), v3<T>(p[3])) & equal(bb.template corner<box_corner::z>(), v3<T>(p[4])));
	CHECK(equal(bb.template corner<box_corner::xz>(), v3<T>(p[5])) & equal(bb.template corner<box_corner::yz>(), v3<T>(p[6])));

	// the smallest straight box around it
	const auto around = bounding_box<T>::from_obb(bb);
	const bounding_box<T> same{ bb };
	const span x = along(iv{ 1, 0, 0 }, p), y = along(iv{ 0, 1, 0 }, p), z = along(iv{ 0, 0, 1 }, p);
	CHECK(equal(around.min_corner(), v3<T>(iv{ x.lo, y.lo, z.lo })));
	CHECK(equal(around.max_corner(), v3<T>(iv{ x.hi, y.hi, z.hi })));
	CHECK(equal(same.center, around.center) & equal(same.extents, around.extents));
	CHECK(around.contains(bb));
	const bounding_box<T> other{ vec<T>{ T(1), T(-1), T(0) }, vec<T>{ T(5), T(6), T(4) } };
	const bool inside = bool(x.lo >= -4) & bool(x.hi <= 6) & bool(y.lo >= -7) & bool(y.hi <= 5) & bool(z.lo >= -4) & bool(z.hi <= 4);
	CHECK(other.contains(bb) == inside);
	CHECK(bounding_box<T>::contains(other, bb) == inside);
	if (inside)
		sym_reach("inside");
	else
		sym_reach("not inside");

	CHECK(bb.width() == real<T>(2 * ext.x));
	CHECK(bb.height() == real<T>(2 * ext.y));
	CHECK(bb.depth() == real<T>(2 * ext.z));
	CHECK(bb.volume() == real<T>(8 * ext.x * ext.y * ext.z));
	CHECK(bb.mass(T(3)) == real<T>(24 * ext.x * ext.y * ext.z));
	CHECK(!bb.degenerate() & !bb.empty() & !bb.zero() & !bb.infinity_or_nan());

	const vec<T> by{ num<T>("by", 3), num<T>("by", 3), T(2) };
	const auto moved = oriented_bounding_box<T>::translate(bb, by);
	CHECK(equal(moved.center, bb.center + by) & equal(moved.extents, bb.extents) & bool(moved.axes == bb.axes));
	auto again = bb;
	CHECK(&again.translate(by) == &again);
	CHECK(bool(again == moved) & !bool(again != moved));
	const auto big = oriented_bounding_box<T>::scale(bb, by);
	CHECK(equal(big.center, bb.center) & equal(big.extents, vec<T>{ bb.extents.x * by.x, bb.extents.y * by.y, bb.extents.z * by.z }) & bool(big.axes == bb.axes));
	again = bb;
	CHECK(&again.scale(by) == &again);
	CHECK(again == big);
	CHECK((again == bb) == (bool(by.x == T(1)) & bool(by.y == T(1)) & bool(by.z == T(1))));
	// a box is degenerate when any side is missing, empty when all are
	CHECK(big.degenerate() == (bool(by.x <= T(0)) | bool(by.y <= T(0))));
}
ENTRY(G04, turned_shape_float) { turned_shape<float>(); }
ENTRY(G04, turned_shape_double) { turned_shape<double>(); }
