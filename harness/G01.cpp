//@file {"native_std": "c++20"}
// G01: axis-aligned bounding boxes as sets of points. Coordinates are (even) whole numbers, so the arithmetic is exact.
#include "fp.h"
#include <muu/core.h>
#include <muu/math.h>
#include <muu/half.h>
#include <muu/span.h>
#include <muu/vector.h>
#include <muu/matrix.h>
#include <muu/line_segment.h>
#include <muu/triangle.h>
#include <muu/plane.h>
#include <muu/bounding_box.h>

using muu::bounding_box;
using muu::box_corner;
template <typename T>
using vec = muu::vector<T, 3>;

template <typename T>
static vec<T> point(const char* name, unsigned bits = 6)
{
	return vec<T>{ static_cast<T>(whole<float>(name, bits) * 2), static_cast<T>(whole<float>(name, bits) * 2), static_cast<T>(whole<float>(name, bits) * 2) };
}
template <typename T>
static vec<T> size(const char* name, unsigned bits = 5)
{
	return vec<T>{ static_cast<T>(whole_positive<float>(name, bits) * 2), static_cast<T>(whole_positive<float>(name, bits) * 2),
				   static_cast<T>(whole_positive<float>(name, bits) * 2) };
}
template <typename T>
static bool equal(const vec<T>& a, const vec<T>& b)
{
	return bool(a.x == b.x) & bool(a.y == b.y) & bool(a.z == b.z);
}
template <typename T>
static bool le(const vec<T>& a, const vec<T>& b)
{
	return bool(a.x <= b.x) & bool(a.y <= b.y) & bool(a.z <= b.z);
}
// the reference set of points: everything between two corners
template <typename T>
struct set
{
	vec<T> lo, hi;
	bool has(const vec<T>& p) const { return le(lo, p) & le(p, hi); }
	bool meets(const set& o) const { return le(lo, o.hi) & le(o.lo, hi); }
	bool holds(const set& o) const { return le(lo, o.lo) & le(o.hi, hi); }
};
template <typename T>
static set<T> of(const bounding_box<T>& b)
{
	return { vec<T>{ static_cast<T>(b.center.x - b.extents.x), static_cast<T>(b.center.y - b.extents.y), static_cast<T>(b.center.z - b.extents.z) },
			 vec<T>{ static_cast<T>(b.center.x + b.extents.x), static_cast<T>(b.center.y + b.extents.y), static_cast<T>(b.center.z + b.extents.z) } };
}
template <typename T>
static bounding_box<T> any_box(const char* c, const char* e, unsigned bits = 6)
{
	return bounding_box<T>{ point<T>(c, bits), size<T>(e, bits - 1) };
}
template <typename T>
static bool is(const bounding_box<T>& b, const set<T>& s)
{
	const auto o = of(b);
	return equal(o.lo, s.lo) & equal(o.hi, s.hi);
}
template <typename T>
static T least(T a, T b) { return b < a ? b : a; }
template <typename T>
static T most(T a, T b) { return a < b ? b : a; }
template <typename T>
static set<T> grow(const set<T>& s, const vec<T>& p)
{
	return { vec<T>{ least(s.lo.x, p.x), least(s.lo.y, p.y), least(s.lo.z, p.z) }, vec<T>{ most(s.hi.x, p.x), most(s.hi.y, p.y), most(s.hi.z, p.z) } };
}

template <typename T>
static void contains_point()
{
	const auto b = any_box<T>("c", "e");
	const auto p = point<T>("p");
	const bool in = of(b).has(p);
	CHECK(b.contains(p) == in);
	CHECK(bounding_box<T>::contains(b, p) == in);
	CHECK(b.collision_tester()(p) == in);
	sym_reach(in ? "inside" : "outside");
}
ENTRY(G01, contains_point_float) { contains_point<float>(); }
ENTRY(G01, contains_point_double) { contains_point<double>(); }
ENTRY(G01, contains_point_half) { contains_point<muu::half>(); }

// any values at all: between the rounded corners' distance from the center
ENTRY(G01, contains_any_float)
{
	const auto f = [](const char* n) { return sym<float>(n); };
	const float c = f("c"), e = f("e"), p = f("p");
	const unsigned axis = static_cast<unsigned>(sym_pick("axis", 0, 2));
	vec<float> cs{ 0.f }, es{ 0.f }, ps{ 0.f };
	cs[axis] = c, es[axis] = e, ps[axis] = p;
	const float d = p - c;
	CHECK(bounding_box<float>(cs, es).contains(ps) == ((d <= e) & (-d <= e)));
}

template <typename T>
static void contains_many()
{
	auto b = any_box<T>("c", "e");
	const vec<T> p[3] = { point<T>("p"), point<T>("q"), point<T>("r") };
	const auto s = of(b);
	const bool a = s.has(p[0]), c = s.has(p[1]), d = s.has(p[2]);
	CHECK(b.contains(p, p + 3) == (a & c & d));
	CHECK(b.contains(p, p + 1) == a);
	CHECK(!b.contains(p, p));
	CHECK(bounding_box<T>::contains(b, p[0], p[1]) == (a & c));
	CHECK(b.contains(muu::line_segment<T>{ p[0], p[1] }) == (a & c));
	CHECK(bounding_box<T>::contains(b, p[0], p[1], p[2]) == (a & c & d));
	CHECK(b.contains(muu::triangle<T>{ p[0], p[1], p[2] }) == (a & c & d));
}
ENTRY(G01, contains_many_float) { contains_many<float>(); }
ENTRY(G01, contains_many_double) { contains_many<double>(); }

template <typename T>
static void corners()
{
	const auto b = any_box<T>("c", "e");
	const auto s = of(b);
	const auto at = [&](unsigned x, unsigned y, unsigned z) { return vec<T>{ x ? s.hi.x : s.lo.x, y ? s.hi.y : s.lo.y, z ? s.hi.z : s.lo.z }; };
	CHECK(equal(b.min_corner(), s.lo));
	CHECK(equal(b.max_corner(), s.hi));
	CHECK(equal(bounding_box<T>::min_corner(b), s.lo));
	CHECK(equal(bounding_box<T>::max_corner(b), s.hi));
	CHECK(equal(b.template corner<box_corner::min>(), at(0, 0, 0)));
	CHECK(equal(b.template corner<box_corner::x>(), at(1, 0, 0)));
	CHECK(equal(b.template corner<box_corner::y>(), at(0, 1, 0)));
	CHECK(equal(b.template corner<box_corner::z>(), at(0, 0, 1)));
	CHECK(equal(b.template corner<box_corner::xy>(), at(1, 1, 0)));
	CHECK(equal(b.template corner<box_corner::xz>(), at(1, 0, 1)));
	CHECK(equal(b.template corner<box_corner::yz>(), at(0, 1, 1)));
	CHECK(equal(b.template corner<box_corner::max>(), at(1, 1, 1)));
	const std::pair<box_corner, vec<T>> all[] = { { box_corner::min, at(0, 0, 0) }, { box_corner::x, at(1, 0, 0) },	{ box_corner::y, at(0, 1, 0) },
												  { box_corner::z, at(0, 0, 1) },	{ box_corner::xy, at(1, 1, 0) }, { box_corner::xz, at(1, 0, 1) },
												  { box_corner::yz, at(0, 1, 1) },	{ box_corner::max, at(1, 1, 1) } };
	for (const auto& [w, p] : all)
	{
		CHECK(equal(b.corner(w), p));
		CHECK(equal(bounding_box<T>::corner(b, w), p));
	}
}
ENTRY(G01, corners_float) { corners<float>(); }
ENTRY(G01, corners_double) { corners<double>(); }

template <typename T>
static void from_points()
{
	const vec<T> p[3] = { point<T>("p"), point<T>("q"), point<T>("r") };
	const set<T> s1{ p[0], p[0] };
	const auto s2 = grow(s1, p[1]);
	const auto s3 = grow(s2, p[2]);
	CHECK(is(bounding_box<T>::from_points(p[0], p[1]), s2));
	CHECK(is(bounding_box<T>::from_points(p[0], p[1], p[2]), s3));
	CHECK(is(bounding_box<T>::from_points(p), s3));
	CHECK(is(bounding_box<T>::from_points(p, p + 2), s2));
	CHECK(is(bounding_box<T>::from_points(p, p + 1), s1));
	CHECK(is(bounding_box<T>(p), s3));
	CHECK(is(bounding_box<T>(p, p + 3), s3));
	CHECK(is(bounding_box<T>(p, size_t{ 2 }), s2));
	CHECK(is(bounding_box<T>(muu::const_span<vec<T>>{ p, 3 }), s3));
}
ENTRY(G01, from_points_float) { from_points<float>(); }
ENTRY(G01, from_points_double) { from_points<double>(); }

template <typename T>
static void from_min_max()
{
	const auto a = point<T>("min");
	const auto b = a + size<T>("span", 6);
	const auto r = bounding_box<T>::from_min_max(a, b);
	CHECK(is(r, set<T>{ a, b }));
	CHECK(equal(r.min_corner(), a));
	CHECK(equal(r.max_corner(), b));
}
ENTRY(G01, from_min_max_float) { from_min_max<float>(); }
ENTRY(G01, from_min_max_double) { from_min_max<double>(); }
ENTRY(G01, from_min_max_half) { from_min_max<muu::half>(); }

template <typename T>
static void append()
{
	const auto b = any_box<T>("c", "e");
	const vec<T> p[3] = { point<T>("p"), point<T>("q"), point<T>("r") };
	const auto s  = of(b);
	const auto s1 = grow(s, p[0]);
	const auto s2 = grow(s1, p[1]);
	const auto s3 = grow(s2, p[2]);
	const auto with = [&](auto&& f) { auto t = b; auto& r = f(t); CHECK(&r == &t); return t; };
	CHECK(is(with([&](auto& t) -> auto& { return t.append(p[0]); }), s1));
	CHECK(is(with([&](auto& t) -> auto& { return t.append(p[0], p[1]); }), s2));
	CHECK(is(with([&](auto& t) -> auto& { return t.append(p[0], p[1], p[2]); }), s3));
	CHECK(is(with([&](auto& t) -> auto& { return t.append(muu::line_segment<T>{ p[0], p[1] }); }), s2));
	CHECK(is(with([&](auto& t) -> auto& { return t.append(muu::triangle<T>{ p[0], p[1], p[2] }); }), s3));
}
ENTRY(G01, append_float) { append<float>(); }
ENTRY(G01, append_double) { append<double>(); }

template <typename T>
static void append_box()
{
	auto b = any_box<T>("c", "e");
	const auto o = any_box<T>("c2", "e2");
	const auto s = grow(grow(of(b), of(o).lo), of(o).hi);
	b.append(o);
	CHECK(is(b, s));
}
ENTRY(G01, append_box_float) { append_box<float>(); }
ENTRY(G01, append_box_double) { append_box<double>(); }
ENTRY(G01, append_box_half) { append_box<muu::half>(); }

template <typename T>
static void boxes()
{
	auto a = any_box<T>("c", "e");
	auto b = any_box<T>("c2", "e2");
	const bool meet = of(a).meets(of(b)), hold = of(a).holds(of(b));
	CHECK(a.intersects(b) == meet);
	CHECK(b.intersects(a) == meet);
	CHECK(bounding_box<T>::intersects(a, b) == meet);
	CHECK(a.collision_tester()(b) == meet);
	CHECK(b.collision_tester()(a.collision_tester()) == meet);
	CHECK(a.contains(b) == hold);
	CHECK(bounding_box<T>::contains(a, b) == hold);
	sym_reach(meet ? "meet" : "apart");
	if (hold)
		sym_reach("contained");
}
ENTRY(G01, boxes_float) { boxes<float>(); }
ENTRY(G01, boxes_double) { boxes<double>(); }

// the closest point is in the box, is the point itself when it is in the box, and no point of the box is closer
template <typename T>
static void closest()
{
	const auto b = any_box<T>("c", "e");
	const auto p = point<T>("p");
	const auto s = of(b);
	const auto r = b.closest_point(p);
	const auto clamp = [](T v, T lo, T hi) { return v < lo ? lo : hi < v ? hi : v; };
	CHECK(s.has(r));
	CHECK(equal(r, vec<T>{ clamp(p.x, s.lo.x, s.hi.x), clamp(p.y, s.lo.y, s.hi.y), clamp(p.z, s.lo.z, s.hi.z) }));
}
ENTRY(G01, closest_float) { closest<float>(); }
ENTRY(G01, closest_double) { closest<double>(); }

template <typename T>
static void moves()
{
	const auto b = any_box<T>("c", "e");
	const auto o = point<T>("o");
	const auto f = size<T>("f", 4);
	const auto s = of(b);
	auto t = b;
	CHECK(is(bounding_box<T>::translate(b, o), set<T>{ s.lo + o, s.hi + o }));
	CHECK(&t.translate(o) == &t);
	CHECK(is(t, set<T>{ s.lo + o, s.hi + o }));
	t = b;
	CHECK(&t.scale(f) == &t);
	const auto u = bounding_box<T>::scale(b, f);
	CHECK(equal(u.center, b.center));
	CHECK(equal(t.center, b.center));
	for (size_t i = 0; i < 3; i++)
	{
		CHECK(t.extents[i] == b.extents[i] * f[i]);
		CHECK(u.extents[i] == b.extents[i] * f[i]);
	}
}
ENTRY(G01, moves_float) { moves<float>(); }
ENTRY(G01, moves_double) { moves<double>(); }

template <typename T>
static void measures()
{
	auto b = any_box<T>("c", "e");
	const T x = b.extents.x, y = b.extents.y, z = b.extents.z;
	CHECK(b.width() == x + x);
	CHECK(b.height() == y + y);
	CHECK(b.depth() == z + z);
	const T lo = least(x, least(y, z)), hi = most(x, most(y, z));
	const auto& k = b;
	CHECK(b.shortest_extent() == lo);
	CHECK(b.longest_extent() == hi);
	CHECK(k.shortest_extent() == lo);
	CHECK(k.longest_extent() == hi);
	CHECK(b.shortest_side() == lo + lo);
	CHECK(b.longest_side() == hi + hi);
	CHECK(b.degenerate() == ((x == 0) | (y == 0) | (z == 0)));
	CHECK(bounding_box<T>::degenerate(b) == b.degenerate());
	CHECK(muu::degenerate(b) == b.degenerate());
	// the references really point into the box
	b.shortest_extent() = T(-7);
	CHECK((b.extents.x == T(-7)) | (b.extents.y == T(-7)) | (b.extents.z == T(-7)));
	CHECK(b.degenerate());
}
ENTRY(G01, measures_float) { measures<float>(); }
ENTRY(G01, measures_double) { measures<double>(); }

template <typename T>
static void equality()
{
	const auto a = any_box<T>("c", "e", 3), b = any_box<T>("c2", "e2", 3);
	const bool e = equal(a.center, b.center) & equal(a.extents, b.extents);
	CHECK((a == b) == e);
	CHECK((a != b) == !e);
	const bool flat = (a.extents.x == 0) & (a.extents.y == 0) & (a.extents.z == 0), at0 = (a.center.x == 0) & (a.center.y == 0) & (a.center.z == 0);
	CHECK(a.zero() == (flat & at0));
	CHECK(bounding_box<T>::zero(a) == (flat & at0));
	CHECK(muu::infinity_or_nan(a) == false);
	// the tolerance is far below the distance between whole numbers
	CHECK(a.approx_equal(b) == e);
	CHECK(a.approx_zero() == (flat & at0));
}
ENTRY(G01, equality_float) { equality<float>(); }
ENTRY(G01, equality_double) { equality<double>(); }
ENTRY(G01, not_finite_float)
{
	bounding_box<float> b{ vec<float>{ 1.f, 2.f, 3.f }, vec<float>{ 4.f, 5.f, 6.f } };
	const unsigned i = static_cast<unsigned>(sym_pick("which", 0, 5));
	const float v	 = sym<float>("v");
	b.data()[i]		 = v;
	CHECK(b.infinity_or_nan() == !(v - v == 0));
}

// the whole numbers -3, -1, 0, 1, 2: products with these stay linear
static float coefficient(const char* name, unsigned count = 5)
{
	static constexpr float v[] = { -1, 0, 2, -3, 1 };
	return v[sym_pick(name, 0, count - 1)];
}

// either flat along some axis (or all of them), or not
template <typename T>
static bounding_box<T> solid_or_flat()
{
	auto b = any_box<T>("c", "e");
	const unsigned flat = static_cast<unsigned>(sym_pick("flat", 0, 3));
	for (size_t i = 0; i < 3; i++)
		b.extents[i] = flat == 1 || flat == i + 2 ? T(0) : b.extents[i] + T(2);
	return b;
}

// a transformed box is the smallest box around the transformed corners (one component at a time; the other rows are fixed)
template <typename T>
static void transforms()
{
	const auto b	 = solid_or_flat<T>();
	const size_t row = static_cast<size_t>(sym_pick("row", 0, 2));
	muu::matrix<T, 4, 4> m{ T(1), T(2), T(0), T(5), T(-1), T(0), T(3), T(-6), T(2), T(-2), T(1), T(7), T(0), T(0), T(0), T(1) };
	for (size_t i = 0; i < 3; i++)
		m(row, i) = static_cast<T>(coefficient("m"));
	auto t		 = b;
	const auto r = bounding_box<T>::transform(b, m);
	t.transform(m);
	CHECK(t == r);
	const auto s = of(b), o = of(r);
	// the corner that is lowest/highest along the row
	T lo = m(row, 3), hi = lo;
	for (size_t i = 0; i < 3; i++)
	{
		const T p = m(row, i) * s.lo[i], q = m(row, i) * s.hi[i];
		lo += least(p, q);
		hi += most(p, q);
	}
	CHECK(o.lo[row] == lo);
	CHECK(o.hi[row] == hi);
}
ENTRY(G01, transforms_float) { transforms<float>(); }
ENTRY(G01, transforms_double) { transforms<double>(); }

// a plane meets a box when there are corners on both sides
template <typename T>
static void with_plane()
{
	const auto b = solid_or_flat<T>();
	const vec<T> n{ static_cast<T>(coefficient("nx")), static_cast<T>(coefficient("ny")), static_cast<T>(coefficient("nz", 3)) };
	const T d	 = static_cast<T>(whole<float>("d", 8));
	const muu::plane<T> p{ n, d };
	const auto s = of(b);
	T lo = d, hi = d;
	for (size_t i = 0; i < 3; i++)
	{
		const T q = n[i] * s.lo[i], r = n[i] * s.hi[i];
		lo += least(q, r);
		hi += most(q, r);
	}
	const bool meet = (lo <= 0) & (hi >= 0);
	CHECK(b.intersects(p) == meet);
	CHECK(p.intersects(b) == meet);
	CHECK(bounding_box<T>::intersects(b, p) == meet);
	sym_reach(meet ? "meet" : "apart");
}
ENTRY(G01, with_plane_float) { with_plane<float>(); }
ENTRY(G01, with_plane_double) { with_plane<double>(); }

// a segment meets a box when some part of it is between the slabs of all three axes: the stretches of the parameter are compared as fractions
static bool slabs(const vec<float>& a, const vec<float>& b, const set<float>& s)
{
	int num_in[4], num_out[4], den[4];
	bool ok = true;
	for (size_t i = 0; i < 3; i++)
	{
		const int p = static_cast<int>(a[i]), d = static_cast<int>(b[i]) - p, lo = static_cast<int>(s.lo[i]) - p, hi = static_cast<int>(s.hi[i]) - p;
		// d == 0: inside throughout, or never
		ok &= (d != 0) | bool((lo <= 0) & (hi >= 0));
		den[i]	   = d == 0 ? 1 : d < 0 ? -d : d;
		num_in[i]  = d == 0 ? 0 : d < 0 ? -hi : lo;
		num_out[i] = d == 0 ? 1 : d < 0 ? -lo : hi;
	}
	num_in[3] = 0, num_out[3] = 1, den[3] = 1;
	for (size_t i = 0; i < 4; i++)
		for (size_t j = 0; j < 4; j++)
			ok &= bool(num_in[i] * den[j] <= num_out[j] * den[i]);
	return ok;
}
template <typename T>
static void with_segment(unsigned bits)
{
	const bounding_box<float> b{ vec<float>{ 2.f, -4.f, 0.f }, size<float>("e", bits) };
	const auto p = point<float>("p", bits);
	const vec<float> q{ p.x + coefficient("dx") * 4, p.y + coefficient("dy", 3) * 4, p.z + coefficient("dz", 3) * 4 };
	const bool meet = slabs(p, q, of(b));
	const muu::line_segment<T> seg{ vec<T>{ p }, vec<T>{ q } };
	const bounding_box<T> bb{ b };
	CHECK(bb.intersects(seg) == meet);
	CHECK(bounding_box<T>::intersects(bb, seg.points[0], seg.points[1]) == meet);
	CHECK(seg.intersects(bb) == meet);
	sym_reach(meet ? "meet" : "apart");
}
ENTRY(G01, with_segment_float) { with_segment<float>(4); }
ENTRY(G01, with_segment_double) { with_segment<double>(4); }
