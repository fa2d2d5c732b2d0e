//@file {"native_std": "c++20", "flags": ["-DNDEBUG"]}
// G05/G03 in optimised builds: results delivered through output parameters arrive, and what was there before does not stay.
#include "fp.h"
#include <muu/core.h>
#include <muu/math.h>
#include <muu/vector.h>
#include <muu/line_segment.h>
#include <muu/triangle.h>

using muu::line_segment;
using muu::triangle;
template <typename T>
using vec = muu::vector<T, 3>;

template <typename T>
static void outputs()
{
	const T k = static_cast<T>(static_cast<float>(1u << sym_pick("k", 0, 3)));
	const vec<T> a{ T(1), whole<T>("y", 4), T(-2) };
	const line_segment<T> s{ a, vec<T>{ a.x, a.y + k, a.z } };
	T len = T(-1), dist = T(-1), d2 = T(-1);
	const auto d = s.direction(len);
	CHECK(len == k);
	CHECK(d.y == T(1));
	const auto e = vec<T>::direction(s[0], s[1], dist);
	CHECK(dist == k);
	CHECK(e.y == T(1));
	const auto f = vec<T>::normalize(vec<T>{ T(0), T(0), -k }, d2);
	CHECK(d2 == k);
	CHECK(f.z == T(-1));
	const auto w = line_segment<T>::extend(s, T(1));
	CHECK(w[1].y == a.y + k + T(1));
	CHECK(s.closest_point(vec<T>{ T(9), a.y + T(0.5f), T(0) }).y == a.y + T(0.5f));
}
ENTRY(G05, outputs_float) { outputs<float>(); }
ENTRY(G05, outputs_double) { outputs<double>(); }
ENTRY(G05, intersection_segment)
{
	// the second triangle stands on the first one's plane and moves sideways
	const double y = whole<double>("y", 3);
	const triangle<double> t{ 0, 0, 0, 8, 0, 0, 0, 8, 0 }, u{ 1, y, -1, 1, y, 1, 1, y + 2, 0 };
	std::optional<line_segment<double>> seg{ line_segment<double>{ 5, 5, 5, 6, 6, 6 } };
	const bool got = t.intersects(u, seg);
	const double lo = y > 0 ? y : 0, hi = y + 2 < 7 ? y + 2 : 7;
	CHECK(got == (lo <= hi));
	CHECK(seg.has_value() == got);
	if (seg)
	{
		const auto &p = (*seg)[0], &q = (*seg)[1];
		CHECK((p.x == 1) & (q.x == 1) & (p.z == 0) & (q.z == 0));
		CHECK(((p.y == lo) & (q.y == hi)) | ((p.y == hi) & (q.y == lo)));
	}
	sym_reach(got ? "meet" : "apart");
}
