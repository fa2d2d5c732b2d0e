//@file {"native_std": "c++20"}
// V06: perspective projection matrices. The tangent of half the field of view is a stand-in (a power of two), and the clip planes are a power of two
// apart, so that every division is exact.
#include "fp.h"
#include <muu/core.h>
#include <muu/math.h>
#include <muu/half.h>
#include <muu/matrix.h>

using muu::math_apis;
using muu::matrix;
using muu::vector;

namespace trig
{
	static double angle, tangent;
	static double tan(double x)
	{
		if (x == angle)
			return tangent;
		if (x == -angle)
			return -tangent;
		sym_fail("tangent of an angle that is not half the field of view");
		return 1;
	}
}
extern "C" __attribute__((noinline)) float tanf(float x) noexcept { return static_cast<float>(trig::tan(x)); }
extern "C" __attribute__((noinline)) double tan(double x) noexcept { return trig::tan(x); }

static volatile double fov = 0.5;

template <typename T>
static double power(const char* name, unsigned lo, unsigned hi, int shift)
{
	double out = 1;
	for (int e = static_cast<int>(sym_pick(name, lo, hi)) - shift; e != 0; e += e < 0 ? 1 : -1)
		out = e < 0 ? out * 0.5 : out * 2;
	return out;
}
template <typename T>
static vector<T, 4> times(const matrix<T, 4, 4>& m, T x, T y, T z)
{
	vector<T, 4> out{ T{} };
	for (size_t r = 0; r < 4; r++)
		out[r] = m(r, 0) * x + m(r, 1) * y + m(r, 2) * z + m(r, 3);
	return out;
}
// everything on the near plane lands on the near depth, everything on the far plane on the far depth; the edges of the field of view land on the
// edges of the clip volume; w is the distance in front of the viewer
template <math_apis Mode, typename T>
static void maps(const matrix<T, 4, 4>& m, T n, T f, T tangent, T aspect)
{
	constexpr bool gl = !!(Mode & math_apis::opengl), lh = !!(Mode & math_apis::left_handed);
	const T ahead = lh ? T(1) : T(-1);
	const T x = static_cast<T>(whole<float>("x", 6)), y = static_cast<T>(whole<float>("y", 6));
	for (size_t i = 0; i < 2; i++)
	{
		const T d	 = i ? f : n;
		const auto p = times(m, x, y, ahead * d);
		CHECK(p.w == d);
		CHECK(p.z == (i ? d : gl ? -d : T{}));
		const auto corner = times(m, tangent * aspect * d, tangent * d, ahead * d);
		CHECK((corner.x == d) & (corner.y == d) & (corner.w == d));
		const auto mid = times(m, T{}, T{}, ahead * d);
		CHECK((mid.x == T{}) & (mid.y == T{}));
		const auto other = times(m, -tangent * aspect * d, -tangent * d, ahead * d);
		CHECK((other.x == -d) & (other.y == -d));
	}
}
template <math_apis Mode, typename T>
static void perspective()
{
	using M		   = matrix<T, 4, 4>;
	trig::angle	   = fov;
	trig::tangent  = power<T>("tangent", 0, 4, 2);
	const T aspect = static_cast<T>(power<T>("aspect", 0, 4, 2)), tangent = static_cast<T>(trig::tangent);
	const T n = static_cast<T>(whole_positive<float>("near", 5) + 1.f), f = n + static_cast<T>(power<T>("depth", 0, 6, 1));
	const T angle = static_cast<T>(2 * trig::angle);
	maps<Mode>(M::template perspective_projection<Mode>(angle, aspect, n, f), n, f, tangent, aspect);
	maps<Mode>(M::template perspective_projection<Mode>(angle, vector<T, 2>{ aspect * 64, T(64) }, n, f), n, f, tangent, aspect);
	if constexpr (Mode == (math_apis::directx | math_apis::right_handed))
	{
		maps<Mode>(M::perspective_projection(angle, aspect, n, f), n, f, tangent, aspect);
		maps<Mode>(M::perspective_projection(angle, vector<T, 2>{ aspect * 64, T(64) }, n, f), n, f, tangent, aspect);
	}
}
ENTRY(V06, directx_right_f32) { perspective<math_apis::directx | math_apis::right_handed, float>(); }
ENTRY(V06, directx_left_f32) { perspective<math_apis::directx | math_apis::left_handed, float>(); }
ENTRY(V06, opengl_right_f32) { perspective<math_apis::opengl | math_apis::right_handed, float>(); }
ENTRY(V06, opengl_left_f32) { perspective<math_apis::opengl | math_apis::left_handed, float>(); }
ENTRY(V06, directx_right_f64) { perspective<math_apis::directx | math_apis::right_handed, double>(); }
ENTRY(V06, directx_left_f64) { perspective<math_apis::directx | math_apis::left_handed, double>(); }
ENTRY(V06, opengl_right_f64) { perspective<math_apis::opengl | math_apis::right_handed, double>(); }
ENTRY(V06, opengl_left_f64) { perspective<math_apis::opengl | math_apis::left_handed, double>(); }
