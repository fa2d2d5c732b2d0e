//@file {"native_std": "c++20"}
// F07: normalize_angle, normalize_angle_signed
#include "sym.h"
#include <muu/core.h>
#include <muu/math.h>
#include <muu/half.h>

static uint32_t fb(float f) { uint32_t u; std::memcpy(&u, &f, 4); return u; }
static uint64_t db(double f) { uint64_t u; std::memcpy(&u, &f, 8); return u; }
static constexpr float tpf = 6.28318530717958647692f, pf = 3.14159265358979323846f;
static constexpr double tpd = 6.28318530717958647692, pd = 3.14159265358979323846;

ENTRY(F07, unchanged)
{
	const float f = sym<float>("f");
	if (f >= 0.0f && f < tpf)
		CHECK(fb(muu::normalize_angle(f)) == fb(f));
	if (f >= -pf && f < pf)
		CHECK(fb(muu::normalize_angle_signed(f)) == fb(f));
	const double d = sym<double>("d");
	if (d >= 0.0 && d < tpd)
		CHECK(db(muu::normalize_angle(d)) == db(d));
	if (d >= -pd && d < pd)
		CHECK(db(muu::normalize_angle_signed(d)) == db(d));
}
//@ {"budget": 300}
ENTRY(F07, range)
{
	const float f = sym<float>("f");
	sym_assume(f >= -64.0f && f <= 64.0f);
	const float r = muu::normalize_angle(f);
	CHECK(r >= 0.0f);
	CHECK(r < tpf);
}
//@ {"budget": 300}
ENTRY(F07, range_signed)
{
	const float f = sym<float>("f");
	sym_assume(f >= -64.0f && f <= 64.0f);
	const float r = muu::normalize_angle_signed(f);
	CHECK(r >= -pf);
	CHECK(r < pf);
}
