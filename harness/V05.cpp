//@file {"native_std": "c++20", "flags": ["-DNDEBUG"]}
// V05: unit vectors packed into an integer
#include "fp.h"
#include <muu/core.h>
#include <muu/math.h>
#include <muu/half.h>
#include <muu/vector.h>
#include <muu/packed_unit_vector.h>

using muu::half;
using muu::packed_unit_vector;
using muu::vector;

static double magnitude(double x)
{
	return x < 0 ? -x : x;
}
// the largest error a component may have: a few steps of the coarser of the two stored coordinates (or the rounding of the floats)
template <typename I, size_t D, typename T>
static constexpr double tolerance()
{
	constexpr unsigned bits = (static_cast<unsigned>(sizeof(I)) * 8u - static_cast<unsigned>(D) + (D == 3 ? 1u : 0u)) / (D == 3 ? 2u : 1u);
	double step = 1;
	for (unsigned i = 0; i < bits; i++)
		step *= 0.5;
	return (D == 3 ? 4 : 2) * step + (sizeof(T) == 2 ? 1e-2 : sizeof(T) == 4 ? 1e-6 : 1e-14);
}
// the flags are the signs of the components, for every vector of roughly unit length
template <typename I, size_t D, typename T>
static void signs()
{
	vector<T, D> v{ T{} };
	T sum{};
	for (size_t i = 0; i < D; i++)
	{
		v[i]		= sym<T>("v");
		const T mag = v[i] < T(0) ? T(-v[i]) : v[i];
		sym_assume(mag <= T(1.0625));
		sum = sum < mag ? mag : sum;
	}
	sym_assume(sum >= T(0.5));
	const packed_unit_vector<I, D> p{ v };
	CHECK(p.x_negative() == (v.x < T(0)));
	CHECK(p.y_negative() == (v.y < T(0)));
	if constexpr (D == 3)
		CHECK(p.z_negative() == (v.z < T(0)));
}
ENTRY(V05, signs_u8_3_f32) { signs<uint8_t, 3, float>(); }
ENTRY(V05, signs_u16_3_f32) { signs<uint16_t, 3, float>(); }
ENTRY(V05, signs_u32_3_f32) { signs<uint32_t, 3, float>(); }
ENTRY(V05, signs_u64_3_f32) { signs<uint64_t, 3, float>(); }
ENTRY(V05, signs_u8_2_f32) { signs<uint8_t, 2, float>(); }
ENTRY(V05, signs_u32_2_f32) { signs<uint32_t, 2, float>(); }
ENTRY(V05, signs_u64_2_f32) { signs<uint64_t, 2, float>(); }
ENTRY(V05, signs_u64_2_f64) { signs<uint64_t, 2, double>(); }
ENTRY(V05, signs_u64_3_f64) { signs<uint64_t, 3, double>(); }
ENTRY(V05, signs_u32_3_half) { signs<uint32_t, 3, half>(); }

template <typename I, size_t D, typename T, typename U = T>
static void round_trip(const double (&u)[D])
{
	vector<T, D> v{ T{} };
	for (size_t i = 0; i < D; i++)
		v[i] = static_cast<T>(u[i]);
	const packed_unit_vector<I, D> p{ v };
	const auto w = p.template unpack<U>();
	constexpr double tol = tolerance<I, D, T>();
	for (size_t i = 0; i < D; i++)
		CHECK(magnitude(static_cast<double>(w[i]) - u[i]) <= tol);
	// the signs survive, up to zeroes and the rounding of 1 - x - y
	for (size_t i = 0; i < D; i++)
		CHECK((static_cast<double>(w[i]) * u[i] >= 0) | (magnitude(static_cast<double>(w[i])) <= 1e-6));
	CHECK(p.x_negative() == (u[0] < 0));
	CHECK(p.y_negative() == (u[1] < 0));
	if constexpr (D == 3)
		CHECK(p.z_negative() == (u[2] < 0));
	const auto w2 = static_cast<vector<U, D>>(p);
	for (size_t i = 0; i < D; i++)
		CHECK(same<U>(w2[i], w[i]));
}
// along the axes, where every bit of the coordinates is used
template <typename I, size_t D, typename T>
static void axes()
{
	const size_t along = sym_pick("along", 0, D - 1);
	double u[D]{};
	u[along] = sym_pick("negative", 0, 1) ? -1 : 1;
	round_trip<I, D, T>(u);
}
template <size_t D>
static void all_axes()
{
	switch (sym_pick("type", 0, 10))
	{
		case 0: axes<uint8_t, D, float>(); break;
		case 1: axes<uint16_t, D, float>(); break;
		case 2: axes<uint32_t, D, float>(); break;
		case 3: axes<uint64_t, D, float>(); break;
		case 4: axes<uint16_t, D, double>(); break;
		case 5: axes<uint32_t, D, double>(); break;
		case 6: axes<uint64_t, D, double>(); break;
		case 7: axes<uint8_t, D, half>(); break;
		case 8: axes<uint16_t, D, half>(); break;
		case 9: axes<uint32_t, D, half>(); break;
		case 10: axes<uint64_t, D, half>(); break;
	}
}
ENTRY(V05, axes_2) { all_axes<2>(); }
ENTRY(V05, axes_3) { all_axes<3>(); }

static double root(double x)
{
	return __builtin_sqrt(x);
}
// a lattice of directions, the ones in which two components have the same size or one is tiny among them
template <typename I, typename T>
static void lattice3()
{
	static constexpr double part[] = { 0, 1, 2, 3, 5, 6, 13, 200, 40000 };
	const double a = part[sym_pick("a", 0, 8)], b = part[sym_pick("b", 0, 8)], c = part[sym_pick("c", 0, 8)];
	const size_t sign = sym_pick("signs", 0, 1) * 7;
	if (a + b + c == 0)
		return;
	const double n = root(a * a + b * b + c * c);
	const double u[3] = { (sign & 1 ? -a : a) / n, (sign & 2 ? -b : b) / n, (sign & 4 ? -c : c) / n };
	round_trip<I, 3, T>(u);
}
ENTRY(V05, lattice_u8_3_f32) { lattice3<uint8_t, float>(); }
ENTRY(V05, lattice_u16_3_f32) { lattice3<uint16_t, float>(); }
ENTRY(V05, lattice_u32_3_f32) { lattice3<uint32_t, float>(); }
ENTRY(V05, lattice_u64_3_f32) { lattice3<uint64_t, float>(); }
ENTRY(V05, lattice_u32_3_f64) { lattice3<uint32_t, double>(); }
ENTRY(V05, lattice_u64_3_f64) { lattice3<uint64_t, double>(); }
ENTRY(V05, lattice_u32_3_half) { lattice3<uint32_t, half>(); }
// directions in the z = 0 plane, at every step of the smaller formats and half way between steps: where rounding decides
template <typename I, typename T>
static void plane3(unsigned half_steps)
{
	const double x = static_cast<double>(sym_pick("x", 0, half_steps)) / half_steps, y = 1 - x;
	const size_t sign = sym_pick("signs", 0, 1) * 3;
	const double n = root(x * x + y * y);
	const double u[3] = { (sign & 1 ? -x : x) / n, (sign & 2 ? -y : y) / n, 0 };
	round_trip<I, 3, T>(u);
}
ENTRY(V05, plane_u8_3_f32) { plane3<uint8_t, float>(12); }
ENTRY(V05, plane_u8_3_f64) { plane3<uint8_t, double>(12); }
ENTRY(V05, plane_u16_3_f32) { plane3<uint16_t, float>(252); }
ENTRY(V05, plane_u16_3_f64) { plane3<uint16_t, double>(252); }
// (the finer formats: a window of half steps next to each end of the range)
template <typename T>
static void plane_u32()
{
	const unsigned k = static_cast<unsigned>(sym_pick("k", 0, 1023)), at = static_cast<unsigned>(sym_pick("at", 0, 2));
	const double x = (at == 0 ? k : at == 1 ? 65532 - k : 32254 + k) / 65532.0, y = 1 - x, n = root(x * x + y * y);
	const double u[3] = { x / n, -y / n, 0 };
	round_trip<uint32_t, 3, T>(u);
}
ENTRY(V05, plane_u32_3_f32) { plane_u32<float>(); }
ENTRY(V05, plane_u32_3_f64) { plane_u32<double>(); }
template <typename I, typename T>
static void lattice2()
{
	const double k = static_cast<double>(sym_pick("k", 0, 512)) / 512.0, x = k, y = 1 - k, n = root(x * x + y * y);
	const size_t sign = sym_pick("signs", 0, 3);
	const double u[2] = { (sign & 1 ? -x : x) / n, (sign & 2 ? -y : y) / n };
	round_trip<I, 2, T>(u);
}
ENTRY(V05, lattice_u8_2_f32) { lattice2<uint8_t, float>(); }
ENTRY(V05, lattice_u16_2_f64) { lattice2<uint16_t, double>(); }
ENTRY(V05, lattice_u32_2_f32) { lattice2<uint32_t, float>(); }
ENTRY(V05, lattice_u64_2_f32) { lattice2<uint64_t, float>(); }
ENTRY(V05, lattice_u64_2_f64) { lattice2<uint64_t, double>(); }

// every bit pattern unpacks to a unit vector whose signs are the flags, and packing that gives the same flags again
template <typename I, size_t D>
static void unpacks(I bits)
{
	packed_unit_vector<I, D> p;
	p.bits		 = bits;
	const auto v = p.template unpack<double>();
	double len	 = 0;
	for (size_t i = 0; i < D; i++)
		len += v[i] * v[i];
	CHECK(magnitude(len - 1) < 1e-9);
	CHECK(p.x_negative() ? v.x <= 0 : v.x >= 0);
	CHECK(p.y_negative() ? v.y <= 0 : v.y >= 0);
	if constexpr (D == 3)
		CHECK(p.z_negative() ? v.z <= 1e-12 : v.z >= -1e-12);
	const packed_unit_vector<I, D> q{ v };
	CHECK((q.x_negative() == p.x_negative()) | (v.x == 0));
	CHECK((q.y_negative() == p.y_negative()) | (v.y == 0));
	if constexpr (D == 3)
		CHECK((q.z_negative() == p.z_negative()) | (magnitude(v.z) < 1e-12));
	const auto w = q.template unpack<double>();
	for (size_t i = 0; i < D; i++)
		CHECK(magnitude(w[i] - v[i]) <= (tolerance<I, D, double>()));
}
ENTRY(V05, unpacks_u8_2) { unpacks<uint8_t, 2>(static_cast<uint8_t>(sym_pick("bits", 0, 255))); }
ENTRY(V05, unpacks_u8_3) { unpacks<uint8_t, 3>(static_cast<uint8_t>(sym_pick("bits", 0, 255))); }
// every first coordinate with some second coordinates
ENTRY(V05, unpacks_u16_3)
{
	static constexpr uint8_t second[] = { 0, 1, 2, 21, 31, 32, 33, 62, 63 };
	const unsigned x = static_cast<unsigned>(sym_pick("x", 0, 127)), y = second[sym_pick("y", 0, 8)];
	unpacks<uint16_t, 3>(static_cast<uint16_t>(x << 6 | y | ((x + y) % 8u) << 13));
}
