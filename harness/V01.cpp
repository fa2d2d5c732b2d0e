//@file {"native_std": "c++20"}
// V01: vector arithmetic is component-wise
#include "fp.h"
#include <limits>
#include <muu/core.h>
#include <muu/math.h>
#include <muu/half.h>
#include <muu/vector.h>

using muu::half;
using muu::vector;

// any value, as far as the component operations are defined for it
template <typename T>
static T any(const char* name)
{
	if constexpr (std::is_floating_point_v<T> || std::is_unsigned_v<T>)
		return sym<T>(name);
	else if constexpr (std::is_same_v<T, half>)
		return half{ whole<float>(name, 5) };
	else if constexpr (sizeof(T) == 1)
		return sym<T>(name);
	else
		return static_cast<T>(sym_range<int>(name, -20000, 20000)); // no overflow of signed products
}
template <typename T, size_t N>
static vector<T, N> any_vec(const char* name)
{
	vector<T, N> v;
	for (size_t i = 0; i < N; i++)
		v[i] = any<T>(name);
	return v;
}
template <typename T, size_t N>
static vector<T, N> small_vec(const char* name, unsigned bits)
{
	vector<T, N> v;
	for (size_t i = 0; i < N; i++)
	{
		if constexpr (std::is_unsigned_v<T>)
			v[i] = whole_positive<T>(name, bits);
		else if constexpr (std::is_same_v<T, half>)
			v[i] = half{ whole<float>(name, bits) };
		else
			v[i] = whole<T>(name, bits);
	}
	return v;
}
template <typename T, size_t N>
static bool is(const vector<T, N>& v, const vector<T, N>& w)
{
	bool ok = true;
	for (size_t i = 0; i < N; i++)
		ok = ok & same<T>(v[i], w[i]);
	return ok;
}
#define PER_COMPONENT(V, ...)                                                                                          \
	for (size_t i = 0; i < N; i++)                                                                                     \
	CHECK(same<T>((V)[i], static_cast<T>(__VA_ARGS__)))

template <typename T, size_t N>
static void additive()
{
	const auto a = any_vec<T, N>("a"), b = any_vec<T, N>("b");
	const auto a0 = a, b0 = b;
	const auto sum = a + b, diff = a - b;
	PER_COMPONENT(sum, a[i] + b[i]);
	PER_COMPONENT(diff, a[i] - b[i]);
	PER_COMPONENT(+a, a[i]);
	auto c = a, d = a;
	auto& rc = (c += b);
	auto& rd = (d -= b);
	CHECK(&rc == &c && &rd == &d);
	CHECK(is(c, sum) && is(d, diff));
	if constexpr (!std::is_unsigned_v<T>)
		PER_COMPONENT(-a, -a[i]);
	CHECK(is(a, a0) && is(b, b0));
	// an operand that is the object itself
	auto e = a;
	e += e;
	PER_COMPONENT(e, a[i] + a[i]);
	auto f = a;
	f -= f;
	PER_COMPONENT(f, a[i] - a[i]);
}
template <typename T, size_t N>
static void multiplicative()
{
	const auto a = any_vec<T, N>("a"), b = any_vec<T, N>("b");
	const T s	   = any<T>("s");
	const auto prod = a * b, as = a * s, sa = s * a;
	PER_COMPONENT(prod, a[i] * b[i]);
	PER_COMPONENT(as, a[i] * s);
	PER_COMPONENT(sa, a[i] * s);
	auto c = a, d = a, e = a;
	auto& rc = (c *= b);
	auto& rd = (d *= s);
	CHECK(&rc == &c && &rd == &d);
	CHECK(is(c, prod) && is(d, as));
	e *= e;
	PER_COMPONENT(e, a[i] * a[i]);
	// scaling by one of the vector's own components
	auto f = a;
	f *= f[N - 1];
	PER_COMPONENT(f, a[i] * a[N - 1]);
}
template <typename T, size_t N>
static void quotients()
{
	const auto a = any_vec<T, N>("a");
	auto b		 = any_vec<T, N>("b");
	if constexpr (std::is_integral_v<T>)
		for (size_t i = 0; i < N; i++)
			sym_assume(b[i] != T{});
	const auto q = a / b;
	PER_COMPONENT(q, a[i] / b[i]);
	auto c	 = a;
	auto& rc = (c /= b);
	CHECK(&rc == &c);
	CHECK(is(c, q));
	if constexpr (std::is_integral_v<T>)
	{
		const T s = b[0];
		const auto qs = a / s, m = a % b, ms = a % s;
		PER_COMPONENT(qs, a[i] / s);
		PER_COMPONENT(m, a[i] % b[i]);
		PER_COMPONENT(ms, a[i] % s);
		auto d = a, e = a, f = a;
		auto &rd = (d /= s), &re = (e %= b), &rf = (f %= s);
		CHECK(&rd == &d && &re == &e && &rf == &f);
		CHECK(is(d, qs) && is(e, m) && is(f, ms));
	}
	else
	{
		// by a scalar whose reciprocal is exact
		static constexpr float divisors[] = { 1, -1, 2, -4, 0.5f, -0.25f };
		const T s	  = static_cast<T>(divisors[sym_pick("s", 0, 5)]);
		const auto w  = small_vec<T, N>("w", 8);
		const auto qs = w / s;
		PER_COMPONENT(qs, w[i] / s);
		auto d	 = w;
		auto& rd = (d /= s);
		CHECK(&rd == &d);
		CHECK(is(d, qs));
	}
}
template <typename T, size_t N>
static void shifts()
{
	auto a	 = any_vec<T, N>("a");
	const int s = static_cast<int>(sym_pick("shift", 0, sizeof(T) * 8 - (std::is_signed_v<T> ? 2 : 1)));
	if constexpr (std::is_signed_v<T>)
		for (size_t i = 0; i < N; i++)
			sym_assume(bool(a[i] >= 0) & bool(a[i] <= (std::numeric_limits<T>::max() >> s)));
	const auto l = a << s, r = a >> s;
	PER_COMPONENT(l, a[i] << s);
	PER_COMPONENT(r, a[i] >> s);
	auto c = a, d = a;
	auto &rc = (c <<= s), &rd = (d >>= s);
	CHECK(&rc == &c && &rd == &d);
	CHECK(is(c, l) && is(d, r));
}
template <typename T, size_t N>
static void reductions(unsigned bits)
{
	const auto a = small_vec<T, N>("a", bits), b = small_vec<T, N>("b", bits);
	using W = std::conditional_t<std::is_integral_v<T>, long long, double>;
	W sum{}, dot{}, lensq{}, distsq{};
	for (size_t i = 0; i < N; i++)
	{
		const W x = static_cast<W>(a[i]), y = static_cast<W>(b[i]);
		sum += x;
		dot += x * y;
		lensq += x * x;
		distsq += (y - x) * (y - x);
	}
	CHECK(same<T>(a.sum(), static_cast<T>(sum)));
	CHECK(same<T>(vector<T, N>::sum(a), static_cast<T>(sum)));
	using P = typename vector<T, N>::product_scalar_type;
	CHECK(same<P>(a.dot(b), static_cast<P>(dot)));
	CHECK(same<P>(vector<T, N>::dot(a, b), static_cast<P>(dot)));
	using D = typename vector<T, N>::delta_scalar_type;
	CHECK(same<D>(a.length_squared(), static_cast<D>(lensq)));
	CHECK(same<D>(vector<T, N>::length_squared(a), static_cast<D>(lensq)));
	CHECK(same<D>(a.distance_squared(b), static_cast<D>(distsq)));
	CHECK(same<D>(vector<T, N>::distance_squared(b, a), static_cast<D>(distsq)));
	CHECK(same<P>(a.dot(muu::index_tag<N - 1>{}), static_cast<P>(a[N - 1])));
}
template <typename T, size_t N>
static void products(unsigned bits)
{
	const auto a = small_vec<T, N>("a", bits);
	using W = std::conditional_t<std::is_integral_v<T>, long long, double>;
	W p = 1;
	for (size_t i = 0; i < N; i++)
		p *= static_cast<W>(a[i]);
	CHECK(same<T>(a.product(), static_cast<T>(p)));
	CHECK(same<T>(vector<T, N>::product(a), static_cast<T>(p)));
}
template <typename T>
static void crosses(unsigned bits)
{
	using V = vector<T, 3>;
	const auto a = small_vec<T, 3>("a", bits), b = small_vec<T, 3>("b", bits);
	using W = std::conditional_t<std::is_integral_v<T>, long long, double>;
	using P = typename V::product_scalar_type;
	const auto expect = [](const V& u, const V& v, const vector<P, 3>& got) {
		const W ux = static_cast<W>(u.x), uy = static_cast<W>(u.y), uz = static_cast<W>(u.z);
		const W vx = static_cast<W>(v.x), vy = static_cast<W>(v.y), vz = static_cast<W>(v.z);
		CHECK(same<P>(got.x, static_cast<P>(uy * vz - uz * vy)));
		CHECK(same<P>(got.y, static_cast<P>(uz * vx - ux * vz)));
		CHECK(same<P>(got.z, static_cast<P>(ux * vy - uy * vx)));
	};
	expect(a, b, a.cross(b));
	expect(a, b, V::cross(a, b));
	expect(b, a, V::cross(b, a));
	const V x{ T(1), T(0), T(0) }, y{ T(0), T(1), T(0) }, z{ T(0), T(0), T(1) };
	expect(a, x, a.cross(muu::index_tag<0>{}));
	expect(a, y, a.cross(muu::index_tag<1>{}));
	expect(a, z, a.cross(muu::index_tag<2>{}));
	expect(a, x, V::cross(a, muu::index_tag<0>{}));
	expect(a, y, V::cross(a, muu::index_tag<1>{}));
	expect(a, z, V::cross(a, muu::index_tag<2>{}));
	expect(x, a, V::cross(muu::index_tag<0>{}, a));
	expect(y, a, V::cross(muu::index_tag<1>{}, a));
	expect(z, a, V::cross(muu::index_tag<2>{}, a));
}
// orthogonal to the vector, and not zero unless the vector is
template <typename T>
static void orthogonals(unsigned bits)
{
	using V = vector<T, 3>;
	using W = std::conditional_t<std::is_integral_v<T>, long long, double>;
	using P = typename V::product_scalar_type;
	const auto a = small_vec<T, 3>("a", bits);
	const auto o = sym_pick("static", 0, 1) ? V::orthogonal(a) : a.orthogonal();
	W dot = 0;
	bool any_a = false, any_o = false;
	for (size_t i = 0; i < 3; i++)
	{
		dot += static_cast<W>(a[i]) * static_cast<W>(o[i]);
		any_a = any_a | (a[i] != T(0));
		any_o = any_o | (o[i] != P(0));
	}
	CHECK(dot == 0);
	CHECK(any_a == any_o);
}
template <typename T, size_t N>
static void roots()
{
	// the length is the root of the squared length
	using V = vector<T, N>;
	using D = typename V::delta_scalar_type;
	const auto a = any_vec<T, N>("a"), b = any_vec<T, N>("b");
	if constexpr (N > 1) // (the length of a one-dimensional vector is its component)
	{
		const D len = static_cast<D>(muu::sqrt(a.length_squared()));
		CHECK(same<D>(a.length(), len));
		CHECK(same<D>(V::length(a), len));
	}
	const D dist = static_cast<D>(muu::sqrt(V::distance_squared(a, b)));
	CHECK(same<D>(a.distance(b), dist));
	CHECK(same<D>(V::distance(a, b), dist));
}
template <typename T, size_t N>
static void selections(int kind)
{
	using V		 = vector<T, N>;
	const auto a = any_vec<T, N>("a"), b = any_vec<T, N>("b"), c = any_vec<T, N>("c");
	if constexpr (!std::is_integral_v<T>)
		for (size_t i = 0; i < N; i++)
			sym_assume(bool(a[i] == a[i]) & bool(b[i] == b[i]) & bool(c[i] == c[i]));
	const auto is_min = [](const V& v, std::initializer_list<V> of) {
		for (size_t i = 0; i < N; i++)
		{
			bool below = true, one = false;
			for (const V& x : of)
			{
				below = below & !bool(x[i] < v[i]);
				one	  = one | bool(x[i] == v[i]);
			}
			CHECK(below);
			CHECK(one);
		}
	};
	const auto is_max = [](const V& v, std::initializer_list<V> of) {
		for (size_t i = 0; i < N; i++)
		{
			bool above = true, one = false;
			for (const V& x : of)
			{
				above = above & !bool(v[i] < x[i]);
				one	  = one | bool(x[i] == v[i]);
			}
			CHECK(above);
			CHECK(one);
		}
	};
	const V arr[] = { a, b, c };
	switch (kind)
	{
		case 0: is_min(V::min(a, b), { a, b }); break;
		case 1: is_max(V::max(a, b), { a, b }); break;
		case 2: is_min(V::min(a, b, c), { a, b, c }); break;
		case 3: is_max(V::max(a, b, c), { a, b, c }); break;
		case 4:
		{
			for (size_t i = 0; i < N; i++)
				sym_assume(!bool(b[i] < a[i]));
			auto d	 = c;
			const auto clamped = sym_pick("in_place", 0, 1) ? d.clamp(a, b) : V::clamp(c, a, b);
			for (size_t i = 0; i < N; i++)
			{
				CHECK(!bool(clamped[i] < a[i]) & !bool(b[i] < clamped[i]));
				CHECK(bool(clamped[i] == c[i]) | (bool(clamped[i] == a[i]) & bool(c[i] < a[i])) | (bool(clamped[i] == b[i]) & bool(b[i] < c[i])));
			}
			break;
		}
		case 5: is_min(V::min(arr, arr + 3), { a, b, c }); break;
		case 6: is_max(V::max(arr, arr + 3), { a, b, c }); break;
		case 7: is_min(V::min({ c, b, a }), { a, b, c }); break;
		case 8: is_max(V::max({ b, a, c }), { a, b, c }); break;
		case 9: CHECK(is(V::min(arr, arr + 1), a)); break;
		case 10: CHECK(is(V::max(arr, arr + 1), a)); break;
		case 11: // nothing in, nothing out
		{
			const auto none = V::min(arr, arr);
			PER_COMPONENT(none, 0);
			break;
		}
		default:
		{
			const auto none = V::max(arr, arr);
			PER_COMPONENT(none, 0);
			break;
		}
	}
}
template <typename T, size_t N>
static void magnitudes()
{
	using V = vector<T, N>;
	auto a	= any_vec<T, N>("a");
	if constexpr (std::is_same_v<T, int8_t>)
		for (size_t i = 0; i < N; i++)
			sym_assume(a[i] != -128);
	PER_COMPONENT(V::abs(a), (a[i] < T(0) ? -a[i] : a[i]));
	PER_COMPONENT(a.abs(), (a[i] < T(0) ? -a[i] : a[i]));
}
template <typename T>
static void swizzles()
{
	const auto v = any_vec<T, 4>("v");
	const auto u = any_vec<T, 3>("u");
	const auto t = any_vec<T, 5>("t");
	CHECK(is(v.xy(), vector<T, 2>{ v[0], v[1] }));
	CHECK(is(v.xz(), vector<T, 2>{ v[0], v[2] }));
	CHECK(is(v.yx(), vector<T, 2>{ v[1], v[0] }));
	CHECK(is(v.xyz(), vector<T, 3>{ v[0], v[1], v[2] }));
	CHECK(is(v.xyz1(), vector<T, 4>{ v[0], v[1], v[2], T(1) }));
	CHECK(is(u.xyz0(), vector<T, 4>{ u[0], u[1], u[2], T(0) }));
	CHECK(is(u.xyz1(), vector<T, 4>{ u[0], u[1], u[2], T(1) }));
	CHECK(is(t.xyz(), vector<T, 3>{ t[0], t[1], t[2] }));
	CHECK(is(v.template swizzle<3, 2, 1, 0>(), vector<T, 4>{ v[3], v[2], v[1], v[0] }));
	CHECK(is(v.template swizzle<3, 2, 3>(), vector<T, 3>{ v[3], v[2], v[3] }));
	CHECK(is(u.template swizzle<2>(), vector<T, 1>{ u[2] }));
	CHECK(is(t.template swizzle<4, 0, 4, 1, 3>(), vector<T, 5>{ t[4], t[0], t[4], t[1], t[3] }));
	CHECK(is(vector<T, 5>::template swizzle<4, 2>(t), vector<T, 2>{ t[4], t[2] }));
}
// element access, construction and conversion keep every component in its place
template <typename T, size_t N>
static void elements()
{
	T raw[N];
	for (auto& r : raw)
		r = any<T>("r");
	vector<T, N> v{ raw };
	const auto& cv = v;
	for (size_t i = 0; i < N; i++)
	{
		CHECK(same<T>(v[i], raw[i]));
		CHECK(&v[i] == v.data() + i && &cv[i] == cv.data() + i);
		CHECK(&*(v.begin() + static_cast<ptrdiff_t>(i)) == &v[i]);
	}
	CHECK(v.end() - v.begin() == static_cast<ptrdiff_t>(N));
	CHECK(&v.template get<0>() == &v[0] && &cv.template get<N - 1>() == &cv[N - 1]);
	const size_t at = sym_pick("at", 0, N - 1);
	const T w		= any<T>("w");
	v[at]			= w;
	PER_COMPONENT(v, i == at ? w : raw[i]);
	// a single value everywhere
	const vector<T, N> b(w);
	PER_COMPONENT(b, w);
	// fewer components than dimensions: the rest is zero
	const vector<T, N + 2> z{ v };
	for (size_t i = 0; i < N + 2; i++)
		CHECK(same<T>(z[i], i < N ? v[i] : T(0)));
	// more: cut off
	if constexpr (N > 1)
	{
		const vector<T, N - 1> y{ v };
		for (size_t i = 0; i + 1 < N; i++)
			CHECK(same<T>(y[i], v[i]));
	}
	// two vectors one after the other
	const vector<T, N + 2> two{ v, vector<T, 2>{ w, raw[0] } };
	for (size_t i = 0; i < N + 2; i++)
		CHECK(same<T>(two[i], i < N ? v[i] : i == N ? w : raw[0]));
	const vector<T, N + 1> more{ v, w };
	for (size_t i = 0; i < N + 1; i++)
		CHECK(same<T>(more[i], i < N ? v[i] : w));
	const vector<T, N> fromptr{ static_cast<const T*>(raw) };
	PER_COMPONENT(fromptr, raw[i]);
	const std::array<T, N> arr = muu::bit_cast<std::array<T, N>>(raw);
	const vector<T, N> fromarr{ arr };
	PER_COMPONENT(fromarr, raw[i]);
}
#define EACH_DIM(fn, T, ...)                                                                                           \
	fn<T, 1>(__VA_ARGS__);                                                                                             \
	fn<T, 2>(__VA_ARGS__);                                                                                             \
	fn<T, 3>(__VA_ARGS__);                                                                                             \
	fn<T, 4>(__VA_ARGS__);                                                                                             \
	fn<T, 5>(__VA_ARGS__)

template <typename T>
static void one_of(size_t form)
{
	if (form < 5)
		selections<T, 3>(static_cast<int>(form));
	else if (form < 10)
		selections<T, 4>(static_cast<int>(form - 5) % 2 ? 0 : 4);
	else if (form < 15)
		selections<T, 5>(static_cast<int>(form - 10) % 2 ? 1 : 0);
	else if (form < 23)
		selections<T, 2>(static_cast<int>(form - 10));
	else
		selections<T, 1>(static_cast<int>(form - 22));
}
#define TYPE_ENTRIES(name, T)                                                                                          \
	ENTRY(V01, additive_##name) { EACH_DIM(additive, T); }                                                            \
	ENTRY(V01, multiplicative_##name) { EACH_DIM(multiplicative, T); }                                                \
	ENTRY(V01, selections_##name) { one_of<T>(sym_pick("form", 0, 31)); }                                             \
	ENTRY(V01, swizzles_##name) { swizzles<T>(); }                                                                    \
	ENTRY(V01, elements_##name) { elements<T, 1>(); elements<T, 2>(); elements<T, 3>(); elements<T, 4>(); elements<T, 6>(); }

//@entries additive_float multiplicative_float selections_float swizzles_float elements_float
TYPE_ENTRIES(float, float)
//@entries additive_double multiplicative_double selections_double swizzles_double elements_double
TYPE_ENTRIES(double, double)
//@entries additive_int multiplicative_int selections_int swizzles_int elements_int
TYPE_ENTRIES(int, int)
//@entries additive_u32 multiplicative_u32 selections_u32 swizzles_u32 elements_u32
TYPE_ENTRIES(u32, unsigned)
//@entries additive_u8 multiplicative_u8 selections_u8 swizzles_u8 elements_u8
TYPE_ENTRIES(u8, uint8_t)
//@entries additive_i8 multiplicative_i8 selections_i8 swizzles_i8 elements_i8
TYPE_ENTRIES(i8, int8_t)
//@entries additive_half multiplicative_half selections_half swizzles_half elements_half
TYPE_ENTRIES(half, half)
//@entries additive_u64 multiplicative_u64 selections_u64 swizzles_u64 elements_u64
TYPE_ENTRIES(u64, uint64_t)

ENTRY(V01, quotients_float) { EACH_DIM(quotients, float); }
ENTRY(V01, quotients_double) { EACH_DIM(quotients, double); }
ENTRY(V01, quotients_int) { EACH_DIM(quotients, int); }
ENTRY(V01, quotients_u32) { EACH_DIM(quotients, unsigned); }
ENTRY(V01, quotients_u8) { EACH_DIM(quotients, uint8_t); }
ENTRY(V01, shifts_u32) { shifts<unsigned, 3>(); }
ENTRY(V01, shifts_u32_5) { shifts<unsigned, 5>(); }
ENTRY(V01, shifts_u8) { shifts<uint8_t, 4>(); }
ENTRY(V01, shifts_u16) { shifts<uint16_t, 2>(); }
ENTRY(V01, shifts_u64) { shifts<uint64_t, 4>(); }
ENTRY(V01, shifts_i32) { shifts<int, 3>(); }
ENTRY(V01, shifts_i8) { shifts<int8_t, 2>(); }
ENTRY(V01, reductions_float) { EACH_DIM(reductions, float, 9); reductions<float, 6>(9); }
ENTRY(V01, reductions_double) { EACH_DIM(reductions, double, 20); }
ENTRY(V01, reductions_int) { EACH_DIM(reductions, int, 12); }
ENTRY(V01, reductions_u32) { EACH_DIM(reductions, unsigned, 12); }
ENTRY(V01, reductions_u8) { EACH_DIM(reductions, uint8_t, 8); }
ENTRY(V01, reductions_i8) { EACH_DIM(reductions, int8_t, 8); }
ENTRY(V01, reductions_half) { EACH_DIM(reductions, half, 4); }
ENTRY(V01, products) { EACH_DIM(products, float, 5); EACH_DIM(products, double, 10); EACH_DIM(products, int, 6); EACH_DIM(products, uint8_t, 8); products<half, 3>(4); }
ENTRY(V01, crosses_float) { crosses<float>(8); }
ENTRY(V01, crosses_double) { crosses<double>(12); }
ENTRY(V01, crosses_int) { crosses<int>(10); }
ENTRY(V01, crosses_i8) { crosses<int8_t>(8); }
ENTRY(V01, crosses_half) { crosses<half>(4); }
ENTRY(V01, orthogonals_float) { orthogonals<float>(8); }
ENTRY(V01, orthogonals_double) { orthogonals<double>(12); }
ENTRY(V01, orthogonals_int) { orthogonals<int>(5); }
ENTRY(V01, orthogonals_i8) { orthogonals<int8_t>(4); }
ENTRY(V01, orthogonals_half) { orthogonals<half>(3); }
ENTRY(V01, roots) { EACH_DIM(roots, float); EACH_DIM(roots, double); EACH_DIM(roots, int); }
ENTRY(V01, magnitudes) { EACH_DIM(magnitudes, float); EACH_DIM(magnitudes, double); EACH_DIM(magnitudes, int); EACH_DIM(magnitudes, int8_t); magnitudes<half, 3>(); }
