//@file {"native_std": "c++20"}
// K02: accumulator
#include "sym.h"
#include <muu/core.h>
#include <muu/accumulator.h>

template <typename T>
struct ref
{
	size_t n = 0;
	T mn{}, mx{};
	int64_t sum = 0;
	void add(T v)
	{
		mn	= (n == 0 || v < mn) ? v : mn;
		mx	= (n == 0 || mx < v) ? v : mx;
		sum = sum + static_cast<int64_t>(v);
		n++;
	}
};
template <typename T>
static T value(const char* n) // small integers: exact in every type
{
	if constexpr (std::is_floating_point_v<T>)
		return static_cast<T>(sym_range<int32_t>(n, -7, 7));
	else if constexpr (sizeof(T) == 8)
		return static_cast<T>(static_cast<int32_t>(sym<int32_t>(n)));
	else if constexpr (sizeof(T) == 4)
		return static_cast<T>(sym<int16_t>(n));
	else
		return sym<T>(n);
}
template <typename T>
static void same(const muu::accumulator<T>& a, const ref<T>& r)
{
	CHECK(a.sample_count() == r.n);
	CHECK(a.empty() == (r.n == 0));
	CHECK(a.min() == r.mn);
	CHECK(a.max() == r.mx);
	if constexpr (std::is_floating_point_v<T>)
		CHECK(a.sum() == static_cast<T>(r.sum));
	else
		CHECK(a.sum() == static_cast<decltype(a.sum())>(r.sum));
}
template <typename T, size_t N>
static void samples()
{
	muu::accumulator<T> a;
	ref<T> r;
	same(a, r);
	for (size_t i = 0; i < N; i++)
	{
		const T v = value<T>("v");
		if (i & 1)
			CHECK(&a(v) == &a);
		else
			CHECK(&a.add(v) == &a);
		r.add(v);
		same(a, r);
	}
}
ENTRY(K02, samples_i8) { samples<int8_t, 4>(); }
ENTRY(K02, samples_u16) { samples<uint16_t, 4>(); }
ENTRY(K02, samples_i32) { samples<int32_t, 4>(); }
ENTRY(K02, samples_u64) { samples<uint64_t, 4>(); }
//@ {"budget": 120}
ENTRY(K02, samples_f32) { samples<float, 3>(); }
//@ {"budget": 120}
ENTRY(K02, samples_f64) { samples<double, 3>(); }

template <typename T, size_t N>
static void merge()
{
	const size_t na = sym_pick("na", 0, N), nb = sym_pick("nb", 0, N);
	muu::accumulator<T> a, b;
	ref<T> r, rb;
	for (size_t i = 0; i < na; i++)
	{
		const T v = value<T>("a");
		a.add(v);
		r.add(v);
	}
	for (size_t i = 0; i < nb; i++)
	{
		const T v = value<T>("b");
		b.add(v);
		r.add(v);
		rb.add(v);
	}
	const bool call = sym<bool>("call");
	if (call)
		CHECK(&a(b) == &a);
	else
		CHECK(&a.add(b) == &a);
	same(a, r);
	same(b, rb);
	// and it keeps accumulating
	const T v = value<T>("after");
	a.add(v);
	r.add(v);
	same(a, r);
}
ENTRY(K02, merge_i8) { merge<int8_t, 2>(); }
ENTRY(K02, merge_i32) { merge<int32_t, 2>(); }
ENTRY(K02, merge_u64) { merge<uint64_t, 2>(); }
//@ {"budget": 200}
ENTRY(K02, merge_f32) { merge<float, 1>(); }

ENTRY(K02, construct)
{
	const int32_t v = value<int32_t>("v");
	const muu::accumulator<int32_t> one{ v };
	CHECK(one.sample_count() == 1 && one.min() == v && one.max() == v && one.sum() == v);
	int32_t arr[3];
	ref<int32_t> r;
	for (auto& x : arr)
	{
		x = value<int32_t>("x");
		r.add(x);
	}
	const size_t n = sym_pick("n", 0, 3);
	muu::accumulator<int32_t> it(arr, arr + n);
	ref<int32_t> q;
	for (size_t i = 0; i < n; i++)
		q.add(arr[i]);
	same(it, q);
	it.add(arr + n, arr + 3);
	same(it, r);
	muu::accumulator<int32_t> self = it;
	self.add(self);
	CHECK(self.sample_count() == 6 && self.sum() == 2 * r.sum && self.min() == r.mn && self.max() == r.mx);
}
// the compensated sum is at least as good as promised: no sample is lost to cancellation
ENTRY(K02, kahan)
{
	const int32_t v = sym_range<int32_t>("v", -1000, 1000);
	muu::accumulator<float> a;
	a.add(16777216.0f).add(static_cast<float>(v) * 0.5f).add(-16777216.0f);
	CHECK(a.sum() == static_cast<float>(v) * 0.5f);
	muu::accumulator<float> b, c;
	b.add(16777216.0f).add(static_cast<float>(v) * 0.5f);
	c.add(0.0f).add(b).add(-16777216.0f);
	CHECK(c.sum() == static_cast<float>(v) * 0.5f);
}
