//@file {"native_std": "c++20", "variants": {"": [], "bits48": ["-DMUU_TAGGED_PTR_BITS=48"], "bits57": ["-DMUU_TAGGED_PTR_BITS=57"]}}
// K08: tagged_ptr
#include "sym.h"
#include <memory>
#include <muu/core.h>
#include <muu/tagged_ptr.h>

template <typename T, size_t A>
using tp = muu::tagged_ptr<T, A>;
template <typename T, size_t A>
static T* any_ptr(const char* name) // every pointer value the tagged pointer can hold: aligned, canonical
{
	const uintptr_t u = sym<uintptr_t>(name);
	sym_assume((u & (A - 1)) == 0);
#if MUU_TAGGED_PTR_BITS == 48
	sym_assume(static_cast<uintptr_t>(static_cast<intptr_t>(u << 16) >> 16) == u);
#elif MUU_TAGGED_PTR_BITS == 57
	sym_assume(static_cast<uintptr_t>(static_cast<intptr_t>(u << 7) >> 7) == u);
#endif
	return reinterpret_cast<T*>(u);
}
template <typename T, size_t A>
static void is(const tp<T, A>& t, T* p, uint64_t tag)
{
	CHECK(t.ptr() == p);
	CHECK(t.get() == p);
	CHECK(static_cast<T*>(t) == p);
	CHECK(static_cast<bool>(t) == (p != nullptr));
	CHECK(static_cast<uint64_t>(t.tag()) == tag);
	CHECK(t.template tag<uint64_t>() == tag);
	CHECK((t == p) & !(t != p) & (p == t) & !(p != t));
	const size_t b = sym<size_t>("bit");
	if (b < tp<T, A>::tag_bit_count)
		CHECK(t.tag_bit(b) == ((tag >> b) & 1));
}
template <typename T, size_t A>
static void basics()
{
	using P = tp<T, A>;
	constexpr size_t bits = P::tag_bit_count;
	static_assert(bits > 0 && bits < 64);
	constexpr uint64_t max = (uint64_t{ 1 } << bits) - 1;
	CHECK(P::max_tag == max);
	T* const p = any_ptr<T, A>("p");
	T* const q = any_ptr<T, A>("q");
	const uint64_t a = sym_range<uint64_t>("a", 0, max), b = sym_range<uint64_t>("b", 0, max);
	CHECK(P::can_store_ptr(p));
	CHECK(P::can_store_tag(a));
	const uint64_t big = sym<uint64_t>("big");
	CHECK(P::can_store_tag(big) == (big <= max));
	const uintptr_t anyp = sym<uintptr_t>("anyp");
	if (anyp & (A - 1))
		CHECK(!P::can_store_ptr(reinterpret_cast<T*>(anyp)));
	is(P{}, static_cast<T*>(nullptr), 0);
	is(P{ nullptr }, static_cast<T*>(nullptr), 0);
	is(P{ p }, p, 0);
	P t{ p, a };
	is(t, p, a);
	t.ptr(q);
	is(t, q, a);
	t.tag(b);
	is(t, q, b);
	t = p;
	is(t, p, b);
	P u = t; // copies are independent
	u.clear_tag();
	is(u, p, 0);
	is(t, p, b);
	u = t;
	u.clear_ptr();
	is(u, static_cast<T*>(nullptr), b);
	is(t, p, b);
	const size_t i = sym_range<size_t>("i", 0, bits - 1);
	const bool on = sym_range<uint8_t>("on", 0, 1);
	u = t;
	u.tag_bit(i, on);
	is(u, p, on ? b | (uint64_t{ 1 } << i) : b & ~(uint64_t{ 1 } << i));
	u.reset(q);
	is(u, q, 0);
	u.reset(p, a);
	is(u, p, a);
	const P v{ q, b };
	CHECK((u == v) == ((p == q) & (a == b)));
	CHECK((u != v) == !((p == q) & (a == b)));
	P w = v, x = u;
	std::swap(w, x);
	is(w, p, a);
	is(x, q, b);
	u.reset();
	is(u, static_cast<T*>(nullptr), 0);
	CHECK(std::pointer_traits<P>::to_address(v) == q);
}
//@ {"bounds": "every aligned (canonical) pointer value, every tag"}
ENTRY(K08, align2) { basics<int16_t, 2>(); }
ENTRY(K08, align4) { basics<int, 4>(); }
ENTRY(K08, align8) { basics<uint64_t, 8>(); }
ENTRY(K08, align16) { basics<void, 16>(); }
ENTRY(K08, align64) { basics<int, 64>(); }
ENTRY(K08, align256) { basics<void, 256>(); }
ENTRY(K08, align4096) { basics<void, 4096>(); }
ENTRY(K08, align65536) { basics<char, 65536>(); }
static int fn(int x) { return x + 1; }
ENTRY(K08, function)
{
	using P = muu::tagged_ptr<int(int), 2>;
	const uint64_t a = sym_range<uint64_t>("a", 0, 1);
	P t{ reinterpret_cast<int (*)(int)>(any_ptr<char, 2>("f")), a };
	CHECK(t.tag() == a);
	if (sym_is_symbolic_run())
	{
	}
	t.ptr(nullptr);
	CHECK(t.tag() == a);
	CHECK(!t);
	(void)fn;
}
// tags of other integer types, enums and small objects
template <typename P, typename Tag>
static void typed_int() // an integer type no wider than the tag area: every value of it fits
{
	int* const p = any_ptr<int, P::alignment>("p");
	int* const q = any_ptr<int, P::alignment>("q");
	const Tag v = sym<Tag>("v");
	CHECK(P::can_store_tag(v));
	P t{ p, v };
	CHECK(t.ptr() == p);
	CHECK(static_cast<Tag>(t.tag()) == v);
	t.ptr(q);
	CHECK(t.ptr() == q);
	CHECK(static_cast<Tag>(t.tag()) == v);
	const Tag w = sym<Tag>("w");
	t.tag(w);
	CHECK(t.ptr() == q);
	CHECK(static_cast<Tag>(t.tag()) == w);
	t.reset(p, w);
	CHECK(t.ptr() == p);
	CHECK(static_cast<Tag>(t.tag()) == w);
	if constexpr (sizeof(Tag) * 8 >= P::tag_bit_count)
		CHECK(t.template tag<Tag>() == w);
}
enum class e8 : uint8_t {};
enum class s8 : int8_t {};
enum wide_ : uint32_t {};
ENTRY(K08, tags_narrow)
{
	typed_int<tp<int, 256>, uint8_t>();
	typed_int<tp<int, 256>, e8>();
}
ENTRY(K08, tags_signed)
{
	typed_int<tp<int, 256>, int8_t>();
	typed_int<tp<int, 256>, s8>();
	typed_int<tp<int, 65536>, int8_t>();
	typed_int<tp<int, 65536>, int16_t>();
}
template <typename P, typename Tag>
static void typed_wide() // a type wider than the tag area
{
	int* const p = any_ptr<int, P::alignment>("p");
	const Tag v = sym<Tag>("v");
	const uint64_t u = static_cast<uint64_t>(static_cast<std::make_unsigned_t<Tag>>(v));
	const bool fits = u <= P::max_tag;
	CHECK(P::can_store_tag(v) == fits);
	if (!fits)
		return;
	P t{ p, v };
	CHECK(t.ptr() == p);
	CHECK(t.template tag<Tag>() == v);
	t.clear_tag();
	t.tag(v);
	CHECK(t.ptr() == p);
	CHECK(t.template tag<Tag>() == v);
}
ENTRY(K08, tags_wide)
{
	typed_wide<tp<int, 16>, int>();
	typed_wide<tp<int, 16>, unsigned long long>();
	typed_wide<tp<int, 16>, long>();
	typed_wide<tp<int, 1024>, uint32_t>();
	typed_wide<tp<int, 8>, int>();
}
struct pod1 { uint8_t a; };
struct pod2 { uint8_t a, b; };
template <typename P, typename Pod>
static void typed_pod()
{
	int* const p = any_ptr<int, P::alignment>("p");
	int* const q = any_ptr<int, P::alignment>("q");
	Pod v, w;
	sym_bytes(&v, sizeof v, "v");
	sym_bytes(&w, sizeof w, "w");
	const auto same = [](const Pod& x, const Pod& y) { return __builtin_memcmp(&x, &y, sizeof(Pod)) == 0; };
	CHECK(P::can_store_tag(v));
	P t{ p, v };
	CHECK(t.ptr() == p);
	CHECK(same(t.template tag<Pod>(), v));
	t.ptr(q);
	CHECK(t.ptr() == q);
	CHECK(same(t.template tag<Pod>(), v));
	// the object is the whole tag: whatever bits were there before, the ones above it are clear afterwards
	const auto number = [](const Pod& x) { uint64_t n = 0; __builtin_memcpy(&n, &x, sizeof x); return n; };
	CHECK(static_cast<uint64_t>(t.tag()) == number(v));
	const uint64_t before = sym<uint64_t>("before") & ((uint64_t{ 1 } << P::tag_bit_count) - 1u);
	const auto fill		  = [&] {
		for (size_t i = 0; i < P::tag_bit_count; i++)
			t.tag_bit(i, (before >> i) & 1u);
		CHECK(static_cast<uint64_t>(t.tag()) == before);
	};
	fill();
	t.tag(w);
	CHECK(t.ptr() == q);
	CHECK(same(t.template tag<Pod>(), w));
	CHECK(static_cast<uint64_t>(t.tag()) == number(w));
	fill();
	t.reset(p, v);
	CHECK(t.ptr() == p);
	CHECK(same(t.template tag<Pod>(), v));
	CHECK(static_cast<uint64_t>(t.tag()) == number(v));
	t.clear_ptr();
	CHECK(same(t.template tag<Pod>(), v));
}
ENTRY(K08, tags_pod)
{
	typed_pod<tp<int, 256>, pod1>();
	typed_pod<tp<int, 512>, pod1>();
	typed_pod<tp<int, 1024>, pod1>();
	typed_pod<tp<int, 2048>, pod1>();
	typed_pod<tp<int, 32768>, pod1>();
	typed_pod<tp<int, 65536>, pod1>();
	typed_pod<tp<int, 65536>, pod2>();
	typed_pod<tp<int, 131072>, pod2>();
	typed_pod<tp<int, (1u << 23)>, pod2>();
}
// dereferencing
ENTRY(K08, deref)
{
	struct alignas(8) S { int x, y; };
	S s[2]{ { 1, 2 }, { 3, 4 } };
	muu::tagged_ptr<S> t{ &s[0], sym_range<unsigned>("a", 0, 7) };
	CHECK((*t).x == 1 && t->y == 2);
	t.ptr(&s[1]);
	CHECK((*t).x == 3 && t->y == 4);
	t->x = 9;
	CHECK(s[1].x == 9);
	s[1].x = 3;
	using F = muu::tagged_ptr<int(int), 16>;
	(void)sizeof(F);
	CHECK(std::pointer_traits<muu::tagged_ptr<S>>::pointer_to(s[0]).ptr() == &s[0]);
}
