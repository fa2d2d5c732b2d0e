// K13: pointer_cast, bit_cast, apply_offset, launder, to_address
#include "sym.h"
#include <muu/core.h>
#include <muu/pointer_cast.h>
#include <muu/bit_cast.h>
#include <muu/launder.h>

struct base
{
	int x;
};
struct other
{
	uint64_t pad;
	int y;
};
struct derived : other, base // base sub-object at a non-zero offset
{
	int z;
};
struct poly
{
	virtual ~poly() = default;
	int a			= 1;
};
struct poly_mid
{
	virtual ~poly_mid() = default;
	int b				= 2;
};
struct poly_derived : poly, poly_mid
{
	int c = 3;
};
enum class ep : uint64_t {};
enum class sp : int64_t {};

ENTRY(K13, integers)
{
	const uintptr_t a = sym<uintptr_t>("a");
	void* p			  = muu::pointer_cast<void*>(a);
	CHECK(muu::pointer_cast<uintptr_t>(p) == a);
	CHECK(static_cast<uint64_t>(muu::pointer_cast<intptr_t>(p)) == a);
	CHECK(muu::pointer_cast<void*>(static_cast<intptr_t>(a)) == p);
	CHECK(static_cast<uint64_t>(muu::pointer_cast<ep>(p)) == a);
	CHECK(static_cast<uint64_t>(muu::pointer_cast<sp>(p)) == a);
	CHECK(muu::pointer_cast<void*>(static_cast<ep>(a)) == p);
	CHECK(muu::pointer_cast<char*>(static_cast<sp>(a)) == p);
	CHECK(muu::pointer_cast<const int*>(static_cast<long long>(a)) == p);
	CHECK(muu::pointer_cast<const int*>(static_cast<unsigned long long>(a)) == p);
	CHECK(static_cast<uint64_t>(muu::pointer_cast<unsigned long long>(p)) == a);
	// wider integers: the value is the address, zero- or sign-extended
	CHECK(muu::pointer_cast<unsigned __int128>(p) == a);
	CHECK(muu::pointer_cast<__int128>(p) == static_cast<__int128>(static_cast<int64_t>(a)));
	CHECK(muu::pointer_cast<void*>(static_cast<unsigned __int128>(a)) == p);
	CHECK(muu::pointer_cast<int*>(nullptr) == nullptr);
	CHECK(muu::pointer_cast<uintptr_t>(static_cast<int*>(nullptr)) == 0);
}
ENTRY(K13, unrelated)
{
	const uintptr_t a = sym<uintptr_t>("a") & ~uintptr_t{ 15 };
	int* i			  = muu::pointer_cast<int*>(a);
	CHECK(muu::pointer_cast<int*>(muu::pointer_cast<float*>(i)) == i);
	CHECK(muu::pointer_cast<int*>(muu::pointer_cast<void*>(i)) == i);
	CHECK(muu::pointer_cast<int*>(muu::pointer_cast<const volatile char*>(i)) == i);
	CHECK(muu::pointer_cast<int*>(muu::pointer_cast<const int*>(i)) == i);
	CHECK(muu::pointer_cast<int*>(muu::pointer_cast<other*>(i)) == i);
	CHECK(muu::pointer_cast<int*>(muu::pointer_cast<int***>(i)) == i);
	CHECK(muu::pointer_cast<int**>(muu::pointer_cast<void*>(muu::pointer_cast<int**>(i))) == muu::pointer_cast<int**>(i));
	CHECK(muu::pointer_cast<uintptr_t>(muu::pointer_cast<float*>(i)) == a);
	CHECK(muu::pointer_cast<uintptr_t>(muu::pointer_cast<const volatile other*>(i)) == a);
	CHECK(muu::pointer_cast<uintptr_t>(muu::pointer_cast<char***>(i)) == a);
}
static int fn(int v) { return v + 1; }
static int fnx(int v) noexcept { return v + 2; }
ENTRY(K13, functions)
{
	const int v = sym_range<int>("v", -1000, 1000);
	void* p		= muu::pointer_cast<void*>(&fn);
	CHECK(muu::pointer_cast<int (*)(int)>(p)(v) == v + 1);
	CHECK(muu::pointer_cast<int (*)(int)>(&fnx)(v) == v + 2);
	CHECK(muu::pointer_cast<int (*)(int) noexcept>(static_cast<int (*)(int)>(&fnx))(v) == v + 2);
}
ENTRY(K13, related)
{
	derived d;
	d.x = sym<int>("x");
	d.y = sym<int>("y");
	d.z = sym<int>("z");
	base* b = muu::pointer_cast<base*>(&d);
	CHECK(b == static_cast<base*>(&d));
	CHECK(b->x == d.x);
	CHECK(muu::pointer_cast<derived*>(b) == &d);
	CHECK(muu::pointer_cast<const derived*>(b)->z == d.z);
	other* o = muu::pointer_cast<other*>(&d);
	CHECK(o->y == d.y);
	CHECK(muu::pointer_cast<derived*>(o) == &d);
	derived* null = nullptr;
	CHECK(muu::pointer_cast<base*>(null) == nullptr);
	CHECK(muu::pointer_cast<derived*>(static_cast<base*>(nullptr)) == nullptr);
	const volatile base* cv = muu::pointer_cast<const volatile base*>(&d);
	CHECK(cv == b);
	int arr[3] = { 1, 2, 3 };
	CHECK(*muu::pointer_cast<const int*>(arr) == 1);
}
ENTRY(K13, polymorphic)
{
	poly_derived d;
	d.c			= sym<int>("c");
	poly_mid* m = muu::pointer_cast<poly_mid*>(&d);
	CHECK(m == static_cast<poly_mid*>(&d));
	CHECK(muu::pointer_cast<poly_derived*>(m) == &d);
	CHECK(muu::pointer_cast<poly_derived*>(m)->c == d.c);
	poly plain;
	CHECK(muu::pointer_cast<poly_derived*>(&plain) == nullptr);
}
struct pod
{
	uint16_t a, b;
	float f;
};
ENTRY(K13, bit_casts)
{
	const uint32_t u = sym<uint32_t>("u");
	CHECK(muu::bit_cast<uint32_t>(muu::bit_cast<float>(u)) == u);
	CHECK(muu::bit_cast<uint32_t>(muu::bit_cast<int32_t>(u)) == u);
	const uint64_t w = sym<uint64_t>("w");
	CHECK(muu::bit_cast<uint64_t>(muu::bit_cast<double>(w)) == w);
	CHECK(muu::bit_cast<uint64_t>(muu::bit_cast<pod>(w)) == w);
	CHECK(muu::bit_cast<pod>(w).a == static_cast<uint16_t>(w));
	CHECK(muu::bit_cast<pod>(w).b == static_cast<uint16_t>(w >> 16));
	CHECK(muu::bit_cast<uint32_t>(muu::bit_cast<pod>(w).f) == static_cast<uint32_t>(w >> 32));
	CHECK(muu::bit_cast<uint64_t>(muu::bit_cast<void*>(w)) == w);
}
ENTRY(K13, offsets)
{
	alignas(16) static unsigned char buf[256];
	const ptrdiff_t off = sym_range<ptrdiff_t>("off", -128, 128);
	auto at				= [](const volatile void* p) { return static_cast<const volatile unsigned char*>(p) - buf; };
	unsigned char* mid	= buf + 128;
	CHECK(at(muu::apply_offset(mid, off)) == 128 + off);
	CHECK(at(muu::apply_offset(static_cast<void*>(mid), off)) == 128 + off);
	CHECK(at(muu::apply_offset(static_cast<const void*>(mid), off)) == 128 + off);
	CHECK(at(muu::apply_offset(reinterpret_cast<std::byte*>(mid), off)) == 128 + off);
	CHECK(at(muu::apply_offset(reinterpret_cast<const char*>(mid), off)) == 128 + off);
	const ptrdiff_t off4 = off & ~ptrdiff_t{ 7 };
	CHECK(at(muu::apply_offset(reinterpret_cast<int*>(mid), off4)) == 128 + off4);
	CHECK(at(muu::apply_offset(reinterpret_cast<volatile double*>(mid), off4)) == 128 + off4);
	const uint8_t small = sym_range<uint8_t>("small", 0, 127);
	CHECK(at(muu::apply_offset(static_cast<void*>(mid), small)) == 128 + small);
	const int8_t neg = sym<int8_t>("neg");
	CHECK(at(muu::apply_offset(static_cast<void*>(mid), neg)) == 128 + neg);
	int v = 5;
	CHECK(muu::launder(&v) == &v);
	CHECK(muu::to_address(&v) == &v);
}
