// B05: aligned_alloc / aligned_free
#include "sym.h"
#include <muu/core.h>
#include <muu/aligned_alloc.h>

//@ {"bounds": "sizes 1..48 bytes, alignments 1..256, two live blocks; every byte of each block written", "budget": 120}
ENTRY(B05, small)
{
	const size_t size = sym_pick("size", 1, 48);
	const size_t al	  = size_t{ 1 } << sym_pick("lg", 0, 8);
	auto p			  = static_cast<unsigned char*>(muu::aligned_alloc(size, al));
	CHECK(p != nullptr);
	CHECK(reinterpret_cast<uintptr_t>(p) % al == 0);
	CHECK(reinterpret_cast<uintptr_t>(p) % 16 == 0);
	const size_t size2 = size + 5;
	auto q			   = static_cast<unsigned char*>(muu::aligned_alloc(size2, al));
	CHECK(q != nullptr);
	CHECK(reinterpret_cast<uintptr_t>(q) % al == 0);
	const auto a = reinterpret_cast<uintptr_t>(p), b = reinterpret_cast<uintptr_t>(q);
	CHECK(a + size <= b || b + size2 <= a);
	const unsigned char x = sym<unsigned char>("x"), y = sym<unsigned char>("y");
	std::memset(p, x, size);
	std::memset(q, y, size2);
	CHECK(p[0] == x && p[size - 1] == x && p[size / 2] == x);
	muu::aligned_free(p);
	CHECK(q[0] == y && q[size2 - 1] == y);
	muu::aligned_free(q);
}
//@ {"bounds": "sizes 1 KiB .. 8 KiB in steps that are not multiples of the alignment, alignments up to 64 KiB"}
ENTRY(B05, large)
{
	const size_t size = sym_pick("k", 1, 8) * 1024 - sym_pick("minus", 0, 3);
	const size_t al	  = size_t{ 1 } << sym_pick("lg", 9, 16);
	auto p			  = static_cast<unsigned char*>(muu::aligned_alloc(size, al));
	CHECK(p != nullptr);
	CHECK(reinterpret_cast<uintptr_t>(p) % al == 0);
	p[0] = 1;
	p[sym_range<size_t>("i", 0, size - 1)] = 2;
	p[size - 1] = 3;
	muu::aligned_free(p);
}
//@ {"bounds": "every size above 16 MiB (the allocator stub refuses those), every power-of-two alignment"}
ENTRY(B05, unsatisfiable)
{
	// a request that cannot be satisfied must fail, never return a block smaller than what was asked for
	const size_t size = sym<size_t>("size");
	sym_assume(size > (~size_t{} >> 4));
	const size_t al = size_t{ 1 } << sym_pick("lg", 0, 20);
	void* p			= muu::aligned_alloc(size, al);
	CHECK(p == nullptr);
	muu::aligned_free(p);
}
