// K03: blob
#include "sym.h"
#include <utility>
#include <muu/core.h>
#include <muu/blob.h>

static constexpr size_t MAXB = 12;
struct model
{
	size_t n = 0, align = 0;
	uint8_t b[MAXB]{};
	uint8_t known[MAXB]{}; // bytes past an enlarging resize are unspecified
};
static void fill(uint8_t* p, size_t n)
{
	for (size_t i = 0; i < n; i++)
		p[i] = sym<uint8_t>("byte");
}
static void same(const muu::blob& b, const model& m)
{
	CHECK(b.size() == m.n);
	CHECK((b.data() != nullptr) == (m.n != 0));
	CHECK(static_cast<bool>(b) == (m.n != 0));
	CHECK(b.alignment() >= m.align);
	CHECK(reinterpret_cast<uintptr_t>(b.data()) % b.alignment() == 0);
	for (size_t i = 0; i < m.n; i++)
		if (m.known[i])
			CHECK(static_cast<uint8_t>(b.data()[i]) == m.b[i]);
}
static void set(model& m, const uint8_t* p, size_t n, size_t align)
{
	m.n		= n;
	m.align = align;
	for (size_t i = 0; i < n; i++)
	{
		m.known[i] = p != nullptr;
		if (p)
			m.b[i] = p[i];
	}
}
static size_t pick_align() { return size_t{ 1 } << sym_pick("align", 4, 7); }

ENTRY(K03, construct)
{
	const muu::blob none;
	CHECK(none.size() == 0 && !none && none.data() == nullptr);
	uint8_t src[MAXB];
	fill(src, MAXB);
	const size_t n = sym_pick("n", 0, MAXB), align = pick_align();
	const muu::blob a(n, src, align);
	model m;
	set(m, src, n, align);
	same(a, m);
	muu::blob b(a);
	same(b, m);
	const size_t align2 = pick_align();
	muu::blob c(a, align2);
	m.align = align2;
	same(c, m);
	CHECK(n == 0 || (a.data() != b.data() && b.data() != c.data()));
	// copies are independent
	if (n)
		b.data()[0] = static_cast<std::byte>(sym<uint8_t>("w"));
	m.align = align;
	same(a, m);
	m.align = align2;
	muu::blob d(std::move(c));
	same(d, m);
	CHECK(c.size() == 0 && !c);
	muu::blob raw(n, nullptr, align);
	CHECK(raw.size() == n);
}
// op sequences on two blobs
template <size_t STEPS>
static void sequence()
{
	muu::blob b[2];
	model m[2];
	for (size_t i = 0; i < 2; i++) // either blob starts empty or filled
		if (sym_pick("start", 0, 1))
		{
			uint8_t src[8];
			fill(src, 8);
			b[i] = muu::blob(8, src);
			set(m[i], src, 8, 0);
		}
	for (size_t s = 0; s < STEPS; s++)
	{
		switch (sym_pick("op", 0, 6))
		{
			case 0: // assign from elsewhere
			{
				uint8_t src[MAXB];
				const size_t n = sym_pick("n", 0, 3) * 4;
				fill(src, n);
				const size_t align = size_t{ 16 } << (sym_pick("al", 0, 1) * 3);
				CHECK(&b[0].assign(n, src, align) == &b[0]);
				set(m[0], src, n, align);
				break;
			}
			case 1: // assign part of its own bytes
			{
				if (m[0].n == 0)
					break;
				const size_t off = sym_pick("off", 0, 1) * (m[0].n / 2), n = sym_pick("n", 0, 1) ? m[0].n - off : 1;
				model nm;
				nm.n = n;
				nm.align = 0;
				for (size_t i = 0; i < n; i++)
				{
					nm.b[i]		= m[0].b[off + i];
					nm.known[i] = m[0].known[off + i];
				}
				const size_t align = sym_pick("al", 0, 1) ? 128 : 0;
				nm.align		   = align;
				b[0].assign(n, b[0].data() + off, align);
				m[0] = nm;
				break;
			}
			case 2: // resize
			{
				const size_t n = sym_pick("n", 0, 3) * 4;
				CHECK(&b[0].resize(n) == &b[0]);
				for (size_t i = m[0].n; i < n; i++)
					m[0].known[i] = 0;
				m[0].n = n;
				break;
			}
			case 3:
				b[1] = b[0];
				m[1] = m[0];
				break;
			case 4:
				b[1]	= std::move(b[0]);
				m[1]	= m[0];
				m[0]	= model{};
				break;
			case 5:
			{
				auto& r = b[0];
				if (sym_pick("mv", 0, 1))
					b[0] = std::move(r);
				else
					b[0] = r;
				break;
			}
			case 6:
			{
				muu::blob t(b[0]);
				b[0] = b[1];
				b[1] = std::move(t);
				std::swap(m[0], m[1]);
				break;
			}
		}
		same(b[0], m[0]);
		same(b[1], m[1]);
	}
}
//@ {"budget": 100}
ENTRY(K03, sequence2) { sequence<2>(); }
//@ {"budget": 200, "thorough_budget": 800, "tier": "thorough"}
ENTRY(K03, sequence3) { sequence<3>(); }
// around the size at which blobs switch to large alignments
//@ {"budget": 100}
ENTRY(K03, large)
{
	const size_t sizes[] = { 0, 8, 2047, 2048, 2100 };
	const size_t n1 = sizes[sym_pick("n1", 0, 4)], n2 = sizes[sym_pick("n2", 0, 4)];
	static uint8_t src[2100];
	src[0] = sym<uint8_t>("first");
	src[7] = sym<uint8_t>("mid");
	muu::blob b(n1, src);
	b.resize(n2);
	CHECK(b.size() == n2);
	const size_t keep = n1 < n2 ? n1 : n2;
	if (keep)
	{
		CHECK(static_cast<uint8_t>(b.data()[0]) == src[0]);
		CHECK(static_cast<uint8_t>(b.data()[7]) == src[7]);
	}
	auto& self = b;
	b		   = self;
	CHECK(b.size() == n2);
	if (keep)
	{
		CHECK(static_cast<uint8_t>(b.data()[0]) == src[0]);
		CHECK(static_cast<uint8_t>(b.data()[7]) == src[7]);
	}
	muu::blob c;
	c = b;
	CHECK(c.size() == n2);
	if (keep)
		CHECK(static_cast<uint8_t>(c.data()[7]) == src[7]);
	CHECK(reinterpret_cast<uintptr_t>(c.data()) % c.alignment() == 0);
	if (n2 >= 8)
	{
		b.assign(4, b.data() + 4);
		CHECK(b.size() == 4);
		if (keep)
			CHECK(static_cast<uint8_t>(b.data()[3]) == src[7]);
	}
}
