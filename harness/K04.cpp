// K04: emplacement_array
#include "sym.h"
#include <utility>
#include <muu/core.h>
#include <muu/emplacement_array.h>

static int alive, ctors, dtors;
static uint32_t last_destroyed;
static const void* where_[16];
struct boom {};
template <bool CanThrow>
struct item
{
	uint32_t v;
	item* self;
	explicit item(uint32_t x, bool thr = false) noexcept(!CanThrow) : v{ x }, self{ this }
	{
		if constexpr (CanThrow)
			if (thr)
				throw boom{};
		alive++;
		ctors++;
	}
	item(const item&) = delete;
	~item() noexcept
	{
		CHECK(self == this); // destroyed where it was made, and only once
		self = nullptr;
		last_destroyed = v;
		alive--;
		dtors++;
	}
};
static void reset() { alive = ctors = dtors = 0; }

template <typename A>
static void holds(A& a, const uint32_t* v, size_t n, size_t cap)
{
	CHECK(a.size() == n);
	CHECK(a.empty() == (n == 0));
	CHECK(a.capacity() == cap);
	CHECK(static_cast<size_t>(a.end() - a.begin()) == n);
	size_t i = 0;
	for (auto& x : a)
	{
		CHECK(x.v == v[i]);
		CHECK(&x == &a[i]);
		CHECK(x.self == &x);
		i++;
		if (i > n)
			break;
	}
	CHECK(i == n);
	if (n)
	{
		CHECK(&a.front() == a.data());
		CHECK(&a.back() == a.data() + (n - 1));
		CHECK(reinterpret_cast<uintptr_t>(a.data()) % alignof(typename A::value_type) == 0);
	}
}
ENTRY(K04, lifetimes)
{
	reset();
	using T = item<false>;
	const size_t cap = sym_pick("cap", 0, 4);
	uint32_t v[4];
	{
		muu::emplacement_array<T> a(cap);
		holds(a, v, 0, cap);
		const size_t n = sym_pick("n", 0, cap);
		for (size_t i = 0; i < n; i++)
		{
			v[i]   = sym<uint32_t>("v");
			T& ref = i & 1 ? a.emplace_back_with([&](void* p) noexcept { return ::new (p) T(v[i]); }) : a.emplace_back(v[i]);
			CHECK(&ref == &a.back() && ref.v == v[i]);
			if (i)
				CHECK(a.front().v == v[0] && &a[0] == a.data());
		}
		holds(a, v, n, cap);
		CHECK(alive == static_cast<int>(n));
		const T* where = n ? a.data() : nullptr;
		muu::emplacement_array<T> b(std::move(a));
		holds(b, v, n, cap);
		if (n)
			CHECK(b.data() == where); // elements do not move
		CHECK(a.size() == 0 && a.capacity() == 0);
		holds(a, v, 0, 0);
		muu::emplacement_array<T> c(2);
		const uint32_t w = sym<uint32_t>("w");
		c.emplace_back(w);
		c = std::move(b);
		if (n == 0)
			CHECK(last_destroyed == w);
		CHECK(alive == static_cast<int>(n));
		holds(c, v, n, cap);
		CHECK(b.size() == 0);
		switch (sym_pick("end", 0, 1))
		{
			case 0:
				c.clear();
				CHECK(alive == 0);
				holds(c, v, 0, cap);
				if (n)
					CHECK(last_destroyed == v[0]); // reverse order
				if (cap)
				{
					c.emplace_back(w);
					CHECK(c.size() == 1 && c.front().v == w);
				}
				break;
			default: break;
		}
		const muu::emplacement_array<T>& k = c;
		CHECK(k.size() == c.size() && k.begin() == c.begin() && k.end() == c.end() && k.cbegin() == c.cbegin());
	}
	CHECK(alive == 0);
	CHECK(ctors == dtors);
}
ENTRY(K04, exceptions)
{
	reset();
	using T = item<true>;
	{
		muu::emplacement_array<T> a(4);
		size_t n = 0;
		uint32_t v[4];
		for (size_t i = 0; i < 4; i++)
		{
			const bool thr	 = sym<bool>("throw");
			const uint32_t x = sym<uint32_t>("v");
			bool caught		 = false;
			try
			{
				if (i & 1)
					a.emplace_back_with([&](void* p) { return ::new (p) T(x, thr); });
				else
					a.emplace_back(x, thr);
			}
			catch (const boom&)
			{
				caught = true;
			}
			CHECK(caught == thr);
			if (!thr)
				v[n++] = x;
			holds(a, v, n, 4);
			CHECK(alive == static_cast<int>(n));
		}
	}
	CHECK(alive == 0 && ctors == dtors);
}
struct alignas(64) wide
{
	uint64_t x;
};
ENTRY(K04, trivial)
{
	const size_t n = sym_pick("n", 0, 3);
	muu::emplacement_array<wide> a(3);
	uint64_t v[3];
	for (size_t i = 0; i < n; i++)
	{
		v[i] = sym<uint64_t>("v");
		a.emplace_back(wide{ v[i] });
	}
	CHECK(reinterpret_cast<uintptr_t>(a.data()) % 64 == 0);
	for (size_t i = 0; i < n; i++)
		CHECK(a[i].x == v[i]);
	a.clear();
	CHECK(a.empty() && a.capacity() == 3);
}
