//@file {"src": ["src/thread_pool.cpp", "src/string_param.cpp", "src/thread_name.cpp"], "flags": ["-DMUU_VERIFY_SPIN_ITERATIONS=1"], "native_std": "c++20"}
// T05: whatever kind of callable goes into the queue, it is invoked with its captured state, and each object made from it dies once
#include "sym.h"
#include <atomic>
#include <cstdint>
#include <memory>
#include <muu/core.h>
#include <muu/thread_pool.h>

namespace
{
	std::atomic<uint64_t> got_sum, got_calls, got_live, got_bad, got_index_bad;
	void reset()
	{
		got_sum = got_calls = got_live = got_bad = got_index_bad = 0;
	}

	void note(uint64_t v) noexcept
	{
		got_sum.fetch_add(v);
		got_calls.fetch_add(1);
	}
	void note_index(size_t i, size_t workers) noexcept
	{
		if (i >= workers)
			got_index_bad.fetch_add(1);
	}
	// keeps its own address: a bitwise move would be noticed
	struct tracked
	{
		const tracked* self;
		uint64_t value;
		explicit tracked(uint64_t v) noexcept : self{ this }, value{ v } { got_live.fetch_add(1); }
		tracked(const tracked& o) noexcept : self{ this }, value{ o.value }
		{
			o.check();
			got_live.fetch_add(1);
		}
		tracked(tracked&& o) noexcept : self{ this }, value{ o.value }
		{
			o.check();
			o.value = 0xDEADu;
			got_live.fetch_add(1);
		}
		tracked& operator=(const tracked& o) noexcept
		{
			check();
			o.check();
			value = o.value;
			return *this;
		}
		tracked& operator=(tracked&& o) noexcept
		{
			check();
			o.check();
			value	= o.value;
			o.value = 0xDEADu;
			return *this;
		}
		~tracked() noexcept
		{
			check();
			self = nullptr;
			got_live.fetch_sub(1);
		}
		void check() const noexcept
		{
			if (self != this)
				got_bad.fetch_add(1);
		}
	};

	struct movable
	{
		tracked t;
		explicit movable(uint64_t v) noexcept : t{ v } {}
		movable(movable&&) noexcept = default;
		void operator()() noexcept
		{
			t.check();
			note(t.value);
		}
	};
	struct copy_only
	{
		tracked t;
		explicit copy_only(uint64_t v) noexcept : t{ v } {}
		copy_only(const copy_only&) noexcept = default;
		void operator()(size_t) const noexcept
		{
			t.check();
			note(t.value);
		}
	};
	// no usable constructor from another one, only assignment
	struct assignable
	{
		tracked t{ 0 };
		assignable() noexcept = default;
		explicit assignable(uint64_t v) noexcept : t{ v } {}
		assignable(const assignable& o) noexcept(false) : t{ o.t } {}
		assignable& operator=(const assignable&) noexcept = default;
		assignable& operator=(assignable&&) noexcept = default;
		void operator()() noexcept
		{
			t.check();
			note(t.value);
		}
	};
	struct copy_assignable
	{
		tracked t{ 0 };
		copy_assignable() noexcept = default;
		explicit copy_assignable(uint64_t v) noexcept : t{ v } {}
		copy_assignable(const copy_assignable& o) noexcept(false) : t{ o.t } {}
		copy_assignable& operator=(const copy_assignable&) noexcept = default;
		void operator()() noexcept
		{
			t.check();
			note(t.value);
		}
	};
	// exactly as large as a slot allows, every byte matters
	struct full_slot
	{
		uint64_t w[7];
		void operator()() const noexcept
		{
			uint64_t s = 0;
			for (auto x : w)
				s = s * 31u + x;
			note(s);
		}
	};
	struct full_slot_tracked
	{
		uint64_t w[5];
		tracked t;
		void operator()() noexcept
		{
			uint64_t s = 0;
			for (auto x : w)
				s = s * 31u + x;
			t.check();
			note(s ^ t.value);
		}
	};
	static_assert(sizeof(full_slot_tracked) == 56);
	struct alignas(32) aligned_state
	{
		uint64_t w[4];
		void operator()() const noexcept
		{
			if (reinterpret_cast<uintptr_t>(this) % 32u)
				got_bad.fetch_add(1);
			note(w[0] ^ w[1] ^ w[2] ^ w[3]);
		}
	};
	// too large for a slot: taken by pointer, so it must be the very same object that runs
	struct large
	{
		uint64_t w[12];
		const large* self;
		uint64_t runs = 0;
		void operator()() noexcept
		{
			if (self != this)
				got_bad.fetch_add(1);
			runs++;
			uint64_t s = 0;
			for (auto x : w)
				s = s * 31u + x;
			note(s);
		}
	};
	struct large_const_call
	{
		uint64_t w[12];
		const large_const_call* self;
		void operator()(size_t i) const noexcept
		{
			note_index(i, 2);
			if (self != this)
				got_bad.fetch_add(1);
			note(w[0] + w[11]);
		}
	};
	union overlay
	{
		uint64_t a;
		uint32_t b[2];
		void operator()() const noexcept { note(a); }
	};
	uint64_t free_value;
	void free_function() noexcept { note(free_value); }
	void free_function_index(size_t i) noexcept
	{
		note_index(i, 2);
		note(free_value);
	}

	// queues `submit(pool, i)` n times with a pool of w workers and room for q tasks in all
	template <typename Fn>
	void through_pool(size_t w, size_t q, size_t n, Fn&& submit)
	{
		reset();
		muu::thread_pool p{ w, q };
		for (size_t i = 0; i < n; i++)
			submit(p, i);
		p.wait();
		CHECK(got_calls.load() == n);
		CHECK(got_bad.load() == 0);
		CHECK(got_index_bad.load() == 0);
	}
	uint64_t poly(const uint64_t* w, size_t n)
	{
		uint64_t s = 0;
		for (size_t i = 0; i < n; i++)
			s = s * 31u + w[i];
		return s;
	}
}
static void dims(size_t& w, size_t& q, size_t& n)
{
	w = sym_pick("workers", 1, 2);
	q = sym_pick("queue", 1, 2) * w; // a small queue makes tasks wait for a slot and the slots get reused
	n = sym_pick("tasks", 1, 4);
}
#define THROUGH(...)                                                                                                   \
	size_t w, q, n;                                                                                                    \
	dims(w, q, n);                                                                                                     \
	uint64_t v[4], sum = 0;                                                                                            \
	for (size_t i = 0; i < n; i++)                                                                                     \
		sum += (v[i] = sym<uint64_t>("v"));                                                                            \
	through_pool(w, q, n, [&](muu::thread_pool& p, size_t i) { __VA_ARGS__ });                                         \
	CHECK(got_sum.load() == sum);                                                                                      \
	CHECK(got_live.load() == 0)

//@ {"bounds": "1 to 2 workers, room for 1 to 4 tasks, up to 4 tasks with any 64-bit state, no preemption", "args": ["--preempt=0"], "budget": 250}
ENTRY(T05, movable_rvalue)
{
	THROUGH(p.enqueue(movable{ v[i] }););
}
//@ {"bounds": "as above, small callables passed as lvalues: the original is left alone", "args": ["--preempt=0"], "budget": 250}
ENTRY(T05, copied_lvalue)
{
	THROUGH(copy_only c{ v[i] }; p.enqueue(c); CHECK(c.t.value == v[i] && c.t.self == &c.t););
}
//@ {"bounds": "as above", "args": ["--preempt=0"], "budget": 250}
ENTRY(T05, copied_const_lvalue)
{
	THROUGH(const copy_only c{ v[i] }; p.enqueue(c); CHECK(c.t.value == v[i] && c.t.self == &c.t););
}
//@ {"bounds": "as above", "args": ["--preempt=0"], "budget": 250}
ENTRY(T05, copy_only_rvalue)
{
	THROUGH(p.enqueue(copy_only{ v[i] }););
}
//@ {"bounds": "as above", "args": ["--preempt=0"], "budget": 250}
ENTRY(T05, default_then_assign)
{
	THROUGH(p.enqueue(assignable{ v[i] }););
}
//@ {"bounds": "as above", "args": ["--preempt=0"], "budget": 250}
ENTRY(T05, default_then_copy_assign)
{
	THROUGH(p.enqueue(copy_assignable{ v[i] }););
}
//@ {"bounds": "1 to 2 workers, lambdas that own a heap object", "args": ["--preempt=0"], "budget": 250}
ENTRY(T05, owning_lambda)
{
	THROUGH(auto u = std::make_unique<uint64_t>(v[i]); p.enqueue([u = std::move(u)]() noexcept { note(*u); }););
}
//@ {"bounds": "1 to 2 workers, lambdas capturing by value and by reference, with and without worker index", "args": ["--preempt=0"], "budget": 250}
ENTRY(T05, lambdas)
{
	THROUGH(if (i & 1) p.enqueue([x = v[i]]() noexcept { note(x); });
			else p.enqueue([&v, i, w](size_t index) noexcept {
				note_index(index, w);
				note(v[i]);
			}););
}
//@ {"bounds": "trivially copyable callables that fill the slot, any contents, 1 to 2 workers", "args": ["--preempt=0"], "budget": 250}
ENTRY(T05, full_slot)
{
	const size_t w = sym_pick("workers", 1, 2);
	const size_t n = sym_pick("tasks", 1, 3);
	full_slot f[3];
	uint64_t sum = 0;
	for (size_t i = 0; i < n; i++)
	{
		for (auto& x : f[i].w)
			x = sym<uint64_t>("w");
		sum += poly(f[i].w, 7);
	}
	const bool lvalue = sym_pick("lvalue", 0, 1);
	through_pool(w, w, n, [&](muu::thread_pool& p, size_t i) {
		if (lvalue)
		{
			full_slot copy = f[i];
			p.enqueue(copy);
			for (auto& x : copy.w)
				x = 0xBAD;
		}
		else
			p.enqueue(full_slot{ f[i] });
	});
	CHECK(got_sum.load() == sum);
}
//@ {"bounds": "callables with a destructor that fill the slot, any contents, 1 to 2 workers", "args": ["--preempt=0"], "budget": 250}
ENTRY(T05, full_slot_tracked)
{
	const size_t w = sym_pick("workers", 1, 2);
	const size_t n = sym_pick("tasks", 1, 3);
	uint64_t f[3][6];
	uint64_t sum = 0;
	for (size_t i = 0; i < n; i++)
	{
		for (auto& x : f[i])
			x = sym<uint64_t>("w");
		sum += poly(f[i], 5) ^ f[i][5];
	}
	through_pool(w, w, n, [&](muu::thread_pool& p, size_t i) {
		p.enqueue(full_slot_tracked{ { f[i][0], f[i][1], f[i][2], f[i][3], f[i][4] }, tracked{ f[i][5] } });
	});
	CHECK(got_sum.load() == sum);
	CHECK(got_live.load() == 0);
}
//@ {"bounds": "over-aligned callables, any contents, 1 to 2 workers", "args": ["--preempt=0"], "budget": 250}
ENTRY(T05, aligned)
{
	THROUGH(p.enqueue(aligned_state{ { v[i], 5, 6, 5 ^ 6 } }););
}
//@ {"bounds": "callables too large to be stored, 1 to 2 workers", "args": ["--preempt=0"], "budget": 250}
ENTRY(T05, large_by_reference)
{
	const size_t w = sym_pick("workers", 1, 2);
	const size_t n = sym_pick("tasks", 1, 3);
	large l[3];
	large_const_call c[3];
	uint64_t sum = 0;
	for (size_t i = 0; i < 3; i++)
	{
		for (size_t j = 0; j < 12; j++)
			l[i].w[j] = c[i].w[j] = j % 4 == 3 ? sym<uint64_t>("w") : j;
		l[i].self = &l[i];
		c[i].self = &c[i];
		if (i < n)
			sum += (i & 1) ? c[i].w[0] + c[i].w[11] : poly(l[i].w, 12);
	}
	through_pool(w, w, n, [&](muu::thread_pool& p, size_t i) {
		if (i & 1)
			p.enqueue(static_cast<const large_const_call&>(c[i]));
		else
			p.enqueue(l[i]);
	});
	CHECK(got_sum.load() == sum);
	for (size_t i = 0; i < 3; i++)
		CHECK(l[i].runs == ((i & 1) || i >= n ? 0u : 1u));
}
//@ {"bounds": "functions, pointers to functions, captureless lambdas, empty function objects, unions; 1 to 2 workers, 2 tasks of the same kind", "args": ["--preempt=0"], "budget": 250}
ENTRY(T05, functions)
{
	struct empty
	{
		void operator()() const noexcept { note(free_value); }
	};
	struct empty_index
	{
		void operator()(size_t i) const noexcept
		{
			note_index(i, 2);
			note(free_value);
		}
	};
	const size_t w	= sym_pick("workers", 1, 2);
	const size_t kind = sym_pick("kind", 0, 10);
	free_value		= sym<uint64_t>("value");
	overlay u;
	u.a = free_value;
	const auto pf		= &free_function;
	auto pfi			= &free_function_index;
	const auto stateless = []() noexcept { note(free_value); };
	auto stateless_index = [](size_t i) noexcept {
		note_index(i, 2);
		note(free_value);
	};
	through_pool(w, w, 2, [&](muu::thread_pool& p, size_t) {
		switch (kind)
		{
			case 0: p.enqueue(free_function); break;
			case 1: p.enqueue(&free_function); break;
			case 2: p.enqueue(pf); break;
			case 3: p.enqueue(free_function_index); break;
			case 4: p.enqueue(pfi); break;
			case 5: p.enqueue(stateless); break;
			case 6: p.enqueue(stateless_index); break;
			case 7: p.enqueue([](size_t i) noexcept { note_index(i, 2); note(free_value); }); break;
			case 8: p.enqueue(empty{}); break;
			case 9: p.enqueue(empty_index{}); break;
			default: p.enqueue(u); break;
		}
	});
	CHECK(got_sum.load() == free_value + free_value);
}
// the same callables under for_each: a batch carries its own copy
//@ {"bounds": "1 to 2 workers, up to 3 elements, callables that are moved, copied or referenced", "args": ["--preempt=0"], "budget": 250}
ENTRY(T05, batches)
{
	struct visitor
	{
		tracked t;
		explicit visitor(uint64_t v) noexcept : t{ v } {}
		visitor(const visitor&) noexcept = default;
		visitor(visitor&&) noexcept		 = default;
		void operator()(int i) const noexcept
		{
			t.check();
			note(t.value + static_cast<uint64_t>(i));
		}
	};
	struct big_visitor
	{
		uint64_t pad[10] = {};
		tracked t;
		explicit big_visitor(uint64_t v) noexcept : t{ v } {}
		void operator()(int i) noexcept
		{
			t.check();
			note(t.value + static_cast<uint64_t>(i));
		}
	};
	const size_t w	 = sym_pick("workers", 1, 2);
	const int n		 = static_cast<int>(sym_pick("len", 0, 3));
	const uint64_t v = sym<uint64_t>("v");
	const size_t kind = sym_pick("kind", 0, 3);
	{
		visitor a{ v };
		big_visitor b{ v };
		reset();
		muu::thread_pool p{ w, 2 * w };
		got_live = 2;
		switch (kind)
		{
			case 0: p.for_each(0, n, visitor{ v }); break;
			case 1: p.for_each(0, n, a); break;
			case 2: p.for_each(0, n, static_cast<const visitor&>(a)); break;
			default: p.for_each(0, n, b); break;
		}
		p.wait();
		CHECK(a.t.self == &a.t && a.t.value == v);
		CHECK(b.t.self == &b.t && b.t.value == v);
		CHECK(got_live.load() == 2);
	}
	CHECK(got_bad.load() == 0);
	CHECK(got_calls.load() == static_cast<uint64_t>(n));
	CHECK(got_sum.load() == static_cast<uint64_t>(n) * v + static_cast<uint64_t>(n * (n - 1) / 2));
	CHECK(got_live.load() == 0);
}
// the pool goes away with work still queued: what was stored is destroyed all the same
//@ {"bounds": "1 worker, up to 3 tasks, the pool is destroyed without waiting, no preemption", "args": ["--preempt=1"], "budget": 250}
ENTRY(T05, abandoned)
{
	const size_t n = sym_pick("tasks", 1, 3);
	reset();
	{
		muu::thread_pool p{ 1, 4 };
		for (size_t i = 0; i < n; i++)
			p.enqueue(movable{ 7 + i });
	}
	CHECK(got_bad.load() == 0);
	CHECK(got_calls.load() <= n);
	CHECK(got_live.load() == 0);
}
