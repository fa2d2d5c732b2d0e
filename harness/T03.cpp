//@file {"src": ["src/thread_pool.cpp", "src/string_param.cpp", "src/thread_name.cpp"], "flags": ["-DMUU_VERIFY_SPIN_ITERATIONS=1"], "native_std": "c++20"}
// T03: thread_pool::for_each visits every element exactly once
#include "sym.h"
#include <array>
#include <atomic>
#include <cstdint>
#include <vector>
#include <muu/core.h>
#include <muu/thread_pool.h>

namespace
{
	constexpr size_t slots = 16;
	enum class colour : uint8_t
	{
		zero = 0
	};
	enum class shade : int
	{
		zero = 0
	};
	template <typename T>
	long long num(T v)
	{
		return static_cast<long long>(v);
	}
}
// every element of [start, end) in either direction, exactly once, with a batch index that belongs to one thread of work:
// the range starts anywhere
template <typename T, int Arity, typename Base = T>
static void range(size_t max_workers, size_t max_len, bool reversed_too)
{
	const size_t w	 = sym_pick("workers", 1, max_workers);
	const size_t len = sym_pick("len", 0, max_len);
	const bool rev	 = reversed_too && sym_pick("reversed", 0, 1);
	// the first of the values to be visited, any value for which the whole range is representable
	const Base lo = sym<Base>("start");
	constexpr Base lowest = std::is_signed_v<Base> ? static_cast<Base>(Base{ 1 } << (sizeof(Base) * 8 - 1)) : Base{};
	constexpr Base highest = static_cast<Base>(~lowest);
	sym_assume(lo <= static_cast<Base>(highest - static_cast<Base>(len)) && lo >= static_cast<Base>(lowest + 1));
	const Base hi = static_cast<Base>(lo + static_cast<Base>(len));
	int visits[slots] = {};
	size_t batch_of[slots] = {};
	std::atomic<int> calls = 0, bad = 0;
	{
		muu::thread_pool p{ w, 64 };
		const auto seen = [&](T v, size_t batch) noexcept
		{
			calls.fetch_add(1);
			const auto off = static_cast<unsigned long long>(num(static_cast<Base>(v))) - static_cast<unsigned long long>(num(lo));
			if (off >= len)
				bad.fetch_add(1);
			else
			{
				visits[off]++;
				batch_of[off] = batch;
			}
			if (batch >= w)
				bad.fetch_add(1);
		};
		const T s = static_cast<T>(rev ? static_cast<Base>(hi - 1) : lo), e = static_cast<T>(rev ? static_cast<Base>(lo - 1) : hi);
		if constexpr (Arity == 2)
			p.for_each(s, e, [&](T v, size_t batch) noexcept { seen(v, batch); });
		else if constexpr (Arity == 1)
			p.for_each(s, e, [&](T v) noexcept { seen(v, 0); });
		else
			p.for_each(s, e, [&]() noexcept { calls.fetch_add(1); });
		p.wait();
	}
	CHECK(bad.load() == 0);
	CHECK(calls.load() == static_cast<int>(len));
	if constexpr (Arity > 0)
	{
		for (size_t i = 0; i < len; i++)
			CHECK(visits[i] == 1);
		// a batch is a run of neighbouring elements
		if constexpr (Arity == 2)
			for (size_t i = 0; i + 1 < len; i++)
				CHECK(batch_of[i + 1] == batch_of[i] || batch_of[i + 1] == batch_of[i] + 1);
	}
}
//@ {"bounds": "1 to 2 workers, up to 4 values starting anywhere, both directions, no preemption", "args": ["--preempt=0"], "budget": 250}
ENTRY(T03, range_int)
{
	range<int, 2>(2, 4, true);
}
//@ {"bounds": "1 to 2 workers, up to 4 values starting anywhere, both directions, no preemption", "args": ["--preempt=0"], "budget": 250}
ENTRY(T03, range_int_arity1)
{
	range<int, 1>(2, 4, true);
}
//@ {"bounds": "1 to 2 workers, up to 4 values starting anywhere, both directions, no preemption", "args": ["--preempt=0"], "budget": 250}
ENTRY(T03, range_int_arity0)
{
	range<int, 0>(2, 4, true);
}
//@ {"bounds": "1 to 2 workers, up to 4 values starting anywhere, both directions, no preemption", "args": ["--preempt=0"], "budget": 250}
ENTRY(T03, range_u64)
{
	range<uint64_t, 2>(2, 4, true);
}
//@ {"bounds": "1 to 2 workers, up to 3 values starting anywhere, both directions, no preemption", "args": ["--preempt=0"], "budget": 250}
ENTRY(T03, range_i64)
{
	range<int64_t, 2>(2, 3, true);
}
//@ {"bounds": "1 to 2 workers, up to 3 values starting anywhere, both directions, no preemption", "args": ["--preempt=0"], "budget": 250}
ENTRY(T03, range_u32)
{
	range<uint32_t, 1>(2, 3, true);
}

// more batches than elements and the other way round, with room for the whole lot in one queue or not
//@ {"bounds": "1 to 3 workers, room for 1 to 6 tasks, up to 6 values, no preemption", "args": ["--preempt=0"], "budget": 250}
ENTRY(T03, range_small_queue)
{
	const size_t w	 = sym_pick("workers", 1, 3);
	const size_t q	 = sym_pick("queue", 1, 2) * w;
	const size_t len = sym_pick("len", 0, 6);
	std::atomic<int> visits[10] = {};
	std::atomic<int> bad = 0;
	{
		muu::thread_pool p{ w, q };
		p.for_each(static_cast<int>(len), [&](int i, size_t batch) noexcept
		{
			if (i < 0 || i >= static_cast<int>(len) || batch >= w)
				bad.fetch_add(1);
			else
				visits[i].fetch_add(1);
		});
		p.for_range(-static_cast<int>(len), 0, [&](int i) noexcept
		{
			if (i >= 0 || i < -static_cast<int>(len))
				bad.fetch_add(1);
			else
				visits[-i - 1].fetch_add(16);
		});
		p.wait();
	}
	CHECK(bad.load() == 0);
	for (size_t i = 0; i < 10; i++)
		CHECK(visits[i].load() == (i < len ? 17 : 0));
}
// sequences: every element is passed, by reference, to exactly one call
namespace
{
	template <typename Fn>
	void over_elements(size_t max_workers, size_t max_len, Fn&& run)
	{
		const size_t w	 = sym_pick("workers", 1, max_workers);
		const size_t len = sym_pick("len", 0, max_len);
		uint32_t before[8];
		uint32_t mul = sym<uint32_t>("mul");
		for (size_t i = 0; i < len; i++)
			before[i] = sym<uint32_t>("elem");
		uint32_t after[8] = {};
		for (size_t i = 0; i < len; i++)
			after[i] = before[i];
		{
			muu::thread_pool p{ w, 64 };
			run(p, after, len, mul, w);
		}
		for (size_t i = 0; i < len; i++)
			CHECK(after[i] == before[i] + mul);
	}
}
//@ {"bounds": "pointer pairs, 1 to 3 workers, up to 6 elements, no preemption", "args": ["--preempt=0"], "budget": 250}
ENTRY(T03, pointers)
{
	over_elements(3, 6, [](muu::thread_pool& p, uint32_t* e, size_t n, uint32_t mul, size_t) {
		p.for_each(e, e + n, [=](uint32_t& x) noexcept { x += mul; });
		p.wait();
	});
}
//@ {"bounds": "pointer pairs and batch indices, 1 to 3 workers, up to 6 elements, no preemption", "args": ["--preempt=0"], "budget": 250}
ENTRY(T03, pointers_batch)
{
	over_elements(3, 6, [](muu::thread_pool& p, uint32_t* e, size_t n, uint32_t mul, size_t w) {
		std::atomic<int> bad = 0;
		p.for_each(e, e + n, [mul, w, &bad](uint32_t& x, size_t batch) noexcept {
			x += mul;
			if (batch >= w)
				bad.fetch_add(1);
		});
		p.wait();
		CHECK(bad.load() == 0);
	});
}
//@ {"bounds": "pointer pairs, callable without parameters, 1 to 3 workers, up to 6 elements, no preemption", "args": ["--preempt=0"], "budget": 250}
ENTRY(T03, pointers_no_args)
{
	over_elements(3, 6, [](muu::thread_pool& p, uint32_t* e, size_t n, uint32_t mul, size_t) {
		std::atomic<int> calls = 0;
		p.for_each(e, e + n, [&calls]() noexcept { calls.fetch_add(1); });
		p.wait();
		CHECK(calls.load() == static_cast<int>(n));
		for (size_t i = 0; i < n; i++)
			e[i] += mul;
	});
}
namespace
{
	// a sequence that can only be walked forwards
	struct chain
	{
		struct node
		{
			uint32_t value;
			node* next;
		};
		struct iterator
		{
			using iterator_category = std::forward_iterator_tag;
			using value_type		= uint32_t;
			using difference_type	= ptrdiff_t;
			using pointer			= uint32_t*;
			using reference			= uint32_t&;
			node* at;
			reference operator*() const noexcept { return at->value; }
			pointer operator->() const noexcept { return &at->value; }
			iterator& operator++() noexcept
			{
				at = at->next;
				return *this;
			}
			iterator operator++(int) noexcept
			{
				auto was = *this;
				at		 = at->next;
				return was;
			}
			friend bool operator==(iterator a, iterator b) noexcept { return a.at == b.at; }
			friend bool operator!=(iterator a, iterator b) noexcept { return a.at != b.at; }
		};
		node nodes[8];
		size_t count;
		iterator begin() noexcept { return { count ? nodes : nullptr }; }
		iterator end() noexcept { return { nullptr }; }
	};
}
//@ {"bounds": "forward iterators, 1 to 3 workers, up to 5 elements, no preemption", "args": ["--preempt=0"], "budget": 250}
ENTRY(T03, list)
{
	over_elements(3, 5, [](muu::thread_pool& p, uint32_t* e, size_t n, uint32_t mul, size_t) {
		chain l{};
		l.count = n;
		for (size_t i = 0; i < n; i++)
			l.nodes[i] = { e[i], i + 1 < n ? &l.nodes[i + 1] : nullptr };
		p.for_each(l, [=](uint32_t& x) noexcept { x += mul; });
		p.wait();
		for (size_t i = 0; i < n; i++)
			e[i] = l.nodes[i].value;
	});
}
//@ {"bounds": "std::vector, 1 to 3 workers, up to 5 elements, no preemption", "args": ["--preempt=0"], "budget": 250}
ENTRY(T03, vector)
{
	over_elements(3, 5, [](muu::thread_pool& p, uint32_t* e, size_t n, uint32_t mul, size_t) {
		std::vector<uint32_t> l(e, e + n);
		p.for_each(l, [=](uint32_t& x) noexcept { x += mul; });
		p.wait();
		CHECK(l.size() == n);
		for (size_t i = 0; i < n; i++)
			e[i] = l[i];
	});
}
// the callable: lvalue (shared by all batches when it is too large to copy), function pointer, plain function
static std::atomic<uint32_t> fn_sum;
static void fn_visit(int v) noexcept
{
	fn_sum.fetch_add(1u << v);
}
//@ {"bounds": "1 to 3 workers, up to 5 values; plain function, pointer to it, small and large lvalue and rvalue callables, no preemption", "args": ["--preempt=0"], "budget": 250}
ENTRY(T03, callables)
{
	struct big
	{
		std::atomic<uint32_t>* out;
		uint32_t add;
		uint32_t pad[20] = {};
		void operator()(int v) noexcept { out->fetch_add(add << v); }
	};
	struct small
	{
		std::atomic<uint32_t>* out;
		uint32_t add;
		void operator()(int v) const noexcept { out->fetch_add(add << v); }
	};
	const size_t w = sym_pick("workers", 1, 3);
	const int n	   = static_cast<int>(sym_pick("len", 0, 5));
	const uint32_t add = sym<uint32_t>("add");
	std::atomic<uint32_t> sum = 0;
	const uint32_t all = (1u << n) - 1u;
	muu::thread_pool p{ w, 64 };
	switch (sym_pick("kind", 0, 6))
	{
		case 0:
			fn_sum = 0;
			p.for_each(0, n, fn_visit);
			p.wait();
			CHECK(fn_sum.load() == all);
			break;
		case 1:
			fn_sum = 0;
			p.for_each(0, n, &fn_visit);
			p.wait();
			CHECK(fn_sum.load() == all);
			break;
		case 2:
		{
			big b{ &sum, add };
			p.for_each(0, n, b);
			p.wait();
			CHECK(sum.load() == add * all);
			break;
		}
		case 3:
		{
			small b{ &sum, add };
			p.for_each(0, n, b);
			p.wait();
			CHECK(sum.load() == add * all);
			break;
		}
		case 4:
			p.for_each(0, n, small{ &sum, add });
			p.wait();
			CHECK(sum.load() == add * all);
			break;
		case 5:
		{
			const small b{ &sum, add };
			p.for_each(0, n, b);
			p.wait();
			CHECK(sum.load() == add * all);
			break;
		}
		default:
		{
			fn_sum = 0;
			auto pf = &fn_visit;
			p.for_each(0, n, pf);
			p.wait();
			CHECK(fn_sum.load() == all);
			break;
		}
	}
}
// schedules: workers racing each other and the submitter
//@ {"bounds": "2 workers, 3 values, 2 preemptions", "args": ["--preempt=2"], "thorough_args": ["--preempt=3"], "thorough_budget": 800, "budget": 250, "no_native": true}
ENTRY(T03, schedules)
{
	int visits[3] = {};
	size_t batch_of[3] = {};
	muu::thread_pool p{ 2, 4 };
	p.for_each(0, 3, [&](int i, size_t batch) noexcept {
		visits[i]++; // a second visit would be a data race or a wrong count
		batch_of[i] = batch;
	});
	p.wait();
	for (int i = 0; i < 3; i++)
	{
		CHECK(visits[i] == 1);
		CHECK(batch_of[i] < 2);
	}
}
