//@file {"src": ["src/thread_pool.cpp", "src/string_param.cpp", "src/thread_name.cpp"], "flags": ["-DMUU_VERIFY_SPIN_ITERATIONS=1"], "native_std": "c++20"}
// T02: thread_pool runs and destroys every task exactly once. The schedule of submitters and workers is explored by the
// engine: every mutex, condition variable and atomic operation is a choice point (bounded number of preemptions and of
// early time-outs of timed waits), data races are detected with vector clocks.
#include "sym.h"
#include <muu/core.h>
#include <muu/thread_pool.h>
#include <thread>
#include <atomic>

namespace
{
	// counts what happens to the task holding it (the counters are written by one thread at a time, which the race
	// detector confirms)
	struct record
	{
		int ran		  = 0;
		int destroyed = 0; // live instances destroyed
		uint32_t got  = 0;
		size_t worker = 99;
	};
	// a task with a non-trivial move and destructor: exactly one instance is live, the last one to be destroyed counts
	struct task
	{
		record* r;
		uint32_t v;
		explicit task(record& rec, uint32_t val) noexcept : r{ &rec }, v{ val } {}
		task(task&& o) noexcept : r{ o.r }, v{ o.v } { o.r = nullptr; }
		task& operator=(task&&) = delete;
		~task() noexcept
		{
			if (r)
				r->destroyed++;
		}
		void operator()(size_t worker) noexcept
		{
			CHECK(r != nullptr);
			CHECK(r->destroyed == 0);
			r->ran++;
			r->got	  = v;
			r->worker = worker;
		}
	};
	void check_done(const record& r, uint32_t v, size_t workers)
	{
		CHECK(r.ran == 1);
		CHECK(r.destroyed == 1);
		CHECK(r.got == v);
		CHECK(r.worker < workers);
	}
}

//@ {"bounds": "1 worker, room for 1, 2 tasks, 3 preemptions (5 in the thorough tier)", "args": ["--preempt=3"], "thorough_args": ["--preempt=5"], "thorough_budget": 800, "budget": 250, "no_native": true}
ENTRY(T02, one_worker_full_queue)
{
	record r[2];
	const uint32_t a = sym<uint32_t>("a"), b = sym<uint32_t>("b");
	muu::thread_pool p{ 1, 1 };
	CHECK(p.workers() == 1);
	CHECK(p.capacity() >= 1);
	p.enqueue(task{ r[0], a });
	p.enqueue(task{ r[1], b });
	p.wait();
	check_done(r[0], a, 1);
	check_done(r[1], b, 1);
}
//@ {"bounds": "2 workers, room for 2, 3 tasks, 1 preemption (3 in the thorough tier)", "args": ["--preempt=1"], "thorough_args": ["--preempt=3"], "thorough_budget": 800, "budget": 250, "no_native": true}
ENTRY(T02, two_workers)
{
	record r[3];
	const uint32_t a = sym<uint32_t>("a"), b = sym<uint32_t>("b"), c = sym<uint32_t>("c");
	muu::thread_pool p{ 2, 2 };
	CHECK(p.workers() == 2);
	CHECK(p.capacity() >= 2);
	p.enqueue(task{ r[0], a });
	p.enqueue(task{ r[1], b });
	p.enqueue(task{ r[2], c });
	p.wait();
	check_done(r[0], a, 2);
	check_done(r[1], b, 2);
	check_done(r[2], c, 2);
}
//@ {"bounds": "2 workers, 1 task, 2 preemptions (3 in the thorough tier)", "args": ["--preempt=2"], "thorough_args": ["--preempt=3"], "thorough_budget": 800, "budget": 250, "no_native": true}
ENTRY(T02, two_workers_one_task)
{
	record r;
	const uint32_t a = sym<uint32_t>("a");
	muu::thread_pool p{ 2, 4 };
	p.enqueue(task{ r, a });
	p.wait();
	check_done(r, a, 2);
}
// two threads submit at the same time
//@ {"bounds": "1 worker, room for 1, 2 submitting threads with 1 task each, 3 preemptions (4 in the thorough tier)", "args": ["--preempt=3"], "thorough_args": ["--preempt=4"], "thorough_budget": 800, "budget": 250, "no_native": true}
ENTRY(T02, two_submitters)
{
	record r[2];
	const uint32_t a = sym<uint32_t>("a"), b = sym<uint32_t>("b");
	muu::thread_pool p{ 1, 1 };
	std::thread other{ [&]() noexcept { p.enqueue(task{ r[1], b }); } };
	p.enqueue(task{ r[0], a });
	other.join();
	p.wait();
	check_done(r[0], a, 1);
	check_done(r[1], b, 1);
}
// the ring buffer of a queue wraps around several times, in batches of any size
//@ {"bounds": "1 worker, room for 3, up to 3 batches of up to 4 tasks, waiting in between or not, no preemption", "args": ["--preempt=0"], "budget": 250, "no_native": true}
ENTRY(T02, wrap_around)
{
	record r[12];
	uint32_t v[12];
	size_t n = 0;
	const size_t room = sym_pick("room", 2, 3);
	muu::thread_pool p{ 1, room };
	for (size_t batch = 0; batch < 3; batch++)
	{
		const size_t k = sym_pick("k", 0, 4);
		for (size_t i = 0; i < k; i++, n++)
		{
			v[n] = sym<uint32_t>("v");
			p.enqueue(task{ r[n], v[n] });
		}
		if (batch == 2 || sym_pick("w", 0, 1))
		{
			p.wait();
			for (size_t i = 0; i < n; i++)
				check_done(r[i], v[i], 1);
		}
	}
}
