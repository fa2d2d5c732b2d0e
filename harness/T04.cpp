//@file {"src": ["src/thread_pool.cpp", "src/string_param.cpp", "src/thread_name.cpp"], "flags": ["-DMUU_VERIFY_SPIN_ITERATIONS=1"], "native_std": "c++20"}
// T04: waiting on and destroying a thread_pool
#include "sym.h"
#include <utility>
#include <muu/core.h>
#include <muu/thread_pool.h>
#include <thread>

namespace
{
	struct record
	{
		int ran = 0, destroyed = 0;
		bool finished = false;
	};
	struct task
	{
		record* r;
		int steps;
		explicit task(record& rec, int n = 0) noexcept : r{ &rec }, steps{ n } {}
		task(task&& o) noexcept : r{ o.r }, steps{ o.steps } { o.r = nullptr; }
		task& operator=(task&&) = delete;
		~task() noexcept
		{
			if (r)
				r->destroyed++;
		}
		void operator()() noexcept
		{
			r->ran++;
			for (int i = 0; i < steps; i++)
				std::this_thread::yield(); // a task that takes a while
			r->finished = true;
		}
	};
	bool done(const record& r)
	{
		return r.ran == 1 && r.finished && r.destroyed == 1;
	}
}
// wait() after every number of tasks, repeatedly, also with nothing to wait for
//@ {"bounds": "1 worker, up to 2 tasks, 2 rounds, 3 preemptions (4 in the thorough tier)", "args": ["--preempt=3"], "thorough_args": ["--preempt=4"], "thorough_budget": 800, "budget": 250, "no_native": true}
ENTRY(T04, wait)
{
	record r[4];
	size_t n = 0;
	muu::thread_pool p{ 1, 2 };
	for (int round = 0; round < 2; round++)
	{
		const size_t k = sym_pick("tasks", 0, round ? 1 : 2);
		for (size_t i = 0; i < k; i++)
			p.enqueue(task{ r[n++], i == 0 ? 3 : 0 });
		p.wait();
		for (size_t i = 0; i < n; i++)
			CHECK(done(r[i]));
	}
	p.wait();
}
//@ {"bounds": "2 workers, 2 tasks, one of them long, 2 preemptions (3 in the thorough tier)", "args": ["--preempt=2"], "thorough_args": ["--preempt=3"], "thorough_budget": 800, "budget": 250, "no_native": true}
ENTRY(T04, wait_two_workers)
{
	record r[2];
	muu::thread_pool p{ 2, 4 };
	p.enqueue(task{ r[0], 5 });
	p.enqueue(task{ r[1], 0 });
	p.wait();
	CHECK(done(r[0]));
	CHECK(done(r[1]));
}
// two threads wait for the same pool: both are woken
//@ {"bounds": "1 worker, 1 task, 2 waiting threads, 3 preemptions", "args": ["--preempt=3"], "budget": 250, "no_native": true}
ENTRY(T04, two_waiters)
{
	record r;
	muu::thread_pool p{ 1, 2 };
	p.enqueue(task{ r, 2 });
	bool other_ok = false;
	std::thread other{ [&]() noexcept
					   {
						   p.wait();
						   other_ok = done(r);
					   } };
	p.wait();
	CHECK(done(r));
	other.join();
	CHECK(other_ok);
}
// destruction at any moment: no task runs twice, a started task is finished, every task object is destroyed exactly once,
// nothing is leaked and nothing touches the pool afterwards
//@ {"bounds": "1 worker, up to 2 tasks, 3 preemptions (4 in the thorough tier)", "args": ["--preempt=3"], "thorough_args": ["--preempt=4"], "thorough_budget": 800, "budget": 250, "no_native": true}
ENTRY(T04, destroy)
{
	record r[2];
	const size_t k = sym_pick("tasks", 0, 2);
	{
		muu::thread_pool p{ 1, 2 };
		for (size_t i = 0; i < k; i++)
			p.enqueue(task{ r[i], 2 });
	}
	for (size_t i = 0; i < k; i++)
	{
		CHECK(r[i].ran <= 1);
		CHECK(r[i].finished == (r[i].ran == 1));
		CHECK(r[i].destroyed == 1);
	}
}
//@ {"bounds": "2 workers, up to 2 tasks, 2 preemptions (3 in the thorough tier)", "args": ["--preempt=2"], "thorough_args": ["--preempt=3"], "thorough_budget": 800, "budget": 250, "no_native": true}
ENTRY(T04, destroy_two_workers)
{
	record r[2];
	const size_t k = sym_pick("tasks", 0, 2);
	{
		muu::thread_pool p{ 2, 2 };
		for (size_t i = 0; i < k; i++)
			p.enqueue(task{ r[i], 1 });
	}
	for (size_t i = 0; i < k; i++)
	{
		CHECK(r[i].ran <= 1);
		CHECK(r[i].finished == (r[i].ran == 1));
		CHECK(r[i].destroyed == 1);
	}
}
// pools are movable; the assigned-to pool is destroyed like any other
//@ {"bounds": "pools of 1 worker, 1 preemption", "args": ["--preempt=1"], "budget": 250, "no_native": true}
ENTRY(T04, move)
{
	record r[3];
	{
		muu::thread_pool a{ 1, 1 };
		a.enqueue(task{ r[0] });
		muu::thread_pool b{ std::move(a) };
		b.enqueue(task{ r[1] });
		b.wait();
		CHECK(done(r[0]));
		CHECK(done(r[1]));
		CHECK(b.workers() == 1);
		if (sym_pick("assign", 0, 1))
		{
			muu::thread_pool c{ 1, 1 };
			c.enqueue(task{ r[2] });
			if (sym_pick("wait", 0, 1))
				c.wait();
			c = std::move(b);
			c.wait();
			CHECK(r[2].destroyed == 1); // the old pool is gone
		}
	}
}
// sizes are what was asked for, within the documented limits
//@ {"bounds": "1 or 2 workers, 0 to 5 slots asked for, no preemption", "args": ["--preempt=0"], "budget": 250, "no_native": true}
ENTRY(T04, capacity)
{
	const size_t w = sym_pick("workers", 0, 2), q = sym_pick("queue", 0, 5);
	muu::thread_pool p{ w, q };
	CHECK(p.workers() >= 1);
	if (w)
		CHECK(p.workers() == w);
	CHECK(p.capacity() >= (q ? q : 1));
	p.wait();
}
