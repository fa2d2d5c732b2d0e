//@file {"variants": {"": [], "cpp17": ["-std=c++17"]}, "native_std": "c++20"}
// T01: spin_mutex. The schedule is explored by the engine (every visible operation is a choice point, bounded number of
// preemptions); data races are detected with vector clocks that follow the memory orders actually used.
#include "sym.h"
#include <muu/core.h>
#include <muu/spin_mutex.h>
#include <thread>
#include <mutex>

namespace
{
	struct shared
	{
		muu::spin_mutex m;
		int inside	= 0; // plain: protected by m
		int entries = 0;
		uint32_t value = 0;
	};
	void locked_section(shared& s, uint32_t add) noexcept
	{
		s.m.lock();
		CHECK(s.inside == 0);
		s.inside = 1;
		s.value += add;
		s.entries++;
		CHECK(s.inside == 1);
		s.inside = 0;
		s.m.unlock();
	}
}
//@ {"bounds": "2 threads plus the main thread, 2 sections each in one of them, 6 preemptions (10 in the thorough tier)", "args": ["--preempt=6"], "thorough_args": ["--preempt=10"], "budget": 200, "no_native": true}
ENTRY(T01, two_threads)
{
	shared s;
	const uint32_t a = sym<uint32_t>("a"), b = sym<uint32_t>("b"), c = sym<uint32_t>("c");
	std::thread t1{ [&]() noexcept { locked_section(s, a); locked_section(s, b); } };
	locked_section(s, c);
	t1.join();
	CHECK(s.entries == 3);
	CHECK(s.value == a + b + c);
	CHECK(s.m.try_lock());
	CHECK(!s.m.try_lock());
	s.m.unlock();
}
//@ {"bounds": "3 threads, 5 preemptions (8 in the thorough tier)", "args": ["--preempt=5"], "thorough_args": ["--preempt=8"], "budget": 200, "no_native": true}
ENTRY(T01, three_threads)
{
	shared s;
	const uint32_t a = sym<uint32_t>("a"), b = sym<uint32_t>("b"), c = sym<uint32_t>("c");
	std::thread t1{ [&]() noexcept { locked_section(s, a); } };
	std::thread t2{ [&]() noexcept { locked_section(s, b); } };
	locked_section(s, c);
	t1.join();
	t2.join();
	CHECK(s.entries == 3);
	CHECK(s.value == a + b + c);
}
// try_lock against lock and try_lock
//@ {"bounds": "3 threads (two try_lock, one lock), 5 preemptions (8 in the thorough tier)", "args": ["--preempt=5"], "thorough_args": ["--preempt=8"], "budget": 200, "no_native": true}
ENTRY(T01, try_lock)
{
	shared s;
	int got1 = 0, got2 = 0;
	const auto attempt = [&](int& got) noexcept
	{
		if (!s.m.try_lock())
			return;
		CHECK(s.inside == 0);
		s.inside = 1;
		got = 1;
		s.entries++;
		s.inside = 0;
		s.m.unlock();
	};
	std::thread t1{ [&]() noexcept { attempt(got1); } };
	std::thread t2{ [&]() noexcept { attempt(got2); } };
	locked_section(s, 1);
	t1.join();
	t2.join();
	CHECK(s.entries == 1 + got1 + got2);
	int got3 = 0;
	attempt(got3);
	CHECK(got3 == 1); // free: must succeed
}
// the mutex works with the standard lock types
//@ {"bounds": "2 threads, std::lock_guard / std::unique_lock(try_to_lock), 6 preemptions (10 in the thorough tier)", "args": ["--preempt=6"], "thorough_args": ["--preempt=10"], "budget": 200, "no_native": true}
ENTRY(T01, std_locks)
{
	shared s;
	bool had = false;
	std::thread t1{ [&]() noexcept
					{
						std::unique_lock<muu::spin_mutex> l{ s.m, std::try_to_lock };
						had = l.owns_lock();
						if (l)
						{
							CHECK(s.inside == 0);
							s.inside = 1;
							s.entries++;
							s.inside = 0;
						}
					} };
	{
		std::lock_guard<muu::spin_mutex> g{ s.m };
		CHECK(s.inside == 0);
		s.inside = 1;
		s.entries++;
		s.inside = 0;
	}
	t1.join();
	CHECK(s.entries == 1 + (had ? 1 : 0));
}
// single-threaded facts and locking from both states
ENTRY(T01, sequential)
{
	muu::spin_mutex m;
	const size_t n = sym_pick("n", 0, 3);
	for (size_t i = 0; i < n; i++)
	{
		if (sym<bool>("use_try"))
			CHECK(m.try_lock());
		else
			m.lock();
		CHECK(!m.try_lock());
		CHECK(!m.try_lock());
		m.unlock();
	}
	CHECK(m.try_lock());
	m.unlock();
}
// a waiter that has to wait for a long time (well past the point where the back-off stops growing) still excludes
//@ {"bounds": "2 threads, the holder gives way 400 times and locks again, 3 preemptions", "args": ["--preempt=3"], "budget": 200, "no_native": true, "variants": [""]}
ENTRY(T01, long_wait)
{
	shared s;
	const size_t gap = sym_pick("gap", 0, 65);
	std::thread t1{ [&]() noexcept
					{
						s.m.lock();
						CHECK(s.inside == 0);
						s.inside = 1;
						for (int i = 0; i < 400; i++)
							std::this_thread::yield();
						CHECK(s.inside == 1);
						s.inside = 0;
						s.m.unlock();
						for (size_t i = 0; i < gap; i++)
							std::this_thread::yield();
						locked_section(s, 2);
					} };
	locked_section(s, 1);
	t1.join();
	CHECK(s.entries == 2);
	CHECK(s.value == 3);
}
