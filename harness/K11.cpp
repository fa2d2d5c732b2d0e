//@file {"native_std": "c++20"}
// K11: scope guards
#include "sym.h"
#include <utility>
#include <muu/core.h>
#include <muu/scope_guard.h>

struct boom {};
static int a_, f_, s_; // guard, on-failure, on-success
static int sa_, sf_, ss_;
static void free_fn() noexcept { a_++; }
struct trivially { void operator()() const noexcept { sa_++; } };
struct trivially_f { void operator()() const noexcept { sf_++; } };
struct trivially_s { void operator()() const noexcept { ss_++; } };

static void scope(bool thr, bool da, bool df, bool ds)
{
	int& ra = a_;
	auto la = [&ra]() noexcept { ra++; };
	auto lf = []() noexcept { f_++; };
	int& rs = s_;
	auto ls = [&rs]() noexcept { rs++; };
	muu::scope_guard g1{ la };
	muu::scope_fail g2{ [&lf]() noexcept { lf(); } };
	muu::scope_success g3{ ls };
	muu::scope_guard g4{ trivially{} };
	muu::scope_fail g5{ trivially_f{} };
	muu::scope_success g6{ trivially_s{} };
	CHECK(!g1.dismissed() && !g2.dismissed() && !g3.dismissed() && !g4.dismissed() && !g5.dismissed() && !g6.dismissed());
	if (da)
	{
		g1.dismiss();
		g4.dismiss();
	}
	if (df)
	{
		g2.dismiss();
		g5.dismiss();
	}
	if (ds)
	{
		g3.dismiss();
		g6.dismiss();
	}
	CHECK(g1.dismissed() == da && g4.dismissed() == da);
	CHECK(g2.dismissed() == df && g5.dismissed() == df);
	CHECK(g3.dismissed() == ds && g6.dismissed() == ds);
	CHECK(a_ == 0 && f_ == 0 && s_ == 0); // nothing runs early
	CHECK(sa_ == 0 && sf_ == 0 && ss_ == 0);
	if (thr)
		throw boom{};
}
static void reset()
{
	a_ = f_ = s_ = sa_ = sf_ = ss_ = 0;
}
static void expect(bool thr, bool da, bool df, bool ds)
{
	CHECK(a_ == (da ? 0 : 1));
	CHECK(sa_ == (da ? 0 : 1));
	CHECK(f_ == (thr && !df ? 1 : 0));
	CHECK(sf_ == (thr && !df ? 1 : 0));
	CHECK(s_ == (!thr && !ds ? 1 : 0));
	CHECK(ss_ == (!thr && !ds ? 1 : 0));
}
static bool flag(const char* n)
{
	return sym_pick(n, 0, 1);
}
//@ {"bounds": "left normally or by an exception; each guard dismissed or not"}
ENTRY(K11, plain)
{
	const bool t = flag("throws"), da = flag("da"), df = flag("df"), ds = flag("ds");
	reset();
	try
	{
		scope(t, da, df, ds);
		CHECK(!t);
	}
	catch (boom&)
	{
		CHECK(t);
	}
	expect(t, da, df, ds);
}
// the scope runs in a destructor while another exception unwinds the stack
struct runs_in_destructor
{
	bool t, da, df, ds;
	~runs_in_destructor()
	{
		reset();
		try
		{
			scope(t, da, df, ds);
			CHECK(!t);
		}
		catch (boom&)
		{
			CHECK(t);
		}
		expect(t, da, df, ds);
	}
};
//@ {"bounds": "the same, while one or two other exceptions are in flight"}
ENTRY(K11, during_unwinding)
{
	const bool t = flag("throws"), da = flag("da"), df = flag("df"), ds = flag("ds"), deep = flag("deep");
	struct outer
	{
		bool t, da, df, ds;
		~outer()
		{
			try
			{
				runs_in_destructor x{ t, da, df, ds };
				throw 2;
			}
			catch (int)
			{
			}
		}
	};
	bool caught = false;
	try
	{
		if (deep)
		{
			outer x{ t, da, df, ds };
			throw boom{};
		}
		runs_in_destructor x{ t, da, df, ds };
		throw boom{};
	}
	catch (boom&)
	{
		caught = true;
	}
	CHECK(caught);
	expect(t, da, df, ds);
}
// the scope is inside a handler
ENTRY(K11, in_handler)
{
	const bool t = flag("throws"), da = flag("da"), df = flag("df"), ds = flag("ds");
	try
	{
		throw 1;
	}
	catch (int)
	{
		reset();
		try
		{
			scope(t, da, df, ds);
		}
		catch (boom&)
		{
		}
		expect(t, da, df, ds);
	}
}
// the guard's scope is left with its own try/catch completed
ENTRY(K11, caught_inside)
{
	reset();
	{
		muu::scope_fail f{ []() noexcept { f_++; } };
		muu::scope_success s{ []() noexcept { s_++; } };
		muu::scope_guard g{ free_fn };
		try
		{
			throw 1;
		}
		catch (int)
		{
		}
		CHECK(a_ == 0 && f_ == 0 && s_ == 0);
	}
	CHECK(a_ == 1 && f_ == 0 && s_ == 1);
}
// callables by reference and by value; state is kept
struct counter
{
	int n;
	int* out;
	void operator()() noexcept { *out += ++n; }
};
ENTRY(K11, callables)
{
	const int v = sym_range<int>("v", 0, 1000);
	int out = 0;
	counter c{ v, &out };
	{
		muu::scope_guard<counter&> g{ c };
		CHECK(out == 0);
	}
	CHECK(out == v + 1 && c.n == v + 1);
	out = 0;
	{
		muu::scope_guard<counter> g{ c };
		CHECK(out == 0);
	}
	CHECK(out == v + 2 && c.n == v + 1);
	out = 0;
	{
		muu::scope_guard g{ counter{ v, &out } };
	}
	CHECK(out == v + 1);
	reset();
	{
		void (*p)() noexcept = free_fn;
		muu::scope_guard g{ p };
		muu::scope_success h{ free_fn };
		muu::scope_fail i{ free_fn };
	}
	CHECK(a_ == 2);
	// exactly once each, in reverse order
	int order = 0;
	{
		muu::scope_guard g1{ [&]() noexcept { order = order * 10 + 1; } };
		muu::scope_guard g2{ [&]() noexcept { order = order * 10 + 2; } };
		muu::scope_success g3{ [&]() noexcept { order = order * 10 + 3; } };
	}
	CHECK(order == 321);
}
