// Native replay runtime: reads the inputs of one run from a file (one hex value per line, in call order), runs one harness
// entry against the real code and reports what happened.  usage: replay <entry> <inputs-file>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <dlfcn.h>
#include <random>
#include <string>
#include <unistd.h>
#include <vector>
#include <exception>

static std::vector<unsigned long long> vals;
static size_t pos = 0;
static int failures = 0;

static uint64_t nextValue()
{
	return pos < vals.size() ? vals[pos++] : (pos++, 0);
}

extern "C"
{
	uint64_t sym_u64raw(const char*, unsigned bits)
	{
		uint64_t v = nextValue();
		return bits >= 64 ? v : v & ((1ull << bits) - 1);
	}
	void sym_bytes(void* p, size_t n, const char*)
	{
		for (size_t i = 0; i < n; i++)
			static_cast<unsigned char*>(p)[i] = (unsigned char)nextValue();
	}
	void sym_assume(bool c)
	{
		if (!c)
		{
			printf("ASSUME-FAILED\n");
			fflush(stdout);
			_exit(77);
		}
	}
	void sym_check(bool c, const char* m)
	{
		if (!c)
		{
			printf("CHECK-FAILED %s\n", m);
			fflush(stdout);
			failures++;
		}
	}
	void sym_fail(const char* m)
	{
		sym_check(false, m);
		fflush(stdout);
		_exit(3);
	}
	void sym_reach(const char* t)
	{
		printf("REACH %s\n", t);
	}
	void sym_observe(const char* n, uint64_t v)
	{
		printf("OBS %llx %s\n", (unsigned long long)v, n);
	}
	void sym_allow_leaks()
	{}
	uint64_t sym_concretize(uint64_t v)
	{
		return v;
	}
	uint64_t sym_ite(bool c, uint64_t a, uint64_t b)
	{
		return c ? a : b;
	}
	bool sym_is_symbolic_run()
	{
		return false;
	}
}

// the random source is an input too
unsigned int std::random_device::_M_getval()
{
	return (unsigned)nextValue();
}

static void onTerminate()
{
	printf("TERMINATE\n");
	fflush(stdout);
	_exit(5);
}

int main(int argc, char** argv)
{
	if (argc < 3)
		return 2;
	FILE* f = fopen(argv[2], "r");
	if (!f)
		return 2;
	char buf[128];
	while (fgets(buf, sizeof buf, f))
		vals.push_back(strtoull(buf, nullptr, 16));
	fclose(f);
	std::set_terminate(onTerminate);
	auto fn = (void (*)())dlsym(RTLD_DEFAULT, argv[1]);
	if (!fn)
	{
		fprintf(stderr, "no entry %s\n", argv[1]);
		return 2;
	}
	try
	{
		fn();
	}
	catch (...)
	{
		printf("UNCAUGHT-EXCEPTION\n");
		fflush(stdout);
		_exit(6);
	}
	fflush(stdout);
	return failures ? 3 : 0;
}
