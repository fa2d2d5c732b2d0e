// U03: uuid order
#include "sym.h"
#include <muu/core.h>
#include <muu/uuid.h>

static muu::uuid arbitrary(const char* name)
{
	muu::uuid id;
	sym_bytes(&id, sizeof(id), name);
	return id;
}
static int ref(const muu::uuid& a, const muu::uuid& b)
{
	int r = 0;
	for (size_t i = 16; i-- > 0;)
	{
		const auto x = static_cast<uint8_t>(a.bytes.value[i]), y = static_cast<uint8_t>(b.bytes.value[i]);
		r = static_cast<int>(sym_ite(x == y, static_cast<uint64_t>(r), sym_ite(x < y, static_cast<uint64_t>(-1), 1)));
	}
	return r;
}
ENTRY(U03, pair)
{
	const auto a = arbitrary("a"), b = arbitrary("b");
	const int want = ref(a, b);
	const int got  = muu::uuid::compare(a, b);
	CHECK((got < 0) == (want < 0));
	CHECK((got > 0) == (want > 0));
	CHECK((a == b) == (want == 0));
	CHECK((a != b) == (want != 0));
	CHECK((a < b) == (want < 0));
	CHECK((a <= b) == (want <= 0));
	CHECK((a > b) == (want > 0));
	CHECK((a >= b) == (want >= 0));
	if (a == b)
		CHECK(std::hash<muu::uuid>{}(a) == std::hash<muu::uuid>{}(b));
}
ENTRY(U03, self)
{
	const auto a = arbitrary("a");
	const auto b = a;
	CHECK(a == a && a == b && !(a != a) && !(a < a) && a <= a && !(a > a) && a >= a);
	CHECK(!(a < b) && a <= b && !(a > b) && a >= b && !(a != b));
	CHECK(muu::uuid::compare(a, a) == 0 && muu::uuid::compare(a, b) == 0);
}
ENTRY(U03, triple)
{
	const auto a = arbitrary("a"), b = arbitrary("b"), c = arbitrary("c");
	if (a < b && b < c)
		CHECK(a < c);
	if (a <= b && b <= c)
		CHECK(a <= c);
	if (a == b && b == c)
		CHECK(a == c);
}
