//@file {"native_std": "c++20"}
// K06: static_array. The elements are template arguments, so the contents that can be checked are those instantiated here:
// every array of 1 to 3 elements over {-1, 0, 5} (39), every pair of them (1521), picked by symbolic indices.
#include "sym.h"
#include <muu/core.h>
#include <muu/static_array.h>
#include <utility>

struct row
{
	const int* values;
	size_t size;
	bool empty;
	const int *data, *begin, *end, *cbegin, *cend, *abegin, *aend;
	int front, back;
};
struct cmp
{
	bool eq, ne, lt, le, gt, ge;
};
struct content
{
	int n;
	int v[3];
};
static constexpr content nth(int i) // 0..2: one element, 3..11: two, 12..38: three
{
	constexpr int alphabet[3] = { -1, 0, 5 };
	content c{ 1, { 0, 0, 0 } };
	int k = i;
	if (i >= 12)
	{
		c.n = 3;
		k = i - 12;
	}
	else if (i >= 3)
	{
		c.n = 2;
		k = i - 3;
	}
	for (int j = c.n; j-- > 0; k /= 3)
		c.v[j] = alphabet[k % 3];
	return c;
}
template <int I, int... J>
static muu::static_array<int, nth(I).v[J]...> make(std::integer_sequence<int, J...>);
template <int I>
using arr = decltype(make<I>(std::make_integer_sequence<int, nth(I).n>{}));

template <typename A>
static row row_of()
{
	constexpr A a{};
	return { A::values, a.size(), a.empty(), a.data(), a.begin(), a.end(), a.cbegin(), a.cend(), begin(a), end(a), a.front(), a.back() };
}
template <typename A, typename B>
static constexpr cmp cmp_of()
{
	return { A{} == B{}, A{} != B{}, A{} < B{}, A{} <= B{}, A{} > B{}, A{} >= B{} };
}
template <int N, int... P>
static const cmp* table_of(std::integer_sequence<int, P...>)
{
	static constexpr cmp t[] = { cmp_of<arr<P / N>, arr<P % N>>()... };
	return t;
}
template <int... I>
static const row* rows_of(std::integer_sequence<int, I...>)
{
	static const row t[] = { row_of<arr<I>>()... };
	return t;
}

//@ {"bounds": "every array of 1..3 elements over {-1,0,5}"}
ENTRY(K06, access)
{
	const row* rows = rows_of(std::make_integer_sequence<int, 39>{});
	const int i = sym_pick("array", 0, 38);
	const content c = nth(i);
	const row& r = rows[i];
	const size_t k = sym_range<size_t>("index", 0, 2);
	CHECK(r.size == static_cast<size_t>(c.n));
	CHECK(!r.empty);
	CHECK(r.data == r.values && r.begin == r.values && r.end == r.values + c.n && r.cbegin == r.begin && r.cend == r.end && r.abegin == r.begin && r.aend == r.end);
	CHECK(r.front == c.v[0]);
	CHECK(r.back == c.v[c.n - 1]);
	if (k < r.size)
		CHECK(r.begin[k] == c.v[k]);
}
// operator[] with every index
ENTRY(K06, subscript)
{
	constexpr muu::static_array<uint8_t, 7, 0, 255, 3, 9> a{};
	constexpr muu::static_array<int64_t, INT64_MIN, INT64_MAX, -1> b{};
	constexpr muu::static_array<char, 'x'> c{};
	const size_t k = sym_range<size_t>("index", 0, 4);
	CHECK(a[k] == a.begin()[k]);
	CHECK(a[k] == (k == 0 ? 7 : k == 1 ? 0 : k == 2 ? 255 : k == 3 ? 3 : 9));
	if (k < 3)
		CHECK(b[k] == (k == 0 ? INT64_MIN : k == 1 ? INT64_MAX : -1));
	if (k < 1)
		CHECK(c[k] == 'x' && c.front() == 'x' && c.back() == 'x' && c.size() == 1);
	int n = 0, sum = 0;
	for (auto it = a.begin(), e = a.end(); it != e; ++it)
	{
		n++;
		sum += *it;
	}
	CHECK(n == 5);
	CHECK(sum == 7 + 255 + 3 + 9);
}
//@ {"bounds": "every pair of arrays of 1..3 elements over {-1,0,5} (1521 pairs), the pair symbolic"}
ENTRY(K06, order)
{
	const cmp* table = table_of<39>(std::make_integer_sequence<int, 39 * 39>{});
	static content all[39];
	for (int i = 0; i < 39; i++)
		all[i] = nth(i);
	const uint32_t i = sym_range<uint32_t>("a", 0, 38), j = sym_range<uint32_t>("b", 0, 38);
	const content &a = all[i], &b = all[j];
	// lexicographic order of the two sequences
	int o = (a.n > b.n) - (a.n < b.n);
	for (int k = 3; k-- > 0;)
		o = sym_ite((a.n > k) & (b.n > k), sym_ite(a.v[k] < b.v[k], -1, sym_ite(a.v[k] > b.v[k], 1, o)), o);
	const cmp& t = table[i * 39 + j];
	CHECK(t.eq == (o == 0));
	CHECK(t.ne == (o != 0));
	CHECK(t.lt == (o < 0));
	CHECK(t.le == (o <= 0));
	CHECK(t.gt == (o > 0));
	CHECK(t.ge == (o >= 0));
}
