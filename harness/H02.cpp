// H02: fnv1a
#include "sym.h"
#include <muu/core.h>
#include <muu/hashing.h>
#include <string_view>
#include "utf_ref.h"

template <size_t Bits>
struct fnv;
template <>
struct fnv<32>
{
	using T						 = uint32_t;
	static constexpr T prime	 = 16777619u;
	static constexpr T basis	 = 2166136261u;
};
template <>
struct fnv<64>
{
	using T					 = uint64_t;
	static constexpr T prime = 1099511628211ull;
	static constexpr T basis = 14695981039346656037ull;
};
template <>
struct fnv<128>
{
	using T					 = unsigned __int128;
	static constexpr T prime = (T{ 1 } << 88) + (1u << 8) + 0x3B;
	static constexpr T basis = (T{ 0x6c62272e07bb0142ull } << 64) | 0x62b821756295c58dull;
};
template <size_t Bits>
static auto ref(const uint8_t* m, size_t n)
{
	using F			  = fnv<Bits>;
	typename F::T h = F::basis;
	for (size_t i = 0; i < n; i++)
		h = static_cast<typename F::T>((h ^ m[i]) * F::prime);
	return h;
}
static uint8_t msg[64];

// every way of feeding n bytes gives the published value
template <size_t Bits>
static void feed(size_t max)
{
	const size_t n = sym_pick("n", 0, max);
	sym_bytes(msg, n, "msg");
	const auto want = ref<Bits>(msg, n);
	muu::fnv1a<Bits> whole, bytes, text, mixed;
	CHECK(whole.value() == fnv<Bits>::basis);
	whole(msg, n);
	CHECK(whole.value() == want);
	CHECK(whole.value() == want);
	for (size_t i = 0; i < n; i++)
		bytes(msg[i]);
	CHECK(bytes.value() == want);
	text(std::string_view{ reinterpret_cast<const char*>(msg), n });
	CHECK(text.value() == want);
	const size_t cut = sym_pick("cut", 0, n);
	mixed(msg, cut);
	muu::fnv1a<Bits> copy{ mixed };
	for (size_t i = cut; i < n; i++)
		mixed(static_cast<std::byte>(msg[i]));
	CHECK(mixed.value() == want);
	copy(std::u8string_view{ reinterpret_cast<const char8_t*>(msg) + cut, n - cut });
	CHECK(copy.value() == want);
	copy("")(nullptr, 0);
	CHECK(copy.value() == want);
}
//@ {"bounds": "every message of 0..12 bytes, every split"}
ENTRY(H02, feed32) { feed<32>(12); }
//@ {"bounds": "every message of 0..12 bytes, every split"}
ENTRY(H02, feed64) { feed<64>(12); }
//@ {"bounds": "every message of 0..12 bytes, every split"}
ENTRY(H02, feed128) { feed<128>(12); }
//@ {"bounds": "every message of 0..40 bytes, every split", "tier": "thorough", "budget": 400}
ENTRY(H02, feed64_long) { feed<64>(40); }
//@ {"bounds": "every message of 0..40 bytes, every split", "tier": "thorough", "budget": 400}
ENTRY(H02, feed128_long) { feed<128>(40); }

// wider text is hashed as its UTF-8 form
template <size_t Bits, typename C>
static void wide(size_t k)
{
	uint8_t u[16];
	C w[8];
	size_t nu = 0, nw = 1;
	w[0]	= 'x';
	u[nu++] = 'x';
	for (size_t i = 0; i < k; i++)
	{
		const uint32_t c = sym_scalar("c");
		nu += enc8(c, u + nu);
		if constexpr (sizeof(C) == 2)
			nw += enc16(c, w + nw);
		else
			w[nw++] = static_cast<C>(c);
		sym_assume(c != 0xFEFF);
	}
	u[nu++] = 'y';
	w[nw++] = 'y';
	muu::fnv1a<Bits> a;
	a(std::basic_string_view<C>{ w, nw });
	CHECK(a.value() == ref<Bits>(u, nu));
}
//@ {"bounds": "every text of two code points between 'x' and 'y'"}
ENTRY(H02, utf32) { wide<64, char32_t>(2); }
//@ {"bounds": "every text of two code points between 'x' and 'y'"}
ENTRY(H02, wchar) { wide<32, wchar_t>(2); }
//@ {"bounds": "every code point between 'x' and 'y'"}
ENTRY(H02, utf16) { wide<128, char16_t>(1); }
