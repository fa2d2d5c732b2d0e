// Harness interface. The same harness source is (1) compiled by clang to LLVM IR and executed symbolically by
// engine/muusym, and (2) compiled natively by g++ against the real sources to replay concrete inputs (native.cpp).
#pragma once
#include <cstddef>
#include <cstdint>
#include <cstring>
#include <type_traits>
#include <bit>

extern "C"
{
	uint64_t sym_u64raw(const char* name, unsigned bits);
	void sym_bytes(void* p, size_t n, const char* name);
	void sym_assume(bool c);
	void sym_check(bool c, const char* msg);
	void sym_fail(const char* msg);
	void sym_reach(const char* tag);
	void sym_observe(const char* name, uint64_t v);
	void sym_allow_leaks();
	uint64_t sym_concretize(uint64_t v);	   // forks over every feasible value
	uint64_t sym_ite(bool c, uint64_t a, uint64_t b); // branch-free selection
	uint64_t sym_live_allocs();				   // live heap blocks (symbolic run) / tracked blocks (native run)
	bool sym_is_symbolic_run();
}

namespace symh
{
	template <size_t N>
	struct uint_of;
	template <>
	struct uint_of<1>
	{
		using type = uint8_t;
	};
	template <>
	struct uint_of<2>
	{
		using type = uint16_t;
	};
	template <>
	struct uint_of<4>
	{
		using type = uint32_t;
	};
	template <>
	struct uint_of<8>
	{
		using type = uint64_t;
	};
}

// an arbitrary value of T (every bit pattern)
template <typename T>
inline T sym(const char* name)
{
	if constexpr (std::is_same_v<T, bool>)
		return static_cast<bool>(sym_u64raw(name, 1) & 1u);
	else if constexpr (sizeof(T) == 16)
	{
		unsigned __int128 hi = sym_u64raw(name, 64), lo = sym_u64raw(name, 64);
		return static_cast<T>((hi << 64) | lo);
	}
	else if constexpr (std::is_enum_v<T> || std::is_integral_v<T>)
		return static_cast<T>(static_cast<typename symh::uint_of<sizeof(T)>::type>(sym_u64raw(name, sizeof(T) * 8)));
	else
	{
		auto v = static_cast<typename symh::uint_of<sizeof(T)>::type>(sym_u64raw(name, sizeof(T) * 8));
		T t;
		std::memcpy(&t, &v, sizeof(T));
		return t;
	}
}
// an arbitrary integer lo <= x <= hi
template <typename T>
inline T sym_range(const char* name, T lo, T hi)
{
	T v = sym<T>(name);
	sym_assume(v >= lo);
	sym_assume(v <= hi);
	return v;
}
// an arbitrary concrete value lo <= x <= hi (the exploration forks over the values)
inline size_t sym_pick(const char* name, size_t lo, size_t hi)
{
	uint64_t v = sym_u64raw(name, 32);
	sym_assume(v >= lo && v <= hi);
	return static_cast<size_t>(sym_concretize(v));
}

template <typename T>
inline uint64_t sym_bits(const T& v)
{
	if constexpr (std::is_integral_v<T> || std::is_enum_v<T>)
		return static_cast<uint64_t>(v);
	else
	{
		typename symh::uint_of<sizeof(T)>::type u;
		std::memcpy(&u, &v, sizeof(T));
		return u;
	}
}

#define SYM_STR2(x) #x
#define SYM_STR(x)	SYM_STR2(x)
#define CHECK(...)	sym_check((__VA_ARGS__), #__VA_ARGS__ " [" SYM_STR(__LINE__) "]")
#define OBSERVE(x)	sym_observe(#x, sym_bits(x))

#define ENTRY(prop, name)                                                                                                                                      \
	static void prop##_##name##_body();                                                                                                                       \
	extern "C" __attribute__((noinline, used)) void prop##_##name()                                                                                           \
	{                                                                                                                                                          \
		prop##_##name##_body();                                                                                                                               \
		sym_reach("end");                                                                                                                                     \
	}                                                                                                                                                          \
	static void prop##_##name##_body()
