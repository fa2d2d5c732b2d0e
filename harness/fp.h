// Helpers for properties over floating-point values.
#pragma once
#include "sym.h"

// an arbitrary whole number -2^(bits-1) <= x < 2^(bits-1), as a T: sums and products of such values are exact in T as long as
// they stay below 2^24 (float) or 2^53 (double), so the order of the operations does not matter
template <typename T>
inline T whole(const char* name, unsigned bits)
{
	const uint64_t raw = sym_u64raw(name, bits) & ((uint64_t{ 1 } << bits) - 1u);
	const int v		   = static_cast<int>(static_cast<int64_t>(raw << (64 - bits)) >> (64 - bits));
	return static_cast<T>(v);
}
// 0 <= x < 2^bits
template <typename T>
inline T whole_positive(const char* name, unsigned bits)
{
	return static_cast<T>(static_cast<int>(sym_u64raw(name, bits) & ((uint64_t{ 1 } << bits) - 1u)));
}
// the same value, or both not a number
template <typename T>
inline bool same(T a, T b)
{
	if constexpr (std::is_integral_v<T>)
		return a == b;
	else
		return bool(a == b) | (bool(a != a) & bool(b != b));
}
