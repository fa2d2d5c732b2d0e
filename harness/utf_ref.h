// reference UTF encoders / validity used by the C0x harnesses
#pragma once
#include "sym.h"
#include <string_view>

// incremental reference UTF-8 decoder over Table 3-7 (well-formed byte sequences)
struct ref_utf8
{
	uint32_t acc  = 0;
	int need	  = 0; // continuation bytes still to come
	uint8_t lo = 0x80, hi = 0xBF;
	bool bad  = false;
	bool done = false;

	void feed(uint8_t b)
	{
		done = false;
		if (need == 0)
		{
			lo = 0x80, hi = 0xBF;
			if (b <= 0x7F)
				acc = b, done = true;
			else if (b >= 0xC2 && b <= 0xDF)
				acc = b & 0x1F, need = 1;
			else if (b >= 0xE0 && b <= 0xEF)
			{
				acc = b & 0x0F, need = 2;
				if (b == 0xE0)
					lo = 0xA0;
				if (b == 0xED)
					hi = 0x9F;
			}
			else if (b >= 0xF0 && b <= 0xF4)
			{
				acc = b & 0x07, need = 3;
				if (b == 0xF0)
					lo = 0x90;
				if (b == 0xF4)
					hi = 0x8F;
			}
			else
				bad = true;
			return;
		}
		if (b < lo || b > hi)
		{
			bad = true;
			return;
		}
		lo = 0x80, hi = 0xBF;
		acc	 = (acc << 6) | (b & 0x3F);
		done = --need == 0;
	}
};

inline bool scalar(uint32_t cp)
{
	return cp <= 0x10FFFF && !(cp >= 0xD800 && cp <= 0xDFFF);
}
// encodings of a scalar value, returning the number of units (the caller forks on the length class)
template <typename T>
inline size_t enc8(uint32_t cp, T* o)
{
	if (cp < 0x80)
	{
		o[0] = static_cast<T>(cp);
		return 1;
	}
	if (cp < 0x800)
	{
		o[0] = static_cast<T>(0xC0 | (cp >> 6));
		o[1] = static_cast<T>(0x80 | (cp & 0x3F));
		return 2;
	}
	if (cp < 0x10000)
	{
		o[0] = static_cast<T>(0xE0 | (cp >> 12));
		o[1] = static_cast<T>(0x80 | ((cp >> 6) & 0x3F));
		o[2] = static_cast<T>(0x80 | (cp & 0x3F));
		return 3;
	}
	o[0] = static_cast<T>(0xF0 | (cp >> 18));
	o[1] = static_cast<T>(0x80 | ((cp >> 12) & 0x3F));
	o[2] = static_cast<T>(0x80 | ((cp >> 6) & 0x3F));
	o[3] = static_cast<T>(0x80 | (cp & 0x3F));
	return 4;
}
template <typename T>
inline size_t enc16(uint32_t cp, T* o)
{
	if (cp < 0x10000)
	{
		o[0] = static_cast<T>(cp);
		return 1;
	}
	const uint32_t v = cp - 0x10000;
	o[0]			 = static_cast<T>(0xD800 + (v >> 10));
	o[1]			 = static_cast<T>(0xDC00 + (v & 0x3FF));
	return 2;
}
template <typename T>
inline size_t enc(uint32_t cp, T* o)
{
	if constexpr (sizeof(T) == 1)
		return enc8(cp, o);
	else if constexpr (sizeof(T) == 2)
		return enc16(cp, o);
	else
	{
		o[0] = static_cast<T>(cp);
		return 1;
	}
}
// an arbitrary scalar value of a chosen UTF-8 length (the length is concrete, the value symbolic)
inline uint32_t sym_scalar(const char* name)
{
	static constexpr uint32_t lim[5] = { 0, 0x80, 0x800, 0x10000, 0x110000 };
	const size_t k					 = sym_pick("utf8_len", 1, 4);
	const uint32_t c				 = sym<uint32_t>(name);
	sym_assume(c >= lim[k - 1] && c < lim[k]);
	if (k == 3)
		sym_assume(c < 0xD800 || c > 0xDFFF);
	return c;
}

// blocks (one per UTF-8 length) that contain both whitespace and other code points, where there are any
struct block
{
	uint32_t base;
	unsigned bits;
};
inline constexpr block blocks[4] = { { 0, 7 }, { 0x80, 7 }, { 0x2000, 7 }, { 0x1F600, 6 } };

// a well-formed text of k code points in a heap block of exactly the right size
template <typename T>
struct text
{
	T* p;
	size_t n = 0, k;
	uint32_t cp[4];
	size_t at[4], len[4];

	// in_blocks: the code points come from the four blocks above
	explicit text(size_t k_, bool in_blocks = false) : k(k_)
	{
		T u[16];
		for (size_t i = 0; i < k; i++)
		{
			if (in_blocks)
			{
				const block b = blocks[sym_pick("block", 0, 3)];
				cp[i]		  = b.base | static_cast<uint32_t>(sym_u64raw(b.bits == 7 ? "cp" : "emoji", b.bits));
				at[i] = n, len[i] = enc<T>(cp[i], u + n);
			}
			else if constexpr (sizeof(T) == 4)
			{
				cp[i] = sym<uint32_t>("cp");
				sym_assume(scalar(cp[i]));
				u[n] = static_cast<T>(cp[i]);
				at[i] = n, len[i] = 1;
			}
			else if constexpr (sizeof(T) == 2)
			{
				const bool two = sym_pick("utf16_len", 1, 2) == 2;
				cp[i]		   = sym<uint32_t>("cp");
				sym_assume(two ? cp[i] >= 0x10000 && cp[i] <= 0x10FFFF : cp[i] < 0x10000 && (cp[i] < 0xD800 || cp[i] > 0xDFFF));
				at[i] = n, len[i] = enc16(cp[i], u + n);
			}
			else
			{
				cp[i] = sym_scalar("cp");
				at[i] = n, len[i] = enc8(cp[i], u + n);
			}
			n += len[i];
		}
		// a leading U+FEFF is a byte order mark, not text, and a leading U+FFFE is the byte-swapped one
		if (k)
			sym_assume(cp[0] != 0xFEFF && cp[0] != 0xFFFE);
		p = new T[n ? n : 1];
		for (size_t i = 0; i < n; i++)
			p[i] = u[i];
	}
	text(const text&) = delete;
	~text() { delete[] p; }
	std::basic_string_view<T> view() const { return { p, n }; }

	// UTF-16 without a byte order mark: the library guesses the byte order from the zero bytes; this says that the
	// guess is "native" (no more zero low bytes than zero high bytes)
	void assume_native_order() const
	{
		if constexpr (sizeof(T) == 2)
		{
			int low = 0, high = 0;
			for (size_t i = 0; i < n; i++)
			{
				low += (p[i] & 0xFF) == 0;
				high += (p[i] >> 8) == 0;
			}
			sym_assume(high >= low);
		}
	}
};
