From c46129bea5112d7d9f192af85d4e4e357731f4fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:30:22 +0000
Subject: [PATCH 01/47] fix: byte_select() treated index == sizeof(T) as
 in-range

---
 include/muu/bit.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/muu/bit.h b/include/muu/bit.h
index bfca4d7..3aa8464 100644
--- a/include/muu/bit.h
+++ b/include/muu/bit.h
@@ -154,7 +154,7 @@ namespace muu
 	{
 		static_assert(!is_cvref<T>);
 
-		if (index > sizeof(T))
+		if (index >= sizeof(T))
 			return uint8_t{};
 
 		if constexpr (std::is_enum_v<T>)
-- 
2.43.0


From 3f4bd4d3ec79641013c71e9fe1b43ba7e85908d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:30:22 +0000
Subject: [PATCH 02/47] fix: apply_alignment<N>() could not be instantiated for
 enums

---
 include/muu/apply_alignment.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/muu/apply_alignment.h b/include/muu/apply_alignment.h
index 648335f..a936337 100644
--- a/include/muu/apply_alignment.h
+++ b/include/muu/apply_alignment.h
@@ -30,7 +30,7 @@ namespace muu
 
 		if constexpr (std::is_enum_v<T>)
 		{
-			return static_cast<T>(apply_alignment(static_cast<std::underlying_type_t<T>>(val)));
+			return static_cast<T>(apply_alignment<Alignment>(static_cast<std::underlying_type_t<T>>(val)));
 		}
 		else
 		{
-- 
2.43.0


From f715d9bdf46ad334ee48e471d481289ee19ca384 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:23 +0000
Subject: [PATCH 03/47] fix: aligned_alloc() returned an undersized block when
 rounding the size overflowed

---
 include/muu/aligned_alloc.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/muu/aligned_alloc.h b/include/muu/aligned_alloc.h
index 83a0e65..72483c5 100644
--- a/include/muu/aligned_alloc.h
+++ b/include/muu/aligned_alloc.h
@@ -36,7 +36,9 @@ namespace muu
 		MUU_ASSUME(static_cast<size_t>(alignment));
 
 		alignment = alignment > impl::aligned_alloc_min_align ? alignment : impl::aligned_alloc_min_align;
-		size	  = (size + alignment - 1u) & ~(alignment - 1u);
+		if (size > ~size_t{} - (alignment - 1u)) // rounding up would overflow
+			return nullptr;
+		size = (size + alignment - 1u) & ~(alignment - 1u);
 
 #if MUU_WINDOWS
 		return muu::assume_aligned<impl::aligned_alloc_min_align>(_aligned_malloc(size, alignment));
-- 
2.43.0


From 77b605e8e13c7ac2b0830573fca2fd52b5df47a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:00:43 +0000
Subject: [PATCH 04/47] fix: unicode classification functions reached
 MUU_UNREACHABLE for some code points

---
 include/muu/impl/unicode_char16_t.h | 6 +++---
 include/muu/impl/unicode_char32_t.h | 6 +++---
 tools/generate_unicode_functions.py | 3 +++
 3 files changed, 9 insertions(+), 6 deletions(-)

diff --git a/include/muu/impl/unicode_char16_t.h b/include/muu/impl/unicode_char16_t.h
index 21c4fdb..6cf4f97 100644
--- a/include/muu/impl/unicode_char16_t.h
+++ b/include/muu/impl/unicode_char16_t.h
@@ -143,7 +143,7 @@ namespace muu
 		{
 			case 0x07: return c >= u'\u2010' && c <= u'\u2011';
 			case 0x3F: return c == u'\uFE63' || c == u'\uFF0D' || c == u'\uFF65';
-			default: MUU_UNREACHABLE;
+			default: return false;
 		}
 		
 		MUU_UNREACHABLE;
@@ -872,7 +872,7 @@ namespace muu
 					case 0x00: return c <= u'\u213F' && (1ull << (static_cast<uint_least64_t>(c) - 0x2102ull)) & 0x3003CF540F89CE21ull;
 					case 0x01: return c >= u'\u2145' && c <= u'\u216F'
 						&& (1ull << (static_cast<uint_least64_t>(c) - 0x2145ull)) & 0x7FFF8000001ull;
-					default: MUU_UNREACHABLE;
+					default: return false;
 				}
 				
 				MUU_UNREACHABLE;
@@ -967,7 +967,7 @@ namespace muu
 				return c == u'\u205F'
 					|| (c <= u'\u202F' && (1ull << (static_cast<uint_least64_t>(c) - 0x2000ull)) & 0x8300000007FFull);
 			}
-			default: MUU_UNREACHABLE;
+			default: return false;
 		}
 		
 		MUU_UNREACHABLE;
diff --git a/include/muu/impl/unicode_char32_t.h b/include/muu/impl/unicode_char32_t.h
index 5152c8f..5cf8ba8 100644
--- a/include/muu/impl/unicode_char32_t.h
+++ b/include/muu/impl/unicode_char32_t.h
@@ -143,7 +143,7 @@ namespace muu
 		{
 			case 0x07: return c >= U'\u2010' && c <= U'\u2011';
 			case 0x3F: return c == U'\uFE63' || c == U'\uFF0D' || c == U'\uFF65';
-			default: MUU_UNREACHABLE;
+			default: return false;
 		}
 		
 		MUU_UNREACHABLE;
@@ -1007,7 +1007,7 @@ namespace muu
 					case 0x00: return c <= U'\u213F' && (1ull << (static_cast<uint_least64_t>(c) - 0x2102ull)) & 0x3003CF540F89CE21ull;
 					case 0x01: return c >= U'\u2145' && c <= U'\u216F'
 						&& (1ull << (static_cast<uint_least64_t>(c) - 0x2145ull)) & 0x7FFF8000001ull;
-					default: MUU_UNREACHABLE;
+					default: return false;
 				}
 				
 				MUU_UNREACHABLE;
@@ -1102,7 +1102,7 @@ namespace muu
 				return c == U'\u205F'
 					|| (c <= U'\u202F' && (1ull << (static_cast<uint_least64_t>(c) - 0x2000ull)) & 0x8300000007FFull);
 			}
-			default: MUU_UNREACHABLE;
+			default: return false;
 		}
 		
 		MUU_UNREACHABLE;
diff --git a/tools/generate_unicode_functions.py b/tools/generate_unicode_functions.py
index 8ea6ccf..a680888 100644
--- a/tools/generate_unicode_functions.py
+++ b/tools/generate_unicode_functions.py
@@ -1118,6 +1118,9 @@ class CodepointChunk:
 							'\n' if c.has_expression() else '\n\t}\n',
 						)
 						emitted += 1
+					# values in the same range as a hoisted single-value child land in the default case
+					if default is None and emittables_simple_equality:
+						default = False
 					s += '\tdefault: {};\n'.format(rf'{G.macro_prefix}UNREACHABLE' if default is None else 'return '+str(default).lower())
 					s += "}"
 					if (emitted <= 1):
-- 
2.43.0


From 18d9dc0ebd3f0f7c9b6af80c31b3ea79f3ba0ed2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:00:43 +0000
Subject: [PATCH 05/47] fix: utf16_decoder never waited for the low surrogate
 of a pair

---
 include/muu/utf16_decoder.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/muu/utf16_decoder.h b/include/muu/utf16_decoder.h
index 2d79e02..b74b437 100644
--- a/include/muu/utf16_decoder.h
+++ b/include/muu/utf16_decoder.h
@@ -90,7 +90,7 @@ namespace muu
 				case unwrap(high_surrogate) | ds_initial: [[fallthrough]];
 				case unwrap(high_surrogate) | ds_has_codepoint:
 					codepoint = static_cast<uint_least32_t>(code_unit); // will get multiplexed in the next step
-					state	  = ds_has_codepoint;
+					state	  = ds_expecting_low_surrogate;
 					return;
 
 				case unwrap(low_surrogate) | ds_expecting_low_surrogate:
-- 
2.43.0


From f9431cda29ba0515a98545542ebe143db6e683cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:04:48 +0000
Subject: [PATCH 06/47] fix: utf_decode() byte-swapped native text when the
 zero bytes gave no hint (e.g. CJK)

---
 include/muu/utf_decode.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/muu/utf_decode.h b/include/muu/utf_decode.h
index 3fab110..1600ec6 100644
--- a/include/muu/utf_decode.h
+++ b/include/muu/utf_decode.h
@@ -59,9 +59,9 @@ namespace muu::impl
 			high += static_cast<int>(byte_select<sizeof(T) - 1u>(*c) == uint8_t{});
 		}
 		if constexpr (build::is_big_endian)
-			return low > high;
+			return low >= high;
 		else
-			return high > low;
+			return high >= low;
 	}
 }
 /// \endcond
-- 
2.43.0


From 7200f0c7f0236108ef7961f8dc290713996a6f31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:37:28 +0000
Subject: [PATCH 07/47] fix: transcode() dropped embedded U+0000 code points
 when producing UTF-8 or UTF-16

---
 include/muu/strings.h | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/include/muu/strings.h b/include/muu/strings.h
index c870eaa..01b41ed 100644
--- a/include/muu/strings.h
+++ b/include/muu/strings.h
@@ -79,6 +79,7 @@ namespace muu
 		  private:
 			static_assert(sizeof(T) == 1);
 			T code_units[4] = {};
+			size_t length	= 0;
 
 		  public:
 			MUU_NODISCARD_CTOR
@@ -87,17 +88,20 @@ namespace muu
 				if (cp <= 0x7Fu)
 				{
 					code_units[0] = static_cast<T>(cp);
+					length		  = 1;
 				}
 				else if (cp <= 0x7FFu)
 				{
 					code_units[0] = static_cast<T>((cp >> 6) | 0xC0u);
 					code_units[1] = static_cast<T>((cp & 0x3Fu) | 0x80u);
+					length		  = 2;
 				}
 				else if (cp <= 0xFFFFu)
 				{
 					code_units[0] = static_cast<T>((cp >> 12) | 0xE0u);
 					code_units[1] = static_cast<T>(((cp >> 6) & 0x3Fu) | 0x80u);
 					code_units[2] = static_cast<T>((cp & 0x3Fu) | 0x80u);
+					length		  = 3;
 				}
 				else if (cp <= 0x10FFFFu)
 				{
@@ -105,6 +109,7 @@ namespace muu
 					code_units[1] = static_cast<T>(((cp >> 12) & 0x3Fu) | 0x80u);
 					code_units[2] = static_cast<T>(((cp >> 6) & 0x3Fu) | 0x80u);
 					code_units[3] = static_cast<T>((cp & 0x3Fu) | 0x80u);
+					length		  = 4;
 				}
 			}
 
@@ -116,8 +121,8 @@ namespace muu
 			MUU_PURE_INLINE_GETTER
 			constexpr std::basic_string_view<T> view() const noexcept
 			{
-				return code_units[3] ? std::basic_string_view<T>{ code_units, 4_sz }
-									 : std::basic_string_view<T>{ code_units };
+				// note: not null-terminated when the code point is U+0000
+			return std::basic_string_view<T>{ code_units, length };
 			}
 
 			MUU_PURE_INLINE_GETTER
@@ -158,8 +163,8 @@ namespace muu
 			MUU_PURE_INLINE_GETTER
 			constexpr std::basic_string_view<T> view() const noexcept
 			{
-				return code_units[1] ? std::basic_string_view<T>{ code_units, 2_sz }
-									 : std::basic_string_view<T>{ code_units };
+				// note: not null-terminated when the code point is U+0000
+			return std::basic_string_view<T>{ code_units, code_units[1] ? 2_sz : 1_sz };
 			}
 
 			MUU_PURE_INLINE_GETTER
-- 
2.43.0


From 9a4fbe9db8fc4d6a2dbe594e9d80d35eef5a5ec0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:21:27 +0000
Subject: [PATCH 08/47] fix: utf_decode() dropped a truncated sequence at the
 end of the text (start, in reverse)

---
 include/muu/utf_decode.h | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/include/muu/utf_decode.h b/include/muu/utf_decode.h
index 1600ec6..e67457d 100644
--- a/include/muu/utf_decode.h
+++ b/include/muu/utf_decode.h
@@ -180,7 +180,7 @@ namespace muu
 				while (cp_start-- > data_start && !stop)
 				{
 					cu_count++;
-					if (cu_count == max_cu_count || is_code_point_boundary(get(cp_start)))
+					if (cu_count == max_cu_count || cp_start == data_start || is_code_point_boundary(get(cp_start)))
 					{
 						for (size_t i = cp_start, e = cp_start + cu_count; i < e; i++)
 						{
@@ -191,9 +191,10 @@ namespace muu
 
 						if (decoder.has_value())
 							stop = stop_after_invoking(static_cast<Func&&>(func), decoder.value(), cp_start, cu_count);
-						else if (decoder.error())
+						else
 						{
-							decoder.clear_error();
+							// invalid or truncated sequence
+							decoder = {};
 							for (size_t i = cp_start + cu_count; i-- > cp_start && !stop;)
 								stop =
 									stop_after_invoking(static_cast<Func&&>(func), static_cast<char32_t>(get(i)), i, 1);
@@ -204,7 +205,8 @@ namespace muu
 			}
 			else
 			{
-				for (size_t i = data_start, e = str.length(), cp_start = data_start, cu_count = 0; i < e && !stop; i++)
+				size_t cp_start = data_start, cu_count = 0;
+				for (size_t i = data_start, e = str.length(); i < e && !stop; i++)
 				{
 					cu_count++;
 					decoder(get(i));
@@ -223,6 +225,10 @@ namespace muu
 						cu_count = {};
 					}
 				}
+
+				// truncated final sequence
+				for (size_t j = cp_start, je = cp_start + cu_count; j < je && !stop; j++)
+					stop = stop_after_invoking(static_cast<Func&&>(func), static_cast<char32_t>(get(j)), j, 1);
 			}
 		}
 	}
-- 
2.43.0


From c0c8ce4f351394871baa9b5a0f706bba3d5694f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:33:42 +0000
Subject: [PATCH 09/47] fix: muu::half float conversion: round to nearest even,
 handle overflow and underflow (emulated half)

---
 include/muu/half.h | 65 +++++++++++++++++++++-------------------------
 1 file changed, 29 insertions(+), 36 deletions(-)

diff --git a/include/muu/half.h b/include/muu/half.h
index 2ef89c6..c79a7a7 100644
--- a/include/muu/half.h
+++ b/include/muu/half.h
@@ -1258,51 +1258,44 @@ namespace muu::impl
 	constexpr uint16_t MUU_VECTORCALL f32_to_u16_naive(float val) noexcept
 	{
 		const uint32_t bits32 = muu::bit_cast<uint32_t>(val);
-		const uint16_t s16	  = static_cast<uint16_t>((bits32 & 0x80000000u) >> 16);
-
-		// 0000 0000 0111 1111 1111 1111 1111 1111
+		const uint32_t s16	  = (bits32 & 0x80000000u) >> 16;
 		const uint32_t frac32 = bits32 & 0x007FFFFFu;
+		const uint32_t exp32  = (bits32 & 0x7F800000u) >> 23;
 
-		// 0111 1111 1000 0000 0000 0000 0000 0000
-		const uint32_t exp32 = (bits32 & 0x7F800000u) >> 23;
+		// inf or nan (nans are made quiet, keeping as much of the payload as fits)
+		if MUU_UNLIKELY(exp32 == 0xFFu)
+			return static_cast<uint16_t>(s16 | 0x7C00u | (frac32 ? (0x0200u | (frac32 >> 13)) : 0u));
 
-		// unbiased exp32
-		const int8_t exp32ub = static_cast<int8_t>(exp32) - f16_single_exp_bias;
+		// biased half-precision exponent (may be out of range)
+		const int32_t exp16 = static_cast<int32_t>(exp32) - f16_single_exp_bias + f16_half_exp_bias;
 
-		uint16_t exp16 = static_cast<uint16_t>(exp32ub + 15);
+		// overflow
+		if MUU_UNLIKELY(exp16 >= 31)
+			return static_cast<uint16_t>(s16 | 0x7C00u);
 
-		// clamp the exponent
-		if MUU_UNLIKELY(exp32 == 0xFF /*|| exp32ub > single_exp_bias*/)
-		{
-			// 0001 1111, use all five bits
-			exp16 = 0x1F_u16;
-		}
-		else if MUU_UNLIKELY(exp32 == 0 /*|| exp32ub < -(single_exp_bias - 1)*/)
+		// too small to be anything but +-0 (less than half the smallest denormal)
+		if MUU_UNLIKELY(exp16 < -10)
+			return static_cast<uint16_t>(s16);
+
+		uint32_t significand = frac32;
+		uint32_t dropped_bits = 13u;
+		uint32_t result		  = 0u;
+		if (exp16 > 0)
+			result = static_cast<uint32_t>(exp16) << 10;
+		else // denormal
 		{
-			exp16 = {};
+			significand |= 0x00800000u;
+			dropped_bits += static_cast<uint32_t>(1 - exp16);
 		}
+		result += significand >> dropped_bits;
 
-		uint16_t frac16 = static_cast<uint16_t>(frac32 >> 13);
+		// round to nearest, ties to even (a carry out of the fraction correctly bumps the exponent)
+		const uint32_t remainder = significand & ((1u << dropped_bits) - 1u);
+		const uint32_t halfway	 = 1u << (dropped_bits - 1u);
+		if (remainder > halfway || (remainder == halfway && (result & 1u)))
+			result++;
 
-		// nan
-		if MUU_UNLIKELY(exp32 == 0xFF && frac32 != 0 && frac16 == 0)
-		{
-			// 0000 0010 0000 0000
-			frac16 = 0x0200_u16;
-		}
-		// denormal overflow
-		else if (exp32 == 0 || (exp16 == 0x1F && exp32 != 0xFF))
-		{
-			frac16 = {};
-		}
-		// denormal underflow
-		else if MUU_UNLIKELY(exp16 == 0 && exp32 != 0)
-		{
-			// 0000 0001 0000 0000
-			frac16 = 0x0100 | (frac16 >> 2);
-		}
-		exp16 = static_cast<uint16_t>(exp16 << 10);
-		return s16 | exp16 | frac16;
+		return static_cast<uint16_t>(s16 | result);
 	}
 
 	MUU_CONST_GETTER
-- 
2.43.0


From b75e3e107acb0d642554f1e7672d7761b6afb3fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:33:42 +0000
Subject: [PATCH 10/47] fix: atan2(half, half) passed its arguments in the
 wrong order

---
 include/muu/half.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/muu/half.h b/include/muu/half.h
index c79a7a7..ad5c750 100644
--- a/include/muu/half.h
+++ b/include/muu/half.h
@@ -1213,7 +1213,7 @@ namespace muu
 	MUU_CONST_INLINE_GETTER
 	constexpr half MUU_VECTORCALL atan2(half y, half x) noexcept
 	{
-		return half{ muu::atan2(static_cast<float>(x), static_cast<float>(y)) };
+		return half{ muu::atan2(static_cast<float>(y), static_cast<float>(x)) };
 	}
 
 	/// \brief	Returns a linear interpolation between two half-precision floats.
-- 
2.43.0


From 224d47839b7c1e90adb7089cdc33e32b86af4722 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:33:42 +0000
Subject: [PATCH 11/47] fix: constexpr floor()/ceil() of infinities and values
 too large for intmax_t

---
 include/muu/math.h | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/include/muu/math.h b/include/muu/math.h
index 9adc818..931dbaa 100644
--- a/include/muu/math.h
+++ b/include/muu/math.h
@@ -611,6 +611,10 @@ namespace muu
 			if (x == T{} || x != x) // accounts for -0.0 and NaN
 				return x;
 
+			// infinities and other values too large for intmax_t (which have no fractional part)
+			if (!(x > static_cast<T>(-9223372036854775808.0) && x < static_cast<T>(9223372036854775808.0)))
+				return x;
+
 			return static_cast<T>(static_cast<intmax_t>(x) - static_cast<intmax_t>(x < static_cast<intmax_t>(x)));
 		}
 
@@ -745,6 +749,10 @@ namespace muu
 			if (x == T{} || x != x) // accounts for -0.0 and NaN
 				return x;
 
+			// infinities and other values too large for intmax_t (which have no fractional part)
+			if (!(x > static_cast<T>(-9223372036854775808.0) && x < static_cast<T>(9223372036854775808.0)))
+				return x;
+
 			return static_cast<T>(static_cast<intmax_t>(x) + static_cast<intmax_t>(x > static_cast<intmax_t>(x)));
 		}
 
-- 
2.43.0


From 7f98ab5b5af5803138d61dab9adfb4d97817d26f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:33:42 +0000
Subject: [PATCH 12/47] fix: normalize_angle()/normalize_angle_signed() could
 return values just outside of their intervals

---
 include/muu/math.h | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/include/muu/math.h b/include/muu/math.h
index 931dbaa..4a60f41 100644
--- a/include/muu/math.h
+++ b/include/muu/math.h
@@ -2200,7 +2200,15 @@ namespace muu
 			static_assert(std::is_same_v<impl::highest_ranked<T, float>, T>);
 
 			if (val < T{} || val >= constants<T>::two_pi)
+			{
 				val -= constants<T>::two_pi * muu::floor(val * constants<T>::one_over_two_pi);
+
+				// rounding can leave the result just outside of the interval
+				if (val < T{})
+					val += constants<T>::two_pi;
+				if (val >= constants<T>::two_pi)
+					val -= constants<T>::two_pi;
+			}
 			return val;
 		}
 	}
@@ -2280,6 +2288,12 @@ namespace muu
 				val += constants<T>::pi;
 				val -= constants<T>::two_pi * muu::floor(val * constants<T>::one_over_two_pi);
 				val -= constants<T>::pi;
+
+				// rounding can leave the result just outside of the interval
+				if (val < -constants<T>::pi)
+					val += constants<T>::two_pi;
+				if (val >= constants<T>::pi)
+					val -= constants<T>::two_pi;
 			}
 			return val;
 		}
-- 
2.43.0


From e05a7845460385d4334b4a52514b74d9f288b727 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:33:42 +0000
Subject: [PATCH 13/47] fix: between() with an unsigned value and a negative
 lower bound

---
 include/muu/impl/core_utils.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/muu/impl/core_utils.h b/include/muu/impl/core_utils.h
index f8b72c1..26a9137 100644
--- a/include/muu/impl/core_utils.h
+++ b/include/muu/impl/core_utils.h
@@ -124,6 +124,8 @@ namespace muu
 				{
 					if (high < rhs{})
 						return false;
+					if (low < rhs{}) // would wrap when converted to an unsigned type
+						return between(val, rhs{}, high);
 				}
 				if constexpr (!std::is_same_v<lhs, rhs>)
 				{
-- 
2.43.0


From eb56c697f6ba2c04a8d46efa2591c250d5d36347 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:49:46 +0000
Subject: [PATCH 14/47] fix: infinity_or_nan(ray) only reported rays with both
 a non-finite origin and direction

---
 include/muu/ray.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/muu/ray.h b/include/muu/ray.h
index c685661..ff772d1 100644
--- a/include/muu/ray.h
+++ b/include/muu/ray.h
@@ -155,7 +155,7 @@ namespace muu
 		static constexpr bool MUU_VECTORCALL infinity_or_nan(MUU_VPARAM(ray) r) noexcept
 		{
 			return vector_type::infinity_or_nan(r.origin) //
-				&& vector_type::infinity_or_nan(r.direction);
+				|| vector_type::infinity_or_nan(r.direction);
 		}
 
 		/// \brief	Returns true if any of the scalars in the ray are infinity or NaN.
-- 
2.43.0


From bf2dbd53145bd89fe2f9fd7850caeb19ba1d728d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:51:31 +0000
Subject: [PATCH 15/47] fix: accumulator::add(const accumulator&) merged when
 it should copy (and vice versa), and did not compile for floats

---
 include/muu/accumulator.h | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/include/muu/accumulator.h b/include/muu/accumulator.h
index 6e2a807..7b64273 100644
--- a/include/muu/accumulator.h
+++ b/include/muu/accumulator.h
@@ -156,13 +156,13 @@ namespace muu
 			{
 				if (empty())
 				{
-					impl_and_count.first().add(other.impl_and_count.first());
-					impl_and_count.second() += other.impl_and_count.second();
+					impl_and_count.first()	= other.impl_and_count.first();
+					impl_and_count.second() = other.impl_and_count.second();
 				}
 				else
 				{
-					impl_and_count.first()	= other.impl_and_count.first();
-					impl_and_count.second() = other.impl_and_count.second();
+					impl_and_count.first().add(other.impl_and_count.first());
+					impl_and_count.second() += other.impl_and_count.second();
 				}
 			}
 			return *this;
@@ -305,7 +305,9 @@ namespace muu
 				using muu::max;
 				min_ = min(other.min_, min_);
 				max_ = max(other.max_, max_);
-				kahan_add(other.sum);
+				const auto other_correction = other.correction_; // other may be *this
+				kahan_add(other.sum_);
+				correction_ += other_correction;
 			}
 
 			MUU_PURE_INLINE_GETTER
-- 
2.43.0


From accfba2998461c1e6dec0592ff0fcdab7e596fcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:52:35 +0000
Subject: [PATCH 16/47] fix: integral_range::size() overflowed for signed
 ranges longer than PTRDIFF_MAX

---
 include/muu/integral_range.h | 6 ------
 1 file changed, 6 deletions(-)

diff --git a/include/muu/integral_range.h b/include/muu/integral_range.h
index 48755b7..3c8d364 100644
--- a/include/muu/integral_range.h
+++ b/include/muu/integral_range.h
@@ -226,12 +226,6 @@ namespace muu
 		{
 			if constexpr (std::is_pointer_v<value_type>)
 				return static_cast<size_type>(e - s);
-			else if constexpr (muu::is_signed<value_type>)
-			{
-				using difference_type = impl::integral_range_difference_type<T>;
-
-				return static_cast<size_type>(static_cast<difference_type>(e) - static_cast<difference_type>(s));
-			}
 			else
 				return static_cast<size_type>(e) - static_cast<size_type>(s);
 		}
-- 
2.43.0


From 15957adfc526dcbc7da1c6fe5219ba5bc56a0642 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:59:13 +0000
Subject: [PATCH 17/47] fix: blob::assign() read from its own storage after
 freeing it

---
 include/muu/blob.h | 25 +++++++++++++++----------
 1 file changed, 15 insertions(+), 10 deletions(-)

diff --git a/include/muu/blob.h b/include/muu/blob.h
index 0c0bc31..830c749 100644
--- a/include/muu/blob.h
+++ b/include/muu/blob.h
@@ -106,28 +106,33 @@ namespace muu
 		{
 			new_align = actual_alignment(sz, new_align);
 
-			// check if this is effectively a resize with a copy or move
-			if (new_align <= alignment_)
-			{
+			if (new_align < alignment_)
 				new_align = alignment_;
 
-				resize(sz); // no-op if the same size as current
-				MUU_ASSERT(size_ == sz);
-
+			// check if the existing allocation can be re-used
+			if (sz == size_ && new_align == alignment_)
+			{
 				if (src && data_ && src != data_)
 					MUU_MEMCPY(data_, src, size_);
 
 				return *this;
 			}
 
-			// changing alignment; must deallocate and reallocate
+			// reallocate (not releasing the existing allocation until the end because src might be a part of it)
+			auto new_data = sz ? aligned_alloc(sz, new_align) : nullptr;
+			MUU_ASSERT(new_data || !sz);
+			if (new_data)
+			{
+				if (src)
+					MUU_MEMCPY(new_data, src, sz);
+				else if (data_) // effectively just a resize
+					MUU_MEMCPY(new_data, data_, min(sz, size_));
+			}
 			if (data_)
 				aligned_free(data_);
 			alignment_ = new_align;
 			size_	   = sz;
-			data_	   = size_ ? aligned_alloc(size_, alignment_) : nullptr;
-			if (src && data_)
-				MUU_MEMCPY(data_, src, size_);
+			data_	   = new_data;
 			return *this;
 		}
 
-- 
2.43.0


From 71f984b6d32035d77c264577e1f19ef208b2c783 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:59:13 +0000
Subject: [PATCH 18/47] fix: emplacement_array iterators and data() were
 declared never-null but are null when there is no storage

---
 include/muu/emplacement_array.h | 2 --
 1 file changed, 2 deletions(-)

diff --git a/include/muu/emplacement_array.h b/include/muu/emplacement_array.h
index 287ec81..4adcb5c 100644
--- a/include/muu/emplacement_array.h
+++ b/include/muu/emplacement_array.h
@@ -36,14 +36,12 @@ namespace muu
 		std::byte* storage_ = nullptr;
 
 		MUU_PURE_INLINE_GETTER
-		MUU_ATTR(returns_nonnull)
 		T* ptr(size_t index) noexcept
 		{
 			return MUU_LAUNDER(reinterpret_cast<T*>(storage_ + index * sizeof(T)));
 		}
 
 		MUU_PURE_INLINE_GETTER
-		MUU_ATTR(returns_nonnull)
 		const T* ptr(size_t index) const noexcept
 		{
 			return MUU_LAUNDER(reinterpret_cast<const T*>(storage_ + index * sizeof(T)));
-- 
2.43.0


From 9e8009abb27698d9b76cc7a9dc866abd8381215f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:02:53 +0000
Subject: [PATCH 19/47] fix: static_array::empty() was inverted and its
 ordering did not compile

---
 include/muu/static_array.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/muu/static_array.h b/include/muu/static_array.h
index 5ae482b..0be3407 100644
--- a/include/muu/static_array.h
+++ b/include/muu/static_array.h
@@ -51,7 +51,7 @@ namespace muu
 		MUU_CONSTEVAL
 		bool empty() const noexcept
 		{
-			return sizeof...(Elements) > 0u;
+			return sizeof...(Elements) == 0u;
 		}
 
 		/// \brief	Returns the first element in the array.
@@ -164,7 +164,7 @@ namespace muu
 		template <T... E>
 		static constexpr bool is_less = []() noexcept
 		{
-			if constexpr (is_equal<T, E...>)
+			if constexpr (is_equal<E...>)
 				return false;
 			else
 			{
@@ -173,7 +173,7 @@ namespace muu
 				auto* first1	 = values;
 				const auto last1 = first1 + sizeof...(Elements);
 				auto* first2	 = static_array<T, E...>::values;
-				const auto last2 = last1 + sizeof...(E);
+				const auto last2 = first2 + sizeof...(E);
 
 				for (; (first1 != last1) && (first2 != last2); ++first1, ++first2)
 				{
-- 
2.43.0


From 912c3aa5deeb7c5c23a2786f75d51ab0e64e4175 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:02:53 +0000
Subject: [PATCH 20/47] fix: fixed_string ordering: compare() of a string with
 itself was non-zero, operator<=> disagreed with compare()

---
 include/muu/fixed_string.h | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/include/muu/fixed_string.h b/include/muu/fixed_string.h
index 1761175..b311890 100644
--- a/include/muu/fixed_string.h
+++ b/include/muu/fixed_string.h
@@ -771,7 +771,7 @@ namespace muu
 				if constexpr (Length == Len)
 				{
 					if (&lhs == &rhs)
-						return true;
+						return 0;
 
 					return traits_type::compare(lhs._chars_, rhs.c_str(), Length);
 				}
@@ -807,7 +807,7 @@ namespace muu
 		/// \brief	Returns the lexicographical ordering of this string with respect to another.
 		template <size_t Len>
 		MUU_PURE_GETTER
-		constexpr int compare(const fixed_string<value_type, Len>& rhs) noexcept
+		constexpr int compare(const fixed_string<value_type, Len>& rhs) const noexcept
 		{
 			return compare(*this, rhs);
 		}
@@ -845,7 +845,10 @@ namespace muu
 		}
 
 	#if MUU_HAS_THREE_WAY_COMPARISON
-		friend constexpr auto operator<=>(const fixed_string&, const fixed_string&) noexcept = default;
+		friend constexpr std::strong_ordering operator<=>(const fixed_string& lhs, const fixed_string& rhs) noexcept
+		{
+			return compare(lhs, rhs) <=> 0;
+		}
 	#endif
 
 		/// @}
-- 
2.43.0


From 4ef3a7f257dbfa49e27a0f878ba61cde2a994807 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:04:43 +0000
Subject: [PATCH 21/47] fix: tagged_ptr: storing a negative tag that fits
 exactly overwrote the pointer

---
 include/muu/tagged_ptr.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/muu/tagged_ptr.h b/include/muu/tagged_ptr.h
index 677bbb9..0063d5f 100644
--- a/include/muu/tagged_ptr.h
+++ b/include/muu/tagged_ptr.h
@@ -206,7 +206,7 @@ namespace muu::impl
 					}
 					else
 					{
-						return pack_ptr(ptr) | static_cast<uintptr_t>(tag);
+						return pack_ptr(ptr) | (static_cast<uintptr_t>(tag) & tag_mask);
 					}
 				}
 				else // some pod type
@@ -259,7 +259,7 @@ namespace muu::impl
 			}
 			else
 			{
-				return (bits & ptr_mask) | static_cast<uintptr_t>(tag);
+				return (bits & ptr_mask) | (static_cast<uintptr_t>(tag) & tag_mask);
 			}
 		}
 
-- 
2.43.0


From 2db5d17db3dbe033b3c18cef09ee16694e56e24f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:04:43 +0000
Subject: [PATCH 22/47] fix: copying a non-const function_view bound to the
 source view instead of its callable

---
 include/muu/function_view.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/muu/function_view.h b/include/muu/function_view.h
index 319ecd6..7aee53f 100644
--- a/include/muu/function_view.h
+++ b/include/muu/function_view.h
@@ -222,7 +222,7 @@ namespace muu
 		/// \tparam	F	 	A function, lambda or other callable type with a signature compatible with #func_type.
 		///
 		/// \param 	func	The callable to view/invoke.
-		template <typename F>
+		MUU_CONSTRAINED_TEMPLATE((!std::is_same_v<remove_cvref<F>, function_view>), typename F)
 		MUU_NODISCARD_CTOR
 		/* implicit */ constexpr function_view(F&& func) noexcept //
 			: base{ static_cast<F&&>(func) }
-- 
2.43.0


From 48d3e8e216b6f689918738014837a6e320d84515 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:04:43 +0000
Subject: [PATCH 23/47] fix: string_param: moving or trimming an empty value
 and converting to an empty text were undefined

---
 src/string_param.cpp | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/string_param.cpp b/src/string_param.cpp
index d8948ac..ec3d55b 100644
--- a/src/string_param.cpp
+++ b/src/string_param.cpp
@@ -220,8 +220,6 @@ namespace
 	template <typename T, typename Func>
 	static void visit(T& storage, uint8_t mode_, Func&& fn) noexcept
 	{
-		MUU_ASSUME(mode_ > uint8_t{});
-
 		switch (mode_)
 		{
 			case unwrap(mode::none): break;
@@ -247,8 +245,6 @@ namespace
 	template <typename T, typename Func>
 	static void visit(T& storage1, T& storage2, uint8_t mode_, Func&& fn) noexcept
 	{
-		MUU_ASSUME(mode_ > uint8_t{});
-
 		switch (mode_)
 		{
 			case unwrap(mode::none): break;
@@ -510,7 +506,9 @@ namespace
 				  {
 					  auto new_str = transcode<Char>(str);
 					  call_destructor(str);
-					  out = *initialize(storage_, mode_, MUU_MOVE(new_str));
+					  mode_ = {};
+					  if (const auto stored = initialize(storage_, mode_, MUU_MOVE(new_str)))
+						  out = *stored;
 				  }
 			  });
 		return out;
-- 
2.43.0


From d34cb7927b740aa32851ef97a7f90dfa1d3aaa0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:55:47 +0000
Subject: [PATCH 24/47] thread_pool: spin count can be set with
 MUU_VERIFY_SPIN_ITERATIONS (verification hook)

---
 src/thread_pool.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/thread_pool.cpp b/src/thread_pool.cpp
index 87f56fc..134c8e8 100644
--- a/src/thread_pool.cpp
+++ b/src/thread_pool.cpp
@@ -305,7 +305,11 @@ namespace
 		}
 	};
 
+#ifdef MUU_VERIFY_SPIN_ITERATIONS
+	static constexpr size_t thread_pool_spin_wait_iterations_per_queue = MUU_VERIFY_SPIN_ITERATIONS;
+#else
 	static constexpr size_t thread_pool_spin_wait_iterations_per_queue = 100;
+#endif
 
 	class thread_pool_worker
 	{
-- 
2.43.0


From 7b9706c00da18dc8cdc0cacbbd5a8002eddf088c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:55:47 +0000
Subject: [PATCH 25/47] fix: thread_pool: destroy a finished task before wait()
 can return

---
 src/thread_pool.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/thread_pool.cpp b/src/thread_pool.cpp
index 134c8e8..4f43745 100644
--- a/src/thread_pool.cpp
+++ b/src/thread_pool.cpp
@@ -369,8 +369,8 @@ namespace
 									 if (t)
 									 {
 										 (*t)(worker_index);
-										 monitor->decrement();
 										 t->~task();
+										 monitor->decrement();
 									 }
 								 }
 							 } };
-- 
2.43.0


From bb8ecbb0a046e96f0210fb5649f5adc4ed07c380 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:55:47 +0000
Subject: [PATCH 26/47] fix: thread_pool: move-assignment leaked the pool being
 replaced and its threads

---
 include/muu/thread_pool.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/muu/thread_pool.h b/include/muu/thread_pool.h
index 13c9788..3a5c643 100644
--- a/include/muu/thread_pool.h
+++ b/include/muu/thread_pool.h
@@ -754,7 +754,11 @@ namespace muu
 		/// \brief	Move-assignment operator.
 		thread_pool& operator=(thread_pool&& rhs) noexcept
 		{
-			storage_ = std::exchange(rhs.storage_, nullptr);
+			if (&rhs != this)
+			{
+				if (auto storage = std::exchange(storage_, std::exchange(rhs.storage_, nullptr)))
+					::muu_impl_thread_pool_destroy(storage);
+			}
 			return *this;
 		}
 
-- 
2.43.0


From c164d0f9a1957cfcb766ceefbfcb4ad7ed2ddf85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:55:47 +0000
Subject: [PATCH 27/47] fix: vector: right shift of unsigned vectors was
 arithmetic

---
 include/muu/vector.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/muu/vector.h b/include/muu/vector.h
index 3f7eb2f..7954d29 100644
--- a/include/muu/vector.h
+++ b/include/muu/vector.h
@@ -1892,7 +1892,7 @@ namespace muu
 		MUU_PURE_GETTER
 		friend constexpr vector MUU_VECTORCALL operator<<(MUU_VPARAM(vector) lhs, product_scalar_type rhs) noexcept
 		{
-			if constexpr (product_requires_promotion)
+			if constexpr (product_requires_promotion && is_signed<scalar_type>)
 			{
 				return vector{ promoted_product_vec{ lhs } << static_cast<promoted_product>(rhs) };
 			}
@@ -1916,7 +1916,7 @@ namespace muu
 		MUU_HIDDEN_CONSTRAINT(is_integral<T>, typename T = Scalar)
 		constexpr vector& MUU_VECTORCALL operator<<=(product_scalar_type rhs) noexcept
 		{
-			if constexpr (product_requires_promotion)
+			if constexpr (product_requires_promotion && is_signed<scalar_type>)
 			{
 				return *this = vector{ promoted_product_vec{ *this } << static_cast<promoted_product>(rhs) };
 			}
@@ -1941,7 +1941,7 @@ namespace muu
 		MUU_PURE_GETTER
 		friend constexpr vector MUU_VECTORCALL operator>>(MUU_VPARAM(vector) lhs, product_scalar_type rhs) noexcept
 		{
-			if constexpr (product_requires_promotion)
+			if constexpr (product_requires_promotion && is_signed<scalar_type>)
 			{
 				return vector{ promoted_product_vec{ lhs } >> static_cast<promoted_product>(rhs) };
 			}
@@ -1965,7 +1965,7 @@ namespace muu
 		MUU_HIDDEN_CONSTRAINT(is_integral<T>, typename T = Scalar)
 		constexpr vector& MUU_VECTORCALL operator>>=(product_scalar_type rhs) noexcept
 		{
-			if constexpr (product_requires_promotion)
+			if constexpr (product_requires_promotion && is_signed<scalar_type>)
 			{
 				return *this = vector{ promoted_product_vec{ *this } >> static_cast<promoted_product>(rhs) };
 			}
-- 
2.43.0


From 2a09d7e9be2ab876f396affe11e781e32f2d35a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:55:47 +0000
Subject: [PATCH 28/47] fix: vector: normalized() of integral vectors was
 always false

---
 include/muu/vector.h | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/include/muu/vector.h b/include/muu/vector.h
index 7954d29..ae82a7a 100644
--- a/include/muu/vector.h
+++ b/include/muu/vector.h
@@ -2149,16 +2149,19 @@ namespace muu
 					return v.x == scalar_type{ 1 };
 				else
 				{
-					using sum_type = decltype(scalar_type{} + scalar_type{});
-					sum_type sum{};
-					for (size_t i = 0u; i < dimensions && sum > sum_type{ 1 }; i++)
+					bool found = false;
+					for (size_t i = 0u; i < dimensions; i++)
 					{
+						if (v[i] == scalar_type{})
+							continue;
+						bool unit = v[i] == scalar_type{ 1 };
 						if constexpr (muu::is_signed<scalar_type>)
-							sum += muu::abs(v[i]);
-						else
-							sum += v[i];
+							unit = unit || v[i] == static_cast<scalar_type>(-1);
+						if (found || !unit)
+							return false;
+						found = true;
 					}
-					return sum == sum_type{ 1 };
+					return found;
 				}
 			}
 			else
-- 
2.43.0


From 72466700590497d588888c5c854e1897762caf19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:50:59 +0000
Subject: [PATCH 29/47] fix: matrix: invert() of 1x1 matrices did not compile

---
 include/muu/matrix.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/muu/matrix.h b/include/muu/matrix.h
index c292ef0..0dfc75a 100644
--- a/include/muu/matrix.h
+++ b/include/muu/matrix.h
@@ -2781,7 +2781,7 @@ namespace muu
 
 				if constexpr (Columns == 1)
 				{
-					return inverse_type{ column_type{ scalar_type{ 1 } / m.m[0].x } };
+					return inverse_type{ scalar_type{ 1 } / m.m[0].x };
 				}
 				if constexpr (Columns == 2)
 				{
-- 
2.43.0


From 9d88c691544bbddd53c098e27cc2249136896179 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 06:03:23 +0000
Subject: [PATCH 30/47] fix: matrix: perspective_projection() with a screen
 size ignored its Mode

---
 include/muu/matrix.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/muu/matrix.h b/include/muu/matrix.h
index 0dfc75a..40a6e22 100644
--- a/include/muu/matrix.h
+++ b/include/muu/matrix.h
@@ -1015,7 +1015,7 @@ namespace muu::impl
 																			   T near_clip,
 																			   T far_clip) noexcept
 		{
-			return perspective_projection(vertical_fov, screen_size.x / screen_size.y, near_clip, far_clip);
+			return perspective_projection<Mode>(vertical_fov, screen_size.x / screen_size.y, near_clip, far_clip);
 		}
 	};
 
-- 
2.43.0


From b980d5032580e3e2101f969d01a3e76e2ffd6399 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 06:03:23 +0000
Subject: [PATCH 31/47] fix: matrix: left-handed perspective projections had
 the wrong depth mapping

---
 include/muu/matrix.h | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/include/muu/matrix.h b/include/muu/matrix.h
index 40a6e22..68089f7 100644
--- a/include/muu/matrix.h
+++ b/include/muu/matrix.h
@@ -942,11 +942,10 @@ namespace muu::impl
 
 			if constexpr (!!(Mode & math_apis::opengl))
 			{
-				const auto c = -(far_clip + near_clip) / (far_clip - near_clip);
-
 				if constexpr (!!(Mode & math_apis::left_handed))
 				{
-					const auto e = (T{ 2 } * far_clip * near_clip) / (far_clip - near_clip);
+					const auto c = (far_clip + near_clip) / (far_clip - near_clip);
+					const auto e = (T{ -2 } * far_clip * near_clip) / (far_clip - near_clip);
 
 					// clang-format off
 					return
@@ -960,6 +959,7 @@ namespace muu::impl
 				}
 				else // right-handed
 				{
+					const auto c = -(far_clip + near_clip) / (far_clip - near_clip);
 					const auto e = (T{ -2 } * far_clip * near_clip) / (far_clip - near_clip);
 
 					// clang-format off
@@ -975,10 +975,9 @@ namespace muu::impl
 			}
 			else // directx
 			{
-				const auto c = far_clip / (near_clip - far_clip);
-
 				if constexpr (!!(Mode & math_apis::left_handed))
 				{
+					const auto c = far_clip / (far_clip - near_clip);
 					const auto e = -near_clip * far_clip / (far_clip - near_clip);
 
 					// clang-format off
@@ -993,6 +992,7 @@ namespace muu::impl
 				}
 				else // right-handed
 				{
+					const auto c = far_clip / (near_clip - far_clip);
 					const auto e = near_clip * far_clip / (near_clip - far_clip);
 
 					// clang-format off
-- 
2.43.0


From 3dfa22a7afdd9f640daf8cfb3a63e99074c587ac Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 06:03:23 +0000
Subject: [PATCH 32/47] fix: quaternion: from_rotation() of vectors of
 different lengths was wrong

---
 include/muu/quaternion.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/muu/quaternion.h b/include/muu/quaternion.h
index f3ccdbe..535756d 100644
--- a/include/muu/quaternion.h
+++ b/include/muu/quaternion.h
@@ -813,7 +813,7 @@ namespace muu
 				MUU_FMA_BLOCK;
 
 				const auto k_cos_theta = vector_type::dot(from, to);
-				const auto k = muu::sqrt(vector_type::length_squared(from) * vector_type::length_squared(from));
+				const auto k = muu::sqrt(vector_type::length_squared(from) * vector_type::length_squared(to));
 
 				if (muu::approx_equal(k_cos_theta / k, scalar_type{ -1 }))
 				{
-- 
2.43.0


From 41032c960b6b363fa38d07ac4cf3505f0506faab Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 06:06:55 +0000
Subject: [PATCH 33/47] fix: packed_unit_vector: rounding could spill into the
 sign bits or swap the x and y components

---
 include/muu/packed_unit_vector.h | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/include/muu/packed_unit_vector.h b/include/muu/packed_unit_vector.h
index b84ddfb..946418e 100644
--- a/include/muu/packed_unit_vector.h
+++ b/include/muu/packed_unit_vector.h
@@ -90,12 +90,23 @@ namespace muu::impl
 				}
 
 				arith_type ix = static_cast<arith_type>(v.x * static_cast<T>(x_range - arith_type{ 1 }) + T{ 0.5 });
+
+				// (note the clamping; x_range isn't exactly representable if T has fewer significand digits than x_bits)
+				if (ix > x_range)
+					ix = x_range;
 				MUU_ASSUME(ix <= x_range);
 
 				// 3d path does the fancy inversion trick to get an extra bit of precision
 				if constexpr (Dimensions >= 3)
 				{
 					arith_type iy = static_cast<arith_type>(v.y * static_cast<T>(x_range - arith_type{ 1 }) + T{ 0.5 });
+
+					// the inversion below is detected by (ix + iy > x_range) during unpacking,
+					// so rounding must not be allowed to push the sum any higher than x_range - 1
+					if (iy > x_range - arith_type{ 1 })
+						iy = x_range - arith_type{ 1 };
+					if (ix > x_range - arith_type{ 1 } - iy)
+						ix = x_range - arith_type{ 1 } - iy;
 					MUU_ASSUME(iy <= x_range);
 
 					constexpr auto iy_half_threshold = (arith_type{ 1 } << x_bits) / arith_type{ 2 };
-- 
2.43.0


From 324f7dc0ec577c5d1b2af419dfee197c3b879581 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:22:45 +0000
Subject: [PATCH 34/47] fix: bounding_sphere: overlap and containment of two
 spheres added the squared radii

---
 include/muu/bounding_sphere.h | 18 ++++++++----------
 1 file changed, 8 insertions(+), 10 deletions(-)

diff --git a/include/muu/bounding_sphere.h b/include/muu/bounding_sphere.h
index 2eaea6b..b597482 100644
--- a/include/muu/bounding_sphere.h
+++ b/include/muu/bounding_sphere.h
@@ -618,14 +618,11 @@ namespace muu
 		static constexpr bool MUU_VECTORCALL contains(MUU_VPARAM(bounding_sphere) outer,
 													  MUU_VPARAM(bounding_sphere) inner) noexcept
 		{
-			const auto dist_squared		 = vector_type::distance_squared(outer.center, inner.center);
-			const auto outer_rad_squared = outer.radius * outer.radius;
-			const auto inner_rad_squared = inner.radius * inner.radius;
-
-			if (dist_squared > (outer_rad_squared + inner_rad_squared))
+			if (outer.radius < inner.radius)
 				return false;
 
-			return outer_rad_squared >= dist_squared + inner_rad_squared;
+			const auto rad_delta = outer.radius - inner.radius;
+			return vector_type::distance_squared(outer.center, inner.center) <= rad_delta * rad_delta;
 		}
 
 		/// \brief	Returns true if the bounding sphere contains all the points of another bounding sphere.
@@ -640,8 +637,8 @@ namespace muu
 		static constexpr bool MUU_VECTORCALL intersects(MUU_VPARAM(bounding_sphere) bs1,
 														MUU_VPARAM(bounding_sphere) bs2) noexcept
 		{
-			return vector_type::distance_squared(bs1.center, bs2.center)
-				<= ((bs1.radius * bs1.radius) + (bs2.radius * bs2.radius));
+			const auto rad_sum = bs1.radius + bs2.radius;
+			return vector_type::distance_squared(bs1.center, bs2.center) <= rad_sum * rad_sum;
 		}
 
 		/// \brief	Returns true if two bounding spheres intersect.
@@ -790,13 +787,14 @@ namespace muu
 		MUU_PURE_INLINE_GETTER
 		constexpr bool MUU_VECTORCALL operator()(MUU_VPARAM(sphere_type) bs) const noexcept
 		{
-			return vector_type::distance_squared(center, bs.center) <= (radius_squared + bs.radius * bs.radius);
+			return vector_type::distance_squared(center, bs.center) <= (radius + bs.radius) * (radius + bs.radius);
 		}
 
 		MUU_PURE_INLINE_GETTER
 		constexpr bool MUU_VECTORCALL operator()(const collision_tester& tester) const noexcept
 		{
-			return vector_type::distance_squared(center, tester.center) <= (radius_squared + tester.radius_squared);
+			return vector_type::distance_squared(center, tester.center)
+				<= (radius + tester.radius) * (radius + tester.radius);
 		}
 
 		MUU_PURE_GETTER
-- 
2.43.0


From d9e3df12f8d26f2bdf599f5d1c5eb1d4626571de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:22:45 +0000
Subject: [PATCH 35/47] fix: bounding_sphere: closest_point() ignored the
 center of the sphere

---
 include/muu/bounding_sphere.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/muu/bounding_sphere.h b/include/muu/bounding_sphere.h
index b597482..0a8a851 100644
--- a/include/muu/bounding_sphere.h
+++ b/include/muu/bounding_sphere.h
@@ -436,7 +436,7 @@ namespace muu
 			if (dist_squared <= base::radius * base::radius)
 				return point;
 
-			return vector_type::normalize_lensq(delta, dist_squared) * base::radius;
+			return base::center + vector_type::normalize_lensq(delta, dist_squared) * base::radius;
 		}
 
 				/// @}
-- 
2.43.0


From 3c01340c90126079143402e0029d2984240d378c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:22:45 +0000
Subject: [PATCH 36/47] fix: bounding_sphere: approx_zero() did not compile

---
 include/muu/bounding_sphere.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/muu/bounding_sphere.h b/include/muu/bounding_sphere.h
index 0a8a851..3695a55 100644
--- a/include/muu/bounding_sphere.h
+++ b/include/muu/bounding_sphere.h
@@ -333,7 +333,7 @@ namespace muu
 		static constexpr bool MUU_VECTORCALL approx_zero(MUU_VPARAM(bounding_sphere) bs,
 														 scalar_type epsilon = default_epsilon<scalar_type>) noexcept
 		{
-			return vector_type::approx_zero(bs.center, epsilon) && vector_type::approx_zero(bs.radius, epsilon);
+			return vector_type::approx_zero(bs.center, epsilon) && muu::approx_zero(bs.radius, epsilon);
 		}
 
 		/// \brief	Returns true if all the scalar components in the bounding sphere are approximately equal to zero.
-- 
2.43.0


From 1cdbdd2f5c4d614c357ff078872464473ab2f699 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:26:05 +0000
Subject: [PATCH 37/47] fix: bounding_sphere: sphere-triangle intersection
 wrote to its parameters and did not compile for larger scalars

---
 include/muu/bounding_sphere.h | 44 +++++++++++++++++------------------
 1 file changed, 22 insertions(+), 22 deletions(-)

diff --git a/include/muu/bounding_sphere.h b/include/muu/bounding_sphere.h
index 3695a55..694ec35 100644
--- a/include/muu/bounding_sphere.h
+++ b/include/muu/bounding_sphere.h
@@ -551,43 +551,43 @@ namespace muu
 		{
 			// https://realtimecollisiondetection.net/blog/?p=103
 
-			p0 -= bs.center;
-			p1 -= bs.center;
-			p2 -= bs.center;
-			const auto rr = bs.radius * bs.radius;
-			const auto V  = vector_type::cross(p1 - p0, p2 - p0);
-			const auto d  = vector_type::dot(p0, V);
-			const auto e  = vector_type::dot(V, V);
+			const vector_type A = p0 - bs.center;
+			const vector_type B = p1 - bs.center;
+			const vector_type C = p2 - bs.center;
+			const auto rr		= bs.radius * bs.radius;
+			const auto V		= vector_type::cross(B - A, C - A);
+			const auto d		= vector_type::dot(A, V);
+			const auto e		= vector_type::dot(V, V);
 			if (d * d > rr * e)
 				return false;
 
-			const auto aa	= vector_type::dot(p0, p0);
-			const auto ab	= vector_type::dot(p0, p1);
-			const auto ac	= vector_type::dot(p0, p2);
-			const auto bb	= vector_type::dot(p1, p1);
-			const auto bc	= vector_type::dot(p1, p2);
-			const auto cc	= vector_type::dot(p2, p2);
+			const auto aa	= vector_type::dot(A, A);
+			const auto ab	= vector_type::dot(A, B);
+			const auto ac	= vector_type::dot(A, C);
+			const auto bb	= vector_type::dot(B, B);
+			const auto bc	= vector_type::dot(B, C);
+			const auto cc	= vector_type::dot(C, C);
 			const auto sep2 = (aa > rr) && (ab > aa) && (ac > aa);
 			const auto sep3 = (bb > rr) && (ab > bb) && (bc > bb);
 			const auto sep4 = (cc > rr) && (ac > cc) && (bc > cc);
 			if (sep2 || sep3 || sep4)
 				return false;
 
-			const auto AB	= p1 - p0;
-			const auto BC	= p2 - p1;
-			const auto CA	= p0 - p2;
+			const auto AB	= B - A;
+			const auto BC	= C - B;
+			const auto CA	= A - C;
 			const auto d1	= ab - aa;
 			const auto d2	= bc - bb;
 			const auto d3	= ac - cc;
 			const auto e1	= vector_type::dot(AB, AB);
 			const auto e2	= vector_type::dot(BC, BC);
 			const auto e3	= vector_type::dot(CA, CA);
-			const auto Q1	= p0 * e1 - d1 * AB;
-			const auto Q2	= p1 * e2 - d2 * BC;
-			const auto Q3	= p2 * e3 - d3 * CA;
-			const auto QC	= p2 * e1 - Q1;
-			const auto QA	= p0 * e2 - Q2;
-			const auto QB	= p1 * e3 - Q3;
+			const auto Q1	= A * e1 - d1 * AB;
+			const auto Q2	= B * e2 - d2 * BC;
+			const auto Q3	= C * e3 - d3 * CA;
+			const auto QC	= C * e1 - Q1;
+			const auto QA	= A * e2 - Q2;
+			const auto QB	= B * e3 - Q3;
 			const auto sep5 = (vector_type::dot(Q1, Q1) > rr * e1 * e1) && (vector_type::dot(Q1, QC) > scalar_type{});
 			const auto sep6 = (vector_type::dot(Q2, Q2) > rr * e2 * e2) && (vector_type::dot(Q2, QA) > scalar_type{});
 			const auto sep7 = (vector_type::dot(Q3, Q3) > rr * e3 * e3) && (vector_type::dot(Q3, QB) > scalar_type{});
-- 
2.43.0


From 2424bd7e86b4ec6dc0d234e4d1ef2a03c22f0b8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:26:05 +0000
Subject: [PATCH 38/47] fix: plane: line segment intersection was inverted

---
 include/muu/impl/geometry_common.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/muu/impl/geometry_common.h b/include/muu/impl/geometry_common.h
index ce14eae..f81fc69 100644
--- a/include/muu/impl/geometry_common.h
+++ b/include/muu/impl/geometry_common.h
@@ -152,7 +152,7 @@ namespace muu::impl
 																	 vector_param start,
 																	 vector_param end) noexcept
 		{
-			return signed_distance(normal, d, start) * signed_distance(normal, d, end) >= scalar_type{};
+			return signed_distance(normal, d, start) * signed_distance(normal, d, end) <= scalar_type{};
 		}
 	};
 }
-- 
2.43.0


From 77ef262529f80a73f1946f685c2069542e629acc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:26:05 +0000
Subject: [PATCH 39/47] fix: triangle: contains() accepted points on the
 extensions of one of the edges

---
 include/muu/impl/geometry_common.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/muu/impl/geometry_common.h b/include/muu/impl/geometry_common.h
index f81fc69..f8483c4 100644
--- a/include/muu/impl/geometry_common.h
+++ b/include/muu/impl/geometry_common.h
@@ -423,7 +423,9 @@ namespace muu::impl
 			const auto v = vector_type::cross(c, a);
 			const auto w = vector_type::cross(a, b);
 
-			return vector_type::dot(u, v) >= scalar_type{} && vector_type::dot(u, w) >= scalar_type{};
+			return vector_type::dot(u, v) >= scalar_type{}	//
+				&& vector_type::dot(u, w) >= scalar_type{} //
+				&& vector_type::dot(v, w) >= scalar_type{};
 		}
 
 		MUU_PURE_GETTER
-- 
2.43.0


From dafed5022d1bc01c1f4587d3900ebabae09e7756 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:26:05 +0000
Subject: [PATCH 40/47] fix: ray: triangles behind the origin were hit at a
 negative distance

---
 include/muu/impl/geometry_common.h | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/include/muu/impl/geometry_common.h b/include/muu/impl/geometry_common.h
index f8483c4..8d58e30 100644
--- a/include/muu/impl/geometry_common.h
+++ b/include/muu/impl/geometry_common.h
@@ -1056,7 +1056,13 @@ namespace muu::impl
 			if (v < scalar_type{} || u + v > scalar_type{ 1 })
 				return {};
 
-			return vector_type::dot(v0v2, qvec) * invDet;
+			const scalar_type t = vector_type::dot(v0v2, qvec) * invDet;
+
+			// triangle is behind the ray
+			if (t < scalar_type{})
+				return {};
+
+			return t;
 		}
 
 		MUU_PURE_GETTER
-- 
2.43.0


From 18656d5ec05d3ea60816c4b4014bd2bdcfb85a0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:26:05 +0000
Subject: [PATCH 41/47] fix: ray: spheres containing the origin were missed by
 rays pointing away from the center

---
 include/muu/impl/geometry_common.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/muu/impl/geometry_common.h b/include/muu/impl/geometry_common.h
index 8d58e30..d94713a 100644
--- a/include/muu/impl/geometry_common.h
+++ b/include/muu/impl/geometry_common.h
@@ -1076,14 +1076,14 @@ namespace muu::impl
 			const vector_type e = sphere_center - ray_origin;
 			const scalar_type a = vector_type::dot(e, ray_direction);
 
-			// ray points in the wrong direction
-			if (a < scalar_type{})
-				return {};
-
 			const scalar_type e2 = vector_type::length_squared(e);
 			const scalar_type r2 = sphere_radius * sphere_radius;
 			const scalar_type a2 = a * a;
 
+			// ray points in the wrong direction
+			if (a < scalar_type{} && e2 >= r2)
+				return {};
+
 			// no collision
 			if (r2 - e2 + a2 < default_epsilon<scalar_type>)
 				return {};
-- 
2.43.0


From 08ac33d233a2c354c09f498ec1de310a341534eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:26:05 +0000
Subject: [PATCH 42/47] fix: line_segment: midpoint() of small float types did
 not compile

---
 include/muu/line_segment.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/muu/line_segment.h b/include/muu/line_segment.h
index a45ca5f..84aee1c 100644
--- a/include/muu/line_segment.h
+++ b/include/muu/line_segment.h
@@ -240,8 +240,8 @@ namespace muu
 		static constexpr vector_type MUU_VECTORCALL midpoint(MUU_VPARAM(line_segment) seg) noexcept
 		{
 			if constexpr (is_small_float)
-				return vector_type{ line_segment<promoted_scalar>::midpoint(promoted_vec{ seg.points[0] },
-																			promoted_vec{ seg.points[1] }) };
+				return vector_type{ (promoted_vec{ seg.points[0] } + promoted_vec{ seg.points[1] })
+									/ promoted_scalar{ 2 } };
 			else
 				return (seg.points[0] + seg.points[1]) / scalar_type{ 2 };
 		}
-- 
2.43.0


From da20b4424b384a984c514d792eb8b5730730723d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:26:49 +0000
Subject: [PATCH 43/47] fix: oriented_bounding_box: box-box intersection did
 not test the edge-edge axes

---
 .../impl/bounding_box_x_oriented_bounding_box.h | 17 ++++++++++++++++-
 include/muu/oriented_bounding_box.h             | 16 ++++++++++++++++
 2 files changed, 32 insertions(+), 1 deletion(-)

diff --git a/include/muu/impl/bounding_box_x_oriented_bounding_box.h b/include/muu/impl/bounding_box_x_oriented_bounding_box.h
index 6a0f279..3c3f192 100644
--- a/include/muu/impl/bounding_box_x_oriented_bounding_box.h
+++ b/include/muu/impl/bounding_box_x_oriented_bounding_box.h
@@ -99,7 +99,22 @@ namespace muu
 				return false;
 		}
 
-		return true;
+		// test the cross products of each pair of edge directions
+		const auto test_edges = [&](auto idx) noexcept -> bool
+		{
+			for (size_t i = 0; i < 3; i++)
+			{
+				const auto axis = vector_type::cross(idx, obb.axes.m[i]);
+				if (vector_type::length_squared(axis) <= default_epsilon<Scalar>)
+					continue; // edges are parallel; covered by the face normals
+
+				sat_tester tester1{ axis, obb_corners };
+				if (!tester1(sat_tester{ axis, aabb_corners }))
+					return false;
+			}
+			return true;
+		};
+		return test_edges(x_axis_tag{}) && test_edges(y_axis_tag{}) && test_edges(z_axis_tag{});
 	}
 }
 
diff --git a/include/muu/oriented_bounding_box.h b/include/muu/oriented_bounding_box.h
index 95b5764..4bab206 100644
--- a/include/muu/oriented_bounding_box.h
+++ b/include/muu/oriented_bounding_box.h
@@ -901,6 +901,22 @@ namespace muu
 						return false;
 				}
 			}
+
+			// cross products of each pair of edge directions
+			for (size_t i = 0; i < 3; i++)
+			{
+				for (size_t j = 0; j < 3; j++)
+				{
+					const auto axis = vector_type::cross(bb1.axes.m[i], bb2.axes.m[j]);
+					if (vector_type::length_squared(axis) <= default_epsilon<scalar_type>)
+						continue; // edges are parallel; covered by the face normals
+
+					sat_tester tester1{ axis, corners1 };
+					if (!tester1(sat_tester{ axis, corners2 }))
+						return false;
+				}
+			}
+
 			return true;
 		}
 
-- 
2.43.0


From b0fc104be7c5eb4a47d775121d5f3173ba18d09d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:26:49 +0000
Subject: [PATCH 44/47] fix: matrix: approx_equal() read the matrix despite
 being marked as a const function

---
 include/muu/matrix.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/muu/matrix.h b/include/muu/matrix.h
index 68089f7..eef8238 100644
--- a/include/muu/matrix.h
+++ b/include/muu/matrix.h
@@ -2279,7 +2279,7 @@ namespace muu
 		MUU_CONSTRAINED_TEMPLATE((any_floating_point<Scalar, T> //
 								  && impl::pass_vector_by_value<matrix<T, Rows, Columns>>),
 								 typename T)
-		MUU_CONST_GETTER
+		MUU_PURE_GETTER
 		constexpr bool MUU_VECTORCALL approx_equal(
 			matrix<T, rows, columns> m,
 			epsilon_type<scalar_type, T> epsilon = default_epsilon<scalar_type, T>) const noexcept
-- 
2.43.0


From 26f585fdf3dad6c945a1ec287934cd071d1812bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:26:49 +0000
Subject: [PATCH 45/47] fix: vector: direction() wrote its output parameter
 despite being marked as a pure function

---
 include/muu/vector.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/muu/vector.h b/include/muu/vector.h
index ae82a7a..0898d98 100644
--- a/include/muu/vector.h
+++ b/include/muu/vector.h
@@ -2211,7 +2211,7 @@ namespace muu
 		///
 		/// \availability	This function is only available when #dimensions == 2 or 3.
 		MUU_HIDDEN_CONSTRAINT(Dims == 2 || Dims == 3, size_t Dims = Dimensions)
-		MUU_PURE_GETTER
+		MUU_NODISCARD
 		static constexpr delta_type MUU_VECTORCALL direction(MUU_VPARAM(vector) from,
 															 MUU_VPARAM(vector) to,
 															 delta_scalar_type& distance_out) noexcept
@@ -2260,7 +2260,7 @@ namespace muu
 		///
 		/// \availability	This function is only available when #dimensions == 2 or 3.
 		MUU_HIDDEN_CONSTRAINT(Dims == 2 || Dims == 3, size_t Dims = Dimensions)
-		MUU_PURE_INLINE_GETTER
+		MUU_INLINE_GETTER
 		constexpr delta_type MUU_VECTORCALL direction(MUU_VPARAM(vector) to,
 													  delta_scalar_type& distance_out) const noexcept
 		{
-- 
2.43.0


From 15d141345b41274e9cd91cca43d67d29ad9090ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:26:49 +0000
Subject: [PATCH 46/47] fix: line_segment: direction() wrote its output
 parameter despite being marked as a pure function

---
 include/muu/line_segment.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/muu/line_segment.h b/include/muu/line_segment.h
index 84aee1c..9679ded 100644
--- a/include/muu/line_segment.h
+++ b/include/muu/line_segment.h
@@ -207,7 +207,7 @@ namespace muu
 		  /// @{
 
 		/// \brief	Returns the direction of a line segment (from point 0 to point 1).
-		MUU_PURE_INLINE_GETTER
+		MUU_INLINE_GETTER
 		static constexpr vector_type MUU_VECTORCALL direction(MUU_VPARAM(line_segment) seg,
 															  scalar_type& length_out) noexcept
 		{
@@ -215,7 +215,7 @@ namespace muu
 		}
 
 		/// \brief	Returns the direction of the line segment (from point 0 to point 1).
-		MUU_PURE_INLINE_GETTER
+		MUU_INLINE_GETTER
 		constexpr vector_type direction(scalar_type& length_out) const noexcept
 		{
 			return direction(*this, length_out);
-- 
2.43.0


From 78e84bde46099b5fa8000544c45b74d01097d097 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:26:49 +0000
Subject: [PATCH 47/47] fix: triangle: intersects() wrote its output parameter
 despite being marked as a pure function

---
 include/muu/impl/tri_tri_intersection.h | 5 ++---
 include/muu/triangle.h                  | 4 ++--
 2 files changed, 4 insertions(+), 5 deletions(-)

diff --git a/include/muu/impl/tri_tri_intersection.h b/include/muu/impl/tri_tri_intersection.h
index 6a30a49..ca2e01a 100644
--- a/include/muu/impl/tri_tri_intersection.h
+++ b/include/muu/impl/tri_tri_intersection.h
@@ -342,7 +342,6 @@ namespace muu::impl
 			isectpoint1 = VTX0 + diff;
 		}
 
-		MUU_PURE_GETTER
 		static constexpr bool compute_intervals_isectline(vector_param VERT0,
 														  vector_param VERT1,
 														  vector_param VERT2,
@@ -375,7 +374,7 @@ namespace muu::impl
 			return false;
 		}
 
-		MUU_PURE_GETTER
+		MUU_NODISCARD
 		static constexpr bool intersects(vector_param V0,
 										 vector_param V1,
 										 vector_param V2,
@@ -589,7 +588,7 @@ namespace muu
 	}
 
 	template <typename Scalar>
-	MUU_PURE_GETTER
+	MUU_NODISCARD
 	constexpr bool MUU_VECTORCALL triangle<Scalar>::intersects(MUU_VPARAM(triangle) tri1,
 															   MUU_VPARAM(triangle) tri2,
 															   std::optional<line_segment<Scalar>>& seg) noexcept
diff --git a/include/muu/triangle.h b/include/muu/triangle.h
index acef499..f25f186 100644
--- a/include/muu/triangle.h
+++ b/include/muu/triangle.h
@@ -555,13 +555,13 @@ namespace muu
 		//--------------------------------
 
 		/// \brief	Returns true if two triangles intersect, plus the line segment of the intersection (if one exists).
-		MUU_PURE_GETTER
+		MUU_NODISCARD
 		static constexpr bool MUU_VECTORCALL intersects(MUU_VPARAM(triangle) tri1,
 														MUU_VPARAM(triangle) tri2,
 														std::optional<line_segment<scalar_type>>& seg) noexcept;
 
 		/// \brief	Returns true if a triangle intersects with another triangle, plus the line segment of the intersection (if one exists).
-		MUU_PURE_INLINE_GETTER
+		MUU_INLINE_GETTER
 		constexpr bool MUU_VECTORCALL intersects(MUU_VPARAM(triangle) tri,
 												 std::optional<line_segment<scalar_type>>& seg) const noexcept
 		{
-- 
2.43.0

