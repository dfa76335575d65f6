From e85e222b7d2ac66688fb63bc229aa95d0c8b2be9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:41 +0000
Subject: [PATCH 01/73] fix: x86 mask transfers and masked vector transfers
 address elements, not native vectors

---
 dpm/detail/x86/type.hpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/dpm/detail/x86/type.hpp b/dpm/detail/x86/type.hpp
index 65fc5c9..0d4e442 100644
--- a/dpm/detail/x86/type.hpp
+++ b/dpm/detail/x86/type.hpp
@@ -137,14 +137,14 @@ namespace dpm
 		constexpr void copy_from(I mem, Flags) noexcept requires is_simd_flag_type_v<Flags> && std::is_convertible_v<std::iter_value_t<I>, value_type>
 		{
 			for (std::size_t i = 0; i < size(); ++i)
-				_data[i] = static_cast<value_type>(mem[i]);
+				operator[](i) = static_cast<value_type>(mem[i]);
 		}
 		/** Copies the underlying elements to \a mem. */
 		template<std::contiguous_iterator I, typename Flags>
 		constexpr void copy_to(I mem, Flags) const noexcept requires is_simd_flag_type_v<Flags> && std::is_convertible_v<value_type, std::iter_value_t<I>>
 		{
 			for (std::size_t i = 0; i < size(); ++i)
-				mem[i] = static_cast<std::iter_value_t<I>>(_data[i]);
+				mem[i] = static_cast<std::iter_value_t<I>>(operator[](i));
 		}
 
 		/** Copies the underlying elements from \a mem if the corresponding element of mask \a m evaluates to `true`. */
@@ -152,14 +152,14 @@ namespace dpm
 		constexpr void copy_from(I mem, const mask_type &m, Flags) noexcept requires is_simd_flag_type_v<Flags> && std::is_convertible_v<std::iter_value_t<I>, value_type>
 		{
 			for (std::size_t i = 0; i < size(); ++i)
-				if (m[i]) _data[i] = static_cast<value_type>(mem[i]);
+				if (m[i]) operator[](i) = static_cast<value_type>(mem[i]);
 		}
 		/** Copies the underlying elements to \a mem if the corresponding element of mask \a m evaluates to `true`. */
 		template<std::contiguous_iterator I, typename Flags>
 		constexpr void copy_to(I mem, const mask_type &m, Flags) const noexcept requires is_simd_flag_type_v<Flags> && std::is_convertible_v<value_type, std::iter_value_t<I>>
 		{
 			for (std::size_t i = 0; i < size(); ++i)
-				if (m[i]) mem[i] = static_cast<std::iter_value_t<I>>(_data[i]);
+				if (m[i]) mem[i] = static_cast<std::iter_value_t<I>>(operator[](i));
 		}
 
 		[[nodiscard]] constexpr reference operator[](std::size_t i) & noexcept
@@ -675,14 +675,14 @@ namespace dpm
 		constexpr void copy_from(I mem, const mask_type &m, Flags) noexcept requires is_simd_flag_type_v<Flags> && std::is_convertible_v<std::iter_value_t<I>, value_type>
 		{
 			for (std::size_t i = 0; i < size(); ++i)
-				if (m[i]) _data[i] = static_cast<value_type>(mem[i]);
+				if (m[i]) operator[](i) = static_cast<value_type>(mem[i]);
 		}
 		/** Copies the underlying elements to \a mem if the corresponding element of mask \a m evaluates to `true`. */
 		template<std::contiguous_iterator I, typename Flags>
 		constexpr void copy_to(I mem, const mask_type &m, Flags) const noexcept requires is_simd_flag_type_v<Flags> && std::is_convertible_v<value_type, std::iter_value_t<I>>
 		{
 			for (std::size_t i = 0; i < size(); ++i)
-				if (m[i]) mem[i] = static_cast<std::iter_value_t<I>>(_data[i]);
+				if (m[i]) mem[i] = static_cast<std::iter_value_t<I>>(operator[](i));
 		}
 
 		[[nodiscard]] constexpr reference operator[](std::size_t i) & noexcept
-- 
2.43.0


From f17f9806a68d94242d6815ffc73b9db91a7a2549 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:41 +0000
Subject: [PATCH 02/73] fix: vector-aligned transfers do not touch memory past
 the last element

---
 dpm/detail/x86/type.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dpm/detail/x86/type.hpp b/dpm/detail/x86/type.hpp
index 0d4e442..760c526 100644
--- a/dpm/detail/x86/type.hpp
+++ b/dpm/detail/x86/type.hpp
@@ -650,7 +650,7 @@ namespace dpm
 				if (!std::is_constant_evaluated())
 				{
 					const auto src = std::to_address(mem);
-					for (std::size_t j = 0; j < data_size; i += native_extent, ++j)
+					for (std::size_t j = 0; i + native_extent <= size(); i += native_extent, ++j)
 						detail::native_vec_cast<T, U>(_data[j], src + i);
 				}
 			for (; i < size(); ++i) operator[](i) = static_cast<T>(mem[i]);
@@ -664,7 +664,7 @@ namespace dpm
 				if (!std::is_constant_evaluated())
 				{
 					const auto dst = std::to_address(mem);
-					for (std::size_t j = 0; j < data_size; i += native_extent, ++j)
+					for (std::size_t j = 0; i + native_extent <= size(); i += native_extent, ++j)
 						detail::native_vec_cast<U, T>(dst + i, _data[j]);
 				}
 			for (; i < size(); ++i) mem[i] = static_cast<U>(operator[](i));
-- 
2.43.0


From b2c4b1a63ddb9f0a4695f5a7056bf33671214531 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:41 +0000
Subject: [PATCH 03/73] fix: vector-aligned loads accept a pointer to non-const
 elements

---
 dpm/detail/x86/type.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dpm/detail/x86/type.hpp b/dpm/detail/x86/type.hpp
index 760c526..5623fe9 100644
--- a/dpm/detail/x86/type.hpp
+++ b/dpm/detail/x86/type.hpp
@@ -649,7 +649,7 @@ namespace dpm
 			if constexpr (detail::aligned_tag<Flags, alignof(native_type)> && sizeof(U) == sizeof(value_type))
 				if (!std::is_constant_evaluated())
 				{
-					const auto src = std::to_address(mem);
+					const U *const src = std::to_address(mem);
 					for (std::size_t j = 0; i + native_extent <= size(); i += native_extent, ++j)
 						detail::native_vec_cast<T, U>(_data[j], src + i);
 				}
-- 
2.43.0


From c3af489a4e3b6c2219ab83364c87004c7cae122c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:39 +0000
Subject: [PATCH 04/73] fix: constant shifts of x86 vectors instantiate for
 every width

---
 dpm/detail/x86/type.hpp | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/dpm/detail/x86/type.hpp b/dpm/detail/x86/type.hpp
index 5623fe9..78022ee 100644
--- a/dpm/detail/x86/type.hpp
+++ b/dpm/detail/x86/type.hpp
@@ -1302,8 +1302,8 @@ namespace dpm
 		{
 			if (std::is_constant_evaluated())
 			{
-				const auto packed = static_cast<simd<T, simd_abi::ext::packed_buffer<N>>>(x);
-				return static_cast<detail::x86_mask<T, N, A>>(lsl<N>(packed));
+				const auto packed = static_cast<simd<T, simd_abi::ext::packed_buffer<M>>>(x);
+				return static_cast<detail::x86_simd<T, M, A>>(lsl<N>(packed));
 			}
 			else
 			{
@@ -1318,8 +1318,8 @@ namespace dpm
 		{
 			if (std::is_constant_evaluated())
 			{
-				const auto packed = static_cast<simd<T, simd_abi::ext::packed_buffer<N>>>(x);
-				return static_cast<detail::x86_mask<T, N, A>>(lsr<N>(packed));
+				const auto packed = static_cast<simd<T, simd_abi::ext::packed_buffer<M>>>(x);
+				return static_cast<detail::x86_simd<T, M, A>>(lsr<N>(packed));
 			}
 			else
 			{
@@ -1335,8 +1335,8 @@ namespace dpm
 		{
 			if (std::is_constant_evaluated())
 			{
-				const auto packed = static_cast<simd<T, simd_abi::ext::packed_buffer<N>>>(x);
-				return static_cast<detail::x86_mask<T, N, A>>(asl<N>(packed));
+				const auto packed = static_cast<simd<T, simd_abi::ext::packed_buffer<M>>>(x);
+				return static_cast<detail::x86_simd<T, M, A>>(asl<N>(packed));
 			}
 			else
 			{
@@ -1351,8 +1351,8 @@ namespace dpm
 		{
 			if (std::is_constant_evaluated())
 			{
-				const auto packed = static_cast<simd<T, simd_abi::ext::packed_buffer<N>>>(x);
-				return static_cast<detail::x86_mask<T, N, A>>(asr<N>(packed));
+				const auto packed = static_cast<simd<T, simd_abi::ext::packed_buffer<M>>>(x);
+				return static_cast<detail::x86_simd<T, M, A>>(asr<N>(packed));
 			}
 			else
 			{
-- 
2.43.0


From 50a612b31469fea307009af3557ac56540e800af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:39 +0000
Subject: [PATCH 05/73] fix: generic sincos passes each element to the scalar
 builtin

---
 dpm/detail/generic/math.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/dpm/detail/generic/math.hpp b/dpm/detail/generic/math.hpp
index a730493..66bee6b 100644
--- a/dpm/detail/generic/math.hpp
+++ b/dpm/detail/generic/math.hpp
@@ -662,7 +662,7 @@ namespace dpm
 					if constexpr (std::same_as<T, float>)
 					{
 #if __has_builtin(__builtin_sincosf)
-						__builtin_sincosf(x, &sin, &cos);
+						__builtin_sincosf(x[i], &sin, &cos);
 #else
 						::sincosf(x[i], &sin, &cos);
 #endif
@@ -670,7 +670,7 @@ namespace dpm
 					else if constexpr (std::same_as<T, long double>)
 					{
 #if __has_builtin(__builtin_sincosl)
-						__builtin_sincosl(x, &sin, &cos);
+						__builtin_sincosl(x[i], &sin, &cos);
 #else
 						::sincosl(x[i], &sin, &cos);
 #endif
@@ -678,7 +678,7 @@ namespace dpm
 					else
 					{
 #if __has_builtin(__builtin_sincos)
-						__builtin_sincos(x, &sin, &cos);
+						__builtin_sincos(x[i], &sin, &cos);
 #else
 						::sincos(x[i], &sin, &cos);
 #endif
-- 
2.43.0


From f0471b895dae234803e6c3f97cedb564c5f2bbbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:11 +0000
Subject: [PATCH 06/73] fix: vector-aligned transfers copy object
 representations instead of punning element buffers

---
 dpm/detail/x86/utility.hpp | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/dpm/detail/x86/utility.hpp b/dpm/detail/x86/utility.hpp
index 24fb686..c0abdcc 100644
--- a/dpm/detail/x86/utility.hpp
+++ b/dpm/detail/x86/utility.hpp
@@ -4,6 +4,8 @@
 
 #pragma once
 
+#include <cstring>
+
 #include "type_fwd.hpp"
 #include "cvt.hpp"
 
@@ -315,8 +317,18 @@ namespace dpm::detail
 	template<typename To, typename From, typename VTo, typename VFrom>
 	DPM_FORCEINLINE void native_vec_cast(VTo &dst, const VFrom &src) noexcept requires(!std::same_as<To, From> && !(std::integral<To> && std::integral<From> && sizeof(To) == sizeof(From))) { dst = cvt<To, From>(src); }
 	template<typename To, typename From, typename VFrom>
-	DPM_FORCEINLINE void native_vec_cast(To *dst, const VFrom &src) noexcept { native_vec_cast<To, From>(*reinterpret_cast<select_vector_t<To, sizeof(VFrom)> *>(dst), src); }
+	DPM_FORCEINLINE void native_vec_cast(To *dst, const VFrom &src) noexcept
+	{
+		select_vector_t<To, sizeof(VFrom)> tmp;
+		native_vec_cast<To, From>(tmp, src);
+		std::memcpy(dst, &tmp, sizeof(tmp));
+	}
 	template<typename To, typename From, typename VTo>
-	DPM_FORCEINLINE void native_vec_cast(VTo &dst, const From *src) noexcept { native_vec_cast<To, From>(dst, *reinterpret_cast<const select_vector_t<From, sizeof(VTo)> *>(src)); }
+	DPM_FORCEINLINE void native_vec_cast(VTo &dst, const From *src) noexcept
+	{
+		select_vector_t<From, sizeof(VTo)> tmp;
+		std::memcpy(&tmp, src, sizeof(tmp));
+		native_vec_cast<To, From>(dst, tmp);
+	}
 
 }
\ No newline at end of file
-- 
2.43.0


From 1c72c5036af88a91f5b351b053b141b4bf0ef946 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:07 +0000
Subject: [PATCH 07/73] fix: generic mask complement is a logical not of each
 element

---
 dpm/detail/generic/type.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dpm/detail/generic/type.hpp b/dpm/detail/generic/type.hpp
index 17f8359..c8f6ccc 100644
--- a/dpm/detail/generic/type.hpp
+++ b/dpm/detail/generic/type.hpp
@@ -302,7 +302,7 @@ namespace dpm
 	{
 		std::array<bool, simd_size_v<T, Abi>> result = {};
 		for (std::size_t i = 0; i < simd_mask<T, Abi>::size(); ++i)
-			result[i] = ~x[i];
+			result[i] = !x[i];
 		return {result.data(), element_aligned};
 	}
 	/** Preforms a bitwise AND on the elements of the masks \a a and \a b. */
-- 
2.43.0


From 3debb0d55e5e26196077d04956035ee094d113ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:07 +0000
Subject: [PATCH 08/73] fix: generic blend asks the mask for its size

---
 dpm/detail/generic/type.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dpm/detail/generic/type.hpp b/dpm/detail/generic/type.hpp
index c8f6ccc..19b933f 100644
--- a/dpm/detail/generic/type.hpp
+++ b/dpm/detail/generic/type.hpp
@@ -290,7 +290,7 @@ namespace dpm
 	[[nodiscard]] constexpr simd_mask<T, Abi> blend(const simd_mask<T, Abi> &m, const simd_mask<T, Abi> &a, const simd_mask<T, Abi> &b) noexcept
 	{
 		std::array<bool, simd_size_v<T, Abi>> result = {};
-		for (std::size_t i = 0; i < m.size; ++i)
+		for (std::size_t i = 0; i < m.size(); ++i)
 			result[i] = m[i] ? a[i] : b[i];
 		return {result.data(), element_aligned};
 	}
@@ -687,7 +687,7 @@ namespace dpm
 	[[nodiscard]] constexpr simd<T, Abi> blend(const simd_mask<T, Abi> &m, const simd<T, Abi> &a, const simd<T, Abi> &b) noexcept
 	{
 		alignas(simd<T, Abi>) std::array<T, simd_size_v<T, Abi>> result = {};
-		for (std::size_t i = 0; i < m.size; ++i)
+		for (std::size_t i = 0; i < m.size(); ++i)
 			result[i] = m[i] ? a[i] : b[i];
 		return {result.data(), vector_aligned};
 	}
-- 
2.43.0


From 733e687c663fdd7f3828826aacd004b0ec4d2e5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:07 +0000
Subject: [PATCH 09/73] fix: compound vector shifts shift in the direction of
 their operator

---
 dpm/detail/generic/type.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dpm/detail/generic/type.hpp b/dpm/detail/generic/type.hpp
index 19b933f..1425a38 100644
--- a/dpm/detail/generic/type.hpp
+++ b/dpm/detail/generic/type.hpp
@@ -956,10 +956,10 @@ namespace dpm
 	}
 	/** Shifts elements of vector \a a left by the amount specified by elements of vector \a b, and returns reference to \a a. */
 	template<typename T, typename Abi>
-	constexpr simd<T, Abi> &operator<<=(simd<T, Abi> &a, const simd<T, Abi> &b) noexcept requires(requires(T l, T r){ l <<= r; }) { return a = a >> b; }
+	constexpr simd<T, Abi> &operator<<=(simd<T, Abi> &a, const simd<T, Abi> &b) noexcept requires(requires(T l, T r){ l <<= r; }) { return a = a << b; }
 	/** Shifts elements of vector \a a right by the amount specified by elements of vector \a b, and returns reference to \a a. */
 	template<typename T, typename Abi>
-	constexpr simd<T, Abi> &operator>>=(simd<T, Abi> &a, const simd<T, Abi> &b) noexcept requires(requires(T l, T r){ l >>= r; }) { return a = a << b; }
+	constexpr simd<T, Abi> &operator>>=(simd<T, Abi> &a, const simd<T, Abi> &b) noexcept requires(requires(T l, T r){ l >>= r; }) { return a = a >> b; }
 
 	/** Shifts elements of vector \a a left by \a n. */
 	template<typename T, typename Abi, std::integral I>
-- 
2.43.0


From b95ca1e47d6c5896666ce10af60f058d9b7d066e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:07 +0000
Subject: [PATCH 10/73] fix: x86 right shift by a vector falls back to a right
 shift

---
 dpm/detail/x86/type.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dpm/detail/x86/type.hpp b/dpm/detail/x86/type.hpp
index 78022ee..e3666ef 100644
--- a/dpm/detail/x86/type.hpp
+++ b/dpm/detail/x86/type.hpp
@@ -1122,7 +1122,7 @@ namespace dpm
 		{
 			const auto packed_a = static_cast<simd<T, simd_abi::ext::packed_buffer<N>>>(a);
 			const auto packed_b = static_cast<simd<T, simd_abi::ext::packed_buffer<N>>>(b);
-			return static_cast<detail::x86_simd<T, N, A>>(packed_a << packed_b);
+			return static_cast<detail::x86_simd<T, N, A>>(packed_a >> packed_b);
 		}
 	}
 
-- 
2.43.0


From c71b6953e5818bf3ea8db7c70326726f8c6576e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:07 +0000
Subject: [PATCH 11/73] fix: x86 right shifts of signed vectors replicate the
 sign bit

---
 dpm/detail/x86/type.hpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/dpm/detail/x86/type.hpp b/dpm/detail/x86/type.hpp
index e3666ef..a4def51 100644
--- a/dpm/detail/x86/type.hpp
+++ b/dpm/detail/x86/type.hpp
@@ -1107,11 +1107,11 @@ namespace dpm
 	[[nodiscard]] constexpr DPM_FORCEINLINE detail::x86_simd<T, N, A> operator>>(const detail::x86_simd<T, N, A> &a, const detail::x86_simd<T, N, A> &b) noexcept
 	{
 #if defined(DPM_HAS_AVX512BW) && defined(DPM_HAS_AVX512LV)
-		if constexpr(!std::is_constant_evaluated() && sizeof(T) == 2 || sizeof(T) == 4 || sizeof(T) == 8)
+		if constexpr(std::unsigned_integral<T> && (sizeof(T) == 2 || sizeof(T) == 4 || sizeof(T) == 8))
 #elif defined(DPM_HAS_SSE4_1)
-		if constexpr(!std::is_constant_evaluated() && sizeof(T) == 4 || sizeof(T) == 8)
+		if constexpr(std::unsigned_integral<T> && (sizeof(T) == 4 || sizeof(T) == 8))
 #else
-		if constexpr(!std::is_constant_evaluated() && sizeof(T) == 8)
+		if constexpr(std::unsigned_integral<T> && sizeof(T) == 8)
 #endif
 		{
 			detail::x86_simd<T, N, A> result = {};
@@ -1152,11 +1152,11 @@ namespace dpm
 	[[nodiscard]] constexpr DPM_FORCEINLINE detail::x86_simd<T, N, A> operator>>(const detail::x86_simd<T, N, A> &a, T n) noexcept
 	{
 #if defined(DPM_HAS_AVX512BW) && defined(DPM_HAS_AVX512LV)
-		if constexpr(!std::is_constant_evaluated() && sizeof(T) == 2 || sizeof(T) == 4 || sizeof(T) == 8)
+		if constexpr(std::unsigned_integral<T> && (sizeof(T) == 2 || sizeof(T) == 4 || sizeof(T) == 8))
 #elif defined(DPM_HAS_SSE4_1)
-		if constexpr(!std::is_constant_evaluated() && sizeof(T) == 4 || sizeof(T) == 8)
+		if constexpr(std::unsigned_integral<T> && (sizeof(T) == 4 || sizeof(T) == 8))
 #else
-		if constexpr(!std::is_constant_evaluated() && sizeof(T) == 8)
+		if constexpr(std::unsigned_integral<T> && sizeof(T) == 8)
 #endif
 		{
 			detail::x86_simd<T, N, A> result = {};
-- 
2.43.0


From 79955ad6f9e6dff6aaf2a811702f575d0dd4168f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:07 +0000
Subject: [PATCH 12/73] fix: 64-bit arithmetic right shift emulation carries
 bits between the halves

---
 dpm/detail/x86/bitwise.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dpm/detail/x86/bitwise.hpp b/dpm/detail/x86/bitwise.hpp
index f74bc62..0cc2aa5 100644
--- a/dpm/detail/x86/bitwise.hpp
+++ b/dpm/detail/x86/bitwise.hpp
@@ -226,7 +226,7 @@ namespace dpm::detail
 		{
 			xh = _mm_srai_epi32(xh, N);
 			xh = _mm_shuffle_epi32(xh, _MM_SHUFFLE(3, 2, 3, 1));
-			xl = _mm_srli_epi32(xl, N);
+			xl = _mm_srli_epi64(xl, N);
 			xl = _mm_shuffle_epi32(xl, _MM_SHUFFLE(3, 2, 2, 0));
 		}
 		return _mm_unpacklo_epi32(xl, xh);
@@ -249,7 +249,7 @@ namespace dpm::detail
 		{
 			xh = _mm256_srai_epi32(xh, N);
 			xh = _mm256_shuffle_epi32(xh, _MM_SHUFFLE(3, 2, 3, 1));
-			xl = _mm256_srli_epi32(xl, N);
+			xl = _mm256_srli_epi64(xl, N);
 			xl = _mm256_shuffle_epi32(xl, _MM_SHUFFLE(3, 2, 2, 0));
 		}
 		return _mm256_unpacklo_epi32(xl, xh);
-- 
2.43.0


From 942af3538f43f43680606aebf2a8174263244062 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:07 +0000
Subject: [PATCH 13/73] fix: x86 logical and of masks does not read an
 indeterminate mask

---
 dpm/detail/x86/type.hpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/dpm/detail/x86/type.hpp b/dpm/detail/x86/type.hpp
index a4def51..2bdf0dd 100644
--- a/dpm/detail/x86/type.hpp
+++ b/dpm/detail/x86/type.hpp
@@ -344,8 +344,7 @@ namespace dpm
 			const auto zero = detail::setzero<ext::native_data_type_t<detail::x86_mask<T, N, A>>>();
 			detail::vectorize([z = zero](auto &res, auto a, auto b)
 			{
-				res = detail::bit_andnot(detail::cmp_eq<T>(a, z), res);
-				res = detail::bit_andnot(detail::cmp_eq<T>(b, z), res);
+				res = detail::bit_not(detail::bit_or(detail::cmp_eq<T>(a, z), detail::cmp_eq<T>(b, z)));
 			}, result, a, b);
 			return result;
 		}
-- 
2.43.0


From 4c3d6f138e298abf8d86b157a825719a3cba48c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:07 +0000
Subject: [PATCH 14/73] fix: generic minmax does not bind references to
 temporary elements

---
 dpm/detail/generic/type.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dpm/detail/generic/type.hpp b/dpm/detail/generic/type.hpp
index 1425a38..4eee6f2 100644
--- a/dpm/detail/generic/type.hpp
+++ b/dpm/detail/generic/type.hpp
@@ -1200,7 +1200,7 @@ namespace dpm
 		alignas(simd<T, Abi>) std::array<T, simd_size_v<T, Abi>> result[2] = {};
 		for (std::size_t i = 0; i < simd<T, Abi>::size(); ++i)
 		{
-			const auto [min, max] = std::minmax(a[i], b[i]);
+			const auto [min, max] = std::minmax<T>({a[i], b[i]});
 			result[0][i] = min;
 			result[1][i] = max;
 		}
@@ -1213,7 +1213,7 @@ namespace dpm
 		alignas(simd<T, Abi>) std::array<T, simd_size_v<T, Abi>> result[2] = {};
 		for (std::size_t i = 0; i < simd<T, Abi>::size(); ++i)
 		{
-			const auto [min, max] = std::minmax(a[i], b);
+			const auto [min, max] = std::minmax<T>({a[i], b});
 			result[0][i] = min;
 			result[1][i] = max;
 		}
-- 
2.43.0


From 06b633cb442b2c89773d01f03c2fe7e1e4154547 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:59 +0000
Subject: [PATCH 15/73] fix: generic reduction folds every element of the lower
 half

---
 dpm/detail/generic/type.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dpm/detail/generic/type.hpp b/dpm/detail/generic/type.hpp
index 4eee6f2..2c93797 100644
--- a/dpm/detail/generic/type.hpp
+++ b/dpm/detail/generic/type.hpp
@@ -604,7 +604,7 @@ namespace dpm
 
 				/* Separate `value` into halves and reduce them separately. */
 				for (std::size_t i = 0; i < a.size(); ++i)
-					a[i] = data[0];
+					a[i] = data[i];
 				for (std::size_t i = 0, j = a.size(); i < b.size(); ++i, ++j)
 					b[i] = data[j];
 
-- 
2.43.0


From e465d396c0f01e5bf3ee6f45c65170a4aa8350a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:59 +0000
Subject: [PATCH 16/73] fix: x86 reductions with any other operation return the
 generic reduction

---
 dpm/detail/x86/type.hpp | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/dpm/detail/x86/type.hpp b/dpm/detail/x86/type.hpp
index 2bdf0dd..01eb43d 100644
--- a/dpm/detail/x86/type.hpp
+++ b/dpm/detail/x86/type.hpp
@@ -1419,11 +1419,11 @@ namespace dpm
 			if constexpr (std::floating_point<T>)
 				return detail::reduce_mul<T, size>(x_data);
 #ifdef DPM_HAS_SSE4_1
-			if (detail::integral_of_size<T, 4>)
+			if constexpr (detail::integral_of_size<T, 4>)
 				return detail::reduce_mul<T, size>(x_data);
 #endif
 #if defined(DPM_HAS_AVX512DQ) && defined(DPM_HAS_AVX512LV)
-			if (detail::integral_of_size<T, 8>)
+			if constexpr (detail::integral_of_size<T, 8>)
 				return detail::reduce_mul<T, size>(x_data);
 #endif
 		}
@@ -1436,8 +1436,7 @@ namespace dpm
 			if constexpr (detail::template_instance<Op, std::bit_or>)
 				return detail::reduce_or<T, size>(x_data);
 		}
-		else
-			return detail::reduce_impl<size>(x, op);
+		return detail::reduce_impl<size>(x, op);
 	}
 #ifdef DPM_HAS_SSSE3
 	/** @copydoc reduce */
-- 
2.43.0


From ae1a03c1f50b29ff32aae6093f67a6a7878fd1ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:59 +0000
Subject: [PATCH 17/73] fix: 256-bit element masks are zero-extended

---
 dpm/detail/x86/utility.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dpm/detail/x86/utility.hpp b/dpm/detail/x86/utility.hpp
index c0abdcc..e03aabf 100644
--- a/dpm/detail/x86/utility.hpp
+++ b/dpm/detail/x86/utility.hpp
@@ -250,7 +250,7 @@ namespace dpm::detail
 	[[nodiscard]] DPM_FORCEINLINE std::size_t movemask(V x) noexcept
 	{
 #ifdef DPM_HAS_AVX2
-		return static_cast<std::size_t>(_mm256_movemask_epi8(std::bit_cast<__m256i>(x)));
+		return static_cast<std::uint32_t>(_mm256_movemask_epi8(std::bit_cast<__m256i>(x)));
 #else
 		const auto ml = movemask<T>(_mm256_extractf128_si256(std::bit_cast<__m256i>(x), 0));
 		const auto mh = movemask<T>(_mm256_extractf128_si256(std::bit_cast<__m256i>(x), 1));
-- 
2.43.0


From 64b2464cac714628ece622daf3e729d6cc5601bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:59 +0000
Subject: [PATCH 18/73] fix: AVX maskblend replaces the whole upper half when
 no element of it is kept

---
 dpm/detail/x86/transform.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dpm/detail/x86/transform.hpp b/dpm/detail/x86/transform.hpp
index 4dff8f4..2972f85 100644
--- a/dpm/detail/x86/transform.hpp
+++ b/dpm/detail/x86/transform.hpp
@@ -593,14 +593,14 @@ namespace dpm::detail
 	template<integral_of_size<1> T>
 	[[nodiscard]] DPM_FORCEINLINE __m256i maskblend(__m256i a, __m256i b, std::size_t n) noexcept
 	{
-		const auto h = maskblend<T>(_mm256_extractf128_si256(a, 1), _mm256_extractf128_si256(b, 1), n - 16);
+		const auto h = n > 16 ? maskblend<T>(_mm256_extractf128_si256(a, 1), _mm256_extractf128_si256(b, 1), n - 16) : _mm256_extractf128_si256(b, 1);
 		const auto l = maskblend<T>(_mm256_extractf128_si256(a, 0), _mm256_extractf128_si256(b, 0), n);
 		return _mm256_set_m128i(h, l);
 	}
 	template<integral_of_size<2> T>
 	[[nodiscard]] DPM_FORCEINLINE __m256i maskblend(__m256i a, __m256i b, std::size_t n) noexcept
 	{
-		const auto h = maskblend<T>(_mm256_extractf128_si256(a, 1), _mm256_extractf128_si256(b, 1), n - 8);
+		const auto h = n > 8 ? maskblend<T>(_mm256_extractf128_si256(a, 1), _mm256_extractf128_si256(b, 1), n - 8) : _mm256_extractf128_si256(b, 1);
 		const auto l = maskblend<T>(_mm256_extractf128_si256(a, 0), _mm256_extractf128_si256(b, 0), n);
 		return _mm256_set_m128i(h, l);
 	}
-- 
2.43.0


From 7cebb1e27c18fccfd92b74a72431835bcad4b51d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:59 +0000
Subject: [PATCH 19/73] fix: x86 reduce_max_index indexes the vector it
 inspects

---
 dpm/detail/x86/type.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/dpm/detail/x86/type.hpp b/dpm/detail/x86/type.hpp
index 01eb43d..6a345f1 100644
--- a/dpm/detail/x86/type.hpp
+++ b/dpm/detail/x86/type.hpp
@@ -535,7 +535,7 @@ namespace dpm
 	{
 		if (std::is_constant_evaluated())
 		{
-			for (std::size_t i = N; --i != 0;)
+			for (std::size_t i = N; i-- != 0;)
 				if (mask[i]) return i;
 			return N;
 		}
@@ -544,11 +544,11 @@ namespace dpm
 			using mask_t = detail::x86_mask<T, N, A>;
 			const auto mask_data = ext::to_native_data(mask);
 			const auto zero = detail::setzero<ext::native_data_type_t<mask_t>>();
-			for (std::size_t i = ext::native_data_size_v<mask_t>, j; (j = i--) != 0;)
+			for (std::size_t i = ext::native_data_size_v<mask_t>; i-- != 0;)
 			{
 				constexpr auto native_extent = sizeof(mask_data[i]) / sizeof(T);
 				const auto bits = detail::movemask_l<T>(detail::cmp_ne<T>(mask_data[i], zero), mask_t::size() - i * native_extent);
-				if (bits) return (j * native_extent - 1) - std::countl_zero(bits) / detail::movemask_bits_v<T>;
+				if (bits) return std::min((i + 1) * native_extent, mask_t::size()) - 1 - std::countl_zero(bits) / detail::movemask_bits_v<T>;
 			}
 			DPM_UNREACHABLE();
 		}
-- 
2.43.0


From 335d3fdc5317788b72287f7eb2e0a4b05cd0c91b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:00 +0000
Subject: [PATCH 20/73] fix: SSE2 round and the integer rounds take halfway
 cases away from zero

---
 dpm/detail/x86/round.hpp | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/dpm/detail/x86/round.hpp b/dpm/detail/x86/round.hpp
index 445c84a..5cfadf6 100644
--- a/dpm/detail/x86/round.hpp
+++ b/dpm/detail/x86/round.hpp
@@ -115,7 +115,7 @@ namespace dpm
 		{
 			const auto ix = _mm_cvttps_epi32(x);
 			const auto tx = _mm_cvtepi32_ps(ix);
-			const auto near2 = _mm_set1_ps(std::bit_cast<float>(0x3fffffff));
+			const auto near2 = _mm_set1_ps(2.0f);
 			const auto rem = _mm_mul_ps(_mm_sub_ps(x, tx), near2);
 			*dst = _mm_add_epi32(ix, _mm_cvttps_epi32(rem));
 		}
@@ -129,7 +129,7 @@ namespace dpm
 			const auto tl = _mm_cvtepi64_ps(il);
 			const auto tx = _mm_movelh_ps(tl, th);
 
-			const auto near2 = _mm_set1_ps(std::bit_cast<float>(0x3fffffff));
+			const auto near2 = _mm_set1_ps(2.0f);
 			const auto rem = _mm_mul_ps(_mm_sub_ps(x, tx), near2);
 			dst[1] = _mm_add_epi64(th, _mm_cvttps_epi64(_mm_movehl_ps(rem, rem)));
 			dst[0] = _mm_add_epi64(tl, _mm_cvttps_epi64(rem));
@@ -152,7 +152,7 @@ namespace dpm
 			*dst = _mm_svml_round_ps(x);
 #else
 			const auto tx = _mm_cvtepi32_ps(_mm_cvttps_epi32(x));
-			const auto near2 = _mm_set1_ps(std::bit_cast<float>(0x3fffffff));
+			const auto near2 = _mm_set1_ps(2.0f);
 			const auto rem = _mm_mul_ps(_mm_sub_ps(x, tx), near2);
 			*dst = mask_domain(x, _mm_add_ps(tx, _mm_cvtepi32_ps(_mm_cvttps_epi32(rem))));
 #endif
@@ -211,7 +211,7 @@ namespace dpm
 		{
 			const auto ix = _mm_cvttpd_epi32(x);
 			const auto tx = _mm_cvtepi32_pd(ix);
-			const auto near2 = _mm_set1_pd(std::bit_cast<double>(0x3fffffff'ffffffff));
+			const auto near2 = _mm_set1_pd(2.0);
 			const auto rem = _mm_mul_pd(_mm_sub_pd(x, tx), near2);
 			*dst = _mm_add_epi32(ix, _mm_cvttpd_epi32(rem));
 		}
@@ -221,7 +221,7 @@ namespace dpm
 #if defined(DPM_HAS_AVX512DQ) && defined(DPM_HAS_AVX512VL)
 			const auto ix = _mm_cvttpd_epi64(x);
 			const auto tx = _mm_cvtepi64_pd(ix);
-			const auto near2 = _mm_set1_pd(std::bit_cast<double>(0x3fffffff'ffffffff));
+			const auto near2 = _mm_set1_pd(2.0);
 			const auto rem = _mm_mul_pd(_mm_sub_pd(x, tx), near2);
 			*dst = _mm_add_epi64(ix, _mm_cvttpd_epi64(rem));
 #else
@@ -243,7 +243,7 @@ namespace dpm
 			*dst = _mm_svml_round_pd(x);
 #else
 			const auto tx = _mm_cvtepi32_pd(_mm_cvttpd_epi32(x));
-			const auto near2 = _mm_set1_pd(std::bit_cast<double>(0x3fffffff'ffffffff));
+			const auto near2 = _mm_set1_pd(2.0);
 			const auto rem = _mm_mul_pd(_mm_sub_pd(x, tx), near2);
 			*dst = mask_domain(x, _mm_add_pd(tx, _mm_cvtepi32_pd(_mm_cvttpd_epi32(rem))));
 #endif
@@ -310,7 +310,7 @@ namespace dpm
 		{
 			const auto ix = _mm256_cvttps_epi32(x);
 			const auto tx = _mm256_cvtepi32_ps(ix);
-			const auto near2 = _mm256_set1_ps(std::bit_cast<float>(0x3fffffff));
+			const auto near2 = _mm256_set1_ps(2.0f);
 			const auto rem = _mm256_mul_ps(_mm256_sub_ps(x, tx), near2);
 #ifdef DPM_HAS_AVX2
 			*dst = _mm256_add_epi32(ix, _mm256_cvttps_epi32(rem));
@@ -328,7 +328,7 @@ namespace dpm
 			const auto tl = _mm256_cvtepi64_ps(il);
 			const auto tx = _mm256_permute2f128_ps(tl, th, 0x20);
 
-			const auto near2 = _mm256_set1_ps(std::bit_cast<float>(0x3fffffff));
+			const auto near2 = _mm256_set1_ps(2.0f);
 			const auto rem = _mm256_mul_ps(_mm256_sub_ps(x, tx), near2);
 			dst[1] = _mm256_add_epi64(th, _mm256_cvttps_epi64(_mm256_permute2f128_ps(rem, rem, 0x11)));
 			dst[0] = _mm256_add_epi64(tl, _mm256_cvttps_epi64(rem));
@@ -382,7 +382,7 @@ namespace dpm
 		{
 			const auto ix = _mm256_cvttpd_epi32(x);
 			const auto tx = _mm256_cvtepi32_pd(ix);
-			const auto near2 = _mm256_set1_pd(std::bit_cast<double>(0x3fffffff'ffffffff));
+			const auto near2 = _mm256_set1_pd(2.0);
 			const auto rem = _mm256_mul_pd(_mm256_sub_pd(x, tx), near2);
 			*dst = _mm_add_epi32(ix, _mm256_cvttpd_epi32(rem));
 		}
@@ -394,7 +394,7 @@ namespace dpm
 #if defined(DPM_HAS_AVX512DQ) && defined(DPM_HAS_AVX512VL)
 			const auto ix = _mm256_cvttpd_epi64(x);
 			const auto tx = _mm256_cvtepi64_pd(ix);
-			const auto near2 = _mm256_set1_pd(std::bit_cast<double>(0x3fffffff'ffffffff));
+			const auto near2 = _mm256_set1_pd(2.0);
 			const auto rem = _mm256_mul_pd(_mm256_sub_pd(x, tx), near2);
 			*dst = _mm256_add_epi64(ix, _mm256_cvttpd_epi64(rem));
 #else
-- 
2.43.0


From 055eb577dc0d032cb6cf49b77f50cf1e15abe88d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:00 +0000
Subject: [PATCH 21/73] fix: SSE2 double rint returns large operands unchanged

---
 dpm/detail/x86/round.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dpm/detail/x86/round.hpp b/dpm/detail/x86/round.hpp
index 5cfadf6..83bd09d 100644
--- a/dpm/detail/x86/round.hpp
+++ b/dpm/detail/x86/round.hpp
@@ -265,7 +265,7 @@ namespace dpm
 
 			const auto tmp_mask = _mm_cmpge_pd(abs_x, x_offset);
 			const auto tmp = _mm_or_pd(_mm_sub_pd(_mm_add_pd(abs_x, x_offset), x_offset), sign_x);
-			*dst = _mm_or_pd(_mm_andnot_pd(tmp_mask, tmp), _mm_and_pd(tmp_mask, tmp));
+			*dst = _mm_or_pd(_mm_andnot_pd(tmp_mask, tmp), _mm_and_pd(tmp_mask, x));
 #endif
 		}
 
-- 
2.43.0


From c75d2c7b6151d7d6e1d00e6ea4c8cc17d5e2b9bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:00 +0000
Subject: [PATCH 22/73] fix: AVX float round adds the rounding offset

---
 dpm/detail/x86/round.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dpm/detail/x86/round.hpp b/dpm/detail/x86/round.hpp
index 83bd09d..7f8f2c5 100644
--- a/dpm/detail/x86/round.hpp
+++ b/dpm/detail/x86/round.hpp
@@ -347,7 +347,7 @@ namespace dpm
 		{
 			const auto sign = bit_and(x, _mm256_set1_ps(-0.0f));
 			const auto off = bit_or(sign, std::bit_cast<__m256>(_mm256_set1_epi32(0x3effffff)));
-			*dst = _mm256_round_ps(bit_and(x, off), _MM_FROUND_TO_ZERO | _MM_FROUND_NO_EXC);
+			*dst = _mm256_round_ps(_mm256_add_ps(x, off), _MM_FROUND_TO_ZERO | _MM_FROUND_NO_EXC);
 		}
 
 		template<integral_of_size<4> T>
-- 
2.43.0


From bff2b223995f12cd9fd4df2f810192637deede13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:00 +0000
Subject: [PATCH 23/73] fix: lround and llround round halfway cases away from
 zero

---
 dpm/detail/x86/round.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dpm/detail/x86/round.hpp b/dpm/detail/x86/round.hpp
index 7f8f2c5..9c415d9 100644
--- a/dpm/detail/x86/round.hpp
+++ b/dpm/detail/x86/round.hpp
@@ -430,8 +430,8 @@ namespace dpm
 		template<typename T, typename V>
 		DPM_FORCEINLINE void round(V x, __m256i *dst) noexcept requires(sizeof(V) == 16) { round<T>(x, reinterpret_cast<__m128 *>(dst)); }
 
-		DPM_FORCEINLINE void lround(auto x, auto *dst) noexcept { rint<long>(x, dst); }
-		DPM_FORCEINLINE void llround(auto x, auto *dst) noexcept { rint<long long>(x, dst); }
+		DPM_FORCEINLINE void lround(auto x, auto *dst) noexcept { round<long>(x, dst); }
+		DPM_FORCEINLINE void llround(auto x, auto *dst) noexcept { round<long long>(x, dst); }
 
 		template<typename T, typename V>
 		DPM_FORCEINLINE void rint(V x, __m256 *dst) noexcept requires(sizeof(V) == 16) { rint<T>(x, reinterpret_cast<__m128 *>(dst)); }
-- 
2.43.0


From d87ddc7980ac4f48abd151a555d7236e420d0118 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:06 +0000
Subject: [PATCH 24/73] fix: islessgreater is false for equal elements

---
 dpm/detail/x86/class.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dpm/detail/x86/class.hpp b/dpm/detail/x86/class.hpp
index d68d270..528780a 100644
--- a/dpm/detail/x86/class.hpp
+++ b/dpm/detail/x86/class.hpp
@@ -263,7 +263,7 @@ namespace dpm
 		else
 		{
 			detail::x86_mask <T, N, A> result = {};
-			detail::vectorize([](auto &res, auto a, auto b) { res = detail::bit_or(detail::cmp_le<T>(b, a), detail::cmp_ge<T>(b, a)); }, result, a, b);
+			detail::vectorize([](auto &res, auto a, auto b) { res = detail::bit_or(detail::cmp_lt<T>(b, a), detail::cmp_gt<T>(b, a)); }, result, a, b);
 			return result;
 		}
 	}
-- 
2.43.0


From 36b6f7b309db5d0f4990b256c582a5336d24b57f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:06 +0000
Subject: [PATCH 25/73] fix: NaN is not classified as normal

---
 dpm/detail/x86/class.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/dpm/detail/x86/class.hpp b/dpm/detail/x86/class.hpp
index 528780a..0bbb7b2 100644
--- a/dpm/detail/x86/class.hpp
+++ b/dpm/detail/x86/class.hpp
@@ -27,7 +27,7 @@ namespace dpm
 		{
 			const auto norm_min = _mm_set1_ps(std::bit_cast<float>(0x00800000));
 			const auto inf = _mm_set1_ps(std::numeric_limits<float>::infinity());
-			return bit_and(_mm_cmpnle_ps(inf, x), _mm_cmpnlt_ps(x, norm_min));
+			return bit_and(_mm_cmplt_ps(x, inf), _mm_cmpnlt_ps(x, norm_min));
 		}
 
 		[[nodiscard]] DPM_FORCEINLINE __m128 isinf(__m128 x) noexcept { return isinf_abs(abs<float>(x)); }
@@ -52,7 +52,7 @@ namespace dpm
 		{
 			const auto norm_min = _mm_set1_pd(std::bit_cast<double>(0x10'0000'0000'0000));
 			const auto inf = _mm_set1_pd(std::numeric_limits<double>::infinity());
-			return bit_and(_mm_cmpnle_pd(inf, x), _mm_cmpnlt_pd(x, norm_min));
+			return bit_and(_mm_cmplt_pd(x, inf), _mm_cmpnlt_pd(x, norm_min));
 		}
 
 		[[nodiscard]] DPM_FORCEINLINE __m128d isinf(__m128d x) noexcept { return isinf_abs(abs<double>(x)); }
@@ -73,7 +73,7 @@ namespace dpm
 		{
 			const auto norm_min = _mm256_set1_ps(std::bit_cast<float>(0x00800000));
 			const auto inf = _mm256_set1_ps(std::numeric_limits<float>::infinity());
-			return bit_and(_mm256_cmp_ps(inf, x, _CMP_NLE_UQ), _mm256_cmp_ps(x, norm_min, _CMP_NLT_UQ));
+			return bit_and(_mm256_cmp_ps(x, inf, _CMP_LT_OQ), _mm256_cmp_ps(x, norm_min, _CMP_NLT_UQ));
 		}
 
 		[[nodiscard]] DPM_FORCEINLINE __m256 isinf(__m256 x) noexcept { return isinf_abs(abs<float>(x)); }
@@ -92,7 +92,7 @@ namespace dpm
 		{
 			const auto norm_min = _mm256_set1_pd(std::bit_cast<double>(0x10'0000'0000'0000));
 			const auto inf = _mm256_set1_pd(std::numeric_limits<double>::infinity());
-			return bit_and(_mm256_cmp_pd(inf, x, _CMP_NLE_UQ), _mm256_cmp_pd(x, norm_min, _CMP_NLT_UQ));
+			return bit_and(_mm256_cmp_pd(x, inf, _CMP_LT_OQ), _mm256_cmp_pd(x, norm_min, _CMP_NLT_UQ));
 		}
 
 		[[nodiscard]] DPM_FORCEINLINE __m256d isinf(__m256d x) noexcept { return isinf_abs(abs<double>(x)); }
-- 
2.43.0


From eb932b80de634adc7ced453248f29a5ccb558e1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:13 +0000
Subject: [PATCH 26/73] fix: 256-bit vectors of 64-bit integers keep the upper
 halves of their initializers

---
 dpm/detail/x86/utility.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/dpm/detail/x86/utility.hpp b/dpm/detail/x86/utility.hpp
index e03aabf..723e45d 100644
--- a/dpm/detail/x86/utility.hpp
+++ b/dpm/detail/x86/utility.hpp
@@ -219,10 +219,10 @@ namespace dpm::detail
 	[[nodiscard]] DPM_FORCEINLINE V set(const T (&vals)[4]) noexcept
 	{
 		return _mm256_set_epi64x(
-				static_cast<std::int32_t>(vals[3]),
-				static_cast<std::int32_t>(vals[2]),
-				static_cast<std::int32_t>(vals[1]),
-				static_cast<std::int32_t>(vals[0])
+				static_cast<std::int64_t>(vals[3]),
+				static_cast<std::int64_t>(vals[2]),
+				static_cast<std::int64_t>(vals[1]),
+				static_cast<std::int64_t>(vals[0])
 		);
 	}
 
-- 
2.43.0


From 61595d6696270267c376fe84c0bd657042693e0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:13 +0000
Subject: [PATCH 27/73] fix: SSE4.1 conversion of 64-bit integers to double
 selects the upper half of each element

---
 dpm/detail/x86/cvt.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dpm/detail/x86/cvt.hpp b/dpm/detail/x86/cvt.hpp
index 3497659..839f0bf 100644
--- a/dpm/detail/x86/cvt.hpp
+++ b/dpm/detail/x86/cvt.hpp
@@ -87,7 +87,7 @@ namespace dpm::detail
 #else
 		const auto tmp = _mm_undefined_si128();
 		const auto zero = _mm_xor_si128(tmp, tmp);
-		const auto a = _mm_blend_epi16(zero, _mm_srai_epi32(x, 16), 0x33);
+		const auto a = _mm_blend_epi16(zero, _mm_srai_epi32(x, 16), 0xcc);
 		const auto b = _mm_blend_epi16(x, exp52, 0x88);
 #endif
 		return _mm_add_pd(_mm_sub_pd(std::bit_cast<__m128d>(_mm_add_epi64(a, exp67m3)), adjust), std::bit_cast<__m128d>(b));
-- 
2.43.0


From 6aed68bed6f30d2c9ced5cff5ce58d29e0e924ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:13 +0000
Subject: [PATCH 28/73] fix: modf of a fraction has a zero integral part

---
 dpm/detail/x86/modf.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/dpm/detail/x86/modf.cpp b/dpm/detail/x86/modf.cpp
index 383d15b..69c09a6 100644
--- a/dpm/detail/x86/modf.cpp
+++ b/dpm/detail/x86/modf.cpp
@@ -39,10 +39,10 @@ namespace dpm::detail
 		const auto x1 = bit_and(x, fill<V>(sign_bit<T>));   /* x1 = x & -0.0 */
 		const auto x2 = bit_andnot(mask, x);                /* x2 = x & ~mask */
 
-		/* i = e < 0 ? x : x & -0.0 */
-		auto i = blendv<T>(x, fract_ip, fract_mask);
-		/* i = ix & mask ? x2 : i */
-		i = blendv<T>(x2, i, mask_zero);
+		/* i = ix & mask ? x2 : x */
+		auto i = blendv<T>(x2, x, mask_zero);
+		/* i = e < 0 ? x & -0.0 : i */
+		i = blendv<T>(i, fract_ip, fract_mask);
 
 		/* x = mask_zero ? x1 : (x - x2) */
 		auto y = blendv<T>(sub<T>(x, x2), x1, mask_zero);
-- 
2.43.0


From 4e7fc6e63fd1101591c861c2b043d805fdfa4edc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:13 +0000
Subject: [PATCH 29/73] fix: 256-bit ldexp and scalbn widen exponents in
 element order

---
 dpm/detail/x86/fmanip.hpp | 15 +++++----------
 1 file changed, 5 insertions(+), 10 deletions(-)

diff --git a/dpm/detail/x86/fmanip.hpp b/dpm/detail/x86/fmanip.hpp
index 072768d..62fa15b 100644
--- a/dpm/detail/x86/fmanip.hpp
+++ b/dpm/detail/x86/fmanip.hpp
@@ -128,23 +128,18 @@ namespace dpm
 		[[nodiscard]] DPM_FORCEINLINE __m256 scalbn32(__m256 x, const __m256i *exp, std::size_t i) noexcept { return scalbn(x, exp[i]); }
 		[[nodiscard]] DPM_FORCEINLINE __m256d scalbn32(__m256d x, const __m128i *exp, std::size_t i) noexcept
 		{
-			const auto exph = exp[i + 1];
-			const auto expl = exp[i];
+			const auto exp32 = exp[i];
+			const auto sign = _mm_srai_epi32(exp32, 31);
 			const auto xh = _mm256_castpd256_pd128(_mm256_permute2f128_pd(x, x, 1));
 			const auto xl = _mm256_castpd256_pd128(x);
-			const auto h = scalbn(xh, _mm_unpackhi_epi32(exph, _mm_srai_epi32(exph, 31)));
-			const auto l = scalbn(xl, _mm_unpackhi_epi32(expl, _mm_srai_epi32(expl, 31)));
+			const auto h = scalbn(xh, _mm_unpackhi_epi32(exp32, sign));
+			const auto l = scalbn(xl, _mm_unpacklo_epi32(exp32, sign));
 			return _mm256_set_m128d(h, l);
 		}
 		[[nodiscard]] DPM_FORCEINLINE __m256d scalbn32(__m256d x, const __m256i *exp, std::size_t i) noexcept
 		{
 #ifdef DPM_HAS_AVX2
-			auto exp64 = exp[i / 2];
-			if (const auto sign = _mm256_srai_epi32(exp64, 31); i % 2)
-				exp64 = _mm256_unpackhi_epi32(exp64, sign);
-			else
-				exp64 = _mm256_unpacklo_epi32(exp64, sign);
-			return scalbn(x, exp64);
+			return scalbn(x, _mm256_cvtepi32_epi64(reinterpret_cast<const __m128i *>(exp)[i]));
 #else
 			return scalbn32(x, reinterpret_cast<const __m128i *>(exp), i);
 #endif
-- 
2.43.0


From c1685f95407d50f09a5beb5babfdc8a734c808b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:13 +0000
Subject: [PATCH 30/73] fix: 256-bit scalbln takes consecutive exponent vectors

---
 dpm/detail/x86/fmanip.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dpm/detail/x86/fmanip.hpp b/dpm/detail/x86/fmanip.hpp
index 62fa15b..fec3dc6 100644
--- a/dpm/detail/x86/fmanip.hpp
+++ b/dpm/detail/x86/fmanip.hpp
@@ -148,8 +148,8 @@ namespace dpm
 		[[nodiscard]] DPM_FORCEINLINE __m128 scalbn64(__m128 x, const __m256i *exp, std::size_t i) noexcept{return scalbn(x, cvt_i64_i32(exp[i]));}
 		[[nodiscard]] DPM_FORCEINLINE __m256 scalbn64(__m256 x, const __m256i *exp, std::size_t i) noexcept
 		{
-			const auto exph = cvt_i64_i32(exp[i]);
-			const auto expl = cvt_i64_i32(exp[i]);
+			const auto exph = cvt_i64_i32(exp[i * 2 + 1]);
+			const auto expl = cvt_i64_i32(exp[i * 2]);
 			return scalbn(x, _mm256_set_m128i(exph, expl));
 		}
 		[[nodiscard]] DPM_FORCEINLINE __m256d scalbn64(__m256d x, const __m256i *exp, std::size_t i) noexcept { return scalbn(x, exp[i]); }
-- 
2.43.0


From 381453190c5a27a7762e33f440849c273f6b27aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:46 +0000
Subject: [PATCH 31/73] fix: conversions of vectors to integers of another size
 stay inside the result and keep every element

---
 dpm/detail/x86/round.hpp | 107 ++++++++++++++++++---------------------
 1 file changed, 49 insertions(+), 58 deletions(-)

diff --git a/dpm/detail/x86/round.hpp b/dpm/detail/x86/round.hpp
index 9c415d9..c688116 100644
--- a/dpm/detail/x86/round.hpp
+++ b/dpm/detail/x86/round.hpp
@@ -12,6 +12,10 @@
 #include "class.hpp"
 #include "cvt.hpp"
 
+#include <algorithm>
+#include <cstddef>
+#include <cstring>
+
 namespace dpm
 {
 	namespace detail
@@ -227,9 +231,7 @@ namespace dpm
 #else
 			__m128i tmp;
 			round<std::int32_t>(x, &tmp);
-			const auto zero = bit_xor(tmp, tmp);
-			dst[0] = _mm_unpacklo_epi32(tmp, zero);
-			dst[1] = _mm_unpackhi_epi32(tmp, zero);
+			*dst = _mm_unpacklo_epi32(tmp, _mm_srai_epi32(tmp, 31));
 #endif
 		}
 		template<std::same_as<double> T>
@@ -287,6 +289,16 @@ namespace dpm
 		[[nodiscard]] DPM_FORCEINLINE __m256 trunc(__m256 x) noexcept { return _mm256_round_ps(x, _MM_FROUND_TO_ZERO | _MM_FROUND_NO_EXC); }
 		[[nodiscard]] DPM_FORCEINLINE __m256 nearbyint(__m256 x) noexcept { return _mm256_round_ps(x, _MM_FROUND_NO_EXC | _MM_FROUND_CUR_DIRECTION); }
 
+		DPM_FORCEINLINE void widen_i32x8(__m256i x, __m256i *dst) noexcept
+		{
+			const auto l = _mm256_castsi256_si128(x);
+			const auto h = _mm256_extractf128_si256(x, 1);
+			const auto sl = _mm_srai_epi32(l, 31);
+			const auto sh = _mm_srai_epi32(h, 31);
+			dst[0] = _mm256_set_m128i(_mm_unpackhi_epi32(l, sl), _mm_unpacklo_epi32(l, sl));
+			dst[1] = _mm256_set_m128i(_mm_unpackhi_epi32(h, sh), _mm_unpacklo_epi32(h, sh));
+		}
+
 		template<integral_of_size<4> T>
 		DPM_FORCEINLINE void itrunc(__m256 x, __m256i *dst) noexcept { *dst = cvtt<T, float>(x); }
 		template<integral_of_size<8> T>
@@ -296,12 +308,7 @@ namespace dpm
 			dst[1] = _mm256_cvttps_epi64(_mm256_extractf128_ps(x, 1));
 			dst[0] = _mm256_cvttps_epi64(x);
 #else
-			const auto tmp = cvtt<std::int32_t, float>(x);
-			const auto sign = _mm256_srai_epi32(tmp, 31);
-			const auto ih = std::bit_cast<__m256>(_mm256_unpackhi_epi32(tmp, sign));
-			const auto il = std::bit_cast<__m256>(_mm256_unpacklo_epi32(tmp, sign));
-			dst[0] = std::bit_cast<__m256i>(_mm256_permute2f128_ps(il, ih, 0x20));
-			dst[1] = std::bit_cast<__m256i>(_mm256_permute2f128_ps(il, ih, 0x31));
+			widen_i32x8(cvtt<std::int32_t, float>(x), dst);
 #endif
 		}
 
@@ -315,7 +322,7 @@ namespace dpm
 #ifdef DPM_HAS_AVX2
 			*dst = _mm256_add_epi32(ix, _mm256_cvttps_epi32(rem));
 #else
-			*dst = mux_128x2<__m256i>([](auto i) { return _mm_add_epi32(i); }, _mm256_cvttps_epi32(rem));
+			*dst = mux_128x2<__m256i>([](auto a, auto b) { return _mm_add_epi32(a, b); }, ix, _mm256_cvttps_epi32(rem));
 #endif
 		}
 		template<integral_of_size<8> T>
@@ -335,11 +342,7 @@ namespace dpm
 #else
 			__m256i tmp;
 			round<std::int32_t>(x, &tmp);
-			const auto sign = std::bit_cast<__m256>(_mm256_srai_epi32(tmp, 31));
-			const auto ih = _mm256_unpackhi_ps(std::bit_cast<__m256>(tmp), sign);
-			const auto il = _mm256_unpacklo_ps(std::bit_cast<__m256>(tmp), sign);
-			dst[0] = std::bit_cast<__m256i>(_mm256_permute2f128_ps(il, ih, 0x20));
-			dst[1] = std::bit_cast<__m256i>(_mm256_permute2f128_ps(il, ih, 0x31));
+			widen_i32x8(tmp, dst);
 #endif
 		}
 		template<std::same_as<float> T>
@@ -355,12 +358,7 @@ namespace dpm
 		template<integral_of_size<8> T>
 		DPM_FORCEINLINE void rint(__m256 x, __m256i *dst) noexcept
 		{
-			const auto tmp = _mm256_cvtps_epi32(x);
-			const auto sign = std::bit_cast<__m256>(_mm256_srai_epi32(tmp, 31));
-			const auto ih = _mm256_unpackhi_ps(std::bit_cast<__m256>(tmp), sign);
-			const auto il = _mm256_unpacklo_ps(std::bit_cast<__m256>(tmp), sign);
-			dst[0] = std::bit_cast<__m256i>(_mm256_permute2f128_ps(il, ih, 0x20));
-			dst[1] = std::bit_cast<__m256i>(_mm256_permute2f128_ps(il, ih, 0x31));
+			widen_i32x8(_mm256_cvtps_epi32(x), dst);
 		}
 		template<std::same_as<float> T>
 		DPM_FORCEINLINE void rint(__m256 x, __m256 *dst) noexcept { *dst = _mm256_round_ps(x, _MM_FROUND_RAISE_EXC | _MM_FROUND_CUR_DIRECTION); }
@@ -428,7 +426,7 @@ namespace dpm
 		template<typename T, typename V>
 		DPM_FORCEINLINE void round(V x, __m256d *dst) noexcept requires(sizeof(V) == 16) { round<T>(x, reinterpret_cast<__m128d *>(dst)); }
 		template<typename T, typename V>
-		DPM_FORCEINLINE void round(V x, __m256i *dst) noexcept requires(sizeof(V) == 16) { round<T>(x, reinterpret_cast<__m128 *>(dst)); }
+		DPM_FORCEINLINE void round(V x, __m256i *dst) noexcept requires(sizeof(V) == 16) { round<T>(x, reinterpret_cast<__m128i *>(dst)); }
 
 		DPM_FORCEINLINE void lround(auto x, auto *dst) noexcept { round<long>(x, dst); }
 		DPM_FORCEINLINE void llround(auto x, auto *dst) noexcept { round<long long>(x, dst); }
@@ -438,10 +436,31 @@ namespace dpm
 		template<typename T, typename V>
 		DPM_FORCEINLINE void rint(V x, __m256d *dst) noexcept requires(sizeof(V) == 16) { rint<T>(x, reinterpret_cast<__m128d *>(dst)); }
 		template<typename T, typename V>
-		DPM_FORCEINLINE void rint(V x, __m256i *dst) noexcept requires(sizeof(V) == 16) { rint<T>(x, reinterpret_cast<__m128 *>(dst)); }
+		DPM_FORCEINLINE void rint(V x, __m256i *dst) noexcept requires(sizeof(V) == 16) { rint<T>(x, reinterpret_cast<__m128i *>(dst)); }
+
+		template<typename T, typename V>
+		DPM_FORCEINLINE void itrunc(V x, __m256i *dst) noexcept requires(sizeof(V) == 16) { itrunc<T>(x, reinterpret_cast<__m128i *>(dst)); }
 
 		DPM_FORCEINLINE void lrint(auto x, auto *dst) noexcept { rint<long>(x, dst); }
 		DPM_FORCEINLINE void llrint(auto x, auto *dst) noexcept { rint<long long>(x, dst); }
+
+		/* Converts elements of x using op, which stores to native vectors of integers that may hold a different number of elements. */
+		template<typename I, typename T, std::size_t N, std::size_t A>
+		DPM_FORCEINLINE void round_convert(x86_simd<I, N, A> &result, const x86_simd<T, N, A> &x, auto op) noexcept
+		{
+			using vector_type = ext::native_data_type_t<x86_simd<I, N, A>>;
+			constexpr auto extent = sizeof(ext::native_data_type_t<x86_simd<T, N, A>>) / sizeof(T);
+			constexpr auto to_size = ext::native_data_size_v<x86_simd<I, N, A>> * sizeof(vector_type);
+
+			auto *bytes = reinterpret_cast<std::byte *>(ext::to_native_data(result).data());
+			const auto x_data = ext::to_native_data(x);
+			for (std::size_t i = 0, pos = 0; i < x_data.size() && pos < to_size; ++i, pos += extent * sizeof(I))
+			{
+				vector_type buff[(extent * sizeof(I) + sizeof(vector_type) - 1) / sizeof(vector_type)];
+				op(x_data[i], buff);
+				std::memcpy(bytes + pos, buff, std::min(extent * sizeof(I), to_size - pos));
+			}
+		}
 	}
 
 	/** Rounds elements of vector \a x to nearest integer not less than the element's value. */
@@ -536,15 +555,8 @@ namespace dpm
 		}
 		else
 		{
-			constexpr auto to_extent = sizeof(ext::native_data_type_t<detail::x86_simd < long, N, A>>) / sizeof(long);
-			constexpr auto from_extent = sizeof(ext::native_data_type_t<detail::x86_simd < T, N, A>>) / sizeof(T);
-
 			detail::x86_simd<long, N, A> result = {};
-			auto result_data = ext::to_native_data(result);
-			const auto x_data = ext::to_native_data(x);
-
-			for (std::size_t i = 0, j = 0; i < detail::x86_simd<T, N, A>::size(); i += from_extent, j += to_extent)
-				detail::lround(x_data[i / from_extent], result_data.data() + i / to_extent);
+			detail::round_convert(result, x, [](auto x, auto *dst) { detail::lround(x, dst); });
 			return result;
 		}
 	}
@@ -559,15 +571,8 @@ namespace dpm
 		}
 		else
 		{
-			constexpr auto to_extent = sizeof(ext::native_data_type_t<detail::x86_simd < long long, N, A>>) / sizeof(long long);
-			constexpr auto from_extent = sizeof(ext::native_data_type_t<detail::x86_simd < T, N, A>>) / sizeof(T);
-
 			detail::x86_simd<long long, N, A> result = {};
-			auto result_data = ext::to_native_data(result);
-			const auto x_data = ext::to_native_data(x);
-
-			for (std::size_t i = 0, j = 0; i < detail::x86_simd<T, N, A>::size(); i += from_extent, j += to_extent)
-				detail::llround(x_data[i / from_extent], result_data.data() + i / to_extent);
+			detail::round_convert(result, x, [](auto x, auto *dst) { detail::llround(x, dst); });
 			return result;
 		}
 	}
@@ -599,15 +604,8 @@ namespace dpm
 		}
 		else
 		{
-			constexpr auto to_extent = sizeof(ext::native_data_type_t<detail::x86_simd < long, N, A>>) / sizeof(long);
-			constexpr auto from_extent = sizeof(ext::native_data_type_t<detail::x86_simd < T, N, A>>) / sizeof(T);
-
 			detail::x86_simd<long, N, A> result = {};
-			auto result_data = ext::to_native_data(result);
-			const auto x_data = ext::to_native_data(x);
-
-			for (std::size_t i = 0, j = 0; i < detail::x86_simd<T, N, A>::size(); i += from_extent, j += to_extent)
-				detail::lrint(x_data[i / from_extent], result_data.data() + i / to_extent);
+			detail::round_convert(result, x, [](auto x, auto *dst) { detail::lrint(x, dst); });
 			return result;
 		}
 	}
@@ -622,15 +620,8 @@ namespace dpm
 		}
 		else
 		{
-			constexpr auto to_extent = sizeof(ext::native_data_type_t<detail::x86_simd < long long, N, A>>) / sizeof(long long);
-			constexpr auto from_extent = sizeof(ext::native_data_type_t<detail::x86_simd < T, N, A>>) / sizeof(T);
-
 			detail::x86_simd<long long, N, A> result = {};
-			auto result_data = ext::to_native_data(result);
-			const auto x_data = ext::to_native_data(x);
-
-			for (std::size_t i = 0, j = 0; i < detail::x86_simd<T, N, A>::size(); i += from_extent, j += to_extent)
-				detail::llrint(x_data[i / from_extent], result_data.data() + i / to_extent);
+			detail::round_convert(result, x, [](auto x, auto *dst) { detail::llrint(x, dst); });
 			return result;
 		}
 	}
@@ -649,7 +640,7 @@ namespace dpm
 			else
 			{
 				detail::x86_simd <I, N, A> result = {};
-				detail::vectorize([](auto &res, auto x) { res = detail::itrunc<I>(x); }, result, x);
+				detail::round_convert(result, x, [](auto x, auto *dst) { detail::itrunc<I>(x, dst); });
 				return result;
 			}
 		}
@@ -665,7 +656,7 @@ namespace dpm
 			else
 			{
 				detail::x86_simd <I, N, A> result = {};
-				detail::vectorize([](auto &res, auto x) { detail::round<I>(x, &res); }, result, x);
+				detail::round_convert(result, x, [](auto x, auto *dst) { detail::round<I>(x, dst); });
 				return result;
 			}
 		}
@@ -681,7 +672,7 @@ namespace dpm
 			else
 			{
 				detail::x86_simd <I, N, A> result = {};
-				detail::vectorize([](auto &res, auto x) { detail::rint<I>(x, &res); }, result, x);
+				detail::round_convert(result, x, [](auto x, auto *dst) { detail::rint<I>(x, dst); });
 				return result;
 			}
 		}
-- 
2.43.0


From b4b9813715c1dc25b3d2fd6314cdba63bd86c6bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:23 +0000
Subject: [PATCH 32/73] fix: signbit yields whole element masks

---
 dpm/detail/x86/class.hpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/dpm/detail/x86/class.hpp b/dpm/detail/x86/class.hpp
index 0bbb7b2..f9669e3 100644
--- a/dpm/detail/x86/class.hpp
+++ b/dpm/detail/x86/class.hpp
@@ -177,7 +177,12 @@ namespace dpm
 		else
 		{
 			detail::x86_mask <T, N, A> result = {};
-			detail::vectorize([](auto &res, auto x) { res = detail::masksign<T>(x); }, result, x);
+			using I = int_of_size_t<sizeof(T)>;
+			detail::vectorize([]<typename V>(V &res, V x)
+			{
+				using Vi = detail::select_vector_t<I, sizeof(V)>;
+				res = std::bit_cast<V>(detail::cmp_gt<I>(detail::setzero<Vi>(), std::bit_cast<Vi>(x)));
+			}, result, x);
 			return result;
 		}
 	}
-- 
2.43.0


From a1a9e03e9c29e478c34a830775123225ce3ebdb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:23 +0000
Subject: [PATCH 33/73] fix: modf of an operand without fraction bits is the
 operand itself

---
 dpm/detail/x86/modf.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/dpm/detail/x86/modf.cpp b/dpm/detail/x86/modf.cpp
index 69c09a6..cdee0d3 100644
--- a/dpm/detail/x86/modf.cpp
+++ b/dpm/detail/x86/modf.cpp
@@ -43,6 +43,8 @@ namespace dpm::detail
 		auto i = blendv<T>(x2, x, mask_zero);
 		/* i = e < 0 ? x & -0.0 : i */
 		i = blendv<T>(i, fract_ip, fract_mask);
+		/* i = e >= mant_bits ? x : i */
+		i = blendv<T>(i, x, int_mask);
 
 		/* x = mask_zero ? x1 : (x - x2) */
 		auto y = blendv<T>(sub<T>(x, x2), x1, mask_zero);
-- 
2.43.0


From 8aced1d9e83e3e6c4d51ec535af1488c32cfedc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:54 +0000
Subject: [PATCH 34/73] fix: conversions of floating-point vectors to integers
 of the same size truncate

---
 dpm/detail/x86/utility.hpp | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/dpm/detail/x86/utility.hpp b/dpm/detail/x86/utility.hpp
index 723e45d..2917313 100644
--- a/dpm/detail/x86/utility.hpp
+++ b/dpm/detail/x86/utility.hpp
@@ -315,7 +315,22 @@ namespace dpm::detail
 	template<typename To, typename From, typename VTo, typename VFrom>
 	DPM_FORCEINLINE void native_vec_cast(VTo &dst, const VFrom &src) noexcept requires(std::same_as<To, From> || (std::integral<To> && std::integral<From> && sizeof(To) == sizeof(From))) { dst = src; }
 	template<typename To, typename From, typename VTo, typename VFrom>
-	DPM_FORCEINLINE void native_vec_cast(VTo &dst, const VFrom &src) noexcept requires(!std::same_as<To, From> && !(std::integral<To> && std::integral<From> && sizeof(To) == sizeof(From))) { dst = cvt<To, From>(src); }
+	DPM_FORCEINLINE void native_vec_cast(VTo &dst, const VFrom &src) noexcept requires(!std::same_as<To, From> && !(std::integral<To> && std::integral<From> && sizeof(To) == sizeof(From)))
+	{
+		if constexpr (std::floating_point<To> || std::floating_point<From> == std::floating_point<To>)
+			dst = cvt<To, From>(src);
+		else if constexpr (signed_integral_of_size<To, 4> && sizeof(From) == 4)
+			dst = cvtt<To, From>(src);
+		else
+		{
+			/* There is no truncating conversion instruction, convert every element. */
+			From from[sizeof(VFrom) / sizeof(From)];
+			To to[sizeof(VFrom) / sizeof(From)];
+			std::memcpy(from, &src, sizeof(from));
+			for (std::size_t i = 0; i < sizeof(VFrom) / sizeof(From); ++i) to[i] = static_cast<To>(from[i]);
+			std::memcpy(&dst, to, sizeof(to));
+		}
+	}
 	template<typename To, typename From, typename VFrom>
 	DPM_FORCEINLINE void native_vec_cast(To *dst, const VFrom &src) noexcept
 	{
-- 
2.43.0


From 3f95340060968a689e59bd9185ba8fd4fdcc893f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:35 +0000
Subject: [PATCH 35/73] fix: SSE2 truncation tests the low half of each
 exponent

---
 dpm/detail/x86/cvt.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dpm/detail/x86/cvt.hpp b/dpm/detail/x86/cvt.hpp
index 839f0bf..58f0985 100644
--- a/dpm/detail/x86/cvt.hpp
+++ b/dpm/detail/x86/cvt.hpp
@@ -147,7 +147,7 @@ namespace dpm::detail
 		auto small_e = _mm_cmpgt_epi32(_mm_set1_epi64x(12), e);
 #ifndef DPM_HAS_SSE3
 		const auto ie = std::bit_cast<__m128>(small_e);
-		small_e = std::bit_cast<__m128i>(_mm_shuffle_ps(ie, ie, _MM_SHUFFLE(3, 3, 1, 1)));
+		small_e = std::bit_cast<__m128i>(_mm_shuffle_ps(ie, ie, _MM_SHUFFLE(2, 2, 0, 0)));
 #else
 		small_e = std::bit_cast<__m128i>(_mm_moveldup_ps(std::bit_cast<__m128>(small_e)));
 #endif
-- 
2.43.0


From caf3bb7580378cc3a83054c6ed1b987736bd94a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:35 +0000
Subject: [PATCH 36/73] fix: SSE2 ceil, floor, trunc and round handle operands
 outside of the range of int

---
 dpm/detail/x86/cvt.hpp   | 11 ++++++++++
 dpm/detail/x86/round.hpp | 46 +++++++++++++++-------------------------
 2 files changed, 28 insertions(+), 29 deletions(-)

diff --git a/dpm/detail/x86/cvt.hpp b/dpm/detail/x86/cvt.hpp
index 58f0985..ee157c9 100644
--- a/dpm/detail/x86/cvt.hpp
+++ b/dpm/detail/x86/cvt.hpp
@@ -162,6 +162,17 @@ namespace dpm::detail
 		return std::bit_cast<__m128d>(_mm_andnot_si128(_mm_andnot_si128(zero, shift), ix));
 	}
 
+	[[nodiscard]] inline __m128 trunc_sse2(__m128 x) noexcept
+	{
+		const auto abs_x = _mm_and_si128(std::bit_cast<__m128i>(x), _mm_set1_epi32(0x7fff'ffff));
+		const auto sign_x = _mm_and_ps(x, _mm_set1_ps(-0.0f));
+
+		/* Operands without fraction bits, infinity and NaN are not converted. */
+		const auto int_mask = std::bit_cast<__m128>(_mm_cmpgt_epi32(abs_x, _mm_set1_epi32(0x4aff'ffff)));
+		const auto tx = _mm_cvtepi32_ps(_mm_cvttps_epi32(_mm_andnot_ps(int_mask, x)));
+		return _mm_or_ps(_mm_or_ps(_mm_andnot_ps(int_mask, tx), sign_x), _mm_and_ps(int_mask, x));
+	}
+
 	template<std::same_as<double> To, unsigned_integral_of_size<8> From>
 	[[nodiscard]] DPM_FORCEINLINE __m128d cvt(__m128i x) noexcept { return cvt_u64_f64(x); }
 	template<std::same_as<double> To, signed_integral_of_size<8> From>
diff --git a/dpm/detail/x86/round.hpp b/dpm/detail/x86/round.hpp
index c688116..445f5aa 100644
--- a/dpm/detail/x86/round.hpp
+++ b/dpm/detail/x86/round.hpp
@@ -20,18 +20,6 @@ namespace dpm
 {
 	namespace detail
 	{
-#ifndef DPM_HAS_SSE4_1
-		[[nodiscard]] DPM_FORCEINLINE auto mask_domain([[maybe_unused]] auto x, auto result) noexcept
-		{
-#ifdef DPMDPM_HANDLE_ERRORS
-			const auto fin_mask = isfinite(x);
-			return bit_or(bit_andnot(fin_mask, x), bit_and(fin_mask, result));
-#else
-			return result;
-#endif
-		}
-#endif
-
 		[[nodiscard]] DPM_FORCEINLINE __m128 ceil(__m128 x) noexcept
 		{
 #if defined(DPM_HAS_SSE4_1)
@@ -39,8 +27,8 @@ namespace dpm
 #elif defined(DPM_USE_SVML)
 			return _mm_svml_ceil_ps(x);
 #else
-			const auto tx = _mm_cvtepi32_ps(_mm_cvttps_epi32(x));
-			return mask_domain(x, _mm_add_ps(tx, bit_and(_mm_cmplt_ps(tx, x), _mm_set1_ps(1.0f))));
+			const auto tx = trunc_sse2(x);
+			return _mm_add_ps(tx, bit_and(_mm_cmplt_ps(tx, x), _mm_set1_ps(1.0f)));
 #endif
 		}
 		[[nodiscard]] DPM_FORCEINLINE __m128 floor(__m128 x) noexcept
@@ -50,8 +38,8 @@ namespace dpm
 #elif defined(DPM_USE_SVML)
 			return _mm_svml_floor_ps(x);
 #else
-			const auto tx = _mm_cvtepi32_ps(_mm_cvttps_epi32(x));
-			return mask_domain(x, _mm_sub_ps(tx, bit_and(_mm_cmpgt_ps(tx, x), _mm_set1_ps(1.0f))));
+			const auto tx = trunc_sse2(x);
+			return _mm_sub_ps(tx, bit_and(_mm_cmpgt_ps(tx, x), _mm_set1_ps(1.0f)));
 #endif
 		}
 		[[nodiscard]] DPM_FORCEINLINE __m128 trunc(__m128 x) noexcept
@@ -61,7 +49,7 @@ namespace dpm
 #elif defined(DPM_USE_SVML)
 			return _mm_trunc_ps(x);
 #else
-			return mask_domain(x, _mm_cvtepi32_ps(_mm_cvttps_epi32(x)));
+			return trunc_sse2(x);
 #endif
 		}
 
@@ -72,8 +60,8 @@ namespace dpm
 #elif defined(DPM_USE_SVML)
 			return _mm_svml_ceil_pd(x);
 #else
-			const auto tx = _mm_cvtepi32_pd(_mm_cvttpd_epi32(x));
-			return mask_domain(x, _mm_add_pd(tx, bit_and(_mm_cmplt_pd(tx, x), _mm_set1_pd(1.0f))));
+			const auto tx = trunc_sse2(x);
+			return _mm_add_pd(tx, bit_and(_mm_cmplt_pd(tx, x), _mm_set1_pd(1.0f)));
 #endif
 		}
 		[[nodiscard]] DPM_FORCEINLINE __m128d floor(__m128d x) noexcept
@@ -83,8 +71,8 @@ namespace dpm
 #elif defined(DPM_USE_SVML)
 			return _mm_svml_floor_pd(x);
 #else
-			const auto tx = _mm_cvtepi32_pd(_mm_cvttpd_epi32(x));
-			return mask_domain(x, _mm_sub_pd(tx, bit_and(_mm_cmpgt_pd(tx, x), _mm_set1_pd(1.0f))));
+			const auto tx = trunc_sse2(x);
+			return _mm_sub_pd(tx, bit_and(_mm_cmpgt_pd(tx, x), _mm_set1_pd(1.0f)));
 #endif
 		}
 		[[nodiscard]] DPM_FORCEINLINE __m128d trunc(__m128d x) noexcept
@@ -155,10 +143,10 @@ namespace dpm
 #elif defined(DPM_USE_SVML)
 			*dst = _mm_svml_round_ps(x);
 #else
-			const auto tx = _mm_cvtepi32_ps(_mm_cvttps_epi32(x));
-			const auto near2 = _mm_set1_ps(2.0f);
-			const auto rem = _mm_mul_ps(_mm_sub_ps(x, tx), near2);
-			*dst = mask_domain(x, _mm_add_ps(tx, _mm_cvtepi32_ps(_mm_cvttps_epi32(rem))));
+			const auto tx = trunc_sse2(x);
+			const auto fract_mask = _mm_cmpneq_ps(tx, x);
+			const auto rem = _mm_sub_ps(bit_and(x, fract_mask), bit_and(tx, fract_mask));
+			*dst = _mm_add_ps(tx, trunc_sse2(_mm_add_ps(rem, rem)));
 #endif
 		}
 
@@ -244,10 +232,10 @@ namespace dpm
 #elif defined(DPM_USE_SVML)
 			*dst = _mm_svml_round_pd(x);
 #else
-			const auto tx = _mm_cvtepi32_pd(_mm_cvttpd_epi32(x));
-			const auto near2 = _mm_set1_pd(2.0);
-			const auto rem = _mm_mul_pd(_mm_sub_pd(x, tx), near2);
-			*dst = mask_domain(x, _mm_add_pd(tx, _mm_cvtepi32_pd(_mm_cvttpd_epi32(rem))));
+			const auto tx = trunc_sse2(x);
+			const auto fract_mask = _mm_cmpneq_pd(tx, x);
+			const auto rem = _mm_sub_pd(bit_and(x, fract_mask), bit_and(tx, fract_mask));
+			*dst = _mm_add_pd(tx, trunc_sse2(_mm_add_pd(rem, rem)));
 #endif
 		}
 
-- 
2.43.0


From 7fde062912314efa420e9f125dc15bd3ae4b9432 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:35 +0000
Subject: [PATCH 37/73] fix: round does not depend on the rounding mode

---
 dpm/detail/x86/round.hpp | 32 ++++++++++++++++++++------------
 1 file changed, 20 insertions(+), 12 deletions(-)

diff --git a/dpm/detail/x86/round.hpp b/dpm/detail/x86/round.hpp
index 445f5aa..94833e3 100644
--- a/dpm/detail/x86/round.hpp
+++ b/dpm/detail/x86/round.hpp
@@ -137,9 +137,11 @@ namespace dpm
 		inline void round(__m128 x, __m128 *dst) noexcept
 		{
 #if defined(DPM_HAS_SSE4_1)
-			const auto sign = bit_and(x, _mm_set1_ps(-0.0f));
-			const auto off = bit_or(sign, std::bit_cast<__m128>(_mm_set1_epi32(0x3effffff)));
-			*dst = _mm_round_ps(_mm_add_ps(x, off), _MM_FROUND_TO_ZERO | _MM_FROUND_NO_EXC);
+			/* Every step is exact, the result does not depend on the rounding mode. */
+			const auto tx = trunc(x);
+			const auto fract_mask = _mm_cmpneq_ps(tx, x);
+			const auto rem = _mm_sub_ps(bit_and(x, fract_mask), bit_and(tx, fract_mask));
+			*dst = _mm_add_ps(tx, trunc(_mm_add_ps(rem, rem)));
 #elif defined(DPM_USE_SVML)
 			*dst = _mm_svml_round_ps(x);
 #else
@@ -226,9 +228,11 @@ namespace dpm
 		inline void round(__m128d x, __m128d *dst) noexcept
 		{
 #if defined(DPM_HAS_SSE4_1)
-			const auto sign = bit_and(x, _mm_set1_pd(-0.0f));
-			const auto off = bit_or(sign, std::bit_cast<__m128d>(_mm_set1_epi64x(0x3fdfffff'ffffffff)));
-			*dst = _mm_round_pd(_mm_add_pd(x, off), _MM_FROUND_TO_ZERO | _MM_FROUND_NO_EXC);
+			/* Every step is exact, the result does not depend on the rounding mode. */
+			const auto tx = trunc(x);
+			const auto fract_mask = _mm_cmpneq_pd(tx, x);
+			const auto rem = _mm_sub_pd(bit_and(x, fract_mask), bit_and(tx, fract_mask));
+			*dst = _mm_add_pd(tx, trunc(_mm_add_pd(rem, rem)));
 #elif defined(DPM_USE_SVML)
 			*dst = _mm_svml_round_pd(x);
 #else
@@ -336,9 +340,11 @@ namespace dpm
 		template<std::same_as<float> T>
 		DPM_FORCEINLINE void round(__m256 x, __m256 *dst) noexcept
 		{
-			const auto sign = bit_and(x, _mm256_set1_ps(-0.0f));
-			const auto off = bit_or(sign, std::bit_cast<__m256>(_mm256_set1_epi32(0x3effffff)));
-			*dst = _mm256_round_ps(_mm256_add_ps(x, off), _MM_FROUND_TO_ZERO | _MM_FROUND_NO_EXC);
+			/* Every step is exact, the result does not depend on the rounding mode. */
+			const auto tx = trunc(x);
+			const auto fract_mask = _mm256_cmp_ps(tx, x, _CMP_NEQ_UQ);
+			const auto rem = _mm256_sub_ps(bit_and(x, fract_mask), bit_and(tx, fract_mask));
+			*dst = _mm256_add_ps(tx, trunc(_mm256_add_ps(rem, rem)));
 		}
 
 		template<integral_of_size<4> T>
@@ -394,9 +400,11 @@ namespace dpm
 		template<std::same_as<double> T>
 		DPM_FORCEINLINE void round(__m256d x, __m256d *dst) noexcept
 		{
-			const auto sign = bit_and(x, _mm256_set1_pd(-0.0f));
-			const auto off = bit_or(sign, std::bit_cast<__m256d>(_mm256_set1_epi64x(0x3fdfffff'ffffffff)));
-			*dst = _mm256_round_pd(_mm256_add_pd(x, off), _MM_FROUND_TO_ZERO | _MM_FROUND_NO_EXC);
+			/* Every step is exact, the result does not depend on the rounding mode. */
+			const auto tx = trunc(x);
+			const auto fract_mask = _mm256_cmp_pd(tx, x, _CMP_NEQ_UQ);
+			const auto rem = _mm256_sub_pd(bit_and(x, fract_mask), bit_and(tx, fract_mask));
+			*dst = _mm256_add_pd(tx, trunc(_mm256_add_pd(rem, rem)));
 		}
 
 		template<integral_of_size<4> T>
-- 
2.43.0


From 0fc6d527a277c2c98015a8df3a89bc027b8c129e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:35 +0000
Subject: [PATCH 38/73] fix: SSE2 rint and nearbyint round negative operands in
 the direction of the rounding mode

---
 dpm/detail/x86/round.hpp | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/dpm/detail/x86/round.hpp b/dpm/detail/x86/round.hpp
index 94833e3..0381956 100644
--- a/dpm/detail/x86/round.hpp
+++ b/dpm/detail/x86/round.hpp
@@ -174,11 +174,12 @@ namespace dpm
 			*dst = _mm_round_ps(x, _MM_FROUND_RAISE_EXC | _MM_FROUND_CUR_DIRECTION);
 #else
 			const auto sign_x = _mm_and_ps(x, _mm_set1_ps(-0.0));
-			const auto x_offset = _mm_set1_ps(8388608.0);
+			const auto abs_offset = _mm_set1_ps(8388608.0);
+			const auto x_offset = _mm_or_ps(abs_offset, sign_x);
 			const auto abs_x = _mm_xor_ps(x, sign_x);
 
-			const auto tmp_mask = _mm_cmpge_ps(abs_x, x_offset);
-			const auto tmp = _mm_or_ps(_mm_sub_ps(_mm_add_ps(abs_x, x_offset), x_offset), sign_x);
+			const auto tmp_mask = _mm_cmpge_ps(abs_x, abs_offset);
+			const auto tmp = _mm_or_ps(_mm_sub_ps(_mm_add_ps(x, x_offset), x_offset), sign_x);
 			*dst = _mm_or_ps(_mm_andnot_ps(tmp_mask, tmp), _mm_and_ps(tmp_mask, x));
 #endif
 		}
@@ -254,11 +255,12 @@ namespace dpm
 			*dst = _mm_round_pd(x, _MM_FROUND_RAISE_EXC | _MM_FROUND_CUR_DIRECTION);
 #else
 			const auto sign_x = _mm_and_pd(x, _mm_set1_pd(-0.0));
-			const auto x_offset = _mm_set1_pd(4503599627370496.0);
+			const auto abs_offset = _mm_set1_pd(4503599627370496.0);
+			const auto x_offset = _mm_or_pd(abs_offset, sign_x);
 			const auto abs_x = _mm_xor_pd(x, sign_x);
 
-			const auto tmp_mask = _mm_cmpge_pd(abs_x, x_offset);
-			const auto tmp = _mm_or_pd(_mm_sub_pd(_mm_add_pd(abs_x, x_offset), x_offset), sign_x);
+			const auto tmp_mask = _mm_cmpge_pd(abs_x, abs_offset);
+			const auto tmp = _mm_or_pd(_mm_sub_pd(_mm_add_pd(x, x_offset), x_offset), sign_x);
 			*dst = _mm_or_pd(_mm_andnot_pd(tmp_mask, tmp), _mm_and_pd(tmp_mask, x));
 #endif
 		}
-- 
2.43.0


From 2ebead4e502ccadf4c1abb0ecc73a6363522e861 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:35 +0000
Subject: [PATCH 39/73] fix: generic rint does not convert through long

---
 dpm/detail/generic/math.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dpm/detail/generic/math.hpp b/dpm/detail/generic/math.hpp
index 66bee6b..2fb3a06 100644
--- a/dpm/detail/generic/math.hpp
+++ b/dpm/detail/generic/math.hpp
@@ -904,7 +904,7 @@ namespace dpm
 	template<std::floating_point T, typename Abi>
 	[[nodiscard]] constexpr simd<T, Abi> rint(const simd<T, Abi> &x) noexcept
 	{
-		alignas(simd<long, Abi>) std::array<long, simd_size_v<long, Abi>> result = {};
+		alignas(simd<T, Abi>) std::array<T, simd_size_v<T, Abi>> result = {};
 		for (std::size_t i = 0; i < simd<T, Abi>::size(); ++i)
 			result[i] = std::rint(x[i]);
 		return {result.data(), vector_aligned};
-- 
2.43.0


From bd66f8ffe4223df012cbd86ac7a9df5c956f7d1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:32 +0000
Subject: [PATCH 40/73] fix: rounding to 64-bit integers for values outside of
 the 32-bit range

---
 dpm/detail/x86/round.hpp | 233 +++++++++++++++++++++++----------------
 1 file changed, 139 insertions(+), 94 deletions(-)

diff --git a/dpm/detail/x86/round.hpp b/dpm/detail/x86/round.hpp
index 0381956..a1fa4ed 100644
--- a/dpm/detail/x86/round.hpp
+++ b/dpm/detail/x86/round.hpp
@@ -86,6 +86,21 @@ namespace dpm
 #endif
 		}
 
+		/* Converts integral values (or truncates) to 64-bit integers. */
+		template<integral_of_size<8> T>
+		[[nodiscard]] DPM_FORCEINLINE __m128i integral_to_i64(__m128d x) noexcept
+		{
+			const auto l = static_cast<T>(_mm_cvtsd_f64(x));
+			const auto h = static_cast<T>(_mm_cvtsd_f64(_mm_unpackhi_pd(x, x)));
+			return _mm_set_epi64x(static_cast<std::int64_t>(h), static_cast<std::int64_t>(l));
+		}
+		template<integral_of_size<8> T>
+		DPM_FORCEINLINE void integral_to_i64(__m128 x, __m128i *dst) noexcept
+		{
+			dst[0] = integral_to_i64<T>(_mm_cvtps_pd(x));
+			dst[1] = integral_to_i64<T>(_mm_cvtps_pd(_mm_movehl_ps(x, x)));
+		}
+
 		template<integral_of_size<4> T>
 		DPM_FORCEINLINE void itrunc(__m128 x, __m128i *dst) noexcept { *dst = cvtt<T, float>(x); }
 		template<integral_of_size<8> T>
@@ -95,10 +110,7 @@ namespace dpm
 			dst[1] = _mm_cvttps_epi64(_mm_movehl_ps(x, x));
 			dst[0] = _mm_cvttps_epi64(x);
 #else
-			const auto tmp = cvtt<std::int32_t, float>(x);
-			const auto sign = _mm_srai_epi32(tmp, 31);
-			dst[0] = _mm_unpacklo_epi32(tmp, sign);
-			dst[1] = _mm_unpackhi_epi32(tmp, sign);
+			integral_to_i64<T>(x, dst);
 #endif
 		}
 
@@ -111,28 +123,6 @@ namespace dpm
 			const auto rem = _mm_mul_ps(_mm_sub_ps(x, tx), near2);
 			*dst = _mm_add_epi32(ix, _mm_cvttps_epi32(rem));
 		}
-		template<integral_of_size<8> T>
-		DPM_FORCEINLINE void round(__m128 x, __m128i *dst) noexcept
-		{
-#if defined(DPM_HAS_AVX512DQ) && defined(DPM_HAS_AVX512VL)
-			auto ih = _mm_cvttps_epi64(_mm_movehl_ps(x, x));
-			auto il = _mm_cvttps_epi64(x);
-			const auto th = _mm_cvtepi64_ps(ih);
-			const auto tl = _mm_cvtepi64_ps(il);
-			const auto tx = _mm_movelh_ps(tl, th);
-
-			const auto near2 = _mm_set1_ps(2.0f);
-			const auto rem = _mm_mul_ps(_mm_sub_ps(x, tx), near2);
-			dst[1] = _mm_add_epi64(th, _mm_cvttps_epi64(_mm_movehl_ps(rem, rem)));
-			dst[0] = _mm_add_epi64(tl, _mm_cvttps_epi64(rem));
-#else
-			__m128i tmp;
-			round<std::int32_t>(x, &tmp);
-			const auto sign = _mm_srai_epi32(tmp, 31);
-			dst[0] = _mm_unpacklo_epi32(tmp, sign);
-			dst[1] = _mm_unpackhi_epi32(tmp, sign);
-#endif
-		}
 		template<std::same_as<float> T>
 		inline void round(__m128 x, __m128 *dst) noexcept
 		{
@@ -151,22 +141,29 @@ namespace dpm
 			*dst = _mm_add_ps(tx, trunc_sse2(_mm_add_ps(rem, rem)));
 #endif
 		}
-
-		template<integral_of_size<4> T>
-		DPM_FORCEINLINE void rint(__m128 x, __m128i *dst) noexcept { *dst = _mm_cvtps_epi32(x); }
 		template<integral_of_size<8> T>
-		DPM_FORCEINLINE void rint(__m128 x, __m128i *dst) noexcept
+		DPM_FORCEINLINE void round(__m128 x, __m128i *dst) noexcept
 		{
 #if defined(DPM_HAS_AVX512DQ) && defined(DPM_HAS_AVX512VL)
-			dst[1] = _mm_cvtps_epi64(_mm_movehl_ps(x, x));
-			dst[0] = _mm_cvtps_epi64(x);
+			auto ih = _mm_cvttps_epi64(_mm_movehl_ps(x, x));
+			auto il = _mm_cvttps_epi64(x);
+			const auto th = _mm_cvtepi64_ps(ih);
+			const auto tl = _mm_cvtepi64_ps(il);
+			const auto tx = _mm_movelh_ps(tl, th);
+
+			const auto near2 = _mm_set1_ps(2.0f);
+			const auto rem = _mm_mul_ps(_mm_sub_ps(x, tx), near2);
+			dst[1] = _mm_add_epi64(th, _mm_cvttps_epi64(_mm_movehl_ps(rem, rem)));
+			dst[0] = _mm_add_epi64(tl, _mm_cvttps_epi64(rem));
 #else
-			const auto tmp = _mm_cvtps_epi32(x);
-			const auto sign = _mm_srai_epi32(tmp, 31);
-			dst[0] = _mm_unpacklo_epi32(tmp, sign);
-			dst[1] = _mm_unpackhi_epi32(tmp, sign);
+			__m128 tmp;
+			round<float>(x, &tmp);
+			integral_to_i64<T>(tmp, dst);
 #endif
 		}
+
+		template<integral_of_size<4> T>
+		DPM_FORCEINLINE void rint(__m128 x, __m128i *dst) noexcept { *dst = _mm_cvtps_epi32(x); }
 		template<std::same_as<float> T>
 		inline void rint(__m128 x, __m128 *dst) noexcept
 		{
@@ -183,6 +180,18 @@ namespace dpm
 			*dst = _mm_or_ps(_mm_andnot_ps(tmp_mask, tmp), _mm_and_ps(tmp_mask, x));
 #endif
 		}
+		template<integral_of_size<8> T>
+		DPM_FORCEINLINE void rint(__m128 x, __m128i *dst) noexcept
+		{
+#if defined(DPM_HAS_AVX512DQ) && defined(DPM_HAS_AVX512VL)
+			dst[1] = _mm_cvtps_epi64(_mm_movehl_ps(x, x));
+			dst[0] = _mm_cvtps_epi64(x);
+#else
+			__m128 tmp;
+			rint<float>(x, &tmp);
+			integral_to_i64<T>(tmp, dst);
+#endif
+		}
 
 		[[nodiscard]] DPM_FORCEINLINE __m128 nearbyint(__m128 x) noexcept
 		{
@@ -199,7 +208,14 @@ namespace dpm
 		template<integral_of_size<4> T>
 		DPM_FORCEINLINE void itrunc(__m128d x, __m128i *dst) noexcept { *dst = cvtt<T, double>(x); }
 		template<integral_of_size<8> T>
-		DPM_FORCEINLINE void itrunc(__m128d x, __m128i *dst) noexcept { *dst = cvtt<T, double>(x); }
+		DPM_FORCEINLINE void itrunc(__m128d x, __m128i *dst) noexcept
+		{
+#if defined(DPM_HAS_AVX512DQ) && defined(DPM_HAS_AVX512VL)
+			*dst = _mm_cvttpd_epi64(x);
+#else
+			*dst = integral_to_i64<T>(x);
+#endif
+		}
 
 		template<integral_of_size<4> T>
 		DPM_FORCEINLINE void round(__m128d x, __m128i *dst) noexcept
@@ -210,21 +226,6 @@ namespace dpm
 			const auto rem = _mm_mul_pd(_mm_sub_pd(x, tx), near2);
 			*dst = _mm_add_epi32(ix, _mm_cvttpd_epi32(rem));
 		}
-		template<integral_of_size<8> T>
-		DPM_FORCEINLINE void round(__m128d x, __m128i *dst) noexcept
-		{
-#if defined(DPM_HAS_AVX512DQ) && defined(DPM_HAS_AVX512VL)
-			const auto ix = _mm_cvttpd_epi64(x);
-			const auto tx = _mm_cvtepi64_pd(ix);
-			const auto near2 = _mm_set1_pd(2.0);
-			const auto rem = _mm_mul_pd(_mm_sub_pd(x, tx), near2);
-			*dst = _mm_add_epi64(ix, _mm_cvttpd_epi64(rem));
-#else
-			__m128i tmp;
-			round<std::int32_t>(x, &tmp);
-			*dst = _mm_unpacklo_epi32(tmp, _mm_srai_epi32(tmp, 31));
-#endif
-		}
 		template<std::same_as<double> T>
 		inline void round(__m128d x, __m128d *dst) noexcept
 		{
@@ -243,11 +244,24 @@ namespace dpm
 			*dst = _mm_add_pd(tx, trunc_sse2(_mm_add_pd(rem, rem)));
 #endif
 		}
+		template<integral_of_size<8> T>
+		DPM_FORCEINLINE void round(__m128d x, __m128i *dst) noexcept
+		{
+#if defined(DPM_HAS_AVX512DQ) && defined(DPM_HAS_AVX512VL)
+			const auto ix = _mm_cvttpd_epi64(x);
+			const auto tx = _mm_cvtepi64_pd(ix);
+			const auto near2 = _mm_set1_pd(2.0);
+			const auto rem = _mm_mul_pd(_mm_sub_pd(x, tx), near2);
+			*dst = _mm_add_epi64(ix, _mm_cvttpd_epi64(rem));
+#else
+			__m128d tmp;
+			round<double>(x, &tmp);
+			*dst = integral_to_i64<T>(tmp);
+#endif
+		}
 
 		template<integral_of_size<4> T>
 		DPM_FORCEINLINE void rint(__m128d x, __m128i *dst) noexcept { *dst = _mm_cvtpd_epi32(x); }
-		template<integral_of_size<8> T>
-		DPM_FORCEINLINE void rint(__m128d x, __m128i *dst) noexcept { *dst = cvt_f64_i64(x); }
 		template<std::same_as<double> T>
 		inline void rint(__m128d x, __m128d *dst) noexcept
 		{
@@ -264,6 +278,17 @@ namespace dpm
 			*dst = _mm_or_pd(_mm_andnot_pd(tmp_mask, tmp), _mm_and_pd(tmp_mask, x));
 #endif
 		}
+		template<integral_of_size<8> T>
+		DPM_FORCEINLINE void rint(__m128d x, __m128i *dst) noexcept
+		{
+#if defined(DPM_HAS_AVX512DQ) && defined(DPM_HAS_AVX512VL)
+			*dst = cvt_f64_i64(x);
+#else
+			__m128d tmp;
+			rint<double>(x, &tmp);
+			*dst = integral_to_i64<T>(tmp);
+#endif
+		}
 
 		[[nodiscard]] DPM_FORCEINLINE __m128d nearbyint(__m128d x) noexcept
 		{
@@ -283,14 +308,18 @@ namespace dpm
 		[[nodiscard]] DPM_FORCEINLINE __m256 trunc(__m256 x) noexcept { return _mm256_round_ps(x, _MM_FROUND_TO_ZERO | _MM_FROUND_NO_EXC); }
 		[[nodiscard]] DPM_FORCEINLINE __m256 nearbyint(__m256 x) noexcept { return _mm256_round_ps(x, _MM_FROUND_NO_EXC | _MM_FROUND_CUR_DIRECTION); }
 
-		DPM_FORCEINLINE void widen_i32x8(__m256i x, __m256i *dst) noexcept
+		/* Converts integral values (or truncates) to 64-bit integers. */
+		template<integral_of_size<8> T>
+		DPM_FORCEINLINE void integral_to_i64(__m256 x, __m256i *dst) noexcept
 		{
-			const auto l = _mm256_castsi256_si128(x);
-			const auto h = _mm256_extractf128_si256(x, 1);
-			const auto sl = _mm_srai_epi32(l, 31);
-			const auto sh = _mm_srai_epi32(h, 31);
-			dst[0] = _mm256_set_m128i(_mm_unpackhi_epi32(l, sl), _mm_unpacklo_epi32(l, sl));
-			dst[1] = _mm256_set_m128i(_mm_unpackhi_epi32(h, sh), _mm_unpacklo_epi32(h, sh));
+			integral_to_i64<T>(_mm256_castps256_ps128(x), reinterpret_cast<__m128i *>(dst));
+			integral_to_i64<T>(_mm256_extractf128_ps(x, 1), reinterpret_cast<__m128i *>(dst + 1));
+		}
+		template<integral_of_size<8> T>
+		DPM_FORCEINLINE void integral_to_i64(__m256d x, __m256i *dst) noexcept
+		{
+			reinterpret_cast<__m128i *>(dst)[0] = integral_to_i64<T>(_mm256_castpd256_pd128(x));
+			reinterpret_cast<__m128i *>(dst)[1] = integral_to_i64<T>(_mm256_extractf128_pd(x, 1));
 		}
 
 		template<integral_of_size<4> T>
@@ -302,7 +331,7 @@ namespace dpm
 			dst[1] = _mm256_cvttps_epi64(_mm256_extractf128_ps(x, 1));
 			dst[0] = _mm256_cvttps_epi64(x);
 #else
-			widen_i32x8(cvtt<std::int32_t, float>(x), dst);
+			integral_to_i64<T>(x, dst);
 #endif
 		}
 
@@ -319,6 +348,15 @@ namespace dpm
 			*dst = mux_128x2<__m256i>([](auto a, auto b) { return _mm_add_epi32(a, b); }, ix, _mm256_cvttps_epi32(rem));
 #endif
 		}
+		template<std::same_as<float> T>
+		DPM_FORCEINLINE void round(__m256 x, __m256 *dst) noexcept
+		{
+			/* Every step is exact, the result does not depend on the rounding mode. */
+			const auto tx = trunc(x);
+			const auto fract_mask = _mm256_cmp_ps(tx, x, _CMP_NEQ_UQ);
+			const auto rem = _mm256_sub_ps(bit_and(x, fract_mask), bit_and(tx, fract_mask));
+			*dst = _mm256_add_ps(tx, trunc(_mm256_add_ps(rem, rem)));
+		}
 		template<integral_of_size<8> T>
 		DPM_FORCEINLINE void round(__m256 x, __m256i *dst) noexcept
 		{
@@ -334,30 +372,23 @@ namespace dpm
 			dst[1] = _mm256_add_epi64(th, _mm256_cvttps_epi64(_mm256_permute2f128_ps(rem, rem, 0x11)));
 			dst[0] = _mm256_add_epi64(tl, _mm256_cvttps_epi64(rem));
 #else
-			__m256i tmp;
-			round<std::int32_t>(x, &tmp);
-			widen_i32x8(tmp, dst);
+			__m256 tmp;
+			round<float>(x, &tmp);
+			integral_to_i64<T>(tmp, dst);
 #endif
 		}
-		template<std::same_as<float> T>
-		DPM_FORCEINLINE void round(__m256 x, __m256 *dst) noexcept
-		{
-			/* Every step is exact, the result does not depend on the rounding mode. */
-			const auto tx = trunc(x);
-			const auto fract_mask = _mm256_cmp_ps(tx, x, _CMP_NEQ_UQ);
-			const auto rem = _mm256_sub_ps(bit_and(x, fract_mask), bit_and(tx, fract_mask));
-			*dst = _mm256_add_ps(tx, trunc(_mm256_add_ps(rem, rem)));
-		}
 
 		template<integral_of_size<4> T>
 		DPM_FORCEINLINE void rint(__m256 x, __m256i *dst) noexcept { *dst = _mm256_cvtps_epi32(x); }
+		template<std::same_as<float> T>
+		DPM_FORCEINLINE void rint(__m256 x, __m256 *dst) noexcept { *dst = _mm256_round_ps(x, _MM_FROUND_RAISE_EXC | _MM_FROUND_CUR_DIRECTION); }
 		template<integral_of_size<8> T>
 		DPM_FORCEINLINE void rint(__m256 x, __m256i *dst) noexcept
 		{
-			widen_i32x8(_mm256_cvtps_epi32(x), dst);
+			__m256 tmp;
+			rint<float>(x, &tmp);
+			integral_to_i64<T>(tmp, dst);
 		}
-		template<std::same_as<float> T>
-		DPM_FORCEINLINE void rint(__m256 x, __m256 *dst) noexcept { *dst = _mm256_round_ps(x, _MM_FROUND_RAISE_EXC | _MM_FROUND_CUR_DIRECTION); }
 
 		[[nodiscard]] DPM_FORCEINLINE __m256d ceil(__m256d x) noexcept { return _mm256_ceil_pd(x); }
 		[[nodiscard]] DPM_FORCEINLINE __m256d floor(__m256d x) noexcept { return _mm256_floor_pd(x); }
@@ -369,7 +400,14 @@ namespace dpm
 		template<integral_of_size<4> T>
 		DPM_FORCEINLINE void itrunc(__m256d x, __m256i *dst) noexcept { itrunc<T>(x, reinterpret_cast<__m128i *>(dst)); }
 		template<integral_of_size<8> T>
-		DPM_FORCEINLINE void itrunc(__m256d x, __m256i *dst) noexcept { *dst = cvtt<T, double>(x); }
+		DPM_FORCEINLINE void itrunc(__m256d x, __m256i *dst) noexcept
+		{
+#if defined(DPM_HAS_AVX512DQ) && defined(DPM_HAS_AVX512VL)
+			*dst = _mm256_cvttpd_epi64(x);
+#else
+			integral_to_i64<T>(x, dst);
+#endif
+		}
 
 		template<integral_of_size<4> T>
 		DPM_FORCEINLINE void round(__m256d x, __m128i *dst) noexcept
@@ -382,6 +420,15 @@ namespace dpm
 		}
 		template<integral_of_size<4> T>
 		DPM_FORCEINLINE void round(__m256d x, __m256i *dst) noexcept { round<T>(x, reinterpret_cast<__m128i *>(dst)); }
+		template<std::same_as<double> T>
+		DPM_FORCEINLINE void round(__m256d x, __m256d *dst) noexcept
+		{
+			/* Every step is exact, the result does not depend on the rounding mode. */
+			const auto tx = trunc(x);
+			const auto fract_mask = _mm256_cmp_pd(tx, x, _CMP_NEQ_UQ);
+			const auto rem = _mm256_sub_pd(bit_and(x, fract_mask), bit_and(tx, fract_mask));
+			*dst = _mm256_add_pd(tx, trunc(_mm256_add_pd(rem, rem)));
+		}
 		template<integral_of_size<8> T>
 		DPM_FORCEINLINE void round(__m256d x, __m256i *dst) noexcept
 		{
@@ -392,31 +439,29 @@ namespace dpm
 			const auto rem = _mm256_mul_pd(_mm256_sub_pd(x, tx), near2);
 			*dst = _mm256_add_epi64(ix, _mm256_cvttpd_epi64(rem));
 #else
-			__m128i tmp;
-			round<std::int32_t>(x, &tmp);
-			const auto sign = _mm_srai_epi32(tmp, 31);
-			reinterpret_cast<__m128i *>(dst)[0] = _mm_unpacklo_epi32(tmp, sign);
-			reinterpret_cast<__m128i *>(dst)[1] = _mm_unpackhi_epi32(tmp, sign);
+			__m256d tmp;
+			round<double>(x, &tmp);
+			integral_to_i64<T>(tmp, dst);
 #endif
 		}
-		template<std::same_as<double> T>
-		DPM_FORCEINLINE void round(__m256d x, __m256d *dst) noexcept
-		{
-			/* Every step is exact, the result does not depend on the rounding mode. */
-			const auto tx = trunc(x);
-			const auto fract_mask = _mm256_cmp_pd(tx, x, _CMP_NEQ_UQ);
-			const auto rem = _mm256_sub_pd(bit_and(x, fract_mask), bit_and(tx, fract_mask));
-			*dst = _mm256_add_pd(tx, trunc(_mm256_add_pd(rem, rem)));
-		}
 
 		template<integral_of_size<4> T>
 		DPM_FORCEINLINE void rint(__m256d x, __m128i *dst) noexcept { *dst = _mm256_cvtpd_epi32(x); }
 		template<integral_of_size<4> T>
 		DPM_FORCEINLINE void rint(__m256d x, __m256i *dst) noexcept { rint<T>(x, reinterpret_cast<__m128i *>(dst)); }
-		template<integral_of_size<8> T>
-		DPM_FORCEINLINE void rint(__m256d x, __m256i *dst) noexcept { *dst = cvt_f64_i64(x); }
 		template<std::same_as<double> T>
 		DPM_FORCEINLINE void rint(__m256d x, __m256d *dst) noexcept { *dst = _mm256_round_pd(x, _MM_FROUND_RAISE_EXC | _MM_FROUND_CUR_DIRECTION); }
+		template<integral_of_size<8> T>
+		DPM_FORCEINLINE void rint(__m256d x, __m256i *dst) noexcept
+		{
+#if defined(DPM_HAS_AVX512DQ) && defined(DPM_HAS_AVX512VL)
+			*dst = cvt_f64_i64(x);
+#else
+			__m256d tmp;
+			rint<double>(x, &tmp);
+			integral_to_i64<T>(tmp, dst);
+#endif
+		}
 #endif
 
 		template<typename T, typename V>
-- 
2.43.0


From 8eb667b8caa5c0ccf6b15125ff4e532691d1967c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:32 +0000
Subject: [PATCH 41/73] fix: correctly rounded conversion of unsigned integers
 to float

---
 dpm/detail/x86/cvt.hpp | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/dpm/detail/x86/cvt.hpp b/dpm/detail/x86/cvt.hpp
index ee157c9..cd97a1d 100644
--- a/dpm/detail/x86/cvt.hpp
+++ b/dpm/detail/x86/cvt.hpp
@@ -37,9 +37,10 @@ namespace dpm::detail
 
 	[[nodiscard]] DPM_FORCEINLINE __m128 cvt_u32_f32(__m128i x) noexcept
 	{
-		const auto a = _mm_cvtepi32_ps(_mm_and_si128(x, _mm_set1_epi32(1)));
-		const auto b = _mm_cvtepi32_ps(_mm_srli_epi32(x, 1));
-		return _mm_add_ps(_mm_add_ps(b, b), a); /* (x >> 1) * 2 + x & 1 */
+		/* Both halves and their product are exact, only the final addition is rounded. */
+		const auto a = _mm_cvtepi32_ps(_mm_and_si128(x, _mm_set1_epi32(0xffff)));
+		const auto b = _mm_cvtepi32_ps(_mm_srli_epi32(x, 16));
+		return _mm_add_ps(_mm_mul_ps(b, _mm_set1_ps(65536.0f)), a); /* (x >> 16) * 65536 + x & 0xffff */
 	}
 	[[nodiscard]] DPM_FORCEINLINE __m128i cvt_f32_u32(__m128 x) noexcept
 	{
@@ -246,9 +247,10 @@ namespace dpm::detail
 	[[nodiscard]] DPM_FORCEINLINE __m256 cvt_u32_f32(__m256i x) noexcept
 	{
 #ifdef DPM_HAS_AVX2
-		const auto a = _mm256_cvtepi32_ps(_mm256_and_si256(x, _mm256_set1_epi32(1)));
-		const auto b = _mm256_cvtepi32_ps(_mm256_srli_epi32(x, 1));
-		return _mm256_add_ps(_mm256_add_ps(b, b), a); /* (x >> 1) * 2 + x & 1 */
+		/* Both halves and their product are exact, only the final addition is rounded. */
+		const auto a = _mm256_cvtepi32_ps(_mm256_and_si256(x, _mm256_set1_epi32(0xffff)));
+		const auto b = _mm256_cvtepi32_ps(_mm256_srli_epi32(x, 16));
+		return _mm256_add_ps(_mm256_mul_ps(b, _mm256_set1_ps(65536.0f)), a); /* (x >> 16) * 65536 + x & 0xffff */
 #else
 		const auto l = cvt_u32_f32(_mm256_extractf128_si256(x, 0));
 		const auto h = cvt_u32_f32(_mm256_extractf128_si256(x, 1));
-- 
2.43.0


From 3e9da748a0610d6139cb7ce5616a51cf806635be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:32 +0000
Subject: [PATCH 42/73] fix: log10 of denormal floats in odd lanes

---
 dpm/detail/x86/log10.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dpm/detail/x86/log10.cpp b/dpm/detail/x86/log10.cpp
index 077a319..fac5ead 100644
--- a/dpm/detail/x86/log10.cpp
+++ b/dpm/detail/x86/log10.cpp
@@ -19,7 +19,7 @@ namespace dpm::detail
 		{
 			/* Normalize x. */
 			const auto ix_norm = std::bit_cast<Vi>(mul<T>(x, fill<V>(0x1p25f)));
-			k = sub<I>(k, bit_and(is_subnorm, fill<Vi>(25ull)));
+			k = sub<I>(k, bit_and(is_subnorm, fill<Vi>(25)));
 			ix = blendv<I>(ix, ix_norm, is_subnorm);
 		}
 
-- 
2.43.0


From d7b945947fdb7bb00c2e006acd522f847c44c954 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:32 +0000
Subject: [PATCH 43/73] fix: log10 of large doubles overflows in denormal
 normalization

---
 dpm/detail/x86/log10.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/dpm/detail/x86/log10.cpp b/dpm/detail/x86/log10.cpp
index fac5ead..5721287 100644
--- a/dpm/detail/x86/log10.cpp
+++ b/dpm/detail/x86/log10.cpp
@@ -48,8 +48,7 @@ namespace dpm::detail
 		auto ix = std::bit_cast<Vi>(x);
 		auto k = setzero<Vi>();
 
-		const auto top16 = bit_shiftr<I, 48>(ix);
-		const auto is_subnorm = cmp_gt<I>(fill<Vi>(0x10ull << 48), top16);
+		const auto is_subnorm = cmp_gt<I>(fill<Vi>(0x10ull << 48), ix);
 		if (test_mask(is_subnorm)) [[unlikely]] /* Avoid overflow in x * 2^54 */
 		{
 			/* Normalize x. */
-- 
2.43.0


From 0955886d956c295e5a314d1345b5c73f76090c20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:32 +0000
Subject: [PATCH 44/73] fix: sign of infinity of logarithms of zero

---
 dpm/detail/x86/exp.hpp   | 4 ++--
 dpm/detail/x86/log1p.cpp | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/dpm/detail/x86/exp.hpp b/dpm/detail/x86/exp.hpp
index d456c65..cfc56bc 100644
--- a/dpm/detail/x86/exp.hpp
+++ b/dpm/detail/x86/exp.hpp
@@ -77,9 +77,9 @@ namespace dpm
 			y = blendv<T>(x, y, isfinite_abs(x));
 #endif
 #ifdef DPM_HANDLE_ERRORS
-			/* log(0) == inf + FE_DIVBYZERO */
+			/* log(0) == -inf + FE_DIVBYZERO */
 			const auto zero_mask = cmp_eq<T>(x, setzero<V>());
-			if (test_mask(zero_mask)) [[unlikely]] y = except_divzero<T>(y, x, zero_mask);
+			if (test_mask(zero_mask)) [[unlikely]] y = except_divzero<T, -1>(y, x, zero_mask);
 			/* log(-x) == NaN + FE_INVALID */
 			const auto minus_mask = cmp_lt<T>(x, setzero<V>());
 			if (test_mask(minus_mask)) [[unlikely]] y = except_invalid<T>(y, x, std::bit_cast<V>(minus_mask));
diff --git a/dpm/detail/x86/log1p.cpp b/dpm/detail/x86/log1p.cpp
index 790cf19..aa58153 100644
--- a/dpm/detail/x86/log1p.cpp
+++ b/dpm/detail/x86/log1p.cpp
@@ -34,9 +34,9 @@ namespace dpm::detail
 		/* log1p(subnormal x) == x */
 		const auto exp = bit_shiftr<I, mant_bits<I>>(std::bit_cast<Vi>(x));
 		y = blendv<T>(y, x, std::bit_cast<V>(cmp_eq<I>(exp, setzero<Vi>())));
-		/* log1p(-1) == inf + FE_DIVBYZERO */
+		/* log1p(-1) == -inf + FE_DIVBYZERO */
 		const auto zero_mask = cmp_eq<T>(x, fill<V>(-one<T>));
-		if (test_mask(zero_mask)) [[unlikely]] y = except_divzero<T>(y, x, zero_mask);
+		if (test_mask(zero_mask)) [[unlikely]] y = except_divzero<T, -1>(y, x, zero_mask);
 		/* log1p(x < -1) == NaN + FE_INVALID */
 		const auto minus_mask = cmp_lt<T>(x, fill<V>(-one<T>));
 		if (test_mask(minus_mask)) [[unlikely]] y = except_invalid<T>(y, x, std::bit_cast<V>(minus_mask));
-- 
2.43.0


From 4851c74a831aa39d5ff5b34f8d5244c73f5a26cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:06 +0000
Subject: [PATCH 45/73] fix: logarithms of denormal operands are not normalized

---
 dpm/detail/x86/exp.hpp | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/dpm/detail/x86/exp.hpp b/dpm/detail/x86/exp.hpp
index cfc56bc..21378c9 100644
--- a/dpm/detail/x86/exp.hpp
+++ b/dpm/detail/x86/exp.hpp
@@ -90,12 +90,11 @@ namespace dpm
 		template<std::same_as<float> T, typename V, typename Vi = select_vector_t<std::int32_t, sizeof(V)>>
 		[[nodiscard]] DPM_FORCEINLINE Vi log_normalize(V x) noexcept
 		{
-			constexpr std::int32_t sub_max = 0x7f00'0000;
 			constexpr std::int32_t sub_off = 0x80'0000;
 			auto ix = std::bit_cast<Vi>(x);
 
-			/* x is subnormal or not finite. */
-			const auto is_subnorm = cmp_gt<std::int32_t>(sub<std::int32_t>(ix, fill<Vi>(sub_off)), fill<Vi>(sub_max - 1));
+			/* x is subnormal or negative. */
+			const auto is_subnorm = cmp_gt<std::int32_t>(fill<Vi>(sub_off), ix);
 			if (test_mask(is_subnorm)) [[unlikely]] /* Avoid overflow in x * 2^23 */
 			{
 				/* Normalize x. */
@@ -108,13 +107,12 @@ namespace dpm
 		template<std::same_as<double> T, typename V, typename Vi = select_vector_t<std::int64_t, sizeof(V)>>
 		[[nodiscard]] DPM_FORCEINLINE Vi log_normalize(V x) noexcept
 		{
-			constexpr std::int32_t sub_max = 0x7fe0;
-			constexpr std::int32_t sub_off = 0x10;
+			constexpr std::int64_t sub_off = 0x10;
 			auto ix = std::bit_cast<Vi>(x);
 
-			/* x is subnormal, negative or not finite. */
+			/* x is subnormal. */
 			const auto top16 = bit_shiftr<std::int64_t, 48>(ix);
-			const auto is_subnorm = cmp_gt_l32<std::int64_t>(sub<std::int64_t>(top16, fill<Vi>(sub_off)), fill<Vi>(sub_max - 1));
+			const auto is_subnorm = cmp_gt_l32<std::int64_t>(fill<Vi>(sub_off), top16);
 			if (test_mask(is_subnorm)) [[unlikely]] /* Avoid overflow in x * 2^52 */
 			{
 				/* Normalize x. */
-- 
2.43.0


From 012edc65bfdd57f61b367c3cefde8160498a3845 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:06 +0000
Subject: [PATCH 46/73] fix: log1p of small operands loses the correction term

---
 dpm/detail/x86/log1p.cpp | 28 ++++++++++------------------
 1 file changed, 10 insertions(+), 18 deletions(-)

diff --git a/dpm/detail/x86/log1p.cpp b/dpm/detail/x86/log1p.cpp
index aa58153..8e100a7 100644
--- a/dpm/detail/x86/log1p.cpp
+++ b/dpm/detail/x86/log1p.cpp
@@ -11,13 +11,11 @@ namespace dpm::detail
 	/* log(1 + x) - log(u) ~= c / u; where u = 1 + x rounded, and c = (1 + x) - u.
 	 * As such, log(1 + x) ~= log(u) + c / u. When c == 0, log(1 + x) is exact.
 	 *
-	 * It is important to avoid underflow in c / u. As such,
-	 * when u is in range [sqrt(2) / 2, sqrt(2)), c == 0.
-	 * Otherwise, let k = (as_int(u) + 0x95f62 << 32) >> 52 - 0x3fd;
+	 * Let k = (as_int(u) + 0x95f62 << 32) >> 52 - 0x401;
 	 * if k < 52, c == 1 - (u - x) for k >= 0 and x - (u - 1) for k < 0.
 	 * Otherwise (for k >= 52), c == 0.
 	 *
-	 * For single-precision (32-bit) floats, k = (as_int(u) + 0x4afb0d) >> 23 - 0x7d,
+	 * For single-precision (32-bit) floats, k = (as_int(u) + 0x4afb0d) >> 23 - 0x81,
 	 * and k threshold is 23 instead of 52 (threshold is mantissa bits).
 	 *
 	 * Use eval_log to calculate log(u), as there is no need for
@@ -47,14 +45,11 @@ namespace dpm::detail
 	template<std::same_as<float> T, typename V, typename I = std::int32_t, typename Vi = select_vector_t<I, sizeof(V)>>
 	[[nodiscard]] DPM_FORCEINLINE V impl_log1p(V x) noexcept
 	{
-		const auto ix = std::bit_cast<Vi>(x);
 		const auto u = add<T>(x, fill<V>(1.0f));
 
-		/* sqrt(2) / 2 <= u < sqrt(2) */
-		const auto range_mask = cmp_gt<I>(fill<Vi>(0xbe95f61a), ix);
-		/* k = (as_int(u) + 0x4afb0d) >> 23 - 0x7d */
+		/* k = (as_int(u) + 0x4afb0d) >> 23 - 0x81 */
 		auto k = add<I>(std::bit_cast<Vi>(u), fill<Vi>(0x4afb0d));
-		k = sub<I>(bit_shiftr<I, 23>(k), fill<Vi>(0x7d));
+		k = sub<I>(bit_shiftr<I, 23>(k), fill<Vi>(0x81));
 
 		/* c = k < 0 ? x - (u - 1) : 1 - (u - x) */
 		const auto c_mask = cmp_gt<I>(setzero<Vi>(), k);
@@ -62,8 +57,8 @@ namespace dpm::detail
 		const auto c1 = sub<T>(x, sub<T>(u, fill<V>(1.0f)));
 		auto c = blendv<T>(c0, c1, std::bit_cast<V>(c_mask));
 
-		/* c = (k >= 23 || range_mask) ? 0 : c */
-		const auto exact_mask = bit_or(cmp_gt<I>(k, fill<Vi>(22)), range_mask);
+		/* c = k >= 23 ? 0 : c */
+		const auto exact_mask = cmp_gt<I>(k, fill<Vi>(22));
 		c = bit_andnot(std::bit_cast<V>(exact_mask), c);
 
 		/* log1p(x) ~= log(u) + c / u */
@@ -76,14 +71,11 @@ namespace dpm::detail
 	template<std::same_as<double> T, typename V, typename I = std::int64_t, typename Vi = select_vector_t<I, sizeof(V)>>
 	[[nodiscard]] DPM_FORCEINLINE V impl_log1p(V x) noexcept
 	{
-		const auto ix = std::bit_cast<Vi>(x);
 		const auto u = add<T>(x, fill<V>(1.0));
 
-		/* sqrt(2) / 2 <= u < sqrt(2) */
-		const auto range_mask = cmp_gt<I>(fill<Vi>(0xbfd2bec4ull), ix);
-		/* k = (as_int(u) + 0x4afb0d) >> 52 - 0x3fd */
+		/* k = (as_int(u) + 0x95f62 << 32) >> 52 - 0x401 */
 		auto k = add<I>(std::bit_cast<Vi>(u), fill<Vi>(0x95f62ull << 32));
-		k = sub<I>(bit_shiftr<I, 52>(k), fill<Vi>(0x3fdull));
+		k = sub<I>(bit_shiftr<I, 52>(k), fill<Vi>(0x401ull));
 
 		/* c = k < 0 ? x - (u - 1) : 1 - (u - x) */
 		const auto c_mask = cmp_gt<I>(setzero<Vi>(), k);
@@ -91,8 +83,8 @@ namespace dpm::detail
 		const auto c1 = sub<T>(x, sub<T>(u, fill<V>(1.0)));
 		auto c = blendv<T>(c0, c1, std::bit_cast<V>(c_mask));
 
-		/* c = (k >= 52 || range_mask) ? 0 : c */
-		const auto exact_mask = bit_or(cmp_gt<I>(k, fill<Vi>(51ull)), range_mask);
+		/* c = k >= 52 ? 0 : c */
+		const auto exact_mask = cmp_gt<I>(k, fill<Vi>(51ull));
 		c = bit_andnot(std::bit_cast<V>(exact_mask), c);
 
 		/* log1p(x) ~= log(u) + c / u */
-- 
2.43.0


From b7f5b8137c038b0d698585c94545999da7961150 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:36 +0000
Subject: [PATCH 47/73] fix: order of the coefficients of the tangent
 polynomial

---
 dpm/detail/fconst.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dpm/detail/fconst.hpp b/dpm/detail/fconst.hpp
index 4987658..b23cd25 100644
--- a/dpm/detail/fconst.hpp
+++ b/dpm/detail/fconst.hpp
@@ -93,7 +93,7 @@ namespace dpm::detail
 	};
 
 	template<std::floating_point T>
-	static constexpr T tancof[] = {T{1.0}, T{3.3333333332780246e-1}, T{1.3333333883976731e-1}, T{5.3966541627173827e-2}, T{2.2079624737833755e-2}};
+	static constexpr T tancof[] = {T{2.2079624737833755e-2}, T{5.3966541627173827e-2}, T{1.3333333883976731e-1}, T{3.3333333332780246e-1}, T{1.0}};
 
 	template<std::floating_point T>
 	static constexpr T asin_r[] = {T{2.967721961301243206100e-3}, T{-5.634242780008963776856e-1}, T{6.968710824104713396794e0}, T{-2.556901049652824852289e1}, T{2.853665548261061424989e1}};
-- 
2.43.0


From e8dbca157bd980e3b16b7a28605a5a97738d91a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:36 +0000
Subject: [PATCH 48/73] fix: single precision argument reduction of sin and cos

---
 dpm/detail/fconst.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dpm/detail/fconst.hpp b/dpm/detail/fconst.hpp
index b23cd25..b7739c9 100644
--- a/dpm/detail/fconst.hpp
+++ b/dpm/detail/fconst.hpp
@@ -78,6 +78,9 @@ namespace dpm::detail
 
 	template<std::floating_point T>
 	static constexpr T dp_sincos[] = {T{-7.85398125648498535156e-1}, T{-3.77489470793079817668e-8}, T{-2.69515142907905952645e-15}};
+	/* Products of float multiples must be exact without FMA. */
+	template<>
+	constexpr float dp_sincos<float>[] = {-0.78515625f, -2.4187564849853515625e-4f, -3.77489497744594108e-8f};
 
 	template<std::floating_point T>
 	static constexpr T sincof[] = {
-- 
2.43.0


From 056633690a450f59ee084d3113c5eb68eea743a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:54 +0000
Subject: [PATCH 49/73] fix: sin, cos and tan of operands whose octant does not
 fit the integer conversion

---
 dpm/detail/x86/sincos.cpp | 2 +-
 dpm/detail/x86/tan.cpp    | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/dpm/detail/x86/sincos.cpp b/dpm/detail/x86/sincos.cpp
index 861eff7..096b9db 100644
--- a/dpm/detail/x86/sincos.cpp
+++ b/dpm/detail/x86/sincos.cpp
@@ -25,7 +25,7 @@ namespace dpm::detail
 #endif
 
 		/* Check for over & underflow conditions. */
-		const auto oflow_mask = cvt_has_overflow<I>(abs_x);
+		const auto oflow_mask = cvt_has_overflow<I>(div<T>(abs_x, fill<V>(pio4<T>)));
 		/* Handle exceptional cases later. */
 		auto y = eval_sincos<T, Op>(sign_x, bit_andnot(oflow_mask, abs_x));
 
diff --git a/dpm/detail/x86/tan.cpp b/dpm/detail/x86/tan.cpp
index b2c05c8..dd58726 100644
--- a/dpm/detail/x86/tan.cpp
+++ b/dpm/detail/x86/tan.cpp
@@ -45,7 +45,7 @@ namespace dpm::detail
 		auto y = blendv<T>(p1, p2, p_mask);
 
 		/* Handle exceptional cases. */
-		if (const auto m = movemask<I>(cvt_has_overflow<I>(abs_x)); m) [[unlikely]]
+		if (const auto m = movemask<I>(cvt_has_overflow<I>(div<T>(abs_x, fill<V>(pio4<T>)))); m) [[unlikely]]
 		{
 			constexpr auto special = [](T &y, T x) { y = std::tan(x); };
 			mask_invoke<T, V, T &, T>(special, m, y, x);
-- 
2.43.0


From 842da34b5d0f375b3e2b78ed5f536bd35d28766e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:39 +0000
Subject: [PATCH 50/73] fix: reduce of 8 and 16-bit vectors is only noexcept if
 the operation is

---
 dpm/detail/x86/type.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dpm/detail/x86/type.hpp b/dpm/detail/x86/type.hpp
index 6a345f1..c1dde8a 100644
--- a/dpm/detail/x86/type.hpp
+++ b/dpm/detail/x86/type.hpp
@@ -1441,7 +1441,7 @@ namespace dpm
 #ifdef DPM_HAS_SSSE3
 	/** @copydoc reduce */
 	template<std::integral T, std::size_t N, std::size_t A, typename Op = std::plus<>> requires(detail::x86_overload_any<T, N, A> && sizeof(T) <= 2)
-	[[nodiscard]] constexpr DPM_FORCEINLINE T reduce(const detail::x86_simd<T, N, A> &x, Op op = {}) noexcept
+	[[nodiscard]] constexpr DPM_FORCEINLINE T reduce(const detail::x86_simd<T, N, A> &x, Op op = {}) noexcept(std::is_nothrow_invocable_v<Op, T, T>)
 	{
 		constexpr auto size = detail::x86_simd<T, N, A>::size();
 		const auto x_data = ext::to_native_data(x).data();
-- 
2.43.0


From ef703e9c6121e813ba065b5f6c65f6473e4ab971 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:27 +0000
Subject: [PATCH 51/73] fix: CPUID leaf 7 is read with an explicit sub-leaf

---
 dpm/detail/x86/cpuid.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dpm/detail/x86/cpuid.cpp b/dpm/detail/x86/cpuid.cpp
index 8b1a053..c37bb21 100644
--- a/dpm/detail/x86/cpuid.cpp
+++ b/dpm/detail/x86/cpuid.cpp
@@ -41,7 +41,7 @@ namespace dpm
 #if defined(_MSC_VER) || defined(__CYGWIN__)
 		static DPM_FORCEINLINE void platform_cpuid(std::uint32_t leaf, cpuid_regs &regs) noexcept
 		{
-			__cpuid(reinterpret_cast<int *>(regs), static_cast<int>(leaf));
+			__cpuidex(reinterpret_cast<int *>(regs), static_cast<int>(leaf), 0);
 		}
 		static DPM_FORCEINLINE std::uint32_t platrofm_xcr0() noexcept
 		{
@@ -52,7 +52,7 @@ namespace dpm
 		{
 			__asm("xchgq  %%rbx,%q1\n\tcpuid\n\txchgq  %%rbx,%q1"
 					: "=a"(regs[0]), "=r" (regs[1]), "=c"(regs[2]), "=d"(regs[3])
-					: "0"(leaf));
+					: "0"(leaf), "2"(0));
 		}
 		static std::uint32_t DPM_FORCEINLINE platrofm_xcr0() noexcept
 		{
-- 
2.43.0


From 1ba14c76d9e2c4f27b30fef5212d8a549ba3944e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:27 +0000
Subject: [PATCH 52/73] fix: F16C is only reported if the AVX state is enabled

---
 dpm/detail/x86/cpuid.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/dpm/detail/x86/cpuid.cpp b/dpm/detail/x86/cpuid.cpp
index c37bb21..3601aaa 100644
--- a/dpm/detail/x86/cpuid.cpp
+++ b/dpm/detail/x86/cpuid.cpp
@@ -122,6 +122,7 @@ namespace dpm
 				detail::mask_bit(m_flags_l1_ecx, avx_bit, avx_mask);
 				detail::mask_bit(m_flags_l7_ebx, avx2_bit, avx_mask);
 				detail::mask_bit(m_flags_l1_ecx, fma_bit, avx_mask);
+				detail::mask_bit(m_flags_l1_ecx, f16c_bit, avx_mask);
 
 #ifdef __APPLE__
 				const bool avx512_mask = get_sysctl("hw.optional.avx512f"sv);
-- 
2.43.0


From 9990a98b65d2d71463c64ce4952393d2b42e8008 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:27 +0000
Subject: [PATCH 53/73] fix: AVX and AVX512 are not reported if the OS does not
 enable XSAVE

---
 dpm/detail/x86/cpuid.cpp | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/dpm/detail/x86/cpuid.cpp b/dpm/detail/x86/cpuid.cpp
index 3601aaa..7a5d4b7 100644
--- a/dpm/detail/x86/cpuid.cpp
+++ b/dpm/detail/x86/cpuid.cpp
@@ -219,6 +219,17 @@ namespace dpm
 				detail::mask_bit(m_flags_l1_ecx, ssse3_bit, ssse3_mask);
 				detail::mask_bit(m_flags_l1_ecx, sse4_1_bit, sse4_1_mask);
 				detail::mask_bit(m_flags_l1_ecx, sse4_2_bit, sse4_2_mask);
+
+				/* Extended register state is only available through XSAVE. */
+				detail::mask_bit(m_flags_l1_ecx, avx_bit, false);
+				detail::mask_bit(m_flags_l7_ebx, avx2_bit, false);
+				detail::mask_bit(m_flags_l1_ecx, fma_bit, false);
+				detail::mask_bit(m_flags_l1_ecx, f16c_bit, false);
+				detail::mask_bit(m_flags_l7_ebx, avx512f_bit, false);
+				detail::mask_bit(m_flags_l7_ebx, avx512cd_bit, false);
+				detail::mask_bit(m_flags_l7_ebx, avx512bw_bit, false);
+				detail::mask_bit(m_flags_l7_ebx, avx512dq_bit, false);
+				detail::mask_bit(m_flags_l7_ebx, avx512vl_bit, false);
 			}
 		}
 
-- 
2.43.0


From 2e4040d45fe6dd62d315119cf78859f492ae08b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:11 +0000
Subject: [PATCH 54/73] fix: CPU flags are matched as whole words of the flags
 line, across reads of any size

---
 dpm/detail/x86/cpuid.cpp | 54 +++++++++++++++++++++++++++++-----------
 1 file changed, 40 insertions(+), 14 deletions(-)

diff --git a/dpm/detail/x86/cpuid.cpp b/dpm/detail/x86/cpuid.cpp
index 7a5d4b7..f8ee95b 100644
--- a/dpm/detail/x86/cpuid.cpp
+++ b/dpm/detail/x86/cpuid.cpp
@@ -9,6 +9,7 @@
 
 #if defined(__linux__) || defined(__ANDROID__) || defined(__FreeBSD__)
 
+#include <cerrno>
 #include <unistd.h>
 #include <fcntl.h>
 
@@ -155,25 +156,50 @@ namespace dpm
 #elif defined(__linux__) || defined(__ANDROID__)
 				if (const auto fd = open("/proc/cpuinfo", O_RDONLY); fd >= 0)
 				{
-					for (auto read_buff = std::string(4096, '\0');;)
+					/* Tokens may be split between reads. No token of interest is longer than the token buffer. */
+					char read_buff[512], token_buff[16];
+					std::size_t token_len = 0;
+					bool line_start = true, flags_line = false;
+
+					for (;;)
 					{
-						const auto n = read(fd, read_buff.data(), read_buff.size());
+						const auto n = read(fd, read_buff, sizeof(read_buff));
+						if (n < 0 && errno == EINTR) continue;
 						if (n <= 0) break;
 
-						const std::string_view sv = std::string_view{read_buff.data(), static_cast<std::size_t>(n)};
-						if (auto pos = sv.find("flags"sv); pos != std::string_view::npos)
+						for (const auto c: std::string_view{read_buff, static_cast<std::size_t>(n)})
 						{
-							pos = sv.find_first_not_of("\t :"sv, pos + 5);
-							if (pos == std::string_view::npos) continue;
-
-							sse_mask |= sv.find("sse"sv, pos) != std::string_view::npos;
-							sse2_mask |= sv.find("sse2"sv, pos) != std::string_view::npos;
-							sse3_mask |= sv.find("pni"sv, pos) != std::string_view::npos;
-							ssse3_mask |= sv.find("ssse3"sv, pos) != std::string_view::npos;
-							sse4_1_mask |= sv.find("sse4_1"sv, pos) != std::string_view::npos;
-							sse4_2_mask |= sv.find("sse4_2"sv, pos) != std::string_view::npos;
+							if (c != ' ' && c != '\t' && c != '\n' && c != ':')
+							{
+								if (token_len < sizeof(token_buff)) token_buff[token_len] = c;
+								++token_len;
+								continue;
+							}
+							if (token_len != 0)
+							{
+								const auto token = std::string_view{token_buff, token_len <= sizeof(token_buff) ? token_len : 0};
+								if (flags_line)
+								{
+									sse_mask |= token == "sse"sv;
+									sse2_mask |= token == "sse2"sv;
+									sse3_mask |= token == "pni"sv;
+									ssse3_mask |= token == "ssse3"sv;
+									sse4_1_mask |= token == "sse4_1"sv;
+									sse4_2_mask |= token == "sse4_2"sv;
+								}
+								else if (line_start)
+									flags_line = token == "flags"sv;
+								line_start = false;
+								token_len = 0;
+							}
+							if (c == '\n')
+							{
+								line_start = true;
+								flags_line = false;
+							}
+							else if (c == ':')
+								line_start = false;
 						}
-						if (sv.size() < read_buff.size()) break;
 					}
 					close(fd);
 				}
-- 
2.43.0


From 66568c5bd8c85c5cf208b2e045197312018767ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:27 +0000
Subject: [PATCH 55/73] fix: logical right shift by zero in generic vectors

---
 dpm/detail/generic/type.hpp | 16 +++-------------
 1 file changed, 3 insertions(+), 13 deletions(-)

diff --git a/dpm/detail/generic/type.hpp b/dpm/detail/generic/type.hpp
index 2c93797..321df52 100644
--- a/dpm/detail/generic/type.hpp
+++ b/dpm/detail/generic/type.hpp
@@ -623,21 +623,11 @@ namespace dpm
 			return reduce_impl(buff, binary_op);
 		}
 
-		template<std::size_t N, std::unsigned_integral T>
+		template<std::size_t N, std::integral T>
 		constexpr DPM_FORCEINLINE T lsr_impl(T x) noexcept
 		{
-			if constexpr (T{-1} >> N == T{-1})
-				return (x >> N) & (T{1} << (std::numeric_limits<T>::digits - 1));
-			else
-				return x >> N;
-		}
-		template<std::size_t N, std::signed_integral T>
-		constexpr DPM_FORCEINLINE T lsr_impl(T x) noexcept
-		{
-			if constexpr (T{-1} >> N == T{-1})
-				return lsr_impl<N>(static_cast<std::make_unsigned_t<T>>(x));
-			else
-				return x >> N;
+			/* Shifting an unsigned value never replicates the sign bit. */
+			return static_cast<T>(static_cast<std::make_unsigned_t<T>>(x) >> N);
 		}
 		template<std::size_t N, typename T>
 		constexpr DPM_FORCEINLINE T asr_impl(T x) noexcept
-- 
2.43.0


From 85226ff183d70ad0ef8099e04efeaf78f264ee45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:42 +0000
Subject: [PATCH 56/73] fix: integer arguments of remainder, remquo, fmax,
 fmin, fdim and lerp are promoted to floating point

---
 dpm/detail/generic/math.hpp | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/dpm/detail/generic/math.hpp b/dpm/detail/generic/math.hpp
index 2fb3a06..c0b56d7 100644
--- a/dpm/detail/generic/math.hpp
+++ b/dpm/detail/generic/math.hpp
@@ -48,7 +48,7 @@ namespace dpm
 		return {result.data(), vector_aligned};
 	}
 	/** Calculates IEEE remainder of elements in \a a divided by elements in vector \a b. */
-	template<typename T, typename Abi>
+	template<std::floating_point T, typename Abi>
 	[[nodiscard]] constexpr simd<T, Abi> remainder(const simd<T, Abi> &a, const simd<T, Abi> &b) noexcept
 	{
 		alignas(simd<T, Abi>) std::array<T, simd_size_v<T, Abi>> result = {};
@@ -58,7 +58,7 @@ namespace dpm
 	}
 	/** Calculates IEEE remainder of elements in \a a divided by elements in vector \a b, and stores the sign and
 	 * at least 3 last bits of the division result in elements of \a out_quo. */
-	template<typename T, typename Abi, typename QAbi>
+	template<std::floating_point T, typename Abi, typename QAbi>
 	[[nodiscard]] constexpr simd<T, Abi> remquo(const simd<T, Abi> &a, const simd<T, Abi> &b, simd<int, QAbi> *out_quo) noexcept
 	{
 		alignas(simd<int, Abi>) std::array<int, simd_size_v<int, Abi>> quo = {};
@@ -71,7 +71,7 @@ namespace dpm
 	}
 	/** Calculates the maximum of elements in \a a and \a b, respecting the NaN propagation
 	 * as specified in IEC 60559 (ordered values are always selected over unordered). */
-	template<typename T, typename Abi>
+	template<std::floating_point T, typename Abi>
 	[[nodiscard]] constexpr simd<T, Abi> fmax(const simd<T, Abi> &a, const simd<T, Abi> &b) noexcept
 	{
 		alignas(simd<T, Abi>) std::array<T, simd_size_v<T, Abi>> result = {};
@@ -81,7 +81,7 @@ namespace dpm
 	}
 	/** Calculates the minimum of elements in \a a and \a b, respecting the NaN propagation
 	 * as specified in IEC 60559 (ordered values are always selected over unordered). */
-	template<typename T, typename Abi>
+	template<std::floating_point T, typename Abi>
 	[[nodiscard]] constexpr simd<T, Abi> fmin(const simd<T, Abi> &a, const simd<T, Abi> &b) noexcept
 	{
 		alignas(simd<T, Abi>) std::array<T, simd_size_v<T, Abi>> result = {};
@@ -90,7 +90,7 @@ namespace dpm
 		return {result.data(), vector_aligned};
 	}
 	/** Returns the positive difference between elements of vectors \a a and \a b. Equivalent to `max(simd<T, Abi>{0}, a - b)`. */
-	template<typename T, typename Abi>
+	template<std::floating_point T, typename Abi>
 	[[nodiscard]] constexpr simd<T, Abi> fdim(const simd<T, Abi> &a, const simd<T, Abi> &b) noexcept
 	{
 		alignas(simd<T, Abi>) std::array<T, simd_size_v<T, Abi>> result = {};
@@ -99,7 +99,7 @@ namespace dpm
 		return {result.data(), vector_aligned};
 	}
 	/** Preforms linear interpolation or extrapolation between elements of vectors \a a and \a b using factor \a f */
-	template<typename T, typename Abi>
+	template<std::floating_point T, typename Abi>
 	[[nodiscard]] constexpr simd<T, Abi> lerp(const simd<T, Abi> &a, const simd<T, Abi> &b, const simd<T, Abi> &f) noexcept
 	{
 		alignas(simd<T, Abi>) std::array<T, simd_size_v<T, Abi>> result = {};
@@ -185,7 +185,7 @@ namespace dpm
 	}
 	/** Calculates the maximum of elements in \a a and scalar \a b, respecting the NaN propagation
 	 * as specified in IEC 60559 (ordered values are always selected over unordered). */
-	template<typename T, typename Abi>
+	template<std::floating_point T, typename Abi>
 	[[nodiscard]] constexpr simd<T, Abi> fmax(const simd<T, Abi> &a, T b) noexcept
 	{
 		alignas(simd<T, Abi>) std::array<T, simd_size_v<T, Abi>> result = {};
@@ -195,7 +195,7 @@ namespace dpm
 	}
 	/** Calculates the minimum of elements in \a a and scalar \a b, respecting the NaN propagation
 	 * as specified in IEC 60559 (ordered values are always selected over unordered). */
-	template<typename T, typename Abi>
+	template<std::floating_point T, typename Abi>
 	[[nodiscard]] constexpr simd<T, Abi> fmin(const simd<T, Abi> &a, T b) noexcept
 	{
 		alignas(simd<T, Abi>) std::array<T, simd_size_v<T, Abi>> result = {};
@@ -204,7 +204,7 @@ namespace dpm
 		return {result.data(), vector_aligned};
 	}
 	/** Returns the positive difference between elements of vector \a a and scalar \a b. Equivalent to `max(simd<T, Abi>{0}, a - b)`. */
-	template<typename T, typename Abi>
+	template<std::floating_point T, typename Abi>
 	[[nodiscard]] constexpr simd<T, Abi> fdim(const simd<T, Abi> &a, T b) noexcept
 	{
 		alignas(simd<T, Abi>) std::array<T, simd_size_v<T, Abi>> result = {};
@@ -213,7 +213,7 @@ namespace dpm
 		return {result.data(), vector_aligned};
 	}
 	/** Preforms linear interpolation or extrapolation between elements of vectors \a a and \a b using scalar factor \a f */
-	template<typename T, typename Abi>
+	template<std::floating_point T, typename Abi>
 	[[nodiscard]] constexpr simd<T, Abi> lerp(const simd<T, Abi> &a, const simd<T, Abi> &b, T f) noexcept
 	{
 		alignas(simd<T, Abi>) std::array<T, simd_size_v<T, Abi>> result = {};
-- 
2.43.0


From 947beeffcaecf77054a3feb7ecbf88ba9b465615 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:09 +0000
Subject: [PATCH 57/73] fix: abs of generic vectors returns a vector

---
 dpm/detail/generic/math.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dpm/detail/generic/math.hpp b/dpm/detail/generic/math.hpp
index c0b56d7..9d9a332 100644
--- a/dpm/detail/generic/math.hpp
+++ b/dpm/detail/generic/math.hpp
@@ -32,7 +32,7 @@ namespace dpm
 		alignas(simd<T, Abi>) std::array<T, simd_size_v<T, Abi>> result = {};
 		for (std::size_t i = 0; i < simd<T, Abi>::size(); ++i)
 			result[i] = std::abs(x[i]);
-		return result;
+		return {result.data(), vector_aligned};
 	}
 	/** @copydoc abs */
 	template<std::floating_point T, typename Abi>
-- 
2.43.0


From dc2e75d101d222a229474c7cf3d6479344d61e79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:09 +0000
Subject: [PATCH 58/73] fix: lrint of generic vectors can be instantiated

---
 dpm/detail/generic/math.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dpm/detail/generic/math.hpp b/dpm/detail/generic/math.hpp
index 9d9a332..f8ea616 100644
--- a/dpm/detail/generic/math.hpp
+++ b/dpm/detail/generic/math.hpp
@@ -913,7 +913,7 @@ namespace dpm
 	template<std::floating_point T, typename Abi>
 	[[nodiscard]] constexpr rebind_simd_t<long, simd<T, Abi>> lrint(const simd<T, Abi> &x) noexcept
 	{
-		rebind_simd_t<long, simd<T, Abi>> result = {};
+		alignas(simd<long, Abi>) std::array<long, simd_size_v<long, Abi>> result = {};
 		for (std::size_t i = 0; i < simd<T, Abi>::size(); ++i)
 			result[i] = std::lrint(x[i]);
 		return {result.data(), vector_aligned};
-- 
2.43.0


From 529acc7eb00c7aef9c19b50942d4381422d2486f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:09 +0000
Subject: [PATCH 59/73] fix: fmax and fmin of x86 vectors select the ordered
 value, fmin accepts a scalar

---
 dpm/detail/generic/math.hpp | 2 +-
 dpm/detail/x86/mbase.hpp    | 8 ++++----
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/dpm/detail/generic/math.hpp b/dpm/detail/generic/math.hpp
index f8ea616..c18a846 100644
--- a/dpm/detail/generic/math.hpp
+++ b/dpm/detail/generic/math.hpp
@@ -200,7 +200,7 @@ namespace dpm
 	{
 		alignas(simd<T, Abi>) std::array<T, simd_size_v<T, Abi>> result = {};
 		for (std::size_t i = 0; i < simd<T, Abi>::size(); ++i)
-			result[i] = std::fmin(a[i], b[i]);
+			result[i] = std::fmin(a[i], b);
 		return {result.data(), vector_aligned};
 	}
 	/** Returns the positive difference between elements of vector \a a and scalar \a b. Equivalent to `max(simd<T, Abi>{0}, a - b)`. */
diff --git a/dpm/detail/x86/mbase.hpp b/dpm/detail/x86/mbase.hpp
index 460cffb..0d554fc 100644
--- a/dpm/detail/x86/mbase.hpp
+++ b/dpm/detail/x86/mbase.hpp
@@ -308,7 +308,7 @@ namespace dpm
 		else
 		{
 			detail::x86_simd<T, N, A> result = {};
-			detail::vectorize([](auto &res, auto a, auto b) { res = detail::blendv<T>(detail::max<T>(a, b), b, detail::isunord(a)); }, result, a, b);
+			detail::vectorize([](auto &res, auto a, auto b) { res = detail::blendv<T>(detail::max<T>(b, a), b, detail::isunord(a, a)); }, result, a, b);
 			return result;
 		}
 	}
@@ -326,7 +326,7 @@ namespace dpm
 		else
 		{
 			detail::x86_simd<T, N, A> result = {};
-			detail::vectorize([](auto &res, auto a, auto b) { res = detail::blendv<T>(detail::min<T>(a, b), b, detail::isunord(a)); }, result, a, b);
+			detail::vectorize([](auto &res, auto a, auto b) { res = detail::blendv<T>(detail::min<T>(b, a), b, detail::isunord(a, a)); }, result, a, b);
 			return result;
 		}
 	}
@@ -362,7 +362,7 @@ namespace dpm
 		{
 			detail::x86_simd<T, N, A> result = {};
 			const auto b_vec = detail::fill<ext::native_data_type_t<detail::x86_simd<T, N, A>>>(b);
-			detail::vectorize([b = b_vec](auto &res, auto a) { res = detail::blendv<T>(detail::max<T>(a, b), b, detail::isunord(a)); }, result, a);
+			detail::vectorize([b = b_vec](auto &res, auto a) { res = detail::blendv<T>(detail::max<T>(b, a), b, detail::isunord(a, a)); }, result, a);
 			return result;
 		}
 	}
@@ -380,7 +380,7 @@ namespace dpm
 		{
 			detail::x86_simd<T, N, A> result = {};
 			const auto b_vec = detail::fill<ext::native_data_type_t<detail::x86_simd<T, N, A>>>(b);
-			detail::vectorize([b = b_vec](auto &res, auto a) { res = detail::blendv<T>(detail::min<T>(a, b), b, detail::isunord(a)); }, result, a);
+			detail::vectorize([b = b_vec](auto &res, auto a) { res = detail::blendv<T>(detail::min<T>(b, a), b, detail::isunord(a, a)); }, result, a);
 			return result;
 		}
 	}
-- 
2.43.0


From a660eb6592ab56696f872fca53c16afc66ab1351 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:09 +0000
Subject: [PATCH 60/73] fix: lerp of x86 vectors can be instantiated

---
 dpm/detail/x86/mbase.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dpm/detail/x86/mbase.hpp b/dpm/detail/x86/mbase.hpp
index 0d554fc..abae183 100644
--- a/dpm/detail/x86/mbase.hpp
+++ b/dpm/detail/x86/mbase.hpp
@@ -411,7 +411,7 @@ namespace dpm
 			const auto packed_a = static_cast<simd<T, simd_abi::ext::packed_buffer<N>>>(a);
 			const auto packed_b = static_cast<simd<T, simd_abi::ext::packed_buffer<N>>>(b);
 			const auto packed_f = static_cast<simd<T, simd_abi::ext::packed_buffer<N>>>(f);
-			return static_cast<detail::x86_simd<T, N, A>>(fmax(packed_a, packed_b, packed_f));
+			return static_cast<detail::x86_simd<T, N, A>>(lerp(packed_a, packed_b, packed_f));
 		}
 		else
 		{
@@ -428,7 +428,7 @@ namespace dpm
 		{
 			const auto packed_a = static_cast<simd<T, simd_abi::ext::packed_buffer<N>>>(a);
 			const auto packed_b = static_cast<simd<T, simd_abi::ext::packed_buffer<N>>>(b);
-			return static_cast<detail::x86_simd<T, N, A>>(fmax(packed_a, packed_b, f));
+			return static_cast<detail::x86_simd<T, N, A>>(lerp(packed_a, packed_b, f));
 		}
 		else
 		{
-- 
2.43.0


From 0a70af9ff742056d019e77d038af3ce4bcff1813 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:09 +0000
Subject: [PATCH 61/73] fix: increment and decrement of vectors with an element
 type other than int

---
 dpm/detail/generic/type.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dpm/detail/generic/type.hpp b/dpm/detail/generic/type.hpp
index 321df52..edd762a 100644
--- a/dpm/detail/generic/type.hpp
+++ b/dpm/detail/generic/type.hpp
@@ -714,10 +714,10 @@ namespace dpm
 	}
 	/** Increments elements of vector \a x, and returns reference to it. */
 	template<typename T, typename Abi>
-	[[nodiscard]] constexpr simd<T, Abi> &operator++(simd<T, Abi> &x) noexcept requires(requires(T v){ ++v; }) { return x = x + 1; }
+	[[nodiscard]] constexpr simd<T, Abi> &operator++(simd<T, Abi> &x) noexcept requires(requires(T v){ ++v; }) { return x = x + static_cast<T>(1); }
 	/** Decrements elements of vector \a x. */
 	template<typename T, typename Abi>
-	[[nodiscard]] constexpr simd<T, Abi> &operator--(simd<T, Abi> &x) noexcept requires(requires(T v){ --v; }) { return x = x - 1; }
+	[[nodiscard]] constexpr simd<T, Abi> &operator--(simd<T, Abi> &x) noexcept requires(requires(T v){ --v; }) { return x = x - static_cast<T>(1); }
 
 	/** Adds elements of vector \a b to elements of vector \a a. */
 	template<typename T, typename Abi>
-- 
2.43.0


From 4766068c76e70ff0197d3e035353fa0c200a4467 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:09 +0000
Subject: [PATCH 62/73] fix: maskblend of 64-bit elements returns the blended
 vector type

---
 dpm/detail/x86/transform.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dpm/detail/x86/transform.hpp b/dpm/detail/x86/transform.hpp
index 2972f85..d8c0ea8 100644
--- a/dpm/detail/x86/transform.hpp
+++ b/dpm/detail/x86/transform.hpp
@@ -207,7 +207,7 @@ namespace dpm::detail
 			return std::bit_cast<V>(_mm_or_pd(_mm_andnot_pd(vm, va), _mm_and_pd(vm, vb)));
 #endif
 		}
-		return va;
+		return a;
 	}
 
 	template<integral_of_size<1> T>
-- 
2.43.0


From 284482d80570317cbe463106cc67794c8b831104 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:09 +0000
Subject: [PATCH 63/73] fix: reductions of 256-bit vectors of 8- and 16-bit
 integers

---
 dpm/detail/x86/transform.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/dpm/detail/x86/transform.hpp b/dpm/detail/x86/transform.hpp
index d8c0ea8..82081ab 100644
--- a/dpm/detail/x86/transform.hpp
+++ b/dpm/detail/x86/transform.hpp
@@ -571,6 +571,11 @@ namespace dpm::detail
 		return _mm256_blendv_epi8(a, b, m);
 	}
 
+	template<std::integral T, typename Op>
+	[[nodiscard]] DPM_FORCEINLINE T reduce(__m256i v, Op op) noexcept requires(sizeof(T) <= 2)
+	{
+		return reduce<T>(op(_mm256_castsi256_si128(v), _mm256_extracti128_si256(v, 1)), op);
+	}
 	template<integral_of_size<4> T, typename Op>
 	[[nodiscard]] DPM_FORCEINLINE T reduce(__m256i v, Op op) noexcept
 	{
-- 
2.43.0


From 9b9df2f794ea1a2716fe8df33f1896dcb926b590 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:09 +0000
Subject: [PATCH 64/73] fix: reduce_min and reduce_max convert the vector, not
 a mask

---
 dpm/detail/x86/type.hpp | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/dpm/detail/x86/type.hpp b/dpm/detail/x86/type.hpp
index c1dde8a..12f4eee 100644
--- a/dpm/detail/x86/type.hpp
+++ b/dpm/detail/x86/type.hpp
@@ -1468,7 +1468,7 @@ namespace dpm
 	[[nodiscard]] constexpr DPM_FORCEINLINE T reduce_min(const detail::x86_simd<T, N, A> &x) noexcept
 	{
 		if (std::is_constant_evaluated())
-			return reduce_min(static_cast<simd_mask<T, simd_abi::ext::packed_buffer<N>>>(x));
+			return reduce_min(static_cast<simd<T, simd_abi::ext::packed_buffer<N>>>(x));
 		else
 			return detail::reduce_min<T, N>(ext::to_native_data(x).data());
 	}
@@ -1477,7 +1477,7 @@ namespace dpm
 	[[nodiscard]] constexpr DPM_FORCEINLINE T reduce_max(const detail::x86_simd<T, N, A> &x) noexcept
 	{
 		if (std::is_constant_evaluated())
-			return reduce_max(static_cast<simd_mask<T, simd_abi::ext::packed_buffer<N>>>(x));
+			return reduce_max(static_cast<simd<T, simd_abi::ext::packed_buffer<N>>>(x));
 		else
 			return detail::reduce_max<T, N>(ext::to_native_data(x).data());
 	}
@@ -1487,7 +1487,7 @@ namespace dpm
 	[[nodiscard]] constexpr DPM_FORCEINLINE T reduce_min(const detail::x86_simd<T, N, A> &x) noexcept
 	{
 		if (std::is_constant_evaluated())
-			return reduce_min(static_cast<simd_mask<T, simd_abi::ext::packed_buffer<N>>>(x));
+			return reduce_min(static_cast<simd<T, simd_abi::ext::packed_buffer<N>>>(x));
 		else
 			return detail::reduce_min<T, N>(ext::to_native_data(x).data());
 	}
@@ -1496,7 +1496,7 @@ namespace dpm
 	[[nodiscard]] constexpr DPM_FORCEINLINE T reduce_max(const detail::x86_simd<T, N, A> &x) noexcept
 	{
 		if (std::is_constant_evaluated())
-			return reduce_max(static_cast<simd_mask<T, simd_abi::ext::packed_buffer<N>>>(x));
+			return reduce_max(static_cast<simd<T, simd_abi::ext::packed_buffer<N>>>(x));
 		else
 			return detail::reduce_max<T, N>(ext::to_native_data(x).data());
 	}
@@ -1506,7 +1506,7 @@ namespace dpm
 	[[nodiscard]] constexpr DPM_FORCEINLINE T reduce_min(const detail::x86_simd<T, N, A> &x) noexcept
 	{
 		if (std::is_constant_evaluated())
-			return reduce_min(static_cast<simd_mask<T, simd_abi::ext::packed_buffer<N>>>(x));
+			return reduce_min(static_cast<simd<T, simd_abi::ext::packed_buffer<N>>>(x));
 		else
 			return detail::reduce_min<T, N>(ext::to_native_data(x).data());
 	}
@@ -1515,7 +1515,7 @@ namespace dpm
 	[[nodiscard]] constexpr DPM_FORCEINLINE T reduce_max(const detail::x86_simd<T, N, A> &x) noexcept
 	{
 		if (std::is_constant_evaluated())
-			return reduce_max(static_cast<simd_mask<T, simd_abi::ext::packed_buffer<N>>>(x));
+			return reduce_max(static_cast<simd<T, simd_abi::ext::packed_buffer<N>>>(x));
 		else
 			return detail::reduce_max<T, N>(ext::to_native_data(x).data());
 	}
@@ -1524,7 +1524,7 @@ namespace dpm
 	[[nodiscard]] constexpr DPM_FORCEINLINE T reduce_min(const detail::x86_simd<T, N, A> &x) noexcept
 	{
 		if (std::is_constant_evaluated())
-			return reduce_min(static_cast<simd_mask<T, simd_abi::ext::packed_buffer<N>>>(x));
+			return reduce_min(static_cast<simd<T, simd_abi::ext::packed_buffer<N>>>(x));
 		else
 			return detail::reduce_min<T, N>(ext::to_native_data(x).data());
 	}
@@ -1533,7 +1533,7 @@ namespace dpm
 	[[nodiscard]] constexpr DPM_FORCEINLINE T reduce_max(const detail::x86_simd<T, N, A> &x) noexcept
 	{
 		if (std::is_constant_evaluated())
-			return reduce_max(static_cast<simd_mask<T, simd_abi::ext::packed_buffer<N>>>(x));
+			return reduce_max(static_cast<simd<T, simd_abi::ext::packed_buffer<N>>>(x));
 		else
 			return detail::reduce_max<T, N>(ext::to_native_data(x).data());
 	}
@@ -1544,7 +1544,7 @@ namespace dpm
 	[[nodiscard]] constexpr DPM_FORCEINLINE T reduce_min(const detail::x86_simd<T, N, A> &x) noexcept
 	{
 		if (std::is_constant_evaluated())
-			return reduce_min(static_cast<simd_mask<T, simd_abi::ext::packed_buffer<N>>>(x));
+			return reduce_min(static_cast<simd<T, simd_abi::ext::packed_buffer<N>>>(x));
 		else
 			return detail::reduce_min<T, N>(ext::to_native_data(x).data());
 	}
@@ -1553,7 +1553,7 @@ namespace dpm
 	[[nodiscard]] constexpr DPM_FORCEINLINE T reduce_max(const detail::x86_simd<T, N, A> &x) noexcept
 	{
 		if (std::is_constant_evaluated())
-			return reduce_max(static_cast<simd_mask<T, simd_abi::ext::packed_buffer<N>>>(x));
+			return reduce_max(static_cast<simd<T, simd_abi::ext::packed_buffer<N>>>(x));
 		else
 			return detail::reduce_max<T, N>(ext::to_native_data(x).data());
 	}
-- 
2.43.0


From 99d180cdb7e11cc4b2e17dfa4265ad52f13309b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:09 +0000
Subject: [PATCH 65/73] fix: none_of of x86 masks does not claim masks of other
 representations

---
 dpm/detail/x86/type.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dpm/detail/x86/type.hpp b/dpm/detail/x86/type.hpp
index 12f4eee..9993817 100644
--- a/dpm/detail/x86/type.hpp
+++ b/dpm/detail/x86/type.hpp
@@ -428,7 +428,7 @@ namespace dpm
 		}
 	}
 	/** Returns `true` if at none of the elements of the \a mask is `true`. Otherwise returns `false`. */
-	template<typename T, std::size_t N, std::size_t A>
+	template<typename T, std::size_t N, std::size_t A> requires detail::x86_overload_any<T, N, A>
 	[[nodiscard]] constexpr DPM_FORCEINLINE bool none_of(const detail::x86_mask<T, N, A> &mask) noexcept
 	{
 		if (std::is_constant_evaluated())
-- 
2.43.0


From 3b2399899e9f2086f14e6b37a9152321ed97abf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:09 +0000
Subject: [PATCH 66/73] fix: min and max of 256-bit integer vectors without
 AVX2

---
 dpm/detail/x86/minmax.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/dpm/detail/x86/minmax.hpp b/dpm/detail/x86/minmax.hpp
index 2faa4ad..a8d5638 100644
--- a/dpm/detail/x86/minmax.hpp
+++ b/dpm/detail/x86/minmax.hpp
@@ -84,6 +84,11 @@ namespace dpm::detail
 	[[nodiscard]] DPM_FORCEINLINE __m256i min(__m256i a, __m256i b) noexcept { return _mm256_min_epu32(a, b); }
 	template<unsigned_integral_of_size<4> T>
 	[[nodiscard]] DPM_FORCEINLINE __m256i max(__m256i a, __m256i b) noexcept { return _mm256_max_epu32(a, b); }
+#elif defined(DPM_HAS_AVX)
+	template<std::integral T>
+	[[nodiscard]] DPM_FORCEINLINE __m256i min(__m256i a, __m256i b) noexcept { return mux_128x2<__m256i>([](auto a, auto b) { return min<T>(a, b); }, a, b); }
+	template<std::integral T>
+	[[nodiscard]] DPM_FORCEINLINE __m256i max(__m256i a, __m256i b) noexcept { return mux_128x2<__m256i>([](auto a, auto b) { return max<T>(a, b); }, a, b); }
 #endif
 
 #if defined(DPM_HAS_AVX512F) && defined(DPM_HAS_AVX512LV)
-- 
2.43.0


From 1e8f47343dbcf163e0431bc71dc9c08ef02f1f6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:18 +0000
Subject: [PATCH 67/73] fix: abs of integer vectors without a native
 instruction

---
 dpm/detail/x86/mbase.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dpm/detail/x86/mbase.hpp b/dpm/detail/x86/mbase.hpp
index abae183..cffb680 100644
--- a/dpm/detail/x86/mbase.hpp
+++ b/dpm/detail/x86/mbase.hpp
@@ -127,7 +127,8 @@ namespace dpm
 		template<std::integral T, typename V>
 		[[nodiscard]] DPM_FORCEINLINE V abs(V x) noexcept
 		{
-			const auto t = bit_shiftr<T, std::numeric_limits<T>::digits - 1>(x);
+			/* Negate the elements below 0. */
+			const auto t = cmp_gt<T>(setzero<V>(), x);
 			return sub<T>(bit_xor(x, t), t);
 		}
 
-- 
2.43.0


From 16ee995d9daea2ba11f607c47072fe685795cc97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:51 +0000
Subject: [PATCH 68/73] fix: reduce_min and reduce_max of vectors of infinities

---
 dpm/detail/x86/type.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dpm/detail/x86/type.hpp b/dpm/detail/x86/type.hpp
index 9993817..1171208 100644
--- a/dpm/detail/x86/type.hpp
+++ b/dpm/detail/x86/type.hpp
@@ -1371,9 +1371,9 @@ namespace dpm
 		template<typename T, std::size_t N, typename V>
 		[[nodiscard]] DPM_FORCEINLINE T reduce_mul(const V *data) noexcept { return reduce<T, N>(data, fill<V>(T{1}), [](auto a, auto b) { return mul<T>(a, b); }); }
 		template<typename T, std::size_t N, typename V>
-		[[nodiscard]] DPM_FORCEINLINE T reduce_min(const V *data) noexcept { return reduce<T, N>(data, fill<V>(std::numeric_limits<T>::max()), [](auto a, auto b) { return min<T>(a, b); }); }
+		[[nodiscard]] DPM_FORCEINLINE T reduce_min(const V *data) noexcept { return reduce<T, N>(data, fill<V>(static_cast<T>(std::numeric_limits<T>::has_infinity ? std::numeric_limits<T>::infinity() : std::numeric_limits<T>::max())), [](auto a, auto b) { return min<T>(a, b); }); }
 		template<typename T, std::size_t N, typename V>
-		[[nodiscard]] DPM_FORCEINLINE T reduce_max(const V *data) noexcept { return reduce<T, N>(data, fill<V>(std::numeric_limits<T>::lowest()), [](auto a, auto b) { return max<T>(a, b); }); }
+		[[nodiscard]] DPM_FORCEINLINE T reduce_max(const V *data) noexcept { return reduce<T, N>(data, fill<V>(static_cast<T>(std::numeric_limits<T>::has_infinity ? -std::numeric_limits<T>::infinity() : std::numeric_limits<T>::lowest())), [](auto a, auto b) { return max<T>(a, b); }); }
 
 #ifdef DPM_HAS_SSE2
 		template<typename T, std::size_t N, typename V>
-- 
2.43.0


From 82a692b831c7e6a6d4b16392b44e53d8074998c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:18 +0000
Subject: [PATCH 69/73] fix: hypot of doubles below 2^-1042 is not the sum of
 the operands

---
 dpm/detail/x86/hypot.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dpm/detail/x86/hypot.cpp b/dpm/detail/x86/hypot.cpp
index bfd5933..3f57d52 100644
--- a/dpm/detail/x86/hypot.cpp
+++ b/dpm/detail/x86/hypot.cpp
@@ -83,6 +83,7 @@ namespace dpm::detail
 
 		/* Ensure that |a| >= |b| */
 		auto [ia, ib] = prepare_hypot<T>(a, b);
+		const auto zero_mask = std::bit_cast<V>(cmp_eq<std::int64_t>(ib, setzero<Vi>()));
 
 		/* Comparisons will be preformed using top 32 bits. */
 		ia = bit_shiftr<std::int64_t, 32>(ia);
@@ -101,7 +102,7 @@ namespace dpm::detail
 		/* hypot(a, b) ~= a + b * b / a / 2 for small a & b */
 		constexpr std::int64_t hypot_small = (65ull << 20) - 1;
 		auto ab_small = std::bit_cast<V>(cmp_gt_l32<std::int64_t>(sub<std::int64_t>(ia, ib), fill<Vi>(hypot_small)));
-		ab_small = bit_or(std::bit_cast<V>(cmp_eq<std::int64_t>(ia, setzero<Vi>())), ab_small);
+		ab_small = bit_or(zero_mask, ab_small);
 
 		/* Evaluate result without overflow. Bitwise-and with ~ab_small to ensure no fp exceptions are triggered.  */
 		const auto [hx, lx] = split(bit_andnot(ab_small, mul<T>(a, ab_mult)));
-- 
2.43.0


From 8e06772f0471a13999bd7e8908e4795a6ee57d77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:51:47 +0000
Subject: [PATCH 70/73] fix: rounding to 64-bit integers did not compile with
 AVX512DQ

---
 dpm/detail/x86/round.hpp | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/dpm/detail/x86/round.hpp b/dpm/detail/x86/round.hpp
index a1fa4ed..8f9ea46 100644
--- a/dpm/detail/x86/round.hpp
+++ b/dpm/detail/x86/round.hpp
@@ -145,16 +145,16 @@ namespace dpm
 		DPM_FORCEINLINE void round(__m128 x, __m128i *dst) noexcept
 		{
 #if defined(DPM_HAS_AVX512DQ) && defined(DPM_HAS_AVX512VL)
-			auto ih = _mm_cvttps_epi64(_mm_movehl_ps(x, x));
-			auto il = _mm_cvttps_epi64(x);
+			const auto ih = _mm_cvttps_epi64(_mm_movehl_ps(x, x));
+			const auto il = _mm_cvttps_epi64(x);
 			const auto th = _mm_cvtepi64_ps(ih);
 			const auto tl = _mm_cvtepi64_ps(il);
 			const auto tx = _mm_movelh_ps(tl, th);
 
 			const auto near2 = _mm_set1_ps(2.0f);
 			const auto rem = _mm_mul_ps(_mm_sub_ps(x, tx), near2);
-			dst[1] = _mm_add_epi64(th, _mm_cvttps_epi64(_mm_movehl_ps(rem, rem)));
-			dst[0] = _mm_add_epi64(tl, _mm_cvttps_epi64(rem));
+			dst[1] = _mm_add_epi64(ih, _mm_cvttps_epi64(_mm_movehl_ps(rem, rem)));
+			dst[0] = _mm_add_epi64(il, _mm_cvttps_epi64(rem));
 #else
 			__m128 tmp;
 			round<float>(x, &tmp);
@@ -329,7 +329,7 @@ namespace dpm
 		{
 #if defined(DPM_HAS_AVX512DQ) && defined(DPM_HAS_AVX512VL)
 			dst[1] = _mm256_cvttps_epi64(_mm256_extractf128_ps(x, 1));
-			dst[0] = _mm256_cvttps_epi64(x);
+			dst[0] = _mm256_cvttps_epi64(_mm256_castps256_ps128(x));
 #else
 			integral_to_i64<T>(x, dst);
 #endif
@@ -362,15 +362,15 @@ namespace dpm
 		{
 #if defined(DPM_HAS_AVX512DQ) && defined(DPM_HAS_AVX512VL)
 			const auto ih = _mm256_cvttps_epi64(_mm256_extractf128_ps(x, 1));
-			const auto il = _mm256_cvttps_epi64(x);
+			const auto il = _mm256_cvttps_epi64(_mm256_castps256_ps128(x));
 			const auto th = _mm256_cvtepi64_ps(ih);
 			const auto tl = _mm256_cvtepi64_ps(il);
-			const auto tx = _mm256_permute2f128_ps(tl, th, 0x20);
+			const auto tx = _mm256_set_m128(th, tl);
 
 			const auto near2 = _mm256_set1_ps(2.0f);
 			const auto rem = _mm256_mul_ps(_mm256_sub_ps(x, tx), near2);
-			dst[1] = _mm256_add_epi64(th, _mm256_cvttps_epi64(_mm256_permute2f128_ps(rem, rem, 0x11)));
-			dst[0] = _mm256_add_epi64(tl, _mm256_cvttps_epi64(rem));
+			dst[1] = _mm256_add_epi64(ih, _mm256_cvttps_epi64(_mm256_extractf128_ps(rem, 1)));
+			dst[0] = _mm256_add_epi64(il, _mm256_cvttps_epi64(_mm256_castps256_ps128(rem)));
 #else
 			__m256 tmp;
 			round<float>(x, &tmp);
-- 
2.43.0


From e4f51fa83ae9155595021b83feaba2a6b6f56b4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:42:02 +0000
Subject: [PATCH 71/73] fix: rounding lost or invented the sign of zero

---
 dpm/detail/x86/round.hpp | 47 ++++++++++++++++++++++++++++++----------
 1 file changed, 35 insertions(+), 12 deletions(-)

diff --git a/dpm/detail/x86/round.hpp b/dpm/detail/x86/round.hpp
index 8f9ea46..2f7e44a 100644
--- a/dpm/detail/x86/round.hpp
+++ b/dpm/detail/x86/round.hpp
@@ -20,6 +20,18 @@ namespace dpm
 {
 	namespace detail
 	{
+		/* The result of rounding has the sign of the argument, in every rounding mode & even if it is zero. */
+		[[nodiscard]] DPM_FORCEINLINE __m128 round_sign(__m128 y, __m128 x) noexcept
+		{
+			const auto sign = _mm_set1_ps(-0.0f);
+			return _mm_or_ps(_mm_andnot_ps(sign, y), _mm_and_ps(sign, x));
+		}
+		[[nodiscard]] DPM_FORCEINLINE __m128d round_sign(__m128d y, __m128d x) noexcept
+		{
+			const auto sign = _mm_set1_pd(-0.0);
+			return _mm_or_pd(_mm_andnot_pd(sign, y), _mm_and_pd(sign, x));
+		}
+
 		[[nodiscard]] DPM_FORCEINLINE __m128 ceil(__m128 x) noexcept
 		{
 #if defined(DPM_HAS_SSE4_1)
@@ -28,7 +40,7 @@ namespace dpm
 			return _mm_svml_ceil_ps(x);
 #else
 			const auto tx = trunc_sse2(x);
-			return _mm_add_ps(tx, bit_and(_mm_cmplt_ps(tx, x), _mm_set1_ps(1.0f)));
+			return round_sign(_mm_add_ps(tx, bit_and(_mm_cmplt_ps(tx, x), _mm_set1_ps(1.0f))), x);
 #endif
 		}
 		[[nodiscard]] DPM_FORCEINLINE __m128 floor(__m128 x) noexcept
@@ -39,7 +51,7 @@ namespace dpm
 			return _mm_svml_floor_ps(x);
 #else
 			const auto tx = trunc_sse2(x);
-			return _mm_sub_ps(tx, bit_and(_mm_cmpgt_ps(tx, x), _mm_set1_ps(1.0f)));
+			return round_sign(_mm_sub_ps(tx, bit_and(_mm_cmpgt_ps(tx, x), _mm_set1_ps(1.0f))), x);
 #endif
 		}
 		[[nodiscard]] DPM_FORCEINLINE __m128 trunc(__m128 x) noexcept
@@ -61,7 +73,7 @@ namespace dpm
 			return _mm_svml_ceil_pd(x);
 #else
 			const auto tx = trunc_sse2(x);
-			return _mm_add_pd(tx, bit_and(_mm_cmplt_pd(tx, x), _mm_set1_pd(1.0f)));
+			return round_sign(_mm_add_pd(tx, bit_and(_mm_cmplt_pd(tx, x), _mm_set1_pd(1.0f))), x);
 #endif
 		}
 		[[nodiscard]] DPM_FORCEINLINE __m128d floor(__m128d x) noexcept
@@ -72,7 +84,7 @@ namespace dpm
 			return _mm_svml_floor_pd(x);
 #else
 			const auto tx = trunc_sse2(x);
-			return _mm_sub_pd(tx, bit_and(_mm_cmpgt_pd(tx, x), _mm_set1_pd(1.0f)));
+			return round_sign(_mm_sub_pd(tx, bit_and(_mm_cmpgt_pd(tx, x), _mm_set1_pd(1.0f))), x);
 #endif
 		}
 		[[nodiscard]] DPM_FORCEINLINE __m128d trunc(__m128d x) noexcept
@@ -131,14 +143,14 @@ namespace dpm
 			const auto tx = trunc(x);
 			const auto fract_mask = _mm_cmpneq_ps(tx, x);
 			const auto rem = _mm_sub_ps(bit_and(x, fract_mask), bit_and(tx, fract_mask));
-			*dst = _mm_add_ps(tx, trunc(_mm_add_ps(rem, rem)));
+			*dst = round_sign(_mm_add_ps(tx, trunc(_mm_add_ps(rem, rem))), x);
 #elif defined(DPM_USE_SVML)
 			*dst = _mm_svml_round_ps(x);
 #else
 			const auto tx = trunc_sse2(x);
 			const auto fract_mask = _mm_cmpneq_ps(tx, x);
 			const auto rem = _mm_sub_ps(bit_and(x, fract_mask), bit_and(tx, fract_mask));
-			*dst = _mm_add_ps(tx, trunc_sse2(_mm_add_ps(rem, rem)));
+			*dst = round_sign(_mm_add_ps(tx, trunc_sse2(_mm_add_ps(rem, rem))), x);
 #endif
 		}
 		template<integral_of_size<8> T>
@@ -176,7 +188,7 @@ namespace dpm
 			const auto abs_x = _mm_xor_ps(x, sign_x);
 
 			const auto tmp_mask = _mm_cmpge_ps(abs_x, abs_offset);
-			const auto tmp = _mm_or_ps(_mm_sub_ps(_mm_add_ps(x, x_offset), x_offset), sign_x);
+			const auto tmp = round_sign(_mm_sub_ps(_mm_add_ps(x, x_offset), x_offset), x);
 			*dst = _mm_or_ps(_mm_andnot_ps(tmp_mask, tmp), _mm_and_ps(tmp_mask, x));
 #endif
 		}
@@ -234,14 +246,14 @@ namespace dpm
 			const auto tx = trunc(x);
 			const auto fract_mask = _mm_cmpneq_pd(tx, x);
 			const auto rem = _mm_sub_pd(bit_and(x, fract_mask), bit_and(tx, fract_mask));
-			*dst = _mm_add_pd(tx, trunc(_mm_add_pd(rem, rem)));
+			*dst = round_sign(_mm_add_pd(tx, trunc(_mm_add_pd(rem, rem))), x);
 #elif defined(DPM_USE_SVML)
 			*dst = _mm_svml_round_pd(x);
 #else
 			const auto tx = trunc_sse2(x);
 			const auto fract_mask = _mm_cmpneq_pd(tx, x);
 			const auto rem = _mm_sub_pd(bit_and(x, fract_mask), bit_and(tx, fract_mask));
-			*dst = _mm_add_pd(tx, trunc_sse2(_mm_add_pd(rem, rem)));
+			*dst = round_sign(_mm_add_pd(tx, trunc_sse2(_mm_add_pd(rem, rem))), x);
 #endif
 		}
 		template<integral_of_size<8> T>
@@ -274,7 +286,7 @@ namespace dpm
 			const auto abs_x = _mm_xor_pd(x, sign_x);
 
 			const auto tmp_mask = _mm_cmpge_pd(abs_x, abs_offset);
-			const auto tmp = _mm_or_pd(_mm_sub_pd(_mm_add_pd(x, x_offset), x_offset), sign_x);
+			const auto tmp = round_sign(_mm_sub_pd(_mm_add_pd(x, x_offset), x_offset), x);
 			*dst = _mm_or_pd(_mm_andnot_pd(tmp_mask, tmp), _mm_and_pd(tmp_mask, x));
 #endif
 		}
@@ -303,6 +315,17 @@ namespace dpm
 		}
 
 #ifdef DPM_HAS_AVX
+		[[nodiscard]] DPM_FORCEINLINE __m256 round_sign(__m256 y, __m256 x) noexcept
+		{
+			const auto sign = _mm256_set1_ps(-0.0f);
+			return _mm256_or_ps(_mm256_andnot_ps(sign, y), _mm256_and_ps(sign, x));
+		}
+		[[nodiscard]] DPM_FORCEINLINE __m256d round_sign(__m256d y, __m256d x) noexcept
+		{
+			const auto sign = _mm256_set1_pd(-0.0);
+			return _mm256_or_pd(_mm256_andnot_pd(sign, y), _mm256_and_pd(sign, x));
+		}
+
 		[[nodiscard]] DPM_FORCEINLINE __m256 ceil(__m256 x) noexcept { return _mm256_ceil_ps(x); }
 		[[nodiscard]] DPM_FORCEINLINE __m256 floor(__m256 x) noexcept { return _mm256_floor_ps(x); }
 		[[nodiscard]] DPM_FORCEINLINE __m256 trunc(__m256 x) noexcept { return _mm256_round_ps(x, _MM_FROUND_TO_ZERO | _MM_FROUND_NO_EXC); }
@@ -355,7 +378,7 @@ namespace dpm
 			const auto tx = trunc(x);
 			const auto fract_mask = _mm256_cmp_ps(tx, x, _CMP_NEQ_UQ);
 			const auto rem = _mm256_sub_ps(bit_and(x, fract_mask), bit_and(tx, fract_mask));
-			*dst = _mm256_add_ps(tx, trunc(_mm256_add_ps(rem, rem)));
+			*dst = round_sign(_mm256_add_ps(tx, trunc(_mm256_add_ps(rem, rem))), x);
 		}
 		template<integral_of_size<8> T>
 		DPM_FORCEINLINE void round(__m256 x, __m256i *dst) noexcept
@@ -427,7 +450,7 @@ namespace dpm
 			const auto tx = trunc(x);
 			const auto fract_mask = _mm256_cmp_pd(tx, x, _CMP_NEQ_UQ);
 			const auto rem = _mm256_sub_pd(bit_and(x, fract_mask), bit_and(tx, fract_mask));
-			*dst = _mm256_add_pd(tx, trunc(_mm256_add_pd(rem, rem)));
+			*dst = round_sign(_mm256_add_pd(tx, trunc(_mm256_add_pd(rem, rem))), x);
 		}
 		template<integral_of_size<8> T>
 		DPM_FORCEINLINE void round(__m256d x, __m256i *dst) noexcept
-- 
2.43.0


From 866e12a3e267de65a5827f504547f3f895ee4215 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:30:54 +0000
Subject: [PATCH 72/73] fix: shuffle to another number of lanes did not compile

---
 dpm/detail/x86/type.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dpm/detail/x86/type.hpp b/dpm/detail/x86/type.hpp
index 1171208..05a34d4 100644
--- a/dpm/detail/x86/type.hpp
+++ b/dpm/detail/x86/type.hpp
@@ -217,7 +217,7 @@ namespace dpm
 			if (std::is_constant_evaluated())
 			{
 				const auto packed = static_cast<simd_mask<T, simd_abi::ext::packed_buffer<N>>>(x);
-				return static_cast<detail::x86_mask<T, N, A>>(shuffle<Is...>(packed));
+				return static_cast<detail::x86_mask<T, M, A>>(shuffle<Is...>(packed));
 			}
 			else
 			{
@@ -727,7 +727,7 @@ namespace dpm
 			if (std::is_constant_evaluated())
 			{
 				const auto packed = static_cast<simd<T, simd_abi::ext::packed_buffer<N>>>(x);
-				return static_cast<detail::x86_simd<T, N, A>>(shuffle<Is...>(packed));
+				return static_cast<detail::x86_simd<T, M, A>>(shuffle<Is...>(packed));
 			}
 			else
 			{
-- 
2.43.0


From 616a2996eeb5a4f3df1c2cd6f4e1bf534af28770 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:35:47 +0000
Subject: [PATCH 73/73] fix: swapping elements of masks was undefined behaviour

---
 dpm/detail/alias.hpp | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/dpm/detail/alias.hpp b/dpm/detail/alias.hpp
index 2364928..6bf233d 100644
--- a/dpm/detail/alias.hpp
+++ b/dpm/detail/alias.hpp
@@ -37,9 +37,20 @@ namespace dpm::detail
 		template<std::convertible_to<bool> U>
 		constexpr DPM_FORCEINLINE bool operator^(U &&value) const noexcept { return _value ^ extend_bool<T>(value); }
 
-		friend constexpr void swap(basic_mask &a, basic_mask &b) noexcept { std::swap(a._value, b._value); }
-		friend constexpr void swap(bool &a, basic_mask &b) noexcept { a = static_cast<bool>(std::exchange(b._value, extend_bool<T>(a))); }
-		friend constexpr void swap(basic_mask &a, bool &b) noexcept { b = static_cast<bool>(std::exchange(a._value, extend_bool<T>(b))); }
+		/* Must not bind `_value` to a reference to `T`, since access through such reference does not alias the underlying vector. */
+		friend constexpr void swap(basic_mask &a, basic_mask &b) noexcept
+		{
+			const auto tmp = a;
+			a = b;
+			b = tmp;
+		}
+		friend constexpr void swap(bool &a, basic_mask &b) noexcept
+		{
+			const auto tmp = static_cast<bool>(b);
+			b = a;
+			a = tmp;
+		}
+		friend constexpr void swap(basic_mask &a, bool &b) noexcept { swap(b, a); }
 
 		T _value;
 	};
-- 
2.43.0

