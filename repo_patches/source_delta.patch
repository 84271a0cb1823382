From 499313fd4625629724227bb170952f15dd704b7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:34 +0000
Subject: [PATCH 01/15] fix: don't use maskmovdqu for masked stores

maskmovdqu may fault on elements that are not selected by the mask (if they
are on a page that is not mapped or not writable), and it is a non-temporal
store: data stored under a mask was not ordered by a subsequent release store.
Write the selected 8-bit and 16-bit elements one by one instead.
---
 experimental/bits/simd_x86.h | 22 +++++++++++++---------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/experimental/bits/simd_x86.h b/experimental/bits/simd_x86.h
index d6dda28..abdfabf 100644
--- a/experimental/bits/simd_x86.h
+++ b/experimental/bits/simd_x86.h
@@ -1187,8 +1187,14 @@ template <typename _Abi>
 	    else if constexpr (__have_avx && sizeof(_Tp) == 8)
 	      _mm_maskstore_pd(reinterpret_cast<double*>(__mem), __ki,
 			       __vector_bitcast<double>(__vi));
-	    else if constexpr (__have_sse2)
-	      _mm_maskmoveu_si128(__vi, __ki, reinterpret_cast<char*>(__mem));
+	    else
+	      // Don't use maskmovdqu: it may fault on the unselected elements and
+	      // is a non-temporal store, i.e. a subsequent release store doesn't
+	      // order it.
+	      _BitOps::_S_bit_iteration(
+		_MaskImpl::_S_to_bits(__k), [&](auto __i) constexpr {
+		  __mem[__i] = __v[__i];
+		});
 	  }
 	else if constexpr (sizeof(__v) == 32)
 	  {
@@ -1213,13 +1219,11 @@ template <typename _Abi>
 	    else if constexpr (__have_avx && sizeof(_Tp) == 8)
 	      _mm256_maskstore_pd(reinterpret_cast<double*>(__mem), __ki,
 				  __vector_bitcast<double>(__v));
-	    else if constexpr (__have_sse2)
-	      {
-		_mm_maskmoveu_si128(__lo128(__vi), __lo128(__ki),
-				    reinterpret_cast<char*>(__mem));
-		_mm_maskmoveu_si128(__hi128(__vi), __hi128(__ki),
-				    reinterpret_cast<char*>(__mem) + 16);
-	      }
+	    else // see above, don't use maskmovdqu
+	      _BitOps::_S_bit_iteration(
+		_MaskImpl::_S_to_bits(__k), [&](auto __i) constexpr {
+		  __mem[__i] = __v[__i];
+		});
 	  }
 	else
 	  __assert_unreachable<_Tp>();
-- 
2.43.0


From a2ca058c26d67bf7b570f0578c7b8aaa0d306df1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:34 +0000
Subject: [PATCH 02/15] fix: round 64-bit integer to float conversions once

Without AVX512DQ the vectorized conversions from 64-bit integers to float
rounded more than once, so that loads and stores with conversion (and casts)
did not yield the value of the scalar conversion. The upper half of unsigned
values was also sign-extended. Use the builtin conversion instead.
---
 experimental/bits/simd_x86_conversions.h | 64 +++---------------------
 1 file changed, 6 insertions(+), 58 deletions(-)

diff --git a/experimental/bits/simd_x86_conversions.h b/experimental/bits/simd_x86_conversions.h
index 899d031..4bfdfd9 100644
--- a/experimental/bits/simd_x86_conversions.h
+++ b/experimental/bits/simd_x86_conversions.h
@@ -667,9 +667,8 @@ template <typename _To, typename _V, typename _Traits>
 	  return __intrin_bitcast<_To>(_mm256_cvtepi64_ps(__intrin));
 	else if constexpr (__z_to_y && __have_avx512dq)
 	  return __intrin_bitcast<_To>(_mm512_cvtepi64_ps(__intrin));
-	else if constexpr (__z_to_y)
-	  return __intrin_bitcast<_To>(
-	    _mm512_cvtpd_ps(__convert_x86<__vector_type_t<double, 8>>(__v)));
+	// else use fallback (builtin conversion): going through double would
+	// round twice
       }
     else if constexpr (__u64_to_f32) //{{{2
       {
@@ -679,15 +678,8 @@ template <typename _To, typename _V, typename _Traits>
 	  return __intrin_bitcast<_To>(_mm256_cvtepu64_ps(__intrin));
 	else if constexpr (__z_to_y && __have_avx512dq)
 	  return __intrin_bitcast<_To>(_mm512_cvtepu64_ps(__intrin));
-	else if constexpr (__z_to_y)
-	  {
-	    return __intrin_bitcast<_To>(
-	      __lo256(_mm512_cvtepu32_ps(__auto_bitcast(
-		_mm512_cvtepi64_epi32(_mm512_srai_epi64(__intrin, 32)))))
-		* 0x100000000LL
-	      + __lo256(_mm512_cvtepu32_ps(
-		__auto_bitcast(_mm512_cvtepi64_epi32(__intrin)))));
-	  }
+	// else use fallback (builtin conversion): converting the 32-bit halves
+	// separately would round more than once
       }
     else if constexpr (__s32_to_f32) //{{{2
       {
@@ -1268,25 +1260,6 @@ template <typename _To, typename _V, typename _Traits>
 	  {
 	    if constexpr (__x_to_x)
 	      return __make_wrapper<float>(__v0[0], __v0[1], __v1[0], __v1[1]);
-	    else if constexpr (__y_to_y)
-	      {
-		static_assert(__y_to_y && __have_avx2);
-		const auto __a = _mm256_unpacklo_epi32(__i0, __i1); // aeAE cgCG
-		const auto __b = _mm256_unpackhi_epi32(__i0, __i1); // bfBF dhDH
-		const auto __lo32
-		  = _mm256_unpacklo_epi32(__a, __b); // abef cdgh
-		const auto __hi32 = __vector_bitcast<
-		  conditional_t<is_signed_v<_Tp>, int, _UInt>>(
-		  _mm256_unpackhi_epi32(__a, __b)); // ABEF CDGH
-		const auto __hi
-		  = 0x100000000LL
-		    * __convert_x86<__vector_type_t<float, 8>>(__hi32);
-		const auto __mid
-		  = 0x10000 * _mm256_cvtepi32_ps(_mm256_srli_epi32(__lo32, 16));
-		const auto __lo
-		  = _mm256_cvtepi32_ps(_mm256_set1_epi32(0x0000ffffu) & __lo32);
-		return __xzyw((__hi + __mid) + __lo);
-	      }
 	    else if constexpr (__z_to_z && __have_avx512dq)
 	      {
 		return is_signed_v<_Tp> ? __concat(_mm512_cvtepi64_ps(__i0),
@@ -1294,33 +1267,8 @@ template <typename _To, typename _V, typename _Traits>
 					: __concat(_mm512_cvtepu64_ps(__i0),
 						   _mm512_cvtepu64_ps(__i1));
 	      }
-	    else if constexpr (__z_to_z && is_signed_v<_Tp>)
-	      {
-		const __m512 __hi32 = _mm512_cvtepi32_ps(
-		  __concat(_mm512_cvtepi64_epi32(__to_intrin(__v0 >> 32)),
-			   _mm512_cvtepi64_epi32(__to_intrin(__v1 >> 32))));
-		const __m512i __lo32 = __concat(_mm512_cvtepi64_epi32(__i0),
-						_mm512_cvtepi64_epi32(__i1));
-		// split low 32-bits, because if __hi32 is a small negative
-		// number, the 24-bit mantissa may lose important information if
-		// any of the high 8 bits of __lo32 is set, leading to
-		// catastrophic cancelation in the FMA
-		const __m512 __hi16
-		  = _mm512_cvtepu32_ps(_mm512_set1_epi32(0xffff0000u) & __lo32);
-		const __m512 __lo16
-		  = _mm512_cvtepi32_ps(_mm512_set1_epi32(0x0000ffffu) & __lo32);
-		return (__hi32 * 0x100000000LL + __hi16) + __lo16;
-	      }
-	    else if constexpr (__z_to_z && is_unsigned_v<_Tp>)
-	      {
-		return __intrin_bitcast<_To>(
-		  _mm512_cvtepu32_ps(__concat(
-		    _mm512_cvtepi64_epi32(_mm512_srai_epi64(__i0, 32)),
-		    _mm512_cvtepi64_epi32(_mm512_srai_epi64(__i1, 32))))
-		    * 0x100000000LL
-		  + _mm512_cvtepu32_ps(__concat(_mm512_cvtepi64_epi32(__i0),
-						_mm512_cvtepi64_epi32(__i1))));
-	      }
+	    // else use concat fallback: adding separately converted parts rounds
+	    // more than once
 	  }
 	else if constexpr (__f64_to_s32) //{{{2
 	  {
-- 
2.43.0


From 3b0f53ad8b1d335ee4a3fcebb1d36e8454edb2ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:57 +0000
Subject: [PATCH 03/15] fix: make install.sh --includedir work

'test -z "$includedir" && ... || exit 1' exited with status 1 whenever
--includedir was given. Also stop if the source directory can't be entered:
uninstalling from elsewhere removed only two of the headers.
---
 install.sh | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/install.sh b/install.sh
index ccd2906..3aeaf3f 100755
--- a/install.sh
+++ b/install.sh
@@ -1,5 +1,7 @@
 #!/bin/sh
-cd "${0%/*}"
+case "$0" in
+  */*) cd "${0%/*}/" || exit 1 ;;
+esac
 
 test -x "$CXX" || CXX=g++
 
@@ -55,7 +57,9 @@ while test $# -gt 0; do
   shift
 done
 
-test -z "$includedir" && includedir=`default_includedir` || exit 1
+if test -z "$includedir"; then
+  includedir=`default_includedir` || exit 1
+fi
 if ! test -w "$includedir"; then
   echo "Error: Destination directory '$includedir' is not writable by the current user."
   exit 1
-- 
2.43.0


From 1299905a6032b35da62872c7c22885af85887379 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:57 +0000
Subject: [PATCH 04/15] fix: report failed steps of install.sh in its exit
 status

Only the last command determined the exit status: with any other header not
installed (or not removed) install.sh still reported success.
---
 install.sh | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/install.sh b/install.sh
index 3aeaf3f..3ab8182 100755
--- a/install.sh
+++ b/install.sh
@@ -80,16 +80,16 @@ exit 1
 } || exit
   echo Passed.
 
-  install -v -p -d "$includedir/experimental/bits"
-  install -v -p experimental/bits/simd*.h "$includedir/experimental/bits/"
-  install -v -p experimental/bits/numeric_traits.h "$includedir/experimental/bits/"
-  install -v -p experimental/simd "$includedir/experimental/"
+  install -v -p -d "$includedir/experimental/bits" || exit 1
+  install -v -p experimental/bits/simd*.h "$includedir/experimental/bits/" || exit 1
+  install -v -p experimental/bits/numeric_traits.h "$includedir/experimental/bits/" || exit 1
+  install -v -p experimental/simd "$includedir/experimental/" || exit 1
 else
   for i in experimental/bits/simd*.h experimental/bits/numeric_traits.h experimental/simd; do
     dst="$includedir/$i"
     if test -e "$dst"; then
       echo "Removing $dst"
-      rm -f "$dst"
+      rm -f "$dst" || exit 1
     fi
   done
 fi
-- 
2.43.0


From 6a7d5307fbf82adb565315227f16c823250f9764 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:12 +0000
Subject: [PATCH 05/15] fix: don't trap on padding in signed integer division

The padding of the divisor was made nonzero by setting it to -1 (or by
setting one bit in it), which traps in hardware if the padding of the
dividend happens to be the minimum value.
---
 experimental/bits/simd_builtin.h | 42 +++++++++++---------------------
 1 file changed, 14 insertions(+), 28 deletions(-)

diff --git a/experimental/bits/simd_builtin.h b/experimental/bits/simd_builtin.h
index f048c07..493044e 100644
--- a/experimental/bits/simd_builtin.h
+++ b/experimental/bits/simd_builtin.h
@@ -1042,18 +1042,13 @@ template <int _UsedBytes>
 	  {
 	    _GLIBCXX_SIMD_USE_CONSTEXPR auto __implicit_mask
 	      = __vector_bitcast<_Tp>(_S_implicit_mask<_Tp>());
-	    if constexpr (is_integral_v<_Tp>)
-	      return __or(__x, ~__implicit_mask);
-	    else
-	      {
-		_GLIBCXX_SIMD_USE_CONSTEXPR auto __one
-		  = __andnot(__implicit_mask,
-			     __vector_broadcast<_S_full_size<_Tp>>(_Tp(1)));
-		// it's not enough to return `x | 1_in_padding` because the
-		// padding in x might be inf or nan (independent of
-		// __FINITE_MATH_ONLY__, because it's about padding bits)
-		return __or(__and(__x, __implicit_mask), __one);
-	      }
+	    _GLIBCXX_SIMD_USE_CONSTEXPR auto __one
+	      = __andnot(__implicit_mask,
+			 __vector_broadcast<_S_full_size<_Tp>>(_Tp(1)));
+	    // it's not enough to return `x | 1_in_padding` because the padding
+	    // in x might be inf or nan (independent of __FINITE_MATH_ONLY__,
+	    // because it's about padding bits) or -1 (and min / -1 traps)
+	    return __or(__and(__x, __implicit_mask), __one);
 	  }
       }
     // }}}
@@ -1193,22 +1188,13 @@ template <int _UsedBytes>
 	else
 	  {
 	    constexpr size_t _Np = _S_size<_Tp>;
-	    if constexpr (is_integral_v<typename _TVT::value_type>)
-	      return __x
-		     | __generate_vector<_Tp, _S_full_size<_Tp>>(
-		       [](auto __i) -> _Tp {
-			 if (__i < _Np)
-			   return 0;
-			 else
-			   return 1;
-		       });
-	    else
-	      return __make_dependent_t<_TV, _CommonImpl>::_S_blend(
-		       _S_implicit_mask<_Tp>(),
-		       _SimdWrapper<_Tp, _Np>(
-			 __vector_broadcast<_S_full_size<_Tp>>(_Tp(1))),
-		       _SimdWrapper<_Tp, _Np>(__x))
-		._M_data;
+	    // not `x | 1_in_padding`: the padding in x might be inf, nan, or -1
+	    return __make_dependent_t<_TV, _CommonImpl>::_S_blend(
+		     _S_implicit_mask<_Tp>(),
+		     _SimdWrapper<_Tp, _Np>(
+		       __vector_broadcast<_S_full_size<_Tp>>(_Tp(1))),
+		     _SimdWrapper<_Tp, _Np>(__x))
+	      ._M_data;
 	  }
       }
 
-- 
2.43.0


From 8d93f541e4692f050133678695924d3d6e7130ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:12 +0000
Subject: [PATCH 06/15] fix: keep the sign of zero in rounding functions and
 u32 conversions

Without SSE4.1, floor, ceil, trunc, round, rint and nearbyint returned -0
for inputs in [0, 1) when rounding downward and +0 for (-1, -0] otherwise;
round did the latter everywhere. The conversion from unsigned int to double
turned 0 into -0 when rounding downward.
---
 experimental/bits/simd_builtin.h         |  8 +++++++-
 experimental/bits/simd_x86.h             | 18 +++++++++++++-----
 experimental/bits/simd_x86_conversions.h | 11 +++++++----
 3 files changed, 27 insertions(+), 10 deletions(-)

diff --git a/experimental/bits/simd_builtin.h b/experimental/bits/simd_builtin.h
index 493044e..8a6b8a8 100644
--- a/experimental/bits/simd_builtin.h
+++ b/experimental/bits/simd_builtin.h
@@ -2170,7 +2170,11 @@ template <typename _Abi>
 	= _V() + (1ull << (__digits_v<value_type> - 1));
       const _V __shifter = __or(__and(_S_signmask<_V>, __x), __shifter_abs);
       const _V __shifted = _S_plus_minus(__x, __shifter);
-      return __absx < __shifter_abs ? __shifted : __x;
+      // the sign of a zero result must not depend on the rounding direction
+      return __absx < __shifter_abs
+	       ? __or(__and(_S_signmask<_V>, __x),
+		      __and(_S_absmask<_V>, __shifted))
+	       : __x;
     }
 
     // _S_rint {{{3
@@ -2191,6 +2195,8 @@ template <typename _Abi>
       constexpr _Tp __shifter = 1ull << (__digits_v<_Tp> - 1);
       _V __truncated = _S_plus_minus(__absx, __shifter);
       __truncated -= __truncated > __absx ? _V() + 1 : _V();
+      // rounding downward, the subtractions above produce -0
+      __truncated = __and(_S_absmask<_V>, __truncated);
       return __absx < __shifter ? __or(__xor(__absx, __x._M_data), __truncated)
 				: __x._M_data;
     }
diff --git a/experimental/bits/simd_x86.h b/experimental/bits/simd_x86.h
index abdfabf..cb607a9 100644
--- a/experimental/bits/simd_x86.h
+++ b/experimental/bits/simd_x86.h
@@ -2680,7 +2680,10 @@ template <typename _Abi>
 		< 0x4b000000; // the exponent is so large that no mantissa bits
 			      // signify fractional values (0x3f8 + 23*8 =
 			      // 0x4b0)
-	    return __no_fractional_values ? __truncated : __to_intrin(__x);
+	    return __no_fractional_values
+		     ? __or(__and(_S_signmask<__m128>, __to_intrin(__x)),
+			    __truncated)
+		     : __to_intrin(__x);
 	  }
 	else
 	  return _Base::_S_trunc(__x);
@@ -2723,11 +2726,16 @@ template <typename _Abi>
 	// x < 0 => truncated <= 0 && truncated >= x => x - truncated <= 0
 	// x > 0 => truncated >= 0 && truncated <= x => x - truncated >= 0
 
+	// The sign of x is also the sign of a zero result, independent of the
+	// rounding direction.
+	const _V __sign = __and(_S_signmask<_V>, __x._M_data);
 	const _V __rounded
-	  = __truncated
-	    + (__and(_S_absmask<_V>, __x._M_data - __truncated) >= _Tp(.5)
-		 ? __or(__and(_S_signmask<_V>, __x._M_data), _V() + 1)
-		 : _V());
+	  = __or(__sign,
+		 __truncated
+		   + (__and(_S_absmask<_V>, __x._M_data - __truncated)
+			  >= _Tp(.5)
+			? __or(__sign, _V() + 1)
+			: _V()));
 	if constexpr (__have_sse4_1)
 	  return __rounded;
 	else // adjust for missing range in cvttps_epi32
diff --git a/experimental/bits/simd_x86_conversions.h b/experimental/bits/simd_x86_conversions.h
index 4bfdfd9..47352f1 100644
--- a/experimental/bits/simd_x86_conversions.h
+++ b/experimental/bits/simd_x86_conversions.h
@@ -812,16 +812,19 @@ template <typename _To, typename _V, typename _Traits>
 	  return __intrin_bitcast<_To>(
 	    __lo128(_mm512_cvtepu32_pd(__auto_bitcast(__v))));
 	else if constexpr (__x_to_x)
-	  return __intrin_bitcast<_To>(
-	    _mm_cvtepi32_pd(__to_intrin(__v ^ 0x8000'0000u)) + 0x8000'0000u);
+	  // the andnot avoids -0 for 0 when rounding downward
+	  return __intrin_bitcast<_To>(_mm_andnot_pd(
+	    _mm_set1_pd(-0.),
+	    _mm_cvtepi32_pd(__to_intrin(__v ^ 0x8000'0000u)) + 0x8000'0000u));
 	else if constexpr (__x_to_y && __have_avx512vl)
 	  return __intrin_bitcast<_To>(_mm256_cvtepu32_pd(__intrin));
 	else if constexpr (__x_to_y && __have_avx512f)
 	  return __intrin_bitcast<_To>(
 	    __lo256(_mm512_cvtepu32_pd(__auto_bitcast(__v))));
 	else if constexpr (__x_to_y)
-	  return __intrin_bitcast<_To>(
-	    _mm256_cvtepi32_pd(__to_intrin(__v ^ 0x8000'0000u)) + 0x8000'0000u);
+	  return __intrin_bitcast<_To>(_mm256_andnot_pd(
+	    _mm256_set1_pd(-0.),
+	    _mm256_cvtepi32_pd(__to_intrin(__v ^ 0x8000'0000u)) + 0x8000'0000u));
 	else if constexpr (__y_to_z)
 	  return __intrin_bitcast<_To>(_mm512_cvtepu32_pd(__intrin));
       }
-- 
2.43.0


From f50fcb4c753e72e5c5ae3cb9b70f0a38a3f1abdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:44 +0000
Subject: [PATCH 07/15] fix: don't hand zeros to the binary operation of reduce

When reduce splits a partially filled register into halves, the vectors passed
to the user-defined operation contained zeros, which are not lanes of the
reduced vector. The result was ignored, but an operation that divides by its
argument (or checks it) failed.
---
 experimental/bits/simd_builtin.h | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/experimental/bits/simd_builtin.h b/experimental/bits/simd_builtin.h
index 8a6b8a8..8c22ab3 100644
--- a/experimental/bits/simd_builtin.h
+++ b/experimental/bits/simd_builtin.h
@@ -1770,10 +1770,10 @@ template <typename _Abi>
       }
 
     // reductions {{{2
-    template <size_t _Np, size_t... _Is, size_t... _Zeros, typename _Tp,
+    template <size_t _Np, size_t... _Is, size_t... _Fill, typename _Tp,
 	      typename _BinaryOperation>
       _GLIBCXX_SIMD_INTRINSIC static _Tp
-      _S_reduce_partial(index_sequence<_Is...>, index_sequence<_Zeros...>,
+      _S_reduce_partial(index_sequence<_Is...>, index_sequence<_Fill...>,
 			simd<_Tp, _Abi> __x, _BinaryOperation&& __binary_op)
       {
 	using _V = __vector_type_t<_Tp, _Np / 2>;
@@ -1787,8 +1787,10 @@ template <typename _Abi>
 	  static_cast<_HalfSimd>(__as_vector(__binary_op(
 	    static_cast<_FullSimd>(__intrin_bitcast<_V>(__xx)),
 	    static_cast<_FullSimd>(__intrin_bitcast<_V>(
-	      __vector_permute<(_Np / 2 + _Is)..., (int(_Zeros * 0) - 1)...>(
-		__xx)))))),
+	      __vector_permute<(_Np / 2 + _Is)...,
+			       // the results are ignored, but __binary_op should
+			       // not be presented with values not found in __x
+			       int((_Np / 2 + _Fill) % _Np)...>(__xx)))))),
 	  __binary_op);
       }
 
-- 
2.43.0


From d9dcc32e7a3191263c5041986d537ff0e57b3366 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:24 +0000
Subject: [PATCH 08/15] fix: don't access memory for the padding in masked
 loads and stores

Comparisons and other mask-generating operations may set the elements of
a vector mask (or the bits of a bitmask, for integral !=) which belong to
the padding of a partially filled register. The masked load and store
instructions then accessed memory behind the last element.
---
 experimental/bits/simd_builtin.h |  6 ++++--
 experimental/bits/simd_x86.h     | 27 +++++++++++++++------------
 2 files changed, 19 insertions(+), 14 deletions(-)

diff --git a/experimental/bits/simd_builtin.h b/experimental/bits/simd_builtin.h
index 8c22ab3..1b04c27 100644
--- a/experimental/bits/simd_builtin.h
+++ b/experimental/bits/simd_builtin.h
@@ -1540,9 +1540,11 @@ template <typename _Abi>
     template <typename _TW, typename _TVT = _VectorTraits<_TW>,
 	      typename _Tp = typename _TVT::value_type, typename _Up>
       static inline void
-      _S_masked_store(const _TW __v, _Up* __mem, const _MaskMember<_Tp> __k)
-	noexcept
+      _S_masked_store(const _TW __v, _Up* __mem, _MaskMember<_Tp> __k) noexcept
       {
+	// maskstore must not write the padding, which may be set
+	if constexpr (!__is_bitmask_v<decltype(__k)>)
+	  __k = _Abi::_S_masked(__k);
 	constexpr size_t _TV_size = _S_size<_Tp>;
 	[[maybe_unused]] const auto __vi = __to_intrin(__v);
 	constexpr size_t __max_store_size
diff --git a/experimental/bits/simd_x86.h b/experimental/bits/simd_x86.h
index cb607a9..aedcadd 100644
--- a/experimental/bits/simd_x86.h
+++ b/experimental/bits/simd_x86.h
@@ -860,6 +860,9 @@ template <typename _Abi>
 							// reinterpretation
 	)
 	  {
+	    // maskload must not read for the padding, which may be set
+	    if constexpr (!__is_avx512_abi<_Abi>())
+	      __k = _Abi::_S_masked(__k);
 	    [[maybe_unused]] const auto __intrin = __to_intrin(__merge);
 	    if constexpr ((__is_avx512_abi<_Abi>() || __have_avx512bw_vl)
 			  && sizeof(_Tp) == 1)
@@ -2321,29 +2324,29 @@ template <typename _Abi>
 		  __assert_unreachable<_Tp>();
 	      }
 	    else if constexpr (sizeof(__xi) == 64 && sizeof(_Tp) == 8)
-	      return ~_mm512_mask_cmpeq_epi64_mask(__k1, __xi, __yi);
+	      return _mm512_mask_cmpneq_epi64_mask(__k1, __xi, __yi);
 	    else if constexpr (sizeof(__xi) == 64 && sizeof(_Tp) == 4)
-	      return ~_mm512_mask_cmpeq_epi32_mask(__k1, __xi, __yi);
+	      return _mm512_mask_cmpneq_epi32_mask(__k1, __xi, __yi);
 	    else if constexpr (sizeof(__xi) == 64 && sizeof(_Tp) == 2)
-	      return ~_mm512_mask_cmpeq_epi16_mask(__k1, __xi, __yi);
+	      return _mm512_mask_cmpneq_epi16_mask(__k1, __xi, __yi);
 	    else if constexpr (sizeof(__xi) == 64 && sizeof(_Tp) == 1)
-	      return ~_mm512_mask_cmpeq_epi8_mask(__k1, __xi, __yi);
+	      return _mm512_mask_cmpneq_epi8_mask(__k1, __xi, __yi);
 	    else if constexpr (sizeof(__xi) == 32 && sizeof(_Tp) == 8)
-	      return ~_mm256_mask_cmpeq_epi64_mask(__k1, __xi, __yi);
+	      return _mm256_mask_cmpneq_epi64_mask(__k1, __xi, __yi);
 	    else if constexpr (sizeof(__xi) == 32 && sizeof(_Tp) == 4)
-	      return ~_mm256_mask_cmpeq_epi32_mask(__k1, __xi, __yi);
+	      return _mm256_mask_cmpneq_epi32_mask(__k1, __xi, __yi);
 	    else if constexpr (sizeof(__xi) == 32 && sizeof(_Tp) == 2)
-	      return ~_mm256_mask_cmpeq_epi16_mask(__k1, __xi, __yi);
+	      return _mm256_mask_cmpneq_epi16_mask(__k1, __xi, __yi);
 	    else if constexpr (sizeof(__xi) == 32 && sizeof(_Tp) == 1)
-	      return ~_mm256_mask_cmpeq_epi8_mask(__k1, __xi, __yi);
+	      return _mm256_mask_cmpneq_epi8_mask(__k1, __xi, __yi);
 	    else if constexpr (sizeof(__xi) == 16 && sizeof(_Tp) == 8)
-	      return ~_mm_mask_cmpeq_epi64_mask(__k1, __xi, __yi);
+	      return _mm_mask_cmpneq_epi64_mask(__k1, __xi, __yi);
 	    else if constexpr (sizeof(__xi) == 16 && sizeof(_Tp) == 4)
-	      return ~_mm_mask_cmpeq_epi32_mask(__k1, __xi, __yi);
+	      return _mm_mask_cmpneq_epi32_mask(__k1, __xi, __yi);
 	    else if constexpr (sizeof(__xi) == 16 && sizeof(_Tp) == 2)
-	      return ~_mm_mask_cmpeq_epi16_mask(__k1, __xi, __yi);
+	      return _mm_mask_cmpneq_epi16_mask(__k1, __xi, __yi);
 	    else if constexpr (sizeof(__xi) == 16 && sizeof(_Tp) == 1)
-	      return ~_mm_mask_cmpeq_epi8_mask(__k1, __xi, __yi);
+	      return _mm_mask_cmpneq_epi8_mask(__k1, __xi, __yi);
 	    else
 	      __assert_unreachable<_Tp>();
 	  }                                                   // }}}
-- 
2.43.0


From ff656fde9249b0e9b0090a52315d088fe6e91ab3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:10 +0000
Subject: [PATCH 09/15] fix: don't raise FE_INVALID in 32-bit shifts without
 AVX2

2^31 is not representable as int, so the conversion raised FE_INVALID (and
trapped if unmasked) for x << 31 and, with unsigned elements, x >> 0.
Convert -2^n instead and negate the result.
---
 experimental/bits/simd_x86.h | 25 +++++++++++++++----------
 1 file changed, 15 insertions(+), 10 deletions(-)

diff --git a/experimental/bits/simd_x86.h b/experimental/bits/simd_x86.h
index aedcadd..512b7f6 100644
--- a/experimental/bits/simd_x86.h
+++ b/experimental/bits/simd_x86.h
@@ -1781,11 +1781,14 @@ template <typename _Abi>
 	else if constexpr (sizeof(_Up) == 4 && sizeof __ix == 16
 			   && !__have_avx2)
 	  // latency is suboptimal, but throughput is at full speedup
+	  // multiply by -(-2^y): -2^31 is convertible to int, 2^31 is not and
+	  // would raise FE_INVALID
 	  return __intrin_bitcast<_V>(
 	    __vector_bitcast<unsigned>(__ix)
-	    * __vector_convert<__vector_type16_t<int>>(
-	      _SimdWrapper<float, 4>(__vector_bitcast<float>(
-		(__vector_bitcast<unsigned, 4>(__y) << 23) + 0x3f80'0000))));
+	    * -__vector_bitcast<unsigned>(
+	      __vector_convert<__vector_type16_t<int>>(
+		_SimdWrapper<float, 4>(__vector_bitcast<float>(
+		  (__vector_bitcast<unsigned, 4>(__y) << 23) + 0xbf80'0000)))));
 	else if constexpr (sizeof(_Up) == 8 && sizeof __ix == 16
 			   && !__have_avx2)
 	  {
@@ -2167,14 +2170,16 @@ template <typename _Abi>
 	    if constexpr (is_unsigned_v<_Up>)
 	      {
 		// x >> y == x * 2^-y == (x * 2^(31-y)) >> 31
+		// compute -(-2^(31-y)): -2^31 is convertible to int, 2^31 is not
+		// and would raise FE_INVALID
 		const __m128 __factor_f = reinterpret_cast<__m128>(
-		  0x4f00'0000u - (__vector_bitcast<unsigned, 4>(__y) << 23));
-		const __m128i __factor
-		  = __builtin_constant_p(__factor_f)
-		      ? __to_intrin(
-			__make_vector<unsigned>(__factor_f[0], __factor_f[1],
-						__factor_f[2], __factor_f[3]))
-		      : _mm_cvttps_epi32(__factor_f);
+		  0xcf00'0000u - (__vector_bitcast<unsigned, 4>(__y) << 23));
+		const __m128i __factor = __to_intrin(-__vector_bitcast<unsigned>(
+		  __builtin_constant_p(__factor_f)
+		    ? __to_intrin(
+		      __make_vector<int>(__factor_f[0], __factor_f[1],
+					 __factor_f[2], __factor_f[3]))
+		    : _mm_cvttps_epi32(__factor_f)));
 		const auto __r02
 		  = _mm_srli_epi64(_mm_mul_epu32(__ix, __factor), 31);
 		const auto __r13 = _mm_mul_epu32(_mm_srli_si128(__ix, 4),
-- 
2.43.0


From 1d9f44b8fde40f66c8ecf8b81a172d9cc8c08e30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:02 +0000
Subject: [PATCH 10/15] fix: don't let shift counts in the padding raise
 FE_INVALID

Without AVX2, 16- and 32-bit shifts construct floating-point numbers from
the shift counts. Arbitrary counts in the padding of partially filled
vectors turned into infinities, NaNs, or large values and thus raised
FE_INVALID on conversion. In 16-bit left shifts, counts of 16 and up also
modified the result in the neighboring element.
---
 experimental/bits/simd_x86.h | 26 +++++++++++++++-----------
 1 file changed, 15 insertions(+), 11 deletions(-)

diff --git a/experimental/bits/simd_x86.h b/experimental/bits/simd_x86.h
index 512b7f6..7466a6e 100644
--- a/experimental/bits/simd_x86.h
+++ b/experimental/bits/simd_x86.h
@@ -1765,15 +1765,17 @@ template <typename _Abi>
 		using _Float4 = __vector_type_t<float, 4>;
 		using _Int4 = __vector_type_t<int, 4>;
 		using _UInt4 = __vector_type_t<unsigned, 4>;
-		const _UInt4 __yu
-		  = reinterpret_cast<_UInt4>(__to_intrin(__y + (0x3f8 >> 3)));
-		return __x
-		       * __intrin_bitcast<_V>(
-			 __vector_convert<_Int4>(_SimdWrapper<float, 4>(
-			   reinterpret_cast<_Float4>(__yu << 23)))
-			 | (__vector_convert<_Int4>(_SimdWrapper<float, 4>(
-			      reinterpret_cast<_Float4>((__yu >> 16) << 23)))
-			    << 16));
+		// multiply by -(-2^y), see below
+		const _UInt4 __yu = reinterpret_cast<_UInt4>(
+		  __to_intrin((__y & _Up(31)) + _Up(0xbf8 >> 3)));
+		return -(__x
+			 * __intrin_bitcast<_V>(
+			   (__vector_convert<_Int4>(_SimdWrapper<float, 4>(
+			      reinterpret_cast<_Float4>(__yu << 23)))
+			    & 0xffff)
+			   | (__vector_convert<_Int4>(_SimdWrapper<float, 4>(
+				reinterpret_cast<_Float4>((__yu >> 16) << 23)))
+			      << 16)));
 	      }
 	    else
 	      __assert_unreachable<_Tp>();
@@ -1788,7 +1790,8 @@ template <typename _Abi>
 	    * -__vector_bitcast<unsigned>(
 	      __vector_convert<__vector_type16_t<int>>(
 		_SimdWrapper<float, 4>(__vector_bitcast<float>(
-		  (__vector_bitcast<unsigned, 4>(__y) << 23) + 0xbf80'0000)))));
+		  ((__vector_bitcast<unsigned, 4>(__y) & 31u) << 23)
+		  + 0xbf80'0000)))));
 	else if constexpr (sizeof(_Up) == 8 && sizeof __ix == 16
 			   && !__have_avx2)
 	  {
@@ -2173,7 +2176,8 @@ template <typename _Abi>
 		// compute -(-2^(31-y)): -2^31 is convertible to int, 2^31 is not
 		// and would raise FE_INVALID
 		const __m128 __factor_f = reinterpret_cast<__m128>(
-		  0xcf00'0000u - (__vector_bitcast<unsigned, 4>(__y) << 23));
+		  0xcf00'0000u
+		  - ((__vector_bitcast<unsigned, 4>(__y) & 31u) << 23));
 		const __m128i __factor = __to_intrin(-__vector_bitcast<unsigned>(
 		  __builtin_constant_p(__factor_f)
 		    ? __to_intrin(
-- 
2.43.0


From 76301d051feebb26a996aa8d5097ec1568353de7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:12 +0000
Subject: [PATCH 11/15] fix: divisions by constants trapping on AVX-512 masked
 partial vectors

_CommonImplX86::_S_blend with constant arguments zeroed the padding instead of
taking it from the first argument. __make_padding_nonzero relies on that
padding, so that x / 3 divided the padding by zero (SIGFPE for 64-bit
integers).
---
 experimental/bits/simd_x86.h | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/experimental/bits/simd_x86.h b/experimental/bits/simd_x86.h
index 7466a6e..fbf052d 100644
--- a/experimental/bits/simd_x86.h
+++ b/experimental/bits/simd_x86.h
@@ -768,9 +768,15 @@ struct _CommonImplX86 : _CommonImplBuiltin
       static_assert(is_same_v<_Tp, _Tp> && __have_avx512f);
       if (__k._M_is_constprop() && __at0._M_is_constprop()
 	  && __at1._M_is_constprop())
-	return __generate_from_n_evaluations<_Np,
-					     __vector_type_t<_Tp, _Np>>([&](
-	  auto __i) constexpr { return __k[__i] ? __at1[__i] : __at0[__i]; });
+	// as without constant propagation, the padding is taken from __at0
+	return __generate_from_n_evaluations<sizeof(__at0) / sizeof(_Tp),
+					     __vector_type_t<_Tp, _Np>>(
+	  [&](auto __i) constexpr->_Tp {
+	    if constexpr (__i < _Np)
+	      return __k[__i] ? __at1[__i] : __at0[__i];
+	    else
+	      return __at0._M_data[size_t(__i)];
+	  });
       else if constexpr (sizeof(__at0) == 64
 			 || (__have_avx512vl && sizeof(__at0) >= 16))
 	return _S_blend_avx512(__k._M_data, __at0._M_data, __at1._M_data);
-- 
2.43.0


From 28611c344f86834a35d7774277ff3de6bfa544f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:00 +0000
Subject: [PATCH 12/15] fix: hmin and hmax of masked vectors ignored selected
 infinities

__FINITE_MATH_ONLY__ is always defined (to 0 or 1), so the identity element
for unselected lanes was the largest finite value instead of infinity.
---
 experimental/bits/simd.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/experimental/bits/simd.h b/experimental/bits/simd.h
index 4c89311..3a0dc70 100644
--- a/experimental/bits/simd.h
+++ b/experimental/bits/simd.h
@@ -3508,7 +3508,7 @@ template <typename _M, typename _V>
   {
     using _Tp = typename _V::value_type;
     constexpr _Tp __id_elem =
-#ifdef __FINITE_MATH_ONLY__
+#if __FINITE_MATH_ONLY__
       __finite_max_v<_Tp>;
 #else
       __value_or<__infinity, _Tp>(__finite_max_v<_Tp>);
@@ -3526,7 +3526,7 @@ template <typename _M, typename _V>
   {
     using _Tp = typename _V::value_type;
     constexpr _Tp __id_elem =
-#ifdef __FINITE_MATH_ONLY__
+#if __FINITE_MATH_ONLY__
       __finite_min_v<_Tp>;
 #else
       [] {
-- 
2.43.0


From 8bcb9a1dec1b516162bba6ab5930e8c30170344d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:00 +0000
Subject: [PATCH 13/15] fix: masked integer division trapping because of
 unselected elements

where(k, x) /= y and %= y divided all elements before selecting. A zero
divisor (or minimum / -1) in an element that is not selected raised SIGFPE.
---
 experimental/bits/simd.h | 34 ++++++++++++++++++++++++++++++++--
 1 file changed, 32 insertions(+), 2 deletions(-)

diff --git a/experimental/bits/simd.h b/experimental/bits/simd.h
index 3a0dc70..639a9fa 100644
--- a/experimental/bits/simd.h
+++ b/experimental/bits/simd.h
@@ -3223,8 +3223,6 @@ template <typename _M, typename _Tp>
     _GLIBCXX_SIMD_OP_(+, _S_plus);
     _GLIBCXX_SIMD_OP_(-, _S_minus);
     _GLIBCXX_SIMD_OP_(*, _S_multiplies);
-    _GLIBCXX_SIMD_OP_(/, _S_divides);
-    _GLIBCXX_SIMD_OP_(%, _S_modulus);
     _GLIBCXX_SIMD_OP_(&, _S_bit_and);
     _GLIBCXX_SIMD_OP_(|, _S_bit_or);
     _GLIBCXX_SIMD_OP_(^, _S_bit_xor);
@@ -3232,6 +3230,38 @@ template <typename _M, typename _Tp>
     _GLIBCXX_SIMD_OP_(>>, _S_shift_right);
 #undef _GLIBCXX_SIMD_OP_
 
+    // Division is not to trap because of elements that are not selected:
+    // divide those by 1. A constant divisor that never traps is kept.
+#define _GLIBCXX_SIMD_OP_(__op, __name)                                        \
+  template <typename _Up>                                                      \
+    _GLIBCXX_SIMD_INTRINSIC void operator __op##=(_Up&& __x)&&                 \
+    {                                                                          \
+      const auto __fun = [](auto __impl, auto __lhs, auto __rhs) constexpr {   \
+	return __impl.__name(__lhs, __rhs);                                    \
+      };                                                                       \
+      const auto __y                                                           \
+	= __to_value_type_or_member_type<_Tp>(static_cast<_Up&&>(__x));        \
+      if constexpr (is_integral_v<value_type>)                                 \
+	{                                                                      \
+	  if constexpr (is_same_v<__remove_cvref_t<decltype(__y)>, value_type>) \
+	    if (__builtin_constant_p(__y) && __y != value_type()               \
+		&& __y != value_type(-1))                                      \
+	      return _Impl::template _S_masked_cassign(                        \
+		__data(_M_k), __data(_M_value), __y, __fun);                   \
+	  _Tp __divisor = value_type(1);                                       \
+	  _Impl::_S_masked_assign(__data(_M_k), __data(__divisor), __y);       \
+	  _Impl::template _S_masked_cassign(                                   \
+	    __data(_M_k), __data(_M_value), __data(__divisor), __fun);         \
+	}                                                                      \
+      else                                                                     \
+	_Impl::template _S_masked_cassign(__data(_M_k), __data(_M_value), __y, \
+					  __fun);                              \
+    }                                                                          \
+  static_assert(true)
+    _GLIBCXX_SIMD_OP_(/, _S_divides);
+    _GLIBCXX_SIMD_OP_(%, _S_modulus);
+#undef _GLIBCXX_SIMD_OP_
+
     _GLIBCXX_SIMD_INTRINSIC void operator++() &&
     {
       __data(_M_value)
-- 
2.43.0


From 50f9fdf968a281393043b4c565c4111b7d5e1b81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:42 +0000
Subject: [PATCH 14/15] fix: masked assignment of the constant -0. assigned +0.

The shortcut for zero compares with ==, but clearing the selected elements is
not the same as assigning a negative zero.
---
 experimental/bits/simd_builtin.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/experimental/bits/simd_builtin.h b/experimental/bits/simd_builtin.h
index 1b04c27..c8d0ea5 100644
--- a/experimental/bits/simd_builtin.h
+++ b/experimental/bits/simd_builtin.h
@@ -2470,7 +2470,8 @@ template <typename _Abi>
 	  return;
 	else if (__k._M_is_constprop_all_of())
 	  __lhs = __vector_broadcast<_Np>(__rhs);
-	else if (__builtin_constant_p(__rhs) && __rhs == 0)
+	else if (__builtin_constant_p(__rhs) && __rhs == 0
+		 && !__builtin_signbit(static_cast<double>(__rhs))) // not -0.
 	  {
 	    if constexpr (!is_same_v<bool, _K>)
 	      // the __andnot optimization only makes sense if __k._M_data is a
-- 
2.43.0


From 509caab06f4a65ccd49495ad6a4d2c36989cddb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:50 +0000
Subject: [PATCH 15/15] fix: splitting masks of partially filled AVX registers
 took the wrong lanes

A mask of 6 floats has its second half in lanes 3 to 5, not in the upper
128 bits.
---
 experimental/bits/simd.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/experimental/bits/simd.h b/experimental/bits/simd.h
index 639a9fa..4c88b6c 100644
--- a/experimental/bits/simd.h
+++ b/experimental/bits/simd.h
@@ -3814,7 +3814,8 @@ template <typename _V, typename _Ap,
     else if constexpr (_Parts == 1)
       return {__proposed::static_simd_cast<_V>(__x)};
     else if constexpr (_Parts == 2 && __is_sse_abi<typename _V::abi_type>()
-		       && __is_avx_abi<_Ap>())
+		       && __is_avx_abi<_Ap>()
+		       && __abi_bytes_v<typename _V::abi_type> == 16)
       return {_V(__private_init, __lo128(__data(__x))),
 	      _V(__private_init, __hi128(__data(__x)))};
     else if constexpr (_V::size() <= __CHAR_BIT__ * sizeof(_ULLong))
-- 
2.43.0

