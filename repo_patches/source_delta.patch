From 72cb78e2c6cf3092bd9a82f3207ea1d60d11e595 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:08 +0000
Subject: [PATCH 01/61] fix: expm1(double) lost accuracy in [2^-4, 2^-2] and
 returned exp(x) for very negative x

---
 include/ccmath/math/expo/impl/exp_double_impl.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/ccmath/math/expo/impl/exp_double_impl.hpp b/include/ccmath/math/expo/impl/exp_double_impl.hpp
index 44fd869..dab08ae 100644
--- a/include/ccmath/math/expo/impl/exp_double_impl.hpp
+++ b/include/ccmath/math/expo/impl/exp_double_impl.hpp
@@ -147,7 +147,7 @@ namespace ccm::internal::impl
 	constexpr double expm1_series(double x)
 	{
 		const double x2 = x * x;
-		return x + x2 * (0.5 + x * (1.0 / 6.0 + x * (1.0 / 24.0 + x * (1.0 / 120.0 + x * (1.0 / 720.0 + x * (1.0 / 5040.0 + x * (1.0 / 40320.0)))))));
+		return x + x2 * (0.5 + x * (1.0 / 6.0 + x * (1.0 / 24.0 + x * (1.0 / 120.0 + x * (1.0 / 720.0 + x * (1.0 / 5040.0 + x * (1.0 / 40320.0 + x * (1.0 / 362880.0 + x * (1.0 / 3628800.0 + x * (1.0 / 39916800.0))))))))));
 	}
 
 	constexpr double expm1_kernel(double x)
@@ -220,6 +220,9 @@ namespace ccm::internal::impl
 
 		if (x == -std::numeric_limits<double>::infinity()) { return -1.0; }
 
+		// exp(x) is below half an ulp of one here. The kernel's large |x| path yields exp(x), not exp(x) - 1.
+		if (x <= -40.0) { return -1.0; }
+
 		if (x >= 0.25 || x <= -0.25) { return expm1_kernel(x); }
 
 		if (x > 0.0625 || x < -0.0625)
-- 
2.43.0


From e0cfbb3e10830f147d09c7b9c3f09bf80cca406d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:51 +0000
Subject: [PATCH 02/61] fix: log1p(double) used Taylor instead of minimax
 coefficients and was off by up to 209 ULP

---
 include/ccmath/math/expo/impl/log1p_impl.hpp | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/include/ccmath/math/expo/impl/log1p_impl.hpp b/include/ccmath/math/expo/impl/log1p_impl.hpp
index ad2e99b..765de12 100644
--- a/include/ccmath/math/expo/impl/log1p_impl.hpp
+++ b/include/ccmath/math/expo/impl/log1p_impl.hpp
@@ -32,13 +32,13 @@ namespace ccm::internal::impl
 	constexpr float log1p_lg3_f	   = 0x1.24924ap-2f;
 	constexpr float log1p_lg4_f	   = 0x1.f0a3d8p-3f;
 
-	constexpr double log1p_lg1_d = 0x1.5555555555555p-1;
-	constexpr double log1p_lg2_d = 0x1.9999999999999p-2;
-	constexpr double log1p_lg3_d = 0x1.2492492492492p-2;
-	constexpr double log1p_lg4_d = 0x1.c71c71c71c6d6p-3;
-	constexpr double log1p_lg5_d = 0x1.745d1745d0a63p-3;
-	constexpr double log1p_lg6_d = 0x1.3b13b13b0ff6ep-3;
-	constexpr double log1p_lg7_d = 0x1.111111111126ep-3;
+	constexpr double log1p_lg1_d = 0x1.5555555555593p-1;
+	constexpr double log1p_lg2_d = 0x1.999999997fa04p-2;
+	constexpr double log1p_lg3_d = 0x1.2492494229359p-2;
+	constexpr double log1p_lg4_d = 0x1.c71c51d8e78afp-3;
+	constexpr double log1p_lg5_d = 0x1.7466496cb03dep-3;
+	constexpr double log1p_lg6_d = 0x1.39a09d078c69fp-3;
+	constexpr double log1p_lg7_d = 0x1.2f112df3e5244p-3;
 
 	constexpr auto log1p_log_data_flt = ccm::internal::log_data<double>();
 	constexpr auto log1p_ln2_hi_d	  = log1p_log_data_flt.ln2hi;
-- 
2.43.0


From 02c036f1e291985650798d895ada060765cd5738 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:48 +0000
Subject: [PATCH 03/61] fix: log1p returned garbage for the largest finite
 arguments when rounding upward (1 + x overflowed)

---
 include/ccmath/math/expo/impl/log1p_impl.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/ccmath/math/expo/impl/log1p_impl.hpp b/include/ccmath/math/expo/impl/log1p_impl.hpp
index 765de12..fc9da9c 100644
--- a/include/ccmath/math/expo/impl/log1p_impl.hpp
+++ b/include/ccmath/math/expo/impl/log1p_impl.hpp
@@ -48,6 +48,9 @@ namespace ccm::internal::impl
 	{
 		if (x > 0.414284F || x < -0.292893F)
 		{
+			// Here 1 + x rounds to x or a neighbour, and rounded upward it may overflow.
+			if (x >= 0x1p30F) { return log_float_impl(x); }
+
 			const float u = 1.0F + x;
 			if (u == 1.0F) { return x; }
 
@@ -123,6 +126,9 @@ namespace ccm::internal::impl
 	{
 		if (x > 0.414284 || x < -0.292893)
 		{
+			// Here 1 + x rounds to x or a neighbour, and rounded upward it may overflow.
+			if (x >= 0x1p60) { return log_double_impl(x); }
+
 			const double u = 1.0 + x;
 			if (u == 1.0) { return x; }
 
-- 
2.43.0


From 6898faefc2064b8072aa658c6d853213690be386 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:48 +0000
Subject: [PATCH 04/61] fix: atan2(-0, x) for finite x < 0 returned +pi instead
 of -pi

---
 include/ccmath/math/trig/impl/inv_trig_impl.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/ccmath/math/trig/impl/inv_trig_impl.hpp b/include/ccmath/math/trig/impl/inv_trig_impl.hpp
index 901028d..00513ce 100644
--- a/include/ccmath/math/trig/impl/inv_trig_impl.hpp
+++ b/include/ccmath/math/trig/impl/inv_trig_impl.hpp
@@ -263,7 +263,7 @@ namespace ccm::internal::impl
 
 		if (x < static_cast<T>(0))
 		{
-			if (y >= static_cast<T>(0)) { return angle + static_cast<T>(ccm::numbers::pi_v<T>); }
+			if (!fp_bits_t(y).is_neg()) { return angle + static_cast<T>(ccm::numbers::pi_v<T>); }
 			return angle - static_cast<T>(ccm::numbers::pi_v<T>);
 		}
 		return angle;
-- 
2.43.0


From 47d4499e6bbb9bfff42b741a7a0a936ac3bb732a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:48 +0000
Subject: [PATCH 05/61] fix: tgamma of large negative arguments overflowed an
 int conversion and looped up to 2^31 times

---
 include/ccmath/math/misc/impl/gamma_double_impl.hpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/include/ccmath/math/misc/impl/gamma_double_impl.hpp b/include/ccmath/math/misc/impl/gamma_double_impl.hpp
index 6a0f98a..083a8ef 100644
--- a/include/ccmath/math/misc/impl/gamma_double_impl.hpp
+++ b/include/ccmath/math/misc/impl/gamma_double_impl.hpp
@@ -144,16 +144,25 @@ namespace ccm::internal::impl
 
 		if (CCM_UNLIKELY(detail::is_integer(x)))
 		{
-			const auto k = static_cast<std::int32_t>(ccm::floor(x));
 			if (xbits.is_neg())
 			{
 				ccm::support::fenv::raise_except_if_required(FE_INVALID);
 				ccm::support::fenv::set_errno_if_required(EDOM);
 				return fp_bits::quiet_nan().get_val();
 			}
+			const auto k = static_cast<std::int32_t>(ccm::floor(x));
 			if (k >= 1 && k <= 170) { return detail::positive_factorial(k); }
 		}
 
+		// Below -184 the result is under half the smallest subnormal, and gamma_reduce would take one step per unit of x.
+		if (CCM_UNLIKELY(x < -184.0))
+		{
+			ccm::support::fenv::raise_except_if_required(FE_UNDERFLOW | FE_INEXACT);
+			ccm::support::fenv::set_errno_if_required(ERANGE);
+			const bool odd = (static_cast<std::int64_t>(ccm::floor(x)) & 1) != 0;
+			return odd ? -0.0 : 0.0;
+		}
+
 		double w{};
 		const double f		= detail::gamma_reduce(x, w);
 		const double result = f * w;
-- 
2.43.0


From b702fb0b86533b0ec0a756813bdf04cfbfcb1ba8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:48 +0000
Subject: [PATCH 06/61] fix: tgamma(float) returned infinity from 34.8 although
 it overflows only above 35.04

---
 include/ccmath/math/misc/impl/gamma_float_impl.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/ccmath/math/misc/impl/gamma_float_impl.hpp b/include/ccmath/math/misc/impl/gamma_float_impl.hpp
index aa8c631..7c25b4d 100644
--- a/include/ccmath/math/misc/impl/gamma_float_impl.hpp
+++ b/include/ccmath/math/misc/impl/gamma_float_impl.hpp
@@ -53,7 +53,7 @@ namespace ccm::internal::impl
 			return fp_bits::inf(xbits.sign()).get_val();
 		}
 
-		if (CCM_UNLIKELY(!xbits.is_neg() && x >= 34.8F))
+		if (CCM_UNLIKELY(!xbits.is_neg() && x >= 0x1.18522p+5F))
 		{
 			ccm::support::fenv::raise_except_if_required(FE_OVERFLOW | FE_INEXACT);
 			ccm::support::fenv::set_errno_if_required(ERANGE);
-- 
2.43.0


From ee93aa50ca9f23c03d63b74ff2567344ffbcb52f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:48 +0000
Subject: [PATCH 07/61] fix: lgamma converted large integral arguments to int,
 which is undefined, and returned 0 for them

---
 include/ccmath/math/misc/impl/lgamma_double_impl.hpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/include/ccmath/math/misc/impl/lgamma_double_impl.hpp b/include/ccmath/math/misc/impl/lgamma_double_impl.hpp
index 8f95c2a..7499682 100644
--- a/include/ccmath/math/misc/impl/lgamma_double_impl.hpp
+++ b/include/ccmath/math/misc/impl/lgamma_double_impl.hpp
@@ -102,8 +102,7 @@ namespace ccm::internal::impl
 				ccm::support::fenv::set_errno_if_required(EDOM);
 				return fp_bits::inf().get_val();
 			}
-			const auto k = static_cast<std::int32_t>(ccm::floor(x));
-			if (k <= 170) { return lgamma_detail::positive_lfactorial(k); }
+			if (x <= 170.0) { return lgamma_detail::positive_lfactorial(static_cast<std::int32_t>(x)); }
 		}
 
 		if (CCM_UNLIKELY(ccm::fabs(x) <= 0x1p-53)) { return -lgamma_detail::log_abs(x); }
-- 
2.43.0


From 55745906efd92e0923f8b98992c72976691d3923 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:11 +0000
Subject: [PATCH 08/61] fix: lgamma's Stirling series used wrong coefficients
 and overflowed before its result

---
 .../ccmath/math/misc/impl/lgamma_double_impl.hpp    | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/include/ccmath/math/misc/impl/lgamma_double_impl.hpp b/include/ccmath/math/misc/impl/lgamma_double_impl.hpp
index 7499682..eda3490 100644
--- a/include/ccmath/math/misc/impl/lgamma_double_impl.hpp
+++ b/include/ccmath/math/misc/impl/lgamma_double_impl.hpp
@@ -41,8 +41,17 @@ namespace ccm::internal::impl
 		{
 			const double inv_x	= 1.0 / x;
 			const double inv_x2 = inv_x * inv_x;
-			const double corr	= inv_x * (0x1.5555555555555p-3 + inv_x2 * (-0x1.6c16c16c16c17p-7 + inv_x2 * 0x1.00a01a01a01a1p-7));
-			return (x - 0.5) * ccm::log(x) - x + 0.5 * ccm::log(2.0 * ccm::numbers::pi_v<double>) + corr;
+			// 1/12, -1/360, 1/1260, -1/1680, 1/1188, -691/360360, 1/156
+			double series = 0x1.a41a41a41a41ap-8;
+			series		  = -0x1.f6ab0d9993c7dp-10 + inv_x2 * series;
+			series		  = 0x1.b951e2b18ff23p-11 + inv_x2 * series;
+			series		  = -0x1.3813813813814p-11 + inv_x2 * series;
+			series		  = 0x1.a01a01a01a01ap-11 + inv_x2 * series;
+			series		  = -0x1.6c16c16c16c17p-9 + inv_x2 * series;
+			series		  = 0x1.5555555555555p-4 + inv_x2 * series;
+
+			// (x - 0.5) * log(x) - x, written so that it does not overflow before the result does.
+			return (x - 0.5) * (ccm::log(x) - 1.0) - 0.5 + 0.5 * ccm::log(2.0 * ccm::numbers::pi_v<double>) + inv_x * series;
 		}
 
 		constexpr double log_gamma_reduce(double xd) noexcept
-- 
2.43.0


From 598a0f3a2a0de8483e6dfa6054faa9f435bd7caa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:38 +0000
Subject: [PATCH 09/61] fix: lgamma reflected negative arguments through sin(pi
 * x), losing all accuracy for large |x| and near the poles

---
 include/ccmath/math/misc/impl/lgamma_double_impl.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/ccmath/math/misc/impl/lgamma_double_impl.hpp b/include/ccmath/math/misc/impl/lgamma_double_impl.hpp
index eda3490..4615335 100644
--- a/include/ccmath/math/misc/impl/lgamma_double_impl.hpp
+++ b/include/ccmath/math/misc/impl/lgamma_double_impl.hpp
@@ -120,7 +120,10 @@ namespace ccm::internal::impl
 
 		if (CCM_UNLIKELY(x < 0.0))
 		{
-			return ccm::log(ccm::numbers::pi_v<double>) - lgamma_detail::log_abs(x) - lgamma_detail::log_abs(ccm::sin(ccm::numbers::pi_v<double> * x)) -
+			// |sin(pi * x)| from the exact distance to the nearest integer: pi * x itself is too coarse for large x.
+			const double below = ccm::floor(x);
+			const double dist  = x - below <= 0.5 ? x - below : (below + 1.0) - x;
+			return ccm::log(ccm::numbers::pi_v<double>) - lgamma_detail::log_abs(x) - lgamma_detail::log_abs(ccm::sin(ccm::numbers::pi_v<double> * dist)) -
 				   lgamma_double_impl(-x);
 		}
 
-- 
2.43.0


From aa155007e86f736cd34f4ae346bbe417ee89e7f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:19 +0000
Subject: [PATCH 10/61] fix: tgamma/lgamma(double) used a float-grade
 polynomial, with errors of 2^-24 relative

---
 include/ccmath/math/misc/impl/gamma_data.hpp        |  9 +++++----
 include/ccmath/math/misc/impl/gamma_double_impl.hpp | 12 +++---------
 2 files changed, 8 insertions(+), 13 deletions(-)

diff --git a/include/ccmath/math/misc/impl/gamma_data.hpp b/include/ccmath/math/misc/impl/gamma_data.hpp
index 602b317..99190aa 100644
--- a/include/ccmath/math/misc/impl/gamma_data.hpp
+++ b/include/ccmath/math/misc/impl/gamma_data.hpp
@@ -17,11 +17,12 @@
 
 namespace ccm::internal::impl::data
 {
-	// Polynomial approximating tgamma(d + 2.875) on [-0.5, 0.5] generated by
-	// Sollya with: P = fpminimax(tgamma(x + 2.875), [|0,1,2,3,4,5,6,7|], [|D...|], [-0.5, 0.5])
+	// Chebyshev approximation of tgamma(d + 2.875) on [-0.5, 0.5], relative error below 2^-53 with the coefficients rounded to double.
 
-	inline constexpr double k_gamma_coeffs[8] = { 0x1.c9a76b7de6f60p+0, 0x1.8f2754874fe83p+0, 0x1.0d11cba0c229fp+0, 0x1.e1f47c012064dp-2,
-												  0x1.828b9f2afb74fp-3, 0x1.e1cc49d830795p-5, 0x1.2c9af3e686836p-6, 0x1.1bf60c7e311f6p-8 };
+	inline constexpr double k_gamma_coeffs[17] = { 0x1.c9a76be577123p+0,	 0x1.8f2754ddcf90cp+0,	0x1.0d1191949418ap+0,  0x1.e1f42cf0ae608p-2,  0x1.82b358a3ae653p-3,
+												   0x1.e1f2b30cba64ep-5,	 0x1.240f6d3d5cf31p-6,	0x1.1522ca063359cp-8,  0x1.1fd0083043ed7p-10, 0x1.980892120ee7bp-13,
+												   0x1.b3f43523fa6a5p-15,	 0x1.49d7459f5ddb5p-18, 0x1.481d50ed2ea35p-19, -0x1.3b8ea7caf53b7p-23, 0x1.602dfd646894ep-23,
+												   -0x1.91330b18c3bf3p-25, 0x1.42df98f72c7b4p-26 };
 
 	inline constexpr double k_gamma_base = 0x1.7p+1;
 
diff --git a/include/ccmath/math/misc/impl/gamma_double_impl.hpp b/include/ccmath/math/misc/impl/gamma_double_impl.hpp
index 083a8ef..74ad121 100644
--- a/include/ccmath/math/misc/impl/gamma_double_impl.hpp
+++ b/include/ccmath/math/misc/impl/gamma_double_impl.hpp
@@ -44,15 +44,9 @@ namespace ccm::internal::impl
 
 		constexpr double gamma_polynomial(double d) noexcept
 		{
-			const double d2	 = d * d;
-			const double d4	 = d2 * d2;
-			const double p01 = ccm::support::multiply_add(d, data::k_gamma_coeffs[1], data::k_gamma_coeffs[0]);
-			const double p23 = ccm::support::multiply_add(d, data::k_gamma_coeffs[3], data::k_gamma_coeffs[2]);
-			const double p45 = ccm::support::multiply_add(d, data::k_gamma_coeffs[5], data::k_gamma_coeffs[4]);
-			const double p67 = ccm::support::multiply_add(d, data::k_gamma_coeffs[7], data::k_gamma_coeffs[6]);
-			const double p03 = ccm::support::multiply_add(d2, p23, p01);
-			const double p47 = ccm::support::multiply_add(d2, p67, p45);
-			return ccm::support::multiply_add(d4, p47, p03);
+			double result = data::k_gamma_coeffs[16];
+			for (int i = 15; i >= 0; --i) { result = ccm::support::multiply_add(d, result, data::k_gamma_coeffs[i]); }
+			return result;
 		}
 
 		constexpr double gamma_reduce(double xd, double &w_out) noexcept
-- 
2.43.0


From 8a92e104a4c3ab9bb76ce8f76422d309c7578b14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:18 +0000
Subject: [PATCH 11/61] fix: float sin/cos/tan lost all accuracy in constant
 evaluation (and without FMA) for |x| above about 30

---
 include/ccmath/math/trig/impl/sincos_float_impl.hpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/include/ccmath/math/trig/impl/sincos_float_impl.hpp b/include/ccmath/math/trig/impl/sincos_float_impl.hpp
index 562f13e..a1d2c96 100644
--- a/include/ccmath/math/trig/impl/sincos_float_impl.hpp
+++ b/include/ccmath/math/trig/impl/sincos_float_impl.hpp
@@ -37,9 +37,11 @@ namespace ccm::internal::impl
 			const float prod_hi = x * data::ONE_OVER_PI;
 			const float k		= support::fp::nearest_integer(prod_hi);
 
-			const float y_hi = support::multiply_add(k, data::MPI[0], x);
-			u				 = support::multiply_add(k, data::MPI[1], y_hi);
-			u				 = support::multiply_add(k, data::MPI[2], u);
+			// In double, where k * MPI[0] and its sum with x are exact: in float they cancel to nothing without a fused multiply-add,
+			// which constant evaluation does not have everywhere.
+			const double kd	  = static_cast<double>(k);
+			const double y_hi = kd * static_cast<double>(data::MPI[0]) + static_cast<double>(x);
+			u				  = static_cast<float>(y_hi + kd * (static_cast<double>(data::MPI[1]) + static_cast<double>(data::MPI[2])));
 			return static_cast<unsigned>(static_cast<int>(k));
 		}
 
-- 
2.43.0


From b3ba86321bc5d04078ffdbfebae4975fc0d45c2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:11 +0000
Subject: [PATCH 12/61] fix: long double pow lost the sign of an overflowing or
 underflowing result for a negative base and odd exponent

---
 include/ccmath/internal/math/generic/func/power/powl_gen.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/ccmath/internal/math/generic/func/power/powl_gen.hpp b/include/ccmath/internal/math/generic/func/power/powl_gen.hpp
index 45d6e3e..2f774e7 100644
--- a/include/ccmath/internal/math/generic/func/power/powl_gen.hpp
+++ b/include/ccmath/internal/math/generic/func/power/powl_gen.hpp
@@ -379,7 +379,7 @@ namespace ccm::gen
 					if (exp_abs > kPowlHugeExponentThreshold) { working_exp = exp_abs_bits.is_neg() ? -0x1.0p100L : 0x1.0p100L; }
 
 					long double result = bit80::powl_ld80_general_finite(working_base, working_exp);
-					if (result_is_neg && result != 0.0L && !ccm::isinf(result) && !ccm::isnan(result)) { result = -result; }
+					if (result_is_neg && !ccm::isnan(result)) { result = -result; }
 					return result;
 				}
 			} // namespace bit80
-- 
2.43.0


From 1b0b7d2cd50ee3b023b153a44657db79aaf0caa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:40 +0000
Subject: [PATCH 13/61] fix: long double results rounded up to a power of two
 lost the explicit integer bit (fma, DyadicFloat)

---
 include/ccmath/internal/types/dyadic_float.hpp | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/include/ccmath/internal/types/dyadic_float.hpp b/include/ccmath/internal/types/dyadic_float.hpp
index 7ceb24a..c21fe73 100644
--- a/include/ccmath/internal/types/dyadic_float.hpp
+++ b/include/ccmath/internal/types/dyadic_float.hpp
@@ -307,6 +307,19 @@ namespace ccm::types
 			default: break;
 			}
 
+#if defined(CCM_TYPES_LONG_DOUBLE_IS_FLOAT80)
+			if constexpr (std::is_same_v<T, long double>)
+			{
+				// The integer bit of the 80-bit format is explicit. A carry out of the significand leaves it clear
+				// and a carry out of the subnormals leaves the exponent field at zero, so restore a valid encoding.
+				constexpr StorageType INTEGER_BIT = StorageType(1) << FPBits::fraction_length;
+				constexpr StorageType EXP_LSB	  = INTEGER_BIT << 1;
+				const bool has_exponent			  = FPBits(result).get_biased_exponent() != 0;
+				if (has_exponent) { result |= INTEGER_BIT; }
+				else if ((result & INTEGER_BIT) != 0) { result += EXP_LSB; }
+			}
+#endif
+
 			if constexpr (ShouldSignalExceptions)
 			{
 				if (round || sticky)
-- 
2.43.0


From 68c6bad49e55e3edcd2ef6c24da0db916c256bdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:00 +0000
Subject: [PATCH 14/61] fix: scalbn/scalbln truncated a long exponent to int
 instead of saturating it

---
 include/ccmath/math/fmanip/scalbn.hpp | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/include/ccmath/math/fmanip/scalbn.hpp b/include/ccmath/math/fmanip/scalbn.hpp
index 2194954..18ef6b6 100644
--- a/include/ccmath/math/fmanip/scalbn.hpp
+++ b/include/ccmath/math/fmanip/scalbn.hpp
@@ -17,6 +17,8 @@
 #include "ccmath/math/fmanip/impl/scalbn_float_impl.hpp"
 #include "ccmath/math/fmanip/impl/scalbn_ldouble_impl.hpp"
 
+#include <limits>
+
 #if defined(_MSC_VER) && !defined(__clang__)
 	#include "ccmath/internal/predef/compiler_suppression/msvc_compiler_suppression.hpp"
 CCM_DISABLE_MSVC_WARNING(4702) // 4702: unreachable code
@@ -61,12 +63,16 @@ namespace ccm
 		if constexpr (ccm::builtin::has_constexpr_scalbn<T>) { return ccm::builtin::scalbn_ct(num, exp); }
 		else
 		{
-			if (!ccm::support::is_constant_evaluated()) { return ccm::rt::scalbn_rt(num, static_cast<int>(exp)); }
-
-			if constexpr (std::is_same_v<T, float>) { return internal::scalbn_float(num, exp); }
-			if constexpr (std::is_same_v<T, double>) { return internal::scalbn_double(num, exp); }
-			if constexpr (std::is_same_v<T, long double>) { return internal::scalbn_ldouble(num, exp); }
-			return static_cast<T>(internal::scalbn_ldouble(num, exp));
+			// Every scale factor beyond the range of int over- or underflows like the nearest int does.
+			constexpr long int_min = std::numeric_limits<int>::min();
+			constexpr long int_max = std::numeric_limits<int>::max();
+			const int int_exp	   = static_cast<int>(exp < int_min ? int_min : (exp > int_max ? int_max : exp));
+			if (!ccm::support::is_constant_evaluated()) { return ccm::rt::scalbn_rt(num, int_exp); }
+
+			if constexpr (std::is_same_v<T, float>) { return internal::scalbn_float(num, int_exp); }
+			if constexpr (std::is_same_v<T, double>) { return internal::scalbn_double(num, int_exp); }
+			if constexpr (std::is_same_v<T, long double>) { return internal::scalbn_ldouble(num, int_exp); }
+			return static_cast<T>(internal::scalbn_ldouble(num, int_exp));
 		}
 	}
 
-- 
2.43.0


From 852e220f7adc423f48b9daa464d0fc96f6fbfa11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:27 +0000
Subject: [PATCH 15/61] fix: constexpr long double scalbn multiplied by the
 wrong power of two

---
 .../math/fmanip/impl/scalbn_ldouble_impl.hpp  | 47 ++-----------------
 1 file changed, 4 insertions(+), 43 deletions(-)

diff --git a/include/ccmath/math/fmanip/impl/scalbn_ldouble_impl.hpp b/include/ccmath/math/fmanip/impl/scalbn_ldouble_impl.hpp
index 2a9105b..db4eee8 100644
--- a/include/ccmath/math/fmanip/impl/scalbn_ldouble_impl.hpp
+++ b/include/ccmath/math/fmanip/impl/scalbn_ldouble_impl.hpp
@@ -10,13 +10,12 @@
 
 #pragma once
 
+#include <cfloat>
+
 #if LDBL_MANT_DIG == 53 && LDBL_MAX_EXP == 1024
 	#include "ccmath/math/fmanip/impl/scalbn_double_impl.hpp"
 #elif (LDBL_MANT_DIG == 64 || LDBL_MANT_DIG == 113) && LDBL_MAX_EXP == 16384
-	#include "ccmath/math/compare/isinf.hpp"
-	#include "ccmath/math/compare/isnan.hpp"
-
-	#include <limits>
+	#include "ccmath/internal/support/helpers/internal_ldexp.hpp"
 #endif
 
 namespace ccm::internal
@@ -28,45 +27,7 @@ namespace ccm::internal
 #if LDBL_MANT_DIG == 53 && LDBL_MAX_EXP == 1024 // If long double is the same as double
 			return static_cast<long double>(ccm::internal::impl::scalbn_double_impl(static_cast<double>(arg), exp));
 #elif (LDBL_MANT_DIG == 64 || LDBL_MANT_DIG == 113) && LDBL_MAX_EXP == 16384 // If long double is 80-bit or 128-bit large
-			// This is a generic implementation for long double scalbn that does not use bit manipulation.
-			// May be much slower than the double and float version.
-			// Need to benchmark it.
-			// TODO: Possibly implement a bit manipulation version of this function in the future if possible.
-			if (arg == static_cast<long double>(0)) { return arg; }
-
-			if (ccm::isinf(arg)) { return arg; }
-
-			if (exp == static_cast<long double>(0)) { return arg; }
-
-			if (ccm::isnan(arg)) { return std::numeric_limits<long double>::quiet_NaN(); }
-
-			long double mult(1);
-			if (exp > 0)
-			{
-				mult = std::numeric_limits<long double>::radix;
-				--exp;
-			}
-			else
-			{
-				++exp;
-				exp = -exp;
-				mult /= std::numeric_limits<long double>::radix;
-			}
-
-			while (exp > 0)
-			{
-				if ((exp & 1) == 0)
-				{
-					mult *= mult;
-					exp >>= 1;
-				}
-				else
-				{
-					arg *= mult;
-					--exp;
-				}
-			}
-			return arg;
+			return support::helpers::internal_ldexp(arg, exp);
 #else
 			// This should never be called, but since we are not using templates here can can not static_assert it.
 			return 0;
-- 
2.43.0


From 7a8e77d436e6f74b3383c2d8af2d95b935565219 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:05 +0000
Subject: [PATCH 16/61] fix: constexpr long double frexp/modf/logb/ilogb
 converted to double, losing range and precision

---
 .../internal/math/generic/func/fmanip/frexp_gen.hpp    |  7 +------
 .../internal/math/generic/func/fmanip/ilogb_gen.hpp    |  7 +------
 .../internal/math/generic/func/fmanip/logb_gen.hpp     |  7 +------
 .../internal/math/generic/func/fmanip/modf_gen.hpp     | 10 +---------
 include/ccmath/math/fmanip/modf.hpp                    |  7 +------
 5 files changed, 5 insertions(+), 33 deletions(-)

diff --git a/include/ccmath/internal/math/generic/func/fmanip/frexp_gen.hpp b/include/ccmath/internal/math/generic/func/fmanip/frexp_gen.hpp
index 4b3f971..480be01 100644
--- a/include/ccmath/internal/math/generic/func/fmanip/frexp_gen.hpp
+++ b/include/ccmath/internal/math/generic/func/fmanip/frexp_gen.hpp
@@ -19,11 +19,6 @@ namespace ccm::gen
 	template <typename T, std::enable_if_t<std::is_floating_point_v<T>, bool> = true>
 	constexpr T frexp_gen(T x, int & exp)
 	{
-		if constexpr (std::is_same_v<T, float>) { return ccm::internal::impl::frexp_impl(x, exp); }
-		else if constexpr (std::is_same_v<T, double>) { return ccm::internal::impl::frexp_impl(x, exp); }
-		else
-		{
-			return static_cast<T>(ccm::internal::impl::frexp_impl(static_cast<double>(x), exp));
-		}
+		return ccm::internal::impl::frexp_impl(x, exp);
 	}
 } // namespace ccm::gen
diff --git a/include/ccmath/internal/math/generic/func/fmanip/ilogb_gen.hpp b/include/ccmath/internal/math/generic/func/fmanip/ilogb_gen.hpp
index 8dcb4d1..590693e 100644
--- a/include/ccmath/internal/math/generic/func/fmanip/ilogb_gen.hpp
+++ b/include/ccmath/internal/math/generic/func/fmanip/ilogb_gen.hpp
@@ -19,11 +19,6 @@ namespace ccm::gen
 	template <typename T, std::enable_if_t<std::is_floating_point_v<T>, bool> = true>
 	constexpr int ilogb_gen(T num) noexcept
 	{
-		if constexpr (std::is_same_v<T, float>) { return ccm::internal::impl::ilogb_impl(num); }
-		else if constexpr (std::is_same_v<T, double>) { return ccm::internal::impl::ilogb_impl(num); }
-		else
-		{
-			return ccm::internal::impl::ilogb_impl(static_cast<double>(num));
-		}
+		return ccm::internal::impl::ilogb_impl(num);
 	}
 } // namespace ccm::gen
diff --git a/include/ccmath/internal/math/generic/func/fmanip/logb_gen.hpp b/include/ccmath/internal/math/generic/func/fmanip/logb_gen.hpp
index 5ec1541..f97fe69 100644
--- a/include/ccmath/internal/math/generic/func/fmanip/logb_gen.hpp
+++ b/include/ccmath/internal/math/generic/func/fmanip/logb_gen.hpp
@@ -19,11 +19,6 @@ namespace ccm::gen
 	template <typename T, std::enable_if_t<std::is_floating_point_v<T>, bool> = true>
 	constexpr T logb_gen(T num) noexcept
 	{
-		if constexpr (std::is_same_v<T, float>) { return ccm::internal::impl::logb_impl(num); }
-		else if constexpr (std::is_same_v<T, double>) { return ccm::internal::impl::logb_impl(num); }
-		else
-		{
-			return static_cast<T>(ccm::internal::impl::logb_impl(static_cast<double>(num)));
-		}
+		return ccm::internal::impl::logb_impl(num);
 	}
 } // namespace ccm::gen
diff --git a/include/ccmath/internal/math/generic/func/fmanip/modf_gen.hpp b/include/ccmath/internal/math/generic/func/fmanip/modf_gen.hpp
index 16bb402..6a6d07c 100644
--- a/include/ccmath/internal/math/generic/func/fmanip/modf_gen.hpp
+++ b/include/ccmath/internal/math/generic/func/fmanip/modf_gen.hpp
@@ -19,14 +19,6 @@ namespace ccm::gen
 	template <typename T, std::enable_if_t<std::is_floating_point_v<T>, bool> = true>
 	constexpr T modf_gen(T x, T * iptr) noexcept
 	{
-		if constexpr (std::is_same_v<T, float>) { return internal::impl::modf_impl(x, iptr); }
-		else if constexpr (std::is_same_v<T, double>) { return internal::impl::modf_impl(x, iptr); }
-		else
-		{
-			double integer_part{};
-			const double fractional = internal::impl::modf_impl(static_cast<double>(x), &integer_part);
-			*iptr					= static_cast<T>(integer_part);
-			return static_cast<T>(fractional);
-		}
+		return internal::impl::modf_impl(x, iptr);
 	}
 } // namespace ccm::gen
diff --git a/include/ccmath/math/fmanip/modf.hpp b/include/ccmath/math/fmanip/modf.hpp
index bf3bcc0..85083b8 100644
--- a/include/ccmath/math/fmanip/modf.hpp
+++ b/include/ccmath/math/fmanip/modf.hpp
@@ -38,14 +38,9 @@ namespace ccm
 			*iptr			   = integer_part;
 			return fractional;
 		}
-		else if constexpr (std::is_same_v<T, float>) { return internal::impl::modf_impl(x, iptr); }
-		else if constexpr (std::is_same_v<T, double>) { return internal::impl::modf_impl(x, iptr); }
 		else
 		{
-			double integer_part{};
-			const double fractional = internal::impl::modf_impl(static_cast<double>(x), &integer_part);
-			*iptr					= static_cast<T>(integer_part);
-			return static_cast<T>(fractional);
+			return internal::impl::modf_impl(x, iptr);
 		}
 	}
 
-- 
2.43.0


From 7f64e1b13f5e8307150872bf718068d7ab41ba4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:05 +0000
Subject: [PATCH 17/61] fix: constexpr nextafter/nexttoward/nextup/nextdown of
 long double never used the 80-bit kernel and returned invalid encodings

---
 .../ccmath/internal/math/generic/func/fmanip/nextafter_gen.hpp  | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/ccmath/internal/math/generic/func/fmanip/nextafter_gen.hpp b/include/ccmath/internal/math/generic/func/fmanip/nextafter_gen.hpp
index de439ba..d099362 100644
--- a/include/ccmath/internal/math/generic/func/fmanip/nextafter_gen.hpp
+++ b/include/ccmath/internal/math/generic/func/fmanip/nextafter_gen.hpp
@@ -57,7 +57,7 @@ namespace ccm::gen
 #if defined(CCM_TYPES_LONG_DOUBLE_IS_FLOAT80)
 	// Specialization for 80-bit long double
 	// NOLINTNEXTLINE(readability-function-cognitive-complexity) - This function is complex by nature due to the nature of handling 80-bit long double
-	constexpr long double nextafter(long double from, long double to)
+	constexpr long double nextafter_gen(long double from, long double to) noexcept
 	{
 		using FPBits_t = ccm::support::fp::FPBits<long double>;
 		FPBits_t from_bits(from);
-- 
2.43.0


From b951a90e22cf95363a2e5b31f359e18daeecd895 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:05 +0000
Subject: [PATCH 18/61] fix: long double fma with a zero addend got the sign of
 an underflowing product wrong

---
 include/ccmath/internal/support/fp/fma.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/ccmath/internal/support/fp/fma.hpp b/include/ccmath/internal/support/fp/fma.hpp
index 429a3d8..13ca572 100644
--- a/include/ccmath/internal/support/fp/fma.hpp
+++ b/include/ccmath/internal/support/fp/fma.hpp
@@ -510,7 +510,9 @@ namespace ccm::support::fp
 				return FPBits::quiet_nan().get_val();
 			}
 
-			if (CCM_UNLIKELY(x == T(0) || y == T(0) || z == T(0))) { return x * y + z; }
+			if (CCM_UNLIKELY(x == T(0) || y == T(0))) { return x * y + z; }
+			// The sum with a zero addend is the rounded product, whose sign survives even when it underflows to zero.
+			if (CCM_UNLIKELY(z == T(0))) { return x * y; }
 
 			int x_exp = 0;
 			int y_exp = 0;
-- 
2.43.0


From 70ea0a9ac755ac2a71d8e673550615afb059dae9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:25 +0000
Subject: [PATCH 19/61] fix: constexpr fdim returned infinity for differences
 that round to the largest finite value

---
 include/ccmath/internal/math/generic/func/basic/fdim_gen.hpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/include/ccmath/internal/math/generic/func/basic/fdim_gen.hpp b/include/ccmath/internal/math/generic/func/basic/fdim_gen.hpp
index d23e4be..1156797 100644
--- a/include/ccmath/internal/math/generic/func/basic/fdim_gen.hpp
+++ b/include/ccmath/internal/math/generic/func/basic/fdim_gen.hpp
@@ -40,7 +40,6 @@ namespace ccm::gen
 			if (CCM_UNLIKELY(x_bits.is_nan())) { return x; }
 			if (CCM_UNLIKELY(y_bits.is_nan())) { return y; }
 			if (x <= y) { return static_cast<T>(+0.0); }
-			if (y < static_cast<T>(0.0) && x > std::numeric_limits<T>::max() + y) { return std::numeric_limits<T>::infinity(); }
 			return x - y;
 		}
 	}
-- 
2.43.0


From b9798993beaab1b0ceb825a0b72a8bcc395a15b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:25 +0000
Subject: [PATCH 20/61] fix: constexpr fmod was inexact and ignored a NaN
 divisor of zero

---
 include/ccmath/math/basic/fmod.hpp | 40 ++++++++++++++++++++++++------
 1 file changed, 32 insertions(+), 8 deletions(-)

diff --git a/include/ccmath/math/basic/fmod.hpp b/include/ccmath/math/basic/fmod.hpp
index 461a062..8188f09 100644
--- a/include/ccmath/math/basic/fmod.hpp
+++ b/include/ccmath/math/basic/fmod.hpp
@@ -24,6 +24,26 @@ namespace ccm
 	/// @cond CCMATH_INTERNAL
 	namespace internal::impl
 	{
+		/// The exact remainder of finite x and nonzero finite y by binary long division.
+		template <typename T>
+		constexpr T fmod_long_division(T x, T y) noexcept
+		{
+			const T abs_y = y < T(0) ? -y : y;
+			T rem		  = x < T(0) ? -x : x;
+			if (rem < abs_y) { return x; }
+
+			T scaled = abs_y;
+			while (scaled <= rem / T(2)) { scaled *= T(2); }
+			while (true)
+			{
+				if (rem >= scaled) { rem -= scaled; }
+				if (scaled == abs_y) { break; }
+				scaled /= T(2);
+			}
+
+			return x < T(0) ? -rem : rem;
+		}
+
 		template <typename T>
 		constexpr T fmod_impl_check(T x, T y) noexcept
 		{
@@ -39,6 +59,13 @@ namespace ccm
 				const FPBits_t x_bits(x);
 				const FPBits_t y_bits(y);
 
+				// If either argument is NaN, NaN is returned.
+				if (CCM_UNLIKELY(x_bits.is_nan() || y_bits.is_nan()))
+				{
+					// Same problem as before, but this time all major compilers return a positive NaN.
+					return std::numeric_limits<T>::quiet_NaN();
+				}
+
 				// If x is ±0 and y is not zero, ±0 is returned.
 				if (CCM_UNLIKELY(x_bits.is_zero() && !y_bits.is_zero()))
 				{
@@ -59,16 +86,13 @@ namespace ccm
 
 				// If y is ±∞ and x is finite, x is returned.
 				if (CCM_UNLIKELY(y_bits.is_inf() && x_bits.is_finite())) { return x; }
-
-				// If either argument is NaN, NaN is returned.
-				if (CCM_UNLIKELY(x_bits.is_nan() || y_bits.is_nan()))
-				{
-					// Same problem as before, but this time all major compilers return a positive NaN.
-					return std::numeric_limits<T>::quiet_NaN();
-				}
 			}
 
-			return static_cast<T>(x - (ccm::trunc<T>(x / y) * y));
+			if constexpr (std::is_floating_point_v<T>) { return fmod_long_division(x, y); }
+			else
+			{
+				return static_cast<T>(x - (ccm::trunc<T>(x / y) * y));
+			}
 		}
 
 		template <typename T, typename U, typename TC = std::common_type_t<T, U>>
-- 
2.43.0


From 069d09ab39f3e12a3bf2576d956e64a6822769e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:08 +0000
Subject: [PATCH 21/61] fix: constexpr remainder used the truncated quotient
 and remquo(long double) went through double

---
 .../math/basic/impl/remquo_ldouble_impl.hpp   | 82 ++++++++++++++-----
 include/ccmath/math/basic/remainder.hpp       |  8 +-
 include/ccmath/math/basic/remquo.hpp          |  8 +-
 3 files changed, 69 insertions(+), 29 deletions(-)

diff --git a/include/ccmath/math/basic/impl/remquo_ldouble_impl.hpp b/include/ccmath/math/basic/impl/remquo_ldouble_impl.hpp
index b062743..aa0ee9c 100644
--- a/include/ccmath/math/basic/impl/remquo_ldouble_impl.hpp
+++ b/include/ccmath/math/basic/impl/remquo_ldouble_impl.hpp
@@ -11,11 +11,9 @@
 #pragma once
 
 #include "ccmath/internal/predef/unlikely.hpp"
-#include "ccmath/internal/support/bits.hpp"
-#include "ccmath/math/basic/fabs.hpp"
+#include "ccmath/internal/support/fp/fp_bits.hpp"
 #include "ccmath/math/basic/fmod.hpp"
 
-#include <cstdint>
 #include <limits>
 
 namespace ccm::internal
@@ -24,25 +22,65 @@ namespace ccm::internal
 	{
 		constexpr long double remquo_ldouble_impl(long double x, long double y, int * quo) noexcept
 		{
-			/*
-				std::int32_t x_exponent{};
-				std::int32_t y_exponent{};
-				std::int32_t x_int32{};
-				std::int32_t y_int32{};
-
-				std::uint32_t x_sign{};
-				std::uint32_t y_msb{};
-				std::uint32_t x_lsb{};
-
-				int quotient_sign{};
-				int computed_quotient{};
-			 */
-			// TODO: For the time being this is mega on hold until we have access to
-			//       necessary implementations of int128_t. Without them extracting the
-			//       needed bits to perform the necessary operations would be extremely challenging
-			//       due to the fact that long double is extremely platform dependent.
-
-			return 0;
+			using FPBits_t = support::fp::FPBits<long double>;
+			const FPBits_t x_bits(x);
+			const FPBits_t y_bits(y);
+
+			// If y is zero, x is not finite or y is NaN.
+			if (CCM_UNLIKELY(y_bits.is_zero() || x_bits.is_inf_or_nan() || y_bits.is_nan())) { return (x * y) / (x * y); }
+
+			const bool x_negative		 = x_bits.is_neg();
+			const bool quotient_negative = x_negative != y_bits.is_neg();
+			int computed_quotient		 = 0;
+
+			y = y_bits.is_neg() ? -y : y;
+
+			constexpr long double max_value = std::numeric_limits<long double>::max();
+			if (y <= max_value / 8) { x = ccm::fmod(x, 8 * y); } // now |x| < 8 * y
+			x = x_negative ? -x : x;
+
+			if (y <= max_value / 4 && x >= 4 * y)
+			{
+				x -= 4 * y;
+				computed_quotient += 4;
+			}
+			if (y <= max_value / 2 && x >= 2 * y)
+			{
+				x -= 2 * y;
+				computed_quotient += 2;
+			}
+			if (y < 2 * std::numeric_limits<long double>::min())
+			{
+				if (x + x > y)
+				{
+					x -= y;
+					++computed_quotient;
+					if (x + x >= y)
+					{
+						x -= y;
+						++computed_quotient;
+					}
+				}
+			}
+			else
+			{
+				const long double y_half = 0.5L * y;
+				if (x > y_half)
+				{
+					x -= y;
+					++computed_quotient;
+					if (x >= y_half)
+					{
+						x -= y;
+						++computed_quotient;
+					}
+				}
+			}
+			*quo = quotient_negative ? -computed_quotient : computed_quotient;
+
+			// Make sure that the correct sign of zero results in round down mode.
+			if (x == 0.0L) { x = 0.0L; }
+			return x_negative ? -x : x;
 		}
 	} // namespace impl
 
diff --git a/include/ccmath/math/basic/remainder.hpp b/include/ccmath/math/basic/remainder.hpp
index e348688..357026c 100644
--- a/include/ccmath/math/basic/remainder.hpp
+++ b/include/ccmath/math/basic/remainder.hpp
@@ -15,7 +15,7 @@
 #include "ccmath/internal/predef/unlikely.hpp"
 #include "ccmath/internal/support/fp/fp_bits.hpp"
 #include "ccmath/internal/support/is_constant_evaluated.hpp"
-#include "ccmath/math/nearest/trunc.hpp"
+#include "ccmath/math/basic/remquo.hpp"
 
 namespace ccm
 {
@@ -48,7 +48,11 @@ namespace ccm
 			return -std::numeric_limits<T>::quiet_NaN();
 		}
 
-		return static_cast<T>(x - (ccm::trunc<T>(x / y) * y));
+		// If y is ±∞ and x is finite, x is returned.
+		if (CCM_UNLIKELY(y_bits.is_inf())) { return x; }
+
+		int quotient = 0;
+		return ccm::remquo<T>(x, y, &quotient);
 	}
 
 	/**
diff --git a/include/ccmath/math/basic/remquo.hpp b/include/ccmath/math/basic/remquo.hpp
index b977f9b..a52d0d1 100644
--- a/include/ccmath/math/basic/remquo.hpp
+++ b/include/ccmath/math/basic/remquo.hpp
@@ -12,6 +12,7 @@
 
 #include "ccmath/math/basic/impl/remquo_double_impl.hpp"
 #include "ccmath/math/basic/impl/remquo_float_impl.hpp"
+#include "ccmath/math/basic/impl/remquo_ldouble_impl.hpp"
 
 namespace ccm
 {
@@ -48,6 +49,7 @@ namespace ccm
 	constexpr T remquo(T x, T y, int * quo)
 	{
 		if constexpr (std::is_same_v<T, float>) { return internal::remquo_float(x, y, quo); }
+		else if constexpr (std::is_same_v<T, long double>) { return internal::remquo_ldouble(x, y, quo); }
 		else
 		{
 			return internal::remquo_double(x, y, quo);
@@ -151,11 +153,7 @@ namespace ccm
 	 * @see https://en.cppreference.com/w/cpp/numeric/math/remquo
 	 */
 	constexpr long double remquol(long double x, long double y, int * quo)
-	{
-		// Currently, due to technical issues, the long double version of remquo is not implemented.
-		// For now, we will cast the long double variables to a double and call the double version of remquo.
-		return static_cast<long double>(ccm::remquo<double>(static_cast<double>(x), static_cast<double>(y), quo));
-	}
+	{ return ccm::remquo<long double>(x, y, quo); }
 } // namespace ccm
 
 /// @ingroup basic
-- 
2.43.0


From 9e7c060d2f63d2ee1c3cc6fd0c1d5cc7af4ffe27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:10 +0000
Subject: [PATCH 22/61] fix: pow lost accuracy on FMA targets when the compiler
 contracted Dekker's splitting (exact_mult)

---
 include/ccmath/internal/types/double_double.hpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/include/ccmath/internal/types/double_double.hpp b/include/ccmath/internal/types/double_double.hpp
index 1bf6495..f69d55f 100644
--- a/include/ccmath/internal/types/double_double.hpp
+++ b/include/ccmath/internal/types/double_double.hpp
@@ -79,6 +79,16 @@ namespace ccm
 		constexpr DoubleDouble exact_mult(double a, double b)
 		{
 			DoubleDouble r{ 0.0, 0.0 };
+#ifdef CCMATH_TARGET_CPU_HAS_FMA
+			// Dekker's product is exact only in round to nearest and only when the compiler does not
+			// contract the splitting below, which it may do on a target with FMA.
+			if (!support::is_constant_evaluated())
+			{
+				r.hi = a * b;
+				r.lo = exact_fma(a, b, -r.hi);
+				return r;
+			}
+#endif
 			// Dekker's Product.
 			const DoubleDouble as = split(a);
 			const DoubleDouble bs = split(b);
-- 
2.43.0


From ab52ce0647749c4ab8d3ed2d9a21aa77f39a2e81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:41 +0000
Subject: [PATCH 23/61] fix: constexpr pow(long double) rounded to
 half-integers in its range reduction

---
 .../math/generic/func/power/pow_impl/powl_ld80_kernel.hpp       | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/ccmath/internal/math/generic/func/power/pow_impl/powl_ld80_kernel.hpp b/include/ccmath/internal/math/generic/func/power/pow_impl/powl_ld80_kernel.hpp
index 0ee6cce..9bfd27b 100644
--- a/include/ccmath/internal/math/generic/func/power/pow_impl/powl_ld80_kernel.hpp
+++ b/include/ccmath/internal/math/generic/func/power/pow_impl/powl_ld80_kernel.hpp
@@ -85,7 +85,7 @@ namespace ccm::gen::internal::impl::bit80
 
 			if (constexpr long double max_exact_int = 0x1.0p63L; x < max_exact_int && x > -max_exact_int)
 			{
-				constexpr long double round_offset = 0x1.0p62L;
+				constexpr long double round_offset = 0x1.0p63L;
 				return x < 0.0L ? (x - round_offset) + round_offset : (x + round_offset) - round_offset;
 			}
 			return x;
-- 
2.43.0


From 14205717909bc360f4dcc36dbd707d0bd15a5b24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:37 +0000
Subject: [PATCH 24/61] fix: constexpr pow(long double) with a negative
 integral exponent was NaN near overflow and zero for subnormal results

---
 .../internal/math/generic/func/power/powl_gen.hpp | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/include/ccmath/internal/math/generic/func/power/powl_gen.hpp b/include/ccmath/internal/math/generic/func/power/powl_gen.hpp
index 2f774e7..a61e1ad 100644
--- a/include/ccmath/internal/math/generic/func/power/powl_gen.hpp
+++ b/include/ccmath/internal/math/generic/func/power/powl_gen.hpp
@@ -238,8 +238,8 @@ namespace ccm::gen
 				{
 					const long double r0 = 1.0L / p.hi;
 					if (r0 == 0.0L || ccm::isinf(r0) || ccm::isnan(r0)) { return r0; }
-					// p.hi near LDBL_MAX would overflow the split. r0 alone is already within an ULP.
-					if (abs_ld(p.hi) >= kSplitSafe) { return r0; }
+					// p.hi or r0 near LDBL_MAX would overflow the split. r0 alone is already within an ULP.
+					if (abs_ld(p.hi) >= kSplitSafe || abs_ld(r0) >= kSplitSafe) { return r0; }
 					const Pair pr		  = bit80::powl_ld80_detail::exact_mult(p.hi, r0);
 					const long double res = ((1.0L - pr.hi) - pr.lo) - p.lo * r0;
 					return r0 + r0 * res;
@@ -254,7 +254,16 @@ namespace ccm::gen
 #if defined(CCM_TYPES_LONG_DOUBLE_IS_FLOAT80)
 				const std::uint64_t magnitude = exp < 0 ? static_cast<std::uint64_t>(-(exp + 1)) + 1U : static_cast<std::uint64_t>(exp);
 				const powl_dd::Pair p		  = powl_dd::ipow(base, magnitude);
-				if (exp < 0) { return powl_dd::reciprocal(p); }
+				if (exp < 0)
+				{
+					// base^|exp| may leave the normal range while its reciprocal does not. Its square root is well inside.
+					if (ccm::isinf(p.hi) || p.hi < std::numeric_limits<long double>::min())
+					{
+						const std::uint64_t half = magnitude / 2U;
+						return powl_dd::reciprocal(powl_dd::ipow(base, half)) * powl_dd::reciprocal(powl_dd::ipow(base, magnitude - half));
+					}
+					return powl_dd::reciprocal(p);
+				}
 				return p.hi + p.lo;
 #else
 				if (exp < 0) { return 1.0L / powl_bounded_integer(base, -exp); }
-- 
2.43.0


From c4bcc0b05466199fe143a70a0842ea77495a78fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:58 +0000
Subject: [PATCH 25/61] fix: min of mixed types truncated its result to the
 type of the first argument

---
 include/ccmath/math/basic/min.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/ccmath/math/basic/min.hpp b/include/ccmath/math/basic/min.hpp
index 0a337d8..54f2e14 100644
--- a/include/ccmath/math/basic/min.hpp
+++ b/include/ccmath/math/basic/min.hpp
@@ -54,7 +54,7 @@ namespace ccm
 	 * @see https://en.cppreference.com/w/cpp/numeric/math/fmin
 	 */
 	template <typename T, typename U>
-	constexpr T min(const T x, const U y) noexcept
+	constexpr auto min(const T x, const U y) noexcept
 	{
 		// Find the common type of the two arguments
 		using shared_type = std::common_type_t<T, U>;
-- 
2.43.0


From e57b7b41a10f78a6f391e1991dcbb068015e8370 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:24 +0000
Subject: [PATCH 26/61] fix: fmod of integers divided in integers (trapping on
 zero) and its mixed overload could not be called

---
 include/ccmath/math/basic/fmod.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/ccmath/math/basic/fmod.hpp b/include/ccmath/math/basic/fmod.hpp
index 8188f09..4236364 100644
--- a/include/ccmath/math/basic/fmod.hpp
+++ b/include/ccmath/math/basic/fmod.hpp
@@ -95,7 +95,7 @@ namespace ccm
 			}
 		}
 
-		template <typename T, typename U, typename TC = std::common_type_t<T, U>>
+		template <typename T, typename U, typename TC = std::conditional_t<std::is_integral_v<std::common_type_t<T, U>>, double, std::common_type_t<T, U>>>
 		constexpr TC fmod_impl_type_check(T x, U y) noexcept
 		{ return fmod_impl_check(static_cast<TC>(x), static_cast<TC>(y)); }
 	} // namespace internal::impl
@@ -136,7 +136,7 @@ namespace ccm
 	 * @see https://en.cppreference.com/w/cpp/numeric/math/fmod
 	 */
 	template <typename T, typename U>
-	constexpr auto fmod(T x, T y)
+	constexpr auto fmod(T x, U y)
 	{ return internal::impl::fmod_impl_type_check(x, y); }
 
 	/**
-- 
2.43.0


From 8f1b92b132943e200f9af653b6e84f52e92ebac5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:24 +0000
Subject: [PATCH 27/61] fix: remquo of integers called itself forever

---
 include/ccmath/math/basic/remquo.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/ccmath/math/basic/remquo.hpp b/include/ccmath/math/basic/remquo.hpp
index a52d0d1..90c7092 100644
--- a/include/ccmath/math/basic/remquo.hpp
+++ b/include/ccmath/math/basic/remquo.hpp
@@ -87,9 +87,10 @@ namespace ccm
 	 * @see https://en.cppreference.com/w/cpp/numeric/math/remquo
 	 */
 	template <class Arithmetic1, class Arithmetic2, std::enable_if_t<std::is_arithmetic_v<Arithmetic1> && std::is_arithmetic_v<Arithmetic2>, bool> = true>
-	constexpr std::common_type_t<Arithmetic1, Arithmetic2> remquo(Arithmetic1 x, Arithmetic2 y, int * quo)
+	constexpr auto remquo(Arithmetic1 x, Arithmetic2 y, int * quo)
 	{
-		using shared_type = std::common_type_t<Arithmetic1, Arithmetic2>;
+		using common_type = std::common_type_t<Arithmetic1, Arithmetic2>;
+		using shared_type = std::conditional_t<std::is_integral_v<common_type>, double, common_type>;
 		return ccm::remquo<shared_type>(static_cast<shared_type>(x), static_cast<shared_type>(y), quo);
 	}
 
-- 
2.43.0


From 6aa61064c0841f891bfacc7ba1878eeaf5ff32a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:24 +0000
Subject: [PATCH 28/61] fix: nextafter of mixed types did not return the next
 value of the promoted common type

---
 include/ccmath/math/fmanip/nextafter.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/ccmath/math/fmanip/nextafter.hpp b/include/ccmath/math/fmanip/nextafter.hpp
index 85f0f45..d8708cc 100644
--- a/include/ccmath/math/fmanip/nextafter.hpp
+++ b/include/ccmath/math/fmanip/nextafter.hpp
@@ -49,7 +49,11 @@ namespace ccm
 	 */
 	template <typename Arithmetic1, typename Arithmetic2, std::enable_if_t<std::is_arithmetic_v<Arithmetic1> && std::is_arithmetic_v<Arithmetic2>, bool> = true>
 	constexpr auto nextafter(Arithmetic1 from, Arithmetic2 to) noexcept
-	{ return gen::nextafter_gen(from, to); }
+	{
+		using common_type = std::common_type_t<Arithmetic1, Arithmetic2>;
+		using result_type = std::conditional_t<std::is_integral_v<common_type>, double, common_type>;
+		return ccm::nextafter<result_type>(static_cast<result_type>(from), static_cast<result_type>(to));
+	}
 
 	/**
 	 * @brief Returns the next representable float from from toward to.
-- 
2.43.0


From 8b2d9fc8863cbd0b369f251fd6bf128d1f41e795 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:24 +0000
Subject: [PATCH 29/61] fix: three-dimensional hypot of integers did not
 compile

---
 include/ccmath/math/power/hypot.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/ccmath/math/power/hypot.hpp b/include/ccmath/math/power/hypot.hpp
index 2d3c5ea..f6cade2 100644
--- a/include/ccmath/math/power/hypot.hpp
+++ b/include/ccmath/math/power/hypot.hpp
@@ -62,7 +62,8 @@ namespace ccm
 			  std::enable_if_t<std::is_arithmetic_v<Arithmetic1> && std::is_arithmetic_v<Arithmetic2> && std::is_arithmetic_v<Arithmetic3>, bool> = true>
 	constexpr auto hypot(Arithmetic1 x, Arithmetic2 y, Arithmetic3 z) noexcept
 	{
-		using shared_type = std::common_type_t<Arithmetic1, Arithmetic2, Arithmetic3>;
+		using common_type = std::common_type_t<Arithmetic1, Arithmetic2, Arithmetic3>;
+		using shared_type = std::conditional_t<std::is_integral_v<common_type>, double, common_type>;
 		return ccm::hypot(static_cast<shared_type>(x), static_cast<shared_type>(y), static_cast<shared_type>(z));
 	}
 
-- 
2.43.0


From ef65aae5b1db07d6b2160ffe201f9e1792f5b5be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:37 +0000
Subject: [PATCH 30/61] fix: fmax of two integers was ambiguous

---
 include/ccmath/math/basic/max.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/ccmath/math/basic/max.hpp b/include/ccmath/math/basic/max.hpp
index fbf9c72..4f16591 100644
--- a/include/ccmath/math/basic/max.hpp
+++ b/include/ccmath/math/basic/max.hpp
@@ -72,7 +72,7 @@ namespace ccm
 	 * @return If successful, returns the larger of two floating point values. The value returned is exact and does not depend on any rounding modes.
 	 * @see https://en.cppreference.com/w/cpp/numeric/math/fmax
 	 */
-	template <typename T>
+	template <typename T, std::enable_if_t<!std::is_integral_v<T>, bool> = true>
 	constexpr T fmax(T x, T y) noexcept
 	{ return max<T>(x, y); }
 
-- 
2.43.0


From 978bd7a3014701a7e71e91ba5fb4979eb1101de1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:11 +0000
Subject: [PATCH 31/61] fix: the mixed fmod overload made fmod<T> ambiguous
 when its address is taken

---
 include/ccmath/math/basic/fmod.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/ccmath/math/basic/fmod.hpp b/include/ccmath/math/basic/fmod.hpp
index 4236364..aa662ba 100644
--- a/include/ccmath/math/basic/fmod.hpp
+++ b/include/ccmath/math/basic/fmod.hpp
@@ -135,7 +135,7 @@ namespace ccm
 	 * @return The floating-point remainder of the division operation x/y.
 	 * @see https://en.cppreference.com/w/cpp/numeric/math/fmod
 	 */
-	template <typename T, typename U>
+	template <typename T, typename U, std::enable_if_t<!std::is_same_v<T, U>, bool> = true>
 	constexpr auto fmod(T x, U y)
 	{ return internal::impl::fmod_impl_type_check(x, y); }
 
-- 
2.43.0


From acb9faac07a5d16e14d044f2a82ec2de79f7904a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:05 +0000
Subject: [PATCH 32/61] fix: the comparison functions called themselves forever
 for two integers

---
 include/ccmath/math/compare/isgreater.hpp      | 3 ++-
 include/ccmath/math/compare/isgreaterequal.hpp | 3 ++-
 include/ccmath/math/compare/isless.hpp         | 3 ++-
 include/ccmath/math/compare/islessequal.hpp    | 3 ++-
 include/ccmath/math/compare/islessgreater.hpp  | 3 ++-
 include/ccmath/math/compare/isunordered.hpp    | 3 ++-
 6 files changed, 12 insertions(+), 6 deletions(-)

diff --git a/include/ccmath/math/compare/isgreater.hpp b/include/ccmath/math/compare/isgreater.hpp
index 6daf632..10b15a4 100644
--- a/include/ccmath/math/compare/isgreater.hpp
+++ b/include/ccmath/math/compare/isgreater.hpp
@@ -46,7 +46,8 @@ namespace ccm
 	constexpr bool isgreater(Arithmetic1 x, Arithmetic2 y) noexcept
 	{
 		// Find the common type of the two arguments
-		using shared_type = std::common_type_t<Arithmetic1, Arithmetic2>;
+		using common_type = std::common_type_t<Arithmetic1, Arithmetic2>;
+		using shared_type = std::conditional_t<std::is_integral_v<common_type>, double, common_type>;
 
 		// Then cast the arguments to the common type and call the single argument version
 		return static_cast<shared_type>(isgreater<shared_type>(static_cast<shared_type>(x), static_cast<shared_type>(y)));
diff --git a/include/ccmath/math/compare/isgreaterequal.hpp b/include/ccmath/math/compare/isgreaterequal.hpp
index c2d8a3c..4175a8e 100644
--- a/include/ccmath/math/compare/isgreaterequal.hpp
+++ b/include/ccmath/math/compare/isgreaterequal.hpp
@@ -46,7 +46,8 @@ namespace ccm
 	constexpr bool isgreaterequal(Arithmetic1 x, Arithmetic2 y) noexcept
 	{
 		// Find the common type of the two arguments
-		using shared_type = std::common_type_t<Arithmetic1, Arithmetic2>;
+		using common_type = std::common_type_t<Arithmetic1, Arithmetic2>;
+		using shared_type = std::conditional_t<std::is_integral_v<common_type>, double, common_type>;
 
 		// Then cast the arguments to the common type and call the single argument version
 		return static_cast<shared_type>(isgreaterequal<shared_type>(static_cast<shared_type>(x), static_cast<shared_type>(y)));
diff --git a/include/ccmath/math/compare/isless.hpp b/include/ccmath/math/compare/isless.hpp
index 91972a5..60a953c 100644
--- a/include/ccmath/math/compare/isless.hpp
+++ b/include/ccmath/math/compare/isless.hpp
@@ -46,7 +46,8 @@ namespace ccm
 	constexpr bool isless(Arithmetic1 x, Arithmetic2 y) noexcept
 	{
 		// Find the common type of the two arguments
-		using shared_type = std::common_type_t<Arithmetic1, Arithmetic2>;
+		using common_type = std::common_type_t<Arithmetic1, Arithmetic2>;
+		using shared_type = std::conditional_t<std::is_integral_v<common_type>, double, common_type>;
 
 		// Then cast the arguments to the common type and call the single argument version
 		return static_cast<shared_type>(isless<shared_type>(static_cast<shared_type>(x), static_cast<shared_type>(y)));
diff --git a/include/ccmath/math/compare/islessequal.hpp b/include/ccmath/math/compare/islessequal.hpp
index fe2df04..fe9e546 100644
--- a/include/ccmath/math/compare/islessequal.hpp
+++ b/include/ccmath/math/compare/islessequal.hpp
@@ -46,7 +46,8 @@ namespace ccm
 	constexpr bool islessequal(Arithmetic1 x, Arithmetic2 y) noexcept
 	{
 		// Find the common type of the two arguments
-		using shared_type = std::common_type_t<Arithmetic1, Arithmetic2>;
+		using common_type = std::common_type_t<Arithmetic1, Arithmetic2>;
+		using shared_type = std::conditional_t<std::is_integral_v<common_type>, double, common_type>;
 
 		// Then cast the arguments to the common type and call the single argument version
 		return static_cast<shared_type>(islessequal<shared_type>(static_cast<shared_type>(x), static_cast<shared_type>(y)));
diff --git a/include/ccmath/math/compare/islessgreater.hpp b/include/ccmath/math/compare/islessgreater.hpp
index 97b092b..43c8c3d 100644
--- a/include/ccmath/math/compare/islessgreater.hpp
+++ b/include/ccmath/math/compare/islessgreater.hpp
@@ -45,7 +45,8 @@ namespace ccm
 	template <typename Arithmetic1, typename Arithmetic2, std::enable_if_t<std::is_arithmetic_v<Arithmetic1> && std::is_arithmetic_v<Arithmetic2>, bool> = true>
 	constexpr bool islessgreater(Arithmetic1 x, Arithmetic2 y) noexcept
 	{
-		using shared_type = std::common_type_t<Arithmetic1, Arithmetic2>;
+		using common_type = std::common_type_t<Arithmetic1, Arithmetic2>;
+		using shared_type = std::conditional_t<std::is_integral_v<common_type>, double, common_type>;
 		return static_cast<shared_type>(islessgreater<shared_type>(static_cast<shared_type>(x), static_cast<shared_type>(y)));
 	}
 } // namespace ccm
diff --git a/include/ccmath/math/compare/isunordered.hpp b/include/ccmath/math/compare/isunordered.hpp
index fd5ac05..b90645d 100644
--- a/include/ccmath/math/compare/isunordered.hpp
+++ b/include/ccmath/math/compare/isunordered.hpp
@@ -56,7 +56,8 @@ namespace ccm
 	template <typename T, typename U>
 	constexpr bool isunordered(T x, U y) noexcept
 	{
-		using shared_type = std::common_type_t<T, U>;
+		using common_type = std::common_type_t<T, U>;
+		using shared_type = std::conditional_t<std::is_integral_v<common_type>, double, common_type>;
 		return static_cast<shared_type>(isunordered<shared_type>(static_cast<shared_type>(x), static_cast<shared_type>(y)));
 	}
 } // namespace ccm
-- 
2.43.0


From c37a6393f2747bc0541fcf62eddf0ddd6df64574 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:05 +0000
Subject: [PATCH 33/61] fix: nexttoward of an integer stepped in long double
 and returned the argument

---
 include/ccmath/math/fmanip/nexttoward.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/ccmath/math/fmanip/nexttoward.hpp b/include/ccmath/math/fmanip/nexttoward.hpp
index 42f54cc..5c5e89a 100644
--- a/include/ccmath/math/fmanip/nexttoward.hpp
+++ b/include/ccmath/math/fmanip/nexttoward.hpp
@@ -48,7 +48,7 @@ namespace ccm
 	 */
 	template <typename Integer, std::enable_if_t<std::is_integral_v<Integer>, bool> = true>
 	constexpr double nexttoward(Integer from, long double to) noexcept
-	{ return gen::nextafter_gen(from, to); }
+	{ return ccm::nexttoward<double>(static_cast<double>(from), to); }
 
 	/**
 	 * @brief Returns the next representable float from from toward to.
-- 
2.43.0


From aeb0c980910e73aa3766869e83840cec214abf10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:01 +0000
Subject: [PATCH 34/61] fix: pow_simd differed from the scalar kernel when the
 compiler contracted Dekker's splitting

---
 .../func/power/pow_impl/pow_simd_impl.hpp     | 26 ++++---------------
 1 file changed, 5 insertions(+), 21 deletions(-)

diff --git a/include/ccmath/internal/math/generic/func/power/pow_impl/pow_simd_impl.hpp b/include/ccmath/internal/math/generic/func/power/pow_impl/pow_simd_impl.hpp
index 61327ef..c255d35 100644
--- a/include/ccmath/internal/math/generic/func/power/pow_impl/pow_simd_impl.hpp
+++ b/include/ccmath/internal/math/generic/func/power/pow_impl/pow_simd_impl.hpp
@@ -56,30 +56,14 @@ namespace ccm::gen::impl
 			return v_exact_add(r.hi, r.lo + (a.lo + b.lo));
 		}
 
-		// Veltkamp's splitting.
-		template <typename Abi>
-		CCM_ALWAYS_INLINE VDD<Abi> v_split(pp::basic_simd<double, Abi> const & a) noexcept
-		{
-			using DVec = pp::basic_simd<double, Abi>;
-			const DVec c(0x1.0p27 + 1.0);
-			const DVec t1 = c * a;
-			const DVec t2 = a - t1;
-			const DVec hi = t1 + t2;
-			return { hi, a - hi };
-		}
-
-		// Dekker's product, mirroring types::exact_mult.
+		// types::exact_mult. These helpers are only instantiated on FMA targets, where the scalar
+		// product is fused too; Dekker's splitting would be inexact once the compiler contracts it.
 		template <typename Abi>
 		CCM_ALWAYS_INLINE VDD<Abi> v_exact_mult(pp::basic_simd<double, Abi> const & a, pp::basic_simd<double, Abi> const & b) noexcept
 		{
-			using DVec		  = pp::basic_simd<double, Abi>;
-			const VDD<Abi> as = v_split(a);
-			const VDD<Abi> bs = v_split(b);
-			const DVec hi	  = a * b;
-			const DVec t1	  = as.hi * bs.hi - hi;
-			const DVec t2	  = as.hi * bs.lo + t1;
-			const DVec t3	  = as.lo * bs.hi + t2;
-			return { hi, as.lo * bs.lo + t3 };
+			using DVec	  = pp::basic_simd<double, Abi>;
+			const DVec hi = a * b;
+			return { hi, pp::fma(a, b, -hi) };
 		}
 
 		// types::quick_mult(double, DoubleDouble).
-- 
2.43.0


From 4ae12b626d7f10e1626e19efce69cd1fb882c7ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:30 +0000
Subject: [PATCH 35/61] fix: pow_simd raised flags for huge and NaN exponents
 that its scalar lanes do not raise

---
 .../math/generic/func/power/pow_impl/pow_simd_impl.hpp      | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/ccmath/internal/math/generic/func/power/pow_impl/pow_simd_impl.hpp b/include/ccmath/internal/math/generic/func/power/pow_impl/pow_simd_impl.hpp
index c255d35..fa8ec62 100644
--- a/include/ccmath/internal/math/generic/func/power/pow_impl/pow_simd_impl.hpp
+++ b/include/ccmath/internal/math/generic/func/power/pow_impl/pow_simd_impl.hpp
@@ -148,8 +148,10 @@ namespace ccm::gen::impl
 			// zero exponent, base one, non-finite operands, zero, negative, or subnormal
 			// bases, integer and half-integer exponents (the exact ipow / sqrt paths), and
 			// huge exponents that take the clamped over/underflow route.
-			const DVec two_y	   = y * DVec(2.0);
-			const auto is_half_int = (sd::v_nearest_integer(two_y) == two_y) & (pp::abs(two_y) <= DVec(2048.0));
+			// Doubling and comparing only exponents of at most 1024 keeps huge and NaN lanes flag clean.
+			const auto y_is_moderate = y_abs <= U64(0x4090'0000'0000'0000ULL);
+			const DVec two_y		 = pp::simd_select(y_is_moderate, y, DVec(0.375)) * DVec(2.0);
+			const auto is_half_int	 = sd::v_nearest_integer(two_y) == two_y;
 
 			auto special = (y_abs == U64(0)) | (xu == U64(0x3ff0'0000'0000'0000ULL)) | (x_abs >= U64(0x7ff0'0000'0000'0000ULL)) |
 						   (y_abs >= U64(0x7ff0'0000'0000'0000ULL)) | (x_abs == U64(0)) | ((xu & U64(0x8000'0000'0000'0000ULL)) != U64(0)) |
-- 
2.43.0


From f0eee21c20d92dbd71a61def6c23c0a5f8abc5f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:40 +0000
Subject: [PATCH 36/61] fix: ceil_div overflowed for values within divisor-1 of
 the maximum

---
 include/ccmath/ext/ceil_div.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/ccmath/ext/ceil_div.hpp b/include/ccmath/ext/ceil_div.hpp
index 3bb5c20..451647e 100644
--- a/include/ccmath/ext/ceil_div.hpp
+++ b/include/ccmath/ext/ceil_div.hpp
@@ -26,7 +26,10 @@ namespace ccm::ext
 	 */
 	template <typename T, std::enable_if_t<std::is_integral_v<T> && !std::is_same_v<std::remove_cv_t<T>, bool>, bool> = true>
 	[[nodiscard]] constexpr T ceil_div(T value, T divisor) noexcept
-	{ return static_cast<T>((value + divisor - T(1)) / divisor); }
+	{
+		// Adding divisor - 1 first would overflow for large operands.
+		return static_cast<T>((value / divisor) + ((value % divisor) > 0 ? 1 : 0));
+	}
 
 	namespace safe
 	{
-- 
2.43.0


From 4ac0e85f62de0d50c3204a19c99696b4645ce456 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:40 +0000
Subject: [PATCH 37/61] fix: repeat returned values outside [0, length) for
 tiny negative and huge quotients

---
 include/ccmath/ext/repeat.hpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/include/ccmath/ext/repeat.hpp b/include/ccmath/ext/repeat.hpp
index 7d69825..8ff2f77 100644
--- a/include/ccmath/ext/repeat.hpp
+++ b/include/ccmath/ext/repeat.hpp
@@ -10,7 +10,7 @@
 
 #pragma once
 
-#include "ccmath/math/nearest/floor.hpp"
+#include "ccmath/math/basic/fmod.hpp"
 
 #include <type_traits>
 
@@ -25,7 +25,13 @@ namespace ccm::ext
 	 */
 	template <typename T, std::enable_if_t<std::is_floating_point_v<T>, bool> = true>
 	[[nodiscard]] constexpr T repeat(T value, T length) noexcept
-	{ return value - (ccm::floor(value / length) * length); }
+	{
+		// The remainder is exact, so the result stays in range however large the quotient is.
+		T result = ccm::fmod(value, length);
+		if (result == T(0)) { return T(0); }
+		if ((result < T(0)) != (length < T(0))) { result += length; }
+		return result == length ? T(0) : result;
+	}
 
 	namespace safe
 	{
-- 
2.43.0


From ba609edd2fcd396245588481f69093ffab1a59cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:40 +0000
Subject: [PATCH 38/61] fix: intrin simd storage and the scalar mask operators
 did not compile

---
 include/ccmath/internal/math/runtime/simd/common.hpp        | 6 +++---
 .../internal/math/runtime/simd/instructions/scalar.hpp      | 6 +++---
 include/ccmath/internal/math/runtime/simd/pack.hpp          | 3 +++
 3 files changed, 9 insertions(+), 6 deletions(-)

diff --git a/include/ccmath/internal/math/runtime/simd/common.hpp b/include/ccmath/internal/math/runtime/simd/common.hpp
index bf627b2..61d28dd 100644
--- a/include/ccmath/internal/math/runtime/simd/common.hpp
+++ b/include/ccmath/internal/math/runtime/simd/common.hpp
@@ -103,15 +103,15 @@ namespace ccm::intrin
 
 		CCM_ALWAYS_INLINE simd_storage() = default;
 		static constexpr int size() { return simd<T, Abi>::size(); }
-		CCM_ALWAYS_INLINE explicit simd_storage(simd<T, Abi> const& value) { value.copy_to(m_value, element_aligned_tag()); }
+		CCM_ALWAYS_INLINE explicit simd_storage(simd<T, Abi> const& value) { value.copy_to(m_value.data(), element_aligned_tag()); }
 		CCM_ALWAYS_INLINE explicit simd_storage(T value) : simd_storage(simd<T, Abi>(value)) {}
 		CCM_ALWAYS_INLINE simd_storage& operator=(simd<T, Abi> const& value)
 		{
-			value.copy_to(m_value, element_aligned_tag());
+			value.copy_to(m_value.data(), element_aligned_tag());
 			return *this;
 		}
 		CCM_ALWAYS_INLINE T const* data() const { return m_value.data(); }
-		CCM_ALWAYS_INLINE T* data() { return m_value; }
+		CCM_ALWAYS_INLINE T* data() { return m_value.data(); }
 		CCM_ALWAYS_INLINE T const& operator[](int i) const { return m_value[i]; }
 		CCM_ALWAYS_INLINE T& operator[](int i) { return m_value[i]; }
 
diff --git a/include/ccmath/internal/math/runtime/simd/instructions/scalar.hpp b/include/ccmath/internal/math/runtime/simd/instructions/scalar.hpp
index 3ad6f40..be2bc8e 100644
--- a/include/ccmath/internal/math/runtime/simd/instructions/scalar.hpp
+++ b/include/ccmath/internal/math/runtime/simd/instructions/scalar.hpp
@@ -31,9 +31,9 @@ namespace ccm::intrin
 		CCM_ALWAYS_INLINE CCM_GPU_HOST_DEVICE static constexpr int size() { return 1; }
 		CCM_ALWAYS_INLINE CCM_GPU_HOST_DEVICE explicit simd_mask(bool value) : m_value(value) {}
 		[[nodiscard]] CCM_GPU_HOST_DEVICE constexpr bool get() const { return m_value; }
-		CCM_ALWAYS_INLINE CCM_GPU_HOST_DEVICE simd_mask operator||(simd_mask const &other) const { return m_value || other.m_value; }
-		CCM_ALWAYS_INLINE CCM_GPU_HOST_DEVICE simd_mask operator&&(simd_mask const &other) const { return m_value && other.m_value; }
-		CCM_ALWAYS_INLINE CCM_GPU_HOST_DEVICE simd_mask operator!() const { return !m_value; }
+		CCM_ALWAYS_INLINE CCM_GPU_HOST_DEVICE simd_mask operator||(simd_mask const &other) const { return simd_mask(m_value || other.m_value); }
+		CCM_ALWAYS_INLINE CCM_GPU_HOST_DEVICE simd_mask operator&&(simd_mask const &other) const { return simd_mask(m_value && other.m_value); }
+		CCM_ALWAYS_INLINE CCM_GPU_HOST_DEVICE simd_mask operator!() const { return simd_mask(!m_value); }
 
 	private:
 		bool m_value;
diff --git a/include/ccmath/internal/math/runtime/simd/pack.hpp b/include/ccmath/internal/math/runtime/simd/pack.hpp
index 74b32d5..b7c6925 100644
--- a/include/ccmath/internal/math/runtime/simd/pack.hpp
+++ b/include/ccmath/internal/math/runtime/simd/pack.hpp
@@ -13,6 +13,9 @@
 #include "common.hpp"
 #include "simd_vectorize.hpp"
 
+#include <array>
+#include <cstdint>
+
 namespace ccm::intrin
 {
 
-- 
2.43.0


From 06a84ec7ec40b8ca3cf25844f0c7a4be315172b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:40 +0000
Subject: [PATCH 39/61] fix: negating a simd vector returned +0 for +0

---
 .../ccmath/internal/math/runtime/simd/instructions/avx2.hpp   | 4 ++--
 .../ccmath/internal/math/runtime/simd/instructions/sse2.hpp   | 4 ++--
 .../ccmath/internal/math/runtime/simd/instructions/sse4.hpp   | 4 ++--
 3 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/ccmath/internal/math/runtime/simd/instructions/avx2.hpp b/include/ccmath/internal/math/runtime/simd/instructions/avx2.hpp
index 76d5993..bfc2d1a 100644
--- a/include/ccmath/internal/math/runtime/simd/instructions/avx2.hpp
+++ b/include/ccmath/internal/math/runtime/simd/instructions/avx2.hpp
@@ -85,7 +85,7 @@ namespace ccm::intrin
 		CCM_ALWAYS_INLINE simd operator/(simd const &other) const { return { _mm256_div_ps(m_value, other.m_value) }; }
 		CCM_ALWAYS_INLINE simd operator+(simd const &other) const { return { _mm256_add_ps(m_value, other.m_value) }; }
 		CCM_ALWAYS_INLINE simd operator-(simd const &other) const { return { _mm256_sub_ps(m_value, other.m_value) }; }
-		CCM_ALWAYS_INLINE CCM_GPU_HOST_DEVICE simd operator-() const { return { _mm256_sub_ps(_mm256_set1_ps(0.0F), m_value) }; }
+		CCM_ALWAYS_INLINE CCM_GPU_HOST_DEVICE simd operator-() const { return { _mm256_xor_ps(_mm256_set1_ps(-0.0F), m_value) }; }
 		CCM_ALWAYS_INLINE void copy_from(float const *ptr, element_aligned_tag /*unused*/) { m_value = _mm256_loadu_ps(ptr); }
 		CCM_ALWAYS_INLINE void copy_to(float *ptr, element_aligned_tag /*unused*/) const { _mm256_storeu_ps(ptr, m_value); }
 		[[nodiscard]] constexpr __m256 get() const { return m_value; }
@@ -158,7 +158,7 @@ namespace ccm::intrin
 		CCM_ALWAYS_INLINE simd operator/(simd const &other) const { return { _mm256_div_pd(m_value, other.m_value) }; }
 		CCM_ALWAYS_INLINE simd operator+(simd const &other) const { return { _mm256_add_pd(m_value, other.m_value) }; }
 		CCM_ALWAYS_INLINE simd operator-(simd const &other) const { return { _mm256_sub_pd(m_value, other.m_value) }; }
-		CCM_ALWAYS_INLINE CCM_GPU_HOST_DEVICE simd operator-() const { return { _mm256_sub_pd(_mm256_set1_pd(0.0), m_value) }; }
+		CCM_ALWAYS_INLINE CCM_GPU_HOST_DEVICE simd operator-() const { return { _mm256_xor_pd(_mm256_set1_pd(-0.0), m_value) }; }
 		CCM_ALWAYS_INLINE void copy_from(double const *ptr, element_aligned_tag /*unused*/) { m_value = _mm256_loadu_pd(ptr); }
 		CCM_ALWAYS_INLINE void copy_to(double *ptr, element_aligned_tag /*unused*/) const { _mm256_storeu_pd(ptr, m_value); }
 		[[nodiscard]] CCM_ALWAYS_INLINE constexpr __m256d get() const { return m_value; }
diff --git a/include/ccmath/internal/math/runtime/simd/instructions/sse2.hpp b/include/ccmath/internal/math/runtime/simd/instructions/sse2.hpp
index ecc6787..8a6a9d4 100644
--- a/include/ccmath/internal/math/runtime/simd/instructions/sse2.hpp
+++ b/include/ccmath/internal/math/runtime/simd/instructions/sse2.hpp
@@ -83,7 +83,7 @@ namespace ccm::intrin
 		CCM_ALWAYS_INLINE simd operator/(simd const &other) const { return { _mm_div_ps(m_value, other.m_value) }; }
 		CCM_ALWAYS_INLINE simd operator+(simd const &other) const { return { _mm_add_ps(m_value, other.m_value) }; }
 		CCM_ALWAYS_INLINE simd operator-(simd const &other) const { return { _mm_sub_ps(m_value, other.m_value) }; }
-		CCM_ALWAYS_INLINE simd operator-() const { return { _mm_sub_ps(_mm_set1_ps(0.0F), m_value) }; }
+		CCM_ALWAYS_INLINE simd operator-() const { return { _mm_xor_ps(_mm_set1_ps(-0.0F), m_value) }; }
 		CCM_ALWAYS_INLINE void copy_from(float const *ptr, element_aligned_tag /*unused*/) { m_value = _mm_loadu_ps(ptr); }
 		CCM_ALWAYS_INLINE void copy_to(float *ptr, element_aligned_tag /*unused*/) const { _mm_storeu_ps(ptr, m_value); }
 		[[nodiscard]] CCM_ALWAYS_INLINE constexpr __m128 get() const { return m_value; }
@@ -160,7 +160,7 @@ namespace ccm::intrin
 		CCM_ALWAYS_INLINE simd operator/(simd const &other) const { return { _mm_div_pd(m_value, other.m_value) }; }
 		CCM_ALWAYS_INLINE simd operator+(simd const &other) const { return { _mm_add_pd(m_value, other.m_value) }; }
 		CCM_ALWAYS_INLINE simd operator-(simd const &other) const { return { _mm_sub_pd(m_value, other.m_value) }; }
-		CCM_ALWAYS_INLINE simd operator-() const { return { _mm_sub_pd(_mm_set1_pd(0.0), m_value) }; }
+		CCM_ALWAYS_INLINE simd operator-() const { return { _mm_xor_pd(_mm_set1_pd(-0.0), m_value) }; }
 		CCM_ALWAYS_INLINE void copy_from(double const *ptr, element_aligned_tag /*unused*/) { m_value = _mm_loadu_pd(ptr); }
 		CCM_ALWAYS_INLINE void copy_to(double *ptr, element_aligned_tag /*unused*/) const { _mm_storeu_pd(ptr, m_value); }
 		[[nodiscard]] constexpr __m128d get() const { return m_value; }
diff --git a/include/ccmath/internal/math/runtime/simd/instructions/sse4.hpp b/include/ccmath/internal/math/runtime/simd/instructions/sse4.hpp
index 8fd7123..4997c8a 100644
--- a/include/ccmath/internal/math/runtime/simd/instructions/sse4.hpp
+++ b/include/ccmath/internal/math/runtime/simd/instructions/sse4.hpp
@@ -84,7 +84,7 @@ namespace ccm::intrin
 		CCM_ALWAYS_INLINE simd operator/(simd const &other) const { return { _mm_div_ps(m_value, other.m_value) }; }
 		CCM_ALWAYS_INLINE simd operator+(simd const &other) const { return { _mm_add_ps(m_value, other.m_value) }; }
 		CCM_ALWAYS_INLINE simd operator-(simd const &other) const { return { _mm_sub_ps(m_value, other.m_value) }; }
-		CCM_ALWAYS_INLINE simd operator-() const { return { _mm_sub_ps(_mm_set1_ps(0.0F), m_value) }; }
+		CCM_ALWAYS_INLINE simd operator-() const { return { _mm_xor_ps(_mm_set1_ps(-0.0F), m_value) }; }
 		CCM_ALWAYS_INLINE void copy_from(float const *ptr, element_aligned_tag /*unused*/) { m_value = _mm_loadu_ps(ptr); }
 		CCM_ALWAYS_INLINE void copy_to(float *ptr, element_aligned_tag /*unused*/) const { _mm_storeu_ps(ptr, m_value); }
 		[[nodiscard]] CCM_ALWAYS_INLINE constexpr __m128 get() const { return m_value; }
@@ -160,7 +160,7 @@ namespace ccm::intrin
 		CCM_ALWAYS_INLINE simd operator/(simd const &other) const { return { _mm_div_pd(m_value, other.m_value) }; }
 		CCM_ALWAYS_INLINE simd operator+(simd const &other) const { return { _mm_add_pd(m_value, other.m_value) }; }
 		CCM_ALWAYS_INLINE simd operator-(simd const &other) const { return { _mm_sub_pd(m_value, other.m_value) }; }
-		CCM_ALWAYS_INLINE simd operator-() const { return { _mm_sub_pd(_mm_set1_pd(0.0), m_value) }; }
+		CCM_ALWAYS_INLINE simd operator-() const { return { _mm_xor_pd(_mm_set1_pd(-0.0), m_value) }; }
 		CCM_ALWAYS_INLINE void copy_from(double const *ptr, element_aligned_tag /*unused*/) { m_value = _mm_loadu_pd(ptr); }
 		CCM_ALWAYS_INLINE void copy_to(double *ptr, element_aligned_tag /*unused*/) const { _mm_storeu_pd(ptr, m_value); }
 		[[nodiscard]] constexpr __m128d get() const { return m_value; }
-- 
2.43.0


From dab17b4eb72477dfba81dc6d296eeb1dd1e45145 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:40 +0000
Subject: [PATCH 40/61] fix: choose() of the SSE vectors added both operands
 instead of selecting

---
 .../ccmath/internal/math/runtime/simd/instructions/sse2.hpp   | 4 ++--
 .../ccmath/internal/math/runtime/simd/instructions/sse4.hpp   | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/ccmath/internal/math/runtime/simd/instructions/sse2.hpp b/include/ccmath/internal/math/runtime/simd/instructions/sse2.hpp
index 8a6a9d4..c96dcda 100644
--- a/include/ccmath/internal/math/runtime/simd/instructions/sse2.hpp
+++ b/include/ccmath/internal/math/runtime/simd/instructions/sse2.hpp
@@ -100,7 +100,7 @@ namespace ccm::intrin
 	CCM_ALWAYS_INLINE simd<float, abi::sse2> choose(simd_mask<float, abi::sse2> const &a, simd<float, abi::sse2> const &b, simd<float, abi::sse2> const &c)
 	{
 		// NOLINTNEXTLINE(modernize-return-braced-init-list)
-		return simd<float, abi::sse2>(_mm_add_ps(_mm_and_ps(a.get(), b.get()), _mm_andnot_ps(a.get(), c.get())));
+		return simd<float, abi::sse2>(_mm_or_ps(_mm_and_ps(a.get(), b.get()), _mm_andnot_ps(a.get(), c.get())));
 	}
 
 	template <>
@@ -178,7 +178,7 @@ namespace ccm::intrin
 	CCM_ALWAYS_INLINE simd<double, abi::sse2> choose(simd_mask<double, abi::sse2> const &a, simd<double, abi::sse2> const &b, simd<double, abi::sse2> const &c)
 	{
 		// NOLINTNEXTLINE(modernize-return-braced-init-list)
-		return simd<double, abi::sse2>(_mm_add_pd(_mm_and_pd(a.get(), b.get()), _mm_andnot_pd(a.get(), c.get())));
+		return simd<double, abi::sse2>(_mm_or_pd(_mm_and_pd(a.get(), b.get()), _mm_andnot_pd(a.get(), c.get())));
 	}
 } // namespace ccm::intrin
 
diff --git a/include/ccmath/internal/math/runtime/simd/instructions/sse4.hpp b/include/ccmath/internal/math/runtime/simd/instructions/sse4.hpp
index 4997c8a..21bf7c2 100644
--- a/include/ccmath/internal/math/runtime/simd/instructions/sse4.hpp
+++ b/include/ccmath/internal/math/runtime/simd/instructions/sse4.hpp
@@ -101,7 +101,7 @@ namespace ccm::intrin
 	CCM_ALWAYS_INLINE simd<float, abi::sse4> choose(simd_mask<float, abi::sse4> const &a, simd<float, abi::sse4> const &b, simd<float, abi::sse4> const &c)
 	{
 		// NOLINTNEXTLINE(modernize-return-braced-init-list)
-		return simd<float, abi::sse4>(_mm_add_ps(_mm_and_ps(a.get(), b.get()), _mm_andnot_ps(a.get(), c.get())));
+		return simd<float, abi::sse4>(_mm_or_ps(_mm_and_ps(a.get(), b.get()), _mm_andnot_ps(a.get(), c.get())));
 	}
 
 	template <>
@@ -178,7 +178,7 @@ namespace ccm::intrin
 	CCM_ALWAYS_INLINE simd<double, abi::sse4> choose(simd_mask<double, abi::sse4> const &a, simd<double, abi::sse4> const &b, simd<double, abi::sse4> const &c)
 	{
 		// NOLINTNEXTLINE(modernize-return-braced-init-list)
-		return simd<double, abi::sse4>(_mm_add_pd(_mm_and_pd(a.get(), b.get()), _mm_andnot_pd(a.get(), c.get())));
+		return simd<double, abi::sse4>(_mm_or_pd(_mm_and_pd(a.get(), b.get()), _mm_andnot_pd(a.get(), c.get())));
 	}
 } // namespace ccm::intrin
 
-- 
2.43.0


From 974456043a43b674c875c147ef40d6ac095bc445 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:40 +0000
Subject: [PATCH 41/61] fix: size() of the SSE double masks was four

---
 include/ccmath/internal/math/runtime/simd/instructions/sse2.hpp | 2 +-
 include/ccmath/internal/math/runtime/simd/instructions/sse4.hpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/ccmath/internal/math/runtime/simd/instructions/sse2.hpp b/include/ccmath/internal/math/runtime/simd/instructions/sse2.hpp
index c96dcda..5f984f9 100644
--- a/include/ccmath/internal/math/runtime/simd/instructions/sse2.hpp
+++ b/include/ccmath/internal/math/runtime/simd/instructions/sse2.hpp
@@ -111,7 +111,7 @@ namespace ccm::intrin
 		using abi_type				  = abi::sse2;
 		CCM_ALWAYS_INLINE simd_mask() = default;
 		CCM_ALWAYS_INLINE explicit simd_mask(bool value) : m_value(_mm_castsi128_pd(_mm_set1_epi64x(-static_cast<std::int64_t>(value)))) {}
-		static constexpr int size() { return 4; }
+		static constexpr int size() { return 2; }
 		constexpr explicit simd_mask(__m128d const &value_in) : m_value(value_in) {}
 		[[nodiscard]] constexpr __m128d get() const { return m_value; }
 		CCM_ALWAYS_INLINE simd_mask operator||(simd_mask const &other) const { return simd_mask(_mm_or_pd(m_value, other.m_value)); }
diff --git a/include/ccmath/internal/math/runtime/simd/instructions/sse4.hpp b/include/ccmath/internal/math/runtime/simd/instructions/sse4.hpp
index 21bf7c2..d4b691b 100644
--- a/include/ccmath/internal/math/runtime/simd/instructions/sse4.hpp
+++ b/include/ccmath/internal/math/runtime/simd/instructions/sse4.hpp
@@ -112,7 +112,7 @@ namespace ccm::intrin
 		using abi_type				  = abi::sse4;
 		CCM_ALWAYS_INLINE simd_mask() = default;
 		CCM_ALWAYS_INLINE explicit simd_mask(bool value) : m_value(_mm_castsi128_pd(_mm_set1_epi64x(-static_cast<std::int64_t>(value)))) {}
-		static constexpr int size() { return 4; }
+		static constexpr int size() { return 2; }
 		constexpr explicit simd_mask(__m128d const &value_in) : m_value(value_in) {}
 		[[nodiscard]] constexpr __m128d get() const { return m_value; }
 		CCM_ALWAYS_INLINE simd_mask operator||(simd_mask const &other) const { return simd_mask(_mm_or_pd(m_value, other.m_value)); }
-- 
2.43.0


From 1adfab32094f1cb31455761e96893da81e8084ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:40 +0000
Subject: [PATCH 42/61] fix: BigInt::to of a signed value narrower than the
 target did not compile

---
 include/ccmath/internal/types/big_int.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/ccmath/internal/types/big_int.hpp b/include/ccmath/internal/types/big_int.hpp
index f42f5a0..e1e65ea 100644
--- a/include/ccmath/internal/types/big_int.hpp
+++ b/include/ccmath/internal/types/big_int.hpp
@@ -833,7 +833,7 @@ namespace ccm::types
 			// sign-extend the result if the original value was negative.
 			if constexpr (Signed && (T_SIZE > Bits))
 			{
-				constexpr T MASK = (~T(0) << Bits);
+				constexpr T MASK = static_cast<T>(~std::make_unsigned_t<T>(0) << Bits);
 				if (is_neg()) { lo |= MASK; }
 			}
 
-- 
2.43.0


From 607f9b99d1ecc7d68e1d71891c53a1b7b2030732 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:40 +0000
Subject: [PATCH 43/61] fix: rotating a BigInt by a negative count was wrong
 unless its width is a power of two

---
 include/ccmath/internal/types/big_int.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/ccmath/internal/types/big_int.hpp b/include/ccmath/internal/types/big_int.hpp
index e1e65ea..4173623 100644
--- a/include/ccmath/internal/types/big_int.hpp
+++ b/include/ccmath/internal/types/big_int.hpp
@@ -1631,7 +1631,7 @@ namespace ccm::support
 	[[nodiscard]] constexpr std::enable_if_t<types::is_big_int_v<T>, T> rotl(T value, int rotate)
 	{
 		constexpr unsigned N = std::numeric_limits<T>::digits;
-		rotate				 = rotate % N;
+		rotate				 = rotate % static_cast<int>(N);
 		if (!rotate) { return value; }
 		if (rotate < 0) { return support::rotr<T>(value, -rotate); }
 		return (value << rotate) | (value >> (N - rotate));
@@ -1641,7 +1641,7 @@ namespace ccm::support
 	[[nodiscard]] constexpr std::enable_if_t<types::is_big_int_v<T>, T> rotr(T value, int rotate)
 	{
 		constexpr unsigned N = std::numeric_limits<T>::digits;
-		rotate				 = rotate % N;
+		rotate				 = rotate % static_cast<int>(N);
 		if (!rotate) { return value; }
 		if (rotate < 0) { return support::rotl<T>(value, -rotate); }
 		return (value >> rotate) | (value << (N - rotate));
-- 
2.43.0


From f85841c1e481b8bbdf63fb791433872133bcd588 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:40 +0000
Subject: [PATCH 44/61] fix: BigInt::mul by a word always returned a zero carry

---
 include/ccmath/internal/types/big_int.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/ccmath/internal/types/big_int.hpp b/include/ccmath/internal/types/big_int.hpp
index 4173623..3aea5c1 100644
--- a/include/ccmath/internal/types/big_int.hpp
+++ b/include/ccmath/internal/types/big_int.hpp
@@ -377,7 +377,7 @@ namespace ccm::types
 				const word carry = mul_add_with_carry(acc, val, x);
 				val				 = acc.advance(carry);
 			}
-			return acc.carry();
+			return acc.sum();
 		}
 
 		/**
-- 
2.43.0


From c86a594f471cc0572f93831f695ea68e86b82b60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:40 +0000
Subject: [PATCH 45/61] fix: first_trailing_one of a BigInt was wrong for zero
 and for all ones

---
 include/ccmath/internal/types/big_int.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/ccmath/internal/types/big_int.hpp b/include/ccmath/internal/types/big_int.hpp
index 3aea5c1..8460d3f 100644
--- a/include/ccmath/internal/types/big_int.hpp
+++ b/include/ccmath/internal/types/big_int.hpp
@@ -1702,7 +1702,7 @@ namespace ccm::support
 
 	template <typename T>
 	[[nodiscard]] constexpr std::enable_if_t<types::is_big_int_v<T>, int> first_trailing_one(T value)
-	{ return value == std::numeric_limits<T>::max() ? 0 : support::countr_zero(value) + 1; }
+	{ return value == T::zero() ? 0 : support::countr_zero(value) + 1; }
 } // namespace ccm::support
 
 #if defined(_MSC_VER) && !defined(__clang__)
-- 
2.43.0


From dc0950308ff63772e40af2644a1ce4b5760d647b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:41 +0000
Subject: [PATCH 46/61] fix: widening a negative BigInt to a larger word type
 stored a zero word instead of the sign

---
 include/ccmath/internal/types/big_int.hpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/include/ccmath/internal/types/big_int.hpp b/include/ccmath/internal/types/big_int.hpp
index 8460d3f..9c395ce 100644
--- a/include/ccmath/internal/types/big_int.hpp
+++ b/include/ccmath/internal/types/big_int.hpp
@@ -645,9 +645,13 @@ namespace ccm::types
 						}
 					}
 					const WordType extension_bits = should_sign_extend ? std::numeric_limits<WordType>::max() : std::numeric_limits<WordType>::min();
-					if ((i % WORD_SIZE_RATIO) != 0) { cur_word |= static_cast<WordType>(extension_bits) << (BigIntOther::WORD_SIZE * (i % WORD_SIZE_RATIO)); }
-					val[i / WORD_SIZE_RATIO] = cur_word;
-					extend((i / WORD_SIZE_RATIO) + 1, should_sign_extend);
+					if ((i % WORD_SIZE_RATIO) != 0)
+					{
+						cur_word |= static_cast<WordType>(extension_bits) << (BigIntOther::WORD_SIZE * (i % WORD_SIZE_RATIO));
+						val[i / WORD_SIZE_RATIO] = cur_word;
+						extend((i / WORD_SIZE_RATIO) + 1, should_sign_extend);
+					}
+					else { extend(i / WORD_SIZE_RATIO, should_sign_extend); }
 				}
 			}
 			else if constexpr (BigIntOther::WORD_SIZE == WORD_SIZE)
-- 
2.43.0


From 93527b22656a24ffcd341c75b9475e5833e8e3f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:41 +0000
Subject: [PATCH 47/61] fix: shifting a negative 128-bit BigInt left was
 undefined

---
 include/ccmath/internal/types/big_int.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/ccmath/internal/types/big_int.hpp b/include/ccmath/internal/types/big_int.hpp
index 9c395ce..e065f47 100644
--- a/include/ccmath/internal/types/big_int.hpp
+++ b/include/ccmath/internal/types/big_int.hpp
@@ -489,7 +489,7 @@ namespace ccm::types
 #ifdef CCM_TYPES_HAS_INT128
 			if constexpr (constexpr std::size_t TOTAL_BITS = N * WORD_BITS; TOTAL_BITS == 128)
 			{
-				using type = std::conditional_t<is_signed, __int128_t, __uint128_t>;
+				using type = std::conditional_t<is_signed && direction == Direction::eRIGHT, __int128_t, __uint128_t>;
 				auto tmp   = ccm::support::bit_cast<type>(array);
 				if constexpr (direction == Direction::eLEFT) { tmp <<= offset; }
 				else
-- 
2.43.0


From 93fac969954a05a53738c4e682e392b42441a376 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:41 +0000
Subject: [PATCH 48/61] fix: quick_add dropped the exponent when one operand
 was shifted out completely

---
 include/ccmath/internal/types/dyadic_float.hpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/include/ccmath/internal/types/dyadic_float.hpp b/include/ccmath/internal/types/dyadic_float.hpp
index c21fe73..f4a530e 100644
--- a/include/ccmath/internal/types/dyadic_float.hpp
+++ b/include/ccmath/internal/types/dyadic_float.hpp
@@ -600,7 +600,8 @@ namespace ccm::types
 		if (CCM_UNLIKELY(a.mantissa.is_zero())) { return b; }
 		if (CCM_UNLIKELY(b.mantissa.is_zero())) { return a; }
 
-		// Align exponents
+		// Align exponents. shift_right() clears the exponent of an operand that is shifted out completely.
+		const int exponent = a.exponent > b.exponent ? a.exponent : b.exponent;
 		if (a.exponent > b.exponent) { b.shift_right(static_cast<unsigned>(a.exponent - b.exponent)); }
 		else if (b.exponent > a.exponent) { a.shift_right(static_cast<unsigned>(b.exponent - a.exponent)); }
 
@@ -610,7 +611,7 @@ namespace ccm::types
 		{
 			// Addition
 			result.sign		= a.sign;
-			result.exponent = a.exponent;
+			result.exponent = exponent;
 			result.mantissa = a.mantissa;
 			if (result.mantissa.add_overflow(b.mantissa))
 			{
@@ -627,13 +628,13 @@ namespace ccm::types
 		if (a.mantissa >= b.mantissa)
 		{
 			result.sign		= a.sign;
-			result.exponent = a.exponent;
+			result.exponent = exponent;
 			result.mantissa = a.mantissa - b.mantissa;
 		}
 		else
 		{
 			result.sign		= b.sign;
-			result.exponent = b.exponent;
+			result.exponent = exponent;
 			result.mantissa = b.mantissa - a.mantissa;
 		}
 
-- 
2.43.0


From 42866d569b0ed18a184438caa091d32e09c58237 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:41 +0000
Subject: [PATCH 49/61] fix: rounding_direction was wrong for discarded values
 below one half and shifted by the full width

---
 include/ccmath/internal/types/dyadic_float.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/ccmath/internal/types/dyadic_float.hpp b/include/ccmath/internal/types/dyadic_float.hpp
index f4a530e..35fe7c9 100644
--- a/include/ccmath/internal/types/dyadic_float.hpp
+++ b/include/ccmath/internal/types/dyadic_float.hpp
@@ -62,12 +62,12 @@ namespace ccm::types
 			if (rshift > 0 && rshift <= Bits && value.get_bit(rshift - 1))
 			{
 				const bool round_bit = rshift < Bits ? value.get_bit(rshift) : false;
-				return round_bit || (value << (Bits - rshift + 1)) != 0 ? +1 : -1;
+				return round_bit || (rshift > 1 && (value << (Bits - rshift + 1)) != 0) ? +1 : -1;
 			}
 			return -1;
 		case FE_TOWARDZERO: return -1;
-		case FE_DOWNWARD: return logical_sign.is_neg() && (rshift < Bits && (value << (Bits - rshift)) != 0) ? +1 : -1;
-		case FE_UPWARD: return logical_sign.is_pos() && (rshift < Bits && (value << (Bits - rshift)) != 0) ? +1 : -1;
+		case FE_DOWNWARD: return logical_sign.is_neg() ? +1 : -1; // the discarded part is not zero
+		case FE_UPWARD: return logical_sign.is_pos() ? +1 : -1;
 		default: support::unreachable();
 		}
 	}
-- 
2.43.0


From 84e97e94c02d950be63fa9433e8f219e686de6a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:41 +0000
Subject: [PATCH 50/61] fix: as_mantissa_type shifted by the full width or more
 for values below one

---
 include/ccmath/internal/types/dyadic_float.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/ccmath/internal/types/dyadic_float.hpp b/include/ccmath/internal/types/dyadic_float.hpp
index 35fe7c9..40181c5 100644
--- a/include/ccmath/internal/types/dyadic_float.hpp
+++ b/include/ccmath/internal/types/dyadic_float.hpp
@@ -527,6 +527,7 @@ namespace ccm::types
 			else
 			{
 				const std::size_t shift = static_cast<std::size_t>(-static_cast<std::int64_t>(exponent));
+				if (shift >= Bits) { return 0; }
 				new_mant >>= shift;
 			}
 
-- 
2.43.0


From 4e20489007ef6e263187f7cdb2a586dca604d7bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:41 +0000
Subject: [PATCH 51/61] fix: DyadicFloat::as with exceptions signalled did not
 compile

---
 include/ccmath/internal/types/dyadic_float.hpp | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/include/ccmath/internal/types/dyadic_float.hpp b/include/ccmath/internal/types/dyadic_float.hpp
index 40181c5..003df62 100644
--- a/include/ccmath/internal/types/dyadic_float.hpp
+++ b/include/ccmath/internal/types/dyadic_float.hpp
@@ -394,7 +394,10 @@ namespace ccm::types
 				//		also raise FE_OVERFLOW and set ERANGE is debatable.
 				// TODO: Check what MSVC does for this case to match them when compiling with MSVC.
 				// This behavior matches Clang.
-				if constexpr (ShouldSignalExceptions && support::fp::FPBits<T>(r).is_inf()) { support::fenv::set_errno_if_required(ERANGE); }
+				if constexpr (ShouldSignalExceptions)
+				{
+					if (support::fp::FPBits<T>(r).is_inf()) { support::fenv::set_errno_if_required(ERANGE); }
+				}
 
 				return r;
 			}
@@ -466,10 +469,13 @@ namespace ccm::types
 					// "tininess" before or after rounding for base-2 formats, as long as
 					// the same choice is made for all operations.
 					// Our choice to check after rounding might not be the same as the hardware's.
-					if constexpr (ShouldSignalExceptions && round_and_sticky)
+					if constexpr (ShouldSignalExceptions)
 					{
-						support::fenv::set_errno_if_required(ERANGE);
-						support::fenv::raise_except_if_required(FE_UNDERFLOW);
+						if (round_and_sticky != 0)
+						{
+							support::fenv::set_errno_if_required(ERANGE);
+							support::fenv::raise_except_if_required(FE_UNDERFLOW);
+						}
 					}
 				}
 
-- 
2.43.0


From cc153e65272a967b58a54579bc11d446a1fef428 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:12 +0000
Subject: [PATCH 52/61] fix: parse big integer literals through the internal
 overload

---
 include/ccmath/internal/support/integer_literals.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/ccmath/internal/support/integer_literals.hpp b/include/ccmath/internal/support/integer_literals.hpp
index 441ec8c..37252df 100644
--- a/include/ccmath/internal/support/integer_literals.hpp
+++ b/include/ccmath/internal/support/integer_literals.hpp
@@ -212,7 +212,7 @@ namespace ccm::support
 			auto positive = internal::parse_with_prefix<T>(view.substr(1).data());
 			return view[0] == '-' ? -positive : positive;
 		}
-		return internal::parse_with_prefix<T>(view);
+		return internal::parse_with_prefix_internal<T>(view);
 	}
 
 	template <typename T>
-- 
2.43.0


From 31a214ff19e85323e0755b1cadac335ad5cc3947 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:12 +0000
Subject: [PATCH 53/61] fix: treat every float and double past the last
 fraction bit as its own nearest integer

---
 include/ccmath/internal/support/fp/nearest_integer.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/ccmath/internal/support/fp/nearest_integer.hpp b/include/ccmath/internal/support/fp/nearest_integer.hpp
index 0abbcce..c20cd9a 100644
--- a/include/ccmath/internal/support/fp/nearest_integer.hpp
+++ b/include/ccmath/internal/support/fp/nearest_integer.hpp
@@ -22,8 +22,8 @@ namespace ccm::support::fp
 {
 	constexpr float nearest_integer(float x)
 	{
-		// Maximum float value that can be exactly represented as an integer
-		if (constexpr float float_max_exact_int = 0x1p24F; x < float_max_exact_int && x > -float_max_exact_int)
+		// Every float of at least this magnitude is an integer
+		if (constexpr float float_max_exact_int = 0x1p23F; x < float_max_exact_int && x > -float_max_exact_int)
 		{
 			constexpr float round_offset = 0x1.0p23F; // Offset used for rounding to nearest integer
 			// This expression is correct for the default rounding mode, round-to-nearest, tie-to-even.
@@ -46,8 +46,8 @@ namespace ccm::support::fp
 
 	constexpr double nearest_integer(double x)
 	{
-		// Maximum float value that can be exactly represented as an integer
-		if (constexpr double float_max_exact_int = 0x1p53; x < float_max_exact_int && x > -float_max_exact_int)
+		// Every double of at least this magnitude is an integer
+		if (constexpr double float_max_exact_int = 0x1p52; x < float_max_exact_int && x > -float_max_exact_int)
 		{
 			constexpr double round_offset = 0x1.0p52; // Offset used for rounding to nearest integer
 			// This expression is correct for the default rounding mode, round-to-nearest, tie-to-even.
-- 
2.43.0


From c1abd213562f0a993daeb70bdf2f7fb5500cffbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:12 +0000
Subject: [PATCH 54/61] fix: keep the explicit leading bit when an 80-bit value
 steps to the next binade

---
 include/ccmath/internal/support/fp/fp_bits.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/ccmath/internal/support/fp/fp_bits.hpp b/include/ccmath/internal/support/fp/fp_bits.hpp
index eb9278d..e104386 100644
--- a/include/ccmath/internal/support/fp/fp_bits.hpp
+++ b/include/ccmath/internal/support/fp/fp_bits.hpp
@@ -546,7 +546,7 @@ namespace ccm::support::fp
 				{
 					if (exp_sig_bits() == max_normal().uintval()) { return inf(sign()); }
 					if (exp_sig_bits() == max_subnormal().uintval()) { return min_normal(sign()); }
-					if (sig_bits() == significand_mask) { return RetT(encode(sign(), ++biased_exponent(), Significand::zero())); }
+					if (sig_bits() == significand_mask) { return RetT(encode(sign(), ++biased_exponent(), Significand::msb())); }
 					return RetT(bits + static_cast<storage_type>(1));
 				}
 				return RetT(bits);
-- 
2.43.0


From a87a096799e53bd984c1d917536b5ed73455fb86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:12 +0000
Subject: [PATCH 55/61] fix: do not shift a value being made subnormal by its
 whole width

---
 include/ccmath/internal/support/fp/fp_bits.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/ccmath/internal/support/fp/fp_bits.hpp b/include/ccmath/internal/support/fp/fp_bits.hpp
index e104386..737384b 100644
--- a/include/ccmath/internal/support/fp/fp_bits.hpp
+++ b/include/ccmath/internal/support/fp/fp_bits.hpp
@@ -755,7 +755,7 @@ namespace ccm::support::fp
 					result.set_significand(number);
 					result.set_biased_exponent(expo + 1);
 				}
-				else
+				else if (-expo < BASE::storage_length)
 				{
 					result.set_significand(number >> -expo);
 				}
-- 
2.43.0


From 577f7ede11dd1e2b94784e0eb236e1d03893f601 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:12 +0000
Subject: [PATCH 56/61] fix: signs, zeros and subnormal alignment of the
 mixed-format add and subtract

---
 .../internal/support/fp/ops/add_or_sub.hpp    | 27 +++++++++----------
 1 file changed, 12 insertions(+), 15 deletions(-)

diff --git a/include/ccmath/internal/support/fp/ops/add_or_sub.hpp b/include/ccmath/internal/support/fp/ops/add_or_sub.hpp
index e11549a..f45b3c2 100644
--- a/include/ccmath/internal/support/fp/ops/add_or_sub.hpp
+++ b/include/ccmath/internal/support/fp/ops/add_or_sub.hpp
@@ -45,7 +45,10 @@ namespace ccm::support::fp::op
 		InFPBits x_bits(x);
 		InFPBits y_bits(y);
 
-		bool is_effectively_add = (x_bits.sign() == y_bits.sign()) != IsSub;
+		// The sign y contributes to the result: a subtraction adds -y.
+		const types::Sign y_sign = y_bits.is_neg() != IsSub ? types::Sign::NEG : types::Sign::POS;
+
+		bool is_effectively_add = x_bits.sign() == y_sign;
 
 		if (CCM_UNLIKELY(x_bits.is_inf_or_nan() || y_bits.is_inf_or_nan() || x_bits.is_zero() || y_bits.is_zero()))
 		{
@@ -86,12 +89,13 @@ namespace ccm::support::fp::op
 				return OutFPBits::inf(x_bits.sign()).get_val();
 			}
 
-			if (y_bits.is_inf()) { return OutFPBits::inf(y_bits.sign()).get_val(); }
+			if (y_bits.is_inf()) { return OutFPBits::inf(y_sign).get_val(); }
 
 			if (x_bits.is_zero())
 			{
 				if (y_bits.is_zero())
 				{
+					if (is_effectively_add) { return OutFPBits::zero(x_bits.sign()).get_val(); }
 					switch (fenv::get_rounding_mode())
 					{
 					case FE_DOWNWARD: return OutFPBits::zero(types::Sign::NEG).get_val();
@@ -106,12 +110,7 @@ namespace ccm::support::fp::op
 				if constexpr (IsSub) { tmp = -tmp; }
 				return static_cast<OutType>(tmp);
 			}
-			if (y_bits.is_zero())
-			{
-				volatile InType tmp = y;
-				if constexpr (IsSub) { tmp = -tmp; }
-				return static_cast<OutType>(tmp);
-			}
+			if (y_bits.is_zero()) { return static_cast<OutType>(x); }
 		}
 
 		InType x_abs = x_bits.abs().get_val();
@@ -128,13 +127,11 @@ namespace ccm::support::fp::op
 
 		types::Sign result_sign = types::Sign::POS;
 
-		if (x_abs > y_abs) { result_sign = x_bits.sign(); } // NOLINT(bugprone-branch-clone)
-		else if (x_abs < y_abs)
+		if (x_abs < y_abs) { result_sign = y_sign; }
+		else
 		{
-			if (is_effectively_add) { result_sign = y_bits.sign(); }
-			else if (y_bits.is_pos()) { result_sign = types::Sign::NEG; }
+			result_sign = x_bits.sign();
 		}
-		else if (is_effectively_add) { result_sign = x_bits.sign(); }
 
 		InFPBits max_bits(ccm::gen::max(x_abs, y_abs));
 		InFPBits min_bits(ccm::gen::min(x_abs, y_abs));
@@ -157,7 +154,7 @@ namespace ccm::support::fp::op
 		{
 			InStorageType max_mant = max_bits.get_explicit_mantissa() << guard_bits_length;
 			InStorageType min_mant = min_bits.get_explicit_mantissa() << guard_bits_length;
-			int alignment		   = max_bits.get_biased_exponent() - min_bits.get_biased_exponent();
+			int alignment		   = max_bits.get_explicit_exponent() - min_bits.get_explicit_exponent();
 
 			InStorageType aligned_min_mant = min_mant >> ccm::gen::min(alignment, result_mantissa_length);
 			bool aligned_min_mant_sticky   = false;
@@ -178,7 +175,7 @@ namespace ccm::support::fp::op
 			}
 		}
 
-		int result_exp = max_bits.get_exponent() - result_fraction_length;
+		int result_exp = max_bits.get_explicit_exponent() - result_fraction_length;
 		DyadicFloat result(result_sign, result_exp, result_mant);
 		return result.template as<OutType, /*ShouldSignalExceptions=*/true>();
 	}
-- 
2.43.0


From 14534f448efdf44bc8eb9b9d7981cb284b253d48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:12 +0000
Subject: [PATCH 57/61] fix: follow the configured rounding mode when sqrt is
 evaluated as a constant

---
 include/ccmath/math/power/sqrt.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/ccmath/math/power/sqrt.hpp b/include/ccmath/math/power/sqrt.hpp
index 75a4aac..7580ec1 100644
--- a/include/ccmath/math/power/sqrt.hpp
+++ b/include/ccmath/math/power/sqrt.hpp
@@ -13,8 +13,11 @@
 #include "ccmath/internal/math/generic/builtins/power/sqrt.hpp"
 #include "ccmath/internal/math/generic/func/power/sqrt_gen.hpp"
 #include "ccmath/internal/math/runtime/func/power/sqrt_rt.hpp"
+#include "ccmath/internal/support/fenv/rounding_mode.hpp"
 #include "ccmath/internal/support/is_constant_evaluated.hpp"
 
+#include <cfenv>
+
 #include <type_traits>
 
 namespace ccm
@@ -30,6 +33,8 @@ namespace ccm
 	template <typename T, std::enable_if_t<std::is_floating_point_v<T>, bool> = true>
 	constexpr T sqrt(T num)
 	{
+		// The builtin rounds to nearest when it is folded, so a configured directed mode needs the software kernel.
+		if (ccm::support::is_constant_evaluated() && ccm::support::fenv::constant_eval_rounding_mode() != FE_TONEAREST) { return ccm::gen::sqrt_gen<T>(num); }
 		if constexpr (ccm::builtin::has_constexpr_sqrt<T>) { return ccm::builtin::sqrt_ct(num); }
 		else
 		{
-- 
2.43.0


From 55be18ce3e5b8ba31c6c371c9a547ecba2838800 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:12 +0000
Subject: [PATCH 58/61] fix: carry into the exponent when an 80-bit square root
 rounds up to a power of two

---
 .../ccmath/internal/math/generic/func/power/sqrt_gen.hpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/include/ccmath/internal/math/generic/func/power/sqrt_gen.hpp b/include/ccmath/internal/math/generic/func/power/sqrt_gen.hpp
index b4a19c5..7167b5c 100644
--- a/include/ccmath/internal/math/generic/func/power/sqrt_gen.hpp
+++ b/include/ccmath/internal/math/generic/func/power/sqrt_gen.hpp
@@ -135,9 +135,7 @@ namespace ccm::gen
 						round_bit = true;
 					}
 
-					// Append the exponent field.
 					x_exp = ((x_exp >> 1) + Bits::exponent_bias);
-					y |= (static_cast<storage_type>(x_exp) << (Bits::fraction_length + 1));
 
 					const auto lsb = static_cast<bool>(y & 1); // Least significant bit
 
@@ -153,6 +151,13 @@ namespace ccm::gen
 					default: break;
 					}
 
+					// Rounding up an all-ones significand carries into the exponent.
+					if (y == (one << 1))
+					{
+						y = one;
+						++x_exp;
+					}
+
 					// Extract output
 					support::fp::FPBits<long double> out(0.0L);
 					out.set_biased_exponent(static_cast<storage_type>(x_exp));
-- 
2.43.0


From c106c890ea69dad097e8a7213a6bf73f43cb0db3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:12 +0000
Subject: [PATCH 59/61] fix: round constant-evaluated fma of a zero addend in
 the configured mode

---
 include/ccmath/internal/support/fp/fma.hpp | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/include/ccmath/internal/support/fp/fma.hpp b/include/ccmath/internal/support/fp/fma.hpp
index 13ca572..a4cc7cb 100644
--- a/include/ccmath/internal/support/fp/fma.hpp
+++ b/include/ccmath/internal/support/fp/fma.hpp
@@ -510,9 +510,19 @@ namespace ccm::support::fp
 				return FPBits::quiet_nan().get_val();
 			}
 
-			if (CCM_UNLIKELY(x == T(0) || y == T(0))) { return x * y + z; }
+			// Constant evaluation folds the arithmetic below in round-to-nearest, which a configured directed mode must not inherit.
+			const bool policy_rounding = is_constant_evaluated() && fenv::get_rounding_mode() != FE_TONEAREST;
+
+			if (CCM_UNLIKELY(x == T(0) || y == T(0)))
+			{
+				if (policy_rounding && z == T(0) && z_bits.sign() != (x_bits.sign() == y_bits.sign() ? Sign::POS : Sign::NEG))
+				{
+					return FPBits::zero(fenv::get_rounding_mode() == FE_DOWNWARD ? Sign::NEG : Sign::POS).get_val();
+				}
+				return x * y + z;
+			}
 			// The sum with a zero addend is the rounded product, whose sign survives even when it underflows to zero.
-			if (CCM_UNLIKELY(z == T(0))) { return x * y; }
+			if (CCM_UNLIKELY(z == T(0) && !policy_rounding)) { return x * y; }
 
 			int x_exp = 0;
 			int y_exp = 0;
@@ -561,6 +571,11 @@ namespace ccm::support::fp
 			TmpResultType prod_mant = TmpResultType(x_mant) * TmpResultType(y_mant);
 			int prod_lsb_exp		= x_exp + y_exp - (FPBits::exponent_bias + 2 * static_cast<int>(FPBits::fraction_length));
 
+			if (CCM_UNLIKELY(z_bits.is_zero()))
+			{
+				return WideFloat(prod_sign, prod_lsb_exp - FPBits::exponent_bias, prod_mant).template generic_as<T, ShouldSignalExceptions>();
+			}
+
 			constexpr int RESULT_MIN_LEN = static_cast<int>(PROD_LEN) - static_cast<int>(FPBits::fraction_length);
 			z_mant <<= static_cast<std::size_t>(RESULT_MIN_LEN);
 			int z_lsb_exp	 = z_exp - (static_cast<int>(FPBits::fraction_length) + RESULT_MIN_LEN);
-- 
2.43.0


From c30314ca4c574d971c10b5012b42045c2fe97c0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:23 +0000
Subject: [PATCH 60/61] fix: let tgamma underflow gradually for arguments below
 -170

---
 include/ccmath/math/misc/impl/gamma_double_impl.hpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/include/ccmath/math/misc/impl/gamma_double_impl.hpp b/include/ccmath/math/misc/impl/gamma_double_impl.hpp
index 74ad121..79e64bc 100644
--- a/include/ccmath/math/misc/impl/gamma_double_impl.hpp
+++ b/include/ccmath/math/misc/impl/gamma_double_impl.hpp
@@ -158,6 +158,16 @@ namespace ccm::internal::impl
 		}
 
 		double w{};
+
+		// Below -160 the product of the factors would overflow before the result underflows, so sixteen of them are divided out separately.
+		if (CCM_UNLIKELY(x < -160.0))
+		{
+			double divisor = 1.0;
+			for (std::int32_t i = 0; i < 16; ++i) { divisor *= x + static_cast<double>(i); }
+			const double shifted = detail::gamma_reduce(x + 16.0, w);
+			return (shifted * w) / divisor;
+		}
+
 		const double f		= detail::gamma_reduce(x, w);
 		const double result = f * w;
 		if (CCM_UNLIKELY(fp_bits(result).is_inf()))
-- 
2.43.0


From bbc8c328b4c0f618e8b848246a78682b96d25105 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:23 +0000
Subject: [PATCH 61/61] fix: count the bits of the narrow popcount fallbacks
 correctly

---
 include/ccmath/internal/support/bits.hpp | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/include/ccmath/internal/support/bits.hpp b/include/ccmath/internal/support/bits.hpp
index 118969c..ccfe872 100644
--- a/include/ccmath/internal/support/bits.hpp
+++ b/include/ccmath/internal/support/bits.hpp
@@ -428,10 +428,10 @@ namespace ccm::support
 
 	constexpr int popcount(unsigned short n)
 	{
-		n = n - (n >> 1) & 0x5555;
-		n = (n & 0x3333) + (n >> 2) & 0x3333;
+		n = n - ((n >> 1) & 0x5555);
+		n = (n & 0x3333) + ((n >> 2) & 0x3333);
 		n = (n + (n >> 4)) & 0x0F0F;
-		return (n * 0x0101) >> 16;
+		return ((n * 0x0101) >> 8) & 0xFF;
 	}
 
 	constexpr int popcount(unsigned int n)
@@ -439,17 +439,17 @@ namespace ccm::support
 		// int can be 32 or 16 bits, so we need to check.
 		if constexpr (constexpr int bits = std::numeric_limits<unsigned int>::digits; bits == 32) // 32 bit int
 		{
-			n = n - (n >> 1) & 0x55555555;
-			n = (n & 0x33333333) + (n >> 2) & 0x33333333;
+			n = n - ((n >> 1) & 0x55555555);
+			n = (n & 0x33333333) + ((n >> 2) & 0x33333333);
 			n = (n + (n >> 4)) & 0x0F0F0F0F;
 			return (n * 0x01010101) >> 24;
 		}
 		else // 16 bit int
 		{
-			n = n - (n >> 1) & 0x5555;
-			n = (n & 0x3333) + (n >> 2) & 0x3333;
+			n = n - ((n >> 1) & 0x5555);
+			n = (n & 0x3333) + ((n >> 2) & 0x3333);
 			n = (n + (n >> 4)) & 0x0F0F;
-			return (n * 0x0101) >> 16;
+			return ((n * 0x0101) >> 8) & 0xFF;
 		}
 	}
 #endif
@@ -462,8 +462,8 @@ namespace ccm::support
 		// long can be 32 or 64 bits, so we need to check.
 		if constexpr (constexpr long bits = std::numeric_limits<unsigned long>::digits; bits == 32) // 32 bit long
 		{
-			n = n - (n >> 1) & 0x55555555;
-			n = (n & 0x33333333) + (n >> 2) & 0x33333333;
+			n = n - ((n >> 1) & 0x55555555);
+			n = (n & 0x33333333) + ((n >> 2) & 0x33333333);
 			n = (n + (n >> 4)) & 0x0F0F0F0F;
 			return (n * 0x01010101) >> 24;
 		}
-- 
2.43.0

