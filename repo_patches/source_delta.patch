From a415fced10fdcd61001b3ab16302f071dd49b04b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:56:26 +0000
Subject: [PATCH 1/6] fix: avoid signed overflow in the absolute value of a
 32/64-bit NaR

---
 src/absolute.c | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/absolute.c b/src/absolute.c
index e54ce80..f11e49d 100644
--- a/src/absolute.c
+++ b/src/absolute.c
@@ -18,13 +18,17 @@ takum16_absolute(takum16 t)
 takum32
 takum32_absolute(takum32 t)
 {
-	return (t < 0) * (-t) + (t >= 0) * t;
+	/* the negation of NaR is not representable in a signed integer */
+	return (t == TAKUM32_NAR) ? TAKUM32_NAR :
+	                   (t < 0) * (-t) + (t >= 0) * t;
 }
 
 takum64
 takum64_absolute(takum64 t)
 {
-	return (t < 0) * (-t) + (t >= 0) * t;
+	/* the negation of NaR is not representable in a signed integer */
+	return (t == TAKUM64_NAR) ? TAKUM64_NAR :
+	                   (t < 0) * (-t) + (t >= 0) * t;
 }
 
 takum_linear8
@@ -42,11 +46,15 @@ takum_linear16_absolute(takum_linear16 t)
 takum_linear32
 takum_linear32_absolute(takum_linear32 t)
 {
-	return (t < 0) * (-t) + (t >= 0) * t;
+	/* the negation of NaR is not representable in a signed integer */
+	return (t == TAKUM_LINEAR32_NAR) ? TAKUM_LINEAR32_NAR :
+	                   (t < 0) * (-t) + (t >= 0) * t;
 }
 
 takum_linear64
 takum_linear64_absolute(takum_linear64 t)
 {
-	return (t < 0) * (-t) + (t >= 0) * t;
+	/* the negation of NaR is not representable in a signed integer */
+	return (t == TAKUM_LINEAR64_NAR) ? TAKUM_LINEAR64_NAR :
+	                   (t < 0) * (-t) + (t >= 0) * t;
 }
-- 
2.43.0


From 609848bdfcf402d9479de2612099b86800a3457f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:56:26 +0000
Subject: [PATCH 2/6] fix: odd roots of negative linear takums are real

---
 src/root.c | 24 ++++++++++++++++++++----
 1 file changed, 20 insertions(+), 4 deletions(-)

diff --git a/src/root.c b/src/root.c
index e116d31..c015219 100644
--- a/src/root.c
+++ b/src/root.c
@@ -75,7 +75,11 @@ takum_linear8_root(takum_linear8 t, int64_t n)
 	}
 
 	f = takum_linear8_to_extended_float(t);
-	res = powl(f, 1.0l / (long double)n);
+	res = powl(fabsl(f), 1.0l / (long double)n);
+	if (t < 0) {
+		/* n is odd here and powl() has no real result for f < 0 */
+		res = -res;
+	}
 
 	if (res == 0.0l && t != 0) {
 		res = (t < 0 && n % 2 != 0) ? -DBL_MIN : DBL_MIN;
@@ -94,7 +98,11 @@ takum_linear16_root(takum_linear16 t, int64_t n)
 	}
 
 	f = takum_linear16_to_extended_float(t);
-	res = powl(f, 1.0l / (long double)n);
+	res = powl(fabsl(f), 1.0l / (long double)n);
+	if (t < 0) {
+		/* n is odd here and powl() has no real result for f < 0 */
+		res = -res;
+	}
 
 	if (res == 0.0l && t != 0) {
 		res = (t < 0 && n % 2 != 0) ? -DBL_MIN : DBL_MIN;
@@ -113,7 +121,11 @@ takum_linear32_root(takum_linear32 t, int64_t n)
 	}
 
 	f = takum_linear32_to_extended_float(t);
-	res = powl(f, 1.0l / (long double)n);
+	res = powl(fabsl(f), 1.0l / (long double)n);
+	if (t < 0) {
+		/* n is odd here and powl() has no real result for f < 0 */
+		res = -res;
+	}
 
 	if (res == 0.0l && t != 0) {
 		res = (t < 0 && n % 2 != 0) ? -DBL_MIN : DBL_MIN;
@@ -132,7 +144,11 @@ takum_linear64_root(takum_linear64 t, int64_t n)
 	}
 
 	f = takum_linear64_to_extended_float(t);
-	res = powl(f, 1.0l / (long double)n);
+	res = powl(fabsl(f), 1.0l / (long double)n);
+	if (t < 0) {
+		/* n is odd here and powl() has no real result for f < 0 */
+		res = -res;
+	}
 
 	if (res == 0.0l && t != 0) {
 		res = (t < 0 && n % 2 != 0) ? -DBL_MIN : DBL_MIN;
-- 
2.43.0


From dd2fd58de6f153eb4b7e0e66216c339be8232b09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:56:26 +0000
Subject: [PATCH 3/6] fix: round only once when converting a float to
 takum_linear8/16

---
 src/conversion.c | 30 ++++++++++++++++++------------
 1 file changed, 18 insertions(+), 12 deletions(-)

diff --git a/src/conversion.c b/src/conversion.c
index af7a9bf..41838f0 100644
--- a/src/conversion.c
+++ b/src/conversion.c
@@ -96,15 +96,17 @@ takum64_from_float32(float f)
 takum_linear8
 takum_linear8_from_float32(float f)
 {
-	return (takum_linear8)codec_takum8_from_s_and_l(
-		f < 0, (float)codec_linear_l_from_float32(f));
+	return (takum_linear8)takum8_from_takum64(
+		codec_takum64_from_s_and_l(f < 0,
+		                           codec_linear_l_from_float32(f)));
 }
 
 takum_linear16
 takum_linear16_from_float32(float f)
 {
-	return (takum_linear16)codec_takum16_from_s_and_l(
-		f < 0, (float)codec_linear_l_from_float32(f));
+	return (takum_linear16)takum16_from_takum64(
+		codec_takum64_from_s_and_l(f < 0,
+		                           codec_linear_l_from_float32(f)));
 }
 
 takum_linear32
@@ -177,15 +179,17 @@ takum64_from_float64(double f)
 takum_linear8
 takum_linear8_from_float64(double f)
 {
-	return (takum_linear8)codec_takum8_from_s_and_l(
-		f < 0, (float)codec_linear_l_from_float64(f));
+	return (takum_linear8)takum8_from_takum64(
+		codec_takum64_from_s_and_l(f < 0,
+		                           codec_linear_l_from_float64(f)));
 }
 
 takum_linear16
 takum_linear16_from_float64(double f)
 {
-	return (takum_linear16)codec_takum16_from_s_and_l(
-		f < 0, (double)codec_linear_l_from_float64(f));
+	return (takum_linear16)takum16_from_takum64(
+		codec_takum64_from_s_and_l(f < 0,
+		                           codec_linear_l_from_float64(f)));
 }
 
 takum_linear32
@@ -257,15 +261,17 @@ takum64_from_extended_float(long double f)
 takum_linear8
 takum_linear8_from_extended_float(long double f)
 {
-	return (takum_linear8)codec_takum8_from_s_and_l(
-		f < 0, (float)codec_linear_l_from_extended_float(f));
+	return (takum_linear8)takum8_from_takum64(
+		codec_takum64_from_s_and_l(f < 0,
+		                           codec_linear_l_from_extended_float(f)));
 }
 
 takum_linear16
 takum_linear16_from_extended_float(long double f)
 {
-	return (takum_linear16)codec_takum16_from_s_and_l(
-		f < 0, (double)codec_linear_l_from_extended_float(f));
+	return (takum_linear16)takum16_from_takum64(
+		codec_takum64_from_s_and_l(f < 0,
+		                           codec_linear_l_from_extended_float(f)));
 }
 
 takum_linear32
-- 
2.43.0


From 0837f270dbd3255a30811d6ee9de26e864faa546 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:56:26 +0000
Subject: [PATCH 4/6] fix: round only once when converting takum_linear64 to
 float32

---
 src/conversion.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/conversion.c b/src/conversion.c
index 41838f0..de43ed0 100644
--- a/src/conversion.c
+++ b/src/conversion.c
@@ -684,7 +684,7 @@ takum_linear32_to_float32(takum_linear32 t)
 float
 takum_linear64_to_float32(takum_linear64 t)
 {
-	return (float)codec_s_and_linear_l_to_float64(
+	return (float)codec_s_and_linear_l_to_extended_float(
 		t < 0, codec_takum64_to_l((takum64)t));
 }
 
-- 
2.43.0


From 8c03ac674e54803bc70b1d889e7ba898c56d88d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:06 +0000
Subject: [PATCH 5/6] fix: round only once when converting float32 to takum8

The logarithm was rounded to float32 before being rounded to the takum, so
990 float32 inputs gave a takum that is not the nearest one (and differed
from takum8_from_float64()).
---
 src/conversion.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/conversion.c b/src/conversion.c
index de43ed0..ea413ad 100644
--- a/src/conversion.c
+++ b/src/conversion.c
@@ -49,8 +49,8 @@ takum8_from_float32(float f)
 	} else if (!isfinite(f)) {
 		return TAKUM8_NAR;
 	} else {
-		return codec_takum8_from_s_and_l(f < 0,
-		                                 2 * log(fabs((double)f)));
+		return takum8_from_takum64(codec_takum64_from_s_and_l(
+			f < 0, 2 * logl(fabsl((long double)f))));
 	}
 }
 
-- 
2.43.0


From 7fdfbfbb7200db3d6cd4b34f945e6ac365b94998 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:06 +0000
Subject: [PATCH 6/6] fix: round only once when encoding takum8/16 and extended
 floats

The 8- and 16-bit encoders now take the logarithm as long double, so no
conversion has to detour via takum64 (or takum32), which rounded twice:
e.g. the long double 2^-215 * (1 + 2^-56) gave the linear takum8 2, not 3.
---
 src/codec.c      | 29 +++++++++++++++++++-------
 src/codec.h      |  4 ++--
 src/conversion.c | 54 +++++++++++++++++++++---------------------------
 3 files changed, 47 insertions(+), 40 deletions(-)

diff --git a/src/codec.c b/src/codec.c
index d19b469..23feadd 100644
--- a/src/codec.c
+++ b/src/codec.c
@@ -730,20 +730,33 @@ codec_linear_l_from_extended_float(long double f)
 }
 
 takum8
-codec_takum8_from_s_and_l(bool s, float l)
+codec_takum8_from_s_and_l(bool s, long double l)
 {
+	int_fast32_t q;
+
+	/*
+	 * All takum8 values l and the midpoints between them are multiples
+	 * of 2^-4. To round only once we replace all bits of l below 2^-11
+	 * with one sticky bit, such that takum32 holds the result exactly
+	 */
+	if (fabsl(l) < 256.0L) {
+		l = ldexpl(l, 11);
+		q = floorl(l);
+		l = ldexpl(2 * q + (l != q), -12);
+	}
+
 	return takum8_from_takum32(codec_takum32_from_s_and_l(s, l));
 }
 
 takum16
-codec_takum16_from_s_and_l(bool s, double l)
+codec_takum16_from_s_and_l(bool s, long double l)
 {
 	uint_fast8_t DR;
 	uint8_t p;
 	uint64_t M;
 	int_fast16_t c;
-	double cpm, m;
-	const double bound = 254.9375;
+	long double cpm, m;
+	const long double bound = 254.9375L;
 
 	if (isnan(l) || (isinf(l) && l > 0)) {
 		return TAKUM16_NAR;
@@ -761,13 +774,13 @@ codec_takum16_from_s_and_l(bool s, double l)
 	cpm = (1 - 2 * s) * l;
 
 	/* Obtain c and m from cpm */
-	c = floor(cpm);
+	c = floorl(cpm);
 	m = cpm - c;
 
 	/* m could have overflowed to 1.0 */
-	if (m == 1.0) {
+	if (m == 1.0L) {
 		c += 1;
-		m = 0.0;
+		m = 0.0L;
 	}
 
 	/* Determine DR */
@@ -780,7 +793,7 @@ codec_takum16_from_s_and_l(bool s, double l)
 	p = p_lut[DR];
 
 	/* Determine mantissa bits */
-	M = float64_fraction_to_rounded_bits(m, p);
+	M = extended_float_fraction_to_rounded_bits(m, p);
 
 	/*
 	 * Assemble, optionally apply the carry to SDR which is guaranteed
diff --git a/src/codec.h b/src/codec.h
index 129697d..2ec6c2b 100644
--- a/src/codec.h
+++ b/src/codec.h
@@ -18,8 +18,8 @@ double codec_linear_l_from_float32(float);
 long double codec_linear_l_from_float64(double);
 long double codec_linear_l_from_extended_float(long double);
 
-takum8 codec_takum8_from_s_and_l(bool, float);
-takum16 codec_takum16_from_s_and_l(bool, double);
+takum8 codec_takum8_from_s_and_l(bool, long double);
+takum16 codec_takum16_from_s_and_l(bool, long double);
 takum32 codec_takum32_from_s_and_l(bool, long double);
 takum64 codec_takum64_from_s_and_l(bool, long double);
 
diff --git a/src/conversion.c b/src/conversion.c
index ea413ad..66c82ab 100644
--- a/src/conversion.c
+++ b/src/conversion.c
@@ -49,8 +49,8 @@ takum8_from_float32(float f)
 	} else if (!isfinite(f)) {
 		return TAKUM8_NAR;
 	} else {
-		return takum8_from_takum64(codec_takum64_from_s_and_l(
-			f < 0, 2 * logl(fabsl((long double)f))));
+		return codec_takum8_from_s_and_l(f < 0,
+		                                 2 * log(fabs((double)f)));
 	}
 }
 
@@ -96,17 +96,15 @@ takum64_from_float32(float f)
 takum_linear8
 takum_linear8_from_float32(float f)
 {
-	return (takum_linear8)takum8_from_takum64(
-		codec_takum64_from_s_and_l(f < 0,
-		                           codec_linear_l_from_float32(f)));
+	return (takum_linear8)codec_takum8_from_s_and_l(
+		f < 0, codec_linear_l_from_float32(f));
 }
 
 takum_linear16
 takum_linear16_from_float32(float f)
 {
-	return (takum_linear16)takum16_from_takum64(
-		codec_takum64_from_s_and_l(f < 0,
-		                           codec_linear_l_from_float32(f)));
+	return (takum_linear16)codec_takum16_from_s_and_l(
+		f < 0, codec_linear_l_from_float32(f));
 }
 
 takum_linear32
@@ -132,8 +130,8 @@ takum8_from_float64(double f)
 	} else if (!isfinite(f)) {
 		return TAKUM8_NAR;
 	} else {
-		return takum8_from_takum64(codec_takum64_from_s_and_l(
-			f < 0, 2 * logl(fabsl((long double)f))));
+		return codec_takum8_from_s_and_l(
+			f < 0, 2 * logl(fabsl((long double)f)));
 	}
 }
 
@@ -145,8 +143,8 @@ takum16_from_float64(double f)
 	} else if (!isfinite(f)) {
 		return TAKUM16_NAR;
 	} else {
-		return takum16_from_takum64(codec_takum64_from_s_and_l(
-			f < 0, 2 * logl(fabsl((long double)f))));
+		return codec_takum16_from_s_and_l(
+			f < 0, 2 * logl(fabsl((long double)f)));
 	}
 }
 
@@ -179,17 +177,15 @@ takum64_from_float64(double f)
 takum_linear8
 takum_linear8_from_float64(double f)
 {
-	return (takum_linear8)takum8_from_takum64(
-		codec_takum64_from_s_and_l(f < 0,
-		                           codec_linear_l_from_float64(f)));
+	return (takum_linear8)codec_takum8_from_s_and_l(
+		f < 0, codec_linear_l_from_float64(f));
 }
 
 takum_linear16
 takum_linear16_from_float64(double f)
 {
-	return (takum_linear16)takum16_from_takum64(
-		codec_takum64_from_s_and_l(f < 0,
-		                           codec_linear_l_from_float64(f)));
+	return (takum_linear16)codec_takum16_from_s_and_l(
+		f < 0, codec_linear_l_from_float64(f));
 }
 
 takum_linear32
@@ -215,8 +211,8 @@ takum8_from_extended_float(long double f)
 	} else if (!isfinite(f)) {
 		return TAKUM8_NAR;
 	} else {
-		return takum8_from_takum64(
-			codec_takum64_from_s_and_l(f < 0, 2 * logl(fabsl(f))));
+		return codec_takum8_from_s_and_l(
+			f < 0, 2 * logl(fabsl(f)));
 	}
 }
 
@@ -228,8 +224,8 @@ takum16_from_extended_float(long double f)
 	} else if (!isfinite(f)) {
 		return TAKUM16_NAR;
 	} else {
-		return takum16_from_takum64(
-			codec_takum64_from_s_and_l(f < 0, 2 * logl(fabsl(f))));
+		return codec_takum16_from_s_and_l(
+			f < 0, 2 * logl(fabsl(f)));
 	}
 }
 
@@ -241,8 +237,8 @@ takum32_from_extended_float(long double f)
 	} else if (!isfinite(f)) {
 		return TAKUM32_NAR;
 	} else {
-		return takum32_from_takum64(
-			codec_takum64_from_s_and_l(f < 0, 2 * logl(fabsl(f))));
+		return codec_takum32_from_s_and_l(
+			f < 0, 2 * logl(fabsl(f)));
 	}
 }
 
@@ -261,17 +257,15 @@ takum64_from_extended_float(long double f)
 takum_linear8
 takum_linear8_from_extended_float(long double f)
 {
-	return (takum_linear8)takum8_from_takum64(
-		codec_takum64_from_s_and_l(f < 0,
-		                           codec_linear_l_from_extended_float(f)));
+	return (takum_linear8)codec_takum8_from_s_and_l(
+		f < 0, codec_linear_l_from_extended_float(f));
 }
 
 takum_linear16
 takum_linear16_from_extended_float(long double f)
 {
-	return (takum_linear16)takum16_from_takum64(
-		codec_takum64_from_s_and_l(f < 0,
-		                           codec_linear_l_from_extended_float(f)));
+	return (takum_linear16)codec_takum16_from_s_and_l(
+		f < 0, codec_linear_l_from_extended_float(f));
 }
 
 takum_linear32
-- 
2.43.0

