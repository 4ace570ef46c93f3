From 4e8fc363e924020abcb88927a81e2ef65d45f7c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:08 +0000
Subject: [PATCH 01/48] fix: hma with period 1 divided by zero

---
 indicators/hma.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/indicators/hma.cc b/indicators/hma.cc
index ea30265..b3c6245 100644
--- a/indicators/hma.cc
+++ b/indicators/hma.cc
@@ -29,7 +29,7 @@ int ti_hma(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_RE
     /* HMA(input, N) = WMA((2 * WMA(input, N/2) - WMA(input, N)), sqrt(N)) */
     /* Need to do three WMAs, with periods N, N/2, and sqrt N.*/
 
-    const int period2 = (int)(period / 2);
+    const int period2 = period > 1 ? period / 2 : 1;
     const int periodsqrt = (int)(sqrt(period));
 
     const TI_REAL weights = period * (period+1) / 2;
-- 
2.43.0


From 6305a32cbfe1a65e74dd1277c5fef27f5c2464bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:08 +0000
Subject: [PATCH 02/48] fix: zlema read before its input for periods 1 and 2

---
 indicators/zlema.cc | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/indicators/zlema.cc b/indicators/zlema.cc
index e1926b7..69ff6db 100644
--- a/indicators/zlema.cc
+++ b/indicators/zlema.cc
@@ -9,7 +9,8 @@
 
 
 int ti_zlema_start(TI_REAL const *options) {
-    return ((int)options[0] - 1) / 2 - 1;
+    const int lag = ((int)options[0] - 1) / 2;
+    return lag > 0 ? lag - 1 : 0;
 }
 
 
@@ -26,11 +27,11 @@ int ti_zlema(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_
 
     const TI_REAL per = 2 / ((TI_REAL)period + 1);
 
-    TI_REAL val = input[lag-1];
+    int i = ti_zlema_start(options);
+    TI_REAL val = input[i];
     *output++ = val;
 
-    int i;
-    for (i = lag; i < size; ++i) {
+    for (++i; i < size; ++i) {
         TI_REAL c = input[i];
         TI_REAL l = input[i-lag];
 
-- 
2.43.0


From 89543ee100cc10996a74b11f84c8c6f09ed6faea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:08 +0000
Subject: [PATCH 03/48] fix: dpo read before its input for periods 1 and 2

---
 indicators/dpo.cc | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/indicators/dpo.cc b/indicators/dpo.cc
index abc51f2..1a7eb3e 100644
--- a/indicators/dpo.cc
+++ b/indicators/dpo.cc
@@ -9,7 +9,9 @@
 
 
 int ti_dpo_start(TI_REAL const *options) {
-    return (int)options[0]-1;
+    const int period = (int)options[0];
+    /* The lookback of the price reaches further than the average for tiny periods. */
+    return period < 3 ? period / 2 + 1 : period - 1;
 }
 
 
@@ -32,12 +34,12 @@ int ti_dpo(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_RE
         sum += input[i];
     }
 
-    *output++ = input[period-1-back] - (sum * scale);
+    if (period-1 >= back) *output++ = input[period-1-back] - (sum * scale);
 
     for (i = period; i < size; ++i) {
         sum += input[i];
         sum -= input[i-period];
-        *output++ = input[i-back] - (sum * scale);
+        if (i >= back) *output++ = input[i-back] - (sum * scale);
     }
 
     assert(output - outputs[0] == size - ti_dpo_start(options));
-- 
2.43.0


From acaa7b592dbedf8242288cc9b5bb683bd97febf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:08 +0000
Subject: [PATCH 04/48] fix: vidya read one bar past its input when only one
 output is due

---
 indicators/vidya.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/indicators/vidya.cc b/indicators/vidya.cc
index 4c89e29..7dfb104 100644
--- a/indicators/vidya.cc
+++ b/indicators/vidya.cc
@@ -40,7 +40,7 @@ int ti_vidya(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_
     TI_REAL long_sum2 = 0;
 
     int i;
-    for (i = 0; i < long_period; ++i) {
+    for (i = 0; i < long_period && i < size; ++i) {
         long_sum += input[i];
         long_sum2 += input[i] * input[i];
 
-- 
2.43.0


From d55bb1eab5695a39d10a2e2358255cc692b5d288 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:08 +0000
Subject: [PATCH 05/48] fix: decay and edecay accepted periods below one

---
 indicators/decay.cc  | 2 ++
 indicators/edecay.cc | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/indicators/decay.cc b/indicators/decay.cc
index 3d7fbec..a705426 100644
--- a/indicators/decay.cc
+++ b/indicators/decay.cc
@@ -20,6 +20,8 @@ int ti_decay(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_
     const int period = (int)options[0];
     const TI_REAL scale = 1.0 / period;
 
+    if (period < 1) return TI_INVALID_OPTION;
+
     int i = 0;
     for (; i < 1 && i < size; ++i) {
         *output++ = input[0];
diff --git a/indicators/edecay.cc b/indicators/edecay.cc
index 3554ba6..ba9829f 100644
--- a/indicators/edecay.cc
+++ b/indicators/edecay.cc
@@ -20,6 +20,8 @@ int ti_edecay(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI
     TI_REAL *output = outputs[0];
     const TI_REAL scale = 1.0 - 1.0 / period;
 
+    if (period < 1) return TI_INVALID_OPTION;
+
     int i = 0;
     for (; i < 1 && i < size; ++i) {
         *output++ = input[0];
-- 
2.43.0


From 27ce88c77314249946f87d049378c9337c6fd1a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:08 +0000
Subject: [PATCH 06/48] fix: trunc overflowed for values outside the range of
 int

---
 indicators/trunc.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/indicators/trunc.cc b/indicators/trunc.cc
index f1b166d..9dfcb17 100644
--- a/indicators/trunc.cc
+++ b/indicators/trunc.cc
@@ -9,4 +9,4 @@
 #include "simple1.h"
 
 
-SIMPLE1(ti_trunc_start, ti_trunc, (int)(in1[i]))
+SIMPLE1(ti_trunc_start, ti_trunc, trunc(in1[i]))
-- 
2.43.0


From e518f5a696ead1a5d201b41ba4f995024d18240e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:08 +0000
Subject: [PATCH 07/48] fix: bbands, volatility and emsd returned NaN for
 windows without variance

---
 indicators/bbands.cc     |  5 +++--
 indicators/emsd.cc       | 12 ++++++------
 indicators/volatility.cc |  5 +++--
 3 files changed, 12 insertions(+), 10 deletions(-)

diff --git a/indicators/bbands.cc b/indicators/bbands.cc
index d312c3e..69b31d6 100644
--- a/indicators/bbands.cc
+++ b/indicators/bbands.cc
@@ -6,6 +6,7 @@
 
 
 #include "../indicators.h"
+#include "../utils/minmax.h"
 
 
 int ti_bbands_start(TI_REAL const *options) {
@@ -36,7 +37,7 @@ int ti_bbands(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI
         sum2 += input[i] * input[i];
     }
 
-    TI_REAL sd = sqrt(sum2 * scale - (sum * scale) * (sum * scale));
+    TI_REAL sd = sqrt(MAX(0.0, sum2 * scale - (sum * scale) * (sum * scale)));
     *middle = sum * scale;
     *lower++ = *middle - stddev * sd;
     *upper++ = *middle + stddev * sd;
@@ -49,7 +50,7 @@ int ti_bbands(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI
         sum -= input[i-period];
         sum2 -= input[i-period] * input[i-period];
 
-        sd = sqrt(sum2 * scale - (sum * scale) * (sum * scale));
+        sd = sqrt(MAX(0.0, sum2 * scale - (sum * scale) * (sum * scale)));
         *middle = sum * scale;
         *upper++ = *middle + stddev * sd;
         *lower++ = *middle - stddev * sd;
diff --git a/indicators/emsd.cc b/indicators/emsd.cc
index 1b9cc41..b25ccd5 100644
--- a/indicators/emsd.cc
+++ b/indicators/emsd.cc
@@ -42,7 +42,7 @@ int ti_emsd(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_R
 
         TI_REAL variance = sum2/period - pow(sum/period, 2);
         ema = variance;
-        *emsd++ = sqrt(variance);
+        *emsd++ = sqrt(MAX(0.0, variance));
 
         sum -= series[i-period+1];
         sum2 -= series[i-period+1]*series[i-period+1];
@@ -53,7 +53,7 @@ int ti_emsd(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_R
 
         TI_REAL variance = sum2/period - (sum/period)*(sum/period);
         ema = (variance - ema) * 2 / (ma_period + 1) + ema;
-        *emsd++ = sqrt(variance);
+        *emsd++ = sqrt(MAX(0.0, variance));
 
         sum -= series[i-period+1];
         sum2 -= series[i-period+1]*series[i-period+1];
@@ -86,7 +86,7 @@ DONTOPTIMIZE int ti_emsd_ref(int size, TI_REAL const *const *inputs, TI_REAL con
 
         TI_REAL variance = sum2/period - pow(sum/period, 2);
         ema = variance;
-        *emsd++ = sqrt(variance);
+        *emsd++ = sqrt(MAX(0.0, variance));
 
         sum -= series[i-(int)period+1];
         sum2 -= series[i-(int)period+1]*series[i-(int)period+1];
@@ -97,7 +97,7 @@ DONTOPTIMIZE int ti_emsd_ref(int size, TI_REAL const *const *inputs, TI_REAL con
 
         TI_REAL variance = sum2/period - (sum/period)*(sum/period);
         ema = (variance - ema) * 2 / (ma_period + 1) + ema;
-        *emsd++ = sqrt(variance);
+        *emsd++ = sqrt(MAX(0.0, variance));
 
         sum -= series[i-(int)period+1];
         sum2 -= series[i-(int)period+1]*series[i-(int)period+1];
@@ -184,7 +184,7 @@ int ti_emsd_stream_run(ti_stream *stream, int size, TI_REAL const *const *inputs
 
         TI_REAL variance = sum2*period_reciprocal - pow(sum*period_reciprocal, 2);
         ema = variance;
-        *emsd++ = sqrt(variance);
+        *emsd++ = sqrt(MAX(0.0, variance));
 
         sum -= price[period-1];
         sum2 -= price[period-1]*price[period-1];
@@ -197,7 +197,7 @@ int ti_emsd_stream_run(ti_stream *stream, int size, TI_REAL const *const *inputs
 
         TI_REAL variance = sum2*period_reciprocal - (sum*period_reciprocal)*(sum*period_reciprocal);
         ema = (variance - ema) * 2 * ma_period_plus1_reciprocal + ema;
-        *emsd++ = sqrt(variance);
+        *emsd++ = sqrt(MAX(0.0, variance));
 
         sum -= price[period-1];
         sum2 -= price[period-1]*price[period-1];
diff --git a/indicators/volatility.cc b/indicators/volatility.cc
index 8a4871b..4a7aa6a 100644
--- a/indicators/volatility.cc
+++ b/indicators/volatility.cc
@@ -8,6 +8,7 @@
 #include <new>
 
 #include "../indicators.h"
+#include "../utils/minmax.h"
 
 #define CHANGE(i) (input[i-1] ? input[i]/input[i-1]-1.0 : 0)
 
@@ -38,7 +39,7 @@ int ti_volatility(int size, TI_REAL const *const *inputs, TI_REAL const *options
         sum2 += c * c;
     }
 
-    *output++ = sqrt(sum2 * scale - (sum * scale) * (sum * scale)) * annual;
+    *output++ = sqrt(MAX(0.0, sum2 * scale - (sum * scale) * (sum * scale))) * annual;
 
     for (i = period+1; i < size; ++i) {
         const TI_REAL c = CHANGE(i);
@@ -49,7 +50,7 @@ int ti_volatility(int size, TI_REAL const *const *inputs, TI_REAL const *options
         sum -= cp;
         sum2 -= cp * cp;
 
-        *output++ = sqrt(sum2 * scale - (sum * scale) * (sum * scale)) * annual;
+        *output++ = sqrt(MAX(0.0, sum2 * scale - (sum * scale) * (sum * scale))) * annual;
     }
 
     assert(output - outputs[0] == size - ti_volatility_start(options));
-- 
2.43.0


From 9da8d0aec79f70a7b4fa9f3e93b91e45c16f5bb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:21 +0000
Subject: [PATCH 08/48] fix: a failed ti_buffer allocation crashed instead of
 reporting out of memory

---
 indicators/abands.cc   | 5 +++++
 indicators/adxr.cc     | 1 +
 indicators/cci.cc      | 1 +
 indicators/cvi.cc      | 1 +
 indicators/hma.cc      | 1 +
 indicators/mass.cc     | 1 +
 indicators/mfi.cc      | 5 +++++
 indicators/stoch.cc    | 5 +++++
 indicators/stochrsi.cc | 1 +
 indicators/ultosc.cc   | 5 +++++
 utils/buffer.c         | 1 +
 11 files changed, 27 insertions(+)

diff --git a/indicators/abands.cc b/indicators/abands.cc
index e246740..e0fdedb 100644
--- a/indicators/abands.cc
+++ b/indicators/abands.cc
@@ -37,6 +37,11 @@ int ti_abands(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI
 
     ti_buffer *buffer_high = ti_buffer_new(period);
     ti_buffer *buffer_low = ti_buffer_new(period);
+    if (!buffer_high || !buffer_low) {
+        ti_buffer_free(buffer_high);
+        ti_buffer_free(buffer_low);
+        return TI_OUT_OF_MEMORY;
+    }
     TI_REAL close_sum = 0;
 
     for (int i = 0; i < period; ++i) {
diff --git a/indicators/adxr.cc b/indicators/adxr.cc
index cdc0aac..6f47b77 100644
--- a/indicators/adxr.cc
+++ b/indicators/adxr.cc
@@ -58,6 +58,7 @@ int ti_adxr(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_R
     }
 
     ti_buffer *adxr = ti_buffer_new(period-1);
+    if (!adxr) return TI_OUT_OF_MEMORY;
     const int first_adxr = ti_adxr_start(options);
 
     for (i = period; i < size; ++i) {
diff --git a/indicators/cci.cc b/indicators/cci.cc
index c709377..0edf33b 100644
--- a/indicators/cci.cc
+++ b/indicators/cci.cc
@@ -35,6 +35,7 @@ int ti_cci(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_RE
     TI_REAL *output = outputs[0];
 
     ti_buffer *sum = ti_buffer_new(period);
+    if (!sum) return TI_OUT_OF_MEMORY;
 
     int i, j;
     for (i = 0; i < size; ++i) {
diff --git a/indicators/cvi.cc b/indicators/cvi.cc
index 2327a0a..6554f5b 100644
--- a/indicators/cvi.cc
+++ b/indicators/cvi.cc
@@ -29,6 +29,7 @@ int ti_cvi(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_RE
     const TI_REAL per = 2 / ((TI_REAL)period + 1);
 
     ti_buffer *lag = ti_buffer_new(period);
+    if (!lag) return TI_OUT_OF_MEMORY;
 
     TI_REAL val = high[0]-low[0];
 
diff --git a/indicators/hma.cc b/indicators/hma.cc
index b3c6245..9c91003 100644
--- a/indicators/hma.cc
+++ b/indicators/hma.cc
@@ -58,6 +58,7 @@ int ti_hma(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_RE
     }
 
     ti_buffer *buff = ti_buffer_new(periodsqrt);
+    if (!buff) return TI_OUT_OF_MEMORY;
 
     for (i = period-1; i < size; ++i) {
         weight_sum += input[i] * period;
diff --git a/indicators/mass.cc b/indicators/mass.cc
index 4a09e0e..10292d8 100644
--- a/indicators/mass.cc
+++ b/indicators/mass.cc
@@ -37,6 +37,7 @@ int ti_mass(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_R
     TI_REAL ema2 = ema;
 
     ti_buffer *sum = ti_buffer_new(period);
+    if (!sum) return TI_OUT_OF_MEMORY;
 
     int i;
     for (i = 0; i < size; ++i) {
diff --git a/indicators/mfi.cc b/indicators/mfi.cc
index 039fbfb..5ab48d1 100644
--- a/indicators/mfi.cc
+++ b/indicators/mfi.cc
@@ -33,6 +33,11 @@ int ti_mfi(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_RE
 
     ti_buffer *up = ti_buffer_new(period);
     ti_buffer *down = ti_buffer_new(period);
+    if (!up || !down) {
+        ti_buffer_free(up);
+        ti_buffer_free(down);
+        return TI_OUT_OF_MEMORY;
+    }
 
     for (i = 1; i < size; ++i) {
         const TI_REAL typ = TYPPRICE(i);
diff --git a/indicators/stoch.cc b/indicators/stoch.cc
index 88cf9f8..4841091 100644
--- a/indicators/stoch.cc
+++ b/indicators/stoch.cc
@@ -43,6 +43,11 @@ int ti_stoch(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_
 
     ti_buffer *k_sum = ti_buffer_new(kslow);
     ti_buffer *d_sum = ti_buffer_new(dperiod);
+    if (!k_sum || !d_sum) {
+        ti_buffer_free(k_sum);
+        ti_buffer_free(d_sum);
+        return TI_OUT_OF_MEMORY;
+    }
 
     int i, j;
     for (i = 0; i < size; ++i) {
diff --git a/indicators/stochrsi.cc b/indicators/stochrsi.cc
index 592a1cb..45e6bcc 100644
--- a/indicators/stochrsi.cc
+++ b/indicators/stochrsi.cc
@@ -24,6 +24,7 @@ int ti_stochrsi(int size, TI_REAL const *const *inputs, TI_REAL const *options,
     if (size <= ti_stochrsi_start(options)) return TI_OKAY;
 
     ti_buffer *rsi = ti_buffer_new(period);
+    if (!rsi) return TI_OUT_OF_MEMORY;
 
     TI_REAL smooth_up = 0, smooth_down = 0;
 
diff --git a/indicators/ultosc.cc b/indicators/ultosc.cc
index db0f267..56776d6 100644
--- a/indicators/ultosc.cc
+++ b/indicators/ultosc.cc
@@ -34,6 +34,11 @@ int ti_ultosc(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI
 
     ti_buffer *bp_buf = ti_buffer_new(long_period);
     ti_buffer *r_buf = ti_buffer_new(long_period);
+    if (!bp_buf || !r_buf) {
+        ti_buffer_free(bp_buf);
+        ti_buffer_free(r_buf);
+        return TI_OUT_OF_MEMORY;
+    }
 
     TI_REAL bp_short_sum = 0, bp_medium_sum = 0;
     TI_REAL r_short_sum = 0, r_medium_sum = 0;
diff --git a/utils/buffer.c b/utils/buffer.c
index eb493aa..8417bcf 100644
--- a/utils/buffer.c
+++ b/utils/buffer.c
@@ -13,6 +13,7 @@
 ti_buffer *ti_buffer_new(int size) {
     const int s = (int)sizeof(ti_buffer) + (size-1) * (int)sizeof(TI_REAL);
     ti_buffer *ret = (ti_buffer*)malloc((unsigned int)s);
+    if (!ret) return 0;
     ret->size = size;
     ret->pushes = 0;
     ret->index = 0;
-- 
2.43.0


From 3013b94f65df36d617619dd84687c787b02fc056 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:12 +0000
Subject: [PATCH 09/48] fix: creating a stream leaked or crashed when memory
 ran out

---
 indicators/ahma.cc   |  7 ++++++-
 indicators/arsi.cc   |  7 ++++++-
 indicators/ce.cc     |  2 +-
 indicators/cmi.cc    |  9 +++++++--
 indicators/copp.cc   |  2 +-
 indicators/dwma.cc   |  4 ++--
 indicators/edcf.cc   | 13 ++++++++++---
 indicators/emsd.cc   |  7 ++++++-
 indicators/er.cc     |  7 ++++++-
 indicators/evwma.cc  |  1 +
 indicators/frama.cc  |  4 +++-
 indicators/hf.cc     |  9 +++++++--
 indicators/hfema.cc  |  2 +-
 indicators/hfsma.cc  |  2 +-
 indicators/ichi.cc   |  2 +-
 indicators/idwma.cc  | 13 +++++++++----
 indicators/kc.cc     |  2 +-
 indicators/mhlma.cc  |  9 +++++++--
 indicators/pbands.cc |  2 +-
 indicators/posc.cc   |  2 +-
 indicators/pwma.cc   |  1 +
 indicators/rmf.cc    |  4 +++-
 indicators/rmi.cc    |  1 +
 indicators/rvi.cc    |  2 +-
 indicators/shmma.cc  |  7 ++++++-
 indicators/smi.cc    |  2 +-
 indicators/swma.cc   |  1 +
 27 files changed, 92 insertions(+), 32 deletions(-)

diff --git a/indicators/ahma.cc b/indicators/ahma.cc
index 23ae23a..81d03fc 100644
--- a/indicators/ahma.cc
+++ b/indicators/ahma.cc
@@ -80,7 +80,12 @@ int ti_ahma_stream_new(TI_REAL const *options, ti_stream **stream) {
 
     ptr->options.period = period;
 
-    ptr->state.filt.resize(period+1);
+    try {
+        ptr->state.filt.resize(period+1);
+    } catch (std::bad_alloc&) {
+        delete ptr;
+        return TI_OUT_OF_MEMORY;
+    }
 
     return TI_OKAY;
 }
diff --git a/indicators/arsi.cc b/indicators/arsi.cc
index b329f98..6a7fdc1 100644
--- a/indicators/arsi.cc
+++ b/indicators/arsi.cc
@@ -175,7 +175,12 @@ int ti_arsi_stream_new(TI_REAL const *options, ti_stream **stream) {
 
     ptr->options.cycpart = cycpart;
 
-    ptr->state.Price.resize(cycpart * 50 + 1);
+    try {
+        ptr->state.Price.resize(cycpart * 50 + 1);
+    } catch (std::bad_alloc&) {
+        delete ptr;
+        return TI_OUT_OF_MEMORY;
+    }
 
     return TI_OKAY;
 }
diff --git a/indicators/ce.cc b/indicators/ce.cc
index b4ef418..0d9eecc 100644
--- a/indicators/ce.cc
+++ b/indicators/ce.cc
@@ -177,7 +177,7 @@ int ti_ce_stream_new(TI_REAL const *options, ti_stream **stream) {
     const TI_REAL coef = options[1];
 
     if (period < 1) { return TI_INVALID_OPTION; }
-    ti_ce_stream *ptr = new ti_ce_stream();
+    ti_ce_stream *ptr = new(std::nothrow) ti_ce_stream();
     if (!ptr) { return TI_OUT_OF_MEMORY; }
     *stream = ptr;
 
diff --git a/indicators/cmi.cc b/indicators/cmi.cc
index 7dadbea..7345827 100644
--- a/indicators/cmi.cc
+++ b/indicators/cmi.cc
@@ -149,8 +149,13 @@ int ti_cmi_stream_new(TI_REAL const *options, ti_stream **stream) {
 
     ptr->options.period = period;
 
-    ptr->state.tr.resize(period);
-    ptr->state.price_close.resize(2);
+    try {
+        ptr->state.tr.resize(period);
+        ptr->state.price_close.resize(2);
+    } catch (std::bad_alloc&) {
+        delete ptr;
+        return TI_OUT_OF_MEMORY;
+    }
 
     return TI_OKAY;
 }
diff --git a/indicators/copp.cc b/indicators/copp.cc
index 8c46749..212ea86 100644
--- a/indicators/copp.cc
+++ b/indicators/copp.cc
@@ -146,7 +146,7 @@ int ti_copp_stream_new(TI_REAL const *options, ti_stream **stream) {
     }
     if (roc_longer_period < roc_shorter_period) { return TI_INVALID_OPTION; }
 
-    ti_copp_stream *ptr = new ti_copp_stream();
+    ti_copp_stream *ptr = new(std::nothrow) ti_copp_stream();
     if (!ptr) { return TI_OUT_OF_MEMORY; }
 
     *stream = ptr;
diff --git a/indicators/dwma.cc b/indicators/dwma.cc
index 14dc5df..320aac5 100644
--- a/indicators/dwma.cc
+++ b/indicators/dwma.cc
@@ -129,14 +129,14 @@ int ti_dwma_stream_new(TI_REAL const *options, ti_stream **stream) {
 
     ptr->constants.denom = (1. + period) * period / 2.;
 
-    ptr->state.price.resize(period);
-    
     ptr->state.numer1 = 0;
     ptr->state.sum1 = 0;
 
     try {
+        ptr->state.price.resize(period);
         ptr->state.filt1.resize(period);
     } catch (std::bad_alloc& e) {
+        delete ptr;
         return TI_OUT_OF_MEMORY;
     }
 
diff --git a/indicators/edcf.cc b/indicators/edcf.cc
index a269e2a..73e89bd 100644
--- a/indicators/edcf.cc
+++ b/indicators/edcf.cc
@@ -79,7 +79,7 @@ struct ti_edcf_stream : ti_stream {
     } constants;
 };
 
-int ti_edcf_stream_new(TI_REAL const *options, ti_stream **stream) {
+int ti_edcf_stream_new(TI_REAL const *options, ti_stream **stream) try {
     TI_REAL lookback = options[0];
     TI_REAL length = options[0];
 
@@ -94,10 +94,17 @@ int ti_edcf_stream_new(TI_REAL const *options, ti_stream **stream) {
 
     ptr->options.length = length;
 
-    ptr->state.coef.resize(2*length);
-    ptr->state.distance2.resize(2*length);
+    try {
+        ptr->state.coef.resize(2*length);
+        ptr->state.distance2.resize(2*length);
+    } catch (std::bad_alloc&) {
+        delete ptr;
+        return TI_OUT_OF_MEMORY;
+    }
 
     return TI_OKAY;
+} catch (std::bad_alloc&) {
+    return TI_OUT_OF_MEMORY;
 }
 
 void ti_edcf_stream_free(ti_stream *stream) {
diff --git a/indicators/emsd.cc b/indicators/emsd.cc
index b25ccd5..87cc9ba 100644
--- a/indicators/emsd.cc
+++ b/indicators/emsd.cc
@@ -143,7 +143,12 @@ int ti_emsd_stream_new(TI_REAL const *options, ti_stream **stream) {
     ptr->options.period = period;
     ptr->options.ma_period = ma_period;
 
-    ptr->state.price.resize(period);
+    try {
+        ptr->state.price.resize(period);
+    } catch (std::bad_alloc&) {
+        delete ptr;
+        return TI_OUT_OF_MEMORY;
+    }
 
     ptr->constants.period_reciprocal = 1. / period;
     ptr->constants.ma_period_plus1_reciprocal = 1. / (ma_period + 1.);
diff --git a/indicators/er.cc b/indicators/er.cc
index 4000814..6911932 100644
--- a/indicators/er.cc
+++ b/indicators/er.cc
@@ -93,7 +93,12 @@ int ti_er_stream_new(TI_REAL const *options, ti_stream **stream) {
 
     ptr->options.period = period;
 
-    ptr->state.price.resize(period+1);
+    try {
+        ptr->state.price.resize(period+1);
+    } catch (std::bad_alloc&) {
+        delete ptr;
+        return TI_OUT_OF_MEMORY;
+    }
 
     return TI_OKAY;
 }
diff --git a/indicators/evwma.cc b/indicators/evwma.cc
index d676696..abb83ed 100644
--- a/indicators/evwma.cc
+++ b/indicators/evwma.cc
@@ -119,6 +119,7 @@ int ti_evwma_stream_new(TI_REAL const *options, ti_stream **stream) {
     try {
         ptr->state.volume.resize(period+1);
     } catch (std::bad_alloc& e) {
+        delete ptr;
         return TI_OUT_OF_MEMORY;
     }
 
diff --git a/indicators/frama.cc b/indicators/frama.cc
index 341612d..2588d43 100644
--- a/indicators/frama.cc
+++ b/indicators/frama.cc
@@ -136,7 +136,7 @@ struct ti_frama_stream : ti_stream {
     } constants;
 };
 
-int ti_frama_stream_new(TI_REAL const *options, ti_stream **stream) {
+int ti_frama_stream_new(TI_REAL const *options, ti_stream **stream) try {
     TI_REAL period = options[0];
     TI_REAL average_period = options[1];
 
@@ -156,6 +156,8 @@ int ti_frama_stream_new(TI_REAL const *options, ti_stream **stream) {
     ptr->constants.w = log(2.0 / (1.0 + average_period));
 
     return TI_OKAY;
+} catch (std::bad_alloc&) {
+    return TI_OUT_OF_MEMORY;
 }
 
 void ti_frama_stream_free(ti_stream *stream) {
diff --git a/indicators/hf.cc b/indicators/hf.cc
index 624b418..3dff197 100644
--- a/indicators/hf.cc
+++ b/indicators/hf.cc
@@ -132,8 +132,13 @@ int ti_hf_stream_new(TI_REAL const *options, ti_stream **stream) {
     ptr->options.k = k;
     ptr->options.threshold = threshold;
 
-    ptr->state.price.resize(2*k+1);
-    ptr->state.absbuf.resize(2*k+1);
+    try {
+        ptr->state.price.resize(2*k+1);
+        ptr->state.absbuf.resize(2*k+1);
+    } catch (std::bad_alloc&) {
+        delete ptr;
+        return TI_OUT_OF_MEMORY;
+    }
 
     return TI_OKAY;
 }
diff --git a/indicators/hfema.cc b/indicators/hfema.cc
index f76d033..eaa752c 100644
--- a/indicators/hfema.cc
+++ b/indicators/hfema.cc
@@ -159,7 +159,7 @@ int ti_hfema_stream_new(TI_REAL const *options, ti_stream **stream) {
         ptr->state.a.resize(2*k+1);
         ptr->state.price.resize(2*k+1);
     } catch (std::bad_alloc& e) {
-        delete *stream;
+        delete ptr;
         return TI_OUT_OF_MEMORY;
     }
 
diff --git a/indicators/hfsma.cc b/indicators/hfsma.cc
index b27cad0..9b331d4 100644
--- a/indicators/hfsma.cc
+++ b/indicators/hfsma.cc
@@ -159,7 +159,7 @@ int ti_hfsma_stream_new(TI_REAL const *options, ti_stream **stream) {
         ptr->state.price.resize(2*k+1);
         ptr->state.smoothed_price.resize(2*k+1);
     } catch (std::bad_alloc& e) {
-        delete *stream;
+        delete ptr;
         return TI_OUT_OF_MEMORY;
     }
 
diff --git a/indicators/ichi.cc b/indicators/ichi.cc
index 09f2504..50ddf7b 100644
--- a/indicators/ichi.cc
+++ b/indicators/ichi.cc
@@ -304,7 +304,7 @@ int ti_ichi_stream_new(TI_REAL const *options, ti_stream **stream) {
         ptr->state.price_high.resize(period52);
         ptr->state.price_low.resize(period52);
     } catch (std::bad_alloc& e) {
-        delete *stream;
+        delete ptr;
         return TI_OUT_OF_MEMORY;
     }
 
diff --git a/indicators/idwma.cc b/indicators/idwma.cc
index 2416bd9..0ffd8c1 100644
--- a/indicators/idwma.cc
+++ b/indicators/idwma.cc
@@ -108,10 +108,15 @@ int ti_idwma_stream_new(TI_REAL const *options, ti_stream **stream) {
     ptr->options.period = period;
     ptr->options.exponent = exponent;
 
-    ptr->state.price.resize(period);
-
-    ptr->constants.denom = 0;
-    ptr->constants.coefficients.resize(period);
+    try {
+        ptr->state.price.resize(period);
+
+        ptr->constants.denom = 0;
+        ptr->constants.coefficients.resize(period);
+    } catch (std::bad_alloc&) {
+        delete ptr;
+        return TI_OUT_OF_MEMORY;
+    }
 
     for (int i = 0; i < period; ++i) {
         ptr->constants.coefficients[i] = 1 / pow(i+1, exponent);
diff --git a/indicators/kc.cc b/indicators/kc.cc
index b9c1cc1..5cc755a 100644
--- a/indicators/kc.cc
+++ b/indicators/kc.cc
@@ -93,7 +93,7 @@ int ti_kc_stream_new(TI_REAL const *options, ti_stream **stream) {
     if (period < 0) { return TI_INVALID_OPTION; }
     if (multiple < 0) { return TI_INVALID_OPTION; }
 
-    ti_kc_stream *ptr = new ti_kc_stream();
+    ti_kc_stream *ptr = new(std::nothrow) ti_kc_stream();
     if (!ptr) { return TI_OUT_OF_MEMORY; }
     *stream = ptr;
 
diff --git a/indicators/mhlma.cc b/indicators/mhlma.cc
index 38957b8..750a4c0 100644
--- a/indicators/mhlma.cc
+++ b/indicators/mhlma.cc
@@ -193,8 +193,13 @@ int ti_mhlma_stream_new(TI_REAL const *options, ti_stream **stream) {
     ptr->options.period = period;
     ptr->options.ma_period = ma_period;
 
-    ptr->state.mhl.resize(ma_period);
-    ptr->state.price.resize(period);
+    try {
+        ptr->state.mhl.resize(ma_period);
+        ptr->state.price.resize(period);
+    } catch (std::bad_alloc&) {
+        delete ptr;
+        return TI_OUT_OF_MEMORY;
+    }
 
     return TI_OKAY;
 }
diff --git a/indicators/pbands.cc b/indicators/pbands.cc
index 9571533..74fae50 100644
--- a/indicators/pbands.cc
+++ b/indicators/pbands.cc
@@ -132,7 +132,7 @@ int ti_pbands_stream_new(TI_REAL const *options, ti_stream **stream) {
     const TI_REAL period = options[0];
     if (period < 1) { return TI_INVALID_OPTION; }
 
-    ti_pbands_stream *ptr = new ti_pbands_stream();
+    ti_pbands_stream *ptr = new(std::nothrow) ti_pbands_stream();
     if (!ptr) { return TI_OUT_OF_MEMORY; }
     *stream = ptr;
 
diff --git a/indicators/posc.cc b/indicators/posc.cc
index ce6c559..7718f26 100644
--- a/indicators/posc.cc
+++ b/indicators/posc.cc
@@ -155,7 +155,7 @@ int ti_posc_stream_new(TI_REAL const *options, ti_stream **stream) {
     if (period < 1) { return TI_INVALID_OPTION; }
     if (ema_period < 1) { return TI_INVALID_OPTION; }
 
-    ti_posc_stream *ptr = new ti_posc_stream();
+    ti_posc_stream *ptr = new(std::nothrow) ti_posc_stream();
     if (!ptr) { return TI_OUT_OF_MEMORY; }
     *stream = ptr;
 
diff --git a/indicators/pwma.cc b/indicators/pwma.cc
index e65dded..1f1b333 100644
--- a/indicators/pwma.cc
+++ b/indicators/pwma.cc
@@ -103,6 +103,7 @@ int ti_pwma_stream_new(TI_REAL const *options, ti_stream **stream) {
     try {
         ptr->state.price.resize(period+1);
     } catch (std::bad_alloc& e) {
+        delete ptr;
         return TI_OUT_OF_MEMORY;
     }
 
diff --git a/indicators/rmf.cc b/indicators/rmf.cc
index 199545a..c47e4e6 100644
--- a/indicators/rmf.cc
+++ b/indicators/rmf.cc
@@ -84,7 +84,7 @@ struct ti_rmf_stream : ti_stream {
     } constants;
 };
 
-int ti_rmf_stream_new(TI_REAL const *options, ti_stream **stream) {
+int ti_rmf_stream_new(TI_REAL const *options, ti_stream **stream) try {
     TI_REAL critical_period = options[0];
     TI_REAL median_period = options[1];
 
@@ -105,6 +105,8 @@ int ti_rmf_stream_new(TI_REAL const *options, ti_stream **stream) {
     ptr->constants.alpha = (cos(2*PI/critical_period) + sin(2*PI/critical_period) - 1.) / cos(2*PI/critical_period);
 
     return TI_OKAY;
+} catch (std::bad_alloc&) {
+    return TI_OUT_OF_MEMORY;
 }
 
 void ti_rmf_stream_free(ti_stream *stream) {
diff --git a/indicators/rmi.cc b/indicators/rmi.cc
index 33c4671..e4a6c3d 100644
--- a/indicators/rmi.cc
+++ b/indicators/rmi.cc
@@ -120,6 +120,7 @@ int ti_rmi_stream_new(TI_REAL const *options, ti_stream **stream) {
     try {
         ptr->state.price.resize(lookback_period + 1);
     } catch (std::bad_alloc& e) {
+        delete ptr;
         return TI_OUT_OF_MEMORY;
     }
 
diff --git a/indicators/rvi.cc b/indicators/rvi.cc
index 3e745b5..d8fa70d 100644
--- a/indicators/rvi.cc
+++ b/indicators/rvi.cc
@@ -91,7 +91,7 @@ int ti_rvi_stream_new(TI_REAL const *options, ti_stream **stream) {
     if (ema_period < 1) { return TI_INVALID_OPTION; }
     if (stddev_period < 1) { return TI_INVALID_OPTION; }
 
-    ti_rvi_stream *ptr = new ti_rvi_stream();
+    ti_rvi_stream *ptr = new(std::nothrow) ti_rvi_stream();
     if (!ptr) { return TI_OUT_OF_MEMORY; }
     *stream = ptr;
 
diff --git a/indicators/shmma.cc b/indicators/shmma.cc
index cc721de..7449dac 100644
--- a/indicators/shmma.cc
+++ b/indicators/shmma.cc
@@ -101,7 +101,12 @@ int ti_shmma_stream_new(TI_REAL const *options, ti_stream **stream) {
 
     ptr->options.period = period;
 
-    ptr->state.price.resize(period);
+    try {
+        ptr->state.price.resize(period);
+    } catch (std::bad_alloc&) {
+        delete ptr;
+        return TI_OUT_OF_MEMORY;
+    }
 
     return TI_OKAY;
 }
diff --git a/indicators/smi.cc b/indicators/smi.cc
index 8f65e5b..c40670a 100644
--- a/indicators/smi.cc
+++ b/indicators/smi.cc
@@ -196,7 +196,7 @@ int ti_smi_stream_new(TI_REAL const *options, ti_stream **stream) {
 
     for (int i = 0; i < 3; ++i) { if (options[i] < 1) { return TI_INVALID_OPTION; } }
 
-    ti_smi_stream *ptr = new ti_smi_stream;
+    ti_smi_stream *ptr = new(std::nothrow) ti_smi_stream;
     if (!ptr) { return TI_OUT_OF_MEMORY; }
     *stream = ptr;
 
diff --git a/indicators/swma.cc b/indicators/swma.cc
index 2880cbb..d9d0e7a 100644
--- a/indicators/swma.cc
+++ b/indicators/swma.cc
@@ -115,6 +115,7 @@ int ti_swma_stream_new(TI_REAL const *options, ti_stream **stream) {
     try {
         ptr->state.price.resize(period);
     } catch (std::bad_alloc& e) {
+        delete ptr;
         return TI_OUT_OF_MEMORY;
     }
 
-- 
2.43.0


From 20948b13357a1c273281721bef3c46eadfb3f4d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:12 +0000
Subject: [PATCH 10/48] fix: freeing a cmi stream leaked its buffers

---
 indicators/cmi.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/indicators/cmi.cc b/indicators/cmi.cc
index 7345827..2444397 100644
--- a/indicators/cmi.cc
+++ b/indicators/cmi.cc
@@ -161,7 +161,7 @@ int ti_cmi_stream_new(TI_REAL const *options, ti_stream **stream) {
 }
 
 void ti_cmi_stream_free(ti_stream *stream) {
-    delete stream;
+    delete static_cast<ti_cmi_stream*>(stream);
 }
 
 int ti_cmi_stream_run(ti_stream *stream, int size, TI_REAL const *const *inputs, TI_REAL *const *outputs) {
-- 
2.43.0


From c7864a7d1ae74231b03734fbead3201b90a03a1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:12 +0000
Subject: [PATCH 11/48] fix: indicators using standard containers let
 std::bad_alloc escape

---
 indicators/cmi.cc   | 4 +++-
 indicators/edcf.cc  | 8 ++++++--
 indicators/frama.cc | 8 ++++++--
 indicators/hf.cc    | 8 ++++++--
 indicators/hfema.cc | 4 +++-
 indicators/hfsma.cc | 4 +++-
 indicators/idwma.cc | 4 +++-
 indicators/mhlma.cc | 4 +++-
 indicators/rmf.cc   | 8 ++++++--
 9 files changed, 39 insertions(+), 13 deletions(-)

diff --git a/indicators/cmi.cc b/indicators/cmi.cc
index 2444397..b0cde09 100644
--- a/indicators/cmi.cc
+++ b/indicators/cmi.cc
@@ -18,7 +18,7 @@ int ti_cmi_start(TI_REAL const *options) {
     return period-1;
 }
 
-int ti_cmi(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_REAL *const *outputs) {
+int ti_cmi(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_REAL *const *outputs) try {
     TI_REAL const *const high = inputs[0];
     TI_REAL const *const low = inputs[1];
     TI_REAL const *const close = inputs[2];
@@ -83,6 +83,8 @@ int ti_cmi(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_RE
     }
 
     return TI_OKAY;
+} catch (std::bad_alloc&) {
+    return TI_OUT_OF_MEMORY;
 }
 
 DONTOPTIMIZE int ti_cmi_ref(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_REAL *const *outputs) {
diff --git a/indicators/edcf.cc b/indicators/edcf.cc
index 73e89bd..b7b727d 100644
--- a/indicators/edcf.cc
+++ b/indicators/edcf.cc
@@ -19,7 +19,7 @@ int ti_edcf_start(TI_REAL const *options) {
     return 2*length-1;
 }
 
-int ti_edcf(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_REAL *const *outputs) {
+int ti_edcf(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_REAL *const *outputs) try {
     TI_REAL const *const series = inputs[0];
     TI_REAL length = options[0];
     TI_REAL *edcf = outputs[0];
@@ -60,6 +60,8 @@ int ti_edcf(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_R
     }
 
     return TI_OKAY;
+} catch (std::bad_alloc&) {
+    return TI_OUT_OF_MEMORY;
 }
 
 struct ti_edcf_stream : ti_stream {
@@ -111,7 +113,7 @@ void ti_edcf_stream_free(ti_stream *stream) {
     delete static_cast<ti_edcf_stream*>(stream);
 }
 
-int ti_edcf_stream_run(ti_stream *stream, int size, TI_REAL const *const *inputs, TI_REAL *const *outputs) {
+int ti_edcf_stream_run(ti_stream *stream, int size, TI_REAL const *const *inputs, TI_REAL *const *outputs) try {
     ti_edcf_stream *ptr = static_cast<ti_edcf_stream*>(stream);
     TI_REAL const *const series = inputs[0];
     TI_REAL *edcf = outputs[0];
@@ -150,4 +152,6 @@ int ti_edcf_stream_run(ti_stream *stream, int size, TI_REAL const *const *inputs
     ptr->progress = progress;
 
     return TI_OKAY;
+} catch (std::bad_alloc&) {
+    return TI_OUT_OF_MEMORY;
 }
diff --git a/indicators/frama.cc b/indicators/frama.cc
index 2588d43..86ab088 100644
--- a/indicators/frama.cc
+++ b/indicators/frama.cc
@@ -20,7 +20,7 @@ int ti_frama_start(TI_REAL const *options) {
 }
 
 // original author: @HelloCreepy
-int ti_frama(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_REAL *const *outputs) {
+int ti_frama(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_REAL *const *outputs) try {
     TI_REAL const *high = inputs[0];
     TI_REAL const *low = inputs[1];
     TI_REAL period = options[0];
@@ -106,6 +106,8 @@ int ti_frama(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_
     }
 
     return TI_OKAY;
+} catch (std::bad_alloc&) {
+    return TI_OUT_OF_MEMORY;
 }
 
 struct ti_frama_stream : ti_stream {
@@ -164,7 +166,7 @@ void ti_frama_stream_free(ti_stream *stream) {
     delete static_cast<ti_frama_stream*>(stream);
 }
 
-int ti_frama_stream_run(ti_stream *stream, int size, TI_REAL const *const *inputs, TI_REAL *const *outputs) {
+int ti_frama_stream_run(ti_stream *stream, int size, TI_REAL const *const *inputs, TI_REAL *const *outputs) try {
     ti_frama_stream *ptr = static_cast<ti_frama_stream*>(stream);
     TI_REAL const *high = inputs[0];
     TI_REAL const *low = inputs[1];
@@ -328,4 +330,6 @@ int ti_frama_stream_run(ti_stream *stream, int size, TI_REAL const *const *input
     ptr->state.min2_idx = min2_idx;
 
     return TI_OKAY;
+} catch (std::bad_alloc&) {
+    return TI_OUT_OF_MEMORY;
 }
diff --git a/indicators/hf.cc b/indicators/hf.cc
index 3dff197..055cda4 100644
--- a/indicators/hf.cc
+++ b/indicators/hf.cc
@@ -21,7 +21,7 @@ int ti_hf_start(TI_REAL const *options) {
     return 2*k;
 }
 
-int ti_hf(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_REAL *const *outputs) {
+int ti_hf(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_REAL *const *outputs) try {
     TI_REAL const *const series = inputs[0];
     const int k = options[0];
     const TI_REAL threshold = options[1];
@@ -58,6 +58,8 @@ int ti_hf(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_REA
     }
 
     return TI_OKAY;
+} catch (std::bad_alloc&) {
+    return TI_OUT_OF_MEMORY;
 }
 
 DONTOPTIMIZE int ti_hf_ref(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_REAL *const *outputs) {
@@ -147,7 +149,7 @@ void ti_hf_stream_free(ti_stream *stream) {
     delete static_cast<ti_hf_stream*>(stream);
 }
 
-int ti_hf_stream_run(ti_stream *stream, int size, TI_REAL const *const *inputs, TI_REAL *const *outputs) {
+int ti_hf_stream_run(ti_stream *stream, int size, TI_REAL const *const *inputs, TI_REAL *const *outputs) try {
     ti_hf_stream *ptr = static_cast<ti_hf_stream*>(stream);
     TI_REAL const *const series = inputs[0];
     TI_REAL *hf = outputs[0];
@@ -188,4 +190,6 @@ int ti_hf_stream_run(ti_stream *stream, int size, TI_REAL const *const *inputs,
     ptr->progress = progress;
 
     return TI_OKAY;
+} catch (std::bad_alloc&) {
+    return TI_OUT_OF_MEMORY;
 }
diff --git a/indicators/hfema.cc b/indicators/hfema.cc
index eaa752c..b128885 100644
--- a/indicators/hfema.cc
+++ b/indicators/hfema.cc
@@ -170,7 +170,7 @@ void ti_hfema_stream_free(ti_stream *stream) {
     delete static_cast<ti_hfema_stream*>(stream);
 }
 
-int ti_hfema_stream_run(ti_stream *stream, int size, TI_REAL const *const *inputs, TI_REAL *const *outputs) {
+int ti_hfema_stream_run(ti_stream *stream, int size, TI_REAL const *const *inputs, TI_REAL *const *outputs) try {
     ti_hfema_stream *ptr = static_cast<ti_hfema_stream*>(stream);
     TI_REAL const *const series = inputs[0];
     TI_REAL *hfema = outputs[0];
@@ -216,4 +216,6 @@ int ti_hfema_stream_run(ti_stream *stream, int size, TI_REAL const *const *input
     ptr->state.ema = ema;
 
     return TI_OKAY;
+} catch (std::bad_alloc&) {
+    return TI_OUT_OF_MEMORY;
 }
diff --git a/indicators/hfsma.cc b/indicators/hfsma.cc
index 9b331d4..128d468 100644
--- a/indicators/hfsma.cc
+++ b/indicators/hfsma.cc
@@ -170,7 +170,7 @@ void ti_hfsma_stream_free(ti_stream *stream) {
     delete static_cast<ti_hfsma_stream*>(stream);
 }
 
-int ti_hfsma_stream_run(ti_stream *stream, int size, TI_REAL const *const *inputs, TI_REAL *const *outputs) {
+int ti_hfsma_stream_run(ti_stream *stream, int size, TI_REAL const *const *inputs, TI_REAL *const *outputs) try {
     ti_hfsma_stream *ptr = static_cast<ti_hfsma_stream*>(stream);
     const TI_REAL *const series = inputs[0];
     TI_REAL *hfsma = outputs[0];
@@ -222,4 +222,6 @@ int ti_hfsma_stream_run(ti_stream *stream, int size, TI_REAL const *const *input
     ptr->state.sum = sum;
 
     return TI_OKAY;
+} catch (std::bad_alloc&) {
+    return TI_OUT_OF_MEMORY;
 }
diff --git a/indicators/idwma.cc b/indicators/idwma.cc
index 0ffd8c1..f4e7aff 100644
--- a/indicators/idwma.cc
+++ b/indicators/idwma.cc
@@ -19,7 +19,7 @@ int ti_idwma_start(TI_REAL const *options) {
     return period-1;
 }
 
-int ti_idwma(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_REAL *const *outputs) {
+int ti_idwma(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_REAL *const *outputs) try {
     TI_REAL const *const series = inputs[0];
     const int period = options[0];
     const TI_REAL exponent = options[1];
@@ -45,6 +45,8 @@ int ti_idwma(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_
     }
 
     return TI_OKAY;
+} catch (std::bad_alloc&) {
+    return TI_OUT_OF_MEMORY;
 }
 
 DONTOPTIMIZE int ti_idwma_ref(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_REAL *const *outputs) {
diff --git a/indicators/mhlma.cc b/indicators/mhlma.cc
index 750a4c0..cd84367 100644
--- a/indicators/mhlma.cc
+++ b/indicators/mhlma.cc
@@ -19,7 +19,7 @@ int ti_mhlma_start(TI_REAL const *options) {
     return ma_period-1;
 }
 
-int ti_mhlma(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_REAL *const *outputs) {
+int ti_mhlma(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_REAL *const *outputs) try {
     TI_REAL const *const series = inputs[0];
     const int period = options[0];
     const int ma_period = options[1];
@@ -118,6 +118,8 @@ int ti_mhlma(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_
     }
 
     return TI_OKAY;
+} catch (std::bad_alloc&) {
+    return TI_OUT_OF_MEMORY;
 }
 
 DONTOPTIMIZE int ti_mhlma_ref(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_REAL *const *outputs) {
diff --git a/indicators/rmf.cc b/indicators/rmf.cc
index c47e4e6..cf35e3d 100644
--- a/indicators/rmf.cc
+++ b/indicators/rmf.cc
@@ -22,7 +22,7 @@ int ti_rmf_start(TI_REAL const *options) {
     return median_period-1;
 }
 
-int ti_rmf(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_REAL *const *outputs) {
+int ti_rmf(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_REAL *const *outputs) try {
     TI_REAL const *const series = inputs[0];
     TI_REAL critical_period = options[0];
     TI_REAL median_period = options[1];
@@ -64,6 +64,8 @@ int ti_rmf(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_RE
     }
 
     return TI_OKAY;
+} catch (std::bad_alloc&) {
+    return TI_OUT_OF_MEMORY;
 }
 
 struct ti_rmf_stream : ti_stream {
@@ -113,7 +115,7 @@ void ti_rmf_stream_free(ti_stream *stream) {
     delete static_cast<ti_rmf_stream*>(stream);
 }
 
-int ti_rmf_stream_run(ti_stream *stream, int size, TI_REAL const *const *inputs, TI_REAL *const *outputs) {
+int ti_rmf_stream_run(ti_stream *stream, int size, TI_REAL const *const *inputs, TI_REAL *const *outputs) try {
     ti_rmf_stream *ptr = static_cast<ti_rmf_stream*>(stream);
     TI_REAL const *const series = inputs[0];
     TI_REAL *rmf = outputs[0];
@@ -153,4 +155,6 @@ int ti_rmf_stream_run(ti_stream *stream, int size, TI_REAL const *const *inputs,
     ptr->state.rmf_val = rmf_val;
 
     return TI_OKAY;
+} catch (std::bad_alloc&) {
+    return TI_OUT_OF_MEMORY;
 }
-- 
2.43.0


From e185d334200832cfee38a7c3312a9787bcee9b0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:04 +0000
Subject: [PATCH 12/48] fix: vi rejected and kst overran inputs that are too
 short

---
 indicators/kst.cc | 2 ++
 indicators/vi.cc  | 6 ++++--
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/indicators/kst.cc b/indicators/kst.cc
index 9f6560a..43e9811 100755
--- a/indicators/kst.cc
+++ b/indicators/kst.cc
@@ -54,6 +54,7 @@ int ti_kst(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_RE
             return TI_INVALID_OPTION;
         }
     }
+    if (size <= ti_kst_start(options)) { return TI_OKAY; }
 
     TI_REAL max_ma;
     MAX4(max_ma, ma1, ma2, ma3, ma4);
@@ -121,6 +122,7 @@ int ti_kst_ref(int size, TI_REAL const *const *inputs, TI_REAL const *options, T
             return TI_INVALID_OPTION;
         }
     }
+    if (size <= ti_kst_start(options)) { return TI_OKAY; }
 
     int size_roc[4];
     int size_ema[4];
diff --git a/indicators/vi.cc b/indicators/vi.cc
index 9f2133d..221ede6 100644
--- a/indicators/vi.cc
+++ b/indicators/vi.cc
@@ -26,7 +26,8 @@ int ti_vi(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_REA
     TI_REAL *vi_p = outputs[0];
     TI_REAL *vi_m = outputs[1];
 
-    if (period < 1 || period >= size) return TI_INVALID_OPTION;
+    if (period < 1) { return TI_INVALID_OPTION; }
+    if (size <= ti_vi_start(options)) { return TI_OKAY; }
 
     TI_REAL last_vm_p_period = 0;
     TI_REAL last_vm_m_period = 0;
@@ -61,7 +62,8 @@ DONTOPTIMIZE int ti_vi_ref(int size, TI_REAL const *const *inputs, TI_REAL const
     TI_REAL *vi_p = outputs[0];
     TI_REAL *vi_m = outputs[1];
 
-    if (period < 1 || period >= size) return TI_INVALID_OPTION;
+    if (period < 1) { return TI_INVALID_OPTION; }
+    if (size <= ti_vi_start(options)) { return TI_OKAY; }
 
     std::vector<TI_REAL> vm_p(size);
     std::vector<TI_REAL> vm_m(size);    
-- 
2.43.0


From d384cbca2dd17131ece40400a63a876b4c1000d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:04 +0000
Subject: [PATCH 13/48] fix: reference implementations overran short inputs and
 skipped option checks

---
 indicators/abands.cc | 1 +
 indicators/ce.cc     | 2 +-
 indicators/copp.cc   | 2 +-
 indicators/dwma.cc   | 1 +
 indicators/fi.cc     | 1 +
 indicators/lma.cc    | 1 +
 indicators/mama.cc   | 2 ++
 indicators/pbands.cc | 3 +++
 indicators/pfe.cc    | 1 +
 indicators/posc.cc   | 4 ++++
 indicators/pvt.cc    | 2 ++
 indicators/rmi.cc    | 2 ++
 indicators/smi.cc    | 1 +
 indicators/t3.cc     | 1 +
 indicators/tsi.cc    | 1 +
 indicators/vwap.cc   | 1 +
 16 files changed, 24 insertions(+), 2 deletions(-)

diff --git a/indicators/abands.cc b/indicators/abands.cc
index e0fdedb..2483d27 100644
--- a/indicators/abands.cc
+++ b/indicators/abands.cc
@@ -93,6 +93,7 @@ int ti_abands_ref(int size, TI_REAL const *const *inputs, TI_REAL const *options
     TI_REAL *middle_point = outputs[2];
 
     if (period < 1) { return TI_INVALID_OPTION; }
+    if (size <= ti_abands_start(options)) { return TI_OKAY; }
 
     for (int i = period-1; i < size; ++i) {
         TI_REAL upper = 0;
diff --git a/indicators/ce.cc b/indicators/ce.cc
index 0d9eecc..259b4b5 100644
--- a/indicators/ce.cc
+++ b/indicators/ce.cc
@@ -118,8 +118,8 @@ int ti_ce_ref(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI
     TI_REAL *ce_high = outputs[0];
     TI_REAL *ce_low = outputs[1];
 
-    if (size <= ti_ce_start(options)) { return TI_OKAY; }
     if (period < 1) { return TI_INVALID_OPTION; }
+    if (size <= ti_ce_start(options)) { return TI_OKAY; }
 
     #define MAX(a, b) (a > b ? a : b)
     #define MAX3(a, b, c) (a > b && a > c ? a : b > a && b > c ? b : c)
diff --git a/indicators/copp.cc b/indicators/copp.cc
index 212ea86..37d1497 100644
--- a/indicators/copp.cc
+++ b/indicators/copp.cc
@@ -84,7 +84,7 @@ int ti_copp_ref(int size, TI_REAL const *const *inputs, TI_REAL const *options,
         if (options[i] < 1) { return TI_INVALID_OPTION; }
     }
     if (roc_longer_period < roc_shorter_period) { return TI_INVALID_OPTION; }
-    if (size < ti_copp_start(options)) { return TI_OKAY; }
+    if (size <= ti_copp_start(options)) { return TI_OKAY; }
 
     // wma of (roc1 + roc2) / 2 * 100
 
diff --git a/indicators/dwma.cc b/indicators/dwma.cc
index 320aac5..1ba5678 100644
--- a/indicators/dwma.cc
+++ b/indicators/dwma.cc
@@ -81,6 +81,7 @@ int ti_dwma_ref(int size, TI_REAL const *const *inputs, TI_REAL const *options,
     TI_REAL *dwma = outputs[0];
 
     if (period < 1) { return TI_INVALID_OPTION; }
+    if (size <= ti_dwma_start(options)) { return TI_OKAY; }
 
     std::vector<TI_REAL> smooth1(size-period+1);
     TI_REAL *arr[1] = {smooth1.data()};
diff --git a/indicators/fi.cc b/indicators/fi.cc
index fc5ccc7..7405d34 100644
--- a/indicators/fi.cc
+++ b/indicators/fi.cc
@@ -41,6 +41,7 @@ int ti_fi_ref(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI
     TI_REAL const period = options[0];
     TI_REAL *fi = outputs[0];
 
+    if (period < 1) { return TI_INVALID_OPTION; }
     if (size <= ti_fi_start(options)) { return TI_OKAY; }
 
     for (int i = 1; i < size; ++i) {
diff --git a/indicators/lma.cc b/indicators/lma.cc
index 899d200..ca0dafd 100644
--- a/indicators/lma.cc
+++ b/indicators/lma.cc
@@ -59,6 +59,7 @@ DONTOPTIMIZE int ti_lma_ref(int size, TI_REAL const *const *inputs, TI_REAL cons
     TI_REAL *lma = outputs[0];
 
     if (period < 1) { return TI_INVALID_OPTION; }
+    if (size <= ti_lma_start(options)) { return TI_OKAY; }
 
     std::vector<TI_REAL> wma_price(size-period+1);
     std::vector<TI_REAL> sma_price(size-period+1);
diff --git a/indicators/mama.cc b/indicators/mama.cc
index 0a054cc..4d3321f 100644
--- a/indicators/mama.cc
+++ b/indicators/mama.cc
@@ -101,6 +101,8 @@ int ti_mama_ref(int size, TI_REAL const *const *inputs, TI_REAL const *options,
         }
     }
 
+    if (size <= ti_mama_start(options)) { return TI_OKAY; }
+
     // Straightforward translation of the original definition in EasyLanguage
     TI_REAL const *price = series;
 
diff --git a/indicators/pbands.cc b/indicators/pbands.cc
index 74fae50..3d57c9c 100644
--- a/indicators/pbands.cc
+++ b/indicators/pbands.cc
@@ -79,6 +79,9 @@ int ti_pbands_ref(int size, TI_REAL const *const *inputs, TI_REAL const *options
     TI_REAL *pbands_lower = outputs[0];
     TI_REAL *pbands_upper = outputs[1];
 
+    if (period < 1) { return TI_INVALID_OPTION; }
+    if (size <= ti_pbands_start(options)) { return TI_OKAY; }
+
     int start = ti_linregslope_start(options);
     TI_REAL *b = (TI_REAL*)malloc(sizeof(TI_REAL) * (size - start));
 
diff --git a/indicators/pfe.cc b/indicators/pfe.cc
index 2e2b9a7..4b7704f 100644
--- a/indicators/pfe.cc
+++ b/indicators/pfe.cc
@@ -84,6 +84,7 @@ int ti_pfe_ref(int size, TI_REAL const *const *inputs, TI_REAL const *options, T
     TI_REAL *pfe = outputs[0];
 
     if (period < 1) { return TI_INVALID_OPTION; }
+    if (ema_period < 1) { return TI_INVALID_OPTION; }
     if (size <= ti_pfe_start(options)) { return TI_OKAY; }
 
     for (int i = period; i < size; ++i) {
diff --git a/indicators/posc.cc b/indicators/posc.cc
index 7718f26..769eb6b 100644
--- a/indicators/posc.cc
+++ b/indicators/posc.cc
@@ -98,6 +98,10 @@ int ti_posc_ref(int size, TI_REAL const *const *inputs, TI_REAL const *options,
     const TI_REAL ema_period = options[1];
     TI_REAL *posc = outputs[0];
 
+    if (period < 1) { return TI_INVALID_OPTION; }
+    if (ema_period < 1) { return TI_INVALID_OPTION; }
+    if (size <= ti_posc_start(options)) { return TI_OKAY; }
+
     int start = ti_linregslope_start(options);
     TI_REAL *b = (TI_REAL*)malloc(sizeof(TI_REAL) * (size - start));
 
diff --git a/indicators/pvt.cc b/indicators/pvt.cc
index cd78758..be825d3 100644
--- a/indicators/pvt.cc
+++ b/indicators/pvt.cc
@@ -40,6 +40,8 @@ DONTOPTIMIZE int ti_pvt_ref(int size, TI_REAL const *const *inputs, TI_REAL cons
     
     TI_REAL *pvt = outputs[0];
 
+    if (size <= ti_pvt_start(options)) { return TI_OKAY; }
+
     *pvt++ = volume[1] * (close[1] - close[0]) / close[0] + volume[0];
     for (int i = 2; i < size; i++) {
         *pvt = *(pvt - 1) + volume[i] * (close[i] - close[i - 1]) / close[i - 1];
diff --git a/indicators/rmi.cc b/indicators/rmi.cc
index e4a6c3d..f31098f 100644
--- a/indicators/rmi.cc
+++ b/indicators/rmi.cc
@@ -60,6 +60,8 @@ int ti_rmi_ref(int size, TI_REAL const *const *inputs, TI_REAL const *options, T
     if (period < 1) { return TI_INVALID_OPTION; }
     if (lookback_period < 1) { return TI_INVALID_OPTION; }
 
+    if (size <= ti_rmi_start(options)) { return TI_OKAY; }
+
     int start = ti_rmi_start(options);
     TI_REAL *gains = (TI_REAL*)malloc(sizeof(TI_REAL) * (size-start));
     TI_REAL *losses = (TI_REAL*)malloc(sizeof(TI_REAL) * (size-start));
diff --git a/indicators/smi.cc b/indicators/smi.cc
index c40670a..f39b461 100644
--- a/indicators/smi.cc
+++ b/indicators/smi.cc
@@ -128,6 +128,7 @@ int ti_smi_ref(int size, TI_REAL const *const *inputs, TI_REAL const *options, T
     TI_REAL *smi = outputs[0];
 
     for (int i = 0; i < 3; ++i) { if (options[i] < 1) { return TI_INVALID_OPTION; } }
+    if (size <= ti_smi_start(options)) { return TI_OKAY; }
 
     int outsize = size - ti_max_start(&q_period);
 
diff --git a/indicators/t3.cc b/indicators/t3.cc
index a197159..b113b7c 100644
--- a/indicators/t3.cc
+++ b/indicators/t3.cc
@@ -84,6 +84,7 @@ DONTOPTIMIZE int ti_t3_ref(int size, TI_REAL const *const *inputs, TI_REAL const
 
     if (period < 1) { return TI_INVALID_OPTION; }
     if (v < 0) { return TI_INVALID_OPTION; }
+    if (size <= ti_t3_start(options)) { return TI_OKAY; }
 
     auto GD = [period, v](const std::vector<TI_REAL> &input) -> std::vector<TI_REAL> {
         const int size = input.size();
diff --git a/indicators/tsi.cc b/indicators/tsi.cc
index f07cd9f..9f459e5 100644
--- a/indicators/tsi.cc
+++ b/indicators/tsi.cc
@@ -65,6 +65,7 @@ int ti_tsi_ref(int size, TI_REAL const *const *inputs, TI_REAL const *options, T
     TI_REAL *tsi = outputs[0];
 
     for (int i = 0; i < 2; ++i) { if (options[i] < 1) { return TI_INVALID_OPTION; } }
+    if (size <= ti_tsi_start(options)) { return TI_OKAY; }
 
     TI_REAL _one = 1;
     int outsize = size - ti_mom_start(&_one);
diff --git a/indicators/vwap.cc b/indicators/vwap.cc
index 1f4eed7..000b870 100644
--- a/indicators/vwap.cc
+++ b/indicators/vwap.cc
@@ -58,6 +58,7 @@ int ti_vwap_ref(int size, TI_REAL const *const *inputs, TI_REAL const *options,
     TI_REAL *vwap = outputs[0];
 
     if (period < 1) { return TI_INVALID_OPTION; }
+    if (size <= ti_vwap_start(options)) { return TI_OKAY; }
 
     int outsize = size - ti_typprice_start(&period);
     TI_REAL *typprice = (TI_REAL*)malloc(sizeof(TI_REAL) * outsize);
-- 
2.43.0


From 34f5b3a3593b9590e47dbd36ef06bb92d90f14aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:38 +0000
Subject: [PATCH 14/48] fix: fractional periods made several indicators overrun
 their buffers

---
 indicators/cmi.cc    | 2 +-
 indicators/dwma.cc   | 6 +++---
 indicators/edcf.cc   | 6 +++---
 indicators/frama.cc  | 4 ++--
 indicators/hurst.cc  | 6 +++---
 indicators/idwma.cc  | 2 +-
 indicators/lma.cc    | 2 +-
 indicators/pbands.cc | 2 +-
 indicators/pfe.cc    | 2 +-
 indicators/posc.cc   | 2 +-
 indicators/shmma.cc  | 2 +-
 indicators/smi.cc    | 6 +++---
 12 files changed, 21 insertions(+), 21 deletions(-)

diff --git a/indicators/cmi.cc b/indicators/cmi.cc
index b0cde09..56b05aa 100644
--- a/indicators/cmi.cc
+++ b/indicators/cmi.cc
@@ -138,7 +138,7 @@ struct ti_cmi_stream : ti_stream {
 };
 
 int ti_cmi_stream_new(TI_REAL const *options, ti_stream **stream) {
-    const TI_REAL period = options[0];
+    const TI_REAL period = (int)options[0];
 
     if (period < 1) { return TI_INVALID_OPTION; }
 
diff --git a/indicators/dwma.cc b/indicators/dwma.cc
index 1ba5678..0ec5144 100644
--- a/indicators/dwma.cc
+++ b/indicators/dwma.cc
@@ -13,7 +13,7 @@
 #include "../utils/ringbuf.hh"
 
 int ti_dwma_start(TI_REAL const *options) {
-    const TI_REAL period = options[0];
+    const TI_REAL period = (int)options[0];
 
     return 2*(period-1);
 }
@@ -77,7 +77,7 @@ int ti_dwma(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_R
 DONTOPTIMIZE
 int ti_dwma_ref(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_REAL *const *outputs) {
     TI_REAL const *const series = inputs[0];
-    const TI_REAL period = options[0];
+    const TI_REAL period = (int)options[0];
     TI_REAL *dwma = outputs[0];
 
     if (period < 1) { return TI_INVALID_OPTION; }
@@ -115,7 +115,7 @@ struct ti_dwma_stream : ti_stream {
 };
 
 int ti_dwma_stream_new(TI_REAL const *options, ti_stream **stream) {
-    const TI_REAL period = options[0];
+    const TI_REAL period = (int)options[0];
 
     if (period < 1) { return TI_INVALID_OPTION; }
 
diff --git a/indicators/edcf.cc b/indicators/edcf.cc
index b7b727d..806d43a 100644
--- a/indicators/edcf.cc
+++ b/indicators/edcf.cc
@@ -14,14 +14,14 @@
 
 
 int ti_edcf_start(TI_REAL const *options) {
-    TI_REAL length = options[0];
+    TI_REAL length = (int)options[0];
 
     return 2*length-1;
 }
 
 int ti_edcf(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_REAL *const *outputs) try {
     TI_REAL const *const series = inputs[0];
-    TI_REAL length = options[0];
+    TI_REAL length = (int)options[0];
     TI_REAL *edcf = outputs[0];
 
     if (length < 1) { return TI_INVALID_OPTION; }
@@ -83,7 +83,7 @@ struct ti_edcf_stream : ti_stream {
 
 int ti_edcf_stream_new(TI_REAL const *options, ti_stream **stream) try {
     TI_REAL lookback = options[0];
-    TI_REAL length = options[0];
+    TI_REAL length = (int)options[0];
 
     if (length < 1) { return TI_INVALID_OPTION; }
 
diff --git a/indicators/frama.cc b/indicators/frama.cc
index 86ab088..6ed7341 100644
--- a/indicators/frama.cc
+++ b/indicators/frama.cc
@@ -23,7 +23,7 @@ int ti_frama_start(TI_REAL const *options) {
 int ti_frama(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_REAL *const *outputs) try {
     TI_REAL const *high = inputs[0];
     TI_REAL const *low = inputs[1];
-    TI_REAL period = options[0];
+    TI_REAL period = (int)options[0];
     TI_REAL average_period = options[1];
     TI_REAL *frama = outputs[0];
 
@@ -139,7 +139,7 @@ struct ti_frama_stream : ti_stream {
 };
 
 int ti_frama_stream_new(TI_REAL const *options, ti_stream **stream) try {
-    TI_REAL period = options[0];
+    TI_REAL period = (int)options[0];
     TI_REAL average_period = options[1];
 
     if (period < 1) { return TI_INVALID_OPTION; }
diff --git a/indicators/hurst.cc b/indicators/hurst.cc
index b31c325..9905731 100644
--- a/indicators/hurst.cc
+++ b/indicators/hurst.cc
@@ -21,7 +21,7 @@ int ti_hurst_start(TI_REAL const *options) {
 
 int ti_hurst(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_REAL *const *outputs) try {
     TI_REAL const *const series = inputs[0];
-    const TI_REAL period = options[0];
+    const TI_REAL period = (int)options[0];
     TI_REAL *hurst = outputs[0];
     TI_REAL *fractal_dim = outputs[1];
 
@@ -72,7 +72,7 @@ int ti_hurst(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_
 DONTOPTIMIZE
 int ti_hurst_ref(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_REAL *const *outputs) {
     TI_REAL const *const series = inputs[0];
-    const TI_REAL period = options[0];
+    const TI_REAL period = (int)options[0];
     TI_REAL *hurst = outputs[0];
     TI_REAL *fractal_dim = outputs[1];
 
@@ -134,7 +134,7 @@ struct ti_hurst_stream : ti_stream {
 };
 
 int ti_hurst_stream_new(TI_REAL const *options, ti_stream **stream) {
-    const TI_REAL period = options[0];
+    const TI_REAL period = (int)options[0];
 
     if (period < 2) { return TI_INVALID_OPTION; }
 
diff --git a/indicators/idwma.cc b/indicators/idwma.cc
index f4e7aff..63378c3 100644
--- a/indicators/idwma.cc
+++ b/indicators/idwma.cc
@@ -51,7 +51,7 @@ int ti_idwma(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_
 
 DONTOPTIMIZE int ti_idwma_ref(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_REAL *const *outputs) {
     TI_REAL const *const series = inputs[0];
-    const TI_REAL period = options[0];
+    const TI_REAL period = (int)options[0];
     const TI_REAL exponent = options[1];
     TI_REAL *idwma = outputs[0];
 
diff --git a/indicators/lma.cc b/indicators/lma.cc
index ca0dafd..dd00eeb 100644
--- a/indicators/lma.cc
+++ b/indicators/lma.cc
@@ -55,7 +55,7 @@ int ti_lma(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_RE
 
 DONTOPTIMIZE int ti_lma_ref(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_REAL *const *outputs) {
     TI_REAL const *const series = inputs[0];
-    const TI_REAL period = options[0];
+    const TI_REAL period = (int)options[0];
     TI_REAL *lma = outputs[0];
 
     if (period < 1) { return TI_INVALID_OPTION; }
diff --git a/indicators/pbands.cc b/indicators/pbands.cc
index 3d57c9c..af0a3e4 100644
--- a/indicators/pbands.cc
+++ b/indicators/pbands.cc
@@ -75,7 +75,7 @@ int ti_pbands_ref(int size, TI_REAL const *const *inputs, TI_REAL const *options
     TI_REAL const *high = inputs[0];
     TI_REAL const *low = inputs[1];
     TI_REAL const *close = inputs[2];
-    const TI_REAL period = options[0];
+    const TI_REAL period = (int)options[0];
     TI_REAL *pbands_lower = outputs[0];
     TI_REAL *pbands_upper = outputs[1];
 
diff --git a/indicators/pfe.cc b/indicators/pfe.cc
index 4b7704f..8902c0e 100644
--- a/indicators/pfe.cc
+++ b/indicators/pfe.cc
@@ -79,7 +79,7 @@ int ti_pfe(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_RE
 
 int ti_pfe_ref(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_REAL *const *outputs) {
     TI_REAL const *series = inputs[0];
-    const TI_REAL period = options[0];
+    const TI_REAL period = (int)options[0];
     const TI_REAL ema_period = options[1];
     TI_REAL *pfe = outputs[0];
 
diff --git a/indicators/posc.cc b/indicators/posc.cc
index 769eb6b..ddd82ce 100644
--- a/indicators/posc.cc
+++ b/indicators/posc.cc
@@ -94,7 +94,7 @@ int ti_posc_ref(int size, TI_REAL const *const *inputs, TI_REAL const *options,
     TI_REAL const *high = inputs[0];
     TI_REAL const *low = inputs[1];
     TI_REAL const *close = inputs[2];
-    const TI_REAL period = options[0];
+    const TI_REAL period = (int)options[0];
     const TI_REAL ema_period = options[1];
     TI_REAL *posc = outputs[0];
 
diff --git a/indicators/shmma.cc b/indicators/shmma.cc
index 7449dac..29f9586 100644
--- a/indicators/shmma.cc
+++ b/indicators/shmma.cc
@@ -48,7 +48,7 @@ int ti_shmma(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_
 
 DONTOPTIMIZE int ti_shmma_ref(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_REAL *const *outputs) {
     TI_REAL const *const series = inputs[0];
-    const TI_REAL period = options[0];
+    const TI_REAL period = (int)options[0];
     TI_REAL *shmma = outputs[0];
 
     if (period < 1) { return TI_INVALID_OPTION; }
diff --git a/indicators/smi.cc b/indicators/smi.cc
index f39b461..855a32b 100644
--- a/indicators/smi.cc
+++ b/indicators/smi.cc
@@ -21,7 +21,7 @@ int ti_smi(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_RE
     TI_REAL const *high = inputs[0];
     TI_REAL const *low = inputs[1];
     TI_REAL const *close = inputs[2];
-    const TI_REAL q_period = options[0];
+    const TI_REAL q_period = (int)options[0];
     const TI_REAL r_period = options[1];
     const TI_REAL s_period = options[2];
     TI_REAL *smi = outputs[0];
@@ -122,7 +122,7 @@ int ti_smi_ref(int size, TI_REAL const *const *inputs, TI_REAL const *options, T
     TI_REAL const *high = inputs[0];
     TI_REAL const *low = inputs[1];
     TI_REAL const *close = inputs[2];
-    const TI_REAL q_period = options[0];
+    const TI_REAL q_period = (int)options[0];
     const TI_REAL r_period = options[1];
     const TI_REAL s_period = options[2];
     TI_REAL *smi = outputs[0];
@@ -191,7 +191,7 @@ struct ti_smi_stream : ti_stream {
 };
 
 int ti_smi_stream_new(TI_REAL const *options, ti_stream **stream) {
-    const TI_REAL q_period = options[0];
+    const TI_REAL q_period = (int)options[0];
     const TI_REAL r_period = options[1];
     const TI_REAL s_period = options[2];
 
-- 
2.43.0


From 9184965bd593f66d624e38a2cf9ab89410bc06cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:38 +0000
Subject: [PATCH 15/48] fix: mesastoch overran its filter history for periods
 below three

---
 indicators/mesastoch.cc | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/indicators/mesastoch.cc b/indicators/mesastoch.cc
index 2c3ce5d..90f418c 100644
--- a/indicators/mesastoch.cc
+++ b/indicators/mesastoch.cc
@@ -40,7 +40,7 @@ int ti_mesastoch(int size, TI_REAL const *const *inputs, TI_REAL const *options,
     int highestC_idx;
     int lowestC_idx;
 
-    ringbuf<0> filt(period);
+    ringbuf<0> filt(std::max(period, 3)); // the recursion looks back two values
     ringbuf<3> HP;
     ringbuf<2> stoc;
     ringbuf<3> result;
@@ -77,7 +77,7 @@ int ti_mesastoch(int size, TI_REAL const *const *inputs, TI_REAL const *options,
             highestC_idx = i;
             highestC = filt;
         } else if (highestC_idx == i - period) {
-            TI_REAL* it = std::max_element(filt.phbegin(), filt.phend());
+            TI_REAL* it = filt.find_max(period);
             highestC = *it;
             highestC_idx = i - filt.iterator_to_age(it);
         }
@@ -85,7 +85,7 @@ int ti_mesastoch(int size, TI_REAL const *const *inputs, TI_REAL const *options,
             lowestC_idx = i;
             lowestC = filt;
         } else if (lowestC_idx == i - period) {
-            TI_REAL* it = std::min_element(filt.phbegin(), filt.phend());
+            TI_REAL* it = filt.find_min(period);
             lowestC = *it;
             lowestC_idx = i - filt.iterator_to_age(it);
         }
@@ -110,7 +110,7 @@ int ti_mesastoch_ref(int size, TI_REAL const *const *inputs, TI_REAL const *opti
     if (period < 1) { return TI_INVALID_OPTION; }
     if (max_cycle_considered < 1) { return TI_INVALID_OPTION; }
 
-    std::deque<TI_REAL> filt(period);
+    std::deque<TI_REAL> filt(std::max(period, 3));
     std::deque<TI_REAL> HP(3);
     std::deque<TI_REAL> stoc(2);
     std::deque<TI_REAL> result(3);
@@ -157,8 +157,8 @@ int ti_mesastoch_ref(int size, TI_REAL const *const *inputs, TI_REAL const *opti
         c1 = 1 - c2 - c3;
         filt[0] = c1 * (HP[0] + HP[1]) / 2. + c2 * filt[1] + c3 * filt[2];
 
-        highestC = *std::max_element(filt.begin(), filt.end());
-        lowestC = *std::min_element(filt.begin(), filt.end());
+        highestC = *std::max_element(filt.begin(), filt.begin() + period);
+        lowestC = *std::min_element(filt.begin(), filt.begin() + period);
 
         stoc[0] = (filt[0] - lowestC) / (highestC - lowestC);
         result[0] = c1 * (stoc[0] + stoc[1]) / 2. + c2 * result[1] + c3 * result[2];
@@ -225,7 +225,7 @@ int ti_mesastoch_stream_new(TI_REAL const *options, ti_stream **stream) {
     ptr->constants.c1 = 1 - (ptr->constants.c2) - (ptr->constants.c3);
 
     try {
-        ptr->store.filt.resize(period);
+        ptr->store.filt.resize(std::max(period, 3));
     } catch (std::bad_alloc& e) {
         delete ptr;
         return TI_OUT_OF_MEMORY;
-- 
2.43.0


From 8b03348202b792e3e18d495e1f76b0b596accb88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:38 +0000
Subject: [PATCH 16/48] fix: hwma indexed its table before checking the period

---
 indicators/hwma.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/indicators/hwma.cc b/indicators/hwma.cc
index a42fbf5..3c81645 100644
--- a/indicators/hwma.cc
+++ b/indicators/hwma.cc
@@ -34,10 +34,10 @@ int ti_hwma(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_R
     const int period = options[0];
     TI_REAL *hwma = outputs[0];
 
-    auto &c = tables.coefficients[period-7];
-
     if (period < 7 || period > 13) { return TI_INVALID_OPTION; }
 
+    auto &c = tables.coefficients[period-7];
+
     for (int i = period-1; i < size; ++i) {
         TI_REAL filt = 0;
         for (int j = 0; j < period; ++j) {
-- 
2.43.0


From f4fda0c5ffd2c62da283292d647e615f39dfa258 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:38 +0000
Subject: [PATCH 17/48] fix: gf4 overran inputs shorter than five bars

---
 indicators/gf4.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/indicators/gf4.cc b/indicators/gf4.cc
index 0260cb5..dc76ba7 100644
--- a/indicators/gf4.cc
+++ b/indicators/gf4.cc
@@ -51,7 +51,7 @@ int ti_gf4(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_RE
     TI_REAL csum_reciproc = 1./(B0 + A1 + A2 + A3 + A4);
 
     int i = 0;
-    for (; i < 5; ++i, step(f)) {
+    for (; i < 5 && i < size; ++i, step(f)) {
         f = series[i];
         *gf4++ = f;
     }
@@ -83,7 +83,7 @@ DONTOPTIMIZE int ti_gf4_ref(int size, TI_REAL const *const *inputs, TI_REAL cons
     TI_REAL csum_reciproc = 1./(B0 + A1 + A2 + A3 + A4);
 
     int i = 0;
-    for (; i < 5; ++i, step(f)) {
+    for (; i < 5 && i < size; ++i, step(f)) {
         f = series[i];
         *gf4++ = f;
     }
-- 
2.43.0


From dea159c0af3dbea59b2c3f7e08cf0777eb2cdb3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:38 +0000
Subject: [PATCH 18/48] fix: gf3 used the gain for all of its feedback
 coefficients

---
 indicators/gf3.cc | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/indicators/gf3.cc b/indicators/gf3.cc
index f2a9e0f..9745d57 100644
--- a/indicators/gf3.cc
+++ b/indicators/gf3.cc
@@ -38,9 +38,9 @@ int ti_gf3(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_RE
     const int idx = period/2-1;
 
     const TI_REAL B0 = tables.B0[idx];
-    const TI_REAL A1 = tables.B0[idx];
-    const TI_REAL A2 = tables.B0[idx];
-    const TI_REAL A3 = tables.B0[idx];
+    const TI_REAL A1 = tables.A1[idx];
+    const TI_REAL A2 = tables.A2[idx];
+    const TI_REAL A3 = tables.A3[idx];
     const TI_REAL csum_recipr = 1. / (B0 + A1 + A2 + A3);
 
     int i = 0;
@@ -66,9 +66,9 @@ DONTOPTIMIZE int ti_gf3_ref(int size, TI_REAL const *const *inputs, TI_REAL cons
     const int idx = period/2-1;
 
     const TI_REAL B0 = tables.B0[idx];
-    const TI_REAL A1 = tables.B0[idx];
-    const TI_REAL A2 = tables.B0[idx];
-    const TI_REAL A3 = tables.B0[idx];
+    const TI_REAL A1 = tables.A1[idx];
+    const TI_REAL A2 = tables.A2[idx];
+    const TI_REAL A3 = tables.A3[idx];
     const TI_REAL csum_recipr = 1. / (B0 + A1 + A2 + A3);
 
     int i = 0;
@@ -117,9 +117,9 @@ int ti_gf3_stream_new(TI_REAL const *options, ti_stream **stream) {
 
     const int idx = period/2-1;
     ptr->constants.B0 = tables.B0[idx];
-    ptr->constants.A1 = tables.B0[idx];
-    ptr->constants.A2 = tables.B0[idx];
-    ptr->constants.A3 = tables.B0[idx];
+    ptr->constants.A1 = tables.A1[idx];
+    ptr->constants.A2 = tables.A2[idx];
+    ptr->constants.A3 = tables.A3[idx];
     ptr->constants.csum_recipr = 1. / (ptr->constants.B0 + ptr->constants.A1 + ptr->constants.A2 + ptr->constants.A3);
 
     return TI_OKAY;
-- 
2.43.0


From c1bccf37e86a5f65bbe5560b1c8fadd6fc84028c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:38 +0000
Subject: [PATCH 19/48] fix: hfsma stream kept too few prices for long averages

---
 indicators/hfsma.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/indicators/hfsma.cc b/indicators/hfsma.cc
index 128d468..e7d9e53 100644
--- a/indicators/hfsma.cc
+++ b/indicators/hfsma.cc
@@ -156,7 +156,7 @@ int ti_hfsma_stream_new(TI_REAL const *options, ti_stream **stream) {
 
     try {
         ptr->state.a.resize(2*k+1);
-        ptr->state.price.resize(2*k+1);
+        ptr->state.price.resize(sma_period);
         ptr->state.smoothed_price.resize(2*k+1);
     } catch (std::bad_alloc& e) {
         delete ptr;
-- 
2.43.0


From 316cb55e401d43e249155de0bd8041b82509ab76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:46 +0000
Subject: [PATCH 20/48] fix: pvt lost its running total on bars without volume

---
 indicators/pvt.cc | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/indicators/pvt.cc b/indicators/pvt.cc
index be825d3..e74a7ea 100644
--- a/indicators/pvt.cc
+++ b/indicators/pvt.cc
@@ -24,10 +24,10 @@ int ti_pvt(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_RE
 
     int i = 1;
     for (; i < 2 && i < size; ++i) {
-        *pvt++ = volume[i] && volume[i-1] ? volume[i] * (close[i] - close[i-1]) / close[i-1] + volume[i-1] : 0;
+        *pvt++ = volume[i] * (close[i] - close[i-1]) / close[i-1] + volume[i-1];
     }
     for (; i < size; i++) {
-        *pvt = volume[i] && volume[i-1] ? *(pvt - 1) + volume[i] * (close[i] - close[i-1]) / close[i-1] : 0;
+        *pvt = *(pvt - 1) + volume[i] * (close[i] - close[i-1]) / close[i-1];
         pvt++;
     }
 
@@ -96,7 +96,7 @@ int ti_pvt_stream_run(ti_stream *stream, int size, TI_REAL const *const *inputs,
     } 
  
     if (progress == 0 && index < size) {
-        last_pvt = volume[index] && starting ? volume[index] * (close[index] - last_close) / last_close + starting : 0;
+        last_pvt = volume[index] * (close[index] - last_close) / last_close + starting;
         last_close = close[index];
 
         *pvt++ = last_pvt;
@@ -106,7 +106,7 @@ int ti_pvt_stream_run(ti_stream *stream, int size, TI_REAL const *const *inputs,
     }
 
     for (; index < size; index++) {
-        last_pvt += volume[index] && last_pvt ? volume[index] * (close[index] - last_close) / last_close : 0;
+        last_pvt += volume[index] * (close[index] - last_close) / last_close;
         last_close = close[index];
 
         *pvt++ = last_pvt;
-- 
2.43.0


From 7e70b423d2521886117b7ad38b2473924af07205 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:46 +0000
Subject: [PATCH 21/48] fix: evwma dropped to zero without volume and its
 reference truncated volumes

---
 indicators/evwma.cc | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/indicators/evwma.cc b/indicators/evwma.cc
index abb83ed..0015f62 100644
--- a/indicators/evwma.cc
+++ b/indicators/evwma.cc
@@ -44,7 +44,7 @@ int ti_evwma(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_
     }
     for (; i < size; ++i) {
         N += volume[i] - volume[i-period];
-        filt = N ? filt * (1 - volume[i] / (gamma * N)) + volume[i] / (gamma * N) * close[i] : 0;
+        filt = N ? filt * (1 - volume[i] / (gamma * N)) + volume[i] / (gamma * N) * close[i] : filt;
 
         *evwma++ = filt;
     }
@@ -71,9 +71,9 @@ DONTOPTIMIZE int ti_evwma_ref(int size, TI_REAL const *const *inputs, TI_REAL co
         *evwma++ = filt;
     }
     for (; i < size; ++i) {
-        const TI_REAL N = std::accumulate(volume + i - period + 1, volume + i + 1, 0);
+        const TI_REAL N = std::accumulate(volume + i - period + 1, volume + i + 1, 0.);
 
-        filt = filt * (1 - volume[i] / (gamma * N)) + volume[i] / (gamma * N) * close[i];
+        filt = N ? filt * (1 - volume[i] / (gamma * N)) + volume[i] / (gamma * N) * close[i] : filt;
 
         *evwma++ = filt;
     }
@@ -158,7 +158,7 @@ int ti_evwma_stream_run(ti_stream *stream, int size, TI_REAL const *const *input
         volume_buf = volume[i];
 
         N += volume_buf - volume_buf[period];
-        filt = N ? filt * (1 - volume[i] / (gamma * N)) + volume[i] / (gamma * N) * close[i] : 0;
+        filt = N ? filt * (1 - volume[i] / (gamma * N)) + volume[i] / (gamma * N) * close[i] : filt;
 
         *evwma++ = filt;
     }
-- 
2.43.0


From 0013c6b88981d4228598a4e366dbcdd97ea84c4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:46 +0000
Subject: [PATCH 22/48] fix: ce, cmi, mhlma and smi lost an output for windows
 of one bar

---
 indicators/ce.cc    | 10 ++++++++++
 indicators/cmi.cc   | 12 ++++++++++++
 indicators/mhlma.cc | 14 ++++++++++++++
 indicators/smi.cc   |  6 +++---
 4 files changed, 39 insertions(+), 3 deletions(-)

diff --git a/indicators/ce.cc b/indicators/ce.cc
index 259b4b5..8467701 100644
--- a/indicators/ce.cc
+++ b/indicators/ce.cc
@@ -50,6 +50,11 @@ int ti_ce(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_REA
         min = low[i];
         max_idx = 0;
         min_idx = 0;
+
+        if (period == 1) {
+            *ce_high++ = max - coef * atr;
+            *ce_low++ = min + coef * atr;
+        }
     }
     for (; i < period-1 && i < size; ++i) {
         const TI_REAL truerange = std::max(high[i], close[i-1]) - std::min(low[i], close[i-1]);
@@ -243,6 +248,11 @@ int ti_ce_stream_run(ti_stream *stream, int size, TI_REAL const *const *inputs,
         max_idx = progress;
         min_idx = progress;
 
+        if (period == 1) {
+            *ce_high++ = max - coef * atr;
+            *ce_low++ = min + coef * atr;
+        }
+
         prev_close = close[i];
     }
     for (i; progress < 0 && i < size; ++i, ++progress, step(price_high, price_low)) {
diff --git a/indicators/cmi.cc b/indicators/cmi.cc
index 56b05aa..528a04e 100644
--- a/indicators/cmi.cc
+++ b/indicators/cmi.cc
@@ -44,6 +44,12 @@ int ti_cmi(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_RE
         ll = tr;
         hh_idx = 0;
         ll_idx = 0;
+
+        if (period == 1) {
+            *cmi++ = log((hh - ll) / sum) / log(period) * 100;
+
+            sum -= tr[period-1];
+        }
     }
     for (; i < period-1 && i < size; ++i, step(tr)) {
         tr = std::max(high[i], close[i-1]) - std::min(low[i], close[i-1]);
@@ -193,6 +199,12 @@ int ti_cmi_stream_run(ti_stream *stream, int size, TI_REAL const *const *inputs,
         ll = tr;
         hh_idx = progress;
         ll_idx = progress;
+
+        if (period == 1) {
+            *cmi++ = log((hh - ll) / sum) / log(period) * 100;
+
+            sum -= tr[period-1];
+        }
     }
     for (; progress < 0 && i < size; ++i, ++progress, step(tr, price_close)) {
         price_close = close[i];
diff --git a/indicators/mhlma.cc b/indicators/mhlma.cc
index cd84367..34b20a4 100644
--- a/indicators/mhlma.cc
+++ b/indicators/mhlma.cc
@@ -49,6 +49,13 @@ int ti_mhlma(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_
 
         sum += mhl;
         ema = mhl;
+
+        if (ma_period == 1) {
+            *mhlsma++ = sum / ma_period;
+            *mhlema++ = ema;
+
+            sum -= mhl[ma_period-1];
+        }
     }
     for (; i < period && i < ma_period-1 && i < size; ++i, step(mhl)) {
         if (hh <= series[i]) {
@@ -241,6 +248,13 @@ int ti_mhlma_stream_run(ti_stream *stream, int size, TI_REAL const *const *input
 
         sum += mhl;
         ema = mhl;
+
+        if (ma_period == 1) {
+            *mhlsma++ = sum / ma_period;
+            *mhlema++ = ema;
+
+            sum -= mhl[ma_period-1];
+        }
     }
     for (; progress < -ma_period+1 + period && progress < 0 && i < size; ++i, ++progress, step(mhl, price)) {
         price = series[i];
diff --git a/indicators/smi.cc b/indicators/smi.cc
index 855a32b..78f2a53 100644
--- a/indicators/smi.cc
+++ b/indicators/smi.cc
@@ -34,8 +34,8 @@ int ti_smi(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_RE
     TI_REAL ema_s_num;
     TI_REAL ema_r_den;
     TI_REAL ema_s_den;
-    TI_REAL ll;
-    TI_REAL hh;
+    TI_REAL ll = std::numeric_limits<TI_REAL>::infinity();
+    TI_REAL hh = -std::numeric_limits<TI_REAL>::infinity();
     int hh_idx;
     int ll_idx;
 
@@ -43,7 +43,7 @@ int ti_smi(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_RE
 
     int i = 0;
 
-    for (; i < size && progress == -q_period + 1; ++i, ++progress) {
+    for (; i < size && progress == -q_period + 1 && progress < 0; ++i, ++progress) {
         hh = high[i];
         hh_idx = progress;
         ll = low[i];
-- 
2.43.0


From e764ca80dde893012a629622307053983aad45ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:46 +0000
Subject: [PATCH 23/48] fix: rmta with period 1 applied the first bar twice

---
 indicators/rmta.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/indicators/rmta.cc b/indicators/rmta.cc
index 6e99da6..5a0d8ff 100644
--- a/indicators/rmta.cc
+++ b/indicators/rmta.cc
@@ -6,6 +6,7 @@
 
 
 #include "../indicators.h"
+#include "../utils/minmax.h"
 
 int ti_rmta_start(TI_REAL const *options) {
     return (int)options[0]-1;
@@ -29,13 +30,15 @@ int ti_rmta(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_R
     TI_REAL b = (1. - alpha) * input[0] + input[0];
     TI_REAL rmta = (1. - alpha) * input[0] + alpha * (input[0] + b);
 
+    if (period == 1) *output++ = rmta;
+
     for (int i = 1; i < period-1; ++i) {
         TI_REAL next_b = (1. - alpha) * b + input[i];
         rmta = (1. - alpha) * rmta + alpha * (input[i] + next_b - b);
         b = next_b;
     }
 
-    for (int i = period-1; i < size; ++i) {
+    for (int i = MAX(1, period-1); i < size; ++i) {
         TI_REAL next_b = (1. - alpha) * b + input[i];
         rmta = (1. - alpha) * rmta + alpha * (input[i] + next_b - b);
         b = next_b;
-- 
2.43.0


From 4de160d78a79bf082ff0ee5c2b113210126af753 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:46 +0000
Subject: [PATCH 24/48] fix: trix with period 1 started from zero

---
 indicators/trix.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/indicators/trix.cc b/indicators/trix.cc
index 88b334d..cdabad2 100644
--- a/indicators/trix.cc
+++ b/indicators/trix.cc
@@ -27,7 +27,7 @@ int ti_trix(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_R
     const TI_REAL per = 2 / ((TI_REAL)period + 1);
 
     TI_REAL ema1 = input[0];
-    TI_REAL ema2 = 0, ema3 = 0;
+    TI_REAL ema2 = ema1, ema3 = ema1;
 
     int i;
     for (i = 1; i < start; ++i) {
-- 
2.43.0


From 27fc744fcf0ce21299e7f3b0937c6ae802937a82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:46 +0000
Subject: [PATCH 25/48] fix: cvi with period 1 read an unset value

---
 indicators/cvi.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/indicators/cvi.cc b/indicators/cvi.cc
index 6554f5b..55396a6 100644
--- a/indicators/cvi.cc
+++ b/indicators/cvi.cc
@@ -32,6 +32,7 @@ int ti_cvi(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_RE
     if (!lag) return TI_OUT_OF_MEMORY;
 
     TI_REAL val = high[0]-low[0];
+    if (period == 1) ti_buffer_qpush(lag, val);
 
     int i;
     for (i = 1; i < period*2-1; ++i) {
-- 
2.43.0


From 52ae899ff7e0d29fda07370b7b17842347acb077 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:49 +0000
Subject: [PATCH 26/48] fix: ultosc was wrong when its periods coincide

---
 indicators/ultosc.cc | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/indicators/ultosc.cc b/indicators/ultosc.cc
index 56776d6..c9f4211 100644
--- a/indicators/ultosc.cc
+++ b/indicators/ultosc.cc
@@ -56,25 +56,26 @@ int ti_ultosc(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI
         r_short_sum += r;
         r_medium_sum += r;
 
-        ti_buffer_push(bp_buf, bp);
-        ti_buffer_push(r_buf, r);
-
         /* The long sum takes care of itself, but we're piggy-backing
-         * the medium and short sums off the same buffers. */
+         * the medium and short sums off the same buffers. The values that
+         * leave are read before the push, which may overwrite them. */
         if (i > short_period) {
-            int short_index = bp_buf->index - short_period - 1;
+            int short_index = bp_buf->index - short_period;
             if (short_index < 0) short_index += long_period;
             bp_short_sum -= bp_buf->vals[short_index];
             r_short_sum -= r_buf->vals[short_index];
 
             if (i > medium_period) {
-                int medium_index = bp_buf->index - medium_period - 1;
+                int medium_index = bp_buf->index - medium_period;
                 if (medium_index < 0) medium_index += long_period;
                 bp_medium_sum -= bp_buf->vals[medium_index];
                 r_medium_sum -= r_buf->vals[medium_index];
             }
         }
 
+        ti_buffer_push(bp_buf, bp);
+        ti_buffer_push(r_buf, r);
+
         if (i >= long_period) {
             const TI_REAL first = bp_short_sum ? 4 * bp_short_sum / r_short_sum : 0;
             const TI_REAL second = bp_medium_sum ? 2 * bp_medium_sum / r_medium_sum : 0;
-- 
2.43.0


From 2bab31393d5f3a754ad328f2fccc3ceeccd895ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:49 +0000
Subject: [PATCH 27/48] fix: the ehma reference truncated its fractional
 periods

---
 indicators/ehma.cc | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/indicators/ehma.cc b/indicators/ehma.cc
index 72634dd..9e0c50c 100644
--- a/indicators/ehma.cc
+++ b/indicators/ehma.cc
@@ -68,19 +68,21 @@ DONTOPTIMIZE int ti_ehma_ref(int size, TI_REAL const *const *inputs, TI_REAL con
     TI_REAL n = period;
     TI_REAL n05 = sqrt(period);
 
-    TI_REAL* arr_[1];
+    // The periods are not integral, so ti_ema does not fit
+    auto ema = [size](TI_REAL const *input, TI_REAL period, TI_REAL *output) {
+        for (int i = 0; i < size; ++i) {
+            output[i] = i ? (input[i] - output[i-1]) * 2. / (period + 1.) + output[i-1] : input[i];
+        }
+    };
 
-    arr_[0] = ema_n2.data();
-    ti_ema(size, &series, &n2, arr_);
-    arr_[0] = ema_n.data();
-    ti_ema(size, &series, &n, arr_);
+    ema(series, n2, ema_n2.data());
+    ema(series, n, ema_n.data());
 
     for (int i = 0; i < size; ++i) {
         subtr[i] = 2. * ema_n2[i] - ema_n[i];
     }
 
-    arr_[0] = subtr.data();
-    ti_ema(size, arr_, &n05, outputs);
+    ema(subtr.data(), n05, ehma);
 
     return TI_OKAY;
 }
-- 
2.43.0


From 3319750dad9947f43008fc45f4f421250765dfcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:49 +0000
Subject: [PATCH 28/48] fix: reference implementations crashed or leaked when
 memory ran out

---
 indicators/ce.cc        | 13 ++++++++-----
 indicators/cmi.cc       | 10 ++++++++--
 indicators/copp.cc      |  6 ++++++
 indicators/dwma.cc      |  4 +++-
 indicators/ehma.cc      |  4 +++-
 indicators/hf.cc        |  4 +++-
 indicators/hfema.cc     |  9 +++++++--
 indicators/hfsma.cc     |  9 +++++++--
 indicators/ichi.cc      | 24 +++++++++++++++++-------
 indicators/kst.cc       | 11 +++++++++--
 indicators/lma.cc       |  4 +++-
 indicators/mama.cc      | 18 ++++++++++++++++++
 indicators/mesastoch.cc |  4 +++-
 indicators/mhlma.cc     |  9 +++++++--
 indicators/pbands.cc    |  1 +
 indicators/posc.cc      |  1 +
 indicators/rmi.cc       |  5 +++++
 indicators/smi.cc       | 11 +++++++++--
 indicators/t3.cc        |  4 +++-
 indicators/tsi.cc       |  7 ++++++-
 indicators/vi.cc        |  4 +++-
 indicators/vwap.cc      |  1 +
 22 files changed, 131 insertions(+), 32 deletions(-)

diff --git a/indicators/ce.cc b/indicators/ce.cc
index 8467701..552c856 100644
--- a/indicators/ce.cc
+++ b/indicators/ce.cc
@@ -130,13 +130,16 @@ int ti_ce_ref(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI
     #define MAX3(a, b, c) (a > b && a > c ? a : b > a && b > c ? b : c)
 
     TI_REAL *atr = (TI_REAL*)calloc(1, (size - ti_atr_start(&period)) * sizeof(TI_REAL));
-	if (!atr) { return TI_OUT_OF_MEMORY; }
-    ti_atr(size, inputs, &period, &atr);
     TI_REAL *max = (TI_REAL*)calloc(1, (size - ti_max_start(&period)) * sizeof(TI_REAL));
-	if (!atr) { return TI_OUT_OF_MEMORY; }
-	ti_max(size, &high, &period, &max);
     TI_REAL *min = (TI_REAL*)calloc(1, (size - ti_min_start(&period)) * sizeof(TI_REAL));
-	if (!atr) { return TI_OUT_OF_MEMORY; }
+    if (!atr || !max || !min) {
+        free(atr);
+        free(max);
+        free(min);
+        return TI_OUT_OF_MEMORY;
+    }
+    ti_atr(size, inputs, &period, &atr);
+	ti_max(size, &high, &period, &max);
 	ti_min(size, &low, &period, &min);
 
 
diff --git a/indicators/cmi.cc b/indicators/cmi.cc
index 528a04e..c6244d8 100644
--- a/indicators/cmi.cc
+++ b/indicators/cmi.cc
@@ -101,9 +101,15 @@ DONTOPTIMIZE int ti_cmi_ref(int size, TI_REAL const *const *inputs, TI_REAL cons
     TI_REAL *cmi = outputs[0];
 
     if (period < 1) { return TI_INVALID_OPTION; }
+    if (size <= ti_cmi_start(options)) { return TI_OKAY; }
 
-    TI_REAL *tr = new TI_REAL[size];
-    TI_REAL *sum = new TI_REAL[size-(int)period+1];
+    TI_REAL *tr = new(std::nothrow) TI_REAL[size];
+    TI_REAL *sum = new(std::nothrow) TI_REAL[size-(int)period+1];
+    if (!tr || !sum) {
+        delete[] tr;
+        delete[] sum;
+        return TI_OUT_OF_MEMORY;
+    }
 
     ti_tr(size, inputs, NULL, &tr);
     ti_sum(size, &tr, &period, &sum);
diff --git a/indicators/copp.cc b/indicators/copp.cc
index 37d1497..1b1bf59 100644
--- a/indicators/copp.cc
+++ b/indicators/copp.cc
@@ -94,6 +94,12 @@ int ti_copp_ref(int size, TI_REAL const *const *inputs, TI_REAL const *options,
     TI_REAL *roc_long = (TI_REAL*)malloc(sizeof(TI_REAL) * roc_long_len);
 
     TI_REAL *interm = (TI_REAL*)malloc(sizeof(TI_REAL) * roc_long_len);
+    if (!roc_short || !roc_long || !interm) {
+        free(roc_short);
+        free(roc_long);
+        free(interm);
+        return TI_OUT_OF_MEMORY;
+    }
 
     // int wma_len = roc_long_len-ti_wma_start(&wma_period);
     // TI_REAL *wma = malloc(sizeof(TI_REAL[wma_len]));
diff --git a/indicators/dwma.cc b/indicators/dwma.cc
index 0ec5144..332f545 100644
--- a/indicators/dwma.cc
+++ b/indicators/dwma.cc
@@ -75,7 +75,7 @@ int ti_dwma(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_R
 }
 
 DONTOPTIMIZE
-int ti_dwma_ref(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_REAL *const *outputs) {
+int ti_dwma_ref(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_REAL *const *outputs) try {
     TI_REAL const *const series = inputs[0];
     const TI_REAL period = (int)options[0];
     TI_REAL *dwma = outputs[0];
@@ -90,6 +90,8 @@ int ti_dwma_ref(int size, TI_REAL const *const *inputs, TI_REAL const *options,
     ti_wma(size-period+1, arr, options, outputs);
 
     return TI_OKAY;
+} catch (std::bad_alloc&) {
+    return TI_OUT_OF_MEMORY;
 }
 
 struct ti_dwma_stream : ti_stream {
diff --git a/indicators/ehma.cc b/indicators/ehma.cc
index 9e0c50c..0db65ea 100644
--- a/indicators/ehma.cc
+++ b/indicators/ehma.cc
@@ -53,7 +53,7 @@ int ti_ehma(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_R
     return TI_OKAY;
 }
 
-DONTOPTIMIZE int ti_ehma_ref(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_REAL *const *outputs) {
+DONTOPTIMIZE int ti_ehma_ref(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_REAL *const *outputs) try {
     TI_REAL const *const series = inputs[0];
     const int period = options[0];
     TI_REAL *ehma = outputs[0];
@@ -85,6 +85,8 @@ DONTOPTIMIZE int ti_ehma_ref(int size, TI_REAL const *const *inputs, TI_REAL con
     ema(subtr.data(), n05, ehma);
 
     return TI_OKAY;
+} catch (std::bad_alloc&) {
+    return TI_OUT_OF_MEMORY;
 }
 
 struct ti_ehma_stream : ti_stream {
diff --git a/indicators/hf.cc b/indicators/hf.cc
index 055cda4..fa5c62b 100644
--- a/indicators/hf.cc
+++ b/indicators/hf.cc
@@ -62,7 +62,7 @@ int ti_hf(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_REA
     return TI_OUT_OF_MEMORY;
 }
 
-DONTOPTIMIZE int ti_hf_ref(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_REAL *const *outputs) {
+DONTOPTIMIZE int ti_hf_ref(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_REAL *const *outputs) try {
     TI_REAL const *const series = inputs[0];
     const int k = options[0];
     const TI_REAL threshold = options[1];
@@ -97,6 +97,8 @@ DONTOPTIMIZE int ti_hf_ref(int size, TI_REAL const *const *inputs, TI_REAL const
     }
 
     return TI_OKAY;
+} catch (std::bad_alloc&) {
+    return TI_OUT_OF_MEMORY;
 }
 
 struct ti_hf_stream : ti_stream {
diff --git a/indicators/hfema.cc b/indicators/hfema.cc
index b128885..39ae711 100644
--- a/indicators/hfema.cc
+++ b/indicators/hfema.cc
@@ -87,10 +87,15 @@ int ti_hfema_ref(int size, TI_REAL const *const *inputs, TI_REAL const *options,
     if (k < 1) { return TI_INVALID_OPTION; }
     if (threshold < 0) { return TI_INVALID_OPTION; }
 
-    TI_REAL *ema = new TI_REAL[size];
+    TI_REAL *ema = new(std::nothrow) TI_REAL[size];
+    TI_REAL *data = new(std::nothrow) TI_REAL[2*k+1];
+    if (!ema || !data) {
+        delete[] ema;
+        delete[] data;
+        return TI_OUT_OF_MEMORY;
+    }
     ti_ema(size, &series, options, &ema);
 
-    TI_REAL *data = new TI_REAL[2*k+1];
 
     for (int i = 2*k; i < size; ++i) {
         for (int j = 0; j < 2*k+1; ++j) {
diff --git a/indicators/hfsma.cc b/indicators/hfsma.cc
index e7d9e53..3ef403e 100644
--- a/indicators/hfsma.cc
+++ b/indicators/hfsma.cc
@@ -83,10 +83,15 @@ int ti_hfsma_ref(int size, TI_REAL const *const *inputs, TI_REAL const *options,
     if (k < 1) { return TI_INVALID_OPTION; }
     if (threshold < 0) { return TI_INVALID_OPTION; }
 
-    TI_REAL *sma = new TI_REAL[size];
+    TI_REAL *sma = new(std::nothrow) TI_REAL[size];
+    TI_REAL *data = new(std::nothrow) TI_REAL[2*(int)k+1];
+    if (!sma || !data) {
+        delete[] sma;
+        delete[] data;
+        return TI_OUT_OF_MEMORY;
+    }
     ti_sma(size, &series, options, &sma);
 
-    TI_REAL *data = new TI_REAL[2*(int)k+1];
 
     for (int i = 2*k; i < size - ti_sma_start(options); ++i) {
         for (int j = 0; j < 2*k+1; ++j) {
diff --git a/indicators/ichi.cc b/indicators/ichi.cc
index 50ddf7b..26760ab 100644
--- a/indicators/ichi.cc
+++ b/indicators/ichi.cc
@@ -196,13 +196,23 @@ DONTOPTIMIZE int ti_ichi_ref(int size, TI_REAL const *const *inputs, TI_REAL con
     if (!(0 < period9 && period9 <= period26 && period26 <= period52)) {
         return TI_INVALID_OPTION;
     }
-
-    TI_REAL *hh9 = new TI_REAL[size];
-    TI_REAL *ll9 = new TI_REAL[size];
-    TI_REAL *hh26 = new TI_REAL[size];
-    TI_REAL *ll26 = new TI_REAL[size];
-    TI_REAL *hh52 = new TI_REAL[size];
-    TI_REAL *ll52 = new TI_REAL[size];
+    if (size <= ti_ichi_start(options)) { return TI_OKAY; }
+
+    TI_REAL *hh9 = new(std::nothrow) TI_REAL[size];
+    TI_REAL *ll9 = new(std::nothrow) TI_REAL[size];
+    TI_REAL *hh26 = new(std::nothrow) TI_REAL[size];
+    TI_REAL *ll26 = new(std::nothrow) TI_REAL[size];
+    TI_REAL *hh52 = new(std::nothrow) TI_REAL[size];
+    TI_REAL *ll52 = new(std::nothrow) TI_REAL[size];
+    if (!hh9 || !ll9 || !hh26 || !ll26 || !hh52 || !ll52) {
+        delete[] hh9;
+        delete[] ll9;
+        delete[] hh26;
+        delete[] ll26;
+        delete[] hh52;
+        delete[] ll52;
+        return TI_OUT_OF_MEMORY;
+    }
 
     const TI_REAL numbers[] = {(TI_REAL)period9, (TI_REAL)period26, (TI_REAL)period52};
 
diff --git a/indicators/kst.cc b/indicators/kst.cc
index 43e9811..24f4af1 100755
--- a/indicators/kst.cc
+++ b/indicators/kst.cc
@@ -134,9 +134,16 @@ int ti_kst_ref(int size, TI_REAL const *const *inputs, TI_REAL const *options, T
         size_ema[i] = size_roc[i] - ti_ema_start(ma + i);
 
         roc_mem[i] = (TI_REAL*)malloc(sizeof(TI_REAL) * size_roc[i]);
-        ti_roc(size, &series, roc + i, roc_mem + i);
-
         ema_mem[i] = (TI_REAL*)malloc(sizeof(TI_REAL) * size_ema[i]);
+        if (!roc_mem[i] || !ema_mem[i]) {
+            for (; i >= 0; --i) {
+                free(roc_mem[i]);
+                free(ema_mem[i]);
+            }
+            return TI_OUT_OF_MEMORY;
+        }
+
+        ti_roc(size, &series, roc + i, roc_mem + i);
         ti_ema(size_roc[i], roc_mem + i, ma + i, ema_mem + i);
     }
 
diff --git a/indicators/lma.cc b/indicators/lma.cc
index dd00eeb..eb75823 100644
--- a/indicators/lma.cc
+++ b/indicators/lma.cc
@@ -53,7 +53,7 @@ int ti_lma(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_RE
     return TI_OKAY;
 }
 
-DONTOPTIMIZE int ti_lma_ref(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_REAL *const *outputs) {
+DONTOPTIMIZE int ti_lma_ref(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_REAL *const *outputs) try {
     TI_REAL const *const series = inputs[0];
     const TI_REAL period = (int)options[0];
     TI_REAL *lma = outputs[0];
@@ -76,6 +76,8 @@ DONTOPTIMIZE int ti_lma_ref(int size, TI_REAL const *const *inputs, TI_REAL cons
     }
 
     return TI_OKAY;
+} catch (std::bad_alloc&) {
+    return TI_OUT_OF_MEMORY;
 }
 
 struct ti_lma_stream : ti_stream {
diff --git a/indicators/mama.cc b/indicators/mama.cc
index 4d3321f..f66e14d 100644
--- a/indicators/mama.cc
+++ b/indicators/mama.cc
@@ -121,6 +121,24 @@ int ti_mama_ref(int size, TI_REAL const *const *inputs, TI_REAL const *options,
     TI_REAL *phase = (TI_REAL*)calloc(size, sizeof(TI_REAL));
     TI_REAL *deltaphase = (TI_REAL*)calloc(size, sizeof(TI_REAL));
     TI_REAL *alpha = (TI_REAL*)calloc(size, sizeof(TI_REAL));
+    if (!smooth || !detrender || !I1 || !Q1 || !jI || !jQ || !I2 || !Q2 || !Re || !Im || !period || !smoothperiod || !phase || !deltaphase || !alpha) {
+        free(smooth);
+        free(detrender);
+        free(I1);
+        free(Q1);
+        free(jI);
+        free(jQ);
+        free(I2);
+        free(Q2);
+        free(Re);
+        free(Im);
+        free(period);
+        free(smoothperiod);
+        free(phase);
+        free(deltaphase);
+        free(alpha);
+        return TI_OUT_OF_MEMORY;
+    }
 
     for (int i = 6; i < size; ++i) {
         smooth[i] = (4 * price[i] + 3 * price[i-1] + 2 * price[i-2] + price[i-3]) / 10.;
diff --git a/indicators/mesastoch.cc b/indicators/mesastoch.cc
index 90f418c..55acd36 100644
--- a/indicators/mesastoch.cc
+++ b/indicators/mesastoch.cc
@@ -101,7 +101,7 @@ int ti_mesastoch(int size, TI_REAL const *const *inputs, TI_REAL const *options,
     return TI_OUT_OF_MEMORY;
 }
 
-int ti_mesastoch_ref(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_REAL *const *outputs) {
+int ti_mesastoch_ref(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_REAL *const *outputs) try {
     TI_REAL const *const series = inputs[0];
     int period = options[0];
     int max_cycle_considered = options[1];
@@ -167,6 +167,8 @@ int ti_mesastoch_ref(int size, TI_REAL const *const *inputs, TI_REAL const *opti
     }
 
     return TI_OKAY;
+} catch (std::bad_alloc&) {
+    return TI_OUT_OF_MEMORY;
 }
 
 struct ti_mesastoch_stream : ti_stream {
diff --git a/indicators/mhlma.cc b/indicators/mhlma.cc
index 34b20a4..d72dc0e 100644
--- a/indicators/mhlma.cc
+++ b/indicators/mhlma.cc
@@ -138,7 +138,13 @@ DONTOPTIMIZE int ti_mhlma_ref(int size, TI_REAL const *const *inputs, TI_REAL co
 
     if (period < 1 || ma_period < 1) { return TI_INVALID_OPTION; }
 
-    TI_REAL *mhl = new TI_REAL[size];
+    TI_REAL *mhl = new(std::nothrow) TI_REAL[size];
+    TI_REAL *ema_buf = new(std::nothrow) TI_REAL[size];
+    if (!mhl || !ema_buf) {
+        delete[] mhl;
+        delete[] ema_buf;
+        return TI_OUT_OF_MEMORY;
+    }
 
     for (int i = 0; i < size; ++i) {
         TI_REAL hh = *std::max_element(std::max<TI_REAL const*>(series+i-(int)period+1, series), series+i+1);
@@ -146,7 +152,6 @@ DONTOPTIMIZE int ti_mhlma_ref(int size, TI_REAL const *const *inputs, TI_REAL co
         mhl[i] = (hh + ll) / 2.;
     }
 
-    TI_REAL *ema_buf = new TI_REAL[size];
 
     ti_sma(size, &mhl, &ma_period, &mhlsma);
 
diff --git a/indicators/pbands.cc b/indicators/pbands.cc
index af0a3e4..5d966eb 100644
--- a/indicators/pbands.cc
+++ b/indicators/pbands.cc
@@ -84,6 +84,7 @@ int ti_pbands_ref(int size, TI_REAL const *const *inputs, TI_REAL const *options
 
     int start = ti_linregslope_start(options);
     TI_REAL *b = (TI_REAL*)malloc(sizeof(TI_REAL) * (size - start));
+    if (!b) { return TI_OUT_OF_MEMORY; }
 
     ti_linregslope(size, &close, &period, &b);
 
diff --git a/indicators/posc.cc b/indicators/posc.cc
index ddd82ce..f983e3f 100644
--- a/indicators/posc.cc
+++ b/indicators/posc.cc
@@ -104,6 +104,7 @@ int ti_posc_ref(int size, TI_REAL const *const *inputs, TI_REAL const *options,
 
     int start = ti_linregslope_start(options);
     TI_REAL *b = (TI_REAL*)malloc(sizeof(TI_REAL) * (size - start));
+    if (!b) { return TI_OUT_OF_MEMORY; }
 
     ti_linregslope(size, &close, &period, &b);
 
diff --git a/indicators/rmi.cc b/indicators/rmi.cc
index f31098f..faae496 100644
--- a/indicators/rmi.cc
+++ b/indicators/rmi.cc
@@ -65,6 +65,11 @@ int ti_rmi_ref(int size, TI_REAL const *const *inputs, TI_REAL const *options, T
     int start = ti_rmi_start(options);
     TI_REAL *gains = (TI_REAL*)malloc(sizeof(TI_REAL) * (size-start));
     TI_REAL *losses = (TI_REAL*)malloc(sizeof(TI_REAL) * (size-start));
+    if (!gains || !losses) {
+        free(gains);
+        free(losses);
+        return TI_OUT_OF_MEMORY;
+    }
 
     for (int i = lookback_period; i < size; ++i) {
         gains[i-start] = MAX(0, series[i] - series[i-(int)lookback_period]);
diff --git a/indicators/smi.cc b/indicators/smi.cc
index 78f2a53..7e14d0d 100644
--- a/indicators/smi.cc
+++ b/indicators/smi.cc
@@ -134,12 +134,19 @@ int ti_smi_ref(int size, TI_REAL const *const *inputs, TI_REAL const *options, T
 
     TI_REAL *max = (TI_REAL*)malloc(sizeof(TI_REAL) * outsize);
     TI_REAL *min = (TI_REAL*)malloc(sizeof(TI_REAL) * outsize);
+    TI_REAL *num = (TI_REAL*)malloc(sizeof(TI_REAL) * outsize);
+    TI_REAL *den = (TI_REAL*)malloc(sizeof(TI_REAL) * outsize);
+    if (!max || !min || !num || !den) {
+        free(max);
+        free(min);
+        free(num);
+        free(den);
+        return TI_OUT_OF_MEMORY;
+    }
 
     ti_max(size, &high, &q_period, &max);
     ti_min(size, &low, &q_period, &min);
 
-    TI_REAL *num = (TI_REAL*)malloc(sizeof(TI_REAL) * outsize);
-    TI_REAL *den = (TI_REAL*)malloc(sizeof(TI_REAL) * outsize);
 
     for (int i = 0; i < outsize; ++i) {
         num[i] = close[size-outsize + i] - 0.5 * (max[i] + min[i]);
diff --git a/indicators/t3.cc b/indicators/t3.cc
index b113b7c..d5e723d 100644
--- a/indicators/t3.cc
+++ b/indicators/t3.cc
@@ -76,7 +76,7 @@ int ti_t3(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_REA
     return TI_OKAY;
 }
 
-DONTOPTIMIZE int ti_t3_ref(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_REAL *const *outputs) {
+DONTOPTIMIZE int ti_t3_ref(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_REAL *const *outputs) try {
     TI_REAL const *const series = inputs[0];
     const TI_REAL period = options[0];
     const TI_REAL v = options[1];
@@ -113,6 +113,8 @@ DONTOPTIMIZE int ti_t3_ref(int size, TI_REAL const *const *inputs, TI_REAL const
     std::memcpy(t3, output.data(), sizeof(TI_REAL) * size);
 
     return TI_OKAY;
+} catch (std::bad_alloc&) {
+    return TI_OUT_OF_MEMORY;
 }
 
 struct ti_t3_stream : ti_stream {
diff --git a/indicators/tsi.cc b/indicators/tsi.cc
index 9f459e5..4b8194f 100644
--- a/indicators/tsi.cc
+++ b/indicators/tsi.cc
@@ -70,9 +70,14 @@ int ti_tsi_ref(int size, TI_REAL const *const *inputs, TI_REAL const *options, T
     TI_REAL _one = 1;
     int outsize = size - ti_mom_start(&_one);
     TI_REAL *momentum = (TI_REAL*)malloc(sizeof(TI_REAL) * outsize);
+    TI_REAL *absmomentum = (TI_REAL*)malloc(sizeof(TI_REAL) * outsize);
+    if (!momentum || !absmomentum) {
+        free(momentum);
+        free(absmomentum);
+        return TI_OUT_OF_MEMORY;
+    }
     ti_mom(size, &series, &_one, &momentum);
 
-    TI_REAL *absmomentum = (TI_REAL*)malloc(sizeof(TI_REAL) * outsize);
     ti_abs(outsize, &momentum, 0, &absmomentum);
 
     ti_ema(outsize, &momentum, &y_period, &momentum);
diff --git a/indicators/vi.cc b/indicators/vi.cc
index 221ede6..a7e39f8 100644
--- a/indicators/vi.cc
+++ b/indicators/vi.cc
@@ -54,7 +54,7 @@ int ti_vi(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_REA
     return TI_OKAY;
 }
 
-DONTOPTIMIZE int ti_vi_ref(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_REAL *const *outputs) {
+DONTOPTIMIZE int ti_vi_ref(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_REAL *const *outputs) try {
     TI_REAL const *const high = inputs[0];
     TI_REAL const *const low = inputs[1];
     TI_REAL const *const close = inputs[2];
@@ -101,6 +101,8 @@ DONTOPTIMIZE int ti_vi_ref(int size, TI_REAL const *const *inputs, TI_REAL const
     }
     
     return TI_OKAY;
+} catch (std::bad_alloc&) {
+    return TI_OUT_OF_MEMORY;
 }
 
 struct ti_vi_stream : ti_stream {
diff --git a/indicators/vwap.cc b/indicators/vwap.cc
index 000b870..71665e8 100644
--- a/indicators/vwap.cc
+++ b/indicators/vwap.cc
@@ -62,6 +62,7 @@ int ti_vwap_ref(int size, TI_REAL const *const *inputs, TI_REAL const *options,
 
     int outsize = size - ti_typprice_start(&period);
     TI_REAL *typprice = (TI_REAL*)malloc(sizeof(TI_REAL) * outsize);
+    if (!typprice) { return TI_OUT_OF_MEMORY; }
     ti_typprice(size, inputs, 0, &typprice);
     
     TI_REAL sum = 0;
-- 
2.43.0


From 52ee3496f5760544987a1613526a29568abdd8dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:03:02 +0000
Subject: [PATCH 29/48] fix: ringbuf<2> searched both values for a period of
 one

---
 utils/ringbuf.hh | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/utils/ringbuf.hh b/utils/ringbuf.hh
index 955eddb..b04c267 100644
--- a/utils/ringbuf.hh
+++ b/utils/ringbuf.hh
@@ -105,12 +105,15 @@ struct ringbuf<2> {
 
     template<class Cmp = std::less<TI_REAL>>
     TI_REAL* find_max(int period) {
-        if (a1 >= a2) { return &a1; }
+        assert(period <= 2);
+        assert(period > 0);
+
+        Cmp cmp;
+        if (period == 1 || !cmp(a1, a2)) { return &a1; }
         else { return &a2; }
     }
     TI_REAL* find_min(int period) {
-        if (a1 <= a2) { return &a1; }
-        else { return &a2; }
+        return find_max<std::greater<TI_REAL>>(period);
     }
 
     TI_REAL* phbegin() { return &a1; }
-- 
2.43.0


From a46d4d73d6957d6db73102fc37fb29960bc085dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:03:02 +0000
Subject: [PATCH 30/48] fix: kc stream accepted periods below one

---
 indicators/kc.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/indicators/kc.cc b/indicators/kc.cc
index 5cc755a..3cbe357 100644
--- a/indicators/kc.cc
+++ b/indicators/kc.cc
@@ -90,7 +90,7 @@ int ti_kc_stream_new(TI_REAL const *options, ti_stream **stream) {
     const TI_REAL period = options[0];
     const TI_REAL multiple = options[1];
 
-    if (period < 0) { return TI_INVALID_OPTION; }
+    if (period < 1) { return TI_INVALID_OPTION; }
     if (multiple < 0) { return TI_INVALID_OPTION; }
 
     ti_kc_stream *ptr = new(std::nothrow) ti_kc_stream();
-- 
2.43.0


From 08ceec19853721958dbf2831eadc4b0270aa0449 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:03:23 +0000
Subject: [PATCH 31/48] fix: lean binding passed the last input series for
 every input

---
 bindings/lean/generate-bindings.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/bindings/lean/generate-bindings.py b/bindings/lean/generate-bindings.py
index 0980add..13678ed 100644
--- a/bindings/lean/generate-bindings.py
+++ b/bindings/lean/generate-bindings.py
@@ -132,8 +132,7 @@ def default(indicator):
             if (!ready) {{ return 0; }}
             double[] tmp = new double[window.Count];
             {f"{n}".join(f'inputs[{i}] = Marshal.AllocHGlobal(sizeof(double) * window.Count);' for i, input in enumerate(inputs))}
-            {f"{n}".join(f'{{ int i = 0; foreach ({input_type} value in window) {{ tmp[window.Count-i-1] = (double)value.{input.capitalize() if not series else "Value"}; i += 1; }} }}' for i, input in enumerate(inputs))}
-            {f"{n}".join(f'Marshal.Copy(tmp, 0, inputs[{i}], window.Count);' for i, input in enumerate(inputs))}
+            {f"{n}".join(f'{{ int i = 0; foreach ({input_type} value in window) {{ tmp[window.Count-i-1] = (double)value.{input.capitalize() if not series else "Value"}; i += 1; }} }} Marshal.Copy(tmp, 0, inputs[{i}], window.Count);' for i, input in enumerate(inputs))}
             {f"{n}".join(f'outputs[{i}] = Marshal.AllocHGlobal(sizeof(double) * (window.Count - start));' for i, output in enumerate(outputs))}
             int result = ti_{name}(window.Count, inputs, options, outputs);
             util.DispatchError(result);
-- 
2.43.0


From 17675c7e2590cef342649b1df8486905ddd231e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:37:55 +0000
Subject: [PATCH 32/48] fix: the mesastoch reference read past inputs shorter
 than its warm-up

---
 indicators/mesastoch.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/indicators/mesastoch.cc b/indicators/mesastoch.cc
index 55acd36..ae2f0ba 100644
--- a/indicators/mesastoch.cc
+++ b/indicators/mesastoch.cc
@@ -124,7 +124,7 @@ int ti_mesastoch_ref(int size, TI_REAL const *const *inputs, TI_REAL const *opti
     TI_REAL lowestC;
 
     int i = 2;
-    for (; i < ti_mesastoch_start(options); ++i) {
+    for (; i < ti_mesastoch_start(options) && i < size; ++i) {
         filt.pop_back(); filt.push_front(0);
         HP.pop_back(); HP.push_front(0);
         stoc.pop_back(); stoc.push_front(0);
-- 
2.43.0


From 8841c8bcc697493a7646a726b97d96da7d97a9cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:37:56 +0000
Subject: [PATCH 33/48] fix: copp, rmi and the emsd reference came out one bar
 short for fractional periods

---
 indicators/copp.cc | 18 +++++++++---------
 indicators/emsd.cc |  4 ++--
 indicators/rmi.cc  | 12 ++++++------
 3 files changed, 17 insertions(+), 17 deletions(-)

diff --git a/indicators/copp.cc b/indicators/copp.cc
index 1b1bf59..25bc2c3 100644
--- a/indicators/copp.cc
+++ b/indicators/copp.cc
@@ -11,9 +11,9 @@
 #include "../utils/log.h"
 
 int ti_copp_start(TI_REAL const *options) {
-    const TI_REAL roc_shorter_period = options[0];
-    const TI_REAL roc_longer_period = options[1];
-    const TI_REAL wma_period = options[2];
+    const int roc_shorter_period = options[0];
+    const int roc_longer_period = options[1];
+    const int wma_period = options[2];
     #define START (roc_longer_period + wma_period-1)
     return START;
 }
@@ -21,9 +21,9 @@ int ti_copp_start(TI_REAL const *options) {
 
 int ti_copp(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_REAL *const *outputs) try {
     TI_REAL const *series = inputs[0];
-    const TI_REAL roc_shorter_period = options[0];
-    const TI_REAL roc_longer_period = options[1];
-    const TI_REAL wma_period = options[2];
+    const int roc_shorter_period = options[0];
+    const int roc_longer_period = options[1];
+    const int wma_period = options[2];
     TI_REAL *copp = outputs[0];
 
     for (int i = 0; i < 3; ++i) {
@@ -75,9 +75,9 @@ int ti_copp(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_R
 
 int ti_copp_ref(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_REAL *const *outputs) {
     TI_REAL const *series = inputs[0];
-    const TI_REAL roc_shorter_period = options[0];
-    const TI_REAL roc_longer_period = options[1];
-    const TI_REAL wma_period = options[2];
+    const TI_REAL roc_shorter_period = (int)options[0];
+    const TI_REAL roc_longer_period = (int)options[1];
+    const TI_REAL wma_period = (int)options[2];
     TI_REAL *copp = outputs[0];
 
     for (int i = 0; i < 3; ++i) {
diff --git a/indicators/emsd.cc b/indicators/emsd.cc
index 87cc9ba..fb52c15 100644
--- a/indicators/emsd.cc
+++ b/indicators/emsd.cc
@@ -64,8 +64,8 @@ int ti_emsd(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_R
 
 DONTOPTIMIZE int ti_emsd_ref(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_REAL *const *outputs) {
     TI_REAL const *const series = inputs[0];
-    const TI_REAL period = options[0];
-    const TI_REAL ma_period = options[1];
+    const int period = options[0];
+    const int ma_period = options[1];
     TI_REAL *emsd = outputs[0];
 
     if (period < 1) { return TI_INVALID_OPTION; }
diff --git a/indicators/rmi.cc b/indicators/rmi.cc
index faae496..41ae3f6 100644
--- a/indicators/rmi.cc
+++ b/indicators/rmi.cc
@@ -12,7 +12,7 @@
 
 int ti_rmi_start(TI_REAL const *options) {
     const TI_REAL period = options[0];
-    const TI_REAL lookback_period = options[1];
+    const int lookback_period = options[1];
 
     return lookback_period;
 }
@@ -21,7 +21,7 @@ int ti_rmi_start(TI_REAL const *options) {
 int ti_rmi(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_REAL *const *outputs) try {
     TI_REAL const *series = inputs[0];
     const TI_REAL period = options[0];
-    const TI_REAL lookback_period = options[1];
+    const int lookback_period = options[1];
     TI_REAL *rmi = outputs[0];
 
     if (period < 1) { return TI_INVALID_OPTION; }
@@ -54,7 +54,7 @@ int ti_rmi(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_RE
 int ti_rmi_ref(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_REAL *const *outputs) {
     TI_REAL const *series = inputs[0];
     const TI_REAL period = options[0];
-    const TI_REAL lookback_period = options[1];
+    const int lookback_period = options[1];
     TI_REAL *rmi = outputs[0];
 
     if (period < 1) { return TI_INVALID_OPTION; }
@@ -93,7 +93,7 @@ int ti_rmi_ref(int size, TI_REAL const *const *inputs, TI_REAL const *options, T
 struct ti_rmi_stream : ti_stream {
     struct {
         TI_REAL period;
-        TI_REAL lookback_period;
+        int lookback_period;
     } options;
 
     struct {
@@ -109,7 +109,7 @@ struct ti_rmi_stream : ti_stream {
 
 int ti_rmi_stream_new(TI_REAL const *options, ti_stream **stream) {
     const TI_REAL period = options[0];
-    const TI_REAL lookback_period = options[1];
+    const int lookback_period = options[1];
 
     if (period < 1) { return TI_INVALID_OPTION; }
     if (lookback_period < 1) { return TI_INVALID_OPTION; }
@@ -148,7 +148,7 @@ int ti_rmi_stream_run(ti_stream *stream, int size, TI_REAL const *const *inputs,
     int progress = ptr->progress;
 
     TI_REAL period = ptr->options.period;
-    TI_REAL lookback_period = ptr->options.lookback_period;
+    const int lookback_period = ptr->options.lookback_period;
 
     TI_REAL gains_ema = ptr->state.gains_ema;
     TI_REAL losses_ema = ptr->state.losses_ema;
-- 
2.43.0


From 81c89245fdb1366febb42e69e41dba95cf0cb837 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:21:34 +0000
Subject: [PATCH 34/48] fix: frama stream accepted average periods the batch
 call rejects

---
 indicators/frama.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/indicators/frama.cc b/indicators/frama.cc
index 6ed7341..35b4904 100644
--- a/indicators/frama.cc
+++ b/indicators/frama.cc
@@ -143,6 +143,7 @@ int ti_frama_stream_new(TI_REAL const *options, ti_stream **stream) try {
     TI_REAL average_period = options[1];
 
     if (period < 1) { return TI_INVALID_OPTION; }
+    if (average_period < 2) { return TI_INVALID_OPTION; }
     if ((int)period % 2 != 0) { return TI_INVALID_OPTION; }
 
     ti_frama_stream *ptr = new(std::nothrow) ti_frama_stream();
-- 
2.43.0


From 75e89ae7f1fae839124f5ff5d3ba661aa75f3e0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:21:43 +0000
Subject: [PATCH 35/48] fix: vi streams let std::bad_alloc escape

---
 indicators/vi.cc | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/indicators/vi.cc b/indicators/vi.cc
index a7e39f8..976e830 100644
--- a/indicators/vi.cc
+++ b/indicators/vi.cc
@@ -126,7 +126,7 @@ struct ti_vi_stream : ti_stream {
     } constants;
 };
 
-int ti_vi_stream_new(TI_REAL const *options, ti_stream **stream) {
+int ti_vi_stream_new(TI_REAL const *options, ti_stream **stream) try {
     const TI_REAL period = options[0];
 
     if (period < 1) return TI_INVALID_OPTION;
@@ -141,13 +141,15 @@ int ti_vi_stream_new(TI_REAL const *options, ti_stream **stream) {
     ptr->options.period = period;
 
     return TI_OKAY;
+} catch (std::bad_alloc&) {
+    return TI_OUT_OF_MEMORY;
 }
 
 void ti_vi_stream_free(ti_stream *stream) {
     delete static_cast<ti_vi_stream*>(stream);
 }
 
-int ti_vi_stream_run(ti_stream *stream, int size, TI_REAL const *const *inputs, TI_REAL *const *outputs) {
+int ti_vi_stream_run(ti_stream *stream, int size, TI_REAL const *const *inputs, TI_REAL *const *outputs) try {
     ti_vi_stream *ptr = static_cast<ti_vi_stream*>(stream);
     TI_REAL const *const high = inputs[0];
     TI_REAL const *const low = inputs[1];
@@ -222,5 +224,7 @@ int ti_vi_stream_run(ti_stream *stream, int size, TI_REAL const *const *inputs,
     ptr->state.last_TR_period = last_TR_period;
 
     return TI_OKAY;
+} catch (std::bad_alloc&) {
+    return TI_OUT_OF_MEMORY;
 }
 
-- 
2.43.0


From 26275cd963465d83bbf4053610d95e96ee10c02e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:51:09 +0000
Subject: [PATCH 36/48] fix: the Python binding failed on inputs shorter than
 the warm-up

---
 bindings/python/tindicators/impl.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bindings/python/tindicators/impl.py b/bindings/python/tindicators/impl.py
index c3d2c57..16466de 100644
--- a/bindings/python/tindicators/impl.py
+++ b/bindings/python/tindicators/impl.py
@@ -104,7 +104,7 @@ class _Indicator:
 
         insize = len(inputs_lst[0])
         start_amount = self.__start(options)
-        outsize = insize - start_amount
+        outsize = min(max(insize - start_amount, 0), insize)
 
         inputs = (POINTER(c_double * insize) * len(self.info.inputs))()  # double *inputs[]
         for idx in range(len(self.info.inputs)):
@@ -133,7 +133,7 @@ class _Indicator:
 
         if pad:
             for idx in range(len(outputs_lst)):
-                outputs_lst[idx] = self.pad(outputs_lst[idx], start_amount)
+                outputs_lst[idx] = self.pad(outputs_lst[idx], insize - outsize)
 
         result = ret_t(*outputs_lst)
         return result if len(self.info.outputs) > 1 else result[0]
-- 
2.43.0


From 3d826f42027d7a8951c43d70f579f6854941233e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:51:09 +0000
Subject: [PATCH 37/48] fix: the Python binding failed on options printed with
 a positive exponent

---
 bindings/python/tindicators/impl.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bindings/python/tindicators/impl.py b/bindings/python/tindicators/impl.py
index 16466de..fe03905 100644
--- a/bindings/python/tindicators/impl.py
+++ b/bindings/python/tindicators/impl.py
@@ -139,7 +139,7 @@ class _Indicator:
         return result if len(self.info.outputs) > 1 else result[0]
 
     def __construct_elaborated_name(self, name, options_lst):
-        return name + '_'.join(str(opt).replace('.', 'p').replace('-', 'm') for opt in [''] + options_lst)
+        return name + '_'.join(str(opt).replace('.', 'p').replace('-', 'm').replace('+', '') for opt in [''] + options_lst)
 
     def __parse(self, args, kwargs, offset, names):
         size = len(names)
-- 
2.43.0


From f18042aa7a11cc4378102466bdf40fbf78b611d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:54:29 +0000
Subject: [PATCH 38/48] fix: codegen.py failed on, or added another indicator's
 code to, a new indicator

---
 codegen.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/codegen.py b/codegen.py
index 39efcd4..0d6d9f0 100644
--- a/codegen.py
+++ b/codegen.py
@@ -359,6 +359,7 @@ for indicator in indicators.items():
     ]
 
     path = file_path_c if args.old else file_path_cc
+    tbd = []
     if not os.path.exists(file_path_c) and not os.path.exists(file_path_cc):
         with open(path, 'w') as f:
             print(f'codegen.py: indicators/{os.path.basename(path)}')
-- 
2.43.0


From 2e0a17d4d4a3fde92a33e775321b85aadcb8698d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:54:29 +0000
Subject: [PATCH 39/48] fix: codegen.py glued DONTOPTIMIZE to the return type
 of a new reference function

---
 codegen.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/codegen.py b/codegen.py
index 0d6d9f0..b7781b5 100644
--- a/codegen.py
+++ b/codegen.py
@@ -27,7 +27,7 @@ def declaration_start(name):
 def declaration_plain(name):
     return f'int ti_{name}(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_REAL *const *outputs)'
 def declaration_ref(name, opt_pragma=True):
-    return 'DONTOPTIMIZE'*int(opt_pragma) + f'int ti_{name}_ref(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_REAL *const *outputs)'
+    return 'DONTOPTIMIZE '*int(opt_pragma) + f'int ti_{name}_ref(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_REAL *const *outputs)'
 def declaration_stream_new(name):
     return f'int ti_{name}_stream_new(TI_REAL const *options, ti_stream **stream)'
 def declaration_stream_run(name):
-- 
2.43.0


From 23b2f2e501fbebe16490455f48c0af6f194cbf1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:09:26 +0000
Subject: [PATCH 40/48] fix: codegen.py generated stream templates that could
 not compile

---
 codegen.py | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/codegen.py b/codegen.py
index b7781b5..dd37cb8 100644
--- a/codegen.py
+++ b/codegen.py
@@ -275,9 +275,13 @@ for indicator in indicators.items():
 
     stream = [
         '',
+    ] + ([
         'struct ti_stream {',
         '    int index;',
         '    int progress;',
+    ] if args.old else [
+        f'struct ti_stream_{name} : ti_stream {{',
+    ]) + [
         '',
         '    struct {',
         f'        {(nl+" "*8).join(map("TI_REAL {};".format, options))}',
@@ -307,14 +311,15 @@ for indicator in indicators.items():
     ] + ([
         '    *stream = calloc(1, sizeof(**stream));',
     ] if args.old else [
-        '    *stream = new(std::nothrow) ti_stream();',
+        f'    ti_stream_{name} *ptr = new(std::nothrow) ti_stream_{name}();',
+        '    *stream = ptr;',
     ]) + [
         '    if (!*stream) { return TI_OUT_OF_MEMORY; }',
         '',
         f'    (*stream)->index = TI_INDICATOR_{name.upper()}_INDEX;',
         f'    (*stream)->progress = -ti_{name}_start(options);',
         '',
-        '\n'.join(map("    (*stream)->options.{0} = {0};".format, options)),
+        '\n'.join(map(("    (*stream)->options.{0} = {0};" if args.old else "    ptr->options.{0} = {0};").format, options)),
     ] + ([
         '',
         '    #error "don\'t forget to initialize buffers"',
@@ -326,7 +331,8 @@ for indicator in indicators.items():
         '    try {',
         '        #error "don\'t forget to initialize ringbuffers and any other storage"',
         '    } catch (std::bad_alloc& e) {',
-        '        delete *stream;',
+        '        delete ptr;',
+        '        *stream = nullptr;',
         '        return TI_OUT_OF_MEMORY;',
         '    }',
     ]) + [
@@ -338,15 +344,18 @@ for indicator in indicators.items():
     ] + ([
         '    free(stream);',
     ] if args.old else [
-        '    delete stream;',
+        f'    delete static_cast<ti_stream_{name}*>(stream);',
     ]) + [
         '}',
         '',
         f'{declaration_stream_run(name)} {{',
         f'    {unpack_inputs}',
         f'    {unpack_outputs}',
+    ] + ([] if args.old else [
+        f'    ti_stream_{name} *ptr = static_cast<ti_stream_{name}*>(stream);',
+    ]) + [
         '    int progress = stream->progress;',
-        '\n'.join(map("    const TI_REAL {0} = stream->options.{0};".format, options)),
+        '\n'.join(map(("    const TI_REAL {0} = stream->options.{0};" if args.old else "    const TI_REAL {0} = ptr->options.{0};").format, options)),
         '',
         '    int i = 0;',
         '    #error "streaming implementation goes here"',
-- 
2.43.0


From 1bb0be7f498a8ac4247a5aaa4baaf339e5bf6a24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:24:17 +0000
Subject: [PATCH 41/48] fix: vidya turns to NaN on a flat long window when
 rounding leaves the short deviation nonzero

---
 indicators/vidya.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/indicators/vidya.cc b/indicators/vidya.cc
index 7dfb104..2c5ef1f 100644
--- a/indicators/vidya.cc
+++ b/indicators/vidya.cc
@@ -56,7 +56,7 @@ int ti_vidya(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_
     if (long_period - 1 < size) {
         TI_REAL short_stddev = sqrt(short_sum2 * short_div - (short_sum * short_div) * (short_sum * short_div));
         TI_REAL long_stddev = sqrt(long_sum2 * long_div - (long_sum * long_div) * (long_sum * long_div));
-        TI_REAL k = short_stddev ? short_stddev / long_stddev : 0;
+        TI_REAL k = short_stddev && long_stddev ? short_stddev / long_stddev : 0;
         if (k != k) k = 0; /* In some conditions it works out that we take the sqrt(-0.0), which gives NaN.
                               That implies that k should be zero. */
         k *= alpha;
@@ -80,7 +80,7 @@ int ti_vidya(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_
         {
             TI_REAL short_stddev = sqrt(short_sum2 * short_div - (short_sum * short_div) * (short_sum * short_div));
             TI_REAL long_stddev = sqrt(long_sum2 * long_div - (long_sum * long_div) * (long_sum * long_div));
-            TI_REAL k = short_stddev ? short_stddev / long_stddev : 0;
+            TI_REAL k = short_stddev && long_stddev ? short_stddev / long_stddev : 0;
             if (k != k) k = 0;
             k *= alpha;
             val = (input[i]-val) * k + val;
-- 
2.43.0


From a6ed3d11baf1d3ea6698ba56557bec04e04390f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:15:36 +0000
Subject: [PATCH 42/48] fix: posc, pbands and rvi overflowed int on the sum of
 squares of periods above 1023

---
 indicators/pbands.cc | 8 ++++----
 indicators/posc.cc   | 8 ++++----
 indicators/rvi.cc    | 8 ++++----
 3 files changed, 12 insertions(+), 12 deletions(-)

diff --git a/indicators/pbands.cc b/indicators/pbands.cc
index 5d966eb..aab42f3 100644
--- a/indicators/pbands.cc
+++ b/indicators/pbands.cc
@@ -27,8 +27,8 @@ int ti_pbands(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI
     TI_REAL y_sum = 0.;
     TI_REAL xy_sum = 0.;
 
-    const TI_REAL x_sum = period * (period + 1) / 2.;
-    const TI_REAL xsq_sum = period * (period + 1) * (2*period + 1) / 6.;
+    const TI_REAL x_sum = (TI_REAL)period * (period + 1) / 2.;
+    const TI_REAL xsq_sum = (TI_REAL)period * (period + 1) * (2*period + 1) / 6.;
 
     TI_REAL max;
     TI_REAL min;
@@ -148,8 +148,8 @@ int ti_pbands_stream_new(TI_REAL const *options, ti_stream **stream) {
     ptr->state.y_sum = 0.;
     ptr->state.xy_sum = 0.;
 
-    ptr->constants.x_sum = period * (period + 1) / 2.;
-    ptr->constants.xsq_sum = period * (period + 1) * (2*period + 1) / 6.;
+    ptr->constants.x_sum = (TI_REAL)period * (period + 1) / 2.;
+    ptr->constants.xsq_sum = (TI_REAL)period * (period + 1) * (2*period + 1) / 6.;
 
     try {
         ptr->state.price_high.resize(period+1);
diff --git a/indicators/posc.cc b/indicators/posc.cc
index f983e3f..e658c60 100644
--- a/indicators/posc.cc
+++ b/indicators/posc.cc
@@ -33,8 +33,8 @@ int ti_posc(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_R
     TI_REAL xy_sum = 0.;
     TI_REAL ema;
 
-    const TI_REAL x_sum = period * (period + 1) / 2.;
-    const TI_REAL xsq_sum = period * (period + 1) * (2*period + 1) / 6.;
+    const TI_REAL x_sum = (TI_REAL)period * (period + 1) / 2.;
+    const TI_REAL xsq_sum = (TI_REAL)period * (period + 1) * (2*period + 1) / 6.;
 
     int i = 0;
     for (; i < period-1 && i < size; ++i) {
@@ -173,8 +173,8 @@ int ti_posc_stream_new(TI_REAL const *options, ti_stream **stream) {
     ptr->state.y_sum = 0.;
     ptr->state.xy_sum = 0.;
 
-    ptr->constants.x_sum = period * (period + 1) / 2.;
-    ptr->constants.xsq_sum = period * (period + 1) * (2*period + 1) / 6.;
+    ptr->constants.x_sum = (TI_REAL)period * (period + 1) / 2.;
+    ptr->constants.xsq_sum = (TI_REAL)period * (period + 1) * (2*period + 1) / 6.;
 
     try {
         ptr->state.price_high.resize(period+1);
diff --git a/indicators/rvi.cc b/indicators/rvi.cc
index d8fa70d..417ea3d 100644
--- a/indicators/rvi.cc
+++ b/indicators/rvi.cc
@@ -27,8 +27,8 @@ int ti_rvi(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_RE
     TI_REAL y_sum = 0.;
     TI_REAL xy_sum = 0.;
 
-    const TI_REAL x_sum = stddev_period * (stddev_period + 1) / 2.;
-    const TI_REAL xsq_sum = stddev_period * (stddev_period + 1) * (2*stddev_period + 1) / 6.;
+    const TI_REAL x_sum = (TI_REAL)stddev_period * (stddev_period + 1) / 2.;
+    const TI_REAL xsq_sum = (TI_REAL)stddev_period * (stddev_period + 1) * (2*stddev_period + 1) / 6.;
 
     TI_REAL gains_ema = 0.;
     TI_REAL losses_ema = 0.;
@@ -106,8 +106,8 @@ int ti_rvi_stream_new(TI_REAL const *options, ti_stream **stream) {
     ptr->state.gains_ema = 0.;
     ptr->state.losses_ema = 0.;
 
-    ptr->constants.x_sum = stddev_period * (stddev_period + 1) / 2.;
-    ptr->constants.xsq_sum = stddev_period * (stddev_period + 1) * (2*stddev_period + 1) / 6.;
+    ptr->constants.x_sum = (TI_REAL)stddev_period * (stddev_period + 1) / 2.;
+    ptr->constants.xsq_sum = (TI_REAL)stddev_period * (stddev_period + 1) * (2*stddev_period + 1) / 6.;
 
     try {
         ptr->state.price.resize(stddev_period+1);
-- 
2.43.0


From d4ba04ec1e5fe6e58a5ab3b08671b532cc0a17e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:19:49 +0000
Subject: [PATCH 43/48] fix: weight sums of wma, hma, copp, shmma and the
 linear regressions overflowed int for periods above 46340

---
 indicators/copp.cc  | 2 +-
 indicators/hma.cc   | 4 ++--
 indicators/shmma.cc | 4 ++--
 indicators/trend.h  | 4 ++--
 indicators/wma.cc   | 2 +-
 5 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/indicators/copp.cc b/indicators/copp.cc
index 25bc2c3..689f380 100644
--- a/indicators/copp.cc
+++ b/indicators/copp.cc
@@ -164,7 +164,7 @@ int ti_copp_stream_new(TI_REAL const *options, ti_stream **stream) {
     ptr->options.roc_longer_period = roc_longer_period;
     ptr->options.wma_period = wma_period;
 
-    ptr->constants.denominator = 1. / (wma_period * (wma_period + 1) / 2);
+    ptr->constants.denominator = 1. / (wma_period * (wma_period + 1.) / 2.);
 
     ptr->state.flat_rocs_sum = 0.;
     ptr->state.weighted_rocs_sum = 0.;
diff --git a/indicators/hma.cc b/indicators/hma.cc
index 9c91003..2527557 100644
--- a/indicators/hma.cc
+++ b/indicators/hma.cc
@@ -32,8 +32,8 @@ int ti_hma(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_RE
     const int period2 = period > 1 ? period / 2 : 1;
     const int periodsqrt = (int)(sqrt(period));
 
-    const TI_REAL weights = period * (period+1) / 2;
-    const TI_REAL weights2 = period2 * (period2+1) / 2;
+    const TI_REAL weights = (TI_REAL)period * (period+1) / 2;
+    const TI_REAL weights2 = (TI_REAL)period2 * (period2+1) / 2;
     const TI_REAL weightssqrt = periodsqrt * (periodsqrt+1) / 2;
 
     TI_REAL sum = 0; /* Flat sum of previous numbers. */
diff --git a/indicators/shmma.cc b/indicators/shmma.cc
index 29f9586..ed12799 100644
--- a/indicators/shmma.cc
+++ b/indicators/shmma.cc
@@ -36,7 +36,7 @@ int ti_shmma(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_
         T += series[i];
         S += (period-1.) / 2. * series[i];
 
-        *shmma++ = T/period + (6.*S)/((period+1) * period);
+        *shmma++ = T/period + (6.*S)/((period+1.) * period);
 
         S -= T;
         S += (period + 1.) / 2. * series[i-period+1];
@@ -139,7 +139,7 @@ int ti_shmma_stream_run(ti_stream *stream, int size, TI_REAL const *const *input
         T += series[i];
         S += (period-1.) / 2. * series[i];
 
-        *shmma++ = T/period + (6.*S)/((period+1) * period);
+        *shmma++ = T/period + (6.*S)/((period+1.) * period);
 
         S -= T;
         S += (period + 1.) / 2. * price[period-1];
diff --git a/indicators/trend.h b/indicators/trend.h
index 847185d..025f177 100644
--- a/indicators/trend.h
+++ b/indicators/trend.h
@@ -41,13 +41,13 @@
     int i; \
     for (i = 0; i < (period)-1; ++i) { \
         x += i+1; \
-        x2 += (i+1)*(i+1); \
+        x2 += (TI_REAL)(i+1)*(i+1); \
         xy += (input)[i] * (i+1); \
         y += (input)[i]; \
     } \
  \
     x += (period); \
-    x2 += (period) * (period); \
+    x2 += (TI_REAL)(period) * (period); \
  \
     const TI_REAL bd = 1.0 / ((period) * x2 - x * x); \
  \
diff --git a/indicators/wma.cc b/indicators/wma.cc
index afdd0fb..eecb0eb 100644
--- a/indicators/wma.cc
+++ b/indicators/wma.cc
@@ -25,7 +25,7 @@ int ti_wma(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_RE
      * 1 2 3 4 5 6
      */
 
-    const TI_REAL weights = period * (period+1) / 2;
+    const TI_REAL weights = (TI_REAL)period * (period+1) / 2;
 
     TI_REAL sum = 0; /* Flat sum of previous numbers. */
     TI_REAL weight_sum = 0; /* Weighted sum of previous numbers. */
-- 
2.43.0


From 8fdc35ce6bdb58302c10b599ef35650f5d6e3a76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:37:01 +0000
Subject: [PATCH 44/48] fix: hf and rmf crashed on a NaN in the series

---
 indicators/hf.cc  | 13 +++++++------
 indicators/rmf.cc |  5 +++--
 utils/nanlast.hh  | 17 +++++++++++++++++
 3 files changed, 27 insertions(+), 8 deletions(-)
 create mode 100644 utils/nanlast.hh

diff --git a/indicators/hf.cc b/indicators/hf.cc
index fa5c62b..490c56b 100644
--- a/indicators/hf.cc
+++ b/indicators/hf.cc
@@ -13,6 +13,7 @@
 #include "../utils/log.h"
 #include "../utils/minmax.h"
 #include "../utils/ringbuf.hh"
+#include "../utils/nanlast.hh"
 
 int ti_hf_start(TI_REAL const *options) {
     const int k = options[0];
@@ -30,7 +31,7 @@ int ti_hf(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_REA
     if (k < 1) { return TI_INVALID_OPTION; }
     if (threshold < 0) { return TI_INVALID_OPTION; }
 
-    std::multiset<TI_REAL> rankedprice;
+    std::multiset<TI_REAL, nan_last> rankedprice;
     std::vector<TI_REAL> a(2*k+1);
 
     int i = 0;
@@ -48,7 +49,7 @@ int ti_hf(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_REA
             ++j;
         }
 
-        std::nth_element(a.begin(), a.begin()+k, a.end());
+        std::nth_element(a.begin(), a.begin()+k, a.end(), nan_last());
         TI_REAL median_deviation = a[k];
 
         TI_REAL candidate = series[i];
@@ -71,7 +72,7 @@ DONTOPTIMIZE int ti_hf_ref(int size, TI_REAL const *const *inputs, TI_REAL const
     if (k < 1) { return TI_INVALID_OPTION; }
     if (threshold < 0) { return TI_INVALID_OPTION; }
 
-    std::multiset<TI_REAL> rankedprice;
+    std::multiset<TI_REAL, nan_last> rankedprice;
 
     int i = 0;
     for (; i < 2*k && i < size; ++i) {
@@ -87,7 +88,7 @@ DONTOPTIMIZE int ti_hf_ref(int size, TI_REAL const *const *inputs, TI_REAL const
             a.push_back(fabs(price - median_price));
         }
 
-        std::nth_element(a.begin(), a.begin()+k, a.end());
+        std::nth_element(a.begin(), a.begin()+k, a.end(), nan_last());
         TI_REAL median_deviation = a[k];
 
         TI_REAL candidate = series[i];
@@ -110,7 +111,7 @@ struct ti_hf_stream : ti_stream {
 
     struct {
         ringbuf<0> price;
-        std::multiset<TI_REAL> rankedprice;
+        std::multiset<TI_REAL, nan_last> rankedprice;
         std::vector<TI_REAL> absbuf;
     } state;
 
@@ -180,7 +181,7 @@ int ti_hf_stream_run(ti_stream *stream, int size, TI_REAL const *const *inputs,
             ++j;
         }
 
-        std::nth_element(absbuf.begin(), absbuf.begin()+k, absbuf.end());
+        std::nth_element(absbuf.begin(), absbuf.begin()+k, absbuf.end(), nan_last());
         TI_REAL median_deviation = absbuf[k];
 
         TI_REAL candidate = series[i];
diff --git a/indicators/rmf.cc b/indicators/rmf.cc
index cf35e3d..df46c0e 100644
--- a/indicators/rmf.cc
+++ b/indicators/rmf.cc
@@ -12,6 +12,7 @@
 #include "../indicators.h"
 #include "../utils/localbuffer.h"
 #include "../utils/log.h"
+#include "../utils/nanlast.hh"
 
 const TI_REAL PI = acos(-1);
 
@@ -33,7 +34,7 @@ int ti_rmf(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_RE
     if ((int)median_period % 2 != 1) { return TI_INVALID_OPTION; }
 
     TI_REAL rmf_val;
-    std::multiset<TI_REAL> rankedprice;
+    std::multiset<TI_REAL, nan_last> rankedprice;
     std::deque<TI_REAL> price;
 
     TI_REAL alpha = (cos(2*PI/critical_period) + sin(2*PI/critical_period) - 1.) / cos(2*PI/critical_period);
@@ -77,7 +78,7 @@ struct ti_rmf_stream : ti_stream {
 
     struct {
         TI_REAL rmf_val;
-        std::multiset<TI_REAL> rankedprice;
+        std::multiset<TI_REAL, nan_last> rankedprice;
         std::deque<TI_REAL> price;
     } state;
 
diff --git a/utils/nanlast.hh b/utils/nanlast.hh
new file mode 100644
index 0000000..53bd176
--- /dev/null
+++ b/utils/nanlast.hh
@@ -0,0 +1,17 @@
+/*
+ * This file is part of tindicators, licensed under GNU LGPL v3.
+ */
+
+
+#pragma once
+
+#include "../indicators.h"
+
+#include <cmath>
+
+/* An ordering of all doubles in which NaN, too, has its place: after every number. */
+struct nan_last {
+    bool operator()(TI_REAL a, TI_REAL b) const {
+        return a < b || (std::isnan(b) && !std::isnan(a));
+    }
+};
-- 
2.43.0


From 9330e4bc1111455c944aff691b4f5ce1f7e4b60d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:37:01 +0000
Subject: [PATCH 45/48] fix: arsi converted a NaN cycle length to int

---
 indicators/arsi.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/indicators/arsi.cc b/indicators/arsi.cc
index 6a7fdc1..4f75136 100644
--- a/indicators/arsi.cc
+++ b/indicators/arsi.cc
@@ -68,7 +68,7 @@ int ti_arsi(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_R
 
         TI_REAL CU = 0;
         TI_REAL CD = 0;
-        for (int count = 0; count < (int)(cycpart * SmoothPeriod) && count < i; ++count) {
+        for (int count = 0; count + 1 <= cycpart * SmoothPeriod && count < i; ++count) {
             CU += std::max<TI_REAL>(0, series[i-count] - series[i-count-1]);
             CD += -std::min<TI_REAL>(0, series[i-count] - series[i-count-1]);
         }
@@ -126,7 +126,7 @@ DONTOPTIMIZE int ti_arsi_ref(int size, TI_REAL const *const *inputs, TI_REAL con
 
         TI_REAL CU = 0;
         TI_REAL CD = 0;
-        for (int count = 0; count < (int)(cycpart * SmoothPeriod) && count < i; ++count) {
+        for (int count = 0; count + 1 <= cycpart * SmoothPeriod && count < i; ++count) {
             CU += std::max<TI_REAL>(0, series[i-count] - series[i-count-1]);
             CD += -std::min<TI_REAL>(0, series[i-count] - series[i-count-1]);
         }
@@ -243,7 +243,7 @@ int ti_arsi_stream_run(ti_stream *stream, int size, TI_REAL const *const *inputs
 
         TI_REAL CU = 0;
         TI_REAL CD = 0;
-        for (int count = 0; count < (int)(cycpart * SmoothPeriod) && count < progress + 5; ++count) {
+        for (int count = 0; count + 1 <= cycpart * SmoothPeriod && count < progress + 5; ++count) {
             CU += std::max<TI_REAL>(0, Price[count] - Price[count+1]);
             CD += -std::min<TI_REAL>(0, Price[count] - Price[count+1]);
         }
-- 
2.43.0


From 8e25037cf8b4bfae81eb303c53c65cff3e9a7f4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:34:39 +0000
Subject: [PATCH 46/48] fix: the generated streaming classes reported unset
 memory during the warm-up

---
 bindings/lean/generate-bindings.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/bindings/lean/generate-bindings.py b/bindings/lean/generate-bindings.py
index 13678ed..b147e0b 100644
--- a/bindings/lean/generate-bindings.py
+++ b/bindings/lean/generate-bindings.py
@@ -78,8 +78,10 @@ def streaming(indicator):
             {f"{n}".join(f'outputs[{i}] = Marshal.AllocHGlobal(sizeof(double));' for i, output in enumerate(outputs))}
             int result = ti_{name}_stream_run(state, 1, inputs, outputs);
             util.DispatchError(result);
-            {f"{n}".join(f'Marshal.Copy(outputs[{i}], tmp, {i}, 1);' for i, output in enumerate(outputs))}
-            {f"{n}".join(f'{output.upper()}.Update(data.Time, (decimal)tmp[{i}]);' for i, output in enumerate(outputs))}
+            if (IsReady) {{
+                {f"{n}".join(f'Marshal.Copy(outputs[{i}], tmp, {i}, 1);' for i, output in enumerate(outputs))}
+                {f"{n}".join(f'{output.upper()}.Update(data.Time, (decimal)tmp[{i}]);' for i, output in enumerate(outputs))}
+            }}
             foreach (IntPtr input in inputs) {{ Marshal.FreeHGlobal(input); }}
             foreach (IntPtr output in outputs) {{ Marshal.FreeHGlobal(output); }}
             return (decimal){outputs[0].upper()}.Current.Value;
-- 
2.43.0


From 8be5508dbc72f012fb398d3802e9690032ef5f6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:57:10 +0000
Subject: [PATCH 47/48] fix: the python binding filled up inputs of different
 lengths with zeros

---
 bindings/python/tindicators/impl.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/bindings/python/tindicators/impl.py b/bindings/python/tindicators/impl.py
index fe03905..7a01777 100644
--- a/bindings/python/tindicators/impl.py
+++ b/bindings/python/tindicators/impl.py
@@ -108,7 +108,10 @@ class _Indicator:
 
         inputs = (POINTER(c_double * insize) * len(self.info.inputs))()  # double *inputs[]
         for idx in range(len(self.info.inputs)):
-            inp = (c_double * insize)(*inputs_lst[idx])  # ensures that the array is not temporary
+            series = tuple(inputs_lst[idx])
+            if len(series) != insize:
+                raise ValueError(f'{self.info.name}: the inputs differ in length: {len(series)} and {insize}')
+            inp = (c_double * insize)(*series)  # ensures that the array is not temporary
             inputs[idx] = pointer(inp)
 
         outputs = (POINTER(c_double * outsize) * len(self.info.outputs))()  # double *outputs[]
-- 
2.43.0


From 4fba7e962de155cd7774a4b121fb87040c536091 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:53:00 +0000
Subject: [PATCH 48/48] fix: the kst reference compared periods before
 truncating them

---
 indicators/kst.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/indicators/kst.cc b/indicators/kst.cc
index 24f4af1..e367560 100755
--- a/indicators/kst.cc
+++ b/indicators/kst.cc
@@ -114,7 +114,7 @@ int ti_kst_ref(int size, TI_REAL const *const *inputs, TI_REAL const *options, T
     TI_REAL *kst_signal = outputs[1];
 
 
-    if(!(roc[0] < roc[1] && roc[1] < roc[2] && roc[2] < roc[3])) {
+    if(!((int)roc[0] < (int)roc[1] && (int)roc[1] < (int)roc[2] && (int)roc[2] < (int)roc[3])) {
         return TI_INVALID_OPTION;
     }
     for (int i = 0; i < 8; ++i) {
-- 
2.43.0

