From cc0e35c43f6e8c739191aba6839ca49fc7cfbbc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:37 +0000
Subject: [PATCH 01/15] fix: report out of memory when ti_buffer_new fails
 instead of dereferencing NULL

---
 indicators/abands.cc   | 5 +++++
 indicators/adxr.cc     | 1 +
 indicators/cci.cc      | 1 +
 indicators/cvi.cc      | 1 +
 indicators/hma.cc      | 1 +
 indicators/mass.cc     | 1 +
 indicators/mfi.cc      | 5 +++++
 indicators/stoch.cc    | 5 +++++
 indicators/stochrsi.cc | 1 +
 indicators/ultosc.cc   | 5 +++++
 utils/buffer.c         | 1 +
 11 files changed, 27 insertions(+)

diff --git a/indicators/abands.cc b/indicators/abands.cc
index e246740..e0fdedb 100644
--- a/indicators/abands.cc
+++ b/indicators/abands.cc
@@ -37,6 +37,11 @@ int ti_abands(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI
 
     ti_buffer *buffer_high = ti_buffer_new(period);
     ti_buffer *buffer_low = ti_buffer_new(period);
+    if (!buffer_high || !buffer_low) {
+        ti_buffer_free(buffer_high);
+        ti_buffer_free(buffer_low);
+        return TI_OUT_OF_MEMORY;
+    }
     TI_REAL close_sum = 0;
 
     for (int i = 0; i < period; ++i) {
diff --git a/indicators/adxr.cc b/indicators/adxr.cc
index cdc0aac..e30c2e5 100644
--- a/indicators/adxr.cc
+++ b/indicators/adxr.cc
@@ -58,6 +58,7 @@ int ti_adxr(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_R
     }
 
     ti_buffer *adxr = ti_buffer_new(period-1);
+    if (!adxr) { return TI_OUT_OF_MEMORY; }
     const int first_adxr = ti_adxr_start(options);
 
     for (i = period; i < size; ++i) {
diff --git a/indicators/cci.cc b/indicators/cci.cc
index c709377..ecc2cb0 100644
--- a/indicators/cci.cc
+++ b/indicators/cci.cc
@@ -35,6 +35,7 @@ int ti_cci(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_RE
     TI_REAL *output = outputs[0];
 
     ti_buffer *sum = ti_buffer_new(period);
+    if (!sum) { return TI_OUT_OF_MEMORY; }
 
     int i, j;
     for (i = 0; i < size; ++i) {
diff --git a/indicators/cvi.cc b/indicators/cvi.cc
index 2327a0a..54b7c78 100644
--- a/indicators/cvi.cc
+++ b/indicators/cvi.cc
@@ -29,6 +29,7 @@ int ti_cvi(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_RE
     const TI_REAL per = 2 / ((TI_REAL)period + 1);
 
     ti_buffer *lag = ti_buffer_new(period);
+    if (!lag) { return TI_OUT_OF_MEMORY; }
 
     TI_REAL val = high[0]-low[0];
 
diff --git a/indicators/hma.cc b/indicators/hma.cc
index ea30265..0a3f6cb 100644
--- a/indicators/hma.cc
+++ b/indicators/hma.cc
@@ -58,6 +58,7 @@ int ti_hma(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_RE
     }
 
     ti_buffer *buff = ti_buffer_new(periodsqrt);
+    if (!buff) { return TI_OUT_OF_MEMORY; }
 
     for (i = period-1; i < size; ++i) {
         weight_sum += input[i] * period;
diff --git a/indicators/mass.cc b/indicators/mass.cc
index 4a09e0e..8f59037 100644
--- a/indicators/mass.cc
+++ b/indicators/mass.cc
@@ -37,6 +37,7 @@ int ti_mass(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_R
     TI_REAL ema2 = ema;
 
     ti_buffer *sum = ti_buffer_new(period);
+    if (!sum) { return TI_OUT_OF_MEMORY; }
 
     int i;
     for (i = 0; i < size; ++i) {
diff --git a/indicators/mfi.cc b/indicators/mfi.cc
index 039fbfb..5ab48d1 100644
--- a/indicators/mfi.cc
+++ b/indicators/mfi.cc
@@ -33,6 +33,11 @@ int ti_mfi(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_RE
 
     ti_buffer *up = ti_buffer_new(period);
     ti_buffer *down = ti_buffer_new(period);
+    if (!up || !down) {
+        ti_buffer_free(up);
+        ti_buffer_free(down);
+        return TI_OUT_OF_MEMORY;
+    }
 
     for (i = 1; i < size; ++i) {
         const TI_REAL typ = TYPPRICE(i);
diff --git a/indicators/stoch.cc b/indicators/stoch.cc
index 88cf9f8..4841091 100644
--- a/indicators/stoch.cc
+++ b/indicators/stoch.cc
@@ -43,6 +43,11 @@ int ti_stoch(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_
 
     ti_buffer *k_sum = ti_buffer_new(kslow);
     ti_buffer *d_sum = ti_buffer_new(dperiod);
+    if (!k_sum || !d_sum) {
+        ti_buffer_free(k_sum);
+        ti_buffer_free(d_sum);
+        return TI_OUT_OF_MEMORY;
+    }
 
     int i, j;
     for (i = 0; i < size; ++i) {
diff --git a/indicators/stochrsi.cc b/indicators/stochrsi.cc
index 592a1cb..100c937 100644
--- a/indicators/stochrsi.cc
+++ b/indicators/stochrsi.cc
@@ -24,6 +24,7 @@ int ti_stochrsi(int size, TI_REAL const *const *inputs, TI_REAL const *options,
     if (size <= ti_stochrsi_start(options)) return TI_OKAY;
 
     ti_buffer *rsi = ti_buffer_new(period);
+    if (!rsi) { return TI_OUT_OF_MEMORY; }
 
     TI_REAL smooth_up = 0, smooth_down = 0;
 
diff --git a/indicators/ultosc.cc b/indicators/ultosc.cc
index db0f267..56776d6 100644
--- a/indicators/ultosc.cc
+++ b/indicators/ultosc.cc
@@ -34,6 +34,11 @@ int ti_ultosc(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI
 
     ti_buffer *bp_buf = ti_buffer_new(long_period);
     ti_buffer *r_buf = ti_buffer_new(long_period);
+    if (!bp_buf || !r_buf) {
+        ti_buffer_free(bp_buf);
+        ti_buffer_free(r_buf);
+        return TI_OUT_OF_MEMORY;
+    }
 
     TI_REAL bp_short_sum = 0, bp_medium_sum = 0;
     TI_REAL r_short_sum = 0, r_medium_sum = 0;
diff --git a/utils/buffer.c b/utils/buffer.c
index eb493aa..0d0c155 100644
--- a/utils/buffer.c
+++ b/utils/buffer.c
@@ -13,6 +13,7 @@
 ti_buffer *ti_buffer_new(int size) {
     const int s = (int)sizeof(ti_buffer) + (size-1) * (int)sizeof(TI_REAL);
     ti_buffer *ret = (ti_buffer*)malloc((unsigned int)s);
+    if (!ret) { return NULL; }
     ret->size = size;
     ret->pushes = 0;
     ret->index = 0;
-- 
2.43.0


From 62dd3c176eb5ecc4b35f1d35490beaffd2b32c0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:41 +0000
Subject: [PATCH 02/15] fix: report out of memory from batch functions instead
 of letting std::bad_alloc escape

---
 indicators/cmi.cc   | 4 +++-
 indicators/edcf.cc  | 4 +++-
 indicators/hf.cc    | 4 +++-
 indicators/idwma.cc | 4 +++-
 indicators/mhlma.cc | 4 +++-
 indicators/rmf.cc   | 4 +++-
 6 files changed, 18 insertions(+), 6 deletions(-)

diff --git a/indicators/cmi.cc b/indicators/cmi.cc
index 7dadbea..67279a2 100644
--- a/indicators/cmi.cc
+++ b/indicators/cmi.cc
@@ -18,7 +18,7 @@ int ti_cmi_start(TI_REAL const *options) {
     return period-1;
 }
 
-int ti_cmi(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_REAL *const *outputs) {
+int ti_cmi(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_REAL *const *outputs) try {
     TI_REAL const *const high = inputs[0];
     TI_REAL const *const low = inputs[1];
     TI_REAL const *const close = inputs[2];
@@ -83,6 +83,8 @@ int ti_cmi(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_RE
     }
 
     return TI_OKAY;
+} catch (std::bad_alloc& e) {
+    return TI_OUT_OF_MEMORY;
 }
 
 DONTOPTIMIZE int ti_cmi_ref(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_REAL *const *outputs) {
diff --git a/indicators/edcf.cc b/indicators/edcf.cc
index a269e2a..688a341 100644
--- a/indicators/edcf.cc
+++ b/indicators/edcf.cc
@@ -19,7 +19,7 @@ int ti_edcf_start(TI_REAL const *options) {
     return 2*length-1;
 }
 
-int ti_edcf(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_REAL *const *outputs) {
+int ti_edcf(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_REAL *const *outputs) try {
     TI_REAL const *const series = inputs[0];
     TI_REAL length = options[0];
     TI_REAL *edcf = outputs[0];
@@ -60,6 +60,8 @@ int ti_edcf(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_R
     }
 
     return TI_OKAY;
+} catch (std::bad_alloc& e) {
+    return TI_OUT_OF_MEMORY;
 }
 
 struct ti_edcf_stream : ti_stream {
diff --git a/indicators/hf.cc b/indicators/hf.cc
index 624b418..23323dc 100644
--- a/indicators/hf.cc
+++ b/indicators/hf.cc
@@ -21,7 +21,7 @@ int ti_hf_start(TI_REAL const *options) {
     return 2*k;
 }
 
-int ti_hf(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_REAL *const *outputs) {
+int ti_hf(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_REAL *const *outputs) try {
     TI_REAL const *const series = inputs[0];
     const int k = options[0];
     const TI_REAL threshold = options[1];
@@ -58,6 +58,8 @@ int ti_hf(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_REA
     }
 
     return TI_OKAY;
+} catch (std::bad_alloc& e) {
+    return TI_OUT_OF_MEMORY;
 }
 
 DONTOPTIMIZE int ti_hf_ref(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_REAL *const *outputs) {
diff --git a/indicators/idwma.cc b/indicators/idwma.cc
index 2416bd9..4b38afe 100644
--- a/indicators/idwma.cc
+++ b/indicators/idwma.cc
@@ -19,7 +19,7 @@ int ti_idwma_start(TI_REAL const *options) {
     return period-1;
 }
 
-int ti_idwma(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_REAL *const *outputs) {
+int ti_idwma(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_REAL *const *outputs) try {
     TI_REAL const *const series = inputs[0];
     const int period = options[0];
     const TI_REAL exponent = options[1];
@@ -45,6 +45,8 @@ int ti_idwma(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_
     }
 
     return TI_OKAY;
+} catch (std::bad_alloc& e) {
+    return TI_OUT_OF_MEMORY;
 }
 
 DONTOPTIMIZE int ti_idwma_ref(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_REAL *const *outputs) {
diff --git a/indicators/mhlma.cc b/indicators/mhlma.cc
index 38957b8..4acad5c 100644
--- a/indicators/mhlma.cc
+++ b/indicators/mhlma.cc
@@ -19,7 +19,7 @@ int ti_mhlma_start(TI_REAL const *options) {
     return ma_period-1;
 }
 
-int ti_mhlma(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_REAL *const *outputs) {
+int ti_mhlma(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_REAL *const *outputs) try {
     TI_REAL const *const series = inputs[0];
     const int period = options[0];
     const int ma_period = options[1];
@@ -118,6 +118,8 @@ int ti_mhlma(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_
     }
 
     return TI_OKAY;
+} catch (std::bad_alloc& e) {
+    return TI_OUT_OF_MEMORY;
 }
 
 DONTOPTIMIZE int ti_mhlma_ref(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_REAL *const *outputs) {
diff --git a/indicators/rmf.cc b/indicators/rmf.cc
index 199545a..17fd5bc 100644
--- a/indicators/rmf.cc
+++ b/indicators/rmf.cc
@@ -22,7 +22,7 @@ int ti_rmf_start(TI_REAL const *options) {
     return median_period-1;
 }
 
-int ti_rmf(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_REAL *const *outputs) {
+int ti_rmf(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_REAL *const *outputs) try {
     TI_REAL const *const series = inputs[0];
     TI_REAL critical_period = options[0];
     TI_REAL median_period = options[1];
@@ -64,6 +64,8 @@ int ti_rmf(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_RE
     }
 
     return TI_OKAY;
+} catch (std::bad_alloc& e) {
+    return TI_OUT_OF_MEMORY;
 }
 
 struct ti_rmf_stream : ti_stream {
-- 
2.43.0


From 3ccf4c6a5ace6aabd5486063e177b6e3db37c403 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:22 +0000
Subject: [PATCH 03/15] fix: stream creation and streaming report out of memory
 without leaking, double typing deletes or throwing

---
 indicators/ahma.cc   |  7 ++++++-
 indicators/arsi.cc   |  7 ++++++-
 indicators/ce.cc     |  2 +-
 indicators/cmi.cc    |  9 +++++++--
 indicators/copp.cc   |  2 +-
 indicators/dwma.cc   |  4 ++--
 indicators/edcf.cc   | 21 ++++++++++++++++-----
 indicators/emsd.cc   |  7 ++++++-
 indicators/er.cc     |  7 ++++++-
 indicators/evwma.cc  |  1 +
 indicators/frama.cc  | 12 +++++++++---
 indicators/hf.cc     | 13 ++++++++++---
 indicators/hfema.cc  |  6 ++++--
 indicators/hfsma.cc  |  6 ++++--
 indicators/ichi.cc   |  2 +-
 indicators/idwma.cc  |  9 +++++++--
 indicators/kc.cc     |  2 +-
 indicators/mhlma.cc  |  9 +++++++--
 indicators/pbands.cc |  2 +-
 indicators/posc.cc   |  2 +-
 indicators/pwma.cc   |  1 +
 indicators/rmf.cc    | 12 +++++++++---
 indicators/rmi.cc    |  1 +
 indicators/rvi.cc    |  2 +-
 indicators/shmma.cc  |  7 ++++++-
 indicators/smi.cc    |  2 +-
 indicators/swma.cc   |  1 +
 indicators/vi.cc     | 12 +++++++++---
 28 files changed, 126 insertions(+), 42 deletions(-)

diff --git a/indicators/ahma.cc b/indicators/ahma.cc
index 23ae23a..be34bf3 100644
--- a/indicators/ahma.cc
+++ b/indicators/ahma.cc
@@ -80,7 +80,12 @@ int ti_ahma_stream_new(TI_REAL const *options, ti_stream **stream) {
 
     ptr->options.period = period;
 
-    ptr->state.filt.resize(period+1);
+    try {
+        ptr->state.filt.resize(period+1);
+    } catch (std::bad_alloc& e) {
+        delete ptr;
+        return TI_OUT_OF_MEMORY;
+    }
 
     return TI_OKAY;
 }
diff --git a/indicators/arsi.cc b/indicators/arsi.cc
index b329f98..f16b9ef 100644
--- a/indicators/arsi.cc
+++ b/indicators/arsi.cc
@@ -175,7 +175,12 @@ int ti_arsi_stream_new(TI_REAL const *options, ti_stream **stream) {
 
     ptr->options.cycpart = cycpart;
 
-    ptr->state.Price.resize(cycpart * 50 + 1);
+    try {
+        ptr->state.Price.resize(cycpart * 50 + 1);
+    } catch (std::bad_alloc& e) {
+        delete ptr;
+        return TI_OUT_OF_MEMORY;
+    }
 
     return TI_OKAY;
 }
diff --git a/indicators/ce.cc b/indicators/ce.cc
index b4ef418..0d9eecc 100644
--- a/indicators/ce.cc
+++ b/indicators/ce.cc
@@ -177,7 +177,7 @@ int ti_ce_stream_new(TI_REAL const *options, ti_stream **stream) {
     const TI_REAL coef = options[1];
 
     if (period < 1) { return TI_INVALID_OPTION; }
-    ti_ce_stream *ptr = new ti_ce_stream();
+    ti_ce_stream *ptr = new(std::nothrow) ti_ce_stream();
     if (!ptr) { return TI_OUT_OF_MEMORY; }
     *stream = ptr;
 
diff --git a/indicators/cmi.cc b/indicators/cmi.cc
index 67279a2..3db4e34 100644
--- a/indicators/cmi.cc
+++ b/indicators/cmi.cc
@@ -151,8 +151,13 @@ int ti_cmi_stream_new(TI_REAL const *options, ti_stream **stream) {
 
     ptr->options.period = period;
 
-    ptr->state.tr.resize(period);
-    ptr->state.price_close.resize(2);
+    try {
+        ptr->state.tr.resize(period);
+        ptr->state.price_close.resize(2);
+    } catch (std::bad_alloc& e) {
+        delete ptr;
+        return TI_OUT_OF_MEMORY;
+    }
 
     return TI_OKAY;
 }
diff --git a/indicators/copp.cc b/indicators/copp.cc
index 8c46749..212ea86 100644
--- a/indicators/copp.cc
+++ b/indicators/copp.cc
@@ -146,7 +146,7 @@ int ti_copp_stream_new(TI_REAL const *options, ti_stream **stream) {
     }
     if (roc_longer_period < roc_shorter_period) { return TI_INVALID_OPTION; }
 
-    ti_copp_stream *ptr = new ti_copp_stream();
+    ti_copp_stream *ptr = new(std::nothrow) ti_copp_stream();
     if (!ptr) { return TI_OUT_OF_MEMORY; }
 
     *stream = ptr;
diff --git a/indicators/dwma.cc b/indicators/dwma.cc
index 14dc5df..320aac5 100644
--- a/indicators/dwma.cc
+++ b/indicators/dwma.cc
@@ -129,14 +129,14 @@ int ti_dwma_stream_new(TI_REAL const *options, ti_stream **stream) {
 
     ptr->constants.denom = (1. + period) * period / 2.;
 
-    ptr->state.price.resize(period);
-    
     ptr->state.numer1 = 0;
     ptr->state.sum1 = 0;
 
     try {
+        ptr->state.price.resize(period);
         ptr->state.filt1.resize(period);
     } catch (std::bad_alloc& e) {
+        delete ptr;
         return TI_OUT_OF_MEMORY;
     }
 
diff --git a/indicators/edcf.cc b/indicators/edcf.cc
index 688a341..30d12f6 100644
--- a/indicators/edcf.cc
+++ b/indicators/edcf.cc
@@ -87,8 +87,12 @@ int ti_edcf_stream_new(TI_REAL const *options, ti_stream **stream) {
 
     if (length < 1) { return TI_INVALID_OPTION; }
 
-    ti_edcf_stream *ptr = new(std::nothrow) ti_edcf_stream();
-    if (!ptr) { return TI_OUT_OF_MEMORY; }
+    ti_edcf_stream *ptr;
+    try {
+        ptr = new ti_edcf_stream();
+    } catch (std::bad_alloc& e) {
+        return TI_OUT_OF_MEMORY;
+    }
     *stream = ptr;
 
     ptr->index = TI_INDICATOR_EDCF_INDEX;
@@ -96,8 +100,13 @@ int ti_edcf_stream_new(TI_REAL const *options, ti_stream **stream) {
 
     ptr->options.length = length;
 
-    ptr->state.coef.resize(2*length);
-    ptr->state.distance2.resize(2*length);
+    try {
+        ptr->state.coef.resize(2*length);
+        ptr->state.distance2.resize(2*length);
+    } catch (std::bad_alloc& e) {
+        delete ptr;
+        return TI_OUT_OF_MEMORY;
+    }
 
     return TI_OKAY;
 }
@@ -106,7 +115,7 @@ void ti_edcf_stream_free(ti_stream *stream) {
     delete static_cast<ti_edcf_stream*>(stream);
 }
 
-int ti_edcf_stream_run(ti_stream *stream, int size, TI_REAL const *const *inputs, TI_REAL *const *outputs) {
+int ti_edcf_stream_run(ti_stream *stream, int size, TI_REAL const *const *inputs, TI_REAL *const *outputs) try {
     ti_edcf_stream *ptr = static_cast<ti_edcf_stream*>(stream);
     TI_REAL const *const series = inputs[0];
     TI_REAL *edcf = outputs[0];
@@ -145,4 +154,6 @@ int ti_edcf_stream_run(ti_stream *stream, int size, TI_REAL const *const *inputs
     ptr->progress = progress;
 
     return TI_OKAY;
+} catch (std::bad_alloc& e) {
+    return TI_OUT_OF_MEMORY;
 }
diff --git a/indicators/emsd.cc b/indicators/emsd.cc
index 1b9cc41..9600e07 100644
--- a/indicators/emsd.cc
+++ b/indicators/emsd.cc
@@ -143,7 +143,12 @@ int ti_emsd_stream_new(TI_REAL const *options, ti_stream **stream) {
     ptr->options.period = period;
     ptr->options.ma_period = ma_period;
 
-    ptr->state.price.resize(period);
+    try {
+        ptr->state.price.resize(period);
+    } catch (std::bad_alloc& e) {
+        delete ptr;
+        return TI_OUT_OF_MEMORY;
+    }
 
     ptr->constants.period_reciprocal = 1. / period;
     ptr->constants.ma_period_plus1_reciprocal = 1. / (ma_period + 1.);
diff --git a/indicators/er.cc b/indicators/er.cc
index 4000814..ba48074 100644
--- a/indicators/er.cc
+++ b/indicators/er.cc
@@ -93,7 +93,12 @@ int ti_er_stream_new(TI_REAL const *options, ti_stream **stream) {
 
     ptr->options.period = period;
 
-    ptr->state.price.resize(period+1);
+    try {
+        ptr->state.price.resize(period+1);
+    } catch (std::bad_alloc& e) {
+        delete ptr;
+        return TI_OUT_OF_MEMORY;
+    }
 
     return TI_OKAY;
 }
diff --git a/indicators/evwma.cc b/indicators/evwma.cc
index d676696..abb83ed 100644
--- a/indicators/evwma.cc
+++ b/indicators/evwma.cc
@@ -119,6 +119,7 @@ int ti_evwma_stream_new(TI_REAL const *options, ti_stream **stream) {
     try {
         ptr->state.volume.resize(period+1);
     } catch (std::bad_alloc& e) {
+        delete ptr;
         return TI_OUT_OF_MEMORY;
     }
 
diff --git a/indicators/frama.cc b/indicators/frama.cc
index 341612d..3773e26 100644
--- a/indicators/frama.cc
+++ b/indicators/frama.cc
@@ -143,8 +143,12 @@ int ti_frama_stream_new(TI_REAL const *options, ti_stream **stream) {
     if (period < 1) { return TI_INVALID_OPTION; }
     if ((int)period % 2 != 0) { return TI_INVALID_OPTION; }
 
-    ti_frama_stream *ptr = new(std::nothrow) ti_frama_stream();
-    if (!ptr) { return TI_OUT_OF_MEMORY; }
+    ti_frama_stream *ptr;
+    try {
+        ptr = new ti_frama_stream();
+    } catch (std::bad_alloc& e) {
+        return TI_OUT_OF_MEMORY;
+    }
     *stream = ptr;
 
     ptr->index = TI_INDICATOR_FRAMA_INDEX;
@@ -162,7 +166,7 @@ void ti_frama_stream_free(ti_stream *stream) {
     delete static_cast<ti_frama_stream*>(stream);
 }
 
-int ti_frama_stream_run(ti_stream *stream, int size, TI_REAL const *const *inputs, TI_REAL *const *outputs) {
+int ti_frama_stream_run(ti_stream *stream, int size, TI_REAL const *const *inputs, TI_REAL *const *outputs) try {
     ti_frama_stream *ptr = static_cast<ti_frama_stream*>(stream);
     TI_REAL const *high = inputs[0];
     TI_REAL const *low = inputs[1];
@@ -326,4 +330,6 @@ int ti_frama_stream_run(ti_stream *stream, int size, TI_REAL const *const *input
     ptr->state.min2_idx = min2_idx;
 
     return TI_OKAY;
+} catch (std::bad_alloc& e) {
+    return TI_OUT_OF_MEMORY;
 }
diff --git a/indicators/hf.cc b/indicators/hf.cc
index 23323dc..877b4f8 100644
--- a/indicators/hf.cc
+++ b/indicators/hf.cc
@@ -134,8 +134,13 @@ int ti_hf_stream_new(TI_REAL const *options, ti_stream **stream) {
     ptr->options.k = k;
     ptr->options.threshold = threshold;
 
-    ptr->state.price.resize(2*k+1);
-    ptr->state.absbuf.resize(2*k+1);
+    try {
+        ptr->state.price.resize(2*k+1);
+        ptr->state.absbuf.resize(2*k+1);
+    } catch (std::bad_alloc& e) {
+        delete ptr;
+        return TI_OUT_OF_MEMORY;
+    }
 
     return TI_OKAY;
 }
@@ -144,7 +149,7 @@ void ti_hf_stream_free(ti_stream *stream) {
     delete static_cast<ti_hf_stream*>(stream);
 }
 
-int ti_hf_stream_run(ti_stream *stream, int size, TI_REAL const *const *inputs, TI_REAL *const *outputs) {
+int ti_hf_stream_run(ti_stream *stream, int size, TI_REAL const *const *inputs, TI_REAL *const *outputs) try {
     ti_hf_stream *ptr = static_cast<ti_hf_stream*>(stream);
     TI_REAL const *const series = inputs[0];
     TI_REAL *hf = outputs[0];
@@ -185,4 +190,6 @@ int ti_hf_stream_run(ti_stream *stream, int size, TI_REAL const *const *inputs,
     ptr->progress = progress;
 
     return TI_OKAY;
+} catch (std::bad_alloc& e) {
+    return TI_OUT_OF_MEMORY;
 }
diff --git a/indicators/hfema.cc b/indicators/hfema.cc
index f76d033..a5b626b 100644
--- a/indicators/hfema.cc
+++ b/indicators/hfema.cc
@@ -159,7 +159,7 @@ int ti_hfema_stream_new(TI_REAL const *options, ti_stream **stream) {
         ptr->state.a.resize(2*k+1);
         ptr->state.price.resize(2*k+1);
     } catch (std::bad_alloc& e) {
-        delete *stream;
+        delete ptr;
         return TI_OUT_OF_MEMORY;
     }
 
@@ -170,7 +170,7 @@ void ti_hfema_stream_free(ti_stream *stream) {
     delete static_cast<ti_hfema_stream*>(stream);
 }
 
-int ti_hfema_stream_run(ti_stream *stream, int size, TI_REAL const *const *inputs, TI_REAL *const *outputs) {
+int ti_hfema_stream_run(ti_stream *stream, int size, TI_REAL const *const *inputs, TI_REAL *const *outputs) try {
     ti_hfema_stream *ptr = static_cast<ti_hfema_stream*>(stream);
     TI_REAL const *const series = inputs[0];
     TI_REAL *hfema = outputs[0];
@@ -216,4 +216,6 @@ int ti_hfema_stream_run(ti_stream *stream, int size, TI_REAL const *const *input
     ptr->state.ema = ema;
 
     return TI_OKAY;
+} catch (std::bad_alloc& e) {
+    return TI_OUT_OF_MEMORY;
 }
diff --git a/indicators/hfsma.cc b/indicators/hfsma.cc
index b27cad0..02aac84 100644
--- a/indicators/hfsma.cc
+++ b/indicators/hfsma.cc
@@ -159,7 +159,7 @@ int ti_hfsma_stream_new(TI_REAL const *options, ti_stream **stream) {
         ptr->state.price.resize(2*k+1);
         ptr->state.smoothed_price.resize(2*k+1);
     } catch (std::bad_alloc& e) {
-        delete *stream;
+        delete ptr;
         return TI_OUT_OF_MEMORY;
     }
 
@@ -170,7 +170,7 @@ void ti_hfsma_stream_free(ti_stream *stream) {
     delete static_cast<ti_hfsma_stream*>(stream);
 }
 
-int ti_hfsma_stream_run(ti_stream *stream, int size, TI_REAL const *const *inputs, TI_REAL *const *outputs) {
+int ti_hfsma_stream_run(ti_stream *stream, int size, TI_REAL const *const *inputs, TI_REAL *const *outputs) try {
     ti_hfsma_stream *ptr = static_cast<ti_hfsma_stream*>(stream);
     const TI_REAL *const series = inputs[0];
     TI_REAL *hfsma = outputs[0];
@@ -222,4 +222,6 @@ int ti_hfsma_stream_run(ti_stream *stream, int size, TI_REAL const *const *input
     ptr->state.sum = sum;
 
     return TI_OKAY;
+} catch (std::bad_alloc& e) {
+    return TI_OUT_OF_MEMORY;
 }
diff --git a/indicators/ichi.cc b/indicators/ichi.cc
index 09f2504..50ddf7b 100644
--- a/indicators/ichi.cc
+++ b/indicators/ichi.cc
@@ -304,7 +304,7 @@ int ti_ichi_stream_new(TI_REAL const *options, ti_stream **stream) {
         ptr->state.price_high.resize(period52);
         ptr->state.price_low.resize(period52);
     } catch (std::bad_alloc& e) {
-        delete *stream;
+        delete ptr;
         return TI_OUT_OF_MEMORY;
     }
 
diff --git a/indicators/idwma.cc b/indicators/idwma.cc
index 4b38afe..032f567 100644
--- a/indicators/idwma.cc
+++ b/indicators/idwma.cc
@@ -110,10 +110,15 @@ int ti_idwma_stream_new(TI_REAL const *options, ti_stream **stream) {
     ptr->options.period = period;
     ptr->options.exponent = exponent;
 
-    ptr->state.price.resize(period);
+    try {
+        ptr->state.price.resize(period);
+        ptr->constants.coefficients.resize(period);
+    } catch (std::bad_alloc& e) {
+        delete ptr;
+        return TI_OUT_OF_MEMORY;
+    }
 
     ptr->constants.denom = 0;
-    ptr->constants.coefficients.resize(period);
 
     for (int i = 0; i < period; ++i) {
         ptr->constants.coefficients[i] = 1 / pow(i+1, exponent);
diff --git a/indicators/kc.cc b/indicators/kc.cc
index b9c1cc1..5cc755a 100644
--- a/indicators/kc.cc
+++ b/indicators/kc.cc
@@ -93,7 +93,7 @@ int ti_kc_stream_new(TI_REAL const *options, ti_stream **stream) {
     if (period < 0) { return TI_INVALID_OPTION; }
     if (multiple < 0) { return TI_INVALID_OPTION; }
 
-    ti_kc_stream *ptr = new ti_kc_stream();
+    ti_kc_stream *ptr = new(std::nothrow) ti_kc_stream();
     if (!ptr) { return TI_OUT_OF_MEMORY; }
     *stream = ptr;
 
diff --git a/indicators/mhlma.cc b/indicators/mhlma.cc
index 4acad5c..a816aad 100644
--- a/indicators/mhlma.cc
+++ b/indicators/mhlma.cc
@@ -195,8 +195,13 @@ int ti_mhlma_stream_new(TI_REAL const *options, ti_stream **stream) {
     ptr->options.period = period;
     ptr->options.ma_period = ma_period;
 
-    ptr->state.mhl.resize(ma_period);
-    ptr->state.price.resize(period);
+    try {
+        ptr->state.mhl.resize(ma_period);
+        ptr->state.price.resize(period);
+    } catch (std::bad_alloc& e) {
+        delete ptr;
+        return TI_OUT_OF_MEMORY;
+    }
 
     return TI_OKAY;
 }
diff --git a/indicators/pbands.cc b/indicators/pbands.cc
index 9571533..74fae50 100644
--- a/indicators/pbands.cc
+++ b/indicators/pbands.cc
@@ -132,7 +132,7 @@ int ti_pbands_stream_new(TI_REAL const *options, ti_stream **stream) {
     const TI_REAL period = options[0];
     if (period < 1) { return TI_INVALID_OPTION; }
 
-    ti_pbands_stream *ptr = new ti_pbands_stream();
+    ti_pbands_stream *ptr = new(std::nothrow) ti_pbands_stream();
     if (!ptr) { return TI_OUT_OF_MEMORY; }
     *stream = ptr;
 
diff --git a/indicators/posc.cc b/indicators/posc.cc
index ce6c559..7718f26 100644
--- a/indicators/posc.cc
+++ b/indicators/posc.cc
@@ -155,7 +155,7 @@ int ti_posc_stream_new(TI_REAL const *options, ti_stream **stream) {
     if (period < 1) { return TI_INVALID_OPTION; }
     if (ema_period < 1) { return TI_INVALID_OPTION; }
 
-    ti_posc_stream *ptr = new ti_posc_stream();
+    ti_posc_stream *ptr = new(std::nothrow) ti_posc_stream();
     if (!ptr) { return TI_OUT_OF_MEMORY; }
     *stream = ptr;
 
diff --git a/indicators/pwma.cc b/indicators/pwma.cc
index e65dded..1f1b333 100644
--- a/indicators/pwma.cc
+++ b/indicators/pwma.cc
@@ -103,6 +103,7 @@ int ti_pwma_stream_new(TI_REAL const *options, ti_stream **stream) {
     try {
         ptr->state.price.resize(period+1);
     } catch (std::bad_alloc& e) {
+        delete ptr;
         return TI_OUT_OF_MEMORY;
     }
 
diff --git a/indicators/rmf.cc b/indicators/rmf.cc
index 17fd5bc..abec530 100644
--- a/indicators/rmf.cc
+++ b/indicators/rmf.cc
@@ -94,8 +94,12 @@ int ti_rmf_stream_new(TI_REAL const *options, ti_stream **stream) {
     if (critical_period < 1) { return TI_INVALID_OPTION; }
     if ((int)median_period % 2 != 1) { return TI_INVALID_OPTION; }
 
-    ti_rmf_stream *ptr = new(std::nothrow) ti_rmf_stream();
-    if (!ptr) { return TI_OUT_OF_MEMORY; }
+    ti_rmf_stream *ptr;
+    try {
+        ptr = new ti_rmf_stream();
+    } catch (std::bad_alloc& e) {
+        return TI_OUT_OF_MEMORY;
+    }
     *stream = ptr;
 
     ptr->index = TI_INDICATOR_RMF_INDEX;
@@ -113,7 +117,7 @@ void ti_rmf_stream_free(ti_stream *stream) {
     delete static_cast<ti_rmf_stream*>(stream);
 }
 
-int ti_rmf_stream_run(ti_stream *stream, int size, TI_REAL const *const *inputs, TI_REAL *const *outputs) {
+int ti_rmf_stream_run(ti_stream *stream, int size, TI_REAL const *const *inputs, TI_REAL *const *outputs) try {
     ti_rmf_stream *ptr = static_cast<ti_rmf_stream*>(stream);
     TI_REAL const *const series = inputs[0];
     TI_REAL *rmf = outputs[0];
@@ -153,4 +157,6 @@ int ti_rmf_stream_run(ti_stream *stream, int size, TI_REAL const *const *inputs,
     ptr->state.rmf_val = rmf_val;
 
     return TI_OKAY;
+} catch (std::bad_alloc& e) {
+    return TI_OUT_OF_MEMORY;
 }
diff --git a/indicators/rmi.cc b/indicators/rmi.cc
index 33c4671..e4a6c3d 100644
--- a/indicators/rmi.cc
+++ b/indicators/rmi.cc
@@ -120,6 +120,7 @@ int ti_rmi_stream_new(TI_REAL const *options, ti_stream **stream) {
     try {
         ptr->state.price.resize(lookback_period + 1);
     } catch (std::bad_alloc& e) {
+        delete ptr;
         return TI_OUT_OF_MEMORY;
     }
 
diff --git a/indicators/rvi.cc b/indicators/rvi.cc
index 3e745b5..d8fa70d 100644
--- a/indicators/rvi.cc
+++ b/indicators/rvi.cc
@@ -91,7 +91,7 @@ int ti_rvi_stream_new(TI_REAL const *options, ti_stream **stream) {
     if (ema_period < 1) { return TI_INVALID_OPTION; }
     if (stddev_period < 1) { return TI_INVALID_OPTION; }
 
-    ti_rvi_stream *ptr = new ti_rvi_stream();
+    ti_rvi_stream *ptr = new(std::nothrow) ti_rvi_stream();
     if (!ptr) { return TI_OUT_OF_MEMORY; }
     *stream = ptr;
 
diff --git a/indicators/shmma.cc b/indicators/shmma.cc
index cc721de..973e720 100644
--- a/indicators/shmma.cc
+++ b/indicators/shmma.cc
@@ -101,7 +101,12 @@ int ti_shmma_stream_new(TI_REAL const *options, ti_stream **stream) {
 
     ptr->options.period = period;
 
-    ptr->state.price.resize(period);
+    try {
+        ptr->state.price.resize(period);
+    } catch (std::bad_alloc& e) {
+        delete ptr;
+        return TI_OUT_OF_MEMORY;
+    }
 
     return TI_OKAY;
 }
diff --git a/indicators/smi.cc b/indicators/smi.cc
index 8f65e5b..c40670a 100644
--- a/indicators/smi.cc
+++ b/indicators/smi.cc
@@ -196,7 +196,7 @@ int ti_smi_stream_new(TI_REAL const *options, ti_stream **stream) {
 
     for (int i = 0; i < 3; ++i) { if (options[i] < 1) { return TI_INVALID_OPTION; } }
 
-    ti_smi_stream *ptr = new ti_smi_stream;
+    ti_smi_stream *ptr = new(std::nothrow) ti_smi_stream;
     if (!ptr) { return TI_OUT_OF_MEMORY; }
     *stream = ptr;
 
diff --git a/indicators/swma.cc b/indicators/swma.cc
index 2880cbb..d9d0e7a 100644
--- a/indicators/swma.cc
+++ b/indicators/swma.cc
@@ -115,6 +115,7 @@ int ti_swma_stream_new(TI_REAL const *options, ti_stream **stream) {
     try {
         ptr->state.price.resize(period);
     } catch (std::bad_alloc& e) {
+        delete ptr;
         return TI_OUT_OF_MEMORY;
     }
 
diff --git a/indicators/vi.cc b/indicators/vi.cc
index 9f2133d..629f8ab 100644
--- a/indicators/vi.cc
+++ b/indicators/vi.cc
@@ -127,8 +127,12 @@ int ti_vi_stream_new(TI_REAL const *options, ti_stream **stream) {
 
     if (period < 1) return TI_INVALID_OPTION;
 
-    ti_vi_stream *ptr = new(std::nothrow) ti_vi_stream();
-    if (!ptr) { return TI_OUT_OF_MEMORY; }
+    ti_vi_stream *ptr;
+    try {
+        ptr = new ti_vi_stream();
+    } catch (std::bad_alloc& e) {
+        return TI_OUT_OF_MEMORY;
+    }
     *stream = ptr;
 
     ptr->index = TI_INDICATOR_VI_INDEX;
@@ -143,7 +147,7 @@ void ti_vi_stream_free(ti_stream *stream) {
     delete static_cast<ti_vi_stream*>(stream);
 }
 
-int ti_vi_stream_run(ti_stream *stream, int size, TI_REAL const *const *inputs, TI_REAL *const *outputs) {
+int ti_vi_stream_run(ti_stream *stream, int size, TI_REAL const *const *inputs, TI_REAL *const *outputs) try {
     ti_vi_stream *ptr = static_cast<ti_vi_stream*>(stream);
     TI_REAL const *const high = inputs[0];
     TI_REAL const *const low = inputs[1];
@@ -218,5 +222,7 @@ int ti_vi_stream_run(ti_stream *stream, int size, TI_REAL const *const *inputs,
     ptr->state.last_TR_period = last_TR_period;
 
     return TI_OKAY;
+} catch (std::bad_alloc& e) {
+    return TI_OUT_OF_MEMORY;
 }
 
-- 
2.43.0


From 63eed3ce4cce2b7f64b51121a89514868aa20be3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:48 +0000
Subject: [PATCH 04/15] fix: cmi, ce, mhlma and smi emit their first output
 when the period is 1

---
 indicators/ce.cc    | 10 ++++++++++
 indicators/cmi.cc   | 12 +++++++++++-
 indicators/mhlma.cc | 14 ++++++++++++++
 indicators/smi.cc   |  7 +++++++
 4 files changed, 42 insertions(+), 1 deletion(-)

diff --git a/indicators/ce.cc b/indicators/ce.cc
index 0d9eecc..1a77537 100644
--- a/indicators/ce.cc
+++ b/indicators/ce.cc
@@ -50,6 +50,11 @@ int ti_ce(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_REA
         min = low[i];
         max_idx = 0;
         min_idx = 0;
+
+        if (i == period-1) {
+            *ce_high++ = max - coef * atr;
+            *ce_low++ = min + coef * atr;
+        }
     }
     for (; i < period-1 && i < size; ++i) {
         const TI_REAL truerange = std::max(high[i], close[i-1]) - std::min(low[i], close[i-1]);
@@ -243,6 +248,11 @@ int ti_ce_stream_run(ti_stream *stream, int size, TI_REAL const *const *inputs,
         max_idx = progress;
         min_idx = progress;
 
+        if (progress == 0) {
+            *ce_high++ = max - coef * atr;
+            *ce_low++ = min + coef * atr;
+        }
+
         prev_close = close[i];
     }
     for (i; progress < 0 && i < size; ++i, ++progress, step(price_high, price_low)) {
diff --git a/indicators/cmi.cc b/indicators/cmi.cc
index 3db4e34..6cdb73b 100644
--- a/indicators/cmi.cc
+++ b/indicators/cmi.cc
@@ -44,6 +44,11 @@ int ti_cmi(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_RE
         ll = tr;
         hh_idx = 0;
         ll_idx = 0;
+
+        if (i == period-1) {
+            *cmi++ = log((hh - ll) / sum) / log(period) * 100;
+            sum -= tr[period-1];
+        }
     }
     for (; i < period-1 && i < size; ++i, step(tr)) {
         tr = std::max(high[i], close[i-1]) - std::min(low[i], close[i-1]);
@@ -163,7 +168,7 @@ int ti_cmi_stream_new(TI_REAL const *options, ti_stream **stream) {
 }
 
 void ti_cmi_stream_free(ti_stream *stream) {
-    delete stream;
+    delete static_cast<ti_cmi_stream*>(stream);
 }
 
 int ti_cmi_stream_run(ti_stream *stream, int size, TI_REAL const *const *inputs, TI_REAL *const *outputs) {
@@ -193,6 +198,11 @@ int ti_cmi_stream_run(ti_stream *stream, int size, TI_REAL const *const *inputs,
         ll = tr;
         hh_idx = progress;
         ll_idx = progress;
+
+        if (progress == 0) {
+            *cmi++ = log((hh - ll) / sum) / log(period) * 100;
+            sum -= tr[period-1];
+        }
     }
     for (; progress < 0 && i < size; ++i, ++progress, step(tr, price_close)) {
         price_close = close[i];
diff --git a/indicators/mhlma.cc b/indicators/mhlma.cc
index a816aad..78fd45b 100644
--- a/indicators/mhlma.cc
+++ b/indicators/mhlma.cc
@@ -49,6 +49,13 @@ int ti_mhlma(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_
 
         sum += mhl;
         ema = mhl;
+
+        if (i == ma_period-1) {
+            *mhlsma++ = sum / ma_period;
+            *mhlema++ = ema;
+
+            sum -= mhl[ma_period-1];
+        }
     }
     for (; i < period && i < ma_period-1 && i < size; ++i, step(mhl)) {
         if (hh <= series[i]) {
@@ -241,6 +248,13 @@ int ti_mhlma_stream_run(ti_stream *stream, int size, TI_REAL const *const *input
 
         sum += mhl;
         ema = mhl;
+
+        if (progress == 0) {
+            *mhlsma++ = sum / ma_period;
+            *mhlema++ = ema;
+
+            sum -= mhl[ma_period-1];
+        }
     }
     for (; progress < -ma_period+1 + period && progress < 0 && i < size; ++i, ++progress, step(mhl, price)) {
         price = series[i];
diff --git a/indicators/smi.cc b/indicators/smi.cc
index c40670a..33008f7 100644
--- a/indicators/smi.cc
+++ b/indicators/smi.cc
@@ -48,6 +48,13 @@ int ti_smi(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_RE
         hh_idx = progress;
         ll = low[i];
         ll_idx = progress;
+
+        if (progress == 0) {
+            ema_r_num = ema_s_num = close[i] - 0.5 * (hh + ll);
+            ema_r_den = ema_s_den = hh - ll;
+
+            *smi++ = ema_s_den ? 100 * ema_s_num / (0.5 * ema_s_den) : 0;
+        }
     }
     for (; i < size && progress < 0; ++i, ++progress) {
         if (hh <= high[i]) {
-- 
2.43.0


From 2f33af7745e270f91166dc64e0d54f808e60cbdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:48 +0000
Subject: [PATCH 05/15] fix: pvt keeps its running total across zero volume, in
 batch and in stream alike

---
 indicators/pvt.cc | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/indicators/pvt.cc b/indicators/pvt.cc
index cd78758..a2f5019 100644
--- a/indicators/pvt.cc
+++ b/indicators/pvt.cc
@@ -24,10 +24,10 @@ int ti_pvt(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_RE
 
     int i = 1;
     for (; i < 2 && i < size; ++i) {
-        *pvt++ = volume[i] && volume[i-1] ? volume[i] * (close[i] - close[i-1]) / close[i-1] + volume[i-1] : 0;
+        *pvt++ = volume[i] * (close[i] - close[i-1]) / close[i-1] + volume[i-1];
     }
     for (; i < size; i++) {
-        *pvt = volume[i] && volume[i-1] ? *(pvt - 1) + volume[i] * (close[i] - close[i-1]) / close[i-1] : 0;
+        *pvt = *(pvt - 1) + volume[i] * (close[i] - close[i-1]) / close[i-1];
         pvt++;
     }
 
@@ -94,7 +94,7 @@ int ti_pvt_stream_run(ti_stream *stream, int size, TI_REAL const *const *inputs,
     } 
  
     if (progress == 0 && index < size) {
-        last_pvt = volume[index] && starting ? volume[index] * (close[index] - last_close) / last_close + starting : 0;
+        last_pvt = volume[index] * (close[index] - last_close) / last_close + starting;
         last_close = close[index];
 
         *pvt++ = last_pvt;
@@ -104,7 +104,7 @@ int ti_pvt_stream_run(ti_stream *stream, int size, TI_REAL const *const *inputs,
     }
 
     for (; index < size; index++) {
-        last_pvt += volume[index] && last_pvt ? volume[index] * (close[index] - last_close) / last_close : 0;
+        last_pvt += volume[index] * (close[index] - last_close) / last_close;
         last_close = close[index];
 
         *pvt++ = last_pvt;
-- 
2.43.0


From 9a9fca70ebc3577265d9b438a17193eb71d027be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:49 +0000
Subject: [PATCH 06/15] fix: hfsma stream sizes its price ring by sma_period,
 which indexes it

---
 indicators/hfsma.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/indicators/hfsma.cc b/indicators/hfsma.cc
index 02aac84..d2256e8 100644
--- a/indicators/hfsma.cc
+++ b/indicators/hfsma.cc
@@ -156,7 +156,7 @@ int ti_hfsma_stream_new(TI_REAL const *options, ti_stream **stream) {
 
     try {
         ptr->state.a.resize(2*k+1);
-        ptr->state.price.resize(2*k+1);
+        ptr->state.price.resize(sma_period);
         ptr->state.smoothed_price.resize(2*k+1);
     } catch (std::bad_alloc& e) {
         delete ptr;
-- 
2.43.0


From f3f7f8a3d2aff242a6a859aa5bac36748ca96e21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:49 +0000
Subject: [PATCH 07/15] fix: vi, gf4, kst and vidya accept a series no longer
 than their warm-up

---
 indicators/gf4.cc   | 2 +-
 indicators/kst.cc   | 2 ++
 indicators/vi.cc    | 3 ++-
 indicators/vidya.cc | 2 +-
 4 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/indicators/gf4.cc b/indicators/gf4.cc
index 0260cb5..cc7ee4f 100644
--- a/indicators/gf4.cc
+++ b/indicators/gf4.cc
@@ -51,7 +51,7 @@ int ti_gf4(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_RE
     TI_REAL csum_reciproc = 1./(B0 + A1 + A2 + A3 + A4);
 
     int i = 0;
-    for (; i < 5; ++i, step(f)) {
+    for (; i < 5 && i < size; ++i, step(f)) {
         f = series[i];
         *gf4++ = f;
     }
diff --git a/indicators/kst.cc b/indicators/kst.cc
index 9f6560a..5d1bdf4 100755
--- a/indicators/kst.cc
+++ b/indicators/kst.cc
@@ -55,6 +55,8 @@ int ti_kst(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_RE
         }
     }
 
+    if (size <= ti_kst_start(options)) { return TI_OKAY; }
+
     TI_REAL max_ma;
     MAX4(max_ma, ma1, ma2, ma3, ma4);
 
diff --git a/indicators/vi.cc b/indicators/vi.cc
index 629f8ab..800cf45 100644
--- a/indicators/vi.cc
+++ b/indicators/vi.cc
@@ -26,7 +26,8 @@ int ti_vi(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_REA
     TI_REAL *vi_p = outputs[0];
     TI_REAL *vi_m = outputs[1];
 
-    if (period < 1 || period >= size) return TI_INVALID_OPTION;
+    if (period < 1) return TI_INVALID_OPTION;
+    if (size <= ti_vi_start(options)) return TI_OKAY;
 
     TI_REAL last_vm_p_period = 0;
     TI_REAL last_vm_m_period = 0;
diff --git a/indicators/vidya.cc b/indicators/vidya.cc
index 4c89e29..7dfb104 100644
--- a/indicators/vidya.cc
+++ b/indicators/vidya.cc
@@ -40,7 +40,7 @@ int ti_vidya(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_
     TI_REAL long_sum2 = 0;
 
     int i;
-    for (i = 0; i < long_period; ++i) {
+    for (i = 0; i < long_period && i < size; ++i) {
         long_sum += input[i];
         long_sum2 += input[i] * input[i];
 
-- 
2.43.0


From 73a0acdc6be9af872e170cc7f01e17469dfccac5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:49 +0000
Subject: [PATCH 08/15] fix: cvi, dpo and hma stay within their buffers for the
 smallest periods

---
 indicators/cvi.cc | 1 +
 indicators/dpo.cc | 6 ++++--
 indicators/hma.cc | 2 +-
 3 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/indicators/cvi.cc b/indicators/cvi.cc
index 54b7c78..1133716 100644
--- a/indicators/cvi.cc
+++ b/indicators/cvi.cc
@@ -32,6 +32,7 @@ int ti_cvi(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_RE
     if (!lag) { return TI_OUT_OF_MEMORY; }
 
     TI_REAL val = high[0]-low[0];
+    ti_buffer_qpush(lag, val);
 
     int i;
     for (i = 1; i < period*2-1; ++i) {
diff --git a/indicators/dpo.cc b/indicators/dpo.cc
index abc51f2..5dde140 100644
--- a/indicators/dpo.cc
+++ b/indicators/dpo.cc
@@ -9,7 +9,9 @@
 
 
 int ti_dpo_start(TI_REAL const *options) {
-    return (int)options[0]-1;
+    const int period = (int)options[0];
+    const int back = period / 2 + 1;
+    return period-1 > back ? period-1 : back; /* Periods 1 and 2 look back further than their average. */
 }
 
 
@@ -32,7 +34,7 @@ int ti_dpo(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_RE
         sum += input[i];
     }
 
-    *output++ = input[period-1-back] - (sum * scale);
+    if (period-1 >= back) { *output++ = input[period-1-back] - (sum * scale); }
 
     for (i = period; i < size; ++i) {
         sum += input[i];
diff --git a/indicators/hma.cc b/indicators/hma.cc
index 0a3f6cb..6393dd3 100644
--- a/indicators/hma.cc
+++ b/indicators/hma.cc
@@ -29,7 +29,7 @@ int ti_hma(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_RE
     /* HMA(input, N) = WMA((2 * WMA(input, N/2) - WMA(input, N)), sqrt(N)) */
     /* Need to do three WMAs, with periods N, N/2, and sqrt N.*/
 
-    const int period2 = (int)(period / 2);
+    const int period2 = period > 1 ? period / 2 : 1;
     const int periodsqrt = (int)(sqrt(period));
 
     const TI_REAL weights = period * (period+1) / 2;
-- 
2.43.0


From 3c006f3077d6e1db24baa06f27c751f3ea2761f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:04 +0000
Subject: [PATCH 09/15] fix: order NaNs consistently in the median filters'
 multisets, so the oldest value is always found

---
 indicators/hf.cc    | 13 +++++++------
 indicators/hfema.cc |  9 +++++----
 indicators/hfsma.cc | 11 ++++++-----
 indicators/rmf.cc   |  5 +++--
 utils/nanorder.hh   | 17 +++++++++++++++++
 5 files changed, 38 insertions(+), 17 deletions(-)
 create mode 100644 utils/nanorder.hh

diff --git a/indicators/hf.cc b/indicators/hf.cc
index 877b4f8..17489c1 100644
--- a/indicators/hf.cc
+++ b/indicators/hf.cc
@@ -10,6 +10,7 @@
 #include <set>
 
 #include "../indicators.h"
+#include "../utils/nanorder.hh"
 #include "../utils/log.h"
 #include "../utils/minmax.h"
 #include "../utils/ringbuf.hh"
@@ -30,7 +31,7 @@ int ti_hf(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_REA
     if (k < 1) { return TI_INVALID_OPTION; }
     if (threshold < 0) { return TI_INVALID_OPTION; }
 
-    std::multiset<TI_REAL> rankedprice;
+    std::multiset<TI_REAL, ti_nan_last> rankedprice;
     std::vector<TI_REAL> a(2*k+1);
 
     int i = 0;
@@ -48,7 +49,7 @@ int ti_hf(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_REA
             ++j;
         }
 
-        std::nth_element(a.begin(), a.begin()+k, a.end());
+        std::nth_element(a.begin(), a.begin()+k, a.end(), ti_nan_last());
         TI_REAL median_deviation = a[k];
 
         TI_REAL candidate = series[i];
@@ -71,7 +72,7 @@ DONTOPTIMIZE int ti_hf_ref(int size, TI_REAL const *const *inputs, TI_REAL const
     if (k < 1) { return TI_INVALID_OPTION; }
     if (threshold < 0) { return TI_INVALID_OPTION; }
 
-    std::multiset<TI_REAL> rankedprice;
+    std::multiset<TI_REAL, ti_nan_last> rankedprice;
 
     int i = 0;
     for (; i < 2*k && i < size; ++i) {
@@ -87,7 +88,7 @@ DONTOPTIMIZE int ti_hf_ref(int size, TI_REAL const *const *inputs, TI_REAL const
             a.push_back(fabs(price - median_price));
         }
 
-        std::nth_element(a.begin(), a.begin()+k, a.end());
+        std::nth_element(a.begin(), a.begin()+k, a.end(), ti_nan_last());
         TI_REAL median_deviation = a[k];
 
         TI_REAL candidate = series[i];
@@ -108,7 +109,7 @@ struct ti_hf_stream : ti_stream {
 
     struct {
         ringbuf<0> price;
-        std::multiset<TI_REAL> rankedprice;
+        std::multiset<TI_REAL, ti_nan_last> rankedprice;
         std::vector<TI_REAL> absbuf;
     } state;
 
@@ -178,7 +179,7 @@ int ti_hf_stream_run(ti_stream *stream, int size, TI_REAL const *const *inputs,
             ++j;
         }
 
-        std::nth_element(absbuf.begin(), absbuf.begin()+k, absbuf.end());
+        std::nth_element(absbuf.begin(), absbuf.begin()+k, absbuf.end(), ti_nan_last());
         TI_REAL median_deviation = absbuf[k];
 
         TI_REAL candidate = series[i];
diff --git a/indicators/hfema.cc b/indicators/hfema.cc
index a5b626b..986a088 100644
--- a/indicators/hfema.cc
+++ b/indicators/hfema.cc
@@ -10,6 +10,7 @@
 #include <algorithm>
 
 #include "../indicators.h"
+#include "../utils/nanorder.hh"
 #include "../utils/ringbuf.hh"
 #include "../utils/log.h"
 
@@ -33,7 +34,7 @@ int ti_hfema(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_
     if (threshold < 0) { return TI_INVALID_OPTION; }
 
     TI_REAL ema;
-    std::multiset<TI_REAL> rankedprice;
+    std::multiset<TI_REAL, ti_nan_last> rankedprice;
     ringbuf<0> price(2*k+1);
     std::vector<TI_REAL> a(2*k+1);
 
@@ -59,7 +60,7 @@ int ti_hfema(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_
         for (auto it = rankedprice.begin(); it != rankedprice.end(); ++it, ++j) {
             a[j] = fabs(*it - median_price);
         }
-        std::nth_element(a.begin(), a.begin()+k, a.end());
+        std::nth_element(a.begin(), a.begin()+k, a.end(), ti_nan_last());
         TI_REAL median_deviation = a[k];
         TI_REAL candidate = price[k];
         *hfema++ = fabs(candidate - median_price) <= threshold * 1.4826 * median_deviation ? candidate : median_price;
@@ -126,7 +127,7 @@ struct ti_hfema_stream : ti_stream {
     struct {
         TI_REAL ema;
         ringbuf<0> price;
-        std::multiset<TI_REAL> rankedprice;
+        std::multiset<TI_REAL, ti_nan_last> rankedprice;
         std::vector<TI_REAL> a;
     } state;
 
@@ -204,7 +205,7 @@ int ti_hfema_stream_run(ti_stream *stream, int size, TI_REAL const *const *input
         for (auto it = rankedprice.begin(); it != rankedprice.end(); ++it, ++j) {
             a[j] = fabs(*it - median_price);
         }
-        std::nth_element(a.begin(), a.begin()+k, a.end());
+        std::nth_element(a.begin(), a.begin()+k, a.end(), ti_nan_last());
         TI_REAL median_deviation = a[k];
         TI_REAL candidate = price[k];
         *hfema++ = fabs(candidate - median_price) <= threshold * 1.4826 * median_deviation ? candidate : median_price;
diff --git a/indicators/hfsma.cc b/indicators/hfsma.cc
index d2256e8..b1ea00f 100644
--- a/indicators/hfsma.cc
+++ b/indicators/hfsma.cc
@@ -11,6 +11,7 @@
 #include <new>
 
 #include "../indicators.h"
+#include "../utils/nanorder.hh"
 #include "../utils/ringbuf.hh"
 
 int ti_hfsma_start(TI_REAL const *options) {
@@ -33,7 +34,7 @@ int ti_hfsma(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_
     if (threshold < 0) { return TI_INVALID_OPTION; }
 
     TI_REAL sum = 0.;
-    std::multiset<TI_REAL> rankedprice;
+    std::multiset<TI_REAL, ti_nan_last> rankedprice;
     ringbuf<0> smoothed_price(2*k+1);
     std::vector<TI_REAL> a(2*k+1);
 
@@ -58,7 +59,7 @@ int ti_hfsma(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_
         for (auto it = rankedprice.begin(); it != rankedprice.end(); ++it, ++j) {
             a[j] = fabs(*it - median_price);
         }
-        std::nth_element(a.begin(), a.begin()+k, a.end());
+        std::nth_element(a.begin(), a.begin()+k, a.end(), ti_nan_last());
         TI_REAL median_deviation = a[k];
         TI_REAL candidate = smoothed_price[k];
         *hfsma++ = fabs(candidate - median_price) <= threshold * 1.4826 * median_deviation ? candidate : median_price;
@@ -121,7 +122,7 @@ struct ti_hfsma_stream : ti_stream {
 
     struct {
         TI_REAL sum;
-        std::multiset<TI_REAL> rankedprice;
+        std::multiset<TI_REAL, ti_nan_last> rankedprice;
         ringbuf<0> price;
         ringbuf<0> smoothed_price;
         std::vector<TI_REAL> a;
@@ -180,7 +181,7 @@ int ti_hfsma_stream_run(ti_stream *stream, int size, TI_REAL const *const *input
     TI_REAL threshold = ptr->options.threshold;
 
     TI_REAL sum = ptr->state.sum;
-    std::multiset<TI_REAL> &rankedprice = ptr->state.rankedprice;
+    std::multiset<TI_REAL, ti_nan_last> &rankedprice = ptr->state.rankedprice;
     auto &price = ptr->state.price;
     auto &smoothed_price = ptr->state.smoothed_price;
     auto &a = ptr->state.a;
@@ -209,7 +210,7 @@ int ti_hfsma_stream_run(ti_stream *stream, int size, TI_REAL const *const *input
         for (auto it = rankedprice.begin(); it != rankedprice.end(); ++it, ++j) {
             a[j] = fabs(*it - median_price);
         }
-        std::nth_element(a.begin(), a.begin()+k, a.end());
+        std::nth_element(a.begin(), a.begin()+k, a.end(), ti_nan_last());
         TI_REAL median_deviation = a[k];
         TI_REAL candidate = smoothed_price[k];
         *hfsma++ = fabs(candidate - median_price) <= threshold * 1.4826 * median_deviation ? candidate : median_price;
diff --git a/indicators/rmf.cc b/indicators/rmf.cc
index abec530..d63b302 100644
--- a/indicators/rmf.cc
+++ b/indicators/rmf.cc
@@ -10,6 +10,7 @@
 #include <set>
 
 #include "../indicators.h"
+#include "../utils/nanorder.hh"
 #include "../utils/localbuffer.h"
 #include "../utils/log.h"
 
@@ -33,7 +34,7 @@ int ti_rmf(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_RE
     if ((int)median_period % 2 != 1) { return TI_INVALID_OPTION; }
 
     TI_REAL rmf_val;
-    std::multiset<TI_REAL> rankedprice;
+    std::multiset<TI_REAL, ti_nan_last> rankedprice;
     std::deque<TI_REAL> price;
 
     TI_REAL alpha = (cos(2*PI/critical_period) + sin(2*PI/critical_period) - 1.) / cos(2*PI/critical_period);
@@ -77,7 +78,7 @@ struct ti_rmf_stream : ti_stream {
 
     struct {
         TI_REAL rmf_val;
-        std::multiset<TI_REAL> rankedprice;
+        std::multiset<TI_REAL, ti_nan_last> rankedprice;
         std::deque<TI_REAL> price;
     } state;
 
diff --git a/utils/nanorder.hh b/utils/nanorder.hh
new file mode 100644
index 0000000..e794f90
--- /dev/null
+++ b/utils/nanorder.hh
@@ -0,0 +1,17 @@
+/*
+ * This file is part of tindicators, licensed under GNU LGPL v3.
+ */
+
+
+#pragma once
+
+#include "../indicators.h"
+
+/* A total order on TI_REAL with NaNs last. With a plain `<' a NaN is equivalent
+ * to every number, which is not a strict weak order: what was inserted into a
+ * multiset may then not be found again. */
+struct ti_nan_last {
+    bool operator()(TI_REAL a, TI_REAL b) const {
+        return a < b || (b != b && a == a);
+    }
+};
-- 
2.43.0


From 5d4c77b787fd588b71aa10f86c9179e08a704b0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:42:43 +0000
Subject: [PATCH 10/15] fix: Python calls accept a series no longer than the
 warm-up

---
 bindings/python/tindicators/impl.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bindings/python/tindicators/impl.py b/bindings/python/tindicators/impl.py
index c3d2c57..d427294 100644
--- a/bindings/python/tindicators/impl.py
+++ b/bindings/python/tindicators/impl.py
@@ -104,7 +104,7 @@ class _Indicator:
 
         insize = len(inputs_lst[0])
         start_amount = self.__start(options)
-        outsize = insize - start_amount
+        outsize = max(insize - start_amount, 0)  # nothing is output during the warm-up
 
         inputs = (POINTER(c_double * insize) * len(self.info.inputs))()  # double *inputs[]
         for idx in range(len(self.info.inputs)):
@@ -133,7 +133,7 @@ class _Indicator:
 
         if pad:
             for idx in range(len(outputs_lst)):
-                outputs_lst[idx] = self.pad(outputs_lst[idx], start_amount)
+                outputs_lst[idx] = self.pad(outputs_lst[idx], insize - outsize)
 
         result = ret_t(*outputs_lst)
         return result if len(self.info.outputs) > 1 else result[0]
-- 
2.43.0


From f2f0a8f5ad77d4df39bd1916f19a426ab4ffbee1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:42:43 +0000
Subject: [PATCH 11/15] fix: codegen.py puts implementation files in place in
 one step, so that an interrupted run can be repeated

---
 codegen.py | 42 +++++++++++++++++++++++++++---------------
 1 file changed, 27 insertions(+), 15 deletions(-)

diff --git a/codegen.py b/codegen.py
index 39efcd4..5272b60 100644
--- a/codegen.py
+++ b/codegen.py
@@ -5,6 +5,7 @@
 
 import yaml
 import os.path
+import shutil
 import time
 from version import version
 import argparse
@@ -22,6 +23,18 @@ path_prefix = os.path.join(os.path.dirname(os.path.realpath(__file__)), '')
 indicators = yaml.safe_load(open(path_prefix+'indicators.yaml', encoding='utf8'))
 
 
+def put_file(path, contents, append_to=None):
+    # in one step: if the generation is interrupted, the next run finds either the old file or the complete new one
+    tmp_path = path_prefix+'codegen.tmp'
+    if append_to is not None:
+        shutil.copy(append_to, tmp_path)
+    with open(tmp_path, 'w' if append_to is None else 'a') as f:
+        f.write(contents)
+        f.flush()
+        os.fsync(f.fileno())
+    os.replace(tmp_path, path)
+
+
 def declaration_start(name):
     return f'int ti_{name}_start(TI_REAL const *options)'
 def declaration_plain(name):
@@ -359,12 +372,12 @@ for indicator in indicators.items():
     ]
 
     path = file_path_c if args.old else file_path_cc
+    tbd = []
     if not os.path.exists(file_path_c) and not os.path.exists(file_path_cc):
-        with open(path, 'w') as f:
-            print(f'codegen.py: indicators/{os.path.basename(path)}')
-            parts = includes + base + (ref if 'ref' in features else []) + (stream if 'stream' in features else [])
-            f.write('\n'.join(parts))
-            os.system(f'git add -N {path}')
+        print(f'codegen.py: indicators/{os.path.basename(path)}')
+        parts = includes + base + (ref if 'ref' in features else []) + (stream if 'stream' in features else [])
+        put_file(path, '\n'.join(parts))
+        os.system(f'git add -N {path}')
     else:
         if os.path.exists(file_path_c):
             with open(file_path_c) as f:
@@ -383,9 +396,8 @@ for indicator in indicators.items():
     if tbd:
         if os.path.exists(file_path_c) and not args.old:
             print(f'codegen.py: renaming indicators/{os.path.basename(file_path_c)} -> indicators/{os.path.basename(path)}')
-            os.system(f'git mv "{file_path_c}" "{path}"')
-            
-            with open(path, 'r') as f:
+
+            with open(file_path_c, 'r') as f:
                 lines = f.readlines()
 
             found_first_include = False
@@ -411,12 +423,12 @@ for indicator in indicators.items():
                     first_part += [head_file]
             lines = first_part + second_part
 
-            with open(path, 'w') as f:
-                f.writelines(lines)              
- 
-        with open(path, 'r') as f:
-            lines = f.readlines()
-        with open(path, 'a') as f:
             print(f'codegen.py: adding{" ref" if should_add_ref else ""}{" stream" if should_add_stream else ""} to indicators/{os.path.basename(path)}')
-            f.write('\n'.join(['']+tbd))
+            put_file(path, ''.join(lines) + '\n'.join(['']+tbd))
+            os.remove(file_path_c)
+            os.system(f'git rm -q --cached --ignore-unmatch "{file_path_c}"')
+            os.system(f'git add "{path}"')
+        else:
+            print(f'codegen.py: adding{" ref" if should_add_ref else ""}{" stream" if should_add_stream else ""} to indicators/{os.path.basename(path)}')
+            put_file(path, '\n'.join(['']+tbd), append_to=path)
             os.system(f'git add {path}')
-- 
2.43.0


From eca79116fe69106608aa9884d13d044fcfc3f365 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:59:17 +0000
Subject: [PATCH 12/15] fix: zlema and mesastoch stay within their buffers for
 the smallest periods

---
 indicators/mesastoch.cc | 8 ++++----
 indicators/zlema.cc     | 9 +++++----
 2 files changed, 9 insertions(+), 8 deletions(-)

diff --git a/indicators/mesastoch.cc b/indicators/mesastoch.cc
index 2c3ce5d..261164f 100644
--- a/indicators/mesastoch.cc
+++ b/indicators/mesastoch.cc
@@ -40,7 +40,7 @@ int ti_mesastoch(int size, TI_REAL const *const *inputs, TI_REAL const *options,
     int highestC_idx;
     int lowestC_idx;
 
-    ringbuf<0> filt(period);
+    ringbuf<0> filt(std::max(period, 2)); // filt[2] is read below
     ringbuf<3> HP;
     ringbuf<2> stoc;
     ringbuf<3> result;
@@ -77,7 +77,7 @@ int ti_mesastoch(int size, TI_REAL const *const *inputs, TI_REAL const *options,
             highestC_idx = i;
             highestC = filt;
         } else if (highestC_idx == i - period) {
-            TI_REAL* it = std::max_element(filt.phbegin(), filt.phend());
+            TI_REAL* it = filt.find_max(period);
             highestC = *it;
             highestC_idx = i - filt.iterator_to_age(it);
         }
@@ -85,7 +85,7 @@ int ti_mesastoch(int size, TI_REAL const *const *inputs, TI_REAL const *options,
             lowestC_idx = i;
             lowestC = filt;
         } else if (lowestC_idx == i - period) {
-            TI_REAL* it = std::min_element(filt.phbegin(), filt.phend());
+            TI_REAL* it = filt.find_min(period);
             lowestC = *it;
             lowestC_idx = i - filt.iterator_to_age(it);
         }
@@ -225,7 +225,7 @@ int ti_mesastoch_stream_new(TI_REAL const *options, ti_stream **stream) {
     ptr->constants.c1 = 1 - (ptr->constants.c2) - (ptr->constants.c3);
 
     try {
-        ptr->store.filt.resize(period);
+        ptr->store.filt.resize(std::max(period, 2));
     } catch (std::bad_alloc& e) {
         delete ptr;
         return TI_OUT_OF_MEMORY;
diff --git a/indicators/zlema.cc b/indicators/zlema.cc
index e1926b7..69ff6db 100644
--- a/indicators/zlema.cc
+++ b/indicators/zlema.cc
@@ -9,7 +9,8 @@
 
 
 int ti_zlema_start(TI_REAL const *options) {
-    return ((int)options[0] - 1) / 2 - 1;
+    const int lag = ((int)options[0] - 1) / 2;
+    return lag > 0 ? lag - 1 : 0;
 }
 
 
@@ -26,11 +27,11 @@ int ti_zlema(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_
 
     const TI_REAL per = 2 / ((TI_REAL)period + 1);
 
-    TI_REAL val = input[lag-1];
+    int i = ti_zlema_start(options);
+    TI_REAL val = input[i];
     *output++ = val;
 
-    int i;
-    for (i = lag; i < size; ++i) {
+    for (++i; i < size; ++i) {
         TI_REAL c = input[i];
         TI_REAL l = input[i-lag];
 
-- 
2.43.0


From 5c68ee868bca9631a68f13d53167a6142077e15e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:59:17 +0000
Subject: [PATCH 13/15] fix: dwma and frama truncate a fractional period
 consistently

---
 indicators/dwma.cc  | 4 ++--
 indicators/frama.cc | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/indicators/dwma.cc b/indicators/dwma.cc
index 320aac5..a8ab2f9 100644
--- a/indicators/dwma.cc
+++ b/indicators/dwma.cc
@@ -13,7 +13,7 @@
 #include "../utils/ringbuf.hh"
 
 int ti_dwma_start(TI_REAL const *options) {
-    const TI_REAL period = options[0];
+    const int period = options[0];
 
     return 2*(period-1);
 }
@@ -114,7 +114,7 @@ struct ti_dwma_stream : ti_stream {
 };
 
 int ti_dwma_stream_new(TI_REAL const *options, ti_stream **stream) {
-    const TI_REAL period = options[0];
+    const int period = options[0];
 
     if (period < 1) { return TI_INVALID_OPTION; }
 
diff --git a/indicators/frama.cc b/indicators/frama.cc
index 3773e26..127bef9 100644
--- a/indicators/frama.cc
+++ b/indicators/frama.cc
@@ -23,7 +23,7 @@ int ti_frama_start(TI_REAL const *options) {
 int ti_frama(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_REAL *const *outputs) {
     TI_REAL const *high = inputs[0];
     TI_REAL const *low = inputs[1];
-    TI_REAL period = options[0];
+    const int period = options[0];
     TI_REAL average_period = options[1];
     TI_REAL *frama = outputs[0];
 
@@ -137,7 +137,7 @@ struct ti_frama_stream : ti_stream {
 };
 
 int ti_frama_stream_new(TI_REAL const *options, ti_stream **stream) {
-    TI_REAL period = options[0];
+    const int period = options[0];
     TI_REAL average_period = options[1];
 
     if (period < 1) { return TI_INVALID_OPTION; }
-- 
2.43.0


From 41541cbf0ef172e640a879dfb56b694ace038e09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:58:37 +0000
Subject: [PATCH 14/15] fix: reference implementations of cmi, dwma, gf4, lma,
 mesastoch, pvt, vi, vwap misread a history no longer than the warm-up

They read or wrote past the caller's arrays, leaked, threw or reported an invalid option; mesastoch_ref also read past
its own window for periods 1 and 2.
---
 indicators/cmi.cc       | 1 +
 indicators/dwma.cc      | 1 +
 indicators/gf4.cc       | 2 +-
 indicators/lma.cc       | 1 +
 indicators/mesastoch.cc | 8 +++++---
 indicators/pvt.cc       | 1 +
 indicators/vi.cc        | 3 ++-
 indicators/vwap.cc      | 1 +
 8 files changed, 13 insertions(+), 5 deletions(-)

diff --git a/indicators/cmi.cc b/indicators/cmi.cc
index 6cdb73b..5ea7654 100644
--- a/indicators/cmi.cc
+++ b/indicators/cmi.cc
@@ -101,6 +101,7 @@ DONTOPTIMIZE int ti_cmi_ref(int size, TI_REAL const *const *inputs, TI_REAL cons
 
     if (period < 1) { return TI_INVALID_OPTION; }
 
+    if (size <= ti_cmi_start(options)) { return TI_OKAY; }
     TI_REAL *tr = new TI_REAL[size];
     TI_REAL *sum = new TI_REAL[size-(int)period+1];
 
diff --git a/indicators/dwma.cc b/indicators/dwma.cc
index a8ab2f9..9b9bed1 100644
--- a/indicators/dwma.cc
+++ b/indicators/dwma.cc
@@ -82,6 +82,7 @@ int ti_dwma_ref(int size, TI_REAL const *const *inputs, TI_REAL const *options,
 
     if (period < 1) { return TI_INVALID_OPTION; }
 
+    if (size <= ti_dwma_start(options)) { return TI_OKAY; }
     std::vector<TI_REAL> smooth1(size-period+1);
     TI_REAL *arr[1] = {smooth1.data()};
     ti_wma(size, inputs, options, arr);
diff --git a/indicators/gf4.cc b/indicators/gf4.cc
index cc7ee4f..dc76ba7 100644
--- a/indicators/gf4.cc
+++ b/indicators/gf4.cc
@@ -83,7 +83,7 @@ DONTOPTIMIZE int ti_gf4_ref(int size, TI_REAL const *const *inputs, TI_REAL cons
     TI_REAL csum_reciproc = 1./(B0 + A1 + A2 + A3 + A4);
 
     int i = 0;
-    for (; i < 5; ++i, step(f)) {
+    for (; i < 5 && i < size; ++i, step(f)) {
         f = series[i];
         *gf4++ = f;
     }
diff --git a/indicators/lma.cc b/indicators/lma.cc
index 899d200..af2a253 100644
--- a/indicators/lma.cc
+++ b/indicators/lma.cc
@@ -60,6 +60,7 @@ DONTOPTIMIZE int ti_lma_ref(int size, TI_REAL const *const *inputs, TI_REAL cons
 
     if (period < 1) { return TI_INVALID_OPTION; }
 
+    if (size <= ti_lma_start(options)) { return TI_OKAY; }
     std::vector<TI_REAL> wma_price(size-period+1);
     std::vector<TI_REAL> sma_price(size-period+1);
 
diff --git a/indicators/mesastoch.cc b/indicators/mesastoch.cc
index 261164f..74cefb6 100644
--- a/indicators/mesastoch.cc
+++ b/indicators/mesastoch.cc
@@ -110,7 +110,9 @@ int ti_mesastoch_ref(int size, TI_REAL const *const *inputs, TI_REAL const *opti
     if (period < 1) { return TI_INVALID_OPTION; }
     if (max_cycle_considered < 1) { return TI_INVALID_OPTION; }
 
-    std::deque<TI_REAL> filt(period);
+    if (size <= ti_mesastoch_start(options)) { return TI_OKAY; }
+
+    std::deque<TI_REAL> filt(period < 3 ? 3 : period);
     std::deque<TI_REAL> HP(3);
     std::deque<TI_REAL> stoc(2);
     std::deque<TI_REAL> result(3);
@@ -157,8 +159,8 @@ int ti_mesastoch_ref(int size, TI_REAL const *const *inputs, TI_REAL const *opti
         c1 = 1 - c2 - c3;
         filt[0] = c1 * (HP[0] + HP[1]) / 2. + c2 * filt[1] + c3 * filt[2];
 
-        highestC = *std::max_element(filt.begin(), filt.end());
-        lowestC = *std::min_element(filt.begin(), filt.end());
+        highestC = *std::max_element(filt.begin(), filt.begin() + period);
+        lowestC = *std::min_element(filt.begin(), filt.begin() + period);
 
         stoc[0] = (filt[0] - lowestC) / (highestC - lowestC);
         result[0] = c1 * (stoc[0] + stoc[1]) / 2. + c2 * result[1] + c3 * result[2];
diff --git a/indicators/pvt.cc b/indicators/pvt.cc
index a2f5019..53f0443 100644
--- a/indicators/pvt.cc
+++ b/indicators/pvt.cc
@@ -40,6 +40,7 @@ DONTOPTIMIZE int ti_pvt_ref(int size, TI_REAL const *const *inputs, TI_REAL cons
     
     TI_REAL *pvt = outputs[0];
 
+    if (size <= ti_pvt_start(options)) { return TI_OKAY; }
     *pvt++ = volume[1] * (close[1] - close[0]) / close[0] + volume[0];
     for (int i = 2; i < size; i++) {
         *pvt = *(pvt - 1) + volume[i] * (close[i] - close[i - 1]) / close[i - 1];
diff --git a/indicators/vi.cc b/indicators/vi.cc
index 800cf45..c4c4ef7 100644
--- a/indicators/vi.cc
+++ b/indicators/vi.cc
@@ -62,7 +62,8 @@ DONTOPTIMIZE int ti_vi_ref(int size, TI_REAL const *const *inputs, TI_REAL const
     TI_REAL *vi_p = outputs[0];
     TI_REAL *vi_m = outputs[1];
 
-    if (period < 1 || period >= size) return TI_INVALID_OPTION;
+    if (period < 1) return TI_INVALID_OPTION;
+    if (size <= ti_vi_start(options)) { return TI_OKAY; }
 
     std::vector<TI_REAL> vm_p(size);
     std::vector<TI_REAL> vm_m(size);    
diff --git a/indicators/vwap.cc b/indicators/vwap.cc
index 1f4eed7..5bd507b 100644
--- a/indicators/vwap.cc
+++ b/indicators/vwap.cc
@@ -59,6 +59,7 @@ int ti_vwap_ref(int size, TI_REAL const *const *inputs, TI_REAL const *options,
 
     if (period < 1) { return TI_INVALID_OPTION; }
 
+    if (size <= ti_vwap_start(options)) { return TI_OKAY; }
     int outsize = size - ti_typprice_start(&period);
     TI_REAL *typprice = (TI_REAL*)malloc(sizeof(TI_REAL) * outsize);
     ti_typprice(size, inputs, 0, &typprice);
-- 
2.43.0


From 40438e474810b462c5d456e0b69a48381e1a3918 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:23:28 +0000
Subject: [PATCH 15/15] fix: edcf and smi truncate a fractional period, so that
 they read no uninitialised memory

---
 indicators/edcf.cc | 10 +++++-----
 indicators/smi.cc  |  2 +-
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/indicators/edcf.cc b/indicators/edcf.cc
index 30d12f6..95a06de 100644
--- a/indicators/edcf.cc
+++ b/indicators/edcf.cc
@@ -14,14 +14,14 @@
 
 
 int ti_edcf_start(TI_REAL const *options) {
-    TI_REAL length = options[0];
+    const int length = options[0];
 
     return 2*length-1;
 }
 
 int ti_edcf(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_REAL *const *outputs) try {
     TI_REAL const *const series = inputs[0];
-    TI_REAL length = options[0];
+    const int length = options[0];
     TI_REAL *edcf = outputs[0];
 
     if (length < 1) { return TI_INVALID_OPTION; }
@@ -67,7 +67,7 @@ int ti_edcf(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_R
 struct ti_edcf_stream : ti_stream {
 
     struct {
-        TI_REAL length;
+        int length;
     } options;
 
     struct {
@@ -83,7 +83,7 @@ struct ti_edcf_stream : ti_stream {
 
 int ti_edcf_stream_new(TI_REAL const *options, ti_stream **stream) {
     TI_REAL lookback = options[0];
-    TI_REAL length = options[0];
+    const int length = options[0];
 
     if (length < 1) { return TI_INVALID_OPTION; }
 
@@ -120,7 +120,7 @@ int ti_edcf_stream_run(ti_stream *stream, int size, TI_REAL const *const *inputs
     TI_REAL const *const series = inputs[0];
     TI_REAL *edcf = outputs[0];
     int progress = ptr->progress;
-    TI_REAL length = ptr->options.length;
+    const int length = ptr->options.length;
 
     auto &price = ptr->state.price;
     auto &coef = ptr->state.coef;
diff --git a/indicators/smi.cc b/indicators/smi.cc
index 33008f7..a68e867 100644
--- a/indicators/smi.cc
+++ b/indicators/smi.cc
@@ -21,7 +21,7 @@ int ti_smi(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_RE
     TI_REAL const *high = inputs[0];
     TI_REAL const *low = inputs[1];
     TI_REAL const *close = inputs[2];
-    const TI_REAL q_period = options[0];
+    const int q_period = options[0];
     const TI_REAL r_period = options[1];
     const TI_REAL s_period = options[2];
     TI_REAL *smi = outputs[0];
-- 
2.43.0

