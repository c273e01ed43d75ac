From d4401aab62dcb027684a5ac594107b2773c793f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:55 +0000
Subject: [PATCH 01/17] fix: returned series no longer share memory with the
 indicator

Editing a returned series in place (e.g. `s = ind.stoch(); s /= 100`) changed what the
same indicator returned later (`ind.stoch()`, `ind.stoch_signal()`).
---
 ta/utils.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ta/utils.py b/ta/utils.py
index 9f93bab..07d44bf 100644
--- a/ta/utils.py
+++ b/ta/utils.py
@@ -33,7 +33,9 @@ class IndicatorMixin:
                 series = series_output.ffill().bfill()
             else:
                 series = series_output.ffill().fillna(value)
-        return series
+            return series
+        # never hand out the indicator's own state: the caller may edit the result
+        return series.copy()
 
     @staticmethod
     def _true_range(
-- 
2.43.0


From 5856654833647951dcce4228d8c46088c7020cf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:55 +0000
Subject: [PATCH 02/17] fix: PSAR no longer writes by row label

With an integer or float index that is not 0..n-1 (e.g. after dropna) the value went to
another row, or a row was appended.
---
 ta/trend.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ta/trend.py b/ta/trend.py
index 553afad..8cd8623 100644
--- a/ta/trend.py
+++ b/ta/trend.py
@@ -1027,7 +1027,7 @@ class PSARIndicator(IndicatorMixin):
                     high1 = self._high.iloc[i - 1]
                     high2 = self._high.iloc[i - 2]
                     if high2 > self._psar.iloc[i]:
-                        self._psar[i] = high2
+                        self._psar.iloc[i] = high2
                     elif high1 > self._psar.iloc[i]:
                         self._psar.iloc[i] = high1
 
-- 
2.43.0


From e6e08af75241e2f29ea227f194738f7482883451 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:55 +0000
Subject: [PATCH 03/17] fix: ATR seed window is positional, not by row label

With a float index (epoch seconds) the slice selected by label and the whole ATR was NaN.
---
 ta/volatility.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ta/volatility.py b/ta/volatility.py
index 3bbf57e..ff82287 100644
--- a/ta/volatility.py
+++ b/ta/volatility.py
@@ -47,7 +47,7 @@ class AverageTrueRange(IndicatorMixin):
         close_shift = self._close.shift(1)
         true_range = self._true_range(self._high, self._low, close_shift)
         atr = np.zeros(len(self._close))
-        atr[self._window - 1] = true_range[0 : self._window].mean()
+        atr[self._window - 1] = true_range.iloc[0 : self._window].mean()
         for i in range(self._window, len(atr)):
             atr[i] = (atr[i - 1] * (self._window - 1) + true_range.iloc[i]) / float(
                 self._window
-- 
2.43.0


From 6ee86908d34da622defcb6dab0dea96679584b02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:55 +0000
Subject: [PATCH 04/17] fix: Vortex warm-up no longer uses the mean of all
 (future) closes

---
 ta/trend.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ta/trend.py b/ta/trend.py
index 8cd8623..bf4c07e 100644
--- a/ta/trend.py
+++ b/ta/trend.py
@@ -893,7 +893,7 @@ class VortexIndicator(IndicatorMixin):
         self._run()
 
     def _run(self):
-        close_shift = self._close.shift(1, fill_value=self._close.mean())
+        close_shift = self._close.shift(1)
         true_range = self._true_range(self._high, self._low, close_shift)
         min_periods = 0 if self._fillna else self._window
         trn = true_range.rolling(self._window, min_periods=min_periods).sum()
-- 
2.43.0


From 6921e03fdf228619df9e9d68e86e0da06bdf0c8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:55 +0000
Subject: [PATCH 05/17] fix: TRIX first value no longer uses the mean of all
 (future) values

---
 ta/trend.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/ta/trend.py b/ta/trend.py
index bf4c07e..3a08bc7 100644
--- a/ta/trend.py
+++ b/ta/trend.py
@@ -270,9 +270,7 @@ class TRIXIndicator(IndicatorMixin):
         ema1 = _ema(self._close, self._window, self._fillna)
         ema2 = _ema(ema1, self._window, self._fillna)
         ema3 = _ema(ema2, self._window, self._fillna)
-        self._trix = (ema3 - ema3.shift(1, fill_value=ema3.mean())) / ema3.shift(
-            1, fill_value=ema3.mean()
-        )
+        self._trix = (ema3 - ema3.shift(1)) / ema3.shift(1)
         self._trix *= 100
 
     def trix(self) -> pd.Series:
-- 
2.43.0


From 97bedbb13b945aea0f637ad8acf3af45f8e0ddb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:55 +0000
Subject: [PATCH 06/17] fix: KST warm-up no longer uses the mean of all
 (future) closes

---
 ta/trend.py | 28 ++++++++--------------------
 1 file changed, 8 insertions(+), 20 deletions(-)

diff --git a/ta/trend.py b/ta/trend.py
index 3a08bc7..a6ee6b4 100644
--- a/ta/trend.py
+++ b/ta/trend.py
@@ -493,44 +493,32 @@ class KSTIndicator(IndicatorMixin):
         min_periods_n4 = 0 if self._fillna else self._window4
         rocma1 = (
             (
-                (
-                    self._close
-                    - self._close.shift(self._r1, fill_value=self._close.mean())
-                )
-                / self._close.shift(self._r1, fill_value=self._close.mean())
+                (self._close - self._close.shift(self._r1))
+                / self._close.shift(self._r1)
             )
             .rolling(self._window1, min_periods=min_periods_n1)
             .mean()
         )
         rocma2 = (
             (
-                (
-                    self._close
-                    - self._close.shift(self._r2, fill_value=self._close.mean())
-                )
-                / self._close.shift(self._r2, fill_value=self._close.mean())
+                (self._close - self._close.shift(self._r2))
+                / self._close.shift(self._r2)
             )
             .rolling(self._window2, min_periods=min_periods_n2)
             .mean()
         )
         rocma3 = (
             (
-                (
-                    self._close
-                    - self._close.shift(self._r3, fill_value=self._close.mean())
-                )
-                / self._close.shift(self._r3, fill_value=self._close.mean())
+                (self._close - self._close.shift(self._r3))
+                / self._close.shift(self._r3)
             )
             .rolling(self._window3, min_periods=min_periods_n3)
             .mean()
         )
         rocma4 = (
             (
-                (
-                    self._close
-                    - self._close.shift(self._r4, fill_value=self._close.mean())
-                )
-                / self._close.shift(self._r4, fill_value=self._close.mean())
+                (self._close - self._close.shift(self._r4))
+                / self._close.shift(self._r4)
             )
             .rolling(self._window4, min_periods=min_periods_n4)
             .mean()
-- 
2.43.0


From 0474a6af2265a902d0438d3976192930273d5252 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:55 +0000
Subject: [PATCH 07/17] fix: DPO warm-up no longer uses the mean of all
 (future) closes

---
 ta/trend.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/ta/trend.py b/ta/trend.py
index a6ee6b4..869c16b 100644
--- a/ta/trend.py
+++ b/ta/trend.py
@@ -582,9 +582,7 @@ class DPOIndicator(IndicatorMixin):
     def _run(self):
         min_periods = 0 if self._fillna else self._window
         self._dpo = (
-            self._close.shift(
-                int((0.5 * self._window) + 1), fill_value=self._close.mean()
-            )
+            self._close.shift(int((0.5 * self._window) + 1))
             - self._close.rolling(self._window, min_periods=min_periods).mean()
         )
 
-- 
2.43.0


From 0664c16875de71a4c270deca84ad32ac402dd7c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:55 +0000
Subject: [PATCH 08/17] fix: visual Ichimoku spans no longer start with the
 mean of all (future) values

---
 ta/trend.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ta/trend.py b/ta/trend.py
index 869c16b..3880539 100644
--- a/ta/trend.py
+++ b/ta/trend.py
@@ -409,7 +409,7 @@ class IchimokuIndicator(IndicatorMixin):
         """
         spana = 0.5 * (self._conv + self._base)
         spana = (
-            spana.shift(self._window2, fill_value=spana.mean())
+            spana.shift(self._window2)
             if self._visual
             else spana
         )
@@ -427,7 +427,7 @@ class IchimokuIndicator(IndicatorMixin):
             + self._low.rolling(self._window3, min_periods=0).min()
         )
         spanb = (
-            spanb.shift(self._window2, fill_value=spanb.mean())
+            spanb.shift(self._window2)
             if self._visual
             else spanb
         )
-- 
2.43.0


From 7453600a4a6057dd9d1b7bf00228d352376e0169 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:37 +0000
Subject: [PATCH 09/17] fix: KAMA warm-up no longer wraps around to the last
 (future) closes

np.roll took the change of the first bars against the newest bars; with fillna=True
every value then depended on the future.
---
 ta/momentum.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/ta/momentum.py b/ta/momentum.py
index 69a4cda..73b3326 100644
--- a/ta/momentum.py
+++ b/ta/momentum.py
@@ -316,10 +316,15 @@ class KAMAIndicator(IndicatorMixin):
 
     def _run(self):
         close_values = self._close.values
-        vol = pd.Series(abs(self._close - np.roll(self._close, 1)))
+        # bars before the first one count as equal to it (never as the last bars)
+        first_close = close_values[0] if len(close_values) else np.nan
+        vol = abs(self._close - self._close.shift(1, fill_value=first_close))
 
         min_periods = 0 if self._fillna else self._window
-        er_num = abs(close_values - np.roll(close_values, self._window))
+        er_num = abs(
+            close_values
+            - self._close.shift(self._window, fill_value=first_close).values
+        )
         er_den = vol.rolling(self._window, min_periods=min_periods).sum()
         efficiency_ratio = np.divide(
             er_num, er_den, out=np.zeros_like(er_num), where=er_den != 0
-- 
2.43.0


From 9150c6e3b0fbc42cb1a5569b10eb459f6ea81fc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:10 +0000
Subject: [PATCH 10/17] fix: SMA and EMA honour fillna

A run of missing bars as long as the window left NaN in the SMA although fillna=True;
every other indicator carries the last value forward.
---
 ta/trend.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ta/trend.py b/ta/trend.py
index 3880539..e8c0421 100644
--- a/ta/trend.py
+++ b/ta/trend.py
@@ -176,6 +176,7 @@ class EMAIndicator(IndicatorMixin):
             pandas.Series: New feature generated.
         """
         ema_ = _ema(self._close, self._window, self._fillna)
+        ema_ = self._check_fillna(ema_, value=0)
         return pd.Series(ema_, name=f"ema_{self._window}")
 
 
@@ -200,6 +201,7 @@ class SMAIndicator(IndicatorMixin):
             pandas.Series: New feature generated.
         """
         sma_ = _sma(self._close, self._window, self._fillna)
+        sma_ = self._check_fillna(sma_, value=0)
         return pd.Series(sma_, name=f"sma_{self._window}")
 
 
-- 
2.43.0


From 4267321c20f182de77691f68323307e5a3f2a2b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:00 +0000
Subject: [PATCH 11/17] fix: dropna keeps integer columns exact and accepts
 timedelta columns

---
 ta/utils.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/ta/utils.py b/ta/utils.py
index 07d44bf..81300ee 100644
--- a/ta/utils.py
+++ b/ta/utils.py
@@ -51,9 +51,8 @@ class IndicatorMixin:
 def dropna(df: pd.DataFrame) -> pd.DataFrame:
     """Drop rows with "Nans" values"""
     df = df.copy()
-    number_cols = df.select_dtypes(include=np.number).columns.tolist()
-    df[number_cols] = df[number_cols][df[number_cols] < math.exp(709)]  # big number
-    df[number_cols] = df[number_cols][df[number_cols] != 0.0]
+    numbers = df.select_dtypes(include=np.number, exclude="timedelta")
+    df = df[((numbers < math.exp(709)) & (numbers != 0.0)).all(axis=1)]  # big number
     df = df.dropna()
     return df
 
-- 
2.43.0


From b6bd75a05cbf31b5acac839d93ad2d484e0ee83f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:41 +0000
Subject: [PATCH 12/17] fix: KAMA no longer truncates the efficiency ratio of
 integer prices

---
 ta/momentum.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ta/momentum.py b/ta/momentum.py
index 73b3326..760a845 100644
--- a/ta/momentum.py
+++ b/ta/momentum.py
@@ -327,7 +327,7 @@ class KAMAIndicator(IndicatorMixin):
         )
         er_den = vol.rolling(self._window, min_periods=min_periods).sum()
         efficiency_ratio = np.divide(
-            er_num, er_den, out=np.zeros_like(er_num), where=er_den != 0
+            er_num, er_den, out=np.zeros(len(er_num)), where=er_den != 0
         )
 
         smoothing_constant = (
-- 
2.43.0


From 34f1349fd1b719ab552720bef5f3c4651ea60233 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:20 +0000
Subject: [PATCH 13/17] fix: on-balance volume no longer wraps around with
 unsigned volumes

---
 ta/volume.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ta/volume.py b/ta/volume.py
index eabf4d2..14032d3 100644
--- a/ta/volume.py
+++ b/ta/volume.py
@@ -83,7 +83,9 @@ class OnBalanceVolumeIndicator(IndicatorMixin):
         self._run()
 
     def _run(self):
-        obv = np.where(self._close < self._close.shift(1), -self._volume, self._volume)
+        # negating an unsigned volume would wrap around
+        sign = np.where(self._close < self._close.shift(1), -1, 1).astype("int8")
+        obv = sign * self._volume.values
         self._obv = pd.Series(obv, index=self._close.index).cumsum()
 
     def on_balance_volume(self) -> pd.Series:
-- 
2.43.0


From b58ebccd328e599753d5a2f5db1a8fa8ba3962bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:29 +0000
Subject: [PATCH 14/17] fix: sums of small integer types no longer overflow

Typical and median prices, the original Keltner bands and the box ratio were
computed in the integer type of the columns (int8 to int32), and log returns
of 8- and 16-bit integers in half or single precision.
---
 ta/momentum.py   | 2 +-
 ta/others.py     | 2 +-
 ta/trend.py      | 2 +-
 ta/volatility.py | 6 +++---
 ta/volume.py     | 6 +++---
 5 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/ta/momentum.py b/ta/momentum.py
index 760a845..62f7d87 100644
--- a/ta/momentum.py
+++ b/ta/momentum.py
@@ -460,7 +460,7 @@ class AwesomeOscillatorIndicator(IndicatorMixin):
         self._run()
 
     def _run(self):
-        median_price = 0.5 * (self._high + self._low)
+        median_price = 0.5 * self._high + 0.5 * self._low
         min_periods_s = 0 if self._fillna else self._window1
         min_periods_len = 0 if self._fillna else self._window2
         self._ao = (
diff --git a/ta/others.py b/ta/others.py
index c986b14..7933e46 100644
--- a/ta/others.py
+++ b/ta/others.py
@@ -54,7 +54,7 @@ class DailyLogReturnIndicator(IndicatorMixin):
         self._run()
 
     def _run(self):
-        self._dr = pd.Series(np.log(self._close)).diff()
+        self._dr = pd.Series(np.log(1.0 * self._close)).diff()
         self._dr *= 100
 
     def daily_log_return(self) -> pd.Series:
diff --git a/ta/trend.py b/ta/trend.py
index e8c0421..8589534 100644
--- a/ta/trend.py
+++ b/ta/trend.py
@@ -640,7 +640,7 @@ class CCIIndicator(IndicatorMixin):
             return np.mean(np.abs(x - np.mean(x)))
 
         min_periods = 0 if self._fillna else self._window
-        typical_price = (self._high + self._low + self._close) / 3.0
+        typical_price = (1.0 * self._high + self._low + self._close) / 3.0
         self._cci = (
             typical_price
             - typical_price.rolling(self._window, min_periods=min_periods).mean()
diff --git a/ta/volatility.py b/ta/volatility.py
index ff82287..27b5acf 100644
--- a/ta/volatility.py
+++ b/ta/volatility.py
@@ -227,17 +227,17 @@ class KeltnerChannel(IndicatorMixin):
         min_periods = 1 if self._fillna else self._window
         if self._original_version:
             self._tp = (
-                ((self._high + self._low + self._close) / 3.0)
+                ((1.0 * self._high + self._low + self._close) / 3.0)
                 .rolling(self._window, min_periods=min_periods)
                 .mean()
             )
             self._tp_high = (
-                (((4 * self._high) - (2 * self._low) + self._close) / 3.0)
+                (((4.0 * self._high) - (2.0 * self._low) + self._close) / 3.0)
                 .rolling(self._window, min_periods=0)
                 .mean()
             )
             self._tp_low = (
-                (((-2 * self._high) + (4 * self._low) + self._close) / 3.0)
+                (((-2.0 * self._high) + (4.0 * self._low) + self._close) / 3.0)
                 .rolling(self._window, min_periods=0)
                 .mean()
             )
diff --git a/ta/volume.py b/ta/volume.py
index 14032d3..3056f37 100644
--- a/ta/volume.py
+++ b/ta/volume.py
@@ -231,7 +231,7 @@ class EaseOfMovementIndicator(IndicatorMixin):
         self._emv = (
             (self._high.diff(1) + self._low.diff(1))
             * (self._high - self._low)
-            / (2 * self._volume)
+            / (2.0 * self._volume)
         )
         self._emv *= 100000000
 
@@ -387,7 +387,7 @@ class MFIIndicator(IndicatorMixin):
         self._run()
 
     def _run(self):
-        typical_price = (self._high + self._low + self._close) / 3.0
+        typical_price = (1.0 * self._high + self._low + self._close) / 3.0
         up_down = np.where(
             typical_price > typical_price.shift(1),
             1,
@@ -465,7 +465,7 @@ class VolumeWeightedAveragePrice(IndicatorMixin):
 
     def _run(self):
         # 1 typical price
-        typical_price = (self._high + self._low + self._close) / 3.0
+        typical_price = (1.0 * self._high + self._low + self._close) / 3.0
 
         # 2 typical price * volume
         typical_price_volume = typical_price * self._volume
-- 
2.43.0


From 6a02e750ca4fb44bbfcaf17782bc42eab2ae5a42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:29 +0000
Subject: [PATCH 15/17] fix: differences of unsigned prices no longer wrap
 around

RSI, KAMA, PSAR, ADI, CMF and EOM subtracted prices in their unsigned type.
---
 ta/momentum.py |  6 +++---
 ta/trend.py    |  2 +-
 ta/volume.py   | 12 ++++++------
 3 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/ta/momentum.py b/ta/momentum.py
index 62f7d87..ecaedfd 100644
--- a/ta/momentum.py
+++ b/ta/momentum.py
@@ -34,7 +34,7 @@ class RSIIndicator(IndicatorMixin):
         self._run()
 
     def _run(self):
-        diff = self._close.diff(1)
+        diff = self._close - self._close.shift(1)
         up_direction = diff.where(diff > 0, 0.0)
         down_direction = -diff.where(diff < 0, 0.0)
         min_periods = 0 if self._fillna else self._window
@@ -318,11 +318,11 @@ class KAMAIndicator(IndicatorMixin):
         close_values = self._close.values
         # bars before the first one count as equal to it (never as the last bars)
         first_close = close_values[0] if len(close_values) else np.nan
-        vol = abs(self._close - self._close.shift(1, fill_value=first_close))
+        vol = abs(1.0 * self._close - self._close.shift(1, fill_value=first_close))
 
         min_periods = 0 if self._fillna else self._window
         er_num = abs(
-            close_values
+            1.0 * close_values
             - self._close.shift(self._window, fill_value=first_close).values
         )
         er_den = vol.rolling(self._window, min_periods=min_periods).sum()
diff --git a/ta/trend.py b/ta/trend.py
index 8589534..64b073e 100644
--- a/ta/trend.py
+++ b/ta/trend.py
@@ -960,7 +960,7 @@ class PSARIndicator(IndicatorMixin):
         up_trend_high = self._high.iloc[0]
         down_trend_low = self._low.iloc[0]
 
-        self._psar = self._close.copy()
+        self._psar = 1.0 * self._close
         self._psar_up = pd.Series(index=self._psar.index, dtype="float64")
         self._psar_down = pd.Series(index=self._psar.index, dtype="float64")
 
diff --git a/ta/volume.py b/ta/volume.py
index 3056f37..6327613 100644
--- a/ta/volume.py
+++ b/ta/volume.py
@@ -45,8 +45,8 @@ class AccDistIndexIndicator(IndicatorMixin):
         self._run()
 
     def _run(self):
-        clv = ((self._close - self._low) - (self._high - self._close)) / (
-            self._high - self._low
+        clv = ((1.0 * self._close - self._low) - (1.0 * self._high - self._close)) / (
+            1.0 * self._high - self._low
         )
         clv = clv.fillna(0.0)  # float division by zero
         adi = clv * self._volume
@@ -132,8 +132,8 @@ class ChaikinMoneyFlowIndicator(IndicatorMixin):
         self._run()
 
     def _run(self):
-        mfv = ((self._close - self._low) - (self._high - self._close)) / (
-            self._high - self._low
+        mfv = ((1.0 * self._close - self._low) - (1.0 * self._high - self._close)) / (
+            1.0 * self._high - self._low
         )
         mfv = mfv.fillna(0.0)  # float division by zero
         mfv *= self._volume
@@ -229,8 +229,8 @@ class EaseOfMovementIndicator(IndicatorMixin):
 
     def _run(self):
         self._emv = (
-            (self._high.diff(1) + self._low.diff(1))
-            * (self._high - self._low)
+            ((self._high - self._high.shift(1)) + (self._low - self._low.shift(1)))
+            * (1.0 * self._high - self._low)
             / (2.0 * self._volume)
         )
         self._emv *= 100000000
-- 
2.43.0


From f85fc489f91b03a5bbd9d5487ab85f788c9b373c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:08:02 +0000
Subject: [PATCH 16/17] fix: psar_up_indicator marks a turn whose stop is zero

---
 ta/trend.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/ta/trend.py b/ta/trend.py
index 64b073e..ed89b48 100644
--- a/ta/trend.py
+++ b/ta/trend.py
@@ -1057,10 +1057,9 @@ class PSARIndicator(IndicatorMixin):
         Returns:
             pandas.Series: New feature generated.
         """
-        indicator = self._psar_up.where(
-            self._psar_up.notnull() & self._psar_up.shift(1).isnull(), 0
-        )
-        indicator = indicator.where(indicator == 0, 1)
+        turn = self._psar_up.notnull() & self._psar_up.shift(1).isnull()
+        # not by the value of the stop, which may be zero
+        indicator = self._psar_up.where(turn, 0).where(~turn, 1)
         return pd.Series(indicator, index=self._close.index, name="psariup")
 
     def psar_down_indicator(self) -> pd.Series:
-- 
2.43.0


From e4ea1c06471d03a6fe2bc8711e0b98aa9dee3702 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:19:24 +0000
Subject: [PATCH 17/17] fix: ADX no longer starts with bars after the window
 where one is missing

---
 ta/trend.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ta/trend.py b/ta/trend.py
index ed89b48..b77ed1b 100644
--- a/ta/trend.py
+++ b/ta/trend.py
@@ -714,7 +714,7 @@ class ADXIndicator(IndicatorMixin):
 
         self._trs_initial = np.zeros(self._window - 1)
         self._trs = np.zeros(len(self._close) - (self._window - 1))
-        self._trs[0] = diff_directional_movement.dropna().iloc[0 : self._window].sum()
+        self._trs[0] = diff_directional_movement.iloc[1 : self._window + 1].sum()
         diff_directional_movement = diff_directional_movement.reset_index(drop=True)
 
         for i in range(1, len(self._trs) - 1):
@@ -731,7 +731,7 @@ class ADXIndicator(IndicatorMixin):
         neg = abs(((diff_down > diff_up) & (diff_down > 0)) * diff_down)
 
         self._dip = np.zeros(len(self._close) - (self._window - 1))
-        self._dip[0] = pos.dropna().iloc[0 : self._window].sum()
+        self._dip[0] = pos.iloc[1 : self._window + 1].sum()
 
         pos = pos.reset_index(drop=True)
 
@@ -743,7 +743,7 @@ class ADXIndicator(IndicatorMixin):
             )
 
         self._din = np.zeros(len(self._close) - (self._window - 1))
-        self._din[0] = neg.dropna().iloc[0 : self._window].sum()
+        self._din[0] = neg.iloc[1 : self._window + 1].sum()
 
         neg = neg.reset_index(drop=True)
 
-- 
2.43.0

