From bdd1195179dca9fff38d25847caf39d24ffbad7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:38:06 +0000
Subject: [PATCH 01/45] fix: frequency axis has n_fbins entries for odd n_fbins

---
 tftb/processing/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tftb/processing/base.py b/tftb/processing/base.py
index e44c297..009ae43 100644
--- a/tftb/processing/base.py
+++ b/tftb/processing/base.py
@@ -44,7 +44,7 @@ class BaseTFRepresentation(object):
             freqs = np.r_[np.arange(self.n_fbins / 2),
                           np.arange(-self.n_fbins / 2, 0)]
         else:
-            freqs = np.r_[np.arange((self.n_fbins - 1) / 2),
+            freqs = np.r_[np.arange((self.n_fbins + 1) / 2),
                           np.arange(-(self.n_fbins - 1) / 2, 0)]
         self.freqs = freqs / self.n_fbins
         self.tfr = np.zeros((self.n_fbins, self.ts.shape[0]), dtype=complex)
-- 
2.43.0


From e4a3370d8d2f604691d0166221a3f219ace7b2ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:38:08 +0000
Subject: [PATCH 02/45] fix: STFT columns are centred on their own sample

---
 tftb/processing/linear.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/tftb/processing/linear.py b/tftb/processing/linear.py
index 8615525..a4f8d4b 100644
--- a/tftb/processing/linear.py
+++ b/tftb/processing/linear.py
@@ -56,12 +56,12 @@ class ShortTimeFourierTransform(BaseTFRepresentation):
 
         Where :math:`w` is a Hamming window."""
         lh = (self.fwindow.shape[0] - 1) // 2
-        rangemin = min([round(self.n_fbins / 2.0), lh])
+        rangemin = min([(self.n_fbins - 1) // 2, lh])
         starts = -np.min(np.c_[rangemin * np.ones(self.ts.shape),
-                               np.arange(self.ts.shape[0]) - 1],
+                               np.arange(self.ts.shape[0])],
                          axis=1).astype(int)
         ends = np.min(np.c_[rangemin * np.ones(self.ts.shape),
-                            self.signal.shape[0] - np.arange(self.ts.shape[0])],
+                            self.signal.shape[0] - 1 - np.arange(self.ts.shape[0])],
                       axis=1).astype(int)
         conj_fwindow = np.conj(self.fwindow)
         for icol in range(self.tfr.shape[1]):
@@ -69,7 +69,7 @@ class ShortTimeFourierTransform(BaseTFRepresentation):
             end = ends[icol]
             tau = np.arange(start, end + 1).astype(int)
             index = np.remainder(self.n_fbins + tau, self.n_fbins)
-            self.tfr[index, icol] = self.signal[(icol + tau - 1).astype(int)] * \
+            self.tfr[index, icol] = self.signal[(icol + tau).astype(int)] * \
                 conj_fwindow[(lh + tau).astype(int)]
         self.tfr = np.fft.fft(self.tfr, axis=0)
         return self.tfr, self.ts, self.freqs
-- 
2.43.0


From 955ea5d6476637f79fd06b8c1ae17902940d3ddf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:38:10 +0000
Subject: [PATCH 03/45] fix: spectrogram columns are centred on their own time
 instant

---
 tftb/processing/cohen.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/tftb/processing/cohen.py b/tftb/processing/cohen.py
index ae9ea6b..39507cd 100644
--- a/tftb/processing/cohen.py
+++ b/tftb/processing/cohen.py
@@ -21,11 +21,11 @@ class Spectrogram(ShortTimeFourierTransform):
 
     def run(self):
         lh = (self.fwindow.shape[0] - 1) // 2
-        rangemin = min([round(self.n_fbins / 2.0) - 1, lh])
-        starts = -np.min(np.c_[rangemin * np.ones(self.ts.shape), self.ts - 1],
+        rangemin = min([(self.n_fbins - 1) // 2, lh])
+        starts = -np.min(np.c_[rangemin * np.ones(self.ts.shape), self.ts],
                          axis=1).astype(int)
         ends = np.min(np.c_[rangemin * np.ones(self.ts.shape),
-                      self.signal.shape[0] - self.ts], axis=1).astype(int)
+                      self.signal.shape[0] - 1 - self.ts], axis=1).astype(int)
         conj_fwindow = np.conj(self.fwindow)
         for icol in range(self.tfr.shape[1]):
             ti = self.ts[icol]
@@ -33,7 +33,7 @@ class Spectrogram(ShortTimeFourierTransform):
             end = ends[icol]
             tau = np.arange(start, end + 1).astype(int)
             indices = np.remainder(self.n_fbins + tau, self.n_fbins)
-            self.tfr[indices.astype(int), icol] = self.signal[ti + tau - 1] * \
+            self.tfr[indices.astype(int), icol] = self.signal[ti + tau] * \
                 conj_fwindow[lh + tau] / np.linalg.norm(self.fwindow[lh + tau])
         self.tfr = np.abs(np.fft.fft(self.tfr, axis=0)) ** 2
         return self.tfr, self.ts, self.freqs
-- 
2.43.0


From 136f867adf06da7318818b23826c37061e6fcc13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:38:12 +0000
Subject: [PATCH 04/45] fix: Wigner-Ville lag range and middle lag for odd and
 short n_fbins

---
 tftb/processing/cohen.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/tftb/processing/cohen.py b/tftb/processing/cohen.py
index 39507cd..eccb4dd 100644
--- a/tftb/processing/cohen.py
+++ b/tftb/processing/cohen.py
@@ -149,8 +149,8 @@ class WignerVilleDistribution(BaseTFRepresentation):
     name = "wigner-ville"
 
     def run(self):
-        tausec = round(self.n_fbins / 2.0)
-        winlength = tausec - 1
+        tausec = self.n_fbins // 2
+        winlength = (self.n_fbins - 1) // 2
         taulens = np.min(np.c_[np.arange(self.signal.shape[0]),
                                self.signal.shape[0] - np.arange(self.signal.shape[0]) - 1,
                          winlength * np.ones(self.ts.shape)], axis=1)
@@ -161,10 +161,10 @@ class WignerVilleDistribution(BaseTFRepresentation):
             indices = np.remainder(self.n_fbins + tau, self.n_fbins).astype(int)
             self.tfr[indices, icol] = self.signal[icol + tau] * \
                 conj_signal[icol - tau]
-            if (icol <= self.signal.shape[0] - tausec) and (icol >= tausec + 1):
-                self.tfr[tausec, icol] = self.signal[icol + tausec, 0] * \
-                    np.conj(self.signal[icol - tausec, 0]) + \
-                    self.signal[icol - tausec, 0] * conj_signal[icol + tausec, 0]
+            if self.n_fbins % 2 == 0 and tausec <= icol < self.signal.shape[0] - tausec:
+                self.tfr[tausec, icol] = 0.5 * (
+                    self.signal[icol + tausec] * conj_signal[icol - tausec] +
+                    self.signal[icol - tausec] * conj_signal[icol + tausec])
         self.tfr = np.fft.fft(self.tfr, axis=0)
         self.tfr = np.real(self.tfr)
         self.freqs = 0.5 * np.arange(self.n_fbins, dtype=float) / self.n_fbins
-- 
2.43.0


From 05ae16f4f00e98dde2055c5fe43af4f919337a57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:38:15 +0000
Subject: [PATCH 05/45] fix: pseudo Wigner-Ville lag range, middle lag and
 frequency axis

---
 tftb/processing/cohen.py | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/tftb/processing/cohen.py b/tftb/processing/cohen.py
index eccb4dd..3dd938f 100644
--- a/tftb/processing/cohen.py
+++ b/tftb/processing/cohen.py
@@ -195,21 +195,22 @@ class PseudoWignerVilleDistribution(WignerVilleDistribution):
         lh = (self.fwindow.shape[0] - 1) // 2
         for icol in range(self.ts.shape[0]):
             taumaxvals = (icol, self.signal.shape[0] - icol - 1,
-                          np.round(self.n_fbins / 2.0), lh)
+                          (self.n_fbins - 1) // 2, lh)
             taumax = np.min(taumaxvals)
             tau = np.arange(-taumax, taumax + 1).astype(int)
             indices = np.remainder(self.n_fbins + tau, self.n_fbins).astype(int)
             self.tfr[indices, icol] = self.fwindow[lh + tau] * self.signal[icol + tau] * \
                 np.conj(self.signal[icol - tau])
-            tau = np.round(self.n_fbins / 2.0)
-            if (icol <= self.signal.shape[0] - tau) and (icol >= tau + 1) and (tau <= lh):
-                self.tfr[int(tau), icol] = self.fwindow[lh + tau] * \
-                    self.signal[icol + tau, 0] * np.conj(self.signal[icol - tau, 0]) + \
-                    self.fwindow[lh - tau] * self.signal[icol - tau, 0] * \
-                    np.conj(self.signal[icol + tau, 0])
-                self.tfr[int(tau), icol] *= 0.5
+            tau = self.n_fbins // 2
+            if self.n_fbins % 2 == 0 and tau <= icol < self.signal.shape[0] - tau and tau <= lh:
+                self.tfr[tau, icol] = self.fwindow[lh + tau] * \
+                    self.signal[icol + tau] * np.conj(self.signal[icol - tau]) + \
+                    self.fwindow[lh - tau] * self.signal[icol - tau] * \
+                    np.conj(self.signal[icol + tau])
+                self.tfr[tau, icol] *= 0.5
 
         self.tfr = np.fft.fft(self.tfr, axis=0)
+        self.freqs = 0.5 * np.arange(self.n_fbins, dtype=float) / self.n_fbins
         return np.real(self.tfr), self.ts, self.freqs
 
     def plot(self, **kwargs):
-- 
2.43.0


From adfa2109a1144a177563b28ca56d617c0ab8a567 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:38:17 +0000
Subject: [PATCH 06/45] fix: Margenau-Hill includes the lag reaching sample 0

---
 tftb/processing/cohen.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tftb/processing/cohen.py b/tftb/processing/cohen.py
index 3dd938f..5773117 100644
--- a/tftb/processing/cohen.py
+++ b/tftb/processing/cohen.py
@@ -99,7 +99,7 @@ class MargenauHillDistribution(BaseTFRepresentation):
         for icol in range(self.ts.shape[0]):
             ti = self.ts[icol]
             tau = np.arange(-min((self.n_fbins - ti,
-                                  self.signal.shape[0] - ti)) + 1, ti)
+                                  self.signal.shape[0] - ti)) + 1, ti + 1)
             indices = np.remainder(self.n_fbins + tau, self.n_fbins)
             self.tfr[indices, icol] = self.signal[ti] * \
                 np.conj(self.signal[ti - tau])
-- 
2.43.0


From 2d999dcb2a27fcfde359be3efdb48dc6ef690482 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:38:19 +0000
Subject: [PATCH 07/45] fix: pseudo Margenau-Hill lag alignment, integer
 indices and real output

---
 tftb/processing/cohen.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/tftb/processing/cohen.py b/tftb/processing/cohen.py
index 5773117..af8f38f 100644
--- a/tftb/processing/cohen.py
+++ b/tftb/processing/cohen.py
@@ -134,13 +134,13 @@ class PseudoMargenauHillDistribution(MargenauHillDistribution):
         lh = (self.fwindow.shape[0] - 1) // 2
         xrow = self.signal.shape[0]
         for icol in range(self.ts.shape[0]):
-            start = min([np.round(self.n_fbins / 2.0) - 1, lh, xrow - icol])
-            end = min([np.round(self.n_fbins / 2.0) - 1, lh, icol - 1])
+            start = min([(self.n_fbins - 1) // 2, lh, xrow - 1 - icol])
+            end = min([(self.n_fbins - 1) // 2, lh, icol])
             tau = np.arange(-start, end + 1)
             indices = np.remainder(self.n_fbins + tau, self.n_fbins)
             self.tfr[indices, icol] = self.fwindow[lh + tau] * self.signal[icol] * \
-                np.conj(self.signal[icol - tau - 1])
-        self.tfr = np.fft.fft(self.tfr, axis=0)
+                np.conj(self.signal[icol - tau])
+        self.tfr = np.real(np.fft.fft(self.tfr, axis=0))
         return self.tfr, self.ts, self.freqs
 
 
-- 
2.43.0


From 38c4f709efbf2aab72ace792d768eea247345544 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:38:22 +0000
Subject: [PATCH 08/45] fix: pseudo Page uses integer indices and stores lag
 tau in row tau

---
 tftb/processing/cohen.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/tftb/processing/cohen.py b/tftb/processing/cohen.py
index af8f38f..12a1151 100644
--- a/tftb/processing/cohen.py
+++ b/tftb/processing/cohen.py
@@ -77,14 +77,14 @@ class PseudoPageRepresentation(PageRepresentation):
             hlength += 1
         from scipy.signal.windows import hamming
         fwindow = hamming(hlength)
-        lh = (fwindow.shape[0] - 1) / 2
+        lh = (fwindow.shape[0] - 1) // 2
         return fwindow / fwindow[lh]
 
     def run(self):
-        lh = (self.fwindow.shape[0] - 1) / 2
+        lh = (self.fwindow.shape[0] - 1) // 2
         for icol in range(self.ts.shape[0]):
-            tau = np.arange(min([self.n_fbins - 1, lh, icol - 1]) + 1)
-            indices = np.remainder(self.n_fbins + tau, self.n_fbins) + 1
+            tau = np.arange(min([self.n_fbins - 1, lh, icol]) + 1)
+            indices = np.remainder(self.n_fbins + tau, self.n_fbins)
             self.tfr[indices, icol] = self.fwindow[lh + tau] * \
                 self.signal[icol] * np.conj(self.signal[icol - tau])
         self.tfr = np.real(np.fft.fft(self.tfr, axis=0))
-- 
2.43.0


From 10c0264a3ef84eb777fc82d66b608c2a5beb4390 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:38:25 +0000
Subject: [PATCH 09/45] fix: PageRepresentation.plot slices with an integer

---
 tftb/processing/cohen.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tftb/processing/cohen.py b/tftb/processing/cohen.py
index 12a1151..1555026 100644
--- a/tftb/processing/cohen.py
+++ b/tftb/processing/cohen.py
@@ -60,7 +60,7 @@ class PageRepresentation(BaseTFRepresentation):
         return self.tfr, self.ts, self.freqs
 
     def plot(self, kind='cmap', threshold=0.05, sqmod=True, **kwargs):
-        self.tfr = self.tfr[:(self.tfr.shape[0] / 2), :]
+        self.tfr = self.tfr[:(self.tfr.shape[0] // 2), :]
         self.tfr = np.abs(self.tfr) ** 2
         _threshold = np.amax(self.tfr) * threshold
         self.tfr[self.tfr <= _threshold] = 0.0
-- 
2.43.0


From 460881c268e14984d3f5b0fa52718277eff95153 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:38:27 +0000
Subject: [PATCH 10/45] fix: run() starts from a cleared lag matrix so it can
 be repeated

---
 tftb/processing/cohen.py  | 7 +++++++
 tftb/processing/linear.py | 1 +
 2 files changed, 8 insertions(+)

diff --git a/tftb/processing/cohen.py b/tftb/processing/cohen.py
index 1555026..38b0dae 100644
--- a/tftb/processing/cohen.py
+++ b/tftb/processing/cohen.py
@@ -20,6 +20,7 @@ class Spectrogram(ShortTimeFourierTransform):
     name = "spectrogram"
 
     def run(self):
+        self.tfr = np.zeros((self.n_fbins, self.ts.shape[0]), dtype=complex)
         lh = (self.fwindow.shape[0] - 1) // 2
         rangemin = min([(self.n_fbins - 1) // 2, lh])
         starts = -np.min(np.c_[rangemin * np.ones(self.ts.shape), self.ts],
@@ -49,6 +50,7 @@ class PageRepresentation(BaseTFRepresentation):
     name = "page representation"
 
     def run(self):
+        self.tfr = np.zeros((self.n_fbins, self.ts.shape[0]), dtype=complex)
         for icol in range(self.ts.shape[0]):
             ti = self.ts[icol]
             tau = np.arange(-min([self.n_fbins - ti,
@@ -81,6 +83,7 @@ class PseudoPageRepresentation(PageRepresentation):
         return fwindow / fwindow[lh]
 
     def run(self):
+        self.tfr = np.zeros((self.n_fbins, self.ts.shape[0]), dtype=complex)
         lh = (self.fwindow.shape[0] - 1) // 2
         for icol in range(self.ts.shape[0]):
             tau = np.arange(min([self.n_fbins - 1, lh, icol]) + 1)
@@ -96,6 +99,7 @@ class MargenauHillDistribution(BaseTFRepresentation):
     name = "margenau-hill"
 
     def run(self):
+        self.tfr = np.zeros((self.n_fbins, self.ts.shape[0]), dtype=complex)
         for icol in range(self.ts.shape[0]):
             ti = self.ts[icol]
             tau = np.arange(-min((self.n_fbins - ti,
@@ -131,6 +135,7 @@ class PseudoMargenauHillDistribution(MargenauHillDistribution):
         return fwindow / fwindow[lh]
 
     def run(self):
+        self.tfr = np.zeros((self.n_fbins, self.ts.shape[0]), dtype=complex)
         lh = (self.fwindow.shape[0] - 1) // 2
         xrow = self.signal.shape[0]
         for icol in range(self.ts.shape[0]):
@@ -149,6 +154,7 @@ class WignerVilleDistribution(BaseTFRepresentation):
     name = "wigner-ville"
 
     def run(self):
+        self.tfr = np.zeros((self.n_fbins, self.ts.shape[0]), dtype=complex)
         tausec = self.n_fbins // 2
         winlength = (self.n_fbins - 1) // 2
         taulens = np.min(np.c_[np.arange(self.signal.shape[0]),
@@ -192,6 +198,7 @@ class PseudoWignerVilleDistribution(WignerVilleDistribution):
     name = "pseudo winger-ville"
 
     def run(self):
+        self.tfr = np.zeros((self.n_fbins, self.ts.shape[0]), dtype=complex)
         lh = (self.fwindow.shape[0] - 1) // 2
         for icol in range(self.ts.shape[0]):
             taumaxvals = (icol, self.signal.shape[0] - icol - 1,
diff --git a/tftb/processing/linear.py b/tftb/processing/linear.py
index a4f8d4b..e93e3c3 100644
--- a/tftb/processing/linear.py
+++ b/tftb/processing/linear.py
@@ -55,6 +55,7 @@ class ShortTimeFourierTransform(BaseTFRepresentation):
         .. math:: X[m, w] = \sum_{n=-\infty}^{\infty}x[n]w[n - m]e^{-j\omega n}
 
         Where :math:`w` is a Hamming window."""
+        self.tfr = np.zeros((self.n_fbins, self.ts.shape[0]), dtype=complex)
         lh = (self.fwindow.shape[0] - 1) // 2
         rangemin = min([(self.n_fbins - 1) // 2, lh])
         starts = -np.min(np.c_[rangemin * np.ones(self.ts.shape),
-- 
2.43.0


From c6a79ccfd77ba8c1af7481d0478f37a438ffdc48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:39:31 +0000
Subject: [PATCH 11/45] fix: smoothed pseudo Wigner-Ville stores lag tau in row
 tau

---
 tftb/processing/cohen.py | 38 +++++++++++++++++++-------------------
 1 file changed, 19 insertions(+), 19 deletions(-)

diff --git a/tftb/processing/cohen.py b/tftb/processing/cohen.py
index 38b0dae..8556965 100644
--- a/tftb/processing/cohen.py
+++ b/tftb/processing/cohen.py
@@ -268,40 +268,40 @@ def smoothed_pseudo_wigner_ville(signal, timestamps=None, freq_bins=None,
     lh = (fwindow.shape[0] - 1) // 2
     for icol in range(timestamps.shape[0]):
         ti = timestamps[icol]
-        taumax = min([ti + lg - 1, signal.shape[0] - ti + lg,
-                      round(freq_bins / 2.0) - 1, lh])
-        points = np.arange(-min([lg, signal.shape[0] - ti]),
-                           min([lg, ti - 1]) + 1).astype(int)
+        taumax = min([ti + lg, signal.shape[0] - 1 - ti + lg,
+                      (freq_bins - 1) // 2, lh])
+        points = np.arange(-min([lg, signal.shape[0] - 1 - ti]),
+                           min([lg, ti]) + 1).astype(int)
         lg_points = (lg + points).astype(int)
         g2 = twindow[lg_points]
         g2 = g2 / np.sum(g2)
-        signal_idx = (ti - points - 1).astype(int)
+        signal_idx = (ti - points).astype(int)
         tfr[0, icol] = np.sum(g2 * signal[signal_idx] * np.conj(signal[signal_idx]))
-        for tau in range(int(taumax)):
-            points = np.arange(-min([lg, signal.shape[0] - ti - tau]),
-                               min([lg, ti - 1 - tau]) + 1)
+        for tau in range(1, int(taumax) + 1):
+            points = np.arange(-min([lg, signal.shape[0] - 1 - ti - tau]),
+                               min([lg, ti - tau]) + 1)
             lg_points = (lg + points).astype(int)
             g2 = twindow[lg_points]
             g2 = g2 / np.sum(g2)
-            idx1 = (ti + tau - points - 1).astype(int)
-            idx2 = (ti - tau - points - 1).astype(int)
+            idx1 = (ti + tau - points).astype(int)
+            idx2 = (ti - tau - points).astype(int)
             R = np.sum(g2 * signal[idx1] * np.conj(signal[idx2]))
-            tfr[1 + tau, icol] = fwindow[lh + tau + 1] * R
+            tfr[tau, icol] = fwindow[lh + tau] * R
             R = np.sum(g2 * signal[idx2] * np.conj(signal[idx1]))
-            tfr[freq_bins - tau - 1, icol] = fwindow[lh - tau + 1] * R
-        tau = np.round(freq_bins / 2.0)
-        if (ti <= signal.shape[0] - tau) and (ti >= tau + 1) and (tau <= lh):
-            points = np.arange(-min([lg, signal.shape[0] - ti - tau]),
-                               min([lg, ti - 1 - tau]) + 1)
-            lg_points = (lg + 1 + points).astype(int)
+            tfr[freq_bins - tau, icol] = fwindow[lh - tau] * R
+        tau = freq_bins // 2
+        if freq_bins % 2 == 0 and tau <= ti < signal.shape[0] - tau and tau <= lh:
+            points = np.arange(-min([lg, signal.shape[0] - 1 - ti - tau]),
+                               min([lg, ti - tau]) + 1)
+            lg_points = (lg + points).astype(int)
             g2 = twindow[lg_points]
             g2 = g2 / np.sum(g2)
             idx1 = (ti + tau - points).astype(int)
             idx2 = (ti - tau - points).astype(int)
             _x = np.sum(g2 * signal[idx1] * np.conj(signal[idx2]))
-            _x *= fwindow[(lh + tau + 1).astype(int)]
+            _x *= fwindow[lh + tau]
             _y = np.sum(g2 * signal[idx2] * np.conj(signal[idx1]))
-            _y *= fwindow[(lh - tau + 1).astype(int)]
+            _y *= fwindow[lh - tau]
             tfr[tau, icol] = (_x + _y) * 0.5
     tfr = np.fft.fft(tfr, axis=0)
     return np.real(tfr)
-- 
2.43.0


From 57e00f22dc632612542592005f21e8747c8f8b40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:39:34 +0000
Subject: [PATCH 12/45] fix: fmconst has unit modulus for every time centre

---
 tftb/generators/frequency_modulated.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/tftb/generators/frequency_modulated.py b/tftb/generators/frequency_modulated.py
index 6857a66..ae08f12 100644
--- a/tftb/generators/frequency_modulated.py
+++ b/tftb/generators/frequency_modulated.py
@@ -32,7 +32,6 @@ def fmconst(n_points, fnorm=0.25, t0=None):
     else:
         tmt0 = np.arange(n_points) - t0
         y = np.exp(1j * 2.0 * np.pi * fnorm * tmt0)
-        y = y / np.real(y[int(t0)])
         iflaw = fnorm * np.ones((n_points,))
         return y, iflaw
 
-- 
2.43.0


From b3a9f4d20b1969bc8438c5c80e30c3335a7dc2f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:39:37 +0000
Subject: [PATCH 13/45] fix: fmodany refers the phase to sample t0 counted from
 one

---
 tftb/generators/frequency_modulated.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tftb/generators/frequency_modulated.py b/tftb/generators/frequency_modulated.py
index ae08f12..5d53d04 100644
--- a/tftb/generators/frequency_modulated.py
+++ b/tftb/generators/frequency_modulated.py
@@ -139,11 +139,11 @@ def fmodany(iflaw, t0=1):
     elif np.amax(np.abs(iflaw)) > 0.5:
         raise TypeError("Elements of iflaw should be within -0.5 and 0.5")
 
-    if (t0 > iflaw.shape[0]) or (t0 == 0):
+    if (t0 > iflaw.shape[0]) or (t0 < 1):
         raise TypeError("T0 should be between 1 and len(iflaw)")
 
     y = np.exp(1j * 2.0 * pi * np.cumsum(iflaw))
-    y = y * np.conjugate(y[t0])
+    y = y * np.conjugate(y[t0 - 1])
     return y
 
 
-- 
2.43.0


From 2cf23e68b7af187f5bcbff9f096773349346445f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:39:39 +0000
Subject: [PATCH 14/45] fix: fmpar phase is the integral of its frequency law

---
 tftb/generators/frequency_modulated.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tftb/generators/frequency_modulated.py b/tftb/generators/frequency_modulated.py
index 5d53d04..0aef8e4 100644
--- a/tftb/generators/frequency_modulated.py
+++ b/tftb/generators/frequency_modulated.py
@@ -165,7 +165,7 @@ def fmpar(n_points, coefficients):
     """
     a0, a1, a2 = coefficients
     t = np.arange(n_points)
-    phi = 2 * np.pi * (a0 * t + (a1 / 2 * t) ** 2 + (a2 / 3 * t) ** 3)
+    phi = 2 * np.pi * (a0 * t + a1 / 2 * t ** 2 + a2 / 3 * t ** 3)
     iflaw = a0 + a1 * t + a2 * (t ** 2)
     a, b = iflaw < 0, iflaw > 0.5
     aliasing = np.logical_or(a, b)
-- 
2.43.0


From 09f9659c3799bb451d86b1152222134de4b1e80f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:39:41 +0000
Subject: [PATCH 15/45] fix: fmpower starts at t=1 and accepts integer degrees

---
 tftb/generators/frequency_modulated.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tftb/generators/frequency_modulated.py b/tftb/generators/frequency_modulated.py
index 0aef8e4..cc46c85 100644
--- a/tftb/generators/frequency_modulated.py
+++ b/tftb/generators/frequency_modulated.py
@@ -202,7 +202,7 @@ def fmpower(n_points, k, coefficients):
         p2 = coefficients[2:]
         c = (p2[1] - p1[1]) / (1.0 / (p2[0] ** k) - 1.0 / (p1[0] ** k))
         f0 = p1[1] - c / (p1[0] ** k)
-    t = np.arange(n_points)
+    t = np.arange(1, n_points + 1, dtype=float)
     phi = 2 * np.pi * (f0 * t + c / (1 - k) * np.abs(t) ** (1 - k))
     iflaw = (f0 + c * np.abs(t) ** (-k))
     a, b = iflaw < 0, iflaw > 0.5
-- 
2.43.0


From 3fe4af9514937910d3d8bf5f5c3099539d23efc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:39:44 +0000
Subject: [PATCH 16/45] fix: fmsin phase is zero at t0

---
 tftb/generators/frequency_modulated.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tftb/generators/frequency_modulated.py b/tftb/generators/frequency_modulated.py
index cc46c85..3c6b740 100644
--- a/tftb/generators/frequency_modulated.py
+++ b/tftb/generators/frequency_modulated.py
@@ -252,8 +252,8 @@ def fmsin(n_points, fnormin=0.05, fnormax=0.45, period=None, t0=None,
     delta = 0.5 * (fnormax - fnormin)
     phi = -pm1 * np.arccos((fnorm0 - fnormid) / delta)
     t = np.arange(n_points) - t0
-    phase = 2 * pi * fnormid * t + delta * period * (np.sin(2 * pi * t / period + phi)) -\
-        np.sin(phi)
+    phase = 2 * pi * fnormid * t + delta * period * (np.sin(2 * pi * t / period + phi) -
+                                                         np.sin(phi))
     y = np.exp(1j * phase)
     iflaw = fnormid + delta * np.cos(2 * pi * t / period + phi)
     return y, iflaw
-- 
2.43.0


From e57722a74b4cf1b67f75e020983450d87ab2ef2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:39:46 +0000
Subject: [PATCH 17/45] fix: noisecg and noisecu return n samples for n <= 2

---
 tftb/generators/noise.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tftb/generators/noise.py b/tftb/generators/noise.py
index fbc91e1..c696852 100644
--- a/tftb/generators/noise.py
+++ b/tftb/generators/noise.py
@@ -25,7 +25,7 @@ def noisecu(n_points):
     .. plot:: docstring_plots/generators/noise/noisecu.py
     """
     if n_points <= 2:
-        noise = (np.random.rand(n_points, 1) - 0.5 + 1j * (np.random.rand(n_points, 1) - 0.5)) * \
+        noise = (np.random.rand(n_points) - 0.5 + 1j * (np.random.rand(n_points) - 0.5)) * \
             np.sqrt(6)
     else:
         noise = np.random.rand(2 ** int(nextpow2(n_points)),) - 0.5
@@ -65,7 +65,7 @@ def noisecg(n_points, a1=None, a2=None):
     """
     assert n_points > 0
     if n_points <= 2:
-        noise = (np.random.randn(n_points, 1.) + 1j * np.random.randn(n_points, 1.)) / np.sqrt(2.)
+        noise = (np.random.randn(n_points) + 1j * np.random.randn(n_points)) / np.sqrt(2.)
     else:
         noise = np.random.normal(size=int(2. ** nextpow2(float(n_points)),))
         noise = hilbert(noise) / noise.std() / np.sqrt(2.)
-- 
2.43.0


From ed0f2ab5d3bb4214f47b89ac626e95c54a50a185 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:39:49 +0000
Subject: [PATCH 18/45] fix: dopnoise returns n_points samples

---
 tftb/generators/noise.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/tftb/generators/noise.py b/tftb/generators/noise.py
index c696852..8475731 100644
--- a/tftb/generators/noise.py
+++ b/tftb/generators/noise.py
@@ -117,10 +117,10 @@ def dopnoise(n_points, s_freq, f_target, distance, v_target,
     y = np.zeros((2 * n_points,))
     for t in range(2, 2 * n_points):
         y[t] = x[t] - rr * (x[t - 2] + y[t - 2]) + r2 * np.cos(2.0 * np.pi * iflaw[t]) * y[t - 1]
-    y = hilbert(y[(n_points + 1): (2 * n_points + 1)]) /\
-        np.sqrt(dist[(n_points + 1): (2 * n_points + 1)])
+    y = hilbert(y[n_points: 2 * n_points]) /\
+        np.sqrt(dist[n_points: 2 * n_points])
     y = y / np.sqrt(np.sum(np.abs(y) ** 2))
-    iflaw = iflaw[(n_points + 1):(2 * n_points + 1)]
+    iflaw = iflaw[n_points:2 * n_points]
     return y, iflaw
 
 
-- 
2.43.0


From 989c1764c45278b656a4294c452d7790df4ca213 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:39:51 +0000
Subject: [PATCH 19/45] fix: anafsk and anaqpsk laws are truncated to n_points

---
 tftb/generators/analytic_signals.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tftb/generators/analytic_signals.py b/tftb/generators/analytic_signals.py
index 74231fb..39a9bbe 100644
--- a/tftb/generators/analytic_signals.py
+++ b/tftb/generators/analytic_signals.py
@@ -86,7 +86,7 @@ def anafsk(n_points, n_comp=None, Nbf=4):
     m = np.ceil(n_points / n_comp)
     m = int(np.ceil(n_points / n_comp))
     freqs = 0.25 + 0.25 * (np.floor(Nbf * np.random.rand(m, 1)) / Nbf - (Nbf - 1) / (2 * Nbf))
-    iflaw = np.repeat(freqs, n_comp).ravel()
+    iflaw = np.repeat(freqs, n_comp).ravel()[:n_points]
     y = np.exp(1j * 2 * pi * np.cumsum(iflaw))
     return y, iflaw
 
@@ -140,7 +140,7 @@ def anaqpsk(n_points, n_comp=None, f0=0.25):
     m = int(np.ceil(n_points / n_comp))
     jumps = np.floor(4 * np.random.rand(m))
     jumps[jumps == 4] = 3
-    pm0 = (np.pi * np.repeat(jumps, n_comp) / 2).ravel()
+    pm0 = (np.pi * np.repeat(jumps, n_comp) / 2).ravel()[:n_points]
     tm = np.arange(n_points) - 1
     pm = 2 * np.pi * f0 * tm + pm0
     y = np.exp(1j * pm)
-- 
2.43.0


From bf17546cb194850d9461e1e2dca634e9509c46db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:39:53 +0000
Subject: [PATCH 20/45] fix: gdpower with degree 1 returns a pulse inside the
 signal

---
 tftb/generators/misc.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tftb/generators/misc.py b/tftb/generators/misc.py
index 16e9532..71c0578 100644
--- a/tftb/generators/misc.py
+++ b/tftb/generators/misc.py
@@ -214,7 +214,7 @@ def gdpower(n_points, degree=0.0, rate=1.0):
         x = np.fft.ifft(tfx)
     elif degree == 1.:
         from tftb.generators.analytic_signals import anapulse
-        t0 = n_points
+        t0 = n_points - 1
         x = anapulse(n_points, t0)
     elif degree > 1.:
         d = n_points * 2. ** (degree - 1.) * rate
@@ -229,7 +229,7 @@ def gdpower(n_points, degree=0.0, rate=1.0):
     if degree != 1.0:
         gpd = t0 + np.abs(np.sign(rate) - 1.0) / 2.0 * (n_points + 1.0) + d * nu ** (degree - 1.0)
     else:
-        gpd = t0 * np.ones((n_points / 2.0,))
+        gpd = t0 * np.ones((lnu,))
 
     x = x - x.mean()
     x = x / np.linalg.norm(x)
-- 
2.43.0


From d8b3cb5a906783488b4bd8c4d76762c23556d007 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:39:56 +0000
Subject: [PATCH 21/45] fix: klauder returns n_points samples for odd n_points

---
 tftb/generators/misc.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tftb/generators/misc.py b/tftb/generators/misc.py
index 71c0578..0a9f968 100644
--- a/tftb/generators/misc.py
+++ b/tftb/generators/misc.py
@@ -141,11 +141,11 @@ def klauder(n_points, attenuation=10.0, f0=0.2):
     assert n_points > 0
     assert ((f0 < 0.5) and (f0 > 0))
 
-    f = np.linspace(0., 0.5, int(n_points / 2 + 1))
+    f = np.arange(n_points // 2 + 1) / float(n_points)
     mod = np.exp(-2. * np.pi * attenuation * f) * f ** (2. * np.pi * attenuation * f0 - 0.5)
     wave = mod
     wave[0] = 0
-    a, b = wave[:int(n_points / 2)], wave[1:int(n_points / 2 + 1)][::-1]
+    a, b = wave[:(n_points + 1) // 2], wave[1:int(n_points / 2 + 1)][::-1]
     wave = np.hstack((a, b))
     wavet = np.fft.ifft(wave)
     wavet = np.fft.fftshift(wavet)
-- 
2.43.0


From 9e2509dea1b77b3b364ad6a0dab02de898023cce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:39:58 +0000
Subject: [PATCH 22/45] fix: locfreq frequency bins for odd-length signals

---
 tftb/processing/freq_domain.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/tftb/processing/freq_domain.py b/tftb/processing/freq_domain.py
index 33f7c72..8e106ca 100644
--- a/tftb/processing/freq_domain.py
+++ b/tftb/processing/freq_domain.py
@@ -25,12 +25,12 @@ def locfreq(signal):
             raise TypeError
         else:
             signal = signal.ravel()
-    no2r = np.round(signal.shape[0] / 2.0)
-    no2f = np.floor(signal.shape[0] / 2.0)
+    no2r = (signal.shape[0] + 1) // 2
+    no2f = signal.shape[0] // 2
     sig = np.fft.fft(signal)
     sig = np.abs(sig) ** 2
     sig = sig / sig.mean()
-    freqs = np.hstack((np.arange(no2f), np.arange(-no2r, 0))) / signal.shape[0]
+    freqs = np.hstack((np.arange(no2r), np.arange(-no2f, 0))) / signal.shape[0]
     fm = np.mean(freqs * sig)
     bw = 2 * np.sqrt(np.pi * np.mean(((freqs - fm) ** 2) * sig))
     return fm, bw
-- 
2.43.0


From 9f5caf67b7d252708849afa0e496acc6824ac79a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:40:00 +0000
Subject: [PATCH 23/45] fix: renyi_information leaves the caller's axes alone

---
 tftb/processing/postprocessing.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tftb/processing/postprocessing.py b/tftb/processing/postprocessing.py
index c224b1d..2276f38 100644
--- a/tftb/processing/postprocessing.py
+++ b/tftb/processing/postprocessing.py
@@ -87,10 +87,10 @@ def renyi_information(tfr, timestamps=None, freq=None, alpha=3.0):
     if timestamps is None:
         timestamps = np.arange(n) + 1
     elif np.allclose(timestamps, np.arange(n)):
-        timestamps += 1
+        timestamps = timestamps + 1
     if freq is None:
         freq = np.arange(m)
-    freq.sort()
+    freq = np.sort(freq)
     tfr = tfr / integrate_2d(tfr, timestamps, freq)
     if alpha == 1:
         R = -integrate_2d(tfr * np.log2(tfr + np.spacing(1)), timestamps, freq)
-- 
2.43.0


From 0d95ad9dab8e81c7055ce4b9d9267608d14acbaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:40:02 +0000
Subject: [PATCH 24/45] fix: hough_transform distance axis matches the
 accumulator rows

---
 tftb/processing/postprocessing.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tftb/processing/postprocessing.py b/tftb/processing/postprocessing.py
index 2276f38..ff51719 100644
--- a/tftb/processing/postprocessing.py
+++ b/tftb/processing/postprocessing.py
@@ -62,7 +62,7 @@ def hough_transform(image, m=None, n=None):
                         ht[int(np.round(rho / deltar)),
                            int(np.round(theta / deltat))] += image[x + xc - 1,
                                                                    y + yc - 1]
-    rho = np.linspace(0, rhomax, n)
+    rho = np.linspace(0, rhomax, m)
     theta = np.linspace(0, 2 * np.pi - deltat, n)
     return ht, rho, theta
 
-- 
2.43.0


From 42c2674658f3ebb1efe73c40efbf1a00abc9097a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:40:05 +0000
Subject: [PATCH 25/45] fix: divider uses exact integer arithmetic

---
 tftb/utils.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/tftb/utils.py b/tftb/utils.py
index 0045717..62116fd 100644
--- a/tftb/utils.py
+++ b/tftb/utils.py
@@ -77,11 +77,9 @@ def divider(N):
     >>> print(divider(101))
     (1, 101)
     """
-    s = math.sqrt(N)
-    if s % 1 == 0:
-        s = int(s)
+    s = math.isqrt(N)
+    if s * s == N:
         return s, s
-    s = math.ceil(s)
     for i in range(s, 0, -1):
         factor = N // i
         if N % i == 0:
-- 
2.43.0


From 5432aabd2395c2f48a373010b2362e7cc3530c65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:40:07 +0000
Subject: [PATCH 26/45] fix: reassigned methods find the Hamming window

---
 tftb/processing/reassigned.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/tftb/processing/reassigned.py b/tftb/processing/reassigned.py
index 252f8ce..26f3b90 100644
--- a/tftb/processing/reassigned.py
+++ b/tftb/processing/reassigned.py
@@ -38,7 +38,7 @@ def pseudo_wigner_ville(signal, timestamps=None, n_fbins=None, fwindow=None):
         hlength = np.floor(n_fbins / 4.0)
         if hlength % 2 == 0:
             hlength += 1
-        fwindow = ssig.hamming(int(hlength))
+        fwindow = ssig.windows.hamming(int(hlength))
     elif fwindow.shape[0] % 2 == 0:
         raise ValueError('The smoothing fwindow must have an odd length.')
     lh = (fwindow.shape[0] - 1) // 2
@@ -119,7 +119,7 @@ def pseudo_margenau_hill(signal, timestamps=None, n_fbins=None, fwindow=None):
         hlength = np.floor(n_fbins / 4.0)
         if hlength % 2 == 0:
             hlength += 1
-        fwindow = ssig.hamming(hlength)
+        fwindow = ssig.windows.hamming(hlength)
     elif fwindow.shape[0] % 2 == 0:
         raise ValueError('The smoothing fwindow must have an odd length.')
     lh = (fwindow.shape[0] - 1) / 2
@@ -194,7 +194,7 @@ def pseudo_page(signal, timestamps=None, n_fbins=None, fwindow=None):
         hlength = np.floor(n_fbins / 4.0)
         if hlength % 2 == 0:
             hlength += 1
-        fwindow = ssig.hamming(hlength)
+        fwindow = ssig.windows.hamming(hlength)
     elif fwindow.shape[0] % 2 == 0:
         raise ValueError('The smoothing fwindow must have an odd length.')
     lh = (fwindow.shape[0] - 1) / 2
@@ -385,7 +385,7 @@ def smoothed_pseudo_wigner_ville(signal, timestamps=None, n_fbins=None,
     if fwindow is None:
         hlength = np.floor(n_fbins / 4.0)
         hlength += 1 - (hlength % 2)
-        fwindow = ssig.hamming(hlength)
+        fwindow = ssig.windows.hamming(hlength)
     elif fwindow.shape[0] % 2 == 0:
         raise ValueError('The smoothing window must have an odd length.')
     lh = (fwindow.shape[0] - 1) / 2
@@ -393,7 +393,7 @@ def smoothed_pseudo_wigner_ville(signal, timestamps=None, n_fbins=None,
     if twindow is None:
         glength = np.floor(n_fbins / 4.0)
         glength += 1 - (glength % 2)
-        twindow = ssig.hamming(glength)
+        twindow = ssig.windows.hamming(glength)
     elif twindow.shape[0] % 2 == 0:
         raise ValueError('The smoothing window must have an odd length.')
     lg = (twindow.shape[0] - 1) / 2
@@ -493,7 +493,7 @@ def spectrogram(signal, time_samples=None, n_fbins=None, window=None):
     if window is None:
         wlength = int(np.floor(signal.shape[0] / 4.0))
         wlength += 1 - np.remainder(wlength, 2)
-        window = ssig.hamming(wlength)
+        window = ssig.windows.hamming(wlength)
     elif window.shape[0] % 2 == 0:
         raise ValueError('The smoothing window must have an odd length.')
 
@@ -553,7 +553,7 @@ if __name__ == '__main__':
     import matplotlib.pyplot as plt
     ts = np.arange(128, step=2)
     sig = fmlin(128, 0.1, 0.4)[0]
-    fwindow = ssig.kaiser(17, beta=3 * np.pi)
+    fwindow = ssig.windows.kaiser(17, beta=3 * np.pi)
     _, rtfr, _ = pseudo_wigner_ville(sig, timestamps=ts, n_fbins=64,
                                      fwindow=fwindow)
     rtfr = np.abs(rtfr) ** 2
-- 
2.43.0


From 60df890096a1bda9174a3b426d9d6be398f31200 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:40:09 +0000
Subject: [PATCH 27/45] fix: reassigned spectrogram is centred on its own
 samples and bins

---
 tftb/processing/reassigned.py | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/tftb/processing/reassigned.py b/tftb/processing/reassigned.py
index 26f3b90..ae3fc0e 100644
--- a/tftb/processing/reassigned.py
+++ b/tftb/processing/reassigned.py
@@ -506,14 +506,14 @@ def spectrogram(signal, time_samples=None, n_fbins=None, window=None):
 
     for icol in range(time_samples.shape[0]):
         ti = time_samples[icol]
-        tau = np.arange(-np.min([np.round(n_fbins / 2) - 1, lh, ti]),
-                        np.min([np.round(n_fbins / 2) - 1, lh,
-                                signal.shape[0] - ti]) + 1).astype(int)
+        tau = np.arange(-np.min([(n_fbins - 1) // 2, lh, ti]),
+                        np.min([(n_fbins - 1) // 2, lh,
+                                signal.shape[0] - 1 - ti]) + 1).astype(int)
         indices = np.remainder(n_fbins + tau, n_fbins)
         norm_h = np.linalg.norm(window[lh + tau], ord=2)
-        tfr[indices, icol] = signal[ti + tau - 1] * np.conj(window[lh + tau]) / norm_h
-        tf2[indices, icol] = signal[ti + tau - 1] * np.conj(th[lh + tau]) / norm_h
-        tf3[indices, icol] = signal[ti + tau - 1] * np.conj(dwin[lh + tau]) / norm_h
+        tfr[indices, icol] = signal[ti + tau] * np.conj(window[lh + tau]) / norm_h
+        tf2[indices, icol] = signal[ti + tau] * np.conj(th[lh + tau]) / norm_h
+        tf3[indices, icol] = signal[ti + tau] * np.conj(dwin[lh + tau]) / norm_h
 
     tfr = np.fft.fft(tfr, axis=0).ravel()
     tf2 = np.fft.fft(tf2, axis=0).ravel()
@@ -531,16 +531,16 @@ def spectrogram(signal, time_samples=None, n_fbins=None, window=None):
     tf3 = np.real(tf3)
 
     rtfr = np.zeros((n_fbins, time_samples.shape[0]), dtype=complex)
-    ix = np.arange(time_samples.min(), time_samples.max() + 1) - 1
+    ix = np.arange(time_samples.min(), time_samples.max() + 1)
     threshold = 1e-6 * np.mean(np.abs(signal[ix])**2)
     for icol in range(time_samples.shape[0]):
         for jcol in range(n_fbins):
             if np.abs(tfr[jcol, icol]) > threshold:
                 icolhat = icol + tf2[jcol, icol]
-                icolhat = np.min([np.max([icolhat, 1]), time_samples.shape[0]])
+                icolhat = np.min([np.max([icolhat, 0]), time_samples.shape[0] - 1])
                 jcolhat = jcol - tf3[jcol, icol]
-                jcolhat = (((jcolhat - 1) % n_fbins) + n_fbins) % n_fbins
-                rtfr[int(jcolhat), int(icolhat) - 1] += tfr[jcol, icol]
+                jcolhat = ((jcolhat % n_fbins) + n_fbins) % n_fbins
+                rtfr[int(jcolhat), int(icolhat)] += tfr[jcol, icol]
                 tf2[jcol, icol] = jcolhat + 1j * icolhat
             else:
                 tf2[jcol, icol] = np.inf
-- 
2.43.0


From b26566cb87adc74aeeafb848ef75d0bf71e29c35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:40:11 +0000
Subject: [PATCH 28/45] fix: reassigned pseudo Wigner-Ville is centred on its
 own samples and bins

---
 tftb/processing/reassigned.py | 33 ++++++++++++++++-----------------
 1 file changed, 16 insertions(+), 17 deletions(-)

diff --git a/tftb/processing/reassigned.py b/tftb/processing/reassigned.py
index ae3fc0e..dda3842 100644
--- a/tftb/processing/reassigned.py
+++ b/tftb/processing/reassigned.py
@@ -49,21 +49,21 @@ def pseudo_wigner_ville(signal, timestamps=None, n_fbins=None, fwindow=None):
     dh = derive_window(fwindow)
     for icol in range(tcol):
         ti = timestamps[icol]
-        taumax = min([ti - 1, xrow - ti, np.round(n_fbins / 2.0) - 1, lh])
+        taumax = min([ti, xrow - 1 - ti, (n_fbins - 1) // 2, lh])
         tau = np.arange(-taumax, taumax + 1)
-        indices = np.remainder(n_fbins + tau, n_fbins) + 1
-        tfr[indices - 1, icol] = fwindow[lh + tau] * signal[ti + tau - 1] * \
-            np.conj(signal[ti - tau - 1])
-        tf2[indices - 1, icol] = dh[lh + tau] * signal[ti + tau - 1] * \
-            np.conj(signal[ti - tau - 1])
-        tau = np.round(n_fbins / 2)
-        if (ti <= (xrow - tau)) and (ti > (tau + 1)) and (tau <= lh):
-            _x = fwindow[lh + 1 + tau] * signal[ti + tau] * np.conj(signal[ti - tau])
-            _y = fwindow[lh + 1 - tau] * signal[ti - tau] * np.conj(signal[ti + tau])
-            tfr[tau + 1, icol] = (_x + _y) * 0.5
-            _x = dh[lh + 1 + tau] * signal[ti + tau] * np.conj(signal[ti - tau])
-            _y = dh[lh + 1 - tau] * signal[ti - tau] * np.conj(signal[ti + tau])
-            tf2[tau + 1, icol] = (_x + _y) * 0.5
+        indices = np.remainder(n_fbins + tau, n_fbins)
+        tfr[indices, icol] = fwindow[lh + tau] * signal[ti + tau] * \
+            np.conj(signal[ti - tau])
+        tf2[indices, icol] = dh[lh + tau] * signal[ti + tau] * \
+            np.conj(signal[ti - tau])
+        tau = n_fbins // 2
+        if n_fbins % 2 == 0 and tau <= ti < xrow - tau and tau <= lh:
+            _x = fwindow[lh + tau] * signal[ti + tau] * np.conj(signal[ti - tau])
+            _y = fwindow[lh - tau] * signal[ti - tau] * np.conj(signal[ti + tau])
+            tfr[tau, icol] = (_x + _y) * 0.5
+            _x = dh[lh + tau] * signal[ti + tau] * np.conj(signal[ti - tau])
+            _y = dh[lh - tau] * signal[ti - tau] * np.conj(signal[ti + tau])
+            tf2[tau, icol] = (_x + _y) * 0.5
     tfr = np.real(np.fft.fft(tfr, axis=0))
     tf2 = np.imag(np.fft.fft(tf2, axis=0))
     tfr = tfr.ravel()
@@ -83,9 +83,8 @@ def pseudo_wigner_ville(signal, timestamps=None, n_fbins=None, fwindow=None):
         for jcol in range(n_fbins):
             if np.abs(tfr[jcol, icol]) > threshold:
                 jcolhat = jcol - int(tf2[jcol, icol])
-                jcolhat = (((jcolhat - 1) % n_fbins) + n_fbins) % n_fbins
-                jcolhat += 1
-                rtfr[jcolhat - 1, icol] += tfr[jcol, icol]
+                jcolhat = ((jcolhat % n_fbins) + n_fbins) % n_fbins
+                rtfr[jcolhat, icol] += tfr[jcol, icol]
                 tf2[jcol, icol] = jcolhat
             else:
                 tf2[jcol, icol] = np.inf
-- 
2.43.0


From 2425e7c6342ff42a8587a464a45f2b99df5e9201 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:40:13 +0000
Subject: [PATCH 29/45] fix: Scalogram accepts n_voices different from the
 signal length

---
 tftb/processing/affine.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tftb/processing/affine.py b/tftb/processing/affine.py
index fd51e1e..bfe26da 100644
--- a/tftb/processing/affine.py
+++ b/tftb/processing/affine.py
@@ -170,7 +170,7 @@ class Scalogram(AffineDistribution):
         self.waveparams = waveparams
         s_centered = np.real(self.signal) - np.real(self.signal).mean()
         self.z = hilbert(s_centered)
-        self.tfr = self.tfr.astype(complex)
+        self.tfr = np.zeros((n_voices, self.ts.shape[0]), dtype=complex)
 
     def run(self):
         f = np.logspace(np.log10(self.fmin), np.log10(self.fmax), self.n_voices)
-- 
2.43.0


From 49eae4dfd6d67f9e2748dc56ec1bd64dbcddd61a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:40:15 +0000
Subject: [PATCH 30/45] fix: Scalogram wavelet coefficients and Mexican hat
 branch are aligned with time

---
 tftb/processing/affine.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tftb/processing/affine.py b/tftb/processing/affine.py
index bfe26da..2a2c75c 100644
--- a/tftb/processing/affine.py
+++ b/tftb/processing/affine.py
@@ -191,8 +191,8 @@ class Scalogram(AffineDistribution):
                     detail.shape[0] - int(np.round(nha)) + 1,
                     dtype=int,
                 )
-                wt[ptr, :] = detail[self.ts]
                 detail = detail[ix]
+                wt[ptr, :] = detail[self.ts]
                 self.tfr[ptr, :] = detail[self.ts] * np.conj(detail[self.ts])
         elif self.waveparams == 0:
             for ptr in range(self.n_voices):
@@ -200,7 +200,7 @@ class Scalogram(AffineDistribution):
                 nha = (ha.shape[0] - 1) / 2
                 detail = np.convolve(self.z, ha) / np.sqrt(a[ptr])
                 ix = np.arange(
-                    int(np.round(nha)) + 1, detail.shape[0] - int(np.round(nha)) + 1
+                    int(np.round(nha)), detail.shape[0] - int(np.round(nha)) + 1
                 )
                 detail = detail[ix]
                 wt[ptr, :] = detail[self.ts]
-- 
2.43.0


From 3b7bd495589afc42732d82ee017dede6d87ddc4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:40:17 +0000
Subject: [PATCH 31/45] fix: affine distributions define the analysed duration
 in every case

---
 tftb/processing/affine.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/tftb/processing/affine.py b/tftb/processing/affine.py
index 2a2c75c..0a6ef09 100644
--- a/tftb/processing/affine.py
+++ b/tftb/processing/affine.py
@@ -59,6 +59,7 @@ class AffineDistribution(BaseTFRepresentation):
         self.fmax, self.fmin = fmax, fmin
         self.bw = fmax - fmin
         self.R = self.bw / (fmin + fmax) * 2
+        self.T = self.ts.max() - self.ts.min()
 
     def _get_nvoices(self):
         q = (
-- 
2.43.0


From 0c612e1ecb0e93ff103b17ea8d4a26e92abb0b7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:40:19 +0000
Subject: [PATCH 32/45] fix: Unterberger passive form uses the current dilation
 sample

---
 tftb/processing/affine.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tftb/processing/affine.py b/tftb/processing/affine.py
index 0a6ef09..247c5ab 100644
--- a/tftb/processing/affine.py
+++ b/tftb/processing/affine.py
@@ -297,7 +297,7 @@ class UnterbergerDistribution(AffineDistribution):
             fx2 = np.fft.fft(np.fft.fftshift(mx2))[: self.n_voices]
             waf[n - 1, :] = fx1 * np.conj(fx2)
             if self.form != "A":
-                waf[n - 1, :] *= 1 / np.sqrt(1 + (self.u[n] / 2) ** 2)
+                waf[n - 1, :] *= 1 / np.sqrt(1 + (self.u[n - 1] / 2) ** 2)
         waf = np.vstack((waf[self.m1: (2 * self.m1), :], waf[: self.m1, :]))
         waf *= np.repeat(
             self.geo_f.reshape((1, self.geo_f.shape[0])), 2 * self.m1, axis=0
-- 
2.43.0


From 832e189eaee26c591ea87c1c966b548070ba5ac7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:40:21 +0000
Subject: [PATCH 33/45] fix: gabor accumulates the Zak energy with the Zak
 transform's shape

---
 tftb/processing/linear.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/tftb/processing/linear.py b/tftb/processing/linear.py
index e93e3c3..32c4844 100644
--- a/tftb/processing/linear.py
+++ b/tftb/processing/linear.py
@@ -126,7 +126,6 @@ def gabor(signal, n_coeff=None, q_oversample=None, window=None):
         window = np.exp(np.log(0.005) * np.linspace(-1, 1, nearest_odd(n_coeff)) ** 2)
         window = window / np.linalg.norm(window)
     m = int(q_oversample * signal.shape[0] / float(n_coeff))
-    mb = int(signal.shape[0] / float(n_coeff))
     nb = int(signal.shape[0] / float(m))
 
     # Zak transform?
@@ -141,7 +140,7 @@ def gabor(signal, n_coeff=None, q_oversample=None, window=None):
 
     msig = hn1.reshape(int(nb), int(m), order='F')
     dzth = np.fft.fft(msig.T, axis=0) / np.sqrt(m)
-    mzh = np.zeros((m, mb))
+    mzh = np.zeros((m, nb))
     x = np.arange(1, m + 1, dtype=float)
     for l in range(q_oversample):  # NOQA: E741
         mod = modulo(x - l * m / q_oversample, m).astype(int)
-- 
2.43.0


From 7568d651392d59fab0ddcf3909dd57ddc5d5d988 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:05:56 +0000
Subject: [PATCH 34/45] fix: fmodany checks the frequency range of column
 vectors too

---
 tftb/generators/frequency_modulated.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tftb/generators/frequency_modulated.py b/tftb/generators/frequency_modulated.py
index 3c6b740..9b4b00e 100644
--- a/tftb/generators/frequency_modulated.py
+++ b/tftb/generators/frequency_modulated.py
@@ -136,7 +136,7 @@ def fmodany(iflaw, t0=1):
         if iflaw.shape[1] != 1:
             raise TypeError("iflaw should be a column vector.")
 
-    elif np.amax(np.abs(iflaw)) > 0.5:
+    if np.amax(np.abs(iflaw)) > 0.5:
         raise TypeError("Elements of iflaw should be within -0.5 and 0.5")
 
     if (t0 > iflaw.shape[0]) or (t0 < 1):
-- 
2.43.0


From fa364e349187ee3c45a18042a0f553eef4ab76be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:19:32 +0000
Subject: [PATCH 35/45] fix: atoms takes a coordinate vector as a single atom

---
 tftb/generators/misc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tftb/generators/misc.py b/tftb/generators/misc.py
index 0a9f968..8b934c6 100644
--- a/tftb/generators/misc.py
+++ b/tftb/generators/misc.py
@@ -56,7 +56,7 @@ def atoms(n_points, coordinates):
     .. plot:: docstring_plots/generators/misc/atoms.py
     """
     if coordinates.ndim == 1:
-        coordinates = coordinates.reshape((coordinates.shape[0], 1))
+        coordinates = coordinates.reshape((1, coordinates.shape[0]))
     signal = np.zeros((n_points,), dtype=complex)
     n_atoms = coordinates.shape[0]
     for k in range(n_atoms):
-- 
2.43.0


From b67cd5a4fc1a3be26d16651475b7ba77a454c54c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:31:53 +0000
Subject: [PATCH 36/45] fix: nextpow2 just above a large power of two

---
 tftb/utils.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/tftb/utils.py b/tftb/utils.py
index 62116fd..e8c66ee 100644
--- a/tftb/utils.py
+++ b/tftb/utils.py
@@ -56,7 +56,10 @@ def nextpow2(n):
     >>> print(nextpow2(x))
     [ 0.  1.  2.  2.  3.  3.  3.  3.]
     """
-    return math.ceil(math.log2(n))
+    e = math.ceil(math.log2(n))
+    if 2 ** e < n:  # log2 rounds down to e just above 2 ** e
+        e += 1
+    return e
 
 
 def divider(N):
-- 
2.43.0


From 0a957760ba045e99f1edfb152c74a3cccc652cef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:31:53 +0000
Subject: [PATCH 37/45] fix: izak accepts a vector as a one-column matrix

---
 tftb/utils.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/tftb/utils.py b/tftb/utils.py
index e8c66ee..a5b5a44 100644
--- a/tftb/utils.py
+++ b/tftb/utils.py
@@ -36,6 +36,7 @@ def izak(x):
         n, m = x.shape
     else:
         n, m = x.shape[0], 1
+        x = x.reshape((n, m))
     sig = np.zeros((n * m, ), dtype=complex)
     for im in range(m):
         sig[im + np.arange(n) * m] = np.sqrt(n) * np.fft.ifft(x[:, im], axis=0)
-- 
2.43.0


From 5a8fcccd248146cb02644d6f53521678b1dbf3f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:27 +0000
Subject: [PATCH 38/45] fix: derive_window of a one-point window is zero, not
 NaN

---
 tftb/processing/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tftb/processing/utils.py b/tftb/processing/utils.py
index d69690e..d8eebe4 100644
--- a/tftb/processing/utils.py
+++ b/tftb/processing/utils.py
@@ -67,7 +67,7 @@ def derive_window(window):
     """
     lh = (window.shape[0] - 1) / 2.0
     step_height = (window[0] + window[-1]) / 2.0
-    ramp = (window[0] - window[-1]) / (window.shape[0] - 1)
+    ramp = (window[0] - window[-1]) / max(window.shape[0] - 1, 1)
     base = np.arange(-lh, lh + 1)
     base = window - step_height - ramp * base
     base = np.hstack((np.array([0]), base, np.array([0])))
-- 
2.43.0


From 7d282294333266db59999d13c0a54e819034ea98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:27 +0000
Subject: [PATCH 39/45] fix: fmlin of a single point divided by zero

---
 tftb/generators/frequency_modulated.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tftb/generators/frequency_modulated.py b/tftb/generators/frequency_modulated.py
index 9b4b00e..eb43b34 100644
--- a/tftb/generators/frequency_modulated.py
+++ b/tftb/generators/frequency_modulated.py
@@ -103,7 +103,7 @@ def fmlin(n_points, fnormi=0.0, fnormf=0.5, t0=None):
 
     else:
         y = np.arange(1, n_points + 1)
-        y = fnormi * (y - t0) + ((fnormf - fnormi) / (2.0 * (n_points - 1))) * \
+        y = fnormi * (y - t0) + ((fnormf - fnormi) / (2.0 * max(n_points - 1, 1))) * \
             ((y - 1) ** 2 - (t0 - 1) ** 2)
         y = np.exp(1j * 2.0 * np.pi * y)
         y = y / y[int(t0) - 1]
-- 
2.43.0


From 9dffadb1b0f0342c2252e1b59a758c753982cb49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:27 +0000
Subject: [PATCH 40/45] fix: Mellin grid of the affine distributions lost a
 point to rounding

---
 tftb/processing/affine.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tftb/processing/affine.py b/tftb/processing/affine.py
index 247c5ab..e89e29e 100644
--- a/tftb/processing/affine.py
+++ b/tftb/processing/affine.py
@@ -101,7 +101,7 @@ class AffineDistribution(BaseTFRepresentation):
         mellin2 = np.fft.fftshift(np.fft.ifft(S2))
         umin = -self.umax
         du = np.abs(self.umax - umin) / (2 * self.m1)
-        u = np.linspace(umin, self.umax - du, int((self.umax - umin) / du))
+        u = np.linspace(umin, self.umax - du, 2 * int(self.m1))
         u[int(self.m1)] = 0
         self.u = u
         beta = (p / float(self.n_voices) - 1) / (2 * np.log(self.q))
-- 
2.43.0


From d6b1604abff192f6d125d4676ba0aaeee2c384a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:27 +0000
Subject: [PATCH 41/45] fix: affine normalisation band depends on the signal,
 not on the instants

---
 tftb/processing/affine.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tftb/processing/affine.py b/tftb/processing/affine.py
index e89e29e..defbb03 100644
--- a/tftb/processing/affine.py
+++ b/tftb/processing/affine.py
@@ -76,8 +76,8 @@ class AffineDistribution(BaseTFRepresentation):
     def _normalize(self):
         SP1 = np.fft.fft(hilbert(self.s1), axis=0)
         SP2 = np.fft.fft(hilbert(self.s2), axis=0)
-        indmin = 1 + int(np.round(self.fmin * (self.ts.shape[0] - 2)))
-        indmax = 1 + int(np.round(self.fmax * (self.ts.shape[0] - 2)))
+        indmin = 1 + int(np.round(self.fmin * (self.signal.shape[0] - 2)))
+        indmax = 1 + int(np.round(self.fmax * (self.signal.shape[0] - 2)))
         sp1_ana = SP1[(indmin - 1): indmax]
         sp2_ana = SP2[(indmin - 1): indmax]
         return sp1_ana, sp2_ana
-- 
2.43.0


From b828b7ab9fb74144878ca09559997cabc0468089 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:27 +0000
Subject: [PATCH 42/45] fix: scalogram energy band was shifted by one bin

---
 tftb/processing/affine.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tftb/processing/affine.py b/tftb/processing/affine.py
index defbb03..116889e 100644
--- a/tftb/processing/affine.py
+++ b/tftb/processing/affine.py
@@ -245,7 +245,7 @@ class Scalogram(AffineDistribution):
         SP = np.fft.fft(self.z, axis=0)
         indmin = 1 + int(np.round(self.fmin * (self.signal.shape[0] - 2)))
         indmax = 1 + int(np.round(self.fmax * (self.signal.shape[0] - 2)))
-        SPana = SP[indmin: (indmax + 1)]
+        SPana = SP[(indmin - 1): indmax]
         self.tfr = np.real(self.tfr)
         self.tfr *= (np.linalg.norm(SPana) ** 2) / integrate_2d(self.tfr, self.ts, f)
         self.tfr /= self.n_voices
-- 
2.43.0


From d2ff1f357478edfcfd7b258796875e1d6044d844 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:27 +0000
Subject: [PATCH 43/45] fix: Scalogram ignored its timestamps

---
 tftb/processing/affine.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tftb/processing/affine.py b/tftb/processing/affine.py
index 116889e..226d70a 100644
--- a/tftb/processing/affine.py
+++ b/tftb/processing/affine.py
@@ -162,7 +162,7 @@ class Scalogram(AffineDistribution):
     def __init__(
         self, signal, fmin=None, fmax=None, n_voices=None, waveparams=None, **kwargs
     ):
-        super(Scalogram, self).__init__(signal, fmin=fmin, fmax=fmax)
+        super(Scalogram, self).__init__(signal, fmin=fmin, fmax=fmax, **kwargs)
         if waveparams is None:
             waveparams = np.sqrt(signal.shape[0])
         if n_voices is None:
-- 
2.43.0


From 205d58cb7faf398b5669bc22b22c31cc93a3e3bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:19:49 +0000
Subject: [PATCH 44/45] fix: gabor's dual window was not biorthogonal to the
 window (Zak transform over the wrong lattice)

The Zak transform was taken with period nb in time, while the coefficients use
m frequency channels, so that its energy was summed over the wrong lattice and
sum_jk dgr[k,j] h(t - j r) exp(2 i pi k t / m) did not give the signal back.
---
 tftb/processing/linear.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/tftb/processing/linear.py b/tftb/processing/linear.py
index 32c4844..b725639 100644
--- a/tftb/processing/linear.py
+++ b/tftb/processing/linear.py
@@ -138,13 +138,13 @@ def gabor(signal, n_coeff=None, q_oversample=None, window=None):
     end = np.round((signal.shape[0] + nh - 1) / 2) - alpha
     hn1[np.arange(start - 1, end).astype(int)] = window
 
-    msig = hn1.reshape(int(nb), int(m), order='F')
-    dzth = np.fft.fft(msig.T, axis=0) / np.sqrt(m)
-    mzh = np.zeros((m, nb))
+    msig = hn1.reshape(int(nb), int(m))
+    dzth = np.fft.fft(msig, axis=0) / np.sqrt(nb)
+    mzh = np.zeros((nb, m))
     x = np.arange(1, m + 1, dtype=float)
     for l in range(q_oversample):  # NOQA: E741
         mod = modulo(x - l * m / q_oversample, m).astype(int)
-        mzh += np.abs(dzth[mod - 1, :]) ** 2
+        mzh += np.abs(dzth[:, mod - 1]) ** 2
 
     mzh[mzh < np.spacing(1)] = 1
 
-- 
2.43.0


From 10cfa53a21ee381bcb35a70037c63068cdd43d3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:29:57 +0000
Subject: [PATCH 45/45] fix: BertrandDistribution raised ValueError for
 fmax/fmin above exp(4)

The root of exp(u) - fmax/fmin was searched in [0, 4] only; it is log(fmax/fmin).
---
 tftb/processing/affine.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/tftb/processing/affine.py b/tftb/processing/affine.py
index 226d70a..8f07a08 100644
--- a/tftb/processing/affine.py
+++ b/tftb/processing/affine.py
@@ -12,7 +12,7 @@ Bilinear Time-Frequency Processing in the Affine Class.
 
 import numpy as np
 from scipy.signal import hilbert
-from scipy.optimize import brenth, newton
+from scipy.optimize import newton
 from scipy.interpolate import splrep, splev
 from tftb.generators import mexhat, scale
 from tftb.processing.utils import integrate_2d
@@ -406,8 +406,7 @@ class BertrandDistribution(AffineDistribution):
         super(BertrandDistribution, self).__init__(
             signal, fmin=fmin, fmax=fmax, n_voices=n_voices, **kwargs
         )
-        umaxbert = lambda x: np.exp(x) - self.fmax / self.fmin
-        self.umax = brenth(umaxbert, 0, 4)
+        self.umax = np.log(self.fmax / self.fmin)
         teq = self.m / (self.fmax * self.umax)
         if teq < self.signal.shape[0]:
             m0 = int(np.round((2 * self.m ** 2) / teq - self.m)) + 1
-- 
2.43.0

