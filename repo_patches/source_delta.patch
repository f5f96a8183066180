From 881f22a1f679fa836e10ad18aa6089bd9d56fcae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:47 +0000
Subject: [PATCH 01/37] fix: gradev() error bars: confidence_interval argument
 order, distances from the deviation, noise types

---
 allantools/allantools.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/allantools/allantools.py b/allantools/allantools.py
index 8daffcf..569c22a 100644
--- a/allantools/allantools.py
+++ b/allantools/allantools.py
@@ -1652,13 +1652,18 @@ def calc_gradev_phase(data, rate, mj, stride, confidence, noisetype):
     elif noisetype == 'wf':
         alpha = 0
     elif noisetype == 'fp':
+        alpha = 1
+    elif noisetype == 'ff':
+        alpha = -1
+    elif noisetype == 'rf':
         alpha = -2
     else:
         alpha = None
 
     if n > 1:
         edf = ci.edf_simple(N, mj, alpha)
-        deverr = ci.confidence_interval(dev, confidence, edf)
+        (dev_min, dev_max) = ci.confidence_interval(dev, edf, confidence)
+        deverr = [dev - dev_min, dev_max - dev]
     else:
         deverr = [0, 0]
 
-- 
2.43.0


From a25e12cfec59575be627873940b75f9ca3c1a03c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:47 +0000
Subject: [PATCH 02/37] fix: edf_simple() flicker FM at m=1, SP1065 Table 5 has
 (N-2)**2

---
 allantools/ci.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/allantools/ci.py b/allantools/ci.py
index c4fe2bc..6c7cb2e 100644
--- a/allantools/ci.py
+++ b/allantools/ci.py
@@ -816,7 +816,7 @@ def edf_simple(N, m, alpha):
 
         if alpha == -1:
             if m == 1:
-                edf = 2 * (N - 2)/(2.3 * N - 4.9)
+                edf = 2 * (N - 2)**2/(2.3 * N - 4.9)
             if m >= 2:
                 edf = 5 * N**2 / (4 * m * (N + (3 * m)))
 
-- 
2.43.0


From ed9a5947390c5949f4ca830777462db959fef097 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:47 +0000
Subject: [PATCH 03/37] fix: greenhall_table2() refused alpha=-4 although the
 table has that row

---
 allantools/ci.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/allantools/ci.py b/allantools/ci.py
index 6c7cb2e..4c6ff5e 100644
--- a/allantools/ci.py
+++ b/allantools/ci.py
@@ -687,7 +687,7 @@ def greenhall_table3(alpha, d):
 def greenhall_table2(alpha, d):
     """ Table 2 from [Greenhall2004]_ """
     row_idx = int(-alpha+2)  # map 2-> row0 and -4-> row6
-    assert(row_idx in [0, 1, 2, 3, 4, 5])
+    assert(row_idx in [0, 1, 2, 3, 4, 5, 6])
     col_idx = int(d-1)
     table2 = [
         # alpha = +2:
-- 
2.43.0


From 6089a57a06f5cdbd9bb28e702418c1cf4d75423a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:47 +0000
Subject: [PATCH 04/37] fix: rn() and b1() used tau=af*rate and a variance in
 wrong units when rate is not 1

---
 allantools/ci.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/allantools/ci.py b/allantools/ci.py
index 4c6ff5e..3495083 100644
--- a/allantools/ci.py
+++ b/allantools/ci.py
@@ -143,10 +143,10 @@ def rn(x, af, rate):
         ratio of MVAR to AVAR
     """
     (taus, devs, errs, ns) = at.adev(
-        x, taus=[af*rate], data_type='phase', rate=rate)
+        x, taus=[af/rate], data_type='phase', rate=rate)
     oadev_x = devs[0]
     (mtaus, mdevs, errs, ns) = at.mdev(
-        x, taus=[af*rate], data_type='phase', rate=rate)
+        x, taus=[af/rate], data_type='phase', rate=rate)
     mdev_x = mdevs[0]
     return pow(mdev_x/oadev_x, 2)
 
@@ -198,12 +198,12 @@ def b1(x, af, rate):
 
     """
     (taus, devs, errs, ns) = at.adev(
-        x, taus=[af*rate], data_type="phase", rate=rate)
+        x, taus=[af/rate], data_type="phase", rate=rate)
     oadev_x = devs[0]
     avar = pow(oadev_x, 2.0)
 
     # variance of y, at given af
-    y = np.diff(x)
+    y = at.phase2frequency(x, rate)
     y_cut = np.array(y[:len(y)-(len(y) % af)])  # cut to length
     assert len(y_cut) % af == 0
     y_shaped = y_cut.reshape((int(len(y_cut)/af), af))
-- 
2.43.0


From aeed123e783a3c19ea12d69db50901dac7ce2f61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:07 +0000
Subject: [PATCH 05/37] fix: realtime auto_afs mode missed the first term of
 each new averaging factor and repeated factors

---
 allantools/realtime.py | 42 ++++++++++++++++++++++--------------------
 1 file changed, 22 insertions(+), 20 deletions(-)

diff --git a/allantools/realtime.py b/allantools/realtime.py
index 50d3eb9..9dfc46c 100644
--- a/allantools/realtime.py
+++ b/allantools/realtime.py
@@ -46,7 +46,7 @@ class dev_realtime(object):
         self.af_decade = 0    # logspace decade
         if auto_afs:
             self.afs = numpy.array([1])
-        self.dev = numpy.zeros(len(afs))    # resulting xDEV
+        self.dev = numpy.zeros(len(self.afs))    # resulting xDEV
         self.tau0 = tau0                     # time-interval between points
 
     def update_af(self):
@@ -54,15 +54,18 @@ class dev_realtime(object):
             - check if we can add another AF
             - if yes, add it.
         """
-        next_idx = self.af_idx+1
+        next_idx = self.af_idx
         next_decade = self.af_decade
-        if next_idx == len(self.af_taus):
-            next_idx = 0
-            next_decade = self.af_decade + 1
-
-        # next possible AF:
-        next_af = int(numpy.round(
-            pow(10.0, next_decade) * self.af_taus[next_idx]))
+        next_af = self.afs[-1]
+        while next_af <= self.afs[-1]:  # rounding may repeat an AF
+            next_idx = next_idx + 1
+            if next_idx == len(self.af_taus):
+                next_idx = 0
+                next_decade = next_decade + 1
+
+            # next possible AF:
+            next_af = int(numpy.round(
+                pow(10.0, next_decade) * self.af_taus[next_idx]))
         if len(self.x) >= (2*next_af+1):  # can compute next AF
             self.afs = numpy.append(self.afs, next_af)  # new AF
             self.add_af()  # tell subclass to update internal variables
@@ -103,16 +106,16 @@ class oadev_realtime(dev_realtime):
         super(oadev_realtime, self).__init__(afs=afs, tau0=tau0,
                                              auto_afs=auto_afs,
                                              pts_per_decade=pts_per_decade)
-        self.S = numpy.zeros(len(afs))      # sum-of-squares
+        self.S = numpy.zeros(len(self.afs))      # sum-of-squares
 
     def add_phase(self, xnew):
         """ add new phase point, in units of seconds """
         self.x.append(xnew)
+        if self.auto_afs:  # a new AF uses its first term already now
+            self.update_af()
         for idx, af in enumerate(self.afs):
             if len(self.x) >= (2*af+1):
                 self.update_S(idx)
-        if self.auto_afs:
-            self.update_af()
 
     def update_S(self, idx):
         """ update S, sum-of-squares.
@@ -139,7 +142,7 @@ class ohdev_realtime(dev_realtime):
         super(ohdev_realtime, self).__init__(afs=afs, tau0=tau0,
                                              auto_afs=auto_afs,
                                              pts_per_decade=pts_per_decade)
-        self.S = numpy.zeros(len(afs))      # sum-of-squares
+        self.S = numpy.zeros(len(self.afs))      # sum-of-squares
 
     def add_af(self):
         self.S = numpy.append(self.S, 0)
@@ -147,11 +150,11 @@ class ohdev_realtime(dev_realtime):
     def add_phase(self, xnew):
         """ add new phase point """
         self.x.append(xnew)
+        if self.auto_afs:  # a new AF uses its first term already now
+            self.update_af()
         for idx, af in enumerate(self.afs):
             if len(self.x) > 3*af:
                 self.update_S(idx)
-        if self.auto_afs:
-            self.update_af()
 
     def update_S(self, idx):
         """ update S, sum-of-squares """
@@ -177,21 +180,20 @@ class tdev_realtime(dev_realtime):
         super(tdev_realtime, self).__init__(afs=afs, tau0=tau0,
                                             auto_afs=auto_afs,
                                             pts_per_decade=pts_per_decade)
-        self.S = numpy.zeros(len(afs))      # sum-of-squares
-        self.So = numpy.zeros(len(afs))      # overall sum-of-squares
+        self.S = numpy.zeros(len(self.afs))      # sum-of-squares
+        self.So = numpy.zeros(len(self.afs))      # overall sum-of-squares
 
     def add_phase(self, xnew):
         """ add new phase point """
         self.x.append(xnew)
+        if self.auto_afs:  # a new AF uses its first term already now
+            self.update_af()
         for idx, af in enumerate(self.afs):
             if len(self.x) >= 3*af+1:  # 3n+1 samples measured
                 self.update_S(idx)
             elif len(self.x) >= 2*af+1:  # 2n+1 samples measured
                 self.update_S3n(idx)
 
-        if self.auto_afs:
-            self.update_af()
-
     def add_af(self):
         self.S = numpy.append(self.S, 0)
         self.So = numpy.append(self.So, 0)
-- 
2.43.0


From e4cb331c93ffd87afed6d40bc77bf84139e0a589 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:07 +0000
Subject: [PATCH 06/37] fix: realtime add_frequency() ignored tau0 when
 integrating

---
 allantools/realtime.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/allantools/realtime.py b/allantools/realtime.py
index 9dfc46c..0985d97 100644
--- a/allantools/realtime.py
+++ b/allantools/realtime.py
@@ -82,7 +82,7 @@ class dev_realtime(object):
         """ add new frequency point, in units of Hz """
         if not self.x:  # empty sequence
             self.add_phase(0)  # initialize
-        self.add_phase(self.x[-1] + f)  # integration
+        self.add_phase(self.x[-1] + f*self.tau0)  # integration
 
     def taus(self):
         """ return taus, in unit of seconds """
-- 
2.43.0


From 253a01bab4284c49af130e3a3225177a5dd90fff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:07 +0000
Subject: [PATCH 07/37] fix: integer and single-precision records overflowed or
 lost digits

---
 allantools/allantools.py | 23 +++++++++++++++++------
 1 file changed, 17 insertions(+), 6 deletions(-)

diff --git a/allantools/allantools.py b/allantools/allantools.py
index 569c22a..b4f5bd7 100644
--- a/allantools/allantools.py
+++ b/allantools/allantools.py
@@ -1136,7 +1136,7 @@ def htotdev(data, rate=1.0, data_type="phase", taus=None):
 
     """
     if data_type == "phase":
-        phase = data
+        phase = to_float_array(data)
         freq = phase2frequency(phase, rate)
     elif data_type == "freq":
         phase = frequency2phase(data, rate)
@@ -1991,13 +1991,23 @@ def input_to_phase(data, rate, data_type):
     """ Take either phase or frequency as input and return phase
     """
     if data_type == "phase":
-        return data
+        return to_float_array(data)
     elif data_type == "freq":
         return frequency2phase(data, rate)
     else:
         raise Exception("unknown data_type: " + data_type)
 
 
+def to_float_array(data):
+    """ Return data as a floating-point array (Helper function)
+
+    Sums and differences of integer or single-precision samples overflow or
+    lose digits, so these are promoted to double precision.
+    """
+    data = np.asarray(data)
+    return data.astype(np.result_type(data.dtype, np.float64), copy=False)
+
+
 def tau_generator(data, rate, taus=None, v=False, even=False, maximum_m=-1):
     """ pre-processing of the tau-list given by the user (Helper function)
 
@@ -2078,7 +2088,7 @@ def tau_generator(data, rate, taus=None, v=False, even=False, maximum_m=-1):
             taus.append(2.0*(1.0/rate)*pow(10.0, k))
             taus.append(4.0*(1.0/rate)*pow(10.0, k))
 
-    data, taus = np.array(data), np.array(taus)
+    data, taus = np.array(to_float_array(data)), np.array(taus)
     rate = float(rate)
     m = []  # integer averaging factor. tau = m*tau0
 
@@ -2335,7 +2345,7 @@ def frequency2phase(freqdata, rate):
     dt = 1.0 / float(rate)
     # Protect against NaN values in input array (issue #60)
     # Reintroduces data trimming as in commit 503cb82
-    freqdata = trim_data(freqdata)
+    freqdata = trim_data(to_float_array(freqdata))
     # Erik Benkler (PTB): Subtract mean value before cumsum in order to
     # avoid precision issues when we have small frequency fluctuations on
     # a large average frequency
@@ -2361,7 +2371,7 @@ def phase2radians(phasedata, v0):
     fi: np.array
         phase data in radians
     """
-    fi = [2*np.pi*v0*xx for xx in phasedata]
+    fi = [2*np.pi*v0*xx for xx in to_float_array(phasedata)]
     return np.array(fi)
 
 
@@ -2380,7 +2390,7 @@ def phase2frequency(phase, rate):
     y: np.array
         Data array of fractional frequency, length N-1
     """
-    y = rate*np.diff(phase)
+    y = rate*np.diff(to_float_array(phase))
     return y
 
 
@@ -2400,6 +2410,7 @@ def frequency2fractional(frequency, mean_frequency=-1):
     y: np.array
         Data array of fractional frequency
     """
+    frequency = to_float_array(frequency)
     if mean_frequency == -1:
         mu = np.mean(frequency)
     else:
-- 
2.43.0


From 25140390234cd8feff014fd53e37cdd6ee853887 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:01 +0000
Subject: [PATCH 08/37] fix: psd2allan() failed for many frequency steps,
 rounding changed the length of the grids

---
 allantools/allantools.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/allantools/allantools.py b/allantools/allantools.py
index b4f5bd7..4ccbf2e 100644
--- a/allantools/allantools.py
+++ b/allantools/allantools.py
@@ -1735,8 +1735,8 @@ def psd2allan(S_y, f=1.0, kind='adev', base=2):
         raise ValueError(np.ndarray)  # raise error
     oversamplingfactor = 4
     df0 = oversamplingfactor * df
-    f0 = np.arange(S_y.size * df0, step=df0)
-    f = np.arange(df, (S_y.size - 1) * df0 + df, df)
+    f0 = np.arange(S_y.size) * df0
+    f = np.arange(1, (S_y.size - 1) * oversamplingfactor + 1) * df
     S_y = interpolate.interp1d(f0, S_y, kind='cubic')(f)
     f = f / oversamplingfactor
 
-- 
2.43.0


From b5287e718c9b03e17d47080f557483635d15385d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:01 +0000
Subject: [PATCH 09/37] fix: adev2psd_piecewise_approx() break frequencies
 assumed decade-spaced slope changes

---
 allantools/allantools.py | 10 ++--------
 1 file changed, 2 insertions(+), 8 deletions(-)

diff --git a/allantools/allantools.py b/allantools/allantools.py
index 4ccbf2e..51b5da7 100644
--- a/allantools/allantools.py
+++ b/allantools/allantools.py
@@ -1910,14 +1910,8 @@ def adev2psd_piecewise_approx(adev, taus, vartype="adev", mu_tol=1e-5):
         f_nodes = np.array([1.0 / t for t in filtered_tau], dtype=float)[::-1]
         Sy_nodes = np.array([hi[0] * (f_nodes[i] ** alphas[0]) for i in range(f_nodes.size)], dtype=float)
     else:
-        f_nodes = np.array(
-            [
-                1.0 / (10.0 * np.pi * filtered_tau[i]) *
-                (integral_values[i] / integral_values[i + 1]) ** (1.0 / (mus[i + 1] - mus[i]))
-                for i in range(mus.size - 1)
-            ],
-            dtype=float,
-        )[::-1]
+        # neighbouring segments meet: h_i f^alpha_i = h_(i+1) f^alpha_(i+1)
+        f_nodes = np.exp(-np.diff(np.log(hi)) / np.diff(alphas))
         Sy_nodes = np.array([hi[i] * (f_nodes[i] ** alphas[i]) for i in range(f_nodes.size)], dtype=float)
 
     return f_nodes, Sy_nodes, hi, alphas
-- 
2.43.0


From 6d7c1ce19eef8af25059876ca6e887f5e9e02de9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:01 +0000
Subject: [PATCH 10/37] fix: a single-slope reconstruction was cut off at its
 end points by the functions using it

---
 allantools/allantools.py | 2 ++
 allantools/noise.py      | 3 +++
 2 files changed, 5 insertions(+)

diff --git a/allantools/allantools.py b/allantools/allantools.py
index 51b5da7..a510829 100644
--- a/allantools/allantools.py
+++ b/allantools/allantools.py
@@ -1960,6 +1960,8 @@ def psd_piecewise_to_adev(h, alpha, f_nodes, taus):
     def integrand(z, a):
         return (np.sin(z) ** 4) / (z ** (2.0 - a))
 
+    if h.size == 1:  # a single power law has no break frequency
+        f_nodes = f_nodes[:0]
     edges = np.concatenate(([0.0], f_nodes, [np.inf]))
     adev = np.empty_like(taus, dtype=float)
 
diff --git a/allantools/noise.py b/allantools/noise.py
index e66332e..74facc1 100644
--- a/allantools/noise.py
+++ b/allantools/noise.py
@@ -270,6 +270,9 @@ def timmer_koenig_from_psd(f_nodes, h, alpha, duration, timestep, output='phase'
         raise ValueError("duration and timestep must be positive.")
     if h.size != alpha.size:
         raise ValueError("h and alpha must have the same length.")
+    if h.size == 1 and f_nodes.size == 2:
+        # adev2psd_piecewise_approx() gives the end points of a single segment
+        f_nodes = f_nodes[:0]
     if f_nodes.size not in (0, h.size - 1):
         # Typical output of your reconstruction: len(f_nodes)=len(h)-1
         raise ValueError("Expected len(f_nodes) == len(h)-1 (or 0 for single segment).")
-- 
2.43.0


From 4f750b78932cbf67408d3fb4721404dc6af83dfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:01 +0000
Subject: [PATCH 11/37] fix: timmer_koenig_from_psd() gave zero power at the
 last break frequency

---
 allantools/noise.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/allantools/noise.py b/allantools/noise.py
index 74facc1..e5cae88 100644
--- a/allantools/noise.py
+++ b/allantools/noise.py
@@ -298,7 +298,7 @@ def timmer_koenig_from_psd(f_nodes, h, alpha, duration, timestep, output='phase'
     for i, f in enumerate(frequencies):
         if f_nodes.size > 0 and f < f_nodes[0]:
             Sy[i] = h_ext[0] * f ** alpha_ext[0]
-        elif f_nodes.size > 0 and f > f_nodes[-1]:
+        elif f_nodes.size > 0 and f >= f_nodes[-1]:
             Sy[i] = h_ext[-1] * f ** alpha_ext[-1]
         else:
             if f_nodes.size == 0:
-- 
2.43.0


From 1d466eb14506daa4c54037ddb0d7e5b6e1b4b950 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:01 +0000
Subject: [PATCH 12/37] fix: timmer_koenig_from_psd() failed for an odd number
 of samples

---
 allantools/noise.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/allantools/noise.py b/allantools/noise.py
index e5cae88..fa7a2c4 100644
--- a/allantools/noise.py
+++ b/allantools/noise.py
@@ -318,7 +318,7 @@ def timmer_koenig_from_psd(f_nodes, h, alpha, duration, timestep, output='phase'
     for j in range(1, n // 2 + 1):
         X[j] = (np.sqrt(Sx[j]) / 2.0) * (np.random.normal(0, 1) + 1j * np.random.normal(0, 1))
 
-    X[n // 2 + 1:] = np.conj(X[1:n // 2][::-1])
+    X[n // 2 + 1:] = np.conj(X[1:n - n // 2][::-1])
 
     x = np.fft.ifft(X) * np.sqrt((n - 1) / timestep)
     x = x.real
-- 
2.43.0


From 55947173e66e59bc996e055456d985fbb5f4fa55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:01 +0000
Subject: [PATCH 13/37] fix: write_results() averaging factor was relative to
 the first tau and truncated

---
 allantools/dataset.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/allantools/dataset.py b/allantools/dataset.py
index 0c2c505..f709aa7 100644
--- a/allantools/dataset.py
+++ b/allantools/dataset.py
@@ -196,7 +196,7 @@ class Dataset(object):
                        "\n")
             for i in range(len(self.out["taus"])):
                 fp.write(out_fmt.format(
-                    af=int(self.out["taus"][i] / self.out["taus"][0]),
+                    af=int(round(self.out["taus"][i] * self.inp["rate"])),
                     tau=self.out["taus"][i],
                     n=int(self.out["stat_n"][i]),
                     alpha="NaN",  # Not implemented yet
-- 
2.43.0


From d8c9fc78d8d9cd6b10da26c23068a8b629f076b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:01 +0000
Subject: [PATCH 14/37] fix: write_results() failed for gradev, which has two
 error arrays

---
 allantools/dataset.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/allantools/dataset.py b/allantools/dataset.py
index f709aa7..04a6997 100644
--- a/allantools/dataset.py
+++ b/allantools/dataset.py
@@ -194,15 +194,18 @@ class Dataset(object):
                        "{sigma:.{prec}e} "
                        "{maxsigma:.{prec}e} "
                        "\n")
+            if isinstance(self.out["stat_err"], list):  # lower, upper errors
+                (err_l, err_h) = self.out["stat_err"]
+            else:
+                err_l = err_h = self.out["stat_err"]/2
             for i in range(len(self.out["taus"])):
                 fp.write(out_fmt.format(
                     af=int(round(self.out["taus"][i] * self.inp["rate"])),
                     tau=self.out["taus"][i],
                     n=int(self.out["stat_n"][i]),
                     alpha="NaN",  # Not implemented yet
-                    minsigma=self.out["stat"][i] - self.out["stat_err"][i]/2,
+                    minsigma=self.out["stat"][i] - err_l[i],
                     sigma=self.out["stat"][i],
-                    maxsigma=(self.out["stat"][i] +
-                              self.out["stat_err"][i]/2),
+                    maxsigma=self.out["stat"][i] + err_h[i],
                     prec=digits-1,
                 ))
-- 
2.43.0


From 4cb4ac126f726540ee47b302ee02facc82d036be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:01 +0000
Subject: [PATCH 15/37] fix: numpy_psd() frequency axis was stretched for
 signals of odd length

---
 allantools/noise.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/allantools/noise.py b/allantools/noise.py
index fa7a2c4..20c392a 100644
--- a/allantools/noise.py
+++ b/allantools/noise.py
@@ -46,7 +46,7 @@ def numpy_psd(x, f_sample=1.0):
     """
     psd_of_x = ((2.0 / (float(len(x)) * f_sample))
                 * np.abs(np.fft.rfft(x))**2)
-    f_axis = np.linspace(0, f_sample/2.0, len(psd_of_x))  # frequency axis
+    f_axis = np.fft.rfftfreq(len(x), 1.0/f_sample)  # frequency axis
     return f_axis, psd_of_x
 
 
-- 
2.43.0


From 94ee703c5f391d374122678ea115c45fbc42eb48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:01 +0000
Subject: [PATCH 16/37] fix: confidence_interval() gave the interval for 1-ci
 when ci is below one half

---
 allantools/ci.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/allantools/ci.py b/allantools/ci.py
index 3495083..fb3e705 100644
--- a/allantools/ci.py
+++ b/allantools/ci.py
@@ -57,7 +57,7 @@ def confidence_interval(dev, edf, ci=ONE_SIGMA_CI):
     (dev_min, dev_max): (float, float)
         Confidence interval
     """
-    ci_l = min(np.abs(ci), np.abs((ci-1))) / 2
+    ci_l = (1 - ci) / 2
     ci_h = 1 - ci_l
 
     # function from scipy, works OK, but scipy is large and slow to build
-- 
2.43.0


From e0a39ed93602113dec60f5cda91bcbc770dd48e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:01 +0000
Subject: [PATCH 17/37] fix: tau_generator(v=True) failed for log10

---
 allantools/allantools.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/allantools/allantools.py b/allantools/allantools.py
index a510829..42891ea 100644
--- a/allantools/allantools.py
+++ b/allantools/allantools.py
@@ -2075,7 +2075,7 @@ def tau_generator(data, rate, taus=None, v=False, even=False, maximum_m=-1):
         taus = (1.0/rate)*np.logspace(0, maxn, int(10*maxn), base=10.0)
         if v:
             print("tau_generator: maxn %.1f" % maxn)
-            print("tau_generator: taus=" % taus)
+            print("tau_generator: taus=", taus)
     elif taus == "decade":  # 1, 2, 4, 10, 20, 40, spacing similar to Stable32
         maxn = np.floor(np.log10(len(data)))
         taus = []
-- 
2.43.0


From 459fbdb7190409eb7c6a30f1754e84e98652e57d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:01 +0000
Subject: [PATCH 18/37] fix: pdev_from_qd() flicker PM coefficient, Vernotte
 Table I has 3(ln16-1)

---
 allantools/noise_kasdin.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/allantools/noise_kasdin.py b/allantools/noise_kasdin.py
index ae5f253..7714ffa 100644
--- a/allantools/noise_kasdin.py
+++ b/allantools/noise_kasdin.py
@@ -340,7 +340,7 @@ class Noise(object):
             coeff = 3.0/(2.0*pow(np.pi, 2))  # Vernotte Table I
         elif self.b == -1:
             # D, Flicker PM, tau^-1
-            coeff = (3.0*np.log(16)-1.0)/2.0/pow(np.pi, 2)
+            coeff = 3.0*(np.log(16)-1.0)/2.0/pow(np.pi, 2)
         elif self.b == -2:  # C, white FM,  1/sqrt(tau)
             coeff = 3.0/5.0
         elif self.b == -3:
-- 
2.43.0


From d47b3f0f5f92cb8d5cd5a99b7aac37eab9abd749 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:01 +0000
Subject: [PATCH 19/37] fix: confidence_interval_noiseID() counted frequency
 samples as phase samples

---
 allantools/ci.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/allantools/ci.py b/allantools/ci.py
index fb3e705..95b1049 100644
--- a/allantools/ci.py
+++ b/allantools/ci.py
@@ -109,21 +109,24 @@ def confidence_interval_noiseID(x, dev, af, dev_type="adev",
     alpha_int = autocorr_noise_id(
         x, int(af), data_type=data_type, dmin=0, dmax=dmax)[0]
 
-    # 2) EDF (tes was 'is')
+    # 2) EDF, which needs the number of phase samples
+    N = len(x)
+    if data_type == "freq":
+        N = N + 1
     if dev_type == "adev":
-        edf = edf_greenhall(alpha=alpha_int, d=2, m=af, N=len(x),
+        edf = edf_greenhall(alpha=alpha_int, d=2, m=af, N=N,
                             overlapping=False, modified=False)
     elif dev_type == "oadev":
-        edf = edf_greenhall(alpha=alpha_int, d=2, m=af, N=len(x),
+        edf = edf_greenhall(alpha=alpha_int, d=2, m=af, N=N,
                             overlapping=True, modified=False)
     elif (dev_type == "mdev") or (dev_type == "tdev"):
-        edf = edf_greenhall(alpha=alpha_int, d=2, m=af, N=len(x),
+        edf = edf_greenhall(alpha=alpha_int, d=2, m=af, N=N,
                             overlapping=True, modified=True)
     elif dev_type == "hdev":
-        edf = edf_greenhall(alpha=alpha_int, d=3, m=af, N=len(x),
+        edf = edf_greenhall(alpha=alpha_int, d=3, m=af, N=N,
                             overlapping=False, modified=False)
     elif dev_type == "ohdev":
-        edf = edf_greenhall(alpha=alpha_int, d=3, m=af, N=len(x),
+        edf = edf_greenhall(alpha=alpha_int, d=3, m=af, N=N,
                             overlapping=True, modified=False)
     else:
         raise NotImplementedError
-- 
2.43.0


From e0c82f496fe44ebd54e2ad70b144797b003faf3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:01 +0000
Subject: [PATCH 20/37] fix: generateNoise() did not return the time series it
 documents

---
 allantools/noise_kasdin.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/allantools/noise_kasdin.py b/allantools/noise_kasdin.py
index 7714ffa..a745789 100644
--- a/allantools/noise_kasdin.py
+++ b/allantools/noise_kasdin.py
@@ -146,6 +146,7 @@ class Noise(object):
         # Perform inverse Fourier transform of the product of wfb and hfb FFTs
         time_series = np.fft.irfft(wfb_fft*hfb_fft)[:self.nr]
         self.time_series = time_series
+        return time_series
 
     def phase_psd_from_qd(self, tau0=1.0):
         """ return phase power spectral density coefficient :math:`g_b`
-- 
2.43.0


From ac67fc3e87c72fe948c76951b8d89021b55e67c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:01 +0000
Subject: [PATCH 21/37] fix: htotdev() did not trim leading and trailing NaNs
 of frequency data

---
 allantools/allantools.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/allantools/allantools.py b/allantools/allantools.py
index 42891ea..4601d57 100644
--- a/allantools/allantools.py
+++ b/allantools/allantools.py
@@ -1140,7 +1140,7 @@ def htotdev(data, rate=1.0, data_type="phase", taus=None):
         freq = phase2frequency(phase, rate)
     elif data_type == "freq":
         phase = frequency2phase(data, rate)
-        freq = data
+        freq = trim_data(to_float_array(data))
     else:
         raise Exception("unknown data_type: " + data_type)
 
-- 
2.43.0


From 22b98dee5ef8d4971cb49e001f8380bb59b46ccb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:47 +0000
Subject: [PATCH 22/37] fix: autocorr_noise_id averages single-precision
 samples in double precision

---
 allantools/ci.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/allantools/ci.py b/allantools/ci.py
index 95b1049..344e0a6 100644
--- a/allantools/ci.py
+++ b/allantools/ci.py
@@ -367,6 +367,7 @@ def autocorr_noise_id(x, af, data_type="phase", dmin=0, dmax=2):
 
     """
     d = 0  # number of differentiations
+    x = np.asarray(x, dtype=float)  # don't average in single precision
     if data_type == "phase":
         if af > 1:
             # x = scipy.signal.decimate(x, af, n=1, ftype='fir')
-- 
2.43.0


From 7473e1fafba38b351a1dcc1b7728af96148e07fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:00 +0000
Subject: [PATCH 23/37] fix: edf_simple (and so gradev) raised
 ZeroDivisionError when as many samples remain as the averaging factor

---
 allantools/ci.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/allantools/ci.py b/allantools/ci.py
index 344e0a6..36da6b3 100644
--- a/allantools/ci.py
+++ b/allantools/ci.py
@@ -802,8 +802,9 @@ def edf_simple(N, m, alpha):
 
     """
 
-    N = float(N)
-    m = float(m)
+    # numpy floats, as the formulas have poles (e.g. N=m) for few samples
+    N = np.float64(N)
+    m = np.float64(m)
     if alpha in [2, 1, 0, -1, -2]:
         # NIST SP 1065, Table 5
         if alpha == +2:
-- 
2.43.0


From 5668531206d680252c18abe8ce95f95000c3e9e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:07 +0000
Subject: [PATCH 24/37] fix: gcodev refuses records of different length

---
 allantools/allantools.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/allantools/allantools.py b/allantools/allantools.py
index 4601d57..e3c9474 100644
--- a/allantools/allantools.py
+++ b/allantools/allantools.py
@@ -607,6 +607,8 @@ def gcodev(data_1, data_2, rate=1.0, data_type="phase", taus=None):
     """
     phase_1 = input_to_phase(data_1, rate, data_type)
     phase_2 = input_to_phase(data_2, rate, data_type)
+    if len(phase_1) != len(phase_2):
+        raise ValueError("gcodev() needs two records of equal length")
     (phase_1, m, taus_used) = tau_generator(phase_1, rate, taus)
     (phase_2, m, taus_used) = tau_generator(phase_2, rate, taus)
 
-- 
2.43.0


From 183a1eb4750f2b3832b55e0622e98a4226f2b405 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:13 +0000
Subject: [PATCH 25/37] fix: piecewise PSD conversions integrate the
 oscillating tail of the transfer function

quad() over the raw integrand was wrong by up to the whole value for steep
phase-noise slopes (27 % at mu=-1.9) and for wide segments
---
 allantools/allantools.py | 59 +++++++++++++++++++++++++++++++++-------
 1 file changed, 49 insertions(+), 10 deletions(-)

diff --git a/allantools/allantools.py b/allantools/allantools.py
index e3c9474..3e5178f 100644
--- a/allantools/allantools.py
+++ b/allantools/allantools.py
@@ -1771,6 +1771,47 @@ def psd2allan(S_y, f=1.0, kind='adev', base=2):
     return taus_used, ad
 
 
+# cosine series of sin(z)**4 (ADEV) and (4/3)*sin(z)**6 (HDEV): (k, coefficient of cos(k*z))
+_SIN4_COSINES = ((0, 3/8.), (2, -1/2.), (4, 1/8.))
+_SIN6_COSINES = ((0, 5/12.), (2, -5/8.), (4, 1/4.), (6, -1/24.))
+
+
+def _transfer_integral(numerator, cosines, p, z1, z2):
+    """ Integral of numerator(z)/z**p from z1 to z2 (possibly infinite)
+
+    quad() does not resolve the many oscillations at large z. Beyond z=pi the
+    mean value of the numerator is therefore integrated analytically and its
+    oscillating terms (see cosines) with a Fourier quadrature.
+    """
+    def direct(z1, z2):
+        if z1 == 0.0 or np.isinf(z2):
+            return quad(lambda z: numerator(z) / z**p, z1, z2, epsabs=0.0)[0]
+        return quad(lambda t: numerator(np.exp(t)) * np.exp((1.0-p)*t),
+                    np.log(z1), np.log(z2), epsabs=0.0)[0]
+
+    def oscillating(k, z1, z2):
+        if p > 0.0 and not np.isinf(z2):
+            return oscillating(k, z1, np.inf) - oscillating(k, z2, np.inf)
+        return z1**-p * quad(lambda z: (z/z1)**-p, z1, z2, weight='cos', wvar=k)[0]
+
+    with warnings.catch_warnings():
+        warnings.simplefilter("ignore", category=IntegrationWarning)
+        z_split = max(z1, np.pi)
+        if z2 <= z_split or (np.isinf(z2) and p < 1.0 + 1e-6):
+            # few oscillations, or mean value not integrable
+            return direct(z1, z2)
+
+        integral = direct(z1, z_split) if z1 < z_split else 0.0
+        for k, c in cosines:
+            if k > 0:
+                integral += c * oscillating(k, z_split, z2)
+            elif p == 1.0:
+                integral += c * np.log(z2 / z_split)
+            else:
+                integral += c * (z_split**(1.0-p) - z2**(1.0-p)) / (p - 1.0)
+    return integral
+
+
 def adev2psd_piecewise_approx(adev, taus, vartype="adev", mu_tol=1e-5):
     """
     Approximate inverse mapping from deviation (ADEV/HDEV) to a piecewise
@@ -1850,8 +1891,9 @@ def adev2psd_piecewise_approx(adev, taus, vartype="adev", mu_tol=1e-5):
     if vt not in ("adev", "hdev"):
         raise ValueError("vartype must be 'adev' or 'hdev'.")
 
-    def q(z):
-        return 1.0 if vt == "adev" else (4.0 / 3.0) * (np.sin(z) ** 2)
+    def numerator(z):
+        return np.sin(z) ** 4 if vt == "adev" else (4.0 / 3.0) * np.sin(z) ** 6
+    cosines = _SIN4_COSINES if vt == "adev" else _SIN6_COSINES
 
     # --- match your original filtering of mu segments ---
     mus = []
@@ -1892,9 +1934,7 @@ def adev2psd_piecewise_approx(adev, taus, vartype="adev", mu_tol=1e-5):
     hi = []
     integral_values = []
     for i in range(Bi.size):
-        with warnings.catch_warnings():
-            warnings.simplefilter("ignore", category=IntegrationWarning)
-            I, _ = quad(lambda z: q(z) * (np.sin(z) ** 4) / (z ** (3.0 + mus[i])), 0.0, np.inf)
+        I = _transfer_integral(numerator, cosines, 3.0 + mus[i], 0.0, np.inf)
         integral_values.append(I)
         hi.append(Bi[i] / (2.0 * I * (np.pi ** mus[i])))
 
@@ -1959,8 +1999,8 @@ def psd_piecewise_to_adev(h, alpha, f_nodes, taus):
     f_nodes = np.asarray(f_nodes, dtype=float)
     taus = np.asarray(taus, dtype=float)
 
-    def integrand(z, a):
-        return (np.sin(z) ** 4) / (z ** (2.0 - a))
+    def numerator(z):
+        return np.sin(z) ** 4
 
     if h.size == 1:  # a single power law has no break frequency
         f_nodes = f_nodes[:0]
@@ -1971,9 +2011,8 @@ def psd_piecewise_to_adev(h, alpha, f_nodes, taus):
         sigma_y2 = 0.0
         for i in range(h.size):
             factor = h[i] / ((np.pi * tau) ** (alpha[i] + 1.0))
-            with warnings.catch_warnings():
-                warnings.simplefilter("ignore", category=IntegrationWarning)
-                I, _ = quad(integrand, np.pi * tau * edges[i], np.pi * tau * edges[i + 1], args=(alpha[i],))
+            I = _transfer_integral(numerator, _SIN4_COSINES, 2.0 - alpha[i],
+                                   np.pi * tau * edges[i], np.pi * tau * edges[i + 1])
             sigma_y2 += factor * I
         adev[k] = np.sqrt(2.0 * sigma_y2)
 
-- 
2.43.0


From 504c5bd606ecc07907570ad3b0f7668953d417a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:15 +0000
Subject: [PATCH 26/37] fix: psd_piecewise_to_adev refuses inconsistent
 segments and non-positive taus

---
 allantools/allantools.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/allantools/allantools.py b/allantools/allantools.py
index 3e5178f..af8c252 100644
--- a/allantools/allantools.py
+++ b/allantools/allantools.py
@@ -2004,6 +2004,10 @@ def psd_piecewise_to_adev(h, alpha, f_nodes, taus):
 
     if h.size == 1:  # a single power law has no break frequency
         f_nodes = f_nodes[:0]
+    if h.size == 0 or h.size != alpha.size or f_nodes.size != h.size - 1:
+        raise ValueError("Expected len(h) == len(alpha) == len(f_nodes) + 1.")
+    if not np.all(taus > 0):
+        raise ValueError("taus must be positive.")
     edges = np.concatenate(([0.0], f_nodes, [np.inf]))
     adev = np.empty_like(taus, dtype=float)
 
-- 
2.43.0


From 12d9f5fef10d5ca3a258bc18679bc92bcd86338e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:47 +0000
Subject: [PATCH 27/37] fix: adev2psd_piecewise_approx refuses NaN and infinite
 values

---
 allantools/allantools.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/allantools/allantools.py b/allantools/allantools.py
index af8c252..363e73b 100644
--- a/allantools/allantools.py
+++ b/allantools/allantools.py
@@ -1882,7 +1882,7 @@ def adev2psd_piecewise_approx(adev, taus, vartype="adev", mu_tol=1e-5):
         raise ValueError("adev and taus must be 1D arrays of equal length.")
     if adev.size < 2:
         raise ValueError("Need at least two points.")
-    if np.any(adev <= 0) or np.any(taus <= 0):
+    if not (np.all(adev > 0) and np.all(taus > 0) and np.all(np.isfinite(adev)) and np.all(np.isfinite(taus))):
         raise ValueError("adev and taus must be positive.")
     if not np.all(np.diff(taus) > 0):
         raise ValueError("taus must be strictly increasing.")
-- 
2.43.0


From fe42d72f1a21994ed0477d7eeeae86c368f275e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:40 +0000
Subject: [PATCH 28/37] fix: Plot.save writes the plot's own figure, not the
 current one

---
 allantools/plot.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/allantools/plot.py b/allantools/plot.py
index 85a201e..4d08999 100644
--- a/allantools/plot.py
+++ b/allantools/plot.py
@@ -111,4 +111,4 @@ class Plot(object):
     def save(self, f):
         """Save figure to file
         """
-        self.plt.savefig(f)
+        self.fig.savefig(f)
-- 
2.43.0


From 57e1932f0f1ec8b664132353399c16811443c5d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:35 +0000
Subject: [PATCH 29/37] fix: statistics refuse a negative rate instead of
 returning negative deviations

---
 allantools/allantools.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/allantools/allantools.py b/allantools/allantools.py
index 363e73b..981b849 100644
--- a/allantools/allantools.py
+++ b/allantools/allantools.py
@@ -2101,6 +2101,8 @@ def tau_generator(data, rate, taus=None, v=False, even=False, maximum_m=-1):
 
     if rate == 0:
         raise RuntimeError("Warning! rate==0")
+    if rate < 0:
+        raise RuntimeError("Warning! rate<0")
 
     if taus is None:  # empty or no tau-list supplied
         taus = "octave"  # default to octave
-- 
2.43.0


From 3fc849939d3900e5516bb97c59d604364c7a664e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:35 +0000
Subject: [PATCH 30/37] fix: autocorr_noise_id refuses an unknown data_type

---
 allantools/ci.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/allantools/ci.py b/allantools/ci.py
index 36da6b3..1a6b184 100644
--- a/allantools/ci.py
+++ b/allantools/ci.py
@@ -384,6 +384,8 @@ def autocorr_noise_id(x, af, data_type="phase", dmin=0, dmax=2):
         y_shaped = y_cut.reshape((int(len(y_cut)/af), af))
         x = np.average(y_shaped, axis=1)  # average
         x = detrend(x, deg=1)  # remove frequency drift
+    else:
+        raise ValueError("unknown data_type: %s" % data_type)
 
     # require minimum length for time-series
     if len(x) < 30:
-- 
2.43.0


From 42168b68224cc8d59c09a9d2524366b5af3660b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:22 +0000
Subject: [PATCH 31/37] fix: level of a slope within 1e-5 of the steep
 convergence limit

---
 allantools/allantools.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/allantools/allantools.py b/allantools/allantools.py
index 981b849..03217a9 100644
--- a/allantools/allantools.py
+++ b/allantools/allantools.py
@@ -1783,7 +1783,13 @@ def _transfer_integral(numerator, cosines, p, z1, z2):
     mean value of the numerator is therefore integrated analytically and its
     oscillating terms (see cosines) with a Fourier quadrature.
     """
+    order = cosines[-1][0]  # numerator is proportional to z**order at z=0
+
     def direct(z1, z2):
+        if z1 == 0.0 and np.isfinite(z2) and order - p > -1.0:
+            # steep at z=0 when p is close to order+1
+            return quad(lambda z: numerator(max(z, 1e-9)) / max(z, 1e-9)**order,
+                        z1, z2, weight='alg', wvar=(order-p, 0.0), epsabs=0.0)[0]
         if z1 == 0.0 or np.isinf(z2):
             return quad(lambda z: numerator(z) / z**p, z1, z2, epsabs=0.0)[0]
         return quad(lambda t: numerator(np.exp(t)) * np.exp((1.0-p)*t),
-- 
2.43.0


From 91d44cb0bdde76f8d3ea328dbcabf23830e76e61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:17 +0000
Subject: [PATCH 32/37] fix: real-time statistics of integer and
 single-precision samples in double precision

---
 allantools/realtime.py | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/allantools/realtime.py b/allantools/realtime.py
index 0985d97..599e792 100644
--- a/allantools/realtime.py
+++ b/allantools/realtime.py
@@ -33,6 +33,14 @@
 import numpy
 
 
+def to_double(sample):
+    """ Promote an integer or single-precision sample to double precision
+
+    Sums and differences of such samples would overflow or lose digits.
+    """
+    return numpy.float64(0) + sample
+
+
 class dev_realtime(object):
     """ Base-class for real-time statistics """
     def __init__(self, afs=[1], tau0=1.0, auto_afs=False, pts_per_decade=4):
@@ -82,7 +90,7 @@ class dev_realtime(object):
         """ add new frequency point, in units of Hz """
         if not self.x:  # empty sequence
             self.add_phase(0)  # initialize
-        self.add_phase(self.x[-1] + f*self.tau0)  # integration
+        self.add_phase(self.x[-1] + to_double(f)*self.tau0)  # integration
 
     def taus(self):
         """ return taus, in unit of seconds """
@@ -110,7 +118,7 @@ class oadev_realtime(dev_realtime):
 
     def add_phase(self, xnew):
         """ add new phase point, in units of seconds """
-        self.x.append(xnew)
+        self.x.append(to_double(xnew))
         if self.auto_afs:  # a new AF uses its first term already now
             self.update_af()
         for idx, af in enumerate(self.afs):
@@ -149,7 +157,7 @@ class ohdev_realtime(dev_realtime):
 
     def add_phase(self, xnew):
         """ add new phase point """
-        self.x.append(xnew)
+        self.x.append(to_double(xnew))
         if self.auto_afs:  # a new AF uses its first term already now
             self.update_af()
         for idx, af in enumerate(self.afs):
@@ -185,7 +193,7 @@ class tdev_realtime(dev_realtime):
 
     def add_phase(self, xnew):
         """ add new phase point """
-        self.x.append(xnew)
+        self.x.append(to_double(xnew))
         if self.auto_afs:  # a new AF uses its first term already now
             self.update_af()
         for idx, af in enumerate(self.afs):
-- 
2.43.0


From ffe7c0e35f083cf7265b5f47205d51615273c400 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:42 +0000
Subject: [PATCH 33/37] fix: averaging times and rates in single or half
 precision are evaluated in double precision

---
 allantools/allantools.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/allantools/allantools.py b/allantools/allantools.py
index 03217a9..49cf371 100644
--- a/allantools/allantools.py
+++ b/allantools/allantools.py
@@ -2109,6 +2109,7 @@ def tau_generator(data, rate, taus=None, v=False, even=False, maximum_m=-1):
         raise RuntimeError("Warning! rate==0")
     if rate < 0:
         raise RuntimeError("Warning! rate<0")
+    rate = float(rate)
 
     if taus is None:  # empty or no tau-list supplied
         taus = "octave"  # default to octave
@@ -2137,8 +2138,7 @@ def tau_generator(data, rate, taus=None, v=False, even=False, maximum_m=-1):
             taus.append(2.0*(1.0/rate)*pow(10.0, k))
             taus.append(4.0*(1.0/rate)*pow(10.0, k))
 
-    data, taus = np.array(to_float_array(data)), np.array(taus)
-    rate = float(rate)
+    data, taus = np.array(to_float_array(data)), to_float_array(taus)
     m = []  # integer averaging factor. tau = m*tau0
 
     if maximum_m == -1:  # if no limit given
-- 
2.43.0


From 6de50bef04cd00caece67fe26cca1a65df831972 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:28 +0000
Subject: [PATCH 34/37] fix: pdev, totdev, mtotdev and theo1 with a sampling
 rate in single or half precision

---
 allantools/allantools.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/allantools/allantools.py b/allantools/allantools.py
index 49cf371..9f2c78c 100644
--- a/allantools/allantools.py
+++ b/allantools/allantools.py
@@ -470,7 +470,7 @@ def calc_pdev_phase(phase, rate, mj):
     """
     mj = int(mj)
     stride = int(1)
-    tau0 = 1.0/rate
+    tau0 = 1.0/float(rate)
     if mj == 1:  # same as OADEV
         d2 = phase[2 * mj::stride]
         d1 = phase[1 * mj::stride]
@@ -917,7 +917,7 @@ def totdev(data, rate=1.0, data_type="phase", taus=None):
         v_arr = d1n[:e] - 2.0 * d0[:e] + d1[:e]
         dev = np.sum(v_arr[:mid] * v_arr[:mid])
 
-        dev /= float(2 * pow(mj / rate, 2) * (N - 2))
+        dev /= float(2 * pow(mj / float(rate), 2) * (N - 2))
         dev = np.sqrt(dev)
         devs[idx] = dev
         deverrs[idx] = dev / np.sqrt(mid)
@@ -1022,7 +1022,7 @@ def calc_mtotdev_phase(phase, rate, m):
     * [Howe1999]_
     * NIST [SP1065]_ Eqn (27), page 25.
     """
-    tau0 = 1.0/rate
+    tau0 = 1.0/float(rate)
     N = len(phase)  # phase data, N points
     m = int(m)
 
@@ -1298,7 +1298,7 @@ def theo1(data, rate=1.0, data_type="phase", taus=None):
     """
     phase = input_to_phase(data, rate, data_type)
 
-    tau0 = 1.0/rate
+    tau0 = 1.0/float(rate)
     (phase, ms, taus_used) = tau_generator(phase, rate, taus, even=True)
 
     devs = np.zeros_like(taus_used)
-- 
2.43.0


From 2e736bae6380a4af5d4631389e381b837e4dbb38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:24 +0000
Subject: [PATCH 35/37] fix: real-time statistics with an integer interval
 overflow at long averaging times

---
 allantools/realtime.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/allantools/realtime.py b/allantools/realtime.py
index 599e792..b29bd7f 100644
--- a/allantools/realtime.py
+++ b/allantools/realtime.py
@@ -55,7 +55,7 @@ class dev_realtime(object):
         if auto_afs:
             self.afs = numpy.array([1])
         self.dev = numpy.zeros(len(self.afs))    # resulting xDEV
-        self.tau0 = tau0                     # time-interval between points
+        self.tau0 = float(tau0)              # time-interval between points
 
     def update_af(self):
         """ used in auto-AF mode,
-- 
2.43.0


From e67b24686c476dbfa924517a88bc12810798dc23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:34 +0000
Subject: [PATCH 36/37] fix: theoretical R(n) and B1 ratios with numpy integer
 arguments

---
 allantools/ci.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/allantools/ci.py b/allantools/ci.py
index 1a6b184..cb6d26a 100644
--- a/allantools/ci.py
+++ b/allantools/ci.py
@@ -170,7 +170,7 @@ def rn_theory(af, b):
     # (a=-3 flicker walk FM)
     # (a=-4 random run FM)
     if b == 0:
-        return pow(af, -1)
+        return pow(float(af), -1)
     elif b == -1:
         # f_h = 0.5/tau0  (assumed!)
         # af = tau/tau0
@@ -238,6 +238,7 @@ def b1_theory(N, mu):
                         and add +2 to resulting mu
     """
 
+    N = float(N)
     # see Table 3 of Howe 2000
     if mu == 2:
         return float(N)*(float(N)+1.0)/6.0
-- 
2.43.0


From 47da55e96ca8fc668748d40f05f1f07fcd42e69e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:31:42 +0000
Subject: [PATCH 37/37] fix: results file with the rate and data type set after
 the computation

---
 allantools/dataset.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/allantools/dataset.py b/allantools/dataset.py
index 04a6997..4b10eae 100644
--- a/allantools/dataset.py
+++ b/allantools/dataset.py
@@ -85,6 +85,9 @@ class Dataset(object):
                     "stat_n": None,
                     "stat_unc": None,
                     "stat_id": None}
+
+        #: inputs that self.out was computed from
+        self.out_inp = self.inp
         self.inp["data"] = data
         self.inp["rate"] = rate
         self.inp["data_type"] = data_type
@@ -145,6 +148,7 @@ class Dataset(object):
         result = {key: result[i] for i, key in enumerate(keys)}
         self.out = result.copy()
         self.out["stat_id"] = function
+        self.out_inp = self.inp.copy()
         return result
 
     def write_results(self, filename, digits=5, header_params={}):
@@ -169,8 +173,9 @@ class Dataset(object):
         with open(filename, 'w') as fp:
             fp.write("# Generated by Allantools {}\n".format(
                 allantools.__version__))
-            fp.write("# Input data type: {}\n".format(self.inp["data_type"]))
-            fp.write("# Input data rate: {}\n".format(self.inp["rate"]))
+            fp.write("# Input data type: {}\n".format(
+                self.out_inp["data_type"]))
+            fp.write("# Input data rate: {}\n".format(self.out_inp["rate"]))
             for key, val in header_params.items():
                 fp.write("# {}: {}\n".format(key, val))
             # Fields
@@ -200,7 +205,8 @@ class Dataset(object):
                 err_l = err_h = self.out["stat_err"]/2
             for i in range(len(self.out["taus"])):
                 fp.write(out_fmt.format(
-                    af=int(round(self.out["taus"][i] * self.inp["rate"])),
+                    af=int(round(self.out["taus"][i]
+                                 * self.out_inp["rate"])),
                     tau=self.out["taus"][i],
                     n=int(self.out["stat_n"][i]),
                     alpha="NaN",  # Not implemented yet
-- 
2.43.0

