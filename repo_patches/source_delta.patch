From f82da7d175aedcd459edc07bd2d81183919923ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:34 +0000
Subject: [PATCH 01/11] fix: fall back to the approximate response when the
 response table is missing

---
 src/legwork/psd.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/legwork/psd.py b/src/legwork/psd.py
index 40e44d8..ab719ef 100644
--- a/src/legwork/psd.py
+++ b/src/legwork/psd.py
@@ -38,7 +38,7 @@ def load_response_function(f, fstar=19.09e-3):
     # try to load the values for interpolating R
     try:
         f_R, R = np.load(os.path.join(resources.files("legwork"),"R.npy"), allow_pickle=True)
-    except FileExistsError:  # pragma: no cover
+    except FileNotFoundError:  # pragma: no cover
         logger.warning("Can't find response function file, using approximation instead")
         return approximate_response_function(f, fstar)
 
-- 
2.43.0


From 41028897fe7c59c47d88145aa4a39a39bda2b601 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:04 +0000
Subject: [PATCH 02/11] fix: keep the weights of sources evolved into a new
 collection

---
 src/legwork/source.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/legwork/source.py b/src/legwork/source.py
index 991edcc..c0ea545 100644
--- a/src/legwork/source.py
+++ b/src/legwork/source.py
@@ -1291,7 +1291,7 @@ class Source():
             evolved_sources = Source(m_1=self.m_1, m_2=self.m_2, ecc=ecc_evol, dist=self.dist,
                                      n_proc=self.n_proc, f_orb=f_orb_evol, position=self.position,
                                      polarisation=self.polarisation, inclination=self.inclination,
-                                     gw_lum_tol=self.gw_lum_tol, stat_tol=self.stat_tol,
+                                     weights=self.weights, gw_lum_tol=self.gw_lum_tol, stat_tol=self.stat_tol,
                                      interpolate_g=False, interpolate_sc=False, sc_params=self.sc_params)
 
             # copy over interpolated g and sc
-- 
2.43.0


From ce06e000b0152fba888655acdba06858ffb5e7e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:04 +0000
Subject: [PATCH 03/11] fix: evolved copies keep the collection's choice of
 interpolating the sensitivity curve

---
 src/legwork/source.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/legwork/source.py b/src/legwork/source.py
index c0ea545..0371ed9 100644
--- a/src/legwork/source.py
+++ b/src/legwork/source.py
@@ -1296,7 +1296,7 @@ class Source():
 
             # copy over interpolated g and sc
             evolved_sources.g = self.g
-            evolved_sources.interpolate_sc = True
+            evolved_sources.interpolate_sc = self.interpolate_sc
             evolved_sources.sc = self.sc
             evolved_sources.t_merge = None
 
-- 
2.43.0


From 07375d1523f23afded579daacd82c13a8afc6287 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:43 +0000
Subject: [PATCH 04/11] fix: keep an automatic observation time automatic when
 calculating SNRs

---
 src/legwork/source.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/legwork/source.py b/src/legwork/source.py
index 0371ed9..eaf907d 100644
--- a/src/legwork/source.py
+++ b/src/legwork/source.py
@@ -981,8 +981,6 @@ class Source():
 
         instrument = self.sc_params["instrument"] if instrument is None else instrument
         t_obs = self.sc_params["t_obs"] if t_obs is None else t_obs
-        if t_obs == "auto":
-            t_obs = 4 * u.yr if instrument == "LISA" else 5 * u.yr
         custom_psd = self.sc_params["custom_psd"] if custom_psd is None else custom_psd
         L = self.sc_params["L"] if L is None else L
         approximate_R = self.sc_params["approximate_R"] if approximate_R is None else approximate_R
@@ -992,6 +990,8 @@ class Source():
         self.sc_params.update({"t_obs": t_obs, "instrument": instrument, "custom_psd": custom_psd,
                                "L": L, "approximate_R": approximate_R,
                                "confusion_noise": confusion_noise})
+        if t_obs == "auto":
+            t_obs = 4 * u.yr if instrument == "LISA" else 5 * u.yr
 
         insp_sources = np.logical_and(which_sources, np.logical_not(self.merged))
         snr = np.zeros(self.n_sources)
@@ -1111,8 +1111,6 @@ class Source():
 
         instrument = self.sc_params["instrument"] if instrument is None else instrument
         t_obs = self.sc_params["t_obs"] if t_obs is None else t_obs
-        if t_obs == "auto":
-            t_obs = 4 * u.yr if instrument == "LISA" else 5 * u.yr
         custom_psd = self.sc_params["custom_psd"] if custom_psd is None else custom_psd
         L = self.sc_params["L"] if L is None else L
         approximate_R = self.sc_params["approximate_R"] if approximate_R is None else approximate_R
@@ -1122,6 +1120,8 @@ class Source():
         self.sc_params.update({"t_obs": t_obs, "instrument": instrument, "custom_psd": custom_psd,
                                "L": L, "approximate_R": approximate_R,
                                "confusion_noise": confusion_noise})
+        if t_obs == "auto":
+            t_obs = 4 * u.yr if instrument == "LISA" else 5 * u.yr
 
         insp_sources = np.logical_and(which_sources, np.logical_not(self.merged))
         e_mask = np.logical_and(self.ecc > self.ecc_tol, insp_sources)
-- 
2.43.0


From df93b54c5959166ed7f68d3a39dc946a11df1c9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:43 +0000
Subject: [PATCH 05/11] fix: use DECIGO's own default observation time for its
 sources

---
 src/legwork/source.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/legwork/source.py b/src/legwork/source.py
index eaf907d..0a5c6cf 100644
--- a/src/legwork/source.py
+++ b/src/legwork/source.py
@@ -721,7 +721,7 @@ class Source():
         elif stationary is True or stationary is False:
             t_obs = self.sc_params["t_obs"] if t_obs is None else t_obs
             if t_obs == "auto":
-                t_obs = 4 * u.yr if self.sc_params["instrument"] == "LISA" else 5 * u.yr
+                t_obs = 4 * u.yr if self.sc_params["instrument"] in ["LISA", "DECIGO"] else 5 * u.yr
             stat_mask = evol.determine_stationarity(m_c=self.m_c, f_orb_i=self.f_orb, t_evol=t_obs,
                                                     ecc_i=self.ecc, stat_tol=self.stat_tol)
             if stationary is False:
@@ -991,7 +991,7 @@ class Source():
                                "L": L, "approximate_R": approximate_R,
                                "confusion_noise": confusion_noise})
         if t_obs == "auto":
-            t_obs = 4 * u.yr if instrument == "LISA" else 5 * u.yr
+            t_obs = 4 * u.yr if instrument in ["LISA", "DECIGO"] else 5 * u.yr
 
         insp_sources = np.logical_and(which_sources, np.logical_not(self.merged))
         snr = np.zeros(self.n_sources)
@@ -1121,7 +1121,7 @@ class Source():
                                "L": L, "approximate_R": approximate_R,
                                "confusion_noise": confusion_noise})
         if t_obs == "auto":
-            t_obs = 4 * u.yr if instrument == "LISA" else 5 * u.yr
+            t_obs = 4 * u.yr if instrument in ["LISA", "DECIGO"] else 5 * u.yr
 
         insp_sources = np.logical_and(which_sources, np.logical_not(self.merged))
         e_mask = np.logical_and(self.ecc > self.ecc_tol, insp_sources)
-- 
2.43.0


From 77ea1fdd1376f4ed79611967687dbe73631d2c91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:48 +0000
Subject: [PATCH 06/11] fix: check and follow sensitivity curve parameters
 changed by |= and setdefault

---
 src/legwork/source.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/legwork/source.py b/src/legwork/source.py
index 0a5c6cf..7db1dd8 100644
--- a/src/legwork/source.py
+++ b/src/legwork/source.py
@@ -1577,6 +1577,15 @@ class SensitivityCurveParams(dict):
         if changed:
             self._re_interpolate()
 
+    def __ior__(self, params):
+        self.update(params)
+        return self
+
+    def setdefault(self, key, default=None):
+        """Get a parameter, which always has a value already"""
+        self._check_keys([key])
+        return self[key]
+
     def __copy__(self):
         """Copy the parameters without triggering any re-interpolation"""
         return SensitivityCurveParams(dict(self), source=self._source)
-- 
2.43.0


From 3752f5f03ba89c03b51652ea51fb232bf71d0b11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:35 +0000
Subject: [PATCH 07/11] fix: draw orientations for a single source given as
 scalars

---
 src/legwork/source.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/legwork/source.py b/src/legwork/source.py
index 7db1dd8..4f7d356 100644
--- a/src/legwork/source.py
+++ b/src/legwork/source.py
@@ -151,11 +151,11 @@ class Source():
             if inclination is None:
                 logger.info("Generating random values for source inclinations")
                 # inclination is sampled uniformly in cos(i) to get a range of [0, pi/2]
-                inclination = np.arccos(np.random.uniform(0, 1, len(m_1))) * u.rad
+                inclination = np.arccos(np.random.uniform(0, 1, np.size(m_1))) * u.rad
             if polarisation is None:
                 logger.info("Generating random values for source polarisations")
                 # polarisation is sampled from 0 to pi following Flanagan & Hughes 1998 (e.g. Eq. 2.34)
-                polarisation = np.random.uniform(0, np.pi, len(m_1)) * u.rad
+                polarisation = np.random.uniform(0, np.pi, np.size(m_1)) * u.rad
 
         # ensure position is in the correct coordinate frame
         if position is not None:
-- 
2.43.0


From cebd87fa7f5b459a2b77587ac47a3a92a47f705b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:38 +0000
Subject: [PATCH 08/11] fix: check the length of the weights of a collection

---
 src/legwork/source.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/legwork/source.py b/src/legwork/source.py
index 4f7d356..3362058 100644
--- a/src/legwork/source.py
+++ b/src/legwork/source.py
@@ -189,6 +189,8 @@ class Source():
 
         # ensure all array arguments are the same length
         array_args = [m_1, m_2, dist, f_orb, ecc]
+        if weights is not None:
+            array_args.append(weights)
         length_check = np.array([len(arg) != len(array_args[0])
                                  for arg in array_args])
         if length_check.any():
-- 
2.43.0


From 0ab3de0b5fe6e9370f9e7c2cbe16a9b5ede41648 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:22 +0000
Subject: [PATCH 09/11] fix: keep SNRs returned earlier when SNRs are
 calculated again

---
 src/legwork/source.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/legwork/source.py b/src/legwork/source.py
index 3362058..3b274cb 100644
--- a/src/legwork/source.py
+++ b/src/legwork/source.py
@@ -1054,10 +1054,15 @@ class Source():
 
         if self.max_snr_harmonic is None:
             self.max_snr_harmonic = np.zeros(self.n_sources).astype(int)
+        else:
+            # arrays that were returned earlier must keep their values
+            self.max_snr_harmonic = self.max_snr_harmonic.copy()
         self.max_snr_harmonic[insp_sources] = msh[insp_sources]
 
         if self.snr is None:
             self.snr = np.zeros(self.n_sources)
+        else:
+            self.snr = self.snr.copy()
         self.snr[insp_sources] = snr[insp_sources]
 
         return snr[which_sources]
@@ -1181,10 +1186,15 @@ class Source():
 
         if self.max_snr_harmonic is None:
             self.max_snr_harmonic = np.zeros(self.n_sources).astype(int)
+        else:
+            # arrays that were returned earlier must keep their values
+            self.max_snr_harmonic = self.max_snr_harmonic.copy()
         self.max_snr_harmonic[insp_sources] = msh[insp_sources]
 
         if self.snr is None:
             self.snr = np.zeros(self.n_sources)
+        else:
+            self.snr = self.snr.copy()
         self.snr[insp_sources] = snr[insp_sources]
 
         return snr[which_sources]
-- 
2.43.0


From 37d56d9acd16968a62dfedb80faefb72e9a75a9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:25 +0000
Subject: [PATCH 10/11] fix: don't change the timesteps given to evol_ecc

---
 src/legwork/evol.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/legwork/evol.py b/src/legwork/evol.py
index 759114a..7f09b48 100644
--- a/src/legwork/evol.py
+++ b/src/legwork/evol.py
@@ -384,6 +384,8 @@ def evol_ecc(ecc_i, t_evol=None, n_step=100, timesteps=None, beta=None, m_1=None
 
         if np.any(too_close):
             # set them all equal to the previous timestep before passing limit
+            # (in a copy as these may be the arrays that the user provided)
+            timesteps = timesteps.copy()
             timesteps[too_close] = -1 * u.Gyr
             previous = timesteps.max(axis=1).repeat(timesteps.shape[1])
             timesteps[too_close] = previous.reshape(timesteps.shape)[too_close]
-- 
2.43.0


From 8775f7d9c3f052389889faec37408eab17814d77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:24 +0000
Subject: [PATCH 11/11] fix: warn about eccentric evolving sources, not
 circular ones twice

---
 src/legwork/source.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/legwork/source.py b/src/legwork/source.py
index 3b274cb..35e7c0f 100644
--- a/src/legwork/source.py
+++ b/src/legwork/source.py
@@ -1518,7 +1518,7 @@ class Source():
             logger.warning("{} circular and evolving sources detected, plotting not yet implemented "
                            "for evolving sources.".format(len(circ_evol[circ_evol])))
 
-        ecc_evol = self.get_source_mask(circular=True, stationary=False)
+        ecc_evol = self.get_source_mask(circular=False, stationary=False)
         ecc_evol = np.logical_and.reduce((ecc_evol, detectable, inspiraling))
         if ecc_evol.any():
             logger.warning("{} eccentric and evolving sources detected, plotting not yet implemented "
-- 
2.43.0

